from spec import *
PID = 'M01'
F = ['math/CompressedMatrix.cc']
C = 'dsMath::CompressedMatrix<double>'
LEVEL = 'proof'
NATIVE = 'M01'
BOUNDED = [('history', ['CompressedMatrix::CreateMatrix', 'CompressedMatrix::Finalize'], 'hash-map iteration followed by an in-place sort is outside the engine; random operation histories (n<=6, <=26 operations) are compared with a dense model')]
CCM, CRM = 0, 1


def csr(st, ap, ai, n, nnz):
    """offsets are monotone and in range, minor indices are in range (triggers create no new terms)"""
    i, j = z3.Ints('i j')
    st.assume(ap(0) == 0)
    st.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i <= n), z3.And(0 <= ap(i), ap(i) <= nnz)), patterns=[ap(i)]))
    st.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i <= j, j <= n), ap(i) <= ap(j)), patterns=[z3.MultiPattern(ap(i), ap(j))]))
    st.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < nnz), z3.And(0 <= ai(i), ai(i) < n)), patterns=[ai(i)]))


def located(st, ap, ai, n, nnz, sh, sv):
    """the column maps locate exactly the stored entries; col(w) is the column of position w"""
    col = z3.Function(freshname('col'), I, I)
    q, w = z3.Ints('q w')
    e = z3.Int('e')
    st.assume(z3.ForAll([w], z3.Implies(z3.And(0 <= w, w < nnz), z3.And(0 <= col(w), col(w) < n)), patterns=[ai(w)]))
    st.assume(z3.ForAll([w, q, e], z3.Implies(z3.And(0 <= w, w < nnz, col(w) == q, ai(w) == e), z3.And(sh(q, e), sv(q, e) == w)), patterns=[z3.MultiPattern(ai(w), sh(q, e))]))
    st.assume(z3.ForAll([w, q], z3.Implies(z3.And(0 <= w, w < nnz, 0 <= q, q <= n), z3.And(z3.Implies(ap(q) <= w, col(w) >= q), z3.Implies(w < ap(q), col(w) < q))), patterns=[z3.MultiPattern(col(w), ap(q))]))
    st.assume(z3.ForAll([q, w], z3.Implies(z3.And(0 <= q, q < n, sh(q, w)), z3.And(0 <= sv(q, w), sv(q, w) < nnz, ai(sv(q, w)) == w, col(sv(q, w)) == q)), patterns=[sv(q, w)]))


def matrix(u, st, n=None):
    """symbolic compressed matrix satisfying the storage invariant"""
    ex = u.ex
    M = ex.obj(C)
    ex.dyn[ex.rootcls(C)] = C
    if n is None:
        n = fresh('n')
        st.assume(n >= 0)
    fl = lambda m: ex.fld(M, C, m)
    _, ap = u.vec(st, fl('Ap_'), 'Ap', 'i', n=n + 1)
    nnz, ai = u.vec(st, fl('Ai_'), 'Ai', 'i')
    _, ax = u.vec(st, fl('Ax_'), 'Ax', 'r', n=nnz)
    _, az = u.vec(st, fl('Az_'), 'Az', 'r', n=nnz)
    csr(st, ap, ai, n, nnz)
    u.set(st, fl('compressed_'), 'i', 1) if False else None
    return M, n, ap, ai, ax, az, nnz


def prod(u, name, meth, ct, trans, cplx=False):
    @unit(PID, name, F, [meth])
    def _(u):
        ex = u.fresh_exec()
        st = State()
        M, n, ap, ai, ax, az, nnz = matrix(u, st)
        u.set(st, ex.fld(M, C, 'compressionType_'), 'i', ct)
        x, y = Loc(('v', 'x')), Loc(('v', 'y'))
        if not cplx:
            _, X = u.vec(st, x, 'x', 'r', n=n)
            f = u.fn('dsMath::CompressedMatrix::' + meth, 'CompressedMatrix<double>', '(std::vector<double')
        else:
            X = z3.Function('xr', I, R)
            Xi = z3.Function('xi', I, R)
            u.set(st, x.mark('len'), 'i', n)
            e = x.seg('e', 0)
            u.family(e, 'r', lambda i: X(zi(i)))
            u.family(e.plus(8), 'r', lambda i: Xi(zi(i)))
            f = u.fn('dsMath::CompressedMatrix::' + meth, 'CompressedMatrix<double>', '(std::vector<std::complex')
        _, st2 = u.run(f, [M, x, y], st)
        k = u.idx(st2, 'k', n)
        c, s = z3.Int('c_'), z3.Int('s_')

        def want(part):
            def term(c, s):
                p = ap(c) + s
                return part(p, c)
            bycol = (ct == CCM) != trans       # scatter over the minor index
            if bycol:
                return SUM(c, SUM(s, ITE(EQ(ai(ap(c) + s), k), term(c, s)(c), 0), ap(c + 1) - ap(c)), n)
            return SUM(s, term(k, s)(None), ap(k + 1) - ap(k))

        def real(p, c):
            return lambda j: ax(p) * X(ai(p) if j is None else j)
        u.sat('matrix invariant', st2)
        u.prove('result has one entry per row', st2, EQ(u.len(st2, y), n))
        if not cplx:
            u.prove('result entry is the sum of stored entries times the operand', st2, EQ(u.at(st2, y, k), want(real)))
        else:
            re = lambda p, c: (lambda j: ax(p) * X(ai(p) if j is None else j) - az(p) * Xi(ai(p) if j is None else j))
            im = lambda p, c: (lambda j: az(p) * X(ai(p) if j is None else j) + ax(p) * Xi(ai(p) if j is None else j))
            e = y.seg('e', k)
            u.prove('real part', st2, EQ(ex.loadk(st2, e, 'r'), want(re)))
            u.prove('imaginary part', st2, EQ(ex.loadk(st2, e.plus(8), 'r'), want(im)))


for ct, nm in ((CCM, 'CCM'), (CRM, 'CRM')):
    prod(None, 'Multiply_' + nm, 'Multiply', ct, False)
    prod(None, 'TransposeMultiply_' + nm, 'TransposeMultiply', ct, True)
    prod(None, 'MultiplyComplex_' + nm, 'Multiply', ct, False, True)
    prod(None, 'TransposeMultiplyComplex_' + nm, 'TransposeMultiply', ct, True, True)


def mapstate(u, st, M, n, which):
    """symbolic contents of the column maps: has(c,key), val(c,key)"""
    ex = u.ex
    v = ex.fld(M, C, which)
    u.set(st, v.mark('len'), 'i', n)
    has = z3.Function(freshname(which + '_has'), I, I, B)
    kind = 'i' if which == 'Symbolic_' else 'r'
    val = z3.Function(freshname(which + '_val'), I, I, KSORT[kind])
    e = v.seg('e', 0)
    u.family(e.seg('m', 0).mark('has'), 'b', lambda *ix: has(zi(ix[-2]), zi(ix[-1])))
    u.family(e.seg('m', 0), kind, lambda *ix: ITE(has(zi(ix[-2]), zi(ix[-1])), val(zi(ix[-2]), zi(ix[-1])), 0))
    return v, has, val


def rd(u, st, v, c, key, kind):
    e = v.seg('e', c)
    return u.ex.loadk(st, e.seg('m', key).mark('has'), 'b'), u.ex.loadk(st, e.seg('m', key), kind)


def addentry(name, ct, comp, imag):
    @unit(PID, name, F, ['AddEntry', 'AddEntryImpl', 'AddSymbolicImpl', 'DecompressMatrix'])
    def _(u):
        ex = u.fresh_exec()
        ex.P.qcap = 120
        st = State()
        M, n, ap, ai, ax, az, nnz = matrix(u, st)
        u.set(st, ex.fld(M, C, 'compressionType_'), 'i', ct)
        u.set(st, ex.fld(M, C, 'matType_'), 'i', 1 if imag else 0)
        u.set(st, ex.fld(M, C, 'compressed'), 'i', 1 if comp else 0)
        S, sh, sv = mapstate(u, st, M, n, 'Symbolic_')
        O, oh, ov = mapstate(u, st, M, n, 'OutOfBandEntries_Imag' if imag else 'OutOfBandEntries_Real')
        O2, oh2, ov2 = mapstate(u, st, M, n, 'OutOfBandEntries_Real' if imag else 'OutOfBandEntries_Imag')
        sz = ex.member('dsMath::Matrix<double>', 'size_') if False else None
        r, c = u.idx(st, 'r', n), u.idx(st, 'c', n)
        v = fresh('v', R)
        q, w = z3.Ints('q w')
        A = az if imag else ax
        if comp:
            # storage invariant: the column map locates each stored entry; nothing is pending
            located(st, ap, ai, n, nnz, sh, sv)
            st.assume(z3.ForAll([q, w], z3.Not(oh(q, w)), patterns=[oh(q, w)]))
            st.assume(z3.ForAll([q, w], z3.Not(oh2(q, w)), patterns=[oh2(q, w)]))
        f = u.fn('dsMath::CompressedMatrix::' + ('AddImagEntry' if imag else 'AddEntry'), 'CompressedMatrix<double>', '(int, int, double)')
        # abstract value of entry (i,j) in major/minor storage coordinates
        s2 = u.run(f, [M, r, c, v], st)[1]
        mr, mc = (c, r) if ct == CRM else (r, c)          # storage row / column
        i, j = u.idx(s2, 'i', n), u.idx(s2, 'j', n)
        hit = AND(EQ(i, mr), EQ(j, mc))
        t = z3.Int('t_')
        fl = lambda m: ex.fld(M, C, m)
        cmp2 = u.get(s2, fl('compressed'), 'i')

        def value(stt, compressed):
            h, m = rd(u, stt, O, i, j, 'r')
            oob = m
            return oob
        A2 = fl('Az_' if imag else 'Ax_')
        u.sat('storage invariant', s2)
        if not comp:
            h, m = rd(u, s2, O, i, j, 'r')
            u.prove('pending value of (i,j) grows by v exactly at (r,c)', s2, EQ(m, add(ITE(oh(i, j), ov(i, j), 0), ITE(hit, v, 0))))
            h, m = rd(u, s2, S, j, i, 'i')
            u.prove('the pattern gains exactly (r,c)', s2, IMP(NOT(EQ(v, 0)), EQ(h, OR(sh(j, i), hit))))
            h2, m2 = rd(u, s2, O2, i, j, 'r')
            u.prove('the other part is untouched', s2, AND(EQ(h2, oh2(i, j)), IMP(oh2(i, j), EQ(m2, ov2(i, j)))))
            u.prove('stays uncompressed', s2, EQ(cmp2, 0))
        else:
            there = sh(mc, mr)
            h, m = rd(u, s2, O, i, j, 'r')
            pend = m
            k = u.idx(s2, 'k', nnz)
            stored = u.at(s2, A2, k)
            u.prove('an entry of the pattern: stays compressed', s2, IMP(OR(there, EQ(v, 0)), AND(EQ(cmp2, 1), NOT(h))))
            u.prove('an entry of the pattern: stored value grows by v at its position only', s2, IMP(there, EQ(stored, add(A(k), ITE(EQ(k, sv(mc, mr)), v, 0)))))
            u.prove('zero contributions change nothing', s2, IMP(EQ(v, 0), EQ(stored, A(k))))
            old = SUM(t, ITE(EQ(ai(ap(j) + t), i), A(ap(j) + t), 0), ap(j + 1) - ap(j))
            new = AND(NOT(there), NOT(EQ(v, 0)))
            u.prove('a new entry: all stored values become pending, plus v at (r,c)', s2, IMP(new, EQ(pend, add(old, ITE(hit, v, 0)))))
            u.prove('a new entry: decompressed', s2, IMP(new, EQ(cmp2, 0)))
            hs, ms = rd(u, s2, S, j, i, 'i')
            u.prove('a new entry: the pattern is kept and gains (r,c)', s2, IMP(new, IMP(OR(sh(j, i), hit), hs)))


for ct, nm in ((CCM, 'CCM'), (CRM, 'CRM')):
    for comp in (0, 1):
        for imag in (0, 1):
            addentry('%s_%s_%s' % ('AddImagEntry' if imag else 'AddEntry', nm, 'compressed' if comp else 'open'), ct, comp, imag)


def clear(name, cplx, comp):
    @unit(PID, name, F, ['ClearMatrix'])
    def _(u):
        """zeroing keeps the pattern and makes every entry zero, with a pending slot for each row"""
        ex = u.fresh_exec()
        st = State()
        M, n, ap, ai, ax, az, nnz = matrix(u, st)
        u.set(st, ex.fld(M, C, 'matType_'), 'i', cplx)
        u.set(st, ex.fld(M, C, 'compressed'), 'i', comp)
        u.set(st, ex.fld(M, ex.rootcls(C), 'size_'), 'i', n)
        S, sh, sv = mapstate(u, st, M, n, 'Symbolic_')
        names = ['OutOfBandEntries_Real'] + (['OutOfBandEntries_Imag'] if cplx else [])
        for w in names:
            mapstate(u, st, M, n, w)
        s2 = u.run(u.fn('dsMath::CompressedMatrix::ClearMatrix', 'CompressedMatrix<double>'), [M], st)[1]
        u.sat('storage invariant', s2)
        i, j, k = u.idx(s2, 'i', n), u.idx(s2, 'j', n), u.idx(s2, 'k', nnz)
        fl = lambda m: ex.fld(M, C, m)
        for w in ['Ax_'] + (['Az_'] if cplx else []):
            u.prove('stored values %s are zero' % w, s2, AND(EQ(u.len(s2, fl(w)), nnz), EQ(u.at(s2, fl(w), k), 0)))
        for w in names:
            h, m = rd(u, s2, fl(w), i, j, 'r')
            u.prove('nothing pending in %s and one slot per row' % w, s2, AND(NOT(h), EQ(m, 0), EQ(u.len(s2, fl(w)), n)))
        h, m = rd(u, s2, S, i, j, 'i')
        u.prove('pattern unchanged', s2, AND(EQ(h, sh(i, j)), IMP(sh(i, j), EQ(m, sv(i, j))), EQ(u.at(s2, fl('Ai_'), k, 'i'), ai(k)), EQ(u.at(s2, fl('Ap_'), i, 'i'), ap(i)), EQ(u.get(s2, fl('compressed'), 'i'), comp)))


for cplx in (0, 1):
    for comp in (0, 1):
        clear('ClearMatrix_%s_%s' % ('complex' if cplx else 'real', 'compressed' if comp else 'open'), cplx, comp)

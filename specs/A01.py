from types import SimpleNamespace
from spec import *
import lib
PID = 'A01'
LEVEL = 'proof'
NATIVE = 'A01'
NW = 'math/Newton.cc'
N = 'dsMath::Newton<double>'
MATRIXONLY, RHS, BOTH, PERM = 0, 1, 2, 3


class Sys:
    """the solver's matrix, known by its weighted totals, and its right hand side"""

    def __init__(self, u, cx, offset=True):
        self.u, self.cx = u, cx
        self.ex = ex = u.fresh_exec()
        self.st = st = State()
        self.me = ex.obj(N)
        u.set(st, ex.fld(self.me, N, 'rhssign'), 'r', Fraction(-1))       # set by the constructor, const
        self.mat = ref(ex.rootcls('dsMath::Matrix<double>'), 0)
        ex.dyn[ex.rootcls('dsMath::Matrix<double>')] = 'dsMath::CompressedMatrix<double>'
        self.phi = z3.Function('weight', I, I, R)
        self.g = [Loc(('v', 'matrix total ' + c)) for c in ('re', 'im')]
        self.g0 = [fresh('total' + c, R) for c in ('re', 'im')]
        for l, x in zip(self.g, self.g0):
            u.set(st, l, 'r', x)
        ex.contracts.append((lambda m, dn, sn: sn.endswith('Matrix::AddEntry') and 'Compressed' in sn or sn == 'dsMath::Matrix::AddEntry', self.entry))
        self.scl = [fresh('scale', R), fresh('scaleIm', R)] if cx else [fresh('scale', R), zr(0)]
        self.sarg = self.scl if cx else self.scl[:1]

    def entry(self, ex, st, ins, a):
        r, c, v = a[1], a[2], list(a[3:])
        if isinstance(v[0], Loc):
            v = [ex.loadk(st, v[0], 'r'), ex.loadk(st, v[0].plus(8), 'r')]
        self.u_same(ex, st, a[0])
        for l, x in zip(self.g, v + [zr(0)]):
            ex.storek(st, l, 'r', add(ex.loadk(st, l, 'r'), mul(self.phi(zi(r), zi(c)), zr(x))))

    def u_same(self, ex, st, m):
        ex.oblige(st, 'the matrix of the caller', z3.BoolVal(m.key() == self.mat.key()))

    def fn(self, name):
        t = 'std::complex<double>' if self.cx else 'double'
        q = [f for f in self.u.prog.funcs.values() if names.strip(f['dn']) == 'dsMath::Newton::' + name and ('Newton<double>::%s<%s>(' % (name, t)) in f['dn']]
        return q[0]


def triplets(S, name, rhs=False):
    u, st = S.u, S.st
    l = Loc(('v', name))
    n = fresh('n_' + name)
    st.assume(n >= 0)
    row, col, val = z3.Function(name + 'Row', I, I), z3.Function(name + 'Col', I, I), z3.Function(name + 'Val', I, R)
    e = l.seg('e', 0)
    u.set(st, l.mark('len'), 'i', n)
    u.family(e, 'i', lambda *ix: norm(row(zi(ix[-1]))))
    u.family(e.plus(8), 'r', lambda *ix: norm(val(zi(ix[-1]))))
    i = z3.Int('i')
    st.assume(z3.ForAll([i], row(i) >= 0, patterns=[row(i)]))
    if not rhs:
        u.family(e.plus(4), 'i', lambda *ix: norm(col(zi(ix[-1]))))
        st.assume(z3.ForAll([i], col(i) >= 0, patterns=[col(i)]))
    return l, n, row, col, val


def perm(S, rows):
    """the permutation of the rows: target (or none) and whether the original row gets a copy"""
    u, st, ex = S.u, S.st, S.ex
    l = Loc(('v', 'permvec'))
    to, keep = z3.Function('target', I, I), z3.Function('keepCopy', I, B)
    i = z3.Int('i')
    st.assume(z3.ForAll([i], z3.And(to(i) >= -1, to(i) < rows), patterns=[to(i)]))
    u.set(st, l.mark('len'), 'i', rows)
    e = l.seg('e', 0)
    u.family(ex.fld(e, 'PermutationEntry', 'newrow'), 'i', lambda *ix: norm(to(zi(ix[-1]))))
    u.family(ex.fld(e, 'PermutationEntry', 'keepcopy'), 'i', lambda *ix: ITE(keep(zi(ix[-1])), 1, 0))
    return l, to, keep


def matrix_load(name, cx, permuted):
    @unit(PID, '%s%s' % (name, ' complex' if cx else ''), [NW, 'math/CompressedMatrix.cc', 'Geometry/Permutation.cc'], ['dsMath::Newton::' + name])
    def _(u):
        """every entry is added once, scaled, at its row (the target of its row; with a copy: both) and its column"""
        S = Sys(u, cx)
        l, n, row, col, val = triplets(S, 'entry')
        off = fresh('offset')
        S.st.assume(off >= 0)
        rows = fresh('rows')
        args = [S.me, l, S.mat]
        k = z3.Int('k')
        if permuted:
            pl, to, keep = perm(S, rows)
            S.st.assume(z3.ForAll([k], row(k) < rows, patterns=[row(k)]))
            args.append(pl)
        s = u.run(S.fn(name), args + S.sarg + [off], S.st)[1]
        u.sat('any', s)
        w = lambda r: S.phi(zi(r) + off, col(k) + off)
        if permuted:
            body = lambda x: ITE(to(row(k)) == -1, zr(0), ITE(keep(row(k)), x * w(to(row(k))) + x * w(row(k)), x * w(to(row(k)))))
        else:
            body = lambda x: x * w(row(k))
        for c, l, x0, sc in zip(('real', 'imaginary'), S.g, S.g0, S.scl):
            if c == 'real' or cx:
                u.prove('total of the %s entries' % c, s, EQ(u.get(s, l, 'r'), x0 + SUM(k, body(sc * val(k)), n)))


def rhs_load(name, cx, permuted):
    @unit(PID, '%s%s' % (name, ' complex' if cx else ''), [NW, 'Geometry/Permutation.cc'], ['dsMath::Newton::' + name])
    def _(u):
        """every entry is subtracted once, scaled, from its row (the target of its row; with a copy: both)"""
        S = Sys(u, cx)
        l, n, row, col, val = triplets(S, 'entry', True)
        off, rows = fresh('offset'), fresh('rows')
        v = Loc(('v', 'rhs'))
        k = z3.Int('k')
        S.st.assume(z3.And(off >= 0, rows >= 0))
        S.st.assume(z3.ForAll([k], row(k) + off < rows, patterns=[row(k)]))
        u.set(S.st, v.mark('len'), 'i', rows)
        fr = [z3.Function('rhs' + c, I, R) for c in ('Re', 'Im')]
        u.family(v.seg('e', 0), 'r', lambda *ix: norm(fr[0](zi(ix[-1]))))
        if cx:
            u.family(v.seg('e', 0).plus(8), 'r', lambda *ix: norm(fr[1](zi(ix[-1]))))
        args = [S.me, l, v]
        if permuted:
            pl, to, keep = perm(S, rows - off)
            args.append(pl)
        s = u.run(S.fn(name), args + S.sarg + [off], S.st)[1]
        u.sat('any', s)
        i = u.idx(s, 'i', rows)
        hit = lambda r: zb(EQ(add(zi(r), off), i))
        if permuted:
            both = lambda x, a, b: ITE(a, ITE(b, 2 * x, x), ITE(b, x, zr(0)))
            body = lambda x: ITE(to(row(k)) == -1, zr(0), ITE(keep(row(k)), both(x, hit(to(row(k))), hit(row(k))), ITE(hit(to(row(k))), x, zr(0))))
        else:
            body = lambda x: ITE(hit(row(k)), x, zr(0))
        for c, d, x0, sc in zip(('real', 'imaginary'), (0, 8), fr, S.scl):
            if c == 'real' or cx:
                e = v.seg('e', i)
                u.prove('%s part of a row' % c, s, EQ(u.get(s, e.plus(d) if d else e, 'r'), x0(i) - SUM(k, body(sc * val(k)), n)))
        u.prove('number of rows', s, EQ(u.len(s, v), rows))


for _cx in (False, True):
    matrix_load('LoadIntoMatrix', _cx, False)
    matrix_load('LoadIntoMatrixPermutated', _cx, True)
    rhs_load('LoadIntoRHS', _cx, False)
    rhs_load('LoadIntoRHSPermutated', _cx, True)


@unit(PID, 'sign of the right hand side', [NW], ['dsMath::Newton::Newton'])
def _(u):
    """a new solver subtracts residuals"""
    ex = u.fresh_exec()
    st = State()
    me = ex.obj(N)
    s = u.run(u.fn('dsMath::Newton::Newton', N), [me], st)[1]
    u.prove('sign', s, EQ(u.get(s, ex.fld(me, N, 'rhssign'), 'r'), Fraction(-1)))


def setfam(ex, st, loc, kind, V):
    st.mem[loc.key() + (kind,)] = lib.Over(ex.node(st, loc.key(), kind), lambda *ix: True, lambda *ix: V(*ix))


@unit(PID, 'rows that contacts and interfaces take over', [NW, 'Geometry/Permutation.cc'], ['dsMath::Newton::AssembleContactsAndInterfaces'])
def _(u):
    """contacts, then interfaces of the device are assembled into the given lists, and exactly the rows that they name are permuted"""
    S = Sys(u, False)
    ex, st = S.ex, S.st
    rows = fresh('rows')
    pl, to, keep = perm(S, rows)
    m, v, dev = Loc(('v', 'mat')), Loc(('v', 'rhs')), ref(ex.rootcls('Device'), fresh('device'))
    w, t = fresh('what'), fresh('mode')
    has, nto, nkeep = z3.Function('named', I, B), z3.Function('newTarget', I, I), z3.Function('newCopy', I, B)
    i = z3.Int('i')
    st.assume(z3.ForAll([i], z3.Implies(has(i), z3.And(0 <= i, i < rows)), patterns=[has(i)]))
    g = Loc(('v', 'calls'))
    u.set(st, g, 'i', 0)
    named = fresh('numNamed')
    st.assume(named >= 0)

    def asm(k):
        def h(ex, st, ins, a):
            ex.oblige(st, 'the device and lists of the caller', AND(z3.BoolVal(a[1].key() == m.key() and a[2].key() == v.key()), EQ(ex.enc(a[0]) if hasattr(ex, 'enc') else a[0].rid, ex.enc(dev) if hasattr(ex, 'enc') else dev.rid), EQ(a[4], w), EQ(a[5], t)))
            ex.oblige(st, 'contacts first', EQ(ex.loadk(st, g, 'i'), k))
            ex.storek(st, g, 'i', k + 1)
            p = a[3]
            if k == 0:
                S.pkey = p.key()
                return
            ex.oblige(st, 'one set of permutations', z3.BoolVal(p.key() == S.pkey))
            e = p.seg('m', 0)
            setfam(ex, st, e.mark('has'), 'b', lambda *ix: has(zi(ix[-1])))
            setfam(ex, st, ex.fld(e, 'PermutationEntry', 'newrow'), 'i', lambda *ix: norm(nto(zi(ix[-1]))))
            setfam(ex, st, ex.fld(e, 'PermutationEntry', 'keepcopy'), 'i', lambda *ix: ITE(nkeep(zi(ix[-1])), 1, 0))
            ex.storek(st, p.mark('msize'), 'i', named)
        return h
    ex.contracts.append(('Device::ContactAssemble', asm(0)))
    ex.contracts.append(('Device::InterfaceAssemble', asm(1)))
    s = u.run(u.fn('dsMath::Newton::AssembleContactsAndInterfaces', N), [S.me, m, v, pl, dev, w, t], st)[1]
    u.sat('any', s)
    u.prove('both are assembled', s, EQ(u.get(s, g, 'i'), 2))
    r = u.idx(s, 'r', rows)
    e = pl.seg('e', r)
    u.prove('target', s, EQ(u.get(s, ex.fld(e, 'PermutationEntry', 'newrow'), 'i'), ITE(has(r), nto(r), to(r))))
    u.prove('copy', s, EQ(u.get(s, ex.fld(e, 'PermutationEntry', 'keepcopy'), 'i'), ITE(ITE(has(r), nkeep(r), keep(r)), 1, 0)))
    u.prove('number of rows', s, EQ(u.len(s, pl), rows))


def walk(fname, owner, field, target, callee, files, perm_arg=True, guard=None, tag=''):
    @unit(PID, '%s%s' % (fname, tag), files, [fname])
    def _(u):
        """every part is assembled exactly once, into the lists of the caller, for what and in the mode of the caller"""
        ex = u.fresh_exec()
        st = State()
        me = ex.obj(owner)
        tc = ex.rootcls(target)
        ex.dyn[tc] = target
        has, part, inv = z3.Function('has', I, B), z3.Function('partOf', I, I), z3.Function('nameOf', I, I)
        n = fresh('n')
        st.assume(n >= 0)
        m = ex.fld(me, owner, field)
        u.family(m.seg('m', 0).mark('has'), 'b', lambda *ix: has(zi(ix[-1])))
        u.family(m.seg('m', 0), 'p', lambda *ix: norm(part(zi(ix[-1]))))
        u.set(st, m.mark('msize'), 'i', n)
        if guard:
            u.set(st, ex.fld(me, owner, guard), 'i', n)
        i = z3.Int('i')
        st.assume(z3.ForAll([i], z3.And(part(i) >= 0, inv(part(i)) == i), patterns=[part(i)]))
        ex.inverses['partOf'] = inv
        calls = Loc(('v', 'calls'), ((0, 'c', 0),), 0)
        u.family(calls, 'i', lambda k: 0)
        tot = Loc(('v', 'total'))
        t0 = fresh('total0', R)
        u.set(st, tot, 'r', t0)
        W = z3.Function('contribution', I, R)
        mat, v, p = Loc(('v', 'mat')), Loc(('v', 'rhs')), Loc(('v', 'perm'))
        w, t = fresh('what'), fresh('mode')

        def asm(ex, st, ins, a):
            k = a[0].rid
            c = Loc(calls.root, ((0, 'c', k),), 0)
            ex.storek(st, c, 'i', add(ex.loadk(st, c, 'i'), 1))
            ex.storek(st, tot, 'r', add(ex.loadk(st, tot, 'r'), W(zi(k))))
            ls = [mat, v] + ([p] if perm_arg else [])
            ok = all(isinstance(x, Loc) and x.key() == y.key() for x, y in zip(a[1:], ls))
            ex.oblige(st, 'the lists, load and mode of the caller', AND(z3.BoolVal(ok), EQ(a[-2], w), EQ(a[-1], t)))
        short = callee
        ex.contracts.append((lambda mm, dn, sn: sn == short and ('<double>' in dn), asm))
        s = u.run(u.fn(fname, '<double>'), [me, mat, v] + ([p] if perm_arg else []) + [w, t], st)[1]
        u.sat('any', s)
        k = fresh('part')
        s.assume(z3.And(k >= 0, has(k)))
        u.prove('every part exactly once', s, EQ(u.get(s, Loc(calls.root, ((0, 'c', part(k)),), 0), 'i'), 1))
        K = ex.enumerations[0]['K']
        j = z3.Int('j')
        u.prove('the total is that of the parts', s, EQ(u.get(s, tot, 'r'), t0 + SUM(j, W(part(K(zi(me.rid), j))), n)))


DV = 'Geometry/Device.cc'
walk('Device::ContactAssemble', 'Device', 'contactList', 'Contact', 'Contact::Assemble', [DV])
walk('Device::InterfaceAssemble', 'Device', 'interfaceList', 'Interface', 'Interface::Assemble', [DV])
walk('Device::RegionAssemble', 'Device', 'regionList', 'Region', 'Region::Assemble', [DV], False)
walk('Region::Assemble', 'Region', 'equationPointerMap', 'Equation<double>', 'Equation::Assemble', ['Geometry/Region.cc', 'Equation/EquationHolder.cc', 'Equation/Equation.cc'], False, 'numequations')
walk('Contact::Assemble', 'Contact', 'contactEquationPtrMap', 'ContactEquation<double>', 'ContactEquation::Assemble', ['Geometry/Contact.cc', 'Equation/ContactEquationHolder.cc', 'Equation/ContactEquation.cc'])
walk('Interface::Assemble', 'Interface', 'interfaceEquationList', 'InterfaceEquation<double>', 'InterfaceEquation::Assemble', ['Geometry/Interface.cc', 'Equation/InterfaceEquationHolder.cc', 'Equation/InterfaceEquation.cc'])


def holder(H, E, perm_arg):
    @unit(PID, '%s of extended equations' % H, ['Equation/%s.cc' % H, 'Equation/%s.cc' % E], ['%s::Assemble' % H])
    def _(u):
        """an equation of extended precision contributes every one of its entries, at its place, to the lists of a solver in double precision"""
        ex, st = u.fresh_exec(), State()
        S = SimpleNamespace(u=u, ex=ex, st=st)
        me = ex.obj(H)
        u.set(st, ex.fld(me, H, 'double_'), 'p', ref(ex.rootcls(E + '<double>'), -1))
        u.set(st, ex.fld(me, H, 'float128_'), 'p', ref(ex.rootcls(E + '<float128>'), 5))
        l, n0, row0, col0, val0 = triplets(S, 'before')
        v, m0, rr0, _c, rv0 = triplets(S, 'rhsBefore', True)
        n, m = fresh('n'), fresh('m')
        st.assume(z3.And(n >= 0, m >= 0))
        row, col, val = z3.Function('row', I, I), z3.Function('col', I, I), z3.Function('val', I, R)
        rr, rv = z3.Function('rhsRow', I, I), z3.Function('rhsVal', I, R)
        w, t, p = fresh('what'), fresh('mode'), Loc(('v', 'perm'))
        g = Loc(('v', 'calls'))
        u.set(st, g, 'i', 0)

        def asm(ex, st, ins, a):
            ok = ex.enc(a[0]) if 0 else a[0].rid
            ex.oblige(st, 'the equation, its load and mode', AND(EQ(a[0].rid, 5), EQ(a[-2], w), EQ(a[-1], t), z3.BoolVal(not perm_arg or a[3].key() == p.key())))
            ex.storek(st, g, 'i', add(ex.loadk(st, g, 'i'), 1))
            x, y = a[1], a[2]
            ex.oblige(st, 'empty lists', AND(EQ(u.len(st, x), 0), EQ(u.len(st, y), 0)))
            ex.storek(st, x.mark('len'), 'i', n)
            e = x.seg('e', 0)
            setfam(ex, st, e, 'i', lambda *ix: norm(row(zi(ix[-1]))))
            setfam(ex, st, e.plus(4), 'i', lambda *ix: norm(col(zi(ix[-1]))))
            setfam(ex, st, e.plus(16), 'r', lambda *ix: norm(val(zi(ix[-1]))))
            ex.storek(st, y.mark('len'), 'i', m)
            e = y.seg('e', 0)
            setfam(ex, st, e, 'i', lambda *ix: norm(rr(zi(ix[-1]))))
            setfam(ex, st, e.plus(16), 'r', lambda *ix: norm(rv(zi(ix[-1]))))
        ex.contracts.append((lambda mm, dn, sn: sn == E + '::Assemble' and 'float128' in dn, asm))
        s = u.run(u.fn(H + '::Assemble', '<double>'), [me, l, v] + ([p] if perm_arg else []) + [w, t], st)[1]
        u.sat('any', s)
        u.prove('the equation is assembled once', s, EQ(u.get(s, g, 'i'), 1))
        u.prove('every entry of the matrix is kept', s, EQ(u.len(s, l), n0 + n))
        u.prove('every entry of the right hand side is kept', s, EQ(u.len(s, v), m0 + m))
        i, j = u.idx(s, 'i', n), u.idx(s, 'j', m)
        e = l.seg('e', n0 + i)
        u.prove('an entry of the matrix', s, AND(EQ(u.get(s, e, 'i'), row(i)), EQ(u.get(s, e.plus(4), 'i'), col(i)), EQ(u.get(s, e.plus(8), 'r'), val(i))))
        e = v.seg('e', m0 + j)
        u.prove('an entry of the right hand side', s, AND(EQ(u.get(s, e, 'i'), rr(j)), EQ(u.get(s, e.plus(8), 'r'), rv(j))))
        i, j = u.idx(s, 'i0', n0), u.idx(s, 'j0', m0)
        e = l.seg('e', i)
        u.prove('earlier entries of the matrix', s, AND(EQ(u.get(s, e, 'i'), row0(i)), EQ(u.get(s, e.plus(4), 'i'), col0(i)), EQ(u.get(s, e.plus(8), 'r'), val0(i))))
        e = v.seg('e', j)
        u.prove('earlier entries of the right hand side', s, AND(EQ(u.get(s, e, 'i'), rr0(j)), EQ(u.get(s, e.plus(8), 'r'), rv0(j))))


holder('EquationHolder', 'Equation', False)
holder('ContactEquationHolder', 'ContactEquation', True)
holder('InterfaceEquationHolder', 'InterfaceEquation', True)


def devices(u, st, ex, G):
    m = ex.fld(G, 'GlobalData', 'deviceList')
    has, dev, inv = z3.Function('hasDevice', I, B), z3.Function('deviceOf', I, I), z3.Function('nameOfDevice', I, I)
    n = fresh('numDevices')
    st.assume(n >= 0)
    u.family(m.seg('m', 0).mark('has'), 'b', lambda *ix: has(zi(ix[-1])))
    u.family(m.seg('m', 0), 'p', lambda *ix: norm(dev(zi(ix[-1]))))
    u.set(st, m.mark('msize'), 'i', n)
    i = z3.Int('i')
    st.assume(z3.ForAll([i], z3.And(dev(i) >= 0, inv(dev(i)) == i), patterns=[dev(i)]))
    ex.inverses['deviceOf'] = inv
    return m, has, dev, n


CI, BULK, CIRC, TCLP, TCLO = range(5)
LOADS = ('matrix only', 'right hand side only', 'matrix and right hand side', 'permutations only')


def system(cx, what):
    @unit(PID, 'system: %s%s' % (LOADS[what], ', complex' if cx else ''), [NW, 'Data/GlobalData.cc', 'math/CompressedMatrix.cc'], ['dsMath::Newton::LoadMatrixAndRHS'])
    def _(u):
        """the system is the sum of its parts: of every device its contacts and interfaces and its permuted equations, the circuit in its rows, the custom equations; each once, scaled"""
        S = Sys(u, cx)
        ex, st = S.ex, S.st
        G, NK = ex.obj('GlobalData'), ex.obj('NodeKeeper')
        m, has, dev, n = devices(u, st, ex, G)
        W = z3.Function('part', I, I, I, I, I, R)            # (matrix 0 or rhs 1, kind, device, permuted, offset)
        cid = z3.Function('content', I, I, I)
        kind, of = z3.Function('kindOfContent', I, I), z3.Function('deviceOfContent', I, I)
        i, j = z3.Ints('i j')
        st.assume(z3.ForAll([i, j], z3.And(kind(cid(i, j)) == i, of(cid(i, j)) == j), patterns=[cid(i, j)]))
        ng, first, mode = z3.Bool('haveNodes'), fresh('circuitRow'), fresh('mode')
        st.assume(first >= 0)
        g = [[Loc(('v', 'total%d%d' % (a, b))) for b in range(2)] for a in range(2)]
        for r in g:
            for c in r:
                u.set(st, c, 'r', zr(0))
        done = Loc(('v', 'contactsDone'), ((0, 'c', 0),), 0)
        u.family(done, 'i', lambda k: 0)
        nd = Loc(('v', 'numContactsDone'))
        u.set(st, nd, 'i', 0)
        rhs, pv = Loc(('v', 'rhs')), Loc(('v', 'permvec'))
        u.set(st, rhs.mark('len'), 'i', fresh('rows'))
        c = ex.contracts.append
        no = lambda ex, st, ins, a: None
        c(('dsTimer::dsTimer', no))
        c(('dsTimer::~dsTimer', no))
        c(('GlobalData::GetInstance', lambda ex, st, ins, a: G))
        c(('NodeKeeper::instance', lambda ex, st, ins, a: NK))
        c(('NodeKeeper::HaveNodes', lambda ex, st, ins, a: ng))
        c(('NodeKeeper::GetMinEquationNumber', lambda ex, st, ins, a: first))

        def fill(st, l, kind, d):
            ex.oblige(st, 'a list is empty before it is filled', EQ(u.len(st, l), 0))
            ex.storek(st, l.mark('len'), 'i', 1)
            ex.storek(st, l.seg('e', 0), 'i', norm(cid(zi(kind), zi(d))))

        def bool_(x):
            return x if isinstance(x, bool) else zb(x)

        def contacts(ex, st, ins, a):
            d = a[4].rid
            ex.oblige(st, 'load and mode of the caller', AND(EQ(a[5], what), EQ(a[6], mode), z3.BoolVal(a[3].key() == pv.key())))
            fill(st, a[1], CI, d)
            fill(st, a[2], CI, d)
            l = Loc(done.root, ((0, 'c', d),), 0)
            ex.storek(st, l, 'i', 1)
            ex.storek(st, nd, 'i', add(ex.loadk(st, nd, 'i'), 1))

        def bulk(ex, st, ins, a):
            ex.oblige(st, 'mode of the caller', EQ(a[5], mode))
            fill(st, a[1], BULK, a[3].rid)
            fill(st, a[2], BULK, a[3].rid)

        def circ(ex, st, ins, a):
            ex.oblige(st, 'load and mode of the caller', AND(EQ(a[3], what), EQ(a[4], mode)))
            fill(st, a[1], CIRC, 0)
            fill(st, a[2], CIRC, 0)

        def tcl(ex, st, ins, a):
            ex.oblige(st, 'load and mode of the caller', AND(EQ(a[5], what), EQ(a[6], mode)))
            for x, k in zip(a[1:5], (TCLP, TCLP, TCLO, TCLO)):
                fill(st, x, k, 0)
        c(('dsMath::Newton::AssembleContactsAndInterfaces', contacts))
        c(('dsMath::Newton::AssembleBulk', bulk))
        c(('dsMath::Newton::LoadMatrixAndRHSOnCircuit', circ))
        c(('dsMath::Newton::AssembleTclEquations', tcl))

        def load(which, permuted):
            def h(ex, st, ins, a):
                x, y, rest = a[1], a[2], list(a[3:])
                ex.oblige(st, 'the matrix or right hand side of the caller', z3.BoolVal(y.key() == (rhs if which else S.mat).key()))
                ex.oblige(st, 'the list is filled', EQ(u.len(st, x), 1))
                if permuted:
                    ex.oblige(st, 'the permutations of the caller', z3.BoolVal(rest.pop(0).key() == pv.key()))
                off = rest.pop()
                q = ex.loadk(st, x.seg('e', 0), 'i')
                if permuted:
                    k, d = kind(zi(q)), of(zi(q))
                    ex.oblige(st, 'a device is permuted after its contacts', OR(NOT(EQ(k, BULK)), EQ(ex.loadk(st, Loc(done.root, ((0, 'c', norm(d)),), 0), 'i'), 1)))
                    ex.oblige(st, 'custom equations are permuted after all contacts', OR(NOT(EQ(k, TCLP)), EQ(ex.loadk(st, nd, 'i'), n)))
                f = W(which, kind(zi(q)), of(zi(q)), int(permuted), zi(off))
                for l, sc in zip(g[which], S.scl if cx else S.scl[:1]):
                    ex.storek(st, l, 'r', add(ex.loadk(st, l, 'r'), mul(sc, f)))
            return h
        for nm, p in (('dsMath::Newton::LoadInto%s', False), ('dsMath::Newton::LoadInto%sPermutated', True)):
            for wh, x in ((0, 'Matrix'), (1, 'RHS')):
                c((nm % x, load(wh, p)))
        s = u.run(S.fn('LoadMatrixAndRHS'), [S.me, S.mat, rhs, pv, what, mode] + S.sarg, st)[1]
        u.sat('any', s)
        if what != PERM:
            e = ex.enumerations[0]
            D = lambda t: dev(norm_key(e, G, t))
        t = z3.Int('t')
        for wh, nm in ((0, 'matrix'), (1, 'right hand side')):
            if wh == 0 and what == RHS or wh == 1 and what == MATRIXONLY:
                continue
            for l, sc, c_ in zip(g[wh], S.scl, ('real', 'imaginary')):
                if c_ != 'real' and not cx:
                    continue
                if what == PERM:
                    u.prove('nothing is added to the %s part of the %s' % (c_, nm), s, EQ(u.get(s, l, 'r'), zr(0)))
                    continue
                parts = SUM(t, sc * W(wh, CI, D(t), 0, 0) + sc * W(wh, BULK, D(t), 1, 0), n)
                rest = ITE(ng, sc * W(wh, CIRC, 0, 0, first), zr(0)) + sc * W(wh, TCLP, 0, 1, 0) + sc * W(wh, TCLO, 0, 0, 0)
                u.prove('%s part of the %s' % (c_, nm), s, EQ(u.get(s, l, 'r'), parts + rest))
        k = fresh('device')
        s.assume(z3.And(k >= 0, has(k)))
        u.prove('the contacts of every device are assembled', s, EQ(u.get(s, Loc(done.root, ((0, 'c', dev(k)),), 0), 'i'), 1))


def norm_key(e, G, t):
    return e['K'](zi(G.rid), t) if e['K'].arity() == 2 else e['K'](t)


for _cx in (False, True):
    for _w in range(4):
        system(_cx, _w)


def circuit(what, time):
    @unit(PID, 'circuit: %s, %s' % (LOADS[what], 'time derivatives' if time else 'steady state'), [NW, 'Circuit/data/InstanceKeeper.cc', 'Circuit/data/NodeKeeper.cc'], ['dsMath::Newton::LoadMatrixAndRHSOnCircuit'])
    def _(u):
        """exactly the entries of the circuit elements that were asked for are added, in their order"""
        S = Sys(u, False)
        ex, st = S.ex, S.st
        l, n0, row0, col0, val0 = triplets(S, 'before')
        v, m0, rr0, _c, rv0 = triplets(S, 'rhsBefore', True)
        n, m = fresh('n'), fresh('m')
        st.assume(z3.And(n >= 0, m >= 0))
        row, col, val = z3.Function('row', I, I), z3.Function('col', I, I), z3.Function('val', I, R)
        rr, rv = z3.Function('rhsRow', I, I), z3.Function('rhsVal', I, R)
        sol = ref(ex.rootcls('std::vector<double>'), 3)
        sol = Loc(('v', 'dcop'))
        c = ex.contracts.append
        c(('InstanceKeeper::instance', lambda ex, st, ins, a: ref(ex.rootcls('InstanceKeeper'), 1)))
        c(('NodeKeeper::instance', lambda ex, st, ins, a: ref(ex.rootcls('NodeKeeper'), 1)))

        def getsol(ex, st, ins, a):
            ex.oblige(st, 'the solution of the circuit', EQ(ex.loadk(st, a[1], 's'), ex.strlit('dcop')))
            return sol
        c(('NodeKeeper::GetSolution', getsol))
        g = Loc(('v', 'calls'))
        u.set(st, g, 'i', 0)

        def fill(tr):
            def h(ex, st, ins, a):
                ex.oblige(st, 'the mode of the caller, at the solution', z3.BoolVal(tr == time and a[2].key() == sol.key()))
                if tr:
                    ex.oblige(st, 'unscaled', EQ(a[4], 1))
                ex.storek(st, g, 'i', add(ex.loadk(st, g, 'i'), 1))
                x, y = a[1], a[3]
                if not (tr and is_null(x)):
                    ex.oblige(st, 'empty list', EQ(u.len(st, x), 0))
                    ex.storek(st, x.mark('len'), 'i', n)
                    e = x.seg('e', 0)
                    setfam(ex, st, e, 'i', lambda *ix: norm(row(zi(ix[-1]))))
                    setfam(ex, st, e.plus(4), 'i', lambda *ix: norm(col(zi(ix[-1]))))
                    setfam(ex, st, e.plus(8), 'r', lambda *ix: norm(val(zi(ix[-1]))))
                ex.oblige(st, 'empty list', EQ(u.len(st, y), 0))
                ex.storek(st, y.mark('len'), 'i', m)
                e = y.seg('e', 0)
                setfam(ex, st, e, 'i', lambda *ix: norm(rr(zi(ix[-1]))))
                setfam(ex, st, e.plus(8), 'r', lambda *ix: norm(rv(zi(ix[-1]))))
            return h
        c(('InstanceKeeper::AssembleDCMatrix', fill(0)))
        c(('InstanceKeeper::AssembleTRMatrix', fill(1)))
        s = u.run(u.fn('dsMath::Newton::LoadMatrixAndRHSOnCircuit', N), [S.me, l, v, what, time], st)[1]
        u.sat('any', s)
        a, b = (n if what != RHS else 0), (m if what != MATRIXONLY else 0)
        u.prove('the circuit is assembled once', s, EQ(u.get(s, g, 'i'), 1))
        u.prove('number of entries of the matrix', s, EQ(u.len(s, l), add(n0, a)))
        u.prove('number of entries of the right hand side', s, EQ(u.len(s, v), add(m0, b)))
        i, j = u.idx(s, 'i', n), u.idx(s, 'j', m)
        if what != RHS:
            e = l.seg('e', n0 + i)
            u.prove('an entry of the matrix', s, AND(EQ(u.get(s, e, 'i'), row(i)), EQ(u.get(s, e.plus(4), 'i'), col(i)), EQ(u.get(s, e.plus(8), 'r'), val(i))))
        if what != MATRIXONLY:
            e = v.seg('e', m0 + j)
            u.prove('an entry of the right hand side', s, AND(EQ(u.get(s, e, 'i'), rr(j)), EQ(u.get(s, e.plus(8), 'r'), rv(j))))
        i, j = fresh('i0'), fresh('j0')
        s.assume(z3.And(0 <= i, i < n0, 0 <= j, j < m0))
        e = l.seg('e', i)
        u.prove('earlier entries of the matrix', s, AND(EQ(u.get(s, e, 'i'), row0(i)), EQ(u.get(s, e.plus(4), 'i'), col0(i)), EQ(u.get(s, e.plus(8), 'r'), val0(i))))
        e = v.seg('e', j)
        u.prove('earlier entries of the right hand side', s, AND(EQ(u.get(s, e, 'i'), rr0(j)), EQ(u.get(s, e.plus(8), 'r'), rv0(j))))


def is_null(x):
    return x is NULL or (not isinstance(x, Loc) and x == 0)


for _w in (MATRIXONLY, RHS, BOTH):
    for _t in (0, 1):
        circuit(_w, _t)


@unit(PID, 'bulk equations', [NW], ['dsMath::Newton::AssembleBulk'])
def _(u):
    """the equations of all regions of the device are assembled into the lists of the caller, in its mode"""
    S = Sys(u, False)
    ex, st = S.ex, S.st
    dev, m, v, w, t = ref(ex.rootcls('Device'), fresh('device')), Loc(('v', 'mat')), Loc(('v', 'rhs')), fresh('what'), fresh('mode')
    g = Loc(('v', 'calls'))
    u.set(st, g, 'i', 0)
    st.assume(z3.And(w >= 0, w <= 2))

    def asm(ex, st, ins, a):
        ex.oblige(st, 'the device, lists and mode of the caller', AND(z3.BoolVal(a[1].key() == m.key() and a[2].key() == v.key()), EQ(a[0].rid, dev.rid), EQ(a[4], t)))
        ex.oblige(st, 'at least what the caller loads', OR(EQ(a[3], BOTH), EQ(a[3], w)))
        ex.storek(st, g, 'i', add(ex.loadk(st, g, 'i'), 1))
    ex.contracts.append(('Device::RegionAssemble', asm))
    s = u.run(u.fn('dsMath::Newton::AssembleBulk', N), [S.me, m, v, dev, w, t], st)[1]
    u.prove('once', s, EQ(u.get(s, g, 'i'), 1))


def elements(name, virt, kind):
    @unit(PID, name, ['Circuit/data/InstanceKeeper.cc', 'Circuit/data/InstanceModel.cc'], [name])
    def _(u):
        """every element of the circuit is assembled exactly once, into the lists of the caller"""
        ex, st = u.fresh_exec(), State()
        me = ex.obj('InstanceKeeper')
        tc = ex.rootcls('InstanceModel')
        has, part, inv = z3.Function('has', I, B), z3.Function('elementOf', I, I), z3.Function('nameOf', I, I)
        n = fresh('n')
        st.assume(n >= 0)
        m = ex.fld(me, 'InstanceKeeper', 'instMod_')
        u.family(m.seg('m', 0).mark('has'), 'b', lambda *ix: has(zi(ix[-1])))
        u.family(m.seg('m', 0), 'p', lambda *ix: norm(part(zi(ix[-1]))))
        u.set(st, m.mark('msize'), 'i', n)
        i = z3.Int('i')
        st.assume(z3.ForAll([i], z3.And(part(i) >= 0, inv(part(i)) == i), patterns=[part(i)]))
        ex.inverses['elementOf'] = inv
        calls = Loc(('v', 'calls'), ((0, 'c', 0),), 0)
        u.family(calls, 'i', lambda k: 0)
        mat, sol, v, scl = Loc(('v', 'mat')), Loc(('v', 'sol')), Loc(('v', 'rhs')), fresh('scl', R)

        def asm(ex, st, ins, a):
            c = Loc(calls.root, ((0, 'c', a[0].rid),), 0)
            ex.storek(st, c, 'i', add(ex.loadk(st, c, 'i'), 1))
            b = list(a[1:])
            if kind == 'TR':
                ex.oblige(st, 'the scale of the caller', EQ(b.pop(0), scl))
            want = [v] if kind == 'AC' else [sol, mat, v]
            ex.oblige(st, 'the lists of the caller', z3.BoolVal(all(x.key() == y.key() for x, y in zip(b, want))))
        ex.contracts.append(('InstanceModel::' + virt, asm))
        args = [me, v] if kind == 'AC' else [me, mat, sol, v] + ([scl] if kind == 'TR' else [])
        s = u.run(u.fn(name), args, st)[1]
        u.sat('any', s)
        k = fresh('part')
        s.assume(z3.And(k >= 0, has(k)))
        u.prove('every element exactly once', s, EQ(u.get(s, Loc(calls.root, ((0, 'c', part(k)),), 0), 'i'), 1))


elements('InstanceKeeper::AssembleDCMatrix', 'assembleDC', 'DC')
elements('InstanceKeeper::AssembleTRMatrix', 'assembleTran', 'TR')
elements('InstanceKeeper::assembleACRHS', 'assembleACRHS', 'AC')


@unit(PID, 'small-signal system', [NW, 'math/CompressedMatrix.cc'], ['dsMath::Newton::LoadMatrixAndRHSAC'])
def _(u):
    """the matrix is that of the steady state plus 2 pi f j times that of the time derivatives, after the permutations are known; the right hand side is left alone"""
    S = Sys(u, True)
    ex, st = S.ex, S.st
    F = z3.Function('part', I, R)
    rhs, pv, f = Loc(('v', 'rhs')), Loc(('v', 'permvec')), fresh('frequency', R)
    u.set(st, rhs.mark('len'), 'i', fresh('rows'))
    fr = [z3.Function('rhs' + c, I, R) for c in ('Re', 'Im')]
    for d, q in zip((0, 8), fr):
        e = rhs.seg('e', 0)
        u.family(e.plus(d) if d else e, 'r', lambda *ix, q=q: norm(q(zi(ix[-1]))))
    perms = Loc(('v', 'permutations'))
    u.set(st, perms, 'i', 0)

    def load(ex, st, ins, a):
        what, mode, sc = a[4], a[5], list(a[6:])
        ex.oblige(st, 'the matrix and permutations of the caller', z3.BoolVal(a[1].key() == S.mat.key() and a[3].key() == pv.key()))
        ex.oblige(st, 'what to load is known', z3.BoolVal(isinstance(what, int)))
        ex.oblige(st, 'room for every row', EQ(u.len(st, a[2]), u.len(st, rhs)))
        if what == PERM:
            ex.storek(st, perms, 'i', 1)
            return
        ex.oblige(st, 'permutations are known', EQ(ex.loadk(st, perms, 'i'), 1))
        if what != MATRIXONLY:
            e = a[2].seg('e', 0)
            ex.oblige(st, 'not the right hand side of the caller', z3.BoolVal(a[2].key() != rhs.key()))
        if what == RHS:
            return
        if len(sc) == 1 and isinstance(sc[0], Loc):
            sc = [ex.loadk(st, sc[0], 'r'), ex.loadk(st, sc[0].plus(8), 'r')]
        sc = sc + [0] * (2 - len(sc))
        for l, x in zip(S.g, sc):
            ex.storek(st, l, 'r', add(ex.loadk(st, l, 'r'), mul(x, F(zi(mode)))))
    ex.contracts.append(('dsMath::Newton::LoadMatrixAndRHS', load))
    s = u.run(u.fn('dsMath::Newton::LoadMatrixAndRHSAC', N), [S.me, S.mat, rhs, pv, f], st)[1]
    u.sat('any', s)
    u.prove('real part', s, EQ(u.get(s, S.g[0], 'r'), S.g0[0] + F(0)))
    # 2 pi is the correctly rounded constant
    w = zr(u.get(s, S.g[1], 'r')) - S.g0[1]
    lo, hi = zr(Fraction('6.283185307179586')), zr(Fraction('6.283185307179587'))
    s.assume(z3.And(F(1) > 0, f > 0))
    u.prove('imaginary part', s, z3.And(w >= lo * f * F(1), w <= hi * f * F(1)))


@unit(PID, 'small-signal sources', [NW], ['dsMath::Newton::LoadCircuitRHSAC'])
def _(u):
    """the source of every element is in the row of its own equation, all other rows are left alone"""
    S = Sys(u, True)
    ex, st = S.ex, S.st
    rhs = Loc(('v', 'rhs'))
    rows, n, first, ng = fresh('rows'), fresh('n'), fresh('circuitRow'), z3.Bool('haveNodes')
    st.assume(z3.And(n >= 0, rows >= 0, first >= 0))
    u.set(st, rhs.mark('len'), 'i', rows)
    fr = [z3.Function('rhs' + c, I, R) for c in ('Re', 'Im')]
    src = [z3.Function('source' + c, I, R) for c in ('Re', 'Im')]
    row, inv = z3.Function('row', I, I), z3.Function('elementOfRow', I, I)
    i = z3.Int('i')
    st.assume(z3.ForAll([i], z3.And(row(i) >= 0, row(i) + first < rows, inv(row(i)) == i), patterns=[row(i)]))
    ex.inverses['row'] = inv
    for d, q in zip((0, 8), fr):
        e = rhs.seg('e', 0)
        u.family(e.plus(d) if d else e, 'r', lambda *ix, q=q: norm(q(zi(ix[-1]))))
    c = ex.contracts.append
    c(('NodeKeeper::instance', lambda ex, st, ins, a: ref(ex.rootcls('NodeKeeper'), 1)))
    c(('InstanceKeeper::instance', lambda ex, st, ins, a: ref(ex.rootcls('InstanceKeeper'), 1)))
    c(('NodeKeeper::HaveNodes', lambda ex, st, ins, a: ng))
    c(('NodeKeeper::GetMinEquationNumber', lambda ex, st, ins, a: first))
    c(('OutputStream::WriteOut', lambda ex, st, ins, a: None))

    def sources(ex, st, ins, a):
        x = a[1]
        ex.storek(st, x.mark('len'), 'i', n)
        e = x.seg('e', 0)
        setfam(ex, st, e, 'i', lambda *ix: norm(row(zi(ix[-1]))))
        for d, q in zip((8, 16), src):
            setfam(ex, st, e.plus(d), 'r', lambda *ix, q=q: norm(q(zi(ix[-1]))))
    c(('InstanceKeeper::assembleACRHS', sources))
    s = u.run(u.fn('dsMath::Newton::LoadCircuitRHSAC', N), [S.me, rhs], st)[1]
    u.sat('any', s)
    k = u.idx(s, 'k', n)
    for c_, d, q in zip(('real', 'imaginary'), (0, 8), src):
        e = rhs.seg('e', row(k) + first)
        u.prove('%s part of a source' % c_, s, IMP(ng, EQ(u.get(s, e.plus(d) if d else e, 'r'), q(k))))
    r = u.idx(s, 'r', rows)
    o = inv(r - first)
    s.assume(z3.Or(z3.Not(ng), o < 0, o >= n, row(o) + first != r))
    for c_, d, q in zip(('real', 'imaginary'), (0, 8), fr):
        e = rhs.seg('e', r)
        u.prove('%s part of another row' % c_, s, EQ(u.get(s, e.plus(d) if d else e, 'r'), q(r)))


def ac(noise):
    fn = 'NoiseSolve' if noise else 'ACSolve'

    @unit(PID, 'noise solve' if noise else 'small-signal solve', [NW, 'Data/GlobalData.cc', 'math/CompressedMatrix.cc', 'math/Preconditioner.cc'], ['dsMath::Newton::' + fn])
    def _(u):
        """the system at the frequency is solved for the source, and every device and the circuit are updated from the solution exactly once; a failed solve updates nothing and is reported"""
        S = Sys(u, True)
        ex, st = S.ex, S.st
        me = S.me
        G, NK = ex.obj('GlobalData'), ex.obj('NodeKeeper')
        m, has, dev, nd = devices(u, st, ex, G)
        n, ng, f = fresh('numeqns'), z3.Bool('haveNodes'), fresh('frequency', R)
        st.assume(n >= 0)
        out = fresh('outputRow')
        st.assume(z3.And(out >= -1, out < n))
        g = lambda k: Loc(('v', 'ghost_' + k))
        for k in ('loaded', 'sources', 'solved', 'circuit'):
            u.set(st, g(k), 'i', 0)
        calls = Loc(('v', 'calls'), ((0, 'c', 0),), 0)
        u.family(calls, 'i', lambda k: 0)
        bump = lambda ex, st, l: ex.storek(st, l, 'i', add(ex.loadk(st, l, 'i'), 1))
        c = ex.contracts.append
        no = lambda ex, st, ins, a: None
        for nm in ('MasterGILControl::MasterGILControl', 'MasterGILControl::~MasterGILControl', 'NodeKeeper::InitializeSolution', 'NodeKeeper::ACPrintSolution', 'dsMath::Matrix::Finalize',
                   'dsMath::CompressedMatrix::Finalize', 'GlobalData::GetDBEntryOnGlobal', 'ObjectHolder::GetString', 'OutputStream::WriteOut'):
            c((nm, no))
        c(('GlobalData::GetInstance', lambda ex, st, ins, a: G))
        c(('NodeKeeper::instance', lambda ex, st, ins, a: NK))
        c(('NodeKeeper::HaveNodes', lambda ex, st, ins, a: ng))
        c(('NodeKeeper::GetEquationNumber', lambda ex, st, ins, a: out))
        c(('OutputStream::GetVerbosity', lambda ex, st, ins, a: fresh('verbosity')))
        c(('dsMath::Newton::NumberEquationsAndSetDimension', lambda ex, st, ins, a: n))

        def pre(ex, st, ins, a):
            ex.oblige(st, 'the transposed system' if noise else 'the system is not transposed', EQ(a[0], 1 if noise else 0))
            ex.oblige(st, 'dimension', EQ(a[1], n))
            return ref(ex.rootcls('dsMath::Preconditioner<double>'), 0)
        c((lambda mm, dn, sn: sn.endswith('CreateACPreconditioner'), pre))
        c((lambda mm, dn, sn: sn.endswith('CreateACMatrix'), lambda ex, st, ins, a: S.mat))

        def load(ex, st, ins, a):
            i = fresh('row')
            s = st.copy()
            s.assume(z3.And(0 <= i, i < n))
            pv = a[3]
            e = pv.seg('e', i)
            ex.oblige(s, 'no row is permuted before the load', AND(EQ(ex.loadk(s, ex.fld(e, 'PermutationEntry', 'newrow'), 'i'), i), EQ(ex.loadk(s, ex.fld(e, 'PermutationEntry', 'keepcopy'), 'i'), 0)))
            ex.oblige(s, 'a permutation for every row', EQ(u.len(s, pv), n))
            ex.oblige(s, 'the matrix and frequency', AND(z3.BoolVal(a[1].key() == S.mat.key()), EQ(a[4], f)))
            bump(ex, st, g('loaded'))
            S.rhs = a[2].key()
            S.pv = pv.key()
        c(('dsMath::Newton::LoadMatrixAndRHSAC', load))
        src = z3.Function('source', I, R)

        def sources(ex, st, ins, a):
            lib.set_region(ex, st, a[1], (('seg', 'e'),), 'r', lambda t: True, lambda t: norm(src(zi(t))))
            bump(ex, st, g('sources'))
        c(('dsMath::Newton::LoadCircuitRHSAC', sources))
        ok = z3.Bool('solveok')

        def solve(ex, st, ins, a):
            ex.oblige(st, 'the system is loaded once', EQ(ex.loadk(st, g('loaded'), 'i'), 1))
            i = fresh('row')
            s = st.copy()
            s.assume(z3.And(0 <= i, i < n))
            x = a[4].seg('e', i)
            want = ITE(EQ(i, out), zr(1), zr(0)) if noise else src(i)
            ex.oblige(s, 'real part of the source', EQ(ex.loadk(s, x, 'r'), want))
            if noise:
                ex.oblige(s, 'imaginary part of the source', EQ(ex.loadk(s, x.plus(8), 'r'), zr(0)))
            ex.oblige(s, 'sizes', AND(EQ(u.len(s, a[4]), n), EQ(u.len(s, a[3]), n)))
            ex.oblige(s, 'the matrix', z3.BoolVal(a[1].key() == S.mat.key()))
            S.res = a[3].key()
            bump(ex, st, g('solved'))
            return ok
        c((lambda mm, dn, sn: sn == 'dsMath::LinearSolver::' + fn, solve))

        def upd(ex, st, ins, a):
            ex.oblige(st, 'a device is updated from the solution', AND(z3.BoolVal(a[-1].key() == S.res), EQ(ex.loadk(st, g('solved'), 'i'), 1), ok))
            if noise:
                ex.oblige(st, 'with the permutations of the load', z3.BoolVal(a[2].key() == S.pv))
            l = Loc(calls.root, ((0, 'c', a[0].rid),), 0)
            bump(ex, st, l)
        c(('Device::NoiseUpdate' if noise else 'Device::ACUpdate', upd))

        def cir(ex, st, ins, a):
            ex.oblige(st, 'the circuit is updated from the solution', AND(z3.BoolVal(a[-1].key() == S.res), EQ(ex.loadk(st, g('solved'), 'i'), 1), ok))
            if not noise:
                ex.oblige(st, 'the real and imaginary solutions', AND(EQ(ex.loadk(st, a[1], 's'), ex.strlit('ssac_real')), EQ(ex.loadk(st, a[2], 's'), ex.strlit('ssac_imag'))))
            bump(ex, st, g('circuit'))
        c((lambda mm, dn, sn: 'CallACUpdateSolution' in sn, cir))
        its = ref(ex.rootcls('dsMath::LinearSolver<double>'), 0)
        args = [me] + ([Loc(('v', 'output'))] if noise else []) + [its, f]
        if noise:
            u.set(st, args[1], 's', fresh('output'))
        r, s = u.run(u.fn('dsMath::Newton::' + fn, N), args, st)
        u.sat('any', s)
        can = AND(ng, NOT(EQ(out, -1))) if noise else True
        u.prove('the outcome is that of the solve', s, EQ(ITE(zb(r) if not isinstance(r, bool) else r, 1, 0), ITE(AND(can, ok), 1, 0)))
        u.prove('one solve', s, EQ(u.get(s, g('solved'), 'i'), ITE(can, 1, 0)))
        k = fresh('device')
        s.assume(z3.And(k >= 0, has(k)))
        u.prove('every device is updated exactly once', s, EQ(u.get(s, Loc(calls.root, ((0, 'c', dev(k)),), 0), 'i'), ITE(AND(can, ok), 1, 0)))
        u.prove('the circuit is updated exactly once', s, EQ(u.get(s, g('circuit'), 'i'), ITE(AND(can, ng, ok), 1, 0)))
        if not noise:
            u.prove('the sources are loaded once', s, EQ(u.get(s, g('sources'), 'i'), 1))


ac(False)
ac(True)

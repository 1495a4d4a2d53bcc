from spec import *
from world import World
from eqs import Eqs
import lib
PID = 'U01'
LEVEL = 'proof'
NATIVE = 'U01'
E = 'Equation/Equation.cc'
FILES = [E, 'models/NodeModel.cc', 'Geometry/Region.cc', 'models/NodeScalarData.cc', 'Geometry/Node.cc']
C = 'Equation<double>'
VT = Fraction(259, 10000)
LOG = lambda x: lib.mfun('log')(zr(x))
ABS = lambda x: ITE(x >= 0, x, -x)
DEFAULT, LOGDAMP, POSITIVE = 0, 1, 2


def rvec(u, st, name, n, kind='r'):
    l = Loc(('v', name))
    f = z3.Function(name, I, R)
    u.set(st, l.mark('len'), 'i', n)
    u.family(l.seg('e', 0), 'r', lambda *ix: f(zi(ix[-1])))
    return l, f


def formula(ut, old, upd):
    """(effective update, new value)"""
    if ut == DEFAULT:
        return upd, old + upd
    if ut == LOGDAMP:
        e = ITE(ABS(upd) > zr(VT), ITE(upd > 0, zr(1), zr(-1)) * zr(VT) * LOG(1 + ABS(upd) / zr(VT)), upd)
        return e, old + e
    new = ITE(old + upd > 0, old + upd, zr(Fraction(1, 1000)) * old)
    return new - old, new


def helper(name, ut):
    @unit(PID, name, FILES, ['Equation::' + name])
    def _(u):
        """the update rule is applied to every node: effective update and new value"""
        ex = u.fresh_exec()
        st = State()
        n = fresh('n')
        st.assume(n >= 0)
        me = ref(ex.rootcls(C), 7)
        o, O = rvec(u, st, 'old', n)
        p, P = rvec(u, st, 'upd', n)
        q, Q = rvec(u, st, 'new', n)
        if ut == POSITIVE:
            i = z3.Int('i')
            st.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), O(i) > 0), patterns=[O(i)]))
        s2 = u.run(u.fn('Equation::' + name, C), [me, o, p, q], st)[1]
        u.sat('any', s2)
        k = u.idx(s2, 'k', n)
        e, v = formula(ut, O(k), P(k))
        u.prove('new value', s2, EQ(u.at(s2, q, k), v))
        u.prove('effective update', s2, EQ(u.at(s2, p, k), e))
        if ut == POSITIVE:
            u.prove('a positive solution stays positive', s2, u.at(s2, q, k) > 0)
        u.prove('lengths', s2, AND(EQ(u.len(s2, p), n), EQ(u.len(s2, q), n)))


helper('DefaultSolutionUpdate', DEFAULT)
helper('LogSolutionUpdate', LOGDAMP)
helper('PositiveSolutionUpdate', POSITIVE)


@unit(PID, 'PositiveSolutionUpdate_nonpositive', FILES, ['Equation::PositiveSolutionUpdate'])
def _(u):
    """a non-positive value of a positive variable is reported as a fatal error"""
    ex = u.fresh_exec()
    st = State()
    n = fresh('n')
    st.assume(n >= 1)
    me = ref(ex.rootcls(C), 7)
    u.set(st, ex.fld(me, C, 'myregion'), 'p', ex.obj('Region'))
    o, O = rvec(u, st, 'old', n)
    p, P = rvec(u, st, 'upd', n)
    q, Q = rvec(u, st, 'new', n)
    b = u.idx(st, 'bad', n)
    st.assume(O(b) <= 0)
    flag = Loc(('v', 'reported'))
    u.set(st, flag, 'i', 0)

    def rep(ex, st, ins, args):
        ex.storek(st, flag, 'i', ITE(EQ(args[-1], 4), 1, 0))
    ex.contracts.append(('dsErrors::SolutionVariableNonPositive', rep))
    s2 = u.run(u.fn('Equation::PositiveSolutionUpdate', C), [me, o, p, q], st)[1]
    u.sat('any', s2)
    u.prove('fatal error raised', s2, EQ(u.get(s2, flag, 'i'), 1))


def update(ut, name):
    @unit(PID, 'DefaultUpdate_' + name, FILES, ['Equation::DefaultUpdate'])
    def _(u):
        """node k moves by the rule applied to the entry of the solution vector at its row; error norms are the maxima over the nodes and are attained at the reported node"""
        q = Eqs(u)
        w, ex, st = q.w, q.ex, q.st
        old = w.model('Node', 'u')
        nm = ref(ex.rootcls('NodeModel'), ex.strlit('u'))
        u.set(st, q.f('updateType'), 'i', ut)
        m = fresh('minError', R)
        st.assume(m > 0)
        u.set(st, q.f('minError'), 'r', m)
        res, F = rvec(u, st, 'result', (q.neq + 1) * w.N + q.base)
        if ut == POSITIVE:
            i = z3.Int('i')
            st.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < w.N), old(i) > 0), patterns=[old(i)]))
        s2 = u.run(u.fn('Equation::DefaultUpdate', C), [q.me, nm, res], st)[1]
        u.sat('mesh', s2)
        k = u.idx(s2, 'k', w.N)
        rl = lambda i: formula(ut, old(i), F(q.row(i)))
        u.prove('one value per node', s2, EQ(w.reslen(s2, nm, 'Node'), w.N))
        u.prove('new value of every node', s2, EQ(w.res(s2, k, nm, 'Node'), rl(k)[1]))
        ae, re_ = u.get(s2, q.f('absError'), 'r'), u.get(s2, q.f('relError'), 'r')
        an, rn = u.get(s2, q.f('absErrorNodeIndex'), 'i'), u.get(s2, q.f('relErrorNodeIndex'), 'i')
        up = lambda i: ABS(rl(i)[0])
        rel = lambda i: up(i) / (ABS(rl(i)[1]) + m)
        u.prove('absolute error bounds every update', s2, up(k) <= zr(ae))
        u.prove('absolute error is attained', s2, OR(EQ(ae, Fraction(0)), AND(LE(0, an), LT(an, w.N), EQ(ae, up(an)))))
        u.prove('relative error bounds every update', s2, rel(k) <= zr(re_))
        u.prove('relative error is attained', s2, OR(EQ(re_, Fraction(0)), AND(LE(0, rn), LT(rn, w.N), EQ(re_, rel(rn)))))


update(DEFAULT, 'default')
update(LOGDAMP, 'log')
update(POSITIVE, 'positive')


def cvec(u, st, name, n):
    l = Loc(('v', name))
    fr, fi = z3.Function(name + '_re', I, R), z3.Function(name + '_im', I, R)
    u.set(st, l.mark('len'), 'i', n)
    u.family(l.seg('e', 0), 'r', lambda *ix: fr(zi(ix[-1])))
    u.family(l.seg('e', 0).plus(8), 'r', lambda *ix: fi(zi(ix[-1])))
    return l, fr, fi


def create(q, names_):
    """contract of CreateNodeSolution: a node model of that name on the region"""
    ex = q.ex

    def h(ex, st, ins, args):
        nm = q.sname(st, args[1])
        if nm not in names_:
            raise Unsupported('unexpected model created: ' + nm)
        ex.storek(st, args[0], 'p', ref(ex.rootcls('NodeModel'), ex.strlit(nm)))
    ex.contracts.append(('CreateNodeSolution', h))
    for n in ('dsErrors::CreateModelOnRegion', 'CreateVectorGradient'):
        ex.contracts.append((n, lambda ex, st, ins, args: None))


def complexupdate(which, present):
    @unit(PID, 'Default%sUpdate_%s' % (which, 'existing' if present else 'created'), FILES, ['Equation::Default%sUpdate' % which])
    def _(u):
        """node k gets the real and imaginary part of the entry of the complex solution at its row"""
        q = Eqs(u)
        w, ex, st = q.w, q.ex, q.st
        noise = which == 'Noise'
        rn, im = ('out_eqn_real', 'out_eqn_imag') if noise else ('u_Real', 'u_Imag')
        w.model('Node', rn, exists=present)
        w.model('Node', im, exists=present)
        for n in (rn, im):
            w.model('Node', n + '_gradx', exists=False)
        create(q, (rn, im))
        res, fr, fi = cvec(u, st, 'result', (q.neq + 1) * w.N + q.base)
        if noise:
            perm = Loc(('v', 'perm'))
            pr = z3.Function('permutedRow', I, I)
            u.set(st, perm.mark('len'), 'i', (q.neq + 1) * w.N + q.base)
            u.family(perm.seg('e', 0), 'i', lambda *ix: pr(zi(ix[-1])))
            i = z3.Int('i')
            st.assume(z3.ForAll([i], z3.And(-1 <= pr(i), pr(i) < (q.neq + 1) * w.N + q.base), patterns=[pr(i)]))
            out = Loc(('v', 'outname'))
            u.set(st, out, 's', ex.strlit('out'))
            args = [q.me, out, perm, res]
        else:
            nm = ref(ex.rootcls('NodeModel'), ex.strlit('u'))
            u.set(st, w.fam('NodeModel', 'name', ex.strlit('u')), 's', ex.strlit('u'))
            args = [q.me, nm, res]
        s2 = u.run(u.fn('Equation::Default%sUpdate' % which, C), args, st)[1]
        u.sat('mesh', s2)
        k = u.idx(s2, 'k', w.N)
        for nm, f, what in ((rn, fr, 'real'), (im, fi, 'imaginary')):
            o = ref(ex.rootcls('NodeModel'), ex.strlit(nm))
            row = q.row(k)
            want = f(row)
            if noise:
                want = ITE(EQ(pr(row), -1), zr(0), f(pr(row)))
            u.prove(what + ' part: one value per node', s2, EQ(w.reslen(s2, o, 'Node'), w.N))
            u.prove(what + ' part of the entry at the row of the node', s2, EQ(w.res(s2, k, o, 'Node'), want))


for wh in ('AC', 'Noise'):
    for pr_ in (True, False):
        complexupdate(wh, pr_)


def region(which, cplx):
    @unit(PID, 'Region_' + which, FILES + ['Equation/EquationHolder.cc'], ['Region::' + which])
    def _(u):
        """every equation of the region is updated exactly once, each with the model of its own variable, and the error norms are the sums over the equations"""
        ex = u.fresh_exec()
        st = State()
        R_ = ex.obj('Region')
        f = lambda m: ex.fld(R_, 'Region', m)
        has, eqn, var = z3.Function('hasEquation', I, B), z3.Function('equationOf', I, I), z3.Function('variableOf', I, I)
        A, Rr = z3.Function('absErrorOf', I, R), z3.Function('relErrorOf', I, R)
        n = fresh('numEquations')
        st.assume(n >= 0)
        m = f('equationPointerMap')
        u.family(m.seg('m', 0).mark('has'), 'b', lambda *ix: has(zi(ix[-1])))
        u.family(m.seg('m', 0), 'p', lambda *ix: norm(eqn(zi(ix[-1]))))
        u.set(st, m.mark('msize'), 'i', n)
        u.set(st, f('numequations'), 'i', n)
        i, j = z3.Ints('i j')
        inv = z3.Function('nameOf', I, I)
        st.assume(z3.ForAll([i], z3.And(eqn(i) >= 0, inv(eqn(i)) == i), patterns=[eqn(i)]))
        ex.inverses['equationOf'] = inv
        ev = ref(ex.rootcls(C), 0)
        ex.dyn[ex.rootcls(C)] = C
        u.family(ex.fld(ev, C, 'variable'), 's', lambda k: var(zi(k)))
        calls, arg = Loc(('v', 'calls'), ((0, 'c', 0),), 0), Loc(('v', 'modelarg'), ((0, 'c', 0),), 0)
        res = Loc(('v', 'resarg'), ((0, 'c', 0),), 0)
        at = lambda l, k: Loc(l.root, ((0, 'c', k),), 0)
        u.family(calls, 'i', lambda k: 0)
        inp = Loc(('v', 'result'))
        out = Loc(('v', 'output'))
        u.set(st, inp.mark('len'), 'i', fresh('len'))

        def upd(ex, st, ins, args):
            k = args[0].rid
            ex.storek(st, at(calls, k), 'i', add(ex.loadk(st, at(calls, k), 'i'), 1))
            if which == 'NoiseUpdate':
                ok = args[1] is out or (isinstance(args[1], Loc) and args[1].key() == out.key())
            else:
                ex.storek(st, at(arg, k), 'i', ex.enc(args[1]))
                ok = True
            l = args[-1]
            ok = ok and isinstance(l, Loc) and l.key() == inp.key()
            ex.storek(st, at(res, k), 'i', 1 if ok else 0)
            if not cplx:
                ex.storek(st, ex.fld(ref(ex.rootcls(C), k), C, 'absError'), 'r', A(zi(k)))
                ex.storek(st, ex.fld(ref(ex.rootcls(C), k), C, 'relError'), 'r', Rr(zi(k)))
            return None
        ex.contracts.append((lambda mm, dn, sn: sn == 'Equation::' + which and 'Equation<double>' in dn, upd))

        def gnm(ex, st, ins, args):
            ex.storek(st, args[0], 'p', ref(ex.rootcls('NodeModel'), zi(ex.loadk(st, args[2], 's'))))
        ex.contracts.append(('Region::GetNodeModel', gnm))
        i0 = z3.Int('i0')
        st.assume(z3.ForAll([i0], var(i0) >= 0, patterns=[var(i0)]))
        args = [R_, inp] if which != 'NoiseUpdate' else [R_, out, Loc(('v', 'perm')), inp]
        s2 = u.run(u.fn('Region::' + which, '<double>'), args, st)[1]
        u.sat('any', s2)
        k = fresh('equation')
        s2.assume(z3.And(k >= 0, has(k)))
        u.prove('an equation of the region is updated exactly once', s2, EQ(u.get(s2, at(calls, eqn(k)), 'i'), 1))
        if which != 'NoiseUpdate':
            u.prove('with the model of its variable', s2, EQ(u.get(s2, at(arg, eqn(k)), 'i'), var(eqn(k))))
        u.prove('from the given solution', s2, EQ(u.get(s2, at(res, eqn(k)), 'i'), 1))
        if not cplx and ex.enumerations:
            K = ex.enumerations[0]['K']
            t = z3.Int('t')
            for nm, F in (('absError', A), ('relError', Rr)):
                u.prove('%s of the region is the sum over its equations' % nm, s2, EQ(u.get(s2, f(nm), 'r'), SUM(t, F(eqn(K(zi(R_.rid), t))), n)))


region('Update', False)
region('ACUpdate', True)
region('NoiseUpdate', True)


def device(which):
    @unit(PID, 'Device_' + which, ['Geometry/Device.cc'] + FILES, ['Device::' + which])
    def _(u):
        """every region of the device takes part exactly once, from the given solution; the device has the largest absolute and the summed relative error of its regions"""
        ex, st = u.fresh_exec(), State()
        D = Loc(('v', 'device'))
        f = lambda m: ex.fld(D, 'Device', m)
        has, reg, inv = z3.Function('hasRegion', I, B), z3.Function('regionOf', I, I), z3.Function('nameOfRegion', I, I)
        A, Rr = z3.Function('absErrorOfRegion', I, R), z3.Function('relErrorOfRegion', I, R)
        n, i = fresh('numRegions'), z3.Int('i')
        st.assume(z3.And(n >= 0, z3.ForAll([i], z3.And(reg(i) >= 0, inv(reg(i)) == i), patterns=[reg(i)])))
        ex.inverses['regionOf'] = inv
        m = f('regionList')
        u.family(m.seg('m', 0).mark('has'), 'b', lambda *ix: has(zi(ix[-1])))
        u.family(m.seg('m', 0), 'p', lambda *ix: norm(reg(zi(ix[-1]))))
        u.set(st, m.mark('msize'), 'i', n)
        at = lambda name, k: Loc(('v', name), ((0, 'c', k),), 0)
        u.family(at('calls', 0), 'i', lambda k: 0)
        args = [Loc(('v', 'result'))] if which != 'NoiseUpdate' else [Loc(('v', x)) for x in ('output', 'perm', 'result')]

        def upd(ex, st, ins, a):
            ex.oblige(st, 'the arguments of the caller', all(isinstance(y, Loc) and x.key() == y.key() for x, y in zip(args, a[1:])))
            c = at('calls', a[0].rid)
            ex.storek(st, c, 'i', add(ex.loadk(st, c, 'i'), 1))

        def err(F):
            def h(ex, st, ins, a):
                ex.oblige(st, 'an error is read after the update', EQ(ex.loadk(st, at('calls', a[0].rid), 'i'), 1))
                return F(zi(a[0].rid))
            return h
        ex.contracts.append((lambda mm, dn, sn: sn == 'Region::' + which, upd))
        ex.contracts.append((lambda mm, dn, sn: sn == 'Region::GetAbsError', err(A)))
        ex.contracts.append((lambda mm, dn, sn: sn == 'Region::GetRelError', err(Rr)))
        # all real numbers are ordered
        ex.contracts.append((lambda mm, dn, sn: sn.endswith('is_unordered_value') or sn.endswith('is_unordered_comparison'), lambda ex, st, ins, a: False))
        s = u.run(u.fn('Device::' + which, '<double>'), [D] + args, st)[1]
        u.sat('any', s)
        k = fresh('region')
        s.assume(has(k))
        u.prove('every region exactly once', s, EQ(u.get(s, at('calls', reg(k)), 'i'), 1))
        if which == 'Update' and ex.enumerations:
            K, pos = ex.enumerations[0]['K'], ex.enumerations[0]['pos']
            t = z3.Int('t')
            ae, re_ = u.get(s, f('absError'), 'r'), u.get(s, f('relError'), 'r')
            u.prove('the relative error is the sum over the regions', s, EQ(re_, SUM(t, Rr(reg(K(t))), n)))
            q = u.idx(s, 'q', n)          # the number of the region in the walk: every region has one (enumeration of the map)
            u.prove('the absolute error bounds that of every region', s, A(reg(K(q))) <= zr(ae))
            w = z3.Int('w')
            u.prove('the absolute error is that of a region, or zero', s, OR(EQ(ae, Fraction(0)), z3.Exists([w], z3.And(0 <= w, w < n, zr(ae) == A(reg(K(w)))))))


device('Update')
device('ACUpdate')
device('NoiseUpdate')

from spec import *
import lib
PID = 'R01'
LEVEL = 'proof'
NATIVE = 'R01'
BOUNDED = []
NW, DV, RG = 'math/Newton.cc', 'Geometry/Device.cc', 'Geometry/Region.cc'
N = 'dsMath::Newton<double>'


def settle(ex, st, t):
    """the branch of a conditional that the path implies"""
    todo = [t]
    while todo:
        x = todo.pop()
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE:
            todo += [x.arg(1), x.arg(2)]
        elif not z3.is_int_value(x) and ex.P.entails(st.pc, x == t, 500):
            return norm(x)
    return norm(t)


class Solutions:
    """a region with solution variables and node models: which exist, and what each of them holds (an id of its list of values)"""

    def __init__(self, u):
        self.u = u
        ex, st = self.ex, self.st = u.fresh_exec(), State()
        self.R = ex.obj('Region')
        self.n = fresh('numVariables')
        self.var, self.pos = z3.Function('variable', I, I), z3.Function('positionOf', I, I)
        self.c0, self.h0 = z3.Function('contentBefore', I, I), z3.Function('hasModelBefore', I, B)
        self.lossy = z3.Function('otherPrecision', I, I)
        self.ext = z3.Bool('extended')
        self.suf = fresh('suffix')
        i, j = z3.Ints('i j')
        st.assume(self.n >= 0)
        stem = z3.Function('stem', I, I)
        cat = lib._cat
        # distinct variables; a suffix makes distinct names that are no variables (contract on the names of the caller)
        st.assume(z3.ForAll([i], z3.And(self.var(i) >= 0, self.pos(self.var(i)) == i), patterns=[self.var(i)]))
        st.assume(z3.ForAll([i], z3.And(cat(i, self.suf) >= 0, stem(cat(i, self.suf)) == i), patterns=[cat(i, self.suf)]))
        st.assume(z3.ForAll([i, j], z3.Not(cat(self.var(i), self.suf) == self.var(j)), patterns=[z3.MultiPattern(cat(self.var(i), self.suf), self.var(j))]))
        st.assume(self.suf != 0)
        ex.inverses['variable'] = self.pos
        ex.inverses['str_cat'] = (stem, 0)
        self.stem = stem
        self.isvar = z3.Function('isVariable', I, B)
        self.l = lambda name: (lambda k: Loc(('v', name), ((0, 'c', k),), 0))
        self.content, self.has = self.l('content'), self.l('hasModel')
        u.family(self.content(0), 'i', lambda k: norm(self.c0(zi(k))))
        u.family(self.has(0), 'b', lambda k: self.h0(zi(k)))
        st.assume(z3.ForAll([i], self.h0(self.var(i)), patterns=[self.var(i)]))
        self.sl = Loc(('v', 'suffixarg'))
        u.set(st, self.sl, 's', self.suf)
        rc = ex.rootcls('NodeModel')
        c = ex.contracts.append
        mine = lambda a: EQ(a.rid, self.R.rid)

        def vlist(ex, st, ins, a):
            ex.oblige(st, 'the variables of this region', mine(a[1]))
            ex.storek(st, a[0].mark('len'), 'i', self.n)
            e = a[0].seg('e', 0)
            st.mem[e.key() + ('s',)] = lib.Over(ex.node(st, e.key(), 's'), lambda *ix: True, lambda *ix: norm(self.var(zi(ix[-1]))))
        c(('Region::GetVariableList', vlist))

        def gnm(ex, st, ins, a):
            ex.oblige(st, 'a model of this region', mine(a[1]))
            nm = zi(ex.loadk(st, a[2], 's'))
            h = zb(ex.loadk(st, self.has(nm), 'b'))
            ex.storek(st, a[0], 'p', ref(rc, nm if ex.P.entails(st.pc, h, 300) else ITE(h, nm, -1)))
        c(('Region::GetNodeModel', gnm))

        def create(ex, st, ins, a):
            nm = zi(ex.loadk(st, a[1], 's'))
            ex.oblige(st, 'a model for this region', mine(a[2]))
            ex.oblige(st, 'no model is replaced', NOT(zb(ex.loadk(st, self.has(nm), 'b'))))
            ex.storek(st, self.has(nm), 'b', True)
            ex.storek(st, a[0], 'p', ref(rc, nm))
        c((lambda m, dn, sn: sn.endswith('CreateNodeSolution'), create))

        def cast(e):
            def h(ex, st, ins, a):
                v = ex.load2(st, a[1])
                if isinstance(v, Loc):
                    ex.storek(st, a[0], 'p', ref(rc, ITE(self.ext if e else z3.Not(self.ext), v.rid, -1)))
                else:
                    ex.storek(st, a[0], 'p', v)
            return h
        c((lambda m, dn, sn: 'dynamic_pointer_cast' in dn and 'float128' in dn.split('(')[0], cast(True)))
        c((lambda m, dn, sn: 'dynamic_pointer_cast' in dn and 'float128' not in dn.split('(')[0], cast(False)))
        uni = z3.Function('isUniform', I, B)
        c(('NodeModel::IsUniform', lambda ex, st, ins, a: uni(zi(a[0].rid))))
        self.list = lambda k: Loc(('v', 'values'), ((0, 'c', k),), 0)

        def conv(e, x):
            return z3.If(self.ext if e else z3.Not(self.ext), zi(x), self.lossy(zi(x)))

        def get(e):
            return lambda ex, st, ins, a: self.list(norm(conv(e, ex.loadk(st, self.content(a[0].rid), 'i'))))

        def put(e):
            def h(ex, st, ins, a):
                x = settle(ex, st, zi(a[0].rid))
                # a model that is written exists, so to say that it does is no change
                ex.oblige(st, 'the model that is written exists', zb(ex.loadk(st, self.has(x), 'b')))
                ex.storek(st, self.has(x), 'b', True)
                ex.storek(st, self.content(x), 'i', norm(conv(e, a[1].segs[-1][2])))
            return h
        for e in (True, False):
            q = lambda dn, e=e: ('float128' in dn) == e
            c((lambda m, dn, sn, q=q: sn == 'NodeModel::GetScalarValues' and q(dn), get(e)))
            c((lambda m, dn, sn, q=q: sn == 'NodeModel::SetValues' and q(dn), put(e)))

    def bak(self, x):
        return lib._cat(zi(x), self.suf)


@unit(PID, 'backup of a region', [RG], ['Region::BackupSolutions'])
def _(u):
    """the values of every solution variable are held, in the same precision, by the model of its name and the suffix; the variables and all other models stay"""
    q = Solutions(u)
    s = u.run(u.fn('Region::BackupSolutions'), [q.R, q.sl], q.st)[1]
    u.sat('any', s)
    i = u.idx(s, 'i', q.n)
    x = q.var(i)
    u.prove('the backup exists', s, zb(u.get(s, q.has(q.bak(x)), 'b')))
    u.prove('the backup holds the values', s, EQ(u.get(s, q.content(q.bak(x)), 'i'), q.c0(x)))
    u.prove('the variable stays', s, EQ(u.get(s, q.content(x), 'i'), q.c0(x)))
    o = fresh('other')
    s.assume(z3.Not(z3.And(0 <= q.pos(q.stem(o)), q.pos(q.stem(o)) < q.n, q.bak(q.var(q.pos(q.stem(o)))) == o)))
    u.prove('other models stay', s, AND(EQ(u.get(s, q.content(o), 'i'), q.c0(o)), zb(u.get(s, q.has(o), 'b')) == q.h0(o)))


@unit(PID, 'restore of a region', [RG], ['Region::RestoreSolutions'])
def _(u):
    """every solution variable gets the values of its backup back, in the same precision; all other models stay"""
    q = Solutions(u)
    i = z3.Int('i')
    q.st.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < q.n), q.h0(q.bak(q.var(i)))), patterns=[q.bak(q.var(i))]))
    s = u.run(u.fn('Region::RestoreSolutions'), [q.R, q.sl], q.st)[1]
    u.sat('any', s)
    i = u.idx(s, 'i', q.n)
    x = q.var(i)
    u.prove('the values are back', s, EQ(u.get(s, q.content(x), 'i'), q.c0(q.bak(x))))
    o = fresh('other')
    s.assume(z3.Not(z3.And(0 <= q.pos(o), q.pos(o) < q.n, q.var(q.pos(o)) == o)))
    u.prove('other models stay', s, EQ(u.get(s, q.content(o), 'i'), q.c0(o)))


def holder(u, st, ex, owner, field, name):
    m = ex.fld(owner, *field)
    has, part, inv = z3.Function('has' + name, I, B), z3.Function(name + 'Of', I, I), z3.Function('nameOf' + name, I, I)
    n = fresh('num' + name)
    st.assume(n >= 0)
    u.family(m.seg('m', 0).mark('has'), 'b', lambda *ix: has(zi(ix[-1])))
    u.family(m.seg('m', 0), 'p', lambda *ix: norm(part(zi(ix[-1]))))
    u.set(st, m.mark('msize'), 'i', n)
    i = z3.Int('i')
    st.assume(z3.ForAll([i], z3.And(part(i) >= 0, inv(part(i)) == i), patterns=[part(i)]))
    ex.inverses[name + 'Of'] = inv
    return has, part, n


def counter_(u, name):
    calls = Loc(('v', name), ((0, 'c', 0),), 0)
    u.family(calls, 'i', lambda k: 0)
    return lambda k: Loc(calls.root, ((0, 'c', k),), 0)


def device(fname, callee, args, same, files=(DV,)):
    @unit(PID, fname, list(files), [fname])
    def _(u):
        """every region takes part exactly once, with the arguments of the caller"""
        ex, st = u.fresh_exec(), State()
        me = ex.obj('Device')
        has, part, n = holder(u, st, ex, me, ('Device', 'regionList'), 'region')
        calls = counter_(u, 'calls')
        a = args(u, st)

        def h(ex, st, ins, b):
            ex.oblige(st, 'the arguments of the caller', z3.And(*[zb(same(ex, st, x, y)) for x, y in zip(a, b[1:])]))
            c = calls(b[0].rid)
            ex.storek(st, c, 'i', add(ex.loadk(st, c, 'i'), 1))
        ex.contracts.append((lambda m, dn, sn: sn == callee, h))
        s = u.run(u.fn(fname, *(['<double>'] if 'Update' in fname else [])), [me] + a, st)[1]
        u.sat('any', s)
        k = fresh('name')
        s.assume(has(k))
        u.prove('every region exactly once', s, EQ(u.get(s, calls(part(k)), 'i'), 1))


def strarg(u, st):
    l = Loc(('v', 'suffix'))
    u.set(st, l, 's', fresh('suffix'))
    return [l]


def samestr(ex, st, x, y):
    return EQ(ex.loadk(st, x, 's'), ex.loadk(st, y, 's'))


def sameloc(ex, st, x, y):
    return z3.BoolVal(isinstance(y, Loc) and x.key() == y.key())


device('Device::BackupSolutions', 'Region::BackupSolutions', strarg, samestr)
device('Device::RestoreSolutions', 'Region::RestoreSolutions', strarg, samestr)


def newton(fname, callee, frm, to):
    @unit(PID, fname, [NW, 'Data/GlobalData.cc'], [fname])
    def _(u):
        """every device takes part exactly once, under one suffix, and so does the circuit when there is one"""
        ex, st = u.fresh_exec(), State()
        G, NK = ex.obj('GlobalData'), ex.obj('NodeKeeper')
        has, part, n = holder(u, st, ex, G, ('GlobalData', 'deviceList'), 'device')
        calls = counter_(u, 'calls')
        ng = z3.Bool('haveNodes')
        g = {k: Loc(('v', 'ghost ' + k)) for k in ('copied', 'made')}
        for l in g.values():
            u.set(st, l, 'i', 0)
        L = lambda x: zi(ex.strlit(x))
        cat = lib._cat
        prev = L('dcop_prev')
        st.assume(cat(L('dcop'), L('_prev')) == prev)

        def h(ex, st, ins, a):
            ex.oblige(st, 'the suffix', EQ(ex.loadk(st, a[1], 's'), L('_prev')))
            c = calls(a[0].rid)
            ex.storek(st, c, 'i', add(ex.loadk(st, c, 'i'), 1))

        def copy(ex, st, ins, a):
            ex.oblige(st, 'the circuit solutions', AND(EQ(ex.loadk(st, a[1], 's'), L(frm)), EQ(ex.loadk(st, a[2], 's'), L(to))))
            ex.oblige(st, 'the copy is made before it is written', OR(z3.BoolVal(to == 'dcop'), EQ(ex.loadk(st, g['made'], 'i'), 1)))
            ex.storek(st, g['copied'], 'i', add(ex.loadk(st, g['copied'], 'i'), 1))

        def init(ex, st, ins, a):
            ex.oblige(st, 'only the copy is made', EQ(ex.loadk(st, a[1], 's'), prev))
            ex.storek(st, g['made'], 'i', 1)
        c = ex.contracts.append
        c((callee, h))
        c(('GlobalData::GetInstance', lambda ex, st, ins, a: G))
        c(('NodeKeeper::instance', lambda ex, st, ins, a: NK))
        c(('NodeKeeper::HaveNodes', lambda ex, st, ins, a: ng))
        c(('NodeKeeper::InitializeSolution', init))
        c(('NodeKeeper::CopySolution', copy))
        s = u.run(u.fn(fname, N), [ex.obj(N)], st)[1]
        u.sat('any', s)
        k = fresh('name')
        s.assume(has(k))
        u.prove('every device exactly once', s, EQ(u.get(s, calls(part(k)), 'i'), 1))
        u.prove('the circuit once', s, EQ(u.get(s, g['copied'], 'i'), ITE(ng, 1, 0)))


newton('dsMath::Newton::BackupSolutions', 'Device::BackupSolutions', 'dcop', 'dcop_prev')
newton('dsMath::Newton::RestoreSolutions', 'Device::RestoreSolutions', 'dcop_prev', 'dcop')

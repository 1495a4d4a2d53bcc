from spec import *
from totals import Totals
import lib
PID = 'I01'
LEVEL = 'proof'
NATIVE = 'I01'
BOUNDED = [('assembly', ['InterfaceEquation::GetActiveNodes0', 'InterfaceEquation::GetActiveNodes1'], 'searches with early exits through the contacts and interfaces of a device; random interfaces and contacts sharing nodes are compared with the ownership rule')]
CC = 'Equation/InterfaceEquation.cc'
FILES = [CC, 'Geometry/Interface.cc', 'Geometry/Region.cc', 'Geometry/Node.cc', 'Geometry/Permutation.cc']
C = 'InterfaceEquation<double>'
MATRIXONLY, RHS, BOTH, PERM = 0, 1, 2, 3
WN = {MATRIXONLY: 'matrix', RHS: 'rhs', BOTH: 'both', PERM: 'permutations'}


class Inter:
    """an interface of n node pairs (node0(i), node1(i)) between regions 0 and 1; region r solves the variables vars[r]"""

    def __init__(self, u, vars=(('u', 'v'), ('u', 'x')), cls=C):
        self.u = u
        ex = self.ex = u.fresh_exec()
        st = self.st = State()
        self.vars = vars
        self.me = ref(ex.rootcls(cls), 7)
        ex.dyn[ex.rootcls(cls)] = cls
        f = self.f = lambda m: ex.fld(self.me, cls, m)
        for k, nm in (('myname', 'eqn'), ('myname0', 'eqn0'), ('myname1', 'eqn1')):
            u.set(st, f(k), 's', ex.strlit(nm))
        self.IN = ref(ex.rootcls('Interface'), 3)
        u.set(st, f('myinterface'), 'p', self.IN)
        self.R = [ref(ex.rootcls('Region'), k) for k in (0, 1)]
        for k in (0, 1):
            u.set(st, ex.fld(self.IN, 'Interface', 'rp%d' % k), 'p', self.R[k])
        self.n = fresh('numInterfaceNodes')
        st.assume(self.n >= 0)
        self.node = [z3.Function('node%d' % k, I, I) for k in (0, 1)]
        self.index = z3.Function('nodeIndex', I, I)
        self.act = [z3.Function('active%d' % k, I, B) for k in (0, 1)]
        for k in (0, 1):
            l = ex.fld(self.IN, 'Interface', 'nodes%d' % k)
            u.set(st, l.mark('len'), 'i', self.n)
            u.family(l.seg('e', 0), 'p', lambda *ix, k=k: self.node[k](zi(ix[-1])))
        u.family(ex.fld(ref(ex.rootcls('Node'), 0), 'Node', 'index'), 'i', lambda i: self.index(zi(i)))
        i = z3.Int('i')
        self.N = [fresh('numNodes%d' % k) for k in (0, 1)]
        for k in (0, 1):
            x = self.index(self.node[k](i))
            st.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < self.n), z3.And(0 <= x, x < self.N[k])), patterns=[self.node[k](i)]))
        self.row_ = z3.Function('rowOf', I, I, I, I)      # region, equation, node
        self.eqi = {}
        C_ = ex.contracts.append
        C_(('Region::GetEquationIndex', lambda ex, st, ins, a: self.eq(self.reg(a[0]), self.sname(st, a[1]))))
        C_(('Region::GetEquationNameFromVariable', self.eqname))
        C_(('Region::GetVariableList', self.vlist))
        C_(('Region::GetEquationNumber', self.number))
        C_(('Interface::GetInterfaceNodeModel', self.inm))
        C_(('Region::GetNodeModel', self.nm))
        C_(('InterfaceNodeModel::GetScalarValues', lambda ex, st, ins, a: self.vals('im', a[0])))
        C_(('NodeModel::GetScalarValues', lambda ex, st, ins, a: self.vals('nm', a[0])))
        for k in (0, 1):
            C_(('InterfaceEquation::GetActiveNodes%d' % k, self.active(k)))
        for e in ('MissingInterfaceEquationModel',):
            C_(('dsErrors::' + e, lambda ex, st, ins, a: st.assume(NOT(EQ(a[-1], 4)))))
        C_(('GeometryStream::WriteOut', lambda ex, st, ins, a: st.assume(NOT(EQ(a[0], 4)))))
        self.im, self.nmod = {}, {}
        for kind in ('im', 'nm'):
            b = Loc((kind,), ((0, kind, 0),), 0)
            u.family(b.mark('len'), 'i', (lambda c: self.n) if kind == 'im' else lambda c: ITE(EQ(zi(c) % 2, 0), self.N[0], self.N[1]))
            u.family(b.seg('e', 0), 'r', lambda c, i, kind=kind: self.value(kind, c)(zi(i)))
        self.t = Totals(u, st)

    def value(self, kind, c):
        c = norm(c)
        d = self.im if kind == 'im' else self.nmod
        if isinstance(c, int) and c in d and d[c] is not None:
            return d[c]
        return lambda i: z3.Function('other_' + kind, I, I, R)(zi(c), i)

    def vals(self, kind, m):
        if not (isinstance(m, Loc) and m.isref()):
            raise Unsupported('values of an unknown model')
        return Loc((kind,), ((0, kind, m.rid),), 0)

    def model(self, name, exists=True):
        c = self.ex.strlit(name)
        self.im[c] = z3.Function('interfaceModel_' + name, I, R) if exists else None
        return self.im[c]

    def nodemodel(self, region, name):
        c = 2 * self.ex.strlit(name) + region
        self.nmod[c] = z3.Function('nodeModel_%s_of_region%d' % (name, region), I, R)
        return self.nmod[c]

    def inm(self, ex, st, ins, a):
        c = norm(ex.loadk(st, a[2], 's'))
        if not isinstance(c, int) or c not in self.im:
            raise Unsupported('unexpected interface model requested: %s' % [k for k, v in ex.strs.items() if EQ(v, c) is True])
        ex.storek(st, a[0], 'p', NULL if self.im[c] is None else ref(ex.rootcls('InterfaceNodeModel'), c))

    def nm(self, ex, st, ins, a):
        c = norm(ex.loadk(st, a[2], 's'))
        k = self.reg(a[1])
        if not isinstance(c, int) or 2 * c + k not in self.nmod:
            raise Unsupported('unexpected node model requested')
        ex.storek(st, a[0], 'p', ref(ex.rootcls('NodeModel'), 2 * c + k))

    def sname(self, st, loc):
        c = norm(self.ex.loadk(st, loc, 's'))
        for k, v in self.ex.strs.items():
            if v == c:
                return k
        raise Unsupported('computed name')

    def reg(self, r):
        if isinstance(r, Loc) and r.isref() and r.root[1] in ('?', self.R[0].root[1]):
            if norm(r.rid) in (0, 1):
                return norm(r.rid)
        raise Unsupported('unknown region')

    def eq(self, k, nm):
        if (k, nm) not in self.eqi:
            q = fresh('equationIndex_%s_in_region%d' % (nm, k))
            self.st.assume(q >= 0)
            self.eqi[k, nm] = q
        return self.eqi[k, nm]

    def eqname(self, ex, st, ins, a):
        ex.storek(st, a[0], 's', ex.strlit('equation of %s' % self.sname(st, a[2])))

    def vlist(self, ex, st, ins, a):
        l, vs = a[0], self.vars[self.reg(a[1])]
        ex.storek(st, l.mark('len'), 'i', len(vs))
        for i, v in enumerate(vs):
            ex.storek(st, l.seg('e', i), 's', ex.strlit(v))

    def number(self, ex, st, ins, a):
        r, q, n = a
        k = self.reg(r)
        ok = z3.BoolVal(any(EQ(q, v) is True for (kk, nm), v in self.eqi.items() if kk == k))
        ex.oblige(st, 'the equation belongs to the region whose rows are used', ok)
        x = self.row_(k, zi(q), zi(n.rid))
        st.assume(x >= 0)
        return x

    def active(self, k):
        def h(ex, st, ins, a):
            lib.set_region(ex, st, a[0], (('seg', 'm'), ('mark', 'has')), 'b', lambda i: True, lambda i: self.act[k](zi(i)))
        return h

    def row(self, k, i, nm=None):
        return self.row_(k, zi(self.eq(k, nm or 'eqn%d' % k)), self.node[k](i))

    def total(self, g):
        """sum over the node pairs active on both sides"""
        i = z3.Int('i_')
        return SUM(i, zr(ITE(AND(self.act[0](self.node[0](i)), self.act[1](self.node[1](i))), g(i), Fraction(0))), self.n)


def declare(q):
    im = q.model('mod')
    ders = {(0, 'u'): q.model('mod:u@r0'), (1, 'x'): q.model('mod:x@r1'), (1, 'u'): q.model('mod:u@r1')}
    q.model('mod:v@r0', exists=False)
    sa = [q.nodemodel(k, 'area') for k in (0, 1)]
    return im, ders, sa


def sarg(q, nm):
    l = Loc(('v', 'arg_' + nm))
    q.u.set(q.st, l, 's', q.ex.strlit(nm))
    return l


#: what each kind of interface equation enters at a node pair for an interface value x: [(region row, factor)]
def entries(q, kind, i, x, sa):
    a = [sa[k](q.index(q.node[k](i))) for k in (0, 1)]
    return {1: [(1, x)], 2: [(0, x * a[0]), (1, -x * a[1])], 3: [(1, -x * a[1])]}[kind]


def assemble(kind, W):
    nm = 'NodeVolumeType%dAssemble' % kind

    @unit(PID, '%s_%s' % (nm, WN[W]), FILES, ['InterfaceEquation::' + nm])
    def _(u):
        """rows of active node pairs receive exactly the interface value and its derivatives by the variables of both regions"""
        q = Inter(u)
        ex, st, t = q.ex, q.st, q.t
        im, ders, sa = declare(q)
        p = Loc(('v', 'p'))
        g = Loc(('v', 'total of the permuted rows'))
        psi = z3.Function('weightOfPermutation', I, I, I, R)
        g0 = fresh('g0', R)
        u.set(st, g, 'r', g0)
        slot = [None]

        def at(ex, st, ins, a):
            ex.oblige(st, 'the caller\'s permutation map', z3.BoolVal(a[0].key() == p.key()))
            slot[0] = ex.loadk(st, a[1], 'i') if isinstance(a[1], Loc) else a[1]
            return Loc(('v', 'entry'))

        def put(ex, st, ins, a):
            if a[0].key() != Loc(('v', 'entry')).key():
                raise Unsupported('entry elsewhere')
            ex.storek(st, g, 'r', add(ex.loadk(st, g, 'r'), psi(zi(slot[0]), zi(ex.loadk(st, ex.fld(a[1], 'PermutationEntry', 'newrow'), 'i')), zi(ex.loadk(st, ex.fld(a[1], 'PermutationEntry', 'keepcopy'), 'i')))))
            return a[0]
        ex.contracts.append((lambda m, dn, sn: sn == 'std::map::operator[]' and 'PermutationEntry' in dn, at))
        ex.contracts.append(('PermutationEntry::operator=', put))
        s2 = u.run(u.fn('InterfaceEquation::' + nm, C), [q.me, sarg(q, 'mod'), t.m, t.v, p, W, sarg(q, 'area')], st)[1]
        u.sat('interface', s2)
        Rw = M = P = zr(0)
        if W in (RHS, BOTH):
            Rw = q.total(lambda i: sum((t.rhs(q.row(k, i), x) for k, x in entries(q, kind, i, im(i), sa)), zr(0)))
        if W in (MATRIXONLY, BOTH):
            for (r, v), d in ders.items():
                M = M + q.total(lambda i: sum((t.at(q.row(k, i), q.row(r, i, 'equation of ' + v), x) for k, x in entries(q, kind, i, d(i), sa)), zr(0)))
        if W == PERM and kind != 2:
            P = q.total(lambda i: psi(q.row(1, i), q.row(0, i), 1 if kind == 3 else 0))
        t.residual(s2, 'total of the residual entries of a row', Rw)
        t.matrix(s2, 'total of the matrix entries at a row and column', M)
        u.prove('rows of the second region folded into the first', s2, EQ(ex.loadk(s2, g, 'r'), g0 + P))


for kind in (1, 2, 3):
    for W in (RHS, MATRIXONLY, BOTH, PERM):
        assemble(kind, W)

XC = 'InterfaceExprEquation<double>'
XF = FILES + ['AutoEquation/InterfaceExprEquation.cc']


def request(name, etype, model, mode, want):
    @unit(PID, name, XF, ['InterfaceExprEquation::DerivedAssemble'])
    def _(u):
        """the assembly of the chosen type is requested once in steady loads, none in time dependent loads"""
        q = Inter(u, cls=XC)
        ex, st = q.ex, q.st
        me = q.me
        for m_, nm in (('myinterface', None),):
            pass
        u.set(st, ex.fld(me, XC, 'interface_node_model_'), 's', ex.strlit('mod') if model else 0)
        u.set(st, ex.fld(me, XC, 'equation_type_'), 'i', etype)
        p = Loc(('v', 'p'))
        what = fresh('what')
        st.assume(z3.And(what >= 0, what <= 3))
        for g in ('Region::SetModelExprDataCache', 'ModelExprDataCache::clear', 'Interface::SetInterfaceModelExprDataCache'):
            ex.contracts.append((g, lambda ex, st, ins, a: None))
        ex.contracts.append(('Interface::GetSurfaceAreaModel', lambda ex, st, ins, a: ex.storek(st, a[0], 's', ex.strlit('area'))))
        cnt = Loc(('v', 'requests')), Loc(('v', 'other requests'))
        for c in cnt:
            u.set(st, c, 'i', 0)
        for k in (1, 2, 3):
            def h(ex, st, ins, a, k=k):
                ex.oblige(st, 'same lists and request are passed on', AND(z3.BoolVal(a[2].key() == q.t.m.key() and a[3].key() == q.t.v.key() and a[4].key() == p.key() and q.sname(st, a[1]) == 'mod' and q.sname(st, a[6]) == 'area'), EQ(a[5], what)))
                c = cnt[0 if k == want else 1]
                ex.storek(st, c, 'i', add(ex.loadk(st, c, 'i'), 1))
            ex.contracts.append(('InterfaceEquation::NodeVolumeType%dAssemble' % k, h))
        s2 = u.run(u.fn('InterfaceExprEquation::DerivedAssemble', XC), [me, q.t.m, q.t.v, p, what, mode], st)[1]
        u.sat('dispatch', s2)
        u.prove('requested once', s2, EQ(ex.loadk(s2, cnt[0], 'i'), 1 if want else 0))
        u.prove('nothing else is requested', s2, EQ(ex.loadk(s2, cnt[1], 'i'), 0))


for k, nm in ((1, 'continuous'), (2, 'fluxterm'), (3, 'hybrid')):
    request('DC_' + nm, k, True, 0, k)
    request('TIME_' + nm, k, True, 1, None)
    request('DC_%s_without_model' % nm, k, False, 0, None)

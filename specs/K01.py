from types import SimpleNamespace
from spec import *
from totals import Totals
import lib
PID = 'K01'
LEVEL = 'proof'
NATIVE = 'K01'
BOUNDED = [('solutions', ['NodeKeeper::UpdateSolution (relative error)'], 'a running maximum over the nodes; random circuits are compared with the largest relative change')]
ID, SR = 'Circuit/models/ideal/', 'Circuit/models/sources/'
CN = 'Circuit/data/CircuitNode.cc'
GROUND = 3


class El:
    """an element between circuit nodes; any of them may be ground, and they need not differ"""

    def __init__(self, u, cls, nodes, fixed=()):
        self.u, self.cls = u, cls
        self.ex = ex = u.fresh_exec()
        self.st = st = State()
        self.me = ex.obj(cls)
        rc = ex.rootcls('CircuitNode')
        fam = lambda m: ex.fld(ref(rc, 0), 'CircuitNode', m)
        num, typ = z3.Function('nodeNumber', I, I), z3.Function('nodeType', I, I)
        u.family(fam('nodeNumber_'), 'i', lambda k: norm(num(zi(k))))
        u.family(fam('nodeType_'), 'i', lambda k: norm(typ(zi(k))))
        self.sol = Loc(('v', 'sol'))
        x = z3.Function('solution', I, R)
        n = fresh('numNodes')
        st.assume(n >= 0)
        u.vec(st, self.sol, 'solution', n=n, fn=x)
        self.row, self.gnd, self.val = {}, {}, {}
        for m in nodes:
            i = fresh(m)
            st.assume(i >= 0)
            u.set(st, self.f(m), 'p', ref(rc, i))
            g = typ(i) == GROUND
            st.assume(z3.Or(g, z3.And(num(i) >= 0, num(i) < n)))
            if m in fixed:
                st.assume(z3.Not(g))                 # current variables are nodes of their own, never ground
            self.row[m], self.gnd[m], self.val[m] = num(i), g, z3.If(g, z3.RealVal(0), x(num(i)))
        self.t = Totals(u, st)

    def f(self, m):
        return self.ex.fld(self.me, self.cls, m)

    def param(self, m, name):
        x = fresh(name, R)
        self.u.set(self.st, self.f(m), 'r', x)
        return x

    def rhs(self, m, x):
        return z3.If(self.gnd[m], z3.RealVal(0), zr(self.t.rhs(self.row[m], x)))

    def at(self, r, c, x):
        return z3.If(z3.Or(self.gnd[r], self.gnd[c]), z3.RealVal(0), zr(self.t.at(self.row[r], self.row[c], x)))

    def nothing(self, s, matrix=True, residual=True):
        if matrix:
            self.t.matrix(s, 'nothing enters the matrix', 0)
        if residual:
            self.t.residual(s, 'nothing enters the residual', 0)

    def signal(self, v):
        """the signal of a source has the voltage v"""
        sg = ref(self.ex.rootcls('Signal'), fresh('signal'))
        self.u.set(self.st, self.f('sig_'), 'p', sg)
        self.st.assume(zi(sg.rid) >= 0)
        self.u.set(self.st, self.ex.fld(sg, 'Signal', '_volt'), 'r', v)
        return self.ex.fld(sg, 'Signal', '_volt')


def both(E, s, name, flux, D, terminals):
    """prove residual and matrix: for every (node, value, {node: derivative})"""
    E.t.residual(s, 'residual: ' + name, sum([E.rhs(m, x) for m, x in flux], z3.RealVal(0)))
    E.t.matrix(s, 'derivatives: ' + name, sum([E.at(r, c, x) for r, c, x in D], z3.RealVal(0)))


@unit(PID, 'resistor', [ID + 'IdealResistor.cc', CN], ['IdealResistor::assembleDC_impl', 'IdealResistor::assembleTran_impl'])
def _(u):
    """the current (vtop - vbot) / R leaves the top node and enters the bottom node; derivatives match; ground has no row; no charge"""
    E = El(u, 'IdealResistor', ['node_ptr_vtop', 'node_ptr_vbot'])
    a, b = 'node_ptr_vtop', 'node_ptr_vbot'
    r = E.param('R', 'R')
    E.st.assume(r != 0)
    G = fresh('conductance', R)
    E.st.assume(G * r == 1)
    i = (E.val[a] - E.val[b]) * G
    s0 = E.st.copy()
    s = u.run(u.fn('IdealResistor::assembleDC_impl'), [E.me, E.sol, E.t.m, E.t.v], E.st)[1]
    u.sat('any', s)
    s.assume(1 / r == G)
    both(E, s, 'current', [(a, i), (b, -i)], [(a, a, G), (a, b, -G), (b, a, -G), (b, b, G)], (a, b))
    s = u.run(u.fn('IdealResistor::assembleTran_impl'), [E.me, fresh('scl', R), E.sol, E.t.m, E.t.v], s0)[1]
    E.nothing(s)


@unit(PID, 'capacitor', [ID + 'IdealCapacitor.cc', CN], ['IdealCapacitor::assembleDC_impl', 'IdealCapacitor::assembleTran_impl'])
def _(u):
    """the charge C (vtop - vbot), scaled, sits on the top node and its opposite on the bottom node; derivatives match, only when a matrix is given; no current"""
    E = El(u, 'IdealCapacitor', ['node_ptr_vtop', 'node_ptr_vbot'])
    a, b = 'node_ptr_vtop', 'node_ptr_vbot'
    c, scl = E.param('C', 'C'), fresh('scl', R)
    q = scl * (c * (E.val[a] - E.val[b]))
    s0, s1 = E.st.copy(), E.st.copy()
    s = u.run(u.fn('IdealCapacitor::assembleTran_impl'), [E.me, scl, E.sol, E.t.m, E.t.v], E.st)[1]
    u.sat('any', s)
    k = scl * c
    both(E, s, 'charge', [(a, q), (b, -q)], [(a, a, k), (a, b, -k), (b, a, -k), (b, b, k)], (a, b))
    s = u.run(u.fn('IdealCapacitor::assembleTran_impl'), [E.me, scl, E.sol, NULL, E.t.v], s1)[1]
    u.sat('without a matrix', s)
    E.t.residual(s, 'residual without a matrix', E.rhs(a, q) + E.rhs(b, -q))
    E.nothing(s, residual=False)
    s = u.run(u.fn('IdealCapacitor::assembleDC_impl'), [E.me, E.sol, E.t.m, E.t.v], s0)[1]
    E.nothing(s)


@unit(PID, 'inductor', [ID + 'IdealInductor.cc', CN], ['IdealInductor::assembleDC_impl', 'IdealInductor::assembleTran_impl'])
def _(u):
    """the current variable leaves the top node and enters the bottom node; its own row is d(L I)/dt = vtop - vbot; derivatives match"""
    a, b, i = 'node_ptr_vtop', 'node_ptr_vbot', 'node_ptr_I'
    E = El(u, 'IdealInductor', [a, b, i], (i,))
    l, scl = E.param('L', 'L'), fresh('scl', R)
    s0, s1 = E.st.copy(), E.st.copy()
    s = u.run(u.fn('IdealInductor::assembleDC_impl'), [E.me, E.sol, E.t.m, E.t.v], E.st)[1]
    u.sat('any', s)
    both(E, s, 'current', [(i, E.val[b] - E.val[a]), (a, E.val[i]), (b, -E.val[i])], [(i, a, -1), (i, b, 1), (a, i, 1), (b, i, -1)], (a, b, i))
    s = u.run(u.fn('IdealInductor::assembleTran_impl'), [E.me, scl, E.sol, E.t.m, E.t.v], s0)[1]
    both(E, s, 'flux', [(i, scl * (l * E.val[i]))], [(i, i, scl * l)], (i,))
    s = u.run(u.fn('IdealInductor::assembleTran_impl'), [E.me, scl, E.sol, NULL, E.t.v], s1)[1]
    E.t.residual(s, 'residual without a matrix', E.rhs(i, scl * (l * E.val[i])))
    E.nothing(s, residual=False)


@unit(PID, 'voltage source', [SR + 'IdealVoltage.cc', SR + 'Signal.cc', CN], ['IdealVoltage::assembleDC_impl', 'IdealVoltage::assembleACRHS_impl', 'IdealVoltage::assembleTran_impl'])
def _(u):
    """the current variable leaves the first node and enters the second; its own row fixes their difference at the voltage of the signal; the small-signal source sits in that row"""
    a, b, i = 'np_', 'nm_', 'nI_'
    E = El(u, 'IdealVoltage', [a, b, i], (i,))
    v = fresh('voltage', R)
    E.signal(v)
    re, im = E.param('acrv_', 'acreal'), E.param('aciv_', 'acimag')
    s0, s1 = E.st.copy(), E.st.copy()
    s = u.run(u.fn('IdealVoltage::assembleDC_impl'), [E.me, E.sol, E.t.m, E.t.v], E.st)[1]
    u.sat('any', s)
    both(E, s, 'source', [(i, E.val[a] - E.val[b] - v), (a, E.val[i]), (b, -E.val[i])], [(i, a, 1), (i, b, -1), (a, i, 1), (b, i, -1)], (a, b, i))
    s = u.run(u.fn('IdealVoltage::assembleTran_impl'), [E.me, fresh('scl', R), E.sol, E.t.m, E.t.v], s0)[1]
    E.nothing(s)
    l = Loc(('v', 'ac'))
    n = fresh('earlier')
    s1.assume(n >= 0)
    u.set(s1, l.mark('len'), 'i', n)
    r0 = z3.Function('earlierRow', I, I)
    u.family(l.seg('e', 0), 'i', lambda *ix: norm(r0(zi(ix[-1]))))
    s = u.run(u.fn('IdealVoltage::assembleACRHS_impl'), [E.me, l], s1)[1]
    u.sat('ac', s)
    e = l.seg('e', n)
    u.prove('one small-signal entry', s, EQ(u.len(s, l), n + 1))
    u.prove('in the row of the current', s, EQ(u.get(s, e, 'i'), E.row[i]))
    u.prove('with the given real and imaginary part', s, AND(EQ(u.get(s, e.plus(8), 'r'), re), EQ(u.get(s, e.plus(16), 'r'), im)))
    k = u.idx(s, 'k', n)
    u.prove('earlier entries stay', s, EQ(u.get(s, l.seg('e', k), 'i'), r0(k)))


@unit(PID, 'current source', [SR + 'IdealCurrent.cc', SR + 'Signal.cc', CN], ['IdealCurrent::assembleDC_impl', 'IdealCurrent::assembleTran_impl'])
def _(u):
    """the current of the signal enters the first node and leaves the second"""
    a, b = 'np_', 'nm_'
    E = El(u, 'IdealCurrent', [a, b])
    c = fresh('current', R)
    E.signal(c)
    s0 = E.st.copy()
    s = u.run(u.fn('IdealCurrent::assembleDC_impl'), [E.me, E.sol, E.t.m, E.t.v], E.st)[1]
    u.sat('any', s)
    both(E, s, 'source', [(a, -c), (b, c)], [], (a, b))
    s = u.run(u.fn('IdealCurrent::assembleTran_impl'), [E.me, fresh('scl', R), E.sol, E.t.m, E.t.v], s0)[1]
    E.nothing(s)


def params(cls, d, nodes, names_):
    @unit(PID, 'parameters of ' + cls, [d + cls + '.cc', SR + 'Signal.cc', CN], [cls + '::addParam'])
    def _(u):
        """setting a parameter sets that parameter and no other; other names are refused and change nothing"""
        E = El(u, cls, nodes)
        u_, ex, st = u, E.ex, E.st
        vals = {}
        for nm, m in names_.items():
            x = fresh('old' + nm, R)
            if m == 'sig_':
                vals[nm] = (E.signal(x), x)
            else:
                u.set(st, E.f(m), 'r', x)
                vals[nm] = (E.f(m), x)
        l = Loc(('v', 'name'))
        k, new = fresh('name'), fresh('new', R)
        u.set(st, l, 's', k)
        r, s = u.run(u.fn(cls + '::addParam'), [E.me, l, new], st)
        u.sat('any', s)
        u.prove('known exactly by its names', s, zb(r) == z3.Or([k == zi(ex.strlit(nm)) for nm in names_]))
        for nm, (loc, x) in vals.items():
            u.prove('value of ' + nm, s, EQ(u.get(s, loc, 'r'), z3.If(k == zi(ex.strlit(nm)), new, x)))


params('IdealResistor', ID, ['node_ptr_vtop', 'node_ptr_vbot'], {'R': 'R'})
params('IdealCapacitor', ID, ['node_ptr_vtop', 'node_ptr_vbot'], {'C': 'C'})
params('IdealInductor', ID, ['node_ptr_vtop', 'node_ptr_vbot', 'node_ptr_I'], {'L': 'L'})
params('IdealVoltage', SR, ['np_', 'nm_', 'nI_'], {'V': 'sig_', 'acreal': 'acrv_', 'acimag': 'aciv_'})
params('IdealCurrent', SR, ['np_', 'nm_'], {'I': 'sig_'})


NK = ['Circuit/data/NodeKeeper.cc', CN]


class Keeper:
    """the circuit: a table of nodes, aliases of them, and named solutions (vectors of their own, one value per numbered node)"""

    def __init__(self, u, positive=False):
        self.u = u
        ex = self.ex = u.fresh_exec()
        st = self.st = State()
        self.K = ex.obj('NodeKeeper')
        f = self.f = lambda m: ex.fld(self.K, 'NodeKeeper', m)
        self.nt, self.at, self.sols = f('NodeTable_'), f('NodeAliasTable_'), f('Sol_')
        self.has, self.node, inv = z3.Function('hasNode', I, B), z3.Function('nodeOf', I, I), z3.Function('nameOfNode', I, I)
        self.hasa, self.real = z3.Function('hasAlias', I, B), z3.Function('aliasOf', I, I)
        self.hass, self.sol, sinv = z3.Function('hasSolution', I, B), z3.Function('solutionOf', I, I), z3.Function('nameOfSolution', I, I)
        self.num, self.typ, self.upd, numinv = z3.Function('nodeNumber', I, I), z3.Function('nodeType', I, I), z3.Function('updateType', I, I), z3.Function('nodeNumbered', I, I)
        self.n, self.nn = fresh('numNodes'), fresh('numNumbered')
        st.assume(z3.And(self.n >= 0, self.nn >= 0))
        u.family(self.nt.seg('m', 0).mark('has'), 'b', lambda *ix: self.has(zi(ix[-1])))
        u.family(self.nt.seg('m', 0), 'p', lambda *ix: norm(self.node(zi(ix[-1]))))
        u.set(st, self.nt.mark('msize'), 'i', self.n)
        u.family(self.at.seg('m', 0).mark('has'), 'b', lambda *ix: self.hasa(zi(ix[-1])))
        u.family(self.at.seg('m', 0), 's', lambda *ix: norm(self.real(zi(ix[-1]))))
        u.family(self.sols.seg('m', 0).mark('has'), 'b', lambda *ix: self.hass(zi(ix[-1])))
        u.family(self.sols.seg('m', 0), 'p', lambda *ix: norm(self.sol(zi(ix[-1]))))
        i = z3.Int('i')
        st.assume(z3.ForAll([i], z3.And(self.node(i) >= 0, inv(self.node(i)) == i), patterns=[self.node(i)]))
        st.assume(z3.ForAll([i], z3.And(self.sol(i) >= 0, sinv(self.sol(i)) == i), patterns=[self.sol(i)]))
        ex.inverses['nodeOf'], ex.inverses['solutionOf'] = inv, sinv
        st.assume(z3.ForAll([i], z3.And(self.typ(i) >= 0, self.typ(i) <= 3, self.upd(i) >= 0, self.upd(i) <= (2 if positive else 1)), patterns=[self.typ(i)]))
        # SetNodeNumbers (proved in N01): nodes other than ground have distinct numbers below their count
        st.assume(z3.ForAll([i], z3.Or(self.typ(i) == GROUND, z3.And(self.num(i) >= 0, self.num(i) < self.nn, numinv(self.num(i)) == i)), patterns=[self.num(i)]))
        self.fam = lambda k, m: ex.fld(ref(ex.rootcls('CircuitNode'), k), 'CircuitNode', m)
        for m, g in (('nodeNumber_', self.num), ('nodeType_', self.typ), ('updateType', self.upd)):
            u.family(self.fam(0, m), 'i', lambda k, g=g: norm(g(zi(k))))

    def string(self, name):
        k, l = fresh(name), Loc(('v', name))
        self.u.set(self.st, l, 's', k)
        return k, l

    def write(self):
        """contract of WriteOut: FATAL raises an exception; the states at that point are collected"""
        fatal = []

        def h(ex, st, ins, args):
            c = EQ(args[-1] if not isinstance(args[-1], Loc) else args[0], 4)
            if c is not False:
                s = st.copy()
                s.assume(c)
                if not s.dead():
                    fatal.append(s)
                st.assume(NOT(c))
        self.ex.contracts.append(('OutputStream::WriteOut', h))
        return fatal

    def Has(self, s, k):
        return zb(self.u.get(s, self.nt.seg('m', k).mark('has'), 'b'))

    def Node(self, s, k):
        return self.u.get(s, self.nt.seg('m', k), 'p')


@unit(PID, 'add a node', NK, ['NodeKeeper::AddNode'])
def _(u):
    """a new name gets a node of the given kind and update type; a known name keeps its node; all other nodes stay"""
    q = Keeper(u)
    ex = q.ex
    k, l = q.string('name')
    out, nt, ut = Loc(('v', 'out')), fresh('type'), fresh('update')
    u.set(q.st, q.f('SolutionLocked_'), 'i', 0)
    o = fresh('other')
    for present in (False, True):
        st = q.st.copy()
        st.assume(q.has(k) if present else z3.Not(q.has(k)))
        s = u.run(u.fn('NodeKeeper::AddNode'), [out, q.K, l, nt, ut], st)[1]
        u.sat('present' if present else 'new', s)
        w = 'known name: ' if present else 'new name: '
        u.prove(w + 'is a node', s, q.Has(s, k))
        r, v = u.get(s, out, 'p'), q.Node(s, k)
        u.prove(w + 'the node is returned', s, EQ(ex.enc(r), ex.enc(v)))
        if present:
            u.prove(w + 'same node', s, EQ(ex.enc(v), q.node(k)))
            u.prove(w + 'kind and update type stay', s, AND(EQ(u.get(s, q.fam(q.node(k), 'nodeType_'), 'i'), q.typ(q.node(k))), EQ(u.get(s, q.fam(q.node(k), 'updateType'), 'i'), q.upd(q.node(k)))))
        else:
            u.prove(w + 'of the kind and update type given', s, AND(EQ(u.get(s, q.fam(ex.enc(r), 'nodeType_'), 'i'), nt), EQ(u.get(s, q.fam(ex.enc(r), 'updateType'), 'i'), ut)))
        s2 = s.copy()
        s2.assume(o != k)
        u.prove(w + 'other names', s2, q.Has(s2, o) == q.has(o))
        s2.assume(q.has(o))
        u.prove(w + 'other nodes stay', s2, EQ(ex.enc(q.Node(s2, o)), q.node(o)))


@unit(PID, 'no node after the first solution', NK, ['NodeKeeper::AddNode'])
def _(u):
    """once a solution exists, adding a node is refused and changes nothing"""
    q = Keeper(u)
    k, l = q.string('name')
    lock = fresh('locked')
    q.st.assume(lock == 1)
    u.set(q.st, q.f('SolutionLocked_'), 'i', lock)
    fatal = q.write()
    st = q.st.copy()
    u.sat('any', st)
    r = q.ex.run(u.fn('NodeKeeper::AddNode'), [Loc(('v', 'out')), q.K, l, fresh('type'), fresh('update')], q.st)
    u.prove('never accepted', st, r is None or r[1].dead() or q.ex.P.infeasible(r[1].pc, 4000))
    u.prove('refused', st, bool(fatal))
    o = fresh('other')
    for s in fatal:
        u.prove('nothing changes', s, z3.And(q.Has(s, o) == q.has(o), z3.Implies(q.has(o), zb(EQ(q.ex.enc(q.Node(s, o)), q.node(o))))))


@unit(PID, 'add an alias', NK, ['NodeKeeper::AddNodeAlias'])
def _(u):
    """an alias of a node is recorded and returns that node; without that node, or over a node, it is refused and nothing is recorded"""
    q = Keeper(u)
    ex = q.ex
    a, la = q.string('alias')
    k, l = q.string('node')
    fatal = q.write()
    out = Loc(('v', 'out'))
    st = q.st.copy()
    st.assume(z3.And(q.has(k), z3.Not(q.has(a))))
    s = u.run(u.fn('NodeKeeper::AddNodeAlias'), [out, q.K, la, l], st)[1]
    u.sat('any', s)
    u.prove('recorded', s, AND(zb(u.get(s, q.at.seg('m', a).mark('has'), 'b')), EQ(u.get(s, q.at.seg('m', a), 's'), k)))
    u.prove('the node is returned', s, EQ(ex.enc(u.get(s, out, 'p')), q.node(k)))
    o = fresh('other')
    s2 = s.copy()
    s2.assume(o != a)
    u.prove('other aliases', s2, AND(zb(u.get(s2, q.at.seg('m', o).mark('has'), 'b')) == q.hasa(o), IMP(q.hasa(o), EQ(u.get(s2, q.at.seg('m', o), 's'), q.real(o)))))
    u.prove('accepted without an error', s, not [x for x in fatal if not q.ex.P.infeasible(x.pc, 4000)])
    del fatal[:]
    st = q.st.copy()
    st.assume(z3.Not(z3.And(q.has(k), z3.Not(q.has(a)))))
    s0 = st.copy()
    r = ex.run(u.fn('NodeKeeper::AddNodeAlias'), [out, q.K, la, l], st)
    u.prove('never accepted', s0, r is None or r[1].dead() or ex.P.infeasible(r[1].pc, 4000))
    u.prove('refused', s0, bool(fatal))
    for s in fatal:
        u.prove('nothing is recorded', s, zb(u.get(s, q.at.seg('m', o).mark('has'), 'b')) == q.hasa(o))


@unit(PID, 'steady or transient update', NK, ['NodeKeeper::UpdateSolution'])
def _(u):
    """every node but ground moves by its row of the update, damped by the logarithm where asked, once; errors are the sum and the largest relative change"""
    q = Keeper(u)
    ex, st = q.ex, q.st
    k, l = q.string('solution')
    st.assume(q.hass(k))
    rows, mn = fresh('rows'), fresh('firstRow')
    st.assume(z3.And(mn >= 0, rows >= mn + q.nn))
    u.set(st, q.f('minEquationNumber'), 'i', mn)
    old, up = z3.Function('oldValue', I, I, R), z3.Function('update', I, R)
    rhs = Loc(('v', 'rhs'))
    u.vec(st, rhs, 'update', n=rows, fn=up)
    SV = u.get(st, q.sols.seg('m', k), 'p')
    u.set(st, SV.mark('len'), 'i', q.nn)
    u.family(SV.seg('e', 0), 'r', lambda j, i: norm(old(zi(j), zi(i))))
    s = u.run(u.fn('NodeKeeper::UpdateSolution'), [q.K, l, rhs], st)[1]
    u.sat('any', s)
    K = lambda i: ex.enumerations[0]['K'](zi(q.K.rid), zi(i))
    j, t = u.idx(s, 'j', q.nn), z3.Int('t')
    w = lambda m: up(mn + q.num(m))
    VT = zr(Fraction(259, 10000))
    A = lambda x: z3.If(x >= 0, x, -x)
    damped = lambda x: z3.If(A(x) > VT, z3.If(x > 0, zr(1), zr(-1)) * VT * lib.mfun('log')(1 + A(x) / VT), x)
    eff = lambda m: z3.If(q.upd(m) == 1, damped(w(m)), w(m))
    m = q.node(K(t))
    u.prove('new value', s, EQ(u.get(s, SV.seg('e', j), 'r'), old(q.sol(k), j) + SUM(t, ITE(z3.And(q.typ(m) != GROUND, q.num(m) == j), eff(m), zr(0)), q.n)))
    u.prove('absolute error: sum of the moves', s, EQ(u.get(s, q.f('absError').seg('m', k), 'r'), SUM(t, ITE(q.typ(m) != GROUND, A(eff(m)), zr(0)), q.n)))
    o = fresh('otherSolution')
    s.assume(z3.And(q.hass(o), o != k))
    u.prove('other solutions stay', s, EQ(u.get(s, u.get(s, q.sols.seg('m', o), 'p').seg('e', j), 'r'), old(q.sol(o), j)))


@unit(PID, 'small-signal update', NK, ['NodeKeeper::ACUpdateSolution'])
def _(u):
    """the real and imaginary parts of every node but ground are those of its row of the solution"""
    q = Keeper(u)
    ex, st = q.ex, q.st
    k, l = q.string('realSolution')
    k2, l2 = q.string('imagSolution')
    st.assume(z3.And(q.hass(k), q.hass(k2), k != k2))
    rows, mn = fresh('rows'), fresh('firstRow')
    st.assume(z3.And(mn >= 0, rows >= mn + q.nn))
    u.set(st, q.f('minEquationNumber'), 'i', mn)
    q.write()
    re, im = z3.Function('re', I, R), z3.Function('im', I, R)
    old = z3.Function('oldValue', I, I, R)
    rhs = Loc(('v', 'rhs'))
    u.set(st, rhs.mark('len'), 'i', rows)
    u.family(rhs.seg('e', 0), 'r', lambda *ix: re(zi(ix[-1])))
    u.family(rhs.seg('e', 0).plus(8), 'r', lambda *ix: im(zi(ix[-1])))
    V = [u.get(st, q.sols.seg('m', x), 'p') for x in (k, k2)]
    u.family(V[0].mark('len'), 'i', lambda j: norm(q.nn))
    u.family(V[0].seg('e', 0), 'r', lambda j, i: norm(old(zi(j), zi(i))))
    ex.contracts.append(('cabs', lambda ex, st, ins, a: fresh('modulus', R)))
    ex.inverses['nodeNumber'] = z3.Function('nodeNumbered', I, I)
    s = u.run(u.fn('NodeKeeper::ACUpdateSolution'), [q.K, l, l2, rhs], st)[1]
    u.sat('any', s)
    K = lambda i: ex.enumerations[0]['K'](zi(q.K.rid), zi(i))
    p = u.idx(s, 'p', q.n)
    m = q.node(K(p))
    s2 = s.copy()
    s2.assume(q.typ(m) != GROUND)
    u.prove('real part', s2, EQ(u.get(s2, V[0].seg('e', q.num(m)), 'r'), re(mn + q.num(m))))
    u.prove('imaginary part', s2, EQ(u.get(s2, V[1].seg('e', q.num(m)), 'r'), im(mn + q.num(m))))
    o, j = fresh('otherSolution'), u.idx(s, 'j', q.nn)
    s.assume(z3.And(q.hass(o), o != k, o != k2))
    u.prove('other solutions stay', s, EQ(u.get(s, u.get(s, q.sols.seg('m', o), 'p').seg('e', j), 'r'), old(q.sol(o), j)))


def values(u, q, n=None):
    """the values of all solutions, of one value per numbered node"""
    old = z3.Function('oldValue', I, I, R)
    V = u.get(q.st, q.sols.seg('m', 0), 'p')
    u.family(V.mark('len'), 'i', lambda j: norm(q.nn))
    u.family(V.seg('e', 0), 'r', lambda j, i: norm(old(zi(j), zi(i))))
    return old


def index(q, name):
    """(contract of GetIndexNumber, proved in N01)"""
    w = z3.If(q.hasa(name), q.real(name), name)
    return z3.If(q.has(w), q.num(q.node(w)), z3.IntVal(-1)), w


@unit(PID, 'copy of a solution', NK, ['NodeKeeper::CopySolution'])
def _(u):
    """the copy has all values of the original; the original and the others stay"""
    q = Keeper(u)
    ex, st = q.ex, q.st
    k, l = q.string('from')
    k2, l2 = q.string('to')
    st.assume(z3.And(q.hass(k), q.hass(k2), k != k2))
    old = values(u, q)
    s = u.run(u.fn('NodeKeeper::CopySolution'), [q.K, l, l2], st)[1]
    u.sat('any', s)
    j = u.idx(s, 'j', q.nn)
    V = lambda x: u.get(s, q.sols.seg('m', x), 'p')
    u.prove('size', s, EQ(u.len(s, V(k2)), q.nn))
    u.prove('values', s, EQ(u.get(s, V(k2).seg('e', j), 'r'), old(q.sol(k), j)))
    u.prove('the original stays', s, EQ(u.get(s, V(k).seg('e', j), 'r'), old(q.sol(k), j)))
    o = fresh('otherSolution')
    s.assume(z3.And(q.hass(o), o != k, o != k2))
    u.prove('other solutions stay', s, EQ(u.get(s, V(o).seg('e', j), 'r'), old(q.sol(o), j)))


@unit(PID, 'value of a node', NK, ['NodeKeeper::GetNodeValue', 'NodeKeeper::GetIndexNumber'])
def _(u):
    """value of a node, or of its alias, in a solution; zero for ground, unknown nodes and unknown solutions"""
    q = Keeper(u)
    k, l = q.string('solution')
    m, lm = q.string('node')
    i = z3.Int('i')
    q.st.assume(z3.ForAll([i], z3.Implies(q.typ(i) == GROUND, q.num(i) == -1), patterns=[q.typ(i)]))
    old = values(u, q)
    ix, w = index(q, m)
    q.st.assume(z3.Implies(q.has(w), z3.Or(q.typ(q.node(w)) == GROUND, q.num(q.node(w)) < q.nn)))
    r, s = u.run(u.fn('NodeKeeper::GetNodeValue'), [q.K, l, lm], q.st)
    u.sat('any', s)
    u.prove('value', s, EQ(r, z3.If(z3.And(q.hass(k), ix != -1), old(q.sol(k), ix), zr(0))))
    u.prove('none for ground', s, IMP(q.typ(q.node(w)) == GROUND, EQ(r, 0)))


@unit(PID, 'setting the value of a node', NK, ['NodeKeeper::SetNodeValue', 'NodeKeeper::GetIndexNumber'])
def _(u):
    """only the value of that node, or of the node of that alias, in that solution changes; nothing for ground and unknown names"""
    q = Keeper(u)
    k, l = q.string('solution')
    m, lm = q.string('node')
    i = z3.Int('i')
    q.st.assume(z3.ForAll([i], z3.Implies(q.typ(i) == GROUND, q.num(i) == -1), patterns=[q.typ(i)]))
    old = values(u, q)
    ix, w = index(q, m)
    x = fresh('value', R)
    s = u.run(u.fn('NodeKeeper::SetNodeValue'), [q.K, l, lm, x], q.st)[1]
    u.sat('any', s)
    o, j = fresh('anySolution'), u.idx(s, 'j', q.nn)
    s.assume(q.hass(o))
    u.prove('values', s, EQ(u.get(s, u.get(s, q.sols.seg('m', o), 'p').seg('e', j), 'r'), z3.If(z3.And(o == k, ix == j), x, old(q.sol(o), j))))


@unit(PID, 'creation of a solution', NK, ['NodeKeeper::InitializeSolution', 'NodeKeeper::CreateSolution'])
def _(u):
    """a new solution has one zero for every numbered node and locks the nodes; a known one and all others keep their values"""
    q = Keeper(u)
    ex, st = q.ex, q.st
    k, l = q.string('solution')
    q.write()
    old = values(u, q)
    u.set(st, q.f('numberOfNodes_'), 'i', q.nn)
    lock = fresh('locked')
    u.set(st, q.f('SolutionLocked_'), 'i', lock)
    st.assume(q.nn > 0)
    for present in (False, True):
        s = st.copy()
        s.assume(q.hass(k) if present else z3.Not(q.hass(k)))
        s = u.run(u.fn('NodeKeeper::InitializeSolution'), [q.K, l], s)[1]
        u.sat('present' if present else 'new', s)
        w = 'known: ' if present else 'new: '
        u.prove(w + 'exists', s, zb(u.get(s, q.sols.seg('m', k).mark('has'), 'b')))
        j = u.idx(s, 'j', q.nn)
        V = lambda s, x: u.get(s, q.sols.seg('m', x), 'p')
        u.prove(w + 'size', s, EQ(u.len(s, V(s, k)), q.nn))
        u.prove(w + 'values', s, EQ(u.get(s, V(s, k).seg('e', j), 'r'), old(q.sol(k), j) if present else zr(0)))
        if not present:
            u.prove(w + 'nodes are locked', s, EQ(u.get(s, q.f('SolutionLocked_'), 'i'), 1))
        o = fresh('otherSolution')
        s.assume(z3.And(q.hass(o), o != k))
        u.prove(w + 'other solutions stay', s, AND(zb(u.get(s, q.sols.seg('m', o).mark('has'), 'b')), EQ(u.get(s, V(s, o).seg('e', j), 'r'), old(q.sol(o), j))))


def made(cls, d, nodes, params_, own=None, variant=None, extra=()):
    @unit(PID, 'new %s%s' % (cls, ' for small signals' if variant == 2 else ''), [d + cls + '.cc', 'Circuit/data/InstanceModel.cc', SR + 'Signal.cc', CN], [cls + '::' + cls, 'InstanceModel::AddCircuitNode', 'InstanceModel::InstanceModel'] + ([{'mna': 'InstanceModel::AddMNANode', 'internal': 'InstanceModel::AddInternalNode'}[own[1]]] if own else []))
    def _(u):
        """a new element is connected to the nodes of the given names, in order; its own variable is a node named after it; its values are the given ones"""
        ex, st = u.fresh_exec(), State()
        me = ex.obj(cls)
        f = lambda m: ex.fld(me, cls, m)
        nk = ex.obj('NodeKeeper')
        of = z3.Function('nodeNamed', I, I)
        i = z3.Int('i')
        st.assume(z3.ForAll([i], of(i) >= 0, patterns=[of(i)]))
        kinds = {'mna': 1, 'internal': 2}
        seen = []

        def addnode(ex, st, ins, a):
            ex.oblige(st, 'in the circuit of the caller', EQ(a[1].rid, nk.rid))
            nm = ex.loadk(st, a[2], 's')
            seen.append((nm, a[3]))
            ex.storek(st, a[0], 'p', ref(ex.rootcls('CircuitNode'), of(zi(nm))))
            ex.storek(st, a[0].plus(8), 'p', NULL)
        ex.contracts.append(('NodeKeeper::AddNode', addnode))
        ik = ex.obj('InstanceKeeper')
        ex.contracts.append(('InstanceKeeper::instance', lambda ex, st, ins, a: ik))
        ex.contracts.append(('InstanceKeeper::addSignal', lambda ex, st, ins, a: None))
        nm = {n: fresh(n) for n in ('name', 'top', 'bot')}
        lits = [Loc(('v', n)).seg('cstr', x) for n, x in nm.items()]
        cat, L = lib._cat, lambda x: zi(ex.strlit(x))
        var = cat(nm['name'], L('.I'))
        st.assume(cat(cat(nm['name'], L('.')), L('I')) == var)
        vals = []
        if d == SR:
            sg = ref(ex.rootcls('Signal'), 3)
            u.set(st, Loc(('v', 'sig')), 'p', sg)
            u.set(st, Loc(('v', 'sig')).plus(8), 'p', NULL)
            vals = [fresh('value', R)] + ([fresh('re', R), fresh('im', R)] if variant == 2 else []) + [Loc(('v', 'sig'))]
        fs = [g for g in u.prog.funcs.values() if names.strip(g['dn']) == cls + '::' + cls and len(names.params(g['dn'])) == 4 + len(vals)]
        s = u.run(fs[0], [me, nk] + lits + vals, st)[1]
        u.sat('any', s)
        for m, n in zip(nodes, ('top', 'bot')):
            u.prove('node ' + n, s, EQ(ex.enc(u.get(s, f(m), 'p')), of(nm[n])))
        if own:
            u.prove('own variable', s, EQ(ex.enc(u.get(s, f(own[0]), 'p')), of(var)))
            u.prove('kind of the own variable', s, AND(*[EQ(k, kinds[own[1]]) for nm, k in seen[2:]]))
        u.prove('kind of the outer nodes', s, AND(*[EQ(k, 0) for nm, k in seen[:2]]))
        for m, x in params_.items():
            u.prove('value of ' + m, s, EQ(u.get(s, f(m), 'r'), zr(x) if isinstance(x, int) else vals[int(x)]))
        if d == SR:
            u.prove('signal', s, EQ(ex.enc(u.get(s, f('sig_'), 'p')), 3))


made('IdealResistor', ID, ['node_ptr_vtop', 'node_ptr_vbot'], {'R': 1})
made('IdealCapacitor', ID, ['node_ptr_vtop', 'node_ptr_vbot'], {'C': 1})
made('IdealInductor', ID, ['node_ptr_vtop', 'node_ptr_vbot'], {'L': 1}, ('node_ptr_I', 'internal'))
made('IdealVoltage', SR, ['np_', 'nm_'], {'v_': '0', 'acrv_': 0, 'aciv_': 0}, ('nI_', 'mna'), 1)
made('IdealVoltage', SR, ['np_', 'nm_'], {'v_': '0', 'acrv_': '1', 'aciv_': '2'}, ('nI_', 'mna'), 2)
made('IdealCurrent', SR, ['np_', 'nm_'], {'i_': '0'}, None, 1)

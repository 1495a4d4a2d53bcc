from spec import *
from world import World
from eqs import Eqs
from totals import Totals
import lib
PID = 'C01'
LEVEL = 'proof'
NATIVE = 'C01'
BOUNDED = [('assembly', ['ContactEquation::GetActiveNodes'], 'a search with early exits through the contacts of a device; random contacts (1-3 on a region and on another region sharing its coordinates) are compared with the first-owner rule')]
CC = 'Equation/ContactEquation.cc'
FILES = [CC, 'Geometry/Region.cc', 'models/EdgeScalarData.cc', 'models/TriangleEdgeScalarData.cc', 'models/TetrahedronEdgeScalarData.cc', 'models/NodeScalarData.cc', 'Geometry/Node.cc', 'Geometry/Edge.cc', 'Geometry/Triangle.cc', 'Geometry/Permutation.cc']
C = 'ContactEquation<double>'
MATRIXONLY, RHS, BOTH, PERM = 0, 1, 2, 3


class Contact(Eqs):
    """a contact equation 'eqn' on A active nodes an(0..A-1) of a region"""

    def __init__(self, u, dim=None, circuit=None, variables=('u', 'v', 'x')):
        Eqs.__init__(self, u, dim, variables, C)
        ex, st, w = self.ex, self.st, self.w
        f = self.f
        u.set(st, f('circuitnode'), 's', ex.strlit('cnode') if circuit else 0)
        self.A = fresh('numActive')
        st.assume(self.A >= 0)
        self.an = z3.Function('activeNode', I, I)
        self.act = z3.Function('isActive', I, B)
        pos = z3.Function('activePos', I, I)
        i = z3.Int('i')
        st.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < self.A), z3.And(0 <= self.an(i), self.an(i) < w.N, self.act(self.an(i)))), patterns=[self.an(i)]))
        st.assume(z3.ForAll([i], z3.Implies(self.act(i), z3.And(0 <= pos(i), pos(i) < self.A, self.an(pos(i)) == i)), patterns=[self.act(i)]))
        ex.contracts.append(('ContactEquation::GetActiveNodes', self.nodes))
        ex.contracts.append((lambda m, dn, sn: sn.startswith('std::set::set') and 'Iter' in dn or (sn == 'std::set::set' and 'normal_iterator' in dn), self.nodeset))
        self.ccol = fresh('circuitRow')
        st.assume(self.ccol >= (-1 if circuit == 'any' else 0))
        if circuit == 'ground':
            self.ccol = -1
        self.circuit = circuit
        ex.contracts.append(('NodeKeeper::instance', lambda ex, st, ins, a: ref('NodeKeeper', 1)))
        ex.contracts.append(('NodeKeeper::IsCircuitNode', lambda ex, st, ins, a: True))
        ex.contracts.append(('NodeKeeper::GetEquationNumber', lambda ex, st, ins, a: self.ccol))
        for e in ('MissingContactEquationModel', 'MissingContactEquationIndex', 'MissingEquationIndex', 'MissingCircuitNodeOnContactEquation'):
            ex.contracts.append(('dsErrors::' + e, self.fatal))
        self.t = Totals(u, st)

    def fatal(self, ex, st, ins, a):
        st.assume(NOT(EQ(a[-1], 4)))
        return None

    def nodes(self, ex, st, ins, a):
        l = a[0]
        self.list = l
        lib.set_region(ex, st, l, (('seg', 'e'),), 'p', lambda i: True, lambda i: self.an(zi(i)))
        ex.storek(st, l.mark('len'), 'i', self.A)
        return None

    def nodeset(self, ex, st, ins, a):
        b, e = a[1], a[2]
        if not (isinstance(b, Loc) and self.list.seg('e', 0).key() == b.key() and EQ(b.idx()[-1], 0) is True and EQ(e.idx()[-1], self.A) is True):
            raise Unsupported('set of something else than the active nodes')
        lib.set_region(ex, st, a[0], (('seg', 'm'), ('mark', 'has')), 'b', lambda i: True, lambda i: self.act(zi(i)))
        return None

    # ---- the edges touching active node c
    def slots(self, kind):
        """sum over the element edges around active node c: f(c, edge index, value index) summed over slots"""
        w = self.w
        if kind == 'Edge':
            ln, ne = w.adj('nodeToEdgeList', w.N, w.NE, 'nodeEdge')
            i, k = z3.Ints('i k')
            self.st.assume(z3.ForAll([i, k], z3.Implies(z3.And(0 <= i, i < w.N, 0 <= k, k < ln(i)), z3.Or(w.head(ne(i, k)) == i, w.tail(ne(i, k)) == i)), patterns=[ne(i, k)]))

            def tot(f):
                c, s = z3.Int('c_'), z3.Int('s_')
                return SUM(c, SUM(s, zr(f(c, ne(self.an(c), s), ne(self.an(c), s), [])), ln(self.an(c))), self.A)
            return tot
        n = w.NT if kind == 'Triangle' else w.NK
        per = 3 if kind == 'Triangle' else 6
        n_, per_, edge = self.edges(kind)
        opp = self.opposite(kind)
        ln, ne = w.adj('nodeTo%sList' % kind, w.N, n, 'node' + kind)

        def tot(f):
            c, s = z3.Int('c_'), z3.Int('s_')
            b = None
            for j in range(per):
                el = ne(self.an(c), s)
                x = f(c, edge(el, j), per * el + j, [o(el, j) for o in opp])
                b = zr(x) if b is None else b + x
            return SUM(c, SUM(s, b, ln(self.an(c))), self.A)
        return tot

    def touch(self, e, n, s0, s1, skip, g):
        """g(node, sign) for the end of e that is node n (zero when e does not touch n, or both ends are on the contact and cancel)"""
        w = self.w
        v = ITE(EQ(w.head(e), n), g(w.head(e), s0), ITE(EQ(w.tail(e), n), g(w.tail(e), s1), Fraction(0)))
        if skip:
            v = ITE(AND(EQ(s0, neg(s1)), self.act(w.head(e)), self.act(w.tail(e))), Fraction(0), v)
        return v


KIND = {'Node': 'Node', 'Edge': 'Edge', 'Triangle': 'TriangleEdge', 'Tetrahedron': 'TetrahedronEdge'}
SUF = {'Node': [''], 'Edge': ['@n0', '@n1'], 'Triangle': ['@en0', '@en1', '@en2'], 'Tetrahedron': ['@en0', '@en1', '@en2', '@en3']}
WN = {MATRIXONLY: 'matrix', RHS: 'rhs', BOTH: 'both', PERM: 'permutations'}


def sarg(q, nm):
    l = Loc(('v', 'arg_' + nm))
    q.u.set(q.st, l, 's', q.ex.strlit(nm))
    return l


def models(q, kind):
    w = q.w
    K = KIND[kind]
    mod, cp = w.model(K, 'mod'), w.model(K, 'couple')
    ders = {var: [w.model(K, 'mod:%s%s' % (var, s)) for s in SUF[kind]] for var in ('u', 'x')}
    for s in SUF[kind]:
        w.model(K, 'mod:v' + s, exists=False)
    cd = w.model(K, 'mod:cnode')
    return mod, cp, ders, cd


def tot_of(q, kind):
    if kind == 'Node':
        def tot(f):
            c = z3.Int('c_')
            return SUM(c, zr(f(c, None, q.an(c), [])), q.A)
        return tot
    return q.slots(kind)


def want(q, kind, W, oncircuit, mod, cp, ders, cd, s0, s1):
    """(residual total, matrix total) of the assembly"""
    t, w = q.t, q.w
    tot = tot_of(q, kind)
    row = (lambda n: q.ccol) if oncircuit else q.row

    def put(c, e, x, g):
        """g(row, signed x) at the rows of the equation"""
        if kind == 'Node':
            return g(row(q.an(c)), x)
        return q.touch(e, q.an(c), s0, s1, oncircuit, lambda n, s: g(row(n), mul(s, x)))
    R = M = Fraction(0)
    if W in (RHS, BOTH):
        R = tot(lambda c, e, i, o: put(c, e, mod(i) * cp(i), t.rhs))
    if W in (MATRIXONLY, BOTH):
        for var in q.vars:
            if var not in ders:
                continue
            ds = ders[var]

            def f(c, e, i, o):
                nodes = [q.an(c)] if kind == 'Node' else [w.head(e), w.tail(e)] + o
                r = zr(0)
                for F, nn in zip(ds, nodes):
                    r = r + put(c, e, F(i) * cp(i), lambda ro, x: t.at(ro, q.col(var, nn), x))
                return r
            M = M + tot(f)
        if q.circuit and q.circuit != 'ground':
            M = M + tot(lambda c, e, i, o: put(c, e, cd(i) * cp(i), lambda ro, x: t.at(ro, q.ccol, x)))
    return R, M


FN = {'Node': 'AssembleNodeEquation', 'Edge': 'AssembleEdgeEquation', 'Triangle': 'AssembleTriangleEdgeEquation', 'Tetrahedron': 'AssembleTetrahedronEdgeEquation'}


def assemble(kind, W, oncircuit, circuit):
    nm = FN[kind] + ('OnCircuit' if oncircuit else '')

    @unit(PID, '%s_%s%s' % (nm, WN[W], {None: '', 'node': '' if oncircuit else '_circuit', 'ground': '_ground'}[circuit]), FILES, ['ContactEquation::' + nm])
    def _(u):
        """the contact rows (the row of the circuit node) receive model times coupling and its derivatives, summed over the active nodes"""
        q = Contact(u, None, circuit)
        ex, st = q.ex, q.st
        mod, cp, ders, cd = models(q, kind)
        s0, s1 = (Fraction(1), Fraction(-1)) if oncircuit else q.signs()
        R, M = want(q, kind, W, oncircuit, mod, cp, ders, cd, s0, s1)
        if oncircuit and circuit == 'ground':
            R = M = zr(0)
        p = Loc(('v', 'p'))
        args = [q.me, sarg(q, 'mod'), q.t.m, q.t.v] + ([p] if kind == 'Node' and not oncircuit else []) + [W, sarg(q, 'couple')] + ([s0, s1] if kind != 'Node' else [])
        s2 = u.run(u.fn('ContactEquation::' + nm, C), args, st)[1]
        u.sat('mesh', s2)
        q.t.residual(s2, 'total of the residual entries of a row', R)
        q.t.matrix(s2, 'total of the matrix entries at a row and column', M)


for W in (RHS, MATRIXONLY):
    for kind in ('Node', 'Edge', 'Triangle', 'Tetrahedron'):
        if W == MATRIXONLY:
            assemble(kind, W, False, None)
            assemble(kind, W, False, 'ground')
            assemble(kind, W, True, 'ground')
        assemble(kind, W, False, 'node')
        assemble(kind, W, True, 'node')
for kind in ('Node', 'Edge'):
    assemble(kind, BOTH, False, 'node')
    assemble(kind, BOTH, True, 'node')


# ---- terminal current and charge: the integral over the contact
IFN = {'Node': 'integrateNodeModelOverNodes', 'Edge': 'integrateEdgeModelOverNodes', 'Triangle': 'integrateTriangleEdgeModelOverNodes', 'Tetrahedron': 'integrateTetrahedronEdgeModelOverNodes'}


def integrate(kind):
    @unit(PID, IFN[kind], FILES, ['ContactEquation::' + IFN[kind]])
    def _(u):
        """the integral is the sum over the active nodes of model times coupling, signed by the end of the edge on the contact; edges inside the contact cancel"""
        q = Contact(u, None, None)
        w = q.w
        mod, cp = w.model(KIND[kind], 'mod'), w.model(KIND[kind], 'couple')
        s0, s1 = q.signs()
        tot = tot_of(q, kind)
        if kind == 'Node':
            want_ = tot(lambda c, e, i, o: mod(i) * cp(i))
        else:
            want_ = tot(lambda c, e, i, o: q.touch(e, q.an(c), s0, s1, True, lambda n, s: mul(s, mod(i) * cp(i))))
        r, s2 = u.run(u.fn('ContactEquation::' + IFN[kind], C), [q.me, sarg(q, 'mod'), sarg(q, 'couple')] + ([s0, s1] if kind != 'Node' else []), q.st)
        u.sat('mesh', s2)
        u.prove('integral over the contact', s2, EQ(r, want_))

    @unit(PID, IFN[kind] + '_none', FILES, ['ContactEquation::' + IFN[kind]])
    def _(u):
        """no model, nothing to integrate"""
        q = Contact(u, None, None)
        q.w.model(KIND[kind], 'couple')
        l = Loc(('v', 'arg_empty'))
        u.set(q.st, l, 's', 0)
        r, s2 = u.run(u.fn('ContactEquation::' + IFN[kind], C), [q.me, l, sarg(q, 'couple')] + ([fresh('s0', R), fresh('s1', R)] if kind != 'Node' else []), q.st)
        u.prove('zero', s2, EQ(r, Fraction(0)))


for kind in ('Node', 'Edge', 'Triangle', 'Tetrahedron'):
    integrate(kind)


@unit(PID, 'permutations', FILES, ['ContactEquation::AssembleNodeEquation'])
def _(u):
    """every active node's bulk equation row is dropped, no other row, and nothing is entered"""
    q = Contact(u, None, None)
    ex, st, w = q.ex, q.st, q.w
    models(q, 'Node')
    g = Loc(('v', 'total of the dropped rows'))
    psi = z3.Function('weightOfDropped', I, R)
    g0 = fresh('g0', R)
    u.set(st, g, 'r', g0)
    p = Loc(('v', 'p'))
    slot = [None]

    def at(ex, st, ins, a):
        u.prove('the caller\'s permutation map', st, z3.BoolVal(a[0].key() == p.key()))
        slot[0] = (ex.loadk(st, a[1], 'i') if isinstance(a[1], Loc) else a[1])
        return Loc(('v', 'entry'))

    def put(ex, st, ins, a):
        if a[0].key() != Loc(('v', 'entry')).key():
            raise Unsupported('entry elsewhere')
        ex.oblige(st, 'the bulk row goes nowhere', EQ(ex.loadk(st, ex.fld(a[1], 'PermutationEntry', 'newrow'), 'i'), -1))
        ex.oblige(st, 'no copy is kept', EQ(ex.loadk(st, ex.fld(a[1], 'PermutationEntry', 'keepcopy'), 'i'), 0))
        ex.storek(st, g, 'r', add(ex.loadk(st, g, 'r'), psi(zi(slot[0]))))
        return a[0]
    ex.contracts.append((lambda m, dn, sn: sn == 'std::map::operator[]' and 'PermutationEntry' in dn, at))
    ex.contracts.append(('PermutationEntry::operator=', put))
    s2 = u.run(u.fn('ContactEquation::AssembleNodeEquation', C), [q.me, sarg(q, 'mod'), q.t.m, q.t.v, p, PERM, sarg(q, 'couple')], st)[1]
    u.sat('mesh', s2)
    c = z3.Int('c_')
    u.prove('dropped rows', s2, EQ(ex.loadk(s2, g, 'r'), g0 + SUM(c, psi(q.row(q.an(c))), q.A)))
    q.t.residual(s2, 'no residual entries', zr(0))
    q.t.matrix(s2, 'no matrix entries', zr(0))


# ---- which assemblies a contact equation is made of
XC = 'ExprContactEquation<double>'
XF = FILES + ['AutoEquation/ExprContactEquation.cc']
NAMES = [('Region::GetNodeVolumeModel', 'nvol'), ('Region::GetEdgeCoupleModel', 'ec'), ('Region::GetElementEdgeCoupleModel', 'eec'), ('Region::GetEdgeNode0VolumeModel', 'nv0'), ('Region::GetEdgeNode1VolumeModel', 'nv1'), ('Region::GetElementNode0VolumeModel', 'env0'), ('Region::GetElementNode1VolumeModel', 'env1')]
MEM = ['nodemodel_int', 'edgemodel_int', 'edgevolumemodel_int', 'elementedgemodel_int', 'volume_node0_model_int_', 'volume_node1_model_int_', 'nodemodel_current', 'edgemodel_current', 'elementedgemodel_current', 'nodemodel_charge', 'edgemodel_charge', 'elementedgemodel_charge']


def request(name, meth, dim, present, calls, same=(), circuit=True, W=None, mode=None):
    """calls: [(what, model, coupling, s0, s1)]: exactly these assemblies (integrals) are requested, each once, on every path"""
    @unit(PID, name, XF, ['ExprContactEquation::' + meth])
    def _(u):
        """the right models are assembled with the right couplings and signs, each once"""
        q = Contact(u, dim, 'node' if circuit else None)
        ex, st = q.ex, q.st
        alias = dict(same)
        for g, nm in NAMES:
            ex.contracts.append((g, lambda ex, st, ins, a, nm=alias.get(nm, nm): ex.storek(st, a[0], 's', ex.strlit(nm))))
        for g, h in (('Region::SetModelExprDataCache', None), ('ModelExprDataCache::clear', None), ('ModelExprDataCache::ModelExprDataCache', None)):
            ex.contracts.append((g, lambda ex, st, ins, a: None))
        me = ref(ex.rootcls(XC), 7)
        for m_ in MEM:
            u.set(st, ex.fld(me, XC, m_), 's', ex.strlit(present[m_]) if m_ in present else 0)
        p = Loc(('v', 'p'))
        what = W
        if W is None:
            what = fresh('what')
            st.assume(z3.And(what >= 0, what <= 2))
        cnt = {}

        started = set()
        for c in [(a, b, c_, Fraction(d), Fraction(e)) for a, b, c_, d, e in calls]:
            started.add(c)
            cnt[c] = (Loc(('v', 'count ' + repr(c))), fresh('value', R))
            u.set(st, cnt[c][0], 'i', 0)
        extra = Loc(('v', 'other requests'))
        u.set(st, extra, 'i', 0)

        def asm(kind, circ):
            def h(ex, st, ins, a):
                a = list(a)
                if kind == 'Node' and not circ:
                    ex.oblige(st, 'the permutations are passed on', z3.BoolVal(isinstance(a[4], Loc) and a[4].key() == p.key()))
                    del a[4]
                m_, v_, w_ = a[2:5]
                ex.oblige(st, 'same lists and request are passed on', AND(z3.BoolVal(m_.key() == q.t.m.key() and v_.key() == q.t.v.key()), EQ(w_, what)))
                sg = tuple(a[6:8]) if kind != 'Node' else (Fraction(1), Fraction(1))
                key = (kind + (' on circuit' if circ else ''), q.sname(st, a[1]), q.sname(st, a[5])) + sg
                if key in cnt:
                    l = cnt[key][0]
                    ex.storek(st, l, 'i', add(ex.loadk(st, l, 'i'), 1))
                else:
                    ex.storek(st, extra, 'i', add(ex.loadk(st, extra, 'i'), 1))
            return h

        def integ(kind):
            def h(ex, st, ins, a):
                c = norm(ex.loadk(st, a[1], 's'))
                if EQ(c, 0) is True:
                    return Fraction(0)
                sg = tuple(a[3:5]) if kind != 'Node' else (Fraction(1), Fraction(1))
                key = ('integral ' + kind, q.sname(st, a[1]), q.sname(st, a[2])) + sg
                if key not in cnt:
                    cnt[key] = (Loc(('v', 'count ' + repr(key))), fresh('value', R))
                    ex.storek(st, extra, 'i', add(ex.loadk(st, extra, 'i'), 1))
                    return cnt[key][1]
                l = cnt[key][0]
                ex.storek(st, l, 'i', add(ex.loadk(st, l, 'i'), 1))
                return cnt[key][1]
            return h
        for kind in FN:
            for circ in (False, True):
                ex.contracts.append(('ContactEquation::' + FN[kind] + ('OnCircuit' if circ else ''), asm(kind, circ)))
            ex.contracts.append(('ContactEquation::' + IFN[kind], integ(kind)))
        args = [me, q.t.m, q.t.v, p, what, mode] if meth == 'DerivedAssemble' else [me]
        s2 = u.run(u.fn('ExprContactEquation::' + meth, XC), args, st)[1]
        u.sat('dispatch', s2)
        for k in sorted(started):
            u.prove('%s of %s with %s, signs %s %s: once' % k, s2, EQ(ex.loadk(s2, cnt[k][0], 'i'), 1))
        u.prove('nothing else is requested', s2, EQ(ex.loadk(s2, extra, 'i'), 0))
        if meth != 'DerivedAssemble':
            f = 'current' if meth == 'calcCurrent' else 'charge'
            u.prove('the sum is stored', s2, EQ(ex.loadk(s2, ex.fld(me, C, f), 'r'), sum((cnt[k][1] for k in sorted(started)), zr(0))))


ALLM = {m_: m_ for m_ in MEM}
TWO = dict(ALLM)
ONE = dict(ALLM, volume_node1_model_int_='volume_node0_model_int_')
INT = ['nodemodel_int', 'edgemodel_int', 'edgevolumemodel_int', 'elementedgemodel_int', 'volume_node0_model_int_', 'volume_node1_model_int_']
SAME = [('nv1', 'nv0'), ('env1', 'env0')]


def bulk(el, cyl, two):
    v0, v1 = 'volume_node0_model_int_', 'volume_node1_model_int_'
    c = [('Node', 'nodemodel_int', 'nvol', 1, 1), ('Edge', 'edgemodel_int', 'ec', 1, -1), (el, 'elementedgemodel_int', 'eec', 1, -1)]
    c += [('Edge', 'edgevolumemodel_int', 'nv0', 1, 0), ('Edge', 'edgevolumemodel_int', 'nv1', 0, 1)] if cyl else [('Edge', 'edgevolumemodel_int', 'nv0', 1, 1)]
    c += [(el, v0, 'env0', 1, 1)] if not (cyl or two) else [(el, v0, 'env0', 1, 0), (el, v1 if two else v0, 'env1' if cyl else 'env0', 0, 1)]
    return c


def circ(el, what):
    return [('Node on circuit', 'nodemodel_' + what, 'nvol', 1, 1), ('Edge on circuit', 'edgemodel_' + what, 'ec', 1, -1), (el + ' on circuit', 'elementedgemodel_' + what, 'eec', 1, -1)]


for dim, el in ((2, 'Triangle'), (3, 'Tetrahedron')):
    request('DC_%dd' % dim, 'DerivedAssemble', dim, ONE, bulk(el, False, False) + circ(el, 'current'), SAME, mode=0)
    request('DC_%dd_two_volume_models' % dim, 'DerivedAssemble', dim, TWO, bulk(el, False, True) + circ(el, 'current'), SAME, mode=0)
    request('DC_%dd_nocircuit' % dim, 'DerivedAssemble', dim, ONE, bulk(el, False, False), SAME, circuit=False, mode=0)
    request('TIME_%dd' % dim, 'DerivedAssemble', dim, ONE, circ(el, 'charge'), SAME, mode=1)
    for f, g in (('Current', 'current'), ('Charge', 'charge')):
        request('calc%s_%dd' % (f, dim), 'calc' + f, dim, ONE, [('integral Node', 'nodemodel_' + g, 'nvol', 1, 1), ('integral Edge', 'edgemodel_' + g, 'ec', 1, -1), ('integral ' + el, 'elementedgemodel_' + g, 'eec', 1, -1)], SAME)
request('DC_cylindrical', 'DerivedAssemble', 2, ONE, bulk('Triangle', True, False) + circ('Triangle', 'current'), (), mode=0)
request('TIME_nocircuit', 'DerivedAssemble', 2, ONE, [], SAME, circuit=False, mode=1)
request('DC_nothing', 'DerivedAssemble', 2, {}, [], SAME, mode=0)
request('PERMUTATIONS', 'DerivedAssemble', 2, ONE, [('Node', 'nodemodel_int', 'nvol', 1, 1)], SAME, W=PERM, mode=0)
for f, g in (('Current', 'current'), ('Charge', 'charge')):
    request('calc%s_edge_only' % f, 'calc' + f, 2, {'edgemodel_' + g: 'x'}, [('integral Edge', 'x', 'ec', 1, -1)], SAME)

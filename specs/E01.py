from spec import *
from world import World
from eqs import Eqs
import lib
PID = 'E01'
LEVEL = 'proof'
NATIVE = 'E01'
E = 'Equation/Equation.cc'
FILES = [E, 'Geometry/Region.cc', 'models/EdgeScalarData.cc', 'models/TriangleEdgeScalarData.cc', 'models/TetrahedronEdgeScalarData.cc', 'models/NodeScalarData.cc', 'Geometry/Node.cc', 'Geometry/Edge.cc', 'Geometry/Triangle.cc']
C = 'Equation<double>'


def rhs(kind, meth):
    @unit(PID, meth, FILES, ['Equation::' + meth])
    def _(u):
        """every element edge adds s0*flux to the row of its first node and s1*flux to the row of its second node, and nothing else"""
        q = Eqs(u)
        w = q.w
        n, per, edge = q.edges(kind)
        fl, F = q.data('flux', per * n)
        q.lists()
        s0, s1 = q.signs()
        s2 = u.run(u.fn('Equation::' + meth, C), [q.me, q.v, fl, s0, s1], q.st)[1]
        u.sat('mesh', s2)
        k = u.idx(s2, 'k', n)
        u.prove('two entries per element edge', s2, EQ(u.len(s2, q.v), q.v0 + 2 * per * n))
        q.same(s2, 'v')
        for j in range(per):
            x = F(per * k + j) if per > 1 else F(k)
            e = edge(k, j)
            q.vblock('flux of slot %d leaves the first node and enters the second' % j, s2, q.v0 + 2 * (per * k + j), [(q.row(w.head(e)), s0 * x), (q.row(w.tail(e)), s1 * x)])


def jac(kind, meth):
    nd = {'Edge': 2, 'Triangle': 3, 'Tetrahedron': 4}[kind]

    @unit(PID, meth, FILES, ['Equation::' + meth])
    def _(u):
        """every element edge adds, for each node the flux depends on, s0*derivative in the row of its first node and s1*derivative in the row of its second node"""
        q = Eqs(u)
        w, ex = q.w, q.ex
        n, per, edge = q.edges(kind)
        opp = q.opposite(kind)
        ds = [q.data('derivative%d' % i, per * n) for i in range(nd)]
        q.lists()
        s0, s1 = q.signs()
        var = Loc(('v', 'var'))
        u.set(q.st, var, 's', ex.strlit('u'))
        s2 = u.run(u.fn('Equation::' + meth, C), [q.me, q.m] + [d[0] for d in ds] + [var, s0, s1], q.st)[1]
        u.sat('mesh', s2)
        k = u.idx(s2, 'k', n)
        u.prove('entries per element edge', s2, EQ(u.len(s2, q.m), q.m0 + 2 * nd * per * n))
        q.same(s2, 'm')
        for j in range(per):
            e = edge(k, j)
            nodes = [w.head(e), w.tail(e)] + [o(k, j) for o in opp]
            want = []
            for (d, F), nn in zip(ds, nodes):
                x = F(per * k + j) if per > 1 else F(k)
                want += [(q.row(w.head(e)), q.col('u', nn), s0 * x), (q.row(w.tail(e)), q.col('u', nn), s1 * x)]
            q.mblock('derivatives of slot %d' % j, s2, q.m0 + 2 * nd * (per * k + j), want)


rhs('Edge', 'EdgeAssembleRHS')
rhs('Triangle', 'TriangleEdgeAssembleRHS')
rhs('Tetrahedron', 'TetrahedronEdgeAssembleRHS')
jac('Edge', 'UnSymmetricEdgeAssembleJacobian')
jac('Triangle', 'UnSymmetricTriangleEdgeAssembleJacobian')
jac('Tetrahedron', 'UnSymmetricTetrahedronEdgeAssembleJacobian')


def noderhs():
    @unit(PID, 'NodeAssembleRHS', FILES, ['Equation::NodeAssembleRHS'])
    def _(u):
        """every node adds its value to its own row"""
        q = Eqs(u)
        d, F = q.data('value', q.w.N)
        q.lists()
        s2 = u.run(u.fn('Equation::NodeAssembleRHS', C), [q.me, q.v, d], q.st)[1]
        u.sat('mesh', s2)
        k = u.idx(s2, 'k', q.w.N)
        u.prove('one entry per node', s2, EQ(u.len(s2, q.v), q.v0 + q.w.N))
        q.same(s2, 'v')
        q.vblock('value in the row of the node', s2, q.v0 + k, [(q.row(k), F(k))])

    @unit(PID, 'NodeAssembleJacobian', FILES, ['Equation::NodeAssembleJacobian'])
    def _(u):
        """every node adds its derivative at its own row and the column of the variable at the node"""
        q = Eqs(u)
        d, F = q.data('derivative', q.w.N)
        q.lists()
        var = Loc(('v', 'var'))
        u.set(q.st, var, 's', q.ex.strlit('u'))
        s2 = u.run(u.fn('Equation::NodeAssembleJacobian', C), [q.me, q.m, d, var], q.st)[1]
        u.sat('mesh', s2)
        k = u.idx(s2, 'k', q.w.N)
        u.prove('one entry per node', s2, EQ(u.len(s2, q.m), q.m0 + q.w.N))
        q.same(s2, 'm')
        q.mblock('derivative at row and column of the node', s2, q.m0 + k, [(q.row(k), q.col('u', k), F(k))])


noderhs()
MATRIXONLY, RHS, BOTH = 0, 1, 2
KIND = {'Node': 'Node', 'Edge': 'Edge', 'Triangle': 'TriangleEdge', 'Tetrahedron': 'TetrahedronEdge'}
SUF = {'Node': [''], 'Edge': ['@n0', '@n1'], 'Triangle': ['@en0', '@en1', '@en2'], 'Tetrahedron': ['@en0', '@en1', '@en2', '@en3']}


def expect(q, s2, kind, w_, parts, edge, n, per, opp):
    """parts: [(model values, {var: [derivative values]}, couple values, sign0, sign1)] assembled one after another"""
    u, w = q.u, q.w
    k = u.idx(s2, 'k', n)
    vat, mat = q.v0, q.m0
    X = lambda f, j: f(per * k + j) if per > 1 else f(k)
    for pi, (mod, ders, cp, s0, s1) in enumerate(parts):
        tag = ' (part %d)' % (pi + 1) if len(parts) > 1 else ''
        if w_ != MATRIXONLY:
            for j in range(per):
                x = X(mod, j) * X(cp, j)
                if kind == 'Node':
                    q.vblock('model times volume in the row of the node' + tag, s2, vat + k, [(q.row(k), x)])
                else:
                    e = edge(k, j)
                    q.vblock('flux times coupling, slot %d%s' % (j, tag), s2, vat + 2 * (per * k + j), [(q.row(w.head(e)), s0 * x), (q.row(w.tail(e)), s1 * x)])
            vat = vat + (n if kind == 'Node' else 2 * per * n)
        if w_ != RHS:
            for var in q.vars:
                if var not in ders:
                    continue
                ds = ders[var]
                for j in range(per):
                    if kind == 'Node':
                        q.mblock('derivative by %s times volume%s' % (var, tag), s2, mat + k, [(q.row(k), q.col(var, k), X(ds[0], j) * X(cp, j))])
                        continue
                    e = edge(k, j)
                    nodes = [w.head(e), w.tail(e)] + [o(k, j) for o in opp]
                    want = []
                    for F, nn in zip(ds, nodes):
                        x = X(F, j) * X(cp, j)
                        want += [(q.row(w.head(e)), q.col(var, nn), s0 * x), (q.row(w.tail(e)), q.col(var, nn), s1 * x)]
                    q.mblock('derivative by %s times coupling, slot %d%s' % (var, j, tag), s2, mat + 2 * len(ds) * (per * k + j), want)
                mat = mat + (n if kind == 'Node' else 2 * len(ds) * per * n)
    u.prove('residual entries of the requested parts only', s2, EQ(u.len(s2, q.v), vat))
    u.prove('matrix entries of the requested parts only', s2, EQ(u.len(s2, q.m), mat))
    q.same(s2, 'v')
    q.same(s2, 'm')


WN = {MATRIXONLY: 'matrix', RHS: 'rhs', BOTH: 'both'}
NAMES = (('Region::GetNodeVolumeModel', 'nvol'), ('Region::GetEdgeCoupleModel', 'ec'), ('Region::GetElementEdgeCoupleModel', 'eec'), ('Region::GetElementNode0VolumeModel', 'env0'),
         ('Region::GetElementNode1VolumeModel', 'env1'), ('Region::GetEdgeNode0VolumeModel', 'nv0'), ('Region::GetEdgeNode1VolumeModel', 'nv1'))


MEMBERS = {'Node': 'NodeVolumeAssemble', 'Edge': 'EdgeCoupleAssemble', 'Triangle': 'TriangleEdgeCoupleAssemble', 'Tetrahedron': 'TetrahedronEdgeCoupleAssemble'}


def sarg(q, nm):
    l = Loc(('v', 'arg_' + nm))
    q.u.set(q.st, l, 's', q.ex.strlit(nm))
    return l


def assemble(kind, W):
    """the assembly over one kind of element edge for any model, coupling and pair of signs"""
    @unit(PID, '%s_%s' % (MEMBERS[kind], WN[W]), FILES, ['Equation::' + MEMBERS[kind]])
    def _(u):
        """model times coupling (volume) is entered in the residual and its derivatives times coupling in the matrix, as far as requested; variables u, x with and v without derivative models"""
        q = Eqs(u, None, ('u', 'v', 'x'))
        w, ex, st = q.w, q.ex, q.st
        K = KIND[kind]
        mod, cp = w.model(K, 'mod'), w.model(K, 'couple')
        ders = {var: [w.model(K, 'mod:%s%s' % (var, s)) for s in SUF[kind]] for var in ('u', 'x')}
        for s in SUF[kind]:
            w.model(K, 'mod:v' + s, exists=False)
        ex.contracts.append(('dsErrors::MissingEquationModel', lambda ex, st, ins, args: None))
        if kind == 'Node':
            n, per, edge, opp = w.N, 1, None, []
        else:
            n, per, edge = q.edges(kind)
            opp = q.opposite(kind)
        q.lists()
        s0, s1 = q.signs()
        f = u.fn('Equation::' + MEMBERS[kind], C, 'WhatToLoad, std::')
        s2 = u.run(f, [q.me, sarg(q, 'mod'), q.m, q.v, W, sarg(q, 'couple')] + ([s0, s1] if kind != 'Node' else []), st)[1]
        u.sat('mesh', s2)
        expect(q, s2, kind, W, [(mod, ders, cp, s0, s1)], edge, n, per, opp)


for W in (MATRIXONLY, RHS, BOTH):
    for kind in ('Node', 'Edge', 'Triangle', 'Tetrahedron'):
        assemble(kind, W)


def dispatch(name, meth, cls, dim, models, calls, same=(), args=None, prep=None, files=(), mode=None):
    """calls: [(kind, model, coupling, s0, s1)] - the assemblies that must be requested, in any order"""
    @unit(PID, name, FILES + list(files), ['%s::%s' % (cls.split('<')[0], meth)])
    def _(u):
        """the assembly is requested for exactly the right models, couplings (volumes) and signs"""
        q = Eqs(u, dim)
        w, ex, st = q.w, q.ex, q.st
        alias = dict(same)
        for g, nm in NAMES:
            def h(ex, st, ins, a, nm=alias.get(nm, nm)):
                ex.storek(st, a[0], 's', ex.strlit(nm))
            ex.contracts.append((g, h))
        log = []

        def rec(kind):
            def h(ex, st, ins, a):
                s = tuple(a[6:8]) if kind != 'Node' else (Fraction(1), Fraction(1))
                log.append((kind, q.sname(st, a[1]), q.sname(st, a[5]), s, a[2:5]))
            return h
        for kind, m_ in MEMBERS.items():
            full = rec(kind)
            ex.contracts.append((lambda m, dn, sn, m_=m_: sn == 'Equation::' + m_ and 'WhatToLoad, std::' in dn, full))
        q.lists()
        W = fresh('what')
        st.assume(z3.And(W >= 0, W <= 2))
        me = q.me
        if prep:
            me = prep(q)
        s2 = u.run(u.fn('%s::%s' % (cls.split('<')[0], meth), cls, *([] if 'Couple' not in meth and 'NodeVolumeA' not in meth else ['WhatToLoad)'])), [me] + [sarg(q, m_) for m_ in models] + [q.m, q.v, W] + ([mode] if mode is not None else []), st)[1]
        u.sat('dispatch', s2)
        want = [(a, b, c, (Fraction(d), Fraction(e))) for a, b, c, d, e in calls]
        got = [l[:4] for l in log]
        key = lambda x: repr(x)
        u.prove('requested assemblies', s2, True if sorted(map(key, got)) == sorted(map(key, want)) else False)
        for l in log:
            m_, v_, w_ = l[4]
            u.prove('same lists and request are passed on', s2, AND(z3.BoolVal(m_.key() == q.m.key() and v_.key() == q.v.key()), EQ(w_, W)))


D = dispatch
D('NodeVolumeAssemble', 'NodeVolumeAssemble', C, None, ['mod'], [('Node', 'mod', 'nvol', 1, 1)])
D('EdgeCoupleAssemble', 'EdgeCoupleAssemble', C, None, ['mod'], [('Edge', 'mod', 'ec', 1, -1)])
D('EdgeNodeVolumeAssemble', 'EdgeNodeVolumeAssemble', C, None, ['mod'], [('Edge', 'mod', 'nv0', 1, 1)], same=[('nv1', 'nv0')])
D('EdgeNodeVolumeAssemble_cylindrical', 'EdgeNodeVolumeAssemble', C, None, ['mod'], [('Edge', 'mod', 'nv0', 1, 0), ('Edge', 'mod', 'nv1', 0, 1)])
for kind, dim in (('Triangle', 2), ('Tetrahedron', 3)):
    D('ElementEdgeCoupleAssemble_%dd' % dim, 'ElementEdgeCoupleAssemble', C, dim, ['mod'], [(kind, 'mod', 'eec', 1, -1)])
    D('ElementNodeVolumeAssemble_%dd' % dim, 'ElementNodeVolumeAssemble', C, dim, ['mod', 'mod'], [(kind, 'mod', 'env0', 1, 1)], same=[('env1', 'env0')])
    D('ElementNodeVolumeAssemble_%dd_two' % dim, 'ElementNodeVolumeAssemble', C, dim, ['mod', 'mod2'], [(kind, 'mod', 'env0', 1, 0), (kind, 'mod2', 'env0', 0, 1)], same=[('env1', 'env0')])
    D('ElementNodeVolumeAssemble_%dd_cylindrical' % dim, 'ElementNodeVolumeAssemble', C, dim, ['mod', 'mod'], [(kind, 'mod', 'env0', 1, 0), (kind, 'mod', 'env1', 0, 1)])
XC = 'ExprEquation<double>'
EXPR = ['AutoEquation/ExprEquation.cc']


def expr(**names_):
    def prep(q):
        ex = q.ex
        q.f = None
        me = ref(ex.rootcls(XC), 7)
        for m_ in ('node_model_', 'edge_model_', 'edge_volume_model_', 'element_model_', 'volume_node0_model_', 'volume_node1_model_', 'time_node_model_'):
            nm = names_.get(m_, '')
            q.u.set(q.st, ex.fld(me, XC, m_), 's', ex.strlit(nm) if nm else 0)
        ex.contracts.append(('Region::SetModelExprDataCache', lambda ex, st, ins, a: None))
        ex.contracts.append(('ModelExprDataCache::clear', lambda ex, st, ins, a: None))
        ex.contracts.append(('ModelExprDataCache::ModelExprDataCache', lambda ex, st, ins, a: None))
        return me
    return prep


ALL = dict(node_model_='nm', edge_model_='em', edge_volume_model_='evm', element_model_='elm', volume_node0_model_='v0', volume_node1_model_='v0', time_node_model_='tm')
SAME = [('nv1', 'nv0'), ('env1', 'env0')]
D('ExprEquation_DC_2d', 'DerivedAssemble', XC, 2, [], [('Edge', 'em', 'ec', 1, -1), ('Edge', 'evm', 'nv0', 1, 1), ('Node', 'nm', 'nvol', 1, 1), ('Triangle', 'elm', 'eec', 1, -1), ('Triangle', 'v0', 'env0', 1, 1)], same=SAME, prep=expr(**ALL), files=EXPR, mode=0)
D('ExprEquation_DC_3d', 'DerivedAssemble', XC, 3, [], [('Edge', 'em', 'ec', 1, -1), ('Edge', 'evm', 'nv0', 1, 1), ('Node', 'nm', 'nvol', 1, 1), ('Tetrahedron', 'elm', 'eec', 1, -1), ('Tetrahedron', 'v0', 'env0', 1, 1)], same=SAME, prep=expr(**ALL), files=EXPR, mode=0)
D('ExprEquation_time', 'DerivedAssemble', XC, 2, [], [('Node', 'tm', 'nvol', 1, 1)], same=SAME, prep=expr(**ALL), files=EXPR, mode=1)
D('ExprEquation_DC_nodeonly', 'DerivedAssemble', XC, 2, [], [('Node', 'nm', 'nvol', 1, 1)], same=SAME, prep=expr(node_model_='nm', time_node_model_='tm'), files=EXPR, mode=0)
D('ExprEquation_DC_edgeonly', 'DerivedAssemble', XC, 2, [], [('Edge', 'em', 'ec', 1, -1)], same=SAME, prep=expr(edge_model_='em'), files=EXPR, mode=0)
D('ExprEquation_time_none', 'DerivedAssemble', XC, 2, [], [], same=SAME, prep=expr(node_model_='nm', edge_model_='em'), files=EXPR, mode=1)

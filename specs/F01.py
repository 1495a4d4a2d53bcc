from spec import *
from world import World
PID = 'F01'
LEVEL = 'proof'
NATIVE = 'F01'
BOUNDED = []
G = 'GeomModels/'
M = 'models/'
NAMES = dict(nodeModelName='NodeQ', edgeModel1Name='out1', edgeModel2Name='out2', edgeModel3Name='out3')


def setup(u, dim):
    ex = u.fresh_exec()
    st = State()
    return ex, st, World(u, st, dim)


def strs(u, w, st, me, cls, **kw):
    for m, s in kw.items():
        u.set(st, w.ex.fld(me, cls, m), 's', w.ex.strlit(s))


def out(w, kind, cls, name):
    """an existing model the calculation fills in, looked up by its name"""
    w.model(kind, name)
    return ref(w.ex.rootcls(cls), w.ex.strlit(name))


@unit(PID, 'EdgeFromNodeModel', [M + 'EdgeFromNodeModel.cc', M + 'EdgeScalarData.cc'], ['EdgeFromNodeModel::calcEdgeScalarValues', 'createEdgeModelsFromNodeModel'])
def _(u):
    """a node model seen from the edges: value @n0 is the node value at the first node, @n1 at the second"""
    ex, st, w = setup(u, None)
    c = 'EdgeFromNodeModel<double>'
    me = w.this(c)
    nm = w.model('Node', 'NodeQ')
    w.model('Edge', 'out1')
    strs(u, w, st, me, c, nodeModelName='NodeQ', edgeModel1Name='out1')
    o1 = w.sub(c, 'node1EdgeModel', 2000001)
    s2 = u.run(u.fn('EdgeFromNodeModel::calcEdgeScalarValues', c), [me], st)[1]
    u.sat('mesh', s2)
    k = u.idx(s2, 'k', w.NE)
    for o, q, nn in ((me, w.head, 'first'), (o1, w.tail, 'second')):
        u.prove('one value per edge (%s node)' % nn, s2, EQ(w.reslen(s2, o), w.NE))
        u.prove('value at the %s node' % nn, s2, EQ(w.res(s2, k, o), nm(q(k))))


@unit(PID, 'TriangleEdgeFromNodeModel', [M + 'TriangleEdgeFromNodeModel.cc'], ['TriangleEdgeFromNodeModel::calcTriangleEdgeScalarValues'])
def _(u):
    """a node model seen from the element edges of a triangle: values at the edge's two nodes and at the node across from it"""
    ex, st, w = setup(u, 2)
    c = 'TriangleEdgeFromNodeModel<double>'
    te = w.fixed('triangleToEdgeList', w.NT, w.NE, 'triEdge', 3)
    tn = z3.Function('triNode', I, I, I)
    v = w.fam('Triangle', 'nodes')
    u.family(v.mark('len'), 'i', lambda *ix: 3)
    u.family(v.seg('e', 0), 'p', lambda *ix: norm(tn(zi(ix[-2]), zi(ix[-1]))))
    i, j = z3.Ints('i j')
    st.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < w.NT, 0 <= j, j < 3), z3.And(0 <= tn(i, j), tn(i, j) < w.N)), patterns=[tn(i, j)]))
    nm = w.model('Node', 'NodeQ')
    me = w.this(c)
    o1, o2 = out(w, 'TriangleEdge', 'TriangleEdgeModel', 'out1'), out(w, 'TriangleEdge', 'TriangleEdgeModel', 'out2')
    strs(u, w, st, me, c, nodeModelName='NodeQ', edgeModel1Name='out1', edgeModel2Name='out2')
    s2 = u.run(u.fn('TriangleEdgeFromNodeModel::calcTriangleEdgeScalarValues', c), [me], st)[1]
    u.sat('mesh', s2)
    k = u.idx(s2, 'k', w.NT)
    s = u.idx(s2, 's', 3)
    for o, n, nn in ((me, w.head(te(k, s)), 'first node'), (o1, w.tail(te(k, s)), 'second node'), (o2, tn(k, s), 'node across')):
        u.prove('three values per triangle (%s)' % nn, s2, EQ(w.reslen(s2, o), 3 * w.NT))
        u.prove('value at the ' + nn, s2, EQ(w.res(s2, norm(3 * k + s), o), nm(n)))


@unit(PID, 'TetrahedronEdgeFromNodeModel', [M + 'TetrahedronEdgeFromNodeModel.cc'], ['TetrahedronEdgeFromNodeModel::calcTetrahedronEdgeScalarValues'])
def _(u):
    """a node model seen from the element edges of a tetrahedron: values at the edge's two nodes and at the two opposite nodes"""
    ex, st, w = setup(u, 3)
    c = 'TetrahedronEdgeFromNodeModel<double>'
    w.edgedata()
    nm = w.model('Node', 'NodeQ')
    me = w.this(c)
    os_ = [out(w, 'TetrahedronEdge', 'TetrahedronEdgeModel', 'out%d' % q) for q in (1, 2, 3)]
    strs(u, w, st, me, c, nodeModelName='NodeQ', edgeModel1Name='out1', edgeModel2Name='out2', edgeModel3Name='out3')
    s2 = u.run(u.fn('TetrahedronEdgeFromNodeModel::calcTetrahedronEdgeScalarValues', c), [me], st)[1]
    u.sat('mesh', s2)
    k = u.idx(s2, 'k', w.NK)
    s = u.idx(s2, 's', 6)
    d = norm(6 * k + s)
    e = w.ed_edge(d)
    for o, n, nn in zip([me] + os_, (w.head(e), w.tail(e), w.ed_op[0](d), w.ed_op[1](d)), ('first node', 'second node', 'first opposite node', 'second opposite node')):
        u.prove('six values per tetrahedron (%s)' % nn, s2, EQ(w.reslen(s2, o), 6 * w.NK))
        u.prove('value at the ' + nn, s2, EQ(w.res(s2, d, o), nm(n)))


KINDS = {'arithmetic': 0, 'geometric': 1, 'gradient': 2, 'negative_gradient': 3}


def average(kind, der):
    @unit(PID, 'AverageEdgeModel_%s%s' % (kind, {None: '', 'self': '_self', 'chain': '_derivative'}[der]), [G + 'AverageEdgeModel.cc', M + 'EdgeScalarData.cc'],
          ['AverageEdgeModel::calcEdgeScalarValues', 'AverageEdgeModel::doMath', 'AverageEdgeModel::doGradient'])
    def _(u):
        """an averaged edge model combines the two node values as named; its derivative models are the exact derivatives with respect to each node"""
        ex, st, w = setup(u, None)
        c = 'AverageEdgeModel<double>'
        me = w.this(c)
        n = w.model('Node', 'NodeQ')
        il = w.model('Edge', 'EdgeInverseLength')
        w.model('Edge', 'out1')
        u.set(st, ex.fld(me, c, 'averageType'), 'i', KINDS[kind])
        strs(u, w, st, me, c, nodeModelName='NodeQ', edgeModel1Name='out1' if der else '', variableName={None: '', 'self': 'NodeQ', 'chain': 'V'}[der], derivativeModelName='NodeQ:V' if der == 'chain' else '')
        if der:
            o1 = w.sub(c, 'node1EdgeModel', 2000001)
        dn = w.model('Node', 'NodeQ:V') if der == 'chain' else (lambda i: z3.RealVal(1))
        s2 = u.run(u.fn('AverageEdgeModel::calcEdgeScalarValues', c), [me], st)[1]
        u.sat('mesh', s2)
        k = u.idx(s2, 'k', w.NE)
        h, t = w.head(k), w.tail(k)
        x, y, xd, yd = n(h), n(t), dn(h), dn(t)
        if not der:
            want = {'arithmetic': (x + y) / 2, 'geometric': SQRT(x * y), 'gradient': il(k) * (y - x), 'negative_gradient': il(k) * (x - y)}[kind]
            u.prove('one value per edge', s2, EQ(w.reslen(s2), w.NE))
            u.prove('value', s2, EQ(w.res(s2, k), want))
            return
        for o, d, sg, p, q, nn in ((me, xd, -1, x, y, 'first'), (o1, yd, 1, y, x, 'second')):
            u.prove('one value per edge (%s node)' % nn, s2, EQ(w.reslen(s2, o), w.NE))
            r = w.res(s2, k, o)
            if kind == 'geometric':
                # d sqrt(pq)/dp = q/(2 sqrt(pq)):  2*r*p = d*sqrt(pq), stated through a square root g of pq and the code's own ratio
                a, b = fresh('a', R), fresh('b', R)
                s3 = s2.copy()
                s3.assume(z3.And(a > 0, b > 0, p == a * a, q == b * b))
                rt = SQRT(zr(y) / zr(x))
                A, B_ = (a, b) if p is x else (b, a)
                u.prove('root of a quotient, squares (%s node)' % nn, s3, EQ((rt * A - B_) * (rt * A + B_), 0), assume=True)
                u.prove('root of a quotient (%s node)' % nn, s3, EQ(rt * A, B_), assume=True)
                u.sat('positive node values (%s)' % nn, s3)
                u.prove('twice the derivative times the root of this node = its own derivative times the root of the other (%s node)' % nn, s3, EQ(2 * r * a, d * b))
            else:
                want = {'arithmetic': d / 2, 'gradient': sg * il(k) * d, 'negative_gradient': -sg * il(k) * d}[kind]
                u.prove('derivative with respect to the %s node' % nn, s2, EQ(r, want))


for _k in KINDS:
    for _d in (None, 'self', 'chain'):
        average(_k, _d)


def submodel(cls, kind, meth, sf):
    @unit(PID, cls, [M + cls + '.cc'], [cls + '::' + meth])
    def _(u):
        """a dependent model takes its values from its parent: while the parent lives, asking for values makes the parent compute them, and an independent model is left as it is"""
        for has in (True, False):
            ex, st, w = setup(u, None)
            c = cls + '<double>'
            me = w.this(c)
            asked = Loc(('v', 'asked'), ((0, 'c', 0),), 0)
            u.family(asked, 'i', lambda *ix: 0)

            def vals(ex, st, ins, a):
                ex.storek(st, Loc(('v', 'asked'), ((0, 'c', a[0].rid),), 0), 'i', 1)
                return w.vals(kind, a[0].rid)
            base = w.KINDS[kind][0]
            ex.contracts.insert(0, (lambda m, dn, sn: sn == base + '::GetScalarValues', vals))
            parent = w.sub(c, 'parentModel', 2000001)
            w.model(kind, 'parent')
            strs(u, w, st, me, c, parentModelName='parent' if has else '')
            s2 = u.run(u.fn(cls + '::' + meth, c), [me], st)[1]
            u.sat('parent' if has else 'no parent', s2)
            k = fresh('m')
            got = u.get(s2, Loc(('v', 'asked'), ((0, 'c', k),), 0), 'i')
            if has:
                u.prove('the parent is asked for its values, and no other model', s2, EQ(got, ITE(EQ(k, 2000001), 1, 0)))
            else:
                u.prove('a model without a parent asks nobody', s2, EQ(got, 0))


submodel('EdgeSubModel', 'Edge', 'calcEdgeScalarValues', None)
submodel('TriangleEdgeSubModel', 'TriangleEdge', 'calcTriangleEdgeScalarValues', None)
submodel('TetrahedronEdgeSubModel', 'TetrahedronEdge', 'calcTetrahedronEdgeScalarValues', None)
submodel('NodeSolution', 'Node', 'calcNodeScalarValues', None)


def init(cls, kind, srcs, members, files, extra=None, tag=''):
    @unit(PID, cls + '_follows' + tag, files, [cls + '::derived_init'])
    def _(u):
        """a derived model is signalled when any model it is computed from changes"""
        ex, st, w = setup(u, None)
        c = cls + '<double>'
        me = w.this(c)
        base = w.KINDS[kind][0]
        reg = Loc(('v', 'registered'), ((0, 'c', 0),), 0)
        u.family(reg, 'i', lambda *ix: 0)

        def register(ex, st, ins, a):
            code = norm(ex.loadk(st, a[1], 's'))
            if not isinstance(code, int):
                raise Unsupported('computed name')
            ex.storek(st, Loc(('v', 'registered'), ((0, 'c', code),), 0), 'i', 1)

        def created(ex, st, ins, a):
            ex.storek(st, a[0], 'p', ref(ex.rootcls(base), 2000001))
        ex.contracts.insert(0, (base + '::RegisterCallback', register))
        ex.contracts.insert(0, (lambda m, dn, sn: 'SubModel' in dn and (sn.endswith('SubModel::Create%sSubModel' % kind) or sn == 'dsModelFactory::create'), created))
        ex.contracts.insert(0, (lambda m, dn, sn: sn in (base + '::GetSelfPtr', base + '::GetConstSelfPtr'), lambda ex, st, ins, a: ex.storek(st, a[0], 'p', me)))
        for s in srcs:
            w.model('Node' if s in ('NodeQ', 'NodeQ:V') else 'Edge', s)
        strs(u, w, st, me, c, **members)
        if extra is not None:
            u.set(st, ex.fld(me, c, 'averageType'), 'i', extra)
        s2 = u.run(u.fn(cls + '::derived_init', c), [me], st)[1]
        u.sat('registered', s2)
        for s in srcs:
            u.prove('signalled by ' + s, s2, EQ(u.get(s2, Loc(('v', 'registered'), ((0, 'c', ex.strlit(s)),), 0), 'i'), 1))


_m = dict(nodeModelName='NodeQ', edgeModel1Name='out1')
init('EdgeFromNodeModel', 'Edge', ['NodeQ'], _m, [M + 'EdgeFromNodeModel.cc'])
init('TriangleEdgeFromNodeModel', 'TriangleEdge', ['NodeQ'], dict(_m, edgeModel2Name='out2'), [M + 'TriangleEdgeFromNodeModel.cc'])
init('TetrahedronEdgeFromNodeModel', 'TetrahedronEdge', ['NodeQ'], dict(_m, edgeModel2Name='out2', edgeModel3Name='out3'), [M + 'TetrahedronEdgeFromNodeModel.cc'])
for _k, _v in KINDS.items():
    _g = ['EdgeInverseLength'] if _v >= 2 else []
    init('AverageEdgeModel', 'Edge', ['NodeQ'] + _g, dict(nodeModelName='NodeQ', edgeModel1Name='', variableName='', derivativeModelName=''), [G + 'AverageEdgeModel.cc'], _v, '_' + _k)
    init('AverageEdgeModel', 'Edge', ['NodeQ'] + _g, dict(_m, variableName='NodeQ', derivativeModelName=''), [G + 'AverageEdgeModel.cc'], _v, '_%s_self' % _k)
    init('AverageEdgeModel', 'Edge', ['NodeQ', 'NodeQ:V'] + _g, dict(_m, variableName='V', derivativeModelName=''), [G + 'AverageEdgeModel.cc'], _v, '_%s_derivative' % _k)

from spec import *
from world import World
PID = 'G01'
LEVEL = 'proof'
NATIVE = 'G01'
G = 'GeomModels/'
H = Fraction(1, 2)


def sq(x):
    return x * x


def R_(x):
    return zr(x)


def run(u, w, st, cls, meth):
    c = cls + '<double>'
    s2 = u.run(u.fn(cls + '::' + meth, c), [w.this(c)], st)[1]
    u.sat('mesh', s2)
    return s2


def setup(u, dim):
    ex = u.fresh_exec()
    st = State()
    return ex, st, World(u, st, dim)


@unit(PID, 'NodeVolume', [G + 'NodeVolume.cc', 'models/EdgeScalarData.cc'], ['NodeVolume::calcNodeScalarValues'])
def _(u):
    """the volume of a node is the sum of the edge volumes of the edges that meet at it"""
    ex, st, w = setup(u, None)
    ln, n2e = w.adj('nodeToEdgeList', w.N, w.NE, 'nodeEdges')
    ev = w.model('Edge', 'EdgeNodeVolume')
    s2 = run(u, w, st, 'NodeVolume', 'calcNodeScalarValues')
    k = u.idx(s2, 'k', w.N)
    t = z3.Int('t')
    u.prove('one value per node', s2, EQ(w.reslen(s2), w.N))
    u.prove('node volume = sum over its edges', s2, EQ(w.res(s2, k), SUM(t, ev(n2e(k, t)), ln(k))))


def edgemodel(cls, dim, what, elem):
    @unit(PID, '%s_%dd' % (cls, dim), [G + cls + '.cc', 'models/TriangleEdgeModel.cc', 'models/TetrahedronEdgeModel.cc', 'models/EdgeScalarData.cc'], [cls + '::calcEdgeScalarValues'])
    def _(u):
        """edge quantity: 1D closed form; 2D/3D the sum over the elements that share the edge"""
        ex, st, w = setup(u, dim)
        if dim == 1:
            ec, el = w.model('Edge', 'EdgeCouple'), w.model('Edge', 'EdgeLength')
        else:
            what = 'Triangle' if dim == 2 else 'Tetrahedron'
            m = w.model(what + 'Edge', elem)
            slot = w.edgeslot(what)
            ln, e2t = w.adj('edgeTo%sList' % what, w.NE, w.NT if dim == 2 else w.NK, 'edgeElems')
        s2 = run(u, w, st, cls, 'calcEdgeScalarValues')
        k = u.idx(s2, 'k', w.NE)
        t = z3.Int('t')
        u.prove('one value per edge', s2, EQ(w.reslen(s2), w.NE))
        if dim == 1:
            want = 1 if cls == 'EdgeCouple' else ec(k) * el(k) / 2
        else:
            n = 3 if dim == 2 else 6
            want = SUM(t, m(n * e2t(k, t) + slot(e2t(k, t), k)), ln(k))
        u.prove('edge value', s2, EQ(w.res(s2, k), zr(want)))


for d in (1, 2, 3):
    edgemodel('EdgeCouple', d, None, 'ElementEdgeCouple')
    edgemodel('EdgeNodeVolume', d, None, 'ElementNodeVolume')


def mid(w, e, c):
    return (w.pos[c](w.head(e)) + w.pos[c](w.tail(e))) / 2


def sqrtof(u, st, r, a, name):
    """r is the non-negative square root of a"""
    u.prove(name, st, EQ(r, SQRT(a)))


@unit(PID, 'EdgeLength', [G + 'EdgeLength.cc'], ['EdgeLength::calcEdgeScalarValues', 'EdgeLength::calcEdgeLength'])
def _(u):
    """the length of an edge is the distance between its two nodes"""
    ex, st, w = setup(u, None)
    s2 = run(u, w, st, 'EdgeLength', 'calcEdgeScalarValues')
    k = u.idx(s2, 'k', w.NE)
    u.prove('one value per edge', s2, EQ(w.reslen(s2), w.NE))
    h, t = w.head(k), w.tail(k)
    sqrtof(u, s2, w.res(s2, k), sum(sq(p(h) - p(t)) for p in w.pos), 'edge length is the distance of its end nodes')


@unit(PID, 'EdgeInverseLength', [G + 'EdgeInverseLength.cc'], ['EdgeInverseLength::calcEdgeScalarValues'])
def _(u):
    """inverse length times length is one"""
    ex, st, w = setup(u, None)
    el = w.model('Edge', 'EdgeLength')
    s2 = run(u, w, st, 'EdgeInverseLength', 'calcEdgeScalarValues')
    k = u.idx(s2, 'k', w.NE)
    u.prove('one value per edge', s2, EQ(w.reslen(s2), w.NE))
    u.prove('inverse', s2, IMP(NOT(EQ(el(k), 0)), EQ(w.res(s2, k) * el(k), zr(1))))


@unit(PID, 'EdgeIndex', [G + 'EdgeIndex.cc'], ['EdgeIndex::calcEdgeScalarValues'])
def _(u):
    """the edge index model names each edge by its position"""
    ex, st, w = setup(u, None)
    s2 = run(u, w, st, 'EdgeIndex', 'calcEdgeScalarValues')
    k = u.idx(s2, 'k', w.NE)
    u.prove('one value per edge', s2, EQ(w.reslen(s2), w.NE))
    u.prove('edge index', s2, EQ(w.res(s2, k), zr(k)))


@unit(PID, 'UnitVec', [G + 'UnitVec.cc'], ['UnitVec::calcEdgeScalarValues', 'UnitVec::calcUnitVec'])
def _(u):
    """unit vectors point from the first to the second node of the edge and have length one"""
    ex, st, w = setup(u, None)
    me = w.this('UnitVec<double>')
    y, z_ = w.sub('UnitVec<double>', 'unity', 2000001), w.sub('UnitVec<double>', 'unitz', 2000002)
    s2 = u.run(u.fn('UnitVec::calcEdgeScalarValues', 'UnitVec<double>'), [me], st)[1]
    k = u.idx(s2, 'k', w.NE)
    h, t = w.head(k), w.tail(k)
    d = [p(t) - p(h) for p in w.pos]
    L = z3.Real('L')
    s2.assume(z3.And(L > 0, L * L == sum(sq(x) for x in d)))
    u.sat('mesh', s2)
    for o, c in ((me, 0), (y, 1), (z_, 2)):
        u.prove('one value per edge (%s)' % 'xyz'[c], s2, EQ(w.reslen(s2, o), w.NE))
        u.prove('component %s times the length is the coordinate difference' % 'xyz'[c], s2, EQ(w.res(s2, k, o) * L, d[c]))


@unit(PID, 'NodePosition', [G + 'NodePosition.cc'], ['NodePosition::calcNodeScalarValues'])
def _(u):
    """x, y, z, node_index and coordinate_index report each node's own data"""
    ex, st, w = setup(u, None)
    c = 'NodePosition<double>'
    me = w.this(c)
    subs = [w.sub(c, m, 2000001 + i) for i, m in enumerate(('yposition', 'zposition', 'node_index', 'coordinate_index'))]
    ci = z3.Function('coordIndex', I, I)
    u.family(w.fam('Coordinate', 'index'), 'i', lambda i: norm(ci(zi(i))))
    s2 = u.run(u.fn('NodePosition::calcNodeScalarValues', c), [me], st)[1]
    u.sat('mesh', s2)
    k = u.idx(s2, 'k', w.N)
    for o, nm, v in zip([me] + subs, ('x', 'y', 'z', 'node_index', 'coordinate_index'), [p(k) for p in w.pos] + [k, ci(k)]):
        u.prove('one value per node (%s)' % nm, s2, EQ(w.reslen(s2, o), w.N))
        u.prove(nm, s2, EQ(w.res(s2, k, o), zr(v)))


def tri(w):
    return w.fixed('triangleToEdgeList', w.NT, w.NE, 'triEdge', 3)


@unit(PID, 'TriangleEdgeCouple', [G + 'TriangleEdgeCouple.cc'], ['TriangleEdgeCouple::calcTriangleEdgeScalarValues', 'TriangleEdgeCouple::calcTriangleEdgeCouple'])
def _(u):
    """the coupling of a triangle edge is the distance from the edge midpoint to the triangle centre"""
    ex, st, w = setup(u, 2)
    te = tri(w)
    cen = w.centers('Triangle')
    s2 = run(u, w, st, 'TriangleEdgeCouple', 'calcTriangleEdgeScalarValues')
    k = u.idx(s2, 'k', w.NT)
    u.prove('three values per triangle', s2, EQ(w.reslen(s2), 3 * w.NT))
    for s in range(3):
        e = te(k, s)
        sqrtof(u, s2, w.res(s2, norm(3 * k + s)), sum(sq(mid(w, e, c) - cen[c](k)) for c in range(3)), 'coupling of edge %d' % s)


@unit(PID, 'TriangleNodeVolume', [G + 'TriangleNodeVolume.cc', 'models/TriangleEdgeScalarData.cc'], ['TriangleNodeVolume::calcTriangleEdgeScalarValues'])
def _(u):
    """volume share of each end node: a quarter of coupling times length"""
    ex, st, w = setup(u, 2)
    te = tri(w)
    ec, el = w.model('TriangleEdge', 'ElementEdgeCouple'), w.model('Edge', 'EdgeLength')
    s2 = run(u, w, st, 'TriangleNodeVolume', 'calcTriangleEdgeScalarValues')
    k, s = u.idx(s2, 'k', w.NT), u.idx(s2, 's', 3)
    u.prove('three values per triangle', s2, EQ(w.reslen(s2), 3 * w.NT))
    u.prove('volume', s2, EQ(w.res(s2, norm(3 * k + s)), ec(3 * k + s) * el(te(k, s)) / 4))


@unit(PID, 'TetrahedronNodeVolume', [G + 'TetrahedronNodeVolume.cc', 'models/TetrahedronEdgeScalarData.cc'], ['TetrahedronNodeVolume::calcTetrahedronEdgeScalarValues'])
def _(u):
    """volume share of each end node: a sixth of coupling area times length"""
    ex, st, w = setup(u, 3)
    rec = w.edgedata()
    ec, el = w.model('TetrahedronEdge', 'ElementEdgeCouple'), w.model('Edge', 'EdgeLength')
    s2 = run(u, w, st, 'TetrahedronNodeVolume', 'calcTetrahedronEdgeScalarValues')
    k, s = u.idx(s2, 'k', w.NK), u.idx(s2, 's', 6)
    u.prove('six values per tetrahedron', s2, EQ(w.reslen(s2), 6 * w.NK))
    u.prove('volume', s2, EQ(w.res(s2, norm(6 * k + s)), ec(6 * k + s) * el(w.ed_edge(6 * k + s)) / 6))


def tetcouple(lo):
    @unit(PID, 'TetrahedronEdgeCouple_%d%d' % (lo, lo + 1), [G + 'TetrahedronEdgeCouple.cc'], ['TetrahedronEdgeCouple::calcTetrahedronEdgeScalarValues'])
    def _(u):
        """coupling area: half the sum of the two cross products (edge centre to tetrahedron centre) x (tetrahedron centre to face centre)"""
        ex, st, w = setup(u, 3)
        rec = w.edgedata()
        tt = w.fixed('tetrahedronToTriangleList', w.NK, w.NT, 'tetTri', 4)
        tc, kc = w.centers('Triangle'), w.centers('Tetrahedron')
        s2 = run(u, w, st, 'TetrahedronEdgeCouple', 'calcTetrahedronEdgeScalarValues')
        k = u.idx(s2, 'k', w.NK)
        u.prove('six values per tetrahedron', s2, EQ(w.reslen(s2), 6 * w.NK))
        for s in (lo, lo + 1):
            slot(u, w, s2, k, s, tt, tc, kc)


def slot(u, w, s2, k, s, tt, tc, kc):
    d = norm(6 * k + s)
    e = w.ed_edge(d)
    v0 = [kc[c](k) - mid(w, e, c) for c in range(3)]
    a = []
    for q in (0, 1):
        f = tt(k, w.ed_ti[q](d))
        v1 = [tc[c](f) - kc[c](k) for c in range(3)]
        cr = [v0[1] * v1[2] - v0[2] * v1[1], v0[2] * v1[0] - v0[0] * v1[2], v0[0] * v1[1] - v0[1] * v1[0]]
        a.append(SQRT(sum(sq(x) for x in cr)))
    u.prove('coupling area of edge %d' % s, s2, EQ(w.res(s2, norm(d)), (a[0] + a[1]) / 2))


for lo in (0, 2, 4):
    tetcouple(lo)

from spec import *
from world import World
import lib
PID = 'G02'
LEVEL = 'proof'
NATIVE = 'G02'
M = 'models/'
AVERAGE, COUPLE, SUM_ = 0, 1, 2


def setup(u, kind, cls, dim=None):
    ex = u.fresh_exec()
    st = State()
    w = World(u, st, dim)
    m = w.model(kind, 'the model')
    me = ref(cls, ex.strlit('the model'))
    return ex, st, w, m, me


def i2r(x):
    return z3.ToReal(zi(x))


def ends(w, e, k):
    return lambda v, zero: add(ITE(EQ(w.head(e), k), v, zero), ITE(EQ(w.tail(e), k), v, zero))


@unit(PID, 'EdgeValuesOnNodes', [M + 'EdgeModel.cc'], ['EdgeModel::GetScalarValuesOnNodes'])
def _(u):
    """a node gets the average of the values of the edges that touch it, zero when there are none"""
    ex, st, w, m, me = setup(u, 'Edge', 'EdgeModel')
    ret = Loc(('v', 'ret'))
    s2 = u.run(u.fn('EdgeModel::GetScalarValuesOnNodes', 'GetScalarValuesOnNodes<double>'), [ret, me], st)[1]
    u.sat('mesh', s2)
    k = u.idx(s2, 'k', w.N)
    t = z3.Int('t')
    tot = SUM(t, ends(w, t, k)(m(t), 0), w.NE)
    cnt = SUM(t, ends(w, t, k)(1, 0), w.NE)
    u.prove('one value per node', s2, EQ(u.len(s2, ret), w.N))
    u.prove('a node without edges keeps the empty sum', s2, IMP(EQ(cnt, 0), EQ(u.at(s2, ret, k), tot)))
    u.prove('average of the edges that touch the node', s2, IMP(NOT(EQ(cnt, 0)), EQ(u.at(s2, ret, k), rdiv(tot, i2r(cnt)))))


@unit(PID, 'EdgeVectorOnNodes', [M + 'EdgeModel.cc'], ['EdgeModel::GetVectorValuesOnNodes'])
def _(u):
    """a node gets, per component, the edge values weighted by the squared direction cosines over the summed direction cosines"""
    ex, st, w, m, me = setup(u, 'Edge', 'EdgeModel')
    D = w.u.get(st, w.f('dimension'), 'i')
    d = fresh('dim')
    st.assume(z3.And(d >= 1, d <= 3))
    u.set(st, w.f('dimension'), 'i', d)
    ux = [w.model('Edge', 'unit' + c) for c in 'xyz']
    ret = Loc(('v', 'ret'))
    s2 = u.run(u.fn('EdgeModel::GetVectorValuesOnNodes', 'GetVectorValuesOnNodes<double>'), [ret, me], st)[1]
    u.sat('mesh', s2)
    k = u.idx(s2, 'k', w.N)
    t = z3.Int('t')
    u.prove('one vector per node', s2, EQ(u.len(s2, ret), w.N))
    for c in range(3):
        ab = ITE(ux[c](t) >= 0, ux[c](t), -ux[c](t))
        on = d > c
        num = SUM(t, ends(w, t, k)(m(t) * ux[c](t) * ab, Fraction(0)), w.NE)
        den = SUM(t, ends(w, t, k)(ab, Fraction(0)), w.NE)
        got = ex.loadk(s2, ret.seg('e', k).plus(8 * c), 'r')
        u.prove('component %s' % 'xyz'[c], s2, IMP(AND(on, LT(0, den)), EQ(got, rdiv(num, den))))
        u.prove('component %s without direction is zero' % 'xyz'[c], s2, IMP(AND(on, LE(den, 0)), EQ(got, zr(0))))
        if c:
            u.prove('component %s outside the dimension is zero' % 'xyz'[c], s2, IMP(NOT(on), EQ(got, zr(0))))


def onnodes(kind, ty, nm):
    cls = kind + 'EdgeModel'
    per = 3 if kind == 'Triangle' else 6

    @unit(PID, '%sValuesOnNodes_%s' % (kind, nm), [M + cls + '.cc'], [cls + '::GetScalarValuesOnNodes'])
    def _(u):
        """element edge values on nodes: sum, average or coupling-weighted average over every element edge that touches the node"""
        ex, st, w, m, me = setup(u, kind + 'Edge', cls)
        n = w.NT if per == 3 else w.NK
        if per == 3:
            te = w.fixed('triangleToEdgeList', n, w.NE, 'triEdge', 3)
            edge = lambda t, j: te(t, j)
        else:
            w.edgedata()
            edge = lambda t, j: w.ed_edge(6 * t + j)
        if nm == 'COUPLE':
            cp = w.model(kind + 'Edge', 'ElementEdgeCouple')
        ret = Loc(('v', 'ret'))
        s2 = u.run(u.fn(cls + '::GetScalarValuesOnNodes', 'GetScalarValuesOnNodes<double>'), [me, ty, ret], st)[1]
        u.sat('mesh', s2)
        k = u.idx(s2, 'k', w.N)
        t, j = z3.Int('t'), z3.Int('j')

        def tot(f, zero):
            s = None
            for q in range(per):
                x = ends(w, edge(t, q), k)(f(per * t + q), zero)
                s = x if s is None else add(s, x)
            return SUM(t, s, n)
        got = u.at(s2, ret, k)
        u.prove('one value per node', s2, EQ(u.len(s2, ret), w.N))
        if nm == 'COUPLE':
            num, den = tot(lambda i: cp(i) * m(i), Fraction(0)), tot(lambda i: cp(i), Fraction(0))
            u.prove('coupling weighted average', s2, IMP(LT(0, den), EQ(got, rdiv(num, den))))
            u.prove('no coupling: zero', s2, IMP(LE(den, 0), EQ(got, zr(0))))
        else:
            v, c = tot(lambda i: m(i), Fraction(0)), tot(lambda i: 1, 0)
            if nm == 'SUM':
                u.prove('sum', s2, EQ(got, v))
            else:
                u.prove('average', s2, IMP(NOT(EQ(c, 0)), EQ(got, rdiv(v, i2r(c)))))
                u.prove('untouched node: empty sum', s2, IMP(EQ(c, 0), EQ(got, v)))


for kind in ('Triangle', 'Tetrahedron'):
    for ty, nm in ((AVERAGE, 'AVERAGE'), (COUPLE, 'COUPLE'), (SUM_, 'SUM')):
        onnodes(kind, ty, nm)


def onelem(kind):
    cls = kind + 'EdgeModel'
    per = 3 if kind == 'Triangle' else 6

    @unit(PID, kind + 'ValuesOnElements', [M + cls + '.cc'], [cls + '::GetScalarValuesOnElements'])
    def _(u):
        """an element gets the mean of the values on its edges"""
        ex, st, w, m, me = setup(u, kind + 'Edge', cls)
        n = w.NT if per == 3 else w.NK
        ret = Loc(('v', 'ret'))
        s2 = u.run(u.fn(cls + '::GetScalarValuesOnElements', 'GetScalarValuesOnElements<double>'), [me, ret], st)[1]
        u.sat('mesh', s2)
        k = u.idx(s2, 'k', n)
        u.prove('one value per element', s2, EQ(u.len(s2, ret), n))
        u.prove('mean of the edge values', s2, EQ(u.at(s2, ret, k), sum(m(per * k + q) for q in range(per)) / per))


onelem('Triangle')
onelem('Tetrahedron')

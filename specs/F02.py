from spec import *
from world import World
import names
PID = 'F02'
LEVEL = 'proof'
NATIVE = 'F02'
BOUNDED = [('gradient', ['VectorGradient::calc2d (avoidzero)', 'VectorGradient::calc3d (avoidzero)'], 'elements to skip are marked through a scatter over the lists of symbolic nodes')]
M = 'models/'
GEO = 'Geometry/'
CH = 'xyz'


def setup(u, dim):
    ex = u.fresh_exec()
    st = State()
    return ex, st, World(u, st, dim)


def elem(dim):
    return 'Triangle' if dim == 2 else 'Tetrahedron'


# ------------------------------------------------------------------ models that store the field, one value per element edge
def fieldmodel(cls, dim, form, pair, der):
    """form: which datum the field is taken of ('edge' model or 'element' model)"""
    E = elem(dim)
    ns, nn = (3, 3) if dim == 2 else (6, 4)
    sub = E + 'EdgeSubModel'

    @unit(PID, cls, [M + cls + '.cc'], [cls + '::derived_init', cls + '::calc%sEdgeScalarValues' % E])
    def _(u):
        """each component of the element field is stored under its own name at its own element edge, and follows the models it is computed from"""
        ex, st, w = setup(u, dim)
        c = cls + '<double>'
        kind = E + 'Edge'
        base = w.KINDS[kind][0]
        comps = CH[:dim]
        outs = {}
        src = ['F:V@n0', 'F:V@n1'] if der else ['F']
        for p in ((0, 1) if pair else (None,)):
            for cc in range(dim):
                for d in (range(nn) if der else (None,)):
                    nm = 'F' + ('' if p is None else '_node%d' % p) + '_' + comps[cc] + ('' if d is None else ':V@en%d' % d)
                    outs[nm] = (p, cc, d)
        first = list(outs)[0]
        me = w.this(c, ex.strlit(first))
        for nm in outs:
            w.model(kind, nm)
        if dim == 2:
            w.model(kind, 'ElementEdgeCouple')
        for s in src:
            w.model('Edge' if form == 'edge' else kind, s)
        if der:
            w.model('Edge', 'F')
        # registration and sub models
        reg = lambda k, what: Loc(('v', what), ((0, 'c', k),), 0)
        for q in ('registered', 'created'):
            u.family(reg(0, q), 'i', lambda *ix: 0)

        def mark(what, n):
            def h(ex, st, ins, a):
                code = norm(ex.loadk(st, a[n], 's'))
                if not isinstance(code, int):
                    raise Unsupported('computed name')
                ex.storek(st, reg(code, what), 'i', 1)
                if what == 'created':
                    ex.storek(st, a[0], 'p', ref(ex.rootcls(base), code))
            return h
        C = ex.contracts.insert
        C(0, (base + '::RegisterCallback', mark('registered', 1)))
        C(0, (lambda m, dn, sn: sub in dn and (sn.endswith('::Create' + sub) or sn == 'dsModelFactory::create'), mark('created', 1)))
        C(0, (lambda m, dn, sn: sn in (base + '::GetSelfPtr', base + '::GetConstSelfPtr'), lambda ex, st, ins, a: ex.storek(st, a[0], 'p', me)))
        # the element field, by contract: a function of the element, the models and the position
        V = lambda p, d, s, cc: z3.Function('field_%s_%s_%d_%d' % (p, d, s, cc), I, R)
        fld = Loc(('v', 'field'))
        ex.contracts.append((lambda m, dn, sn: sn == 'Region::Get%sElementField' % E, lambda ex, st, ins, a: fld))
        codes = [ex.strlit(s) for s in src]

        def get(ex, st, ins, a):
            ps = names.params(ins['dn'])
            ms = [(t, x) for t, x in zip(ps, a[1:]) if 'Model const&' in t]
            if dim == 2:
                ex.oblige(st, 'weighted by the element couplings', EQ(ms[0][1].rid, ex.strlit('ElementEdgeCouple')))
                ms = ms[1:]
            want = 'EdgeModel const&' if form == 'edge' else base + ' const&'
            if [t.strip() for t, _ in ms] != [want] * len(src):
                raise Unsupported('field of unexpected models: %s' % [t for t, _ in ms])
            ex.oblige(st, 'the field is taken of the named model' + ('s, first node then second' if der else ''), AND(*[EQ(x.rid, k) for (_, x), k in zip(ms, codes)]))
            el = a[1].rid
            res = [x for t, x in zip(ps, a[1:]) if 'array' in t]
            for p, loc in enumerate(res):
                for d in (range(nn) if der else (None,)):
                    for s in range(ns):
                        for cc in range(3):
                            v = V(p if pair else None, d, s, cc)(zi(el)) if cc < dim else Fraction(0)
                            ex.storek(st, loc.plus((0 if d is None else d * ns * 24) + s * 24 + 8 * cc), 'r', v)
        ex.contracts.append((lambda m, dn, sn: sn == '%sElementField::Get%sElementField%s' % (E, E, 'Pairs' if pair else ''), get))
        for m_ in ('edgeModelName', 'elementEdgeModelName'):
            try:
                u.set(st, ex.fld(me, c, m_), 's', ex.strlit('F'))
            except Unsupported:
                pass
        if der:
            u.set(st, ex.fld(me, c, 'nodeModelName'), 's', ex.strlit('V'))
        if cls.startswith('VectorT') or not pair and not der:
            for cc in range(1, dim):
                u.set(st, ex.fld(me, c, CH[cc] + '_ModelName'), 's', ex.strlit('F_' + CH[cc]))
        s1 = u.run(u.fn(cls + '::derived_init', c), [me], st)[1]
        u.sat('initialised', s1)
        for s in src:
            u.prove('signalled by ' + s, s1, EQ(u.get(s1, reg(ex.strlit(s), 'registered'), 'i'), 1))
        for nm in outs:
            if nm != first:
                u.prove('creates ' + nm, s1, EQ(u.get(s1, reg(ex.strlit(nm), 'created'), 'i'), 1))
        s2 = u.run(u.fn(cls + '::calc%sEdgeScalarValues' % E, c), [me], s1)[1]
        u.sat('computed', s2)
        k = u.idx(s2, 'k', w.NT if dim == 2 else w.NK)
        for nm, (p, cc, d) in outs.items():
            o = ref(ex.rootcls(base), ex.strlit(nm))
            u.prove('one value per element edge: ' + nm, s2, EQ(w.reslen(s2, o), ns * (w.NT if dim == 2 else w.NK)))
            for s in range(ns):
                u.prove('%s at element edge %d' % (nm, s), s2, EQ(w.res(s2, norm(ns * k + s), o), V(p, d, s, cc)(k)))


for _d in (2, 3):
    _e = elem(_d)
    fieldmodel(_e + 'EdgeFromEdgeModel', _d, 'edge', False, False)
    fieldmodel('Vector%sEdgeModel' % _e, _d, 'element', False, False)
    fieldmodel(_e + 'EdgePairFromEdgeModel', _d, 'edge', True, False)
    fieldmodel(_e + 'EdgeFromEdgeModelDerivative', _d, 'edge', False, True)
    fieldmodel(_e + 'EdgePairFromEdgeModelDerivative', _d, 'edge', True, True)


# ------------------------------------------------------------------ small dense systems, by contract
def entry(ex, p, r):
    """element r of the array of doubles p points to"""
    p = ex.raw(p)
    if p.segs and p.segs[-1][1] == 'e' and p.off == 0:
        o, k, i = p.segs[-1]
        return Loc(p.root, p.segs[:-1] + ((o, k, norm(i + r)),), 0)
    return p.plus(8 * r)


def solution(A, b):
    """the solution of A x = b, a function of A and b"""
    n = len(b)
    return [z3.Function('solution%d_%d' % (n, c), *([R] * (n * n + n + 1)))(*([zr(e) for r in A for e in r] + [zr(e) for e in b])) for c in range(n)]


def dense(u, st, ex, n, facts=True):
    """dsMath::DenseMatrix<double> (LAPACK or Eigen behind it), by contract: a matrix starts as zeros; operator() addresses entry (r, c); solving
    replaces the right hand side by a vector x with A x = b when the matrix is invertible, and says whether it is"""
    root = ex.rootcls('dsMath::DenseMatrix<double>')
    cnt = Loc(('v', 'matrices'))
    ex.storek(st, cnt, 'i', 0)
    A = lambda k, r, c: Loc(('v', 'A'), ((0, 'c', k), ), 8 * (n * r + c))
    OK = z3.Function('invertible', I, z3.BoolSort())
    for r in range(n):
        for c in range(n):
            u.family(A(0, r, c), 'r', lambda *ix: Fraction(0))
    calls = []

    def new(ex, st, ins, a):
        k = ex.loadk(st, cnt, 'i')
        ex.storek(st, cnt, 'i', norm(k + 1))
        return ref(root, k)

    def at(ex, st, ins, a):
        r, c = norm(a[1]), norm(a[2])
        if not (isinstance(r, int) and isinstance(c, int)):
            raise Unsupported('matrix entry at an unknown position')
        ex.oblige(st, 'a position of the matrix', 0 <= r < n and 0 <= c < n)
        return A(a[0].rid, r, c)

    def solve(ex, st, ins, a):
        k = a[0].rid
        b = [ex.loadk(st, entry(ex, a[1], r), 'r') for r in range(n)]
        M_ = [[ex.loadk(st, A(k, r, c), 'r') for c in range(n)] for r in range(n)]
        ok = OK(zi(k))
        x = solution(M_, b)
        calls.append((k, M_, b, x, ok))
        for r in range(n):
            if facts:
                e = Fraction(0)
                for c in range(n):
                    e = norm(e + norm(M_[r][c] * x[c]))
                st.assume(IMP(ok, EQ(e, b[r])))
            ex.storek(st, entry(ex, a[1], r), 'r', ITE(ok, x[r], b[r]))
        return ok
    nm = 'dsMath::DenseMatrix::'
    C = ex.contracts.append
    C((lambda m, dn, sn: sn in ('operatornew', 'operator new'), new))
    C((lambda m, dn, sn: sn == nm + 'DenseMatrix', lambda ex, st, ins, a: None))
    C((lambda m, dn, sn: sn == nm + 'operator()', at))
    C((lambda m, dn, sn: sn == nm + 'LUFactor', lambda ex, st, ins, a: OK(zi(a[0].rid))))
    C((lambda m, dn, sn: sn == nm + 'Solve', solve))
    return calls


def gradient(dim):
    E = elem(dim)
    c = 'GradientField<double>'

    @unit(PID, 'gradient in a ' + E.lower(), [GEO + 'GradientField.cc'], ['GradientField::GetGradient(%s)' % E, 'GradientField::CalcMatrices%dd' % dim])
    def _(u):
        """the gradient reproduces the differences of the node values between the element's nodes, for a first and for a later call"""
        ex, st, w = setup(u, dim)
        calls = dense(u, st, ex, 3)
        me = ref(ex.rootcls(c), 0)
        u.set(st, ex.fld(me, c, 'myregion_'), 'p', w.R)
        u.set(st, ex.fld(me, c, 'dense_mats_').mark('len'), 'i', 0)
        ne = w.NT if dim == 2 else w.NK
        xs = [w.model('Node', q) for q in CH[:dim]]
        mv = {q: m for q, m in zip(CH, xs)}
        mv['V'] = w.model('Node', 'V')
        nmod = ref(ex.rootcls('NodeModel'), ex.strlit('V'))
        val = lambda q, k, r: mv[q](tn(zi(k), zi(r)))
        tn = w.elnodes(E, dim + 1, ne)
        k1 = u.idx(st, 'first', ne)
        k2 = u.idx(st, 'later', ne)
        f = [g for g in u.prog.funcs.values() if names.strip(g['dn']) == 'GradientField::GetGradient' and E + ' const&' in g['dn'] and 'double>' in g['dn']][0]
        s = st
        for k, what in ((k1, 'first call'), (k2, 'later call')):
            out = Loc(('v', 'out' + what))
            s = u.run(f, [out, me, ref(ex.rootcls(E), k), nmod], s)[1]
            u.sat(what, s)
            g = [u.get(s, out.plus(8 * q), 'r') for q in range(3)]
            ok = calls[-1][4]
            for r in range(1, dim + 1):
                d = Fraction(0)
                for q in range(dim):
                    d = norm(d + norm(g[q] * norm(val(CH[q], k, r) - val(CH[q], k, 0))))
                u.prove('%s: difference along the edge to node %d' % (what, r), s, IMP(ok, EQ(d, norm(val('V', k, r) - val('V', k, 0)))))
            for q in range(3):
                u.prove('%s: no gradient (%s) in a degenerate element' % (what, CH[q]), s, OR(ok, EQ(g[q], Fraction(0))))
            u.prove('%s: one matrix per element' % what, s, EQ(u.get(s, ex.fld(me, c, 'dense_mats_').mark('len'), 'i'), ne))
    return _


gradient(2)
gradient(3)


# ------------------------------------------------------------------ gradient of a node model, averaged over the elements at each node
def average(dim, avoid):
    c = 'VectorGradient<double>'
    E = {1: 'Edge', 2: 'Triangle', 3: 'Tetrahedron'}[dim]

    @unit(PID, 'vector_gradient %dD %s' % (dim, 'avoidzero' if avoid else 'default'), ['GeomModels/VectorGradient.cc'], ['VectorGradient::calcNodeScalarValues', 'VectorGradient::calc%dd' % dim])
    def _(u):
        """each node gets the plain average of the gradients of the elements that touch it (those next to a zero value left out on request)"""
        ex, st, w = setup(u, dim)
        ne = {1: w.NE, 2: w.NT, 3: w.NK}[dim]
        ln, idf = w.adj('nodeTo%sList' % E, w.N, ne, 'at')
        V = w.model('Node', 'V')
        if dim == 1:
            ux, il = w.model('Edge', 'unitx'), w.model('Edge', 'EdgeInverseLength')
            G = [lambda e: norm(norm(ux(e) * il(e)) * norm(V(w.tail(e)) - V(w.head(e))))]
        else:
            gf = Loc(('v', 'gradients'))
            F = [z3.Function('grad_' + q, I, R) for q in CH[:dim]]
            G = [lambda e, f=f: f(e) for f in F]

            def get(ex, st, ins, a):
                ex.oblige(st, 'gradient of the named model', EQ(a[3].rid, ex.strlit('V')))
                for q in range(3):
                    ex.storek(st, a[0].plus(8 * q), 'r', F[q](zi(a[2].rid)) if q < dim else Fraction(0))
            ex.contracts.append((lambda m, dn, sn: sn == 'Region::GetGradientField', lambda ex, st, ins, a: gf))
            ex.contracts.append((lambda m, dn, sn: sn == 'GradientField::GetGradient', get))
        for q in CH[1:dim]:
            w.model('Node', 'V_grad' + q)
        me = w.this(c, ex.strlit('V_gradx'))
        w.model('Node', 'V_gradx')
        u.set(st, ex.fld(me, c, 'parentname_'), 's', ex.strlit('V'))
        u.set(st, ex.fld(me, c, 'calctype_'), 'i', 1 if avoid else 0)
        for q in CH[1:dim]:
            u.set(st, ex.fld(me, c, q + 'field_'), 'p', ref(ex.rootcls('NodeModel'), ex.strlit('V_grad' + q)))
        s2 = u.run(u.fn('VectorGradient::calcNodeScalarValues', c), [me], st)[1]
        u.sat('averaged', s2)
        k = u.idx(s2, 'k', w.N)
        J = z3.Int('J')
        keep = lambda e: True
        if avoid and dim == 1:
            keep = lambda e: AND(NOT(EQ(V(w.head(e)), Fraction(0))), NOT(EQ(V(w.tail(e)), Fraction(0))))
        cnt = SUM(J, ITE(keep(idf(zi(k), J)), 1, 0), ln(zi(k)))
        for q in range(dim):
            o = ref(ex.rootcls('NodeModel'), ex.strlit('V_grad' + CH[q]))
            u.prove('one value per node (%s)' % CH[q], s2, EQ(w.reslen(s2, o), w.N))
            tot = SUM(J, ITE(keep(idf(zi(k), J)), G[q](idf(zi(k), J)), Fraction(0)), ln(zi(k)))
            r = w.res(s2, k, o)
            u.prove('average at a node (%s)' % CH[q], s2, IMP(NOT(EQ(cnt, 0)), EQ(norm(r * zr(cnt)), tot)))
            u.prove('nothing at a node without elements (%s)' % CH[q], s2, OR(NOT(EQ(cnt, 0)), EQ(r, Fraction(0))))


for _d in (1, 2, 3):
    average(_d, False)
average(1, True)


# ------------------------------------------------------------------ element field in a triangle
def trifield(form, pair, der):
    c = 'TriangleElementField<double>'
    what = ('derivative ' if der else '') + ('pairs' if pair else 'field') + ' from ' + form + ' model'
    fname = 'GetTriangleElementField' + ('Pairs' if pair else '')

    @unit(PID, 'triangle ' + what, [GEO + 'TriangleElementField.cc'], ['TriangleElementField::' + fname, 'TriangleElementField::GetFieldPairs' if not der else 'TriangleElementField::GetDerivativeFieldPairs',
          'TriangleElementField::GetEdgePairVectors' if not der else 'TriangleElementField::GetDerivativeEdgePairVectors', 'TriangleElementField::CalcMatrices'])
    def _(u):
        """at each corner the field solves for the projections along the corner's two edges; an element edge has the corner fields of its two nodes, weighted by the couplings of the other edges"""
        ex, st, w = setup(u, 2)
        dense(u, st, ex, 2, False)
        me = ref(ex.rootcls(c), 0)
        u.set(st, ex.fld(me, c, 'myregion_'), 'p', w.R)
        u.set(st, ex.fld(me, c, 'dense_mats_').mark('len'), 'i', 0)
        te = w.fixed('triangleToEdgeList', w.NT, w.NE, 'triEdge', 3)
        tn = w.elnodes('Triangle', 3, w.NT)
        t = z3.Int('t')
        for i in range(3):
            a, b = [q for q in range(3) if q != i]
            e = te(t, i)
            st.assume(z3.ForAll([t], z3.Implies(z3.And(0 <= t, t < w.NT), z3.Or(z3.And(w.head(e) == tn(t, a), w.tail(e) == tn(t, b)), z3.And(w.head(e) == tn(t, b), w.tail(e) == tn(t, a)))), patterns=[e]))
        st.assume(z3.ForAll([t], z3.Implies(z3.And(0 <= t, t < w.NT), z3.Distinct(tn(t, 0), tn(t, 1), tn(t, 2))), patterns=[te(t, 0)]))
        ux, uy = w.model('Edge', 'unitx'), w.model('Edge', 'unity')
        cpl = w.model('TriangleEdge', 'ElementEdgeCouple')
        kind = 'Edge' if form == 'edge' else 'TriangleEdge'
        base = kind + 'Model'
        src = ['F0', 'F1'] if der else ['F']
        ms = [w.model(kind, q) for q in src]
        k = u.idx(st, 'k', w.NT)
        for i in range(3):      # the mesh facts, at this triangle
            a, b = [q for q in range(3) if q != i]
            e = te(zi(k), i)
            st.assume(z3.Or(z3.And(w.head(e) == tn(k, a), w.tail(e) == tn(k, b)), z3.And(w.head(e) == tn(k, b), w.tail(e) == tn(k, a))))
        st.assume(z3.Distinct(tn(k, 0), tn(k, 1), tn(k, 2)))
        ets = ['Triangle const&', 'TriangleEdgeModel const&'] + [base + ' const&'] * len(src)
        f = [g for g in u.prog.funcs.values() if names.strip(g['dn']) == 'TriangleElementField::' + fname and 'TriangleElementField<double>' in g['dn'] and [x.strip() for x in names.params(g['dn'])][:-1 - pair] == ets][0]
        outs = [Loc(('v', 'out%d' % q)) for q in range(1 + pair)]
        args = [me, ref(ex.rootcls('Triangle'), k), ref(ex.rootcls('TriangleEdgeModel'), ex.strlit('ElementEdgeCouple'))] + [ref(ex.rootcls(base), ex.strlit(q)) for q in src] + outs
        s2 = u.run(f, args, st)[1]
        u.sat('field', s2)
        ed = [te(zi(k), i) for i in range(3)]
        nd = [tn(zi(k), i) for i in range(3)]

        def corner(m, d):
            """field at corner m (its edges are the two others); derivative with respect to corner d"""
            i, j = [q for q in range(3) if q != m]
            b = []
            for q in (i, j):
                if der:
                    b.append(ITE(EQ(w.head(ed[q]), nd[d]), ms[0](ed[q]), ITE(EQ(w.tail(ed[q]), nd[d]), ms[1](ed[q]), Fraction(0))))
                else:
                    b.append(ms[0](ed[q]) if form == 'edge' else ms[0](3 * k + q))
            return solution([[ux(ed[i]), uy(ed[i])], [ux(ed[j]), uy(ed[j])]], b)
        for i in range(3):
            a, b = [q for q in range(3) if q != i]
            for h in (True, False):      # either orientation of the edge
                s3, sfx = s2.copy(), '' if h else ', reversed'
                s3.assume(z3.And(w.head(ed[i]) == nd[a if h else b], w.tail(ed[i]) == nd[b if h else a]))
                for d in (range(3) if der else (None,)):
                    col = lambda m, q: corner(m, None)[q] if d is None else (corner(m, i)[q] if d == 2 else ITE(h, corner(m, (a, b)[d])[q], corner(m, (b, a)[d])[q]))
                    for q in range(2):
                        off = (0 if d is None else d * 72) + 24 * i + 8 * q
                        nm = 'element edge %d%s (%s)' % (i, '' if d is None else ', derivative %d' % d, CH[q])
                        va, vb = col(a, q), col(b, q)
                        if pair:
                            u.prove('first node, ' + nm + sfx, s3, EQ(u.get(s3, outs[0].plus(off), 'r'), ITE(h, va, vb)))
                            u.prove('second node, ' + nm + sfx, s3, EQ(u.get(s3, outs[1].plus(off), 'r'), ITE(h, vb, va)))
                        else:
                            wa, wb = cpl(3 * k + b), cpl(3 * k + a)
                            u.prove('weighted field, ' + nm + sfx, s3, EQ(u.get(s3, outs[0].plus(off), 'r'), norm(norm(norm(va * wa) + norm(vb * wb)) / norm(wa + wb))))
                    off = (0 if d is None else d * 72) + 24 * i + 16
                    for p in range(1 + pair):
                        u.prove('no third component %d, edge %d%s' % (p, i, '' if d is None else ', derivative %d' % d) + sfx, s3, EQ(u.get(s3, outs[p].plus(off), 'r'), Fraction(0)))


for _q in (('edge', False, False), ('element', False, False), ('edge', True, False), ('edge', False, True), ('edge', True, True)):
    trifield(*_q)


# ------------------------------------------------------------------ element field in a tetrahedron
PAIRS = ((0, 1), (0, 2), (0, 3), (1, 2), (1, 3), (2, 3))


TC = 'TetrahedronElementField<double>'


def tetmesh(u):
    ex, st, w = setup(u, 3)
    dense(u, st, ex, 3, False)
    me = ref(ex.rootcls(TC), 0)
    u.set(st, ex.fld(me, TC, 'myregion_'), 'p', w.R)
    u.set(st, ex.fld(me, TC, 'dense_mats_').mark('len'), 'i', 0)
    w.edgedata()
    tn = w.elnodes('Tetrahedron', 4, w.NK)
    t = z3.Int('t')
    rng = z3.And(0 <= t, t < w.NK)
    for j, (a, b) in enumerate(PAIRS):
        r = 6 * t + j
        e = w.ed_edge(r)
        o = [q for q in range(4) if q not in (a, b)]
        st.assume(z3.ForAll([t], z3.Implies(rng, z3.Or(z3.And(w.head(e) == tn(t, a), w.tail(e) == tn(t, b)), z3.And(w.head(e) == tn(t, b), w.tail(e) == tn(t, a)))), patterns=[e]))
        st.assume(z3.ForAll([t], z3.Implies(rng, z3.And(w.ed_op[0](r) == tn(t, o[0]), w.ed_op[1](r) == tn(t, o[1]))), patterns=[w.ed_op[0](r)]))
    st.assume(z3.ForAll([t], z3.Implies(rng, z3.Distinct(*[tn(t, q) for q in range(4)])), patterns=[w.ed_edge(6 * t)]))
    k = u.idx(st, 'k', w.NK)
    for j, (a, b) in enumerate(PAIRS):      # the mesh facts, at this tetrahedron
        r = 6 * zi(k) + j
        e = w.ed_edge(r)
        o = [q for q in range(4) if q not in (a, b)]
        st.assume(z3.Or(z3.And(w.head(e) == tn(k, a), w.tail(e) == tn(k, b)), z3.And(w.head(e) == tn(k, b), w.tail(e) == tn(k, a))))
        st.assume(z3.And(w.ed_op[0](r) == tn(k, o[0]), w.ed_op[1](r) == tn(k, o[1])))
    st.assume(z3.Distinct(*[tn(k, q) for q in range(4)]))
    ed = [w.ed_edge(6 * zi(k) + i) for i in range(6)]
    nd = [tn(zi(k), i) for i in range(4)]
    return ex, st, w, me, k, ed, nd


def around(m):
    """the edges that meet at corner m"""
    return [j for j in range(6) if m in PAIRS[j]]


@unit(PID, 'tetrahedron derivatives at the corners', [GEO + 'TetrahedronElementField.cc'], ['TetrahedronElementField::GetDerivativeNodeVectors', 'TetrahedronElementField::CalcMatrices'])
def _(u):
    """the derivative, with respect to corner j, of the field at corner i solves for the derivatives of the projections along the edges at corner i"""
    ex, st, w, me, k, ed, nd = tetmesh(u)
    un = [w.model('Edge', 'unit' + q) for q in CH]
    v = []
    for q in range(2):
        l = Loc(('v', 'evals%d' % q))
        f = z3.Function('evals%d' % q, I, R)
        u.set(st, l.mark('len'), 'i', w.NE)
        u.family(l.seg('e', 0), 'r', lambda *ix, f=f: f(zi(ix[-1])))
        v.append((l, f))
    r, s2 = u.run(u.fn('TetrahedronElementField::GetDerivativeNodeVectors', TC), [me, ref(ex.rootcls('Tetrahedron'), k), v[0][0], v[1][0]], st)
    u.sat('any', s2)
    dm = ex.fld(me, TC, 'dense_mats_').seg('e', k)
    for i in range(4):
        es = around(i)
        for m in range(3):
            u.prove('edge %d at corner %d' % (m, i), s2, EQ(u.get(s2, dm.plus(24 * i + 8 * m), 'i'), es[m]))
        for j in range(4):
            b = [ITE(EQ(w.head(ed[q]), nd[j]), v[0][1](ed[q]), ITE(EQ(w.tail(ed[q]), nd[j]), v[1][1](ed[q]), Fraction(0))) for q in es]
            sol = solution([[un[x](ed[q]) for x in range(3)] for q in es], b)
            for q in range(3):
                u.prove('corner %d, derivative %d (%s)' % (i, j, CH[q]), s2, EQ(u.get(s2, r.plus(96 * i + 24 * j + 8 * q), 'r'), sol[q]))


def tetfield(form, pair, der):
    c = TC
    what = ('derivative ' if der else '') + ('pairs' if pair else 'field') + ' from ' + form + ' model'
    fname = 'GetTetrahedronElementField' + ('Pairs' if pair else '')

    @unit(PID, 'tetrahedron ' + what, [GEO + 'TetrahedronElementField.cc'], ['TetrahedronElementField::' + fname, 'TetrahedronElementField::GetFieldPairs' if not der else 'TetrahedronElementField::GetDerivativeFieldPairs',
          ] + ([] if der else ['TetrahedronElementField::GetNodeVectors', 'TetrahedronElementField::CalcMatrices']))
    def _(u):
        """at each corner the field solves for the projections along the corner's three edges; an element edge has the plain average of the fields of its two nodes"""
        ex, st, w, me, k, ed, nd = tetmesh(u)
        un = [w.model('Edge', 'unit' + q) for q in CH]
        kind = 'Edge' if form == 'edge' else 'TetrahedronEdge'
        base = kind + 'Model'
        src = ['F0', 'F1'] if der else ['F']
        ms = [w.model(kind, q) for q in src]
        ets = ['Tetrahedron const&'] + [base + ' const&'] * len(src)
        f = [g for g in u.prog.funcs.values() if names.strip(g['dn']) == 'TetrahedronElementField::' + fname and c in g['dn'] and [x.strip() for x in names.params(g['dn'])][:-1 - pair] == ets][0]
        outs = [Loc(('v', 'out%d' % q)) for q in range(1 + pair)]
        nv = [[[z3.Real('NV%d_%d_%d' % (i, j, q)) for q in range(3)] for j in range(4)] for i in range(4)]
        if der:
            # contract of GetDerivativeNodeVectors (proved above)
            def derivatives(ex, st, ins, args):
                l, dm = Loc(('v', 'nodeVectors')), ex.fld(me, TC, 'dense_mats_').seg('e', k)
                ex.storek(st, ex.fld(me, TC, 'dense_mats_').mark('len'), 'i', w.NK)
                for i in range(4):
                    for m in range(3):
                        ex.storek(st, dm.plus(24 * i + 8 * m), 'i', around(i)[m])
                    for j in range(4):
                        for q in range(3):
                            ex.storek(st, l.plus(96 * i + 24 * j + 8 * q), 'r', nv[i][j][q])
                return l
            ex.contracts.append(('TetrahedronElementField::GetDerivativeNodeVectors', derivatives))
        s2 = u.run(f, [me, ref(ex.rootcls('Tetrahedron'), k)] + [ref(ex.rootcls(base), ex.strlit(q)) for q in src] + outs, st)[1]
        u.sat('field', s2)

        def corner(m, d):
            if der:
                return nv[m][d]
            es = around(m)
            b = [ms[0](ed[q]) if form == 'edge' else ms[0](6 * k + q) for q in es]
            return solution([[un[x](ed[q]) for x in range(3)] for q in es], b)
        for i, (a, b) in enumerate(PAIRS):
            o = [q for q in range(4) if q not in (a, b)]
            for h in (True, False):      # either orientation of the edge
                s3, sfx = s2.copy(), '' if h else ', reversed'
                s3.assume(z3.And(w.head(ed[i]) == nd[a if h else b], w.tail(ed[i]) == nd[b if h else a]))
                for d in (range(4) if der else (None,)):
                    def col(m, q):
                        if d is None:
                            return corner(m, None)[q]
                        if d >= 2:
                            return corner(m, o[d - 2])[q]
                        return ITE(h, corner(m, (a, b)[d])[q], corner(m, (b, a)[d])[q])
                    for q in range(3):
                        off = (0 if d is None else d * 144) + 24 * i + 8 * q
                        nm = 'element edge %d%s (%s)' % (i, '' if d is None else ', derivative %d' % d, CH[q])
                        va, vb = col(a, q), col(b, q)
                        if pair:
                            u.prove('first node, ' + nm + sfx, s3, EQ(u.get(s3, outs[0].plus(off), 'r'), ITE(h, va, vb)))
                            u.prove('second node, ' + nm + sfx, s3, EQ(u.get(s3, outs[1].plus(off), 'r'), ITE(h, vb, va)))
                        else:
                            u.prove('average field, ' + nm + sfx, s3, EQ(u.get(s3, outs[0].plus(off), 'r'), norm(norm(va + vb) / 2)))


for _q in (('edge', False, False), ('element', False, False), ('edge', True, False), ('edge', False, True), ('edge', True, True)):
    tetfield(*_q)

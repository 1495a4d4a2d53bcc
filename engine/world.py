"""Symbolic simulation domain shared by the specifications: a region with its mesh, its models (by contract) and output capture.

Objects are named by their index: node i, edge i, triangle i, tetrahedron i are the i-th of the region's lists, and their
index members say so (the region indexing invariant, itself proved in properties G03)."""
import z3
from spec import *
from vc import ref, Loc, NULL, Fn
import names


def ident(i):
    return zi(i)


class World:
    def __init__(self, u, st, dim, scalardata=True):
        self.u, self.st, self.ex, self.dim = u, st, u.ex, dim
        ex = u.ex
        self.R = ex.obj('Region')
        self.N, self.NE = fresh('numNodes'), fresh('numEdges')
        self.NT, self.NK = fresh('numTriangles'), fresh('numTetrahedra')
        for n in (self.N, self.NE, self.NT, self.NK):
            st.assume(n >= 0)
        R = self.R
        f = lambda m: ex.fld(R, 'Region', m)
        self.f = f
        if dim is not None:
            u.set(st, f('dimension'), 'i', dim)
        for m, n, c in (('nodeList', self.N, 'Node'), ('edgeList', self.NE, 'Edge'), ('triangleList', self.NT, 'Triangle'), ('tetrahedronList', self.NK, 'Tetrahedron')):
            u.set(st, f(m).mark('len'), 'i', n)
            u.family(f(m).seg('e', 0), 'p', lambda *ix: norm(zi(ix[-1])))
            if c in ex.prog.classes:
                u.family(self.fam(c, 'index'), 'i', lambda i: norm(zi(i)))
        F = lambda nm, n, s=I: z3.Function(nm, *([I] * n + [s]))
        self.head, self.tail = F('edgeHead', 1), F('edgeTail', 1)
        i = z3.Int('i')
        hp = z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < self.NE), z3.And(0 <= self.head(i), self.head(i) < self.N, 0 <= self.tail(i), self.tail(i) < self.N, self.head(i) != self.tail(i))), patterns=[self.head(i)])
        tp = z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < self.NE), z3.And(0 <= self.head(i), self.head(i) < self.N, 0 <= self.tail(i), self.tail(i) < self.N, self.head(i) != self.tail(i))), patterns=[self.tail(i)])
        st.assume(hp)
        st.assume(tp)
        try:
            e = self.fam('Edge', 'nodes')
            u.family(e.mark('len'), 'i', lambda i: 2)
            u.family(e.seg('e', 0), 'p', lambda i, k: ITE(EQ(k, 0), self.head(zi(i)), self.tail(zi(i))))
        except Unsupported:
            pass
        self.models = {}
        self.pos = [F('node_%s' % c, 1, R_) for c, R_ in zip('xyz', [z3.RealSort()] * 3)]
        if 'Node' in ex.prog.classes:
            self.coords()
        self.captured = []
        self.contracts()
        if scalardata:
            import scalardata as sd
            sd.install(self)

    # ------------------------------------------------------------ objects
    def fam(self, cls, member, k=0):
        """location family  <object k of cls>.member"""
        l = ref(self.ex.rootcls(cls), k)
        return self.ex.fld(l, cls, member)

    def node(self, i):
        return ref(self.ex.rootcls('Node'), zi(i))

    def edge(self, i):
        return ref(self.ex.rootcls('Edge'), zi(i))

    def coords(self):
        """node i's coordinate object is coordinate i; position = node_x/y/z(i)"""
        u, ex = self.u, self.ex
        try:
            c = self.fam('Node', 'coord')
        except Unsupported:
            return
        u.family(c, 'p', lambda i: norm(zi(i)))
        try:
            p = self.fam('Coordinate', 'position')
        except Unsupported:
            return
        for k, fx in enumerate(self.pos):
            u.family(p.plus(8 * k), 'r', lambda i, fx=fx: fx(zi(i)))

    def adj(self, member, outer, inner, name, lo=0):
        """list of lists of element pointers: (len(i), id(i,k)), every id in [0,inner)"""
        u, st = self.u, self.st
        ln, idf = z3.Function(name + '_len', I, I), z3.Function(name, I, I, I)
        l = self.f(member)
        u.set(st, l.mark('len'), 'i', outer)
        e = l.seg('e', 0)
        u.family(e.mark('len'), 'i', lambda *ix: ln(zi(ix[-1])))
        u.family(e.seg('e', 0), 'p', lambda *ix: idf(zi(ix[-2]), zi(ix[-1])))
        i, k = z3.Ints('i k')
        st.assume(z3.ForAll([i], ln(i) >= 0, patterns=[ln(i)]))
        st.assume(z3.ForAll([i, k], z3.Implies(z3.And(0 <= i, i < outer, 0 <= k, k < ln(i)), z3.And(0 <= idf(i, k), idf(i, k) < inner)), patterns=[idf(i, k)]))
        return ln, idf

    def fixed(self, member, outer, inner, name, cnt):
        """list of fixed-length lists (triangle -> 3 edges)"""
        u, st = self.u, self.st
        idf = z3.Function(name, I, I, I)
        l = self.f(member)
        u.set(st, l.mark('len'), 'i', outer)
        e = l.seg('e', 0)
        u.family(e.mark('len'), 'i', lambda *ix: cnt)
        u.family(e.seg('e', 0), 'p', lambda *ix: idf(zi(ix[-2]), zi(ix[-1])))
        i, k = z3.Ints('i k')
        st.assume(z3.ForAll([i, k], z3.Implies(z3.And(0 <= i, i < outer, 0 <= k, k < cnt), z3.And(0 <= idf(i, k), idf(i, k) < inner)), patterns=[idf(i, k)]))
        return idf

    # ------------------------------------------------------------ models by contract
    KINDS = {'Node': ('NodeModel', 'N'), 'Edge': ('EdgeModel', 'NE'), 'TriangleEdge': ('TriangleEdgeModel', 'NT3'), 'TetrahedronEdge': ('TetrahedronEdgeModel', 'NK6')}

    def elnodes(self, cls, cnt, n):
        """node list of element k (Triangle: 3, Tetrahedron: 4 nodes), all in the mesh"""
        tn = z3.Function(cls.lower() + 'Node', I, I, I)
        v = self.fam(cls, 'nodes')
        self.u.family(v.mark('len'), 'i', lambda *ix: cnt)
        self.u.family(v.seg('e', 0), 'p', lambda *ix: norm(tn(zi(ix[-2]), zi(ix[-1]))))
        i, j = z3.Ints('i j')
        self.st.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < n, 0 <= j, j < cnt), z3.And(0 <= tn(i, j), tn(i, j) < self.N)), patterns=[tn(i, j)]))
        return tn

    def size_of(self, kind):
        return {'N': self.N, 'NE': self.NE, 'NT3': 3 * self.NT, 'NK6': 6 * self.NK}[self.KINDS[kind][1]]

    def model(self, kind, name, exists=True):
        """declare a model; returns its value function (index -> real)"""
        code = self.ex.strlit(name)
        fn = z3.Function('%sModel_%s' % (kind, name), I, R)
        self.models[(kind, code)] = fn if exists else None
        # a uniform model has the same value everywhere
        i = z3.Int('i')
        self.st.assume(z3.Implies(self.uni(kind, code), z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < self.size_of(kind)), fn(i) == self.uval(kind)(code)), patterns=[fn(i)])))
        return fn

    def vals(self, kind, code):
        return Loc(('mv', kind), ((0, 'mv', code),), 0)

    def contracts(self):
        ex, u = self.ex, self.u
        for kind, (cls, _) in self.KINDS.items():
            ex.contracts.append(('Region::Get%sModel' % kind, self.lookup(kind, cls)))
            ex.contracts.append((lambda m, dn, sn, cls=cls: sn == cls + '::GetScalarValues', self.values(kind)))
            ex.contracts.append((lambda m, dn, sn, cls=cls: sn == cls + '::SetValues', self.setvalues(kind)))
            ex.contracts.append((lambda m, dn, sn, cls=cls: sn == cls + '::GetLength', lambda ex, st, ins, args, kind=kind: self.size_of(kind)))
            b = self.vals(kind, 0)
            u.family(b.mark('len'), 'i', lambda c, kind=kind: self.size_of(kind))

            def rd(c, i, kind=kind):
                c = norm(c)
                if isinstance(c, int) and self.models.get((kind, c)) is not None:
                    return norm(self.models[(kind, c)](zi(i)))
                return z3.Function('anyModel_' + kind, I, I, R)(zi(c), zi(i))
            u.family(b.seg('e', 0), 'r', rd)
            ex.contracts.append((cls + '::IsUniform', lambda ex, st, ins, args, kind=kind: zi(self.uni(kind, args[0].rid)) if False else ITE(self.uni(kind, args[0].rid), True, False)))
            ex.contracts.append((lambda m, dn, sn, cls=cls: sn == cls + '::GetUniformValue', self.univalue(kind)))
            for q, qv in (('IsZero', 0), ('IsOne', 1)):
                ex.contracts.append((cls + '::' + q, lambda ex, st, ins, args, kind=kind, qv=qv: AND(self.uni(kind, args[0].rid), EQ(self.uval(kind)(zi(args[0].rid)), Fraction(qv)))))
            u.family(Loc(('mu', kind), ((0, 'mv', 0),), 0), 'r', lambda c, kind=kind: self.uval(kind)(zi(c)))
            ex.contracts.append((lambda m, dn, sn, cls=cls: sn in (cls + '::GetRegion',), lambda ex, st, ins, args: self.R))

    def uni(self, kind, code):
        return z3.Function('uniform_' + kind, I, B)(zi(code))

    def uval(self, kind):
        return z3.Function('uniformValue_' + kind, I, R)

    def univalue(self, kind):
        def h(ex, st, ins, args):
            return Loc(('mu', kind), ((0, 'mv', args[0].rid),), 0)
        return h

    def lookup(self, kind, cls):
        def h(ex, st, ins, args):
            ret, name = (args[0], args[2])
            code = norm(ex.loadk(st, name, 's'))
            if not isinstance(code, int):
                raise Unsupported('model looked up by a computed name')
            if (kind, code) in self.models and self.models[(kind, code)] is None:
                ex.storek(st, ret, 'p', NULL)
            elif (kind, code) in self.models:
                ex.storek(st, ret, 'p', ref(ex.rootcls(cls), zi(code)))
            else:
                nm = [k for k, v in ex.strs.items() if v == code]
                raise Unsupported('unexpected %s model requested: %s' % (kind, nm))
            return None
        return h

    def values(self, kind):
        def h(ex, st, ins, args):
            m = args[0]
            if isinstance(m, Loc) and m.isref():
                return self.vals(kind, m.rid)
            raise Unsupported('values of an unknown model')
        return h

    def setvalues(self, kind):
        def h(ex, st, ins, args):
            dn = ins.get('dn', '')
            ps = names.params(dn) if dn else []
            if not ps:
                raise Unsupported('SetValues signature')
            self.captured.append(kind)
            o = self.outloc(kind, args[0])
            if 'vector' in ps[0]:
                import lib
                lib.copy_obj(ex, st, args[1], o, 'std::vector<double>')
                ex.storek(st, o.mark('uniform'), 'i', 0)
            else:
                ex.storek(st, o.mark('uniform'), 'i', 1)
                ex.storek(st, o.mark('value'), 'r', ex.loadk(st, args[1], 'r'))
            return None
        return h

    def outloc(self, kind, m):
        """where the values stored into model object m are captured"""
        if not isinstance(m, Loc) or not m.isref():
            raise Unsupported('values stored into an unknown model')
        return Loc(('out', kind), ((0, 'o', m.rid),), 0)

    def kindof(self, cls):
        r = self.ex.rootcls(cls)
        for k, (c, _) in self.KINDS.items():
            if self.ex.rootcls(c) == r:
                return k
        raise Unsupported('kind of ' + cls)

    def this(self, cls, rid=1000000):
        """the model object whose values are computed"""
        ex = self.ex
        l = ref(ex.rootcls(cls), rid)
        ex.dyn[ex.rootcls(cls)] = cls
        self.me, self.mykind = l, self.kindof(cls)
        return l

    def sub(self, cls, member, rid):
        """a dependent model object written through a weak pointer member of this"""
        t = self.ex.fld(self.me, cls, member)
        l = ref(self.me.root[1], rid)
        self.u.set(self.st, t, 'p', l)
        return l

    def res(self, st, i, obj=None, kind=None):
        return self.u.at(st, self.outloc(kind or self.mykind, obj or self.me), i)

    def reslen(self, st, obj=None, kind=None):
        return self.u.len(st, self.outloc(kind or self.mykind, obj or self.me))

    def isuniform(self, st, obj=None, kind=None):
        return self.u.get(st, self.outloc(kind or self.mykind, obj or self.me).mark('uniform'), 'i')

    def uniformvalue(self, st, obj=None, kind=None):
        return self.u.get(st, self.outloc(kind or self.mykind, obj or self.me).mark('value'), 'r')

    def centers(self, what):
        """contract of Region::Get<what>Centers: one centre per element"""
        n = self.NT if what == 'Triangle' else self.NK
        fs = [z3.Function('%sCenter_%s' % (what, c), I, R) for c in 'xyz']
        v = Loc(('v', what + 'Centers'))
        self.u.set(self.st, v.mark('len'), 'i', n)
        for k, f in enumerate(fs):
            self.u.family(v.seg('e', 0).plus(8 * k), 'r', lambda *ix, f=f: f(zi(ix[-1])))
        self.ex.contracts.append(('Region::Get%sCenters' % what, lambda ex, st, ins, args: v))
        return fs

    def edgedata(self):
        """tetrahedron t has six edge records; record 6t+k names the edge, its two facing triangles and their slots, and the two opposite nodes"""
        u, st, ex = self.u, self.st, self.ex
        l = self.f('tetrahedronToEdgeDataList')
        u.set(st, l.mark('len'), 'i', self.NK)
        e = l.seg('e', 0)
        u.family(e.mark('len'), 'i', lambda *ix: 6)
        rec = lambda t, k: norm(6 * zi(t) + zi(k))
        u.family(e.seg('e', 0), 'p', lambda *ix: rec(ix[-2], ix[-1]))
        F = lambda nm: z3.Function(nm, I, I)
        self.ed_edge, self.ed_ti, self.ed_tr, self.ed_op = F('edEdge'), [F('edTri0'), F('edTri1')], [F('edTriangle0'), F('edTriangle1')], [F('edOpp0'), F('edOpp1')]
        i = z3.Int('i')
        rng = z3.And(0 <= i, i < 6 * self.NK)
        u.family(self.fam('EdgeData', 'edge'), 'p', lambda i: norm(self.ed_edge(zi(i))))
        st.assume(z3.ForAll([i], z3.Implies(rng, z3.And(0 <= self.ed_edge(i), self.ed_edge(i) < self.NE)), patterns=[self.ed_edge(i)]))
        for m, fs, hi in (('triangle_index', self.ed_ti, 4), ('triangle', self.ed_tr, self.NT), ('nodeopp', self.ed_op, self.N)):
            try:
                b = self.fam('EdgeData', m)
            except Unsupported:
                continue
            for k, f in enumerate(fs):
                u.family(b.plus(8 * k), 'i' if m == 'triangle_index' else 'p', lambda i, f=f: norm(f(zi(i))))
                st.assume(z3.ForAll([i], z3.Implies(rng, z3.And(0 <= f(i), f(i) < hi)), patterns=[f(i)]))
        return rec

    def edgeslot(self, what):
        """contract of Region::GetEdgeIndexOn<what>: slot of the edge among the element's edges (proved in R01)"""
        f = z3.Function('edgeSlotOn' + what, I, I, I)
        n = 3 if what == 'Triangle' else 6
        a, b = z3.Ints('a b')
        self.st.assume(z3.ForAll([a, b], z3.And(0 <= f(a, b), f(a, b) < n), patterns=[f(a, b)]))

        def h(ex, st, ins, args):
            t, e = args[1], args[2]
            return norm(f(zi(t.rid), zi(e.rid)))
        self.ex.contracts.append(('Region::GetEdgeIndexOn' + what, h))
        return f

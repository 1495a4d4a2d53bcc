"""A region with numbered equations and the lists they assemble into (shared by specifications)."""
from spec import *
from world import World

C = 'Equation<double>'


class Eqs:
    """an equation 'eqn' of a region whose equations are numbered from base; every (equation, node) pair is row base + eq*N + node"""

    def __init__(self, u, dim=None, variables=('u', 'v'), cls=C):
        self.u = u
        ex = u.fresh_exec()
        self.ex, self.st = ex, State()
        st = self.st
        w = self.w = World(u, st, dim)
        self.me = ref(ex.rootcls(cls), 7)
        ex.dyn[ex.rootcls(cls)] = cls
        f = lambda m: ex.fld(self.me, cls, m)
        self.f = f
        u.set(st, f('myname'), 's', ex.strlit('eqn'))
        u.set(st, f('myregion'), 'p', w.R)
        self.base, self.neq = fresh('base'), fresh('numEquations')
        st.assume(z3.And(self.base >= 0, self.neq >= 1))
        u.set(st, w.f('baseeqnnum'), 'i', self.base)
        u.set(st, w.f('numequations'), 'i', self.neq)
        self.eq = {}
        ex.contracts.append(('Region::GetEquationIndex', self.index))
        ex.contracts.append(('Region::GetEquationNameFromVariable', self.name))
        self.vars = list(variables)
        ex.contracts.append(('Region::GetVariableList', self.vlist))
        ex.contracts.append(('Region::GetEquationNumber', self.number))
        self.rows = self.idx('eqn')
        for v in variables:
            self.idx('equation of ' + v)

    def idx(self, nm):
        if nm not in self.eq:
            q = fresh('equationIndex_' + nm)
            self.st.assume(z3.And(0 <= q, q < self.neq))
            self.eq[nm] = q
        return self.eq[nm]

    def sname(self, st, loc):
        c = norm(self.ex.loadk(st, loc, 's'))
        for k, v in self.ex.strs.items():
            if v == c:
                return k
        raise Unsupported('computed name')

    def index(self, ex, st, ins, args):
        n = self.sname(st, args[1])
        return self.idx(n)

    def name(self, ex, st, ins, args):
        ex.storek(st, args[0], 's', ex.strlit('equation of ' + self.sname(st, args[2])))
        return None

    def vlist(self, ex, st, ins, args):
        l = args[0]
        ex.storek(st, l.mark('len'), 'i', len(self.vars))
        for i, v in enumerate(self.vars):
            ex.storek(st, l.seg('e', i), 's', ex.strlit(v))
        return None

    def number(self, ex, st, ins, args):
        """contract of Region::GetEquationNumber (its body is proved against it in N01)"""
        r, q, n = args
        if not (isinstance(r, Loc) and r.isref() and EQ(r.rid, self.w.R.rid) is True) or not (isinstance(n, Loc) and n.isref()):
            raise Unsupported('row of another region')
        ex.oblige(st, 'the equation index is that of an equation of the region', AND(LE(0, q), LT(q, self.neq)))
        return norm(self.base + zi(q) * self.w.N + zi(n.rid))

    def row(self, node):
        return self.base + self.rows * self.w.N + node

    def col(self, var, node):
        return self.base + self.idx('equation of ' + var) * self.w.N + node

    # ---- entry lists
    def lists(self):
        """caller's matrix and right hand side lists with arbitrary earlier contents"""
        u, st, ex = self.u, self.st, self.ex
        self.m, self.v = Loc(('v', 'm')), Loc(('v', 'v'))
        self.m0, self.v0 = fresh('m0'), fresh('v0')
        st.assume(z3.And(self.m0 >= 0, self.v0 >= 0))
        u.set(st, self.m.mark('len'), 'i', self.m0)
        u.set(st, self.v.mark('len'), 'i', self.v0)
        R_ = z3.RealSort()
        self.mr, self.mc, self.mv = z3.Function('m_row', I, I), z3.Function('m_col', I, I), z3.Function('m_val', I, R)
        self.vr, self.vv = z3.Function('v_row', I, I), z3.Function('v_val', I, R)
        for l, fs in ((self.m, ((0, 'i', self.mr), (4, 'i', self.mc), (8, 'r', self.mv))), (self.v, ((0, 'i', self.vr), (8, 'r', self.vv)))):
            for o, k, fn in fs:
                u.family(l.seg('e', 0).plus(o), k, lambda *ix, fn=fn: norm(fn(zi(ix[-1]))))
        return self.m, self.v

    def ment(self, st, i):
        e = self.m.seg('e', i)
        return tuple(self.ex.loadk(st, e.plus(o), k) for o, k in ((0, 'i'), (4, 'i'), (8, 'r')))

    def vent(self, st, i):
        e = self.v.seg('e', i)
        return tuple(self.ex.loadk(st, e.plus(o), k) for o, k in ((0, 'i'), (8, 'r')))

    def same(self, st, which, names='before'):
        """earlier entries are untouched"""
        u = self.u
        n, l = (self.m0, self.m) if which == 'm' else (self.v0, self.v)
        i = u.idx(st, 'i', n)
        if which == 'm':
            r, c, x = self.ment(st, i)
            u.prove('earlier matrix entries unchanged', st, AND(EQ(r, self.mr(i)), EQ(c, self.mc(i)), EQ(x, self.mv(i))))
        else:
            r, x = self.vent(st, i)
            u.prove('earlier residual entries unchanged', st, AND(EQ(r, self.vr(i)), EQ(x, self.vv(i))))

    def mblock(self, name, st, at, want):
        """the len(want) entries from position at add up, at every row and column, to want = [(row, col, val)]"""
        r, c = fresh('r'), fresh('c')
        have = [self.ment(st, norm(at + j)) for j in range(len(want))]
        s = lambda es: sum((ITE(AND(EQ(a, r), EQ(b, c)), x, Fraction(0)) for a, b, x in es), zr(0))
        self.u.prove(name, st, EQ(s(have), s(want)))

    def vblock(self, name, st, at, want):
        r = fresh('r')
        have = [self.vent(st, norm(at + j)) for j in range(len(want))]
        s = lambda es: sum((ITE(EQ(a, r), x, Fraction(0)) for a, x in es), zr(0))
        self.u.prove(name, st, EQ(s(have), s(want)))

    def data(self, name, n):
        """a ScalarData argument with n values"""
        from scalardata import Loc as _L
        ex, st = self.ex, self.st
        cls = [c for c in ex.prog.classes if c.startswith('ScalarData<')][0]
        l = Loc(('v', name))
        f = z3.Function(name, I, R)
        vl = ex.fld(l, cls, 'values')
        self.u.set(st, vl.mark('len'), 'i', n)
        self.u.set(st, ex.fld(l, cls, 'length'), 'i', n)
        self.u.family(vl.seg('e', 0), 'r', lambda *ix: f(zi(ix[-1])))
        return l, f

    def signs(self):
        return fresh('s0', R), fresh('s1', R)

    def edges(self, kind):
        """(number of element edges, edge of slot (t,j) as function of flat index parts, slots per element)"""
        w = self.w
        if kind == 'Edge':
            return w.NE, 1, lambda t, j: t
        if kind == 'Triangle':
            te = w.fixed('triangleToEdgeList', w.NT, w.NE, 'triEdge', 3)
            return w.NT, 3, lambda t, j: te(t, j)
        w.edgedata()
        return w.NK, 6, lambda t, j: w.ed_edge(6 * t + j)

    def opposite(self, kind):
        w, u, ex = self.w, self.u, self.ex
        if kind == 'Triangle':
            tn = z3.Function('triNode', I, I, I)
            e = w.fam('Triangle', 'nodes')
            u.family(e.mark('len'), 'i', lambda i: 3)
            u.family(e.seg('e', 0), 'p', lambda i, k: norm(tn(zi(i), zi(k))))
            i, k = z3.Ints('i k')
            self.st.assume(z3.ForAll([i, k], z3.Implies(z3.And(0 <= i, i < w.NT, 0 <= k, k < 3), z3.And(0 <= tn(i, k), tn(i, k) < w.N)), patterns=[tn(i, k)]))
            return [lambda t, j: tn(t, j)]
        if kind == 'Tetrahedron':
            return [lambda t, j, q=q: w.ed_op[q](6 * t + j) for q in (0, 1)]
        return []

from spec import *
import lib, names
PID = 'S01'
LEVEL = 'proof'
NATIVE = 'S01'
BOUNDED = [('threads', ['OpEqualRun (more than one thread)', 'OpEqualPacket::operator()', 'OpEqualRange::operator()'], 'std::async and futures are outside the verifier; lengths 0..300 with 1..9 threads and every small task size are compared with the serial result')]
KINDS = [('Node', 'NodeModel'), ('Edge', 'EdgeModel'), ('TriangleEdge', 'TriangleEdgeModel'), ('TetrahedronEdge', 'TetrahedronEdgeModel'), ('InterfaceNode', 'InterfaceNodeModel')]
FN = {'times': mul, 'plus': add, 'minus': sub}


class SD:
    """objects of ScalarData<model> with an arbitrary choice of representation"""

    def __init__(self, u, kind, model):
        self.u = u
        ex = self.ex = u.fresh_exec()
        self.st = State()
        self.model = model
        self.cls = 'ScalarData<%s, double>' % model
        self.n = fresh('length')
        self.st.assume(self.n >= 0)
        self.rep = {}
        self.mod = {}
        C = ex.contracts.append
        C((model + '::IsUniform', lambda ex, st, ins, a: self.isU(st, a[0])))
        C((model + '::GetUniformValue', lambda ex, st, ins, a: self.uval(ex, st, a[0])))
        C((model + '::GetScalarValues', self.values))
        C((model + '::GetLength', lambda ex, st, ins, a: self.n))
        C((model + '::IsZero', lambda ex, st, ins, a: self.is01(st, a[0], 0)))
        C((model + '::IsOne', lambda ex, st, ins, a: self.is01(st, a[0], 1)))

    # ---- models (contracts: the data of a model is one value per element, possibly held as a single uniform value)
    def uni(self, m):
        return Loc(('muniform',), ((0, 'm', self.k(m)),), 0)

    def k(self, m):
        if not (isinstance(m, Loc) and m.isref() and self.mod):
            raise Unsupported('unknown model')
        return norm(m.rid)

    def mval(self, k, i):
        """value of element i of model k"""
        r = None
        for j, (fn, uv, un) in self.mod.items():
            x = uv if un else fn(zi(i))
            r = x if r is None else ITE(EQ(k, j), x, r)
        return r

    def isU(self, st, m):
        return EQ(self.ex.loadk(st, self.uni(m), 'i'), 1)

    def is01(self, st, m, c):
        return AND(self.isU(st, m), EQ(self.mval(self.k(m), 0), Fraction(c)))

    def uval(self, ex, st, m):
        ex.oblige(st, 'the uniform value of a model is read only when the model is uniform', self.isU(st, m))
        return Loc(('muvalue',), ((0, 'm', self.k(m)),), 0)

    def values(self, ex, st, ins, a):
        ex.storek(st, self.uni(a[0]), 'i', 0)          # GetScalarValues expands a uniform model
        return Loc(('mvalues',), ((0, 'm', self.k(a[0])),), 0)

    def newmodel(self, name, uniform):
        ex, st, u = self.ex, self.st, self.u
        k = len(self.mod)
        fn, uv = z3.Function('value_' + name, I, R), fresh('uniformValue_' + name, R)
        self.mod[k] = (fn, uv, uniform)
        if not k:
            v = Loc(('mvalues',), ((0, 'm', 0),), 0)
            u.family(Loc(('muniform',), ((0, 'm', 0),), 0), 'i', lambda k: self.pick(k, 2, 1, 0))
            u.family(Loc(('muvalue',), ((0, 'm', 0),), 0), 'r', lambda k: self.mval(k, 0))
            u.family(v.mark('len'), 'i', lambda k: self.n)
            u.family(v.seg('e', 0), 'r', lambda k, i: self.mval(k, i))
        return ref(ex.rootcls(self.model), k), lambda i: self.mval(k, i)

    def pick(self, k, what, a, b):
        r = None
        for j, m in self.mod.items():
            x = a if m[what] else b
            r = x if r is None else ITE(EQ(k, j), x, r)
        return r

    # ---- data
    def mem(self, l, m):
        return self.ex.fld(l, self.cls, m)

    def data(self, name, rep):
        """rep: uniform, reference, stored"""
        u, ex, st = self.u, self.ex, self.st
        l = Loc(('v', name))
        v = self.mem(l, 'values')
        u.set(st, self.mem(l, 'length'), 'i', self.n)
        u.set(st, self.mem(l, 'isuniform'), 'i', 1 if rep == 'uniform' else 0)
        uv = fresh('uniform_' + name, R)
        u.set(st, self.mem(l, 'uniform_value'), 'r', uv)
        st_ = z3.Function('stored_' + name, I, R)
        nl = self.n
        if rep != 'stored':
            nl = fresh('cached_' + name)
            st.assume(nl >= 0)
        u.set(st, v.mark('len'), 'i', nl)
        u.family(v.seg('e', 0), 'r', lambda *ix: st_(zi(ix[-1])))
        if rep == 'reference':
            m, val = self.newmodel('of_' + name, uniform=False)
            u.set(st, self.mem(l, 'refdata'), 'p', m)
            return l, val
        u.set(st, self.mem(l, 'refdata'), 'p', NULL)
        return l, ((lambda i: uv) if rep == 'uniform' else lambda i: st_(zi(i)))

    def value(self, st, l, i):
        """the value element i of a data object stands for"""
        ex = self.ex
        un = EQ(ex.loadk(st, self.mem(l, 'isuniform'), 'i'), 1)
        st_ = ex.loadk(st, self.mem(l, 'values').seg('e', i), 'r')
        rd = ex.loadk(st, self.mem(l, 'refdata'), 'p')
        return ITE(un, ex.loadk(st, self.mem(l, 'uniform_value'), 'r'), ITE(self.null(rd), st_, self.mval(self.k(rd), i)) if self.mod and rd is not NULL else st_)

    def null(self, rd):
        return z3.BoolVal(True) if rd is NULL else LT(self.k(rd), 0)

    def stored(self, st, l):
        """neither uniform nor a reference"""
        ex = self.ex
        return AND(EQ(ex.loadk(st, self.mem(l, 'isuniform'), 'i'), 0), self.null(ex.loadk(st, self.mem(l, 'refdata'), 'p')))

    def check(self, st, l, want, what='result'):
        u, ex = self.u, self.ex
        i = u.idx(st, 'i', self.n)
        u.sat(what, st)
        u.prove(what + ': value of every element', st, EQ(self.value(st, l, i), want(i)))
        u.prove(what + ': length', st, EQ(ex.loadk(st, self.mem(l, 'length'), 'i'), self.n))
        u.prove(what + ': stored values cover every element', st, IMP(self.stored(st, l), EQ(ex.loadk(st, self.mem(l, 'values').mark('len'), 'i'), self.n)))


def run_contract(s):
    """contract of OpEqualRun (proved for the serial path below, bounded for threads): op is applied once to every element"""
    def h(ex, st, ins, a):
        dn = ins['dn']
        op = FN['times' if 'times_equal' in dn else 'plus' if 'plus_equal' in dn else 'minus']
        vv = 'SerialVectorVectorOpEqual' in dn.split('(')[0]
        cls = [t for t in ex.prog.classes if t.startswith('SerialVector%sOpEqual<' % ('Vector' if vv else 'Scalar')) and ('times_equal' in t) == ('times_equal' in dn) and 'double' in t][0]
        v0 = ex.loadk(st, ex.fld(a[0], cls, 'vec0_'), 'p')
        n = a[1]
        ex.oblige(st, 'the elements processed exist', LE(n, ex.loadk(st, v0.mark('len'), 'i')))
        r0 = lib.read_leaf(ex, st, v0, (('seg', 'e'),), 'r')
        if vv:
            v1 = ex.loadk(st, ex.fld(a[0], cls, 'vec1_'), 'p')
            if isinstance(v1, Choice):
                raise Unsupported('operand vector unknown')
            ex.oblige(st, 'the operand elements exist', LE(n, ex.loadk(st, v1.mark('len'), 'i')))
            r1 = lib.read_leaf(ex, st, v1, (('seg', 'e'),), 'r')
            f = lambda i: op(r0(i), r1(i))
        else:
            x = ex.loadk(st, ex.fld(a[0], cls, 'scalar_'), 'r')
            f = lambda i: op(r0(i), x)
        lib.set_region(ex, st, v0, (('seg', 'e'),), 'r', lambda i: AND(LE(0, i), LT(i, n)), f)
    return h


REPS = ('uniform', 'reference', 'stored')


def units(kind, model):
    CF = 'models/%sScalarData.cc' % kind
    if not os.path.exists('/repo/src/' + CF):
        return
    S = 'ScalarData<%s, double>' % model

    def start(u):
        s = SD(u, kind, model)
        s.ex.contracts.append(('OpEqualRun', run_contract(s)))
        return s

    def subscript(u, const):
        fs = [x for x in u.prog.funcs.values() if x['dn'].split(' [')[0].rstrip().endswith(S + '::operator[](unsigned long)' + (' const' if const else ''))]
        if len(fs) != 1:
            raise Unsupported('subscript operator not found')
        u.under.append(fs[0]['dn'])
        return fs[0]

    @unit(PID, kind + '_construct', [CF], ['ScalarData<%s, double>::%s' % (model, m) for m in ('ScalarData', 'operator=', 'operator[]', 'GetScalarList')])
    def _(u):
        """constructors and assignment take over the values; subscripts and the list return them"""
        for what in ('scalar', 'model uniform', 'model general', 'vector') + tuple('copy ' + r for r in REPS) + tuple('assign %s to %s' % (a, b) for a in REPS for b in REPS):
            s = start(u)
            ex, st = s.ex, s.st
            l = Loc(('v', 'x'))
            P = ex.prog
            if what == 'scalar':
                v = fresh('v', R)
                f, args, want = u.fn('ScalarData::ScalarData', S + '::ScalarData' + '(double, unsigned long)'), [v, s.n], lambda i: v
            elif what.startswith('model'):
                m, val = s.newmodel('m', what == 'model uniform')
                f, args, want = u.fn('ScalarData::ScalarData', S + '::ScalarData' + '(%s const&)' % model), [m], val
            elif what == 'vector':
                w = Loc(('v', 'w'))
                _, fn = u.vec(st, w, 'w', n=s.n)
                f, args, want = u.fn('ScalarData::ScalarData', S + '::ScalarData' + '(std::vector'), [w], lambda i: fn(zi(i))
            elif what.startswith('copy'):
                y, want = s.data('y', what.split()[1])
                f, args = u.fn('ScalarData::ScalarData', '::ScalarData(%s const&)' % S), [y]
            else:
                y, want = s.data('y', what.split()[1])
                l, _o = s.data('x', what.split()[3])
                f, args = u.fn('ScalarData::operator=', S), [y]
            s2 = u.run(f, [l] + args, st)[1]
            s.check(s2, l, want, what)
        for rep in REPS:
            for const in (True, False):
                s = start(u)
                l, want = s.data('x', rep)
                k = u.idx(s.st, 'k', s.n)
                f = subscript(u, const)
                r, s2 = u.run(f, [l, k], s.st)
                if not const:
                    r = s.ex.loadk(s2, r, 'r')
                u.prove('%s: subscript%s' % (rep, '' if const else ' for assignment'), s2, EQ(r, want(k)))
                s.check(s2, l, want, '%s after subscript' % rep)
            s = start(u)
            l, want = s.data('x', rep)
            r, s2 = u.run(u.fn('ScalarData::GetScalarList', S), [l], s.st)
            k = u.idx(s2, 'k', s.n)
            u.prove('%s: the list has the value of every element' % rep, s2, EQ(s.ex.loadk(s2, r.seg('e', k), 'r'), want(k)))
            u.prove('%s: the list has one entry per element' % rep, s2, EQ(s.ex.loadk(s2, r.mark('len'), 'i'), s.n))
            s.check(s2, l, want, '%s after listing' % rep)

    @unit(PID, kind + '_assign_element', [CF], ['ScalarData<%s, double>::%s' % (model, m) for m in ('operator[]', 'MakeAssignable')])
    def _(u):
        """writing through a subscript changes that element only"""
        for rep in REPS:
            s = start(u)
            l, val = s.data('x', rep)
            k = u.idx(s.st, 'k', s.n)
            r, s2 = u.run(subscript(u, False), [l, k], s.st)
            x = fresh('x', R)
            s.ex.storek(s2, r, 'r', x)
            s.check(s2, l, lambda i: ITE(EQ(i, k), x, val(i)), rep)

    for op in ('times', 'plus'):
        g = FN[op]

        @unit(PID, '%s_%s_equal' % (kind, op), [CF], ['ScalarData<%s, double>::%s' % (model, m) for m in ('%s_equal_scalar' % op, '%s_equal_model' % op, '%s_equal_data' % op, 'op_equal_scalar', 'op_equal_model', 'op_equal_data')])
        def _(u, op=op, g=g):
            """the operation is applied to every element, whatever representation either operand has"""
            for rep in REPS:
                s = start(u)
                l, val = s.data('x', rep)
                c = fresh('c', R)
                s2 = u.run(u.fn('ScalarData::%s_equal_scalar' % op, S), [l, c], s.st)[1]
                s.check(s2, l, lambda i: g(val(i), c), rep + ' and scalar')
                for un in (True, False):
                    s = start(u)
                    l, val = s.data('x', rep)
                    m, mv = s.newmodel('m', un)
                    s2 = u.run(u.fn('ScalarData::%s_equal_model' % op, S), [l, m], s.st)[1]
                    s.check(s2, l, lambda i: g(val(i), mv(i)), '%s and %s model' % (rep, 'uniform' if un else 'general'))
                for r2 in REPS:
                    s = start(u)
                    l, val = s.data('x', rep)
                    y, yv = s.data('y', r2)
                    s2 = u.run(u.fn('ScalarData::%s_equal_data' % op, S), [l, y], s.st)[1]
                    s.check(s2, l, lambda i: g(val(i), yv(i)), '%s and %s data' % (rep, r2))
                    s.check(s2, y, yv, '%s operand of %s' % (r2, rep))
                s = start(u)
                l, val = s.data('x', rep)
                s2 = u.run(u.fn('ScalarData::%s_equal_data' % op, S), [l, l], s.st)[1]
                s.check(s2, l, lambda i: g(val(i), val(i)), '%s and itself' % rep)


import os
for k, m in KINDS:
    units(k, m)


@unit(PID, 'serial_loops', ['models/ParallelOpEqual.cc'], ['SerialVectorVectorOpEqual::operator()', 'SerialVectorScalarOpEqual::operator()', 'OpEqualRun'])
def _(u):
    """a task applies its operation once to each element of the range; without threads the whole range is one task"""
    for kind in ('Vector', 'Scalar'):
        for op in ('times', 'plus'):
            for whole in (False, True):
                ex = u.fresh_exec()
                st = State()
                cls = [t for t in ex.prog.classes if t.startswith('SerialVector%sOpEqual<' % kind) and op in t and 'double' in t][0]
                task, v0, v1 = Loc(('v', 'task')), Loc(('v', 'v0')), Loc(('v', 'v1'))
                n, f0 = u.vec(st, v0, 'v0')
                u.set(st, ex.fld(task, cls, 'vec0_'), 'p', v0)
                if kind == 'Vector':
                    _, f1 = u.vec(st, v1, 'v1', n=n)
                    u.set(st, ex.fld(task, cls, 'vec1_'), 'p', v1)
                    y = lambda i: f1(zi(i))
                else:
                    c = fresh('c', R)
                    u.set(st, ex.fld(task, cls, 'scalar_'), 'r', c)
                    y = lambda i: c
                if whole:
                    T, mn = fresh('threads'), fresh('minimumTask')
                    st.assume(z3.And(T >= 0, mn >= 0, n >= 1, z3.Or(T <= 1, n <= mn)))
                    ex.contracts.append(('ThreadInfo::GetNumberOfThreads', lambda ex, st, ins, a: T))
                    ex.contracts.append(('ThreadInfo::GetMinimumTaskSize', lambda ex, st, ins, a: mn))
                    lo, hi = 0, n
                    s2 = u.run(u.fn('OpEqualRun', cls), [task, n], st)[1]
                else:
                    lo, hi = fresh('b'), fresh('e')
                    st.assume(z3.And(0 <= lo, lo < hi, hi <= n))
                    s2 = u.run(u.fn(names.strip(cls) + '::operator()', cls), [task, lo, hi], st)[1]
                i = u.idx(s2, 'i', n)
                u.prove('%s %s%s: every element of the range once, no other' % (kind, op, ' whole' if whole else ''), s2, EQ(u.at(s2, v0, i), ITE(AND(LE(lo, i), LT(i, hi)), FN[op](f0(i), y(i)), f0(i))))
                if kind == 'Vector':
                    u.prove('%s %s%s: operand untouched' % (kind, op, ' whole' if whole else ''), s2, EQ(u.at(s2, v1, i), f1(i)))

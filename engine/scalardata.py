"""Contract of ScalarData used at call sites (each operation is proved against it in property S01).

Abstract state: length and the element values (kept in the values member; the representation choice - uniform, reference, stored -
is not observable through the operations)."""
from spec import *
from vc import Loc, Over
import lib, names


def install(w):
    u, ex = w.u, w.ex

    def mem(l, m):
        cls = [c for c in ex.prog.classes if c.startswith('ScalarData<')][0]
        return ex.fld(l, cls, m)

    def V(l):
        return mem(l, 'values')

    def setv(st, l, n, fn):
        v = V(l)
        lib.set_region(ex, st, v, (('seg', 'e'),), 'r', lambda i: True, fn)
        ex.storek(st, v.mark('len'), 'i', n)
        ex.storek(st, mem(l, 'length'), 'i', n)

    def rd(st, l):
        return lib.read_leaf(ex, st, V(l), (('seg', 'e'),), 'r')

    def kind_of(m):
        for k, (c, _) in w.KINDS.items():
            if m.root == ('r', ex.rootcls(c)):
                return k
        raise Unsupported('ScalarData over %r' % (m,))

    def mvals(m, dn):
        for k, (c, _) in w.KINDS.items():
            if 'ScalarData<%s,' % c in dn:
                b = w.vals(k, m.rid)
                return w.size_of(k), (lambda i: ex.loadk(State(), b.seg('e', i), 'r'))
        raise Unsupported('ScalarData model ' + dn)

    def ctor(ex, st, ins, args):
        dn = ins.get('dn', '')
        ps = [names.clean_type(p) for p in names.params(dn)]
        l = args[0]
        if ps[0].startswith('ScalarData<'):
            r = rd(st, args[1])
            setv(st, l, ex.loadk(st, mem(args[1], 'length'), 'i'), lambda i: r(i))
        elif ps[0].startswith('std::vector'):
            r = lib.read_leaf(ex, st, args[1], (('seg', 'e'),), 'r')
            setv(st, l, ex.loadk(st, args[1].mark('len'), 'i'), lambda i: r(i))
        elif len(ps) == 2:
            v, n = args[1], args[2]
            setv(st, l, n, lambda i: v)
        else:
            n, f = mvals(args[1], dn)
            setv(st, l, n, f)
        return None

    def assign(ex, st, ins, args):
        r = rd(st, args[1])
        n = ex.loadk(st, mem(args[1], 'length'), 'i')
        setv(st, args[0], n, lambda i: r(i))
        return args[0]

    def op(f, what):
        def h(ex, st, ins, args):
            l = args[0]
            dn = ins.get('dn', '')
            r = rd(st, l)
            n = ex.loadk(st, mem(l, 'length'), 'i')
            if what == 'scalar':
                v = args[1]
                setv(st, l, n, lambda i: f(r(i), v))
            elif what == 'data':
                q = rd(st, args[1])
                ex.oblige(st, 'ScalarData operands have equal lengths', EQ(n, ex.loadk(st, mem(args[1], 'length'), 'i')))
                setv(st, l, n, lambda i: f(r(i), q(i)))
            else:
                m, q = mvals(args[1], dn)
                ex.oblige(st, 'ScalarData operands have equal lengths', EQ(n, m))
                setv(st, l, n, lambda i: f(r(i), q(i)))
            return l
        return h

    def index(ex, st, ins, args):
        v = V(args[0])
        ex.oblige(st, 'ScalarData index in bounds', AND(LE(0, args[1]), LT(args[1], ex.loadk(st, v.mark('len'), 'i'))))
        e = v.seg('e', args[1])
        return ex.loadk(st, e, 'r') if ins.get('ty') == 'double' else e

    C = ex.contracts
    C.append(('ScalarData::ScalarData', ctor))
    C.append(('ScalarData::operator=', assign))
    for nm, f in (('times_equal', mul), ('plus_equal', add)):
        for what in ('scalar', 'data', 'model'):
            C.append(('ScalarData::%s_%s' % (nm, what), op(f, what)))

    def opeq(what):
        def h(ex, st, ins, args):
            dn = ins.get('dn', '')
            f = mul if 'times_equal' in dn else add if 'plus_equal' in dn else sub if 'minus_equal' in dn else None
            if f is None:
                raise Unsupported('op_equal functor ' + dn)
            a = list(args)
            if what == 'scalar':
                a[1] = ex.loadk(st, args[1], 'r')
            return op(f, what)(ex, st, ins, a)
        return h
    for what in ('scalar', 'data', 'model'):
        C.append(('ScalarData::op_equal_' + what, opeq(what)))
    C.append(('ScalarData::operator[]', index))
    C.append(('ScalarData::GetScalarList', lambda ex, st, ins, args: V(args[0])))
    C.append(('ScalarData::~ScalarData', lambda ex, st, ins, args: None))
    C.append(('ScalarData::GetLength', lambda ex, st, ins, args: ex.loadk(st, mem(args[0], 'length'), 'i')))

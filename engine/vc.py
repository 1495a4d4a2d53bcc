"""Verification-condition generator: symbolic execution of the extracted code with joined states,
inductively justified loop summaries, and contracts at calls."""
import re, sys, z3, time
from fractions import Fraction
from terms import *
import names, terms

sys.setrecursionlimit(20000)


class Unsupported(Exception):
    pass


class Obligation:
    __slots__ = ('name', 'status', 'backend', 'detail', 'secs', 'where')

    def __init__(self, name, status, backend, detail, secs, where=''):
        self.name, self.status, self.backend, self.detail, self.secs, self.where = name, status, backend, detail, secs, where


class NullT:
    def __repr__(self):
        return 'null'


NULL = NullT()


class Undef:
    def __repr__(self):
        return 'undef'


UNDEF = Undef()


class Loc:
    __slots__ = ('root', 'segs', 'off', 'lty')

    def __init__(self, root, segs=(), off=0, lty=None):
        self.root, self.segs, self.off, self.lty = root, segs, off, lty

    def key(self):
        return (self.root, tuple((s[0], s[1]) for s in self.segs), self.off)

    def idx(self):
        return tuple(s[2] for s in self.segs)

    def plus(self, n, lty=None):
        if isinstance(self.off, tuple):
            raise Unsupported('offset into marker')
        return Loc(self.root, self.segs, self.off + n, lty)

    def seg(self, kind, idx, lty=None):
        return Loc(self.root, self.segs + ((self.off, kind, idx),), 0, lty)

    def mark(self, name):
        return Loc(self.root, self.segs, (self.off, name))

    def isref(self):
        return self.root[0] == 'r' and len(self.segs) == 1 and self.off == 0

    @property
    def rid(self):
        return self.segs[0][2]

    def __repr__(self):
        s = ':'.join(str(x) for x in self.root)
        for o, k, i in self.segs:
            s += '+%s.%s[%s]' % (o, k, i)
        return s + '+%s' % (self.off,)


def _ints(x):
    for o in x:
        if isinstance(o, (list, tuple)):
            yield from _ints(o)
        elif isinstance(o, int) and not isinstance(o, bool):
            yield o


def summands(x):
    if z3.is_app_of(x, z3.Z3_OP_ADD):
        return [y for z in x.children() for y in summands(z)]
    return [x]


class Choice:
    """guarded alternatives (conditions exhaustive under pc)"""
    __slots__ = ('alts',)

    def __init__(self, alts):
        self.alts = alts

    def __repr__(self):
        return 'Choice' + repr(self.alts)


class Fn:
    __slots__ = ('name',)

    def __init__(self, n):
        self.name = n


class VTab:
    __slots__ = ('loc', 'slot', 'stage')

    def __init__(self, loc, slot=0, stage=0):
        self.loc, self.slot, self.stage = loc, slot, stage


class PInt:
    """pointer converted to integer / difference helper"""
    __slots__ = ('loc',)

    def __init__(self, loc):
        self.loc = loc


def ref(cls, rid, off=0):
    return Loc(('r', cls), ((0, 'r', rid),), off)


# ------------------------------------------------------------------ family nodes
class Base:
    __slots__ = ('fn', 'name')

    def __init__(self, fn, name):
        self.fn, self.name = fn, name

    def read(self, idx):
        return self.fn(*idx)


class Store:
    __slots__ = ('prev', 'idx', 'val')

    def __init__(self, prev, idx, val):
        self.prev, self.idx, self.val = prev, idx, val

    def read(self, idx):
        n = self
        # iterative for constant chains
        conds = []
        while isinstance(n, Store):
            c = AND(*[EQ(a, b) for a, b in zip(n.idx, idx)])
            if c is True:
                r = n.val
                break
            if c is not False:
                conds.append((c, n.val))
            n = n.prev
        else:
            r = n.read(idx)
        for c, v in reversed(conds):
            r = ITE(c, v, r)
        return r


class IteN:
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def read(self, idx):
        return ITE(self.c, self.a.read(idx), self.b.read(idx))


class Over:
    __slots__ = ('prev', 'W', 'V')

    def __init__(self, prev, W, V):
        self.prev, self.W, self.V = prev, W, V

    def read(self, idx):
        w = norm(self.W(*idx))
        if w is True:
            return self.V(*idx)
        if w is False:
            return self.prev.read(idx)
        return ITE(w, self.V(*idx), self.prev.read(idx))


class Plus:
    __slots__ = ('prev', 'D')

    def __init__(self, prev, D):
        self.prev, self.D = prev, D

    def read(self, idx):
        return add(self.prev.read(idx), self.D(*idx))


def written(node, base, idx):
    """condition under which idx may differ from base"""
    if node is base:
        return False
    if isinstance(node, Store):
        return OR(AND(*[EQ(a, b) for a, b in zip(node.idx, idx)]), written(node.prev, base, idx))
    if isinstance(node, IteN):
        a, b = written(node.a, base, idx), written(node.b, base, idx)
        return OR(AND(node.c, a), AND(NOT(node.c), b))
    if isinstance(node, Over):
        return OR(node.W(*idx), written(node.prev, base, idx))
    if isinstance(node, Plus):
        return OR(NOT(EQ(node.D(*idx), 0)), written(node.prev, base, idx))
    return True


def stores_of(node, base, guard=True, out=None):
    """syntactic list of (guard, idx) point writes; None when non-point writes occur"""
    out = [] if out is None else out
    while node is not base:
        if isinstance(node, Store):
            out.append((guard, node.idx))
            node = node.prev
        elif isinstance(node, IteN):
            if stores_of(node.a, base, AND(guard, node.c), out) is None:
                return None
            return stores_of(node.b, base, AND(guard, NOT(node.c)), out)
        else:
            return None
    return out


KSORT = {'i': I, 'p': I, 'r': R, 's': I, 'b': B}


_BR, _OB = {}, {}


def markbr(c):
    c = norm(c)
    if isinstance(c, z3.ExprRef):
        if z3.is_and(c):
            for i in range(c.num_args()):
                markbr(c.arg(i))
        else:
            _BR[c.get_id()] = c


def isbr(c):
    return isinstance(c, z3.ExprRef) and c.get_id() in _BR


def isob(c):
    return isinstance(c, z3.ExprRef) and c.get_id() in _OB and c.get_id() not in _BR


def markob(c):
    c = norm(c)
    if isinstance(c, z3.ExprRef):
        if z3.is_and(c):
            for i in range(c.num_args()):
                markob(c.arg(i))
        else:
            _OB[c.get_id()] = c


class State:
    __slots__ = ('mem', 'pc', 'env')

    def __init__(self, mem=None, pc=(), env=None):
        self.mem = {} if mem is None else mem
        self.pc = pc
        self.env = {} if env is None else env

    def copy(self):
        return State(dict(self.mem), self.pc, dict(self.env))

    def assume(self, c):
        c = norm(c)
        if c is True:
            return
        if isinstance(c, bool):
            self.pc = self.pc + (False,)
            return
        if z3.is_and(c):
            for i in range(c.num_args()):
                self.assume(c.arg(i))
            return
        if any((not isinstance(p, bool)) and p.eq(c) for p in self.pc):
            return
        self.pc = self.pc + (c,)

    def dead(self):
        return any(p is False for p in self.pc)


def stripcls(n):
    n = n.strip()
    for p in ('%class.', '%struct.', '%union.'):
        if n.startswith(p):
            n = n[len(p):]
            n = re.sub(r'\.\d+$', '', n)
    if n.endswith('.base'):
        n = n[:-5]
    out, d = [], 0
    for c in n:
        if c == '<':
            d += 1
        elif c == '>':
            d -= 1
        elif d == 0:
            out.append(c)
    return ''.join(out).replace('(anonymous namespace)::', '').strip()


class Exec:
    def __init__(self, prog, unroll=40):
        self.prog = prog
        self.P = Prover()
        self.contracts = []          # (matcher, handler)
        self.loopcache = {}
        self.handlers = {}
        self.initial = {}
        self.oblig = []
        self.quiet = 0
        self.failures = 0
        self.unroll = unroll
        self.depth = 0
        self.dyn = {}                # root class -> concrete class (stripped name)
        self.trace = False
        self.allocn = 0
        self.newn = 0
        self.strs = {'': 0}
        self.where = []
        self.asz = {}
        self.used = {}               # inlined repo functions
        self.trusted = {}            # library handlers used
        self.assumed = {}            # contracts used at calls
        self.ms = 10000
        self.polymorphic = set()
        self.bases = {}
        self.size = {}
        self.inv_cands = []
        self.loopinfo = {}
        self.enccodes = {}
        self.noinline = set()
        self.reindex()
        import lib
        lib.install(self)
        self.lib = lib
        import loops
        self.P.invert = lambda e, x, t: loops.invert(self, e, x, t)

    # -------------------------------------------------------------- classes
    def reindex(self):
        for n, c in self.prog.classes.items():
            s = stripcls(n)
            b = [m for m in c['m'] if m[0] == '<base>']
            self.bases.setdefault(s, [stripcls(m[2]) for m in sorted(b, key=lambda m: m[1])])
            if any(m[0].startswith('_vptr') for m in c['m']):
                self.polymorphic.add(s)

    def rootcls(self, c):
        c = stripcls(c)
        seen = 0
        while self.bases.get(c) and seen < 12:
            b = self.bases[c][0]
            if b.startswith('std::enable_shared') or b.startswith('std::__'):
                break
            # base with smallest offset, must be at 0
            c = b
            seen += 1
        return c

    def poly(self, c):
        c = stripcls(c)
        k = 0
        while k < 12:
            if c in self.polymorphic:
                return True
            if not self.bases.get(c):
                return False
            c = self.bases[c][0]
            k += 1
        return False

    def isa(self, c, anc):
        c = stripcls(c)
        if c == anc:
            return True
        return any(self.isa(b, anc) for b in self.bases.get(c, []))

    def member(self, cls, name):
        """(offset, type) of a data member, searching bases"""
        cand = [n for n in self.prog.classes if n == cls] or [n for n in self.prog.classes if stripcls(n) == stripcls(cls)]
        for n in cand:
            for m in self.prog.classes[n]['m']:
                if m[0] == name:
                    return m[1], m[2]
            for m in self.prog.classes[n]['m']:
                if m[0] == '<base>':
                    try:
                        o, t = self.member(m[2], name)
                        return o + m[1], t
                    except Unsupported:
                        pass
            break
        raise Unsupported('no member %s in %s' % (name, cls))

    def fld(self, loc, cls, name):
        return loc.plus(self.member(cls, name)[0])

    def obj(self, cls, rid=None):
        if rid is None:
            rid = fresh(stripcls(cls).split('::')[-1])
            self.P.axioms.append(rid >= 0)
        return ref(self.rootcls(cls), rid)

    # -------------------------------------------------------------- strings
    def strlit(self, s):
        if s not in self.strs:
            self.strs[s] = len(self.strs)
        return self.strs[s]

    # -------------------------------------------------------------- memory
    def retag(self, loc, cls):
        if isinstance(loc, Choice):
            return Choice([(c, self.retag(l, cls)) for c, l in loc.alts])
        if isinstance(loc, Loc) and loc.root == ('r', '?') and len(loc.segs) == 1:
            return Loc(('r', self.rootcls(cls)), loc.segs, loc.off, loc.lty)
        return loc

    def raw(self, loc):
        """a '?' ref used as raw array"""
        if isinstance(loc, Loc) and loc.root == ('r', '?') and len(loc.segs) == 1 and loc.off == 0:
            return Loc(('r', 'raw'), loc.segs + ((0, 'e', 0),), 0)
        return loc

    def node(self, st, key, kind):
        k = key + (kind,)
        n = st.mem.get(k)
        if n is None:
            n = self.init_node(k)
        return n

    def init_node(self, k):
        n = self.initial.get(k)
        if n is None:
            root, segs, off, kind = k
            nm = 'H_' + '_'.join(str(x) for x in root) + ''.join('+%s%s' % (a, b) for a, b in segs) + '+%s:%s' % (off, kind)
            if not segs:
                c = z3.Const(freshname(nm), KSORT[kind])
                n = c
                if kind == 'p':
                    n = ref('?', c)
                if off.__class__ is tuple and off[1] == 'len':
                    self.P.axioms.append(c >= 0)
            else:
                f = z3.Function(freshname(nm), *([I] * len(segs) + [KSORT[kind]]))
                n = Base(lambda *ix, f=f: f(*[zi(i) for i in ix]), nm)
                if off.__class__ is tuple and off[1] in ('len', 'msize'):
                    vs = [z3.Int('x%d' % i) for i in range(len(segs))]
                    self.P.axioms.append(z3.ForAll(vs, f(*vs) >= 0, patterns=[f(*vs)]))
            self.initial[k] = n
        return n

    def enc(self, v):
        """pointer -> int for storage in an indexed family"""
        if v is NULL:
            return -1
        if isinstance(v, Loc):
            if v.isref():
                return v.rid
            for code, l in self.enccodes.items():
                if l.key() == v.key() and all(EQ(a, b) is True for a, b in zip(l.idx(), v.idx())):
                    return code
            code = -1000 - len(self.enccodes)
            self.enccodes[code] = v
            return code
        if isinstance(v, Choice):
            r = None
            for c, l in reversed(v.alts):
                e = self.enc(l)
                r = e if r is None else ITE(c, e, r)
            return r
        if isinstance(v, (Fn, VTab)):
            return -7
        return v

    def dec(self, v):
        v = norm(v)
        if isinstance(v, int):
            if v in self.enccodes:
                return self.enccodes[v]
            if v == -1:
                return NULL
        return ref('?', v)

    def loadk(self, st, loc, kind):
        if isinstance(loc, Choice):
            r = None
            for c, l in reversed(loc.alts):
                if l is NULL:
                    continue
                v = self.loadk(st, l, kind)
                r = v if r is None else self.merge_val(c, v, r)
            return r
        if not isinstance(loc, Loc):
            raise Unsupported('load through %r' % (loc,))
        if loc.segs and loc.segs[-1][1] == 'fent' and loc.off == 0:
            return self.dec(loc.segs[-1][2]) if kind == 'p' else loc.segs[-1][2]
        n = self.node(st, loc.key(), kind)
        if not loc.segs:
            return n
        v = n.read(loc.idx())
        if kind == 'p':
            return self.dec(v)
        return norm(v)

    def storek(self, st, loc, kind, v):
        if isinstance(loc, Choice):
            live = [(c, l) for c, l in loc.alts if l is not NULL]
            pre = OR()
            for c, l in live:
                old = self.loadk(st, l, kind)
                g = AND(c, NOT(pre))
                self.storek(st, l, kind, self.merge_val(g, v, old))
                pre = OR(pre, c)
            return
        if not isinstance(loc, Loc):
            raise Unsupported('store through %r' % (loc,))
        key = loc.key()
        k = key + (kind,)
        if not loc.segs:
            st.mem[k] = v
        else:
            if kind == 'p':
                v = self.enc(v)
            if isinstance(v, (Loc, Choice)) or v is UNDEF:
                if v is UNDEF:
                    v = fresh('undef', KSORT[kind])
                else:
                    raise Unsupported('pointer stored as %s' % kind)
            prev = self.node(st, key, kind)
            st.mem[k] = Store(prev, loc.idx(), v)

    def kind_of(self, ty):
        if ty == 'ptr':
            return 'p'
        if ty in ('double', 'float', 'fp128', 'x86_fp80'):
            return 'r'
        if re.match(r'i\d+$', ty):
            return 'i'
        raise Unsupported('memory type ' + ty)

    def load(self, st, loc, ty):
        if isinstance(loc, Choice):
            r = None
            for c, l in reversed(loc.alts):
                if l is NULL:
                    continue
                v = self.load(st, l, ty)
                r = v if r is None else self.merge_val(c, v, r)
            return r
        if isinstance(loc, VTab):
            if loc.stage == 1:
                return VTab(loc.loc, loc.slot, 2)
        if ty == 'ptr' and isinstance(loc, Loc) and loc.root[0] == 'r' and len(loc.segs) == 1 and loc.off == 0 and \
                (loc.root[1] == '?' or self.poly(loc.root[1])):
            return VTab(loc, 0, 1)
        if ty == 'ptr' and isinstance(loc, Loc) and loc.segs and loc.segs[-1][1] == 'obj' and loc.off == 0:
            return VTab(loc, 0, 1)
        loc = self.raw(loc)
        if ty.startswith('{') or ty.startswith('%') or ty.startswith('['):
            # aggregate load: struct members
            els = self.struct_els(ty)
            return tuple(self.load(st, loc.plus(o), t) for o, t in els)
        if isinstance(loc, Loc) and loc.root[0] == 'g':
            if loc.root[1].lstrip('@').startswith('_ZGV') and loc.key() + (self.kind_of(ty),) not in st.mem:
                # guard of a function's static: not yet constructed at the first use; a later use sees the state the first left
                self.storek(st, loc, self.kind_of(ty), 0)
            v = self.glob_init(loc, ty)
            if v is not None:
                k = loc.key() + (self.kind_of(ty),)
                if k not in st.mem:
                    return v
        kind = self.kind_of(ty)
        if kind == 'i' and ty != 'i1' and isinstance(loc, Loc):
            pass
        return self.loadk(st, loc, kind)

    def struct_els(self, ty):
        if ty.startswith('%'):
            for m in self.prog.modules.values():
                if ty in m['structs']:
                    return [(o, t) for o, t in m['structs'][ty]['el']]
            raise Unsupported('struct ' + ty)
        if ty.startswith('{'):
            parts = [p.strip() for p in names.split_args(ty.strip('{} '))]
            off, out = 0, []
            for p in parts:
                sz = self.lsize(p)
                al = min(sz, 16)
                off = (off + al - 1) // al * al
                out.append((off, p))
                off += sz
            return out
        m = re.match(r'\[(\d+) x (.*)\]$', ty)
        if m:
            n, t = int(m.group(1)), m.group(2)
            return [(i * self.lsize(t), t) for i in range(n)]
        raise Unsupported('struct ' + ty)

    def lsize(self, t):
        t = t.strip()
        if t in ('ptr', 'double', 'i64'):
            return 8
        if t in ('i32', 'float'):
            return 4
        if t == 'i16':
            return 2
        if t in ('i8', 'i1'):
            return 1
        if t in ('fp128', 'x86_fp80', 'i128'):
            return 16
        m = re.match(r'\[(\d+) x (.*)\]$', t)
        if m:
            return int(m.group(1)) * self.lsize(m.group(2))
        if t.startswith('%'):
            for mo in self.prog.modules.values():
                if t in mo['structs']:
                    return mo['structs'][t]['size']
        if t.startswith('{'):
            e = self.struct_els(t)
            return e[-1][0] + self.lsize(e[-1][1])
        raise Unsupported('size of ' + t)

    def glob_init(self, loc, ty):
        g = self.prog.globals.get(loc.root[1])
        if not g or not g.get('const') or 'init' not in g or isinstance(loc.off, tuple):
            return None
        c, t, off = g['init'], g['ty'], loc.off
        if loc.segs:
            return None
        while True:
            if c[0] in ('int', 'fp', 'null', 'fn', 'glob'):
                return self.const(c) if off == 0 else None
            if c[0] == 'zero':
                return Fraction(0) if self.kind_of(ty) == 'r' else (NULL if ty == 'ptr' else 0)
            if c[0] == 'str':
                return c[2][off] if off < len(c[2]) else None
            if c[0] == 'agg':
                els = self.struct_els(c[1])
                for i in range(len(els) - 1, -1, -1):
                    if els[i][0] <= off:
                        c, t, off = c[2][i], els[i][1], off - els[i][0]
                        break
                continue
            return None

    def store(self, st, loc, ty, v):
        if isinstance(loc, VTab) or isinstance(v, VTab):
            return
        loc = self.raw(loc)
        if ty.startswith('{') or ty.startswith('%') or ty.startswith('['):
            if isinstance(v, tuple):
                for (o, t), x in zip(self.struct_els(ty), v):
                    self.store(st, loc.plus(o), t, x)
                return
            raise Unsupported('aggregate store')
        if v is UNDEF:
            k = self.kind_of(ty)
            v = fresh('undef', KSORT[k]) if k != 'p' else NULL
        self.storek(st, loc, self.kind_of(ty), v)

    # -------------------------------------------------------------- merging
    def merge_val(self, c, a, b):
        if a is b:
            return a
        if a is UNDEF or a is None:
            return b
        if b is UNDEF or b is None:
            return a
        c = norm(c)
        if isinstance(c, bool):
            return a if c else b
        pa, pb = isinstance(a, (Loc, Choice, NullT)), isinstance(b, (Loc, Choice, NullT))
        if pa or pb:
            if a is NULL and b is NULL:
                return NULL
            if isinstance(a, Loc) and isinstance(b, Loc):
                ra, rb = a.root, b.root
                if ra[0] == 'r' and rb[0] == 'r' and ra != rb and '?' in (ra[1], rb[1]):
                    r = rb if ra[1] == '?' else ra
                    a, b = Loc(r, a.segs, a.off), Loc(r, b.segs, b.off)
                if a.key() == b.key():
                    mi = lambda x, y: tuple(ITE(c, p, q) for p, q in zip(x, y)) if isinstance(x, tuple) else ITE(c, x, y)
                    return Loc(a.root, tuple((s[0], s[1], mi(s[2], t[2])) for s, t in zip(a.segs, b.segs)), a.off, a.lty)
            if a is NULL and isinstance(b, Loc) and b.isref():
                return Loc(b.root, ((0, 'r', ITE(c, -1, b.rid)),), 0)
            if b is NULL and isinstance(a, Loc) and a.isref():
                return Loc(a.root, ((0, 'r', ITE(c, a.rid, -1)),), 0)
            aa = a.alts if isinstance(a, Choice) else [(True, a)]
            bb = b.alts if isinstance(b, Choice) else [(True, b)]
            return Choice([(AND(c, x), l) for x, l in aa] + [(AND(NOT(c), x), l) for x, l in bb])
        if isinstance(a, tuple) and isinstance(b, tuple):
            return tuple(self.merge_val(c, x, y) for x, y in zip(a, b))
        if isinstance(a, (Fn, VTab, PInt)) or isinstance(b, (Fn, VTab, PInt)):
            if isinstance(a, VTab) and isinstance(b, VTab) and isinstance(a.loc, Loc):
                return VTab(self.merge_val(c, a.loc, b.loc), a.slot, a.stage)
            if isinstance(a, PInt) and isinstance(b, PInt):
                return PInt(self.merge_val(c, a.loc, b.loc))
            if isinstance(a, Fn) and isinstance(b, Fn) and a.name == b.name:
                return a
            raise Unsupported('merge of code pointers')
        if not isc(a) and not isinstance(a, z3.ExprRef) or not isc(b) and not isinstance(b, z3.ExprRef):
            raise Unsupported('merge %r %r' % (type(a), type(b)))
        if not isc(a) and not isc(b) and z3.is_real(a) and z3.is_real(b):
            # a sum keeps its common summands outside the condition
            xs, ys = summands(a), summands(b)
            ids = {y.get_id() for y in ys}
            both = [x for x in xs if x.get_id() in ids]
            if both:
                k = {x.get_id() for x in both}
                if len(k) == len(both):
                    ra, rb = [x for x in xs if x.get_id() not in k], [y for y in ys if y.get_id() not in k]
                    if len(ys) - len(rb) == len(both):
                        r = ITE(c, sum(ra[1:], ra[0]) if ra else Fraction(0), sum(rb[1:], rb[0]) if rb else Fraction(0))
                        for x in reversed(both):
                            r = add(x, r)
                        return r
        return ITE(c, a, b)

    def merge(self, sts, live=None):
        sts = [s for s in sts if s is not None and not s.dead()]
        if not sts:
            return None
        cur = sts[0]
        for s in sts[1:]:
            cur = self.merge2(cur, s, live)
        return cur

    def live(self, f, b):
        """values needed from block b on"""
        if 'live' not in f:
            cfg = self.cfg(f)
            ids = lambda x: {o for o in _ints(x)}
            use, dfn, phiin, succ = {}, {}, {}, {}
            for k in cfg['rpo']:
                u, d = set(), set()
                for ins in f['blocks'][k]:
                    if ins['op'] == 'phi':
                        for p, v in ins['inc']:
                            phiin.setdefault((p, k), set()).update(ids([v]))
                        d.add(ins['id'])
                        continue
                    for key, v in ins.items():
                        if key not in ('op', 'id', 'ty', 'vty', 'succ', 'dn'):
                            u |= ids([v]) - d
                    if 'id' in ins:
                        d.add(ins['id'])
                use[k], dfn[k], succ[k] = u, d, []
            for k, ps in cfg['pred'].items():
                for q in ps:
                    succ[q].append(k)
            lin = {k: set() for k in use}
            ch = True
            while ch:
                ch = False
                for k in reversed(cfg['rpo']):
                    o = set()
                    for q in succ[k]:
                        o |= lin[q] | phiin.get((k, q), set())
                    n = use[k] | (o - dfn[k])
                    if n != lin[k]:
                        lin[k], ch = n, True
            phis = {k: {i['id'] for i in f['blocks'][k] if i['op'] == 'phi'} for k in use}
            f['live'] = {k: lin[k] | phis[k] for k in use}
        return f['live'][b]

    def merge2(self, a, b, live=None):
        n = 0
        while n < len(a.pc) and n < len(b.pc) and (a.pc[n] is b.pc[n] or (not isinstance(a.pc[n], bool) and not isinstance(b.pc[n], bool) and a.pc[n].eq(b.pc[n]))):
            n += 1
        sa, sb = a.pc[n:], b.pc[n:]
        # branch conditions select; derived facts only follow from them
        ba, bb = [x for x in sa if isbr(x)], [x for x in sb if isbr(x)]
        if not ba or not bb:
            ba, bb = list(sa), list(sb)
        fa, fb = [x for x in sa if not any(x is y for y in ba)], [x for x in sb if not any(x is y for y in bb)]
        ca, cb = AND(*ba), AND(*bb)
        c = ca
        comp = None
        for x in ba:
            for y in bb:
                if NOT(x).eq(y) or NOT(y).eq(x) or NOT2(x).eq(y) or NOT2(y).eq(x):
                    comp = (x, y)
                    break
            if comp:
                break
        if comp:
            c = comp[0]
            ra = AND(*[x for x in ba if x is not comp[0]])
            rb = AND(*[x for x in bb if x is not comp[1]])
            rest = True if ra is True and rb is True else AND(OR(NOT(comp[0]), ra), OR(comp[0], rb))
        else:
            rest = OR(ca, cb)
        if c is True and cb is not True:
            c = NOT(cb)
        st = State({}, a.pc[:n], {})
        if rest is not True:
            markbr(rest)
            st.assume(rest)
        if fa or fb:
            common = [x for x in fa if any((not isc(x)) and (not isc(y)) and x.eq(y) for y in fb)]
            for x in common:
                st.assume(x)
            # (what an obligation added on one side follows from the rest)
            for x in fa:
                if not isob(x) and not any(x is y for y in common):
                    st.assume(OR(NOT(c), x))
            for x in fb:
                if not isob(x) and not any((not isc(x)) and (not isc(y)) and x.eq(y) for y in common):
                    st.assume(OR(c, x))
        for k in set(a.mem) | set(b.mem):
            x, y = a.mem.get(k), b.mem.get(k)
            if x is y:
                st.mem[k] = x
                continue
            if x is None:
                if k[0][0] == 'a' and k not in self.initial:
                    st.mem[k] = y
                    continue
                x = self.init_node(k)
            if y is None:
                if k[0][0] == 'a' and k not in self.initial:
                    st.mem[k] = x
                    continue
                y = self.init_node(k)
            if k[1]:
                st.mem[k] = x if x is y else IteN(c, x, y)
            else:
                st.mem[k] = self.merge_val(c, x, y)
        for k in set(a.env) & set(b.env):
            x, y = a.env[k], b.env[k]
            if x is y:
                st.env[k] = x
            elif live is None or k in live or not isinstance(k, int):
                try:
                    st.env[k] = self.merge_val(c, x, y)
                except Unsupported:
                    pass
        for k in set(a.env) ^ set(b.env):
            st.env[k] = a.env[k] if k in a.env else b.env[k]
        return st

    # -------------------------------------------------------------- obligations
    def oblige(self, st, name, goal, ms=None, hints=(), assume=True):
        goal = norm(goal)
        if assume:
            markob(goal)
        if self.quiet:
            if assume:
                st.assume(goal)
            return True
        if any((not isinstance(p, bool)) and not isinstance(goal, bool) and p.eq(goal) for p in st.pc):
            return True
        t0 = time.time()
        ms = ms or self.ms
        if self.failures >= 2 and terms.FACTOR[0] <= 1:
            ms = min(ms, 2500)           # already undischarged: the retry pass gives the full limits again
        status, be, det = self.P.prove(st.pc, goal, ms, hints)
        if status != 'proved':
            self.failures += 1
        self.P.stats[be] = self.P.stats.get(be, 0) + 1
        dt = time.time() - t0
        d = ''
        if status != 'proved':
            if isinstance(det, z3.ModelRef):
                d = 'counterexample: ' + ', '.join('%s=%s' % (x.name(), det[x]) for x in det.decls() if x.arity() == 0)[:1500]
            else:
                d = str(det)
            d += ' | goal: ' + str(goal)[:1500]
        self.oblig.append(Obligation(name, status, be, d, dt, '/'.join(self.where[-3:])))
        if self.trace:
            print('  [%s] %s (%s %.2fs)' % (status, name, be, dt), d[:3000] if status != 'proved' else '')
        if assume:
            st.assume(goal)
        return status == 'proved'

    # -------------------------------------------------------------- values
    def const(self, c):
        t = c[0]
        if t == 'int':
            v = int(c[1])
            if c[2] == 1:
                return v != 0
            return v
        if t == 'fp':
            s = c[1]
            if 'x' in s:
                if 'inf' in s or 'nan' in s:
                    return fresh('inf', R)
                return ratio(float.fromhex(s))
            if s in ('inf', '-inf', 'nan', '-nan', 'Inf', '+Inf', '-Inf', 'NaN'):
                return self.infconst(s)
            return Fraction(s)
        if t == 'null':
            return NULL
        if t in ('undef', 'unknown'):
            return UNDEF
        if t == 'zero':
            ty = c[1]
            if ty.startswith('{'):
                return tuple(self.const(['zero', x]) for _, x in self.struct_els(ty))
            return Fraction(0) if self.kind_of(ty) == 'r' else (NULL if ty == 'ptr' else 0)
        if t == 'fn':
            return Fn(c[1])
        if t == 'glob':
            return Loc(('g', c[1]))
        if t == 'cgep':
            base = self.const(c[1])
            return self.gep(None, base, c[2], {})
        if t == 'agg':
            return tuple(self.const(x) for x in c[2])
        raise Unsupported('constant %s' % (c[:2],))

    def infconst(self, s):
        k = ('inf', s)
        if k not in self.initial:
            self.initial[k] = z3.Real('const_' + s)
        return self.initial[k]

    def val(self, st, v):
        if isinstance(v, int):
            if v not in st.env:
                raise Unsupported('undefined ssa value %d' % v)
            return st.env[v]
        if isinstance(v, list):
            return self.const(v)
        return UNDEF

    # -------------------------------------------------------------- gep
    def gep(self, st, p, steps, env):
        if isinstance(p, Choice):
            return Choice([(c, self.gep(st, l, steps, env) if l is not NULL else NULL) for c, l in p.alts])
        if p is NULL:
            return NULL
        if isinstance(p, VTab):
            v = steps[0][1]
            k = self.val(st, v)
            return VTab(p.loc, p.slot + k, 1)
        if not isinstance(p, Loc):
            raise Unsupported('gep on %r' % (p,))
        cur = p
        for n, s in enumerate(steps):
            if s[0] == 'f':
                _, off, sty, fno = s
                if cur.root == ('r', '?') and len(cur.segs) == 1:
                    cur = self.retag(cur, sty)
                if cur.segs and cur.segs[-1][1] == 'fent' and cur.off == 0 and off > 0:
                    # second of a map entry
                    o, k, i = cur.segs[-1]
                    base = Loc(cur.root, cur.segs[:-1], o)
                    cur = base.seg('m', i)
                else:
                    cur = cur.plus(off)
            else:
                _, v, esz, ety, cnt = s
                iv = self.val(st, v) if not (isinstance(v, list)) else self.const(v)
                if isc(iv) and iv == 0 and n == 0:
                    continue
                if isinstance(iv, bool):
                    iv = int(iv)
                if cnt is not None and cnt >= 0:
                    if isc(iv):
                        cur = cur.plus(iv * esz)
                    else:
                        if cnt > 300:
                            raise Unsupported('symbolic index in large fixed array')
                        if st is not None and cnt > 0:      # an array declared with unknown bound has count 0
                            self.oblige(st, 'fixed array index in bounds', AND(LE(0, iv), LT(iv, cnt)))
                        cur = Choice([(EQ(iv, q), cur.plus(q * esz)) for q in range(cnt)])
                        rest = steps[n + 1:]
                        return self.gep(st, cur, rest, env) if rest else cur
                else:
                    cur = self.raw(cur)
                    if cur.segs and cur.segs[-1][1] in ('e', 'it') and cur.off == 0:
                        o, k, i = cur.segs[-1]
                        cur = Loc(cur.root, cur.segs[:-1] + ((o, k, add(i, iv)),), 0)
                    elif isc(iv):
                        cur = cur.plus(iv * esz)
                    else:
                        raise Unsupported('symbolic pointer offset on %r' % (cur,))
        return cur

    # -------------------------------------------------------------- functions
    def find(self, sub, cls=None, exact=True):
        r = []
        for f in self.prog.funcs.values():
            if (names.strip(f['dn']) == sub) if exact else (sub in f['dn']):
                r.append(f)
        return r

    def func(self, sub, *must):
        r = [f for f in self.prog.funcs.values() if names.strip(f['dn']) == sub and all(m in f['dn'] for m in must)]
        if not r:
            raise Unsupported('function not found: %s %s' % (sub, must))
        if len(r) > 1:
            r2 = [f for f in r if 'D0Ev' not in f['name'] and 'C1' not in f['name'] and 'D1Ev' not in f['name']]
            if r2:
                r = r2
        if len(r) > 1:
            raise Unsupported('ambiguous function %s: %s' % (sub, [f['dn'] for f in r]))
        return r[0]

    def cfg(self, f):
        if 'cfg' in f:
            return f['cfg']
        succ = []
        for b in f['blocks']:
            t = b[-1]
            op = t['op']
            if op == 'br':
                s = list(t['succ'])
            elif op == 'switch':
                s = [t['def']] + [c[1] for c in t['cases']]
            elif op == 'invoke' or 'normal' in t:
                s = [t['normal']]
            else:
                s = []
            succ.append(list(dict.fromkeys(s)))
        n = len(succ)
        # reachable + rpo
        order, seen = [], set()

        st = [(0, iter(succ[0]))]
        seen.add(0)
        while st:
            b, it = st[-1]
            for x in it:
                if x not in seen:
                    seen.add(x)
                    st.append((x, iter(succ[x])))
                    break
            else:
                order.append(b)
                st.pop()
        rpo = order[::-1]
        pos = {b: i for i, b in enumerate(rpo)}
        pred = {b: [] for b in rpo}
        for b in rpo:
            for s in succ[b]:
                pred[s].append(b)
        # dominators
        dom = {rpo[0]: rpo[0]}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                ps = [p for p in pred[b] if p in dom]
                d = ps[0]
                for p in ps[1:]:
                    x, y = d, p
                    while x != y:
                        while pos[x] > pos[y]:
                            x = dom[x]
                        while pos[y] > pos[x]:
                            y = dom[y]
                    d = x
                if dom.get(b) != d:
                    dom[b] = d
                    ch = True

        def dominates(a, b):
            while True:
                if a == b:
                    return True
                if b == rpo[0]:
                    return False
                b = dom[b]
        loops = {}
        for b in rpo:
            for s in succ[b]:
                if dominates(s, b):
                    body = loops.setdefault(s, {s})
                    wl = [b]
                    while wl:
                        x = wl.pop()
                        if x not in body:
                            body.add(x)
                            wl.extend(pred[x])
                elif pos[s] <= pos[b]:
                    raise Unsupported('irreducible control flow in ' + f['dn'])
        f['cfg'] = dict(succ=succ, rpo=rpo, pos=pos, loops=loops, pred=pred)
        return f['cfg']

    def run(self, f, args, st):
        """execute function; returns (retval, state) or None when no normal return"""
        self.depth += 1
        if self.depth > 60:
            raise Unsupported('call depth')
        self.where.append(names.strip(f['dn']))
        self.used[f['dn']] = f.get('file', '')
        try:
            cfg = self.cfg(f)
            env0 = st.env
            cal = State(dict(st.mem), st.pc, {})
            for i, a in enumerate(args):
                cal.env[i] = a
            rets = []
            exits, backs = self.region(f, cfg, set(cfg['rpo']), 0, [(None, cal)], None, rets)
            live = [r for r in rets if not r.dead()]
            if not live:
                return None
            for r in live:
                r.env = {'ret': r.env.get('ret')}
            m = self.merge(live)
            rv = m.env.get('ret')
            m.env = dict(env0)
            return rv, m
        finally:
            self.where.pop()
            self.depth -= 1

    def region(self, f, cfg, blocks, entry, incoming, hdr, rets):
        """run an acyclic region (inner loops collapsed). hdr: header whose back edges are collected."""
        pending = {entry: incoming}
        exits, backs = [], []

        def emit(src, dst, s):
            if s is None or s.dead():
                return
            if dst == hdr:
                backs.append((src, s))
            elif dst not in blocks:
                exits.append((src, dst, s))
            else:
                pending.setdefault(dst, []).append((src, s))
        for b in cfg['rpo']:
            if b not in blocks or b not in pending:
                continue
            inc = pending.pop(b)
            if b in cfg['loops'] and b != hdr:
                body = cfg['loops'][b]
                for src, dst, s in self.loop(f, cfg, b, body, inc, rets):
                    emit(src, dst, s)
                continue
            st = self.enter(f, b, inc)
            if st is None:
                continue
            self.block(f, b, st, emit, rets)
        return exits, backs

    def enter(self, f, b, inc, phis=True):
        """evaluate phis on each incoming edge and merge"""
        blk = f['blocks'][b]
        sts = []
        for src, s in inc:
            if s.dead():
                continue
            s = s.copy()
            if src is not None and phis:
                vals = []
                for ins in blk:
                    if ins['op'] != 'phi':
                        break
                    for p, v in ins['inc']:
                        if p == src:
                            vals.append((ins['id'], self.val(s, v)))
                            break
                for k, v in vals:
                    s.env[k] = v
            sts.append(s)
        return self.merge(sts, self.live(f, b))

    def branch(self, st, c):
        """(can be true, can be false) with pruning"""
        c = norm(c)
        if isinstance(c, bool):
            return c, not c
        cs = norm(z3.simplify(c))
        if isinstance(cs, bool):
            return cs, not cs
        nc, n2 = NOT(c), NOT2(c)
        yes, no = {c.get_id()}, {nc.get_id(), n2.get_id()}
        for p in st.pc:
            if isinstance(p, bool):
                continue
            k = p.get_id()
            if k in yes:
                return True, False
            if k in no:
                return False, True
        if self.P.entails(st.pc, z3.Not(c), 60):
            return False, True
        if self.P.entails(st.pc, c, 60):
            return True, False
        return True, True

    def block(self, f, b, st, emit, rets):
        for ins in f['blocks'][b]:
            op = ins['op']
            if op == 'phi':
                continue
            if op == 'br':
                if 'cond' not in ins:
                    emit(b, ins['succ'][0], st)
                    return
                c = self.val(st, ins['cond'])
                if c is UNDEF:
                    c = fresh('undef', B)
                t, fl = self.branch(st, c)
                if ins['succ'][0] == ins['succ'][1]:
                    emit(b, ins['succ'][0], st)
                    return
                if t:
                    s1 = st.copy() if fl else st
                    if fl:
                        markbr(c)
                        s1.assume(c)
                    emit(b, ins['succ'][0], s1)
                if fl:
                    if t:
                        markbr(NOT2(c))
                        st.assume(NOT2(c))
                    emit(b, ins['succ'][1], st)
                return
            if op == 'switch':
                c = self.val(st, ins['cond'])
                neg = []
                for cv, dst in ins['cases']:
                    k = self.const(cv)
                    e = EQ(c, k)
                    t, fl = self.branch(st, AND(e, *[]))
                    if t:
                        s1 = st.copy()
                        markbr(e)
                        s1.assume(e)
                        emit(b, dst, s1)
                    if not fl:
                        return
                    markbr(NOT(e))
                    st.assume(NOT(e))
                emit(b, ins['def'], st)
                return
            if op == 'ret':
                if ins['ops']:
                    st.env['ret'] = self.val(st, ins['ops'][0])
                rets.append(st)
                return
            if op in ('unreachable', 'resume'):
                return
            if op in ('call', 'invoke'):
                r = self.call(f, ins, st)
                if r is None:
                    return
                v, st2 = r
                if st2 is not st:
                    st.mem, st.pc = st2.mem, st2.pc
                if 'ty' in ins:
                    st.env[ins['id']] = v
                if 'normal' in ins:
                    emit(b, ins['normal'], st)
                    return
                continue
            v = self.instr(f, ins, st)
            if 'ty' in ins:
                st.env[ins['id']] = v

    # -------------------------------------------------------------- instructions
    def instr(self, f, ins, st):
        op = ins['op']
        if op == 'alloca':
            self.allocn += 1
            l = Loc(('a', self.allocn), (), 0, ins['aty'])
            return l
        if op == 'load':
            return self.load(st, self.val(st, ins['ops'][0]), ins['ty'])
        if op == 'store':
            self.store(st, self.val(st, ins['ops'][1]), ins['vty'], self.val(st, ins['ops'][0]))
            return None
        if op == 'getelementptr':
            return self.gep(st, self.val(st, ins['ptr']), ins['steps'], None)
        if op == 'landingpad':
            return UNDEF
        ops = [self.val(st, o) for o in ins['ops']]
        if op in ('icmp', 'fcmp'):
            return self.cmp(ins['pred'], ops[0], ops[1], op)
        if op == 'select':
            return self.merge_val(ops[0], ops[1], ops[2])
        if op in ('freeze', 'bitcast', 'addrspacecast'):
            return ops[0]
        if op == 'ptrtoint':
            return PInt(ops[0])
        if op == 'inttoptr':
            if isinstance(ops[0], PInt):
                return ops[0].loc
            raise Unsupported('inttoptr')
        if op == 'extractvalue':
            v = ops[0]
            for i in ins['idx']:
                v = v[i] if isinstance(v, tuple) else UNDEF
            return v
        if op == 'insertvalue':
            return self.insval(ops[0], ops[1], ins['idx'], ins['ty'])
        if any(o is UNDEF for o in ops):
            return UNDEF
        return self.arith(ins, op, ops, st)

    def insval(self, agg, v, idx, ty):
        els = self.struct_els(ty)
        a = list(agg) if isinstance(agg, tuple) else [UNDEF] * len(els)
        if len(idx) == 1:
            a[idx[0]] = v
        else:
            a[idx[0]] = self.insval(a[idx[0]], v, idx[1:], els[idx[0]][1])
        return tuple(a)

    def cmp(self, pred, a, b, op):
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if isinstance(a, PInt):
            a = a.loc
        if isinstance(b, PInt):
            b = b.loc
        if isinstance(a, (Loc, NullT, Choice, Fn, VTab)) or isinstance(b, (Loc, NullT, Choice, Fn, VTab)):
            e = self.ptreq(a, b)
            if pred == 'eq':
                return e
            if pred == 'ne':
                return NOT(e)
            if isinstance(a, Loc) and isinstance(b, Loc) and a.key() == b.key() and len(a.segs):
                x, y = a.segs[-1][2], b.segs[-1][2]
                return {'ult': LT(x, y), 'ugt': LT(y, x), 'ule': LE(x, y), 'uge': LE(y, x)}[pred]
            raise Unsupported('pointer comparison ' + pred)
        if pred in ('eq', 'oeq', 'ueq'):
            return EQ(a, b)
        if pred in ('ne', 'one', 'une'):
            return NOT(EQ(a, b))
        if pred in ('ult', 'ugt', 'ule', 'uge') and op == 'icmp':
            # size_t(-1) style constants
            if isc(b) and b < 0:
                if pred in ('ult', 'ule'):
                    return True if not isc(a) or a >= 0 or pred == 'ule' else a < b
                if pred in ('ugt', 'uge'):
                    return False if pred == 'ugt' else EQ(a, b)
            if isc(a) and a < 0:
                if pred in ('ugt', 'uge'):
                    return True
                return EQ(a, b) if pred == 'ule' else False
        if pred in ('ult', 'slt', 'olt') or (op == 'fcmp' and pred == 'ult'):
            return LT(a, b)
        if pred in ('ugt', 'sgt', 'ogt'):
            return LT(b, a)
        if pred in ('ule', 'sle', 'ole'):
            return LE(a, b)
        if pred in ('uge', 'sge', 'oge'):
            return LE(b, a)
        if pred == 'uno':
            return False
        if pred == 'ord':
            return True
        raise Unsupported('cmp ' + pred)

    def ptreq(self, a, b):
        if isinstance(a, Choice):
            r = None
            for c, l in reversed(a.alts):
                e = self.ptreq(l, b)
                r = e if r is None else ITE(c, e, r)
            return r
        if isinstance(b, Choice):
            return self.ptreq(b, a)
        if a is NULL and b is NULL:
            return True
        if a is NULL:
            a, b = b, a
        if isinstance(a, (Fn, VTab)) or isinstance(b, (Fn, VTab)):
            if isinstance(a, Fn) and isinstance(b, Fn):
                return a.name == b.name
            return False
        if b is NULL:
            if a.isref():
                return EQ(a.rid, -1)
            return False
        # map iterators
        ka, kb = a.segs[-1][1] if a.segs else None, b.segs[-1][1] if b.segs else None
        if 'fnd' in (ka, kb) or 'mend' in (ka, kb):
            if ka == 'mend' and kb == 'mend':
                return True
            if ka == 'mend':
                a, b, ka, kb = b, a, kb, ka
            if kb == 'mend' and ka == 'fnd':
                return NOT(a.segs[-1][2][1])
            if kb == 'mend' and ka.startswith('ent#'):
                return EQ(a.segs[-1][2], b.segs[-1][2])
            if ka == 'fnd' and kb == 'fnd':
                return OR(AND(a.segs[-1][2][1], b.segs[-1][2][1], EQ(a.segs[-1][2][0], b.segs[-1][2][0])), AND(NOT(a.segs[-1][2][1]), NOT(b.segs[-1][2][1])))
            raise Unsupported('map iterator comparison')
        if a.root[0] == 'r' and b.root[0] == 'r' and len(a.segs) == 1 and len(b.segs) == 1 and a.off == b.off:
            return EQ(a.rid, b.rid)
        if a.key() == b.key():
            return AND(*[EQ(x, y) for x, y in zip(a.idx(), b.idx())])
        if a.root[0] == 'r' and b.root[0] == 'r' and a.root != b.root and '?' in (a.root[1], b.root[1]):
            raise Unsupported('pointer equality of unknown shapes')
        return False

    def arith(self, ins, op, ops, st):
        ty = ins['ty']
        a = ops[0]
        b = ops[1] if len(ops) > 1 else None
        if isinstance(a, PInt) or isinstance(b, PInt):
            if op == 'sub' and isinstance(a, PInt) and isinstance(b, PInt):
                return self.ptrdiff(a.loc, b.loc)
            raise Unsupported('pointer arithmetic ' + op)
        if op in ('fadd', 'add'):
            return add(a, b)
        if op in ('fsub', 'sub'):
            return sub(a, b)
        if op in ('fmul', 'mul'):
            return mul(a, b)
        if op == 'fdiv':
            return rdiv(a, b)
        if op == 'fneg':
            return neg(a)
        if op == 'sdiv':
            return idiv(a, b)
        if op == 'udiv':
            return udiv(a, b)
        if op == 'urem':
            return urem(a, b)
        if op == 'srem':
            return sub(a, mul(b, idiv(a, b)))
        isbool = lambda x: isinstance(x, bool) or (isinstance(x, z3.ExprRef) and z3.is_bool(x))
        if op in ('and', 'or', 'xor'):
            if ty == 'i1' or isbool(a) or isbool(b):
                if op == 'and':
                    return AND(a, b)
                if op == 'or':
                    return OR(a, b)
                if b is True:
                    return NOT(a)
                return NOT(EQ(a, b))
            return self.bitop(op, a, b, ty, st)
        if op == 'shl':
            if isc(b):
                return mul(a, 2 ** b)
            raise Unsupported('symbolic shift')
        if op in ('lshr', 'ashr'):
            if isc(b):
                return udiv(a, 2 ** b)
            raise Unsupported('symbolic shift')
        if op in ('zext', 'sext'):
            if isbool(a):
                return ITE(a, 1 if op == 'zext' else -1, 0)
            if op == 'zext' and isc(a) and a < 0:
                w = int(ins['oty'][1:])
                return a if w >= 32 else a % (2 ** w)
            return a
        if op == 'trunc':
            if ty == 'i1':
                if isc(a):
                    return a % 2 == 1
                if z3.is_app_of(a, z3.Z3_OP_ITE) and z3.is_int_value(a.arg(1)) and z3.is_int_value(a.arg(2)):
                    p, q = a.arg(1).as_long() % 2, a.arg(2).as_long() % 2
                    return ITE(a.arg(0), bool(p), bool(q))
                return NOT(EQ(a, 0))
            w = int(ty[1:])
            if isc(a) and w < 32:
                a = a % (2 ** w)
                return a - 2 ** w if a >= 2 ** (w - 1) else a
            return a
        if op in ('fpext', 'fptrunc'):
            return a
        if op in ('sitofp', 'uitofp'):
            if isbool(a):
                a = ITE(a, 1, 0)
            if isc(a):
                return Fraction(a)
            return z3.ToReal(a)
        if op in ('fptosi', 'fptoui'):
            if isc(a):
                return int(a)
            a = zr(a)
            return z3.If(a >= 0, z3.ToInt(a), -z3.ToInt(-a))
        raise Unsupported('instruction ' + op)

    def bitop(self, op, a, b, ty, st):
        if isc(a) and isc(b):
            return {'and': a & b, 'or': a | b, 'xor': a ^ b}[op]
        if isc(a):
            a, b = b, a
        if op == 'and' and isc(b):
            if b >= 0 and (b & (b + 1)) == 0:
                return urem(a, b + 1)
            if b == -1:
                return a
            if b > 0:
                lo = (b & -b)
                hi = b // lo
                if (hi & (hi + 1)) == 0:
                    return mul(lo, urem(udiv(a, lo), hi + 1))
            if b < 0:   # ~mask
                m = -b
                if (m & (m - 1)) == 0:
                    return mul(m, udiv(a, m))
        if op == 'or':
            if isc(b) and b == 0:
                return a
            # disjoint: one operand below 2^k, other multiple of 2^k
            for x, y in ((a, b), (b, a)):
                for k in (1, 2, 3, 4, 6, 8, 12, 16, 18, 24):
                    if self.P.entails(st.pc, AND(EQ(urem(x, 2 ** k), 0), LE(0, y), LT(y, 2 ** k)), 1000):
                        return add(x, y)
        f = z3.Function('bit_%s_%s' % (op, ty), I, I, I)
        return f(zi(a), zi(b))

    def ptrdiff(self, a, b):
        """byte difference"""
        if isinstance(a, Choice) or isinstance(b, Choice):
            raise Unsupported('difference of merged pointers')
        if a is NULL and b is NULL:
            return 0
        if a.root == b.root and len(a.segs) == len(b.segs) and a.segs and a.off == b.off and a.key() == b.key():
            if all(EQ(x, y) is True for x, y in zip(a.idx()[:-1], b.idx()[:-1])):
                esz = self.elemsize(a)
                return ('pdiff', sub(a.idx()[-1], b.idx()[-1])) if esz is None else mul(esz, sub(a.idx()[-1], b.idx()[-1]))
        raise Unsupported('pointer difference')

    def elemsize(self, l):
        if l.lty:
            return self.lsize(l.lty)
        return 8

    # -------------------------------------------------------------- calls
    def call(self, f, ins, st):
        fn = ins['fn']
        if isinstance(fn, list) and fn[0] == 'fn':
            mname = fn[1]
            dn = ins.get('dn', mname)
        elif isinstance(fn, list) and fn[0] == 'glob' and any(fn[1].replace(a, b) in self.prog.funcs for a, b in (('C1E', 'C2E'), ('D1E', 'D2E'))):
            # complete object constructors and destructors emitted as aliases of the base object ones
            mname = [fn[1].replace(a, b) for a, b in (('C1E', 'C2E'), ('D1E', 'D2E')) if fn[1].replace(a, b) in self.prog.funcs][0]
            dn = self.prog.funcs[mname]['dn']
            ins = dict(ins, dn=dn)
        elif isinstance(fn, list) and fn[0] == 'asm':
            raise Unsupported('inline asm')
        else:
            tgt = self.val(st, fn)
            if isinstance(tgt, Fn):
                mname = tgt.name
                dn = self.prog.funcs[mname]['dn'] if mname in self.prog.funcs else mname
            elif isinstance(tgt, VTab) and tgt.stage == 2:
                args = [self.val(st, a) for a in ins['args']]
                return self.vcall(f, ins, st, tgt, args)
            else:
                for m, h in self.contracts:
                    if m == 'fnptr':
                        return self._wrap(h(self, st, ins, [tgt] + [self.val(st, a) for a in ins['args']]), st)
                raise Unsupported('indirect call')
        args = []
        for a in ins['args']:
            args.append(self.val(st, a) if a != 'meta' else UNDEF)
        # byval copies
        for k in range(len(args)):
            if 'byval%d' % k in ins and isinstance(args[k], Loc):
                self.allocn += 1
                tmp = Loc(('a', self.allocn), (), 0, ins['byval%d' % k])
                self.lib.memcpy_typed(self, st, tmp, args[k], ins['byval%d' % k])
                args[k] = tmp
        return self.dispatch(mname, dn, ins, args, st)

    def dispatch(self, mname, dn, ins, args, st):
        sn = names.strip(dn)
        for m, h in self.contracts:
            if (m(mname, dn, sn) if callable(m) else m == sn):
                self.assumed[sn] = self.assumed.get(sn, 0) + 1
                return self._wrap(h(self, st, ins, args), st)
        h = self.handlers.get(sn)
        if h is None and '::~' in sn and (sn.startswith('std::') or sn.startswith('__gnu')):
            return None_v, st
        if h is None:
            h = self.lib.fuzzy(self, sn, dn)
        if h is not None:
            r = h(self, st, ins, args, dn)
            if r is not self.lib.PASS:
                self.trusted[sn] = self.trusted.get(sn, 0) + 1
                return self._wrap(r, st)
        fd = self.prog.funcs.get(mname)
        if fd is None:
            for x, y in (('C1E', 'C2E'), ('D1E', 'D2E'), ('C1I', 'C2I'), ('D0E', 'D2E')):
                if x in mname:
                    fd = self.prog.funcs.get(mname.replace(x, y))
                    if fd:
                        break
        if fd is None:
            while not sn.startswith('std::') and self.prog.autoload(sn):
                self.reindex()
                fd = self.prog.funcs.get(mname) or self.prog.funcs.get(mname.replace('C1E', 'C2E')) or self.prog.funcs.get(mname.replace('D1E', 'D2E'))
                if fd:
                    break
        if fd is None:
            raise Unsupported('call to unknown function ' + dn[:200])
        pt = fd.get('ptypes') or []
        args = list(args)
        sh = 1 if fd['args'] and 'sret' in fd['args'][0] else 0
        for i, a in enumerate(args):
            j = i - sh + 1
            if 0 < j < len(pt) and isinstance(a, (Loc, Choice)):
                t = pt[j]
                if t.endswith('*') or t.endswith('&'):
                    t = t.rstrip('&*').strip()
                    if pt[j].count('*') + pt[j].count('&') == 1 and (t in self.prog.classes):
                        args[i] = self.retag(a, t)
        # polymorphic null-this etc. not modelled
        return self.run(fd, args, st)

    def _wrap(self, r, st):
        if r is DROP:
            return None
        if isinstance(r, tuple) and len(r) == 2 and isinstance(r[1], State):
            return r
        return r, st

    def vcall(self, f, ins, st, tgt, args):
        loc = tgt.loc
        if isinstance(loc, Choice):
            raise Unsupported('virtual call on merged pointer')
        # find a declaration of the slot for the static class
        stat = None
        cls = None
        if loc.root[0] == 'r':
            cls = self.dyn.get(loc.root[1])
            if callable(cls):
                cls = cls(self, st, loc)
        if cls is None and loc.lty:
            cls = stripcls(loc.lty)
        if cls is None and loc.root[1] == '?':
            # the call's static class unknown
            for h in self.contracts:
                pass
        meth = self.vslot(cls, tgt.slot, loc)
        if meth is None:
            raise Unsupported('virtual call slot %d on %r (dynamic class %s)' % (tgt.slot, loc, cls))
        return self.dispatch(meth['name'], meth['dn'], ins, args, st)

    def vslot(self, cls, slot, loc):
        if cls is None:
            return None
        chain, todo = [], [stripcls(cls)]
        while todo:
            c = todo.pop(0)
            chain.append(c)
            todo.extend(self.bases.get(c, []))
        for c in chain:
            for fd in self.prog.funcs.values():
                if fd.get('virt', -1) == slot:
                    sn = names.strip(fd['dn'])
                    if '::' in sn and stripcls(sn.rsplit('::', 1)[0]) == c and 'D0Ev' not in fd['name']:
                        if self.dyn_targ and '<' in fd['dn'] and self.dyn_targ not in fd['dn']:
                            continue
                        return fd
        return None
    dyn_targ = None

    # -------------------------------------------------------------- loops
    def loop(self, f, cfg, hdr, body, inc, rets):
        st0 = self.enter(f, hdr, inc)
        if st0 is None:
            return []
        import loops
        return loops.run_loop(self, f, cfg, hdr, body, st0, rets)


def ratio(x):
    """a double constant denotes the simple rational it is the nearest double of, otherwise its exact value"""
    f = Fraction(x).limit_denominator(1000)
    if float(f) == x:
        return f
    r = repr(x)
    if sum(c.isdigit() for c in r.split('e')[0].lstrip('-0.')) <= 12:
        return Fraction(r)
    return Fraction(x)


DROP = object()
None_v = None

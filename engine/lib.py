"""Trusted contracts of the standard library (containers, strings, smart pointers, math), listed in the evidence as used."""
import re, z3
from fractions import Fraction
from terms import *
import names
import vc
from vc import Loc, NULL, UNDEF, Choice, NullT, Base, Store, IteN, Over, Plus, State, Unsupported, DROP, ref, KSORT, PInt, stripcls

PASS = object()
SCALAR = {'double': 'r', 'float': 'r', 'long double': 'r', '__float128': 'r', 'int': 'i', 'unsigned int': 'i', 'unsigned': 'i', 'long': 'i', 'unsigned long': 'i',
          'size_t': 'i', 'bool': 'i', 'char': 'i', 'unsigned char': 'i', 'signed char': 'i', 'short': 'i', 'unsigned short': 'i', 'long long': 'i',
          'unsigned long long': 'i', 'enum': 'i'}


def ct(t):
    return names.clean_type(t)


# ---- leaves: list of (path, kind); path = tuple of ('off',n) | ('seg',kind) | ('mark',name)
_leaf = {}


def leaves(ex, t, depth=0):
    t = ct(t)
    if t in _leaf:
        return _leaf[t]
    if depth > 6:
        return []
    r = _leaves(ex, t, depth)
    _leaf[t] = r
    return r


def _leaves(ex, t, depth):
    if t in SCALAR:
        return [((), SCALAR[t])]
    if t.endswith('*') or t.endswith('&'):
        return [((), 'p')]
    m = re.match(r'(.*)\[(\d+)\]$', t)
    if m:
        el = leaves(ex, m.group(1), depth + 1)
        sz = tsize(ex, m.group(1))
        return [((('off', i * sz),) + p, k) for i in range(int(m.group(2))) for p, k in el] if int(m.group(2)) <= 16 else []
    if t == 'std::string' or t.startswith('std::basic_string<char'):
        return [((), 's')]
    for v in ('std::vector', 'std::deque', 'std::list'):
        if t.startswith(v + '<'):
            a = names.targs(t, v)[0]
            return [((('mark', 'len'),), 'i')] + [((('seg', 'e'),) + p, k) for p, k in leaves(ex, a, depth + 1)]
    for v in ('std::map', 'std::unordered_map'):
        if t.startswith(v + '<'):
            a = names.targs(t, v)
            return [((('seg', 'm'), ('mark', 'has')), 'b'), ((('mark', 'msize'),), 'i')] + [((('seg', 'm'),) + p, k) for p, k in leaves(ex, a[1], depth + 1)]
    for v in ('std::set', 'std::unordered_set'):
        if t.startswith(v + '<'):
            return [((('seg', 'm'), ('mark', 'has')), 'b'), ((('mark', 'msize'),), 'i')]
    for v in ('std::shared_ptr', 'std::unique_ptr', 'std::weak_ptr', 'std::__shared_ptr'):
        if t.startswith(v + '<'):
            return [((), 'p')]
    if t.startswith('std::complex<'):
        return [((), 'r'), ((('off', 8),), 'r')]
    if t.startswith('std::pair<'):
        a = names.targs(t, 'std::pair')
        o2 = pair_off(ex, a)
        return leaves(ex, a[0], depth + 1) + [(addoff(o2, p), k) for p, k in leaves(ex, a[1], depth + 1)]
    if t.startswith('std::array<'):
        a = names.targs(t, 'std::array')
        return leaves(ex, '%s[%s]' % (a[0], a[1].rstrip('ul')), depth + 1)
    c = findclass(ex, t)
    if c is None:
        if stripcls(t) in ex.enums:
            return [((), 'i')]
        return []
    out = []
    for nm, off, ty, sz in c['m']:
        if nm.startswith('_vptr'):
            continue
        out += [(addoff(off, p), k) for p, k in leaves(ex, ty, depth + 1)]
    return out


def addoff(o, p):
    if o == 0:
        return p
    if p and p[0][0] == 'off':
        return (('off', o + p[0][1]),) + p[1:]
    return (('off', o),) + p


def pair_off(ex, a):
    s1, a2 = tsize(ex, a[0]), talign(ex, a[1])
    return (s1 + a2 - 1) // a2 * a2


def talign(ex, t):
    t = ct(t)
    if t in SCALAR:
        return min(tsize(ex, t), 16)
    return 8


def tsize(ex, t):
    t = ct(t)
    b = {'double': 8, 'float': 4, 'int': 4, 'unsigned int': 4, 'unsigned': 4, 'enum': 4, 'bool': 1, 'char': 1, 'unsigned char': 1, 'signed char': 1, 'short': 2,
         'unsigned short': 2, '__float128': 16, 'long double': 16}
    if t in b:
        return b[t]
    if t in SCALAR or t.endswith('*') or t.endswith('&'):
        return 8
    if t == 'std::string':
        return 32
    if t.startswith('std::vector<'):
        return 24
    if t.startswith('std::pair<'):
        a = names.targs(t, 'std::pair')
        o = pair_off(ex, a)
        n = o + tsize(ex, a[1])
        al = max(talign(ex, a[0]), talign(ex, a[1]))
        return (n + al - 1) // al * al
    m = re.match(r'(.*)\[(\d+)\]$', t)
    if m:
        return tsize(ex, m.group(1)) * int(m.group(2))
    c = findclass(ex, t)
    if c:
        return c['size']
    return 8


def findclass(ex, t):
    c = ex.prog.classes.get(t)
    if c:
        return c
    k = ('fc', t)
    if k in ex.cache:
        return ex.cache[k]
    nt = t.replace(' ', '')
    r = None
    for n, c in ex.prog.classes.items():
        if n.replace(' ', '') == nt:
            r = c
            break
    if r is None:
        for n, c in ex.prog.classes.items():
            if stripcls(n) == stripcls(t) and '<' not in n and '<' not in t:
                r = c
                break
    ex.cache[k] = r
    return r


def walk(loc, path, idx):
    """apply a leaf path; idx supplies the dynamic indices"""
    k = 0
    for p in path:
        if p[0] == 'off':
            loc = loc.plus(p[1])
        elif p[0] == 'seg':
            loc = loc.seg(p[1], idx[k])
            k += 1
        else:
            loc = loc.mark(p[1])
    return loc


def ndyn(path):
    return sum(1 for p in path if p[0] == 'seg')


def dflt(kind):
    return {'i': 0, 'r': Fraction(0), 'p': -1, 's': 0, 'b': False}[kind]


def zero_cond(ex, st, fam_loc_path, kind, mk, nfix, W, V):
    pass


def set_region(ex, st, base, path, kind, W, V):
    """for every dynamic index tuple d with W(d): leaf(base,path,d) := V(d)"""
    nd = ndyn(path)
    bl = walk(base, path, [0] * nd)
    npre = len(base.segs)
    pre = tuple(s[2] for s in base.segs)
    key = bl.key()
    if nd == 0:
        v = V()
        w = W()
        if w is True:
            ex.storek(st, bl, kind, v if kind != 'p' or isinstance(v, (Loc, NullT, Choice)) else ex.dec(v))
        elif w is not False:
            old = ex.loadk(st, bl, kind)
            if kind == 'p':
                v = v if isinstance(v, (Loc, NullT, Choice)) else ex.dec(v)
            ex.storek(st, bl, kind, ex.merge_val(w, v, old))
        return
    prev = ex.node(st, key, kind)

    def Wf(*ix):
        return AND(*([EQ(a, b) for a, b in zip(ix[:npre], pre)] + [W(*ix[npre:])]))

    def Vf(*ix):
        return V(*ix[npre:])
    st.mem[key + (kind,)] = Over(prev, Wf, Vf)


def read_leaf(ex, st, base, path, kind):
    """snapshot reader: function of dynamic indices"""
    nd = ndyn(path)
    bl = walk(base, path, [0] * nd)
    if not bl.segs or (bl.segs[-1][1] == 'fent' and bl.off == 0 and not nd):
        v = ex.loadk(st, bl, kind)
        return lambda: v
    n = ex.node(st, bl.key(), kind)
    pre = tuple(s[2] for s in base.segs)
    return lambda *d: n.read(pre + d)


def copy_obj(ex, st, src, dst, t):
    if isinstance(src, Choice):
        raise Unsupported('copy from merged pointer')
    ls = leaves(ex, t)
    rd = [(p, k, read_leaf(ex, st, src, p, k)) for p, k in ls]
    for p, k, r in rd:
        set_region(ex, st, dst, p, k, lambda *d: True, r)
    # ghost attachments (aggregates) travel with vectors
    for g in ex.ghosts:
        g(ex, st, 'copy', src, dst, t)


def default_obj(ex, st, dst, t):
    for p, k in leaves(ex, t):
        set_region(ex, st, dst, p, k, lambda *d: True, lambda *d, k=k: dflt(k))


def memcpy_typed(ex, st, dst, src, lty):
    """copy by LLVM struct layout"""
    def rec(ty, off):
        if ty.startswith('%') or ty.startswith('{') or ty.startswith('['):
            for o, t2 in ex.struct_els(ty):
                rec(t2, off + o)
        else:
            k = ex.kind_of(ty)
            v = ex.loadk(st, src.plus(off), k)
            ex.storek(st, dst.plus(off), k, v)
    rec(lty, 0)


# ------------------------------------------------------------------ vectors
def L0(ex, l):
    return ex.raw(l) if isinstance(l, Loc) and l.root == ('r', '?') and False else l


def vlen(ex, st, v):
    return ex.loadk(st, mk(v, lambda l: l.mark('len')), 'i')


def mk(v, fn):
    if isinstance(v, Choice):
        return Choice([(c, fn(l) if l is not NULL else NULL) for c, l in v.alts])
    if not isinstance(v, Loc):
        raise Unsupported('container operation on %r' % (v,))
    return fn(v)


def setlen(ex, st, v, n):
    ex.storek(st, mk(v, lambda l: l.mark('len')), 'i', n)


def velem(ex, v, i, lty=None):
    return mk(v, lambda l: l.seg('e', i, lty))


def eltype(dn, cont='std::vector'):
    a = names.targs(dn, cont)
    return ct(a[0]) if a else None


def v_index(ex, st, ins, args, dn):
    v, i = args[0], args[1]
    n = vlen(ex, st, v)
    ex.oblige(st, 'vector index in bounds', AND(LE(0, i), LT(i, n)))
    return velem(ex, v, i)


def v_size(ex, st, ins, args, dn):
    return vlen(ex, st, args[0])


def v_empty(ex, st, ins, args, dn):
    return EQ(vlen(ex, st, args[0]), 0)


def v_clear(ex, st, ins, args, dn):
    setlen(ex, st, args[0], 0)
    ghost(ex, st, 'clear', args[0], None, dn)
    return None


def ghost(ex, st, ev, *a):
    for g in ex.ghosts:
        g(ex, st, ev, *a)


def fill(ex, st, v, lo, hi, t, src=None):
    """elements [lo,hi) := *src or T()"""
    for p, k in leaves(ex, t):
        pp = (('seg', 'e'),) + p
        rd = read_leaf(ex, st, src, p, k) if src is not None else None
        set_region(ex, st, v, pp, k, lambda i, *d: AND(LE(lo, i), LT(i, hi)),
                   (lambda i, *d, k=k: dflt(k)) if rd is None else (lambda i, *d, rd=rd: rd(*d)))


def v_resize(ex, st, ins, args, dn):
    v, n = args[0], args[1]
    old = vlen(ex, st, v)
    fill(ex, st, v, old, n, eltype(dn), args[2] if len(args) > 2 else None)
    setlen(ex, st, v, n)
    return None


def v_assign(ex, st, ins, args, dn):
    v = args[0]
    if len(args) == 3 and ins['aty'][1] == 'i64':
        fill(ex, st, v, 0, args[1], eltype(dn), args[2])
        setlen(ex, st, v, args[1])
        return None
    return v_ctor_range(ex, st, v, args[1], args[2], eltype(dn))


def v_ctor_range(ex, st, v, a, b, t):
    if isinstance(a, Loc) and isinstance(b, Loc) and a.key() == b.key() and a.segs[-1][1] == 'e':
        n = sub(b.segs[-1][2], a.segs[-1][2])
        o, _, i0 = a.segs[-1]
        src = Loc(a.root, a.segs[:-1], o)
        for p, k in leaves(ex, t):
            pp = (('seg', 'e'),) + p
            rd = read_leaf(ex, st, src, pp, k)
            set_region(ex, st, v, pp, k, lambda *d: True, lambda i, *d, rd=rd: rd(add(i, i0), *d))
        setlen(ex, st, v, n)
        return None
    raise Unsupported('vector range construction')


def v_ctor(ex, st, ins, args, dn):
    v = args[0]
    t = eltype(dn)
    ps = [ct(p) for p in names.params(dn)]
    at = ins['aty']
    if len(args) == 1:
        setlen(ex, st, v, 0)
        return None
    if at[1] == 'i64':
        n = args[1]
        src = args[2] if len(args) > 2 and len(ps) >= 2 and 'allocator' not in ps[1][:16] else None
        fill(ex, st, v, 0, n, t, src)
        setlen(ex, st, v, n)
        return None
    if ps and ps[0].startswith('std::vector<'):
        copy_obj(ex, st, args[1], v, 'std::vector<%s>' % t)
        if ps[0].endswith('&&'):
            setlen(ex, st, args[1], 0)
        return None
    if ps and 'initializer_list' in ps[0]:
        p, n = args[1], args[2]
        if not isc(n):
            raise Unsupported('initializer_list size')
        for i in range(n):
            copy_obj(ex, st, p.plus(i * tsize(ex, t)), v.seg('e', i), t)
        setlen(ex, st, v, n)
        return None
    if len(args) >= 3 and at[1] == 'ptr' and at[2] == 'ptr' and len(ps) >= 2:
        return v_ctor_range(ex, st, v, args[1], args[2], t)
    if ps and 'allocator' in ps[0]:
        setlen(ex, st, v, 0)
        return None
    raise Unsupported('vector constructor ' + dn)


def v_assignop(ex, st, ins, args, dn):
    ps = [ct(p) for p in names.params(dn)]
    if isinstance(args[1], Loc) and isinstance(args[0], Loc) and args[0].key() == args[1].key() and all(EQ(a, b) is True for a, b in zip(args[0].idx(), args[1].idx())):
        return args[0]
    copy_obj(ex, st, args[1], args[0], 'std::vector<%s>' % eltype(dn))
    if ps and ps[0].endswith('&&'):
        setlen(ex, st, args[1], 0)
    return args[0]


def v_swap(ex, st, ins, args, dn):
    t = 'std::vector<%s>' % eltype(dn)
    swap_obj(ex, st, args[0], args[1], t)
    return None


def swap_obj(ex, st, a, b, t):
    ls = leaves(ex, t)
    ra = [(p, k, read_leaf(ex, st, a, p, k)) for p, k in ls]
    rb = [(p, k, read_leaf(ex, st, b, p, k)) for p, k in ls]
    for (p, k, r) in ra:
        set_region(ex, st, b, p, k, lambda *d: True, r)
    for (p, k, r) in rb:
        set_region(ex, st, a, p, k, lambda *d: True, r)


def bagged(ex, st, v, t, build):
    """a list of entries kept by its meaning: every pushed element goes to the bag's handler, the list itself is not readable"""
    h = ex.bags.get(v.key()) if isinstance(v, Loc) else None
    if h is None:
        return None
    tmp = Loc(('v', 'entry pushed'))
    if build(tmp) is DROP:
        return DROP
    h(st, tmp, t)
    for k in [k for k in st.mem if k[0] == tmp.root]:
        del st.mem[k]
    return tmp


def v_push(ex, st, ins, args, dn):
    v = args[0]
    t = eltype(dn)
    b = bagged(ex, st, v, t, lambda tmp: copy_obj(ex, st, args[1], tmp, t))
    if b is not None:
        return None
    n = vlen(ex, st, v)
    if isinstance(v, Choice):
        raise Unsupported('push_back on merged vector')
    copy_obj(ex, st, args[1], v.seg('e', n), t)
    setlen(ex, st, v, add(n, 1))
    ghost(ex, st, 'push', v, v.seg('e', n), t)
    return None


def v_emplace(ex, st, ins, args, dn):
    v = args[0]
    t = eltype(dn)
    b = bagged(ex, st, v, t, lambda tmp: v_build(ex, st, tmp, t, args, dn))
    if b is not None:
        return b
    n = vlen(ex, st, v)
    dst = v.seg('e', n)
    if v_build(ex, st, dst, t, args, dn) is DROP:
        return DROP
    setlen(ex, st, v, add(n, 1))
    ghost(ex, st, 'push', v, dst, t)
    return dst


def v_build(ex, st, dst, t, args, dn):
    if t in SCALAR or t.endswith('*'):
        k = SCALAR.get(t, 'p')
        a = args[1]
        val = ex.loadk(st, a, k)
        ex.storek(st, dst, k, val)
    elif len(args) == 2 and isinstance(args[1], Loc) and sametype(ex, names.params(dn), t):
        copy_obj(ex, st, args[1], dst, t)
    else:
        c = findclass(ex, t)
        if t.startswith('std::pair<'):
            ta = names.targs(t, 'std::pair')
            o2 = pair_off(ex, ta)
            for a, o, tt in ((args[1], 0, ta[0]), (args[2], o2, ta[1])):
                copy_conv(ex, st, a, dst.plus(o), tt, names.params(dn), 0 if o == 0 else 1)
        else:
            # constructor of t taking references to the arguments
            cn = stripcls(t).split('::')[-1]
            cs = [f for f in ex.prog.funcs.values() if names.strip(f['dn']) == stripcls(t) + '::' + cn and len(f['args']) == len(args) and
                  (('<' not in t) or t.split('<', 1)[1].rstrip('>').strip() in f['dn']) and 'C2' in f['name']]
            if len(cs) != 1:
                raise Unsupported('emplace_back construction of ' + t)
            vals = [dst]
            for a, fa in zip(args[1:], cs[0]['args'][1:]):
                vals.append(a if fa['ty'] == 'ptr' else ex.load(st, a, fa['ty']))
            r = ex.run(cs[0], vals, st)
            if r is None:
                return DROP
            st.mem, st.pc = r[1].mem, r[1].pc
    return dst


def copy_conv(ex, st, a, dst, t, ps, i):
    t = ct(t)
    if t in SCALAR:
        pt = ct(ps[i]).rstrip('&').strip() if i < len(ps) else t
        v = ex.loadk(st, a, SCALAR.get(pt, SCALAR[t]))
        if SCALAR[t] == 'r' and SCALAR.get(pt) == 'i':
            v = Fraction(v) if isc(v) else z3.ToReal(v)
        ex.storek(st, dst, SCALAR[t], v)
    else:
        copy_obj(ex, st, a, dst, t)


def sametype(ex, ps, t):
    return bool(ps) and stripcls(ct(ps[0]).rstrip('&').strip()) == stripcls(t)


def v_back(ex, st, ins, args, dn):
    n = vlen(ex, st, args[0])
    ex.oblige(st, 'back() of a non-empty vector', LT(0, n))
    return velem(ex, args[0], sub(n, 1))


def v_front(ex, st, ins, args, dn):
    return velem(ex, args[0], 0)


def v_pop(ex, st, ins, args, dn):
    n = vlen(ex, st, args[0])
    setlen(ex, st, args[0], sub(n, 1))
    return None


def v_begin(ex, st, ins, args, dn):
    return velem(ex, args[0], 0)


def v_end(ex, st, ins, args, dn):
    return velem(ex, args[0], vlen(ex, st, args[0]))


def v_data(ex, st, ins, args, dn):
    return velem(ex, args[0], 0)


def nop(ex, st, ins, args, dn):
    if ins.get('ty') == 'ptr':
        return args[0] if args else NULL
    return UNDEF if 'ty' in ins else None


def v_eq(ex, st, ins, args, dn):
    raise Unsupported('vector comparison')


# ------------------------------------------------------------------ maps
MAPS = ('std::map', 'std::unordered_map', 'std::set', 'std::unordered_set')


def mtypes(dn):
    # only the class the member function belongs to
    best = None
    for m in MAPS:
        k = dn.find(m + '<')
        if k >= 0 and (best is None or k < best[0]):
            best = (k, m)
    m = best[1]
    a = names.targs(dn[best[0]:], m)
    return m, [ct(x) for x in a]


def keykind(t):
    t = ct(t)
    return SCALAR.get(t) or ('s' if t == 'std::string' else 'p')


def keyval(ex, st, loc, t):
    k = keykind(t)
    v = ex.loadk(st, loc, k)
    if k == 'p':
        v = ex.enc(v)
    if k == 'r':
        raise Unsupported('real map key')
    return v


def mhas(ex, st, m, key):
    return ex.loadk(st, m.seg('m', key).mark('has'), 'b')


def scalar_val(ex, vt):
    """maps with a scalar value keep the value of every absent key at its default (unobservable otherwise)"""
    try:
        l = list(leaves(ex, vt))
    except Unsupported:
        return False
    return len(l) == 1 and l[0][0] == () and l[0][1] in ('i', 'r', 'b')


def m_insert_key(ex, st, m, key, vt):
    """ensure key present; default value when absent"""
    had = mhas(ex, st, m, key)
    dst = m.seg('m', key)
    ex.storek(st, dst.mark('has'), 'b', True)
    n = ex.loadk(st, m.mark('msize'), 'i')
    ex.storek(st, m.mark('msize'), 'i', add(n, ITE(had, 0, 1)))
    if vt is not None and not scalar_val(ex, vt):
        for p, k in leaves(ex, vt):
            old = read_leaf(ex, st, dst, p, k)
            set_region(ex, st, dst, p, k, lambda *d: NOT(had), lambda *d, k=k: dflt(k))
    return had


def m_index(ex, st, ins, args, dn):
    m, ts = mtypes(dn)
    key = keyval(ex, st, args[1], ts[0])
    m_insert_key(ex, st, args[0], key, ts[1])
    return args[0].seg('m', key)


def m_at(ex, st, ins, args, dn):
    m, ts = mtypes(dn)
    key = keyval(ex, st, args[1], ts[0])
    st.assume(mhas(ex, st, args[0], key))
    if st.dead():
        return DROP
    return args[0].seg('m', key)


def m_find(ex, st, ins, args, dn):
    m, ts = mtypes(dn)
    key = keyval(ex, st, args[1], ts[0])
    return args[0].seg('fnd', (key, mhas(ex, st, args[0], key)))


def m_count(ex, st, ins, args, dn):
    m, ts = mtypes(dn)
    key = keyval(ex, st, args[1], ts[0])
    return ITE(mhas(ex, st, args[0], key), 1, 0)


def m_end(ex, st, ins, args, dn):
    return args[0].seg('mend', ex.loadk(st, args[0].mark('msize'), 'i'))


def enumeration(ex, st, m, kt, ordered):
    """library contract: iteration visits every key present exactly once (in increasing order for ordered maps of integers)"""
    loc = m.seg('m', 0).mark('has')
    node = ex.node(st, loc.key(), 'b')
    outer = tuple(loc.idx()[:-1])
    n = ex.loadk(st, m.mark('msize'), 'i')
    for e in ex.enumerations:
        if e['node'] is node and e['key'] == loc.key():
            break
    else:
        sg = [I] * (len(outer) + 2)
        e = dict(node=node, key=loc.key(), K=z3.Function(freshname('key'), *sg), pos=z3.Function(freshname('keypos'), *sg), name='ent#%d' % len(ex.enumerations))
        ex.enumerations.append(e)
    K, pos = (lambda i: e['K'](*[zi(x) for x in outer], zi(i))), (lambda i: e['pos'](*[zi(x) for x in outer], zi(i)))
    i, j, k = z3.Int('ei'), z3.Int('ej'), z3.Int('ek')
    has = lambda k: zb(norm(ex.loadk(st, m.seg('m', k).mark('has'), 'b')))
    dom = lambda i: z3.And(0 <= i, i < zi(n))
    A = []
    st.assume(LE(0, n))
    # K restricted to [0,n) is a bijection onto the keys; outside it is extended to a bijection of the integers (a map is finite)
    A.append(z3.ForAll([i], pos(K(i)) == i, patterns=[K(i)]))
    A.append(z3.ForAll([k], K(pos(k)) == k, patterns=[pos(k)]))
    h = has(k)
    pats = [pos(k)]
    if z3.is_app(h) and h.decl().kind() == z3.Z3_OP_UNINTERPRETED and h.num_args():
        pats.append(h)
    A.append(z3.ForAll([k], h == dom(pos(k)), patterns=pats))
    if ordered:
        A.append(z3.ForAll([i, j], z3.Implies(z3.And(dom(i), dom(j), i < j), K(i) < K(j)), patterns=[z3.MultiPattern(K(i), K(j))]))
    # facts about this content of the map, whichever path produced it
    for q in A:
        if not any(q.eq(x) for x in ex.P.axioms):
            ex.P.axioms.append(q)
    return e


def m_begin(ex, st, ins, args, dn):
    mm, ts = mtypes(dn)
    kk = keykind(ts[0])
    e = enumeration(ex, st, args[0], kk, kk == 'i' and 'unordered' not in mm)
    return args[0].seg(e['name'], 0)


def m_size(ex, st, ins, args, dn):
    return ex.loadk(st, args[0].mark('msize'), 'i')


def m_empty(ex, st, ins, args, dn):
    return EQ(ex.loadk(st, args[0].mark('msize'), 'i'), 0)


def m_clear(ex, st, ins, args, dn):
    m = args[0]
    mm, ts = mtypes(dn)
    set_region(ex, st, m, (('seg', 'm'), ('mark', 'has')), 'b', lambda k: True, lambda k: False)
    if not mm.endswith('set') and scalar_val(ex, ts[1]):
        k_ = list(leaves(ex, ts[1]))[0][1]
        set_region(ex, st, m, (('seg', 'm'),), k_, lambda k: True, lambda k: dflt(k_))
    ex.storek(st, m.mark('msize'), 'i', 0)
    return None


def m_erase(ex, st, ins, args, dn):
    mm, ts = mtypes(dn)
    if isinstance(args[1], Loc) and args[1].segs and args[1].segs[-1][1] == 'fnd':
        key, had = args[1].segs[-1][2]
    else:
        key = keyval(ex, st, args[1], ts[0])
        had = mhas(ex, st, args[0], key)
    ex.storek(st, args[0].seg('m', key).mark('has'), 'b', False)
    if not mm.endswith('set') and scalar_val(ex, ts[1]):
        k_ = list(leaves(ex, ts[1]))[0][1]
        ex.storek(st, args[0].seg('m', key), k_, dflt(k_))
    n = ex.loadk(st, args[0].mark('msize'), 'i')
    ex.storek(st, args[0].mark('msize'), 'i', sub(n, ITE(had, 1, 0)))
    if 'ty' in ins and ins['ty'] == 'i64':
        return ITE(had, 1, 0)
    return UNDEF


def m_insert(ex, st, ins, args, dn):
    """insert(pair) / insert(key)"""
    mm, ts = mtypes(dn)
    m, p = args[0], args[1]
    if mm.endswith('set'):
        key = keyval(ex, st, p, ts[0])
        had = m_insert_key(ex, st, m, key, None)
        return (m.seg('fnd', (key, True)), NOT(had))
    ps = names.params(dn)
    pt = ct(ps[0]).rstrip('&').strip() if ps else ''
    if pt.startswith('std::pair<'):
        pa = [ct(x) for x in names.targs(pt, 'std::pair')]
    else:
        pa = ts[:2]
    key = keyval(ex, st, p, pa[0])
    had = mhas(ex, st, m, key)
    ex.storek(st, m.seg('m', key).mark('has'), 'b', True)
    n = ex.loadk(st, m.mark('msize'), 'i')
    ex.storek(st, m.mark('msize'), 'i', add(n, ITE(had, 0, 1)))
    dst = m.seg('m', key)
    o2 = pair_off(ex, pa)
    src = p.plus(o2)
    for lp, k in leaves(ex, ts[1]):
        rd = read_leaf(ex, st, src, lp, k)
        set_region(ex, st, dst, lp, k, lambda *d: NOT(had), rd)
    r = (m.seg('fnd', (key, True)), NOT(had))
    return r


def m_ctor(ex, st, ins, args, dn):
    mm, ts = mtypes(dn)
    ps = [ct(p) for p in names.params(dn)]
    if len(args) > 1 and ps and ps[0].startswith(mm):
        copy_obj(ex, st, args[1], args[0], mm + '<' + ', '.join(ts[:2] if not mm.endswith('set') else ts[:1]) + '>')
        return None
    if len(args) > 1:
        raise Unsupported('map constructor ' + dn)
    m_clear(ex, st, ins, args, dn)
    return None


def m_assignop(ex, st, ins, args, dn):
    mm, ts = mtypes(dn)
    copy_obj(ex, st, args[1], args[0], mm + '<' + ', '.join(ts[:2] if not mm.endswith('set') else ts[:1]) + '>')
    return args[0]


def it_deref(ex, st, ins, args, dn):
    """operator* / operator-> of tree and hash iterators: args[0] is the iterator object (memory) -> entry"""
    p = ex.load(st, args[0], 'ptr')
    return entry_of(ex, st, p)


def entry_of(ex, st, p):
    if isinstance(p, Choice):
        return Choice([(c, entry_of(ex, st, l)) for c, l in p.alts])
    k = p.segs[-1][1]
    o = p.segs[-1][0]
    base = Loc(p.root, p.segs[:-1], o)
    if k == 'fnd':
        key, has = p.segs[-1][2]
        ex.oblige(st, 'map iterator dereferenced is not end()', has)
        return FoundEntry(base, key)
    if k.startswith('ent#'):
        return FoundEntry(base, ex.enumerations[int(k[4:])]['K'](*[zi(x) for x in p.idx()]))
    raise Unsupported('iterator dereference')


def FoundEntry(base, key):
    return Loc(base.root, base.segs + ((base.off, 'fent', key),), 0)


def it_inc(ex, st, ins, args, dn):
    p = ex.load(st, args[0], 'ptr')
    o, k, i = p.segs[-1]
    if not k.startswith('ent#'):
        raise Unsupported('iterator increment')
    ex.store(st, args[0], 'ptr', Loc(p.root, p.segs[:-1] + ((o, k, add(i, 1)),), 0))
    return args[0]


def it_postinc(ex, st, ins, args, dn):
    p = ex.load(st, args[0], 'ptr')
    it_inc(ex, st, ins, args, dn)
    return p


def it_eq(ex, st, ins, args, dn):
    a = ex.load(st, args[0], 'ptr')
    b = ex.load(st, args[1], 'ptr')
    return ex.ptreq(a, b)


def it_ne(ex, st, ins, args, dn):
    return NOT(it_eq(ex, st, ins, args, dn))


# ------------------------------------------------------------------ strings
def s_ctor(ex, st, ins, args, dn):
    ps = [ct(p) for p in names.params(dn)]
    if len(args) == 1 or (ps and 'allocator' in ps[0]):
        ex.storek(st, args[0], 's', 0)
        return None
    if ps[0].startswith('char') and ps[0].endswith('*'):
        ex.storek(st, args[0], 's', cstr(ex, st, args[1]))
        return None
    if 'string' in ps[0]:
        if len(args) > 2 and ins['aty'][2] == 'i64':
            raise Unsupported('substring')
        ex.storek(st, args[0], 's', ex.loadk(st, args[1], 's'))
        return None
    ex.storek(st, args[0], 's', fresh('str'))
    return None


def cstr(ex, st, p):
    if isinstance(p, Loc) and p.root[0] == 'g':
        g = ex.prog.globals.get(p.root[1])
        if g and 'init' in g:
            if g['init'][0] == 'str':
                s = g['init'][1]
                return ex.strlit(s[p.off:].split('\0')[0])
            if g['init'][0] == 'zero':
                return 0
    if isinstance(p, Loc) and p.segs and p.segs[-1][1] == 'cstr':
        return p.segs[-1][2]
    if isinstance(p, Choice):
        r = None
        for c, l in reversed(p.alts):
            v = cstr(ex, st, l)
            r = v if r is None else ITE(c, v, r)
        return r
    return fresh('str')


def s_assign(ex, st, ins, args, dn):
    ps = [ct(p) for p in names.params(dn)]
    if ps and ps[0].startswith('char'):
        v = cstr(ex, st, args[1]) if ps[0].endswith('*') else fresh('str')
    else:
        v = ex.loadk(st, args[1], 's')
    ex.storek(st, args[0], 's', v)
    return args[0]


_cat = z3.Function('str_cat', I, I, I)


def sval(ex, st, a, pt):
    pt = ct(pt)
    if pt.startswith('char') and pt.endswith('*'):
        return cstr(ex, st, a)
    if pt.startswith('char'):
        return fresh('str')
    return ex.loadk(st, a, 's')


def s_cat(ex, st, ins, args, dn):
    # sret dest, a, b
    ps = names.params(dn)
    a, b = sval(ex, st, args[1], ps[0]), sval(ex, st, args[2], ps[1])
    if isc(a) and a == 0:
        r = b
    elif isc(b) and b == 0:
        r = a
    else:
        rv = None
        if isc(a) and isc(b):
            inv = {v: k for k, v in ex.strs.items()}
            if a in inv and b in inv:
                rv = ex.strlit(inv[a] + inv[b])
        r = rv if rv is not None else _cat(zi(a), zi(b))
    ex.storek(st, args[0], 's', r)
    return None


def s_append(ex, st, ins, args, dn):
    ps = names.params(dn)
    a = ex.loadk(st, args[0], 's')
    try:
        b = sval(ex, st, args[1], ps[0])
    except Exception:
        b = fresh('str')
    r = None
    if isc(a) and isc(b):
        inv = {v: k for k, v in ex.strs.items()}
        if a in inv and b in inv:
            r = ex.strlit(inv[a] + inv[b])
    ex.storek(st, args[0], 's', r if r is not None else _cat(zi(a), zi(b)))
    return args[0]


def s_eq(ex, st, ins, args, dn):
    ps = names.params(dn)
    return EQ(sval(ex, st, args[0], ps[0]), sval(ex, st, args[1], ps[1]))


def s_ne(ex, st, ins, args, dn):
    return NOT(s_eq(ex, st, ins, args, dn))


def s_empty(ex, st, ins, args, dn):
    return EQ(ex.loadk(st, args[0], 's'), 0)


def s_cstr(ex, st, ins, args, dn):
    return Loc(('r', 'cstr'), ((0, 'cstr', ex.loadk(st, args[0], 's')),), 0)


_slen = z3.Function('str_len', I, I)


def s_len(ex, st, ins, args, dn):
    v = ex.loadk(st, args[0], 's')
    if isc(v):
        inv = {b: a for a, b in ex.strs.items()}
        if v in inv:
            return len(inv[v])
    r = _slen(zi(v))
    st.assume(r >= 0)
    return r


# ------------------------------------------------------------------ smart pointers
def p_get(ex, st, ins, args, dn):
    return ex.load2(st, args[0])


def p_bool(ex, st, ins, args, dn):
    return NOT(ex.ptreq(ex.load2(st, args[0]), NULL))


def p_ctor(ex, st, ins, args, dn):
    if len(args) == 1:
        ex.storek(st, args[0], 'p', NULL)
        return None
    ps = [ct(p) for p in names.params(dn)]
    p0 = ps[0] if ps else ''
    if p0 == 'std::nullptr_t' or p0 == 'decltype(nullptr)':
        ex.storek(st, args[0], 'p', NULL)
        return None
    if '_ptr<' in p0 and (p0.endswith('&') or p0.endswith('&&')):
        v = ex.load2(st, args[1])
        ex.storek(st, args[0], 'p', v)
        if p0.endswith('&&'):
            ex.storek(st, args[1], 'p', NULL)
        return None
    ex.storek(st, args[0], 'p', args[1])
    return None


def p_assign(ex, st, ins, args, dn):
    ps = [ct(p) for p in names.params(dn)]
    if ps and 'nullptr' in ps[0]:
        ex.storek(st, args[0], 'p', NULL)
        return args[0]
    v = ex.load2(st, args[1])
    ex.storek(st, args[0], 'p', v)
    if ps and ps[0].endswith('&&') and isinstance(args[1], Loc) and args[1].key() != args[0].key():
        ex.storek(st, args[1], 'p', NULL)
    return args[0]


def p_reset(ex, st, ins, args, dn):
    ex.storek(st, args[0], 'p', args[1] if len(args) > 1 and 'aty' in ins and ins['aty'][1] == 'ptr' else NULL)
    return None


def p_release(ex, st, ins, args, dn):
    v = ex.load2(st, args[0])
    ex.storek(st, args[0], 'p', NULL)
    return v


def p_cast(ex, st, ins, args, dn):
    """(sret, src) pointer casts that do not change identity"""
    v = ex.load2(st, args[1])
    ex.storek(st, args[0], 'p', v)
    return None


def new_obj(ex, st, cls='?'):
    ex.newn += 1
    return ref(cls, -100 - ex.newn)


def op_new(ex, st, ins, args, dn):
    return new_obj(ex, st)


def x_assert(ex, st, ins, args, dn):
    st.assume(args[0])
    return DROP if st.dead() else None


def x_drop(ex, st, ins, args, dn):
    return DROP


# ------------------------------------------------------------------ math
_mf = {}


def mfun(name, n=1):
    if (name, n) not in _mf:
        _mf[(name, n)] = z3.Function('m_' + name, *([R] * (n + 1)))
    return _mf[(name, n)]


def m1(name):
    def h(ex, st, ins, args, dn):
        return mapply(ex, st, name, args)
    return h


def mapply(ex, st, name, args):
    a = [norm(x) for x in args]
    if any(x is UNDEF for x in a):
        return UNDEF
    if name == 'fabs':
        x = a[0]
        if isc(x):
            return abs(x)
        return z3.If(x >= 0, x, -x)
    if name == 'pow' and isc(a[1]):
        e = Fraction(a[1])
        if e.denominator == 1 and -4 <= e <= 6:
            n = int(e)
            r = Fraction(1)
            for _ in range(abs(n)):
                r = mul(r, a[0])
            return r if n >= 0 else rdiv(Fraction(1), r)
        if e == Fraction(1, 2):
            return mapply(ex, st, 'sqrt', [a[0]])
    if name == 'sqrt' and isc(a[0]):
        import math
        q = Fraction(a[0])
        if q >= 0:
            n, d = math.isqrt(q.numerator), math.isqrt(q.denominator)
            if n * n == q.numerator and d * d == q.denominator:
                return Fraction(n, d)
    if name == 'exp' and isc(a[0]) and a[0] == 0:
        return Fraction(1)
    r = mfun(name, len(a))(*[zr(x) for x in a])
    if name == 'sqrt':
        st.assume(r >= 0)
        st.assume(OR(LT(a[0], Fraction(0)), EQ(r * r, a[0])))
    if name == 'exp':
        st.assume(r > 0)
    return r


def x_tostring(ex, st, ins, a, dn):
    """std::to_string of a known integer"""
    v = norm(a[1])
    if not isinstance(v, int):
        raise Unsupported('to_string of an unknown value')
    ex.storek(st, a[0], 's', ex.strlit(str(v)))


def x_minmax(kind):
    def h(ex, st, ins, args, dn):
        # references
        if ins['aty'][0] != 'ptr' or len(args) != 2:
            return PASS
        t = names.targs(dn, 'std::' + kind)
        t = ct(t[0]) if t else 'double'
        k = SCALAR.get(t)
        if k is None:
            return PASS
        a, b = ex.loadk(st, args[0], k), ex.loadk(st, args[1], k)
        c = LT(b, a) if kind == 'min' else LT(a, b)
        ex.allocn += 1
        l = Loc(('a', ex.allocn), (), 0)
        ex.storek(st, l, k, ITE(c, b, a))
        return l
    return h


def x_fmuladd(ex, st, ins, args, dn):
    return add(mul(args[0], args[1]), args[2])


def x_memcpy(ex, st, ins, args, dn):
    dst, src, n = args[0], args[1], args[2]
    if isinstance(dst, Loc) and isinstance(src, Loc) and isc(n):
        lty = None
        for q in (dst, src):
            if q.lty and abs(ex.lsize(q.lty) - n) <= 7 and q.off == 0:
                lty = q.lty
        if lty:
            memcpy_typed(ex, st, dst, src, lty)
            return None
        t = ex.copy_types.get(n)
        # by alloca type of either side, else prefix copy of what is known
        for q in (dst, src):
            if q.root[0] == 'r' and len(q.segs) == 1:
                pass
        if src.root[0] == 'g':
            g = ex.prog.globals.get(src.root[1])
            if g:
                memcpy_typed(ex, st, dst, src, g['ty']) if False else glob_copy(ex, st, dst, src, g['ty'], n)
                return None
        if isinstance(src.off, int) and isinstance(dst.off, int):
            keys = [k for k in list(st.mem) + list(ex.initial) if isinstance(k, tuple) and len(k) == 4 and k[0] == src.root and k[1] == tuple((s[0], s[1]) for s in src.segs)
                    and isinstance(k[2], int) and src.off <= k[2] < src.off + n]
            if keys:
                for k in dict.fromkeys(keys):
                    d = k[2] - src.off
                    ex.storek(st, dst.plus(d), k[3], ex.loadk(st, src.plus(d), k[3]))
                return None
        if n == 8:
            raise Unsupported('memcpy of 8 untyped bytes')
    raise Unsupported('memcpy')


def glob_copy(ex, st, dst, src, ty, n):
    def rec(t, off):
        if t[0] in '%{[':
            for o, t2 in ex.struct_els(t):
                rec(t2, off + o)
        elif off < n:
            ex.store(st, dst.plus(off), t, ex.load(st, src.plus(off), t))
    rec(ty, 0)


def x_memset(ex, st, ins, args, dn):
    dst, v, n = args[0], args[1], args[2]
    if isc(v) and v == 0 and isinstance(dst, Loc):
        if dst.lty and isc(n) and n <= 4096:
            def rec(t, off):
                if t[0] in '%{[':
                    for o, t2 in ex.struct_els(t):
                        rec(t2, off + o)
                else:
                    ex.store(st, dst.plus(off), t, 0 if t[0] == 'i' else (NULL if t == 'ptr' else Fraction(0)))
            rec(dst.lty, 0)
            return None
        if dst.isref() and isc(dst.rid) and dst.rid == -100 - ex.newn and dst.off == 0:
            return None     # value-initialised fresh allocation: its contents stay unknown (an over-approximation)
        if isc(n) and n <= 4096 and n % 8 == 0 and (not dst.segs or dst.segs[-1][1] not in ('e', 'it')):
            # zero bytes of an object whose type the instruction does not give: every member read back is zero, whatever its kind
            for o in range(0, int(n), 8):
                ex.storek(st, dst.plus(o), 'r', Fraction(0))
                ex.storek(st, dst.plus(o), 'p', NULL)
                for o4 in (o, o + 4):
                    ex.storek(st, dst.plus(o4), 'i', 0)
            return None
    raise Unsupported('memset')


def x_umul(ex, st, ins, args, dn):
    return (mul(args[0], args[1]), False)


def x_ident(ex, st, ins, args, dn):
    return args[0]


def x_swap(ex, st, ins, args, dn):
    t = names.targs(dn, 'std::swap')
    if not t:
        return PASS
    swap_obj(ex, st, args[0], args[1], t[0])
    return None


def x_fill(ex, st, ins, args, dn):
    a, b, v = args
    if isinstance(a, Loc) and isinstance(b, Loc) and a.key() == b.key() and a.segs and a.segs[-1][1] == 'e':
        ps = names.params(dn)
        t = ct(ps[-1]).rstrip('&').strip()
        if t in SCALAR:
            val = ex.loadk(st, v, SCALAR[t])
            o, _, i0 = a.segs[-1]
            base = Loc(a.root, a.segs[:-1], o)
            hi = b.segs[-1][2]
            set_region(ex, st, base, (('seg', 'e'),), SCALAR[t], lambda i: AND(LE(i0, i), LT(i, hi)), lambda i: val)
            return None
    return PASS


def x_copy(ex, st, ins, args, dn):
    a, b, d = args
    if isinstance(a, Loc) and isinstance(b, Loc) and isinstance(d, Loc) and a.key() == b.key() and a.segs[-1][1] == 'e' and d.segs and d.segs[-1][1] == 'e':
        ps = names.params(dn)
        m = re.search(r'std::vector<([\w: ]+), std::alloc', dn)
        t = ct(m.group(1)) if m else 'double'
        o, _, i0 = a.segs[-1]
        src = Loc(a.root, a.segs[:-1], o)
        n = sub(b.segs[-1][2], i0)
        o2, _, j0 = d.segs[-1]
        dst = Loc(d.root, d.segs[:-1], o2)
        for p, k in leaves(ex, t):
            pp = (('seg', 'e'),) + p
            rd = read_leaf(ex, st, src, pp, k)
            set_region(ex, st, dst, pp, k, lambda i, *q: AND(LE(j0, i), LT(i, add(j0, n))), lambda i, *q, rd=rd: rd(add(sub(i, j0), i0), *q))
        return Loc(d.root, d.segs[:-1] + ((o2, 'e', add(j0, n)),), 0)
    return PASS


def fuzzy(ex, sn, dn):
    """handlers selected by name pattern"""
    base = sn.rsplit('::', 1)[-1]
    if sn.startswith('llvm.'):
        b = sn.split('.')[1]
        if b in ('lifetime', 'dbg', 'assume', 'experimental', 'stacksave', 'stackrestore', 'donothing', 'trap', 'ubsantrap', 'invariant'):
            return nop if b not in ('trap', 'ubsantrap') else x_drop
        if b in ('fmuladd', 'fma'):
            return x_fmuladd
        if b in ('fabs', 'sqrt', 'exp', 'log', 'pow', 'sin', 'cos', 'tan', 'floor', 'ceil', 'exp2', 'log10', 'log2', 'powi', 'round', 'trunc'):
            return m1('pow' if b == 'powi' else b)
        if b in ('memcpy', 'memmove'):
            return x_memcpy
        if b == 'memset':
            return x_memset
        if b in ('umul',):
            return x_umul
        if b in ('umax', 'smax', 'maxnum'):
            return lambda ex, st, ins, a, dn: ITE(LT(a[0], a[1]), a[1], a[0])
        if b in ('umin', 'smin', 'minnum'):
            return lambda ex, st, ins, a, dn: ITE(LT(a[0], a[1]), a[0], a[1])
        if b == 'is':
            return lambda ex, st, ins, a, dn: False
        if b == 'expect':
            return x_ident
        if b == 'abs':
            return lambda ex, st, ins, a, dn: ITE(LE(0, a[0]), a[0], neg(a[0]))
        return None
    if '::~' in sn:
        if any(x in sn for x in ('std::', '__gnu_cxx', 'dsMath', 'ScalarData', 'ostringstream')) or True:
            if sn.startswith('std::') or sn.startswith('__gnu') or ex.skip_dtors:
                return nop
    if re.match(r'std::(_Rb_tree_(const_)?iterator|__detail::_Node_(const_)?iterator|_List_(const_)?iterator)::', sn):
        if base in ('operator*', 'operator->'):
            return it_deref
        if base == 'operator++':
            return it_postinc if '(int)' in dn else it_inc
        if base.startswith('_Rb_tree') or base.startswith('_Node_'):
            return lambda ex, st, ins, a, dn: (ex.store(st, a[0], 'ptr', ex.load(st, a[1], 'ptr')) if len(a) > 1 else None)
    if sn in ('std::operator==', 'std::operator!=', 'std::__detail::operator==', 'std::__detail::operator!=') and ('_Rb_tree' in dn or '_Node_' in dn):
        return it_eq if sn.endswith('==') else it_ne
    if sn in ('std::operator==', 'std::operator!=') and ('basic_string' in dn):
        return s_eq if sn.endswith('==') else s_ne
    if sn in ('std::operator==', 'std::operator!=') and ('shared_ptr' in dn or 'unique_ptr' in dn):
        def pe(ex, st, ins, a, dn):
            e = ex.ptreq(ex.load2(st, a[0]), NULL if 'nullptr' in dn else ex.load2(st, a[1]))
            return e if sn.endswith('==') else NOT(e)
        return pe
    if sn == 'std::operator+' and 'basic_string' in dn:
        return s_cat
    if sn.startswith('std::') and ('ostream' in sn or 'stringstream' in sn or 'istream' in sn or 'ios_base' in sn):
        if base == 'str' :
            return lambda ex, st, ins, a, dn: ex.storek(st, a[0], 's', fresh('str'))
        return nop
    if sn in ('std::operator<<', 'std::setprecision', 'std::setw', 'std::endl', 'std::scientific', 'std::left', 'std::right'):
        return nop
    if sn.startswith('std::allocator::') or sn.startswith('std::__new_allocator') or sn.startswith('std::allocator_traits'):
        return nop
    return None


def load2(ex, st, l):
    return ex.loadk(st, l, 'p')


def install(ex):
    ex.cache = {}
    ex.ghosts = []
    ex.bags = {}
    ex.enumerations = []
    ex.inverses = {}         # injection name -> left inverse (hypothesised by the specification)
    ex.enums = set()
    ex.copy_types = {}
    ex.skip_dtors = True
    ex.load2 = lambda st, l: load2(ex, st, l)
    H = ex.handlers
    for nm, fn in dict(size=v_size, clear=v_clear, resize=v_resize, assign=v_assign, swap=v_swap, push_back=v_push, emplace_back=v_emplace, back=v_back,
                       front=v_front, begin=v_begin, end=v_end, cbegin=v_begin, cend=v_end, data=v_data, empty=v_empty, pop_back=v_pop, reserve=nop,
                       shrink_to_fit=nop, at=v_index, vector=v_ctor).items():
        H['std::vector::' + nm] = fn
    H['std::vector::operator[]'] = v_index
    H['std::vector::operator='] = v_assignop
    for m in MAPS:
        for nm, fn in dict(find=m_find, count=m_count, end=m_end, begin=m_begin, cbegin=m_begin, cend=m_end, size=m_size, empty=m_empty, clear=m_clear, erase=m_erase, insert=m_insert,
                           at=m_at).items():
            H[m + '::' + nm] = fn
        H[m + '::operator[]'] = m_index
        H[m + '::operator='] = m_assignop
        H[m + '::' + m.split('::')[1]] = m_ctor
    S = 'std::__cxx11::basic_string::'
    H[S + 'basic_string'] = s_ctor
    H[S + 'operator='] = s_assign
    H[S + 'assign'] = s_assign
    H[S + 'operator+='] = s_append
    H[S + 'append'] = s_append
    H[S + 'empty'] = s_empty
    H[S + 'size'] = s_len
    H[S + 'length'] = s_len
    H[S + 'c_str'] = s_cstr
    H[S + 'clear'] = lambda ex, st, ins, a, dn: ex.storek(st, a[0], 's', 0)
    for p in ('std::__shared_ptr', 'std::shared_ptr', 'std::unique_ptr', 'std::__shared_ptr_access', 'std::weak_ptr', 'std::__weak_ptr'):
        n = p.split('::')[1]
        H[p + '::get'] = p_get
        H[p + '::operator->'] = p_get
        H[p + '::operator*'] = p_get
        H[p + '::operator bool'] = p_bool
        H[p + '::operatorbool'] = p_bool
        H[p + '::' + n] = p_ctor
        H[p + '::operator='] = p_assign
        H[p + '::reset'] = p_reset
        H[p + '::release'] = p_release
        H[p + '::lock'] = p_cast
        H[p + '::expired'] = lambda ex, st, ins, a, dn: ex.ptreq(ex.load2(st, a[0]), NULL)
    H['std::dynamic_pointer_cast'] = p_cast
    H['std::static_pointer_cast'] = p_cast
    H['std::const_pointer_cast'] = p_cast
    H['operatornew'] = op_new
    H['operator new'] = op_new
    H['operatordelete'] = nop
    H['operator delete'] = nop
    H['dsAssert_'] = x_assert
    H['__assert_fail'] = x_drop
    H['abort'] = x_drop
    H['exit'] = x_drop
    H['__cxa_throw'] = x_drop
    H['__cxa_allocate_exception'] = op_new
    H['__cxa_guard_acquire'] = lambda ex, st, ins, a, dn: 1
    H['__cxa_guard_release'] = nop
    H['__cxa_atexit'] = nop
    H['__cxa_thread_atexit'] = nop
    H['llvm.threadlocal.address.p0'] = x_ident
    H['__dynamic_cast'] = x_ident
    for p in ('std::', ''):
        for fn in ('exp', 'log', 'sqrt', 'pow', 'sin', 'cos', 'tan', 'sinh', 'cosh', 'tanh', 'asin', 'acos', 'atan', 'atan2', 'fabs', 'floor', 'ceil', 'log10', 'log1p', 'expm1',
                   'erf', 'erfc', 'log2', 'asinh', 'acosh', 'atanh'):
            H[p + fn] = m1(fn)
    def absh(ex, st, ins, a, dn):
        if ins['aty'][0] == 'ptr':
            return PASS
        return ITE(LE(0 if isint(a[0]) else Fraction(0), a[0]), a[0], neg(a[0]))
    H['std::abs'] = absh
    H['abs'] = absh
    H['std::min'] = x_minmax('min')
    H['std::max'] = x_minmax('max')
    H['std::isnan'] = lambda ex, st, ins, a, dn: False
    H['std::isinf'] = lambda ex, st, ins, a, dn: False
    H['std::to_string'] = H['std::__cxx11::to_string'] = x_tostring
    H['std::swap'] = x_swap
    H['std::fill'] = x_fill
    H['std::copy'] = x_copy
    H['OutputStream::WriteOut'] = nop
    H['std::forward'] = x_ident
    H['std::move'] = lambda ex, st, ins, a, dn: a[0] if len(a) == 1 else PASS

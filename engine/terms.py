"""Term layer: numbers, smart constructors, summation symbols, proving."""
import z3, time, subprocess, tempfile, os, hashlib
from fractions import Fraction

z3.set_param('smt.random_seed', 1)
RL_PER_MS = 5000
FACTOR = [float(os.environ.get('VFACTOR', '1'))]      # retries of an undischarged unit enlarge every solver limit
I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()


import z3.z3core as _core
_kind = _core.Z3_get_ast_kind.__defaults__[0].f
_nargs = _core.Z3_get_app_num_args.__defaults__[0].f


def isc(x):
    return isinstance(x, (int, Fraction, bool))


def norm(x):
    """z3 numerals -> python numbers"""
    if isinstance(x, z3.ExprRef):
        k = _kind(x.ctx.ctx, x.ast)
        if k != 0 and not (k == 1 and _nargs(x.ctx.ctx, x.ast) == 0):
            return x
        if z3.is_int_value(x):
            return x.as_long()
        if z3.is_rational_value(x):
            return Fraction(x.numerator_as_long(), x.denominator_as_long())
        if z3.is_true(x):
            return True
        if z3.is_false(x):
            return False
    return x


def zi(x):
    if isinstance(x, bool):
        return z3.IntVal(1 if x else 0)
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, Fraction):
        assert x.denominator == 1
        return z3.IntVal(x.numerator)
    if z3.is_bool(x):
        return z3.If(x, z3.IntVal(1), z3.IntVal(0))
    return x


def zr(x):
    if isinstance(x, bool):
        return z3.RealVal(int(x))
    if isinstance(x, int):
        return z3.RealVal(x)
    if isinstance(x, Fraction):
        return z3.Q(x.numerator, x.denominator)
    if isinstance(x, z3.ArithRef) and x.is_int():
        return z3.ToReal(x)
    return x


def zb(x):
    if isinstance(x, bool):
        return z3.BoolVal(x)
    return x


def isint(x):
    return (isinstance(x, int) and not isinstance(x, bool)) or (isinstance(x, z3.ArithRef) and x.is_int())


def z(x):
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, Fraction):
        return z3.Q(x.numerator, x.denominator)
    return x


def _lin(x):
    """split x as (base, const) for ints"""
    if isc(x):
        return None, x
    if z3.is_add(x) and x.num_args() >= 2:
        a = [x.arg(i) for i in range(x.num_args())]
        cs = [c for c in a if z3.is_int_value(c) or z3.is_rational_value(c)]
        if cs:
            rest = [c for c in a if not (z3.is_int_value(c) or z3.is_rational_value(c))]
            k = sum(norm(c) for c in cs)
            if not rest:
                return None, k
            b = rest[0] if len(rest) == 1 else z3.Sum(rest)
            return b, k
    return x, 0


def add(a, b):
    a, b = norm(a), norm(b)
    if isc(a) and isc(b):
        return a + b
    if isc(a) and a == 0:
        return b
    if isc(b) and b == 0:
        return a
    ba, ka = _lin(a)
    bb, kb = _lin(b)
    k = ka + kb
    if ba is None:
        base = bb
    elif bb is None:
        base = ba
    else:
        base = ba + bb
    if k == 0:
        return base
    return base + (z(k) if base.is_int() else zr(k))


def neg(a):
    a = norm(a)
    if isc(a):
        return -a
    if a.decl().kind() == z3.Z3_OP_UMINUS:
        return a.arg(0)
    return -a


def sub(a, b):
    a, b = norm(a), norm(b)
    if isc(a) and isc(b):
        return a - b
    if isc(b):
        return add(a, -b)
    if not isc(a) and a.eq(b):
        return 0 if a.is_int() else Fraction(0)
    ba, ka = _lin(a)
    bb, kb = _lin(b)
    if ba is not None and bb is not None and ba.eq(bb):
        return ka - kb
    # (x + y) - y
    if not isc(a) and z3.is_add(a):
        aa = [a.arg(i) for i in range(a.num_args())]
        for i, q in enumerate(aa):
            if q.eq(b):
                r = aa[:i] + aa[i + 1:]
                return norm(r[0] if len(r) == 1 else z3.Sum(r))
    return z(a) - b if not isc(a) else (zr(a) if not b.is_int() else z(a)) - b


def mul(a, b):
    a, b = norm(a), norm(b)
    if isc(a) and isc(b):
        return a * b
    for p, q in ((a, b), (b, a)):
        if isc(p):
            if p == 0:
                return 0 if q.is_int() else Fraction(0)
            if p == 1:
                return q
            if p == -1:
                return neg(q)
            return (z(p) if q.is_int() else zr(p)) * q
    return a * b


def rdiv(a, b):
    a, b = norm(a), norm(b)
    if isc(b) and b != 0:
        if isc(a):
            return Fraction(a) / Fraction(b)
        return mul(Fraction(1) / Fraction(b), a)
    if isc(a) and a == 0 and False:
        return Fraction(0)
    return zr(a) / zr(b)


def idiv(a, b):
    """truncated toward zero when signed const, plain for nonneg"""
    a, b = norm(a), norm(b)
    if isc(a) and isc(b) and b != 0:
        q = abs(a) // abs(b)
        return q if (a >= 0) == (b >= 0) else -q
    if isc(b) and b > 0:
        # c*x div c
        if z3.is_mul(a) and a.num_args() == 2 and z3.is_int_value(a.arg(0)) and a.arg(0).as_long() % b == 0:
            return mul(a.arg(0).as_long() // b, a.arg(1))
        if b == 1:
            return a
        return z3.If(zi(a) >= 0, zi(a) / b, -((-zi(a)) / b))
    return z3.If(zi(a) >= 0, zi(a) / zi(b), -((-zi(a)) / zi(b)))


def udiv(a, b):
    a, b = norm(a), norm(b)
    if isc(a) and isc(b) and b != 0:
        return a // b
    if isc(b) and b == 1:
        return a
    if isc(b) and z3.is_mul(a) and a.num_args() == 2 and z3.is_int_value(a.arg(0)) and a.arg(0).as_long() % b == 0:
        return mul(a.arg(0).as_long() // b, a.arg(1))
    return zi(a) / zi(b)


def urem(a, b):
    a, b = norm(a), norm(b)
    if isc(a) and isc(b) and b != 0:
        return a % b
    return zi(a) % zi(b)


def NOT(a):
    a = norm(a)
    if isinstance(a, bool):
        return not a
    if z3.is_not(a):
        return a.arg(0)
    return z3.Not(a)


def AND(*xs):
    out = []
    for x in xs:
        x = norm(x)
        if isinstance(x, bool):
            if not x:
                return False
            continue
        if any(x.eq(y) for y in out):
            continue
        out.append(x)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(out)


def OR(*xs):
    out = []
    for x in xs:
        x = norm(x)
        if isinstance(x, bool):
            if x:
                return True
            continue
        if any(x.eq(y) for y in out):
            continue
        if any(NOT(x).eq(y) for y in out):
            return True
        out.append(x)
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(out)


def IMP(a, b):
    return OR(NOT(a), b)


def EQ(a, b):
    a, b = norm(a), norm(b)
    if isinstance(a, bool) or isinstance(b, bool) or (not isc(a) and z3.is_bool(a)) or (not isc(b) and z3.is_bool(b)):
        if isinstance(a, bool) and isinstance(b, bool):
            return a == b
        if isinstance(a, bool):
            return b if a else NOT(b)
        if isinstance(b, bool):
            return a if b else NOT(a)
        if a.eq(b):
            return True
        return a == b
    if isc(a) and isc(b):
        return a == b
    if not isc(a) and not isc(b) and a.eq(b):
        return True
    if isint(a) and isint(b):
        ba, ka = _lin(a)
        bb, kb = _lin(b)
        if ba is not None and bb is not None and ba.eq(bb):
            return ka == kb
        return zi(a) == zi(b)
    return zr(a) == zr(b)


def LT(a, b):
    a, b = norm(a), norm(b)
    if isc(a) and isc(b):
        return a < b
    if not isc(a) and not isc(b) and a.eq(b):
        return False
    if isint(a) and isint(b):
        ba, ka = _lin(a)
        bb, kb = _lin(b)
        if ba is not None and bb is not None and ba.eq(bb):
            return ka < kb
        return zi(a) < zi(b)
    return zr(a) < zr(b)


def LE(a, b):
    return NOT2(LT(b, a))


def NOT2(a):
    """Not of a strict comparison, rewritten as <="""
    a = norm(a)
    if isinstance(a, bool):
        return not a
    if z3.is_lt(a):
        return a.arg(1) <= a.arg(0)
    return NOT(a)


def ITE(c, a, b):
    c = norm(c)
    if isinstance(c, bool):
        return a if c else b
    a, b = norm(a), norm(b)
    if isc(a) and isc(b) and a == b and type(a) == type(b):
        return a
    if not isc(a) and not isc(b) and a.eq(b):
        return a
    bl = lambda x: isinstance(x, bool) or (not isc(x) and z3.is_bool(x))
    if bl(a) and bl(b):
        if a is True and b is False:
            return c
        if a is False and b is True:
            return NOT(c)
        if a is True:
            return OR(c, b)
        if b is False:
            return AND(c, a)
        if a is False:
            return AND(NOT(c), b)
        if b is True:
            return OR(NOT(c), a)
        return z3.If(c, zb(a), zb(b))
    if bl(a):
        a = ITE(a, 1, 0)
    if bl(b):
        b = ITE(b, 1, 0)
    if isint(a) and isint(b):
        if not isc(a) and z3.is_app_of(a, z3.Z3_OP_ITE) and a.arg(0).eq(c):
            a = a.arg(1)
        if not isc(b) and z3.is_app_of(b, z3.Z3_OP_ITE) and b.arg(0).eq(c):
            b = b.arg(2)
        return z3.If(c, zi(a), zi(b))
    return z3.If(c, zr(a), zr(b))


_fresh = [0]


def fresh(name, sort=I):
    _fresh[0] += 1
    return z3.Const('%s!%d' % (name, _fresh[0]), sort)


def freshname(name):
    _fresh[0] += 1
    return '%s!%d' % (name, _fresh[0])


# ---------------------------------------------------------------- traversal
def consts_in(e, acc=None, seen=None):
    """0-ary uninterpreted constants in e, ordered by first occurrence"""
    acc = [] if acc is None else acc
    seen = set() if seen is None else seen
    st = [e]
    while st:
        x = st.pop()
        k = x.get_id()
        if k in seen:
            continue
        seen.add(k)
        if z3.is_quantifier(x):
            st.append(x.body())
        elif z3.is_app(x):
            if x.num_args() == 0:
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    acc.append(x)
            else:
                for i in range(x.num_args() - 1, -1, -1):
                    st.append(x.arg(i))
    return acc


def occurs(e, names):
    if isc(e):
        return False
    return any(c.decl().name() in names for c in consts_in(e))


def consts_in(e):
    out, seen, todo = [], set(), [e]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            todo.append(x.body())
        elif z3.is_app(x):
            if x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.append(x)
            todo.extend(x.children())
    return out


def funs_in(e, pred, seen=None):
    """applications whose decl name satisfies pred"""
    out = []
    seen = set() if seen is None else seen
    st = [e]
    while st:
        x = st.pop()
        k = x.get_id()
        if k in seen:
            continue
        seen.add(k)
        if z3.is_quantifier(x):
            continue
        if z3.is_app(x):
            if x.num_args() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and pred(x.decl().name()):
                out.append(x)
            for i in range(x.num_args()):
                st.append(x.arg(i))
    return out


def hasfun(e, names):
    """does e contain a function/const with a name in names"""
    if isc(e):
        return False
    seen = set()
    st = [e]
    while st:
        x = st.pop()
        k = x.get_id()
        if k in seen:
            continue
        seen.add(k)
        if z3.is_quantifier(x):
            st.append(x.body())
        elif z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name() in names:
                return True
            for i in range(x.num_args()):
                st.append(x.arg(i))
    return False


_rs = [0]


def renorm(e):
    """rebuild summation symbols after a substitution (their arguments may decide conditions)"""
    e = norm(e)
    if isc(e) or not SUMS:
        return e
    apps = funs_in(e, lambda n: n.startswith('SUM#'))
    if not apps:
        return e
    pairs = []
    for a in apps:
        _rs[0] += 1
        s = z3.Const('rs@%d' % _rs[0], I)
        b = sum_body(a, s)
        n = renorm(a.arg(a.num_args() - 1))
        b2 = renorm(norm(z3.simplify(b)))
        r = SUM(s, b2, n)
        if isc(r) or not r.eq(a):
            pairs.append((a, zr(r) if z3.is_real(a) else zi(r)))
    return norm(z3.substitute(e, *pairs)) if pairs else e


def subst(e, pairs):
    if isc(e):
        return e
    return renorm(subst0(e, pairs))


def subst0(e, pairs):
    if isc(e):
        return e
    ps = [(a, zr(b) if z3.is_real(a) else (zi(b) if not z3.is_bool(a) else zb(b))) for a, b in pairs]
    return norm(z3.substitute(e, *ps))


# ---------------------------------------------------------------- summation symbols
SUMS = {}      # decl name -> (params placeholders, bound var, body, sort)
_sumkey = {}


# ordered arguments, conditional products
_canon, _skey = {}, {}
_AC = (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_EQ)


def skey(e):
    k = e.get_id()
    if k not in _skey:
        _skey[k] = (e.sexpr(), e)
    return _skey[k][0]


def canon(e):
    """the same term with the arguments of commutative operations in a fixed order"""
    if not z3.is_app(e) or not e.num_args():
        return e
    k = e.get_id()
    if k in _canon:
        return _canon[k][0]
    a = [canon(x) for x in e.children()]
    kind = e.decl().kind()
    if kind in _AC:
        a.sort(key=skey)
    if kind == z3.Z3_OP_ADD:
        r = z3.Sum(a) if len(a) > 2 else a[0] + a[1]
    elif kind == z3.Z3_OP_MUL:
        r = z3.Product(a)
    elif kind == z3.Z3_OP_AND:
        r = z3.And(a)
    elif kind == z3.Z3_OP_OR:
        r = z3.Or(a)
    elif kind == z3.Z3_OP_EQ:
        r = a[0] == a[1]
    else:
        r = e.decl()(*a)
    _canon[k] = (r, e)
    return r


def pieces(e):
    """e as a list of (literals, monomial)"""
    e = norm(e)
    if isc(e):
        return [] if e == 0 else [([], e)]
    if z3.is_add(e):
        return [p for x in e.children() for p in pieces(x)]
    if z3.is_app_of(e, z3.Z3_OP_UMINUS):
        return [(l, neg(m)) for l, m in pieces(e.arg(0))]
    if z3.is_sub(e):
        return pieces(e.arg(0)) + [(l, neg(m)) for x in e.children()[1:] for l, m in pieces(x)]
    if z3.is_app_of(e, z3.Z3_OP_ITE):
        c = e.arg(0)
        return [(conj(c) + l, m) for l, m in pieces(e.arg(1))] + [(conj(NOT(c)) + l, m) for l, m in pieces(e.arg(2))]
    if z3.is_mul(e) and any(z3.is_add(x) or z3.is_app_of(x, z3.Z3_OP_ITE) for x in e.children()):
        acc = [([], 1 if e.is_int() else Fraction(1))]
        for x in e.children():
            ps = pieces(x)
            if len(acc) * len(ps) > 64:
                return [([], e)]
            acc = [(l1 + l2, mul(m1, m2)) for l1, m1 in acc for l2, m2 in ps]
        return acc
    if not z3.is_mul(e) or e.is_real():
        c = inner_cond(e)
        if c is not None:
            t = pieces(replace_cond(e, c, True))
            f = pieces(replace_cond(e, c, False))
            return [(conj(c) + l, m) for l, m in t] + [(conj(NOT(c)) + l, m) for l, m in f]
    return [([], e)]


def inner_cond(e):
    """condition of a conditional inside the arguments of a function (not inside a sum's symbol)"""
    st, seen = list(e.children()), set()
    if e.decl().name().startswith('SUM#'):
        return None
    while st:
        x = st.pop()
        if x.get_id() in seen or not z3.is_app(x):
            continue
        seen.add(x.get_id())
        if z3.is_app_of(x, z3.Z3_OP_ITE):
            return x.arg(0)
        if x.decl().name().startswith('SUM#'):
            continue
        st += x.children()
    return None


def replace_cond(e, c, v):
    return norm(z3.simplify(z3.substitute(e, (c, z3.BoolVal(v))), som=False))


def SUM(s, body, n):
    """sum_{0<=s<n} body ; n assumed >= 0"""
    body, n = norm(body), norm(n)
    if isc(n) and n <= 0:
        return Fraction(0) if not isint(body) else 0
    if isc(body):
        if body == 0:
            return body
        return mul(body, n if isint(body) else zr(n))
    body = z3.simplify(body, som=False)
    body = norm(body)
    if isc(body):
        return SUM(s, body, n)
    if not any(c.eq(s) for c in consts_in(body)):
        return mul(body, n if body.is_int() else zr(n))
    if isc(n) and n <= 4:
        r = 0 if body.is_int() else Fraction(0)
        for k in range(n):
            r = add(r, subst(body, [(s, k)]))
        return r
    # distribute over + and numeral factors so that sums are kept small
    if z3.is_add(body):
        r = None
        for i in range(body.num_args()):
            q = SUM(s, body.arg(i), n)
            r = q if r is None else add(r, q)
        return r
    if body.decl().kind() == z3.Z3_OP_UMINUS:
        return neg(SUM(s, body.arg(0), n))
    if z3.is_mul(body):
        fs = [body.arg(i) for i in range(body.num_args())]
        outs = [f for f in fs if not any(c.eq(s) for c in consts_in(f))]
        ins = [f for f in fs if any(c.eq(s) for c in consts_in(f))]
        if outs and ins:
            o = outs[0] if len(outs) == 1 else z3.Product(outs)
            inn = ins[0] if len(ins) == 1 else z3.Product(ins)
            return mul(o, SUM(s, inn, n))
    if z3.is_app_of(body, z3.Z3_OP_ITE):
        body = flat0(body)
    if isc(body):
        return SUM(s, body, n)
    if z3.is_app_of(body, z3.Z3_OP_ITE):
        c, a, b = body.arg(0), body.arg(1), body.arg(2)
        cs = [c.arg(i) for i in range(c.num_args())] if z3.is_and(c) else [c]
        dep = lambda e: any(q.eq(s) for q in consts_in(e))
        outc = [q for q in cs if not dep(q)]
        inc = [q for q in cs if dep(q)]
        if outc and (not inc or norm(b) == 0 if isc(norm(b)) else not inc):
            rest = a if not inc else ITE(AND(*inc), a, b)
            return ITE(AND(*outc), SUM(s, rest, n), SUM(s, b, n))
        if isc(norm(b)) and norm(b) == 0:
            # sum over a single index
            for q in inc:
                if not z3.is_eq(q) or not (z3.is_arith(q.arg(0)) and q.arg(0).is_int()):
                    continue
                d = norm(z3.simplify(q.arg(0) - q.arg(1)))
                if isc(d):
                    continue
                st_ = norm(z3.simplify(z3.substitute(d, (s, s + 1)) - d))
                if not isc(st_) or st_ not in (1, -1):
                    continue
                d0 = norm(z3.simplify(z3.substitute(d, (s, z3.IntVal(0)))))
                at = norm(z3.simplify(z(neg(d0) if st_ == 1 else d0)))
                oth = [x for x in inc if not x.eq(q)]
                return ITE(AND(LE(0, at), LT(at, n), *[subst(x, [(s, at)]) for x in oth]), subst(a, [(s, at)]), Fraction(0) if not isint(a) else 0)
    ps = [c for c in consts_in(body) if not c.eq(s)]
    ph = [z3.Const('P%d_%s' % (i, c.sort().name()), c.sort()) for i, c in enumerate(ps)]
    bv = z3.Const('S_bound', s.sort())
    nb = z3.substitute(body, *([(c, p) for c, p in zip(ps, ph)] + [(s, bv)]))
    key = (nb.sexpr(), tuple(p.sort().name() for p in ph))
    if key not in _sumkey:
        nm = 'SUM#%d' % len(SUMS)
        SUMS[nm] = (ph, bv, nb, nb.sort(), z3.Function(nm, *([p.sort() for p in ph] + [I, nb.sort()])))
        _sumkey[key] = nm
    f = SUMS[_sumkey[key]][4]
    return f(*(ps + [zi(n)]))


def flat0(e):
    """ITE nests with zero branches -> ITE(conjunction, x, 0)"""
    e = norm(e)
    if isc(e) or not z3.is_app_of(e, z3.Z3_OP_ITE):
        return e
    c, a, b = e.arg(0), flat0(e.arg(1)), flat0(e.arg(2))
    za, zb_ = isc(a) and a == 0, isc(b) and b == 0
    zero = 0 if e.is_int() else Fraction(0)
    if za and zb_:
        return zero
    if za:
        c, a, b, za, zb_ = NOT(c), b, a, zb_, za
    if zb_ and isinstance(a, z3.ExprRef) and z3.is_app_of(a, z3.Z3_OP_ITE) and isc(norm(a.arg(2))) and norm(a.arg(2)) == 0:
        return ITE(AND(c, *[q for q in conj(a.arg(0))]), a.arg(1), zero)
    return ITE(AND(*conj(c)), a, b) if isinstance(c, z3.ExprRef) else ITE(c, a, b)


def conj(c):
    c = norm(c)
    if isinstance(c, bool):
        return [] if c else [False]
    if z3.is_and(c):
        out = []
        for i in range(c.num_args()):
            out += conj(c.arg(i))
        return out
    if z3.is_not(c):
        d = c.arg(0)
        if z3.is_or(d):
            out = []
            for i in range(d.num_args()):
                out += conj(NOT(d.arg(i)))
            return out
        if z3.is_not(d):
            return conj(d.arg(0))
    return [c]


def sum_body(app, s):
    """body of a sum application at index s"""
    ph, bv, nb, _, _ = SUMS[app.decl().name()]
    args = [app.arg(i) for i in range(app.num_args() - 1)]
    return z3.substitute(nb, *([(p, a) for p, a in zip(ph, args)] + [(bv, zi(s))]))


_sig = {}


def signature(app):
    """the symbols a sum's body is made of"""
    k = app.get_id()
    if k not in _sig:
        out, st, seen = set(), [sum_body(app, z3.Int('sig@'))], set()
        while st:
            x = st.pop()
            if x.get_id() in seen or z3.is_quantifier(x):
                continue
            seen.add(x.get_id())
            n = x.decl().name()
            if n.startswith('SUM#'):
                st.append(sum_body(x, z3.Int('sig@')))
                st.append(x.arg(x.num_args() - 1))
                continue
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and n != 'sig@':
                out.add(n)
            st += x.children()
        _sig[k] = (frozenset(out), app)
    return _sig[k][0]


# ---------------------------------------------------------------- prover
def skolem(goal):
    """the goal with its universal quantifiers in positive position replaced by fresh constants (equivalent for proving)"""
    if z3.is_quantifier(goal) and goal.is_forall():
        return skolem(z3.substitute_vars(goal.body(), *reversed([z3.FreshConst(goal.var_sort(i), 'sk') for i in range(goal.num_vars())])))
    if z3.is_and(goal) or z3.is_or(goal):
        ch = [skolem(c) for c in goal.children()]
        if any(not a.eq(b) for a, b in zip(ch, goal.children())):
            return (z3.And if z3.is_and(goal) else z3.Or)(*ch)
    if z3.is_implies(goal):
        b = skolem(goal.arg(1))
        if not b.eq(goal.arg(1)):
            return z3.Implies(goal.arg(0), b)
    return goal


class Prover:
    def __init__(self):
        self.axioms = []
        self.extrema = []
        self.stats = {'z3': 0, 'cvc5': 0, 'simplify': 0, 'sympy': 0}
        self.time = 0.0
        self.queries = 0
        self.cache = {}
        self.deadline = None
        self.qcap = 1000
        self.invert = None

    def _z3(self, facts, goal, ms, tactic=None, mbqi=True):
        s = z3.Solver() if tactic is None else z3.Tactic(tactic).solver()
        # resource limit (deterministic, independent of machine load) with a loose wall-clock backstop
        s.set('rlimit', int(min(ms * RL_PER_MS * FACTOR[0], 4000000000)))
        s.set('timeout', int(ms * 2.5 * FACTOR[0]) + 200)
        if not mbqi:
            s.set('auto_config', False)      # otherwise mbqi is switched back on
            s.set('mbqi', False)
        cx = s.ctx.ref()
        for f in facts:
            z3.Z3_solver_assert(cx, s.solver, f.as_ast() if isinstance(f, z3.ExprRef) else z3.BoolVal(bool(f)).as_ast())
        s.add(z3.Not(goal))
        t0 = time.time()
        self.queries += 1
        try:
            r = s.check()
        except z3.Z3Exception:
            r = z3.unknown
        self.time += time.time() - t0
        return r, s

    def _cvc5(self, s, secs):
        txt = '(set-logic ALL)\n' + s.to_smt2()
        txt = txt.replace('(set-info :status unknown)', '')
        with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
            f.write(txt)
        t0 = time.time()
        try:
            r = subprocess.run(['cvc5', '--tlimit=%d' % int(secs * 1000), f.name], capture_output=True, text=True, timeout=secs + 5)
            out = r.stdout.strip().split('\n')[0] if r.stdout else ''
        except Exception:
            out = ''
        finally:
            os.unlink(f.name)
        self.time += time.time() - t0
        return out == 'unsat'

    def entails(self, pc, goal, ms=1000):
        """quick: True only if proved"""
        goal = norm(goal)
        if goal is True:
            return True
        if goal is False:
            goal = False_
        facts = [zb(p) for p in pc] + self.axioms
        for f in facts:
            if f.eq(goal):
                return True
        if self.extrema:
            goal2 = skolem(goal)
            if goal2 is not goal:
                goal = goal2
                facts += [D(c) for D in self.extrema for c in sorted((c for c in consts_in(goal) if z3.is_int(c)), key=str)[:12]]
        key = (goal.get_id(), tuple(f.get_id() for f in facts))
        hit = self.cache.get(key)
        if hit is not None and (hit[0] is not None):
            return hit[0]
        r, s = self._z3(facts, goal, min(ms, self.qcap), mbqi=False)
        res = (r == z3.unsat)
        self.cache[key] = (res, goal, facts)
        return res

    def infeasible(self, pc, ms=300):
        if any(p is False for p in pc):
            return True
        return self.entails(pc, False_, ms)

    # ---- full proof with sums
    def prove(self, pc, goal, ms=10000, hints=(), depth=0):
        """returns (status, backend, model/reason): status in 'proved','refuted','unknown'"""
        goal = norm(goal)
        if goal is True:
            return 'proved', 'simplify', None
        if goal is False:
            goal = z3.BoolVal(False)
        if z3.is_and(goal):
            worst = ('proved', 'z3', None)
            for i in range(goal.num_args()):
                r = self.prove(pc, goal.arg(i), ms, hints, depth)
                if r[0] != 'proved':
                    return r
                worst = r
            return worst
        if z3.is_true(z3.simplify(goal)):
            return 'proved', 'simplify', None
        if z3.is_or(goal) and goal.num_args() >= 2:
            # implication: the literals other than the equation become hypotheses
            parts = [goal.arg(i) for i in range(goal.num_args())]
            hs = lambda p: bool(funs_in(p, lambda n: n.startswith('SUM#')))
            main = [p for p in parts if hs(p)]
            flat = []
            for p in parts:
                if hs(p) and z3.is_not(p) and z3.is_and(p.arg(0)):
                    flat += [z3.Not(q) for q in p.arg(0).children()]
                else:
                    flat.append(p)
            main = [p for p in flat if hs(p)]
            if main and len(main) < len(flat):
                hy = []
                for p in flat:
                    if not hs(p):
                        hy += conj(NOT(p))
                return self.prove(list(pc) + hy, main[0] if len(main) == 1 else z3.Or(*main), ms, hints, depth)
        if z3.is_eq(goal) and z3.is_real(goal.arg(0)) and has_sum(goal) and self.total(pc, goal, hints):
            return 'proved', 'z3', None
        facts = [zb(p) for p in pc if p is not True] + self.axioms + list(hints)
        if self.extrema and not depth:
            goal = skolem(goal)
            cs = {c for c in consts_in(goal) if z3.is_int(c)}
            for n, q in enumerate(facts):      # witnesses of the existential hypotheses
                if z3.is_or(q):
                    for e in q.children():
                        if z3.is_quantifier(e) and e.is_exists() and e.num_vars() == 1 and e.var_sort(0) == I:
                            w = fresh('witness')
                            facts[n] = z3.substitute(q, (e, z3.substitute_vars(e.body(), w)))
                            cs.add(w)
            facts += [D(c) for D in self.extrema for c in list(cs)[:12]]
        sums = funs_in(goal, lambda n: n.startswith('SUM#'))
        first = min(ms, 2000) if sums else ms
        import algebra
        short = not depth and not sums and algebra.needed(goal)
        r, s = self._z3(facts, goal, 500 if short else min(first, 3000), mbqi=False)
        if r == z3.unsat:
            return 'proved', 'z3', None
        if r != z3.unsat and not depth and self.algebra(facts, goal, ms):
            return 'proved', 'algebra', None
        if short and r == z3.unknown:
            r, s = self._z3(facts, goal, min(first, 3000), mbqi=False)
            if r == z3.unsat:
                return 'proved', 'z3', None
        if r == z3.unknown and not depth:
            r, s = self._z3(facts, goal, first)
        if r == z3.unsat:
            return 'proved', 'z3', None
        model = None
        if r == z3.sat:
            model = s.model()
        if sums and depth < 4:
            lem = self.sum_lemmas(pc, goal, ms, hints, depth)
            if lem:
                r2, s2 = self._z3(facts + lem, goal, min(ms, 5000), mbqi=False)
                if r2 == z3.unknown:
                    r2, s2 = self._z3(facts + lem, goal, ms)
                if r2 == z3.unsat:
                    return 'proved', 'z3', None
                if r2 == z3.sat:
                    model = s2.model()
                    r = r2
                s = s2
            c = split_cond(goal) if depth < 2 else None
            if c is not None:
                # sums under a condition: one case each
                rs = None
                for q, v in ((c, z3.BoolVal(True)), (z3.Not(c), z3.BoolVal(False))):
                    rs = self.prove(list(pc) + [q], z3.simplify(z3.substitute(goal, (c, v)), som=False), ms, hints, depth)
                    if rs[0] != 'proved':
                        break
                else:
                    return rs
        if r == z3.unknown and depth == 0:
            r3, s3 = self._z3(facts, goal, ms, 'qfnra-nlsat') if False else (z3.unknown, None)
            if self._cvc5(s, max(5, ms // 1000) * FACTOR[0]):
                return 'proved', 'cvc5', None
            return 'unknown', 'z3', 'solver gave up (%s)' % s.reason_unknown()
        return ('refuted' if r == z3.sat else 'unknown'), 'z3', model

    # ---- equality of linear combinations of sums: one query on the bodies per nesting level
    def total(self, pc, goal, hints, depth=0):
        if not (z3.is_eq(goal) and z3.is_real(goal.arg(0))) or depth > 4:
            return False
        ps = pieces(goal.arg(0) - goal.arg(1))
        if len(ps) > 400:
            return False
        issum = lambda x: z3.is_app(x) and x.decl().name().startswith('SUM#')
        groups, rest = [], []
        for l, m in ps:
            if any(has_sum(q) for q in l):
                return False
            fs = factors(z3.ToReal(m) if isinstance(m, z3.ExprRef) and m.is_int() else m)
            ss = [f for f in fs if issum(f)]
            oth = [f for f in fs if not issum(f)]
            if len(ss) > 1 or any(has_sum(f) for f in oth):
                return False
            if not ss:
                rest.append((l, oth))
                continue
            a = ss[0]
            n = a.arg(a.num_args() - 1)
            for g in groups:
                if n.eq(g[0]) or self.entails(list(pc) + list(hints), n == g[0], 1000):
                    g[1].append((l, oth, a))
                    break
            else:
                groups.append((n, [(l, oth, a)]))
        if rest and not self.leaf(pc, rest, hints):
            return False
        for n, items in groups:
            k = fresh('k')
            tot = z3.Sum([z(ITE(AND(*l), prodz(oth + [sum_body(a, k)]), Fraction(0))) for l, oth, a in items])
            if not self.total(list(pc) + [zi(0) <= k, k < n], tot == z3.RealVal(0), hints, depth + 1):
                return False
        return True

    def leaf(self, pc, items, hints):
        """sum of the conditional products is zero (products as uninterpreted functions of their factors)"""
        if len(items) > 24:
            # the terms with the same factors (ghost weights aside) among themselves
            grp = {}
            for l, fs in items:
                k = tuple(sorted(skey(canon(f)) for f in map(norm, fs) if not isc(f) and not f.decl().name().startswith('weight')))
                grp.setdefault(k, []).append((l, fs))
            if len(grp) > 1 and all(self.leaf(pc, g, hints) for g in grp.values()):
                return True
        tot = []
        for l, fs in items:
            k, at = Fraction(1), []
            for f in fs:
                f = norm(f)
                if isc(f):
                    k = k * f
                else:
                    at.append(canon(f))
            at.sort(key=lambda f: (f.decl().name(), skey(f)))
            if not at:
                m = zr(k)
            else:
                m = at[0] if len(at) == 1 else z3.Function('PROD%d' % len(at), *([R] * (len(at) + 1)))(*at)
                m = z(mul(k, m))
            tot.append(z3.If(zb(AND(*l)), m, z3.RealVal(0)) if l else m)
        facts = [zb(p) for p in pc if p is not True] + self.axioms + list(hints)
        r, s = self._z3(facts, z3.Sum(tot) == 0, 3000, mbqi=False)
        return r == z3.unsat

    def algebra(self, facts, goal, ms):
        import algebra
        if funs_in(goal, lambda n: n.startswith('SUM#')):
            return False
        if not algebra.needed(goal):
            return False
        try:
            return algebra.Alg(self, facts, ms).prove(facts + algebra.mathfacts(goal), goal)
        except z3.Z3Exception:
            return False

    def sum_lemmas(self, pc, goal, ms, hints, depth):
        """sum congruence / linear combination lemmas valid under pc"""
        lem = []
        exprs = [goal] + [zb(p) for p in pc if p is not True and not isinstance(p, bool)]
        sums = {}
        for e in exprs[:1]:
            for a in funs_in(e, lambda n: n.startswith('SUM#')):
                sums[a.get_id()] = a
        sums = list(sums.values())
        gs = list(sums)
        for e in exprs[1:]:
            for a in funs_in(e, lambda n: n.startswith('SUM#')):
                if not any(a.eq(b) for b in sums):
                    sums.append(a)
        # groups with the same (provably) upper bound
        groups = []
        for a in sums:
            n = a.arg(a.num_args() - 1)
            for g in groups:
                m = g[0].arg(g[0].num_args() - 1)
                if n.eq(m) or self.entails(list(pc) + list(hints), n == m, 1000):
                    g.append(a)
                    if not n.eq(m):
                        lem.append(n == m)
                    break
            else:
                groups.append([a])
        done0 = {}
        for g in groups:
            # bodies over the same symbols first
            n = g[0].arg(g[0].num_args() - 1)
            s = fresh('k')
            rng = [zi(0) <= s, s < n]
            done = done0[id(g)] = set()
            sg = [signature(a) for a in g]
            for i in range(len(g)):
                for j in range(i):
                    if sg[i] != sg[j] or g[i].sort() != g[j].sort() or g[i].get_id() in done or g[j].get_id() in done:
                        continue
                    if self.prove(list(pc) + rng, sum_body(g[i], s) == sum_body(g[j], s), min(ms, 3000), hints, depth + 1)[0] == 'proved':
                        lem.append(g[i] == g[j])
                        done.add(g[i].get_id())
                        break
        if lem:
            facts = [zb(p) for p in pc if p is not True] + self.axioms + list(hints)
            if self._z3(facts + lem, goal, min(ms, 1000), mbqi=False)[0] == z3.unsat:
                return lem
        for g in groups:
            n = g[0].arg(g[0].num_args() - 1)
            s = fresh('k')
            rng = [zi(0) <= s, s < n]
            done = done0[id(g)]
            # zero bodies
            for a in g:
                if a.get_id() in done:
                    continue
                b = sum_body(a, s)
                if self.prove(list(pc) + rng, b == 0 if b.is_int() else b == z3.RealVal(0), min(ms, 1500), hints, depth + 1)[0] == 'proved':
                    lem.append(a == 0)
                    done.add(a.get_id())
            for i in range(len(g)):
                for j in range(i):
                    if g[i].get_id() in done or g[j].get_id() in done or g[i].sort() != g[j].sort() or signature(g[i]) == signature(g[j]):
                        continue
                    bi, bj = sum_body(g[i], s), sum_body(g[j], s)
                    if self.prove(list(pc) + rng, bi == bj, min(ms, 3000), hints, depth + 1)[0] == 'proved':
                        lem.append(g[i] == g[j])
                        done.add(g[i].get_id())
                        break
        for a in gs:
            n = a.arg(a.num_args() - 1)
            zero = z3.IntVal(0) if a.is_int() else z3.RealVal(0)
            lem.append(z3.Implies(n <= 0, a == zero))
            if self.invert is None or any(z3.is_eq(q) and q.arg(0).eq(a) for q in lem):
                continue
            # at most one term differs from zero, at a position the condition determines
            s = fresh('k')
            b = sum_body(a, s)
            for w in witnesses(self, b, s)[:4]:
                if self.prove(list(pc) + [zi(0) <= s, s < n, s != w], b == zero, min(ms, 1500), hints, depth + 1)[0] == 'proved':
                    lem.append(a == z3.If(z3.And(0 <= w, w < n), sum_body(a, w), zero))
                    break
        # equalities between the linear combinations of sums that occur anywhere in the goal
        forms = lin_forms(goal)
        if 2 <= len(forms) <= 14:
            done2 = set()
            for i in range(len(forms)):
                for j in range(i):
                    (e1, r1, c1), (e2, r2, c2) = forms[i], forms[j]
                    if i in done2 or j in done2 or e1.sort() != e2.sort() or any(q.eq(e1 == e2) for q in lem):
                        continue
                    ns = [a.arg(a.num_args() - 1) for _, a in c1 + c2]
                    if not all(ns[0].eq(x) or self.entails(list(pc) + list(hints), ns[0] == x, 1000) for x in ns[1:]):
                        continue
                    s = fresh('k')
                    rng = [zi(0) <= s, s < ns[0]]
                    b1 = z3.Sum([c * sum_body(a, s) for c, a in c1])
                    b2 = z3.Sum([c * sum_body(a, s) for c, a in c2])
                    if not r1.eq(r2) and self.prove(list(pc), r1 == r2, min(ms, 1500), hints, depth + 1)[0] != 'proved':
                        continue
                    if self.prove(list(pc) + rng, b1 == b2, min(ms, 4000), hints, depth + 1)[0] == 'proved':
                        lem.append(e1 == e2)
                        done2.add(i)
                        break
        for g in groups:
            done = set()
            n = g[0].arg(g[0].num_args() - 1)
            s = fresh('k')
            rng = [zi(0) <= s, s < n]
            for a in g:
                if any(z3.is_eq(q) and (q.arg(0).eq(a)) for q in lem):
                    done.add(a.get_id())
            # linear combination appearing in an equality goal
            rest = [a for a in g if a.get_id() not in done and any(a.eq(b) for b in gs)]
            if len(rest) >= 2 and z3.is_eq(goal) and z3.is_arith(goal.arg(0)):
                co = lin_coeffs(goal.arg(0) - goal.arg(1), rest)
                if co is not None:
                    tot = None
                    for a, c in zip(rest, co):
                        if c == 0:
                            continue
                        b = mul(c, sum_body(a, s))
                        tot = b if tot is None else add(tot, b)
                    if tot is not None and not isc(tot):
                        if self.prove(list(pc) + rng, EQ(tot, 0), min(ms, 4000), hints, depth + 1)[0] == 'proved':
                            lem.append(EQ(z3.Sum([z(mul(c, a)) for a, c in zip(rest, co) if c != 0]), 0))
        return lem


False_ = z3.BoolVal(False)


def has_sum(e):
    return isinstance(e, z3.ExprRef) and bool(funs_in(e, lambda n: n.startswith('SUM#')))


def factors(m):
    m = norm(m)
    if isc(m):
        return [m]
    if z3.is_mul(m):
        return [f for x in m.children() for f in factors(x)]
    if z3.is_app_of(m, z3.Z3_OP_UMINUS):
        return [Fraction(-1)] + factors(m.arg(0))
    return [m]


def prodz(fs):
    r = Fraction(1)
    for f in fs:
        r = mul(r, f)
    return zr(r)


def split_cond(goal):
    """condition of a conditional that has sums in its branches but none in its condition"""
    hs = lambda p: bool(funs_in(p, lambda n: n.startswith('SUM#')))
    st, seen = [goal], set()
    while st:
        x = st.pop()
        if x.get_id() in seen or z3.is_quantifier(x):
            continue
        seen.add(x.get_id())
        if z3.is_app_of(x, z3.Z3_OP_ITE) and (hs(x.arg(1)) or hs(x.arg(2))) and not hs(x.arg(0)):
            return x.arg(0)
        st += x.children()
    return None


def witnesses(P, body, s):
    out, seen, st = [], set(), [body]
    while st:
        x = st.pop()
        if x.get_id() in seen or z3.is_quantifier(x):
            continue
        seen.add(x.get_id())
        if z3.is_eq(x) and x.arg(0).is_int() if z3.is_eq(x) and z3.is_arith(x.arg(0)) else False:
            for a, b in ((x.arg(0), x.arg(1)), (x.arg(1), x.arg(0))):
                if a.eq(s):
                    w = b
                else:
                    w = P.invert(a, b, s)
                if w is not None and not any(c.eq(s) for c in consts_in(zi(w))) and not any(w.eq(q) for q in out):
                    out.append(zi(w))
        st += x.children()
    return out


def addends(e):
    if not z3.is_add(e):
        return [e]
    out = []
    for c in e.children():
        out += addends(c)
    return out


def lin_forms(goal):
    """maximal subterms  rest + sum c_i*S_i  (S_i sums, c_i numerals): list of (term, rest, [(c_i, S_i)])"""
    out, seen = [], set()

    def issum(a):
        return z3.is_app(a) and a.decl().name().startswith('SUM#')

    def split(e):
        co, rest = [], []
        for t in addends(e):
            c = None
            if z3.is_mul(t) and t.num_args() == 2 and (z3.is_rational_value(t.arg(0)) or z3.is_int_value(t.arg(0))):
                c, t2 = t.arg(0), t.arg(1)
            else:
                t2 = t
            if issum(t2):
                co.append((c if c is not None else (z3.IntVal(1) if t2.is_int() else z3.RealVal(1)), t2))
            elif funs_in(t, lambda n: n.startswith('SUM#')):
                return None
            else:
                rest.append(t)
        if not co:
            return None
        return (z3.Sum(rest) if rest else (z3.IntVal(0) if e.is_int() else z3.RealVal(0))), co

    def go(e):
        if e.get_id() in seen or z3.is_quantifier(e) or not z3.is_app(e):
            return
        seen.add(e.get_id())
        if z3.is_arith(e) and (z3.is_add(e) or issum(e)):
            r = split(e)
            if r is not None:
                out.append((e, r[0], r[1]))
                return
        for c in e.children():
            go(c)
    go(goal)
    return out


def lin_coeffs(e, atoms):
    """numeric coefficients of atoms in e (linear), None if not linear"""
    e = z3.simplify(e, som=True)
    co = [Fraction(0)] * len(atoms)
    terms = [e.arg(i) for i in range(e.num_args())] if z3.is_add(e) else [e]
    for t in terms:
        hit = [i for i, a in enumerate(atoms) if any(x.eq(a) for x in funs_in(t, lambda n: n.startswith('SUM#')))]
        if not hit:
            continue
        if len(hit) > 1:
            return None
        i = hit[0]
        if t.eq(atoms[i]):
            co[i] += 1
        elif z3.is_mul(t) and t.num_args() == 2 and t.arg(1).eq(atoms[i]) and isc(norm(t.arg(0))):
            co[i] += norm(t.arg(0))
        elif z3.is_mul(t) and t.num_args() == 2 and t.arg(1).eq(atoms[i]) and z3.is_app_of(t.arg(0), z3.Z3_OP_UMINUS):
            return None
        else:
            return None
    return co

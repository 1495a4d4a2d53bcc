"""Second discharge route: decide the integer conditions of a goal, split on the undecided ones, and compare what is left as
rational functions (z3's polynomial normal form, sympy for quotients; square roots by r*r = a)."""
import z3, time
from fractions import Fraction
import terms
from terms import *

_K = z3


def rebuild(e, ch):
    if all(a.eq(b) for a, b in zip(ch, e.children())):
        return e
    d = e.decl()
    k = d.kind()
    if k == z3.Z3_OP_ADD:
        return z3.Sum(ch)
    if k == z3.Z3_OP_MUL:
        return z3.Product(ch)
    if k == z3.Z3_OP_AND:
        return z3.And(*ch)
    if k == z3.Z3_OP_OR:
        return z3.Or(*ch)
    if k == z3.Z3_OP_SUB:
        r = ch[0]
        for x in ch[1:]:
            r = r - x
        return r
    if k == z3.Z3_OP_EQ:
        return ch[0] == ch[1]
    if k == z3.Z3_OP_ITE:
        return z3.If(*ch)
    return d(*ch)


class Alg:
    def __init__(self, P, facts, ms):
        self.P, self.facts, self.ms = P, facts, ms
        self.memo = {}
        self.io = {}
        self.nofall = 0
        self.keep = []
        self.t0 = time.process_time()
        self.budget = max(10, ms / 1000.0 * 2) * terms.FACTOR[0]

    def over(self):
        return time.process_time() - self.t0 > self.budget

    def ent(self, facts, g):
        g = norm(g)
        if g is True:
            return True
        if g is False:
            return False
        q = z3.simplify(g)
        if z3.is_true(q):
            return True
        if z3.is_false(q):
            return False
        if self.intonly(g):
            fs = [f for f in facts if self.intonly(f)]
            if len(fs) < len(facts) and self.P.entails(fs, g, 400):
                return True
            if len(fs) < len(facts) and not self.P._z3([f for f in fs if not z3.is_quantifier(f)], g, 100)[0] == z3.unknown:
                return False
        return self.P.entails(facts, g, 400)

    def intonly(self, e):
        """no real-valued term occurs in e"""
        k = e.get_id()
        if k in self.io:
            return self.io[k]
        self.keep.append(e)
        if z3.is_quantifier(e):
            r = self.intonly(e.body())
        elif z3.is_app(e):
            r = not e.sort() == z3.RealSort() and all(self.intonly(c) for c in e.children())
        else:
            r = e.sort() != z3.RealSort()
        self.io[k] = r
        return r

    def divred(self, facts, e):
        """(c*X + r) div c with 0<=r<c is X"""
        c = e.arg(1)
        if not z3.is_int_value(c) or c.as_long() <= 0:
            return e
        n = c.as_long()
        s = z3.simplify(e.arg(0), som=True)
        ts = [s.arg(i) for i in range(s.num_args())] if z3.is_add(s) else [s]
        q, rest = [], []
        for t in ts:
            if z3.is_int_value(t):
                v = t.as_long()
                q.append(z3.IntVal(v // n))
                if v % n:
                    rest.append(z3.IntVal(v % n))
            elif z3.is_mul(t) and z3.is_int_value(t.arg(0)) and t.arg(0).as_long() % n == 0:
                k = t.arg(0).as_long() // n
                o = [t.arg(i) for i in range(1, t.num_args())]
                q.append(z3.Product([z3.IntVal(k)] + o) if k != 1 or len(o) > 1 else o[0])
            else:
                rest.append(t)
        if not q:
            return e
        r = z3.Sum(rest) if rest else z3.IntVal(0)
        if self.ent(facts, z3.And(r >= 0, r < n)):
            return z3.simplify(z3.Sum(q))
        return e

    def resolve(self, facts, e, memo):
        k = e.get_id()
        if k in memo:
            return memo[k]
        self.keep.append(e)
        r = e
        if z3.is_quantifier(e) or z3.is_var(e):
            pass
        elif z3.is_app(e) and e.num_args():
            if e.decl().kind() == z3.Z3_OP_ITE and not self.over():
                c = self.resolve(facts, e.arg(0), memo)
                if self.ent(facts, c):
                    r = self.resolve(facts, e.arg(1), memo)
                elif self.ent(facts, z3.Not(c)):
                    r = self.resolve(facts, e.arg(2), memo)
                else:
                    r = rebuild(e, [c, self.resolve(facts, e.arg(1), memo), self.resolve(facts, e.arg(2), memo)])
            else:
                ch = [self.resolve(facts, e.arg(i), memo) for i in range(e.num_args())]
                r = rebuild(e, ch)
                if z3.is_app(r) and r.decl().kind() == z3.Z3_OP_IDIV:
                    r = self.divred(facts, r)
        memo[k] = r
        return r

    def conds(self, e, acc, seen):
        """undecided conditions, innermost first"""
        if e.get_id() in seen:
            return
        seen.add(e.get_id())
        if z3.is_quantifier(e) or not z3.is_app(e):
            return
        for c in e.children():
            self.conds(c, acc, seen)
        if e.decl().kind() == z3.Z3_OP_ITE:
            for a in atoms(e.arg(0)):
                if not any(a.eq(b) for b in acc):
                    acc.append(a)

    def prove(self, facts, goal, depth=0):
        if self.over() or depth > 12:
            return False
        g = self.resolve(facts, goal, {})
        g2 = z3.simplify(g)
        if z3.is_true(g2):
            return True
        if depth < 3:
            g = self.unify(facts, g, depth)
            if z3.is_true(z3.simplify(g)):
                return True
        cs = []
        self.conds(g, cs, set())
        if cs:
            c = cs[0]
            for f in (c, z3.Not(c)):
                fs = facts + [f]
                if self.P.entails(fs, z3.BoolVal(False), 300):
                    continue
                if not self.prove(fs, self.pin(fs, f, c, g), depth + 1):
                    return False
            return True
        return self.leaf(facts, g)

    def pin(self, fs, f, c, g):
        """an integer term known to have one value is replaced by it"""
        if not z3.is_eq(c) or not c.arg(0).is_int():
            return g
        t, v = (c.arg(0), c.arg(1)) if z3.is_int_value(c.arg(1)) else (c.arg(1), c.arg(0))
        if not z3.is_int_value(v) or z3.is_int_value(t):
            return g
        if f.eq(c):
            return z3.substitute(g, (t, v))
        for w in range(0, 8):
            if w != v.as_long() and not any(z3.is_not(x) and z3.is_eq(x.arg(0)) and any(y.eq(t) for y in x.arg(0).children()) and any(z3.is_int_value(y) and y.as_long() == w for y in x.arg(0).children()) for x in fs):
                if self.ent(fs, t == w):
                    return z3.substitute(g, (t, z3.IntVal(w)))
                break
        return g

    def unify(self, facts, g, depth):
        """applications of the same special function to provably equal arguments become one"""
        apps = []

        def outer(e):
            if z3.is_quantifier(e) or not z3.is_app(e):
                return
            if e.decl().name().startswith('m_') and e.num_args():
                if any(has_ite(c) for c in e.children()) and not any(e.eq(a) for a in apps):
                    apps.append(e)
                elif not any(e.eq(a) for a in apps):
                    apps.append(e)
                return
            for c in e.children():
                outer(c)
        outer(g)
        if not any(has_ite(c) for a in apps for c in a.children()) or len(apps) > 12:
            return g
        pairs = []
        used = set()
        for i, a in enumerate(apps):
            for b in apps[:i]:
                if b.get_id() in used or not a.decl().eq(b.decl()):
                    continue
                self.nofall += 1
                eq = all(Alg.prove(self, facts, x == y, depth + 3) for x, y in zip(a.children(), b.children()))
                self.nofall -= 1
                if eq:
                    used.add(a.get_id())
                    pairs.append((a, b))
                    break
        return z3.substitute(g, *pairs) if pairs else g

    def leaf(self, facts, g):
        if z3.is_and(g):
            return all(self.leaf(facts, g.arg(i)) for i in range(g.num_args()))
        if z3.is_or(g):
            parts = [g.arg(i) for i in range(g.num_args())]
            for i, p in enumerate(parts):
                if self.leaf(facts + [z3.Not(q) for j, q in enumerate(parts) if j != i], p):
                    return True
            return False
        if z3.is_eq(g) and z3.is_arith(g.arg(0)) and g.arg(0).is_real():
            if self.ratzero(facts, g.arg(0) - g.arg(1)):
                return True
        if self.nofall:
            return False
        r, s = self.P._z3(facts, g, min(self.ms, 4000), mbqi=False)
        return r == z3.unsat

    # ---- rational functions
    def ratzero(self, facts, d):
        self.sq = {}
        self.dens = []
        d = self.canon(facts, d)
        if not self.numzero(d):
            return False
        z = z3.simplify(d, som=True)
        if z3.is_rational_value(z) and z.numerator_as_long() == 0:
            return True
        try:
            return self.sym(facts, d)
        except RecursionError:
            return False

    def numzero(self, d):
        """cheap filter: does d vanish at random values of its atoms?"""
        import random, math
        for seed in (1, 2):
            memo = {}

            def ev(x):
                k = x.get_id()
                if k in memo:
                    return memo[k]
                if z3.is_rational_value(x):
                    r = float(x.as_fraction())
                elif z3.is_int_value(x):
                    r = float(x.as_long())
                else:
                    kd = x.decl().kind() if z3.is_app(x) else None
                    ch = x.children() if z3.is_app(x) else []
                    if kd == z3.Z3_OP_ADD:
                        r = sum(ev(c) for c in ch)
                    elif kd == z3.Z3_OP_MUL:
                        r = 1.0
                        for c in ch:
                            r *= ev(c)
                    elif kd == z3.Z3_OP_SUB:
                        r = ev(ch[0]) - sum(ev(c) for c in ch[1:])
                    elif kd == z3.Z3_OP_UMINUS:
                        r = -ev(ch[0])
                    elif kd == z3.Z3_OP_DIV:
                        r = ev(ch[0]) / ev(ch[1])
                    elif kd == z3.Z3_OP_POWER:
                        r = ev(ch[0]) ** ev(ch[1])
                    elif z3.is_app(x) and x.decl().name() == 'm_sqrt':
                        r = math.sqrt(abs(ev(ch[0])))
                    else:
                        r = random.Random('%d %s' % (seed, x.sexpr())).uniform(0.5, 2.0)
                memo[k] = r
                return r
            try:
                v = ev(d)
                if isinstance(v, complex) or abs(v) > 1e-6 * (1 + max(abs(q) for q in memo.values())):
                    return False
            except (ZeroDivisionError, OverflowError, ValueError):
                return True
        return True

    def canon(self, facts, e):
        """arguments of uninterpreted functions in polynomial normal form"""
        memo = {}

        def go(x):
            k = x.get_id()
            if k in memo:
                return memo[k]
            self.keep.append(x)
            r = x
            if z3.is_app(x) and x.num_args():
                ch = [go(c) for c in x.children()]
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    ch = [z3.simplify(c, som=True) if c.is_real() or c.is_int() else c for c in ch]
                r = rebuild(x, ch)
            memo[k] = r
            return r
        return go(e)

    def sym(self, facts, d):
        import sympy
        syms, back, memo = {}, {}, {}
        sqs = []

        def atom(x):
            k = x.get_id()
            if k not in syms:
                self.keep.append(x)
                syms[k] = sympy.Symbol('v%d' % len(syms))
                back[syms[k]] = x
                if z3.is_app(x) and x.decl().name() == 'm_sqrt':
                    sqs.append((syms[k], x.arg(0), x))
            return syms[k]

        def conv(x):
            k = x.get_id()
            if k in memo:
                return memo[k]
            self.keep.append(x)
            if z3.is_rational_value(x):
                r = sympy.Rational(x.numerator_as_long(), x.denominator_as_long())
            elif z3.is_int_value(x):
                r = sympy.Integer(x.as_long())
            elif z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ADD:
                r = sympy.Add(*[conv(c) for c in x.children()])
            elif z3.is_app(x) and x.decl().kind() == z3.Z3_OP_MUL:
                r = sympy.Mul(*[conv(c) for c in x.children()])
            elif z3.is_app(x) and x.decl().kind() == z3.Z3_OP_SUB:
                ch = [conv(c) for c in x.children()]
                r = ch[0] - sympy.Add(*ch[1:])
            elif z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UMINUS:
                r = -conv(x.arg(0))
            elif z3.is_app(x) and x.decl().kind() == z3.Z3_OP_DIV:
                b = conv(x.arg(1))
                if not b.is_Number:
                    self.dens.append((b, x.arg(1)))
                elif b == 0:
                    return atom(x)
                r = conv(x.arg(0)) / b
            elif z3.is_app(x) and x.decl().kind() == z3.Z3_OP_POWER and z3.is_rational_value(x.arg(1)):
                r = conv(x.arg(0)) ** sympy.Rational(x.arg(1).numerator_as_long(), x.arg(1).denominator_as_long())
            else:
                r = atom(x)
            memo[k] = r
            return r
        ex = conv(d)
        num, den = sympy.fraction(sympy.together(ex))
        num = sympy.expand(num)
        for i in range(6):
            if num == 0:
                break
            ch = False
            for s, a, x in list(sqs):
                if num.has(s) and sympy.degree(num, s) >= 2:
                    aa = conv(a)
                    p = sympy.Poly(num, s)
                    new = 0
                    for (k,), c in p.terms():
                        new += c * aa ** (k // 2) * s ** (k % 2)
                    if not self.ent(facts, a >= 0) and not possquares(a):
                        return False
                    num = sympy.expand(sympy.fraction(sympy.together(new))[0])
                    ch = True
            if not ch:
                break
        if num != 0:
            return False
        for b, zx in self.dens:
            if not self.nonzero(facts, zx):
                return False
        return True

    def nonzero(self, facts, zx):
        if self.ent(facts, zx != 0):
            return True
        for f in facts:
            # a hypothesis that differs only by polynomial normal form
            if z3.is_not(f) and z3.is_eq(f.arg(0)) and f.arg(0).arg(0).is_real():
                d = f.arg(0).arg(0) - f.arg(0).arg(1)
                for q in (d - zx, d + zx):
                    s = z3.simplify(self.canon(facts, q), som=True)
                    if z3.is_rational_value(s) and s.numerator_as_long() == 0:
                        return True
        r, s = self.P._z3(facts, zx != 0, 2000, mbqi=False)
        return r == z3.unsat


def possquares(a):
    s = z3.simplify(a)
    ts = s.children() if z3.is_add(s) else [s]
    for t in ts:
        if z3.is_mul(t):
            ch = t.children()
            if z3.is_rational_value(ch[0]):
                if ch[0].numerator_as_long() < 0:
                    return False
                ch = ch[1:]
            if len(ch) % 2 or not all(sum(1 for y in ch if y.eq(x)) % 2 == 0 for x in ch):
                return False
        elif z3.is_app(t) and t.decl().kind() == z3.Z3_OP_POWER and z3.is_rational_value(t.arg(1)) and t.arg(1).as_fraction() == 2:
            pass
        else:
            return False
    return True


def has_ite(e, seen=None):
    seen = set() if seen is None else seen
    if e.get_id() in seen:
        return False
    seen.add(e.get_id())
    if z3.is_quantifier(e) or not z3.is_app(e):
        return False
    return e.decl().kind() == z3.Z3_OP_ITE or any(has_ite(c, seen) for c in e.children())


def atoms(c):
    if z3.is_and(c) or z3.is_or(c) or z3.is_not(c):
        r = []
        for x in c.children():
            r += atoms(x)
        return r
    if z3.is_app(c) and c.decl().kind() == z3.Z3_OP_ITE:
        return []
    if z3.is_true(c) or z3.is_false(c):
        return []
    return [c]


def mathfacts(e):
    """defining facts of the square roots and exponentials that occur in e"""
    out = []
    for a in funs_in(e, lambda n: n in ('m_sqrt', 'm_exp')):
        if a.decl().name() == 'm_sqrt':
            out += [a >= 0, z3.Or(a.arg(0) < 0, a * a == a.arg(0))]
        else:
            out.append(a > 0)
    return out


def needed(g, seen=None):
    """does the goal have conditionals, quotients, non-linear terms or special functions?"""
    seen = set() if seen is None else seen
    if g.get_id() in seen:
        return False
    seen.add(g.get_id())
    if z3.is_quantifier(g) or not z3.is_app(g):
        return False
    k = g.decl().kind()
    if k in (z3.Z3_OP_ITE, z3.Z3_OP_DIV, z3.Z3_OP_IDIV, z3.Z3_OP_POWER):
        return True
    if k == z3.Z3_OP_MUL and sum(1 for c in g.children() if not (z3.is_rational_value(c) or z3.is_int_value(c))) > 1:
        return True
    if g.decl().name().startswith('m_'):
        return True
    return any(needed(c, seen) for c in g.children())

from spec import *
import lib, names
PID = 'D01'
LEVEL = 'proof'
NATIVE = 'D01'
BOUNDED = []
DOUBLE, EXTENDED = 0, 1
F = ['models/ModelDataHolder.cc']
H = 'ModelDataHolder'
D_ = lib.mfun('toDouble')


def D(x):
    """rounding to double precision"""
    return D_(zr(x))


class Holder:
    """a model's data: one value per element, held as one uniform value or per element, in double or extended precision"""

    def __init__(self, u, rep, typ, cached=False):
        self.u, self.rep, self.typ = u, rep, typ
        ex = self.ex = u.fresh_exec()
        st = self.st = State()
        C = ex.contracts.append
        C((lambda m, dn, sn: 'multiprecision' in dn and 'operator double' in dn, lambda ex, st, ins, a: D(ex.loadk(st, a[0], 'r'))))
        C((lambda m, dn, sn: 'multiprecision' in dn and sn.endswith('operator=='), lambda ex, st, ins, a: EQ(self.num(st, a[0]), self.num(st, a[1]))))
        l = self.l = Loc(('v', 'data'))
        self.n = fresh('length')
        st.assume(self.n >= 0)
        u.set(st, self.f('length'), 'i', self.n)
        u.set(st, self.f('type'), 'i', typ)
        u.set(st, self.f('is_uniform'), 'i', 1 if rep == 'uniform' else 0)
        self.val = z3.Function('value', I, R)
        x = fresh('uniformValue', R)
        du = fresh('oldDoubleUniform', R)
        fu = fresh('oldExtendedUniform', R)
        i = z3.Int('i')
        self.V = (lambda i: x) if rep == 'uniform' else (lambda i: self.val(zi(i)))
        if typ == DOUBLE:
            st.assume(D(x) == x)
            st.assume(z3.ForAll([i], D(self.val(i)) == self.val(i), patterns=[self.val(i)]))
        st.assume(D(z3.RealVal(0)) == 0)
        u.set(st, self.f('double_uniform_value'), 'r', D(x) if rep == 'uniform' else du)
        u.set(st, self.f('float128_uniform_value'), 'r', x if rep == 'uniform' else fu)
        for t, nm in ((DOUBLE, 'double_values'), (EXTENDED, 'float128_values')):
            v = self.f(nm)
            have = rep != 'uniform' and (t == typ or cached)
            u.set(st, v.mark('len'), 'i', self.n if have else 0)
            u.family(v.seg('e', 0), 'r', lambda *ix, t=t: D(self.val(zi(ix[-1]))) if t == DOUBLE and typ != DOUBLE else self.val(zi(ix[-1])))

    def num(self, st, x):
        return self.ex.loadk(st, x, 'r') if isinstance(x, Loc) else x

    def f(self, m):
        return self.ex.fld(self.l, H, m)

    def g(self, st, m, k='i'):
        return self.ex.loadk(st, self.f(m), k)

    def at(self, st, t, i):
        return self.ex.loadk(st, self.f(('double_values', 'float128_values')[t]).seg('e', i), 'r')

    def vlen(self, st, t):
        return self.g(st, ('double_values', 'float128_values')[t])if 0 else self.ex.loadk(st, self.f(('double_values', 'float128_values')[t]).mark('len'), 'i')

    def value(self, st, i):
        """the value of element i"""
        e = EQ(self.g(st, 'type'), EXTENDED)
        return ITE(EQ(self.g(st, 'is_uniform'), 1), ITE(e, self.g(st, 'float128_uniform_value', 'r'), self.g(st, 'double_uniform_value', 'r')), ITE(e, self.at(st, 1, i), self.at(st, 0, i)))

    def check(self, st, what, want):
        """class invariant and the value of every element"""
        u = self.u
        i = u.idx(st, 'i', self.n)
        u.prove(what + ': value of every element', st, EQ(self.value(st, i), want(i)))
        un, e = EQ(self.g(st, 'is_uniform'), 1), EQ(self.g(st, 'type'), EXTENDED)
        u.prove(what + ': the precision is double or extended', st, OR(e, EQ(self.g(st, 'type'), DOUBLE)))
        du, fu = self.g(st, 'double_uniform_value', 'r'), self.g(st, 'float128_uniform_value', 'r')
        u.prove(what + ': both precisions of a uniform value agree', st, IMP(un, ITE(e, EQ(du, D(fu)), EQ(fu, du))))
        for t in (0, 1):
            n = self.vlen(st, t)
            act = EQ(e, z3.BoolVal(t == 1))
            u.prove(what + ': one stored entry per element (%s)' % ('double', 'extended')[t], st, IMP(AND(NOT(un), act), EQ(n, self.n)))
            o = self.at(st, t, i)
            q = self.at(st, 1 - t, i)
            u.prove(what + ': a copy in the other precision is empty or agrees (%s)' % ('double', 'extended')[t], st,
                    IMP(AND(NOT(un), NOT(act)), OR(EQ(n, 0), AND(EQ(n, self.n), EQ(o, D(q) if t == 0 else q)))))


STATES = [('uniform', DOUBLE, False), ('uniform', EXTENDED, False), ('stored', DOUBLE, False), ('stored', DOUBLE, True), ('stored', EXTENDED, False), ('stored', EXTENDED, True)]


def nm(s):
    return '%s %s%s' % (s[0], ('double', 'extended')[s[1]], ' with a copy in the other precision' if s[2] else '')


def inst(u, m, t, *must):
    """member template for precision t"""
    x = 'float128_backend' if t else 'double'
    fs = [f for f in u.prog.funcs.values() if names.strip(f['dn'].split('[abi')[0]) in (H + '::' + m,) and (x in f['dn']) and (t or 'float128_backend' not in f['dn']) and all(k in f['dn'] for k in must)]
    if len(fs) != 1:
        raise Unsupported('%s in %s precision: %d candidates %s' % (m, ('double', 'extended')[t], len(fs), [f['dn'] for f in fs]))
    u.under.append(fs[0]['dn'])
    return fs[0]


PN = ('double', 'extended')


@unit(PID, 'read', F, [H + '::' + m for m in ('GetValues', 'expand_uniform', 'IsUniform', 'IsZero', 'IsOne', 'GetUniformValue')])
def _(u):
    """reading in either precision returns the value of every element and changes none"""
    for s in STATES:
        for t in (0, 1):
            h = Holder(u, *s)
            r, s2 = u.run(inst(u, 'GetValues', t), [h.l], h.st)
            u.sat(nm(s), s2)
            k = u.idx(s2, 'k', h.n)
            u.prove('%s read in %s precision: every element' % (nm(s), PN[t]), s2, EQ(h.ex.loadk(s2, r.seg('e', k), 'r'), D(h.V(k)) if t == 0 else h.V(k)))
            u.prove('%s read in %s precision: one entry per element' % (nm(s), PN[t]), s2, EQ(h.ex.loadk(s2, r.mark('len'), 'i'), h.n))
            h.check(s2, '%s after reading' % nm(s), h.V)
        h = Holder(u, *s)
        s2 = u.run(u.fn(H + '::expand_uniform'), [h.l], h.st)[1]
        u.prove('%s expanded' % nm(s), s2, EQ(h.g(s2, 'is_uniform'), 0))
        h.check(s2, '%s after expanding' % nm(s), h.V)
        for m, c in (('IsZero', 0), ('IsOne', 1)):
            h = Holder(u, *s)
            h.st.assume(D(z3.RealVal(c)) == c)
            r, s2 = u.run(u.fn(H + '::' + m), [h.l], h.st)
            u.prove('%s %s' % (nm(s), m), s2, EQ(zb(r), AND(z3.BoolVal(s[0] == 'uniform'), EQ(h.V(0), Fraction(c)))))
        h = Holder(u, *s)
        r, s2 = u.run(u.fn(H + '::IsUniform'), [h.l], h.st)
        u.prove('%s IsUniform' % nm(s), s2, EQ(zb(r), z3.BoolVal(s[0] == 'uniform')))
        if s[0] == 'uniform':
            for t in (0, 1):
                h = Holder(u, *s)
                r, s2 = u.run(inst(u, 'GetUniformValue', t), [h.l], h.st)
                u.prove('%s uniform value in %s precision' % (nm(s), PN[t]), s2, EQ(h.ex.loadk(s2, r, 'r'), D(h.V(0)) if t == 0 else h.V(0)))


def arg(h, t, name='x'):
    x = fresh(name, R)
    if t == 0:
        h.st.assume(D(x) == x)
    l = Loc(('v', 'arg_' + name))
    h.u.set(h.st, l, 'r', x)
    return l, x


@unit(PID, 'write', F, [H + '::' + m for m in ('SetUniformValue', 'SetValue', 'set_values', 'clear', 'clear_type', 'set_type')])
def _(u):
    """after a write in either precision every element has the value written, or, where not written, the value it had"""
    for s in STATES:
        for t in (0, 1):
            h = Holder(u, *s)
            l, x = arg(h, t)
            s2 = u.run(inst(u, 'SetUniformValue', t), [h.l, l], h.st)[1]
            h.check(s2, '%s after a uniform %s value' % (nm(s), PN[t]), lambda i: x)
            u.prove('%s is uniform after a uniform %s value' % (nm(s), PN[t]), s2, EQ(h.g(s2, 'is_uniform'), 1))
            h = Holder(u, *s)
            l, x = arg(h, t)
            k = fresh('index')
            h.st.assume(k >= 0)
            s2 = u.run(inst(u, 'SetValue', t), [h.l, k, l], h.st)[1]
            h.check(s2, '%s after setting one %s value' % (nm(s), PN[t]), lambda i: ITE(EQ(i, k), x, h.V(i)))
            h = Holder(u, *s)
            w = Loc(('v', 'w'))
            _, fn = u.vec(h.st, w, 'w', n=h.n)
            if t == 0:
                i = z3.Int('i')
                h.st.assume(z3.ForAll([i], D(fn(i)) == fn(i), patterns=[fn(i)]))
            s2 = u.run(inst(u, 'set_values', t), [h.l, w], h.st)[1]
            h.check(s2, '%s after setting all %s values' % (nm(s), PN[t]), lambda i: fn(zi(i)))
        h = Holder(u, *s)
        s2 = u.run(u.fn(H + '::clear'), [h.l], h.st)[1]
        h.check(s2, '%s after clearing' % nm(s), lambda i: Fraction(0))
        for t in (0, 1):
            h = Holder(u, *s)
            if t < s[1]:
                continue
            s2 = u.run(u.fn(H + '::set_type'), [h.l, t], h.st)[1]
            h.check(s2, '%s after choosing %s precision' % (nm(s), PN[t]), h.V)
            u.prove('%s has %s precision afterwards' % (nm(s), PN[t]), s2, EQ(h.g(s2, 'type'), t))


@unit(PID, 'write_contact', F, [H + '::set_indexes'])
def _(u):
    """writing at listed elements gives these the value written and every other element zero"""
    for s in STATES:
        for t in (0, 1):
            for vector in (False, True):
                h = Holder(u, *s)
                ex, st = h.ex, h.st
                ix = Loc(('v', 'indexes'))
                at, inv = z3.Function('listed', I, I), z3.Function('positionOf', I, I)
                m, _ = u.vec(st, ix, 'indexes', kind='i', fn=at)
                i = z3.Int('i')
                st.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < m), z3.And(0 <= at(i), at(i) < h.n, inv(at(i)) == i)), patterns=[at(i)]))
                ex.inverses['listed'] = inv
                is_ = lambda i: AND(LE(0, inv(zi(i))), LT(inv(zi(i)), m), EQ(at(inv(zi(i))), i))
                if vector:
                    w = Loc(('v', 'w'))
                    _, fn = u.vec(st, w, 'w', n=h.n)
                    val = lambda i: fn(zi(i))
                    if t == 0:
                        st.assume(z3.ForAll([i], D(fn(i)) == fn(i), patterns=[fn(i)]))
                    f = inst(u, 'set_indexes', t, 'set_indexes<std::vector')
                    a = w
                else:
                    a, x = arg(h, t)
                    val = lambda i: x
                    f = inst(u, 'set_indexes', t, 'set_indexes<' + ('boost' if t else 'double'))
                s2 = u.run(f, [h.l, ix, a], st)[1]
                u.sat('listed elements', s2)
                h.check(s2, '%s after %s %s at listed elements' % (nm(s), PN[t], 'values' if vector else 'value'), lambda i: ITE(is_(i), val(i), Fraction(0)))


# ---------------------------------------------------------------- models
MODELS = [('NodeModel', 'NodeSolution', 'calcNodeScalarValues', True), ('EdgeModel', 'EdgeSubModel', 'calcEdgeScalarValues', True),
          ('TriangleEdgeModel', 'TriangleEdgeSubModel', 'calcTriangleEdgeScalarValues', False),
          ('TetrahedronEdgeModel', 'TetrahedronEdgeSubModel', 'calcTetrahedronEdgeScalarValues', False)]


class Model(Holder):
    """a model of the given class: its data, whether it is up to date, and what its calculation would store (an uniform value or a list)"""

    def __init__(self, u, cls, sub, calc, s, contact=False, interface=False):
        Holder.__init__(self, u, *s)
        ex, st = self.ex, self.st
        self.cls = cls
        ex.dyn_targ = 'double>'
        me = self.me = ref(ex.rootcls(cls), 4)
        ex.dyn[ex.rootcls(cls)] = sub + '<double>' if sub else cls
        old = self.l
        new = ex.fld(me, cls, 'model_data')
        for k, nd in list(ex.initial.items()):
            pass
        self.l = new
        # move the data built by Holder into the model
        for m in ('length', 'type', 'is_uniform'):
            u.set(st, self.f(m), 'i', ex.loadk(st, ex.fld(old, H, m), 'i'))
        for m in ('double_uniform_value', 'float128_uniform_value'):
            u.set(st, self.f(m), 'r', ex.loadk(st, ex.fld(old, H, m), 'r'))
        for m in ('double_values', 'float128_values'):
            o, v = ex.fld(old, H, m), self.f(m)
            u.set(st, v.mark('len'), 'i', ex.loadk(st, o.mark('len'), 'i'))
            u.family(v.seg('e', 0), 'r', lambda r, i, o=o: ex.loadk(State(), o.seg('e', i), 'r'))
        self.m = lambda k: ex.fld(me, cls, k)
        u.set(st, self.m('name'), 's', ex.strlit('the model'))
        self.up = fresh('upToDate', B)
        u.set(st, self.m('uptodate'), 'i', ITE(self.up, 1, 0))
        u.set(st, self.m('inprocess'), 'i', 0)
        self.cnt = {k: Loc(('v', 'number of ' + k)) for k in ('calculations', 'signals')}
        for c in self.cnt.values():
            u.set(st, c, 'i', 0)
        C = ex.contracts.append
        C(((sub or cls) + '::' + calc, self.calc))
        owner = ref(ex.rootcls('Interface' if interface else 'Region'), 1)
        u.set(st, self.m('myinterface' if interface else 'myregion'), 'p', owner)
        C((('Interface' if interface else 'Region') + '::SignalCallbacks', self.signal))
        C(('FPECheck::ClearFPE', lambda ex, st, ins, a: None))
        C(('FPECheck::CheckFPE', lambda ex, st, ins, a: False))
        self.new = z3.Function('calculated', I, R)
        if cls in ('NodeModel', 'EdgeModel'):
            u.set(st, self.m('mycontact'), 'p', ref(ex.rootcls('Contact'), 1) if contact else NULL)
            if contact:
                at, inv = z3.Function('listed', I, I), z3.Function('positionOf', I, I)
                ix = self.m('atcontact')
                m = fresh('numContact')
                st.assume(m >= 1)
                u.set(st, ix.mark('len'), 'i', m)
                u.family(ix.seg('e', 0), 'i', lambda *a: at(zi(a[-1])))
                i = z3.Int('i')
                st.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < m), z3.And(0 <= at(i), at(i) < self.n, inv(at(i)) == i)), patterns=[at(i)]))
                ex.inverses['listed'] = inv
                self.listed = lambda i: AND(LE(0, inv(zi(i))), LT(inv(zi(i)), m), EQ(at(inv(zi(i))), i))

    def count(self, st, k):
        c = self.cnt[k]
        self.ex.storek(st, c, 'i', add(self.ex.loadk(st, c, 'i'), 1))

    def calc(self, ex, st, ins, a):
        """the calculation of the model stores one double value per element"""
        self.count(st, 'calculations')
        v = self.f('double_values')
        lib.set_region(ex, st, v, (('seg', 'e'),), 'r', lambda i: True, lambda i: self.new(zi(i)))
        ex.storek(st, v.mark('len'), 'i', self.n)
        ex.storek(st, self.f('float128_values').mark('len'), 'i', 0)
        ex.storek(st, self.f('type'), 'i', DOUBLE)
        ex.storek(st, self.f('is_uniform'), 'i', 0)

    def signal(self, ex, st, ins, a):
        ex.oblige(st, 'models depending on this one are signalled', EQ(ex.loadk(st, a[1], 's'), ex.strlit('the model')))
        self.count(st, 'signals')

    def num_of(self, st, k):
        return self.ex.loadk(st, self.cnt[k], 'i')

    def now(self, i):
        """the value of element i of the model: the stored one when up to date, otherwise the calculated one"""
        return ITE(self.up, self.V(i), self.new(zi(i)))


def find(u, cls, m, t=None, *must):
    x = 'float128_backend' if t else 'double'
    fs = [f for f in u.prog.funcs.values() if names.strip(f['dn'].split('[abi')[0]) == cls + '::' + m and (t is None or x in f['dn'] and (t or 'float128_backend' not in f['dn'])) and all(k in f['dn'] if not k.startswith('!') else not f['dn'].endswith(k[1:]) for k in must)]
    if len(fs) != 1:
        raise Unsupported('%s: %d candidates %s' % (m, len(fs), [f['dn'] for f in fs]))
    u.under.append(fs[0]['dn'])
    return fs[0]


MSTATES = [('uniform', DOUBLE, False), ('uniform', EXTENDED, False), ('stored', DOUBLE, True), ('stored', EXTENDED, True)]


def model_units(cls, sub, calc, contact, interface=False):
    files = ['models/%s.cc' % cls, 'models/ModelDataHolder.cc'] + (['models/%s.cc' % sub] if sub else [])
    mk = lambda u, s, c=False: Model(u, cls, sub, calc, s, c, interface)

    @unit(PID, cls + '_read', files, [cls + '::' + m for m in ('GetScalarValues', 'CalculateValues', 'IsUniform', 'IsZero', 'IsOne', 'GetUniformValue')])
    def _(u):
        """reading gives the stored values of a model that is up to date; otherwise it is calculated once and gives the calculated values"""
        for s in MSTATES:
            for t in (0, 1):
                h = mk(u, s)
                h.st.assume(z3.ForAll([z3.Int('i')], D(h.new(z3.Int('i'))) == h.new(z3.Int('i')), patterns=[h.new(z3.Int('i'))]))
                r, s2 = u.run(find(u, cls, 'GetScalarValues', t), [h.me], h.st)
                u.sat(nm(s), s2)
                k = u.idx(s2, 'k', h.n)
                u.prove('%s read in %s precision: every element' % (nm(s), PN[t]), s2, EQ(h.ex.loadk(s2, r.seg('e', k), 'r'), D(h.now(k)) if t == 0 else h.now(k)))
                u.prove('%s read in %s precision: one entry per element' % (nm(s), PN[t]), s2, EQ(h.ex.loadk(s2, r.mark('len'), 'i'), h.n))
                u.prove('%s read in %s precision: calculated once if out of date, never otherwise' % (nm(s), PN[t]), s2, EQ(h.num_of(s2, 'calculations'), ITE(h.up, 0, 1)))
                u.prove('%s read in %s precision: up to date afterwards' % (nm(s), PN[t]), s2, EQ(h.ex.loadk(s2, h.m('uptodate'), 'i'), 1))
                h.check(s2, '%s after reading' % nm(s), h.now)
            for m in ('IsUniform', 'IsZero', 'IsOne'):
                h = mk(u, s)
                for c in (0, 1):
                    h.st.assume(D(z3.RealVal(c)) == c)
                r, s2 = u.run(u.fn(cls + '::' + m), [h.me], h.st)
                un = AND(z3.BoolVal(s[0] == 'uniform'), h.up)
                u.prove('%s %s' % (nm(s), m), s2, EQ(zb(r), un if m == 'IsUniform' else AND(un, EQ(h.V(0), Fraction(0 if m == 'IsZero' else 1)))))

    @unit(PID, cls + '_write', files, [cls + '::' + m for m in ('SetValues', 'MarkOld') + (('SetNodeValue',) if cls == 'NodeModel' else ())])
    def _(u):
        """after a write the model has the values written, is up to date, and the models depending on it were signalled"""
        def done(h, s2, what, want, calcs=0):
            u.sat(what, s2)
            h.check(s2, what, want)
            u.prove(what + ': up to date', s2, EQ(h.ex.loadk(s2, h.m('uptodate'), 'i'), 1))
            u.prove(what + ': dependent models signalled', s2, LE(1, h.num_of(s2, 'signals')))
        for s in MSTATES:
            for t in (0, 1):
                for c in (False, True)[:2 if contact else 1]:
                    in_ = (lambda h: h.listed) if c else lambda h: (lambda i: z3.BoolVal(True))
                    h = mk(u, s, c)
                    l, x = arg(h, t)
                    f = find(u, cls, 'SetValues', t, *(() if interface else ('! const',)), '>(double const&)' if not t else '>(boost::multiprecision::number')
                    s2 = u.run(f, [h.me, l], h.st)[1]
                    done(h, s2, '%s after a %s value%s' % (nm(s), PN[t], ' at a contact' if c else ''), lambda i: ITE(in_(h)(i), x, Fraction(0)))
                    h = mk(u, s, c)
                    w = Loc(('v', 'w'))
                    _, fn = u.vec(h.st, w, 'w', n=h.n)
                    if t == 0:
                        i = z3.Int('i')
                        h.st.assume(z3.ForAll([i], D(fn(i)) == fn(i), patterns=[fn(i)]))
                    s2 = u.run(find(u, cls, 'SetValues', t, '! const', '>(std::vector'), [h.me, w], h.st)[1]
                    done(h, s2, '%s after %s values%s' % (nm(s), PN[t], ' at a contact' if c else ''), lambda i: ITE(in_(h)(i), fn(zi(i)), Fraction(0)))
                if cls == 'NodeModel':
                    h = mk(u, s)
                    h.st.assume(z3.ForAll([z3.Int('i')], D(h.new(z3.Int('i'))) == h.new(z3.Int('i')), patterns=[h.new(z3.Int('i'))]))
                    _, x = arg(h, t)
                    k = u.idx(h.st, 'k', h.n)
                    l = x
                    if t:
                        l = Loc(('v', 'xx'))
                        u.set(h.st, l, 'r', x)
                    s2 = u.run(find(u, cls, 'SetNodeValue', t), [h.me, k, l], h.st)[1]
                    done(h, s2, '%s after setting one %s value' % (nm(s), PN[t]), lambda i: ITE(EQ(i, k), x, h.now(i)))
        h = mk(u, STATES[0])
        fs = [f for f in u.prog.funcs.values() if names.strip(f['dn']) == cls + '::MarkOld' and 'const' not in f['dn']]
        s2 = u.run(fs[0], [h.me], h.st)[1]
        u.prove('marked old: out of date', s2, EQ(h.ex.loadk(s2, h.m('uptodate'), 'i'), 0))
        u.prove('marked old: dependent models signalled', s2, EQ(h.num_of(s2, 'signals'), 1))


for c in MODELS:
    model_units(*c)

"""Loop summaries: closed forms in the iteration count, justified inductively, computed semantically from the body."""
import z3
from fractions import Fraction
from terms import *
import terms
import vc
from vc import Loc, NULL, UNDEF, Choice, NullT, Base, Store, IteN, Over, Plus, State, written, stores_of, Unsupported, KSORT, ref


def counter():
    return terms._fresh[0]


def local_syms(e, start, allow):
    """loop-local symbols (created after `start`) in e: (consts, funs)"""
    if isc(e) or not isinstance(e, z3.ExprRef):
        return [], []
    cs, fs = [], set()
    seen = set()
    st = [e]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            st.append(x.body())
            continue
        if not z3.is_app(x):
            continue
        if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            n = x.decl().name()
            if '!' in n and not n.startswith('H_'):
                k = n.rsplit('!', 1)[1]
                if k.isdigit() and int(k) > start and n not in allow:
                    if x.num_args():
                        fs.add(n)
                    else:
                        cs.append(x)
        for i in range(x.num_args()):
            st.append(x.arg(i))
    return cs, fs


class Ctx:
    pass


def block_locals(f, body, hdr):
    """stack slots whose every use (exception cleanup aside) lies in the loop body: variables and temporaries of one iteration"""
    key = '_locals%d' % hdr
    if key not in f:
        seen, todo = set(), [0]
        while todo:
            b = todo.pop()
            if b in seen:
                continue
            seen.add(b)
            for ins in f['blocks'][b]:
                todo += list(ins.get('succ', ())) + ([ins['normal']] if 'normal' in ins else []) + ([ins['def']] + [c[1] for c in ins['cases']] if 'cases' in ins else [])
        al, out = set(), set()
        for b in seen:
            for ins in f['blocks'][b]:
                if ins['op'] == 'alloca':
                    al.add(ins['id'])
                elif b not in body:
                    out |= {o for k in ('ops', 'args', 'ptr', 'steps', 'cond', 'inc', 'fn') for o in flatten((ins.get(k, ()),)) if isinstance(o, int)}
        f[key] = al - out
    return f[key]


def flatten(x):
    for o in x:
        if isinstance(o, (list, tuple)):
            yield from flatten(o)
        else:
            yield o


def run_loop(ex, f, cfg, hdr, body, st0, rets):
    mine = {st0.env[i].root for i in block_locals(f, body, hdr) if isinstance(st0.env.get(i), Loc)}
    blk = f['blocks'][hdr]
    phis = [i['id'] for i in blk if i['op'] == 'phi']
    phity = {i['id']: i['ty'] for i in blk if i['op'] == 'phi'}
    a_start = ex.allocn

    def iterate(state, rt):
        exits, backs = ex.region(f, cfg, body, hdr, [(None, state)], hdr, rt)
        back = None
        if backs:
            back = ex.enter(f, hdr, backs)
        return exits, back

    # ---- try complete unrolling (all exit decisions concrete)
    hb = blk[-1]
    trial = True
    if hb['op'] == 'br' and 'cond' in hb and any(s not in body for s in hb['succ']):
        got = []
        ex.quiet += 1
        try:
            ex.block(f, hdr, st0.copy(), lambda s, d, x: got.append(d), [])
        finally:
            ex.quiet -= 1
        if len(set(got)) > 1:
            trial = False
    if trial:
        cur = st0
        nob = len(ex.oblig)
        outs, rts = [], []
        ok = False
        for k in range(ex.unroll):
            rt = []
            exits, back = iterate(cur.copy(), rt)
            exits = [e for e in exits if not e[2].dead()]
            rt = [r for r in rt if not r.dead()]
            if back is None or back.dead():
                outs += exits
                rts += rt
                ok = True
                break
            if exits or rt:
                break
            cur = back
        if ok:
            rets.extend(rts)
            return outs
        del ex.oblig[nob:]

    # ---- summarise
    forms = {}
    order = []
    base_syms = counter()

    def init_of(v):
        if v[0] == 'phi':
            return st0.env[v[1]]
        return ex.node(st0, v[1][:3], v[1][3])

    fixed = {}      # per-pass objects placed in the state

    def shape_unk(v, init):
        if v[0] == 'fam':
            k = v[1]
            fn = z3.Function(freshname('L'), *([I] * len(k[1]) + [KSORT[k[3]]]))
            return Base(lambda *ix, fn=fn: fn(*[zi(i) for i in ix]), fn.name()), fn
        if isinstance(init, (NullT,)) or (isinstance(init, Loc) and init.isref()):
            s = fresh('lp')
            r = init.root[1] if isinstance(init, Loc) else '?'
            return ref(r, s), s
        if isinstance(init, Loc):
            return UNDEF, None
        if isinstance(init, bool) or (isinstance(init, z3.ExprRef) and z3.is_bool(init)):
            s = fresh('lv', B)
            return s, s
        if init is UNDEF or init is None:
            k = v[1][3] if v[0] == 'cell' else None
            if v[0] == 'phi':
                t = phity[v[1]]
                if t == 'i1':
                    s = fresh('lv', B)
                    return s, s
                k = ex.kind_of(t)
            if k == 'p':
                s = fresh('lp')
                return ref('?', s), s
            s = fresh('lv', KSORT[k])
            return s, s
        if isint(init):
            s = fresh('lv')
            return s, s
        if isc(init) or isinstance(init, z3.ExprRef):
            s = fresh('lv', R)
            return s, s
        return UNDEF, None

    def at(v, t):
        fm = forms.get(v, ('inv',))
        init = init_of(v)
        k = fm[0]
        if k == 'inv':
            return init, None
        if k == 'unk':
            return shape_unk(v, init)
        if k == 'dead':
            return UNDEF, None
        if k == 'aff':
            if isinstance(init, Loc):
                return Loc(init.root, tuple((a, b, add(c, mul(d, t))) for (a, b, c), d in zip(init.segs, fm[1])), init.off, init.lty), None
            return add(init, mul(fm[1], t)), None
        if k == 'sum':
            return add(init, SUM(fm[1], fm[2], t)), None
        if k == 'last':
            tm = sub(t, 1)
            e = fm[2]
            sb = lambda q: subst(q, [(fm[1], tm)]) if isinstance(q, z3.ExprRef) else q
            if isinstance(e, Loc):
                nv = Loc(e.root, tuple((a, b, sb(c)) for a, b, c in e.segs), e.off, e.lty)
            else:
                nv = sb(e)
            if fm[3]:
                iv = nv          # initial value never observed (uninitialised)
            else:
                iv = init
            return ex.merge_val(EQ(t, 0), iv, nv), None
        if k == 'plus':
            _, s, kv, d = fm
            return Plus(init, lambda *ix: SUM(s, subst(d, list(zip(kv, ix))), t)), None
        if k == 'over':
            _, tt, kv, sk, w, val = fm

            def Wf(*ix):
                pr = list(zip(kv, ix))
                s = subst(sk, pr)
                return AND(LE(0, s), LT(s, t), subst(subst(w, [(tt, sk)]), pr))

            def Vf(*ix):
                pr = list(zip(kv, ix))
                return subst(subst(val, [(tt, sk)]), pr)
            return Over(init, Wf, Vf), None
        raise Unsupported('form ' + k)

    def build(t, facts):
        st = st0.copy()
        for x in facts:
            st.assume(x)
        placed = {}
        for v in order:
            val, sym = at(v, t)
            placed[v] = (val, sym)
            if v[0] == 'phi':
                st.env[v[1]] = val
            else:
                st.mem[v[1]] = val
        for p in phis:
            v = ('phi', p)
            if v not in placed:
                placed[v] = (st0.env[p], None)
        return st, placed

    def next_of(back, v):
        if v[0] == 'phi':
            return back.env.get(v[1], UNDEF)
        return back.mem.get(v[1])

    def same(a, b):
        if a is b:
            return True
        if isinstance(a, Loc) and isinstance(b, Loc):
            return a.key() == b.key() and all(EQ(x, y) is True for x, y in zip(a.idx(), b.idx()))
        if isc(a) and isc(b):
            return a == b
        if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
            return a.eq(b)
        if isinstance(a, Base) or isinstance(b, Base):
            return False
        return False

    def guess(v, init, nxt):
        if v[0] == 'fam':
            return ('unk',)
        if v[0] == 'cell' and v[1][0] in mine:
            return ('dead',)
        if nxt is UNDEF or nxt is None:
            return ('dead',)
        if isinstance(nxt, tuple) or isinstance(init, tuple):
            return ('dead',)
        if isinstance(init, (vc.VTab, vc.PInt, vc.Fn)) or isinstance(nxt, (vc.VTab, vc.PInt, vc.Fn)):
            return ('dead',)
        if isinstance(init, Loc) and isinstance(nxt, Loc) and init.key() == nxt.key():
            ds = []
            for a, b in zip(init.idx(), nxt.idx()):
                if isinstance(a, tuple) or isinstance(b, tuple):
                    return ('dead',)
                d = norm(z3.simplify(z(sub(b, a))))
                if not isc(d):
                    return ('unk',) if init.isref() else ('dead',)
                ds.append(d)
            return ('aff', tuple(ds))
        if isinstance(init, (Loc, NullT)) or isinstance(nxt, (Loc, NullT)):
            if init is UNDEF:
                return ('unk',) if isinstance(nxt, NullT) or nxt.isref() else ('dead',)
            if (isinstance(init, NullT) or init.isref()) and (isinstance(nxt, NullT) or (isinstance(nxt, Loc) and nxt.isref())):
                return ('unk',)
            return ('unk',) if init is UNDEF else ('dead',)
        if isint(init) and isint(nxt):
            d = norm(z3.simplify(z(sub(nxt, init))))
            if isc(d):
                return ('aff', d)
            cs, fs = local_syms(d, base_syms, ())
            if not cs and not fs:
                return ('aff', d)
        return ('unk',)

    def modified(back, placed, sref):
        for k, n in back.mem.items():
            if k[0][0] == 'a' and k[0][1] > a_start:
                continue
            v = ('fam' if k[1] else 'cell', k)
            cur = placed[v][0] if v in placed else sref.mem.get(k)
            if cur is None:
                cur = ex.init_node(k)
            if n is not cur and not same(n, cur):
                yield v

    # pass 0 : from the initial state (the same loop met before: from what it changed then)
    roots = tuple(sorted((str(i), l.root) for i, l in st0.env.items() if isinstance(l, Loc) and l.root[0] == 'a' and not l.segs))
    ckey = (id(f), hdr, roots)
    known = ex.loopcache.get(ckey)
    if known is not None:
        for v, fm in known:
            try:
                i0 = init_of(v)
            except KeyError:
                known = None
                break
            if fm[0] == 'aff' and not (isinstance(i0, Loc) and isinstance(fm[1], tuple) and len(i0.idx()) == len(fm[1]) or isint(i0) and not isinstance(fm[1], tuple)):
                known = None
                break
    if known is not None:
        for v, fm in known:
            forms[v] = fm
            order.append(v)
    else:
        ex.quiet += 1
        try:
            dummy = []
            exits, back = iterate(st0.copy(), dummy)
        finally:
            ex.quiet -= 1
        if back is None or back.dead():
            exits, back = iterate(st0.copy(), rets)
            return exits
        for p in phis:
            v = ('phi', p)
            nx = next_of(back, v)
            if not same(st0.env[p], nx):
                forms[v] = guess(v, st0.env[p], nx)
                order.append(v)
        for v in modified(back, {}, st0):
            forms[v] = guess(v, init_of(v), next_of(back, v))
            order.append(v)

    stuck = set()
    for npass in range(14):
        t = fresh('t')
        start = counter()
        st, placed = build(t, [LE(0, t)])
        npc = len(st.pc)
        base_back = st.copy()
        ex.quiet += 1
        try:
            exits, back = iterate(st, [])
        finally:
            ex.quiet -= 1
        if back is None or back.dead():
            raise Unsupported('loop body never continues')
        changed = False
        demoted = False
        unkc = {}
        unkf = {}
        for v, (val, sym) in placed.items():
            if sym is not None:
                if isinstance(sym, z3.FuncDeclRef):
                    unkf[sym.name()] = (v, sym)
                else:
                    unkc[sym.decl().name()] = (v, sym)
        unknames = set(unkc) | set(unkf)
        # new modifications
        for v in list(modified(back, placed, base_back)):
            if v not in forms:
                forms[v] = guess(v, init_of(v), next_of(back, v)) if v[0] != 'fam' else ('unk',)
                if forms[v][0] == 'aff':
                    forms[v] = ('unk',)
                order.append(v)
                demoted = True
        for p in phis:
            v = ('phi', p)
            if v not in forms and not same(placed[v][0], next_of(back, v)):
                forms[v] = ('unk',)
                order.append(v)
                demoted = True
        # check affine forms
        t1 = add(t, 1)
        for v in order:
            fm = forms[v]
            if fm[0] == 'aff' and v in placed:
                nx = next_of(back, v)
                want, _ = at(v, t1)
                okk = False
                if isinstance(want, Loc) and isinstance(nx, Loc) and want.key() == nx.key():
                    okk = all(ex.P.entails(back.pc, EQ(a, b)) for a, b in zip(want.idx(), nx.idx()))
                elif isinstance(nx, (int, Fraction)) or isinstance(nx, z3.ExprRef):
                    if not isinstance(want, Loc):
                        okk = ex.P.entails(back.pc, EQ(want, nx))
                if not okk:
                    forms[v] = ('unk',) if not (isinstance(want, Loc) and not want.isref()) else ('dead',)
                    demoted = True
        if demoted:
            # recompute every derived form
            for v in order:
                if forms[v][0] in ('sum', 'plus', 'over', 'last'):
                    forms[v] = ('unk',)
            stuck.clear()
            continue
        # leaving when the iteration number meets a loop invariant X >= 0: earlier iterations did not, so t < X
        for c in list(back.pc):
            if not (isinstance(c, z3.ExprRef) and z3.is_not(c) and z3.is_eq(c.arg(0))):
                continue
            for a, b in ((c.arg(0).arg(0), c.arg(0).arg(1)), (c.arg(0).arg(1), c.arg(0).arg(0))):
                if a.eq(t) and z3.is_int(b) and not hasfun(b, {t.decl().name()}) and not hasfun(b, unknames) and local_syms(b, start, ()) == ([], set()) and ex.P.entails(st0.pc, LE(0, b), 500):
                    back.assume(LT(t, b))
        for v in order:
            if forms[v][0] != 'unk' or v in stuck:
                continue
            nx = next_of(back, v)
            val, sym = placed[v]
            r = None
            if v[0] != 'fam':
                r = resolve_scalar(ex, v, init_of(v), val, sym, nx, back, t, start, unknames)
            else:
                if nx is None or nx is val:
                    r = ('inv',)
                else:
                    r = resolve_family(ex, v, init_of(v), val, sym, nx, back, t, start, unknames, forms, init_of)
            if r is not None:
                forms[v] = r
                changed = True
        if not changed or not any(forms[v][0] == 'unk' for v in order):
            break
    else:
        raise Unsupported('loop summary did not converge')
    ex.loopcache[ckey] = [(v, forms[v] if forms[v][0] == 'dead' or forms[v][0] == 'aff' and all(isc(d) for d in (forms[v][1] if isinstance(forms[v][1], tuple) else (forms[v][1],))) else ('unk',)) for v in order]
    if ex.trace:
        print('   loop in %s forms: %s' % (f['dn'][:60], [(v[0], str(v[1])[:50], forms[v][0]) for v in order]))

    # ---- trip count and final pass
    unk = [v for v in order if forms[v][0] == 'unk']
    cands = []
    exts = []
    if unk or ex.inv_cands:
        for v in unk:
            if v[0] == 'fam':
                continue
            i0 = init_of(v)
            if isint(i0):
                cands += [(lambda x, tt, v=v, i0=i0: LE(i0, x[v]), v), (lambda x, tt, v=v, i0=i0: LE(x[v], i0), v),
                          (lambda x, tt, v=v, i0=i0: LE(0, x[v]), v), (lambda x, tt, v=v, i0=i0: LE(x[v], add(i0, tt)), v)]
            elif isc(i0) and not isinstance(i0, bool) or (isinstance(i0, z3.ExprRef) and z3.is_real(i0)):
                cands += [(lambda x, tt, v=v, i0=i0: LE(i0, x[v]), v), (lambda x, tt, v=v, i0=i0: LE(x[v], i0), v),
                          (lambda x, tt, v=v, i0=i0: LE(0, x[v]), v)]
        # a flag that is still at its start value: no counter has moved
        for v in unk:
            if v[0] == 'fam':
                continue
            i0 = init_of(v)
            if not isinstance(i0, (bool, int)):
                continue
            for w in order:
                if w[0] == 'fam' or w is v or forms[w][0] not in ('sum', 'unk'):
                    continue
                w0 = init_of(w)
                if isinstance(w0, bool) or not (isc(w0) or isinstance(w0, z3.ExprRef) and not z3.is_bool(w0)):
                    continue
                cands.append((lambda x, tt, v=v, w=w, i0=i0, w0=w0: OR(NOT(EQ(x[v], i0)), EQ(x[w], w0)), v))
        # running extrema v = max/min(v, d(iteration)), with the position of the extremum
        for v in unk:
            if v[0] == 'fam' or v not in placed or placed[v][1] is None:
                continue
            val, sym = placed[v]
            if not z3.is_expr(sym) or not (z3.is_real(sym) or z3.is_int(sym)):
                continue
            d, up, gd = extremum(ex, sym, next_of(back, v), back, t, start, unknames)
            if d is None:
                continue
            i0 = init_of(v)
            D = extfun(ex, d, t, start)
            pol = gd is None or not z3.is_not(gd)
            G = None if gd is None else extfun(ex, gd if pol else gd.arg(0), t, start)
            if D is None or gd is not None and G is None:
                continue
            exts.append(D)
            if G is not None:
                exts.append(G)
            sv = z3.Const(freshname('E').replace('!', '@'), I)
            ds = D(sv)
            dom = lambda tt, sv=sv, G=G, pol=pol: z3.And(0 <= sv, sv < zi(tt), *([] if G is None else [G(sv) if pol else z3.Not(G(sv))]))
            if not any(isint(init_of(w)) and w[0] != 'fam' and w is not v for w in unk):
                # no position is kept: some iteration attains the extremum
                cands.append((lambda x, tt, v=v, i0=i0, sv=sv, ds=ds, dom=dom: OR(EQ(x[v], i0), z3.Exists([sv], z3.And(dom(tt), ds == z(x[v])))), v))
            cmp_ = (lambda a, b: a <= b) if up else (lambda a, b: a >= b)
            cands.append((lambda x, tt, v=v, sv=sv, ds=ds, dom=dom, cmp_=cmp_: z3.ForAll([sv], z3.Implies(dom(tt), cmp_(ds, z(x[v]))), patterns=[ds]), v))
            cands.append((lambda x, tt, v=v, i0=i0, cmp_=cmp_: cmp_(z(i0), z(x[v])), v))
            for w in unk:
                if w[0] == 'fam' or w is v or not isint(init_of(w)):
                    continue
                w0 = init_of(w)
                cands.append((lambda x, tt, v=v, w=w, D=D, i0=i0, w0=w0: OR(AND(EQ(x[v], i0), EQ(x[w], w0)), AND(LE(0, x[w]), LT(x[w], tt), EQ(D(zi(x[w])), x[v]))), v))
        # running conjunctions and disjunctions
        for v in unk:
            if v[0] == 'fam' or v not in placed or placed[v][1] is None or not z3.is_expr(placed[v][1]):
                continue
            i0 = init_of(v)
            if not (isinstance(i0, (bool, int)) or z3.is_bool(i0)):
                continue
            r = reduction(ex, placed[v][1], next_of(back, v), back, t, start, unknames)
            if r is None:
                continue
            conj, g = r
            pol = not z3.is_not(g)
            D = extfun(ex, g if pol else g.arg(0), t, start)
            if D is None:
                continue
            exts.append(D)
            sv = z3.Const(freshname('E').replace('!', '@'), I)
            ok = D(sv) if pol else z3.Not(D(sv))
            dom = lambda tt, sv=sv: z3.And(0 <= sv, sv < zi(tt))
            tr = lambda e: e if isinstance(e, bool) or z3.is_expr(e) and z3.is_bool(e) else NOT(EQ(e, 0))
            if conj:
                cands.append((lambda x, tt, v=v, i0=i0, tr=tr: IMP(tr(x[v]), tr(i0)), v))
                cands.append((lambda x, tt, v=v, sv=sv, ok=ok, dom=dom, D=D, tr=tr: IMP(tr(x[v]), z3.ForAll([sv], z3.Implies(dom(tt), ok), patterns=[D(sv)])), v))
                cands.append((lambda x, tt, v=v, i0=i0, sv=sv, ok=ok, dom=dom, tr=tr: OR(tr(x[v]), NOT(tr(i0)), z3.Exists([sv], z3.And(dom(tt), z3.Not(ok)))), v))
            else:
                cands.append((lambda x, tt, v=v, i0=i0, tr=tr: IMP(tr(i0), tr(x[v])), v))
                cands.append((lambda x, tt, v=v, sv=sv, ok=ok, dom=dom, D=D, tr=tr: OR(tr(x[v]), z3.ForAll([sv], z3.Implies(dom(tt), z3.Not(ok)), patterns=[D(sv)])), v))
                cands.append((lambda x, tt, v=v, i0=i0, sv=sv, ok=ok, dom=dom, tr=tr: OR(NOT(tr(x[v])), tr(i0), z3.Exists([sv], z3.And(dom(tt), ok))), v))
    spec_c = []
    for g in ex.inv_cands:
        spec_c += g(ex, f, hdr, st0) or []

    def vals_of(placed, st):
        return {v: (st.env[v[1]] if v[0] == 'phi' else st.mem[v[1]]) for v in order if v[0] != 'fam'}

    def inv_facts(placed, st, t):
        x = vals_of(placed, st)
        out = []
        for c, v in cands:
            try:
                out.append(c(x, t))
            except Exception:
                out.append(True)
        for c in spec_c:
            out.append(c(st, t))
        return out
    # initialisation filter for spec candidates
    if spec_c:
        keep = []
        for c in spec_c:
            g = c(st0, 0)
            if ex.P.entails(st0.pc, g, 3000):
                keep.append(c)
        spec_c[:] = keep
    while cands or spec_c:
        t = fresh('t')
        st, placed = build(t, [LE(0, t)])
        for g in inv_facts(placed, st, t):
            st.assume(g)
        ex.quiet += 1
        try:
            exits, back = iterate(st, [])
        finally:
            ex.quiet -= 1
        if back is None:
            break
        nxp = {}
        x = {}
        for v in order:
            if v[0] != 'fam':
                x[v] = next_of(back, v)
        t1 = add(t, 1)
        bad_c, bad_s = [], []
        for c, v in cands:
            try:
                g = c(x, t1)
            except Exception:
                bad_c.append((c, v))
                continue
            if not ex.P.entails(back.pc, g, 2000):
                # again with the per-iteration value of the extrema abstracted
                okx = False
                if exts and isinstance(g, z3.ExprRef):
                    prs = [(D.at(t), z3.Const('dd@%d' % i, D(t).sort())) for i, D in enumerate(exts)]
                    ab = lambda e: z3.substitute(e, *prs) if isinstance(e, z3.ExprRef) else e
                    pcs = [ab(zb(q)) for q in back.pc if isinstance(q, z3.ExprRef)] + [D(t) == q[1] for D, q in zip(exts, prs)]
                    okx = ex.P.entails(pcs, ab(g), 2000)
                    if ex.trace and not okx:
                        print('   abstracted', str(ab(g))[:1500], '\n   PCS', [str(q)[:300] for q in pcs])
                if not okx:
                    bad_c.append((c, v))
        if spec_c:
            nst = back.copy()
            for v in order:
                if v[0] == 'phi':
                    nst.env[v[1]] = x[v]
            for c in spec_c:
                if not ex.P.entails(back.pc, c(nst, t1), 3000):
                    bad_s.append(c)
        if ex.trace and (cands or spec_c):
            print('   invariants: %d candidates, dropped %s; of the spec %d, dropped %d: %s' % (len(cands), [str(c(x, t1))[:160] for c, v in bad_c], len(spec_c), len(bad_s), [str(c(nst, t1)) for c in bad_s]))
        if not bad_c and not bad_s:
            break
        cands = [c for c in cands if c not in bad_c]
        spec_c = [c for c in spec_c if c not in bad_s]

    def generic(t, facts, quiet):
        st, placed = build(t, [LE(0, t)])
        for g in inv_facts(placed, st, t):
            st.assume(g)
        for g in facts:
            st.assume(g)
        n = len(st.pc)
        pre = st.pc
        rt = []
        ex.quiet += quiet
        try:
            exits, back = iterate(st, rt)
        finally:
            ex.quiet -= quiet
        return pre, exits, back, rt

    t = fresh('t')
    start = counter()
    pre, exits, back, rt = generic(t, [], 1)
    npre = len(pre)
    suffix = lambda s: list(s.pc[npre:]) if s.pc[:npre] == pre or all(a is b for a, b in zip(s.pc[:npre], pre)) else [p for p in s.pc if not any(p is q for q in pre)]
    C = [x for x in suffix(back) if not vc.isob(x)] if back is not None and not back.dead() else [False]
    bounds = []
    for c in flat(C):
        b = solve_bound(ex, c, t, start)
        if b is not None:
            bounds.append(b)
    exits = [e for e in exits if not e[2].dead()]
    rt = [r for r in rt if not r.dead()]
    allx = [e[2] for e in exits] + rt
    X = None
    for b in bounds:
        lt = LT(t, b)
        if all(ex.P.entails(s.pc, NOT(lt), 1500) for s in allx):
            X = b
            break
    facts = []
    for b in bounds:
        facts.append(OR(LE(t, b), EQ(t, 0)))
    # final generic pass with obligations on
    tg = fresh('t')
    if not ex.quiet:
        gf = [subst(z(x), [(t, tg)]) for x in facts if not isc(x)]
        Cq = quantC(C, t, tg, start)
        if Cq is not None:
            gf.append(Cq)
        generic(tg, gf, 0)
    if X is not None:
        if ex.P.entails(st0.pc, LE(0, X), 2000):
            T = X
        else:
            T = ITE(LE(0, X), X, 0)
        tf = []
        hasother = [c for c in flat(C) if not isbound(c, t, X)]
        if hasother and not isc(T):
            q = quantC(C, t, T, start)
            if q is not None:
                tf.append(q)
    else:
        T = fresh('T')
        tf = [LE(0, T)] + [OR(LE(T, b), EQ(T, 0)) for b in bounds]
        q = quantC(C, t, T, start)
        if q is not None:
            tf.append(q)
    stT, placed = build(T, [])
    for g in inv_facts(placed, stT, T) + tf:
        stT.assume(g)
    for b in bounds:
        pass
    if X is not None:
        stT.assume(NOT(LT(T, X)) if not isc(T) or not isc(X) else True)
    ex.quiet += 1
    try:
        rr = []
        exits, back = iterate(stT, rr)
    finally:
        ex.quiet -= 1
    rets.extend(rr)
    # loop-local memory dies with the loop
    for _, _, s in exits:
        pass
    return exits


def flat(cs):
    out = []
    for c in cs:
        c = norm(c)
        if isinstance(c, bool):
            continue
        if z3.is_and(c):
            out += flat([c.arg(i) for i in range(c.num_args())])
        else:
            out.append(c)
    return out


def isbound(c, t, X):
    return any(x.eq(t) for x in consts_in(c)) and z3.is_lt(c) or z3.is_not(c)


def quantC(C, t, T, start):
    """forall s in [0,T): C(s)"""
    cs = [c for c in flat(C) if any(x.eq(t) for x in consts_in(c))]
    cs = [c for c in cs if not contains_quant(c)]
    if not cs:
        return None
    body = z3.And(cs)
    body = skolem(body, t, start)
    if body is None:
        return None
    s = z3.Const('sq', I)
    bs = z3.substitute(body, (t, s))
    try:
        return z3.ForAll([s], z3.Implies(z3.And(s >= 0, s < zi(T)), bs))
    except z3.Z3Exception:
        return None


def contains_quant(e):
    st, seen = [e], set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            return True
        if z3.is_app(x):
            for i in range(x.num_args()):
                st.append(x.arg(i))
    return False


_sk = {}


def skolem(e, t, start):
    """replace loop-local constants by functions of t; None when loop-local functions occur"""
    if isc(e):
        return e
    cs, fs = local_syms(e, start, {t.decl().name()})
    if fs:
        return None
    pairs = []
    for c in cs:
        k = (c.decl().name(), t.decl().name())
        if k not in _sk:
            _sk[k] = z3.Function(freshname('sk'), I, c.sort())
        pairs.append((c, _sk[k](t)))
    return z3.substitute(e, *pairs) if pairs else e


def solve_bound(ex, c, t, start):
    """continue-condition c -> X with c => t < X  (X loop invariant)"""
    if not z3.is_app(c):
        return None
    neg = False
    if z3.is_not(c):
        neg = True
        c = c.arg(0)
    k = c.decl().kind()
    if not (z3.is_lt(c) or z3.is_le(c) or z3.is_gt(c) or z3.is_ge(c) or z3.is_eq(c)):
        return None
    a, b = c.arg(0), c.arg(1)
    if not (z3.is_arith(a) and a.is_int()):
        return None
    if not any(x.eq(t) for x in consts_in(c)):
        return None
    if neg and z3.is_eq(c):
        e = a - b          # e != 0
        kind = 'ne'
    else:
        if z3.is_eq(c):
            return None
        if (z3.is_lt(c) and not neg):
            e = a - b
        elif z3.is_le(c) and not neg:
            e = a - b - 1
        elif z3.is_gt(c) and not neg:
            e = b - a
        elif z3.is_ge(c) and not neg:
            e = b - a - 1
        elif z3.is_lt(c):      # not a<b : a>=b : b-a<=0 : b-a-1<0
            e = b - a - 1
        elif z3.is_le(c):      # not a<=b : a>b : b-a<0
            e = b - a
        elif z3.is_gt(c):
            e = a - b - 1
        else:
            e = a - b
        kind = 'lt'
    e0 = norm(z3.simplify(z3.substitute(e, (t, z3.IntVal(0)))))
    step = norm(z3.simplify(z3.substitute(e, (t, t + 1)) - e))
    if not isc(step) or step == 0:
        return None
    cs, fs = local_syms(z(e0), start, ())
    if cs or fs:
        return None
    if kind == 'ne':
        if step == 1:
            return norm(z3.simplify(z(neg_(e0))))
        if step == -1:
            return e0
        if step > 0:
            return udiv(neg_(e0), step)
        return udiv(e0, -step)
    if step < 0:
        return None
    m = neg_(e0)
    m = norm(z3.simplify(z(m)))
    if step == 1:
        return m
    return udiv(add(m, step - 1), step)


def neg_(x):
    return neg(x)


def closable(e, t, start, unknames):
    if isc(e):
        return True
    if hasfun(e, unknames):
        return False
    return True


def resolve_scalar(ex, v, init, val, sym, nx, back, t, start, unknames):
    if nx is UNDEF or nx is None:
        return ('dead',)
    if isinstance(val, Loc) and isinstance(nx, (Loc, NullT)):
        if not isinstance(nx, Loc) or not nx.isref():
            if isinstance(nx, Loc) and not any(hasfun(z(c), unknames) for c in nx.idx()):
                pass
            else:
                return None
        es = [skolem(z(c), t, start) if not isc(c) else c for c in nx.idx()] if isinstance(nx, Loc) else []
        if any(e is None for e in es):
            return None
        if any(hasfun(z(e), unknames) for e in es):
            return None
        if isinstance(nx, Loc) and nx.root[0] == 'a':
            return None
        e = Loc(nx.root, tuple((a, b, c) for (a, b, _), c in zip(nx.segs, es)), nx.off, nx.lty) if isinstance(nx, Loc) else NULL
        return ('last', t, e, init is UNDEF)
    if isinstance(nx, (Loc, NullT, Choice, tuple)):
        return None
    if sym is None:
        return None
    nxs = norm(z3.simplify(z(nx)))
    if isinstance(nxs, z3.ExprRef) and nxs.eq(sym):
        return ('inv',)
    # independent of itself and of every unknown
    if not hasfun(z(nxs), unknames):
        e = skolem(nxs, t, start) if not isc(nxs) else nxs
        if e is None:
            return None
        return ('last', t, e, init is UNDEF)
    if z3.is_bool(sym):
        return None
    # additive recurrence
    nz = nx
    if isint(sym):
        d0 = norm(z3.simplify(z3.substitute(zi(nz), (sym, z3.IntVal(0)))))
    else:
        d0 = norm(z3.simplify(z3.substitute(zr(nz), (sym, z3.RealVal(0)))))
    if hasfun(z(d0), unknames):
        return None
    if not ex.P.entails(back.pc, EQ(nz, add(sym, d0)), 4000):
        return None
    d = skolem(d0, t, start) if not isc(d0) else d0
    if d is None:
        return None
    s = z3.Const(freshname('S').replace('!', '@'), I)
    return ('sum', s, subst(d, [(t, s)]))


def extfun(ex, d, t, start):
    """name the per-iteration value d(t): D(s) with its definition; further free constants of d become parameters"""
    d = z(d)
    cs, seen, todo = [], set(), [d]
    while todo:
        e = todo.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_quantifier(e) or z3.is_var(e):
            return None
        if e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            if e.num_args():
                n = e.decl().name()
                if '!' in n and not n.startswith('H_') and not (n.rsplit('!', 1)[1].isdigit() and int(n.rsplit('!', 1)[1]) <= start):
                    return None      # a function of this iteration only
            elif not e.eq(t):
                cs.append(e)
        todo.extend(e.children())
    cs.sort(key=lambda c: c.decl().name())
    f = z3.Function(freshname('EXT').replace('!', '@'), I, *([c.sort() for c in cs] + [d.sort()]))
    D = lambda s: f(s, *cs)
    at = lambda c: z3.substitute(d, (t, zi(c)))
    ex.P.extrema.append(lambda c: D(c) == at(c))
    D.at = at
    return D


def reduction(ex, sym, nx, back, t, start, unknames):
    """(is conjunction, g) with nx = sym and g, or nx = sym or g, and g independent of every loop unknown"""
    if isc(nx) and not isinstance(nx, bool) or not (z3.is_bool(sym) or z3.is_int(sym)):
        return None
    bo = z3.is_bool(sym)
    tr = lambda e: zb(e) if bo else z3.Not(zi(e) == 0)
    at = lambda b: z3.simplify(tr(z3.substitute(z(nx), (sym, z3.BoolVal(b) if bo else z3.IntVal(int(b))))))
    n0, n1 = at(False), at(True)
    for conj, fix, g in ((True, z3.Not(n0), n1), (False, n1, n0)):
        if z3.is_true(g) or z3.is_false(g) or hasfun(g, unknames) or not ex.P.entails(back.pc, fix, 500):
            continue
        k = skolem(g, t, start)
        if k is not None and not hasfun(k, unknames) and ex.P.entails(back.pc, tr(nx) == (z3.And(tr(sym), g) if conj else z3.Or(tr(sym), g)), 500):
            return conj, k
    return None


def extremum(ex, sym, nx, back, t, start, unknames):
    """(d, is max, guard) with nx = max(sym, d) or min(sym, d) when the guard holds (None: always) and nx = sym otherwise; d and the guard
    independent of every loop unknown"""
    if not isinstance(nx, z3.ExprRef):
        return None, None, None
    seen, todo, cand, guards = set(), [nx] + [p for p in back.pc if isinstance(p, z3.ExprRef)][-40:], [], []
    inner = set()
    while todo:
        e = todo.pop()
        if e.get_id() in seen or not z3.is_app(e):
            continue
        seen.add(e.get_id())
        if e.decl().kind() in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT):
            for a, b in ((e.arg(0), e.arg(1)), (e.arg(1), e.arg(0))):
                if a.eq(sym) and not hasfun(b, unknames):
                    cand.append(b)
        elif e.decl().kind() == z3.Z3_OP_ITE:
            for a, b in ((e.arg(1), e.arg(2)), (e.arg(2), e.arg(1))):
                if a.eq(sym) and not hasfun(b, unknames):
                    cand.append(b)
        if z3.is_bool(e) and not z3.is_not(e) and not z3.is_and(e) and not z3.is_or(e) and hasfun(e, {t.decl().name()}) and not hasfun(e, unknames):
            guards.append(e)
        todo.extend(e.children())
    guards = [g for g in guards[:12] if not ex.P.entails(back.pc, g, 500) and not ex.P.entails(back.pc, z3.Not(g), 500)]
    for d in cand[:6]:
        for up in (True, False):
            c = (lambda a, b: LE(b, a)) if up else LE
            is_ext = AND(c(nx, sym), c(nx, d), OR(EQ(nx, sym), EQ(nx, d)))
            if ex.P.entails(back.pc, is_ext, 3000):
                k = skolem(z(d), t, start)
                if k is not None and not hasfun(k, unknames):
                    return k, up, None
            for g in guards[:4]:
                for gg in (g, z3.Not(g)):
                    if ex.P.entails(back.pc, z3.If(gg, zb(is_ext), zb(EQ(nx, sym))), 1000):
                        k, kg = skolem(z(d), t, start), skolem(gg, t, start)
                        if k is not None and kg is not None and not hasfun(k, unknames) and not hasfun(kg, unknames):
                            return k, up, kg
    return None, None, None


def zero_fun(e, fn):
    n = fn.arity()
    z0 = z3.IntVal(0) if fn.range() == I else z3.RealVal(0)
    return z3.substitute_funs(e, (fn, z0))


def has_const(e, c, seen=None):
    seen = set() if seen is None else seen
    if e.get_id() in seen:
        return False
    seen.add(e.get_id())
    return e.eq(c) or any(has_const(a, c, seen) for a in e.children())


def invert(ex, e, x, t):
    """candidate for the t with e(t) = x, through map enumerations and declared injections (checked by the caller)"""
    seen = False
    while not isc(e) and z3.is_app(e):
        if e.eq(t):
            return x if seen else None
        if z3.is_app_of(e, z3.Z3_OP_ITE):
            # null or the object: the branch that depends on t
            bs = [b for b in e.children()[1:] if has_const(b, t)]
            if not bs:
                return None
            e = min(bs, key=lambda b: len(b.sexpr()))
            continue
        if z3.is_add(e):
            dep = [a for a in e.children() if has_const(a, t)]
            if len(dep) != 1:
                return None
            for a in e.children():
                if not a.eq(dep[0]):
                    x = sub(x, norm(a))
            e = dep[0]
            continue
        if e.decl().kind() != z3.Z3_OP_UNINTERPRETED or not e.num_args():
            return None
        nm = e.decl().name()
        for q in ex.enumerations:
            if q['K'].name() == nm:
                x = q['pos'](*[e.arg(i) for i in range(e.num_args() - 1)], zi(x))
                e = e.arg(e.num_args() - 1)
                break
        else:
            if nm not in ex.inverses:
                return None
            g, k = ex.inverses[nm], e.num_args() - 1
            if isinstance(g, tuple):                # injective in another argument, the others fixed
                g, k = g
            x = g(zi(x))
            e = e.arg(k)
        seen = True
    return None


def resolve_family(ex, v, init, base, fn, nx, back, t, start, unknames, forms, init_of):
    key = v[1]
    nd = len(key[1])
    kv = [z3.Const('K@%d_%d' % (counter(), i), I) for i in range(nd)]; freshname('x')
    others = set(unknames) - {fn.name()}
    new = nx.read(tuple(kv))
    new = z(new) if isc(new) else new
    if z3.is_bool(new) and KSORT[key[3]] != B:
        new = zi(new)
    if hasfun(new, others):
        return None
    # unchanged by induction: writes that restore the value already there
    if key[3] in 'bi' and ex.P.entails is not None:
        try:
            vs = [z3.Var(i, I) for i in range(nd)]
            ini = z(init.read(tuple(vs)))
            if z3.is_expr(ini):
                ini = zb(ini) if KSORT[key[3]] == B else ini
                sub_ = lambda e: z3.substitute_funs(e, (fn, ini)) if isinstance(e, z3.ExprRef) else e
                got = sub_(new)
                want = z(init.read(tuple(kv)))
                pcs = [sub_(p) for p in back.pc]
                if ex.P.entails(pcs, EQ(got, want), 500):
                    return ('inv',)
        except z3.Z3Exception:
            pass
    # histogram: new(k) = B(k) + D(k)
    if key[3] != 'b':
        try:
            d0 = norm(z3.simplify(zero_fun(new, fn)))
            ok = True
        except z3.Z3Exception:
            ok = False
        if ok and not hasfun(z(d0), unknames):
            bk = fn(*kv)
            if ex.P.entails(back.pc, EQ(new, add(bk, d0)), 3000):
                d = skolem(d0, t, start) if not isc(d0) else d0
                if d is not None:
                    s = z3.Const(freshname('S').replace('!', '@'), I)
                    return ('plus', s, kv, subst(d, [(t, s)]))
    # write once
    w = written(nx, base, tuple(kv))
    if w is False:
        return ('inv',)
    if w is True:
        return None
    cand = []
    sl = stores_of(nx, base)
    # all paths write the same entry: say so in one condition
    ixs = []
    for g, ix in (sl or []):
        if not any(all(z(a).eq(z(b)) for a, b in zip(ix, o)) for o in ixs):
            ixs.append(ix)
    if len(ixs) == 1 and len(sl) > 1 and isinstance(w, z3.ExprRef):
        w1 = AND(*[EQ(a, b) for a, b in zip(kv, ixs[0])])
        if isinstance(w1, z3.ExprRef) and ex.P.entails(back.pc, zb(w) == w1, 500):
            w = w1
            new = z3.simplify(subst(new, list(zip(kv, [zi(a) for a in ixs[0]]))))
    # affine components of the syntactic stores
    if sl:
        for c in range(nd):
            steps, bs = set(), []
            okc = True
            for g, ix in sl:
                e = ix[c]
                if isc(e):
                    okc = False
                    break
                st_ = norm(z3.simplify(z3.substitute(zi(e), (t, t + 1)) - zi(e)))
                if not isc(st_) or st_ == 0:
                    okc = False
                    break
                steps.add(st_)
                bs.append(norm(z3.simplify(z3.substitute(zi(e), (t, z3.IntVal(0))))))
            if okc and len(steps) == 1:
                a = steps.pop()
                b0 = bs[0]
                for b in bs[1:]:
                    dlt = norm(z3.simplify(z(sub(b, b0))))
                    if isc(dlt) and dlt < 0:
                        b0 = b
                if a > 0:
                    cand.append(udiv(sub(kv[c], b0), a))
                else:
                    cand.append(udiv(sub(b0, kv[c]), -a))
    for c in range(nd):
        for g, ix in (sl or []):
            q = invert(ex, ix[c], kv[c], t)
            if q is not None:
                cand.append(q)
        cand.append(kv[c])
        for q, fm in forms.items():
            if fm[0] == 'aff' and q[0] == 'phi' and fm[1] == 1 and isint(init_of(q)) and EQ(init_of(q), 0) is not True:
                cand.append(sub(kv[c], init_of(q)))
    # w0: the write condition without the conjuncts that read the family itself
    w0 = w
    if isinstance(w, z3.ExprRef) and hasfun(w, {fn.name()}):
        w0 = AND(*[c for c in flat([z3.simplify(w)]) if not hasfun(c, {fn.name()})])
    for sk in cand:
        if hasfun(z(sk), unknames):
            continue
        if not ex.P.entails(back.pc + (w0,), EQ(t, sk), 60):
            continue
        # reads of the family itself must be at entries not written before iteration t
        def unwritten(x):
            pr = list(zip(kv, x))
            s = subst(sk, pr)
            wx = subst(subst(z(w0) if isinstance(w0, bool) else w0, [(t, sk)]), pr)
            return NOT(AND(LE(0, s), LT(s, t), wx))
        okr = True
        apps = []
        for e in (new, w if isinstance(w, z3.ExprRef) else z(w)):
            for a in funs_in(e, lambda n: n == fn.name()):
                if not any(a.eq(b) for b in apps):
                    apps.append(a)
        if hasfun(w, others):
            continue
        pairs = []
        apps.sort(key=lambda a: len(a.sexpr()))
        for a in apps:
            x = [a.arg(i) for i in range(nd)]
            if any(hasfun(q, {fn.name()}) for q in x):
                okr = False
                break
            if not ex.P.entails(back.pc + (w0,), unwritten(x), 2000):
                # reads only matter where written
                okr = False
                break
            pairs.append((a, z(init.read(tuple(x)))))
        if not okr:
            continue
        val = z3.substitute(new, *pairs) if pairs else new
        val = skolem(val, t, start)
        ww = skolem(z3.substitute(z(w), *pairs) if pairs else z(w), t, start)
        if val is None or ww is None or hasfun(val, unknames) or hasfun(ww, unknames):
            continue
        val = z3.simplify(z3.substitute(val, *[])) if False else val
        return ('over', t, kv, sk, ww, val)
    return None

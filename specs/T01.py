from spec import *
import lib
PID = 'T01'
LEVEL = 'proof'
NATIVE = 'T01'
TD = 'math/TimeData.cc'
NW = 'math/Newton.cc'
MC = 'commands/MathCommands.cc'
C = 'TimeData<double>'
N = 'dsMath::Newton<double>'
TP = 'dsMath::TimeMethods::TimeParams<double>'
METHOD = dict(DCOnly=0, TransientDC=1, TR=2, BDF1=3, BDF2=4)
ABS = lambda x: ITE(x >= 0, x, -x)


# ------------------------------------------------------------------ coefficients of the methods
def method(name):
    cl = 'dsMath::TimeMethods::%s<double>' % name

    @unit(PID, 'method ' + name, [MC], ['dsMath::TimeMethods::' + name])
    def _(u):
        """the residual a0 Q(new) + a1 Q0 + a2 Q1 + b0 I(new) + b1 I0 + b2 I1 represents dQ/dt + I = 0 on the step"""
        ex = u.fresh_exec()
        st = State()
        me = Loc(('v', 'params'))
        h, g = z3.Reals('h gamma')
        args = []
        if name in ('BDF1', 'TR', 'BDF2'):
            st.assume(z3.And(h > 0, g > 0, g < 1 if name == 'BDF2' else g <= 1))
            args = [h, g]
        s = u.run(u.fn('dsMath::TimeMethods::%s::%s' % (name, name), cl), [me] + args, st)[1]
        u.sat('any', s)
        f = lambda m, k='r': u.get(s, ex.fld(me, TP, m), k)
        a0, a1, a2, b0, b1, b2, td = [zr(f(m)) for m in ('a0', 'a1', 'a2', 'b0', 'b1', 'b2', 'tdelta')]
        u.prove('method', s, EQ(f('method', 'i'), METHOD[name]))
        P = lambda n, q: u.prove(n, s, q)
        if not args:
            P('no charge terms in a dc solution', z3.And(a0 == 0, a1 == 0, a2 == 0))
            P('the steady residual itself', z3.And(b0 == 1, b1 == 0, b2 == 0))
            return
        P('a constant charge gives no current', a0 + a1 + a2 == 0)
        P('no current from two points back', b2 == 0)
        P('the new current counts', b0 == 1)
        if name == 'BDF2':
            # points of the composite step: Q1 at 0, Q0 at gamma h, new at h
            P('exact for a linear charge', a0 * h + a1 * (g * h) == 1)
            P('exact for a quadratic charge at the new point', a0 * (h * h) + a1 * (g * h) * (g * h) == 2 * h)
            P('only the new current', b1 == 0)
            P('projection over the second part of the step', td == h - g * h)
        else:
            # Q0 at 0, new at gamma h
            P('one charge back only', a2 == 0)
            P('exact for a linear charge', a0 * (g * h) == b0 + b1)
            P('projection over the step', td == g * h)
            if name == 'TR':
                P('exact for a quadratic charge', a0 * (g * h) * (g * h) == b0 * (2 * g * h))
                P('the old current counts as much', b1 == 1)
            else:
                P('only the new current', b1 == 0)


for _m in METHOD:
    method(_m)


# ------------------------------------------------------------------ stored charges and currents
def store(u, st, ex):
    """the singleton and its three charge and current vectors; returns (object, vec(kind, tp), length/value functions)"""
    me = ex.obj(C)
    F = {}
    for q in 'IQ':
        v = ex.fld(me, C, q + 'Data')
        u.set(st, v.mark('len'), 'i', 3)
        ln, fn = z3.Function(q + 'length', I, I), z3.Function(q + 'value', I, I, R)
        e = v.seg('e', 0)
        u.family(e.mark('len'), 'i', lambda *ix, ln=ln: norm(ln(zi(ix[-1]))))
        u.family(e.seg('e', 0), 'r', lambda *ix, fn=fn: norm(fn(zi(ix[-2]), zi(ix[-1]))))
        for tp in range(3):
            st.assume(ln(tp) >= 0)
        F[q] = (lambda tp, v=v: v.seg('e', tp), ln, fn)
    ex.contracts.append(('TimeData::GetInstance', lambda ex, st, ins, args: me))
    return me, F


def kept(u, s, F, q, tp, what, src=None):
    """vector (q, tp) now has the old contents of (q, src)"""
    vec, ln, fn = F[q]
    src = tp if src is None else src
    if not callable(src):
        l, f = ln(src), (lambda i: fn(src, i))
    u.prove(what + ': length', s, EQ(u.len(s, vec(tp)), l))
    i = u.idx(s, 'i', l)
    u.prove(what + ': values', s, EQ(u.at(s, vec(tp), i), f(i)))


def tdunit(name):
    @unit(PID, name, [TD], ['TimeData::' + name])
    def _(u):
        """the stored vectors are those given, and no other one changes; assembling adds the scaled vector"""
        q = name[-1]
        for tp in range(3):
            for to in (range(3) if name.startswith('Copy') else (None,)):
                ex = u.fresh_exec()
                st = State()
                me, F = store(u, st, ex)
                args = [me, tp]
                v = Loc(('v', 'v'))
                n, fn = u.vec(st, v, 'v')
                vec, ln, fv = F[q]
                sc = z3.Real('scale')
                if name.startswith('Set'):
                    args.append(v)
                elif name.startswith('Copy'):
                    args.append(to)
                elif name.startswith('Assemble'):
                    st.assume(z3.And(ln(tp) == n, n > 0))
                    args += [sc, v]
                s = u.run(u.fn('TimeData::' + name, C), args, st)[1]
                u.sat('any', s)
                w = '%d%s' % (tp, '' if to is None else ' to %d' % to)
                target = None
                if name.startswith('Set'):
                    target = tp
                    i = u.idx(s, 'i', n)
                    u.prove(w + ': length', s, EQ(u.len(s, vec(tp)), n))
                    u.prove(w + ': values', s, EQ(u.at(s, vec(tp), i), fn(i)))
                elif name.startswith('Copy'):
                    target = to
                    kept(u, s, F, q, to, w, tp)
                elif name.startswith('Clear'):
                    target = tp
                    u.prove(w + ': empty', s, EQ(u.len(s, vec(tp)), 0))
                else:
                    i = u.idx(s, 'i', n)
                    u.prove(w + ': sum', s, EQ(u.at(s, v, i), norm(fn(i) + norm(sc * fv(tp, i)))))
                    u.prove(w + ': length', s, EQ(u.len(s, v), n))
                for qq in 'IQ':
                    for t in range(3):
                        if (qq, t) != (q, target):
                            kept(u, s, F, qq, t, '%s: %s%d untouched' % (w, qq, t))


for _q in 'IQ':
    for _n in ('Set', 'Copy', 'Clear', 'Assemble'):
        tdunit(_n + _q)


def newton(u, st, ex, positive=True):
    me = ex.obj(N)
    ti = Loc(('v', 'timeinfo'))
    p = {}
    for m in ('tdelta', 'a0', 'a1', 'a2', 'b0', 'b1', 'b2'):
        p[m] = z3.Real(m)
        u.set(st, ex.fld(ti, TP, m), 'r', p[m])
    mt = fresh('method')
    st.assume(z3.And(mt >= 0, mt <= 4))
    u.set(st, ex.fld(ti, TP, 'method'), 'i', mt)
    ex.contracts.append(('OutputStream::WriteOut', lambda ex, st, ins, args: None))
    return me, ti, p, mt


@unit(PID, 'constant part of the residual', [NW, TD], ['dsMath::Newton::InitializeTransientAssemble'])
def _(u):
    """the earlier charges and currents enter every row with their coefficients of the method"""
    ex = u.fresh_exec()
    st = State()
    T, F = store(u, st, ex)
    me, ti, p, mt = newton(u, st, ex)
    v = Loc(('v', 'rhs'))
    n, fn = u.vec(st, v, 'v')
    st.assume(n > 0)
    for q, tp, c in (('Q', 0, 'a1'), ('Q', 1, 'a2'), ('I', 0, 'b1'), ('I', 1, 'b2')):      # the history a method needs is there
        st.assume(z3.Implies(p[c] != 0, F[q][1](tp) == n))
    s = u.run(u.fn('dsMath::Newton::InitializeTransientAssemble', N), [me, ti, n, v], st)[1]
    u.sat('any', s)
    i = u.idx(s, 'i', n)
    val = lambda q, tp: F[q][2](tp, i)
    u.prove('row', s, EQ(u.at(s, v, i), fn(i) + p['a1'] * val('Q', 0) + p['a2'] * val('Q', 1) + p['b1'] * val('I', 0) + p['b2'] * val('I', 1)))
    for qq in 'IQ':
        for t in range(3):
            kept(u, s, F, qq, t, '%s%d untouched' % (qq, t))


@unit(PID, 'charge error test', [NW, TD], ['dsMath::Newton::CheckTransientProjection'])
def _(u):
    """a step is accepted exactly when no charge differs from its projection by more than the relative limit"""
    ex = u.fresh_exec()
    st = State()
    T, F = store(u, st, ex)
    me, ti, p, mt = newton(u, st, ex)
    v = Loc(('v', 'newQ'))
    n, fn = u.vec(st, v, 'v', fn=z3.Function('newQ', I, R))
    lim = z3.Real('qrelLimit')
    st.assume(lim >= 0)
    u.set(st, ex.fld(me, N, 'qrelLimit'), 'r', lim)
    st.assume(z3.And(n > 0, F['Q'][1](0) == n, F['I'][1](0) == n))
    r, s = u.run(u.fn('dsMath::Newton::CheckTransientProjection', N), [me, ti, v, NULL], st)
    u.sat('any', s)
    r = zb(r) if not isinstance(r, bool) else r
    err = lambda i: (lambda q, pr: ITE(EQ(q, 0), zr(0), ABS(q - pr) / (zr(Fraction(1, 10 ** 20)) + ABS(q) + ABS(pr))))(fn(i), F['Q'][2](0, i) - p['tdelta'] * F['I'][2](0, i))
    i = u.idx(s, 'i', n)
    u.prove('an accepted step: every charge is within the limit', s, IMP(r, zr(err(i)) <= lim))
    j = z3.Int('j')
    u.prove('a refused step: some charge is not', s, OR(r, z3.Exists([j], z3.And(0 <= j, j < n, zr(err(j)) > lim))))
    for qq in 'IQ':
        for t in range(3):
            kept(u, s, F, qq, t, '%s%d untouched' % (qq, t))


@unit(PID, 'history of the accepted step', [NW, TD], ['dsMath::Newton::UpdateTransientCurrent'])
def _(u):
    """a dc solution starts the history; an integration step shifts it by one"""
    for dc in (True, False):
        ex = u.fresh_exec()
        st = State()
        T, F = store(u, st, ex)
        me, ti, p, mt = newton(u, st, ex)
        st.assume(mt <= 1 if dc else mt >= 2)
        new = {}
        for q in 'IQ':
            l = Loc(('v', 'new' + q))
            n, fn = u.vec(st, l, 'new' + q)
            new[q] = (l, n, fn)
        s = u.run(u.fn('dsMath::Newton::UpdateTransientCurrent', N), [me, ti, fresh('numeqns'), new['I'][0], new['Q'][0]], st)[1]
        u.sat('dc' if dc else 'step', s)
        for q in 'IQ':
            vec, ln, fv = F[q]
            l, n, fn = new[q]
            w = ('dc: ' if dc else 'step: ') + q
            i = u.idx(s, 'i', n)
            u.prove(w + '0 is new: length', s, EQ(u.len(s, vec(0)), n))
            u.prove(w + '0 is new: values', s, EQ(u.at(s, vec(0), i), fn(i)))
            for t in (1, 2):
                if dc:
                    u.prove(w + '%d is empty' % t, s, EQ(u.len(s, vec(t)), 0))
                else:
                    # nothing to shift from an empty vector
                    e = ln(t - 1)
                    u.prove(w + '%d: length' % t, s, EQ(u.len(s, vec(t)), ITE(e > 0, e, ln(t))))
                    i = u.idx(s, 'i', ITE(e > 0, e, ln(t)))
                    u.prove(w + '%d: values' % t, s, EQ(u.at(s, vec(t), i), ITE(e > 0, fv(t - 1, i), fv(t, i))))


# ------------------------------------------------------------------ one nonlinear solve
@unit(PID, 'nonlinear solve', [NW, 'Data/GlobalData.cc', 'math/CompressedMatrix.cc', 'math/Preconditioner.cc'], ['dsMath::Newton::Solve'])
def _(u):
    """every iteration solves the residual of the method; the solve succeeds only at a solution within the limits, and otherwise the old solution is back and the history is as before"""
    ex = u.fresh_exec()
    st = State()
    me, ti, p, mt = newton(u, st, ex)
    G, NK = ex.obj('GlobalData'), ex.obj('NodeKeeper')
    m = ex.fld(G, 'GlobalData', 'deviceList')
    has, dev, inv = z3.Function('hasDevice', I, B), z3.Function('deviceOf', I, I), z3.Function('nameOfDevice', I, I)
    nd, n, ng = fresh('numDevices'), fresh('numeqns'), z3.Bool('haveNodes')
    st.assume(z3.And(nd >= 0, n >= 0))
    u.family(m.seg('m', 0).mark('has'), 'b', lambda *ix: has(zi(ix[-1])))
    u.family(m.seg('m', 0), 'p', lambda *ix: norm(dev(zi(ix[-1]))))
    u.set(st, m.mark('msize'), 'i', nd)
    i = z3.Int('i')
    st.assume(z3.ForAll([i], z3.And(dev(i) >= 0, inv(dev(i)) == i), patterns=[dev(i)]))
    ex.inverses['deviceOf'] = inv
    rel, abs_, mx = z3.Reals('relLimit absLimit maxLimit')
    for a, b in (('relLimit', rel), ('absLimit', abs_), ('maxLimit', mx)):
        u.set(st, ex.fld(me, N, a), 'r', b)
    g = lambda k: Loc(('v', 'ghost_' + k))
    for k in ('step', 'restored', 'history', 'contacts'):
        u.set(st, g(k), 'i', 0)
    devrel, devabs = z3.Function('deviceRelError', I, I, R), z3.Function('deviceAbsError', I, I, R)
    cirrel, cirabs = z3.Function('circuitRelError', I, R), z3.Function('circuitAbsError', I, R)
    F = z3.Function('residualPart', I, I, I, R)          # (steady 0 or time 1, step, row)
    cst = z3.Function('constantPart', I, R)
    c = ex.contracts.append
    no = lambda ex, st, ins, args: None
    step = lambda st: ex.loadk(st, g('step'), 'i')
    for nm in ('MasterGILControl::MasterGILControl', 'MasterGILControl::~MasterGILControl', 'NodeKeeper::InitializeSolution', 'NodeKeeper::TriggerCallbacksOnNodes', 'NodeKeeper::PrintSolution', 'dsMath::Newton::PrintNumberEquations',
               'dsMath::Newton::PrintIteration', 'dsMath::Newton::PrintDeviceErrors', 'dsMath::Newton::PrintCircuitErrors', 'dsMath::Newton::BackupSolutions', 'dsMath::Matrix::Finalize', 'dsMath::Matrix::ClearMatrix',
               'dsMath::CompressedMatrix::SetSymbolicStatus', 'dsMath::CallUpdateSolution', 'Device::Update', 'GlobalData::GetDBEntryOnGlobal', 'ObjectHolder::GetString'):
        c((nm, no))
    c(('GlobalData::GetInstance', lambda ex, st, ins, args: G))
    c(('NodeKeeper::instance', lambda ex, st, ins, args: NK))
    c(('NodeKeeper::HaveNodes', lambda ex, st, ins, args: ng))
    c(('dsMath::Newton::NumberEquationsAndSetDimension', lambda ex, st, ins, args: n))
    c(('OutputStream::GetVerbosity', lambda ex, st, ins, args: fresh('verbosity')))
    c(('getenv', lambda ex, st, ins, args: NULL))
    c(('dsMath::CreatePreconditioner', lambda ex, st, ins, args: ref(ex.rootcls('dsMath::Preconditioner<double>'), 0)))
    c(('dsMath::CreateMatrix', lambda ex, st, ins, args: ref(ex.rootcls('dsMath::Matrix<double>'), 0)))
    c(('Device::GetRelError', lambda ex, st, ins, args: devrel(zi(args[0].rid), zi(step(st)))))
    c(('Device::GetAbsError', lambda ex, st, ins, args: devabs(zi(args[0].rid), zi(step(st)))))
    c(('NodeKeeper::GetRelError', lambda ex, st, ins, args: cirrel(zi(step(st)))))
    c(('NodeKeeper::GetAbsError', lambda ex, st, ins, args: cirabs(zi(step(st)))))
    c(('Device::UpdateContacts', no))

    V = (('seg', 'e'), )

    def initial(ex, st, ins, args):
        lib.set_region(ex, st, args[3], V, 'r', lambda t: True, lambda t: norm(cst(zi(t))))
    c(('dsMath::Newton::InitializeTransientAssemble', initial))

    def load(ex, st, ins, args):
        v, what, mode, sc = args[2], args[4], args[5], args[6]
        if not (isinstance(what, int) and isinstance(mode, int)):
            raise Unsupported('what to load is not known')
        if what in (0, 3):     # the matrix or the permutation only
            return
        k = zi(step(st))
        old = lib.read_leaf(ex, st, v, V, 'r')
        lib.set_region(ex, st, v, V, 'r', lambda t: True, lambda t: norm(zr(old(t)) + norm(zr(sc) * F(mode, k, zi(t)))))
    c(('dsMath::Newton::LoadMatrixAndRHS', load))
    c((lambda m, dn, sn: 'CallUpdateSolution' in dn, no))

    def solve(ex, st, ins, args):
        i, k = fresh('row'), zi(step(st))
        s = st.copy()
        s.assume(z3.And(0 <= i, i < n))
        dc = mt == METHOD['DCOnly']
        want = ITE(mt <= 1, zr(0), cst(i)) + ITE(dc, F(0, k, i), p['b0'] * F(0, k, i) + p['a0'] * F(1, k, i))
        ex.oblige(s, 'the residual that is solved for', EQ(ex.loadk(s, args[4].seg('e', i), 'r'), want))
        ex.oblige(s, 'size of the residual', EQ(ex.loadk(s, args[4].mark('len'), 'i'), n))
        ex.oblige(s, 'the update starts at zero', EQ(ex.loadk(s, args[3].seg('e', i), 'r'), zr(0)))
        ex.storek(st, g('step'), 'i', add(step(st), 1))
        return z3.Bool(freshname('solved'))
    c(('dsMath::LinearSolver::Solve', solve))
    c(('dsMath::Newton::RestoreSolutions', lambda ex, st, ins, args: ex.storek(st, g('restored'), 'i', add(ex.loadk(st, g('restored'), 'i'), 1))))

    def row_is(ex, st, name, v, mode):
        i = fresh('row')
        s = st.copy()
        s.assume(z3.And(0 <= i, i < n))
        ex.oblige(s, name, EQ(ex.loadk(s, v.seg('e', i), 'r'), F(mode, zi(step(st)), i)))
        ex.oblige(s, name + ': size', EQ(ex.loadk(s, v.mark('len'), 'i'), n))

    def history(ex, st, ins, args):
        row_is(ex, st, 'the current of the history is that of the new solution', args[3], 0)
        row_is(ex, st, 'the charge of the history is that of the new solution', args[4], 1)
        ex.storek(st, g('history'), 'i', add(ex.loadk(st, g('history'), 'i'), 1))
    c(('dsMath::Newton::UpdateTransientCurrent', history))
    projected = z3.Bool('projected')

    def project(ex, st, ins, args):
        row_is(ex, st, 'the charge that is tested is that of the new solution', args[2], 1)
        return projected
    c(('dsMath::Newton::CheckTransientProjection', project))
    # the errors are within the limits at the solution of step k
    d = z3.Int('d')

    def within(k):
        if not ex.enumerations:
            return z3.BoolVal(True)
        K = ex.enumerations[0]['K'](zi(G.rid), d)
        return z3.And(z3.ForAll([d], z3.Implies(z3.And(0 <= d, d < nd), z3.And(devrel(dev(K), k) < rel, devabs(dev(K), k) < abs_)), patterns=[K]), z3.Implies(ng, z3.And(cirrel(k) < rel, cirabs(k) < abs_)))

    def flags(ex, f, hdr, st0):
        """candidate: a flag that starts false is set only when the solution of the step is within the limits"""
        if names.strip(f['dn']) != 'dsMath::Newton::Solve' or len(ex.enumerations) == 0:
            return []
        ph = [i['id'] for i in f['blocks'][hdr] if i['op'] == 'phi' and isinstance(st0.env.get(i['id']), (bool, int)) and not st0.env[i['id']]]
        def cand(i):
            def c(st, t):
                x = st.env[i]
                return IMP(NOT(EQ(x, 0)) if not z3.is_expr(x) or not z3.is_bool(x) else x, within(zi(step(st))))
            return c
        return [cand(i) for i in ph]
    ex.inv_cands.append(flags)
    ls = ex.obj('dsMath::LinearSolver<double>')
    ex.dyn[ex.rootcls('dsMath::Matrix<double>')] = 'dsMath::CompressedMatrix<double>'
    ex.dyn[ex.rootcls('dsMath::Preconditioner<double>')] = 'dsMath::Preconditioner<double>'
    for nm in ('Finalize', 'ClearMatrix', '~CompressedMatrix'):
        c(('dsMath::CompressedMatrix::' + nm, no))
    c(('dsMath::Preconditioner::~Preconditioner', no))
    r, s = u.run(u.fn('dsMath::Newton::Solve', N), [me, ls, ti, NULL], st)
    u.sat('any', s)
    r = zb(r) if not isinstance(r, bool) else r
    k = zi(u.get(s, g('step'), 'i'))
    K = lambda i: ex.enumerations[0]['K'](zi(G.rid), zi(i))
    p_ = u.idx(s, 'p', nd)
    u.prove('success: the errors of every device are within the limits', s, IMP(r, AND(devrel(dev(K(p_)), k) < rel, devabs(dev(K(p_)), k) < abs_)))
    u.prove('success: the errors of the circuit are within the limits', s, IMP(AND(r, ng), AND(cirrel(k) < rel, cirabs(k) < abs_)))
    u.prove('success: the solution stays', s, IMP(r, EQ(u.get(s, g('restored'), 'i'), 0)))
    u.prove('failure: the old solution is back', s, OR(r, EQ(u.get(s, g('restored'), 'i'), 1)))
    u.prove('failure: the history is as before', s, OR(r, EQ(u.get(s, g('history'), 'i'), 0)))
    u.prove('success: a transient solution enters the history', s, IMP(r, EQ(u.get(s, g('history'), 'i'), ITE(mt == METHOD['DCOnly'], 0, 1))))
    u.prove('an integration step was projected well', s, IMP(AND(r, mt >= 2), projected))

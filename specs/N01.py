from spec import *
import lib
PID = 'N01'
LEVEL = 'proof'
NATIVE = 'N01'
RG = 'Geometry/Region.cc'
EH = 'Equation/EquationHolder.cc'
C = 'Equation<double>'


class Eqns:
    """the equation tables of a region with their invariant: the three maps describe one list of equations with distinct
    names and distinct variables, indexed 0 .. n-1"""

    def __init__(self, u):
        self.u = u
        ex = self.ex = u.fresh_exec()
        st = self.st = State()
        self.R = ex.obj('Region')
        f = self.f = lambda m: ex.fld(self.R, 'Region', m)
        self.pm, self.im, self.vm = f('equationPointerMap'), f('equationIndexMap'), f('variableEquationMap')
        self.has, self.eqn = z3.Function('hasEquation', I, B), z3.Function('equationOf', I, I)
        self.idx = z3.Function('indexOf', I, I)
        self.hasv, self.name = z3.Function('hasVariable', I, B), z3.Function('equationOfVariable', I, I)
        self.nameof, self.varof = z3.Function('nameOf', I, I), z3.Function('variableOf', I, I)
        self.n = fresh('numEquations')
        st.assume(self.n >= 0)
        u.family(self.pm.seg('m', 0).mark('has'), 'b', lambda *ix: self.has(zi(ix[-1])))
        u.family(self.im.seg('m', 0).mark('has'), 'b', lambda *ix: self.has(zi(ix[-1])))
        u.family(self.vm.seg('m', 0).mark('has'), 'b', lambda *ix: self.hasv(zi(ix[-1])))
        u.family(self.pm.seg('m', 0), 'p', lambda *ix: norm(self.eqn(zi(ix[-1]))))
        u.family(self.im.seg('m', 0), 'i', lambda *ix: norm(self.idx(zi(ix[-1]))))
        u.family(self.vm.seg('m', 0), 's', lambda *ix: norm(self.name(zi(ix[-1]))))
        for m in (self.pm, self.im, self.vm):
            u.set(st, m.mark('msize'), 'i', self.n)
        u.set(st, f('numequations'), 'i', self.n)
        e = ref(ex.rootcls(C), 0)
        ex.dyn[ex.rootcls(C)] = C
        u.family(ex.fld(e, C, 'myname'), 's', lambda k: norm(self.nameof(zi(k))))
        u.family(ex.fld(e, C, 'variable'), 's', lambda k: norm(self.varof(zi(k))))
        # the invariant
        self.at = z3.Function('nameAtIndex', I, I)
        k, v, i = z3.Ints('k v i')
        has, hasv, eqn, idx = self.has, self.hasv, self.eqn, self.idx
        st.assume(z3.ForAll([k], z3.Implies(has(k), z3.And(eqn(k) >= 0, 0 <= idx(k), idx(k) < self.n, self.at(idx(k)) == k, self.nameof(eqn(k)) == k, hasv(self.varof(eqn(k))), self.name(self.varof(eqn(k))) == k)), patterns=[has(k)]))
        st.assume(z3.ForAll([v], z3.Implies(hasv(v), z3.And(has(self.name(v)), self.varof(eqn(self.name(v))) == v)), patterns=[hasv(v)]))
        st.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < self.n), z3.And(has(self.at(i)), idx(self.at(i)) == i)), patterns=[self.at(i)]))

    def write(self, fatal):
        """contract of WriteOut: FATAL raises an exception (the state at that point is kept)"""
        def h(ex, st, ins, args):
            c = EQ(args[0], 4)
            if c is not False:
                s = st.copy()
                s.assume(c)
                fatal.append(s)
                st.assume(NOT(c))
        self.ex.contracts.append(('GeometryStream::WriteOut', h))

    def holder(self, name, e):
        l = Loc(('v', name))
        self.u.set(self.st, l, 'p', ref(self.ex.rootcls(C), e))
        self.u.set(self.st, l.plus(16), 'p', NULL)
        return l

    def Has(self, s, m, k):
        return zb(self.u.get(s, m.seg('m', k).mark('has'), 'b'))

    def Val(self, s, m, k, kind):
        return zi(self.ex.enc(self.u.get(s, m.seg('m', k), kind))) if kind == 'p' else zi(self.u.get(s, m.seg('m', k), kind))

    def size(self, s, m):
        return zi(self.u.get(s, m.mark('msize'), 'i'))

    def invariant(self, s):
        """prove that the invariant holds again, for an arbitrary equation name and variable"""
        u = self.u
        k, k2, v = fresh('name'), fresh('othername'), fresh('variable')
        n = self.size(s, self.pm)
        P, H = lambda x: self.Has(s, self.pm, x), lambda x: self.Has(s, self.vm, x)
        u.prove('the index map lists the same equations', s, self.Has(s, self.im, k) == P(k))
        u.prove('sizes agree', s, z3.And(self.size(s, self.im) == n, self.size(s, self.vm) == n, zi(u.get(s, self.f('numequations'), 'i')) == n))
        s1 = s.copy()
        s1.assume(P(k))
        ix = self.Val(s1, self.im, k, 'i')
        u.prove('index in range', s1, z3.And(0 <= ix, ix < n))
        e = self.Val(s1, self.pm, k, 'p')
        u.prove('an equation is listed under its own name', s1, self.nameof(e) == k)
        u.prove('its variable maps to it', s1, z3.And(H(self.varof(e)), self.Val(s1, self.vm, self.varof(e), 's') == k))
        s1.assume(P(k2))
        s1.assume(k != k2)
        u.prove('distinct equations have distinct indices', s1, ix != self.Val(s1, self.im, k2, 'i'))
        s2 = s.copy()
        s2.assume(H(v))
        w = self.Val(s2, self.vm, v, 's')
        u.prove('a variable maps to an equation for it', s2, z3.And(P(w), self.varof(self.Val(s2, self.pm, w, 'p')) == v))


F = [RG, EH, 'Equation/Equation.cc']


@unit(PID, 'AddEquation_new', F, ['Region::AddEquation'])
def _(u):
    """a new equation gets the next index, all others keep theirs, and the tables stay consistent"""
    q = Eqns(u)
    e = fresh('new')
    q.st.assume(e >= 0)
    nm, var = q.nameof(e), q.varof(e)
    q.st.assume(z3.Not(q.has(nm)))
    q.st.assume(z3.Not(q.hasv(var)))
    s = u.run(u.fn('Region::AddEquation'), [q.R, q.holder('eq', e)], q.st)[1]
    u.sat('any', s)
    u.prove('stored', s, z3.And(q.Has(s, q.pm, nm), q.Val(s, q.pm, nm, 'p') == e))
    u.prove('the new equation gets the next index', s, q.Val(s, q.im, nm, 'i') == q.n)
    u.prove('one more equation', s, q.size(s, q.pm) == q.n + 1)
    k = fresh('old')
    s.assume(q.has(k))
    u.prove('the others keep index and equation', s, z3.And(q.Has(s, q.pm, k), q.Val(s, q.im, k, 'i') == q.idx(k), q.Val(s, q.pm, k, 'p') == q.eqn(k)))
    q.invariant(s)


def taken(name, present):
    @unit(PID, 'AddEquation_' + name, F, ['Region::AddEquation'])
    def _(u):
        """an equation for a variable that belongs to another equation is refused and changes nothing"""
        q = Eqns(u)
        e = fresh('new')
        q.st.assume(e >= 0)
        nm, var = q.nameof(e), q.varof(e)
        q.st.assume(q.has(nm) if present else z3.Not(q.has(nm)))
        q.st.assume(q.hasv(var))
        q.st.assume(q.name(var) != nm)
        fatal = []
        q.write(fatal)
        st = q.st.copy()
        u.sat('any', st)
        r = q.ex.run(u.fn('Region::AddEquation'), [q.R, q.holder('eq', e)], q.st)
        u.prove('never accepted', st, r is None or r[1].dead() or q.ex.P.infeasible(r[1].pc, 4000))
        u.prove('refused', st, bool(fatal))
        for s in fatal:
            k = fresh('name')
            u.prove('nothing changes', s, z3.And(q.Has(s, q.pm, k) == q.has(k), q.size(s, q.pm) == q.n, z3.Implies(q.has(k), q.Val(s, q.pm, k, 'p') == q.eqn(k))))
            q.invariant(s)


taken('taken_new', False)
taken('taken_replace', True)


@unit(PID, 'AddEquation_same', F, ['Region::AddEquation'])
def _(u):
    """adding the very same equation again changes nothing"""
    q = Eqns(u)
    nm = fresh('again')
    q.st.assume(q.has(nm))
    q.ex.contracts.append(('GeometryStream::WriteOut', lambda ex, st, ins, args: u.prove('not refused', st, NOT(EQ(args[0], 4)))))
    s = u.run(u.fn('Region::AddEquation'), [q.R, q.holder('eq', q.eqn(nm))], q.st)[1]
    u.sat('any', s)
    k = fresh('name')
    s.assume(q.has(k))
    u.prove('nothing changes', s, z3.And(q.Has(s, q.pm, k), q.size(s, q.pm) == q.n, q.Val(s, q.pm, k, 'p') == q.eqn(k), q.Val(s, q.im, k, 'i') == q.idx(k)))
    q.invariant(s)


@unit(PID, 'AddEquation_replace', F, ['Region::AddEquation'])
def _(u):
    """an equation of the same name replaces the old one at its index"""
    q = Eqns(u)
    e = fresh('new')
    q.st.assume(e >= 0)
    nm, var = q.nameof(e), q.varof(e)
    q.st.assume(q.has(nm))
    q.st.assume(e != q.eqn(nm))
    q.st.assume(z3.Implies(q.hasv(var), q.name(var) == nm))
    fatal = []

    def h(ex, st, ins, args):
        u.prove('not refused', st, NOT(EQ(args[0], 4)))
    q.ex.contracts.append(('GeometryStream::WriteOut', h))
    s = u.run(u.fn('Region::AddEquation'), [q.R, q.holder('eq', e)], q.st)[1]
    u.sat('any', s)
    u.prove('stored at the old index', s, z3.And(q.Val(s, q.pm, nm, 'p') == e, q.Val(s, q.im, nm, 'i') == q.idx(nm), q.size(s, q.pm) == q.n))
    k = fresh('old')
    s1 = s.copy()
    s1.assume(z3.And(q.has(k), k != nm))
    u.prove('the others keep index and equation', s1, z3.And(q.Has(s, q.pm, k), q.Val(s, q.im, k, 'i') == q.idx(k), q.Val(s, q.pm, k, 'p') == q.eqn(k)))
    q.invariant(s)


@unit(PID, 'DeleteEquation', F, ['Region::DeleteEquation'])
def _(u):
    """the deleted equation leaves all tables and the later indices move down by one"""
    q = Eqns(u)
    nm = fresh('deleted')
    q.st.assume(q.has(nm))
    s = u.run(u.fn('Region::DeleteEquation'), [q.R, q.holder('eq', q.eqn(nm))], q.st)[1]
    u.sat('any', s)
    u.prove('gone', s, z3.And(z3.Not(q.Has(s, q.pm, nm)), z3.Not(q.Has(s, q.im, nm)), z3.Not(q.Has(s, q.vm, q.varof(q.eqn(nm))))))
    u.prove('one equation less', s, q.size(s, q.pm) == q.n - 1)
    k = fresh('other')
    s1 = s.copy()
    s1.assume(z3.And(q.has(k), k != nm))
    u.prove('the others stay, later ones one index lower', s1, z3.And(q.Has(s1, q.pm, k), q.Val(s1, q.pm, k, 'p') == q.eqn(k), q.Val(s1, q.im, k, 'i') == z3.If(q.idx(k) > q.idx(nm), q.idx(k) - 1, q.idx(k))))
    q.invariant(s)


@unit(PID, 'lookups', F, ['Region::GetEquationIndex', 'Region::GetEquationNameFromVariable', 'Region::GetEquationNumber', 'Region::GetNumberEquations'])
def _(u):
    """index of a name, equation of a variable, row of an equation and node"""
    q = Eqns(u)
    k = fresh('name')
    a = Loc(('v', 'nm'))
    u.set(q.st, a, 's', k)
    r, s = u.run(u.fn('Region::GetEquationIndex'), [q.R, a], q.st.copy())
    u.prove('index of an equation, none for other names', s, zi(r) == z3.If(q.has(k), q.idx(k), -1))
    out = Loc(('v', 'out'))
    s = u.run(u.fn('Region::GetEquationNameFromVariable'), [out, q.R, a], q.st.copy())[1]
    s.assume(q.hasv(k))
    u.prove('equation of a variable', s, EQ(u.get(s, out, 's'), q.name(k)))
    s = u.run(u.fn('Region::GetEquationNameFromVariable'), [out, q.R, a], q.st.copy())[1]
    s.assume(z3.Not(q.hasv(k)))
    u.prove('empty for other variables', s, EQ(u.get(s, out, 's'), q.ex.strlit('')))
    st = q.st.copy()
    N, base, e, j = fresh('numNodes'), fresh('base'), fresh('eqn'), fresh('node')
    u.set(st, q.f('nodeList').mark('len'), 'i', N)
    u.set(st, q.f('baseeqnnum'), 'i', base)
    for c in (e >= 0, e < q.n, j >= 0, j < N, base >= 0):
        st.assume(c)
    u.family(q.ex.fld(ref(q.ex.rootcls('Node'), 0), 'Node', 'index'), 'i', lambda i: norm(zi(i)))
    r, s = u.run(u.fn('Region::GetEquationNumber'), [q.R, e, ref(q.ex.rootcls('Node'), j)], st)
    u.sat('any', s)
    u.prove('row of equation and node', s, EQ(r, base + e * N + j))
    # rows of different equations or nodes of a region differ and stay in its range
    e2, j2 = fresh('eqn'), fresh('node')
    s.assume(z3.And(e2 >= 0, e2 < q.n, j2 >= 0, j2 < N))
    s.assume(z3.Or(e != e2, j != j2))
    for nm_, st_ in (('lower equation', e < e2), ('higher equation', e > e2), ('same equation', e == e2)):
        s2 = s.copy()
        s2.assume(st_)
        d = e2 - e if nm_[0] == 'l' else e - e2
        u.prove('own row: ' + nm_, s2, base + e * N + j != base + e2 * N + j2, hints=[(d - 1) * N >= 0])
    u.prove('in the rows of the region', s, z3.And(base <= base + e * N + j, base + e * N + j < base + q.n * N), hints=[(q.n - 1 - e) * N >= 0, e * N >= 0])
    r, s = u.run(u.fn('Region::GetMaxEquationNumber'), [q.R], st)
    u.prove('last row of the region', s, EQ(r, base + q.n * N - 1))
    r, s = u.run(u.fn('Region::GetNumberEquations'), [q.R], st)
    u.prove('number of equations', s, EQ(r, q.n))


@unit(PID, 'GetVariableList', F, ['Region::GetVariableList'])
def _(u):
    """every solution variable is listed exactly once"""
    q = Eqns(u)
    out = Loc(('v', 'out'))
    s = u.run(u.fn('Region::GetVariableList'), [out, q.R], q.st)[1]
    u.sat('any', s)
    u.prove('one entry per equation', s, EQ(u.len(s, out), q.n))
    i, j = u.idx(s, 'i', q.n), u.idx(s, 'j', q.n)
    u.prove('only variables', s, q.hasv(zi(u.at(s, out, i, 's'))))
    s2 = s.copy()
    s2.assume(i != j)
    u.prove('no variable twice', s2, NOT(EQ(u.at(s, out, i, 's'), u.at(s, out, j, 's'))))


@unit(PID, 'CalcMaxEquationNumber', F + ['Geometry/Device.cc'], ['Device::CalcMaxEquationNumber', 'Device::SetBaseEquationNumber'])
def _(u):
    """each region with equations gets the block of rows that follows those of the regions before it"""
    ex = u.fresh_exec()
    st = State()
    D = ex.obj('Device')
    m = ex.fld(D, 'Device', 'regionList')
    has, reg, inv = z3.Function('hasRegion', I, B), z3.Function('regionOf', I, I), z3.Function('nameOfRegion', I, I)
    ne, N = z3.Function('numEquations', I, I), z3.Function('numNodes', I, I)
    n = fresh('numRegions')
    st.assume(n >= 0)
    u.family(m.seg('m', 0).mark('has'), 'b', lambda *ix: has(zi(ix[-1])))
    u.family(m.seg('m', 0), 'p', lambda *ix: norm(reg(zi(ix[-1]))))
    u.set(st, m.mark('msize'), 'i', n)
    i = z3.Int('i')
    st.assume(z3.ForAll([i], z3.And(reg(i) >= 0, inv(reg(i)) == i), patterns=[reg(i)]))
    st.assume(z3.ForAll([i], z3.And(ne(i) >= 0, N(i) >= 0), patterns=[ne(i)]))
    ex.inverses['regionOf'] = inv
    fam = lambda mm: ex.fld(ref(ex.rootcls('Region'), 0), 'Region', mm)
    u.family(fam('numequations'), 'i', lambda k: norm(ne(zi(k))))
    u.family(fam('nodeList').mark('len'), 'i', lambda k: norm(N(zi(k))))
    b = fresh('base')
    st.assume(b >= 0)
    ex.contracts.append(('GeometryStream::WriteOut', lambda ex, st, ins, args: None))
    st = u.run(u.fn('Device::SetBaseEquationNumber'), [D, b], st)[1]
    r, s = u.run(u.fn('Device::CalcMaxEquationNumber'), [D, z3.Bool('verbose')], st)
    u.sat('any', s)
    K = lambda i: ex.enumerations[0]['K'](zi(D.rid), zi(i))
    t = z3.Int('t')
    size = lambda k: ITE(EQ(ne(reg(K(k))), 0), 0, ne(reg(K(k))) * N(reg(K(k))))
    p = u.idx(s, 'p', n)
    s2 = s.copy()
    s2.assume(ne(reg(K(p))) != 0)
    u.prove('first row of a region follows those of the regions before it', s2, EQ(u.get(s2, ex.fld(ref(ex.rootcls('Region'), reg(K(p))), 'Region', 'baseeqnnum'), 'i'), add(b, SUM(t, size(t), p))))
    s3 = s.copy()
    s3.assume(zi(r) != -1)
    u.prove('last row of the device', s3, EQ(r, sub(add(b, SUM(t, size(t), n)), 1)))
    s4 = s.copy()
    s4.assume(zi(r) == -1)
    s4.assume(z3.And(b + 0 >= 0))
    u.prove('no rows only without equations', s4, OR(EQ(SUM(t, size(t), n), 0), EQ(sub(add(b, SUM(t, size(t), n)), 1), -1)))


def circuit(u):
    ex = u.fresh_exec()
    st = State()
    K_ = ex.obj('NodeKeeper')
    f = lambda mm: ex.fld(K_, 'NodeKeeper', mm)
    m = f('NodeTable_')
    has, node, inv = z3.Function('hasNode', I, B), z3.Function('nodeOf', I, I), z3.Function('nameOfNode', I, I)
    typ = z3.Function('nodeType', I, I)
    n = fresh('numCircuitNodes')
    st.assume(n >= 0)
    u.family(m.seg('m', 0).mark('has'), 'b', lambda *ix: has(zi(ix[-1])))
    u.family(m.seg('m', 0), 'p', lambda *ix: norm(node(zi(ix[-1]))))
    u.set(st, m.mark('msize'), 'i', n)
    i = z3.Int('i')
    st.assume(z3.ForAll([i], z3.And(node(i) >= 0, inv(node(i)) == i), patterns=[node(i)]))
    st.assume(z3.ForAll([i], z3.And(typ(i) >= 0, typ(i) <= 3), patterns=[typ(i)]))
    ex.inverses['nodeOf'] = inv
    fam = lambda k, mm: ex.fld(ref(ex.rootcls('CircuitNode'), k), 'CircuitNode', mm)
    u.family(fam(0, 'nodeType_'), 'i', lambda k: norm(typ(zi(k))))
    return ex, st, K_, f, m, has, node, typ, n, fam


GROUND = 3


@unit(PID, 'SetNodeNumbers', ['Circuit/data/NodeKeeper.cc', 'Circuit/data/CircuitNode.cc'], ['NodeKeeper::SetNodeNumbers', 'NodeKeeper::GetMaxEquationNumber'])
def _(u):
    """circuit nodes other than ground get consecutive numbers in table order, ground gets none"""
    ex, st, K_, f, m, has, node, typ, n, fam = circuit(u)
    start = fresh('start')
    st.assume(start >= 0)
    ex.contracts.append(('OutputStream::WriteOut', lambda ex, st, ins, args: None))
    s = u.run(u.fn('NodeKeeper::SetNodeNumbers'), [K_, start, z3.Bool('verbose')], st)[1]
    u.sat('any', s)
    K = lambda i: ex.enumerations[0]['K'](zi(K_.rid), zi(i))
    t = z3.Int('t')
    cnt = lambda k: ITE(EQ(typ(node(K(k))), GROUND), 0, 1)
    p = u.idx(s, 'p', n)
    num = u.get(s, fam(node(K(p)), 'nodeNumber_'), 'i')
    g = s.copy()
    g.assume(typ(node(K(p))) == GROUND)
    u.prove('ground has no number', g, EQ(num, -1))
    g = s.copy()
    g.assume(typ(node(K(p))) != GROUND)
    u.prove('number of the non-ground nodes before it', g, EQ(num, SUM(t, cnt(t), p)))
    u.prove('count of the numbered nodes', s, EQ(u.get(s, f('numberOfNodes_'), 'i'), SUM(t, cnt(t), n)))
    u.prove('first row', s, EQ(u.get(s, f('minEquationNumber'), 'i'), start))
    u.prove('last row', s, EQ(u.get(s, f('maxEquationNumber'), 'i'), sub(add(start, SUM(t, cnt(t), n)), 1)))
    r = u.run(u.fn('NodeKeeper::GetMaxEquationNumber'), [K_], s)
    u.prove('reported last row', r[1], EQ(r[0], sub(add(start, SUM(t, cnt(t), n)), 1)))


@unit(PID, 'circuit_lookup', ['Circuit/data/NodeKeeper.cc', 'Circuit/data/CircuitNode.cc'], ['NodeKeeper::GetEquationNumber', 'NodeKeeper::GetIndexNumber'])
def _(u):
    """row of a circuit node or of its alias: first row plus number; none for ground and unknown names"""
    ex, st, K_, f, m, has, node, typ, n, fam = circuit(u)
    num = z3.Function('nodeNumber', I, I)
    u.family(fam(0, 'nodeNumber_'), 'i', lambda k: norm(num(zi(k))))
    a = f('NodeAliasTable_')
    hasa, real = z3.Function('hasAlias', I, B), z3.Function('aliasOf', I, I)
    u.family(a.seg('m', 0).mark('has'), 'b', lambda *ix: hasa(zi(ix[-1])))
    u.family(a.seg('m', 0), 's', lambda *ix: norm(real(zi(ix[-1]))))
    mn = fresh('minEquationNumber')
    u.set(st, f('minEquationNumber'), 'i', mn)
    k = fresh('name')
    l = Loc(('v', 'nm'))
    u.set(st, l, 's', k)
    r, s = u.run(u.fn('NodeKeeper::GetEquationNumber'), [K_, l], st)
    u.sat('any', s)
    w = z3.If(hasa(k), real(k), k)
    u.prove('row', s, zi(r) == z3.If(z3.And(has(w), num(node(w)) != -1), mn + num(node(w)), -1))


@unit(PID, 'NumberEquations', ['math/Newton.cc', 'Geometry/Device.cc', 'Circuit/data/NodeKeeper.cc', 'Data/GlobalData.cc'], ['dsMath::Newton::NumberEquationsAndSetDimension'])
def _(u):
    """the devices in list order, then the circuit, get consecutive blocks of rows; the dimension is the number of all rows"""
    ex = u.fresh_exec()
    st = State()
    G = ex.obj('GlobalData')
    NK = ex.obj('NodeKeeper')
    m = ex.fld(G, 'GlobalData', 'deviceList')
    has, dev, inv = z3.Function('hasDevice', I, B), z3.Function('deviceOf', I, I), z3.Function('nameOfDevice', I, I)
    rows = z3.Function('rowsOfDevice', I, I)
    n, C, ng = fresh('numDevices'), fresh('circuitRows'), z3.Bool('haveNodes')
    st.assume(z3.And(n >= 0, C >= 0))
    u.family(m.seg('m', 0).mark('has'), 'b', lambda *ix: has(zi(ix[-1])))
    u.family(m.seg('m', 0), 'p', lambda *ix: norm(dev(zi(ix[-1]))))
    u.set(st, m.mark('msize'), 'i', n)
    i = z3.Int('i')
    st.assume(z3.ForAll([i], z3.And(dev(i) >= 0, inv(dev(i)) == i, rows(dev(i)) >= 0), patterns=[dev(i)]))
    ex.inverses['deviceOf'] = inv
    base = lambda k: ex.fld(ref(ex.rootcls('Device'), k), 'Device', 'baseeqnnum')
    start = Loc(('v', 'circuitstart'))
    c = ex.contracts.append
    c(('GlobalData::GetInstance', lambda ex, st, ins, args: G))
    c(('GlobalData::GetDBEntryOnGlobal', lambda ex, st, ins, args: None))
    c(('ObjectHolder::GetString', lambda ex, st, ins, args: None))
    c(('OutputStream::GetVerbosity', lambda ex, st, ins, args: fresh('verbosity')))
    c(('OutputStream::WriteOut', lambda ex, st, ins, args: None))
    # contract of CalcMaxEquationNumber (proved above): last row of the block that starts at the base row, -1 without equations
    def calcmax(ex, st, ins, args):
        d = zi(args[0].rid)
        b = ex.loadk(st, base(args[0].rid), 'i')
        st.assume(LE(0, b))      # unsigned
        return ITE(EQ(rows(d), 0), -1, sub(add(b, rows(d)), 1))
    c(('Device::CalcMaxEquationNumber', calcmax))
    c(('NodeKeeper::instance', lambda ex, st, ins, args: NK))
    c(('NodeKeeper::HaveNodes', lambda ex, st, ins, args: ng))
    c(('NodeKeeper::SetNodeNumbers', lambda ex, st, ins, args: ex.storek(st, start, 'i', args[1])))
    c(('NodeKeeper::GetMaxEquationNumber', lambda ex, st, ins, args: sub(add(ex.loadk(st, start, 'i'), C), 1)))
    u.set(st, start, 'i', -7)
    me = ex.obj('dsMath::Newton<double>')
    r, s = u.run(u.fn('dsMath::Newton::NumberEquationsAndSetDimension', '<double>'), [me], st)
    u.sat('any', s)
    K = lambda i: ex.enumerations[0]['K'](zi(G.rid), zi(i))
    t = z3.Int('t')
    p = u.idx(s, 'p', n)
    S = lambda k: SUM(t, rows(dev(K(t))), k)
    u.prove('first row of a device follows those of the devices before it', s, EQ(u.get(s, base(dev(K(p))), 'i'), S(p)))
    u.prove('the circuit rows follow', s, EQ(u.get(s, start, 'i'), ITE(ng, S(n), -7)))
    u.prove('dimension of the system', s, EQ(r, add(S(n), ITE(ng, C, 0))))

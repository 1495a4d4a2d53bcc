"""Specification layer: units (functions under contract), obligations, results."""
import os, sys, time, json, traceback, multiprocessing as mp, resource
import z3
from fractions import Fraction
import terms
from terms import *
from vc import *
import vc
import lib

UNITS = {}


def SQRT(x):
    """the square root in specifications (same symbol the verifier gives to std::sqrt: r >= 0 and r*r = x for x >= 0)"""
    return lib.mfun('sqrt')(zr(x))


class Unit:
    def __init__(self, pid, name, files, fn, functions, title, tier):
        self.pid, self.name, self.files, self.fn = pid, name, files, fn
        self.functions, self.title, self.tier = functions, title, tier


def unit(pid, name, files, functions=(), tier='quick'):
    """register a verification unit of property pid"""
    def deco(fn):
        UNITS.setdefault(pid, []).append(Unit(pid, name, list(files), fn, list(functions), (fn.__doc__ or '').strip(), tier))
        return fn
    return deco


class U:
    """context handed to a unit"""

    def __init__(self, prog, unit, tier):
        self.prog, self.unit, self.tier = prog, unit, tier
        self.execs = []
        self.vac = []
        self.under = []
        self.ex = None
        self.ms = 10000 if tier == 'quick' else 40000
        self.notes = []

    def fresh_exec(self, **kw):
        ex = Exec(self.prog, **kw)
        ex.ms = self.ms
        ex.trace = bool(os.environ.get('VTRACE'))
        self.execs.append(ex)
        self.ex = ex
        return ex

    def fn(self, name, *must):
        f = self.ex.func(name, *must)
        self.under.append(f['dn'])
        return f

    def run(self, f, args, st):
        """symbolically execute the real body under its precondition (st)"""
        r = self.ex.run(f, args, st)
        if r is None:
            raise Unsupported('no normal return from ' + f['dn'])
        return r

    def prove(self, name, st, goal, hints=(), assume=False):
        return self.ex.oblige(st, name, goal, hints=list(hints), assume=assume)

    def sat(self, name, st):
        """vacuity guard: the hypotheses must not be contradictory"""
        bad = self.ex.P.infeasible(st.pc, 2000)
        self.vac.append((name, not bad))

    # ------------------------------------------------------------ builders
    def const(self, name, sort=I):
        return fresh(name, sort)

    def vec(self, st, loc, name, kind='r', n=None, fn=None):
        """std::vector at loc with symbolic length and contents; returns (n, fn)"""
        ex = self.ex
        if n is None:
            n = fresh('n_' + name)
            st.assume(n >= 0)
        if fn is None:
            fn = z3.Function(freshname(name), I, KSORT[kind])
        ex.storek(st, loc.mark('len'), 'i', n)
        l = loc.seg('e', 0)
        k = len(l.idx())
        f = fn
        ex.initial[l.key() + (kind,)] = Base(lambda *ix: norm(f(zi(ix[-1]))), name) if callable(f) else f
        return n, fn

    def at(self, st, loc, i, kind='r'):
        return self.ex.loadk(st, loc.seg('e', i), kind)

    def len(self, st, loc):
        return self.ex.loadk(st, loc.mark('len'), 'i')

    def get(self, st, loc, kind):
        return self.ex.loadk(st, loc, kind)

    def set(self, st, loc, kind, v):
        self.ex.storek(st, loc, kind, v)

    def family(self, loc, kind, fn, name='fam'):
        """initial contents of an indexed family: fn(*indices)"""
        self.ex.initial[loc.key() + (kind,)] = Base(fn, name)

    def idx(self, st, name, n):
        """arbitrary index 0 <= k < n"""
        k = fresh(name)
        st.assume(LE(0, k))
        st.assume(LT(k, n))
        return k


def run_unit(prog, un, tier):
    t0 = time.time()
    terms._fresh[0] = 0
    SUMS.clear()
    vc._BR.clear()
    vc._OB.clear()
    terms._sumkey.clear()
    u = U(prog, un, tier)
    err = None
    try:
        un.fn(u)
    except (Unsupported, vc.Unsupported) as e:
        err = 'outside the verifier\'s reach: %s' % e
        if os.environ.get('VTRACE'):
            traceback.print_exc()
    except RecursionError as e:
        err = 'verifier recursion limit'
    except z3.Z3Exception as e:
        err = 'solver exception %s' % e
        if os.environ.get('VTRACE'):
            traceback.print_exc()
    except Exception as e:
        err = 'verifier exception %s: %s' % (type(e).__name__, e)
        if os.environ.get('VTRACE'):
            traceback.print_exc()
    ob = []
    res = dict(unit=un.name, title=un.title, err=err, obligations=[], inlined={}, trusted={}, assumed={}, stats={}, solver_s=0.0, queries=0)
    for ex in u.execs:
        for o in ex.oblig:
            res['obligations'].append(dict(name=o.name, status=o.status, backend=o.backend, detail=o.detail if o.status != 'proved' else '', t=round(o.secs, 3), where=o.where))
        res['inlined'].update(ex.used)
        for a, b in ((res['trusted'], ex.trusted), (res['assumed'], ex.assumed), (res['stats'], ex.P.stats)):
            for k, v in b.items():
                a[k] = a.get(k, 0) + v
        res['solver_s'] += ex.P.time
        res['queries'] += ex.P.queries
    for n, ok in u.vac:
        res['obligations'].append(dict(name='hypotheses consistent: ' + n, status='proved' if ok else 'vacuous', backend='z3', detail='' if ok else 'contradictory hypotheses', t=0, where=un.name))
    res['under'] = u.under
    res['notes'] = u.notes
    res['wall'] = time.time() - t0
    if not res['obligations'] and not err:
        res['err'] = 'unit generated no obligation'
    return res

"""Entry lists by meaning: the totals entered at every (row, column) and every residual row.

The ghost totals are  sum over the entries of value * phi(row, column)  and  value * psi(row)  for arbitrary functions phi, psi: two
lists agree on them for all phi, psi exactly when they agree on the total at every position (take phi = 1 there, 0 elsewhere)."""
from spec import *
from vc import Loc


class Totals:
    """ghost state: m and v are known by their weighted totals; only push_back/emplace_back may touch them"""

    def __init__(self, u, st):
        self.u, self.st, self.ex = u, st, u.ex
        self.m, self.v = Loc(('v', 'm')), Loc(('v', 'v'))
        self.phi = z3.Function('weight', I, I, R)
        self.psi = z3.Function('weightOfRow', I, R)
        self.gm, self.gv = Loc(('v', 'total of the matrix entries')), Loc(('v', 'total of the residual entries'))
        self.m0, self.v0 = fresh('m0', z3.RealSort()), fresh('v0', z3.RealSort())
        u.set(st, self.gm, 'r', self.m0)
        u.set(st, self.gv, 'r', self.v0)
        self.ex.bags[self.m.key()] = self.pushm
        self.ex.bags[self.v.key()] = self.pushv

    def pushm(self, st, e, t):
        ex = self.ex
        r, c, x = ex.loadk(st, e, 'i'), ex.loadk(st, e.plus(4), 'i'), ex.loadk(st, e.plus(8), 'r')
        ex.storek(st, self.gm, 'r', add(ex.loadk(st, self.gm, 'r'), mul(self.phi(zi(r), zi(c)), zr(x))))

    def pushv(self, st, e, t):
        ex = self.ex
        r, x = ex.loadk(st, e, 'i'), ex.loadk(st, e.plus(8), 'r')
        ex.storek(st, self.gv, 'r', add(ex.loadk(st, self.gv, 'r'), mul(self.psi(zi(r)), zr(x))))

    def at(self, row, col, x):
        """contribution of the entry (row, col, x) to the matrix total"""
        return mul(self.phi(zi(row), zi(col)), zr(x))

    def rhs(self, row, x):
        return mul(self.psi(zi(row)), zr(x))

    def matrix(self, s2, name, want):
        self.u.prove(name, s2, EQ(self.ex.loadk(s2, self.gm, 'r'), self.m0 + want))

    def residual(self, s2, name, want):
        self.u.prove(name, s2, EQ(self.ex.loadk(s2, self.gv, 'r'), self.v0 + want))

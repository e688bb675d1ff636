"""Contracts shared by the finite-state control / Viterbi modules: symbolic problem, Bellman value function."""
from .. import terms as T
from .. import smt
from ..values import *
from ..interp import Engine, Template
from .. import arrops as A

I, R = T.INT, T.REAL


def forall(n, f):
    return T.binder('forall', n, f)


def exists(n, f):
    return T.binder('exists', n, f)


def mn(n, f):
    return T.binder('min', n, f)


def argmn(n, f):
    return T.binder('argmin', n, f)


def inr(t, n):
    return T.and_(T.le(0, t), T.lt(t, n))


def fnarr(shape, f, dt='f', lib='np'):
    return Arr('fn', shape, f, dt, lib)


def seqof(n, f):
    return PyList(Seq([Seg(n, f)]))


class FSCProblem:
    """finite-state control problem with T >= 1 stages, Dx states, Du controls, stage dependent data;
    V(k, x): least cost-to-go (Bellman recursion), discount g"""

    def __init__(self, e, gamma=False, lib='np', Ldt='f', LTdt='f', value=True):
        self.e, self.lib = e, lib
        self.T, self.Dx, self.Du = T.var('T', I), T.var('Dx', I), T.var('Du', I)
        for d in (self.T, self.Dx, self.Du):
            e.pc.append(T.le(1, d))
        self.g = T.var('gamma', R) if gamma else T.const(1, R)
        if gamma:
            e.pc.append(T.le(0, self.g))
        self.Ldt, self.LTdt = Ldt, LTdt
        self.x0 = T.var('x0', I)
        e.pc.append(inr(self.x0, self.Dx))
        e.facts.append(forall(self.T, lambda k: forall(self.Dx, lambda x: forall(self.Du, lambda u:
                       inr(self.f(k, x, u), self.Dx)))))
        if value:
            e.facts.append(forall(self.Dx, lambda x: T.eq(self.V(self.T, x), self.LT(x))))
            e.facts.append(forall(self.T, lambda k: forall(self.Dx, lambda x: T.eq(self.V(k, x), self.bell(k, x)))))

    def f(self, k, x, u):
        return T.app('f', (T.L(k), T.L(x), T.L(u)), I)

    def L(self, k, x, u):
        return T.app('L' if self.Ldt == 'f' else 'Li', (T.L(k), T.L(x), T.L(u)), R if self.Ldt == 'f' else I)

    def LT(self, x):
        return T.app('LT' if self.LTdt == 'f' else 'LTi', (T.L(x),), R if self.LTdt == 'f' else I)

    def V(self, k, x):
        return T.app('V', (T.L(k), T.L(x)), R)

    def Q(self, k, x, u):
        return T.add(self.L(k, x, u), T.mul(self.g, self.V(T.add(T.L(k), 1), self.f(k, x, u))))

    def bell(self, k, x):
        return mn(self.Du, lambda u: self.Q(k, x, u))

    def Varr(self, k):
        k = T.L(k)
        return fnarr((self.Dx,), lambda x: self.V(k, x), 'f', self.lib)

    def farr(self, k):
        k = T.L(k)
        return fnarr((self.Dx, self.Du), lambda x, u: self.f(k, x, u), 'i', self.lib)

    def Larr(self, k):
        k = T.L(k)
        return fnarr((self.Dx, self.Du), lambda x, u: self.L(k, x, u), self.Ldt, self.lib)

    def LTarr(self):
        return fnarr((self.Dx,), self.LT, self.LTdt, self.lib)

    def ctl(self, k):
        """an arbitrary admissible control law"""
        k = T.L(k)
        return fnarr((self.Dx,), lambda x: T.app('ul', (k, T.L(x)), I), 'i', self.lib)

    def ctl_fact(self):
        self.e.facts.append(forall(self.T, lambda k: forall(self.Dx, lambda x: inr(T.app('ul', (k, x), I), self.Du))))

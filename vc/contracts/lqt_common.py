"""Contracts shared by the LQT modules: the symbolic problem and the Bellman value function."""
from fractions import Fraction
from .. import terms as T
from .. import ncalg as N
from ..values import *
from ..interp import Engine, Spec, Template
from .. import shims


def mm(*ps):
    r = ps[0]
    for p in ps[1:]:
        r = N.mul(r, p)
    return r


def tr(p):
    return N.transpose(p)


def ad(*ps):
    r = ps[0]
    for p in ps[1:]:
        r = N.add(r, p)
    return r


def sb(a, b):
    return N.add(a, b, -1)


class LQTProblem:
    """symbolic LQT problem with T >= 1 steps, n states, m controls, p(k) outputs"""

    def __init__(self, e, lib='np', identZ=False, constp=False, ti=False):
        self.e = e
        i = T.INT
        self.T = T.var('T', i)
        self.n, self.m, self.pT = T.var('n', i), T.var('m', i), T.var('pT', i)
        for d in (self.T, self.n, self.m, self.pT):
            e.pc.append(T.le(1, d))
        self.lib = lib
        one = T.const(1)
        n, m = self.n, self.m

        self.identZ = identZ
        self.ti = ti

        def p(k):
            if constp:
                return self.pT
            return T.app('p', (T.L(k),), T.INT)
        self.p = p
        sh = {'F': lambda k: (n, n), 'L': lambda k: (n, m), 'X': lambda k: (p(k), p(k)), 'U': lambda k: (m, m),
              'c': lambda k: (n,), 'H': lambda k: (p(k), n), 'r': lambda k: (p(k),), 'Z': lambda k: (m, m),
              's': lambda k: (m,), 'M': lambda k: (p(k), m)}
        self.sh = sh
        self.sym = {'X', 'U'}
        self.HT = mat_atom('HT', (self.pT, n), lib=lib)
        self.XT = mat_atom('XT', (self.pT, self.pT), sym=True, lib=lib)
        self.rT = mat_atom('rT', (self.pT,), lib=lib)
        self.x0 = mat_atom('x0', (n,), lib=lib)
        self.specs()

    def a(self, nm, k):
        if nm == 'Z' and self.identZ:
            return Arr('mat', (self.m, self.m), N.ident(self.m), 'f', self.lib)
        return mat_atom(nm, self.sh[nm](k), (T.L(k),), nm in self.sym, lib=self.lib)

    def g(self, nm, k):
        return self.a(nm, k).data

    def lst(self, nm):
        return PyList(Seq([Seg(self.T, lambda i: self.a(nm, i))]))

    def obj(self, module='parallel_control.lqt_np', cls='LQT'):
        c = self.e.load(module).g.vars[cls]
        o = Obj(c)
        for nm in self.sh:
            o.f[nm] = self.lst(nm)
        o.f['HT'], o.f['XT'], o.f['rT'] = self.HT, self.XT, self.rT
        return o

    # --- Bellman recursion (the oracle): Q-function of stage k for given S+, v+
    def Q(self, k, S1, v1):
        F, L, X, U, c, H, r, Z, s, M = [self.g(q, k) for q in ('F', 'L', 'X', 'U', 'c', 'H', 'r', 'Z', 's', 'M')]
        Qxx = ad(mm(tr(H), X, H), mm(tr(F), S1, F))
        Qux = ad(mm(tr(Z), tr(M), H), mm(tr(L), S1, F))
        Quu = ad(mm(tr(Z), U, Z), mm(tr(L), S1, L))
        vc = sb(v1, mm(S1, c))
        qx = ad(mm(tr(H), X, r), mm(tr(H), M, s), mm(tr(F), vc))
        qu = ad(mm(tr(Z), U, s), mm(tr(Z), tr(M), r), mm(tr(L), vc))
        return Qxx, Qux, Quu, qx, qu

    def specs(self):
        e, n, m = self.e, self.n, self.m
        fam = ('S', 'v')

        def nxt(k):
            return T.add(k, 1)

        def q(k):
            return self.Q(k, self.S.at(nxt(k)), self.v.at(nxt(k)))

        def bS(eng, k):
            if eng.entails(T.eq(k, self.T)):
                return mm(tr(self.HT.data), self.XT.data, self.HT.data)

        def bv(eng, k):
            if eng.entails(T.eq(k, self.T)):
                return mm(tr(self.HT.data), self.XT.data, self.rT.data)

        def dS(eng, k):
            if not eng.entails(T.lt(k, self.T)):
                return None
            Qxx, Qux, Quu, qx, qu = q(k)
            return sb(Qxx, mm(tr(Qux), N.inverse(Quu), Qux))

        def dv(eng, k):
            if not eng.entails(T.lt(k, self.T)):
                return None
            Qxx, Qux, Quu, qx, qu = q(k)
            return sb(qx, mm(tr(Qux), N.inverse(Quu), qu))

        def dK(eng, k):
            Qxx, Qux, Quu, qx, qu = q(k)
            return mm(N.inverse(Quu), Qux)

        def dd(eng, k):
            Qxx, Qux, Quu, qx, qu = q(k)
            return mm(N.inverse(Quu), qu)
        pred = lambda k: (T.add(k, 1),)
        self.S = Spec('S', (n, n), dS, sym=True, recursive=True, pred=pred, family=fam, base=bS)
        self.v = Spec('v', (n,), dv, recursive=True, pred=pred, family=fam, base=bv)
        self.K = Spec('K', (m, n), dK)
        self.d = Spec('d', (m,), dd)
        for s in (self.S, self.v, self.K, self.d):
            e.specs[s.name] = s
        for s in (self.S, self.v):
            e.templates.append(Template(s.name, lambda i, s=s: s.arr(i), [self.T, 0], (-1, 1)))

    def seq(self, spec, n):
        return PyList(Seq([Seg(n, lambda i: spec.arr(i))]))

    # --- conditional value function elements (canonical form) and prefix recursion
    def elem(self, k):
        """(A,b,C,eta,J) of the one-step conditional value function: Lagrangian of stage k with the control eliminated"""
        F, L, X, U, c, H, r, Z, s, M = [self.g(q, k) for q in ('F', 'L', 'X', 'U', 'c', 'H', 'r', 'Z', 's', 'M')]
        W = N.inverse(mm(tr(Z), U, Z))
        Lq = ad(mm(tr(Z), tr(M), H))
        lq = ad(mm(tr(Z), U, s), mm(tr(Z), tr(M), r))
        A = sb(F, mm(L, W, Lq))
        b = ad(c, mm(L, W, lq))
        C = mm(L, W, tr(L))
        eta = sb(ad(mm(tr(H), X, r), mm(tr(H), M, s)), mm(tr(Lq), W, lq))
        J = sb(mm(tr(H), X, H), mm(tr(Lq), W, Lq))
        return A, b, C, eta, J


def combine(x, y, n):
    """V_{i->k}(x_i,x_k) = min over x_j of V_{i->j} + V_{j->k} in parameters (justified by unit 'combine exactness')"""
    Aij, bij, Cij, eij, Jij = x
    Ajk, bjk, Cjk, ejk, Jjk = y
    I = N.ident(n)
    E = N.inverse(ad(I, mm(Cij, Jjk)))
    G = tr(E)
    return (mm(Ajk, E, Aij), ad(mm(Ajk, E, ad(bij, mm(Cij, ejk))), bjk), ad(mm(Ajk, E, Cij, tr(Ajk)), Cjk),
            ad(mm(tr(Aij), G, sb(ejk, mm(Jjk, bij))), eij), ad(mm(tr(Aij), G, Jjk, Aij), Jij))


def prefix_specs(e, P, names, first, start):
    """prefix combination sequences P_k = P_{k-1} o elem(k-1+off) with P_start = first"""
    n = P.n
    one = T.const(1)
    shapes = [(n, n), (n,), (n, n), (n,), (n, n)]
    syms = [False, False, True, False, True]
    specs = []

    def mk(q):
        def base(eng, k):
            if eng.entails(T.eq(k, start)):
                return first[q]

        def step(eng, k):
            if not eng.entails(T.lt(start, k)):
                return None
            k1 = T.sub(k, 1)
            prev = [sp.at(k1) for sp in specs]
            return combine(prev, P.elem(k1), n)[q]
        return Spec(names[q], shapes[q], step, sym=syms[q], recursive=True, pred=lambda k: (T.sub(k, 1),),
                    family=tuple(names), base=base)
    for q in range(5):
        specs.append(mk(q))
    for sp in specs:
        e.specs[sp.name] = sp
        e.templates.append(Template(sp.name, lambda i, sp=sp: sp.arr(i), [start], (1,)))
    return specs

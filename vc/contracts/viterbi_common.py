"""Hidden Markov model with T >= 1 observations y(0..T-1) of the states x(1..T); x(0) is drawn from the prior.
Cost of a state sequence: -log prior(x0) + sum_k psi(k, x(k), x(k+1)), psi = -log Pi - log Po."""
from .fsc_common import *


class HMM:
    def __init__(self, e, lib='np', fwd=True, bwd=False):
        self.e, self.lib = e, lib
        self.T, self.Dx, self.Dy = T.var('T', I), T.var('Dx', I), T.var('Dy', I)
        for d in (self.T, self.Dx, self.Dy):
            e.pc.append(T.le(1, d))
        e.facts.append(forall(self.T, lambda k: inr(self.y(k), self.Dy)))
        e.facts.append(forall(self.Dx, lambda x: T.lt(0, self.pr(x))))
        e.facts.append(forall(self.Dx, lambda x: forall(self.Dx, lambda z: T.lt(0, self.Pi(x, z)))))
        e.facts.append(forall(self.Dx, lambda x: forall(self.Dy, lambda z: T.lt(0, self.Po(x, z)))))
        rx = lambda x: inr(x, self.Dx)
        if fwd:
            e.inst['VF'] = lambda k, z: [
                T.implies(T.and_(T.eq(k, 0), rx(z)), T.eq(self.VF(k, z), self.nlp(z))),
                T.implies(T.and_(inr(T.sub(k, 1), self.T), rx(z)), T.eq(self.VF(k, z), self.fstep(T.sub(k, 1), z)))]
        if bwd:
            e.inst['VB'] = lambda k, x: [
                T.implies(T.and_(T.eq(k, self.T), rx(x)), T.eq(self.VB(k, x), T.const(0, R))),
                T.implies(T.and_(inr(k, self.T), rx(x)), T.eq(self.VB(k, x), self.bstep(k, x)))]

    def app(self, nm, *a):
        return T.app(nm, tuple(T.L(x) for x in a), R)

    def pr(self, x):
        return self.app('prior', x)

    def Pi(self, x, z):
        return self.app('Pi', x, z)

    def Po(self, x, y):
        return self.app('Po', x, y)

    def y(self, k):
        return T.app('y', (T.L(k),), I)

    def nl(self, t):
        return T.neg(T.app('log', (t,), R)) if hasattr(T, 'neg') else T.sub(T.const(0, R), T.app('log', (t,), R))

    def nlp(self, x):
        return self.nl(self.pr(x))

    def psi(self, k, x, z):
        return T.add(self.nl(self.Pi(x, z)), self.nl(self.Po(z, self.y(k))))

    def VF(self, k, x):
        return self.app('VF', k, x)

    def VB(self, k, x):
        return self.app('VB', k, x)

    def fstep(self, k, z):
        return mn(self.Dx, lambda x: T.add(self.VF(k, x), self.psi(k, x, z)))

    def bstep(self, k, x):
        return mn(self.Dx, lambda z: T.add(self.psi(k, x, z), self.VB(T.add(T.L(k), 1), z)))

    def tens(self):
        a = lambda sh, f, d='f': Arr('fn', sh, f, d, self.lib)
        return (a((self.Dx,), self.pr), a((self.Dx, self.Dx), self.Pi), a((self.Dx, self.Dy), self.Po))

    def ys(self):
        return Arr('fn', (self.T,), self.y, 'i', self.lib)


def path_lemmas(e, bwd=True):
    """(1) the forward value is a lower bound of the cost of every sequence ending there; a sequence that attains every
    forward step attains it; (2) minimisers of VF + VB lie on optimal sequences"""
    H = HMM(e, bwd=bwd)
    k, x, z, c, V1 = T.var('k', I), T.var('x', I), T.var('z', I), T.var('c', R), T.var('Vopt', R)

    def one():
        e.assume(inr(k, H.T))
        e.assume(inr(x, H.Dx))
        e.assume(inr(z, H.Dx))
        e.assume(T.le(H.VF(k, x), c))
        e.prove_bool(T.le(H.VF(T.add(k, 1), z), T.add(c, H.psi(k, x, z))), 'lemma (induction step): the forward value is a lower bound', 'lemma')
    e.explore(one)

    def two():
        e.assume(inr(k, H.T))
        e.assume(inr(x, H.Dx))
        e.assume(inr(z, H.Dx))
        e.assume(T.eq(c, H.VF(k, x)))
        e.assume(T.eq(H.VF(T.add(k, 1), z), T.add(H.VF(k, x), H.psi(k, x, z))))
        e.prove_bool(T.eq(H.VF(T.add(k, 1), z), T.add(c, H.psi(k, x, z))), 'lemma (induction step): a path attaining every step has the forward value as cost', 'lemma')
    e.explore(two)
    if not bwd:
        return
    k1 = T.add(k, 1)
    tot = lambda j: mn(H.Dx, lambda w: T.add(H.VF(j, w), H.VB(j, w)))

    def both():
        """the recursions at time k, for every state"""
        e.facts.append(forall(H.Dx, lambda u: T.eq(H.VF(k1, u), H.fstep(k, u))))
        e.facts.append(forall(H.Dx, lambda u: T.eq(H.VB(k, u), H.bstep(k, u))))
    both()

    def three():
        e.assume(inr(k, H.T))
        e.prove_bool(T.eq(tot(k), tot(k1)), 'lemma (induction step): the split cost is the same at every time', 'lemma')
    e.explore(three)

    def four():
        e.assume(inr(k, H.T))
        e.assume(T.eq(V1, tot(k1)))
        e.assume(T.eq(V1, tot(k)))
        e.assume(inr(x, H.Dx))
        e.assume(T.eq(T.add(H.VF(k, x), H.VB(k, x)), V1))
        w = argmn(H.Dx, lambda u: T.add(H.psi(k, x, u), H.VB(k1, u)))
        e.prove_bool(T.and_(inr(w, H.Dx), T.eq(T.add(H.VF(k1, w), H.VB(k1, w)), V1), T.eq(H.VF(k1, w), T.add(H.VF(k, x), H.psi(k, x, w)))),
                     'lemma: a minimiser of the split cost has a successor that is one, along an optimal step', 'lemma')
    e.explore(four)

    def five():
        e.assume(inr(k, H.T))
        e.assume(T.eq(V1, tot(k1)))
        e.assume(T.eq(V1, tot(k)))
        e.assume(inr(z, H.Dx))
        e.assume(T.eq(T.add(H.VF(k1, z), H.VB(k1, z)), V1))
        w = argmn(H.Dx, lambda u: T.add(H.VF(k, u), H.psi(k, u, z)))
        e.prove_bool(T.and_(inr(w, H.Dx), T.eq(T.add(H.VF(k, w), H.VB(k, w)), V1), T.eq(H.VF(k1, z), T.add(H.VF(k, w), H.psi(k, w, z)))),
                     'lemma: a minimiser of the split cost has a predecessor that is one, along an optimal step', 'lemma')
    e.explore(five)


def check_back(e, H, us, what):
    """us(k, z): the predecessor of z at time k attains the forward step"""
    e.prove_bool(T.eq(us.seq.length(), H.T), what + ': one predecessor table per observation')
    k, z = T.fresh('k', I), T.fresh('z', I)

    def th():
        e.assume(inr(k, H.T))
        e.assume(inr(z, H.Dx))
        a = us.seq.get(k, e)
        ok = isinstance(a, Arr) and a.ndim == 1 and e.dim_eq(a.shape[0], H.Dx)
        e.obl(what + ': predecessor table has one entry per state', 'proved' if ok else 'unknown', repr(a)[:200], 'post', 'shape')
        if ok:
            u = A.lift_fn(a).data(z)
            e.prove_bool(inr(u, H.Dx), what + ': predecessor in range')
            e.prove_bool(T.eq(T.add(H.VF(k, u), H.psi(k, u, z)), H.VF(T.add(k, 1), z)), what + ': predecessor attains the least cost')
    for o in e.explore(th):
        if o.exc:
            e.obl(what + ': predecessor table readable', 'unknown', str(o.exc), 'post', '')


def xp(k):
    return T.app('xp', (T.L(k),), I)


def bk(k, z):
    return T.app('bk', (T.L(k), T.L(z)), I)


def back_path(e, H, xT):
    """xp(T) = xT, xp(k) = bk(k, xp(k+1)), entries of bk in range"""
    e.facts.append(forall(H.T, lambda k: forall(H.Dx, lambda z: inr(bk(k, z), H.Dx))))

    def inst(k):
        return [T.implies(T.eq(k, H.T), T.eq(xp(k), xT)),
                T.implies(inr(k, H.T), T.eq(xp(k), bk(k, xp(T.add(k, 1))))),
                T.implies(inr(k, T.add(H.T, 1)), inr(xp(k), H.Dx))]
    e.inst['xp'] = inst


def range_lemma(e, H, xT):
    k = T.fresh('k', I)

    def th():
        e.assume(inr(k, H.T))
        sav, e.inst = e.inst, {'xp': lambda j: [T.implies(inr(j, H.T), T.eq(xp(j), bk(j, xp(T.add(j, 1)))))]}
        e.assume(inr(xp(T.add(k, 1)), H.Dx))
        e.prove_bool(inr(xp(k), H.Dx), 'lemma: the path stays in the state range (induction step)', 'lemma')
        e.prove_bool(inr(xT, H.Dx), 'lemma: the path stays in the state range (induction base)', 'lemma')
        e.inst = sav
    e.explore(th)

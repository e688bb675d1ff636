"""Contracts for viterbi_np.py (C05)."""
from .viterbi_common import *
from ..runner import unit
from .util import *
from .fsc_np import (term1, big_costs, define_w, w_of, goal_total, big_costs_strict, traj, ulaw, xs, seqof, INF)

MOD = 'parallel_control.viterbi_np'
Q = MOD + ':'


def np_(sh, f, d='f'):
    return Arr('fn', sh, f, d, 'np')


def log_of_products(e):
    """log(a b) = log a + log b for positive factors, instantiated at every logarithm of a product"""
    log = lambda t: T.app('log', (T.toreal(t),), R)

    def inst(t):
        if t.op != 'poly' or len(t.args) != 1 or t.args[0][0] != 1 or any(q < 1 for _, q in t.args[0][1]):
            return []
        fs = [a for a, q in t.args[0][1] for _ in range(int(q))]
        tot = T.const(0, R)
        for a in fs:
            tot = T.add(tot, log(a))
        return [T.implies(T.and_(*[T.lt(0, a) for a in fs]), T.eq(log(t), tot))]
    e.inst['log'] = inst


def obj(e, H):
    return e.call(e.load(MOD).g.vars['Viterbi_np'], list(H.tens()))


def best_path(e, H):
    """xp: a best final state and, going back, the first best predecessor"""
    e.congruence = True
    def inst(k):
        k1 = T.add(k, 1)
        return [T.implies(T.eq(k, T.add(H.T, 1)), T.eq(xp(k), 0)),      # placeholder before the last state is known
                T.implies(T.eq(k, H.T), T.eq(xp(k), argmn(H.Dx, lambda x: H.VF(k, x)))),
                T.implies(inr(k, H.T), T.eq(xp(k), argmn(H.Dx, lambda x: T.add(H.VF(k, x), H.psi(k, x, xp(k1)))))),
                T.implies(inr(k, T.add(H.T, 1)), inr(xp(k), H.Dx))]
    e.inst['xp'] = inst
    e.templates.append(Template('VF', lambda i: np_((H.Dx,), lambda x: H.VF(i, x)), [0], (1,)))
    e.templates.append(Template('xp', lambda i: xp(i), [T.add(H.T, 1), H.T], (-1,)))


def check_map(e, H, r, what, xs=None):
    if not (isinstance(r, tuple) and len(r) == 2 and all(isinstance(x, Arr) for x in r)):
        e.obl(what + ' returns the sequence and the values', 'refuted', repr(r)[:200], 'post', 'syntactic')
        return
    e.check_eq(r[1], np_((T.add(H.T, 1), H.Dx), H.VF), what + ': values are the least costs of the sequences ending in each state')
    sq = A.rows(e, r[0])
    e.prove_bool(T.eq(sq.length(), T.add(H.T, 1)), what + ': one state per time')
    k = T.fresh('k', I)

    def at():
        e.assume(inr(k, H.T))
        if xs is not None and e.branch(T.eq(T.add(k, 1), H.T)):     # the last step: best final state
            kk = T.sub(H.T, 1)
        else:
            kk = k
        x, z = term1(sq.get(kk, e)), term1(sq.get(T.add(kk, 1), e))
        if xs is not None:                       # name the states (a lemma step, not demanded)
            x, z = [b if e.entails_h(T.eq(a, b)) else a for a, b in ((x, xs(kk)), (z, xs(T.add(kk, 1))))]
        e.prove_bool(T.and_(inr(x, H.Dx), inr(z, H.Dx)), what + ': states in range')
        e.prove_bool(T.eq(H.VF(T.add(kk, 1), z), T.add(H.VF(kk, x), H.psi(kk, x, z))), what + ': every step attains the forward value (time order)')

    def final():
        w = term1(sq.get(H.T, e))
        if xs is not None and e.entails_h(T.eq(w, xs(H.T))):
            e.assume(T.eq(w, xs(H.T)))
            w = xs(H.T)
        e.prove_bool(T.eq(H.VF(H.T, w), mn(H.Dx, lambda v: H.VF(H.T, v))), what + ': the sequence ends in a best final state')
    for o in e.explore(at) + e.explore(final):
        if o.exc:
            e.obl(what + ': states readable', 'unknown', str(o.exc), 'post', '')


def ref_unit(name):
    def body(e):
        H = HMM(e)
        best_path(e, H)
        o = obj(e, H)

        def th():
            fr = frame_of(o)
            check_map(e, H, e.call(meth(e, o, name), [H.ys()]), name, xp)
            check_frame(e, o, fr, name)
        return th
    return body


for nm in ('ref_viterbi_log', 'ref_viterbi_log_v2'):
    unit('C05', 'viterbi_np.Viterbi_np.' + nm, [Q + 'Viterbi_np.' + nm])(ref_unit(nm))


@unit('C05', 'viterbi_np.lemma.paths', [], kind='lemma')
def lem(e):
    path_lemmas(e)


# ------------------------------------------------------------------ probability domain
def VP(k, x):
    return T.app('VP', (T.L(k), T.L(x)), R)


def mx(n, f):
    return T.binder('max', n, f)


def amx(n, f):
    return T.binder('argmax', n, f)


def pstep(H, k, x, z):
    return T.mul(T.mul(H.Po(z, H.y(k)), H.Pi(x, z)), VP(k, x))


@unit('C05', 'viterbi_np.Viterbi_np.ref_viterbi', [Q + 'Viterbi_np.ref_viterbi'])
def refp(e):
    H = HMM(e, fwd=False)
    e.congruence = True
    e.inst['VP'] = lambda k, z: [
        T.implies(T.and_(T.eq(k, 0), inr(z, H.Dx)), T.eq(VP(k, z), H.pr(z))),
        T.implies(T.and_(inr(T.sub(k, 1), H.T), inr(z, H.Dx)), T.eq(VP(k, z), mx(H.Dx, lambda x: pstep(H, T.sub(k, 1), x, z))))]

    def inst(k):
        k1 = T.add(k, 1)
        return [T.implies(T.eq(k, T.add(H.T, 1)), T.eq(xp(k), 0)),
                T.implies(T.eq(k, H.T), T.eq(xp(k), amx(H.Dx, lambda x: VP(k, x)))),
                T.implies(inr(k, H.T), T.eq(xp(k), amx(H.Dx, lambda x: T.mul(H.Pi(x, xp(k1)), VP(k, x))))),
                T.implies(inr(k, T.add(H.T, 1)), inr(xp(k), H.Dx))]
    e.inst['xp'] = inst
    e.templates.append(Template('VP', lambda i: np_((H.Dx,), lambda x: VP(i, x)), [0], (1,)))
    e.templates.append(Template('xp', lambda i: xp(i), [T.add(H.T, 1), H.T], (-1,)))
    o = obj(e, H)
    name = 'ref_viterbi'

    def th():
        r = e.call(meth(e, o, name), [H.ys()])
        if not (isinstance(r, tuple) and len(r) == 2 and all(isinstance(x, Arr) for x in r)):
            e.obl(name + ' returns the sequence and the values', 'refuted', repr(r)[:200], 'post', 'syntactic')
            return
        e.check_eq(r[1], np_((T.add(H.T, 1), H.Dx), VP), name + ': values are the largest probabilities of the sequences ending in each state')
        e.check_eq(r[0], np_((T.add(H.T, 1),), xp, 'i'), name + ': sequence goes back from a best final state through best predecessors (time order)')
    return th


@unit('C05', 'viterbi_np.lemma.products', [], kind='lemma')
def lemp(e):
    """probability domain: VP bounds every sequence's joint probability; the back-tracked predecessor attains it"""
    H = HMM(e, fwd=False)
    k, x, z, p, u = T.var('k', I), T.var('x', I), T.var('z', I), T.var('p', R), T.var('u', I)
    k1 = T.add(k, 1)

    def one():
        e.assume(inr(k, H.T)); e.assume(inr(x, H.Dx)); e.assume(inr(z, H.Dx))
        e.assume(T.le(0, p)); e.assume(T.le(p, VP(k, x)))
        psi = T.var('psi', R)
        e.assume(T.lt(0, psi))
        e.prove_bool(T.le(T.mul(psi, p), T.mul(psi, VP(k, x))), 'lemma: extending a sequence keeps the bound', 'lemma')
        e.prove_bool(T.le(pstep(H, k, x, z), mx(H.Dx, lambda w: pstep(H, k, w, z))), 'lemma (induction step): the forward value bounds every extension', 'lemma')
    e.explore(one)

    def two():
        # c > 0: the maximiser of g is a maximiser of c g
        e.assume(inr(k, H.T)); e.assume(inr(z, H.Dx)); e.assume(inr(u, H.Dx))
        g = lambda w: T.mul(H.Pi(w, z), VP(k, w))
        b = amx(H.Dx, g)
        c, gb, gu = T.var('c', R), T.var('gb', R), T.var('gu', R)
        e.prove_bool(T.and_(inr(b, H.Dx), T.le(g(u), g(b))), 'lemma: the predecessor maximises transition times value', 'lemma')
        e.prove_bool(T.implies(T.and_(T.lt(0, c), T.le(gu, gb)), T.le(T.mul(c, gu), T.mul(c, gb))), 'lemma: a positive common factor does not change the maximiser', 'lemma')
    e.explore(two)


# ------------------------------------------------------------------ equivalent control problem
def cost_fsc(H, k, x, u):
    """stage k of the control problem is the step between times T-1-k and T-k of the chain, taken backwards"""
    j = T.sub(T.sub(H.T, 1), k)
    return H.psi(j, u, x)


@unit(['C05', 'C06'], 'viterbi_np.Viterbi_np.getFSC', [Q + 'Viterbi_np.getFSC'])
def gf(e):
    H = HMM(e)
    log_of_products(e)
    o = obj(e, H)

    def th():
        fr = frame_of(o)
        r = e.call(meth(e, o, 'getFSC'), [H.ys()])
        check_fsc(e, H, r)
        check_frame(e, o, fr, 'getFSC')
    return th


def check_fsc(e, H, r):
    if not isinstance(r, Obj):
        e.obl('getFSC returns a control problem', 'refuted', '', 'post', 'syntactic')
        return
    e.check_eq(r.f['f'], seqof(H.T, lambda k: np_((H.Dx, H.Dx), lambda x, u: u, 'i')), 'getFSC: the control is the predecessor state')
    e.check_eq(r.f['L'], seqof(H.T, lambda k: np_((H.Dx, H.Dx), lambda x, u: cost_fsc(H, k, x, u))),
               'getFSC: stage costs are minus the log transition and emission probabilities, in reversed time')
    e.check_eq(r.f['LT'], np_((H.Dx,), H.nlp), 'getFSC: terminal cost is minus the log prior')


@unit(['C05', 'C06'], 'viterbi_np.lemma.control problem values', [], kind='lemma')
def lv(e):
    """the cost-to-go of the control problem at stage k is the forward value at time T-k (backward induction)"""
    H = HMM(e)
    V = lambda k, x: T.app('V', (T.L(k), T.L(x)), R)
    k, x = T.var('k', I), T.var('x', I)

    def th():
        e.assume(inr(k, H.T)); e.assume(inr(x, H.Dx))
        e.facts.append(forall(H.Dx, lambda z: T.eq(V(T.add(k, 1), z), H.VF(T.sub(H.T, T.add(k, 1)), z))))
        e.prove_bool(T.eq(mn(H.Dx, lambda u: T.add(cost_fsc(H, k, x, u), V(T.add(k, 1), u))), H.VF(T.sub(H.T, k), x)),
                     'lemma (induction step): cost-to-go equals the forward value at the mirrored time', 'lemma')
        e.prove_bool(T.eq(H.nlp(x), H.VF(0, x)), 'lemma (induction base): terminal cost is the initial value', 'lemma')
    e.explore(th)


@unit('C05', 'viterbi_np.Viterbi_np.fscToViterbi', [Q + 'Viterbi_np.fscToViterbi'])
def ftv(e):
    H = HMM(e, fwd=False)
    o = obj(e, H)
    n1 = T.add(H.T, 1)
    x = lambda k: T.app('xq', (T.L(k),), I)
    V = lambda k, i: T.app('Vq', (T.L(k), T.L(i)), R)

    def th():
        xl, vl = seqof(n1, x), seqof(n1, lambda k: np_((H.Dx,), lambda i: V(k, i)))
        r = e.call(meth(e, o, 'fscToViterbi'), [xl, vl])
        if not (isinstance(r, tuple) and len(r) == 2):
            e.obl('fscToViterbi returns the sequence and the values', 'refuted', '', 'post', 'syntactic')
            return
        e.check_eq(r[0], np_((n1,), lambda k: x(T.sub(H.T, k)), 'i'), 'fscToViterbi: states in reversed order')
        e.check_eq(r[1], np_((n1, H.Dx), lambda k, i: V(T.sub(H.T, k), i)), 'fscToViterbi: values in reversed order')
        e.check_eq(xl, seqof(n1, x), 'frame: the state list is unchanged', 'frame')
        e.check_eq(vl, seqof(n1, lambda k: np_((H.Dx,), lambda i: V(k, i))), 'frame: the value list is unchanged', 'frame')
    return th


def fsc_variant(name, passes, fb):
    """composition of getFSC (contract above), the finite-state passes (contracts of C02/C03) and fscToViterbi"""
    def body(e):
        H = HMM(e)
        o = obj(e, H)
        e.facts.append(forall(H.Dx, lambda x: T.TRUE))
        vf = lambda k: np_((H.Dx,), lambda x: H.VF(T.sub(H.T, k), x))
        law = lambda k, x: T.app('ul', (T.L(k), T.L(x)), I)
        lawl = lambda: seqof(H.T, lambda k: np_((H.Dx,), lambda x: law(k, x), 'i'))
        vl = lambda: seqof(T.add(H.T, 1), vf)
        # law attains the value at every stage and state, and is in range
        e.inst['ul'] = lambda k, x: [T.implies(T.and_(inr(k, H.T), inr(x, H.Dx)), T.and_(inr(law(k, x), H.Dx), T.eq(
            T.add(cost_fsc(H, k, x, law(k, x)), H.VF(T.sub(H.T, T.add(k, 1)), law(k, x))), H.VF(T.sub(H.T, k), x))))]
        x0 = T.var('x0', I)
        xq = lambda k: T.app('xq', (T.L(k),), I)
        FQ = 'parallel_control.fsc_np:FSC.'
        fscobj = []

        def getfsc(it, cl, args, kw):
            it.e.check_eq(args[1], H.ys(), 'callee precondition: getFSC is given the observations', 'pre')
            f = Obj(e.load('parallel_control.fsc_np').g.vars['FSC'])
            fscobj.append(f)
            return f

        def me(it, a):
            ok = any(a is f for f in fscobj)
            it.e.obl('callee precondition: the passes run on the equivalent control problem', 'proved' if ok else 'unknown', '', 'pre', 'syntactic')

        def bwd(it, cl, args, kw):
            me(it, args[0])
            return (lawl(), vl())

        def x0ok(it, x):
            x = term1(x)
            it.e.prove_bool(T.and_(inr(x, H.Dx), T.eq(H.VF(H.T, x), mn(H.Dx, lambda w: H.VF(H.T, w)))), 'initial state minimises the cost-to-go', 'post')
            it.e.assume(T.eq(x, x0))

        def fwd(it, cl, args, kw):
            me(it, args[0])
            x0ok(it, args[1])
            it.e.check_eq(args[2], lawl(), 'callee precondition: forward pass is given the law', 'pre')
            e.inst['xq'] = lambda k: [T.implies(T.eq(k, 0), T.eq(xq(k), x0)),
                                      T.implies(inr(T.sub(k, 1), H.T), T.eq(xq(k), law(T.sub(k, 1), xq(T.sub(k, 1))))),
                                      T.implies(inr(k, T.add(H.T, 1)), inr(xq(k), H.Dx))]
            return (seqof(H.T, lambda k: law(k, xq(k))), seqof(T.add(H.T, 1), xq))
        W = lambda k, z: T.app('W', (T.L(k), T.L(z)), R)
        opt = lambda k, x: T.eq(T.add(W(k, x), H.VF(T.sub(H.T, k), x)), H.VF(H.T, x0))

        def fbp(it, cl, args, kw):
            me(it, args[0])
            x0ok(it, args[1])
            it.e.check_eq(args[2], lawl(), 'callee precondition: forward-backward pass is given the law', 'pre')
            it.e.check_eq(args[3], vl(), 'callee precondition: forward-backward pass is given the value functions', 'pre')
            e.inst['xq'] = lambda k: [T.implies(inr(k, T.add(H.T, 1)), T.and_(inr(xq(k), H.Dx), opt(k, xq(k))))]
            return (seqof(H.T, lambda k: law(k, xq(k))), seqof(T.add(H.T, 1), xq))
        e.contracts[Q + 'Viterbi_np.getFSC'] = getfsc
        for nm, h in (('seqBackwardPass', bwd), ('parBackwardPass', bwd), ('seqForwardPass', fwd), ('parForwardPass', fwd), ('parFwdBwdPass', fbp)):
            e.contracts[FQ + nm] = h

        def th():
            fr = frame_of(o)
            r = e.call(meth(e, o, name), [H.ys()])
            if not fb:
                check_map(e, H, r, name)
            elif not (isinstance(r, tuple) and len(r) == 2 and all(isinstance(x, Arr) for x in r)):
                e.obl(name + ' returns the sequence and the values', 'refuted', repr(r)[:200], 'post', 'syntactic')
            else:
                e.check_eq(r[1], np_((T.add(H.T, 1), H.Dx), H.VF), name + ': values are the least costs of the sequences ending in each state')
                sq = A.rows(e, r[0])
                e.prove_bool(T.eq(sq.length(), T.add(H.T, 1)), name + ': one state per time')
                k = T.fresh('k', I)

                def at():
                    e.assume(inr(k, T.add(H.T, 1)))
                    x = term1(sq.get(k, e))
                    e.prove_bool(T.and_(inr(x, H.Dx), opt(T.sub(H.T, k), x)), name + ': state lies on an optimal trajectory of the control problem at the mirrored time')
                for oc in e.explore(at):
                    if oc.exc:
                        e.obl(name + ': states readable', 'unknown', str(oc.exc), 'post', '')
            check_frame(e, o, fr, name)
        return th
    return body


for nm, fb in (('seqViterbi', 0), ('parBwdFwdViterbi', 0), ('parBwdFwdBwdViterbi', 1)):
    unit('C05', 'viterbi_np.Viterbi_np.' + nm, [Q + 'Viterbi_np.' + nm, Q + 'Viterbi_np.fscToViterbi'])(fsc_variant(nm, None, fb))

"""Contracts for viterbi_tf.py (C06)."""
from .viterbi_common import *
from ..runner import unit
from .tf_common import *
from . import fsc_tf as FT
from .fsc_np import term1, big_costs, define_w, w_of, goal_total, W1, big_costs_strict, check_control
from .. import shims as S

MOD = 'parallel_control.viterbi_tf'
Q = MOD + ':'


def tf_(sh, f, d='f'):
    return Arr('fn', sh, f, d, 'tf')


def VFt(H):
    return tf_((T.add(H.T, 1), H.Dx), H.VF)


def fits(e, n):
    mp = T.var('max_parallel', I)
    e.pc.append(T.le(n, mp))
    install_levels(e)
    return mp


def rows_of(e, a):
    return PyList(A.rows(e, a))


def pair(e, r, what):
    return FT.pair(e, r, what)


def fwd_unit(name, par):
    def body(e):
        H = HMM(e, 'tf')
        f = e.func(MOD, name)
        args = list(H.tens()) + [H.ys()]
        if par:
            args.append(fits(e, H.T))
            e.templates.append(Template('VFmat', lambda i: tf_((H.Dx, H.Dx), lambda x, z: H.VF(i, z)), [0], (1,)))
        else:
            e.templates.append(Template('VF', lambda i: tf_((H.Dx,), lambda x: H.VF(i, x)), [0], (1,)))

        def th():
            r = pair(e, e.call(f, args), name)
            if r:
                check_back(e, H, rows_of(e, r[0]), name)
                e.check_eq(r[1], VFt(H), name + ': values are the least costs of the state sequences ending in each state')
        return th
    return body


unit('C06', 'viterbi_tf.viterbi_seq_forwardpass', [Q + 'viterbi_seq_forwardpass'], tf=True)(fwd_unit('viterbi_seq_forwardpass', False))
unit('C06', 'viterbi_tf.viterbi_par_forwardpass', [Q + 'viterbi_par_forwardpass', Q + 'viterbi_par_forwardpass_init', Q + 'viterbi_par_comb_V'],
     tf=True)(fwd_unit('viterbi_par_forwardpass', True))


def back_args(e, H):
    VT = lambda x: T.app('VTany', (T.L(x),), R)
    xT = argmn(H.Dx, VT)
    back_path(e, H, xT)
    return tf_((H.T, H.Dx), bk, 'i'), tf_((H.Dx,), VT), xT


def bwd_unit(name, par):
    def body(e):
        H = HMM(e, 'tf')
        us, VT, xT = back_args(e, H)
        range_lemma(e, H, xT)
        f = e.func(MOD, name)
        args = [us, VT]
        if par:
            args.append(fits(e, H.T))
            e.templates.append(Template('xpc', lambda j: tf_((H.Dx,), lambda x: xp(T.sub(H.T, j)), 'i'), [0], (1,)))
        else:
            e.templates.append(Template('xp', lambda i: xp(i), [H.T], (-1,)))

        def th():
            r = e.call(f, args)
            e.check_eq(r, tf_((T.add(H.T, 1),), xp, 'i'), name + ': follows the predecessor tables back from a best final state')
        return th
    return body


unit('C06', 'viterbi_tf.viterbi_seq_backwardpass', [Q + 'viterbi_seq_backwardpass'], tf=True)(bwd_unit('viterbi_seq_backwardpass', False))
unit('C06', 'viterbi_tf.viterbi_par_backwardpass', [Q + 'viterbi_par_backwardpass', Q + 'viterbi_par_backwardpass_init', Q + 'viterbi_par_comb_f'],
     tf=True)(bwd_unit('viterbi_par_backwardpass', True))


@unit('C06', 'viterbi_tf.viterbi_par_bwfwpass', [Q + 'viterbi_par_bwfwpass', Q + 'viterbi_par_bwfwpass_init', Q + 'viterbi_par_comb_V',
      Q + 'viterbi_par_comb_V_rev'], tf=True)
def bf(e):
    H = HMM(e, 'tf', bwd=True)
    mp = fits(e, H.T)
    e.templates.append(Template('VBmat', lambda j: tf_((H.Dx, H.Dx), lambda x, z: H.VB(T.sub(H.T, j), x)), [0], (1,)))
    f = e.func(MOD, 'viterbi_par_bwfwpass')
    name = 'viterbi_par_bwfwpass'

    def th():
        r = pair(e, e.call(f, list(H.tens()) + [H.ys(), VFt(H), mp]), name)
        if r is None:
            return
        e.check_eq(r[1], tf_((T.add(H.T, 1), H.Dx), H.VB), name + ': values are the least costs of the rest of the sequence')
        check_split(e, H, r[0], name)
    return th


def check_split(e, H, xs, name):
    sq = rows_of(e, xs).seq
    e.prove_bool(T.eq(sq.length(), T.add(H.T, 1)), name + ': one state per time')
    k = T.fresh('k', I)

    def at():
        e.assume(inr(k, T.add(H.T, 1)))
        x = term1(sq.get(k, e))
        e.prove_bool(T.and_(inr(x, H.Dx), T.eq(T.add(H.VF(k, x), H.VB(k, x)), mn(H.Dx, lambda w: T.add(H.VF(k, w), H.VB(k, w))))),
                     name + ': state minimises forward plus backward cost, hence lies on an optimal sequence')
    for o in e.explore(at):
        if o.exc:
            e.obl(name + ': states readable', 'unknown', str(o.exc), 'post', '')


@unit('C06', 'viterbi_tf.lemma.paths', [], kind='lemma')
def lem(e):
    path_lemmas(e)


def composite(e, name, parF, parB):
    """callee contracts: forward pass (values and attaining tables), backward pass (path back from a best final state)"""
    H = HMM(e, 'tf')
    e.facts.append(forall(H.T, lambda k: forall(H.Dx, lambda z: T.and_(inr(bk(k, z), H.Dx),
                   T.eq(T.add(H.VF(k, bk(k, z)), H.psi(k, bk(k, z), z)), H.VF(T.add(k, 1), z))))))
    xT = argmn(H.Dx, lambda x: H.VF(H.T, x))
    back_path(e, H, xT)
    pre = list(H.tens()) + [H.ys()]

    def same(it, a, w, lab):
        it.e.check_eq(a, w, lab, 'pre')

    def limit(it, rest, kw):
        mp = rest[0] if rest else kw.get('max_parallel', 10000)
        it.e.require_h(T.le(H.T, T.L(S.lower(mp))), 'callee precondition: the horizon fits the parallelism limit', 'pre')

    def fw(par):
        def h(it, cl, args, kw):
            for a, w, lab in zip(args[:4], pre, ('prior', 'transition', 'emission', 'observations')):
                same(it, a, w, 'callee precondition: forward pass is given the model (%s)' % lab)
            if par:
                limit(it, args[4:], kw)
            return (tf_((H.T, H.Dx), bk, 'i'), VFt(H))
        return h

    def bw(par):
        def h(it, cl, args, kw):
            same(it, args[0], tf_((H.T, H.Dx), bk, 'i'), 'callee precondition: backward pass is given the predecessor tables')
            same(it, args[1], tf_((H.Dx,), lambda x: H.VF(H.T, x)), 'callee precondition: backward pass is given the final values')
            if par:
                limit(it, args[2:], kw)
            return tf_((T.add(H.T, 1),), xp, 'i')
        return h
    for nm, h in (('viterbi_seq_forwardpass', fw(False)), ('viterbi_par_forwardpass', fw(True)),
                  ('viterbi_seq_backwardpass', bw(False)), ('viterbi_par_backwardpass', bw(True))):
        e.contracts[Q + nm] = h
    f = e.func(MOD, name)

    def th():
        r = pair(e, e.call(f, pre), name)
        if r is None:
            return
        e.check_eq(r[1], VFt(H), name + ': reported values are the least costs of the sequences ending in each state')
        check_map(e, H, rows_of(e, r[0]).seq, name)
    return th


def check_map(e, H, sq, name):
    e.prove_bool(T.eq(sq.length(), T.add(H.T, 1)), name + ': one state per time')
    k = T.fresh('k', I)

    def at():
        e.assume(inr(k, H.T))
        x, z = term1(sq.get(k, e)), term1(sq.get(T.add(k, 1), e))
        e.prove_bool(T.and_(inr(x, H.Dx), inr(z, H.Dx)), name + ': states in range')
        e.prove_bool(T.eq(H.VF(T.add(k, 1), z), T.add(H.VF(k, x), H.psi(k, x, z))), name + ': every step attains the forward value (time order)')
        w = term1(sq.get(H.T, e))
        e.prove_bool(T.eq(H.VF(H.T, w), mn(H.Dx, lambda v: H.VF(H.T, v))), name + ': the sequence ends in a best final state')
    for o in e.explore(at):
        if o.exc:
            e.obl(name + ': states readable', 'unknown', str(o.exc), 'post', '')


for nm, a, b in (('viterbi_seq_fwbw', 0, 0), ('viterbi_par_fwbw', 1, 1), ('viterbi_seqpar_fwbw', 0, 1)):
    unit('C06', 'viterbi_tf.' + nm, [Q + nm], tf=True)(lambda e, nm=nm, a=a, b=b: composite(e, nm, a, b))


@unit('C06', 'viterbi_tf.viterbi_par_fwbwfw', [Q + 'viterbi_par_fwbwfw'], tf=True)
def fbf(e):
    H = HMM(e, 'tf', bwd=True)
    install_levels(e)
    e.templates.append(Template('VFmat', lambda i: tf_((H.Dx, H.Dx), lambda x, z: H.VF(i, z)), [0], (1,)))
    e.templates.append(Template('VBmat', lambda j: tf_((H.Dx, H.Dx), lambda x, z: H.VB(T.sub(H.T, j), x)), [0], (1,)))
    f = e.func(MOD, 'viterbi_par_fwbwfw')

    def th():
        r = pair(e, e.call(f, list(H.tens()) + [H.ys()]), 'viterbi_par_fwbwfw')
        if r:
            check_split(e, H, r[0], 'viterbi_par_fwbwfw')
            e.check_eq(r[1], VFt(H), 'viterbi_par_fwbwfw: values are the least costs of the state sequences ending in each state')
    return th


# ------------------------------------------------------------------ variants through finite-state control
def fsc_variant(name, fb):
    def body(e):
        P = FSCProblem(e, lib='tf')
        P.uncapped = True
        (big_costs_strict if fb else big_costs)(P)
        P.ctl_fact()
        # the callee's law attains the Bellman minimum (contracts of fsc_tf, property C04)
        e.facts.append(forall(P.T, lambda k: forall(P.Dx, lambda x: T.eq(P.Q(k, x, FT.ulaw(k, x)), P.V(k, x)))))
        x0 = P.x0
        e.facts.append(forall(P.Dx, lambda x: T.le(P.V(0, x0), P.V(0, x))))
        W = w_of(P, 1)
        define_w(e, P, 1)
        FT.traj(e, P, FT.ulaw)
        FQ = 'parallel_control.fsc_tf:'
        fs, Ls, LT = FT.tens(P)
        best = []

        def same(it, a, w, lab):
            it.e.check_eq(a, w, 'callee precondition: ' + lab, 'pre')

        def limit(it, rest, kw):
            mp = rest[0] if rest else kw.get('max_parallel', 10000)
            it.e.require_h(T.le(P.T, T.L(S.lower(mp))), 'callee precondition: the horizon fits the parallelism limit', 'pre')

        def x0ok(it, x):
            x = term1(x)
            it.e.prove_bool(T.and_(inr(x, P.Dx), T.eq(P.V(0, x), mn(P.Dx, lambda w: P.V(0, w)))), 'initial state minimises the cost-to-go', 'post')
            it.e.assume(T.eq(x, x0))    # any minimiser may be called x0

        def bwd(par):
            def h(it, cl, args, kw):
                for a, w, lab in zip(args[:3], (fs, Ls, LT), ('dynamics', 'stage cost', 'terminal cost')):
                    same(it, a, w, lab)
                if par:
                    limit(it, args[3:], kw)
                return (FT.ut(P), FT.Vt(P))
            return h

        def fwd(par):
            def h(it, cl, args, kw):
                x0ok(it, args[0])
                same(it, args[1], fs, 'dynamics')
                same(it, args[2], FT.ut(P), 'control law')
                if par:
                    limit(it, args[3:], kw)
                us = tf_((P.T,), lambda k: FT.ulaw(k, FT.xs(k)), 'i')
                xs = tf_((T.add(P.T, 1),), lambda k: FT.xs(k), 'i')
                return (us, xs) if par else (xs, us)
            return h

        def fbp(it, cl, args, kw):
            x0ok(it, args[0])
            for a, w, lab in zip(args[1:5], (fs, Ls, FT.ut(P), FT.Vt(P)), ('dynamics', 'stage cost', 'control law', 'value functions')):
                same(it, a, w, lab)
            limit(it, args[5:], kw)
            xo = lambda k: T.app('xo', (T.L(k),), I)
            e.facts.append(forall(T.add(P.T, 1), lambda k: T.and_(inr(xo(k), P.Dx), T.eq(T.add(W(k, xo(k)), P.V(k, xo(k))), P.V(0, x0)))))
            return (tf_((P.T,), lambda k: FT.ulaw(k, xo(k)), 'i'), tf_((T.add(P.T, 1),), xo, 'i'))
        for nm, h in (('fsc_seq_backwardpass', bwd(False)), ('fsc_par_backwardpass', bwd(True)), ('fsc_seq_forwardpass', fwd(False)),
                      ('fsc_par_forwardpass', fwd(True)), ('fsc_par_fwdbwdpass', fbp)):
            e.contracts[FQ + nm] = h
        f = e.func(MOD, name)

        def th():
            r = pair(e, e.call(f, [fs, Ls, LT]), name)
            if r is None:
                return
            e.check_eq(r[1], tf_((T.add(P.T, 1), P.Dx), lambda k, x: P.V(T.sub(P.T, k), x)), name + ': values in (reversed) time order')
            sq = rows_of(e, r[0]).seq
            e.prove_bool(T.eq(sq.length(), T.add(P.T, 1)), name + ': one state per time')
            k = T.fresh('k', I)

            def at():
                e.assume(inr(k, P.T))
                # time k of the hidden chain is stage T-k of the control problem
                j = T.sub(P.T, T.add(k, 1))
                x, z = term1(sq.get(T.add(k, 1), e)), term1(sq.get(k, e))
                if fb:
                    for i, s in ((j, x), (T.add(j, 1), z)):
                        e.prove_bool(T.and_(inr(s, P.Dx), T.eq(T.add(W(i, s), P.V(i, s)), P.V(0, x0))),
                                     name + ': state lies on an optimal trajectory at the mirrored time')
                else:
                    u = FT.ulaw(j, x)
                    e.prove_bool(T.and_(T.eq(z, P.f(j, x, u)), T.eq(T.add(P.L(j, x, u), P.V(T.add(j, 1), z)), P.V(j, x))),
                                 name + ': consecutive states are one optimal transition apart (reversed time)')
                    e.prove_bool(T.eq(P.V(0, term1(sq.get(P.T, e))), mn(P.Dx, lambda w: P.V(0, w))), name + ': starts the control problem optimally')
            for o in e.explore(at):
                if o.exc:
                    e.obl(name + ': states readable', 'unknown', str(o.exc), 'post', '')
        return th
    return body


for nm, fb in (('viterbi_fsc_seq_bwfw', 0), ('viterbi_fsc_par_bwfw', 0), ('viterbi_fsc_par_bwfwbw', 1)):
    unit('C06', 'viterbi_tf.' + nm, [Q + nm, Q + 'get_viterbi_from_fsc'], tf=True)(fsc_variant(nm, fb))


@unit('C06', 'viterbi_tf.make_viterbi_fsc', [Q + 'make_viterbi_fsc', 'parallel_control.fsc_tf:fsc_np_to_tf'], tf=True)
def mk(e):
    """composition of getFSC (contract: property C05) and the conversion to tensors"""
    H = HMM(e)
    f = e.func(MOD, 'make_viterbi_fsc')
    vn = 'parallel_control.viterbi_np'
    model = e.call(e.load(vn).g.vars['Viterbi_np'], list(H.tens()))
    cost = lambda k, x, u: H.psi(T.sub(T.sub(H.T, 1), k), u, x)
    npa = lambda sh, f, d='f': Arr('fn', sh, f, d, 'np')

    def getfsc(it, cl, args, kw):
        o = args[0]
        for nm, want in zip(('prior', 'Pi', 'Po'), H.tens()):
            it.e.check_eq(o.f[nm], want, 'callee precondition: the model table %s is passed on' % nm, 'pre')
        it.e.check_eq(args[1], H.ys(), 'callee precondition: getFSC is given the observations', 'pre')
        g = lambda fn: PyList(Seq([Seg(H.T, fn)]))
        return e.call(e.load('parallel_control.fsc_np').g.vars['FSC'],
                      [g(lambda k: npa((H.Dx, H.Dx), lambda x, u: u, 'i')), g(lambda k: npa((H.Dx, H.Dx), lambda x, u: cost(k, x, u))),
                       npa((H.Dx,), H.nlp)])
    e.contracts[vn + ':Viterbi_np.getFSC'] = getfsc

    def th():
        r = e.call(f, [model, H.ys()])
        if not (isinstance(r, tuple) and len(r) == 3):
            e.obl('make_viterbi_fsc returns three tensors', 'refuted', '', 'post', 'syntactic')
            return
        e.check_eq(r[0], tf_((H.T, H.Dx, H.Dx), lambda k, x, u: u, 'i'), 'make_viterbi_fsc: the control is the predecessor state')
        e.check_eq(r[1], tf_((H.T, H.Dx, H.Dx), cost), 'make_viterbi_fsc: stage costs in reversed time')
        e.check_eq(r[2], tf_((H.Dx,), H.nlp), 'make_viterbi_fsc: terminal cost is minus the log prior')
    return th

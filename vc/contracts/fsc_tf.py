"""Contracts for fsc_tf.py (C04): TensorFlow finite-state control."""
from .fsc_common import *
from ..runner import unit
from .util import *
from .tf_common import *
from .fsc_np import (xs, ulaw, traj, range_inv, big_costs, big_costs_strict, fb_lemmas, define_w, w_of, W1, goal_total, INF,
                     check_control, term1, inr)
from .. import shims as S

MOD = 'parallel_control.fsc_tf'
Q = MOD + ':'


def tens(P):
    fs = Arr('fn', (P.T, P.Dx, P.Du), lambda k, x, u: P.f(k, x, u), 'i', 'tf')
    Ls = Arr('fn', (P.T, P.Dx, P.Du), lambda k, x, u: P.L(k, x, u), 'f', 'tf')
    LT = Arr('fn', (P.Dx,), lambda x: P.LT(x), 'f', 'tf')
    return fs, Ls, LT


def ut(P):
    return Arr('fn', (P.T, P.Dx), lambda k, x: ulaw(k, x), 'i', 'tf')


def Vt(P):
    return Arr('fn', (T.add(P.T, 1), P.Dx), lambda k, x: P.V(k, x), 'f', 'tf')


def rows_list(e, a):
    """the rows of a tensor as a list value"""
    return PyList(A.rows(e, a))


def pair(e, r, what):
    if not (isinstance(r, tuple) and len(r) == 2 and all(isinstance(x, Arr) for x in r)):
        e.obl(what + ' returns two tensors', 'refuted', repr(r)[:200], 'post', 'syntactic')
        return None
    return r


def check_bwd(e, P, r, what):
    if pair(e, r, what) is None:
        return
    us, Vs = r
    check_control(e, P, rows_list(e, us), what)
    e.check_eq(Vs, Vt(P), what + ': value functions satisfy the Bellman recursion')


def frame_t(e, ts, what):
    e.obl('frame: %s leaves its tensors unchanged' % what, 'proved' if all(a.data is d for a, d in ts) else 'unknown', '', 'frame', 'syntactic')


@unit('C04', 'fsc_tf.fsc_seq_backwardpass', [Q + 'fsc_seq_backwardpass'], tf=True)
def s1(e):
    P = FSCProblem(e, lib='tf')
    e.templates.append(Template('V', lambda i: P.Varr(i), [P.T], (-1,)))
    f = e.func(MOD, 'fsc_seq_backwardpass')

    def th():
        check_bwd(e, P, e.call(f, list(tens(P))), 'fsc_seq_backwardpass')
    return th


@unit('C04', 'fsc_tf.fsc_seq_forwardpass', [Q + 'fsc_seq_forwardpass'], tf=True)
def s2(e):
    P = FSCProblem(e, value=False, lib='tf')
    P.ctl_fact()
    traj(e, P, ulaw)
    range_inv(e, P)
    f = e.func(MOD, 'fsc_seq_forwardpass')

    def th():
        r = pair(e, e.call(f, [P.x0, tens(P)[0], ut(P)]), 'fsc_seq_forwardpass')
        if r:
            check_traj_t(e, P, r[1], r[0], 'fsc_seq_forwardpass')
    return th


def check_traj_t(e, P, us, xs_, what):
    e.check_eq(us, Arr('fn', (P.T,), lambda k: ulaw(k, xs(k)), 'i', 'tf'), what + ': controls follow the law at the visited states')
    e.check_eq(xs_, Arr('fn', (T.add(P.T, 1),), lambda k: xs(k), 'i', 'tf'), what + ': states follow the dynamics from the initial state')


def horizon_fits(e, P):
    mp = T.var('max_parallel', I)
    e.pc += [T.le(P.T, mp)]
    install_levels(e)
    return mp


@unit('C04', 'fsc_tf.fsc_par_backwardpass', [Q + 'fsc_par_backwardpass', Q + 'fsc_par_backwardpass_init_most',
      Q + 'fsc_par_backwardpass_init_last', Q + 'fsc_par_comb_V', Q + 'fsc_par_comb_V_rev'], tf=True)
def p1(e):
    P = FSCProblem(e, lib='tf')
    big_costs(P)
    mp = horizon_fits(e, P)
    # reversed time: element j of the reversed scan is the fold of stages T-j .. T
    e.templates.append(Template('Vmat', lambda j: fnarr((P.Dx, P.Dx), lambda x, z: P.V(T.sub(P.T, j), x), lib='tf'), [0], (1,)))
    f = e.func(MOD, 'fsc_par_backwardpass')

    def th():
        check_bwd(e, P, e.call(f, list(tens(P)) + [mp]), 'fsc_par_backwardpass')
    return th


@unit('C04', 'fsc_tf.fsc_par_forwardpass', [Q + 'fsc_par_forwardpass', Q + 'fsc_par_forwardpass_init_first',
      Q + 'fsc_par_forwardpass_init_most', Q + 'fsc_par_comb_f'], tf=True)
def p2(e):
    P = FSCProblem(e, value=False, lib='tf')
    P.ctl_fact()
    traj(e, P, ulaw)
    mp = horizon_fits(e, P)
    e.templates.append(Template('xconst', lambda i: fnarr((P.Dx,), lambda x: xs(i), 'i', 'tf'), [0], (1,)))
    f = e.func(MOD, 'fsc_par_forwardpass')

    def th():
        r = pair(e, e.call(f, [P.x0, tens(P)[0], ut(P), mp]), 'fsc_par_forwardpass')
        if r:
            check_traj_t(e, P, r[0], r[1], 'fsc_par_forwardpass')
    return th


def fb_setup(e):
    P = FSCProblem(e, lib='tf')
    P.uncapped = True
    big_costs_strict(P)
    P.ctl_fact()
    return P


@unit('C04', 'fsc_tf.lemma.fwdbwd', [], kind='lemma')
def l3(e):
    fb_lemmas(e, fb_setup(e), 1)


@unit('C04', 'fsc_tf.fsc_par_fwdbwdpass', [Q + 'fsc_par_fwdbwdpass', Q + 'fsc_par_fwdbwdpass_init_first',
      Q + 'fsc_par_fwdbwdpass_init_most', Q + 'fsc_par_comb_V'], tf=True)
def p3(e):
    P = fb_setup(e)
    W = w_of(P, 1)
    define_w(e, P, 1)
    mp = horizon_fits(e, P)
    e.templates.append(Template('W', lambda i: fnarr((P.Dx, P.Dx), lambda x, z: W1(i, z), lib='tf'), [0], (1,)))
    f = e.func(MOD, 'fsc_par_fwdbwdpass')
    name = 'fsc_par_fwdbwdpass'

    def th():
        fs, Ls, LT = tens(P)
        r = pair(e, e.call(f, [P.x0, fs, Ls, ut(P), Vt(P), mp]), name)
        if r is None:
            return
        us_, xs_ = rows_list(e, r[0]), rows_list(e, r[1])
        e.prove_bool(T.eq(xs_.seq.length(), T.add(P.T, 1)), name + ': one state per time')
        e.prove_bool(T.eq(us_.seq.length(), P.T), name + ': one control per stage')
        k = T.fresh('k', I)

        def at():
            e.assume(T.le(0, k))
            e.assume(T.le(k, P.T))
            x = term1(xs_.seq.get(k, e))
            e.assume(goal_total(P, W, k))
            e.prove_bool(T.and_(inr(x, P.Dx), T.eq(T.add(W(k, x), P.V(k, x)), P.V(0, P.x0))),
                         name + ': state attains the best split cost, hence lies on an optimal trajectory')
            if e.branch(T.lt(k, P.T)):
                u = term1(us_.seq.get(k, e))
                e.prove_bool(T.eq(u, ulaw(k, x)), name + ': control is the given law at that state')
        for oc in e.explore(at):
            if oc.exc:
                e.obl(name + ': results readable', 'unknown', str(oc.exc), 'post', '')
    return th


@unit('C04', 'fsc_tf.fsc_np_to_tf', [Q + 'fsc_np_to_tf'], tf=True)
def c1(e):
    P = FSCProblem(e, value=False)
    f = e.func(MOD, 'fsc_np_to_tf')

    def th():
        o = e.call(e.load('parallel_control.fsc_np').g.vars['FSC'], [seqof(P.T, P.farr), seqof(P.T, P.Larr), P.LTarr()])
        r = e.call(f, [o])
        if not (isinstance(r, tuple) and len(r) == 3):
            e.obl('fsc_np_to_tf returns three tensors', 'refuted', '', 'post', 'syntactic')
            return
        for got, want, nm in zip(r, tens(P), ('dynamics', 'stage cost', 'terminal cost')):
            e.check_eq(got, want, 'fsc_np_to_tf: the %s tensor keeps every entry in order' % nm)
    return th

"""Contracts for fsc_np.py (C02 sequential, C03 parallel)."""
from .fsc_common import *
from ..runner import unit
from . import scan_contract
from .util import *
from ..shims import term

MOD = 'parallel_control.fsc_np'
Q = MOD + ':'


def obj(e, P):
    cls = e.load(MOD).g.vars['FSC']
    o = e.call(cls, [seqof(P.T, P.farr), seqof(P.T, P.Larr), P.LTarr()])
    o.f['gamma'] = P.g
    return o


def check_control(e, P, u_list, what):
    """every control law entry is in range and attains the Bellman minimum"""
    if not isinstance(u_list, PyList):
        e.obl(what + ' returns a list of control laws', 'refuted', '', 'post', '')
        return
    n = u_list.seq.length()
    e.prove_bool(T.eq(n, P.T), what + ': one control law per stage')
    k, x = T.fresh('k', I), T.fresh('x', I)

    def th():
        e.assume(inr(k, P.T))
        e.assume(inr(x, P.Dx))
        a = u_list.seq.get(k, e)
        ok = isinstance(a, Arr) and a.ndim == 1 and e.dim_eq(a.shape[0], P.Dx)
        e.obl(what + ': control law has one entry per state', 'proved' if ok else 'unknown', repr(a)[:200], 'post', 'shape')
        if not ok:
            return
        u = A.lift_fn(a).data(x)
        e.prove_bool(inr(u, P.Du), what + ': control in range')
        e.prove_bool(T.eq(P.Q(k, x, u), P.V(k, x)), what + ': control attains the least cost-to-go')
    for o in e.explore(th):
        if o.exc:
            e.obl(what + ': control law readable', 'unknown', str(o.exc), 'post', '')


def vlist(P):
    return seqof(T.add(P.T, 1), P.Varr)


def sbp(e, **kw):
    P = FSCProblem(e, **kw)
    o = obj(e, P)
    e.templates.append(Template('V', lambda i: P.Varr(i), [P.T, 0], (-1, 1)))

    def th():
        fr = frame_of(o)
        r = e.call(meth(e, o, 'seqBackwardPass'), [])
        check_control(e, P, r[0], 'seqBackwardPass')
        e.check_eq(r[1], vlist(P), 'seqBackwardPass: value functions satisfy the Bellman recursion')
        check_frame(e, o, fr, 'seqBackwardPass')
    return th


@unit('C02', 'fsc_np.FSC.seqBackwardPass[discounted, real costs]', [Q + 'FSC.seqBackwardPass'])
def u1(e):
    return sbp(e, gamma=True)


@unit('C02', 'fsc_np.FSC.seqBackwardPass[integer stage costs, real terminal cost]', [Q + 'FSC.seqBackwardPass'])
def u1b(e):
    return sbp(e, Ldt='i')


# ------------------------------------------------------------------ forward pass, simulation, cost
def xs(k):
    return T.app('xs', (T.L(k),), I)


def us(k):
    return T.app('us', (T.L(k),), I)


def traj(e, P, law):
    """x(0) = x0, x(k+1) = f(k, x(k), law(k, x(k))); the law is admissible"""
    def inst(k):
        k1 = T.sub(k, 1)
        return [T.implies(T.eq(k, 0), T.eq(xs(k), P.x0)),
                T.implies(inr(k1, P.T), T.eq(xs(k), P.f(k1, xs(k1), law(k1, xs(k1))))),
                T.implies(inr(k, T.add(P.T, 1)), inr(xs(k), P.Dx))]
    e.inst['xs'] = inst
    e.templates.append(Template('xs', lambda i: xs(i), [0], (1,)))


def ulaw(k, x):
    return T.app('ul', (T.L(k), T.L(x)), I)


def ulist(P):
    return seqof(P.T, P.ctl)


def check_traj(e, P, r, law, what):
    if not (isinstance(r, tuple) and len(r) == 2 and all(isinstance(x, PyList) for x in r)):
        e.obl(what + ' returns controls and states', 'refuted', '', 'post', '')
        return
    e.check_eq(r[0], seqof(P.T, lambda k: law(k, xs(k))), what + ': controls follow the law at the visited states')
    e.check_eq(r[1], seqof(T.add(P.T, 1), lambda k: xs(k)), what + ': states follow the dynamics from the initial state')


def fwd_setup(e):
    P = FSCProblem(e, value=False)
    P.ctl_fact()
    traj(e, P, ulaw)
    return P, obj(e, P)


def range_inv(e, P):
    """well-definedness of the trajectory: in range by induction"""
    k = T.fresh('k', I)

    def th():
        e.assume(inr(k, P.T))
        sav, e.inst = e.inst, {'xs': lambda k: [T.implies(inr(T.sub(k, 1), P.T),
                               T.eq(xs(k), P.f(T.sub(k, 1), xs(T.sub(k, 1)), ulaw(T.sub(k, 1), xs(T.sub(k, 1))))))]}
        e.assume(inr(xs(k), P.Dx))
        e.prove_bool(inr(xs(T.add(k, 1)), P.Dx), 'lemma: trajectory stays in the state range (induction step)', 'lemma')
        e.inst = sav
    e.explore(th)


@unit('C02', 'fsc_np.FSC.seqForwardPass', [Q + 'FSC.seqForwardPass'])
def u2(e):
    P, o = fwd_setup(e)
    range_inv(e, P)

    def th():
        fr = frame_of(o)
        check_traj(e, P, e.call(meth(e, o, 'seqForwardPass'), [P.x0, ulist(P)]), ulaw, 'seqForwardPass')
        check_frame(e, o, fr, 'seqForwardPass')
    return th


@unit('C02', 'fsc_np.FSC.seqSimulation', [Q + 'FSC.seqSimulation'])
def u3(e):
    P = FSCProblem(e, value=False)
    e.facts.append(forall(P.T, lambda k: inr(us(k), P.Du)))
    traj(e, P, lambda k, x: us(k))
    o = obj(e, P)

    def th():
        fr = frame_of(o)
        r = e.call(meth(e, o, 'seqSimulation'), [P.x0, seqof(P.T, us)])
        e.check_eq(r, seqof(T.add(P.T, 1), lambda k: xs(k)), 'seqSimulation: states follow the dynamics under the controls')
        check_frame(e, o, fr, 'seqSimulation')
    return th


@unit('C02', 'fsc_np.FSC.cost', [Q + 'FSC.cost'])
def u4(e):
    P = FSCProblem(e, value=False)
    e.facts.append(forall(P.T, lambda k: inr(us(k), P.Du)))
    e.facts.append(forall(T.add(P.T, 1), lambda k: inr(xs(k), P.Dx)))
    o = obj(e, P)
    # partial sums: c(0) = LT(x(T)), c(k+1) = c(k) + L(k, x(k), u(k))
    C = lambda k: T.app('cost', (T.L(k),), R)

    def inst(k):
        k1 = T.sub(k, 1)
        return [T.implies(T.eq(k, 0), T.eq(C(k), P.LT(xs(P.T)))),
                T.implies(inr(k1, P.T), T.eq(C(k), T.add(C(k1), P.L(k1, xs(k1), us(k1)))))]
    e.inst['cost'] = inst
    e.templates.append(Template('cost', C, [0], (1,)))

    def th():
        r = e.call(meth(e, o, 'cost'), [seqof(T.add(P.T, 1), xs), seqof(P.T, us)])
        e.check_eq(r, C(P.T), 'cost: terminal cost plus the sum of all stage costs')
    return th


@unit('C02', 'fsc_np.lemma.optimality', [], kind='lemma')
def l1(e):
    """V(k, x) is the least discounted cost over all control sequences: J_u(k) >= V(k, x_u(k)) for every admissible
    sequence u, with equality when every control attains the Bellman minimum (backward induction on k)"""
    P = FSCProblem(e)
    g = T.var('gamma', R)
    e.pc.append(T.le(0, g))
    k, J1, x, u, V1, V0 = T.var('k', I), T.var('J1', R), T.var('x', I), T.var('u', I), T.var('V1', R), T.var('V0', R)
    Lk = T.var('Lk', R)
    # any real numbers with J1 >= V1 (inductive hypothesis) and V0 <= Lk + g V1 (V0 is a minimum over controls)
    e.pc += [T.le(V1, J1), T.le(V0, T.add(Lk, T.mul(g, V1)))]
    e.prove_bool(T.le(V0, T.add(Lk, T.mul(g, J1))), 'lemma (induction step): cost-to-go is a lower bound', 'lemma')
    e.pc += [T.eq(J1, V1), T.eq(V0, T.add(Lk, T.mul(g, V1)))]
    e.prove_bool(T.eq(V0, T.add(Lk, T.mul(g, J1))), 'lemma (induction step): attained by the minimising controls', 'lemma')
    e.pc += [inr(k, P.T), inr(x, P.Dx), inr(u, P.Du)]
    e.prove_bool(T.le(P.V(k, x), P.Q(k, x, u)), 'lemma: value is a lower bound of every action value', 'lemma')
    a = argmn(P.Du, lambda w: P.Q(k, x, w))
    e.prove_bool(T.and_(inr(a, P.Du), T.eq(P.V(k, x), P.Q(k, x, a))), 'lemma: the minimum is attained', 'lemma')


# ------------------------------------------------------------------ C03: parallel passes
INF = T.const(10 ** 20, R)


def big_costs(P):
    """the sentinel 1e20 acts as infinity: no admissible cost-to-go reaches it"""
    P.e.facts.append(forall(P.T, lambda k: forall(P.Dx, lambda x: forall(P.Du, lambda u: forall(P.Dx, lambda y:
                     T.le(P.Q(k, x, u), T.add(INF, P.V(T.add(k, 1), y))))))))
    getattr(P.e, 'assumptions', None) or setattr(P.e, 'assumptions', [])
    P.e.assumptions.append('costs stay below the sentinel used for infinity (1e20)')


@unit('C03', 'fsc_np.FSC.parBackwardPass', [Q + 'FSC.parBackwardPass', Q + 'FSC.parBackwardPass_init',
      Q + 'FSC.parBackwardPass_extract', Q + 'par_backward_pass_scan', Q + 'combine_V'])
def p1(e):
    scan_contract.install(e)
    P = FSCProblem(e)
    big_costs(P)
    o = obj(e, P)
    e.templates.append(Template('Vmat', lambda i: fnarr((P.Dx, P.Dx), lambda x, z: P.V(i, x)), [P.T], (-1,)))

    def th():
        fr = frame_of(o)
        r = e.call(meth(e, o, 'parBackwardPass'), [])
        check_control(e, P, r[0], 'parBackwardPass')
        e.check_eq(r[1], vlist(P), 'parBackwardPass: value functions equal the Bellman solution')
        check_frame(e, o, fr, 'parBackwardPass')
    return th


@unit('C03', 'fsc_np.FSC.parForwardPass', [Q + 'FSC.parForwardPass', Q + 'FSC.parForwardPass_init',
      Q + 'FSC.parForwardPass_extract', Q + 'par_forward_pass_scan', Q + 'combine_f'])
def p2(e):
    scan_contract.install(e)
    P, o = fwd_setup(e)
    e.templates.append(Template('xconst', lambda i: fnarr((P.Dx,), lambda x: xs(i), 'i'), [0], (1,)))

    def th():
        fr = frame_of(o)
        check_traj(e, P, e.call(meth(e, o, 'parForwardPass'), [P.x0, ulist(P)]), ulaw, 'parForwardPass')
        check_frame(e, o, fr, 'parForwardPass')
    return th


# ------------------------------------------------------------------ forward-backward passes
def stage_cost(P, k, y, z):
    """least stage cost of moving from y to z at stage k (sentinel when impossible)"""
    r = mn(P.Du, lambda u: T.ite(T.eq(P.f(k, y, u), z), P.L(k, y, u), INF))
    return r if getattr(P, 'uncapped', False) else T.min2(INF, r)


def W1(k, z):
    return T.app('W1', (T.L(k), T.L(z)), R)


def M2(k, x, z):
    return T.app('M2', (T.L(k), T.L(x), T.L(z)), R)


def reach(k, z, c):
    """there are admissible controls for stages 0..k-1 leading from x0 to z with total stage cost c"""
    return T.app('reach', (T.L(k), T.L(z), c), T.BOOL)


def big_costs_strict(P):
    e = P.e
    e.facts.append(forall(P.T, lambda k: forall(P.Dx, lambda x: forall(P.Du, lambda u: forall(P.Dx, lambda y:
                   T.lt(P.Q(k, x, u), T.add(INF, P.V(T.add(k, 1), y))))))))
    e.facts.append(forall(P.Dx, lambda y: T.lt(P.V(0, P.x0), T.add(INF, P.V(0, y)))))
    e.assumptions = getattr(e, 'assumptions', []) + ['costs stay below the sentinel used for infinity (1e20)']


def w_of(P, which):
    """W(k, z): the prefix (least cost of reaching z) computed by the pass; defined for k >= start"""
    if which == 1:
        return lambda k, z: W1(k, z)
    return lambda k, z: M2(k, P.x0, z)


def define_w(e, P, which):
    if which == 1:
        def inst(k, z):
            k1 = T.sub(k, 1)
            return [T.implies(T.and_(T.eq(k, 0), inr(z, P.Dx)), T.eq(W1(k, z), T.ite(T.eq(z, P.x0), T.const(0, R), INF))),
                    T.implies(T.and_(inr(k1, P.T), inr(z, P.Dx)), T.eq(W1(k, z),
                              mn(P.Dx, lambda y: T.add(W1(k1, y), stage_cost(P, k1, y, z)))))]
        e.inst['W1'] = inst
    else:
        def inst(k, x, z):
            k1 = T.sub(k, 1)
            return [T.implies(T.and_(T.eq(k, 1), inr(x, P.Dx), inr(z, P.Dx)), T.eq(M2(k, x, z), stage_cost(P, k1, x, z))),
                    T.implies(T.and_(T.lt(1, k), T.le(k, P.T), inr(x, P.Dx), inr(z, P.Dx)), T.eq(M2(k, x, z),
                              mn(P.Dx, lambda y: T.add(M2(k1, x, y), stage_cost(P, k1, y, z)))))]
        e.inst['M2'] = inst


def lemma_value(e, P):
    """V(k, y) = min over successors z of stage_cost(k, y, z) + V(k+1, z); attained only by real transitions"""
    k, y, z = T.fresh('k', I), T.fresh('y', I), T.fresh('z', I)
    def th():
        e.assume(inr(k, P.T))
        e.assume(inr(y, P.Dx))
        k1 = T.add(k, 1)
        e.prove_bool(T.eq(mn(P.Dx, lambda w: T.add(stage_cost(P, k, y, w), P.V(k1, w))), P.V(k, y)),
                     'lemma: value is the minimum over successor states', 'lemma')
        e.assume(inr(z, P.Dx))
        e.assume(T.eq(P.V(k, y), T.add(stage_cost(P, k, y, z), P.V(k1, z))))
        e.prove_bool(exists(P.Du, lambda u: T.and_(T.eq(P.f(k, y, u), z), T.eq(P.L(k, y, u), stage_cost(P, k, y, z)))),
                     'lemma: an optimal successor is reached by some control at that stage cost', 'lemma')
    e.explore(th)


def value_facts(e, P):
    e.facts.append(forall(P.T, lambda k: forall(P.Dx, lambda y: T.eq(
        mn(P.Dx, lambda w: T.add(stage_cost(P, k, y, w), P.V(T.add(k, 1), w))), P.V(k, y)))))


def total(P, W, k):
    return mn(P.Dx, lambda z: T.add(W(k, z), P.V(k, z)))


def goal_total(P, W, k):
    return T.eq(total(P, W, k), P.V(0, P.x0))


def goal_reach(P, W, k, z):
    return T.implies(T.and_(inr(z, P.Dx), T.eq(T.add(W(k, z), P.V(k, z)), P.V(0, P.x0))), reach(k, z, W(k, z)))


def fb_lemmas(e, P, which):
    W = w_of(P, which)
    define_w(e, P, which)
    lemma_value(e, P)
    k, z, y, u = T.fresh('k', I), T.fresh('z', I), T.fresh('y', I), T.fresh('u', I)
    start = 0 if which == 1 else 1
    V0 = P.V(0, P.x0)

    def base():
        s0 = T.fresh('s', I)
        # s0 stands for time 0: only the instances at time 0 of the definitions are assumed about it
        e.assume(inr(s0, P.T))
        s = T.add(s0, start)
        x0 = P.x0
        if which == 1:
            e.facts.append(forall(P.Dx, lambda z_: T.eq(W(s0, z_), T.ite(T.eq(z_, x0), T.const(0, R), INF))))
            e.facts.append(forall(P.Dx, lambda y: T.lt(P.V(s0, x0), T.add(INF, P.V(s0, y)))))
        else:
            e.facts.append(forall(P.Dx, lambda z_: T.eq(W(s, z_), stage_cost(P, s0, x0, z_))))
        e.inst = {}
        V0 = P.V(s0, x0)
        e.assume(T.eq(mn(P.Dx, lambda w: T.add(stage_cost(P, s0, x0, w), P.V(T.add(s0, 1), w))), P.V(s0, x0)))
        e.prove_bool(T.eq(total(P, W, s), V0), 'lemma (induction base): best split cost is the optimal cost', 'lemma')
        e.assume(inr(z, P.Dx))
        e.assume(T.eq(T.add(W(s, z), P.V(s, z)), V0))
        if which == 1:
            e.prove_bool(T.and_(T.eq(z, P.x0), T.eq(W(s, z), 0)),
                         'lemma (induction base): an optimal state at time 0 is the initial state at cost zero', 'lemma')
        else:
            u = argmn(P.Du, lambda u: T.ite(T.eq(P.f(s0, P.x0, u), z), P.L(s0, P.x0, u), INF))
            e.prove_bool(T.eq(W(s, z), stage_cost(P, s0, x0, z)), 'lemma: first prefix is the stage cost', 'lemma')
            e.assume(T.eq(W(s, z), stage_cost(P, s0, x0, z)))
            e.prove_bool(T.and_(inr(u, P.Du), T.eq(P.f(s0, P.x0, u), z), T.eq(P.L(s0, P.x0, u), W(s, z))),
                         'lemma (induction base): an optimal state at time 1 is one transition away', 'lemma')
    inst = e.inst
    e.explore(base)
    e.inst = inst

    def step():
        e.assume(T.le(start, k))
        e.assume(T.lt(k, P.T))
        k1 = T.add(k, 1)
        e.assume(goal_total(P, W, k))
        # swapping the two minima, both directions
        value = T.eq(P.V(k, y), mn(P.Dx, lambda w: T.add(stage_cost(P, k, y, w), P.V(k1, w))))
        e.facts.append(forall(P.Dx, lambda y_: T.subst(value, {y: y_})))
        e.facts.append(forall(P.Dx, lambda z_: e.inst['W1'](k1, z_)[1] if which == 1 else e.inst['M2'](k1, P.x0, z_)[1]))
        e.prove_bool(goal_total(P, W, k1), 'lemma (induction step): best split cost is preserved', 'lemma')
        # an optimal state at k+1 has an optimal predecessor
        e.assume(inr(z, P.Dx))
        e.assume(T.eq(T.add(W(k1, z), P.V(k1, z)), V0))
        best = argmn(P.Dx, lambda y_: T.add(W(k, y_), stage_cost(P, k, y_, z)))
        e.prove_bool(T.and_(inr(best, P.Dx), T.eq(T.add(W(k, best), P.V(k, best)), V0),
                            T.eq(P.V(k, best), T.add(stage_cost(P, k, best, z), P.V(k1, z))),
                            T.eq(W(k1, z), T.add(W(k, best), stage_cost(P, k, best, z)))),
                     'lemma (induction step): an optimal state has an optimal predecessor', 'lemma')
    e.explore(step)


def fb_setup(e, which):
    P = FSCProblem(e)
    big_costs_strict(P)
    P.ctl_fact()
    return P


@unit('C03', 'fsc_np.lemma.fwdbwd', [], kind='lemma')
def l3(e):
    fb_lemmas(e, fb_setup(e, 1), 1)


@unit('C03', 'fsc_np.lemma.fwdbwd2', [], kind='lemma')
def l4(e):
    fb_lemmas(e, fb_setup(e, 2), 2)


def fb_pass(e, which, name):
    scan_contract.install(e)
    P = fb_setup(e, which)
    W = w_of(P, which)
    define_w(e, P, which)
    if which == 1:
        e.templates.append(Template('W', lambda i: fnarr((P.Dx, P.Dx), lambda x, z: W1(i, z)), [0], (1,)))
    else:
        e.templates.append(Template('M', lambda i: fnarr((P.Dx, P.Dx), lambda x, z: M2(i, x, z)), [1], (1,)))
    o = obj(e, P)
    start = 0 if which == 1 else 1

    def th():
        fr = frame_of(o)
        r = e.call(meth(e, o, name), [P.x0, ulist(P), vlist(P)])
        if not (isinstance(r, tuple) and len(r) == 2 and all(isinstance(x, PyList) for x in r)):
            e.obl(name + ' returns controls and states', 'refuted', '', 'post', '')
            return
        us_, xs_ = r
        e.prove_bool(T.eq(xs_.seq.length(), T.add(P.T, 1)), name + ': one state per time')
        e.prove_bool(T.eq(us_.seq.length(), P.T), name + ': one control per stage')
        k = T.fresh('k', I)

        def at():
            e.assume(T.le(0, k))
            e.assume(T.le(k, P.T))
            x = xs_.seq.get(k, e)
            x = term1(x)
            # lemma (unit fwdbwd): best split cost is the optimal cost
            split = T.and_(inr(x, P.Dx), T.eq(T.add(W(k, x), P.V(k, x)), P.V(0, P.x0)))
            if e.branch(T.le(start, k)):
                e.assume(goal_total(P, W, k))
                e.prove_bool(split, name + ': state attains the best split cost, hence lies on an optimal trajectory')
            else:
                e.prove_bool(T.eq(x, P.x0), name + ': first state is the initial state')
            if e.branch(T.lt(k, P.T)):
                u = term1(us_.seq.get(k, e))
                e.prove_bool(T.eq(u, ulaw(k, x)), name + ': control is the given law at that state')
        for oc in e.explore(at):
            if oc.exc:
                e.obl(name + ': results readable', 'unknown', str(oc.exc), 'post', '')
        check_frame(e, o, fr, name)
    return th


def term1(x):
    if isinstance(x, T.Term):
        return x
    if isinstance(x, int):
        return T.const(x)
    if isinstance(x, Arr) and x.ndim == 0:
        return A.lift_fn(x).data()
    raise Unsupported('scalar expected')


@unit('C03', 'fsc_np.FSC.parFwdBwdPass', [Q + 'FSC.parFwdBwdPass', Q + 'FSC.parFwdBwdPass_init',
      Q + 'FSC.parFwdBwdPass_extract', Q + 'par_fwdbwd_pass_scan', Q + 'combine_V'])
def p3(e):
    return fb_pass(e, 1, 'parFwdBwdPass')


@unit('C03', 'fsc_np.FSC.parFwdBwdPass2', [Q + 'FSC.parFwdBwdPass2', Q + 'FSC.parFwdBwdPass2_init',
      Q + 'FSC.parFwdBwdPass2_extract', Q + 'par_fwdbwd_pass_scan', Q + 'combine_V'])
def p4(e):
    return fb_pass(e, 2, 'parFwdBwdPass2')


def batch_unit(steps, nu):
    @unit('C02', 'fsc_np.FSC.batch_solution[%d stages, %d controls]' % (steps, nu), [Q + 'FSC.batch_solution'], kind='bounded')
    def u(e):
        import itertools
        e.peel = True
        P = FSCProblem(e, value=False)
        P.T, P.Du = T.const(steps), T.const(nu)
        for k, u in itertools.product(range(steps), range(nu)):
            e.facts.append(forall(P.Dx, lambda x: inr(P.f(k, x, u), P.Dx)))
        o = obj(e, P)

        def path(us):
            x, c, xs = P.x0, T.const(0, R), [P.x0]
            for k, u in enumerate(us):
                c = T.add(c, P.L(k, x, u))
                x = P.f(k, x, u)
                xs.append(x)
            return xs, T.add(c, P.LT(x))

        def th():
            fr = frame_of(o)
            r = e.call(meth(e, o, 'batch_solution'), [P.x0])
            ok = isinstance(r, tuple) and len(r) == 3 and all(isinstance(x, PyList) and x.seq.concrete() is not None for x in r[:2])
            if not ok:
                return e.obl('batch_solution returns controls, states and the cost', 'unknown', repr(r)[:80], 'post', '')
            ul, xl, c = r[0].seq.concrete(), r[1].seq.concrete(), T.toreal(term(r[2]))
            e.prove_bool(T.eq(T.const(len(ul)), steps), 'batch_solution: one control per stage')
            xs, want = path(ul)
            for u in ul:
                e.prove_bool(inr(T.L(u), nu), 'batch_solution: controls in range')
            e.prove_bool(T.eq(T.const(len(xl)), steps + 1), 'batch_solution: one state per stage and the last one')
            for p, q in zip(xl, xs):
                e.prove_bool(T.eq(T.L(p), q), 'batch_solution: states follow the dynamics')
            e.prove_bool(T.eq(c, want), 'batch_solution: reported cost is the cost of the trajectory')
            for us in itertools.product(range(nu), repeat=steps):
                e.prove_bool(T.le(c, path([T.const(u) for u in us])[1]), 'batch_solution: no control sequence is cheaper')
            check_frame(e, o, fr, 'batch_solution')
        return th


for _s, _n in ((1, 1), (1, 3), (2, 2), (3, 1)):
    batch_unit(_s, _n)

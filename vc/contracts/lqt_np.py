"""Contracts for lqt_np.py (properties C07 sequential, C08 parallel)."""
from .lqt_common import *
from ..runner import unit
from . import scan_contract
from .util import *

MOD = 'parallel_control.lqt_np'
Q = MOD + ':'


def check_value_lists(e, P, r, what):
    T1 = T.add(P.T, 1)
    if not (isinstance(r, tuple) and len(r) == 4):
        e.obl(what + ' returns four lists', 'refuted', '', 'post', '')
        return
    for nm, val, sp, ln in zip(('gain', 'offset', 'value matrix', 'value vector'), r, (P.K, P.d, P.S, P.v),
                               (P.T, P.T, T1, T1)):
        e.check_eq(val, P.seq(sp, ln), '%s: %s list equals the Bellman solution at every step' % (what, nm))


@unit('C07', 'lqt_np.LQT.seqBackwardPass', [Q + 'LQT.seqBackwardPass'])
def u1(e):
    P = LQTProblem(e)
    o = P.obj()

    def th():
        fr = frame_of(o)
        check_value_lists(e, P, e.call(meth(e, o, 'seqBackwardPass'), []), 'seqBackwardPass')
        check_frame(e, o, fr, 'seqBackwardPass')
    return th


def traj_specs(e, P, K=None, d=None):
    """closed loop trajectory x(k), u(k) under gains K(k), d(k) (defaults: arbitrary)"""
    n, m = P.n, P.m
    Kat = K or (lambda k: N.of_atom(N.atom('Kg', (m, n), (T.L(k),))))
    dat = d or (lambda k: N.of_atom(N.atom('dg', (m, T.const(1)), (T.L(k),))))

    def bx(eng, k):
        if eng.entails(T.eq(k, 0)):
            return P.x0.data

    def dx(eng, k):
        if not eng.entails(T.lt(0, k)):
            return None
        k1 = T.sub(k, 1)
        F, L, c = P.g('F', k1), P.g('L', k1), P.g('c', k1)
        xk = X.at(k1)
        return ad(mm(F, xk), c, mm(L, sb(dat(k1), mm(Kat(k1), xk))))

    def du(eng, k):
        return sb(dat(k), mm(Kat(k), X.at(k)))
    X = Spec('xs', (n,), dx, recursive=True, pred=lambda k: (T.sub(k, 1),), base=bx)
    U = Spec('us', (m,), du)
    e.specs['xs'] = X
    e.specs['us'] = U
    e.templates.append(Template('x', lambda i: X.arr(i), [0, 1, P.T], (1, -1)))
    return X, U


def gains(P):
    n, m = P.n, P.m
    K = PyList(Seq([Seg(P.T, lambda i: mat_atom('Kg', (m, n), (T.L(i),), lib=P.lib))]))
    d = PyList(Seq([Seg(P.T, lambda i: mat_atom('dg', (m,), (T.L(i),), lib=P.lib))]))
    return K, d


def check_traj(e, P, X, U, r, what):
    if not (isinstance(r, tuple) and len(r) == 2):
        e.obl(what + ' returns controls and states', 'refuted', '', 'post', '')
        return
    e.check_eq(r[0], P.seq(U, P.T), what + ': controls follow the control law at every step')
    e.check_eq(r[1], P.seq(X, T.add(P.T, 1)), what + ': states follow the dynamics at every step')


@unit('C07', 'lqt_np.LQT.seqForwardPass', [Q + 'LQT.seqForwardPass'])
def u2(e):
    P = LQTProblem(e)
    o = P.obj()
    X, U = traj_specs(e, P)
    K, d = gains(P)

    def th():
        fr = frame_of(o)
        check_traj(e, P, X, U, e.call(meth(e, o, 'seqForwardPass'), [P.x0, K, d]), 'seqForwardPass')
        check_frame(e, o, fr, 'seqForwardPass')
    return th


@unit('C07', 'lqt_np.LQT.seqSimulation', [Q + 'LQT.seqSimulation'])
def u3(e):
    P = LQTProblem(e)
    o = P.obj()
    n, m = P.n, P.m

    def bx(eng, k):
        if eng.entails(T.eq(k, 0)):
            return P.x0.data

    def dx(eng, k):
        if not eng.entails(T.lt(0, k)):
            return None
        k1 = T.sub(k, 1)
        return ad(mm(P.g('F', k1), X.at(k1)), P.g('c', k1), mm(P.g('L', k1), N.of_atom(N.atom('ug', (m, T.const(1)), (k1,)))))
    X = Spec('xs', (n,), dx, recursive=True, pred=lambda k: (T.sub(k, 1),), base=bx)
    e.specs['xs'] = X
    e.templates.append(Template('x', lambda i: X.arr(i), [0], (1,)))
    ul = PyList(Seq([Seg(P.T, lambda i: mat_atom('ug', (m,), (T.L(i),)))]))

    def th():
        r = e.call(meth(e, o, 'seqSimulation'), [P.x0, ul])
        e.check_eq(r, P.seq(X, T.add(P.T, 1)), 'seqSimulation: states follow the dynamics at every step')
    return th


@unit('C08', 'lqt_np.LQT.parBackwardPass', [Q + 'LQT.parBackwardPass', Q + 'LQT.parBackwardPass_init',
      Q + 'LQT.parBackwardPass_extract', Q + 'par_backward_pass_scan', Q + 'combine_abcej'])
def u4(e):
    scan_contract.install(e)
    P = LQTProblem(e)
    o = P.obj()

    def th():
        fr = frame_of(o)
        check_value_lists(e, P, e.call(meth(e, o, 'parBackwardPass'), []), 'parBackwardPass')
        check_frame(e, o, fr, 'parBackwardPass')
    return th


@unit('C08', 'lqt_np.LQT.parForwardPass', [Q + 'LQT.parForwardPass', Q + 'LQT.parForwardPass_init',
      Q + 'LQT.parForwardPass_extract', Q + 'par_forward_pass_scan', Q + 'combine_fc'])
def u5(e):
    scan_contract.install(e)
    P = LQTProblem(e)
    o = P.obj()
    X, U = traj_specs(e, P)
    K, d = gains(P)

    def th():
        fr = frame_of(o)
        check_traj(e, P, X, U, e.call(meth(e, o, 'parForwardPass'), [P.x0, K, d]), 'parForwardPass')
        check_frame(e, o, fr, 'parForwardPass')
    return th


def optimal_traj(e, P):
    """optimal closed loop trajectory: gains from the Bellman recursion"""
    return traj_specs(e, P, lambda k: P.K.at(k), lambda k: P.d.at(k))


def opt_inputs(P):
    T1 = T.add(P.T, 1)
    return P.seq(P.K, P.T), P.seq(P.d, P.T), P.seq(P.S, T1), P.seq(P.v, T1)


def relation(P, X, pre, k):
    """x*(k) - (A x0 + b + C (v(k) - S(k) x*(k)))  -- the prefix element maps (x0, costate) to the state"""
    A, b, C = pre
    x = X.at(k)
    lam = sb(P.v.at(k), mm(P.S.at(k), x))
    return sb(x, ad(b, mm(C, lam), mm(A, P.x0.data) if A is not None else N.zero(b.shape)))


def fwdbwd_setup(e, which):
    P = LQTProblem(e)
    X, U = optimal_traj(e, P)
    n = P.n
    one = T.const(1)
    if which == 1:
        first = (N.zero((n, n)), P.x0.data, N.zero((n, n)), N.zero((n, one)), N.zero((n, n)))
        names = ['AP', 'bP', 'CP', 'eP', 'JP']
        sp = prefix_specs(e, P, names, first, T.const(0))
    else:
        first = P.elem(T.const(0))
        names = ['AQ', 'bQ', 'CQ', 'eQ', 'JQ']
        sp = prefix_specs(e, P, names, first, T.const(1))
    return P, X, U, sp


def prefix_at(sp, k, which):
    return [None if (which == 1 and q == 0) else s.at(k) for q, s in enumerate(sp[:3])]


def relation_lemma(e, P, X, sp, which):
    """induction: the relation holds at the first prefix and is preserved by every combination step"""
    start = T.const(0) if which == 1 else T.const(1)
    def rel(k):
        return relation(P, X, prefix_at(sp, k, which), k)

    def base():
        e.prove_zero(rel(start), 'lemma (induction base): prefix element reproduces the optimal state', 'lemma')
    e.explore(base)
    optimality_lemmas(e, P)
    transport_lemma(e, P.n, A0=(which == 1))


def stage_atoms(P, k='k'):
    n, m = P.n, P.m
    S1 = mat_atom('S1', (n, n), sym=True).data
    v1 = mat_atom('v1', (n,)).data
    x = mat_atom('xk', (n,)).data
    return S1, v1, x


def optimality_lemmas(e, P):
    """one optimal step u = -Kx+d from any x against any successor value function (S1, v1) satisfies
    x+ = A x + b + C lam+  and  lam = A' lam+ + eta - J x,  lam = v - S x  (stationarity of the stage Lagrangian)"""
    S1, v1, x = stage_atoms(P)
    k = T.var('k0', T.INT)
    Qxx, Qux, Quu, qx, qu = P.Q(k, S1, v1)
    F, L, c = P.g('F', k), P.g('L', k), P.g('c', k)
    Qi = N.inverse(Quu)
    u = mm(Qi, sb(qu, mm(Qux, x)))
    x1 = ad(mm(F, x), c, mm(L, u))
    lam1 = sb(v1, mm(S1, x1))
    S = sb(Qxx, mm(tr(Qux), Qi, Qux))
    v = sb(qx, mm(tr(Qux), Qi, qu))
    lam = sb(v, mm(S, x))
    # the control is the stationary point of the stage Lagrangian
    Z, U, s, M, H, r = [P.g(q, k) for q in ('Z', 'U', 's', 'M', 'H', 'r')]
    lq = ad(mm(tr(Z), U, s), mm(tr(Z), tr(M), r))
    Lq = mm(tr(Z), tr(M), H)
    W0 = mm(tr(Z), U, Z)
    e.prove_zero(sb(mm(W0, u), ad(lq, mm(tr(L), lam1), N.add(N.zero(lq.shape), mm(Lq, x), -1))),
                 'lemma: optimal control is stationary', 'lemma')
    ua = mat_atom('ua', (P.m,)).data
    l1 = mat_atom('l1', (P.n,)).data
    A, b, C, eta, J = P.elem(k)
    # eliminate the control: from W0 u = lq + L' lam+ - Lq x
    e.eqs.append(('stationarity', sb(mm(W0, ua), sb(ad(lq, mm(tr(L), l1)), mm(Lq, x)))))
    e.prove_zero(sb(ad(mm(F, x), c, mm(L, ua)), ad(mm(A, x), b, mm(C, l1))),
                 'lemma: next state in terms of the next costate', 'lemma')
    grad = sb(ad(mm(tr(H), P.g('X', k), r), mm(tr(H), M, s), mm(tr(F), l1)),
              ad(mm(tr(H), P.g('X', k), H, x), mm(tr(H), M, Z, ua)))
    e.prove_zero(sb(grad, ad(mm(tr(A), l1), sb(eta, mm(J, x)))),
                 'lemma: costate recursion with the control eliminated', 'lemma')
    e.eqs.pop()
    g2 = sb(ad(mm(tr(H), P.g('X', k), r), mm(tr(H), M, s), mm(tr(F), lam1)),
            ad(mm(tr(H), P.g('X', k), H, x), mm(tr(H), M, Z, u)))
    e.prove_zero(sb(lam, g2), 'lemma: value gradient is the costate (envelope theorem)', 'lemma')


def transport_lemma(e, n, A0=False):
    """if (x, lam) is related to (x0) by the prefix element and to (x1, lam1) by the stage element, then (x1, lam1)
    is related to x0 by their combination"""
    def M(nm, sym=False):
        return mat_atom(nm, (n, n), sym=sym).data

    def V(nm):
        return mat_atom(nm, (n,)).data
    pre = (N.zero((n, n)) if A0 else M('pA'), V('pb'), M('pC', True), V('pe'), M('pJ', True))
    el = (M('eA'), V('eb'), M('eC', True), V('ee'), M('eJ', True))
    x0, x, x1, lam1 = V('tx0'), V('tx'), V('tx1'), V('tl1')
    lam = ad(mm(tr(el[0]), lam1), sb(el[3], mm(el[4], x)))
    cmb = combine(pre, el, n)
    e.eqs = [('prefix relation', sb(x, ad(mm(pre[0], x0), pre[1], mm(pre[2], lam)))),
             ('stage relation', sb(x1, ad(mm(el[0], x), el[1], mm(el[2], lam1))))]
    e.prove_zero(sb(x1, ad(mm(cmb[0], x0), cmb[1], mm(cmb[2], lam1))),
                 'lemma (induction step): combination transports the state relation', 'lemma', timeout=60)
    # costate at the initial time (used by version 2)
    l0 = V('tl0')
    e.eqs.append(('prefix costate', sb(l0, ad(mm(tr(pre[0]), lam), sb(pre[3], mm(pre[4], x0))))))
    e.prove_zero(sb(l0, ad(mm(tr(cmb[0]), lam1), sb(cmb[3], mm(cmb[4], x0)))),
                 'lemma: combination eliminates the intermediate state and costate exactly', 'lemma', timeout=60)
    e.eqs = []


def goal_unfold(e, p, names, k):
    def f(a):
        if a.name in names and e.dim_eq(a.idx[0], k):
            return e.specs[a.name].unfold(e, a.idx)
        return None
    return e.map_atoms(p, f)


@unit('C08', 'lqt_np.lemma.fwdbwd-relation', [], kind='lemma')
def l1(e):
    P, X, U, sp = fwdbwd_setup(e, 1)
    relation_lemma(e, P, X, sp, 1)


@unit('C08', 'lqt_np.lemma.fwdbwd2-relation', [], kind='lemma')
def l2(e):
    P, X, U, sp = fwdbwd_setup(e, 2)
    relation_lemma(e, P, X, sp, 2)


def use_relation(e, P, X, sp, start):
    """make the (lemma-proved) relation available for every prefix index that occurs in a goal"""
    e.lemma_eqs.append((sp[2].name, lambda k: relation(P, X, prefix_at(sp, k, 2 - (start is T.const(0))), k)
                        if e.entails(T.and_(T.le(start, k), T.le(k, P.T))) else None))


@unit('C08', 'lqt_np.LQT.parFwdBwdPass', [Q + 'LQT.parFwdBwdPass', Q + 'LQT.parFwdBwdPass_init',
      Q + 'LQT.parFwdBwdPass_extract', Q + 'par_fwdbwd_pass_scan', Q + 'combine_abcej'])
def u6(e):
    scan_contract.install(e)
    P, X, U, sp = fwdbwd_setup(e, 1)
    o = P.obj()
    use_relation(e, P, X, sp, T.const(0))

    def th():
        fr = frame_of(o)
        check_traj(e, P, X, U, e.call(meth(e, o, 'parFwdBwdPass'), [P.x0, *opt_inputs(P)]), 'parFwdBwdPass')
        check_frame(e, o, fr, 'parFwdBwdPass')
    return th


@unit('C08', 'lqt_np.LQT.parFwdBwdPass2', [Q + 'LQT.parFwdBwdPass2', Q + 'LQT.parFwdBwdPass2_init',
      Q + 'LQT.parFwdBwdPass2_extract', Q + 'par_fwdbwd_pass_scan', Q + 'combine_abcej'])
def u7(e):
    scan_contract.install(e)
    P, X, U, sp = fwdbwd_setup(e, 2)
    o = P.obj()
    use_relation(e, P, X, sp, T.const(1))

    def th():
        fr = frame_of(o)
        check_traj(e, P, X, U, e.call(meth(e, o, 'parFwdBwdPass2'), [P.x0, *opt_inputs(P)]), 'parFwdBwdPass2')
        check_frame(e, o, fr, 'parFwdBwdPass2')
    return th


# ------------------------------------------------------------------ cost and value function
def free_traj(P):
    n, m = P.n, P.m
    xl = PyList(Seq([Seg(T.add(P.T, 1), lambda i: mat_atom('xg', (n,), (T.L(i),), lib=P.lib))]))
    ul = PyList(Seq([Seg(P.T, lambda i: mat_atom('ug', (m,), (T.L(i),), lib=P.lib))]))
    return ul, xl


def stage_cost(P, k, x, u):
    X, U, H, r, Z, s, M = [P.g(q, k) for q in ('X', 'U', 'H', 'r', 'Z', 's', 'M')]
    y = sb(mm(H, x), r)
    w = sb(mm(Z, u), s)
    h = N.scale_term(mm(tr(y), X, y), T.const(Fraction(1, 2)))
    return ad(h, N.scale_term(mm(tr(w), U, w), T.const(Fraction(1, 2))), mm(tr(y), M, w))


def terminal_cost(P, x):
    y = sb(mm(P.HT.data, x), P.rT.data)
    return N.scale_term(mm(tr(y), P.XT.data, y), T.const(Fraction(1, 2)))


def cost_spec(e, P):
    n, m = P.n, P.m
    one = T.const(1)
    xa = lambda k: N.of_atom(N.atom('xg', (n, one), (T.L(k),)))
    ua = lambda k: N.of_atom(N.atom('ug', (m, one), (T.L(k),)))

    def base(eng, k):
        if eng.entails(T.eq(k, 0)):
            return terminal_cost(P, xa(P.T))

    def step(eng, k):
        if not eng.entails(T.lt(0, k)):
            return None
        k1 = T.sub(k, 1)
        return ad(C.at(k1), stage_cost(P, k1, xa(k1), ua(k1)))
    C = Spec('Jc', (), step, recursive=True, pred=lambda k: (T.sub(k, 1),), base=base)
    e.specs['Jc'] = C
    e.templates.append(Template('cost', lambda i: C.arr(i), [0], (1,)))
    return C


@unit('C07', 'lqt_np.LQT.cost', [Q + 'LQT.cost'])
def u8(e):
    P = LQTProblem(e)
    o = P.obj()
    C = cost_spec(e, P)
    ul, xl = free_traj(P)

    def th():
        fr = frame_of(o)
        su, sx = ul.seq, xl.seq
        r = e.call(meth(e, o, 'cost'), [ul, xl])
        e.check_eq(r, C.arr(P.T), 'cost equals terminal cost plus the sum of the stage costs')
        check_frame(e, o, fr, 'cost')
        e.obl('frame: cost leaves the trajectory unchanged', 'proved' if ul.seq is su and xl.seq is sx else 'unknown', '', 'frame')
    return th


@unit(('C07', 'C08'), 'lqt_np.lemma.bellman-optimality', [], kind='lemma')
def l3(e):
    """for every state x, every control u and every successor value function V1(y) = y'S1y/2 - v1'y:
    stage cost + V1(Fx+c+Lu) = V(x) + (u - u*)' Quu (u - u*)/2 + terms independent of x and u, u* = -Kx + d.
    Hence with Quu > 0 the Bellman specification used for every pass IS the unique minimiser."""
    P = LQTProblem(e)
    S1, v1, x = stage_atoms(P)
    k = T.var('k0', T.INT)
    u = mat_atom('uk', (P.m,)).data
    Qxx, Qux, Quu, qx, qu = P.Q(k, S1, v1)
    Qi = N.inverse(Quu)
    F, L, c = P.g('F', k), P.g('L', k), P.g('c', k)

    half = T.const(Fraction(1, 2))

    def val(S, v, y):
        return sb(N.scale_term(mm(tr(y), S, y), half), mm(tr(v), y))

    def total(x, u):
        return ad(stage_cost(P, k, x, u), val(S1, v1, ad(mm(F, x), c, mm(L, u))))
    S = sb(Qxx, mm(tr(Qux), Qi, Qux))
    v = sb(qx, mm(tr(Qux), Qi, qu))
    w = sb(u, mm(Qi, sb(qu, mm(Qux, x))))
    rhs = ad(val(S, v, x), N.scale_term(mm(tr(w), Quu, w), half))
    zx, zu = N.zero(x.shape), N.zero(u.shape)
    # constant: the difference at x = 0, u = 0
    w0 = N.Poly({kk: -cc for kk, cc in mm(Qi, qu).d.items()}, u.shape)
    const = sb(total(zx, zu), N.scale_term(mm(tr(w0), Quu, w0), half))
    e.prove_zero(sb(total(x, u), ad(rhs, const)), 'lemma: completing the square (Bellman optimality of gain, offset and value)', 'lemma', timeout=60)
    # Joseph form: S is a sum of squares whenever the stage weight [X M; M' U] and S1 are PSD => induction keeps S PSD
    H, Z, X, U, M = [P.g(q, k) for q in ('H', 'Z', 'X', 'U', 'M')]
    K = mm(Qi, Qux)
    G = sb(F, mm(L, K))
    ZK = mm(Z, K)
    joseph = ad(mm(tr(G), S1, G), mm(tr(H), X, H), mm(tr(ZK), U, ZK))
    cr = mm(tr(H), M, ZK)
    joseph = sb(joseph, ad(cr, tr(cr)))
    e.prove_zero(sb(S, joseph), 'lemma: Joseph form (value matrix is PSD when the weights are)', 'lemma', timeout=60)


# ------------------------------------------------------------------ transformed backward pass (requires Z = I)
@unit('C07', 'lqt_np.LQT.seqTransformedBackwardPass', [Q + 'LQT.seqTransformedBackwardPass', Q + 'LQT.checkAndExpand',
      Q + 'LQT.seqBackwardPass'], timeout=300)
def u9(e):
    P = LQTProblem(e, identZ=True, constp=True)
    o = P.obj()

    def th():
        fr = frame_of(o)
        check_value_lists(e, P, e.call(meth(e, o, 'seqTransformedBackwardPass'), []), 'seqTransformedBackwardPass')
        check_frame(e, o, fr, 'seqTransformedBackwardPass')
    return th


def batch_unit(steps):
    @unit('C07', 'lqt_np.LQT.batchSolution[%d stage%s]' % (steps, 's' if steps > 1 else ''), [Q + 'LQT.batchSolution'], kind='bounded')
    def u(e):
        e.peel = True
        P = LQTProblem(e, constp=True)
        P.T = T.const(steps)
        P.sh['M'] = lambda k: (P.pT, P.m)
        o = P.obj()

        def th():
            fr = frame_of(o)
            r = e.call(meth(e, o, 'batchSolution'), [P.x0])
            if not (isinstance(r, tuple) and len(r) == 2 and all(isinstance(x, PyList) for x in r)):
                return e.obl('batchSolution returns controls and states', 'unknown', repr(r)[:80], 'post', '')
            ul, xl = r
            e.prove_bool(T.eq(ul.seq.length(), steps), 'batchSolution: one control per stage')
            e.prove_bool(T.eq(xl.seq.length(), steps + 1), 'batchSolution: one state per stage and the last one')
            us = [ul.seq.get(T.const(k), e).data for k in range(steps)]
            g = lambda nm, k: P.g(nm, T.const(k))
            x = [P.x0.data]
            for k in range(steps):
                x.append(ad(mm(g('F', k), x[k]), mm(g('L', k), us[k]), g('c', k)))
                e.check_eq(xl.seq.get(T.const(k), e), Arr('mat', (P.n,), x[k]), 'batchSolution: state %d follows the dynamics' % k)
            e.check_eq(xl.seq.get(T.const(steps), e), Arr('mat', (P.n,), x[-1]), 'batchSolution: the last state follows the dynamics')
            # stationarity: lam_k is the gradient of the cost of the stages from k on with respect to x_k
            lam = mm(tr(P.HT.data), P.XT.data, sb(mm(P.HT.data, x[-1]), P.rT.data))
            grads = []
            for k in reversed(range(steps)):
                y, z = sb(mm(g('H', k), x[k]), g('r', k)), sb(mm(g('Z', k), us[k]), g('s', k))
                grads.append((k, ad(mm(tr(g('Z', k)), g('U', k), z), mm(tr(g('Z', k)), tr(g('M', k)), y), mm(tr(g('L', k)), lam))))
                lam = ad(mm(tr(g('H', k)), g('X', k), y), mm(tr(g('H', k)), g('M', k), z), mm(tr(g('F', k)), lam))
            for k, p in grads:
                e.check_eq(Arr('mat', (P.m,), p), Arr('mat', (P.m,), N.zero((P.m, T.const(1)))), 'batchSolution: the cost is stationary in control %d' % k)
            check_frame(e, o, fr, 'batchSolution')
        return th


for _s in (1, 2, 3, 4):
    batch_unit(_s)

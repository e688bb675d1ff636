"""Contracts for the LQR class of lqt_np.py (time invariant regulator)."""
from .lqt_common import *
from .util import *
from ..runner import unit
from . import scan_contract

MOD = 'parallel_control.lqt_np'
Q = MOD + ':'


class LQRProblem:
    def __init__(self, e):
        self.e = e
        i = T.INT
        self.T, self.n, self.m = T.var('T', i), T.var('n', i), T.var('m', i)
        for d in (self.T, self.n, self.m):
            e.pc.append(T.le(1, d))
        n, m = self.n, self.m
        self.F, self.L = mat_atom('F', (n, n)), mat_atom('L', (n, m))
        self.X, self.U = mat_atom('X', (n, n), sym=True), mat_atom('U', (m, m), sym=True)
        self.XT = mat_atom('XT', (n, n), sym=True)
        self.x0 = mat_atom('x0', (n,))

    def obj(self):
        o = Obj(self.e.load(MOD).g.vars['LQR'])
        for nm in ('F', 'L', 'X', 'U', 'XT'):
            o.f[nm] = getattr(self, nm)
        return o

    def riccati(self, S1):
        F, L, X, U = [getattr(self, q).data for q in ('F', 'L', 'X', 'U')]
        Qxx, Qux, Quu = ad(X, mm(tr(F), S1, F)), mm(tr(L), S1, F), ad(U, mm(tr(L), S1, L))
        return sb(Qxx, mm(tr(Qux), N.inverse(Quu), Qux)), mm(N.inverse(Quu), Qux)

    def value_specs(self):
        e, n, m = self.e, self.n, self.m

        def base(eng, k):
            if eng.entails(T.eq(k, self.T)):
                return self.XT.data

        def step(eng, k):
            if not eng.entails(T.lt(k, self.T)):
                return None
            return self.riccati(self.S.at(T.add(k, 1)))[0]
        self.S = Spec('S', (n, n), step, sym=True, recursive=True, pred=lambda k: (T.add(k, 1),), base=base)
        self.K = Spec('K', (m, n), lambda eng, k: self.riccati(self.S.at(T.add(k, 1)))[1])
        for s in (self.S, self.K):
            e.specs[s.name] = s
        e.templates.append(Template('S', lambda i: self.S.arr(i), [self.T, 0], (-1, 1)))

    def seq(self, spec, n):
        return PyList(Seq([Seg(n, lambda i: spec.arr(i))]))


def check_lists(e, P, r, what):
    if not (isinstance(r, tuple) and len(r) == 2):
        e.obl(what + ' returns gains and value matrices', 'refuted', '', 'post', '')
        return
    e.check_eq(r[0], P.seq(P.K, P.T), what + ': gain list equals the Riccati solution at every step')
    e.check_eq(r[1], P.seq(P.S, T.add(P.T, 1)), what + ': value matrix list equals the Riccati solution at every step')


def run_pass(e, name, extra=()):
    P = LQRProblem(e)
    P.value_specs()
    o = P.obj()
    scan_contract.install(e)

    def th():
        fr = frame_of(o)
        check_lists(e, P, e.call(meth(e, o, name), [P.T]), name)
        check_frame(e, o, fr, name)
    return th


@unit('C07', 'lqt_np.LQR.seqBackwardPass', [Q + 'LQR.seqBackwardPass'])
def r1(e):
    return run_pass(e, 'seqBackwardPass')


@unit('C08', 'lqt_np.LQR.parBackwardPass', [Q + 'LQR.parBackwardPass', Q + 'LQR.parBackwardPass_init',
      Q + 'LQR.parBackwardPass_extract', Q + 'par_backward_pass_scan', Q + 'combine_abcej'])
def r2(e):
    return run_pass(e, 'parBackwardPass')


def traj(e, P):
    n, m = P.n, P.m

    def kg(k):
        return N.of_atom(N.atom('Kg', (m, n), (T.L(k),)))

    def base(eng, k):
        if eng.entails(T.eq(k, 0)):
            return P.x0.data

    def step(eng, k):
        if not eng.entails(T.lt(0, k)):
            return None
        k1 = T.sub(k, 1)
        return sb(mm(P.F.data, X.at(k1)), mm(P.L.data, kg(k1), X.at(k1)))
    X = Spec('xs', (n,), step, recursive=True, pred=lambda k: (T.sub(k, 1),), base=base)
    U = Spec('us', (m,), lambda eng, k: N.Poly({w: -c for w, c in mm(kg(k), X.at(k)).d.items()}, (m, T.const(1))))
    e.specs['xs'], e.specs['us'] = X, U
    e.templates.append(Template('x', lambda i: X.arr(i), [0, 1], (1,)))
    K = PyList(Seq([Seg(P.T, lambda i: mat_atom('Kg', (m, n), (T.L(i),)))]))
    return X, U, K


def run_fwd(e, name):
    P = LQRProblem(e)
    o = P.obj()
    X, U, K = traj(e, P)
    scan_contract.install(e)

    def th():
        fr = frame_of(o)
        r = e.call(meth(e, o, name), [P.x0, K])
        if not (isinstance(r, tuple) and len(r) == 2):
            e.obl(name + ' returns controls and states', 'refuted', '', 'post', '')
            return
        e.check_eq(r[0], P.seq(U, P.T), name + ': controls follow the control law')
        e.check_eq(r[1], P.seq(X, T.add(P.T, 1)), name + ': states follow the dynamics')
        check_frame(e, o, fr, name)
    return th


@unit('C07', 'lqt_np.LQR.seqForwardPass', [Q + 'LQR.seqForwardPass'])
def r3(e):
    return run_fwd(e, 'seqForwardPass')


@unit('C08', 'lqt_np.LQR.parForwardPass', [Q + 'LQR.parForwardPass', Q + 'LQR.parForwardPass_init',
      Q + 'LQR.parForwardPass_extract', Q + 'par_forward_pass_scan', Q + 'combine_fc'])
def r4(e):
    return run_fwd(e, 'parForwardPass')


@unit('C07', 'lqt_np.LQR.lqrIter', [Q + 'LQR.lqrIter'])
def r5(e):
    P = LQRProblem(e)
    o = P.obj()
    n = P.n

    def base(eng, k):
        if eng.entails(T.eq(k, 0)):
            return P.X.data

    def step(eng, k):
        return P.riccati(S.at(T.sub(k, 1)))[0] if eng.entails(T.lt(0, k)) else None
    S = Spec('SI', (n, n), step, sym=True, recursive=True, pred=lambda k: (T.sub(k, 1),), base=base)
    e.specs['SI'] = S
    e.templates.append(Template('SI', lambda i: S.arr(i), [0], (1,)))
    it = T.var('iters', T.INT)
    e.pc.append(T.le(1, it))

    def th():
        K, Sv = e.call(meth(e, o, 'lqrIter'), [it])
        e.check_eq(Sv, S.arr(it), 'lqrIter: value matrix is the iterated Riccati map')
        e.check_eq(K, Arr('mat', (P.m, n), P.riccati(S.at(T.sub(it, 1)))[1]), 'lqrIter: gain is the minimiser of the last step')
    return th


@unit('C07', 'lqt_np.LQR.lqrDare', [Q + 'LQR.lqrDare'])
def r_dare(e):
    P = LQRProblem(e)
    o = P.obj()

    def th():
        fr = frame_of(o)
        r = e.call(meth(e, o, 'lqrDare'), [])
        if not (isinstance(r, tuple) and len(r) == 2 and isinstance(r[1], Arr)):
            return e.obl('lqrDare returns a gain and a value matrix', 'unknown', repr(r)[:80], 'post', '')
        K, S = r
        logs = [x for x in getattr(e, 'dares', []) if x[0] == S.data]
        if len(logs) != 1:
            return e.obl('lqrDare: the value matrix is a solution of a Riccati equation', 'unknown', repr(S)[:80], 'post', '')
        s, a, b, q, x = logs[0]
        H = mm(tr(b), s, a)
        known = sb(ad(mm(tr(a), s, a), q), ad(s, mm(tr(H), N.inverse(ad(x, mm(tr(b), s, b))), H)))
        want, gain = P.riccati(s)
        e.check_eq(Arr('mat', (P.n, P.n), sb(want, s)), Arr('mat', (P.n, P.n), known),
                   'lqrDare: the value matrix is a fixed point of the Riccati step of the problem')
        e.check_eq(K, Arr('mat', (P.m, P.n), gain), 'lqrDare: gain is the minimiser at the fixed point')
        check_frame(e, o, fr, 'lqrDare')
    return th


@unit('C08', 'lqt_np.LQR.lqrDouble', [Q + 'LQR.lqrDouble', Q + 'combine_abcej'])
def r6(e):
    P = LQRProblem(e)
    o = P.obj()
    n, m = P.n, P.m
    F, L, X, U = [getattr(P, q).data for q in ('F', 'L', 'X', 'U')]
    Z1 = N.zero((n, T.const(1)))
    el = (F, Z1, mm(L, N.inverse(U), tr(L)), Z1, X)
    names = ['DA', 'DC', 'DJ']
    comp = [0, 2, 4]
    specs = {}

    def at(k):
        return (specs['DA'].at(k), Z1, specs['DC'].at(k), Z1, specs['DJ'].at(k))

    for nm, q in zip(names, comp):
        def base(eng, k, q=q):
            if eng.entails(T.eq(k, 0)):
                return el[q]

        def step(eng, k, q=q):
            if not eng.entails(T.lt(0, k)):
                return None
            k1 = T.sub(k, 1)
            return combine(at(k1), at(k1), n)[q]
        specs[nm] = Spec(nm, (n, n), step, sym=nm != 'DA', recursive=True, pred=lambda k: (T.sub(k, 1),), base=base,
                         family=tuple(names))
        e.specs[nm] = specs[nm]
        e.templates.append(Template(nm, lambda i, nm=nm: specs[nm].arr(i), [0], (1,)))
    it = T.var('iters', T.INT)
    e.pc.append(T.le(0, it))

    def th():
        fr = frame_of(o)
        K, S = e.call(meth(e, o, 'lqrDouble'), [it])
        e.check_eq(S, specs['DJ'].arr(it), 'lqrDouble: value matrix is the J part of the 2^n-fold combination')
        e.check_eq(K, Arr('mat', (m, n), P.riccati(specs['DJ'].at(it))[1]), 'lqrDouble: gain minimises against that value')
        check_frame(e, o, fr, 'lqrDouble')
    return th


@unit('C08', 'lqt_np.lemma.doubling', [Q + 'combine_abcej'], kind='lemma')
def r7(e):
    """the real combine_abcej is associative, combining one step with a value function is one Riccati step, hence the
    2^n-fold self combination applied to a value function is 2^n Riccati steps."""
    P = LQRProblem(e)
    n = P.n
    f = e.func(MOD, 'combine_abcej')

    def el(nm):
        return (mat_atom(nm + 'A', (n, n)), mat_atom(nm + 'b', (n,)), mat_atom(nm + 'C', (n, n), sym=True),
                mat_atom(nm + 'e', (n,)), mat_atom(nm + 'J', (n, n), sym=True))
    F, L, X, U = [getattr(P, q).data for q in ('F', 'L', 'X', 'U')]
    one = T.const(1)

    def th():
        a, b, c = el('a'), el('b'), el('c')
        ab = e.call(f, [*a, *b])
        l = e.call(f, [*ab, *c])
        r = e.call(f, [*a, *e.call(f, [*b, *c])])
        for q, (x, y) in enumerate(zip(l, r)):
            e.check_eq(x, y, 'combination of value functions is associative [component %d]' % q)
        S = mat_atom('Sv', (n, n), sym=True)
        z = Arr('mat', (n,), N.zero((n, one)))
        zz = Arr('mat', (n, n), N.zero((n, n)))
        step = (P.F, z, Arr('mat', (n, n), mm(L, N.inverse(U), tr(L))), z, P.X)
        r = e.call(f, [*step, zz, z, zz, z, S])
        e.check_eq(r[4], Arr('mat', (n, n), P.riccati(S.data)[0]), 'combining a step with a value function is a Riccati step')
        for q in (0, 2):
            e.check_eq(r[q], zz, 'combining with a value function yields a value function')
        # combine equals the elimination of the intermediate state (independent formula)
        w = combine([q.data for q in a], [q.data for q in b], n)
        for q in range(5):
            e.check_eq(ab[q], Arr('mat', ab[q].shape, w[q]), 'combination formula [component %d]' % q)
    return th


@unit('C08', 'lqt_np.lemma.combine-exact', [Q + 'combine_abcej', Q + 'combine_fc'], kind='lemma')
def r8(e):
    """the real combine_abcej eliminates the intermediate state/costate exactly; combine_fc is composition"""
    n = T.var('n', T.INT)
    e.pc.append(T.le(1, n))
    f = e.func(MOD, 'combine_abcej')
    g = e.func(MOD, 'combine_fc')

    def M(nm, sym=False):
        return mat_atom(nm, (n, n), sym=sym)

    def V(nm):
        return mat_atom(nm, (n,))

    def th():
        a = (M('aA'), V('ab'), M('aC', True), V('ae'), M('aJ', True))
        b = (M('bA'), V('bb'), M('bC', True), V('be'), M('bJ', True))
        ab = [q.data for q in e.call(f, [*a, *b])]
        aA, ab_, aC, ae, aJ = [q.data for q in a]
        bA, bb, bC, be, bJ = [q.data for q in b]
        x0, x1, x2, l0, l2 = [V(q).data for q in ('x0', 'x1', 'x2', 'l0', 'l2')]
        l1 = ad(mm(tr(bA), l2), sb(be, mm(bJ, x1)))
        e.eqs = [('first interval, state', sb(x1, ad(mm(aA, x0), ab_, mm(aC, l1)))),
                 ('first interval, costate', sb(l0, ad(mm(tr(aA), l1), sb(ae, mm(aJ, x0))))),
                 ('second interval, state', sb(x2, ad(mm(bA, x1), bb, mm(bC, l2))))]
        e.prove_zero(sb(x2, ad(mm(ab[0], x0), ab[1], mm(ab[2], l2))), 'combine: state relation over the joined interval', 'lemma')
        e.prove_zero(sb(l0, ad(mm(tr(ab[0]), l2), sb(ab[3], mm(ab[4], x0)))), 'combine: costate relation over the joined interval', 'lemma')
        e.eqs = []
        A, c, B, d = M('fA'), V('fc'), M('gA'), V('gc')
        r = [q.data for q in e.call(g, [A, c, B, d])]
        x = V('x').data
        e.prove_zero(sb(ad(mm(r[0], x), r[1]), ad(mm(B.data, ad(mm(A.data, x), c.data)), d.data)),
                     'combine_fc is function composition (first then second)', 'lemma')
    return th

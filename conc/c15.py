from .lqtgen import *
from .c07 import make
import math
import parallel_control.nlqt_np as nn
import parallel_control.nonlinear_model_np as nm
import tensorflow as tf
import parallel_control.nlqt_tf as nt
import parallel_control.nonlinear_model_tf as nmt
tf.config.threading.set_intra_op_parallelism_threads(1)
tf.config.threading.set_inter_op_parallelism_threads(1)

RULE = ('random smooth nonlinear models, nominal trajectories (arbitrary and dynamically consistent), tracking problems and parallelism limits; '
        'expansions against analytic Jacobians, iterations against an independent Bellman oracle on the linearised problem, bundled models '
        'against central differences; a case is non-trivial when distinct in (routine, sizes, kind, seed)')
KK = ['full', 'const', 'zeroX', 'zeroXT', 'simple', 'varp']


def cases(ctx):
    yield from (dict(c, graph=(i in (4, 11)), mp=[None, 'T', '2T+3'][(i // 3) % 3]) for i, c in enumerate(
        std_cases(ctx, ['lin', 'iter', 'tf', 'model'], KK, maxT=70)))


class Model:
    def __init__(self, rng, n, m):
        self.A, self.W, self.V = contraction(rng, n) * 0.5, rng.standard_normal((n, n)), contraction(rng, n) * 0.3
        self.W /= max(np.linalg.norm(self.W, 2), 1)
        self.L, self.Y, self.g = rng.standard_normal((n, m)), 0.5 * rng.standard_normal((n, m)), rng.standard_normal(n)

    def f(self, x, u):
        return self.A @ x + self.V @ np.tanh(self.W @ x + self.g) + self.L @ u + np.sin(self.Y @ u) + 0.2 * np.cos(x) * np.sum(u)

    def Fx(self, x, u):
        return self.A + self.V @ (self.W * (1 - np.tanh(self.W @ x + self.g) ** 2)[:, None]) - 0.2 * np.diag(np.sin(x)) * np.sum(u)

    def Fu(self, x, u):
        return self.L + self.Y * np.cos(self.Y @ u)[:, None] + 0.2 * np.cos(x)[:, None] * np.ones(len(u))[None, :]

    def tfs(self):
        A, V, W, L, Y, g = [tf.constant(a) for a in (self.A, self.V, self.W, self.L, self.Y, self.g)]
        mv = tf.linalg.matvec

        def f(x, u):
            return mv(A, x) + mv(V, tf.tanh(mv(W, x) + g)) + mv(L, u) + tf.sin(mv(Y, u)) + 0.2 * tf.cos(x) * tf.reduce_sum(u, -1, keepdims=True)

        def Fx(x, u):
            return A + V @ (W * (1 - tf.tanh(mv(W, x) + g) ** 2)[..., None]) - 0.2 * tf.linalg.diag(tf.sin(x)) * tf.reduce_sum(u, -1)[:, None, None]

        def Fu(x, u):
            return L + Y * tf.cos(mv(Y, u))[..., None] + 0.2 * tf.cos(x)[..., None] * tf.ones_like(u)[:, None, :]
        return f, Fx, Fu


def nonlin(mod, x0, us):
    xs = [x0]
    for u in us:
        xs.append(mod.f(xs[-1], u))
    return xs


def stacks(ls):
    return tf.constant(np.array([np.asarray(a, float) for a in ls]))


def check(case):
    w = case['what']
    tf.config.run_functions_eagerly(not case['graph'])
    rng = np.random.default_rng(case['seed'] + 7)
    if w == 'model':
        return check_model(case, rng)
    if w != 'tf' and case.get('kind') == 'varp' or w == 'lin':
        pass
    elif case.get('kind') == 'varp':
        case = dict(case, kind='full')
    P = problem(case)
    T, n, m = P['T'], P['n'], P['m']
    if w != 'lin' or rng.integers(2):
        P['M'] = [0 * q for q in P['M']]
        P['s'] = [0 * q for q in P['s']]
        P['Z'] = [np.eye(m)] * T
    sc = case.get('scale', 1.0)
    sc = sc if 0.01 < sc < 100 else 1.0
    mod = Model(rng, n, m)
    us = [sc * rng.standard_normal(m) for _ in range(T)]
    x0 = sc * rng.standard_normal(n)
    cons = bool(rng.integers(2))
    deg = int(rng.integers(7))           # degenerate nominal trajectories: repeated or zero entries
    if deg == 1:
        us = [us[0].copy() for _ in us]
    if deg in (2, 3):
        us = [0 * u for u in us]
    if deg == 3:
        x0 = 0 * x0
    xs = nonlin(mod, x0, us) if cons else [x0] + [sc * rng.standard_normal(n) for _ in range(T)]
    if deg in (4, 5) and not cons:
        xs = [x0.copy() for _ in xs]
        us = [us[k // 2].copy() for k in range(T)] if deg == 5 else us
    LP = dict(P)            # the exact first-order expansion
    LP['F'] = [mod.Fx(xs[k], us[k]) for k in range(T)]
    LP['L'] = [mod.Fu(xs[k], us[k]) for k in range(T)]
    LP['c'] = [mod.f(xs[k], us[k]) - LP['F'][k] @ xs[k] - LP['L'][k] @ us[k] for k in range(T)]
    for q in 'FLc':
        P[q] = [np.asarray(a, float).copy() for a in P[q]]
    fz = freeze(us, xs)
    if w == 'tf':
        return check_tf(case, P, LP, mod, us, xs, rng, cons)
    o = make(P)
    before = freeze(*[getattr(o, q) for q in ('X', 'U', 'XT', 'H', 'r', 'HT', 'rT', 'Z', 's', 'M')])
    nl = nn.NLQT(o, mod)
    if w == 'lin':
        nl.linearize(us, xs)
        for q in 'FLc':
            need(len(getattr(o, q)) == T, 'linearised problem has %d entries in %s', len(getattr(o, q)), q)
            close_list(getattr(o, q), LP[q], 'first-order expansion: ' + q, 1e-9, sc)
        if cons:
            for k in range(T):
                close(o.F[k] @ xs[k] + o.L[k] @ us[k] + o.c[k], xs[k + 1], 'nominal trajectory under the linearised dynamics')
        close_list(nl.simulate(x0, us), nonlin(mod, x0, us), 'nonlinear simulation', 1e-9)
        xx = nonlin(mod, x0, us)
        J, Jr = float(nl.cost(x0, us)), costof(P, us, xx)
        need(abs(J - Jr) <= 1e-8 * abs(Jr) + 1e-12 * P['ws'], 'cost %.12g, along the nonlinear trajectory %.12g', J, Jr)
    else:
        for rep, meth in enumerate(((None, 2), (0, 1), (2, 0), (1, 2))[rng.integers(4)]):
            kw = {} if meth is None else dict(lqt_method=meth)
            if rep and case['seed'] % 3 == 0:        # another nominal trajectory, same object
                us = [u + 0.5 * sc for u in us]
                xs = [x - 0.3 * sc for x in xs]
                fz = freeze(us, xs)
                LP['F'] = [mod.Fx(xs[k], us[k]) for k in range(T)]
                LP['L'] = [mod.Fu(xs[k], us[k]) for k in range(T)]
                LP['c'] = [mod.f(xs[k], us[k]) - LP['F'][k] @ xs[k] - LP['L'][k] @ us[k] for k in range(T)]
            ul, xl = nl.iterate(us, xs, **kw)
            K, d, S, v = bellman(LP)
            ru, rx = rollout(LP, K, d, xs[0])
            u = sc + P['sc']
            close_list(ul, ru, 'iteration (method %s): controls' % meth, 1e-5, u)
            close_list(xl, rx, 'iteration (method %s): states' % meth, 1e-5, u)
            us, xs = us, xs
    unchanged(before, *[getattr(o, q) for q in ('X', 'U', 'XT', 'H', 'r', 'HT', 'rT', 'Z', 's', 'M')], what='cost data')
    unchanged(fz, us, xs, what='nominal trajectory')


def check_tf(case, P, LP, mod, us, xs, rng, cons):
    T = P['T']
    kw = {} if case['mp'] is None else dict(max_parallel={'T': T + 1, '2T+3': 2 * T + 3}[case['mp']])
    f, Fx, Fu = mod.tfs()
    U, X = stacks(us), stacks(xs)
    x0 = tf.constant(np.asarray(xs[0], float))
    F, c, L = [t.numpy() for t in nt.nlqt_linearize(U, X[:-1], f, Fx, Fu)]
    for a, q in ((F, 'F'), (c, 'c'), (L, 'L')):
        close_list(list(a), LP[q], 'first-order expansion: ' + q, 1e-9)
    H, r, Xs, Us = [stacks(P[q]) for q in ('H', 'r', 'X', 'U')]
    HT, rT, XT = [tf.constant(np.asarray(P[q], float)) for q in ('HT', 'rT', 'XT')]
    xx = nonlin(mod, xs[0], us)
    close_list(list(nt.nlqt_simulate(x0, U, f).numpy()), xx, 'nonlinear simulation', 1e-9)
    J, Jr = float(nt.nlqt_cost(x0, U, f, H, HT, r, rT, Xs, XT, Us)), costof(P, us, xx)
    need(abs(J - Jr) <= 1e-8 * abs(Jr) + 1e-12 * P['ws'], 'cost %.12g, along the nonlinear trajectory %.12g', J, Jr)
    K, d, _, _ = bellman(LP)
    ru, rx = rollout(LP, K, d, xs[0])
    u = 1 + P['sc']
    for nm_, k in (('nlqt_iterate_seq', {}), ('nlqt_iterate_par_1', kw), ('nlqt_iterate_par_2', kw)):
        a, b = getattr(nt, nm_)(U, X, f, Fx, Fu, H, HT, r, rT, Xs, XT, Us, **k)
        close_list(list(a.numpy()), ru, nm_ + ': controls', 1e-5, u)
        close_list(list(b.numpy()), rx, nm_ + ': states', 1e-5, u)


def check_model(case, rng):
    dt = float(rng.choice([0.1, 0.01, 1.0, rng.uniform(0.001, 2)]))
    mod = nm.NonlinearModel() if rng.integers(4) == 0 else nm.NonlinearModel(dt=dt)
    dt = 0.1 if mod.dt == 0.1 else dt
    N = case['T']
    sc = case.get('scale', 1.0)
    X, U = sc * 3 * rng.standard_normal((N, 4)), sc * 3 * rng.standard_normal((N, 2))
    if rng.integers(5) == 0:
        X[:, rng.integers(4)] = 0
        U[:, rng.integers(2)] = 0
    kw = {} if dt == 0.1 and rng.integers(2) else dict(dt=dt)
    tX, tU = tf.constant(X), tf.constant(U)
    tf_, tFx, tFu = [g(tX, tU, **kw).numpy() for g in (nmt.nonlinear_model_f, nmt.nonlinear_model_Fx, nmt.nonlinear_model_Fu)]
    need(tf_.shape == (N, 4) and tFx.shape == (N, 4, 4) and tFu.shape == (N, 4, 2), 'shapes of the batched model')
    h = 1e-5
    for k in range(min(N, 20)):
        x, u = X[k], U[k]
        fx, Fx, Fu = mod.f(x, u), mod.Fx(x, u), mod.Fu(x, u)
        tol = 1e-9 + 1e-9 * (np.abs(x).max() + np.abs(u).max()) * (1 + dt)
        for a, b, w in ((fx, tf_[k], 'dynamics'), (Fx, tFx[k], 'state derivative'), (Fu, tFu[k], 'control derivative')):
            need(np.max(np.abs(np.asarray(a) - b)) <= tol, 'batched and reference models differ in the %s', w)
        want = np.array([x[0] + x[3] * math.cos(x[2]) * dt, x[1] + x[3] * math.sin(x[2]) * dt, x[2] + u[1] * dt, x[3] + u[0] * dt])
        need(np.max(np.abs(fx - want)) <= tol, 'dynamics are not those of the documented vehicle')
        if np.abs(x).max() > 300:
            continue
        dx = np.stack([(mod.f(x + h * e, u) - mod.f(x - h * e, u)) / (2 * h) for e in np.eye(4)], 1)
        du = np.stack([(mod.f(x, u + h * e) - mod.f(x, u - h * e)) / (2 * h) for e in np.eye(2)], 1)
        tl = 1e-8 * (1 + np.abs(x).max()) * (1 + dt) * 10
        need(np.max(np.abs(Fx - dx)) <= tl, 'state derivative is not the derivative of the dynamics')
        need(np.max(np.abs(Fu - du)) <= tl, 'control derivative is not the derivative of the dynamics')

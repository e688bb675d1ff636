from .fscgen import *
import tensorflow as tf
import parallel_control.fsc_tf as ft
import parallel_control.fsc_np as fsc
tf.config.threading.set_intra_op_parallelism_threads(1)
tf.config.threading.set_inter_op_parallelism_threads(1)

RULE = ('random undiscounted finite-state problems given as tensors (graph and eager execution, default and tight parallelism limits); '
        'passes against the Bellman oracle, rollouts and the set of states on optimal trajectories; distinct in all case fields')

SHAPES = [(1, 3, 2), (2, 2, 3), (3, 4, 2), (5, 3, 3), (4, 1, 1), (7, 5, 1), (8, 2, 4), (16, 4, 3), (33, 3, 2), (1, 1, 1), (6, 6, 2), (65, 3, 2)]


def cases(ctx):
    base = 4000 + 100000 * ctx.seed
    i = 0
    shapes = SHAPES + [(s, 3, 2) for s in hint_sizes(ctx, 200) if s not in [x[0] for x in SHAPES]]
    if ctx.thorough:
        shapes = shapes + [(s, 4, 3) for s in (9, 15, 17, 31, 64, 127, 128, 200)]
    dyns = ['rand', 'perm', 'shift', 'sink', 'index']
    for rnd in range(100 if ctx.thorough else 40):
        for T, nx, nu in shapes:
            # a processor keeps a shape while tracing is expensive: eager execution everywhere, graph execution on few shapes
            i += 1
            for w in ('all',):
                yield dict(what=w, T=T, nx=nx, nu=nu, kind=KINDS[(i + rnd) % len(KINDS)], dyn=dyns[(i // 2 + rnd) % 5], seed=base + i,
                           graph=bool(rnd == 1 and T in (1, 2, 5, 8, 33)) or bool(ctx.thorough and rnd % 7 == 1),
                           mp=[None, 'T', 'T+1', '2T+3', None][(i + 2 * rnd) % 5], x0t=['int', 'tensor'][(i // 3) % 2])
    # unreachable states, negative costs around the sentinel's reach are out of scope


def check(case):
    tf.config.run_functions_eagerly(not case['graph'])
    P = problem(case)
    rng = np.random.default_rng(case['seed'] + 3)
    o = make(P, fsc)
    T, nx, nu = P['T'], P['nx'], P['nu']
    dt = tf.float32 if case['kind'] == 'f32' else tf.float64
    fs, Ls, LT = ft.fsc_np_to_tf(o, dtype=dt)
    need(tuple(fs.shape) == (T, nx, nu) and tuple(Ls.shape) == (T, nx, nu) and tuple(LT.shape) == (nx,), 'stacked shapes')
    for k in range(T):
        need((fs[k].numpy() == P['f'][k]).all(), 'stacked dynamics at stage %d', k)
        close(Ls[k].numpy(), P['L'][k], 'stacked cost at stage %d' % k, 1e-6)
    close(LT.numpy(), P['LT'], 'stacked terminal cost')
    tol = tolv(P)
    V, Q = bellman(P)
    kw = {} if case['mp'] is None else dict(max_parallel={'T': T, 'T+1': T + 1, '2T+3': 2 * T + 3}[case['mp']])
    xi = int(rng.integers(0, nx))
    x0 = tf.constant(xi, tf.int32) if case['x0t'] == 'tensor' else xi
    x0c = tf.constant(xi, tf.int32)

    for what, f in (('sequential backward pass', lambda: ft.fsc_seq_backwardpass(fs, Ls, LT)),
                    ('parallel backward pass', lambda: ft.fsc_par_backwardpass(fs, Ls, LT, **kw))):
        us, Vs = f()
        check_values(P, list(Vs.numpy()), V, what, tol)
        check_law(P, list(us.numpy()), V, Q, what, tol)
    law = rand_law(P, rng)
    lt = tf.constant(np.array(law), tf.int32)
    wu, wx = rollout(P, law, xi)
    xs, us = ft.fsc_seq_forwardpass(x0c, fs, lt)
    need(as_ints(xs.numpy(), 's') == wx, 'sequential forward pass from %d: states %s, the law gives %s', xi, xs.numpy()[:12], wx[:12])
    need(as_ints(us.numpy(), 'u') == wu, 'sequential forward pass: wrong controls')
    us, xs = ft.fsc_par_forwardpass(x0, fs, lt, **kw)
    need(as_ints(xs.numpy(), 's') == wx, 'parallel forward pass from %d: states %s, the law gives %s', xi, xs.numpy()[:12], wx[:12])
    need(as_ints(us.numpy(), 'u') == wu, 'parallel forward pass: wrong controls')
    olaw = np.array([[int(np.argmin(q)) for q in Qk] for Qk in Q])
    us, xs = ft.fsc_par_fwdbwdpass(x0, fs, Ls, tf.constant(olaw, tf.int32), tf.constant(np.array(V), dt), **kw)
    gu, gx = as_ints(us.numpy(), 'u'), as_ints(xs.numpy(), 's')
    need(len(gx) == T + 1 and len(gu) == T, 'forward-backward pass returns %d states, %d controls', len(gx), len(gu))
    S = on_optimal(P, V, Q, xi, tol)
    for k in range(T + 1):
        need(gx[k] in S[k], 'forward-backward pass: state %d at time %d lies on no optimal trajectory from %d', gx[k], k, xi)
    for k in range(T):
        need(gu[k] == int(olaw[k][gx[k]]), 'forward-backward pass: control %d at time %d is not that of the given law', gu[k], k)
    A, B = [rng.integers(-9, 9, (3, nx, nx)).astype(float) for _ in range(2)]
    close(ft.fsc_par_comb_V(tf.constant(A), tf.constant(B)).numpy(), np.min(A[:, :, :, None] + B[:, None, :, :], axis=2), 'min-plus combination')
    close(ft.fsc_par_comb_V_rev(tf.constant(A), tf.constant(B)).numpy(), np.min(B[:, :, :, None] + A[:, None, :, :], axis=2), 'reversed min-plus combination')

from .lqtgen import *
from .c07 import make, cmp_all
import tensorflow as tf
import parallel_control.lqt_tf as lt
tf.config.threading.set_intra_op_parallelism_threads(1)
tf.config.threading.set_inter_op_parallelism_threads(1)

RULE = ('random tracking problems (canonical and general) converted to tensors, eager and graph execution, several parallelism limits; '
        'against an independent Bellman oracle; a case is non-trivial when distinct in (routine, sizes, kind, seed, limit)')
KK = ['full', 'const', 'zeroX', 'zeroXT', 'singF', 'zeroL', 'int']


def cases(ctx):
    for i, c in enumerate(std_cases(ctx, ['canon', 'gen'], KK, maxT=130)):
        g = i in (0, 1, 8, 9, 22, 23) or (ctx.thorough and i % 11 == 0)
        yield dict(c, graph=g, mp=[None, 'T', 'T+1', '2T+3'][(i // 2) % 4])


def stackn(ls):
    return np.array([np.asarray(a, float) for a in ls])


def canonical(P):
    P['M'] = [0 * m for m in P['M']]
    P['s'] = [0 * s for s in P['s']]
    P['Z'] = [np.eye(P['m'])] * P['T']
    return P


def general(P):
    P['Z'] = [np.eye(P['m'])] * P['T']
    for k in range(P['T']):     # keep the converted dynamics well conditioned over long horizons
        g = P['L'][k] @ np.linalg.solve(P['U'][k], P['M'][k].T) @ P['H'][k]
        lim = 0.5 if P['T'] <= 6 else 0.04
        P['M'][k] = P['M'][k] * min(1.0, lim / max(np.linalg.norm(g, 2), 1e-9))
    if P['T'] > 6:
        P['F'] = [0.9 * f for f in P['F']]
    return P


def nps(ts):
    return [t.numpy() for t in ts]


def values(r, ref, what, P, tol=1e-6):
    S, v, K, d = nps(r)
    T = P['T']
    need(K.shape[0] == T and d.shape[0] == T and S.shape[0] == T + 1 and v.shape[0] == T + 1, '%s: lengths %s', what, [x.shape for x in (S, v, K, d)])
    cmp_all((list(K), list(d), list(S), list(v)), ref, what, P, tol)


def traj(r, ref, what, P, tol=1e-6):
    xs, us = nps(r)
    close_list(list(us), ref[0], what + ': controls', tol, P['sc'])
    close_list(list(xs), ref[1], what + ': states', tol, P['sc'])


def check(case):
    tf.config.run_functions_eagerly(not case['graph'])
    rng = np.random.default_rng(case['seed'] + 7)
    gen = case['what'] == 'gen'
    P = problem(case)
    P = general(P) if gen else canonical(P)
    T = P['T']
    kw = {} if case['mp'] is None else dict(max_parallel={'T': T, 'T+1': T + 1, '2T+3': 2 * T + 3}[case['mp']])
    o = make(P)
    fz = freeze(o, P)
    x0 = tf.constant(P['x0'], tf.float64)
    ref = bellman(P)
    if gen:
        t = lt.lqt_np_to_tf_gen(o)
        names = ['F', 'c', 'L', 'H', 'HT', 'r', 'rT', 'X', 'XT', 'U', 'M', 's']
    else:
        t = lt.lqt_np_to_tf(o)
        names = ['F', 'c', 'L', 'H', 'HT', 'r', 'rT', 'X', 'XT', 'U']
    D = dict(zip(names, t))
    need(len(t) == len(names), 'number of tensors')
    for nm in names:
        w = np.asarray(P[nm], float) if nm in ('HT', 'rT', 'XT') else stackn(P[nm])
        need(tuple(D[nm].shape) == w.shape and (D[nm].numpy() == w).all(), 'conversion changes %s', nm)
    F, c, L, H, HT, r, rT, X, XT, U = [D[q] for q in names[:10]]
    if gen:
        M, s = D['M'], D['s']
        F2, c2, X2 = lt.lqt_gen_to_canon(F, c, L, H, r, X, U, M, s)
        vs = lt.lqt_seq_backwardpass(F2, c2, L, H, HT, r, rT, X2, XT, U)
        vp = lt.lqt_par_backwardpass(F2, c2, L, H, HT, r, rT, X2, XT, U, **kw)
        ro = rollout(P, ref[0], ref[1], P['x0'])
        for what, v in (('sequential', vs), ('parallel', vp)):
            K, d = lt.lqt_canon_to_gen(v[2], v[3], H, r, U, M, s)
            values((v[0], v[1], K, d), ref, 'general problem, %s' % what, P, 1e-5)
            traj(lt.lqt_seq_forwardpass(x0, F, c, L, K, d), ro, 'general problem, %s: trajectory' % what, P, 1e-5)
        # the transformed stage costs what the general one does, for any state and control
        for k in {0, T - 1, T // 2}:
            x, w = rng.standard_normal(P['n']), rng.standard_normal(P['m'])
            y = P['H'][k] @ x - P['r'][k]
            u = w + P['s'][k] - np.linalg.solve(P['U'][k], P['M'][k].T @ y)
            e = u - P['s'][k]
            a = 0.5 * y @ P['X'][k] @ y + 0.5 * e @ P['U'][k] @ e + y @ P['M'][k] @ e
            X2k = X2[k].numpy()
            b = 0.5 * y @ X2k @ y + 0.5 * w @ P['U'][k] @ w
            need(abs(a - b) <= 1e-8 * (abs(a) + P['ws'] * (1 + P['sc']) ** 2 * 10), 'canonical stage cost %.10g, general %.10g', b, a)
            close(F2[k].numpy() @ x + c2[k].numpy() + P['L'][k] @ w, P['F'][k] @ x + P['c'][k] + P['L'][k] @ u, 'canonical next state')
        unchanged(fz, o, P, what='problem data')
        return
    values(lt.lqt_seq_backwardpass(*t), ref, 'sequential backward pass', P)
    values(lt.lqt_par_backwardpass(*t, **kw), ref, 'parallel backward pass', P)
    K, d = random_gains(P, rng)
    Kt, dt = tf.constant(stackn(K)), tf.constant(stackn(d))
    ro = rollout(P, K, d, P['x0'])
    traj(lt.lqt_seq_forwardpass(x0, F, c, L, Kt, dt), ro, 'sequential forward pass', P)
    traj(lt.lqt_par_forwardpass(x0, F, c, L, Kt, dt, **kw), ro, 'parallel forward pass', P)
    oK, od, oS, ov = [tf.constant(stackn(q)) for q in ref]
    oo = rollout(P, ref[0], ref[1], P['x0'])
    traj(lt.lqt_par_fwdbwdpass(x0, F, c, L, H, r, X, U, oS, ov, oK, od, **kw), oo, 'forward-backward pass', P, 1e-5)
    J = float(lt.lqt_cost(tf.constant(stackn(ro[1])), tf.constant(stackn(ro[0])), H, HT, r, rT, X, XT, U))
    Jr = costof(P, ro[0], ro[1])
    need(abs(J - Jr) <= 1e-8 * abs(Jr) + 1e-12 * P['ws'] * P['sc'] ** 2, 'cost %.12g, stage and terminal costs sum to %.12g', J, Jr)
    unchanged(fz, o, P, what='problem data')

from .fscgen import *
import parallel_control.fsc_np as fsc

RULE = ('random undiscounted finite-state problems; parallel passes against the Bellman oracle, rollouts and the set of states '
        'on optimal trajectories; distinct in all case fields')


def cases(ctx):
    yield from std_cases(ctx, ['bwd', 'fwd', 'fb', 'fb2', 'comb'], cap=300)


def check(case):
    P = problem(case)
    rng = np.random.default_rng(case['seed'] + 3)
    o = make(P, fsc)
    fz = freeze(P)
    tol = tolv(P)
    w = case['what']
    x0 = int(rng.integers(0, P['nx']))
    if w == 'comb':
        n = P['nx']
        A, B, C = [rng.integers(-9, 9, (n, n)).astype(float) for _ in range(3)]
        z = freeze(A, B, C)
        M = fsc.combine_V(A, B)
        E = np.min(A[:, :, None] + B[None, :, :], axis=1)
        close(M, E, 'min-plus combination')
        close(fsc.combine_V(M, C), fsc.combine_V(A, fsc.combine_V(B, C)), 'associativity of the min-plus combination')
        f, g = rng.integers(0, n, n), rng.integers(0, n, n)
        h = fsc.combine_f(f, g)
        need([int(v) for v in h] == [int(g[f[i]]) for i in range(n)], 'function combination is not composition')
        unchanged(z, A, B, C)
    elif w == 'bwd':
        V, Q = bellman(P)
        for rep in (0, 1):
            if rep and case['seed'] % 3 == 0 and not case.get('shared'):      # other data in the same object
                P['L'][0] = P['L'][0] + np.asarray(rng.integers(-1, 5, P['L'][0].shape), P['L'][0].dtype)
                P['LT'] = P['LT'] + np.asarray(rng.integers(0, 5, P['LT'].shape), P['LT'].dtype)
                o.L, o.LT = list(P['L']), P['LT']
                V, Q = bellman(P)
                fz = freeze(P)
            u, v = o.parBackwardPass()
            check_values(P, v, V, 'parallel backward pass%s' % (' (repeated)' if rep else ''), tol)
            check_law(P, u, V, Q, 'parallel backward pass%s' % (' (repeated)' if rep else ''), tol)
    elif w == 'fwd':
        law = rand_law(P, rng)
        lz = freeze(law)
        us, xs = rollout(P, law, x0)
        gu, gx = o.parForwardPass(x0, law)
        need(as_ints(gx, 'states') == xs, 'parallel forward pass from %d: states %s, the law gives %s', x0, as_ints(gx, 's')[:12], xs[:12])
        need(as_ints(gu, 'controls') == us, 'parallel forward pass: wrong controls')
        unchanged(lz, law, what='control law')
    else:
        V, Q = bellman(P)
        law = [np.asarray([int(np.argmin(q)) for q in Qk]) for Qk in Q]
        Va = [np.asarray(v) for v in V]
        lz = freeze(law, Va)
        x00 = x0
        for rep in (0, 1):
            gu, gx = (o.parFwdBwdPass if w == 'fb' else o.parFwdBwdPass2)(x00, law, Va)
            gu, gx = as_ints(gu, 'controls'), as_ints(gx, 'states')
            need(len(gx) == P['T'] + 1 and len(gu) == P['T'], 'forward-backward pass returns %d states, %d controls', len(gx), len(gu))
            S = on_optimal(P, V, Q, x0, tol)
            need(gx[0] == x0, 'forward-backward pass starts at %d, not at %d', gx[0], x0)
            for k in range(P['T'] + 1):
                need(gx[k] in S[k], 'state %d at time %d lies on no optimal trajectory from %d', gx[k], k, x0)
            for k in range(P['T']):
                need(gu[k] == int(law[k][gx[k]]), 'control %d at time %d is not that of the given law', gu[k], k)
        unchanged(lz, law, Va, what='law or value functions')
    unchanged(fz, P, what='problem data')

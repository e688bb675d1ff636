from .lqtgen import *
import parallel_control.lqt_np as lqt_np
import scipy.linalg as sl

RULE = ('random tracking problems over horizons, dimensions and structural kinds (variable output size, zero costs, '
        'singular or zero dynamics, integer matrices); a case is non-trivial when distinct in (routine, sizes, kind, seed)')


def cases(ctx):
    yield from std_cases(ctx, ['bwd', 'fwd', 'cost', 'trans', 'lqr', 'iter', 'batch'])


def make(P):
    return lqt_np.LQT(*[P[q] for q in NAMES])


def cmp_all(res, ref, what, P=None, tol=1e-6):
    need(len(res) == 4, what + ': four lists expected')
    ws, sc = (P['ws'], P['sc']) if P else (1.0, 1.0)
    for a, b, nm, u in zip(res, ref, ('gain', 'offset', 'value matrix', 'value vector'), (1.0, sc, ws, ws * sc)):
        close_list(a, b, '%s: %s' % (what, nm), tol, unit=u)


def check(case):
    w = case['what']
    if w == 'batch':
        case = dict(case, T=min(case['T'], 12), kind='batch')
    if w == 'trans':
        case = dict(case, kind='simple' if case.get('kind') == 'simple' else case.get('kind', 'full'))
    rng = np.random.default_rng(case['seed'] + 7)
    P = problem(case)
    if w in ('lqr', 'iter'):
        return check_lqr(case, P, rng, w)
    if w == 'trans':
        if case.get('kind') == 'varp':
            P = problem(dict(case, kind='full'))
        P['Z'] = [np.eye(P['m'])] * P['T']
        for k in range(P['T']):     # keep the transformed dynamics contractive (well conditioned over long horizons)
            g = P['L'][k] @ np.linalg.solve(P['U'][k], P['M'][k].T) @ P['H'][k]
            lim = 0.5 if P['T'] <= 6 else 0.04
            P['M'][k] = P['M'][k] * min(1.0, lim / max(np.linalg.norm(g, 2), 1e-9))
        if P['T'] > 6:
            P['F'] = [0.9 * f for f in P['F']]
    o = make(P)
    fz = freeze(o, P)
    T, sc = P['T'], P['sc']
    if w == 'bwd':
        ref = bellman(P)
        for rep in range(2):
            if rep and case['seed'] % 3 == 0:       # other data in the same object
                k = int(rng.integers(P['T']))
                P['c'] = list(P['c'])
                P['c'][k] = P['c'][k] + P['sc']
                if case.get('kind') == 'full':
                    P['F'] = list(P['F'])
                    P['F'][k] = -P['F'][k]
                o.c, o.F = list(P['c']), list(P['F'])
                ref = bellman(P)
                fz = freeze(o, P)
            cmp_all(o.seqBackwardPass(), ref, 'sequential backward pass%s' % (' (second call)' if rep else ''), P)
    elif w == 'fwd':
        K, d = random_gains(P, rng)
        fk = freeze(K, d)
        ul, xl = o.seqForwardPass(P['x0'], K, d)
        ru, rx = rollout(P, K, d, P['x0'])
        close_list(ul, ru, 'forward pass controls', unit=sc)
        close_list(xl, rx, 'forward pass states', unit=sc)
        close_list(o.seqSimulation(P['x0'], ru), rx, 'simulated states', unit=sc)
        unchanged(fk, K, d)
        if T > 2:   # shorter law than the horizon
            ul, xl = o.seqForwardPass(P['x0'], K[:T - 1], d[:T - 1])
            close_list(ul, ru[:-1], 'forward pass controls (shorter law)')
            close_list(xl, rx[:-1], 'forward pass states (shorter law)')
    elif w == 'cost':
        K, d = random_gains(P, rng)
        ru, rx = rollout(P, K, d, P['x0'])
        ru = [u + sc * rng.standard_normal(u.shape) for u in ru]
        rx = [x + sc * rng.standard_normal(x.shape) for x in rx]
        fk = freeze(ru, rx)
        closeu(o.cost(ru, rx), costof(P, ru, rx), 'cost of a trajectory', unit=P['ws'] * P['sc'] ** 2)
        unchanged(fk, ru, rx)
        ref = bellman(P)
        ul, xl = rollout(P, ref[0], ref[1], P['x0'])
        J = costof(P, ul, xl)
        # optimal: no perturbation of the controls does better
        for _ in range(3):
            u2 = [u + 0.1 * sc * rng.standard_normal(u.shape) for u in ul]
            x2 = o.seqSimulation(P['x0'], u2)
            need(o.cost(u2, x2) >= J - 1e-7 * (P['ws'] * sc ** 2 + abs(J)), 'a perturbed control sequence is cheaper than the optimum')
    elif w == 'trans':
        ref = bellman(P)
        cmp_all(o.seqTransformedBackwardPass(), ref, 'backward pass with cross terms removed', P)
    elif w == 'batch':
        ref = bellman(P)
        ul, xl = rollout(P, ref[0], ref[1], P['x0'])
        bu, bx = o.batchSolution(P['x0'])
        close_list(bu, ul, 'batch solution controls', 1e-5, sc)
        close_list(bx, xl, 'batch solution states', 1e-5, sc)
    unchanged(fz, o, P, what='problem data')


def lqr_problem(P):
    F, L = P['F'][0], P['L'][0]
    n, m = P['n'], P['m']
    X = P['H'][0].T @ P['X'][0] @ P['H'][0]
    return F, L, X, P['U'][0], P['HT'].T @ P['XT'] @ P['HT']


def riccati(F, L, X, U, XT, T):
    n, m = L.shape
    S = XT
    Sl, Kl = [S], []
    for _ in range(T):
        W = np.zeros((n + m, n + m))
        W[:n, :n] = X
        W[n:, n:] = U
        A = np.hstack([F, L])
        Q = W + A.T @ S @ A
        K = np.linalg.solve(Q[n:, n:], Q[n:, :n])
        S = Q[:n, :n] - Q[:n, n:] @ K
        S = 0.5 * (S + S.T)
        Sl.append(S)
        Kl.append(K)
    return Kl[::-1], Sl[::-1]


def check_lqr(case, P, rng, w):
    F, L, X, U, XT = lqr_problem(P)
    T = P['T']
    o = lqt_np.LQR(F, L, X, U, XT)
    fz = freeze(o)
    if w == 'lqr':
        Kr, Sr = riccati(F, L, X, U, XT, T)
        if case['seed'] % 2:
            o.seqBackwardPass(T + 1)
        K, S = o.seqBackwardPass(T)
        close_list(K, Kr, 'regulator gains')
        close_list(S, Sr, 'regulator value matrices', unit=P['ws'])
        Kg = [0.3 * rng.standard_normal(K[0].shape) for _ in range(T)]
        ul, xl = o.seqForwardPass(P['x0'], Kg)
        x = P['x0']
        rx, ru = [x], []
        for k in range(T):
            u = -Kg[k] @ x
            x = F @ x + L @ u
            ru.append(u)
            rx.append(x)
        close_list(ul, ru, 'regulator controls', unit=P['sc'])
        close_list(xl, rx, 'regulator states', unit=P['sc'])
    else:
        Kr, Sr = riccati(F, L, X, U, X, T)
        K, S = o.lqrIter(T)
        closeu(S, Sr[0], 'iterated Riccati solution', unit=P['ws'])
        close(K, Kr[0], 'gain of the iterated Riccati solution')
        XX = X + P['ws'] * np.eye(P['n'])
        o2 = lqt_np.LQR(F, L, XX, U, XT)
        if np.linalg.norm(F) > 0 and case.get('kind') != 'zeroL':
            ctrb = np.hstack([np.linalg.matrix_power(F, i) @ L for i in range(P['n'])]) if P['n'] else L
            sv = np.linalg.svd(ctrb, compute_uv=False)
            if len(sv) and sv.min() > 1e-2 and sv.shape[0] == P['n'] and np.linalg.svd(F, compute_uv=False).min() > 1e-2:
                K, S = o2.lqrDare()
                Kd, Sd = riccati(F, L, XX, U, S, 1)
                closeu(S, Sd[0], 'stationary Riccati solution', 1e-5, P['ws'])
                close(K, Kd[0], 'stationary gain', 1e-5)
    unchanged(fz, o, what='problem data')

from .lqtgen import *
from .c07 import make, cmp_all, lqr_problem, riccati
import parallel_control.lqt_np as lqt_np

RULE = ('random tracking problems over horizons, dimensions and structural kinds; parallel passes against an independent '
        'Bellman oracle; a case is non-trivial when distinct in (routine, sizes, kind, seed)')


def cases(ctx):
    yield from std_cases(ctx, ['bwd', 'fwd', 'fb', 'lqr', 'dbl', 'comb'])


def elem(rng, n):
    return (rng.standard_normal((n, n)), rng.standard_normal(n), spd(rng, n, 0.1), rng.standard_normal(n), spd(rng, n, 0.1))


def check(case):
    w = case['what']
    rng = np.random.default_rng(case['seed'] + 7)
    P = problem(case)
    T, n = P['T'], P['n']
    if w in ('lqr', 'dbl'):
        return check_lqr(case, P, rng, w)
    if w == 'comb':
        a, b, c = [elem(rng, n) for _ in range(3)]
        fz = freeze(a, b, c)
        ab = lqt_np.combine_abcej(*a, *b)
        l = lqt_np.combine_abcej(*ab, *c)
        r = lqt_np.combine_abcej(*a, *lqt_np.combine_abcej(*b, *c))
        for x, y in zip(l, r):
            close(x, y, 'associativity of value element combination')
        unchanged(fz, a, b, c)
        # exact elimination: V(x,z) = max over lam of 1/2 x'Jx - x'eta - lam'(z - A x - b) - 1/2 lam' C lam
        # stationarity in the intermediate point y: lam1 = grad of second element
        x, lam2 = rng.standard_normal(n), rng.standard_normal(n)
        A1, b1, C1, e1, J1 = a
        A2, b2, C2, e2, J2 = b
        # unknown y, lam1:  y = A1 x + b1 + C1 lam1 ; lam1 = A2' lam2 + e2 - J2 y
        y = np.linalg.solve(np.eye(n) + C1 @ J2, A1 @ x + b1 + C1 @ (A2.T @ lam2 + e2))
        lam1 = A2.T @ lam2 + e2 - J2 @ y
        z = A2 @ y + b2 + C2 @ lam2
        lam0 = A1.T @ lam1 + e1 - J1 @ x
        A, bb, C, e, J = ab
        close(A @ x + bb + C @ lam2, z, 'combined element maps to the same final state')
        close(A.T @ lam2 + e - J @ x, lam0, 'combined element gives the same initial costate')
        F1, c1, F2, c2 = rng.standard_normal((n, n)), rng.standard_normal(n), rng.standard_normal((n, n)), rng.standard_normal(n)
        F, c = lqt_np.combine_fc(F1, c1, F2, c2)
        close(F @ x + c, F2 @ (F1 @ x + c1) + c2, 'affine map combination is composition')
        return
    o = make(P)
    fz = freeze(o, P)
    if w == 'bwd':
        ref = bellman(P)
        for rep in range(2):
            if rep and case['seed'] % 3 == 0:       # other data in the same object
                k = int(rng.integers(P['T']))
                P['c'] = list(P['c'])
                P['c'][k] = P['c'][k] + P['sc']
                if case.get('kind') == 'full':
                    P['F'] = list(P['F'])
                    P['F'][k] = -P['F'][k]
                o.c, o.F = list(P['c']), list(P['F'])
                ref = bellman(P)
                fz = freeze(o, P)
            cmp_all(o.parBackwardPass(), ref, 'parallel backward pass%s' % (' (second call)' if rep else ''), P)
    elif w == 'fwd':
        K, d = random_gains(P, rng)
        fk = freeze(K, d)
        ru, rx = rollout(P, K, d, P['x0'])
        for rep in range(2):
            ul, xl = o.parForwardPass(P['x0'], K, d)
            close_list(ul, ru, 'parallel forward pass controls', unit=P['sc'])
            close_list(xl, rx, 'parallel forward pass states', unit=P['sc'])
        unchanged(fk, K, d)
    elif w == 'fb':
        ref = bellman(P)
        ru, rx = rollout(P, ref[0], ref[1], P['x0'])
        fk = freeze(ref)
        for nm in ('parFwdBwdPass', 'parFwdBwdPass2'):
            ul, xl = getattr(o, nm)(P['x0'], *ref)
            close_list(ul, ru, nm + ' controls', 1e-5, P['sc'])
            close_list(xl, rx, nm + ' states', 1e-5, P['sc'])
        unchanged(fk, ref)
    unchanged(fz, o, P, what='problem data')


def check_lqr(case, P, rng, w):
    F, L, X, U, XT = lqr_problem(P)
    T = P['T']
    o = lqt_np.LQR(F, L, X, U, XT)
    fz = freeze(o)
    if w == 'lqr':
        Kr, Sr = riccati(F, L, X, U, XT, T)
        if case['seed'] % 2:
            o.parBackwardPass(T + 1)
        K, S = o.parBackwardPass(T)
        close_list(K, Kr, 'regulator gains (parallel)')
        close_list(S, Sr, 'regulator value matrices (parallel)', unit=P['ws'])
        Kg = [0.3 * rng.standard_normal(K[0].shape) / P['n'] for _ in range(T)]
        ul, xl = o.parForwardPass(P['x0'], Kg)
        x = P['x0']
        rx, ru = [x], []
        for k in range(T):
            u = -Kg[k] @ x
            x = F @ x + L @ u
            ru.append(u)
            rx.append(x)
        close_list(ul, ru, 'regulator controls (parallel)', unit=P['sc'])
        close_list(xl, rx, 'regulator states (parallel)', unit=P['sc'])
    else:
        k = 1 + case['T'] % 6
        K, S = o.lqrDouble(k)
        Sr = riccati(F, L, X, U, X, 2 ** k - 1)[1][0]
        closeu(S, Sr, 'doubling equals 2^k Riccati steps', unit=P['ws'])
        close(K, riccati(F, L, X, U, Sr, 1)[0][0], 'gain of the doubling solution')
    unchanged(fz, o, what='problem data')

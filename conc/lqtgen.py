"""Random tracking problems and an independent Bellman oracle (generic quadratic elimination)."""
import numpy as np
from .common import *


def contraction(rng, n):
    """well conditioned, non symmetric, norm < 1: rounding errors stay small over any horizon"""
    f = np.eye(n) + 0.8 * rng.standard_normal((n, n)) / np.sqrt(n)
    return f * (0.95 / max(np.linalg.norm(f, 2), 1e-3))


def problem(case):
    """dict of per-stage lists; case keys: seed,T,n,m,p,(kind)"""
    rng = np.random.default_rng(case['seed'])
    T, n, m, p = case['T'], case['n'], case['m'], case['p']
    kind = case.get('kind', 'full')
    const = kind in ('const', 'batch')
    ps = [p] * T
    if kind == 'varp':
        ps = [1 + int(rng.integers(0, p + 2)) for _ in range(T)]

    def mk(f):
        if const:
            v = f(p)
            return [v] * T
        return [f(q) for q in ps]
    sc = case.get('scale', 1.0)
    P = {}
    P['F'] = mk(lambda q: contraction(rng, n))
    P['L'] = mk(lambda q: rng.standard_normal((n, m)))
    P['Z'] = mk(lambda q: np.eye(m) + 0.3 * rng.standard_normal((m, m)) / m)
    P['H'] = mk(lambda q: rng.standard_normal((q, n)))
    P['c'] = mk(lambda q: sc * rng.standard_normal(n))
    P['r'] = mk(lambda q: sc * rng.standard_normal(q))
    P['s'] = mk(lambda q: sc * rng.standard_normal(m))
    X, U, M = [], [], []
    for k in range(T):
        q = ps[k]
        W = spd(rng, q + m, 0.6)
        if const and k:
            X.append(X[0]); U.append(U[0]); M.append(M[0])
            continue
        X.append(W[:q, :q].copy()); U.append(W[q:, q:].copy()); M.append(W[:q, q:].copy())
    P['X'], P['U'], P['M'] = X, U, M
    pT = ps[-1] if kind == 'batch' else 1 + int(rng.integers(0, p + 1))
    P['HT'] = rng.standard_normal((pT, n))
    P['rT'] = sc * rng.standard_normal(pT)
    P['XT'] = spd(rng, pT, 0.2)
    if kind == 'zeroX':
        P['X'] = [np.zeros((q, q)) for q in ps]
        P['M'] = [np.zeros((q, m)) for q in ps]
    if kind == 'zeroXT':
        P['XT'] = np.zeros((pT, pT))
    if kind == 'singF':
        P['F'] = [f * 0.0 if k % 2 else f - np.outer(f[:, 0], np.eye(n)[0]) for k, f in enumerate(P['F'])]
    if kind == 'zeroL':
        P['L'] = [l * (k % 2) for k, l in enumerate(P['L'])]
    if kind == 'noM' or kind == 'simple':
        P['M'] = [0 * a for a in P['M']]
    if kind == 'simple':
        P['s'] = [0 * a for a in P['s']]
        P['Z'] = [np.eye(m) for _ in range(T)]
    if kind == 'int':
        P['F'] = [np.eye(n, dtype=int)[rng.permutation(n)] * (1 - 2 * rng.integers(0, 2, n)) * (np.arange(n) > 0) for f in P['F']]
        P['L'] = [np.round(2 * f).astype(int) for f in P['L']]
        P['H'] = [np.round(2 * f).astype(int) for f in P['H']]
        P['c'] = [np.round(2 * f).astype(int) for f in P['c']]
        P['r'] = [np.round(2 * f).astype(int) for f in P['r']]
    P['x0'] = sc * rng.standard_normal(n)
    if kind in ('full', 'const') and case['seed'] % 7 == 3:
        P['x0'] = 0 * P['x0']
    if kind == 'full' and case['seed'] % 5 == 2:          # runs of stages that share some of their parameters and differ in the others
        for q in 'FLZHcrsXUM':
            if rng.integers(2) and q not in 'XUM':
                P[q] = [P[q][k - k % 3].copy() for k in range(T)]
    ws = case.get('wscale', 1.0)
    if ws != 1.0:
        for q in ('X', 'U', 'M'):
            P[q] = [ws * a for a in P[q]]
        P['XT'] = ws * P['XT']
    P['ws'], P['sc'] = ws, sc or 1.0
    P['T'], P['n'], P['m'] = T, n, m
    return P


NAMES = ('F', 'L', 'X', 'U', 'XT', 'c', 'H', 'r', 'HT', 'rT', 'Z', 's', 'M')


def bellman(P):
    """S, v, K, d by eliminating u from the stage quadratic; V(x) = 1/2 x'Sx - v'x"""
    T = P['T']
    S = P['HT'].T @ P['XT'] @ P['HT']
    v = P['HT'].T @ P['XT'] @ P['rT']
    Sl, vl, Kl, dl = [S], [v], [], []
    n, m = P['n'], P['m']
    for k in reversed(range(T)):
        F, L, c, H, r, Z, s, X, U, M = [P[q][k] for q in ('F', 'L', 'c', 'H', 'r', 'Z', 's', 'X', 'U', 'M')]
        # residual map: [y; w] = G [x;u] - g, weight W; successor: x+ = A [x;u] + c
        p = H.shape[0]
        G = np.block([[H, np.zeros((p, m))], [np.zeros((m, n)), Z]])
        g = np.concatenate([r, s])
        W = np.block([[X, M], [M.T, U]])
        A = np.hstack([F, L])
        Q = G.T @ W @ G + A.T @ S @ A
        q = G.T @ W @ g + A.T @ (v - S @ c)      # 1/2 z'Qz - q'z
        Quu = Q[n:, n:]
        K = np.linalg.solve(Quu, Q[n:, :n])
        d = np.linalg.solve(Quu, q[n:])
        S = Q[:n, :n] - Q[:n, n:] @ K
        S = 0.5 * (S + S.T)
        v = q[:n] - Q[:n, n:] @ d
        Sl.append(S); vl.append(v); Kl.append(K); dl.append(d)
    return [x[::-1] for x in (Kl, dl, Sl, vl)]


def rollout(P, K, d, x0):
    x = x0
    ul, xl = [], [x]
    for k in range(P['T']):
        u = d[k] - K[k] @ x
        x = P['F'][k] @ x + P['c'][k] + P['L'][k] @ u
        ul.append(u)
        xl.append(x)
    return ul, xl


def costof(P, ul, xl):
    y = P['HT'] @ xl[-1] - P['rT']
    J = 0.5 * y @ P['XT'] @ y
    for k in range(P['T']):
        y = P['H'][k] @ xl[k] - P['r'][k]
        w = P['Z'][k] @ ul[k] - P['s'][k]
        J += 0.5 * y @ P['X'][k] @ y + 0.5 * w @ P['U'][k] @ w + y @ P['M'][k] @ w
    return J


def random_gains(P, rng):
    K = [0.3 * rng.standard_normal((P['m'], P['n'])) / P['n'] for _ in range(P['T'])]
    d = [P['sc'] * rng.standard_normal(P['m']) for _ in range(P['T'])]
    return K, d


KINDS = ['full', 'varp', 'const', 'zeroX', 'zeroXT', 'singF', 'zeroL', 'noM', 'simple', 'int']
DIMS = [(1, 1, 1), (2, 1, 2), (2, 2, 1), (3, 2, 2), (2, 3, 3), (4, 2, 3), (1, 2, 2), (3, 3, 3), (5, 3, 4), (2, 1, 4), (6, 4, 2)]


def std_cases(ctx, what, kinds=KINDS, sizes=None, maxT=300):
    sizes = sizes or SIZES
    hs = hint_sizes(ctx, maxT)
    j = 0
    # breadth first: all kinds at small T, then sizes
    for T in (1, 2, 3, 5):
        for kind in kinds:
            n, m, p = DIMS[j % len(DIMS)]
            for w in what:
                yield dict(what=w, seed=ctx.seed * 1000 + j, T=T, n=n, m=m, p=p, kind=kind)
            j += 1
    for T in hs:
        n, m, p = DIMS[j % len(DIMS)]
        for w in what:
            yield dict(what=w, seed=ctx.seed * 1000 + j, T=T, n=n, m=m, p=p, kind='full')
        j += 1
    for h in hs:
        if h <= 24:
            for (n, m, p) in ((h, 2, 3), (3, h, 2), (2, 2, h)):
                for w in what:
                    yield dict(what=w, seed=ctx.seed * 1000 + j, T=4, n=n, m=m, p=p, kind='full')
                j += 1
    for T in sizes:
        if T > maxT:
            continue
        n, m, p = DIMS[j % len(DIMS)]
        kind = kinds[j % len(kinds)]
        for w in what:
            yield dict(what=w, seed=ctx.seed * 1000 + j, T=T, n=n, m=m, p=p, kind=kind)
        j += 1
    scs = [1e-3, 0.0, 30.0, 1e6, 1e-9] + mag_hints(ctx)
    wss = [1e-10, 1e-5, 1e4, 1e9] + mag_hints(ctx)
    for sc in scs:
        for T in (1, 6):
            for w in what:
                yield dict(what=w, seed=ctx.seed * 1000 + j, T=T, n=3, m=2, p=2, kind='full', scale=sc)
            j += 1
    for ws in wss:
        for T in (4, 7):
            for w in what:
                yield dict(what=w, seed=ctx.seed * 1000 + j, T=T, n=3, m=2, p=2, kind='full', wscale=ws)
            j += 1
    for ws, sc in ((1e-6, 1e-6), (1e6, 1e-4), (1e-4, 1e5)):
        for w in what:
            yield dict(what=w, seed=ctx.seed * 1000 + j, T=5, n=2, m=2, p=3, kind='full', scale=sc, wscale=ws)
        j += 1
    for r in range(4000 if ctx.thorough else 60):
        T = int(ctx.rng.integers(1, 30))
        n, m, p = [int(x) for x in ctx.rng.integers(1, 7, 3)]
        kind = kinds[int(ctx.rng.integers(0, len(kinds)))]
        for w in what:
            yield dict(what=w, seed=int(ctx.rng.integers(1 << 30)), T=T, n=n, m=m, p=p, kind=kind)

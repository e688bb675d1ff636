"""Continuous-time tracking problems and an independent reference (classical fourth-order steps of the Riccati, conditional-value and
closed-loop equations, written per component, and combination of conditional value elements)."""
from .common import *
inv = np.linalg.solve


def smooth(rng, shape, amp=0.4, base=None):
    a = rng.standard_normal(shape) if base is None else base
    b, c = amp * rng.standard_normal(shape), amp * rng.standard_normal(shape)
    w, ph = rng.uniform(0.5, 3.0), rng.uniform(0, 6)
    return lambda t: a + b * np.sin(w * t + ph) + c * t * 0.2


def smooth_spd(rng, n, lo=0.4):
    a, b = spd(rng, n, lo), rng.standard_normal((n, n)) * 0.5
    w = rng.uniform(0.5, 3.0)
    return lambda t: a + (1 + np.sin(w * t)) * (b @ b.T) / n


def zerof(shape):
    return lambda t: np.zeros(shape)


def problem(case):
    rng = np.random.default_rng(case['seed'])
    n, m, p = case['n'], case['m'], case['p']
    kind = case['kind']
    const = kind.startswith('lqr')
    P = dict(n=n, m=m, p=p, T=case['T'])
    P['F'] = smooth(rng, (n, n), 0.4, rng.standard_normal((n, n)) / np.sqrt(n))
    P['L'] = smooth(rng, (n, m))
    P['U'] = smooth_spd(rng, m, 0.6)
    P['H'] = smooth(rng, (p, n))
    P['X'] = smooth_spd(rng, p)
    P['r'] = smooth(rng, (p,), 0.8)
    P['c'] = smooth(rng, (n,), 0.6)
    P['HT'] = rng.standard_normal((p, n))
    P['XT'] = spd(rng, p)
    P['rT'] = rng.standard_normal(p)
    if kind == 'zeroL':
        P['L'] = zerof((n, m))
    if kind == 'zeroX':
        P['X'] = zerof((p, p))
    if kind == 'zeroXT':
        P['XT'] = np.zeros((p, p))
    if kind == 'static':
        for q in ('F', 'L', 'U', 'H', 'X', 'r', 'c'):
            v = P[q](0.3)
            P[q] = lambda t, v=v: v
    if kind == 'stationary':         # the value matrix does not change over the horizon, the value vector does
        P['m'] = P['p'] = n
        I = np.eye(n)
        for q, v in dict(F=0 * I, L=I, U=I, X=I, H=I).items():
            P[q] = lambda t, v=v: v
        P['r'] = smooth(rng, (n,), 0.8)
        P['HT'], P['XT'], P['rT'] = I, I, rng.standard_normal(n)
        P['T'] = 3 * P['T']
    if const:
        F, L, U = P['F'](0.), P['L'](0.), P['U'](0.)
        X, XT = spd(rng, n), spd(rng, n)
        if kind == 'lqr-int':
            F = rng.integers(-1, 2, (n, n))
            L = rng.integers(-1, 2, (n, m))
            X, U, XT = np.eye(n, dtype=int), 2 * np.eye(m, dtype=int), np.eye(n, dtype=int)
        P['const'] = dict(F=F, L=L, U=U, X=X, XT=XT)
        for q, v in dict(F=F, L=L, U=U, X=X, H=np.eye(n), r=np.zeros(n), c=np.zeros(n)).items():
            P[q] = lambda t, v=v: np.asarray(v, float)
        P['HT'], P['XT'], P['rT'], P['p'] = np.eye(n), np.asarray(XT, float), np.zeros(n), n
    P['x0'] = rng.standard_normal(n)
    if case['seed'] % 7 == 3:
        P['x0'] = 0 * P['x0']
    P['ST'] = P['HT'].T @ P['XT'] @ P['HT']
    P['vT'] = P['HT'].T @ P['XT'] @ P['rT']
    if 'blocks' in case:
        settle(P, case['blocks'] * case['steps'], case.get('t0') or 0.0)
    return P


def settle(P, tot, t0):
    """shorten the horizon until the grid resolves the equations (an explicit step on a stiff equation only amplifies rounding)"""
    for _ in range(40):
        dt = P['T'] / tot
        with np.errstate(all='ignore'):
            S = riccati(P, tot, dt, t0, P['ST'], P['vT'])[2]
            ok = all(np.isfinite(s).all() and np.abs(s).max() < 60 for s in S)
            if ok:
                worst = max(np.linalg.norm(P['F'](t0 + k * dt), 2) + np.linalg.norm(gen(P, t0 + k * dt)[1] @ S[k], 2) for k in range(tot))
                if worst * dt < 0.7:
                    return
        P['T'] *= 0.6


def rk4(f, h, x, t):
    """x: tuple of arrays"""
    ax = lambda a, k, s: tuple(p + s * q for p, q in zip(a, k))
    k1 = f(x, t)
    k2 = f(ax(x, k1, h / 2), t + h / 2)
    k3 = f(ax(x, k2, h / 2), t + h / 2)
    k4 = f(ax(x, k3, h), t + h)
    return tuple(a + h / 6 * (p + 2 * q + 2 * r + s) for a, p, q, r, s in zip(x, k1, k2, k3, k4))


def gen(P, t):
    F, L, U, H, X, r, c = [P[q](t) for q in ('F', 'L', 'U', 'H', 'X', 'r', 'c')]
    return F, L @ inv(U, L.T), c, H.T @ X @ H, H.T @ X @ r


def f_ric(P):
    def f(x, t):
        S, v = x
        F, G, c, Q, q = gen(P, t)
        return -F.T @ S - S @ F + S @ G @ S - Q, -q + S @ c - F.T @ v + S @ G @ v
    return f


def f_fw(P):
    def f(x, t):
        A, b, C, eta, J = x
        F, G, c, Q, q = gen(P, t)
        return F @ A - C @ Q @ A, F @ b + C @ (q - Q @ b) + c, F @ C + C @ F.T - C @ Q @ C + G, A.T @ (q - Q @ b), A.T @ Q @ A
    return f


def f_bw(P):
    def f(x, t):
        A, b, C, eta, J = x
        F, G, c, Q, q = gen(P, t)
        return A @ G @ J - A @ F, -A @ (G @ eta + c), -A @ G @ A.T, J @ (G @ eta + c) - F.T @ eta - q, J @ G @ J - J @ F - F.T @ J - Q
    return f


def ident(n):
    z, o = np.zeros((n, n)), np.zeros(n)
    return np.eye(n), o, z, o, z


def comb(e1, e2):
    A1, b1, C1, n1, J1 = e1
    A2, b2, C2, n2, J2 = e2
    n = len(b1)
    W = inv(np.eye(n) + C1 @ J2, np.eye(n))
    V = inv(np.eye(n) + J2 @ C1, np.eye(n))
    return (A2 @ W @ A1, A2 @ W @ (b1 + C1 @ n2) + b2, A2 @ W @ C1 @ A2.T + C2, A1.T @ V @ (n2 - J2 @ b1) + n1, A1.T @ V @ J2 @ A1 + J1)


def law(P, S, v, t):
    LT = P['L'](t).T
    return inv(P['U'](t), LT @ S), inv(P['U'](t), LT @ v)


def riccati(P, steps, dt, t0, S, v):
    Ss, vs, K, d = [S], [v], [], []
    f = f_ric(P)
    for k in range(steps - 1, -1, -1):
        S, v = rk4(f, -dt, (S, v), t0 + (k + 1) * dt)
        S = (S + S.T) / 2
        a, b = law(P, S, v, t0 + k * dt)
        Ss.insert(0, S), vs.insert(0, v), K.insert(0, a), d.insert(0, b)
    return K, d, Ss, vs


def closed(P, K, d, dt, t0, x, zoh):
    us, xs = [], [x]
    for k in range(len(K)):
        u = d[k] - K[k] @ x
        us.append(u)
        if zoh:
            f = lambda y, t: (P['F'](t) @ y[0] + P['L'](t) @ u + P['c'](t),)
        else:
            f = lambda y, t: (P['F'](t) @ y[0] + P['L'](t) @ (d[k] - K[k] @ y[0]) + P['c'](t),)
        x, = rk4(f, dt, (x,), t0 + k * dt)
        xs.append(x)
    return us, xs


def fwd_abc(P, steps, dt, t0, A, b, C):
    n = len(b)
    o, z = np.zeros(n), np.zeros((n, n))
    f = f_fw(P)
    out = [(A, b, C)]
    for k in range(steps):
        A, b, C = rk4(f, dt, (A, b, C, o, z), t0 + k * dt)[:3]
        C = (C + C.T) / 2
        out.append((A, b, C))
    return [list(q) for q in zip(*out)]


def combine(K, d, S, v, b, C):
    xs = [inv(np.eye(len(b[k])) + C[k] @ S[k], b[k] + C[k] @ v[k]) for k in range(len(S))]
    return [d[k] - K[k] @ xs[k] for k in range(len(K))], xs


def block_elem(P, steps, dt, t1, forward):
    e = ident(P['n'])
    for i in (range(steps) if forward else reversed(range(steps))):
        e = rk4(f_fw(P), dt, e, t1 + i * dt) if forward else rk4(f_bw(P), -dt, e, t1 + (i + 1) * dt)
        A, b, C, n, J = e
        e = A, b, (C + C.T) / 2, n, (J + J.T) / 2
    return e


def par_riccati(P, blocks, steps, dt, t0, forward, ST, vT):
    n = P['n']
    z, o = np.zeros((n, n)), np.zeros(n)
    cur = (z, o, z, vT, ST)
    ends = [cur]
    for k in reversed(range(blocks)):
        cur = comb(block_elem(P, steps, dt, t0 + k * steps * dt, forward), cur)
        ends.insert(0, cur)
    K, d, S, v = [], [], [ends[0][4]], [ends[0][3]]
    for k in range(blocks):
        a, b, s, w = riccati(P, steps, dt, t0 + k * steps * dt, ends[k + 1][4], ends[k + 1][3])
        K += a
        d += b
        S += s[1:]
        v += w[1:]
    return K, d, S, v


def block_flow(P, K, d, dt, t1, forward):
    n = P['n']
    x = (np.eye(n), np.zeros(n))
    idx = range(len(K)) if forward else reversed(range(len(K)))
    for i in idx:
        def tF(t):
            return P['F'](t) - P['L'](t) @ K[i], P['c'](t) + P['L'](t) @ d[i]
        if forward:
            x = rk4(lambda y, t: (tF(t)[0] @ y[0], tF(t)[0] @ y[1] + tF(t)[1]), dt, x, t1 + i * dt)
        else:
            x = rk4(lambda y, t: (-y[0] @ tF(t)[0], -y[0] @ tF(t)[1]), -dt, x, t1 + (i + 1) * dt)
    return x


def par_closed(P, K, d, blocks, steps, dt, t0, x0, forward, zoh):
    us, xs, x = [], [], x0
    for k in range(blocks):
        Kb, db = K[k * steps:(k + 1) * steps], d[k * steps:(k + 1) * steps]
        t1 = t0 + k * steps * dt
        u, y = closed(P, Kb, db, dt, t1, x, zoh)
        us += u
        xs += y[:-1]
        M, f = block_flow(P, Kb, db, dt, t1, forward)
        x = M @ x + f
    return us, xs + [x]


def par_fb(P, K, d, S, v, blocks, steps, dt, t0, x0, forward):
    n = P['n']
    z, o = np.zeros((n, n)), np.zeros(n)
    cur = (z, x0, z, o, z)
    us, xs = [], []
    for k in range(blocks):
        t1 = t0 + k * steps * dt
        A, b, C = fwd_abc(P, steps, dt, t1, *cur[:3])
        sl = slice(k * steps, (k + 1) * steps)
        u, y = combine(K[sl], d[sl], S[k * steps:(k + 1) * steps + 1], v[k * steps:(k + 1) * steps + 1], b, C)
        us += u
        xs += y[:-1]
        last = y[-1]
        cur = comb(cur, block_elem(P, steps, dt, t1, forward))
    return us, xs + [last]


KINDS = ['full', 'full', 'lqr', 'zeroX', 'zeroXT', 'static', 'zeroL', 'lqr-int']


def std_cases(ctx, quick=60, big=True):
    rng = ctx.rng
    i = 0
    sizes = [(1, 1), (1, 3), (3, 1), (2, 2), (4, 1), (2, 3), (1, 2), (5, 2), (3, 4), (8, 1), (7, 2), (2, 5)]
    for bl, st in [(b, s) for h in hint_sizes(ctx, 40) for b, s in ((h, 1), (1, h), (h, 2))] + sizes * 50:
        n, m, p = [(1, 1, 1), (2, 1, 1), (2, 2, 3), (3, 1, 2), (3, 3, 1), (4, 2, 4), (2, 3, 2)][i % 7]
        fine = i % 5 == 4
        yield dict(seed=int(ctx.seed) * 1000 + i, blocks=bl, steps=st * (25 if fine and bl * st <= 6 else 1), fine=bool(fine and bl * st <= 6), kind=KINDS[i % len(KINDS)],
                   n=n, m=m, p=p, T=[1.0, 0.4, 2.0][i % 3] if not fine else 0.7, t0=[None, 0.0, 0.35, -0.2][i % 4], forward=bool(i % 2))
        i += 1
        if i >= (quick if not ctx.thorough else quick * 6) * 8:
            return

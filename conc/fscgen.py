"""finite-state control problems and an independent oracle (plain Python dynamic programming over exact comparisons)"""
from .common import *

KINDS = ['float', 'int', 'neg', 'ties', 'bigscale', 'mixed', 'ltint', 'f32']


def problem(case):
    """case: seed T nx nu kind shared -> dict(f, L, LT) of per-stage lists"""
    rng = np.random.default_rng(case['seed'])
    T, nx, nu, kind = case['T'], case['nx'], case['nu'], case.get('kind', 'float')
    sh = case.get('shared', '')

    def fm():
        r = case.get('dyn', 'rand')
        if r == 'perm':
            return np.stack([rng.permutation(nx) for _ in range(nu)], axis=1)
        if r == 'shift':
            return (np.arange(nx)[:, None] + np.arange(nu)[None, :]) % nx
        if r == 'sink':
            f = rng.integers(0, nx, (nx, nu))
            f[rng.random((nx, nu)) < 0.5] = nx - 1
            return f
        if r == 'index':
            return np.broadcast_to(np.arange(nu)[None, :] % nx, (nx, nu)).copy()
        return rng.integers(0, nx, (nx, nu))

    def lm():
        if kind in ('int', 'ties'):
            return rng.integers(0, 3 if kind == 'ties' else 20, (nx, nu))
        if kind == 'neg':
            return 3 * rng.standard_normal((nx, nu)) - 1
        if kind == 'bigscale':
            return rng.random((nx, nu)) * 1e11
        if kind == 'mixed':
            return rng.integers(0, 9, (nx, nu)) if rng.random() < 0.5 else 5 * rng.random((nx, nu))
        if kind == 'f32':
            return rng.integers(0, 64, (nx, nu)).astype(np.float32) / 8
        return 10 * rng.random((nx, nu))

    f = fm() if 'f' in sh else [fm() for _ in range(T)]
    L = lm() if 'L' in sh else [lm() for _ in range(T)]
    if kind == 'ties':
        LT = rng.integers(0, 3, nx)
    elif kind == 'ltint':
        LT = rng.integers(-5, 6, nx)
    elif kind == 'bigscale':
        LT = rng.random(nx) * 1e11
    elif kind == 'f32':
        LT = (rng.integers(0, 64, nx) / 8).astype(np.float32)
    elif kind == 'neg':
        LT = 3 * rng.standard_normal(nx)
    else:
        LT = 10 * rng.random(nx)
    cs = case.get('cscale', 1.0)
    if cs != 1.0:
        L = cs * L if 'L' in sh else [cs * a for a in L]
        LT = cs * LT
    fl = [f] * T if 'f' in sh else f
    Ll = [L] * T if 'L' in sh else L
    return dict(T=T, nx=nx, nu=nu, f=fl, L=Ll, LT=LT, f_arg=f, L_arg=L, gamma=1.0 if kind == 'f32' else case.get('gamma', 1.0))


def make(P, mod):
    if isinstance(P['f_arg'], list) and isinstance(P['L_arg'], list):
        o = mod.FSC(P['f'], P['L'], P['LT'])
    elif isinstance(P['f_arg'], list) or isinstance(P['L_arg'], list):
        o = mod.FSC.checkAndExpand(P['f_arg'], P['L_arg'], P['LT'])
    else:
        o = mod.FSC.checkAndExpand(P['f_arg'], P['L_arg'], P['LT'], P['T'])
    if P['gamma'] != 1.0:
        o.gamma = P['gamma']
    return o


def bellman(P):
    """V[k][x], Q[k][x][u] with k-th stage discount"""
    T, nx, nu, g = P['T'], P['nx'], P['nu'], P['gamma']
    V = [None] * (T + 1)
    Q = [None] * T
    V[T] = [float(v) for v in P['LT']]
    for k in range(T - 1, -1, -1):
        Q[k] = [[float(P['L'][k][x, u]) + g * V[k + 1][int(P['f'][k][x, u])] for u in range(nu)] for x in range(nx)]
        V[k] = [min(q) for q in Q[k]]
    return V, Q


def tolv(P):
    """absolute tolerance on a cost: relative to the magnitude of the data"""
    m = max([1e-300] + [float(np.max(np.abs(a))) for a in P['L'] + [P['LT']]])
    return 1e-9 * m * (P['T'] + 1)


def check_values(P, V_list, V, what, tol):
    need(len(V_list) == P['T'] + 1, '%s: %d value functions, expected %d', what, len(V_list), P['T'] + 1)
    for k in range(P['T'] + 1):
        a = np.asarray(V_list[k], dtype=float)
        need(a.shape == (P['nx'],), '%s: V[%d] has shape %s', what, k, a.shape)
        d = np.max(np.abs(a - np.asarray(V[k])))
        need(d <= tol, '%s: V[%d] = %s, the least cost-to-go is %s', what, k, a.tolist()[:8], V[k][:8])


def check_law(P, u_list, V, Q, what, tol):
    need(len(u_list) == P['T'], '%s: %d control laws, expected %d', what, len(u_list), P['T'])
    for k in range(P['T']):
        a = np.asarray(u_list[k])
        need(a.shape == (P['nx'],), '%s: u[%d] has shape %s', what, k, a.shape)
        for x in range(P['nx']):
            u = int(a[x])
            need(u == a[x] and 0 <= u < P['nu'], '%s: u[%d][%d] = %s is not a control', what, k, x, a[x])
            need(Q[k][x][u] <= V[k][x] + tol, '%s: u[%d][%d] = %d has cost-to-go %r, the least is %r', what, k, x, u,
                 Q[k][x][u], V[k][x])


def rand_law(P, rng):
    return [rng.integers(0, P['nu'], P['nx']) for _ in range(P['T'])]


def rollout(P, law, x0):
    x, xs, us = x0, [x0], []
    for k in range(P['T']):
        u = int(law[k][x])
        x = int(P['f'][k][x, u])
        us.append(u)
        xs.append(x)
    return us, xs


def total(P, us, xs):
    return sum(float(P['L'][k][xs[k], us[k]]) for k in range(P['T'])) + float(P['LT'][xs[-1]])


def as_ints(a, what):
    out = []
    for v in list(np.asarray(a).reshape(-1)) if not isinstance(a, list) else a:
        need(np.ndim(v) == 0 and int(v) == v, '%s: entry %r is not a state or control index', what, v)
        out.append(int(v))
    return out


def on_optimal(P, V, Q, x0, tol):
    """sets of states that lie on some optimal trajectory from x0, per time (within tol per step)"""
    S = [{x0}]
    for k in range(P['T']):
        S.append({int(P['f'][k][x, u]) for x in S[-1] for u in range(P['nu']) if Q[k][x][u] <= V[k][x] + tol})
    return S


def std_cases(ctx, whats, gammas=(1.0,), cap=300, kinds=None, dims=None):
    base = int(ctx.rng.integers(1, 1 << 30)) if ctx.seed != 1 else 1000
    i = 0
    kinds = kinds or KINDS
    dyns = ['rand', 'perm', 'shift', 'sink', 'index']
    shs = ['', 'f', 'L', 'fL']
    dims = dims or [(3, 2), (1, 1), (2, 3), (1, 3), (4, 1), (5, 4), (3, 5), (2, 2), (6, 3), (8, 2), (12, 4), (21, 5)]
    sizes = SIZES + [s for s in hint_sizes(ctx, cap) if s not in SIZES]
    scs = [1e-9, 1e3, 1e6, 1e8, 1e10, 1e12] + [h for h in mag_hints(ctx) if h <= 1e13]
    # more states or controls than the narrow integer types can index
    for w in whats:
        for nx, nu in ((270, 2), (3, 270)):
            if w not in ('batch', 'comb'):
                yield dict(what=w, T=2, nx=nx, nu=nu, kind='float', dyn='rand', shared='', gamma=1.0, seed=base + 777)
    rnd = 0
    while rnd < (400 if ctx.thorough else 60):
        for T in sizes:
            if T > cap or (rnd > 2 and T > 70 and rnd % 5):
                continue
            for w in whats:
                i += 1
                nx, nu = dims[(i * 7 + rnd) % len(dims)]
                if T * nx > 1200:
                    nx = 3
                if T <= 8 and i % 5 == 0:
                    for cs in [scs[(i // 5) % len(scs)]] if rnd else scs[i % 2::2]:
                        yield dict(what=w, T=T, nx=nx, nu=nu, kind='neg' if i % 2 else 'float', dyn=dyns[(i // 2 + rnd) % len(dyns)],
                                   shared=shs[(i // 5) % len(shs)], gamma=gammas[(i + rnd) % len(gammas)], seed=base + i, cscale=cs)
                yield dict(what=w, T=T, nx=nx, nu=nu, kind=kinds[(i // 3 + rnd) % len(kinds)],
                           dyn=dyns[(i // 2 + rnd) % len(dyns)], shared=shs[(i // 5) % len(shs)],
                           gamma=gammas[(i + rnd) % len(gammas)], seed=base + i)
        rnd += 1

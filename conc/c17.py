"""C17: grid value functions - finite-difference passes, combinations of conditional value functions, sequential and parallel passes."""
from .common import *
import jax
jax.config.update('jax_enable_x64', True)
import jax.numpy as jnp
import tensorflow as tf
import parallel_control.hjb_grid_1d_np as hn
import parallel_control.hjb_grid_1d_tf as ht
import parallel_control.cnonlin_models_np as mn
import parallel_control.cnonlin_models_tf as mt
tf.config.threading.set_intra_op_parallelism_threads(1)
tf.config.threading.set_inter_op_parallelism_threads(1)

RULE = ('random conditional value functions (also with equal neighbours, minima at the ends of the grid, infinite entries for the plain '
        'combination), random smooth models on grids with random numbers of points, blocks and steps; '
        'a case is non-trivial when distinct in (routine, sizes, seed)')


def cases(ctx):
    whats = ['comb', 'combtf', 'fd', 'fdtf', 'assoc', 'assoctf', 'par', 'partf', 'shoot', 'models']
    hs = hint_sizes(ctx, 12)
    j = 0
    for r in range(4000 if ctx.thorough else 60):
        for w in whats:
            if w == 'shoot' and r % 12 or w == 'models' and r % 8:
                continue
            if w == 'partf' and r % 3 and r > 6:
                continue
            n = int(ctx.rng.integers(2, 9)) if r > 4 else (2, 3, 4, 5, 7)[r]
            B = int(ctx.rng.integers(1, 6)) if r > 5 else (1, 2, 3, 4, 5, 6)[r]
            S = int(ctx.rng.integers(1, 7)) if r > 3 else (1, 2, 3, 5)[r]
            if w in ('fd', 'fdtf'):
                B = int(ctx.rng.integers(1, 12)) if r > 5 else B
                if r > 5 and r - 6 < len(hs):
                    S = max(1, hs[r - 6])
            yield dict(what=w, seed=ctx.seed * 1000 + j, n=n, blocks=B, steps=S, r=r)
            j += 1


def parab(f):
    """minimum refined by the parabola through the minimiser and its neighbours"""
    j = int(np.argmin(f))
    if j == 0 or j == len(f) - 1:
        return f[j]
    d = f[j + 1] + f[j - 1] - 2 * f[j]
    return f[j] if d == 0 else f[j] - (f[j + 1] - f[j - 1]) ** 2 / (8 * d)


def plain(P, Q):
    return np.array([[min(P[i, j] + Q[j, k] for j in range(P.shape[1])) for k in range(Q.shape[1])] for i in range(P.shape[0])])


def interp(P, Q):
    return np.array([[parab(P[i, :] + Q[:, k]) for k in range(Q.shape[1])] for i in range(P.shape[0])])


def table(rng, n, kind):
    if kind == 0:
        return rng.standard_normal((n, n))
    if kind == 1:                                   # small integers: ties and flat stretches
        return rng.integers(0, 3, (n, n)).astype(float)
    if kind == 2:                                   # convex in the difference: interior minima
        x = np.linspace(-1, 1, n)
        return (x[None, :] - x[:, None] * rng.uniform(0.3, 1)) ** 2 * 5 + 0.1 * rng.uniform(size=(n, n))
    if kind == 3:                                   # minima at the ends
        return np.outer(np.ones(n), np.arange(n)) * rng.choice([-1.0, 1.0]) + 0.01 * rng.uniform(size=(n, n))
    return np.zeros((n, n)) + rng.standard_normal()


def scale(r):
    """powers of two: the arithmetic of the combinations scales exactly, so that the size of the values must not matter"""
    return (1.0, 1.0, 2.0 ** -17, 1.0, 2.0 ** 17, 1.0, 2.0 ** -34)[r % 7]


def check(case):
    rng = np.random.default_rng(case['seed'])
    w, n, r = case['what'], case['n'], case['r']
    if w == 'comb':
        P, Q = table(rng, n, int(rng.integers(0, 5))), table(rng, n, int(rng.integers(0, 5)))
        if r % 3 == 1:
            Q = np.repeat(rng.standard_normal((n, 1)), n, axis=1)
        sc = scale(r)
        for f in (hn.combine_V_interp, hn.combine_V_interp2):
            v = np.asarray(f(jnp.asarray(P * sc), jnp.asarray(Q * sc))) / sc
            close(v, interp(P, Q), '%s: parabola-refined minimum' % f.__name__, 1e-9)
            need(np.all(v <= plain(P, Q) + 1e-9), '%s exceeds the plain minimum', f.__name__)
        big = lambda M: np.where(rng.uniform(size=M.shape) < 0.3, 1e20, M) if r % 2 else M
        P, Q = big(P), big(Q)
        for f in (hn.combine_V, hn.combine_V2):
            close(f(jnp.asarray(P), jnp.asarray(Q)), plain(P, Q), '%s: minimum over the intermediate point' % f.__name__, 1e-12)
            close(np.where(np.asarray(f(jnp.asarray(P), jnp.asarray(Q))) < 1e19, np.asarray(f(jnp.asarray(P), jnp.asarray(Q))), 0),
                  np.where(plain(P, Q) < 1e19, plain(P, Q), 0), '%s: finite minimum over the intermediate point' % f.__name__, 1e-9)
        W = table(rng, n, 0)
        es = [P, Q, W]
        got = hn.par_backward_pass_scan([jnp.asarray(z) for z in es])
        need(len(got) == 3, 'scan length')
        lim = lambda z: np.where(np.asarray(z) < 1e19, np.asarray(z), 0)
        close(lim(got[0]), lim(plain(P, plain(Q, W))), 'suffix minima of the plain combination', 1e-9)
        close(lim(got[1]), lim(plain(Q, W)), 'suffix minima of the plain combination', 1e-9)
        close(lim(got[2]), lim(W), 'suffix minima of the plain combination', 1e-9)
    elif w == 'combtf':
        b = 1 + r % 3
        P = np.stack([table(rng, n, int(rng.integers(0, 5))) for _ in range(b)])
        Q = np.stack([table(rng, n, int(rng.integers(0, 5))) for _ in range(b)])
        c = tf.constant
        for f, ref, rev in ((ht.combine_V, plain, 0), (ht.combine_V2, plain, 0), (ht.combine_V_rev, plain, 1),
                            (ht.combine_V_interp, interp, 0), (ht.combine_V_interp_rev, interp, 1)):
            sc = scale(r)
            v = (f(c(Q * sc), c(P * sc)) if rev else f(c(P * sc), c(Q * sc))) / sc
            close(v, np.stack([ref(p, q) for p, q in zip(P, Q)]), 'tf %s' % f.__name__, 1e-9)
    elif w in ('fd', 'fdtf'):
        fd(case, rng, w == 'fdtf')
    elif w in ('assoc', 'assoctf', 'par', 'partf'):
        passes(case, rng, w)
    elif w == 'shoot':
        shoot(case, rng)
    elif w == 'models':
        models(case, rng)


def fd(case, rng, istf):
    n, B, S, r = case['n'], case['blocks'], case['steps'], case['r']
    q = rng.standard_normal(6)
    nu = int(rng.integers(1, 6))
    T = float(rng.uniform(0.2, 2))
    xg = np.linspace(-1.0 + 0.2 * q[0], 1.3, n)
    ug = np.sort(rng.uniform(-1, 1, nu))
    zero = r % 3 == 2          # dynamics that vanish at some grid points, and a constant running cost
    if zero:
        xg = np.linspace(-1.0, 1.0, n | 1)
        f = lambda x, u: x * u * u
        L = lambda x, u: 0.0
    else:
        f = lambda x, u: q[1] * x + u + 0.3 * q[2] * x * x
        L = lambda x, u: x * x + q[3] * x * u + u * u
    LT = lambda x: q[4] * x * x + q[5] * x
    n = len(xg)
    dx, dt = xg[1] - xg[0], T / B / S
    arr = (lambda v: tf.constant(v, dtype=tf.float64)) if istf else jnp.asarray
    for up in (False, True):
        V = LT(xg)
        ref = [V]
        for i in range(B):
            for j in range(S):
                W = np.empty(n)
                for k in range(n):
                    fw = (V[k + 1] - V[k]) / dx if k < n - 1 else (V[k] - V[k - 1]) / dx
                    bw = (V[k] - V[k - 1]) / dx if k > 0 else (V[k + 1] - V[k]) / dx
                    ce = (V[k + 1] - V[k - 1]) / (2 * dx) if 0 < k < n - 1 else fw
                    best = np.inf
                    for u in ug:
                        v = f(xg[k], u)
                        D = ce if not up else (fw if v > 0 else bw)
                        best = min(best, L(xg[k], u) + v * D)
                    W[k] = V[k] + dt * best
                V = W
            ref.insert(0, V)
        nm = ('upwind' if up else 'symmetric') + (' tf' if istf else '')
        if np.max(np.abs(ref[0])) > 1e9:
            continue
        if istf:
            g = (ht.seq_bw_pass_upwind if up else ht.seq_bw_pass_symfd)(f, L, LT, tf.constant(T, dtype=tf.float64), B, S, arr(xg), arr(ug))
        else:
            h = hn.HJB_Grid_1d(f, L, LT, T, B, S, arr(xg))
            g = (h.seqBackwardPass_upwind if up else h.seqBackwardPass_symfd)(arr(ug))
        need(len(g) == B + 1, '%s pass returns %d value functions for %d blocks', nm, len(g), B)
        for k in range(B + 1):
            close(np.asarray(g[k]), ref[k], '%s finite-difference pass, boundary %d of %d (steps %d)' % (nm, k, B, S), 1e-7)


def brackets(es):
    """all values of the ordered combination of es over every bracketing"""
    tab = {}
    m = len(es)
    for i in range(m):
        tab[i, i + 1] = [es[i]]
    for ln in range(2, m + 1):
        for i in range(m - ln + 1):
            tab[i, i + ln] = [interp(a, b) for c in range(i + 1, i + ln) for a in tab[i, c] for b in tab[c, i + ln]]
    return [tab[i, m] for i in range(m)]


def passes(case, rng, w):
    n, B, r = case['n'], case['blocks'], case['r']
    kind = (2, 0, 1, 3, 2)[r % 5]
    if w.startswith('par'):
        B = min(B, 4)
        n = min(n, 5)
    sc = scale(r)
    bV = table(rng, n, kind)
    q = rng.standard_normal(2)
    LT = lambda x: sc * (q[0] * x * x + q[1] * x)
    xg = np.linspace(-1, 1, n)
    VT = np.repeat(LT(xg)[:, None], n, axis=1) / sc
    es = [bV] * B + [VT]
    sV = sc * bV
    if w in ('assoc', 'par'):
        h = hn.HJB_Grid_1d(None, None, LT, 1.0, B, case['steps'], jnp.asarray(xg))
        g = h.seqBackwardPass_assoc(jnp.asarray(sV)) if w == 'assoc' else h.parBackwardPass(jnp.asarray(sV))
    elif w == 'assoctf':
        g = ht.seq_bw_pass_assoc(LT, B, tf.constant(xg), tf.constant(sV))
    else:
        kw = {} if r % 2 else dict(max_parallel=max(2, B + 1))
        g = ht.par_bw_pass(LT, B, tf.constant(xg), tf.constant(sV), **kw)
    need(len(g) == B + 1, '%d value functions for %d blocks', len(g), B)
    g = [np.asarray(z) / sc for z in g]
    if w.startswith('assoc'):
        ref = [VT]
        for _ in range(B):
            ref.insert(0, interp(bV, ref[0]))
        for k in range(B + 1):
            close(np.asarray(g[k]), ref[k][:, 0], 'sequential associative pass at boundary %d' % k, 1e-7)
        return
    if kind == 1:       # integer tables: ties of refined minima depend on rounding; only finiteness and order of size is checked there
        for k in range(B + 1):
            need(np.all(np.isfinite(np.asarray(g[k]))), 'parallel pass is not finite')
        close(np.asarray(g[B]), VT[:, 0], 'terminal value', 1e-9)
        return
    al = brackets(es)
    for k in range(B + 1):
        d = min(float(np.max(np.abs(np.asarray(g[k]) - a[:, 0]))) for a in al[k])
        need(d <= 1e-7, 'parallel pass at boundary %d is no ordered combination of the blocks after it (off by %.3g)', k, d)


def shoot(case, rng):
    """linear-quadratic model: conditional value functions are the exact constrained minima over the parametrised controls"""
    n, S, r = 3, min(case['steps'], 3) + 1, case['r']
    q = 0.3 * rng.standard_normal(3)
    g = lambda x, u: q[0] * x + u
    L = lambda x, u: 0.5 * x * x + (1 + q[1]) * u * u
    T = float(rng.uniform(0.4, 1.5))
    xg = np.linspace(-1, 1, n)
    h = hn.HJB_Grid_1d(g, L, None, T * 2, 2, S, jnp.asarray(xg))

    def sim(x0, ctrl, N):
        z = np.array([x0, 0.0])
        dt = T / N
        for k in range(N):
            F = lambda s, p: np.array([g(p[0], ctrl(k, s)), L(p[0], ctrl(k, s))])
            k1 = F(0.0, z)
            k2 = F(dt / 2, z + dt / 2 * k1)
            k3 = F(dt / 2, z + dt / 2 * k2)
            k4 = F(dt, z + dt * k3)
            z = z + dt / 6 * (k1 + 2 * k2 + 2 * k3 + k4)
        return z

    def value(method, x0, xf):
        m = 2 * S if method == 1 else S + 1

        def fc(th):
            if method == 1:
                a, b = th[0::2], th[1::2]
                z = sim(x0, lambda k, s: a[k] + b[k] * s, S)
            else:
                vs = th[0] + T / S * np.concatenate([[0], np.cumsum(th[1:])])
                z = sim(x0, lambda k, s: vs[k] + th[1 + k] * s, S)
            return z[1], z[0] - xf
        E = np.eye(m)
        c0, d0 = fc(np.zeros(m))
        one = [fc(E[i]) for i in range(m)]
        neg = [fc(-E[i]) for i in range(m)]
        gr = np.array([(a[0] - b[0]) / 2 for a, b in zip(one, neg)])
        H = np.empty((m, m))
        for i in range(m):
            for j in range(m):
                H[i, j] = fc(E[i] + E[j])[0] - one[i][0] - one[j][0] + c0
        A = np.array([a[1] - d0 for a in one])[None, :]
        z = np.linalg.solve(np.block([[H, -A.T], [A, np.zeros((1, 1))]]), np.concatenate([-gr, [-d0]]))
        th = z[:m]
        return c0 + gr @ th + 0.5 * th @ H @ th
    for method in (1, 2):
        ref = np.array([[value(method, a, b) for b in xg] for a in xg])
        if method == 2 or r == 0:
            kw = {} if method == 2 else dict(method=1)
            if r % 2:
                kw['max_iter'] = 3
            close(np.asarray(h.directShootingValueFunction(**kw)), ref, 'shooting value function, method %d' % method, 1e-6)


def models(case, rng):
    nx, nu = int(rng.integers(2, 30)), int(rng.integers(2, 30))
    x, u = rng.uniform(-2, 2, 7), rng.uniform(-2, 2, 7)
    for m, c in ((mn, jnp.asarray), (mt, lambda v: tf.constant(v, tf.float64))):
        tag = 'tf ' if m is mt else ''
        for nm, f, L, LT, lo, hi, ul, uh in (
                ('linear_model', x + u, 0.5 * x * x + 0.5 * u * u, x * x, -2, 2, -2, 2),
                ('velocity_model', 1 - 0.1 * x * x + u, 0.5 * x * x + 0.5 * u * u, 2 * x * x, -3, 3, -2, 2),
                ('upwind_model', x * u, 0 * x, -x, -1, 1, 0, 1)):
            ff, LL, TT, T, xg, ug = getattr(m, nm)(nx, nu)
            close(np.asarray(ff(c(x), c(u))), f, tag + nm + ' dynamics', 1e-12)
            close(np.asarray(LL(c(x), c(u))) + 0 * x, L, tag + nm + ' running cost', 1e-12)
            close(np.asarray(TT(c(x))), LT, tag + nm + ' terminal cost', 1e-12)
            close(np.asarray(xg), np.linspace(lo, hi, nx), tag + nm + ' state grid', 1e-12)
            close(np.asarray(ug), np.linspace(ul, uh, nu), tag + nm + ' control grid', 1e-12)
            need(abs(float(T) - 1.0) < 1e-12, nm + ' horizon')
        dtb = float(rng.uniform(0.05, 1))
        gx = np.linspace(-1, 1, nx)
        V = np.asarray(m.upwind_model_block_V(7.5, c(dtb) if m is mt else dtb, c(gx)))
        a = np.exp(dtb)
        for i in range(nx):
            for k in range(nx):
                lo, hi = sorted((gx[i], a * gx[i]))
                if min(abs(gx[k] - lo), abs(gx[k] - hi)) < 1e-9 and lo != gx[k] and hi != gx[k]:
                    continue
                need(V[i, k] == (0.0 if lo <= gx[k] <= hi else 7.5), tag + 'upwind block value function at (%d, %d)', i, k)

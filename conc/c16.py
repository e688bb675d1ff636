"""C16: equality constrained quadratic subproblems, Newton-KKT iterations and the shooting form of a control problem."""
import math
from .common import *
import jax
jax.config.update('jax_enable_x64', True)
import jax.numpy as jnp
import tensorflow as tf
import parallel_control.sqp_np as sn
import parallel_control.sqp_tf as st
import parallel_control.hjb_grid_1d_np as hn
import parallel_control.hjb_grid_1d_tf as ht
tf.config.threading.set_intra_op_parallelism_threads(1)
tf.config.threading.set_inter_op_parallelism_threads(1)

RULE = ('random quadratic subproblems (indefinite, batched, without curvature in some directions), random smooth programs with analytic '
        'derivatives, iteration counts and tolerances, shooting problems over horizons; a case is non-trivial when distinct in (routine, sizes, seed)')


def cases(ctx):
    whats = ['kkt', 'kkttf', 'newton', 'newtontf', 'deriv', 'bfgs', 'bfgseq', 'shoot1', 'shoot2', 'shoottf']
    hs = hint_sizes(ctx, 120)
    j = 0
    for r in range(4000 if ctx.thorough else 45):
        for w in whats:
            if w in ('newtontf', 'deriv', 'newton') and r > 3 and (r + len(w)) % 4:
                continue
            n = int(ctx.rng.integers(1, 8)) if r > 5 else (1, 2, 3, 2, 5, 4)[r]
            m = int(ctx.rng.integers(0 if w == 'kkt' and r > 5 else 1, n + 1)) if r > 3 else (1, 1, 2, 2)[r]
            N = (1, 2, 3, 5, 49, 8, 12, 98)[r] if r < 8 else (hs[r - 8] if r - 8 < len(hs) else int(ctx.rng.integers(1, 60)))
            yield dict(what=w, seed=ctx.seed * 1000 + j, n=n, m=m, N=N, r=r)
            j += 1


class Prog:
    """min 1/2 x'Qx + g'x + sum cos(Cx)   s.t.  A x - b + D sin(E x) = 0   (analytic first and second derivatives)"""

    def __init__(self, rng, n, m, lin=False):
        self.n, self.m = n, m
        s = 0.0 if lin else 0.2
        self.Q = spd(rng, n, 0.5)
        self.g, self.b = rng.standard_normal(n), rng.standard_normal(m)
        self.A = np.eye(n)[:m] + 0.3 * rng.standard_normal((m, n))
        self.C, self.E = s * rng.standard_normal((n, n)), rng.standard_normal((m, n))
        self.D = s * rng.standard_normal((m, m))

    def f(self, x, np=np):
        return 0.5 * np.dot(x, self.Q @ x) + np.dot(self.g, x) + np.sum(np.cos(self.C @ x))

    def c(self, x, np=np):
        return self.A @ x - self.b + self.D @ np.sin(self.E @ x)

    def df(self, x):
        return self.Q @ x + self.g - self.C.T @ np.sin(self.C @ x)

    def dc(self, x):
        return self.A + self.D @ (np.cos(self.E @ x)[:, None] * self.E)

    def hl(self, x, lam):
        q = self.D.T @ lam
        return self.Q - self.C.T @ (np.cos(self.C @ x)[:, None] * self.C) + self.E.T @ ((q * np.sin(self.E @ x))[:, None] * self.E)

    def dl(self, x, lam):
        return self.df(x) - self.dc(x).T @ lam

    def newton(self, x, lam):
        n, m = self.n, self.m
        G, A = self.hl(x, lam), self.dc(x)
        z = np.linalg.solve(np.block([[G, -A.T], [A, np.zeros((m, m))]]), np.concatenate([-self.df(x), -self.c(x)]))
        return x + z[:n], z[n:], np.linalg.norm(self.dl(x, lam))


def kkt_data(rng, n, m):
    while True:
        G = rng.standard_normal((n, n))
        G = 0.5 * (G + G.T)
        k = rng.integers(4)
        if k == 0:
            G = spd(rng, n, 0.3)
        if k == 1 and m:
            G = G @ np.diag((np.arange(n) >= m) * 1.0)
            G = G.T @ G
        A = rng.standard_normal((m, n))
        K = np.block([[G, -A.T], [A, np.zeros((m, m))]])
        if np.linalg.cond(K) < 1e3:
            return G, rng.standard_normal(n), A, rng.standard_normal(m)


def residual(G, c, A, b, x, lam, what):
    need(np.shape(x) == np.shape(c) and np.shape(lam) == np.shape(b), '%s: shapes of step and multipliers', what)
    r1, r2 = G @ x - A.T @ lam + c, A @ x - b
    s = 1 + np.max(np.abs(np.concatenate([x, lam, c, b])))
    need(np.max(np.abs(r1)) <= 1e-9 * s, '%s: stationarity residual %.3g', what, np.max(np.abs(r1)))
    need(len(b) == 0 or np.max(np.abs(r2)) <= 1e-9 * s, '%s: constraint residual %.3g', what, np.max(np.abs(r2), initial=0))


def check(case):
    w = case['what']
    rng = np.random.default_rng(case['seed'] + 7)
    n, m, r = case['n'], case['m'], case['r']
    tf.config.run_functions_eagerly(r % 4 != 3)
    if w == 'kkt':
        d = kkt_data(rng, n, m)
        fz = freeze(*d)
        x, lam = sn.lqe_solve(*[jnp.asarray(q) for q in d] if r % 2 else d)
        residual(*d, np.asarray(x), np.asarray(lam), 'quadratic subproblem')
        unchanged(fz, *d)
    elif w == 'kkttf':
        sh = [(), (3,), (2, 3), (1,)][r % 4]
        k = int(np.prod(sh))
        D = [kkt_data(rng, n, max(m, 1)) for _ in range(k)]
        args = [tf.constant(np.array([d[i] for d in D]).reshape(sh + D[0][i].shape)) for i in range(4)]
        x, lam = [t.numpy() for t in st.lqe_solve(*args)]
        need(x.shape == sh + (n,) and lam.shape == sh + (max(m, 1),), 'batched quadratic subproblem: shapes')
        for d, a, b in zip(D, x.reshape(-1, n), lam.reshape(k, -1)):
            residual(*d, a, b, 'batched quadratic subproblem')
    elif w == 'newton':
        P = Prog(rng, n, max(m, 1), lin=r % 5 == 4)
        x = x0 = 0.5 * rng.standard_normal(n)
        lam = np.zeros(P.m)
        fun, con = lambda z: P.f(z, jnp), lambda z: P.c(z, jnp)
        xs, cr = [x], [1.0]
        for k in range(12):
            x, lam, cc = P.newton(x, lam)
            xs.append(x)
            cr.append(cc)
        ok = max(np.max(np.abs(q)) for q in xs) < 50
        for mi, tol in ((0, 1e-6), (1, 1e-6), (3, 1e-6), (12, 1e-6), (12, 1e-2), (12, 1e-1)):
            if not ok and mi > 3:
                continue
            k = 0
            while k < mi and cr[k] > tol:
                k += 1
            if any(abs(cr[q] - tol) < 0.1 * tol for q in range(k + 1)):
                continue
            a, it, crit = sn.local_eq(fun, con, jnp.asarray(x0), max_iter=mi, tol=tol, quiet=True)
            need(it == k, 'solver stops after %d iterations, the criterion is met after %d', it, k)
            close(np.asarray(a), xs[k], 'iterate of the Newton-KKT iteration', 1e-6)
            need(abs(crit - cr[k]) <= 1e-6 * (1 + cr[k]), 'returned criterion is not the norm of the Lagrangian gradient')
        for mi in ((1, 2, 5) if ok else (1, 2)):
            a, it, crit = sn.local_eq_fast(fun, con, jnp.asarray(x0), mi)
            need(it == mi, 'iteration count')
            close(np.asarray(a), xs[mi], 'iterate of the fast Newton-KKT iteration', 1e-6)
            need(abs(crit - cr[mi]) <= 1e-6 * (1 + cr[mi]), 'criterion of the fast iteration')
        if r < 3:
            a, it, crit = sn.local_eq_fast(fun, con, jnp.asarray(x0))
            close(np.asarray(a), xs[5], 'default number of fast iterations', 1e-6)
    elif w in ('newtontf', 'deriv'):
        P = Prog(rng, n, max(m, 1))
        B = 1 + r % 3
        Q, g, b, A, C, E, D = [tf.constant(q) for q in (P.Q, P.g, P.b, P.A, P.C, P.E, P.D)]
        mv, rs = tf.linalg.matvec, tf.reduce_sum
        par = tf.constant(rng.standard_normal(B))

        def fun(x, p):
            return 0.5 * rs(x * mv(Q, x), -1) + rs(g * x, -1) + rs(tf.cos(mv(C, x)), -1) + rs(x, -1) * p

        def con(x, p):
            return mv(A, x) - b + mv(D, tf.sin(mv(E, x))) - tf.expand_dims(p, -1)

        def at(i):
            p = par.numpy()[i]
            R = Prog(rng, n, P.m)
            R.__dict__.update(P.__dict__)
            R.g, R.b = P.g + p, P.b + p
            return R
        X, Lm = 0.5 * rng.standard_normal((B, n)), rng.standard_normal((B, P.m))
        if w == 'deriv':
            for i in range(B):
                R = at(i)
                x, l, p = tf.constant(X[i]), tf.constant(Lm[i]), par[i]
                v, gr = st.fun_value_grad(fun, x, p)
                close(v.numpy(), R.f(X[i]), 'objective value')
                close(gr.numpy(), R.df(X[i]), 'objective gradient')
                v, gr = st.con_value_jac(con, x, p)
                close(v.numpy(), R.c(X[i]), 'constraint value')
                close(gr.numpy(), R.dc(X[i]), 'constraint Jacobian')
                v, gr, h = st.lag_value_grad_hess(fun, con, x, l, p)
                close(v.numpy(), R.f(X[i]) - Lm[i] @ R.c(X[i]), 'Lagrangian value')
                close(gr.numpy(), R.dl(X[i], Lm[i]), 'Lagrangian gradient')
                close(h.numpy(), R.hl(X[i], Lm[i]), 'Lagrangian Hessian')
            x, l = tf.constant(X), tf.constant(Lm)
            V = [st.fun_value_grad(fun, x, par, batch=True), st.con_value_jac(con, x, par, batch=True),
                 st.lag_value_grad_hess(fun, con, x, l, par, batch=True)]
            for i in range(B):
                R = at(i)
                for t, q, nm in zip((V[0][0], V[0][1], V[1][0], V[1][1], V[2][0], V[2][1], V[2][2]),
                                    (R.f(X[i]), R.df(X[i]), R.c(X[i]), R.dc(X[i]), R.f(X[i]) - Lm[i] @ R.c(X[i]), R.dl(X[i], Lm[i]), R.hl(X[i], Lm[i])),
                                    ('objective', 'gradient', 'constraint', 'Jacobian', 'Lagrangian', 'Lagrangian gradient', 'Lagrangian Hessian')):
                    close(t.numpy()[i], q, 'batched ' + nm)
            return
        K = 1 + r % 3
        bs, ls, cs = [t.numpy() for t in st.local_eq_fast(fun, con, tf.constant(X), par, K, batch=True)]
        need(len(bs) == K and len(ls) == K and len(cs) == K, 'one iterate per iteration')
        S = [(X[i], np.zeros(P.m)) for i in range(B)]
        for k in range(K):
            cc = math.sqrt(sum(np.sum(at(i).dl(*S[i]) ** 2) for i in range(B)))
            S = [at(i).newton(*S[i])[:2] for i in range(B)]
            if max(np.max(np.abs(np.concatenate(q))) for q in S) > 50:
                break
            for i in range(B):
                close(bs[k][i], S[i][0], 'batched iterate', 1e-6)
                close(ls[k][i], S[i][1], 'batched multipliers', 1e-6)
            need(abs(cs[k] - cc) <= 1e-6 * (1 + cc), 'criterion')
        a, l, cc = [t.numpy() for t in st.local_eq_fast(fun, con, tf.constant(X[0]), par[0], K)]
        R = at(0)
        x, lam = X[0], np.zeros(P.m)
        for k in range(K):
            x, lam, c0 = R.newton(x, lam)
            if max(np.max(np.abs(x)), np.max(np.abs(lam))) > 50:
                break
            close(a[k], x, 'iterate', 1e-6)
            close(l[k], lam, 'multipliers', 1e-6)
            need(abs(cc[k] - c0) <= 1e-6 * (1 + c0), 'criterion')
    elif w == 'bfgs':
        B = spd(rng, n, 0.3)
        s, y = rng.standard_normal(n), rng.standard_normal(n)
        sy, sBs = s @ y, s @ B @ s
        fz = freeze(B, s, y)
        C = np.asarray(sn.bfgs_basic_update(B, s, y, quiet=True))
        sc = np.max(np.abs(B)) + y @ y / max(abs(sy), 1e-9)
        if sy > 0:
            need(np.max(np.abs(C @ s - y)) <= 1e-9 * (1 + sc), 'secant equation')
            need(np.max(np.abs(C - C.T)) <= 1e-9 * (1 + sc), 'symmetry')
        else:
            need(np.array_equal(C, B), 'update without positive curvature must be skipped')
        C = np.asarray(sn.bfgs_damped_update(B, s, y, quiet=True))
        th = 1.0 if sy >= 0.2 * sBs else 0.8 * sBs / (sBs - sy)
        z = th * y + (1 - th) * B @ s
        sc = 1 + np.max(np.abs(B)) + z @ z / (s @ z)
        need(np.max(np.abs(C @ s - z)) <= 1e-9 * sc, 'damped secant equation')
        need(s @ z >= 0.2 * sBs * (1 - 1e-9), 'damped curvature')
        need(np.max(np.abs(C - C.T)) <= 1e-9 * sc, 'symmetry (damped)')
        need(np.linalg.eigvalsh(C)[0] > -1e-9 * sc, 'damped update loses positive definiteness')
        for Z in range(2):
            U = np.linalg.qr(rng.standard_normal((n, n)))[0]
            v = U[:, 0] - s * (s @ B @ U[:, 0]) / sBs     # B-orthogonal to s
            v = v - (0 if n == 1 else 0)
            need(abs(v @ C @ v - (v @ B @ v + (v @ z) ** 2 / (s @ z))) <= 1e-8 * sc * (1 + v @ v), 'update away from the step')
        unchanged(fz, B, s, y)
    elif w == 'bfgseq':
        P = Prog(rng, n, max(1, min(m, n)), lin=r % 2 == 0)
        fun, con = lambda z: P.f(z, jnp), lambda z: P.c(z, jnp)
        x0 = 0.3 * rng.standard_normal(n)
        for damped in (True, False):
            kw = {} if damped and r % 2 else dict(damped=damped)
            for mi, tol in ((1, 1e-6), (3, 1e-6), (60, 1e-4)):
                x, it, crit = sn.bfgs_eq_bt(fun, con, jnp.asarray(x0), max_iter=mi, tol=tol, quiet=True, **kw)
                ref = bfgs_ref(P, x0, mi, tol, damped)
                if ref is None:
                    continue
                need(it == ref[1], 'quasi-Newton solver took %d iterations instead of %d', it, ref[1])
                close(np.asarray(x), ref[0], 'quasi-Newton iterate', 1e-4)
                need(abs(crit - ref[2]) <= 1e-4 * (1 + ref[2]), 'quasi-Newton criterion')
    elif w in ('shoot1', 'shoot2', 'shoottf'):
        shooting(case, w, rng)


def bfgs_ref(P, x, mi, tol, damped):
    """independent transcription of the method: None where a comparison is decided within rounding"""
    n, m = P.n, P.m
    B, lam = np.eye(n), np.zeros(m)
    it, crit = 0, 1.0
    mer = lambda q: P.f(q) + np.sum(np.abs(P.c(q)))
    while it < mi and crit > tol:
        A = P.dc(x)
        z = np.linalg.solve(np.block([[B, -A.T], [A, np.zeros((m, m))]]), np.concatenate([-P.df(x), -P.c(x)]))
        p, pl = z[:n], z[n:] - lam
        a, k, m0 = 1.0, 0, mer(x)
        while True:
            d = mer(x + a * p) - m0
            if abs(d) < 1e-9 * (1 + abs(m0)):
                return None
            if not (d > 0 and k < 10):
                break
            a, k = 0.5 * a, k + 1
        if k == 10:
            a = 1.0
        s = a * p
        xn = x + s
        lam = lam + a * pl
        y = P.dl(xn, lam) - P.dl(x, lam)
        sy, Bs = s @ y, B @ s
        if abs(sy) < 1e-9 or np.max(np.abs(xn)) > 1e3:
            return None
        if damped:
            if sy < 0.2 * s @ Bs:
                t = 0.8 * (s @ Bs) / (s @ Bs - sy)
                y = t * y + (1 - t) * Bs
            B = B + np.outer(y, y) / (s @ y) - np.outer(Bs, Bs) / (s @ Bs)
        elif sy > 0:
            B = B + np.outer(y, y) / sy - np.outer(Bs, Bs) / (s @ Bs)
        x, it = xn, it + 1
        crit = np.linalg.norm(P.dl(x, lam))
        if abs(crit - tol) < 0.01 * tol:
            return None
    return x, it, crit


def rk4(f, t, dt, x):
    k1 = f(t, x)
    k2 = f(t + dt / 2, x + dt / 2 * k1)
    k3 = f(t + dt / 2, x + dt / 2 * k2)
    k4 = f(t + dt, x + dt * k3)
    return x + dt / 6 * (k1 + 2 * k2 + 2 * k3 + k4)


def simulate(g, L, T, x0, ctrl, N):
    """controls ctrl(k, s): value at time s into step k"""
    z = np.array([x0, 0.0])
    dt = T / N
    for k in range(N):
        z = rk4(lambda s, q: np.array([g(q[0], ctrl(k, s)), L(q[0], ctrl(k, s))]), 0.0, dt, z)
    return z


def shooting(case, w, rng):
    N = case['N']
    q = 0.3 * rng.standard_normal(6)
    T = float(rng.choice([1.0, 0.5, 0.2, 2.0, rng.uniform(0.1, 3)]))

    def mk(sin):
        return (lambda x, u: q[0] * x + u + q[1] * sin(x) + q[2] * u * x), (lambda x, u: 0.5 * x ** 2 + (1 + q[3]) * u ** 2 + q[4] * x * u + 0.1 * sin(u))
    g, L = mk(np.sin)
    x0, xf = rng.standard_normal(2)
    a, b = rng.standard_normal((2, N))
    th = rng.standard_normal(N + 1)
    dt = T / N
    vs = th[0] + dt * np.concatenate([[0], np.cumsum(th[1:])])
    r1 = simulate(g, L, T, x0, lambda k, s: a[k] + b[k] * s, N)
    r2 = simulate(g, L, T, x0, lambda k, s: vs[k] + th[1 + k] * s, N)
    tol = 1e-8
    if w != 'shoottf':
        gj, Lj = mk(jnp.sin)
        if w == 'shoot1':
            cT, cc = hn.fun_and_con_1(gj, Lj, T, x0, xf, jnp.asarray(a), jnp.asarray(b))
            ref = r1
        else:
            cT, cc = hn.fun_and_con_2(gj, Lj, T, x0, xf, jnp.asarray(th))
            ref = r2
        need(np.shape(cc) == (1,), 'constraint vector')
        close(float(cT), ref[1], 'cost of the shooting parametrisation', tol)
        close(float(cc[0]), ref[0] - xf, 'constraint of the shooting parametrisation', tol)
        return
    B = 1 + case['r'] % 3
    gt, Lt = mk(tf.sin)
    X0, XF = rng.standard_normal((2, B))
    Tt = tf.constant(T, tf.float64)
    A_, B_, TH = rng.standard_normal((B, N)), rng.standard_normal((B, N)), rng.standard_normal((B, N + 1))
    c1, k1 = [t.numpy() for t in ht.fun_and_con_1(gt, Lt, Tt, tf.constant(X0), tf.constant(XF), tf.constant(A_), tf.constant(B_))]
    c2, k2 = [t.numpy() for t in ht.fun_and_con_2(gt, Lt, Tt, tf.constant(X0), tf.constant(XF), tf.constant(TH))]
    need(k1.shape == (B, 1) and k2.shape == (B, 1) and c1.shape == (B,), 'shapes of batched cost and constraint')
    for i in range(B):
        z = simulate(g, L, T, X0[i], lambda k, s: A_[i, k] + B_[i, k] * s, N)
        close(c1[i], z[1], 'batched cost', tol)
        close(k1[i, 0], z[0] - XF[i], 'batched constraint', tol)
        vs = TH[i, 0] + dt * np.concatenate([[0], np.cumsum(TH[i, 1:])])
        z = simulate(g, L, T, X0[i], lambda k, s: vs[k] + TH[i, 1 + k] * s, N)
        close(c2[i], z[1], 'batched cost (continuous controls)', tol)
        close(k2[i, 0], z[0] - XF[i], 'batched constraint (continuous controls)', tol)

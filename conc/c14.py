from .common import *
import math
import parallel_control.diffeq_np as diffeq_np
import parallel_control.disc as disc
from scipy.integrate import quad_vec

RULE = ('random vector fields in the four call forms, polynomial fields for exactness, random linear systems (integer, float32, '
        'stiff, nilpotent, defaults) against independent Taylor/quadrature oracles; distinct in all case fields')


def cases(ctx):
    i = 0
    r = 0
    mags = [1.0, 1e-3, 0.3, 2.0, -0.5, 1e-6, 10.0] + mag_hints(ctx)[:6]
    while r < (2000 if ctx.thorough else 40):
        for w in ('form', 'cubic', 'order', 'disc', 'discu', 'tf'):
            for k in range(8):
                i += 1
                yield dict(what=w, seed=ctx.seed * 100000 + i, n=[1, 2, 3, 4, 6, 1, 2, 5][k], m=[1, 2, 1, 3, 2, 2, 1, 3][(k + r) % 8], form=(i + r) % 4,
                           dt=mags[(i + r) % len(mags)], kind=['float', 'int', 'intF', 'f32', 'nilp', 'zero', 'mixed'][(i // 3 + r) % 7],
                           t0=[0.0, 1.5, -2.0, 0, 7][(i + 2 * r) % 5])
        r += 1


def stage_rk4(f, dt, x, t):
    k1 = f(x, t)
    k2 = f(x + dt * k1 / 2, t + dt / 2)
    k3 = f(x + dt * k2 / 2, t + dt / 2)
    k4 = f(x + dt * k3, t + dt)
    return x + dt * (k1 + 2 * k2 + 2 * k3 + k4) / 6


def check_rk4(case, rk4, arr_of=lambda v: v, tf=False):
    rng = np.random.default_rng(case['seed'])
    n, m, form, dt, t0 = case['n'], case['m'], case['form'], case['dt'], case['t0']
    if tf:
        form = 3
        t0 = float(t0)
    w = case['what'] if not tf else ['form', 'cubic'][case['seed'] % 2]
    if w == 'order':
        # exact flow of a linear system is matched to fourth order: the local defect is O(dt^5)
        A = rng.standard_normal((n, n)) / max(n, 1)
        x = rng.standard_normal(n)
        h = 0.02
        y = rk4((lambda z: A @ z), h, x) if form in (0, 2) else rk4((lambda z, t: A @ z), h, x, 0.3)
        want = sum(np.linalg.matrix_power(A, k) @ x * h ** k / math.factorial(k) for k in range(5))
        close(y, want, 'fourth-order Taylor polynomial of a linear field', 1e-12)
        return
    if w == 'cubic':
        c = rng.standard_normal((4, n))
        x = rng.standard_normal(n)

        def g(t):
            return c[0] + c[1] * t + c[2] * t ** 2 + c[3] * t ** 3

        def G(t):
            return c[0] * t + c[1] * t ** 2 / 2 + c[2] * t ** 3 / 3 + c[3] * t ** 4 / 4
        par = rng.standard_normal(n)
        if tf:
            y = rk4(lambda z, t, p: arr_of(c[0]) + arr_of(c[1]) * t + arr_of(c[2]) * t ** 2 + arr_of(c[3]) * t ** 3 + p, arr_of(dt), arr_of(x), arr_of(t0), arr_of(par))
            want = x + G(t0 + dt) - G(t0) + par * dt
        elif form % 2 == 0:
            y = rk4(lambda z, t: g(t), dt, x, t0)
            want = x + G(t0 + dt) - G(t0)
        else:
            y = rk4(lambda z, t, p: g(t) + p, dt, x, t0, par)
            want = x + G(t0 + dt) - G(t0) + par * dt
        close(y, want, 'time polynomial of degree three is integrated exactly', 1e-10,
              scale=max(1e-12, abs(dt)) * (1 + abs(t0) + abs(dt)) ** 3 * 10 + float(np.max(np.abs(x))) * 1e-3)
        return
    shape = (n,) if m == 1 else ((n, m) if m == 2 else (m, n, 2))
    A = rng.standard_normal(shape)
    B = rng.standard_normal(shape)
    x = rng.standard_normal(shape)
    if case['kind'] in ('int', 'intF') and not tf:
        x = rng.integers(-3, 4, shape)
    par = rng.standard_normal(shape)

    def f(z, t, p):
        return A * z + B * np.cos(z) * 0.5 + np.sin(1.3 * t) * A + p * z
    if abs(dt) > 3:
        dt = 0.5
    calls = []
    if tf:
        import tensorflow as tfm
        tA, tB = arr_of(A), arr_of(B)
        y = rk4(lambda z, t, p: tA * z + tB * tfm.cos(z) * 0.5 + tfm.sin(1.3 * t) * tA + p * z, arr_of(dt), arr_of(x), arr_of(t0), arr_of(par))
        want = stage_rk4(lambda z, t: f(z, t, par), dt, x, t0)
        close(y, want, 'classical Runge-Kutta step (TensorFlow)', 1e-10)
        return
    fz = freeze(x, par)
    if form == 0:
        y = rk4(lambda z: f(z, 0.0, 0.3), dt, x)
        want = stage_rk4(lambda z, t: f(z, 0.0, 0.3), dt, x, 0.0)
    elif form == 1:
        y = rk4(lambda z, p: f(z, 0.0, p), dt, x, param=par)
        want = stage_rk4(lambda z, t: f(z, 0.0, par), dt, x, 0.0)
    elif form == 2:
        y = rk4(lambda z, t: f(z, t, 0.3), dt, x, t0)
        want = stage_rk4(lambda z, t: f(z, t, 0.3), dt, x, t0)
    else:
        y = rk4(lambda z, t, p: f(z, t, p), dt, x, t0, par)
        want = stage_rk4(lambda z, t: f(z, t, par), dt, x, t0)
    close(y, want, 'classical Runge-Kutta step (call form %d)' % form, 1e-11, scale=max(1e-300, min(1.0, abs(dt))) + 1e-4)
    unchanged(fz, x, par, what='the state or parameter')


def taylor_expm(A):
    """independent matrix exponential: scaling and squaring of the Taylor series in extended precision"""
    A = np.asarray(A, dtype=np.longdouble)
    nrm = float(np.max(np.sum(np.abs(A), axis=1))) if A.size else 0.0
    s = max(0, int(math.ceil(math.log2(nrm))) + 4) if nrm > 0 else 0
    B = A / np.longdouble(2) ** s
    E = np.eye(A.shape[0], dtype=np.longdouble)
    term = E.copy()
    for k in range(1, 26):
        term = term @ B / k
        E = E + term
    for _ in range(s):
        E = E @ E
    return E


def check(case):
    w = case['what']
    if w == 'tf':
        return check_tf(case)
    if w in ('form', 'cubic', 'order'):
        return check_rk4(case, diffeq_np.rk4)
    rng = np.random.default_rng(case['seed'])
    n, m, kind = case['n'], case['m'], case['kind']
    dt = abs(case['dt'])
    if dt > 2:
        dt = 0.7
    F = rng.standard_normal((n, n)) * 0.8
    L = rng.standard_normal((n, m))
    G = rng.standard_normal((n, m + 1))
    tol = 1e-9
    if kind == 'int':
        F, L, G = rng.integers(-2, 3, (n, n)), rng.integers(-2, 3, (n, m)), rng.integers(-2, 3, (n, m + 1))
    elif kind == 'intF':
        F = rng.integers(-2, 3, (n, n))
    elif kind == 'f32':
        F, L, G = F.astype(np.float32), L.astype(np.float32), G.astype(np.float32)
        tol = 2e-4
    elif kind == 'nilp':
        F = np.diag(np.ones(n - 1), 1)
    elif kind == 'zero':
        F = np.zeros((n, n))
    elif kind == 'mixed':
        F = F.astype(np.float32)
        tol = 2e-4
    Qm = spd(rng, m, 0.1)
    qk = case['seed'] % 4
    if qk == 0:
        Qc, Qf = None, np.eye(m)
    elif qk == 1 and m == 1:
        Qc = 0.37
        Qf = np.array([[Qc]])
    else:
        Qc, Qf = Qm, Qm
    if qk == 3 and m == 1:
        Qc = 3
        Qf = np.array([[3.0]])
    if kind == 'f32' and Qc is not None and not np.isscalar(Qc):
        Qf = Qf
    fz = freeze(F, L, G, Qc)
    Fd, Ld, Gd = [np.asarray(a, dtype=float) for a in (F, L, G)]
    A = np.asarray(taylor_expm(Fd * dt), dtype=float)
    gl, gw = np.polynomial.legendre.leggauss(24)
    Qs = np.zeros((n, n))
    Bi = np.zeros((n, n))
    for a, b in zip(gl, gw):
        s = (a + 1) / 2 * dt
        E = np.asarray(taylor_expm(Fd * s), dtype=float)
        Qs += b / 2 * dt * E @ Ld @ Qf @ Ld.T @ E.T
        Bi += b / 2 * dt * E
    dflt = case['seed'] % 5 == 0
    if dflt:    # default step
        A = np.asarray(taylor_expm(Fd), dtype=float)
        Qs, Bi = np.zeros((n, n)), np.zeros((n, n))
        for a, b in zip(gl, gw):
            s = (a + 1) / 2
            E = np.asarray(taylor_expm(Fd * s), dtype=float)
            Qs += b / 2 * E @ Ld @ Qf @ Ld.T @ E.T
            Bi += b / 2 * E
    kw = {} if dflt else {'dt': dt}
    if w == 'disc':
        Ar, Qr = disc.lti_disc(F, L, Qc, **kw)
    else:
        g = case['seed'] % 3 != 0
        Ar, Br, Qr = disc.lti_disc_u(F, L, G if g else None, Qc, **kw)
        B = Bi @ Gd if g else Bi
        close(Br, B, 'zero-order-hold input matrix', tol, scale=max(1e-9, float(np.max(np.abs(B)))))
    close(Ar, A, 'transition matrix', tol)
    close(Qr, Qs, 'process noise covariance', tol * 10, scale=max(1e-12, float(np.max(np.abs(Qs)))) if np.max(np.abs(Qs)) else 1.0)
    unchanged(fz, F, L, G, Qc, what='system matrices')


_TF = {}


def check_tf(case):
    if not _TF:
        import tensorflow as tf
        import parallel_control.diffeq_tf as dtf
        _TF['tf'], _TF['m'] = tf, dtf
    tf = _TF['tf']
    if case['seed'] % 3 == 0 and case['form'] < 2:
        rng = np.random.default_rng(case['seed'])
        x = rng.standard_normal(case['n'])
        A = rng.standard_normal((case['n'], case['n'])) / case['n']
        h = 0.05
        y = _TF['m'].rk4(lambda z, t, p: tf.linalg.matvec(tf.constant(A), z), tf.constant(h, tf.float64), tf.constant(x))
        want = sum(np.linalg.matrix_power(A, k) @ x * h ** k / math.factorial(k) for k in range(5))
        close(y, want, 'classical step of a linear field with default time and parameter (TensorFlow)', 1e-12)
        return
    check_rk4(case, _TF['m'].rk4, lambda v: tf.constant(np.asarray(v, dtype=float), dtype=tf.float64), tf=True)

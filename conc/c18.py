"""C18: bundled models - tables, encodings, dynamics, Jacobians, tracking problems."""
from .common import *
import math
from scipy import linalg
import tensorflow as tf
from parallel_control.finite_model_np import FiniteModel
import parallel_control.ge_model_np as ge
from parallel_control.text_model import TextModel
from parallel_control.linear_model_np import LinearModel
import parallel_control.linear_model_tf as ltf
from parallel_control.mass_model_np import MassModel
from parallel_control.nonlinear_model_np import NonlinearModel
try:
    import parallel_control.nonlinear_model_tf as nltf
except ImportError:
    nltf = None

RULE = ('random alphabets, orders, error rates and training texts; random grids and horizons of the tracking problems; random states and controls for the '
        'dynamics and Jacobians; a case is non-trivial when distinct in (model, sizes, seed)')


def cases(ctx):
    whats = ['text', 'textn', 'finite', 'ge', 'linear', 'clqt', 'mass', 'nonlin', 'nontf', 'nonlqt', 'guess']
    j = 0
    for r in range(2000 if ctx.thorough else 40):
        for w in whats:
            if w in ('clqt', 'mass') and r % 4:
                continue
            yield dict(what=w, seed=ctx.seed * 1000 + j, r=r)
            j += 1


def stochastic(P, tol=1e-9):
    return bool(np.all(P >= 0) and np.all(np.isfinite(P)) and np.allclose(P.sum(-1), 1.0, atol=tol))


ALPH = ' abcdefghijklmnopqrstuvwxyz'


def rnd_text(rng, chars, n):
    return ''.join(chars[int(k)] for k in rng.integers(0, len(chars), n))


def check(c):
    rng = np.random.default_rng(c['seed'])
    m = globals()['do_' + c['what']](rng, c['r'])
    need(m is None, '%s', m)


def do_text(rng, r):
    n = int(rng.integers(1, 28)) if r else 27
    chars = ''.join(rng.permutation(list(ALPH))[:n]) if r else ALPH
    if r % 8 == 5:                      # large alphabets: positions beyond one byte
        n = int(rng.choice([255, 256, 257, 300, 400]))
        chars = ''.join(rng.permutation([chr(0x4e00 + i) for i in range(n)]))
    errp = float(rng.choice([0.0, 1.0, 0.1, rng.uniform()]))
    m = TextModel(chars, errp) if r else TextModel()
    errp = errp if r else 0.1
    t = rnd_text(rng, chars, int(rng.integers(0, 40)))
    ys = m.textToIndex(t)
    if len(ys) != len(t) or any(chars[int(y)] != q for y, q in zip(ys, t)):
        return 'textToIndex does not give the positions of the characters'
    if m.indexToText(ys) != t:
        return 'decoding the encoded text gives %r, want %r' % (m.indexToText(ys), t)
    Po = m.get1stOrderPo()
    want = (1 - errp) * np.eye(n) + errp / n
    if Po.shape != (n, n) or not stochastic(Po) or not np.allclose(Po, want):
        return 'get1stOrderPo'
    tr = rnd_text(rng, chars, int(rng.integers(1, 60)))
    cnt = np.ones((n, n))
    for a, b in zip(tr, tr[1:]):
        cnt[chars.index(a), chars.index(b)] += 1
    Pi = m.get1stOrderPi(tr)
    if not stochastic(Pi) or not np.allclose(Pi, cnt / cnt.sum(1, keepdims=True)):
        return 'get1stOrderPi: not the normalised transition counts'
    pr = m.get1stOrderPrior(tr)
    w = np.array([1.0 + tr.count(q) for q in chars])
    if not stochastic(pr) or not np.allclose(pr, w / w.sum()):
        return 'get1stOrderPrior: not the normalised character counts'
    np.random.seed(int(rng.integers(1 << 30)))
    ny = m.makeNoisyText(t)
    if len(ny) != len(t) or any(q not in chars for q in ny) or (errp == 0.0 and ny != t):
        return 'makeNoisyText'


def do_textn(rng, r):
    n, order = [(2, 1), (2, 2), (3, 2), (2, 3), (4, 2), (3, 3), (1, 2), (5, 2), (2, 4)][r % 9]
    chars = ''.join(rng.permutation(list(ALPH))[:n])
    errp = float(rng.uniform())
    m = TextModel(chars, errp, order)
    N = n ** order
    words = [''.join(chars[(i // n ** (order - 1 - p)) % n] for p in range(order)) for i in range(N)]
    if m.cond_chars != words or any(m.cond_dict[q] != i for i, q in enumerate(words)) or len(m.cond_dict) != N:
        return 'states of the chain of order %d are not the words in lexicographic order' % order
    Po = m.getNthOrderPo()
    P1 = (1 - errp) * np.eye(n) + errp / n
    if Po.shape != (N, n) or not stochastic(Po) or not np.allclose(Po, [P1[chars.index(q[-1])] for q in words]):
        return 'getNthOrderPo: emission of a state is not that of its last character'
    tr = rnd_text(rng, chars, int(rng.integers(order, 50)))
    cnt = np.full((N, N), 1e-12)
    for i, a in enumerate(words):
        for k, b in enumerate(words):
            if a[1:] == b[:-1]:
                cnt[i, k] += 1
    for k in range(len(tr) - order):
        cnt[words.index(tr[k:k + order]), words.index(tr[k + 1:k + 1 + order])] += 1
    Pi = m.getNthOrderPi(tr)
    if Pi.shape != (N, N) or not stochastic(Pi) or not np.allclose(Pi, cnt / cnt.sum(1, keepdims=True)):
        return 'getNthOrderPi: not the normalised transition counts'
    pr = m.getNthOrderPrior(tr)
    w = np.ones(N)
    for k in range(len(tr) - order + 1):
        w[words.index(tr[k:k + order])] += 1
    if not stochastic(pr) or not np.allclose(pr, w / w.sum()):
        return 'getNthOrderPrior: not the normalised word counts'
    states, x = [], int(rng.integers(N))
    for k in range(12):                                # a path of the chain: the decoded text is its sequence of last characters
        states.append(x)
        x = int(rng.choice(np.flatnonzero(Pi[x] > 1e-6)))
    got = m.indexToText(np.array(states))
    if got != ''.join(words[s][-1] for s in states):
        return 'indexToText: not the last characters of the states'
    for a, b in zip(states, states[1:]):
        if words[a][1:] != words[b][:-1]:
            return 'a possible transition does not shift the word'


def do_finite(rng, r):
    nx, T = int(rng.integers(1, 12)) if r else 21, int(rng.integers(1, 30))
    m = FiniteModel(int(rng.integers(1000)))
    tr, x0 = m.genData(T, nx) if r else m.genData(T)
    tr2, _ = m.genData(T, nx)
    if tr.shape != (nx, T) or not 0 <= x0 < nx or not (np.all(tr > 0) and np.all(tr <= 1)):
        return 'genData: track %s, start %s' % (tr.shape, x0)
    if not np.array_equal(tr, tr2):
        return 'genData: not reproducible from the seed'
    # every column is the product of two masks centred in the grid
    mask = {-2: .5, -1: .3, 0: .1, 1: .3, 2: .5}
    col = lambda p: np.array([mask.get(y - p, 1.0) for y in range(nx)])
    for k in range(T):
        if not any(np.allclose(tr[:, k], col(p) * col(q)) for p in range(nx) for q in range(nx)):
            return 'genData: column %d is not a product of two obstacle masks' % k
    track = rng.uniform(0, 3, (nx, T))
    keep = track.copy()
    fsc = m.getFSC(track)
    f = np.asarray(fsc.f)
    if not np.array_equal(track, keep):
        return 'getFSC changes the track'
    for k in range(T):
        fk = np.asarray(fsc.f[k])
        if fk.shape != (nx, 3) or fk.min() < 0 or fk.max() > nx - 1:
            return 'getFSC: next state outside the grid'
        want = np.stack([np.maximum(np.arange(nx) - 1, 0), np.arange(nx), np.minimum(np.arange(nx) + 1, nx - 1)], 1)
        if not np.array_equal(fk, want):
            return 'getFSC: moves'
        if not np.allclose(fsc.L[k], track[:, k:k + 1] + np.array([1.0, 0.0, 1.0])):
            return 'getFSC: cost of stage %d' % k
    if len(fsc.f) != T or len(fsc.L) != T or np.any(np.asarray(fsc.LT) != 0):
        return 'getFSC: horizon or terminal cost'


def do_ge(rng, r):
    m = ge.GEModel(int(rng.integers(1000)))
    ps = np.array([[.97, .03], [.1, .9]])
    pb = np.array([[.95, .05], [.05, .95]])
    q = [.1, .3]
    Pi = np.array([[ps[i % 2, j % 2] * pb[i // 2, j // 2] for j in range(4)] for i in range(4)])
    Po = np.array([[1 - q[i % 2] if y == i // 2 else q[i % 2] for y in range(2)] for i in range(4)])
    if not (stochastic(m.Pi) and stochastic(m.Po) and stochastic(m.prior)):
        return 'GEModel: not probability tables'
    if not (np.allclose(m.Pi, Pi) and np.allclose(m.Po, Po)):
        return 'GEModel: not the product of channel and bit chains'
    T = int(rng.integers(1, 60))
    x, y = m.genData(T)
    x2, y2 = m.genData(T)
    if len(x) != T or len(y) != T or x.min() < 0 or x.max() > 3 or y.min() < 0 or y.max() > 1 or np.any(x != x2) or np.any(y != y2):
        return 'GEModel.genData'
    xs = rng.integers(0, 4, T)
    keep = xs.copy()
    b = ge.get_b_list(xs)
    if not np.array_equal(b, xs // 2) or not np.array_equal(xs, keep):
        return 'get_b_list: %r for %r' % (b.tolist(), xs.tolist())


def tracking(lqt, x0, data, steps, d, H, Xl, Xn, U):
    N = data.shape[1]
    T = N * steps
    if not (len(lqt.F) == len(lqt.L) == len(lqt.X) == len(lqt.U) == len(lqt.r) == len(lqt.H) == T):
        return 'one entry per step'
    for k in range(T):
        if not np.allclose(lqt.r[k], data[:, k // steps]):
            return 'reference of step %d' % k
        if not np.allclose(lqt.X[k], Xl if k % steps == 0 else Xn):
            return 'weight of step %d' % k
        if not np.allclose(lqt.H[k], H) or not np.allclose(lqt.U[k], U):
            return 'output or control weight of step %d' % k
    if not np.allclose(x0[:d], data[:, 0]) or np.any(x0[d:] != 0):
        return 'initial state'


def do_linear(rng, r):
    N, steps = int(rng.integers(1, 8)), int(rng.integers(1, 8))
    m = LinearModel(int(rng.integers(1000)))
    xy = m.genData(int(rng.integers(1, 400)))
    if np.any(~np.isfinite(xy)) or xy.min() < -0.5 or xy.max() > 10.5:
        return 'genData leaves the room'
    if xy.shape[1] > 1 and not np.all(np.linalg.norm(np.diff(xy), axis=0) <= 1.0 + 1e-9):
        return 'genData: a step longer than the step length'
    data = rng.standard_normal((2, N))
    keep = data.copy()
    lqt, x0 = m.getLQT(data, steps)
    if not np.array_equal(data, keep):
        return 'getLQT changes the data'
    dt = 1.0 / steps
    F = np.eye(4)
    F[0, 2] = F[1, 3] = dt
    L = np.array([[dt * dt / 2, 0], [0, dt * dt / 2], [dt, 0], [0, dt]])
    H = np.eye(2, 4)
    for k in range(N * steps):
        if not np.allclose(lqt.F[k], F) or not np.allclose(lqt.L[k], L):
            return 'getLQT: not the double integrator sampled at dt'
    if not np.allclose(lqt.rT, [data[0, -1], data[1, -1], 0, 0]) or not np.allclose(lqt.HT, np.eye(4)) or not np.allclose(lqt.XT, np.eye(4)):
        return 'getLQT: terminal reference'
    return tracking(lqt, x0, data, steps, 2, H, 100 * np.eye(2), 1e-6 * np.eye(2), 0.1 * np.eye(2))


CX = [5.7770, -2.6692, 1.1187, 0.1379, 0.5718, 1.1214, 0.2998, 0.3325, 0.7451, 0.2117, 0.6595, 0.0401, -0.2995]
CY = [4.3266, -1.4584, -1.2457, 1.1804, 0.2035, 0.5123, 1.0588, 0.2616, -0.6286, -0.3802, 0.2750, -0.0070, -0.0022]


def do_clqt(rng, r):
    m, x0 = LinearModel().getCLQT()
    x0t, T, XT, HT, rT, Ff, Lf, Xf, Uf, cf, Hf, rf = ltf.get_clqt()
    A = np.zeros((4, 4))
    A[0, 2] = A[1, 3] = 1
    B = np.zeros((4, 2))
    B[2, 0] = B[3, 1] = 1
    for t in rng.uniform(0, 50, 4):
        w = [c[0] + sum(c[2 * k - 1] * math.cos(2 * k * math.pi * t / 50) + c[2 * k] * math.sin(2 * k * math.pi * t / 50) for k in range(1, 7)) for c in (CX, CY)]
        tt = tf.constant(t, dtype=tf.float64)
        for nm, a, b, want in (('F', m.F, Ff, A), ('L', m.L, Lf, B), ('X', m.X, Xf, np.eye(2)), ('U', m.U, Uf, .1 * np.eye(2)),
                               ('H', m.H, Hf, np.eye(2, 4)), ('c', m.c, cf, np.zeros(4)), ('r', m.r, rf, np.array(w))):
            if not np.allclose(a(t), want):
                return 'getCLQT: %s at t = %g' % (nm, t)
            if not np.allclose(b(tt).numpy(), want):
                return 'get_clqt (tf): %s at t = %g' % (nm, t)
    for nm, a, b in (('T', m.T, T), ('XT', m.XT, XT), ('HT', m.HT, HT), ('rT', m.rT, rT), ('x0', x0, x0t)):
        if not np.allclose(a, b.numpy()):
            return 'getCLQT and get_clqt differ in ' + nm
    if not (np.allclose(m.XT, np.eye(4)) and np.allclose(m.HT, np.eye(4)) and np.allclose(x0, [5, 5, 0, 0]) and np.allclose(m.rT, [4.9514, 4.4353, 0, 0]) and m.T == 50):
        return 'getCLQT: terminal data'


def do_mass(rng, r):
    N = int(rng.integers(1, 9)) if r else 5
    m = MassModel(N)
    dt, Tf = float(rng.choice([0.005, 0.01, 0.25])), float(rng.choice([0.5, 1.0]))
    c, d = 1.0, 0.2
    F = np.zeros((2 * N, 2 * N))
    for i in range(N):                                  # chain with walls at both ends: m x'' = c (left + right - 2 x) + d (...)
        F[2 * i, 2 * i + 1] = 1
        for j, w in ((i - 1, 1), (i, -2), (i + 1, 1)):
            if 0 <= j < N:
                F[2 * i + 1, 2 * j] += w * c
                F[2 * i + 1, 2 * j + 1] += w * d
    B = np.zeros((2 * N, 2))
    B[1, 0] = 1
    B[-1, 1] = -1
    if not np.allclose(m.Fc, F) or not np.allclose(m.Lc, B):
        return 'MassModel(%d): continuous dynamics' % N
    lqt, x0 = m.getLQT(dt, Tf)
    T = int(Tf / dt)
    E = linalg.expm(np.block([[F, B], [np.zeros((2, 2 * N + 2))]]) * dt)
    if len(lqt.F) != T or len(lqt.U) != T:
        return 'MassModel: one entry per step'
    for k in (0, T // 2, T - 1):
        if not np.allclose(lqt.F[k], E[:2 * N, :2 * N]) or not np.allclose(lqt.L[k], E[:2 * N, 2 * N:]):
            return 'MassModel: sampled dynamics'
        if not np.allclose(lqt.X[k], np.eye(2 * N)) or not np.allclose(lqt.U[k], .1 * np.eye(2)):
            return 'MassModel: weights'
    w = np.zeros(2 * N)
    w[0] = 1
    w[N if N % 2 == 0 else N - 1] = 1
    if not np.allclose(lqt.XT, np.eye(2 * N)) or not np.array_equal(x0, w):
        return 'MassModel: terminal weight or initial state'


def num_jac(f, x, h=1e-6):
    return np.stack([(f(x + h * e) - f(x - h * e)) / (2 * h) for e in np.eye(len(x))], 1)


def do_nonlin(rng, r):
    dt = float(rng.uniform(0.01, 1.0))
    m = NonlinearModel(dt) if r else NonlinearModel()
    dt = dt if r else 0.1
    x, u = rng.standard_normal(4) * 2, rng.standard_normal(2)
    want = np.array([x[0] + dt * x[3] * math.cos(x[2]), x[1] + dt * x[3] * math.sin(x[2]), x[2] + dt * u[1], x[3] + dt * u[0]])
    if not np.allclose(m.f(x, u), want):
        return 'NonlinearModel.f'
    if not np.allclose(m.Fx(x, u), num_jac(lambda z: m.f(z, u), x), atol=1e-6):
        return 'NonlinearModel.Fx is not the Jacobian of f'
    if not np.allclose(m.Fu(x, u), num_jac(lambda z: m.f(x, z), u), atol=1e-6):
        return 'NonlinearModel.Fu is not the Jacobian of f'
    N, s = int(rng.integers(2, 60)), int(rng.integers(1, 9))
    a, b = m.genData(N, s)
    if b.shape != (3, N) or not np.array_equal(a, b[:, ::s]) or not np.all(np.isfinite(b)):
        return 'genData: sparse data are not every steps-th dense sample'
    d = np.diff(b[:2], axis=1)
    ang = np.arctan2(d[1], d[0])
    if not np.allclose(np.cos(ang - b[2, :-1]), 1, atol=1e-9) or np.any(np.abs(np.diff(b[2])) > np.pi + 1e-9):
        return 'genData: heading'


def do_nontf(rng, r):
    if nltf is None or not hasattr(nltf, 'nonlinear_model_f'):
        return None
    n = int(rng.integers(1, 6))
    dt = float(rng.uniform(0.01, 1.0))
    xs, us = rng.standard_normal((n, 4)) * 2, rng.standard_normal((n, 2))
    t = lambda a: tf.constant(a, dtype=tf.float64)
    F, Fx, Fu = [g(t(xs), t(us), t(dt)).numpy() for g in (nltf.nonlinear_model_f, nltf.nonlinear_model_Fx, nltf.nonlinear_model_Fu)]
    if F.shape != (n, 4) or Fx.shape != (n, 4, 4) or Fu.shape != (n, 4, 2):
        return 'nonlinear_model_tf: shapes %s %s %s' % (F.shape, Fx.shape, Fu.shape)
    for x, u, f, fx, fu in zip(xs, us, F, Fx, Fu):
        g = lambda x, u: np.array([x[0] + dt * x[3] * math.cos(x[2]), x[1] + dt * x[3] * math.sin(x[2]), x[2] + dt * u[1], x[3] + dt * u[0]])
        if not np.allclose(f, g(x, u)):
            return 'nonlinear_model_f'
        if not np.allclose(fx, num_jac(lambda z: g(z, u), x), atol=1e-6):
            return 'nonlinear_model_Fx is not the Jacobian of f'
        if not np.allclose(fu, num_jac(lambda z: g(x, z), u), atol=1e-6):
            return 'nonlinear_model_Fu is not the Jacobian of f'


def do_nonlqt(rng, r):
    N, s = int(rng.integers(1, 8)), int(rng.integers(1, 8))
    m = NonlinearModel()
    data = rng.standard_normal((3, N))
    lqt, x0 = m.getLQT(data, s)
    if not np.allclose(lqt.rT, data[:, -1]) or not np.allclose(lqt.HT, np.eye(3, 4)) or not np.allclose(lqt.XT, 1e-6 * np.eye(3)):
        return 'nonlinear getLQT: terminal reference'
    return tracking(lqt, x0, data, s, 3, np.eye(3, 4), np.diag([100., 100., 1000.]), 1e-6 * np.eye(3), np.diag([1., 100.]))


def do_guess(rng, r):
    N, s = int(rng.integers(1, 6)), int(rng.integers(1, 6))
    m = NonlinearModel()
    lqt, x0 = m.getLQT(rng.standard_normal((3, N)), s)
    for zero in (True, False):
        u, x = m.initialGuess(lqt, x0, zero)
        if len(u) != N * s or len(x) != N * s + 1 or not np.array_equal(x[0], x0):
            return 'initialGuess: lengths'
        if any(np.any(q != 0) or q.shape != (2,) for q in u):
            return 'initialGuess: controls'
        for k in range(N * s):
            if zero and np.any(x[k + 1] != 0) or not zero and not np.allclose(x[k + 1][:3], lqt.r[k]):
                return 'initialGuess: states'

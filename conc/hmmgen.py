"""hidden Markov models with positive tables; state 0 of the sequence is drawn from the prior and emits nothing, observation k is
emitted by state k+1"""
from .common import *
import itertools

KINDS = ['dense', 'peaked', 'ties', 'sticky', 'cyclic', 'uniform_prior', 'dense', 'tiny']
YT = ['int64', 'int32', 'uint8', 'int64', 'int16', 'int8']


def norm(a):
    return a / a.sum(-1, keepdims=True)


def model(case):
    rng = np.random.default_rng(case['seed'])
    T, nx, ny, kind = case['T'], case['nx'], case['ny'], case['kind']
    u = lambda *s: rng.random(s) + 0.05
    prior, Pi, Po = u(nx), u(nx, nx), u(nx, ny)
    if kind == 'peaked':
        prior, Pi, Po = u(nx) ** 6, u(nx, nx) ** 6, u(nx, ny) ** 6
    if kind == 'ties':
        f = lambda *s: rng.integers(1, 3, s).astype(float)
        return dict(T=T, nx=nx, ny=ny, prior=f(nx) / 8, Pi=f(nx, nx) / 8, Po=f(nx, ny) / 8, y=rng.integers(0, ny, T).astype(case['ytype']), ties=True)
    if kind == 'sticky':
        Pi = Pi * 0.05 + np.eye(nx)
    if kind == 'cyclic':
        Pi = Pi * 0.05 + np.roll(np.eye(nx), 1, axis=1)
    if kind == 'uniform_prior':
        prior = np.ones(nx)
    if kind == 'tiny':
        Po = 10.0 ** (-8 * rng.random((nx, ny)))
    prior, Pi, Po = norm(prior), norm(Pi), norm(Po)
    y = rng.integers(0, ny, T)
    return dict(T=T, nx=nx, ny=ny, prior=prior, Pi=Pi, Po=Po, y=y.astype(case['ytype']), ties=False)


def step(M, k):
    """cost of going from x at time k to z at time k+1"""
    return -np.log(M['Pi']) - np.log(M['Po'][:, int(M['y'][k])])[None, :]


def forward(M):
    V = [-np.log(M['prior'])]
    for k in range(M['T']):
        V.append(np.min(V[-1][:, None] + step(M, k), axis=0))
    V = np.array(V)
    if M['nx'] ** (M['T'] + 1) <= 300:
        b = min(cost(M, s) for s in itertools.product(range(M['nx']), repeat=M['T'] + 1))
        assert abs(b - V[-1].min()) < 1e-9 * (1 + abs(b))
    return V, V[-1].min()


def backward(M):
    B = [np.zeros(M['nx'])]
    for k in reversed(range(M['T'])):
        B.insert(0, np.min(step(M, k) + B[0][None, :], axis=1))
    return np.array(B)


def on_best(M, V):
    B = backward(M)
    tot = V + B
    best = V[-1].min()
    return [set(np.nonzero(t <= best + 1e-9 * (1 + abs(best)))[0].tolist()) for t in tot]


def unique(M, V):
    """a clear margin between the best sequence and any other"""
    B = backward(M)
    tot = V + B
    best = V[-1].min()
    return all((t <= best + 1e-7 * (1 + abs(best))).sum() == 1 for t in tot)


def cost(M, s):
    c = -np.log(M['prior'][int(s[0])])
    for k in range(M['T']):
        c += -np.log(M['Pi'][int(s[k]), int(s[k + 1])]) - np.log(M['Po'][int(s[k + 1]), int(M['y'][k])])
    return float(c)


def states(M, v, what):
    v = np.asarray(v)
    need(v.shape == (M['T'] + 1,), '%s: %s states for %d observations', what, v.shape, M['T'])
    s = [int(x) for x in v]
    for k, x in enumerate(s):
        need(0 <= x < M['nx'] and v[k] == x, '%s: %s at time %d is not a state', what, v[k], k)
    return s

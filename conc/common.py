"""Concrete contract checks: the contracts of properties.jsonl evaluated as runtime assertions on the real code.

Used (a) to look for, and replay, a concrete witness of a failed proof obligation, (b) as the bounded, labelled
stand-in for functions the verifier cannot reach, (c) as a cross-check that the library contracts the verifier
trusts describe the libraries that are installed.
"""
import os
import sys
import copy
import numpy as np

REPO = os.environ.get('VERIF_REPO', '/repo')
if REPO not in sys.path:
    sys.path.insert(0, REPO)


class Fail(Exception):
    pass


def need(c, msg, *args):
    if not c:
        raise Fail(msg % args if args else msg)


def arr(x):
    return np.asarray(x)


def close(a, b, msg, tol=1e-6, scale=None):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        raise Fail('%s: shape %s, expected %s' % (msg, a.shape, b.shape))
    if a.size == 0:
        return
    s = max(1.0, float(np.max(np.abs(b)))) if scale is None else scale
    d = float(np.max(np.abs(a - b)))
    if not d <= tol * s:
        raise Fail('%s: differs by %.3g (scale %.3g)' % (msg, d, s))


def close_list(a, b, msg, tol=1e-6, unit=1.0):
    """unit: magnitude of the data the quantity is proportional to (differences are judged relative to it)"""
    if len(a) != len(b):
        raise Fail('%s: %d entries, expected %d' % (msg, len(a), len(b)))
    for k, (x, y) in enumerate(zip(a, b)):
        closeu(x, y, '%s at index %d' % (msg, k), tol, unit)


def closeu(a, b, msg, tol=1e-6, unit=1.0):
    if unit != 1.0:
        a, b = np.asarray(a, dtype=float) / unit, np.asarray(b, dtype=float) / unit
    close(a, b, msg, tol)


def spd(rng, n, lo=0.5):
    a = rng.standard_normal((n, n))
    return a @ a.T / max(n, 1) + lo * np.eye(n)


def freeze(*objs):
    """deep snapshot used for frame checks"""
    return copy.deepcopy(objs)


def same(a, b):
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return isinstance(b, dict) and set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray) or hasattr(a, 'numpy'):
        try:
            return np.array_equal(np.asarray(a), np.asarray(b), equal_nan=True)
        except TypeError:
            return np.array_equal(np.asarray(a), np.asarray(b))
    if hasattr(a, '__dict__'):
        # attributes added by the call (a cache, say) are not problem data
        return hasattr(b, '__dict__') and all(k in vars(b) and same(v, vars(b)[k]) for k, v in vars(a).items() if not k.startswith('_'))
    return a == b or (a != a and b != b)


def unchanged(before, *objs, what='inputs'):
    for x, y in zip(before, objs):
        if not same(x, y):
            raise Fail('%s were modified by the call' % what)


SIZES = [1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 12, 13, 15, 16, 17, 20, 23, 25, 31, 32, 33, 40, 47, 50, 63, 64, 65, 100, 127, 128,
         129, 200, 255, 256, 257]


def hint_sizes(ctx, cap=300, lo=1):
    """sizes suggested by the integer literals of the code under contract and by models of failed path conditions"""
    out = []
    for h in ctx.hints:
        for d in (0, 1, -1):
            v = h + d
            if h == int(h) and lo <= v <= cap and v not in out:
                out.append(int(v))
    return out


def mag_hints(ctx):
    """magnitudes around the real literals of the code under contract"""
    out = []
    for h in ctx.hints:
        if h and not (1e-3 <= abs(h) <= 400):
            for q in (1e-2, 1e2):
                v = abs(h) * q
                if 1e-12 <= v <= 1e15 and v not in out:
                    out.append(v)
    return out


class Ctx:
    def __init__(self, seed=1, tier='quick', hints=(), models=()):
        self.seed, self.tier, self.hints, self.models = seed, tier, list(hints), list(models)
        self.rng = np.random.default_rng(seed)
        self.thorough = tier == 'thorough'

"""C01: the scan in the free semigroup (elements are index intervals; the operation accepts only adjacent operands), so
one run per length decides every element type and every associative operation that treats elements abstractly."""
import math
from .common import *
from parallel_control.my_assoc_scan import my_assoc_scan

RULE = ('every list length up to the bound in both directions in the free semigroup (decides all associative operations for '
        'that length); plus concrete element types including falsy values; non-trivial when (length, direction, type) is new')


class Iv:
    __slots__ = ('lo', 'hi')

    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi

    def __bool__(self):
        raise Fail('the scan used the truth value of an element')

    def __eq__(self, o):
        if o is None:
            return False
        raise Fail('the scan compared elements')

    __hash__ = None


class Ctr:
    n = 0


def op(x, y):
    need(isinstance(x, Iv) and isinstance(y, Iv), 'operation applied to something that is not an element or a combination')
    need(x.hi + 1 == y.lo, 'operation applied to non adjacent operands [%d,%d] and [%d,%d]', x.lo, x.hi, y.lo, y.hi)
    Ctr.n += 1
    return Iv(x.lo, y.hi)


def cases(ctx):
    for n in range(1, 70):
        for rev in (False, True):
            yield dict(n=n, rev=rev, t='iv')
    for n in hint_sizes(ctx):
        for rev in (False, True):
            yield dict(n=n, rev=rev, t='iv')
    for n in (1, 2, 3, 4, 5, 7, 8, 13, 16, 17, 31, 33):
        for t in ('int', 'str', 'mat', 'tup', 'set', 'min', 'first'):
            for rev in (False, True):
                yield dict(n=n, rev=rev, t=t)
    for k in range(7, 13 if not ctx.thorough else 15):
        for n in (2 ** k - 1, 2 ** k, 2 ** k + 1, 3 * 2 ** (k - 1)):
            for rev in (False, True):
                yield dict(n=n, rev=rev, t='iv')
    for n in range(70, 700 if not ctx.thorough else 5000):
        for rev in (False, True):
            yield dict(n=n, rev=rev, t='iv')


def check(case):
    n, rev, t = case['n'], case['rev'], case['t']
    if t == 'iv':
        a = [Iv(i, i) for i in range(n)]
        b = list(a)
        Ctr.n = 0
        r = my_assoc_scan(op, a, reverse=True) if rev else my_assoc_scan(op, a)
        need(len(a) == n and all(x is y for x, y in zip(a, b)), 'the input list was modified')
        need(all(x.lo == i and x.hi == i for i, x in enumerate(a)), 'an input element was modified')
        need(isinstance(r, list) and len(r) == n, 'result has %s entries, expected %d', len(r), n)
        need(r is not a, 'the input list itself was returned')
        for k, x in enumerate(r):
            e = (k, n - 1) if rev else (0, k)
            need(isinstance(x, Iv), 'entry %d is not an element', k)
            need((x.lo, x.hi) == e, 'entry %d combines elements %d..%d, expected %d..%d', k, x.lo, x.hi, *e)
        return
    rng = np.random.default_rng(n)
    if t == 'int':
        a = [int(x) for x in rng.integers(-1, 2, n)]
        f = lambda x, y: x + y
    elif t == 'str':
        a = ['' if x == 0 else chr(97 + x) for x in rng.integers(0, 5, n)]
        f = lambda x, y: x + y
    elif t == 'mat':
        a = [rng.integers(-1, 2, (2, 2)) for _ in range(n)]
        f = lambda x, y: x @ y
    elif t == 'tup':
        a = [(float(x), float(y)) for x, y in rng.integers(-1, 2, (n, 2))]
        f = lambda x, y: (x[0] * y[0], x[1] * y[0] + y[1])
    elif t == 'set':
        a = [frozenset([int(x)]) if x else frozenset() for x in rng.integers(0, 6, n)]
        f = lambda x, y: x | y
    elif t == 'min':
        a = [float(x) for x in rng.integers(0, 3, n)]
        f = min
    else:
        a = list(range(n))
        f = lambda x, y: x
    fz = freeze(a)
    r = my_assoc_scan(f, a, reverse=rev)
    unchanged(fz, a)
    ref = [None] * n
    if rev:
        ref[-1] = a[-1]
        for k in range(n - 2, -1, -1):
            ref[k] = f(a[k], ref[k + 1])
    else:
        ref[0] = a[0]
        for k in range(1, n):
            ref[k] = f(ref[k - 1], a[k])
    need(len(r) == n, 'result length')
    for k in range(n):
        need(same(r[k], ref[k]), 'entry %d is %r, expected %r', k, r[k], ref[k])

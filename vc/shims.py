"""Trusted contracts of the library functions used by the repository (numpy, scipy.linalg, math,
tensorflow, tensorflow_probability) and of the Python builtins."""
from fractions import Fraction
import inspect
import itertools
import math as _math
from . import terms as T
from . import ncalg as N
from .values import *
from . import values as V
from . import arrops as A

TRUSTED = set()      # library functions whose contracts were used in this run


def lower(x):
    from .exec import lower as l
    return l(x)


def term(x):
    from .exec import term as t
    return t(x)


BENIGN = {'name': None, 'check_finite': None, 'order': ('C', 'K', 'A', None), 'copy': (True,), 'parallel_iterations': None, 'swap_memory': None,
          'back_prop': None, 'infer_shape': None, 'validate_shape': None, 'warn': None, 'overwrite_a': (False,), 'overwrite_b': (False,),
          'overwrite_c': (False,), 'lower': None, 'validate_indices': None, 'conjugate': (False,), 'subok': None}
_sig = {}


def lib_call(f, it, args, kw, name):
    """call the meaning of a library operation; an option that the meaning does not know makes the call unsupported, never ignored"""
    if kw:
        ps = _sig.get(f)
        if ps is None:
            ps = _sig[f] = inspect.signature(f).parameters
        if any(p.kind == p.VAR_KEYWORD for p in ps.values()):
            for k, v in kw.items():
                if k not in ps and not (k in BENIGN and (BENIGN[k] is None or any(v is b or v == b for b in BENIGN[k] if not isinstance(v, (Arr, T.Term))))):
                    raise Unsupported('option %s of %s' % (k, name))
    return f(it, *args, **kw)


def B(name):
    def deco(f):
        def g(it, args, kw):
            TRUSTED.add(name)
            return lib_call(f, it, args, kw, name)
        return Builtin(name, g)
    return deco


# ------------------------------------------------------------------ python builtins
def b_len(it, args, kw):
    x = args[0]
    if isinstance(x, PyList):
        return lower(x.seq.length())
    if isinstance(x, tuple):
        return len(x)
    if isinstance(x, Arr):
        return lower(x.shape[0])
    if isinstance(x, PyDict):
        return len(x.d)
    if isinstance(x, str):
        return len(x)
    if isinstance(x, RangeVal):
        return lower(it.iter_seq(x).length())
    raise Unsupported('len')


def b_range(it, args, kw):
    a = [x for x in args]
    for i, x in enumerate(a):
        if isinstance(x, Fraction):
            raise PyRaise('TypeError', 'float range')
        if isinstance(x, Arr):
            a[i] = lower(A.to_scalar_term(x))
    if len(a) == 1:
        return RangeVal(0, a[0], 1)
    if len(a) == 2:
        return RangeVal(a[0], a[1], 1)
    if not isinstance(a[2], int):
        raise Unsupported('symbolic range step')
    return RangeVal(a[0], a[1], a[2])


def b_reversed(it, args, kw):
    x = args[0]
    return it.iter_seq(x).rev()


def b_enumerate(it, args, kw):
    sq = it.iter_seq(args[0])
    start = args[1] if len(args) > 1 else kw.get('start', 0)
    out = []
    off = term(start)
    for s in sq.segs:
        if s.items is not None:
            out.append(Seg(items=[(lower(T.add(off, k)), x) for k, x in enumerate(s.items)]))
        else:
            out.append(Seg(s.n, lambda i, s=s, off=off: (lower(T.add(off, i)), lower(s.fn(i)))))
        off = T.add(off, s.n)
    return Seq(out)


def b_zip(it, args, kw):
    sqs = [it.iter_seq(a) for a in args]
    if not sqs:
        return Seq([])
    cur = sqs[0].map(lambda x: (lower(x),))
    for q in sqs[1:]:
        n1, n2 = cur.length(), q.length()
        if not it.e.dim_eq(n1, n2):
            if it.e.branch(T.le(n1, n2)):
                q = q.slice(T.const(0), n1, it.e)
            else:
                cur = cur.slice(T.const(0), n2, it.e)
        cur = A.zip_seq(it.e, lambda a, b: a + (lower(b),), cur, q)
    return cur


def b_list(it, args, kw):
    if not args:
        return PyList([])
    return PyList(it.iter_seq(args[0]))


def b_tuple(it, args, kw):
    if not args:
        return ()
    return tuple(it.concrete_items(it.iter_seq(args[0])))


def b_isinstance(it, args, kw):
    x, t = args
    ts = t if isinstance(t, tuple) else (t,)
    for q in ts:
        nm = q.name if isinstance(q, (TypeTag, ClassVal)) else str(q)
        if nm == 'list' and isinstance(x, PyList):
            return True
        if nm == 'tuple' and isinstance(x, tuple):
            return True
        if nm == 'int' and (isinstance(x, int) or (isinstance(x, T.Term) and x.sort == T.INT)):
            return True
        if nm == 'float' and (isinstance(x, Fraction) or (isinstance(x, T.Term) and x.sort == T.REAL)):
            return True
        if nm in ('ndarray', 'Tensor') and isinstance(x, Arr):
            return True
        if nm == 'str' and isinstance(x, str):
            return True
        if isinstance(q, ClassVal) and isinstance(x, Obj) and x.cls is q:
            return True
    return False


def b_minmax(kind):
    def f(it, args, kw):
        xs = args
        if len(xs) == 1:
            if isinstance(xs[0], Arr):
                return lower(A.reduce(it.e, kind, xs[0]))
            xs = it.concrete_items(it.iter_seq(xs[0]))
        r = xs[0]
        for y in xs[1:]:
            if isinstance(r, (int, Fraction)) and isinstance(y, (int, Fraction)):
                r = min(r, y) if kind == 'min' else max(r, y)
            else:
                r = lower((T.min2 if kind == 'min' else T.max2)(term(r), term(y)))
        return r
    return f


def b_abs(it, args, kw):
    x = args[0]
    if isinstance(x, (int, Fraction)):
        return abs(x)
    f = lambda t: T.ite(T.le(0, t), t, T.neg(t))
    if isinstance(x, Arr):
        return A.emap(it.e, f, x)
    return f(term(x))


def b_sum(it, args, kw):
    r = args[1] if len(args) > 1 else kw.get('start', 0)
    import ast
    for x in it.concrete_items(it.iter_seq(args[0])):
        r = it.binop(ast.Add(), r, x)
    return r


def b_int(it, args, kw):
    x = args[0]
    if isinstance(x, (int, bool)):
        return int(x)
    if isinstance(x, Fraction):
        return int(x)
    if isinstance(x, T.Term) and x.sort == T.INT:
        return x
    if isinstance(x, Arr) and x.ndim == 0:
        return b_int(it, [lower(A.to_scalar_term(x))], {})
    if isinstance(x, T.Term):
        return T.app('trunc', (x,), T.INT)
    raise Unsupported('int()')


def b_float(it, args, kw):
    x = args[0]
    if isinstance(x, (int, Fraction)):
        return Fraction(x)
    if isinstance(x, T.Term):
        return T.toreal(x)
    if isinstance(x, Arr) and x.ndim == 0:
        return T.toreal(A.to_scalar_term(x))
    raise Unsupported('float()')


def b_slice(it, args, kw):
    a = list(args)
    if len(a) == 1:
        return SliceVal(None, a[0], None)
    return SliceVal(a[0], a[1], a[2] if len(a) > 2 else None)


def b_all(it, args, kw):
    for x in it.concrete_items(it.iter_seq(args[0])):
        if not it.truth(x):
            return False
    return True


def b_any(it, args, kw):
    for x in it.concrete_items(it.iter_seq(args[0])):
        if it.truth(x):
            return True
    return False


def b_map(it, args, kw):
    f = args[0]
    sq = b_zip(it, args[1:], {})
    return sq.map(lambda t: it.call(f, list(t)))


def list_reverse(it, args, kw):
    args[0].seq = args[0].seq.rev()
    return None


LIST_T = TypeTag('list', b_list)

BUILTINS = {
    'len': Builtin('len', b_len), 'range': Builtin('range', b_range), 'reversed': Builtin('reversed', b_reversed),
    'enumerate': Builtin('enumerate', b_enumerate), 'zip': Builtin('zip', b_zip),
    'list': LIST_T, 'tuple': TypeTag('tuple', b_tuple), 'isinstance': Builtin('isinstance', b_isinstance),
    'min': Builtin('min', b_minmax('min')), 'max': Builtin('max', b_minmax('max')), 'abs': Builtin('abs', b_abs),
    'sum': Builtin('sum', b_sum), 'int': TypeTag('int', b_int), 'float': TypeTag('float', b_float),
    'str': TypeTag('str'), 'bool': TypeTag('bool', lambda it, a, k: it.truth(a[0])), 'dict': TypeTag('dict', lambda it, a, k: PyDict(k)),
    'print': Builtin('print', lambda it, a, k: None), 'slice': Builtin('slice', b_slice),
    'all': Builtin('all', b_all), 'any': Builtin('any', b_any), 'map': Builtin('map', b_map),
    'classmethod': Builtin('classmethod', None), 'staticmethod': Builtin('staticmethod', None),
    'property': Builtin('property', None), 'True': True, 'False': False, 'None': None,
    '__name__': 'verified', 'object': TypeTag('object'),
}


# ------------------------------------------------------------------ numpy
def shp(it, s):
    if isinstance(s, (int, T.Term)):
        return (T.L(s),)
    if isinstance(s, PyList):
        s = it.concrete_items(s.seq)
    out = []
    for x in s:
        if isinstance(x, Arr):
            x = A.to_scalar_term(x)
        if isinstance(x, Fraction):
            raise PyRaise('TypeError', 'float shape')
        out.append(T.L(x))
    return tuple(out)


def dtag(dtype, default='f'):
    if dtype is None:
        return default
    if isinstance(dtype, Opaque) and isinstance(dtype.tag, tuple):
        return dtype.tag[1]
    if isinstance(dtype, TypeTag):
        return {'int': 'i', 'float': 'f', 'bool': 'b'}.get(dtype.name, 'f')
    if isinstance(dtype, Opaque):
        return 'f'
    return default


def const_arr(shape, v, dtype, lib='np'):
    """constant array; zero abstract arrays are the zero matrix in every representation"""
    nd = len(shape)
    if v == 0 and nd <= 2:
        return Arr('mat', shape, N.zero(mat_shape(shape)), dtype, lib)
    t = T.const(v) if not isinstance(v, Fraction) else T._mk('const', (v,), T.REAL)
    if dtype == 'f':
        t = T.toreal(t)
    if v == 0 and nd == 3:
        inner = shape[1:]
        z = Arr('mat', inner, N.zero(mat_shape(inner)), dtype, lib)
        return Arr('seq', shape, Seq([Seg(shape[0], lambda i: z)]), dtype, lib)
    return Arr('fn', shape, (lambda *k: t), dtype, lib)


def mk_full(lib):
    def full(it, shape, v, dtype=None, name=None, **kw):
        v = lower(v) if not isinstance(v, Arr) else lower(A.to_scalar_term(v))
        d = dtag(dtype, A.dt_of(v))
        if isinstance(v, bool):
            d = 'b'
        sh = shp(it, shape)
        if isinstance(v, (int, Fraction)) and not isinstance(v, bool):
            return const_arr(sh, v, d, lib)
        t = T.toreal(term(v)) if d == 'f' else term(v)
        return Arr('fn', sh, (lambda *k: t), d, lib)
    return full


def np_zeros(it, shape, dtype=None, order=None):
    return const_arr(shp(it, shape), 0, dtag(dtype))


def zeros_like_seq(a):
    return Arr('seq', a.shape, a.data.map(lambda x: zeros_like(x) if isinstance(x, Arr) else T.const(0, T.REAL)), a.dtype, a.lib)


def zeros_like(a, d=None):
    if a.rep == 'seq':
        return zeros_like_seq(a)
    return const_arr(a.shape, 0, d or a.dtype, a.lib)


def np_zeros_like(it, a, dtype=None, **kw):
    if not isinstance(a, Arr):
        a = np_array(it, a)
        if not isinstance(a, Arr):
            return 0
    return zeros_like(a, dtag(dtype, a.dtype))


def np_diag(it, v, k=0):
    if isinstance(v, (PyList, tuple)):
        v = np_array(it, v)
    if not (isinstance(v, Arr) and v.ndim == 1 and k == 0):
        raise Unsupported('np.diag')
    x = A.lift_fn(v).data
    zero = T.const(0, T.INT if v.dtype == 'i' else T.REAL)
    return Arr('fn', (v.shape[0], v.shape[0]), lambda i, j: T.ite(T.eq(T.L(i), T.L(j)), x(i), zero), v.dtype, v.lib)


def np_eye(it, n, m=None, dtype=None, **kw):
    n = T.L(n)
    if m is not None and not it.e.dim_eq(n, m):
        # rectangular eye: opaque constant determined by its shape
        return mat_atom('eye_rect', (n, m), (n, T.L(m)))
    return Arr('mat', (n, n), N.ident(n), dtag(dtype))


def np_array(it, x, dtype=None, **kw):
    if isinstance(x, (PyList, tuple)):
        x = stack(it, it.as_seq(x), None, 'np')
    if isinstance(x, Arr):
        return np_astype(it, x, dtype) if dtype is not None else Arr(x.rep, x.shape, x.data, x.dtype, 'np')
    return lower(term(x)) if not isinstance(x, (int, Fraction)) else x


def stack(it, sq, dtype=None, lib='np'):
    """array from a sequence of arrays / scalars (leading axis)"""
    e = it.e
    n = sq.length()
    probe = None
    for s in sq.segs:
        probe = s.items[0] if s.items is not None else s.fn(T.fresh('pr', T.INT))
        break
    if probe is None:
        return const_arr((T.const(0),), 0, 'f', lib)
    if isinstance(probe, (PyList, tuple)):
        items = it.concrete_items(sq)
        rws = [stack(it, it.as_seq(x), dtype, lib) for x in items]
        return stack(it, Seq([Seg(items=rws)]), dtype, lib)
    if isinstance(probe, Arr) and probe.ndim > 0:
        if probe.rep in ('mat', 'blk', 'seq'):
            return Arr('seq', (n,) + probe.shape, sq, dtype or probe.dtype, lib)
        def g(i, *k):
            return sel(e, sq, i, lambda x: A.lift_fn(x).data(*k))
        return Arr('fn', (n,) + probe.shape, g, dtype or probe.dtype, lib)
    dts = dtype or A.dt_of(*[x for s in sq.segs for x in (s.items or [])] or [probe])
    def g(i):
        return sel(e, sq, i, lambda x: term(x))
    return Arr('fn', (n,), g, dts, lib)


def sel(e, sq, i, f):
    """element of a segmented sequence as a term (ite over segments, no forking)"""
    i = T.L(i)
    res = None
    off = T.const(0)
    parts = []
    for s in sq.segs:
        if s.items is not None:
            for k, x in enumerate(s.items):
                parts.append((T.eq(T.sub(i, off), k), f(x)))
        else:
            rel = T.sub(i, off)
            parts.append((T.and_(T.le(0, rel), T.lt(rel, s.n)), f(s.fn(rel))))
        off = T.add(off, s.n)
    res = parts[-1][1]
    for c, v in reversed(parts[:-1]):
        res = T.ite(c, v, res)
    return res


def np_result_type(it, *args):
    return Opaque(('dtype', A.dt_of(*[x if isinstance(x, (Arr, T.Term, Fraction, int)) else
                                      (Arr('fn', (), None, dtag(x)) if True else x) for x in args])))


def np_isscalar(it, x):
    return isinstance(x, (int, Fraction, T.Term, str))


def np_expand_dims(it, a, axis=0, name=None):
    e = it.e
    if not isinstance(a, Arr):
        a = A.lift_fn(a)
    nd = a.ndim + 1
    ax = axis if axis >= 0 else nd + axis
    lib = a.lib
    if a.rep in ('mat', 'blk'):
        if a.ndim == 1 and ax == 1:
            return Arr(a.rep, (a.shape[0], T.const(1)), a.data, a.dtype, lib)
        if ax == 0:
            return Arr('seq', (T.const(1),) + a.shape, Seq([Seg(items=[a])]), a.dtype, lib)
        raise Unsupported('expand_dims')
    if a.rep == 'seq':
        if ax == 0:
            return Arr('seq', (T.const(1),) + a.shape, Seq([Seg(items=[a])]), a.dtype, lib)
        sq = a.data.map(lambda x: np_expand_dims(it, x, ax - 1))
        return Arr('seq', (sq.length(),) + A.probe_shape(e, sq), sq, a.dtype, lib)
    d = a.data
    return Arr('fn', a.shape[:ax] + (T.const(1),) + a.shape[ax:], lambda *k: d(*(k[:ax] + k[ax + 1:])), a.dtype, lib)


def take_along_axis(it, a, idx, axis, mode=None):
    """out[.., i, ..] = a[.., idx[.., i, ..], ..] (the other axes of idx equal those of a or are 1); requires valid indices"""
    e = it.e
    a, idx = A.lift_fn(a), A.lift_fn(idx)
    ax = axis if axis >= 0 else a.ndim + axis
    if a.ndim != idx.ndim:
        raise PyRaise('ValueError', 'indices and array must have the same number of dimensions')
    for q in range(a.ndim):
        if q != ax and idx.shape[q] is not T.const(1) and not e.dim_eq(a.shape[q], idx.shape[q]):
            raise Unsupported('take_along_axis shapes')
    n = a.shape[ax]
    vs = [T.fresh('ta', T.INT) for _ in idx.shape]
    rng = T.and_(*[T.and_(T.le(0, v), T.lt(v, s)) for v, s in zip(vs, idx.shape)])
    t = idx.data(*vs)
    e.require_h(T.implies(rng, T.and_(T.le(0, t), T.lt(t, n))), 'take_along_axis: index in range')
    da, di = a.data, idx.data

    def g(*k):
        k = list(k)
        i = di(*[T.const(0) if idx.shape[q] is T.const(1) else k[q] for q in range(a.ndim)])
        return da(*[i if q == ax else k[q] for q in range(a.ndim)])
    return Arr('fn', tuple(idx.shape[q] if q == ax else a.shape[q] for q in range(a.ndim)), g, a.dtype, a.lib)


def meshgrid(it, *xs, indexing='xy', **kw):
    if len(xs) != 2 or indexing != 'xy' or kw:
        raise Unsupported('meshgrid')
    x, y = [A.lift_fn(v) for v in xs]
    if x.ndim != 1 or y.ndim != 1:
        raise Unsupported('meshgrid of matrices')
    sh = (y.shape[0], x.shape[0])
    r = (Arr('fn', sh, lambda i, j: x.data(j), x.dtype, x.lib), Arr('fn', sh, lambda i, j: y.data(i), y.dtype, y.lib))
    return PyList([r[0], r[1]])


def np_linspace(it, start, stop, num=50, endpoint=True, dtype=None, **kw):
    if kw or endpoint is not True:
        raise Unsupported('linspace options')
    n = T.L(lower(num))
    a, b = [T.toreal(A.to_scalar_term(x) if isinstance(x, Arr) else term(x)) for x in (start, stop)]
    if not it.e.entails(T.le(2, n)):
        raise Unsupported('linspace with fewer than two points')
    h = T.div(T.sub(b, a), T.toreal(T.sub(n, 1)))
    return Arr('fn', (n,), lambda i: T.add(a, T.mul(T.toreal(i), h)), 'f', 'np')


def np_sign(it, x):
    f = lambda t: T.ite(T.lt(0, t), T.const(1, t.sort), T.ite(T.lt(t, 0), T.const(-1, t.sort), T.const(0, t.sort)))
    if not isinstance(x, Arr):
        return lower(f(term(x)))
    return A.emap(it.e, f, x)


def np_arange(it, *args, dtype=None, name=None):
    a = [lower(x) if not isinstance(x, Arr) else lower(A.to_scalar_term(x)) for x in args]
    if len(a) == 1:
        lo, hi = 0, a[0]
    elif len(a) == 2:
        lo, hi = a
    else:
        raise Unsupported('arange with a step')
    if isinstance(hi, Fraction) or (isinstance(hi, T.Term) and hi.sort == T.REAL) or isinstance(lo, Fraction):
        raise Unsupported('real arange')
    lo, hi = T.L(lo), T.L(hi)
    n = T.sub(hi, lo)
    return Arr('fn', (n,), lambda i: T.add(lo, i), 'i')


def np_tile(it, a, reps, name=None):
    r = reps if isinstance(reps, tuple) else (it.concrete_items(reps.seq) if isinstance(reps, PyList) else (reps,))
    a = A.lift_fn(a)
    if a.ndim == 1 and len(r) == 2 and lower(r[1]) == 1:
        d = a.data
        return Arr('fn', (T.L(r[0]), a.shape[0]), lambda i, j: d(j), a.dtype, a.lib)
    if a.ndim == len(r):
        # axes either repeated from size 1 or repeated once
        d = a.data
        ok = []
        sh = []
        for s, q in zip(a.shape, r):
            q = T.L(q)
            if q is T.const(1):
                ok.append(True)
                sh.append(s)
            elif s is T.const(1):
                ok.append(False)
                sh.append(q)
            else:
                ok.append(s)
                sh.append(T.mul(q, s))
        ix = lambda x, o: x if o is True else T.const(0) if o is False else T.imod(x, o)
        return Arr('fn', tuple(sh), lambda *k: d(*[ix(x, o) for x, o in zip(k, ok)]), a.dtype, a.lib)
    raise Unsupported('tile')


def np_log(it, a, name=None):
    f = lambda t: T.app('log', (T.toreal(t),), T.REAL)
    return lower(A.emap(it.e, f, a, 'f')) if not isinstance(a, (int, Fraction)) else (Fraction(0) if a == 1 else f(term(a)))


def red(op):
    def f(it, a, axis=None, keepdims=False, name=None, output_type=None, **kw):
        if isinstance(a, (PyList, tuple)):
            a = stack(it, it.as_seq(a))
        if isinstance(axis, PyList):
            c = it.concrete_items(axis.seq)
            axis = c[0] if len(c) == 1 else Unsup('axis')
        if isinstance(a, Arr) and a.rep == 'emul':
            if op != 'bsum':
                raise Unsupported('reduction')
            x, y = a.data
            return A.matmul(it.e, x, y)
        if isinstance(a, Arr) and a.rep == 'seq' and op == 'bsum' and axis is None:
            return seq_sum(it, a)
        return A.reduce(it.e, op, a, axis, keepdims)
    return f


def Unsup(m):
    raise Unsupported(m)


def seq_sum(it, a):
    """sum of all entries of a stack of elementwise products / scalars: a ghost fold over the stack"""
    from .contracts.scan_contract import ghost

    def one(x):
        if isinstance(x, Arr) and x.rep == 'emul':
            return A.matmul(it.e, *x.data)
        if isinstance(x, Arr) and x.rep == 'seq':
            return seq_sum(it, x)
        if isinstance(x, Arr) and x.ndim:
            raise Unsupported('sum over a stack of arrays')
        return x
    return it.call(ghost(it.e, 'tfscan', 'total'), [Arr('mat', (), N.zero((T.const(1), T.const(1))), 'f', a.lib), PyList(a.data.map(one))])


def np_matmul(it, a, b):
    return A.matmul(it.e, a, b)


def np_transpose(it, a, axes=None):
    return A.transpose(it.e, a)


def lin_solve(it, a, b, assume_a='gen', sym_pos=False, lower=False, overwrite_a=False, overwrite_b=False, check_finite=True, transposed=False):
    if overwrite_a is not False or overwrite_b is not False or not isinstance(transposed, bool):
        raise Unsupported('option of linalg.solve')
    if transposed:
        if assume_a not in ('gen', 'sym', 'her', 'pos'):
            raise Unsupported('option of linalg.solve')
        a = A.transpose(it.e, a)
    return A.solve(it.e, a, b, pos=(assume_a in ('pos', 'sym', 'her')))


class Factor:
    """result of lu_factor / cho_factor / cholesky"""

    def __init__(self, a, kind):
        self.a, self.kind = a, kind


def lu_factor(it, a, **kw):
    f = Obj(None)
    f.f['mat'] = Arr(a.rep, a.shape, a.data, a.dtype, a.lib)
    f.f['kind'] = 'lu'
    return (f, Opaque('piv'))


def lu_solve(it, lupiv, b, trans=0, **kw):
    f = lupiv[0]
    if not (isinstance(f, Obj) and f.f.get('kind') == 'lu'):
        raise Unsupported('lu_solve of something else')
    a = f.f['mat']
    if trans == 1:
        a = A.transpose(it.e, a)
    elif trans != 0:
        raise Unsupported('trans')
    return A.solve(it.e, a, b)


def cho_factor(it, a, lower=False, **kw):
    f = Obj(None)
    f.f['mat'] = Arr(a.rep, a.shape, a.data, a.dtype, a.lib)
    f.f['kind'] = 'cho'
    it.e.obl_symmetric(a)
    f.f['lower'] = lower
    return (f, lower)


def cho_solve(it, cl, b, **kw):
    f, low = cl
    if not (isinstance(f, Obj) and f.f.get('kind') == 'cho'):
        raise Unsupported('cho_solve of something else')
    if bool(low) != bool(f.f['lower']):
        raise Unsupported('cho_solve with the wrong triangle')
    return A.solve(it.e, f.f['mat'], b)


def lin_inv(it, a, **kw):
    n = a.shape[0]
    return A.solve(it.e, a, Arr('mat', (n, n), N.ident(n), 'f', a.lib))


def np_copy(it, a, **kw):
    if isinstance(a, Arr):
        return Arr(a.rep, a.shape, a.data, a.dtype, 'np')
    return a


def np_astype(it, a, dtype=None, **kw):
    d = dtag(dtype, a.dtype)
    if d == a.dtype:
        return Arr(a.rep, a.shape, a.data, d, a.lib)
    if a.rep == 'fn':
        if d == 'f':
            return A.emap(it.e, lambda t: T.toreal(t) if t.sort != T.BOOL else T.ite(t, T.const(1, T.REAL), T.const(0, T.REAL)), a, 'f')
        if d == 'i' and a.dtype != 'b':
            return A.emap(it.e, lambda t: T.app('trunc', (t,), T.INT) if t.sort == T.REAL else t, a, 'i')
        if d == 'i':
            return A.emap(it.e, lambda t: T.ite(t, T.const(1), T.const(0)), a, 'i')
        raise Unsupported('astype')
    if d != 'f':
        raise Unsupported('conversion to a narrower dtype')
    return Arr(a.rep, a.shape, a.data, d, a.lib)


def np_dot(it, a, b):
    if isinstance(a, Arr) and isinstance(b, Arr) and a.ndim <= 2 and b.ndim <= 2 and a.ndim and b.ndim:
        return A.matmul(it.e, a, b)
    return A.emul(it.e, a, b)


def np_where(it, c, a=None, b=None):
    if a is None:
        raise Unsupported('where with one argument')
    if not isinstance(c, Arr) and not isinstance(a, Arr) and not isinstance(b, Arr):
        return a if it.truth(c) else b
    x = A.elementwise(it.e, lambda p, q: p, a, b) if False else None
    c2 = A.lift_fn(c)
    t = A.elementwise(it.e, lambda p, q: T.app('pair', (p, q), T.REAL), A.lift_fn(a), A.lift_fn(b))
    ab = A.elementwise(it.e, lambda p, q: q, A.lift_fn(a), A.lift_fn(b))
    aa = A.elementwise(it.e, lambda p, q: p, A.lift_fn(a), A.lift_fn(b))
    if not isinstance(aa, Arr):
        aa, ab = A.lift_fn(aa), A.lift_fn(ab)
    # ite with broadcasting in two steps
    sel1 = A.elementwise(it.e, lambda p, q: T.ite(p, q, q), c2, aa)
    da, db, dc = aa, ab, c2

    def full(x, sh):
        nd = len(sh)
        return lambda k: x.data(*[T.const(0) if s is T.const(1) and sh[nd - x.ndim + q] is not T.const(1) else k[nd - x.ndim + q]
                                  for q, s in enumerate(x.shape)])
    sh = sel1.shape if isinstance(sel1, Arr) else ()
    fa, fb, fc = full(da, sh), full(db, sh), full(dc, sh)
    return Arr('fn', sh, lambda *k: T.ite(fc(k), fa(k), fb(k)), A.dt_of(a, b), A.lib_of(a, b, c))


def zero_fn(x):
    """a stack of zero matrices entrywise"""
    if x.rep == 'seq':
        ss = [y for g in x.data.segs for y in (g.items if g.items is not None else [g.fn(T.fresh('pr', T.INT))])]
        if ss and all(isinstance(y, Arr) and y.rep == 'mat' and y.data.is_zero() for y in ss):
            z = T.const(0, T.REAL)
            return Arr('fn', x.shape, lambda *k: z, x.dtype, x.lib)
    return x


def np_concatenate(it, xs, axis=0, name=None, **kw):
    items = it.concrete_items(it.as_seq(xs)) if not isinstance(xs, Arr) else Unsup('concat')
    e = it.e
    lib = A.lib_of(*items)
    items = [x if isinstance(x, Arr) else A.lift_fn(x) for x in items]
    nd = items[0].ndim
    ax = axis if axis >= 0 else nd + axis
    if any(x.rep == 'fn' for x in items):
        items = [zero_fn(x) for x in items]
    if any(x.rep == 'seq' for x in items) and ax == 0:
        segs = []
        for x in items:
            if x.rep == 'seq':
                segs += x.data.segs
            elif x.rep == 'mat' and x.ndim == 2 and x.shape[0] is T.const(1):
                segs.append(Seg(items=[A.getitem(it, x, 0)]))
            elif x.rep == 'mat' and x.ndim == 2 and x.data.is_zero():
                z = Arr('mat', (x.shape[1],), N.zero((x.shape[1], T.const(1))), x.dtype, x.lib)
                segs.append(Seg(x.shape[0], lambda i, z=z: z))
            elif x.rep == 'fn':
                segs += A.rows(e, x).segs
            else:
                raise Unsupported('concat of batch and matrix')
        sq = Seq(segs)
        return Arr('seq', (sq.length(),) + items[0].shape[1:], sq, items[0].dtype, lib)
    if any(x.rep == 'seq' for x in items) and ax >= 1:
        # along an inner axis: row by row
        sqs = []
        for x in items:
            if x.rep == 'mat' and x.ndim == 2 and x.data.is_zero():
                z = Arr('mat', (x.shape[1],), N.zero((x.shape[1], T.const(1))), x.dtype, x.lib)
                sqs.append(Seq([Seg(x.shape[0], lambda i, z=z: z)]))
            elif x.rep == 'seq':
                sqs.append(x.data)
            else:
                raise Unsupported('concat of batch and matrix')
            if not e.dim_eq(x.shape[0], items[0].shape[0]):
                if not e.branch(T.eq(x.shape[0], items[0].shape[0])):
                    raise PyRaise('ValueError', 'concat shapes')
        acc = sqs[0].map(lambda x: (x,))
        for q in sqs[1:]:
            acc = A.zip_seq(e, lambda u, v: u + (v,), acc, q)
        sq = acc.map(lambda xs: np_concatenate(it, PyList(list(xs)), ax - 1))
        ln = T.const(0)
        for x in items:
            ln = T.add(ln, x.shape[ax])
        return Arr('seq', items[0].shape[:ax] + (ln,) + items[0].shape[ax + 1:], sq, A.dt_of(*items), lib)
    for x in items[1:]:
        if x.ndim != nd:
            raise PyRaise('ValueError', 'concatenate: numbers of dimensions differ')
        for q in range(nd):
            if q != ax and not e.dim_eq(x.shape[q], items[0].shape[q]) and not e.branch(T.eq(x.shape[q], items[0].shape[q])):
                raise PyRaise('ValueError', 'concatenate: shapes differ')
    if all(x.rep in ('mat', 'blk') for x in items):
        bs = [A.to_block(x) for x in items]
        if ax == 1:
            bs = [b.T() for b in bs]
        cur = bs[0]
        for b in bs[1:]:
            cur, b = A.align_cols(e, cur, b)
            cur = A.Block(cur.rows + b.rows, cur.cols, cur.ent + b.ent)
        if ax == 1:
            cur = cur.T()
        return A.blk_arr(cur, nd, items[0].dtype, lib)
    items = [A.lift_fn(x) for x in items]
    n = T.const(0)
    offs = []
    for x in items:
        offs.append(n)
        n = T.add(n, x.shape[ax])

    def g(*k):
        res = None
        for x, o in reversed(list(zip(items, offs))):
            kk = k[:ax] + (T.sub(k[ax], o),) + k[ax + 1:]
            v = x.data(*kk)
            res = v if res is None else T.ite(T.lt(k[ax], T.add(o, x.shape[ax])), v, res)
        return res
    return Arr('fn', items[0].shape[:ax] + (n,) + items[0].shape[ax + 1:], g, A.dt_of(*items), lib)


def np_vstack(it, xs):
    items = it.concrete_items(it.as_seq(xs))
    items = [np_expand_row(it, x) if x.ndim == 1 else x for x in items]
    return np_concatenate(it, PyList(items), 0)


def np_expand_row(it, x):
    if x.rep in ('mat', 'blk'):
        return A.transpose(it.e, Arr(x.rep, (x.shape[0], T.const(1)), x.data, x.dtype, x.lib))
    return np_expand_dims(it, x, 0)


def np_block(it, xs):
    rws = [it.concrete_items(it.as_seq(r)) for r in it.concrete_items(it.as_seq(xs))]
    rr = [np_concatenate(it, PyList(r), 1) for r in rws]
    return np_concatenate(it, PyList(rr), 0)


def np_reshape(it, a, shape, *more, **kw):
    if more:
        shape = (shape,) + more
    e = it.e
    sh = shape if isinstance(shape, tuple) else ((it.concrete_items(shape.seq)) if isinstance(shape, PyList) else (shape,))
    sh = tuple(sh)
    if a.rep in ('mat', 'blk') and a.ndim == 2 and len(sh) == 1 and a.shape[1] is T.const(1):
        return Arr(a.rep, (a.shape[0],), a.data, a.dtype, a.lib)
    if a.rep in ('mat', 'blk') and a.ndim == 1 and len(sh) == 2 and sh[1] == 1:
        return Arr(a.rep, (a.shape[0], T.const(1)), a.data, a.dtype, a.lib)
    h = getattr(e, 'reshape_hook', None)
    if h is not None:
        return h(it, a, sh)
    raise Unsupported('reshape')


def np_clip(it, a, lo, hi, **kw):
    return A.elementwise(it.e, T.min2, A.elementwise(it.e, T.max2, a, lo), hi)


def np_all(it, a, **kw):
    a = A.lift_fn(a)
    x = None
    if a.ndim == 0:
        return lower(a.data())

    def rec(k):
        if len(k) == a.ndim:
            return a.data(*k)
        return it.e.mk_binder('forall', a.shape[len(k)], lambda u: rec(k + [u]))
    return lower(rec([]))


def np_any(it, a, **kw):
    if isinstance(a, Arr) and a.rep == 'mat' and a.ndim and not kw:
        return lower(it.e.nonzero_test(a.data))
    return lower(T.not_(term(np_all(it, A.emap(it.e, T.not_, a, 'b')))))


def np_array_equal(it, a, b):
    a, b = (np_array(it, x) if not isinstance(x, Arr) else x for x in (a, b))
    if a.ndim != b.ndim or not all(it.truth(T.eq(x, y)) for x, y in zip(a.shape, b.shape)):
        return False
    if a.rep == 'mat' and b.rep == 'mat':
        return lower(T.not_(term(it.e.nonzero_test(N.add(a.data, b.data, -1)))))
    return np_all(it, A.elementwise(it.e, T.eq, A.lift_fn(a), A.lift_fn(b)))


def np_stack(it, xs, axis=0, name=None):
    if axis not in (0,):
        raise Unsupported('stack axis')
    return stack(it, it.as_seq(xs))


def mk_np():
    g = {}

    def reg(name, f):
        def h(it, args, kw, f=f, name=name):
            TRUSTED.add('numpy.' + name)
            return lib_call(f, it, args, kw, 'numpy.' + name)
        g[name] = Builtin('np.' + name, h)
    for nm, f in dict(
            zeros=np_zeros, zeros_like=np_zeros_like, eye=np_eye, diag=np_diag, identity=np_eye, full=mk_full('np'),
            ones=lambda it, s, dtype=None: const_arr(shp(it, s), 1, dtag(dtype)),
            empty=np_zeros, empty_like=np_zeros_like,
            full_like=lambda it, a, v, dtype=None: mk_full('np')(it, a.shape, v, dtype or Opaque(('dtype', a.dtype))),
            ones_like=lambda it, a, dtype=None: const_arr(a.shape, 1, dtag(dtype, a.dtype)),
            array=np_array, asarray=np_array, isscalar=np_isscalar, expand_dims=np_expand_dims, arange=np_arange,
            tile=np_tile, log=np_log, matmul=np_matmul, transpose=np_transpose, copy=np_copy, dot=np_dot,
            argmin=red('argmin'), argmax=red('argmax'), min=red('min'), max=red('max'), sum=red('bsum'),
            take_along_axis=take_along_axis, meshgrid=meshgrid, sign=np_sign, linspace=np_linspace,
            amin=red('min'), amax=red('max'), where=np_where, concatenate=np_concatenate, vstack=np_vstack,
            hstack=lambda it, xs: np_concatenate(it, xs, 0 if it.concrete_items(it.as_seq(xs))[0].ndim == 1 else 1),
            block=np_block, reshape=np_reshape, result_type=np_result_type, abs=lambda it, x: b_abs(it, [x], {}),
            fabs=lambda it, x: b_abs(it, [x], {}), clip=np_clip, all=np_all, any=np_any, array_equal=np_array_equal, stack=np_stack,
            minimum=lambda it, a, b: lower(A.elementwise(it.e, T.min2, a, b)),
            maximum=lambda it, a, b: lower(A.elementwise(it.e, T.max2, a, b)),
            add=lambda it, a, b: A.add(it.e, a, b), subtract=lambda it, a, b: A.sub(it.e, a, b),
            multiply=lambda it, a, b: A.emul(it.e, a, b), negative=lambda it, a: A.neg(it.e, a),
            flip=lambda it, a, axis=None: A.getitem(it, a, SliceVal(None, None, -1)) if axis in (None, 0) and (a.ndim == 1 or axis == 0) else Unsup('flip'),
    ).items():
        reg(nm, f)
    g['float64'] = Opaque(('dtype', 'f'))
    g['float32'] = Opaque(('dtype', 'f'))
    g['int64'] = Opaque(('dtype', 'i'))
    g['int32'] = Opaque(('dtype', 'i'))
    g['ndarray'] = TypeTag('ndarray')
    g['newaxis'] = None
    g['inf'] = Opaque('inf')
    for fn in ('sin', 'cos', 'tan', 'exp', 'sqrt', 'arctan2', 'tanh', 'sinh', 'cosh'):
        g[fn] = Builtin('np.' + fn, scalar_fn(fn))
    g['pi'] = T.app('pi', (), T.REAL)
    lg = {}
    for nm, f in dict(solve=lin_solve, inv=lin_inv).items():
        lg[nm] = wrapb('numpy.linalg.' + nm, f)
    g['linalg'] = ModVal('numpy.linalg', lg)
    return ModVal('numpy', g)


def scalar_fn(fn):
    def f(it, args, kw):
        TRUSTED.add('math.' + fn)
        a = [x for x in args]
        if len(a) == 1 and isinstance(a[0], Arr) and a[0].ndim > 0:
            return A.emap(it.e, lambda t: T.app(fn, (T.toreal(t),), T.REAL), a[0], 'f')
        ts = [T.toreal(term(x)) for x in a]
        if fn == 'sqrt' and T.is_const(ts[0]):
            c = T.cval(ts[0])
            for r in range(0, 100):
                if r * r == c:
                    return Fraction(r)
        return T.app(fn, tuple(ts), T.REAL)
    return f


def wrapb(name, f):
    def h(it, args, kw):
        TRUSTED.add(name)
        return lib_call(f, it, args, kw, name)
    return Builtin(name, h)


def int_vars(e, polys):
    """integer variables a list of matrix expressions depends on (loop indices, dimensions)"""
    out = set()

    def term(t):
        if isinstance(t, T.Term):
            out.update(v for v in T.free_vars(t) if v.sort == T.INT)

    def poly(p):
        for t in p.shape:
            term(t)
        for mon, w in p.d:
            for x, _ in mon:
                term(x)
            for at in w:
                for i in at.idx:
                    term(i)
                if at.defn is not None:
                    poly(at.defn)
    for p in polys:
        poly(p)
    return sorted(out, key=lambda v: v.args[0])


def keyed(e, tag, polys, shape, sym=False):
    """opaque value of a mathematical function: calls with provably equal arguments give the same atom.  The atom is indexed by the
    integer variables of the arguments, so that a value computed in a loop depends on the iteration"""
    memo = e.__dict__.setdefault('keyed_memo', {}).setdefault(tag, [])
    vs = int_vars(e, polys)

    def inst(nm, vars_, m):
        return N.of_atom(N.atom(nm, shape, tuple(T.subst(v, m) for v in vars_), sym))
    for ps, vars_, nm in memo:
        if len(ps) != len(polys):
            continue
        old, new = [v for v in vars_ if v not in vs], [v for v in vs if v not in vars_]
        if len(old) != len(new) or len(old) > 3:
            continue
        for perm in itertools.permutations(new):
            m = dict(zip(old, perm))
            if all(V.subst_poly(p, m).key() == q.key() for p, q in zip(ps, polys)):
                return inst(nm, vars_, m)
    for ps, vars_, nm in memo:
        if len(ps) == len(polys) and all(len(p.shape) == len(q.shape) and all(e.dim_eq(x, y) for x, y in zip(p.shape, q.shape))
                                         for p, q in zip(ps, polys)) and \
           all(e._prove_zero(N.add(p, q, -1), [z for _, z in e.eqs])[0] == 'proved' for p, q in zip(ps, polys)):
            return inst(nm, vars_, {})
    nm = '%s#%d' % (tag, len(memo))
    memo.append((polys, vs, nm))
    return inst(nm, vs, {})


def lin_expm(it, a):
    """matrix exponential: an uninterpreted function of the matrix; for a block upper triangular matrix the diagonal blocks of
    the result are the exponentials of the diagonal blocks and the lower blocks vanish"""
    e = it.e
    if not isinstance(a, Arr) or a.rep not in ('mat', 'blk') or a.ndim != 2:
        raise Unsupported('expm')
    b = A.to_block(a)
    r, c = b.shape()
    e.require(T.eq(r, c), 'expm of a square matrix')
    for x in A.bounds(b.rows):
        b = A.split_cols(e, b, x)
    for x in A.bounds(b.cols):
        b = A.split_rows(e, b, x)
    n = len(b.rows)
    if n == 1:
        return Arr('mat', a.shape, keyed(e, 'expm', [b.ent[0][0]], b.ent[0][0].shape), 'f', a.lib)
    if n == 2 and len(b.cols) == 2 and b.ent[1][0].is_zero():
        p, q, s = b.ent[0][0], b.ent[0][1], b.ent[1][1]
        ent = [[keyed(e, 'expm', [p], p.shape), keyed(e, 'expm12', [p, q, s], q.shape)],
               [N.zero(b.ent[1][0].shape), keyed(e, 'expm', [s], s.shape)]]
        return A.blk_arr(A.Block(b.rows, b.cols, ent), 2, 'f', a.lib)
    flat = [x for row in b.ent for x in row]
    ent = [[keyed(e, 'expm_%d_%d' % (i, j), flat, b.ent[i][j].shape) for j in range(len(b.cols))] for i in range(n)]
    return A.blk_arr(A.Block(b.rows, b.cols, ent), 2, 'f', a.lib)


def solve_dare(it, a, b, q, r, **kw):
    """the stabilising solution: symmetric, and it satisfies the equation of the given matrices (logged for the contract)"""
    e = it.e
    if kw or not all(isinstance(x, Arr) and x.rep == 'mat' and x.ndim == 2 for x in (a, b, q, r)):
        raise Unsupported('solve_discrete_are')
    n, m = a.shape[0], b.shape[1]
    for x, sh in ((a, (n, n)), (b, (n, m)), (q, (n, n)), (r, (m, m))):
        for d, w in zip(x.shape, sh):
            e.require(T.eq(d, w), 'solve_discrete_are: dimensions agree')
    s = keyed(e, 'dare', [x.data for x in (a, b, q, r)], (n, n), sym=True)
    e.dares = getattr(e, 'dares', []) + [(s, a.data, b.data, q.data, r.data)]
    return Arr('mat', (n, n), s, 'f', a.lib)


def mk_linalg():
    g = {'solve_discrete_are': wrapb('scipy.linalg.solve_discrete_are', solve_dare)}
    for nm, f in dict(expm=lin_expm, solve=lin_solve, lu_factor=lu_factor, lu_solve=lu_solve, cho_factor=cho_factor,
                      cho_solve=cho_solve, inv=lin_inv).items():
        g[nm] = wrapb('scipy.linalg.' + nm, f)
    return ModVal('scipy.linalg', g)


def mk_math():
    def m1(fn):
        def f(it, args, kw):
            x = lower(args[0])
            if isinstance(x, (int, Fraction)):
                r = getattr(_math, fn)(x)
                return r if isinstance(r, int) else Fraction(repr(float(r)))
            return T.app(fn, (term(x),), T.INT if fn in ('ceil', 'floor') else T.REAL)
        return Builtin('math.' + fn, f)
    g = {k: m1(k) for k in ('ceil', 'floor', 'log2', 'log', 'sqrt', 'sin', 'cos', 'exp', 'fabs')}
    g['inf'] = Opaque('inf')
    g['pi'] = T.app('pi', (), T.REAL)
    return ModVal('math', g)


ARR_METHODS = {
    'copy': np_copy, 'min': red('min'), 'max': red('max'), 'argmin': red('argmin'), 'argmax': red('argmax'),
    'sum': red('bsum'), 'dot': np_dot, 'astype': np_astype, 'reshape': np_reshape, 'transpose': lambda it, a, *r: A.transpose(it.e, a),
    'any': np_any, 'all': np_all,
    'item': lambda it, a: lower(A.to_scalar_term(a)),
    'flatten': lambda it, a: flatten(it, a), 'ravel': lambda it, a: flatten(it, a),
    'tolist': lambda it, a: PyList(A.rows(it.e, a)),
}
ARR_METHODS = {k: (lambda it, args, kw, f=f, k=k: (TRUSTED.add('ndarray.' + k), lib_call(f, it, args, kw, 'ndarray.' + k))[1]) for k, f in ARR_METHODS.items()}


def flatten(it, a):
    if a.ndim == 1:
        return Arr(a.rep, a.shape, a.data, a.dtype, a.lib)
    if a.rep in ('mat', 'blk') and a.ndim == 2 and a.shape[1] is T.const(1):
        return Arr(a.rep, (a.shape[0],), a.data, a.dtype, a.lib)
    h = getattr(it.e, 'reshape_hook', None)
    if h is not None:
        return h(it, a, (-1,))
    raise Unsupported('flatten')


def install(eng, tf=False):
    np = mk_np()
    la = mk_linalg()
    eng.shims['numpy'] = np
    eng.shims['scipy'] = ModVal('scipy', {'linalg': la})
    eng.shims['scipy.linalg'] = la
    eng.shims['math'] = mk_math()
    eng.shims['unittest'] = ModVal('unittest', None)
    from . import shims_jax
    shims_jax.install(eng)
    if tf:
        from . import shims_tf
        shims_tf.install(eng)

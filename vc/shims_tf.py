"""Trusted contracts of the TensorFlow / TensorFlow Probability primitives used by the verified code."""
from fractions import Fraction
from . import terms as T
from . import ncalg as N
from .values import *
from . import arrops as A
from . import shims as S
from .shims import TRUSTED, shp, dtag, const_arr, term, lower, stack

C0, C1 = T.const(0), T.const(1)


def tfa(x):
    """same content as a tensor"""
    if isinstance(x, Arr):
        return x if x.lib == 'tf' else Arr(x.rep, x.shape, x.data, x.dtype, 'tf')
    return x


def convert(it, x, dtype=None, name=None, **kw):
    d = dtag(dtype, None)
    if isinstance(x, Arr):
        return Arr(x.rep, x.shape, x.data, d or x.dtype, 'tf') if (d or x.dtype) == x.dtype or d == 'f' else cast(it, x, dtype)
    if isinstance(x, (PyList, tuple)):
        return tfa(stack(it, it.as_seq(x), d, 'tf'))
    return cast(it, x, dtype) if dtype is not None else x


def cast(it, x, dtype, name=None):
    d = dtag(dtype)
    if isinstance(x, Arr) and x.ndim > 0:
        if d == x.dtype:
            return tfa(x)
        if d == 'f':
            if x.rep == 'fn':
                return A.emap(it.e, lambda t: T.toreal(t) if t.sort != T.BOOL else T.ite(t, T.const(1, T.REAL), T.const(0, T.REAL)), tfa(x), 'f')
            return Arr(x.rep, x.shape, x.data, 'f', 'tf')
        if d == 'i' and x.dtype == 'f':
            return A.emap(it.e, lambda t: T.app('trunc', (t,), T.INT) if t.sort == T.REAL else t, tfa(x), 'i')
        if d == 'i' and x.dtype == 'b':
            return A.emap(it.e, lambda t: T.ite(t, C1, C0), tfa(x), 'i')
        raise Unsupported('cast')
    t = A.to_scalar_term(x) if isinstance(x, Arr) else term(x)
    if d == 'f':
        return T.toreal(t)
    if d == 'i' and t.sort == T.REAL:
        return S.b_int(it, [x], {}) if not isinstance(x, Arr) else T.app('trunc', (t,), T.INT)
    return x


def t_axis(it, axis):
    if isinstance(axis, (PyList, tuple)):
        c = it.concrete_items(it.as_seq(axis))
        if len(c) != 1:
            raise Unsupported('axis list')
        axis = c[0]
    return lower(axis) if axis is not None else None


def expand_dims(it, a, axis=None, name=None):
    if isinstance(a, (PyList, tuple)):
        a = convert(it, a)
    if not isinstance(a, Arr):
        t = term(a)
        a = Arr('fn', (), (lambda: t), A.dt_of(t), 'tf')
    ax = t_axis(it, axis)
    if a.rep == 'mat' and a.ndim == 0:
        if a.data.is_zero():
            return Arr('mat', (C1,), N.zero((C1, C1)), a.dtype, 'tf')
        return Arr('mat', (C1,), a.data, a.dtype, 'tf')
    if a.rep == 'seq' and (ax if ax >= 0 else a.ndim + 1 + ax) >= 1:
        q = (ax if ax >= 0 else a.ndim + 1 + ax) - 1
        sq = a.data.map(lambda x: expand_dims(it, x, q))
        return Arr('seq', (sq.length(),) + A.probe_shape(it.e, sq), sq, a.dtype, 'tf')
    if a.rep == 'mat' and a.data.is_zero() and ax not in (0,):
        a2 = A.lift_fn(a)
        nd = a.ndim + 1
        if not (a.ndim == 1 and (ax if ax >= 0 else nd + ax) == 1):
            return tfa(S.np_expand_dims(it, a2, ax))
    return tfa(S.np_expand_dims(it, a, ax))


def concat(it, values, axis, name=None):
    items = [convert(it, x) for x in it.concrete_items(it.as_seq(values))]
    return tfa(S.np_concatenate(it, PyList(items), t_axis(it, axis)))


def reverse(it, a, axis, name=None):
    ax = t_axis(it, axis)
    if ax != 0:
        raise Unsupported('reverse axis')
    return tfa(A.getitem(it, a, SliceVal(None, None, -1)))


def transpose(it, a, perm=None, name=None, **kw):
    p = None if perm is None else [lower(x) for x in it.concrete_items(it.as_seq(perm))]
    if a.rep == 'seq':
        if p == [0, 2, 1]:
            return Arr('seq', (a.shape[0], a.shape[2], a.shape[1]), a.data.map(lambda x: A.transpose(it.e, x)), a.dtype, 'tf')
        if p == list(range(a.ndim)):
            return a
        raise Unsupported('transpose of a batch')
    if p is None:
        p = list(range(a.ndim))[::-1]
    if a.ndim == 2 and p == [1, 0]:
        return tfa(A.transpose(it.e, a))
    if p == list(range(a.ndim)):
        return a
    if a.rep == 'fn':
        d = a.data
        return Arr('fn', tuple(a.shape[q] for q in p), lambda *k: d(*[k[p.index(q)] for q in range(len(p))]), a.dtype, 'tf')
    raise Unsupported('transpose')


def matrix_transpose(it, a, name=None, **kw):
    return transpose(it, a, tuple(list(range(a.ndim - 2)) + [a.ndim - 1, a.ndim - 2]))


def matmul(it, a, b, transpose_a=False, transpose_b=False, name=None):
    a, b = tfa(a), tfa(b)
    for x in (a, b):
        if not isinstance(x, Arr) or x.ndim < 2:
            raise PyRaise('ValueError', 'matmul rank')
    if transpose_a:
        a = matrix_transpose(it, a)
    if transpose_b:
        b = matrix_transpose(it, b)
    return A.matmul(it.e, a, b)


def matvec(it, a, b, transpose_a=False, name=None, **kw):
    a, b = tfa(a), tfa(b)
    if not isinstance(a, Arr) or a.ndim < 2 or not isinstance(b, Arr) or b.ndim < 1:
        raise PyRaise('ValueError', 'matvec rank')
    if transpose_a:
        a = matrix_transpose(it, a)
    if a.rep == 'seq' and a.ndim == 3 and b.rep == 'mat' and b.ndim == 2 and b.data.is_zero():
        b = zero_rows(b)
    if a.rep == 'seq' or b.rep == 'seq':
        if a.rep == 'seq' and b.rep == 'seq' and a.ndim - 1 != b.ndim:
            if a.ndim - 1 > b.ndim:
                return A.batch2(it.e, lambda x, y: matvec(it, x, y), a, a) if False else bmv(it, a, b)
            raise Unsupported('matvec batch ranks')
        if a.rep == 'seq' and b.rep == 'seq':
            return A.batch2(it.e, lambda x, y: matvec(it, x, y), a, b)
        return bmv(it, a, b)
    return A.matmul(it.e, a, b)


def zero_rows(b):
    z = Arr('mat', (b.shape[1],), N.zero((b.shape[1], C1)), b.dtype, b.lib)
    return Arr('seq', b.shape, Seq([Seg(b.shape[0], lambda i: z)]), b.dtype, b.lib)


def bmv(it, a, b):
    """one operand carries a batch axis the other lacks"""
    e = it.e
    if a.rep == 'seq' and (b.rep != 'seq'):
        if a.ndim - 2 < 1:
            raise Unsupported('matvec')
        if b.ndim != 1:
            raise Unsupported('matvec broadcasting')
        sq = a.data.map(lambda x: matvec(it, x, b))
    elif b.rep == 'seq' and a.rep != 'seq':
        if a.ndim != 2 or b.ndim < 2:
            raise Unsupported('matvec broadcasting')
        sq = b.data.map(lambda y: matvec(it, a, y))
    else:
        raise Unsupported('matvec batch ranks')
    return Arr('seq', (sq.length(),) + A.probe_shape(e, sq), sq, 'f', 'tf')


def each(it, a, f):
    """run obligation f on a (generic) matrix of a stack"""
    e = it.e
    if a.rep != 'seq':
        f(a)
        return
    i = T.fresh('bi', T.INT)

    def th():
        e.assume(T.le(0, i))
        e.assume(T.lt(i, a.shape[0]))
        each(it, a.data.get(i, e), f)
    for o in e.explore(th):
        if o.exc:
            raise o.exc


def cholesky(it, a, name=None):
    each(it, a, it.e.obl_symmetric)
    f = Obj(None)
    f.f['mat'], f.f['kind'] = a, 'cho'
    f.f['shape'] = a.shape
    return f


def cholesky_solve(it, chol, rhs, name=None):
    if not (isinstance(chol, Obj) and chol.f.get('kind') == 'cho'):
        raise Unsupported('cholesky_solve of something else')
    return tsolve(it, chol.f['mat'], rhs)


def lu(it, a, **kw):
    f = Obj(None)
    f.f['mat'], f.f['kind'] = a, 'lu'
    return (f, Opaque('perm'))


def lu_solve(it, f, p, rhs, **kw):
    if not (isinstance(f, Obj) and f.f.get('kind') == 'lu'):
        raise Unsupported('lu_solve of something else')
    return tsolve(it, f.f['mat'], rhs)


def tsolve(it, a, b, adjoint=False, name=None):
    a, b = tfa(a), tfa(b)
    if a.ndim != b.ndim and not (a.ndim == 2 and b.ndim == 3):
        raise PyRaise('ValueError', 'solve ranks')
    if adjoint:
        a = matrix_transpose(it, a)
    return A.solve(it.e, a, b)


def eye(it, n, num_columns=None, batch_shape=None, dtype=None, name=None):
    r = tfa(S.np_eye(it, n, num_columns, dtype or Opaque(('dtype', 'f'))))
    if batch_shape is None:
        return r
    bs = shp(it, batch_shape)
    for b in reversed(bs):
        x = r
        r = Arr('seq', (b,) + x.shape, Seq([Seg(b, lambda i, x=x: x)]), r.dtype, 'tf')
    return r


def split(it, value, num_or_size_splits, axis=0, num=None, name=None):
    a = convert(it, value)
    k = lower(num_or_size_splits)
    if axis != 0 or num is not None or not isinstance(k, int):
        raise Unsupported('split')
    e = it.e
    n = lower(a.shape[0])
    if not isinstance(n, int):
        raise Unsupported('split of a symbolic length')
    if n % k:
        raise PyRaise('ValueError', 'split does not divide the axis')
    w = n // k
    return PyList([tfa(A.getitem(it, a, SliceVal(q * w, (q + 1) * w, None))) for q in range(k)])


def pad(it, tensor, paddings, mode='CONSTANT', constant_values=0, name=None):
    """zero padding: concatenation with zeros along every padded axis"""
    a = convert(it, tensor)
    if mode != 'CONSTANT' or lower(constant_values) != 0:
        raise Unsupported('pad mode')
    rows = [it.concrete_items(it.as_seq(r)) for r in it.concrete_items(it.as_seq(paddings))]
    if len(rows) != a.ndim:
        raise PyRaise('ValueError', 'paddings')
    for ax, (lo, hi) in enumerate(rows):
        for amt, first in ((lo, True), (hi, False)):
            amt = T.L(amt)
            if amt is C0 or it.e.dim_eq(amt, 0):
                continue
            if not it.e.entails(T.le(0, amt)):
                if not it.e.branch(T.le(0, amt)):
                    raise PyRaise('ValueError', 'negative padding')
                if it.e.branch(T.eq(amt, 0)):
                    continue
            z = tfa(const_arr(a.shape[:ax] + (amt,) + a.shape[ax + 1:], 0, a.dtype, 'tf'))
            a = tfa(S.np_concatenate(it, PyList([z, a] if first else [a, z]), ax))
    return a


def lin_op_full(it, matrix, is_non_singular=None, is_self_adjoint=None, is_positive_definite=None, is_square=None, name=None):
    o = Obj(None)
    o.f['linop'] = convert(it, matrix)
    return o


def lin_op_blockdiag(it, operators, is_non_singular=None, is_self_adjoint=None, is_positive_definite=None, is_square=None, name=None):
    ms = []
    for x in it.concrete_items(it.as_seq(operators)):
        if not (isinstance(x, Obj) and 'linop' in x.f):
            raise Unsupported('linear operator')
        ms.append(x.f['linop'])
    if any(m.rep not in ('mat', 'blk') or m.ndim != 2 for m in ms):
        raise Unsupported('block diagonal of batches')
    bs = [A.to_block(m) for m in ms]
    rows = [r for b in bs for r in b.rows]
    cols = [c for b in bs for c in b.cols]
    ent = []
    for q, b in enumerate(bs):
        for i, r in enumerate(b.rows):
            row = []
            for p, b2 in enumerate(bs):
                row += list(b.ent[i]) if p == q else [N.zero((r, c)) for c in b2.cols]
            ent.append(row)
    o = Obj(None)
    o.f['linop'] = A.blk_arr(A.Block(rows, cols, ent), 2, A.dt_of(*ms), 'tf')
    o.f['to_dense'] = Builtin('LinearOperator.to_dense', lambda it2, args, kw: o.f['linop'])
    return o


def zeros_like(it, a, dtype=None, **kw):
    if not isinstance(a, Arr):
        return lower(T.mul(T.const(0), term(a))) if not isinstance(a, (PyList, tuple)) else zeros_like(it, convert(it, a), dtype)
    return tfa(S.zeros_like(a, dtag(dtype, a.dtype) if dtype is not None else None))


def ones_like(it, a, dtype=None, **kw):
    return const_arr(a.shape, 1, dtag(dtype, a.dtype), 'tf')


def zeros(it, shape, dtype=None, name=None):
    return const_arr(shp(it, shape), 0, dtag(dtype), 'tf')


def ones(it, shape, dtype=None, name=None):
    return const_arr(shp(it, shape), 1, dtag(dtype), 'tf')


def fill(it, dims, value, name=None):
    return S.mk_full('tf')(it, dims, value)


def trange(it, *args, dtype=None, delta=None, name=None, **kw):
    if len(args) == 3:
        lo, hi, st = [lower(x) for x in args]
        if st == 1:
            args = (lo, hi)
        elif st == -1:
            n = T.sub(T.L(lo), T.L(hi))
            return Arr('fn', (n,), lambda i: T.sub(T.L(lo), i), 'i', 'tf')
        else:
            raise Unsupported('range with a step')
    r = tfa(S.np_arange(it, *args))
    return cast(it, r, dtype) if dtype is not None else r


def linspace(it, start, stop, num, name=None, axis=0):
    a, b, n = T.toreal(A.to_scalar_term(start) if isinstance(start, Arr) else term(start)), \
        T.toreal(A.to_scalar_term(stop) if isinstance(stop, Arr) else term(stop)), T.L(lower(num))
    h = T.div(T.sub(b, a), T.toreal(T.sub(n, 1)))
    return Arr('fn', (n,), lambda i: T.add(a, T.mul(T.toreal(i), h)), 'f', 'tf')


def repeat(it, x, repeats, axis=None, name=None):
    n = T.L(lower(repeats))
    s = A.scalar(x)
    if s is None:
        raise Unsupported('repeat of an array')
    return Arr('fn', (n,), lambda i: s, A.dt_of(s), 'tf')


def tile(it, a, multiples, name=None):
    m = multiples
    if isinstance(m, Arr):
        raise Unsupported('tile')
    a = convert(it, a)
    r = it.concrete_items(it.as_seq(m))
    if not isinstance(a, Arr) or len(r) != a.ndim:
        raise PyRaise('ValueError', 'tile rank')
    if a.rep == 'seq' and a.shape[0] is C1 and all(lower(x) == 1 for x in r[1:]):
        x = a.data.get(C0, it.e)
        n = T.L(lower(r[0]))
        return Arr('seq', (n,) + a.shape[1:], Seq([Seg(n, lambda i: x)]), a.dtype, 'tf')
    return tfa(S.np_tile(it, a, tuple(r)))


def row_blocks(e, d, n, m, row):
    """sequence row(0..n-1) where row k is made of the elements m*k .. m*k+m-1 of d; segmented like d"""
    if len(d.segs) > 1 and d.segs[0].items is None:
        q = T.idiv(d.segs[0].n, m)
        r = T.sub(n, q)
        if T.is_const(r) and 0 <= T.cval(r) <= 8 and e.entails(T.le(0, q)):
            return Seq([Seg(q, row), Seg(T.L(r), lambda i: row(T.add(q, i))) if T.cval(r) > 1 else Seg(items=[row(q)] if T.cval(r) else [])])
    return Seq([Seg(n, row)])


def reshape(it, a, shape, name=None):
    sh = list(it.concrete_items(it.as_seq(shape))) if not isinstance(shape, (int, T.Term)) else [shape]
    a = convert(it, a)
    if not isinstance(a, Arr):
        a = A.lift_fn(a)
    e = it.e
    # unit axes inserted / removed only
    if a.rep == 'fn' and -1 not in [lower(x) for x in sh if isinstance(lower(x), int)]:
        src = [s for s in a.shape if s is not C1]
        dst = [T.L(lower(x)) for x in sh]
        core = [s for s in dst if s is not C1]
        if len(core) == len(src) and all(e.dim_eq(x, y) for x, y in zip(core, src)):
            pos = [q for q, s in enumerate(dst) if s is not C1]
            d = a.data
            nd = a.ndim
            keep = [q for q, s in enumerate(a.shape) if s is not C1]

            def g(*k):
                ix = [C0] * nd
                for q, p in zip(keep, pos):
                    ix[q] = k[p]
                return d(*ix)
            return Arr('fn', tuple(dst), g, a.dtype, 'tf')
    if a.rep == 'seq' and -1 not in [lower(x) for x in sh if isinstance(lower(x), int)]:
        dst = [T.L(lower(x)) for x in sh]
        eqs = lambda p, q: len(p) == len(q) and all(e.dim_eq(x, y) for x, y in zip(p, q))
        if eqs(dst, a.shape):
            return a
        if a.shape[0] is C1 and a.ndim >= 2 and (a.ndim > 2 or dst[0] is not C1) and isinstance(a.data.get(C0, e), Arr):
            return reshape(it, a.data.get(C0, e), shape)
        # two leading axes become one, row by row
        if len(dst) == a.ndim - 1 and eqs(dst[1:], a.shape[2:]) and e.entails_h(T.eq(dst[0], T.mul(a.shape[0], a.shape[1]))):
            d = a.data

            def cell(k, i):
                r = d.get(k, e)
                return A.getitem(it, r, (i,))
            return Arr('seq', (dst[0],) + a.shape[2:], Seq([NSeg(e, a.shape[0], a.shape[1], cell)]), a.dtype, 'tf')
        # the leading axis becomes two
        if len(dst) == a.ndim + 1 and eqs(dst[2:], a.shape[1:]) and e.entails_h(T.eq(a.shape[0], T.mul(dst[0], dst[1]))):
            d, n2 = a.data, dst[1]
            row = lambda k: Arr('seq', tuple(dst[1:]), Seq([Seg(n2, lambda i: d.get(T.add(T.mul(k, n2), i), e))]), a.dtype, 'tf')
            return Arr('seq', tuple(dst), row_blocks(e, d, dst[0], n2, row), a.dtype, 'tf')
        if len(dst) == 2 and a.ndim == 2:
            for c in range(2, 9):
                c_ = T.const(c)
                # c consecutive rows become one
                if e.dim_eq(dst[1], T.mul(c_, a.shape[1])) and e.entails_h(T.eq(a.shape[0], T.mul(c_, dst[0]))):
                    d = a.data
                    row = lambda k: S.np_concatenate(it, PyList([d.get(T.add(T.mul(c_, k), i), e) for i in range(c)]), 0)
                    return Arr('seq', tuple(dst), row_blocks(e, d, dst[0], c_, row), a.dtype, 'tf')
                # a row becomes c rows
                if e.dim_eq(a.shape[1], T.mul(c_, dst[1])) and e.entails_h(T.eq(dst[0], T.mul(c_, a.shape[0]))):
                    d, w = a.data, dst[1]

                    def piece(k, i):
                        r = d.get(k, e)
                        for q in range(c):
                            if q == c - 1 or e.branch(T.eq(i, q)):
                                return A.getitem(it, r, (SliceVal(lower(T.mul(w, q)), lower(T.mul(w, q + 1)), None),))
                    return Arr('seq', tuple(dst), Seq([NSeg(e, a.shape[0], c_, piece)]), a.dtype, 'tf')
    raise Unsupported('reshape')


def in_range(it, t_of, shape, n, what):
    e = it.e
    vs = [T.fresh('gr', T.INT) for _ in shape]
    t = t_of(*vs)
    rng = T.and_(*[T.and_(T.le(0, v), T.lt(v, s)) for v, s in zip(vs, shape)])
    e.require_h(T.implies(rng, T.and_(T.le(0, t), T.lt(t, n))), what)


def gather(it, params, indices, axis=None, batch_dims=0, name=None, validate_indices=None):
    e = it.e
    p = convert(it, params)
    ax = t_axis(it, axis)
    bd = batch_dims
    s = A.scalar(indices)
    if s is None:
        ind = A.lift_fn(convert(it, indices))
    else:
        ind = Arr('fn', (), lambda: s, 'i', 'tf')
    if ax is None:
        ax = bd
    if ax < 0:
        ax += p.ndim
    if p.rep == 'seq' and ax == 0 and bd == 0:
        if s is not None:
            return A.getitem(it, p, s)
        if ind.ndim == 1:
            in_range(it, ind.data, ind.shape, p.shape[0], 'gather index in range')
            f = ind.data
            return Arr('seq', ind.shape + p.shape[1:], Seq([Seg(ind.shape[0], lambda i: p.data.get(f(i), e))]), p.dtype, 'tf')
        raise Unsupported('gather of matrices')
    p = A.lift_fn(p)
    if bd < 0 or bd > ind.ndim or ax < bd:
        raise PyRaise('ValueError', 'gather batch_dims')
    for q in range(bd):
        if not e.dim_eq(p.shape[q], ind.shape[q]):
            raise PyRaise('ValueError', 'gather batch dimensions differ')
    in_range(it, ind.data, ind.shape, p.shape[ax], 'gather index in range')
    d, f = p.data, ind.data
    inner = ind.shape[bd:]
    ni = len(inner)
    sh = p.shape[:ax] + inner + p.shape[ax + 1:]

    def g(*k):
        i = f(*(k[:bd] + k[ax:ax + ni]))
        return d(*(k[:ax] + (i,) + k[ax + ni:]))
    if not sh:
        return lower(g())
    return Arr('fn', sh, g, p.dtype, 'tf')


def gather_nd(it, params, indices, batch_dims=0, name=None):
    e = it.e
    p = A.lift_fn(convert(it, params))
    ind = A.lift_fn(convert(it, indices))
    bd = batch_dims
    q = ind.shape[-1]
    if not T.is_const(q):
        raise Unsupported('gather_nd depth')
    q = int(T.cval(q))
    if bd + q > p.ndim:
        raise PyRaise('ValueError', 'gather_nd depth')
    for b in range(bd):
        if not e.dim_eq(p.shape[b], ind.shape[b]):
            raise PyRaise('ValueError', 'gather_nd batch dimensions differ')
    d, f = p.data, ind.data
    outer = ind.shape[:-1]
    no = len(outer)
    for c in range(q):
        in_range(it, lambda *k, c=c: f(*(k + (T.const(c),))), outer, p.shape[bd + c], 'gather_nd index in range')

    def g(*k):
        o = k[:no]
        ix = tuple(f(*(o + (T.const(c),))) for c in range(q))
        return d(*(k[:bd] + ix + k[no:]))
    sh = outer + p.shape[bd + q:]
    return Arr('fn', sh, g, p.dtype, 'tf')


def scatter_nd_update(it, tensor, indices, updates, name=None):
    """out = tensor except out[indices[k]] = updates[k]; supported when every iteration coordinate appears as an index
    component (hence the written positions are distinct)"""
    e = it.e
    t = A.lift_fn(convert(it, tensor))
    ind = A.lift_fn(convert(it, indices))
    u = A.lift_fn(convert(it, updates))
    q = ind.shape[-1]
    if not T.is_const(q) or int(T.cval(q)) != t.ndim:
        raise Unsupported('scatter depth')
    q = int(T.cval(q))
    outer = ind.shape[:-1]
    if u.ndim != len(outer) or not all(e.dim_eq(x, y) for x, y in zip(u.shape, outer)):
        raise PyRaise('ValueError', 'scatter update shape')
    ks = [T.fresh('sk', T.INT) for _ in outer]
    comps = [ind.data(*(tuple(ks) + (T.const(c),))) for c in range(q)]
    inv = {}
    for n, kv in enumerate(ks):
        for c in range(q):
            if comps[c] is kv and e.dim_eq(t.shape[c], outer[n]):
                inv[n] = c
                break
    if len(inv) != len(ks):
        raise Unsupported('scatter index pattern')
    for c in range(q):
        if c not in inv.values():
            in_range(it, lambda *k, c=c: ind.data(*(k + (T.const(c),))), outer, t.shape[c], 'scatter index in range')
    td, ud = t.data, u.data

    def g(*k):
        o = tuple(k[inv[n]] for n in range(len(ks)))
        cond = [T.eq(ind.data(*(o + (T.const(c),))), k[c]) for c in range(q) if c not in inv.values()]
        c = T.and_(*cond) if cond else T.TRUE
        v = ud(*o)
        if t.dtype == 'f':
            v = T.toreal(v)
        return T.ite(c, v, td(*k)) if c is not T.TRUE else v
    return Arr('fn', t.shape, g, t.dtype, 'tf')


def tstack(it, values, axis=0, name=None):
    if axis not in (0,):
        items = [convert(it, x) for x in it.concrete_items(it.as_seq(values))]
        return concat(it, PyList([expand_dims(it, x, axis) for x in items]), axis)
    return tfa(stack(it, it.as_seq(values), None, 'tf'))


def tshape(it, a, out_type=None, name=None, **kw):
    a = convert(it, a)
    return tuple(lower(s) for s in a.shape) if isinstance(a, Arr) else ()


def treduce(op):
    r = S.red(op)

    def f(it, a, axis=None, keepdims=False, name=None, output_type=None, **kw):
        if isinstance(a, (PyList, tuple)):
            a = convert(it, a)
        if not isinstance(a, Arr):
            return a
        if axis is None and op.startswith('arg'):
            axis = 0
        x = r(it, a, t_axis(it, axis), keepdims)
        return tfa(x)
    return f


# ------------------------------------------------------------------ structures
def is_struct(x):
    return isinstance(x, tuple) or (isinstance(x, PyList))


def struct_map(it, f, x):
    if isinstance(x, tuple):
        return tuple(struct_map(it, f, y) for y in x)
    if isinstance(x, PyList):
        return PyList([struct_map(it, f, y) for y in it.concrete_items(x.seq)])
    return f(x)


def leaves(it, x):
    if isinstance(x, tuple):
        return [z for y in x for z in leaves(it, y)]
    if isinstance(x, PyList):
        return [z for y in it.concrete_items(x.seq) for z in leaves(it, y)]
    return [x]


def zip_rows(it, x):
    """structure of tensors with a common leading axis -> Seq of structures"""
    e = it.e
    lv = [convert(it, l) for l in leaves(it, x)]
    n = lv[0].shape[0]
    for l in lv[1:]:
        if not e.dim_eq(l.shape[0], n):
            if not e.branch(T.eq(l.shape[0], n)):
                raise PyRaise('ValueError', 'leading dimensions differ')
    seqs = [row_seq(it, l) for l in lv]
    if len(seqs) == 1:
        return seqs[0].map(lambda r: rebuild(it, x, [r]))
    if all(s.concrete() is not None for s in seqs):
        rows = list(zip(*[s.concrete() for s in seqs]))
        return Seq([Seg(items=[rebuild(it, x, list(r)) for r in rows])])

    def g(i):
        return rebuild(it, x, [s.get(i, e) for s in seqs])
    # common boundaries at the ends
    heads = max(len(s.segs[0].items or []) if s.segs else 0 for s in seqs)
    tails = max((len(s.segs[-1].items or []) if len(s.segs) > 1 else 0) for s in seqs)
    mid = T.sub(n, heads + tails)
    if heads + tails and e.entails(T.le(0, mid)):
        return Seq([Seg(items=[g(T.const(k)) for k in range(heads)]), Seg(mid, lambda i: g(T.add(i, heads))),
                    Seg(items=[g(T.sub(n, tails - k)) for k in range(tails)])])
    return Seq([Seg(n, g)])


def row_seq(it, a):
    if a.rep in ('mat', 'blk'):
        if a.data.is_zero() if a.rep == 'mat' else False:
            inner = a.shape[1:]
            z = Arr('mat', inner, N.zero(mat_shape(inner)), a.dtype, 'tf') if inner else T.const(0, T.REAL)
            return Seq([Seg(a.shape[0], lambda i: z)])
        raise Unsupported('rows of an abstract matrix')
    return A.rows(it.e, a)


def rebuild(it, x, vals):
    vals = list(vals)

    def rec(y):
        if isinstance(y, tuple):
            return tuple(rec(z) for z in y)
        if isinstance(y, PyList):
            return PyList([rec(z) for z in it.concrete_items(y.seq)])
        return vals.pop(0)
    return rec(x)


def get_path(it, x, path):
    for k in path:
        x = x[k] if isinstance(x, tuple) else it.concrete_items(x.seq)[k]
    return x


def paths(it, x, pre=()):
    if isinstance(x, tuple):
        return [p for k, y in enumerate(x) for p in paths(it, y, pre + (k,))]
    if isinstance(x, PyList):
        return [p for k, y in enumerate(it.concrete_items(x.seq)) for p in paths(it, y, pre + (k,))]
    return [pre]


def unzip(it, seq, like):
    """Seq of structures -> structure of stacked tensors"""
    out = []
    for p in paths(it, like):
        sq = seq.map(lambda r, p=p: get_path(it, r, p))
        out.append(tstack(it, PyList(sq)))
    return rebuild(it, like, out)


def scan(it, fn, elems, initializer=None, parallel_iterations=10, back_prop=True, swap_memory=False,
         infer_shape=True, reverse=False, name=None):
    from .contracts.scan_contract import ghost
    e = it.e
    if not isinstance(reverse, bool):
        raise Unsupported('reverse flag')
    seq = zip_rows(it, elems)
    if initializer is None:
        raise Unsupported('scan without initializer')
    init = struct_map(it, lambda x: convert(it, x), initializer)

    def tup(x):        # lists as tuples for the invariant inference
        if isinstance(x, PyList):
            return tuple(tup(y) for y in it.concrete_items(x.seq))
        if isinstance(x, tuple):
            return tuple(tup(y) for y in x)
        if isinstance(x, Arr) and x.ndim == 0:
            return lower(A.to_scalar_term(x))
        return x
    step = FnVal('scan body', lambda en, args, kw: tup(it.call(fn, [rebuild(it, initializer, leaves(it, args[0])), args[1]])))
    g = ghost(e, 'tfscan', 'bwd' if reverse else 'fwd')
    out = it.call(g, [step, PyList(seq), tup(init)])
    return unzip(it, out.seq, initializer)


def batch_of(it, x):
    if isinstance(x, Poison):
        from .exec import NeedCarried
        raise NeedCarried(x)
    return expand_dims(it, x, 0)


def scan_associative(it, fn, elems, max_num_levels=48, axis=0, validate_args=False, name=None):
    """prefix folds along the leading axis.
    requires: fn acts on batches row by row; fn is associative; fewer than 2**(max_num_levels+1) elements"""
    from .contracts import scan_contract as SC
    e = it.e
    if lower(axis) != 0:
        raise Unsupported('scan axis')
    seq = zip_rows(it, elems)
    n = seq.length()
    lv = lower(max_num_levels)
    # level limit
    if isinstance(lv, int):
        e.require(T.lt(n, 2 ** (lv + 1)), 'scan_associative: element count below 2**(max_num_levels+1)', 'pre')
    else:
        hook = getattr(e, 'levels_hook', None)
        if hook is None:
            raise Unsupported('symbolic max_num_levels')
        hook(e, n, lv)
    if e.bracket_scan is not None:         # contract for an operation that is not associative: see the contract module that installs it
        return e.bracket_scan(it, fn, elems)

    def op1(en, args, kw):
        a, b = args
        xa = rebuild(it, elems, [batch_of(it, x) for x in leaves(it, a)])
        xb = rebuild(it, elems, [batch_of(it, x) for x in leaves(it, b)])
        r = it.call(fn, [xa, xb])
        lr = leaves(it, r)
        if len(lr) != len(leaves(it, elems)):
            raise PyRaise('ValueError', 'scan operator changes the structure')
        return untup(elems, [A.getitem(it, x, 0) if isinstance(x, Arr) and x.ndim > 0 else Unsup('rank') for x in lr])

    def untup(x, vals):
        vals = list(vals)

        def rec(y):
            if isinstance(y, tuple):
                return tuple(rec(z) for z in y)
            if isinstance(y, PyList):
                return tuple(rec(z) for z in it.concrete_items(y.seq))
            return vals.pop(0)
        return rec(x)
    tseq = seq.map(lambda r: untup(elems, leaves(it, r)))
    op = FnVal('scan operator', op1)
    batchwise(it, SC, fn, op, elems, tseq, untup)
    out = SC.call_scan(e, op, tseq, False, it)
    return unzip_t(it, out.seq, elems)


def unzip_t(it, seq, like):
    out = []
    for p in paths(it, like):
        sq = seq.map(lambda r, p=p: get_path(it, r, p))
        # a component that no template describes may only be ignored by the caller
        unread = [x for g in sq.segs for x in (g.items if g.items is not None else [g.fn(T.fresh('pr', T.INT))]) if isinstance(x, Poison)]
        out.append(Poison('scan component %s' % (p,)) if unread else tstack(it, PyList(sq)))
    return rebuild(it, like, out)


def Unsup(m):
    raise Unsupported(m)


def batchwise(it, SC, fn, op, elems, tseq, untup):
    """obligation: fn applied to stacks of B elements acts on every row like fn on single elements"""
    e = it.e
    B, i = T.fresh('B', T.INT), T.fresh('bi', T.INT)
    k = T.fresh('k', T.INT)

    def probe():
        e.assume(T.le(0, k))
        e.assume(T.lt(k, tseq.length()))
        return SC.sig(e, tseq.get(k, e))
    e.mute += 1
    try:
        outs = e.explore(probe)
    finally:
        e.mute -= 1
    s = None
    for o in outs:
        if o.exc:
            raise o.exc
        s = o.result if s is None else SC.join(s, o.result)

    def opq(sg, nm, idx):
        if isinstance(sg, tuple):
            return tuple(opq(x, '%s_%d' % (nm, q), idx) for q, x in enumerate(sg))
        if sg[0] == 'scalar':
            return T.app(nm, (idx,), T.REAL)
        _, rep, shape, sym, dt, lib, bound = sg
        if rep == 'mat':
            return mat_atom(nm + ('s' if sym else ''), shape, (idx,), sym=sym, dtype=dt, lib=lib)
        srt = T.INT if dt == 'i' else T.REAL
        if bound is not None:
            def q(d, ks):
                if d == len(shape):
                    t = T.app(nm, (idx,) + tuple(ks), srt)
                    return T.and_(T.le(0, t), T.lt(t, bound))
                return T.binder('forall', shape[d], lambda u: q(d + 1, ks + [u]))
            e.facts.append(T.binder('forall', B, lambda u: _rebind(q, idx, u, shape, nm, srt, bound)))
        return Arr('fn', shape, lambda *kk: T.app(nm, (idx,) + kk, srt), dt, lib)

    def th():
        e.assume(T.le(1, B))
        e.assume(T.le(0, i))
        e.assume(T.lt(i, B))
        like = rebuild(it, elems, [None] * len(leaves(it, elems)))
        X = [stk(p, 'ba') for p in paths_s(s)]
        Y = [stk(p, 'bb') for p in paths_s(s)]
        r = it.call(fn, [rebuild(it, elems, X), rebuild(it, elems, Y)])
        lr = leaves(it, r)
        got = untup(elems, [A.getitem(it, x, i) for x in lr])
        want = it.call(op, [untup(elems, [A.getitem(it, x, i) for x in X]), untup(elems, [A.getitem(it, x, i) for x in Y])])
        SC.check_tuple(e, got, want, 'scan operator acts row by row on stacked elements')

    def paths_s(sg):
        out = []

        def rec(x, p):
            if isinstance(x, tuple):
                for q, y in enumerate(x):
                    rec(y, p + (q,))
            else:
                out.append((p, x))
        rec(s, ())
        return out

    def stk(ps, nm):
        p, sg = ps
        nm = nm + '_'.join(map(str, p))
        if sg[0] == 'scalar':
            return Arr('fn', (B,), lambda u: T.app(nm, (u,), T.REAL), 'f', 'tf')
        _, rep, shape, sym, dt, lib, bound = sg
        if rep == 'mat':
            return Arr('seq', (B,) + tuple(shape), Seq([Seg(B, lambda u: mat_atom(nm + ('s' if sym else ''), shape, (u,), sym=sym, dtype=dt, lib='tf'))]), dt, 'tf')
        srt = T.INT if dt == 'i' else T.REAL
        if bound is not None:
            def q(ks):
                if len(ks) == len(shape) + 1:
                    t = T.app(nm, tuple(ks), srt)
                    return T.and_(T.le(0, t), T.lt(t, bound))
                return T.binder('forall', B if not ks else shape[len(ks) - 1], lambda u: q(ks + [u]))
            e.facts.append(q([]))
        return Arr('fn', (B,) + tuple(shape), lambda *kk: T.app(nm, kk, srt), dt, 'tf')
    for o in e.explore(th):
        if o.exc:
            raise o.exc


def vectorized_map(it, fn, elems, fallback_to_while_loop=True, warn=True, **kw):
    from .contracts.scan_contract import ghost
    seq = zip_rows(it, elems)
    out = it.call(ghost(it.e, 'tfscan', 'vmap'), [FnVal('mapped function', lambda en, a, k: it.call(fn, a)), PyList(seq)])
    probe = None
    for s in out.seq.segs:
        probe = s.items[0] if s.items is not None else s.fn(T.fresh('pr', T.INT))
        break
    return unzip(it, out.seq, probe)


def tscalar(fn):
    f = S.scalar_fn(fn)
    return lambda it, x, name=None: f(it, [x], {})


def mk():
    g = {}

    def reg(d, pre, tab):
        for name, f in tab.items():
            def h(it, args, kw, f=f, name=name):
                TRUSTED.add(pre + name)
                return S.lib_call(f, it, args, kw, pre + name)
            d[name] = Builtin(pre + name, h)
    ew = lambda op: (lambda it, a, b, name=None: lower(A.elementwise(it.e, op, a, b)))
    cmp_ = lambda op: (lambda it, a, b, name=None: lower(A.elementwise(it.e, op, a, b, 'b')))
    base = dict(
        convert_to_tensor=convert, constant=lambda it, x, dtype=None, shape=None, name=None: convert(it, x, dtype),
        cast=cast, expand_dims=expand_dims, concat=concat, reverse=reverse, transpose=transpose, zeros=zeros, ones=ones,
        zeros_like=zeros_like, ones_like=ones_like, fill=fill, range=trange, linspace=linspace, repeat=repeat, tile=tile,
        reshape=reshape, gather=gather, gather_nd=gather_nd, tensor_scatter_nd_update=scatter_nd_update, stack=tstack,
        shape=tshape, split=split, pad=pad, argmin=treduce('argmin'), argmax=treduce('argmax'), reduce_min=treduce('min'),
        reduce_max=treduce('max'), reduce_sum=treduce('bsum'), scan=scan, eye=eye, vectorized_map=vectorized_map,
        map_fn=vectorized_map, where=lambda it, c, x=None, y=None, name=None: tfa(S.np_where(it, c, x, y)),
        matmul=matmul, identity=lambda it, x, name=None: x, abs=lambda it, x, name=None: S.b_abs(it, [x], {}),
        squeeze=lambda it, a, axis=None, name=None: squeeze(it, a, axis),
        add=lambda it, a, b, name=None: A.add(it.e, a, b), subtract=lambda it, a, b, name=None: A.sub(it.e, a, b),
        multiply=lambda it, a, b, name=None: A.emul(it.e, a, b), negative=lambda it, a, name=None: A.neg(a),
        minimum=ew(T.min2), maximum=ew(T.max2), less=cmp_(T.lt), less_equal=cmp_(T.le), greater=cmp_(T.gt),
        greater_equal=cmp_(T.ge), equal=cmp_(T.eq), logical_and=cmp_(T.and_), logical_or=cmp_(T.or_),
        exp=tscalar('exp'), sqrt=tscalar('sqrt'), sin=tscalar('sin'), cos=tscalar('cos'),
        meshgrid=lambda it, *xs, indexing='xy', name=None: S.meshgrid(it, *[convert(it, x) for x in xs], indexing=indexing),
        sign=lambda it, x, name=None: S.np_sign(it, x),
        broadcast_to=lambda it, a, shape, name=None: bcast_to(it, a, shape))
    reg(g, 'tf.', base)
    m = {}
    reg(m, 'tf.math.', dict(sign=lambda it, x, name=None: S.np_sign(it, x), log=lambda it, x, name=None: S.np_log(it, x), reduce_max=treduce('max'), reduce_min=treduce('min'),
                            reduce_sum=treduce('bsum'), argmin=treduce('argmin'), argmax=treduce('argmax'),
                            abs=lambda it, x, name=None: S.b_abs(it, [x], {}), exp=tscalar('exp'), sqrt=tscalar('sqrt'),
                            sin=tscalar('sin'), cos=tscalar('cos'), minimum=ew(T.min2), maximum=ew(T.max2)))
    m['multiply'] = g['multiply']
    g['math'] = ModVal('tf.math', m)
    l = {}
    reg(l, 'tf.linalg.', dict(matmul=matmul, matvec=matvec, matrix_transpose=matrix_transpose, cholesky=cholesky,
                              cholesky_solve=cholesky_solve, lu=lu, lu_solve=lu_solve, solve=tsolve, eye=eye,
                              inv=lambda it, a, name=None: S.lin_inv(it, a), norm=tnorm,
                              LinearOperatorFullMatrix=lin_op_full, LinearOperatorBlockDiag=lin_op_blockdiag))
    g['linalg'] = ModVal('tf.linalg', l)
    for nm, d in (('float64', 'f'), ('float32', 'f'), ('int32', 'i'), ('int64', 'i'), ('bool', 'b')):
        g[nm] = Opaque(('dtype', d))
    g['newaxis'] = None

    def function(it, args, kw):
        if args:
            return args[0]
        return Builtin('tf.function', lambda it2, a2, k2: a2[0])
    g['function'] = Builtin('tf.function', function)
    g['GradientTape'] = Builtin('tf.GradientTape', lambda it, a, k: Tape(*a, **k))
    g['Tensor'] = TypeTag('Tensor')
    pm = {}
    reg(pm, 'tfp.math.', dict(scan_associative=scan_associative))
    tfp = ModVal('tensorflow_probability', {'math': ModVal('tfp.math', pm)})
    return ModVal('tensorflow', g), tfp


def squeeze(it, a, axis):
    ax = t_axis(it, axis)
    if ax is None:
        raise Unsupported('squeeze')
    ax = ax if ax >= 0 else a.ndim + ax
    ix = [SliceVal(None, None, None)] * a.ndim
    ix[ax] = 0
    return A.getitem(it, a, tuple(ix))


def bcast_to(it, a, shape):
    sh = shp(it, shape)
    if len(sh) == 3 and isinstance(a, Arr) and a.rep == 'mat' and a.ndim == 2:
        return Arr('seq', sh, Seq([Seg(sh[0], lambda i: a)]), a.dtype, 'tf')
    x = A.lift_fn(a)
    nd = len(sh)
    return Arr('fn', sh, lambda *k: x.data(*[C0 if s is C1 else k[nd - x.ndim + q] for q, s in enumerate(x.shape)]), x.dtype, 'tf')


class Tape(CtxVal):
    """tf.GradientTape.  jacobian / batch_jacobian: exact derivative of the value with respect to a watched source; only user functions
    evaluated while the tape records (after the source is watched) count, and a non persistent tape answers one request"""

    def __init__(self, persistent=False, watch_accessed_variables=True):
        self.persistent, self.used, self.watched, self.seen, self.rows = persistent, False, [], set(), []

    def enter(self, it):
        if not hasattr(it.e, 'tapes'):
            it.e.tapes = []
        it.e.tapes.append(self)
        return self

    def exit(self, it):
        it.e.tapes.remove(self)

    def record(self, arr, family=False):
        """family: the row at a generic index of a batch is recorded"""
        if self.watched:
            for (c, w) in arr.data.d:
                for a in w:
                    b = N.atom_T(a) if a.tr else a
                    if family:
                        self.seen.add((b.name, None))
                    self.seen.add((b.name, b.idx))
                    self.seen.add((N.atom_T(b).name, N.atom_T(b).idx))

    def source(self, x):
        if not any(x is w for w in self.watched):
            raise Unsupported('derivative with respect to a tensor that is not watched')
        if self.used and not self.persistent:
            raise PyRaise('RuntimeError', 'A non-persistent GradientTape can only be used to compute one set of gradients')
        self.used = True

    def jac1(self, it, v, x):
        from . import shims_jax as J
        if not hasattr(it.e, 'dreg'):
            it.e.dreg = {}
        if not isinstance(v, Arr):
            v = A.lift_mat(v) if hasattr(A, 'lift_mat') else Unsup('derivative of a scalar')
        y = J.one_atom(x, e=it.e)
        old, it.e.tape_now = getattr(it.e, 'tape_now', None), self
        try:
            r = J.jac(it.e, v, y, x.shape[0])
        finally:
            it.e.tape_now = old
        r.lib = 'tf'
        for t in getattr(it.e, 'tapes', ()):
            t.record(r)
        return r

    def attr(self, it, a):
        def watch(it2, args, kw):
            if args[0] not in self.watched:
                self.watched.append(args[0])

        def jacobian(it2, args, kw):
            v, x = args
            self.source(x)
            return self.jac1(it2, v, x)

        def batch_jacobian(it2, args, kw):
            v, x = args
            self.source(x)
            if not (isinstance(v, Arr) and isinstance(x, Arr) and v.rep == 'seq' and x.rep == 'seq'):
                raise Unsupported('batch_jacobian of something that is not a batch')
            if v.ndim != 2 or x.ndim != 2:
                raise Unsupported('batch_jacobian ranks')
            if not it2.e.dim_eq(v.data.length(), x.data.length()):
                raise Unsupported('batch sizes')

            def row(k):
                u = v.data.get(k, it2.e)
                # one output component: the gradient as a row
                s = Arr('mat', (), u.data, u.dtype, u.lib) if u.shape[0] is C1 else u
                g = self.jac1(it2, s, x.data.get(k, it2.e))
                return Arr('mat', (C1, g.shape[0]), N.transpose(g.data), 'f', 'tf') if s is not u else g
            n = x.data.length()
            for o in A.generic_row(it2.e, n, row):
                for t in getattr(it2.e, 'tapes', ()):
                    if o.exc is None:
                        t.record(o.result, True)
            return Arr('seq', (n, v.shape[1], x.shape[1]), Seq([Seg(n, row)]), 'f', 'tf')
        tab = dict(watch=watch, jacobian=jacobian, batch_jacobian=batch_jacobian, gradient=jacobian)
        if a not in tab:
            raise Unsupported('GradientTape.' + a)
        TRUSTED.add('tf.GradientTape.' + a)
        return Builtin('tf.GradientTape.' + a, tab[a])


def tnorm(it, x, ord='euclidean', axis=None, keepdims=False, name=None):
    from . import shims_jax as J
    if ord not in ('euclidean', 2):
        raise Unsupported('norm')
    if isinstance(x, Arr) and x.rep == 'seq' and x.ndim == 2 and axis is None:      # of all entries
        ss = x.data.map(lambda r: A.to_scalar_term(A.matmul(it.e, r, r)))
        s = it.e.mk_binder('bsum', x.shape[0], lambda u: ss.get(u, it.e))
        return T.app('sqrt', (s,), T.REAL)
    return J.norm(it, x, None, axis, keepdims)


def install(eng):
    tf, tfp = mk()
    eng.shims['tensorflow'] = tf
    eng.shims['tensorflow_probability'] = tfp
    eng.shims['time'] = ModVal('time', None)

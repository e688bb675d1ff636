"""Array operations: trusted contracts of the numpy / tensorflow primitives, by representation."""
from fractions import Fraction
from . import terms as T
from . import ncalg as N
from .values import *
from . import values as V

C1 = T.const(1)
C0 = T.const(0)


def lib_of(*xs):
    for x in xs:
        if isinstance(x, Arr) and x.lib == 'tf':
            return 'tf'
    return 'np'


def dt_of(*xs):
    ds = []
    for x in xs:
        if isinstance(x, Arr):
            ds.append(x.dtype)
        elif isinstance(x, Fraction):
            ds.append('f')
        elif isinstance(x, T.Term):
            ds.append({'Int': 'i', 'Real': 'f', 'Bool': 'b'}[x.sort])
    if not ds:
        return 'f'
    if 'f' in ds:
        return 'f'
    sym = [d for d in ds if d not in ('f', 'i', 'b')]
    if sym:
        return sym[0]
    if 'i' in ds:
        return 'i'
    return ds[0]


# ------------------------------------------------------------------ block matrices
class Block:
    def __init__(self, rows, cols, ent):
        self.rows, self.cols, self.ent = list(rows), list(cols), [list(r) for r in ent]

    def map(self, f, g=lambda d: d):
        return Block([g(r) for r in self.rows], [g(c) for c in self.cols], [[f(p) for p in r] for r in self.ent])

    def shape(self):
        r, c = C0, C0
        for x in self.rows:
            r = T.add(r, x)
        for x in self.cols:
            c = T.add(c, x)
        return r, c

    def T(self):
        return Block(self.cols, self.rows, [[N.transpose(self.ent[i][j]) for i in range(len(self.rows))]
                                            for j in range(len(self.cols))])


def to_block(a):
    if a.rep == 'blk':
        return a.data
    if a.rep == 'mat':
        r, c = mat_shape(a.shape)
        return Block([r], [c], [[a.data]])
    raise Unsupported('block view of %s' % a.rep)


def blk_arr(b, ndim, dtype='f', lib='np'):
    if len(b.rows) == 1 and len(b.cols) == 1:
        return mat(b.ent[0][0], ndim, dtype, lib)
    r, c = b.shape()
    return Arr('blk', (r, c) if ndim == 2 else (r,), b, dtype, lib)


def _is_ident(p):
    """c * I polynomials"""
    return len(p.d) == 1 and list(p.d)[0][1] == ()


def split_rows(e, b, bound):
    """ensure `bound` (Int term) is a row boundary"""
    bound = T.L(bound)
    off = C0
    if bound is C0 or e.dim_eq(bound, 0):
        return b
    for k, r in enumerate(b.rows):
        nxt = T.add(off, r)
        if e.dim_eq(nxt, bound):
            return b
        if e.entails(T.lt(bound, nxt)):
            r1 = T.sub(bound, off)
            r2 = T.sub(nxt, bound)
            top, bot = [], []
            newcols = None
            for j, c in enumerate(b.cols):
                p = b.ent[k][j]
                if p.is_zero():
                    top.append([N.zero((r1, c))])
                    bot.append([N.zero((r2, c))])
                elif _is_ident(p):
                    # split the column as well
                    b2 = split_cols_at(e, b, j, r1)
                    return split_rows_ident(e, b2, k, j, r1, r2, bound)
                else:
                    raise Unsupported('splitting a dense block')
            ent = b.ent[:k] + [[x[0] for x in top], [x[0] for x in bot]] + b.ent[k + 1:]
            return Block(b.rows[:k] + [r1, r2] + b.rows[k + 1:], b.cols, ent)
        if not e.entails(T.lt(nxt, bound)):
            raise Unsupported('block boundary order undecided')
        off = nxt
    raise Unsupported('block boundary out of range')


def split_cols_at(e, b, j, c1):
    """split column block j into c1 and rest; identity entries in that column are turned into a pair"""
    c = b.cols[j]
    c2 = T.sub(c, c1)
    ent = []
    for i, row in enumerate(b.ent):
        p = row[j]
        if p.is_zero():
            pr = [N.zero((b.rows[i], c1)), N.zero((b.rows[i], c2))]
        elif _is_ident(p):
            pr = [('L', p), ('R', p)]
        else:
            raise Unsupported('splitting a dense block')
        ent.append(row[:j] + pr + row[j + 1:])
    return Block(b.rows, b.cols[:j] + [c1, c2] + b.cols[j + 1:], ent)


def split_rows_ident(e, b, k, j, r1, r2, bound):
    top, bot = [], []
    for q, c in enumerate(b.cols):
        p = b.ent[k][q]
        if isinstance(p, tuple):
            d = p[1].d
            if p[0] == 'L':
                top.append(N.Poly(d, (r1, c)))
                bot.append(N.zero((r2, c)))
            else:
                top.append(N.zero((r1, c)))
                bot.append(N.Poly(d, (r2, c)))
        elif p.is_zero():
            top.append(N.zero((r1, c)))
            bot.append(N.zero((r2, c)))
        else:
            raise Unsupported('splitting a dense block')
    for i, row in enumerate(b.ent):
        if i != k and any(isinstance(x, tuple) for x in row):
            raise Unsupported('splitting a dense block')
    ent = b.ent[:k] + [top, bot] + b.ent[k + 1:]
    return Block(b.rows[:k] + [r1, r2] + b.rows[k + 1:], b.cols, ent)


def split_cols(e, b, bound):
    return split_rows(e, b.T(), bound).T()


def bounds(parts):
    out, off = [], C0
    for p in parts[:-1]:
        off = T.add(off, p)
        out.append(off)
    return out


def align_rows(e, a, b):
    for x in bounds(a.rows):
        b = split_rows(e, b, x)
    for x in bounds(b.rows):
        a = split_rows(e, a, x)
    return a, b


def align_cols(e, a, b):
    x, y = align_rows(e, a.T(), b.T())
    return x.T(), y.T()


def align_both(e, a, b):
    """common refinement in both directions (splitting an identity block in one direction splits it in the other)"""
    for _ in range(20):
        a, b = align_rows(e, a, b)
        a, b = align_cols(e, a, b)
        if len(a.rows) == len(b.rows) and len(a.cols) == len(b.cols) and all(e.dim_eq(x, y) for x, y in zip(a.rows + a.cols, b.rows + b.cols)):
            return a, b
    raise Unsupported('blocks of different shapes')


def blk_add(e, a, b, s=1):
    a, b = align_both(e, a, b)
    return Block(a.rows, a.cols, [[N.add(p, q, s) for p, q in zip(r, t)] for r, t in zip(a.ent, b.ent)])


def blk_mul(e, a, b):
    # align a.cols with b.rows
    bt = b.T()
    a2, bt = align_cols(e, a, bt)
    b = bt.T()
    a = a2
    if len(a.cols) != len(b.rows) or not all(e.dim_eq(x, y) for x, y in zip(a.cols, b.rows)):
        raise Unsupported('block product partition')
    ent = []
    for i in range(len(a.rows)):
        row = []
        for j in range(len(b.cols)):
            s = N.zero((a.rows[i], b.cols[j]))
            for k in range(len(a.cols)):
                s = N.add(s, N.mul(a.ent[i][k], b.ent[k][j]))
            row.append(N.norm(s.d, (a.rows[i], b.cols[j])))
        ent.append(row)
    return Block(a.rows, b.cols, ent)


def blk_slice(e, b, r0, r1, c0, c1):
    """rows [r0,r1), cols [c0,c1); None = full"""
    if r0 is not None:
        b = split_rows(e, b, r0)
        tot = b.shape()[0]
        if not e.dim_eq(r1, tot):
            b = split_rows(e, b, r1)
        off, keep = C0, []
        for k, r in enumerate(b.rows):
            nxt = T.add(off, r)
            if (e.dim_eq(off, r0) or e.entails(T.le(r0, off))) and (e.dim_eq(nxt, r1) or e.entails(T.le(nxt, r1))):
                keep.append(k)
            off = nxt
        if not keep:
            raise Unsupported('empty block slice')
        b = Block([b.rows[k] for k in keep], b.cols, [b.ent[k] for k in keep])
    if c0 is not None:
        b = blk_slice(e, b.T(), c0, c1, None, None).T()
    return b


def blk_write(e, b, r0, r1, c0, c1, v):
    if r0 is not None:
        b = split_rows(e, b, r0)
        if not e.dim_eq(r1, b.shape()[0]):
            b = split_rows(e, b, r1)
    if c0 is not None:
        b = split_cols(e, b, c0)
        if not e.dim_eq(c1, b.shape()[1]):
            b = split_cols(e, b, c1)

    def rng(parts, lo, hi):
        if lo is None:
            return list(range(len(parts)))
        off, keep = C0, []
        for k, r in enumerate(parts):
            nxt = T.add(off, r)
            if (e.dim_eq(off, lo) or e.entails(T.le(lo, off))) and (e.dim_eq(nxt, hi) or e.entails(T.le(nxt, hi))):
                keep.append(k)
            off = nxt
        return keep
    # align v with the target partition, splitting the target when v is finer (repeatedly: splitting an identity refines both directions)
    off_r = C0 if r0 is None else r0
    off_c = C0 if c0 is None else c0
    for _ in range(20):
        for x in bounds(v.rows):
            b = split_rows(e, b, T.add(off_r, x))
        for x in bounds(v.cols):
            b = split_cols(e, b, T.add(off_c, x))
        ri, ci = rng(b.rows, r0, r1), rng(b.cols, c0, c1)
        sub = Block([b.rows[i] for i in ri], [b.cols[j] for j in ci], [[N.zero((b.rows[i], b.cols[j])) for j in ci] for i in ri])
        if not (e.dim_eq(v.shape()[0], sub.shape()[0]) and e.dim_eq(v.shape()[1], sub.shape()[1])):
            raise Unsupported('block write of a different shape')
        v = blk_add(e, v, sub)
        if len(v.rows) == len(ri) and len(v.cols) == len(ci):
            break
    else:
        raise Unsupported('block write partition')
    ent = [list(r) for r in b.ent]
    for a_, i in enumerate(ri):
        for b_, j in enumerate(ci):
            ent[i][j] = v.ent[a_][b_]
    return Block(b.rows, b.cols, ent)


def blk_eq(e, a, b):
    x, y = align_both(e, to_block(a), to_block(b))
    worst = ('proved', 'blockwise', 'nc-algebra')
    for r, t in zip(x.ent, y.ent):
        for p, q in zip(r, t):
            s = e._prove_zero(N.add(p, q, -1), [z for _, z in e.eqs])
            if s[0] == 'refuted':
                return s
            if s[0] != 'proved':
                worst = s
    return worst


# ------------------------------------------------------------------ scalars
SCAL = {}


def to_scalar_term(a):
    if isinstance(a, (int, Fraction, bool)):
        return T.const(a) if not isinstance(a, Fraction) else T._mk('const', (a,), T.REAL)
    if isinstance(a, T.Term):
        return a
    if a.rep == 'fn' and a.ndim == 0:
        return a.data()
    if a.rep == 'mat' and a.ndim == 0:
        p = a.data
        out = {}
        for (cen, w), c in p.d.items():
            if w == ():
                out[cen] = out.get(cen, 0) + c
            else:
                at = scal_atom(w)
                k = T._mmul(cen, ((at, 1),))
                out[k] = out.get(k, 0) + c
        return T.from_poly(out, T.REAL)
    raise Unsupported('scalar of %s ndim %d' % (a.rep, a.ndim))


def scal_atom(w):
    wt = tuple(N.atom_T(a) for a in reversed(w))        # a scalar equals its transpose: one name for both
    if [(a.name, a.tr) for a in wt] < [(a.name, a.tr) for a in w]:
        w = wt
    idx = []
    for a in w:
        if a.kind == 'inv':
            idx.append(C0)
        idx += [i for i in a.idx]
    name = 'sc<' + ' '.join(a.name + ("'" if a.tr else '') for a in w) + '>'
    t = T.app(name, tuple(idx), T.REAL)
    SCAL[t] = w
    return t


def scalar(x):
    """-> ('t', Term) if x is a scalar else None"""
    if isinstance(x, (int, Fraction)):
        return T.const(x) if isinstance(x, int) else T._mk('const', (x,), T.REAL)
    if isinstance(x, T.Term):
        return x
    if isinstance(x, Arr) and x.ndim == 0:
        return to_scalar_term(x)
    return None


# ------------------------------------------------------------------ representation changes
def rows(e, a):
    """sequence of leading-axis slices"""
    if a.rep == 'seq':
        return a.data
    if a.rep == 'fn':
        n = a.shape[0]
        d = a.data
        if a.ndim == 1:
            f = lambda i: d(i)
        else:
            f = lambda i: Arr('fn', a.shape[1:], (lambda *k: d(i, *k)), a.dtype, a.lib)
        if T.is_const(n):
            return Seq([Seg(items=[f(T.const(i)) for i in range(int(T.cval(n)))])])
        return Seq([Seg(n, f)])
    raise Unsupported('rows of %s' % a.rep)


def seq_arr(seq, inner_shape, dtype='f', lib='tf'):
    return Arr('seq', (seq.length(),) + tuple(inner_shape), seq, dtype, lib)


def bcast_dim(e, a, b):
    a, b = T.L(a), T.L(b)
    if a is b:
        return a
    if a is C1:
        return b
    if b is C1:
        return a
    if e.dim_eq(a, b):
        return a
    if e.branch(T.eq(a, b)):
        return a
    if e.branch(T.eq(a, 1)):
        return b
    if e.branch(T.eq(b, 1)):
        return a
    raise PyRaise('ValueError', 'operands could not be broadcast together')


def lift_fn(a):
    s = scalar(a)
    if s is not None:
        return Arr('fn', (), (lambda: s), dt_of(a))
    if a.rep == 'fn':
        return a
    if a.rep == 'mat':
        if a.data.is_zero():
            z = T.const(0, T.INT if a.dtype == "i" else T.REAL)
            return Arr('fn', a.shape, (lambda *k: z), a.dtype, a.lib)
        if len(a.data.d) == 1 and list(a.data.d)[0] == N.ONE and a.ndim == 2:
            c = list(a.data.d.values())[0]
            return Arr('fn', a.shape, (lambda i, j: T.ite(T.eq(i, j), T._mk('const', (c,), T.REAL), T.const(0, T.REAL))),
                       a.dtype, a.lib)
    raise Unsupported('entrywise view of %s' % a.rep)


def elementwise(e, f, a, b, dtype=None):
    """pointwise f: Term,Term->Term on fn arrays"""
    sa, sb = scalar(a), scalar(b)
    if sa is not None and sb is not None:
        return f(sa, sb)
    lib = lib_of(a, b)
    if isinstance(a, (PyList, tuple)) or isinstance(b, (PyList, tuple)):
        raise Unsupported('list in array arithmetic')
    dt = dtype or dt_of(a, b)
    a, b = lift_fn(a), lift_fn(b)
    nd = max(a.ndim, b.ndim)
    sh1 = (C1,) * (nd - a.ndim) + a.shape
    sh2 = (C1,) * (nd - b.ndim) + b.shape
    sh = tuple(bcast_dim(e, x, y) for x, y in zip(sh1, sh2))
    da, db = a.data, b.data
    na, nb = a.ndim, b.ndim
    s1, s2 = a.shape, b.shape

    def ix(k, s, n):
        k = k[nd - n:]
        return [C0 if (s[q] is C1 and sh[nd - n + q] is not C1) else k[q] for q in range(n)]

    def g(*k):
        return f(da(*ix(k, s1, na)), db(*ix(k, s2, nb)))
    return Arr('fn', sh, g, dt, lib)


def emap(e, f, a, dtype=None):
    s = scalar(a)
    if s is not None:
        return f(s)
    if a.rep == 'seq':
        return Arr('seq', a.shape, a.data.map(lambda x: emap(e, f, x, dtype)), dtype or a.dtype, a.lib)
    a = lift_fn(a)
    d = a.data
    return Arr('fn', a.shape, lambda *k: f(d(*k)), dtype or a.dtype, a.lib)


def is_seq(x):
    return isinstance(x, Arr) and x.rep == 'seq'


def batch2(e, f, a, b):
    """apply f elementwise over the batch axis of seq arrays"""
    lib = lib_of(a, b)
    if is_seq(a) and is_seq(b):
        na, nb = a.shape[0], b.shape[0]
        if na is C1 and nb is not C1:
            x = a.data.get(C0, e)
            return batch2(e, lambda p, q: f(x, q), b, b)
        if nb is C1 and na is not C1:
            y = b.data.get(C0, e)
            return batch2(e, lambda p, q: f(p, y), a, a)
        if a is b:
            sq = a.data.map(lambda x: f(x, x))
        else:
            if not e.dim_eq(na, nb):
                if not e.branch(T.eq(na, nb)):
                    raise PyRaise('ValueError', 'batch sizes differ')
            sq = zip_seq(e, f, a.data, b.data)
    elif is_seq(a):
        sq = a.data.map(lambda x: f(x, b))
    else:
        sq = b.data.map(lambda y: f(a, y))
    inner = probe_shape(e, sq)
    dt = 'f'
    return Arr('seq', (sq.length(),) + inner, sq, dt, lib)


def generic_row(e, n, row):
    """the row of a batch at a generic index (evaluated without keeping path facts)"""
    i = T.fresh('br', T.INT)

    def th():
        e.assume(T.and_(T.le(0, i), T.lt(i, n)))
        return row(i)
    e.mute += 1
    try:
        outs = e.explore(th)
    finally:
        e.mute -= 1
    return outs


def probe_shape(e, sq):
    for s in sq.segs:
        if s.items is not None:
            x = s.items[0]
            return x.shape if isinstance(x, Arr) else ()
    for s in sq.segs:
        i = T.fresh('pr', T.INT)
        sav = list(e.pc)
        e.mute += 1
        try:
            e.pc = e.pc + [T.le(0, i), T.lt(i, s.n)]
            # shape only; a probe must not fork the path
            outs = e.explore(lambda: s.fn(i))
        finally:
            e.mute -= 1
            e.pc = sav
        for o in outs:
            if o.exc is None:
                return o.result.shape if isinstance(o.result, Arr) else ()
    return ()


def zip_seq(e, f, p, q):
    if len(p.segs) == len(q.segs) and all(T.L(x.n) is T.L(y.n) for x, y in zip(p.segs, q.segs)):
        out = []
        for x, y in zip(p.segs, q.segs):
            if x.items is not None and y.items is not None:
                out.append(Seg(items=[f(u, v) for u, v in zip(x.items, y.items)]))
            elif x.items is None and y.items is None:
                out.append(Seg(x.n, lambda i, x=x, y=y: f(x.fn(i), y.fn(i))))
            else:
                g = [(lambda i, s=s: s.fn(i)) if s.items is None else (lambda i, s=s: Seq([s]).get(i, e)) for s in (x, y)]
                if x.items is not None:
                    out.append(Seg(items=[f(x.items[k], y.fn(T.const(k))) for k in range(len(x.items))]))
                else:
                    out.append(Seg(items=[f(x.fn(T.const(k)), y.items[k]) for k in range(len(y.items))]))
        return Seq(out)
    # split at the common boundaries
    n = p.length()
    try:
        cuts = []
        for s in (p, q):
            off = C0
            for sg in s.segs:
                if sg.items is not None:
                    for _ in sg.items:
                        off = T.add(off, 1)
                        cuts.append((off, 1))
                else:
                    off = T.add(off, sg.n)
                    cuts.append((off, 0))
        # only handle the common case of single items at the ends
        pf = sum(1 for _ in (p.segs[0].items or []))
        qf = sum(1 for _ in (q.segs[0].items or []))
        pl = sum(1 for _ in (p.segs[-1].items or []))
        ql = sum(1 for _ in (q.segs[-1].items or []))
        h, t = max(pf, qf), max(pl, ql)
        if h + t > 0 and len(p.segs) <= 3 and len(q.segs) <= 3:
            mid = T.sub(n, h + t)
            if e.entails(T.le(0, mid)):
                segs = [Seg(items=[f(p.get(T.const(k), e), q.get(T.const(k), e)) for k in range(h)]),
                        Seg(mid, lambda i: f(p.get(T.add(i, h), e), q.get(T.add(i, h), e))),
                        Seg(items=[f(p.get(T.sub(n, t - k), e), q.get(T.sub(n, t - k), e)) for k in range(t)])]
                return Seq(segs)
    except Unsupported:
        pass
    return Seq([Seg(n, lambda i: f(p.get(i, e), q.get(i, e)))])


# ------------------------------------------------------------------ arithmetic
def check_same(e, a, b):
    for x, y in zip(a, b):
        if not e.dim_eq(x, y):
            if not e.branch(T.eq(x, y)):
                raise PyRaise('ValueError', 'shape mismatch %s %s' % (a, b))


def add(e, a, b, s=1):
    sa, sb = scalar(a), scalar(b)
    if sa is not None and sb is not None and not (isinstance(a, Arr) and a.rep == 'mat') \
            and not (isinstance(b, Arr) and b.rep == 'mat'):
        return T.add(sa, sb) if s == 1 else T.sub(sa, sb)
    if (is_seq(a) and isinstance(b, Arr) and b.rep == 'mat' and b.ndim == 2 and a.ndim == 2 and b.data.is_zero()) or \
            (is_seq(b) and isinstance(a, Arr) and a.rep == 'mat' and a.ndim == 2 and b.ndim == 2 and a.data.is_zero()):
        check_same(e, a.shape, b.shape)
        return a if is_seq(a) else (b if s == 1 else neg(e, b))
    if is_seq(a) or is_seq(b):
        # batch of scalars/vectors/matrices: align trailing dims as numpy does; only equal ndim or scalar supported
        if is_seq(a) and is_seq(b) and a.ndim != b.ndim:
            big, small = (a, b) if a.ndim > b.ndim else (b, a)
            if small.ndim == big.ndim - 1 and not is_seq(rows_first(e, big)):
                raise Unsupported('batch broadcasting')
            f = (lambda x: add(e, x, small, s)) if big is a else (lambda y: add(e, small, y, s))
            sq = big.data.map(f)
            return Arr('seq', big.shape, sq, dt_of(a, b), lib_of(a, b))
        return batch2(e, lambda x, y: add(e, x, y, s), a, b)
    if isinstance(a, Arr) and isinstance(b, Arr) and a.rep in ('mat', 'blk') and b.rep in ('mat', 'blk'):
        lib = lib_of(a, b)
        if a.ndim != b.ndim or any(not e.dim_eq(x, y) for x, y in zip(a.shape, b.shape)):
            return mat_bcast(e, a, b, s)
        if a.rep == 'blk' or b.rep == 'blk':
            return blk_arr(blk_add(e, to_block(a), to_block(b), s), a.ndim, dt_of(a, b), lib)
        p = N.add(a.data, b.data, s)
        return Arr('mat', a.shape, N.norm(p.d, p.shape), dt_of(a, b), lib)
    if isinstance(a, Arr) and isinstance(b, Arr) and 'emul' in (a.rep, b.rep):
        raise Unsupported('sum of elementwise products')
    for x, y, xs in ((a, b, 0), (b, a, 1)):
        if isinstance(x, Arr) and x.rep in ('mat', 'blk'):
            sy = scalar(y)
            if sy is not None:
                if T.is_const(sy) and T.cval(sy) == 0:
                    return (a if xs == 0 else (b if s == 1 else neg(e, b)))
                if x.ndim == 0:
                    y2 = Arr('mat', (), N.scale_term(N.Poly({N.ONE: 1}, (C1, C1)), T.toreal(sy)))
                    return add(e, x, y2, s) if xs == 0 else add(e, y2, x, s)
                raise Unsupported('adding a scalar to every entry of an abstract matrix')
    return elementwise(e, (T.add if s == 1 else T.sub), a, b)


def rows_first(e, a):
    sq = a.data
    for sg in sq.segs:
        return sg.items[0] if sg.items is not None else sg.fn(T.fresh('pf', T.INT))
    raise Unsupported('empty')


def mat_bcast(e, a, b, s):
    # zero operands broadcast trivially
    if a.rep == 'mat' and b.rep == 'mat':
        if a.ndim == 0 and a.data.is_zero():
            return b if s == 1 else neg(e, b)
        if b.ndim == 0 and b.data.is_zero():
            return a
        if a.ndim == b.ndim:
            check_same(e, a.shape, b.shape)
            p = N.add(a.data, b.data, s)
            return Arr('mat', a.shape, N.norm(p.d, p.shape), dt_of(a, b), lib_of(a, b))
    raise Unsupported('broadcasting abstract matrices %s %s' % (a.shape, b.shape))


def sub(e, a, b):
    return add(e, a, b, -1)


def neg(e, a):
    if a.rep == 'seq':
        return Arr('seq', a.shape, a.data.map(lambda x: neg(e, x) if isinstance(x, Arr) else T.neg(T.L(x))), a.dtype, a.lib)
    if a.rep == 'mat':
        return Arr('mat', a.shape, N.Poly({m: -c for m, c in a.data.d.items()}, a.data.shape), a.dtype, a.lib)
    if a.rep == 'blk':
        return Arr('blk', a.shape, a.data.map(lambda p: N.Poly({m: -c for m, c in p.d.items()}, p.shape)), a.dtype, a.lib)
    return emap(e, T.neg, a)


def scale(e, a, t):
    if a.rep == 'mat':
        p = N.scale_term(a.data, t)
        return Arr('mat', a.shape, N.norm(p.d, p.shape), 'f', a.lib)
    if a.rep == 'blk':
        return Arr('blk', a.shape, a.data.map(lambda p: N.scale_term(p, t)), 'f', a.lib)
    if a.rep == 'seq':
        return Arr('seq', a.shape, a.data.map(lambda x: scale(e, x, t) if isinstance(x, Arr) else T.mul(T.L(x), t)), 'f', a.lib)
    if a.rep == 'emul':
        x, y = a.data
        return Arr('emul', a.shape, (scale(e, x, t), y), 'f', a.lib)
    d = a.data
    return Arr('fn', a.shape, lambda *k: T.mul(d(*k), t), 'f', a.lib)


def emul(e, a, b):
    sa, sb = scalar(a), scalar(b)
    if sa is not None and sb is not None:
        if isinstance(a, Arr) and a.rep == 'mat' and isinstance(b, Arr) and b.rep == 'mat':
            return scale(e, a, sb)
        if isinstance(a, Arr) and a.rep == 'mat':
            return scale(e, a, sb)
        if isinstance(b, Arr) and b.rep == 'mat':
            return scale(e, b, sa)
        return T.mul(sa, sb)
    if sa is not None and isinstance(b, Arr) and b.rep != 'fn':
        return scale(e, b, sa)
    if sb is not None and isinstance(a, Arr) and a.rep != 'fn':
        return scale(e, a, sb)
    if is_seq(a) or is_seq(b):
        return batch2(e, lambda x, y: emul(e, x, y), a, b)
    if isinstance(a, Arr) and isinstance(b, Arr) and a.rep == 'mat' and b.rep == 'mat':
        if a.ndim == 1 and b.ndim == 1:
            check_same(e, a.shape, b.shape)
            return Arr('emul', a.shape, (a, b), dt_of(a, b), lib_of(a, b))
        raise Unsupported('elementwise product of abstract matrices')
    return elementwise(e, T.mul, a, b)


def ediv(e, a, b):
    sb = scalar(b)
    if sb is not None:
        sa = scalar(a)
        if sa is not None and not (isinstance(a, Arr) and a.rep == 'mat'):
            return T.div(sa, sb)
        if isinstance(a, Arr) and a.rep != 'fn':
            return scale(e, a, T.inv(sb))
    return elementwise(e, T.div, a, b)


def epow(e, a, b):
    b2 = scalar(b)
    if b2 is not None and T.is_const(b2) and T.cval(b2).denominator == 1 and 0 < T.cval(b2) <= 4:
        n = int(T.cval(b2))

        def f(t):
            r = t
            for _ in range(n - 1):
                r = T.mul(r, t)
            return r
        return emap(e, f, a)
    raise Unsupported('power')


def one_by_one(a):
    """a (1,1) array given entrywise, as a matrix"""
    if a.rep == 'fn' and a.ndim == 2 and all(T.is_const(x) and T.cval(x) == 1 for x in a.shape) and a.dtype != 'b':
        return Arr('mat', a.shape, N.scale_term(N.ident(C1), T.toreal(a.data(C0, C0))), a.dtype, a.lib)
    return a


def matmul(e, a, b):
    if not (isinstance(a, Arr) and isinstance(b, Arr)):
        raise Unsupported('matmul of %s %s' % (type(a).__name__, type(b).__name__))
    if is_seq(a) or is_seq(b):
        # numpy batch semantics for >=2-d stacks of matrices
        for x in (a, b):
            if is_seq(x) and x.ndim < 3:
                raise Unsupported('matmul on batched vectors')
        return batch2(e, lambda x, y: matmul(e, x, y), a, b)
    a, b = one_by_one(a), one_by_one(b)
    if 'fn' in (a.rep, b.rep) or 'emul' in (a.rep, b.rep):
        raise Unsupported('matmul on entrywise arrays')
    lib = lib_of(a, b)
    dt = dt_of(a, b)
    if a.ndim == 0 or b.ndim == 0:
        raise PyRaise('ValueError', 'matmul with 0-d')
    if not e.dim_eq(a.shape[-1], b.shape[0 if b.ndim == 1 else -2]):
        if not e.branch(T.eq(a.shape[-1], b.shape[0 if b.ndim == 1 else -2])):
            raise PyRaise('ValueError', 'matmul shapes %s %s' % (a.shape, b.shape))
    if a.rep == 'blk' or b.rep == 'blk':
        x, y = to_block(a), to_block(b)
        if a.ndim == 1:
            x = x.T()
        z = blk_mul(e, x, y)
        if a.ndim == 1 and b.ndim == 2:
            return blk_arr(z.T(), 1, dt, lib)
        nd = (a.ndim == 2) + (b.ndim == 2)
        return blk_arr(z, nd, dt, lib)
    x, y = a.data, b.data
    if a.ndim == 1:
        x = N.transpose(x)
    z = N.mul(x, y)
    if a.ndim == 2 and b.ndim == 2:
        return Arr('mat', (a.shape[0], b.shape[1]), z, dt, lib)
    if a.ndim == 2 and b.ndim == 1:
        return Arr('mat', (a.shape[0],), z, dt, lib)
    if a.ndim == 1 and b.ndim == 2:
        return Arr('mat', (b.shape[1],), N.transpose(z), dt, lib)
    return Arr('mat', (), z, dt, lib)


def transpose(e, a):
    if a.ndim < 2:
        return a
    if a.rep == 'mat':
        r = Arr('mat', (a.shape[1], a.shape[0]), N.transpose(a.data), a.dtype, a.lib)
    elif a.rep == 'blk':
        r = Arr('blk', (a.shape[1], a.shape[0]), a.data.T(), a.dtype, a.lib)
    elif a.rep == 'fn' and a.ndim == 2:
        d = a.data
        r = Arr('fn', (a.shape[1], a.shape[0]), (lambda i, j: d(j, i)), a.dtype, a.lib)
    else:
        raise Unsupported('transpose of %s ndim %d' % (a.rep, a.ndim))
    if a.lib == 'np':
        r.base = (a, a.version, lambda: transpose(e, a), None)
    return r


def solve(e, a, b, pos=False, label='solve'):
    """a^{-1} b ; obligation recorded by the caller: a nonsingular (trusted precondition, see assumptions)"""
    if is_seq(a) or is_seq(b):
        if is_seq(a) and is_seq(b) and a.shape[0] is not C1 and b.shape[0] is not C1:
            if not e.dim_eq(a.shape[0], b.shape[0]):
                if not e.branch(T.eq(a.shape[0], b.shape[0])):
                    raise PyRaise('ValueError', 'batch sizes differ')
            pairs = zip_seq(e, lambda x, y: (x, y), a.data, b.data)
            nm = T.fresh_name('sol')
            segs, off = [], C0

            def one(xy, k):
                x, y = xy
                if x.rep == 'blk' or (x.rep == 'mat' and y.rep == 'blk'):
                    return blk_solve(e, x, y, pos, nm, (k,))
                return solve(e, x, y, pos)
            for sg in pairs.segs:
                if sg.items is not None:
                    segs.append(Seg(len(sg.items) and T.const(len(sg.items)), lambda i, sg=sg, o=off: one(Seq([sg]).get(i, e), T.add(o, i))))
                else:
                    segs.append(Seg(sg.n, lambda i, sg=sg, o=off: one(sg.fn(i), T.add(o, i))))
                off = T.add(off, sg.n)
            sq = Seq(segs)
            return Arr('seq', (sq.length(),) + probe_shape(e, sq), sq, 'f', lib_of(a, b))
        return batch2(e, lambda x, y: solve(e, x, y, pos), a, b)
    if a.rep == 'blk' or (a.rep == 'mat' and b.rep == 'blk'):
        return blk_solve(e, a, b, pos)
    if a.rep != 'mat' or b.rep != 'mat':
        raise Unsupported('solve on %s/%s' % (a.rep, b.rep))
    if not e.dim_eq(a.shape[0], a.shape[1]):
        if not e.branch(T.eq(a.shape[0], a.shape[1])):
            raise PyRaise('LinAlgError', 'square matrix expected')
    if not e.dim_eq(a.shape[0], b.shape[0]):
        if not e.branch(T.eq(a.shape[0], b.shape[0])):
            raise PyRaise('ValueError', 'solve shapes')
    if pos:
        e.obl_symmetric(a)
    p = e.canon_poly(a.data)
    e.note_inverse(a.data)
    z = N.mul(N.inverse(p), b.data)
    return Arr('mat', b.shape, z, dt_of(a, b, Fraction(1)), lib_of(a, b))


def blk_solve(e, a, b, pos=False, name=None, idx=()):
    """X with A X = B: one fresh atom per block of X, indexed by the enclosing loop indices; the equation is a hypothesis (A invertible)"""
    A, Bb = to_block(a), to_block(b)
    if not e.dim_eq(A.shape()[0], A.shape()[1]):
        if not e.branch(T.eq(A.shape()[0], A.shape()[1])):
            raise PyRaise('LinAlgError', 'square matrix expected')
    if not e.dim_eq(A.shape()[0], Bb.shape()[0]):
        if not e.branch(T.eq(A.shape()[0], Bb.shape()[0])):
            raise PyRaise('ValueError', 'solve shapes')
    if pos:
        e.obl_symmetric(a)
    name = name or T.fresh_name('sol')
    idx = tuple(idx) + tuple(j for j, _ in e.loop_stack)
    A, B2 = align_rows(e, A, Bb)
    cols = A.cols
    k = len(A.rows)
    if k > 1 and k == len(cols) and all(e.dim_eq(x, y) for x, y in zip(A.rows, cols)) and all(
            A.ent[i][i] == N.ident(cols[i]) and all(A.ent[i][j].is_zero() for j in range(i + 1, k)) for i in range(k)):
        # unit lower triangular: the exact solution by forward substitution
        ent = []
        for i in range(k):
            row = []
            for c in range(len(B2.cols)):
                x = B2.ent[i][c]
                for j in range(i):
                    if not A.ent[i][j].is_zero():
                        x = N.add(x, N.mul(A.ent[i][j], ent[j][c]), -1)
                row.append(x)
            ent.append(row)
        return blk_arr(Block(cols, B2.cols, ent), b.ndim, 'f', lib_of(a, b))
    X = Block(cols, B2.cols, [[N.of_atom(N.atom('%s_%d_%d' % (name, i, j), (cols[i], B2.cols[j]), idx)) for j in range(len(B2.cols))]
                              for i in range(len(cols))])
    R = blk_mul(e, A, X)
    R, B3 = align_rows(e, R, B2)
    rs = [N.add(R.ent[i][j], B3.ent[i][j], -1) for i in range(len(R.rows)) for j in range(len(R.cols))]
    e.eqs += [('solve', r) for r in rs]
    e.solves.append((name, idx, A, B2, X))
    return blk_arr(X, b.ndim, 'f', lib_of(a, b))


# ------------------------------------------------------------------ attributes / indexing
def attr(it, a, nm):
    e = it.e
    if nm == 'shape':
        from .exec import lower
        return tuple(lower(s) for s in a.shape)
    if nm == 'ndim':
        return a.ndim
    if nm == 'T':
        return transpose(e, a)
    if nm == 'dtype':
        return Opaque(('dtype', a.dtype))
    if nm == 'size':
        from .exec import lower
        n = C1
        for s in a.shape:
            n = T.mul(n, s)
        return lower(n)
    from . import shims
    if nm in shims.ARR_METHODS:
        f = shims.ARR_METHODS[nm]
        return Builtin('arr.' + nm, lambda it2, args, kw: f(it2, [a] + args, kw))
    raise Unsupported('array attribute %s' % nm)


def full_slice(s):
    return isinstance(s, SliceVal) and s.lo is None and s.hi is None and s.step is None


def getitem(it, a, ix):
    e = it.e
    from .exec import lower, term
    if not isinstance(ix, tuple):
        ix = (ix,)
    ix = tuple(lower(x) if isinstance(x, T.Term) else x for x in ix)
    # expand ellipsis
    nreal = sum(1 for x in ix if x is not ELLIPSIS and x is not None)
    if ELLIPSIS in ix:
        k = ix.index(ELLIPSIS)
        ix = ix[:k] + tuple(SliceVal(None, None, None) for _ in range(a.ndim - nreal)) + ix[k + 1:]
    else:
        ix = ix + tuple(SliceVal(None, None, None) for _ in range(a.ndim - nreal))
    if a.rep == 'seq':
        h, rest = ix[0], ix[1:]
        if h is None:
            raise Unsupported('newaxis on a batch')
        if isinstance(h, SliceVal):
            if full_slice(h):
                sq = a.data
            else:
                sq = it.step_slice(a.data, h)
                if sq is None:
                    lo, hi, st = it.clamp_slice(h, a.shape[0])
                    sq = a.data.rev() if st == -1 else a.data.slice(lo, hi, e)
            if all(full_slice(x) for x in rest):
                return Arr('seq', (sq.length(),) + a.shape[1:], sq, a.dtype, a.lib)
            sq = sq.map(lambda x: getitem(it, x, rest))
            inner = probe_shape(e, sq)
            return Arr('seq', (sq.length(),) + inner, sq, a.dtype, a.lib)
        if isinstance(h, Arr) and h.ndim > 0:
            raise Unsupported('fancy index of a batch')
        i = it.norm_index(h, a.shape[0])
        if not e.entails(T.and_(T.le(0, i), T.lt(i, a.shape[0]))):
            if not e.branch(T.and_(T.le(0, i), T.lt(i, a.shape[0]))):
                raise PyRaise('IndexError', 'batch index')
        x = a.data.get(i, e)
        if all(full_slice(y) for y in rest):
            return x
        return getitem(it, x, rest)
    if a.rep in ('mat', 'blk'):
        if all(full_slice(x) for x in ix):
            r = Arr(a.rep, a.shape, a.data, a.dtype, a.lib)
            if a.lib == 'np':
                r.base = (a, a.version, lambda: Arr(a.rep, a.shape, a.data, a.dtype, a.lib), lambda s: a.set(s.rep0, s.data0))
            return r
        # x[:,0] / x[...,0] of an n x 1 matrix is the vector
        if a.rep == 'mat' and a.ndim == 2 and len(ix) == 2:
            if full_slice(ix[0]) and ix[1] in (0, -1) and not isinstance(ix[1], bool):
                if a.shape[1] is C1:
                    return Arr('mat', (a.shape[0],), a.data, a.dtype, a.lib)
                if a.data.is_zero():
                    return Arr('mat', (a.shape[0],), N.zero((a.shape[0], C1)), a.dtype, a.lib)
                if ix[1] == 0:
                    return mat_atom('col0{' + N.show(a.data) + '}', (a.shape[0],))
            if full_slice(ix[0]) and ix[1] is None:
                pass
            if ix[0] in (0, -1) and not isinstance(ix[0], SliceVal) and full_slice(ix[1]):
                if a.shape[0] is C1:
                    return Arr('mat', (a.shape[1],), N.transpose(a.data), a.dtype, a.lib)
                if a.data.is_zero():
                    return Arr('mat', (a.shape[1],), N.zero((a.shape[1], C1)), a.dtype, a.lib)
                if ix[0] == 0:
                    return mat_atom('row0{' + N.show(a.data) + '}', (a.shape[1],))
        if a.ndim == 1 and len(ix) == 2 and any(x is None for x in ix):
            v = [x for x in ix if x is not None]
            if full_slice(v[0]):
                if ix[1] is None:
                    return Arr(a.rep, (a.shape[0], C1), a.data, a.dtype, a.lib)
                b = Arr(a.rep, (a.shape[0], C1), a.data, a.dtype, a.lib)
                return transpose(e, b)
        if all(isinstance(x, SliceVal) for x in ix):
            rs = []
            for x, n in zip(ix, a.shape):
                if full_slice(x):
                    rs += [None, None]
                else:
                    lo, hi, st = it.clamp_slice(x, n)
                    if st != 1:
                        raise Unsupported('reversed block')
                    rs += [lo, hi]
            if a.ndim == 1:
                rs += [None, None]
            b = blk_slice(e, to_block(a), *rs)
            r = blk_arr(b, a.ndim, a.dtype, a.lib)
            if a.lib == 'np':
                r.base = (a, a.version, lambda: getitem(it, a, ix), lambda s: write(e, a, ix, s, it))
            return r
        col = column_index(it, a, ix)
        if col is not None:
            ax, i = col
            one = [None, None, None, None]
            one[2 * ax:2 * ax + 2] = [i, T.add(i, 1)]
            o = ix[1 - ax]
            if not full_slice(o):
                lo, hi, st = it.clamp_slice(o, a.shape[1 - ax])
                if st != 1:
                    raise Unsupported('reversed block')
                one[2 - 2 * ax:4 - 2 * ax] = [lo, hi]
            b = blk_slice(e, to_block(a), *one)
            r = blk_arr(b if ax == 1 else b.T(), 1, a.dtype, a.lib)
            if a.lib == 'np':
                r.base = (a, a.version, lambda: getitem(it, a, ix), lambda s: write(e, a, ix, s, it))
            return r
        if a.rep == 'mat' and a.ndim == 1 and len(ix) == 1 and isinstance(ix[0], (int, T.Term)) and not isinstance(ix[0], bool):
            # one entry of an abstract vector: an opaque number (never the ground of a refutation)
            i = it.norm_index(ix[0], a.shape[0])
            if not e.entails(T.and_(T.le(0, i), T.lt(i, a.shape[0]))):
                if not e.branch(T.and_(T.le(0, i), T.lt(i, a.shape[0]))):
                    raise PyRaise('IndexError', 'vector index')
            if a.shape[0] is C1:
                return Arr('mat', (), a.data, a.dtype, a.lib)
            t = T.app('cv_entry{' + N.show(a.data) + '}', (T.L(i),), T.REAL)
            return Arr('fn', (), (lambda: t), a.dtype, a.lib)
        raise Unsupported('indexing an abstract matrix')
    # ---- fn
    if a.rep != 'fn':
        raise Unsupported('indexing %s' % a.rep)
    d = a.data
    out_shape = []
    plan = []           # per source axis
    basic = True
    adv_pos = None
    adv_shape = None
    ax = 0
    for x in ix:
        if x is None:
            out_shape.append(C1)
            plan.append(('new', len(out_shape) - 1))
            continue
        n = a.shape[ax]
        ax += 1
        if isinstance(x, SliceVal):
            if full_slice(x):
                lo, hi, st = C0, n, 1
            elif x.step is not None and lower(x.step) not in (1, -1) and e.entails(T.le(1, term(lower(x.step)))):
                if a.lib == 'np' and a.ndim:
                    raise Unsupported('strided view')
                st = term(lower(x.step))
                lo, hi, _ = it.clamp_slice(SliceVal(x.lo, x.hi, None), n)
                plan.append(('step', len(out_shape), lo, st))
                out_shape.append(it.slice_count(lo, hi, st))
                basic = False
                continue
            else:
                lo, hi, st = it.clamp_slice(x, n)
            if st == -1:
                plan.append(('rev', len(out_shape), n))
                out_shape.append(n)
            else:
                plan.append(('sl', len(out_shape), lo))
                out_shape.append(T.sub(hi, lo))
        elif isinstance(x, Arr) and x.ndim > 0:
            basic = False
            if x.rep != 'fn':
                raise Unsupported('fancy index')
            if x.dtype == 'b':
                raise Unsupported('boolean mask')
            if adv_pos is None:
                adv_pos = len(out_shape)
                adv_shape = x.shape
                out_shape += list(x.shape)
            else:
                check_same(e, adv_shape, x.shape)
            plan.append(('adv', adv_pos, x))
            e.index_in_range(x, n)
        else:
            i = it.norm_index(x, n)
            if not e.entails_h(T.and_(T.le(0, i), T.lt(i, n))):
                if not e.branch(T.and_(T.le(0, i), T.lt(i, n))):
                    raise PyRaise('IndexError', 'array index')
            plan.append(('int', i))

    def src(k):
        out = []
        for p in plan:
            if p[0] == 'new':
                continue
            if p[0] == 'int':
                out.append(p[1])
            elif p[0] == 'sl':
                out.append(T.add(p[2], k[p[1]]) if p[2] is not C0 else k[p[1]])
            elif p[0] == 'rev':
                out.append(T.sub(T.sub(p[2], 1), k[p[1]]))
            elif p[0] == 'step':
                out.append(T.add(p[2], T.mul(k[p[1]], p[3])))
            else:
                xa = p[2]
                out.append(xa.data(*k[p[1]:p[1] + xa.ndim]))
        return out
    if not out_shape:
        return lower(d(*src(())))
    r = Arr('fn', tuple(out_shape), lambda *k: d(*src(k)), a.dtype, a.lib)
    if basic and a.lib == 'np':
        r.base = (a, a.version, lambda: getitem(it, a, ix), lambda s: write(e, a, ix, s, it))
    return r


def inplace(e, old, new):
    """old op= new: content of old replaced, dtype of old kept"""
    if not isinstance(new, Arr):
        raise Unsupported('inplace')
    if new.ndim != old.ndim:
        raise PyRaise('ValueError', 'in-place broadcasting')
    check_same(e, old.shape, new.shape)
    dtype_check(e, old.dtype, new.dtype)
    old.set(new.rep, new.data)


def dtype_check(e, dst, src):
    """assignment into an array of another dtype: real values into a non-float array are truncated"""
    if dst == 'f' or dst == src:
        return
    if dst in ('i', 'b') and src == 'f':
        lb = 'dtype: real value stored into an integer array (the fractional part is lost)'
        if not any(o['label'] == lb for o in e.obligations):
            mu, e.mute = e.mute, 0
            e.obl(lb, 'refuted', 'dtype %s <- %s' % (dst, src), 'safety', 'dtype')
            e.mute = mu
    elif dst not in ('i', 'b', 'f') and src != dst and src == 'f':
        # dtype of a caller-supplied array: may be integer
        e.obl('dtype: real value stored into an array whose dtype is that of a caller-supplied array (%s)' % dst,
              'unknown', 'dtype %s <- %s' % (dst, src), 'dtype', 'dtype')


def cast(a, r):
    if r.sort == T.BOOL:
        return r
    if a.dtype == 'f':
        return T.toreal(r)
    if a.dtype == 'i' and r.sort == T.REAL:
        return T.app('trunc', (r,), T.INT)
    return r


def column_index(it, a, ix):
    """(axis, index) when exactly one axis of a matrix is indexed by an integer and the other by a slice"""
    if a.ndim != 2 or len(ix) != 2:
        return None
    num = [isinstance(x, int) and not isinstance(x, bool) or isinstance(x, T.Term) and x.sort == T.INT for x in ix]
    if sum(num) != 1 or not isinstance(ix[num.index(False)], SliceVal):
        return None
    ax = num.index(True)
    i = it.norm_index(ix[ax], a.shape[ax])
    if not it.e.entails_h(T.and_(T.le(0, i), T.lt(i, a.shape[ax]))):
        if not it.e.branch(T.and_(T.le(0, i), T.lt(i, a.shape[ax]))):
            raise PyRaise('IndexError', 'matrix index out of range')
    return ax, i


def write(e, a, ix, v, it=None):
    from .exec import Interp, lower
    it = it or Interp(e, None)
    if a.lib == 'tf':
        raise PyRaise('TypeError', 'tensors are immutable')
    if not isinstance(ix, tuple):
        ix = (ix,)
    ix = tuple(lower(x) if isinstance(x, T.Term) else x for x in ix)
    nreal = sum(1 for x in ix if x is not ELLIPSIS and x is not None)
    if ELLIPSIS in ix:
        k = ix.index(ELLIPSIS)
        ix = ix[:k] + tuple(SliceVal(None, None, None) for _ in range(a.ndim - nreal)) + ix[k + 1:]
    else:
        ix = ix + tuple(SliceVal(None, None, None) for _ in range(a.ndim - nreal))
    dtype_check(e, a.dtype, 'b' if isinstance(v, bool) else 'i' if isinstance(v, int) else dt_of(v))
    if a.rep in ('mat', 'blk') and all(isinstance(x, SliceVal) for x in ix) and \
            isinstance(v, Arr) and v.rep in ('mat', 'blk'):
        rs = []
        dims = []
        for x, n in zip(ix, a.shape):
            if full_slice(x):
                rs += [None, None]
                dims.append(n)
            else:
                lo, hi, st = it.clamp_slice(x, n)
                if st != 1:
                    raise Unsupported('reversed block write')
                rs += [lo, hi]
                dims.append(T.sub(hi, lo))
        if v.ndim != a.ndim:
            raise Unsupported('broadcast block write')
        check_same(e, tuple(dims), v.shape)
        if a.ndim == 1:
            rs += [None, None]
        if all(x is None for x in rs):
            a.set(v.rep, v.data)
            return
        b = blk_write(e, to_block(a), *rs, to_block(v))
        b = blk_arr(b, a.ndim, a.dtype, a.lib)
        a.set(b.rep, b.data)
        return
    if a.rep in ('mat', 'blk') and len(ix) == 2 and isinstance(v, Arr) and v.rep in ('mat', 'blk') and v.ndim == 1:
        col = column_index(it, a, ix) if a.rep == 'blk' or not (a.shape[0] is C1 or a.shape[1] is C1) else None
        if col is not None and full_slice(ix[1 - col[0]]):
            ax, i = col
            check_same(e, (a.shape[1 - ax],), v.shape)
            rs = [None, None, i, T.add(i, 1)] if ax == 1 else [i, T.add(i, 1), None, None]
            vb = to_block(v)
            try:
                b = blk_write(e, to_block(a), *rs, vb if ax == 1 else vb.T())
            except Unsupported:
                if a.rep == 'blk':
                    raise
                b = None
            if b is not None:
                b = blk_arr(b, a.ndim, a.dtype, a.lib)
                a.set(b.rep, b.data)
                return
    if a.rep in ('mat',) and not a.data.is_zero() and not (len(a.data.d) == 1 and list(a.data.d)[0] == N.ONE):
        raise Unsupported('entrywise write to an abstract matrix')
    if a.rep == 'blk':
        raise Unsupported('entrywise write to a block matrix')
    if a.rep == 'seq':
        raise Unsupported('write to batch')
    if a.rep == 'mat' and isinstance(v, Arr) and v.rep in ('mat', 'blk'):
        # row/col writes a[k,:] = vec : becomes a batch
        if a.ndim == 2 and not isinstance(ix[0], SliceVal) and full_slice(ix[1]) and a.data.is_zero():
            n = a.shape[0]
            w = a.shape[1]
            zr = Arr('mat', (w,), N.zero((w, C1)), a.dtype, a.lib)
            sq = Seq([Seg(n, lambda i: zr)])
            raise Unsupported('row writes of abstract vectors')
        raise Unsupported('write to abstract matrix')
    fa = lift_fn(a)
    old = fa.data
    conds = []        # per axis: (kind, ...)
    out_axes = []
    for x, n in zip(ix, a.shape):
        if isinstance(x, SliceVal):
            if full_slice(x):
                lo, hi = C0, n
            else:
                lo, hi, st = it.clamp_slice(x, n)
                if st != 1:
                    raise Unsupported('reversed write')
            conds.append(('sl', lo, hi, len(out_axes)))
            out_axes.append(T.sub(hi, lo))
        elif isinstance(x, Arr) and x.ndim > 0:
            raise Unsupported('fancy write')
        else:
            i = it.norm_index(x, n)
            if not e.entails_h(T.and_(T.le(0, i), T.lt(i, n))):
                if not e.branch(T.and_(T.le(0, i), T.lt(i, n))):
                    raise PyRaise('IndexError', 'array write index')
            conds.append(('int', i))
    sv = scalar(v) if not isinstance(v, bool) else T.const(v)
    if sv is not None:
        val = lambda k: sv
        sv = cast(a, sv)
    else:
        fv = lift_fn(v)
        vd, vs, vn = fv.data, fv.shape, fv.ndim
        if vn > len(out_axes):
            raise PyRaise('ValueError', 'could not broadcast input array')
        for x, y in zip(vs, out_axes[len(out_axes) - vn:]):
            if x is not C1 and not e.dim_eq(x, y):
                if not e.branch(T.eq(x, y)):
                    raise PyRaise('ValueError', 'could not broadcast input array')

        def val(k):
            kk = [None] * len(out_axes)
            for q, c in enumerate(conds):
                if c[0] == 'sl':
                    kk[c[3]] = T.sub(k[q], c[1]) if c[1] is not C0 else k[q]
            kk = kk[len(out_axes) - vn:]
            kk = [C0 if vs[q] is C1 else kk[q] for q in range(vn)]
            r = vd(*kk)
            return cast(a, r)

    def g(*k):
        cs = []
        for q, c in enumerate(conds):
            if c[0] == 'int':
                cs.append(T.eq(k[q], c[1]))
            else:
                if c[1] is not C0:
                    cs.append(T.le(c[1], k[q]))
                if c[2] is not a.shape[q]:
                    cs.append(T.lt(k[q], c[2]))
        cond = T.and_(*cs) if cs else T.TRUE
        if cond is T.TRUE:
            return val(k)
        if cond is T.FALSE:
            return old(*k)
        return T.ite(cond, val(k), old(*k))
    a.set('fn', g)


# ------------------------------------------------------------------ reductions on fn arrays
def reduce(e, op, a, axis=None, keepdims=False):
    """op in min,max,argmin,argmax,bsum"""
    if isinstance(a, (PyList, tuple)):
        raise Unsupported('reduction of a list')
    if a.rep == 'emul' and op == 'bsum' and not keepdims:
        return matmul(e, *a.data)
    if a.rep == 'seq' and a.ndim >= 2 and axis not in (None,):
        ax = axis if axis >= 0 else a.ndim + axis
        if ax >= 1:
            sq = a.data.map(lambda x: reduce(e, op, x, ax - 1, keepdims))
            return Arr('seq', (sq.length(),) + tuple(s for k, s in enumerate(a.shape[1:]) if k != ax - 1), sq,
                       'i' if op.startswith('arg') else a.dtype, a.lib)
    a = lift_fn(a)
    d = a.data
    if axis is None:
        if a.ndim == 1:
            axis = 0
        elif a.ndim == 0:
            return d()
        elif op in ('min', 'max', 'bsum'):
            r = a
            while isinstance(r, Arr):
                r = reduce(e, op, r, r.ndim - 1)
            return r
        else:
            raise Unsupported('argmin over a flattened array')
    ax = axis if axis >= 0 else a.ndim + axis
    n = a.shape[ax]
    sh = tuple(s for k, s in enumerate(a.shape) if k != ax)
    if op != 'bsum':
        if not e.entails_h(T.le(1, n)):
            if not e.branch(T.le(1, n)):
                raise PyRaise('ValueError', 'zero-size array to reduction')

    def g(*k):
        k = list(k)
        return e.mk_binder(op, n, lambda u: d(*(k[:ax] + [u] + k[ax:])))
    dt = 'i' if op.startswith('arg') else a.dtype
    if not sh:
        from .exec import lower
        r = g()
        return Arr('fn', (), (lambda: r), dt, a.lib) if a.lib == 'tf' else lower(r)
    if keepdims:
        sh2 = a.shape[:ax] + (C1,) + a.shape[ax + 1:]
        return Arr('fn', sh2, lambda *k: g(*(k[:ax] + k[ax + 1:])), dt, a.lib)
    return Arr('fn', sh, g, dt, a.lib)

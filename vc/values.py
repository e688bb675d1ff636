"""Value domain of the symbolic interpreter."""
import itertools
from . import terms as T
from . import ncalg as N


class Unsupported(Exception):
    """construct outside the verified subset (never a verdict)"""


class PyRaise(Exception):
    """the interpreted program raises"""

    def __init__(self, etype, msg=''):
        Exception.__init__(self, '%s: %s' % (etype, msg))
        self.etype = etype
        self.msg = msg


class PathEnd(Exception):
    pass


class Heap:
    objs = None


HEAP = []          # stack of lists of live mutable objects (for snapshot/restore)


class Mutable:
    """objects whose contents may be changed by the program"""

    def _reg(self):
        if HEAP:
            HEAP[-1].append(self)

    def snap(self):
        raise NotImplementedError

    def restore(self, s):
        raise NotImplementedError


class Poison:
    """value of a variable that is havocked by a loop and not (yet) understood"""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return 'Poison(%s)' % self.name


class Lazy:
    """value of a variable left over from a loop; computing it may fork the path, so it is computed on first use"""

    def __init__(self, fn):
        self.fn = fn


ONE_ = T.const(1)


def mat_shape(shape):
    if len(shape) == 2:
        return (shape[0], shape[1])
    if len(shape) == 1:
        return (shape[0], ONE_)
    return (ONE_, ONE_)


class Seg:
    """segment of a sequence: n elements, element i given by fn(i) (i: Int Term relative to the segment start)"""
    __slots__ = ('n', 'fn', 'items')

    def __init__(self, n=None, fn=None, items=None):
        self.items = list(items) if items is not None else None
        self.n = T.const(len(self.items)) if items is not None else n
        self.fn = fn

    def __repr__(self):
        return 'Seg(%s)' % (self.items if self.items is not None else self.n)


def divmod_terms(e, q, m, n=None):
    """(q div m, q mod m) for an Int term q and m >= 1; n: number of blocks, giving 0 <= q < n*m -> 0 <= q div m < n"""
    q, m = T.L(q), T.L(m)
    if T.is_const(m) and T.cval(m) == 1:
        return q, T.const(0)
    mm = m
    if T.is_const(m):
        f, c = None, int(T.cval(m))
    else:
        p = T.to_poly(m)
        if len(p) == 1:
            (f, c), = p.items()
        else:
            f, c = ((m, 1),), 1
    if f is not None or c:
        quo, rem = {}, {}
        for mon, k in T.to_poly(q).items():
            d = dict(mon)
            g = dict(f or ())
            if k / c == int(k / c) and all(d.get(a, 0) >= x for a, x in g.items()) and (f or mon or True):
                for a, x in g.items():
                    d[a] -= x
                r = tuple(sorted(((a, x) for a, x in d.items() if x), key=lambda ax: ax[0].id))
                quo[r] = quo.get(r, 0) + k / c
            else:
                rem[mon] = k
        rt = T.from_poly(rem, T.INT)
        if quo and e.entails_h(T.and_(T.le(0, rt), T.lt(rt, m))):
            return T.from_poly(quo, T.INT), rt
    if e.entails_h(T.and_(T.le(0, q), T.lt(q, m))):
        return T.const(0), q
    k, i = T.idiv(q, m), T.imod(q, m)
    f0 = T.implies(T.le(1, m), T.eq(q, T.add(T.mul(k, m), i)))
    if f0 not in e.facts or n is not None:
        fs = [T.eq(q, T.add(T.mul(k, m), i)), T.le(0, i), T.lt(i, m)]
        if n is not None:
            inr = T.and_(T.le(0, q), T.lt(q, T.mul(n, m)))
            fs.append(T.implies(inr, T.and_(T.le(0, k), T.lt(k, n))))
            fs.append(T.implies(inr, T.and_(T.le(0, T.mul(k, m)), T.le(T.mul(T.add(k, 1), m), T.mul(n, m)))))
        e.facts += [x for x in (T.implies(T.le(1, m), x) for x in fs) if x not in e.facts]
    return k, i


class NSeg(Seg):
    """n blocks of m elements each: element q is fn2(q div m, q mod m)"""
    __slots__ = ('blocks', 'm', 'fn2', 'e')

    def __init__(self, e, n, m, fn2):
        self.blocks, self.m, self.fn2, self.e = T.L(n), T.L(m), fn2, e
        Seg.__init__(self, T.mul(self.blocks, self.m), self.elem)

    def elem(self, q):
        return self.fn2(*divmod_terms(self.e, q, self.m, self.blocks))


class Seq:
    """immutable segmented sequence"""

    def __init__(self, segs):
        out = []
        for s in segs:
            if s.items is not None:
                if not s.items:
                    continue
                if out and out[-1].items is not None:
                    out[-1] = Seg(items=out[-1].items + s.items)
                    continue
            elif s.n is T.const(0):
                continue
            out.append(s)
        self.segs = out

    def length(self):
        n = T.const(0)
        for s in self.segs:
            n = T.add(n, s.n)
        return n

    def concrete(self):
        """list of items if fully concrete else None"""
        if not self.segs:
            return []
        if len(self.segs) == 1 and self.segs[0].items is not None:
            return self.segs[0].items
        return None

    def rev(self):
        out = []
        for s in reversed(self.segs):
            if s.items is not None:
                out.append(Seg(items=list(reversed(s.items))))
            elif isinstance(s, NSeg):
                one = T.const(1)
                out.append(NSeg(s.e, s.blocks, s.m, lambda k, i, s=s: s.fn2(T.sub(T.sub(s.blocks, one), k), T.sub(T.sub(s.m, one), i))))
            else:
                n, fn = s.n, s.fn
                out.append(Seg(n, lambda i, n=n, fn=fn: fn(T.sub(T.sub(n, 1), i))))
        return Seq(out)

    def map(self, f):
        out = []
        for s in self.segs:
            if s.items is not None:
                out.append(Seg(items=[f(x) for x in s.items]))
            else:
                out.append(Seg(s.n, lambda i, fn=s.fn: f(fn(i))))
        return Seq(out)

    def get(self, i, eng):
        i = T.L(i)
        for k, s in enumerate(self.segs):
            last = k == len(self.segs) - 1
            if last and s.items is None:
                eng.require(T.and_(T.le(0, i), T.lt(i, s.n)), 'index in range')
                return s.fn(i)
            if s.items is not None:
                if T.is_const(i):
                    c = int(T.cval(i))
                    if 0 <= c < len(s.items):
                        return s.items[c]
                else:
                    for c, it in enumerate(s.items):
                        if last and c == len(s.items) - 1:
                            eng.require(T.eq(i, c), 'index in range')
                            return it
                        if eng.branch(T.eq(i, c)):
                            return it
            else:
                if eng.branch(T.lt(i, s.n)):
                    return s.fn(i)
            i = T.sub(i, s.n)
        raise PyRaise('IndexError', 'index out of range')

    def slice(self, lo, hi, eng):
        """elements lo..hi-1 with 0 <= lo <= hi <= len (Int terms, already clamped)"""
        lo, hi = T.L(lo), T.L(hi)
        out = []
        off = T.const(0)
        for s in self.segs:
            # intersect [off, off+n) with [lo,hi)
            a = T.sub(lo, off)
            b = T.sub(hi, off)
            if s.items is not None:
                if T.is_const(a) and T.is_const(b):
                    ca, cb = max(0, int(T.cval(a))), min(len(s.items), int(T.cval(b)))
                    out.append(Seg(items=s.items[ca:cb] if cb > ca else []))
                else:
                    items = []
                    for c, it in enumerate(s.items):
                        if eng.branch(T.and_(T.le(a, c), T.lt(c, b))):
                            items.append(it)
                    out.append(Seg(items=items))
            else:
                if T.is_const(a) and T.cval(a) <= 0:
                    st = T.const(0)
                elif eng.entails_h(T.and_(T.le(0, a), T.le(a, s.n))):
                    st = a
                elif eng.branch(T.le(a, 0)):
                    st = T.const(0)
                elif eng.branch(T.le(a, s.n)):
                    st = a
                else:
                    st = s.n
                if eng.entails_h(T.and_(T.le(st, b), T.le(b, s.n))):
                    en = b
                elif eng.branch(T.ge(b, s.n)):
                    en = s.n
                elif eng.branch(T.ge(b, st)):
                    en = b
                else:
                    en = st
                n = T.sub(en, st)
                if not (T.is_const(n) and T.cval(n) <= 0):
                    out.append(Seg(n, lambda i, st=st, fn=s.fn: fn(T.add(i, st))))
            off = T.add(off, s.n)
        return Seq(out)


class PyList(Mutable):
    def __init__(self, seq):
        self.seq = seq if isinstance(seq, Seq) else Seq([Seg(items=list(seq))])
        self._reg()

    def snap(self):
        return self.seq

    def restore(self, s):
        self.seq = s

    def __repr__(self):
        return 'PyList(%s)' % self.seq.segs


class LastList(PyList):
    """final content of a list object created by the last iteration of a summarised loop: may be read, not changed"""

    def __init__(self, seq):
        self._seq = seq

    @property
    def seq(self):
        return self._seq

    @seq.setter
    def seq(self, v):
        raise Unsupported('list created in a loop is changed after it')


class StrVal(PyList):
    """string: sequence of character codes; an element is a string of length one"""


class MapVal:
    """dictionary given by a function of its key"""

    def __init__(self, fn):
        self.fn = fn


class PyDict(Mutable):
    def __init__(self, d=None):
        self.d = dict(d or {})
        self._reg()

    def snap(self):
        return dict(self.d)

    def restore(self, s):
        self.d = dict(s)


class Frame(Mutable):
    def __init__(self, parent=None, name=''):
        self.vars = {}
        self.parent = parent
        self.name = name
        self._reg()

    def snap(self):
        return dict(self.vars)

    def restore(self, s):
        self.vars = dict(s)

    def lookup(self, n):
        f = self
        while f is not None:
            if n in f.vars:
                return f.vars[n]
            f = f.parent
        raise KeyError(n)


class Obj(Mutable):
    def __init__(self, cls):
        self.cls = cls
        self.f = {}
        self._reg()

    def snap(self):
        return dict(self.f)

    def restore(self, s):
        self.f = dict(s)

    def __repr__(self):
        return 'Obj(%s)' % (self.cls.name if self.cls else '?')


_uid = itertools.count(1)


class Arr(Mutable):
    """array / tensor.  rep: 'mat' (data: Poly), 'blk' (data: Block), 'fn' (data: closure idx->Term),
    'seq' (data: Seq of Arr along the leading axis)"""

    def __init__(self, rep, shape, data, dtype='f', lib='np'):
        self.rep0 = rep
        self.shape = tuple(T.L(s) for s in shape)
        self.data0 = data
        self.dtype = dtype
        self.version = 0
        self.base = None       # (parent Arr, version seen, recompute closure, writeback closure)
        self.lib = lib
        self.uid = next(_uid)
        self._reg()

    def snap(self):
        return (self.rep0, self.shape, self.data0, self.dtype, self.version, self.base)

    def restore(self, s):
        self.rep0, self.shape, self.data0, self.dtype, self.version, self.base = s

    def _sync(self):
        if self.base is not None:
            par, ver, rec, wb = self.base
            par._sync()
            if par.version != ver:
                a = rec()
                self.rep0, self.data0 = a.rep0, a.data0
                self.base = (par, par.version, rec, wb)
                self.version += 1

    @property
    def rep(self):
        self._sync()
        return self.rep0

    @property
    def data(self):
        self._sync()
        return self.data0

    def set(self, rep, data):
        """in-place content change"""
        self._sync()
        self.rep0, self.data0 = rep, data
        self.version += 1
        if self.base is not None:
            par, ver, rec, wb = self.base
            if wb is None:
                raise Unsupported('write through a view')
            wb(self)
            self.base = (par, par.version, rec, wb)

    @property
    def ndim(self):
        return len(self.shape)

    def __repr__(self):
        if self.rep == 'mat':
            return 'Mat%s<%s>' % (list(self.shape), self.data)
        return 'Arr(%s,%s)' % (self.rep, list(self.shape))


def mat(poly, ndim=2, dtype='f', lib='np'):
    sh = poly.shape
    return Arr('mat', sh if ndim == 2 else ((sh[0],) if ndim == 1 else ()), poly, dtype, lib)


def mat_atom(name, shape, idx=(), sym=False, dtype='f', lib='np'):
    shape = tuple(T.L(s) for s in shape)
    return Arr('mat', shape, N.of_atom(N.atom(name, mat_shape(shape), idx, sym)), dtype, lib)


class Closure:
    def __init__(self, node, frame, module, name, defaults=(), kwdefaults=None, qual=None):
        self.node, self.frame, self.module, self.name = node, frame, module, name
        self.defaults = defaults
        self.kwdefaults = kwdefaults or {}
        self.qual = qual

    def __repr__(self):
        return 'Closure(%s)' % self.name


class Bound:
    def __init__(self, fn, self_):
        self.fn, self.self_ = fn, self_


class ClassVal:
    def __init__(self, name, module):
        self.name, self.module = name, module
        self.f = {}
        self.bases = []

    def find(self, n):
        if n in self.f:
            return self.f[n]
        for b in self.bases:
            r = b.find(n)
            if r is not None:
                return r
        return None


class ModVal:
    def __init__(self, name, g):
        self.name, self.g = name, g


class Builtin:
    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __repr__(self):
        return 'Builtin(%s)' % self.name


class TypeTag:
    """python/numpy type objects: list, float, int, np.ndarray..."""

    def __init__(self, name, call=None):
        self.name, self.call = name, call

    def __repr__(self):
        return 'Type(%s)' % self.name


class Opaque:
    """uninterpreted python object, compared by identity/tag (dtype objects etc.)"""

    def __init__(self, tag):
        self.tag = tag

    def __repr__(self):
        return 'Opaque(%s)' % (self.tag,)


class CtxVal:
    """a context manager of a library (subclasses define enter and exit)"""

    def enter(self, it):
        return self

    def exit(self, it):
        pass


class FnVal:
    """uninterpreted mathematical function passed as an argument; fn(engine, args)->value"""

    def __init__(self, name, fn):
        self.name, self.fn = name, fn


class RangeVal:
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class SliceVal:
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


ELLIPSIS = Opaque('...')


# ------------------------------------------------------------------ substitution in values
def subst_poly(p, m):
    if not m:
        return p

    cache = {}

    def sa(a):
        r = cache.get(a)
        if r is None:
            if a.kind == 'inv':
                d = subst_poly(a.defn, m)
                r = N.inverse(d)
                if a.tr:
                    r = N.transpose(r)
            else:
                idx = tuple(T.subst(i, m) if isinstance(i, T.Term) else i for i in a.idx)
                sh = tuple(T.subst(s, m) for s in a.shape)
                if idx == a.idx and sh == a.shape:
                    r = N.of_atom(a)
                else:
                    base_sh = (sh[1], sh[0]) if (a.tr and not a.sym) else sh
                    b = N.atom(a.name, base_sh, idx, a.sym, a.kind, a.defn)
                    r = N.of_atom(N.atom_T(b) if a.tr and not a.sym else b)
            cache[a] = r
        return r
    res = N.zero(tuple(T.subst(s, m) for s in p.shape))
    for (cen, w), c in p.d.items():
        cur = None
        for a in w:
            q = sa(a)
            cur = q if cur is None else N.mul_raw(cur, q)
        if cur is None:
            cur = N.Poly({N.ONE: 1}, res.shape)
        tt = T.const(1)
        if cen:
            for x, e in cen:
                xs = T.subst(x, m)
                for _ in range(e):
                    tt = T.mul(tt, xs)
            cur = N.scale_term(cur, T.cancel(tt) if tt.op == 'poly' else tt)
        for k, v in cur.d.items():
            res.d[k] = res.d.get(k, 0) + v * c
    return N.norm(res.d, res.shape)


def subst_val(v, m):
    if not m:
        return v
    if isinstance(v, T.Term):
        return T.subst(v, m)
    if isinstance(v, tuple):
        return tuple(subst_val(x, m) for x in v)
    if isinstance(v, list):
        return [subst_val(x, m) for x in v]
    if isinstance(v, Arr):
        sh = tuple(T.subst(s, m) for s in v.shape)
        if v.rep == 'mat':
            return Arr('mat', sh, subst_poly(v.data, m), v.dtype, v.lib)
        if v.rep == 'fn':
            return Arr('fn', sh, subst_fn(v.data, len(v.shape), m), v.dtype, v.lib)
        if v.rep == 'seq':
            return Arr('seq', sh, subst_seq(v.data, m), v.dtype, v.lib)
        if v.rep == 'blk':
            return Arr('blk', sh, v.data.map(lambda p: subst_poly(p, m), lambda d: T.subst(d, m)), v.dtype, v.lib)
    if isinstance(v, LastList):
        return LastList(subst_seq(v.seq, m))
    if isinstance(v, PyList):
        return PyList(subst_seq(v.seq, m))
    if isinstance(v, Seq):
        return subst_seq(v, m)
    return v


def subst_fn(fn, nd, m):
    def g(*idx):
        vs = [T.fresh('sx', T.INT) for _ in range(nd)]
        t = T.subst(fn(*vs), m)
        return T.subst(t, dict(zip(vs, idx)))
    return g


def subst_seq(s, m):
    out = []
    for sg in s.segs:
        if sg.items is not None:
            out.append(Seg(items=[subst_val(x, m) for x in sg.items]))
        else:
            def fn(i, sg=sg):
                if not (T.free_vars(T.L(i)) & set(m)):
                    return subst_val(sg.fn(i), m)
                v = T.fresh('si', T.INT)
                return subst_val(subst_val(sg.fn(v), m), {v: i})
            out.append(Seg(T.subst(sg.n, m), fn))
    return Seq(out)

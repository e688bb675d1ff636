"""Trusted contracts of the jax operations used by the repository.

jax.numpy operations have the meaning of their numpy namesakes (arrays are never modified in place).  jacfwd / grad: the function is
interpreted at a fresh point and its result, an expression over the symbols of the user's functions at that point, is differentiated
exactly; the symbols' derivatives (first and second) are symbols too.  lax.scan is the ghost loop ghost/jaxscan.py."""
from fractions import Fraction
from . import terms as T
from . import ncalg as N
from .values import *
from . import arrops as A
from .shims import TRUSTED, lib_call, wrapb, lower, term
from . import shims as SH


def one_atom(v, what='a user function is evaluated at a point that is not a symbol', e=None):
    if isinstance(v, Poison):
        from .exec import NeedCarried
        raise NeedCarried(v)
    if isinstance(v, Arr) and v.rep == 'mat' and len(v.data.d) == 1:
        ((c, w), q), = v.data.d.items()
        if q == 1 and c == () and len(w) == 1 and not w[0].tr:
            return w[0]
    if isinstance(v, Arr) and v.rep == 'mat' and e is not None and getattr(e, 'point_hook', None):
        a = e.point_hook(v)
        if a is not None:
            return a
    raise Unsupported(what)


def proto(a):
    return (a.name, a.shape, len(a.idx), a.sym)


def split(e, b):
    """(function, order, parameter symbols, multiplier symbol) of a function symbol"""
    f, order, ps, lam = e.dreg[b.name]
    idx = list(b.idx)

    def take(pr):
        k = pr[2]
        t = tuple(idx[len(idx) - k:]) if k else ()
        del idx[len(idx) - k:]
        return N.atom(pr[0], pr[1], t, pr[3])
    la = take(lam) if lam else None
    par = []
    for pr in reversed(ps):
        par.append(take(pr))
    return f, order, tuple(reversed(par)), la, tuple(idx)


class Smooth:
    """a user function of a vector (and possibly parameters): value, first and second derivative are symbols of the point"""

    def __init__(self, e, name, n, m=None, lib='np'):
        self.e, self.name, self.n, self.m, self.lib = e, name, n, m, lib
        if not hasattr(e, 'dreg'):
            e.dreg = {}

    def sym(self, order, x, par=()):
        """order 0, 1, 2 (2 only for scalar functions) at the atom x"""
        nm = '%s%d(%s%s)' % (self.name, order, x.name, ''.join(';' + p.name for p in par))
        idx = x.idx + tuple(i for p in par for i in p.idx)
        base = () if self.m is None else (self.m,)
        sh = base + (self.n,) * order
        self.e.dreg.setdefault(nm, (self, order, tuple(proto(p) for p in par), None))
        return mat_atom(nm, sh, idx, sym=order == 2 or sh == (), lib=self.lib)

    def bilin(self, x, lam, par=()):
        """sum_i lam_i D^2 c_i(x)"""
        nm = '%s2(%s%s|%s)' % (self.name, x.name, ''.join(';' + p.name for p in par), lam.name)
        idx = x.idx + tuple(i for p in par for i in p.idx) + lam.idx
        self.e.dreg.setdefault(nm, (self, 2, tuple(proto(p) for p in par), proto(lam)))
        return mat_atom(nm, (self.n, self.n), idx, sym=True, lib=self.lib)

    def fn(self):
        def call(eng, args, kw):
            if kw:
                raise Unsupported('keyword arguments of a user function')
            if isinstance(args[0], Arr) and args[0].rep == 'seq':      # a batch of points: row by row
                n = args[0].data.length()
                ps = args[1:]
                for p in ps:
                    if not (isinstance(p, Arr) and p.rep == 'seq'):
                        raise Unsupported('parameters of a batch')
                    eng.require_h(T.eq(n, p.data.length()), 'a function is applied to as many parameters as points', 'pre')
                row = lambda k: one(eng, [args[0].data.get(k, eng)] + [p.data.get(k, eng) for p in ps])
                for o in A.generic_row(eng, n, row):
                    for t in getattr(eng, 'tapes', ()):
                        if o.exc is None:
                            t.record(o.result, True)
                sh = () if self.m is None else (self.m,)
                return Arr('seq', (n,) + sh, Seq([Seg(n, row)]), 'f', args[0].lib)
            return one(eng, args)

        def one(eng, args):
            x = one_atom(args[0], e=eng)
            r = self.sym(0, x, tuple(one_atom(p) for p in args[1:]))
            for t in getattr(eng, 'tapes', ()):
                t.record(r)
            return r
        return FnVal(self.name, call)


def dep(e, a, y):
    """does the symbol a depend on the point symbol y?  (order, function, parameters) of a user function symbol"""
    if a is y or N.atom_T(a) is y:
        return 'id'
    if a.name not in e.dreg:
        if y.name in a.name:
            raise Unsupported('derivative of %s' % a.name)
        return None
    f, order, par, lam, pidx = split(e, N.atom_T(a) if a.tr else a)
    if not ('(' + y.name + ')' in a.name or '(' + y.name + ';' in a.name or '(' + y.name + '|' in a.name):
        if any(p.name == y.name for p in par) or (lam is not None and lam.name == y.name):
            raise Unsupported('derivative with respect to a parameter')
        return None
    if len(pidx) != len(y.idx) or any(u is not v and not e.entails(T.eq(u, v)) for u, v in zip(pidx, y.idx)):
        raise Unsupported('a symbol at another point of the same family')
    e_tape = getattr(e, 'tape_now', None)
    if e_tape is not None and (a.name, a.idx) not in e_tape.seen and (a.name, None) not in e_tape.seen:
        raise Unsupported('%s is not recorded on the tape' % a.name)
    return f, order, par


def jac(e, val, y, n):
    """exact derivative of an expression of ndim 0 or 1 with respect to the point symbol y"""
    if isinstance(val, (int, Fraction)):
        return Arr('mat', (n,), N.zero((n, T.const(1))))
    if not (isinstance(val, Arr) and val.rep == 'mat' and val.ndim <= 1):
        raise Unsupported('derivative of %s' % (getattr(val, 'rep', type(val).__name__),))
    one = T.const(1)
    sh = (n,) if val.ndim == 0 else (val.shape[0], n)
    acc = N.zero(sh if len(sh) == 2 else (n, one))

    def word(w):
        p = N.of_atom(w[0])
        for a in w[1:]:
            p = N.mul(p, N.of_atom(a))
        return p
    for (cen, w), c in val.data.d.items():
        if any(y.name in repr(t) for t, _ in cen):
            raise Unsupported('scalar factor depends on the point')
        ds = [dep(e, a, y) for a in w]
        for i, d in enumerate(ds):
            if d is None:
                continue
            a = w[i]
            if d == 'id':
                D, tr = N.ident(n), a is not y
            else:
                f, order, par = d
                base = N.atom_T(a) if a.tr else a
                tr = a.tr
                if order == 0 and (f.m is not None or val.ndim == 0):
                    D = f.sym(1, y, par).data
                elif order == 1 and f.m is None:
                    D = f.sym(2, y, par).data
                elif order == 1 and tr and i == 0 and len(w) == 2 and val.ndim == 1:
                    D = f.bilin(y, w[1], par).data      # (D c)^T lam
                    acc = N.add(acc, N.scale_term(D, coef(cen, c)))
                    continue
                else:
                    raise Unsupported('derivative of order %d' % (order + 1))
            pre, post = w[:i], w[i + 1:]
            if val.ndim == 0:
                # gradient as a column: (pre a post) with a column or row vector (or scalar) symbol
                if len(w) == 1:
                    g = D
                elif tr and not pre:        # a^T post
                    g = N.mul(N.transpose(D), word(post))
                elif not tr and not post:   # pre a
                    g = N.transpose(N.mul(word(pre), D))
                else:
                    raise Unsupported('derivative of a product')
            else:
                if tr or post:
                    raise Unsupported('derivative of a product')
                g = N.mul(word(pre), D) if pre else D
            acc = N.add(acc, N.scale_term(g, coef(cen, c)))
    return Arr('mat', sh, acc, 'f', val.lib)


def coef(cen, c):
    return T.from_poly({cen: c}, T.REAL)


def at_point(e, arr, y, x):
    """replace the fresh point by the actual one in the symbols"""

    def f(a):
        if y.name not in a.name:
            return N.of_atom(a)
        b = N.atom_T(a) if a.tr else a
        if b is y:
            p = N.of_atom(x)
        else:
            fo, order, par, lam, _ = split(e, b)
            p = (fo.bilin(x, lam, par) if lam is not None else fo.sym(order, x, par)).data
        return N.transpose(p) if a.tr else p
    return Arr(arr.rep, arr.shape, N.subst_atoms(arr.data, f), arr.dtype, arr.lib)


def derivative(kind):
    def build(it, f, argnums=0, has_aux=False):
        if argnums not in (0,) or has_aux is not False:
            raise Unsupported('option of jax.' + kind)

        def call(eng, args, kw):
            if not hasattr(eng, 'dreg'):
                eng.dreg = {}
            x = one_atom(args[0], 'derivative at a point that is not a symbol', eng)
            y = N.atom(T.fresh_name('pt'), x.shape)
            v = it.call(f, [Arr('mat', args[0].shape, N.of_atom(y), 'f', args[0].lib)] + list(args[1:]), kw)
            if kind == 'grad' and isinstance(v, Arr) and v.ndim != 0:
                raise PyRaise('TypeError', 'gradient of a non scalar function')
            return at_point(eng, jac(eng, v, y, args[0].shape[0]), y, x)
        return FnVal('jax.%s' % kind, call)
    return build


def value_and_grad(it, f, argnums=0, has_aux=False):
    g = derivative('grad')(it, f, argnums, has_aux)
    return FnVal('value_and_grad', lambda eng, a, k: (it.call(f, list(a), dict(k)), it.call(g, list(a), dict(k))))


def rows_of(it, xs):
    """pytree of stacked inputs -> sequence of slices"""
    if isinstance(xs, tuple):
        ss = [rows_of(it, x) for x in xs]
        acc = ss[0].map(lambda x: (x,))
        for s in ss[1:]:
            if not it.e.dim_eq(acc.length(), s.length()):
                if not it.e.branch(T.eq(acc.length(), s.length())):
                    raise PyRaise('ValueError', 'scan got values with different leading axis sizes')
            acc = A.zip_seq(it.e, lambda u, v: u + (v,), acc, s)
        return acc
    if isinstance(xs, Arr):
        return A.rows(it.e, xs)
    raise Unsupported('scan inputs')


def lax_scan(it, f, init, xs=None, length=None, reverse=False, unroll=1):
    from .contracts.scan_contract import ghost
    if reverse is not False or xs is None:
        raise Unsupported('option of lax.scan')
    g = ghost(it.e, 'jaxscan', 'scan')
    carry, ys = it.call(g, [f, init, PyList(rows_of(it, xs))])
    return carry, ys


def norm(it, x, ord=None, axis=None, keepdims=False):
    if ord not in (None, 2) or axis is not None or keepdims:
        raise Unsupported('option of norm')
    if not (isinstance(x, Arr) and x.rep == 'mat' and x.ndim == 1):
        raise Unsupported('norm')
    s = A.to_scalar_term(A.matmul(it.e, x, x))
    return lower(T.app('sqrt', (s,), T.REAL))


def outer(it, a, b):
    if not all(isinstance(x, Arr) and x.rep == 'mat' and x.ndim == 1 for x in (a, b)):
        raise Unsupported('outer')
    return Arr('mat', (a.shape[0], b.shape[0]), N.mul(a.data, N.transpose(b.data)), 'f', A.lib_of(a, b))


def install(eng):
    np = eng.shims['numpy']
    g = dict(np.g)
    la = dict(g['linalg'].g)
    la['norm'] = wrapb('jax.numpy.linalg.norm', norm)
    g['linalg'] = ModVal('jax.numpy.linalg', la)
    g['outer'] = wrapb('jax.numpy.outer', outer)
    jnp = ModVal('jax.numpy', g)
    lax = ModVal('jax.lax', {'scan': wrapb('jax.lax.scan', lax_scan)})
    jg = {'numpy': jnp, 'lax': lax, 'jacfwd': wrapb('jax.jacfwd', derivative('jacfwd')), 'jacrev': wrapb('jax.jacrev', derivative('jacfwd')),
          'grad': wrapb('jax.grad', derivative('grad')), 'hessian': wrapb('jax.hessian', lambda it, f: derivative('jacfwd')(it, derivative('grad')(it, f))),
          'value_and_grad': wrapb('jax.value_and_grad', value_and_grad), 'jit': Builtin('jit', lambda it, a, k: a[0])}
    jax = ModVal('jax', jg)
    eng.shims['jax'] = jax
    eng.shims['jax.numpy'] = jnp
    eng.shims['jax.lax'] = lax

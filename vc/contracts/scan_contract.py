"""Call-site contract of an associative scan.

requires: op is associative on the set of elements described by the type (shapes, symmetric components)
          inferred from the given elements, and that set is closed under op
ensures : the result is the left fold of every prefix / right fold of every suffix (ghost/scan.py)
The contract itself is discharged for my_assoc_scan by the units of property C01."""
import os
import ast
from .. import terms as T
from .. import ncalg as N
from ..values import *
from .. import values as V
from .. import loops
from ..interp import Interp
from .. import arrops as A
from .. import smt

GHOST = os.path.join(os.path.dirname(os.path.dirname(__file__)), 'ghost')


def ghost(e, fname, func):
    key = 'ghost.' + fname
    if key not in e.modules:
        path = os.path.join(GHOST, fname + '.py')
        with open(path) as f:
            tree = ast.parse(f.read(), path)
        fr = Frame(None, key)
        m = ModVal(key, fr)
        e.modules[key] = m
        Interp(e, m).exec_body(tree.body, fr)
    return e.modules[key].g.vars[func]


def sig(e, v):
    """type signature of an element component"""
    if isinstance(v, tuple):
        return tuple(sig(e, x) for x in v)
    if isinstance(v, Arr):
        sym = False
        if v.rep == 'mat' and v.ndim == 2 and e.dim_eq(v.shape[0], v.shape[1]):
            st = e._prove_zero(N.add(v.data, N.transpose(v.data), -1), [q for _, q in e.eqs], 6.0)
            sym = st[0] == 'proved'
        bound = v.shape[0] if v.ndim and v.dtype == 'i' and v.rep in ('fn', 'mat') and bounded(e, v, v.shape[0]) else None
        return ['arr', v.rep, v.shape, sym, v.dtype, v.lib, bound]
    if isinstance(v, (int, T.Term)) or type(v).__name__ == 'Fraction':
        return ['scalar']
    raise Unsupported('scan element component %s' % type(v).__name__)


def bounded(e, v, n):
    """every entry of the integer array v is a valid index < n"""
    vs = [T.fresh('bx', T.INT) for _ in v.shape]
    t = A.lift_fn(v).data(*vs)
    rng = [T.and_(T.le(0, x), T.lt(x, s)) for x, s in zip(vs, v.shape)]
    return e.entails_h(T.implies(T.and_(*rng), T.and_(T.le(0, t), T.lt(t, n))))


def join(a, b):
    if isinstance(a, tuple):
        if not isinstance(b, tuple) or len(a) != len(b):
            raise Unsupported('scan element structure')
        return tuple(join(x, y) for x, y in zip(a, b))
    if a[0] != b[0]:
        raise Unsupported('scan element structure')
    if a[0] == 'arr':
        rep = a[1] if a[1] == b[1] else ('fn' if 'fn' in (a[1], b[1]) else a[1])
        return ['arr', rep, a[2], a[3] and b[3], a[4], a[5], a[6] if a[6] is b[6] else None]
    return a


def opaque(e, s, nm):
    if isinstance(s, tuple):
        return tuple(opaque(e, x, '%s_%d' % (nm, k)) for k, x in enumerate(s))
    if s[0] == 'scalar':
        return T.var(nm, T.REAL)
    _, rep, shape, sym, dt, lib, bound = s
    if rep == 'mat':
        return mat_atom(nm + ('s' if sym else ''), shape, sym=sym, dtype=dt, lib=lib)
    srt = T.INT if dt == 'i' else T.REAL
    if bound is not None:
        def q(k, idx):
            if k == len(shape):
                t = T.app(nm, tuple(idx), srt)
                return T.and_(T.le(0, t), T.lt(t, bound))
            return T.binder('forall', shape[k], lambda i: q(k + 1, idx + [i]))
        e.facts.append(q(0, []))
    return Arr('fn', shape, lambda *k: T.app(nm, k, srt), dt, lib)


def conforms(e, v, s):
    if isinstance(s, tuple):
        return isinstance(v, tuple) and len(v) == len(s) and all(conforms(e, x, y) for x, y in zip(v, s))
    if s[0] == 'scalar':
        return True
    if not isinstance(v, Arr) or v.ndim != len(s[2]):
        return False
    if not all(e.dim_eq(a, b) for a, b in zip(v.shape, s[2])):
        return False
    if s[3]:
        st = e._prove_zero(N.add(v.data, N.transpose(v.data), -1), [], 10.0)
        if st[0] != 'proved':
            return False
    if s[6] is not None and not bounded(e, v, s[6]):
        return False
    return True


def weaken(e, v, s):
    """largest sub-signature of s satisfied by v; None when shapes differ"""
    if isinstance(s, tuple):
        if not (isinstance(v, tuple) and len(v) == len(s)):
            return None
        r = tuple(weaken(e, x, y) for x, y in zip(v, s))
        return None if any(x is None for x in r) else r
    if s[0] == 'scalar':
        return s
    if conforms(e, v, s):
        return s
    for q in ([3], [6], [3, 6]):
        w = list(s)
        for k in q:
            w[k] = False if k == 3 else None
        if conforms(e, v, w):
            return w
    return None


def meet(a, b):
    if isinstance(a, tuple):
        return tuple(meet(x, y) for x, y in zip(a, b))
    if a[0] == 'arr':
        return a[:3] + [a[3] and b[3]] + a[4:6] + [a[6] if a[6] is b[6] else None]
    return a


def call_scan(e, op, elems_seq, reverse, it):
    """op: callable value (args x, y in list order); elems_seq: Seq.  returns PyList of folds"""
    n = elems_seq.length()
    e.require(T.le(1, n), 'associative scan of a non-empty list', 'pre')
    # signature from every segment
    k = T.fresh('k', T.INT)
    sigs = []

    def probe():
        e.assume(T.le(0, k))
        e.assume(T.lt(k, n))
        return sig(e, elems_seq.get(k, e))
    e.mute += 1
    try:
        outs = e.explore(probe)
    finally:
        e.mute -= 1
    s = None
    for o in outs:
        if o.exc:
            raise o.exc
        s = o.result if s is None else join(s, o.result)
    # associativity + closure, with fresh opaque elements; symmetry claims that op does not preserve are dropped
    def closed():
        a, b = opaque(e, s, 'sa'), opaque(e, s, 'sb')
        return weaken(e, it.call(op, [a, b]), s)
    for _ in range(6):
        e.mute += 1
        sav, e.eqs = e.eqs, []
        try:
            outs = e.explore(closed)
        finally:
            e.mute -= 1
            e.eqs = sav
        s2 = s
        for o in outs:
            if o.exc:
                raise o.exc
            if o.result is None:
                raise Unsupported('scan operator changes the element type')
            s2 = meet(s2, o.result)
        if repr(s2) == repr(s):
            break
        s = s2

    def assoc():
        saved_eqs, e.eqs = e.eqs, []
        a, b, c = opaque(e, s, 'sa'), opaque(e, s, 'sb'), opaque(e, s, 'sc')
        ab = it.call(op, [a, b])
        bc = it.call(op, [b, c])
        ok = conforms(e, ab, s)
        e.obl('scan operator preserves the element type (shape, symmetry)', 'proved' if ok else 'unknown',
              '' if ok else repr(ab)[:300], 'pre', 'nc-algebra')
        l = it.call(op, [ab, c])
        r = it.call(op, [a, bc])
        check_tuple(e, l, r, 'scan operator is associative')
        e.eqs = saved_eqs
    for o in e.explore(assoc):
        if o.exc:
            raise o.exc
    g = ghost(e, 'scan', 'suffix' if reverse else 'prefix')
    return it.call(g, [op, PyList(elems_seq)])


def check_tuple(e, l, r, label):
    if isinstance(l, tuple) and isinstance(r, tuple) and len(l) == len(r):
        for q, (x, y) in enumerate(zip(l, r)):
            check_tuple(e, x, y, '%s [component %d]' % (label, q))
    else:
        e.check_eq(l, r, label, 'pre')


def my_assoc_scan_handler(it, closure, args, kw):
    args = list(args)
    op = args.pop(0) if args else kw['op']
    a = args.pop(0) if args else kw.get('a')
    rev = args.pop(0) if args else kw.get('reverse', False)
    if not isinstance(a, PyList):
        return NotImplemented
    if a.seq.concrete() is not None and len(a.seq.concrete()) == 1:
        pass
    if not isinstance(rev, bool):
        return NotImplemented
    return call_scan(it.e, op, a.seq, rev, it)


def install(e):
    e.contracts['parallel_control.my_assoc_scan:my_assoc_scan'] = my_assoc_scan_handler

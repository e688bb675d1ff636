"""Scalar term language of the verifier (sorts Int, Real, Bool).

Terms are hash-consed and canonical: Int/Real arithmetic is kept as a commutative
polynomial over atoms with rational coefficients, so equality of polynomial
expressions is syntactic.  Everything else goes to z3 (see `Z3Ctx`).
"""
from fractions import Fraction
import itertools

INT, REAL, BOOL = 'Int', 'Real', 'Bool'


class Term:
    __slots__ = ('op', 'args', 'sort', 'id', '_fv', '__weakref__')
    _tab = {}
    _ctr = itertools.count(1)

    def __repr__(self):
        return show(self)

    # identity hash/eq (hash-consed)
    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o

    def __ne__(self, o):
        return self is not o

    def __bool__(self):
        raise RuntimeError('truth value of a symbolic term used by the verifier itself')


def _mk(op, args, sort):
    key = (op, args, sort)
    t = Term._tab.get(key)
    if t is None:
        t = Term.__new__(Term)
        t.op = op
        t.args = args
        t.sort = sort
        t.id = next(Term._ctr)
        t._fv = None
        Term._tab[key] = t
    return t


_fresh = itertools.count(1)


def fresh_name(p):
    return '%s!%d' % (p, next(_fresh))


def var(name, sort):
    return _mk('var', (name,), sort)


def fresh(p, sort):
    return var(fresh_name(p), sort)


def const(v, sort=None):
    """Python number -> term"""
    if isinstance(v, Term):
        return v
    if isinstance(v, bool):
        return TRUE if v else FALSE
    if isinstance(v, int):
        return _mk('const', (Fraction(v),), sort or INT)
    if isinstance(v, Fraction):
        return _mk('const', (v,), sort or (INT if v.denominator == 1 else REAL))
    if isinstance(v, float):
        if v != v or v in (float('inf'), float('-inf')):
            raise ValueError('non finite constant')
        # decimal literal semantics: 0.1 means 1/10, machine rounding is out of scope (stated assumption)
        f = Fraction(repr(v))
        return _mk('const', (f,), REAL)
    raise TypeError(v)


TRUE = _mk('true', (), BOOL)
FALSE = _mk('false', (), BOOL)


def is_const(t):
    return t.op == 'const'


def cval(t):
    return t.args[0]


# ---------------------------------------------------------------- polynomials
# canonical sum:  op 'sum', args = ((coef, ((atom,exp),...)), ...) sorted; or const/atom itself

def to_poly(t):
    """-> dict { ((atom,exp),...) : Fraction }"""
    if t.op == 'const':
        return {(): t.args[0]} if t.args[0] != 0 else {}
    if t.op == 'poly':
        return dict((m, c) for (c, m) in t.args)
    return {((t, 1),): Fraction(1)}


def from_poly(p, sort):
    p = {m: c for m, c in p.items() if c != 0}
    if not p:
        return _mk('const', (Fraction(0),), sort)
    if len(p) == 1:
        (m, c), = p.items()
        if m == ():
            return _mk('const', (c,), sort)
        if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].sort == sort:
            return m[0][0]
    items = tuple(sorted(((c, m) for m, c in p.items()), key=lambda cm: (tuple((a.id, e) for a, e in cm[1]))))
    return _mk('poly', items, sort)


def _mmul(a, b):
    d = {}
    for x, e in a:
        d[x] = d.get(x, 0) + e
    for x, e in b:
        d[x] = d.get(x, 0) + e
    return tuple(sorted(((x, e) for x, e in d.items() if e != 0), key=lambda xe: xe[0].id))


def poly_add(p, q, s=1):
    r = dict(p)
    for m, c in q.items():
        r[m] = r.get(m, 0) + s * c
        if r[m] == 0:
            del r[m]
    return r


def poly_mul(p, q):
    r = {}
    for m, c in p.items():
        for n, d in q.items():
            k = _mmul(m, n)
            r[k] = r.get(k, 0) + c * d
            if r[k] == 0:
                del r[k]
    return r


def _ns(a, b):
    return INT if a.sort == INT and b.sort == INT else REAL


def L(x):
    return x if isinstance(x, Term) else const(x)


def to_num(t):
    """bool terms used as numbers"""
    if t.sort == BOOL:
        return ite(t, const(1), const(0))
    return t


def add(a, b):
    a, b = to_num(L(a)), to_num(L(b))
    return _bin_dist(lambda x, y: from_poly(poly_add(to_poly(x), to_poly(y)), _ns(x, y)), a, b)


def sub(a, b):
    a, b = to_num(L(a)), to_num(L(b))
    return from_poly(poly_add(to_poly(a), to_poly(b), -1), _ns(a, b))


def neg(a):
    return sub(const(0, to_num(L(a)).sort), a)


def mul(a, b):
    a, b = to_num(L(a)), to_num(L(b))
    return from_poly(poly_mul(to_poly(a), to_poly(b)), _ns(a, b))


def _bin_dist(f, a, b):
    return f(a, b)


def toreal(a):
    a = to_num(L(a))
    if a.sort == REAL:
        return a
    if a.op == 'const':
        return _mk('const', a.args, REAL)
    if a.op == 'poly':
        return _mk('poly', a.args, REAL)
    return _mk('poly', ((Fraction(1), ((a, 1),)),), REAL)


def inv(a):
    a = toreal(a)
    if is_const(a):
        return _mk('const', (1 / cval(a),), REAL)
    p = to_poly(a)
    if len(p) == 1:
        (m, c), = p.items()
        r = {(): Fraction(1) / c}
        for x, e in m:
            if x.op == 'recip':
                base = x.args[0]
                for _ in range(e):
                    r = poly_mul(r, to_poly(base))
            else:
                r = poly_mul(r, {((_mk('recip', (toreal(x),), REAL), e),): Fraction(1)})
        return from_poly(r, REAL)
    # pull out the content so that recip(2p) = recip(p)/2
    lead = sorted(p.items(), key=lambda mc: tuple((x.id, e) for x, e in mc[0]))[-1][1]
    q = from_poly({m: c / lead for m, c in p.items()}, REAL)
    return from_poly({((_mk('recip', (q,), REAL), 1),): 1 / lead}, REAL)


def _cancel(p):
    """cancel x * recip(x) inside monomials (x atom); valid where x != 0"""
    r = {}
    for m, c in p.items():
        d = dict(m)
        for x in list(d):
            if x.op == 'recip' and x in d:
                base = x.args[0]
                bp = to_poly(base)
                if len(bp) == 1:
                    (bm, bc), = bp.items()
                    if len(bm) == 1 and bm[0][1] == 1 and bc == 1:
                        bx = bm[0][0]
                        if bx in d:
                            k = min(d[x], d[bx])
                            for y in (x, bx):
                                d[y] -= k
                                if d[y] == 0:
                                    del d[y]
        mm = tuple(sorted(d.items(), key=lambda xe: xe[0].id))
        r[mm] = r.get(mm, 0) + c
    return {m: c for m, c in r.items() if c != 0}


def div(a, b):
    a, b = toreal(a), toreal(b)
    return from_poly(_cancel(poly_mul(to_poly(a), to_poly(inv(b)))), REAL)


def cancel(a):
    return from_poly(_cancel(to_poly(a)), a.sort)


def app(f, args, sort):
    return _mk('app', (f,) + tuple(L(a) for a in args), sort)


# ---------------------------------------------------------------- booleans / comparisons
def _cmp0(op, d):
    """op in le/lt/eq applied to d (op) 0"""
    if is_const(d):
        c = cval(d)
        return TRUE if {'le': c <= 0, 'lt': c < 0, 'eq': c == 0}[op] else FALSE
    p = to_poly(d)
    # normalise scale
    lead = sorted(p.items(), key=lambda mc: tuple((x.id, e) for x, e in mc[0]))[-1][1]
    if op == 'eq':
        d = from_poly({m: c / lead for m, c in p.items()}, d.sort)
    else:
        d = from_poly({m: c / abs(lead) for m, c in p.items()}, d.sort)
    if d.sort == INT and any(c.denominator != 1 for c in to_poly(d).values()):
        d = from_poly(p, d.sort)
    return _mk(op, (d,), BOOL)


def le(a, b):
    return _cmp0('le', sub(a, b))


def lt(a, b):
    d = sub(a, b)
    if d.sort == INT:
        return _cmp0('le', add(d, 1))
    return _cmp0('lt', d)


def ge(a, b):
    return le(b, a)


def gt(a, b):
    return lt(b, a)


def eq(a, b):
    a, b = L(a), L(b)
    if a.sort == BOOL and b.sort == BOOL:
        if a is b:
            return TRUE
        if a is TRUE:
            return b
        if b is TRUE:
            return a
        if a is FALSE:
            return not_(b)
        if b is FALSE:
            return not_(a)
        return _mk('iff', (a, b), BOOL)
    return _cmp0('eq', sub(a, b))


def ne(a, b):
    return not_(eq(a, b))


def not_(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == 'not':
        return a.args[0]
    return _mk('not', (a,), BOOL)


def and_(*xs):
    out = []
    for x in xs:
        if x is TRUE:
            continue
        if x is FALSE:
            return FALSE
        if x.op == 'and':
            for y in x.args:
                if y not in out:
                    out.append(y)
        elif x not in out:
            out.append(x)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return _mk('and', tuple(sorted(out, key=lambda t: t.id)), BOOL)


def or_(*xs):
    return not_(and_(*[not_(x) for x in xs]))


def implies(a, b):
    return or_(not_(a), b)


def ite(c, a, b):
    a, b = L(a), L(b)
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a.sort != b.sort and a.sort != BOOL and b.sort != BOOL:
        a, b = toreal(a), toreal(b)
        if a is b:
            return a
    if a.sort == BOOL:
        return or_(and_(c, a), and_(not_(c), b))
    return _mk('ite', (c, a, b), a.sort)


# ---------------------------------------------------------------- binders
# binder terms:  op in {'min','max','argmin','argmax','bsum','forall','exists'}
#   args = (bound var term, n (Int term; range 0<=v<n), body)
_bnd = {}


def bound_var(depth, sort=INT):
    return var('$%d' % depth, sort)


def _depth(t):
    """max index of $k bound variables inside t, plus one"""
    d = 0
    for v in free_vars(t, include_bound=True):
        nm = v.args[0]
        if nm.startswith('$'):
            d = max(d, int(nm[1:]) + 1)
    return d


def first_condition(t, seen=None):
    """an innermost condition of a conditional subterm (not under a binder)"""
    seen = set() if seen is None else seen
    if t in seen or t.op in BINDERS:
        return None
    seen.add(t)
    if t.op == 'ite':
        return first_condition(t.args[0], seen) or _atom(t.args[0])
    for c in children(t):
        r = first_condition(c, seen)
        if r is not None:
            return r
    return None


def _atom(c):
    while c.op in ('not', 'and', 'iff'):
        c = c.args[0]
    return c


def subst_terms(t, m, cache=None):
    cache = {} if cache is None else cache
    r = cache.get(t)
    if r is None:
        if t in m:
            r = m[t]
        elif t.op in ('const', 'var', 'true', 'false') or t.op in BINDERS:
            r = t
        else:
            r = rebuild(t, lambda a: subst_terms(a, m, cache))
        cache[t] = r
    return r


def assume_true(t, facts, cache=None):
    """simplify t where the given atomic comparisons are known to hold"""
    cache = {} if cache is None else cache
    r = cache.get(t)
    if r is not None:
        return r
    if t in facts:
        r = TRUE
    elif t.op in ('const', 'var', 'true', 'false', 'app') and t.op != 'app':
        r = t
    elif t.op in BINDERS:
        v, n, b = t.args
        nb = assume_true(b, facts, cache)
        r = t if nb is b else _mk(t.op, (v, n, nb), t.sort)
    else:
        ch = children(t)
        if all(assume_true(c, facts, cache) is c for c in ch):
            r = t
        else:
            r = rebuild(t, lambda a: assume_true(a, facts, cache))
    cache[t] = r
    return r


def binder(op, n, bodyfn):
    """bodyfn: Int term -> term"""
    n = L(n)
    tmp = fresh('bv', INT)
    body = bodyfn(tmp)
    body = assume_true(body, {le(0, tmp), lt(tmp, n)})
    d = max(_depth_all(body), 0)
    v = bound_var(d)
    body = subst(body, {tmp: v})
    sort = {'min': REAL, 'max': REAL, 'argmin': INT, 'argmax': INT, 'bsum': REAL,
            'forall': BOOL, 'exists': BOOL}[op]
    if op in ('min', 'max') and body.sort == INT:
        body = toreal(body)
    if op in ('forall', 'exists') and body.op in ('true', 'false'):
        if op == 'forall' and body is TRUE:
            return TRUE
        if op == 'exists' and body is FALSE:
            return FALSE
    if op == 'bsum':
        # linearity is handled by splitting constants out only
        pass
    return _mk(op, (v, n, body), sort)


_depth_cache = {}


def _depth_all(t):
    """1 + largest $k occurring anywhere (bound or free) in t"""
    r = _depth_cache.get(t)
    if r is not None:
        return r
    d = 0
    if t.op == 'var':
        nm = t.args[0]
        d = int(nm[1:]) + 1 if nm.startswith('$') else 0
    else:
        for a in children(t):
            d = max(d, _depth_all(a))
    _depth_cache[t] = d
    return d


BINDERS = ('min', 'max', 'argmin', 'argmax', 'bsum', 'forall', 'exists')


def children(t):
    if t.op in ('const', 'var', 'true', 'false'):
        return ()
    if t.op == 'poly':
        return tuple(a for (_, m) in t.args for a, _ in m)
    if t.op == 'app':
        return t.args[1:]
    return t.args


def free_vars(t, include_bound=False):
    if t._fv is None:
        s = set()
        if t.op == 'var':
            s.add(t)
        elif t.op in BINDERS:
            s |= free_vars(t.args[1])
            s |= (free_vars(t.args[2]) - {t.args[0]})
        else:
            for a in children(t):
                s |= free_vars(a)
        t._fv = frozenset(s)
    return t._fv


_ment = {}


def mentions(t, pred):
    """does an uninterpreted function or variable with pred(name) occur in t"""
    r = _ment.get((t, pred))
    if r is None:
        if t.op == 'app' and pred(t.args[0]):
            r = True
        elif t.op == 'var':
            r = bool(pred(t.args[0]))
        else:
            r = any(mentions(c, pred) for c in children(t))
        _ment[(t, pred)] = r
    return r


def rebuild(t, f):
    """rebuild t applying f to its children"""
    op = t.op
    if op in ('const', 'var', 'true', 'false'):
        return t
    if op == 'poly':
        r = {}
        for c, m in t.args:
            q = {(): c}
            for a, e in m:
                ap = to_poly(f(a))
                for _ in range(e):
                    q = poly_mul(q, ap)
            r = poly_add(r, q)
        s = t.sort
        out = from_poly(_cancel(r) if any(a.op == 'recip' for mm in r for a, _ in mm) else r, s)
        return out
    if op == 'app':
        return _mk('app', (t.args[0],) + tuple(f(a) for a in t.args[1:]), t.sort)
    if op == 'recip':
        return inv(f(t.args[0]))
    if op in ('le', 'lt', 'eq'):
        return _cmp0(op, f(t.args[0]))
    if op == 'not':
        return not_(f(t.args[0]))
    if op == 'and':
        return and_(*[f(a) for a in t.args])
    if op == 'iff':
        return eq(f(t.args[0]), f(t.args[1]))
    if op == 'ite':
        return ite(f(t.args[0]), f(t.args[1]), f(t.args[2]))
    if op in ('idiv', 'imod'):
        return {'idiv': idiv, 'imod': imod}[op](f(t.args[0]), f(t.args[1]))
    if op in BINDERS:
        raise RuntimeError('binder')
    raise RuntimeError('rebuild ' + op)


def subst(t, m, cache=None):
    """capture-avoiding simultaneous substitution of variables (or arbitrary subterms) by terms"""
    if not m:
        return t
    if cache is None:
        cache = {}
    if t in m:
        return m[t]
    r = cache.get(t)
    if r is not None:
        return r
    if t.op in ('const', 'var', 'true', 'false'):
        r = t
    elif t.op in BINDERS:
        v, n, body = t.args
        m2 = {k: x for k, x in m.items() if k is not v}
        if not m2 and not (free_vars(t) & set(m)):
            r = t
        else:
            r = binder(t.op, subst(n, m, cache), lambda w: subst(body, dict(m2, **{}) | {v: w}))
    else:
        r = rebuild(t, lambda a: subst(a, m, cache))
    cache[t] = r
    return r


def _split_multiple(a, b):
    """a = b*x + y for a positive constant b: x collects the monomials whose integer coefficient is a multiple of b and the quotient of the
    constant; y keeps the rest (floor semantics, valid for any sign)"""
    if a.sort != INT or not is_const(b) or cval(b) <= 1:
        return None
    b = int(cval(b))
    p = to_poly(a)
    if any(c.denominator != 1 or any(x.sort != INT or k < 0 for x, k in m) for m, c in p.items()):
        return None
    x, y = {}, {}
    for m, c in p.items():
        q, r = (c // b, c % b) if m == () else (c / b, 0) if c % b == 0 else (0, c)
        if q:
            x[m] = Fraction(q)
        if r:
            y[m] = Fraction(r)
    return from_poly(x, INT), from_poly(y, INT)


def idiv(a, b):
    a, b = L(a), L(b)
    if is_const(a) and is_const(b) and cval(b) != 0:
        return const(int(cval(a)) // int(cval(b)))
    if is_const(b) and cval(b) == 1:
        return a
    s = _split_multiple(a, b)
    if s is not None:
        x, y = s
        if is_const(y):
            return x
        return add(x, _mk('idiv', (y, b), INT))
    return _mk('idiv', (a, b), INT)


def imod(a, b):
    a, b = L(a), L(b)
    if is_const(a) and is_const(b) and cval(b) != 0:
        return const(int(cval(a)) % int(cval(b)))
    if is_const(b) and cval(b) == 1:
        return const(0)
    s = _split_multiple(a, b)
    if s is not None:
        if is_const(s[1]):
            return s[1]
        a = s[1]
    return _mk('imod', (a, b), INT)


def min2(a, b):
    return ite(le(a, b), a, b)


def max2(a, b):
    return ite(le(a, b), b, a)


def show(t):
    op = t.op
    if op == 'const':
        return str(t.args[0])
    if op == 'var':
        return t.args[0]
    if op == 'poly':
        parts = []
        for c, m in t.args:
            ms = '*'.join(show(a) if e == 1 else '%s^%d' % (show(a), e) for a, e in m)
            if not ms:
                parts.append(str(c))
            elif c == 1:
                parts.append(ms)
            elif c == -1:
                parts.append('-' + ms)
            else:
                parts.append('%s*%s' % (c, ms))
        return '(' + ' + '.join(parts) + ')'
    if op == 'app':
        return '%s(%s)' % (t.args[0], ','.join(show(a) for a in t.args[1:]))
    if op in ('le', 'lt', 'eq'):
        return '(%s %s 0)' % (show(t.args[0]), {'le': '<=', 'lt': '<', 'eq': '=='}[op])
    if op in BINDERS:
        return '%s[%s<%s](%s)' % (op, show(t.args[0]), show(t.args[1]), show(t.args[2]))
    return '%s(%s)' % (op, ','.join(show(a) for a in t.args))

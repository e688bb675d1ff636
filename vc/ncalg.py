"""Non-commutative algebra back end.

Matrices/vectors are elements of a free *-algebra over named atoms (rational coefficients, plus
central scalar factors), dimension agnostic.  Inverses are atoms with defining equations; a goal
`p = 0` is decided by (a) rewriting with the defining equations completed by a bounded
Buchberger/Knuth-Bendix procedure (proof), or (b) evaluating it in random real matrices that satisfy
all defining equations (refutation).  A discharged goal is always cross-checked by (b) as well.
"""
import itertools
import time
from fractions import Fraction
from . import terms as T

STATS = {'goals': 0, 'time': 0.0, 'rules': 0, 'evals': 0}


class Atom:
    """name, idx: tuple of Int Terms (or hashables), tr: transposed?, sym: symmetric atom, shape: (r,c) of Int Terms
    kind: 'base' | 'inv' (inverse of poly `defn`) | 'chol' ..."""
    __slots__ = ('name', 'idx', 'tr', 'sym', 'shape', 'kind', 'defn', 'id', '_T')
    _tab = {}
    _ctr = itertools.count(1)

    def __repr__(self):
        s = self.name
        if self.idx:
            s += '[%s]' % ','.join(str(i) for i in self.idx)
        return s + ("'" if self.tr else '')

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o


def atom(name, shape, idx=(), sym=False, kind='base', defn=None, tr=False):
    key = (name, tuple(idx), tr, kind)
    a = Atom._tab.get(key)
    if a is None:
        a = Atom()
        a.name, a.idx, a.tr, a.sym, a.kind, a.defn = name, tuple(idx), tr, sym, kind, defn
        a.shape = shape
        a.id = next(Atom._ctr)
        a._T = None
        Atom._tab[key] = a
    return a


def atom_T(a):
    if a.sym:
        return a
    if a._T is None:
        b = atom(a.name, (a.shape[1], a.shape[0]), a.idx, False, a.kind, a.defn, not a.tr)
        a._T = b
        b._T = a
    return a._T


# monomial: (central, word)   central: tuple of (Term, exp) as in terms polys ; word: tuple of Atoms
ONE = ((), ())


class Poly:
    """dict monomial -> Fraction ; shape (r,c) tuple of Int Terms"""
    __slots__ = ('d', 'shape', '_key')

    def __init__(self, d, shape):
        self.d = {m: c for m, c in d.items() if c != 0}
        self.shape = shape
        self._key = None

    def key(self):
        if self._key is None:
            self._key = frozenset(self.d.items())
        return self._key

    def __repr__(self):
        return show(self)

    def is_zero(self):
        return not self.d


def _scal(m):
    """canonicalise a 1x1 monomial: smaller of word and its transpose"""
    w = m[1]
    wt = tuple(atom_T(a) for a in reversed(w))
    if tuple(a.id for a in wt) < tuple(a.id for a in w):
        return (m[0], wt)
    return m


def is_scalar_shape(sh):
    return sh[0] is T.const(1) and sh[1] is T.const(1)


def norm(d, shape):
    if is_scalar_shape(shape):
        r = {}
        for m, c in d.items():
            m2 = _scal(m)
            r[m2] = r.get(m2, 0) + c
        d = r
    return Poly(d, shape)


def zero(shape):
    return Poly({}, shape)


def ident(n):
    return Poly({ONE: Fraction(1)}, (n, n))


def of_atom(a):
    return Poly({((), (a,)): Fraction(1)}, a.shape)


def add(p, q, s=1):
    r = dict(p.d)
    for m, c in q.d.items():
        r[m] = r.get(m, 0) + s * c
    return Poly(r, p.shape)


def scale_term(p, t):
    """multiply by a scalar Term"""
    tp = T.to_poly(T.toreal(t))
    r = {}
    for (cen, w), c in p.d.items():
        for m, d in tp.items():
            q = T._cancel({T._mmul(cen, m): Fraction(1)})
            (mm, one), = q.items()
            k = (mm, w)
            r[k] = r.get(k, 0) + c * d
    return Poly(r, p.shape)


def mul(p, q):
    r = {}
    sh = (p.shape[0], q.shape[1])
    for (c1, w1), a in p.d.items():
        for (c2, w2), b in q.d.items():
            cen = c1 if not c2 else (c2 if not c1 else T._mmul(c1, c2))
            if c1 and c2:
                (cen, _), = T._cancel({cen: Fraction(1)}).items()
            k = (cen, w1 + w2)
            r[k] = r.get(k, 0) + a * b
    return norm(r, sh)


def transpose(p):
    r = {}
    for (c, w), a in p.d.items():
        k = (c, tuple(atom_T(x) for x in reversed(w)))
        r[k] = r.get(k, 0) + a
    return norm(r, (p.shape[1], p.shape[0]))


def show(p):
    if not p.d:
        return '0'
    out = []
    for (cen, w), c in sorted(p.d.items(), key=lambda kv: (len(kv[0][1]), str(kv[0][1]))):
        s = ' '.join(str(a) for a in w) or '1'
        if cen:
            s = '*'.join(str(a) if e == 1 else '%s^%d' % (a, e) for a, e in cen) + '*' + s
        if c == 1:
            out.append(s)
        elif c == -1:
            out.append('-' + s)
        else:
            out.append('%s*%s' % (c, s))
    return ' + '.join(out)


def subst_atoms(p, f):
    """replace atoms by polys: f(atom)-> Poly or None; central Terms unchanged"""
    res = zero(p.shape)
    for (cen, w), c in p.d.items():
        cur = None
        for a in w:
            q = f(a)
            if q is None:
                q = of_atom(a)
            cur = q if cur is None else mul_raw(cur, q)
        if cur is None:
            cur = Poly({ONE: Fraction(1)}, p.shape)
        r = {}
        for (c2, w2), b in cur.d.items():
            k = (T._mmul(cen, c2) if (cen or c2) else (), w2)
            r[k] = r.get(k, 0) + b * c
        res = add(res, Poly(r, p.shape))
    return norm(res.d, p.shape)


def mul_raw(p, q):
    r = {}
    for (c1, w1), a in p.d.items():
        for (c2, w2), b in q.d.items():
            k = (T._mmul(c1, c2) if (c1 or c2) else (), w1 + w2)
            r[k] = r.get(k, 0) + a * b
    return Poly(r, (p.shape[0], q.shape[1]))


# ------------------------------------------------------------------ rewriting
class Timeout(Exception):
    pass


def mono_key(w):
    return (len(w), tuple(a.id for a in w))


class GB:
    """Non-commutative completion over words; central parts ride along as coefficients
    (polynomials whose leading coefficient is not a plain number are not used as rules)."""

    def __init__(self, deadline, maxdeg=14):
        self.rules = []        # (lead word, tail dict{(cen,word):coef})
        self.index = {}        # first atom -> list of rules
        self.deadline = deadline
        self.maxdeg = maxdeg

    def lead(self, d):
        return max((w for (_, w) in d), key=mono_key)

    def tick(self):
        if time.time() > self.deadline:
            raise Timeout()

    def reduce(self, d):
        """full normal form"""
        todo = dict(d)
        out = {}
        n = 0
        while todo:
            n += 1
            if n % 64 == 0:
                self.tick()
            # take largest
            k = max(todo, key=lambda k: mono_key(k[1]))
            c = todo.pop(k)
            if c == 0:
                continue
            hit = self.find(k[1])
            if hit is None:
                out[k] = out.get(k, 0) + c
                if out[k] == 0:
                    del out[k]
                continue
            i, (lw, tail) = hit
            pre, post = k[1][:i], k[1][i + len(lw):]
            for (cen, w), b in tail.items():
                kk = (T._mmul(k[0], cen) if (cen or k[0]) else (), pre + w + post)
                v = todo.get(kk, 0) + c * b
                if v == 0:
                    todo.pop(kk, None)
                else:
                    todo[kk] = v
        return out

    def find(self, w):
        idx = self.index
        n = len(w)
        for i in range(n):
            for r in idx.get(w[i], ()):
                lw = r[0]
                if n - i >= len(lw) and w[i:i + len(lw)] == lw:
                    return i, r
        return None

    def add(self, d):
        """add polynomial d = 0; returns new rule or None"""
        d = self.reduce(d)
        if not d:
            return None
        lw = self.lead(d)
        ks = [k for k in d if k[1] == lw]
        if len(ks) != 1 or ks[0][0] != () or lw == ():
            return None
        lc = d[ks[0]]
        tail = {k: -c / lc for k, c in d.items() if k != ks[0]}
        rule = (lw, tail)
        # drop rules whose lead contains the new lead
        red = []
        for r in list(self.rules):
            if len(r[0]) >= len(lw) and any(r[0][i:i + len(lw)] == lw for i in range(len(r[0]) - len(lw) + 1)):
                self.rules.remove(r)
                self.index[r[0][0]].remove(r)
                red.append(r)
        self.rules.append(rule)
        self.index.setdefault(lw[0], []).append(rule)
        return rule, red

    def complete(self, polys, goals, maxrules=400):
        """complete; stop as soon as all goals reduce to zero. goals: list of dicts. returns list of bool"""
        import heapq
        queue = []
        cnt = itertools.count()

        def push(d):
            if d:
                heapq.heappush(queue, (max(len(w) for (_, w) in d), next(cnt), d))
        for p in polys:
            push(p)
        goals = [dict(g) for g in goals]

        def check():
            ok = True
            for i, g in enumerate(goals):
                if g:
                    goals[i] = self.reduce(g)
                    if goals[i]:
                        ok = False
            return ok
        steps = 0
        while queue:
            self.tick()
            deg, _, d = heapq.heappop(queue)
            if deg > self.maxdeg:
                break
            r = self.add(d)
            if r is None:
                continue
            rule, red = r
            STATS['rules'] += 1
            for (lw, tail) in red:
                dd = {k: -c for k, c in tail.items()}
                dd[((), lw)] = dd.get(((), lw), 0) + 1
                push(dd)
            for other in list(self.rules):
                for d2 in self.overlaps(rule, other):
                    push(d2)
                if other is not rule:
                    for d2 in self.overlaps(other, rule):
                        push(d2)
            steps += 1
            if steps % 3 == 0 or not queue:
                if check():
                    return goals
            if len(self.rules) > maxrules:
                break
        check()
        return goals

    def overlaps(self, r1, r2):
        """suffix of r1 lead = prefix of r2 lead"""
        w1, t1 = r1
        w2, t2 = r2
        for k in range(1, min(len(w1), len(w2))):
            if w1[len(w1) - k:] == w2[:k]:
                if len(w1) + len(w2) - k > self.maxdeg + 2:
                    continue
                pre = w1[:len(w1) - k]
                post = w2[k:]
                d = {}
                for (c, w), a in t1.items():
                    kk = (c, w + post)
                    d[kk] = d.get(kk, 0) + a
                for (c, w), a in t2.items():
                    kk = (c, pre + w)
                    d[kk] = d.get(kk, 0) - a
                d = {k2: v for k2, v in d.items() if v != 0}
                if d:
                    yield self.reduce(d)


def inv_atoms_closure(polys):
    """all inverse atoms occurring (transitively through definitions)"""
    seen = []
    stack = [a for p in polys for (_, w) in p.d for a in w]
    done = set()
    while stack:
        a = stack.pop()
        if a in done:
            continue
        done.add(a)
        if a.kind == 'inv':
            seen.append(a)
            stack.extend(x for (_, w) in a.defn.d for x in w)
    return seen, done


def inverse(p, sym=None):
    """atom for the inverse of square poly p"""
    # scalar multiples / identity
    if len(p.d) == 1:
        (m, c), = p.d.items()
        if m[1] == ():
            if m[0] == ():
                return Poly({ONE: 1 / c}, p.shape)
            s = T.inv(T.from_poly({m[0]: c}, T.REAL))
            return scale_term(ident(p.shape[0]), s)
        if m[0] == () and len(m[1]) == 1 and m[1][0].kind == 'inv':
            a = m[1][0]
            q = a.defn if not a.tr else transpose(a.defn)
            return Poly({k: v / c for k, v in q.d.items()}, p.shape)
    # normalise sign/scale by leading coefficient
    lead = max(p.d, key=lambda k: (mono_key(k[1]), str(k[0])))
    lc = p.d[lead]
    pn = Poly({m: c / lc for m, c in p.d.items()}, p.shape)
    pt = transpose(pn)
    symm = pn.key() == pt.key()
    trf = False
    base = pn
    if not symm:
        # canonical orientation
        ka = sorted((tuple(a.id for a in w), str(c), v) for (c, w), v in pn.d.items())
        kb = sorted((tuple(a.id for a in w), str(c), v) for (c, w), v in pt.d.items())
        if kb < ka:
            # same leading coefficient normalisation for the transposed one
            base = pt
            trf = True
            lead2 = max(base.d, key=lambda k: (mono_key(k[1]), str(k[0])))
            l2 = base.d[lead2]
            base = Poly({m: c / l2 for m, c in base.d.items()}, base.shape)
            lc = lc * l2
    name = 'inv{' + show(base) + '}'
    a = atom(name, base.shape, (), symm, 'inv', base)
    if trf:
        a = atom_T(a)
    return Poly({((), (a,)): 1 / lc}, p.shape)


def inv_equations(invs):
    eqs = []
    seen = set()
    for a in invs:
        for b in ({a} if a.sym else {a, atom_T(a)}):
            if b in seen:
                continue
            seen.add(b)
            P = b.defn if not b.tr else transpose(b.defn)
            n = b.shape[0]
            one = {ONE: Fraction(1)}
            e1 = add(mul_raw(P, of_atom(b)), Poly(one, b.shape), -1)
            e2 = add(mul_raw(of_atom(b), P), Poly(one, b.shape), -1)
            eqs += [e1.d, e2.d]
    return eqs


def prove_zero(goals, extra=(), timeout=20.0, maxdeg=None):
    """goals: list of Poly to be shown = 0.  extra: Polys that are hypotheses (=0).
    returns list of residual dicts (empty dict = proved)"""
    t0 = time.time()
    STATS['goals'] += len(goals)
    if all(g.is_zero() for g in goals):
        return [{} for _ in goals]
    extra = list(extra) + [transpose(e) for e in extra]
    invs, _ = inv_atoms_closure(list(goals) + list(extra))
    eqs = inv_equations(invs) + [e.d for e in extra if e.d]
    gd = [g.d for g in goals]
    res = gd
    degs = [maxdeg] if maxdeg else [8, 11, 16]
    for md in degs:
        left = timeout - (time.time() - t0)
        if left <= 0:
            break
        gb = GB(time.time() + left / (1 if md == degs[-1] else 2), maxdeg=md)
        try:
            res = gb.complete(eqs, gd)
            res = [_scalar_clean(r, g) for r, g in zip(res, goals)]
            if not any(res):
                break
        except Timeout:
            pass
    STATS['time'] += time.time() - t0
    return res


def _scalar_clean(r, g):
    if is_scalar_shape(g.shape) and r:
        return norm(r, g.shape).d
    return r


# ------------------------------------------------------------------ numeric evaluation (refuter)
class Model:
    """random real matrices for base atoms; inverses computed; dims: Int term -> int via assignment"""

    def __init__(self, seed, dimval, symval=None, psd=None):
        import numpy as np
        self.rng = np.random.default_rng(seed)
        self.np = np
        self.dimval = dimval
        self.vals = {}
        self.symval = symval or {}
        self.psd = psd or (lambda a: False)
        self.tv = {}

    def val(self, a):
        np = self.np
        if a.tr and not a.sym:
            return self.val(atom_T(a)).T
        v = self.vals.get(a)
        if v is None:
            r, c = self.dimval(a.shape[0]), self.dimval(a.shape[1])
            if a.kind == 'inv':
                v = np.linalg.inv(self.ev(a.defn))
            else:
                v = self.rng.standard_normal((r, c))
                if a.sym:
                    v = v @ v.T / max(r, 1) + 0.5 * np.eye(r) if self.psd(a) else v + v.T
            self.vals[a] = v
        return v

    def term(self, t):
        """central scalar"""
        if t.op == 'recip':
            return 1.0 / self.tpoly(t.args[0])
        v = self.tv.get(t)
        if v is None:
            if t.sort == T.INT:
                try:
                    v = float(self.dimval(t))
                except Exception:
                    v = float(self.rng.integers(1, 5))
            else:
                v = float(self.rng.uniform(0.5, 1.5))
            self.tv[t] = v
        return v

    def tpoly(self, t):
        s = 0.0
        for m, c in T.to_poly(t).items():
            p = float(c)
            for a, e in m:
                p *= self.term(a) ** e
            s += p
        return s

    def ev(self, p):
        np = self.np
        r, c = self.dimval(p.shape[0]), self.dimval(p.shape[1])
        out = np.zeros((r, c))
        for (cen, w), k in p.d.items():
            f = float(k)
            for a, e in cen:
                f *= self.term(a) ** e
            cur = None
            for a in w:
                cur = self.val(a) if cur is None else cur @ self.val(a)
            if cur is None:
                cur = np.eye(r, c)
            out = out + f * cur
        STATS['evals'] += 1
        return out

"""Concrete index assignments for numeric refutation: a residual is only called nonzero at integer values of all dimensions and indices
that satisfy the path condition, with matrices whose indices evaluate to the same numbers taken equal."""
import random
from . import terms as T
from . import ncalg as N

OPEN = object()


class NotConcrete(Exception):
    pass


def value(t, asg):
    """exact value of an Int/Bool/Real term under the assignment; NotConcrete when it depends on anything else"""
    op = t.op
    if op == 'const':
        c = t.args[0]
        return int(c) if c.denominator == 1 else c
    if op == 'true':
        return True
    if op == 'false':
        return False
    if op == 'var':
        if t not in asg:
            raise NotConcrete()
        return asg[t]
    if op == 'poly':
        s = 0
        for c, m in t.args:
            p = c
            for a, e in m:
                p = p * value(a, asg) ** e
            s += p
        return int(s) if getattr(s, 'denominator', 0) == 1 else s
    if op in ('le', 'lt', 'eq'):
        v = value(t.args[0], asg)
        return v <= 0 if op == 'le' else v < 0 if op == 'lt' else v == 0
    if op == 'not':
        return not value(t.args[0], asg)
    if op == 'and':
        opn = False
        for a in t.args:
            try:
                if not value(a, asg):
                    return False
            except NotConcrete:
                opn = True
        if opn:
            raise NotConcrete()
        return True
    if op == 'iff':
        return value(t.args[0], asg) == value(t.args[1], asg)
    if op == 'ite':
        return value(t.args[1] if value(t.args[0], asg) else t.args[2], asg)
    if op in ('idiv', 'imod'):
        a, b = value(t.args[0], asg), value(t.args[1], asg)
        if b == 0:
            raise NotConcrete()
        return a // b if op == 'idiv' else a % b
    raise NotConcrete()


def int_vars(ts):
    out = set()
    for t in ts:
        out |= {v for v in T.free_vars(t) if v.sort == T.INT}
    return out


def holds(hyps, asg):
    for h in hyps:
        try:
            if not value(h, asg):
                return False
        except NotConcrete:
            pass
    return True


_asg = {}


def assignment(hyps, extra, seed):
    vs = frozenset(int_vars(extra))
    k = (frozenset(hyps), vs, seed)
    if k not in _asg:
        _asg[k] = find(hyps, vs, seed)
    return _asg[k]


def find(hyps, extra, seed):
    """integer values for every variable, satisfying the integer part of the hypotheses; None when none was found"""
    rnd = random.Random(seed)
    hyps = [h for h in hyps if h.sort == T.BOOL]
    # only the hypotheses connected to the relevant variables matter, but all are cheap to evaluate
    vs = sorted(int_vars(hyps) | int_vars(extra), key=lambda v: v.id)
    for k in range(300):
        hi = 3 + k // 60
        asg = {v: rnd.randint(0, hi) if rnd.random() < .5 else rnd.randint(1, hi) for v in vs}
        if holds(hyps, asg):
            return asg
    import z3
    from . import smt
    c = smt.Ctx()
    s = z3.Solver()
    s.set('timeout', 1000)
    for h in hyps:
        fv = T.free_vars(h)
        if all(v.sort == T.INT for v in fv) and not T.mentions(h, lambda n: False):
            try:
                value(h, {v: 1 for v in fv})
            except NotConcrete:
                continue
            except ZeroDivisionError:
                pass
            s.add(c.tr(h))
    if s.check() != z3.sat:
        return None
    order = list(vs)
    rnd.shuffle(order)
    for v in order:
        s.push()
        s.add(c.tr(v) == rnd.randint(1, 6))
        if s.check() != z3.sat:
            s.pop()
            s.push()
            s.add(c.tr(v) >= 1, c.tr(v) <= 9)
            if s.check() != z3.sat:
                s.pop()
    if s.check() != z3.sat:
        return None
    m = s.model()
    asg = {v: m.eval(c.tr(v), model_completion=True).as_long() for v in vs}
    return asg if holds(hyps, asg) else None


class CModel(N.Model):
    def __init__(self, seed, asg):
        self.asg = asg
        N.Model.__init__(self, seed, self.dim, psd=lambda a: True)
        self.cv = {}
        self.zeros = set()

    def dim(self, t):
        t = T.L(t)
        v = value(t, self.asg)
        if v < 1:
            raise NotConcrete()
        return int(v)

    def key(self, t):
        """index or argument: its number when it has one, else its term"""
        if isinstance(t, T.Term):
            try:
                return ('v', value(t, self.asg))
            except NotConcrete:
                if t.sort == T.REAL:
                    return ('r', round(self.num(t), 9))
                return t
        return t

    def num(self, t):
        op = t.op
        try:
            return float(value(t, self.asg))
        except NotConcrete:
            pass
        if op == 'poly':
            s = 0.0
            for c, m in t.args:
                p = float(c)
                for a, e in m:
                    p *= self.num(a) ** e
                s += p
            return s
        if op == 'recip':
            return 1.0 / self.num(t.args[0])
        if op == 'ite':
            try:
                return self.num(t.args[1] if value(t.args[0], self.asg) else t.args[2])
            except NotConcrete:
                pass
        k = (op, t.args[0]) + tuple(self.key(a) for a in t.args[1:]) if op == 'app' else t
        v = self.cv.get(k)
        if v is None:
            v = float(self.rng.integers(1, 5)) if t.sort == T.INT else float(self.rng.uniform(0.5, 1.5))
            self.cv[k] = v
        return v

    def term(self, t):
        return self.num(t)

    def val(self, a):
        if a.tr and not a.sym:
            return self.val(N.atom_T(a)).T
        if a.kind == 'inv':
            v = self.vals.get(a)
            if v is None:
                v = self.vals[a] = self.np.linalg.inv(self.ev(a.defn))
            return v
        r, c = self.dim(a.shape[0]), self.dim(a.shape[1])
        k = (a.name, a.kind, tuple(self.key(i) for i in a.idx), r, c)
        v = self.vals.get(k)
        if k in self.zeros:
            return self.np.zeros((r, c))
        if v is None:
            v = self.rng.standard_normal((r, c))
            if a.sym:
                v = v @ v.T / max(r, 1) + 0.5 * self.np.eye(r)
            self.vals[k] = v
        return v


def atoms_terms(p, out, seen):
    for (cen, w), _ in p.d.items():
        out += [a for a, _ in cen]
        for a in w:
            if a in seen:
                continue
            seen.add(a)
            out += [i for i in a.idx if isinstance(i, T.Term)] + [T.L(x) for x in a.shape]
            if a.defn is not None and hasattr(a.defn, 'd'):
                atoms_terms(a.defn, out, seen)
    out += [T.L(x) for x in p.shape]
    return out


def nonzero(q, hyps, zeros=()):
    """is the polynomial nonzero at generic matrices for concrete index values on this path (three times out of three)?"""
    import numpy as np
    terms = atoms_terms(q, [], set())
    good = 0
    for seed in range(8):
        asg = assignment(hyps, terms, seed + 17)
        if asg is None:
            return False
        m = CModel(seed + 17, asg)
        try:
            for a in zeros:
                a = N.atom_T(a) if a.tr and not a.sym else a
                m.zeros.add((a.name, a.kind, tuple(m.key(i) for i in a.idx), m.dim(a.shape[0]), m.dim(a.shape[1])))
            r = m.ev(q)
            mag = 1.0
            for k, c in q.d.items():
                mag = max(mag, float(np.abs(m.ev(N.Poly({k: c}, q.shape))).max()))
        except (np.linalg.LinAlgError, NotConcrete, ZeroDivisionError):
            continue
        if not float(np.abs(r).max()) > 1e-6 * mag:
            return False
        good += 1
        if good == 3:
            return True
    return False

"""z3 back end for the term language."""
import z3
from fractions import Fraction
from . import terms as t
from .terms import Term

_shared = {}
_pure = {}


def pure(x):
    """arithmetic over variables only: the translation does not depend on the query"""
    r = _pure.get(x)
    if r is None:
        r = x.op in ('true', 'false', 'const', 'var', 'poly', 'recip', 'le', 'lt', 'eq', 'not', 'and', 'iff', 'ite', 'idiv', 'imod') and \
            all(pure(a) for a in t.children(x))
        _pure[x] = r
    return r


STATS = {'queries': 0, 'time': 0.0, 'unknown': 0}


class Ctx:
    """translates terms to z3; collects the defining axioms of binder terms"""

    def __init__(self):
        self.cache = {}
        self.axioms = []
        self.done = set()
        self.funs = {}
        self.quant = False
        self.cls = {}

    def zsort(self, s):
        return {'Int': z3.IntSort(), 'Real': z3.RealSort(), 'Bool': z3.BoolSort()}[s]

    def fun(self, name, argsorts, res):
        key = (name, argsorts, res)
        if key not in self.funs:
            self.funs[key] = z3.Function('%s/%s' % (name, ''.join(a[0] for a in argsorts) + res[0]),
                                         *[self.zsort(a) for a in argsorts], self.zsort(res))
        return self.funs[key]

    def tr(self, x):
        r = self.cache.get(x)
        if r is None:
            r = _shared.get(x)
            if r is None:
                r = self._tr(x)
                if pure(x):
                    _shared[x] = r
            self.cache[x] = r
        return r

    def num(self, x, sort):
        z = self.tr(x)
        if sort == 'Real' and z.sort() == z3.IntSort():
            z = z3.ToReal(z)
        return z

    def index_classes(self, ts):
        """index polynomials that differ by a constant share one base variable (so that they match syntactically)"""
        seen, st, mins = set(), list(ts), {}
        while st:
            x = st.pop()
            if x in seen or pure(x):
                continue
            seen.add(x)
            if x.op == 'app':
                for a in x.args[1:]:
                    if a.sort == 'Int' and a.op in ('poly', 'var', 'app') and not t._depth_all(a):
                        p = dict(t.to_poly(a))
                        c = p.pop((), 0)
                        if p:
                            key = frozenset(p.items())
                            mins[key] = min(mins.get(key, c), c)
            st += t.children(x)
        for key, c in mins.items():
            p = dict(key)
            single = len(p) == 1 and list(p.values()) == [1]
            if single and c == 0:
                continue
            p[()] = c
            base = t.from_poly({m: q for m, q in p.items() if q}, 'Int')
            v = z3.FreshInt('@base')
            self.cls[key] = (v, c)
            self.axioms.append(v == self._tr(base))

    def ix(self, a):
        if self.cls and a.sort == 'Int' and a.op in ('poly', 'var', 'app') and not t._depth_all(a):
            p = dict(t.to_poly(a))
            c = p.pop((), 0)
            r = self.cls.get(frozenset(p.items()))
            if r is not None:
                v, c0 = r
                return v if c == c0 else v + z3.IntVal(int(c - c0))
        return self.tr(a)

    def _tr(self, x):
        op = x.op
        if op == 'true':
            return z3.BoolVal(True)
        if op == 'false':
            return z3.BoolVal(False)
        if op == 'const':
            c = x.args[0]
            if x.sort == 'Int':
                return z3.IntVal(int(c))
            return z3.RealVal('%d/%d' % (c.numerator, c.denominator))
        if op == 'var':
            return z3.Const(x.args[0], self.zsort(x.sort))
        if op == 'poly':
            if x.sort == 'Int' and all(c.denominator == 1 for c, _ in x.args):
                ss = []
                for c, m in x.args:
                    p = z3.IntVal(int(c))
                    first = c == 1 and m
                    if first:
                        p = None
                    for a, e in m:
                        for _ in range(e):
                            p = self.tr(a) if p is None else p * self.tr(a)
                    ss.append(p)
                return z3.Sum(ss) if len(ss) > 1 else ss[0]
            ss = []
            for c, m in x.args:
                p = z3.RealVal('%d/%d' % (c.numerator, c.denominator))
                if c == 1 and m:
                    p = None
                for a, e in m:
                    for _ in range(e):
                        za = self.num(a, 'Real')
                        p = za if p is None else p * za
                ss.append(p)
            return z3.Sum(ss) if len(ss) > 1 else ss[0]
        if op == 'recip':
            return z3.RealVal(1) / self.num(x.args[0], 'Real')
        if op == 'app':
            f = self.fun(x.args[0], tuple(a.sort for a in x.args[1:]), x.sort)
            return f(*[self.ix(a) for a in x.args[1:]]) if len(x.args) > 1 else z3.Const(x.args[0] + '/0', self.zsort(x.sort))
        if op in ('le', 'lt', 'eq'):
            d = x.args[0]
            # split into two sides for readability / linear shape
            p = t.to_poly(d)
            pos = t.from_poly({m: c for m, c in p.items() if c > 0}, d.sort)
            ngv = t.from_poly({m: -c for m, c in p.items() if c < 0}, d.sort)
            a, b = self.num(pos, d.sort), self.num(ngv, d.sort)
            if a.sort() != b.sort():
                a = z3.ToReal(a) if a.sort() == z3.IntSort() else a
                b = z3.ToReal(b) if b.sort() == z3.IntSort() else b
            return {'le': a <= b, 'lt': a < b, 'eq': a == b}[op]
        if op == 'not':
            return z3.Not(self.tr(x.args[0]))
        if op == 'and':
            return z3.And([self.tr(a) for a in x.args])
        if op == 'iff':
            return self.tr(x.args[0]) == self.tr(x.args[1])
        if op == 'ite':
            a, b = self.num(x.args[1], x.sort), self.num(x.args[2], x.sort)
            return z3.If(self.tr(x.args[0]), a, b)
        if op == 'idiv':
            return self.tr(x.args[0]) / self.tr(x.args[1])
        if op == 'imod':
            return self.tr(x.args[0]) % self.tr(x.args[1])
        if op in ('forall', 'exists'):
            vs, rngs = [], []
            self.quant = True
            while x.op == op:
                v, n, body = x.args
                zv = self.tr(v)
                vs.append(zv)
                rngs += [zv >= 0, zv < self.tr(n)]
                x = body
            b = self.tr(x)
            if op == 'forall':
                return z3.ForAll(vs, z3.Implies(z3.And(rngs), b))
            return z3.Exists(vs, z3.And(rngs + [b]))
        if op in ('min', 'max', 'argmin', 'argmax'):
            return self._binder(x)
        if op == 'bsum':
            fv = [v for v in t.free_vars(x) if v.args[0].startswith('$')]
            f = self.fun('bsum%d' % x.id, tuple(v.sort for v in fv), 'Real')
            return f(*[self.tr(v) for v in fv]) if fv else f()
        raise RuntimeError('smt: ' + op)

    def _binder(self, x):
        v, n, body = x.args
        kind = 'min' if x.op in ('min', 'argmin') else 'max'
        key = (kind, v, n, body)
        fv = sorted([w for w in (t.free_vars(n) | (t.free_vars(body) - {v})) if w.args[0].startswith('$')],
                    key=lambda w: w.id)
        base = t._mk(kind, (v, n, t.toreal(body)), 'Real')
        ss = tuple(w.sort for w in fv)
        m = self.fun('m%d' % base.id, ss, 'Real')
        a = self.fun('a%d' % base.id, ss, 'Int')
        zfv = [self.tr(w) for w in fv]
        ma = m(*zfv) if fv else m()
        aa = a(*zfv) if fv else a()
        if base not in self.done:
            self.done.add(base)
            zv = self.tr(v)
            zn = self.tr(n)
            zb = self.num(body, 'Real')
            w = z3.Int('$w%d' % base.id)
            zbw = z3.substitute(zb, (zv, w))
            zba = z3.substitute(zb, (zv, aa))
            if kind == 'min':
                q1 = z3.ForAll([w], z3.Implies(z3.And(w >= 0, w < zn), ma <= zbw))
                q2 = z3.ForAll([w], z3.Implies(z3.And(w >= 0, w < aa), ma < zbw))
            else:
                q1 = z3.ForAll([w], z3.Implies(z3.And(w >= 0, w < zn), ma >= zbw))
                q2 = z3.ForAll([w], z3.Implies(z3.And(w >= 0, w < aa), ma > zbw))
            body_ax = z3.Implies(zn >= 1, z3.And(aa >= 0, aa < zn, zba == ma, q1, q2))
            if zfv:
                body_ax = z3.ForAll(zfv, body_ax, patterns=[z3.MultiPattern(ma)])
            self.axioms.append(body_ax)
        return ma if x.op in ('min', 'max') else aa


def check(hyps, goal=None, timeout=4000, want_model=False):
    """is hyps /\\ not goal satisfiable?  -> 'unsat' | 'sat' | 'unknown', model"""
    if want_model or not (all(pure(h) for h in hyps) and (goal is None or pure(goal))):
        return solve(hyps, goal, timeout, want_model)
    if refuted_by_pool(hyps, goal):
        STATS['reused'] = STATS.get('reused', 0) + 1
        return 'sat'
    r, m = solve(hyps, goal, timeout, True)
    if m is not None:
        remember(hyps, goal, m)
    return r


def solve(hyps, goal, timeout, want_model):
    import time
    t0 = time.time()
    c = Ctx()
    c.index_classes(list(hyps) + ([goal] if goal is not None else []))
    zs = [c.tr(h) for h in hyps]
    zg = None
    if goal is not None:
        zg = z3.Not(c.tr(goal))
    s = z3.Solver()
    s.set('timeout', timeout)
    s.set('random_seed', 0)
    if c.quant or c.axioms:
        s.set('auto_config', False)
        s.set('smt.mbqi', False)
    for z in zs:
        s.add(z)
    for z in c.axioms:
        s.add(z)
    if zg is not None:
        s.add(zg)
    r = s.check()
    STATS['queries'] += 1
    STATS['time'] += time.time() - t0
    res = str(r)
    if res == 'unknown':
        STATS['unknown'] += 1
    if want_model:
        return res, (s.model() if res == 'sat' else None)
    return res


class Model:
    """an assignment found by the solver: a countermodel of every later query it satisfies (evaluated exactly)"""

    def __init__(self, vals):
        self.vals = vals
        self.memo = {}

    def ev(self, x):
        r = self.memo.get(x)
        if r is None:
            r = self.memo[x] = self._ev(x)
        return r

    def _ev(self, x):
        op = x.op
        if op == 'const':
            return x.args[0]
        if op == 'var':
            v = self.vals.get(x.args[0])
            if v is None:
                v = self.vals[x.args[0]] = False if x.sort == 'Bool' else Fraction(0)
            return v
        if op == 'poly':
            tot = 0
            for c, m in x.args:
                p = c
                for a, e in m:
                    p = p * self.ev(a) ** e
                tot += p
            return tot
        if op == 'recip':
            return 1 / self.ev(x.args[0])
        if op == 'le':
            return self.ev(x.args[0]) <= 0
        if op == 'lt':
            return self.ev(x.args[0]) < 0
        if op == 'eq':
            return self.ev(x.args[0]) == 0
        if op == 'not':
            return not self.ev(x.args[0])
        if op == 'and':
            return all([self.ev(a) for a in x.args])
        if op == 'iff':
            return self.ev(x.args[0]) == self.ev(x.args[1])
        if op == 'ite':
            return self.ev(x.args[1]) if self.ev(x.args[0]) else self.ev(x.args[2])
        if op in ('idiv', 'imod'):
            a, b = self.ev(x.args[0]), self.ev(x.args[1])
            if b <= 0:
                raise ZeroDivisionError
            return a // b if op == 'idiv' else a % b
        return {'true': True, 'false': False}[op]


_pool = []


def remember(hyps, goal, zmodel):
    vs = set()
    for h in list(hyps) + ([goal] if goal is not None else []):
        vs |= t.free_vars(h)
    vals = {}
    for v in vs:
        r = zmodel.eval(z3.Const(v.args[0], {'Int': z3.IntSort(), 'Real': z3.RealSort(), 'Bool': z3.BoolSort()}[v.sort]), model_completion=True)
        if v.sort == 'Bool':
            vals[v.args[0]] = z3.is_true(r)
        elif z3.is_int_value(r) or z3.is_rational_value(r):
            vals[v.args[0]] = Fraction(str(r))
        else:
            return
    _pool.append(Model(vals))
    if len(_pool) > 60:
        del _pool[0]


def refuted_by_pool(hyps, goal):
    for i in range(len(_pool) - 1, -1, -1):
        m = _pool[i]
        try:
            if all(m.ev(h) for h in hyps) and not (goal is not None and m.ev(goal)):
                if i < len(_pool) - 1:
                    _pool.append(_pool.pop(i))
                return True
        except ZeroDivisionError:
            continue
    return False


_pc = {}


def entails(hyps, goal, timeout=3000):
    if goal is t.TRUE:
        return True
    for h in hyps:
        if h is goal:
            return True
    if goal is t.FALSE and not hyps:
        return False
    key = (frozenset(hyps), goal)
    r = _pc.get(key)
    if r is None:
        r = check(hyps, goal, timeout) == 'unsat'
        _pc[key] = r
    return r


def feasible(hyps, timeout=2000):
    key = (frozenset(hyps), None)
    r = _pc.get(key)
    if r is None:
        r = check(hyps, None, timeout) != 'unsat'
        _pc[key] = r
    return r

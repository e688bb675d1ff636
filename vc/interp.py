"""Symbolic interpreter / verification-condition generator over the real Python source.

The functions of /repo are re-parsed on every run and executed symbolically for all inputs admitted by
a contract: values are terms (Int/Real/Bool), non-commutative matrix polynomials, functional arrays and
sequences of symbolic length.  Conditions fork paths; loops with symbolic trip count are cut by
inferred invariants that are instances of contract templates.
"""
import ast
import os
import itertools
import time
from . import terms as T
from . import ncalg as N
from . import concrete
from . import smt
from .values import *
from . import values as V

REPO = os.environ.get('VERIF_REPO', '/repo')


class ReturnExc(Exception):
    def __init__(self, v):
        self.v = v


class BreakExc(Exception):
    pass


class ContinueExc(Exception):
    pass


class Outcome:
    def __init__(self, conds, result, exc=None):
        self.conds, self.result, self.exc = conds, result, exc


def ground_apps(ts):
    """app subterms without bound variables"""
    seen, out, st = set(), [], list(ts)
    while st:
        t = st.pop()
        if t in seen:
            continue
        seen.add(t)
        if t.op == 'app' and T._depth_all(t) == 0:
            out.append(t)
        st += T.children(t)
    return sorted(out, key=lambda t: t.id)


class Engine:
    def __init__(self, timeout=400):
        self.pc = []            # list of Bool terms
        self.eqs = []           # list of (label, Poly) hypotheses = 0
        self.ztests = {}        # Bool variable -> Poly: the variable is false exactly when the matrix is zero
        self.script = []
        self.pos = 0
        self.obligations = []   # dicts
        self.mute = 0
        self.modules = {}
        self.templates = []     # SeqTemplate
        self.loop_stack = []
        self.solves = []        # log of block solves: (atom name, index terms, A, B, X) with A X = B
        self.peel = False       # split the last iteration off every outermost loop of symbolic length
        self.mismatch = 0    # contract mismatches met while inferring
        self.rkfam = {}
        self.suggest = None  # hints collected by call contracts while inferring
        # (index, count) of the enclosing loops of symbolic length
        self.loop_facts = None
        self.specs = {}         # atom name -> Spec
        self.contracts = {}     # qualified name -> handler(engine, args, kwargs, closure)
        self.shims = {}
        self.funcs_seen = set()
        self.depth = 0
        self.deadline = time.time() + timeout
        self.stack = []
        self.rel_templates = []
        self.trace = []
        self.inst = {}          # app name -> fn(*args) -> [Bool terms]: defining equations, instantiated on occurrence
        self.inst_depth = 2
        self.norefute = False
        self.bracket_scan = None
        self.defs = {}            # name -> lambda *idx: [(condition, right-hand side thunk)], used by by_rewriting
        self.congruence = False   # use extensionality of min/argmin terms in proofs
        self._ext = {}
        self.loop_handlers = {}   # id(ast loop node) -> handler(interp, node, frame): loops with a stated invariant
        V.HEAP.append([])
        self.heap = V.HEAP[-1]
        self.writes = None
        self.inverted = []
        self.lemma_eqs = []     # (atom name, fn(index) -> Poly = 0 | None): proved relations, instantiated on occurrence
        self.facts = []         # quantified background facts (Bool terms) for smt

    # ------------------------------------------------------------ proof primitives
    def hyps(self, *goals):
        """path condition, background facts, and the definitions in `inst` instantiated at every occurrence in the goals"""
        if not self.inst:
            return self.pc + self.facts
        out, done, front = [], set(), list(goals) + self.pc
        for _ in range(self.inst_depth):
            new = []
            for a in ground_apps(front):
                if a not in done and a.args[0] in self.inst:
                    done.add(a)
                    for t in self.inst[a.args[0]](*a.args[1:]):
                        if t is not T.TRUE:
                            new.append(t)
            if not new:
                break
            out += new
            front = new
        if self.congruence and goals:
            out += self.binder_equalities(list(goals) + out)
        return self.pc + self.facts + out

    def binder_equalities(self, ts):
        """extensionality: closed min/argmin (max/argmax) terms over the same range whose bodies are provably equal pointwise"""
        fam, seen, st = {}, set(), list(ts)
        while st:
            t = st.pop()
            if t in seen:
                continue
            seen.add(t)
            if t.op in ('min', 'max', 'argmin', 'argmax') and not any(v.args[0].startswith('$') for v in T.free_vars(t)):
                l = fam.setdefault((t.op[-3:], t.args[1]), [])
                if not any(t.args[2] is b[2] and t.args[0] is b[0] for b in l):
                    l.append((t.args[0], t.args[1], t.args[2]))
            st += T.children(t)
        out = []
        self.congruence = False
        try:
            for (op, n), l in fam.items():
                if len(l) > 8:
                    continue
                i = T.var('ext!', T.INT)
                rng = [T.le(0, i), T.lt(i, n)]
                bs = [T.assume_true(T.subst(b, {v: i}), set(rng + self.pc)) for v, _, b in l]
                rep = []
                for j in range(len(l)):
                    for k in rep:
                        g = T.eq(bs[j], bs[k])
                        if g is not T.TRUE:
                            key = (frozenset(self.pc), g)
                            if key not in self._ext:
                                sav = list(self.pc)
                                self.pc += rng
                                self._ext[key] = self.by_cases(g) or smt.check(self.hyps(g), g, 1500) == 'unsat'
                                self.pc = sav
                            if not self._ext[key]:
                                continue
                        for o in (op, 'arg' + op):
                            mk = lambda x: T._mk(o, (x[0], x[1], T.toreal(x[2]) if o == op else x[2]), T.REAL if o == op else T.INT)
                            out.append(T.eq(mk(l[j]), mk(l[k])))
                        break
                    else:
                        rep.append(j)
        finally:
            self.congruence = True
        return out

    def by_rewriting(self, g):
        """prove the equation g by unfolding definitions whose condition holds, identifying extensionally equal min/max terms and splitting cases"""
        if not self.defs:
            return False
        for rnd in range(3):
            g2 = self.unify_binders(g)
            if g2 is T.TRUE or self.by_cases(g2):
                return True
            m = {}
            for a in ground_apps([g]):
                d = self.defs.get(a.args[0])
                for cond, rhs in (d(*a.args[1:]) if d else ()):
                    if smt.entails(self.pc, cond):
                        m[a] = rhs()
                        break
            if not m:
                return False
            g = T.subst_terms(g, m)
        return False

    def unify_binders(self, g):
        fam, seen, st = {}, set(), [g]
        while st:
            t = st.pop()
            if t in seen:
                continue
            seen.add(t)
            if t.op in ('min', 'max', 'argmin', 'argmax'):
                l = fam.setdefault((t.op[-3:], t.args[1]), [])
                if not any(t.args[2] is b[2] and t.args[0] is b[0] for b in l):
                    l.append(t.args)
                continue
            st += T.children(t)
        m = {}
        sav = list(self.pc)
        try:
            for (op, n), l in fam.items():
                i = T.var('ext!', T.INT)
                rng = [T.le(0, i), T.lt(i, n)]
                self.pc = sav + rng
                bs = [T.assume_true(T.subst(b, {v: i}), set(self.pc)) for v, _, b in l]
                rep = []
                for j in range(len(l)):
                    for k in rep:
                        h = T.eq(bs[j], bs[k])
                        if self.by_cases(h):
                            for o in (op, 'arg' + op):
                                mk = lambda x: T._mk(o, (x[0], x[1], T.toreal(x[2]) if o == op else x[2]), T.REAL if o == op else T.INT)
                                m[mk(l[j])] = mk(l[k])
                            break
                    else:
                        rep.append(j)
        finally:
            self.pc = sav
        return T.subst_terms(g, m) if m else g

    def by_cases(self, g, depth=9, cost=None):
        """prove g by splitting on the conditions of its conditional subterms; every leaf is syntactically true or contradictory"""
        cost = [200] if cost is None else cost
        if g is T.TRUE:
            return True
        c = T.first_condition(g)
        cost[0] -= 1
        if c is None or not depth or cost[0] < 0:
            return False
        sav = list(self.pc)
        try:
            for d, w in ((c, T.TRUE), (T.not_(c), T.FALSE)):
                self.pc = sav + [d]
                if smt.entails(sav, T.not_(d)):
                    continue
                m = {c: w}
                if c.op == 'lt' and w is T.FALSE and smt.entails(self.pc, T.eq(c.args[0], T.const(0, c.args[0].sort))):
                    p = T.to_poly(c.args[0])
                    if len(p) == 1 and len(list(p)[0]) == 1 and list(p)[0][0][1] == 1:        # +-atom = 0
                        m[list(p)[0][0][0]] = T.const(0, c.args[0].sort)
                if not self.by_cases(T.subst_terms(g, m), depth - 1, cost):
                    return False
        finally:
            self.pc = sav
        return True

    def entails(self, g):
        return smt.entails(self.pc, g)

    def assume(self, c):
        if c is not T.TRUE:
            self.pc.append(c)

    def branch(self, c):
        if isinstance(c, bool):
            return c
        if c is T.TRUE:
            return True
        if c is T.FALSE:
            return False
        if time.time() > self.deadline:
            raise Unsupported('time budget of the symbolic execution exhausted')
        if smt.entails(self.pc, c):
            return True
        if smt.entails(self.pc, T.not_(c)):
            return False
        if self.facts or self.inst:
            if smt.entails(self.hyps(c), c):
                return True
            if smt.entails(self.hyps(c), T.not_(c)):
                return False
        if self.pos < len(self.script):
            d = self.script[self.pos]
        else:
            d = True
            self.script.append(True)
            if len(self.script) > 60:
                raise Unsupported('too many symbolic branches')
        self.pos += 1
        self.pc.append(c if d else T.not_(c))
        return d

    def snapshot(self):
        return [(o, o.snap()) for o in self.heap], len(self.heap)

    def restore(self, s):
        snaps, n = s
        del self.heap[n:]
        for o, x in snaps:
            o.restore(x)

    def explore(self, thunk, maxpaths=200):
        """run thunk on every feasible path; heap restored before each path and at the end"""
        sav = (self.script, self.pos, list(self.pc), list(self.eqs), list(self.facts))
        snap = self.snapshot()
        outs = []
        script = []
        while True:
            self.script, self.pos = script, 0
            self.pc = list(sav[2])
            self.eqs = list(sav[3])
            self.facts = list(sav[4])
            self.restore(snap)
            try:
                try:
                    r = thunk()
                    outs.append(Outcome(self.pc[len(sav[2]):], r))
                except PyRaise as e:
                    outs.append(Outcome(self.pc[len(sav[2]):], None, e))
                except PathEnd:
                    pass
            finally:
                script = self.script[:self.pos]
                pcx = self.pc
                self.script, self.pos, self.pc, self.eqs, self.facts = sav[0], sav[1], list(sav[2]), list(sav[3]), list(sav[4])
            if len(outs) > maxpaths:
                raise Unsupported('too many paths')
            while script and script[-1] is False:
                script.pop()
            if not script:
                break
            script[-1] = False
        self.restore(snap)
        return outs

    def obl(self, label, status, detail='', kind='post', by=''):
        if self.mute:
            return
        if status == 'refuted' and self.norefute:
            # obligations relative to a stated loop invariant: a model need not be reachable
            status = 'unknown'
        self.obligations.append({'label': label, 'status': status, 'detail': detail, 'kind': kind, 'by': by,
                                 'path': [T.show(c) for c in self.pc[-6:]],
                                 'pcterms': list(self.pc)})

    def havocked(self, *things):
        """does a goal or the path depend on a value the engine only knows by its type (loop-carried value without a template, opaque
        result of an unidentified call)?  Then a model of the negated goal need not be a reachable state: no refutation."""
        from .exec import opaque_name
        for x in things:
            if isinstance(x, N.Poly):
                if any(opaque_name(a.name) for a in self.base_atoms(x)):
                    return True
            elif isinstance(x, T.Term) and T.mentions(x, opaque_name):
                return True
        return any(T.mentions(c, opaque_name) for c in self.pc)

    def model_of(self, r, g):
        return 'refuted' if r == 'sat' and not self.havocked(g) else 'unknown'

    def require(self, c, label, kind='safety'):
        """obligation that must hold on the current path"""
        if c is T.TRUE or c is True:
            return True
        if self.entails_h(c):
            self.obl(label, 'proved', T.show(c), kind, 'z3')
            return True
        r = smt.check(self.hyps(c), c)
        self.obl(label, self.model_of(r, c), T.show(c), kind, 'z3')
        if r == 'unsat':
            return True
        self.assume(c)
        return False

    def entails_h(self, g):
        if smt.entails(self.pc, g):
            return True
        return bool(self.facts or self.inst) and smt.entails(self.hyps(g), g)

    def mk_binder(self, op, n, f):
        return T.binder(op, n, f)

    def index_in_range(self, x, n):
        """obligation: every entry of the integer array x is a valid (non negative) index < n"""
        vs = [T.fresh('ir', T.INT) for _ in x.shape]
        rng = T.and_(*[T.and_(T.le(0, v), T.lt(v, s)) for v, s in zip(vs, x.shape)])
        t = x.data(*vs)
        self.require_h(T.implies(rng, T.and_(T.le(0, t), T.lt(t, n))), 'array index in range')

    def require_h(self, c, label, kind='safety'):
        if c is T.TRUE:
            return True
        if smt.entails(self.hyps(c), c, 5000):
            self.obl(label, 'proved', T.show(c)[:500], kind, 'z3')
            return True
        r = smt.check(self.hyps(c), c, 5000)
        self.obl(label, 'proved' if r == 'unsat' else self.model_of(r, c), T.show(c)[:500], kind, 'z3')
        return r == 'unsat'

    def obl_symmetric(self, a):
        if a.rep == 'blk':
            from . import arrops
            st = arrops.blk_eq(self, a, arrops.transpose(self, a))
            self.obl('symmetric argument of a symmetric/Cholesky solver', st[0], str(st[1])[:300], 'safety', st[2])
            return
        p = a.data
        st = self._prove_zero(N.add(p, N.transpose(p), -1), [e for _, e in self.eqs])
        self.obl('symmetric argument of a symmetric/Cholesky solver', st[0], N.show(p)[:300], 'safety', st[2])

    def note_inverse(self, p):
        self.inverted.append(p)

    def dim_eq(self, a, b):
        a, b = T.L(a), T.L(b)
        if a is b:
            return True
        return self.entails(T.eq(a, b))

    def prove_bool(self, g, label, kind='post', timeout=20000):
        if g is T.TRUE:
            self.obl(label, 'proved', 'true', kind, 'syntactic')
            return 'proved'
        h = self.hyps(g)
        r = smt.check(h, g, timeout)
        st = 'proved' if r == 'unsat' else self.model_of(r, g)
        self.obl(label, st, T.show(g)[:2000], kind, 'z3')
        return st

    # --- matrix goals
    def canon_poly(self, p, ctx=()):
        """unify atom indices that are equal under the path condition (one representative across ctx and p)"""
        fam = {}
        for q in list(ctx) + [p]:
            for (_, w) in q.d:
                for a in w:
                    self._collect_idx(a, fam)
        rep = {}
        for name, idxs in fam.items():
            reps = []
            for ix in idxs:
                for r in reps:
                    if len(r) == len(ix) and all((x is y) or (isinstance(x, T.Term) and isinstance(y, T.Term) and
                                                              self.entails(T.eq(x, y))) for x, y in zip(ix, r)):
                        if r != ix:
                            rep[(name, ix)] = r
                        break
                else:
                    reps.append(ix)
        if not rep:
            return p
        return self.map_atoms(p, lambda a: N.of_atom(N.atom(a.name, a.shape, rep[(a.name, a.idx)], a.sym, a.kind, a.defn, a.tr))
                              if (a.name, a.idx) in rep and a.kind != 'inv' else None)

    def _collect_idx(self, a, fam):
        if a.kind == 'inv':
            for (_, w) in a.defn.d:
                for b in w:
                    self._collect_idx(b, fam)
        elif a.idx:
            l = fam.setdefault(a.name, [])
            if a.idx not in l:
                l.append(a.idx)

    def map_atoms(self, p, f, _cache=None):
        """rewrite base atoms everywhere, including inside inverse definitions"""
        cache = {} if _cache is None else _cache

        def g(a):
            r = cache.get(a)
            if r is None:
                if a.kind == 'inv':
                    d = self.map_atoms(a.defn, f, cache)
                    if d.key() == a.defn.key():
                        r = N.of_atom(a)
                    else:
                        r = N.inverse(d)
                        if a.tr:
                            r = N.transpose(r)
                else:
                    # apply to untransposed atom
                    if a.tr and not a.sym:
                        u = N.atom_T(a)
                        q = f(u)
                        r = N.of_atom(a) if q is None else N.transpose(q)
                    else:
                        q = f(a)
                        r = N.of_atom(a) if q is None else q
                cache[a] = r
            return r
        return N.subst_atoms(p, g)

    def base_atoms(self, p, acc=None):
        acc = set() if acc is None else acc
        for (_, w) in p.d:
            for a in w:
                if a.kind == 'inv':
                    if a not in acc:
                        acc.add(a)
                        self.base_atoms(a.defn, acc)
                else:
                    acc.add(N.atom_T(a) if (a.tr and not a.sym) else a)
        return acc

    def unfold_poly(self, p, mode):
        """mode 0: unfold closed-form spec atoms only; 1: also recursive atoms whose predecessor index occurs;
        2: unfold all recursive atoms once"""
        atoms = [a for a in self.base_atoms(p) if a.kind == 'base']
        present = {}
        for a in atoms:
            present.setdefault(a.name, set()).add(a.idx)

        def f(a):
            sp = self.specs.get(a.name)
            if sp is None:
                return None
            if sp.recursive:
                if sp.base is not None:
                    b = sp.base(self, *a.idx)
                    if b is not None:
                        return b
                if mode == 0:
                    return None
                if mode == 1:
                    nb = sp.pred(a.idx)
                    fam = set()
                    for nm in sp.family:
                        fam |= present.get(nm, set())
                    if not any(all(self.dim_eq(x, y) for x, y in zip(nb, ix)) for ix in fam if len(ix) == len(nb)):
                        return None
            return sp.unfold(self, a.idx)
        return self.map_atoms(p, f)

    def nonzero_test(self, p):
        """truth value of 'matrix p has a nonzero entry' (a Bool variable of its own for every matrix)"""
        p = self.canon_poly(p)
        if p.is_zero():
            return False
        if self.havocked(p):
            from .exec import Unsupported
            raise Unsupported('zero test of an unknown matrix')
        key = ('nz', p.key())
        for v, (k, _) in self.ztests.items():
            if k == key:
                return v
        v = T.fresh('nonzero', T.BOOL)
        self.ztests[v] = (key, p)
        return v

    def zero_hyps(self):
        return [self.ztests[c.args[0]][1] for c in self.pc if c.op == 'not' and c.args[0] in self.ztests] if self.ztests else []

    def prove_zero(self, p, label, kind='post', timeout=20.0, extra=(), want_status=True):
        ext = [e for _, e in self.eqs] + list(extra)
        st = self._prove_zero(p, ext, timeout)
        self.obl(label, st[0], st[1][:1500], kind, st[2])
        return st[0]

    def instantiate_lemmas(self, p):
        out = []
        if self.lemma_eqs:
            seen = set()
            for a in self.base_atoms(p):
                if a.kind != 'base':
                    continue
                for nm, f in self.lemma_eqs:
                    if a.name == nm and (nm, a.idx) not in seen:
                        seen.add((nm, a.idx))
                        q = f(*a.idx)
                        if q is not None:
                            out.append(q)
        return out

    def _prove_zero(self, p, ext=(), timeout=20.0):
        if p.is_zero():
            return 'proved', '0 = 0', 'nc-algebra'
        p = self.canon_poly(p)
        zh = self.zero_hyps()
        simple = not ext and all(len(z.d) == 1 and len(m[1]) == 1 and not m[0] and m[1][0].kind == 'base' for z in zh for m in z.d)
        ext = list(ext) + zh
        lem = self.instantiate_lemmas(p)
        ext += lem
        q = p
        last = None
        for mode in (0, 0, 1, 0, 2, 0, 0):
            q2 = self.canon_poly(self.unfold_poly(q, mode))
            if mode and q2.key() == q.key():
                continue
            q = q2
            if q.is_zero():
                return 'proved', N.show(p), 'nc-algebra'
            if mode == 0 and last is not None and q.key() == last:
                continue
            last = q.key()
            exc = []
            for e in ext:
                e = self.canon_poly(self.unfold_poly(self.canon_poly(e, [q] + exc), 0), [q] + exc)
                exc.append(e)
            res = N.prove_zero([q], exc, timeout=timeout)
            if not res[0]:
                if not self.numeric_zero(q, ext):
                    raise RuntimeError('prover self-check failed: discharged goal is numerically nonzero: ' + N.show(q)[:300])
                return 'proved', N.show(p), 'nc-algebra'
        if ext and (lem or not simple):
            return 'unknown', 'residual: ' + N.show(N.Poly(res[0], q.shape)), 'nc-algebra'
        # refute numerically
        if not self.mute and not self.havocked(q) and concrete.nonzero(q, [c for c in self.pc if not self.ztests or (c.args[0] if c.op == 'not' else c) not in self.ztests]
                                                                      + [f for f in self.facts if f.op not in ('forall', 'exists')],
                                                                      [m[1][0] for z in zh for m in z.d]):
            return 'refuted', 'numerically nonzero; residual: ' + N.show(N.Poly(res[0], q.shape)), 'nc-algebra'
        return 'unknown', 'residual: ' + N.show(N.Poly(res[0], q.shape)), 'nc-algebra'

    def dim_assign(self, seed):
        """assignment of small integers to dimension/index variables consistent (when possible) with pc"""
        vals = {}
        import random
        rnd = random.Random(seed)

        def ev(t):
            t = T.L(t)
            if t.op == 'const':
                return int(T.cval(t))
            s = 0
            for m, c in T.to_poly(t).items():
                q = c
                for a, e in m:
                    if a not in vals:
                        vals[a] = rnd.randint(2, 4)
                    q = q * vals[a] ** e
                s += q
            return max(1, int(s))
        return ev

    def numeric_zero(self, q, ext):
        import numpy as np
        if ext:
            return True
        bad = 0
        for seed in range(3):
            m = N.Model(seed + 17, self.dim_assign(seed), psd=lambda a: True)
            try:
                r = m.ev(q)
            except np.linalg.LinAlgError:
                continue
            mag = 1.0
            for k, c in q.d.items():
                try:
                    mag = max(mag, float(np.abs(m.ev(N.Poly({k: c}, q.shape))).max()))
                except Exception:
                    pass
            if float(np.abs(r).max()) > 1e-6 * mag:
                bad += 1
        return bad == 0

    # --- generic equality of values
    def eq_val(self, a, b):
        """('proved'|'refuted'|'unknown', detail, by) : a == b as values on this path"""
        if a is b:
            return 'proved', 'identical', 'syntactic'
        if isinstance(a, (int, float)) and not isinstance(a, bool):
            a = T.const(a)
        if isinstance(b, (int, float)) and not isinstance(b, bool):
            b = T.const(b)
        if isinstance(a, bool):
            a = T.const(a)
        if isinstance(b, bool):
            b = T.const(b)
        if isinstance(a, T.Term) and isinstance(b, Arr) and b.ndim == 0:
            a = scalar_arr(a)
        if isinstance(b, T.Term) and isinstance(a, Arr) and a.ndim == 0:
            b = scalar_arr(b)
        if isinstance(a, T.Term) and isinstance(b, T.Term):
            g = T.eq(a, b)
            if g is T.TRUE:
                return 'proved', 'identical', 'syntactic'
            r = smt.check(self.hyps(g), g, 10000)
            return ('proved' if r == 'unsat' else self.model_of(r, g)), T.show(g)[:1500], 'z3'
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return 'refuted', 'tuple length', 'syntactic'
            for x, y in zip(a, b):
                r = self.eq_val(x, y)
                if r[0] != 'proved':
                    return r
            return 'proved', 'componentwise', 'composite'
        if isinstance(a, Arr) and isinstance(b, Arr):
            if a.ndim != b.ndim:
                return 'refuted', 'ndim %d vs %d' % (a.ndim, b.ndim), 'shape'
            for x, y in zip(a.shape, b.shape):
                if not self.dim_eq(x, y):
                    r = smt.check(self.pc, T.eq(x, y))
                    return self.model_of(r, T.eq(x, y)), 'shape %s vs %s' % (a.shape, b.shape), 'z3'
            if a.rep == 'mat' and b.rep == 'mat':
                return self._prove_zero(N.add(a.data, b.data, -1), [e for _, e in self.eqs])
            if a.rep == 'blk' or b.rep == 'blk':
                from . import arrops
                return arrops.blk_eq(self, a, b)
            if a.rep == 'fn' and b.rep == 'fn':
                idx = [T.fresh('ix', T.INT) for _ in a.shape]
                sav = list(self.pc)
                for i, s in zip(idx, a.shape):
                    self.pc += [T.le(0, i), T.lt(i, s)]
                g = T.eq(T.assume_true(a.data(*idx), set(self.pc)), T.assume_true(b.data(*idx), set(self.pc)))
                if g is T.TRUE:
                    self.pc = sav
                    return 'proved', 'identical', 'syntactic'
                if self.by_rewriting(g):
                    self.pc = sav
                    return 'proved', T.show(g)[:1500], 'case splitting'
                r = smt.check(self.hyps(g), g, 10000)
                self.pc = sav
                return ('proved' if r == 'unsat' else self.model_of(r, g)), T.show(g)[:1500], 'z3'
            if a.rep == 'seq' and b.rep == 'seq':
                return self.eq_seq(a.data, b.data)
            return 'unknown', 'representations %s/%s' % (a.rep, b.rep), ''
        if isinstance(a, PyList) and isinstance(b, PyList):
            return self.eq_seq(a.seq, b.seq)
        if a is None or b is None or isinstance(a, str):
            return ('proved' if a == b else 'refuted'), '', 'syntactic'
        return 'unknown', 'incomparable %r %r' % (type(a), type(b)), ''

    def eq_seq(self, a, b):
        if not self.dim_eq(a.length(), b.length()):
            r = smt.check(self.pc, T.eq(a.length(), b.length()))
            return self.model_of(r, T.eq(a.length(), b.length())), 'length %s vs %s' % (a.length(), b.length()), 'z3'
        i = T.fresh('i', T.INT)

        def th():
            self.assume(T.le(0, i))
            self.assume(T.lt(i, a.length()))
            return self.eq_val(a.get(i, self), b.get(i, self))
        for o in self.explore(th):
            if o.exc:
                return 'unknown', str(o.exc), ''
            if o.result[0] != 'proved':
                return o.result
        return 'proved', 'pointwise', 'composite'

    def check_eq(self, a, b, label, kind='post'):
        st = self.eq_val(a, b)
        self.obl(label, st[0], st[1], kind, st[2])
        return st[0]

    # ------------------------------------------------------------ modules
    def load(self, name):
        """load parallel_control.<name> (or dotted) from the repo"""
        if name in self.modules:
            return self.modules[name]
        path = os.path.join(REPO, *name.split('.')) + '.py'
        if not os.path.exists(path):
            raise Unsupported('module ' + name)
        with open(path) as f:
            src = f.read()
        tree = ast.parse(src, path)
        fr = Frame(None, name)
        m = ModVal(name, fr)
        m.path = path
        self.modules[name] = m
        it = Interp(self, m)
        it.exec_body(tree.body, fr)
        return m

    def func(self, module, qual):
        m = self.load(module)
        parts = qual.split('.')
        v = m.g.vars[parts[0]]
        for p in parts[1:]:
            v = v.find(p)
        if v is None:
            raise Unsupported('no function %s in %s' % (qual, module))
        return v

    def call(self, f, args, kwargs=None):
        return Interp(self, None).call(f, list(args), dict(kwargs or {}))


def scalar_arr(t):
    return Arr('mat', (), N.scale_term(N.Poly({N.ONE: 1}, (T.const(1), T.const(1))), T.toreal(t)))


class Spec:
    """defining equations of a spec sequence of matrices.
    define(eng, *idx) -> Poly (or None when no case applies on this path)"""

    def __init__(self, name, shape, define, sym=False, recursive=False, pred=None, family=(), base=None):
        self.name, self.shape, self.define, self.sym = name, shape, define, sym
        self.base = base        # base(eng, *idx) -> Poly for initial indices (None when not initial on this path)
        self.recursive, self._pred = recursive, pred
        self.family = family or (name,)

    def pred(self, idx):
        return self._pred(*idx)

    def unfold(self, eng, idx):
        if self.base is not None:
            b = self.base(eng, *idx)
            if b is not None:
                return b
        return self.define(eng, *idx)

    def at(self, *idx):
        return N.of_atom(N.atom(self.name, mat_shape(tuple(T.L(s) for s in self.shape)), tuple(T.L(i) for i in idx), self.sym))

    def arr(self, *idx):
        return Arr('mat', tuple(T.L(s) for s in self.shape), self.at(*idx))


class Template:
    """candidate closed form for a loop-carried value: fn(i)->value, with the index values to try initially"""

    def __init__(self, name, fn, starts, dirs=(1, -1)):
        self.name, self.fn, self.starts, self.dirs = name, fn, starts, dirs


from .exec import Interp  # noqa: E402

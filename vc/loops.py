"""Loops with symbolic trip count: invariant inference from contract templates, summaries."""
import ast
import os
from . import terms as T
from . import ncalg as N
from . import smt
from .values import *
from . import values as V
from . import arrops as A
from .exec import lower, term, NeedCarried


def _I():
    from . import interp
    return interp


class Cell:
    """a mutable location: (object, key)"""

    def __init__(self, obj, key):
        self.obj, self.key = obj, key
        self.k = (id(obj), key)

    def __hash__(self):
        return hash(self.k)

    def __eq__(self, o):
        return self.k == o.k

    def get(self):
        o = self.obj
        if isinstance(o, Frame):
            return o.vars.get(self.key, MISSING)
        if isinstance(o, Obj):
            return o.f.get(self.key, MISSING)
        if isinstance(o, PyDict):
            return o.d.get(self.key, MISSING)
        if isinstance(o, PyList):
            return o.seq
        if isinstance(o, Arr):
            return (o.rep, o.data)

    def set(self, v):
        o = self.obj
        if isinstance(o, (Frame, Obj, PyDict)):
            d = o.vars if isinstance(o, Frame) else (o.f if isinstance(o, Obj) else o.d)
            if v is MISSING:
                d.pop(self.key, None)
            else:
                d[self.key] = v
        elif isinstance(o, PyList):
            o.seq = v
        elif isinstance(o, Arr):
            o.set(v[0], v[1])

    def __repr__(self):
        return '%s.%s' % (type(self.obj).__name__, self.key)


import itertools
_hc = itertools.count(1)
DBG = os.environ.get('VC_DEBUG')


class _Missing:
    def __repr__(self):
        return 'MISSING'


MISSING = _Missing()


def same(a, b):
    if a is b:
        return True
    if isinstance(a, Seq) and isinstance(b, Seq):
        return a is b or (len(a.segs) == len(b.segs) and all(x is y or (x.items is not None and y.items is not None and
                          len(x.items) == len(y.items) and all(same(p, q) for p, q in zip(x.items, y.items)))
                          for x, y in zip(a.segs, b.segs)))
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return all(same(x, y) for x, y in zip(a, b))
    if type(a) is type(b) and isinstance(a, (int, str)) or (isinstance(a, (int,)) and isinstance(b, int)):
        return a == b
    from fractions import Fraction
    if isinstance(a, Fraction) and isinstance(b, Fraction):
        return a == b
    return False


def heap_cells(eng, snap):
    """changed cells between snapshot `snap` (list of (obj, state)) and now"""
    out = []
    for o, st in snap[0]:
        if isinstance(o, Frame):
            for k in set(st) | set(o.vars):
                if not same(st.get(k, MISSING), o.vars.get(k, MISSING)):
                    out.append(Cell(o, k))
        elif isinstance(o, Obj):
            for k in set(st) | set(o.f):
                if not same(st.get(k, MISSING), o.f.get(k, MISSING)):
                    out.append(Cell(o, k))
        elif isinstance(o, PyDict):
            for k in set(st) | set(o.d):
                if not same(st.get(k, MISSING), o.d.get(k, MISSING)):
                    out.append(Cell(o, k))
        elif isinstance(o, PyList):
            if not same(st, o.seq):
                out.append(Cell(o, 'seq'))
        elif isinstance(o, Arr):
            if st[4] != o.version and not (st[0] == o.rep0 and st[2] is o.data0):
                if o.base is None:
                    out.append(Cell(o, 'data'))
    return out


# ------------------------------------------------------------------ list element writes
def list_write(it, l, ix, v):
    e = it.e
    n = l.seq.length()
    i = it.norm_index(ix, n)
    c = l.seq.concrete()
    if c is not None and T.is_const(i):
        k = int(T.cval(i))
        if not 0 <= k < len(c):
            raise PyRaise('IndexError', 'list assignment index out of range')
        c = list(c)
        c[k] = v
        l.seq = Seq([Seg(items=c)])
        return
    if not e.entails(T.and_(T.le(0, i), T.lt(i, n))):
        if not e.branch(T.and_(T.le(0, i), T.lt(i, n))):
            raise PyRaise('IndexError', 'list assignment index out of range')
    old = l.seq
    l.seq = Seq([WSeg(e, n, old, i, v)])


class WSeg(Seg):
    """old sequence with element w overwritten"""
    __slots__ = ('old', 'w', 'v', 'e')

    def __init__(self, e, n, old, w, v):
        self.e, self.old, self.w, self.v = e, old, w, v
        Seg.__init__(self, n, self.get)

    def get(self, i):
        if self.e.branch(T.eq(i, self.w)):
            return self.v
        return self.old.get(i, self.e)


class OpaqueSeq(Seq):
    """havocked content of a list inside a loop: elements must not be read"""


# ------------------------------------------------------------------ opaque carried values
def opaque_like(v, name, idx, e):
    """fresh value of the same type/shape, a function of the index terms idx"""
    if isinstance(v, bool):
        return T.app(name, idx, T.BOOL)
    if isinstance(v, int):
        return T.app(name, idx, T.INT)
    from fractions import Fraction
    if isinstance(v, Fraction):
        return T.app(name, idx, T.REAL)
    if isinstance(v, T.Term):
        return T.app(name, idx, v.sort)
    if isinstance(v, Arr):
        if v.rep == 'mat':
            sym = False
            if v.ndim == 2 and v.shape[0] is v.shape[1]:
                d = N.add(v.data, N.transpose(v.data), -1)
                if d.is_zero():
                    sym = True
            return Arr('mat', v.shape, N.of_atom(N.atom(name + ('s' if sym else ''), mat_shape(v.shape), idx, sym)), v.dtype, v.lib)
        if v.rep == 'blk':
            b = v.data
            ent = [[N.of_atom(N.atom('%s_%d_%d' % (name, p, q), x.shape, idx)) for q, x in enumerate(row)] for p, row in enumerate(b.ent)]
            return Arr('blk', v.shape, A.Block(b.rows, b.cols, ent), v.dtype, v.lib)
        if v.rep == 'fn':
            nd = v.ndim
            s = v.data(*[T.fresh('o', T.INT) for _ in range(nd)]).sort
            if v.dtype == 'f':
                s = T.REAL
            return Arr('fn', v.shape, lambda *k: T.app(name, tuple(idx) + k, s), v.dtype, v.lib)
        if v.rep == 'seq':
            x = next((sg.items[0] if sg.items else sg.fn(T.fresh('o', T.INT)) for sg in v.data.segs if sg.items is None or sg.items), None)
            if isinstance(x, Arr):
                return Arr('seq', v.shape, Seq([Seg(v.shape[0], lambda i: opaque_like(x, name, tuple(idx) + (i,), e))]), v.dtype, v.lib)
    if isinstance(v, tuple):
        return tuple(opaque_like(x, '%s.%d' % (name, k), idx, e) for k, x in enumerate(v))
    return Poison(name)


def typed(v):
    return isinstance(v, (int, T.Term, Arr)) or type(v).__name__ == 'Fraction' or \
        (isinstance(v, tuple) and all(typed(x) for x in v))


# ------------------------------------------------------------------ main entry
class LoopBody:
    def __init__(self, it, s, fr):
        self.it, self.s, self.fr = it, s, fr

    def run(self, j, item):
        it, s, fr = self.it, self.s, self.fr
        if item is not None:
            it.assign(s.target, lower(item(j)), fr)
        try:
            it.exec_body(s.body, fr)
        except _I().ContinueExc:
            pass
        except _I().BreakExc:
            raise Unsupported('break in a loop of symbolic length')
        except _I().ReturnExc:
            raise Unsupported('return inside a loop of symbolic length')


def sym_for(it, seg, s, fr, off=T.const(0)):
    body = LoopBody(it, s, fr)
    summarize(it.e, seg.n, lambda j: body.run(j, seg.fn), 'for@%d' % s.lineno, off=off)


def target_names(t):
    return {n.id for n in ast.walk(t) if isinstance(n, ast.Name)}


def split_tuple_templates(e, v, j0, tag):
    pass


class Recount(Exception):
    """the number of elements appended per iteration, assumed when the loop body reads the length of a list, was wrong"""


def summarize(e, n, run, label, final=None, off=T.const(0)):
    """execute `for j in range(n): run(j)` symbolically for symbolic n >= 0, leaving the heap in the final state.

    A list extended in the loop has length len(init) + m*j at iteration j, where m is guessed (1), checked against every path of the body
    and corrected; when there is no uniform m the length is an unknown non-negative number."""
    counts = {}
    for _ in range(4):
        snap, sav = e.snapshot(), (list(e.pc), list(e.facts), list(e.eqs), len(e.solves))
        try:
            return summarize_with(e, n, run, label, counts, off)
        except Recount:
            e.restore(snap)
            e.pc, e.facts, e.eqs = sav[0], sav[1], sav[2]
            del e.solves[sav[3]:]
    raise Unsupported('number of list elements appended per iteration')


def check_counts(e, cl, inits, outs, counts, j):
    redo = False
    for c in cl:
        if not (isinstance(c.obj, PyList) and isinstance(inits[c], Seq)):
            continue
        got = set()
        for o in outs:
            if o.exc is not None or not isinstance(o.result, dict) or not isinstance(o.result.get(c), Seq):
                continue
            segs = o.result[c].segs
            k = [q for q, sg in enumerate(segs) if isinstance(sg, SumSeg) and sg.j is j]
            if not k:
                continue       # written element by element, or rebuilt: handled (or rejected) elsewhere
            m = T.const(0)
            for sg in segs[k[-1] + 1:]:
                m = T.add(m, sg.n)
            got.add(m)
        if not got:
            continue
        m = got.pop() if len(got) == 1 else None
        if m is not None and j in T.free_vars(m):
            m = None
        if counts.get(c.obj, T.const(1)) is not m:
            counts[c.obj] = m
            redo = True
    if redo:
        raise Recount()


class SumSeg(Seg):
    """the unreadable elements appended to a list by iterations 0..j-1"""
    __slots__ = ('j',)


def summarize_with(e, n, run, label, counts, off=T.const(0)):
    n = T.L(n)
    if e.entails(T.le(n, 0)):
        return
    snap = e.snapshot()
    j = T.fresh('j', T.INT)
    e.facts.append(T.implies(T.lt(0, n), T.and_(T.le(0, j), T.lt(j, n))))
    run0 = run

    def run(jj):
        e.loop_stack.append((T.add(off, jj), n))
        try:
            return run0(jj)
        finally:
            e.loop_stack.pop()
    if e.loop_facts:
        e.facts += [T.implies(T.and_(T.le(0, j), T.lt(j, n)), x) for x in e.loop_facts(j, n)]

    # ---- 1. discover the modified cells
    cells = {}

    def havoc(mode):
        for c, (init, val) in mode.items():
            c.set(val(j) if callable(val) else val)

    def poison_all():
        m = {}
        for c, init in cells.items():
            m[c] = (init, default_havoc(e, c, init, j, counts))
        return m

    for _ in range(12):
        found = []

        def th():
            e.assume(T.le(0, j))
            e.assume(T.lt(j, n))
            havoc(poison_all())
            s0 = e.snapshot()
            try:
                run(j)
            except NeedCarried as x:
                return ('need', x.p, heap_cells(e, s0))
            return ('ok', None, heap_cells(e, s0))
        e.mute += 1
        try:
            outs = e.explore(th)
        finally:
            e.mute -= 1
        new = False
        for o in outs:
            if o.exc is not None:
                continue
            for c in o.result[2]:
                if c not in cells:
                    if c.obj in [x for x, _ in snap[0]]:
                        cells[c] = c.get()
                        new = True
        if not new:
            need = [o.result[1] for o in outs if o.exc is None and o.result[0] == 'need']
            if need:
                raise NeedCarried(need[0])
            break
    else:
        raise Unsupported('loop frame did not stabilise')

    cl = list(cells)
    inits = {c: cells[c] for c in cl}

    # ---- 2. candidates, one list per leaf (a leaf is a scalar/array component of the carried value)
    cands = {}
    for c in cl:
        for pth, v in leaves(c, inits[c]):
            cands[(c, pth)] = leaf_candidates(e, c, v, n, pth, counts)
    choice = {lf: 0 for lf in cands}

    def leaf_value(lf, jj):
        return cands[lf][choice[lf]][1](jj)

    def value(c, jj):
        def build(v, pth):
            if isinstance(v, tuple) and (c, pth) not in cands:
                return tuple(build(x, pth + (k,)) for k, x in enumerate(v))
            return leaf_value((c, pth), jj)
        return build(inits[c], ())

    def leaf_of(c, v, pth):
        for k in pth:
            if not isinstance(v, tuple) or k >= len(v):
                return Poison('structure')
            v = v[k]
        return v

    ambiguous = [lf for lf in cands if sum(k[2] == 'tmpl' and k[0] != 'const' for k in cands[lf]) > 1]
    if ambiguous:
        first_step(e, run, n, cl, cands, inits, leaf_of)
    if ambiguous and e.rkfam:
        hints(e, run, j, n, cl, cands, inits)

    def infer(choice, pinned=()):
        """weakest-first iteration: advance every leaf whose current candidate is not maintained.  A pinned leaf must stay where it
        is (None: not maintained); Unsupported when a leaf runs out of candidates."""
        for rnd in range(400):
            fails = set()

            def th():
                e.assume(T.le(0, j))
                e.assume(T.lt(j, n))
                start = {}
                for c in cl:
                    start[c] = value(c, j)
                    c.set(start[c])
                held = [(v, v.seq) for v in start.values() if isinstance(v, PyList)]
                try:
                    run(j)
                except NeedCarried as x:
                    hit = False
                    for (c, pth) in cands:
                        if leaf_of(c, start[c], pth) is x.p:
                            fails.add((c, pth))
                            hit = True
                    if not hit:
                        raise
                    return None
                if any(v.seq is not sq for v, sq in held):
                    raise Unsupported('a loop-carried list is changed in place')
                after = {c: freeze(c.get(), inits[c]) for c in cl}
                j1 = T.add(j, 1)
                for (c, pth) in cands:
                    lf = (c, pth)
                    kind = cands[lf][choice[lf]][2]
                    if kind == 'free':
                        continue
                    av = leaf_of(c, after[c], pth)
                    if kind == 'havoc':
                        if not same_type(e, av, leaf_value(lf, j1)):
                            fails.add(lf)
                    elif not matches(e, c, av, leaf_value(lf, j1)):
                        fails.add(lf)
                return after
            e.mute += 1
            e.mismatch = 0
            try:
                outs = e.explore(th)
            finally:
                e.mute -= 1
            if DBG:
                print('[round]', label, {(lf[0].key, lf[1]): cands[lf][choice[lf]][0] for lf in cands}, 'fails', [lf[0].key for lf in fails])
            if not fails:
                return th, outs, e.mismatch
            if all(lf in pinned for lf in fails):
                return None
            for lf in fails:
                if lf in pinned:
                    continue
                if choice[lf] + 1 >= len(cands[lf]):
                    raise Unsupported('loop-carried value %s is not described by any template' % lf[0].key)
                choice[lf] += 1
        raise Unsupported('invariant inference did not converge')

    def stuck():
        return [lf for lf in ambiguous if cands[lf][choice[lf]][2] == 'havoc']
    first = None
    try:
        got = infer(choice)
    except Unsupported as x:
        if not ambiguous:
            raise
        first = x
    if ambiguous and (first is not None or stuck() or got[2]):
        # several templates have the same initial value (e.g. zero): try the joint assignments, distinct ones first
        sav = dict(choice)
        lst = ambiguous if first is not None or got[2] else stuck()
        best = (got, sav) if first is None and not stuck() else None
        opts = [[k for k, x in enumerate(cands[lf]) if x[2] == 'tmpl' and x[0] != 'const'] for lf in lst]
        combos = sorted(itertools.islice(itertools.product(*opts), 64), key=lambda cmb: len(cmb) - len({cands[lf][k][0] for lf, k in zip(lst, cmb)}))
        for cmb in combos[:24]:
            choice.update({lf: 0 for lf in cands})
            choice.update(dict(zip(lst, cmb)))
            try:
                got = infer(choice, set(lst))
            except Unsupported:
                got = None
            if got is not None and (best is None or got[2] < best[0][2]):
                best = (got, dict(choice))
                if not got[2]:
                    break
        choice.clear()
        if best is not None:
            got = best[0]
            choice.update(best[1])
        elif first is not None:
            raise first
        else:
            choice.update(sav)
            got = infer(choice)
    th, outs = got[:2]
    check_counts(e, cl, inits, outs, counts, j)

    # ---- record obligations of the loop body under the final invariants
    if not e.mute:
        outs = e.explore(th)
    # feasible exceptional exits
    raising = [o for o in outs if o.exc is not None]
    normal = [o for o in outs if o.exc is None]
    if raising:
        jr = T.fresh('jr', T.INT)
        for o in raising:
            cond = T.subst(T.and_(*o.conds), {j: jr})
            flag = T.fresh('raises', T.BOOL)
            if e.branch(flag):
                e.assume(T.le(0, jr))
                e.assume(T.lt(jr, n))
                e.assume(cond)
                raise o.exc
            # no iteration raises (instantiated where needed)
            allc = T.and_(*o.conds)
            e.facts.append(T.binder('forall', n, lambda u: T.not_(T.subst(allc, {j: u}))))
            e.facts.append(T.implies(T.lt(0, n), T.not_(T.subst(allc, {j: T.const(0)}))))
    if not normal:
        if raising and e.entails(T.lt(0, n)):
            raise PathEnd()        # the first iteration raises
        raise Unsupported('loop body never completes')
    for lf in cands:
        if cands[lf][choice[lf]][2] == 'tmpl':
            e.obl('loop invariant %s: %s%s == %s' % (label, lf[0].key, list(lf[1]) or '', cands[lf][choice[lf]][0]),
                  'proved', '', 'invariant', 'template')

    # ---- fold: list items that are the new value of a carried leaf are rewritten to the invariant at j+1
    j1 = T.add(j, 1)
    for o in normal:
        known = {}
        for (c, pth) in cands:
            if cands[(c, pth)][choice[(c, pth)]][2] == 'tmpl':
                v = leaf_of(c, o.result[c], pth)
                if isinstance(v, (Arr, T.Term)) and not (isinstance(v, T.Term) and v.op == 'const'):
                    known[id(v)] = (v, leaf_value((c, pth), j1))

        def fold(v):
            if isinstance(v, tuple):
                return tuple(fold(x) for x in v)
            if id(v) in known and known[id(v)][0] is v:
                return known[id(v)][1]
            return v
        if known:
            for c in cl:
                if isinstance(c.obj, PyList) and isinstance(o.result[c], Seq) and o.result[c].segs and \
                        o.result[c].segs[-1].items is not None:
                    sg = list(o.result[c].segs)
                    sg[-1] = Seg(items=[fold(x) for x in sg[-1].items])
                    o.result[c] = Seq(sg)

    # ---- 3. final state
    finals = {}
    for c in cl:
        finals[c] = final_value(e, c, inits[c], cands, choice, value, leaf_value, leaf_of, normal, j, n)
    known = {}
    for (c, pth) in cands:
        if cands[(c, pth)][choice[(c, pth)]][2] == 'tmpl' and isinstance(leaf_of(c, inits[c], pth), Arr):
            v = leaf_of(c, inits[c], pth)
            known[id(v)] = (v, leaf_value((c, pth), T.const(0)))

    def fold0(v):
        if isinstance(v, tuple):
            return tuple(fold0(x) for x in v)
        if id(v) in known and known[id(v)][0] is v:
            return known[id(v)][1]
        return v
    for c in cl:
        f = finals[c]
        if known and isinstance(c.obj, PyList) and isinstance(f, Seq):
            f = Seq([Seg(items=[fold0(x) for x in sg.items]) if sg.items is not None else sg for sg in f.segs])
        c.set(f)


def hints(e, run, j, n, cl, cands, inits):
    """one muted round with every carried value unknown: call contracts may tell which template a value follows; those are tried first"""
    hv = {}
    for lf in cands:
        h = [x for x in cands[lf] if x[2] == 'havoc']
        hv[lf] = h[0][1](j) if h else cands[lf][0][1](j)

    def build(c, v, pth):
        if isinstance(v, tuple) and (c, pth) not in cands:
            return tuple(build(c, x, pth + (k,)) for k, x in enumerate(v))
        return hv[(c, pth)]

    def th():
        e.assume(T.le(0, j))
        e.assume(T.lt(j, n))
        for c in cl:
            c.set(build(c, inits[c], ()))
        try:
            run(j)
        except NeedCarried:
            pass
    sav, e.suggest = e.suggest, {}
    e.mute += 1
    try:
        e.explore(th)
    except Unsupported:
        pass
    finally:
        e.mute -= 1
        got, e.suggest = e.suggest, sav
    for lf in cands:
        a = hv[lf]
        if isinstance(a, Arr) and a.rep == 'mat' and len(a.data.d) == 1:
            (mon, _), = a.data.d.items()
            w = got.get(mon[1][0].name) if len(mon[1]) == 1 else None
            if w:
                cs = cands[lf]
                cands[lf] = [x for x in cs if x[2] == 'free'] + [x for x in cs if x[2] == 'tmpl' and x[0].startswith(w + '(')] + \
                            [x for x in cs if x[2] != 'free' and not (x[2] == 'tmpl' and x[0].startswith(w + '('))]


def first_step(e, run, n, cl, cands, inits, leaf_of):
    """order the templates of every leaf: those that also describe the value after the first iteration come first (a hint only)"""
    score = {}

    def th():
        e.assume(T.lt(0, n))
        for c in cl:
            c.set(inits[c])
        try:
            run(T.const(0))
        except NeedCarried:
            return
        after = {c: c.get() for c in cl}
        for (c, pth) in cands:
            av = leaf_of(c, after[c], pth)
            for k, (d, f, kind) in enumerate(cands[(c, pth)]):
                if kind == 'tmpl':
                    try:
                        ok = matches(e, c, av, f(T.const(1)))
                    except Unsupported:
                        ok = False
                    score.setdefault((c, pth, k), []).append(ok)
    e.mute += 1
    try:
        e.explore(th)
    except Unsupported:
        return
    finally:
        e.mute -= 1
    for (c, pth), cs in list(cands.items()):
        good = [k for k in range(len(cs)) if all(score.get((c, pth, k), [False]))]
        order = [k for k in range(len(cs)) if cs[k][2] == 'free'] + good
        cands[(c, pth)] = [cs[k] for k in order + [k for k in range(len(cs)) if k not in order]]


def leaves(c, v, pth=()):
    if isinstance(v, tuple) and v and not isinstance(c.obj, Arr):
        out = []
        for k, x in enumerate(v):
            out += leaves(c, x, pth + (k,))
        return out
    return [(pth, v)]


def leaf_candidates(e, c, v, n, pth, counts):
    """list of (description, fn(j), kind); kind: free (unread content) | tmpl (invariant to be maintained) |
    havoc (typed unknown)"""
    if isinstance(v, Seq):
        return [('summary', lambda jj: SummarySeq(e, v, jj, counts.get(c.obj, T.const(1))), 'free')]
    if isinstance(c.obj, Arr) and c.key == 'data':
        out = [(d, f, 'tmpl') for d, f in candidates(e, c, v, n)]
        out.append(('content', lambda jj: default_havoc(e, c, v, jj, counts), 'free'))
        return out
    poi = Poison('%s%s' % (c.key, list(pth) or ''))
    out = [('unread', lambda jj: poi, 'free')]
    if isinstance(v, PyList):
        # a list that is replaced as a whole in every iteration (never changed in place, see `infer`)
        return out + [(d, f, 'tmpl') for d, f in value_candidates(e, v, n)]
    if v is MISSING or v is None or not typed(v):
        return out
    out += [(d, f, 'tmpl') for d, f in value_candidates(e, v, n)]
    nm = 'cv_%s_%s_%d' % (c.key, '_'.join(map(str, pth)), next(_hc))
    if not isinstance(v, int):
        out.append(('typed unknown', lambda jj: opaque_like(v, nm, (T.L(jj),), e), 'havoc'))
        if isinstance(v, Arr) and v.rep == 'mat' and v.ndim == 2:
            out.append(('typed unknown, not symmetric', lambda jj: mat_atom(nm + 'g', v.shape, (T.L(jj),), lib=v.lib), 'havoc'))
    return out


def same_type(e, a, b):
    if isinstance(b, Arr):
        if not isinstance(a, Arr) or a.ndim != b.ndim or a.rep != b.rep:
            return False
        if not all(e.dim_eq(x, y) for x, y in zip(a.shape, b.shape)):
            return False
        if b.rep == 'mat' and b.ndim == 2 and N.add(b.data, N.transpose(b.data), -1).is_zero():
            return e._prove_zero(N.add(a.data, N.transpose(a.data), -1), [q for _, q in e.eqs], 6.0)[0] == 'proved'
        return True
    if isinstance(b, T.Term):
        return isinstance(a, (T.Term, int)) or type(a).__name__ == 'Fraction'
    return False


def need_err(p):
    return Unsupported('loop-carried value %s is not described by any template' % p.name)


def default_havoc(e, c, init, jj, counts):
    if isinstance(init, Seq):
        return SummarySeq(e, init, jj, counts.get(c.obj, T.const(1)))
    if isinstance(c.obj, Arr):
        # array content: opaque entrywise function of the iteration
        a = c.obj
        nm = 'arr%d' % a.uid
        if a.rep0 == 'fn' or (a.rep0 == 'mat' and a.data0.is_zero()):
            s = T.REAL if a.dtype == 'f' or a.dtype not in ('i', 'b') else (T.INT if a.dtype == 'i' else T.BOOL)
            return ('fn', lambda *k: T.app(nm, (jj,) + k, s))
        if a.rep0 == 'mat':
            return ('mat', N.of_atom(N.atom(nm, a.data0.shape, (jj,))))
        return ('fn', Poison('array'))
    if isinstance(init, PyList):
        # a list replaced as a whole: for the discovery of modified cells, unknown entries of the type of the initial ones
        x = next((sg.items[0] if sg.items else sg.fn(T.fresh('o', T.INT)) for sg in init.seq.segs if sg.items is None or sg.items), None)
        if x is not None and typed(x):
            nm = 'cv_%s_%d' % (c.key, abs(hash(c)) % 100000)
            return PyList(Seq([Seg(init.seq.length(), lambda i: opaque_like(x, nm, (T.L(jj), i), e))]))
        return Poison(str(c.key))
    if init is MISSING or init is None or not typed(init):
        return Poison(str(c.key))
    return opaque_like(init, 'cv_%s_%d' % (c.key, abs(hash(c)) % 100000), (T.L(jj),), e)


class SummarySeq(Seq):
    """content of a list that is only extended in a loop: init ++ (unreadable elements of iterations 0..j-1)"""

    def __init__(self, e, init, j, m):
        self.init = init

        def fn(i):
            raise NeedCarried(Poison('list element'))
        if m is None:
            ln = T.app(T.fresh_name('cv_len'), (T.L(j),), T.INT)
            e.facts.append(T.le(0, ln))
        else:
            ln = T.mul(T.L(j), m)
        sg = SumSeg(ln, fn)
        sg.j = j
        Seq.__init__(self, list(init.segs) + [sg])
        self.base_segs = list(self.segs)


def candidates(e, c, init, n):
    """list of (description, fn(j)->value) whose value at j=0 equals init"""
    out = []
    if isinstance(c.obj, Arr) and c.key == 'data':
        a = c.obj
        iv = Arr(init[0], a.shape, init[1], a.dtype, a.lib)
        for d, f in value_candidates(e, iv, n):
            out.append((d, lambda jj, f=f: (lambda v: (v.rep, v.data))(f(jj))))
        return out
    if isinstance(init, Seq):
        return list_candidates(e, init, n)
    if init is MISSING or init is None:
        return out
    if isinstance(init, (T.Term, Arr, int, tuple)) or type(init).__name__ == 'Fraction':
        return value_candidates(e, init, n)
    return out


def value_candidates(e, init, n):
    out = []
    if isinstance(init, bool):
        return [('const', lambda jj: init), ('first', lambda jj: T.eq(jj, 0) if init else T.not_(T.eq(jj, 0)))]
    if isinstance(init, int) or (isinstance(init, T.Term) and init.sort == T.INT):
        out.append(('const', lambda jj: init))
        for s in (1, -1):
            out.append(('linear%+d' % s, lambda jj, s=s: lower(T.add(term(init), T.mul(T.const(s), jj)))))
    elif isinstance(init, T.Term) or type(init).__name__ == 'Fraction':
        out.append(('const', lambda jj: init))
    elif isinstance(init, Arr):
        out.append(('const', lambda jj: init))
    for t in e.templates:
        for st in t.starts:
            st = T.L(st() if callable(st) else st)
            e.mute += 1
            try:
                try:
                    v0 = t.fn(st)
                except Unsupported:
                    continue
                if not compat(init, v0):
                    continue
                ok = e.eq_val(v0, init)[0] == 'proved'
            finally:
                e.mute -= 1
            if ok:
                for d in t.dirs:
                    out.append(('%s(%s%+d*j)' % (t.name, st, d),
                                lambda jj, t=t, st=st, d=d: conv(t.fn(T.add(st, T.mul(T.const(d), jj))), init)))
    return out


def conv(v, like):
    if isinstance(v, Arr) and isinstance(like, Arr) and v.lib != like.lib:
        return Arr(v.rep, v.shape, v.data, v.dtype, like.lib)
    return v


def compat(a, b):
    if isinstance(a, Arr) and isinstance(b, Arr):
        if a.ndim != b.ndim:
            return False
        if a.rep == b.rep:
            return True
        return False
    if isinstance(a, (int, T.Term)) and isinstance(b, (int, T.Term)):
        return True
    return type(a) is type(b) and not isinstance(a, Arr)


def list_candidates(e, init, n):
    """lists whose elements are read inside the loop: content described by a template"""
    return []


def matches(e, c, after, want):
    if isinstance(c.obj, Arr) and c.key == 'data':
        a = c.obj
        x = Arr(after[0], a.shape, after[1], a.dtype, a.lib)
        y = Arr(want[0], a.shape, want[1], a.dtype, a.lib)
        return e.eq_val(x, y)[0] == 'proved'
    if isinstance(after, (_Missing, Poison)):
        return False
    r = e.eq_val(after, want)
    if DBG and r[0] != 'proved':
        print('[match]', c, r)
    return r[0] == 'proved'


def final_value(e, c, init, cands, choice, value, leaf_value, leaf_of, normal, j, n):
    obj = c.obj
    if isinstance(obj, PyList):
        return list_final(e, c, init, normal, j, n)
    if isinstance(obj, Arr) and c.key == 'data':
        if cands[(c, ())][choice[(c, ())]][2] != 'free':
            return value(c, n)
        return arr_final(e, c, init, normal, j, n)
    lfs = leaves(c, init)
    kinds = {p: cands[(c, p)][choice[(c, p)]][2] for p, _ in lfs}
    if all(k != 'free' for k in kinds.values()):
        return value(c, n)
    jn = T.sub(n, 1)

    def last(pth):
        for o in normal[:-1]:
            cond = T.subst(T.and_(*o.conds), {j: jn})
            if e.branch(cond):
                return fin(o.result[c], pth)
        return fin(normal[-1].result[c], pth)

    def fin(v, pth):
        v = leaf_of(c, v, pth) if pth is not None else v
        if has_bad(v):
            return Poison(str(c.key))
        return subst_val(v, {j: jn})
    if all(k == 'free' for k in kinds.values()):
        vs = [fin(o.result[c], None) for o in normal]
        if all(same(v, vs[0]) for v in vs[1:]) and e.entails(T.lt(0, n)):
            return vs[0]

        def force():
            if not e.branch(T.lt(0, n)):
                return init
            return last(None)
        return Lazy(force) if isinstance(obj, Frame) else force()

    def build(v, pth):
        if isinstance(v, tuple) and v:
            return tuple(build(x, pth + (k,)) for k, x in enumerate(v))
        if kinds[pth] != 'free':
            return leaf_value((c, pth), n)
        if not e.branch(T.lt(0, n)):
            return v
        return last(pth)
    return build(init, ())


def freeze(v, init):
    """a variable first bound inside the loop to a list made there: keep its content at the end of the iteration"""
    if init is MISSING and isinstance(v, PyList) and not has_items_bad(v.seq):
        return LastList(v.seq)
    return v


def has_items_bad(s):
    return any(sg.items is not None and any(has_bad(x) for x in sg.items) for sg in s.segs)


def has_bad(v):
    if isinstance(v, tuple):
        return any(has_bad(x) for x in v)
    return isinstance(v, (_Missing, Poison, Lazy, Obj, PyDict)) or isinstance(v, PyList) and not isinstance(v, LastList)


def list_final(e, c, init, normal, j, n):
    """append-only list: init ++ [elem(i) for i<n]; or list with one element overwritten per iteration"""
    exprs, ext = [], []
    for o in normal:
        sq = o.result[c]
        segs = sq.segs
        if len(segs) == 1 and isinstance(segs[0], WSeg):
            return list_write_final(e, c, init, normal, j, n)
        # expected: init segs, opaque seg, then items
        k = None
        for q, sg in enumerate(segs):
            if isinstance(sg, SumSeg) and sg.j is j:
                k = q
        if k is None:
            raise Unsupported('list is rebuilt inside a loop')
        if not same(Seq(segs[:k]), Seq(list(init.segs))) and not all(x is y for x, y in zip(segs[:k], init.segs)):
            raise Unsupported('list prefix changed inside a loop')
        items = []
        rest = [sg for sg in segs[k + 1:] if sg.items is None or sg.items]
        if any(sg.items is None for sg in rest):
            if len(rest) != 1 or j in T.free_vars(rest[0].n):
                raise Unsupported('symbolic extension inside a loop')
            ext.append((o.conds, rest[0]))
            continue
        for sg in segs[k + 1:]:
            items += sg.items
        exprs.append((o.conds, items))
    if ext:
        if exprs or any(sg.n is not ext[0][1].n and not e.entails(T.eq(sg.n, ext[0][1].n)) for _, sg in ext):
            raise Unsupported('symbolic extension inside a loop')

        def nfn(kk, ii):
            for conds, sg in ext[:-1]:
                if e.branch(T.subst(T.and_(*conds), {j: kk})):
                    return subst_val(sg.fn(ii), {j: kk})
            return subst_val(ext[-1][1].fn(ii), {j: kk})
        return Seq(list(init.segs) + [NSeg(e, n, ext[0][1].n, nfn)])
    cnts = {len(x[1]) for x in exprs}
    if cnts == {0}:
        return init
    if len(cnts) == 1 and cnts != {1}:
        m = cnts.pop()

        def mfn(kk, ii):
            for conds, items in exprs:
                if len(exprs) == 1 or conds is exprs[-1][0] or e.branch(T.subst(T.and_(*conds), {j: kk})):
                    for q in range(m - 1):
                        if e.branch(T.eq(ii, q)):
                            return subst_val(items[q], {j: kk})
                    return subst_val(items[m - 1], {j: kk})
        return Seq(list(init.segs) + [NSeg(e, n, m, mfn)])
    if not cnts <= {0, 1}:
        raise Unsupported('several appends per iteration')
    lo, hi = T.const(0), n
    if 0 in cnts:
        lo, hi = append_range(e, exprs, j, n)
    ap = [x for x in exprs if x[1]]

    def fn(i):
        jj = T.add(i, lo)
        for conds, items in ap[:-1]:
            cond = T.subst(T.and_(*conds), {j: jj})
            if e.branch(cond):
                return subst_val(items[0], {j: jj})
        return subst_val(ap[-1][1][0], {j: jj})
    ln = T.sub(hi, lo)
    if not e.entails(T.le(0, ln)):
        if not e.branch(T.le(0, ln)):
            return init
    return Seq(list(init.segs) + [Seg(ln, fn)])


def append_range(e, exprs, j, n):
    """the append happens exactly in iterations lo <= j < hi"""
    cond = T.or_(*[T.and_(*x[0]) for x in exprs if x[1]])
    pts = [T.const(0), n, T.const(1), T.sub(n, 1)] + [T.add(b, d) for b in write_offsets(e, cond, T.const(0), j, 1, n) for d in (0, 1)]
    rng = [T.le(0, j), T.lt(j, n)]
    for lo in pts:
        if not e.entails(T.le(0, lo)):
            continue
        for hi in pts:
            if not e.entails(T.le(hi, n)):
                continue
            g = T.eq(T.ite(cond, T.const(1), T.const(0)), T.ite(T.and_(T.le(lo, j), T.lt(j, hi)), T.const(1), T.const(0)))
            if g is T.TRUE or smt.check(e.hyps(g, *rng) + rng, g, 3000) == 'unsat':
                return lo, hi
    raise Unsupported('conditional append in a loop')


def list_write_final(e, c, init, normal, j, n):
    if len(normal) != 1:
        infos = []
    infos = []
    for o in normal:
        sq = o.result[c]
        if not (len(sq.segs) == 1 and isinstance(sq.segs[0], WSeg)):
            raise Unsupported('list written on some paths only')
        ws = sq.segs[0]
        if isinstance(ws.old, Seq) and len(ws.old.segs) == 1 and isinstance(ws.old.segs[0], WSeg):
            raise Unsupported('several writes per iteration')
        infos.append((o.conds, ws.w, ws.v))
    w0 = infos[0][1]
    # w = s*j + b
    p = T.sub(T.subst(w0, {j: T.const(1)}), T.subst(w0, {j: T.const(0)}))
    if not (T.is_const(p) and abs(T.cval(p)) == 1):
        raise Unsupported('list write index')
    s = int(T.cval(p))
    b = T.subst(w0, {j: T.const(0)})
    if T.add(T.mul(T.const(s), j), b) is not w0 or any(x[1] is not w0 for x in infos):
        raise Unsupported('list write index')
    N_ = init.length()

    def fn(i):
        jj = T.mul(T.const(s), T.sub(i, b))
        if e.branch(T.and_(T.le(0, jj), T.lt(jj, n))):
            for conds, _, v in infos[:-1]:
                if e.branch(T.subst(T.and_(*conds), {j: jj})):
                    return subst_val(v, {j: jj})
            return subst_val(infos[-1][2], {j: jj})
        return init.get(i, e)
    return Seq([Seg(N_, fn)])


def arr_final(e, c, init, normal, j, n):
    """array written entrywise: closed form when iteration j only touches entries with coordinate q == s*j+b"""
    a = c.obj
    nm = 'arr%d' % a.uid
    nd = a.ndim
    init_a = A.lift_fn(Arr(init[0], a.shape, init[1], a.dtype, a.lib))
    idx = [T.fresh('p', T.INT) for _ in range(nd)]
    # after-value as a term, with ite over paths
    val = None
    for o in reversed(normal):
        rep, data = o.result[c]
        av = A.lift_fn(Arr(rep, a.shape, data, a.dtype, a.lib)).data(*idx)
        cond = T.and_(*o.conds)
        val = av if val is None else T.ite(cond, av, val)
    rng = [T.le(0, j), T.lt(j, n)] + [T.le(0, x) for x in idx] + [T.lt(x, s) for x, s in zip(idx, a.shape)]
    prev_t = T.app(nm, (j,) + tuple(idx), val.sort)
    h = e.hyps(val, *rng) + rng
    for q in range(nd):
        for s in (1, -1):
            for b in write_offsets(e, val, j, idx[q], s, n):
                jj = T.mul(T.const(s), T.sub(idx[q], b))       # iteration that writes coordinate idx[q]
                # (1) untouched elsewhere
                g1 = T.implies(T.ne(j, jj), T.eq(val, prev_t))
                if smt.check(h, g1, 4000) != 'unsat':
                    continue
                # (2) the written value does not depend on other iterations' content: replace content by init
                v_at = replace_apps(val, nm, lambda args: init_a.data(*args[1:]))
                def other(args):
                    return T.ite(T.eq(T.mul(T.const(s), T.sub(args[1 + q], b)), j), init_a.data(*args[1:]),
                                 T.app(nm + 'x', args, val.sort))
                v_oth = replace_apps(val, nm, other)
                g2 = T.implies(T.eq(j, jj), T.eq(v_at, v_oth))
                if v_at is not v_oth and smt.check(h, g2, 4000) != 'unsat':
                    continue

                def g(*k, q=q, s=s, b=b, v_at=v_at):
                    jk = T.mul(T.const(s), T.sub(k[q], b))
                    m = {x: y for x, y in zip(idx, k)}
                    m[j] = jk
                    inr = T.and_(T.le(0, jk), T.lt(jk, n))
                    return T.ite(inr, T.subst(v_at, m), init_a.data(*k))
                return ('fn', g)
    if DBG:
        print('[arr]', T.show(val))
    r = scatter_extremum(e, val, nm, j, idx, n, init_a, h)
    if r is not None:
        return r
    raise Unsupported('array update in a loop has no closed form')


def scatter_extremum(e, val, nm, j, idx, n, init_a, h):
    """`if w(j) < a[loc(j)]: a[loc(j)] = w(j)` (or >): the final content is the extremum of the initial entry and of all
    w(j) with loc(j) = index.  Proved: the body is exactly a(idx) := extremum(a(idx), w) when G(j, idx)."""
    if val.sort != T.REAL and val.sort != T.INT:
        return None
    p = T.fresh('prev', val.sort)
    vp = replace_apps(val, nm, lambda args: p)
    # candidate written values: comparisons of p with something
    cmps = []

    def walk(t, seen=set()):
        if t.op in ('le', 'lt'):
            d = t.args[0]
            if p in T.free_vars(d):
                for sg in (1, -1):
                    w = T.add(p, T.mul(T.const(sg), d))
                    if p not in T.free_vars(w):
                        cmps.append((t, w))
        for ch in T.children(t):
            walk(ch)
    walk(vp)
    prev = T.app(nm, (j,) + tuple(idx), val.sort)
    for t, w in cmps:
        # the condition under which the write happens when the comparison is true / false
        for tv in (T.TRUE, T.FALSE):
            b = rep_term(vp, {t: tv, T.not_(t): T.not_(tv)})
            lv = []

            def leavesof(x, cond):
                if x.op == 'ite':
                    leavesof(x.args[1], cond + [x.args[0]])
                    leavesof(x.args[2], cond + [T.not_(x.args[0])])
                else:
                    lv.append((x, cond))
            leavesof(b, [])
            if len(lv) > 16 or any(x is not w and x is not p for x, _ in lv):
                continue
            G = T.or_(*[T.and_(*c) for x, c in lv if x is w])
            if G is T.FALSE or p in T.free_vars(G):
                continue
            for kind, c in (('min', T.lt(w, prev)), ('max', T.lt(prev, w))):
                goal = T.eq(val, T.ite(T.and_(G, c), w, prev))
                if goal is T.TRUE or smt.check(h, goal, 4000) == 'unsat':
                    def g(*k, G=G, w=w, kind=kind):
                        m = {x: y for x, y in zip(idx, k)}
                        i0 = init_a.data(*k)
                        r = T.binder(kind, n, lambda u: T.ite(T.subst(G, {**m, j: u}), T.subst(w, {**m, j: u}), i0))
                        ext = T.min2 if kind == 'min' else T.max2
                        return T.ite(T.le(1, n), ext(i0, r), i0) if not e.entails(T.le(1, n)) else ext(i0, r)
                    return ('fn', g)
    return None


def rep_term(t, m, cache=None):
    cache = {} if cache is None else cache
    r = cache.get(t)
    if r is None:
        if t in m:
            r = m[t]
        elif t.op in ('const', 'var', 'true', 'false') or t.op in T.BINDERS:
            r = t
        else:
            r = T.rebuild(t, lambda a: rep_term(a, m, cache))
        cache[t] = r
    return r


def write_offsets(e, val, j, x, s, n):
    """candidate b with x = s*j+b, read off equalities in val"""
    out = []
    seen = set()

    def walk(t):
        if t in seen:
            return
        seen.add(t)
        if t.op in ("eq", "le", "lt"):
            d = t.args[0]
            fv = T.free_vars(d)
            if j in fv and x in fv:
                for sg in (1, -1):
                    # d = 0  <=>  x - s*j - b = 0
                    p = T.mul(T.const(sg), d)
                    r = T.sub(T.sub(x, T.mul(T.const(s), j)), p)
                    if j not in T.free_vars(r) and x not in T.free_vars(r) and r not in out:
                        out.append(r)
        for ch in T.children(t):
            walk(ch)
    walk(val)
    if not out:
        out = [T.const(0)] if s == 1 else [T.sub(n, 1)]
    return out[:4]


def replace_apps(t, nm, f, cache=None):
    cache = {} if cache is None else cache
    r = cache.get(t)
    if r is not None:
        return r
    if t.op == 'app' and t.args[0] == nm:
        r = f(tuple(replace_apps(a, nm, f, cache) for a in t.args[1:]))
    elif t.op in T.BINDERS:
        v, n, body = t.args
        r = T.binder(t.op, replace_apps(n, nm, f, cache), lambda w: replace_apps(T.subst(body, {v: w}), nm, f))
    elif t.op in ('const', 'var', 'true', 'false'):
        r = t
    else:
        r = T.rebuild(t, lambda a: replace_apps(a, nm, f, cache))
    cache[t] = r
    return r


# ------------------------------------------------------------------ while
def trip_count(e, cond_at):
    """the number of iterations when the guard at iteration j is  a - j > 0  (j >= 0) and a >= 0 is known: a; otherwise None"""
    j = T.fresh('j', T.INT)
    c = cond_at(j)
    neg = c.op == 'not'
    if neg:
        c = c.args[0]
    if c.op != 'le':
        return None
    d = c.args[0]
    # the guard is  d <= 0  (or  d > 0)
    a = T.add(d, j) if neg else T.add(T.sub(j, d), 1)
    if j in T.free_vars(a) or not e.entails(T.le(0, a)):
        return None
    # guard <=> j < a, checked rather than assumed
    g = T.not_(c) if neg else c
    if not (e.entails(T.implies(g, T.lt(j, a))) and e.entails(T.implies(T.lt(j, a), g))):
        return None
    return a


def sym_while(it, s, fr, off=0):
    """while loop driven by integer variables with constant increments"""
    e = it.e
    if any(isinstance(x, (ast.Break, ast.Return)) for b in s.body for x in ast.walk(b)):
        raise Unsupported('break/return in a symbolic while')
    n = T.fresh('nwhile', T.INT)
    # the condition as a function of the iteration is only available after summarising; use a first summary with
    # unconstrained n to find the linear integer variables
    body = LoopBody(it, s, fr)
    names = {x.id for x in ast.walk(s.test) if isinstance(x, ast.Name)}
    snap = e.snapshot()
    ints = {}
    for nm in names:
        v = fr.vars.get(nm)
        if isinstance(v, (int, T.Term)) and not isinstance(v, bool) and (isinstance(v, int) or v.sort == T.INT):
            ints[nm] = v
    e.mute += 1
    try:
        def th():
            for nm in ints:
                fr.vars[nm] = T.fresh('w_' + nm, T.INT)
            old = {nm: fr.vars[nm] for nm in ints}
            e.assume(T.TRUE)
            try:
                body.run(None, None)
            except NeedCarried:
                pass
            return {nm: lower(T.sub(term(fr.vars[nm]), old[nm])) for nm in ints}
        outs = e.explore(th)
    finally:
        e.mute -= 1
    steps = {}
    for nm in ints:
        ds = {repr(o.result[nm]) for o in outs if o.exc is None}
        vs = [o.result[nm] for o in outs if o.exc is None]
        if len(ds) == 1 and isinstance(vs[0], int):
            steps[nm] = vs[0]

    def ints_only(t):
        return not any(isinstance(x, ast.Name) and x.id in stored and x.id not in steps or isinstance(x, ast.Call) for x in ast.walk(t))
    stored = {x.id for b in s.body for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
    parts = list(s.test.values) if isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.And) else [s.test]
    if not all(ints_only(t) for t in parts):
        # the guard also depends on other state: the iterations are those for which its integer part allows it (a weaker
        # assumption inside the body), and the whole guard is false in the final state
        ok = [t for t in parts if ints_only(t)]
        if not ok:
            raise Unsupported('while guard without an integer part')
        e.assume(T.le(0, n))

        def int_at(jj):
            sav = dict(fr.vars)
            for nm, d in steps.items():
                fr.vars[nm] = lower(T.add(term(ints[nm]), T.mul(T.const(d), jj)))
            c = T.TRUE
            for t in ok:
                c = T.and_(c, term(it.ev(t, fr)))
            fr.vars.clear()
            fr.vars.update(sav)
            return c
        e.assume(T.implies(T.le(1, n), int_at(T.sub(n, 1))))

        def runw(j):
            e.assume(int_at(j))
            body.run(None, None)
        if e.branch(T.le(1, n)):
            summarize(e, n, runw, 'while@%d' % s.lineno, off=T.const(off))
            for nm, d in steps.items():
                v = fr.vars.get(nm)
                v = v.fn() if isinstance(v, Lazy) else v
                if not isinstance(v, (int, T.Term)) or not e.entails(T.eq(term(v), T.add(term(ints[nm]), T.mul(T.const(d), n)))):
                    raise Unsupported('while loop counter')
        else:
            e.assume(T.eq(n, 0))
        g = it.guard(s.test, fr)
        e.assume(T.not_(g) if isinstance(g, T.Term) else (T.FALSE if it.truth(g) else T.TRUE))
        if not smt.feasible(e.pc):
            raise PathEnd()
        return

    if set(steps) != set(ints):
        raise Unsupported('while loop without constant steps')

    def cond_at(jj):
        sav = dict(fr.vars)
        for nm, d in steps.items():
            fr.vars[nm] = lower(T.add(term(ints[nm]), T.mul(T.const(d), jj)))
        c = it.ev(s.test, fr)
        fr.vars.clear()
        fr.vars.update(sav)
        return term(c)
    m = trip_count(e, cond_at)
    if m is not None:
        n = m
    else:
        e.assume(T.le(0, n))
        e.assume(T.not_(cond_at(n)))
        e.assume(T.implies(T.le(1, n), cond_at(T.sub(n, 1))))
    if not smt.feasible(e.pc):
        raise Unsupported('while condition')

    def run(j):
        e.assume(cond_at(j))
        body.run(None, None)
    if e.entails(T.le(n, 0)):
        return
    summarize(e, n, run, 'while@%d' % s.lineno, off=T.const(off))


def indexed_sum(it, sq):
    raise Unsupported('sum over a batch')

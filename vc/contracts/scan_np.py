"""C01: my_assoc_scan.  Elements are ghost segments ('seg', lo, hi) of the input list: the free model of an associative,
non-commutative operation without identity.  op requires its arguments to be adjacent segments in order."""
from fractions import Fraction
from .. import terms as T
from ..values import *
from ..runner import unit
from .util import *

MOD = 'parallel_control.my_assoc_scan'
Q = MOD + ':'
TAG = 'seg'


def cint(x):
    return isinstance(x, int) and not isinstance(x, bool)


def seg_op(e, lo, hi):
    """op on segments of the input positions lo..hi"""
    def f(it, args, kw):
        if kw or len(args) != 2 or not all(isinstance(x, tuple) and len(x) == 3 and x[0] == TAG for x in args):
            e.obl('operation applied only to input elements and their combinations', 'refuted', repr(args)[:200], 'pre', 'syntactic')
            raise PyRaise('TypeError', 'operation applied to %r' % (args,))
        (_, a, b), (_, c, d) = args
        e.prove_bool(T.eq(T.add(T.L(b), 1), T.L(c)), 'operation applied to adjacent segments in order', 'pre')
        return (TAG, a, d)
    return Builtin('op', f)


def bounded(e, ns):
    f = e.load(MOD).g.vars['my_assoc_scan']

    def th():
        for n in ns:
            for rev in (False, True):
                a = PyList([(TAG, k, k) for k in range(n)])
                before = a.seq
                r = e.call(f, [seg_op(e, 0, n - 1), a], {'reverse': rev}) if rev else e.call(f, [seg_op(e, 0, n - 1), a])
                c = r.seq.concrete() if isinstance(r, PyList) else None
                want = [(TAG, k, n - 1) if rev else (TAG, 0, k) for k in range(n)]
                if c is None:
                    e.obl('scan returns a list', 'refuted' if not isinstance(r, PyList) else 'unknown', repr(r)[:200], 'post', 'syntactic')
                    continue
                ok = len(c) == n and all(isinstance(x, tuple) and x == w for x, w in zip(c, want))
                bad = [k for k in range(min(n, len(c))) if c[k] != want[k]]
                e.obl('bounded n=%d %s: entry k combines the right segment' % (n, 'suffix' if rev else 'prefix'),
                      'proved' if ok else 'refuted', '' if ok else 'n=%d reverse=%s first wrong entry %s: %r' % (n, rev, bad[:1], c[bad[0]] if bad else len(c)),
                      'bounded', 'symbolic execution')
                same = a.seq is before or a.seq.concrete() == before.concrete()
                e.obl('bounded n=%d: the input list is unchanged' % n, 'proved' if same else 'refuted', '', 'frame', 'syntactic')
    return th


for lo, hi in ((1, 12), (12, 18), (18, 24), (24, 29), (29, 34)):
    unit('C01', 'my_assoc_scan[n=%d..%d]' % (lo, hi - 1), [Q + 'my_assoc_scan'], kind='bounded')(
        lambda e, lo=lo, hi=hi: bounded(e, range(lo, hi)))


# ------------------------------------------------------------------ all lengths: loop invariants over ghost segments
from .. import annot

I = T.INT
GHOSTFN = ('lo', 'divs', 'pow2')


def P2(d):
    d = T.L(d)
    return T.app('pow2', (d,), I)


def divs(d, x):
    """2**d divides x"""
    return T.app('divs', (T.L(d), T.L(x)), T.BOOL)


def lo(d, j):
    """first position of the segment stored at position j after d levels of the up sweep"""
    return T.app('lo', (T.L(d), T.L(j)), I)


def ix(d, t):
    """t-th element of range(0, 2**LOG, 2**(d+1))"""
    return T.app('ix', (T.L(d), T.L(t)), I)


class Scan:
    def __init__(self, e):
        self.e = e
        self.N = T.var('N', I)                 # length of the input
        self.LOG = T.app('ceil', (T.app('log2', (self.N,), T.REAL),), I)
        e.pc.append(T.le(1, self.N))

    def levels(self, LOG):
        """ghost facts about powers of two, divisibility and the up-sweep content; proved in unit lemma.scan"""
        e = self.e
        self.n = P2(LOG)
        self.L = LOG
        e.facts += [T.le(0, LOG), T.le(1, self.n), T.le(self.N, self.n), divs(LOG, self.n)]

        def ipow(d):
            return [T.implies(T.le(0, d), T.le(1, P2(d))), T.implies(T.eq(d, 0), T.eq(P2(d), 1)),
                    T.implies(T.le(1, d), T.eq(P2(d), T.add(P2(T.sub(d, 1)), P2(T.sub(d, 1)))))]
        e.inst['pow2'] = ipow

        def idiv(d, x):
            d1 = T.sub(d, 1)
            return [T.implies(T.eq(d, 0), divs(d, x)), T.implies(T.and_(T.le(1, d), divs(d, x)), divs(d1, x)),
                    T.implies(T.and_(T.le(0, d), T.le(1, x), divs(d, x)), T.le(P2(d), x))]
        e.inst['divs'] = idiv

        def ilo(d, j):
            d1 = T.sub(d, 1)
            return [T.implies(T.eq(d, 0), T.eq(lo(d, j), j)),
                    T.implies(T.and_(T.le(1, d), T.le(d, LOG), T.le(0, j)),
                              T.eq(lo(d, j), T.ite(divs(d, T.add(j, 1)), lo(d1, T.sub(j, P2(d1))), lo(d1, j)))),
                    # lemma: a position at a block end holds its whole block
                    T.implies(T.and_(T.le(0, d), T.le(d, LOG), T.le(0, j), divs(d, T.add(j, 1))),
                              T.eq(lo(d, j), T.sub(T.add(j, 1), P2(d)))),
                    # lemma: content of positions that are no block end of the next level is final
                    T.implies(T.and_(T.le(0, d), T.lt(d, LOG), T.le(0, j), T.not_(divs(T.add(d, 1), T.add(j, 1)))),
                              T.eq(lo(LOG, j), lo(d, j))),
                    T.implies(T.and_(T.le(0, d), T.le(0, j)), T.and_(T.le(0, lo(d, j)), T.le(lo(d, j), j)))]
        e.inst['lo'] = ilo

    def fin(self, d, x):
        """instances of the two lemmas at level d for position x-1"""
        j = T.sub(x, 1)
        return [T.implies(T.and_(T.le(0, j), T.not_(divs(T.add(d, 1), x))), T.eq(lo(self.L, j), lo(d, j))),
                T.implies(T.and_(T.le(0, j), divs(d, x)), T.eq(lo(d, j), T.sub(x, P2(d))))]

    def near(self, d, x, xs):
        """consecutive multiples of 2**d are 2**d apart: instances for x against the multiples xs"""
        out = []
        for y in xs:
            for a, b in ((x, y), (y, x)):
                out.append(T.implies(T.and_(divs(d, a), divs(d, b), T.lt(a, b)), T.le(T.add(a, P2(d)), b)))
        return out

    # contents: (none, lo, hi) as functions of the position
    def clip(self, j):
        return T.ite(T.lt(j, T.sub(self.N, 1)), j, T.sub(self.N, 1))

    def init(self, j):
        return T.le(self.N, j), j, j

    def up(self, d, j):
        return T.le(self.N, lo(d, j)), lo(d, j), self.clip(j)

    def excl(self, m):
        return T.le(m, 0), T.const(0), self.clip(T.sub(m, 1))

    def down(self, d, j):
        D = divs(d, T.add(j, 1))
        a, b = self.excl(T.sub(T.add(j, 1), P2(d))), self.up(self.L, j)
        return tuple(T.ite(D, x, y) if x.sort != T.BOOL else T.or_(T.and_(D, x), T.and_(T.not_(D), y)) for x, y in zip(a, b))

    def final(self, j):
        return T.le(self.N, j) if False else T.FALSE, T.const(0), self.clip(j)

    def pick(self, c, a, b):
        return tuple(T.ite(c, x, y) if x.sort != T.BOOL else T.or_(T.and_(c, x), T.and_(T.not_(c), y)) for x, y in zip(a, b))

    def content(self, n, f):
        def fn(j):
            no, a, b = f(j)
            if self.e.branch(no):
                return None
            return (TAG, a, b)
        return Seq([Seg(n, fn)])

    def check(self, l, n, f, label, extra=lambda j: []):
        e = self.e
        st = []

        def th():
            j = T.fresh('j', I)
            e.assume(T.le(0, j))
            e.assume(T.lt(j, n))
            e.facts += extra(j)
            v = l.seq.get(j, e)
            no, a, b = f(j)
            if v is None:
                g = no
            elif isinstance(v, tuple) and len(v) == 3 and v[0] == TAG:
                g = T.and_(T.not_(no), T.eq(v[1], a), T.eq(v[2], b))
            else:
                raise Unsupported('list entry %r' % (v,))
            h = e.hyps(g)
            from .. import smt
            r = smt.check(h, g, 20000)
            st.append({'unsat': 'proved', 'sat': 'unknown', 'unknown': 'unknown'}[r])
            if r != 'unsat':
                st.append(T.show(g)[:300] + ' | ' + ' ; '.join(T.show(c) for c in e.pc))
        ln = l.seq.length()
        e.prove_bool(T.eq(ln, n), label + ' (length)', 'inv')
        e.mute += 1
        try:
            outs = e.explore(th)
        finally:
            e.mute -= 1
        if any(o.exc for o in outs):
            raise Unsupported('invariant: %s' % [str(o.exc) for o in outs if o.exc][:1])
        bad = [x for x in st if x != 'proved']
        e.obl(label, 'proved' if not bad else 'unknown', '' if not bad else bad[1] if len(bad) > 1 else '', 'inv', 'z3')


def rng_args(it, s, fr):
    import ast
    if isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name) and s.iter.func.id == 'range' and len(s.iter.args) == 3:
        return [T.L(it.ev(x, fr)) for x in s.iter.args]
    raise Unsupported('loop range')


def unbounded(e, rev):
    f = e.load(MOD).g.vars['my_assoc_scan']
    e.norefute = True
    S = Scan(e)
    e.facts.append(T.and_(T.le(0, S.LOG), T.le(S.N, P2(S.LOG))))
    e.assumptions = getattr(e, 'assumptions', []) + ['math.ceil(math.log2(n)) is an integer k >= 0 with 2**k >= n (n >= 1)']
    S.levels(S.LOG)
    n, N = S.n, S.N
    loops = annot.loops_of(f)
    if len(loops) != 6:
        raise Unsupported('loop structure of my_assoc_scan changed: %d loops' % len(loops))
    wl, up_d, up_i, dn_d, dn_i, ex = loops
    import ast
    if not (isinstance(wl, ast.While) and all(isinstance(x, ast.For) for x in loops[1:])):
        raise Unsupported('loop structure of my_assoc_scan changed')
    cur = {}

    def pad(it, s, fr):
        # while len(a) < n: a.append(None)
        nm = [v for v in fr.vars if isinstance(fr.vars[v], PyList)]
        if len(nm) != 1:
            raise Unsupported('padding loop')
        l = fr.vars[nm[0]]
        c = it.ev(s.test, fr)
        m0 = l.seq.length()
        if T.show(T.L(c)) != T.show(T.lt(m0, n)):
            raise Unsupported('padding loop condition %s' % T.show(T.L(c)))

        def body():
            m = T.fresh('m', I)
            e.assume(T.le(N, m))
            e.assume(T.lt(m, n))
            l.seq = S.content(m, S.init)
            it.exec_body(s.body, fr)
            S.check(l, T.add(m, 1), S.init, 'padding loop: invariant is preserved')
        S.check(l, N, S.init, 'padding loop: invariant holds on entry')
        for o in e.explore(body):
            if o.exc:
                raise Unsupported(str(o.exc))
        l.seq = S.content(n, S.init)

    def outer(it, s, fr, state, what):
        seq = it.iter_seq(it.ev(s.iter, fr))
        if len(seq.segs) != 1 or seq.segs[0].items is not None:
            if not seq.segs:
                return
            raise Unsupported('loop range')
        sg = seq.segs[0]
        l = annot.target_list(s, fr)
        l._inv_managed = True
        e.prove_bool(T.eq(sg.n, S.L), what + ': one iteration per level', 'inv')

        def bind(t):
            v = T.L(sg.fn(t))
            cur['d'] = v
            it.assign(s.target, v, fr)

        annot.invariant_loop(it, s, fr, S.L, bind, lambda t: setattr(l, 'seq', S.content(n, lambda j: state(t, j))),
                             lambda t, lab: S.check(l, n, lambda j: state(t, j), lab), what)

    def inner(it, s, fr, before, after, what):
        a, b, st = rng_args(it, s, fr)
        d = cur['d']
        e.prove_bool(T.and_(T.eq(a, 0), T.eq(b, n), T.eq(st, P2(T.add(d, 1))), T.le(0, d), T.lt(d, S.L)),
                     what + ': blocks of the level', 'inv')
        l = annot.target_list(s, fr)
        l._inv_managed = True
        d1 = T.add(d, 1)
        cnt = T.app('nblk', (d,), I)
        # python range(0, 2**LOG, 2**(d+1)): multiples of the step below the (divisible) end
        e.facts += [T.le(0, cnt), T.eq(ix(d, T.const(0)), 0), T.eq(ix(d, cnt), n)]

        def iix(dd, t):
            return [T.implies(T.and_(T.le(0, t), T.le(t, cnt)), T.and_(T.le(0, ix(d, t)), T.le(ix(d, t), n), divs(d1, ix(d, t)))),
                    T.implies(T.and_(T.le(0, t), T.lt(t, cnt)), T.and_(T.le(T.add(ix(d, t), P2(d1)), n),
                                                                     T.eq(ix(d, T.add(t, 1)), T.add(ix(d, t), P2(d1)))))]
        e.inst['ix'] = iix
        tt = {}

        def bind(t):
            tt['t'] = t
            i = ix(d, t)
            p = P2(d)
            e.facts += [divs(d1, i), divs(d, i), divs(d, T.add(i, p)), divs(d1, T.add(i, P2(d1))), divs(d, T.add(i, P2(d1))),
                        T.not_(divs(d1, T.add(i, p)))]
            for x in (T.add(i, p), T.add(i, P2(d1))):
                e.facts += S.fin(d, x)
            it.assign(s.target, i, fr)

        def state(t, j):
            return S.pick(T.lt(j, ix(d, t)), after(d, j), before(d, j))

        def extra(j):
            x = T.add(j, 1)
            t = tt.get('t')
            if t is None:
                return S.fin(d, x)
            i = ix(d, t)
            ms = [i, T.add(i, P2(d1))]
            ps = ms + [T.add(i, P2(d))]
            return (S.near(d1, x, ms) + S.near(d, x, ps) + S.fin(d, x)
                    # multiples of 2**d between multiples i and i + 2**(d+1) of 2**(d+1)
                    + [T.implies(T.and_(divs(d, x), T.not_(divs(d1, x)), T.lt(i, x), T.lt(x, T.add(i, P2(d1)))),
                                 T.eq(x, T.add(i, P2(d))))])
        annot.invariant_loop(it, s, fr, cnt, bind, lambda t: setattr(l, 'seq', S.content(n, lambda j: state(t, j))),
                             lambda t, lab: S.check(l, n, lambda j: state(t, j), lab, extra), what)
        e.inst.pop('ix', None)
        l.seq = S.content(n, lambda j: after(d, j))

    def extra_loop(it, s, fr):
        seq = it.iter_seq(it.ev(s.iter, fr))
        sg = seq.segs[0]
        l = annot.target_list(s, fr)
        l._inv_managed = True
        e.prove_bool(T.eq(sg.n, n), 'extra pass: one iteration per position', 'inv')
        state = lambda t: (lambda j: S.pick(T.lt(j, t), S.final(j), S.excl(j)))
        annot.invariant_loop(it, s, fr, n, lambda t: it.assign(s.target, T.L(sg.fn(t)), fr),
                             lambda t: setattr(l, 'seq', S.content(n, state(t))),
                             lambda t, lab: S.check(l, n, state(t), lab), 'extra pass')

    H = e.loop_handlers
    H[id(wl)] = pad
    H[id(up_d)] = lambda it, s, fr: outer(it, s, fr, lambda t, j: S.up(t, j), 'up sweep')
    H[id(up_i)] = lambda it, s, fr: inner(it, s, fr, S.up, lambda d, j: S.up(T.add(d, 1), j), 'up sweep blocks')
    H[id(dn_d)] = lambda it, s, fr: outer(it, s, fr, lambda t, j: S.down(T.sub(S.L, t), j), 'down sweep')
    H[id(dn_i)] = lambda it, s, fr: inner(it, s, fr, lambda d, j: S.down(T.add(d, 1), j), S.down, 'down sweep blocks')
    H[id(ex)] = extra_loop
    top = [True]

    def self_call(it, closure, args, kw):
        if top[0]:
            top[0] = False
            try:
                return NotImplemented
            finally:
                pass
        args = list(args)
        op = args.pop(0) if args else kw['op']
        a = args.pop(0) if args else kw['a']
        r = args.pop(0) if args else kw.get('reverse', False)
        if r is not False or not isinstance(a, PyList):
            raise Unsupported('recursive call')
        e.prove_bool(T.eq(a.seq.length(), N), 'recursive call: list of the same length', 'pre')
        i, j, k = [T.fresh(c, I) for c in 'ijk']
        m = lambda x: T.sub(T.sub(N, 1), x)

        def th():
            e.assume(T.le(0, i)); e.assume(T.le(i, j)); e.assume(T.lt(j, k)); e.assume(T.lt(k, N))
            v = a.seq.get(i, e)
            ok = isinstance(v, tuple) and len(v) == 3 and v[0] == TAG
            e.prove_bool(T.and_(T.eq(v[1], m(i)), T.eq(v[2], m(i))) if ok else T.FALSE, 'recursive call: elements in reverse order', 'pre')
            w = it.call(op, [(TAG, m(j), m(i)), (TAG, m(k), m(T.add(j, 1)))])
            e.prove_bool(T.and_(T.eq(w[1], m(k)), T.eq(w[2], m(i))) if isinstance(w, tuple) else T.FALSE,
                         'recursive call: flipped operation combines reversed segments', 'pre')
        for o in e.explore(th):
            if o.exc:
                raise o.exc
        # contract (non-reverse case, unit my_assoc_scan[prefix, any length]); the input list is not modified
        return PyList(Seq([Seg(N, lambda q: (TAG, m(q), m(T.const(0))))]))
    e.contracts[Q + 'my_assoc_scan'] = self_call

    def th():
        top[0] = True
        a = PyList(Seq([Seg(N, lambda q: (TAG, q, q))]))
        sq = a.seq
        op = seg_op(e, None, None)
        r = e.call(f, [op, a], {'reverse': True} if rev else {})
        if not isinstance(r, PyList):
            e.obl('scan returns a list', 'refuted', repr(r)[:200], 'post', 'syntactic')
            return
        S.check(r, N, (lambda j: (T.FALSE, j, T.sub(N, 1))) if rev else (lambda j: (T.FALSE, T.const(0), j)),
                'entry k combines exactly the elements %s, in order' % ('k..n-1' if rev else '0..k'))
        e.obl('frame: the input list is unchanged', 'proved' if a.seq is sq else 'unknown', '', 'frame', 'syntactic')
    return th


@unit('C01', 'my_assoc_scan[prefix, any length]', [Q + 'my_assoc_scan'])
def s1(e):
    return unbounded(e, False)


@unit('C01', 'my_assoc_scan[suffix, any length]', [Q + 'my_assoc_scan'])
def s2(e):
    return unbounded(e, True)


@unit('C01', 'my_assoc_scan.lemma.arithmetic', [], kind='lemma')
def l1(e):
    """the ghost facts used above, with "2**d divides x" read as x = q * P for an integer q and P = 2**d >= 1"""
    P, q, r, m, x, j = [T.var(c, I) for c in ('P', 'q', 'r', 'm', 'x', 'j')]
    e.pc.append(T.le(1, P))
    mul = T.mul
    W = T.add(P, P)
    pb = lambda h, g, lab: e.prove_bool(T.implies(h, g), 'lemma: ' + lab, 'lemma')
    pb(T.eq(x, mul(q, W)), T.eq(x, mul(T.add(q, q), P)), 'a multiple of 2**(d+1) is a multiple of 2**d')
    pb(T.and_(T.le(1, mul(q, P))), T.le(1, q), 'positive multiple has a positive quotient')
    pb(T.le(1, q), T.le(P, mul(q, P)), 'a positive multiple is at least 2**d')
    pb(T.lt(mul(q, P), mul(r, P)), T.lt(q, r), 'order of multiples is the order of quotients')
    pb(T.le(T.add(q, 1), r), T.le(T.add(mul(q, P), P), mul(r, P)), 'consecutive multiples are 2**d apart')
    pb(T.and_(T.lt(mul(m, W), mul(r, P)), T.lt(mul(r, P), T.add(mul(m, W), W))), T.and_(T.lt(T.add(m, m), r), T.lt(r, T.add(T.add(m, m), 2))),
       'quotients between the ends of a block of the next level')
    pb(T.eq(r, T.add(T.add(m, m), 1)), T.eq(mul(r, P), T.add(mul(m, W), P)), 'the only inner multiple of a block is its middle')
    pb(T.eq(mul(T.add(T.add(m, m), 1), P), mul(q, W)), T.eq(T.add(T.add(m, m), 1), T.add(q, q)), 'the middle of a block is not a multiple of the next level (equal quotients)')
    pb(T.TRUE, T.ne(T.add(T.add(m, m), 1), T.add(q, q)), 'an odd number is not even')
    # block-end lemma: lo(d, y) = y + 1 - P at block ends (hypothesis), lo(d+1, j) = lo(d, j - P) by definition
    L0 = T.var('lo_d_at_j_minus_P', I)
    pb(T.and_(T.eq(L0, T.sub(T.add(T.sub(j, P), 1), P))), T.eq(L0, T.sub(T.add(j, 1), W)), 'a block end holds its whole block (induction step)')
    pb(T.and_(T.eq(T.add(j, 1), mul(q, W))), T.eq(T.add(T.sub(j, P), 1), mul(T.sub(T.add(q, q), 1), P)),
       'the middle of a block ending at a multiple is a block end of the lower level')
    # range of lo
    a, b = T.var('lo_a', I), T.var('lo_b', I)
    pb(T.and_(T.le(0, a), T.le(a, T.sub(j, P))), T.le(a, j), 'segment starts are positions (induction step)')
    # divisibility chain: P(d) divides P(LOG): P(LOG+1) = 2 P(LOG)
    X = T.var('X', I)
    pb(T.eq(X, mul(q, P)), T.eq(T.add(X, X), mul(T.add(q, q), P)), 'lower powers divide higher powers (induction step)')
    # python range(0, n, st), n = c * st: element t is t * st, for 0 <= t < c
    c, t, st = T.var('c', I), T.var('t', I), T.var('st', I)
    e.pc.append(T.le(1, st))
    pb(T.and_(T.le(0, t), T.lt(t, c)), T.le(T.add(mul(t, st), st), mul(c, st)), 'every block of the level ends inside the list')
    pb(T.TRUE, T.eq(mul(T.add(t, 1), st), T.add(mul(t, st), st)), 'blocks are consecutive')

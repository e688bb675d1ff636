"""Contracts for the bundled models (C18): tables, encodings, dynamics, Jacobians and tracking problems."""
from fractions import Fraction
from .fsc_common import *
from .nlqt_np import point_arr, check_derivatives, NM
from ..runner import unit
from .. import ncalg as N
from .. import smt
from .util import *
from ..shims import term
from .cnonlin import q, val
from .hjb_np import check_table

PC = 'parallel_control.'
FM, GE, TM, LM, LMT, MM = [PC + m for m in ('finite_model_np', 'ge_model_np', 'text_model', 'linear_model_np', 'linear_model_tf', 'mass_model_np')]


def make(e, mod, cls, args=()):
    return e.call(e.load(mod).g.vars[cls], list(args))


def entry(a, *ix):
    return A.lift_fn(a).data(*[T.L(i) for i in ix])


def shaped(e, a, shape, what):
    if not (isinstance(a, Arr) and len(a.shape) == len(shape) and all(e.dim_eq(p, T.L(s)) for p, s in zip(a.shape, shape))):
        e.obl('%s: an array of shape %s' % (what, shape), 'refuted', repr(a)[:100], 'post', 'syntactic')
        return False
    return True


def table_is(e, a, want, what):
    """a constant table, entry by entry"""
    want = [[w for w in row] for row in want] if isinstance(want[0], (list, tuple)) else [want]
    sh = (len(want), len(want[0]))
    one = len(want) == 1
    if not shaped(e, a, sh[1:] if one else sh, what):
        return
    for i, row in enumerate(want):
        for j, w in enumerate(row):
            got = entry(a, j) if one else entry(a, i, j)
            e.prove_bool(T.eq(T.toreal(got), w if isinstance(w, T.Term) else q(w)), '%s[%d,%d]' % (what, i, j))


F = Fraction
PS = [[F(97, 100), F(3, 100)], [F(1, 10), F(9, 10)]]
PB = [[F(95, 100), F(5, 100)], [F(5, 100), F(95, 100)]]
QE = [F(1, 10), F(3, 10)]


@unit('C18', 'ge_model_np.GEModel tables', [GE + ':GEModel.__init__'])
def u_ge(e):
    def th():
        m = make(e, GE, 'GEModel')
        Pi, Po, pr = [m.f.get(k) for k in ('Pi', 'Po', 'prior')]
        table_is(e, Pi, [[PS[i % 2][j % 2] * PB[i // 2][j // 2] for j in range(4)] for i in range(4)], 'Pi is the product of the channel and bit chains')
        table_is(e, Po, [[1 - QE[i % 2] if y == i // 2 else QE[i % 2] for y in range(2)] for i in range(4)], 'Po is the error rate of the channel state')
        table_is(e, pr, [F(1, 4)] * 4, 'prior is uniform')
        for a, n, k in ((Pi, 4, 4), (Po, 4, 2)):
            for i in range(n):
                row = [T.toreal(entry(a, i, j)) for j in range(k)]
                e.prove_bool(T.eq(add(row), q(1)), 'rows sum to one')
                for t in row:
                    e.prove_bool(T.le(q(0), t), 'entries are probabilities')
    return th


def add(ts):
    out = q(0)
    for t in ts:
        out = T.add(out, t)
    return out


@unit('C18', 'ge_model_np.get_b_list', [GE + ':get_b_list'])
def u_blist(e):
    n = T.var('n', I)
    e.pc.append(T.le(0, n))
    x = lambda i: T.app('x', (T.L(i),), I)
    e.facts.append(forall(n, lambda i: inr(x(i), T.const(4))))

    def th():
        b = e.call(e.func(GE, 'get_b_list'), [fnarr((n,), x, 'i')])
        if not shaped(e, b, (n,), 'get_b_list'):
            return
        i = T.var('i', I)

        def pt():
            e.assume(inr(i, n))
            want = T.ite(T.le(2, x(i)), T.const(1), T.const(0))
            e.prove_bool(T.eq(entry(b, i), want), 'get_b_list: the bit of each channel state')
        for o in e.explore(pt):
            if o.exc:
                e.obl('entry readable', 'unknown', str(o.exc), 'post', '')
    return th


@unit('C18', 'finite_model_np.FiniteModel.getFSC', [FM + ':FiniteModel.getFSC', PC + 'fsc_np:FSC.checkAndExpand'])
def u_fsc(e):
    nx, Tn = T.var('nx', I), T.var('T', I)
    e.pc += [T.le(1, nx), T.le(1, Tn)]
    tr = lambda x, k: T.app('track', (T.L(x), T.L(k)), R)

    def th():
        m = make(e, FM, 'FiniteModel')
        track = fnarr((nx, Tn), tr)
        p = e.call(meth(e, m, 'getFSC'), [track])
        if not (isinstance(p, Obj) and all(k in p.f for k in ('f', 'L', 'LT'))):
            e.obl('getFSC returns a problem', 'refuted', repr(p)[:100], 'post', 'syntactic')
            return
        mv = lambda x, u: T.ite(T.eq(u, T.const(0)), T.ite(T.le(1, x), T.sub(x, 1), T.const(0)),
                                T.ite(T.eq(u, T.const(1)), x, T.ite(T.le(T.add(x, 2), nx), T.add(x, 1), T.sub(nx, 1))))
        e.check_eq(p.f['f'], seqof(Tn, lambda k: fnarr((nx, T.const(3)), mv, 'i')), 'getFSC: moves one cell down, none, one up inside the grid', 'post')
        e.check_eq(p.f['L'], seqof(Tn, lambda k: fnarr((nx, T.const(3)), lambda x, u: T.add(tr(x, k), T.ite(T.eq(u, T.const(1)), q(0), q(1))))),
                   'getFSC: stage cost is the track plus the control cost', 'post')
        e.check_eq(p.f['LT'], Arr('mat', (nx,), N.zero((nx, T.const(1))), 'f', 'np'), 'getFSC: no terminal cost', 'post')
        x, u = T.var('xx', I), T.var('uu', I)

        def pt():
            e.assume(T.and_(inr(x, nx), inr(u, T.const(3))))
            e.prove_bool(inr(mv(x, u), nx), 'getFSC: the next state is in the grid')
        e.explore(pt)
    return th


@unit('C18', 'text_model.TextModel.get1stOrderPo', [TM + ':TextModel.get1stOrderPo'])
def u_po(e):
    n = T.var('n', I)
    p = T.var('errp', R)
    e.pc += [T.le(1, n), T.le(q(0), p), T.le(p, q(1))]
    e.facts.append(T.eq(T.binder('bsum', n, lambda i: q(1)), T.toreal(n)))

    def th():
        m = Obj(e.load(TM).g.vars['TextModel'])
        m.f['chars'] = seqof(n, lambda i: T.app('chr', (T.L(i),), I))
        m.f['errp'] = p
        m.f['order'] = 1
        a = e.call(meth(e, m, 'get1stOrderPo'), [])
        po(e, a, n, n, p, lambda i: i, 'get1stOrderPo')
    return th


def po(e, a, N, n, p, last, what):
    if not shaped(e, a, (N, n), what):
        return
    i, j = T.var('i', I), T.var('j', I)

    def pt():
        e.assume(T.and_(inr(i, N), inr(j, n)))
        pn = T.div(p, T.toreal(n))
        want = T.add(T.ite(T.eq(last(i), j), T.sub(q(1), p), q(0)), pn)
        e.prove_bool(T.eq(T.toreal(entry(a, i, j)), want), what + ': the character with probability 1 - errp, otherwise any uniformly')
        e.prove_bool(T.le(q(0), want), what + ': entries are non-negative')
    for o in e.explore(pt):
        if o.exc:
            e.obl('entry readable', 'unknown', str(o.exc), 'post', '')
    # rows: sum_j (ite(last i = j, 1 - p, 0) + p/n) = (1 - p) + n (p/n)
    e.prove_bool(T.eq(T.add(T.sub(q(1), p), T.mul(T.toreal(n), T.div(p, T.toreal(n)))), q(1)), what + ': rows sum to one')


CX = [5.7770, -2.6692, 1.1187, 0.1379, 0.5718, 1.1214, 0.2998, 0.3325, 0.7451, 0.2117, 0.6595, 0.0401, -0.2995]
CY = [4.3266, -1.4584, -1.2457, 1.1804, 0.2035, 0.5123, 1.0588, 0.2616, -0.6286, -0.3802, 0.2750, -0.0070, -0.0022]
A4 = [[0, 0, 1, 0], [0, 0, 0, 1], [0] * 4, [0] * 4]
B4 = [[0, 0], [0, 0], [1, 0], [0, 1]]
eye = lambda n, s=1, m=None: [[F(s) if i == j else F(0) for j in range(m or n)] for i in range(n)]
TENTH = F(1, 10)


def clqt_is(e, t, FF, L, X, U, c, H, r, XT, HT, rT, Tf, x0, what):
    for nm, f, want in (('F', FF, A4), ('L', L, B4), ('X', X, eye(2)), ('U', U, eye(2, TENTH)), ('H', H, eye(2, 1, 4)), ('c', c, [0] * 4)):
        table_is(e, e.call(f, [t]), want, '%s: %s' % (what, nm))
    a = e.call(r, [t])
    if shaped(e, a, (2,), what + ': r'):
        tt = A.to_scalar_term(t) if isinstance(t, Arr) else t
        pi = T.app('pi', (), R)
        for j, cf in enumerate((CX, CY)):
            w = q(F(str(cf[0])))
            for k in range(1, 7):
                ang = T.mul(q(F(2 * k, 50)), T.mul(pi, tt))
                w = T.add(w, T.add(T.mul(q(F(str(cf[2 * k - 1]))), T.app('cos', (ang,), R)), T.mul(q(F(str(cf[2 * k]))), T.app('sin', (ang,), R))))
            e.prove_bool(T.eq(T.toreal(entry(a, j)), w), '%s: reference component %d is the documented Fourier curve' % (what, j))
    table_is(e, XT, eye(4), what + ': XT')
    table_is(e, HT, eye(4), what + ': HT')
    table_is(e, rT, [F('4.9514'), F('4.4353'), 0, 0], what + ': rT')
    table_is(e, x0, [5, 5, 0, 0], what + ': x0')
    e.prove_bool(T.eq(val(Tf), q(50)), what + ': T')


@unit('C18', 'linear_model_np.LinearModel.getCLQT', [LM + ':LinearModel.getCLQT', PC + 'clqt_np:CLQT.__init__'])
def u_clqt(e):
    def th():
        p, x0 = e.call(meth(e, make(e, LM, 'LinearModel'), 'getCLQT'), [])
        g = p.f
        clqt_is(e, T.var('t', R), *[g[k] for k in ('F', 'L', 'X', 'U', 'c', 'H', 'r', 'XT', 'HT', 'rT', 'T')], x0, 'getCLQT')
    return th


@unit('C18', 'linear_model_tf.get_clqt', [LMT + ':get_clqt'], tf=True)
def u_clqt_tf(e):
    def th():
        x0, Tf, XT, HT, rT, Ff, Lf, Xf, Uf, cf, Hf, rf = e.call(e.func(LMT, 'get_clqt'), [])
        t = Arr('fn', (), lambda: T.var('t', R), 'f', 'tf')
        clqt_is(e, t, Ff, Lf, Xf, Uf, cf, Hf, rf, XT, HT, rT, Tf, x0, 'get_clqt')
    return th


def mass(N):
    @unit('C18', 'mass_model_np.MassModel[%d masses]' % N, [MM + ':MassModel.__init__'], kind='bounded')
    def body(e):
        def th():
            g = make(e, MM, 'MassModel', [N]).f
            c, d = F(1), F(1, 5)
            w = [[F(0)] * (2 * N) for _ in range(2 * N)]
            for i in range(N):
                w[2 * i][2 * i + 1] = F(1)
                for j, s in ((i - 1, 1), (i, -2), (i + 1, 1)):
                    if 0 <= j < N:
                        w[2 * i + 1][2 * j] += s * c
                        w[2 * i + 1][2 * j + 1] += s * d
            b = [[F(0), F(0)] for _ in range(2 * N)]
            b[1][0] = F(1)
            b[-1][1] = F(-1)
            x0 = [F(0)] * (2 * N)
            x0[0] = F(1)
            x0[N if N % 2 == 0 else N - 1] = F(1)
            for nm, want in (('Fc', w), ('Lc', b), ('X', eye(2 * N)), ('XT', eye(2 * N)), ('U', eye(2, TENTH)), ('x0', x0)):
                table_is(e, g.get(nm), want, 'MassModel: ' + nm)
        return th


for _n in range(1, 7):
    mass(_n)


class Text:
    """alphabet of n distinct characters: code(i) is the i-th character, pos its position"""

    def __init__(self, e):
        self.e = e
        self.n = n = T.var('n', I)
        e.pc.append(T.le(1, n))
        self.code = lambda i: T.app('code', (T.L(i),), I)
        self.pos = lambda c: T.app('pos', (T.L(c),), I)
        e.facts.append(forall(n, lambda i: T.eq(self.pos(self.code(i)), i)))
        m = self.m = Obj(e.load(TM).g.vars['TextModel'])
        m.f['chars'] = StrVal(Seq([Seg(n, self.code)]))
        m.f['order'] = 1
        m.f['char_dict'] = MapVal(self.lookup)

    def lookup(self, it, c):
        if not (isinstance(c, StrVal) and T.show(T.L(c.seq.length())) == '1'):
            raise Unsupported('key of the character table')
        return self.pos(c.seq.get(T.const(0), self.e))


@unit('C18', 'text_model.TextModel.textToIndex', [TM + ':TextModel.textToIndex'])
def u_encode(e):
    X = Text(e)
    k = T.var('len', I)
    e.pc.append(T.le(0, k))
    s = lambda i: T.app('s', (T.L(i),), I)                 # positions of the characters of a supported text
    e.facts.append(forall(k, lambda i: inr(s(i), X.n)))

    def th():
        ys = e.call(meth(e, X.m, 'textToIndex'), [StrVal(Seq([Seg(k, lambda i: X.code(s(i)))]))])
        if not shaped(e, ys, (k,), 'textToIndex'):
            return
        i = T.var('i', I)

        def pt():
            e.assume(inr(i, k))
            e.prove_bool(T.eq(entry(ys, i), s(i)), 'textToIndex: the position of each character')
        for o in e.explore(pt):
            if o.exc:
                e.obl('entry readable', 'unknown', str(o.exc), 'post', '')
    return th


@unit('C18', 'text_model.TextModel.indexToText', [TM + ':TextModel.indexToText'])
def u_decode(e):
    from .. import annot
    import ast
    X = Text(e)
    k = T.var('len', I)
    e.pc.append(T.le(0, k))
    last = lambda i: T.app('last', (T.L(i),), I)
    # index of the state: the last character plus a multiple of the number of characters (words in lexicographic order)
    y = lambda i: T.add(last(i), T.mul(X.n, T.app('rest', (T.L(i),), I)))
    e.facts.append(forall(k, lambda i: T.and_(inr(last(i), X.n), T.le(0, T.app('rest', (T.L(i),), I)))))
    char = lambda i: X.code(last(i))
    f = X.m.cls.find('indexToText')

    def loop(it, s, fr):
        seq = it.iter_seq(it.ev(s.iter, fr))
        nm = [x for x in fr.vars if isinstance(fr.vars[x], str) or isinstance(fr.vars[x], StrVal) and x in
              {q.id for b in s.body for q in ast.walk(b) if isinstance(q, ast.Name) and isinstance(q.ctx, ast.Store)}]
        if len(seq.segs) != 1 or seq.segs[0].items is not None or len(nm) != 1:
            raise Unsupported('loop of indexToText')
        sg, nm = seq.segs[0], nm[0]
        want = lambda t: StrVal(Seq([Seg(t, char)]))

        def check(t, lab):
            v = fr.vars.get(nm)
            if v == '' and T.is_const(t) and T.cval(t) == 0:
                return e.obl(lab, 'proved', '', 'inv', 'syntactic')
            v = StrVal([]) if v == '' else v
            if not isinstance(v, StrVal):
                e.obl(lab, 'unknown', repr(v)[:80], 'inv', '')
                return
            e.check_eq(PyList(v.seq), PyList(want(t).seq), lab, 'inv')
        e.prove_bool(T.eq(sg.n, k), 'indexToText: one character per index', 'inv')
        annot.invariant_loop(it, s, fr, k, lambda t: it.assign(s.target, T.L(sg.fn(t)), fr), lambda t: fr.vars.__setitem__(nm, want(t)), check, 'indexToText')
    ls = annot.loops_of(f, X.m.cls)
    if len(ls) != 1 or not isinstance(ls[0], ast.For):
        raise Unsupported('loop structure of indexToText changed')

    def th():
        e.loop_handlers[id(ls[0])] = loop
        r = e.call(meth(e, X.m, 'indexToText'), [fnarr((k,), y, 'i')])
        r = StrVal([]) if isinstance(r, str) and not r else r
        if not isinstance(r, StrVal):
            e.obl('indexToText returns a text', 'unknown', repr(r)[:80], 'post', '')
            return
        e.check_eq(PyList(r.seq), PyList(Seq([Seg(k, char)])), 'indexToText: the last character of each state', 'post')
    return th


def counted(e, clo, what, total, first, arr_at, check_arr, text_at=None, nloop=0):
    """stated invariant of a counting loop: after t rounds the table is arr_at(t) and the window of characters text_at(t)"""
    from .. import annot
    import ast
    ls = annot.loops_of(clo, e.load(TM).g.vars['TextModel'])
    if len(ls) <= nloop or not isinstance(ls[nloop], ast.For):
        raise Unsupported('loop structure of %s changed' % what)

    def loop(it, st, fr):
        seq = it.iter_seq(it.ev(st.iter, fr))
        if len(seq.segs) != 1 or seq.segs[0].items is not None:
            raise Unsupported('loop of ' + what)
        sg, = seq.segs
        body = [x for b in st.body for x in ast.walk(b)]
        tab = {x.value.id for x in body if isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name)}
        plain = {x.id for x in body if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        win = [v for v in plain if isinstance(fr.vars.get(v), (StrVal, str))]
        if len(tab) != 1 or len(win) != (1 if text_at else 0) or not isinstance(fr.vars.get(list(tab)[0]), Arr):
            raise Unsupported('variables of the loop of ' + what)
        tab, = tab
        e.prove_bool(T.eq(sg.n, total), what + ': one round per position of the text', 'inv')
        tt = T.var('round', I)

        def rounds():
            e.assume(inr(tt, total))
            e.prove_bool(T.eq(T.L(sg.fn(tt)), T.add(tt, first)), what + ': positions in order', 'inv')
        e.explore(rounds)

        def setstate(t):
            fr.vars[tab] = arr_at(t)
            for v in win:
                fr.vars[v] = text_at(t)

        def check(t, lab):
            def th():
                check_arr(fr.vars[tab], t, lab)
                for v in win:
                    w = fr.vars[v]
                    if not isinstance(w, StrVal):
                        return e.obl(lab + ' (window)', 'unknown', repr(w)[:80], 'inv', '')
                    e.check_eq(PyList(w.seq), PyList(text_at(t).seq), lab + ' (window)', 'inv')
            for o in e.explore(th):
                if o.exc:
                    e.obl(lab, 'unknown', str(o.exc), 'inv', '')
        annot.invariant_loop(it, st, fr, total, lambda t: it.assign(st.target, T.L(sg.fn(t)), fr), setstate, check, what)
    e.loop_handlers[id(ls[nloop])] = loop


class Counts:
    """cnt(t, i...) = number of rounds before t whose cell is (i...); defined by recursion on t"""

    def __init__(self, e, shape, cell, base=q(1), name='cnt'):
        self.e, self.shape, self.cell, self.base, self.name = e, shape, cell, base, name

    def at(self, t, ix):
        return T.app(self.name, (T.L(t),) + tuple(T.L(i) for i in ix), I)

    def value(self, t, ix):
        return T.add(self.base(ix) if callable(self.base) else self.base, T.toreal(self.at(t, ix)))

    def arr(self, t):
        return fnarr(self.shape, lambda *ix: self.value(t, ix))

    def fresh(self):
        ix = tuple(T.fresh('ix', I) for _ in self.shape)
        for i, n in zip(ix, self.shape):
            self.e.assume(inr(i, n))
        return ix

    def check(self, a, t, lab):
        e = self.e
        if not shaped(e, a, self.shape, lab):
            return
        ix = self.fresh()
        t = T.L(t)
        if T.is_const(t) and T.cval(t) == 0:
            # the table before the first round is the base the counts are added to (any positive one will do, see normalised)
            self.base = lambda ix, a=a: T.toreal(entry(a, *ix))
            e.assume(T.eq(self.at(t, ix), T.const(0)))
        else:
            u = T.sub(t, 1)
            e.assume(T.eq(self.at(t, ix), T.add(self.at(u, ix), T.ite(T.and_(*[T.eq(i, c) for i, c in zip(ix, self.cell(u))]), T.const(1), T.const(0)))))
        e.prove_bool(T.eq(T.toreal(entry(a, *ix)), self.value(t, ix)), lab, 'inv')

    def nonneg(self, t, ix):
        """induction on t over the recursion: checked as an obligation, then usable"""
        e = self.e
        a, b = T.fresh('c', I), T.fresh('d', I)

        def step():
            e.assume(T.and_(T.le(0, a), T.or_(T.eq(b, a), T.eq(b, T.add(a, 1)))))
            e.prove_bool(T.le(0, b), 'lemma: counts are non-negative (inductive step)', 'lemma')
        e.explore(step)
        e.assume(T.le(0, self.at(t, ix)))


def normalised(e, a, C, t, what, rows):
    """entry = count / sum over the last axis; positive total; hence non-negative entries with sums one"""
    if not shaped(e, a, C.shape, what):
        return

    def pt():
        ix = C.fresh()
        n = C.shape[-1]
        C.nonneg(t, ix)
        S = T.binder('bsum', n, lambda j: C.value(t, ix[:-1] + (j,)))
        e.assume(T.lt(q(0), S))                      # a sum of at least one positive terms
        e.prove_bool(T.lt(q(0), C.value(t, ix)), what + ': every summand of the total is positive')
        e.prove_bool(T.eq(T.toreal(entry(a, *ix)), T.div(C.value(t, ix), S)), what + ': relative frequency among the counts of its row')
        e.prove_bool(T.le(q(0), T.div(C.value(t, ix), S)), what + ': entries are non-negative')
        e.prove_bool(T.eq(T.div(S, S), q(1)), what + ': %s sum to one' % rows)
    for o in e.explore(pt):
        if o.exc:
            e.obl('entry readable', 'unknown', str(o.exc), 'post', '')


def text_of(X, s, k):
    return StrVal(Seq([Seg(k, lambda i: X.code(s(i)))]))


@unit('C18', 'text_model.TextModel.get1stOrderPrior', [TM + ':TextModel.get1stOrderPrior'])
def u_prior1(e):
    X = Text(e)
    k = T.var('len', I)
    e.pc.append(T.le(0, k))
    s = lambda i: T.app('s', (T.L(i),), I)
    e.facts.append(forall(k, lambda i: inr(s(i), X.n)))
    C = Counts(e, (X.n,), lambda t: (s(t),))

    def th():
        counted(e, X.m.cls.find('get1stOrderPrior'), 'get1stOrderPrior', k, 0, C.arr, C.check)
        a = e.call(meth(e, X.m, 'get1stOrderPrior'), [text_of(X, s, k)])
        normalised(e, a, C, k, 'get1stOrderPrior', 'entries')
    return th


@unit('C18', 'text_model.TextModel.get1stOrderPi', [TM + ':TextModel.get1stOrderPi'])
def u_pi1(e):
    X = Text(e)
    k = T.var('len', I)
    e.pc.append(T.le(1, k))
    s = lambda i: T.app('s', (T.L(i),), I)
    e.facts.append(forall(k, lambda i: inr(s(i), X.n)))
    C = Counts(e, (X.n, X.n), lambda t: (s(t), s(T.add(t, 1))))
    win = lambda t: StrVal(Seq([Seg(items=[X.code(s(t))])]))

    def th():
        m = T.sub(k, 1)
        counted(e, X.m.cls.find('get1stOrderPi'), 'get1stOrderPi', m, 1, C.arr, C.check, win)
        a = e.call(meth(e, X.m, 'get1stOrderPi'), [text_of(X, s, k)])
        normalised(e, a, C, m, 'get1stOrderPi', 'rows')
    return th


class Words(Text):
    """words of `order` characters: cond_dict numbers them 0 .. n**order - 1, cond_chars lists them in that order (what the constructor
    builds; the enumeration itself is checked by evaluation)"""

    def __init__(self, e):
        Text.__init__(self, e)
        self.order = T.var('order', I)
        e.pc.append(T.le(1, self.order))
        self.m.f['order'] = self.order
        self.cands = []
        self.m.f['cond_dict'] = MapVal(self.word_lookup)

    def index(self, at):
        """number of the word whose j-th character code is at(j)"""
        return T.app('wpos', (T.binder('bsum', self.order, lambda j: T.app('glyph', (j, T.L(at(j))), R)),), I)

    def word_lookup(self, it, w):
        if not (isinstance(w, StrVal) and self.e.dim_eq(T.L(w.seq.length()), self.order)):
            raise Unsupported('key of the word table')
        def char(j):
            # the j-th character, without a range obligation (only positions below `order` are read)
            out, lo = None, T.const(0)
            for g in w.seq.segs:
                for f, m in ([(lambda _, x=x: x, T.const(1)) for x in g.items] if g.items is not None else [(g.fn, g.n)]):
                    v = T.L(f(T.sub(j, lo)))
                    out = v if out is None else T.ite(T.lt(j, lo), out, v)
                    lo = T.add(lo, m)
            return out
        j = T.fresh('j', I)
        for c in self.cands:
            # the same word as one that is already named: equal at every position
            h = self.e.hyps() + [inr(j, self.order)]
            if smt.check(h, T.eq(char(j), c(j)), 4000) == 'unsat':
                char = c
                break
        i = self.index(char)
        f = inr(i, T.app('ipow', (self.n, self.order), I))
        if f not in self.e.facts:
            self.e.facts.append(f)
        return i


@unit('C18', 'text_model.TextModel.getNthOrderPrior', [TM + ':TextModel.getNthOrderPrior'])
def u_priorn(e):
    X = Words(e)
    k = T.var('len', I)
    e.pc.append(T.le(X.order, k))
    s = lambda i: T.app('s', (T.L(i),), I)
    e.facts.append(forall(k, lambda i: inr(s(i), X.n)))

    def th():
        N_ = ipow(e, X.n, X.order)
        rounds = T.add(T.sub(k, X.order), 1)
        w = lambda t: X.index(lambda j: X.code(s(T.add(t, j))))
        C = Counts(e, (N_,), lambda t: (w(t),))
        counted(e, X.m.cls.find('getNthOrderPrior'), 'getNthOrderPrior', rounds, 0, C.arr, C.check)
        a = e.call(meth(e, X.m, 'getNthOrderPrior'), [text_of(X, s, k)])
        normalised(e, a, C, rounds, 'getNthOrderPrior', 'entries')
    return th


def ipow(e, n, k):
    r = T.app('ipow', (n, k), I)
    e.facts += [T.le(1, r), T.eq(T.app('ipow', (n, T.const(0)), I), T.const(1)), T.implies(T.le(1, k), T.eq(r, T.mul(n, T.app('ipow', (n, T.sub(k, 1)), I)))),
                T.implies(T.eq(k, T.const(1)), T.eq(r, n))]
    return r


@unit('C18', 'text_model.TextModel.getNthOrderPi', [TM + ':TextModel.getNthOrderPi'])
def u_pin(e):
    X = Words(e)
    k = T.var('len', I)
    e.pc.append(T.le(X.order, k))
    s = lambda i: T.app('s', (T.L(i),), I)
    e.facts.append(forall(k, lambda i: inr(s(i), X.n)))
    letter = lambda w, j: T.app('letter', (T.L(w), T.L(j)), I)

    def th():
        N_ = ipow(e, X.n, X.order)
        X.m.f['cond_chars'] = seqof(N_, lambda w: StrVal(Seq([Seg(X.order, lambda j: letter(w, j))])))
        w = lambda t: X.index(lambda j: X.code(s(T.add(t, j))))
        rounds = T.sub(k, X.order)
        C = Counts(e, (N_, N_), lambda t: (w(t), w(T.add(t, 1))))
        at = lambda t: lambda j: X.code(s(T.add(t, j)))

        def win(t):
            X.cands = [at(t), at(T.add(t, 1))]
            return StrVal(Seq([Seg(X.order, at(t))]))
        counted(e, X.m.cls.find('getNthOrderPi'), 'getNthOrderPi', rounds, X.order, C.arr, C.check, win, nloop=2)
        a = e.call(meth(e, X.m, 'getNthOrderPi'), [text_of(X, s, k)])
        normalised(e, a, C, rounds, 'getNthOrderPi', 'rows')
    return th


@unit('C18', 'text_model.TextModel.getNthOrderPo', [TM + ':TextModel.getNthOrderPo', TM + ':TextModel.get1stOrderPo'])
def u_pon(e):
    X = Words(e)
    p = T.var('errp', R)
    n = X.n
    e.pc += [T.le(q(0), p), T.le(p, q(1))]
    e.facts.append(T.eq(T.binder('bsum', n, lambda i: q(1)), T.toreal(n)))
    X.m.f['errp'] = p

    def th():
        N_ = ipow(e, n, X.order)
        a = e.call(meth(e, X.m, 'getNthOrderPo'), [])
        if isinstance(a, Arr) and len(a.shape) == 2:
            e.prove_bool(T.eq(a.shape[0], N_), 'getNthOrderPo: one row per word')
            N_ = a.shape[0]
        po(e, a, N_, n, p, lambda i: T.imod(i, n), 'getNthOrderPo')
    return th


def tracking_unit(mod, cls, d, Xl, Xn, U, H, HT, XT, disc, steps_=None):
    """getLQT: a tracking problem with `steps` steps between the N references; the first step of each block carries the reference weight"""
    @unit('C18', '%s.%s.getLQT' % (mod.split('.')[-1], cls), ['%s:%s.getLQT' % (mod, cls), PC + 'lqt_np:LQT.checkAndExpand'])
    def body(e):
        from .. import annot
        from ..values import divmod_terms
        import ast
        n, s = T.var('N', I), T.var('steps', I)
        e.pc += [T.le(1, n), T.le(1, s)]
        tot = T.mul(s, n)
        e.facts.append(T.le(n, tot))
        e.facts.append(T.le(s, tot))
        xy = lambda i, j: T.app('xy', (T.L(i), T.L(j)), R)
        Fd, Ld = mat_atom('Fd', (T.const(4), T.const(4)), (), False), mat_atom('Ld', (T.const(4), T.const(2)), (), False)

        def lti(it, closure, args, kw):
            b = it.bind(closure, args, kw).vars
            table_is(e, b['F'], A4, 'getLQT: continuous-time F')
            table_is(e, b['L'], B4, 'getLQT: continuous-time L')
            if b.get('G') is not None:
                table_is(e, b['G'], B4, 'getLQT: input gain')
            e.prove_bool(T.eq(T.mul(val(b['dt']), T.toreal(s)), q(1)), 'getLQT: steps of length 1/steps')
            return (Fd, Ld, mat_atom('Qd', (T.const(4), T.const(4)), (), True))
        if disc:
            e.contracts[PC + 'disc:lti_disc_u'] = lti

        def D(k):
            return divmod_terms(e, k, s, n)

        def ref(k):
            b = D(k)[0]
            return fnarr((T.const(d),), lambda i: xy(i, b))
        f = e.load(mod).g.vars[cls].find('getLQT')
        ls = annot.loops_of(f, e.load(mod).g.vars[cls])
        if len(ls) != 1 or not isinstance(ls[0], ast.For):
            raise Unsupported('loop structure of getLQT changed')

        def loop(it, st, fr):
            need = {'X': PyList, 'r': PyList, 'curr_r': Arr, 'i': (int, T.Term), 'Xl': Arr, 'Xn': Arr}
            if any(not isinstance(fr.vars.get(k), t) for k, t in need.items()):
                raise Unsupported('variables of the loop of getLQT')
            seq = it.iter_seq(it.ev(st.iter, fr))
            sg, = seq.segs
            wl, wn = fr.vars['Xl'], fr.vars['Xn']
            e.prove_bool(T.eq(sg.n, tot), 'getLQT: steps * N steps', 'inv')

            def wt(k):
                return wl if e.branch(T.eq(D(k)[1], T.const(0))) else wn

            def state(t):
                one = e.branch(T.le(1, t))
                b = D(T.sub(t, 1))[0] if one else T.const(-1)
                return dict(X=PyList(Seq([Seg(t, wt)])), r=PyList(Seq([Seg(t, ref)])), i=T.add(b, 1), curr_r=fnarr((T.const(d),), lambda i: xy(i, b if one else T.const(0))))
            lists = {k: fr.vars[k] for k in 'Xr'}
            for l in lists.values():
                l._inv_managed = True

            def setstate(t):
                w = state(t)
                for k in 'Xr':
                    fr.vars[k] = lists[k]
                    lists[k].seq = w[k].seq
                fr.vars['i'], fr.vars['curr_r'] = w['i'], w['curr_r']

            def check(t, lab):
                def th():
                    w = state(t)
                    for k in ('X', 'r', 'curr_r'):
                        if k != 'curr_r' and T.is_const(t):
                            e.prove_bool(T.eq(fr.vars[k].seq.length(), t), lab + ' (%s)' % k, 'inv')
                            continue
                        e.check_eq(fr.vars[k], w[k], lab + ' (%s)' % k, 'inv')
                    e.prove_bool(T.eq(T.L(fr.vars['i']), w['i']), lab + ' (counter)', 'inv')
                for o in e.explore(th):
                    if o.exc:
                        e.obl(lab, 'unknown', str(o.exc), 'inv', '')
            annot.invariant_loop(it, st, fr, tot, lambda t: it.assign(st.target, T.L(sg.fn(t)), fr), setstate, check, 'getLQT')

        def th():
            e.loop_handlers[id(ls[0])] = loop
            m = make(e, mod, cls)
            p, x0 = e.call(meth(e, m, 'getLQT'), [fnarr((T.const(d), n), xy), s])
            if not isinstance(p, Obj):
                return e.obl('getLQT returns a problem', 'refuted', repr(p)[:80], 'post', 'syntactic')
            k = T.var('k', I)
            last = T.sub(n, 1)

            def pt():
                e.assume(inr(k, tot))
                for nm, want in (('F', Fd if disc else eye(4)), ('L', Ld if disc else B4), ('U', U), ('H', H)):
                    g = p.f[nm].seq
                    e.prove_bool(T.eq(g.length(), tot), 'getLQT: one %s per step' % nm)
                    if isinstance(want, Arr):
                        e.check_eq(g.get(k, e), want, 'getLQT: %s of every step' % nm, 'post')
                    else:
                        table_is(e, g.get(k, e), want, 'getLQT: %s of every step' % nm)
                for nm in 'Xr':
                    e.prove_bool(T.eq(p.f[nm].seq.length(), tot), 'getLQT: one %s per step' % nm)
                b, rem = D(k)
                table_is(e, p.f['r'].seq.get(k, e), [xy(i, b) for i in range(d)], 'getLQT: the reference of step k is that of its block')
                table_is(e, p.f['X'].seq.get(k, e), Xl if e.branch(T.eq(rem, T.const(0))) else Xn, 'getLQT: tracking weight at the references, small elsewhere')
            for o in e.explore(pt):
                if o.exc:
                    e.obl('step readable', 'unknown', str(o.exc), 'post', '')
            z = q(0)
            table_is(e, p.f['XT'], XT, 'getLQT: XT')
            table_is(e, p.f['HT'], HT, 'getLQT: HT')
            table_is(e, p.f['rT'], [xy(i, last) for i in range(d)] + ([z, z] if d == 2 else []), 'getLQT: terminal reference is the last one')
            table_is(e, x0, [xy(i, 0) for i in range(d)] + [z] * (4 - d), 'getLQT: starts at the first reference')
        return th


SMALL = F(1, 1000000)
tracking_unit(LM, 'LinearModel', 2, eye(2, 100), eye(2, SMALL), eye(2, TENTH), eye(2, 1, 4), eye(4), eye(4), True)
tracking_unit(NM, 'NonlinearModel', 3, [[100, 0, 0], [0, 100, 0], [0, 0, 1000]], eye(3, SMALL), [[1, 0], [0, 100]], eye(3, 1, 4), eye(3, 1, 4), eye(3, SMALL), False)


@unit('C18', 'mass_model_np.MassModel.getLQT[5 masses]', [MM + ':MassModel.getLQT', PC + 'lqt_np:LQT.checkAndExpand'], kind='bounded')
def u_mass_lqt(e):
    n, two = T.const(10), T.const(2)
    Fd, Ld = mat_atom('Fd', (n, n), (), False), mat_atom('Ld', (n, two), (), False)
    dt, Tf = F(1, 4), F(1)
    seen = {}

    def lti(it, closure, args, kw):
        seen.update(it.bind(closure, args, kw).vars)
        return (Fd, Ld, mat_atom('Qd', (n, n), (), True))
    e.contracts[PC + 'disc:lti_disc_u'] = lti

    def th():
        m = make(e, MM, 'MassModel', [5])
        Fc, Lc = m.f['Fc'], m.f['Lc']
        p, x0 = e.call(meth(e, m, 'getLQT'), [dt, Tf])
        def same(a, b, lab, kind):
            if a is b:
                return e.obl(lab, 'proved', '', kind, 'syntactic')
            e.check_eq(a, b, lab, kind)
        same(seen.get('F'), Fc, 'getLQT: the continuous-time dynamics are sampled', 'post')
        same(seen.get('L'), Lc, 'getLQT: the continuous-time input gain is given', 'post')
        same(seen.get('G'), Lc, 'getLQT: the continuous-time input gain is sampled', 'post')
        e.prove_bool(T.eq(val(seen['dt']), q(dt)), 'getLQT: sampled at dt')
        t = T.const(4)
        for nm, w in (('F', Fd), ('L', Ld), ('X', m.f['X']), ('U', m.f['U'])):
            same(p.f[nm], seqof(t, lambda k, w=w: w), 'getLQT: %s of every step' % nm, 'post')
        same(p.f['XT'], m.f['XT'], 'getLQT: XT', 'post')
        same(x0, m.f['x0'], 'getLQT: x0', 'post')
    return th

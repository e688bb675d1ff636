"""Contracts for lqt_tf.py (C09): TensorFlow linear-quadratic tracking (canonical form: cross terms M = 0, s = 0, Z = I)."""
from .lqt_common import *
from ..runner import unit
from .util import *
from .tf_common import install_levels
from . import lqt_np as LN
from .. import arrops as A

MOD = 'parallel_control.lqt_tf'
Q = MOD + ':'
I_ = T.INT


class Canon(LQTProblem):
    """stacked problem with constant output dimension; canonical unless gen"""

    def __init__(self, e, gen=False, lib='tf'):
        self.gen = gen
        super().__init__(e, lib=lib, identZ=True, constp=True)

    def a(self, nm, k):
        if nm in ('M', 's') and not self.gen:
            sh = tuple(T.L(x) for x in self.sh[nm](k))
            return Arr('mat', sh, N.zero(mat_shape(sh)), 'f', self.lib)
        return super().a(nm, k)

    def t(self, nm, n=None):
        n = n or self.T
        return Arr('seq', (n,) + tuple(T.L(x) for x in self.sh[nm](T.const(0))), Seq([Seg(n, lambda i: self.a(nm, i))]), 'f', self.lib)

    def stack(self, spec, n):
        return Arr('seq', (n,) + tuple(T.L(x) for x in spec.shape), Seq([Seg(n, lambda i: spec.arr(i))]), 'f', self.lib)

    def atoms(self, nm, n, sh):
        return Arr('seq', (n,) + tuple(sh), Seq([Seg(n, lambda i: mat_atom(nm, sh, (T.L(i),), lib=self.lib))]), 'f', self.lib)


def ts(P, names):
    g = {'HT': P.HT, 'rT': P.rT, 'XT': P.XT}
    return [g[nm] if nm in g else P.t(nm) for nm in names]


ALL = ['F', 'c', 'L', 'H', 'HT', 'r', 'rT', 'X', 'XT', 'U']


def check_values(e, P, r, what):
    if not (isinstance(r, tuple) and len(r) == 4 and all(isinstance(x, Arr) for x in r)):
        e.obl(what + ' returns four tensors', 'refuted', repr(r)[:100], 'post', 'syntactic')
        return
    T1 = T.add(P.T, 1)
    for nm, val, sp, ln in zip(('value matrix', 'value vector', 'gain', 'offset'), r, (P.S, P.v, P.K, P.d), (T1, T1, P.T, P.T)):
        e.check_eq(val, P.stack(sp, ln), '%s: %s stack equals the Bellman solution at every step' % (what, nm))


def fits(e, n):
    mp = T.var('max_parallel', I_)
    e.pc.append(T.le(n, mp))
    install_levels(e)
    return mp


@unit('C09', 'lqt_tf.lqt_seq_backwardpass', [Q + 'lqt_seq_backwardpass'], tf=True)
def s1(e):
    P = Canon(e)
    f = e.func(MOD, 'lqt_seq_backwardpass')

    def th():
        check_values(e, P, e.call(f, ts(P, ALL)), 'lqt_seq_backwardpass')
    return th


@unit('C09', 'lqt_tf.lqt_par_backwardpass', [Q + 'lqt_par_backwardpass', Q + 'lqt_par_backwardpass_init_most',
      Q + 'lqt_par_backwardpass_init_last', Q + 'lqt_par_comb_V', Q + 'lqt_par_comb_V_rev'], tf=True)
def p1(e):
    P = Canon(e)
    mp = fits(e, P.T)
    f = e.func(MOD, 'lqt_par_backwardpass')
    for sp in (P.S, P.v):
        e.templates.append(Template(sp.name + ' reversed', lambda j, sp=sp: sp.arr(T.sub(P.T, j)), [0], (1,)))

    def th():
        check_values(e, P, e.call(f, ts(P, ALL) + [mp]), 'lqt_par_backwardpass')
    return th


def gains_t(P):
    return P.atoms('Kg', P.T, (P.m, P.n)), P.atoms('dg', P.T, (P.m,))


def check_traj(e, P, X, U, r, what):
    if not (isinstance(r, tuple) and len(r) == 2 and all(isinstance(x, Arr) for x in r)):
        e.obl(what + ' returns states and controls', 'refuted', repr(r)[:100], 'post', 'syntactic')
        return
    e.check_eq(r[1], P.stack(U, P.T), what + ': controls follow the control law at every step')
    e.check_eq(r[0], P.stack(X, T.add(P.T, 1)), what + ': states follow the dynamics at every step')


@unit('C09', 'lqt_tf.lqt_seq_forwardpass', [Q + 'lqt_seq_forwardpass'], tf=True)
def s2(e):
    P = Canon(e)
    X, U = LN.traj_specs(e, P)
    K, d = gains_t(P)
    f = e.func(MOD, 'lqt_seq_forwardpass')

    def th():
        check_traj(e, P, X, U, e.call(f, [P.x0] + ts(P, ['F', 'c', 'L']) + [K, d]), 'lqt_seq_forwardpass')
    return th


@unit('C09', 'lqt_tf.lqt_par_forwardpass', [Q + 'lqt_par_forwardpass', Q + 'lqt_par_forwardpass_init_first',
      Q + 'lqt_par_forwardpass_init_most', Q + 'lqt_par_comb_f'], tf=True)
def p2(e):
    P = Canon(e)
    X, U = LN.traj_specs(e, P)
    K, d = gains_t(P)
    mp = fits(e, P.T)
    f = e.func(MOD, 'lqt_par_forwardpass')

    def th():
        check_traj(e, P, X, U, e.call(f, [P.x0] + ts(P, ['F', 'c', 'L']) + [K, d, mp]), 'lqt_par_forwardpass')
    return th


def fb_setup(e):
    P = Canon(e)
    X, U = LN.optimal_traj(e, P)
    n, one = P.n, T.const(1)
    first = (N.zero((n, n)), P.x0.data, N.zero((n, n)), N.zero((n, one)), N.zero((n, n)))
    sp = prefix_specs(e, P, ['AP', 'bP', 'CP', 'eP', 'JP'], first, T.const(0))
    return P, X, U, sp


@unit('C09', 'lqt_tf.lemma.fwdbwd-relation', [], kind='lemma')
def l1(e):
    P, X, U, sp = fb_setup(e)
    LN.relation_lemma(e, P, X, sp, 1)


@unit('C09', 'lqt_tf.lqt_par_fwdbwdpass', [Q + 'lqt_par_fwdbwdpass', Q + 'lqt_par_fwdbwdpass_init_first',
      Q + 'lqt_par_fwdbwdpass_init_most', Q + 'lqt_par_comb_V'], tf=True)
def p3(e):
    P, X, U, sp = fb_setup(e)
    LN.use_relation(e, P, X, sp, T.const(0))
    mp = fits(e, P.T)
    f = e.func(MOD, 'lqt_par_fwdbwdpass')
    T1 = T.add(P.T, 1)

    def th():
        r = e.call(f, [P.x0] + ts(P, ['F', 'c', 'L', 'H', 'r', 'X', 'U']) +
                   [P.stack(P.S, T1), P.stack(P.v, T1), P.stack(P.K, P.T), P.stack(P.d, P.T), mp])
        check_traj(e, P, X, U, r, 'lqt_par_fwdbwdpass')
    return th


# ------------------------------------------------------------------ cost
@unit('C09', 'lqt_tf.lqt_cost', [Q + 'lqt_cost'], tf=True)
def c1(e):
    P = Canon(e)
    n, m, one = P.n, P.m, T.const(1)
    xa = lambda k: N.of_atom(N.atom('xg', (n, one), (T.L(k),)))
    ua = lambda k: N.of_atom(N.atom('ug', (m, one), (T.L(k),)))
    half = T.const(Fraction(1, 2))

    def res(k):
        return sb(mm(P.g('H', k), xa(k)), P.g('r', k))
    qx = lambda k: mm(tr(res(k)), P.g('X', k), res(k))
    qu = lambda k: mm(tr(ua(k)), P.g('U', k), ua(k))

    def summ(nm, q):
        def base(eng, k):
            if eng.entails(T.eq(k, 0)):
                return N.zero((one, one))

        def step(eng, k):
            if not eng.entails(T.lt(0, k)):
                return None
            k1 = T.sub(k, 1)
            return ad(sp.at(k1), q(k1))
        sp = Spec(nm, (), step, recursive=True, pred=lambda k: (T.sub(k, 1),), base=base)
        e.specs[nm] = sp
        e.templates.append(Template(nm, lambda i: sp.arr(i), [0], (1,)))
        return sp
    SX, SU = summ('SX', qx), summ('SU', qu)
    f = e.func(MOD, 'lqt_cost')
    k = T.var('k', I_)

    def lem():
        e.assume(T.le(0, k))
        e.assume(T.lt(k, P.T))
        inc = N.scale_term(ad(qx(k), qu(k)), half)
        e.prove_zero(sb(LN.stage_cost(P, k, xa(k), ua(k)), inc), 'lemma: the stage cost is half the sum of the state and control terms', 'lemma')
    e.explore(lem)

    def th():
        xt, u_t = P.atoms('xg', T.add(P.T, 1), (n,)), P.atoms('ug', P.T, (m,))
        r = e.call(f, [xt, u_t] + ts(P, ['H', 'HT', 'r', 'rT', 'X', 'XT', 'U']))
        want = ad(LN.terminal_cost(P, xa(P.T)), N.scale_term(ad(SX.at(P.T), SU.at(P.T)), half))
        e.check_eq(r, Arr('mat', (), want, 'f', 'tf'), 'lqt_cost: terminal cost plus the stage costs of every step')
    return th


# ------------------------------------------------------------------ general problems
def canon_elem(P, k):
    """canonical parameters of the general stage: u = u~ + s - U^-1 M'(H x - r)"""
    F, L, c, H, r, X, U, M, s = [P.g(q, k) for q in ('F', 'L', 'c', 'H', 'r', 'X', 'U', 'M', 's')]
    Ui = N.inverse(U)
    return (sb(F, mm(L, Ui, tr(M), H)), ad(c, mm(L, ad(s, mm(Ui, tr(M), r)))), sb(X, mm(M, Ui, tr(M))))


def seq_of(P, fn, shape):
    return Arr('seq', (P.T,) + tuple(shape), Seq([Seg(P.T, lambda i: Arr('mat', tuple(shape), fn(i), 'f', 'tf'))]), 'f', 'tf')


@unit('C09', 'lqt_tf.lqt_gen_to_canon', [Q + 'lqt_gen_to_canon'], tf=True)
def g1(e):
    P = Canon(e, gen=True)
    f = e.func(MOD, 'lqt_gen_to_canon')

    def th():
        r = e.call(f, ts(P, ['F', 'c', 'L', 'H', 'r', 'X', 'U', 'M', 's']))
        if not (isinstance(r, tuple) and len(r) == 3):
            e.obl('lqt_gen_to_canon returns three tensors', 'refuted', '', 'post', 'syntactic')
            return
        for q, (nm, sh) in enumerate((('dynamics', (P.n, P.n)), ('offset', (P.n,)), ('state weight', (P.pT, P.pT)))):
            e.check_eq(r[q], seq_of(P, lambda i, q=q: canon_elem(P, i)[q], sh), 'lqt_gen_to_canon: %s of the equivalent canonical stage' % nm)
    return th


@unit('C09', 'lqt_tf.lqt_canon_to_gen', [Q + 'lqt_canon_to_gen'], tf=True)
def g2(e):
    P = Canon(e, gen=True)
    f = e.func(MOD, 'lqt_canon_to_gen')
    K, d = gains_t(P)
    Kp = lambda k: N.of_atom(N.atom('Kg', (P.m, P.n), (T.L(k),)))
    dp = lambda k: N.of_atom(N.atom('dg', (P.m, T.const(1)), (T.L(k),)))

    def th():
        r = e.call(f, [K, d] + ts(P, ['H', 'r', 'U', 'M', 's']))
        if not (isinstance(r, tuple) and len(r) == 2):
            e.obl('lqt_canon_to_gen returns two tensors', 'refuted', '', 'post', 'syntactic')
            return
        ui = lambda k: N.inverse(P.g('U', k))
        e.check_eq(r[0], seq_of(P, lambda k: ad(Kp(k), mm(ui(k), tr(P.g('M', k)), P.g('H', k))), (P.m, P.n)), 'lqt_canon_to_gen: gain in the original control')
        e.check_eq(r[1], seq_of(P, lambda k: ad(dp(k), mm(ui(k), tr(P.g('M', k)), P.g('r', k)), P.g('s', k)), (P.m,)), 'lqt_canon_to_gen: offset in the original control')
    return th


@unit('C09', 'lqt_tf.lemma.canonical form', [], kind='lemma')
def l2(e):
    """substituting u = w + s - U^-1 M'(H x - r): same next state, same stage cost, and the law w = -K x + d becomes the converted law"""
    P = Canon(e, gen=True)
    k = T.var('k', I_)
    x, w = mat_atom('x', (P.n,)).data, mat_atom('w', (P.m,)).data
    F, L, c, H, r, X, U, M, s = [P.g(q, k) for q in ('F', 'L', 'c', 'H', 'r', 'X', 'U', 'M', 's')]
    Ui = N.inverse(U)
    y = sb(mm(H, x), r)
    u = sb(ad(w, s), mm(Ui, tr(M), y))
    F2, c2, X2 = canon_elem(P, k)
    half = T.const(Fraction(1, 2))
    e.prove_zero(sb(ad(mm(F, x), c, mm(L, u)), ad(mm(F2, x), c2, mm(L, w))), 'lemma: same dynamics', 'lemma')
    canon = N.scale_term(ad(mm(tr(y), X2, y), mm(tr(w), U, w)), half)
    e.prove_zero(sb(LN.stage_cost(P, k, x, u), canon), 'lemma: same stage cost', 'lemma')
    Kg, dg = mat_atom('Kg', (P.m, P.n)).data, mat_atom('dg', (P.m,)).data
    law = sb(dg, mm(Kg, x))
    conv = sb(ad(dg, mm(Ui, tr(M), r), s), mm(ad(Kg, mm(Ui, tr(M), H)), x))
    e.prove_zero(sb(sb(ad(law, s), mm(Ui, tr(M), y)), conv), 'lemma: the converted law gives the same control', 'lemma')


def conv_unit(name, names):
    @unit('C09', 'lqt_tf.' + name, [Q + name], tf=True)
    def body(e):
        P = Canon(e, gen=True, lib='np')
        f = e.func(MOD, name)

        def th():
            o = P.obj()
            fr = frame_of(o)
            r = e.call(f, [o])
            if not (isinstance(r, tuple) and len(r) == len(names)):
                e.obl(name + ' returns %d tensors' % len(names), 'refuted', '', 'post', 'syntactic')
                return
            for nm, got, want in zip(names, r, ts(P, names)):
                e.check_eq(got, want, '%s: %s keeps every entry in order' % (name, nm))
            check_frame(e, o, fr, name)
        return th


conv_unit('lqt_np_to_tf', ALL)
conv_unit('lqt_np_to_tf_gen', ALL + ['M', 's'])

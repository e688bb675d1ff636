"""Contracts for clqt_np.py (C11)."""
from .ode_common import *
from fractions import Fraction
from ..runner import unit
from .util import *
from . import scan_contract

MOD = 'parallel_control.clqt_np'
Q = MOD + ':'
Zr = T.const(0, R)


def dims(e, blocks=True):
    N_ = T.var('steps', I)
    e.pc.append(T.le(1, N_))
    B = None
    if blocks:
        B = T.var('blocks', I)
        e.pc.append(T.le(1, B))
        e.loop_facts = lambda j, n: [T.le(0, T.mul(j, N_)), T.le(T.mul(T.add(j, 1), N_), T.mul(n, N_))]
    return B, N_


def tl(n, f):
    return PyList(Seq([Seg(n, f)]))


def check_list(e, got, want, label):
    if not isinstance(got, PyList):
        e.obl(label, 'refuted', 'not a list', 'post', 'syntactic')
        return
    e.check_eq(got, want, label)


def law(P, S, v, t):
    return mm(P.ULT(t), S), mm(P.ULT(t), v)


def mat(P, p, shape):
    return Arr('mat', shape, p, 'f', P.lib)


def riccati_family(P, name, end, init, t0, h, outer=(), base_t=None, with_v=True):
    """value function at grid index i (i = end: given); outer indices shift the start time"""
    time = base_t or (lambda *ix: T.add(t0, T.mul(T.toreal(ix[-1]), h)))
    return Family(P, name, ['S', 'v'] if with_v else ['S'], rhs_riccati, -1, end, init, time, h, outer)


def check_value(e, P, r, fam, n, what, time, outer=(), pre=None):
    """Kx, d, S, v lists of one sequential pass"""
    K, d, S, v = r
    n1 = T.add(n, 1)
    check_list(e, S, tl(n1, lambda i: fam.arr('S', *outer, i)), what + ': value matrices, one per grid point, in time order')
    check_list(e, v, tl(n1, lambda i: fam.arr('v', *outer, i)), what + ': value vectors, one per grid point, in time order')
    lk = lambda i: law(P, fam.at('S', *outer, i), fam.at('v', *outer, i), time(i))
    check_list(e, K, tl(n, lambda i: mat(P, lk(i)[0], (P.m, P.n))), what + ': gains are those of the value function at the start of each step')
    check_list(e, d, tl(n, lambda i: mat(P, lk(i)[1], (P.m,))), what + ': offsets are those of the value function at the start of each step')


def seq_bw(given):
    @unit('C11', 'clqt_np.CLQT.seqBackwardPass' + ('[given grid and end condition]' if given else ''), [Q + 'CLQT.seqBackwardPass', Q + 'CLQT.riccati_ode_f'])
    def body(e):
        install(e)
        P = CT(e)
        _, n = dims(e, False)
        t0 = T.var('t0', R) if given else Zr
        h = T.var('h', R) if given else T.div(P.tend, T.toreal(n))
        S1, v1 = mat_atom('Sg', (P.n, P.n), sym=True), mat_atom('vg', (P.n,))
        fin = {'S': S1.data, 'v': v1.data} if given else {'S': P.ST, 'v': P.vT}
        fam = riccati_family(P, 'ric', n, lambda c: fin[c], t0, h)
        o = P.obj('CLQT')

        def th():
            fam.lemma_symmetry()
            fr = frame_of(o)
            r = e.call(meth(e, o, 'seqBackwardPass'), [n], dict(dt=h, t0=t0, S=S1, v=v1) if given else {})
            check_value(e, P, r, fam, n, 'seqBackwardPass', lambda i: T.add(t0, T.mul(T.toreal(i), h)))
            check_frame(e, o, fr, 'seqBackwardPass')
        return th


for g in (False, True):
    seq_bw(g)


# ------------------------------------------------------------------ sequential passes
def given_law(P, n):
    Kf = lambda k: N.of_atom(N.atom('Kg', (P.m, P.n), (T.L(k),)))
    df = lambda k: N.of_atom(N.atom('dg', (P.m, ONE), (T.L(k),))) if not P.reg else N.zero((P.m, ONE))
    return Kf, df, tl(n, lambda k: mat(P, Kf(k), (P.m, P.n))), tl(n, lambda k: mat(P, df(k), (P.m,)))


def control(P, Kf, df, k, x):
    return sb(df(k), mm(Kf(k), x))


def closed_family(P, name, n, Kf, df, t0, h, zoh, init, outer=(), gi=lambda *ix: ix[-1], time=None):
    time = time or (lambda *ix: T.add(t0, T.mul(T.toreal(gi(*ix)), h)))

    def par(*ix):
        k = gi(*ix)
        return control(P, Kf, df, k, fam.at('x', *ix)) if zoh else (Kf(k), df(k))
    fam = Family(P, name, ['x'], rhs_zoh if zoh else rhs_closed, 1, T.const(0), init, time, h, outer, par)
    return fam


def check_two(e, r, U, X, what):
    if not (isinstance(r, tuple) and len(r) == 2):
        e.obl(what + ' returns controls and states', 'refuted', repr(r)[:100], 'post', 'syntactic')
        return
    check_list(e, r[0], U, what + ': controls, one per step, follow the law')
    check_list(e, r[1], X, what + ': states, one per grid point, follow the closed loop')


def seq_fw(zoh, given):
    @unit('C11', 'clqt_np.CLQT.seqForwardPass[%s%s]' % ('zero-order hold' if zoh else 'feedback', ', given grid' if given else ''), [Q + 'CLQT.seqForwardPass'])
    def body(e):
        install(e)
        P = CT(e)
        _, n = dims(e, False)
        t0 = T.var('t0', R) if given else Zr
        h = T.var('h', R) if given else T.div(P.tend, T.toreal(n))
        Kf, df, K, d = given_law(P, n)
        fam = closed_family(P, 'cl', n, Kf, df, t0, h, zoh, lambda c: P.x0.data)
        o = P.obj('CLQT')

        def th():
            fr = frame_of(o)
            kw = dict(dt=h, t0=t0) if given else {}
            r = e.call(meth(e, o, 'seqForwardPass'), [P.x0, K, d], dict(kw, u_zoh=zoh))
            check_two(e, r, tl(n, lambda i: mat(P, control(P, Kf, df, i, fam.at('x', i)), (P.m,))), tl(T.add(n, 1), lambda i: fam.arr('x', i)), 'seqForwardPass')
            check_frame(e, o, fr, 'seqForwardPass')
        return th


for z in (False, True):
    for g in (False, True):
        seq_fw(z, g)


def seq_fb(given):
    @unit('C11', 'clqt_np.CLQT.seqFwdBwdPass' + ('[given grid and start]' if given else ''), [Q + 'CLQT.seqFwdBwdPass', Q + 'CLQT.fwdbwdpass_ode_f'])
    def body(e):
        install(e)
        P = CT(e)
        _, n = dims(e, False)
        t0 = T.var('t0', R) if given else Zr
        h = T.var('h', R) if given else T.div(P.tend, T.toreal(n))
        nn = (P.n, P.n)
        g = {'A': mat_atom('Ag', nn), 'b': mat_atom('bg', (P.n,)), 'C': mat_atom('Cg', nn, sym=True)}
        init = {c: v.data for c, v in g.items()} if given else {'A': N.zero(nn), 'b': P.x0.data, 'C': N.zero(nn)}
        fam = Family(P, 'abc', ['A', 'b', 'C'], rhs_fw, 1, T.const(0), lambda c: init[c], lambda i: T.add(t0, T.mul(T.toreal(i), h)), h)
        o = P.obj('CLQT')

        def th():
            fam.lemma_symmetry()
            r = e.call(meth(e, o, 'seqFwdBwdPass'), [None if given else P.x0, n], dict(dt=h, t0=t0, **g) if given else {})
            for k, c in enumerate('AbC'):
                check_list(e, r[k], tl(T.add(n, 1), lambda i, c=c: fam.arr(c, i)), 'seqFwdBwdPass: forward value functions at every grid point (%s)' % c)
        return th


for g in (False, True):
    seq_fb(g)


def fb_state(P, b, C, S, v):
    return mm(N.inverse(ad(N.ident(P.n), mm(C, S))), ad(b, mm(C, v)) if v is not None else b)


@unit('C11', 'clqt_np.CLQT.combineForwardBackward', [Q + 'CLQT.combineForwardBackward'])
def comb_unit(e):
    P = CT(e)
    _, n = dims(e, False)
    Kf, df, K, d = given_law(P, n)
    n1 = T.add(n, 1)
    f = lambda nm, sh, sym=False: (lambda k: mat_atom(nm, sh, (T.L(k),), sym))
    S, v, Aa, b, C = f('Sg', (P.n, P.n), True), f('vg', (P.n,)), f('Ag', (P.n, P.n)), f('bg', (P.n,)), f('Cg', (P.n, P.n), True)
    xs = lambda i: fb_state(P, b(i).data, C(i).data, S(i).data, v(i).data)
    o = P.obj('CLQT')

    def th():
        r = e.call(meth(e, o, 'combineForwardBackward'), [K, d] + [tl(n1, q) for q in (S, v, Aa, b, C)])
        check_two(e, r, tl(n, lambda i: mat(P, control(P, Kf, df, i, xs(i)), (P.m,))), tl(n1, lambda i: mat(P, xs(i), (P.n,))), 'combineForwardBackward')
    return th


# ------------------------------------------------------------------ parallel passes
def grid(e, P, given):
    B, n = dims(e)
    t0 = T.var('t0', R) if given else Zr
    h = T.var('h', R) if given else T.div(T.div(P.tend, T.toreal(n)), T.toreal(B))
    gtime = lambda k, i: T.add(t0, T.mul(T.add(T.mul(T.toreal(k), T.toreal(n)), T.toreal(i)), h))
    kw = dict(dt=h, t0=t0) if given else {}
    return B, n, t0, h, gtime, kw


OUT = [lambda st: st[0][0]]


def elem_family(P, n, h, gtime, fw):
    """block elements: the conditional value function of block k after integrating it from the identity element"""
    nn, one = (P.n, P.n), (P.n, ONE)
    ident = {'A': N.ident(P.n), 'b': N.zero(one), 'C': N.zero(nn), 'e': N.zero(one), 'J': N.zero(nn)}
    comps = ['A', 'b', 'C', 'e', 'J']
    if fw:
        fam = Family(P, 'blk', comps, rhs_fw, 1, T.const(0), lambda c, k: ident[c], gtime, h, OUT)
        return fam, lambda k: tuple(fam.at(c, k, n) for c in comps)
    fam = Family(P, 'blk', comps, rhs_bw, -1, n, lambda c, k: ident[c], gtime, h, OUT)
    return fam, lambda k: tuple(fam.at(c, k, T.const(0)) for c in comps)


def suffix_specs(e, P, B, elem):
    """value function at the block boundaries: in-order combination of the block elements with the end condition"""
    nn, one = (P.n, P.n), (P.n, ONE)

    def mk(q, nm, sh, sym, fin):
        def base(eng, k):
            if eng.entails(T.eq(k, B)):
                return fin

        def step(eng, k):
            if not eng.entails_h(T.lt(k, B)):
                return None
            k1 = T.add(k, 1)
            end = (N.zero(nn), N.zero(one), N.zero(nn), eB.at(k1), JB.at(k1))
            return combine(elem(k), end, P.n)[q]
        return Spec(nm, sh, step, sym=sym, recursive=True, pred=lambda k: (T.add(k, 1),), family=('JB', 'eB'), base=base)
    JB = mk(4, 'JB', (P.n, P.n), True, P.ST)
    eB = mk(3, 'eB', (P.n,), False, P.vT)
    for s in (JB, eB):
        e.specs[s.name] = s
        e.templates.append(Template(s.name, lambda i, s=s: s.arr(i), [B], (-1,)))
    return JB, eB


def par_bw(fw, given):
    @unit('C11', 'clqt_np.CLQT.parBackwardPass[%s%s]' % ('forward' if fw else 'backward', ', given grid' if given else ''),
          [Q + 'CLQT.' + x for x in ('parBackwardPass', 'parBackwardPass_init', 'parBackwardPass_extract', 'bwpass_fw_ode_f' if fw else 'bwpass_bw_ode_f',
                                     'seqBackwardPass', 'riccati_ode_f')] + ['parallel_control.lqt_np:par_backward_pass_scan'])
    def body(e):
        install(e)
        scan_contract.install(e)
        P = CT(e)
        B, n, t0, h, gtime, kw = grid(e, P, given)
        fam, elem = elem_family(P, n, h, gtime, fw)
        JB, eB = suffix_specs(e, P, B, elem)
        ric = Family(P, 'ric', ['S', 'v'], rhs_riccati, -1, n, lambda c, k: (JB if c == 'S' else eB).at(T.add(k, 1)), gtime, h, OUT)
        o = P.obj('CLQT')

        def th():
            fam.lemma_symmetry()
            ric.lemma_symmetry()
            fr = frame_of(o)
            K, d, S, v = e.call(meth(e, o, 'parBackwardPass'), [B, n], dict(kw, forward=fw))
            nest = lambda f: PyList(Seq([NSeg(e, B, n, f)]))
            first = lambda x, f: PyList(Seq([Seg(items=[x]), NSeg(e, B, n, f)]))
            w = 'parBackwardPass'
            check_list(e, S, first(JB.arr(T.const(0)), lambda k, i: ric.arr('S', k, T.add(i, 1))), w + ': value matrices at every grid point, in time order')
            check_list(e, v, first(eB.arr(T.const(0)), lambda k, i: ric.arr('v', k, T.add(i, 1))), w + ': value vectors at every grid point, in time order')
            lk = lambda k, i: law(P, ric.at('S', k, i), ric.at('v', k, i), gtime(k, i))
            check_list(e, K, nest(lambda k, i: mat(P, lk(k, i)[0], (P.m, P.n))), w + ': gains at every step, in time order')
            check_list(e, d, nest(lambda k, i: mat(P, lk(k, i)[1], (P.m,))), w + ': offsets at every step, in time order')
            check_frame(e, o, fr, w)
        return th


for fw in (False, True):
    for g in (False, True):
        par_bw(fw, g)


def flow_specs(e, P, B, elem):
    """block-boundary states: the affine block maps applied in time order to the start"""
    def mk(q, nm, sh, first):
        def base(eng, k):
            if eng.entails(T.eq(k, 0)):
                return first

        def step(eng, k):
            if not eng.entails_h(T.lt(0, k)):
                return None
            k1 = T.sub(k, 1)
            Ph, f = elem(k1)
            return mm(Ph, FP.at(k1)) if q == 0 else ad(mm(Ph, fx.at(k1)), f)
        return Spec(nm, sh, step, recursive=True, pred=lambda k: (T.sub(k, 1),), family=('FP', 'fx'), base=base)
    FP = mk(0, 'FP', (P.n, P.n), N.ident(P.n))
    fx = mk(1, 'fx', (P.n,), P.x0.data)
    for s in (FP, fx):
        e.specs[s.name] = s
        e.templates.append(Template(s.name, lambda i, s=s: s.arr(i), [T.const(0)], (1,)))
    return FP, fx


def block_families(e, P, B, n, h, gtime, fw, Kf, df):
    gi = lambda k, i: T.add(T.mul(k, n), i)
    init = {'P': N.ident(P.n), 'f': N.zero((P.n, ONE))}
    par = lambda k, i: (Kf(gi(k, i)), df(gi(k, i)))
    fl = Family(P, 'fl', ['P', 'f'], rhs_flow_fw if fw else rhs_flow_bw, 1 if fw else -1, T.const(0) if fw else n, lambda c, k: init[c], gtime, h, OUT, par)
    elem = lambda k: tuple(fl.at(c, k, n if fw else T.const(0)) for c in 'Pf')
    return gi, elem


def nest(e, B, n, f, last=None):
    return PyList(Seq([NSeg(e, B, n, f)] + ([Seg(items=[last])] if last is not None else [])))


def par_fw(fw, zoh, given):
    @unit('C11', 'clqt_np.CLQT.parForwardPass[%s, %s%s]' % ('forward' if fw else 'backward', 'zero-order hold' if zoh else 'feedback', ', given grid' if given else ''),
          [Q + 'CLQT.' + x for x in ('parForwardPass', 'parForwardPass_init', 'parForwardPass_extract', 'fwpass_fw_ode_f' if fw else 'fwpass_bw_ode_f',
                                     'seqForwardPass')] + ['parallel_control.lqt_np:par_forward_pass_scan'])
    def body(e):
        install(e)
        scan_contract.install(e)
        P = CT(e)
        B, n, t0, h, gtime, kw = grid(e, P, given)
        Kf, df, K, d = given_law(P, T.mul(B, n))
        gi, elem = block_families(e, P, B, n, h, gtime, fw, Kf, df)
        FP, fx = flow_specs(e, P, B, elem)
        fam = closed_family(P, 'cl', n, Kf, df, t0, h, zoh, lambda c, k: fx.at(k), OUT, gi, gtime)
        o = P.obj('CLQT')

        def th():
            fr = frame_of(o)
            r = e.call(meth(e, o, 'parForwardPass'), [P.x0, K, d, B, n], dict(kw, forward=fw, u_zoh=zoh))
            check_two(e, r, nest(e, B, n, lambda k, i: mat(P, control(P, Kf, df, gi(k, i), fam.at('x', k, i)), (P.m,))),
                      nest(e, B, n, lambda k, i: fam.arr('x', k, i), fx.arr(B)), 'parForwardPass')
            check_frame(e, o, fr, 'parForwardPass')
        return th


for fw in (False, True):
    for z in (False, True):
        par_fw(fw, z, z == fw)


def start_specs(e, P, elem):
    """conditional value function from the start to block boundary k: the point element at the start combined in order with the block
    elements; its A, eta, J parts are zero throughout because they are zero for the point element (A_ik = A_jk (..) 0, ...)"""
    nn, one = (P.n, P.n), (P.n, ONE)

    def mk(q, nm, sh, sym, first):
        def base(eng, k):
            if eng.entails(T.eq(k, 0)):
                return first

        def step(eng, k):
            if not eng.entails_h(T.lt(0, k)):
                return None
            k1 = T.sub(k, 1)
            return combine((N.zero(nn), Pb.at(k1), PC.at(k1), N.zero(one), N.zero(nn)), elem(k1), P.n)[q]
        return Spec(nm, sh, step, sym=sym, recursive=True, pred=lambda k: (T.sub(k, 1),), family=('Pb', 'PC'), base=base)
    Pb = mk(1, 'Pb', (P.n,), False, P.x0.data)
    PC = mk(2, 'PC', (P.n, P.n), True, N.zero(nn))
    for s in (Pb, PC):
        e.specs[s.name] = s
        e.templates.append(Template(s.name, lambda i, s=s: s.arr(i), [T.const(0)], (1,)))
    return Pb, PC


def par_fb(fw, given):
    @unit('C11', 'clqt_np.CLQT.parFwdBwdPass[%s%s]' % ('forward' if fw else 'backward', ', given grid' if given else ''),
          [Q + 'CLQT.' + x for x in ('parFwdBwdPass', 'parFwdBwdPass_init', 'parFwdBwdPass_extract', 'bwpass_fw_ode_f' if fw else 'bwpass_bw_ode_f',
                                     'seqFwdBwdPass', 'fwdbwdpass_ode_f', 'combineForwardBackward')] + ['parallel_control.lqt_np:par_fwdbwd_pass_scan'])
    def body(e):
        install(e)
        scan_contract.install(e)
        P = CT(e)
        B, n, t0, h, gtime, kw = grid(e, P, given)
        tot = T.mul(B, n)
        Kf, df, K, d = given_law(P, tot)
        gi = lambda k, i: T.add(T.mul(k, n), i)
        S = lambda k: mat_atom('Sg', (P.n, P.n), (T.L(k),), True)
        v = lambda k: mat_atom('vg', (P.n,), (T.L(k),))
        fam, elem = elem_family(P, n, h, gtime, fw)
        nn = (P.n, P.n)
        Pb, PC = start_specs(e, P, elem)
        ini = {'A': N.zero(nn), 'b': lambda k: Pb.at(k), 'C': lambda k: PC.at(k)}
        abc = Family(P, 'abc', ['A', 'b', 'C'], rhs_fw, 1, T.const(0), lambda c, k: ini[c](k) if callable(ini[c]) else ini[c], gtime, h, OUT)
        o = P.obj('CLQT')

        def th():
            fam.lemma_symmetry()
            abc.lemma_symmetry()
            fr = frame_of(o)
            n1 = T.add(tot, 1)
            r = e.call(meth(e, o, 'parFwdBwdPass'), [P.x0, K, d, tl(n1, S), tl(n1, v), B, n], dict(kw, forward=fw))
            xs = lambda k, i: fb_state(P, abc.at('b', k, i), abc.at('C', k, i), S(gi(k, i)).data, v(gi(k, i)).data)
            check_two(e, r, nest(e, B, n, lambda k, i: mat(P, control(P, Kf, df, gi(k, i), xs(k, i)), (P.m,))),
                      nest(e, B, n, lambda k, i: mat(P, xs(k, i), (P.n,)), mat(P, xs(T.sub(B, 1), n), (P.n,))), 'parFwdBwdPass')
            check_frame(e, o, fr, 'parFwdBwdPass')
        return th


for fw in (False, True):
    par_fb(fw, not fw)


# ------------------------------------------------------------------ regulator with constant data
def reg_riccati(P, h, end, init, outer=()):
    return Family(P, 'ric', ['S'], rhs_riccati, -1, end, init, lambda *ix: Zr, h, outer)


def check_reg(e, P, r, at, B, n, what):
    """gains and value matrices; at(k, i): value matrix; B None: one pass"""
    gain = lambda S: mat(P, mm(P.ULT(None), S), (P.m, P.n))
    if B is None:
        K, S = tl(n, lambda i: gain(at(i))), tl(T.add(n, 1), lambda i: mat(P, at(i), (P.n, P.n)))
    else:
        K = PyList(Seq([NSeg(e, B, n, lambda k, i: gain(at(k, i)))]))
        S = PyList(Seq([Seg(items=[mat(P, at(T.const(0), None), (P.n, P.n))]), NSeg(e, B, n, lambda k, i: mat(P, at(k, T.add(i, 1)), (P.n, P.n)))]))
    check_list(e, r[1], S, what + ': value matrices, one per grid point, in time order')
    check_list(e, r[0], K, what + ': gains are those of the value function at the start of each step')


def reg_seq_bw(given):
    @unit('C11', 'clqt_np.CLQR.seqBackwardPass' + ('[given step and end condition]' if given else ''), [Q + 'CLQR.seqBackwardPass'])
    def body(e):
        install(e)
        P = CT(e, reg=True)
        _, n = dims(e, False)
        h = T.var('h', R) if given else T.div(P.tend, T.toreal(n))
        S1 = mat_atom('Sg', (P.n, P.n), sym=True) if given else P.XT
        fam = reg_riccati(P, h, n, lambda c: S1.data)
        o = P.obj('CLQR')

        def th():
            fam.lemma_symmetry()
            fr = frame_of(o)
            r = e.call(meth(e, o, 'seqBackwardPass'), [n], dict(dt=h, S=S1) if given else {})
            check_reg(e, P, r, lambda i: fam.at('S', i), None, n, 'seqBackwardPass')
            check_frame(e, o, fr, 'seqBackwardPass')
        return th


def reg_closed(P, n, Kf, h, zoh, init, outer=(), gi=lambda *ix: ix[-1]):
    df = lambda k: N.zero((P.m, ONE))
    return closed_family(P, 'cl', n, Kf, df, Zr, h, zoh, init, outer, gi, lambda *ix: Zr), df


def reg_seq_fw(zoh, given):
    @unit('C11', 'clqt_np.CLQR.seqForwardPass[%s%s]' % ('zero-order hold' if zoh else 'feedback', ', given step' if given else ''), [Q + 'CLQR.seqForwardPass'])
    def body(e):
        install(e)
        P = CT(e, reg=True)
        _, n = dims(e, False)
        h = T.var('h', R) if given else T.div(P.tend, T.toreal(n))
        Kf, _, K, _ = given_law(P, n)
        fam, df = reg_closed(P, n, Kf, h, zoh, lambda c: P.x0.data)
        o = P.obj('CLQR')

        def th():
            fr = frame_of(o)
            r = e.call(meth(e, o, 'seqForwardPass'), [P.x0, K], dict(dict(dt=h) if given else {}, u_zoh=zoh))
            check_two(e, r, tl(n, lambda i: mat(P, control(P, Kf, df, i, fam.at('x', i)), (P.m,))), tl(T.add(n, 1), lambda i: fam.arr('x', i)), 'seqForwardPass')
            check_frame(e, o, fr, 'seqForwardPass')
        return th


def reg_seq_fb(given):
    @unit('C11', 'clqt_np.CLQR.seqFwdBwdPass' + ('[given step and start]' if given else ''), [Q + 'CLQR.seqFwdBwdPass', Q + 'CLQR.fwdbwdpass_ode_f'])
    def body(e):
        install(e)
        P = CT(e, reg=True)
        _, n = dims(e, False)
        h = T.var('h', R) if given else T.div(P.tend, T.toreal(n))
        nn = (P.n, P.n)
        g = {'A': mat_atom('Ag', nn), 'b': mat_atom('bg', (P.n,)), 'C': mat_atom('Cg', nn, sym=True)}
        init = {c: v.data for c, v in g.items()} if given else {'A': N.zero(nn), 'b': P.x0.data, 'C': N.zero(nn)}
        fam = Family(P, 'abc', ['A', 'b', 'C'], rhs_fw, 1, T.const(0), lambda c: init[c], lambda i: Zr, h)
        o = P.obj('CLQR')

        def th():
            fam.lemma_symmetry()
            r = e.call(meth(e, o, 'seqFwdBwdPass'), [None if given else P.x0, n], dict(dt=h, **g) if given else {})
            for k, c in enumerate('AbC'):
                check_list(e, r[k], tl(T.add(n, 1), lambda i, c=c: fam.arr(c, i)), 'seqFwdBwdPass: forward value functions at every grid point (%s)' % c)
        return th


for g in (False, True):
    reg_seq_bw(g)
    reg_seq_fb(g)
    for z in (False, True):
        reg_seq_fw(z, g)


@unit('C11', 'clqt_np.CLQR.combineForwardBackward', [Q + 'CLQR.combineForwardBackward'])
def reg_comb(e):
    P = CT(e, reg=True)
    _, n = dims(e, False)
    Kf, df, K, _ = given_law(P, n)
    n1 = T.add(n, 1)
    f = lambda nm, sh, sym=False: (lambda k: mat_atom(nm, sh, (T.L(k),), sym))
    S, Aa, b, C = f('Sg', (P.n, P.n), True), f('Ag', (P.n, P.n)), f('bg', (P.n,)), f('Cg', (P.n, P.n), True)
    xs = lambda i: fb_state(P, b(i).data, C(i).data, S(i).data, None)
    o = P.obj('CLQR')

    def th():
        r = e.call(meth(e, o, 'combineForwardBackward'), [K] + [tl(n1, q) for q in (S, Aa, b, C)])
        check_two(e, r, tl(n, lambda i: mat(P, control(P, Kf, df, i, xs(i)), (P.m,))), tl(n1, lambda i: mat(P, xs(i), (P.n,))), 'combineForwardBackward')
    return th


def reg_elem(P, n, h, fw):
    nn, one = (P.n, P.n), (P.n, ONE)
    ident = {'A': N.ident(P.n), 'b': N.zero(one), 'C': N.zero(nn), 'e': N.zero(one), 'J': N.zero(nn)}
    comps = ['A', 'b', 'C', 'e', 'J']
    fam = Family(P, 'blk', comps, rhs_fw if fw else rhs_bw, 1 if fw else -1, T.const(0) if fw else n, lambda c: ident[c], lambda i: Zr, h)
    return fam, lambda k: tuple(fam.at(c, n if fw else T.const(0)) for c in comps)


@unit('C11', 'clqt_np.CLQR.parBackwardPass', [Q + 'CLQR.' + x for x in ('parBackwardPass', 'parBackwardPass_init', 'parBackwardPass_extract', 'bwpass_bw_ode_f',
                                              'seqBackwardPass')] + ['parallel_control.lqt_np:par_backward_pass_scan'])
def reg_par_bw(e):
    install(e)
    scan_contract.install(e)
    P = CT(e, reg=True)
    B, n = dims(e)
    h = T.div(T.div(P.tend, T.toreal(n)), T.toreal(B))
    fam, elem = reg_elem(P, n, h, False)
    JB, eB = suffix_specs(e, P, B, elem)
    ric = reg_riccati(P, h, n, lambda c, k: JB.at(T.add(k, 1)), OUT)
    o = P.obj('CLQR')

    def th():
        fam.lemma_symmetry()
        ric.lemma_symmetry()
        fr = frame_of(o)
        r = e.call(meth(e, o, 'parBackwardPass'), [B, n])
        check_reg(e, P, r, lambda k, i: JB.at(T.const(0)) if i is None else ric.at('S', k, i), B, n, 'parBackwardPass')
        check_frame(e, o, fr, 'parBackwardPass')
    return th


@unit('C11', 'clqt_np.CLQR.parBackwardPass_init[forward]', [Q + 'CLQR.parBackwardPass_init', Q + 'CLQR.bwpass_fw_ode_f'])
def reg_par_bw_init(e):
    install(e)
    P = CT(e, reg=True)
    B, n = dims(e)
    h = T.div(T.div(P.tend, T.toreal(n)), T.toreal(B))
    fam, elem = reg_elem(P, n, h, True)
    o = P.obj('CLQR')
    sh = [(P.n, P.n), (P.n,), (P.n, P.n), (P.n,), (P.n, P.n)]

    def th():
        fam.lemma_symmetry()
        r = e.call(meth(e, o, 'parBackwardPass_init'), [B, n], dict(forward=True))
        tup = lambda ps: tuple(mat(P, p, s) for p, s in zip(ps, sh))
        end = (N.zero((P.n, P.n)), N.zero((P.n, ONE)), N.zero((P.n, P.n)), N.zero((P.n, ONE)), P.ST)
        check_list(e, r, PyList(Seq([Seg(B, lambda k: tup(elem(k))), Seg(items=[tup(end)])])), 'parBackwardPass_init: one element per block, then the end condition')
    return th


def reg_par_fw(fw, zoh):
    part = [] if fw else ['parForwardPass_init']

    @unit('C11', 'clqt_np.CLQR.parForwardPass%s[%s]' % ('' if fw else '_init', ('zero-order hold' if zoh else 'feedback') if fw else 'backward'),
          [Q + 'CLQR.' + x for x in (part or ('parForwardPass', 'parForwardPass_init', 'parForwardPass_extract', 'seqForwardPass'))] +
          [Q + 'CLQR.' + ('fwpass_fw_ode_f' if fw else 'fwpass_bw_ode_f')] + (['parallel_control.lqt_np:par_forward_pass_scan'] if fw else []))
    def body(e):
        install(e)
        scan_contract.install(e)
        P = CT(e, reg=True)
        B, n = dims(e)
        h = T.div(T.div(P.tend, T.toreal(n)), T.toreal(B))
        Kf, _, K, _ = given_law(P, T.mul(B, n))
        gi = lambda k, i: T.add(T.mul(k, n), i)
        init = {'P': N.ident(P.n), 'f': N.zero((P.n, ONE))}
        fl = Family(P, 'fl', ['P', 'f'], rhs_flow_fw if fw else rhs_flow_bw, 1 if fw else -1, T.const(0) if fw else n, lambda c, k: init[c],
                    lambda k, i: Zr, h, OUT, lambda k, i: (Kf(gi(k, i)), N.zero((P.m, ONE))))
        elem = lambda k: tuple(fl.at(c, k, n if fw else T.const(0)) for c in 'Pf')
        FP, fx = flow_specs(e, P, B, elem)
        fam, df = reg_closed(P, n, Kf, h, zoh, lambda c, k: fx.at(k), OUT, gi)
        o = P.obj('CLQR')

        def th():
            fr = frame_of(o)
            if not fw:
                r = e.call(meth(e, o, 'parForwardPass_init'), [P.x0, K, B, n], dict(forward=False))
                pair = lambda p, f: (mat(P, p, (P.n, P.n)), mat(P, f, (P.n,)))
                check_list(e, r, PyList(Seq([Seg(items=[pair(N.ident(P.n), P.x0.data)]), Seg(B, lambda k: pair(*elem(k)))])), 'parForwardPass_init: the start, then one affine map per block')
            else:
                r = e.call(meth(e, o, 'parForwardPass'), [P.x0, K, B, n], dict(u_zoh=zoh))
                check_two(e, r, nest(e, B, n, lambda k, i: mat(P, control(P, Kf, df, gi(k, i), fam.at('x', k, i)), (P.m,))),
                          nest(e, B, n, lambda k, i: fam.arr('x', k, i), fx.arr(B)), 'parForwardPass')
            check_frame(e, o, fr, 'parForwardPass')
        return th


for fw, z in ((True, False), (True, True), (False, False)):
    reg_par_fw(fw, z)


def reg_par_fb(fw):
    @unit('C11', 'clqt_np.CLQR.parFwdBwdPass%s' % ('' if fw else '_init[backward]'),
          [Q + 'CLQR.' + x for x in (('parFwdBwdPass', 'parFwdBwdPass_init', 'parFwdBwdPass_extract', 'bwpass_fw_ode_f', 'seqFwdBwdPass', 'fwdbwdpass_ode_f',
                                     'combineForwardBackward') if fw else ('parFwdBwdPass_init', 'bwpass_bw_ode_f'))] +
          (['parallel_control.lqt_np:par_fwdbwd_pass_scan'] if fw else []))
    def body(e):
        install(e)
        scan_contract.install(e)
        P = CT(e, reg=True)
        B, n = dims(e)
        h = T.div(T.div(P.tend, T.toreal(n)), T.toreal(B))
        tot = T.mul(B, n)
        Kf, df, K, _ = given_law(P, tot)
        gi = lambda k, i: T.add(T.mul(k, n), i)
        S = lambda k: mat_atom('Sg', (P.n, P.n), (T.L(k),), True)
        fam, elem = reg_elem(P, n, h, fw)
        nn, one = (P.n, P.n), (P.n, ONE)
        Pb, PC = start_specs(e, P, elem)
        ini = {'A': lambda k: N.zero(nn), 'b': lambda k: Pb.at(k), 'C': lambda k: PC.at(k)}
        abc = Family(P, 'abc', ['A', 'b', 'C'], rhs_fw, 1, T.const(0), lambda c, k: ini[c](k), lambda k, i: Zr, h, OUT)
        o = P.obj('CLQR')
        sh = [(P.n, P.n), (P.n,), (P.n, P.n), (P.n,), (P.n, P.n)]

        def th():
            fam.lemma_symmetry()
            abc.lemma_symmetry()
            fr = frame_of(o)
            if not fw:
                r = e.call(meth(e, o, 'parFwdBwdPass_init'), [P.x0, B, n], dict(forward=False))
                tup = lambda ps: tuple(mat(P, p, s) for p, s in zip(ps, sh))
                first = (N.zero(nn), P.x0.data, N.zero(nn), N.zero(one), N.zero(nn))
                check_list(e, r, PyList(Seq([Seg(items=[tup(first)]), Seg(B, lambda k: tup(elem(k)))])), 'parFwdBwdPass_init: the start, then one element per block')
            else:
                r = e.call(meth(e, o, 'parFwdBwdPass'), [P.x0, K, tl(T.add(tot, 1), S), B, n])
                xs = lambda k, i: fb_state(P, abc.at('b', k, i), abc.at('C', k, i), S(gi(k, i)).data, None)
                check_two(e, r, nest(e, B, n, lambda k, i: mat(P, control(P, Kf, df, gi(k, i), xs(k, i)), (P.m,))),
                          nest(e, B, n, lambda k, i: mat(P, xs(k, i), (P.n,)), mat(P, xs(T.sub(B, 1), n), (P.n,))), 'parFwdBwdPass')
            check_frame(e, o, fr, 'parFwdBwdPass')
        return th


for fw in (True, False):
    reg_par_fb(fw)


# ------------------------------------------------------------------ the 'exact' variants
def expm_poly(e, P, p):
    return SH.keyed(e, 'expm', [p], p.shape)


def ham_blocks(e, P, h):
    """blocks of exp(-h H), H = [[F, -G], [-Q, -F']] the Hamiltonian matrix"""
    F, G, Qm = P.g('F', None), P.G(None), P.Q(None)
    s = lambda p: N.scale_term(p, T.mul(T.const(-1, R), h))
    flat = [s(F), s(neg(G)), s(neg(Qm)), s(neg(tr(F)))]
    return [[SH.keyed(e, 'expm_%d_%d' % (i, j), flat, (P.n, P.n)) for j in range(2)] for i in range(2)]


@unit('C11', 'clqt_np.CLQR.seqBackwardPass[exact]', [Q + 'CLQR.seqBackwardPass'])
def reg_exact_bw(e):
    P = CT(e, reg=True)
    _, n = dims(e, False)
    h = T.var('h', R)
    S1 = mat_atom('Sg', (P.n, P.n), sym=True)
    o = P.obj('CLQR')
    nn = (P.n, P.n)

    def mk(q, nm, last):
        def base(eng, k):
            if eng.entails(T.eq(k, n)):
                return last

        def step(eng, k):
            if not eng.entails_h(T.lt(k, n)):
                return None
            E = ham_blocks(e, P, h)
            k1 = T.add(k, 1)
            return ad(mm(E[q][0], Cs.at(k1)), mm(E[q][1], Ds.at(k1)))
        return Spec(nm, nn, step, recursive=True, pred=lambda k: (T.add(k, 1),), family=('Cx', 'Dx'), base=base)
    Cs, Ds = mk(0, 'Cx', N.ident(P.n)), mk(1, 'Dx', S1.data)
    for s in (Cs, Ds):
        e.specs[s.name] = s
    two = lambda i: Arr('blk', (T.add(P.n, P.n), P.n), A.Block([P.n, P.n], [P.n], [[Cs.at(i)], [Ds.at(i)]]), 'f', 'np')
    e.templates.append(Template('CD', two, [n], (-1,)))

    def val(i):
        x = mm(Ds.at(i), N.inverse(Cs.at(i)))
        return N.scale_term(ad(x, tr(x)), T.const(Fraction(1, 2)))

    def at(i):
        return S1.data if e.entails(T.eq(i, n)) else val(i)

    def th():
        K, S = e.call(meth(e, o, 'seqBackwardPass'), [n], dict(dt=h, S=S1, method='exact'))
        check_reg(e, P, (K, S), lambda i: at(T.L(i)), None, n, 'seqBackwardPass (Hamiltonian flow)')
    return th


def reg_exact_fw(zoh):
    @unit('C11', 'clqt_np.CLQR.seqForwardPass[exact, %s]' % ('zero-order hold' if zoh else 'feedback'), [Q + 'CLQR.seqForwardPass', 'parallel_control.disc:lti_disc_u'])
    def body(e):
        P = CT(e, reg=True)
        _, n = dims(e, False)
        h = T.var('h', R)
        Kf, df, K, _ = given_law(P, n)
        F, L = P.g('F', None), P.g('L', None)
        sd = lambda x: N.scale_term(x, h)

        def base(eng, k):
            if eng.entails(T.eq(k, 0)):
                return P.x0.data

        def step(eng, k):
            if not eng.entails_h(T.lt(0, k)):
                return None
            k1 = T.sub(k, 1)
            x = xs.at(k1)
            if zoh:
                Ad = SH.keyed(e, 'expm', [sd(F)], F.shape)
                Bd = SH.keyed(e, 'expm12', [sd(F), sd(L), N.zero((P.m, P.m))], L.shape)
                return sb(mm(Ad, x), mm(Bd, Kf(k1), x))
            M = sd(sb(F, mm(L, Kf(k1))))
            return mm(SH.keyed(e, 'expm', [M], M.shape), x)
        xs = Spec('xs', (P.n,), step, recursive=True, pred=lambda k: (T.sub(k, 1),), base=base)
        e.specs['xs'] = xs
        e.templates.append(Template('x', lambda i: xs.arr(i), [T.const(0)], (1,)))
        o = P.obj('CLQR')

        def th():
            r = e.call(meth(e, o, 'seqForwardPass'), [P.x0, K], dict(dt=h, method='exact', u_zoh=zoh))
            check_two(e, r, tl(n, lambda i: mat(P, neg(mm(Kf(i), xs.at(i))), (P.m,))), tl(T.add(n, 1), lambda i: xs.arr(i)), 'seqForwardPass (exact discretisation)')
        return th


for z in (False, True):
    reg_exact_fw(z)


# ------------------------------------------------------------------ rejected arguments
def reject(cls, name, mk, label):
    @unit('C11', 'clqt_np.%s.%s[%s]' % (cls, name, label), [Q + '%s.%s' % (cls, name)])
    def body(e):
        install(e)
        scan_contract.install(e)
        P = CT(e, reg=cls == 'CLQR')
        B, n = dims(e)
        ln = T.var('given', I)
        e.pc += [T.le(0, ln), T.ne(ln, T.mul(B, n))]
        args, kw = mk(P, B, n, ln)
        o = P.obj(cls)

        def th():
            try:
                e.call(meth(e, o, name), args, kw)
            except PyRaise as x:
                e.obl('%s rejects %s with ValueError' % (name, label), 'proved' if x.etype == 'ValueError' else 'unknown', str(x), 'post', 'symbolic execution')
                return
            e.obl('%s rejects %s with ValueError' % (name, label), e.model_of('sat', T.TRUE), 'returned normally', 'post', 'symbolic execution')
        return th


def lists(P, ln):
    Kf, df, K, d = given_law(P, ln)
    return ([K] if P.reg else [K, d])


def vals(P, ln):
    S = tl(ln, lambda k: mat_atom('Sg', (P.n, P.n), (T.L(k),), True))
    v = tl(ln, lambda k: mat_atom('vg', (P.n,), (T.L(k),)))
    return [S] if P.reg else [S, v]


def elems(P, B):
    f = lambda nm, sh, sym=False: (lambda k: mat_atom(nm, sh, (T.L(k),), sym))
    nn = (P.n, P.n)
    g = [f('el' + c, nn if SHAPES[c] == 2 else (P.n,), c in SYM) for c in 'AbCeJ']
    return [tl(T.add(B, 1), lambda k: tuple(q(k) for q in g))]


for cls in ('CLQT', 'CLQR'):
    reject(cls, 'parForwardPass', lambda P, B, n, ln: ([P.x0] + lists(P, ln) + [B, n], {}), 'gain list of a wrong length')
    reject(cls, 'parFwdBwdPass_extract', lambda P, B, n, ln: (lists(P, ln) + vals(P, T.add(ln, 1)) + elems(P, B) + [n], {}), 'gain list of a wrong length')
    reject(cls, 'parFwdBwdPass_extract', lambda P, B, n, ln: (lists(P, T.mul(B, n)) + vals(P, T.add(ln, 1)) + elems(P, B) + [n], {}), 'value list of a wrong length')


# ------------------------------------------------------------------ lemmas about the stated equations
class Dual:
    """first order in the length of an infinitesimal interval: p0 + eps p1"""

    def __init__(self, p0, p1=None):
        self.a, self.b = p0, p1 if p1 is not None else N.zero(p0.shape)

    def __matmul__(self, o):
        return Dual(mm(self.a, o.a), ad(mm(self.a, o.b), mm(self.b, o.a)))

    def __add__(self, o):
        return Dual(ad(self.a, o.a), ad(self.b, o.b))

    def __sub__(self, o):
        return Dual(sb(self.a, o.a), sb(self.b, o.b))

    @property
    def T(self):
        return Dual(tr(self.a), tr(self.b))

    def inv1(self):
        """inverse of I + eps M to first order: I - eps M   ((I + eps M)(I - eps M) = I - eps^2 M M)"""
        assert sb(self.a, N.ident(self.a.shape[0])).is_zero()
        return Dual(self.a, neg(self.b))


def dual_combine(x, y, n):
    """combination rule of conditional value functions, x earlier than y"""
    A1, b1, C1, e1, J1 = x
    A2, b2, C2, e2, J2 = y
    Id = Dual(N.ident(n))
    M1, M2 = (Id + C1 @ J2).inv1(), (Id + J2 @ C1).inv1()
    return (A2 @ M1 @ A1, A2 @ M1 @ (b1 + C1 @ e2) + b2, A2 @ M1 @ C1 @ A2.T + C2, A1.T @ M2 @ (e2 - J2 @ b1) + e1, A1.T @ M2 @ J2 @ A1 + J1)


def slice_elem(P, t):
    """conditional value function of an infinitesimal interval at time t"""
    z = lambda p: N.zero(p.shape)
    F, c, G, q, Qm = P.g('F', t), P.g('c', t), P.G(t), P.q(t), P.Q(t)
    return (Dual(N.ident(P.n), F), Dual(z(c), c), Dual(z(G), G), Dual(z(q), q), Dual(z(Qm), Qm))


@unit(['C11', 'C12'], 'clqt.lemma.the equations are the infinitesimal combination rule', [], kind='lemma')
def lem_comb(e):
    P = CT(e)
    t = T.var('t', R)
    at = {c: mat_atom('g' + c, (P.n, P.n) if SHAPES[c] == 2 else (P.n,), sym=c in SYM).data for c in 'AbCeJ'}
    E = tuple(Dual(at[c]) for c in 'AbCeJ')
    sl = slice_elem(P, t)

    def th():
        # the finite combination rule used by the other contracts agrees with the dual one at zero length
        fw, bw = rhs_fw(P, t, at), rhs_bw(P, t, at)
        x = dual_combine(E, sl, P.n)
        y = dual_combine(sl, E, P.n)
        for k, c in enumerate('AbCeJ'):
            e.prove_zero(sb(x[k].a, at[c]), 'appending an interval of length zero changes nothing (%s)' % c, 'lemma')
            e.prove_zero(sb(y[k].a, at[c]), 'prepending an interval of length zero changes nothing (%s)' % c, 'lemma')
            e.prove_zero(sb(x[k].b, fw[c]), 'forward equation = derivative of the combination in the end time (%s)' % c, 'lemma')
            e.prove_zero(ad(y[k].b, bw[c]), 'backward equation = minus the derivative of the combination in the start time (%s)' % c, 'lemma')
        nn, one = (P.n, P.n), (P.n, ONE)
        S, v = mat_atom('gS', (P.n, P.n), sym=True).data, mat_atom('gv', (P.n,)).data
        end = (Dual(N.zero(nn)), Dual(N.zero(one)), Dual(N.zero(nn)), Dual(v), Dual(S))
        r = dual_combine(sl, end, P.n)
        d = rhs_riccati(P, t, {'S': S, 'v': v})
        e.prove_zero(ad(r[4].b, d['S']), 'Riccati equation = minus the derivative of prepending an interval to the value function (S)', 'lemma')
        e.prove_zero(ad(r[3].b, d['v']), 'Riccati equation = minus the derivative of prepending an interval to the value function (v)', 'lemma')
    return th


@unit(['C11', 'C12'], 'clqt.lemma.optimality', [], kind='lemma')
def lem_hjb(e):
    """the value function V = 1/2 x'Sx - v'x with the stated derivatives and the stated control u* = d - K x satisfies, for all x and u,
    running cost + dV/dt + V_x'(Fx + Lu + c) = 1/2 (u - u*)'U(u - u*) + terms independent of x and u: the law is the unique minimiser
    (U positive definite) and the value function solves the Hamilton-Jacobi-Bellman equation"""
    P = CT(e)
    t = T.var('t', R)
    S, v = mat_atom('gS', (P.n, P.n), sym=True).data, mat_atom('gv', (P.n,)).data
    x, u = mat_atom('gx', (P.n,)).data, mat_atom('gu', (P.m,)).data
    half = lambda p: N.scale_term(p, T.const(Fraction(1, 2)))

    def th():
        d = rhs_riccati(P, t, {'S': S, 'v': v})
        K, off = law(P, S, v, t)

        def total(x, u):
            us = sb(off, mm(K, x))
            run = ad(half(mm(tr(x), P.Q(t), x)), neg(mm(tr(x), P.q(t))), half(mm(tr(u), P.g('U', t), u)))
            vt = sb(half(mm(tr(x), d['S'], x)), mm(tr(x), d['v']))
            vx = mm(tr(sb(mm(S, x), v)), ad(mm(P.g('F', t), x), mm(P.g('L', t), u), P.g('c', t)))
            dev = sb(u, us)
            return ad(run, vt, vx, neg(half(mm(tr(dev), P.g('U', t), dev))))
        z = total(x, u)
        c = total(N.zero(x.shape), N.zero(u.shape))
        r = sb(z, c)
        e.prove_zero(ad(r, tr(r)), 'completion of the square', 'lemma')
    return th

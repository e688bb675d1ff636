"""Contracts for clqt_tf.py (C12): the same families of integration states as the numpy formulation."""
from .clqt_np import *
from .tf_common import install_levels
from .. import values as V

MOD = 'parallel_control.clqt_tf'
Q = MOD + ':'
DIFF = 'parallel_control.diffeq_tf'


def setup(e, blocks=True):
    install(e, DIFF, dict(t=Zr, param=Zr))
    P = CT(e, lib='tf')
    B, n = dims(e, blocks)
    t0, h = T.var('t0', R), T.var('h', R)
    P.a_t0, P.a_h = [Arr('fn', (), lambda x=x: x, 'f', 'tf') for x in (t0, h)]
    gtime = (lambda k, i: T.add(t0, T.mul(T.add(T.mul(T.toreal(k), T.toreal(n)), T.toreal(i)), h))) if blocks else (lambda i: T.add(t0, T.mul(T.toreal(i), h)))
    mp = None
    if blocks:
        mp = T.var('max_parallel', I)
        e.pc.append(T.le(B, mp))
        install_levels(e)
    return P, B, n, t0, h, gtime, mp


def fns(P, names='FLXUcHr'):
    return [P.fn(q) for q in names]


def stk(segs, inner, lib='tf'):
    s = segs if isinstance(segs, Seq) else Seq(segs)
    return Arr('seq', (s.length(),) + tuple(inner), s, 'f', lib)


def sq(n, f, inner):
    return stk([Seg(n, f)], inner)


def nest_t(e, B, n, f, inner, first=None, last=None):
    return stk(([Seg(items=[first])] if first is not None else []) + [NSeg(e, B, n, f)] + ([Seg(items=[last])] if last is not None else []), inner)


def check_parts(e, r, parts, what):
    if not (isinstance(r, tuple) and len(r) == len(parts) and all(isinstance(x, Arr) for x in r)):
        e.obl(what + ' returns %d tensors' % len(parts), 'refuted', repr(r)[:100], 'post', 'syntactic')
        return
    for x, (nm, w) in zip(r, parts):
        e.check_eq(x, w, '%s: %s' % (what, nm))


def value_parts(P, S, v, K, d):
    return [('value matrices, one per grid point, in time order', S), ('value vectors, one per grid point, in time order', v),
            ('gains are those of the value function at the start of each step', K), ('offsets are those of the value function at the start of each step', d)]


@unit('C12', 'clqt_tf.defaults', [Q + x for x in ('clqt_seq_backwardpass_defaults', 'clqt_seq_fwdbwdpass_defaults', 'par_backwardpass_defaults', 'clqt_par_fwdbwdpass_defaults')], tf=True)
def defaults(e):
    P, B, n, t0, h, gtime, mp = setup(e)
    end = Arr('fn', (), lambda: P.tend, 'f', 'tf')
    sc = lambda t: Arr('fn', (), lambda: t, 'f', 'tf')
    d1, dB = T.div(P.tend, T.toreal(n)), T.div(P.tend, T.toreal(T.mul(n, B)))
    nn = (P.n, P.n)

    def same(r, want, what):
        if not (isinstance(r, tuple) and len(r) == len(want)):
            e.obl(what + ': number of results', 'refuted', '', 'post', 'syntactic')
            return
        for x, (nm, w) in zip(r, want):
            if isinstance(w, T.Term):
                e.prove_bool(T.eq(time_of(x), w), '%s: %s' % (what, nm))
            else:
                e.check_eq(x, w, '%s: %s' % (what, nm))

    def th():
        S, v = mat(P, P.ST, nn), mat(P, P.vT, (P.n,))
        f = lambda nm, a: e.call(e.func(MOD, nm), a)
        ends = [('end value matrix', S), ('end value vector', v)]
        same(f('clqt_seq_backwardpass_defaults', [n, P.XT, P.HT, P.rT, end]), [('step', d1), ('start time', Zr)] + ends, 'clqt_seq_backwardpass_defaults')
        same(f('par_backwardpass_defaults', [B, n, P.XT, P.HT, P.rT, end]), [('step', dB), ('start time', Zr)] + ends, 'par_backwardpass_defaults')
        same(f('clqt_par_fwdbwdpass_defaults', [B, n, end]), [('step', dB), ('start time', Zr)], 'clqt_par_fwdbwdpass_defaults')
        z = mat(P, N.zero(nn), nn)
        same(f('clqt_seq_fwdbwdpass_defaults', [P.x0, n, end]), [('step', d1), ('start time', Zr), ('start A', z), ('start b', P.x0), ('start C', z)], 'clqt_seq_fwdbwdpass_defaults')
    return th


@unit('C12', 'clqt_tf.clqt_seq_backwardpass', [Q + 'clqt_seq_backwardpass', Q + 'pack_Sv', Q + 'unpack_Sv'], tf=True)
def tseq_bw(e):
    P, _, n, t0, h, gtime, _ = setup(e, False)
    S1, v1 = mat_atom('Sg', (P.n, P.n), sym=True, lib='tf'), mat_atom('vg', (P.n,), lib='tf')
    fin = {'S': S1.data, 'v': v1.data}
    fam = riccati_family(P, 'ric', n, lambda c: fin[c], t0, h)

    def th():
        fam.lemma_symmetry()
        r = e.call(e.func(MOD, 'clqt_seq_backwardpass'), [n, P.a_h, P.a_t0, S1, v1] + fns(P))
        lk = lambda i: law(P, fam.at('S', i), fam.at('v', i), gtime(i))
        n1 = T.add(n, 1)
        check_parts(e, r, value_parts(P, sq(n1, lambda i: fam.arr('S', i), (P.n, P.n)), sq(n1, lambda i: fam.arr('v', i), (P.n,)),
                                      sq(n, lambda i: mat(P, lk(i)[0], (P.m, P.n)), (P.m, P.n)), sq(n, lambda i: mat(P, lk(i)[1], (P.m,)), (P.m,))),
                    'clqt_seq_backwardpass')
    return th


def law_t(P, tot):
    Kf, df, _, _ = given_law(P, tot)
    return Kf, df, sq(tot, lambda k: mat(P, Kf(k), (P.m, P.n)), (P.m, P.n)), sq(tot, lambda k: mat(P, df(k), (P.m,)), (P.m,))


def tseq_fw(zoh):
    @unit('C12', 'clqt_tf.clqt_seq_forwardpass[%s]' % ('zero-order hold' if zoh else 'feedback'), [Q + 'clqt_seq_forwardpass'], tf=True)
    def body(e):
        P, _, n, t0, h, gtime, _ = setup(e, False)
        Kf, df, K, d = law_t(P, n)
        fam = closed_family(P, 'cl', n, Kf, df, t0, h, zoh, lambda c: P.x0.data)

        def th():
            r = e.call(e.func(MOD, 'clqt_seq_forwardpass'), [P.x0, K, d, P.a_h, P.a_t0] + fns(P, 'FLc'), dict(u_zoh=zoh))
            check_parts(e, r, [('states, one per grid point, follow the closed loop', sq(T.add(n, 1), lambda i: fam.arr('x', i), (P.n,))),
                               ('controls, one per step, follow the law', sq(n, lambda i: mat(P, control(P, Kf, df, i, fam.at('x', i)), (P.m,)), (P.m,)))], 'clqt_seq_forwardpass')
        return th


for z in (False, True):
    tseq_fw(z)


@unit('C12', 'clqt_tf.clqt_seq_fwdbwdpass', [Q + x for x in ('clqt_seq_fwdbwdpass', 'pack_abc', 'unpack_abc')], tf=True)
def tseq_fb(e):
    P, _, n, t0, h, gtime, _ = setup(e, False)
    nn = (P.n, P.n)
    g = [mat_atom('Ag', nn, lib='tf'), mat_atom('bg', (P.n,), lib='tf'), mat_atom('Cg', nn, sym=True, lib='tf')]
    init = dict(zip('AbC', [x.data for x in g]))
    fam = Family(P, 'abc', ['A', 'b', 'C'], rhs_fw, 1, T.const(0), lambda c: init[c], gtime, h)

    def th():
        fam.lemma_symmetry()
        r = e.call(e.func(MOD, 'clqt_seq_fwdbwdpass'), [n, P.a_h, P.a_t0] + g + fns(P))
        check_parts(e, r, [('forward value functions at every grid point (%s)' % c, sq(T.add(n, 1), lambda i, c=c: fam.arr(c, i), fam.shape(c))) for c in 'AbC'], 'clqt_seq_fwdbwdpass')
    return th


@unit('C12', 'clqt_tf.clqt_combine_fwdbwd', [Q + 'clqt_combine_fwdbwd'], tf=True)
def tcomb(e):
    P, _, n, t0, h, gtime, _ = setup(e, False)
    Kf, df, K, d = law_t(P, n)
    n1 = T.add(n, 1)
    f = lambda nm, sh, sym=False: (lambda k: mat_atom(nm, sh, (T.L(k),), sym, lib='tf'))
    nn, n_ = (P.n, P.n), (P.n,)
    S, v, Aa, b, C = f('Sg', nn, True), f('vg', n_), f('Ag', nn), f('bg', n_), f('Cg', nn, True)
    xs = lambda i: fb_state(P, b(i).data, C(i).data, S(i).data, v(i).data)

    def th():
        r = e.call(e.func(MOD, 'clqt_combine_fwdbwd'), [K, d] + [sq(n1, q, s) for q, s in ((S, nn), (v, n_), (Aa, nn), (b, n_), (C, nn))])
        check_parts(e, r, [('states, one per grid point, minimise the sum of the two value functions', sq(n1, lambda i: mat(P, xs(i), n_), n_)),
                           ('controls, one per step, follow the law', sq(n, lambda i: mat(P, control(P, Kf, df, i, xs(i)), (P.m,)), (P.m,)))], 'clqt_combine_fwdbwd')
    return th


def tpar_bw(fw):
    @unit('C12', 'clqt_tf.clqt_par_backwardpass[%s]' % ('forward' if fw else 'backward'),
          [Q + x for x in ('clqt_par_backwardpass', 'par_backwardpass_init_fw' if fw else 'par_backwardpass_init_bw', 'clqt_par_backwardpass_extract',
                           'clqt_seq_backwardpass', 'pack_abcej', 'unpack_abcej', 'pack_Sv', 'unpack_Sv')] + ['parallel_control.lqt_tf:lqt_par_comb_V_rev'], tf=True)
    def body(e):
        P, B, n, t0, h, gtime, mp = setup(e)
        fam, elem = elem_family(P, n, h, gtime, fw)
        P.ST, P.vT = mat_atom('STg', (P.n, P.n), sym=True).data, mat_atom('vTg', (P.n,)).data
        JB, eB = suffix_specs(e, P, B, elem)
        for sp in (JB, eB):
            e.templates.append(Template(sp.name + ' reversed', lambda j, sp=sp: sp.arr(T.sub(B, j)), [0], (1,)))
        ric = Family(P, 'ric', ['S', 'v'], rhs_riccati, -1, n, lambda c, k: (JB if c == 'S' else eB).at(T.add(k, 1)), gtime, h, OUT)
        nn, n_ = (P.n, P.n), (P.n,)

        def th():
            fam.lemma_symmetry()
            ric.lemma_symmetry()
            r = e.call(e.func(MOD, 'clqt_par_backwardpass'), [B, n, P.a_h, P.a_t0, mat_t(P.ST, nn), mat_t(P.vT, n_)] + fns(P), dict(forward=fw, max_parallel=mp))
            lk = lambda k, i: law(P, ric.at('S', k, i), ric.at('v', k, i), gtime(k, i))
            t = lambda f, inner, first=None: nest_t(e, B, n, f, inner, first)
            z = T.const(0)
            check_parts(e, r, value_parts(P, t(lambda k, i: ric.arr('S', k, T.add(i, 1)), nn, JB.arr(z)), t(lambda k, i: ric.arr('v', k, T.add(i, 1)), n_, eB.arr(z)),
                                          t(lambda k, i: mat(P, lk(k, i)[0], (P.m, P.n)), (P.m, P.n)), t(lambda k, i: mat(P, lk(k, i)[1], (P.m,)), (P.m,))),
                        'clqt_par_backwardpass')
        return th


def mat_t(p, shape):
    return Arr('mat', shape, p, 'f', 'tf')


for fw in (False, True):
    tpar_bw(fw)


def tpar_fw(fw, zoh):
    @unit('C12', 'clqt_tf.clqt_par_forwardpass[%s, %s]' % ('forward' if fw else 'backward', 'zero-order hold' if zoh else 'feedback'),
          [Q + x for x in ('clqt_par_forwardpass', 'clqt_par_forwardpass_init_fw' if fw else 'clqt_par_forwardpass_init_bw', 'clqt_par_forwardpass_extract',
                           'clqt_seq_forwardpass', 'pack_Psiphi', 'unpack_Psiphi')] + ['parallel_control.lqt_tf:lqt_par_comb_f'], tf=True)
    def body(e):
        P, B, n, t0, h, gtime, mp = setup(e)
        Kf, df, K, d = law_t(P, T.mul(B, n))
        gi, elem = block_families(e, P, B, n, h, gtime, fw, Kf, df)
        FP, fx = flow_specs(e, P, B, elem)
        fam = closed_family(P, 'cl', n, Kf, df, t0, h, zoh, lambda c, k: fx.at(k), OUT, gi, gtime)

        def th():
            r = e.call(e.func(MOD, 'clqt_par_forwardpass'), [B, n, P.x0, K, d, P.a_h, P.a_t0] + fns(P, 'FLc'), dict(forward=fw, u_zoh=zoh, max_parallel=mp))
            check_parts(e, r, [('states, one per grid point, follow the closed loop', nest_t(e, B, n, lambda k, i: fam.arr('x', k, i), (P.n,), last=fx.arr(B))),
                               ('controls, one per step, follow the law',
                                nest_t(e, B, n, lambda k, i: mat(P, control(P, Kf, df, gi(k, i), fam.at('x', k, i)), (P.m,)), (P.m,)))], 'clqt_par_forwardpass')
        return th


for fw in (False, True):
    for z in (False, True):
        tpar_fw(fw, z)


def tpar_fb(fw):
    @unit('C12', 'clqt_tf.clqt_par_fwdbwdpass[%s]' % ('forward' if fw else 'backward'),
          [Q + x for x in ('clqt_par_fwdbwdpass', 'par_fwdbwdpass_init', 'par_backwardpass_init_fw' if fw else 'par_backwardpass_init_bw', 'clqt_par_fwdbwdpass_extract',
                           'clqt_seq_fwdbwdpass', 'clqt_combine_fwdbwd', 'pack_abcej', 'unpack_abcej', 'pack_abc', 'unpack_abc')] + ['parallel_control.lqt_tf:lqt_par_comb_V'], tf=True)
    def body(e):
        P, B, n, t0, h, gtime, mp = setup(e)
        tot = T.mul(B, n)
        Kf, df, K, d = law_t(P, tot)
        gi = lambda k, i: T.add(T.mul(k, n), i)
        S = lambda k: mat_atom('Sg', (P.n, P.n), (T.L(k),), True, lib='tf')
        v = lambda k: mat_atom('vg', (P.n,), (T.L(k),), lib='tf')
        fam, elem = elem_family(P, n, h, gtime, fw)
        nn, n_ = (P.n, P.n), (P.n,)
        Pb, PC = start_specs(e, P, elem)
        ini = {'A': lambda k: N.zero(nn), 'b': lambda k: Pb.at(k), 'C': lambda k: PC.at(k)}
        abc = Family(P, 'abc', ['A', 'b', 'C'], rhs_fw, 1, T.const(0), lambda c, k: ini[c](k), gtime, h, OUT)

        def th():
            fam.lemma_symmetry()
            abc.lemma_symmetry()
            n1 = T.add(tot, 1)
            r = e.call(e.func(MOD, 'clqt_par_fwdbwdpass'), [B, n, P.x0, sq(n1, S, nn), sq(n1, v, n_), K, d, P.a_h, P.a_t0] + fns(P), dict(forward=fw, max_parallel=mp))
            xs = lambda k, i: fb_state(P, abc.at('b', k, i), abc.at('C', k, i), S(gi(k, i)).data, v(gi(k, i)).data)
            check_parts(e, r, [('states, one per grid point, minimise the sum of the two value functions',
                                nest_t(e, B, n, lambda k, i: mat(P, xs(k, i), n_), n_, last=mat(P, xs(T.sub(B, 1), n), n_))),
                               ('controls, one per step, follow the law', nest_t(e, B, n, lambda k, i: mat(P, control(P, Kf, df, gi(k, i), xs(k, i)), (P.m,)), (P.m,)))],
                        'clqt_par_fwdbwdpass')
        return th


for fw in (False, True):
    tpar_fb(fw)

"""Contracts for parareal_clqt_tf.py (C13): the iterates of parareal_np, as stacked tensors."""
from .clqt_tf import *
from .parareal_np import Iter
from .. import shims as SH

PM = 'parallel_control.parareal_clqt_tf'
PQ = PM + ':'
Q = 'parallel_control.clqt_tf:'


def psetup(e):
    install(e, DIFF, dict(t=Zr, param=Zr))
    P = CT(e, lib='tf')
    B, n = dims(e)
    it = T.var('niter', I)
    e.pc.append(T.le(1, it))
    H = T.div(P.tend, T.toreal(B))
    h = T.div(H, T.toreal(n))
    return P, B, n, it, H, h, Arr('fn', (), lambda: P.tend, 'f', 'tf')


@unit('C13', 'parareal_clqt_tf.pclqt_backwardpass', [PQ + 'pclqt_%s_backwardpass' % x for x in ('init', 'dense', 'coarse', 'final')] +
      [PQ + 'pclqt_backwardpass', Q + 'clqt_seq_backwardpass', Q + 'clqt_seq_backwardpass_defaults'], tf=True, timeout=600)
def pt_bw(e):
    P, B, n, it, H, h, end = psetup(e)
    fam = Iter(e, P, B, n, it, H, h, ['S', 'v'], rhs_riccati, True, {'S': P.ST, 'v': P.vT}, rev={'Fi': False, 'Co': True, 'Fin': False}, stack=sq)

    def th():
        fam.Fi.lemma_symmetry()
        r = e.call(e.func(PM, 'pclqt_backwardpass'), [B, n, it, P.XT, P.HT, P.rT, end] + fns(P))
        F = fam.Fin
        last = lambda c: mat_t(fam.fixed[c], F.shape(c))
        lk = lambda k, i: law(P, F.at('S', k, i), F.at('v', k, i), F.time(k, i))
        t = lambda f, inner, last=None: nest_t(e, B, n, f, inner, last=last)
        check_parts(e, r, value_parts(P, t(lambda k, i: F.arr('S', k, i), F.shape('S'), last('S')), t(lambda k, i: F.arr('v', k, i), F.shape('v'), last('v')),
                                      t(lambda k, i: mat(P, lk(k, i)[0], (P.m, P.n)), (P.m, P.n)), t(lambda k, i: mat(P, lk(k, i)[1], (P.m,)), (P.m,))),
                    'pclqt_backwardpass')
    return th


def pt_fw(zoh):
    @unit('C13', 'parareal_clqt_tf.pclqt_forwardpass[%s]' % ('zero-order hold' if zoh else 'feedback'),
          [PQ + 'pclqt_%s_forwardpass' % x for x in ('init', 'dense', 'coarse', 'final')] + [PQ + 'pclqt_forwardpass', Q + 'clqt_seq_forwardpass'], tf=True, timeout=600)
    def body(e):
        P, B, n, it, H, h, end = psetup(e)
        Kf, df, K, d = law_t(P, T.mul(B, n))
        fi = lambda k, j: T.add(T.mul(k, n), j)
        box = []

        def mkpar(name, gi):
            def p(*ix):
                g = gi(*ix)
                return control(P, Kf, df, g, getattr(box[0], name).at('x', *ix)) if zoh else (Kf(g), df(g))
            return p
        pars = {'G0': mkpar('G0', lambda k: T.mul(k, n)), 'Fi': mkpar('Fi', lambda i, k, j: fi(k, j)),
                'Co': mkpar('Co', lambda i, k, j: T.mul(T.add(k, j), n)), 'Fin': mkpar('Fin', fi)}
        fam = Iter(e, P, B, n, it, H, h, ['x'], rhs_zoh if zoh else rhs_closed, False, {'x': P.x0.data}, pars, stack=sq)
        box.append(fam)

        def th():
            r = e.call(e.func(PM, 'pclqt_forwardpass'), [B, n, it, P.x0, end, K, d] + fns(P, 'FLc'), dict(u_zoh=zoh))
            F = fam.Fin
            check_parts(e, r, [('states at every fine grid point, in time order', nest_t(e, B, n, lambda k, i: F.arr('x', k, i), (P.n,), last=F.arr('x', T.sub(B, 1), n))),
                               ('controls of every fine step follow the law', nest_t(e, B, n, lambda k, i: mat(P, control(P, Kf, df, fi(k, i), F.at('x', k, i)), (P.m,)), (P.m,)))],
                        'pclqt_forwardpass')
        return th


for z in (False, True):
    pt_fw(z)


@unit('C13', 'parareal_clqt_tf.pclqt_fwdbwdpass', [PQ + 'pclqt_%s_fwdbwdpass' % x for x in ('init', 'dense', 'coarse', 'final')] +
      [PQ + 'pclqt_fwdbwdpass', Q + 'clqt_seq_fwdbwdpass', Q + 'clqt_seq_fwdbwdpass_defaults'], tf=True, timeout=600)
def pt_fb(e):
    P, B, n, it, H, h, end = psetup(e)
    nn = (P.n, P.n)
    fam = Iter(e, P, B, n, it, H, h, ['A', 'b', 'C'], rhs_fw, False, {'A': N.zero(nn), 'b': P.x0.data, 'C': N.zero(nn)}, stack=sq)

    def th():
        fam.Fi.lemma_symmetry()
        r = e.call(e.func(PM, 'pclqt_fwdbwdpass'), [B, n, it, P.x0, end] + fns(P))
        F = fam.Fin
        check_parts(e, r, [('forward value functions at every fine grid point, in time order (%s)' % c,
                            nest_t(e, B, n, lambda k, i, c=c: F.arr(c, k, i), F.shape(c), last=F.arr(c, T.sub(B, 1), n))) for c in 'AbC'], 'pclqt_fwdbwdpass')
    return th


def compose(name, tail):
    """compositions: every callee is given the problem data, the counts and the results of the earlier passes (callee contracts: the units above)"""
    @unit('C13', 'parareal_clqt_tf.' + name, [PQ + name], tf=True)
    def body(e):
        P, B, n, it, H, h, end = psetup(e)
        tot = T.mul(B, n)
        n1 = T.add(tot, 1)
        nn, n_, mn_, m_ = (P.n, P.n), (P.n,), (P.m, P.n), (P.m,)
        at = lambda nm, sh, sym=False: (lambda k: mat_atom(nm, sh, (T.L(k),), sym, lib='tf'))
        Sm, v, K, d = sq(n1, at('rS', nn, True), nn), sq(n1, at('rv', n_), n_), sq(tot, at('rK', mn_), mn_), sq(tot, at('rd', m_), m_)
        A, b, C = sq(n1, at('rA', nn), nn), sq(n1, at('rb', n_), n_), sq(n1, at('rC', nn, True), nn)
        x, u = sq(n1, at('rx', n_), n_), sq(tot, at('ru', m_), m_)
        data = dict(blocks=B, steps=n, niter=it, XT=P.XT, HT=P.HT, rT=P.rT, T=end, x0=P.x0)
        data.update({q + '_f': P.fn(q) for q in 'FLXUcHr'})
        calls = []

        def callee(nm, over, result):
            def h(itp, cl, args, kw):
                fr = itp.bind(cl, args, kw)
                calls.append(nm)
                for p, w in dict(data, **over).items():
                    if p not in fr.vars:
                        continue
                    g = fr.vars[p]
                    lab = 'callee precondition: %s is given %s' % (nm, p)
                    if p.endswith('_f'):
                        tt = Arr('fn', (), lambda: T.var('tau', T.REAL), 'f', 'tf')
                        itp.e.check_eq(itp.e.call(g, [tt]), itp.e.call(w, [tt]), lab, 'pre')
                    elif p == 'u_zoh':
                        itp.e.obl(lab, 'proved' if g is w else 'refuted', '', 'pre', 'syntactic')
                    elif isinstance(w, T.Term):
                        itp.e.prove_bool(T.eq(T.L(SH.lower(g)), w), lab)
                    else:
                        itp.e.check_eq(g, w, lab, 'pre')
                return result
            return h
        e.contracts[PQ + 'pclqt_backwardpass'] = callee('pclqt_backwardpass', {}, (Sm, v, K, d))
        e.contracts[PQ + 'pclqt_forwardpass'] = callee('pclqt_forwardpass', dict(Kxs=K, ds=d, u_zoh=False), (x, u))
        e.contracts[PQ + 'pclqt_fwdbwdpass'] = callee('pclqt_fwdbwdpass', {}, (A, b, C))
        e.contracts[Q + 'clqt_combine_fwdbwd'] = callee('clqt_combine_fwdbwd', dict(Kxs=K, ds=d, Ss=Sm, vs=v, As=A, bs=b, Cs=C), (x, u))

        def th():
            r = e.call(e.func(PM, name), [B, n, it, P.x0, P.XT, P.HT, P.rT, end] + fns(P))
            check_parts(e, r, [('states are those of the last pass', x), ('controls are those of the last pass', u)], name)
        return th


for nm in ('pclqt_backwardforwardpass', 'pclqt_backwardbwdfwdpass'):
    compose(nm, None)

"""Contracts for nlqt_tf.py and nonlinear_model_tf.py (C15)."""
from .nlqt_np import *
from .nlqt_np import MOD as NMOD
from .tf_common import install_levels
from .clqt_tf import sq, check_parts
from .. import shims as SH
from ..values import *
from . import nlqt_np as NP

MT = 'parallel_control.nlqt_tf'
QT = MT + ':'
LT = 'parallel_control.lqt_tf:'
MTF = 'parallel_control.nonlinear_model_tf'


@unit(['C15', 'C18'], 'nonlinear_model_tf derivatives', [MTF + ':nonlinear_model_' + q for q in ('f', 'Fx', 'Fu')], tf=True)
def u_model_tf(e):
    dt = T.var('dt', T.REAL)
    B = T.var('rows', T.INT)
    e.pc.append(T.le(1, B))
    x, u = point_arr('x', 4, 'tf', B), point_arr('u', 2, 'tf', B)
    a = Arr('fn', (), lambda: dt, 'f', 'tf')

    def th():
        r = [e.call(e.func(MTF, 'nonlinear_model_' + q), [x, u, a]) for q in ('f', 'Fx', 'Fu')]
        check_derivatives(e, *r, 'nonlinear_model_tf', B)
    return th


@unit(['C15', 'C18'], 'nonlinear_model_tf dynamics are those of the reference model', [MTF + ':nonlinear_model_f', NP.NM + ':NonlinearModel.f'], tf=True)
def u_model_same(e):
    from .. import arrops as A
    dt = T.var('dt', T.REAL)
    B = T.var('rows', T.INT)
    e.pc.append(T.le(1, B))
    k = T.var('row', T.INT)
    x, u = point_arr('x', 4, 'tf', B), point_arr('u', 2, 'tf', B)
    o = Obj(e.load(NP.NM).g.vars['NonlinearModel'])
    o.f['dt'] = Arr('fn', (), lambda: dt, 'f', 'np')
    at = lambda nm, n: Arr('fn', (T.const(n),), lambda i: T.app(nm, (T.L(i), k), T.REAL), 'f', 'np')

    def th():
        e.assume(T.and_(T.le(0, k), T.lt(k, B)))
        r = e.call(e.func(MTF, 'nonlinear_model_f'), [x, u, Arr('fn', (), lambda: dt, 'f', 'tf')])
        w = e.call(meth(e, o, 'f'), [at('x', 4), at('u', 2)])
        ra, wa = A.lift_fn(r).data, A.lift_fn(w).data
        for i in range(4):
            e.prove_bool(T.eq(ra(k, T.const(i)), wa(T.const(i))), 'nonlinear_model_f: component %d equals that of the reference model' % i)
    return th


class BModel(Model):
    """batched model: row k of the value is the value at row k of the arguments"""

    def bfn(self, nm):
        def call(eng, args, kw):
            if kw or len(args) != 2:
                raise PyRaise('TypeError', 'call form of a model function')
            x, u = args
            if not all(isinstance(v, Arr) and v.rep == 'seq' for v in args):
                raise Unsupported('a model function is applied to something that is not a batch of points')
            n = x.data.length()
            eng.require_h(T.eq(n, u.data.length()), 'the model is applied to as many states as controls', 'pre')

            def row(k):
                (xa, xi), (ua, ui) = one_atom(x.data.get(k, eng)), one_atom(u.data.get(k, eng))
                return self.sym(nm, xa, ua, (xi, ui))
            return sq(n, row, self.shapes[nm])
        return FnVal(nm, call)


def setup_tf(e):
    P = LQTProblem(e, lib='tf', constp=True)
    M = BModel(e, P, 'tf')
    at = lambda nm, sh: (lambda k: mat_atom(nm, sh, (T.L(k),), lib='tf'))
    us = sq(P.T, at('un', (P.m,)), (P.m,))
    xs = sq(T.add(P.T, 1), at('xn', (P.n,)), (P.n,))
    return P, M, us, xs


@unit('C15', 'nlqt_tf.nlqt_linearize', [QT + 'nlqt_linearize'], tf=True)
def t_lin(e):
    P, M, us, xs = setup_tf(e)
    x1 = sq(P.T, lambda k: mat_atom('xn', (P.n,), (T.L(k),), lib='tf'), (P.n,))

    def th():
        r = e.call(e.func(MT, 'nlqt_linearize'), [us, x1, M.bfn('f'), M.bfn('Fx'), M.bfn('Fu')])
        L = lin(P, M)
        tf_ = lambda f: (lambda k: Arr('mat', f(k).shape, f(k).data, 'f', 'tf'))
        check_parts(e, r, [('dynamics matrices are the state derivatives', sq(P.T, tf_(L['F']), (P.n, P.n))),
                           ('offsets make the expansion exact at the nominal point', sq(P.T, tf_(L['c']), (P.n,))),
                           ('input matrices are the control derivatives', sq(P.T, tf_(L['L']), (P.n, P.m)))], 'nlqt_linearize')
    return th


@unit('C15', 'nlqt_tf.nlqt_simulate', [QT + 'nlqt_simulate'], tf=True)
def t_sim(e):
    P, M, us, xs = setup_tf(e)
    sp = sim_spec(e, P, M, P.x0)

    def th():
        r = e.call(e.func(MT, 'nlqt_simulate'), [P.x0, us, M.bfn('f')])
        e.check_eq(r, sq(T.add(P.T, 1), lambda k: Arr('mat', (P.n,), sp.at(k), 'f', 'tf'), (P.n,)), 'nlqt_simulate: the trajectory satisfies the nonlinear dynamics, one state per time')
    return th


def costs(P):
    st = lambda nm: sq(P.T, lambda k: P.a(nm, k), P.sh[nm](T.const(0)))
    return dict(Hs=st('H'), HT=P.HT, rs=st('r'), rT=P.rT, Xs=st('X'), XT=P.XT, Us=st('U'))


@unit('C15', 'nlqt_tf.nlqt_cost', [QT + 'nlqt_cost', QT + 'nlqt_simulate'], tf=True)
def t_cost(e):
    P, M, us, xs = setup_tf(e)
    sp = sim_spec(e, P, M, P.x0)
    C = costs(P)
    J = mat_atom('J', (), lib='tf')

    def h(it, cl, args, kw):
        b = it.bind(cl, args, kw)
        want = dict(C, xs=sq(T.add(P.T, 1), lambda k: Arr('mat', (P.n,), sp.at(k), 'f', 'tf'), (P.n,)), us=us)
        for p, w in want.items():
            it.e.check_eq(b.vars[p], w, 'callee precondition: lqt_cost is given %s' % p, 'pre')
        return J
    e.contracts[LT + 'lqt_cost'] = h

    def th():
        r = e.call(e.func(MT, 'nlqt_cost'), [P.x0, us, M.bfn('f')] + [C[q] for q in ('Hs', 'HT', 'rs', 'rT', 'Xs', 'XT', 'Us')])
        e.check_eq(r, J, 'nlqt_cost: the tracking cost along the nonlinear trajectory')
    return th


def t_iter(name, par):
    @unit('C15', 'nlqt_tf.' + name, [QT + name, QT + 'nlqt_linearize'], tf=True)
    def body(e):
        P, M, us, xs = setup_tf(e)
        C = costs(P)
        n, m = P.n, P.m
        n1 = T.add(P.T, 1)
        mp = None
        if par:
            mp = T.var('mp', T.INT)
            e.pc.append(T.le(n1, mp))
        at = lambda N_, nm, sh, sym=False: sq(N_, lambda k: mat_atom(nm, sh, (T.L(k),), sym, lib='tf'), sh)
        S, v, K, d = at(n1, 'rS', (n, n), True), at(n1, 'rv', (n,)), at(P.T, 'rK', (m, n)), at(P.T, 'rd', (m,))
        X, U = at(n1, 'rx', (n,)), at(P.T, 'ru', (m,))
        L = lin(P, M)
        tf_ = lambda f: (lambda k: Arr('mat', f(k).shape, f(k).data, 'f', 'tf'))
        prob = dict(C, Fs=sq(P.T, tf_(L['F']), (n, n)), cs=sq(P.T, tf_(L['c']), (n,)), Ls=sq(P.T, tf_(L['L']), (n, m)),
                    x0=mat_atom('xn', (n,), (T.const(0),), lib='tf'), Kxs=K, ds=d, Ss=S, vs=v)

        def callee(nm, result):
            def h(it, cl, args, kw):
                b = it.bind(cl, args, kw)
                for p, w in prob.items():
                    if p in b.vars:
                        it.e.check_eq(b.vars[p], w, 'callee precondition: %s is given %s' % (nm, p), 'pre')
                if 'max_parallel' in b.vars and mp is not None:
                    it.e.require_h(T.le(n1, T.L(SH.lower(b.vars['max_parallel']))), 'callee precondition: the horizon fits the parallelism limit of ' + nm, 'pre')
                return result
            return h
        for nm, res in (('lqt_par_backwardpass', (S, v, K, d)), ('lqt_seq_backwardpass', (S, v, K, d)), ('lqt_par_forwardpass', (X, U)),
                        ('lqt_seq_forwardpass', (X, U)), ('lqt_par_fwdbwdpass', (X, U))):
            e.contracts[LT + nm] = callee(nm, res)

        def th():
            a = [us, xs, M.bfn('f'), M.bfn('Fx'), M.bfn('Fu')] + [C[q] for q in ('Hs', 'HT', 'rs', 'rT', 'Xs', 'XT', 'Us')]
            r = e.call(e.func(MT, name), a, dict(max_parallel=mp) if par else {})
            check_parts(e, r, [('controls are those of the optimal linear solution', U), ('states are those of the optimal linear solution', X)], name)
        return th


for nm, par in (('nlqt_iterate_seq', False), ('nlqt_iterate_par_1', True), ('nlqt_iterate_par_2', True)):
    t_iter(nm, par)

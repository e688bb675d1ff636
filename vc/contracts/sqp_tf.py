"""Contracts for sqp_tf.py (C16): batched KKT solve, exact derivatives by tapes, the Newton-KKT scan."""
from fractions import Fraction
from .. import terms as T
from .. import ncalg as N
from .. import arrops as A
from .. import shims as SH
from .. import shims_jax as J
from ..values import *
from ..runner import unit
from .lqt_common import mm, ad, sb, tr
from .sqp_np import Prog, dims, I, R, one
from .clqt_tf import sq

MT = 'parallel_control.sqp_tf'
QT = MT + ':'


def row(e, seq, k):
    return seq.data.get(k, e)


@unit('C16', 'sqp_tf.lqe_solve', [QT + 'lqe_solve'], tf=True)
def lqe_tf(e):
    n, m = dims(e, 'n', 'm')
    G, c, Aa, b = [mat_atom(q, s, lib='tf') for q, s in (('G', (n, n)), ('c', (n,)), ('A', (m, n)), ('b', (m,)))]

    def th():
        r = e.call(e.func(MT, 'lqe_solve'), [G, c, Aa, b])
        if not (isinstance(r, tuple) and len(r) == 2):
            e.obl('lqe_solve: returns the step and the multipliers', 'refuted', 'result %r' % (r,))
            return
        x, lam = r
        e.prove_bool(T.and_(T.eq(x.shape[0], n), T.eq(lam.shape[0], m)) if x.ndim == 1 and lam.ndim == 1 else T.FALSE,
                     'lqe_solve: one step component per variable, one multiplier per constraint')
        e.check_eq(A.sub(e, A.matmul(e, G, x), A.matmul(e, A.transpose(e, Aa), lam)), A.neg(e, c), 'lqe_solve: stationarity G x - A\' lam = -c')
        e.check_eq(A.matmul(e, Aa, x), b, 'lqe_solve: linearised constraints A x = b')
    return th


def batch(nm, B, sh, sym=False):
    return sq(B, lambda k: mat_atom(nm, sh, (T.L(k),), sym, lib='tf'), sh)


@unit('C16', 'sqp_tf.lqe_solve [batch]', [QT + 'lqe_solve'], tf=True)
def lqe_tf_b(e):
    n, m, B = dims(e, 'n', 'm', 'B')
    G, c, Aa, b = [batch(q, B, s) for q, s in (('G', (n, n)), ('c', (n,)), ('A', (m, n)), ('b', (m,)))]

    def th():
        r = e.call(e.func(MT, 'lqe_solve'), [G, c, Aa, b])
        if not (isinstance(r, tuple) and len(r) == 2):
            e.obl('lqe_solve: returns the step and the multipliers', 'refuted', 'result %r' % (r,))
            return
        x, lam = r
        e.prove_bool(T.and_(T.eq(x.shape[0], B), T.eq(lam.shape[0], B), T.eq(x.shape[1], n), T.eq(lam.shape[1], m)) if x.ndim == 2 and lam.ndim == 2 else T.FALSE,
                     'lqe_solve[batch]: one solution per problem')
        k = T.var('k', I)
        if not e.branch(T.and_(T.le(0, k), T.lt(k, B))):
            return
        Gk, ck, Ak, bk, xk, lk = [row(e, v, k) for v in (G, c, Aa, b, x, lam)]
        e.check_eq(A.sub(e, A.matmul(e, Gk, xk), A.matmul(e, A.transpose(e, Ak), lk)), A.neg(e, ck), 'lqe_solve[batch]: stationarity of every problem')
        e.check_eq(A.matmul(e, Ak, xk), bk, 'lqe_solve[batch]: linearised constraints of every problem')
    return th


def scal(e, v, want, label):
    e.prove_bool(T.eq(SH.term(A.to_scalar_term(v) if isinstance(v, Arr) else v), want), label)


@unit('C16', 'sqp_tf derivatives', [QT + q for q in ('fun_value_grad', 'con_value_jac', 'lag_value_grad_hess')], tf=True)
def deriv(e):
    n, m, q = dims(e, 'n', 'm', 'q')
    x, lam, par = [N.atom(s, (d, one)) for s, d in (('x', n), ('lam', m), ('par', q))]
    X, L, P = [Arr('mat', (d,), N.of_atom(a), 'f', 'tf') for a, d in ((x, n), (lam, m), (par, q))]
    f, c = J.Smooth(e, 'f', n, lib='tf'), J.Smooth(e, 'c', n, m, lib='tf')

    def th():
        v, g = e.call(e.func(MT, 'fun_value_grad'), [f.fn(), X, P])
        check3(e, 'fun_value_grad', f, c, x, lam, par, v, g)
        v, g = e.call(e.func(MT, 'con_value_jac'), [c.fn(), X, P])
        e.check_eq(v, c.sym(0, x, (par,)), 'con_value_jac: value')
        e.check_eq(g, c.sym(1, x, (par,)), 'con_value_jac: Jacobian')
        v, g, h = e.call(e.func(MT, 'lag_value_grad_hess'), [f.fn(), c.fn(), X, L, P])
        check3(e, 'lag_value_grad_hess', f, c, x, lam, par, v, g, h)
    return th


def check3(e, who, f, c, x, lam, par, v, g, h=None):
    lm = Arr('mat', (lam.shape[0],), N.of_atom(lam), 'f', 'tf')
    fv, gv = A.to_scalar_term(f.sym(0, x, (par,))), f.sym(1, x, (par,))
    if h is None:
        scal(e, v, fv, who + ': value')
        e.check_eq(g, gv, who + ': gradient')
        return
    Jc = c.sym(1, x, (par,))
    scal(e, v, T.sub(fv, A.to_scalar_term(A.matmul(e, lm, c.sym(0, x, (par,))))), who + ': value of the Lagrangian')
    e.check_eq(g, A.sub(e, gv, A.matmul(e, A.transpose(e, Jc), lm)), who + ': gradient of the Lagrangian')
    e.check_eq(h, A.sub(e, f.sym(2, x, (par,)), c.bilin(x, lam, (par,))), who + ': Hessian of the Lagrangian')


@unit('C16', 'sqp_tf derivatives [batch]', [QT + q for q in ('fun_value_grad', 'con_value_jac', 'lag_value_grad_hess')], tf=True)
def deriv_b(e):
    n, m, q, B = dims(e, 'n', 'm', 'q', 'B')
    X, L, P = batch('x', B, (n,)), batch('lam', B, (m,)), batch('par', B, (q,))
    f, c = J.Smooth(e, 'f', n, lib='tf'), J.Smooth(e, 'c', n, m, lib='tf')

    def th():
        k = T.var('k', I)
        if not e.branch(T.and_(T.le(0, k), T.lt(k, B))):
            return
        x, lam, par = [N.atom(s, (d, one), (k,)) for s, d in (('x', n), ('lam', m), ('par', q))]

        def at(*vs):
            return [row(e, v, k) for v in vs]
        v, g = at(*e.call(e.func(MT, 'fun_value_grad'), [f.fn(), X, P, True]))
        check3(e, 'fun_value_grad[batch]', f, c, x, lam, par, v, g)
        v, g = at(*e.call(e.func(MT, 'con_value_jac'), [c.fn(), X, P, True]))
        e.check_eq(v, c.sym(0, x, (par,)), 'con_value_jac[batch]: value')
        e.check_eq(g, c.sym(1, x, (par,)), 'con_value_jac[batch]: Jacobian')
        v, g, h = at(*e.call(e.func(MT, 'lag_value_grad_hess'), [f.fn(), c.fn(), X, L, P, True]))
        check3(e, 'lag_value_grad_hess[batch]', f, c, x, lam, par, v, g, h)
    return th


@unit('C16', 'sqp_tf.local_eq_fast', [QT + 'local_eq_fast'], tf=True)
def locf_tf(e):
    q, = dims(e, 'q')
    par = N.atom('par', (q, one))
    P = Prog(e, 'tf', (par,))
    ni = T.var('num_iter', I)
    e.pc.append(T.le(1, ni))
    e.contracts[QT + 'lqe_solve'] = P.lqe('local_eq_fast')

    def th():
        r = e.call(e.func(MT, 'local_eq_fast'), [P.f.fn(), P.c.fn(), P.x(0), Arr('mat', (q,), N.of_atom(par), 'f', 'tf'), ni])
        if not (isinstance(r, tuple) and len(r) == 3):
            e.obl('local_eq_fast: returns iterates, multipliers and criteria', 'refuted', '')
            return
        xs, ls, cs = r
        for v in (xs, ls, cs):
            e.prove_bool(T.eq(v.shape[0], ni), 'local_eq_fast: one entry per iteration')
        k = T.var('k', I)
        if not e.branch(T.and_(T.le(0, k), T.lt(k, ni))):
            return
        e.check_eq(row(e, xs, k) if xs.rep == 'seq' else xs, P.x(T.add(k, 1)), 'local_eq_fast: iterates of the Newton-KKT iteration')
        e.check_eq(row(e, ls, k), P.lam(T.add(k, 1)), 'local_eq_fast: multipliers')
        scal(e, A.lift_fn(cs).data(k) if cs.rep != 'seq' else row(e, cs, k), P.crit(k), 'local_eq_fast: criterion is the norm of the Lagrangian gradient of that iteration')
    return th

"""Contracts for the bundled one-dimensional problems (C17): cnonlin_models_np.py, cnonlin_models_tf.py."""
from fractions import Fraction
from .fsc_common import *
from ..runner import unit
from .util import *
from ..shims import term
from .hjb_np import app, table, grid_size, check_table, I, R

q = lambda *a: T.const(Fraction(*a), R)
MODELS = {
    'linear_model': (lambda x, u: T.add(x, u), lambda x, u: T.mul(q(1, 2), T.add(T.mul(x, x), T.mul(u, u))), lambda x: T.mul(x, x), (-2, 2), (-2, 2)),
    'velocity_model': (lambda x, u: T.add(T.sub(q(1), T.mul(q(1, 10), T.mul(x, x))), u), lambda x, u: T.mul(q(1, 2), T.add(T.mul(x, x), T.mul(u, u))),
                       lambda x: T.mul(q(2), T.mul(x, x)), (-3, 3), (-2, 2)),
    'upwind_model': (lambda x, u: T.mul(u, x), lambda x, u: q(0), lambda x: T.sub(q(0), x), (-1, 1), (0, 1)),
}


def val(v):
    return A.to_scalar_term(v) if isinstance(v, Arr) else T.toreal(term(v))


def model(lib, name):
    mod = 'parallel_control.cnonlin_models_' + lib

    @unit('C17', 'cnonlin_models_%s.%s' % (lib, name), ['%s:%s' % (mod, name)], tf=lib == 'tf')
    def u(e):
        n, m = grid_size(e, 'n'), grid_size(e, 'm')
        f, L, LT, xr, ur = MODELS[name]

        def th():
            r = e.call(e.func(mod, name), [n, m])
            if not (isinstance(r, tuple) and len(r) == 6):
                e.obl(name + ': returns f, L, LT, T and the grids', 'refuted', repr(r)[:100], 'post', '')
                return
            x, w = T.var('x', R), T.var('u', R)
            for nm, got, want in (('dynamics', e.call(r[0], [x, w]), f(x, w)), ('running cost', e.call(r[1], [x, w]), L(x, w)),
                                  ('terminal cost', e.call(r[2], [x]), LT(x)), ('horizon', r[3], q(1))):
                e.prove_bool(T.eq(val(got), want), '%s: %s' % (name, nm))
            for nm, g, k, (lo, hi) in (('x', r[4], n, xr), ('u', r[5], m, ur)):
                if not check_table(e, g, (k,), '%s: %s grid' % (name, nm)):
                    continue
                i = T.var('i', I)

                def pt():
                    e.assume(inr(i, k))
                    e.prove_bool(T.eq(A.lift_fn(g).data(i), T.add(q(lo), T.div(T.mul(q(hi - lo), T.toreal(i)), T.toreal(T.sub(k, 1))))), '%s: %s grid uniform between its ends' % (name, nm))
                for o in e.explore(pt):
                    if o.exc:
                        e.obl('grid readable', 'unknown', str(o.exc), 'post', '')
        return th


def blockv(lib):
    mod = 'parallel_control.cnonlin_models_' + lib

    @unit('C17', 'cnonlin_models_%s.upwind_model_block_V' % lib, [mod + ':upwind_model_block_V'], tf=lib == 'tf')
    def u(e):
        n = grid_size(e)
        a, inf = T.app('exp', (T.var('dt', R),), R), T.var('inf', R)
        e.pc.append(T.le(q(1), a))

        def th():
            r = e.call(e.func(mod, 'upwind_model_block_V'), [inf, T.var('dt', R), table('xg', (n,), lib)])
            if not check_table(e, r, (n, n), 'upwind_model_block_V'):
                return
            i, k = T.var('i', I), T.var('k', I)
            x, y = app('xg', i), app('xg', k)
            up = T.and_(T.le(q(0), x), T.le(x, y), T.le(y, T.mul(a, x)))
            dn = T.and_(T.le(x, q(0)), T.le(T.mul(a, x), y), T.le(y, x))

            def pt():
                for v in (i, k):
                    e.assume(inr(v, n))
                t = A.lift_fn(r).data(i, k)
                e.prove_bool(T.eq(t, T.ite(T.not_(T.and_(T.not_(up), T.not_(dn))), q(0), inf)), 'upwind_model_block_V: zero exactly for the pairs that exp(u t), 0 <= u <= 1, can join')
            for o in e.explore(pt):
                if o.exc:
                    e.obl('table readable', 'unknown', str(o.exc), 'post', '')
        return th


for lib in ('np', 'tf'):
    for name in MODELS:
        model(lib, name)
    blockv(lib)

"""Contracts for nlqt_np.py (C15): first-order expansion of an arbitrary model about an arbitrary nominal trajectory, the
iteration as a composition of the (separately verified) linear passes, simulation and cost."""
from .lqt_common import *
from .util import *
from ..runner import unit
from . import lqt_np as LN

MOD = 'parallel_control.nlqt_np'
Q = MOD + ':NLQT.'
LQ = 'parallel_control.lqt_np:LQT.'
ONE = T.const(1)


class Model:
    """uninterpreted model: the values of f, Fx, Fu at a point of a trajectory are symbols of that point"""

    def __init__(self, e, P, lib='np'):
        self.e, self.P, self.lib = e, P, lib
        n, m = P.n, P.m
        self.shapes = {'f': (n,), 'Fx': (n, n), 'Fu': (n, m)}

    def sym(self, nm, xa, ua, idx):
        return mat_atom('%s(%s,%s)' % (nm, xa, ua), self.shapes[nm], tuple(T.L(i) for i in idx), lib=self.lib)

    def fn(self, nm):
        def call(eng, args, kw):
            if kw or len(args) != 2:
                raise PyRaise('TypeError', 'call form of a model function')
            (xa, xi), (ua, ui) = [one_atom(v) for v in args]
            return self.sym(nm, xa, ua, (xi, ui))
        return FnVal(nm, call)

    def obj(self):
        o = Obj(None)
        for nm in self.shapes:
            o.f[nm] = self.fn(nm)
        return o


def one_atom(v):
    if isinstance(v, Arr) and v.rep == 'mat' and len(v.data.d) == 1:
        ((c, w), q), = v.data.d.items()
        if q == 1 and c == () and len(w) == 1:
            if w[0].name == 'x0':
                return 'xsim', T.const(0)
            if len(w[0].idx) == 1:
                return w[0].name, w[0].idx[0]
    raise Unsupported('a model function is evaluated at a point that is not one of the given trajectory')


def nlqt_obj(e, P, M):
    o = Obj(e.load(MOD).g.vars['NLQT'])
    o.f['lqt'], o.f['model'] = P.obj(), M.obj()
    return o


def xn(P, k):
    return mat_atom('xn', (P.n,), (T.L(k),))


def un(P, k):
    return mat_atom('un', (P.m,), (T.L(k),))


def traj(P):
    return (PyList(Seq([Seg(P.T, lambda k: un(P, k))])), PyList(Seq([Seg(T.add(P.T, 1), lambda k: xn(P, k))])))


def lin(P, M):
    """the first-order expansion about the nominal trajectory: F = Fx, L = Fu, c = f - Fx x - Fu u"""
    F = lambda k: M.sym('Fx', 'xn', 'un', (k, k))
    L = lambda k: M.sym('Fu', 'xn', 'un', (k, k))

    def c(k):
        p = sb(sb(M.sym('f', 'xn', 'un', (k, k)).data, mm(F(k).data, xn(P, k).data)), mm(L(k).data, un(P, k).data))
        return Arr('mat', (P.n,), p, 'f', M.lib)
    return {'F': F, 'L': L, 'c': c}


def check_lin(e, P, M, o, what, kind='post'):
    for nm, w in lin(P, M).items():
        e.check_eq(o.f[nm], PyList(Seq([Seg(P.T, w)])), '%s: %s of every stage is that of the first-order expansion' % (what, nm), kind)


def rest_frame(e, o, fr, what):
    o2 = Obj(o.cls)
    o2.f = {k: v for k, v in o.f.items() if k not in ('F', 'L', 'c')}
    check_frame(e, o2, {k: v for k, v in fr.items() if k not in ('F', 'L', 'c')}, what)


@unit('C15', 'nlqt_np.NLQT.linearize', [Q + 'linearize'])
def u_lin(e):
    P = LQTProblem(e)
    M = Model(e, P)
    o = nlqt_obj(e, P, M)
    fr = frame_of(o.f['lqt'])
    u, x = traj(P)

    def th():
        su, sx = u.seq, x.seq
        e.call(meth(e, o, 'linearize'), [u, x])
        check_lin(e, P, M, o.f['lqt'], 'linearize')
        rest_frame(e, o.f['lqt'], fr, 'linearize (costs, terminal data)')
        e.obl('frame: linearize leaves the nominal trajectory unchanged', 'proved' if u.seq is su and x.seq is sx else 'unknown', '', 'frame', 'syntactic')
    return th


@unit('C15', 'nlqt_np.lemma.zero defect', [], kind='lemma')
def u_defect(e):
    """a nominal trajectory satisfying the dynamics is reproduced by the linearised dynamics under the nominal controls"""
    P = LQTProblem(e)
    M = Model(e, P)
    k = T.var('k', T.INT)

    def th():
        e.assume(T.le(0, k))
        e.assume(T.lt(k, P.T))
        L = lin(P, M)
        p = ad(mm(L['F'](k).data, xn(P, k).data), mm(L['L'](k).data, un(P, k).data), L['c'](k).data)
        e.prove_zero(sb(p, M.sym('f', 'xn', 'un', (k, k)).data), 'lemma: F x + L u + c = f(x, u) at the nominal point', 'lemma')
    return th


def iterate(method, callees):
    @unit('C15', 'nlqt_np.NLQT.iterate[method %s]' % method, [Q + 'iterate', Q + 'linearize'])
    def body(e):
        P = LQTProblem(e)
        M = Model(e, P)
        o = nlqt_obj(e, P, M)
        lq = o.f['lqt']
        fr = frame_of(lq)
        u, x = traj(P)
        n, m = P.n, P.m
        lst = lambda N_, nm, sh, sym=False: PyList(Seq([Seg(N_, lambda k: mat_atom(nm, sh, (T.L(k),), sym))]))
        n1 = T.add(P.T, 1)
        K, d, S, v = lst(P.T, 'rK', (m, n)), lst(P.T, 'rd', (m,)), lst(n1, 'rS', (n, n), True), lst(n1, 'rv', (n,))
        U, X = lst(P.T, 'ru', (m,)), lst(n1, 'rx', (n,))
        given = dict(x0=xn(P, 0), Kx_list=K, d_list=d, S_list=S, v_list=v)

        def callee(nm, result):
            def h(it, cl, args, kw):
                b = it.bind(cl, args, kw)
                s = b.vars['self']
                if s is not lq:
                    it.e.obl('callee precondition: %s works on the linearised problem' % nm, 'refuted', '', 'pre', 'syntactic')
                    return result
                check_lin(it.e, P, M, lq, 'callee precondition: %s' % nm, 'pre')
                rest_frame(it.e, lq, fr, 'iterate up to the call of ' + nm)
                for p, w in given.items():
                    if p in b.vars:
                        it.e.check_eq(b.vars[p], w, 'callee precondition: %s is given %s' % (nm, p), 'pre')
                return result
            return h
        for nm, res in (('parBackwardPass', (K, d, S, v)), ('seqBackwardPass', (K, d, S, v)), ('parForwardPass', (U, X)), ('seqForwardPass', (U, X)),
                        ('parFwdBwdPass', (U, X)), ('parFwdBwdPass2', (U, X))):
            e.contracts[LQ + nm] = callee(nm, res)

        def th():
            args = [u, x] if method == 'default' else [u, x, method]
            r = e.call(meth(e, o, 'iterate'), args)
            if not (isinstance(r, tuple) and len(r) == 2):
                e.obl('iterate returns controls and states', 'refuted', repr(r)[:100], 'post', 'syntactic')
                return
            e.check_eq(r[0], U, 'iterate: controls are those of the optimal linear solution')
            e.check_eq(r[1], X, 'iterate: states are those of the optimal linear solution')
        return th


for mth in ('default', 0, 1, 2):
    iterate(mth, None)


def sim_spec(e, P, M, x0):
    def base(eng, k):
        if eng.entails(T.eq(k, 0)):
            return x0.data

    def step(eng, k):
        if not eng.entails(T.lt(0, k)):
            return None
        k1 = T.sub(k, 1)
        return M.sym('f', 'xsim', 'un', (k1, k1)).data
    sp = Spec('xsim', (P.n,), step, recursive=True, pred=lambda k: (T.sub(k, 1),), base=base)
    e.specs['xsim'] = sp
    e.templates.append(Template('xsim', lambda i: sp.arr(i), [0], (1,)))
    return sp


@unit('C15', 'nlqt_np.NLQT.simulate', [Q + 'simulate'])
def u_sim(e):
    P = LQTProblem(e)
    M = Model(e, P)
    o = nlqt_obj(e, P, M)
    u, _ = traj(P)
    sp = sim_spec(e, P, M, P.x0)

    def th():
        r = e.call(meth(e, o, 'simulate'), [P.x0, u])
        e.check_eq(r, PyList(Seq([Seg(T.add(P.T, 1), lambda k: sp.arr(k))])), 'simulate: the trajectory satisfies the nonlinear dynamics, one state per time')
    return th


@unit('C15', 'nlqt_np.NLQT.cost', [Q + 'cost', Q + 'simulate'])
def u_cost(e):
    P = LQTProblem(e)
    M = Model(e, P)
    o = nlqt_obj(e, P, M)
    u, _ = traj(P)
    sp = sim_spec(e, P, M, P.x0)
    J = mat_atom('J', ())

    def h(it, cl, args, kw):
        b = it.bind(cl, args, kw)
        it.e.obl('callee precondition: the cost is that of the problem', 'proved' if b.vars['self'] is o.f['lqt'] else 'refuted', '', 'pre', 'syntactic')
        it.e.check_eq(b.vars['u_list'], u, 'callee precondition: LQT.cost is given the controls', 'pre')
        it.e.check_eq(b.vars['x_list'], PyList(Seq([Seg(T.add(P.T, 1), lambda k: sp.arr(k))])), 'callee precondition: LQT.cost is given the nonlinear trajectory', 'pre')
        return J
    e.contracts[LQ + 'cost'] = h

    def th():
        fr = frame_of(o.f['lqt'])
        r = e.call(meth(e, o, 'cost'), [P.x0, u])
        e.check_eq(r, J, 'cost: the tracking cost along the nonlinear trajectory')
        check_frame(e, o.f['lqt'], fr, 'cost')
    return th


# ------------------------------------------------------------------ bundled models: supplied derivatives are the derivatives of the dynamics
def diff(t, v):
    """derivative of a term (polynomial in variables, sines and cosines) with respect to the application term v"""
    if t is v:
        return T.const(1)
    if t.op in ('const', 'var'):
        return T.const(0)
    if t.op == 'poly':
        out = T.const(0)
        for c, m in t.args:
            for i, (a, k) in enumerate(m):
                da = diff(a, v)
                if T.is_const(da) and T.cval(da) == 0:
                    continue
                r = T.const(c * k)
                for j, (b, l) in enumerate(m):
                    for _ in range(l - (1 if i == j else 0)):
                        r = T.mul(r, b)
                out = T.add(out, T.mul(r, da))
        return out
    if t.op == 'app' and t.args[0] in ('cos', 'sin'):
        d = diff(t.args[1], v)
        if t.args[0] == 'sin':
            return T.mul(T.app('cos', (t.args[1],), T.REAL), d)
        return T.neg(T.mul(T.app('sin', (t.args[1],), T.REAL), d))
    if t.op == 'app' and t.args[0] in ('x', 'u'):
        return T.const(0)
    raise Unsupported('derivative of ' + T.show(t)[:80])


def point_arr(nm, n, lib='np', batch=None):
    if batch is None:
        return Arr('fn', (T.const(n),), lambda i: T.app(nm, (T.L(i),), T.REAL), 'f', lib)
    return Arr('fn', (batch, T.const(n)), lambda k, i: T.app(nm, (T.L(i), T.L(k)), T.REAL), 'f', lib)


NM = 'parallel_control.nonlinear_model_np'


@unit(['C15', 'C18'], 'nonlinear_model_np.NonlinearModel derivatives', [NM + ':NonlinearModel.' + q for q in ('f', 'Fx', 'Fu')])
def u_model(e):
    o = Obj(e.load(NM).g.vars['NonlinearModel'])
    dt = T.var('dt', T.REAL)
    o.f['dt'] = Arr('fn', (), lambda: dt, 'f', 'np')
    x, u = point_arr('x', 4), point_arr('u', 2)

    def th():
        check_derivatives(e, e.call(meth(e, o, 'f'), [x, u]), e.call(meth(e, o, 'Fx'), [x, u]), e.call(meth(e, o, 'Fu'), [x, u]), 'NonlinearModel')
    return th


def check_derivatives(e, f, Fx, Fu, what, batch=None):
    from .. import arrops as A
    k = () if batch is None else (T.var('row', T.INT),)
    if batch is not None:
        e.assume(T.and_(T.le(0, k[0]), T.lt(k[0], batch)))
    n = 4
    pre = () if batch is None else (batch,)
    for a, sh in ((f, (n,)), (Fx, (n, n)), (Fu, (n, 2))):
        if not (isinstance(a, Arr) and len(a.shape) == len(pre) + len(sh) and all(e.dim_eq(p, q) for p, q in zip(a.shape, pre + sh))):
            e.obl(what + ': shapes of the value and the derivatives', 'refuted', repr(a)[:100], 'post', 'syntactic')
            return
    ft, xt, ut = [A.lift_fn(a).data for a in (f, Fx, Fu)]
    for i in range(n):
        fi = ft(*k, T.const(i))
        for j in range(n):
            e.prove_bool(T.eq(xt(*k, T.const(i), T.const(j)), diff(fi, T.app('x', (T.const(j),) + k, T.REAL))), '%s: Fx[%d,%d] is the derivative of f[%d] in x[%d]' % (what, i, j, i, j))
        for j in range(2):
            e.prove_bool(T.eq(ut(*k, T.const(i), T.const(j)), diff(fi, T.app('u', (T.const(j),) + k, T.REAL))), '%s: Fu[%d,%d] is the derivative of f[%d] in u[%d]' % (what, i, j, i, j))

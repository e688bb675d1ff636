"""Contracts for sqp_np.py (C16): the KKT solve, the Newton-KKT iterations on arbitrary smooth programs, the quasi-Newton updates."""
from fractions import Fraction
from .. import terms as T
from .. import ncalg as N
from .. import arrops as A
from .. import shims as SH
from .. import shims_jax as J
from ..values import *
from ..runner import unit
from ..interp import Spec, Template
from .lqt_common import mm, ad, sb, tr

MOD = 'parallel_control.sqp_np'
Q = MOD + ':'
I, R = T.INT, T.REAL
one = T.const(1)


def dims(e, *names):
    vs = [T.var(n, I) for n in names]
    for v in vs:
        e.pc.append(T.le(1, v))
    return vs


@unit('C16', 'sqp_np.lqe_solve', [Q + 'lqe_solve'])
def lqe(e):
    n, m = dims(e, 'n', 'm')
    G, c, Aa, b = mat_atom('G', (n, n)), mat_atom('c', (n,)), mat_atom('A', (m, n)), mat_atom('b', (m,))

    def th():
        r = e.call(e.func(MOD, 'lqe_solve'), [G, c, Aa, b])
        if not (isinstance(r, tuple) and len(r) == 2):
            e.obl('lqe_solve: returns the step and the multipliers', 'refuted', 'result %r' % (r,))
            return
        x, lam = r
        e.prove_bool(T.and_(T.eq(x.shape[0], n), T.eq(lam.shape[0], m)) if x.ndim == 1 and lam.ndim == 1 else T.FALSE,
                     'lqe_solve: one step component per variable, one multiplier per constraint')
        x, lam = A.to_mat(e, x) if hasattr(A, 'to_mat') else x, lam
        e.check_eq(A.sub(e, A.matmul(e, G, x), A.matmul(e, A.transpose(e, Aa), lam)), A.neg(e, c), 'lqe_solve: stationarity G x - A\' lam = -c')
        e.check_eq(A.matmul(e, Aa, x), b, 'lqe_solve: linearised constraints A x = b')
    return th


class Prog:
    """an arbitrary equality constrained program and its Newton-KKT iterates X[k], Lam[k] (k counts iterations from the start)"""

    def __init__(self, e, lib='np', par=(), zero0=True):
        self.e, self.lib = e, lib
        self.n, self.m = dims(e, 'n', 'm')
        self.par = par
        self.f = J.Smooth(e, 'f', self.n, lib=lib)
        self.c = J.Smooth(e, 'c', self.n, self.m, lib=lib)
        n, m = self.n, self.m

        def dX(eng, k):
            if eng.entails(T.le(1, k)):
                k1 = T.sub(k, 1)
                return N.add(self.X.at(k1), mat_atom('pstep', (n,), (k1,)).data)

        def dL(eng, k):
            if eng.entails(T.eq(k, 0)):
                return N.zero((m, one))
        pred = lambda k: (T.sub(k, 1),)
        self.X = Spec('X', (n,), dX, recursive=True, pred=pred)
        self.L = Spec('Lam', (m,), dL)
        for s in (self.X, self.L):
            e.specs[s.name] = s
            e.templates.append(Template(s.name, lambda i, s=s: Arr('mat', s.arr(i).shape, s.at(i), 'f', lib), [0], (1,)))

        e.point_hook = self.point

    def point(self, v):
        """X[k] + pstep[k] is X[k+1]"""
        for (c, w) in v.data.d:
            if len(w) == 1 and w[0].name == 'pstep':
                k = T.add(w[0].idx[0], 1)
                if N.add(v.data, N.add(self.X.at(w[0].idx[0]), N.of_atom(w[0])), -1).is_zero():
                    return self.xa(k)

    def xa(self, k):
        return N.atom('X', (self.n, one), (T.L(k),))

    def la(self, k):
        return N.atom('Lam', (self.m, one), (T.L(k),))

    def x(self, k):
        return Arr('mat', (self.n,), self.X.at(k), 'f', self.lib)

    def lam(self, k):
        return Arr('mat', (self.m,), self.L.at(k), 'f', self.lib)

    def g(self, k):
        return self.f.sym(1, self.xa(k), self.par)

    def jac(self, k):
        return self.c.sym(1, self.xa(k), self.par)

    def cv(self, k):
        return self.c.sym(0, self.xa(k), self.par)

    def dl(self, k):
        return Arr('mat', (self.n,), sb(self.g(k).data, mm(tr(self.jac(k).data), self.L.at(k))), 'f', self.lib)

    def hl(self, k):
        if self.e.entails(T.eq(k, 0)):      # the multipliers are zero before the first iteration
            return self.f.sym(2, self.xa(k), self.par)
        return Arr('mat', (self.n, self.n), sb(self.f.sym(2, self.xa(k), self.par).data, self.c.bilin(self.xa(k), self.la(k), self.par).data), 'f', self.lib)

    def crit(self, k):
        d = self.dl(k)
        return T.app('sqrt', (A.to_scalar_term(A.matmul(self.e, d, d)),), R)

    def find_k(self, *vals):
        for v in vals:
            if isinstance(v, Arr) and v.rep == 'mat':
                for (c, w) in v.data.d:
                    for a in w:
                        if '(X' in a.name:
                            return a.idx[0]
        raise Unsupported('the subproblem does not mention the iterate')

    def lqe(self, who):
        """callee contract of the KKT solve: the data must be those of the Newton-KKT system at the current iterate"""
        def h(it, cl, args, kw):
            b = it.bind(cl, args, kw).vars
            G, c, Aa, bb = [b[q] for q in ('G', 'c', 'A', 'b')]
            for v in (G, c, Aa, bb):
                if isinstance(v, Poison):
                    from ..exec import NeedCarried
                    raise NeedCarried(v)
            e = it.e
            try:
                k = self.find_k(c, Aa, bb, G)
            except Unsupported:
                if not e.mute:
                    raise
                return mat_atom(T.fresh_name('cv_p'), (self.n,), lib=self.lib), mat_atom(T.fresh_name('cv_l'), (self.m,), lib=self.lib)
            e.check_eq(G, self.hl(k), who + ': the quadratic term of the subproblem is the Hessian of the Lagrangian at the iterate and multiplier', 'pre')
            e.check_eq(c, self.g(k), who + ': the linear term of the subproblem is the gradient of the objective at the iterate', 'pre')
            e.check_eq(Aa, self.jac(k), who + ': the constraint matrix is the Jacobian of the constraints at the iterate', 'pre')
            e.check_eq(bb, Arr('mat', (self.m,), N.add(N.zero((self.m, one)), self.cv(k).data, -1), 'f', self.lib), who + ': the constraint right-hand side is minus the constraint value', 'pre')
            return mat_atom('pstep', (self.n,), (k,), lib=self.lib), self.lam(T.add(k, 1))
        return h


@unit('C16', 'sqp_np.local_eq', [Q + 'local_eq'])
def loc(e):
    P = Prog(e)
    mi, tol = T.var('max_iter', I), T.var('tol', R)
    e.pc.append(T.le(0, mi))
    e.contracts[Q + 'lqe_solve'] = P.lqe('local_eq')

    def th():
        r = e.call(e.func(MOD, 'local_eq'), [P.f.fn(), P.c.fn(), P.x(0)], dict(max_iter=mi, tol=tol, quiet=True))
        if not (isinstance(r, tuple) and len(r) == 3):
            e.obl('local_eq: returns iterate, count and criterion', 'refuted', '')
            return
        x, it, crit = r
        it = T.L(SH.lower(it))
        crit = SH.term(SH.lower(crit) if not isinstance(crit, Arr) else crit)
        e.prove_bool(T.and_(T.le(0, it), T.le(it, mi)), 'local_eq: at most the requested number of iterations')
        e.check_eq(x, P.x(it), 'local_eq: the returned point is the Newton-KKT iterate of the returned count')
        if e.branch(T.le(1, it)):
            e.prove_bool(T.eq(crit, P.crit(T.sub(it, 1))), 'local_eq: the returned criterion is the norm of the Lagrangian gradient of the last iteration')
        else:
            e.prove_bool(T.eq(crit, T.const(1, R)), 'local_eq: initial criterion')
        e.prove_bool(T.or_(T.eq(it, mi), T.le(crit, tol)), 'local_eq: stops only when the criterion is met or the iterations are used up')
    return th


@unit('C16', 'sqp_np.local_eq_fast', [Q + 'local_eq_fast'])
def locf(e):
    P = Prog(e)
    ni = T.var('num_iter', I)
    e.pc.append(T.le(1, ni))
    e.contracts[Q + 'lqe_solve'] = P.lqe('local_eq_fast')

    def th():
        r = e.call(e.func(MOD, 'local_eq_fast'), [P.f.fn(), P.c.fn(), P.x(0), ni])
        if not (isinstance(r, tuple) and len(r) == 3):
            e.obl('local_eq_fast: returns iterate, count and criterion', 'refuted', '')
            return
        x, it, crit = r
        e.prove_bool(T.eq(T.L(SH.lower(it)), ni), 'local_eq_fast: reports the number of iterations')
        e.check_eq(x, P.x(ni), 'local_eq_fast: the returned point is the Newton-KKT iterate after num_iter iterations')
        e.prove_bool(T.eq(SH.term(crit), P.crit(T.sub(ni, 1))), 'local_eq_fast: the returned criterion is the norm of the Lagrangian gradient of the last iteration')
    return th


# ------------------------------------------------------------------ quasi-Newton updates
def central(p):
    """pull scalar factors (row times ... times column) out of the words of a matrix expression"""
    out = {}
    for (cen, w), c in p.d.items():
        t = T.from_poly({cen: c}, R)
        rest, cur = [], None
        for a in w:
            if a.shape[0] is one and a.shape[1] is one:
                t = T.mul(t, A.scal_atom((a,)))
                continue
            if cur is None and a.shape[0] is one:
                cur = [a]
            elif cur is not None:
                cur.append(a)
            else:
                rest.append(a)
                continue
            if cur[-1].shape[1] is one:
                t = T.mul(t, A.scal_atom(tuple(cur)))
                cur = None
        rest += cur or []
        k = tuple(rest)
        out[k] = T.add(out[k], t) if k in out else t
    return out


def zero_vec(e, p, label):
    """every coefficient of a matrix expression vanishes"""
    cs = central(p)
    if not cs:
        e.obl(label, 'proved', '', 'post', 'ncalg')
    for w, t in cs.items():
        e.prove_bool(T.eq(t, T.const(0, R)), label)


def sca(e, a, *ms):
    p = a.data
    for m in ms:
        p = mm(p, m.data)
    return A.to_scalar_term(Arr('mat', (), p))


class Upd:
    def __init__(self, e):
        n, = dims(e, 'n')
        self.n = n
        self.B, self.s, self.y = mat_atom('B', (n, n), sym=True), mat_atom('s', (n,)), mat_atom('y', (n,))
        t = staticmethod(lambda a: Arr('mat', (one, one), tr(a.data)))
        self.sy = sca(e, t(self.s), self.y)
        self.sBs = sca(e, t(self.s), self.B, self.s)
        e.pc.append(T.lt(T.const(0, R), self.sBs))       # B positive definite, s nonzero
        self.t = t


def after_update(e, U, B1, z, zs, what):
    """secant equation, symmetry, positive definiteness (z: the curvature vector used, zs = s'z > 0)"""
    n = U.n
    zero_vec(e, sb(mm(B1.data, U.s.data), z), what + ': secant equation B s = y')
    zero_vec(e, sb(B1.data, tr(B1.data)), what + ': the update is symmetric')
    v = mat_atom('v', (n,))
    vBv = sca(e, U.t(v), U.B, v)
    vBs = sca(e, U.t(v), U.B, U.s)
    vz = A.to_scalar_term(Arr('mat', (), mm(tr(v.data), z)))
    q = T.const(0, R)
    for w, t in central(mm(mm(tr(v.data), B1.data), v.data)).items():
        if w != ():
            raise Unsupported('quadratic form')
        q = T.add(q, t)
    want = T.sub(T.add(vBv, T.div(T.mul(vz, vz), zs)), T.div(T.mul(vBs, vBs), U.sBs))
    e.prove_bool(T.eq(q, want), what + ': the quadratic form of the update is v\'Bv + (v\'y)^2/s\'y - (v\'Bs)^2/s\'Bs')


@unit('C16', 'sqp_np.bfgs_basic_update', [Q + 'bfgs_basic_update'])
def bb(e):
    U = Upd(e)

    def th():
        r = e.call(e.func(MOD, 'bfgs_basic_update'), [U.B, U.s, U.y], dict(quiet=True))
        if e.branch(T.lt(T.const(0, R), U.sy)):
            after_update(e, U, r, U.y.data, U.sy, 'bfgs_basic_update')
        else:
            e.check_eq(r, U.B, 'bfgs_basic_update: without positive curvature the matrix is kept')
    return th


@unit('C16', 'sqp_np.bfgs_damped_update', [Q + 'bfgs_damped_update'])
def bd(e):
    U = Upd(e)

    def th():
        r = e.call(e.func(MOD, 'bfgs_damped_update'), [U.B, U.s, U.y], dict(quiet=True))
        c2 = T._mk('const', (Fraction(1, 5),), R)
        c8 = T._mk('const', (Fraction(4, 5),), R)
        if e.branch(T.le(T.mul(c2, U.sBs), U.sy)):
            z, zs = U.y.data, U.sy
        else:
            th_ = T.div(T.mul(c8, U.sBs), T.sub(U.sBs, U.sy))
            z = ad(N.scale_term(U.y.data, th_), N.scale_term(mm(U.B.data, U.s.data), T.sub(T.const(1, R), th_)))
            zs = T.mul(c2, U.sBs)
        after_update(e, U, r, z, zs, 'bfgs_damped_update')
    return th


@unit('C16', 'sqp_np.lemma: the updates stay positive definite', [], kind='lemma')
def bl(e):
    """v'Bv >= (v'Bs)^2/s'Bs (Cauchy-Schwarz in the inner product of B), hence the updated quadratic form is non-negative"""
    a, b, c, d, z = [T.var(q, R) for q in ('vBv', 'vBs', 'sBs', 'vz', 'sz')]
    e.pc += [T.lt(T.const(0, R), c), T.lt(T.const(0, R), z), T.le(T.mul(b, b), T.mul(a, c))]

    def th():
        q = T.sub(T.add(a, T.div(T.mul(d, d), z)), T.div(T.mul(b, b), c))
        e.prove_bool(T.le(T.const(0, R), q), 'the updated quadratic form is non-negative when the old one is positive definite')
    return th

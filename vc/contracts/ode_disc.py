"""Contracts for the single-step numerical building blocks: diffeq_np.rk4, diffeq_tf.rk4, disc.lti_disc, disc.lti_disc_u."""
from .. import terms as T
from .. import ncalg as N
from ..values import *
from .. import arrops as A
from .. import shims as SH
from .lqt_common import mm, ad, sb, tr
from ..runner import unit

I, R = T.INT, T.REAL


class Field:
    """an arbitrary right-hand side f(x[, t][, param]): an uninterpreted function of its arguments"""

    def __init__(self, e, nt, npar, lib='np'):
        self.e, self.nt, self.npar, self.lib = e, nt, npar, lib
        self.memo, self.fn = [], FnVal('f', self.call)

    def call(self, eng, args, kw):
        if kw or len(args) != 1 + self.nt + self.npar:
            raise PyRaise('TypeError', 'call form of the right-hand side')
        x = args[0]
        if not isinstance(x, Arr) or x.rep != 'mat':
            raise Unsupported('argument of the right-hand side')
        t = SH.term(SH.lower(args[1])) if self.nt else T.const(0)
        if isinstance(args[1] if self.nt else 0, Arr):
            t = A.to_scalar_term(args[1])
        p = args[-1] if self.npar else None
        return Arr('mat', x.shape, self.value(x.data, T.toreal(t), p), 'f', self.lib)

    def value(self, x, t, p):
        for k, (y, s, q, at) in enumerate(self.memo):
            if (p is q or (not isinstance(p, Arr) and not isinstance(q, Arr) and p == q)) and (t is s or self.e.entails(T.eq(t, s))) and \
                    self.e._prove_zero(N.add(x, y, -1))[0] == 'proved':
                return at
        at = N.of_atom(N.atom('f#%d' % len(self.memo), x.shape, ()))
        self.memo.append((x, t, p, at))
        return at


def sc(p, t):
    return N.scale_term(p, T.toreal(T.L(t)) if not isinstance(t, T.Term) else t)


def stage_rule(F, x, t, dt, par):
    """the classical stage rule"""
    h = T.div(dt, T.const(2, R)) if hasattr(T, 'div') else T.mul(dt, T._mk('const', (Fr(1, 2),), R))
    k1 = F.value(x, t, par)
    k2 = F.value(ad(x, sc(k1, h)), T.add(t, h), par)
    k3 = F.value(ad(x, sc(k2, h)), T.add(t, h), par)
    k4 = F.value(ad(x, sc(k3, dt)), T.add(t, dt), par)
    s = ad(k1, N.scale_term(k2, T.const(2, R)), N.scale_term(k3, T.const(2, R)), k4)
    return ad(x, N.scale_term(s, T.mul(dt, T._mk('const', (Fr(1, 6),), R))))


from fractions import Fraction as Fr


def rk4_unit(mod, nt, npar, square, lib, defaults=False):
    def body(e):
        n = T.var('n', I)
        e.pc.append(T.le(1, n))
        dt, t = T.var('dt', R), T.var('t', R)
        x = mat_atom('x', (n, n) if square else (n,), lib=lib)
        par = mat_atom('par', (n,), lib=lib)
        f = e.func(mod, 'rk4')
        F = Field(e, nt, npar, lib)
        x0 = x.data

        def th():
            args = [F.fn, dt, x]
            kw = {}
            if defaults:
                pass
            elif lib == 'tf':
                args += [t, par]
            else:
                if nt:
                    kw['t'] = t
                if npar:
                    kw['param'] = par
            r = e.call(f, args, kw)
            tz = t if nt and not defaults else T.const(0, R)
            pz = (Fr(0) if defaults else par) if npar else None
            # without a time argument the field does not see the time: stages are compared with a time-invariant field
            F2 = F
            if not nt:
                F2 = Field(e, nt, npar, lib)
                F2.memo = F.memo
                F2.value = lambda y, s, p: F.value(y, T.toreal(T.const(0)), p)
            want = stage_rule(F2, x0, tz, dt, pz)
            if not isinstance(r, Arr) or r.rep != 'mat':
                e.obl('rk4 returns the new state', 'refuted', repr(r)[:200], 'post', 'syntactic')
                return
            e.check_eq(r, Arr('mat', x.shape, want, 'f', lib), 'one step is the classical fourth-order stage rule at t, t+dt/2, t+dt/2, t+dt')
            e.obl('frame: the state passed in is unchanged', 'proved' if x.data is x0 else 'unknown', '', 'frame', 'syntactic')
        return th
    return body


for nt in (0, 1):
    for npar in (0, 1):
        for sq in (False, True):
            unit('C14', 'diffeq_np.rk4[%s%s%s]' % ('x', ',t' if nt else '', ',param' if npar else '') + ('[matrix state]' if sq else ''),
                 ['parallel_control.diffeq_np:rk4'])(rk4_unit('parallel_control.diffeq_np', nt, npar, sq, 'np'))
for sq in (False, True):
    unit('C14', 'diffeq_tf.rk4' + ('[matrix state]' if sq else ''), ['parallel_control.diffeq_tf:rk4'], tf=True)(
        rk4_unit('parallel_control.diffeq_tf', 1, 1, sq, 'tf'))


@unit('C14', 'rk4.lemma.cubic in time', [], kind='lemma')
def lem_cubic(e):
    """the stage rule integrates dx/dt = c0 + c1 t + c2 t^2 + c3 t^3 exactly (Simpson weights)"""
    c = [T.var('c%d' % i, R) for i in range(4)]
    t, dt, x = T.var('t', R), T.var('dt', R), T.var('x', R)

    def g(s):
        r = c[3]
        for q in (2, 1, 0):
            r = T.add(T.mul(r, s), c[q])
        return r

    def G(s):
        r = T.const(0, R)
        p = s
        for q in range(4):
            r = T.add(r, T.mul(T._mk('const', (Fr(1, q + 1),), R), T.mul(c[q], p)))
            p = T.mul(p, s)
        return r
    h = T.mul(dt, T._mk('const', (Fr(1, 2),), R))
    step = T.mul(T.mul(dt, T._mk('const', (Fr(1, 6),), R)),
                 T.add(T.add(g(t), T.mul(T.const(4, R), g(T.add(t, h)))), g(T.add(t, dt))))
    d = T.sub(T.add(x, step), T.add(x, T.sub(G(T.add(t, dt)), G(t))))
    e.prove_bool(T.eq(d, T.const(0, R)), 'lemma: the stage rule is exact on cubic polynomials of time', 'lemma')


@unit('C14', 'rk4.lemma.linear field', [], kind='lemma')
def lem_linear(e):
    """for f(x) = A x the stage rule gives the Taylor polynomial of the exponential up to the fourth order"""
    n = T.var('n', I)
    dt = T.var('dt', R)
    Am, x = N.of_atom(N.atom('A', (n, n))), N.of_atom(N.atom('x', (n, T.const(1))))
    h = T.mul(dt, T._mk('const', (Fr(1, 2),), R))
    k1 = mm(Am, x)
    k2 = mm(Am, ad(x, sc(k1, h)))
    k3 = mm(Am, ad(x, sc(k2, h)))
    k4 = mm(Am, ad(x, sc(k3, dt)))
    step = ad(x, N.scale_term(ad(k1, N.scale_term(k2, T.const(2, R)), N.scale_term(k3, T.const(2, R)), k4),
                              T.mul(dt, T._mk('const', (Fr(1, 6),), R))))
    want, cur, f = x, x, 1
    p = T.const(1, R)
    for q in range(1, 5):
        cur, f, p = mm(Am, cur), f * q, T.mul(p, dt)
        want = ad(want, N.scale_term(cur, T.mul(p, T._mk('const', (Fr(1, f),), R))))
    e.prove_zero(sb(step, want), 'lemma: linear field gives the fourth-order Taylor polynomial of the exact flow', 'lemma')


# ------------------------------------------------------------------ discretisation
def disc_unit(which, dtF, qc, g, ddt=False):
    def body(e):
        n, p, m = T.var('n', I), T.var('p', I), T.var('m', I)
        for d in (n, p, m):
            e.pc.append(T.le(1, d))
        dt = T.var('dt', R) if not ddt else T.const(1, R)
        if qc == 'scalar':
            p = T.const(1)
        F, L = mat_atom('F', (n, n), dtype=dtF), mat_atom('L', (n, p))
        Qc = mat_atom('Qc', (p, p), sym=True) if qc == 'matrix' else T.var('qc', R) if qc == 'scalar' else None
        G = mat_atom('G', (n, m)) if g else None
        q = Qc.data if qc == 'matrix' else N.scale_term(N.ident(p), Qc) if qc == 'scalar' else N.ident(p)
        f = e.func('parallel_control.disc', which)
        snap = [(v, v.data) for v in (F, L, Qc, G) if isinstance(v, Arr)]
        e.norefute = True

        def th():
            args = [F, L] + ([G] if which == 'lti_disc_u' else []) + ([Qc, dt] if not ddt else [])
            r = e.call(f, args)
            want = 3 if which == 'lti_disc_u' else 2
            if not (isinstance(r, tuple) and len(r) == want):
                e.norefute = False
                e.obl(which + ' returns %d matrices' % want, 'refuted', '', 'post', 'syntactic')
                return
            sd = lambda x: N.scale_term(x, dt)
            Fd, Ld = F.data, L.data
            E11 = SH.keyed(e, 'expm', [sd(Fd)], Fd.shape)
            E12 = SH.keyed(e, 'expm12', [sd(Fd), sd(mm(Ld, q, tr(Ld))), sd(N.scale_term(tr(Fd), T.const(-1, R)))], Fd.shape)
            ck = lambda v, w, lab: e.check_eq(v, Arr('mat', v.shape, w, 'f'), lab)
            ck(r[0], E11, 'transition matrix is the exponential of F dt')
            ck(r[-1], mm(E12, tr(E11)), 'noise covariance is E12 E11\' of the exponential of [[F, L Qc L\'], [0, -F\']] dt')
            if want == 3:
                Gd = G.data if g else N.ident(n)
                mg = m if g else n
                B = SH.keyed(e, 'expm12', [sd(Fd), sd(Gd), N.zero((mg, mg))], Gd.shape)
                ck(r[1], B, 'input gain is the upper right block of the exponential of [[F, G], [0, 0]] dt')
            e.obl('frame: the continuous-time matrices are unchanged', 'proved' if all(v.data is d for v, d in snap) else 'unknown', '', 'frame', 'syntactic')
        return th
    return body


for dtF in ('f', 'i'):
    for qc in ('matrix', 'scalar', 'default'):
        s = '[%s F, %s Qc]' % ({'f': 'float', 'i': 'integer'}[dtF], qc)
        unit('C14', 'disc.lti_disc' + s, ['parallel_control.disc:lti_disc'])(disc_unit('lti_disc', dtF, qc, False))
        for g in (True, False):
            unit('C14', 'disc.lti_disc_u' + s + ('' if g else '[default G]'), ['parallel_control.disc:lti_disc_u', 'parallel_control.disc:lti_disc'])(
                disc_unit('lti_disc_u', dtF, qc, g))


@unit('C14', 'disc.lemma.Lyapunov', [], kind='lemma')
def lem_lyap(e):
    """Van Loan: with E' = M E, E(0) = I, M = [[F, W], [0, -F']], the matrix Q = E12 E11' solves dQ/dt = F Q + Q F' + W, Q(0) = 0,
    whose solution is the integral of e^{Fs} W e^{F's}"""
    n = T.var('n', I)
    a = lambda nm, sym=False: N.of_atom(N.atom(nm, (n, n), (), sym))
    F, W, E11, E12, E22 = a('F'), a('W', True), a('E11'), a('E12'), a('E22')
    d11, d12, d22 = mm(F, E11), ad(mm(F, E12), mm(W, E22)), N.scale_term(mm(tr(F), E22), T.const(-1, R))
    # invariant E22 E11' = I: equal at 0 and its derivative vanishes given commutation of E22 with F' (functions of the same matrix)
    der = ad(mm(d22, tr(E11)), mm(E22, tr(d11)))
    e.prove_zero(der, "lemma: d/dt(E22 E11') = 0", 'lemma', extra=[sb(mm(tr(F), E22), mm(E22, tr(F))), sb(mm(E11, F), mm(F, E11))])
    inv = sb(mm(E22, tr(E11)), N.ident(n))
    dQ = ad(mm(d12, tr(E11)), mm(E12, tr(d11)))
    Q = mm(E12, tr(E11))
    e.prove_zero(sb(dQ, ad(mm(F, Q), mm(Q, tr(F)), W)), "lemma: dQ/dt = F Q + Q F' + W", 'lemma', extra=[inv])
    # input gain: E' = [[F, G], [0, 0]] E: E22 = I, dE12/dt = F E12 + G, the integral of e^{Fs} G


unit('C14', 'diffeq_tf.rk4[default time and parameter]', ['parallel_control.diffeq_tf:rk4'], tf=True)(
    rk4_unit('parallel_control.diffeq_tf', 1, 1, False, 'tf', True))
unit('C14', 'disc.lti_disc[all defaults]', ['parallel_control.disc:lti_disc'])(disc_unit('lti_disc', 'f', 'default', False, True))
unit('C14', 'disc.lti_disc_u[all defaults]', ['parallel_control.disc:lti_disc_u', 'parallel_control.disc:lti_disc'])(
    disc_unit('lti_disc_u', 'f', 'default', True, True))

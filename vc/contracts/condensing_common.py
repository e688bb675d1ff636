"""Specification of partial condensing (C10): for a concrete block length Nc (the stated bound of these units), every horizon
T = Nc*q + rho, every dimension and every matrix.

condense: stage kp of the result, applied to an arbitrary state x and arbitrary block controls u, gives the state of the original
problem after the block (dynamics iterated stage by stage), and its stage cost differs from the summed original stage costs by a term
that does not depend on (x, u).  convertUX: entry k is the control block / the original state at time k, no padding entries."""
from fractions import Fraction
from .. import terms as T
from .. import ncalg as N
from .. import arrops as A
from ..values import *
from .. import values as V
from ..runner import unit
from .lqt_common import LQTProblem, mm, tr, ad, sb
from .util import *

I, R = T.INT, T.REAL
HALF = T.const(Fraction(1, 2))
one = T.const(1)
NCS = (1, 2, 3, 4, 5)


class Cond:
    def __init__(self, e, Nc, rho, lib='np', cls=None):
        self.e, self.Nc, self.rho, self.lib = e, Nc, rho, lib
        P = self.P = cls(e) if cls else LQTProblem(e, lib=lib, identZ=True, constp=True)
        self.q = T.var('q', I)
        e.pc.append(T.le(0 if rho else 1, self.q))
        P.T = T.add(T.mul(T.const(Nc), self.q), rho)
        P.sh['M'] = lambda k: (P.pT, P.m)
        self.Tc = T.add(self.q, 1 if rho else 0)
        self.kp = T.var('kp', I)

    def blocks(self):
        """(description, block index, number of original stages in the block)"""
        e = self.e
        yield 'a full block', self.kp, self.Nc
        if self.rho:
            yield 'the padded last block', self.q, self.rho

    def stage(self, kp, i):
        return T.add(T.mul(T.const(self.Nc), kp), i)

    def iterate(self, kp, nb, x, us):
        """original states of the block from x under the controls us, and the sum of the stage costs"""
        P = self.P
        xs, J = [x], N.zero((one, one))
        for i in range(self.Nc):
            k = self.stage(kp, i)
            if i < nb:
                y = sb(mm(P.g('H', k), x), P.g('r', k))
                J = ad(J, N.scale_term(ad(mm(tr(y), P.g('X', k), y), mm(tr(us[i]), P.g('U', k), us[i])), HALF))
                x = ad(mm(P.g('F', k), x), P.g('c', k), mm(P.g('L', k), us[i]))
            else:
                J = ad(J, N.scale_term(mm(tr(us[i]), us[i]), HALF))
            xs.append(x)
        return xs, J

    def uvec(self, us):
        return vec(us)


def vec(ps, lib='np'):
    return A.blk_arr(A.Block([p.shape[0] for p in ps], [one], [[p] for p in ps]), 1, 'f', lib)


def B(a):
    return A.to_block(a)


def bsum(e, *bs):
    r = bs[0]
    for b in bs[1:]:
        r = A.blk_add(e, r, b)
    return r


def one_entry(e, b):
    """1x1 block matrix -> polynomial"""
    assert len(b.rows) == 1 and len(b.cols) == 1
    return b.ent[0][0]


def solve_eq(e, rs, kp):
    """equations satisfied by the solution vector rs (residual A rs - b) from the log of solves, instantiated at kp"""
    for name, idx, Am, Bm, X in e.solves:
        ok = all(len(p.d) == 1 and any(a_name(at).startswith(name + '_') for at in list(p.d)[0][1]) for row in rs.ent for p in row)
        if ok:
            m = {idx[0]: kp} if idx and idx[0].op == 'var' else {}
            f = lambda p: V.subst_poly(p, m) if m else p
            R_ = A.blk_add(e, A.blk_mul(e, Am.map(f), rs), Bm.map(f), -1)
            return R_
    return None


def a_name(at):
    return at.name if hasattr(at, 'name') else str(at)


def element(e, v, k):
    s = v.seq if isinstance(v, PyList) else v.data
    return s.get(k, e)


def check_condensed(e, C, f):
    P, Nc = C.P, C.Nc
    for k, v in f.items():
        e.prove_bool(T.eq(v.seq.length() if isinstance(v, PyList) else v.shape[0], C.Tc), 'condense: %s has one entry per block' % k)
    for what, kp, nb in C.blocks():
        sav = list(e.pc)
        if kp is C.kp:
            if not e.branch(T.le(1, C.q)):
                continue        # no full block on this path
            e.assume(T.le(0, kp))
            e.assume(T.lt(kp, C.q))
        at = lambda k: element(e, f[k], kp)
        x = N.of_atom(N.atom('x', (P.n, one)))
        us = [N.of_atom(N.atom('u%d' % i, (P.m, one))) for i in range(Nc)]
        xs, J = C.iterate(kp, nb, x, us)
        xv, uv = Arr('mat', (P.n,), x, 'f', P.lib), vec(us, P.lib)
        got = A.add(e, A.add(e, A.matmul(e, at('F'), xv), A.matmul(e, at('L'), uv)), at('c'))
        e.check_eq(got, Arr('mat', (P.n,), xs[-1], 'f', P.lib), 'condense: dynamics of %s equal the iterated original dynamics' % what)
        # costs
        def cost(x_, u_, r_, s_):
            y = A.sub(e, A.matmul(e, at('H'), x_), r_)
            w = A.sub(e, A.matmul(e, at('Z'), u_), s_) if 'Z' in f else A.sub(e, u_, s_)
            t1 = A.matmul(e, y, A.matmul(e, at('X'), y))
            t2 = A.matmul(e, w, A.matmul(e, at('U'), w))
            t3 = A.matmul(e, y, A.matmul(e, at('M'), w))
            return ad(N.scale_term(P1(t1), HALF), N.scale_term(P1(t2), HALF), P1(t3))
        zx, zu = Arr('mat', (P.n,), N.zero((P.n, one)), 'f', P.lib), vec([N.zero((P.m, one)) for _ in us], P.lib)
        _, J0 = C.iterate(kp, nb, zx.data, [N.zero((P.m, one))] * Nc)
        D = sb(sb(cost(xv, uv, at('r'), at('s')), cost(zx, zu, at('r'), at('s'))), sb(J, J0))
        rs = B(at('r'))
        ss = B(at('s'))
        stacked = A.Block(rs.rows + ss.rows, [one], rs.ent + ss.ent)
        eq = solve_eq(e, stacked, kp)
        if eq is not None:
            z = A.blk_mul(e, A.Block([P.n] + [P.m] * Nc, [one], [[x]] + [[u] for u in us]).T(), eq)
            D2 = ad(D, one_entry(e, z))
        else:
            D2 = D
        st = e._prove_zero(N.add(D2, tr(D2)), [])
        if st[0] != 'proved':
            st = e._prove_zero(N.add(D, tr(D)), [q for _, q in e.eqs])
        e.obl('condense: stage cost of %s equals the summed original stage costs up to a term independent of state and control' % what, st[0], str(st[1])[:300], 'post', st[2])
        e.pc = sav


def P1(a):
    if isinstance(a, Arr):
        b = B(a)
        return one_entry(None, b)
    raise Unsupported('scalar expected')


def check_expanded(e, C, r, ua, xa):
    P, Nc = C.P, C.Nc
    if not (isinstance(r, tuple) and len(r) == 2):
        e.obl('convertUX returns controls and states', 'refuted', '', 'post', '')
        return
    ln = lambda v: v.seq.length() if isinstance(v, PyList) else v.shape[0]
    e.prove_bool(T.eq(ln(r[0]), P.T), 'convertUX: one control per original stage')
    e.prove_bool(T.eq(ln(r[1]), T.add(P.T, 1)), 'convertUX: one state more than stages')
    for what, kp, nb in C.blocks():
        sav = list(e.pc)
        if kp is C.kp:
            if not e.branch(T.le(1, C.q)):
                continue        # no full block on this path
            e.assume(T.le(0, kp))
            e.assume(T.lt(kp, C.q))
        us = [ua(kp, i) for i in range(Nc)]
        xs, _ = C.iterate(kp, nb, xa(kp), us)
        for i in range(nb):
            k = C.stage(kp, i)
            e.check_eq(element(e, r[0], k), Arr('mat', (P.m,), us[i], 'f', P.lib), 'convertUX: control %d of %s' % (i, what))
            e.check_eq(element(e, r[1], k), Arr('mat', (P.n,), xs[i], 'f', P.lib), 'convertUX: state %d of %s is the original state' % (i, what))
        e.pc = sav
    e.check_eq(element(e, r[1], P.T), Arr('mat', (P.n,), xa(C.Tc), 'f', P.lib), 'convertUX: last state')

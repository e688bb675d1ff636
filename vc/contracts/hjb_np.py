"""Contracts for hjb_grid_1d_np.py (C17): combination of conditional value functions, finite-difference passes, sequential and parallel passes."""
from .fsc_common import *
from ..runner import unit
from .. import shims as SH
from .util import *

MOD = 'parallel_control.hjb_grid_1d_np'
Q = MOD + ':'
C0, C1 = T.const(0), T.const(1)


def app(nm, *a, sort=R):
    return T.app(nm, tuple(T.L(x) for x in a), sort)


def table(nm, sh, lib='np'):
    return Arr('fn', sh, lambda *k: app(nm, *k), 'f', lib)


def grid_size(e, nm='n'):
    n = T.var(nm, I)
    e.pc.append(T.le(2, n))
    return n


def recips(t, guard=(), acc=None, seen=None):
    """every division in a term, as the condition that its denominator is not zero where it is evaluated"""
    acc, seen = ([], set()) if acc is None else (acc, seen)
    if (t, guard) in seen:
        return acc
    seen.add((t, guard))
    qs = [t.args[0]] if t.op == 'recip' else [a for (_, m) in t.args for a, p in m if p < 0] if t.op == 'poly' else []
    acc += [T.implies(T.and_(*guard), T.not_(T.eq(q, T.const(0, R)))) for q in qs]
    if t.op == 'ite':
        c, x, y = t.args
        recips(c, guard, acc, seen)
        recips(x, guard + (c,), acc, seen)
        recips(y, guard + (T.not_(c),), acc, seen)
        return acc
    for a in T.children(t):
        recips(a, guard, acc, seen)
    return acc


def check_table(e, r, sh, label):
    ok = isinstance(r, Arr) and r.ndim == len(sh) and all(e.dim_eq(a, b) for a, b in zip(r.shape, sh))
    e.obl(label + ': shape', 'proved' if ok else 'unknown', repr(getattr(r, 'shape', r))[:200], 'post', 'shape')
    return ok


def check_plain(e, r, n, f, label, batch=None):
    """r[i, k] is the least f(i, u, k)"""
    if not check_table(e, r, ((batch,) if batch is not None else ()) + (n, n), label):
        return
    i, k = T.var('i', I), T.var('k', I)
    pre = (T.var('b', I),) if batch is not None else ()

    def th():
        for v in (i, k):
            e.assume(inr(v, n))
        for v in pre:
            e.assume(inr(v, batch))
        e.prove_bool(T.eq(A.lift_fn(r).data(*pre, i, k), mn(n, lambda u: f(*pre, i, u, k))), label + ': least sum over the intermediate grid point')
    for o in e.explore(th):
        if o.exc:
            e.obl('readable', 'unknown', str(o.exc), 'post', '')


def check_interp(e, r, n, f, label, batch=None):
    if not check_table(e, r, ((batch,) if batch is not None else ()) + (n, n), label):
        return
    i, k = T.var('i', I), T.var('k', I)
    pre = (T.var('b', I),) if batch is not None else ()

    def th():
        for v in (i, k):
            e.assume(inr(v, n))
        for v in pre:
            e.assume(inr(v, batch))
        g = lambda u: f(*pre, i, u, k)
        j = argmn(n, g)
        t = A.lift_fn(r).data(*pre, i, k)
        fi = g(j)
        e.assume(inr(j, n))
        if not e.branch(T.and_(T.le(1, j), T.le(j, T.sub(n, 2)))):
            e.prove_bool(T.eq(t, fi), label + ': no correction where the minimiser is an end of the grid')
            for q in recips(t):
                e.prove_bool(q, label + ': no division by zero at the ends of the grid')
            return
        jv = T.fresh('j', I)
        e.assume(T.eq(jv, j))
        fp, fm = g(T.add(j, 1)), g(T.sub(j, 1))
        e.assume(T.and_(T.le(fi, fp), T.le(fi, fm)))
        d = T.sub(T.add(fp, fm), T.mul(T.const(2), fi))
        if e.branch(T.eq(d, T.const(0, R))):
            e.prove_bool(T.eq(t, fi), label + ': no correction where the neighbouring values are equal')
        else:
            s = T.sub(fp, fm)
            e.prove_bool(T.eq(t, T.sub(fi, T.div(T.mul(s, s), T.mul(T.const(8), d)))), label + ': vertex of the parabola through the minimiser and its neighbours')
        for q in recips(t):
            e.prove_bool(q, label + ': no division by zero')
    for o in e.explore(th):
        if o.exc:
            e.obl(label + ': entries readable', 'unknown', str(o.exc), 'post', '')


def comb(name, chk):
    @unit('C17', 'hjb_grid_1d_np.' + name, [Q + name])
    def u(e):
        n = grid_size(e)
        P, S = table('P', (n, n)), table('S', (n, n))

        def th():
            r = e.call(e.func(MOD, name), [P, S])
            chk(e, r, n, lambda i, u, k: T.add(app('P', i, u), app('S', u, k)), name)
        return th


comb('combine_V', check_plain)
comb('combine_V2', check_plain)
comb('combine_V_interp', check_interp)
comb('combine_V_interp2', check_interp)


# ------------------------------------------------------------------ finite differences
class Grid:
    """grid problem: blocks x steps explicit steps; U(i, j, x): value after i full blocks and j steps (counted from the end of the horizon)"""

    def __init__(self, e, scheme, lib='np', nested=True):
        self.e, self.lib, self.scheme = e, lib, scheme
        self.n, self.nu = grid_size(e), T.var('nu', I)
        self.B, self.S = T.var('blocks', I), T.var('steps', I)
        for v in (self.nu, self.B, self.S):
            e.pc.append(T.le(1, v))
        e.pc.append(T.lt(self.xg(0), self.xg(1)))
        self.T = T.var('T', R)
        self.dt = T.div(T.div(self.T, T.toreal(self.B)), T.toreal(self.S))
        self.xgrid, self.ugrid = table('xg', (self.n,), lib), table('ug', (self.nu,), lib)
        self.f, self.L = self.model('f'), self.model('L')
        self.LT = FnVal('LT', lambda eng, a, k: A.emap(eng, lambda x: app('LT', x), a[0]) if isinstance(a[0], Arr) else app('LT', a[0]))
        if nested:
            inr_x = lambda x: inr(x, self.n)
            e.inst['U'] = lambda i, j, x: [
                T.implies(T.and_(T.eq(i, 0), T.eq(j, 0), inr_x(x)), T.eq(self.U(i, j, x), app('LT', self.xg(x)))),
                T.implies(T.and_(T.le(1, i), T.eq(j, 0)), T.eq(self.U(i, j, x), self.U(T.sub(i, 1), self.S, x))),
                T.implies(T.and_(T.le(1, j), T.le(j, self.S), inr_x(x)), T.eq(self.U(i, j, x), self.step(lambda y: self.U(i, T.sub(j, 1), y), x)))]
            e.defs['U'] = lambda i, j, x: [
                (T.and_(T.eq(i, 0), T.eq(j, 0), inr_x(x)), lambda: app('LT', self.xg(x))),
                (T.and_(T.le(1, i), T.eq(j, 0)), lambda: self.U(T.sub(i, 1), self.S, x)),
                (T.and_(T.le(1, j), T.le(j, self.S), inr_x(x)), lambda: self.step(lambda y: self.U(i, T.sub(j, 1), y), x))]
            e.templates.append(Template('U', lambda i: self.Uarr(i, 0), [0], (1,)))
            e.templates.append(Template('Uin', self.inner, [0], (1,)))

    def inner(self, j):
        st = self.e.loop_stack
        if not st:
            raise Unsupported('template outside its loop nest')
        return self.Uarr(st[0][0], j)

    def model(self, nm):
        def call(eng, a, k):
            if k or len(a) != 2:
                raise PyRaise('TypeError', 'call form of a model function')
            return A.elementwise(eng, lambda x, u: app(nm, x, u), a[0], a[1])
        return FnVal(nm, call)

    def xg(self, x):
        return app('xg', x)

    def U(self, i, j, x):
        return app('U', i, j, x)

    def Uarr(self, i, j):
        return Arr('fn', (self.n,), lambda x: self.U(i, j, x), 'f', self.lib)

    def step(self, V, x):
        """V(x) + dt min_u [ L(x, u) + f(x, u) V'(x) ]"""
        dx = T.sub(self.xg(1), self.xg(0))
        last = T.sub(self.n, 1)
        lo, hi = T.lt(x, 1), T.not_(T.lt(x, last))
        fw = T.div(T.sub(V(T.add(x, 1)), V(x)), dx)
        bw = T.div(T.sub(V(x), V(T.sub(x, 1))), dx)
        ends = lambda mid: T.ite(lo, fw, T.ite(hi, bw, mid))        # one-sided at the ends of the grid
        X = self.xg(x)

        def q(u):
            w = app('ug', u)
            fv, Lv = app('f', X, w), app('L', X, w)
            if self.scheme != 'up':
                D = ends(T.div(T.sub(V(T.add(x, 1)), V(T.sub(x, 1))), T.mul(T.const(2), dx)))
            else:
                D = T.ite(T.lt(0, fv), ends(fw), T.ite(T.lt(fv, 0), ends(bw), T.const(0, R)))
            return T.add(Lv, T.mul(fv, D))
        if self.scheme == 'sym':
            return T.add(V(x), T.mul(self.dt, q(argmn(self.nu, q))))        # the value at a minimising control is the minimum
        return T.add(V(x), T.mul(self.dt, mn(self.nu, q)))

    def obj(self, mod=MOD):
        o = Obj(self.e.load(mod).g.vars['HJB_Grid_1d'])
        o.f.update(f=self.f, L=self.L, LT=self.LT, T=self.T, blocks=self.B, steps=self.S, fd_x_grid=self.xgrid)
        return o


def fd(name, scheme):
    @unit('C17', 'hjb_grid_1d_np.HJB_Grid_1d.' + name, [Q + 'HJB_Grid_1d.' + name])
    def u(e):
        G = Grid(e, scheme)

        def th():
            o = G.obj()
            fr = frame_of(o)
            r = e.call(meth(e, o, name), [G.ugrid])
            check_values(e, r, G.B, lambda k: G.Uarr(T.sub(G.B, k), 0), name + ': value function at every block boundary, in time order')
            check_frame(e, o, fr, name)
        return th


def check_values(e, r, B, want, label):
    sq = r.seq if isinstance(r, PyList) else A.rows(e, r) if isinstance(r, Arr) else None
    if sq is None:
        e.obl(label, 'unknown', repr(r)[:100], 'post', '')
        return
    e.prove_bool(T.eq(sq.length(), T.add(B, 1)), label + ': one per boundary')
    k = T.var('k', I)

    def th():
        e.assume(inr(k, T.add(B, 1)))
        q = k if e.branch(T.lt(k, B)) else T.L(B)
        e.check_eq(sq.get(q, e), want(q), label)
    for o in e.explore(th):
        if o.exc:
            e.obl(label + ': readable', 'unknown', str(o.exc), 'post', '')


fd('seqBackwardPass_symfd', 'sym')
fd('seqBackwardPass_upwind', 'up')


# ------------------------------------------------------------------ passes built on the combination
class Passes:
    """W(0)[x, c] = LT(x); W(k + 1) = combination of the block table with W(k)"""

    def __init__(self, e, lib='np'):
        self.e, self.lib = e, lib
        self.n, self.B = grid_size(e), T.var('blocks', I)
        e.pc.append(T.le(1, self.B))
        self.block = table('BV', (self.n, self.n), lib)
        self.xgrid = table('xg', (self.n,), lib)
        self.LT = FnVal('LT', lambda eng, a, k: A.emap(eng, lambda x: app('LT', x), a[0]) if isinstance(a[0], Arr) else app('LT', a[0]))
        self.VT = Arr('fn', (self.n, self.n), lambda x, c: app('LT', app('xg', x)), 'f', lib)
        e.inst['W'] = lambda k, i, c: [T.implies(T.eq(k, 0), T.eq(app('W', k, i, c), app('LT', app('xg', i))))]
        e.templates.append(Template('W', self.W, [0], (1,)))

    def W(self, k):
        return Arr('fn', (self.n, self.n), lambda i, c: app('W', k, i, c), 'f', self.lib)

    def combine(self, it, cl, args, kw):
        """call-site contract of the combination in the sequential recursion: the operands are the block table and W(k)"""
        e = self.e
        v = it.bind(cl, args, kw).vars
        x, y = [v[p.arg] for p in cl.node.args.args[:2]]
        st = e.loop_stack
        if st and isinstance(x, Arr) and isinstance(y, Arr) and x.ndim == y.ndim == 2 and x.rep == y.rep == 'fn' and e.eq_val(x, self.block)[0] == 'proved':
            k = st[-1][0]
            if e.eq_val(y, self.W(k))[0] == 'proved':
                return self.W(T.add(k, 1))
        f = 'cv_comb%d' % T.fresh('c', I).id
        return Arr('fn', (self.n, self.n), lambda i, c: app(f, i, c), 'f', self.lib)

    def obj(self):
        o = Obj(self.e.load(MOD).g.vars['HJB_Grid_1d'])
        o.f.update(f=FnVal('f', None), L=FnVal('L', None), LT=self.LT, T=T.var('T', R), blocks=self.B, steps=T.var('steps', I), fd_x_grid=self.xgrid)
        return o


@unit('C17', 'hjb_grid_1d_np.HJB_Grid_1d.seqBackwardPass_assoc', [Q + 'HJB_Grid_1d.seqBackwardPass_assoc'])
def u_assoc(e):
    P = Passes(e)
    e.contracts[Q + 'combine_V_interp'] = P.combine

    def th():
        o = P.obj()
        fr = frame_of(o)
        r = e.call(meth(e, o, 'seqBackwardPass_assoc'), [P.block])
        check_values(e, r, P.B, lambda k: Arr('fn', (P.n,), lambda x: app('W', T.sub(P.B, k), x, 0), 'f', 'np'),
                     'seqBackwardPass_assoc: value function at every block boundary, in time order')
        check_frame(e, o, fr, 'seqBackwardPass_assoc')
        e.prove_bool(T.eq(A.lift_fn(P.block).data(T.var('i', I), T.var('c', I)), app('BV', T.var('i', I), T.var('c', I))), 'seqBackwardPass_assoc: the block table is not changed')
    return th


def scan_handler(e, P, fname, comb):
    """my_assoc_scan by contract: the operation is the combination with its operands in order, the scan runs from the end of the horizon over
    the block tables followed by the terminal table; entry k is the combination, in order, of the elements k, k + 1, .. (bracketing by the scan)"""
    def h(it, cl, args, kw):
        v = it.bind(cl, args, kw).vars
        names = [p.arg for p in cl.node.args.args]
        op, elems = v[names[0]], v[names[1]]
        X, Y = table('X!', (P.n, P.n)), table('Y!', (P.n, P.n))
        seen = []
        sav = e.contracts.get(Q + comb)

        def on_comb(it2, cl2, a2, k2):
            b = it2.bind(cl2, a2, k2).vars
            seen.append([b[p.arg] for p in cl2.node.args.args[:2]])
            return Arr('fn', (P.n, P.n), lambda i, c: app('XY!', i, c), 'f', 'np')
        e.contracts[Q + comb] = on_comb
        r = e.call(op, [X, Y])
        if sav is None:
            del e.contracts[Q + comb]
        else:
            e.contracts[Q + comb] = sav
        ok = len(seen) == 1 and seen[0][0] is X and seen[0][1] is Y and isinstance(r, Arr)
        e.obl(fname + ': the scanned operation is the combination, operands in order', 'proved' if ok else 'refuted' if len(seen) == 1 and seen[0][0] is Y and seen[0][1] is X else 'unknown', '', 'pre', 'call')
        if isinstance(r, Arr):
            e.check_eq(r, Arr('fn', (P.n, P.n), lambda i, c: app('XY!', i, c), 'f', 'np'), fname + ': the scanned operation returns the combination', 'pre')
        e.obl(fname + ': the scan runs backwards in time', 'proved' if v.get('reverse') is True else 'refuted' if v.get('reverse') is False else 'unknown', '', 'pre', 'call')
        n = elems.seq.length()
        P.scanned = elems.seq
        return PyList(Seq([Seg(n, lambda k: Arr('fn', (P.n, P.n), lambda i, c: app('BR', k, i, c), 'f', 'np'))]))
    return h


def scan_unit(fname, comb):
    @unit('C17', 'hjb_grid_1d_np.' + fname, [Q + fname])
    def u(e):
        P = Passes(e)
        e.contracts['parallel_control.my_assoc_scan:my_assoc_scan'] = scan_handler(e, P, fname, comb)

        def th():
            N_ = T.var('N', I)
            e.assume(T.le(1, N_))
            el = PyList(Seq([Seg(N_, lambda k: Arr('fn', (P.n, P.n), lambda i, c: app('E', k, i, c), 'f', 'np'))]))
            r = e.call(e.func(MOD, fname), [el])
            k = T.var('k', I)
            e.assume(inr(k, N_))
            e.check_eq(P.scanned.get(k, e), Arr('fn', (P.n, P.n), lambda i, c: app('E', k, i, c), 'f', 'np'), fname + ': scans the given elements')
            e.check_eq(r.seq.get(k, e), Arr('fn', (P.n, P.n), lambda i, c: app('BR', k, i, c), 'f', 'np'), fname + ': returns the combination of every suffix')
        return th


scan_unit('par_backward_pass_scan', 'combine_V')
scan_unit('par_backward_pass_scan_interp', 'combine_V_interp')


@unit('C17', 'hjb_grid_1d_np.HJB_Grid_1d.parBackwardPass', [Q + 'HJB_Grid_1d.parBackwardPass', Q + 'HJB_Grid_1d.parBackwardPass_init', Q + 'HJB_Grid_1d.parBackwardPass_extract'])
def u_par(e):
    P = Passes(e)

    def on_scan(it, cl, args, kw):
        v = it.bind(cl, args, kw).vars
        el = v[cl.node.args.args[0].arg].seq
        e.prove_bool(T.eq(el.length(), T.add(P.B, 1)), 'parBackwardPass: one element per block and one for the end', 'pre')
        k = T.var('k', I)

        def th():
            e.assume(inr(k, T.add(P.B, 1)))
            if e.branch(T.lt(k, P.B)):
                e.check_eq(el.get(k, e), P.block, 'parBackwardPass: elements 0..blocks-1 are the block table', 'pre')
            else:
                e.check_eq(el.get(T.L(P.B), e), P.VT, 'parBackwardPass: the last element is the terminal cost', 'pre')
        for o in e.explore(th):
            if o.exc:
                e.obl('readable', 'unknown', str(o.exc), 'post', '')
        return PyList(Seq([Seg(T.add(P.B, 1), lambda k: Arr('fn', (P.n, P.n), lambda i, c: app('BR', k, i, c), 'f', 'np'))]))
    e.contracts[Q + 'par_backward_pass_scan_interp'] = on_scan

    def th():
        o = P.obj()
        fr = frame_of(o)
        r = e.call(meth(e, o, 'parBackwardPass'), [P.block])
        check_values(e, r, P.B, lambda k: Arr('fn', (P.n,), lambda x: app('BR', k, x, 0), 'f', 'np'),
                     'parBackwardPass: first column of every suffix combination, in time order')
        check_frame(e, o, fr, 'parBackwardPass')
    return th


@unit('C17', 'lemma: the plain combination is associative', [], kind='lemma')
def u_lemma(e):
    n = T.var('n', I)
    e.pc.append(T.le(1, n))

    def th():
        i, k = T.var('i', I), T.var('k', I)
        a, b, c = (lambda x, y: app('A', x, y)), (lambda x, y: app('B', x, y)), (lambda x, y: app('C', x, y))
        left = lambda u: T.add(mn(n, lambda v: T.add(a(i, v), b(v, u))), c(u, k))
        right = lambda v: T.add(a(i, v), mn(n, lambda u: T.add(b(v, u), c(u, k))))
        us = argmn(n, left)
        vs = argmn(n, lambda v: T.add(a(i, v), b(v, us)))
        vt = argmn(n, right)
        ut = argmn(n, lambda u: T.add(b(vt, u), c(u, k)))
        for w in (us, vs, vt, ut):
            e.assume(inr(w, n))
        full = lambda v, u: T.add(T.add(a(i, v), b(v, u)), c(u, k))
        e.prove_bool(T.le(mn(n, right), full(vs, us)), 'right bracketing <= every sum, at the witness of the left one')
        e.prove_bool(T.eq(full(vs, us), mn(n, left)), 'left bracketing is attained')
        e.prove_bool(T.le(mn(n, left), full(vt, ut)), 'left bracketing <= every sum, at the witness of the right one')
        e.prove_bool(T.eq(full(vt, ut), mn(n, right)), 'right bracketing is attained')
    return th

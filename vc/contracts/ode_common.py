"""Shared by the continuous-time contracts (C11, C12, C13): the symbolic problem, families of integration states and the call-site
contract of the integrator (discharged for rk4 itself by the units of property C14).

rk4(f, h, x, t, p) at a call site: the state x, whatever its packing into columns, must consist of the components of ONE grid point
of a declared family; obligations: f is the stated right-hand side (checked for every state, time and parameter by running the
closure on fresh symbols), the time is the time of that grid point and h the signed grid step.  Result: the components of the
family at the next grid point, in the same packing."""
import itertools
from fractions import Fraction
from .. import terms as T
from .. import ncalg as N
from ..values import *
from .. import arrops as A
from .. import shims as SH
from ..interp import Template, Spec
from .lqt_common import mm, ad, sb, tr, combine, prefix_specs

I, R = T.INT, T.REAL
ONE = T.const(1)


def neg(p):
    return N.scale_term(p, T.const(-1, R))


class CT:
    """continuous-time problem with time-varying data (functions of time) or constant regulator data"""

    def __init__(self, e, lib='np', reg=False):
        self.e, self.lib, self.reg = e, lib, reg
        self.n, self.m, self.p = T.var('n', I), T.var('m', I), T.var('p', I)
        for d in (self.n, self.m, self.p):
            e.pc.append(T.le(1, d))
        n, m, p = self.n, self.m, self.p
        self.tend = T.var('Tend', R)
        self.sh = {'F': (n, n), 'L': (n, m), 'X': (p, p) if not reg else (n, n), 'U': (m, m), 'c': (n,), 'H': (p, n), 'r': (p,)}
        self.x0 = mat_atom('x0', (n,), lib=lib)
        self.XT = mat_atom('XT', (p, p) if not reg else (n, n), sym=True, lib=lib)
        self.HT = mat_atom('HT', (p, n), lib=lib)
        self.rT = mat_atom('rT', (p,), lib=lib)
        if reg:
            self.ST, self.vT = self.XT.data, N.zero((n, ONE))
        else:
            self.ST = mm(tr(self.HT.data), self.XT.data, self.HT.data)
            self.vT = mm(tr(self.HT.data), self.XT.data, self.rT.data)

    def arr(self, nm, t):
        idx = () if self.reg else (t,)
        return mat_atom(nm + '_ct', self.sh[nm], idx, nm in ('X', 'U'), lib=self.lib)

    def fn(self, nm):
        def call(eng, args, kw):
            if kw or len(args) != 1:
                raise PyRaise('TypeError', 'call form of a problem function')
            return self.arr(nm, time_of(args[0]))
        return FnVal(nm, call)

    def g(self, nm, t):
        if self.reg and nm == 'c':
            return N.zero((self.n, ONE))
        return self.arr(nm, t).data

    def Q(self, t):
        if self.reg:
            return self.g('X', t)
        return mm(tr(self.g('H', t)), self.g('X', t), self.g('H', t))

    def q(self, t):
        if self.reg:
            return N.zero((self.n, ONE))
        return mm(tr(self.g('H', t)), self.g('X', t), self.g('r', t))

    def G(self, t):
        return mm(self.g('L', t), N.inverse(self.g('U', t)), tr(self.g('L', t)))

    def ULT(self, t):
        return mm(N.inverse(self.g('U', t)), tr(self.g('L', t)))

    def obj(self, cls):
        c = self.e.load('parallel_control.clqt_np').g.vars[cls]
        o = Obj(c)
        if self.reg:
            for nm in 'FLXU':
                o.f[nm] = self.arr(nm, None)
            o.f['XT'] = self.XT
        else:
            for nm in ('F', 'L', 'X', 'U', 'c', 'H', 'r'):
                o.f[nm] = self.fn(nm)
            o.f['XT'], o.f['HT'], o.f['rT'] = self.XT, self.HT, self.rT
        o.f['T'] = self.tend
        return o


def time_of(v):
    v = SH.lower(v)
    t = A.to_scalar_term(v) if isinstance(v, Arr) else SH.term(v)
    return T.toreal(t)


# ------------------------------------------------------------------ right-hand sides (the oracle)
def rhs_riccati(P, t, x, par=None):
    F, S = P.g('F', t), x['S']
    d = {'S': ad(neg(mm(tr(F), S)), neg(mm(S, F)), mm(S, P.G(t), S), neg(P.Q(t)))}
    if 'v' in x:
        v = x['v']
        d['v'] = ad(neg(P.q(t)), mm(S, P.g('c', t)), neg(mm(tr(F), v)), mm(S, P.G(t), v))
    return d


def rhs_fw(P, t, x, par=None):
    """conditional value element from a fixed start to the moving end"""
    F, Q, q = P.g('F', t), P.Q(t), P.q(t)
    Aa, b, C = x['A'], x['b'], x['C']
    d = {'A': sb(mm(F, Aa), mm(C, Q, Aa)), 'b': ad(mm(F, b), mm(C, sb(q, mm(Q, b))), P.g('c', t)),
         'C': ad(mm(F, C), mm(C, tr(F)), neg(mm(C, Q, C)), P.G(t))}
    if 'J' in x:
        d['e'] = mm(tr(Aa), sb(q, mm(Q, b)))
        d['J'] = mm(tr(Aa), Q, Aa)
    return d


def rhs_bw(P, t, x, par=None):
    """conditional value element from the moving start to a fixed end"""
    F, G, c = P.g('F', t), P.G(t), P.g('c', t)
    Aa, J, et = x['A'], x['J'], x['e']
    return {'A': sb(mm(Aa, G, J), mm(Aa, F)), 'b': neg(mm(Aa, ad(mm(G, et), c))), 'C': neg(mm(Aa, G, tr(Aa))),
            'e': ad(mm(J, ad(mm(G, et), c)), neg(mm(tr(F), et)), neg(P.q(t))),
            'J': ad(mm(J, G, J), neg(mm(J, F)), neg(mm(tr(F), J)), neg(P.Q(t)))}


def closed_FC(P, t, par):
    K, d = par
    return sb(P.g('F', t), mm(P.g('L', t), K)), ad(P.g('c', t), mm(P.g('L', t), d))


def rhs_flow_fw(P, t, x, par):
    Fc, cc = closed_FC(P, t, par)
    return {'P': mm(Fc, x['P']), 'f': ad(mm(Fc, x['f']), cc)}


def rhs_flow_bw(P, t, x, par):
    Fc, cc = closed_FC(P, t, par)
    return {'P': neg(mm(x['P'], Fc)), 'f': neg(mm(x['P'], cc))}


def rhs_closed(P, t, x, par):
    Fc, cc = closed_FC(P, t, par)
    return {'x': ad(mm(Fc, x['x']), cc)}


def rhs_zoh(P, t, x, u):
    return {'x': ad(mm(P.g('F', t), x['x']), mm(P.g('L', t), u), P.g('c', t))}


SYM = {'S', 'C', 'J'}
SHAPES = {'S': 2, 'v': 1, 'A': 2, 'b': 1, 'C': 2, 'e': 1, 'J': 2, 'P': 2, 'f': 1, 'x': 1}


class Family:
    """integration states indexed by (outer indices..., i).
    direction +1: state i+1 is one step of +h from state i at time(outer, i); -1: state i is one step of -h from state i+1 at time(outer, i+1)"""

    def __init__(self, P, name, comps, rhs, direction, start, init, time, h, outer=(), par=None, lib=None):
        self.P, self.name, self.comps, self.rhs, self.dir = P, name, comps, rhs, direction
        self.start, self.init, self.time, self.h, self.par = T.L(start), init, time, h, par
        self.outer = outer          # outer index descriptions used for templates: list of fn(loop_stack) -> Term
        self.lib = lib or P.lib
        e = P.e
        e.rkfam[name] = self
        for c in comps:
            nm = '%s.%s' % (name, c)
            e.specs[nm] = Spec(nm, self.shape(c), lambda eng, *ix: None, sym=c in SYM, recursive=True, pred=lambda *ix: tuple(ix), family=(),
                               base=lambda eng, *ix, c=c: self.init(c, *ix[:-1]) if eng.entails(T.eq(ix[-1], self.start)) else None)
            e.templates.append(Template('%s.%s' % (name, c), lambda i, c=c: self.tarr(c, i), [self.start], (direction,)))
        if not self.check_symmetry:
            pass

    check_symmetry = True

    def shape(self, c):
        n = self.P.n
        return (n, n) if SHAPES[c] == 2 else (n,)

    def atom(self, c, idx):
        return N.of_atom(N.atom('%s.%s' % (self.name, c), mat_shape(self.shape(c)), tuple(T.L(i) for i in idx), c in SYM))

    def at(self, c, *idx):
        i = T.L(idx[-1])
        if i is self.start or self.P.e.entails(T.eq(i, self.start)):
            return self.init(c, *idx[:-1])
        return self.atom(c, idx)

    def arr(self, c, *idx):
        return Arr('mat', self.shape(c), self.at(c, *idx), 'f', self.lib)

    def tarr(self, c, i):
        st = self.P.e.loop_stack
        if len(self.outer) > len(st):
            raise Unsupported('template outside its loop nest')
        return self.arr(c, *[f(st) for f in self.outer], i)

    def lemma_symmetry(self):
        """the right-hand side keeps the declared components symmetric, hence so does the stage rule (a linear combination)"""
        e = self.P.e
        x, t, idx = generic(self), T.var('tt', R), tuple(T.var('o%d' % k, I) for k in range(len(self.outer))) + (T.var('i0', I),)
        d = self.rhs(self.P, t, x, self.par(*idx) if self.par else None)
        for c in self.comps:
            if c in SYM:
                e.prove_zero(sb(d[c], tr(d[c])), 'lemma: right-hand side of %s keeps %s symmetric' % (self.name, c), 'lemma')


def generic(F, tag='g'):
    return {c: N.of_atom(N.atom('%s%s.%s' % (tag, F.name, c), mat_shape(F.shape(c)), (), c in SYM)) for c in F.comps}


def blocks_of(x):
    """column blocks of the state"""
    if x.rep == 'mat':
        return [x.data], lambda ps: Arr('mat', x.shape, ps[0], 'f', x.lib)
    if x.rep == 'blk' and len(x.data.rows) == 1:
        b = x.data
        return list(b.ent[0]), lambda ps: Arr('blk', x.shape, A.Block(b.rows, b.cols, [ps]), 'f', x.lib)
    raise Unsupported('layout of the integration state')


def one_atom(p):
    if len(p.d) == 1:
        (mon, c), = p.d.items()
        if c == 1 and mon[0] == () and len(mon[1]) == 1 and not (mon[1][0].tr and not mon[1][0].sym):
            return mon[1][0]
    return None


def identify(e, ps):
    """(family, outer+index, component per block) such that every block is that component of one grid point"""
    for F in e.rkfam.values():
        if len(F.comps) != len(ps):
            continue
        comp, idx = [None] * len(ps), None
        for k, p in enumerate(ps):
            a = one_atom(p)
            if a is not None and '.' in a.name and a.name.rsplit('.', 1)[0] == F.name:
                comp[k] = a.name.rsplit('.', 1)[1]
                if idx is None:
                    idx = a.idx
                elif any(not e.dim_eq(x, y) for x, y in zip(idx, a.idx)):
                    return None
        cands = [idx] if idx is not None else []
        if idx is None:
            st = e.loop_stack
            if len(F.outer) <= len(st):
                cands.append(tuple(f(st) for f in F.outer) + (F.start,))
        for ix in cands:
            out, left, ok = list(comp), [c for c in F.comps if c not in comp], True
            for k, p in enumerate(ps):
                if out[k] is None:
                    hit = [c for c in left if F.at(c, *ix).shape == p.shape and e._prove_zero(N.add(F.at(c, *ix), p, -1))[0] == 'proved']
                    # several zero components: keep declaration order, the right-hand side obligation decides
                    if not hit:
                        ok = False
                        break
                    out[k] = hit[0]
                    left.remove(hit[0])
            if ok and len(set(out)) == len(out):
                return F, ix, out
    return None


def rhs_mismatches(e, r, x, comps, want):
    if x.rep == 'mat':
        return int(e._prove_zero(N.add(r.data, want[comps[0]], -1))[0] != 'proved') if r.rep == 'mat' else 1
    off, bad = T.const(0), 0
    for k, c in enumerate(comps):
        w = x.data.cols[k]
        got = A.blk_arr(A.blk_slice(e, A.to_block(r), None, None, off, T.add(off, w)), 2, 'f', x.lib)
        bad += e.eq_val(got, Arr('mat', (r.shape[0], w), want[c], 'f', x.lib))[0] != 'proved'
        off = T.add(off, w)
    return bad


def suggest(it, a, x, ps, build):
    """inference hint (no obligation): which loop-carried value is which component, by comparing right-hand sides for fresh symbols"""
    e = it.e
    names = [one_atom(p) for p in ps]
    if any(n is None for n in names):
        return
    tt, best = T.fresh('tt', R), None
    g = [N.of_atom(N.atom('sg%d' % k, p.shape, (), nm.sym)) for k, (p, nm) in enumerate(zip(ps, names))]
    res = None
    for F in e.rkfam.values():
        if len(F.comps) != len(ps):
            continue
        for perm in itertools.permutations(F.comps):
            if any(F.atom(c, (0,)).shape != p.shape for c, p in zip(perm, ps)):
                continue
            if F.par:
                bad = 0
            else:
                if res is None:
                    fa = [build(g)] + ([tt] if a.get('t') is not None else []) + ([a['param']] if a.get('param') is not None else [])
                    res = it.call(a['f'], fa)
                want = F.rhs(F.P, tt, dict(zip(perm, g)), None)
                bad = rhs_mismatches(e, res, x, perm, want)
            if best is None or bad < best[0]:
                best = (bad, F, perm)
    if best is not None:
        for nm, c in zip(names, best[2]):
            e.suggest[nm.name] = '%s.%s' % (best[1].name, c)


def rk4_handler(it, closure, args, kw):
    e = it.e
    names = ['f', 'dt', 'x', 't', 'param']
    a = dict(zip(names, args))
    a.update(kw)
    a = dict(e.rkdef, **a)
    x = a['x']
    if not isinstance(x, Arr) or x.rep not in ('mat', 'blk'):
        raise Unsupported('integration state')
    ps, build = blocks_of(x)
    hit = identify(e, ps)
    if hit is None:
        if e.suggest is not None:
            suggest(it, a, x, ps, build)
        e.obl('the integration state is a grid point of the stated trajectory', 'unknown', repr(ps)[:300], 'post', '')
        return build([N.of_atom(N.atom(T.fresh_name('rk4'), p.shape)) for p in ps])
    F, ix, comps = hit
    i = ix[-1]
    step = T.add(i, F.dir)
    h = time_of(a['dt'])
    want_h = F.h if F.dir > 0 else T.mul(T.const(-1, R), F.h)
    nm = F.name
    e.prove_bool(T.eq(h, want_h), '%s: signed step of the integrator' % nm)
    t = a.get('t')
    ti = T.toreal(F.time(*ix))
    if t is not None:
        e.prove_bool(T.eq(time_of(t), ti), '%s: integration starts at the time of its grid point' % nm)
    elif not F.P.reg:
        e.obl('%s: the right-hand side receives the time' % nm, 'unknown', '', 'post', '')
    # the right-hand side, for every state and time
    g = generic(F)
    tt = T.fresh('tt', R)
    fa = [build([g[c] for c in comps])]
    if t is not None:
        fa.append(tt)
    if a.get('param') is not None:
        fa.append(a['param'])
    r = it.call(a['f'], fa)
    want = F.rhs(F.P, tt, g, F.par(*ix[:-1], i if F.dir > 0 else step) if F.par else None)
    if not isinstance(r, Arr):
        raise Unsupported('value of the right-hand side')
    if r.ndim == x.ndim and all(e.dim_eq(p, q) for p, q in zip(r.shape, x.shape)):
        if e.mute:
            e.mismatch += rhs_mismatches(e, r, x, comps, want)
        elif x.rep == 'mat':
            e.check_eq(r, build([want[comps[0]]]), '%s: right-hand side handed to the integrator is the stated equation' % nm)
        else:
            off = T.const(0)
            for k, c in enumerate(comps):
                w = x.data.cols[k]
                got = A.blk_slice(e, A.to_block(r), None, None, off, T.add(off, w))
                got = A.blk_arr(got, 2, 'f', x.lib)
                e.check_eq(got, Arr('mat', (r.shape[0], w), want[c], 'f', x.lib),
                           '%s: right-hand side handed to the integrator is the stated equation (component %s)' % (nm, c))
                off = T.add(off, w)
    else:
        e.obl('%s: shape of the right-hand side' % nm, 'refuted', str((r.shape, x.shape)), 'post', 'shape')
    nx = ix[:-1] + (step,)
    return build([F.atom(c, nx) if not e.entails(T.eq(step, F.start)) else F.at(c, *nx) for c in comps])


def install(e, mod='parallel_control.diffeq_np', defaults={}):
    e.rkfam, e.rkdef = {}, defaults
    e.contracts[mod + ':rk4'] = rk4_handler

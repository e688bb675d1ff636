"""Contracts for the problem constructors LQT.checkAndExpand and FSC.checkAndExpand (C19).

accept: consistent parameters in the stated list/shared/omitted forms give a problem whose every list has one entry per stage, entry k
being the given (list entry k / shared / default) array.
reject: with arbitrary list lengths and arbitrary shapes, a normal return implies that every length and shape is consistent.
rank: an array with the wrong number of axes is rejected."""
from .. import terms as T
from .. import ncalg as N
from ..values import *
from ..runner import unit
from .lqt_common import LQTProblem
from .util import *

I, R = T.INT, T.REAL
LQT, FSC = 'parallel_control.lqt_np', 'parallel_control.fsc_np'
REQ, OPT, END = ['F', 'L', 'X', 'U'], ['c', 'H', 'r', 'Z', 's', 'M'], ['XT', 'HT', 'rT']
RANK = dict(F=2, L=2, X=2, U=2, c=1, H=2, r=1, Z=2, s=1, M=2, XT=2, HT=2, rT=1)


def configs():
    lists = {k: 'list' for k in REQ + OPT}
    lists.update({k: 'given' for k in END})
    yield 'lists', lists
    for k in REQ + OPT:
        yield 'lists, %s shared' % k, dict(lists, **{k: 'shared'})
    for k in OPT + END:
        yield 'lists, %s omitted' % k, dict(lists, **{k: 'omit'})
    yield 'lists, rest omitted', dict(lists, **{k: 'omit' for k in OPT + END})
    sh = {k: 'shared' for k in REQ + OPT}
    sh.update({k: 'given' for k in END})
    yield 'shared', sh
    yield 'shared, rest omitted', dict(sh, **{k: 'omit' for k in OPT + END})
    for k in REQ:
        yield 'shared, %s list' % k, dict(sh, **{k: 'list'})
        yield 'shared, %s list, rest omitted' % k, dict(sh, **{**{q: 'omit' for q in OPT + END}, k: 'list'})
    for k in OPT:
        yield 'shared, %s list' % k, dict(sh, **{k: 'list'})


def fn_of(e, cls, mod):
    return Bound(e.load(mod).g.vars[cls].find('checkAndExpand'), e.load(mod).g.vars[cls])


def call_ctor(e, forms, args, T_):
    kw = dict(args)
    if all(forms[k] != 'list' for k in REQ):
        kw['T'] = T_
    return kw


def fields(e, o, names):
    if not isinstance(o, Obj) or any(k not in o.f for k in names):
        e.obl('the constructor returns a problem with every field', 'refuted', repr(o)[:100], 'post', 'syntactic')
        return False
    return True


def lqt_default(P, k, n, m, p):
    f = lambda sh, d: Arr('mat', sh, d, 'f', 'np')
    one = T.const(1)
    if k in ('c',):
        return f((n,), N.zero((n, one)))
    if k == 's':
        return f((m,), N.zero((m, one)))
    if k in ('r', 'rT'):
        return f((p,), N.zero((p, one)))
    if k == 'M':
        return f((p, m), N.zero((p, m)))
    if k == 'Z':
        return f((m, m), N.ident(m))
    if k == 'XT':
        return f((p, p), N.ident(p))
    return None       # H, HT: np.eye(p, n), compared with the library function


def accept(label, forms):
    @unit('C19', 'LQT.checkAndExpand accepts[%s]' % label, [LQT + ':LQT.checkAndExpand', LQT + ':LQT.__init__'])
    def body(e):
        # with shared or defaulted output-sized parameters the output dimension is the same at every stage
        P = LQTProblem(e, constp=any(forms[k] != 'list' for k in ('X', 'H', 'r', 'M')) or any(forms[k] == 'omit' for k in END))
        n, m = P.n, P.m
        args, want = {}, {}
        sh = {k: mat_atom(k + '_s', P.sh[k](T.const(0)), (), False) for k in REQ + OPT}

        def th():
            for k in REQ + OPT:
                if forms[k] == 'list':
                    args[k] = P.lst(k)
                    want[k] = P.lst(k)
                elif forms[k] == 'shared':
                    args[k] = sh[k]
                    want[k] = PyList(Seq([Seg(P.T, lambda i, k=k: sh[k])]))
                else:
                    d = lqt_default(P, k, n, m, P.pT)
                    want[k] = PyList(Seq([Seg(P.T, lambda i, d=d: d)])) if d is not None else None
            for k, g in (('XT', P.XT), ('HT', P.HT), ('rT', P.rT)):
                if forms[k] == 'given':
                    args[k] = want[k] = g
                else:
                    want[k] = lqt_default(P, k, n, m, P.pT)
            o = e.call(fn_of(e, 'LQT', LQT), [], call_ctor(e, forms, args, P.T))
            if not fields(e, o, REQ + OPT + END):
                return
            for k in REQ + OPT + END:
                w = want[k]
                if w is None:
                    w = rect(e, P.pT, n)
                    w = w if k == 'HT' else PyList(Seq([Seg(P.T, lambda i, w=w: w)]))
                e.check_eq(o.f[k], w, 'checkAndExpand: %s has one entry per stage, the given or default one' % k if k not in END else 'checkAndExpand: %s is the given or default one' % k)
        return th


def rect(e, p, n):
    from .. import shims as S
    from ..exec import Interp
    return S.np_eye(Interp(e, None), p, n)


def arb(e, nm, k, rank=None):
    """array of arbitrary shape (per stage if k is given)"""
    rank = rank or RANK[nm]
    dims = []
    for q in range(rank):
        d = T.app('sh_%s%d' % (nm, q), (T.L(k),), I) if k is not None else T.var('sh_%s%d' % (nm, q), I)
        dims.append(d)
    if len(dims) > 2:
        return Arr('fn', tuple(dims), lambda *ix: T.app('arb_' + nm, ix, R), 'f', 'np')
    return mat_atom('arb_' + nm, tuple(dims), (T.L(k),) if k is not None else ())


def reject(label, forms, wrong=None):
    @unit('C19', 'LQT.checkAndExpand rejects[%s%s]' % (label, '' if wrong is None else ', %s has the wrong number of axes' % wrong), [LQT + ':LQT.checkAndExpand'])
    def body(e):
        args, ln = {}, {}
        Tg = T.var('Tgiven', I)
        e.pc.append(T.le(1, Tg))
        rk = lambda k: RANK[k] if k != wrong else (3 - RANK[k])
        for k in REQ + OPT:
            if forms[k] == 'list':
                ln[k] = T.var('len_' + k, I)
                e.pc.append(T.le(1, ln[k]))
                args[k] = PyList(Seq([Seg(ln[k], lambda i, k=k: arb(e, k, i, rk(k)))]))
            elif forms[k] == 'shared':
                args[k] = arb(e, k, None, rk(k))
        for k in END:
            if forms[k] == 'given':
                args[k] = arb(e, k, None, rk(k))

        def th():
            try:
                o = e.call(fn_of(e, 'LQT', LQT), [], call_ctor(e, forms, args, Tg))
            except PyRaise as x:
                e.obl('inconsistent parameters are rejected with an error', 'proved' if x.etype in ('ValueError', 'IndexError') else 'unknown', str(x), 'post', 'symbolic execution')
                return
            if wrong is not None:
                e.obl('%s with the wrong number of axes is rejected' % wrong, e.model_of('sat', T.TRUE), 'returned normally', 'post', 'symbolic execution')
                return
            T_ = next((ln[k] for k in REQ if k in ln), Tg)
            for k in ln:
                e.prove_bool(T.eq(ln[k], T_), 'accepted: length of %s is the number of stages' % k)
            if not fields(e, o, REQ + OPT + END):
                return
            i = T.fresh('st', I)
            e.assume(T.le(0, i))
            e.assume(T.lt(i, T_))
            at = lambda k: o.f[k].seq.get(i, e).shape
            n, m = o.f['F'].seq.get(T.const(0), e).shape[0], o.f['L'].seq.get(T.const(0), e).shape[1]
            p = at('X')[0]
            w = dict(F=(n, n), L=(n, m), X=(p, p), U=(m, m), c=(n,), H=(p, n), r=(p,), Z=(m, m), s=(m,), M=(p, m))
            for k in REQ + OPT:
                e.prove_bool(T.and_(*[T.eq(x, y) for x, y in zip(at(k), w[k])]), 'accepted: %s has a consistent shape at every stage' % k)
            q = o.f['XT'].shape[0]
            w = dict(XT=(q, q), HT=(q, n), rT=(q,))
            for k in END:
                e.prove_bool(T.and_(*[T.eq(x, y) for x, y in zip(o.f[k].shape, w[k])]), 'accepted: %s has a consistent shape' % k)
        return th


for label, forms in configs():
    accept(label, forms)
    reject(label, forms)
base = dict(next(configs())[1])
for k in REQ + OPT + END:
    reject('lists', base, k)


@unit('C19', 'LQT.checkAndExpand rejects[no horizon]', [LQT + ':LQT.checkAndExpand'])
def nohor(e):
    P = LQTProblem(e, constp=True)
    forms = {k: 'shared' for k in REQ}

    def th():
        try:
            e.call(fn_of(e, 'LQT', LQT), [], {k: P.a(k, T.const(0)) for k in REQ})
        except PyRaise as x:
            e.obl('a missing horizon is rejected with ValueError', 'proved' if x.etype == 'ValueError' else 'unknown', str(x), 'post', 'symbolic execution')
            return
        e.obl('a missing horizon is rejected with ValueError', e.model_of('sat', T.TRUE), 'returned normally', 'post', 'symbolic execution')
    return th


# ------------------------------------------------------------------ finite-state problems
def fsc_arr(nm, k, nx, nu, dt, bound=None):
    idx = (T.L(k),) if k is not None else ()
    srt = I if dt == 'i' else R
    if nu is None:
        return Arr('fn', (nx,), lambda x: T.app(nm, idx + (x,), srt), dt, 'np')
    return Arr('fn', (nx, nu), lambda x, u: T.app(nm, idx + (x, u), srt), dt, 'np')


def fsc_units(ff, lf, lt, arbitrary):
    @unit('C19', 'FSC.checkAndExpand %s[f %s, L %s, LT %s]' % ('rejects' if arbitrary else 'accepts', ff, lf, lt), [FSC + ':FSC.checkAndExpand', FSC + ':FSC.__init__'])
    def body(e):
        Tg = T.var('Tgiven', I)
        nx, nu = T.var('nx', I), T.var('nu', I)
        e.pc += [T.le(1, Tg), T.le(1, nx), T.le(1, nu)]
        tf_, tl_ = (T.var('len_f', I), T.var('len_L', I)) if arbitrary else (Tg, Tg)
        e.pc += [T.le(1, tf_), T.le(1, tl_)]
        nof = ff == lf == 'shared'

        def dm(nm, k, q):
            if not arbitrary:
                return (nx, nu)[q]
            return T.app('sh_%s%d' % (nm, q), (T.L(k),), I) if k is not None else T.var('sh_%s%d' % (nm, q), I)

        def mk(nm, form, n, dt):
            one = lambda k: fsc_arr(nm, k, dm(nm, k, 0), dm(nm, k, 1), dt)
            return (PyList(Seq([Seg(n, one)])), one) if form == 'list' else (one(None), lambda k: one(None))
        f, f1 = mk('f', ff, tf_, 'i')
        L, L1 = mk('L', lf, tl_, 'f')
        LT = fsc_arr('LT', None, T.var('sh_LT', I) if arbitrary else nx, None, 'f') if lt == 'given' else None
        if ff == 'list':
            T_ = tf_
        else:
            T_ = tl_ if lf == 'list' else Tg

        def th():
            try:
                o = e.call(fn_of(e, 'FSC', FSC), [f, L], dict({} if LT is None else {'LT': LT}, **({'T': Tg} if nof else {})))
            except PyRaise as x:
                if not arbitrary:
                    raise
                e.obl('inconsistent parameters are rejected with an error', 'proved' if x.etype in ('ValueError', 'IndexError') else 'unknown', str(x), 'post', 'symbolic execution')
                return
            if not fields(e, o, ['f', 'L', 'LT']):
                return
            if not arbitrary:
                e.check_eq(o.f['f'], PyList(Seq([Seg(T_, f1)])), 'checkAndExpand: f has one entry per stage, the given one')
                e.check_eq(o.f['L'], PyList(Seq([Seg(T_, L1)])), 'checkAndExpand: L has one entry per stage, the given one')
                w = LT if LT is not None else Arr('fn', (nx,), lambda x: T.const(1, R), 'f', 'np')
                e.check_eq(o.f['LT'], w, 'checkAndExpand: LT is the given one or ones')
                return
            i = T.fresh('st', I)
            e.assume(T.le(0, i))
            e.assume(T.lt(i, T_))
            e.prove_bool(T.eq(o.f['f'].seq.length(), T_), 'accepted: one dynamics table per stage')
            e.prove_bool(T.eq(o.f['L'].seq.length(), T_), 'accepted: one cost table per stage')
            a, b = f1(T.const(0)).shape
            for nm in ('f', 'L'):
                s = o.f[nm].seq.get(i, e).shape
                e.prove_bool(T.and_(T.eq(s[0], a), T.eq(s[1], b)), 'accepted: %s has a consistent shape at every stage' % nm)
            e.prove_bool(T.eq(o.f['LT'].shape[0], a), 'accepted: LT has one entry per state')
        return th


for ff in ('list', 'shared'):
    for lf in ('list', 'shared'):
        for lt in ('given', 'omitted'):
            for ar in (False, True):
                fsc_units(ff, lf, lt, ar)

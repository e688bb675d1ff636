"""Contracts for condensing_np.LQTCondenser (C10); see condensing_common."""
from .condensing_common import *

M = 'parallel_control.condensing_np'
Q = M + ':LQTCondenser.'


def doubled(e, sq):
    d = lambda x: A.add(e, x, x)
    return Seq([Seg(items=[d(x) for x in g.items]) if g.items is not None else Seg(g.n, lambda k, g=g: d(g.fn(k))) for g in sq.segs])


def cond_units(Nc, rho):
    @unit('C10', 'condensing_np.LQTCondenser.condense[block length %d, %s]' % (Nc, 'horizon a multiple' if not rho else 'horizon = %d modulo it' % rho),
          [Q + 'condense'], kind='bounded')
    def u(e):
        e.peel = True
        C = Cond(e, Nc, rho)
        P = C.P
        o = P.obj()

        def th():
            fr = frame_of(o)
            cond = e.call(e.load(M).g.vars['LQTCondenser'], [])
            if Nc <= 3:
                # the same object was used before: whatever the earlier call stored is replaced by other values (every array doubled)
                e.call(meth(e, cond, 'condense'), [o, Nc])
                for v in cond.f.values():
                    if isinstance(v, PyList):
                        v.seq = doubled(e, v.seq)
            cl = e.call(meth(e, cond, 'condense'), [o, Nc])
            check_frame(e, o, fr, 'condense')
            check_condensed(e, C, {k: cl.f[k] for k in ('F', 'c', 'L', 'H', 'r', 'X', 'U', 'M', 's', 'Z')})
            for k, w in (('HT', P.HT), ('rT', P.rT), ('XT', P.XT)):
                e.check_eq(cl.f[k], w, 'condense: end cost %s carried over' % k)
            # expansion of an arbitrary trajectory of the condensed problem
            ua = lambda k, i: N.of_atom(N.atom('uz%d' % i, (P.m, one), (T.L(k),)))
            xa = lambda k: N.of_atom(N.atom('xz', (P.n, one), (T.L(k),)))
            ul = PyList(Seq([Seg(C.Tc, lambda k: vec([ua(k, i) for i in range(Nc)]))]))
            xl = PyList(Seq([Seg(T.add(C.Tc, 1), lambda k: Arr('mat', (P.n,), xa(k), 'f', 'np'))]))
            su, sx = ul.seq, xl.seq
            r = e.call(meth(e, cond, 'convertUX'), [ul, xl])
            e.obl('frame: convertUX leaves its arguments unchanged', 'proved' if ul.seq is su and xl.seq is sx else 'unknown', '', 'frame')
            check_expanded(e, C, r, ua, xa)
        return th


for Nc in NCS:
    for rho in range(Nc):
        cond_units(Nc, rho)

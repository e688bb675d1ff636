"""Contracts for condensing_tf.condense and convertUX (C10), block length concrete (the stated bound), everything else symbolic."""
from .condensing_common import *
from .lqt_tf import Canon
from ..exec import lower

MT = 'parallel_control.condensing_tf'


def tf_units(Nc, rho):
    @unit('C10', 'condensing_tf.condense[block length %d, %s]' % (Nc, 'horizon a multiple' if not rho else 'horizon = %d modulo it' % rho),
          [MT + ':condense', MT + ':convertUX', MT + ':create_blkdiag', MT + ':_create_blkdiag'], kind='bounded', tf=True)
    def u(e):
        C = Cond(e, Nc, rho, 'tf', Canon)
        P = C.P

        def th():
            r = e.call(e.func(MT, 'condense'), [P.t(k) for k in ('F', 'c', 'L', 'H', 'r', 'X', 'U')] + [Nc])
            if not (isinstance(r, tuple) and len(r) == 12):
                e.obl('condense returns twelve tensors', 'refuted', '', 'post', '')
                return
            f = dict(zip(('F', 'c', 'L', 'H', 'r', 'X', 'U', 'M', 's'), r[:9]))
            check_condensed(e, C, f)
            ua = lambda k, i: N.of_atom(N.atom('uz%d' % i, (P.m, one), (T.L(k),)))
            xa = lambda k: N.of_atom(N.atom('xz', (P.n, one), (T.L(k),)))
            us = Arr('seq', (C.Tc, T.mul(T.const(Nc), P.m)), Seq([Seg(C.Tc, lambda k: vec([ua(k, i) for i in range(Nc)], 'tf'))]), 'f', 'tf')
            T1 = T.add(C.Tc, 1)
            xs = Arr('seq', (T1, P.n), Seq([Seg(T1, lambda k: Arr('mat', (P.n,), xa(k), 'f', 'tf'))]), 'f', 'tf')
            z = e.call(e.func(MT, 'convertUX'), [us, xs, r[9], r[10], r[11], lower(P.T)])
            check_expanded(e, C, z, ua, xa)
        return th


for Nc in NCS:
    for rho in range(Nc):
        tf_units(Nc, rho)

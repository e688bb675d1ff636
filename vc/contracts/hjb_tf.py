"""Contracts for hjb_grid_1d_tf.py (C17): batched combinations, finite-difference scans, sequential and parallel passes."""
from .fsc_common import *
from ..runner import unit
from .util import *
from .tf_common import *
from .hjb_np import Grid, app, table, grid_size, check_plain, check_interp, check_table, recips, I, R
from . import hjb_np as H

MT = 'parallel_control.hjb_grid_1d_tf'
QT = MT + ':'


def comb(name, chk, rev=False):
    @unit('C17', 'hjb_grid_1d_tf.' + name, [QT + name], tf=True)
    def u(e):
        n = grid_size(e)
        B = T.var('B', I)
        e.pc.append(T.le(1, B))
        P, S = table('P', (B, n, n), 'tf'), table('S', (B, n, n), 'tf')

        def th():
            r = e.call(e.func(MT, name), [S, P] if rev else [P, S])
            chk(e, r, n, lambda b, i, u, k: T.add(app('P', b, i, u), app('S', b, u, k)), name, B)
        return th


comb('combine_V', check_plain)
comb('combine_V2', check_plain)
comb('combine_V_rev', check_plain, True)
comb('combine_V_interp', check_interp)
comb('combine_V_interp_rev', check_interp, True)


def fd(name, scheme):
    @unit('C17', 'hjb_grid_1d_tf.' + name, [QT + name], tf=True)
    def u(e):
        G = Grid(e, scheme, 'tf', nested=False)
        Wk = lambda m: Arr('fn', (G.n,), lambda x: app('W', m, x), 'f', 'tf')
        e.defs['W'] = lambda m, x: [
            (T.and_(T.eq(m, 0), inr(x, G.n)), lambda: app('LT', G.xg(x))),
            (T.and_(T.le(1, m), inr(x, G.n)), lambda: G.step(lambda y: app('W', T.sub(m, 1), y), x))]
        e.templates.append(Template('W', Wk, [0], (1,)))

        def th():
            r = e.call(e.func(MT, name), [G.f, G.L, G.LT, G.T, G.B, G.S, G.xgrid, G.ugrid])
            H.check_values(e, r, G.B, lambda k: Wk(T.mul(T.sub(G.B, k), G.S)), name + ': value after (blocks - k) * steps explicit steps, in time order')
        return th


fd('seq_bw_pass_symfd', 'symmin')
fd('seq_bw_pass_upwind', 'up')


class TPasses(H.Passes):
    def __init__(self, e):
        super().__init__(e, 'tf')
        self.LT = FnVal('LT', lambda eng, a, k: A.emap(eng, lambda x: app('LT', x), a[0]))

    def combine(self, it, cl, args, kw):
        e = self.e
        v = it.bind(cl, args, kw).vars
        x, y = [v[p.arg] for p in cl.node.args.args[:2]]
        st = e.loop_stack
        batch = lambda m: Arr('fn', (T.const(1), self.n, self.n), lambda b, i, c: m.data(i, c), 'f', 'tf')
        if st and all(isinstance(q, Arr) and q.rep == 'fn' and q.ndim == 3 for q in (x, y)) and e.eq_val(x, batch(self.block))[0] == 'proved':
            k = st[-1][0]
            if e.eq_val(y, batch(self.W(k)))[0] == 'proved':
                return batch(self.W(T.add(k, 1)))
        f = 'cv_comb%d' % T.fresh('c', I).id
        return Arr('fn', (T.const(1), self.n, self.n), lambda b, i, c: app(f, i, c), 'f', 'tf')


@unit('C17', 'hjb_grid_1d_tf.seq_bw_pass_assoc', [QT + 'seq_bw_pass_assoc'], tf=True)
def u_assoc(e):
    P = TPasses(e)
    e.contracts[QT + 'combine_V_interp'] = P.combine

    def th():
        r = e.call(e.func(MT, 'seq_bw_pass_assoc'), [P.LT, P.B, P.xgrid, P.block])
        H.check_values(e, r, P.B, lambda k: Arr('fn', (P.n,), lambda x: app('W', T.sub(P.B, k), x, 0), 'f', 'tf'),
                       'seq_bw_pass_assoc: value function at every block boundary, in time order')
    return th


@unit('C17', 'hjb_grid_1d_tf.par_bw_pass', [QT + 'par_bw_pass', QT + 'combine_V_interp_rev'], tf=True)
def u_par(e):
    P = TPasses(e)
    install_levels(e)
    mp = T.var('max_parallel', I)
    e.pc.append(T.le(T.add(P.B, 1), mp))

    def bracket(it, fn, elems):
        """entry k combines, in order, elements k, .., 1, 0 of the reversed list (bracketing by the scan)"""
        m = T.fresh('m', I)
        X, Y = table('X!', (m, P.n, P.n), 'tf'), table('Y!', (m, P.n, P.n), 'tf')
        seen = []

        def on_comb(it2, cl2, a2, k2):
            b = it2.bind(cl2, a2, k2).vars
            seen.append([b[p.arg] for p in cl2.node.args.args[:2]])
            return table('XY!', (m, P.n, P.n), 'tf')
        e.contracts[QT + 'combine_V_interp'] = on_comb
        r = e.call(fn, [X, Y])
        del e.contracts[QT + 'combine_V_interp']
        ok = len(seen) == 1 and seen[0][0] is Y and seen[0][1] is X
        bad = len(seen) == 1 and seen[0][0] is X and seen[0][1] is Y
        e.obl('par_bw_pass: the scanned operation combines the later operand of the reversed scan in front', 'proved' if ok else 'refuted' if bad else 'unknown', '', 'pre', 'call')
        e.check_eq(r, table('XY!', (m, P.n, P.n), 'tf'), 'par_bw_pass: the scanned operation returns the combination', 'pre')
        sq = A.rows(e, elems)
        e.prove_bool(T.eq(sq.length(), T.add(P.B, 1)), 'par_bw_pass: one element per block and one for the end', 'pre')
        k = T.var('k', I)

        def th():
            e.assume(inr(k, T.add(P.B, 1)))
            if e.branch(T.eq(k, 0)):
                e.check_eq(sq.get(T.const(0), e), P.VT, 'par_bw_pass: the terminal cost comes first in the reversed list', 'pre')
            else:
                e.check_eq(sq.get(k, e), P.block, 'par_bw_pass: the block table follows', 'pre')
        for o in e.explore(th):
            if o.exc:
                e.obl('readable', 'unknown', str(o.exc), 'post', '')
        return table('RS', elems.shape, 'tf')
    e.bracket_scan = bracket

    def th():
        r = e.call(e.func(MT, 'par_bw_pass'), [P.LT, P.B, P.xgrid, P.block, mp])
        H.check_values(e, r, P.B, lambda k: Arr('fn', (P.n,), lambda x: app('RS', T.sub(P.B, k), x, 0), 'f', 'tf'),
                       'par_bw_pass: first column of every suffix combination, in time order')
    return th

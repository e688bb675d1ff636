from .clqtgen import *
from .c12 import tfns, real_map, plain_map, st
import tensorflow as tf
from parallel_control.clqt_np import CLQT
from parallel_control.parareal_clqt_np import Parareal_CLQT_np
import parallel_control.parareal_clqt_tf as pt

RULE = ('random continuous-time trackers with smooth time-varying data, several block/step/iteration counts, numpy and tensor versions, eager and graph '
        'execution; the part of the result reached after k iterations (all of it when k is at least the block count) against the fine sequential '
        'recursion; distinct in (sizes, kind, blocks, steps, iterations, seed)')


def cases(ctx):
    for i, c in enumerate(std_cases(ctx, 12)):
        if c['kind'].startswith('lqr'):
            c['kind'] = 'full'
        if i % 8 in (2, 5) or i % 16 == 9:        # the value matrix is constant over the horizon while the value vector is not
            c['kind'] = 'stationary'
            c['blocks'], c['steps'] = 3 + (i // 8) % 3, min(max(c['steps'], 2), 5)
        c.update(t0=None, fine=False)
        if c['steps'] >= 25:
            c['steps'] = max(1, c['steps'] // 25)
        if c['blocks'] * c['steps'] > 40:
            c['steps'] = max(1, 32 // c['blocks'])
        B = c['blocks']
        k = [B, B, 1, max(1, B // 2), B + 2, None][i % 6]
        k = B if c['kind'] == 'stationary' else k
        tfk = [None, 'bw', None, 'fw', 'fb', None, 'bfw', 'bfb'][i % 8]
        if B > 8:
            k = min(k, 4) if k else k
            tfk = None
        yield dict(c, niter=k, tf=tfk, graph=bool((i // 8) % 4 == 3))


def upto(case):
    """number of blocks whose part of the result is determined by the fine recursion after the given iterations"""
    k = case['niter']
    if k is None:
        k = case['steps']
    return min(k + 1, case['blocks']), k >= case['blocks']


def cmp(got, ref, tot, N, bl, full, what, tol, rev=False, bnd=True):
    """bnd: the quantity lives on all grid points (one more than steps)"""
    need(len(got) == tot + bool(bnd), '%s: %d entries, expected %d' % (what, len(got), tot + bool(bnd)))
    if full or bl * N >= tot:
        ks = range(len(ref))
    elif rev:
        ks = range(len(ref) - bl * N, len(ref)) if not bnd else range(tot - bl * N + 1, tot + 1)
    else:
        ks = range(bl * N)
    for k in ks:
        close(got[k], ref[k], '%s at index %d' % (what, k), tol)


def check(case):
    P = problem(case)
    rng = np.random.default_rng(case['seed'] + 5)
    B, N, T, n = case['blocks'], case['steps'], P['T'], P['n']
    tot = B * N
    dt = T / tot
    bl, full = upto(case)
    ref = riccati(P, tot, dt, 0.0, P['ST'], P['vT'])
    K, d, S, v = ref
    zz = np.zeros((n, n))
    fwd = fwd_abc(P, tot, dt, 0.0, zz, P['x0'], zz)
    K2, d2 = K, d
    if case['seed'] % 2:
        K2 = [q + 0.2 * rng.standard_normal(q.shape) for q in K]
        d2 = [q + 0.2 * rng.standard_normal(q.shape) for q in d]
    coarse = riccati(P, B, T / B, 0.0, P['ST'], P['vT'])
    ok = all(np.isfinite(q).all() and np.abs(q).max() < 1e3 for q in coarse[2])
    trajs = {z: closed(P, K2, d2, dt, 0.0, P['x0'], z) for z in (False, True)}
    crude = {z: closed(P, K2[::N], d2[::N], T / B, 0.0, P['x0'], z) for z in (False, True)}
    okf = {z: all(np.isfinite(q).all() and np.abs(q).max() < 1e3 for q in crude[z][1]) and worst(trajs[z][1]) < 1e3 for z in (False, True)}
    cf = fwd_abc(P, B, T / B, 0.0, zz, P['x0'], zz)
    okb = all(worst(q) < 1e3 for q in cf) and all(worst(q) < 1e3 for q in fwd)
    if case['tf'] is None:
        o = Parareal_CLQT_np(CLQT(P['F'], P['L'], P['X'], P['U'], P['XT'], P['c'], P['H'], P['r'], P['HT'], P['rT'], T))
        kw = {} if case['niter'] is None else dict(niter=case['niter'])
        fz = freeze(P['x0'], *K2, *d2)
        if ok:
            back(o.backwardPass(B, N, **kw), ref, tot, N, bl, full, 'backwardPass', True)
        for z in (False, True):
            if okf[z]:
                r = o.forwardPass(B, N, P['x0'], K2, d2, u_zoh=z, **kw)
                need(len(r) == 2, 'forwardPass: result structure')
                fore(r[1], r[0], trajs[z], tot, N, bl, full, 'forwardPass(u_zoh=%s)' % z)
        if okf[False]:
            r = o.forwardPass(B, N, P['x0'], K2, d2, **kw)
            fore(r[1], r[0], trajs[False], tot, N, bl, full, 'forwardPass')
        if okb:
            r = o.fwdBwdPass(B, N, P['x0'], **kw)
            need(len(r) == 3, 'fwdBwdPass: result structure')
            for g, w, nm in zip(r, fwd, 'AbC'):
                cmp(list(g), w, tot, N, bl, full, 'fwdBwdPass: %s' % nm, 1e-6)
        unchanged(fz, P['x0'], *K2, *d2)
        return
    tf.config.run_functions_eagerly(not case['graph'])
    tf.vectorized_map = real_map if case['graph'] else plain_map
    k = case['niter'] or N
    bl, full = min(k + 1, B), k >= B
    C = lambda x: tf.constant(np.asarray(x, float), tf.float64)
    fns = tfns(P)
    F, L, X, U, c, H, r = fns
    term = (C(P['XT']), C(P['HT']), C(P['rT']), C(T))
    if case['tf'] == 'bw' and ok:
        q = pt.pclqt_backwardpass(B, N, k, *term, *fns)
        back((q[2], q[3], q[0], q[1]), ref, tot, N, bl, full, 'pclqt_backwardpass', False)
    if case['tf'] == 'fw':
        for z in (False, True):
            if okf[z]:
                x, u = pt.pclqt_forwardpass(B, N, k, C(P['x0']), C(T), st(K2), st(d2), F, L, c, u_zoh=z)
                fore(x, u, trajs[z], tot, N, bl, full, 'pclqt_forwardpass(u_zoh=%s)' % z)
    if case['tf'] == 'fb' and okb:
        q = pt.pclqt_fwdbwdpass(B, N, k, C(P['x0']), C(T), *fns)
        for g, w, nm in zip(q, fwd, 'AbC'):
            cmp(list(g.numpy()), w, tot, N, bl, full, 'pclqt_fwdbwdpass: %s' % nm, 1e-6)
    if not ok or k < B:
        return
    if case['tf'] == 'bfw':
        w = closed(P, K, d, dt, 0.0, P['x0'], False)
        w0 = closed(P, K[::N], d[::N], T / B, 0.0, P['x0'], False)
        if worst(w[1]) < 1e3 and worst(w0[1]) < 1e3:
            x, u = pt.pclqt_backwardforwardpass(B, N, k, C(P['x0']), *term, *fns)
            fore(x, u, w, tot, N, B, True, 'pclqt_backwardforwardpass')
    if case['tf'] == 'bfb' and okb:
        us, xs = combine(K, d, S, v, fwd[1], fwd[2])
        x, u = pt.pclqt_backwardbwdfwdpass(B, N, k, C(P['x0']), *term, *fns)
        fore(x, u, (us, xs), tot, N, B, True, 'pclqt_backwardbwdfwdpass')


def worst(q):
    return max(np.abs(a).max() if np.isfinite(a).all() else np.inf for a in q)


def back(r, ref, tot, N, bl, full, what, tup):
    need(len(r) == 4, what + ': result structure')
    for g, w, nm, b in zip(r, ref, ('gains', 'offsets', 'value matrices', 'value vectors'), (0, 0, 1, 1)):
        cmp(list(np.asarray(g)) if not tup else list(g), w, tot, N, bl, full, '%s: %s' % (what, nm), 1e-6, True, b)


def fore(x, u, w, tot, N, bl, full, what):
    cmp(list(np.asarray(u)), w[0], tot, N, bl, full, what + ': controls', 1e-6, bnd=False)
    cmp(list(np.asarray(x)), w[1], tot, N, bl, full, what + ': states', 1e-6)

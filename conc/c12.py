from .clqtgen import *
import tensorflow as tf
import parallel_control.clqt_tf as ct
tf.config.threading.set_intra_op_parallelism_threads(1)
tf.config.threading.set_inter_op_parallelism_threads(1)

RULE = ('random continuous-time trackers with smooth time-varying data, several block/step counts, grids, end conditions, orders of integration and '
        'parallelism limits, eager and graph execution; against per-component fourth-order steps and sequential combination; distinct in (sizes, kind, grid, seed)')


def cases(ctx):
    for i, c in enumerate(std_cases(ctx, 12)):
        if c['kind'].startswith('lqr'):
            c['kind'] = 'full'
        if c['blocks'] * c['steps'] > 30:
            c['steps'] = max(1, 24 // c['blocks'])
        g = 8 <= i < 24 or (ctx.thorough and i % 3 == 0)
        yield dict(c, graph=g, only=i % 8 if g else None, mp=[None, 'B+1', 'B', '3B'][(i // 3) % 4])


def tfns(P):
    out = []
    for q in ('F', 'L', 'X', 'U', 'c', 'H', 'r'):
        out.append(lift(P[q]))
    return out


def lift(f):
    cell = dict(zip(f.__code__.co_freevars, [c.cell_contents for c in (f.__closure__ or ())]))
    name = f.__code__.co_freevars
    C = lambda x: tf.constant(np.asarray(x, float))
    if set(name) == {'a', 'b', 'c', 'w', 'ph'}:
        a, b, c, w, ph = [cell[k] for k in ('a', 'b', 'c', 'w', 'ph')]
        return lambda t: C(a) + C(b) * tf.sin(C(w) * t + C(ph)) + C(c) * t * C(0.2)
    if set(name) == {'a', 'b', 'w', 'n'}:
        a, b, w, n = [cell[k] for k in ('a', 'b', 'w', 'n')]
        return lambda t: C(a) + (C(1.0) + tf.sin(C(w) * t)) * C(b @ b.T / n)
    v = f(0.0)
    return lambda t: C(v)


real_map = tf.vectorized_map


def plain_map(fn, elems, fallback_to_while_loop=True, warn=True):
    """documented meaning of tf.vectorized_map: the function on every slice along axis 0, results stacked"""
    n = (elems[0] if isinstance(elems, tuple) else elems).shape[0]
    rs = [fn(tuple(e[i] for e in elems) if isinstance(elems, tuple) else elems[i]) for i in range(n)]
    return tuple(tf.stack([r[q] for r in rs]) for q in range(len(rs[0])))


def st(x):
    return tf.constant(np.array([np.asarray(a, float) for a in x]))


def cmpn(r, ref, what, tol, names):
    need(len(r) == len(ref), what + ': result structure')
    for a, b, nm in zip(r, ref, names):
        close_list(list(a.numpy()), b, '%s: %s' % (what, nm), tol)


VN = ('value matrices', 'value vectors', 'gains', 'offsets')


def check(case):
    tf.config.run_functions_eagerly(not case['graph'])
    tf.vectorized_map = real_map if case['graph'] else plain_map
    on = lambda q: case['only'] is None or case['only'] == q
    P = problem(case)
    n = P['n']
    rng = np.random.default_rng(case['seed'] + 5)
    B, N = case['blocks'], case['steps']
    tot = B * N
    fns = tfns(P)
    F, L, X, U, c, H, r = fns
    C = lambda x: tf.constant(np.asarray(x, float), tf.float64)
    T = C(P['T'])
    x0 = C(P['x0'])
    mp = {} if case['mp'] is None else dict(max_parallel={'B': B, 'B+1': B + 1, '3B': 3 * B}[case['mp']])
    if case['mp'] == 'B' and B == 1:
        mp = {}
    dt, t0, ST, vT = ct.clqt_seq_backwardpass_defaults(tot, C(P['XT']), C(P['HT']), C(P['rT']), T)
    close(float(dt), P['T'] / tot, 'default step', 1e-12, P['T'] / tot)
    close(ST.numpy(), P['ST'], 'default end condition', 1e-10)
    close(vT.numpy(), P['vT'], 'default end condition', 1e-10)
    d2 = ct.par_backwardpass_defaults(B, N, C(P['XT']), C(P['HT']), C(P['rT']), T)
    for a, b in zip(d2, (P['T'] / tot, 0.0, P['ST'], P['vT'])):
        close(a.numpy(), b, 'parallel default values', 1e-10)
    need(float(t0) == 0.0, 'default start time')
    d3 = ct.clqt_par_fwdbwdpass_defaults(B, N, T)
    close(float(d3[0]), P['T'] / tot, 'default step', 1e-12)
    tz = case['t0'] or 0.0
    t0 = C(tz)
    dtn = P['T'] / tot
    ref = riccati(P, tot, dtn, tz, P['ST'], P['vT'])
    vref = (ref[2], ref[3], ref[0], ref[1])
    if on(0):
        cmpn(ct.clqt_seq_backwardpass(tot, dt, t0, ST, vT, F, L, X, U, c, H, r), vref, 'sequential backward pass', 1e-7, VN)
    for fw in (False, True):
        if not on(1 + fw):
            continue
        w = par_riccati(P, B, N, dtn, tz, fw, P['ST'], P['vT'])
        cmpn(ct.clqt_par_backwardpass(B, N, dt, t0, ST, vT, *fns, forward=fw, **mp), (w[2], w[3], w[0], w[1]), 'parallel backward pass (forward=%s)' % fw, 1e-6, VN)
    K, d = ref[0], ref[1]
    if case['seed'] % 2:
        K = [k + 0.3 * rng.standard_normal(k.shape) for k in K]
        d = [k + 0.3 * rng.standard_normal(k.shape) for k in d]
    Kt, dtt = st(K), st(d)
    for z in (False, True):
        us, xs = closed(P, K, d, dtn, tz, P['x0'], z)
        if on(3):
            cmpn(ct.clqt_seq_forwardpass(x0, Kt, dtt, dt, t0, F, L, c, u_zoh=z), (xs, us), 'sequential forward pass (u_zoh=%s)' % z, 1e-7, ('states', 'controls'))
        if not on(4 + z):
            continue
        fw = bool((case['seed'] + z) % 2)
        us, xs = par_closed(P, K, d, B, N, dtn, tz, P['x0'], fw, z)
        cmpn(ct.clqt_par_forwardpass(B, N, x0, Kt, dtt, dt, t0, F, L, c, forward=fw, u_zoh=z, **mp), (xs, us),
             'parallel forward pass (forward=%s, u_zoh=%s)' % (fw, z), 1e-6, ('states', 'controls'))
    zz = np.zeros((n, n))
    A, b, Cc = fwd_abc(P, tot, dtn, tz, zz, P['x0'], zz)
    g = ct.clqt_seq_fwdbwdpass_defaults(x0, tot, T)
    for a, w in zip(g, (dtn, 0.0, zz, P['x0'], zz)):
        close(a.numpy(), w, 'forward-backward default values', 1e-10)
    q = ct.clqt_seq_fwdbwdpass(tot, dt, t0, *g[2:], F, L, X, U, c, H, r)
    cmpn(q, (A, b, Cc), 'forward value functions', 1e-7, 'AbC')
    oK, od, oS, ov = [st(a) for a in ref]
    us, xs = combine(ref[0], ref[1], ref[2], ref[3], b, Cc)
    cmpn(ct.clqt_combine_fwdbwd(oK, od, oS, ov, *q), (xs, us), 'combination of forward and backward', 1e-7, ('states', 'controls'))
    for fw in (False, True):
        if not on(6 + fw):
            continue
        us, xs = par_fb(P, ref[0], ref[1], ref[2], ref[3], B, N, dtn, tz, P['x0'], fw)
        cmpn(ct.clqt_par_fwdbwdpass(B, N, x0, oS, ov, oK, od, dt, t0, F, L, X, U, c, H, r, forward=fw, **mp), (xs, us),
             'parallel forward-backward pass (forward=%s)' % fw, 1e-6, ('states', 'controls'))

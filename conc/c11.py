from .clqtgen import *
import scipy.linalg as sl
from parallel_control.clqt_np import CLQT, CLQR

RULE = ('random continuous-time trackers with smooth time-varying data and constant regulators, several block/step counts, grids, end conditions and '
        'orders of integration; against per-component fourth-order steps and sequential combination; distinct in (sizes, kind, grid, seed)')


def cases(ctx):
    yield from std_cases(ctx)


def cmp4(r, ref, what, tol=1e-7):
    need(isinstance(r, tuple) and len(r) == 4, what + ': result structure')
    for a, b, nm in zip(r, ref, ('gains', 'offsets', 'value matrices', 'value vectors')):
        close_list(list(a), b, '%s: %s' % (what, nm), tol)


def cmp2(r, ref, what, tol=1e-7):
    need(isinstance(r, tuple) and len(r) == 2, what + ': result structure')
    for a, b, nm in zip(r, ref, ('controls', 'states')):
        close_list(list(a), b, '%s: %s' % (what, nm), tol)


def raises(f, what):
    try:
        f()
    except ValueError:
        return
    raise Fail('%s: inconsistent arguments are accepted' % what)


def check(case):
    P = problem(case)
    rng = np.random.default_rng(case['seed'] + 5)
    B, N = case['blocks'], case['steps']
    if case['kind'].startswith('lqr'):
        return regulator(case, P, rng)
    o = CLQT(P['F'], P['L'], P['X'], P['U'], P['XT'], P['c'], P['H'], P['r'], P['HT'], P['rT'], P['T'])
    fz = freeze(P['x0'], P['XT'], P['HT'], P['rT'])
    tot = B * N
    t0 = case['t0']
    tz = 0.0 if t0 is None else t0
    dt = P['T'] / tot
    kw = {} if t0 is None else dict(t0=t0)
    kd = dict(kw)
    if case['seed'] % 3 == 0:
        dt = 0.8 * dt
        kd['dt'] = dt
    ref = riccati(P, tot, dt, tz, P['ST'], P['vT'])
    seq = o.seqBackwardPass(tot, **kd)
    cmp4(seq, ref, 'sequential backward pass')
    S1, v1 = P['ST'] + 0.05 * spd(rng, P['n']), rng.standard_normal(P['n'])
    if rng.integers(3) == 0:
        S1 = 0 * S1
    if rng.integers(3) == 0:
        v1 = 0 * v1
    fz1 = freeze(S1, v1)
    cmp4(o.seqBackwardPass(N, dt=dt, t0=tz + 0.1, S=S1, v=v1), riccati(P, N, dt, tz + 0.1, S1, v1), 'sequential backward pass from a given value function')
    unchanged(fz1, S1, v1)
    for fw in (case['forward'], not case['forward']):
        cmp4(o.parBackwardPass(B, N, forward=fw, **kd), par_riccati(P, B, N, dt, tz, fw, P['ST'], P['vT']), 'parallel backward pass (forward=%s)' % fw, 1e-6)
    cmp4(o.parBackwardPass(B, N, **kd), par_riccati(P, B, N, dt, tz, False, P['ST'], P['vT']), 'parallel backward pass', 1e-6)
    K, d = ref[0], ref[1]
    if case['seed'] % 2:
        K = [k + 0.3 * rng.standard_normal(k.shape) for k in K]
        d = [k + 0.3 * rng.standard_normal(k.shape) for k in d]
    fz2 = freeze(K, d)
    for z in (False, True):
        rz = closed(P, K, d, dt, tz, P['x0'], z)
        cmp2(o.seqForwardPass(P['x0'], K, d, u_zoh=z, **kd), rz, 'sequential forward pass (u_zoh=%s)' % z)
        for fw in (False, True):
            r = o.parForwardPass(P['x0'], K, d, B, N, forward=fw, u_zoh=z, **kd)
            cmp2(r, par_closed(P, K, d, B, N, dt, tz, P['x0'], fw, z), 'parallel forward pass (forward=%s, u_zoh=%s)' % (fw, z), 1e-6)
            if case['fine'] and not z:
                cmp2(r, rz, 'parallel against sequential forward pass', 1e-4)
    K, d, S, v = ref
    A, b, C = fwd_abc(P, tot, dt, tz, np.zeros((P['n'],) * 2), P['x0'], np.zeros((P['n'],) * 2))
    r = o.seqFwdBwdPass(P['x0'], tot, **kd)
    for q, w, nm in zip(r, (A, b, C), ('A', 'b', 'C')):
        close_list(q, w, 'forward value functions: ' + nm, 1e-7)
    cmp2(o.combineForwardBackward(K, d, S, v, *r), combine(K, d, S, v, b, C), 'combination of forward and backward', 1e-7)
    for fw in (False, True):
        r = o.parFwdBwdPass(P['x0'], K, d, S, v, B, N, forward=fw, **kd)
        cmp2(r, par_fb(P, K, d, S, v, B, N, dt, tz, P['x0'], fw), 'parallel forward-backward pass (forward=%s)' % fw, 1e-6)
        if case['fine']:
            cmp2(r, closed(P, K, d, dt, tz, P['x0'], False), 'forward-backward against sequential forward pass', 0.4)
    unchanged(fz2[:0] + fz, P['x0'], P['XT'], P['HT'], P['rT'])
    if tot > 1:
        raises(lambda: o.parForwardPass(P['x0'], K[:-1], d[:-1], B, N, **kd), 'parallel forward pass')
        raises(lambda: o.parFwdBwdPass(P['x0'], K, d, S[:-1], v[:-1], B, N, **kd), 'parallel forward-backward pass')


def regulator(case, P, rng):
    B, N = case['blocks'], case['steps']
    tot = B * N
    Q = P['const']
    dt = P['T'] / tot
    o = CLQR(Q['F'], Q['L'], Q['X'], Q['U'], Q['XT'], P['T'])
    fz = freeze(Q, P['x0'])
    ref = riccati(P, tot, dt, 0.0, P['ST'], P['vT'])
    two = lambda r: (list(r[0]), list(r[1]))
    chk = lambda r, w, what, tol=1e-7: [close_list(list(a), b, what + ': ' + nm, tol) for a, b, nm in zip(r, w, ('first', 'second'))]
    KS = (ref[0], ref[2])
    chk(o.seqBackwardPass(tot), KS, 'regulator: sequential backward pass')
    S1 = 0.5 * P['ST'] + 0.05 * spd(rng, P['n'])
    if rng.integers(3) == 0:
        S1 = 0 * S1
    r1 = riccati(P, N, 0.5 * dt, 0.0, S1, P['vT'])
    chk(o.seqBackwardPass(N, dt=0.5 * dt, S=S1), (r1[0], r1[2]), 'regulator: sequential backward pass from a given value function')
    # exact: solution of the linear Hamiltonian system from the end of the horizon, at every grid time
    F, L, U, X, XT = [np.asarray(Q[q], float) for q in ('F', 'L', 'U', 'X', 'XT')]
    G = L @ inv(U, L.T)
    Hm = np.block([[F, -G], [-X, -F.T]])
    n = P['n']
    Sx = []
    for k in range(tot + 1):
        CD = sl.expm(-(tot - k) * dt * Hm) @ np.vstack([np.eye(n), XT])
        Sx.append(CD[n:] @ np.linalg.inv(CD[:n]))
    Kx = [inv(U, L.T @ s) for s in Sx[:-1]]
    chk(o.seqBackwardPass(tot, method='exact'), (Kx, Sx), 'regulator: exact backward pass', 1e-6)
    if case['fine']:
        chk(o.seqBackwardPass(tot), (Kx, Sx), 'regulator: fourth-order against exact backward pass', 1e-4)
    z = par_riccati(P, B, N, dt, 0.0, False, P['ST'], P['vT'])
    chk(o.parBackwardPass(B, N), (z[0], z[2]), 'regulator: parallel backward pass', 1e-6)
    r = o.parBackwardPass(B, N, extract_method='exact')
    need(len(r[0]) == tot and len(r[1]) == tot + 1, 'regulator: lengths')
    if case['fine']:
        chk(r, (Kx, Sx), 'regulator: parallel backward pass with exact extraction', 1e-4)
    from parallel_control import lqt_np
    e = o.parBackwardPass_init(B, N, forward=True)
    z = par_riccati(P, B, N, dt, 0.0, True, P['ST'], P['vT'])
    chk(o.parBackwardPass_extract(lqt_np.par_backward_pass_scan(e), N), (z[0], z[2]), 'regulator: parallel backward pass (forward)', 1e-6)
    K = [k + (0.2 * rng.standard_normal(k.shape) if case['seed'] % 2 else 0) for k in ref[0]]
    d = [np.zeros(P['m'])] * tot
    A, Bm = sl.expm(F * dt), None
    M = sl.expm(np.block([[F, L], [np.zeros((P['m'], n + P['m']))]]) * dt)
    A, Bm = M[:n, :n], M[:n, n:]
    for zoh in (False, True):
        w = closed(P, K, d, dt, 0.0, P['x0'], zoh)
        chk(o.seqForwardPass(P['x0'], K, u_zoh=zoh), w, 'regulator: sequential forward pass (u_zoh=%s)' % zoh)
        x, us, xs = P['x0'], [], [P['x0']]
        for k in range(tot):
            u = -K[k] @ x
            x = A @ x + Bm @ u if zoh else sl.expm((F - L @ K[k]) * dt) @ x
            us.append(u)
            xs.append(x)
        chk(o.seqForwardPass(P['x0'], K, method='exact', u_zoh=zoh), (us, xs), 'regulator: exact forward pass (u_zoh=%s)' % zoh)
        chk(o.parForwardPass(P['x0'], K, B, N, u_zoh=zoh), par_closed(P, K, d, B, N, dt, 0.0, P['x0'], True, zoh), 'regulator: parallel forward pass', 1e-6)
        e = o.parForwardPass_init(P['x0'], K, B, N, forward=False)
        chk(o.parForwardPass_extract(K, lqt_np.par_forward_pass_scan(e), N, u_zoh=zoh), par_closed(P, K, d, B, N, dt, 0.0, P['x0'], False, zoh), 'regulator: parallel forward pass (backward)', 1e-6)
    z = np.zeros((n, n))
    A, b, C = fwd_abc(P, tot, dt, 0.0, z, P['x0'], z)
    r = o.seqFwdBwdPass(P['x0'], tot)
    for q, w, nm in zip(r, (A, b, C), ('A', 'b', 'C')):
        close_list(q, w, 'regulator: forward value functions: ' + nm, 1e-7)
    chk(o.combineForwardBackward(ref[0], ref[2], *r), combine(ref[0], d, ref[2], [np.zeros(n)] * (tot + 1), b, C), 'regulator: combination')
    w = par_fb(P, ref[0], d, ref[2], [np.zeros(n)] * (tot + 1), B, N, dt, 0.0, P['x0'], True)
    chk(o.parFwdBwdPass(P['x0'], ref[0], ref[2], B, N), w, 'regulator: parallel forward-backward pass', 1e-6)
    for bad in ('Exact', 'euler'):
        raises(lambda: o.seqBackwardPass(tot, method=bad), 'unknown method')
        raises(lambda: o.seqForwardPass(P['x0'], K, method=bad), 'unknown method')
    unchanged(fz, Q, P['x0'])

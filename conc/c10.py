from .lqtgen import *
import parallel_control.lqt_np as lqt_np
import parallel_control.condensing_np as cnp
import parallel_control.condensing_tf as ctf
import tensorflow as tf
tf.config.threading.set_intra_op_parallelism_threads(1)
tf.config.threading.set_inter_op_parallelism_threads(1)

RULE = ('random tracking problems in the documented class (no cross terms, no control reference, identity control output, constant output dimension, '
        'invertible block cost), horizons, block lengths dividing the horizon or not, both implementations, against direct simulation of the original problem; '
        'distinct in (horizon, block length, sizes, seed)')

DM = [(1, 1, 1), (2, 1, 2), (2, 2, 3), (3, 2, 3), (4, 2, 4), (1, 3, 2), (2, 3, 2), (4, 2, 2), (3, 1, 1), (3, 4, 5)]


def cases(ctx):
    j = 0
    tn = [(1, 1), (4, 2), (6, 3), (5, 2), (7, 3), (2, 2), (3, 1), (8, 4), (9, 4), (10, 4), (3, 3), (2, 3), (3, 5), (11, 5), (12, 5), (13, 6), (14, 7), (15, 4), (16, 8), (17, 3), (1, 3)]
    for h in hint_sizes(ctx, 40):
        tn += [(h, 2), (max(h, 1), max(h, 1)), (2 * h + 1, max(h, 1)), (7, h), (h, 4)]
    tn += [(20, 10), (23, 10), (30, 7), (33, 16), (50, 9), (64, 8), (65, 8), (100, 10), (31, 2)]
    for T, Nc in tn:
        for rep in range(2):
            n, m, p = DM[j % len(DM)]
            j += 1
            yield dict(what='np' if rep == j // 2 % 2 else 'tf', seed=ctx.seed * 1000 + j, T=T, Nc=Nc, n=n, m=m, p=p)
    for sc, ws in ((1e-3, 1.0), (0.0, 1.0), (1e5, 1.0), (1.0, 1e-6), (1.0, 1e6)):
        for w in ('np', 'tf'):
            j += 1
            yield dict(what=w, seed=ctx.seed * 1000 + j, T=7, Nc=3, n=2, m=2, p=2, scale=sc, wscale=ws)
    for r in range(2000 if ctx.thorough else 60):
        n, m, p = [int(x) for x in ctx.rng.integers(1, 5, 3)]
        yield dict(what=('np', 'tf')[r % 2], seed=int(ctx.rng.integers(1 << 30)), T=int(ctx.rng.integers(1, 30)), Nc=int(ctx.rng.integers(1, 8)), n=n, m=m, p=p,
                   kind='const' if r % 5 == 0 else 'noM')


def check(case):
    T, Nc, n, m = case['T'], case['Nc'], case['n'], case['m']
    rng = np.random.default_rng(case['seed'] + 3)
    P = problem(dict(case, kind=case.get('kind', 'noM')))
    p = P['H'][0].shape[0]
    P['M'] = [0 * a for a in P['M']]
    P['s'] = [0 * a for a in P['s']]
    P['Z'] = [np.eye(m) for _ in range(T)]
    sc, ws = P['sc'], P['ws']
    o = lqt_np.LQT.checkAndExpand(P['F'], P['L'], P['X'], P['U'], P['XT'], P['c'], P['H'], P['r'], P['HT'], P['rT'], None, None, None, T)
    Tc = -(-T // Nc)
    # block cost by direct quadratic probing of the original stages (oracle), for the class test only
    def block(kp, x, u):
        J = 0.0
        xs = []
        for i in range(Nc):
            k = kp * Nc + i
            xs.append(x)
            ui = u[i * m:(i + 1) * m]
            if k < T:
                y = P['H'][k] @ x - P['r'][k]
                J += 0.5 * y @ P['X'][k] @ y + 0.5 * ui @ P['U'][k] @ ui
                x = P['F'][k] @ x + P['c'][k] + P['L'][k] @ ui
            else:
                J += 0.5 * ui @ ui
        return x, J, xs
    for kp in range(Tc):
        # reduced cost of the state part: controls eliminated
        W = np.zeros((n + Nc * m, n + Nc * m))
        G = np.hstack([np.eye(n), np.zeros((n, Nc * m))])
        for i in range(Nc):
            k = kp * Nc + i
            if k < T:
                W += (P['H'][k] @ G).T @ P['X'][k] @ (P['H'][k] @ G)
                W[n + i * m:n + (i + 1) * m, n + i * m:n + (i + 1) * m] += P['U'][k]
                G = P['F'][k] @ G
                G[:, n + i * m:n + (i + 1) * m] += P['L'][k]
            else:
                W[n + i * m:n + (i + 1) * m, n + i * m:n + (i + 1) * m] += np.eye(m)
        D = 1 / np.sqrt(np.maximum(np.diag(W), 1e-300))
        if not np.linalg.cond(W * D[:, None] * D[None, :]) < 1e7:
            return        # not in the supported class: block cost not invertible
    fz = freeze(o, P)
    if case['what'] == 'np':
        cond = cnp.LQTCondenser()
        if case['seed'] % 2:      # the condenser object may be used before
            cond.condense(o, 2 if T > 1 and not T % 2 and np.linalg.matrix_rank(P['H'][0]) == n else Nc)
        cl = cond.condense(o, Nc)
        Q = {q: getattr(cl, q) for q in NAMES}
        expand = lambda ul, xl: cond.convertUX(ul, xl)
    else:
        st = lambda l: tf.constant(np.array([np.asarray(a, float) for a in l]))
        r = ctf.condense(*[st(P[q]) for q in ('F', 'c', 'L', 'H', 'r', 'X', 'U')], Nc)
        need(len(r) == 12, 'twelve results expected')
        v = [list(a.numpy()) for a in r[:9]]
        Q = dict(zip(('F', 'c', 'L', 'H', 'r', 'X', 'U', 'M', 's'), v))
        Q.update(Z=[np.eye(Nc * m)] * len(Q['F']), HT=P['HT'], rT=P['rT'], XT=P['XT'])

        def expand(ul, xl):
            us, xs = ctf.convertUX(st(ul), st(xl), r[9], r[10], r[11], T)
            return list(us.numpy()), list(xs.numpy())
    unchanged(fz, o, P)
    for q in ('F', 'c', 'L', 'H', 'r', 'X', 'U', 'M', 's', 'Z'):
        need(len(Q[q]) == Tc, 'condensed %s: %d stages, expected %d' % (q, len(Q[q]), Tc))
    for q in ('HT', 'rT', 'XT'):
        close(Q[q], P[q], 'condensed end cost ' + q, scale=1e-6 if q != 'XT' else ws)
    for kp in range(Tc):
        base = None
        for rep in range(4):
            x, u = sc * rng.standard_normal(n), sc * rng.standard_normal(Nc * m)
            if rep == 0:
                x, u = 0 * x, 0 * u
            xe, J, _ = block(kp, x, u)
            closeu(Q['F'][kp] @ x + Q['L'][kp] @ u + Q['c'][kp], xe, 'condensed dynamics of block %d' % kp, unit=sc)
            y = Q['H'][kp] @ x - Q['r'][kp]
            w = Q['Z'][kp] @ u - Q['s'][kp]
            Jc = 0.5 * y @ Q['X'][kp] @ y + 0.5 * w @ Q['U'][kp] @ w + y @ Q['M'][kp] @ w
            mag = abs(J) + abs(Jc) + ws * sc ** 2
            if base is None:
                base = (J - Jc, mag)
            need(abs(J - Jc - base[0]) <= 1e-6 * (mag + base[1]), 'condensed cost of block %d: %.9g, expected %.9g up to the constant %.9g', kp, Jc, J, base[0])
    # expansion of an arbitrary feasible trajectory: simulation of the original
    def expanded(uz, what, ref=None):
        x, xl = P['x0'], [P['x0']]
        for kp in range(Tc):
            x = Q['F'][kp] @ x + Q['L'][kp] @ uz[kp] + Q['c'][kp]
            xl.append(x)
        fe = freeze(uz, xl)
        ul2, xl2 = expand(uz, xl)
        unchanged(fe, uz, xl)
        u0 = np.concatenate(uz).reshape(-1, m)[:T]
        x, rx = P['x0'], [P['x0']]
        for k in range(T):
            x = P['F'][k] @ x + P['c'][k] + P['L'][k] @ u0[k]
            rx.append(x)
        close_list(ul2, list(u0), what + ': controls', 1e-9, unit=sc)
        close_list(xl2, rx, what + ': states', 1e-6, unit=sc)
        return ul2, xl2
    expanded([sc * rng.standard_normal(Nc * m) for _ in range(Tc)], 'expanded trajectory')
    # optimum
    rb = bellman(P)
    ru, rx = rollout(P, rb[0], rb[1], P['x0'])
    PC = dict(Q, T=Tc, n=n, m=Nc * m, ws=ws, sc=sc)
    bc = bellman(PC)
    uu, _ = rollout(PC, bc[0], bc[1], P['x0'])
    ul, xl = expanded(uu, 'expanded optimum')
    close_list(ul, ru, 'optimal controls by condensing', 1e-5, unit=sc)
    close_list(xl, rx, 'optimal states by condensing', 1e-5, unit=sc)

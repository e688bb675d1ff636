from .fscgen import *
import itertools
import parallel_control.fsc_np as fsc

RULE = ('random finite-state problems over horizons, state and control counts, dynamics, cost types (integer, ties, '
        'negative, large), sharing and discount; Bellman oracle in plain Python; distinct in all case fields')


def cases(ctx):
    yield from itertools.chain(*zip(std_cases(ctx, ['bwd', 'fwd', 'cost'], gammas=(1.0, 1.0, 0.9, 0.5, 1.1, 0.25), cap=150),
                                    batch_cases(ctx)))


def batch_cases(ctx):
    kinds = KINDS
    i = 0
    while True:
        for T in (1, 2, 3, 4, 5, 6):
            for nx, nu in ((3, 2), (2, 3), (1, 2), (4, 1), (5, 2), (1, 1)):
                if nu ** T > 729:
                    continue
                i += 1
                yield dict(what='batch', T=T, nx=nx, nu=nu, kind=kinds[i % len(kinds)], dyn=['rand', 'perm', 'shift'][i % 3],
                           shared=['', 'f', 'L', 'fL'][(i // 2) % 4], gamma=1.0, seed=5000 + i + 7919 * ctx.seed)


def check(case):
    P = problem(case)
    rng = np.random.default_rng(case['seed'] + 3)
    o = make(P, fsc)
    fz = freeze(P)
    tol = tolv(P)
    w = case['what']
    x0 = int(rng.integers(0, P['nx']))
    if w == 'bwd':
        V, Q = bellman(P)
        for rep in (0, 1):
            if rep and case['seed'] % 3 == 0 and not case.get('shared'):      # other data in the same object
                P['L'][0] = P['L'][0] + np.asarray(rng.integers(-1, 5, P['L'][0].shape), P['L'][0].dtype)
                P['LT'] = P['LT'] + np.asarray(rng.integers(0, 5, P['LT'].shape), P['LT'].dtype)
                o.L, o.LT = list(P['L']), P['LT']
                V, Q = bellman(P)
                fz = freeze(P)
            u, v = o.seqBackwardPass()
            check_values(P, v, V, 'sequential backward pass%s' % (' (repeated)' if rep else ''), tol)
            check_law(P, u, V, Q, 'sequential backward pass%s' % (' (repeated)' if rep else ''), tol)
    elif w == 'fwd':
        law = rand_law(P, rng)
        lz = freeze(law)
        us, xs = rollout(P, law, x0)
        for rep in (0, 1):
            gu, gx = o.seqForwardPass(x0, law)
            need(as_ints(gu, 'controls') == us and as_ints(gx, 'states') == xs,
                 'sequential forward pass from %d does not follow the law: states %s expected %s', x0, as_ints(gx, 's')[:12], xs[:12])
            gs = o.seqSimulation(x0, us)
            need(as_ints(gs, 'states') == xs, 'simulation does not reproduce the states')
        unchanged(lz, law, what='control law')
    elif w == 'cost':
        law = rand_law(P, rng)
        us, xs = rollout(P, law, x0)
        z = freeze(us, xs)
        for rep in (0, 1):
            c = float(o.cost(xs, us))
            need(abs(c - total(P, us, xs)) <= (tol if case['kind'] != 'f32' else 1e-3), 'cost %r, sum of stage and terminal costs %r', c, total(P, us, xs))
        unchanged(z, us, xs, what='trajectory')
    elif w == 'batch':
        V, Q = bellman(P)
        us, xs, c = o.batch_solution(x0)
        us, xs = as_ints(us, 'controls'), as_ints(xs, 'states')
        need(len(us) == P['T'] and len(xs) == P['T'] + 1, 'batch solution has the wrong length')
        need(xs[0] == x0 and all(0 <= us[k] < P['nu'] and xs[k + 1] == int(P['f'][k][xs[k], us[k]]) for k in range(P['T'])),
             'batch trajectory does not follow the dynamics')
        need(abs(float(c) - V[0][x0]) <= tol, 'batch minimum %r, least cost %r', float(c), V[0][x0])
        need(abs(total(P, us, xs) - V[0][x0]) <= tol, 'batch trajectory costs %r, least cost %r', total(P, us, xs), V[0][x0])
    unchanged(fz, P, what='problem data')

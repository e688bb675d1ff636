from .hmmgen import *
import parallel_control.viterbi_np as vn

RULE = ('random hidden Markov models (dense, sparse-ish, with ties, many states or symbols, peaked tables) and observation sequences of several '
        'integer types; every NumPy Viterbi routine against dynamic programming and, for small models, exhaustive enumeration; '
        'the equivalent control problem against the joint probability of random sequences; distinct in all case fields')

SHAPES = [(1, 2, 2), (2, 3, 2), (3, 2, 3), (4, 4, 2), (6, 3, 3), (9, 2, 5), (1, 1, 1), (5, 1, 3), (16, 5, 4), (33, 3, 2), (70, 4, 3), (3, 7, 1), (4, 300, 3)]


def cases(ctx):
    base = 5000 + 100000 * ctx.seed
    shapes = SHAPES + [(t, 3, 2) for t in hint_sizes(ctx, 150) if t not in [x[0] for x in SHAPES]]
    if ctx.thorough:
        shapes = shapes + [(t, 4, 3) for t in (8, 15, 17, 31, 64, 127, 200, 400)]
    i = 0
    for rnd in range(200 if ctx.thorough else 60):
        for T, nx, ny in shapes:
            i += 1
            if nx > 100 and rnd % 5:
                continue
            yield dict(T=T, nx=nx, ny=ny, kind=KINDS[(i + rnd) % len(KINDS)], ytype=YT[(i // 2 + rnd) % len(YT)], seed=base + i)


def check(case):
    M = model(case)
    T, nx = M['T'], M['nx']
    V, best = forward(M)
    uniq = unique(M, V)
    prior, Pi, Po, y = M['prior'], M['Pi'], M['Po'], M['y']
    keep = freeze(prior, Pi, Po, y)
    o = vn.Viterbi_np(prior, Pi, Po)
    tol = 1e-8 * (1 + np.abs(V).max())
    other = np.random.default_rng(case['seed'] + 21).integers(0, M['ny'], T).astype(y.dtype)
    for nm in ('ref_viterbi_log', 'ref_viterbi_log_v2', 'seqViterbi', 'parBwdFwdViterbi', 'parBwdFwdBwdViterbi', 'ref_viterbi'):
        if case['seed'] % 3 == 0 and nx < 100:      # the answer does not depend on what the object was asked before
            getattr(o, nm)(other)
        v, W = getattr(o, nm)(y)
        W = np.asarray(W, float)
        if nm == 'ref_viterbi':
            if V.max() > 600:
                continue                                   # joint probabilities leave the floating point range
            W = -np.log(W)
        seq = states(M, v, nm)
        need(W.shape == V.shape, '%s: value shape %s', nm, W.shape)
        need(np.abs(W - V).max() <= tol, '%s: values differ from the best joint log-probabilities by %g', nm, np.abs(W - V).max())
        if nm == 'parBwdFwdBwdViterbi' and not uniq:
            S = on_best(M, V)
            for k in range(T + 1):
                need(seq[k] in S[k], '%s: state %d at time %d is on no best sequence', nm, seq[k], k)
        else:
            c = cost(M, seq)
            need(c <= best + tol, '%s: sequence has cost %.12g, the best is %.12g', nm, c, best)
    fsc = o.getFSC(y)
    rng = np.random.default_rng(case['seed'] + 9)
    need(len(fsc.f) == T and len(fsc.L) == T, 'control problem has %d stages', len(fsc.f))
    for _ in range(6):
        s = rng.integers(0, nx, T + 1)
        tot = 0.0
        x = s[T]
        for k in range(T):
            u = s[T - 1 - k]
            tot += fsc.L[k][x, u]
            x = fsc.f[k][x, u]
            need(x == u, 'control problem: the next state is not the chosen predecessor')
        tot += fsc.LT[x]
        need(abs(tot - cost(M, s)) <= tol, 'control problem: cost %.12g of a sequence, minus its log joint probability is %.12g', tot, cost(M, s))
    unchanged(keep, prior, Pi, Po, y, what='model and observations')

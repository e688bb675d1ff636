from .hmmgen import *
import tensorflow as tf
import parallel_control.viterbi_tf as vt
tf.config.threading.set_intra_op_parallelism_threads(1)
tf.config.threading.set_inter_op_parallelism_threads(1)

RULE = ('random hidden Markov models with a unique best sequence (by a clear margin) and observation sequences; every TensorFlow Viterbi '
        'routine, eager and graph execution, several parallelism limits, against dynamic programming; distinct in all case fields')
SHAPES = [(1, 2, 2), (2, 3, 2), (3, 2, 3), (5, 4, 2), (8, 3, 3), (1, 1, 1), (4, 1, 2), (16, 3, 4), (33, 2, 3), (7, 5, 3), (65, 3, 2), (2, 270, 2)]


def cases(ctx):
    base = 6000 + 100000 * ctx.seed
    shapes = SHAPES + [(t, 3, 2) for t in hint_sizes(ctx, 150) if t not in [x[0] for x in SHAPES]]
    if ctx.thorough:
        shapes = shapes + [(t, 4, 3) for t in (9, 15, 17, 31, 64, 127, 128, 200)]
    i = 0
    for rnd in range(100 if ctx.thorough else 40):
        for T, nx, ny in shapes:
            i += 1
            if nx > 100 and rnd:
                continue
            yield dict(T=T, nx=nx, ny=ny, kind=[k for k in KINDS if k != 'ties'][(i + rnd) % (len(KINDS) - 1)], ytype=YT[(i // 2 + rnd) % 4],
                       graph=bool(rnd == 1 and T in (1, 2, 5, 8, 33)) or bool(ctx.thorough and rnd % 7 == 1),
                       mp=[None, 'T', 'T+1', '2T+3'][(i + 2 * rnd) % 4], seed=base + i)


class Mdl:
    pass


def check(case):
    tf.config.run_functions_eagerly(not case['graph'])
    M = model(case)
    T, nx = M['T'], M['nx']
    V, best = forward(M)
    if not unique(M, V):
        return
    tol = 1e-8 * (1 + np.abs(V).max())
    m = Mdl()
    m.prior, m.Pi, m.Po = M['prior'], M['Pi'], M['Po']
    fs, Ls, LT = vt.make_viterbi_fsc(m, M['y'])
    prior, Pi, Po = [tf.constant(a, tf.float64) for a in (M['prior'], M['Pi'], M['Po'])]
    ys = tf.constant(M['y'].astype(int), tf.int32 if case['seed'] % 3 else tf.int64)
    kw = {} if case['mp'] is None else dict(max_parallel={'T': T, 'T+1': T + 1, '2T+3': 2 * T + 3}[case['mp']])

    def seq(nm, xs):
        s = states(M, xs.numpy(), nm)
        c = cost(M, s)
        need(c <= best + tol, '%s: sequence has cost %.12g, the best is %.12g', nm, c, best)

    def vals(nm, Vs, W=V):
        Vs = Vs.numpy()
        need(Vs.shape == W.shape, '%s: value shape %s', nm, Vs.shape)
        need(np.abs(Vs - W).max() <= tol, '%s: values are off by %g', nm, np.abs(Vs - W).max())
    for nm in ('viterbi_fsc_seq_bwfw', 'viterbi_fsc_par_bwfw', 'viterbi_fsc_par_bwfwbw'):
        xs, Vs = getattr(vt, nm)(fs, Ls, LT)
        seq(nm, xs)
        vals(nm, Vs)
    for nm in ('viterbi_seq_fwbw', 'viterbi_par_fwbw', 'viterbi_seqpar_fwbw', 'viterbi_par_fwbwfw'):
        xs, Vs = getattr(vt, nm)(prior, Pi, Po, ys)
        seq(nm, xs)
        vals(nm, Vs)
    us, Vs = vt.viterbi_par_forwardpass(prior, Pi, Po, ys, **kw)
    vals('viterbi_par_forwardpass', Vs)
    rng = np.random.default_rng(case['seed'] + 5)
    # back-tracking follows any given predecessors
    up = rng.integers(0, nx, (T, nx))
    VT = rng.random(nx)
    want = [int(np.argmin(VT))]
    for k in reversed(range(T)):
        want.insert(0, int(up[k][want[0]]))
    ut = tf.constant(up, ys.dtype)
    for nm, r in (('viterbi_seq_backwardpass', vt.viterbi_seq_backwardpass(ut, tf.constant(VT))),
                  ('viterbi_par_backwardpass', vt.viterbi_par_backwardpass(ut, tf.constant(VT), **kw))):
        need([int(x) for x in r.numpy()] == want, '%s: does not follow the given predecessors', nm)
    seq('viterbi_par_backwardpass', vt.viterbi_par_backwardpass(us, Vs[-1], **kw))
    xs, Vb = vt.viterbi_par_bwfwpass(prior, Pi, Po, ys, tf.constant(V), **kw)
    seq('viterbi_par_bwfwpass', xs)
    vals('viterbi_par_bwfwpass', Vb, backward(M))

import numpy as np, tensorflow as tf
from parallel_control import clqt_tf
t_ = lambda a: tf.constant(a, dtype=tf.float64)
one = t_(np.eye(1))
F = lambda t: tf.reshape(tf.sin(4.0 * t), (1, 1))
L = lambda t: one
c = lambda t: tf.reshape(tf.cos(5.0 * t), (1,))
B, s, T = 4, 25, 2.0
n = B * s
dt = t_(T / n)
K, d, x0 = t_(np.full((n, 1, 1), 0.5)), t_(np.linspace(0, 1, n)[:, None]), t_([1.0])
flat = lambda a: np.asarray(a).reshape(-1)
for t0 in (0.0, 0.7):
    x1, u1 = clqt_tf.clqt_seq_forwardpass(x0, K, d, dt, t_(t0), F, L, c)
    x2, u2 = clqt_tf.clqt_par_forwardpass(B, s, x0, K, d, dt, t_(t0), F, L, c, forward=True)
    err = np.max(np.abs(flat(x1) - flat(x2)))
    assert err < 1e-4, (t0, err)

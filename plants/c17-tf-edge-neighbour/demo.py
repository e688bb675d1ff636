import numpy as np, tensorflow as tf
import jax; jax.config.update('jax_enable_x64', True)
from parallel_control.hjb_grid_1d_np import combine_V_interp
from parallel_control import hjb_grid_1d_tf as h
rng = np.random.default_rng(0)
for k in range(50):
    n = int(rng.integers(2, 7))
    V, W = rng.standard_normal((n, n)), rng.standard_normal((n, n))
    got = h.combine_V_interp(tf.constant(V[None]), tf.constant(W[None])).numpy()[0]
    assert np.allclose(got, np.asarray(combine_V_interp(V, W))), k

import numpy as np
from parallel_control.fsc_np import FSC
rng = np.random.RandomState(5)
T, n, m = 6, 4, 2
f = [rng.randint(0, n, (n, m)) for _ in range(T)]
L = [1e8 * (1 + rng.rand(n, m)) for _ in range(T)]
p = FSC(f, L, 1e8 * rng.rand(n))
u1, V1 = p.seqBackwardPass()
u2, V2 = p.parBackwardPass()
for a, b in zip(V1, V2):
    assert np.allclose(a, b), (a, b)

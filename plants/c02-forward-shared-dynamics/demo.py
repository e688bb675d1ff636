import numpy as np
from parallel_control.fsc_np import FSC
rng = np.random.RandomState(3)
T, n, m = 5, 4, 3
f = [rng.randint(0, n, (n, m)) for _ in range(T)]
L = [rng.rand(n, m) for _ in range(T)]
p = FSC(f, L, rng.rand(n))
ul, Vl = p.seqBackwardPass()
for x0 in range(n):
    us, xs = p.seqForwardPass(x0, ul)
    x = x0
    for k in range(T):
        assert xs[k] == x, (k, xs)
        assert us[k] == ul[k][x]
        x = f[k][x, us[k]]
    assert xs[T] == x
    assert abs(p.cost(xs, us) - Vl[0][x0]) < 1e-9

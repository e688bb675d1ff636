import numpy as np
from parallel_control import disc
F = np.array([[0, 1], [0, 0]])
L = np.array([[0.0], [1.0]])
A, Q = disc.lti_disc(F, L, 0.25, 0.5)
dt, q = 0.5, 0.25
want = q * np.array([[dt ** 3 / 3, dt ** 2 / 2], [dt ** 2 / 2, dt]])
assert np.allclose(Q, want, atol=1e-12), (Q, want)
A2, Q2 = disc.lti_disc(F.astype(float), L, 0.25, 0.5)
assert np.allclose(A, A2) and np.allclose(Q, Q2)

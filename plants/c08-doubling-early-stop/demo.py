import numpy as np
from parallel_control.lqt_np import LQR
F = np.array([[1.0, 0.1], [0.0, 1.0]]); L = np.array([[0.0], [0.1]])
X = 1e-10 * np.eye(2); U = 1e-9 * np.eye(1); 
p = LQR(F, L, X, U, X)
K1, S1 = p.lqrDouble(5)
S = X
for _ in range(2 ** 5 - 1):
    K = np.linalg.solve(U + L.T @ S @ L, L.T @ S @ F)
    S = F.T @ S @ (F - L @ K) + X
assert np.allclose(S1 / 1e-10, S / 1e-10, rtol=1e-6), (S1, S)

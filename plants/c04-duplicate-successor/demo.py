
import numpy as np, tensorflow as tf
import parallel_control.fsc_np as N
import parallel_control.fsc_tf as T
rng=np.random.default_rng(1); bad=0
for t in range(20):
    n,m,k=3,4,5
    f=[rng.integers(0,n,(n,m)) for _ in range(k)]; L=[rng.random((n,m)) for _ in range(k)]; LT=rng.random(n)
    V=[LT]
    for i in reversed(range(k)): V.insert(0,(L[i]+V[0][f[i]]).min(1))
    us,Vs=T.fsc_par_backwardpass(tf.constant(np.array(f),tf.int32),tf.constant(np.array(L)),tf.constant(LT))
    bad+=np.abs(np.array(V)-Vs.numpy()).max()>1e-9
raise SystemExit(bool(bad))

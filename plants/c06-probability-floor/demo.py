
import numpy as np, tensorflow as tf
import parallel_control.viterbi_np as N
import parallel_control.viterbi_tf as T
e=1e-9
prior=np.array([1-e,e]); Pi=np.array([[1-e,e],[e,1-e]]); Po=np.array([[1-1e-7,1e-7],[1e-7,1-1e-7]])
ys=np.array([0,0,1,1])
v,V=N.Viterbi_np(prior,Pi,Po).ref_viterbi_log(ys)
c=lambda a:tf.constant(a,tf.float64)
x,Vt=T.viterbi_par_fwbw(c(prior),c(Pi),c(Po),tf.constant(ys,tf.int32))
print(v,x.numpy(),V[-1],Vt.numpy()[-1])
raise SystemExit(bool(np.abs(V-Vt.numpy()).max()>1e-6))


import numpy as np, tensorflow as tf
import parallel_control.lqt_tf as T
rng=np.random.default_rng(3); k,n,m=4,2,1
c=lambda a:tf.constant(np.array(a),tf.float64)
F=c(rng.normal(size=(k,n,n))); cc=c(rng.normal(size=(k,n))); L=c(rng.normal(size=(k,n,m))); H=c(np.tile(np.eye(n),(k,1,1))); r=c(rng.normal(size=(k,n)))
X=c(np.tile(np.eye(n),(k,1,1))); U=c((1+rng.random((k,1,1))*5)); HT=c(np.eye(n)); rT=c(rng.normal(size=n)); XT=c(np.eye(n)); x0=c(rng.normal(size=n))
S,v,K,d=T.lqt_seq_backwardpass(F,cc,L,H,HT,r,rT,X,XT,U)
xs,us=T.lqt_seq_forwardpass(x0,F,cc,L,K,d)
x2,u2=T.lqt_par_fwdbwdpass(x0,F,cc,L,H,r,X,U,S,v,K,d)
raise SystemExit(bool(np.abs(xs.numpy()-x2.numpy()).max()>1e-6))

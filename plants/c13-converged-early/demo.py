
import numpy as np
import parallel_control.clqt_np as C
import parallel_control.parareal_clqt_np as PP
F=np.array([[0.]]); L=np.array([[1.]]); X=np.eye(1); U=np.eye(1); H=np.eye(1); XT=np.eye(1)
m=C.CLQT(lambda t:F,lambda t:L,lambda t:X,lambda t:U,XT,lambda t:np.array([np.sin(3*t)]),lambda t:H,lambda t:np.array([np.cos(5*t)]),H,np.array([0.5]),2.0)
b,s=5,4
K,d,S,v=m.seqBackwardPass(b*s)
K2,d2,S2,v2=PP.Parareal_CLQT_np(m).backwardPass(b,s,niter=b)
e=np.abs(np.array(v)-np.array(v2)).max(); print(e)
raise SystemExit(bool(e>1e-9))


import numpy as np
import parallel_control.clqt_np as C
import parallel_control.diffeq_np as D
F=np.array([[0.,1],[-1,-.3]]); L=np.array([[0.],[1]]); X=np.eye(2); U=np.eye(1); XT=3*np.eye(2)
m=C.CLQR(F,L,X,U,XT,1.0)
K,S=m.seqBackwardPass(10,S=np.zeros((2,2)))
m2=C.CLQR(F,L,X,U,np.zeros((2,2)),1.0)
K2,S2=m2.seqBackwardPass(10)
raise SystemExit(bool(np.abs(np.array(S)-np.array(S2)).max()>1e-9))

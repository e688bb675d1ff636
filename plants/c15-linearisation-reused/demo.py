
import numpy as np
import parallel_control.nlqt_np as N
import parallel_control.lqt_np as L
class M:
    def f(self,x,u): return np.array([x[0]+u[0]**2])
    def Fx(self,x,u): return np.array([[1.]])
    def Fu(self,x,u): return np.array([[2*u[0]]])
I=np.eye(1); z=np.zeros(1)
l=L.LQT.checkAndExpand(I,I,I,I,XT=I,c=z,T=2)
n=N.NLQT(l,M())
x=[np.array([1.]),np.array([1.]),np.array([2.])]; u=[np.array([0.]),np.array([1.])]
n.linearize(u,x)
bad=any(abs((l.F[k]@x[k]+l.c[k]+l.L[k]@u[k]-M().f(x[k],u[k]))[0])>1e-9 for k in range(2))
raise SystemExit(bool(bad))

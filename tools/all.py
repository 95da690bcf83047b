import sys,time
sys.path.insert(0,'/verif/engine')
import terms as T, cuts
from program import Program
from interp import Interp
P=Program('/verif/.build/mir')
U={}
for cr in sys.argv[1:]:
    for n,f in P.endpoints(cr).items():
        t=time.time(); I=Interp(P,cr,cuts.CUTS)
        try:
            r=I.run(f); print(cr,n,'%.2fs'%(time.time()-t),len(I.events),I.nsteps,len(T.ATOMS),I.assumptions or '',flush=True)
        except Exception as e:
            import traceback
            print(cr,n,'EXC',type(e).__name__,str(e)[:100],traceback.extract_tb(e.__traceback__)[-1]); 
        for k,v in I.unknown.items(): U[k]=U.get(k,0)+v
print(U)

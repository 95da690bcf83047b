import sys,time
sys.path.insert(0,'/verif/engine')
import terms as T
from program import Program
from interp import Interp
import cuts
def run(crate,ep,quiet=False,cut=True):
    P=Program('/verif/.build/mir')
    I=Interp(P,crate,cuts.CUTS if cut else {})
    f=P.endpoints(crate).get(ep) or P.fns.get(ep) or P.find(ep)[0]
    t=time.time(); r=I.run(f)
    print(ep,'%.1fs'%(time.time()-t),'events',len(I.events),'steps',I.nsteps,'atoms',len(T.ATOMS))
    print('unknown',I.unknown); print(I.assumptions)
    return I,r
if __name__=='__main__':
    I,r=run(sys.argv[1],sys.argv[2])
    d=int(sys.argv[3]) if len(sys.argv)>3 else 6
    kinds=sys.argv[4].split(',') if len(sys.argv)>4 else None
    for e in I.events:
        if kinds and e.kind not in kinds: continue
        if e.kind=='sload' and not kinds: continue
        dd={k:(T.show(v,d) if isinstance(v,(T.Term,T.Node)) else v if not isinstance(v,tuple) else [T.show(x,d) if isinstance(x,T.Term) else x for x in v]) for k,v in e.d.items() if k not in('ty','site','old','ret')}
        print(e.seq,e.kind,e.line,e.fn.split('::')[-1],dd)
        if len(sys.argv)>5: print('      PC',T.showb(e.pc,int(sys.argv[5])))
    print('ret',T.show(r[0],d) if r else None)

import sys
sys.path[:0]=['/verif/engine','/verif']
import lib,terms as T
def first(a,b,d=0):
    """smallest differing pair"""
    while True:
        if a is b: return None
        if isinstance(a,T.Term) and isinstance(b,T.Term) and a.op==b.op and len(a.args)==len(b.args) and a.op!='gate':
            df=[(x,y) for x,y in zip(a.args,b.args) if x is not y and x!=y]
            if len(df)==1 and isinstance(df[0][0],T.Term):
                a,b=df[0]; continue
            if df and all(isinstance(x,T.Term) for x,_ in df): 
                a,b=df[-1]; continue
        return a,b
_o=lib.diff
def diff(pc,a,b,*k):
    r=_o(pc,a,b,*k)
    if r:
        f=first(r[1],r[2])
        if f:
            print("COND",T.showb(r[0],3)[:1500]); print("A",T.show(f[0],9)[:1500]); print("B",T.show(f[1],9)[:1500])
    return r
lib.diff=diff
import report
if hasattr(report,'diff'): report.diff=diff
sys.argv=['check.py']+sys.argv[1:]
exec(open('/verif/check.py').read())

import sys; sys.path[:0]=['/verif/engine','/verif']
import lib as L, terms as T
W=L.World('/verif/.build/mir')
for n in sys.argv[2:]:
    r=W.fn(sys.argv[1],n)
    print(n, L.show(r.val,14)[:2500]); print('PC',L.show(r.pc,5)[:300])

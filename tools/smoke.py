import sys, time, traceback
sys.path.insert(0,'/verif')
sys.dont_write_bytecode=True
from xsa import terms as TM
from xsa.project import Project
from xsa.interp import Interp, Undecided
root=sys.argv[1] if len(sys.argv)>1 else '/repo'
only=sys.argv[2:] 
P=Project(root)
bad=0
for q,f in sorted(P.funcs.items()):
    if only and not any(o in q for o in only): continue
    for mode in (0,1):
        I=Interp(P, anchors=set(P.funcs) if mode==0 else (), inline_all=bool(mode))
        t=time.time(); TM.reset_budget()
        try:
            r=I.run(f)
            u=sum(v.unk for v in r.values())
            dt=time.time()-t
            if dt>2 or u: print('%s mode%d %.1fs unk=%d'%(q,mode,dt,u))
            if only:
                for k,v in r.items(): print('   ',k,'=',TM.show(v,14)[:3000])
        except (Undecided,TM.TooBig) as e:
            print('UNDEC',q,mode,type(e).__name__,e, '%.1fs'%(time.time()-t)); bad+=1
        except Exception as e:
            bad+=1
            print('ERR',q,mode,type(e).__name__,e)
            if only: traceback.print_exc()
            else:
                tb=traceback.extract_tb(e.__traceback__)[-3:]
                print('     ',[(x.name,x.lineno) for x in tb])
print(len(P.funcs),bad)

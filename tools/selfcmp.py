"""compare every function of two trees in modular mode"""
import sys, time
sys.path.insert(0,'/verif'); sys.dont_write_bytecode=True
from xsa import terms as TM
from xsa.project import Project
from xsa.interp import Interp, Undecided
A=Project(sys.argv[1]); Bp=Project(sys.argv[2]); only=sys.argv[3:]
anch=set(A.funcs)&set(Bp.funcs)
TM.LIMIT[0]=10**7
n=0
t0=time.time()
def run(P,q):
    I=Interp(P,anchors=anch,contract=Interp(A,anchors=anch) if P is not A else None)
    try: return I.run(P.funcs[q])
    except (Undecided,TM.TooBig) as e: return str(e)
for q in sorted(anch):
    if only and not any(o in q for o in only): continue
    TM.reset_budget()
    a,b=run(A,q),run(Bp,q)
    if isinstance(a,str) or isinstance(b,str):
        print('UNDEC',q,a if isinstance(a,str) else '',b if isinstance(b,str) else ''); continue
    if a!=b:
        n+=1
        print('DIFF',q)
        for k in sorted(set(a)|set(b),key=str):
            x,y=a.get(k),b.get(k)
            if x is not y:
                print('   ',k); print('      A',TM.show(x,14)[:600] if x else x); print('      B',TM.show(y,14)[:600] if y else y)
                if x and y:
                    p_,u,v=TM.first_diff(x,y); print('      @',p_[-8:]); print('      a',TM.show(u,9)[:900] if isinstance(u,TM.T) else u); print('      b',TM.show(v,9)[:900] if isinstance(v,TM.T) else v)
print(n,'diffs', time.time()-t0)

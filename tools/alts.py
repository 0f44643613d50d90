"""Behaviour-preserving rewrites of single functions: the checks must be quiet.
alts.py [filter...]   reads /verif/alts/*.txt"""
import ast, glob, os, re, shutil, sys, textwrap, time
sys.path.insert(0,'/verif'); sys.dont_write_bytecode=True
sys.setrecursionlimit(20000)
from xsa import index
from xsa.compare import Pair, EQ, DIFF, UNDEC
SRC='/verif/spec'
verbose='-v' in sys.argv
args=[a for a in sys.argv[1:] if a!='-v']
def load():
    out=[]
    for fn in sorted(glob.glob('/verif/alts/*.txt')):
        cur=None
        for line in open(fn):
            if line.startswith('=== '):
                p=line[4:].split(); cur=[os.path.basename(fn)[:-4]+'#%d'%len(out),p[0],p[1],[],'bad' if 'BAD' in p else 'ok']; out.append(cur)
            elif cur is not None: cur[3].append(line)
    return out
def apply(src, target, code):
    """replace def target (Class.name or name) by code"""
    parts=code.split('--- module\n')
    code=textwrap.dedent(parts[0]); modcode=textwrap.dedent(parts[1]) if len(parts)>1 else ''
    tree=ast.parse(src); lines=src.split('\n')
    names=target.split('.')
    new=ast.parse(code)
    defs={}
    body=tree.body; indent=''
    if len(names)==2:
        c=next(n for n in tree.body if isinstance(n,ast.ClassDef) and n.name==names[0]); body=c.body; indent='    '
    setter=names[-1].endswith('=')
    nm=names[-1].rstrip('=')
    cands=[n for n in body if isinstance(n,ast.FunctionDef) and n.name==nm]
    if setter: cands=[n for n in cands if any(isinstance(d,ast.Attribute) for d in n.decorator_list)]
    else: cands=[n for n in cands if not any(isinstance(d,ast.Attribute) for d in n.decorator_list)]
    n=cands[0]
    start=min([n.lineno]+[d.lineno for d in n.decorator_list])-1
    rep=textwrap.indent(code.strip('\n'),indent).split('\n')
    extra=[]
    # other functions of the file that the code redefines are dropped
    newnames={x.name for x in new.body if isinstance(x,ast.FunctionDef)}-{nm}
    drop=[(start,n.end_lineno)]
    for o in body:
        if isinstance(o,ast.FunctionDef) and o.name in newnames:
            drop.append((min([o.lineno]+[d.lineno for d in o.decorator_list])-1,o.end_lineno))
    out=[]
    for i,l in enumerate(lines):
        if i==start: out+=rep
        if any(a<=i<b for a,b in drop): continue
        out.append(l)
    r='\n'.join(out)
    if modcode:
        t=ast.parse(r)
        # after imports: before the first def/class
        k=next(x for x in t.body if isinstance(x,(ast.FunctionDef,ast.ClassDef)))
        ln=min([k.lineno]+[d.lineno for d in k.decorator_list])-1
        L=r.split('\n'); r='\n'.join(L[:ln]+modcode.split('\n')+L[ln:])
    ast.parse(r)
    return r
tmp='/tmp/alts/%d'%os.getpid(); shutil.rmtree(tmp,ignore_errors=True); shutil.copytree(SRC,tmp)
pair0=None; n=bad=und=miss=0
for name,path,target,code,kind in load():
    if args and not any(a in name or a in target or a in path for a in args): continue
    fp=os.path.join(tmp,path); src=open(os.path.join(SRC,path)).read()
    try: new=apply(src,target,''.join(code))
    except Exception as e: print('ERR',name,target,type(e).__name__,e); continue
    open(fp,'w').write(new)
    mod=path[:-3].replace('/','.')
    n+=1
    try:
        pair=Pair(SRC,tmp,index.is_api,base=pair0)
        if pair0 is None: pair0=pair
        else: pair0.memo.update((k,v) for k,v in pair.memo.items() if k[0] is True)
        res=[]
        for q in sorted(pair.S.funcs):
            if not q.startswith(mod+'.'): continue
            v,how,det=pair.decide(q)
            if v!=EQ: res.append((q,v,how,det))
        for cq in pair.S.classes:
            if cq.startswith(mod+'.'):
                for site,v,how,det in pair.class_members(cq,sorted({x for c in (pair.S.classes[cq],) for k in pair.S.mro(c) if not isinstance(k,str) for d in (k.methods,k.getters) for x in d}),(),None):
                    if v!=EQ: res.append((site,v,how,det))
    except Exception as e:
        import traceback; traceback.print_exc(); print('ERR',name,target,type(e).__name__,e); open(fp,'w').write(src); continue
    open(fp,'w').write(src)
    d=[r for r in res if r[1]==DIFF]
    if kind=='bad':
        if not d: miss+=1; print('MISSED',name,target,res and res[0][:3])
        continue
    if d: bad+=1
    elif res: und+=1
    for q,v,how,det in res:
        print(v.upper(),name,target,'->',q,how)
        if verbose and not isinstance(det,str): print(pair.explain(q,det))
        elif verbose: print('    ',det)
shutil.rmtree(tmp)
print(n,'rewrites',bad,'alarms',und,'undecided',miss,'missed')

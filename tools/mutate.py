"""AST mutants of the package; which ones does no obligation notice?
mutate.py [module-filter] [max]  -- prints undetected mutants."""
import ast, copy, os, sys, random, shutil, difflib, time
sys.path.insert(0,'/verif'); sys.dont_write_bytecode=True
sys.setrecursionlimit(20000)
from xsa import index
from xsa.compare import Pair, EQ, DIFF, UNDEC
from xsa import terms as TM
from xsa.project import Project
from xsa.interp import Interp, Undecided
SRC='/verif/spec'
flt=sys.argv[1] if len(sys.argv)>1 else ''
mx=int(sys.argv[2]) if len(sys.argv)>2 else 10**9
seed=int(sys.argv[3]) if len(sys.argv)>3 else 1

def mutants(tree):
    """yield (desc, lineno, mutated tree)"""
    nodes=[n for n in ast.walk(tree)]
    doc=set()
    for n in nodes:
        if isinstance(n,(ast.FunctionDef,ast.ClassDef,ast.Module)) and n.body and isinstance(n.body[0],ast.Expr) and isinstance(n.body[0].value,ast.Constant): doc.add(id(n.body[0]))
    for idx,n in enumerate(nodes):
        def mk(f):
            t=copy.deepcopy(tree); m=[x for x in ast.walk(t)][idx]; f(m); return ast.fix_missing_locations(t)
        ln=getattr(n,'lineno',0)
        if isinstance(n,ast.Compare) and len(n.ops)==1:
            for a,b in ((ast.Eq,ast.NotEq),(ast.NotEq,ast.Eq),(ast.Lt,ast.LtE),(ast.LtE,ast.Lt),(ast.Gt,ast.GtE),(ast.GtE,ast.Gt),(ast.Is,ast.IsNot),(ast.IsNot,ast.Is),(ast.In,ast.NotIn),(ast.NotIn,ast.In)):
                if isinstance(n.ops[0],a): yield 'cmp',ln,mk(lambda m: m.__setattr__('ops',[b()]))
            if isinstance(n.ops[0],ast.IsNot) and isinstance(n.comparators[0],ast.Constant) and n.comparators[0].value is None:
                def f(m):
                    l=m.left; m.ops=[ast.NotEq()]; m.comparators=[ast.Constant('')]
                yield 'isnone',ln,mk(f)
        if isinstance(n,ast.BoolOp):
            yield 'bool',ln,mk(lambda m: m.__setattr__('op',ast.Or() if isinstance(m.op,ast.And) else ast.And()))
            for i in range(len(n.values)):
                if len(n.values)>1: yield 'dropbool%d'%i,ln,mk(lambda m,i=i: m.values.pop(i) if len(m.values)>2 else m.__setattr__('values',[m.values[1-i],m.values[1-i]]))
        if isinstance(n,ast.UnaryOp) and isinstance(n.op,ast.Not):
            def f(m): m.op=ast.Not(); m.operand=ast.UnaryOp(ast.Not(),m.operand)
            yield 'not',ln,mk(f)
        if isinstance(n,ast.Constant) and ln and not getattr(n,'_doc',0):
            if isinstance(n.value,bool): yield 'const',ln,mk(lambda m: m.__setattr__('value',not m.value))
            elif isinstance(n.value,int): yield 'const',ln,mk(lambda m: m.__setattr__('value',m.value+1))
            elif isinstance(n.value,str): yield 'str',ln,mk(lambda m: m.__setattr__('value',m.value+'X'))
        if isinstance(n,(ast.If,ast.While)) :
            def f(m): m.test=ast.UnaryOp(ast.Not(),m.test)
            yield 'negif',ln,mk(f)
        if hasattr(n,'body') and isinstance(n.body,list):
            for fld in ('body','orelse','finalbody'):
                b=getattr(n,fld,None)
                if not isinstance(b,list): continue
                for i,s in enumerate(b):
                    if id(s) in doc or isinstance(s,(ast.FunctionDef,ast.ClassDef,ast.Import,ast.ImportFrom,ast.Pass)): continue
                    if isinstance(n,(ast.Module,ast.ClassDef)): continue
                    def f(m,fld=fld,i=i): getattr(m,fld)[i]=ast.Pass()
                    yield 'del:'+type(s).__name__,s.lineno,mk(f)
                    if i+1<len(b) and not isinstance(n,(ast.Module,ast.ClassDef)) and id(s) not in doc:
                        def f(m,fld=fld,i=i):
                            x=getattr(m,fld); x[i],x[i+1]=x[i+1],x[i]
                        yield 'swap',s.lineno,mk(f)
        if isinstance(n,ast.Call):
            for i in range(len(n.args)):
                if len(n.args)>1 and i+1<len(n.args):
                    def f(m,i=i): m.args[i],m.args[i+1]=m.args[i+1],m.args[i]
                    yield 'swaparg',ln,mk(f)
            for i in range(len(n.keywords)):
                yield 'dropkw:%s'%n.keywords[i].arg,ln,mk(lambda m,i=i: m.keywords.pop(i))
        if isinstance(n,ast.Continue) : yield 'brk',ln,mk(lambda m: m.__setattr__('__class__',ast.Break))
        if isinstance(n,ast.Break) : yield 'cont',ln,mk(lambda m: m.__setattr__('__class__',ast.Continue))
        if isinstance(n,ast.BinOp) and isinstance(n.op,(ast.Add,ast.Sub)):
            yield 'binop',ln,mk(lambda m: m.__setattr__('op',ast.Sub() if isinstance(m.op,ast.Add) else ast.Add()))
        if isinstance(n,ast.ListComp) and n.generators[0].ifs:
            yield 'dropfilter',ln,mk(lambda m: m.generators[0].ifs.pop())
        if isinstance(n,ast.Return) and n.value is not None and not (isinstance(n.value,ast.Constant) and n.value.value is None):
            yield 'retnone',ln,mk(lambda m: m.__setattr__('value',ast.Constant(None)))

S=Project(SRC)
rng=random.Random(seed)
tmp='/tmp/mut/%d'%os.getpid()
shutil.rmtree(tmp,ignore_errors=True); shutil.copytree(SRC,tmp)
tot=det=und=0; pair0=None
allq={}
for mname in sorted(S.modules):
    if flt and flt not in mname: continue
    m=S.modules[mname]
    rel=os.path.relpath(m.path,SRC) if os.path.isabs(m.path) else m.path
    path=os.path.join(tmp,rel)
    src=open(os.path.join(SRC,rel)).read()
    tree=ast.parse(src)
    base=ast.unparse(tree)
    ms=list(mutants(tree))
    rng.shuffle(ms)
    for kind,ln,t in ms[:mx]:
        try: new=ast.unparse(t)
        except Exception: continue
        if new==base: continue
        with open(path,'w') as f: f.write(new)
        tot+=1
        TM.LIMIT[0]=400000
        try:
            pair=Pair(SRC,tmp,index.is_api,base=pair0,only=mname+'.')
            if pair0 is None: pair0=pair
            else: pair0.memo.update((k,v) for k,v in pair.memo.items() if k[0] is True)
        except Exception as e:
            print('ERR',mname,ln,kind,type(e).__name__,e); continue
        # functions touched by the mutation
        fd=fu=0; why=[]
        for q in pair.S.funcs:
            if not q.startswith(mname+'.'): continue
            v,d,x=pair.decide(q)
            if v==DIFF: fd=1; break
            if v==UNDEC: fu=1; why.append((q,d))
        if fd: det+=1
        else:
            if fu: und+=1
            print('%s %s:%d %s'%('UNDEC' if fu else 'MISS',mname,ln,kind),why[:1])
            a=base.split('\n'); b=new.split('\n')
            for l in difflib.unified_diff(a,b,lineterm='',n=0):
                if l[:2] not in ('--','++','@@'): print('      ',l[:150])
            sys.stdout.flush()
    with open(path,'w') as f: f.write(src)
print('total',tot,'detected',det,'undecided',und)
shutil.rmtree(tmp)

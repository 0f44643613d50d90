"""Mechanical behaviour-preserving transformations, to look for false alarms.
usage: refactor.py SRC DST TRANSFORM"""
import ast, copy, os, shutil, sys

class Base(ast.NodeTransformer):
    def __init__(self): self.n=0; self.new=[]; self.mod=None
    def module(self, tree):
        self.mod=tree
        tree=self.visit(tree)
        # helpers go after the imports/docstring: append at the end
        tree.body.extend(self.new)
        return ast.fix_missing_locations(tree)

def blocks(n):
    for f in ('body','orelse','finalbody'):
        b=getattr(n,f,None)
        if isinstance(b,list): yield f,b

class T1(Base):
    def visit_FunctionDef(self,n):
        self.generic_visit(n)
        i=1 if n.body and isinstance(n.body[0],ast.Expr) and isinstance(n.body[0].value,ast.Constant) else 0
        n.body.insert(i, ast.parse('_unused = None').body[0])
        return n

class T2(Base):
    def visit_If(self,n):
        self.generic_visit(n)
        if n.orelse and not (len(n.orelse)==1 and isinstance(n.orelse[0],ast.If)):
            n.test=ast.UnaryOp(ast.Not(),n.test); n.body,n.orelse=n.orelse,n.body
        return n

class T3(Base):
    def fix(self,body):
        for i,s in enumerate(body):
            if isinstance(s,ast.If) and not s.orelse and isinstance(s.body[-1],(ast.Return,ast.Raise,ast.Continue)) and i+1<len(body):
                s.orelse=self.fix(body[i+1:]); return body[:i+1]
        return body
    def generic_visit(self,n):
        super().generic_visit(n)
        for f,b in blocks(n):
            if isinstance(n,(ast.Module,ast.ClassDef)): continue
            setattr(n,f,self.fix(b))
        return n

class T4(Base):
    def visit_Return(self,n):
        if n.value is None or isinstance(n.value,(ast.Name,ast.Constant)): return n
        return [ast.Assign([ast.Name('result_',ast.Store())],n.value),ast.Return(ast.Name('result_',ast.Load()))]
    def visit_Lambda(self,n): return n

class T5(Base):
    def stmt(self,s):
        if isinstance(s,(ast.Assign,ast.Return)) and isinstance(s.value,ast.ListComp) and len(s.value.generators)==1 :
            lc=s.value; g=lc.generators[0]
            self.n+=1; v='acc_%d'%self.n
            body=[ast.Expr(ast.Call(ast.Attribute(ast.Name(v,ast.Load()),'append',ast.Load()),[lc.elt],[]))]
            for c in reversed(g.ifs): body=[ast.If(c,body,[])]
            s.value=ast.Name(v,ast.Load())
            return [ast.Assign([ast.Name(v,ast.Store())],ast.List([],ast.Load())), ast.For(g.target,g.iter,body,[]), s]
        return [s]
    def generic_visit(self,n):
        super().generic_visit(n)
        if isinstance(n,(ast.Module,ast.ClassDef)): return n
        for f,b in blocks(n):
            setattr(n,f,[y for x in b for y in self.stmt(x)])
        return n

BI=set(dir(__builtins__)) if not isinstance(__builtins__,dict) else set(__builtins__)
def locals_of(fn):
    a=fn.args; s={x.arg for x in a.posonlyargs+a.args+a.kwonlyargs}
    for x in (a.vararg,a.kwarg):
        if x: s.add(x.arg)
    for n in ast.walk(fn):
        if isinstance(n,ast.Name) and isinstance(n.ctx,ast.Store): s.add(n.id)
        if isinstance(n,(ast.FunctionDef,)) and n is not fn: s.add(n.name)
        if isinstance(n,ast.ExceptHandler) and n.name: s.add(n.name)
    return s

class Extract(Base):
    """extract expressions into helper functions at the end of the module"""
    kind='cond'
    def visit_FunctionDef(self,n):
        if getattr(self,'fn',None) is not None: return n
        self.fn=n; self.loc=locals_of(n)
        self.generic_visit(n)
        self.fn=None
        return n
    def ok(self,e):
        if isinstance(e,(ast.Name,ast.Constant)): return False
        for x in ast.walk(e):
            if isinstance(x,(ast.Yield,ast.YieldFrom,ast.NamedExpr,ast.Lambda,ast.Starred)): return False
            if isinstance(x,ast.Call) and isinstance(x.func,ast.Name) and x.func.id=='super': return False
        return True
    def ext(self,e):
        if not self.ok(e) or self.fn is None: return e
        bound=set()
        for x in ast.walk(e):
            if isinstance(x,ast.comprehension):
                for y in ast.walk(x.target):
                    if isinstance(y,ast.Name): bound.add(y.id)
        free=[]
        for x in ast.walk(e):
            if isinstance(x,ast.Name) and x.id in self.loc and x.id not in bound and x.id not in free: free.append(x.id)
        self.n+=1; nm='_helper_%d'%self.n
        args=ast.arguments([],[ast.arg(a) for a in free],None,[],[],None,[])
        self.new.append(ast.FunctionDef(nm,args,[ast.Return(copy.deepcopy(e))],[],None))
        return ast.Call(ast.Name(nm,ast.Load()),[ast.Name(a,ast.Load()) for a in free],[])
class T7(Extract):
    def visit_If(self,n):
        self.generic_visit(n); n.test=self.ext(n.test); return n
class T8(Extract):
    def visit_Return(self,n):
        if n.value is not None: n.value=self.ext(n.value)
        return n
    def visit_Lambda(self,n): return n
class T9(Base):
    """extract the body of for loops (no control flow) into helpers"""
    def visit_FunctionDef(self,n):
        if getattr(self,'fn',None) is not None: return n
        self.fn=n; self.loc=locals_of(n)
        self.generic_visit(n)
        self.fn=None
        return n
    def visit_For(self,n):
        self.generic_visit(n)
        if getattr(self,'fn',None) is None: return n
        for b in n.body:
            for x in ast.walk(b):
                if isinstance(x,(ast.Return,ast.Break,ast.Continue,ast.Yield,ast.YieldFrom,ast.AugAssign,ast.Nonlocal)): return n
                if isinstance(x,ast.Call) and isinstance(x.func,ast.Name) and x.func.id=='super': return n
                if isinstance(x,(ast.Name,)) and isinstance(x.ctx,ast.Store):
                    # stored names must be local to the loop body
                    uses=[y for y in ast.walk(self.fn) if isinstance(y,ast.Name) and y.id==x.id]
                    inb=[y for c in n.body for y in ast.walk(c) if isinstance(y,ast.Name) and y.id==x.id]
                    if len(uses)!=len(inb): return n
        st={x.id for b in n.body for x in ast.walk(b) if isinstance(x,ast.Name) and isinstance(x.ctx,ast.Store)}
        free=[]
        for b in n.body:
            for x in ast.walk(b):
                if isinstance(x,ast.Name) and x.id in self.loc and x.id not in st and x.id not in free: free.append(x.id)
        self.n+=1; nm='_body_%d'%self.n
        args=ast.arguments([],[ast.arg(a) for a in free],None,[],[],None,[])
        self.new.append(ast.FunctionDef(nm,args,n.body,[],None))
        n.body=[ast.Expr(ast.Call(ast.Name(nm,ast.Load()),[ast.Name(a,ast.Load()) for a in free],[]))]
        return n
class T10(Base):
    """rename locals"""
    def visit_FunctionDef(self,n):
        if getattr(self,'in_',False): return n
        params={x.arg for x in ast.walk(n) if isinstance(x,ast.arg)}
        skip=params|{x for m in ast.walk(n) if isinstance(m,(ast.Global,ast.Nonlocal)) for x in m.names}
        skip|={(a.asname or a.name).split('.')[0] for m in ast.walk(n) if isinstance(m,(ast.Import,ast.ImportFrom)) for a in m.names}
        skip|={m.name for m in ast.walk(n) if isinstance(m,ast.FunctionDef)}
        skip|={m.name for m in ast.walk(n) if isinstance(m,ast.ExceptHandler) and m.name}
        loc={x.id for x in ast.walk(n) if isinstance(x,ast.Name) and isinstance(x.ctx,ast.Store)}-skip
        for x in ast.walk(n):
            if isinstance(x,ast.Name) and x.id in loc: x.id=x.id+'_r'
        return n
class T11(Base):
    """swap adjacent independent simple assignments"""
    def generic_visit(self,n):
        super().generic_visit(n)
        if isinstance(n,(ast.Module,ast.ClassDef)): return n
        for f,b in blocks(n):
            i=0
            while i+1<len(b):
                a,c=b[i],b[i+1]
                if all(isinstance(s,ast.Assign) and len(s.targets)==1 and isinstance(s.targets[0],ast.Name) and
                       not any(isinstance(x,(ast.Call,ast.Subscript,ast.Yield)) for x in ast.walk(s.value)) for s in (a,c)):
                    na={x.id for x in ast.walk(a) if isinstance(x,ast.Name)}; nc={x.id for x in ast.walk(c) if isinstance(x,ast.Name)}
                    if a.targets[0].id not in nc and c.targets[0].id not in na:
                        b[i],b[i+1]=c,a; i+=1
                i+=1
        return n
class T12(Base):
    """conditional expression -> if statement"""
    def stmt(self,s):
        if isinstance(s,(ast.Assign,ast.Return)) and isinstance(s.value,ast.IfExp):
            e=s.value; a,b=copy.deepcopy(s),copy.deepcopy(s); a.value=e.body;b.value=e.orelse
            return ast.If(e.test,[a],[b])
        return s
    def generic_visit(self,n):
        super().generic_visit(n)
        if isinstance(n,(ast.Module,ast.ClassDef)): return n
        for f,b in blocks(n): setattr(n,f,[self.stmt(x) for x in b])
        return n
class T13(Base):
    """for x in xs -> for i in range(len(xs_)) with xs_ = list(xs)"""
    def visit_For(self,n):
        self.generic_visit(n)
        for x in ast.walk(n):
            if isinstance(x,ast.Yield): return n
        self.n+=1; v='xs_%d'%self.n; i='i_%d'%self.n
        if isinstance(n.iter,ast.Call) and isinstance(n.iter.func,ast.Name) and n.iter.func.id in('enumerate','range','iter'): return n
        pre=ast.Assign([ast.Name(v,ast.Store())],ast.Call(ast.Name('list',ast.Load()),[n.iter],[]))
        n.body.insert(0,ast.Assign([n.target],ast.Subscript(ast.Name(v,ast.Load()),ast.Name(i,ast.Load()),ast.Load())))
        n.target=ast.Name(i,ast.Store())
        n.iter=ast.parse('range(len(%s))'%v,mode='eval').body
        return [pre,n]
class T14(Base):
    """'{}'.format(a, b) -> f-string"""
    def visit_Call(self,n):
        self.generic_visit(n)
        if isinstance(n.func,ast.Attribute) and n.func.attr=='format' and isinstance(n.func.value,ast.Constant) and isinstance(n.func.value.value,str) and not any(isinstance(a,ast.Starred) for a in n.args) and not any(k.arg is None for k in n.keywords):
            import string
            out=[];auto=0
            kw={k.arg:k.value for k in n.keywords}
            try:
                for lit,fld,spec,conv in string.Formatter().parse(n.func.value.value):
                    if lit: out.append(ast.Constant(lit))
                    if fld is None: continue
                    if spec: return n
                    if fld=='': v=n.args[auto]; auto+=1
                    elif fld.isdigit(): v=n.args[int(fld)]
                    elif fld in kw: v=kw[fld]
                    else: return n
                    out.append(ast.FormattedValue(v,ord(conv) if conv else -1,None))
            except Exception: return n
            return ast.JoinedStr(out)
        return n
class T15(Base):
    def visit_If(self,n):
        self.generic_visit(n)
        if not n.orelse and isinstance(n.test,ast.BoolOp) and isinstance(n.test.op,ast.And):
            vs=n.test.values
            inner=n.body
            for v in reversed(vs[1:]): inner=[ast.If(v,inner,[])]
            n.test=vs[0]; n.body=inner
        return n
class T16(Base):
    def visit_For(self,n):
        self.generic_visit(n)
        if len(n.body)==1 and isinstance(n.body[0],ast.If) and not n.body[0].orelse:
            i=n.body[0]
            n.body=[ast.If(ast.UnaryOp(ast.Not(),i.test),[ast.Continue()],[])]+i.body
        return n
class T17(Base):
    """any/all/next generators in return -> loops"""
    def stmt(self,s):
        if isinstance(s,ast.Return) and isinstance(s.value,ast.Call) and isinstance(s.value.func,ast.Name) and s.value.func.id in('any','all') and isinstance(s.value.args[0],ast.GeneratorExp) and len(s.value.args[0].generators)==1:
            g=s.value.args[0].generators[0]; e=s.value.args[0].elt; any_=s.value.func.id=='any'
            t=e if any_ else ast.UnaryOp(ast.Not(),e)
            body=[ast.If(t,[ast.Return(ast.Constant(any_))],[])]
            for c in reversed(g.ifs): body=[ast.If(c,body,[])]
            return [ast.For(g.target,g.iter,body,[]),ast.Return(ast.Constant(not any_))]
        return [s]
    def generic_visit(self,n):
        super().generic_visit(n)
        if isinstance(n,(ast.Module,ast.ClassDef)): return n
        for f,b in blocks(n): setattr(n,f,[y for x in b for y in self.stmt(x)])
        return n
class T18(Base):
    """f(x) arguments into temporaries"""
    def stmt(self,s):
        out=[]
        if isinstance(s,(ast.Assign,ast.Return,ast.Expr)) and isinstance(s.value,ast.Call) and not (isinstance(s.value.func,ast.Name) and s.value.func.id=='super'):
            c=s.value
            if not isinstance(c.func,(ast.Name,)) and not (isinstance(c.func,ast.Attribute) and isinstance(c.func.value,ast.Name)): return [s]
            for i,a in enumerate(c.args):
                if isinstance(a,(ast.Call,ast.Attribute,ast.BinOp)):
                    self.n+=1; v='arg_%d'%self.n
                    out.append(ast.Assign([ast.Name(v,ast.Store())],a)); c.args[i]=ast.Name(v,ast.Load())
                elif not isinstance(a,(ast.Name,ast.Constant)): break
        return out+[s]
    def generic_visit(self,n):
        super().generic_visit(n)
        if isinstance(n,(ast.Module,ast.ClassDef)): return n
        for f,b in blocks(n): setattr(n,f,[y for x in b for y in self.stmt(x)])
        return n
class T19(Base):
    """De Morgan; comparisons reversed"""
    def visit_BoolOp(self,n):
        self.generic_visit(n); return n
    def visit_If(self,n):
        self.generic_visit(n)
        if isinstance(n.test,ast.BoolOp):
            o=ast.And() if isinstance(n.test.op,ast.Or) else ast.Or()
            n.test=ast.UnaryOp(ast.Not(),ast.BoolOp(o,[ast.UnaryOp(ast.Not(),v) for v in n.test.values]))
        return n
    def visit_Compare(self,n):
        self.generic_visit(n)
        if len(n.ops)==1 and isinstance(n.ops[0],(ast.Eq,ast.NotEq)):
            n.left,n.comparators=n.comparators[0],[n.left]
        return n
class T20(Base):
    """loop with append -> comprehension / extend(generator)"""
    def visit_For(self,n):
        self.generic_visit(n)
        b=n.body; tests=[]
        while len(b)==1 and isinstance(b[0],ast.If) and not b[0].orelse: tests.append(b[0].test); b=b[0].body
        if not n.orelse and len(b)==1 and isinstance(b[0],ast.Expr) and isinstance(b[0].value,ast.Call) and isinstance(b[0].value.func,ast.Attribute) and b[0].value.func.attr=='append' and isinstance(b[0].value.func.value,ast.Name) and len(b[0].value.args)==1:
            c=b[0].value
            ge=ast.GeneratorExp(c.args[0],[ast.comprehension(n.target,n.iter,tests,0)])
            return ast.Expr(ast.Call(ast.Attribute(c.func.value,'extend',ast.Load()),[ge],[]))
        return n
class T21(Base):
    """lambda assigned/passed -> nested def is hard; keyword-ise positional project calls instead: x.y -> getattr? no. swap 'if not a: B else: A'"""
    def visit_IfExp(self,n):
        self.generic_visit(n)
        n.test=ast.UnaryOp(ast.Not(),n.test); n.body,n.orelse=n.orelse,n.body
        return n
class T22(Base):
    """x += y -> x = x + y for names with str/num constants ; for-else etc"""
    def visit_AugAssign(self,n):
        if isinstance(n.target,ast.Name) and isinstance(n.op,ast.Add) and isinstance(n.value,ast.Constant):
            return ast.Assign([n.target],ast.BinOp(ast.Name(n.target.id,ast.Load()),n.op,n.value))
        return n
class T23(Base):
    """extract blocks: the body of an if with only calls/raise into a method-like helper"""
    def visit_FunctionDef(self,n):
        if getattr(self,'fn',None) is not None: return n
        self.fn=n; self.loc=locals_of(n); self.generic_visit(n); self.fn=None
        return n
    def visit_If(self,n):
        self.generic_visit(n)
        if getattr(self,'fn',None) is None: return n
        for b in n.body:
            for x in ast.walk(b):
                if isinstance(x,(ast.Return,ast.Break,ast.Continue,ast.Yield,ast.YieldFrom,ast.AugAssign,ast.Nonlocal,ast.For,ast.FunctionDef,ast.Lambda,ast.Import,ast.ImportFrom)): return n
                if isinstance(x,ast.Call) and isinstance(x.func,ast.Name) and x.func.id=='super': return n
                if isinstance(x,ast.Name) and isinstance(x.ctx,ast.Store): return n
                if isinstance(x,ast.Raise) and x.exc is None: return n
        free=[]
        for b in n.body:
            for x in ast.walk(b):
                if isinstance(x,ast.Name) and x.id in self.loc and x.id not in free: free.append(x.id)
        self.n+=1; nm='_do_%d'%self.n
        args=ast.arguments([],[ast.arg(a) for a in free],None,[],[],None,[])
        self.new.append(ast.FunctionDef(nm,args,n.body,[],None))
        n.body=[ast.Expr(ast.Call(ast.Name(nm,ast.Load()),[ast.Name(a,ast.Load()) for a in free],[]))]
        return n
class T24(Base):
    """split the second half of a function into a helper"""
    def visit_FunctionDef(self,n):
        body=n.body
        i=1 if body and isinstance(body[0],ast.Expr) and isinstance(body[0].value,ast.Constant) else 0
        m=(i+len(body)+1)//2
        if len(body)-i<3: return n
        rest=body[m:]
        gen=False
        for x in ast.walk(n):
            if isinstance(x,(ast.Yield,ast.YieldFrom)): gen=True
            if isinstance(x,(ast.Nonlocal,ast.Import,ast.ImportFrom)): return n
            if isinstance(x,ast.Call) and isinstance(x.func,ast.Name) and x.func.id=='super': return n
        loc=locals_of(n); pre=set()
        for b in body[:m]:
            pre|={x.id for x in ast.walk(b) if isinstance(x,ast.Name) and isinstance(x.ctx,ast.Store)}
            pre|={x.name for x in ast.walk(b) if isinstance(x,ast.FunctionDef)}
        pre|={a.arg for a in n.args.args+n.args.kwonlyargs}
        for a in (n.args.vararg,n.args.kwarg):
            if a: pre.add(a.arg)
        free=[]
        for b in rest:
            for x in ast.walk(b):
                if isinstance(x,ast.Name) and x.id in pre and x.id not in free: free.append(x.id)
        self.n+=1; nm='_rest_%d'%self.n
        args=ast.arguments([],[ast.arg(a) for a in free],None,[],[],None,[])
        self.new.append(ast.FunctionDef(nm,args,rest,[],None))
        c=ast.Call(ast.Name(nm,ast.Load()),[ast.Name(a,ast.Load()) for a in free],[])
        n.body=body[:m]+[ast.Expr(ast.YieldFrom(c)) if gen else ast.Return(c)]
        return n
class T25(Base):
    """d.get(k, v) on .attributes -> conditional"""
    def visit_Call(self,n):
        self.generic_visit(n)
        if isinstance(n.func,ast.Attribute) and n.func.attr=='get' and isinstance(n.func.value,ast.Attribute) and n.func.value.attr in('attributes','_dict','nsmap','_itemdict') and 1<=len(n.args)<=2 and all(isinstance(a,(ast.Name,ast.Constant,ast.Attribute)) for a in n.args):
            d=n.args[1] if len(n.args)>1 else ast.Constant(None)
            return ast.IfExp(ast.Compare(n.args[0],[ast.In()],[n.func.value]),ast.Subscript(n.func.value,n.args[0],ast.Load()),d)
        return n
class T26(Base):
    """attribute loads into locals at first use in function: self.x -> x_ (only when never stored and no calls)"""
    def visit_FunctionDef(self,n):
        if any(isinstance(x,ast.Attribute) and isinstance(x.ctx,ast.Store) for x in ast.walk(n)): return n
        return n
class T27(Base):
    """if x: return A; return B -> return A if x else B"""
    def fix(self,body):
        if len(body)>=2 and isinstance(body[-1],ast.Return) and isinstance(body[-2],ast.If) and not body[-2].orelse and len(body[-2].body)==1 and isinstance(body[-2].body[0],ast.Return) and body[-1].value is not None and body[-2].body[0].value is not None:
            return body[:-2]+[ast.Return(ast.IfExp(body[-2].test,body[-2].body[0].value,body[-1].value))]
        return body
    def generic_visit(self,n):
        super().generic_visit(n)
        if isinstance(n,ast.FunctionDef): n.body=self.fix(n.body)
        return n
ALL={k:v for k,v in globals().items() if k[0]=='T' and k[1:].isdigit()}
def main(src,dst,name):
    if os.path.exists(dst): shutil.rmtree(dst)
    os.makedirs(dst)
    shutil.copytree(os.path.join(src,'xigt'),os.path.join(dst,'xigt'))
    for d,_,fs in os.walk(os.path.join(dst,'xigt')):
        for f in fs:
            if f.endswith('.py'):
                p=os.path.join(d,f); t=ast.parse(open(p).read())
                t=ALL[name]().module(t)
                open(p,'w').write(ast.unparse(t))
if __name__=='__main__': main(*sys.argv[1:4])

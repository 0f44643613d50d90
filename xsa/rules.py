"""Direct rules: facts of the current tree that need no reference.

Each rule is a function of the Pair and returns (number of instances examined,
[(site, text) of each violation], summary for the evidence file).
"""

import ast
import builtins
import importlib
import io
import os
import re
import string
import sys

from .project import Class, Func, dotted, BUILTINS

RULES = {}


def rule(name):
    def deco(f):
        RULES[name] = f
        return f
    return deco


FUNCS = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)
COMPS = (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)


def bound_names(nodes, deep_comp=True):
    """Names bound in this scope (not in nested scopes)."""
    out, decl = set(), set()

    def walk(n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            out.add(n.name)
            for d in n.decorator_list:
                walk(d)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, COMPS):
            # only walrus targets leak out of a comprehension
            for x in ast.walk(n):
                if isinstance(x, ast.NamedExpr):
                    out.add(x.target.id)
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                out.add((a.asname or a.name).split('.')[0])
        elif isinstance(n, (ast.Global, ast.Nonlocal)):
            decl.update(n.names)
        elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            out.add(n.name)
        elif isinstance(n, ast.MatchMapping) and n.rest:
            out.add(n.rest)
        for c in ast.iter_child_nodes(n):
            walk(c)
    for n in nodes:
        walk(n)
    return out - decl, decl


def params(a):
    r = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
    return set(r + [x.arg for x in (a.vararg, a.kwarg) if x])


class NameCheck(object):
    """Every name that is read is bound somewhere visible."""

    def __init__(self, p, m):
        self.p, self.m = p, m
        self.n = 0
        self.bad = []
        top, _ = bound_names(m.tree.body)
        self.top = top | {'__name__', '__file__', '__doc__', '__package__', '__path__', '__spec__', '__builtins__'}
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Global):
                self.top |= set(n.names)
        self.star = False
        for n in m.tree.body:
            if isinstance(n, ast.ImportFrom) and any(a.name == '*' for a in n.names):
                base = n.module
                sub = p.modules.get(base) if not n.level else None
                if sub is None:
                    self.star = True
                else:
                    self.top |= set(sub.names)

    def run(self):
        self.visit_all(self.m.tree.body, [self.top], False, '<module>')
        return self

    def known(self, name, scopes):
        return any(name in s for s in scopes) or name in BUILTINS or hasattr(builtins, name) or self.star

    def visit_all(self, nodes, scopes, guard, where):
        for n in nodes:
            self.visit(n, scopes, guard, where)

    def visit(self, n, scopes, guard, where):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for d in n.decorator_list + n.args.defaults + [x for x in n.args.kw_defaults if x]:
                self.visit(d, scopes, guard, where)
            b, _ = bound_names(n.body)
            b |= params(n.args)
            outer = [s for s in scopes if not isinstance(s, frozenset)]
            self.visit_all(n.body, outer + [b], guard, (where + '.' if where != '<module>' else '') + n.name)
            return
        if isinstance(n, ast.Lambda):
            for d in n.args.defaults + [x for x in n.args.kw_defaults if x]:
                self.visit(d, scopes, guard, where)
            outer = [s for s in scopes if not isinstance(s, frozenset)]
            self.visit(n.body, outer + [params(n.args)], guard, where)
            return
        if isinstance(n, ast.ClassDef):
            for d in n.decorator_list + n.bases + [k.value for k in n.keywords]:
                self.visit(d, scopes, guard, where)
            b, _ = bound_names(n.body)
            self.visit_all(n.body, scopes + [frozenset(b | {'__module__', '__qualname__'})], guard,
                           (where + '.' if where != '<module>' else '') + n.name)
            return
        if isinstance(n, COMPS):
            s = set()
            for g in n.generators:
                s |= bound_names([g.target])[0]
            self.visit(n.generators[0].iter, scopes, guard, where)
            inner = scopes + [s]
            for i, g in enumerate(n.generators):
                if i:
                    self.visit(g.iter, inner, guard, where)
                self.visit_all(g.ifs, inner, guard, where)
            for e in ([n.key, n.value] if isinstance(n, ast.DictComp) else [n.elt]):
                self.visit(e, inner, guard, where)
            return
        if isinstance(n, ast.Try):
            g = guard or any(h.type is None or any(
                isinstance(x, ast.Name) and x.id in ('NameError', 'Exception') for x in ast.walk(h.type)) for h in n.handlers)
            self.visit_all(n.body, scopes, g, where)
            for h in n.handlers:
                if h.type is not None:
                    self.visit(h.type, scopes, guard, where)
                self.visit_all(h.body, scopes, guard, where)
            self.visit_all(n.orelse + n.finalbody, scopes, guard, where)
            return
        if isinstance(n, ast.If) and 'version_info' in ast.dump(n.test):
            self.visit_all(n.body + n.orelse, scopes, True, where)
            return
        if isinstance(n, ast.Name):
            if isinstance(n.ctx, ast.Load):
                self.n += 1
                if not guard and not self.known(n.id, scopes):
                    self.bad.append((self.site(where, n), 'name %r is not defined' % n.id))
            return
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'eval' and n.args \
                and isinstance(n.args[0], ast.Constant) and isinstance(n.args[0].value, str):
            try:
                self.visit(ast.parse(n.args[0].value, mode='eval').body, scopes, guard, where)
            except SyntaxError:
                self.bad.append((self.site(where, n), 'evaluated text does not parse'))
        for c in ast.iter_child_nodes(n):
            self.visit(c, scopes, guard, where)

    def site(self, where, n):
        return '%s.%s (%s:%d)' % (self.m.name, where, self.m.path, getattr(n, 'lineno', 0))


class Unbound(object):
    """Locals that are read where no path has assigned them yet."""

    def __init__(self, m, f, where):
        self.m, self.where = m, where
        self.bad = []
        self.n = 0
        a = f.args
        body = f.body if isinstance(f.body, list) else [ast.Expr(f.body)]
        b, decl = bound_names(body)
        self.locals = (b | params(a)) - decl
        self.loops = []
        self.block(body, set(params(a)))

    def use(self, n, st):
        if n is None or st is None:
            return
        if isinstance(n, FUNCS):
            for d in n.args.defaults + [x for x in n.args.kw_defaults if x]:
                self.use(d, st)
            return
        if isinstance(n, COMPS):
            self.use(n.generators[0].iter, st)
            inner = set()
            for g in n.generators:
                inner |= bound_names([g.target])[0]
            if any(isinstance(x, ast.NamedExpr) for x in ast.walk(n)):
                return
            s2 = st | inner
            for i, g in enumerate(n.generators):
                if i:
                    self.use(g.iter, s2)
                for t in g.ifs:
                    self.use(t, s2)
            for e in ([n.key, n.value] if isinstance(n, ast.DictComp) else [n.elt]):
                self.use(e, s2)
            return
        if isinstance(n, ast.NamedExpr):
            self.use(n.value, st)
            st.add(n.target.id)
            return
        if isinstance(n, ast.Name):
            if isinstance(n.ctx, ast.Load) and n.id in self.locals:
                self.n += 1
                if n.id not in st:
                    self.bad.append(('%s.%s (%s:%d)' % (self.m.name, self.where, self.m.path, n.lineno),
                                     'local %r is read before anything is assigned to it' % n.id))
            elif isinstance(n.ctx, ast.Store):
                st.add(n.id)
            elif isinstance(n.ctx, ast.Del):
                st.discard(n.id)
            return
        for c in ast.iter_child_nodes(n):
            self.use(c, st)

    def block(self, stmts, st):
        """May-assigned set after the block; None if the end is unreachable."""
        for s in stmts:
            if st is None:
                return None
            st = self.stmt(s, st)
        return st

    @staticmethod
    def join(*ss):
        ss = [s for s in ss if s is not None]
        return set().union(*ss) if ss else None

    def stmt(self, s, st):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            for d in s.decorator_list:
                self.use(d, st)
            if not isinstance(s, ast.ClassDef):
                self.use(ast.Lambda(s.args, ast.Constant(0)), st)
            st.add(s.name)
            return st
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            for a in s.names:
                st.add((a.asname or a.name).split('.')[0])
            return st
        if isinstance(s, (ast.Return, ast.Raise)):
            for c in ast.iter_child_nodes(s):
                self.use(c, st)
            self.exits(st)
            return None
        if isinstance(s, (ast.Break, ast.Continue)):
            if self.loops:
                self.loops[-1].append(set(st))
            return None
        if isinstance(s, ast.If):
            self.use(s.test, st)
            return self.join(self.block(s.body, set(st)), self.block(s.orelse, set(st)))
        if isinstance(s, (ast.For, ast.AsyncFor, ast.While)):
            if isinstance(s, ast.While):
                self.use(s.test, st)
                target = []
            else:
                self.use(s.iter, st)
                target = [s.target]
            cur = set(st)
            quiet = self.bad
            for i in range(2):
                self.bad = [] if i == 0 else quiet
                self.loops.append([])
                inner = set(cur)
                for t in target:
                    self.use(t, inner)
                if isinstance(s, ast.While) and i:
                    self.use(s.test, inner)
                e = self.block(s.body, inner)
                cur = self.join(cur, e, *self.loops.pop())
            self.bad = quiet
            o = self.block(s.orelse, set(cur)) if s.orelse else cur
            if isinstance(s, ast.While) and isinstance(s.test, ast.Constant) and s.test.value:
                return cur
            return self.join(o, cur)
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                self.use(i.context_expr, st)
                if i.optional_vars is not None:
                    self.use(i.optional_vars, st)
            return self.block(s.body, st)
        if isinstance(s, ast.Try):
            start = set(st)
            assigned = bound_names(s.body)[0]
            e = self.block(s.body, set(st))
            if s.orelse and e is not None:
                e = self.block(s.orelse, e)
            outs = [e]
            for h in s.handlers:
                hs = start | assigned
                self.use(h.type, hs)
                if h.name:
                    hs.add(h.name)
                hs = self.block(h.body, hs)
                if h.name and hs is not None:
                    hs.discard(h.name)
                outs.append(hs)
            out = self.join(*outs)
            if s.finalbody:
                f = self.block(s.finalbody, set(out) if out is not None else start | assigned)
                return f if out is not None else None
            return out
        if isinstance(s, ast.Assign):
            self.use(s.value, st)
            for t in s.targets:
                self.use(t, st)
            return st
        if isinstance(s, ast.AugAssign):
            if isinstance(s.target, ast.Name):
                self.use(ast.copy_location(ast.Name(s.target.id, ast.Load()), s.target), st)
            self.use(s.value, st)
            self.use(s.target, st)
            return st
        if isinstance(s, ast.AnnAssign):
            self.use(s.value, st)
            if s.value is not None:
                self.use(s.target, st)
            return st
        if hasattr(ast, 'Match') and isinstance(s, ast.Match):
            self.use(s.subject, st)
            outs = [set(st)]
            for c in s.cases:
                x = set(st) | bound_names([c.pattern])[0]
                self.use(c.guard, x)
                outs.append(self.block(c.body, x))
            return self.join(*outs)
        for c in ast.iter_child_nodes(s):
            self.use(c, st)
        return st

    def exits(self, st):
        pass


def scopes_of(m):
    """(dotted name, function node, class name or None) of every function."""
    out = []

    def walk(n, path, cls):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef)):
                out.append(('.'.join(path + [c.name]), c, cls))
                walk(c, path + [c.name], cls)
            elif isinstance(c, ast.Lambda):
                out.append(('.'.join(path + ['<lambda>']), c, cls))
                walk(c, path, cls)
            elif isinstance(c, ast.ClassDef):
                walk(c, path + [c.name], c)
            else:
                walk(c, path, cls)
    walk(m.tree, [], None)
    return out


# ------------------------------------------------------------------ attributes

EXT_TYPES = (object, str, bytes, int, float, list, tuple, dict, set, frozenset, type, Exception, OSError,
             UnicodeDecodeError, SystemExit, io.StringIO, io.TextIOWrapper, io.BufferedReader, slice, range)


def stdlib(name):
    top = name.split('.')[0]
    if top not in sys.stdlib_module_names:
        return None
    try:
        return importlib.import_module(name)
    except Exception:
        return None


def attr_universe(p, ref):
    """Every attribute name that some object of the program can have."""
    U = set()
    for t in EXT_TYPES:
        U |= set(dir(t))
    U |= set(dir(re.compile(''))) | set(dir(re.match('', ''))) | set(dir(ast.parse)) | set(dir(os))
    import argparse
    import collections
    import xml.etree.ElementTree as ET
    for t in (argparse.ArgumentParser, argparse.Namespace(), argparse.Action, collections.deque, collections.Counter,
              collections.OrderedDict, ET.Element, ET.Element('a'), ET.ElementTree):
        U |= set(dir(t))
    for q in (p, ref):
        for m in q.modules.values():
            U |= set(m.names)
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                    U.add(n.attr)
                elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                    U.add(n.name)
                elif isinstance(n, ast.Call):
                    for a in list(n.args) + [k.value for k in n.keywords]:
                        if isinstance(a, ast.Constant) and isinstance(a.value, str):
                            s = a.value.lstrip('-').replace('-', '_')
                            if s.isidentifier():
                                U.add(s)
                    for k in n.keywords:
                        if k.arg:
                            U.add(k.arg)
                elif isinstance(n, ast.ClassDef):
                    U |= bound_names(n.body)[0]
        for c in q.classes.values():
            U |= set(c.methods) | set(c.getters) | set(c.attrs)
    for m in ref.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute):
                U.add(n.attr)
    return U


def class_universe(p, c):
    """Attributes of instances of c or of its subclasses; None if unknown."""
    out = set()
    fam = {c.qual}
    for d in p.classes.values():
        if any(isinstance(k, Class) and k is c for k in p.mro(d)):
            fam.add(d.qual)
    seen = set()
    for q in fam:
        for k in p.mro(p.classes[q]):
            if isinstance(k, Class):
                if k.qual in seen:
                    continue
                seen.add(k.qual)
                out |= set(k.methods) | set(k.getters) | set(k.setters) | set(k.attrs)
                out |= bound_names(k.node.body)[0]
                for n in ast.walk(k.node):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                        out.add(n.attr)
                    elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'setattr':
                        return None
                if '__getattr__' in out or '__slots__' in k.attrs:
                    return None
            else:
                name = str(k).split('.')[-1]
                t = getattr(builtins, name, None)
                if t is None:
                    if str(k).startswith('argparse.'):
                        import argparse
                        t = argparse.Action('', 'x') if name == 'Action' else getattr(argparse, name, None)
                    if t is None:
                        return None
                out |= set(dir(t))
    return out | set(dir(object)) | {'__dict__', '__name__'} | stored(p)


def stored(p):
    """Attribute names that are assigned to some object anywhere."""
    if not hasattr(p, '_stored'):
        p._stored = {n.attr for m in p.modules.values() for n in ast.walk(m.tree)
                     if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store)}
    return p._stored


def calls_ok(f, nargs, kws, skip):
    """Does a call with these arguments fit the signature?"""
    a = f.node.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    po = [x.arg for x in a.posonlyargs]
    if skip:
        pos = pos[1:]
    if nargs > len(pos) and not a.vararg:
        return 'takes %d positional arguments, %d given' % (len(pos), nargs)
    got = set(pos[:nargs])
    kwo = [x.arg for x in a.kwonlyargs]
    for k in kws:
        if k in got:
            return 'argument %r given twice' % k
        if (k not in pos or k in po) and k not in kwo and not a.kwarg:
            return 'no argument %r' % k
        got.add(k)
    need = pos[:len(pos) - len(a.defaults)] if a.defaults else pos
    need = list(need) + [k.arg for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is None]
    miss = [n for n in need if n not in got]
    if miss:
        return 'missing argument %s' % ', '.join(repr(x) for x in miss)
    return None


def fixed_args(n):
    if any(isinstance(a, ast.Starred) for a in n.args) or any(k.arg is None for k in n.keywords):
        return None
    return len(n.args), [k.arg for k in n.keywords]


@rule('names')
def names(pair):
    p = pair.R
    bad = []
    for path, e in p.errors:
        bad.append((path, 'does not compile: %s' % e))
    cnt = dict(names=0, locals=0, imports=0, attributes=0, calls=0, formats=0)
    U = attr_universe(p, pair.S)
    for m in sorted(p.modules.values(), key=lambda m: m.name):
        c = NameCheck(p, m).run()
        cnt['names'] += c.n
        bad += c.bad
        for where, f, cls in scopes_of(m):
            u = Unbound(m, f, where)
            cnt['locals'] += u.n
            bad += u.bad
        bad += imports(p, m, cnt)
        bad += attributes(p, m, U, cnt)
    return sum(cnt.values()), sorted(set(bad)), cnt


def guarded(tree, kinds):
    """Nodes inside a try that handles one of kinds."""
    out = set()
    for t in ast.walk(tree):
        if isinstance(t, ast.Try) and any(
                h.type is None or any(isinstance(x, (ast.Name, ast.Attribute)) and
                                      (x.id if isinstance(x, ast.Name) else x.attr) in kinds
                                      for x in ast.walk(h.type)) for h in t.handlers):
            for s in t.body:
                out.update(ast.walk(s))
    return out


def imports(p, m, cnt):
    bad = []
    soft = guarded(m.tree, ('ImportError', 'ModuleNotFoundError', 'Exception'))
    for t in ast.walk(m.tree):
        # the fallback branch of a guarded import
        if isinstance(t, ast.Try) and any(isinstance(x, (ast.Import, ast.ImportFrom)) for x in t.body):
            for h in t.handlers:
                for s in h.body:
                    soft.update(ast.walk(s))
    for n in ast.walk(m.tree):
        if not isinstance(n, (ast.Import, ast.ImportFrom)) or n in soft:
            continue
        site = '%s (%s:%d)' % (m.name, m.path, n.lineno)
        if isinstance(n, ast.Import):
            for a in n.names:
                cnt['imports'] += 1
                top = a.name.split('.')[0]
                if top in ('xigt',):
                    if a.name not in p.modules:
                        bad.append((site, 'no module %s' % a.name))
                elif top in sys.stdlib_module_names and stdlib(a.name) is None:
                    bad.append((site, 'no module %s' % a.name))
            continue
        mod = n.module or ''
        if n.level:
            pkg = m.name.split('.')
            if not m.is_pkg:
                pkg = pkg[:-1]
            pkg = pkg[:len(pkg) - (n.level - 1)]
            mod = '.'.join(pkg + ([mod] if mod else []))
        for a in n.names:
            cnt['imports'] += 1
            if a.name == '*':
                continue
            if mod in p.modules:
                if p.lookup(mod, a.name) is None and mod + '.' + a.name not in p.modules:
                    bad.append((site, '%s does not define %s' % (mod, a.name)))
            elif mod.split('.')[0] == 'xigt':
                bad.append((site, 'no module %s' % mod))
            else:
                x = stdlib(mod)
                if mod.split('.')[0] in sys.stdlib_module_names and (
                        x is None or not hasattr(x, a.name) and stdlib(mod + '.' + a.name) is None):
                    bad.append((site, '%s does not define %s' % (mod, a.name)))
    return bad


def attributes(p, m, U, cnt):
    bad = []
    soft = guarded(m.tree, ('AttributeError', 'NameError', 'Exception', 'TypeError'))

    def walk(n, where, cls, shadow, me):
        if isinstance(n, ast.ClassDef):
            c = p.classes.get(m.name + '.' + n.name)
            for x in n.body:
                walk(x, (where + '.' if where else '') + n.name, c, shadow, None)
            return
        if isinstance(n, FUNCS):
            body = n.body if isinstance(n.body, list) else [n.body]
            sh = shadow | params(n.args) | bound_names(body)[0]
            if not isinstance(n, ast.Lambda):
                deco = {d.id for d in n.decorator_list if isinstance(d, ast.Name)}
                if cls is not None and me is None and n.args.args and 'staticmethod' not in deco:
                    me = (n.args.args[0].arg, cls, 'classmethod' in deco)
                    if any(isinstance(x, ast.Name) and x.id == me[0] and isinstance(x.ctx, ast.Store) for x in ast.walk(n)):
                        me = None
                where = (where + '.' if where else '') + n.name
            for d in n.args.defaults:
                walk(d, where, cls, shadow, None)
            for x in body:
                walk(x, where, cls, sh, me)
            return
        if isinstance(n, COMPS):
            shadow = shadow | set().union(*[bound_names([g.target])[0] for g in n.generators])
        site = '%s.%s (%s:%d)' % (m.name, where or '<module>', m.path, getattr(n, 'lineno', 0))
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and n not in soft:
            cnt['attributes'] += 1
            d = dotted(n)
            head = d.split('.')[0] if d else None
            if n.attr not in U:
                bad.append((site, 'no object has an attribute %r' % n.attr))
            elif me is not None and isinstance(n.value, ast.Name) and n.value.id == me[0]:
                cu = class_universe(p, me[1])
                if cu is not None and n.attr not in cu:
                    bad.append((site, '%s objects have no attribute %r' % (me[1].qual, n.attr)))
            elif d and head not in shadow:
                base = p.resolve_dotted(m.name, d.rsplit('.', 1)[0])
                if base is not None and base[0] == 'module':
                    if base[1] in p.modules and p.lookup(base[1], n.attr) is None \
                            and base[1] + '.' + n.attr not in p.modules:
                        bad.append((site, 'module %s does not define %r' % (base[1], n.attr)))
                elif base is not None and base[0] == 'ext':
                    x = stdlib(base[1])
                    if x is not None and not hasattr(x, n.attr) and stdlib(base[1] + '.' + n.attr) is None:
                        bad.append((site, 'module %s does not define %r' % (base[1], n.attr)))
        elif isinstance(n, ast.Call):
            fa = fixed_args(n)
            f, skip = target(n.func, shadow, me)
            if f is not None and fa is not None:
                cnt['calls'] += 1
                for g in f:
                    why = calls_ok(g, fa[0], fa[1], skip)
                    if why is None:
                        break
                else:
                    bad.append((site, 'call of %s: %s' % (f[0].qual, why)))
            fmt = format_args(n)
            if fmt is not None:
                cnt['formats'] += 1
                if fmt:
                    bad.append((site, fmt))
        elif isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mod):
            fmt = percent_args(n)
            if fmt is not None:
                cnt['formats'] += 1
                if fmt:
                    bad.append((site, fmt))
        for c in ast.iter_child_nodes(n):
            walk(c, where, cls, shadow, me)

    def target(fn, shadow, me):
        """Project functions a call can reach: (candidates, self is implied)."""
        d = dotted(fn)
        if d and d.split('.')[0] not in shadow:
            r = p.resolve_dotted(m.name, d)
            if r is not None and r[0] == 'func' and isinstance(r[1], Func):
                skip = False
                return [r[1]], skip
            if r is not None and r[0] == 'class':
                i = p.find_method(r[1], '__init__')
                return ([i], True) if isinstance(i, Func) else (None, False)
            if '.' in d:
                c = p.resolve_dotted(m.name, d.rsplit('.', 1)[0])
                if c is not None and c[0] == 'class':
                    i = p.find_method(c[1], d.rsplit('.', 1)[1])
                    return ([i], 'classmethod' in i.decos) if isinstance(i, Func) else (None, False)
            if r is not None:
                return None, False
        if isinstance(fn, ast.Attribute):
            name = fn.attr
            if me is not None and isinstance(fn.value, ast.Name) and fn.value.id == me[0]:
                # self.m(): the definition in any class of the family
                out = []
                for c in p.classes.values():
                    if any(isinstance(k, Class) and k is me[1] for k in p.mro(c)):
                        i = p.find_method(c, name)
                        if not isinstance(i, Func):
                            return None, False
                        out.append(i)
                return (out or None), True
            from .calls import COMMON
            if name in p.by_method and name not in COMMON and not isinstance(fn.value, ast.Constant):
                fs = list(p.by_method[name])
                if any('staticmethod' in f.decos for f in fs):
                    return None, False
                return fs, True
        return None, False

    for s in m.tree.body:
        walk(s, '', None, set(), None)
    return bad


def format_args(n):
    """'...'.format(...) with too few arguments: message, '' if fine, None if
    it is not such a call."""
    if not (isinstance(n.func, ast.Attribute) and n.func.attr == 'format' and isinstance(n.func.value, ast.Constant)
            and isinstance(n.func.value.value, str)):
        return None
    if any(isinstance(a, ast.Starred) for a in n.args) or any(k.arg is None for k in n.keywords):
        return None
    kws = {k.arg for k in n.keywords}
    auto = 0
    try:
        fields = []

        def rec(s):
            for lit, fld, spec, conv in string.Formatter().parse(s):
                if fld is not None:
                    fields.append(fld)
                    if spec:
                        rec(spec)
        rec(n.func.value.value)
    except ValueError as e:
        return 'malformed format string: %s' % e
    for f in fields:
        head = re.split(r'[.\[]', f, maxsplit=1)[0]
        if head == '':
            auto += 1
            if auto > len(n.args):
                return 'format string needs more than %d arguments' % len(n.args)
        elif head.isdigit():
            if int(head) >= len(n.args):
                return 'format string needs more than %d arguments' % len(n.args)
        elif head not in kws:
            return 'format string needs an argument %r' % head
    return ''


def percent_args(n):
    if not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
        return None
    specs = re.findall(r'%(?:\((\w+)\))?[#0\- +]*(?:\*|\d+)?(?:\.\d+)?([a-zA-Z%])', n.left.value)
    pos = [s for s in specs if s[1] != '%']
    if any(s[0] for s in pos):
        return ''
    if isinstance(n.right, ast.Tuple):
        if any(isinstance(e, ast.Starred) for e in n.right.elts):
            return None
        if len(pos) != len(n.right.elts):
            return 'format string needs %d arguments, %d given' % (len(pos), len(n.right.elts))
        return ''
    if isinstance(n.right, (ast.Constant, ast.JoinedStr)) and len(pos) != 1:
        return 'format string needs %d arguments, 1 given' % len(pos)
    return ''


@rule('errors')
def errors(pair):
    """Exceptions of the package are still caught by whoever catches what they
    derive from (compared with the reference)."""
    S, R = pair.S, pair.R
    bad, n = [], 0

    def mro(p, c):
        return [k.qual if isinstance(k, Class) else k for k in p.mro(c)]
    for q, c in sorted(S.classes.items()):
        m = mro(S, c)
        if not any(k in ('builtins.Exception', 'builtins.Warning', 'builtins.BaseException') for k in m):
            continue
        n += 1
        d = R.lookup(q.rpartition('.')[0], q.rpartition('.')[2])
        if d is None or d[0] != 'class':
            bad.append((q, 'exception class no longer exists'))
            continue
        lost = [k for k in m if k not in mro(R, d[1]) and not (k == q)]
        if lost:
            bad.append(('%s:%s' % (d[1].mod.path, d[1].node.lineno),
                        '%s is no longer a %s' % (q, ', '.join(lost))))
    return n, bad, {'exception classes': n}


EXPORTING = ('xigt', 'xigt.codecs', 'xigt.errors', 'xigt.consts', 'xigt.__about__')


@rule('exports')
def exports(pair):
    """Names that the package offers for import still exist."""
    bad, n = [], 0
    for mod in EXPORTING:
        m = pair.S.modules.get(mod)
        if m is None:
            continue
        for name in sorted(m.names):
            if name == '*' or name.startswith('_') and not name.startswith('__'):
                continue
            a = pair.S.lookup(mod, name)
            if a is None or a[0] in ('ext', 'module'):
                continue
            n += 1
            b = pair.R.lookup(mod, name)
            if b is None:
                bad.append((mod, 'the package no longer offers %s.%s' % (mod, name)))
            elif a[0] in ('func', 'class') and (b[0] != a[0] or b[1].qual != a[1].qual) and \
                    not (b[0] == a[0] and a[1].qual not in (pair.R.funcs if a[0] == 'func' else pair.R.classes)):
                bad.append((mod, '%s.%s is %s, not %s' % (mod, name, getattr(b[1], 'qual', b[1]), a[1].qual)))
    return n, bad, {'names offered': n}


@rule('aliases')
def aliases(pair):
    """Public second names of functions still mean the same functions."""
    bad, n = [], 0
    for m in pair.S.modules.values():
        for name in sorted(m.names):
            a = pair.S.lookup(m.name, name)
            if name.startswith('_') or a is None or a[0] != 'func' or a[1].mod is not m or \
                    a[1].qual == m.name + '.' + name:
                continue
            n += 1
            b = pair.R.lookup(m.name, name) if m.name in pair.R.modules else None
            if b is None:
                bad.append((m.name, '%s is gone' % name))
            elif b[0] == 'func' and b[1].qual != a[1].qual and b[1].qual in pair.S.funcs and \
                    a[1].qual in pair.R.funcs:
                bad.append(('%s:%s' % (b[1].mod.path, b[1].node.lineno),
                            '%s.%s is %s, not %s' % (m.name, name, b[1].qual, a[1].qual)))
    return n, bad, {'second names': n}


def main_test(t):
    """True: the branch runs when the file is the program; False: when it is
    imported; None: not about that."""
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        v = main_test(t.operand)
        return None if v is None else not v
    if isinstance(t, ast.Compare) and len(t.ops) == 1:
        l, r = t.left, t.comparators[0]
        if isinstance(r, ast.Name):
            l, r = r, l
        if isinstance(l, ast.Name) and l.id == '__name__' and isinstance(r, ast.Constant):
            if isinstance(t.ops[0], (ast.Eq, ast.Is)):
                return True if r.value == '__main__' else None
            if isinstance(t.ops[0], (ast.NotEq, ast.IsNot)):
                return False if r.value == '__main__' else None
    return None


def started(p, m):
    """(as program, on import): functions of the package that the top level of
    m calls."""
    prog, imp = set(), set()

    def calls(n, into):
        stack = [n]
        while stack:
            x = stack.pop()
            if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
                continue
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Name):
                a = p.lookup(m.name, x.func.id)
                if a is not None and a[0] == 'func':
                    for s in into:
                        s.add(a[1].qual)
            stack += list(ast.iter_child_nodes(x))

    def walk(body, into):
        for s in body:
            if isinstance(s, ast.If):
                v = main_test(s.test)
                if '__name__' in {x.id for x in ast.walk(s.test) if isinstance(x, ast.Name)}:
                    walk(s.body, [prog] if v is True else [imp] if v is False else [])
                    walk(s.orelse, [imp] if v is True else [prog] if v is False else into)
                    continue
                calls(s.test, into)
                walk(s.body, into)
                walk(s.orelse, into)
            elif isinstance(s, ast.Try):
                for b in (s.body, s.orelse, s.finalbody):
                    walk(b, into)
            elif isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom)):
                pass
            else:
                calls(s, into)
    walk(m.tree.body, [prog, imp])
    return prog - imp, imp


@rule('entry')
def entry(pair):
    """A module that is a program starts its main function when it is run, and
    none does on import."""
    bad, n = [], 0
    for name, m in sorted(pair.R.modules.items()):
        ref = pair.S.modules.get(name)
        prog, imp = started(pair.R, m)
        sprog, simp = started(pair.S, ref) if ref is not None else (set(), set())
        n += 1
        for q in sorted(imp):
            if q.rsplit('.', 1)[1] in ('main', 'run') and q not in simp:
                bad.append((name, 'importing the module calls %s' % q))
        for q in sorted(sprog):
            if q.rsplit('.', 1)[1] == 'main' and q in pair.R.funcs and not (prog | imp):
                bad.append((name, 'running the module as a program no longer calls %s' % q))
    return n, bad, {'modules': n}

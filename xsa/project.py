"""Source model: modules, name resolution, classes and their MRO."""

import ast
import builtins
import os

from .norm import normalise

BUILTINS = set(dir(builtins))


class Func(object):
    def __init__(self, mod, node, cls=None, qual=None):
        self.mod, self.node, self.cls = mod, node, cls
        self.qual = qual
        self.is_gen = _has_yield(node)
        self.decos = [ast.unparse(d) for d in getattr(node, 'decorator_list', [])]

    @property
    def name(self):
        return self.node.name

    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args]

    def where(self):
        return '%s:%d %s' % (self.mod.path, self.node.lineno, self.qual)

    def __repr__(self):
        return '<Func %s>' % self.qual


def _has_yield(node):
    todo = list(node.body) if isinstance(node.body, list) else [node.body]
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef,
                          ast.AsyncFunctionDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))
    return False


class Class(object):
    def __init__(self, mod, node):
        self.mod, self.node = mod, node
        self.qual = mod.name + '.' + node.name
        self.methods = {}
        self.getters = {}
        self.setters = {}
        self.attrs = {}
        self.bases = []
        self.mro = None

    def __repr__(self):
        return '<Class %s>' % self.qual


class Module(object):
    def __init__(self, name, path, relpath, src):
        self.name, self.path, self.src = name, relpath, src
        self.file = path
        self.error = None
        try:
            self.tree = normalise(ast.parse(src, path))
        except (SyntaxError, ValueError) as e:
            # a module that does not compile defines nothing
            self.error = '%s (line %s)' % (getattr(e, 'msg', e), getattr(e, 'lineno', '?'))
            self.tree = ast.parse('')
        self.names = {}      # name -> ('func',F) ('class',C) ('mod',n) ('from',m,n) ('expr',node)
        self.multi = {}
        self.mutated = set()
        self.is_pkg = os.path.basename(path) == '__init__.py'


class Project(object):
    def __init__(self, root, package='xigt'):
        self.root = root
        self.modules = {}
        self.errors = []
        self.funcs = {}
        self.classes = {}
        self.files = []
        base = os.path.join(root, package)
        for d, dirs, files in sorted(os.walk(base)):
            dirs[:] = sorted(x for x in dirs if x != '__pycache__')
            for f in sorted(files):
                if f.endswith('.py'):
                    p = os.path.join(d, f)
                    rel = os.path.relpath(p, root)
                    parts = rel[:-3].split(os.sep)
                    if parts[-1] == '__init__':
                        parts.pop()
                    name = '.'.join(parts)
                    with open(p, 'rb') as fh:
                        src = fh.read()
                    m = Module(name, p, rel, src)
                    self.modules[name] = m
                    if m.error:
                        self.errors.append((rel, m.error))
                    self.files.append(rel)
        for m in self.modules.values():
            self._collect(m, m.tree.body)
        for m in list(self.modules.values()):
            self._mutated(m)
        for c in list(self.classes.values()):
            self._bases(c)
        for c in self.classes.values():
            self.mro(c)
        self._method_index()

    # -- collection

    def _collect(self, m, body):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = Func(m, st, None, m.name + '.' + st.name)
                m.names[st.name] = ('func', f)
                self.funcs[f.qual] = f
            elif isinstance(st, ast.ClassDef):
                c = Class(m, st)
                self._class_body(c, st.body)
                m.names[st.name] = ('class', c)
                self.classes[c.qual] = c
            elif isinstance(st, ast.Import):
                for a in st.names:
                    if a.asname:
                        m.names[a.asname] = ('mod', a.name)
                    else:
                        m.names[a.name.split('.')[0]] = ('mod', a.name.split('.')[0])
            elif isinstance(st, ast.ImportFrom):
                mod = st.module or ''
                if st.level:
                    pkg = m.name.split('.')
                    if not m.is_pkg:
                        pkg = pkg[:-1]
                    pkg = pkg[:len(pkg) - (st.level - 1)]
                    mod = '.'.join(pkg + ([mod] if mod else []))
                for a in st.names:
                    if a.name == '*':
                        m.names['*'] = ('star', mod)
                    else:
                        m.names[a.asname or a.name] = ('from', mod, a.name)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        m.names[t.id] = ('expr', st.value)
                        m.multi[t.id] = m.multi.get(t.id, 0) + 1
                    elif isinstance(t, (ast.Tuple, ast.List)):
                        for i, e in enumerate(t.elts):
                            if isinstance(e, ast.Name):
                                m.names[e.id] = ('expr', ast.Subscript(
                                    value=st.value, slice=ast.Constant(i),
                                    ctx=ast.Load()))
            elif isinstance(st, ast.AnnAssign):
                if isinstance(st.target, ast.Name) and st.value is not None:
                    m.names[st.target.id] = ('expr', st.value)
            elif isinstance(st, ast.AugAssign):
                if isinstance(st.target, ast.Name):
                    m.mutated.add(st.target.id)
            elif isinstance(st, ast.Try):
                for h in st.handlers:
                    self._collect(m, h.body)
                self._collect(m, st.body)
                self._collect(m, st.orelse)
                self._collect(m, st.finalbody)
            elif isinstance(st, ast.If):
                self._collect(m, st.orelse)
                self._collect(m, st.body)
            elif isinstance(st, (ast.For, ast.While, ast.With)):
                if isinstance(st, ast.For):
                    for n in ast.walk(st.target):
                        if isinstance(n, ast.Name):
                            m.names.setdefault(n.id, ('opaque',))
                self._collect(m, st.body)

    def _class_body(self, c, body):
        m = c.mod
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = Func(m, st, c, c.qual + '.' + st.name)
                kind = 'method'
                for d in st.decorator_list:
                    if isinstance(d, ast.Name) and d.id == 'property':
                        kind = 'getter'
                    elif isinstance(d, ast.Attribute) and d.attr == 'setter':
                        kind = 'setter'
                    elif isinstance(d, ast.Attribute) and d.attr in ('getter', 'deleter'):
                        kind = 'other'
                if kind == 'getter':
                    c.getters[st.name] = f
                    self.funcs[f.qual] = f
                elif kind == 'setter':
                    f.qual += '.setter'
                    c.setters[st.name] = f
                    self.funcs[f.qual] = f
                elif kind == 'method':
                    c.methods[st.name] = f
                    self.funcs[f.qual] = f
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        v = st.value
                        # name = property(getter, setter)
                        if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) \
                                and v.func.id == 'property':
                            for i, a in enumerate(v.args[:2]):
                                if isinstance(a, ast.Name) and a.id in c.methods:
                                    (c.getters if i == 0 else c.setters)[t.id] = c.methods[a.id]
                                elif isinstance(a, ast.Lambda):
                                    f = Func(m, a, c, c.qual + '.' + t.id)
                                    (c.getters if i == 0 else c.setters)[t.id] = f
                        elif isinstance(v, ast.Name) and v.id in c.methods:
                            c.methods[t.id] = c.methods[v.id]
                        else:
                            c.attrs[t.id] = v
            elif isinstance(st, ast.AnnAssign):
                if isinstance(st.target, ast.Name) and st.value is not None:
                    c.attrs[st.target.id] = st.value
            elif isinstance(st, (ast.If, ast.Try)):
                self._class_body(c, st.body)

    def _mutated(self, m):
        """Module-level names whose object is mutated somewhere in the project."""
        MUT = {'append', 'extend', 'insert', 'remove', 'pop', 'clear', 'update',
               'setdefault', 'add', 'discard', 'sort', 'reverse', 'popitem'}
        for n in ast.walk(m.tree):
            tgt = None
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) \
                    and n.func.attr in MUT and isinstance(n.func.value, ast.Name):
                tgt = n.func.value.id
            elif isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)) \
                    and isinstance(n.value, ast.Name):
                tgt = n.value.id
            elif isinstance(n, ast.Global):
                m.mutated.update(n.names)
            if tgt and tgt in m.names and m.names[tgt][0] == 'expr':
                m.mutated.add(tgt)

    # -- resolution

    def lookup(self, mod, name, depth=0):
        """Resolve a module-level name: ('func',F) ('class',C) ('module',qual)
        ('const', mod, name, node) ('ext', dotted) or None."""
        if depth > 20:
            return None
        m = self.modules.get(mod)
        if m is None:
            return ('ext', mod + '.' + name)
        e = m.names.get(name)
        if e is None:
            sub = mod + '.' + name
            if sub in self.modules:
                return ('module', sub)
            if '*' in m.names:
                r = self.lookup(m.names['*'][1], name, depth + 1)
                if r is not None:
                    return r
            return None
        k = e[0]
        if k in ('func', 'class'):
            return e
        if k == 'mod':
            return ('module', e[1]) if e[1] in self.modules else ('ext', e[1])
        if k == 'from':
            if e[1] in self.modules:
                r = self.lookup(e[1], e[2], depth + 1)
                return r
            if e[1] + '.' + e[2] in self.modules:
                return ('module', e[1] + '.' + e[2])
            return ('ext', e[1] + '.' + e[2])
        if k == 'expr':
            v = e[1]
            # alias chains:  a = b   /  a = mod.b
            if name not in m.mutated:
                d = dotted(v)
                if d:
                    r = self.resolve_dotted(mod, d, depth + 1)
                    if r is not None:
                        return r
            return ('const', mod, name, v)
        return ('const', mod, name, None)

    def resolve_dotted(self, mod, d, depth=0):
        parts = d.split('.')
        r = self.lookup(mod, parts[0], depth)
        if r is None:
            if parts[0] in BUILTINS:
                r = ('ext', 'builtins.' + parts[0])
            else:
                return None
        for p in parts[1:]:
            if r[0] == 'module':
                r = self.lookup(r[1], p, depth + 1)
            elif r[0] == 'ext':
                r = ('ext', r[1] + '.' + p)
            elif r[0] == 'class':
                f = self.find_method(r[1], p)
                if f is None:
                    return None
                r = ('func', f)
            else:
                return None
            if r is None:
                return None
        return r

    # -- classes

    def _bases(self, c):
        for b in c.node.bases:
            d = dotted(b)
            r = self.resolve_dotted(c.mod.name, d) if d else None
            if r is None:
                c.bases.append('?' + (d or ast.unparse(b)))
            elif r[0] == 'class':
                c.bases.append(r[1])
            elif r[0] == 'ext':
                c.bases.append(r[1])
            else:
                c.bases.append('?' + (d or ''))

    def mro(self, c):
        if isinstance(c, str):
            return [c] if c == 'builtins.object' else [c, 'builtins.object']
        if c.mro is not None:
            return c.mro
        seqs = [list(self.mro(b)) for b in c.bases] + [list(c.bases)]
        out = [c]
        while True:
            seqs = [s for s in seqs if s]
            if not seqs:
                break
            for s in seqs:
                h = s[0]
                if not any(h in t[1:] for t in seqs):
                    break
            else:
                self.errors.append('inconsistent MRO for %s' % c.qual)
                break
            out.append(h)
            for s in seqs:
                if s[0] is h or s[0] == h:
                    s.pop(0)
        if 'builtins.object' not in out:
            out.append('builtins.object')
        c.mro = out
        return out

    def find(self, c, kind, name, after=None):
        """Find a class member along the MRO; kind: methods/getters/setters/attrs."""
        it = iter(self.mro(c))
        if after is not None:
            for k in it:
                if k is after:
                    break
        for k in it:
            if isinstance(k, Class):
                if name in getattr(k, kind):
                    return getattr(k, kind)[name]
                # a member of another kind hides it
            elif kind == 'methods' and k in EXT_METHODS and name in EXT_METHODS[k]:
                return (k, name)
        return None

    def find_method(self, c, name, after=None):
        return self.find(c, 'methods', name, after)

    def subclass(self, a, b):
        """Is class (qualname) a a subclass of b?"""
        if a == b:
            return True
        c = self.classes.get(a)
        if c is None:
            return False
        for k in self.mro(c):
            q = k if isinstance(k, str) else k.qual
            if q == b:
                return True
        return False

    def _method_index(self):
        self.by_method = {}
        self.by_getter = {}
        self.by_setter = {}
        for c in self.classes.values():
            for n, f in c.methods.items():
                self.by_method.setdefault(n, []).append(f)
            for n, f in c.getters.items():
                self.by_getter.setdefault(n, []).append(f)
            for n, f in c.setters.items():
                self.by_setter.setdefault(n, []).append(f)


def dotted(n):
    if isinstance(n, ast.Name):
        return n.id
    if isinstance(n, ast.Attribute):
        b = dotted(n.value)
        return b + '.' + n.attr if b else None
    return None


EXT_METHODS = {
    'builtins.list': set(dir(list)),
    'builtins.dict': set(dir(dict)),
    'builtins.tuple': set(dir(tuple)),
    'builtins.object': set(dir(object)),
}

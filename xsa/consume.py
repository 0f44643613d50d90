"""How often one call of a function may iterate over each of its arguments."""
import ast

CONSUMERS = {'list', 'tuple', 'set', 'frozenset', 'sorted', 'sum', 'any', 'all', 'min', 'max', 'enumerate', 'zip',
             'map', 'filter', 'dict', 'iter', 'reversed', 'chain', 'join', 'from_iterable', 'deque', 'Counter'}
MEMO = {}


def consumed(p, f, depth=0):
    """{index of a parameter: how often it may be iterated over}, the most on
    any path; an argument that is replaced is not counted any further."""
    key = (id(f), depth > 2)
    if key not in MEMO:
        MEMO[key] = {}                   # recursion
        MEMO[key] = Count(p, f, depth).run()
    return MEMO[key]


def same(n, v):
    if isinstance(n, ast.Name):
        return n.id == v
    if isinstance(n, ast.BoolOp):
        return any(same(x, v) for x in n.values)
    if isinstance(n, ast.IfExp):
        return same(n.body, v) or same(n.orelse, v)
    return False


def rebound(s, v):
    return any(isinstance(x, ast.Name) and x.id == v and isinstance(x.ctx, ast.Store) for x in ast.walk(s))


class Count(object):
    def __init__(self, p, f, depth):
        self.p, self.f, self.depth = p, f, depth
        a = f.node.args
        self.ps = [x.arg for x in a.posonlyargs + a.args]

    def run(self):
        out = {}
        if isinstance(self.f.node, ast.Lambda):
            return out
        for i, v in enumerate(self.ps):
            x = self.block(self.f.node.body, v)
            n = max(x[0] or 0, x[1])
            if n:
                out[i] = n
        return out

    def callee(self, n):
        f = self.f
        if isinstance(n.func, ast.Name):
            r = self.p.lookup(getattr(f.mod, 'name', f.mod), n.func.id)
            return (r[1], 0) if r is not None and r[0] == 'func' else None
        if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and self.ps and \
                n.func.value.id == self.ps[0] and f.cls is not None:
            m = self.p.find_method(f.cls, n.func.attr)
            return (m, 1) if m is not None and not isinstance(m, str) else None
        return None

    def expr(self, n, v):
        e = lambda x: self.expr(x, v)
        c = 0
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            for i, g in enumerate(n.generators):
                k = 2 if i else 1
                c += k if same(g.iter, v) else k * e(g.iter)
                c += 2 * sum(e(x) for x in g.ifs)
            for x in ([n.key, n.value] if isinstance(n, ast.DictComp) else [n.elt]):
                c += 2 * e(x)
            return c
        if isinstance(n, ast.Lambda):
            return 0
        if isinstance(n, ast.IfExp):
            return e(n.test) + max(e(n.body), e(n.orelse))
        if isinstance(n, (ast.Starred, ast.YieldFrom)) and same(n.value, v):
            return 1
        if isinstance(n, ast.Call):
            name = n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id if isinstance(n.func, ast.Name) else ''
            r = self.callee(n)
            for i, x in enumerate(n.args):
                if same(x, v):
                    if r is not None and self.depth < 3:
                        c += consumed(self.p, r[0], self.depth + 1).get(i + r[1], 0)
                    elif r is None and name in CONSUMERS:
                        c += 1
        for x in ast.iter_child_nodes(n):
            if isinstance(x, ast.expr):
                c += e(x)
            elif isinstance(x, ast.keyword):
                c += e(x.value)
        return c

    def block(self, body, v):
        """(most on a path that goes on, or None; most on one that leaves)"""
        c, left = 0, 0
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                continue
            if isinstance(s, (ast.Return, ast.Raise, ast.Break, ast.Continue)):
                e = sum(self.expr(x, v) for x in ast.iter_child_nodes(s) if isinstance(x, ast.expr))
                return None, max(left, c + e)
            if isinstance(s, ast.If):
                t = c + self.expr(s.test, v)
                x, y = self.block(s.body, v), self.block(s.orelse, v)
                left = max(left, t + x[1], t + y[1])
                go = [z[0] for z in (x, y) if z[0] is not None]
                if not go:
                    return None, left
                c = t + max(go)
            elif isinstance(s, (ast.For, ast.While)):
                if isinstance(s, ast.For):
                    c += 1 if same(s.iter, v) else self.expr(s.iter, v)
                else:
                    c += 2 * self.expr(s.test, v)
                x = self.block(s.body, v)
                c += 2 * max(x[0] or 0, x[1])
                y = self.block(s.orelse, v)
                c += y[0] or 0
                left = max(left, c + y[1])
            elif isinstance(s, ast.Try):
                x, y, fin = self.block(s.body, v), self.block(s.orelse, v), self.block(s.finalbody, v)
                hs = [self.block(h.body, v) for h in s.handlers]
                c += max([x[0] or 0, x[1]] + [max(h[0] or 0, h[1]) for h in hs]) + (y[0] or 0) + (fin[0] or 0)
                left = max(left, c)
            elif isinstance(s, ast.With):
                c += sum(self.expr(i.context_expr, v) for i in s.items)
                x = self.block(s.body, v)
                left = max(left, c + x[1])
                if x[0] is None:
                    return None, left
                c += x[0]
            else:
                c += sum(self.expr(x, v) for x in ast.iter_child_nodes(s) if isinstance(x, ast.expr))
                if rebound(s, v) and not (isinstance(s, ast.Assign) and same(s.value, v)):
                    return None, max(left, c)
        return c, left


# -- functions and generators made in a loop that read its variables later

def stores(n):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}


def loads(n):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)}


def deferred(n):
    """Names that the value of n reads only when it is used."""
    if isinstance(n, ast.Lambda):
        a = n.args
        return loads(n.body) - {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
    if isinstance(n, ast.GeneratorExp):
        own, out = set(), set()
        for g in n.generators:
            own |= stores(g.target)
        for i, g in enumerate(n.generators):
            if i:
                out |= loads(g.iter)
            for x in g.ifs:
                out |= loads(x)
        return (out | loads(n.elt)) - own
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('filter', 'map'):
        return set().union(*[deferred(x) for x in n.args[:1]])
    if isinstance(n, (ast.Tuple, ast.IfExp)):
        return set().union(*[deferred(x) for x in ast.iter_child_nodes(n) if isinstance(x, ast.expr)])
    return set()


def late_bound(node):
    """Names in node that hold, after a loop or in its next rounds, something
    made in the loop that reads a variable of the loop."""
    bad = set()
    if isinstance(node, ast.Lambda):
        return bad
    for lp in ast.walk(node):
        if not isinstance(lp, (ast.For, ast.While)):
            continue
        var = set()
        for s in ([lp.target] if isinstance(lp, ast.For) else []) + lp.body:
            var |= stores(s)
        after = {x.id for x in ast.walk(node) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and
                 x.lineno > lp.end_lineno}
        for s in [x for b in lp.body for x in ast.walk(b)]:
            if isinstance(s, ast.Assign):
                d = deferred(s.value) & var
                for t in s.targets:
                    if d and isinstance(t, ast.Name) and d - {t.id} and (t.id in after or t.id in loads(s.value)):
                        bad.add(t.id)
                    elif d and isinstance(t, ast.Subscript):
                        bad.add(ast.unparse(t.value))
            elif isinstance(s, ast.Call) and isinstance(s.func, ast.Attribute) and \
                    s.func.attr in ('append', 'add', 'insert', 'setdefault'):
                if any(deferred(x) & var for x in s.args):
                    bad.add(ast.unparse(s.func.value))
            elif isinstance(s, ast.FunctionDef):
                d = (loads(s) - stores(s) - {x.arg for x in s.args.args}) & var
                if d and s.name in after:
                    bad.add(s.name)
    return bad


def counted(f):
    """Corpora whose items are reached by number: one that is read as it goes
    has no length yet."""
    out = set()
    for n in ast.walk(f.node):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'range' and n.args:
            m = n.args[min(1, len(n.args) - 1)]
            if isinstance(m, ast.Call) and isinstance(m.func, ast.Name) and m.func.id == 'len' and len(m.args) == 1:
                x = m.args[0]
                if isinstance(x, ast.Name) and (x.id in ('xc', 'corpus', 'xigtcorpus') or x.id == 'self' and
                                                f.cls is not None and f.cls.name == 'XigtCorpus'):
                    out.add(x.id)
    return out


# -- what is read from a file that is closed by then

LAZY = {'iterparse', 'ns_iterparse', 'reader', 'map', 'filter', 'enumerate', 'zip', 'chain', 'iter', 'islice', 'DictReader'}
MODED = {'load', 'loads', 'decode', 'XigtCorpus', 'decode_xigtcorpus'}


def is_open(n):
    return isinstance(n, ast.Call) and (isinstance(n.func, ast.Name) and n.func.id == 'open' or
                                        isinstance(n.func, ast.Attribute) and n.func.attr == 'open')


def reads_later(p, f, n, names):
    """Does the value of n still read from one of the names after it was made?"""
    r = lambda x: reads_later(p, f, x, names)
    if isinstance(n, ast.Name):
        return n.id in names
    if isinstance(n, ast.IfExp):
        return r(n.body) or r(n.orelse)
    if isinstance(n, ast.GeneratorExp):
        return any(r(g.iter) for g in n.generators) or bool(loads(n) & names)
    if isinstance(n, ast.Call):
        args = list(n.args) + [k.value for k in n.keywords]
        if not any(r(x) for x in args):
            return False
        name = n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id if isinstance(n.func, ast.Name) else ''
        if name in MODED:
            late = [x for x in args if isinstance(x, ast.Constant) and x.value in ('transient', 'incremental') or
                    isinstance(x, (ast.Name, ast.Attribute)) and ast.unparse(x).split('.')[-1] in ('TRANSIENT', 'INCREMENTAL')]
            return bool(late)
        if name in LAZY:
            return True
        if isinstance(n.func, ast.Name):
            g = p.lookup(getattr(f.mod, 'name', f.mod), name)
            return g is not None and g[0] == 'func' and g[1].is_gen
    return False


def closed(p, f):
    """Names read after the file that their items come from is closed."""
    out = set()
    if isinstance(f.node, ast.Lambda):
        return out
    for w in ast.walk(f.node):
        if not isinstance(w, ast.With):
            continue
        names = {i.optional_vars.id for i in w.items if is_open(i.context_expr) and isinstance(i.optional_vars, ast.Name)}
        if not names:
            continue
        body = [x for s in w.body for x in ast.walk(s)]
        for _ in range(3):
            for s in body:
                if isinstance(s, ast.Assign) and reads_later(p, f, s.value, names):
                    names |= {t.id for t in s.targets if isinstance(t, ast.Name)}
                elif isinstance(s, ast.Return) and s.value is not None and \
                        reads_later(p, f, s.value, names):
                    out.add('(returned)')
        inside = {id(x) for x in body}
        again = {x.id for x in ast.walk(f.node) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and
                 x.lineno > w.end_lineno}
        for x in ast.walk(f.node):
            attr = isinstance(x, ast.Attribute) and x.attr in ('name', 'closed', 'close', 'encoding', 'mode')
            if attr and isinstance(x.value, ast.Name):
                inside.add(id(x.value))
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and id(x) not in inside and \
                    x.lineno > w.end_lineno and x.id in names and x.id not in again:
                out.add(x.id)
    return out

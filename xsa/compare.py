"""Semantic comparison of a tree with the reference model.

Every obligation is (function, projection of its effects).  Both versions are
turned into value graphs by the same abstract interpreter (interp.py) with the
functions they have in common kept opaque, so that each function is judged on
its own; helpers that only one side has are inlined, and so are internal
functions that changed together with their callers.
"""

import ast
import sys

from . import terms as TM
from .terms import contains
from .consume import closed, consumed, counted, late_bound
from .prove import Prover
from .project import Project, Func, Class, dotted
from .interp import Interp, Undecided

EQ, DIFF, UNDEC = 'equal', 'different', 'undecided'
BUDGET = 400000


def sig(f, I=None):
    """Signature: names, kinds, defaults (as terms)."""
    a = f.node.args
    I = I or Interp(f.project, anchors=())
    pos = [x.arg for x in a.posonlyargs + a.args]
    dn = dict(zip(pos[len(pos) - len(a.defaults):], a.defaults))

    def dv(n):
        if n is None:
            return None
        try:
            from .interp import St
            return I.default(f, n, St())
        except (Undecided, TM.TooBig, Exception):
            return ast.dump(n)
    out = [(n, dv(dn.get(n))) for n in pos]
    kwo = tuple(sorted(((x.arg, dv(d)) for x, d in zip(a.kwonlyargs, a.kw_defaults)), key=lambda p: p[0]))
    static = f.cls is not None and I.is_static(f)
    return {'pos': out, 'kwo': kwo, 'var': bool(a.vararg), 'kw': bool(a.kwarg),
            'gen': f.is_gen, 'static': static}


def sig_same(a, b, names=True):
    if len(a['pos']) != len(b['pos']) or a['var'] != b['var'] or a['kw'] != b['kw'] or a['static'] != b['static']:
        return False
    if [n for n, _ in a['kwo']] != [n for n, _ in b['kwo']]:
        return False
    if any(x is not y and x != y for (_, x), (_, y) in zip(a['kwo'], b['kwo'])):
        return False
    for (n, x), (m, y) in zip(a['pos'], b['pos']):
        if names and n != m and n not in ('self', 'cls'):
            return False
        if x is not y and x != y:
            return False
    return True


def private_attrs(p):
    """Underscore attributes and where they are assigned."""
    loads, stores = set(), {}
    for m in p.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute) and n.attr.startswith('_') and not n.attr.startswith('__'):
                if isinstance(n.ctx, ast.Store):
                    stores.setdefault(n.attr, set()).add(m.name)
                loads.add(n.attr)
    return loads, stores


# arguments that may be iterators (or a corpus that is read only once)
ITERATORS = {'igts', 'tiers', 'items', 'metas', 'children', 'objs', 'value', 'attributes', 'xc', 'events', 'metadata'}


class Pair(object):
    """The reference model S and the tree under check R."""

    def __init__(self, sroot, rroot, is_api, renames=True, base=None, only=None):
        self.R = Project(rroot)
        self.S = base.S if base else Project(sroot)
        self.is_api = is_api
        self.memo = {k: v for k, v in base.memo.items() if k[0] is True} if base else {}
        self.only = only            # restrict internal_diffs (for experiments)
        self.notes = []
        self.free = base.free if base else {}
        self.late = {k: v for k, v in base.late.items() if k[0] is True} if base else {}
        for p in (self.S, self.R):
            for f in list(p.funcs.values()):
                f.project = p
        if renames:
            self.match_attrs()
        self.match_funcs()
        self.sigdiff = {}
        self.common = set()
        IS, IR = Interp(self.S), Interp(self.R)
        for q in self.S.funcs:
            g = self.R.funcs.get(q)
            if g is None:
                continue
            f = self.S.funcs[q]
            try:
                a, b = sig(f, IS), sig(g, IR)
            except AttributeError:
                self.common.add(q)
                continue
            if sig_same(a, b, names=is_api(q)):
                self.common.add(q)
            else:
                self.sigdiff[q] = (a, b)
        self.refs = {}
        for p in (self.S, self.R):
            self.refs[p] = base.refs[p] if base and p is base.S else self.references(p)

    def regions(self, q, opts):
        r = self.graph(self.R, q, frozenset(self.common), opts)
        return sorted(str(k) for k in r) if isinstance(r, dict) else []

    # -- members of classes: what each name resolves to

    def member(self, p, c, name):
        out = {}
        for kind in ('methods', 'getters', 'setters'):
            f = p.find(c, kind, name)
            out[kind] = f.qual if isinstance(f, Func) else None
        # a plain class attribute hides what it overrides
        for k in p.mro(c):
            if isinstance(k, Class):
                if any(name in d for d in (k.methods, k.getters, k.setters)):
                    break
                if name in k.attrs:
                    return {'methods': k.qual + '.' + name + ' (attribute)', 'getters': None, 'setters': None}
        return out

    def class_members(self, cq, names, opts, keep):
        """Which definition a member of a concrete class is."""
        S, R = self.S.classes.get(cq), self.R.classes.get(cq)
        if S is None:
            return
        if R is None:
            r = self.R.resolve_dotted(cq.rsplit('.', 1)[0], cq.rsplit('.', 1)[1])
            R = r[1] if r is not None and r[0] == 'class' else None
        if R is None:
            yield cq, DIFF, 'class has vanished', ''
            return
        for name in names:
            a, b = self.member(self.S, S, name), self.member(self.R, R, name)
            site = '%s.%s' % (cq, name)
            if a == b:
                yield site, EQ, 'resolves to the same definition', ''
                continue
            for kind in ('methods', 'getters', 'setters'):
                x, y = a[kind], b[kind]
                if x == y:
                    continue
                if x is None or y is None:
                    yield site, DIFF, 'now defined by %s, reference: %s' % (y or 'its builtin base', x or 'its builtin base'), ''
                    continue
                anchors = frozenset(self.common - {x, y})
                u = self.graph(self.S, x, anchors, opts, cq)
                v = self.graph(self.R, y, anchors, opts, R.qual)
                if isinstance(u, str) or isinstance(v, str):
                    yield site, UNDEC, u if isinstance(u, str) else v, ''
                    continue
                bad = [(k, u.get(k, TM.EMPTY), v.get(k, TM.EMPTY)) for k in sorted(set(u) | set(v), key=str)
                       if (keep is None or keep(k)) and u.get(k, TM.EMPTY) is not v.get(k, TM.EMPTY)
                       and not Prover().equal(u.get(k, TM.EMPTY), v.get(k, TM.EMPTY))]
                if not bad:
                    yield site, EQ, 'same value graph as %s' % x, ''
                elif any(s.unk or t.unk for _, s, t in bad):
                    yield site, UNDEC, 'unknown operations', ''
                else:
                    yield site, DIFF, 'overridden by %s' % y, bad

    # -- renamed private attributes and functions

    def match_attrs(self):
        sl, ss = private_attrs(self.S)
        rl, rs = private_attrs(self.R)
        gone = sorted(a for a in ss if a not in rl)
        new = sorted(a for a in rs if a not in sl)
        m = {}
        for a in gone:
            c = [b for b in new if rs[b] == ss[a]]
            if len(c) == 1 and sum(1 for x in gone if ss[x] == ss[a]) == 1:
                m[c[0]] = a
            elif len(c) > 1 or len(c) == 1:
                # several candidates: pair by order of first assignment
                g2 = [x for x in self.order(self.S) if x in gone and ss[x] == ss[a]]
                n2 = [x for x in self.order(self.R) if x in new and rs[x] == ss[a]]
                if len(g2) == len(n2):
                    for x, y in zip(g2, n2):
                        m[y] = x
        if m:
            self.notes.append('attributes renamed: %s' % ', '.join('%s -> %s' % (v, k) for k, v in sorted(m.items())))
            for mod in self.R.modules.values():
                for n in ast.walk(mod.tree):
                    if isinstance(n, ast.Attribute) and n.attr in m:
                        n.attr = m[n.attr]
                    elif isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value in m:
                        n.value = m[n.value]

    def order(self, p):
        out = []
        for name in sorted(p.modules):
            for n in ast.walk(p.modules[name].tree):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and n.attr not in out:
                    out.append(n.attr)
        return out

    def match_funcs(self):
        """Give functions that moved (re-export, other base class) their old name."""
        R, S = self.R, self.S
        for q, f in S.funcs.items():
            if q in R.funcs:
                continue
            g = None
            if f.cls is None:
                if f.mod.name in R.modules:
                    r = R.lookup(f.mod.name, f.name)
                    if r is not None and r[0] == 'func' and isinstance(r[1], Func):
                        g = r[1]
                    elif r is not None and r[0] == 'const' and isinstance(r[3], ast.Lambda):
                        g = Func(R.modules[f.mod.name], r[3], None, q)
                        g.project = R
                        R.modules[f.mod.name].names[f.name] = ('func', g)
            else:
                c = R.classes.get(f.cls.qual)
                if c is None:
                    r = R.resolve_dotted(f.cls.mod.name, f.cls.node.name) if f.cls.mod.name in R.modules else None
                    c = r[1] if r is not None and r[0] == 'class' else None
                if c is not None:
                    kind = 'setters' if q.endswith('.setter') else \
                        'getters' if f.cls.getters.get(f.name) is f else 'methods'
                    g = R.find(c, kind, f.name)
                    if not isinstance(g, Func):
                        g = None
            if g is not None and g.qual not in S.funcs:
                self.notes.append('%s is now %s' % (q, g.qual))
                R.funcs.pop(g.qual, None)
                g.qual = q
                R.funcs[q] = g

    # -- references between functions

    def references(self, p):
        out = {}
        tops = set()
        for q, f in p.funcs.items():
            out[q] = self.refs_of(p, f.mod, f.node, f.cls)
        for m in p.modules.values():
            for st in m.tree.body:
                if not isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                    tops |= self.refs_of(p, m, st, None, top=True)
        out['<module>'] = tops
        return out

    def refs_of(self, p, mod, node, cls, top=False):
        r = set()
        for n in ast.walk(node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                x = p.lookup(mod.name, n.id)
                if x is not None and x[0] == 'func' and isinstance(x[1], Func):
                    r.add(x[1].qual)
                elif x is not None and x[0] == 'class':
                    i = p.find_method(x[1], '__init__')
                    if isinstance(i, Func):
                        r.add(i.qual)
            elif isinstance(n, ast.Attribute):
                d = dotted(n)
                x = p.resolve_dotted(mod.name, d) if d else None
                if x is not None and x[0] == 'func' and isinstance(x[1], Func):
                    r.add(x[1].qual)
                    continue
                for idx in (p.by_method, p.by_getter, p.by_setter):
                    for f in idx.get(n.attr, ()):
                        r.add(f.qual)
        return r

    def callers(self, q):
        out = set()
        for p in (self.S, self.R):
            for c, rs in self.refs[p].items():
                if q in rs and c != q:
                    out.add(c)
        return out

    # -- value graphs

    def graph(self, p, q, anchors, opts, cls=None):
        key = (p is self.S, q, anchors, opts, cls)
        r = self.memo.get(key)
        if r is None:
            r = self.memo[key] = self._graph(p, q, anchors, opts, cls)
        return r

    def _graph(self, p, q, anchors, opts, cls):
        key = (q, anchors, opts, cls)
        f = p.funcs.get(q)
        if f is None:
            return 'no function %s' % q
        TM.reset_budget(BUDGET)
        contract = None
        if p is not self.S:
            key = ('contract', anchors, opts)
            contract = self.memo.get(key)
            if contract is None:
                contract = self.memo[key] = Interp(self.S, anchors=anchors, **dict(opts))
        key = (q, anchors, opts, cls)
        I = Interp(p, anchors=anchors, contract=contract, **dict(opts))
        try:
            r = I.run(f, cls=p.classes.get(cls) if cls else None)
        except Undecided as e:
            return 'undecided: %s' % e
        except TM.TooBig:
            return 'too big'
        except RecursionError:
            return 'too deep'
        except Exception as e:     # an unsupported construct must not be an alarm
            return 'not supported: %s: %s' % (type(e).__name__, e)
        self.late[(p is self.S, q, anchors, opts, cls)] = frozenset(I.late)
        seen = set()
        for k in r:
            o = TM.leftover(r[k], ('clos',), seen)
            if o is not None:
                return 'not supported: local %s in region %s' % (o, k)
        r = self.number_refs(r)
        if p is self.S:
            # functions that are neither kept opaque nor looked into
            self.free[key] = self.free_funcs(r, anchors)
        return r

    @staticmethod
    def number_refs(r):
        """Local containers of which only the identity is known (variables of
        a loop that may be one of several containers), by first occurrence."""
        m, seen = {}, set()

        def walk(x):
            if x.uid in seen:
                return
            seen.add(x.uid)
            if x.op == 'ref':
                m[x] = TM.raw('loc', len(m))
            for a in x.args:
                if isinstance(a, TM.T):
                    walk(a)
        for k in sorted(r, key=str):
            walk(r[k])
        return {k: m[v] if v in m else TM.subst(v, m) for k, v in r.items()} if m else r

    def insens(self, opts):
        """Does a function of the reference not distinguish an empty argument
        (None, or anything false) from an empty list?"""
        def ask(call, pos, kinds):
            if call.op == 'call':
                if call.args[0].op != 'glob' or call.args[0].args[0] not in self.S.funcs:
                    return False
                fs = [self.S.funcs[call.args[0].args[0]]]
            else:
                fs = list(self.S.by_method.get(call.args[1], ()))
            return bool(fs) and all(self.indifferent(f, pos, k, opts) for f in fs for k in kinds)
        return ask

    def indifferent(self, f, pos, kind, opts):
        key = ('insens', f.qual, pos, kind, opts)
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = True           # recursive calls: by induction
        r = False
        if pos.startswith('a') and pos[1:].isdigit():
            i = int(pos[1:]) + (1 if f.cls is not None and not Interp(self.S).is_static(f) else 0)
            g = self.graph(self.S, f.qual, frozenset(self.common), opts)
            p = TM.raw('par', i)
            if not isinstance(g, str):
                r = True
                for k, v in g.items():
                    e = TM.subst(v, {p: TM.mk('coll', 'list', TM.EMPTY)})
                    if kind == 'none':
                        ok = Prover(self.insens(opts)).equal(TM.subst(v, {p: TM.NONE}), e)
                    else:
                        t = TM.raw('truthy', p)
                        ok = Prover(self.insens(opts)).equal(v, e, {t: False, TM.raw('isnone', p): False})
                    if not ok:
                        r = False
                        break
        self.memo[key] = r
        return r

    def free_funcs(self, r, anchors):
        out, seen = set(), set()
        todo = [v for v in r.values()]
        while todo:
            x = todo.pop()
            if x.uid in seen:
                continue
            seen.add(x.uid)
            args = x.args
            if x.op == 'call' and args[0].op == 'glob':
                args = args[1:]         # a recursive call: induction
            for a in args:
                if isinstance(a, TM.T):
                    if a.op == 'glob' and a.args[0] in self.S.funcs and a.args[0] not in anchors:
                        out.add(a.args[0])
                    todo.append(a)
        return out

    def none_iterated(self, f, a, b):
        """Parameters that may be None for the reference, but are iterated
        over unguarded here."""
        bad = []
        args = f.node.args
        ps = [x.arg for x in args.posonlyargs + args.args]
        opt = {n for n, d in zip(ps[len(ps) - len(args.defaults):], args.defaults)
               if isinstance(d, ast.Constant) and d.value is None}
        none = TM.mk('elems', TM.NONE)
        for i, n in enumerate(ps):
            if n not in opt and not (f.qual.endswith('.setter') and i == 1):
                continue
            p = TM.raw('par', i)
            it = TM.mk('elems', p)
            for k, y in b.items():
                if contains(y, it) and contains(TM.subst(y, {p: TM.NONE}), none) and \
                        not any(contains(TM.subst(x, {p: TM.NONE}), none) for x in a.values()):
                    bad.append((k, a.get(k, TM.EMPTY), y))
        return bad

    def read_late(self, f, q, rq, anchors, opts, cls):
        """Arguments that may be a view of the object, and are read only after
        it was changed."""
        new = self.late.get((False, rq or q, anchors, opts, cls), frozenset()) - \
            self.late.get((True, q, anchors, opts, cls), frozenset())
        return [(('read after the object was changed',), TM.raw('par', i), TM.raw('par', i)) for i in sorted(new)
                if not self.late_before(q, i, opts, cls)]

    def late_before(self, q, i, opts, cls):
        """Does the reference do so as well?"""
        return any(i in v for k, v in self.late.items() if k[0] and k[1] == q)

    def read_twice(self, fa, fb):
        """Arguments that may be iterators, and are iterated over again."""
        a, b = consumed(self.S, fa), consumed(self.R, fb)
        ps = fa.params()
        return [(('iterated over twice',), TM.raw('par', i), TM.raw('par', i)) for i in sorted(b)
                if b[i] > 1 and a.get(i, 0) == 1 and i < len(ps) and ps[i] in ITERATORS]

    def lints(self, fa, fb):
        """What the value graphs do not show."""
        key = ('lints', fa.qual, fb.qual)
        if key not in self.memo:
            todo, new = [fb], [fb]
            while todo:
                for x in sorted(self.refs[self.R].get(todo.pop().qual, ())):
                    g = self.R.funcs.get(x)
                    if g is not None and x not in self.S.funcs and g not in new:
                        new.append(g)
                        todo.append(g)
            out = []
            for g in new:
                if not late_bound(fa.node):
                    out += ['reads variables of the loop when it is used: ' + n for n in sorted(late_bound(g.node))]
                out += ['items reached by number, which a corpus that is read as it goes does not have: ' + n
                        for n in sorted(counted(g) - counted(fa))]
                if not closed(self.S, fa):
                    out += ['read after the file it comes from is closed: ' + n for n in sorted(closed(self.R, g))]
            self.memo[key] = [((x,), TM.EMPTY, TM.EMPTY) for x in out]
        return self.memo[key]

    def cmp(self, q, anchors=None, keep=None, opts=(), cls=None, rq=None):
        """(verdict, list of (region, ref term, current term) or reason)."""
        anchors = frozenset(self.common if anchors is None else anchors)
        a = self.graph(self.S, q, anchors, opts, cls)
        b = self.graph(self.R, rq or q, anchors, opts, cls)
        if isinstance(a, str):
            return UNDEC, 'reference: ' + a
        if isinstance(b, str):
            return UNDEC, b
        if q.endswith('.__init__'):
            a, b = self.built(a), self.built(b)
        fa, fb = self.S.funcs.get(q), self.R.funcs.get(rq or q)
        if fa is not None and fb is not None and fa.is_gen != fb.is_gen:
            if fa.is_gen:
                b = self.as_generator(b, self.is_api(q))
            else:
                a = self.as_generator(a, self.is_api(q))
        bad = []
        unk = 0
        for k in sorted(set(a) | set(b), key=str):
            if keep is not None and not keep(k):
                continue
            x, y = a.get(k, TM.EMPTY), b.get(k, TM.EMPTY)
            if k == ('objs',) and x is not y:
                x, y = self.apart(x), self.apart(y)
            if k[0] == 'obj' and x is not y:
                x, y = self.had_key(k[1], x), self.had_key(k[1], y)
            if x is y or self.one_sided(k):
                continue
            if x.unk or y.unk:
                unk += 1
                continue
            if not Prover(self.insens(opts)).equal(x, y):
                bad.append((k, x, y))
        if unk:
            return UNDEC, 'unknown operations'
        if not bad and fa is not None and fb is not None and self.is_api(q):
            bad = self.none_iterated(fa, a, b) or self.read_late(fa, q, rq, anchors, opts, cls) or \
                self.read_twice(fa, fb)
        if not bad and fa is not None and fb is not None:
            bad = self.lints(fa, fb)
        if not bad and self.free.get((q, anchors, opts, cls)):
            return UNDEC, 'uses %s as a value' % ', '.join(sorted(self.free[(q, anchors, opts, cls)]))
        return (DIFF, bad) if bad else (EQ, [])

    @staticmethod
    def had_key(obj, x):
        """A key that is deleted was there: get() gave what [] gives."""
        def f(s):
            m = {}
            for p in s.args if s.op == 'cat' else (s,):
                if p.op == 'unit' and p.args[0].op == 'ev' and p.args[0].args[0] == '__delitem__':
                    k = p.args[0].args[1]
                    for g in Prover().gets(s).get((k, obj), ()):
                        m[g] = TM.mk('item', obj, k)
            return TM.subst(s, m) if m else s
        return TM.lift(f, ('hadkey', obj.uid), (x,))

    @staticmethod
    def apart(x):
        """What is done to the child elements of one name and of another has no
        order: they are different elements."""
        def tag(p):
            if p.op == 'fm' and p.args[0].op == 'elems' and p.args[0].args[0].op == 'mc':
                m = p.args[0].args[0].args
                if len(m) == 3 and m[1] == 'findall' and m[2].op == 'const':
                    b = TM.fresh_bv()
                    u = TM.inst_raw(p.args[1], b)
                    if u.op == 'unit' and u.args[0].op == 'on' and u.args[0].args[0] is b:
                        return (m[0].uid, str(m[2].args[0]))
            return None

        def f(s):
            if s.op != 'cat':
                return s
            out, i = [], 0
            while i < len(s.args):
                run = []
                while i < len(s.args) and tag(s.args[i]) is not None:
                    t = tag(s.args[i])
                    if run and (t[0] != tag(run[0])[0] or any(t == tag(r) for r in run)):
                        break
                    run.append(s.args[i])
                    i += 1
                out += sorted(run, key=tag)
                if not run:
                    out.append(s.args[i])
                    i += 1
            return TM.raw('cat', *out)
        return TM.lift(f, 'apart', (x,))

    @staticmethod
    def as_generator(g, api):
        """What a function without effects that returns an iterator yields."""
        o = g.get(('out',))
        if o is None or set(g) - {('out',), ('y',)}:
            return g

        def items(x):
            if x.op == 'raise':
                return TM.EMPTY
            v = x.args[0] if x.op == 'ret' else None
            if v is not None and v.op == 'itr':
                return v.args[0]
            if v is not None and v.op == 'coll' and (v.args[0] == 'iter' or not api):
                return v.args[1]
            return None
        if any(items(x) is None for x in TM.leaves(o)):
            return g
        return {('y',): TM.lift(items, 'yielded', (o,)),
                ('out',): TM.lift(lambda x: x if x.op == 'raise' else TM.mk('ret', TM.NONE), 'exhausted', (o,))}

    @staticmethod
    def built(g):
        """Effects of a constructor: what it has stored in the object itself
        does not matter when it fails."""
        o = g.get(('out',))
        if o is None or o.op != 'ite':
            return g
        ok = TM.lift(lambda x: TM.FALSE if x.op == 'raise' else TM.TRUE, 'succeeds', (o,))
        if ok is TM.TRUE or not TM.is_bool(ok):
            return g

        def own(k):
            if k[0] == 'attr':
                return k[1] != '_parent'
            x = k[1] if k[0] == 'obj' else None
            while isinstance(x, TM.T) and x.op == 'attr':
                x = x.args[0]
            return isinstance(x, TM.T) and x.op == 'self' and x is not k[1]
        return {k: TM.constrain(TM.ite(ok, v, TM.EMPTY), TM.TRUE) if own(k) else v for k, v in g.items()}

    def one_sided(self, k):
        """State in a module-level name that only one version has: what
        reads it shows up in the values, writing it is not observable."""
        if k[0] != 'global' or not isinstance(k[1], str):
            return False
        mod, _, name = k[1].rpartition('.')
        return not (mod in self.S.modules and mod in self.R.modules and
                    name in self.S.modules[mod].names and name in self.R.modules[mod].names)

    def internal_diffs(self, opts):
        key = ('idiff', opts)
        if key not in self.memo:
            d = set()
            for q in self.S.funcs:
                if self.only and not q.startswith(self.only):
                    continue
                if not self.is_api(q) and (q not in self.common or self.cmp(q, opts=opts)[0] != EQ):
                    d.add(q)
            self.memo[key] = d
        return self.memo[key]

    def decide(self, q, keep=None, opts=()):
        """Verdict for one obligation: (verdict, how, details)."""
        if q not in self.S.funcs:
            return UNDEC, 'not in the reference', ''
        f = self.S.funcs[q]
        api = self.is_api(q)
        if q not in self.R.funcs:
            if api:
                return DIFF, 'public function no longer exists', q
            return self.by_callers(q, keep, opts)
        if q in self.sigdiff and api:
            return DIFF, 'signature', self.show_sig(*self.sigdiff[q])
        if q not in self.sigdiff:
            v, d = self.cmp(q, keep=keep, opts=opts)
            if v == EQ:
                return EQ, 'same value graph', ''
        else:
            v, d = DIFF, [(('signature',), None, None)]
        # changed together with functions it uses?
        for depth in (0, 1, 2):
            A = self.without_callees(q, depth, opts)
            if A is None:
                continue
            v2, d2 = self.cmp(q, A, keep, opts)
            if v2 == EQ:
                return EQ, 'same value graph after inlining', ''
        if not api and not self.lints(f, self.R.funcs[q]):
            r = self.by_callers(q, keep, opts)
            if r[0] == EQ:
                return r
            if v == DIFF and r[0] == UNDEC and r[1] == 'no caller':
                return UNDEC, 'changed, but nothing refers to it', ''
        if v == UNDEC:
            return UNDEC, d if isinstance(d, str) else 'unknown', ''
        return DIFF, 'value graphs differ', d

    def without_callees(self, q, depth, opts):
        """Anchors without the (changed internal / all direct) callees of q."""
        D = self.internal_diffs(opts)
        if depth == 0:
            if not D:
                return None
            return frozenset(self.common - D)
        out = set(D)
        level = {q}
        for _ in range(depth):
            nxt = set()
            for p in (self.S, self.R):
                for x in level:
                    nxt |= self.refs[p].get(x, set())
            out |= nxt
            level = nxt
        out.discard(q)
        return frozenset(self.common - out)

    def by_callers(self, q, keep, opts):
        """Is a change of an internal function compensated in its callers?"""
        D = set(self.internal_diffs(opts)) | {q}
        for _ in range(4):
            A = frozenset(self.common - D)
            todo = set()
            for x in D:
                if x in self.S.funcs:
                    todo |= {c for c in self.callers(x) if c not in D}
            # only those that (transitively) reach q
            todo = {c for c in todo if c == '<module>' or self.reaches(c, q, D)}
            if '<module>' in todo:
                return UNDEC, 'used as a value', ''
            todo = {c for c in todo if c in self.S.funcs and c in self.R.funcs}
            if not todo:
                return UNDEC, 'no caller', ''
            bad = []
            for c in sorted(todo):
                v, d = self.cmp(c, A, None, opts)
                if v != EQ:
                    bad.append((c, v))
            if not bad:
                return EQ, 'same value graph of all callers (%s)' % ', '.join(sorted(todo)), ''
            if any(self.is_api(c) for c, v in bad):
                c, v = bad[0]
                return (DIFF if v == DIFF else UNDEC), 'caller %s' % c, ''
            D |= {c for c, v in bad}
        return UNDEC, 'too many callers', ''

    def reaches(self, c, q, D):
        seen, todo = set(), [c]
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            for p in (self.S, self.R):
                for y in self.refs[p].get(x, ()):
                    if y == q:
                        return True
                    if y in D:
                        todo.append(y)
        return False

    @staticmethod
    def show_sig(a, b):
        def s(x):
            ps = [n + ('=' + TM.show(d, 4) if isinstance(d, TM.T) else '=' + str(d) if d is not None else '') for n, d in x['pos']]
            return '(%s%s%s)' % (', '.join(ps), ', *' if x['var'] else '', ', **' if x['kw'] else '')
        return 'reference %s, current %s' % (s(a), s(b))

    def where(self, q):
        f = self.R.funcs.get(q)
        if f is None:
            return '?'
        return '%s:%d' % (f.mod.path if isinstance(f.mod.path, str) and not f.mod.path.startswith('/') else f.mod.name, f.node.lineno)

    def explain(self, q, bad):
        out = []
        for k, x, y in bad[:6]:
            out.append('  region %s' % (k,))
            if x is None:
                continue
            p, u, v = TM.first_diff(x, y)
            out.append('    reference: %s' % (TM.show(u, 9)[:1500] if isinstance(u, TM.T) else u))
            out.append('    current:   %s' % (TM.show(v, 9)[:1500] if isinstance(v, TM.T) else v))
            out.append('    at: %s' % '/'.join('%s.%s' % s for s in p[-10:]))
        return '\n'.join(out)

"""Path-sensitive equality of two value graphs that are not the same term.

The graphs are split on the atoms of their diagrams; on each path that the
axioms (terms.axioms) allow, what the path says about terms (t is None, t
equals a constant, t is empty) is used to simplify the leaves, which then have
to be congruent.  Sound and incomplete: True means equal on all paths.
"""

from . import terms as TM
from .terms import raw, mk, NONE, EMPTY, TRUE, FALSE, T


class GiveUp(Exception):
    pass


class Prover(object):
    STEPS = 12000
    DEPTH = 120

    def __init__(self, insens=None):
        self.insens = insens
        self.steps = 0
        self.memo = {}

    def equal(self, a, b, ctx=None):
        try:
            return self.go(a, b, ctx or {}, 0)
        except (GiveUp, TM.TooBig, RecursionError, AssertionError):
            return False

    # -- contexts: atom -> truth value

    def ends(self, atom, value=None):
        """Why the loops that the atom speaks of have ended."""
        hit = bool(value and atom.op == 'truthy' and atom.args[0].op == 'mhit' and atom.args[0].args[0].op == 'mu')
        key = ('ends', atom.uid, hit)
        r = self.memo.get(key)
        if r is not None:
            return r
        r, seen, todo = [], set(), [atom]
        while todo:
            t = todo.pop()
            if t.uid in seen:
                continue
            seen.add(t.uid)
            if t.op == 'mval' and t.args[0].op == 'mu' and t.args[0].args[0].op == 'forever' \
                    or hit and t is atom.args[0]:
                M = t.args[0]
                if M.uid not in seen:
                    seen.add(-M.uid)
                    body, vs = M.args[2], []
                    while body.op == 'lam':
                        v = TM.fresh_bv()
                        vs.append(v)
                        body = TM.inst_raw(body, v)
                    if body.op == 'vec' and body.args[0].op == 'stop':
                        m = {v: raw('mval', M, i) for i, v in enumerate(vs[1:])}
                        m[vs[0]] = raw('melem', M)
                        g = TM.subst(body.args[0].args[0], m)
                        if g not in r:
                            r.append(g)
            todo.extend(x for x in t.args if isinstance(x, T))
        self.memo[key] = r
        return r

    def consistent(self, ctx):
        c = TRUE
        atoms = list(ctx)
        for a in list(atoms):
            for g in self.ends(a, ctx[a]):
                c = TM.band(c, g)
        if c is not TRUE:
            atoms += [x for x in TM.atoms_of(c).values() if x not in ctx]
        c = TM.band(c, TM.axioms(atoms))
        for a, v in ctx.items():
            c = TM.restrict(c, a, v)
            if c is FALSE:
                return False
        return self.keys_agree(ctx, c)

    def keys_agree(self, ctx, c):
        """Does what is known about keys contradict what is known about their values?"""
        gets = self.gets(*ctx)
        if not gets:
            return True
        m = {}
        for a in TM.atoms_of(c).values():
            if a.op == 'in' and len(a.args) == 2 and a.args in gets and a not in ctx:
                if TM.restrict(c, a, 1) is FALSE:
                    m[a.args] = False
                elif TM.restrict(c, a, 0) is FALSE:
                    m[a.args] = True
        for a, v in ctx.items():
            if a.op == 'in' and a.args in gets:
                m[a.args] = v
        # a value that cannot be the default
        for k in list(gets)[:8]:
            if k not in m and any(len(g.args) > 3 for g in gets[k]) and not self.agree(ctx, gets, {k: False}):
                m[k] = True
        return all(self.agree(ctx, gets, {k: v}) for k, v in m.items())

    def agree(self, ctx, gets, m):
        sub = {}
        for k, v in m.items():
            for g in gets[k]:
                sub[g] = raw('item', k[1], k[0]) if v else g.args[3] if len(g.args) > 3 else NONE
        for a, v in ctx.items():
            b = TM.subst(a, sub)
            if b is a:
                continue
            if b.op == 'ite' and b.args[1] is TRUE and b.args[2] is FALSE:
                b = b.args[0]
            if b is TRUE or b is FALSE:
                if (b is TRUE) != bool(v):
                    return False
            elif ctx.get(b, v) != v:
                return False
        return True

    def known(self, atom, ctx, depth):
        v = ctx.get(atom)
        if v is not None:
            return v
        for w, v in ctx.items():
            if w.op == atom.op and len(w.args) == len(atom.args) and w is not atom \
                    and any(x is y or x.op == y.op and x.args and len(x.args) == len(y.args)
                            for x, y in zip(w.args, atom.args) if isinstance(x, T) and isinstance(y, T)):
                rest = {k: x for k, x in ctx.items() if k is not w}
                if self.args(w, atom, rest, depth + 1):
                    return v
                if v and atom.op == 'eq' and self.two_consts(w, atom, rest, depth):
                    return False
        return None

    def two_consts(self, w, atom, ctx, depth):
        """Both compare the same value, with different constants."""
        for x, y in (w.args, w.args[::-1]):
            for u, v in (atom.args, atom.args[::-1]):
                if x.op == 'const' and u.op == 'const' and isinstance(x.args[0], str) and isinstance(u.args[0], str) \
                        and x is not u and self.go(y, v, ctx, depth + 1):
                    return True
        return False

    def gets(self, *ts):
        """The calls x.get(k) and x.get(k, default) in the terms."""
        out, seen, todo = {}, set(), list(ts)
        while todo:
            t = todo.pop()
            if t.uid in seen:
                continue
            seen.add(t.uid)
            if t.op == 'mc' and t.args[1] == 'get' and 3 <= len(t.args) <= 4:
                out.setdefault((t.args[2], t.args[0]), []).append(t)
            todo.extend(x for x in t.args if isinstance(x, T))
        return out

    def facts(self, ctx, *ts):
        m = {}
        ins = [a for a in ctx if a.op == 'in' and len(a.args) == 2]
        if ins:
            gets = self.gets(*ts)
            for a in ins:
                for g in gets.get(a.args, ()):
                    m[g] = raw('item', a.args[1], a.args[0]) if ctx[a] else g.args[3] if len(g.args) > 3 else NONE
        for a, v in ctx.items():
            x = a.args[0]
            if a.op == 'isnone' and v:
                m[x] = NONE
            elif a.op == 'eq' and v:
                y = a.args[1]
                if y.op == 'const' and isinstance(y.args[0], str):
                    m[x] = y
                elif x.op == 'const' and isinstance(x.args[0], str):
                    m[y] = x
            elif a.op == 'truthy' and v and x.op == 'mc' and x.args[1] == 'get' and len(x.args) == 3 and len(a.args) == 1:
                # the key is there
                m[raw('item', x.args[0], x.args[2])] = x
                for g in self.gets(*ts).get((x.args[2], x.args[0]), ()):
                    if len(g.args) == 4:
                        m[g] = x
            elif a.op == 'isnone' and not v and x.op == 'mc' and x.args[1] == 'get' and len(x.args) == 3:
                m[raw('item', x.args[0], x.args[2])] = x
            elif a.op == 'truthy' and not v:
                e = raw('elems', *a.args)
                m[e] = EMPTY
            elif a.op == 'is' and v:
                m[a.args[1]] = x
        for k in list(m):
            if k.op in ('const', 'self', 'par') and m[k] is not NONE and m[k].op != 'const':
                del m[k]
        return m

    def none_of(self, ctx):
        """(sequence, condition) such that no element satisfies the condition."""
        return [(a.args[0], a.args[1]) for a, v in ctx.items() if a.op == 'ex' and not v]

    def without(self, t, none):
        """Use in t that no element of a sequence satisfies a condition."""
        memo = {}
        srcs = {}
        for s, c in none:
            srcs.setdefault(s, []).append(c)

        def bar(src, b, t):
            for c in srcs.get(src, ()):
                g = TM.bnot(TM.inst(c, b))
                if g is not FALSE:
                    t = TM.constrain(t, g)
            return t

        def go(t):
            if not t.args:
                return t
            r = memo.get(t.uid)
            if r is not None:
                return r
            new = [go(a) if isinstance(a, T) else a for a in t.args]
            if t.op == 'fm' and new[0].op != 'ite':
                src, lam = new
                b = TM.fresh_bv()
                e = b
                if src.op == 'mtrace' and src.args[0].op in ('mu', 'idle'):
                    src, e = src.args[0].args[0], mk('item', b, TM.const(0))
                if src in srcs:
                    r = mk('fm', new[0], TM.abstract(b, bar(src, e, TM.inst_raw(lam, b))))
            elif t.op == 'mu' and new[0] in srcs and new[2].op == 'lam':
                vs, body = [], new[2]
                for i in range(len(new[1].args) + 1):
                    v = TM.fresh_bv()
                    vs.append(v)
                    body = TM.inst_raw(body, v)
                if body.op == 'vec':
                    comps = []
                    for x in body.args:
                        comps.append(raw(x.op, bar(new[0], vs[0], x.args[0])) if x.op in ('stop', 'nx') else x)
                    r = raw('mu', new[0], new[1], TM.abstractn(vs, raw('vec', *comps)))
                    if comps[0].args[0] is FALSE and all(
                            c.args[0] is v or c.args[0].op == 'elems' and c.args[0].args[0] is v
                            for c, v in zip(comps[1:], vs[1:])):
                        r = raw('idle', new[0], new[1])
            elif t.op == 'mval' and new[0].op == 'idle':
                r = new[0].args[1].args[new[1]]
            if r is None:
                if all(x is y for x, y in zip(new, t.args)):
                    r = t
                elif t.op == 'ite':
                    r = TM.ite(raw('ite', new[0], TRUE, FALSE), new[1], new[2])
                else:
                    r = mk(t.op, *new) if t.op not in ('lam',) else raw(t.op, *new)
            memo[t.uid] = r
            return r
        return go(t)

    # -- comparison

    def go(self, a, b, ctx, depth):
        if a is b:
            return True
        self.steps += 1
        if self.steps > self.STEPS or depth > self.DEPTH:
            raise GiveUp()
        if not isinstance(a, T) or not isinstance(b, T):
            return a == b and type(a) is type(b)
        key = (a.uid, b.uid, frozenset(ctx.items()))
        r = self.memo.get(key)
        if r is None:
            r = self.memo[key] = self._go(a, b, ctx, depth)
        return r

    def _go(self, a, b, ctx, depth):
        if a.op == 'ite' or b.op == 'ite':
            v = None
            for x in (a, b):
                if x.op == 'ite' and (v is None or TM.akey(x.args[0]) < TM.akey(v)):
                    v = x.args[0]
            k = self.known(v, ctx, depth)
            if k is not None:
                return self.go(TM.cof(a, v, k), TM.cof(b, v, k), ctx, depth + 1)
            for k in (True, False):
                c = dict(ctx)
                c[v] = k
                if self.consistent(c) and not self.go(TM.cof(a, v, k), TM.cof(b, v, k), c, depth + 1):
                    return False
            return True
        m = self.facts(ctx, a, b)
        if m:
            a2, b2 = TM.subst(a, m), TM.subst(b, m)
            if a2 is not a or b2 is not b:
                return self.go(a2, b2, ctx, depth + 1)
        none = self.none_of(ctx)
        if none:
            a2, b2 = self.without(a, none), self.without(b, none)
            if a2 is not a or b2 is not b:
                return self.go(a2, b2, ctx, depth + 1)
        return self.congruent(a, b, ctx, depth)

    def congruent(self, a, b, ctx, depth):
        if a.op != b.op or len(a.args) != len(b.args) or not a.args:
            return False
        if a.op == 'lam':
            v = TM.fresh_bv()
            return self.go(TM.inst_raw(a, v), TM.inst_raw(b, v), ctx, depth + 1)
        return self.args(a, b, ctx, depth)

    def args(self, a, b, ctx, depth):
        if a.op in ('add', 'mul', 'cup', 'cap', 'eq') and len(a.args) <= 4:
            rest = list(b.args)
            for x in a.args:
                for y in rest:
                    if self.go(x, y, ctx, depth + 1):
                        rest.remove(y)
                        break
                else:
                    return False
            return True
        for x, y in zip(a.args, b.args):
            if self.go(x, y, ctx, depth + 1):
                continue
            if self.insens is None or a.op not in ('mc', 'call') or not isinstance(x, T) or x.op != 'kw' or y.op != 'kw' \
                    or x.args[0] != y.args[0] or not self.same_empty(a, x, y, ctx):
                return False
        return True

    def same_empty(self, call, x, y, ctx):
        """Both arguments are empty, and the function does not care how."""
        kinds = []
        for v in (x.args[1], y.args[1]):
            if v.op == 'coll' and v.args[1] is EMPTY or v.op == 'tup' and not v.args:
                kinds.append('empty')
            elif v is NONE:
                kinds.append('none')
            elif v.op == 'dflt':
                kinds.append('none')
            elif any(a.op == 'truthy' and a.args[0] is v and not k for a, k in ctx.items()):
                kinds.append('falsy')
            else:
                return False
        return self.insens(call, x.args[0], frozenset(kinds) - {'empty'})

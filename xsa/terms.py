"""Hash-consed value graph with multi-terminal decision diagrams.

A term is an interned node.  A *diagram* is a term whose top is `ite` nodes
over ordered atoms; its leaves are ordinary terms.  Every constructor goes
through mk(), which lifts decisions out of arguments, so that two expressions
that are equal up to the algebraic laws below become the *same* object.
Nothing here executes the analysed program: terms stand for values of
expressions, and laws are applied to them once, when they are built.
"""

import re
import sys
sys.setrecursionlimit(20000)


class TooBig(Exception):
    pass


class T(object):
    __slots__ = ('op', 'args', 'uid', 'fv', 'h', 'unk')

    def __repr__(self):
        return show(self, 6)


_table = {}
_next = [0]
LIMIT = [400000]
_base = [0]


def reset_budget(n=400000):
    _base[0] = _next[0]
    LIMIT[0] = n


def _pk(a):
    if isinstance(a, T):
        return a.uid
    return (type(a).__name__, a)


_EMPTY = frozenset()


def raw(op, *args):
    key = (op,) + tuple(_pk(a) for a in args)
    t = _table.get(key)
    if t is not None:
        return t
    t = T()
    t.op = op
    t.args = args
    _next[0] += 1
    if _next[0] - _base[0] > LIMIT[0]:
        raise TooBig()
    t.uid = _next[0]
    fv = _EMPTY
    h = 0
    unk = op == 'unk'
    for a in args:
        if isinstance(a, T):
            if a.fv:
                fv = fv | a.fv if fv else a.fv
            if a.h > h:
                h = a.h
            unk = unk or a.unk
    if op == 'bv' or op == 'carry':
        fv = frozenset([t.uid])
    elif op == 'lam':
        h = args[0]
    t.fv = fv
    t.h = h
    t.unk = unk
    _table[key] = t
    return t


# ---------------------------------------------------------------- constants

def const(v):
    return raw('const', v)


TRUE = const(True)
FALSE = const(False)
NONE = const(None)
ABSENT = raw('absent')
DEAD = raw('dead')
EMPTY = raw('empty')

_fresh = [0]


def fresh_bv(hint=''):
    _fresh[0] += 1
    return raw('bv', _fresh[0])


def fresh_carry(hint=''):
    _fresh[0] += 1
    return raw('carry', _fresh[0], hint)


def unknown(why, where=None):
    _fresh[0] += 1
    return raw('unk', '%s' % why, _fresh[0])


# ---------------------------------------------------------------- diagrams

# stronger facts come after weaker ones in the order
_RANK = {'truthy': 0, 'in': 1, 'ex': 1, 'isinst': 2, 'hasattr': 2, 'eq': 3,
         'lt': 3, 'exc': 4, 'isnone': 5, 'is': 5}


def akey(a):
    return (_RANK.get(a.op, 2), a.uid)


def is_bool(t):
    if t.op == 'ite':
        return is_bool(t.args[1]) and is_bool(t.args[2])
    return t is TRUE or t is FALSE


def node(v, hi, lo):
    if hi is lo:
        return hi
    if v.op == 'isnone':
        x = v.args[0]
        hi = _releaf(hi, x, NONE)
        if _releaf(lo, x, NONE) is hi:
            return lo
    return raw('ite', v, hi, lo)


_leaf_memo = {}


def _releaf(t, x, y):
    """t with the leaf x replaced by y."""
    if t is x:
        return y
    if t.op != 'ite':
        return t
    key = (t.uid, x.uid, y.uid)
    r = _leaf_memo.get(key)
    if r is None:
        r = node(t.args[0], _releaf(t.args[1], x, y), _releaf(t.args[2], x, y))
        _leaf_memo[key] = r
    return r


def cof(t, v, b):
    if t.op == 'ite' and t.args[0] is v:
        return t.args[1] if b else t.args[2]
    return t


_ite_memo = {}


def ite(f, g, h):
    """Diagram choosing g where the boolean diagram f holds, else h."""
    if f is TRUE:
        return g
    if f is FALSE:
        return h
    if g is h:
        return g
    if g is TRUE and h is FALSE:
        return f
    key = (f.uid, g.uid, h.uid)
    r = _ite_memo.get(key)
    if r is not None:
        return r
    assert f.op == 'ite', f
    v = f.args[0]
    for x in (g, h):
        if x.op == 'ite' and akey(x.args[0]) < akey(v):
            v = x.args[0]
    hi = ite(cof(f, v, 1), cof(g, v, 1), cof(h, v, 1))
    lo = ite(cof(f, v, 0), cof(g, v, 0), cof(h, v, 0))
    r = node(v, hi, lo)
    _ite_memo[key] = r
    return r


def bnot(f):
    return ite(f, FALSE, TRUE)


def band(f, g):
    return ite(f, g, FALSE)


def bor(f, g):
    return ite(f, TRUE, g)


def implies(f, g):
    return ite(f, g, TRUE) is TRUE


_lift_memo = {}


def lift(fn, key, args):
    """Apply fn to the leaves of the diagrams in args."""
    top = None
    for a in args:
        if isinstance(a, T) and a.op == 'ite':
            v = a.args[0]
            if top is None or akey(v) < akey(top):
                top = v
    if top is None:
        return fn(*args)
    mk_ = (key,) + tuple(_pk(a) for a in args)
    r = _lift_memo.get(mk_)
    if r is not None:
        return r
    hi = lift(fn, key, tuple(cof(a, top, 1) if isinstance(a, T) else a
                             for a in args))
    lo = lift(fn, key, tuple(cof(a, top, 0) if isinstance(a, T) else a
                             for a in args))
    r = ite(raw('ite', top, TRUE, FALSE), hi, lo)
    _lift_memo[mk_] = r
    return r


_builders = {}


def builder(op):
    def deco(f):
        _builders[op] = f
        return f
    return deco


NOLIFT = {'vec', 'stop', 'nx'}


def mk(op, *args):
    if op in NOLIFT:
        return raw(op, *args)
    b = _builders.get(op)
    if b is None:
        return lift(lambda *a: raw(op, *a), op, args)
    return lift(b, op, args)


def leaves(t, acc=None, seen=None):
    """All leaves of a diagram."""
    if acc is None:
        acc, seen = [], set()
    if t.uid in seen:
        return acc
    seen.add(t.uid)
    if t.op == 'ite':
        leaves(t.args[1], acc, seen)
        leaves(t.args[2], acc, seen)
    else:
        acc.append(t)
    return acc


def gated_leaves(t):
    """[(guard, leaf)] with the guards partitioning the space."""
    out = {}

    def walk(x, g):
        if x.op == 'ite':
            a = raw('ite', x.args[0], TRUE, FALSE)
            walk(x.args[1], band(g, a))
            walk(x.args[2], band(g, bnot(a)))
        else:
            out[x] = bor(out.get(x, FALSE), g)
    walk(t, TRUE)
    return [(g, x) for x, g in out.items()]


def atoms_of(t, acc=None, seen=None):
    if acc is None:
        acc, seen = {}, set()
    if t.uid in seen:
        return acc
    seen.add(t.uid)
    if t.op == 'ite':
        acc[t.args[0].uid] = t.args[0]
        atoms_of(t.args[1], acc, seen)
        atoms_of(t.args[2], acc, seen)
    return acc


def restrict(t, atom, b):
    """Cofactor of a diagram with respect to an atom anywhere in it."""
    memo = {}

    def go(x):
        if x.op != 'ite':
            return x
        r = memo.get(x.uid)
        if r is None:
            if x.args[0] is atom:
                r = go(x.args[1] if b else x.args[2])
            else:
                r = node(x.args[0], go(x.args[1]), go(x.args[2]))
            memo[x.uid] = r
        return r
    return go(t)


def constrain(f, c):
    """Coudert-Madre generalized cofactor: agrees with f wherever c holds."""
    memo = {}

    def go(f, c):
        if c is TRUE or f.op != 'ite':
            return f
        if c is FALSE:
            return f
        key = (f.uid, c.uid)
        r = memo.get(key)
        if r is not None:
            return r
        v = c.args[0]
        if akey(f.args[0]) < akey(v):
            v = f.args[0]
        c1, c0 = cof(c, v, 1), cof(c, v, 0)
        f1, f0 = cof(f, v, 1), cof(f, v, 0)
        if c1 is FALSE:
            r = go(f0, c0)
        elif c0 is FALSE:
            r = go(f1, c1)
        else:
            r = node(v, go(f1, c1), go(f0, c0))
        memo[key] = r
        return r
    return go(f, c)


# -------------------------------------------------------------- substitution

_sub_memo = {}


def subst(t, m):
    """Replace variables (bv/carry/other terms) and rebuild through mk()."""
    if not m:
        return t
    keys = frozenset(k.uid for k in m)
    memo = {}
    var_only = all(k.op in ('bv', 'carry') for k in m)

    def go(t):
        if t in m:
            return m[t]
        if var_only and not (t.fv & keys):
            return t
        r = memo.get(t.uid)
        if r is not None:
            return r
        if t.op == 'ite':
            a = go(t.args[0])
            if a is t.args[0]:
                a = raw('ite', a, TRUE, FALSE)
            if not is_bool(a):
                raise AssertionError('atom became non-boolean %r' % (a,))
            r = ite(a, go(t.args[1]), go(t.args[2]))
        elif t.op == 'lam':
            b = fresh_bv()
            body = go(inst_raw(t, b))
            r = abstract(b, body)
        elif not t.args:
            r = t
        else:
            new = [go(a) if isinstance(a, T) else a for a in t.args]
            if all(x is y for x, y in zip(new, t.args)):
                r = t if t.op not in ATOMS else raw('ite', t, TRUE, FALSE)
            elif t.op in ATOMS:
                r = mk(t.op, *new)
            else:
                r = mk(t.op, *new)
        memo[t.uid] = r
        return r
    return go(t)


ATOMS = {'truthy', 'in', 'ex', 'isinst', 'hasattr', 'eq', 'lt', 'exc',
         'isnone', 'is', 'matchcase', 'issub'}


def atom(op, *args):
    return raw('ite', raw(op, *args), TRUE, FALSE)


def abstract(bv, body):
    """Close body over bv, giving an alpha-canonical `lam` node."""
    h = body.h + 1
    v = raw('bvar', h)
    body = _replace(body, bv, v)
    r = raw('lam', h, body)
    s = _simp_memo.get(r.uid)
    if s is None:
        s = raw('lam', h, simplify_inner(body))
        if s.args[1].h + 1 != h:
            # the simplification removed the deepest binder: re-close
            b = fresh_bv()
            s = abstract(b, inst_raw(s, b))
        _simp_memo[r.uid] = s
    return s


_simp_memo = {}


def abstractn(bvs, body):
    for b in reversed(bvs):
        body = abstract(b, body)
    return body


def _replace(t, bv, v):
    """Plain structural replacement: shape is unchanged by renaming, except
    that diagrams have to be re-sorted."""
    memo = {}
    u = bv.uid

    def go(t):
        if t is bv:
            return v
        if u not in t.fv:
            return t
        r = memo.get(t.uid)
        if r is None:
            new = [go(a) if isinstance(a, T) else a for a in t.args]
            if t.op == 'ite':
                a = new[0]
                r = ite(raw('ite', a, TRUE, FALSE), new[1], new[2])
            elif t.op in ('eq', 'cup', 'cap', 'add', 'mul'):
                # commutative: re-sort
                new.sort(key=lambda x: x.uid)
                r = raw(t.op, *new)
            else:
                r = raw(t.op, *new)
            memo[t.uid] = r
        return r
    return go(t)


def inst_raw(lam, v):
    """Open a lam with a variable (no simplification needed)."""
    h, body = lam.args
    bvar = raw('bvar', h)
    memo = {}

    def go(t):
        if t is bvar:
            return v
        if t.op == 'const' or (t.h == 0 and not t.args):
            return t
        r = memo.get(t.uid)
        if r is None:
            if t.op == 'lam' and t.args[0] >= h:
                # cannot contain our variable: heights inside are smaller
                r = t
            else:
                new = [go(a) if isinstance(a, T) else a for a in t.args]
                if all(x is y for x, y in zip(new, t.args)):
                    r = t
                elif t.op == 'ite':
                    r = ite(raw('ite', new[0], TRUE, FALSE), new[1], new[2])
                elif t.op in ('eq', 'cup', 'cap', 'add', 'mul'):
                    new.sort(key=lambda x: x.uid)
                    r = raw(t.op, *new)
                else:
                    r = raw(t.op, *new)
            memo[t.uid] = r
        return r
    return go(body)


def inst(lam, v):
    """Apply a lam to a value (may be a diagram)."""
    if v.op in ('bv', 'carry'):
        return inst_raw(lam, v)
    b = fresh_bv()
    return subst(inst_raw(lam, b), {b: v})


_bv_src = {}


def simplify_inner(body):
    c = axioms(atoms_of(body).values())
    if c is not TRUE:
        return constrain(body, c)
    return body


# ------------------------------------------------------------------- axioms

DISJOINT = ({'builtins.int', 'builtins.str', 'builtins.slice',
             'builtins.tuple', 'builtins.dict', 'builtins.set',
             'builtins.bytes', 'builtins.float'},)

subclass_hook = [lambda a, b: False]


# string methods that give an empty string for an empty string
EMPTY_KEEPING = {'strip', 'lstrip', 'rstrip', 'lower', 'upper', 'title', 'capitalize', 'casefold', 'swapcase'}


def axioms(atoms):
    """Boolean diagram of facts that relate the given atoms."""
    c = TRUE
    by = {}
    atoms = list(atoms)
    for a in atoms:
        by.setdefault(a.op, []).append(a)

    def A(x):
        return raw('ite', x, TRUE, FALSE)

    def excl(x, y):
        return bnot(band(A(x), A(y)))

    def imp(x, y):
        return bor(bnot(A(x)), A(y))

    none = {a.args[0]: a for a in by.get('isnone', ())}
    truthy = {a.args[0]: a for a in by.get('truthy', ())}
    for x, a in none.items():
        if x in truthy:
            c = band(c, excl(a, truthy[x]))
        for b in by.get('isinst', ()):
            if b.args[0] is x:
                c = band(c, excl(a, b))
        for b in by.get('hasattr', ()):
            if b.args[0] is x:
                c = band(c, excl(a, b))
        for b in by.get('eq', ()):
            if x in b.args:
                o = b.args[1] if b.args[0] is x else b.args[0]
                if o.op == 'const' and o is not NONE or o.op in ('tup', 'strcat'):
                    c = band(c, excl(a, b))
    for x, a in truthy.items():
        if x.op == 'mc' and x.args[1] in EMPTY_KEEPING and x.args[0] in truthy:
            c = band(c, imp(a, truthy[x.args[0]]))
        for b in by.get('eq', ()):
            if x in b.args:
                o = b.args[1] if b.args[0] is x else b.args[0]
                if o.op == 'const':
                    c = band(c, imp(b, a) if o.args[0] else excl(a, b))
        for b in by.get('in', ()):
            if b.args[1] is x and b.args[2:] == a.args[1:]:
                c = band(c, imp(b, a))
        for b in by.get('ex', ()):
            s = b.args[0]
            if s.op == 'elems' and s.args[0] is x and s.args[1:] == a.args[1:]:
                c = band(c, imp(b, a))
    for a in by.get('exc', ()):
        # what fails to be replaced or deleted at an index also fails to be read there
        r = a.args[1] if len(a.args) > 1 and isinstance(a.args[1], T) else None
        if r is None or r.op != 'rawop' or r.args[1] not in ('__setitem__', '__delitem__'):
            continue
        tail = r.args[4:] if r.args[1] == '__delitem__' else r.args[5:]
        for b in by.get('exc', ()):
            q = b.args[1] if len(b.args) > 1 and isinstance(b.args[1], T) else None
            if q is not None and q.op == 'rawop' and q.args[1] == '__getitem__' and a.args[0] == b.args[0] \
                    and q.args[2:4] == r.args[2:4] and q.args[4:] == tail:
                c = band(c, imp(a, b))
    eqs = by.get('eq', ())
    for i, a in enumerate(eqs):
        for b in eqs[i + 1:]:
            sh = [x for x in a.args if x in b.args]
            if len(sh) == 1:
                o1 = [x for x in a.args if x is not sh[0]]
                o2 = [x for x in b.args if x is not sh[0]]
                if o1 and o2 and o1[0].op == o2[0].op == 'const' \
                        and o1[0].args[0] != o2[0].args[0]:
                    c = band(c, excl(a, b))
    ins = by.get('isinst', ())
    for i, a in enumerate(ins):
        for b in ins:
            if a is b or a.args[0] is not b.args[0]:
                continue
            ca, cb = a.args[1], b.args[1]
            if ca.op == cb.op == 'glob':
                na, nb = ca.args[0], cb.args[0]
                if subclass_hook[0](na, nb):
                    c = band(c, imp(a, b))
                for d in DISJOINT:
                    if na in d and nb in d:
                        c = band(c, excl(a, b))
    exs = by.get('ex', ())
    for i, a in enumerate(exs):
        for b in exs:
            if a is not b and a.args[0] is b.args[0]:
                v = fresh_bv()
                p, q = inst_raw(a.args[1], v), inst_raw(b.args[1], v)
                if implies(p, q):
                    c = band(c, imp(a, b))
    lts = by.get('lt', ())
    for i, a in enumerate(lts):
        for b in lts[i + 1:]:
            if a.args[0] is b.args[1] and a.args[1] is b.args[0]:
                c = band(c, excl(a, b))
        for b in eqs:
            if set(a.args) == set(b.args):
                c = band(c, excl(a, b))
    return c


# ---------------------------------------------------------- boolean builders

@builder('truthy')
def _truthy(t, *ver):
    if t.op == 'const':
        return TRUE if t.args[0] else FALSE
    if t.op == 'tup':
        return TRUE if t.args else FALSE
    if t.op == 'coll':
        return nonempty(t.args[1])
    if t.op == 'rec':
        if not t.args:
            return FALSE
        r = FALSE
        for kw in t.args:
            r = bor(r, lift(lambda v: FALSE if v is ABSENT else TRUE,
                            'present', (kw.args[1],)))
        return r
    if t.op in ('new', 'clo', 'lamv', 'glob', 'cls', 'gen'):
        return TRUE
    if t.op == 'strcat':
        if any(a.op == 'const' and a.args[0] for a in t.args):
            return TRUE
    if t.op == 'len':
        return nonempty(t.args[0])
    if t.op == 'seqv':
        return nonempty(t.args[0])
    if t.op in ('itr', 'fn', 'mu', 'file'):
        return TRUE
    if t.op == 'nogroup':
        return FALSE
    if t.op == 'inter' and not ver:
        b = fresh_bv()
        return mk('ex', mk('elems', t.args[0]), abstract(b, mk('in', b, t.args[1])))
    return atom('truthy', t, *ver)


@builder('isnone')
def _isnone(t):
    if t.op == 'const':
        return TRUE if t.args[0] is None else FALSE
    if t.op in ('tup', 'coll', 'rec', 'new', 'clo', 'lamv', 'strcat', 'glob',
                'cls', 'len', 'add', 'join', 'sub', 'self', 'super', 'fmt', 'itr', 'fn', 'seqv', 'file', 'range'):
        return FALSE
    if t.op == 'mc' and t.args[1] in ('match', 'search', 'fullmatch') and t.args[0].op == 'call' \
            and t.args[0].args[0].op == 'glob' and t.args[0].args[0].args[0] == 're.compile':
        return bnot(mk('truthy', t))
    if t.op == 'head' and t.args[0].op == 'fm' and never_none(t.args[0].args[1]):
        return FALSE
    if t.op == 'call' and t.args[0].op == 'glob' and t.args[0].args[0] in NEVER_NONE:
        return FALSE
    if strlike(t):
        return FALSE
    return atom('isnone', t)


NEVER_NONE = {'os.path.join', 'os.path.abspath', 'os.path.basename', 'os.path.dirname', 'os.path.normpath',
              'os.path.splitext', 'os.path.split', 'os.path.expanduser', 're.compile', 're.sub', 're.split', 're.findall',
              'json.dumps'}


def never_none(lam):
    """Are the elements that a filter lets through not None?  (They have an
    attribute that the filter looks at, or are keys of an attribute map.)"""
    b = fresh_bv()
    for g, leaf in gated_leaves(inst_raw(lam, b)):
        if leaf is EMPTY:
            continue
        if leaf.op != 'unit':
            return False
        v = leaf.args[0]
        if v is not b:
            if mk('isnone', v) is FALSE:
                continue
            return False
        for a in atoms_of(g).values():
            if a.op == 'in' and a.args[0] is b and a.args[1].op == 'attr' and a.args[1].args[1] in UNIQ_ATTRS \
                    and implies(g, raw('ite', a, TRUE, FALSE)):
                break
            if any(has_attr_of(x, b) for x in a.args if isinstance(x, T)) and restrict(g, a, 1) is not restrict(g, a, 0) \
                    and a is g.args[0]:
                break
        else:
            return False
    return True


def has_attr_of(t, b):
    if b.uid not in t.fv or t.op in ('ite', 'lam'):
        return False
    if t.op == 'attr' and t.args[0] is b:
        return True
    return any(has_attr_of(x, b) for x in t.args if isinstance(x, T))



def same_const(a, b):
    return type(a) is type(b) and a == b or (
        isinstance(a, (int, float)) and isinstance(b, (int, float)) and a == b)


@builder('eq')
def _eq(a, b):
    if a is b and not a.unk:
        return TRUE
    if a is NONE:
        return mk('isnone', b)
    if b is NONE:
        return mk('isnone', a)
    if a.op == 'const' and b.op == 'const':
        return TRUE if same_const(a.args[0], b.args[0]) else FALSE
    if a.op == 'tup' and b.op == 'tup':
        if len(a.args) != len(b.args):
            return FALSE
        r = TRUE
        for x, y in zip(a.args, b.args):
            r = band(r, mk('eq', x, y))
        return r
    for x, y in ((a, b), (b, a)):
        if x.op == 'len' and y.op == 'const' and y.args[0] == 0:
            return bnot(nonempty(x.args[0]))
        if x.op == 'const' and type(x.args[0]) is int and x.args[0] <= 0 and isidx(y):
            return bnot(atom('truthy', y)) if x.args[0] == 0 else FALSE
        if x.op == 'const' and isinstance(x.args[0], str) and x.args[0] and y.op == 'sub' and len(y.args) == 2 \
                and y.args[1].op == 'slice' and y.args[1].args[2] is NONE:
            i, j, _ = y.args[1].args
            if i in (NONE, const(0)) and j is const(len(x.args[0])):
                return mk('truthy', mk('mc', y.args[0], 'startswith', x))
            if j is NONE and i is const(-len(x.args[0])):
                return mk('truthy', mk('mc', y.args[0], 'endswith', x))
        if x.op == 'const' and x.args[0] == '' and y.op == 'strcat':
            if any(p.op == 'const' and p.args[0] for p in y.args):
                return FALSE
    if b.uid < a.uid:
        a, b = b, a
    return atom('eq', a, b)


@builder('is')
def _is(a, b):
    if a is b:
        return TRUE
    if a is NONE or b is NONE:
        return _eq(a, b)
    if a.op == 'const' and b.op == 'const':
        return _eq(a, b)
    if b.uid < a.uid:
        a, b = b, a
    return atom('is', a, b)


def isidx(x):
    """The number of an element in an enumeration that starts at zero."""
    if x.op == 'idx':
        return True
    if x.op == 'item' and len(x.args) == 2 and x.args[1].op == 'const' and x.args[1].args[0] == 0:
        s = _bv_src.get(x.args[0])
        return s is not None and s.op == 'enum'
    return False


@builder('lt')
def _lt(a, b):
    if a is b:
        return FALSE
    if a.op == 'const' and type(a.args[0]) is int and a.args[0] <= 0 and isidx(b):
        return atom('truthy', b) if a.args[0] == 0 else TRUE
    if b.op == 'const' and type(b.args[0]) is int and b.args[0] <= 1 and isidx(a):
        return bnot(atom('truthy', a)) if b.args[0] == 1 else FALSE
    if a.op == 'const' and b.op == 'const':
        try:
            return TRUE if a.args[0] < b.args[0] else FALSE
        except TypeError:
            pass
    # len(x) > 0, len(x) < 1
    if a.op == 'const' and b.op == 'len' and a.args[0] == 0:
        return nonempty(b.args[0])
    if a.op == 'len' and b.op == 'const' and b.args[0] == 1:
        return bnot(nonempty(a.args[0]))
    if a.op == 'len' and b.op == 'const' and b.args[0] in (0, -1):
        return FALSE
    # integer forms: n < len(x)+... keep; a <= n  is  not n < a
    if b.op == 'add' and a.op != 'add':
        k = [x for x in b.args if x.op == 'const']
        if k and isinstance(k[0].args[0], int) and k[0].args[0] == 1 \
                and len(b.args) == 2:
            # a < b + 1  ==  not b < a   (integers)
            o = [x for x in b.args if x is not k[0]][0]
            return bnot(mk('lt', o, a))
    if a.op == 'const' and isinstance(a.args[0], int) \
            and not isinstance(a.args[0], bool) and b.op == 'len':
        # n < len(x)  ==  not len(x) < n+1 : canonical on the first
        return atom('lt', a, b)
    if a.op == 'len' and b.op == 'const' and isinstance(b.args[0], int):
        return bnot(mk('lt', const(b.args[0] - 1), a))
    return atom('lt', a, b)


@builder('isinst')
def _isinst(a, c):
    if c.op == 'tup':
        r = FALSE
        for x in c.args:
            r = bor(r, mk('isinst', a, x))
        return r
    if a.op == 'const' and c.op == 'glob':
        n = c.args[0]
        m = {'builtins.str': str, 'builtins.int': int, 'builtins.list': list,
             'builtins.tuple': tuple, 'builtins.dict': dict,
             'builtins.slice': slice, 'builtins.bytes': bytes}
        if n in m:
            return TRUE if isinstance(a.args[0], m[n]) else FALSE
        if a is NONE:
            return FALSE
    if a.op == 'strcat' and c.op == 'glob' and c.args[0].startswith('builtins.'):
        return TRUE if c.args[0] in ('builtins.str', 'builtins.object') else FALSE
    return atom('isinst', a, c)


@builder('hasattr')
def _hasattr(a, n):
    if a is NONE:
        return FALSE
    return atom('hasattr', a, n)


@builder('exc')
def _exc(*args):
    return atom('exc', *args)


@builder('matchcase')
def _mc(*args):
    return atom('matchcase', *args)


def written(k, ver):
    """What the events say about a string key: ('set', value), ('gone',) or
    ('same',); None if they do not tell."""
    if k.op != 'const' or not isinstance(k.args[0], str):
        return None
    for p in reversed(ver.args if ver.op == 'cat' else (ver,)):
        e = p.args[0] if p.op == 'unit' else None
        if e is None or e.op != 'ev' or e.args[0] not in ('__setitem__', '__delitem__') \
                or e.args[1].op != 'const' or not isinstance(e.args[1].args[0], str):
            return None
        if e.args[1] is k:
            return ('set', e.args[2]) if e.args[0] == '__setitem__' else ('gone',)
    return ('same',)


@builder('in')
def _in(k, x, *ver):
    if ver and len(ver) == 1:
        w = written(k, ver[0])
        if w is not None:
            if w[0] != 'same':
                return TRUE if w[0] == 'set' else FALSE
            ver = ()
    if x.op in ('tup',):
        r = FALSE
        for e in x.args:
            r = bor(r, mk('eq', k, e))
        return r
    if x.op == 'coll':
        s = keyseq(x)
        b = fresh_bv()
        return mk('ex', s, abstract(b, mk('eq', b, k)))
    if x.op == 'rec':
        r = FALSE
        for kw in x.args:
            pres = lift(lambda v: FALSE if v is ABSENT else TRUE, 'present',
                        (kw.args[1],))
            r = bor(r, band(mk('eq', k, const(kw.args[0])), pres))
        return r
    if x.op == 'elems':
        return mk('in', k, x.args[0], *x.args[1:])
    if x.op == 'seqv':
        b = fresh_bv()
        return mk('ex', x.args[0], abstract(b, mk('eq', b, k)))
    if x.op == 'inter':
        return band(mk('in', k, x.args[0]), mk('in', k, x.args[1]))
    if x.op == 'setdiff':
        return band(mk('in', k, x.args[0]), bnot(mk('in', k, x.args[1])))
    return atom('in', k, x, *ver)


def keyseq(x):
    if x.op == 'coll':
        if x.args[0] in ('dict', 'odict', 'counter') or x.args[0].startswith('dd:'):
            b = fresh_bv()
            return mk('uniq', lift(once, 'once', (mk('fm', x.args[1],
                      abstract(b, mk('unit', mk('item', b, const(0))))),)))
        if x.args[0] == 'set':
            return mk('uniq', x.args[1])
        return x.args[1]
    return mk('elems', x)


def once(s):
    """Without what is repeated at once."""
    if s.op == 'cat':
        out = []
        for p in s.args:
            p = once(p)
            if not (out and p.op == 'unit' and p is out[-1]):
                out.append(p)
        return cat(*out)
    if s.op == 'fm':
        b = fresh_bv()
        o = inst_raw(s.args[1], b)
        n = lift(once, 'once', (o,))
        return s if n is o else mk('fm', s.args[0], abstract(b, n))
    return s


@builder('uniq')
def _uniq(s):
    if s is EMPTY or s.op in ('unit', 'uniq'):
        return s
    if s.op == 'cat' and all(p.op == 'unit' and p.args[0].op == 'const' for p in s.args):
        seen = set()
        if all(p not in seen and not seen.add(p) for p in s.args):
            return s
    if s.op == 'elems' and s.args[0].op == 'attr' and s.args[0].args[1] in UNIQ_ATTRS:
        return s
    if s.op == 'fm' and s.args[0].op == 'elems':
        # the items of a mapping
        b = fresh_bv()
        u = inst_raw(s.args[1], b)
        if u.op == 'unit' and u.args[0].op == 'tup' and len(u.args[0].args) == 2 and u.args[0].args[0] is b \
                and u.args[0].args[1].op == 'item' and u.args[0].args[1].args[:2] == (s.args[0].args[0], b):
            return s
    return raw('uniq', s)


UNIQ_ATTRS = {'attributes', 'nsmap', '_dict', '_itemdict'}


def nonempty(s):
    """Boolean diagram: the sequence has an element."""
    def f(s):
        if s is EMPTY:
            return FALSE
        if s.op == 'unit':
            return TRUE
        if s.op == 'cat':
            r = FALSE
            for a in s.args:
                r = bor(r, nonempty(a))
            return r
        if s.op == 'elems':
            if len(s.args) == 1:
                return mk('truthy', s.args[0]) if s.args[0].op == 'inter' else atom('truthy', s.args[0])
            return atom('truthy', *s.args)
        if s.op in ('rev', 'sortd', 'uniq', 'enum', 'pairs', 'groups'):
            return nonempty(s.args[0]) if s.op != 'pairs' else nonempty(keyseq(s.args[0]))
        if s.op == 'fm':
            return mk('ex', s.args[0], _lam_nonempty(s.args[1]))
        return atom('truthy', s)
    return lift(f, 'nonempty', (s,))


def _lam_nonempty(l):
    b = fresh_bv()
    return abstract(b, nonempty(inst_raw(l, b)))


@builder('ex')
def _ex(src, lam):
    """Some element of src satisfies lam."""
    if src is EMPTY:
        return FALSE
    r = refind(src, lam)
    if r is not None:
        return mk('ex', *r)
    if src.op == 'unit':
        return tobool(inst(lam, src.args[0]))
    if src.op == 'cat':
        r = FALSE
        for a in src.args:
            r = bor(r, mk('ex', a, lam))
        return r
    if src.op in ('rev', 'sortd', 'uniq'):
        return mk('ex', src.args[0], lam)
    if src.op == 'enum':
        o = unenum(src, lam)
        if o is not None:
            return mk('ex', src.args[0], o)
    body = lam.args[1]
    if body is FALSE:
        return FALSE
    if body is TRUE:
        if src.op == 'fm':
            return mk('ex', src.args[0], _lam_nonempty(src.args[1]))
        return nonempty(src)
    if src.op == 'fm':
        b = fresh_bv()
        _bv_src[b] = src.args[0]
        inner = inst_raw(src.args[1], b)
        return mk('ex', src.args[0], abstract(b, exists_seq(inner, lam)))
    # loop-invariant atoms
    bv = raw('bvar', lam.args[0])
    if src.op == 'uniq':
        o = by_items(src, lam, bv, 'ex')
        if o is not None:
            return o
    for a in atoms_of(body).values():
        if not contains(a, bv):
            f = raw('ite', a, TRUE, FALSE)
            b = fresh_bv()
            o = inst_raw(lam, b)
            return ite(f, mk('ex', src, abstract(b, restrict(o, a, 1))),
                       mk('ex', src, abstract(b, restrict(o, a, 0))))
    # exists x in X: x == k   is   k in X
    if body.op == 'ite' and body.args[1] is TRUE and body.args[2] is FALSE \
            and src.op == 'elems' and body.args[0].op == 'eq':
        x, y = body.args[0].args
        for p, q in ((x, y), (y, x)):
            if p is bv and not contains(q, bv):
                return mk('in', q, src.args[0], *src.args[1:])
    # exists x in X: x == k and g(x)   is   k in X and g(k)
    if src.op == 'elems':
        b = fresh_bv()
        o = inst_raw(lam, b)
        for a in atoms_of(o).values():
            if a.op == 'eq' and b in a.args and restrict(o, a, 0) is FALSE:
                k = a.args[1] if a.args[0] is b else a.args[0]
                if not contains(k, b):
                    g = abstract(b, restrict(o, a, 1))
                    return band(mk('in', k, src.args[0], *src.args[1:]), tobool(inst(g, k)))
    # exists x in X, y in Y: the order does not matter
    if body.op == 'ite' and body.args[1] is TRUE and body.args[2] is FALSE and body.args[0].op == 'ex' \
            and not contains(body.args[0].args[0], bv) and not _swapping:
        x, y = fresh_bv(), fresh_bv()
        o = inst_raw(lam, x)
        src2, lam2 = o.args[0].args
        _bv_src[x], _bv_src[y] = src, src2
        _swapping.append(1)
        try:
            inner = mk('ex', src, abstract(x, inst_raw(lam2, y)))
            if not (inner.op == 'ite' and inner.args[0].op == 'ex') or src2.uid < src.uid:
                return mk('ex', src2, abstract(y, inner))
        finally:
            _swapping.pop()
    return atom('ex', src, lam)


_swapping = []


def unenum(src, lam):
    """lam over enum(s) that ignores the index, as a lam over s."""
    b = fresh_bv()
    body = inst_raw(lam, b)
    one = raw('item', b, const(1))
    seen = set()

    def bare(t):
        if t is one:
            return False
        if t is b:
            return True
        if t.uid in seen or b.uid not in t.fv:
            return False
        seen.add(t.uid)
        return any(bare(a) for a in t.args if isinstance(a, T))
    if bare(body):
        return None
    e = fresh_bv()
    _bv_src[e] = src.args[0]
    return abstract(e, subst(body, {one: e}))


def exists_seq(s, lam):
    return lift(lambda s: mk('ex', s, lam), ('exseq', lam.uid), (s,))


def tobool(t):
    """Diagram of truth of each leaf."""
    return mk('truthy', t) if not is_bool(t) else t


def contains(t, v):
    """Does t contain the (bvar) node v free?"""
    seen = set()

    def go(t):
        if t is v:
            return True
        if t.uid in seen:
            return False
        seen.add(t.uid)
        if v.op == 'bvar' and t.op == 'lam' and t.args[0] >= v.args[0]:
            return False
        return any(go(a) for a in t.args if isinstance(a, T))
    return go(t)


def leftover(t, ops, seen):
    """An operator of ops that occurs in t, or None."""
    todo = [t]
    while todo:
        x = todo.pop()
        if x.uid in seen:
            continue
        seen.add(x.uid)
        if x.op in ops:
            return x.op
        todo.extend(a for a in x.args if isinstance(a, T))
    return None


# -------------------------------------------------------- sequence builders

@builder('cat')
def _cat(*parts):
    out = []
    for p in parts:
        if p is EMPTY:
            continue
        if p.op == 'cat':
            out.extend(p.args)
        else:
            out.append(p)
    if not out:
        return EMPTY
    if len(out) == 1:
        return out[0]
    return raw('cat', *out)


def cat(*parts):
    """Binary, so that lifting stays cheap."""
    r = EMPTY
    for p in parts:
        r = mk('cat', r, p)
    return r


@builder('elems')
def _elems(x, *ver):
    if x.op == 'tup':
        return cat(*[mk('unit', a) for a in x.args])
    if x.op == 'coll':
        return keyseq(x)
    if x.op == 'rec':
        parts = []
        for kw in x.args:
            parts.append(lift(
                lambda v: EMPTY if v is ABSENT
                else raw('unit', const(kw.args[0])),
                ('reckey', kw.args[0]), (kw.args[1],)))
        return cat(*parts)
    if x.op == 'const' and isinstance(x.args[0], str) and len(x.args[0]) < 9:
        return cat(*[mk('unit', const(ch)) for ch in x.args[0]])
    if x.op == 'seqv':
        return x.args[0]
    if x.op == 'mc' and x.args[1] == 'get' and len(x.args) == 4 and x.args[3].op == 'tup' and not x.args[3].args:
        # an empty default of any kind has no elements
        x = raw('mc', *(x.args[:3] + (raw('coll', 'list', EMPTY),)))
    if x.op == 'sub' and x.args[1].op == 'slice' and x.args[1].args[0] is NONE and x.args[1].args[1] is NONE \
            and x.args[1].args[2] is const(-1):
        return mk('rev', mk('elems', x.args[0], *x.args[2:]))
    if x.op == 'sub' and len(x.args) == 2 and x.args[1].op == 'slice' and x.args[1].args[0] is NONE \
            and x.args[1].args[2] is NONE and not ver:
        n = x.args[1].args[1]
        if n.op in ('par', 'bv') or n.op == 'item' and n.args[0].op == 'bv' and n.args[1] is const(0):
            # the elements before index n
            b = fresh_bv()
            return mk('fm', raw('range', const(0), n, const(1)), abstract(b, mk('unit', mk('item', x.args[0], b))))
    return raw('elems', x, *ver)


@builder('fm')
def _fm(src, lam):
    """Concatenation of lam(e) for the elements e of src."""
    if src is EMPTY:
        return EMPTY
    body = lam.args[1]
    if body is EMPTY:
        return EMPTY
    r = refind(src, lam)
    if r is not None:
        return mk('fm', *r)
    if src.op == 'unit':
        return inst(lam, src.args[0])
    if src.op == 'cat':
        return cat(*[mk('fm', a, lam) for a in src.args])
    bv = raw('bvar', lam.args[0])
    if body.op == 'unit' and body.args[0] is bv:
        return src
    if src.op == 'enum' and body.op == 'unit' and body.args[0].op == 'tup' and \
            body.args[0].args == (raw('item', bv, const(0)), raw('item', bv, const(1))):
        return src
    if body.op == 'ite' and body.args[0].op == 'truthy' and body.args[0].args[0] is bv and never_empty(src):
        b = fresh_bv()
        o = inst_raw(lam, b)
        return mk('fm', src, abstract(b, restrict(o, raw('truthy', b), 1)))
    if src.op == 'fm':
        b = fresh_bv()
        _bv_src[b] = src.args[0]
        inner = inst_raw(src.args[1], b)
        return mk('fm', src.args[0], abstract(b, mk('fm', inner, lam)))
    if src.op == 'enum':
        o = unenum(src, lam)
        if o is not None:
            return mk('fm', src.args[0], o)
    if src.op == 'mtrace' and src.args[0].op == 'mu':
        o = running_count(src.args[0], lam)
        if o is not None:
            return o
    if src.op == 'uniq':
        o = by_items(src, lam, bv)
        if o is not None:
            return o
    for a in atoms_of(body).values():
        if not contains(a, bv):
            f = raw('ite', a, TRUE, FALSE)
            b = fresh_bv()
            o = inst_raw(lam, b)
            return ite(f, mk('fm', src, abstract(b, restrict(o, a, 1))),
                       mk('fm', src, abstract(b, restrict(o, a, 0))))
    return raw('fm', src, lam)


def running_count(m, lam):
    """A counter that runs through nested loops, as a numbering of all their elements."""
    if len(m.args[1].args) != 1 or m.args[2].op != 'lam':
        return None
    b, c = fresh_bv(), fresh_bv()
    body = inst_raw(m.args[2], b)
    if body.op != 'lam':
        return None
    body = inst_raw(body, c)
    if body.op != 'vec' or len(body.args) != 2 or body.args[0].args[0] is not FALSE:
        return None
    n = body.args[1].args[0]
    if n.op != 'add' or c not in n.args or len(n.args) != 2:
        return None
    n = n.args[1] if n.args[0] is c else n.args[0]
    if n.op != 'len' or contains(n, c):
        return None
    p, q, r = fresh_bv(), fresh_bv(), fresh_bv()
    e = inst_raw(lam, p)
    if e.op != 'fm' or e.args[0].op != 'enum' or e.args[0].args[0] is not subst(n.args[0], {b: raw('item', p, const(0))}):
        return None
    e = inst_raw(e.args[1], q)
    cnt, idx = raw('item', p, const(1)), raw('item', q, const(0))
    m2, seen, todo = {}, set(), [e]
    while todo:
        x = todo.pop()
        if x.uid in seen:
            continue
        seen.add(x.uid)
        if x.op in ('plus', 'add') and cnt in x.args and idx in x.args:
            # the number of all elements before
            y = mk('add', raw('item', r, const(0)), m.args[1].args[0])
            for z in x.args:
                if z is not cnt and z is not idx:
                    y = mk('add', y, z)
            m2[x] = y
        else:
            todo.extend(a for a in x.args if isinstance(a, T))
    m2[raw('item', q, const(1))] = raw('item', r, const(1))
    e = subst(e, m2)
    if contains(e, p) or contains(e, q):
        return None
    return mk('fm', mk('enum', mk('fm', m.args[0], abstract(b, n.args[0]))), abstract(r, e))


def by_items(src, lam, bv, op='fm'):
    """Going through the keys of a dictionary and looking each up, as going
    through its items."""
    seen, todo = set(), [lam.args[1]]
    while todo:
        x = todo.pop()
        if x.uid in seen:
            continue
        seen.add(x.uid)
        if x.op == 'item' and len(x.args) == 2 and x.args[1] is bv and x.args[0].op == 'coll' \
                and not contains(x.args[0], bv) and keyseq(x.args[0]) is src:
            d, b = x.args[0], fresh_bv()
            o = inst_raw(lam, b)
            p = fresh_bv()
            o = subst(o, {raw('item', d, b): mk('item', p, const(1))})
            o = subst(o, {b: mk('item', p, const(0))})
            return mk(op, mk('pairs', d), abstract(p, o))
        todo.extend(a for a in x.args if isinstance(a, T))
    return None


@builder('head')
def _head(s):
    """First element of a sequence known to be non-empty."""
    if s.op == 'unit':
        return s.args[0]
    if s.op == 'cat' and s.args[0].op == 'unit':
        return s.args[0].args[0]
    if s.op == 'cat':
        f = s.args[0]
        return ite(nonempty(f), mk('head', f), mk('head', cat(*s.args[1:])))
    if s.op == 'fm':
        # head of a filtered map: the function of the first match
        b = fresh_bv()
        body = inst_raw(s.args[1], b)
        ls = leaves(body)
        if all(l is EMPTY or l.op == 'unit' for l in ls) and any(
                l is not EMPTY and l.args[0] is not b for l in ls):
            c = lift(lambda l: FALSE if l is EMPTY else TRUE, 'isunit', (body,))
            h = raw('head', mk('fm', s.args[0], abstract(b, ite(c, raw('unit', b), EMPTY)))) \
                if c is not TRUE else mk('head', s.args[0])
            v = lift(lambda l: DEAD if l is EMPTY else l.args[0], 'unitval', (body,))
            return subst(constrain(v, c), {b: h})
    if s.op == 'uniq':
        return mk('head', s.args[0])
    if s.op == 'rev' and s.args[0].op == 'elems' and len(s.args[0].args) == 1:
        return mk('item', s.args[0].args[0], const(-1))
    return raw('head', s)


@builder('rev')
def _rev(s):
    if s is EMPTY or s.op == 'unit':
        return s
    if s.op == 'fm' and all(l is EMPTY or l.op == 'unit' for l in leaves(s.args[1].args[1])):
        return mk('fm', mk('rev', s.args[0]), s.args[1])
    if s.op == 'cat':
        return cat(*[mk('rev', a) for a in reversed(s.args)])
    if s.op == 'rev':
        return s.args[0]
    return raw('rev', s)


@builder('len')
def _len(s):
    """Length of a sequence."""
    if s is EMPTY:
        return const(0)
    if s.op == 'unit':
        return const(1)
    if s.op == 'cat':
        r = const(0)
        for a in s.args:
            r = mk('add', r, mk('len', a))
        return r
    if s.op in ('rev', 'sortd', 'enum'):
        return mk('len', s.args[0])
    if s.op == 'fm':
        # a one-to-one map keeps the length
        body = s.args[1].args[1]
        if body.op == 'unit':
            return mk('len', s.args[0])
        b = fresh_bv()
        o = inst_raw(s.args[1], b)
        n = lift(lambda x: raw('unit', const(0)) if x.op == 'unit' else x,
                 'anon', (o,))
        if n is not o:
            return mk('len', mk('fm', s.args[0], abstract(b, n)))
    return raw('len', s)


@builder('first')
def _first(s, d):
    """First element of s or d."""
    return ite(nonempty(s), mk('head', s) if s is not EMPTY else d, d)


# ------------------------------------------------------------ value builders

@builder('path')
def _path(x, *ks):
    if x.op != 'coll':
        return raw('path', x, *ks)
    for k in ks:
        x = mk('item', x, k)
    return x


def index_elem(s, k):
    """Element of s at the index of an enumeration of s."""
    if k.op != 'item' or len(k.args) != 2 or k.args[1].op != 'const' or k.args[1].args[0] != 0:
        return None
    src = _bv_src.get(k.args[0])
    if src is None or src.op != 'enum':
        return None
    q = src.args[0]
    e = raw('item', k.args[0], const(1))
    if s is q:
        return e
    if s.op == 'fm' and s.args[0] is q and s.args[1].args[1].op == 'unit':
        return inst(s.args[1], e).args[0]
    return None


def atmost_one(lam):
    """Is the body of lam a diagram of empty and one-element sequences?"""
    lv = [l for g, l in gated_leaves(lam.args[1])]
    if all(l is EMPTY or l.op == 'unit' for l in lv) and any(l.op == 'unit' for l in lv):
        return lv
    return None


def mapped_value(s, k):
    """{x: f(x) for x in s if g(x)}[k]"""
    if s.args[0].op != 'elems':
        return None
    b = fresh_bv()
    found = None
    for g, u in gated_leaves(inst_raw(s.args[1], b)):
        if u is EMPTY:
            continue
        if found is not None or u.op != 'unit' or u.args[0].op != 'tup' or len(u.args[0].args) != 2 or u.args[0].args[0] is not b:
            return None
        found = u.args[0].args[1]
    if found is None or not contains(found, b):
        return None
    return inst(abstract(b, found), k)


@builder('item')
def _item(x, k, *ver):
    if x.op == 'pm' and k.op == 'const' and k.args[0] == 0:
        return x.args[0]
    if ver and len(ver) == 1 and ver[0] is not EMPTY:
        w = written(k, ver[0])
        if w is not None and w[0] == 'set':
            return w[1]
        if w is not None and w[0] == 'same':
            return mk('item', x, k)
    if x.op == 'mc' and x.args[1] == 'partition' and len(x.args) == 3 and k.op == 'const' and k.args[0] in (0, 1, 2):
        s, sep = x.args[0], x.args[2]
        if k.args[0] == 0:
            return raw('item', raw('mc', s, 'split', sep, const(1)), k)
        return ite(mk('in', sep, s), sep if k.args[0] == 1 else
                   raw('item', raw('mc', s, 'split', sep, const(1)), const(1)), const(''))
    if k.op == 'item' and len(k.args) == 2 and k.args[1].op == 'const' and k.args[1].args[0] == 0:
        src = _bv_src.get(k.args[0])
        if src is not None and src.op == 'enum':
            q = src.args[0]
            if q.op == 'elems' and q.args[0] is x and q.args[1:] == ver:
                return raw('item', k.args[0], const(1))
            if x.op == 'coll' and x.args[0] in ('list', 'tuple'):
                v = index_elem(x.args[1], k)
                if v is not None:
                    return v
    if x.op == 'tup' and k.op == 'const' and isinstance(k.args[0], int):
        i = k.args[0]
        if -len(x.args) <= i < len(x.args):
            return x.args[i]
    if x.op == 'sub' and len(x.args) == 2 and not ver and x.args[1].op == 'slice' and x.args[1].args[2] is NONE \
            and k.op == 'const' and type(k.args[0]) is int and k.args[0] >= 0:
        # xs[a:b][k] with k inside of the bounds
        a, b = x.args[1].args[:2]
        lo = 0 if a is NONE else a.args[0] if a.op == 'const' else -1
        hi = None if b is NONE else b.args[0] if b.op == 'const' else -1
        if type(lo) is int and lo >= 0 and (hi is None or type(hi) is int and hi > lo + k.args[0]):
            return mk('item', x.args[0], const(lo + k.args[0]))
    if x.op == 'rec' and k.op == 'const':
        for kw in x.args:
            if kw.args[0] == k.args[0]:
                return lift(lambda v: raw('item', x, k) if v is ABSENT else v,
                            ('recitem', x.uid, k.uid), (kw.args[1],))
    if x.op == 'coll' and x.args[0] in ('list', 'tuple') \
            and k.op == 'const' and isinstance(k.args[0], int):
        s = x.args[1]
        parts = s.args if s.op == 'cat' else (s,)
        i = k.args[0]
        if all(p.op == 'unit' for p in parts) and -len(parts) <= i < len(parts):
            return parts[i].args[0]
        if i == 0:
            if s.op == 'unit' or s.op == 'cat' and parts[0].op == 'unit':
                return parts[0].args[0]
    if x.op == 'mc' and not ver and is_match(x) or x.op == 'bv' and not ver and is_match(x):
        return mk('mc', x, 'group', k)
    if x.op == 'coll' and x.args[0] == 'dict' and not ver and k.op not in ('const', 'tup', 'coll', 'rec'):
        # a table
        parts = x.args[1].args if x.args[1].op == 'cat' else (x.args[1],)
        if len(parts) <= 6 and all(p.op == 'unit' and p.args[0].op == 'tup' and len(p.args[0].args) == 2 and
                                   p.args[0].args[0].op == 'const' for p in parts):
            v = raw('item', x, k)
            for p in parts:
                v = ite(mk('eq', k, p.args[0].args[0]), p.args[0].args[1], v)
            return v
    if x.op == 'coll' and x.args[0] == 'dict' and x.args[1].op == 'fm' and not ver:
        v = mapped_value(x.args[1], k)
        if v is not None:
            return v
    if x.op == 'const' and k.op == 'const' and isinstance(x.args[0], (str, tuple)) \
            and isinstance(k.args[0], int):
        try:
            return const(x.args[0][k.args[0]])
        except IndexError:
            pass
    if k.op == 'idx':
        # x[i] where i is the position of an element of x
        src = _bv_src.get(k.args[0])
        if src is not None and src.op == 'elems' and src.args[0] is x:
            return k.args[0]
        if src is not None and x.op == 'coll' and src is x.args[1]:
            return k.args[0]
    if x.op == 'coll' and x.args[0] in ('list', 'tuple') and k.op == 'const' and k.args[0] in (0, -1) \
            and not isinstance(k.args[0], bool):
        return mk('head' if k.args[0] == 0 else 'last', x.args[1])
    if ver and ver[0] is EMPTY:
        ver = ()
    return raw('item', x, k, *ver)


def _exploded(s):
    """The strings of s, cut into smaller ones with the same concatenation."""
    if s.op == 'cat':
        out = []
        for p in s.args:
            for q in _parts(mk('exploded', p)):
                if q.op == 'unit' and q.args[0].op == 'const' and out and out[-1].op == 'unit' \
                        and out[-1].args[0].op == 'const':
                    out[-1] = raw('unit', const(out[-1].args[0].args[0] + q.args[0].args[0]))
                else:
                    out.append(q)
        return raw('cat', *out) if len(out) > 1 else out[0] if out else EMPTY
    if s.op == 'unit':
        v = s.args[0]
        if v.op == 'const' and v.args[0] == '':
            return EMPTY
        if v.op in ('strcat', 'plus'):
            return mk('exploded', cat(*[mk('unit', a) for a in v.args]))
        if v.op == 'join' and v.args[0].op == 'const' and v.args[0].args[0] == '':
            return v.args[1]
        if v.op == 'fmt' and v.args[1] == '' and v.args[2] == '':
            return mk('exploded', mk('unit', v.args[0]))
        if v.op == 'const' and isinstance(v.args[0], int) and not isinstance(v.args[0], bool):
            return raw('unit', const(str(v.args[0])))
    if s.op == 'fm':
        b = fresh_bv()
        o = inst_raw(s.args[1], b)
        n = mk('exploded', o)
        if n is not o:
            return mk('fm', s.args[0], abstract(b, n))
    return s


def _parts(s):
    if s is EMPTY:
        return ()
    return s.args if s.op == 'cat' else (s,)


@builder('exploded')
def _explode(s):
    return _exploded(s)


@builder('strcat')
def _strcat(*parts):
    if any(p.op == 'join' and p.args[0].op == 'const' and p.args[0].args[0] == '' for p in parts):
        return mk('join', const(''), cat(*[mk('unit', p) for p in parts]))
    out = []
    for p in parts:
        if p.op == 'strcat':
            ps = p.args
        else:
            ps = (p,)
        for q in ps:
            if q.op == 'fmt' and q.args[1] == '' and q.args[2] == '':
                q = q.args[0]
            if q.op == 'const' and isinstance(q.args[0], int) \
                    and not isinstance(q.args[0], bool):
                q = const(str(q.args[0]))
            if q.op == 'const' and q.args[0] == '':
                continue
            if q.op == 'strcat':
                for z in q.args:
                    _push(out, z)
                continue
            _push(out, q)
    if not out:
        return const('')
    if len(out) == 1 and (out[0].op == 'const' or strlike(out[0])):
        return out[0]
    return raw('strcat', *out)


def _push(out, q):
    if out and q.op == 'const' and out[-1].op == 'const' \
            and isinstance(q.args[0], str) and isinstance(out[-1].args[0], str):
        out[-1] = const(out[-1].args[0] + q.args[0])
    else:
        out.append(q)


@builder('add')
def _add(a, b, *more):
    if more:
        r = mk('add', a, b)
        for x in more:
            r = mk('add', r, x)
        return r
    if a.op == 'const' and b.op == 'const':
        try:
            return const(a.args[0] + b.args[0])
        except TypeError:
            pass
    if strlike(a) or strlike(b):
        return mk('strcat', a, b)
    if a.op == 'coll' and b.op == 'coll' and a.args[0] == b.args[0]:
        return mk('coll', a.args[0], cat(a.args[1], b.args[1]))
    if a.op == 'coll' and a.args[0] == 'list':
        return mk('coll', 'list', cat(a.args[1], mk('elems', b)))
    if b.op == 'coll' and b.args[0] == 'list':
        return mk('coll', 'list', cat(mk('elems', a), b.args[1]))
    if a.op == 'tup' and b.op == 'tup':
        return raw('tup', *(a.args + b.args))
    if a.op in ('tup', 'coll') and b.op in ('tup', 'coll') and \
            all(x.op == 'tup' or x.args[0] == 'tuple' for x in (a, b)):
        return mk('coll', 'tuple', cat(*[cat(*[mk('unit', y) for y in x.args]) if x.op == 'tup' else x.args[1]
                                         for x in (a, b)]))
    # numeric sums: flatten, fold constants
    num = [x for x in (a, b) if x.op == 'const' and isinstance(x.args[0], int)
           or x.op in ('len', 'idx')
           or x.op == 'add' and any(
               y.op in ('len', 'idx') or y.op == 'const'
               and isinstance(y.args[0], int) for y in x.args)]
    if num:
        parts = []
        k = 0
        for x in (a, b):
            for y in (x.args if x.op == 'add' else (x,)):
                if y.op == 'const' and isinstance(y.args[0], (int, float)):
                    k += y.args[0]
                else:
                    parts.append(y)
        parts.sort(key=lambda x: x.uid)
        if k:
            parts.append(const(k))
        parts.sort(key=lambda x: x.uid)
        if not parts:
            return const(0)
        if len(parts) == 1:
            return parts[0]
        return raw('add', *parts)
    return raw('plus', a, b)


@builder('star')
def _star(x):
    """*args: only the elements matter."""
    q = x.args[1] if x.op == 'coll' and x.args[0] in ('list', 'tuple') else x.args[0] if x.op == 'itr' else None
    if q is not None and q.op == 'elems' and len(q.args) == 1:
        return raw('star', q.args[0])
    return raw('star', x)


@builder('plus')
def _plus(a, b):
    return mk('add', a, b)


STRINGS = {'strip', 'lstrip', 'rstrip', 'lower', 'upper', 'title', 'capitalize', 'zfill', 'ljust', 'rjust'}
SPLITS = {'split', 'rsplit', 'partition', 'rpartition', 'splitlines'}


def strlike(t):
    """Certainly a string."""
    if t.op in ('strcat', 'join', 'fmt') or t.op == 'const' and isinstance(t.args[0], str):
        return True
    if t.op == 'mc':
        return t.args[1] in STRINGS
    if t.op == 'bv' or t.op == 'fa' or t.op == 'item' and t.args[0].op in ('bv', 'fa') and t.args[1].op == 'const':
        b = t.args[0] if t.op == 'item' else t
        if b.op == 'fa':
            n = groups_of(b.args[0])
        else:
            x = findall(_bv_src[b]) if b in _bv_src else None
            if x is None:
                return False
            try:
                n = re.compile(x).groups
            except re.error:
                return False
        return n is not None and (n > 1) == (t.op == 'item')
    if t.op == 'item' and t.args[1].op == 'const' and isinstance(t.args[1].args[0], int):
        m = t.args[0]
        # the parts of a string
        return m.op == 'mc' and m.args[1] in SPLITS and not (m.args[0].op == 'call' and m.args[0].args[0].op == 'glob'
                                                             and m.args[0].args[0].args[0] == 're.compile')
    return False


def participates(pat, i):
    """Group i is part of every match."""
    import re._parser as P
    import re._constants as C

    def has(p):
        for op, av in p:
            if op is C.SUBPATTERN:
                if av[0] == i or has(av[3]):
                    return True
            elif op in (C.MAX_REPEAT, C.MIN_REPEAT) and av[0] > 0 and has(av[2]):
                return True
            elif op is C.BRANCH and all(has(q) for q in av[1]):
                return True
        return False
    try:
        return has(P.parse(pat))
    except Exception:
        return False


def group_value(m, i):
    """m.group(i) for the matches that finditer() gives, in terms of what
    findall() gives for the same match."""
    pat = _bv_src[m].args[0].args[0].args[1].args[0]
    n = groups_of(m)
    fa = raw('fa', m)
    if i == 0:
        return fa if n == 0 else None
    if i > n:
        return None
    v = fa if n == 1 else raw('item', fa, const(i - 1))
    return v if participates(pat, i) else ite(mk('truthy', v), v, raw('nogroup', v))


def refind(src, lam):
    """Loops over the matches that only use the text of their groups are
    loops over findall()."""
    if not (src.op == 'elems' and src.args[0].op == 'mc' and src.args[0].args[1] == 'finditer'):
        return None
    m = src.args[0]
    src2 = mk('elems', mk('mc', m.args[0], 'findall', *m.args[2:]))
    if findall(src2) is None:
        return None
    b, b2 = fresh_bv(), fresh_bv()
    _bv_src[b] = src
    _bv_src[b2] = src2
    body = subst(inst_raw(lam, b), {raw('fa', b): b2})
    if b.uid in body.fv:
        return None
    return src2, abstract(b2, body)


def findall(t):
    """The regular expression, if t is the elements of one's findall()."""
    if t.op == 'elems' and t.args[0].op == 'mc' and t.args[0].args[1] == 'findall':
        r = t.args[0].args[0]
        if r.op in ('call', 'ext') and any(isinstance(a, T) and a.op == 'const' and isinstance(a.args[0], str)
                                           for a in r.args):
            return next(a.args[0] for a in r.args if isinstance(a, T) and a.op == 'const' and isinstance(a.args[0], str))
    return None


def never_empty(t):
    """The elements of t are non-empty strings."""
    x = findall(t)
    if x is None:
        return False
    try:
        import re._parser as P
        q = P.parse(x)
        return q.getwidth()[0] > 0 and q.state.groups == 1
    except Exception:
        return False


@builder('coll')
def _coll(kind, s):
    if kind == 'set' and s.op == 'uniq':
        s = s.args[0]
    elif kind == 'set' and s.op == 'cat' and any(x.op == 'uniq' for x in s.args):
        s = cat(*[x.args[0] if x.op == 'uniq' else x for x in s.args])
    if kind == 'list' and findall(s) is not None:
        return s.args[0]
    if kind == 'dict' and s.op == 'fm':
        # {k: v for k, v in pairs}
        b = fresh_bv()
        u = inst_raw(s.args[1], b)
        if u.op == 'unit' and u.args[0].op == 'tup' and len(u.args[0].args) == 2 and \
                all(x is raw('item', b, const(i)) for i, x in enumerate(u.args[0].args)):
            s = s.args[0]
    return raw('coll', kind, s)


def is_match(x):
    """The result of matching a regular expression."""
    if x.op == 'mc':
        return x.args[1] in ('match', 'search', 'fullmatch') and len(x.args) == 3
    s = _bv_src.get(x) if x.op == 'bv' else None
    return s is not None and s.op == 'elems' and s.args[0].op == 'mc' and s.args[0].args[1] == 'finditer'


def groups_of(x):
    """How many groups the expression has."""
    if x.op == 'bv':
        x = _bv_src[x].args[0]
    r = x.args[0]
    if r.op == 'call' and r.args[0].op == 'glob' and r.args[0].args[0] == 're.compile' and r.args[1].op == 'const':
        try:
            return re.compile(r.args[1].args[0]).groups
        except re.error:
            pass
    return None


@builder('mc')
def _mc(*args):
    if args[1] in ('group', 'groups', 'start', 'end', 'span') and is_match(args[0]) and \
            not any(isinstance(a, T) and a.op in ('kw', 'star') for a in args[2:]):
        m, name, rest = args[0], args[1], args[2:]
        if name == 'groups' and not rest:
            n = groups_of(m)
            if n is not None:
                return mk('tup', *[mk('mc', m, 'group', const(i + 1)) for i in range(n)])
        elif name == 'group' and len(rest) > 1:
            return mk('tup', *[mk('mc', m, 'group', a) for a in rest])
        elif name == 'group' and (not rest or rest[0].op == 'const' and isinstance(rest[0].args[0], int)) \
                and m.op == 'bv' and groups_of(m) is not None:
            i = rest[0].args[0] if rest else 0
            v = group_value(m, i)
            return v if v is not None else raw('mc', m, name, const(i))
        elif name == 'span' and len(rest) < 2:
            rest = rest or (const(0),)
            return raw('tup', raw('mc', m, 'start', *rest), raw('mc', m, 'end', *rest))
        elif name != 'groups' and not rest:
            return raw('mc', m, name, const(0))
    if len(args) in (3, 4) and args[1] == 'get' and args[0].op == 'coll' and args[0].args[0] == 'dict' and args[0].args[1] is EMPTY:
        return args[3] if len(args) > 3 else NONE
    # a dict of known keys as keyword arguments
    for i, x in enumerate(args):
        if isinstance(x, T) and x.op == 'kw' and x.args[0] == '**' and x.args[1].op == 'coll' and x.args[1].args[0] == 'dict':
            s = x.args[1].args[1]
            parts = () if s is EMPTY else s.args if s.op == 'cat' else (s,)
            if all(p.op == 'unit' and p.args[0].op == 'tup' and p.args[0].args[0].op == 'const'
                   and isinstance(p.args[0].args[0].args[0], str) for p in parts):
                kws = [y for j, y in enumerate(args) if isinstance(y, T) and y.op == 'kw' and j != i]
                new = [raw('kw', p.args[0].args[0].args[0], p.args[0].args[1]) for p in parts]
                names = [y.args[0] for y in kws + new]
                if len(set(names)) == len(names):
                    first = min(j for j, y in enumerate(args) if isinstance(y, T) and y.op == 'kw')
                    rest = [y for y in args if not (isinstance(y, T) and y.op == 'kw')]
                    return raw('mc', *(rest[:first] + sorted(kws + new, key=lambda y: y.args[0]) + rest[first:]))
    return raw('mc', *args)


@builder('after')
def _after(v, *prevs):
    prevs = [p for p in prevs if p is not EMPTY]
    return raw('after', v, *prevs) if prevs else v


@builder('join')
def _join(sep, s):
    if s is EMPTY:
        return const('')
    if sep.op == 'const' and sep.args[0] == '':
        e = mk('exploded', s)
        if e is not s:
            return mk('join', sep, e)
    parts = s.args if s.op == 'cat' else (s,)
    if sep.op == 'const' and all(p.op == 'unit' for p in parts):
        out = []
        for i, p in enumerate(parts):
            if i:
                out.append(sep)
            out.append(p.args[0])
        return mk('strcat', *out)
    return raw('join', sep, s)


# ---------------------------------------------------------------- printing

def show(t, depth=8):
    if not isinstance(t, T):
        return repr(t)
    if depth <= 0:
        return '..'
    o, a = t.op, t.args
    d = depth - 1
    try:
        return _show(t, o, a, d)
    except IndexError:
        return '%s(%s)' % (o, ', '.join(show(x, d) for x in a))


def _show(t, o, a, d):
    if o == 'const':
        return repr(a[0])
    if o == 'ite':
        return '(%s ? %s : %s)' % tuple(show(x, d) for x in a)
    if o == 'glob':
        return a[0].split('.')[-1] if a[0].startswith('builtins.') else a[0]
    if o == 'self':
        return 'self'
    if o == 'par':
        return str(a[1])
    if o == 'attr':
        return '%s.%s%s' % (show(a[0], d), a[1], "'" if len(a) > 2 else '')
    if o == 'bv':
        return '$%d' % a[0]
    if o == 'bvar':
        return '#%d' % a[0]
    if o == 'lam':
        return '\\#%d.%s' % (a[0], show(a[1], d))
    if o == 'kw' and len(a) > 1:
        return '%s=%s' % (a[0], show(a[1], d))
    if o == 'mc':
        return '%s.%s(%s)' % (show(a[0], d), a[1],
                              ', '.join(show(x, d) for x in a[2:]))
    if o == 'call':
        return '%s(%s)' % (show(a[0], d), ', '.join(show(x, d) for x in a[1:]))
    if o == 'item':
        return '%s[%s]' % (show(a[0], d), show(a[1], d))
    if o == 'eq':
        return '%s == %s' % (show(a[0], d), show(a[1], d))
    if o == 'isnone':
        return '%s is None' % show(a[0], d)
    if o == 'truthy':
        return 'bool(%s)' % show(a[0], d)
    if not a:
        return o
    return '%s(%s)' % (o, ', '.join(show(x, d) for x in a))


def first_diff(a, b, path=()):
    """Deepest place where two terms begin to differ: (path, a', b')."""
    while True:
        if not isinstance(a, T) or not isinstance(b, T) or a.op != b.op or len(a.args) != len(b.args):
            return path, a, b
        nd = [(i, x, y) for i, (x, y) in enumerate(zip(a.args, b.args)) if x is not y and x != y]
        if not nd:
            return path, a, b
        if len(nd) > 1 and a.op == 'ite' and nd[0][0] == 0:
            return path, a, b
        path = path + ((a.op, nd[0][0]),)
        a, b = nd[0][1], nd[0][2]

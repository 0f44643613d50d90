"""Gated value-flow analysis of a function.

The function body is walked once; every variable, local container and heap
region is mapped to a value-graph term (terms.py), joins build gated (ite)
terms, and loops are summarised as sequence operators (fm = flat map, ex =
exists, upto = prefix) or, failing that, as recurrences (mu).  Nothing is
executed and no paths are enumerated: this is global value numbering over
gated SSA, with effects kept as one event sequence per heap region.
"""

import ast
import string

from . import terms as TM
from .terms import (T, raw, mk, const, ite, band, bor, bnot, TRUE, FALSE, NONE,
                    ABSENT, EMPTY, fresh_bv, fresh_carry, unknown, abstract,
                    abstractn, subst, cat, inst, inst_raw, constrain, is_bool,
                    gated_leaves, nonempty, lift, contains)
from .project import Class, Func, Module, dotted, BUILTINS
from .calls import (CallMixin, LoopSummary, DICTK, NOT_GETTERS, COMMON, PARSER_CALLS,
                    PARSER_DOC)


class Undecided(Exception):
    pass


FOREVER = raw('forever')
YMARK = raw('ymark')


def del_first(q, u, k):
    """Deleting one key comes before setting another one."""
    ps = list(q.args) if q.op == 'cat' else [] if q is EMPTY else [q]
    i = len(ps)
    while i:
        e = ps[i - 1].args[0] if ps[i - 1].op == 'unit' else None
        if e is None or e.op != 'ev' or e.args[0] != '__setitem__' or e.args[1].op != 'const' \
                or not isinstance(e.args[1].args[0], str) or e.args[1] is k:
            break
        i -= 1
    return cat(*(ps[:i] + [u] + ps[i:]))


def known_keys(fv):
    """{key: value} if it is a dict with the same constant keys on all paths."""
    if fv.op != 'ite':
        return None
    names = None
    for l in TM.leaves(fv):
        if l.op != 'coll' or l.args[0] != 'dict':
            return None
        parts = l.args[1].args if l.args[1].op == 'cat' else (l.args[1],)
        if not all(p.op == 'unit' and p.args[0].op == 'tup' and p.args[0].args[0].op == 'const' for p in parts):
            return None
        ks = [p.args[0].args[0].args[0] for p in parts]
        if len(set(ks)) != len(ks) or names is not None and names != set(ks):
            return None
        names = set(ks)

    def pick(k):
        def f(l):
            parts = l.args[1].args if l.args[1].op == 'cat' else (l.args[1],)
            return next(p.args[0].args[1] for p in parts if p.args[0].args[0].args[0] == k)
        return TM.lift(f, ('pick', k), (fv,))
    return {k: pick(k) for k in sorted(names)}


def is_set(x):
    return x.op in ('setdiff', 'inter') or x.op == 'coll' and x.args[0] == 'set'

DELEG = raw('delegated')
B = 'builtins.'


def glob(q):
    return raw('glob', q)


def A(op, *args):
    return raw('ite', raw(op, *args), TRUE, FALSE)


class St(object):
    __slots__ = ('env', 'reg', 'cont', 'live')

    def __init__(self):
        self.env, self.reg, self.cont, self.live = {}, {}, {}, TRUE

    def copy(self):
        s = St()
        s.env = dict(self.env)
        s.reg = dict(self.reg)
        s.cont = dict(self.cont)
        s.live = self.live
        return s

    def assign(self, o):
        self.env, self.reg, self.cont, self.live = o.env, o.reg, o.cont, o.live


def merge(c, a, b):
    """State that is a where c holds and b otherwise."""
    if a.live is FALSE:
        return b
    if b.live is FALSE:
        return a
    s = St()
    s.live = bor(a.live, b.live)
    for k in a.env.keys() | b.env.keys():
        x, y = a.env.get(k, ABSENT), b.env.get(k, ABSENT)
        s.env[k] = x if x is y else ite(c, x, y)
    for k in a.reg.keys() | b.reg.keys():
        x, y = a.reg.get(k, EMPTY), b.reg.get(k, EMPTY)
        s.reg[k] = x if x is y else ite(c, x, y)
    for k in a.cont.keys() | b.cont.keys():
        x, y = a.cont.get(k), b.cont.get(k)
        if x is None or y is None:
            s.cont[k] = x or y
        elif x[1] is y[1]:
            s.cont[k] = x
        else:
            s.cont[k] = (x[0], ite(c, x[1], y[1]))
    return s


def merge_all(states):
    states = [s for s in states if s.live is not FALSE]
    if not states:
        return None
    r = states[-1]
    for s in reversed(states[:-1]):
        r = merge(s.live, s, r)
    return r


class TryRec(object):
    def __init__(self, handlers, fr):
        self.handlers, self.fr = handlers, fr   # [(set of names or None, node)]
        self.got = [[] for _ in handlers]
        self.fin = None
        self.pending = []


class LoopRec(object):
    def __init__(self, fr):
        self.fr = fr
        self.conts, self.exits = [], []     # exits: (kind, val, st)


class CallRec(object):
    def __init__(self, fr, barrier=False):
        self.fr = fr
        self.rets, self.raises = [], []
        self.barrier = barrier


class Frame(object):
    _n = [0]

    def __init__(self, func, mod, cls, outer=None):
        Frame._n[0] += 1
        self.fid = Frame._n[0]
        self.func, self.mod, self.cls, self.outer = func, mod, cls, outer
        self.locals = set()
        self.nonlocals = set()
        self.selfterm = None
        self.yroot = None
        self.touched = None


EXC_PARENTS = {
    'KeyError': ('LookupError',), 'IndexError': ('LookupError',),
    'UnicodeDecodeError': ('ValueError',), 'FileNotFoundError': ('OSError',),
    'FileExistsError': ('OSError',), 'PermissionError': ('OSError',),
    'ModuleNotFoundError': ('ImportError',), 'RecursionError': ('RuntimeError',),
}

# list methods of containers that can fail, with the errors they raise
RAW_RAISES = {
    'remove': ('ValueError',), 'pop': ('IndexError',), 'index': ('ValueError',),
    '__getitem__': ('IndexError', 'TypeError'),
    '__setitem__': ('IndexError',), '__delitem__': ('IndexError',),
}

MUT = {'append', 'extend', 'insert', 'remove', 'pop', 'clear', 'update',
       'setdefault', 'add', 'discard', 'sort', 'reverse', 'popitem', 'popleft',
       'appendleft', 'extendleft', '__setitem__', '__delitem__', 'set', 'write',
       'close', '__iadd__', 'subtract', 'rotate', 'writelines', 'difference_update',
       'intersection_update', 'symmetric_difference_update', 'move_to_end'}
MUT_CALLS = MUT | {'add_argument', 'set_defaults'}
STR_PURE = {'strip', 'lstrip', 'rstrip', 'lower', 'upper', 'title', 'split', 'rsplit',
            'startswith', 'endswith', 'replace', 'isdigit', 'isalpha', 'ljust',
            'rjust', 'decode', 'encode', 'splitlines', 'find', 'partition'}
DICT_ATTRS = {'attributes', 'nsmap', '_dict', '_itemdict', '_referent_cache',
              '_referrer_cache', 'environ', '_allowed_refattrs'}
IGNORED = {'logging.debug', 'logging.info', 'logging.warning', 'logging.error',
           'logging.warn', 'logging.critical', 'logging.exception',
           'warnings.warn_explicit', 'warnings.simplefilter'}
IO_CALLS = {B + 'open', B + 'print', 'json.dump', 'os.mkdir', 'os.makedirs',
            'os.remove', 'os.rename', 'os.replace', 'os.unlink', 'shutil.rmtree',
            'logging.log', 'logging.basicConfig', 'sys.stdout.write', 'sys.stderr.write', 'io.open',
            'delphin.itsdb.make_skeleton', 'tempfile.mkstemp'}
BOOL_CALLS = {B + 'isinstance', B + 'hasattr', B + 'callable', B + 'issubclass',
              'os.path.isdir', 'os.path.isfile', 'os.path.exists'}
BOOL_METHODS = {'startswith', 'endswith', 'isdigit', 'isalpha', 'isupper',
                'islower', 'isspace', 'isdisjoint', 'issubset', 'issuperset',
                '__eq__', '__ne__', '__lt__', '__gt__', '__le__', '__ge__',
                '__contains__'}
DUNDER_BOOL = {'__eq__', '__ne__', '__lt__', '__gt__', '__le__', '__ge__',
               '__contains__'}
INLINE_DEPTH = 14
UNROLL = 12


class Interp(CallMixin):
    MUT_, IO_CALLS_, BOOL_CALLS_ = MUT, IO_CALLS, BOOL_CALLS

    def __init__(self, proj, anchors=(), inline_all=False, const_anchors=(),
                 dict_pars=(), dict_calls=(), ordered=(), opaque=(), contract=None):
        self.p = proj
        # another Interp: what calls of anchored functions do is taken from
        # its project (their own bodies are compared separately)
        self.contract = contract
        self.anchors = set(anchors)
        self.inline_all = inline_all
        self.always_opaque = set(opaque)
        self.const_anchors = set(const_anchors)
        self.dict_pars = set(dict_pars)
        self.dict_calls = set(dict_calls)
        self.ordered = set(ordered)
        self.ctl = []
        self.stack = []          # inlining stack of Func
        self.nref = 0
        self._modref = {}
        self.clos = {}
        self.loops = []
        self.arity = {}
        self._fclos = {}
        self._clos_memo = {}
        self.opened = set() if inline_all else \
            {q for q, f in proj.funcs.items() if f.cls is None and q not in self.anchors and q not in self.always_opaque}
        self.visited = set()
        self.calls = 0
        self.notes = []
        self._modconst = {}
        self._eff = {}
        self.late = set()        # parameters iterated over after an object was changed
        self.root_cls = None
        self.deleg_node = self.deleg = None
        self.eager_node, self.eager = None, False
        self._nodes = {}
        TM.subclass_hook[0] = proj.subclass

    # ------------------------------------------------------------ entry point

    def run(self, func, cls=None, spec=False):
        """Analyse a function; returns {'out': diagram, 'y': seq, regions...}."""
        fr = Frame(func, func.mod, cls or func.cls)
        if func.is_gen:
            # find the regions it touches first, so that yields are ordered
            # with respect to the effects
            st, rec, fr = self._run(func, fr, None)
            touched = set(k for k, v in self._final(rec, st)[1].items()
                          if v is not EMPTY and k[0] not in ('y',))
            if touched:
                fr = Frame(func, func.mod, cls or func.cls)
                st, rec, fr = self._run(func, fr, touched)
        else:
            st, rec, fr = self._run(func, fr, None)
        out, reg, cont = self._final(rec, st)
        res = {}
        live = TRUE
        for k, v in reg.items():
            if k[0] == 'y':
                k = ('y',)
            if v is EMPTY:
                continue
            res[k] = v
        if func.is_gen:
            res.setdefault(('y',), EMPTY)
        res[('out',)] = out
        return res

    def _run(self, func, fr, touched):
        self.root_cls = fr.cls
        fr.touched = touched
        st = St()
        self.ctl = []
        self.stack = [func]
        rec = CallRec(fr, barrier=True)
        self.ctl.append(rec)
        self.visited.add(func.qual)
        node = func.node
        self.scan_locals(fr, node)
        a = node.args
        pos = a.posonlyargs + a.args
        for i, x in enumerate(pos):
            if i == 0 and fr.cls is not None and not self.is_static(func):
                v = raw('self')
                fr.selfterm = v
                j = i
            else:
                v = raw('par', i)
            st.env[(fr.fid, x.arg)] = v
        for x in a.kwonlyargs:
            st.env[(fr.fid, x.arg)] = raw('par', x.arg)
        if a.vararg:
            st.env[(fr.fid, a.vararg.arg)] = raw('par', '*')
        if a.kwarg:
            r = self.new_ref(st, 'dict', self.pairs_seq(raw('par', '**')))
            st.env[(fr.fid, a.kwarg.arg)] = r
        if isinstance(node, ast.Lambda):
            v = self.eval(node.body, st, fr)
            self.do_exit('return', v, st)
        else:
            self.block(node.body, st, fr)
        if st.live is not FALSE:
            rec.rets.append((NONE, st))
        self.ctl.pop()
        return st, rec, fr

    def is_static(self, func):
        return 'staticmethod' in func.decos

    def _final(self, rec, st):
        outs = []
        for v, s in rec.rets:
            if s.live is not FALSE:
                outs.append((s.live, mk('ret', self.asval(v, s)), s))
        for v, s in rec.raises:
            if s.live is not FALSE:
                outs.append((s.live, v, s))
        if not outs:
            return raw('noexit'), {}, {}
        regs = set()
        for g, v, s in outs:
            for q, (ref, kind) in self._modref.items():
                # what a module-level container holds on return
                if ref in s.cont:
                    init = self.modref_init(q, kind)
                    if s.cont[ref][1] is not init:
                        s.reg[('global', q)] = self.asval(s.cont[ref][1], s)
            regs |= s.reg.keys()
        out = None
        for g, v, s in reversed(outs):
            out = v if out is None else ite(g, v, out)
        reg = {}
        for k in regs:
            r = None
            for g, v, s in reversed(outs):
                x = self.asval(s.reg.get(k, EMPTY), s)
                r = x if r is None else ite(g, x, r)
            reg[k] = r
        care = self.care([out] + list(reg.values()))
        out = constrain(out, care)
        reg = {k: constrain(v, self.care([v])) for k, v in reg.items()}
        return out, reg, {}

    def care(self, ts):
        acc, seen = {}, set()
        for t in ts:
            TM.atoms_of(t, acc, seen)
        return TM.axioms(acc.values())

    # ------------------------------------------------------------- statements

    def scan_locals(self, fr, node):
        loc, nl = set(), set()

        def tgt(t):
            for n in ast.walk(t):
                if isinstance(n, ast.Name):
                    loc.add(n.id)

        def walk(n, top=False):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)) and not top:
                loc.add(n.name)
                return
            if isinstance(n, ast.Lambda) and not top:
                return
            if isinstance(n, (ast.Global, ast.Nonlocal)):
                nl.update(n.names)
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                loc.add(n.id)
            if isinstance(n, (ast.Import, ast.ImportFrom)):
                for a in n.names:
                    loc.add((a.asname or a.name).split('.')[0])
            if isinstance(n, ast.ExceptHandler) and n.name:
                loc.add(n.name)
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                # comprehension targets are not locals, but walrus targets are
                for m in ast.walk(n):
                    if isinstance(m, ast.NamedExpr):
                        loc.add(m.target.id)
                return
            for c in ast.iter_child_nodes(n):
                walk(c)
        a = node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            loc.add(x.arg)
        for x in (a.vararg, a.kwarg):
            if x:
                loc.add(x.arg)
        body = node.body if isinstance(node.body, list) else [node.body]
        for n in body:
            walk(n)
        fr.locals = loc - nl
        fr.nonlocals = nl

    def block(self, stmts, st, fr):
        for s in stmts:
            if st.live is FALSE:
                return
            m = getattr(self, 's_' + type(s).__name__, None)
            if m is None:
                raise Undecided('statement %s at line %d' % (type(s).__name__, s.lineno))
            m(s, st, fr)

    def s_Pass(self, n, st, fr):
        pass

    def s_Global(self, n, st, fr):
        pass
    s_Nonlocal = s_Global

    def s_Import(self, n, st, fr):
        for a in n.names:
            if a.asname:
                st.env[(fr.fid, a.asname)] = glob(a.name)
            else:
                r = a.name.split('.')[0]
                st.env[(fr.fid, r)] = glob(r)

    def s_ImportFrom(self, n, st, fr):
        mod = n.module or ''
        if n.level:
            pkg = fr.mod.name.split('.')
            if not fr.mod.is_pkg:
                pkg = pkg[:-1]
            pkg = pkg[:len(pkg) - (n.level - 1)]
            mod = '.'.join(pkg + ([mod] if mod else []))
        for a in n.names:
            if mod in self.p.modules:
                r = self.p.lookup(mod, a.name)
                v = self.from_lookup(r, st, fr) if r else glob(mod + '.' + a.name)
            else:
                v = glob(mod + '.' + a.name)
            st.env[(fr.fid, a.asname or a.name)] = v

    def s_FunctionDef(self, n, st, fr):
        st.env[(fr.fid, n.name)] = self.closure(n, st, fr)

    def closure(self, n, st, fr):
        f = Func(fr.mod, n, None, '%s.<local>' % (fr.func.qual if fr.func else '?'))
        c = raw('clos', len(self.clos))
        # late binding: free variables are looked up when called.  Default
        # arguments are evaluated now.
        dv = [self.eval(d, st, fr) for d in n.args.defaults]
        self.clos[c] = (f, fr, dv)
        return c

    def s_Expr(self, n, st, fr):
        v = n.value
        if isinstance(v, (ast.Yield, ast.YieldFrom, ast.Await)):
            self.eval(v, st, fr)
            return
        if isinstance(v, ast.Call):
            self.call(v, st, fr, stmt=True)
            return
        if isinstance(v, ast.Constant):
            return
        self.eval(v, st, fr)

    def s_Return(self, n, st, fr):
        v = self.eval(n.value, st, fr) if n.value is not None else NONE
        if st.live is FALSE:
            return
        self.do_exit('return', v, st)

    def s_Raise(self, n, st, fr):
        if n.exc is None:
            v = st.env.get((fr.fid, '!exc'), raw('raise', glob(B + 'BaseException')))
        else:
            v = self.exc_value(n.exc, st, fr)
        if st.live is FALSE:
            return
        for g, leaf in gated_leaves(v):
            s = st.copy()
            s.live = band(st.live, g)
            self.do_exit('raise', leaf, s)
        st.live = FALSE

    def exc_value(self, n, st, fr):
        if isinstance(n, ast.Call):
            f = self.eval(n.func, st, fr)
            # the arguments only matter for the message, except for exits
            if f.op == 'glob' and f.args[0] in (B + 'SystemExit', B + 'StopIteration'):
                av = [self.freeze(self.eval(a, st, fr), st) for a in n.args]
                return mk('raise', f, *av)
            if f.op == 'glob':
                c = self.p.classes.get(f.args[0])
                if c is not None or f.args[0].startswith(B) or self.p.funcs.get(f.args[0]) is None:
                    return raw('raise', f)
            if f.op in ('glob', 'clos', 'attr'):
                # helper that makes the exception
                v = self.eval(n, st, fr)
                return lift(self._as_exc, 'as_exc', (v,))
            return raw('raise', f)
        v = self.eval(n, st, fr)
        return lift(self._as_exc, 'as_exc', (v,))

    def _as_exc(self, v):
        if v.op == 'raise':
            return v
        if v.op == 'excobj' and v.args[0].op == 'raise':
            return v.args[0]        # raise exc, in `except ... as exc`
        if v.op == 'call' and v.args[0].op == 'glob':
            return raw('raise', v.args[0])
        return raw('raise', v)

    def s_Assert(self, n, st, fr):
        c = self.cond(n.test, st, fr)
        self.split_raise(bnot(c), 'AssertionError', st)

    def split_raise(self, g, exc, st):
        """Raise builtin exc where g holds; continue elsewhere."""
        g = band(st.live, g)
        if g is FALSE:
            return
        s = st.copy()
        s.live = g
        st.live = band(st.live, bnot(g))
        self.do_exit('raise', raw('raise', glob(B + exc)) if isinstance(exc, str) else exc, s)

    def s_Delete(self, n, st, fr):
        for t in n.targets:
            if isinstance(t, ast.Name):
                st.env[(fr.fid, t.id)] = ABSENT
            elif isinstance(t, ast.Subscript):
                x = self.eval(t.value, st, fr)
                k = self.eval_slice(t.slice, st, fr)
                self.each(x, st, lambda leaf, s: self.del_item(leaf, k, s, fr))
            elif isinstance(t, ast.Attribute):
                x = self.eval(t.value, st, fr)
                self.event(('attr', t.attr), raw('delattr', self.freeze(x, st)), st)

    def del_item(self, x, k, st, fr):
        if x.op == 'ref':
            kind, s = st.cont[x]
            k = self.freeze(k, st)
            self.pin(x, (k,) if kind in DICTK else (), st)
            kind, s = st.cont[x]
            if kind not in DICTK and k.op == 'slice' and all(a is NONE for a in k.args):
                st.cont[x] = (kind, EMPTY)       # del xs[:]
            elif kind in DICTK:
                self.index_raise(x, k, st, dict_like=True)
                st.cont[x] = (kind, mk('without', s, k))
            else:
                st.cont[x] = (kind, mk('elems', raw('delat', raw('coll', 'list', s), k)) if s.op != 'ite'
                              else lift(lambda q: raw('elems', raw('delat', raw('coll', 'list', q), k)), ('delat', k.uid), (s,)))
            return NONE
        self.mutate(x, '__delitem__', [k], {}, st, fr)
        return NONE

    def s_Assign(self, n, st, fr):
        v = self.eval(n.value, st, fr)
        for t in n.targets:
            self.bind(t, v, st, fr)

    def s_AnnAssign(self, n, st, fr):
        if n.value is not None:
            self.bind(n.target, self.eval(n.value, st, fr), st, fr)

    def s_AugAssign(self, n, st, fr):
        t = n.target
        if isinstance(t, ast.Name):
            cur = self.eval(ast.copy_location(ast.Name(t.id, ast.Load()), t), st, fr)
            r = self.eval(n.value, st, fr)
            if self.aug_ref(cur, n.op, r, st, fr):
                return
            self.bind(t, self.binop(n.op, cur, r, st), st, fr)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, st, fr)
            cur = self.get_attr(o, t.attr, st, fr)
            r = self.eval(n.value, st, fr)
            if self.aug_ref(cur, n.op, r, st, fr):
                return
            self.set_attr(o, t.attr, self.binop(n.op, cur, r, st), st, fr)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, st, fr)
            k = self.eval_slice(t.slice, st, fr)
            r = self.eval(n.value, st, fr)
            if all(l.op in ('ref', 'path') for g, l in gated_leaves(o)):
                self.each(o, st, lambda x, s: self.aug_item(x, k, n.op, r, s, fr))
                return
            cur = self.get_item(o, k, st, fr)
            if self.aug_ref(cur, n.op, r, st, fr):
                return
            self.set_item(o, k, self.binop(n.op, cur, r, st), st, fr)
        else:
            raise Undecided('augmented target')

    def aug_item(self, x, k, op, r, st, fr):
        if x.op == 'ref' and st.cont[x][0] in ('counter',) or \
                x.op == 'ref' and st.cont[x][0].startswith('dd:') or x.op == 'path':
            base, path = self.split_path(x)
            path = path + (self.freeze(k, st),)
            self.pin(base, path, st)
            fr_ = self.freeze(r, st)
            if isinstance(op, ast.BitOr) and not (fr_.op in ('tup', 'const') or fr_.op == 'coll' and fr_.args[0] != 'set') \
                    and st.cont[base][0] != 'counter':
                # the operands of |= are sets
                self.push_content(base, mk('pm', *(path[:1] + (mk('tup', *path[1:]), 'update', mk('tup', fr_)))), st)
                return NONE
            self.push_content(base, mk('pm', *(path[:1] + (mk('tup', *path[1:]), 'aug' + type(op).__name__, fr_))), st)
            return NONE
        cur = self.get_item(x, k, st, fr)
        if self.aug_ref(cur, op, r, st, fr):
            return NONE
        self.set_item(x, k, self.binop(op, cur, r, st), st, fr)
        return NONE

    def aug_ref(self, cur, op, r, st, fr):
        if isinstance(op, ast.Add) and all(
                l.op == 'ref' and st.cont[l][0] in ('list', 'deque') or l.op == 'path'
                for g, l in gated_leaves(cur)):
            self.each(cur, st, lambda x, s: self.method(x, 'extend', [r], {}, s, fr))
            return True
        if isinstance(op, ast.BitOr) and cur.op == 'ref':
            self.method(cur, 'update', [r], {}, st, fr)
            return True
        if isinstance(op, ast.Add) and cur.op == 'self':
            self.method(cur, '__iadd__', [r], {}, st, fr)
            return True
        return False

    def bind(self, t, v, st, fr):
        if isinstance(t, ast.Name):
            key = self.var_key(t.id, fr)
            if key is None:
                self.event(('global', t.id), raw('set', self.freeze(v, st)), st)
            else:
                st.env[key] = constrain(v, st.live) if v.op == 'ite' else v
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                i = star[0]
                n_after = len(t.elts) - i - 1
                fv = self.freeze(v, st)
                for j, e in enumerate(t.elts):
                    if j < i:
                        self.bind(e, self.item_of(v, const(j), st), st, fr)
                    elif j == i:
                        self.bind(e.value, raw('coll', 'list', mk('elems', mk('sub', fv, raw('slice', const(i), const(-n_after) if n_after else NONE, NONE)))), st, fr)
                    else:
                        self.bind(e, self.item_of(v, const(j - len(t.elts)), st), st, fr)
                return
            vals = [self.item_of(v, const(i), st) for i in range(len(t.elts))]
            if v.op in ('bv', 'item', 'call', 'mc', 'attr', 'par', 'head'):
                self.arity[v] = len(t.elts)
            for e, x in zip(t.elts, vals):
                self.bind(e, x, st, fr)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, st, fr)
            self.set_attr(o, t.attr, v, st, fr)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, st, fr)
            k = self.eval_slice(t.slice, st, fr)
            self.set_item(o, k, v, st, fr)
        elif isinstance(t, ast.Starred):
            self.bind(t.value, v, st, fr)
        else:
            raise Undecided('target')

    def item_of(self, v, k, st):
        """Unpacking: like indexing, but also of iterators."""
        def f(x):
            if x.op == 'ref':
                kind, s = st.cont[x]
                return mk('item', mk('coll', 'list', s), k)
            if x.op == 'itr':
                return mk('item', mk('coll', 'list', x.args[0]), k)
            return mk('item', x, k)
        r = None
        for g, x in gated_leaves(v):
            y = f(x)
            r = y if r is None else ite(g, y, r)
        return r

    def var_key(self, name, fr):
        f = fr
        if name in fr.nonlocals:
            f = fr.outer
            while f is not None and name not in f.locals:
                f = f.outer
            return (f.fid, name) if f is not None else None
        return (f.fid, name)

    def s_If(self, n, st, fr):
        t, v = n.test, n.body[0]
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], ast.NotIn) and not n.orelse \
                and len(n.body) == 1 and isinstance(v, ast.Assign) and len(v.targets) == 1 \
                and isinstance(v.targets[0], ast.Subscript) and isinstance(t.comparators[0], ast.Name) \
                and isinstance(v.targets[0].value, ast.Name) and v.targets[0].value.id == t.comparators[0].id \
                and ast.dump(t.left) == ast.dump(v.targets[0].slice) \
                and (isinstance(v.value, ast.Constant) or isinstance(v.value, (ast.List, ast.Set, ast.Tuple))
                     and not v.value.elts or isinstance(v.value, ast.Dict) and not v.value.keys
                     or isinstance(v.value, ast.Call) and not v.value.keywords
                     and dotted(v.value.func) in (('set', 'list', 'dict', 'OrderedDict', 'Counter', 'deque')
                                                  if not v.value.args else ('defaultdict',))
                     and all(isinstance(x, ast.Name) for x in v.value.args)):
            d = self.eval(t.comparators[0], st, fr)
            plain = isinstance(t.left, (ast.Name, ast.Constant))
            if not plain:
                was, live = dict(st.reg), st.live
                self.eval(t.left, st, fr)
                plain = was == st.reg and st.live is live
            if plain and all(x.op == 'ref' and x in st.cont and st.cont[x][0] in DICTK for g, x in gated_leaves(d)):
                # if k not in d: d[k] = v
                k, w = self.eval(t.left, st, fr), self.eval(v.value, st, fr)
                self.each(d, st, lambda y, s: self.method(y, 'setdefault', [k, w], {}, s, fr, True))
                return
        c = self.cond(n.test, st, fr)
        self.branch(c, st, lambda s: self.block(n.body, s, fr),
                    lambda s: self.block(n.orelse, s, fr))

    def branch(self, c, st, f, g):
        if st.live is FALSE:
            return
        c = constrain(c, st.live)
        if c is TRUE:
            return f(st)
        if c is FALSE:
            return g(st)
        s1, s2 = st.copy(), st.copy()
        s1.live = band(st.live, c)
        s2.live = band(st.live, bnot(c))
        self.kill_dead(s1)
        self.kill_dead(s2)
        if s1.live is not FALSE:
            f(s1)
        if s2.live is not FALSE:
            g(s2)
        st.assign(merge(c, s1, s2))

    def kill_dead(self, s):
        """Recognise contradictory path conditions (e.g. x is None and x)."""
        if s.live is TRUE or s.live is FALSE:
            return
        care = self.care([s.live])
        if care is not TRUE and band(s.live, care) is FALSE:
            s.live = FALSE

    def s_With(self, n, st, fr):
        for it in n.items:
            v = self.eval(it.context_expr, st, fr)
            if it.optional_vars is not None:
                self.bind(it.optional_vars, v, st, fr)
        self.block(n.body, st, fr)

    def s_Try(self, n, st, fr):
        hs = []
        for h in n.handlers:
            hs.append((self.exc_names(h.type, st, fr), h))
        rec = TryRec(hs, fr)
        if n.finalbody:
            rec.fin = n.finalbody
        self.ctl.append(rec)
        self.block(n.body, st, fr)
        # handlers do not cover the else part
        i = self.ctl.index(rec)
        del self.ctl[i:]
        frec = None
        if n.finalbody:
            frec = TryRec([], fr)
            frec.fin = n.finalbody
            frec.pending = rec.pending
            self.ctl.append(frec)
        if n.orelse:
            self.block(n.orelse, st, fr)
        outs = [st.copy()]
        for (names, h), got in zip(hs, rec.got):
            ss = []
            ev = None
            for exc, s in got:
                s.env[(fr.fid, '!exc')] = exc
                if h.name:
                    s.env[(fr.fid, h.name)] = raw('excobj', exc)
                ss.append(s)
            s = merge_all(ss)
            if s is None:
                continue
            self.block(h.body, s, fr)
            outs.append(s)
        if frec is not None:
            self.ctl.remove(frec)
        m = merge_all(outs)
        if m is None:
            st.live = FALSE
        else:
            st.assign(m)
        if n.finalbody:
            for kind, val, s in frec.pending:
                self.block(n.finalbody, s, fr)
                if s.live is not FALSE:
                    self.do_exit(kind, val, s)
            if st.live is not FALSE:
                self.block(n.finalbody, st, fr)
    s_TryStar = s_Try

    def exc_names(self, t, st, fr):
        if t is None:
            return None
        v = self.eval(t, st, fr)
        v = self.freeze(v, st)
        ls = v.args if v.op == 'tup' else [v]
        out = []
        for x in ls:
            if x is glob(B + 'LookupError'):
                out += [B + 'KeyError', B + 'IndexError']
            elif x.op == 'glob':
                out.append(x.args[0])
            else:
                out.append('?')
        return out

    def exc_match(self, names, exc):
        """'yes', 'no' or 'maybe'."""
        if names is None:
            return 'yes'
        q = exc.args[0].args[0] if exc.op == 'raise' and exc.args[0].op == 'glob' else None
        if q is None:
            return 'maybe' if exc.op == 'raise' else 'maybe'
        for n in names:
            if n in (B + 'Exception', B + 'BaseException'):
                if q not in (B + 'SystemExit', B + 'KeyboardInterrupt') or n.endswith('BaseException'):
                    return 'yes'
            if n == q or self.p.subclass(q, n):
                return 'yes'
            s = q.split('.')[-1]
            if q.startswith(B) and n.startswith(B):
                for par in EXC_PARENTS.get(s, ()):
                    if n == B + par:
                        return 'yes'
        return 'no'

    def do_exit(self, kind, val, st):
        """Leave through the control stack; st.live becomes FALSE."""
        s = st.copy()
        st.live = FALSE
        if s.live is FALSE:
            return
        for i in range(len(self.ctl) - 1, -1, -1):
            c = self.ctl[i]
            if isinstance(c, TryRec):
                if kind == 'raise' and c.handlers:
                    for (names, h), got in zip(c.handlers, c.got):
                        m = self.exc_match(names, val)
                        if m != 'no':
                            got.append((val, s))
                            return
                if c.fin is not None:
                    c.pending.append((kind, val, s))
                    return
            elif isinstance(c, LoopRec):
                if kind == 'continue':
                    c.conts.append(s)
                    return
                c.exits.append((kind, val, s))
                return
            elif isinstance(c, CallRec):
                if kind == 'return':
                    c.rets.append((val, s))
                    return
                if c.barrier:
                    c.raises.append((val, s))
                    return

    def s_Break(self, n, st, fr):
        self.do_exit('break', None, st)

    def s_Continue(self, n, st, fr):
        self.do_exit('continue', None, st)

    def s_ClassDef(self, n, st, fr):
        st.env[(fr.fid, n.name)] = unknown('local class')

    def s_Match(self, n, st, fr):
        v = self.eval(n.subject, st, fr)

        def rest(i, s):
            if i == len(n.cases) or s.live is FALSE:
                return
            c = n.cases[i]
            ps, caps = self.pattern(c.pattern, v, s, fr)
            for t, x in caps:
                self.bind(t, x, s, fr)
            if c.guard is not None:
                s2 = s.copy()
                s2.live = band(s.live, ps)
                ps = band(ps, self.cond(c.guard, s2, fr))
            self.branch(ps, s, lambda s: self.block(c.body, s, fr),
                        lambda s: rest(i + 1, s))
        rest(0, st)

    def pattern(self, p, v, st, fr):
        if isinstance(p, ast.MatchValue):
            return mk('eq', v, self.eval(p.value, st, fr)), []
        if isinstance(p, ast.MatchSingleton):
            return mk('is', v, const(p.value)), []
        if isinstance(p, ast.MatchOr):
            r = FALSE
            for q in p.patterns:
                c, caps = self.pattern(q, v, st, fr)
                if caps:
                    raise Undecided('pattern')
                r = bor(r, c)
            return r, []
        if isinstance(p, ast.MatchAs):
            if p.pattern is None:
                c, caps = TRUE, []
            else:
                c, caps = self.pattern(p.pattern, v, st, fr)
            if p.name:
                caps = caps + [(ast.Name(p.name, ast.Store()), v)]
            return c, caps
        raise Undecided('pattern')

    # ------------------------------------------------------------------ loops

    def s_For(self, n, st, fr):
        if isinstance(n.iter, ast.Call) and isinstance(n.target, ast.Name) and not n.orelse and len(n.body) == 1 \
                and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Yield) \
                and isinstance(n.body[0].value.value, ast.Name) and n.body[0].value.value.id == n.target.id:
            y = self.memo_node(n, lambda: ast.copy_location(ast.YieldFrom(n.iter), n))
            self.eval(y, st, fr)
            return
        it = self.eval(n.iter, st, fr)
        self.for_over(n, it, st, fr, self.unswitch(n, fr))

    def unswitch(self, n, fr):
        """Tests, of variables the loop does not assign, that end the loop."""
        out = []
        stored = {m.id for m in ast.walk(n) if isinstance(m, ast.Name) and isinstance(m.ctx, ast.Store)}
        for b in n.body:
            if isinstance(b, ast.If) and any(isinstance(x, ast.Break) for x in b.body + b.orelse):
                ok = all(isinstance(m, (ast.Compare, ast.Name, ast.Constant, ast.BoolOp, ast.UnaryOp, ast.expr_context,
                                        ast.cmpop, ast.boolop, ast.unaryop)) for m in ast.walk(b.test))
                names = {m.id for m in ast.walk(b.test) if isinstance(m, ast.Name)}
                if ok and names and not names & stored and all(self.var_key(x, fr) is not None for x in names):
                    out.append(b.test)
        return out[:2]

    def for_over(self, n, it, st, fr, tests):
        if tests:
            c = self.cond(tests[0], st.copy(), fr)
            if c is not TRUE and c is not FALSE:
                self.branch(c, st, lambda s: self.for_over(n, it, s, fr, tests[1:]), lambda s: self.for_over(n, it, s, fr, tests[1:]))
                return
        s = self.seq(it, st)

        def bindf(b, s2):
            self.bind(n.target, b, s2, fr)
        self.loop_over(s, bindf, lambda s2: self.block(n.body, s2, fr),
                       (lambda s2: self.block(n.orelse, s2, fr)) if n.orelse else None,
                       st, fr, n)

    def memo_node(self, n, f):
        if n not in self._nodes:
            self._nodes[n] = f()
        return self._nodes[n]

    def s_While(self, n, st, fr):
        r = self.index_while(n, st, fr)
        if r:
            return
        test = n.test
        rot = self.rotated(n, st, fr)
        if rot is not None:
            return self.s_While(rot, st, fr)

        def body(s):
            if not (isinstance(test, ast.Constant) and test.value):
                c = self.cond(test, s, fr)
                s2 = s.copy()
                s2.live = band(s.live, bnot(c))
                self.do_exit('endwhile', None, s2)
                s.live = band(s.live, c)
                if s.live is FALSE:
                    return
            self.block(n.body, s, fr)
        self.loop_over(FOREVER, lambda b, s2: None, body,
                       (lambda s2: self.block(n.orelse, s2, fr)) if n.orelse else None,
                       st, fr, n)

    def rotated(self, n, st, fr):
        """A test that holds to begin with, of variables that are constants:
        test at the end instead."""
        names = [m for m in ast.walk(n.test) if isinstance(m, ast.Name)]
        if not names or n.orelse or any(isinstance(m, (ast.Call, ast.Attribute, ast.Subscript, ast.NamedExpr)) for m in ast.walk(n.test)):
            return None
        for m in names:
            k = self.var_key(m.id, fr)
            v = st.env.get(k) if k is not None else None
            if v is None or v.op != 'const':
                return None

        def conts(stmts):
            for b in stmts:
                if isinstance(b, ast.Continue):
                    return True
                if isinstance(b, (ast.For, ast.While, ast.FunctionDef, ast.ClassDef)):
                    continue
                if any(conts(getattr(b, f, [])) for f in ('body', 'orelse', 'finalbody')) or \
                        any(conts(h.body) for h in getattr(b, 'handlers', [])):
                    return True
            return False
        if conts(n.body) or self.cond(n.test, st.copy(), fr) is not TRUE:
            return None

        def make():
            stop = ast.If(ast.UnaryOp(ast.Not(), n.test), [ast.Break()], [])
            return ast.fix_missing_locations(ast.copy_location(
                ast.While(ast.Constant(True), n.body + [ast.copy_location(stop, n.test)], []), n))
        return self.memo_node(n, make)

    def index_while(self, n, st, fr):
        """while i < len(x): ...; i += 1   is a loop over the indices."""
        t = n.test
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and n.body):
            return False
        l, o, r = t.left, t.ops[0], t.comparators[0]
        if isinstance(o, ast.Gt):
            l, r, o = r, l, ast.Lt()
        if not (isinstance(o, (ast.Lt, ast.NotEq)) and isinstance(l, ast.Name)):
            return False
        last = n.body[-1]
        i = l.id
        if isinstance(last, ast.Assign) and len(last.targets) == 1 \
                and isinstance(last.targets[0], ast.Name) and last.targets[0].id == i \
                and isinstance(last.value, ast.BinOp) and isinstance(last.value.op, ast.Add) \
                and isinstance(last.value.left, ast.Name) and last.value.left.id == i \
                and isinstance(last.value.right, ast.Constant) and last.value.right.value == 1:
            pass
        elif not (isinstance(last, ast.AugAssign) and isinstance(last.target, ast.Name)
                  and last.target.id == i and isinstance(last.op, ast.Add)
                  and isinstance(last.value, ast.Constant) and last.value.value == 1):
            return False
        stores = 0
        for b in n.body:
            for m in ast.walk(b):
                if isinstance(m, ast.Name) and m.id == i and isinstance(m.ctx, ast.Store):
                    stores += 1
                if isinstance(m, (ast.Continue, ast.Yield)):
                    return False
        # the bound must not change in the loop
        bound_names = {m.id for m in ast.walk(r) if isinstance(m, ast.Name)}
        for b in n.body:
            for m in ast.walk(b):
                if isinstance(m, ast.Name) and isinstance(m.ctx, ast.Store) and m.id in bound_names:
                    return False
                if isinstance(m, ast.Call) and isinstance(m.func, ast.Attribute) \
                        and m.func.attr in MUT and {x.id for x in ast.walk(m.func.value) if isinstance(x, ast.Name)} & bound_names \
                        and isinstance(m.func.value, ast.Name):
                    return False
        if stores != 1 or n.orelse:
            return False
        init = self.eval(ast.Name(i, ast.Load()), st, fr)
        end = self.eval(r, st, fr)
        s = self.range_seq([init, end])
        key = self.var_key(i, fr)

        def bindf(b, s2):
            s2.env[key] = b
        self.loop_over(s, bindf, lambda s2: self.block(n.body[:-1], s2, fr), None, st, fr, n,
                       after={key: ite(mk('lt', init, end), end, init)})
        return True

    def loop_over(self, s, bindf, body, orelse, st, fr, node, after=None):
        if st.live is FALSE:
            return
        s = constrain(s, st.live)
        if s.op == 'ite':
            # one summary for each alternative sequence
            parts = gated_leaves(s)
            outs = []
            for g, leaf in parts:
                s2 = st.copy()
                s2.live = band(st.live, g)
                self.kill_dead(s2)
                if s2.live is FALSE:
                    continue
                self.loop_over(leaf, bindf, body, orelse, s2, fr, node, after)
                outs.append((g, s2))
            r = None
            for g, s2 in reversed(outs):
                r = s2 if r is None else merge(g, s2, r)
            if r is None:
                st.live = FALSE
            else:
                st.assign(r)
            return
        parts = s.args if s.op == 'cat' else (s,)
        if s is EMPTY:
            if orelse:
                orelse(st)
            return
        if all(p.op == 'unit' for p in parts) and len(parts) <= UNROLL:
            return self.unrolled([p.args[0] for p in parts], bindf, body, orelse, st, fr, after)
        if s.op == 'fm':
            lv = TM.atmost_one(s.args[1])
            if lv is not None:
                # loop over a mapped / filtered sequence: loop over its source
                def bind2(b, s2):
                    s2.env[('!el', 0)] = b

                def body2(s2):
                    b = s2.env.pop(('!el', 0))
                    q = inst(s.args[1], b)
                    c = nonempty(q)
                    v = lift(lambda u: u.args[0] if u.op == 'unit' else ABSENT, 'unitval', (q,))

                    def go(s3):
                        bindf(constrain(v, c), s3)
                        if s3.live is not FALSE:
                            body(s3)
                    if c is TRUE:
                        go(s2)
                    else:
                        self.branch(c, s2, go, lambda s3: None)
                return self.loop_over(s.args[0], bind2, body2, orelse, st, fr, node, after)
        self.summarise(s, bindf, body, orelse, st, fr, node, after)

    def unrolled(self, vals, bindf, body, orelse, st, fr, after):
        brks = []
        for v in vals:
            rec = LoopRec(fr)
            self.ctl.append(rec)
            bindf(v, st)
            body(st)
            self.ctl.remove(rec)
            m = merge_all([st.copy()] + rec.conts)
            for kind, val, s in rec.exits:
                if kind == 'break':
                    brks.append(s)
                else:
                    self.do_exit(kind, val, s)
            if m is None:
                st.live = FALSE
                break
            st.assign(m)
        if st.live is not FALSE:
            if after:
                st.env.update(after)
            if orelse:
                orelse(st)
        m = merge_all([st.copy()] + brks)
        if m is None:
            st.live = FALSE
        else:
            st.assign(m)

    # -- summarising a loop

    def summarise(self, src, bindf, body, orelse, st, fr, node, after):
        self.loops.append((fr.fid, node))
        try:
            self._summarise(src, bindf, body, orelse, st, fr, node, after)
        finally:
            self.loops.pop()

    def _summarise(self, src, bindf, body, orelse, st, fr, node, after):
        cmark = len(self.clos)
        base = st.live
        used = self.names_used_outside(node, fr)
        carried = {}        # key -> mode
        inits = {}
        for _round in range(12):
            b = fresh_bv()
            if src.op != 'forever':
                TM._bv_src[b] = src
            s0 = st.copy()
            ph = {}
            mark = self.nref
            for k, mode in carried.items():
                c = fresh_carry()
                if k[0] == 'e':
                    if mode == 'list':
                        kind = inits[k][0]
                        r = self.new_ref(s0, kind, raw('elems', c))
                        s0.env[k[1]] = r
                        ph[k] = raw('elems', c)
                    else:
                        s0.env[k[1]] = c
                        ph[k] = c
                elif k[0] == 'c':
                    kind = st.cont[k[1]][0]
                    ph[k] = raw('elems', c)
                    s0.cont[k[1]] = (kind, ph[k])
                else:
                    ph[k] = raw('elems', c)
                    s0.reg[k[1]] = ph[k]
            start = s0.copy()
            rec = LoopRec(fr)
            self.ctl.append(rec)
            bindf(b, s0)
            body(s0)
            while self.ctl[-1] is not rec:
                self.ctl.pop()
            self.ctl.pop()
            end = merge_all([s0.copy()] + rec.conts)
            ends = [e for e in [end] if e is not None] + [s for _, _, s in rec.exits]
            new = False
            mine = {b.uid} | {(v.args[0] if v.op == 'elems' else v).uid for v in ph.values()}
            for e in ends:
                self.fold_objs(e, mine, mark, start)
            for e in ends:
                for k, v in e.env.items():
                    if v is start.env.get(k, ABSENT) or ('e', k) in carried:
                        continue
                    if k in start.env and start.env[k] is not ABSENT or k[1] in used and k[0] == fr.fid:
                        iv = st.env.get(k, ABSENT)
                        if iv is not ABSENT and iv.op == 'ref' and iv in st.cont \
                                and self.all_fresh_lists(v, e, st.cont[iv][0]):
                            carried[('e', k)] = 'list'
                            inits[('e', k)] = st.cont[iv]
                        else:
                            carried[('e', k)] = 'val'
                        new = True
                for k, v in e.cont.items():
                    if k in start.cont and k.args[0] <= mark and start.cont[k][1] is not v[1] \
                            and ('c', k) not in carried:
                        carried[('c', k)] = 'seq'
                        new = True
                for k, v in e.reg.items():
                    if v is not start.reg.get(k, EMPTY) and ('r', k) not in carried:
                        carried[('r', k)] = 'seq'
                        new = True
            if not new:
                break
        else:
            raise Undecided('loop does not stabilise')

        # next values
        def value_at(k, s):
            if k[0] == 'e':
                v = s.env.get(k[1], ABSENT)
                if carried[k] == 'list':
                    return self.list_seq(v, s)
                return self.freeze_new(v, s, mark, cmark)
            if k[0] == 'c':
                return self.freeze_new(s.cont[k[1]][1], s, mark, cmark)
            return self.freeze_new(s.reg.get(k[1], EMPTY), s, mark, cmark)

        init = {}
        for k, mode in carried.items():
            if k[0] == 'e':
                iv = st.env.get(k[1], ABSENT)
                init[k] = inits[k][1] if mode == 'list' else iv
            elif k[0] == 'c':
                init[k] = st.cont[k[1]][1]
            else:
                init[k] = st.reg.get(k[1], EMPTY)
        # regions of objects that belong to one iteration
        per_iter = [k for k in carried if k[0] == 'r' and k[1][0] == 'obj'
                    and contains(k[1][1], b)]
        exits = []
        P = FALSE
        for kind, val, s in rec.exits:
            g = constrain(s.live, base)
            if g is FALSE:
                continue
            v = self.freeze_new(val, s, mark, cmark) if val is not None else None
            exits.append((kind, g, v, {k: value_at(k, s) for k in carried}, s))
            P = bor(P, g)
        P = constrain(P, base)
        nxt = {}
        if end is not None and end.live is not FALSE:
            for k in carried:
                v = value_at(k, end)
                nxt[k] = constrain(v, end.live)
        carry = {k: (ph[k].args[0] if ph[k].op == 'elems' else ph[k]) for k in carried}
        if after:
            for k in after:
                carried.pop(('e', k), None)
                nxt.pop(('e', k), None)
        L = LoopSummary(self, src, b, carried, carry, init, nxt, exits, P, st, base, fr)
        L.finish(orelse, after, per_iter)

    def fold_objs(self, e, mine, mark, start):
        """Events of objects that belong to the iteration go to one region."""
        for k in sorted([k for k in e.reg if k[0] == 'obj' and k not in start.reg
                         and (k[1].fv & mine)], key=lambda k: k[1].uid):
            v = e.reg.pop(k)
            if v is EMPTY:
                continue
            on = mk('on', self.freeze(k[1], e, mark), mk('seqv', self.freeze(v, e, mark)))
            e.reg[('objs',)] = cat(e.reg.get(('objs',), EMPTY), mk('unit', on))

    def all_fresh_lists(self, v, s, kind):
        for g, x in gated_leaves(v):
            if not (x.op == 'ref' and x in s.cont and s.cont[x][0] == kind):
                return False
        return True

    def list_seq(self, v, s):
        r = None
        for g, x in gated_leaves(v):
            if x.op == 'ref':
                y = self.freeze(s.cont[x][1], s)
            else:
                y = mk('elems', self.freeze(x, s))
            r = y if r is None else ite(g, y, r)
        return r

    def names_used_outside(self, node, fr):
        if fr.func is None:
            return set()
        out = set()

        def walk(n):
            if n is node:
                return
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                out.add(n.id)
            for c in ast.iter_child_nodes(n):
                walk(c)
        f = fr.func.node
        for n in (f.body if isinstance(f.body, list) else [f.body]):
            walk(n)
        return out

    # ------------------------------------------------------------- containers

    def new_ref(self, st, kind, seq=EMPTY):
        self.nref += 1
        r = raw('ref', self.nref)
        st.cont[r] = (kind, seq)
        return r

    def has_ref(self, t):
        return self._refs(t)

    _ref_memo = {}

    def _refs(self, t):
        if t.op == 'ref':
            return True
        if not t.args:
            return False
        m = Interp._ref_memo.get(t.uid)
        if m is None:
            Interp._ref_memo[t.uid] = False
            m = any(self._refs(a) for a in t.args if isinstance(a, T))
            Interp._ref_memo[t.uid] = m
        return m

    def freeze(self, t, st, mark=-10**9, depth=0):
        """Replace references to local containers by their current contents."""
        if not isinstance(t, T) or not self._refs(t):
            return t
        if depth > 8:
            return unknown('cyclic container')
        found = set()

        def walk(x, seen):
            if x.uid in seen:
                return
            seen.add(x.uid)
            if x.op == 'ref':
                found.add(x)
                return
            for a in x.args:
                if isinstance(a, T) and self._refs(a):
                    walk(a, seen)
        walk(t, set())
        m = {}
        for r in found:
            if r.args[0] > mark and r in st.cont:
                kind, s = st.cont[r]
                m[r] = mk('coll', kind, self.freeze(s, st, mark, depth + 1))
        if not m:
            return t
        if t in m:
            return m[t]
        return subst(t, m)

    def freeze_new(self, t, st, mark, cmark=None):
        t = self.freeze(t, st, mark)
        if cmark is not None and cmark < len(self.clos) and self.has_clos(t):
            # a closure made in a loop sees the variables that the loop
            # assigns as they are when it is called, not as they are now
            s = st.copy()
            names = {(fid, n.id) for fid, l in self.loops for n in ast.walk(l)
                     if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
            for k in s.env:
                if k in names:
                    s.env[k] = raw('late', k[1])
            t = self.asval(t, s, cmark)
        return t

    def each(self, v, st, f):
        """Apply f(leaf, state) for every alternative of v; merge the results."""
        v = constrain(v, st.live)
        if v.op != 'ite':
            return f(v, st)
        outs = []
        for g, leaf in gated_leaves(v):
            s = st.copy()
            s.live = band(st.live, g)
            self.kill_dead(s)
            if s.live is FALSE:
                continue
            r = f(leaf, s)
            outs.append((g, r, s))
        if not outs:
            st.live = FALSE
            return NONE
        r, s = None, None
        for g, r1, s1 in reversed(outs):
            if s is None:
                r, s = r1, s1
            elif s1.live is FALSE:
                pass
            elif s.live is FALSE:
                r, s = r1, s1
            else:
                r = ite(g, r1, r) if isinstance(r1, T) and isinstance(r, T) else r
                s = merge(g, s1, s)
        st.assign(s)
        return r

    def ver(self, x, st):
        s = st.reg.get(('obj', x))
        if s is None or s is EMPTY:
            return ()
        return (s,)

    def seq(self, v, st):
        """The sequence of elements that iterating over v gives."""
        def f(x):
            if x.op == 'ref':
                kind, s = st.cont[x]
                if kind in DICTK:
                    return TM.keyseq(raw('coll', 'dict', s)) if s.op != 'ite' else \
                        lift(lambda q: TM.keyseq(raw('coll', 'dict', q)), 'keyseq', (s,))
                if kind == 'set':
                    return lift(lambda q: mk('uniq', q), 'uniq', (s,))
                return s
            if x.op == 'itr':
                return x.args[0]
            if x.op == 'coll':
                return TM.keyseq(x)
            if x.op == 'path':
                return mk('elems', self.freeze_path(x, st))
            if x.op == 'par' and isinstance(x.args[0], int) and x.args[0] not in self.late and \
                    any(k[0] == 'obj' and k[1] is not x and s is not EMPTY for k, s in st.reg.items()):
                self.late.add(x.args[0])
            return mk('elems', x, *self.ver(x, st))
        r = None
        for g, x in gated_leaves(v):
            y = f(x)
            r = y if r is None else ite(g, y, r)
        return r

    def pairs_seq(self, m):
        """(key, value) pairs of a mapping term."""
        b = fresh_bv()
        return mk('fm', mk('elems', m), abstract(b, mk('unit', raw('tup', b, mk('item', m, b)))))

    def items_seq(self, x, st):
        if x.op == 'ref':
            return st.cont[x][1]
        if x.op == 'coll' and x.args[0] in DICTK:
            return x.args[1]
        if x.op == 'path':
            x = self.freeze_path(x, st)
        v = self.ver(x, st)
        b = fresh_bv()
        return mk('fm', mk('elems', x, *v), abstract(b, mk('unit', raw('tup', b, mk('item', x, b, *v)))))

    def update_seq(self, x, st):
        """Pairs that dict.update(x) / dict(x) takes from x."""
        def f(x):
            if x.op == 'ref' and st.cont[x][0] not in DICTK:
                return st.cont[x][1]
            if x.op == 'itr':
                return x.args[0]
            if x.op == 'coll' and x.args[0] not in DICTK:
                return x.args[1]
            if x.op == 'tup' or is_set(x):
                return mk('elems', x)
            return self.items_seq(x, st)
        r = None
        for g, l in gated_leaves(x):
            y = f(l)
            r = y if r is None else ite(g, y, r)
        return r

    def split_path(self, x):
        if x.op == 'path':
            return x.args[0], tuple(x.args[1:])
        return x, ()

    def freeze_path(self, x, st):
        base, path = self.split_path(x)
        v = self.freeze(base, st)
        for k in path:
            v = mk('item', v, k)
        return v

    def pin(self, ref, path, st, v=None):
        """A variable that holds what was read from a local container keeps
        that value when the place is then stored to."""
        m = {}

        def may(p):
            if p.args[0] is not ref or len(p.args) - 1 < len(path):
                return False
            return not any(a is not b and a.op == b.op == 'const' for a, b in zip(p.args[1:], path))

        def walk(t, seen):
            if t.uid in seen:
                return
            seen.add(t.uid)
            if t.op == 'path' and may(t):
                m[t] = None
            for a in t.args:
                if isinstance(a, T) and self._refs(a):
                    walk(a, seen)
        seen = set()
        for t in list(st.env.values()) + [c[1] for c in st.cont.values()] + ([v] if v is not None else []):
            if isinstance(t, T) and self._refs(t):
                walk(t, seen)
        if not m:
            return v
        for t in m:
            m[t] = self.freeze_path(t, st)
        for k, t in list(st.env.items()):
            if isinstance(t, T) and self._refs(t):
                st.env[k] = subst(t, m)
        for r, (kind, c) in list(st.cont.items()):
            if self._refs(c):
                st.cont[r] = (kind, subst(c, m))
        return subst(v, m) if v is not None and self._refs(v) else v

    def push_content(self, ref, u, st):
        kind, s = st.cont[ref]
        st.cont[ref] = (kind, cat(s, mk('unit', u)))

    # ----------------------------------------------------------------- events

    def event(self, key, ev, st):
        st.reg[key] = cat(st.reg.get(key, EMPTY), mk('unit', ev))

    def mutate(self, x, name, args, kw, st, fr):
        """A mutating call on something that is not a local container."""
        if name in PARSER_CALLS:
            kw = {k: v for k, v in kw.items() if k not in PARSER_DOC}
        av = [self.asval(a, st) for a in args] + \
            [raw('kw', k, self.asval(v, st)) for k, v in sorted(kw.items())]
        key = ('obj', x)
        prev = st.reg.get(key, EMPTY)
        if name == 'insert' and len(av) == 2 and av[0] is mk('len', mk('elems', x, *self.ver(x, st))):
            name, av = 'append', av[1:]
        if name == 'setdefault' and len(av) in (1, 2) and not kw and av[0].op == 'const' and isinstance(av[0].args[0], str):
            k, d = av[0], av[1] if len(av) > 1 else NONE
            have = mk('in', k, x, *self.lver(prev))
            v = ite(have, mk('item', x, k, *self.lver(prev)), args[1] if len(args) > 1 else NONE)
            st.reg[key] = ite(have, prev, cat(prev, mk('unit', mk('ev', '__setitem__', k, d))))
            return v
        if name == 'pop' and len(av) == 1 and av[0].op == 'const' and isinstance(av[0].args[0], str):
            v = self.get_item(x, av[0], st, fr)
            self.mutate(x, '__delitem__', args, kw, st, fr)
            return v
        if name == '__delitem__' and len(av) == 1 and av[0].op == 'const' and isinstance(av[0].args[0], str):
            u = mk('unit', mk('ev', name, *av))
            st.reg[key] = lift(lambda q: del_first(q, u, av[0]), ('del', u.uid), (prev,))
            return NONE
        if name == 'extend' and len(args) == 1 and not kw:
            b = fresh_bv()
            q = self.freeze(self.seq(args[0], st), st)
            st.reg[key] = cat(prev, mk('fm', q, abstract(b, mk('unit', mk('ev', 'append', b)))))
            return NONE
        ev = mk('ev', name, *av)
        st.reg[key] = cat(prev, mk('unit', ev))
        if name in ('pop', 'popleft') and not av:
            # the element that is removed
            return mk('item', x, const(0 if name == 'popleft' else -1), *self.lver(prev))
        if name in ('pop', 'popleft', 'popitem', 'setdefault'):
            return mk('res', x, ev, prev)
        return NONE

    @staticmethod
    def lver(s):
        return () if s is EMPTY else (s,)

    # -------------------------------------------------------------- attributes

    def set_attr(self, o, name, v, st, fr):
        def f(x, s):
            if x.op == 'self' and self.root_cls is not None:
                setter = self.p.find(self.root_cls, 'setters', name)
                if setter is not None and self.may_inline(setter):
                    self.call_func(setter, [x, v], {}, s, fr)
                    return NONE
            if x.op == 'glob':
                self.event(('global', x.args[0] + '.' + name), raw('set', self.asval(v, s)), s)
                return NONE
            if x.op in ('ref', 'path'):
                x = self.freeze(x, s) if x.op == 'ref' else self.freeze_path(x, s)
            key = ('attr', name)
            s.reg[key] = cat(s.reg.get(key, EMPTY), mk('unit', mk('st', x, v)))
            return NONE
        self.each(o, st, f)

    def get_attr(self, o, name, st, fr):
        return self.each(o, st, lambda x, s: self._get_attr(x, name, s, fr))

    def _get_attr(self, x, name, st, fr):
        if x.op == 'glob':
            return self.glob_attr(x, name, st, fr)
        if x.op == 'excobj':
            return raw('attr', x, name)
        if name == '__class__':
            return mk('call', glob(B + 'type'), self.freeze(x, st))
        if x.op == 'call' and x.args[0] is glob(B + 'type') and name == '__name__' and False:
            pass
        # explicit stores
        s = st.reg.get(('attr', name))
        if s is not None and s is not EMPTY:
            v = self.load(s, x)
            if v is not None and v.op == 'ite':
                return self.each(v, st, lambda y, s2: self._get_attr0(x, name, s2, fr) if y.op == 'miss' else
                                 (raw('attr', x, name, s) if y.op == 'old' else y))
            if v is not None and v.op == 'old':
                return raw('attr', self.freeze(x, st), name, s)
            if v is not None and v.op != 'miss':
                return v
        return self._get_attr0(x, name, st, fr)

    def _get_attr0(self, x, name, st, fr):
        if x.op == 'self' and self.root_cls is not None:
            g = self.p.find(self.root_cls, 'getters', name)
            if g is not None and self.may_inline(g):
                return self.call_func(g, [x], {}, st, fr)
            if g is not None:
                v = self.uniform_getter(name, [g], x, st, fr)
                if v is not None:
                    return v
                return self.call_func(g, [x], {}, st, fr)
        elif name not in NOT_GETTERS and name in self.p.by_getter:
            gs = self.p.by_getter[name]
            v = self.uniform_getter(name, gs, x, st, fr)
            if v is not None:
                return v
        fx = x
        if x.op == 'ref':
            return raw('attr', x, name)
        fx = self.freeze(x, st)
        self.attr_raise(fx, name, st)
        return mk('attr', fx, name)

    def uniform_getter(self, name, gs, x, st, fr):
        """All definitions of a property agree on a trivial body."""
        forms = set()
        for g in gs:
            forms.add(self.trivial_getter(g))
        if len(forms) != 1:
            return None
        f = forms.pop()
        if f is None:
            return None
        if f[0] == 'list':
            if x.op == 'ref':
                return None
            x = self.freeze(x, st)
            self.attr_raise(x, name, st)
            return mk('coll', 'list', mk('elems', x, *self.ver(x, st)))
        if f[0] == 'attr':
            x = self.freeze(x, st)
            self.attr_raise(x, name, st)
            s = st.reg.get(('attr', f[1]))
            if s is not None and s is not EMPTY:
                return None
            return mk('attr', x, f[1])
        return None

    def trivial_getter(self, g):
        """('attr', a) when the getter only returns self.a, ('list',) when it
        returns a list of self's elements, whatever its spelling."""
        c = self.contracted(g)
        if c is not None:
            return self.contract.trivial_getter(c)
        r = self.summary(g)
        if r is None or len(r) != 1:
            return None
        v = r[('out',)]
        if v.op != 'ret':
            return None
        v = v.args[0]
        me = raw('par', 0) if g.cls is None else raw('self')
        if v.op == 'attr' and v.args[0] is me and len(v.args) == 2 and v.args[1].startswith('_'):
            return ('attr', v.args[1])
        if v.op == 'coll' and v.args[0] == 'list' and v.args[1].op == 'elems' \
                and v.args[1].args[0] is me and len(v.args[1].args) == 1:
            return ('list',)
        return None

    def summary(self, f):
        """Result of analysing f on its own, or None (recursion, too big)."""
        memo = self.p.__dict__.setdefault('_summaries', {}).setdefault(frozenset(self.anchors), {})
        if f not in memo:
            memo[f] = None
            I = Interp(self.p, anchors=self.anchors)
            lim = TM.LIMIT[0]
            try:
                TM.LIMIT[0] = lim + 60000
                n0 = TM._next[0]
                memo[f] = I.run(f)
            except (Undecided, TM.TooBig):
                pass
            finally:
                TM.LIMIT[0] = lim + TM._next[0] - n0
        return memo[f]

    def load(self, s, x):
        """Value of an attribute after the stores in s: a term, 'old' or 'miss'."""
        OLD, MISS = raw('old'), raw('miss')

        def f(s):
            parts = s.args if s.op == 'cat' else (s,)
            for p in reversed(parts):
                if p.op == 'unit' and p.args[0].op == 'st':
                    o, v = p.args[0].args
                    if o is x:
                        return v
                    if self.may_alias(o, x):
                        return OLD
                    continue
                if p is EMPTY or p.op == 'unit' and p.args[0] is YMARK:
                    continue
                return OLD
            return MISS
        return lift(f, ('load', x.uid), (s,))

    def may_alias(self, a, b):
        if a.op == 'self' or b.op == 'self':
            return False
        if a.op == 'par' and b.op == 'par':
            return False
        return True

    def attr_raise(self, x, name, st):
        """AttributeError matters only where something catches it."""
        if x.op in ('self', 'glob', 'coll', 'ref'):
            return
        if self.catches('AttributeError'):
            self.split_raise(bnot(mk('hasattr', x, const(name))), 'AttributeError', st)

    def catches(self, *excs):
        """Innermost handlers of the enclosing try statements (up to a barrier)."""
        for c in reversed(self.ctl):
            if isinstance(c, TryRec):
                for names, h in c.handlers:
                    for e in excs:
                        if self.exc_match(names, raw('raise', glob(B + e))) == 'yes' \
                                and not (names is None):
                            return True
            elif isinstance(c, CallRec) and c.barrier:
                return False
        return False

    # ----------------------------------------------------------------- globals

    def lookup(self, name, st, fr):
        f = fr
        while f is not None:
            if name in f.locals:
                k = (f.fid, name)
                if k in st.env:
                    v = st.env[k]
                    if v is ABSENT:
                        return unknown('unbound ' + name)
                    return v
                if f is fr:
                    return unknown('unbound ' + name)
            k = (f.fid, name)
            if k in st.env and st.env[k] is not ABSENT:
                return st.env[k]
            f = f.outer
        return self.global_name(name, st, fr)

    def global_name(self, name, st, fr):
        m = fr.mod
        r = m.lookup_hook(name) if hasattr(m, 'lookup_hook') else None
        if r is None:
            r = self.p.lookup(m.name, name)
        if r is None:
            if name in BUILTINS:
                c = {'None': NONE, 'True': TRUE, 'False': FALSE}.get(name)
                return c if c is not None else glob(B + name)
            return raw('undef', name)
        return self.from_lookup(r, st, fr)

    def from_lookup(self, r, st, fr):
        k = r[0]
        if k in ('func', 'class'):
            return glob(r[1].qual)
        if k in ('module', 'ext'):
            return glob(r[1])
        if k == 'const':
            mod, name, node = r[1], r[2], r[3]
            q = mod + '.' + name
            s = st.reg.get(('global', q))
            if s is not None and s is not EMPTY:
                parts = s.args if s.op == 'cat' else (s,)
                if s.op != 'ite' and parts[-1].op == 'unit' and parts[-1].args[0].op == 'set':
                    return parts[-1].args[0].args[0]
                return raw('attr', glob(q), 'ver', s)
            m = self.p.modules[mod] if mod in self.p.modules else None
            if q in self.const_anchors or node is None or m is None:
                return glob(q)
            if name in m.mutated:
                return self.module_ref(q, node, st)
            return self.module_const(q, m, node)
        return glob('?')

    def module_ref(self, q, node, st):
        """A module-level container that the program mutates: a tracked
        container with unknown contents on entry."""
        r = self._modref.get(q)
        if r is None:
            kind = 'dict' if isinstance(node, (ast.Dict, ast.DictComp)) else \
                'list' if isinstance(node, (ast.List, ast.ListComp)) else \
                'set' if isinstance(node, (ast.Set, ast.SetComp)) else None
            if isinstance(node, ast.Call) and isinstance(node.func, ast.Name):
                kind = {'dict': 'dict', 'list': 'list', 'set': 'set', 'OrderedDict': 'dict'}.get(node.func.id, kind)
            if kind is None:
                return glob(q)
            r = self._modref[q] = (raw('ref', -len(self._modref) - 1), kind)
        ref, kind = r
        if ref not in st.cont:
            st.cont[ref] = (kind, self.modref_init(q, kind))
        return ref

    def modref_init(self, q, kind):
        g = glob(q)
        return self.pairs_seq(g) if kind == 'dict' else raw('elems', g)

    def module_const(self, q, m, node):
        if q in self._modconst:
            return self._modconst[q]
        self._modconst[q] = glob(q)
        v = glob(q)
        if self.simple_const(node):
            fr = Frame(None, m, None)
            st = St()
            ctl, self.ctl = self.ctl, [CallRec(fr, True)]
            try:
                v = self.freeze(self.eval(node, st, fr), st)
                if st.live is not TRUE or v.unk:
                    v = glob(q)
            except Undecided:
                v = glob(q)
            self.ctl = ctl
        self._modconst[q] = v
        return v

    def simple_const(self, n):
        for x in ast.walk(n):
            if isinstance(x, (ast.Constant, ast.Tuple, ast.List, ast.Dict, ast.Set,
                              ast.Load, ast.Name, ast.Attribute, ast.UnaryOp, ast.BinOp,
                              ast.operator, ast.unaryop, ast.Lambda, ast.arguments, ast.arg,
                              ast.Subscript, ast.JoinedStr, ast.FormattedValue,
                              ast.Call, ast.keyword, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp,
                              ast.comprehension, ast.Store, ast.Compare, ast.cmpop, ast.BoolOp, ast.boolop, ast.IfExp)):
                continue
            return False
        return True

    def glob_attr(self, x, name, st, fr):
        q = x.args[0]
        if q in self.p.modules:
            r = self.p.lookup(q, name)
            if r is not None:
                return self.from_lookup(r, st, fr)
            return raw('attr', x, name)
        c = self.p.classes.get(q)
        if c is not None:
            f = self.p.find_method(c, name)
            if isinstance(f, Func):
                return glob(f.qual)
            if isinstance(f, tuple):
                return glob(f[0] + '.' + f[1])
            return raw('attr', x, name)
        if q in self.p.funcs:
            return raw('attr', x, name)
        if q in self.const_anchors or q.rpartition('.')[0] in self.p.modules:
            # an attribute of a module-level object
            return raw('attr', x, name)
        return glob(q + '.' + name)

    # ------------------------------------------------------------- expressions

    def eval(self, n, st, fr):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            raise Undecided('expression %s' % type(n).__name__)
        return m(n, st, fr)

    def e_Constant(self, n, st, fr):
        return const(n.value)

    def e_Name(self, n, st, fr):
        return self.lookup(n.id, st, fr)

    def e_Attribute(self, n, st, fr):
        o = self.eval(n.value, st, fr)
        return self.get_attr(o, n.attr, st, fr)

    def e_Tuple(self, n, st, fr):
        if any(isinstance(e, ast.Starred) for e in n.elts):
            s = EMPTY
            for e in n.elts:
                if isinstance(e, ast.Starred):
                    s = cat(s, self.freeze(self.seq(self.eval(e.value, st, fr), st), st))
                else:
                    s = cat(s, mk('unit', self.eval(e, st, fr)))
            return mk('coll', 'tuple', s)
        v = [self.eval(e, st, fr) for e in n.elts]
        if v and v[0].op == 'item':
            # (a, b) after `a, b = x`
            x = v[0].args[0]
            if self.arity.get(x) == len(v) and all(y is mk('item', x, const(i)) for i, y in enumerate(v)):
                return x
        return mk('tup', *v)

    def e_List(self, n, st, fr):
        return self.display('list', n, st, fr)

    def e_Set(self, n, st, fr):
        return self.display('set', n, st, fr)

    def display(self, kind, n, st, fr):
        s = EMPTY
        for e in n.elts:
            if isinstance(e, ast.Starred):
                s = cat(s, self.seq(self.eval(e.value, st, fr), st))
            else:
                s = cat(s, mk('unit', self.eval(e, st, fr)))
        return self.new_ref(st, kind, s)

    def e_Dict(self, n, st, fr):
        s = EMPTY
        for k, v in zip(n.keys, n.values):
            if k is None:
                s = cat(s, self.update_seq(self.eval(v, st, fr), st))
            else:
                kv = self.freeze(self.eval(k, st, fr), st)
                s = cat(s, mk('unit', mk('tup', kv, self.eval(v, st, fr))))
        return self.new_ref(st, 'dict', s)

    def e_JoinedStr(self, n, st, fr):
        parts = [self.eval(v, st, fr) for v in n.values]
        return mk('strcat', *[self.freeze(p, st) for p in parts])

    def e_FormattedValue(self, n, st, fr):
        v = self.freeze(self.eval(n.value, st, fr), st)
        conv = '' if n.conversion in (-1, None) else chr(n.conversion)
        spec = ''
        if n.format_spec is not None:
            sv = self.eval(n.format_spec, st, fr)
            if sv.op != 'const':
                return mk('fmt', v, conv, raw('kw', 'spec', sv))
            spec = sv.args[0]
        return mk('fmt', v, conv, spec)

    def e_Lambda(self, n, st, fr):
        return self.closure(n, st, fr)

    def e_IfExp(self, n, st, fr):
        c = self.cond(n.test, st, fr)
        box = {}

        def f(s):
            box[1] = self.eval(n.body, s, fr)

        def g(s):
            box[2] = self.eval(n.orelse, s, fr)
        self.branch(c, st, f, g)
        if 1 in box and 2 in box:
            return ite(c, box[1], box[2])
        return box.get(1, box.get(2, NONE))

    def e_NamedExpr(self, n, st, fr):
        v = self.eval(n.value, st, fr)
        f = fr
        while f is not None and n.target.id not in f.locals:
            f = f.outer
        st.env[((f or fr).fid, n.target.id)] = v
        return v

    def e_Starred(self, n, st, fr):
        return self.eval(n.value, st, fr)

    def e_Yield(self, n, st, fr):
        v = self.eval(n.value, st, fr) if n.value is not None else NONE
        self.do_yield(mk('unit', self.asval(v, st)), st, fr)
        return NONE

    def e_YieldFrom(self, n, st, fr):
        old, self.deleg_node = self.deleg_node, n.value
        v = self.eval(n.value, st, fr)
        self.deleg_node = old
        if v is DELEG or st.live is FALSE:
            return NONE
        s = self.freeze(self.seq(v, st), st)
        if fr.touched:
            b = fresh_bv()
            self.do_yield(s, st, fr)
            return NONE
        self.do_yield(s, st, fr)
        return NONE

    def do_yield(self, s, st, fr):
        fr = fr.yroot or fr
        k = ('y', fr.fid)
        st.reg[k] = cat(st.reg.get(k, EMPTY), s)
        b = fresh_bv()
        for t in fr.touched or ():
            st.reg[t] = cat(st.reg.get(t, EMPTY), mk('fm', s, abstract(b, raw('unit', YMARK))))

    def e_BoolOp(self, n, st, fr):
        vals = list(n.values)

        def go(i, s):
            v = self.eval(vals[i], s, fr)
            if i == len(vals) - 1 or s.live is FALSE:
                return v
            t = self.truth(v, s)
            box = {}
            if isinstance(n.op, ast.And):
                self.branch(t, s, lambda q: box.__setitem__(1, go(i + 1, q)), lambda q: None)
                if 1 not in box:
                    return v
                return ite(t, box[1], v)
            self.branch(t, s, lambda q: None, lambda q: box.__setitem__(1, go(i + 1, q)))
            if 1 not in box:
                return v
            return ite(t, v, box[1])
        return go(0, st)

    def cond(self, n, st, fr):
        """Truth of an expression as a boolean diagram."""
        if isinstance(n, ast.BoolOp):
            def go(i, s):
                t = self.cond(n.values[i], s, fr)
                if i == len(n.values) - 1 or s.live is FALSE:
                    return t
                box = {}
                if isinstance(n.op, ast.And):
                    self.branch(t, s, lambda q: box.__setitem__(1, go(i + 1, q)), lambda q: None)
                    return band(t, box.get(1, TRUE)) if 1 in box else t
                self.branch(t, s, lambda q: None, lambda q: box.__setitem__(1, go(i + 1, q)))
                return bor(t, box[1]) if 1 in box else t
            return go(0, st)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            return bnot(self.cond(n.operand, st, fr))
        v = self.eval(n, st, fr)
        return self.truth(v, st)

    def truth(self, v, st):
        def f(x):
            if x.op == 'ref':
                return nonempty(st.cont[x][1])
            if x.op == 'coll':
                return nonempty(x.args[1])
            if x.op == 'path':
                return mk('truthy', self.freeze_path(x, st))
            if x.op in ('clos', 'excobj', 'itr'):
                return TRUE
            return mk('truthy', x, *self.ver(x, st))
        r = None
        for g, x in gated_leaves(v):
            y = f(x)
            r = y if r is None else ite(g, y, r)
        return r

    def e_UnaryOp(self, n, st, fr):
        if isinstance(n.op, ast.Not):
            return bnot(self.cond(n.operand, st, fr))
        v = self.eval(n.operand, st, fr)
        if isinstance(n.op, ast.USub):
            return lift(lambda x: const(-x.args[0]) if x.op == 'const' and isinstance(x.args[0], (int, float))
                        else raw('neg', x), 'neg', (v,))
        return mk('un' + type(n.op).__name__, v)

    def e_BinOp(self, n, st, fr):
        l = self.eval(n.left, st, fr)
        r = self.eval(n.right, st, fr)
        v = self.binop(n.op, l, r, st)
        if v.op == 'coll' and v.args[0] == 'list':
            return self.new_ref(st, 'list', v.args[1])
        if v.op == 'mul' and any(x.op == 'coll' and x.args[0] == 'list' for x in v.args):
            return self.new_ref(st, 'list', mk('elems', v))
        return v

    def binop(self, op, l, r, st):
        o = type(op).__name__
        if o == 'Mod' and (l.op == 'const' and isinstance(l.args[0], str) or l.op == 'strcat'):
            return self.percent(l, r, st)
        l, r = self.freeze(l, st), self.freeze(r, st)
        if o == 'Add':
            return lift(self._add, 'binadd', (l, r))
        if o == 'Sub':
            return lift(self._sub, 'binsub', (l, r))
        if o == 'Mult':
            def mul(a, b):
                if a.op == 'coll' and a.args[0] == 'list' and a.args[1].op == 'unit' and b.op != 'const':
                    # [x] * n: as many of them as the range has elements
                    return raw('coll', 'list', mk('fm', raw('range', const(0), b, const(1)),
                                                  abstract(fresh_bv(), a.args[1])))
                if a.op == 'const' and b.op == 'const':
                    try:
                        return const(a.args[0] * b.args[0])
                    except Exception:
                        pass
                return mk('mul', a, b)
            return lift(mul, 'binmul', (l, r))
        if o in ('BitAnd', 'BitOr', 'BitXor'):
            if o == 'BitAnd':
                return mk('inter', l, r)
            if o == 'BitOr':
                return lift(lambda a, b: mk('coll', 'set', cat(mk('elems', a), mk('elems', b)))
                            if a.op == 'coll' and a.args[0] == 'set' else
                            raw('coll', 'dict', cat(self.pairs_of(a), self.pairs_of(b)))
                            if a.op == 'coll' and a.args[0] == 'dict' else raw('bitor', a, b), 'bitor', (l, r))
            return mk('binx' + o, l, r)
        return mk('bin' + o, l, r)

    def pairs_of(self, x):
        if x.op == 'coll':
            return x.args[1]
        return self.pairs_seq(x)

    @staticmethod
    def _add(a, b):
        return mk('add', a, b)

    @staticmethod
    def _sub(a, b):
        if a.op == 'const' and b.op == 'const':
            try:
                return const(a.args[0] - b.args[0])
            except TypeError:
                pass
        if b.op == 'const' and isinstance(b.args[0], (int, float)):
            if a.op in ('len', 'idx', 'add') or a.op == 'const':
                return mk('add', a, const(-b.args[0]))
            return raw('plusk', a, const(-b.args[0]))
        if is_set(a) and is_set(b):
            return mk('setdiff', a, b)
        return raw('minus', a, b)

    def percent(self, l, r, st):
        if l.op != 'const':
            return mk('percent', l, self.freeze(r, st))
        f = l.args[0]
        r = self.freeze(r, st)

        def go(r):
            args = list(r.args) if r.op == 'tup' else [r]
            parts, i, buf = [], 0, ''
            j = 0
            while i < len(f):
                c = f[i]
                if c == '%' and i + 1 < len(f):
                    d = f[i + 1]
                    if d == '%':
                        buf += '%'
                        i += 2
                        continue
                    if d in 'srd':
                        if buf:
                            parts.append(const(buf))
                            buf = ''
                        if j >= len(args):
                            return raw('percent', l, r)
                        parts.append(raw('fmt', args[j], 'r' if d == 'r' else '', ''))
                        j += 1
                        i += 2
                        continue
                    return raw('percent', l, r)
                buf += c
                i += 1
            if buf:
                parts.append(const(buf))
            if j != len(args):
                return raw('percent', l, r)
            return mk('strcat', *parts)
        return lift(go, ('percent', l.uid), (r,))

    def e_Compare(self, n, st, fr):
        l = self.eval(n.left, st, fr)
        res = TRUE

        def go(i, l, s):
            r = self.eval(n.comparators[i], s, fr)
            c = self.compare(n.ops[i], l, r, s, fr)
            if i == len(n.ops) - 1 or s.live is FALSE:
                return c
            box = {}
            self.branch(c, s, lambda q: box.__setitem__(1, go(i + 1, r, q)), lambda q: None)
            return band(c, box[1]) if 1 in box else c
        return go(0, l, st)

    def compare(self, op, l, r, st, fr):
        o = type(op).__name__
        if o in ('In', 'NotIn'):
            c = self.contains_(l, r, st, fr)
            return c if o == 'In' else bnot(c)
        if o in ('Is', 'IsNot'):
            c = self.is_(l, r, st)
            return c if o == 'Is' else bnot(c)
        l, r = self.freeze(l, st), self.freeze(r, st)
        if o == 'Eq':
            return mk('eq', l, r)
        if o == 'NotEq':
            return bnot(mk('eq', l, r))
        if o == 'Lt':
            return mk('lt', l, r)
        if o == 'Gt':
            return mk('lt', r, l)
        if o == 'LtE':
            return bnot(mk('lt', r, l))
        if o == 'GtE':
            return bnot(mk('lt', l, r))
        raise Undecided('compare')

    def is_(self, l, r, st):
        def f(a, b):
            for x, y in ((a, b), (b, a)):
                if x.op in ('ref', 'clos'):
                    return TRUE if x is y else FALSE
            return mk('is', a, b)
        return lift(f, 'isop', (l, r))

    @staticmethod
    def is_action(fr):
        f = fr.func
        return f is not None and f.cls is not None and f.name == '__call__' and 'argparse.Action' in f.cls.bases

    def contains_(self, k, x, st, fr):
        k = self.freeze(k, st)

        def f(y):
            if y.op == 'ref':
                kind, s = st.cont[y]
                s = self.freeze(s, st)
                return lift(lambda q: mk('in', k, raw('coll', 'dict' if kind in DICTK else 'list', q)),
                            ('inref', k.uid, kind in DICTK), (s,)) if k.op != 'ite' else \
                    mk('in', k, mk('coll', 'dict' if kind in DICTK else 'list', s))
            if y.op == 'itr':
                return mk('in', k, mk('coll', 'list', y.args[0]))
            if y.op == 'path':
                return mk('in', k, self.freeze_path(y, st))
            y = self.freeze(y, st)
            if k.op == 'const' and y is raw('par', 2) and self.is_action(fr):
                return mk('hasattr', y, k)      # argparse.Namespace.__contains__
            return mk('in', k, y, *self.ver(y, st))
        r = None
        for g, y in gated_leaves(x):
            z = f(y)
            r = z if r is None else ite(g, z, r)
        return r

    # -- subscripts

    def eval_slice(self, n, st, fr):
        if isinstance(n, ast.Slice):
            f = lambda x: self.freeze(self.eval(x, st, fr), st) if x is not None else NONE
            a, b, c = f(n.lower), f(n.upper), f(n.step)
            if a is const(0) and c is NONE:
                a = NONE
            return mk('slice', a, b, c)
        return self.eval(n, st, fr)

    def e_Slice(self, n, st, fr):
        return self.eval_slice(n, st, fr)

    def e_Subscript(self, n, st, fr):
        o = self.eval(n.value, st, fr)
        k = self.eval_slice(n.slice, st, fr)
        return self.get_item(o, k, st, fr)

    def get_item(self, o, k, st, fr):
        return self.each(o, st, lambda x, s: self._get_item(x, k, s, fr))

    def _get_item(self, x, k, st, fr):
        k = self.freeze(k, st)
        if any(l.op == 'slice' for g, l in gated_leaves(k)):
            fx = self.freeze_path(x, st) if x.op == 'path' else self.freeze(x, st)
            v = mk('sub', fx, k, *self.ver(fx, st))
            return v
        if x.op == 'ref':
            kind, s = st.cont[x]
            if kind in DICTK:
                if kind.startswith('dd:') or kind == 'counter':
                    return raw('path', x, k) if k.op != 'ite' else lift(lambda q: raw('path', x, q), ('path', x.uid), (k,))
                if self.catches('KeyError'):
                    self.index_raise(x, k, st, dict_like=True)
                # a directly stored value keeps its identity
                v = lift(lambda q: self.dict_item(q, k), ('ditem', k.uid), (s,)) if k.op != 'ite' else None
                if v is not None and all(l.op != 'nohit' for g, l in gated_leaves(v)):
                    return v
                if kind == 'dict' and k.op != 'ite':
                    return raw('path', x, k)
                if kind == 'dict' and not self.catches('KeyError'):
                    return lift(lambda q: self._get_item(x, q, st, fr), ('ditems', x.uid, s.uid), (k,))
                return mk('item', self.freeze(x, st), k)
            if k.op != 'ite':
                v = TM.index_elem(s, k) or TM.index_elem(constrain(s, st.live), k)
                if v is not None:
                    return v
                v = lift(lambda q: mk('item', raw('coll', 'list', q), k), ('litem', k.uid), (s,))
                if not any(l.op == 'item' for g, l in gated_leaves(v)):
                    return v
                if kind == 'list':
                    return raw('path', x, k)
            return mk('item', self.freeze(x, st), k)
        if x.op == 'path':
            return lift(lambda q: raw('path', *(x.args + (q,))), ('path', x.uid), (k,))
        if x.op == 'itr':
            return mk('item', raw('coll', 'list', x.args[0]), k)
        if x.op == 'self' and self.root_cls is not None:
            m = self.p.find_method(self.root_cls, '__getitem__')
            if isinstance(m, Func):
                return self.call_func(m, [x, k], {}, st, fr)
        fx = self.freeze(x, st)
        self.index_raise(fx, k, st, dict_like=self.dictlike(fx))
        return mk('item', fx, k, *self.ver(fx, st))

    @staticmethod
    def dict_item(s, k):
        """Value of k in a sequence of pairs, or 'nohit'."""
        NO = raw('nohit')
        parts = s.args if s.op == 'cat' else (s,)
        for p in reversed(parts):
            if p.op == 'unit' and p.args[0].op == 'tup' and len(p.args[0].args) == 2:
                kk, v = p.args[0].args
                if kk is k:
                    return v
                if kk.op == 'const' and k.op == 'const':
                    continue
                if kk.op == 'bv' and k.op == 'const':
                    return NO
                return NO
            return NO
        return NO

    def index_raise(self, x, k, st, dict_like=False):
        if not (self.catches('KeyError') or self.catches('IndexError')):
            return
        fx = self.freeze(x, st)
        if dict_like:
            if self.catches('KeyError'):
                self.split_raise(bnot(mk('in', k, fx, *self.ver(fx, st))), 'KeyError', st)
            return
        t = mk('item', fx, k, *self.ver(fx, st))
        for e in ('KeyError', 'IndexError'):
            if self.catches(e):
                self.split_raise(mk('exc', e, t), e, st)

    def dictlike(self, x):
        if x.op == 'attr' and x.args[1] in DICT_ATTRS:
            return True
        if x.op == 'glob' and x.args[0] in ('os.environ',):
            return True
        if x.op == 'par' and x.args[0] in self.dict_pars:
            return True
        if x.op == 'call' and x.args[0].op == 'glob' and x.args[0].args[0] in self.dict_calls:
            return True
        if x.op == 'coll' and x.args[0] in DICTK:
            return True
        return False

    def set_item(self, o, k, v, st, fr):
        def f(x, s):
            kk = self.freeze(k, s)
            if x.op == 'ref':
                vv = self.pin(x, (kk,), s, v)
                kind, c = s.cont[x]
                if kind in DICTK:
                    # storing back what is there changes nothing
                    same = self.freeze_path(raw('path', x, kk), s) if kk.op == 'const' and vv.op in ('ite', 'item') else None
                    r = None
                    for g, l in gated_leaves(vv):
                        y = c if l is same and l.op == 'item' else cat(c, mk('unit', mk('tup', kk, l)))
                        r = y if r is None else ite(g, y, r)
                    if same is None or all(l is not same for g, l in gated_leaves(vv)):
                        r = cat(c, mk('unit', mk('tup', kk, vv)))
                    s.cont[x] = (kind, r)
                else:
                    fc = self.freeze(c, s)
                    s.cont[x] = (kind, lift(lambda q, kq, vq: mk('elems', raw('setat', raw('coll', 'list', q), kq, vq)),
                                            'setat', (fc, kk, self.freeze(vv, s))))
                return NONE
            if x.op == 'path':
                base, path = self.split_path(x)
                path = path + (kk,)
                self.pin(base, path, s)
                self.push_content(base, mk('pm', path[0], mk('tup', *path[1:]), 'set', self.freeze(v, s)), s)
                return NONE
            if x.op == 'self' and self.root_cls is not None:
                m = self.p.find_method(self.root_cls, '__setitem__')
                if isinstance(m, Func):
                    self.call_func(m, [x, kk, v], {}, s, fr)
                    return NONE
            self.mutate(self.freeze(x, s), '__setitem__', [kk, v], {}, s, fr)
            return NONE
        self.each(o, st, f)

    # -- comprehensions

    def e_ListComp(self, n, st, fr):
        return self.new_ref(st, 'list', self.comp(n, n.elt, st, fr))

    def e_SetComp(self, n, st, fr):
        return self.new_ref(st, 'set', self.comp(n, n.elt, st, fr))

    def e_DictComp(self, n, st, fr):
        return self.new_ref(st, 'dict', self.comp(n, ast.Tuple([n.key, n.value], ast.Load()), st, fr))

    def e_GeneratorExp(self, n, st, fr):
        return mk('itr', self.comp(n, n.elt, st, fr))

    def comp(self, n, elt, st, fr):
        sub = Frame(fr.func, fr.mod, fr.cls, fr)
        sub.selfterm = fr.selfterm
        for g in n.generators:
            for x in ast.walk(g.target):
                if isinstance(x, ast.Name):
                    sub.locals.add(x.id)
        acc = self.new_ref(st, 'list')

        def gen(i, s):
            if i == len(n.generators):
                v = self.eval(elt, s, sub)
                kind, c = s.cont[acc]
                s.cont[acc] = (kind, cat(c, mk('unit', v)))
                return
            g = n.generators[i]
            it = self.eval(g.iter, s, fr if i == 0 else sub)
            q = self.seq(it, s)

            def body(s2):
                c = TRUE
                for t in g.ifs:
                    c2 = self.cond(t, s2, sub)
                    drop = s2.copy()
                    drop.live = band(s2.live, bnot(c2))
                    self.do_exit('continue', None, drop)
                    s2.live = band(s2.live, c2)
                    if s2.live is FALSE:
                        return
                gen(i + 1, s2)
            self.loop_over(q, lambda b, s2: self.bind(g.target, b, s2, sub), body, None, s, sub, n)
        gen(0, st)
        s = st.cont.pop(acc)[1] if acc in st.cont else EMPTY
        for k in [k for k in st.env if k[0] == sub.fid]:
            del st.env[k]
        return s

    # ----------------------------------------------------------------- calls

    def e_Call(self, n, st, fr):
        return self.call(n, st, fr)

    def call(self, n, st, fr, stmt=False):
        f = n.func
        # super()
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Call) \
                and isinstance(f.value.func, ast.Name) and f.value.func.id == 'super' and fr.cls is not None:
            cur = fr.func.cls if fr.func is not None and fr.func.cls is not None else fr.cls
            m = self.p.find_method(fr.cls, f.attr, after=cur)
            args, kw = self.args(n, st, fr)
            me = fr.selfterm or raw('self')
            if isinstance(m, Func):
                return self.call_func(m, [me] + args, kw, st, fr)
            if isinstance(m, tuple):
                return self.raw_method(m, me, args, kw, st, fr)
            return mk('mc', raw('super', me), f.attr, *self.flat(args, kw, st))
        if isinstance(f, ast.Name) and f.id == 'super':
            return raw('super', raw('self'))
        if isinstance(f, ast.Attribute):
            d = dotted(f)
            if d and (self.ignored(d, st, fr) or d.endswith('warn') and self.warned(n, d, st, fr)):
                return NONE
            o = self.eval(f.value, st, fr)
            args, kw = self.args(n, st, fr)
            if st.live is FALSE:
                return NONE
            dg = fr if n is self.deleg_node else None
            eg = n is self.eager_node

            def m1(x, s):
                self.deleg, self.eager = dg, eg
                r = self.method(x, f.attr, args, kw, s, fr, stmt)
                self.deleg, self.eager = None, False
                return r
            return self.each(o, st, m1)
        d = f.id if isinstance(f, ast.Name) else None
        if d and (self.ignored(d, st, fr) or d.endswith('warn') and self.warned(n, d, st, fr)):
            return NONE
        fv = self.eval(f, st, fr)
        if d == 'range' and fv is glob(B + 'range') and len(n.args) == 1 and not n.keywords \
                and isinstance(n.args[0], ast.Call) and isinstance(n.args[0].func, ast.Name) \
                and n.args[0].func.id == 'len' and len(n.args[0].args) == 1 \
                and self.eval(n.args[0].func, st, fr) is glob(B + 'len'):
            v = self.eval(n.args[0].args[0], st, fr)
            if v.op == 'ref' and st.cont[v][0] in ('list', 'tuple', 'deque') or v.op == 'coll' and v.args[0] in ('list', 'tuple'):
                q = self.seq(v, st)
                b = fresh_bv()
                idx = abstract(b, mk('unit', mk('item', b, const(0))))
                return mk('itr', lift(lambda u: mk('fm', mk('enum', u), idx) if u is not EMPTY else EMPTY, 'rlen', (constrain(q, st.live),)))
        if fv.op == 'path' and isinstance(f, ast.Subscript):
            t = self.freeze(fv, st)              # a table of functions
            if t.op == 'ite':
                fv = constrain(t, st.live)
        args, kw = self.args(n, st, fr)
        if st.live is FALSE:
            return NONE
        dg = fr if n is self.deleg_node else None
        eg = n is self.eager_node

        def a1(x, s):
            self.deleg, self.eager = dg, eg
            r = self.apply(x, args, kw, s, fr, stmt)
            self.deleg, self.eager = None, False
            return r
        return self.each(fv, st, a1)

    def warned(self, n, d, st, fr):
        """warnings.warn(): only the category matters, not the text."""
        c = n.args[1] if len(n.args) > 1 else next((k.value for k in n.keywords if k.arg == 'category'), None)
        if any(isinstance(a, ast.Starred) for a in n.args) or any(k.arg is None for k in n.keywords):
            return False
        if not self.ignored(d, st, fr, ('warnings.warn',)):
            return False
        self.event(('warn',), mk('ev', 'warn', self.asval(self.eval(c, st, fr), st) if c is not None
                                 else glob(B + 'UserWarning')), st)
        return True

    def ignored(self, d, st, fr, names=IGNORED):
        head = d.split('.')[0]
        f = fr
        while f is not None:
            if head in f.locals:
                return False
            f = f.outer
        r = None
        if hasattr(fr.mod, 'lookup_hook'):
            r = fr.mod.lookup_hook(head)
        if r is None:
            r = self.p.lookup(fr.mod.name, head)
        if r is None or r[0] != 'ext':
            return False
        return '.'.join([r[1]] + d.split('.')[1:]) in names

    def args(self, n, st, fr):
        args, kw = [], {}
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, st, fr)
                s = self.seq(v, st)
                parts = s.args if s.op == 'cat' else (s,)
                if s is EMPTY:
                    pass
                elif s.op != 'ite' and all(p.op == 'unit' for p in parts):
                    args.extend(p.args[0] for p in parts)
                else:
                    args.append(mk('star', self.freeze(v, st)))
            else:
                # a generator that is handed over at once starts here
                old, self.eager_node = self.eager_node, a if isinstance(a, ast.Call) else None
                args.append(self.eval(a, st, fr))
                self.eager_node = old
        for k in n.keywords:
            v = self.eval(k.value, st, fr)
            if k.arg is None:
                fv = self.freeze(v, st)
                if fv.op == 'coll' and fv.args[0] == 'dict':
                    s = fv.args[1]
                    parts = s.args if s.op == 'cat' else (s,)
                    if s is EMPTY:
                        continue
                    if all(p.op == 'unit' and p.args[0].op == 'tup' and p.args[0].args[0].op == 'const' for p in parts):
                        for p in parts:
                            kw[p.args[0].args[0].args[0]] = p.args[0].args[1]
                        continue
                d = known_keys(fv)
                if d is not None:
                    kw.update(d)
                else:
                    kw['**'] = fv
            else:
                kw[k.arg] = v
        return args, kw

    def flat(self, args, kw, st):
        return [self.asval(a, st) for a in args] + \
            [mk('kw', k, self.asval(v, st)) for k, v in sorted(kw.items())]

    def asval(self, v, st, cmark=None):
        """Value for passing to something opaque: containers by content,
        closures by their function."""
        if cmark is None:
            v = self.freeze(v, st)
        if v.op == 'path':
            v = self.freeze_path(v, st)
        if self.has_clos(v):
            m = {}

            def walk(x, seen):
                if x.uid in seen:
                    return
                seen.add(x.uid)
                if x.op == 'clos':
                    if cmark is None or x.args[0] >= cmark:
                        m[x] = self.fn(x, st)
                elif x.op == 'glob' and self.plain_func(x):
                    m[x] = self.fn(self.func_closure(x), st)
                for a in x.args:
                    if isinstance(a, T) and self.has_clos(a):
                        walk(a, seen)
            walk(v, set())
            v = m[v] if v in m else subst(v, m) if m else v
        return v

    def plain_func(self, x):
        """A project function that is not kept opaque, used as a value."""
        f = self.p.funcs.get(x.args[0])
        return f is not None and f.cls is None and self.may_inline(f)

    def func_closure(self, x):
        c = self._fclos.get(x)
        if c is None:
            f = self.p.funcs[x.args[0]]
            c = self._fclos[x] = raw('clos', -len(self._fclos) - 1)
            self.clos[c] = (f, None, None)
        return c

    def has_clos(self, t):
        """Does the term mention a closure or a function to be opened?"""
        if t.op == 'clos':
            return True
        if t.op == 'glob':
            return t.args[0] in self.opened
        if not t.args:
            return False
        m = self._clos_memo.get(t.uid)
        if m is None:
            self._clos_memo[t.uid] = False
            m = self._clos_memo[t.uid] = any(self.has_clos(a) for a in t.args if isinstance(a, T))
        return m

    def fn(self, c, st):
        """Function value of a closure: an abstraction over its parameters."""
        f, fr, dv = self.clos[c]
        pars = f.node.args
        names = [a.arg for a in pars.posonlyargs + pars.args]
        req = names[:len(names) - len(pars.defaults)]
        bvs = [fresh_bv() for _ in req]
        if pars.vararg or pars.kwarg or pars.kwonlyargs:
            return unknown('closure with varargs')
        s = st.copy()
        rec = CallRec(fr, barrier=True)
        ctl = self.ctl
        self.ctl = [rec]
        try:
            v = self.call_closure(c, list(bvs), {}, s)
        finally:
            self.ctl = ctl
        outs = []
        if s.live is not FALSE:
            outs.append((s.live, v, s))
        for e, s2 in rec.raises:
            outs.append((s2.live, e, s2))
        if not outs:
            return unknown('closure never returns')
        r = None
        for g, v, s2 in reversed(outs):
            x = self.asval(v, s2)
            does = []
            for k in sorted(s2.reg, key=str):
                u, w = st.reg.get(k, EMPTY), s2.reg[k]
                if w is u:
                    continue
                w = self.delta(u, w)
                if w is None:
                    return unknown('closure with effects')
                does.append(mk('on', raw('rk', *[a if isinstance(a, T) else str(a) for a in k]), mk('seqv', self.asval(w, s2))))
            for k in st.cont:
                if s2.cont[k][1] is not st.cont[k][1]:
                    return unknown('closure that changes a variable')
            if does:
                x = mk('does', x, *does)
            r = x if r is None else ite(g, x, r)
        r = constrain(r, band(st.live, self.care([r])))
        return raw('fn', len(bvs), abstractn(bvs, r))

    @staticmethod
    def delta(u, w):
        """What w adds to the sequence u."""
        if u is EMPTY:
            return w
        p = u.args if u.op == 'cat' else (u,)
        q = w.args if w.op == 'cat' else (w,)
        return cat(*q[len(p):]) if q[:len(p)] == p else None

    def apply_value(self, f, args, st, fr):
        """Call of a function value (for map, filter, sorted keys...)."""
        return self.each(f, st, lambda x, s: self.apply(x, args, {}, s, fr))

    def call_closure(self, c, args, kw, st):
        f, fr, dv = self.clos[c]
        return self.inline(f, args, kw, st, outer=fr, dvals=dv, cls=fr.cls if fr is not None else None)

    # -- function application

    def apply(self, f, args, kw, st, fr, stmt=False):
        if f.op == 'clos':
            fn_, ofr, dv = self.clos[f]
            if sum(1 for x in self.stack if x is fn_) > 0:
                return mk('call', unknown('recursive closure'), *self.flat(args, kw, st))
            return self.call_closure(f, args, kw, st)
        if f.op == 'glob':
            return self.call_glob(f.args[0], args, kw, st, fr, stmt)
        if f.op == 'attr' and len(f.args) == 2:
            return self.method(f.args[0], f.args[1], args, kw, st, fr, stmt)
        if f.op == 'fn' and not kw and len(args) == f.args[0]:
            v = f.args[1]
            for a in args:
                v = inst(v, self.asval(a, st)) if v.op == 'lam' else v
            return v
        if f.op == 'bm':
            return self.method(f.args[0], f.args[1], list(f.args[2:]) + args, kw, st, fr, stmt)
        fv = self.asval(f, st)
        a = self.flat(args, kw, st)
        v = mk('call', fv, *a)
        self.call_raise(v, st)
        if stmt:
            self.event(('io',), v, st)
        return v

    def call_raise(self, v, st, known=False):
        """Opaque call inside try: any caught exception may come out of it."""
        for i in range(len(self.ctl) - 1, -1, -1):
            c = self.ctl[i]
            if isinstance(c, TryRec):
                for names, h in c.handlers:
                    if names is None:
                        self.split_raise(mk('exc', '*', v), raw('raise', glob(B + 'BaseException')), st)
                        continue
                    for nme in names:
                        short = nme.split('.')[-1]
                        if short in ('KeyError', 'IndexError', 'AttributeError', 'StopIteration', 'TypeError'):
                            # only of the operations that are known to raise it
                            if not known and not self.call_may(v, short):
                                continue
                        self.split_raise(mk('exc', short, v), raw('raise', glob(nme)), st)
            elif isinstance(c, CallRec) and c.barrier:
                return

    def call_may(self, v, short):
        if v.op == 'call' and v.args[0].op == 'glob':
            q = v.args[0].args[0]
            if q in (B + 'int', B + 'float'):
                return short in ('TypeError',)
            if q == B + 'next':
                return short == 'StopIteration'
            if q in self.p.funcs:
                return True
            if q in self.p.classes:
                return True
            return False
        if v.op == 'mc':
            return v.args[1] in self.p.by_method and v.args[1] not in COMMON
        if v.op == 'call':
            return True
        return False

    @staticmethod
    def just_warns(f):
        b = f.node.body
        if not isinstance(b, list):
            return False
        b = [s for s in b if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
        return len(b) == 1 and isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Call) \
            and dotted(b[0].value.func) in ('warnings.warn', 'warn')

    def may_inline(self, f):
        if f.qual in self.always_opaque:
            return False
        if not self.inline_all and f.qual in self.anchors and not self.just_warns(f):
            return False
        if len(self.stack) > INLINE_DEPTH:
            return False
        return all(x is not f for x in self.stack)

    def call_func(self, f, args, kw, st, fr, stmt=False, cls=None):
        """Call of a project function or method (self already in args)."""
        self.calls += 1
        deleg, self.deleg = self.deleg, None
        eager, self.eager = self.eager, False
        if not f.is_gen:
            deleg = None
        if self.may_inline(f) and 'star' not in [a.op for a in args] and '**' not in kw:
            if f.is_gen and deleg is None and not eager and self.effects(f):
                g = genexp_form(f) if f.qual not in self.anchors else None
                if g is not None:
                    return self.call_func(g, args, kw, st, fr, stmt, cls)
                return self.opaque_call(f, args, kw, st, fr, stmt)
            if f.cls is not None and cls is None:
                if self.root_cls is not None and args and args[0].op == 'self' and \
                        (self.root_cls is f.cls or self.p.subclass(self.root_cls.qual, f.cls.qual)):
                    cls = self.root_cls
                else:
                    cls = f.cls
            if f.qual in self.ordered:
                self.event(('io',), raw('did', mk('call', glob(f.qual), *self.canon_args(f, args, kw, st))), st)
            return self.inline(f, args, kw, st, cls=cls, deleg=deleg)
        return self.opaque_call(f, args, kw, st, fr, stmt)

    def inline(self, f, args, kw, st, outer=None, dvals=None, cls=None, deleg=None):
        self.visited.add(f.qual)
        fr = Frame(f, f.mod, cls, outer)
        if deleg is not None:
            fr.yroot = deleg.yroot or deleg
        node = f.node
        self.scan_locals(fr, node)
        ok = self.bind_args(f, node, args, kw, st, fr, dvals)
        if not ok:
            return unknown('arguments of %s' % f.qual)
        if f.cls is not None and args and not self.is_static(f):
            fr.selfterm = args[0]
            if args[0].op != 'self':
                # analysed for another object: no class knowledge about self
                fr.cls = f.cls
        elif outer is not None:
            fr.selfterm = outer.selfterm
        rec = CallRec(fr)
        self.ctl.append(rec)
        self.stack.append(f)
        try:
            if isinstance(node, ast.Lambda):
                v = self.eval(node.body, st, fr)
                if st.live is not FALSE:
                    rec.rets.append((v, st.copy()))
                    st.live = FALSE
            else:
                self.block(node.body, st, fr)
                if st.live is not FALSE:
                    rec.rets.append((NONE, st.copy()))
                    st.live = FALSE
        finally:
            self.stack.pop()
            while self.ctl and self.ctl[-1] is not rec:
                self.ctl.pop()
            if self.ctl:
                self.ctl.pop()
        rets = [(v, s) for v, s in rec.rets if s.live is not FALSE]
        if not rets:
            return NONE if deleg is None else DELEG
        v, s = rets[-1]
        if f.is_gen:
            v = NONE
        for v2, s2 in reversed(rets[:-1]):
            v = ite(s2.live, v2, v) if not f.is_gen else v
            s = merge(s2.live, s2, s)
        if f.is_gen and deleg is not None:
            v = DELEG
        elif f.is_gen:
            v = mk('itr', s.reg.pop(('y', fr.fid), EMPTY))
        for k in [k for k in s.env if k[0] == fr.fid]:
            if not self.captured(fr):
                del s.env[k]
        st.assign(s)
        if v.op == 'ite':
            v = constrain(v, st.live)
        return v

    def captured(self, fr):
        return any(c[1] is fr for c in self.clos.values())

    def bind_args(self, f, node, args, kw, st, fr, dvals):
        a = node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        vals = {}
        args = list(args)
        if args and args[-1].op == 'star' and not (a.vararg or a.defaults or kw or len(args) > len(pos)):
            c = self.fseq(args[-1].args[0], st)
            c = c.args[0] if c.op == 'elems' and len(c.args) == 1 else mk('coll', 'list', c)
            args = args[:-1] + [mk('item', c, const(i)) for i in range(len(pos) - len(args) + 1)]
        if any(x.op == 'star' for x in args):
            return False
        if len(args) > len(pos):
            if not a.vararg:
                return False
            vals[a.vararg.arg] = mk('tup', *args[len(pos):])
            args = args[:len(pos)]
        elif a.vararg:
            vals[a.vararg.arg] = raw('tup')
        for n, v in zip(pos, args):
            vals[n] = v
        extra = {}
        for k, v in kw.items():
            if k in pos or k in [x.arg for x in a.kwonlyargs]:
                if k in vals:
                    return False
                vals[k] = v
            elif a.kwarg:
                extra[k] = v
            else:
                return False
        dn = pos[len(pos) - len(a.defaults):]
        for i, n in enumerate(dn):
            if n not in vals:
                if dvals is not None:
                    vals[n] = dvals[i]
                else:
                    vals[n] = self.default(f, a.defaults[i], st)
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in vals:
                if d is None:
                    return False
                vals[x.arg] = self.default(f, d, st)
        for n in pos:
            if n not in vals:
                return False
        if a.kwarg:
            s = EMPTY
            for k, v in sorted(extra.items()):
                s = cat(s, mk('unit', mk('tup', const(k), v)))
            vals[a.kwarg.arg] = self.new_ref(st, 'dict', s)
        for k, v in vals.items():
            st.env[(fr.fid, k)] = v
        return True

    def default(self, f, node, st):
        fr = Frame(None, f.mod, None)
        return self.freeze(self.eval(node, st, fr), st)

    # -- opaque calls

    def canon_args(self, f, args, kw, st, skip_self=False):
        """Arguments in the order of the signature, with constant defaults
        (and without other ones)."""
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        if skip_self:
            pos = pos[1:]
        if a.vararg or a.kwarg or len(args) > len(pos) or any(x.op == 'star' for x in args) or '**' in kw:
            return self.flat(args, kw, st)
        vals = dict(zip(pos, args))
        for k, v in kw.items():
            vals[k] = v
        order = {n: i for i, n in enumerate(pos)}
        for x in a.kwonlyargs:
            order.setdefault(x.arg, len(order))
        dn = pos[len(pos) - len(a.defaults):] if a.defaults else []
        dflt = dict(zip(dn, a.defaults))
        dflt.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        for k, d in dflt.items():
            if k not in vals and isinstance(d, ast.Constant):
                vals[k] = const(d.value)
        out = []
        for k in sorted(vals, key=lambda k: (order.get(k, 999), k)):
            v = self.asval(vals[k], st)
            # by position, so that the name of a parameter does not matter
            n = 'a%d' % order[k] if k in order else k
            if k in dflt:
                try:
                    d = self.default(f, dflt[k], St())
                except Undecided:
                    d = None
                if d is v and d.op != 'const':
                    continue
                if d is not None and d.op != 'const' and v.op == 'ite':
                    v = lift(lambda x: raw('kw', n, x) if x is not d else raw('kw', n, raw('dflt')), ('dflt', n, d.uid), (v,))
                    out.append(v)
                    continue
            out.append(mk('kw', n, v))
        return out

    def opaque_call(self, f, args, kw, st, fr, stmt=False):
        skip = f.cls is not None and not self.is_static(f)
        if skip and args:
            me = self.asval(args[0], st)
            av = self.canon_args(f, args[1:], kw, st, True)
            name = f.name
            if me.op == 'self' and self.root_cls is not None and self.p.find_method(self.root_cls, name) is not f:
                v = mk('call', glob(f.qual), me, *av)
            else:
                v = mk('mc', me, name, *(list(self.ver(me, st)) + av))
        else:
            v = mk('call', glob(f.qual), *self.canon_args(f, args, kw, st))
        eff = self.effects(f)
        rv = v
        if eff:
            rv = self.apply_effects(f, eff, v, args, kw, st)
        if f.qual in self.ordered:
            self.event(('io',), raw('did', v), st)
        self.call_raise(v, st, True)
        if (self.contracted(f) or f).is_gen:
            return mk('itr', mk('elems', rv))
        if self.returns_bool(f):
            return mk('truthy', rv)
        return rv

    def apply_effects(self, f, eff, v, args, kw, st):
        """Record the effects of an opaque project call."""
        pos = f.params()
        prevs = []
        for e in sorted(eff):
            if e[0] == 'par':
                i = e[1]
                x = args[i] if i < len(args) else kw.get(pos[i]) if i < len(pos) else None
                if x is None:
                    continue
                if len(e) > 2:
                    x = self.load_attr(x, e[2], st)
                    if x is None:
                        continue
                for g, leaf in gated_leaves(x):
                    if leaf.op == 'ref':
                        kind, c = st.cont[leaf]
                        prevs.append(self.freeze(c, st))
                        nc = mk('elems', raw('aft', i, v)) if v.op != 'ite' else lift(lambda q: raw('elems', raw('aft', i, q)), ('aft', i), (v,))
                        st.cont[leaf] = (kind, nc if g is TRUE else ite(g, nc, c))
                    elif leaf.op == 'path':
                        base, path = self.split_path(leaf)
                        self.push_content(base, mk('pm', path[0], mk('tup', *path[1:]), 'by', self.freeze(v, st)), st)
                    elif leaf.op in ('const', 'itr', 'coll'):
                        pass
                    else:
                        leaf = self.freeze(leaf, st)
                        key = ('obj', leaf)
                        pv = st.reg.get(key, EMPTY)
                        prevs.append(pv)
                        nv = cat(pv, mk('unit', mk('ev', 'by', v)))
                        st.reg[key] = nv if g is TRUE else ite(g, nv, pv)
            elif e[0] == 'attr':
                key = ('attr', e[1])
                st.reg[key] = cat(st.reg.get(key, EMPTY), mk('unit', mk('by', v)))
            elif e[0] == 'io':
                self.event(('io',), v, st)
            elif e[0] == 'global':
                ref = self.module_ref(e[1], self.p.modules[e[2]].names[e[3]][1], st)
                if ref.op == 'ref':
                    kind, c = st.cont[ref]
                    st.cont[ref] = (kind, mk('elems', raw('aft', e[1], v, self.freeze(c, st))) if v.op != 'ite' and c.op != 'ite' else
                                    lift(lambda q, c: raw('elems', raw('aft', e[1], q, c)), ('aft', e[1]), (v, self.freeze(c, st))))
                else:
                    self.event(('global', e[1]), mk('by', v), st)
        return mk('after', v, *prevs) if prevs else v

    def load_attr(self, x, name, st):
        """Attribute of an argument that an opaque call changes."""
        out = None
        for g, leaf in gated_leaves(x):
            if leaf.op in ('const', 'itr', 'coll', 'path'):
                v = NONE
            else:
                s = st.reg.get(('attr', name))
                v = self.load(s, leaf) if s is not None and s is not EMPTY else None
                if v is None or v.op not in ('ref', 'path', 'attr'):
                    v = raw('attr', leaf, name)
            out = v if out is None else ite(g, v, out)
        return out

    def contracted(self, f):
        if self.contract is not None and f.qual in self.anchors:
            return self.contract.p.funcs.get(f.qual)
        return None

    def effects(self, f, seen=None):
        """Transitive effect summary of a project function:
        ('par', i) its i-th parameter is mutated, ('attr', a), ('io',)."""
        c = self.contracted(f)
        if c is not None:
            return self.contract.effects(c)
        if f in self._eff:
            return self._eff[f]
        top = seen is None
        seen = seen or set()
        if f in seen:
            return set()
        seen.add(f)
        out = set()
        node = f.node
        a = node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        idx = {n: i for i, n in enumerate(names)}
        body = node.body if isinstance(node.body, list) else [node.body]
        # local aliases of parameters (x = par.attr, for x in par)
        alias = dict(idx)
        gl = {x for s in body for n in ast.walk(s) if isinstance(n, ast.Global) for x in n.names}
        local = {n.id for s in body for n in ast.walk(s)
                 if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} - gl
        for x in gl & f.mod.mutated:
            if f.mod.names.get(x, ('',))[0] == 'expr' and any(
                    isinstance(n, ast.Name) and n.id == x and isinstance(n.ctx, ast.Store) for s in body for n in ast.walk(s)):
                out.add(('global', f.mod.name + '.' + x, f.mod.name, x))
        for _ in range(3):
            for s in body:
                for n in ast.walk(s):
                    if isinstance(n, ast.Assign) and isinstance(n.value, (ast.Name, ast.Attribute, ast.Subscript)):
                        r = self.root(n.value)
                        if r in alias:
                            for t in n.targets:
                                if isinstance(t, ast.Name) and t.id not in idx:
                                    alias[t.id] = alias[r]

        def hit(expr):
            r = self.root(expr)
            if r in alias:
                out.add(('par', alias[r]) + ((expr.attr,) if isinstance(expr, ast.Attribute) and isinstance(expr.value, ast.Name) and r in idx
                                                  and expr.attr not in self.p.by_getter else ()))
            elif r in f.mod.mutated and r not in local and f.mod.names.get(r, ('',))[0] == 'expr':
                out.add(('global', f.mod.name + '.' + r, f.mod.name, r))
        for s in body:
            for n in ast.walk(s):
                if isinstance(n, (ast.Subscript,)) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    hit(n.value)
                elif isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    out.add(('attr', n.attr))
                elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and n.target.id in idx:
                    pass
                elif isinstance(n, ast.Call):
                    fn_ = n.func
                    d = dotted(fn_)
                    q = self.resolve(f, d) if d else None
                    if q in IO_CALLS:
                        out.add(('io',))
                        continue
                    if isinstance(fn_, ast.Attribute):
                        if isinstance(fn_.value, ast.Name) and fn_.value.id == 'list' and n.args and fn_.attr in MUT:
                            hit(n.args[0])
                            continue
                        if fn_.attr in MUT and self.root(fn_.value) is not None:
                            if fn_.attr == 'write':
                                out.add(('io',))
                            hit(fn_.value)
                            if fn_.attr not in self.p.by_method:
                                continue
                    g = self.p.funcs.get(q) if q else None
                    if g is None and q in self.p.classes:
                        continue
                    if g is not None:
                        for e in self.effects(g, seen):
                            if e[0] == 'par':
                                gi = e[1]
                                off = 0
                                ar = None
                                if gi < len(n.args):
                                    ar = n.args[gi]
                                else:
                                    gp = g.params()
                                    for k in n.keywords:
                                        if gi < len(gp) and k.arg == gp[gi]:
                                            ar = k.value
                                if ar is not None:
                                    hit(ar)
                            else:
                                out.add(e)
                        continue
                    if isinstance(fn_, ast.Attribute) and fn_.attr in self.p.by_method and fn_.attr not in COMMON:
                        for g in self.p.by_method[fn_.attr]:
                            for e in self.effects(g, seen):
                                if e[0] == 'par':
                                    gi = e[1]
                                    if gi == 0:
                                        hit(fn_.value)
                                    elif gi - 1 < len(n.args):
                                        hit(n.args[gi - 1])
                                else:
                                    out.add(e)
        if top:
            self._eff[f] = out
        return out

    def root(self, e):
        while isinstance(e, (ast.Attribute, ast.Subscript)):
            e = e.value
        return e.id if isinstance(e, ast.Name) else None

    def resolve(self, f, d):
        parts = d.split('.')
        if parts[0] == 'self' and f.cls is not None and len(parts) == 2:
            m = self.p.find_method(f.cls, parts[1])
            return None if not isinstance(m, Func) else None
        r = f.mod.lookup_hook(parts[0]) if hasattr(f.mod, 'lookup_hook') else None
        if r is None:
            r = self.p.resolve_dotted(f.mod.name, d)
        else:
            if r[0] == 'ext':
                return '.'.join([r[1]] + parts[1:])
            r = self.p.resolve_dotted(f.mod.name, d)
        if r is None:
            return None
        if r[0] in ('func', 'class'):
            return r[1].qual
        if r[0] in ('ext', 'module'):
            return r[1]
        return None

    _bool_memo = {}

    def returns_bool(self, f, seen=()):
        if f.name in DUNDER_BOOL:
            return True
        c = self.contracted(f)
        if c is not None:
            return self.contract.returns_bool(c)
        if f in self._bool_memo:
            return self._bool_memo[f]
        if f in seen:
            return True
        rets = []
        node = f.node
        if isinstance(node, ast.Lambda):
            rets = [node.body]
        else:
            todo = list(node.body)
            while todo:
                n = todo.pop()
                if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                    continue
                if isinstance(n, ast.Return):
                    rets.append(n.value)
                todo.extend(ast.iter_child_nodes(n))

        def isb(e):
            if e is None:
                return False
            if isinstance(e, ast.Compare):
                return True
            if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
                return True
            if isinstance(e, ast.Constant):
                return isinstance(e.value, bool)
            if isinstance(e, ast.BoolOp):
                return all(isb(x) for x in e.values)
            if isinstance(e, ast.IfExp):
                return isb(e.body) and isb(e.orelse)
            if isinstance(e, ast.Call):
                d = dotted(e.func)
                if d in ('isinstance', 'hasattr', 'any', 'all', 'bool', 'callable', 'issubclass'):
                    return True
                if isinstance(e.func, ast.Attribute) and e.func.attr in BOOL_METHODS:
                    return True
                g = self.p.funcs.get(self.resolve(f, d)) if d else None
                if g is not None:
                    return self.returns_bool(g, seen + (f,))
            return False
        r = bool(rets) and all(isb(e) for e in rets)
        if not r and not f.is_gen and rets:
            r = self.sem_bool(f)
        self._bool_memo[f] = r
        return r

    def sem_bool(self, f):
        s = self.summary(f)
        if s is None:
            return False
        n = 0
        for g, leaf in gated_leaves(s[('out',)]):
            if leaf.op == 'ret':
                n += 1
                if not is_bool(leaf.args[0]):
                    return False
        return n > 0

    # -- raw list/dict methods of the container classes

    def raw_method(self, m, me, args, kw, st, fr):
        base, name = m
        t = base.split('.')[-1]
        if me.op == 'ref':
            return self.method(me, name, args, kw, st, fr)
        if name == '__init__':
            if args:
                self.mutate(self.freeze(me, st), 'init', args, kw, st, fr)
            return NONE
        if name == '__iter__':
            return mk('itr', mk('elems', me, *self.ver(me, st)))
        if name == '__len__':
            return mk('len', mk('elems', me, *self.ver(me, st)))
        if name == '__contains__':
            return self.contains_(args[0], me, st, fr)
        av = [self.asval(a, st) for a in args] + [raw('kw', k, self.asval(v, st)) for k, v in sorted(kw.items())]
        if name == 'insert' and len(av) == 2 and av[0] is mk('len', mk('elems', me, *self.ver(me, st))):
            name, av = 'append', av[1:]
        v = mk('rawop', t, name, me, *(av + list(self.ver(me, st))))
        for e in RAW_RAISES.get(name, ()):
            if e == 'TypeError' and not self.catches('TypeError'):
                continue
            self.split_raise(mk('exc', e, v), e, st)
        if name in MUT:
            key = ('obj', me)
            prev = st.reg.get(key, EMPTY)
            st.reg[key] = cat(prev, mk('unit', mk('ev', name, *av)))
            if name == 'pop':
                return mk('res', me, mk('ev', name, *av), prev)
            return NONE
        if name in ('__eq__', '__ne__', '__lt__', '__contains__'):
            return mk('truthy', v)
        return v


_genexp_forms = {}


def genexp_form(f):
    """A generator function that is one loop with one `yield` in it, as the
    function that returns the generator expression."""
    if f in _genexp_forms:
        return _genexp_forms[f]
    body = [s for s in f.node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
    gens = []
    while len(body) == 1 and (isinstance(body[0], ast.For) and not body[0].orelse or
                              isinstance(body[0], ast.If) and gens and not body[0].orelse):
        s = body[0]
        if isinstance(s, ast.For):
            gens.append(ast.comprehension(target=s.target, iter=s.iter, ifs=[], is_async=0))
        else:
            gens[-1].ifs.append(s.test)
        body = s.body
    g = None
    if gens and len(body) == 1 and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Yield) \
            and body[0].value.value is not None and not any(
                isinstance(x, (ast.Yield, ast.YieldFrom)) for c in gens for y in [c.iter] + c.ifs for x in ast.walk(y)):
        e = ast.GeneratorExp(elt=body[0].value.value, generators=gens)
        r = ast.Return(value=e)
        ast.copy_location(e, body[0])
        ast.copy_location(r, body[0])
        node = ast.FunctionDef(name=f.node.name, args=f.node.args, body=[r], decorator_list=f.node.decorator_list,
                               returns=None, type_comment=None)
        ast.copy_location(node, f.node)
        ast.fix_missing_locations(node)
        g = Func(f.mod, node, f.cls, f.qual)
    _genexp_forms[f] = g
    return g

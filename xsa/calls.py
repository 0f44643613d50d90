"""Calls of builtins, container methods and opaque code; loop summaries."""

import ast
import re
import string

from . import terms as TM
from .terms import (T, raw, mk, const, ite, band, bor, bnot, TRUE, FALSE, NONE,
                    ABSENT, EMPTY, fresh_bv, unknown, abstract, abstractn,
                    subst, cat, inst, constrain, is_bool, gated_leaves,
                    nonempty, lift, builder, atom, inst_raw, atoms_of)
from .project import Func

B = 'builtins.'
DICTK_NAMES = ('dict', 'odict', 'counter')


# arguments that may be given by position or by name
BY_POSITION = {
    'split': (('sep', NONE), ('maxsplit', const(-1))), 'rsplit': (('sep', NONE), ('maxsplit', const(-1))),
    'splitlines': (('keepends', const(False)),), 'encode': (('encoding', const('utf-8')), ('errors', const('strict'))),
    'decode': (('encoding', const('utf-8')), ('errors', const('strict'))),
    B + 'int': (('x', const(0)), ('base', const(10))), B + 'sum': (('iterable', None), ('start', const(0))),
    B + 'round': (('number', None), ('ndigits', NONE)), B + 'str': (('object', None), ('encoding', None), ('errors', None)),
    're.sub': (('pattern', None), ('repl', None), ('string', None), ('count', const(0)), ('flags', const(0))),
    're.split': (('pattern', None), ('string', None), ('maxsplit', const(0)), ('flags', const(0))),
    're.compile': (('pattern', None), ('flags', const(0))),
}
for _n in ('match', 'search', 'fullmatch', 'findall', 'finditer'):
    BY_POSITION['re.' + _n] = (('pattern', None), ('string', None), ('flags', const(0)))


def by_position(names, args, kw):
    args, kw = list(args), dict(kw)
    if any(k not in dict(names) for k in kw):
        return args, kw
    for n, d in names[len(args):]:
        if not kw:
            break
        v = kw.pop(n, d)
        if v is None:
            return args, kw
        args.append(v)
    return args, kw


class _DictK(object):
    def __contains__(self, k):
        return k in DICTK_NAMES or isinstance(k, str) and k.startswith('dd:')


DICTK = _DictK()

NOT_GETTERS = {'items', 'keys', 'values', 'text', 'name', 'type'}

COMMON = set(dir(list)) | set(dir(dict)) | set(dir(str)) | set(dir(set)) | {
    'write', 'read', 'close', 'popleft', 'appendleft', 'extendleft', 'rotate',
    'most_common', 'match', 'search', 'finditer', 'group', 'groups', 'groupdict',
    'sub', 'flush', 'set', 'findall', 'span', 'start', 'end'}
COMMON -= {'__class__'}

FORGET = {'close', 'flush'}
CONST_STR = {'strip', 'lstrip', 'rstrip', 'lower', 'upper', 'startswith', 'endswith',
             'replace', 'isdigit', 'ljust', 'rjust', 'title', 'capitalize', 'zfill'}
BOOLM = {'startswith', 'endswith', 'isdigit', 'isalpha', 'isupper', 'islower',
         'isspace', 'isdisjoint', 'issubset', 'issuperset', 'isalnum', 'isidentifier'}


def glob(q):
    return raw('glob', q)


def lmap(op, f, *args):
    return lift(f, op, args)


class CallMixin(object):

    # ---------------------------------------------------------------- helpers

    def over(self, s, st, fr, f):
        """Sequence of f(element, state); f returns a sequence term."""
        acc = self.new_ref(st, 'list')

        class _N(object):
            pass

        def body(s2):
            x = box[0]
            q = f(x, s2)
            if s2.live is TM.FALSE:
                return
            kind, c = s2.cont[acc]
            s2.cont[acc] = (kind, cat(c, q))
        box = [None]

        def bindf(b, s2):
            box[0] = b
        self.loop_over(s, bindf, body, None, st, fr, ast.Pass())
        r = st.cont.pop(acc)[1] if acc in st.cont else EMPTY
        return r

    def fseq(self, v, st):
        return self.freeze(self.seq(v, st), st)

    def leafwise(self, v, f):
        r = None
        for g, x in gated_leaves(v):
            y = f(x)
            r = y if r is None else ite(g, y, r)
        return r

    # -------------------------------------------------------------- methods

    def method(self, x, name, args, kw, st, fr, stmt=False):
        if kw and name in BY_POSITION and name not in self.p.by_method:
            args, kw = by_position(BY_POSITION[name], args, kw)
        if x.op == 'ref' and x in st.cont:
            return self.ref_method(x, name, args, kw, st, fr)
        if x.op == 'path':
            return self.path_method(x, name, args, kw, st, fr)
        if name in ('__eq__', '__ne__') and len(args) == 1 and not kw and x.op not in ('super', 'glob'):
            return self.compare(ast.Eq() if name == '__eq__' else ast.NotEq(), x, args[0], st, fr)
        if stmt and name == 'pop' and len(args) == 1 and not kw and not (x.op == 'self' and self.root_cls is not None):
            return self.del_item(x, args[0], st, fr)
        if x.op == 'super' and fr.cls is not None:
            cur = fr.func.cls if fr.func is not None and fr.func.cls is not None else fr.cls
            m = self.p.find_method(fr.cls, name, after=cur)
            me = fr.selfterm or raw('self')
            if isinstance(m, Func):
                return self.call_func(m, [me] + args, kw, st, fr)
            if isinstance(m, tuple):
                return self.raw_method(m, me, args, kw, st, fr)
        if x.op == 'self' and self.root_cls is not None:
            m = self.p.find_method(self.root_cls, name)
            if isinstance(m, Func):
                if self.is_static(m):
                    return self.call_func(m, args, kw, st, fr, stmt)
                return self.call_func(m, [x] + args, kw, st, fr, stmt)
            if isinstance(m, tuple):
                return self.raw_method(m, x, args, kw, st, fr)
            g = self.p.find(self.root_cls, 'getters', name)
            if g is not None:
                return self.apply_value(self.get_attr(x, name, st, fr), args, st, fr)
        if x.op == 'glob':
            r = self.glob_attr(x, name, st, fr)
            if r.op != 'attr':
                return self.each(r, st, lambda y, s: self.apply(y, args, kw, s, fr, stmt))
        if x.op == 'excobj':
            return raw('mc', x, name)
        if x.op == 'const' and isinstance(x.args[0], str) or x.op == 'strcat' or x.op == 'join':
            r = self.str_method(x, name, args, kw, st, fr)
            if r is not None:
                return r
        if x.op == 'itr':
            if name == '__next__':
                return self.next_([x], st)
        fx = self.freeze(x, st)
        if name == 'join' and len(args) == 1 and not kw:
            return mk('join', fx, self.fseq(args[0], st))
        if fx.op == 'coll':
            # a finished container: pure methods on the value
            kind, s = fx.args
            r = self.coll_method(fx, kind, s, name, args, kw, st, fr)
            if r is not None:
                return r
        if name in FORGET:
            return NONE
        if name == '__class__':
            pass
        if name in ('keys', 'values', 'items', 'iteritems', 'iterkeys', 'itervalues') and not args and not kw \
                and self.may_be_map(fx):
            name = name.replace('iter', '')
            if name == 'keys':
                return mk('itr', mk('elems', fx, *self.ver(fx, st)))
            s = self.items_seq(fx, st)
            if name == 'items':
                return mk('itr', s)
            b = fresh_bv()
            return mk('itr', mk('fm', s, abstract(b, mk('unit', mk('item', b, const(1))))))
        if name == 'get' and 1 <= len(args) <= 2 and self.dictlike(fx) and not kw:
            k = self.freeze(args[0], st)
            d = args[1] if len(args) > 1 else NONE
            v = self.ver(fx, st)
            return ite(mk('in', k, fx, *v), mk('item', fx, k, *v), d)
        if name == 'copy' and not args and self.dictlike(fx):
            return self.new_ref(st, 'dict', self.items_seq(fx, st))
        if name == '__contains__' and len(args) == 1:
            return self.contains_(args[0], x, st, fr)
        if name == '__eq__' and len(args) == 1:
            return mk('eq', fx, self.freeze(args[0], st))
        if name == '__getitem__' and len(args) == 1 and x.op != 'self':
            return self.get_item(x, args[0], st, fr)
        if name == '__len__':
            return mk('len', mk('elems', fx, *self.ver(fx, st)))
        if name == '__iter__' and not args:
            return mk('itr', self.seq(x, st))
        if name == 'write' and len(args) == 1 and not kw:
            self.write(fx, self.freeze(args[0], st), st)
            return NONE
        # methods of project classes
        fs = self.p.by_method.get(name, ())
        if fs and (name not in COMMON or fx.op == 'self' or name == 'span' and any(
                self.accepts(f, args, kw) for f in fs)):
            cands = [f for f in fs if not self.is_static(f)]
            fit = [f for f in cands if self.accepts(f, args, kw)]
            cands = fit or cands
            if args and args[-1].op == 'star' and len({tuple(f.params()) for f in cands}) == 1:
                args = self.unstar(cands[0], args, kw, st)
            if len(cands) == 1 and cands[0] not in self.stack:
                f = cands[0]
                return self.call_func(f, [x] + args, kw, st, fr, stmt)
            if cands:
                return self.dispatch(fx, name, cands, args, kw, st, fr, stmt)
        if name in self.MUT_:
            return self.mutate(fx, name, args, kw, st, fr)
        if name == 'get' and len(args) == 2 and args[1] is NONE:
            args = args[:1]
        if name == 'get' and 1 <= len(args) <= 2 and not kw and args[0].op != 'star':
            # the key is known to be there, or not to be there
            k = self.freeze(args[0], st)
            c = mk('in', k, fx, *self.ver(fx, st))
            if c.op == 'ite' and c.args[1] is TRUE and c.args[2] is FALSE:
                if TM.implies(st.live, c):
                    return mk('item', fx, k, *self.ver(fx, st))
                if TM.implies(st.live, TM.bnot(c)):
                    return args[1] if len(args) > 1 else NONE
        if name in PARSER_CALLS:
            kw = {k: v for k, v in kw.items() if k not in PARSER_DOC}
        v = mk('mc', fx, name, *(list(self.ver(fx, st)) + self.flat(args, kw, st)))
        self.call_raise(v, st)
        if name in BOOLM:
            return mk('truthy', v)
        if stmt:
            st.reg[('obj', fx)] = cat(st.reg.get(('obj', fx), EMPTY),
                                      mk('unit', mk('ev', name, *self.flat(args, kw, st))))
        return v

    @staticmethod
    def accepts(f, args, kw):
        """Can the method be called with these arguments?"""
        if any(x.op == 'star' for x in args) or '**' in kw:
            return True
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args][1:]
        kwo = [x.arg for x in a.kwonlyargs]
        if len(args) > len(pos) and not a.vararg:
            return False
        if not a.kwarg and any(k not in pos[len(args):] and k not in kwo for k in kw):
            return False
        need = pos[len(args):len(pos) - len(a.defaults)] if len(args) < len(pos) - len(a.defaults) else []
        need += [x for x, d in zip(kwo, a.kw_defaults) if d is None]
        return all(x in kw for x in need)

    def unstar(self, f, args, kw, st):
        """f(*s) of a method that takes exactly n arguments is f(s[0], .., s[n - 1])."""
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args][1:]
        if a.vararg or a.defaults or kw or len(args) > len(pos) or any(x.op == 'star' for x in args[:-1]):
            return args
        c = mk('coll', 'list', self.fseq(args[-1].args[0], st))
        return args[:-1] + [mk('item', c, const(i)) for i in range(len(pos) - len(args) + 1)]

    def may_be_map(self, x):
        return True

    def dispatch(self, x, name, cands, args, kw, st, fr, stmt):
        """Method with several implementations: opaque, joint effects."""
        eff = set()
        for f in cands:
            eff |= self.effects(f)
        sigs = {tuple(f.params()) for f in cands}
        if len(sigs) == 1:
            av = self.canon_args(cands[0], args, kw, st, True)
        else:
            av = self.flat(args, kw, st)
        v = mk('mc', x, name, *(list(self.ver(x, st)) + av))
        rv = v
        if eff:
            rv = self.apply_effects(cands[0], eff, v, [x] + args, kw, st)
        self.call_raise(v, st)
        if all((self.contracted(f) or f).is_gen for f in cands):
            return mk('itr', mk('elems', rv))
        if all(self.returns_bool(f) for f in cands):
            return mk('truthy', rv)
        return rv

    # text output: one event for each piece
    def write(self, fx, s, st):
        def pieces(s):
            parts = s.args if s.op == 'strcat' else (s,)
            q = EMPTY
            for p in parts:
                q = cat(q, raw('unit', raw('ev', 'write', p)))
            return q
        q = lift(pieces, 'pieces', (s,))
        key = ('obj', fx)
        st.reg[key] = TM.mk('wcat', st.reg.get(key, EMPTY), q)

    def str_method(self, x, name, args, kw, st, fr):
        if name == 'join' and len(args) == 1:
            return mk('join', x, self.fseq(args[0], st))
        if name == 'format' and x.op == 'const':
            r = self.str_format(x.args[0], args, kw, st, fr)
            if r is not None:
                return r
        if x.op == 'const' and name in CONST_STR and not kw \
                and all(a.op == 'const' for a in args):
            try:
                return const(getattr(x.args[0], name)(*[a.args[0] for a in args]))
            except Exception:
                return None
        return None

    def str_format(self, f, args, kw, st, fr):
        if '**' in kw or any(a.op == 'star' for a in args[:-1]):
            return None
        more = None
        if args and args[-1].op == 'star':
            args, more = args[:-1], args[-1].args[0]
        parts = []
        auto = 0
        try:
            for lit, field, spec, conv in string.Formatter().parse(f):
                if lit:
                    parts.append(const(lit))
                if field is None:
                    continue
                import _string
                first, rest = _string.formatter_field_name_split(field)
                if first == '':
                    first = auto
                    auto += 1
                if isinstance(first, int):
                    if first < len(args):
                        v = args[first]
                    elif more is not None:
                        v = self.get_item(more, const(first - len(args)), st, fr)
                    else:
                        return None
                else:
                    if first not in kw:
                        return None
                    v = kw[first]
                for is_attr, i in rest:
                    v = self.get_attr(v, i, st, fr) if is_attr else \
                        self.get_item(v, const(i), st, fr)
                if spec and '{' in spec:
                    if more is not None:
                        return None
                    sp = self.str_format(spec, args[auto:] if '{}' in spec else args, kw, st, fr)
                    if sp is None:
                        return None
                    if '{}' in spec:
                        auto += spec.count('{}')
                    spec = sp.args[0] if sp.op == 'const' else raw('kw', 'spec', sp)
                parts.append(mk('fmt', self.freeze(v, st), conv or '', spec or ''))
        except ValueError:
            return None
        return mk('strcat', *parts)

    # -- local containers

    def ref_method(self, x, name, args, kw, st, fr):
        kind, s = st.cont[x]
        if kind in DICTK:
            r = self.dict_method(x, kind, s, name, args, kw, st, fr)
        elif kind == 'iter':
            if name == '__next__':
                return self.next_([x], st)
            r = None
        else:
            r = self.list_method(x, kind, s, name, args, kw, st, fr)
        if r is not None:
            return r
        fx = self.freeze(x, st)
        r = self.coll_method(fx, kind, self.freeze(st.cont[x][1], st), name, args, kw, st, fr)
        if r is not None:
            return r
        v = mk('mc', fx, name, *self.flat(args, kw, st))
        if name in self.MUT_:
            st.cont[x] = (kind, mk('elems', mk('aftm', v)))
            return mk('resm', v)
        self.call_raise(v, st)
        return v

    def list_method(self, x, kind, s, name, args, kw, st, fr):
        n = len(args)

        def put(q):
            st.cont[x] = (kind, q)
            return NONE
        if name in ('insert', 'pop', 'popleft', 'clear', 'remove', 'reverse', 'sort', 'discard', 'appendleft', '__setitem__', '__delitem__'):
            self.pin(x, (), st)
            kind, s = st.cont[x]
        if name in ('append', 'add') and n == 1:
            return put(cat(s, mk('unit', args[0])))
        if name in ('extend', 'update', '__iadd__') and not kw:
            for a in args:
                s = cat(s, self.seq(a, st))
            put(s)
            return x if name == '__iadd__' else NONE
        if name == 'appendleft' and n == 1:
            return put(cat(mk('unit', args[0]), s))
        if name == 'extendleft' and n == 1:
            return put(cat(mk('rev', self.seq(args[0], st)), s))
        if name == 'insert' and n == 2:
            if args[0] is const(0):
                return put(cat(mk('unit', args[1]), s))
            return put(mk('elems', mk('insat', self.freeze(x, st), self.freeze(args[0], st), self.freeze(args[1], st))))
        if name in ('pop', 'popleft') and kind != 'set' and not kw:
            front = name == 'popleft' or n == 1 and args[0] is const(0)
            back = name == 'pop' and (n == 0 or args[0] is const(-1))
            if front or back:
                if self.catches('IndexError'):
                    self.split_raise(bnot(nonempty(s)), 'IndexError', st)
                    kind, s = st.cont.get(x, (kind, s))
                s = constrain(s, self.care([nonempty(s)])) if s.op == 'ite' else s
                st.cont[x] = (kind, mk('tail', s) if front else mk('init', s))
                return mk('head', s) if front else mk('last', s)
            v = mk('item', self.freeze(x, st), self.freeze(args[0], st))
            put(mk('elems', mk('delat', self.freeze(x, st), self.freeze(args[0], st))))
            return v
        if name == 'clear':
            return put(EMPTY)
        if name in ('remove', 'discard') and n == 1:
            k = self.freeze(args[0], st)
            if name == 'remove':
                for e in ('ValueError', 'KeyError'):
                    if self.catches(e):
                        self.split_raise(bnot(self.contains_(k, x, st, fr)), e, st)
            return put(mk('without' if kind == 'set' else 'without1', s, k))
        if name == 'reverse':
            return put(mk('rev', s))
        if name == 'sort' and n == 0:
            return put(self.sorted_seq(s, kw, st, fr))
        if name == 'copy':
            return self.new_ref(st, kind, s)
        return None

    def coll_method(self, fx, kind, s, name, args, kw, st, fr):
        """Pure methods of a container value."""
        n = len(args)
        if kind in DICTK:
            if name == 'get' and 1 <= n <= 2 and not kw:
                k = self.freeze(args[0], st)
                d = args[1] if n > 1 else NONE
                return ite(mk('in', k, fx), mk('item', fx, k), d)
            if name == 'keys' and not n:
                return mk('itr', mk('elems', fx))
            if name == 'items' and not n:
                return mk('itr', mk('pairs', fx))
            if name == 'values' and not n:
                b = fresh_bv()
                return mk('itr', mk('fm', mk('pairs', fx), abstract(b, mk('unit', mk('item', b, const(1))))))
            if name == 'copy':
                return self.new_ref(st, kind, s)
        else:
            if name == '__contains__' and n == 1:
                return self.contains_(args[0], fx, st, fr)
            if name == 'copy' and not n:
                return self.new_ref(st, kind, s)
            if kind == 'set' and name in ('union', 'intersection', 'difference') and n == 1:
                o = self.freeze(args[0], st)
                if name == 'union':
                    return self.new_ref(st, 'set', cat(s, self.fseq(args[0], st)))
                if name == 'intersection':
                    return mk('inter', fx, mk('coll', 'set', self.fseq(args[0], st)))
                return mk('setdiff', fx, mk('coll', 'set', self.fseq(args[0], st)))
            if name in ('issubset', 'issuperset', 'isdisjoint') and n == 1:
                o = self.fseq(args[0], st)
                oc = mk('coll', 'list', o)
                b = fresh_bv()
                if name == 'issubset':
                    return bnot(mk('ex', s, abstract(b, bnot(mk('in', b, oc)))))
                if name == 'issuperset':
                    return bnot(mk('ex', o, abstract(b, bnot(mk('in', b, fx)))))
                return bnot(mk('ex', s, abstract(b, mk('in', b, oc))))
        if name == '__getitem__' and n == 1:
            return mk('item', fx, self.freeze(args[0], st))
        return None

    def dict_method(self, x, kind, s, name, args, kw, st, fr):
        n = len(args)
        if name in ('update', 'pop', 'clear', 'popitem', '__setitem__', '__delitem__'):
            self.pin(x, (), st)
            kind, s = st.cont[x]
        if name == 'update':
            if kind == 'counter':
                for a in args:
                    q = self.seq(a, st)
                    b = fresh_bv()
                    s = cat(s, mk('fm', q, abstract(b, mk('unit', mk('pm', b, raw('tup'), 'augAdd', const(1))))))
            else:
                for a in args:
                    s = cat(s, self.update_seq(a, st))
            for k, v in kw.items():
                if k == '**':
                    s = cat(s, self.update_seq(v, st))
                else:
                    s = cat(s, mk('unit', mk('tup', const(k), v)))
            st.cont[x] = (kind, s)
            return NONE
        if name == 'get' and 1 <= n <= 2 and not kw:
            k = self.freeze(args[0], st)
            d = args[1] if n > 1 else NONE
            c = self.contains_(k, x, st, fr)
            if c is FALSE:
                return d
            v = lift(lambda q, kk: self.dict_item(q, kk), 'ditem2', (s, k))
            fx = self.freeze(x, st)
            out = None
            for g, l in gated_leaves(v):
                y = mk('item', fx, k) if l.op == 'nohit' else l
                out = y if out is None else ite(g, y, out)
            return ite(c, out, d)
        if name == 'setdefault' and 1 <= n <= 2:
            k = self.freeze(args[0], st)
            d = self.freeze(args[1], st) if n > 1 else NONE
            if k.op == 'ite':
                return self.each(k, st, lambda y, q: self.dict_method(
                    x, kind, q.cont[x][1], name, [y] + args[1:], kw, q, fr))
            s = constrain(s, st.live)
            parts = s.args if s.op == 'cat' else () if s is EMPTY else (s,)
            if kind == 'dict' and k.op == 'const' and all(p.op == 'unit' and p.args[0].op == 'tup' and p.args[0].args[0].op == 'const'
                                                          for p in parts):
                v = [p.args[0].args[1] for p in parts if p.args[0].args[0] is k]
                if v:
                    return v[-1]
                d = args[1] if n > 1 else NONE
                self.push_content(x, mk('tup', k, d), st)
                return d
            self.push_content(x, mk('pm', k, raw('tup'), 'default', d), st)
            return raw('path', x, k)
        if name == 'pop' and 1 <= n <= 2:
            k = self.freeze(args[0], st)
            if n == 1:
                if self.catches('KeyError'):
                    self.split_raise(bnot(self.contains_(k, x, st, fr)), 'KeyError', st)
                v = mk('item', self.freeze(x, st), k)
            else:
                v = ite(self.contains_(k, x, st, fr), mk('item', self.freeze(x, st), k), args[1])
            st.cont[x] = (kind, mk('without', s, k))
            return v
        if name == 'clear':
            st.cont[x] = (kind, EMPTY)
            return NONE
        if name == 'copy':
            return self.new_ref(st, kind, s)
        if name in ('keys', 'iterkeys') and not n:
            return mk('itr', self.seq(x, st))
        if name in ('items', 'iteritems') and not n:
            return mk('itr', mk('pairs', mk('coll', kind, s)))
        if name in ('values', 'itervalues') and not n:
            b = fresh_bv()
            return mk('itr', mk('fm', mk('pairs', mk('coll', kind, s)),
                                abstract(b, mk('unit', mk('item', b, const(1))))))
        return None

    def path_method(self, x, name, args, kw, st, fr):
        base, path = self.split_path(x)
        if name == 'setdefault' and 1 <= len(args) <= 2:
            k = self.freeze(args[0], st)
            d = self.freeze(args[1], st) if len(args) > 1 else NONE
            if k.op == 'ite':
                return self.each(k, st, lambda y, q: self.path_method(
                    x, name, [y] + args[1:], kw, q, fr))
            p = path + (k,)
            self.push_content(base, mk('pm', p[0], mk('tup', *p[1:]), 'default', d), st)
            return raw('path', *(x.args + (k,)))
        if name in self.MUT_:
            av = self.flat(args, kw, st)
            if name in ('append', 'add') and len(av) == 1:
                arg = mk('unit', av[0])
                op = name
            elif name in ('extend',) and len(args) == 1:
                arg, op = self.fseq(args[0], st), 'append'
            else:
                arg, op = mk('tup', *av), name
            prev = self.freeze_path(x, st)
            self.push_content(base, mk('pm', path[0], mk('tup', *path[1:]), op, arg), st)
            if name in ('pop', 'popleft', 'popitem'):
                return mk('res', prev, mk('ev', name, *av), EMPTY)
            return NONE
        fx = self.freeze_path(x, st)
        if name == 'get' and 1 <= len(args) <= 2:
            k = self.freeze(args[0], st)
            d = args[1] if len(args) > 1 else NONE
            return ite(mk('in', k, fx), mk('item', fx, k), d)
        return self.each(fx, st, lambda y, s: self.method(y, name, args, kw, s, fr))

    def sorted_seq(self, s, kw, st, fr):
        key = kw.get('key')
        rev = kw.get('reverse', FALSE)
        if key is None or key is NONE:
            kf = NONE
        else:
            kf = self.key_fn(key, st, fr)
        rev = TM.tobool(rev)
        s = self.freeze(s, st)
        return lift(lambda q, k: sortd(q, k, rev) if q is not EMPTY and q.op != 'unit' else q,
                    ('sortd', rev.uid), (s, kf)) if rev.op != 'ite' else \
            ite(rev, self._sortd(s, kf, TRUE), self._sortd(s, kf, FALSE))

    def _sortd(self, s, k, r):
        return lift(lambda q, k: sortd(q, k, r) if q is not EMPTY and q.op != 'unit' else q,
                    ('sortd', r.uid), (s, k))

    def key_fn(self, key, st, fr):
        """A function value as an abstraction, whatever way it is written."""
        def f(k):
            if k.op == 'clos':
                return self.fn(k, st)
            if k.op == 'glob' and (k.args[0] in self.p.funcs or k.args[0].startswith(B)) \
                    and k.args[0] not in self.p.classes:
                b = fresh_bv()
                s2 = st.copy()
                from .interp import CallRec
                ctl, self.ctl = self.ctl, [CallRec(fr, True)]
                try:
                    v = self.freeze(self.apply(k, [b], {}, s2, fr), s2)
                finally:
                    self.ctl = ctl
                return raw('fn', 1, abstract(b, v))
            return self.asval(k, st)
        return self.leafwise(key, f)

    def next_(self, args, st):
        x = args[0]

        def f(x, s):
            dflt = args[1] if len(args) > 1 else None
            if x.op == 'itr':
                q = x.args[0]
            elif x.op == 'ref' and s.cont[x][0] == 'iter':
                q = s.cont[x][1]
                s.cont[x] = ('iter', lift(lambda z: TM.mk('tail', z), 'tail0', (q,)))
            else:
                fx = self.freeze(x, s)
                key = ('obj', fx)
                prev = s.reg.get(key, EMPTY)
                ev = mk('ev', 'next', *[self.freeze(a, s) for a in args[1:]])
                s.reg[key] = cat(prev, mk('unit', ev))
                if dflt is None and self.catches('StopIteration'):
                    self.split_raise(mk('exc', 'StopIteration', mk('res', fx, ev, prev)), 'StopIteration', s)
                return mk('res', fx, ev, prev)
            if dflt is not None:
                return mk('first', q, dflt)
            if self.catches('StopIteration'):
                self.split_raise(bnot(nonempty(q)), 'StopIteration', s)
            elif q is EMPTY:
                return unknown('next of empty')
            return mk('head', q)
        return self.each(x, st, f)

    # ------------------------------------------------------------ global calls

    def call_glob(self, q, args, kw, st, fr, stmt=False):
        if q in self.p.funcs:
            return self.call_func(self.p.funcs[q], args, kw, st, fr, stmt)
        if q in self.p.classes:
            return self.construct(self.p.classes[q], args, kw, st, fr)
        if kw and q in BY_POSITION:
            args, kw = by_position(BY_POSITION[q], args, kw)
        if q.startswith(B):
            n = q[len(B):]
            if '.' in n:
                t, _, m = n.partition('.')
                if t in ('list', 'dict', 'object', 'tuple', 'str', 'set') and args:
                    me = args[0]
                    if t == 'str':
                        return self.method(me, m, args[1:], kw, st, fr)
                    if t == 'object' and m == '__init__':
                        return NONE
                    if t == 'dict' and m == 'fromkeys':
                        d = args[1] if len(args) > 1 else NONE
                        b = fresh_bv()
                        many = d.op == 'ref'       # one container for all keys
                        d = self.freeze(d, st)
                        if many:
                            d = mk('shared', d)
                        return self.new_ref(st, 'dict', mk('fm', self.seq(args[0], st), abstract(b, mk('unit', mk('tup', b, d)))))
                    return self.each(me, st, lambda x, s: self.raw_method((B + t, m), x, args[1:], kw, s, fr))
            f = getattr(self, 'b_' + n, None)
            if f is not None:
                r = f(args, kw, st, fr)
                if r is not None:
                    return r
        f = EXT.get(q)
        if f is not None:
            r = f(self, args, kw, st, fr)
            if r is not None:
                return r
        if q == 'sys.exit':
            v = [self.freeze(a, st) for a in args]
            v = v or [self.freeze(x, st) for x in kw.values()]
            if v and v[0] is NONE:
                v = []
            for g, leaf in gated_leaves(mk('raise', glob(B + 'SystemExit'), *v)):
                s = st.copy()
                s.live = band(st.live, g)
                self.do_exit('raise', leaf, s)
            st.live = FALSE
            return NONE
        if q == 'argparse.ArgumentParser':
            kw = {k: v for k, v in kw.items() if k not in PARSER_DOC}
        av = self.flat(args, kw, st)
        v = mk('call', glob(q), *av)
        if q in self.ordered:
            self.event(('io',), raw('did', v), st)
        if q in self.IO_CALLS_:
            if q == B + 'open':
                av = self.open_args(args, kw, st)
                v = mk('call', glob(q), *av)
            self.event(('io',), v, st)
            self.call_raise(v, st)
            if q == B + 'open':
                return mk('file', v)
            return v
        self.call_raise(v, st)
        if q in self.BOOL_CALLS_:
            return mk('truthy', v)
        if stmt and q not in self.p.classes:
            short = q.split('.')[-1]
            if not (short[:1].isupper()):
                self.event(('io',), v, st)
        if q.startswith(B) and q.split('.')[-1][:1].isupper() and q.endswith(('Error', 'Exception', 'Exit', 'Iteration')):
            return raw('raise', glob(q))
        return v

    def open_args(self, args, kw, st):
        names = ['file', 'mode', 'buffering', 'encoding', 'errors', 'newline']
        vals = dict(zip(names, args))
        vals.update(kw)
        if vals.get('mode') in (const('r'), const('rt')):
            del vals['mode']
        return [mk('kw', k, self.asval(vals[k], st)) for k in names if k in vals] + \
            [mk('kw', k, self.asval(v, st)) for k, v in sorted(vals.items()) if k not in names]

    def construct(self, c, args, kw, st, fr):
        qs = [k for k in self.p.mro(c) if isinstance(k, str)]
        if any(x.endswith(('Exception', 'Error')) for x in qs):
            return raw('raise', glob(c.qual))
        m = self.p.find_method(c, '__init__')
        if isinstance(m, Func):
            av = self.canon_args(m, args, kw, st, True)
        else:
            av = self.flat(args, kw, st)
        v = mk('call', glob(c.qual), *av)
        self.call_raise(v, st)
        for k in ('list', 'dict', 'OrderedDict'):
            pass
        return v

    # -- builtins

    def b_len(self, args, kw, st, fr):
        if len(args) != 1:
            return None

        def f(x):
            if x.op == 'ref':
                kind, s = st.cont[x]
                if kind in DICTK or kind == 'set':
                    return mk('len', mk('elems', mk('coll', kind, s)))
                return mk('len', s)
            if x.op == 'path':
                return mk('len', mk('elems', self.freeze_path(x, st)))
            if x.op == 'coll':
                return mk('len', TM.keyseq(x))
            if x.op == 'self' and self.root_cls is not None:
                m = self.p.find_method(self.root_cls, '__len__')
            if x.op == 'const' and isinstance(x.args[0], (str, tuple, bytes)):
                return const(len(x.args[0]))
            return mk('len', mk('elems', x, *self.ver(x, st)))
        return self.leafwise(args[0], f)

    def b_list(self, args, kw, st, fr):
        if kw or len(args) > 1:
            return None
        return self.new_ref(st, 'list', self.consume(args[0], st) if args else EMPTY)

    def b_tuple(self, args, kw, st, fr):
        if kw or len(args) > 1:
            return None
        s = self.fseq(args[0], st) if args else EMPTY

        def f(s):
            ps = s.args if s.op == 'cat' else () if s is EMPTY else (s,)
            if all(p.op == 'unit' for p in ps):
                return raw('tup', *[p.args[0] for p in ps])
            return raw('coll', 'tuple', s)
        return lift(f, 'mktuple', (s,))

    def b_set(self, args, kw, st, fr):
        return self.new_ref(st, 'set', self.consume(args[0], st) if args else EMPTY)

    def b_frozenset(self, args, kw, st, fr):
        return mk('coll', 'set', self.fseq(args[0], st) if args else EMPTY)

    def b_dict(self, args, kw, st, fr):
        s = self.update_seq(args[0], st) if args else EMPTY
        for k, v in kw.items():
            if k == '**':
                s = cat(s, self.update_seq(v, st))
            else:
                s = cat(s, mk('unit', mk('tup', const(k), v)))
        return self.new_ref(st, 'dict', s)

    def consume(self, x, st):
        """Elements of x; an iterator is used up."""
        q = self.seq(x, st)
        for g, l in gated_leaves(x):
            if l.op == 'ref' and st.cont[l][0] == 'iter':
                c = st.cont[l][1]
                st.cont[l] = ('iter', ite(g, EMPTY, c) if g is not TRUE else EMPTY)
        return q

    def b_str(self, args, kw, st, fr):
        if len(args) != 1 or kw:
            return const('') if not args and not kw else None
        return mk('strcat', mk('fmt', self.asval(args[0], st), '', ''))

    def b_repr(self, args, kw, st, fr):
        return mk('fmt', self.asval(args[0], st), 'r', '')

    def b_bool(self, args, kw, st, fr):
        if not args:
            return FALSE
        return self.truth(args[0], st)

    def b_isinstance(self, args, kw, st, fr):
        if len(args) != 2:
            return None
        c = self.freeze(args[1], st)

        def f(x):
            if x.op == 'ref':
                kind = st.cont[x][0]
                return self.isinst_kind(kind, c)
            return mk('isinst', self.freeze(x, st), c)
        return self.leafwise(args[0], f)

    def isinst_kind(self, kind, c):
        cs = c.args if c.op == 'tup' else (c,)
        for k in cs:
            if k.op == 'glob' and k.args[0] == B + kind:
                return TRUE
        return FALSE

    def b_hasattr(self, args, kw, st, fr):
        if len(args) != 2:
            return None
        return mk('hasattr', self.freeze(args[0], st), self.freeze(args[1], st))

    def b_getattr(self, args, kw, st, fr):
        n = args[1] if len(args) > 1 else None
        if n is None or n.op != 'const':
            if n is not None and n.op == 'ite' and all(l.op == 'const' for g, l in gated_leaves(n)):
                return self.each(n, st, lambda y, s: self.b_getattr([args[0], y] + args[2:], kw, s, fr))
            return None
        if len(args) == 2:
            return self.get_attr(args[0], n.args[0], st, fr)
        x = self.freeze(args[0], st)
        h = mk('hasattr', x, n)
        box = {}

        def yes(s):
            box[1] = self.get_attr(args[0], n.args[0], s, fr)
        self.branch(h, st, yes, lambda s: None)
        return ite(h, box.get(1, NONE), args[2])

    def b_setattr(self, args, kw, st, fr):
        if len(args) == 3 and args[1].op == 'const':
            self.set_attr(args[0], args[1].args[0], args[2], st, fr)
            return NONE
        return None

    def b_enumerate(self, args, kw, st, fr):
        s = self.seq(args[0], st)
        start = args[1] if len(args) > 1 else kw.get('start', const(0))
        e = mk('enum', s)
        if start is const(0):
            return mk('itr', e)
        b = fresh_bv()
        start = self.freeze(start, st)
        return mk('itr', mk('fm', e, abstract(b, mk('unit', mk(
            'tup', mk('add', mk('item', b, const(0)), start), mk('item', b, const(1)))))))

    def b_zip(self, args, kw, st, fr):
        if any(a.op == 'star' for a in args):
            return mk('itr', mk('elems', mk('call', glob(B + 'zip'), *self.flat(args, kw, st))))
        if not args:
            return mk('itr', EMPTY)
        return mk('itr', mk('zip', *[self.seq(a, st) for a in args]))

    def range_seq(self, args):
        args = list(args)
        if len(args) == 1:
            args = [const(0)] + args
        if len(args) == 2:
            args.append(const(1))

        def f(a, e, k):
            if a is const(0) and k is const(1) and e.op == 'len':
                b = fresh_bv()
                return mk('fm', mk('enum', e.args[0]), abstract(b, mk('unit', mk('item', b, const(0)))))
            if all(x.op == 'const' and isinstance(x.args[0], int) for x in (a, e, k)) and k.args[0]:
                r = range(a.args[0], e.args[0], k.args[0])
                if len(r) <= 16:
                    return cat(*[mk('unit', const(i)) for i in r])
            return raw('range', a, e, k)
        return lift(f, 'range', tuple(args))

    def b_range(self, args, kw, st, fr):
        return mk('itr', self.range_seq([self.freeze(a, st) for a in args]))

    def b_reversed(self, args, kw, st, fr):
        return mk('itr', mk('rev', self.seq(args[0], st)))

    def b_sorted(self, args, kw, st, fr):
        return self.new_ref(st, 'list', self.sorted_seq(self.seq(args[0], st), kw, st, fr))

    def b_any(self, args, kw, st, fr):
        b = fresh_bv()
        return mk('ex', self.fseq(args[0], st), abstract(b, TM.tobool(b)))

    def b_all(self, args, kw, st, fr):
        b = fresh_bv()
        return bnot(mk('ex', self.fseq(args[0], st), abstract(b, bnot(TM.tobool(b)))))

    def b_sum(self, args, kw, st, fr):
        if kw or len(args) > 2:
            return None
        s = self.fseq(args[0], st)
        r = mk('sum', s)
        if len(args) > 1:
            i = self.freeze(args[1], st)
            if i.op == 'coll' and i.args[0] == 'list':
                b = fresh_bv()
                return self.new_ref(st, 'list', cat(i.args[1], mk('fm', s, abstract(b, mk('elems', b)))))
            return mk('add', i, r)
        return r

    def b_map(self, args, kw, st, fr):
        if len(args) != 2:
            return None
        f = args[0]
        return mk('itr', self.over(self.seq(args[1], st), st, fr,
                                   lambda x, s: mk('unit', self.apply_value(f, [x], s, fr))))

    def b_filter(self, args, kw, st, fr):
        if len(args) != 2:
            return None
        f = args[0]

        def g(x, s):
            if f is NONE:
                c = self.truth(x, s)
            else:
                c = self.truth(self.apply_value(f, [x], s, fr), s)
            return ite(c, mk('unit', x), EMPTY)
        return mk('itr', self.over(self.seq(args[1], st), st, fr, g))

    def b_iter(self, args, kw, st, fr):
        if len(args) != 1:
            return None

        def f(x):
            if x.op == 'ref' and st.cont[x][0] == 'iter':
                return x
            return self.new_ref(st, 'iter', self.seq(x, st))
        return self.leafwise(args[0], f)

    def b_next(self, args, kw, st, fr):
        return self.next_(args, st)

    def b_print(self, args, kw, st, fr):
        f = kw.get('file')
        if f is None or f is NONE:
            f = glob('sys.stdout')
        sep = kw.get('sep', const(' '))
        end = kw.get('end', const('\n'))
        if any(a.op == 'star' for a in args):
            s = mk('join', sep, EMPTY)
            if len(args) == 1:
                b = fresh_bv()
                s = mk('join', sep, mk('fm', mk('elems', self.freeze(args[0].args[0], st)), abstract(b, mk('unit', mk('strcat', b)))))
            else:
                s = mk('call', glob('printed'), *self.flat(args, {}, st))
            parts = [s]
        else:
            parts = []
            for i, a in enumerate(args):
                if i:
                    parts.append(sep)
                parts.append(mk('fmt', self.asval(a, st), '', ''))
        parts.append(end)
        s = mk('strcat', *parts)
        for g, leaf in gated_leaves(self.freeze(f, st)):
            if leaf is NONE:
                leaf = glob('sys.stdout')
            if g is TRUE:
                self.write(leaf, s, st)
            else:
                s2 = st.copy()
                self.write(leaf, s, s2)
                key = ('obj', leaf)
                st.reg[key] = ite(g, s2.reg[key], st.reg.get(key, EMPTY))
        return NONE

    def b_abs(self, args, kw, st, fr):
        return None

    def b_type(self, args, kw, st, fr):
        return mk('call', glob(B + 'type'), *[self.freeze(a, st) for a in args]) if len(args) == 1 else None

    def b_min(self, args, kw, st, fr):
        return self.minmax('min', args, kw, st, fr)

    def b_max(self, args, kw, st, fr):
        return self.minmax('max', args, kw, st, fr)

    def minmax(self, n, args, kw, st, fr):
        kw = dict(kw)
        key = kw.pop('key', None)
        d = kw.pop('default', None)
        if kw:
            return None
        if len(args) == 1:
            s = self.fseq(args[0], st)
        else:
            s = cat(*[mk('unit', self.freeze(a, st)) for a in args])
        kf = self.key_fn(key, st, fr) if key is not None and key is not NONE else NONE
        v = mk(n, s, kf)
        if d is not None:
            return ite(nonempty(s), v, d)
        if self.catches('ValueError'):
            self.split_raise(bnot(nonempty(s)), 'ValueError', st)
        return v

    def b_int(self, args, kw, st, fr):
        if len(args) == 1 and args[0].op == 'const' and isinstance(args[0].args[0], int):
            return const(int(args[0].args[0]))
        return None

    def b_slice(self, args, kw, st, fr):
        a = [self.freeze(x, st) for x in args]
        if len(a) == 1:
            return mk('slice', NONE, a[0], NONE)
        while len(a) < 3:
            a.append(NONE)
        return mk('slice', *a)

    def b_callable(self, args, kw, st, fr):
        return mk('truthy', mk('call', glob(B + 'callable'), self.asval(args[0], st)))

    def b_issubclass(self, args, kw, st, fr):
        return mk('truthy', mk('call', glob(B + 'issubclass'), *self.flat(args, kw, st)))


# ----------------------------------------------------- library functions

EXT = {}


def ext(*names):
    def deco(f):
        for n in names:
            EXT[n] = f
        return f
    return deco


@ext('itertools.chain')
def _chain(self, args, kw, st, fr):
    s = EMPTY
    for a in args:
        if a.op == 'star':
            b = fresh_bv()
            s = cat(s, mk('fm', self.seq(a.args[0], st), abstract(b, mk('elems', b))))
        else:
            s = cat(s, self.seq(a, st))
    return mk('itr', s)


@ext('itertools.chain.from_iterable')
def _chain_fi(self, args, kw, st, fr):
    s = self.fseq(args[0], st)
    return mk('itr', self.over(s, st, fr, lambda x, q: self.seq(x, q)))


@ext('itertools.islice')
def _islice(self, args, kw, st, fr):
    return mk('itr', mk('call', glob('itertools.islice'), self.fseq(args[0], st), *self.flat(args[1:], kw, st)))


@ext('itertools.zip_longest', 'itertools.izip_longest')
def _zipl(self, args, kw, st, fr):
    fill = kw.get('fillvalue', NONE)
    if any(a.op == 'star' for a in args):
        return mk('itr', mk('elems', mk('call', glob('itertools.zip_longest'), *self.flat(args, {'fillvalue': fill}, st))))
    return mk('itr', mk('zipl', self.asval(fill, st), *[self.fseq(a, st) for a in args]))


RE_FLAGS = {'match': 2, 'search': 2, 'fullmatch': 2, 'findall': 2, 'finditer': 2, 'sub': 4, 'subn': 4, 'split': 3}


def _re_func(name):
    def f(self, args, kw, st, fr):
        # a function of the module is a method of the compiled pattern
        n = RE_FLAGS[name]
        if not args or any(a.op == 'star' for a in args) or '**' in kw or len(args) > n + 1 or 'pattern' in kw:
            return None
        kw = dict(kw)
        flags = kw.pop('flags', None) or (args[n] if len(args) > n else None)
        p = args[0]
        q = None if p.op == 'ref' else self.freeze(p, st)
        if q is None or not (q.op == 'call' and q.args[0].op == 'glob' and q.args[0].args[0] == 're.compile'):
            p = self.call_glob('re.compile', [p] + ([flags] if flags is not None else []), {}, st, fr)
        return self.method(p, name, args[1:n], kw, st, fr)
    return f


for _n in RE_FLAGS:
    EXT['re.' + _n] = _re_func(_n)


@ext('itertools.groupby')
def _groupby(self, args, kw, st, fr):
    key = kw.get('key', args[1] if len(args) > 1 else NONE)
    kf = self.key_fn(key, st, fr) if key is not NONE else NONE
    return mk('itr', mk('groups', self.fseq(args[0], st), kf))


@builder('groups')
def _groups(s, k):
    if s.op == 'fm' and k.op == 'fn':
        o = _bare_map(s)
        if o is not None:
            # the groups of a mapped sequence are the mapped groups
            b, e = o
            z, p, y = fresh_bv(), fresh_bv(), fresh_bv()
            k2 = raw('fn', 1, abstract(b, subst(TM.inst_raw(k.args[1], z), {z: e})))
            g = mk('groups', s.args[0], k2)
            members = mk('fm', mk('elems', mk('item', p, const(1))), abstract(y, mk('unit', subst(e, {b: y}))))
            return mk('fm', g, abstract(p, mk('unit', mk('tup', mk('item', p, const(0)), mk('itr', members)))))
    return raw('groups', s, k)


@ext('collections.deque')
def _deque(self, args, kw, st, fr):
    if kw or len(args) > 1:
        return None
    return self.new_ref(st, 'list', self.consume(args[0], st) if args else EMPTY)


@ext('collections.OrderedDict')
def _od(self, args, kw, st, fr):
    return self.b_dict(args, kw, st, fr)


@ext('collections.defaultdict')
def _dd(self, args, kw, st, fr):
    f = args[0] if args else NONE
    if f.op == 'clos':
        ff = self.fn(f, st)
    else:
        ff = self.asval(f, st)
    FACTORY['dd:%d' % ff.uid] = ff
    r = self.new_ref(st, 'dd:%d' % ff.uid,
                     self.update_seq(args[1], st) if len(args) > 1 else EMPTY)
    return r


@ext('collections.Counter')
def _counter(self, args, kw, st, fr):
    r = self.new_ref(st, 'counter', EMPTY)
    if args:
        self.dict_method(r, 'counter', EMPTY, 'update', [args[0]], {}, st, fr)
    return r


@ext('copy.copy')
def _copy(self, args, kw, st, fr):
    return None


@ext('operator.eq')
def _oeq(self, args, kw, st, fr):
    return mk('eq', self.freeze(args[0], st), self.freeze(args[1], st))


@ext('operator.ne')
def _one(self, args, kw, st, fr):
    return bnot(mk('eq', self.freeze(args[0], st), self.freeze(args[1], st)))


@ext('operator.itemgetter')
def _itemgetter(self, args, kw, st, fr):
    b = fresh_bv()
    ks = [self.freeze(a, st) for a in args]
    if len(ks) == 1:
        return raw('fn', 1, abstract(b, mk('item', b, ks[0])))
    return raw('fn', 1, abstract(b, mk('tup', *[mk('item', b, k) for k in ks])))


@ext('operator.attrgetter')
def _attrgetter(self, args, kw, st, fr):
    if len(args) == 1 and args[0].op == 'const' and '.' not in args[0].args[0]:
        b = fresh_bv()
        return raw('fn', 1, abstract(b, self.freeze(self.get_attr(b, args[0].args[0], st, fr), st)))
    return None


@ext('functools.partial')
def _partial(self, args, kw, st, fr):
    return None


@ext('sys.stdout.write', 'sys.stderr.write')
def _never(self, args, kw, st, fr):
    return None


# ---------------------------------------------------------------- new builders

def sortd(q, k, rev):
    # the items of a mapping, ordered by their (distinct) keys
    if q.op == 'fm' and q.args[0].op == 'elems' and len(q.args[0].args) == 1:
        b = fresh_bv()
        u = TM.inst_raw(q.args[1], b)
        if u.op == 'unit' and u.args[0].op == 'tup' and len(u.args[0].args) == 2:
            x, y = u.args[0].args
            first = k is NONE
            if k.op == 'fn':
                z = fresh_bv()
                first = TM.inst_raw(k.args[1], z) is mk('item', z, const(0))
            if first and x is b and y is mk('item', q.args[0].args[0], b):
                return mk('fm', raw('sortd', q.args[0], NONE, rev), q.args[1])
    return raw('sortd', q, k, rev)


@builder('unit')
def _unit(x):
    return raw('unit', x)


@builder('enum')
def _enum(s):
    if s is EMPTY:
        return EMPTY
    ps = s.args if s.op == 'cat' else (s,)
    if all(p.op == 'unit' for p in ps):
        return cat(*[raw('unit', raw('tup', const(i), p.args[0])) for i, p in enumerate(ps)])
    if s.op == 'fm':
        # enumerate(map(f, s))
        o = _bare_map(s)
        if o is not None:
            b, e = o
            p = fresh_bv()
            body = subst(e, {b: mk('item', p, const(1))})
            return mk('fm', mk('enum', s.args[0]), abstract(p, mk('unit', mk('tup', mk('item', p, const(0)), body))))
    return raw('enum', s)


def _bare_map(s):
    """(bv, value) if s = fm(src, b -> unit(value)) with one value always."""
    b = fresh_bv()
    body = inst_raw(s.args[1], b)
    r = lift(lambda x: x.args[0] if x.op == 'unit' else raw('nomap'), 'baremap', (body,))
    if any(l.op == 'nomap' for g, l in gated_leaves(r)):
        return None
    return b, r


@builder('zip')
def _zip(*ss):
    if any(s is EMPTY for s in ss):
        return EMPTY
    lists = []
    for s in ss:
        ps = s.args if s.op == 'cat' else (s,)
        if not all(p.op == 'unit' for p in ps):
            break
        lists.append([p.args[0] for p in ps])
    else:
        return cat(*[raw('unit', raw('tup', *t)) for t in zip(*lists)])
    # zip of maps of one source
    return raw('zip', *ss)


FACTORY = {}


def with_defaults(kind, s):
    """What is done to the entries of a dict that fills in missing ones, as
    what is done to those of a plain dict; or None."""
    f = FACTORY.get(kind)
    if kind == 'counter' or f is not None and f is glob(B + 'int'):
        d = const(0)
    elif f is not None and f in (glob(B + 'list'), glob(B + 'set')):
        d = mk('coll', f.args[0][len(B):], EMPTY)
    else:
        return None

    def one(x):
        if x.op == 'cat':
            ys = [one(y) for y in x.args]
            return raw('no') if any(y.op == 'no' for y in ys) else cat(*ys)
        if x is EMPTY:
            return x
        if x.op == 'fm':
            b = fresh_bv()
            y = lift(one, ('withdef', kind), (TM.inst_raw(x.args[1], b),))
            return raw('no') if any(l.op == 'no' for g, l in gated_leaves(y)) else mk('fm', x.args[0], abstract(b, y))
        if x.op == 'unit' and x.args[0].op == 'pm' and not x.args[0].args[1].args and x.args[0].args[2] in GROWS:
            return cat(mk('unit', mk('pm', x.args[0].args[0], raw('tup'), 'default', d)), x)
        return raw('no')
    y = lift(one, ('withdef', kind), (s,))
    return None if any(l.op == 'no' for g, l in gated_leaves(y)) else y


GROWS = ('append', 'add', 'augAdd', 'extend', 'update')


@builder('pm')
def _pm(k, path, op, arg):
    if op == 'append' and arg.op == 'elems' and arg.args[0].op == 'const' and type(arg.args[0].args[0]) in (int, float):
        return raw('pm', k, path, 'augAdd', arg.args[0])
    return raw('pm', k, path, op, arg)


@builder('pairs')
def _pairs(x):
    if x.op == 'coll' and x.args[0] != 'dict':
        s = with_defaults(*x.args)
        if s is not None:
            x = mk('coll', 'dict', s)
    if x.op == 'coll':
        s = x.args[1]
        if x.args[0] in ('dict', 'odict') and not _has_pm(s):
            b = fresh_bv()
            keys = mk('fm', s, abstract(b, mk('unit', mk('item', b, const(0)))))
            if mk('uniq', keys) is keys:
                return s
        return raw('pairs', x)
    return raw('pairs', x)


def _has_pm(s):
    if s.op == 'cat':
        return any(_has_pm(p) for p in s.args)
    if s.op == 'unit':
        return s.args[0].op == 'pm'
    if s.op == 'fm':
        return any(_has_pm(l) for g, l in gated_leaves(s.args[1].args[1]))
    if s.op in ('without', 'elems', 'upto'):
        return s.op != 'upto'
    return False


@builder('sub')
def _sub(x, k, *ver):
    if k.op == 'slice' and k.args[0] is NONE and k.args[1] is NONE and k.args[2] is NONE:
        if x.op == 'coll' and x.args[0] == 'list':
            return x
    if x.op == 'coll' and x.args[0] in ('list', 'tuple') and k.op == 'slice' and k.args[2] is NONE \
            and k.args[0] is const(1) and k.args[1] is NONE:
        s = x.args[1]
        if s.op == 'cat' and s.args[0].op == 'unit':
            return mk('coll', x.args[0], cat(*s.args[1:]))
    if x.op == 'coll' and x.args[0] in ('list', 'tuple') and k.op == 'slice' and k.args[2] is NONE \
            and k.args[0] in (NONE, const(0)) and k.args[1] is const(1):
        return ite(nonempty(x.args[1]), raw('coll', x.args[0], mk('unit', mk('head', x.args[1]))),
                   raw('coll', x.args[0], EMPTY))
    if k.op == 'slice' and k.args[0] is NONE and k.args[1] is NONE and k.args[2] is const(-1) \
            and x.op == 'coll' and x.args[0] in ('list', 'tuple'):
        return mk('coll', x.args[0], mk('rev', x.args[1]))
    if x.op == 'tup' and k.op == 'slice' and all(a is NONE or a.op == 'const' for a in k.args):
        a = [None if z is NONE else z.args[0] for z in k.args]
        return raw('tup', *x.args[slice(*a)])
    return raw('sub', x, k, *ver)


@builder('inter')
def _inter(a, b):
    if b.op in ('inter', 'setdiff') or b.op == 'coll' and b.args[0] == 'set':
        # only as a set: the order of the elements is not kept
        if b.uid < a.uid:
            a, b = b, a
    return raw('inter', a, b)


@builder('setdiff')
def _setdiff(a, b):
    if b.op == 'coll' and b.args[1] is EMPTY and a.op == 'coll':
        return a
    return raw('setdiff', a, b)


@builder('mval')
def _mval(m, i):
    if m.op == 'mu' and m.args[0] is EMPTY:
        return m.args[1].args[i]
    return raw('mval', m, i)


@builder('tail')
def _tail(s):
    if s is EMPTY or s.op == 'unit':
        return EMPTY
    if s.op == 'cat' and s.args[0].op == 'unit':
        return cat(*s.args[1:])
    return raw('tail', s)


@builder('init')
def _init(s):
    if s is EMPTY or s.op == 'unit':
        return EMPTY
    if s.op == 'cat' and s.args[-1].op == 'unit':
        return cat(*s.args[:-1])
    return raw('init', s)


@builder('last')
def _last(s):
    if s.op == 'unit':
        return s.args[0]
    if s.op == 'cat' and s.args[-1].op == 'unit':
        return s.args[-1].args[0]
    if s.op == 'elems' and len(s.args) == 1:
        return mk('item', s.args[0], const(-1))
    return mk('head', mk('rev', s))


@builder('sum')
def _sum(s):
    if s is EMPTY:
        return const(0)
    if s.op == 'unit':
        return s.args[0]
    if s.op == 'cat':
        r = const(0)
        for p in s.args:
            r = mk('add', r, mk('sum', p))
        return r
    if s.op in ('rev', 'sortd'):
        return mk('sum', s.args[0])
    if s.op == 'fm':
        ls = gated_leaves(s.args[1].args[1])
        if all(l is EMPTY or l.op == 'unit' and l.args[0] in (const(1), TRUE) for g, l in ls):
            return mk('len', s)
        if all(l is EMPTY or l.op == 'unit' and l.args[0] in (const(1), TRUE, const(0), FALSE) for g, l in ls):
            b = fresh_bv()
            o = lift(lambda l: EMPTY if l is EMPTY or l.args[0] in (const(0), FALSE) else l, 'nozero', (inst_raw(s.args[1], b),))
            return mk('len', mk('fm', s.args[0], abstract(b, o)))
    return raw('sum', s)


@builder('upto')
def _upto(s, lam):
    body = lam.args[1]
    if body is FALSE or s is EMPTY:
        return s
    if body is TRUE:
        return EMPTY
    if s.op == 'unit':
        return ite(TM.tobool(inst(lam, s.args[0])), EMPTY, s)
    return raw('upto', s, lam)


@builder('seqv')
def _seqv(s):
    if s.op == 'elems' and len(s.args) == 1:
        return s.args[0]
    return raw('seqv', s)


@builder('wcat')
def _wcat(a, q):
    """Append text events, joining constant pieces."""
    parts = list(a.args) if a.op == 'cat' else [] if a is EMPTY else [a]
    for p in (q.args if q.op == 'cat' else () if q is EMPTY else (q,)):
        if parts and _wconst(parts[-1]) is not None and _wconst(p) is not None:
            parts[-1] = raw('unit', raw('ev', 'write', const(_wconst(parts[-1]) + _wconst(p))))
        else:
            parts.append(p)
    return cat(*parts)


def _wconst(p):
    if p.op == 'unit' and p.args[0].op == 'ev' and p.args[0].args[0] == 'write' \
            and p.args[0].args[1].op == 'const':
        return p.args[0].args[1].args[0]
    return None


@builder('fmt')
def _fmt(v, conv, spec):
    if conv == '' and spec == '' and v.op == 'strcat':
        return v
    if conv == '' and spec == '' and v.op == 'const' and isinstance(v.args[0], str):
        return v
    if conv == 'r' and spec == '' and v.op == 'const' and isinstance(v.args[0], (str, int)):
        return const(repr(v.args[0]))
    if conv == 's':
        conv = ''
        return mk('fmt', v, conv, spec)
    return raw('fmt', v, conv, spec)


def _mulkey(t):
    return (bool(t.fv), t.op, re.sub(r'#\d+', '#', TM.show(t, 5)), t.uid)


@builder('mul')
def _mul(a, b):
    if const(1) in (a, b):
        return b if a is const(1) else a
    return raw('mul', *sorted((a, b), key=_mulkey))


@builder('itr')
def _itr(s):
    return raw('itr', s)


@builder('ev')
def _ev(*a):
    return raw('ev', *a)


@builder('without')
def _without(s, k):
    if s is EMPTY:
        return EMPTY
    return raw('without', s, k)


# -------------------------------------------------------------- loop summaries

# what only concerns the text of help messages
PARSER_CALLS = {'add_argument', 'add_parser', 'add_argument_group', 'add_subparsers',
                'add_mutually_exclusive_group'}
PARSER_DOC = {'help', 'metavar', 'description', 'epilog', 'formatter_class', 'usage', 'prog', 'title'}


class LoopSummary(object):
    """Closed form of a loop; see DESIGN.md."""

    def __init__(self, I, src, b, carried, carry, init, nxt, exits, P, st, base, fr):
        self.I, self.src, self.b = I, src, b
        self.carried, self.carry, self.init, self.nxt = carried, carry, init, nxt
        self.exits, self.P, self.st, self.base, self.fr = exits, P, st, base, fr
        if base is not TRUE and base is not FALSE:
            self.init = {k: constrain(v, base) for k, v in init.items()}

    def isseq(self, k):
        return self.carried[k] != 'val'

    def initv(self, k):
        """Value to put in place of the carry variable."""
        return mk('seqv', self.init[k]) if self.isseq(k) else self.init[k]

    def ph(self, k):
        c = self.carry[k]
        return raw('elems', c) if self.isseq(k) else c

    def substall(self, m):
        if not m:
            return
        f = lambda t: subst(t, m) if isinstance(t, T) else t
        self.nxt = {k: f(v) for k, v in self.nxt.items()}
        self.P = TM.tobool(f(self.P)) if not is_bool(self.P) else f(self.P)
        self.exits = [(kind, f(g), f(v), {k: f(x) for k, x in vals.items()}, s)
                      for kind, g, v, vals, s in self.exits]

    def uses(self, t, k):
        return self.carry[k].uid in t.fv

    def finish(self, orelse, after, per_iter=()):
        I, b = self.I, self.b
        dead_end = not self.nxt and self.carried and not any(True for _ in self.nxt)
        if not self.nxt:
            # no iteration completes: at most one is started
            self.nxt = {k: self.ph(k) for k in self.carried}
        self.lengths()
        keys = list(self.carried)
        live = set(keys)
        # (a) values that do not change from one iteration to the next
        changed = True
        while changed:
            changed = False
            m = {}
            for k in list(live):
                if k in self.nxt and self.nxt[k] is self.ph(k):
                    m[self.carry[k]] = self.initv(k)
                    live.discard(k)
            if m:
                self.substall(m)
                self.nxt = {k: self.nxt[k] for k in self.nxt}
                changed = True
        # (b) counters
        m = {}
        enum_used = False
        for k in list(live):
            c = self.carry[k]
            if self.carried[k] == 'val' and self.nxt[k] is mk('add', c, const(1)) \
                    and self.src.op != 'forever':
                m[c] = mk('add', self.init[k], raw('idx', b))
        counters = {k: v for k in live for v in [m.get(self.carry[k])] if v is not None}
        if m:
            self.substall(m)
            live -= set(counters)
        steps = {}
        inside = {b.uid} | {self.carry[k].uid for k in keys}
        for k in sorted(live, key=lambda k: self.carry[k].uid):
            c, n = self.carry[k], self.nxt[k]
            if self.carried[k] == 'val' and self.src.op != 'forever' and n.op in ('plus', 'add') and len(n.args) == 2 \
                    and (n.args[0] is c or n.op == 'add' and n.args[1] is c):
                d = n.args[1] if n.args[0] is c else n.args[0]
                if d.fv & inside or _has(d, raw('idx', b)):
                    continue
                steps[k] = d
                m[c] = mk('add', self.init[k], mk('mul', raw('idx', b), d))
        if steps:
            self.substall(m)
            live -= set(steps)
        # (b2) what is the same after every iteration
        m = {}
        changes = {}
        inside = {b.uid} | {self.carry[k].uid for k in keys}
        for k in sorted(live, key=lambda k: self.carry[k].uid):
            c, n = self.carry[k], self.nxt[k]
            if self.carried[k] == 'val' and self.src.op != 'forever' and not n.fv & inside and not _has(n, raw('idx', b)) \
                    and n.op in ('const', 'ite') and all(l.op == 'const' for g, l in gated_leaves(n)) \
                    and any(_has(t, c) for t in self._all_terms()):
                changes[k] = n
                m[c] = ite(atom('truthy', raw('idx', b)), n, self.init[k])
        if m:
            self.substall(m)
            live -= set(changes)
        self.from_zero(live)
        if self.src.op != 'forever' and self._uses_idx():
            p = fresh_bv()
            if self.src.op == 'enum':
                TM._bv_src[p] = self.src
                mm = {raw('idx', b): mk('item', b, const(0))}
                self._substraw(mm)
                m2 = {}
            else:
                src2 = mk('enum', self.src)
                TM._bv_src[p] = src2
                self._substraw({raw('idx', b): mk('item', p, const(0))})
                self._substraw({b: mk('item', p, const(1))})
                self.src, self.b = src2, p
                b = p
        elif self.src.op == 'enum' and not self._uses_index_part():
            p = fresh_bv()
            TM._bv_src[p] = self.src.args[0]
            one = mk('item', b, const(1))
            self._substraw({one: p})
            self.src, self.b = self.src.args[0], p
            b = p
        for k in live:
            if self.isseq(k) and k in self.nxt:
                self.nxt[k] = self.grouping(k, self.nxt[k])
        # (c) classify
        simple = {}
        for k in live:
            simple[k] = self.classify(k)
        core = set()
        for k in live:
            if simple[k] is None:
                core.add(k)
            if self.uses(self.P, k):
                core.add(k)
            for k2 in live:
                if k2 is not k and self.uses(self.nxt[k2], k):
                    core.add(k)
        forever = self.src.op == 'forever'
        s = self.src
        P = self.P
        Pfree = not any(self.uses(P, k) for k in live)
        core = sorted(core, key=lambda k: self.carry[k].uid)
        hit = None
        M = None
        if forever or not Pfree:
            M = self.make_mu(s, core, P)
            src_norm = src_pre = None
            H = atom('truthy', raw('mhit', M)) if P is not FALSE else FALSE
            if forever:
                H = TRUE if P is not FALSE else FALSE
            hit = raw('melem', M)
            Mn = Mp = M
        else:
            lamP = abstract(b, P)
            H = mk('ex', s, lamP)
            pre = mk('upto', s, lamP)
            if P is not FALSE:
                hit = mk('head', mk('fm', s, abstract(b, ite(P, mk('unit', b), EMPTY))))
            if core:
                Mn = self.make_mu(s, core, FALSE)
                Mp = self.make_mu(pre, core, FALSE) if P is not FALSE else Mn
            else:
                Mn = Mp = None

        def final(M, plain):
            """carry key -> value after the iterations."""
            out = {}
            idxc = {k: i for i, k in enumerate(self.mu_order)} if M is not None else {}
            for k in core:
                out[k] = raw('mval', M, idxc[k])
            for k in live:
                if k in core:
                    continue
                out[k] = self.accumulate(k, simple[k], M, plain, idxc)
            for k in counters:
                out[k] = mk('add', self.init[k], mk('len', plain if M is None or plain is not None else raw('mtrace', M)))
            for k in steps:
                u = plain if M is None or plain is not None else raw('mtrace', M)
                out[k] = mk('add', self.init[k], mk('mul', mk('len', u), steps[k]))
            for k in changes:
                u = plain if M is None or plain is not None else raw('mtrace', M)
                out[k] = ite(nonempty(u), changes[k], self.init[k])
            for k in keys:
                if k not in out:
                    out[k] = self.init[k]
                elif k in core and self.isseq(k):
                    out[k] = mk('elems', out[k])
            return out
        plain_n = s if not (forever or not Pfree) else None
        plain_p = mk('upto', s, abstract(b, P)) if plain_n is not None else None
        st = self.st
        I_merge = []
        # normal completion
        from .interp import merge_all
        norm = None
        if not (forever and True) and bnot(H) is not FALSE:
            norm = st.copy()
            norm.live = band(self.base, bnot(H))
            I.kill_dead(norm)
            if norm.live is not FALSE:
                self.put(norm, self.shifted(final(Mn, plain_n)))
                if after:
                    norm.env.update(after)
        # exits
        outs = []
        if H is not FALSE and self.exits:
            pre_vals = final(Mp, plain_p)
            m = {b: hit} if hit is not None else {}
            for k in live:
                v = pre_vals[k]
                m[self.carry[k]] = mk('seqv', v) if self.isseq(k) else v
            Ph = None
            for kind, g, v, vals, s0 in self.grouped():
                g2 = g
                if len(self.exits) > 1:
                    g2 = constrain(g, P)
                else:
                    g2 = TRUE
                gh = self.sub(g2, m)
                v2 = self.sub(constrain(v, g), m) if v is not None else None
                s1 = st.copy()
                s1.live = band(band(self.base, H), gh)
                I.kill_dead(s1)
                if s1.live is FALSE:
                    continue
                ev = {}
                for k in keys:
                    if k in vals:
                        ev[k] = self.sub(constrain(vals[k], g), m)
                    else:
                        ev[k] = self.shifted({k: pre_vals.get(k, self.init[k])})[k]
                self.put(s1, ev)
                outs.append((kind, v2, s1))
        st.live = FALSE
        result = []
        if norm is not None and norm.live is not FALSE:
            if orelse:
                orelse(norm)
            result.append(norm)
        for kind, v, s1 in outs:
            if kind == 'break':
                result.append(s1)
            elif kind == 'endwhile':
                if orelse:
                    orelse(s1)
                result.append(s1)
            else:
                I.do_exit(kind, v, s1)
        mm = merge_all(result)
        if mm is None:
            st.live = FALSE
        else:
            st.assign(mm)

    def lengths(self):
        """A list that is only extended, and of which only the length is used,
        is a count and a list of which nothing is used."""
        for k in [k for k in self.carried if self.isseq(k)]:
            c, ph = self.carry[k], self.ph(k)
            ln = raw('len', ph)

            def app(x):
                if x is ph:
                    return EMPTY
                if x.op == 'cat' and x.args[0] is ph:
                    return cat(*x.args[1:])
                return raw('no')
            X = lift(app, ('app', c.uid), (self.nxt[k],))
            if any(l.op == 'no' for g, l in gated_leaves(X)):
                continue
            others = [(i, v) for i, v in self.nxt.items() if i is not k]
            uses = [X, self.P] + [v for _, v in others]
            bad = False
            for kind, g, v, vals, s in self.exits:
                uses += [g] + [x for x in (v,) if x is not None] + [x for i, x in vals.items() if i is not k]
                if k in vals:
                    y = lift(app, ('app', c.uid), (vals[k],))
                    bad = bad or any(l.op == 'no' for g, l in gated_leaves(y))
                    uses.append(y)
            if bad or not any(c.uid in t.fv for t in uses):
                continue
            n = TM.fresh_carry()
            if any(c.uid in subst(t, {ln: n}).fv for t in uses if c.uid in t.fv):
                continue
            self.substall({ln: n})
            k2 = ('e', (-1, '#len%d' % c.uid))
            self.carried[k2], self.carry[k2] = 'val', n
            self.init[k2] = mk('len', self.init[k])
            X = subst(X, {ln: n})
            self.nxt[k2] = mk('add', n, mk('len', X))

    def grouping(self, k, n):
        """d[x] = [y] for a new x and d[x].append(y) otherwise: a default and
        an append; likewise for numbers."""
        ph = self.ph(k)
        if not any(a.op == 'ex' and a.args[0] is ph for a in atoms_of(n).values()):
            return n

        def parts(x):
            return x.args[1:] if x.op == 'cat' and x.args[0] is ph else None

        def step(x, y, key):
            if x is y:
                return x
            u, v = parts(x), parts(y)
            if not u or not v or len(u) != 1 or len(v) != 1 or u[0].op != 'unit' or v[0].op != 'unit':
                return raw('no')
            u, v = u[0].args[0], v[0].args[0]
            if v.op != 'tup' or len(v.args) != 2 or v.args[0] is not key:
                return raw('no')
            new = v.args[1]
            if u.op == 'pm' and u.args[0] is key and not u.args[1].args and new.op == 'coll' and \
                    (new.args[0], u.args[2]) in (('list', 'append'), ('set', 'add')) and u.args[3] is new.args[1]:
                d = mk('coll', new.args[0], EMPTY)
                return cat(ph, mk('unit', mk('pm', key, raw('tup'), 'default', d)), mk('unit', u))
            if u.op == 'tup' and len(u.args) == 2 and u.args[0] is key and new.op == 'const' and type(new.args[0]) is int \
                    and u.args[1] is mk('add', mk('item', mk('coll', 'dict', ph), key), new):
                return cat(ph, mk('unit', mk('pm', key, raw('tup'), 'default', const(0))),
                           mk('unit', mk('pm', key, raw('tup'), 'augAdd', new)))
            return raw('no')
        for a in sorted(atoms_of(n).values(), key=lambda a: a.uid):
            if a.op != 'ex' or a.args[0] is not ph:
                continue
            b = fresh_bv()
            e = TM.inst_raw(a.args[1], b)
            if e.op != 'ite' or e.args[0].op != 'eq' or mk('item', b, const(0)) not in e.args[0].args:
                continue
            key = [x for x in e.args[0].args if x is not mk('item', b, const(0))]
            if len(key) != 1 or e.args[1] is not TRUE or e.args[2] is not FALSE:
                continue
            y = lift(lambda p, q: step(p, q, key[0]), ('grouping', key[0].uid, ph.uid), (TM.restrict(n, a, 1), TM.restrict(n, a, 0)))
            if not any(l.op == 'no' for g, l in gated_leaves(y)):
                n = y
        return n

    def from_zero(self, live):
        """Counters start at zero."""
        self.shift = {}
        for k in live:
            i, c = self.init[k], self.carry[k]
            if self.carried[k] != 'val' or i.op != 'const' or type(i.args[0]) is not int or not i.args[0]:
                continue
            n = self.nxt[k]

            def step(x):
                if x is c:
                    return EMPTY
                if x.op == 'add' and c in x.args:
                    rest = list(x.args)
                    rest.remove(c)
                    return raw('tup', *rest)
                if x.op == 'plus' and c in x.args:
                    return raw('tup', x.args[1 if x.args[0] is c else 0])
                return raw('no')
            X = lift(step, ('step', c.uid), (n,))
            if X is EMPTY or c.uid in X.fv or any(l.op == 'no' for g, l in gated_leaves(X)):
                continue
            self.substall({c: mk('add', c, i)})
            self.nxt[k], self.init[k], self.shift[k] = n, const(0), i

    def shifted(self, vals):
        return {k: mk('add', v, self.shift[k]) if k in self.shift else v for k, v in vals.items()}

    def sub(self, t, m):
        return subst(t, m)

    def grouped(self):
        """Exits of one kind joined, so that their order does not matter."""
        out = []
        rets = {}
        for kind, g, v, vals, s in self.exits:
            if kind == 'raise':
                key = (kind, v)
            else:
                key = (kind,)
            if key in rets:
                o = rets[key]
                nv = None if v is None else ite(g, v, o[2])
                nvals = {k: ite(g, vals[k], o[3][k]) for k in vals}
                rets[key] = [kind, bor(g, o[1]), nv, nvals, s]
            else:
                rets[key] = [kind, g, v, vals, s]
        return [tuple(x) for x in rets.values()]

    def put(self, st, vals):
        for k, v in vals.items():
            if k[0] == 'e' and k[1][0] == -1:
                continue
            if k[0] == 'e':
                if self.carried[k] == 'list':
                    kind = self.st.cont[self.st.env[k[1]]][0]
                    st.env[k[1]] = self.I.new_ref(st, kind, v)
                else:
                    st.env[k[1]] = v
            elif k[0] == 'c':
                st.cont[k[1]] = (st.cont[k[1]][0], v)
            else:
                st.reg[k[1]] = v

    def _all_terms(self):
        for v in self.nxt.values():
            yield v
        yield self.P
        for kind, g, v, vals, s in self.exits:
            yield g
            if v is not None:
                yield v
            for x in vals.values():
                yield x

    def _uses_idx(self):
        i = raw('idx', self.b)
        return any(_has(t, i) for t in self._all_terms())

    def _uses_index_part(self):
        """Is b used other than through its second component?"""
        one = mk('item', self.b, const(1))
        seen = set()

        def go(t):
            if t is one:
                return False
            if t is self.b:
                return True
            if t.uid in seen or self.b.uid not in t.fv:
                return False
            seen.add(t.uid)
            return any(go(a) for a in t.args if isinstance(a, T))
        return any(go(t) for t in self._all_terms())

    def _substraw(self, m):
        self.substall(m)

    # -- accumulators

    def classify(self, k):
        """('app', X) ('pre', X) ('add', X) ('last', g, V) ('flag', ...) or None."""
        n, c = self.nxt[k], self.carry[k]
        own = lambda t: c.uid in t.fv
        ls = gated_leaves(n)
        if self.isseq(k):
            ph = self.ph(k)

            def app(x):
                if x is ph:
                    return EMPTY
                if x.op == 'cat' and x.args[0] is ph:
                    return cat(*x.args[1:])
                return raw('no')

            def pre(x):
                if x is ph:
                    return EMPTY
                if x.op == 'cat' and x.args[-1] is ph:
                    return cat(*x.args[:-1])
                return raw('no')
            for nm, f in (('app', app), ('pre', pre)):
                X = lift(f, (nm, c.uid), (n,))
                if not any(l.op == 'no' for g, l in gated_leaves(X)) and not own(X):
                    return (nm, X)
            # replaced now and then
        else:
            if self.init[k] in (TRUE, FALSE) and all(l is c or l is TRUE or l is FALSE for g, l in ls):
                A = raw('truthy', c)
                nb = lift(lambda x: raw('ite', A, TRUE, FALSE) if x is c else x, ('asb', c.uid), (n,))
                n1, n0 = TM.restrict(nb, A, 1), TM.restrict(nb, A, 0)
                if not own(n1) and not own(n0):
                    if n1 is TRUE:
                        return ('some', n0)
                    if n0 is FALSE:
                        return ('every', n1)

            text = any(TM.strlike(l) for g, l in ls)

            def spine(x):
                if x.op == 'plus' or x.op == 'strcat':
                    return (spine(x.args[0]) or [x.args[0]]) + list(x.args[1:])
                if x.op == 'join' and x.args[0] is const('') and x.args[1].op == 'cat' and x.args[1].args[0].op == 'unit':
                    y = x.args[1].args[0].args[0]
                    return (spine(y) or [y]) + [mk('join', const(''), cat(*x.args[1].args[1:]))]
                return None

            def add(x):
                if x is c:
                    return EMPTY
                if x.op == 'add' and c in x.args:
                    rest = list(x.args)
                    rest.remove(c)
                    r = const(0)
                    for y in rest:
                        r = mk('add', r, y)
                    return raw('unit', r)
                parts = spine(x)
                if parts and parts[0] is c:
                    if text:
                        return raw('unit', mk('strcat', *parts[1:]))
                    r = parts[1]
                    for y in parts[2:]:
                        r = mk('add', r, y)
                    return raw('unit', r)
                return raw('no')
            if any(l is not c for g, l in ls):
                X = lift(add, ('addc', c.uid), (n,))
                if not any(l.op == 'no' for g, l in gated_leaves(X)) and not own(X):
                    return ('add', X)

        def last(x):
            if x is self.ph(k):
                return EMPTY
            return raw('unit', x)
        V = lift(last, ('lastc', c.uid), (n,))
        if not own(V):
            return ('last', V)
        return None

    def over(self, X, M, plain, idxc):
        """fm over the iterations of X."""
        b = self.b
        uses = [k for k in idxc if self.uses(X, k)]
        if plain is not None and not uses:
            return mk('fm', plain, abstract(b, X))
        p = fresh_bv()
        m = {b: mk('item', p, const(0))}
        for k, i in idxc.items():
            v = mk('item', p, const(i + 1))
            m[self.carry[k]] = v
        return mk('fm', raw('mtrace', M), abstract(p, subst(X, m)))

    def accumulate(self, k, cl, M, plain, idxc):
        init = self.init[k]
        kind = cl[0]
        if kind == 'app':
            return cat(init, self.over(cl[1], M, plain, idxc))
        if kind == 'pre':
            b = self.b
            q = self.over(cl[1], M, plain, idxc)
            if q.op == 'fm':
                return cat(mk('fm', mk('rev', q.args[0]), q.args[1]), init)
            return cat(mk('revchunks', q), init)
        if kind == 'some':
            q = self.over(ite(cl[1], mk('unit', TRUE), EMPTY), M, plain, idxc)
            return bor(nonempty(q), init)
        if kind == 'every':
            q = self.over(ite(cl[1], EMPTY, mk('unit', TRUE)), M, plain, idxc)
            return band(bnot(nonempty(q)), init)
        if kind == 'add':
            q = self.over(cl[1], M, plain, idxc)

            text = any(TM.strlike(l) for g, l in gated_leaves(cl[1]) if l.op == 'unit' for g, l in gated_leaves(l.args[0]))

            def f(i):
                if text or TM.strlike(i):
                    return mk('strcat', i, mk('join', const(''), q))
                if i.op == 'const' and isinstance(i.args[0], (int, float)):
                    return mk('add', i, mk('sum', q))
                return mk('fold', i, q)
            return lift(f, ('foldinit', q.uid), (init,))
        # last
        q = self.over(cl[1], M, plain, idxc)
        ls = {l for g, l in gated_leaves(cl[1]) if l is not EMPTY}
        if len(ls) == 1:
            V = next(iter(ls)).args[0]
            if not V.fv or not (V.fv & ({self.b.uid} | {self.carry[x].uid for x in idxc})):
                return ite(nonempty(q), V if not self.isseq(k) else V, init)
        if self.isseq(k):
            b2 = fresh_bv()
            qq = lift(lambda s: s, 'id', (q,))
            v = mk('first', mk('rev', self.over(lift(lambda x: x if x is EMPTY else raw('unit', mk('seqv', x.args[0])), 'wrapseq', (cl[1],)), M, plain, idxc)), mk('seqv', init))
            return mk('elems', v)
        return mk('first', mk('rev', q), init)

    # -- residual recurrences

    def make_mu(self, s, core, P):
        b = self.b
        core = list(core)
        # canonical order of the state components
        sig = {k: raw('anon', 0, self.initv(k)) for k in core}
        for r in range(3):
            m = {self.carry[k]: sig[k] for k in core}
            m[b] = raw('anonb')
            new = {}
            for k in core:
                mm = dict(m)
                mm[self.carry[k]] = raw('anonself', sig[k])
                new[k] = raw('anon', r + 1, subst(self.nxt[k], mm),
                             subst(P, mm) if self.uses(P, k) else TRUE)
            sig = new
        # (by initial value first: that survives a different way to write the body)
        core.sort(key=lambda k: (self.isseq(k), TM.show(self.initv(k), 4), sig[k].uid))
        self.mu_order = core
        vs = [b] + [self.carry[k] for k in core]
        comps = [raw('stop', self.simp(P))]
        for k in core:
            comps.append(raw('nx', self.simp(self.nxt[k])))
        body = raw('vec', *comps)
        # close over the variables: fresh copies keep the summary reusable
        return mk('mu', s, raw('vec', *[self.initv(k) for k in core]), abstractn(vs, body))

    def simp(self, t):
        return constrain(t, self.I.care([t]))


def _has(t, x):
    seen = set()

    def go(t):
        if t is x:
            return True
        if t.uid in seen or not (x.fv <= t.fv):
            return False
        seen.add(t.uid)
        return any(go(a) for a in t.args if isinstance(a, T))
    return go(t)

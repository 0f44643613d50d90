"""Some control structures are brought to the form the analysis uses for the
same control: a function that calls itself only as the last thing it does is a
loop, and a loop that ends by setting a flag as the last thing of a round is
left by `break`; a loop that ends each round with the statements that come right
before it starts each round with them."""

import ast


def normalise(tree):
    for n in tree.body:
        if isinstance(n, ast.FunctionDef):
            untail(n)
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            unflag(n.body)
            rotate(n)
    return tree


# -------------------------------------------------------------- loop rotation

def rotate(f):
    for n in ast.walk(f):
        for name in ('body', 'orelse', 'finalbody'):
            body = getattr(n, name, None)
            if isinstance(body, list):
                _rotate(body)


def _rotate(body):
    i = 0
    while i < len(body):
        st = body[i]
        if isinstance(st, ast.While) and not st.orelse and not (isinstance(st.test, ast.Constant) and st.test.value) \
                and not _continues(st.body):
            k = 0
            while k < min(i, len(st.body)) and ast.dump(body[i - 1 - k]) == ast.dump(st.body[-1 - k]) \
                    and isinstance(st.body[-1 - k], (ast.Assign, ast.Expr, ast.AugAssign)):
                k += 1
            # only steps that do something: `x = 0` before and after is no step
            if k and k < len(st.body) and any(isinstance(x, ast.Call) for y in st.body[-k:] for x in ast.walk(y)):
                steps = st.body[-k:]
                out = ast.If(test=ast.UnaryOp(ast.Not(), st.test), body=[ast.Break()], orelse=[])
                new = ast.While(test=ast.Constant(True), body=steps + [out] + st.body[:-k], orelse=[])
                ast.copy_location(new, st)
                ast.copy_location(out, st)
                ast.fix_missing_locations(new)
                body[i - k:i + 1] = [new]
                i -= k
        i += 1


def _continues(body):
    todo = list(body)
    while todo:
        n = todo.pop()
        if isinstance(n, ast.Continue):
            return True
        if isinstance(n, (ast.For, ast.While, ast.FunctionDef, ast.ClassDef, ast.Lambda)):
            todo.extend(getattr(n, 'orelse', ()) if isinstance(n, (ast.For, ast.While)) else ())
            continue
        todo.extend(ast.iter_child_nodes(n))
    return False


# ------------------------------------------------------------- tail recursion

def untail(f):
    a = f.args
    if f.decorator_list or a.vararg or a.kwarg or a.kwonlyargs or a.posonlyargs or a.defaults:
        return
    names = [x.arg for x in a.args]
    uses = [n for n in ast.walk(f) if isinstance(n, ast.Name) and n.id == f.name]
    if not uses or f.name in names:
        return
    for n in ast.walk(f):
        if n is not f and isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef,
                                         ast.Yield, ast.YieldFrom, ast.Global, ast.Nonlocal, ast.GeneratorExp)):
            return
    found = []
    body = _tails(f.body, f.name, names, found)
    if len(found) != len(uses):
        return
    doc = body[:1] if ast.get_docstring(f) is not None else []
    rest = body[len(doc):]
    loop = ast.While(test=ast.Constant(True), body=rest, orelse=[])
    ast.copy_location(loop, rest[0])
    if not _leaves(rest):
        r = ast.Return(value=None)
        rest.append(ast.copy_location(r, rest[-1]))
    f.body = doc + [loop]
    ast.fix_missing_locations(f)


def _tails(body, name, names, found):
    out = []
    for st in body:
        if isinstance(st, ast.Return) and isinstance(st.value, ast.Call) \
                and isinstance(st.value.func, ast.Name) and st.value.func.id == name:
            c = st.value
            vals = dict(zip(names, c.args))
            if len(c.args) <= len(names) and not any(isinstance(x, ast.Starred) for x in c.args) \
                    and all(k.arg in names and k.arg not in vals for k in c.keywords):
                vals.update((k.arg, k.value) for k in c.keywords)
                if len(vals) == len(names):
                    found.append(c)
                    new = [n for n in names if not (isinstance(vals[n], ast.Name) and vals[n].id == n)]
                    if len(new) == 1:
                        s = ast.Assign(targets=[ast.Name(new[0], ast.Store())], value=vals[new[0]])
                        out.append(ast.copy_location(s, st))
                    elif new:
                        s = ast.Assign(targets=[ast.Tuple([ast.Name(n, ast.Store()) for n in new], ast.Store())],
                                       value=ast.Tuple([vals[n] for n in new], ast.Load()))
                        out.append(ast.copy_location(s, st))
                    out.append(ast.copy_location(ast.Continue(), st))
                    continue
        if isinstance(st, ast.If):
            new = ast.If(test=st.test, body=_tails(st.body, name, names, found),
                         orelse=_tails(st.orelse, name, names, found))
            st = ast.copy_location(new, st)
        out.append(st)
    return out


def _leaves(body):
    """The end of the statements is not reached."""
    if not body:
        return False
    st = body[-1]
    if isinstance(st, (ast.Return, ast.Raise, ast.Continue, ast.Break)):
        return True
    return isinstance(st, ast.If) and _leaves(st.body) and _leaves(st.orelse)


# ----------------------------------------------------------------- flag loops

def unflag(body):
    for i, st in enumerate(body):
        if isinstance(st, ast.While) and not st.orelse:
            _unflag(st, body[:i])
        for name in ('body', 'orelse', 'finalbody'):
            sub = getattr(st, name, None)
            if isinstance(sub, list) and not isinstance(st, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                unflag(sub)
        for h in getattr(st, 'handlers', ()):
            unflag(h.body)


def _unflag(loop, before):
    """`flag = False ... while not flag:` (or the other way round) whose only
    assignments end the round."""
    t, stop = loop.test, False
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        t, stop = t.operand, True
    if not isinstance(t, ast.Name):
        return
    flag = t.id

    def sets(st):
        return isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name) \
            and st.targets[0].id == flag and isinstance(st.value, ast.Constant) and isinstance(st.value.value, bool)

    # the flag has its initial value when the loop starts
    for st in reversed(before):
        if sets(st):
            if st.value.value is stop:
                return
            break
        if any(isinstance(n, ast.Name) and n.id == flag for n in ast.walk(st)):
            return
    else:
        return
    stores = [n for st in loop.body for n in ast.walk(st)
              if isinstance(n, ast.Name) and n.id == flag]
    found = []

    def tail(body):
        if not body:
            return
        for st in body[:-1]:
            if isinstance(st, ast.If):
                # `flag = ...; continue` inside
                nest(st)
        last = body[-1]
        if sets(last) and last.value.value is stop:
            found.append((body, len(body) - 1))
        elif isinstance(last, ast.If):
            tail(last.body)
            tail(last.orelse)
        elif isinstance(last, ast.Try) and not last.finalbody:
            tail(last.orelse if last.orelse else [])
            for h in last.handlers:
                tail(h.body)
        elif isinstance(last, ast.Continue) and len(body) > 1 and sets(body[-2]) and body[-2].value.value is stop:
            found.append((body, len(body) - 2))
        elif isinstance(last, ast.Break) and len(body) > 1 and sets(body[-2]):
            found.append((body, len(body) - 2))

    def nest(st):
        for b in (st.body, st.orelse):
            if b and isinstance(b[-1], (ast.Continue, ast.Break)):
                tail(b)
            for x in b:
                if isinstance(x, ast.If):
                    nest(x)
    tail(loop.body)
    if not found or len({(id(b), i) for b, i in found}) != len(stores):
        return
    for b, i in found:
        if not isinstance(b[-1], ast.Break):
            br = ast.copy_location(ast.Break(), b[-1])
            if isinstance(b[-1], ast.Continue):
                b[-1] = br
            else:
                b.append(br)
    loop.test = ast.copy_location(ast.Constant(True), loop.test)

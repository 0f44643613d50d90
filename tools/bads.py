"""Small edits that break something: every one must be reported.
bads.py [filter...]   reads /verif/alts/bad/*.txt

Format:  === path [note]
         old text
         ---
         new text
"""
import ast, glob, os, resource, shutil, sys, time
sys.path.insert(0, '/verif'); sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
from xsa import check, index, rules, terms as TM
from xsa.compare import Pair, EQ, DIFF, UNDEC
SRC = '/verif/spec'


def load(args):
    n = 0
    for fn in sorted(glob.glob('/verif/alts/bad/*.txt')):
        for part in open(fn, encoding='utf-8').read().split('\n=== ')[0:]:
            part = part.lstrip('=').strip('\n')
            if not part.strip():
                continue
            head, _, rest = part.partition('\n')
            old, _, new = rest.partition('\n---\n')
            name = '%s#%d' % (os.path.basename(fn)[:-4], n)
            n += 1
            path, _, note = head.strip().partition(' ')
            if not args or any(a in name or a in path for a in args):
                yield name, path, old, '' if new.strip() == '---' else new, note


def one(job):
    name, path, old, new, note = job
    tmp = '/tmp/alts/b_' + name.replace('#', '_')
    src = open(os.path.join(SRC, path), encoding='utf-8').read()
    if src.count(old) != 1:
        return 'ERR', name, '%s occurs %d times: %r' % (path, src.count(old), old[:60])
    t = src.replace(old, new)
    try:
        ast.parse(t)
    except SyntaxError as e:
        return 'ERR', name, str(e)
    shutil.rmtree(tmp, ignore_errors=True)
    shutil.copytree(SRC, tmp)
    open(os.path.join(tmp, path), 'w', encoding='utf-8').write(t)
    mod = path[:-3].replace('/', '.')
    pair = Pair(SRC, tmp, index.is_api, base=PAIR0)
    res = []
    for q in sorted(pair.S.funcs):
        if q.startswith(mod + '.'):
            v, how, det = pair.decide(q)
            if v != EQ:
                res.append((q, v, how))
    for c, pr in index.PROPS.items():
        if pr.opts and not any(r[1] == DIFF for r in res):
            for q in index.select(pair.S.funcs, c):
                v, how, det = pair.decide(q, None, pr.opts)
                if v != EQ:
                    res.append((q, v, how))
        for q, v, det in check.inside(pair, pr):
            if v != EQ:
                res.append((q, v, 'inside'))
    for cq in pair.S.classes:
        if cq.startswith(mod + '.'):
            ms = {x for k in pair.S.mro(pair.S.classes[cq]) if not isinstance(k, str)
                  for d in (k.methods, k.getters) for x in d} | {'__hash__', '__getattr__', '__setattr__', '__len__', '__bool__'}
            for site, v, how, det in pair.class_members(cq, sorted(ms), (), None):
                if v != EQ:
                    res.append((site, v, how))
    if not any(r[1] == DIFF for r in res):
        rb = [(s, x) for r in ('names', 'errors', 'exports', 'entry', 'aliases') for s, x in rules.RULES[r](pair)[1]]
        if rb:
            res.append((rb[0][0], DIFF, rb[0][1]))
    shutil.rmtree(tmp)
    if any(r[1] == DIFF for r in res):
        return 'OK', name, ''
    return ('UNDEC' if res else 'MISS'), name, '%s %s %s\n    %s' % (path, note, res[:2], new.replace('\n', '\n    ')[:300])


PAIR0 = None


def warm():
    global PAIR0
    PAIR0 = Pair(SRC, SRC, index.is_api)
    for q in sorted(PAIR0.S.funcs):
        PAIR0.decide(q)
    for c, pr in index.PROPS.items():
        if pr.opts:
            for q in index.select(PAIR0.S.funcs, c):
                PAIR0.decide(q, None, pr.opts)
        list(check.inside(PAIR0, pr))


def timed(job):
    t = time.time()
    resource.setrlimit(resource.RLIMIT_AS, (5 << 30, 5 << 30))
    try:
        r = one(job)
    except MemoryError:
        r = 'MEMORY', job[0], ''
    return r + (time.time() - t, resource.getrusage(resource.RUSAGE_SELF).ru_maxrss >> 10)


def main():
    from multiprocessing import Pool
    warm()
    jobs = list(load(sys.argv[1:]))
    cnt = {}
    with Pool(6, maxtasksperchild=1) as pool:
        for kind, name, text, sec, mb in pool.imap_unordered(timed, jobs):
            cnt[kind] = cnt.get(kind, 0) + 1
            if sec > 60 or mb > 1500:
                print('HEAVY', name, '%d s, %d MB' % (sec, mb), flush=True)
            if kind != 'OK':
                print(kind, name, text, flush=True)
    print(len(jobs), 'edits', cnt)


main()

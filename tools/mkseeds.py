"""Write /verif/seeded from the table below and confirm every entry on /repo.

    python3 -B tools/mkseeds.py [id ...]

Each entry: id, property, file, [(old, new)], demo (Python), needs, what it breaks.
"""
import difflib, json, os, subprocess, sys
REPO, OUT = '/repo', '/verif/seeded'
S = []


def seed(i, prop, path, edits, needs, breaks, demo):
    S.append((i, prop, path, edits, needs, breaks, demo))


HEAD = '''import sys, os, tempfile, io, contextlib, logging, warnings
warnings.simplefilter('ignore')
from xigt import XigtCorpus, Igt, Tier, Item, Metadata, Meta, MetaChild, ref, query, xigtpath as xp
from xigt.codecs import xigtxml, xigtjson
'''
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'seedtable.py'), encoding='utf-8').read())


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def stable():
    b = json.load(open('/opt/vp/BASELINE.json'))
    return b


def main():
    want = sys.argv[1:]
    base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    for i, prop, path, edits, needs, breaks, demo in S:
        if want and i not in want:
            continue
        d = os.path.join(OUT, i)
        os.makedirs(d, exist_ok=True)
        full = os.path.join(REPO, path)
        old = open(full, encoding='utf-8').read()
        new = old
        for a, b in edits:
            assert new.count(a) == 1, (i, a, new.count(a))
            new = new.replace(a, b)
        diff = ''.join(difflib.unified_diff(old.splitlines(True), new.splitlines(True), 'a/' + path, 'b/' + path))
        if not old.endswith('\n'):
            # let git make the diff, so that missing newlines are marked
            open(full, 'w', encoding='utf-8').write(new)
            diff = sh('git -C %s diff' % REPO).stdout
            sh('git -C %s checkout -- .' % REPO)
        open(os.path.join(d, 'patch.diff'), 'w', encoding='utf-8').write(diff)
        open(os.path.join(d, 'demo.py'), 'w', encoding='utf-8').write(HEAD + demo)
        open(os.path.join(d, 'demo.sh'), 'w').write('#!/bin/sh\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" LC_ALL=C.UTF-8 exec python3 -B "$(dirname "$0")/demo.py"\n')
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks},
                  open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        r0 = sh('sh %s/demo.sh' % d, cwd=REPO)
        a = sh('git -C %s apply %s/patch.diff' % (REPO, d))
        try:
            b = sh('bash /opt/vp/build.sh')
            t = sh('bash /opt/vp/test.sh /tmp/seed_out.json')
            r1 = sh('sh %s/demo.sh' % d, cwd=REPO)
            c = sh('python3 -B /verif/xsa/check.py %s --no-evidence' % prop)
        finally:
            sh('git -C %s checkout -- .' % REPO)
        lost = base - set(passed('/tmp/seed_out.json'))
        ok = r0.returncode == 0 and a.returncode == 0 and b.returncode == 0 and not lost and r1.returncode != 0
        print('%-28s %s %s demo %d/%d apply %d build %d lost %d check %d' % (
            i, prop, 'ok ' if ok else 'BAD', r0.returncode, r1.returncode, a.returncode, b.returncode, len(lost), c.returncode))
        if not ok:
            print(r0.stdout[-600:], a.stdout, b.stdout[-300:] if b.returncode else '', sorted(lost)[:3], r1.stdout[-300:])
        elif c.returncode != 1:
            print(c.stdout[-800:])


def passed(f):
    j = json.load(open(f))
    return PASSED(j)


def PASSED(j):
    for k in ('passed', 'pass', 'stable'):
        if k in j:
            return j[k]
    return [k for k, v in (j.get('tests') or j).items() if v in ('passed', 'pass', True)]


if __name__ == '__main__':
    main()

"""Command line: decide one property on /repo's working tree.

    python3 -B /verif/xsa/check.py C01 [--repo DIR] [--no-evidence]

Exit 0: held on everything analysed; 1: violation (with a VIOLATION line);
2: the analysis itself is broken (a module is missing or does not parse, or
fewer functions match than were confirmed by hand).
"""

import argparse
import fnmatch
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)

from xsa import index, rules                                   # noqa: E402
from xsa.compare import Pair, EQ, DIFF, UNDEC                   # noqa: E402

LEVEL = 'other'


def known(prop):
    """(site, text) of the findings listed for a property."""
    out = []
    path = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path, encoding='utf-8'):
            line = line.strip()
            if line.startswith('known:'):
                d = dict(p.split('=', 1) for p in line[6:].split()[:2])
                if d.get('property') == prop:
                    out.append((d['site'], line.split(None, 3)[3]))
    return out


def inside(pair, P, keep=None):
    """What has been done when a function that is used raises."""
    if P.inside is None:
        return
    pats, opened = P.inside
    A = frozenset(pair.common - set(opened) - pair.internal_diffs(P.opts))
    for q in sorted(pair.S.funcs):
        if q in pair.R.funcs and q not in pair.sigdiff and any(fnmatch.fnmatchcase(q, p) for p in pats):
            v, det = pair.cmp(q, A, keep, P.opts)
            yield q, v, det


def run(prop, repo, seed, tier):
    t0 = time.time()
    P = index.PROPS[prop]
    pair = Pair(os.path.join(ROOT, 'spec'), repo, index.is_api)
    viol, undec, oks = [], [], []
    drop = set(P.drop)
    keep = (lambda k: k not in drop) if drop else None
    qs = index.select(pair.S.funcs, prop)
    for q in qs:
        v, how, det = pair.decide(q, keep, P.opts)
        site = '%s (%s)' % (q, pair.where(q))
        if v == EQ:
            oks.append((q, how))
        elif v == UNDEC:
            undec.append((site, how))
        else:
            viol.append((site, how, det if isinstance(det, str) else pair.explain(q, det)))
    done = {s.split(' (')[0] for s, _ in undec} | {s.split(' (')[0] for s, _, _ in viol}
    for q, v, det in inside(pair, P, keep):
        site = '%s (%s)' % (q, pair.where(q))
        if q in done:
            continue
        if v == EQ:
            oks.append((q, 'same state when it raises'))
        elif v == UNDEC:
            undec.append((site, det))
        else:
            viol.append((site, 'state when it raises', det if isinstance(det, str) else pair.explain(q, det)))
    ncls = 0
    for cq in P.classes:
        for site, v, how, det in pair.class_members(cq, P.names, P.opts, keep):
            ncls += 1
            if v == EQ:
                oks.append((site, how))
            elif v == UNDEC:
                undec.append((site, how))
            else:
                viol.append((site, how, det if isinstance(det, str) else pair.explain(site, det)))
    robs = 0
    rinfo = {}
    for name in P.rules:
        n, bad, info = rules.RULES[name](pair)
        robs += n
        rinfo[name] = info
        for site, text in bad:
            viol.append((site, 'rule ' + name, text))
    floor = index.FLOORS.get(prop)
    found = sum(1 for q in qs if q in pair.R.funcs)
    total = len(qs) + ncls + robs
    return dict(pair=pair, viol=viol, undec=undec, oks=oks, qs=qs, ncls=ncls, robs=robs, rinfo=rinfo,
                total=total, floor=floor, found=found, wall=time.time() - t0)


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--repo', default='/repo')
    ap.add_argument('--no-evidence', action='store_true')
    ap.add_argument('--tier', default=None)
    a = ap.parse_args(argv)
    prop = a.prop
    tier = a.tier or os.environ.get('VERIF_TIER') or 'quick'
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    t0 = time.time()
    try:
        r = run(prop, a.repo, seed, tier)
    except (SyntaxError, OSError) as e:
        print('analysis broken: %s: %s' % (type(e).__name__, e))
        return 2
    pair = r['pair']
    print('%s: %d functions of the property, %d class members, %d rule instances; %d equal, %d undecided, %d violated'
          % (prop, len(r['qs']), r['ncls'], r['robs'], len(r['oks']), len(r['undec']), len(r['viol'])))
    for n in pair.notes:
        print('note: ' + n)
    for site, why in r['undec']:
        print('undecided: %s: %s' % (site, why))
    bad_sites = ' '.join(s for s, _, _ in r['viol'])
    for site, text in known(prop):
        if site not in bad_sites:
            print('KNOWN-FINDING: property=%s %s: %s' % (prop, site, text))
    code = 0
    if r['floor'] is not None and r['total'] < r['floor']:
        print('analysis broken: %d obligations, expected at least %d' % (r['total'], r['floor']))
        code = 2
    replay = os.path.join(ROOT, 'evidence', prop + '.violation.txt')
    if r['viol']:
        code = 1
        text = []
        for site, how, det in r['viol']:
            text.append('%s: %s: %s\n%s\n' % (prop, site, how, det))
        text = '\n'.join(text)
        if not a.no_evidence:
            os.makedirs(os.path.dirname(replay), exist_ok=True)
            with open(replay, 'w', encoding='utf-8') as f:
                f.write(text)
        print(text[:20000])
    elif not a.no_evidence and os.path.exists(replay):
        os.remove(replay)
    if not a.no_evidence:
        hows = {}
        for q, how in r['oks']:
            hows[how.split(' (')[0]] = hows.get(how.split(' (')[0], 0) + 1
        regions = 0
        samples = []
        for q in r['qs']:
            g = pair.regions(q, index.PROPS[prop].opts)
            regions += len(g)
            if len(samples) < 12:
                samples.append({'function': q, 'where': pair.where(q), 'effects compared': g})
        ev = {
            'property': prop, 'tier': tier, 'seed': seed, 'level': LEVEL,
            'coverage': {
                'explanation': 'Every function listed for the property is turned into a value graph (gated value '
                               'numbering: result, yields, exceptions and one effect sequence per heap region, for '
                               'all inputs at once) and compared with the graph of the reviewed reference model; '
                               'direct rules are evaluated on the syntax tree and resolved names. Nothing is executed.',
                'functions_analysed': len(r['qs']),
                'effect_regions_compared': regions,
                'class_members_resolved': r['ncls'],
                'rule_instances': r['robs'],
                'rules': r['rinfo'],
                'obligations': r['total'],
                'discharged': len(r['oks']) + r['robs'] - sum(1 for v in r['viol'] if v[1].startswith('rule ')),
                'undecided': [{'site': s, 'why': w} for s, w in r['undec']],
                'how': hows,
                'functions_in_package': len(pair.R.funcs),
                'samples': samples,
                'exhaustive': not r['undec'],
            },
            'assumptions': ['the reference model in /verif/spec states the intended behaviour',
                            'standard library functions behave as documented',
                            'attributes of model objects are not replaced from outside the package'],
            'wall_s': round(time.time() - t0, 3),
            'violations': len(r['viol']),
        }
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        with open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w', encoding='utf-8') as f:
            json.dump(ev, f, indent=1, sort_keys=True)
            f.write('\n')
    if code == 1:
        print('VIOLATION property=%s replay=%s' % (prop, replay))
    return code


if __name__ == '__main__':
    sys.exit(main())

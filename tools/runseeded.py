#!/usr/bin/env python3
"""applies each planted bug to a scratch copy of /repo and runs every check on it (development tool; no check uses it)"""
import json, os, shutil, subprocess, sys, tempfile
import concurrent.futures as cf
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
man = json.load(open(ROOT + '/MANIFEST.json'))
checks = [c['property'] for c in man['checks']]
rp = ROOT + '/tools/seeded_results.json'
res = json.load(open(rp)) if os.path.exists(rp) else {}
names = sys.argv[1:] or sorted(os.listdir(ROOT + '/seeded'))


def one(n):
    d = tempfile.mkdtemp(prefix='sd_')
    try:
        for x in ('src', 'include', 'bin'):
            shutil.copytree('/repo/' + x, d + '/' + x) if os.path.isdir('/repo/' + x) else None
        r = subprocess.run(['git', 'apply', '--directory=', ROOT + '/seeded/' + n + '/patch.diff'], cwd=d, capture_output=True, text=True)
        if r.returncode:
            return n, ['PATCH FAILS ' + r.stderr[:200]], []
        got, err = [], []
        for c in checks:
            q = subprocess.run([ROOT + '/check.sh', c, 'quick'], capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=d, VERIF_EVID=d))
            if q.returncode == 1:
                got.append(c)
            elif q.returncode:
                err.append('%s:%d' % (c, q.returncode))
        return n, got, err
    finally:
        shutil.rmtree(d)


with cf.ThreadPoolExecutor(6) as ex:
    for n, got, err in ex.map(one, names):
        res[n] = got
        print(n, json.load(open(ROOT + '/seeded/' + n + '/meta.json'))['property'], 'caught by', got, err or '')
json.dump({k: res[k] for k in sorted(res) if os.path.isdir(ROOT + '/seeded/' + k)}, open(rp, 'w'), indent=1)

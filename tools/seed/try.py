#!/usr/bin/env python3
"""Runs checks against planted bugs in private mount namespaces (nothing of /repo or /verif is touched).
usage: try.py [--all] [-j N] [ID...]     --all: every check on every bug, else the check of the bug's own property"""
import json
import os
import subprocess
import sys
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
SEEDED = VERIF + '/seeded'


def sh(cmd, timeout=2000):
    r = subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=timeout)
    return r.returncode, r.stdout


def worker(n, queue, lock, results, every, checks):
    repo, verif = '/tmp/sb/t%d/repo' % n, '/tmp/sb/t%d/verif' % n
    os.makedirs('/tmp/sb/t%d' % n, exist_ok=True)
    sh('rsync -a --delete --exclude target /repo/ %s/' % repo)
    sh('rsync -a --delete --exclude seeded --exclude .git %s/ %s/' % (VERIF, verif))
    while True:
        with lock:
            if not queue:
                return
            bid = queue.pop(0)
        meta = json.load(open('%s/%s/meta.json' % (SEEDED, bid)))
        sh('cd %s && git checkout -q -f -- .' % repo)
        code, out = sh('cd %s && git apply %s/%s/patch.diff' % (repo, SEEDED, bid))
        if code:
            results[bid] = 'patch does not apply'
            print(bid, results[bid], flush=True)
            continue
        for c in checks:
            if not every and c['property'] != meta['property']:
                continue
            t = time.time()
            code, out = sh("unshare -Urm sh -c 'mount --bind %s /repo && mount --bind %s /verif && cd /verif && VERIF_SEED=1 VERIF_TIER=quick timeout 900 %s'" % (repo, verif, c['quick']))
            hit = [l for l in out.split('\n') if l.startswith('VIOLATION')]
            good = code == 1 and any('property=' + c['property'] in l for l in hit)
            results.setdefault(bid, []).append((c['property'], code, good))
            print('%-26s %s %s exit %d %.0fs %s' % (bid, c['property'], 'CAUGHT' if good else ('missed' if code == 0 else 'ODD'), code, time.time() - t, hit[:1] or (out[-300:] if code else '')), flush=True)
            open('/tmp/sb/out-%s-%s.txt' % (bid, c['property']), 'w').write(out)


def main():
    a = sys.argv[1:]
    every = '--all' in a
    jobs = int(a[a.index('-j') + 1]) if '-j' in a else 2
    ids = [x for i, x in enumerate(a) if not x.startswith('-') and (i == 0 or a[i - 1] != '-j')]
    m = json.load(open(VERIF + '/MANIFEST.json'))
    checks = []
    for c in m['checks']:
        checks.append({'property': c.get('property') or c.get('property_id') or c.get('id'), 'quick': c.get('quick') or c.get('quick_cmd')})
    queue = ids or sorted(os.listdir(SEEDED))
    lock, results = threading.Lock(), {}
    ts = [threading.Thread(target=worker, args=(i, queue, lock, results, every, checks)) for i in range(jobs)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()


main()

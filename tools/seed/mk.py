#!/usr/bin/env python3
"""Makes and validates planted bugs.  usage: mk.py BUGFILE [ID...]

Every bug is confirmed in a scratch copy of /repo before it is kept under /verif/seeded."""
import importlib.util
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
SCRATCH = '/tmp/sb/repo'
OUT = os.path.join(os.path.dirname(os.path.dirname(HERE)), 'seeded')


def sh(cmd, cwd=None, env=None, timeout=600):
    r = subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', env=env, timeout=timeout)
    return r.returncode, r.stdout


def fresh():
    if not os.path.isdir(SCRATCH):
        os.makedirs('/tmp/sb', exist_ok=True)
        sh(['cp', '-a', '/repo', SCRATCH])
    sh('git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD', cwd=SCRATCH)
    sh('git checkout -q -f -- . && git clean -fdq -e target', cwd=SCRATCH)


def stable(env):
    code, out = sh('cargo test --workspace --no-fail-fast --offline -- --test-threads 8 2>&1', cwd=SCRATCH, env=env)
    ok = {l.split()[1] for l in out.split('\n') if l.startswith('test ') and l.endswith('... ok')}
    want = json.load(open('/opt/vp/BASELINE.json'))['stable']
    names = {x.split('::', 1)[-1] if False else x for x in want}
    missing = [x for x in names if not any(x.endswith(o) or o.endswith(x) for o in ok)]
    return code == 0, missing, out


def make(bug):
    bid = bug['id']
    fresh()
    env = dict(os.environ, CARGO_NET_OFFLINE='true', CARGO_TARGET_DIR='/tmp/sb/target', CARGO_PROFILE_DEV_DEBUG='0')
    for f, old, new in bug['edits']:
        p = os.path.join(SCRATCH, f)
        s = open(p).read()
        if s.count(old) != 1:
            print(bid, 'NO UNIQUE TEXT in', f, s.count(old))
            return False
        open(p, 'w').write(s.replace(old, new))
    sh('cargo fmt', cwd=SCRATCH)
    code, diff = sh(['git', 'diff'], cwd=SCRATCH)
    # at least one removed line must be an original one
    base = sh('git rev-list --max-parents=0 HEAD', cwd=SCRATCH)[1].strip()
    own = False
    for f, old, new in bug['edits']:
        code, bl = sh(['git', 'blame', '-l', '-s', 'HEAD', '--', f], cwd=SCRATCH)
        orig = {l.split(')', 1)[1][1:] for l in bl.split('\n') if l.lstrip('^').startswith(base[:30])}
        removed = [l[1:] for l in diff.split('\n') if l.startswith('-') and not l.startswith('---')]
        own = own or any(l in orig and l.strip() for l in removed)
    if not own:
        print(bid, 'changes no original line')
        return False
    ok, missing, out = stable(env)
    if not ok:
        print(bid, 'TESTS FAIL', [l for l in out.split('\n') if 'FAILED' in l or l.startswith('error')][:5])
        return False
    d = '/tmp/sb/new/' + bid
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    open(d + '/patch.diff', 'w').write(diff)
    if 'py' in bug:
        shutil.copy(HERE + '/demo_py.sh', d + '/demo.sh')
        shutil.copy(HERE + '/lspc.py', d)
        open(d + '/demo.py', 'w').write(PRELUDE + bug['py'])
    else:
        shutil.copy(HERE + '/demo_rs.sh', d + '/demo.sh')
        open(d + '/demo.rs', 'w').write(bug['rs'])
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': bug['property'], 'needs': bug['needs'], 'what_it_breaks': bug['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    denv = dict(os.environ, DEMO_TARGET='/tmp/sb/target')
    bad, o1 = sh(['bash', d + '/demo.sh'], cwd=SCRATCH, env=denv)
    fresh()
    good, o2 = sh(['bash', d + '/demo.sh'], cwd=SCRATCH, env=denv)
    if good != 0 or bad == 0 or bad == 3:
        print(bid, 'DEMO: patched', bad, 'clean', good, (o2 if good else o1)[-600:])
        return False
    shutil.rmtree(os.path.join(OUT, bid), ignore_errors=True)
    shutil.move(d, os.path.join(OUT, bid))
    print(bid, 'kept')
    return True


PRELUDE = '''import os, subprocess, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from lspc import Client
BIN = sys.argv[1]
HERE = os.path.realpath('.')
URI = 'file://' + HERE + '/'


def write(name, text):
    if os.path.dirname(name):
        os.makedirs(os.path.dirname(name), exist_ok=True)
    with open(name, 'wb') as f:
        f.write(text.encode())


def cli(*args, timeout=20):
    r = subprocess.run([BIN + '/ginko', *args], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
    return r.returncode, r.stdout.decode('utf-8', 'replace')


def server(*args, options=None):
    return Client(BIN + '/ginko_ls', '.', args, options)


'''

if __name__ == '__main__':
    spec = importlib.util.spec_from_file_location('bugs', sys.argv[1])
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    want = sys.argv[2:]
    os.makedirs(OUT, exist_ok=True)
    for b in m.BUGS:
        if not want or b['id'] in want:
            make(b)

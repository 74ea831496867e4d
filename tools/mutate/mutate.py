#!/usr/bin/env python3
"""Small systematic changes to the sources, to find behaviour that no check looks at.
usage: mutate.py [-j N] [-n COUNT] [-s SEED] OUT FILE...      (works in copies under /tmp/sb, in private mount namespaces)"""
import json
import os
import random
import re
import subprocess
import sys
import threading

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
STAGES = {'ginko/src/main.rs': ['cli'], 'ginko_ls/src/server.rs': ['lsp'], 'ginko_ls/src/main.rs': ['lsp'], 'ginko/src/dts/project.rs': ['proj', 'lsp', 'cli'],
          'ginko/src/dts/import_guard.rs': ['proj'], 'ginko/src/dts/diagnostics.rs': ['docs', 'cli', 'proj', 'lsp']}

SUBS = [(r' == ', ' != '), (r' != ', ' == '), (r' < ', ' <= '), (r' <= ', ' < '), (r' > ', ' >= '), (r' >= ', ' > '), (r' && ', ' || '), (r' \|\| ', ' && '),
        (r' \+ ', ' - '), (r' - ', ' + '), (r' \+= ', ' -= '), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'is_some\(\)', 'is_none()'), (r'is_none\(\)', 'is_some()'),
        (r'is_ok\(\)', 'is_err()'), (r'is_empty\(\)', 'len() == 1'), (r'\.first\(\)', '.last()'), (r'\.last\(\)', '.first()'), (r'\.start\(\)', '.end()'), (r'\.end\(\)', '.start()'),
        (r'\bbreak;', 'continue;'), (r'\bcontinue;', 'break;'), (r'Severity::Error', 'Severity::Warning'), (r'Severity::Warning', 'Severity::Error'),
        (r'\bany\(', 'all('), (r'\ball\(', 'any('), (r'!(?=[a-z_]+[.(])', ''), (r'(?<=[( ])(\d+)(?=[;,) ])', lambda m: str(int(m.group(1)) + 1)),
        (r'\bif (?!let)(.+) \{$', r'if false && (\1) {'), (r'\bif (?!let)(.+) \{$', r'if true || (\1) {'), (r'\bwhile (?!let)(.+) \{$', r'while false && (\1) {'),
        (r'^(\s*)([a-z_.]+\(.*\)\??;)$', r'\1'), (r'^(\s*)self\.[a-z_.]+ [-+]?= .*;$', r'\1'), (r'^(\s*)return .*;$', r'\1'),
        (r"b'(.)'", lambda m: "b'%s'" % chr(ord(m.group(1)) ^ 1) if m.group(1).isalnum() else "b'~'"),
        (r'\.next\(\)', '.next_back()'), (r'\.or_default\(\)', '.or_insert_with(Default::default)'), (r'\.saturating_sub\((\d)\)', ''),
        (r'^(\s*)([A-Z][A-Za-z:]*(\([^=]*\))?( \{[^=]*\})?) => (.*),$', r'\1\2 if false => \5,'), (r'^(\s*)([A-Z][A-Za-z:]*(\([^=]*\))?( \{[^=]*\})?) => \{$', r'\1\2 if false => {'),
        (r"^(\s*)(b'.+'|'.+') => (.*)$", r'\1\2 if false => \3'), (r'Some\(([a-z_.]+)\)$', r'None'), (r'\.rev\(\)', ''), (r'\.chain\(.*\)', ''), (r'\.filter\(.*\)$', ''),
        (r'\.trim\(\)', ''), (r'\.skip\(.*?\)', ''), (r'\.take\(.*?\)', ''), (r'\bmax\(', 'min('), (r'\bmin\(', 'max(')]


def mutants(repo, path):
    lines = open(os.path.join(repo, path)).read().split('\n')
    out = []
    for i, line in enumerate(lines):
        if re.match(r'#\[cfg\(test\)\]', line) and path != 'ginko/src/dts/project.rs' or re.match(r'mod tests? ', line):
            break
        if line.strip().startswith('//') or not line.strip() or line.strip().startswith('#['):
            continue
        for k, (a, b) in enumerate(SUBS):
            for m in re.finditer(a, line):
                try:
                    new = line[:m.start()] + (b(m) if callable(b) else m.expand(b)) + line[m.end():]
                except re.error:
                    continue
                if new != line:
                    out.append((path, i, line, new))
    return sorted(set(out))


def sh(cmd, env=None, timeout=1500):
    try:
        r = subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=timeout, env=env)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return 99, 'timeout'


def worker(n, queue, lock, out):
    base = '/tmp/sb/m%d' % n
    repo, verif = base + '/repo', base + '/verif'
    os.makedirs(base, exist_ok=True)
    sh('rsync -a --delete --exclude target /repo/ %s/' % repo)
    sh('rsync -a --delete --exclude seeded --exclude .git %s/ %s/' % (VERIF, verif))
    env = dict(os.environ, CARGO_NET_OFFLINE='true', CARGO_TARGET_DIR=base + '/target', CARGO_PROFILE_DEV_DEBUG='0')
    while True:
        with lock:
            if not queue:
                return
            path, i, old, new = queue.pop(0)
        p = os.path.join(repo, path)
        orig = open(os.path.join('/repo', path)).read()
        ls = orig.split('\n')
        if ls[i] != old:
            continue
        ls[i] = new
        open(p, 'w').write('\n'.join(ls))
        code, o = sh('cd %s && timeout 120 cargo build --workspace --offline -q' % repo, env)
        res = 'nobuild'
        if not code:
            code, o = sh('cd %s && timeout 120 cargo test --workspace --offline -q' % repo, env)
            res = 'tests'
            if not code:
                st = STAGES.get(path, ['docs', 'proj', 'cli', 'lsp'])
                code, o = sh("unshare -Urm sh -c 'mount --bind %s /repo && mount --bind %s /verif && cd /verif && timeout 900 python3 tools/mutate/suite.py %s'" % (repo, verif, ' '.join(st)))
                res = 'SURVIVED' if code == 0 else 'caught' if code == 1 else 'odd'
        open(p, 'w').write(orig)
        with lock:
            with open(out, 'a') as f:
                f.write(json.dumps({'f': path, 'l': i + 1, 'old': old.strip(), 'new': new.strip(), 'res': res, 'out': o[-400:] if res in ('odd', 'caught') else ''}) + '\n')
        if res in ('SURVIVED', 'odd'):
            print(res, path, i + 1, old.strip(), ' --> ', new.strip(), o[-200:] if res == 'odd' else '', flush=True)


def main():
    a = sys.argv[1:]
    opt = {}
    while a and a[0].startswith('-'):
        opt[a[0]] = int(a[1])
        a = a[2:]
    out, files = a[0], a[1:]
    todo = [m for f in files for m in mutants('/repo', f)]
    random.Random(opt.get('-s', 1)).shuffle(todo)
    done = set()
    if os.path.exists(out):
        for l in open(out):
            d = json.loads(l)
            done.add((d['f'], d['l'], d['new']))
    todo = [m for m in todo if (m[0], m[1] + 1, m[3].strip()) not in done]
    print(len(todo), 'mutants', flush=True)
    todo = todo[:opt.get('-n', 10 ** 9)]
    lock = threading.Lock()
    ts = [threading.Thread(target=worker, args=(i, todo, lock, out)) for i in range(opt.get('-j', 2))]
    for t in ts:
        t.start()
    for t in ts:
        t.join()


main()

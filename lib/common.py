"""Shared by all checks: building, running the harness and TLC, reporting."""
import json
import os
import re
import resource
import shutil
import subprocess
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('GINKO_REPO', '/repo')
TARGET = os.path.join(ROOT, 'build', 'target')
SPEC = os.path.join(ROOT, 'spec')
TLA = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
MEMORY = 5 << 29           # for one process of the harness
CPUS = min(8, os.cpu_count() or 4)
ENV = dict(os.environ, LC_ALL='C.UTF-8')


class ToolError(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)


def known_finding(prop, key):
    """The description of a recorded finding, if there is one for exactly this input."""
    with open(os.path.join(ROOT, 'KNOWN_FINDINGS.txt')) as f:
        for line in f:
            m = re.match(r'finding: property=(\S+) input=(\S+) (.*)', line)
            if m and m.group(1) == prop and m.group(2) == key:
                return m.group(3).strip()
    return None


# --- building --------------------------------------------------------------------------------
RUN = re.compile('\ue000([0-9]+)\ue000|\ue001([0-9]+)\ue001')


def expand(text):
    """Replaces the marks for long parts of comments: letters and line breaks."""
    return RUN.sub(lambda m: 'x' * int(m.group(1)) if m.group(1) else '\n' * int(m.group(2)), text) if '\ue000' in text or '\ue001' in text else text


def abbreviated(text):
    """The bytes of a text, in which the marks are abbreviated as in spec/Bytes.tla."""
    out, at = [], 0
    for m in RUN.finditer(text):
        out += text[at:m.start()].encode()
        out.append(1000 + int(m.group(1)) if m.group(1) else -int(m.group(2)))
        at = m.end()
    return out + list(text[at:].encode())


def build_harness():
    env = dict(ENV, RUSTFLAGS='--cfg ginko_verif', CARGO_TARGET_DIR=TARGET, CARGO_NET_OFFLINE='true')
    r = sh(['cargo', 'build', '--offline', '-q'], cwd=os.path.join(ROOT, 'harness'), env=env)
    if r.returncode:
        raise ToolError('building the harness failed:\n' + r.stdout[-3000:])
    return os.path.join(TARGET, 'debug', 'vharness')


def build_bins():
    """The two executables of the repository itself: the command line tool and the language server."""
    target = os.path.join(ROOT, 'build', 'bins')
    env = dict(ENV, CARGO_TARGET_DIR=target, CARGO_NET_OFFLINE='true', CARGO_PROFILE_DEV_DEBUG='0')
    r = sh(['cargo', 'build', '--offline', '-q', '--bins'], cwd=REPO, env=env)
    if r.returncode:
        raise ToolError('building ginko failed:\n' + r.stdout[-3000:])
    return os.path.join(target, 'debug')


# --- the harness -------------------------------------------------------------------------------
def run_shards(binary, mode, items, work, limit_s=20, shards=CPUS, dead=None):
    """Runs the harness over the items.  A crash or a hang is recorded as dead(item, 'crash' | 'hang')."""
    os.makedirs(work, exist_ok=True)
    parts = [items[i::shards] for i in range(shards)]
    state = []
    for i, part in enumerate(parts):
        base = os.path.join(work, 's%d' % i)
        with open(base + '.in', 'w') as f:
            for it in part:
                f.write(json.dumps(it) + '\n')
        open(base + '.out', 'w').close()
        state.append({'base': base, 'part': part, 'done': False, 'deaths': 0, 'proc': None})

    def start(s, skip):
        scratch = s['base'] + '.root'
        s['proc'] = subprocess.Popen([binary, mode, s['base'] + '.in', s['base'] + '.out', str(skip), str(limit_s), scratch],
                                     stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=ENV,
                                     preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY)))

    begin = time.time()
    for s in state:
        start(s, 0)
    while not all(s['done'] for s in state):
        for s in state:
            if s['done'] or s['proc'].poll() is None:
                continue
            with open(s['base'] + '.out', 'rb') as f:
                data = f.read()
            cut = data.rfind(b'\n') + 1
            n = data.count(b'\n')
            if n >= len(s['part']):
                s['done'] = True
                continue
            if s['proc'].returncode == 0:
                raise ToolError('the harness stopped early')
            # died on item n
            hang = s['proc'].returncode == 42
            s['deaths'] += 8 if hang else 1
            if s['deaths'] > 20 or time.time() - begin > 40 + limit_s:      # this fails anyway: time is short
                with open(s['base'] + '.out', 'wb') as f:
                    f.write(data[:cut])
                s['part'] = s['part'][:n]
                s['done'] = True
                continue
            rec = dead(s['part'][n], 'hang' if hang else 'crash')
            with open(s['base'] + '.out', 'wb') as f:
                f.write(data[:cut] + (json.dumps(rec) + '\n').encode())
            start(s, n + 1)
        time.sleep(0.02)
    outs = [[json.loads(l) for l in open(s['base'] + '.out')] for s in state]
    # back in the order of the items
    res = []
    for i in range(max((len(o) for o in outs), default=0)):
        for o in outs:
            if i < len(o):
                res.append(o[i])
    for s in state:
        for ext in ('.in', '.out'):
            os.remove(s['base'] + ext)
        shutil.rmtree(s['base'] + '.root', ignore_errors=True)
    return res


# --- TLC ------------------------------------------------------------------------------------------
class Tlc:
    """The outcome of one run of TLC."""

    def __init__(self, out, code, wall):
        self.out, self.code, self.wall = out, code, wall
        m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out)
        self.generated, self.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        m = re.findall(r'Finished computing initial states: (\d+)', out)
        self.initial = int(m[-1]) if m else 1
        self.emitted = []
        for line in out.split('\n'):
            if line.startswith('"@'):
                try:
                    self.emitted.append(json.loads(json.loads(line)[1:]))
                except ValueError:
                    self.emitted.append({'id': '?', 'why': line})

    @property
    def ok(self):
        return self.code == 0

    @property
    def violated(self):
        return self.code in (11, 12, 13)   # deadlock, safety, liveness


def tlc(module, work, env=None, cfg=None, workers=CPUS, extra=(), timeout=None, xmx=None):
    meta = os.path.join(work, 'tlc_' + module)
    shutil.rmtree(meta, ignore_errors=True)
    os.makedirs(meta)
    cmd = ['java', '-XX:+UseParallelGC', '-Xss64m', '-Dfile.encoding=UTF-8']
    cmd += ['-Xmx' + (xmx or '12g')]
    cmd += ['-cp', TLA, 'tlc2.TLC', '-workers', str(workers), '-noGenerateSpecTE', '-metadir', meta, '-config', cfg or module + '.cfg']
    cmd += list(extra) + [module + '.tla']
    t = time.time()
    p = subprocess.run(cmd, cwd=SPEC, env=dict(ENV, **(env or {})), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    out = p.stdout.decode('utf-8', 'replace')
    shutil.rmtree(meta, ignore_errors=True)
    r = Tlc(out, p.returncode, time.time() - t)
    if not r.ok and not r.violated:
        raise ToolError('TLC on %s ended with %d:\n%s' % (module, p.returncode, '\n'.join(out.split('\n')[-60:])))
    return r


def write_trace(path, records):
    with open(path, 'w') as f:
        for r in records:
            f.write(json.dumps(r) + '\n')


# --- results ------------------------------------------------------------------------------------------
class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.start = time.time()
        self.work = os.path.join(ROOT, 'work', prop)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.replays = os.path.join(ROOT, 'work', 'replay')
        os.makedirs(self.replays, exist_ok=True)
        self.violations = []
        self.cov = {'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0, 'samples': []}
        self.assumptions = []

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def add_tlc(self, r):
        self.cov['states'] += r.distinct
        self.cov['transitions'] += max(0, r.generated - r.initial)

    def sample(self, x):
        if len(self.cov['samples']) < 5:
            self.cov['samples'].append(x)

    def count(self, key, n=1):
        self.cov[key] = self.cov.get(key, 0) + n

    def violation(self, what, case, kind):
        """case: what is needed to run the case again"""
        n = len(self.violations) + 1
        path = os.path.join(self.replays, '%s-%d.json' % (self.prop, n))
        with open(path, 'w') as f:
            json.dump({'property': self.prop, 'kind': kind, 'what': what, 'case': case}, f, indent=1)
        self.violations.append((what, path))

    def known(self, what):
        print('KNOWN-FINDING: property=%s %s' % (self.prop, what))

    def finish(self):
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': 'model_checking', 'coverage': self.cov,
              'assumptions': self.assumptions, 'wall_s': round(time.time() - self.start, 2), 'violations': len(self.violations)}
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        with open(os.path.join(ROOT, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        shutil.rmtree(self.work, ignore_errors=True)
        for what, path in self.violations[:3]:
            print('VIOLATION property=%s replay=%s' % (self.prop, path))
            print('  ' + json.dumps(what)[:600])
        if not self.violations:
            print('%s holds: %d traces of the implementation, %d states (%.0f s)' % (
                self.prop, self.cov['traces_validated_against_impl'], self.cov['states'], time.time() - self.start))
        return 1 if self.violations else 0

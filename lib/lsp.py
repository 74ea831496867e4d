"""Runs sessions against the real language server and records what comes back.  Nothing is judged here.

A session: {'id', 'form': how URIs are written, 'cwd', 'cli': [dirs], 'init': settings or None, 'disk': [world operations],
            'phases': [{'disk': [...], 'msgs': [...]}]}
The messages of a phase are sent in one write, then the server comes to rest."""
import json
import os
import queue
import shutil
import subprocess
import threading
import time
import urllib.parse

import common

KIND = {'hover': 'textDocument/hover', 'definition': 'textDocument/definition', 'symbols': 'textDocument/documentSymbol'}
SEVERITY = {1: 'error', 2: 'warning', 3: 'information', 4: 'hint'}
FOREIGN = ['untitled:Untitled-1', 'git:/a.dts?x', 'git:@ROOT@/a.dts?rev', 'vscode-vfs://@ROOT@/b.dtsi', 'http://host/a.dts', 'mailto:x']


def ascii_(s):
    return ''.join(c if ' ' <= c <= '~' else '?' for c in s)


def comps(path):
    return [list(os.fsencode(c)) for c in path.split('/') if c]


def uri(path, form=0):
    """The URI of a file.  Clients differ in what they encode."""
    b = os.fsencode(path)
    if form == 1:
        return 'file://' + urllib.parse.quote(b, safe="/!$&'()*+,;=:@")
    if form == 2:
        return 'file://' + ''.join(chr(c) if c == 47 else '%%%02X' % c for c in b)
    if form == 3:
        return 'file://localhost' + ''.join(chr(c) if c in b'/abcdefghijklmnopqrstuvwxyz' else '%%%02x' % c for c in b)
    return 'file://' + urllib.parse.quote(b)


def uri_comps(u):
    p = urllib.parse.urlparse(u)
    return [list(urllib.parse.unquote_to_bytes(c)) for c in p.path.split('/') if c]


def rng(r):
    return [r['start']['line'], r['start']['character'], r['end']['line'], r['end']['character']]


def diag(d):
    k = d.get('code', '')
    m = {'io_error': 'io', 'cyclic_dependency_error': 'cycle'}.get(k) or ascii_(d['message'])
    return {'k': k, 's': rng(d['range']), 'm': m, 'sev': SEVERITY.get(d.get('severity'), '?')}


def symbol(s):
    return {'n': list(s['name'].encode()), 'k': s['kind'], 'd': 1 if s.get('tags') else 0, 'r': rng(s['range']), 's': rng(s['selectionRange']),
            'c': [symbol(c) for c in s.get('children') or []]}


def answer(kind, r):
    if r is None:
        return []
    if kind == 'hover':
        c = r['contents']
        return [list((c if isinstance(c, str) else c['value']).encode())]
    if kind == 'definition':
        rs = r if isinstance(r, list) else [r]
        return [{'f': uri_comps(x['uri']), 's': rng(x['range'])} for x in rs]
    return [[symbol(x) for x in r]]


class Server:
    def __init__(self, binary, cli, cwd):
        cmd = [binary] + [a for d in cli for a in ('-i', d)]
        self.p = subprocess.Popen(cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, cwd=cwd, env=common.ENV)
        self.q = queue.Queue()
        self.view = {}
        self.published = 0
        self.stuck = False
        self.answers = {}
        self.next = 0
        self.last = time.time()
        threading.Thread(target=self.read, daemon=True).start()

    def read(self):
        f = self.p.stdout
        while True:
            n = None
            while True:
                line = f.readline()
                if not line:
                    self.q.put(None)
                    return
                line = line.strip()
                if not line:
                    break
                if line.lower().startswith(b'content-length:'):
                    n = int(line.split(b':')[1])
            self.q.put(json.loads(f.read(n)))

    def frame(self, msg):
        b = json.dumps(dict(msg, jsonrpc='2.0')).encode()
        return b'Content-Length: %d\r\n\r\n' % len(b) + b

    def send(self, msgs):
        try:
            self.p.stdin.write(b''.join(self.frame(m) for m in msgs))
            self.p.stdin.flush()
        except (BrokenPipeError, ValueError):
            pass

    def request(self, method, params):
        self.next += 1
        m = {'id': self.next, 'method': method}
        if params is not None:
            m['params'] = params
        return m

    def take(self, timeout):
        """Handles one message; False when there was none in that time, None at the end."""
        try:
            m = self.q.get(timeout=timeout)
        except queue.Empty:
            return False
        if m is None:
            self.q.put(None)
            return None
        self.last = time.time()
        if m.get('method') == 'textDocument/publishDiagnostics':
            self.published += 1
            self.view[m['params']['uri']] = m['params']['diagnostics']
        elif 'method' in m:
            if 'id' in m:
                self.send([{'id': m['id'], 'result': None}])
        elif 'id' in m:
            self.answers.setdefault(m['id'], []).append(m)
        return True

    def wait(self, ids, timeout):
        end = time.time() + timeout
        while not all(i in self.answers for i in ids):
            left = end - time.time()
            if left <= 0 or self.take(left) is None:
                return False
        return True

    def rest(self, quiet, barriers):
        """Waits until nothing comes any more: some round trips, then silence."""
        for _ in range(barriers):
            m = self.request('verif/barrier', None)
            self.send([m])
            if not self.wait([m['id']], 10):
                self.stuck = True
                return
        while self.take(quiet):
            pass

    def alive(self):
        return self.p.poll() is None

    def stop(self):
        try:
            self.p.stdin.close()
        except OSError:
            pass
        try:
            self.p.wait(3)
        except subprocess.TimeoutExpired:
            self.p.kill()
            self.p.wait()


def apply_world(root, op, sub):
    p = op['p'] if op['p'].startswith('/') else root + '/' + op['p']
    t = sub(op.get('t', ''))
    if op['o'] == 'write':
        with open(p, 'wb') as f:
            f.write(t.encode())
    elif op['o'] == 'bin':
        with open(p, 'wb') as f:
            f.write(b'\xff\xfe/')
    elif op['o'] == 'mkdir':
        os.makedirs(p, exist_ok=True)
    elif op['o'] == 'link':
        os.symlink(t, p)
    elif op['o'] == 'rm':
        if os.path.isdir(p) and not os.path.islink(p):
            shutil.rmtree(p)
        else:
            os.remove(p)


def settings_dirs(v):
    """The include directories in a settings value, as the server reads them."""
    if isinstance(v, list) and len(v) == 1:          # a sequence is accepted in place of the object
        v = {'includes': v[0]}
    if isinstance(v, dict) and isinstance(v.get('includes'), list) and all(isinstance(x, str) for x in v['includes']):
        return v['includes']
    return []


def capabilities(answer_):
    """What the server offers, and so what a client makes use of."""
    c = (answer_.get('result') or {}).get('capabilities') or {}
    sync = c.get('textDocumentSync')
    if not isinstance(sync, dict):
        sync = {'openClose': bool(sync), 'change': sync}
    on = lambda k: bool(c.get(k)) or isinstance(c.get(k), dict)                   # noqa: E731
    return {'openClose': sync.get('openClose'), 'change': sync.get('change') or 0,
            'hover': on('hoverProvider'), 'definition': on('definitionProvider'), 'symbols': on('documentSymbolProvider')}


def place(text, i):
    """The position of the i-th character."""
    before = text[:i].split('\n')
    return {'line': len(before) - 1, 'character': len(before[-1].encode('utf-16-le')) // 2}


def changes(shown, u, texts, kind):
    """The changes that lead to the texts, in the form that the server asked for."""
    out = []
    for t in texts:
        old = shown.get(u)
        if kind == 2 and old is not None and '\r' not in old:
            a = len(os.path.commonprefix([old, t]))
            b = len(os.path.commonprefix([old[a:][::-1], t[a:][::-1]]))
            out.append({'range': {'start': place(old, a), 'end': place(old, len(old) - b)}, 'text': t[a:len(t) - b]})
        else:
            out.append({'text': t})
        shown[u] = t
    return out


BLANK = {'p': [], 'fg': 0, 'ts': [], 'incs': [], 'l': 0, 'c': 0, 'n': 0, 'err': 0, 'r': [], 'view': []}


def run(binary, session, root, quiet=0.03):
    """Plays the session; returns the trace line."""
    shutil.rmtree(root, ignore_errors=True)
    cwd = root + '/' + session['cwd'] if session['cwd'] else root
    os.makedirs(cwd)
    sub = lambda s: common.expand(s.replace('@ROOT@', root))                      # noqa: E731
    raw = lambda s: common.abbreviated(s.replace('@ROOT@', root))                 # noqa: E731
    full = lambda p: p if p.startswith('/') else root + '/' + p                   # noqa: E731
    subval = lambda v: json.loads(sub(json.dumps(v)))                             # noqa: E731
    ops = []

    def world(op):
        apply_world(root, op, sub)
        ops.append(dict(BLANK, o=op['o'], p=comps(full(op['p'])), ts=[raw(op.get('t', ''))]))

    for op in session['disk']:
        world(op)
    srv = Server(binary, [sub(d) for d in session['cli']], cwd)
    died = False
    try:
        init = subval(session.get('init'))
        params = {'capabilities': {}, 'processId': None, 'rootUri': None}
        if init is not None:
            params['initializationOptions'] = init
        m = srv.request('initialize', params)
        srv.send([m])
        srv.wait([m['id']], 10)
        ops.append(dict(BLANK, o='other', n=len(srv.answers.get(m['id'], []))))
        caps = capabilities((srv.answers.get(m['id']) or [{}])[0])
        shown = {}                                   # the texts, as the client has them
        ops.append(dict(BLANK, o='config', incs=[raw(x) for x in settings_dirs(init)]))
        srv.send([{'method': 'initialized', 'params': {}}])
        versions = {}
        for ph in session['phases']:
            for op in ph.get('disk', []):
                world(op)
            out, waiting = [], []
            for msg in ph['msgs']:
                o = dict(BLANK, o=msg['m'])
                if 'u' in msg:
                    if msg['u'].startswith('!'):
                        o['fg'], u = 1, sub(msg['u'][1:])
                    else:
                        o['p'], u = comps(os.path.normpath(full(msg['u']))), uri(full(msg['u']), session.get('form', 0))          # URIs are normalised when they are parsed
                k = msg['m']
                # the versions of a document start anywhere, and only grow while it is open
                if k == 'open':
                    version = versions[u] = (len(ops) * 7919) % 23 - 2
                elif k == 'change':
                    version = versions[u] = versions.get(u, 0) + 1 + len(ops) % 3
                if k == 'open':
                    o['ts'] = [raw(msg['t'])]
                    shown[u] = sub(msg['t'])
                    if caps['openClose']:
                        out.append({'method': 'textDocument/didOpen', 'params': {'textDocument': {'uri': u, 'languageId': 'dts', 'version': version, 'text': sub(msg['t'])}}})
                elif k == 'change':
                    o['ts'] = [raw(t) for t in msg['ts']]
                    if caps['change']:
                        out.append({'method': 'textDocument/didChange', 'params': {'textDocument': {'uri': u, 'version': version},
                                                                                   'contentChanges': changes(shown, u, [sub(t) for t in msg['ts']], caps['change'])}})
                elif k == 'close':
                    shown.pop(u, None)
                    if caps['openClose']:
                        out.append({'method': 'textDocument/didClose', 'params': {'textDocument': {'uri': u}}})
                elif k == 'save':
                    o['o'] = 'note'
                    out.append({'method': 'textDocument/didSave', 'params': {'textDocument': {'uri': u}}})
                elif k == 'config':
                    v = subval(msg['v'])
                    o['incs'] = [list(x.encode()) for x in settings_dirs(v)]
                    out.append({'method': 'workspace/didChangeConfiguration', 'params': {'settings': v}})
                elif k == 'note':
                    out.append({'method': msg['method'], 'params': msg.get('params', {})})
                else:
                    if k in KIND and not caps[k]:
                        ops.append(o)                # no client asks for what is not offered: there is no answer
                        continue
                    if k in KIND:
                        prm = {'textDocument': {'uri': u}}
                        if k != 'symbols':
                            prm['position'] = {'line': msg['l'], 'character': msg['c']}
                            o['l'], o['c'] = min(msg['l'], 2 ** 31 - 1), min(msg['c'], 2 ** 31 - 1)     # as far as TLC can count
                        r = srv.request(KIND[k], prm)
                    else:
                        o['o'] = 'other'
                        r = srv.request(msg['method'], msg.get('params'))
                    out.append(r)
                    waiting.append((o, r['id'], k))
                ops.append(o)
            for part in ([out] if not ph.get('paced') else [[x] for x in out]):
                srv.send(part)
                if ph.get('paced'):
                    srv.rest(0.002, 1)
            if not srv.wait([w[1] for w in waiting], 15):
                srv.stuck = True
            srv.rest(quiet, 4)
            for o, i, k in waiting:
                a = srv.answers.get(i, [])
                o['n'] = len(a)
                if a and 'error' in a[0]:
                    o['err'] = 1
                elif a and k in KIND:
                    o['r'] = answer(k, a[0].get('result'))
            ops.append(dict(BLANK, o='settle', view=[{'p': uri_comps(u), 'ds': [diag(d) for d in ds]} for u, ds in sorted(srv.view.items())]))
            if not srv.alive():
                died = True
            if died or srv.stuck:
                break
        if not died:
            m = srv.request('shutdown', None)
            srv.send([m])
            srv.wait([m['id']], 10)
            ops.append(dict(BLANK, o='other', n=len(srv.answers.get(m['id'], []))))
            died = not srv.alive()
    finally:
        srv.stop()
        shutil.rmtree(root, ignore_errors=True)
    return {'id': session['id'], 'cwd': comps(cwd), 'cli': [raw(d) for d in session['cli']], 'alive': 0 if died else 1, 'ops': ops}, srv.published, died or srv.stuck


def run_all(binary, sessions, work, quiet=0.03, threads=common.CPUS):
    """Plays the sessions, several at a time; returns the trace lines in their order and the number of publications.
    When many sessions ended early, the rest is not played: this fails anyway, and time is short."""
    out = [None] * len(sessions)
    todo = queue.Queue()
    for i in range(len(sessions)):
        todo.put(i)
    errors = []
    count, bad = [0], [0]

    def worker(n):
        while not errors and bad[0] < 24:
            try:
                i = todo.get_nowait()
            except queue.Empty:
                return
            try:
                out[i], k, stuck = run(binary, sessions[i], os.path.join(work, 'w%d' % n, 'root'), quiet)
                count[0] += k
                bad[0] += stuck
            except Exception as e:                    # noqa: BLE001
                errors.append(e)
    ts = [threading.Thread(target=worker, args=(n,)) for n in range(threads)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if errors:
        raise errors[0]
    return [x for x in out if x], count[0]

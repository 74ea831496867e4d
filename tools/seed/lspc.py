"""A minimal client of the language server."""
import json
import queue
import subprocess
import threading
import time


class Client:
    def __init__(self, binary, cwd, args=(), options=None):
        self.p = subprocess.Popen([binary, *args], cwd=cwd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        self.q = queue.Queue()
        self.view, self.answers, self.n = {}, {}, 0
        threading.Thread(target=self.read, daemon=True).start()
        prm = {'capabilities': {}, 'processId': None, 'rootUri': None}
        if options is not None:
            prm['initializationOptions'] = options
        self.ask('initialize', prm)
        self.send(self.note('initialized', {}))

    def read(self):
        while True:
            n = 0
            while True:
                line = self.p.stdout.readline()
                if not line:
                    self.q.put(None)
                    return
                if not line.strip():
                    break
                if line.lower().startswith(b'content-length:'):
                    n = int(line.split(b':')[1])
            self.q.put(json.loads(self.p.stdout.read(n)))

    def note(self, method, params):
        return {'method': method, 'params': params}

    def send(self, *msgs):
        out = b''
        for m in msgs:
            b = json.dumps(dict(m, jsonrpc='2.0')).encode()
            out += b'Content-Length: %d\r\n\r\n' % len(b) + b
        try:
            self.p.stdin.write(out)
            self.p.stdin.flush()
        except BrokenPipeError:
            pass

    def take(self, t):
        try:
            m = self.q.get(timeout=t)
        except queue.Empty:
            return False
        if m is None:
            self.q.put(None)
            return None
        if m.get('method') == 'textDocument/publishDiagnostics':
            self.view[m['params']['uri']] = m['params']['diagnostics']
        elif 'id' in m and 'method' not in m:
            self.answers.setdefault(m['id'], []).append(m)
        return True

    def ask(self, method, params, timeout=10):
        self.n += 1
        i = self.n
        self.send({'id': i, 'method': method, 'params': params})
        end = time.time() + timeout
        while i not in self.answers and time.time() < end:
            if self.take(max(0.01, end - time.time())) is None:
                break
        a = self.answers.get(i)
        return a[0] if a else None

    def rest(self, quiet=0.4):
        while self.take(quiet):
            pass

    def open(self, uri, text):
        return self.note('textDocument/didOpen', {'textDocument': {'uri': uri, 'languageId': 'dts', 'version': 1, 'text': text}})

    def change(self, uri, *texts):
        return self.note('textDocument/didChange', {'textDocument': {'uri': uri, 'version': 2}, 'contentChanges': [{'text': t} for t in texts]})

    def at(self, method, uri, line, col):
        a = self.ask('textDocument/' + method, {'textDocument': {'uri': uri}, 'position': {'line': line, 'character': col}})
        return a and a.get('result')

    def symbols(self, uri):
        a = self.ask('textDocument/documentSymbol', {'textDocument': {'uri': uri}})
        return a and a.get('result')

    def codes(self, uri):
        return sorted(d['code'] for d in self.view.get(uri, []))

    def diags(self, uri):
        return self.view.get(uri, [])

    def stop(self):
        self.p.kill()

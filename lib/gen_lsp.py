"""Generates sessions with the language server."""
import random

import common
import gen
import gen_proj
import lsp

UNKNOWN = [('workspace/symbol', {'query': 'a'}), ('textDocument/references', None), ('foo/bar', {}), ('textDocument/formatting', {'a': 1}),
           ('textDocument/hover', {}), ('textDocument/definition', {'textDocument': {'uri': 'x'}}), ('textDocument/documentSymbol', [1, 2])]
NOTES = [('$/setTrace', {'value': 'off'}), ('textDocument/willSave', {}), ('foo/baz', {}), ('textDocument/didOpen', {'x': 1}), ('textDocument/didChange', {}),
         ('textDocument/didClose', []), ('workspace/didChangeWatchedFiles', {'changes': []}), ('$/cancelRequest', {'id': 99999})]
SETTINGS = [{'includes': ['@ROOT@/inc1']}, {'includes': ['@ROOT@/inc2', '@ROOT@/inc1']}, {'includes': []}, {}, None, 7, 'x', [], {'includes': 'x'}, {'includes': ['nope', 'inc2']},
            {'includes': [1]}, {'other': {'includes': ['@ROOT@/inc1']}}, [['@ROOT@/inc2']], {'includes': ['@ROOT@/d/../inc1', '']}]
NAMES = ['ill\udcff\udc80.dts', 'doc.dts', 'doc.dts', 'doc.dts', 'doc.dts', 'doc.dtsi', 'doc.dtso', 'sp ace.dts', 'é.dts', 'a%b.dts', 'x#y.dts', 'noext', 'new/dir/doc.dts', 'q?r.dts', '+&=.dts']


LONG = ['é' * 128, 'a' + 'é' * 127 + '€', '€' * 86 + 'z', 'x' * 255 + '𝄞', 'y' * 63 + 'é' * 40 + '.dtsi', '𝄞' * 64 + '!', 'n' * 600, 'ab' * 15 + 'ß' * 300, '/' + 'd/' * 200 + 'é']


def far(r):
    return r.choice([(0, 0), (0, 4294967295), (4294967295, 0), (1000000, 3), (0, 9999)])


def position(r, text):
    if r.random() < 0.04:
        return far(r)
    if r.random() < 0.4:
        ps = gen.utf16_positions(text)
        at = [ps[min(i + r.choice([0, 1, 2]), len(ps) - 1)] for i, c in enumerate(text) if c in '&"']
        if at:
            return tuple(r.choice(at))
    return tuple(r.choice(gen.cursor_positions(r, text, 3)))


def long_names(r, t):
    """Long names of many bytes, at the end."""
    x = r.choice(LONG)
    return t + r.choice(['\n/include/ "%s"\n', '\n/ { p = "%s"; };\n', '\n&{/%s} { };\n', '\n/ { p = <&{/%s}>; };\n']) % x


def project_session(r, i, kind):
    files = r.sample(gen_proj.FILES, r.choice([2, 3, 3, 4]))
    if not any(f.endswith('.dts') for f in files):
        files[0] = 'a.dts'
    if r.random() < 0.2:
        files.append(r.choice(['a#b.dtsi', 'd/q?r.dtsi', 'a%20b.dts', '%41.dtsi', 'sp ace.dtsi', 'inc1/é€𝄞.dtsi', '+&=;.dts', "it's(1).dtsi", '[x].dts', 'b^c`|.dtsi', 'a\\b.dtsi', '~.dts']))
    disk = [{'o': 'mkdir', 'p': d} for d in ['d/e', 'inc1', 'inc2']]
    on_disk = []
    texts = {}
    if r.random() < 0.15:
        disk.append({'o': 'link', 'p': r.choice(['d/ln', 'ln', 'inc1/ln']), 't': r.choice(['@ROOT@/inc1', '../inc2', 'inc2', '.', '@ROOT@/d'])})
    if r.random() < 0.15:
        t = r.choice(files)
        disk.append({'o': 'link', 'p': r.choice(['link.dtsi', 'd/link.dtsi', 'inc1/link.dtsi']), 't': r.choice(['@ROOT@/' + t, t, '../' + t, 'link.dtsi'])})
    acyclic = r.random() > 0.08
    order = sorted(files)
    r.shuffle(order)

    def text(f):
        cand = order[order.index(f) + 1:] if acyclic else order
        n = None if cand else 0
        t = gen_proj.content(r, f, cand or ['nope.dtsi'], incs=n, err=0.15)
        if r.random() < 0.1:
            t = gen.bytemutate(r, t, r.choice([1, 2]))
        if r.random() < 0.06:
            t = long_names(r, t)
        return t
    for f in files:
        if r.random() < 0.7:
            t = text(f)
            disk.append({'o': 'write', 'p': f, 't': t})
            on_disk.append(f)
            texts[f] = t
    if r.random() < 0.05:
        disk.append({'o': 'bin', 'p': 'x.dtsi'})
    init = r.choice(SETTINGS) if r.random() < 0.5 else None
    cli = [r.choice(['@ROOT@/inc1', '@ROOT@/inc2', 'inc1', '.', 'nope']) for _ in range(r.choice([0, 0, 0, 1, 2]))]
    phases = []
    for _ in range(r.choice([2, 3, 4, 5])):
        msgs = []
        for _ in range(r.choice([1, 1, 2, 3, 5, 8])):
            f = r.choice(files)
            u = f
            if r.random() < 0.03:
                u = '!' + r.choice(lsp.FOREIGN)
            elif r.random() < 0.05:
                u = r.choice(['link.dtsi', 'd/ln/c.dtsi', 'nope.dts', 'd/../' + f])
            k = r.random()
            if k < 0.28:
                texts[f] = text(f)
                msgs.append({'m': 'open', 'u': u, 't': texts[f]})
            elif k < 0.55:
                ts = [text(f) for _ in range(r.choice([1, 1, 1, 1, 2, 0]))]
                if ts:
                    texts[f] = ts[-1]
                msgs.append({'m': 'change', 'u': u, 'ts': ts})
            elif k < 0.63:
                msgs.append({'m': 'close', 'u': u})
            elif k < 0.66:
                msgs.append({'m': 'save', 'u': u})
            elif k < 0.72:
                msgs.append({'m': 'config', 'v': r.choice(SETTINGS)})
            elif k < 0.78:
                m, p = r.choice(UNKNOWN)
                msgs.append({'m': 'other', 'method': m, 'params': p})
            elif k < 0.81:
                m, p = r.choice(NOTES)
                msgs.append({'m': 'note', 'method': m, 'params': p})
            elif k < 0.87:
                msgs.append({'m': 'symbols', 'u': u})
            else:
                for _ in range(r.choice([1, 1, 3])):
                    l, c = position(r, texts.get(f, 'x'))
                    msgs.append({'m': r.choice(['hover', 'definition']), 'u': u, 'l': l, 'c': c})
        ph = {'msgs': msgs}
        if r.random() < 0.3:
            ph['paced'] = 1
        if r.random() < 0.15:
            f = r.choice(files)
            if f in on_disk and r.random() < 0.4:
                ph['disk'] = [{'o': 'rm', 'p': f}]
                on_disk.remove(f)
            else:
                ph['disk'] = [{'o': 'write', 'p': f, 't': text(f)}]
                if f not in on_disk:
                    on_disk.append(f)
        phases.append(ph)
    if kind == 'C18':
        # at the end, ask everywhere
        msgs = []
        for f in files:
            for _ in range(12):
                l, c = position(r, texts.get(f, 'x'))
                msgs.append({'m': r.choice(['hover', 'definition']), 'u': f, 'l': l, 'c': c})
        last = {'msgs': msgs}
        if r.random() < 0.3:
            # what was read is known, even when the files are gone
            gone = [f for f in on_disk if r.random() < 0.6]
            last['disk'] = [{'o': 'rm', 'p': f} for f in gone]
        phases.append(last)
    return {'id': 's%d' % i, 'cwd': r.choice(['', '', 'd', 'inc1']), 'cli': cli, 'init': init, 'disk': disk, 'phases': phases}


def large_session(r, i, kind):
    """Many files that include each other, and many messages at once."""
    h = gen_proj.large(r, i, kind)
    disk = [o for o in h['ops'] if o['o'] == 'write']
    texts = {o['p']: o['t'] for o in disk}
    if r.random() < 0.3:
        # nothing is saved yet
        gone = r.sample(sorted(texts), r.randrange(len(texts)))
        disk = [o for o in disk if o['p'] not in gone]
    names = sorted(texts)
    msgs = []
    for f in r.sample(names, r.choice([1, 2, len(names)])) if len(names) > 1 else names:
        msgs.append({'m': 'open', 'u': f, 't': texts[f]})
    for _ in range(r.choice([3, 10, 30])):
        f = r.choice(names)
        # texts of other files, too
        t = texts[f] if r.random() < 0.5 else texts[r.choice(names)]
        if r.random() < 0.3:
            t = gen.bytemutate(r, t, 1)
        msgs.append({'m': 'change', 'u': f, 'ts': [t]})
        k = r.random()
        if k < 0.1:
            l, c = position(r, t)
            msgs.append({'m': r.choice(['hover', 'definition']), 'u': f, 'l': l, 'c': c})
        elif k < 0.15:
            msgs.append({'m': 'symbols', 'u': f})
        elif k < 0.25:
            msgs.append({'m': 'close', 'u': f})
    cut = r.randrange(len(msgs) + 1)
    phases = [{'msgs': m} for m in (msgs[:cut], msgs[cut:]) if m]
    return {'id': 'l%d' % i, 'cwd': '', 'cli': [], 'init': None, 'disk': disk, 'phases': phases}


def documents_session(r, i, docs, kind):
    """Documents that are opened one after the other, with requests."""
    disk = [{'o': 'write', 'p': 'inc.dtsi', 't': '/ { inc: included { x: sub { }; }; };'}, {'o': 'mkdir', 'p': 'dd'}]
    phases = []
    for d in docs:
        name = r.choice(NAMES)
        if kind != 'C17' and r.random() < 0.05:
            d = long_names(r, d)
        msgs = [{'m': 'open', 'u': name, 't': d}]
        if kind == 'C17':
            msgs.append({'m': 'symbols', 'u': name})
        else:
            for p in gen.cursor_positions(r, common.expand(d), 10):
                msgs.append({'m': r.choice(['hover', 'definition', 'definition']), 'u': name, 'l': p[0], 'c': p[1]})
        if kind == 'C18':
            # the references
            full = common.expand(d)
            ps = gen.utf16_positions(full)
            at = [ps[k + 1] for k, c in enumerate(full) if c == '&' and k + 1 < len(ps)]
            for p in r.sample(at, min(len(at), 6)):
                msgs.append({'m': r.choice(['hover', 'definition']), 'u': name, 'l': p[0], 'c': p[1]})
        msgs.append({'m': 'close', 'u': name})
        phases.append(msgs)
    # several documents at once
    out = []
    while phases:
        k = r.choice([3, 6, 10])
        out.append({'msgs': [m for p in phases[:k] for m in p]})
        phases = phases[k:]
    return {'id': 'd%d' % i, 'cwd': '', 'cli': [], 'init': None, 'disk': disk, 'phases': out}


def big_session(r, i, texts):
    """Documents with many mistakes, opened, changed and closed."""
    phases = []
    for t in texts:
        u = r.choice(['a.dts', 'b.dtsi'])
        phases.append({'msgs': [{'m': r.choice(['open', 'change']), 'u': u, 't': t, 'ts': [t]}]})
        if r.random() < 0.3:
            phases.append({'msgs': [{'m': 'close', 'u': u}]})
    return {'id': 'b%d' % i, 'cwd': '', 'cli': [], 'init': None, 'disk': [], 'phases': phases}


def docs_text(kind, seed, n):
    return [d['text'] for d in gen.docs(kind, seed, n)]


def sessions(kind, seed, n, ndocs=0):
    r = random.Random('lsp/%s/%s' % (kind, seed))
    out = [project_session(r, i, kind) for i in range(n)]
    out += [large_session(r, i, kind) for i in range(n // 6)]
    if kind in ('C15', 'C16', 'C20'):
        out += [big_session(r, i, [d['text'] for d in gen.big(kind, '%s/%d' % (seed, i), 5)] + [d['marked'] for d in gen.giant(kind, '%s/%d' % (seed, i), 1)]) for i in range(max(4, n // 100))]
    if ndocs:
        ts = docs_text(kind, seed, ndocs) + [d['text'] for d in gen.big(kind, seed, max(40, ndocs // 60))] + [d['marked'] for d in gen.giant(kind, seed, max(12, ndocs // 100))] + [d['text'] for d in gen.wide(kind, seed, max(60, ndocs // 15))]
        r.shuffle(ts)
        per = max(10, min(25, ndocs // 16))
        out += [documents_session(r, i, ts[i * per:(i + 1) * per], kind) for i in range((len(ts) + per - 1) // per)]
    forms = random.Random('form/%s/%s' % (kind, seed))
    for x in out:
        x['form'] = forms.choice([0, 0, 1, 2, 3])
    return out

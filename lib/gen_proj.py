"""Generates histories of project operations."""
import random

import gen

DIRS = ['', 'd', 'inc1', 'inc2', 'd/e']
FILES = ['a.dts', 'b.dtsi', 'c.dtsi', 'd/a.dts', 'd/b.dtsi', 'd/e/c.dtsi', 'inc1/b.dtsi', 'inc1/c.dtsi', 'inc2/c.dtsi', 'inc2/x.dtsi', 'x.dtsi', 'o.dtso', 'y.txt', 'x.dtsi ', 'inc1/ x.dtsi']


class Content(gen.Refs):
    """A file with includes and few labels and nodes."""

    def label(self):
        return self.pick(['a', 'b', 'c', 'd'])

    def nodename(self):
        return self.pick(['a', 'b', 'c'])


def rel_names(r, target, src_dir):
    """Ways to write the include of a file."""
    up = '../' * (len(src_dir.split('/')) if src_dir else 0)
    base = target.split('/')[-1]
    names = [base, base, base, target, up + target, './' + base, 'e/' + base, '../' + base, '@ROOT@/' + target, 'd/../' + base, 'inc1/../' + base, './/' + base, 'ln/' + base,
             target.replace('/', '//'), 'link.dtsi', base + ' ', ' ' + base, 'nope.dtsi', '', 'd', base + '/', './.', 'inc1']
    k = r.random()
    if k < 0.5:
        return up + target
    if k < 0.53:
        return up + target + r.choice([' ', '\t', '.', '/', '\r'])
    if k < 0.7:
        return base
    if k < 0.76:
        return '@ROOT@/' + target
    return r.choice(names)


# items that matter for a rule, put anywhere in a file
ITEMS = {
    'C08': ['/dts-v1/ ;', '/dts-v1/ ;', '/plugin/ ;', '/memreserve/ 1 2 ;', '/ { n { } ; p ; } ;', '/ { /omit-if-no-ref/ p ; } ;', '/ { compatible = <1> , "x" ; } ;', '/delete-node/ &a ;',
            '/omit-if-no-ref/ &a ;', '&a { } ;', '/include/ "x.dtsi" ;', '#include "x.h"', '/ { } ;', '/ { p = <(1> ; } ;'],
    'C09': ['/plugin/ ;', '/plugin/ ;', '/ { p = <&a &b> ; } ;', '/ { p = &c , <&{/a}> ; } ;', '&a { b : b { } ; } ;', '/delete-node/ &a ;', '/omit-if-no-ref/ &b ;', '/ { a : p ; } ;', '&{/a/b} { } ;',
            '/ { c : a { b { } ; } ; } ;'],
    'C10': ['/ { p = <&a &b> ; } ;', '/ { a : b { } ; } ;', '&a { q = &{/b} ; } ;', '/ { b : p ; } ;'],
}


def content(r, path, files, incs=None, err=0.08, size=2, ambient=True, kind=''):
    src_dir = '/'.join(path.split('/')[:-1])
    n = incs if incs is not None else r.choice([0, 1, 1, 2, 2, 3])
    names = [rel_names(r, r.choice(files), src_dir) if isinstance(files[0], str) else None for _ in range(n)]
    d = Content(r, slip=0.0, size=size, depth=2, header=0.0, props=['p', 'q', 'compatible'], plugin=0.02, cinc=0.0)
    toks = []
    body = []
    for _ in range(r.choice([0, 1, 1, 2])):
        d.t = []
        d.primary()
        body.append(list(d.t))
    parts = [['/include/', '"%s"' % nm] for nm in names] + body
    if kind in ITEMS:
        for _ in range(r.choice([0, 0, 1, 1, 2, 3])):
            parts.insert(r.randrange(len(parts) + 1), r.choice(ITEMS[kind]).split())
    if r.random() < 0.3:
        r.shuffle(parts)
    if path.endswith('.dts') and r.random() < 0.92:
        parts.insert(0, ['/dts-v1/', ';'])
    elif r.random() < 0.05:
        parts.insert(r.randrange(len(parts) + 1), ['/dts-v1/', ';'])
    for p in parts:
        toks += p
    if r.random() < err:
        k = r.random()
        if k < 0.3 and ';' in toks:
            toks.remove(';')
        elif k < 0.6:
            toks += ['/', '{', 'compatible', '=', '<', '1', '>', ';', '}', ';']      # only a warning
        elif k < 0.8:
            toks += ['/', '{', 'x' * 32, ';', '}', ';']
        else:
            toks += ['}', ';']
    return gen.layout(r, toks, comments=0.03, compact=0.2)


def questions(r, texts):
    """Positions to ask about: at references and names of includes, and anywhere."""
    at = set()
    for t in texts:
        ps = gen.utf16_positions(t)
        for i, c in enumerate(t):
            if c == '&' or c == '"':
                at.add(ps[min(i + r.choice([0, 1, 1, 2]), len(ps) - 1)])
    at = sorted(at)
    sel = r.sample(at, min(len(at), 28))
    return [list(p) for p in sel] + [[r.randrange(0, 12), r.randrange(0, 24)] for _ in range(8)]


def scenario(r, i, kind):
    files = r.sample(FILES, r.choice([2, 3, 3, 4, 5]))
    if not any(f.endswith('.dts') for f in files):
        files[0] = 'a.dts'
    cwd = r.choice(['', '', 'd', 'inc1'])
    ops = [{'o': 'mkdir', 'p': d} for d in ['d/e', 'inc1', 'inc2']]
    on_disk = []
    # a file where an absolute name would lead, if it were taken relative to a search directory
    if r.random() < 0.15:
        base = r.choice(['inc1', 'inc2', 'd', ''])
        t = r.choice(files)
        far = (base + '/' if base else '') + '@ROOT@/' + t
        if not far.startswith('@'):
            ops.append({'o': 'mkdir', 'p': '/'.join(far.split('/')[:-1])})
            ops.append({'o': 'write', 'p': far, 't': content(r, t, files, incs=0)})
    if r.random() < 0.25:
        ops.append({'o': 'link', 'p': r.choice(['d/ln', 'ln', 'inc1/ln']), 't': r.choice(['@ROOT@/inc1', '../inc2', 'inc2', '.', '@ROOT@/d'])})
    if r.random() < 0.25:
        t = r.choice(files)
        ops.append({'o': 'link', 'p': r.choice(['link.dtsi', 'd/link.dtsi', 'inc1/link.dtsi']), 't': r.choice(['@ROOT@/' + t, t, '../' + t, 'link.dtsi', 'nothing'])})
    cyc = 0.5 if kind == 'C13' else 0.12
    acyclic = r.random() > cyc
    order = sorted(files)
    r.shuffle(order)

    def text(f):
        cand = order[order.index(f) + 1:] if acyclic else order
        if not cand:
            cand, n = ['nope.dtsi'], 0
        else:
            n = None
        return content(r, f, cand, incs=n, kind=kind)
    for f in files:
        if r.random() < 0.9:
            ops.append({'o': 'write', 'p': f, 't': text(f)})
            on_disk.append(f)
    if r.random() < 0.1:
        ops.append({'o': 'bin', 'p': r.choice(['x.dtsi', 'd/b.dtsi', 'inc1/c.dtsi'])})
    if r.random() < 0.5:
        ops.append({'o': 'inc', 'l': [r.choice(['@ROOT@/inc1', '@ROOT@/inc2', 'inc1', '@ROOT@', '../inc2', 'nope', '.', '@ROOT@/d/ln', 'inc2', '']) for _ in range(r.choice([1, 1, 2, 3]))]})
    n = r.choice([1, 2, 3, 4]) if kind in ('C08', 'C09', 'C10', 'C11', 'C12') else r.choice([2, 3, 5, 7])
    for _ in range(n):
        f = r.choice(files)
        k = r.random()
        if k < 0.3 and on_disk:
            g = r.choice(on_disk)
            ops.append({'o': 'file', 'p': r.choice(['@ROOT@/' + g, '@ROOT@/' + g, g, '@ROOT@/d/../' + g, '../' + g])})
        elif k < 0.7:
            ops.append({'o': 'text', 'p': f, 't': text(f), 'ft': r.choice(['', '', '', '', '', 'dts', 'dtsi', 'overlay', 'unknown'])})
        elif k < 0.8:
            ops.append({'o': 'write', 'p': f, 't': text(f)})
            on_disk.append(f)
        elif k < 0.9:
            ops.append({'o': 'remove', 'p': f})
        elif k < 0.95 and on_disk:
            g = r.choice(on_disk)
            ops.append({'o': 'rm', 'p': g})
            on_disk = [x for x in on_disk if x != g]
        else:
            ops.append({'o': 'inc', 'l': [r.choice(['@ROOT@/inc1', '@ROOT@/inc2', '@ROOT@']) for _ in range(r.choice([0, 1, 2]))]})
    if ops[-1]['o'] not in ('text', 'file'):
        f = r.choice(files)
        ops.append({'o': 'text', 'p': f, 't': text(f)})
    q = questions(r, [op['t'] for op in ops if op['o'] in ('write', 'text')]) if kind in ('C10', 'C11', 'C12', 'C14') else []
    return {'id': 'p%d' % i, 'cwd': cwd, 'reps': 2 if kind == 'C14' else 1, 'q': q, 'ops': ops}


def places(r, i, kind):
    """The same names in many directories: which file is included depends on the order of the search."""
    dirs = ['', 'd', 'd/e', 'inc1', 'inc2', 'z', 'A', 'inc1/d']
    bases = r.sample(['b.dtsi', 'c.dtsi', 'd/b.dtsi', 'z.dtsi'], r.choice([1, 2, 2]))
    ops = [{'o': 'mkdir', 'p': x} for x in ['d/e', 'inc1/d', 'inc2', 'z', 'A', 'd/d', 'z/d']]
    if r.random() < 0.3:
        ops.append({'o': 'link', 'p': r.choice(['ln', 'd/ln', 'z/ln']), 't': r.choice(['@ROOT@/inc1', '@ROOT@/d/e', '@ROOT@/A'])})
    files = []
    for base in bases:
        for x in dirs:
            f = (x + '/' if x else '') + base
            if '/'.join(f.split('/')[:-1]) in dirs + ['d/d', 'z/d'] and r.random() < 0.45:
                files.append(f)

    def text(f, n):
        d = Content(r, slip=0.0, size=1, depth=1, header=0.0, props=['p'], plugin=0.0, cinc=0.0)
        toks = ['/dts-v1/', ';'] if f.endswith('.dts') else []
        for _ in range(n):
            b = r.choice(bases)
            toks += ['/include/', '"%s"' % r.choice([b, b, b, b, './' + b, '../' + b, 'ln/' + b, 'ln/../' + b, '@ROOT@/' + b])]
        if r.random() < 0.5:
            d.primary()
        return gen.layout(r, toks + d.t, comments=0.02)

    def search():
        return {'o': 'inc', 'l': [r.choice(['@ROOT@/' + x, x or '.', '@ROOT@/d/../' + x, x + '/'] if r.random() < 0.95 else ['nope', '', '@ROOT@/ln'])
                                  for x in (r.choice(dirs) for _ in range(r.choice([1, 2, 2, 3, 4])))]}
    for f in dict.fromkeys(files):
        ops.append({'o': 'write', 'p': f, 't': text(f, r.choice([0, 0, 0, 1]))})
    mains = ['a.dts', 'd/a.dts', 'z/a.dts']
    for m in mains:
        ops.append({'o': 'write', 'p': m, 't': text(m, r.choice([1, 2, 2, 3]))})
    ops.append(search())
    for _ in range(r.choice([1, 2, 3])):
        m = r.choice(mains)
        k = r.random()
        if k < 0.2:
            ops.append(search())
        elif k < 0.4:
            ops.append({'o': 'text', 'p': m, 't': text(m, r.choice([1, 2]))})
        else:
            ops.append({'o': 'file', 'p': '@ROOT@/' + m})
    if ops[-1]['o'] == 'inc':
        ops.append({'o': 'file', 'p': '@ROOT@/' + r.choice(mains)})
    q = questions(r, [op['t'] for op in ops if op['o'] in ('write', 'text')]) if kind in ('C10', 'C11', 'C12', 'C14') else []
    return {'id': 'd%d' % i, 'cwd': r.choice(['', 'd', 'inc1', 'z']), 'reps': 2 if kind == 'C14' else 1, 'q': q, 'ops': ops}


def ladder(n):
    """Every file includes the next one twice."""
    ops = [{'o': 'write', 'p': 'f%d.dtsi' % x, 't': '/include/ "f%d.dtsi"\n/include/ "f%d.dtsi"\n' % (x + 1, x + 1)} for x in range(n)]
    ops.append({'o': 'write', 'p': 'f%d.dtsi' % n, 't': '/ { x: n { }; };\n'})
    ops.append({'o': 'write', 'p': 'a.dts', 't': '/dts-v1/;\n/include/ "f0.dtsi"\n/ { p = <&x>; };\n'})
    ops.append({'o': 'file', 'p': '@ROOT@/a.dts'})
    return {'id': 'ladder%d' % n, 'cwd': '', 'reps': 1, 'q': [], 'ops': ops}


def shape(r, n):
    """The includes of n files: file -> files, in order."""
    k = r.choice(['chain', 'ring', 'rings', 'tail', 'diamond', 'tree', 'dag', 'any', 'any'])
    e = {i: [] for i in range(n)}
    if k == 'chain':
        for i in range(n - 1):
            e[i].append(i + 1)
    elif k == 'ring':
        for i in range(n):
            e[i].append((i + 1) % n)
    elif k == 'rings':
        m = n // 2
        for i in range(m):
            e[i].append((i + 1) % m)
        for i in range(m, n):
            e[i].append(m + (i + 1 - m) % (n - m))
        if r.random() < 0.5:
            e[r.randrange(m)].append(r.randrange(m, n))
    elif k == 'tail':
        m = r.randrange(1, n)
        for i in range(n - 1):
            e[i].append(i + 1)
        e[n - 1].append(m)
    elif k == 'diamond':
        for i in range(1, n - 1):
            e[0].append(i)
            e[i].append(n - 1)
    elif k == 'tree':
        for i in range(1, n):
            e[(i - 1) // 2].append(i)
    else:
        for i in range(n):
            for j in range(i + 1 if k == 'dag' else 0, n):
                if r.random() < (0.3 if k == 'dag' else 0.2):
                    e[i].append(j)
    if k not in ('dag', 'any') and r.random() < 0.2:
        e[r.randrange(n)].append(r.randrange(n))
    for i in e:
        if r.random() < 0.3:
            r.shuffle(e[i])
        if e[i] and r.random() < 0.05:
            e[i].append(r.choice(e[i]))               # twice
    return e


def large(r, i, kind):
    """Many files on disk that include each other in a regular way; a few are added to the project."""
    n = r.choice([4, 5, 6, 6, 7, 8])
    names = ['f%d.dts%s' % (x, 'i' if x else '') for x in range(n)]
    if r.random() < 0.5:
        r.shuffle(names)
    e = shape(r, n)
    err = r.choice([0, 0, 0.1, 0.3])
    labels = r.choice([['a', 'b', 'c', 'd'], ['l%d' % x for x in range(n)]])

    def text(x, edges):
        d = Content(r, slip=0.0, size=2, depth=2, header=0.0, props=['p', 'q'], plugin=0.0, cinc=0.0, labels=labels)
        toks = ['/dts-v1/', ';'] if names[x].endswith('.dts') else []
        for t in edges:
            toks += ['/include/', '"%s"' % names[t]]
        if r.random() < 0.7:
            d.primary()
        toks += ['/', '{', labels[x % len(labels)] + ':', 'n%d' % x, '{', '}', ';', '}', ';'] + d.t
        if r.random() < 0.3:
            toks += ['/', '{', 'r', '=', r.choice(['&%s' % r.choice(labels), '&{/n%d}' % r.randrange(n)]), ';', '}', ';']
        if r.random() < err:
            toks += r.choice([['}', ';'], ['/', '{', 'p', '=', ';', '}', ';'], ['/', '{', 'compatible', '=', '<', '1', '>', ';', '}', ';'], ['/dts-v1/', ';']])
        return gen.layout(r, toks, comments=0.02, compact=0.2)
    ops = [{'o': 'write', 'p': names[x], 't': text(x, e[x])} for x in range(n) if r.random() < 0.97]
    texts = [o['t'] for o in ops]
    first = True
    for _ in range(r.choice([1, 1, 2, 3])):
        x = 0 if r.random() < 0.6 else r.randrange(n)
        k = r.random()
        if first or k < 0.5:
            ops.append({'o': 'file', 'p': '@ROOT@/' + names[x]} if r.random() < 0.7 else {'o': 'text', 'p': names[x], 't': text(x, e[x])})
        else:
            # an include more or less
            y = r.randrange(n)
            es = [z for z in e[y] if r.random() < 0.6] if r.random() < 0.5 else e[y] + [r.randrange(n)]
            ops.append({'o': 'text', 'p': names[y], 't': text(y, es)})
            texts.append(ops[-1]['t'])
        first = False
    q = questions(r, texts) if kind in ('C10', 'C11', 'C12', 'C14') else []
    return {'id': 'l%d' % i, 'cwd': '', 'reps': 2 if kind == 'C14' else 1, 'q': q, 'ops': ops}


def histories(kind, seed, n):
    r = random.Random('%s/%s' % (kind, seed))
    out = [scenario(r, i, kind) for i in range(n)]
    share = {'C11': 0.05}.get(kind, 0.3)
    out += [places(r, i, kind) for i in range(int(n * {'C11': 0.4, 'C14': 0.1}.get(kind, 0.05)))]
    return out + [large(r, i, kind) for i in range(int(n * share))]

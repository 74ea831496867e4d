"""Checks of the command line tool: recorded runs are judged by spec/CheckCli.tla."""
import os
import queue
import random
import re
import shutil
import subprocess
import threading

import common
import gen
import gen_proj
import lsp

# property -> (documents of the specification, projects, random documents)
PLAN = {'C19': dict(quick=(({'item': 2, 'value': 2, 'file': 2, 'items': 2}, 2500), 1500, 5000), thorough=(({'item': 3, 'value': 3, 'file': 3, 'items': 3}, 20000), 6000, 15000))}

NAMES = ['doc.dts', 'doc.dts', 'doc.dts', 'doc.dtsi', 'doc.dtso', 'noext', 'sp ace.dts', 'é𝄞.dts', 'a:1:2.dts', 'x --> y.dts']
HEAD = re.compile(rb'(\w+) --> (.*):(\d+):(\d+)', re.S)
MARK = re.compile(rb'( *\| [ \t\r\x0c]*\^*) (.*)', re.S)


def parse_report(out):
    """The blocks of a report, and the number of pieces that are not blocks."""
    blocks, junk = [], 0
    pieces = []
    for piece in out.split(b'\n\n'):
        if not piece.strip(b'\n'):
            continue
        if HEAD.match(piece.lstrip(b'\n')) or not pieces:
            pieces.append(piece.lstrip(b'\n'))
        else:
            pieces[-1] += b'\n\n' + piece           # a message quotes a name with line breaks
    for piece in pieces:
        ls = piece.split(b'\n', 3)
        h = HEAD.fullmatch(ls[0])
        k = MARK.fullmatch(ls[3]) if len(ls) == 4 else None
        if not h or not k:
            junk += 1
            continue
        blocks.append({'sev': h.group(1).decode(), 'p': [list(c) for c in h.group(2).split(b'/') if c], 'l': int(h.group(3)), 'c': int(h.group(4)), 'pad': list(ls[1]),
                       'src': list(ls[2]), 'mark': list(k.group(1)), 'm': lsp.ascii_(k.group(2).decode('utf-8', 'replace'))})
    return blocks, junk


def arguments(r_form, name, incs):
    a = []
    for i, d in enumerate(incs):
        f = (r_form + i) % 3
        a += ['-i', d] if f == 0 else ['--include', d] if f == 1 else ['--include=' + d]
    return [name] + a if r_form % 2 else a + [name]


def play(binary, scenario, root):
    shutil.rmtree(root, ignore_errors=True)
    cwd = root + '/' + scenario['cwd'] if scenario['cwd'] else root
    os.makedirs(cwd)
    sub = lambda s: s.replace('@ROOT@', root)                                     # noqa: E731
    ops = []
    for op in scenario['ops']:
        blank = {'o': op['o'], 'p': [], 'n': [], 'incs': [], 'code': 0, 'ok': 0, 'blocks': [], 'junk': 0}
        if op['o'] != 'run':
            lsp.apply_world(root, op, sub)
            p = op['p'] if op['p'].startswith('/') else root + '/' + op['p']
            ops.append(dict(blank, p=lsp.comps(p), n=list(sub(op.get('t', '')).encode())))
            continue
        incs = [sub(x) for x in op['incs']]
        name = sub(op['n'])
        try:
            pr = subprocess.run([binary] + arguments(op['form'], name, incs), cwd=cwd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                                env=common.ENV, timeout=20)
            code, out = pr.returncode, pr.stdout
        except subprocess.TimeoutExpired:
            code, out = 999, b''
        ok = 1 if b'OK; No issues found' in out.split(b'\n') else 0
        if ok and out == b'OK; No issues found\n':
            out = b''
        blocks, junk = parse_report(out)
        ops.append(dict(blank, n=list(name.encode()), incs=[list(x.encode()) for x in incs], code=code, ok=ok, blocks=blocks, junk=junk))
    shutil.rmtree(root, ignore_errors=True)
    return {'id': scenario['id'], 'cwd': lsp.comps(cwd), 'ops': ops}


def play_all(binary, scenarios, work):
    out = [None] * len(scenarios)
    todo = queue.Queue()
    for i in range(len(scenarios)):
        todo.put(i)
    errors = []

    def worker(n):
        while not errors:
            try:
                i = todo.get_nowait()
            except queue.Empty:
                return
            try:
                out[i] = play(binary, scenarios[i], os.path.join(work, 'w%d' % n, 'root'))
            except Exception as e:                    # noqa: BLE001
                errors.append(e)
    ts = [threading.Thread(target=worker, args=(n,)) for n in range(common.CPUS)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if errors:
        raise errors[0]
    return out


def project_scenario(r, i):
    files = r.sample(gen_proj.FILES, r.choice([1, 2, 3, 3, 4]))
    if not any(f.endswith('.dts') for f in files):
        files[0] = 'a.dts'
    ops = [{'o': 'mkdir', 'p': d} for d in ['d/e', 'inc1', 'inc2']]
    acyclic = r.random() > 0.08
    order = sorted(files)
    r.shuffle(order)
    # most files are free of problems, so that success is as frequent as failure
    clean = r.random() < 0.5
    if r.random() < 0.2:
        t = r.choice(files)
        ops.append({'o': 'link', 'p': r.choice(['link.dtsi', 'd/link.dtsi', 'link.dts']), 't': r.choice(['@ROOT@/' + t, t, '../' + t, 'link.dtsi'])})
    for f in files:
        if r.random() < 0.06:
            continue
        cand = order[order.index(f) + 1:] if acyclic else order
        if clean:
            src_dir = '/'.join(f.split('/')[:-1])
            up = '../' * (len(src_dir.split('/')) if src_dir else 0)
            t = ('/dts-v1/;\n' if f.endswith('.dts') or r.random() < 0.3 and not cand else '') + ''.join('/include/ "%s"\n' % (up + x) for x in cand if r.random() < 0.6)
            t += r.choice(['', '/ { a { p = <1>; }; };', '/ { p = "s", [00 11]; x: n@1 { q; }; };\n', '/* c */\r\n'])
        else:
            t = gen_proj.content(r, f, cand or ['nope.dtsi'], incs=None if cand else 0, err=0.2)
            if r.random() < 0.1:
                t = gen.bytemutate(r, t, 1)
        ops.append({'o': 'write', 'p': f, 't': t})
    if r.random() < 0.06:
        ops.append({'o': 'bin', 'p': r.choice(['x.dtsi', 'a.dts'])})
    cwd = r.choice(['', '', '', 'd', 'inc1'])
    up = '../' if cwd else ''
    for _ in range(r.choice([1, 2, 3])):
        f = r.choice(files) if not clean else order[0]
        name = r.choice(['@ROOT@/' + f, up + f, up + f, up + 'd/../' + f, f, 'link.dtsi', up + 'd', 'nope.dts']) if r.random() < 0.4 else up + f
        incs = [r.choice(['@ROOT@/inc1', '@ROOT@/inc2', 'inc1', '.', 'nope', '@ROOT@', '']) for _ in range(r.choice([0, 0, 0, 1, 2]))]
        ops.append({'o': 'run', 'n': name, 'incs': incs, 'form': r.randrange(6)})
    return {'id': 'p%d' % i, 'cwd': cwd, 'ops': ops}


def document_scenario(r, i, texts):
    ops = [{'o': 'write', 'p': 'inc.dtsi', 't': '/ { inc: included { x: sub { }; }; };'}]
    for t in texts:
        name = r.choice(NAMES)
        if r.random() < 0.15:
            # far down, so that line numbers have several digits
            t = '\n' * r.choice([8, 9, 10, 98, 99, 100, 998]) + t
        ops += [{'o': 'write', 'p': name, 't': t}, {'o': 'run', 'n': name, 'incs': [], 'form': r.randrange(6)}]
    return {'id': 'd%d' % i, 'cwd': '', 'ops': ops}


def scenarios(seed, nproj, docs):
    r = random.Random('cli/%s' % seed)
    out = [project_scenario(r, i) for i in range(nproj)]
    per = 20
    out += [document_scenario(r, i, docs[i * per:(i + 1) * per]) for i in range((len(docs) + per - 1) // per)]
    return out


def judge(ck, items, prop):
    binary = os.path.join(common.build_bins(), 'ginko')
    lines = play_all(binary, items, ck.work)
    trace = os.path.join(ck.work, 'cli.ndjson')
    common.write_trace(trace, lines)
    res = common.tlc('CheckCli', ck.work, env={'TRACE': trace, 'PROP': prop})
    ck.add_tlc(res)
    ck.count('traces_validated_against_impl', len(lines))
    runs = [o for x in lines for o in x['ops'] if o['o'] == 'run']
    ck.count('runs_of_the_tool', len(runs))
    ck.count('runs_with_success', sum(o['code'] == 0 for o in runs))
    ck.count('blocks_reported', sum(len(o['blocks']) for o in runs))
    by_id = {s['id']: s for s in items}
    fails = {}
    for e in res.emitted:
        fails.setdefault(e['id'], e)
    if res.violated and not fails:
        raise common.ToolError('TLC rejects the trace without a reason:\n' + res.out[-3000:])
    for i in sorted(fails):
        e = fails[i]
        s = by_id[i]
        k = e['step']
        # the world and the run in question
        small = dict(s, ops=[o for o in s['ops'][:k - 1] if o['o'] != 'run'] + [s['ops'][k - 1]])
        ck.violation({'runs': small['ops'][-3:], 'cwd': s['cwd'], 'why': e['why']}, small, 'cli')
    return lines


def run(ck):
    import docs_check
    prop = ck.prop
    (lens, limit), nproj, ndocs = PLAN[prop][ck.tier]
    r = random.Random(ck.seed)
    small = [d['text'] for d in docs_check.enumerate_docs(ck, lens, False)]
    if len(small) > limit:
        small = r.sample(small, limit)
    docs = small + [d['text'] for d in gen.docs(prop, ck.seed, ndocs) + gen.big(prop, ck.seed, 240 if ck.thorough else 60) + gen.wide(prop, ck.seed, 2000 if ck.thorough else 300)]
    r.shuffle(docs)
    items = scenarios(ck.seed, nproj, docs)
    judge(ck, items, prop)
    for s in r.sample(items[:nproj], 2):
        ck.sample({'scenario': s['ops'], 'cwd': s['cwd']})
    return ck.finish()


def replay(case, prop):
    ck = common.Check(prop, 'quick', 1)
    judge(ck, [case], prop)
    return ck.finish()

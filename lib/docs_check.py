"""Checks of single documents: every document is given to the implementation, what comes out is judged by
spec/CheckDocs.tla.  Documents come from two sources: all small token sequences in the contexts of
spec/MC_Docs.tla, enumerated by TLC, and random grammar-directed documents."""
import json
import os
import random

import common
import findings
import gen

# property -> (contexts and number of tokens, random documents, cursor queries) for both tiers
PLAN = {
    'C01': dict(quick=({'chars': 4, 'top': 3, 'item': 3, 'value': 3, 'cells': 2, 'bytes': 3, 'name': 3, 'path': 3, 'file': 2}, 20000, 3),
                thorough=({'chars': 5, 'top': 4, 'item': 4, 'value': 4, 'cells': 4, 'bytes': 4, 'name': 4, 'path': 4, 'file': 3}, 150000, 4)),
    'C02': dict(quick=({'chars': 3, 'top': 2, 'item': 3, 'value': 3, 'name': 2, 'path': 3, 'items': 2}, 24000, 0),
                thorough=({'chars': 4, 'top': 3, 'item': 4, 'value': 4, 'name': 4, 'path': 4, 'items': 4}, 120000, 0)),
    'C03': dict(quick=({'chars': 4, 'top': 3, 'item': 3, 'value': 3, 'cells': 2, 'bytes': 2, 'name': 2, 'path': 3}, 20000, 0),
                thorough=({'chars': 5, 'top': 4, 'item': 4, 'value': 4, 'cells': 4, 'bytes': 4, 'name': 4, 'path': 4}, 80000, 0)),
    'C04': dict(quick=({'chars': 3, 'top': 3, 'item': 3, 'items': 3, 'value': 3, 'cells': 3, 'bytes': 3, 'name': 3, 'path': 3, 'file': 3}, 20000, 0),
                thorough=({'chars': 4, 'top': 4, 'item': 4, 'items': 4, 'value': 4, 'cells': 4, 'bytes': 4, 'name': 4, 'path': 4, 'file': 4}, 80000, 0)),
    'C05': dict(quick=({'top': 2, 'item': 3, 'items': 3, 'value': 3, 'cells': 2, 'bytes': 2, 'file': 3, 'path': 2}, 24000, 0),
                thorough=({'top': 3, 'item': 4, 'items': 4, 'value': 4, 'cells': 4, 'bytes': 4, 'file': 4, 'path': 4}, 120000, 0)),
    'C06': dict(quick=({'item': 3, 'items': 3, 'top': 2, 'value': 2}, 24000, 0),
                thorough=({'item': 4, 'items': 4, 'top': 4, 'value': 4}, 150000, 0)),
    'C07': dict(quick=({'name': 4, 'path': 4, 'cells': 2}, 24000, 0),
                thorough=({'name': 5, 'path': 5, 'cells': 3}, 150000, 0)),
    'C08': dict(quick=({'items': 3, 'file': 3, 'top': 2}, 24000, 0),
                thorough=({'items': 4, 'file': 4, 'top': 3, 'item': 4}, 150000, 0)),
    'C09': dict(quick=({'items': 3, 'file': 3, 'refs': 3}, 24000, 0),
                thorough=({'items': 4, 'file': 4, 'refs': 4}, 150000, 0)),
    'C10': dict(quick=({'refs': 2, 'items': 2}, 10000, 30),
                thorough=({'refs': 3, 'items': 3}, 50000, 60)),
    'C20': dict(quick=({'items': 2, 'file': 2, 'name': 2}, 12000, 0),
                thorough=({'items': 3, 'file': 3, 'name': 4, 'top': 3}, 80000, 0)),
    'C21': dict(quick=({'lit': 4, 'bytes': 3, 'str': 4}, 20000, 0),
                thorough=({'lit': 5, 'bytes': 4, 'str': 5}, 150000, 0)),
    'C22': dict(quick=({'layout': 3, 'chars': 3}, 24000, 0),
                thorough=({'layout': 4, 'chars': 4}, 150000, 0)),
    'C23': dict(quick=({'top': 3, 'item': 3, 'value': 3, 'cells': 2, 'bytes': 2}, 24000, 0),
                thorough=({'top': 4, 'item': 4, 'value': 4, 'cells': 4, 'bytes': 4}, 120000, 0)),
}

# the properties that look at the syntax tree
TREES = {'C02', 'C05', 'C06', 'C21', 'C22', 'ALL'}
DIR = '/nowhere/d/doc.'
NODE = {'k': 'none', 's': [0, 0, 0, 0], 'v': [], 'c': []}


def comps(path):
    return [list(c.encode()) for c in path.split('/') if c]


def dead(item, how):
    return {'id': item['id'], 't': list(item['text'].encode()), 'f': comps(item['name']), 'g': item.get('grp', -1), 'p': 1, 'pm': how, 'ok': 0, 'tree': NODE,
            'ds': [], 'q': [], 'pl': 0, 'files': 0}


def enumerate_docs(ck, lens, lemmas):
    """All small documents, from the specification."""
    path = os.path.join(ck.work, 'lens.json')
    with open(path, 'w') as f:
        f.write(json.dumps(lens) + '\n')
    r = common.tlc('MC_Docs', ck.work, env={'LENS': path, 'EMIT': '1', 'LEMMAS': '1' if lemmas else '0'})
    if not r.ok:
        raise common.ToolError('a lemma about the specification does not hold:\n' + '\n'.join(r.out.split('\n')[-40:]))
    ck.add_tlc(r)
    seen, out = set(), []
    for d in r.emitted:
        if d['t'] not in seen:
            seen.add(d['t'])
            out.append({'id': 'e%d' % len(out), 'name': DIR + 'dts', 'text': d['t'], 'q': []})
    ck.count('documents_enumerated', len(out))
    return out


def nesting(n, what):
    o, c = {'node': ('a { ', '}; '), 'paren': ('(', ')')}[what]
    if what == 'paren':
        return '/dts-v1/; / { p = <' + o * n + c * n + '>; };'
    return '/dts-v1/; / { ' + o * n + c * n + '};'


def stress(r):
    """Long and unusual documents."""
    out = []
    for n in (20, 100, 150):
        out.append(nesting(n, 'node'))
        out.append(nesting(n * 10, 'paren'))
        out.append(nesting(n, 'node')[:-n])
    out.append('/dts-v1/;\n' + '/ { a = <1>; };\n' * 500)
    out.append('/dts-v1/; / { a = "' + 'x' * 20000 + '"; };')
    out.append('/dts-v1/; / { ' + 'x' * 5000 + '; };')
    out.append('/dts-v1/; / { a = <' + '1 ' * 5000 + '>; };')
    out.append('/' * 1000)
    out.append('/*' * 1000)
    out.append('&' * 300)
    out.append('"' * 301)
    for _ in range(2000):
        out.append(''.join(chr(r.choice([r.randrange(128), r.randrange(32, 127), r.choice([47, 42, 59, 123, 125, 34, 92, 38, 60, 62, 10]), r.randrange(0xa0, 0xd7ff), r.randrange(0x10000, 0x10ffff)]))
                           for _ in range(r.choice([1, 3, 8, 30]))))
    return out


def judge(ck, docs, prop, stop=False):
    """Runs the documents and judges the observations; returns the observations."""
    binary = common.build_harness()
    obs = common.run_shards(binary, 'docs', docs, os.path.join(ck.work, 'h'), dead=dead)
    by_id = {d['id']: d for d in docs}
    assert len(by_id) == len(docs)
    for o in obs:
        if 'abbr' in by_id[o['id']]:
            o['t'] = by_id[o['id']]['abbr']
    trace = os.path.join(ck.work, 'trace.ndjson')
    slim = prop not in TREES
    common.write_trace(trace, [dict(o, tree=NODE) for o in obs] if slim else obs)
    r = common.tlc('CheckDocs', ck.work, env={'TRACE': trace, 'PROP': prop})
    ck.add_tlc(r)
    ck.count('traces_validated_against_impl', len(obs))
    fails = {}
    for e in r.emitted:
        fails.setdefault(e['id'], []).append(e['why'])
    if r.violated and not fails:
        raise common.ToolError('TLC rejects the trace without a reason:\n' + r.out[-3000:])
    for i in sorted(fails):
        ck.violation({'document': by_id[i]['text'][:300], 'why': fails[i][0]}, by_id[i], 'docs')
    return obs


def run(ck):
    prop = ck.prop
    lens, n, nq = PLAN[prop][ck.tier]
    docs = enumerate_docs(ck, lens, prop in ('C03', 'C04') or ck.thorough)
    if prop == 'C22':
        for d in docs:
            d['grp'] = -1
    if prop == 'C10':
        r = random.Random('q%s' % ck.seed)
        for d in docs:
            d['q'] = gen.cursor_positions(r, d['text'], 12)
    rand = gen.docs(prop, ck.seed, n, nq) + gen.big(prop, ck.seed, 240 if ck.thorough else 40, min(nq, 20)) + gen.giant(prop, ck.seed, 120 if ck.thorough else 16, min(nq, 20))
    rand += gen.odd(prop, ck.seed, 3000 if ck.thorough else 300) + gen.wide(prop, ck.seed, 6000 if ck.thorough else 600, min(nq, 20))
    if prop == 'C01':
        r = random.Random('s%s' % ck.seed)
        rand += [{'id': 's%d' % i, 'name': r.choice(gen.NAMES), 'text': t, 'q': [[0, 0], [0, 7]]} for i, t in enumerate(stress(r))]
    ck.count('documents_generated', len(rand))
    if prop == 'C22':
        # groups stay together: the shards interleave the documents, but their order is restored
        docs = docs + rand
    else:
        docs = docs + rand
    obs = judge(ck, docs, prop)
    kinds = {}
    for o in obs:
        for k in {d['k'] for d in o['ds']}:
            kinds[k] = kinds.get(k, 0) + 1
    ck.cov['documents_with_diagnostic'] = dict(sorted(kinds.items()))
    ck.cov['documents_parsed'] = sum(o['ok'] for o in obs)
    ck.cov['cursor_queries'] = sum(len(o['q']) for o in obs)
    r = random.Random(ck.seed)
    for d in r.sample(rand, min(3, len(rand))):
        ck.sample({'document': d['text'][:400]})
    for d in r.sample(docs[:len(docs) - len(rand)] or rand, 2):
        ck.sample({'document': d['text'][:400]})
    if prop == 'C01':
        deep(ck)
        projects(ck)
    if prop == 'C20':
        front_ends(ck)
    if prop in ('C08', 'C09', 'C10'):
        included(ck)
    findings.run(ck)
    return ck.finish()


def projects(ck):
    """Histories with files that include each other."""
    import gen_proj
    import proj_check
    runs = [(2, 3, 0, 6000)] if ck.thorough else []
    items = proj_check.model_histories(ck, runs)
    for k in ('C11', 'C13', 'C14'):
        more = gen_proj.histories(k, 'C01/%s' % ck.seed, 3000 if ck.thorough else 250)
        items += [dict(it, id='%s.%s' % (k, it['id']), reps=1) for it in more]
    items += [gen_proj.ladder(n) for n in (3, 12, 30)]
    proj_check.judge(ck, items, 'C01')


def included(ck):
    """The same rules in files that include each other."""
    import gen_proj
    import proj_check
    items = [dict(it, id='%s.%s' % (ck.prop, it['id'])) for it in gen_proj.histories(ck.prop, ck.seed, 8000 if ck.thorough else 1000)]
    ck.count('histories_generated', len(items))
    proj_check.judge(ck, items, ck.prop)


def front_ends(ck):
    """The severities that the language server and the command line tool show."""
    import cli_check
    import gen_lsp
    import lsp_check
    big = 20 if ck.thorough else 1
    sessions = gen_lsp.sessions('C20', ck.seed, 80 * big, 600 * big)
    lsp_check.judge(ck, sessions, 'C20')
    cli_check.judge(ck, cli_check.scenarios(ck.seed, 150 * big, [d['text'] for d in gen.docs('C20', ck.seed + 1, 800 * big)]), 'C20')


def deep(ck, cases=(('node', 100000), ('paren', 100000))):
    """Nesting that is deep enough exhausts the stack, which is a recorded finding for the listed inputs."""
    binary = common.build_harness()
    for kind, n in cases:
        items = [{'id': 'deep', 'name': DIR + 'dts', 'text': nesting(n, kind), 'q': []}]
        o = common.run_shards(binary, 'docs', items, os.path.join(ck.work, 'deep'), shards=1, limit_s=60, dead=dead)
        ck.count('traces_validated_against_impl')
        if o[0]['p']:
            key = 'nesting:%s:%d' % (kind, n)
            text = common.known_finding('C01', key)
            if text:
                ck.known('%s (%s)' % (text, o[0]['pm']))
            else:
                ck.violation({'nesting': key, 'why': o[0]['pm']}, {'nesting': [kind, n]}, 'deep')


def replay(case, prop):
    if 'finding' in case:
        return findings.replay(case, prop)
    ck = common.Check(prop, 'quick', 1)
    if 'nesting' in case:
        deep(ck, [case['nesting']])
        return ck.finish()
    judge(ck, [case], prop)
    return ck.finish()

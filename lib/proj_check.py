"""Checks of project histories: what the library shows after every operation is judged by spec/CheckProject.tla."""
import json
import os
import random

import common
import findings
import gen_proj

# property -> (runs of the model: (operations, includes per file, files with errors, histories to replay), random histories)
GRAPHS, CHANGES, ERRORS = (1, 3, 0), (3, 1, 0), (1, 2, 1)
ALL = 10 ** 9
PLAN = {
    'C11': dict(quick=([], 3000), thorough=([GRAPHS + (ALL,)], 12000)),
    'C12': dict(quick=([ERRORS + (600,)], 2200), thorough=([(2, 3, 1, 20000), CHANGES + (20000,)], 12000)),
    'C13': dict(quick=([GRAPHS + (ALL,)], 1800), thorough=([(2, 3, 0, ALL), CHANGES + (20000,)], 6000)),
    'C14': dict(quick=([(2, 1, 0, 700)], 1800), thorough=([(3, 1, 1, 20000), (2, 3, 0, 20000)], 10000)),
}


def model_histories(ck, runs):
    """The histories of MC_Project, whose lemmas are checked on the way."""
    r = random.Random(ck.seed)
    items = []
    for depth, fan, errs, limit in runs:
        res = common.tlc('MC_Project', ck.work, env={'DEPTH': str(depth), 'FAN': str(fan), 'ERRS': str(errs), 'LEMMAS': '1', 'EMIT': '1'})
        if res.violated:
            raise common.ToolError('a lemma about the specification fails:\n' + res.out[-3000:])
        ck.add_tlc(res)
        got = sorted(res.emitted, key=lambda e: json.dumps(e, sort_keys=True))
        ck.count('histories_of_the_model', len(got))
        if len(got) > limit:
            got = r.sample(got, limit)
        for e in got:
            ops = [{'o': 'write', 'p': f + '.dts', 't': t} for f, t in sorted(e['disk'].items())]
            for o in e['ops']:
                ops.append({'o': 'file', 'p': '@ROOT@/' + o['p']} if o['o'] == 'file' else {'o': o['o'], 'p': o['p'], 't': o['t']} if o['o'] == 'text'
                           else {'o': 'remove', 'p': o['p']})
            items.append({'id': 'm%d' % len(items), 'cwd': '', 'reps': 1, 'q': [[x, y] for x in range(1, 5) for y in (3, 10, 20, 24, 30)], 'ops': ops})
    ck.count('model_histories_replayed', len(items))
    return items


def comps(path):
    return [list(c.encode()) for c in path.split('/') if c]


def to_trace(item, obs, root):
    """The operations in the form the specification reads, with what was observed."""
    ops = []
    for op in item['ops']:
        p = op.get('p', '').replace('@ROOT@', root)
        t = op.get('t', '').replace('@ROOT@', root)
        full = p if p.startswith('/') else root + '/' + p
        ops.append({'o': op['o'], 'p': comps(full) if op['o'] != 'file' else [], 'n': list(p.encode()), 't': list(t.encode()), 'ft': op.get('ft', ''),
                    'l': [list(x.replace('@ROOT@', root).encode()) for x in op.get('l', [])]})
    return {'id': item['id'], 'cwd': comps(root + '/' + item['cwd']), 'p': obs['p'], 'runs': obs['runs'], 'ops': ops}


def dead(item, how):
    return {'id': item['id'], 'p': 1, 'pm': how, 'runs': [], 'root': '/x'}


def judge(ck, items, prop):
    binary = common.build_harness()
    obs = common.run_shards(binary, 'proj', items, os.path.join(ck.work, 'h'), dead=dead)
    by_id = {d['id']: d for d in items}
    lines = []
    for o in obs:
        it = by_id[o['id']]
        if o['p']:
            # nothing was observed: judged right here, since there is no step to judge
            ck.violation({'history': it['ops'], 'why': 'panic: ' + o.get('pm', '')}, it, 'proj')
            continue
        lines.append(to_trace(it, o, o['root']))
    trace = os.path.join(ck.work, 'trace.ndjson')
    common.write_trace(trace, lines)
    r = common.tlc('CheckProject', ck.work, env={'TRACE': trace, 'PROP': prop})
    ck.add_tlc(r)
    ck.count('traces_validated_against_impl', len(lines))
    fails = {}
    for e in r.emitted:
        fails.setdefault(e['id'], []).append(e)
    if r.violated and not fails:
        raise common.ToolError('TLC rejects the trace without a reason:\n' + r.out[-3000:])
    for i in sorted(fails):
        e = fails[i][0]
        ck.violation({'history': by_id[i]['ops'], 'step': e['step'], 'why': e['why']}, by_id[i], 'proj')
    return obs


def run(ck):
    prop = ck.prop
    runs, n = PLAN[prop][ck.tier]
    items = model_histories(ck, runs) + gen_proj.histories(prop, ck.seed, n)
    ck.count('histories_generated', len(items))
    obs = judge(ck, items, prop)
    kinds = {}
    nfiles = 0
    for o in obs:
        for run_ in o['runs'][:1]:
            for s in run_[-1:]:
                nfiles += len(s['files'])
                for k in {d['k'] for f in s['files'] for d in f['ds']}:
                    kinds[k] = kinds.get(k, 0) + 1
    ck.cov['histories_ending_with_diagnostic'] = dict(sorted(kinds.items()))
    ck.cov['files_in_final_projects'] = nfiles
    for it in random.Random(ck.seed).sample(items, min(3, len(items))):
        ck.sample({'history': it['ops'], 'cwd': it['cwd']})
    findings.run(ck)
    return ck.finish()


def replay(case, prop):
    if 'finding' in case:
        return findings.replay(case, prop)
    ck = common.Check(prop, 'quick', 1)
    judge(ck, [case], prop)
    return ck.finish()

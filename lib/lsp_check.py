"""Checks of the language server: recorded sessions are judged by spec/CheckServer.tla."""
import json
import os
import random

import common
import gen_lsp
import lsp

# property -> (runs of the model: (messages, sessions to replay), random sessions, documents)
PLAN = {
    'C15': dict(quick=(3, 500, 800, 0), thorough=(4, 20000, 6000, 0)),
    'C16': dict(quick=(0, 0, 800, 2000), thorough=(4, 10000, 6000, 5000)),
    'C17': dict(quick=(0, 0, 120, 8000), thorough=(0, 0, 500, 30000)),
    'C18': dict(quick=(0, 0, 400, 3000), thorough=(0, 0, 2500, 15000)),
}
CONFIRM_QUIET = 1.5


def judge_lines(ck, lines, prop):
    """TLC's verdict on recorded sessions: id -> first reason."""
    trace = os.path.join(ck.work, 'trace.ndjson')
    common.write_trace(trace, lines)
    r = common.tlc('CheckServer', ck.work, env={'TRACE': trace, 'PROP': prop})
    ck.add_tlc(r)
    fails = {}
    for e in r.emitted:
        fails.setdefault(e['id'], e)
    if r.violated and not fails:
        raise common.ToolError('TLC rejects the trace without a reason:\n' + r.out[-3000:])
    return fails


def judge(ck, sessions, prop):
    binary = os.path.join(common.build_bins(), 'ginko_ls')
    lines, published = lsp.run_all(binary, sessions, ck.work)
    ck.count('traces_validated_against_impl', len(lines))
    ck.count('messages_sent', sum(1 for x in lines for o in x['ops'] if o['o'] not in ('write', 'mkdir', 'bin', 'link', 'rm', 'settle')))
    ck.count('publications_received', published)
    fails = judge_lines(ck, lines, prop)
    by_id = {s['id']: s for s in sessions}
    # A server that was merely slow is no violation: what failed is played again, with all the time in the world.
    # Races do not show every time, so it is played several times.
    first = sorted(fails)[:6]
    again = [dict(by_id[i], id='%s/%d' % (i, k)) for i in first for k in range(5)]
    if again:
        lines2, _ = lsp.run_all(binary, again, ck.work, quiet=CONFIRM_QUIET)
        confirmed = judge_lines(ck, lines2, prop)
        ck.count('sessions_played_again', len(again))
        for i in first:
            hits = [confirmed[k] for k in sorted(confirmed) if k.rsplit('/', 1)[0] == i]
            if hits:
                s = by_id[i]
                ck.violation({'session': s['phases'], 'step': hits[0]['step'], 'why': hits[0]['why']}, s, 'lsp')
            else:
                ck.count('not_confirmed')
    return lines


def model_sessions(ck, depth, limit):
    """The sessions of MC_Server, whose invariants are checked on the way."""
    r = random.Random(ck.seed)
    res = common.tlc('MC_Server', ck.work, env={'DEPTH': str(depth), 'STALE': '0', 'EMIT': '1'})
    if res.violated:
        raise common.ToolError('the model of the server does not converge:\n' + res.out[-3000:])
    ck.add_tlc(res)
    seen = sorted({json.dumps(e['msgs']) for e in res.emitted})
    ck.count('sessions_of_the_model', len(seen))
    if len(seen) > limit:
        seen = r.sample(seen, limit)
    ck.count('model_sessions_replayed', len(seen))
    out = []
    for i, s in enumerate(seen):
        msgs = [{'m': m['m'], 'u': m['u'], 't': m['t'], 'ts': [m['t']]} for m in json.loads(s)]
        disk = [{'o': 'write', 'p': 'b.dtsi', 't': '/ { b: nb { }; };\n'}]
        ph = [{'msgs': msgs + [{'m': 'symbols', 'u': 'a.dts'}, {'m': 'symbols', 'u': 'b.dtsi'}]}]
        out.append({'id': 'm%d' % i, 'cwd': '', 'cli': [], 'init': None, 'disk': disk, 'phases': ph})
    return out


def run(ck):
    prop = ck.prop
    depth, limit, n, ndocs = PLAN[prop][ck.tier]
    sessions = model_sessions(ck, depth, limit) if depth else []
    rand = gen_lsp.sessions(prop, ck.seed, n, ndocs)
    sessions += rand
    ck.count('sessions_generated', len(rand))
    lines = judge(ck, sessions, prop)
    kinds, reqs = {}, {}
    for x in lines:
        for k in {d['k'] for o in x['ops'] for f in o['view'] for d in f['ds']}:
            kinds[k] = kinds.get(k, 0) + 1
        for o in x['ops']:
            if o['o'] in lsp.KIND:
                reqs[o['o']] = reqs.get(o['o'], 0) + 1
                if o['r']:
                    reqs[o['o'] + ' with an answer'] = reqs.get(o['o'] + ' with an answer', 0) + 1
    ck.cov['sessions_showing_diagnostic'] = dict(sorted(kinds.items()))
    ck.cov['requests'] = reqs
    for s in random.Random(ck.seed).sample(rand, min(2, len(rand))):
        ck.sample({'session': s['phases'][:2]})
    return ck.finish()


def replay(case, prop):
    ck = common.Check(prop, 'quick', 1)
    judge(ck, [case], prop)
    return ck.finish()

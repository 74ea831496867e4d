"""The recorded findings (KNOWN_FINDINGS.txt): inputs for which the implementation is known to break a property, with
what the property demands.  Each is run on the real code; a finding that is not (or no longer) listed is a violation."""
import os

import common


def strings_of(node):
    out = [bytes(node['v']).decode('utf-8', 'replace')] if node['k'] == 'str' else []
    for c in node['c']:
        out += strings_of(c)
    return out


def escapes(ck):
    """Hexadecimal and octal escapes in strings."""
    import docs_check
    cases = {'string:\\x41': ('"\\x41"', 'A'), 'string:\\101': ('"\\101"', 'A')}
    items = [{'id': k, 'name': docs_check.DIR + 'dts', 'text': '/dts-v1/; / { p = %s; };' % t, 'q': []} for k, (t, _) in cases.items()]
    obs = common.run_shards(common.build_harness(), 'docs', items, os.path.join(ck.work, 'f'), shards=1, dead=docs_check.dead)
    for it, o in zip(items, obs):
        got = strings_of(o['tree'])
        yield it['id'], not o['p'] and got == [cases[it['id']][1]], it, 'the string is %r' % got


def sibling_includes(ck):
    """An extension in an include of a node that another include defines."""
    import proj_check
    ops = [{'o': 'write', 'p': 'soc.dtsi', 't': '/ { lbl: soc { }; };'},
           {'o': 'write', 'p': 'board.dtsi', 't': '&lbl { sub { }; };'},
           {'o': 'text', 'p': 'main.dts', 't': '/dts-v1/;\n/include/ "soc.dtsi"\n/include/ "board.dtsi"\n/ { r = &{/soc/sub}; };\n'}]
    it = {'id': 'sibling-includes', 'cwd': '', 'reps': 1, 'q': [], 'ops': ops}
    o = common.run_shards(common.build_harness(), 'proj', [it], os.path.join(ck.work, 'f'), shards=1, dead=proj_check.dead)[0]
    ds = [d['k'] for f in o['runs'][0][-1]['files'] for d in f['ds']] if not o['p'] else ['panic']
    yield it['id'], ds == [], it, 'diagnostics %s' % ds


CASES = {'C12': sibling_includes, 'C21': escapes}


def run(ck, only=None):
    for key, holds, item, got in CASES.get(ck.prop, lambda _: [])(ck):
        if only not in (None, key) or holds:
            continue
        ck.count('traces_validated_against_impl')
        text = common.known_finding(ck.prop, key)
        if text:
            ck.known('%s (%s)' % (text, got))
        else:
            ck.violation({'finding': key, 'why': got}, {'finding': key}, 'finding')


def replay(case, prop):
    ck = common.Check(prop, 'quick', 1)
    run(ck, case['finding'])
    return ck.finish()

#!/usr/bin/env python3
"""Everything the checks can see, in one run, on less input: used to find changes that no check notices.
usage: suite.py docs|proj|lsp|cli...    prints the first stage that raises an alarm"""
import os
import random
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), 'lib'))
import cli_check  # noqa: E402
import common  # noqa: E402
import docs_check  # noqa: E402
import gen  # noqa: E402
import gen_lsp  # noqa: E402
import gen_proj  # noqa: E402
import lsp_check  # noqa: E402
import proj_check  # noqa: E402

ALL = ('C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C21', 'C22', 'C23')


def check(prop):
    ck = common.Check(prop, 'quick', 1)
    ck.finish = None
    return ck


def alarm(ck, stage):
    if ck.violations:
        print('ALARM', stage, str(ck.violations[0][0])[:300], flush=True)
        sys.exit(1)


def docs(n, lens):
    ck = check('C02')
    items = docs_check.enumerate_docs(ck, lens, False) if lens else []
    r = random.Random(n)
    if lens:
        items = r.sample(items, min(len(items), 15000))
    for p in ALL:
        items += [dict(d, id=p + d['id']) for d in gen.docs(p, 7, n, 12 if p == 'C10' else 2)]
    for d in items:
        d['grp'] = -1
    ck.prop = 'C02'
    docs_check.judge(ck, items, 'ALL')
    alarm(ck, 'docs')


def proj(n):
    for p in ('C11', 'C13', 'C14'):
        ck = check(p)
        items = gen_proj.histories(p, 7, n)
        if p == 'C13':
            items += proj_check.model_histories(ck, [(1, 3, 0, 300)])
        proj_check.judge(ck, items, p)
        alarm(ck, 'proj ' + p)
    ck = check('C12')
    proj_check.judge(ck, gen_proj.histories('C12', 7, n), 'C12')
    alarm(ck, 'proj C12')


def lsp(n):
    for p in ('C15', 'C16', 'C17', 'C18'):
        ck = check(p)
        lsp_check.judge(ck, gen_lsp.sessions(p, 7, n, 600 if p in ('C17', 'C18') else 0), p)
        alarm(ck, 'lsp ' + p)


def cli(n):
    for p in ('C19', 'C20'):
        ck = check(p)
        cli_check.judge(ck, cli_check.scenarios(7, n, [d['text'] for d in gen.docs('C20', 8, n)]), p)
        alarm(ck, 'cli ' + p)


SMALL = {c: 2 for c in ('top', 'file', 'item', 'items', 'value', 'cells', 'bytes', 'chars', 'name', 'refs', 'lit', 'str', 'layout', 'path')}
for stage in sys.argv[1:]:
    if stage == 'docs':
        docs(100, None)
        docs(600, dict(SMALL, name=3, path=3, item=3, lit=3))
    elif stage == 'proj':
        proj(300)
    elif stage == 'lsp':
        lsp(120)
    elif stage == 'cli':
        cli(200)
print('quiet')

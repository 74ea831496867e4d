#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--replay FILE]

exit 0: the property held on everything explored; 1: a violation (with a VIOLATION line); 2: the check itself failed."""
import json
import os
import sys
import traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
import common  # noqa: E402


def runner(prop):
    import cli_check
    import docs_check
    import lsp_check
    import proj_check
    for m in (docs_check, proj_check, lsp_check, cli_check):
        if prop in m.PLAN:
            return m
    raise common.ToolError('unknown property ' + prop)


def player(kind):
    import cli_check
    import docs_check
    import lsp_check
    import proj_check
    return {'docs': docs_check, 'deep': docs_check, 'proj': proj_check, 'lsp': lsp_check, 'cli': cli_check}[kind]


def main(argv):
    prop = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in argv:
        tier = argv[argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    try:
        if '--replay' in argv:
            with open(argv[argv.index('--replay') + 1]) as f:
                case = json.load(f)
            return player(case['kind']).replay(case['case'], prop)
        return runner(prop).run(common.Check(prop, tier, seed))
    except common.ToolError as e:
        print('ERROR: %s' % e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))

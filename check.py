#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]: decides one property; see DESIGN.md."""
import os, sys, traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'vlib'))
sys.dont_write_bytecode = True
from common import Report, ToolError, build


def table():
    t = {}
    for m in ('sessionchecks', 'data', 'grammar', 'reply', 'pushback', 'queue_', 'e2e', 'writer', 'strings', 'view'):
        try:
            t.update(__import__(m).CHECKS)
        except ModuleNotFoundError as e:
            if e.name != m:
                raise
    return t


def main():
    args = [a for a in sys.argv[1:] if not a.startswith('--')]
    tier = os.environ.get('VERIF_TIER') or 'quick'
    for i, a in enumerate(sys.argv):
        if a == '--tier':
            tier = sys.argv[i + 1]
            args.remove(tier)
    seed = int(os.environ.get('VERIF_SEED') or '1')
    prop = args[0]
    rep = Report(prop, tier, seed)
    try:
        build()
        table()[prop](rep, tier == 'thorough')
    except Exception as e:
        if isinstance(e, ToolError):
            print('ERROR: ' + str(e))
        else:
            traceback.print_exc()
        # what was already found wrong stays wrong
        if not rep.violations:
            return 2
    return rep.finish()


if __name__ == '__main__':
    sys.exit(main())

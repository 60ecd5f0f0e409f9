#!/usr/bin/env python3
"""Decide one property: check.py <id> [--thorough]; exit 0 held, 1 violated or not shown to hold, 2 the analysis could not be carried out."""

import os
import sys
import traceback

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from hsa import report                      # noqa: E402
from hsa.model import load, AnalysisBroken  # noqa: E402
from hsa import rules                       # noqa: E402,F401
from hsa.interp import Budget, Interp     # noqa: E402


def main(argv) -> int:
    sys.setrecursionlimit(20000)
    thorough = '--thorough' in argv or os.environ.get('VERIF_TIER') == 'thorough'
    if thorough:
        Interp.loop_limit, Interp.max_states = 3, 60000
    ids = [a for a in argv if not a.startswith('-')]
    if ids == ['all']:
        ids = sorted(report.RULES)
    if not ids:
        print('usage: check.py <property id> [--thorough]', file=sys.stderr)
        return 2
    tier = 'thorough' if thorough else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    worst = 0
    for prop in ids:
        entry = report.RULES.get(prop)
        if entry is None:
            print(f'no rule for {prop}', file=sys.stderr)
            return 2
        rep = None
        try:
            prog = load()
            rep = report.Report(prop, prog, thorough)
            entry['fn'](rep)
            worst = max(worst, report.finish(rep, entry, tier, seed))
        except AnalysisBroken as error:
            if rep is not None and rep.violations:      # what was found before the analysis gave up still stands
                worst = max(worst, report.finish(rep, entry, tier, seed))
                continue
            if rep is not None and not isinstance(error, Budget):
                # a construct the property depends on is missing or does something the rule cannot account for: not shown to hold
                rep.bad('not-shown', prop, str(error))
                worst = max(worst, report.finish(rep, entry, tier, seed))
                continue
            print(f'{prop}: the analysis could not be carried out: {error}', file=sys.stderr)
            worst = max(worst, 2)
        except Exception as error:
            if rep is not None and rep.violations:
                worst = max(worst, report.finish(rep, entry, tier, seed))
                continue
            traceback.print_exc()
            print(f'{prop}: the analysis ended with {type(error).__name__}: {error}', file=sys.stderr)
            worst = max(worst, 2)
    return worst


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))

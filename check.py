#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough] [--repo DIR]: decide one property of /repo's current source"""
import argparse
import importlib
import json
import os
import sys
import traceback
from pathlib import Path

HERE = Path(__file__).resolve().parent
sys.path.insert(0, str(HERE))
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--repo', default='/repo')
    a = ap.parse_args()
    from sa.project import Project, AnalysisBroken
    from sa.report import Report, finish
    from sa.rules import CHECKS, PARTS
    if a.property not in CHECKS:
        print(f'unknown property {a.property}', file=sys.stderr)
        return 2
    mod, func, method = CHECKS[a.property]
    rep = Report(a.property, a.tier)
    try:
        p = Project(a.repo) if a.repo != '/repo' else Project()
        m = importlib.import_module(f'sa.rules.{mod}')
        getattr(m, func)(p, rep)
        if a.property in PARTS:
            mod, func, more = PARTS[a.property]
            getattr(importlib.import_module(f'sa.rules.{mod}'), func)(p, rep)
            method += ' ' + more
    except AnalysisBroken as e:
        print(f'ANALYSIS-BROKEN property={a.property}: {e}', file=sys.stderr)
        return 2
    except RecursionError:
        print(f'ANALYSIS-BROKEN property={a.property}: recursion', file=sys.stderr)
        return 2
    return finish(rep, a.property, '', method)


if __name__ == '__main__':
    import threading
    threading.stack_size(512 * 1024 * 1024)
    rc = []

    def run():
        try:
            rc.append(main())
        except SystemExit as e:
            rc.append(e.code)
        except BaseException:
            traceback.print_exc()
            rc.append(2)
    t = threading.Thread(target=run)
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(rc[0] if rc else 2)

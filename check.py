#!/usr/bin/env python3
"""Decide one property of /repo by static analysis.

usage: check.py PROPERTY [--repo DIR]

exit 0: every obligation discharged (listed known findings excepted)
exit 1: at least one unlisted violation, printed as VIOLATION property=<id> replay=<path>
exit 2: the analysis itself broke (a construct it depends on vanished)
"""
import json
import os
import sys
import time
import importlib
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)

from sa.model import Program, AnalysisBroken  # noqa: E402

RULES_FILE = os.path.join(HERE, 'sa', 'rules', 'index.json')


def known_findings(prop):
    listed = {}
    path = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(path):
        with open(path, encoding='utf-8') as fh:
            for line in fh:
                line = line.strip()
                if not line.startswith('finding:'):
                    continue
                head, _, what = line.partition(' -- ')
                parts = head.split()
                p = k = None
                for x in parts[1:]:
                    if x.startswith('property='):
                        p = x[len('property='):]
                    elif x.startswith('key='):
                        k = x[len('key='):]
                if p == prop and k:
                    listed[k] = what
    return listed


def main():
    args = sys.argv[1:]
    repo = '/repo'
    if '--repo' in args:
        i = args.index('--repo')
        repo = args[i + 1]
        del args[i:i + 2]
    prop = args[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    t0 = time.time()
    evdir = os.environ.get('VERIF_EVIDENCE', os.path.join(HERE, 'evidence'))
    os.makedirs(evdir, exist_ok=True)
    with open(RULES_FILE, encoding='utf-8') as fh:
        index = json.load(fh)
    try:
        mod = importlib.import_module('sa.rules.' + index[prop]['module'])
        prog = Program(repo)
        res = getattr(mod, index[prop]['entry'])(prog, tier)
        listed = known_findings(prop)
        res.adopt(listed)
        for name, floor in res.floors.items():
            if any(f.key not in listed for f in res.findings):
                break
            if res.stats.get(name, 0) < floor:
                raise AnalysisBroken(f'{prop}: only {res.stats.get(name, 0)} {name}, at least {floor} were confirmed by hand')
    except AnalysisBroken as e:
        print(f'ANALYSIS-BROKEN property={prop} {e}')
        return 2
    except Exception:
        traceback.print_exc()
        print(f'ANALYSIS-BROKEN property={prop} internal error')
        return 2
    new = [f for f in res.findings if f.key not in listed]
    old = [f for f in res.findings if f.key in listed]
    for f in old:
        print(f'KNOWN-FINDING: property={prop} {f.key}: {listed[f.key] or f.msg}')
    replay = os.path.join(evdir, f'{prop}.violations.json')
    if os.path.exists(replay):
        os.unlink(replay)
    if new:
        with open(replay, 'w', encoding='utf-8') as fh:
            json.dump({'property': prop, 'rule': res.rule,
                       'violations': [{'key': f.key, 'location': f.loc, 'message': f.msg, 'trace': f.trace} for f in new]}, fh, indent=1)
        for f in new:
            print(f'VIOLATION property={prop} replay={replay}')
            print(f'  {f.loc}: {f.msg} [{f.key}]')
            for t in f.trace:
                print(f'    via {t}')
    cov = {'explanation': f'static analysis of {len(prog.modules)} modules, {len(prog.classes)} classes of the current source tree. Rule: {res.rule}',
           'obligations': res.obligations, 'discharged': res.obligations - len(new) - len(old), 'known_findings': len(old),
           'modules': len(prog.modules), 'samples': res.samples[:12]}
    cov.update(res.stats)
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'other', 'coverage': cov,
          'assumptions': res.assumptions, 'wall_s': round(time.time() - t0, 3), 'violations': len(new)}
    with open(os.path.join(evdir, f'{prop}.json'), 'w', encoding='utf-8') as fh:
        json.dump(ev, fh, indent=1)
    print(f'{prop}: {res.obligations} obligations, {len(new)} violations, {len(old)} known findings, {ev["wall_s"]} s; ' +
          ', '.join(f'{k}={v}' for k, v in res.stats.items()))
    return 1 if new else 0


if __name__ == '__main__':
    sys.exit(main())

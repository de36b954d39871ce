#!/usr/bin/env python3
"""Decide one property from the current source of the repository.

check.py --property P01 [--tier quick|thorough] [--repo /repo]
exit 0: no violation; 1: violation (VIOLATION line); 2: no answer."""
import argparse
import importlib
import json
import os
import random
import sys
import time
import traceback
from collections import Counter
from multiprocessing import get_context

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)

MODULES = json.load(open(os.path.join(HERE, 'sa', 'checks', 'index.json')))
KNOWN = os.path.join(HERE, 'known_findings.txt')


def known(prop):
    out = {}
    if not os.path.exists(KNOWN):
        return out
    for line in open(KNOWN):
        line = line.rstrip('\n')
        if not line.startswith('known: property='):
            continue
        rest = line[len('known: property='):]
        p, _, rest = rest.partition(' ')
        ident, _, what = rest.partition(' :: ')
        if p == prop:
            out[ident] = what
    return out


R = None
MOD = None


def work(task):
    from sa.checks.base import Out
    out = Out()
    try:
        MOD.work(R, task, out)
    except RecursionError:
        out.errors.append(f'{task}: recursion limit')
    except Exception:
        out.errors.append(f'{task}: ' + traceback.format_exc(limit=-6))
    return dict(findings=[(f.ident(), f.as_dict()) for f in out.findings],
                counts=dict(out.counts), analysed=list(out.analysed),
                errors=out.errors, samples=out.samples, runs=out.runs,
                task=task, data=out.data)


def main():
    global R, MOD
    ap = argparse.ArgumentParser()
    ap.add_argument('--property', required=True)
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--repo', default='/repo')
    ap.add_argument('--jobs', type=int, default=os.cpu_count() or 4)
    ap.add_argument('--no-evidence', action='store_true')
    a = ap.parse_args()
    t0 = time.time()
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    prop = a.property
    from sa.run import Runner, AnalysisError
    MOD = importlib.import_module('sa.checks.' + MODULES[prop])
    MOD.PROPERTY = prop
    try:
        R = Runner(a.repo)
        R.tier = a.tier
        R.prop = prop
        tasks = list(MOD.tasks(R, a.tier))
    except (AnalysisError, SyntaxError, KeyError, OSError) as e:
        print(f'ANALYSIS-BROKEN property={prop} {type(e).__name__}: {e}')
        return 2
    order = list(range(len(tasks)))
    random.Random(seed).shuffle(order)
    if a.jobs > 1 and len(tasks) > 1:
        with get_context('fork').Pool(min(a.jobs, len(tasks))) as pool:
            res = pool.map(work, [tasks[i] for i in order], chunksize=1)
    else:
        res = [work(tasks[i]) for i in order]
    back = dict(zip(order, res))
    res = [back[i] for i in range(len(tasks))]
    if hasattr(MOD, 'combine'):
        from sa.checks.base import Out
        out = Out()
        try:
            MOD.combine(R, res, out)
        except Exception:
            out.errors.append('combine: ' + traceback.format_exc(limit=-6))
        res.append(dict(findings=[(f.ident(), f.as_dict())
                                  for f in out.findings],
                        counts=dict(out.counts),
                        analysed=list(out.analysed), errors=out.errors,
                        samples=out.samples, runs=out.runs, task='combine',
                        data=None))
    counts, analysed, errors, samples = Counter(), set(), [], []
    found = {}
    runs = 0
    for r in res:
        counts.update(r['counts'])
        analysed.update(tuple(x) if isinstance(x, list) else x
                        for x in r['analysed'])
        errors += r['errors']
        samples += r['samples']
        runs += r['runs']
        for ident, d in r['findings']:
            if ident not in found:
                found[ident] = dict(d, occurrences=1)
            else:
                found[ident]['occurrences'] += 1
    kn = known(prop)
    new = {k: v for k, v in found.items() if k not in kn}
    level = getattr(MOD, 'LEVEL', 'other')
    cov = dict(
        explanation=MOD.RULE[prop] if isinstance(MOD.RULE, dict)
        else MOD.RULE,
        abstract_runs=runs,
        obligations_checked=sum(v for k, v in counts.items()
                                if not k.startswith('undetermined')),
        obligations_by_rule=dict(sorted(counts.items())),
        functions_analysed=sorted({str(x) for x in analysed})[:400],
        functions_analysed_count=len({str(x) for x in analysed}),
        samples=samples[:8],
        units=len(tasks),
        units_without_answer=len(errors),
        errors=errors[:5],
    )
    ev = dict(property=prop, tier=a.tier if a.tier in ('quick', 'thorough')
              else 'quick', seed=seed, level=level, coverage=cov,
              wall_s=round(time.time() - t0, 2),
              violations=len(new), assumptions=getattr(
                  MOD, 'ASSUMPTIONS', []),
              known_findings=sorted(k for k in found if k in kn),
              violation_list=[dict(v, ident=k) for k, v in
                              list(new.items())[:50]])
    path = os.path.join(HERE, 'evidence', f'{prop}.json')
    if not a.no_evidence:
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, 'w') as f:
            json.dump(ev, f, indent=1, default=str)
    for k in sorted(found):
        if k in kn:
            print(f'KNOWN-FINDING: property={prop} {kn[k]}')
    if errors:
        print(f'{prop}: {len(errors)} of {len(tasks)} units without answer;'
              f' first: {errors[0][-600:]}', file=sys.stderr)
    if new:
        rp = os.path.join(HERE, 'evidence', f'{prop}.violations.json')
        if not a.no_evidence:
            with open(rp, 'w') as f:
                json.dump([dict(v, ident=k) for k, v in new.items()], f,
                          indent=1, default=str)
        for k, v in list(new.items())[:20]:
            print(f'{v["file"]}:{v["line"]}: [{v["rule"]}] in '
                  f'{v["function"]}: {v["message"]} (entry: {v["entry"]})')
        print(f'VIOLATION property={prop} replay={rp}')
        return 1
    if not getattr(MOD, 'NO_RUNS_OK', False) and (
            not tasks or 2 * len(errors) > len(tasks)):
        print(f'ANALYSIS-BROKEN property={prop} no unit gave an answer')
        return 2
    print(f'{prop}: held on {runs} abstract runs / '
          f'{cov["obligations_checked"]} obligations '
          f'({len(tasks)} units, {ev["wall_s"]} s)')
    return 0


if __name__ == '__main__':
    sys.exit(main())

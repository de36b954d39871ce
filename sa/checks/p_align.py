"""P01 alignment inside the computations, P02 exit state of estimators."""
from . import align
from .common import (entry_tasks, entry_runs, class_tasks, class_runs, done)

RULE = {
    'P01': 'abstract interpretation of every public entry point under every '
           'finite option configuration; each array term is assigned the '
           'row space it lives in (caller rows refined by masks, takes, '
           'slices and sorts) and every pairing of arrays - masks, '
           'positions, arithmetic, comparisons, stored values, weights, zip, '
           'columns, plot arguments - must combine equal spaces',
    'P02': 'abstract interpretation of construct + calculate() + accessors '
           'of every concrete estimator class (found from the source) under '
           'every combination of optional arguments; the row spaces of '
           'magnitudes, weights, times and idx at the exit must be the same '
           'and idx must be positions in the caller\'s arrays',
}
ASSUMPTIONS = ['arrays a caller passes together are paired row by row',
               'constructs the analysis has no model for have an unknown '
               'space and are counted as undetermined, never reported']
CAPS = {'quick': 150, 'thorough': None}
HEAVY = {'plot_b_significant_1D': {'quick': 24, 'thorough': 64},
         'plot_b_series_constant_nm': {'quick': 120, 'thorough': None},
         }


def tasks(R, tier):
    if R.prop == 'P02':
        yield from class_tasks(R)
        return
    yield from class_tasks(R)
    for k, v in HEAVY.items():
        yield from entry_tasks(R, v[tier], keys={k}, chunk=2)
    yield from entry_tasks(R, CAPS[tier], skip=HEAVY)


def work(R, task, out):
    if task[0] == 'class':
        for ci, cfg, r in class_runs(
                R, task, read=('magnitudes', 'weights', 'times', 'idx')):
            S = align.spaces_for(r)
            r.S = S
            if R.prop == 'P01':
                align.check_run(r, out, S=S)
            else:
                align.check_estimator(r, out, S)
            done(out, r)
            out.sample(r.name)
    else:
        for E, cfg, r in entry_runs(R, task):
            align.check_run(r, out)
            done(out, r)
            out.sample(r.name)

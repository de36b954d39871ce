"""P10: every combination of options and optional arguments works."""
from ..entries import accessors, bclasses, aclasses, calc_axes, Entry,\
    calc_params
from .p_cont import NEED_BINS
from .base import cut
from .common import (all_entries, entry_tasks, entry_runs, class_tasks,
                     class_runs, configs, run_entry, done, site_of)

RULE = 'every public entry point is interpreted under every combination of '\
       'its finite options and of given and omitted optional arguments: '\
       'each must have a normal exit, reach no internal error (unbound '\
       'variable, unknown attribute or key, wrong arity, None or a scalar '\
       'where a number or sequence is needed) and return as many values as '\
       'its return options say; the same holds for every attribute of an '\
       'estimator read after calculate()'
ASSUMPTIONS = ['internal errors are reported only when the construct is '
               'certain to fail on the path it is on']
INTERNAL = {'UnboundLocalError', 'NameError', 'TypeError', 'AttributeError',
            'KeyError', 'IndexError'}
CAP = {'quick': 64, 'thorough': None}
HEAVY = {'plot_b_significant_1D': {'quick': 8, 'thorough': None},
         'plot_b_series_constant_nm': {'quick': 24, 'thorough': None},
         'b_significant_1D': {'quick': 24, 'thorough': None}}
# number of returned values: base + one for each flag which is set
ARITY = {'estimate_b': (1, ('return_std', 'return_n')),
         'make_more_incomplete': (2, ('return_idx',))}
LENGTH = {'estimate_b_weichert': 5, 'estimate_b_kijko_smit': 4,
          'cdf_discrete_exp': 2, 'ks_test_gr': 3, 'estimate_mc_ks': 2,
          'estimate_mc_maxc': 2, 'estimate_mc_b_stability': 2,
          'est_morans_i': 3, 'values_from_partitioning': 3,
          'cut_constant_idx': 2, 'get_fmd': 3, 'get_cum_fmd': 3,
          'polygon_to_bounding_box': 4, 'Catalog.estimate_mc_ks': 2,
          'Catalog.estimate_mc_maxc': 2, 'Catalog.estimate_mc_b_stability': 2,
          'GardnerKnopoffWindow': 2, 'GruenthalWindow': 2,
          'UhrhammerWindow': 2}
# may return nothing: changes the object given
INPLACE = {'Catalog.bin_magnitudes', 'Catalog.strip', 'GRRateGrid.strip'}
OTHERWISE = {'apply_edwards'}      # None for an unknown kind of magnitude
METHODS = {'calculate', 'filter_nan'}


def tasks(R, tier):
    for k, v in HEAVY.items():
        yield from entry_tasks(R, v[tier], keys={k}, chunk=2)
    yield from entry_tasks(R, CAP[tier], skip=set(HEAVY))
    yield from class_tasks(R)


def needs(R, E, cfg):
    """the completeness or bin width is given nowhere (P12)"""
    s = cfg.get('self')
    attrs = getattr(s, 'attrs', None)
    if attrs is None or 'catalog' not in E.tags:
        return False
    for n in ('mc', 'delta_m'):
        if n in E.axes and cfg.get(n) is None and attrs.get(n) is None:
            return True
    if E.key in NEED_BINS:
        dm = cfg['delta_m'] if cfg.get('delta_m') is not None \
            else attrs.get('delta_m')
        if dm == 0:
            return True
    m = cfg.get('method')
    if E.key == 'Catalog.estimate_a' and cfg.get('b_value') is None and \
            attrs.get('b_value') is None and 'b_value' in calc_params(
                R, R.classinfo(m.qual))[1]:
        return True
    return False


def arity(r):
    c = r.c(r.out)
    if c.pl and c.pl[0] == 'tuple':
        return len(c.pl[1])
    if c.pl and c.pl[0] == 'phi':
        return None
    return 1 if c.kind in ('num', 'arr', 'bool') else None


def nothing(x):
    return x.op == 'const' and x.a[0] is None or \
        x.op == 'phi' and (nothing(x.a[1]) or nothing(x.a[2]))


def internal(events, q, lab, out, rule='exit.internal'):
    for e in events:
        if e.kind == 'maybe_unbound':
            out.flag('exit.unbound', e.site, f"{e.site[2]}|{e.d['name']}",
                     f"{e.d['name']} may be unbound", lab)
        elif e.kind == 'raise' and not e.d.get('explicit') and \
                not e.d.get('caught') and e.d['exc'] in INTERNAL:
            out.flag(rule, e.site,
                     f"{e.site[2]}|{e.d['exc']}|{e.d['msg']}",
                     f"{e.d['exc']}: {e.d['msg']}", lab)


def shape(x):
    """of the returned value: number of values"""
    return len(x.a) if x.op == 'tuple' else None


def work(R, task, out):
    if task[0] == 'class':
        ci = R.classinfo(task[1])
        names = [n for n in accessors(ci) if n not in METHODS]
        for ci, cfg, r in class_runs(R, task, read=names):
            done(out, r)
            out.ob('calculate has a normal exit')
            if r.dead:
                out.flag('exit.none', site_of(R.I, ci.qual),
                         f'{ci.qual}|calculate',
                         'calculate() cannot return', r.name)
            out.ob('no internal error', len(r.events))
            internal(r.events, ci.qual, r.name, out)
            internal(r.reading, ci.qual, r.name, out)
            if not r.dead:
                for n in names:
                    out.ob('attribute can be read after calculate()')
                    if n not in r.read:
                        out.flag('exit.accessor', site_of(R.I, ci.qual),
                                 f'{ci.qual}|{n}',
                                 f'{n} cannot be read after calculate()',
                                 r.name)
            out.sample(r.name)
        return
    for E, cfg, r in entry_runs(R, task):
        if needs(R, E, cfg):
            continue
        done(out, r)
        out.ob('normal exit')
        if r.dead:
            why = [e for e in r.evs('raise')]
            out.flag('exit.none', site_of(R.I, E.qual), f'{E.key}|exit',
                     'no normal exit' + (
                         f": {why[-1].d['exc']} {cut(why[-1].d['msg'], 60)}"
                         f' in {why[-1].site[2]}' if why else ''), r.name)
        out.ob('no internal error', len(r.events))
        internal(r.events, E.qual, r.name, out)
        if not r.dead and E.key not in OTHERWISE and not (
                E.key in INPLACE
                and cfg.get('inplace') is True):
            out.ob('a value is returned')
            x = r.result()
            if nothing(x):
                out.flag('exit.value', site_of(R.I, E.qual),
                         f'{E.key}|value', 'returns None', r.name)
        if (E.key in ARITY or E.key in LENGTH) and not r.dead:
            b, fl = ARITY.get(E.key) or (LENGTH[E.key], ())
            want = b + sum(cfg.get(f) is True for f in fl)
            got = arity(r)
            out.ob('number of returned values')
            if got is not None and got != want:
                out.flag('exit.arity', site_of(R.I, E.qual),
                         f'{E.key}|arity',
                         f'{got} values returned, {want} documented', r.name)
        out.sample(r.name)

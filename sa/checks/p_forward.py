"""P13: what the caller gives is what is used, and what is stored is what is
returned."""
import ast
from .. import terms as t
from ..run import (Spec, Ref, number, string, opaque, boolean,
                   AnalysisError)
from ..entries import (bclasses, aclasses, accessors, MethodEntry,
                       calc_params)
from .base import cut
from .common import (all_entries, entry_tasks, entry_runs, class_tasks,
                     class_runs, configs, run_entry, done, site_of)

RULE = '(1) whenever a function of the package calls another public one '\
       'that has a parameter of the same name, the value received depends '\
       'on the value given; (2) catalog methods use the argument when it is '\
       'given and the attribute of the catalog otherwise; (3) what catalog '\
       'methods store in the catalog is what they return; (4) every '\
       'argument that is given occurs in the outcome (result, attributes, '\
       'drawn data, files, requests)'
ASSUMPTIONS = ['calls to helpers whose name starts with an underscore are '
               'not judged by rule 1']
CAP = {'quick': 40, 'thorough': None}
HEAVY = {'plot_b_significant_1D': {'quick': 12, 'thorough': None},
         'plot_b_series_constant_nm': {'quick': 24, 'thorough': None},
         'b_significant_1D': {'quick': 24, 'thorough': None}}
# (parameter, callee, entry prefix): same name, other meaning or resolved
# before the call
OTHER = [('n', 'simulate_magnitudes_binned', ''),
         ('delta_m', 'simulate_magnitudes_binned', 'dither_magnitudes'),
         ('times', 'calculate', 'plot_b_series_constant_nm'),
         ('x_variable', 'b_significant_1D', 'plot_b_significant_1D'),
         # a parameter of the request
         ('include_all_magnitudes', 'parse_quakeml_response', 'FDSNWS'),
         ('kwargs', '', ''), ('args', '', '')]
FALLBACK = {'mc': 'mc', 'delta_m': 'delta_m', 'b_value': 'b_value',
            'fmd_bin': 'delta_m'}
NO_FALLBACK = {('Catalog.estimate_a', 'b_value'),
               ('Catalog.estimate_mc_maxc', 'fmd_bin'),
               ('Catalog.plot_fmd', 'fmd_bin')}
# used only together with other arguments, or for information only
EXTRA = {'srid', 'resolution', 'color_line', 'label_line', 'grid'}
DRAW = ('matplotlib', 'requests', 'urllib', 'xml', 'jinja2', 'geopandas',
        'cartopy')


def given(cfg, *names):
    return all(cfg.get(n) is not None for n in names)


def ignored(key, p, cfg):
    """documented cases in which an argument has no effect"""
    m = cfg.get('method') or cfg.get('b_method')
    k = key.replace('Catalog.', '')
    if k == 'find_next_larger' or p == 'data' or k == 'binning_test':
        return True
    if k == 'ks_test_gr':
        return p == 'n' and given(cfg, 'ks_ds')
    if k == 'estimate_mc_ks':
        if p == 'n':
            dm = cfg.get('delta_m')
            if dm is None and 'self' in cfg:
                dm = cfg['self'].attrs.get('delta_m')
            return given(cfg, 'ks_ds_list') or not isinstance(dm, Spec)
        if p == 'ks_ds_list':       # looked up by position
            return True
        return given(cfg, 'b_value') and p in ('weights', 'times')
    if k == 'values_from_partitioning':
        return p == 'list_scaling' and '.bvalue.' in m.qual
    if k == 'plot_cum_fmd':
        return p in ('mc', 'color_line') and not (
            given(cfg, 'b_value') or getattr(
                cfg.get('self'), 'attrs', {}).get('b_value') is not None)
    if k == 'plot_mags_in_time':
        return p in ('mcs', 'mc_change_times') and not given(
            cfg, 'mcs', 'mc_change_times')
    if k == 'plot_in_space':
        return p in ('country', 'color_map', 'cmap')
    return False


def tasks(R, tier):
    for k, v in HEAVY.items():
        yield from entry_tasks(R, v[tier], keys={k}, chunk=2)
    yield from entry_tasks(R, CAP[tier], skip=set(HEAVY))
    yield from class_tasks(R)
    for k in all_entries(R):
        yield ('extra', k)
    for k in KWARGS:
        if k in all_entries(R):
            yield ('kwargs', k)


def signature(R, E):
    """further parameters with a default, by kind of the default"""
    try:
        if isinstance(E, MethodEntry):
            k, o = R.classinfo(E.qual).lookup(E.meth)
            fv = R.I.static.get(o).pl[1]
        else:
            fv = R.func(E.qual)
    except AnalysisError:
        return {}
    fv = getattr(fv, 'wrapped', fv)
    a = fv.node.args
    pos = a.posonlyargs + a.args
    d = dict(zip([x.arg for x in pos][len(pos) - len(a.defaults):],
                 a.defaults))
    d.update({x.arg: v for x, v in zip(a.kwonlyargs, a.kw_defaults)
              if v is not None})
    out = {}
    for n, v in d.items():
        if isinstance(v, ast.Constant):
            c = v.value
            out[n] = boolean() if isinstance(c, bool) else number() \
                if isinstance(c, (int, float)) else string() \
                if isinstance(c, str) else opaque()
    return out


# entry points which hand further arguments to the estimator: configuration
# with an estimator that takes them
KWARGS = {k: (m, w) for k, m, w in (
    ('estimate_b', 'method', 'b'), ('estimate_a', 'method', 'a'),
    ('Catalog.estimate_b', 'method', 'b'),
    ('Catalog.estimate_a', 'method', 'a'),
    ('estimate_mc_ks', 'b_method', 'b'),
    ('estimate_mc_b_stability', 'b_method', 'b'),
    ('Catalog.estimate_mc_ks', 'b_method', 'b'),
    ('Catalog.estimate_mc_b_stability', 'b_method', 'b'),
    ('plot_mc_vs_b', 'b_method', 'b'),
    ('Catalog.plot_mc_vs_b', 'b_method', 'b'),
    ('values_from_partitioning', 'method', 'b'),
    ('b_significant_1D', 'method', 'b'),
    ('plot_b_series_constant_nm', 'method', 'b'),
    ('plot_b_significant_1D', 'method', 'b'))}


def kwargs(R, key, out):
    E, c = configs(R, key)
    par, w = KWARGS[key]
    for ci in (bclasses(R) if w == 'b' else aclasses(R)):
        names, req, fv = calc_params(R, ci)
        if 'dmc' not in names:
            continue
        for lab, cfg in c:
            if getattr(cfg.get(par), 'qual', None) != ci.qual:
                # some entry points are enumerated for few estimators only
                if any(getattr(x.get(par), 'qual', None) == ci.qual
                       for _, x in c):
                    continue
                cfg = dict(cfg, **{par: Ref(ci.qual)})
            if cfg.get('b_value') is not None and 'mcs_test' in E.axes:
                continue            # nothing is estimated
            if 'self' in cfg and (
                    'mc' in E.axes and cfg['mc'] is None
                    or 'delta_m' in E.axes
                    and not isinstance(cfg['delta_m'], Spec)):
                continue
            if 'mcs_test' in E.axes and 'self' in cfg and \
                    cfg['self'].attrs.get('b_value') is not None:
                continue
            r = run_entry(R, E, dict(cfg, dmc=number(0)), None,
                          lab + ' dmc')
            done(out, r)
            if r.dead:
                continue
            out.ob('further arguments reach the estimator')
            hit = [e for e in r.evs('call') if e.d['callee'] ==
                   fv.qual and 'dmc' in e.d['args']]
            for e in hit:
                if 'dmc' in t.inputs(e.d['args']['dmc']):
                    continue
                out.flag('forward.kwargs', e.site, f'{key}|kwargs',
                         'further arguments do not reach the estimator',
                         r.name)
            break


def public(q):
    return not any(p.startswith('_') and p not in ('__init__', '__call__')
                   or p.startswith('<') for p in q.split('.'))


def other(p, callee, name):
    return any(p == a and (not b or callee.split('.')[-1] == b)
               and name.startswith(c) for a, b, c in OTHER)


def constant(e, caller, callee, p, v, r, out):
    """an option with a fixed value in this run"""
    w = e.d['args'][p]
    if not isinstance(w, t.T) or v.op not in ('const', 'num', 'class') or \
            w.op != v.op or v is t.NONE:
        return
    out.ob('same-named option is passed on')
    if v is not w:
        out.flag('forward.lost', e.site, f'{caller}|{callee}|{p}',
                 f'{p}={cut(v)} given to {caller.split(".")[-1]}() does not '
                 f'reach {callee.split(".")[-1]}(): {cut(w, 60)}', r.name)


def forward(r, out):
    last = {}
    for e in r.evs('call'):
        caller = e.stack[-1][0] if e.stack else None
        ca = last.get(caller)
        callee = e.d['callee']
        last[callee] = e.d['args']
        if not ca or not public(callee) or callee == caller:
            continue
        for p, v in ca.items():
            if p in ('self', 'cls') or p not in e.d['args'] or \
                    not isinstance(v, t.T) or other(p, callee, r.name):
                continue
            iv = t.inputs(v)
            if not iv:
                constant(e, caller, callee, p, v, r, out)
                continue
            out.ob('same-named parameter is passed on')
            if not iv & t.inputs(e.d['args'][p]):
                out.flag('forward.lost', e.site, f'{caller}|{callee}|{p}',
                         f'{p} given to {caller.split(".")[-1]}() does not '
                         f'reach {callee.split(".")[-1]}(): '
                         f"{cut(e.d['args'][p], 60)}", r.name)


def fallback(E, cfg, r, out):
    s = cfg.get('self')
    if 'catalog' not in E.tags or not isinstance(s, Spec) or \
            s.kind != 'catalog':
        return
    meth = E.qual
    for p, a in FALLBACK.items():
        if p not in E.axes and p not in E.base or \
                (E.key, p) in NO_FALLBACK:
            continue
        v, at = cfg.get(p), s.attrs.get(a)
        for e in r.evs('call'):
            if not e.stack or e.stack[-1][0] != meth or \
                    p not in e.d['args'] or not public(e.d['callee']):
                continue
            w = t.inputs(e.d['args'][p])
            x = e.d['args'][p]
            want = p if v is not None else f'self.{a}'
            src = v if v is not None else at
            if src is None:
                continue
            out.ob('argument, else attribute of the catalog')
            ok = want in w if isinstance(src, Spec) else x is t.num(src)
            extra = f'self.{a}' in w and v is not None and want != \
                f'self.{a}'
            if not ok or extra:
                out.flag('forward.attribute', e.site,
                         f"{E.key}|{e.d['callee']}|{p}",
                         f'{p} of {e.d["callee"].split(".")[-1]}() is '
                         f'{cut(x, 60)}, not '
                         + ('the argument' if v is not None
                            else f'the attribute {a}'), r.name)


def stored(R, E, cfg, r, out):
    """attributes of the catalog after an estimate"""
    k = E.key
    attr = {'Catalog.estimate_b': 'b_value', 'Catalog.estimate_a': 'a_value',
            'Catalog.estimate_mc_maxc': 'mc', 'Catalog.estimate_mc_ks': 'mc',
            'Catalog.estimate_mc_b_stability': 'mc'}.get(k)
    if attr is None:
        return
    at = r.attrs(r.args['self'])
    x = r.term(at[attr], 12) if attr in at else t.NONE
    res = r.c(r.out)
    if k in ('Catalog.estimate_b', 'Catalog.estimate_a'):
        ra = r.attrs(r.out)
        own = [n for n in ra if n.endswith('__' + attr)]
        if len(own) != 1:
            return
        want = r.term(ra[own[0]], 12)
    else:
        if not (res.pl and res.pl[0] == 'tuple' and len(res.pl[1]) == 2):
            return
        want = r.term(res.pl[1][0], 12)
    out.ob('the stored value is the returned one')
    if x is not want:
        out.flag('forward.stored', site_of(R.I, E.qual), f'{k}|{attr}',
                 f'{attr} of the catalog is {cut(x, 60)} while '
                 f'{cut(want, 60)} is returned', r.name)


def outcome(r):
    s = set(t.inputs(r.result()))
    for o in [r.out] + list(r.args.values()) + (
            [r.est] if getattr(r, 'est', None) else []):
        for x in r.attrs(o).values():
            s |= t.inputs(r.term(x))
    for e in r.evs('methcall', 'extcall', 'warn', 'print', 'mutate', 'raise',
                   'store', 'colwrite', 'setattr', 'extattr_write'):
        if e.kind == 'extcall' and not e.d['name'].startswith(DRAW):
            continue
        for x in e.d.values():
            for y in (x if isinstance(x, (list, tuple)) else x.values()
                      if isinstance(x, dict) else [x]):
                if isinstance(y, tuple):
                    y = y[-1]
                if isinstance(y, t.T):
                    s |= t.inputs(y)
    return s


def used(R, E, cfg, r, out):
    s = outcome(r)
    for p, v in cfg.items():
        if not isinstance(v, Spec) or v.build or v.kind == 'catalog':
            continue
        if ignored(E.key, p, cfg):
            continue
        out.ob('argument occurs in the outcome')
        if (p[4:] if p.startswith('new.') else p) not in s:
            out.flag('forward.ignored', site_of(R.I, E.qual),
                     f'{E.key}|{p}', f'{p} has no effect on the outcome',
                     r.name)


def work(R, task, out):
    if task[0] == 'class':
        ci = R.classinfo(task[1])
        for ci, cfg, r in class_runs(R, task, read=accessors(ci)):
            done(out, r)
            forward(r, out)
            if r.dead:
                continue
            s = outcome(r)
            for p in cfg:
                out.ob('argument occurs in the outcome')
                if isinstance(cfg[p], Spec) and p not in s:
                    out.flag('forward.ignored',
                             site_of(R.I, ci.qual + '.calculate'),
                             f'{ci.qual}|{p}',
                             f'{p} has no effect on the outcome', r.name)
            out.sample(r.name)
        return
    if task[0] == 'kwargs':
        return kwargs(R, task[1], out)
    if task[0] == 'extra':
        E, c = configs(R, task[1])
        for lab, cfg in (c[-1], c[len(c) // 2], c[0]):
            x = {k: v for k, v in signature(R, E).items() if k not in cfg}
            if not x:
                break
            r = run_entry(R, E, dict(cfg, **x), None, lab + ' all')
            done(out, r)
            forward(r, out)
            if not r.dead and cfg is c[-1][1]:
                used(R, E, {k: v for k, v in x.items() if k not in EXTRA
                            and v.kind != 'bool'}, r, out)
        return
    for E, cfg, r in entry_runs(R, task):
        done(out, r)
        forward(r, out)
        if r.dead:
            continue
        fallback(E, cfg, r, out)
        stored(R, E, cfg, r, out)
        used(R, E, cfg, r, out)
        out.sample(r.name)

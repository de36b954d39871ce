"""P09: b-values per decade, beta per e-fold, angles in radians."""
from .. import terms as t
from ..terms import T
from ..units import (Units, showu, BVAL, BETA, MAG, ONE, LOG10, ANY, NUM,
                     LN10)
from ..entries import Entry, calc_axes, bclasses, aclasses, estimator_run
from .base import cut
from .align import all_terms
from .common import (all_entries, entry_tasks, entry_runs, class_tasks,
                     run_entry, configs, done, site_of)
from .p_state import alpha

RULE = 'dimensional analysis of every term built in the abstract runs: '\
       'units magnitude, ln(10), time and degree are inferred from the '\
       'documented meaning of the arguments; sums, comparisons, '\
       'exponentials, powers of ten and trigonometric functions must be '\
       'consistent and results must have the documented unit; additionally '\
       'results under b_parameter="beta" must be ln(10) times the results '\
       'under "b_value"'
ASSUMPTIONS = ['terms with unknown units (literals, data frames, external '
               'calls) are never reported']
SKIP_TAGS = {'window', 'decluster', 'client', 'io'}
CAP = {'quick': 48, 'thorough': None}
HEAVY = {'plot_b_significant_1D': {'quick': 6, 'thorough': 48},
         'plot_b_series_constant_nm': {'quick': 16, 'thorough': 160},
         'b_significant_1D': {'quick': 16, 'thorough': None}}
RESULT = {  # unit of (components of) the result
    'b_value_to_beta': BETA, 'beta_to_b_value': BVAL,
    'simulate_magnitudes': MAG, 'simulate_magnitudes_binned': MAG,
    'dither_magnitudes': MAG, 'gutenberg_richter': ONE,
    'transform_n': BVAL, 'estimate_a': LOG10,
}
READ = {'b_value': BVAL, 'std': BVAL, 'beta': BETA, 'std_beta': BETA}
# components which scale with ln(10) for b_parameter='beta'; others equal
SCALED = {'shi_bolt_confidence': None, 'estimate_b': (0, 1),
          'estimate_b_weichert': (0, 1), 'estimate_b_kijko_smit': (0, 1)}
PARAM_IN = {'simulate_magnitudes_binned', 'shi_bolt_confidence'}


def tasks(R, tier):
    yield from class_tasks(R)
    E = all_entries(R)
    for k, v in HEAVY.items():
        yield from entry_tasks(R, v[tier], keys={k}, chunk=2)
    skip = set(HEAVY) | {k for k, e in E.items() if e.tags & SKIP_TAGS}
    yield from entry_tasks(R, CAP[tier], skip=skip)
    for key, e in E.items():
        if 'b_parameter' in e.axes:
            n = len(list(rel_cfgs(e)))
            for i in range(0, n, 8):
                yield ('rel', key, i, i + 8)


def rel_cfgs(E):
    axes = {k: v for k, v in E.axes.items() if k != 'b_parameter'}
    return Entry(E.key, E.qual, E.base, axes, E.skip, E.tags).configs()


def judge(r, out, over):
    V = Units(over)
    n0 = 0
    for e in r.events:
        for v in e.d.values():
            for x in ([v] if isinstance(v, T) else v if isinstance(
                    v, (list, tuple)) else v.values() if isinstance(
                    v, dict) else ()):
                if not isinstance(x, T):
                    continue
                V.u(x)
                if V.bad:
                    for msg in V.bad.values():
                        out.flag('units.inconsistent', e.site,
                                 f'{e.site[2]}|{msg}',
                                 f'{msg}: {cut(x)}', r.name)
                    V.bad.clear()
    out.ob('sums, exponents and angles with known units', V.checked)
    return V


def expect(V, x, want, what, site, r, out):
    u = V.u(x)
    V.bad.clear()
    if u in (None, ANY, NUM):
        out.ob('undetermined: unit of a result')
        return
    out.ob('unit of a result')
    if u != want:
        out.flag('units.result', site, f'{what}|{showu(u)}',
                 f'{what} has the unit {showu(u)} instead of {showu(want)}: '
                 f'{cut(x)}', r.name)


def leaves(x):
    if x.op == 'phi':
        yield from leaves(x.a[1])
        yield from leaves(x.a[2])
    elif x.op == 'tuple':
        for y in x.a:
            yield from leaves(y)
    else:
        yield x


def ln10_power(x):
    """x = number * ln(10)**k -> float, else None"""
    if x.op == 'num':
        return float(x.a[0])
    c, fs = 1.0, None
    if x.op == 'lin' and x.a[0] == 0 and len(x.a[1]) == 1:
        (x, k), = x.a[1]
        c = float(k)
    fs = x.a[0] if x.op == 'mono' else ((x, 1),)
    for f, p in fs:
        if f.op == 'call' and f.a[0] in ('numpy.log', 'math.log') and \
                f.a[1] and f.a[1][0].op == 'num':
            import math
            c *= math.log(float(f.a[1][0].a[0])) ** float(p)
        else:
            return None
    return c


def ratio(x, y, memo=None):
    """x / y as a number, 'same' terms 1, None if not a constant"""
    if x is y:
        return 1.0
    if x.op == 'phi' and y.op == 'phi' and x.a[0] is y.a[0]:
        a, b = ratio(x.a[1], y.a[1]), ratio(x.a[2], y.a[2])
        if isnan(x.a[1]) and isnan(y.a[1]):
            return b
        if isnan(x.a[2]) and isnan(y.a[2]):
            return a
        return a if a == b else None
    if y is t.ZERO or isnan(x) or isnan(y) or x.op in (
            'tuple', 'list', 'const', 'phi') and y.op in (
            'tuple', 'list', 'const', 'phi'):
        return None
    return ln10_power(t.div(x, y))


def isnan(x):
    return x.op == 'const' and isinstance(x.a[0], str) and \
        x.a[0].startswith('nan')


def relation(out, site, key, lab, x, y, want, what):
    q = ratio(x, y)
    if q is None:
        out.ob('undetermined: relation of beta and b-value')
        return
    out.ob('relation of beta and b-value')
    if abs(q / want - 1) > 1e-4:
        out.flag('units.beta', site, f'{key}|{what}',
                 f'{what}: factor {q:.4g} instead of {want:.4g}', lab)


def work(R, task, out):
    if task[0] == 'class':
        ci = R.classinfo(task[1])
        base, axes = calc_axes(R, ci)
        cfgs = list(Entry(ci.name, ci.qual, base, axes).configs())
        isb = ci in bclasses(R)
        for lab, cfg in cfgs[task[2]:task[3]]:
            r = estimator_run(R, ci, lab, cfg, None, tuple(READ) if isb
                              else ('a_value',))
            done(out, r)
            r.events = r.events + r.reading
            V = judge(r, out, None)
            site = site_of(R.I, ci.qual)
            for k, v in r.read.items():
                for x in leaves(r.term(v)):
                    expect(V, x, READ.get(k, LOG10), f'{ci.name}.{k}', site,
                           r, out)
            if isb:
                for a, b in (('beta', 'b_value'), ('std_beta', 'std')):
                    if a in r.read and b in r.read:
                        relation(out, site, ci.qual, lab, r.term(r.read[a]),
                                 r.term(r.read[b]), LN10,
                                 f'{a} over {b}')
        out.sample(ci.name)
        return
    if task[0] == 'rel':
        return rel(R, task, out)
    for E, cfg, r in entry_runs(R, task):
        done(out, r)
        over = {}
        bp = cfg.get('b_parameter')
        if bp == 'beta':
            over['b'] = BETA
        elif bp == 'b_value':
            over['b'] = BVAL
        V = judge(r, out, over)
        want = RESULT.get(E.key)
        if E.key == 'shi_bolt_confidence':
            want = BETA if bp == 'beta' else BVAL
        if want and not r.dead:
            for x in leaves(r.result()):
                expect(V, x, want, f'{E.key} result', site_of(
                    R.I, E.qual), r, out)
        elif E.key in SCALED and not r.dead and bp:
            res = r.result()
            parts = res.a if res.op == 'tuple' else (res,)
            for i in SCALED[E.key]:
                if i < len(parts) and not (E.key == 'estimate_b' and i == 1
                                           and not cfg['return_std']):
                    for x in leaves(parts[i]):
                        expect(V, x, BETA if bp == 'beta' else BVAL,
                               f'{E.key} result {i}',
                               site_of(R.I, E.qual), r, out)
        out.sample(r.name)


def rel(R, task, out):
    _, key, i, j = task
    E = all_entries(R)[key]
    site = site_of(R.I, E.qual)
    for lab, cfg in list(rel_cfgs(E))[i:j]:
        res = []
        for bp in ('b_value', 'beta'):
            r = run_entry(R, E, dict(cfg, b_parameter=bp), None, lab)
            done(out, r)
            if r.dead:
                break
            res.append(r.result())
        if len(res) < 2:
            continue
        x, y = res
        if key in PARAM_IN:
            # f(b, 'b_value') with b = beta / ln10 is f(beta, 'beta')
            ln = t.mk('call', 'numpy.log', (t.num(10),), ())
            b = t.mk('in', 'b')
            x = t.rewrite(x, lambda z: t.div(b, ln) if z is b else None)
            if key == 'shi_bolt_confidence':
                relation(out, site, key, lab, y, x, LN10,
                         'result for beta over result for the b-value')
                continue
            q = ratio(y, x)
            if q is None:
                out.ob('undetermined: relation of beta and b-value')
            else:
                out.ob('relation of beta and b-value')
                if abs(q - 1) > 1e-4:
                    out.flag('units.beta', site, f'{key}|in',
                             'b and the equivalent beta give different '
                             f'results (factor {q:.4g})', lab)
            continue
        px = x.a if x.op == 'tuple' else (x,)
        py = y.a if y.op == 'tuple' else (y,)
        if len(px) != len(py):
            out.flag('units.arity', site, f'{key}|arity',
                     'the number of results depends on b_parameter', lab)
            continue
        sc = set(SCALED.get(key, (0,)))
        if key == 'estimate_b' and not cfg['return_std']:
            sc = {0}
        for n, (a, b) in enumerate(zip(px, py)):
            relation(out, site, key, lab, b, a, LN10 if n in sc else 1.0,
                     f'result {n} for beta over the one for the b-value')

"""P12: input the documentation rules out is refused with an exception."""
from .. import terms as t
from ..terms import mk, ZERO, TRUE, FALSE
from ..run import Spec, Ref, number, arr, lst
from ..entries import (bclasses, aclasses, calc_axes, calc_params, Entry)
from .base import cut
from .common import all_entries, configs, run_entry, done, site_of

RULE = 'every check of the input listed in the table INVALID is made on '\
       'the interpreted source: with arguments constrained to the invalid '\
       'range (lengths that differ in either direction, negative values, '\
       'magnitudes that are not binned, unknown option values, missing '\
       'completeness or bin width), no configuration of the other options '\
       'may have a normal exit'
ASSUMPTIONS = ['when an explicit raise depends on an undecided condition on '
               'the arguments in question, the obligation is undetermined']
INF = float('inf')
SMALL = 1e-9
CAP = {'quick': 24, 'thorough': None}


def L(n):
    return mk('len', mk('in', n))


def lens(a, b, d):
    """length of a is larger (d=1) or smaller (d=-1) than that of b"""
    x = t.sub(L(a), L(b))
    return {x: (1, 1) if d > 0 else (-1, -1), L(a): (1, INF),
            L(b): (1, INF)}


class Row:
    def __init__(self, name, keys, about, over=None, iv=None, facts=None,
                 skip=None, override=None, nan=False):
        self.name, self.keys, self.about = name, keys, about
        self.over, self.iv, self.facts = over or {}, iv or {}, facts or {}
        self.skip = skip or (lambda cfg: False)
        self.override = override
        self.nan = nan         # unless there is nothing to estimate from


def unbinned(I, fv, args, kwargs, node):
    """binning_test() says no to the magnitudes and the bin width; any other
    question about them is answered with yes"""
    a = fv.node.args
    names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
    got = dict(zip(names, args))
    got.update({k: v for k, v in kwargs.items() if k in names})
    if 'x' not in got or 'delta_x' not in got:
        return None
    x, d = I.reify(got['x']), I.reify(got['delta_x'])
    if 'magnitudes' not in t.inputs(x):
        return None
    if d is not mk('in', 'delta_m'):
        return None if 'delta_m' in t.inputs(d) else I.val(TRUE, 'bool')
    tol = None
    if 'tolerance' in got:
        y = I.reify(got['tolerance'])
        tol = float(y.a[0]) if y.op == 'num' else None
    else:
        pos = a.posonlyargs + a.args
        dd = dict(zip([x.arg for x in pos][len(pos) - len(a.defaults):],
                      a.defaults))
        v = getattr(dd.get('tolerance'), 'value', None)
        tol = v if isinstance(v, float) else None
    if tol is not None and tol > 1e-6:
        return I.val(TRUE, 'bool')
    return I.val(FALSE, 'bool')


def rows():
    W = dict(weights=arr(0))
    T = dict(times=arr())
    for d, w in ((1, 'more'), (-1, 'fewer')):
        yield Row(f'{w} magnitudes than weights', ('b', 'estimate_b'),
                  ('magnitudes', 'weights'), W,
                  lens('magnitudes', 'weights', d))
        yield Row(f'{w} magnitudes than times',
                  ('times', 'estimate_b_weichert', 'estimate_b_kijko_smit',
                   'b_significant_1D', 'plot_b_series_constant_nm'),
                  ('magnitudes', 'times'), T, lens('magnitudes', 'times', d))
        yield Row(f'{w} magnitudes than x-values',
                  ('b_significant_1D', 'plot_b_series_constant_nm',
                   'plot_b_significant_1D'),
                  ('magnitudes', 'x_variable'), dict(x_variable=arr()),
                  lens('magnitudes', 'x_variable', d))
        yield Row(f'{w} magnitude samples than time samples',
                  ('values_from_partitioning',),
                  ('list_magnitudes', 'list_times'), {},
                  lens('list_magnitudes', 'list_times', d))
        yield Row(f'{w} magnitude samples than completeness values',
                  ('values_from_partitioning',),
                  ('list_magnitudes', 'list_mc'), dict(list_mc=lst('num')),
                  lens('list_magnitudes', 'list_mc', d))
        yield Row(f'{w} colors than completeness values',
                  ('plot_cum_count',), ('color', 'mcs'),
                  dict(mcs=arr(), color=lst('str')), lens('color', 'mcs', d))
    yield Row('negative weights', ('b', 'estimate_b'), ('weights',),
              dict(weights=arr(None, -SMALL)),
              {t.sub(L('magnitudes'), L('weights')): (0, 0),
               L('weights'): (1, INF), L('magnitudes'): (1, INF)})
    w = mk('in', 'weights')
    neg, pos = t.cmp('<', w, ZERO), t.cmp('>=', w, ZERO)
    fn = lambda f, x: mk('call', f, (x,), ())
    yield Row('some negative weights', ('b', 'estimate_b'), ('weights',),
              dict(weights=arr()),
              {t.sub(L('magnitudes'), L('weights')): (0, 0),
               L('weights'): (1, INF), L('magnitudes'): (1, INF),
               fn('numpy.min', w): (-2 * SMALL, -SMALL),
               fn('numpy.sum', w): (SMALL, INF),
               fn('numpy.mean', w): (SMALL, INF),
               fn('numpy.max', w): (SMALL, INF)},
              {fn('numpy.any', neg): True, fn('numpy.all', pos): False,
               fn('numpy.all', neg): False, fn('numpy.any', pos): True})
    yield Row('negative dmc', ('dmc',), ('dmc',),
              dict(dmc=number(-2 * SMALL, -SMALL)), {L('magnitudes'): (1, INF)})
    yield Row('magnitudes which are not binned',
              ('b', 'a', 'estimate_b', 'estimate_a', 'estimate_mc_ks',
               'estimate_mc_b_stability', 'dither_magnitudes'),
              ('magnitudes', 'delta_m'), dict(delta_m=number(SMALL)),
              {L('magnitudes'): (1, INF)},
              skip=lambda c: 'mcs_test' in c and c.get('b_value') is not None,
              override={'seismostats.utils.binning.binning_test': unbinned})
    yield Row('unknown b_parameter',
              ('estimate_b', 'shi_bolt_confidence', 'estimate_b_weichert',
               'estimate_b_kijko_smit', 'simulate_magnitudes_binned'),
              ('b_parameter',), dict(b_parameter='neither'))
    yield Row('unknown bin_position', ('get_fmd', 'get_cum_fmd', 'plot_fmd',
                                       'plot_cum_fmd'),
              ('bin_position',), dict(bin_position='neither',
                                        fmd_bin=number(SMALL)))
    yield Row('unknown plot_technique', ('plot_b_series_constant_nm',),
              ('plot_technique',), dict(plot_technique='neither'))
    yield Row('no completeness magnitude', ('Catalog.estimate_b',
                                            'Catalog.estimate_a'),
              ('mc',), dict(mc=None),
              skip=lambda c: c['self'].attrs.get('mc') is not None)
    yield Row('no bin width', (
        'Catalog.estimate_b', 'Catalog.estimate_a', 'Catalog.estimate_mc_ks',
        'Catalog.estimate_mc_b_stability', 'Catalog.bin_magnitudes'),
        ('delta_m',), dict(delta_m=None),
        skip=lambda c: c['self'].attrs.get('delta_m') is not None)
    yield Row('reference magnitude without b-value', ('a', 'estimate_a'),
              ('m_ref', 'b_value'), dict(m_ref=number(), b_value=None),
              {L('magnitudes'): (1, INF)}, nan=True)
    yield Row('no b-value for the more positive method', ('a_needs_b',),
              ('b_value',), dict(b_value=None), {L('magnitudes'): (1, INF)})
    for v in (0, number(-2 * SMALL, -SMALL)):
        yield Row('bin width of 0 or less', ('get_fmd',), ('fmd_bin',),
                  dict(fmd_bin=v))
        yield Row('bin width of 0 or less', ('bin_to_precision',),
                  ('delta_x',), dict(delta_x=v))
    yield Row('bin width of 0', ('estimate_b_weichert',
                                 'estimate_b_kijko_smit'),
              ('delta_m',), dict(delta_m=0))
    yield Row('interpolation power of 0', ('reverse_dot_size',),
              ('interpolation_power',), dict(interpolation_power=0))
    yield Row('n_m below min_num', ('b_significant_1D',
                                    'plot_b_series_constant_nm'),
              ('n_m', 'min_num'), {},
              {t.sub(mk('in', 'n_m'), mk('in', 'min_num')): (-1, -1)})
    for d in (0, 1):
        yield Row('offset of n or more', ('cut_constant_idx',),
                  ('offset', 'n'), dict(offset=number(1)),
                  {t.sub(mk('in', 'offset'), mk('in', 'n')): (d, d)})
    yield Row('n1 above n2', ('transform_n',), ('n1', 'n2'), {},
              {t.sub(mk('in', 'n1'), mk('in', 'n2')): (1, 1)})
    a, b = mk('in', 'n1'), mk('in', 'n2')
    yield Row('some n1 above n2', ('transform_n',), ('n1', 'n2'),
              dict(n1=arr(None, 1), n2=arr(None, 1)),
              {t.sub(L('n1'), L('n2')): (0, 0), L('n1'): (2, INF),
               **{fn(f, t.sub(a, b)): iv for n, iv in (
                   ('max', (1, INF)), ('min', (-INF, -1)),
                   ('amax', (1, INF)), ('amin', (-INF, -1)))
                  for f in ('numpy.' + n, 'builtins.' + n, 'meth.' + n)}},
              {fn('numpy.any', t.cmp('>', a, b)): True,
               fn('numpy.all', t.cmp('<=', a, b)): False,
               fn('numpy.all', t.cmp('>', a, b)): False,
               fn('numpy.any', t.cmp('<=', a, b)): True,
               fn('meth.any', t.cmp('>', a, b)): True,
               fn('meth.all', t.cmp('<=', a, b)): False,
               fn('meth.all', t.cmp('>', a, b)): False,
               fn('builtins.any', t.cmp('>', a, b)): True,
               fn('builtins.all', t.cmp('<=', a, b)): False})
    yield Row('fewer than two values', ('est_morans_i',), ('values',), {},
              {L('values'): (1, 1)})
    yield Row('magnitudes below the completeness magnitude',
              ('ks_test_gr_lilliefors',), ('magnitudes', 'mc'),
              dict(magnitudes=arr(None, 0), mc=number(1)),
              {L('magnitudes'): (1, INF)})
    m, c = mk('in', 'magnitudes'), mk('in', 'mc')
    low, high = t.cmp('<', m, c), t.cmp('>=', m, c)
    yield Row('some magnitudes below the completeness magnitude',
              ('ks_test_gr_lilliefors',), ('magnitudes', 'mc'), {},
              {L('magnitudes'): (1, INF),
               **{t.sub(fn(f, m), c): iv for n, iv in (
                   ('min', (-1, -SMALL)), ('max', (SMALL, 1)),
                   ('mean', (SMALL, 1)), ('median', (SMALL, 1)),
                   ('nanmin', (-1, -SMALL)), ('nanmax', (SMALL, 1)),
                   ('amin', (-1, -SMALL)), ('amax', (SMALL, 1)))
                  for f in ('numpy.' + n, 'builtins.' + n,
                            'meth.' + n)}},
              {fn('numpy.any', low): True, fn('numpy.all', high): False,
               fn('numpy.all', low): False, fn('numpy.any', high): True,
               fn('builtins.any', low): True,
               fn('builtins.all', high): False})
    yield Row('no values', ('binning_test',), ('x',), {}, {L('x'): (0, 0)})


def targets(R, row):
    """(key or class, list of (label, config))"""
    E = all_entries(R)
    for k in row.keys:
        cl = {'b': bclasses, 'a': aclasses}.get(k)
        if cl or k in ('times', 'dmc', 'a_needs_b'):
            for ci in (cl(R) if cl else bclasses(R) + aclasses(R)):
                names, req, fv = calc_params(R, ci)
                if k in ('times', 'dmc') and k not in names:
                    continue
                if k == 'a_needs_b' and 'b_value' not in req or \
                        k == 'a' and 'm_ref' in row.over and \
                        'b_value' in req:
                    continue
                yield 'class', ci.qual
        elif k in E:
            yield 'entry', k


def cfgs(R, row, kind, key):
    if kind == 'class':
        ci = R.classinfo(key)
        base, axes = calc_axes(R, ci)
        E = Entry(ci.name, key, base, axes)
        c = list(E.configs())
    else:
        E, c = configs(R, key)
    out, seen = [], set()
    for lab, cfg in c:
        cfg = dict(cfg)
        if 'self' in cfg and row.skip(cfg):
            continue
        for n, v in row.over.items():
            cfg[n] = v
        if row.skip(cfg):
            continue
        if 'method' in cfg and isinstance(cfg['method'], Ref) and \
                cfg.get('times') is not None and 'times' not in calc_params(
                    R, R.classinfo(cfg['method'].qual))[0] and \
                key in ('estimate_b', 'estimate_a'):
            continue
        if row.name.startswith('reference') and kind == 'entry' and \
                'b_value' in calc_params(R, R.classinfo(
                    cfg['method'].qual))[1]:
            continue
        s = tuple(sorted((a, id(b) if isinstance(b, Spec) else str(
            getattr(b, 'qual', b))) for a, b in cfg.items()))
        if s in seen:
            continue
        seen.add(s)
        out.append((lab, cfg))
    cap = CAP[R.tier]
    if cap and len(out) > cap:
        step = len(out) / cap
        out = [out[int(i * step)] for i in range(cap)]
    return out


def tasks(R, tier):
    for i, row in enumerate(rows()):
        for kind, key in targets(R, row):
            n = len(cfgs(R, row, kind, key))
            for j in range(0, n, 8):
                yield (i, kind, key, j)


def names(pc):
    out = set()
    for x in pc:
        x = x[0] if isinstance(x, tuple) else x
        if isinstance(x, t.T):
            out |= t.inputs(x)
    return out


def run(R, row, kind, key, lab, cfg):
    R.prepare = lambda I: prepare(I, row)
    try:
        if kind == 'class':
            from ..entries import estimator_run
            return estimator_run(R, R.classinfo(key), lab, cfg)
        return run_entry(R, all_entries(R)[key], cfg, None, lab)
    finally:
        R.prepare = None


def prepare(I, row):
    for x, v in row.iv.items():
        I.intervals[x] = v
    for x, v in row.facts.items():
        I.assume(I.st, x, v)
    I.overrides.update(row.override or {})


def work(R, task, out):
    i, kind, key, j = task
    row = list(rows())[i]
    q = key if kind == 'class' else all_entries(R)[key].qual
    for lab, cfg in cfgs(R, row, kind, key)[j:j + 8]:
        r = run(R, row, kind, key, f'{lab}: {row.name}', cfg)
        done(out, r)
        out.ob('refused: ' + row.name)
        if r.dead or row.nan and r.result().op == 'const' \
                and 'nan' in str(r.result().a[0]):
            continue
        un = [e for e in r.evs('raise') if e.d.get('explicit') and
              set(row.about) <= names(e.pc[-1:])]
        if un:
            out.ob('undetermined: ' + row.name)
            continue
        site = site_of(R.I, q + ('.calculate' if kind == 'class' else ''))
        out.flag('invalid.accepted', site, f'{key}|{row.name}',
                 f'{row.name}: no exception', r.name)
        out.sample(r.name)
    out.sample(f'{key}: {row.name}')

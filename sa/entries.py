"""Public entry points and the finite option configurations they are analysed
under.  Everything that is not a finite option stays symbolic."""
import itertools
from . import terms as t
from .terms import mk, const, num, NONE, TRUE, FALSE
from .run import (Spec, Ref, arr, lst, number, series, opaque, string,
                  boolean, AnalysisError)

POS = 1e-9
S = 'seismostats.'
AN = 'seismostats.analysis.'
BV = 'seismostats.analysis.bvalue.'
DM = [('dm+', number(POS)), ('dm0', 0)]
DMP = [('dm+', number(POS))]


def opt(*alts):
    return list(alts)


def O(name, spec):
    """optional parameter: absent or given"""
    return [(f'no_{name}', None), (name, spec)]


class Entry:
    runner = None

    def __init__(self, key, qual, base, axes=None, skip=None, tags=()):
        self.key, self.qual, self.base = key, qual, base
        self.axes = axes or {}
        self.skip = skip
        self.tags = set(tags)

    def configs(self):
        names = list(self.axes)
        for combo in itertools.product(*[self.axes[n] for n in names]):
            cfg = dict(self.base)
            label = []
            for n, (lab, spec) in zip(names, combo):
                cfg[n] = spec
                if lab:
                    label.append(lab)
            lab = ','.join(label)
            if self.skip and self.skip(dict(zip(names, [c[0] for c in
                                                        combo]))):
                continue
            yield f'{self.key}[{lab}]', cfg


def concrete_subclasses(R, base_q):
    """concrete estimator classes, found from the source"""
    base = R.classinfo(base_q)
    out = []
    for q, ci in sorted(R.I.classes.items()):
        if ci is base or not ci.issub(base):
            continue
        k, o = ci.lookup('_estimate')
        if k is None or k is base:
            continue
        out.append(ci)
    return out


def bclasses(R):
    return concrete_subclasses(R, AN + 'bvalue.base.BValueEstimator')


def aclasses(R):
    return concrete_subclasses(R, AN + 'avalue.base.AValueEstimator')


def calc_params(R, ci):
    k, o = ci.lookup('calculate')
    fv = R.I.static.get(o).pl[1]
    a = fv.node.args
    names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs][1:]
    nd = len(a.defaults)
    pos = [x.arg for x in a.posonlyargs + a.args][1:]
    req = pos[:len(pos) - nd] if nd else pos
    return names, req, fv


CALC_SPECS = {
    'magnitudes': lambda: arr(),
    'mc': lambda: number(),
    'delta_m': None,
    'weights': lambda: arr(0),
    'times': lambda: arr(),
    'dmc': lambda: number(0),
    'scaling_factor': lambda: number(POS),
    'm_ref': lambda: number(),
    'b_value': lambda: number(POS),
}


def calc_axes(R, ci, dm=DM, over=None):
    names, req, fv = calc_params(R, ci)
    over = over or {}
    axes = {}
    base = {}
    for n in names:
        if n in over:
            v = over[n]
            if isinstance(v, list):
                axes[n] = v
            else:
                base[n] = v
            continue
        if n == 'delta_m':
            axes[n] = dm
        elif n in CALC_SPECS:
            sp = CALC_SPECS[n]()
            if n in req:
                base[n] = sp
            else:
                axes[n] = O(n, sp)
        elif n in req:
            base[n] = opaque()
    return base, axes


def method_axis(R, which='b'):
    cl = bclasses(R) if which == 'b' else aclasses(R)
    return [(c.name, Ref(c.qual)) for c in cl]


def no_times(R, key):
    has = {c.name for c in bclasses(R) + aclasses(R)
           if 'times' in calc_params(R, c)[0]}
    return lambda lab: (lab.get('times') == 'times'
                        and lab[key] not in has)


BOOL = [('F', False), ('T', True)]


def bools(name):
    return [('!' + name, False), (name, True)]


def M():
    return arr()


def entries(R):
    """functional entry points"""
    E = []
    add = lambda *a, **k: E.append(Entry(*a, **k))
    # ------------------------------------------------------------- b values
    add('estimate_b', AN + 'estimate_b',
        dict(magnitudes=M(), mc=number()),
        dict(delta_m=DM, weights=O('weights', arr(0)),
             b_parameter=[('b', 'b_value'), ('beta', 'beta')],
             return_std=bools('std'), return_n=bools('n'),
             method=method_axis(R)))
    add('estimate_a', AN + 'estimate_a',
        dict(magnitudes=M(), mc=number()),
        dict(delta_m=DM, scaling_factor=O('scaling', number(POS)),
             m_ref=O('m_ref', number())) | {
                 'b_value': [('b', number(POS))],
                 'method': [(c.name, Ref(c.qual)) for c in aclasses(R)]},
        tags=('a_times',))
    add('shi_bolt_confidence', AN + 'shi_bolt_confidence',
        dict(magnitudes=M(), b=number(POS)),
        dict(weights=O('weights', arr(0)),
             b_parameter=[('b', 'b_value'), ('beta', 'beta')]))
    add('b_value_to_beta', AN + 'b_value_to_beta', dict(b_value=number()))
    add('beta_to_b_value', AN + 'beta_to_b_value', dict(beta=number()))
    add('find_next_larger', BV + 'utils.find_next_larger',
        dict(magnitudes=M()), dict(delta_m=DM, dmc=O('dmc', number(0))))
    add('make_more_incomplete', AN + 'make_more_incomplete',
        dict(magnitudes=M(), times=arr()),
        dict(return_idx=bools('idx')))
    add('bootstrap_std', BV + 'utils.bootstrap_std',
        dict(sample=arr(), func=opaque(), n=number(1)),
        dict(random_state=O('seed', number(0))))
    add('estimate_b_weichert', AN + 'bvalue.weichert.estimate_b_weichert',
        dict(magnitudes=M(), times=arr(), completeness_table=arr(),
             mag_max=number(), delta_m=number(POS)),
        dict(last_year=O('last_year', number()),
             b_parameter=[('b', 'b_value'), ('beta', 'beta')]))
    add('estimate_b_kijko_smit',
        AN + 'bvalue.kijko_smit.estimate_b_kijko_smit',
        dict(magnitudes=M(), times=arr(), completeness_table=arr(),
             delta_m=number(POS)),
        dict(last_year=O('last_year', number()),
             b_parameter=[('b', 'b_value'), ('beta', 'beta')]))
    # ---------------------------------------------------------- completeness
    add('cdf_discrete_exp', AN + 'estimate_mc.cdf_discrete_exp',
        dict(magnitudes=M(), mc=number(), delta_m=number(POS),
             beta=number(POS)))
    add('ks_test_gr', AN + 'estimate_mc.ks_test_gr',
        dict(magnitudes=M(), mc=number(), delta_m=number(POS),
             b_value=number(POS), n=number(1)),
        dict(ks_ds=O('ks_ds', arr()), weights=O('weights', arr(0))))
    add('estimate_mc_ks', AN + 'estimate_mc_ks',
        dict(magnitudes=M(), delta_m=number(POS), n=number(1)),
        dict(mcs_test=O('mcs', arr()), p_value_pass=[('', number(0, 1))],
             stop_when_passed=bools('stop'), b_value=O('b', number(POS)),
             ks_ds_list=O('ks', lst(elem='arr')), verbose=bools('verbose'),
             b_method=method_axis(R), weights=O('weights', arr(0)),
             times=O('times', arr())), skip=no_times(R, 'b_method'))
    add('estimate_mc_maxc', AN + 'estimate_mc_maxc',
        dict(magnitudes=M(), fmd_bin=number(POS),
             correction_factor=number()))
    add('estimate_mc_b_stability', AN + 'estimate_mc_b_stability',
        dict(magnitudes=M(), delta_m=number(POS),
             stability_range=number(POS)),
        dict(mcs_test=O('mcs', arr()), stop_when_passed=bools('stop'),
             verbose=bools('verbose'), b_method=method_axis(R),
             weights=O('weights', arr(0)), times=O('times', arr())),
        skip=no_times(R, 'b_method'))
    add('apply_edwards', AN + 'magnitudes.apply_edwards',
        dict(mag_type=string(), mag=number()))
    add('ks_test_gr_lilliefors', AN + 'lilliefors.ks_test_gr_lilliefors',
        dict(magnitudes=M(), mc=number()))
    # ---------------------------------------------------------- significance
    add('est_morans_i', AN + 'b_significant.est_morans_i',
        dict(values=arr()),
        dict(w=O('w', arr()), mean_v=O('mean', number())))
    add('transform_n', AN + 'b_significant.transform_n',
        dict(b_estimate=number(POS), b_true=number(POS), n1=number(1),
             n2=number(1)))
    anym = method_axis(R) + method_axis(R, 'a')
    ab = {c.name for c in aclasses(R)}
    add('values_from_partitioning',
        AN + 'b_significant.values_from_partitioning',
        dict(list_magnitudes=lst('arr'), list_times=lst('arr'),
             delta_m=number(POS)),
        dict(list_mc=[('mc', number()), ('mcs', lst('num'))], method=anym,
             list_scaling=O('scaling', lst('num'))), tags=('needs_b',))
    add('cut_constant_idx', AN + 'b_significant.cut_constant_idx',
        dict(values=arr(), n=number(1)),
        dict(offset=[('o0', 0), ('o', number(1))]))
    add('b_significant_1D', AN + 'b_significant.b_significant_1D',
        dict(magnitudes=M(), times=arr(), n_m=number(2),
             min_num=number(2)),
        dict(delta_m=DM, mc=[('mc', number()), ('mcs', arr())],
             method=anym, x_variable=O('x', arr()),
             conservative=bools('cons')), tags=('needs_b',))
    # ---------------------------------------------------------- declustering
    DC = AN + 'declustering.'
    add('haversine', DC + 'utils.haversine',
        dict(longitudes=arr(), latitudes=arr(), target_longitude=number(),
             target_latitude=number()))
    # ---------------------------------------------------------------- binning
    add('normal_round', S + 'utils.normal_round',
        dict(x=number()), dict(n=[('n0', 0), ('n', number())]))
    add('bin_to_precision', S + 'utils.bin_to_precision',
        dict(delta_x=number(POS)), dict(x=[('a', arr()), ('l', lst('num'))]))
    add('binning_test', S + 'utils.binning_test', dict(),
        dict(x=[('a', arr()), ('l', lst('num'))],
             delta_x=[('dx+', number(POS)), ('dx0', 0)],
             check_larger_binning=bools('larger')))
    for f in ('get_fmd', 'get_cum_fmd'):
        add(f, S + 'utils.' + f, dict(),
            dict(magnitudes=[('a', arr()), ('l', lst('num'))],
                 fmd_bin=DMP if f == 'get_fmd' else DM,
                 weights=O('weights', arr(0)),
                 bin_position=[('center', 'center'), ('left', 'left')]))
    # ------------------------------------------------------------- simulation
    SD = S + 'utils.simulate_distributions.'
    add('simulate_magnitudes', SD + 'simulate_magnitudes',
        dict(n=number(0), beta=number(POS), mc=number()),
        dict(mag_max=[('nomax', None), ('max', number()), ('max0', 0)]))
    add('simulate_magnitudes_binned', SD + 'simulate_magnitudes_binned',
        dict(n=number(0), b=number(POS), mc=number()),
        dict(delta_m=DM, mag_max=[('nomax', None), ('max', number())],
             b_parameter=[('b', 'b_value'), ('beta', 'beta')]))
    add('dither_magnitudes', SD + 'dither_magnitudes',
        dict(magnitudes=M(), delta_m=number(POS), b_value=number(POS)))
    # -------------------------------------------------------------- filtering
    add('bounding_box_to_polygon', S + 'utils.bounding_box_to_polygon',
        dict(x_min=number(), x_max=number(), y_min=number(),
             y_max=number()))
    add('polygon_to_bounding_box', S + 'utils.polygon_to_bounding_box',
        dict(polygon=opaque()))
    # ------------------------------------------------------------------ plots
    P = S + 'plots.'
    AX = [('newax', None), ('ax', opaque())]
    add('gutenberg_richter', P + 'gutenberg_richter',
        dict(magnitudes=M(), b_value=number(POS), mc=number(),
             n_mc=number(0)))
    add('plot_cum_fmd', P + 'plot_cum_fmd', dict(magnitudes=M()),
        dict(mc=O('mc', number()),
             fmd_bin=[('nobin', None), ('bin', number(POS))],
             weights=O('weights', arr(0)), b_value=O('b', number(POS)),
             ax=AX, color_line=[('', string())],
             grid=bools('grid'),
             bin_position=[('center', 'center'), ('left', 'left')],
             label=[('l', True), ('!l', False)],
             label_line=[('ll', True), ('!ll', False)]))
    add('plot_fmd', P + 'plot_fmd', dict(magnitudes=M(),
                                         fmd_bin=number(POS)),
        dict(weights=O('weights', arr(0)), ax=AX, grid=bools('grid'),
             bin_position=[('center', 'center'), ('left', 'left')],
             label=[('l', True), ('!l', False)]))
    add('plot_cum_count', P + 'plot_cum_count',
        dict(times=arr(), magnitudes=M()),
        dict(mcs=O('mcs', arr()), delta_m=O('dm', number(POS)),
             weights=O('weights', arr(0)), normalize=bools('norm'), ax=AX,
             color=[('nocol', None), ('col', string()),
                    ('cols', lst('str'))]))
    add('plot_mags_in_time', P + 'plot_mags_in_time',
        dict(times=arr(), magnitudes=M()),
        dict(mc_change_times=O('mct', lst()), mcs=O('mcs', lst('num')),
             ax=AX, color_dots=[('col', string()), ('cols', arr())]))
    add('dot_size', P + 'dot_size',
        dict(magnitudes=M(), smallest=number(0), largest=number(0),
             interpolation_power=number(0)))
    add('reverse_dot_size', P + 'reverse_dot_size',
        dict(sizes=arr(), min_mag=number(), max_mag=number(),
             interpolation_power=number(POS)))
    add('plot_in_space', P + 'plot_in_space',
        dict(longitudes=arr(), latitudes=arr(), magnitudes=M()),
        dict(ax=AX, include_map=bools('map'), country=O('country', string()),
             dot_labels=[('auto', 'auto'), ('nolab', None),
                         ('lab', arr())],
             color_dots=[('col', string()), ('cols', arr())],
             color_map=O('cmap', string())))
    add('plot_mc_vs_b', P + 'plot_mc_vs_b',
        dict(magnitudes=M(), mcs=arr(), confidence_interval=number(0, 1)),
        dict(delta_m=DM, b_method=method_axis(R), ax=AX,
             label=O('label', string()), weights=O('weights', arr(0)),
             times=O('times', arr())), skip=no_times(R, 'b_method'))
    add('plot_b_series_constant_nm', P + 'plot_b_series_constant_nm',
        dict(magnitudes=M(), times=arr(), n_m=number(2), min_num=number(2),
             confidence_level=number(0, 1)),
        dict(delta_m=DM, mc=[('mc', number()), ('mcs', arr())],
             method=method_axis(R), x_variable=O('x', arr()),
             plot_technique=[('left', 'left'), ('mid', 'midpoint'),
                             ('right', 'right')],
             ax=AX, label=O('label', string())))
    add('plot_b_significant_1D', P + 'plot_b_significant_1D',
        dict(magnitudes=M(), times=arr(), min_num=number(2),
             p_threshold=number(0, 1)),
        dict(delta_m=DMP, mc=[('mc', number()), ('mcs', arr())],
             n_ms=O('n_ms', arr(2)), x_variable=O('x', arr()),
             conservative=bools('cons'),
             method=method_axis(R)[:2], ax=AX,
             label=O('label', string())))
    return E


def estimator_runs(R, ci, dm=DM, over=None, options=None, read=()):
    """construct, calculate and read every public accessor"""
    base, axes = calc_axes(R, ci, dm, over)
    E = Entry(ci.name, ci.qual, base, axes)
    for lab, cfg in E.configs():
        yield estimator_run(R, ci, lab, cfg, options, read)


def accessors(ci):
    out = []
    for c in ci.mro():
        for n in c.attrs:
            if not n.startswith('_') and n not in out:
                out.append(n)
    return out


def estimator_run(R, ci, lab, cfg, options=None, read=()):
    r = R.begin(lab, options)
    for k, s in cfg.items():
        r.args[k] = R.arg(k, s)
    cls = R.qual(ci.qual)
    o = R.call(cls)
    r.est = o
    r.ci = ci
    out = None
    if o is not None:
        r.init_attrs = dict(R.I.c(o).pl[2])
        m = R.getattr(o, 'calculate')
        out = R.call(m, [], dict(r.args))
    r.nevents = len(R.I.events)
    r.read = {}
    if out is not None:
        for n in read:
            v = R.getattr(o, n.removesuffix('()'))
            if v is not None and n.endswith('()'):
                v = R.call(v)
            if v is not None:
                r.read[n] = v
    R.finish(r, out)
    r.reading = r.events[r.nevents:]
    r.events = r.events[:r.nevents]
    return r


# ------------------------------------------------------------------ catalogs
CAT = 'seismostats.catalogs.catalog.'
RG = 'seismostats.catalogs.rategrid.'


CAT_COLS = ('longitude', 'latitude', 'depth', 'time', 'magnitude',
            'magnitude_type')
GRID_COLS = ('longitude_min', 'longitude_max', 'latitude_min',
             'latitude_max', 'depth_min', 'depth_max', 'a', 'b', 'mc')


def cat(cls=CAT + 'Catalog', colset=CAT_COLS, **attrs):
    base = dict(mc=None, delta_m=None, b_value=None, a_value=None,
                name=opaque(), starttime=opaque(), endtime=opaque(),
                bounding_polygon=opaque(), depth_min=number(),
                depth_max=number())
    base.update(attrs)
    return Spec('catalog', cls=cls, attrs=base, cols={}, colset=colset)


def grid(cls=RG + 'GRRateGrid', colset=GRID_COLS, **attrs):
    base = dict(name=opaque(), starttime=opaque(), endtime=opaque())
    base.update(attrs)
    return Spec('catalog', cls=cls, attrs=base, cols={}, colset=colset)


def catalog_entries(R):
    E = []

    def add(meth, base, axes=None, attrs=(), skip=None, cls='Catalog'):
        q = CAT + cls + '.' + meth
        ax = {'self': self_axis(attrs, CAT + cls)}
        if meth in ('estimate_b', 'estimate_a'):
            # with the per-event columns the estimators can pick up
            ax['self'] = ax['self'] + [
                (lab + '+weight', cat(CAT + cls, CAT_COLS + ('weight',),
                                      **s.attrs))
                for lab, s in ax['self']]
        ax.update(axes or {})
        E.append(Entry('Catalog.' + meth if cls == 'Catalog'
                       else cls + '.' + meth, q, base, ax, skip,
                       tags=('catalog',)))

    def self_axis(attrs, cls):
        opts = {'mc': [('', None), ('self.mc', number())],
                'delta_m': [('', None), ('self.dm', number(POS)),
                            ('self.dm0', 0)],
                'b_value': [('', None), ('self.b', number(POS))]}
        out = []
        for combo in itertools.product(*[opts[a] for a in attrs]):
            lab = '+'.join(c[0] for c in combo if c[0])
            out.append((lab, cat(cls, **{a: c[1] for a, c in
                                         zip(attrs, combo)})))
        return out
    bm = method_axis(R)
    am = method_axis(R, 'a')
    dm = [('no_dm', None), ('dm+', number(POS)), ('dm0', 0)]
    mc = [('no_mc', None), ('mc', number())]
    AX = [('newax', None), ('ax', opaque())]
    add('estimate_b', {}, dict(mc=mc, delta_m=dm, weights=O('w', arr(0)),
                               method=bm), ('mc', 'delta_m'))
    add('estimate_a', {}, dict(mc=mc, delta_m=dm,
                               scaling_factor=O('scaling', number(POS)),
                               m_ref=O('m_ref', number()),
                               b_value=O('b', number(POS)), method=am),
        ('mc', 'delta_m'),
        skip=lambda c: (c['m_ref'] == 'm_ref' and c['b_value'] == 'no_b'))
    add('estimate_mc_maxc', dict(fmd_bin=number(POS)),
        dict(correction_factor=[('cf', number())]))
    add('estimate_mc_ks', dict(n=number(1)),
        dict(delta_m=dm[:2], mcs_test=O('mcs', arr()),
             p_value_pass=[('', number(0, 1))],
             stop_when_passed=bools('stop'), b_value=O('b', number(POS)),
             b_method=bm[:2], ks_ds_list=O('ks', lst(elem='arr')),
             verbose=bools('verbose')), ('delta_m', 'b_value'))
    add('estimate_mc_b_stability', {},
        dict(delta_m=dm[:2], mcs_test=O('mcs', arr()),
             stop_when_passed=bools('stop'), b_method=bm[:2],
             stability_range=[('', number(POS))],
             verbose=bools('verbose')), ('delta_m',))
    add('bin_magnitudes', {}, dict(delta_m=dm[:2], inplace=bools('inplace')),
        ('delta_m',))
    add('strip', {}, dict(inplace=bools('inplace')))
    for n in ('drop_uncertainties', 'drop_ids'):
        add(n, {})
    add('to_quakeml', dict(agencyID=string(), author=string()))
    add('plot_in_space', {}, dict(
        ax=AX, include_map=bools('map'), country=O('country', string()),
        dot_labels=[('auto', 'auto'), ('lab', arr())],
        color_dots=[('col', string()), ('cols', arr())]))
    add('plot_cum_count', {}, dict(
        mcs=O('mcs', arr()), delta_m=O('dm', number(POS)),
        weights=O('w', arr(0)), normalize=bools('norm'), ax=AX),
        ('delta_m',))
    add('plot_mags_in_time', {}, dict(
        mc_change_times=O('mct', lst()), mcs=O('mcs', lst('num')), ax=AX))
    add('plot_cum_fmd', {}, dict(
        mc=mc, fmd_bin=[('no_bin', None), ('bin', number(POS))],
        weights=O('w', arr(0)), b_value=O('b', number(POS)), ax=AX),
        ('mc', 'delta_m', 'b_value'))
    add('plot_fmd', dict(fmd_bin=number(POS)),
        dict(weights=O('w', arr(0)), ax=AX))
    add('plot_mc_vs_b', dict(mcs=arr(), confidence_interval=number(0, 1)),
        dict(delta_m=dm, b_method=bm[:2], ax=AX), ('delta_m',))
    return E


def grid_entries(R):
    E = []
    G, F = RG + 'GRRateGrid', RG + 'ForecastGRRateGrid'
    add = lambda n, q, base, axes=None: E.append(
        Entry(n, q, base, axes, tags=('grid',)))
    add('GRRateGrid.strip', G + '.strip', dict(self=grid()),
        dict(inplace=bools('inplace')))
    add('GRRateGrid.add_time_index', G + '.add_time_index',
        dict(self=grid()), dict(endtime=bools('endtime')))
    add('ForecastGRRateGrid.calculate_statistics',
        F + '.calculate_statistics', dict(self=grid(F)),
        dict(agg_func=[('', string())],
             extra_stats=[('', None), ('x', {'std': 'std'})]))
    return E


class MethodEntry(Entry):
    """method called on an instance the analysis constructs; configuration
    names starting with 'new.' are constructor arguments"""

    def __init__(self, key, cls, meth, base, axes=None, skip=None, tags=()):
        super().__init__(key, cls, base, axes, skip, tags)
        self.meth = meth

    def runner(self, R, cfg, options, lab):
        r = R.begin(lab, options)
        new, args = {}, {}
        for k, s in cfg.items():
            if k.startswith('new.'):
                new[k[4:]] = R.arg(k[4:], s)
            else:
                args[k] = r.args[k] = R.arg(k, s)
        o = R.call(R.qual(self.qual), [], new)
        r.est = o
        out = None
        r.nnew = len(R.I.events)
        if o is not None:
            m = R.getattr(o, self.meth)
            if m is not None:
                out = R.call(m, [], args)
        return R.finish(r, out)


def instance(cls, **init):
    """argument which is an instance of a project class"""
    def build(R, nm):
        kw = {k: R.arg(nm + '.' + k, s) for k, s in init.items()}
        return R.call(R.qual(cls), [], kw)
    return Spec('inst', build=build)


def windows(R):
    b = R.classinfo(AN + 'declustering.distance_time_windows.'
                    'BaseDistanceTimeWindow')
    return [ci for q, ci in sorted(R.I.classes.items())
            if ci is not b and ci.issub(b)]


def misc_entries(R):
    E = []
    add = lambda *a, **k: E.append(Entry(*a, **k))
    meth = lambda *a, **k: E.append(MethodEntry(*a, **k))
    add('cat_intersect_polygon', S + 'utils.cat_intersect_polygon',
        dict(cat=Spec('df'), polygon_vertices=lst()))
    # ---- coordinates
    CT = S + 'utils.coordinates.CoordinateTransformer'
    ctor = {'new.local_proj': opaque(), 'new.ref_easting': number(),
            'new.ref_northing': number(), 'new.ref_altitude': number()}
    rp = O('new.ref_proj', opaque())
    for m, a, b in (('to_local_coords', 'lon', 'lat'),
                    ('from_local_coords', 'easting', 'northing')):
        meth('CoordinateTransformer.' + m, CT, m,
             ctor | {a: arr(), b: arr()},
             {'altitude': O('alt', arr()), 'new.ref_proj': rp})
    for m in ('polygon_to_local_coords', 'polygon_from_local_coords'):
        meth('CoordinateTransformer.' + m, CT, m,
             ctor | dict(polygon=opaque()), {'new.ref_proj': rp})
    # ---- declustering
    D = AN + 'declustering.'
    for w in windows(R):
        meth(w.name, w.qual, '__call__', dict(magnitude=arr()),
             {'new.time_cutoff': [('nocut', None), ('cut', number(POS)),
                                  ('cut0', 0)]}, tags=('window',))
        meth('GardnerKnopoffType1/' + w.name,
             D + 'dec_gardner_knopoff.GardnerKnopoffType1', '__call__',
             {'catalog': cat(colset=CAT_COLS), 'new.time_distance_window':
              instance(w.qual)},
             {'new.fs_time_prop': [('fs', number(0))]},
             tags=('decluster',))
    # ---- client
    names = ('min_latitude', 'max_latitude', 'min_longitude',
             'max_longitude', 'min_magnitude', 'max_magnitude')
    C = S + 'catalogs.client.FDSNWSEventClient'
    meth('FDSNWSEventClient.get_events', C, 'get_events',
         {'new.url': string()} | {n: number() for n in names}
         | dict(start_time=opaque(), end_time=opaque(),
                event_type=string()),
         dict(batch_size=[('nobatch', None), ('batch', number(1))],
              delta_m=[('nodm', None), ('dm+', number(POS))],
              include_all_magnitudes=bools('all'),
              include_uncertainty=bools('unc'), include_ids=bools('ids'),
              include_quality=bools('qual')), tags=('client',))
    meth('FDSNWSEventClient.get_events/none', C, 'get_events',
         {'new.url': string()},
         dict(batch_size=[('nobatch', None), ('batch', number(1))]),
         tags=('client',))
    # ---- catalogs
    add('Catalog.from_dict', CAT + 'Catalog.from_dict',
        dict(self=Ref(CAT + 'Catalog'), data=lst()),
        dict(include_uncertainties=bools('unc'), include_ids=bools('ids')),
        tags=('catalog',))
    add('Catalog.from_quakeml', CAT + 'Catalog.from_quakeml',
        dict(self=Ref(CAT + 'Catalog'), quakeml=string()),
        dict(include_all_magnitudes=bools('all'),
             include_uncertainties=bools('unc'), include_ids=bools('ids'),
             include_quality=bools('qual')), tags=('catalog',))
    add('Catalog.from_openquake', CAT + 'Catalog.from_openquake',
        dict(self=Ref(CAT + 'Catalog'), oq_catalogue=opaque()), dict(keep_time_cols=bools('keep')),
        tags=('catalog',))
    add('Catalog.to_openquake', CAT + 'Catalog.to_openquake',
        dict(self=cat()), tags=('catalog',))
    add('ForecastCatalog.to_quakeml', CAT + 'ForecastCatalog.to_quakeml',
        dict(self=cat(CAT + 'ForecastCatalog', CAT_COLS + ('catalog_id',)),
             agencyID=string(), author=string()), tags=('catalog',))
    for c in ('Catalog', 'ForecastCatalog'):
        add(c, CAT + c, dict(name=opaque(), starttime=opaque(),
                             endtime=opaque(), mc=number(),
                             delta_m=number(), b_value=number(),
                             a_value=number(), bounding_polygon=opaque(),
                             depth_min=number(), depth_max=number()),
            dict(data=[('nodata', None), ('df', Spec('df')),
                       ('dict', opaque())]), tags=('catalog', 'ctor'))
    for c in ('GRRateGrid', 'ForecastGRRateGrid'):
        add(c, RG + c, dict(name=opaque(), starttime=opaque(),
                            endtime=opaque()),
            dict(data=[('df', Spec('df')), ('dict', opaque())]),
            tags=('grid', 'ctor'))
    add('GRRateGrid.concat', RG + 'GRRateGrid.concat',
        dict(self=Ref(RG + 'GRRateGrid'), grids=lst('opaque')), tags=('grid',))
    # ---- io
    for f in ('parse_quakeml_file', 'parse_quakeml',
              'parse_quakeml_response'):
        p = R.params(S + 'io.parser.' + f)[0]
        add(f, S + 'io.parser.' + f,
            {p: opaque() if 'response' in f else string()},
            dict(include_all_magnitudes=bools('all'),
                 include_quality=bools('qual')), tags=('io',))
    return E

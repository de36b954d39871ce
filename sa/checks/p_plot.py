"""P24: plots draw the data, on their own axes only."""
from fractions import Fraction
from .. import terms as t
from ..terms import mk, NONE
from ..algebra import TooBig
from .base import cut
from .common import all_entries, entry_tasks, entry_runs, done, site_of
from .formula import Space, judge as compare, V, parts
from .p_mc import bind
from ..entries import bclasses

RULE = 'every drawing call of a plot function is traced to the object it '\
       'acts on (the Axes passed, or one newly created) and to the arrays '\
       'it draws, which must be the data named in the documentation; bands '\
       'are compared with line +- quantile * standard deviation, the '\
       'Gutenberg-Richter line and the dot sizes with their formulas'
ASSUMPTIONS = ['matplotlib and cartopy draw what they are given']
PLOTS = ('plot_cum_fmd', 'plot_fmd', 'plot_cum_count', 'plot_mags_in_time',
         'plot_in_space', 'plot_mc_vs_b', 'plot_b_series_constant_nm',
         'plot_b_significant_1D', 'Catalog.plot_in_space',
         'Catalog.plot_cum_count', 'Catalog.plot_mags_in_time',
         'Catalog.plot_cum_fmd', 'Catalog.plot_fmd', 'Catalog.plot_mc_vs_b')
CAP = {'quick': 300, 'thorough': 1000}
ARTISTS = {'plot', 'scatter', 'step', 'fill_between', 'bar', 'hist', 'errorbar',
           'axhline', 'axvline', 'fill', 'stairs', 'stackplot', 'vlines',
           'hlines', 'semilogy', 'semilogx', 'loglog', 'add_geometries',
           'add_image', 'gridlines', 'set_extent', 'legend', 'grid', 'text',
           'set_xlabel', 'set_ylabel', 'set_yscale', 'set_xscale',
           'set_title', 'set_xlim', 'set_ylim', 'annotate'}
WIPE = {'cla', 'clear', 'remove', 'set_axis_off', 'clf', 'delaxes',
        'invert_yaxis', 'invert_xaxis'}
FRESH = {'matplotlib.pyplot.subplots', 'matplotlib.pyplot.figure',
         'matplotlib.pyplot.gcf', 'matplotlib.pyplot.axes',
         'matplotlib.pyplot.get_cmap', 'matplotlib.pyplot.colormaps',
         'matplotlib.pyplot.subplot_mosaic'}
REUSE = {'matplotlib.pyplot.gca', 'matplotlib.pyplot.subplot',
         'matplotlib.pyplot.sca'}
HARMLESS = {'matplotlib.pyplot.get_cmap', 'matplotlib.pyplot.colormaps',
            'matplotlib.pyplot.Normalize', 'matplotlib.pyplot.Axes',
            'matplotlib.pyplot.cm'}


def tasks(R, tier):
    for k in PLOTS:
        if k in all_entries(R):
            yield from entry_tasks(R, CAP[tier], keys={k}, chunk=6)
    yield ('sizes',)


def mark_estimators(R, I):
    """b-values and standard deviations of all estimators become marks"""
    last = [NONE]

    def calc(I_, fv, args, kwargs, node):
        d = bind(I_, fv, args, kwargs)
        last[0] = d.get('magnitudes', NONE)
        return I_.val(mk('call', '#b', (last[0],), ()))

    def read(mark):
        return lambda I_, fv, args, kwargs, node: I_.val(
            mk('call', mark, (last[0],), ()))
    for ci in bclasses(R):
        for n, f in (('calculate', calc), ('b_value', read('#b')),
                     ('value', read('#b')), ('std', read('#std')),
                     ('beta', read('#beta')),
                     ('std_beta', read('#std_beta')), ('n', read('#n'))):
            k, o = ci.lookup(n)
            if k is not None:
                I.overrides[f'{k.qual}.{n}'] = f


# -------------------------------------------------------------------- target
def targets(E, cfg, r, out):
    lab = r.name
    given = cfg.get('ax') is not None
    site = site_of(r.interp, E.qual)
    res = r.result()
    if res is None:
        return None
    me = mk('in', 'ax') if given else res
    out.ob('the Axes is returned')
    if given and res is not me and (
            res is NONE or res.op in ('tuple', 'list', 'num', 'const') or
            any(y.op == 'call' and str(y.a[0]).startswith('matplotlib')
                or y.op == 'attr' and y.a[0] is me
                for y in parts(res))):
        out.flag('plot.axes', site, 'result',
                 f'{cut(t.show(res, 2), 60)} is returned, not the Axes given',
                 lab)
    if not given:
        bad = None
        calls = {str(y.a[0]) for y in parts(res) if y.op == 'call'}
        if res is NONE or res.op in ('tuple', 'list', 'num', 'const'):
            bad = f'{cut(t.show(res, 2), 60)} is returned, not the Axes'
        elif calls & REUSE:
            bad = f'{sorted(calls & REUSE)[0]} can return Axes which were '\
                  'drawn on before, not new ones'
        elif res.op == 'attr' and res.a[1] in ('axes', 'gca') or \
                res.op == 'call' and 'gca' in str(res.a[0]):
            bad = 'existing Axes of the current figure are used'
        if bad:
            out.flag('plot.axes', site, 'new', bad, lab)
            me = res
    for e in r.evs('extcall'):
        n = e.d['name']
        if not n.startswith('matplotlib.pyplot.') or n in HARMLESS:
            continue
        out.ob('use of matplotlib.pyplot')
        if given:
            out.flag('plot.axes', e.site, f'{e.site[2]}|{n}',
                     f'{n} is called although Axes are given', lab)
        elif n not in FRESH and n not in REUSE:
            out.flag('plot.axes', e.site, f'{e.site[2]}|{n}',
                     f'{n} acts on the current figure of the user', lab)
    fams = {y for y in parts(res)} | {me}
    for e in r.evs('methcall'):
        n, x = e.d['name'], e.d['recv']
        if n not in ARTISTS | WIPE:
            continue
        if n in WIPE and x is me:
            out.flag('plot.axes', e.site, f'{e.site[2]}|{n}',
                     f'{n}() changes what was drawn on the Axes before', lab)
        if n in ARTISTS and x.op != 'in' and x is not me and (
                x in fams or any(z is me for z in parts(x)) or any(
                    y.op == 'call' and str(y.a[0]).startswith(
                        'matplotlib.pyplot') for y in parts(x))):
            tw = any(y.op == 'call' and 'twin' in str(y.a[0])
                     for y in parts(x))
            if not tw and n in ('plot', 'scatter', 'step', 'fill_between'):
                out.flag('plot.axes', e.site, f'{e.site[2]}|{n}',
                         f'{n} draws on {cut(t.show(x, 2), 50)}, not on the '
                         'Axes of the plot', lab)
        if x is me:
            out.ob('drawing call')
    return me


def calls(r, me, *names):
    return [e for e in r.evs('methcall') if e.d['name'] in names and
            e.d['recv'] is me]


def xy(e):
    a, k = e.d['args'], e.d['kwargs']
    x = a[0] if a else k.get('x')
    y = a[1] if len(a) > 1 else k.get('y')
    return x, y


def what(x):
    return cut(t.show(x, 3), 60)


def root(x):
    """the array which is drawn, without conversions"""
    while x.op == 'call' and x.a[0] in (
            'numpy.array', 'numpy.asarray', 'builtins.list',
            'numpy.asanyarray') and x.a[1] or x.op == 'astype':
        x = x.a[0] if x.op == 'astype' else x.a[1][0]
    return x


def pair(e, wx, wy, r, out, names):
    """the artist draws wy over wx"""
    x, y = xy(e)
    if x is None or y is None:
        return
    out.ob('what is drawn')
    for g, w, ax in ((root(x), wx, 'x'), (root(y), wy, 'y')):
        if g is w or w is None:
            continue
        ins = t.inputs(g)
        # something made of the data alone
        if ins and ins <= names and not any(
                q.op in ('fold', 'map', 'mu', 'phi') for q in parts(g)):
            out.flag('plot.data', e.site, f'{e.site[2]}|{ax}',
                     f'{ax} of {e.d["name"]} is {what(g)} instead of '
                     f'{t.show(w, 2)}', r.name)


# ---------------------------------------------------------------------- data
def stand_in(R, key, marks):
    q = R.func(all_entries(R)[key].qual).qual
    seen = []

    def f(I, fv, args, kwargs, node):
        seen.append(bind(I, fv, args, kwargs))
        return I.mk_tuple([I.val(mk('in', n)) for n in marks])
    return q, f, seen


FMD = ('#bins', '#counts', '#mags')
SIG = ('#p', '#mac', '#mu', '#std')


def fmd(E, cfg, r, me, out):
    names = set(FMD) | {'fmd_bin', 'magnitudes', 'weights', 'mc'}
    b, c = mk('in', '#bins'), mk('in', '#counts')
    for e in calls(r, me, 'scatter')[:1]:
        pair(e, b, c, r, out, names)
    if cfg.get('b_value') is None:
        return
    for e in calls(r, me, 'plot', 'step'):
        x, y = xy(e)
        if x is None or y is None:
            continue
        S = Space(r.interp)
        m = mk('in', '#mags')
        S.extra |= parts(x) | {m}
        # number of events above mc
        cand = [z for z in parts(y) if (
            z.op in ('len', 'sum') or z.op == 'call' and
            str(z.a[0]).endswith(('sum', 'count_nonzero', 'len')))
            and 'weights' not in t.inputs(z) and '#mags' in t.inputs(z)]
        w = [z for z in parts(y) if (
            z.op == 'sum' or z.op == 'call' and
            str(z.a[0]).endswith('sum')) and 'weights' in t.inputs(z)]
        if '#mags' not in t.inputs(y):
            continue
        out.ob('height of the Gutenberg-Richter line')
        if cfg.get('weights') is not None and not w and cand:
            out.flag('plot.line', e.site, f'{e.site[2]}|weights',
                     'the line has the height of the number of events, the '
                     'points that of their weights', r.name)
            continue
        n = sorted(w if cfg.get('weights') is not None else cand,
                   key=lambda z: len(parts(z)))
        mins = [z for z in parts(y) if z.op == 'call' and
                str(z.a[0]).endswith('.min')] + [
            z for z in parts(y) if z.op == 'call' and z.a[0] ==
            'numpy.min']
        S.extra |= set(n) | set(mins)
        bv = V(S, 'b_value')
        wants = []
        for k in n:
            for mn in mins + [t.getitem(x, t.num(0))]:
                wants.append(S(k) * ((S(x) - S(mn)) * bv * S.L10 *
                                     -1).exp())
        if wants:
            try:
                compare(out, S, S(y), wants,
                        'height of the Gutenberg-Richter line', e.site,
                        'line', 'line through (mc, number above mc) with '
                        'slope -b', r.name)
            except TooBig:
                pass


def band(r, me, out, center, spread, quant, names):
    """fill_between covers center +- quantile * spread"""
    lines = calls(r, me, 'plot')
    for e in calls(r, me, 'fill_between'):
        a, k = e.d['args'], e.d['kwargs']
        x = a[0] if a else k.get('x')
        y1 = a[1] if len(a) > 1 else k.get('y1')
        y2 = a[2] if len(a) > 2 else k.get('y2')
        if None in (x, y1, y2):
            continue
        out.ob('band')
        S = Space(r.interp)
        mid = t.mul(t.div(t.num(1), t.num(2)), t.add(y1, y2))
        half = t.mul(t.div(t.num(1), t.num(2)), t.sub(y2, y1))
        mi, hi = marks(mid), marks(half)
        if mi and not mi <= {center}:
            out.flag('plot.band', e.site, f'{e.site[2]}|center',
                     f'the band is around {", ".join(sorted(mi))}: '
                     f'{what(mid)}', r.name)
        elif mi and lines and not any(mid is xy(z)[1] for z in lines):
            if mid.op == 'lin':
                out.flag('plot.band', e.site, f'{e.site[2]}|center',
                         f'the band is not centred on the line: '
                         f'{what(mid)}', r.name)
        if half.op == 'num':
            out.flag('plot.band', e.site, f'{e.site[2]}|width',
                     'the band has no width', r.name)
        elif hi and not hi <= {spread}:
            out.flag('plot.band', e.site, f'{e.site[2]}|spread',
                     f'the width of the band is that of '
                     f'{", ".join(sorted(hi))}: {what(half)}', r.name)
        ps = [z for z in parts(half) if z.op == 'call' and str(
            z.a[0]).startswith('scipy.stats.norm')]
        if hi == {spread}:
            out.ob('quantile of the band')
            want = quant
            if not ps:
                if half.op in ('lin', 'mono') and not any(
                        z.op == 'call' and 'stats' in str(z.a[0])
                        for z in parts(half)):
                    out.flag('plot.band', e.site, f'{e.site[2]}|quantile',
                             f'the width of the band does not depend on '
                             f'the confidence: {what(half)}', r.name)
            else:
                z = ps[0]
                n = str(z.a[0]).rsplit('.', 1)[1]
                arg = z.a[1][0]
                ok = {'ppf': want[:1], 'isf': want[1:]}.get(n)
                if ok is not None and t.inputs(arg) <= names and arg \
                        not in ok and not (
                            n == 'ppf' and arg is want[1] and neg(half, z)):
                    out.flag('plot.band', e.site, f'{e.site[2]}|quantile',
                             f'quantile {what(arg)} of the normal '
                             f'distribution instead of '
                             f'{t.show(ok[0], 3)}', r.name)
                elif half.op == 'lin' and half.a[0] != 0 or half.op == \
                        'lin' and len(half.a[1]) == 1 and (
                            half.a[1][0][1] not in (1, -1)
                            or half.a[1][0][1] == -1
                            and not (n == 'ppf' and arg is want[1])):
                    out.flag('plot.band', e.site, f'{e.site[2]}|width',
                             f'half the width of the band is {what(half)}',
                             r.name)
        for z in lines[:1]:
            lx = xy(z)[0]
            if lx is not None and lx is not x and t.inputs(lx) != \
                    t.inputs(x):
                out.flag('plot.band', e.site, f'{e.site[2]}|x',
                         f'the band is drawn over {what(x)}, the line over '
                         f'{what(lx)}', r.name)


def neg(half, z):
    return half.op == 'lin' and len(half.a[1]) == 1 and half.a[1][0][1] < 0


def component(y):
    """the k-th part of an element of a sequence of tuples"""
    x, k = y.a[0], y.a[1]
    if x.op == 'at':
        x = x.a[0]
    if x.op == 'map':
        x = x.a[3]
    if x.op == 'tuple' and t.is_num(k) and 0 <= k.a[0] < len(x.a):
        return x.a[int(k.a[0])]


def marks(x):
    """which results the values of x are made of"""
    out, seen, todo = set(), set(), [x]
    while todo:
        y = todo.pop()
        if isinstance(y, tuple):
            todo += y
        if not isinstance(y, t.T) or y.id in seen:
            continue
        seen.add(y.id)
        if y.op in ('in', 'call') and isinstance(y.a[0], str) and \
                y.a[0].startswith('#'):
            if y.a[0] != '#n':
                out.add(y.a[0])
        elif y.op == 'phi':
            todo += y.a[1:]             # not the condition
        elif y.op in ('item', 'get') and len(y.a) > 1 and \
                component(y) is not None:
            todo.append(component(y))
        elif y.op == 'map':
            todo.append(y.a[3])         # what is mapped is in the element
        elif y.op in ('sel', 'take', 'at', 'get'):
            todo.append(y.a[0])         # not the selection
        elif y.op == 'setitem':
            todo += [y.a[0], y.a[2]]
        else:
            todo += y.a
    return out


def conf(name):
    c = mk('in', name)
    half = t.div(t.num(1), t.num(2))
    return [t.mul(half, t.add(t.num(1), c)),
            t.mul(half, t.sub(t.num(1), c))]


def data(E, cfg, r, me, out):
    k = E.key
    I = lambda n: mk('in', n)  # noqa: E731
    if k in ('plot_fmd', 'plot_cum_fmd'):
        fmd(E, cfg, r, me, out)
    elif k == 'plot_mags_in_time':
        for e in calls(r, me, 'scatter')[:1]:
            pair(e, I('times'), I('magnitudes'), r, out,
                 {'times', 'magnitudes'})
            size(e, r, out)
        if cfg.get('mcs') is not None and cfg.get('mc_change_times') is \
                not None:
            out.ob('steps of the completeness')
            es = calls(r, me, 'step', 'plot', 'stairs')
            for e in es:
                w = e.d['kwargs'].get('where')
                if e.d['name'] == 'step' and (w is None or w.op == 'const'
                                              and w.a[0] != 'post'):
                    out.flag('plot.data', e.site, f'{e.site[2]}|where',
                             'the completeness changes before the time '
                             'given for it', r.name)
                x, y = xy(e)
                if x is not None and y is not None and \
                        'mcs' in t.inputs(x) and 'mcs' not in t.inputs(y):
                    out.flag('plot.data', e.site, f'{e.site[2]}|mc',
                             'times and completeness are swapped', r.name)
    elif k == 'plot_in_space':
        for e in calls(r, me, 'scatter')[:1]:
            pair(e, I('longitudes'), I('latitudes'), r, out,
                 {'longitudes', 'latitudes', 'magnitudes'})
            size(e, r, out)
            out.ob('coordinates are geographic')
            tr = e.d['kwargs'].get('transform')
            if tr is None:
                out.flag('plot.data', e.site, f'{e.site[2]}|transform',
                         'the coordinates are not marked as longitude and '
                         'latitude (transform)', r.name)
    elif k == 'plot_cum_count':
        for e in calls(r, me, 'step', 'plot'):
            x, y = xy(e)
            out.ob('what is drawn')
            if x is not None and y is not None and \
                    'times' not in t.inputs(x) and 'times' in t.inputs(y):
                out.flag('plot.data', e.site, f'{e.site[2]}|swap',
                         'time is drawn on the y axis', r.name)
            w = e.d['kwargs'].get('where')
            if e.d['name'] == 'step' and (w is None or w.op == 'const' and
                                          w.a[0] != 'post'):
                out.flag('plot.data', e.site, f'{e.site[2]}|where',
                         'the count rises before the event', r.name)
            if x is not None and y is not None:
                timeline(e, x, r, out)
                count(e, y, cfg, r, out)
    elif k == 'plot_mc_vs_b':
        for e in calls(r, me, 'plot')[:1]:
            pair(e, I('mcs'), None, r, out, {'mcs', 'magnitudes'})
            line(e, r, out, '#b')
        band(r, me, out, '#b', '#std', conf('confidence_interval'),
             {'confidence_interval'})
    elif k == 'plot_b_series_constant_nm':
        for e in calls(r, me, 'plot')[:1]:
            line(e, r, out, '#b')
            series(e, cfg, r, out)
        for e in calls(r, me, 'fill_between')[:1]:
            series(e, cfg, r, out)
        band(r, me, out, '#b', '#std', conf('confidence_level'),
             {'confidence_level'})
    elif k == 'plot_b_significant_1D':
        es = calls(r, me, 'plot')
        for e in es[:1]:
            line(e, r, out, '#mac')
        for e in es:
            together(e, r, out)
        p = mk('in', 'p_threshold')
        half = t.mul(t.div(t.num(1), t.num(2)), p)
        band(r, me, out, '#mu', '#std', [t.sub(t.num(1), half), half],
             {'p_threshold'})


def chain(x):
    """the parts which are put together, None if unknown"""
    if x.op == 'call' and x.a[0] in ('numpy.concatenate', 'numpy.hstack',
                                     'numpy.append', 'numpy.r_') and x.a[1]:
        a = x.a[1][0] if x.a[0] in ('numpy.concatenate', 'numpy.hstack') \
            else mk('tuple', *x.a[1][:2])
        if a.op in ('tuple', 'list'):
            got = []
            for y in a.a:
                got += chain(y) or [y]
            return got
    return None


def timeline(e, x, r, out):
    """the line runs from the first to the last time of the catalog"""
    out.ob('ends of the line')
    sel = [y for y in parts(x) if y.op in ('sel', 'take')]
    if root(x).op in ('sel', 'take', 'slice') and 'times' in t.inputs(x):
        out.flag('plot.data', e.site, f'{e.site[2]}|ends', 'the line does '
                 'not run from the first to the last time', r.name)
        return
    ps = chain(x)
    if ps is None or len(ps) < 2 or not sel:
        return
    for y, good, bad, n in ((ps[0], 'min', 'max', 'starts'),
                            (ps[-1], 'max', 'min', 'ends')):
        of = {z.a[0].split('.')[-1] for z in parts(y) if z.op == 'call' and
              z.a[0] in ('numpy.min', 'numpy.max', 'builtins.min',
                         'builtins.max', 'numpy.nanmin', 'numpy.nanmax')}
        if y.op not in ('list', 'tuple', 'sel', 'take', 'slice', 'get',
                        'in'):
            continue
        if any(z.op in ('sel', 'take') for z in parts(y)) or \
                y is mk('in', 'times'):
            out.flag('plot.data', e.site, f'{e.site[2]}|{n}',
                     f'the line {n} at a selected event instead of the '
                     f'{"first" if good == "min" else "last"} time', r.name)
        elif bad in of and good not in of:
            out.flag('plot.data', e.site, f'{e.site[2]}|{n}',
                     f'the line {n} at the {bad}imum of the times', r.name)


def values_of(x):
    """inputs whose values (not only their number) matter"""
    return t.inputs(t.rewrite(
        x, lambda y: t.ONE if y.op == 'len' else None, {}))


def count(e, y, cfg, r, out):
    """running (weighted) count, divided by its last value"""
    out.ob('running count')
    if cfg.get('weights') is not None and 'weights' not in t.inputs(y):
        out.flag('plot.data', e.site, f'{e.site[2]}|weights',
                 'the weights are not counted', r.name)
    names = r.name.partition('[')[2].rstrip(']').split(',')
    if y.op == 'mono':
        den = [f for f, k in y.a[0] if k < 0]
        num = [f for f, k in y.a[0] if k > 0]
    else:
        den, num = [], [y]
    run = [z for z in parts(y) if z.op == 'call' and
           z.a[0] == 'numpy.cumsum']
    if not run:
        for z in parts(y):
            if z.op == 'call' and z.a[0] in ('numpy.cumprod', 'numpy.diff'):
                out.flag('plot.data', e.site, f'{e.site[2]}|running',
                         f'no running sum is drawn but {z.a[0]}', r.name)
        return
    ps = chain(num[0]) if len(num) == 1 else None
    if ps and ps[0].op in ('list', 'tuple', 'num', 'full'):
        out.ob('start of the count')
        n = ps[0].a[-1] if ps[0].op == 'full' else ps[0]
        n = n.a[0] if n.op in ('list', 'tuple') and len(n.a) == 1 else n
        if n.op == 'num' and n is not t.ZERO:
            out.flag('plot.data', e.site, f'{e.site[2]}|zero',
                     f'the count starts with {t.show(n)} instead of 0',
                     r.name)
    for z in run:
        if cfg.get('weights') is not None and \
                'weights' not in values_of(z):
            out.flag('plot.data', e.site, f'{e.site[2]}|weights',
                     'the running count does not use the weights', r.name)
        if z.a[1] and z.a[1][0].op == 'sel' and not any(
                q.op == 'argsort' for q in parts(z)) and \
                'weights' in t.inputs(z):
            out.flag('plot.data', e.site, f'{e.site[2]}|order',
                     'the weights are not counted in the order of the times',
                     r.name)
    if 'norm' in names and not den and y.op in ('call', 'mono'):
        out.flag('plot.data', e.site, f'{e.site[2]}|norm',
                 'the count is not normalised', r.name)
    if '!norm' in names and den:
        out.flag('plot.data', e.site, f'{e.site[2]}|norm',
                 'the count is divided although normalize is False', r.name)
    if 'norm' in names:
        for d in den:
            over = any(z.op == 'call' and z.a[0] in (
                'numpy.concatenate', 'numpy.cumsum', 'numpy.hstack',
                'numpy.append') for z in parts(d))
            if d.op == 'len' and (over or cfg.get('weights') is not None) \
                    or d.op == 'call' and over and d.a[0] in (
                        'numpy.sum', 'builtins.sum', 'numpy.mean') or \
                    d.op == 'call' and d.a[0] in ('numpy.min',
                                                  'builtins.min') or \
                    d.op == 'get' and t.is_num(d.a[1]) and \
                    d.a[1].a[0] != -1 or \
                    d.op == 'call' and d.a[0] in (
                        'numpy.max', 'builtins.max', 'numpy.amax') and \
                    not any(z.op == 'call' and z.a[0] == 'numpy.cumsum'
                            for z in parts(d)) and \
                    'weights' in values_of(d):
                out.flag('plot.data', e.site, f'{e.site[2]}|norm',
                         'the count is divided by something else than its '
                         f'last value: {what(d)}', r.name)


def whole(y):
    """the conversion of a number that is already whole"""
    if y.op == 'call' and y.a[0] in ('builtins.int', 'numpy.floor') and \
            len(y.a[1]) == 1 and (
                y.a[1][0].op == 'call' and y.a[1][0].a[0] in (
                    'op.FloorDiv',
                    'numpy.floor', 'math.floor', 'builtins.int',
                    'numpy.floor_divide', 'numpy.trunc')):
        return y.a[1][0]
    return None


def floored(S, k):
    """half of a number, rounded down, as it may be written"""
    got = [mk('call', 'numpy.floor', (t.div(k, t.num(2)),), ()),
           mk('call', 'op.FloorDiv', (k, t.num(2)), ())]
    got += [mk('call', n, (t.div(k, t.num(2)),), ()) for n in (
        'builtins.int', 'math.floor', 'numpy.trunc', 'numpy.fix')]
    got += [mk('call', 'numpy.floor_divide', (k, t.num(2)), ())]
    S.extra |= set(got)
    return [S(x) for x in got]


def otherpart(q):
    """n_m divided by another number than 2, rounded"""
    n = mk('in', 'n_m')
    return q.op == 'call' and q.a[0] in (
        'op.FloorDiv', 'numpy.floor_divide') and len(q.a[1]) == 2 and \
        q.a[1][0] is n and t.is_num(q.a[1][1]) and q.a[1][1].a[0] != 2 or \
        q.op == 'call' and q.a[0] in (
            'builtins.int', 'math.floor', 'numpy.floor', 'builtins.round',
            'numpy.ceil', 'math.ceil') and len(q.a[1]) == 1 and \
        t.inputs(q) == {'n_m'} and q.a[1][0].op == 'lin' and \
        len(q.a[1][0].a[1]) == 1 and q.a[1][0].a[1][0][0] is n and (
            q.a[1][0].a[1][0][1] != Fraction(1, 2))


def series(e, cfg, r, out):
    """every window has n_m events and its value is drawn where it should"""
    x, y = xy(e)
    if y is None:
        return
    S = Space(r.interp)
    n = V(S, 'n_m')
    tech = next((k for k in ('left', 'mid', 'right')
                 if k in r.name.partition('[')[2].rstrip(']').split(',')),
                None)
    for z in sorted(parts(y), key=lambda z: z.id):
        if z.op != 'setitem' or not marks(z.a[2]) and not (
                z.a[2].op == 'const' and 'nan' in str(z.a[2].a[0])):
            continue
        its = [q for q in parts(z.a[1]) if q.op == 'it']
        if len(its) != 1:
            continue
        it = its[0]
        S.extra |= parts(it)
        off = S(t.rewrite(z.a[1], whole, {})) - S(it)
        S.extra |= {q for q in parts(z.a[1]) if otherpart(q)}
        half = [floored(S, k) for k in (mk('in', 'n_m'), t.sub(
            mk('in', 'n_m'), t.ONE))]
        half = [h for hs in half for h in hs]
        wants = {'left': [S(t.ZERO)], 'right': [n - 1],
                 'mid': half}.get(tech)
        if wants:
            compare(out, S, off, wants, 'place of a value', e.site,
                    'place', f'offset of the value ({tech})', r.name)
        for q in parts(z.a[2]):
            if q.op == 'slice' and q.a[1] is it:
                hi = q.a[2]
                if hi is NONE or q.a[3] is not NONE:
                    continue
                compare(out, S, S(hi) - S(it), [n], 'size of a window',
                        e.site, 'window', 'events in a window', r.name)
        if len(it.a) == 4:
            ln = [q for q in parts(it.a[2]) if q.op == 'len']
            if it.a[1].op == 'num' and it.a[1] is not t.ZERO:
                out.flag('plot.data', e.site, f'{e.site[2]}|first',
                         'the first window is not shown', r.name)
            if len(ln) == 1:
                S.extra |= parts(ln[0])
                compare(out, S, S(it.a[2]), [S(ln[0]) - n + 1],
                        'number of windows', e.site, 'windows',
                        'number of windows', r.name)


def together(e, r, out):
    """selected values over the values selected in the same way"""
    x, y = xy(e)
    if x is None or y is None:
        return
    x, y = root(x), root(y)
    out.ob('same selection')
    if x.op == 'sel' and (y.op == 'slice' or y.op == 'sel' and
                          y.a[1] is not x.a[1]) or \
            y.op == 'sel' and x.op == 'slice':
        out.flag('plot.data', e.site, f'{e.site[2]}|same',
                 'x and y are not selected in the same way', r.name)


def unfilled(x):
    """an array filled in a loop that can skip elements, which then keep
    the finite number they began with"""
    for y in t.subterms(x).values():
        if y.op != 'fold' or len(y.a) < 3 or y.a[1].op != 'full' or \
                y.a[1].a[-1].op != 'num' or y.a[2].op != 'phi':
            continue
        for b in y.a[2].a[1:]:
            o = [c for c in y.a[2].a[1:] if c is not b]
            if b.op == 'mu' and b.a[0] is y.a[0] and o and all(
                    c.op == 'setitem' and c.a[0] is b
                    and c.a[1].op in ('it', 'pos')
                    and c.a[1].a[0] is y.a[0] for c in o):
                return y
    return None


def line(e, r, out, want):
    x, y = xy(e)
    if y is None:
        return
    out.ob('what is drawn')
    m = marks(y)
    if m and not m <= {want}:
        out.flag('plot.data', e.site, f'{e.site[2]}|line',
                 f'the line shows {", ".join(sorted(m))} instead of '
                 f'{want}', r.name)
    out.ob('points without a value')
    u = unfilled(y)
    if u is not None:
        out.flag('plot.data', e.site, f'{e.site[2]}|unfilled',
                 'a point for which nothing was estimated is drawn at '
                 f'{t.show(u.a[1].a[-1])} instead of being left out',
                 r.name)


def size(e, r, out):
    s = e.d['kwargs'].get('s')
    if s is None:
        return
    out.ob('size of the dots')
    n = t.inputs(s)
    if 'magnitudes' not in n and n & {'times', 'longitudes', 'latitudes'}:
        out.flag('plot.data', e.site, f'{e.site[2]}|size',
                 f'the size of the dots is that of {", ".join(sorted(n))}',
                 r.name)


# --------------------------------------------------------------------- sizes
def sizes(R, out):
    from .formula import runs
    for key, arg, lo, hi, power, inv in (
            ('dot_size', 'magnitudes', 'smallest', 'largest', 1, False),
            ('reverse_dot_size', 'sizes', 'min_mag', 'max_mag', -1, True)):
        for E, cfg, r, lab in runs(R, out, key):
            site = site_of(r.interp, E.qual)
            S = Space(r.interp)
            x = r.result()
            if x is None:
                continue
            m = mk('in', arg)
            out.ob('dots of equal events')
            for e in r.evs('divzero', 'div'):
                y = e.d.get('y', e.d.get('den'))
                if y is None or arg not in t.inputs(y):
                    continue
                mm = {str(z.a[0]).rsplit('.', 1)[-1] for z in parts(y)
                      if z.op == 'call'}
                if {'max', 'min'} <= {z.replace('nan', '') for z in mm} \
                        and not any(arg in t.inputs(p) for p in e.pc
                                    if isinstance(p, t.T)):
                    out.flag('plot.size', e.site, f'{e.site[2]}|equal',
                             'events of equal size are not drawn: 0/0', lab)
            # the generic case: distinct values, largest > smallest
            memo = {}

            def gen(z):
                if z.op == 'phi':
                    c = z.a[0]
                    b = z.a
                    if c.op == 'cmp':
                        s = spread(c.a[1], arg) or spread(
                            c.a[1], 'smallest')
                        if s:
                            return b[1] if s > 0 else b[2]
                return None
            y = t.rewrite(x, gen, memo)
            mn = [z for z in parts(y) if z.op == 'call' and
                  str(z.a[0]).endswith('min') and m in parts(z)]
            mx = [z for z in parts(y) if z.op == 'call' and
                  str(z.a[0]).endswith('max') and m in parts(z)]
            S.extra |= set(mn) | set(mx)
            los = [mk('in', lo)]
            his = [mk('in', hi)]
            p = mk('in', 'interpolation_power')
            wants = []
            for a in mn:
                for b in mx:
                    q = t.div(t.sub(m, a), t.sub(b, a))
                    for z in (p, t.div(t.num(1), p)):
                        if (z is p) is inv:
                            continue
                        f = t.power(q, z)
                        wants.append(S(f) * (S(his[0]) - S(los[0]))
                                     + S(los[0]))
            if wants:
                try:
                    compare(out, S, S(y), wants, 'size of the dots', site,
                            'size', 'size', lab)
                except TooBig:
                    pass


def spread(x, arg):
    """max - min (1) or min - max (-1) of the array, or largest-smallest"""
    if x.op != 'lin' or len(x.a[1]) != 2 or x.a[0] != 0:
        return 0
    s = 0
    for y, k in x.a[1]:
        n = str(y.a[0]) if y.op == 'call' else y.a[0] if y.op == 'in' else ''
        if not isinstance(n, str) or arg not in t.inputs(y) and not (
                arg == 'smallest' and n in ('smallest', 'largest')):
            return 0
        big = n.endswith('max') or n == 'largest'
        small = n.endswith('min') or n == 'smallest'
        if not (big or small):
            return 0
        s = 1 if big == (k > 0) else -1
    return s


def work(R, task, out):
    if task[0] == 'sizes':
        sizes(R, out)
        return
    key = task[1]
    over = {}
    if key in ('plot_fmd', 'plot_cum_fmd'):
        q, f, _ = stand_in(R, 'get_fmd' if key == 'plot_fmd' else
                           'get_cum_fmd', FMD)
        over[q] = f
    if key == 'plot_b_significant_1D':
        q, f, _ = stand_in(R, 'b_significant_1D', SIG)
        over[q] = f

    def prep(I):
        I.overrides.update(over)
        if key in ('plot_mc_vs_b', 'plot_b_series_constant_nm'):
            mark_estimators(R, I)
    R.prepare = prep
    try:
        for E, cfg, r in entry_runs(R, task):
            done(out, r)
            if r.dead:
                continue
            me = targets(E, cfg, r, out)
            if me is not None:
                data(E, cfg, r, me, out)
            out.sample(r.name)
    finally:
        R.prepare = None

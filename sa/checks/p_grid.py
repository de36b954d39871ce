"""P23: rate-grid cells, time index and statistics."""
from .. import terms as t
from ..terms import mk, NONE
from ..entries import Entry, grid, RG, GRID_COLS
from ..run import string, opaque, Spec
from .base import cut
from .common import run_entry, done, site_of, all_entries

RULE = 'in every method of the rate grids: a grouping into cells is by '\
       'exactly the six bounds with missing bounds kept, or by all index '\
       'levels; statistics map each bound to a value of the cell, each '\
       'other column to agg_func and each <metric>_<suffix> to the function '\
       'given for the suffix applied to a copy of the metric; no column '\
       'with values and no row is dropped before the aggregation; time '\
       'levels come from the grid\'s own start and end, in the order of '\
       'their names, for every grid which is combined'
ASSUMPTIONS = ['pandas groupby/agg/concat behave as documented']
BOUNDS = ('longitude_min', 'longitude_max', 'latitude_min', 'latitude_max',
          'depth_min', 'depth_max')
METRICS = ('number_events', 'b', 'mc', 'a', 'alpha')
CELLVALUE = {'first', 'last', 'min', 'max'}
EXTRA = ('number_events', 'alpha', 'grid_id')
G, F = RG + 'GRRateGrid', RG + 'ForecastGRRateGrid'
TIMES = ('starttime', 'endtime')


def nat():
    """a time that is missing"""
    return Spec('num', build=lambda run, nm: run.I.val(
        mk('ext', 'pandas.NaT')))


def my_entries(R):
    fun, agg = string(), string()
    E = []
    for lab, cls in (('', G), ('F', F)):
        cs = GRID_COLS + EXTRA
        E.append(Entry(lab + 'strip', cls + '.strip',
                       dict(self=grid(cls, cs)),
                       dict(inplace=[('in', True), ('out', False)])))
    E.append(Entry('calculate_statistics', F + '.calculate_statistics',
                   dict(self=grid(F, GRID_COLS + EXTRA), agg_func=agg),
                   dict(extra_stats=[
                       ('', {}),
                       ('x', {'spread': 'std', 'top': 'max'})])))
    E.append(Entry('add_time_index', G + '.add_time_index', {}, dict(
        self=[('', grid()), ('nostart', grid(starttime=None)),
              ('noend', grid(endtime=None)),
              ('nostart,NaT', grid(starttime=nat())),
              ('noend,NaT', grid(endtime=nat()))],
        endtime=[('end', True), ('!end', False)])))
    E.append(Entry('new', G, dict(data=Spec('df'), name=opaque(),
                                  starttime=opaque(), endtime=opaque())))
    return E + [all_entries(R)[k] for k in ('GRRateGrid.concat',)
                if k in all_entries(R)]


def tasks(R, tier):
    for i, E in enumerate(my_entries(R)):
        for j in range(len(list(E.configs()))):
            yield ('grid', i, j)


def strings(x):
    return {y.a[0] for y in t.subterms(x).values()
            if y.op == 'const' and isinstance(y.a[0], str)} \
        if isinstance(x, t.T) else set()


def literal(x):
    """names in a literal list, tuple or set; None if it is something else"""
    if not isinstance(x, t.T) or x.op not in ('list', 'tuple', 'set'):
        if isinstance(x, t.T) and x.op == 'const' and \
                isinstance(x.a[0], str):
            return {x.a[0]}
        return None
    out = set()
    for y in x.a:
        if not isinstance(y, t.T) or y.op != 'const':
            return None
        out.add(y.a[0])
    return out


def false(x):
    return x is t.FALSE or x.op == 'num' and x.a[0] == 0


# ---------------------------------------------------------------- groupings
def groupings(r, out, lab):
    for e in r.evs('groupby'):
        d = e.d
        kw = d['kwargs']
        by = d['args'][0] if d['args'] else kw.get('by')
        level = kw.get('level')
        drop = kw.get('dropna')
        if by is not None and by is not NONE:
            out.ob('cells are grouped by their bounds')
            n = literal(by)
            if n is not None and n != set(BOUNDS) and n & set(BOUNDS):
                miss = sorted(set(BOUNDS) - n)
                out.flag('grid.cell', e.site, f'{e.site[2]}|by',
                         'cells grouped by '
                         + (f'all bounds but {", ".join(miss)}' if miss else
                            f'{", ".join(sorted(n - set(BOUNDS)))} as well '
                            'as the bounds'), lab)
            if n is not None and n & set(BOUNDS) and (
                    drop is None or not false(drop)):
                out.flag('grid.cell', e.site, f'{e.site[2]}|nan',
                         'cells with a missing bound are dropped by the '
                         'grouping (dropna)', lab)
        if level is not None and level is not NONE:
            out.ob('cells are grouped by all index levels')
            n = literal(level)
            bad = None
            if n is not None:
                if n and all(isinstance(z, str) for z in n) and \
                        not n >= {'starttime', 'cell_id'}:
                    bad = ', '.join(sorted(n))
                elif n and any(not isinstance(z, str) for z in n):
                    bad = f'levels {sorted(map(str, n))}'
            elif level.op == 'num' or level.op == 'lin' and all(
                    z.op in ('attr', 'len') for z, _ in level.a[1]):
                bad = f'level {t.show(level)}'
            elif level.op == 'slice' and (
                    level.a[1] is not NONE or level.a[2] is not NONE):
                bad = f'levels {t.show(level, 3)}'
            elif level.op == 'get' and level.a[1].op == 'num':
                bad = f'level {t.show(level, 3)}'
            elif level.op == 'range' or level.op == 'call' and \
                    str(level.a[0]).endswith('range'):
                a = level.a if level.op == 'range' else level.a[1]
                lo, hi = (a[0], a[1]) if len(a) > 1 else (t.num(0), a[0])
                if lo.op == 'num' and lo.a[0] != 0 or hi.op == 'lin' and \
                        hi.a[0] != 0 or hi.op == 'num':
                    bad = f'levels {t.show(lo)}..{t.show(hi, 3)}'
            if bad:
                out.flag('grid.cell', e.site, f'{e.site[2]}|level',
                         f'statistics grouped by {bad} only: time steps or '
                         'cells are mixed', lab)
    for e in r.evs('extcall'):
        if e.d['name'] == 'numpy.unique' and e.d['args'] and \
                'axis' in e.d['kwargs'] and \
                strings(e.d['args'][0]) & set(BOUNDS):
            out.ob('cells are grouped by their bounds')
            out.flag('grid.cell', e.site, f'{e.site[2]}|unique',
                     'rows with a missing bound are never the same cell in '
                     'numpy.unique(axis=0)', lab)


# ---------------------------------------------------------------- columns
def grid_obj(x):
    """is the term the grid itself (whatever was dropped or copied)"""
    while isinstance(x, t.T) and x.op == 'call' and isinstance(
            x.a[0], str) and x.a[0].startswith('df.') and x.a[1] and \
            x.a[0] != 'df.groupby':
        x = x.a[1][0]
    return x.op == 'in' and x.a[0] == 'self' or x.op in ('mu', 'fold')


def all_missing(c, name):
    """does the condition say that all values of the column are missing"""
    s = {y.a[1] for y in t.subterms(c).values() if y.op == 'col'}
    n = {y.a[0] for y in t.subterms(c).values() if y.op == 'call'}
    return s <= {name} and any(str(z).endswith('.all') for z in n) and \
        any('isn' in str(z) for z in n) and not any(
            str(z).endswith('.any') for z in n)


def dropped(x):
    """(name, condition) of a list of columns"""
    if x.op in ('list', 'tuple', 'set'):
        for y in x.a:
            if isinstance(y, t.T) and y.op == 'const':
                yield y.a[0], None
    elif x.op == 'const':
        yield x.a[0], None
    elif x.op == 'seq':
        for y in x.a[0] if len(x.a) == 1 and isinstance(
                x.a[0], tuple) else x.a:
            if isinstance(y, tuple) and len(y) > 1 and y[0] == 'c':
                for z in y[2]:
                    if z[0] == 'e' and z[1].op == 'const':
                        yield z[1].a[0], y[1]
            elif isinstance(y, tuple) and y and y[0] == 'e' and \
                    y[1].op == 'const':
                yield y[1].a[0], None


def drops(r, out, lab):
    agg = False
    for e in r.evs('methcall'):
        n, d = e.d['name'], e.d
        if n in ('agg', 'aggregate'):
            agg = True
        if n == 'dropna' and grid_obj(d['recv']):
            out.ob('what is dropped before the aggregation')
            ax = d['kwargs'].get('axis')
            out.flag('grid.drop', e.site, f'{e.site[2]}|dropna',
                     ('columns' if ax is not None and (
                         ax.op == 'const' or ax.op == 'num' and ax.a[0])
                      else 'rows') + ' with missing values are dropped from the grid',
                     lab)
        if n == 'drop' and not agg and 'columns' in d['kwargs']:
            for c, cond in dropped(d['kwargs']['columns']):
                out.ob('what is dropped before the aggregation')
                if c in BOUNDS:
                    out.flag('grid.drop', e.site, f'{e.site[2]}|{c}',
                             f'the bound {c} can be dropped before cells '
                             'are grouped', lab)
                elif c in METRICS and (cond is None or not all_missing(
                        cond, c)):
                    out.flag('grid.drop', e.site, f'{e.site[2]}|drop',
                             f'column {c} is dropped although it may hold '
                             'values', lab)
        if n in ('drop_duplicates', 'head', 'sample', 'nlargest') and \
                not agg and grid_obj(d['recv']):
            out.ob('what is dropped before the aggregation')
            out.flag('grid.drop', e.site, f'{e.site[2]}|{n}',
                     f'{n} removes realizations before the aggregation',
                     lab)


# ---------------------------------------------------------------- statistics
def subst(x, key, val):
    if x is key:
        return val

    def f(y):
        if y.op == 'eq' and all(isinstance(z, t.T) and z.op == 'const'
                                for z in y.a):
            return t.TRUE if y.a[0] is y.a[1] else t.FALSE
        if y.op == 'in_' and y.a[0].op == 'const':
            s = literal(y.a[1])
            if s is not None:
                return t.TRUE if y.a[0].a[0] in s else t.FALSE
        if y.op == 'truth' and y.a[0] in (t.TRUE, t.FALSE):
            return y.a[0]
        if y.op in ('and', 'or'):
            neutral = t.TRUE if y.op == 'and' else t.FALSE
            other = t.FALSE if y.op == 'and' else t.TRUE
            if other in y.a:
                return other
            rest = [z for z in y.a if z is not neutral]
            if not rest:
                return neutral
            if len(rest) == 1:
                return rest[0]
        if y.op == 'not':
            if y.a[0] is t.TRUE:
                return t.FALSE
            if y.a[0] is t.FALSE:
                return t.TRUE
        if y.op == 'phi':
            if y.a[0] is t.TRUE:
                return y.a[1]
            if y.a[0] is t.FALSE:
                return y.a[2]
        return None

    memo = {}

    def go(y):
        if not isinstance(y, t.T):
            return tuple(go(z) for z in y) if isinstance(y, tuple) else y
        if y is key:
            return val
        if y.id in memo:
            return memo[y.id]
        if key.id not in t.subterms(y):
            z = y
        else:
            z = mk(y.op, *[go(q) for q in y.a])
        w = f(z)
        memo[y.id] = z if w is None else w
        return memo[y.id]
    return go(x)


def statistics(r, out, lab, extra):
    aggs = [e for e in r.evs('methcall') if e.d['name'] in (
        'agg', 'aggregate') and e.d['oids']]
    writes = r.evs('colwrite')
    for a in aggs:
        oid = a.d['oids'][0]
        final = {}
        suff = {}
        for e in r.evs('store'):
            if e.d['b'] != oid:
                continue
            i, v = e.d['i'], e.d['v']
            if i.op == 'const':
                final[i.a[0]] = (e, v)
            elif i.op == 'at':
                names = literal(i.a[0])
                for n in names if names is not None else BOUNDS + METRICS:
                    if any(subst(p, i, mk('const', n)) is t.FALSE
                           for p in e.pc if isinstance(p, t.T)):
                        continue
                    final[n] = (e, subst(v, i, mk('const', n)))
            elif i.op == 'call' and i.a[0] == 'str.join':
                j = i.a[1]
                suff.setdefault(''.join(
                    z.a[0] for z in j if z.op == 'const'), []).append(
                        (e, j, v))
        for n, (e, v) in final.items():
            if n in BOUNDS:
                out.ob('a bound of a cell stays that bound')
                if 'agg_func' in t.inputs(v) or v.op == 'const' and \
                        v.a[0] not in CELLVALUE:
                    out.flag('grid.stat', e.site, f'{e.site[2]}|bound',
                             f'the bound {n} is aggregated with '
                             f'{cut(t.show(v, 2), 40)} like a statistic',
                             lab)
            elif n in METRICS:
                out.ob('statistic of a column')
                if v.op == 'const' or v.op == 'in' and \
                        v.a[0] != 'agg_func':
                    out.flag('grid.stat', e.site, f'{e.site[2]}|value',
                             f'{n} is aggregated with {t.show(v, 2)} '
                             'instead of agg_func', lab)
        if not extra:
            continue
        for s, f in extra.items():
            for k, (e, j, v) in [(k, z) for k, zs in suff.items()
                                 for z in zs if k.endswith(s)]:
                out.ob('extra statistics')
                if v.op == 'const' and v.a[0] != f or v.op == 'in':
                    out.flag('grid.stat', e.site, f'{e.site[2]}|extra',
                             f'<metric>_{s} is computed with '
                             f'{t.show(v, 2)} instead of the function '
                             f'given for {s}', lab)
                if k != '_' + s:
                    out.flag('grid.stat', e.site, f'{e.site[2]}|name',
                             f'extra statistics are called <metric>{k} '
                             f'instead of <metric>_{s}', lab)
                m = j[0]
                if m.op == 'at':
                    names = {n for n, _ in dropped(m.a[0])}
                    known = m.a[0].op in ('list', 'tuple', 'seq')
                    miss = sorted(set(METRICS) - names)
                    if known and miss and names & set(METRICS):
                        out.flag('grid.stat', e.site, f'{e.site[2]}|base',
                                 'no extra statistics of '
                                 + ', '.join(miss), lab)
        for e in writes:
            c, v = e.d['col'], e.d['value']
            if not isinstance(c, t.T) or c.op != 'call' or \
                    c.a[0] != 'str.join':
                continue
            out.ob('extra statistics are of the metric itself')
            m = c.a[1][0]
            if v.op == 'col' and m.op == 'at' or v.op == 'get' and \
                    v.a[1] is not m and v.a[1].op in (
                        'const', 'at', 'get', 'index'):
                out.flag('grid.stat', e.site, f'{e.site[2]}|source',
                         f'{cut(t.show(c, 2), 50)} is computed from '
                         f'column {cut(t.show(v, 2), 40)}', lab)
    for e in r.evs('methcall'):
        if e.d['name'] == 'reset_index' and aggs and \
                e.d['kwargs'].get('drop') is t.TRUE:
            out.ob('time and cell levels of the result')
            tests = [p for p in e.pc if isinstance(p, t.T) and any(
                y.op == 'attr' and y.a[1] in ('nlevels', 'names')
                for y in t.subterms(p).values())]
            if not tests or all(p.op == 'not' and p.a[0].op == 'eq'
                                for p in tests):
                out.flag('grid.stat', e.site, f'{e.site[2]}|reset',
                         'the time steps and cells of the statistics are '
                         'lost (reset_index)', lab)


# ---------------------------------------------------------------- time index
def strip_(r, out, lab, cls):
    want = set(GRID_COLS) | ({'grid_id'} if cls == F else set())
    have = set(GRID_COLS + EXTRA)
    for e in r.evs('methcall'):
        if e.d['name'] != 'drop':
            continue
        x = e.d['kwargs'].get('columns')
        if x is None:
            continue
        out.ob('columns kept by strip')
        if x.op == 'call' and str(x.a[0]).endswith('difference'):
            p, q = literal(x.a[1][0]), literal(x.a[1][1])
            gone = p - q if p is not None and q is not None else None
        else:
            gone = literal(x)
        if gone is not None and gone != have - want:
            lost = sorted(gone & want)
            out.flag('grid.strip', e.site, f'{e.site[2]}|strip',
                     f'strip drops {", ".join(lost)}' if lost else
                     'strip keeps ' + ', '.join(sorted(have - want - gone)),
                     lab)


def time_index(r, out, lab, cfg, site):
    end = cfg['endtime']
    miss = 'nostart' in lab or 'noend' in lab and end
    out.ob('times which are not known')
    if miss and not r.dead and not ('NaT' in lab and any(
            'NaT' in t.show(c, 9)
            for e in r.evs('raise') for c in e.pc)):
        out.flag('grid.time', site, 'missing',
                 'a time index is made although the '
                 + ('start' if 'nostart' in lab else 'end')
                 + ' time is not set', lab)
        return
    if miss:
        return
    if r.dead:
        out.flag('grid.time', site, 'refused',
                 'no time index although all times needed are set', lab)
        return
    x = r.result()
    if x.op != 'call' or not str(x.a[0]).startswith('pandas.concat') or \
            not x.a[1] or x.a[1][0].op != 'dict':
        return
    out.ob('time index')
    want = ['starttime', 'endtime'] if end else ['starttime']
    kw = dict(x.a[2]) if len(x.a) > 2 else {}
    names = kw.get('names')
    if names is not None and names.op in ('list', 'tuple') and all(
            z.op == 'const' for z in names.a):
        n = [z.a[0] for z in names.a]
        if n != want:
            out.flag('grid.time', site, 'names',
                     f'the time levels are called {n}', lab)
    items = x.a[1][0].a[0]
    for k, v, *_ in items:
        ks = list(k.a) if k.op == 'tuple' else [k]
        got = [z.a[0] if z.op == 'in' else '?' for z in ks]
        if '?' not in got and got != ['self.' + z for z in want]:
            out.flag('grid.time', site, 'values',
                     f'the time levels hold {", ".join(got)}', lab)
        if grid_obj(v) is False:
            out.flag('grid.time', site, 'rows',
                     f'the time index is put on {cut(t.show(v, 2), 40)}',
                     lab)


def reindex(r, out, lab):
    """starttime and endtime attributes of a grid with a time index"""
    for e in r.evs('setattr'):
        if e.d['name'] not in TIMES:
            continue
        v = e.d['value']
        lv = {y.a[1][1].a[0] for y in t.subterms(v).values()
              if y.op == 'call' and y.a[0] == 'meth.get_level_values' and
              len(y.a[1]) > 1 and y.a[1][1].op == 'const'}
        if not lv:
            continue
        out.ob('start and end time of a combined grid')
        n = e.d['name']
        fn = str(v.a[0]) if v.op == 'call' else v.op
        want = 'min' if n == 'starttime' else 'max'
        other = 'max' if want == 'min' else 'min'
        bad = None
        if fn.endswith('.' + other) or v.op in ('at', 'get', 'item'):
            bad = f'{fn} of the time levels, not the ' + (
                'earliest' if want == 'min' else 'latest')
        elif n == 'starttime' and lv != {'starttime'}:
            bad = 'level ' + ', '.join(sorted(lv))
        elif n == 'endtime' and lv == {'starttime'} and not any(
                p.op == 'not' and 'endtime' in strings(p)
                for p in e.pc if isinstance(p, t.T)):
            bad = 'the level starttime, although there is a level endtime'
        if bad:
            out.flag('grid.time', e.site, f'{e.site[2]}|{n}',
                     f'{n} of the grid is {bad}', lab)


def concat(r, out, lab, site):
    for e in r.evs('extcall'):
        d = e.d
        if d['name'] != 'pandas.concat' or not d['args']:
            continue
        out.ob('every grid is part of the concatenation')
        x = d['args'][0]
        kw = d['kwargs']
        bad = None
        if x.op in ('slice', 'at', 'get'):
            bad = f'only {t.show(x, 2)} is used'
        elif x.op == 'map' and x.a[2] is not t.TRUE:
            bad = 'some of the grids are left out'
        elif x.op == 'map' and x.a[1].op in ('slice', 'sel'):
            bad = f'only {t.show(x.a[1], 2)} is used'
        if 'ignore_index' in kw and not false(kw['ignore_index']):
            bad = 'the time and cell levels are discarded (ignore_index)'
        if 'axis' in kw and not (kw['axis'].op == 'num' and
                                 kw['axis'].a[0] == 0) and \
                kw['axis'].op in ('num', 'const') and \
                kw['axis'].a[0] not in ('index', 'rows'):
            bad = 'the grids are put side by side'
        if 'join' in kw and kw['join'].op == 'const' and \
                kw['join'].a[0] == 'inner':
            bad = 'columns which some grids do not have are discarded'
        if bad:
            out.flag('grid.concat', e.site, f'{e.site[2]}|concat',
                     f'concat: {bad}', lab)
    for e in r.evs('methcall'):
        if e.d['name'] != 'add_time_index':
            continue
        a = e.d['args'][0] if e.d['args'] else e.d['kwargs'].get('endtime')
        out.ob('end times are used if every grid has one')
        bad = None
        if a is None or a is t.TRUE:
            bad = 'an end time is required of every grid'
        elif a is t.FALSE:
            bad = 'end times are never used'
        elif a.op == 'call' and str(a.a[0]).endswith('.any') and \
                'not' in {y.op for y in t.subterms(a).values()}:
            bad = 'one grid with an end time makes it required of all'
        elif any(y.op == 'attr' and y.a[1] == 'starttime'
                 for y in t.subterms(a).values()):
            bad = 'decided by the start times'
        if bad:
            out.flag('grid.concat', e.site, f'{e.site[2]}|end', bad, lab)


def work(R, task, out):
    E = my_entries(R)[task[1]]
    lab, cfg = list(E.configs())[task[2]]
    r = run_entry(R, E, cfg, None, lab)
    done(out, r)
    site = site_of(R.I, E.qual)
    groupings(r, out, r.name)
    if E.key.endswith('strip'):
        strip_(r, out, r.name, F if E.key.startswith('F') else G)
    elif E.key == 'calculate_statistics':
        drops(r, out, r.name)
        x = cfg['extra_stats']
        statistics(r, out, r.name, x)
    elif E.key == 'add_time_index':
        time_index(r, out, r.name, cfg, site)
    else:
        reindex(r, out, r.name)
    if 'concat' in E.key:
        concat(r, out, r.name, site)
    out.sample(r.name)

"""P30: declustering follows the published windows and order."""
from fractions import Fraction as Fr
from .. import terms as t
from ..terms import mk
from ..algebra import Ex
from .common import all_entries, site_of
from .formula import Space, judge, runs, parts, V
from .p_mc import bind

RULE = 'windows, distances, the order of the events and the removal of ' \
       'their clusters must follow the published method'
ASSUMPTIONS = ['real arithmetic', 'event times are compared to the second',
               'pandas sorts as documented']
DW = 'seismostats.analysis.declustering.distance_time_windows.'
BREAK = Fr(13, 2)
WINDOWS = ('GardnerKnopoffWindow', 'GruenthalWindow', 'UhrhammerWindow')


def tasks(R, tier):
    for n in WINDOWS:
        yield ('window', n)
    yield ('direct', 'haversine')
    yield ('direct', 'cluster')


def work(R, task, out):
    if task[0] == 'window':
        return do_window(R, out, task[1])
    try:
        globals()['do_' + task[1]](R, out)
    finally:
        R.prepare = None


def published(S, name, m, high):
    """radius (km) and duration (days)"""
    q = lambda x: S(t.num(Fr(x)))  # noqa: E731
    if name == 'GardnerKnopoffWindow':
        return ((q('0.1238') * m + q('0.983')).exp10(),
                (q('0.032') * m + q('2.7389')).exp10() if high else
                (q('0.5409') * m - q('0.547')).exp10())
    if name == 'GruenthalWindow':
        return ((q('1.77') + (q('0.037') + q('1.02') * m).sqrt()).exp(),
                (q('2.8') + q('0.024') * m).exp10() if high else
                (q('-3.95') + (q('0.62') + q('17.32') * m).sqrt()).exp())
    return ((q('-1.024') + q('0.804') * m).exp(),
            (q('-2.87') + q('1.235') * m).exp())


# ----------------------------------------------------------- piecewise terms
def linear(c, m):
    """(op, k, b) of the condition k*m + b op 0"""
    if c.op != 'cmp':
        return None
    x = c.a[1]
    if x is m:
        return c.a[0], Fr(1), Fr(0)
    if x.op == 'lin' and len(x.a[1]) == 1 and x.a[1][0][0] is m:
        return c.a[0], x.a[1][0][1], x.a[0]
    return None


def holds(c, m, at):
    if c.op == 'not':
        h = holds(c.a[0], m, at)
        return None if h is None else not h
    if c.op in ('and', 'or'):
        hs = [holds(y, m, at) for y in c.a]
        if None in hs:
            return None
        return all(hs) if c.op == 'and' else any(hs)
    if c.op == 'eq' and m in c.a:
        o = c.a[1] if c.a[0] is m else c.a[0]
        return at == o.a[0] if o.op == 'num' else None
    q = linear(c, m)
    if q is None:
        return None
    v = q[1] * at + q[2]
    return v > 0 if q[0] == '>' else v >= 0


def breaks(x, m):
    out = {BREAK}
    for c in parts(x):
        q = linear(c, m)
        if q and q[1]:
            out.add(-q[2] / q[1])
    return sorted(out)


class Unknown(Exception):
    pass


def at_point(x, m, p):
    """the formula that holds at the magnitude p"""
    def f(y):
        if y.op == 'setitem':
            h = holds(y.a[1], m, p)
            if h is None:
                return None
            return y.a[2] if h else y.a[0]
        if y.op == 'sel' and y.a[0] is m or y.op == 'sel' and \
                holds(y.a[1], m, p):
            return y.a[0] if holds(y.a[1], m, p) is not None else None
        if y.op == 'call' and y.a[0] in ('numpy.where', 'where3') and \
                len(y.a[1]) == 3:
            h = holds(y.a[1][0], m, p)
            return None if h is None else y.a[1][1 if h else 2]
        if y.op == 'phi':
            h = holds(y.a[0], m, p)
            return None if h is None else y.a[1 if h else 2]
        return None
    return t.rewrite(x, f, {})


def days(x):
    """(array in days, unit problem) of an array of durations"""
    if x.op == 'map':
        e = x.a[3]
        if e.op == 'call' and e.a[0] in ('pandas.Timedelta',
                                         'datetime.timedelta'):
            kw = dict(e.a[2])
            if not e.a[1] and len(kw) == 1:
                (k, v), = kw.items()
                if v.op == 'at' and v.a[1] is x.a[0]:
                    return v.a[0], None if k == 'days' else k
            if len(e.a[1]) == 1 and set(kw) == {'unit'} and \
                    e.a[1][0].op == 'at' and e.a[1][0].a[1] is x.a[0]:
                return e.a[1][0].a[0], unit(kw['unit'])
    if x.op == 'call' and x.a[0] == 'pandas.to_timedelta' and x.a[1]:
        kw = dict(x.a[2])
        u = kw.get('unit', x.a[1][1] if len(x.a[1]) > 1 else None)
        return x.a[1][0], unit(u)
    return None


def unit(u):
    if u is None or u.op != 'const':
        return 'nanoseconds'
    return None if u.a[0] in ('D', 'd', 'days', 'day') else str(u.a[0])


def cut(x):
    """(array, cutoff) of a limited array"""
    if x.op == 'call' and x.a[0] == 'numpy.clip':
        kw = dict(x.a[2])
        a = list(x.a[1]) + [None, None]
        lo = kw.get('a_min', kw.get('min', a[1]))
        hi = kw.get('a_max', kw.get('max', a[2]))
        if lo is None or lo is t.ZERO or lo is t.NONE:
            return x.a[1][0], hi
    if x.op == 'call' and x.a[0] == 'numpy.minimum' and len(x.a[1]) == 2:
        for p, q in (x.a[1], x.a[1][::-1]):
            if q.op in ('in', 'num'):
                return p, q
    return None


def do_window(R, out, name):
    m = mk('in', 'magnitude')
    for E, cfg, r, lab in runs(R, out, name):
        x = r.result()
        if x is None or x.op != 'tuple' or len(x.a) != 2:
            continue
        site = site_of(r.interp, E.qual)
        space, dur = x.a
        d = days(dur)
        out.ob('unit')
        if d is not None and d[1]:
            out.flag('unit', site, 'unit', f'the durations are in {d[1]} '
                     f'({lab})', lab)
        dur = d[0] if d is not None else None
        lim = 'nocut' not in lab
        if dur is not None:
            out.ob('cutoff')
            c = cut(dur)
            if c is None and lim:
                if not any(y.op == 'in' and y.a[0] == 'time_cutoff'
                           for y in parts(dur)):
                    out.flag('cutoff', site, 'cutoff', 'the durations are '
                             f'not limited ({lab})', lab)
                if 'cut0' in lab and dur.op == 'full':
                    c = dur, None
            if c is not None:
                if not lim:
                    out.flag('cutoff', site, 'cutoff', 'the durations are '
                             f'limited ({lab})', lab)
                elif c[1] is not None and c[1] is not want_cut(lab) and (
                        c[1].op in ('num', 'lin') or 'magnitude' in
                        t.inputs(c[1]) or want_cut(lab) not in
                        t.subterms(c[1]).values()):
                    out.flag('cutoff', site, 'cutoff', 'the durations are '
                             f'limited to {t.show(c[1], 2)} ({lab})', lab)
                dur = c[0]
            elif lim:
                dur = None
        for k, got in ((0, space), (1, dur)):
            if got is None:
                continue
            what = ('radius', 'duration')[k]
            bs = breaks(got, m)
            mids = [bs[0] - 1] + [(a + b) / 2 for a, b in
                                  zip(bs, bs[1:])] + [bs[-1] + 1]
            for p in sorted(bs + mids):
                S = Space(r.interp)
                S.plain |= {'numpy.abs', 'numpy.sqrt', 'exp', 'log'}
                y = at_point(got, m, p)
                if any(z.op in ('setitem', 'sel', 'phi') for z in parts(y)):
                    continue
                if y.op == 'call' and y.a[0] == 'numpy.abs':
                    y = y.a[1][0]
                w = published(S, name, V(S, 'magnitude'), p >= BREAK)[k]
                judge(out, S, S(y), [w], what, site, f'{what}{p}',
                      f'{what} of the window at the magnitude '
                      f'{float(p):g}', lab)


def want_cut(lab):
    return t.ZERO if 'cut0' in lab else mk('in', 'time_cutoff')


# ---------------------------------------------------------------- distances
def do_haversine(R, out):
    for E, cfg, r, lab in runs(R, out, 'haversine'):
        x = r.result()
        while x is not None and x.op == 'attr' and x.a[1] == 'T':
            x = x.a[0]
        site = site_of(r.interp, E.qual)
        S = Space(r.interp)
        A = S.A
        S.plain |= {'numpy.' + n for n in (
            'sin', 'cos', 'tan', 'arcsin', 'arctan2', 'arccos', 'arctan')}
        S.extra |= {y for y in parts(x) if y.op == 'ext'}

        def fn(n, *xs):
            return Ex(A, A.of_atom(A.fun('numpy.' + n, [y.r for y in xs])))
        pi = S(next((y for y in parts(x) if y.op == 'ext'
                     and str(y.a[0]).endswith('pi')), t.ONE))
        k = pi / S(t.num(180))
        lo, la, lo0, la0 = (V(S, n) * k for n in (
            'longitudes', 'latitudes', 'target_longitude',
            'target_latitude'))

        def forms(sa, so):
            a = fn('sin', (la - la0) / 2 * sa) ** 2 + fn('cos', la) * fn(
                'cos', la0) * fn('sin', (lo - lo0) / 2 * so) ** 2
            R2 = S(t.num(Fr('6371.227'))) * 2
            return [R2 * fn('arctan2', a.sqrt(), (1 - a).sqrt()),
                    R2 * fn('arcsin', a.sqrt())]
        one, neg = S(t.ONE), S(t.num(-1))
        wants = [w for sa in (one, neg) for so in (one, neg)
                 for w in forms(sa, so)]
        judge(out, S, S(x), wants, 'distance', site, 'haversine',
              'great circle distance', lab)


# --------------------------------------------------------------- algorithm
def do_cluster(R, out):
    E = all_entries(R)
    keys = [k for k in E if k.startswith('GardnerKnopoffType1/')]
    if 'haversine' not in E or not keys:
        return
    hq = R.func(E['haversine'].qual).qual

    def dist(I, fv, args, kwargs, node):
        d = bind(I, fv, args, kwargs)
        return I.val(mk('call', '#distance', tuple(d.get(k, t.NONE) for k in (
            'longitudes', 'latitudes', 'target_longitude',
            'target_latitude')), ()), 'arr')

    def window(I, fv, args, kwargs, node):
        m = [I.reify(o) for o in args] + [
            I.reify(o) for o in kwargs.values()]
        return I.mk_tuple([I.val(mk('call', n, (m[-1],), ()), 'arr')
                           for n in ('#radius', '#duration')])

    def prep(I):
        I.overrides[hq] = dist
        ci = R.classinfo(DW + 'BaseDistanceTimeWindow')
        k, o = ci.lookup('__call__')
        I.overrides[f'{k.qual}.__call__'] = window
    R.prepare = prep
    for key in keys[:1]:
        for e, cfg, r, lab in runs(R, out, key):
            cluster(R, out, e, r, lab)


def table(x):
    """the table a column or an index is taken from"""
    while x.op in ('resetidx', 'cols', 'astype', 'attr', 'index', 'col'):
        x = x.a[0]
    return x


def conjuncts(x):
    """conditions whose conjunction a mask is"""
    if x.op == 'and':
        return [c for y in x.a for c in conjuncts(y)]
    if x.op == 'call' and x.a[0] == 'numpy.logical_and':
        return [c for y in x.a[1] for c in conjuncts(y)]
    if x.op == 'setitem' and x.a[1] is x.a[0]:
        inner = x.a[0]

        def f(y):
            if y.op == 'sel' and y.a[1] is inner:
                return y.a[0]
            return None
        return conjuncts(inner) + conjuncts(t.rewrite(x.a[2], f, {}))
    return [x]


def plainterm(x, i):
    """times without rounding and elements in one form"""
    def f(y):
        if y.op == 'astype' and 'datetime64' in t.show(y.a[1], 1):
            return y.a[0]
        if y.op in ('get', 'at', 'take') and y.a[1] is i:
            return mk('el', plain0(y.a[0]))
        return None
    return t.rewrite(x, f, {})


def plain0(x):
    while x.op == 'astype' or x.op == 'attr' and x.a[1] == 'values':
        x = x.a[0]
    return x


def cluster(R, out, E, r, lab):
    x = r.result()
    site = site_of(r.interp, E.qual)

    def flag(rule, key, msg):
        out.flag(rule, site, key, f'{msg} ({lab})', lab)
    if x is None or x.op != 'fold':
        return
    S = Space(r.interp)
    loop, init, body = x.a[0], x.a[1], x.a[2]
    out.ob('start')
    if init.op == 'full' and init.a[1] in (t.ZERO, t.FALSE):
        flag('start', 'init', 'events are no mainshocks to begin with')
    skip = None
    mus = lambda y: y.op == 'mu' and y.a[0] is loop  # noqa: E731
    if body.op == 'phi':
        c, p, q = body.a
        if mus(p):
            skip, body = t.not_(c), q
        elif mus(q):
            skip, body = c, p
    # the event at hand
    out.ob('mainshock')
    if body.op != 'setitem':
        return
    if not (body.a[2] in (t.ONE, t.TRUE) and body.a[0].op == 'setitem' and
            mus(body.a[0].a[0])):
        if mus(body.a[0]) and body.a[2] in (t.ZERO, t.FALSE):
            if not mentions_exclusion(body.a[1]):
                flag('mainshock', 'flag', 'the mainshock itself is removed')
        elif body.a[2] in (t.ZERO, t.FALSE) and body.a[0].op == 'setitem' \
                and body.a[0].a[2] in (t.ONE, t.TRUE):
            flag('mainshock', 'flag', 'the mainshock itself is removed')
        return
    i, mask = body.a[1], body.a[0].a[1]
    if body.a[0].a[2] not in (t.ZERO, t.FALSE):
        return
    if i.op != 'at' or i.a[1] is not loop:
        return
    order(out, S, i.a[0], flag)
    # assigned events
    cs = conjuncts(mask)
    free = [c for c in cs if c.op in ('eq', 'not') and any(
        mus(y) for y in parts(c))]
    out.ob('assigned once')
    if not free:
        flag('assigned once', 'free', 'events which belong to a cluster are '
             'removed again by a smaller event')
    elif skip is None:
        flag('assigned once', 'skip', 'events which belong to a cluster '
             'start their own')
    elif free and not any(mus(y) for y in parts(skip)):
        return
    state = [y for c in free for y in parts(c) if mus(y)]
    for e in r.evs('store'):
        if state and e.d.get('x') is state[0]:
            out.ob('assigned once')
            if e.d['i'] is not mask and set(conjuncts(e.d['i'])) < set(cs):
                flag('assigned once', 'ids', 'more events are assigned than '
                     'removed')
            elif e.d['i'] is i:
                flag('assigned once', 'ids', 'only the mainshock is assigned '
                     'to its cluster')
            if e.d['v'] is t.ZERO or mus(e.d['v']) and \
                    t.ZERO in e.d['v'].a[1:]:
                flag('assigned once', 'id', 'a cluster has the number of '
                     'events without one')
    # the windows
    cat = None
    for c in cs:
        for y in parts(c):
            if y.op == 'col' and y.a[1] == 'time':
                cat = y.a[0]
    if cat is None:
        return
    col = {n: mk('col', cat, n) for n in ('time', 'magnitude', 'longitude',
                                          'latitude')}
    T = S(col['time'])
    el = lambda y: S(mk('el', y))  # noqa: E731
    fs = V(S, 'fs_time_prop')
    if not any(y.op == 'in' and y.a[0] == 'fs_time_prop'
               for c in cs for y in parts(c)):
        v = (cfgval(r, 'fs_time_prop'))
        if v is not None:
            fs = S(v)
    dur = mk('call', '#duration', (col['magnitude'],), ())
    rad = mk('call', '#radius', (col['magnitude'],), ())
    have = {}
    S.extra |= {y for c in cs for y in parts(plainterm(c, i))}
    ext = set(S.extra)
    for c in cs:
        if c in free:
            continue
        if c.op != 'cmp':
            return
        g = plainterm(c, i)
        d = S(g.a[1])
        names = {y.a[0] for y in parts(g) if y.op == 'call'}
        if '#distance' in names:
            have['distance'] = c
            near(out, S, g, d, rad, col, i, cat, flag, lab)
            continue
        out.ob('time window')
        forms = {'after': el(dur) - T + el(col['time']),
                 'before': T - el(col['time']) + fs * el(dur)}
        for n, w in forms.items():
            if d.same(w):
                have[n] = c
                if c.a[0] != '>=':
                    flag('time window', n + 'b', 'an event at the end of '
                         f'the window ({n}) does not belong to it')
                break
        else:
            if '#duration' in names or '#radius' in names:
                lv = {y for y in S.A.leaves(d.r)}
                if all(y in ext or y.op == 'el' for y in lv) and \
                        not S.A.names(d.r) - S.plain:
                    flag('time window', 'form', 'events are selected by '
                         f'{S.A.show(d.r)[:150]} {c.a[0]} 0')
                    have['after'] = have['before'] = c
                else:
                    return
    for n in ('before', 'after', 'distance'):
        out.ob('window')
        if n not in have:
            flag('window', n, f'no limit on the {n}'.replace(
                'the before', 'the time before').replace(
                'the after', 'the time after'))
    return


def cfgval(r, n):
    o = r.args.get(n)
    return None if o is None else r.term(o)


def mentions_exclusion(m):
    return any(y.op in ('ne', 'not') for y in parts(m)) or any(
        y.op == 'setitem' and y.a[2] in (t.ZERO, t.FALSE)
        for y in parts(m))


def near(out, S, g, d, rad, col, i, cat, flag, lab):
    out.ob('distance window')
    ds = sorted({y for y in parts(g) if y.op == 'call' and
                 y.a[0] == '#distance'}, key=lambda y: y.id)
    if len(ds) != 1:
        return
    w = S(mk('el', rad)) - S(ds[0])
    if d.same(w):
        if g.a[0] != '>=':
            flag('distance window', 'b', 'an event at the end of the radius '
                 'does not belong to the cluster')
    elif d.same(-w):
        flag('distance window', 'side', 'the events outside the radius are '
             'removed')
    elif all(y.op in ('el', 'call', 'in') for y in S.A.leaves(d.r)) and \
            not S.A.names(d.r) - S.plain:
        flag('distance window', 'form', 'events are selected by '
             f'{S.A.show(d.r)[:150]}')
    a = ds[0].a[1]
    for k, n in ((0, 'longitude'), (1, 'latitude'), (2, 'longitude'),
                 (3, 'latitude')):
        y = a[k]
        if k > 1:
            if y.op == 'el':
                y = y.a[0]
            elif y.op == 'at':
                y = y.a[0]
            else:
                continue
        if y.op == 'col' and y.a[1] != n:
            flag('distance window', f'coord{k}', f'the {y.a[1]} is used as '
                 f'{n}')


def order(out, S, idx, flag):
    """events in order of decreasing magnitude"""
    out.ob('order')
    if idx.op != 'index':
        if idx.op in ('range', 'pos'):
            flag('order', 'order', 'events are taken in the order of the '
                 'catalog')
        return
    df = idx.a[0]
    while df.op in ('cols',):
        df = df.a[0]
    if df.op == 'call' and df.a[0] == 'df.sort_values':
        kw = dict(df.a[2])
        by = kw.get('by', df.a[1][1] if len(df.a[1]) > 1 else None)
        asc = kw.get('ascending')
        by = lst(by)
        asc = lst(asc) if asc is not None else [t.TRUE]
        if not by or not asc:
            return
        if len(asc) == 1:
            asc = asc * len(by)
        names = [b.a[0] if b.op == 'const' else None for b in by]
        if None in names:
            return
        if names[0] != 'magnitude' or asc[0] is t.TRUE:
            flag('order', 'order', 'events are ordered by '
                 f'{"increasing" if asc[0] is t.TRUE else "decreasing"} '
                 f'{names[0]}')
        elif 'time' not in names or names[1] != 'time':
            flag('order', 'ties', 'events of equal magnitude are not '
                 'ordered by time')
        elif asc[1] is t.FALSE:
            flag('order', 'ties', 'of events of equal magnitude the last '
                 'one is the mainshock')
    elif df.op in ('in', 'resetidx'):
        flag('order', 'order', 'events are taken in the order of the '
             'catalog')


def lst(x):
    if x is None:
        return []
    if x.op in ('list', 'tuple'):
        return list(x.a)
    return [x]

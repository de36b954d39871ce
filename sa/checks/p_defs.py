"""P35: next larger events, incompleteness, partitions, conversions."""
from .. import terms as t
from ..terms import mk, NONE, ZERO, TRUE
from .common import site_of, bclasses, aclasses
from .formula import Space, judge, runs, parts, V, is_count

RULE = 'the loops are summarised by the positions they store, the values '\
       'stored there and the conditions of the stores; ranges, conditions '\
       'and values must have the normal form of the definition'
ASSUMPTIONS = ['real arithmetic', 'numpy.array_split cuts at the positions '
               'given']


def tasks(R, tier):
    for n in ('next', 'incomplete', 'cut', 'partitions', 'edwards'):
        yield ('direct', n)


def work(R, task, out):
    globals()['do_' + task[1]](R, out)


def stores(r, key):
    return [e for e in r.evs('store') if e.site[2] == key
            or e.site[2].endswith('.' + key)]


def conds(e):
    return [c for c in e.pc if c.op != 'inloop']


def known(S, ex, extra=()):
    """all atoms of the expression have a meaning here"""
    return all(y.op in ('in', 'num', 'const', 'len', 'it') or y in extra
               for y in S.A.leaves(ex.r))


# ----------------------------------------------------- next larger events
def do_next(R, out):
    for E, cfg, r, lab in runs(R, out, 'find_next_larger'):
        site = site_of(r.interp, E.qual)
        M = mk('in', 'magnitudes')
        n = mk('len', M)
        S = Space(r.interp)

        def flag(rule, key, msg):
            out.flag(rule, site, key, f'{msg} ({lab})', lab)
        res = r.result()
        for e in r.evs('truth'):
            if e.d['term'] is mk('in', 'dmc') and e.d['kind'] == 'num':
                flag('size of the difference', 'dmc of 0', 'dmc is tested '
                     'by its truth value: 0 counts as not given')
        for e in stores(r, 'find_next_larger'):
            i, v, x = e.d['i'], e.d['v'], e.d['x']
            loops = [c for c in e.pc if c.op == 'inloop']
            if len(loops) != 2 or i.op not in ('it', 'pos') or \
                    v.op not in ('it', 'pos'):
                continue
            out.ob('next larger event')
            lo, li = loops[0].a[0], loops[1].a[0]
            if i.a[0] is li and v.a[0] is lo:
                flag('next larger event', 'swapped', 'the position of an '
                     'event is stored for its next larger one')
                continue
            if i.a[0] is not lo or v.a[0] is not li:
                continue
            ranges(i, v, n, flag)
            c = conds(e)
            if len(c) == 1 and c[0].op == 'cmp':
                d = V(S, 'delta_m') if cfg.get('delta_m') != 0 else S(ZERO)
                dmc = V(S, 'dmc') if cfg.get('dmc') is not None else d
                got = S(indexed(c[0].a[1], M, i, v))
                want = S(mk('get', M, v)) - S(mk('get', M, i)) - dmc + d / 2
                out.ob('size of the difference')
                if c[0].a[0] == '>=' and got.same(want):
                    out.ob('proved: size of the difference')
                elif known(S, got, {y for y in parts(indexed(
                        c[0].a[1], M, i, v)) if y.op == 'get' and
                        y.a[0] is M and (y.a[1] in (i, v) or
                                         t.sub(y.a[1], i).op == 'num' or
                                         t.sub(y.a[1], v).op == 'num')}):
                    flag('size of the difference', 'cut', 'an event counts '
                         f'as larger if {t.show(c[0], 4)[:120]}')
            # the first one found stays
            ps = parts(res)
            up = v.op == 'pos' or len(v.a) < 4 or v.a[3] is t.ONE
            brk = any(y.op == 'brk' and y.a[0] is li for y in ps)
            set_ = [y for y in ps if y.op == 'setitem' and y.a[1] is i
                    and y.a[2] is v]
            if set_:
                out.ob('first one')
                if up and not brk:
                    flag('first one', 'last', 'of several larger events the '
                         'last one is taken, not the first')
                elif not up and brk:
                    flag('first one', 'backwards', 'the later events are '
                         'searched from the end')
        ps = parts(res)
        init = [y for y in ps if y.op == 'full' and len(y.a) == 2
                and y.a[0] is n]
        for y in init:
            out.ob('no larger event')
            if y.a[1] is not ZERO and y.a[1].op == 'num':
                flag('no larger event', 'none', 'events without a larger '
                     f'one get {t.show(y.a[1])} instead of 0')


def indexed(x, M, *idx):
    """elements of M by position"""
    def f(y):
        if y.op == 'at' and y.a[0] is M:
            for i in idx:
                if i.a[0] is y.a[1]:
                    return mk('get', M, i)
    return t.rewrite(x, f, {})


def ranges(i, v, n, flag):
    """i over all events (but the last), v over those after it"""
    if v.op == 'pos':
        if v.a[1].op in ('in', 'len', 'range'):
            flag('later events', 'start', 'events before an event can be '
                 'its next larger one')
        return
    if len(v.a) != 4:
        return
    if i.op == 'it' and len(i.a) == 4 and i.a[3] is t.ONE:
        if i.a[1].op == 'num' and i.a[1] is not ZERO:
            flag('events', 'start', 'the search starts with event '
                 f'{t.show(i.a[1])}')
        d = t.sub(n, i.a[2])
        if d.op == 'num' and d.a[0] > 1:
            flag('events', 'stop', f'the last {d.a[0]} events get no next '
                 'larger event')
    if v.a[3] is t.ONE:
        d = t.sub(v.a[1], i)
        if d.op == 'num' and d.a[0] > 1:
            flag('later events', 'start', 'the search skips the next '
                 f'{d.a[0] - 1} event(s)')
        elif v.a[1].op == 'num':
            flag('later events', 'start', 'events before an event can be '
                 'its next larger one')
        elif d.op == 'num' and d.a[0] <= 0:
            flag('later events', 'start', 'an earlier event or the event '
                 'itself can be its next larger one')
        d = t.sub(n, v.a[2])
        if d.op == 'num' and d.a[0] != 0:
            flag('later events', 'stop', f'the search stops {d.a[0]} '
                 'event(s) before the end')


# ---------------------------------------------- short-term incompleteness
def exists(c):
    """C if the condition c says that C holds for at least one element"""
    if c.op == 'truth':
        return exists(c.a[0])
    if c.op == 'call' and c.a[0] in ('numpy.any', 'builtins.any') and \
            len(c.a[1]) == 1:
        return c.a[1][0], None
    if c.op == 'not' and c.a[0].op == 'eq' and ZERO in c.a[0].a:
        y = c.a[0].a[1] if c.a[0].a[0] is ZERO else c.a[0].a[0]
        m = counted(y)
        return None if m is None else (m, None)
    m = counted(c)
    if m is not None:
        return m, None
    if c.op == 'cmp':
        hits = [(y, m) for y in parts(c.a[1])
                for m in (counted(y),) if m is not None]
        if len(hits) == 1:
            y, m = hits[0]
            k = t.sub(c.a[1], y)
            if k.op == 'num':
                least = -k.a[0] + (1 if c.a[0] == '>' else 0)
                return m, None if least == 1 else least
    return None


def counted(y):
    if y.op == 'call' and y.a[0] in ('numpy.sum', 'builtins.sum',
                                     'numpy.count_nonzero') and \
            len(y.a[1]) == 1 and is_count(mk('call', 'numpy.sum', y.a[1],
                                             ())):
        return y.a[1][0]
    if y.op == 'len' and y.a[0].op == 'nz':
        return y.a[0].a[0]
    if y.op == 'len' and y.a[0].op == 'sel':
        return y.a[0].a[1]
    return None


def do_incomplete(R, out):
    for E, cfg, r, lab in runs(R, out, 'make_more_incomplete'):
        site = site_of(r.interp, E.qual)
        S = Space(r.interp)

        def flag(rule, key, msg):
            out.flag(rule, site, key, f'{msg} ({lab})', lab)
        T0 = mk('in', 'times')
        srt = [y for y in parts(r.result()) if y.op == 'take'
               and y.a[0] is T0]
        T = srt[0] if len(srt) == 1 else T0
        M = mk('take', mk('in', 'magnitudes'), srt[0].a[1]) if len(
            srt) == 1 else mk('in', 'magnitudes')
        dt = mk('in', 'delta_t')
        for e in stores(r, 'make_more_incomplete'):
            i, v = e.d['i'], e.d['v']
            c = conds(e)
            if i.op == 'nz' and v is t.FALSE and i.a[0].op == 'cmp' and any(
                    y.op == 'slice' and y.a[0] is T and y.a[1] is NONE
                    for y in parts(i.a[0])):
                flag('events judged', 'earlier', 'the earlier events are '
                     'removed, not the one after a larger event')
            if v.op == 'not' and not c:
                c = [v.a[0]]
            if i.op != 'it' or len(i.a) != 4 or len(c) != 1:
                continue
            out.ob('events judged')
            if v is TRUE:
                continue          # marks the events which are removed
            if i.a[1].op == 'num' and i.a[1].a[0] > 1:
                flag('events judged', 'start', 'the first '
                     f'{i.a[1].a[0]} events are always kept')
            d = t.sub(mk('len', M), i.a[2])
            d2 = t.sub(mk('len', T), i.a[2])
            for q in (d, d2):
                if q.op == 'num' and q.a[0] > 0:
                    flag('events judged', 'stop', f'the last {q.a[0]} '
                         'event(s) are always kept')
            x = exists(c[0])
            if x is None:
                continue
            C, least = x
            out.ob('one larger event is enough')
            if least is not None:
                flag('one larger event is enough', 'least', 'an event is '
                     f'removed only if {least} earlier events are larger')
            larger(out, S, C, M, T, i, dt, flag, r)


def larger(out, S, C, M, T, i, dt, flag, r):
    """C: earlier events less than delta_t before which are larger"""
    cs = list(C.a) if C.op == 'and' else [C]
    mi, ti = mk('get', M, i), mk('get', T, i)
    mag, close = None, None
    for c in cs:
        if c.op != 'cmp':
            return
        ins = t.inputs(c.a[1])
        if mi in parts(c.a[1]):
            mag = c
        elif ti in parts(c.a[1]):
            close = c
    if mag is None:
        return
    other = [y for y in (t.add(mag.a[1], mi), t.sub(mi, mag.a[1]))]
    out.ob('larger')
    sel = None
    for y, s in ((other[0], 1), (t.sub(mag.a[1], mi), -1)):
        z = y if s == 1 else t.neg(y)
        if z.op in ('sel', 'slice') and z.a[0] is M or z.op == 'sel' and \
                z.a[0].op == 'slice' and z.a[0].a[0] is M:
            sel = (z, s)
    if sel is None:
        return
    z, s = sel
    if s == -1:
        flag('larger', 'smaller', 'an event is removed after a smaller one')
        return
    if mag.a[0] != '>':
        flag('larger', 'equal', 'an event is removed after one of the same '
             'magnitude')
    else:
        out.ob('proved: larger')
    if z.op == 'sel':
        close = z.a[1]
        before(z.a[0], i, flag)
    else:
        before(z, i, flag)
    if close is None or close.op != 'cmp':
        return
    # times[i] - times[:i] < delta_t
    ear = [y for y in parts(close.a[1]) if y.op == 'slice' and y.a[0] is T]
    if len(ear) != 1:
        return
    before(ear[0], i, flag)
    rest = t.sub(close.a[1], t.sub(ear[0], ti))
    out.ob('time window')
    lim = dt if dt in parts(close.a[1]) else None
    if lim is None:
        k = [y for y in parts(close.a[1]) if y.op == 'call' and
             y.a[0].endswith(('timedelta64', 'Timedelta', 'timedelta'))]
        lim = k[0] if len(k) == 1 else None
    if lim is None:
        return
    if rest is lim:
        if close.a[0] != '>':
            flag('time window', 'end', 'an event exactly delta_t after a '
                 'larger one is removed')
        else:
            out.ob('proved: time window')
    elif t.add(close.a[1], t.sub(ear[0], ti)) is t.neg(lim):
        flag('time window', 'outside', 'events more than delta_t after a '
             'larger one are removed')
    elif rest.op in ('mono', 'lin') and all(
            y is lim or y.op in ('num', 'mono', 'lin')
            for y in parts(rest) - parts(lim)):
        flag('time window', 'width', f'the window is {t.show(rest, 3)}')


def before(y, i, flag):
    if y.op != 'slice' or len(y.a) < 3:
        return
    lo, hi = y.a[1], y.a[2]
    if lo is not NONE and lo is not ZERO and (lo.op == 'num' or lo is i):
        flag('earlier events', 'from', 'only earlier events from position '
             f'{t.show(lo, 2)} are looked at')
    d = t.sub(hi, i) if hi is not NONE else None
    if d is not None and d.op == 'num' and d.a[0] < 0:
        flag('earlier events', 'to', f'the {-d.a[0]} event(s) just before '
             'are not looked at')


# -------------------------------------------------------------- partitions
def do_cut(R, out):
    x, n, o = mk('in', 'values'), mk('in', 'n'), mk('in', 'offset')
    for E, cfg, r, lab in runs(R, out, 'cut_constant_idx'):
        site = site_of(r.interp, E.qual)
        res = r.result()
        if res.op != 'tuple' or len(res.a) != 2:
            res = mk('tuple', *res.a[0]) if res.op == 'tuple' and len(
                res.a) == 1 and isinstance(res.a[0], tuple) else res
        if res.op != 'tuple' or len(res.a) != 2:
            continue
        ix, sub = res.a
        zero = cfg.get('offset') == 0 or r.interp.decide(
            t.eq(o, ZERO)) is True
        b = bounds(ix)
        out.ob('cuts')
        if b is not None:
            want = (n if zero else o, mk('len', x), n)
            if b == want:
                out.ob('proved: cuts')
            for k, (g, w) in enumerate(zip(b, want)):
                if g is not w and simple(g):
                    name = ('first cut', 'end', 'distance')[k]
                    out.flag('cuts', site, name, f'{name} is '
                             f'{t.show(g, 3)} instead of {t.show(w, 3)} '
                             f'({lab})', lab)
        if sub.op == 'call' and sub.a[0] == 'numpy.array_split' and \
                len(sub.a[1]) == 2:
            out.ob('parts')
            if sub.a[1][0] is not x and sub.a[1][0].op in (
                    'in', 'sel', 'slice', 'take'):
                out.flag('parts', site, 'values', 'the parts are those of '
                         f'{t.show(sub.a[1][0], 3)} ({lab})', lab)
            b2 = bounds(sub.a[1][1])
            if b is not None and b2 is not None and b != b2:
                out.flag('parts', site, 'positions', 'the parts are cut at '
                         f'other positions than those returned ({lab})', lab)


def simple(x):
    return all(y.op in ('in', 'num', 'lin', 'mono', 'len')
               for y in parts(x))


def bounds(x):
    """(first, end, distance) of a range of positions"""
    if x.op == 'slice' and x.a[2] is NONE and (
            len(x.a) < 4 or x.a[3] in (NONE, t.ONE)):
        b = bounds(x.a[0])
        k = x.a[1]
        if b is None or k.op != 'num' or k.a[0] < 0:
            return None
        return t.add(b[0], t.mul(k, b[2])), b[1], b[2]
    if x.op == 'call' and x.a[0] == 'numpy.arange' and len(x.a[1]) == 3 \
            and not x.a[2]:
        return tuple(x.a[1])
    if x.op == 'range' and len(x.a) == 3:
        return tuple(x.a)
    return None


ACC = {'value': '#value', 'b_value': '#value', 'a_value': '#value',
       'std': '#std', 'n': '#n', 'beta': '#beta', 'std_beta': '#std_beta'}
KINDS = ('#value', '#std', '#n')
WORD = ('estimate', 'standard deviation', 'number of events')


def do_partitions(R, out):
    quals = {}
    for ci in bclasses(R) + aclasses(R):
        for a, m in ACC.items():
            k, oid = ci.lookup(a)
            if oid is not None and R.has(f'{k.qual}.{a}'):
                quals[f'{k.qual}.{a}'] = m

    def prep(I):
        for q, m in quals.items():
            I.overrides[q] = (lambda m: lambda I_, fv, args, kw, node:
                              I_.val(mk('in', m), 'num'))(m)
    R.prepare = prep
    try:
        for E, cfg, r, lab in runs(R, out, 'values_from_partitioning'):
            res = r.result()
            xs = elements(res)
            if xs is None or len(xs) != 3:
                continue
            site = site_of(r.interp, E.qual)
            for x, kind, word in zip(xs, KINDS, WORD):
                value(out, x, kind, word, site, lab)
    finally:
        R.prepare = None


def elements(x):
    if x.op != 'tuple':
        return None
    if len(x.a) == 1 and isinstance(x.a[0], tuple):
        return list(x.a[0])
    return list(x.a)


def value(out, x, kind, word, site, lab):
    while x.op == 'astype':
        x = x.a[0]
    if x.op != 'fold':
        return
    sets = [y for y in parts(x) if y.op == 'setitem']
    for y in sets:
        i, v = y.a[1], y.a[2]
        out.ob('stored for a subset')
        if i.op == 'lin' and any(z.op in ('pos', 'it') for z in parts(i)):
            out.flag('stored for a subset', site, kind + 'pos',
                     f'the {word} of a subset is stored at '
                     f'{t.show(i, 2)} ({lab})', lab)
        vs = [v]
        while any(z.op == 'phi' for z in vs):
            vs = [w for z in vs for w in (
                (z.a[1], z.a[2]) if z.op == 'phi' else (z,))]
        for w in vs:
            if w is mk('in', kind):
                out.ob('proved: stored for a subset')
            elif w.op == 'in' and w.a[0].startswith('#'):
                out.flag('stored for a subset', site, kind,
                         f'{w.a[0][1:]} is returned as {word} ({lab})', lab)
            elif w.op == 'len' and kind == '#n':
                out.flag('stored for a subset', site, kind, 'the number of '
                         f'events is {t.show(w, 3)} instead of that of the '
                         f'events used ({lab})', lab)
            elif w.op == 'num' and (kind != '#n' or w is not ZERO):
                out.flag('stored for a subset', site, kind + 'empty',
                         f'the {word} of an empty subset is {t.show(w)} '
                         f'({lab})', lab)


# -------------------------------------------------------------- conversion
def do_edwards(R, out):
    for E, cfg, r, lab in runs(R, out, 'apply_edwards'):
        S = Space(r.interp)
        site = site_of(r.interp, E.qual)
        m = V(S, 'mag')
        want = S(t.num('51/50')) + m * S(t.num('59/125')) + \
            m * m * S(t.num('491/10000'))
        for y in parts(r.result()):
            if y.op != 'list':
                continue
            el = y.a[0] if len(y.a) == 1 and isinstance(y.a[0], tuple) \
                else y.a
            if len(el) != 2:
                continue
            kind, v = el
            if kind is mk('in', 'mag_type'):
                judge(out, S, S(v), [m], 'conversion', site, 'same',
                      'moment magnitude', lab)
            elif kind.op == 'const':
                judge(out, S, S(v), [want], 'conversion', site, 'converted',
                      'converted magnitude', lab)

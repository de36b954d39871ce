"""P28: results are the published closed formulas."""
from fractions import Fraction
from .. import terms as t
from ..terms import mk, NONE, ZERO
from .common import class_tasks, class_runs, done, site_of
from ..algebra import Ex, TooBig
from .formula import Space, judge, runs, parts, V

RULE = 'the value term of each result must equal the published formula; '\
       'equality is decided on normal forms (quotients of polynomials over '\
       'inputs, sums over elements, logarithms, exponentials and roots)'
ASSUMPTIONS = ['real arithmetic; arguments of logarithms and roots are '
               'positive', 'there are enough events (emptiness is not '
               'judged here)']


# -------------------------------------------------------------------- tasks
def tasks(R, tier):
    yield from class_tasks(R)
    for n in DIRECT:
        yield ('direct', n)


READ = ('b_value', 'std', 'beta', 'std_beta', 'a_value', 'magnitudes', 'weights', 'dmc', 'mc',
        'delta_m', 'times', 'value')


def work(R, task, out):
    if task[0] == 'class':
        for ci, cfg, r in class_runs(R, task, read=READ):
            done(out, r)
            if r.out is not None:
                estimator(R, out, ci, cfg, r)
        return
    globals()['do_' + task[1]](R, out)


def term(r, n):
    o = r.read.get(n)
    if o is None:
        return None
    x = r.term(o)
    return None if x is NONE else x


def mle(m, mc, d, w, cont):
    if cont:
        return 1 / ((m.mean(w) - mc))
    return (1 + d / (m.mean(w) - mc)).log() / d


def waits(dt, T_):
    """time to the next larger event; to the last event if there is none"""
    if dt.op != 'setitem':
        return True
    base, where, val = dt.a[:3]
    nx = [x.a[1] for x in parts(base) if x.op == 'take' and x.a[0] is T_]
    if len(nx) != 1 or base is not t.sub(mk('take', T_, nx[0]), T_):
        return False
    if where is not t.eq(nx[0], ZERO):
        return False
    return val is t.sub(t.getitem(T_, t.num(-1)), mk('sel', T_, where))


def estimator(R, out, ci, cfg, r):
    S = Space(r.interp)
    q = ci.qual
    lab = r.name
    name = ci.name
    M = term(r, 'magnitudes')
    if M is None:
        return
    m = S(M)
    S.extra = parts(M)
    W = term(r, 'weights')
    w = None if W is None else S(W)
    cont = cfg.get('delta_m') == 0
    d = S(ZERO) if cont else S(mk('in', 'delta_m'))
    mc = S(mk('in', 'mc'))
    dmc = term(r, 'dmc')
    dmc = None if dmc is None else S(dmc)
    b = term(r, 'b_value')
    site = site_of(r.interp, q + '.calculate')
    if name.endswith('BValueEstimator') and b is not None:
        got = S(b)
        if name.startswith('Classic'):
            want = mle(m, mc, d, w, cont) / S.L10
        elif name.startswith('Utsu'):
            want = 1 / (m.mean(w) - mc + d / 2) / S.L10
        elif name in ('BPositiveBValueEstimator',
                      'BMorePositiveBValueEstimator') and dmc is not None:
            want = mle(m, dmc, d, w, cont) / S.L10
        else:
            return
        judge(out, S, got, [want], 'b-value', site, name,
              f'b-value of {name}', lab)
        s = term(r, 'std')
        if s is not None and 'More' not in name:
            got2 = S(s)
            N = m.n() if w is None else w.sum()
            mu = m.mean(w)
            sd = ((m - mu) * (m - mu)).mean(w).sqrt()
            want2 = S.L10 * got * got * sd / (N - 1).sqrt()
            judge(out, S, got2, [want2], 'standard error',
                  site_of(r.interp, q + '.std'), name,
                  f'standard error of {name}', lab)
            s = term(r, 'std_beta')
            if s is not None:
                judge(out, S, S(s), [want2 * S.L10], 'standard error',
                      site_of(r.interp, q + '.std_beta'), name + 'beta',
                      f'standard error of beta of {name}', lab)
        s = term(r, 'beta')
        if s is not None:
            judge(out, S, S(s), [got * S.L10], 'beta',
                  site_of(r.interp, q + '.beta'), name + 'beta',
                  f'beta of {name}', lab)
    a = term(r, 'a_value')
    if name.endswith('AValueEstimator') and a is not None:
        got = S(a)
        tail = S(ZERO)
        if cfg.get('m_ref') is not None:
            if cfg.get('b_value') is None:
                return
            tail = tail - S(mk('in', 'b_value')) * (
                S(mk('in', 'm_ref')) - mc)
        if cfg.get('scaling_factor') is not None:
            tail = tail - S(mk('in', 'scaling_factor')).log10()
        wants = []
        if name.startswith('Classic'):
            wants = [m.n().log10() + tail]
        elif dmc is not None:
            leaves = S.cands(got, lambda x: True)
            ends = [x.a[0] for x in leaves if x.op == 'get'
                    and x.a[1] is ZERO]
            arrs = [x for x in leaves if S.A.array_term(x)]
            for T_ in ends:
                tot = S(t.getitem(T_, t.num(-1))) - S(t.getitem(T_, ZERO))
                if name.startswith('APositive'):
                    for dt in arrs:
                        if T_ not in parts(dt):
                            continue
                        e = S(dt)
                        wants.append((e.n() * tot / e.sum()).log10() + tail)
                elif name.startswith('AMorePositive'):
                    bb = S(mk('in', 'b_value'))
                    for dt in arrs:
                        if T_ not in parts(dt) or not waits(dt, T_):
                            continue
                        for mm in arrs:
                            if dt is mm or mm.op in ('nz',):
                                continue
                            tau = S(dt) * (-(bb * (S(mm) + dmc - mc))
                                           ).exp10()
                            wants.append((m.n() * tot / tau.sum()).log10()
                                         + tail)
        else:
            return
        judge(out, S, got, wants, 'a-value', site, name,
              f'a-value of {name}', lab)


# ------------------------------------------------------------------- direct
DIRECT = []


def direct(f):
    DIRECT.append(f.__name__[3:])
    return f


@direct
def do_shi_bolt(R, out):
    for E, cfg, r, lab in runs(R, out, 'shi_bolt_confidence'):
        S = Space(r.interp)
        m, b = V(S, 'magnitudes'), V(S, 'b')
        w = V(S, 'weights') if cfg.get('weights') is not None else None
        N = m.n() if w is None else w.sum()
        mu = m.mean(w)
        want = b * b * ((m - mu) * (m - mu)).mean(w).sqrt() / (
            N - 1).sqrt()
        if cfg.get('b_parameter') != 'beta':
            want = want * S.L10
        judge(out, S, S(r.result()), [want], 'standard error',
              site_of(r.interp, E.qual), 'shi_bolt', 'Shi-Bolt error', lab)


@direct
def do_transform_n(R, out):
    for E, cfg, r, lab in runs(R, out, 'transform_n'):
        S = Space(r.interp)
        be, bt, n1, n2 = [V(S, n) for n in ('b_estimate', 'b_true', 'n1',
                                            'n2')]
        want = bt / (1 - (n1 / n2).sqrt() * (1 - bt / be))
        judge(out, S, S(r.result()), [want], 'formula',
              site_of(r.interp, E.qual), 'transform_n', 'transform_n', lab)


def quad(r, n):
    x = r.result()
    return x.a if x is not None and x.op in ('tuple', 'list') and \
        len(x.a) == n else None


def estimated(x):
    """x without the branches which are NaN"""
    def nan(y):
        return y.op in ('const', 'ext') and 'nan' in str(y.a[0]).lower()

    def f(y):
        if y.op == 'phi':
            for u, v in ((y.a[1], y.a[2]), (y.a[2], y.a[1])):
                if nan(u):
                    return v
        return None
    return t.rewrite(x, f)


def start(c, pos):
    """does the condition hold for the first (True) or all others (False)"""
    if c.op == 'not':
        s = start(c.a[0], pos)
        return None if s is None else not s
    if c.op == 'eq' and set(c.a) == {pos, t.ZERO}:
        return True
    if c is t.cmp('>', pos, t.ZERO) or c is t.cmp('>=', pos, t.ONE) or \
            c is mk('truth', pos) or c is pos:
        return False
    if c is t.cmp('<', pos, t.ONE) or c is t.cmp('<=', pos, t.ZERO):
        return True
    return None


def ks_rate(out, S, x, rate, beta, cfg, site, lab):
    """events per expected share of the years of every sub-catalogue"""
    table = mk('in', 'completeness_table')
    every = [y.a[1] for y in parts(x) if y.op == 'get2' and y.a[0] is table
             and y.a[1].op == 'slc']
    if not every:
        return
    cm, cy = [mk('get2', table, every[0], t.num(k)) for k in (0, 1)]
    for f in S.cands(rate, lambda y: y.op == 'fold'):
        if f.a[1] is not t.ZERO or not any(
                y.op == 'call' and y.a[0] in ('numpy.exp', 'math.exp') or
                y.op in ('exp10', 'exp') for y in parts(f.a[2])):
            continue
        loop, body = f.a[0], f.a[2]
        mus = [y for y in parts(body) if y.op == 'mu' and y.a[0] is loop]
        pos = [y for y in parts(body) if y.op in ('pos', 'it') and
               y.a[0] is loop]
        if len(mus) != 1 or len(pos) != 1:
            continue
        add = t.sub(body, mus[0])
        pos = pos[0]
        low = mk('get', cm, t.ZERO)
        ends = [mk('in', 'last_year')] if cfg.get('last_year') is not \
            None else [y for y in parts(body) if y.op == 'call'
                       and y.a[0] in ('numpy.max', 'builtins.max')
                       and 'completeness_table' not in t.inputs(y)]

        def both(c, i):
            got = [mk('get', c, i)]
            if i is pos:
                got.append(mk('at', c, loop))
            return got
        known = {cm, cy, table, pos, low, t.sub(pos, t.ONE)} | {
            z for y in ends for z in parts(y) if isinstance(z, t.T)} | {
            z for c in (cm, cy) for i in (pos, t.sub(pos, t.ONE))
            for z in both(c, i)}
        known |= {y for y in parts(body) if y.op == 'get' and
                  y.a[0] in (cm, cy)}
        for first in (True, False):
            def branch(y):
                if y.op == 'phi' and start(y.a[0], pos) is not None:
                    return y.a[1 if start(y.a[0], pos) is first else 2]
                return None
            rest = t.rewrite(add, branch, {})
            if any(y.op == 'phi' and pos in parts(y.a[0])
                   for y in parts(rest)) or any(
                    y.op in ('at', 'get') and y not in known and
                    pos in parts(y) | {y.a[1]} or y.op == 'at' and
                    y.a[1] is loop and y not in known
                    for y in parts(rest)):
                continue
            S.extra |= known
            got = S(t.rewrite(add, branch, {}))
            wants = []
            for m in both(cm, pos):
                for y in both(cy, pos):
                    e = (-(beta * (S(m) - S(low)))).exp()
                    if first:
                        wants += [(S(z) - S(y)) * e for z in ends]
                    else:
                        wants += [(S(z) - S(y)) * e for z in both(
                            cy, t.sub(pos, t.ONE))]
            if wants:
                judge(out, S, got, wants, 'rate', site,
                      'ksrate' + str(first), 'share of the years of the '
                      f'{"first" if first else "other"} periods of '
                      'Kijko-Smit', lab)


def lowest(y, table):
    """the lowest magnitude of the completeness table"""
    if 'completeness_table' not in t.inputs(y):
        return False
    if y.op == 'get':
        return y.a[1] is t.ZERO
    if y.op == 'get2':
        return y.a[1] is t.ZERO and y.a[2] is t.ZERO
    return y.op == 'call' and y.a[0] in (
        'numpy.min', 'builtins.min', 'meth.min', 'numpy.amin')


@direct
def do_kijko_smit(R, out):
    for E, cfg, r, lab in runs(R, out, 'estimate_b_kijko_smit'):
        x = quad(r, 4)
        if x is None:
            continue
        x = [estimated(y) for y in x]
        S = Space(r.interp)
        site = site_of(r.interp, E.qual)
        S.plain |= {p + n for p in ('numpy.', 'builtins.', 'meth.')
                    for n in ('min', 'max', 'abs', 'mean', 'median')}
        b, s, rate, a = [S(y) for y in x]
        beta = b if cfg.get('b_parameter') == 'beta' else b * S.L10
        S.extra = set().union(*[parts(y) for y in x])
        folds = [S(y) for y in parts(x[2]) if counts(y)]
        if folds:
            judge(out, S, s, [b / f.sqrt() for f in folds],
                  'standard error', site, 'std',
                  'standard error of Kijko-Smit', lab)
        ks_rate(out, S, x[2], rate, beta, cfg, site, lab)
        ks_sets(out, x, cfg, site, lab)
        try:
            n = S(mk('len', mk('in', 'magnitudes')))
            if s.same(b / n.sqrt()) or any(
                    (rate * S(f)).same(n)
                    for f in S.cands(rate, lambda y: y.op == 'fold')):
                out.flag('complete events', site, 'number', 'all events are '
                         f'counted, not the complete ones ({lab})', lab)
        except TooBig:
            pass
        table = mk('in', 'completeness_table')
        lows = [S(y) for y in parts(x[3]) if lowest(y, table)] + [
            S(mk('get', mk('get2', table, y.a[1], ZERO), ZERO))
            for y in parts(x[2]) if y.op == 'get2' and y.a[0] is table
            and y.a[1].op == 'slc'][:1]
        d = V(S, 'delta_m')
        if lows:
            judge(out, S, a, [rate.log10() + beta / S.L10 * (m + e)
                              for m in lows for e in (S(ZERO), d / 2)],
                  'a-value', site, 'a', 'a-value of Kijko-Smit', lab)
        for y in parts(x[0]):
            if folds and y.op == 'call' and y.a[0] in (
                    'numpy.sum', 'builtins.sum') \
                    and y.a[1][0].op == 'map' and not counts(y):
                ks_term(out, S, y, beta, folds, site, lab)


def counts(y):
    """does the term count the elements of several lists?"""
    if y.op == 'fold':
        mu = [z for z in parts(y.a[2]) if z.op == 'mu' and z.a[0] is y.a[0]]
        return len(mu) == 1 and size(t.sub(y.a[2], mu[0]))
    if y.op == 'call' and y.a[0] in ('numpy.sum', 'builtins.sum') \
            and len(y.a[1]) == 1 and y.a[1][0].op == 'map':
        return size(y.a[1][0].a[3])
    return y.op == 'len' and y.a[0].op == 'call' and y.a[0].a[0] in (
        'numpy.concatenate', 'numpy.hstack')


def size(x):
    return x.op == 'len' or x.op == 'attr' and x.a[1] == 'size'


MEANS = ('numpy.average', 'numpy.mean', 'meth.mean')


def ks_term(out, S, y, beta, folds, site, lab):
    """Equation 7: 1 / beta is the mean over the periods, weighted by their
    numbers of events, of the mean excess of the magnitudes"""
    elem = y.a[1][0].a[3]
    e = S(elem)
    low0 = mk('get2', mk('in', 'completeness_table'),
              mk('slc', NONE, NONE, NONE), ZERO)
    sets = [z for z in parts(elem) if z.op == 'at'
            and size(mk('len', z)) and z.a[0] is not low0]
    lows = {z for z in parts(elem) if z.op in ('get', 'at')
            and z.a[0] is low0 and not (z.op == 'get' and t.is_num(z.a[1]))}
    lows |= {mk('get', low0, mk('pos', z.a[1], z.a[0])) for z in sets}
    means = [(z, w, t.sub(w, z.a[1][0])) for z in parts(elem)
             if z.op == 'call' and z.a[0] in MEANS and len(z.a[1]) == 1
             and not z.a[2] for w in sets]
    means = [(z, w, d) for z, w, d in means if w not in parts(d)]
    odd = [z for z in parts(elem) if z.op == 'call'
           and z.a[0] in ('numpy.median', 'numpy.nanmedian')]
    ok = {z for z, w, d in means} | set(odd) | lows | {
        z for z in parts(elem) if z.op == 'get' and z.a[0] is low0} | {
        z for w in sets for z in (mk('len', w),)} | {
        z for f in folds for z in S.A.leaves(f.r)} | {mk('in', 'delta_m')}
    q = S(t.ONE) / (beta * S(y))
    if beta.same(S(y)):
        out.flag('b-value', site, 'beta', 'beta is the mean excess, not its '
                 f'inverse ({lab})', lab)
    ok |= {v for z in ok | {mk('len', w) for w in sets}
           for v in S.A.leaves(S(z).r)}
    if (S.A.leaves(e.r) | S.A.leaves(q.r)) - ok:
        return
    wants = [S(mk('len', w)) * (S(z) + S(d) - S(m)) / N
             for z, w, d in means for m in lows for N in folds]
    if not wants and odd:
        wants = [S(ZERO)]
    if wants:
        judge(out, S, e * q, wants, 'b-value', site, 'term',
              'term of the Kijko-Smit estimator', lab)


def ks_sets(out, x, cfg, site, lab):
    """which events count as complete, and how many they are"""
    table, mags, times = (mk('in', n) for n in (
        'completeness_table', 'magnitudes', 'times'))
    full = mk('slc', t.NONE, t.NONE, t.NONE)
    cols = [mk('get2', table, full, t.num(k)) for k in (0, 1)]
    every = set().union(*[parts(y) for y in x])
    out.ob('events of the Kijko-Smit estimator')

    def flag(key, msg):
        out.flag('complete events', site, key, f'{msg} ({lab})', lab)

    for y in every:
        if y.op == 'get2' and y.a[0] is table and y.a[1] is full \
                and t.is_num(y.a[2]) and y.a[2] not in cols and \
                y.a[2] not in (t.num(-1), t.num(-2), t.ZERO, t.ONE):
            flag('column', f'column {t.show(y.a[2])} of the table')
    # the selections, and the events they keep
    subs = [y for y in every if y.op == 'sel' and y.a[0] is mags]
    for y in subs:
        for c in conjuncts(y.a[1]):
            if c.op == 'cmp' and any(
                    z.op == 'call' and z.a[0] == 'numpy.searchsorted'
                    for z in parts(c)):
                if not t.inputs(c) - {'times', 'completeness_table'}:
                    flag('period', 'events of other periods are kept')
                continue
            if c.op == 'cmp':
                at = [z for z in parts(c.a[1]) if z.op in ('at', 'get')
                      and z.a[0] is cols[0]]
                if not at or mags not in parts(c.a[1]):
                    continue
                d = [t.sub(c.a[1], t.sub(mags, z)) for z in at]
                if len(at) == 1 and c.a[0] in ('>', '>='):
                    z = at[0]
                    if z.op == 'get' and t.is_num(z.a[1]):
                        flag('bound', 'the completeness of one period is '
                             'used for the events of every period')
                    elif d[0] is not t.ZERO and t.inputs(d[0]) <= {
                            'delta_m'} and not shift_ok(d[0]):
                        flag('bound', 'the completeness of a period is '
                             f'moved by {t.show(d[0])}')
                    if t.add(c.a[1], t.sub(mags, z)) is t.ZERO:
                        flag('bound', 'the events below the completeness '
                             'of their period are kept')
                elif len(at) == 1 and t.sub(c.a[1], t.sub(mags, at[0])) \
                        is t.ZERO:
                    flag('bound', 'the events below the completeness of '
                         'their period are kept')
                continue
            se = [z for z in parts(c) if z.op == 'call'
                  and z.a[0] in ('numpy.searchsorted', 'meth.searchsorted')]
            if c.op != 'eq' or len(se) != 1:
                continue
            ends = [z for z in c.a if z is not se[0]]
            if len(ends) == 1 and se[0] in c.a:
                k = ends[0]
                pos = [z for z in parts(k) if z.op in ('pos', 'it')]
                if len(pos) == 1 and t.is_num(t.sub(k, pos[0])) and \
                        k is not pos[0]:
                    flag('period', 'the events of another period are kept')
    # the period of an event, as the place of its year among the starts
    for z in every:
        if z.op != 'call' or z.a[0] != 'numpy.searchsorted' or \
                not z.a[1]:
            continue
        kw = dict(z.a[2])
        v = kw.get('v', z.a[1][1] if len(z.a[1]) > 1 else None)
        hay = z.a[1][0]
        side = kw.get('side', z.a[1][2] if len(z.a[1]) > 2 else None)
        if v is None or 'times' not in t.inputs(v):
            continue
        if hay is t.neg(cols[1]) or hay is cols[1]:
            if hay is cols[1] and set(kw) <= {'v', 'side'}:
                flag('place', 'the years are looked up in starts that are '
                     'not in ascending order')
            elif times not in parts(v) or set(kw) - {'v', 'side'}:
                continue
            elif side is not None and t.show(side).strip('\'"') == 'right':
                flag('place', 'an event in the first year of a period is '
                     'given to the period before')
            y = t.neg(v)
            year(flag, y)
    for z in every:
        if z.op == 'call' and z.a[0] in ('numpy.max', 'builtins.max') \
                and len(z.a[1]) == 1:
            year(flag, z.a[1][0])
    if cfg.get('last_year') is None:
        for z in parts(x[2]):
            if z.op == 'call' and len(z.a[1]) == 1 and not z.a[2] and (
                    z.a[0] in ('numpy.min', 'builtins.min')
                    and t.inputs(z.a[1][0]) == {'times'}
                    or z.a[0] in ('numpy.max', 'builtins.max')
                    and z.a[1][0] is cols[1]):
                flag('end', 'the last period ends with ' + t.show(z, 3)
                     + ', not with the last event')
    # how many they are
    for f in every:
        if f.op != 'fold' or not any(y in parts(f.a[2]) for y in subs):
            continue
        if f.a[2].op == 'len' and f.a[1] is t.ZERO:
            flag('number', 'only the events of the last period are counted')
            continue
        mu = [z for z in parts(f.a[2]) if z.op == 'mu' and z.a[0] is f.a[0]]
        for m in mu:
            d = t.sub(f.a[2], m)
            if d.op == 'len' and (f.a[1] is not t.ZERO
                                  and t.is_num(f.a[1])):
                flag('number', 'the number of events starts at '
                     + t.show(f.a[1]))


def shift_ok(d):
    """half a bin down (the edge of a bin for its centre) is the edge that
    the table may give; anything else is another completeness"""
    return t.sub(d, t.mul(t.num(Fraction(1, 2)), mk('in', 'delta_m'))) \
        is t.ZERO


def year(flag, y):
    """the calendar year of an event"""
    unit = [z for z in parts(y) if z.op == 'astype'
            and 'datetime64[Y]' in t.show(z.a[1])]
    if len(unit) != 1:
        return
    n = [z for z in parts(y) if z.op == 'astype' and z.a[0] is unit[0]]
    if len(n) == 1:
        d = t.sub(y, n[0])
        if t.is_num(d) and d is not t.num(1970):
            flag('year', 'the years are counted from ' + t.show(d)
                 + ' instead of 1970')


def conjuncts(c):
    if c.op == 'and':
        return [y for z in c.a for y in (
            conjuncts(z) if hasattr(z, 'op') else sum(
                [conjuncts(w) for w in z], []))]
    return [c]


MINIMISERS = ('scipy.optimize.minimize', 'scipy.optimize.fmin',
              'scipy.optimize.minimize_scalar', 'scipy.optimize.brentq',
              'scipy.optimize.root_scalar', 'scipy.optimize.fsolve')


def objective(seen):
    """record the value of the function whose zero or minimum is sought"""
    def prep(I):
        seen.clear()

        def hook(name, args, kwargs, node):
            if name not in MINIMISERS or not args:
                return None
            more = []
            if 'args' in kwargs:
                x = I.reify(kwargs['args'])
                more = [I.val(y) for y in (
                    x.a if x.op in ('tuple', 'list') else (x,))]
            I.ext_hook = None
            try:
                o = I.call(args[0], [I.val(mk('in', '#beta'))] + more, {},
                           None, node)
                seen.append((name, I.reify(o)))
            finally:
                I.ext_hook = hook
            return None
        I.ext_hook = hook
    return prep


def likelihood(out, S, seen, m, T_, N, num, site, lab):
    """Weichert's equation: the expected mean magnitude is that of the
    events"""
    beta = S(mk('in', '#beta'))
    e = (-(beta * m)).exp()
    left = (T_ * m * e).sum() / (T_ * e).sum()
    right = (num * m).sum() / N
    for name, x in seen:
        root = not name.startswith(('scipy.optimize.min', 'scipy.optimize.fm'))
        got = S(x)
        S.extra |= parts(x)
        names = S.A.names(got.r)
        if any('log' in str(n) for n in names):
            continue
        w = left - right
        if root:
            wants = [w, S(t.ZERO) - w]
        elif any('abs' in str(n) for n in names):
            wants = [Ex(S.A, S.A.of_atom(S.A.fun(n, [v.r], False)))
                     for n in ('numpy.abs', 'builtins.abs')
                     for v in (w, S(t.ZERO) - w)]
        else:
            wants = [w * w]
        judge(out, S, got, wants, 'likelihood', site, 'objective',
              'equation of Weichert for beta', lab)


@direct
def do_weichert(R, out):
    seen = []
    R.prepare = objective(seen)
    try:
        weichert(R, out, seen)
    finally:
        R.prepare = None


def w_sets(out, every, cfg, site, lab):
    """which events count as complete"""
    table, mags = mk('in', 'completeness_table'), mk('in', 'magnitudes')
    full = mk('slc', NONE, NONE, NONE)
    cy = mk('get2', table, full, t.ONE)
    out.ob('events of the Weichert estimator')

    def flag(key, msg):
        out.flag('complete events', site, key, f'{msg} ({lab})', lab)

    for z in every:
        if z.op == 'get2' and z.a[0] is table and z.a[1] is full and \
                t.is_num(z.a[2]) and t.show(z.a[2]) not in (
                    '0', '1', '-1', '-2'):
            flag('column', f'column {t.show(z.a[2])} of the table')
        if z.op == 'call' and len(z.a[1]) == 1 and not z.a[2] and \
                z.a[0] in ('numpy.max', 'builtins.max', 'numpy.min',
                           'builtins.min'):
            y = z.a[1][0]
            year(flag, y)
            if cfg.get('last_year') is None and (
                    t.inputs(y) == {'times'} and z.a[0].endswith('min')
                    or y is cy and z.a[0].endswith('max')):
                flag('end', 'the catalog ends with ' + t.show(z, 3)
                     + ', not with the last event')
        if z.op == 'get' and z.a[0] is cy or z.op == 'take' and \
                z.a[0] is cy:
            # the last edge that is not above the magnitude
            at = [w for w in parts(z.a[1]) if w.op == 'at']
            n = t.sub(z.a[1], at[0]) if len(at) == 1 else None
            if n is not None and t.is_num(n) and n is not t.num(-1) and \
                    at[0].a[0].op == 'call' and \
                    at[0].a[0].a[0] == 'numpy.searchsorted':
                flag('place', 'the completeness of another magnitude is used')
    for z in every:
        if z.op != 'sel' or z.a[0] is not mags:
            continue
        cs = conjuncts(z.a[1])
        if any(c.op not in ('cmp', 'not', 'eq') for c in cs):
            continue
        hit = [c for c in cs if 'times' in t.inputs(c)]
        if not any('completeness_table' in t.inputs(c) for c in hit):
            flag('period', 'events before the year in which their magnitude '
                 'is complete are kept')
        for c in hit:
            if c.op != 'cmp':
                continue
            n = [w for w in parts(c.a[1]) if w.op == 'astype'
                 and 'datetime64[Y]' in t.show(w, 4)
                 and w.a[0].op == 'astype']
            if len(n) != 1 or c.a[1].op != 'lin':
                continue
            k = dict(c.a[1].a[1]).get(n[0])
            up = k is not None and (k > 0) == (c.a[0] in ('>', '>='))
            rest = t.sub(c.a[1], n[0]) if k == 1 else t.add(c.a[1], n[0])
            if k in (1, -1) and 'completeness_table' in t.inputs(c) and \
                    'times' not in t.inputs(rest) and rest.op == 'lin':
                if not up:
                    flag('period', 'the events before the year in which '
                         'their magnitude is complete are kept')
                elif c.a[0] == '>' and rest.a[0] == k * 1970:
                    flag('first', 'the events of the first complete year '
                         'are discarded')


def weichert(R, out, seen):
    for E, cfg, r, lab in runs(R, out, 'estimate_b_weichert'):
        x = quad(r, 5)
        if x is None:
            continue
        S = Space(r.interp)
        S.A.arrattrs |= {'mag_left_edge', 'completeness_start', 'num'}
        site = site_of(r.interp, E.qual)
        b, s, rate, srate, a = [S(y) for y in x]
        S.extra = set().union(*[parts(y) for y in x])
        col = {y.a[1]: y for y in S.extra if y.op == 'attr'
               and y.a[1] in S.A.arrattrs}
        if len(col) < 3:
            continue
        w_sets(out, S.extra, cfg, site, lab)
        d = V(S, 'delta_m')
        isbeta = cfg.get('b_parameter') == 'beta'
        beta = b if isbeta else b * S.L10
        m = S(col['mag_left_edge']) + d / 2
        ends = [S(mk('in', 'last_year'))] if cfg.get('last_year') is not \
            None else [S(y) for y in S.extra if y.op == 'call'
                       and y.a[0] in ('numpy.max', 'builtins.max')]
        N = S(col['num']).sum()
        e = (-(beta * m)).exp()
        rates, vars_ = [], []
        if len(ends) == 1:
            likelihood(out, S, seen, m, ends[0] - S(
                col['completeness_start']), N, S(col['num']), site, lab)
        for last in ends:
            T_ = last - S(col['completeness_start'])
            f = (T_ * e).sum()
            rates.append(N * e.sum() / f)
            vars_.append(f * f / N / (f * (T_ * m * m * e).sum()
                                      - (T_ * m * e).sum() ** 2))
        judge(out, S, rate, rates, 'rate', site, 'rate',
              'rate of Weichert', lab)
        judge(out, S, srate, [rate / N.sqrt()], 'standard error', site,
              'srate', 'standard error of the rate', lab)
        k = S(t.ONE) if isbeta else S.L10
        judge(out, S, s * s * k * k, vars_, 'standard error', site, 'std',
              'squared standard error of Weichert', lab)
        lows = [S(y) for y in S.cands(a, lambda y: y.op == 'get')]
        judge(out, S, a, [rate.log10() + beta / S.L10 * y for y in lows],
              'a-value', site, 'a', 'a-value of Weichert', lab)

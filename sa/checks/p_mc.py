"""P34: estimates of the magnitude of completeness follow their criteria."""
from .. import terms as t
from ..terms import mk, NONE
from ..algebra import Ex
from .common import all_entries, site_of
from .formula import Space, judge, runs, parts, V

RULE = 'the magnitude returned must be the one the documented criterion ' \
       'selects, together with the b-value estimated there'
ASSUMPTIONS = ['real arithmetic', 'the estimators and the '
               'Kolmogorov-Smirnov test return functions of the values they '
               'are given (decided by P05, P28 and P33)']
BASE = 'seismostats.analysis.bvalue.classic.ClassicBValueEstimator'
BAD = {'numpy.argmin', 'numpy.max', 'numpy.min', 'numpy.sum', 'numpy.mean',
       'numpy.median', 'len', 'numpy.abs', 'numpy.any', 'numpy.all'}


def tasks(R, tier):
    for n in ('maxc', 'ks', 'stab'):
        yield ('direct', n)


def work(R, task, out):
    try:
        globals()['do_' + task[1]](R, out)
    finally:
        R.prepare = None


def bind(I, fv, args, kwargs):
    a = fv.node.args
    ps = [p.arg for p in a.posonlyargs + a.args]
    return {k: I.reify(o) for k, o in
            list(zip(ps, args)) + list(kwargs.items())}


def F(name, *args):
    return mk('call', name, tuple(args), ())


def estimator(R, I):
    """the estimator returns marks with the values it was given"""
    if not R.has(BASE):
        return
    last = [None]
    ci = R.classinfo(BASE)

    def calc(I_, fv, args, kwargs, node):
        d = bind(I_, fv, args, kwargs)
        last[0] = tuple(d.get(k, NONE) for k in ('magnitudes', 'mc',
                                                 'delta_m'))
        return I_.val(F('#b', *last[0]))

    def read(mark):
        def f(I_, fv, args, kwargs, node):
            if last[0] is None:
                return None
            return I_.val(F(mark, *last[0]))
        return f
    for n, f in (('calculate', calc), ('b_value', read('#b')),
                 ('value', read('#b')), ('std', read('#std'))):
        k, o = ci.lookup(n)
        if k is not None:
            I.overrides[f'{k.qual}.{n}'] = f


def do_maxc(R, out):
    if 'get_fmd' not in all_entries(R):
        return
    seen = []

    def fmd(I, fv, args, kwargs, node):
        d = bind(I, fv, args, kwargs)
        for p, v in fv.defaults.items() if isinstance(
                getattr(fv, 'defaults', None), dict) else ():
            d.setdefault(p, I.reify(v))
        seen.append(d)
        return I.mk_tuple([I.val(mk('in', n)) for n in (
            '#bins', '#count', '#mags')])
    q = R.func(all_entries(R)['get_fmd'].qual).qual

    def prep(I):
        seen.clear()
        I.overrides[q] = fmd
    R.prepare = prep
    for E, cfg, r, lab in runs(R, out, 'estimate_mc_maxc'):
        x = r.result()
        if x is None or x.op != 'tuple' or len(seen) != 1:
            continue
        site = site_of(r.interp, E.qual)
        S = Space(r.interp)
        d = seen[0]
        out.ob('frequency of the magnitudes')
        bp = d.get('bin_position')
        if bp is not None and bp.op == 'const' and bp.a[0] != 'center':
            out.flag('frequency of the magnitudes', site, 'centre',
                     f'the bins are given by their {bp.a[0]} edge ({lab})',
                     lab)
        if d.get('fmd_bin') not in (None, mk('in', 'fmd_bin')) and \
                d['fmd_bin'].op in ('lin', 'num'):
            out.flag('frequency of the magnitudes', site, 'width',
                     f'the bin width is {t.show(d["fmd_bin"], 2)} ({lab})',
                     lab)
        w = d.get('weights')
        m = d.get('magnitudes')
        if m is not None and m.op in ('slice', 'diff', 'lin'):
            out.flag('frequency of the magnitudes', site, 'mags',
                     f'magnitudes used: {t.show(m, 3)} ({lab})', lab)
        bins, count = mk('in', '#bins'), mk('in', '#count')
        S.plain |= BAD
        got = S(x.a[0])
        S.extra = parts(bins) | parts(count) | {
            y for y in parts(S.resolve(x.a[0])) if not any(
                z.op == 'fold' for z in parts(y))}
        c = V(S, 'correction_factor')
        wants = []
        for arg in (F('numpy.argmax', count),):
            for op in ('take', 'at', 'get'):
                wants.append(S(mk(op, bins, arg)) + c)
        judge(out, S, got, wants, 'maximum curvature', site, 'maxc',
              'magnitude of the largest bin', lab)
        del w


def do_ks(R, out):
    q = all_entries(R).get('ks_test_gr')
    if q is None:
        return

    def ks(I, fv, args, kwargs, node):
        d = bind(I, fv, args, kwargs)
        a = tuple(d.get(k, NONE) for k in (
            'magnitudes', 'mc', 'delta_m', 'b_value', 'n', 'ks_ds'))
        return I.mk_tuple([I.val(F(n, *a)) for n in ('#p', '#d', '#ds')])

    def prep(I):
        I.overrides[R.func(q.qual).qual] = ks
        estimator(R, I)
    R.prepare = prep
    for E, cfg, r, lab in runs(R, out, 'estimate_mc_ks'):
        if 'Classic' in lab and '!verbose' in lab:
            ks_run(out, E, r, lab)


def entry(x, key):
    """item of a dictionary"""
    if x.op != 'dict' or not x.a or not isinstance(x.a[0], tuple):
        return None
    for it in x.a[0]:
        if it[0] in (key, t.const(key)) and it[2] is t.TRUE:
            return it[1]
    return None


def choice(x):
    """(condition, chosen) of None or a chosen value"""
    if x.op == 'phi':
        c, p, q = x.a
        if p is NONE:
            return t.not_(c) if hasattr(t, 'not_') else ('not', c), q
        if q is NONE:
            return c, p
    return None, x


def chosen(x):
    """(sequence, index) of a chosen element"""
    if x.op in ('take', 'at', 'get') and len(x.a) >= 2:
        return x.a[0], x.a[1]
    return None


def mapped(x, name):
    return sorted({y for y in parts(x) if y.op == 'map' and y.a[3].op ==
                   'call' and y.a[3].a[0] == name}, key=lambda y: y.id)


def ks_run(out, E, r, lab):
    x = r.result()
    if x is None or x.op != 'tuple' or len(x.a) != 2:
        return
    site = site_of(r.interp, E.qual)
    I = r.interp
    best, rep = x.a
    S = Space(I)
    ps = mapped(mk('tuple', best, rep), '#p')
    out.ob('tested magnitudes')
    if not ps:
        used = {y.a[0] for y in parts(best) if y.op == 'call' and
                y.a[0] in ('#d', '#b', '#std')}
        if used and not any(y.op == 'call' and y.a[0] == '#p'
                            for y in parts(best)):
            out.flag('first that passes', site, 'best_mc', 'the magnitude '
                     f'is not chosen by the p-value ({lab})', lab)
    if len(ps) != 1:
        return
    pm = ps[0]
    loop, seq = pm.a[0], pm.a[1]
    sample, mc, dm, b, n, kd = pm.a[3].a[1]
    mags, delta = mk('in', 'magnitudes'), mk('in', 'delta_m')

    def flag(rule, key, msg):
        out.flag(rule, site, key, f'{msg} ({lab})', lab)

    def same(p, q):
        return p is q or S(p).same(S(q))
    # what is tested
    if not is_elem(mc, loop, seq):
        if mc.op in ('lin', 'in', 'num', 'at'):
            flag('tested magnitudes', 'mc', 'the sample is tested with the '
                 f'magnitude {t.show(mc, 3)}')
        return
    out.ob('tested samples')
    if dm is not delta and dm.op in ('lin', 'num'):
        flag('tested samples', 'dm', f'delta_m is {t.show(dm, 2)}')
    if n is not mk('in', 'n') and n.op in ('num', 'lin'):
        flag('tested samples', 'n', f'n is {t.show(n, 2)}')
    if sample.op == 'sel' and sample.a[0] is mags and \
            sample.a[1].op == 'cmp':
        c = sample.a[1]
        d = S(c.a[1])
        w = S(mags) - S(mc) + S(delta) / 2
        if not d.same(w) and all(y.op in ('in', 'at') or y is mc for y in
                                 S.A.leaves(d.r)):
            flag('tested samples', 'sample', 'the sample tested is '
                 f'{t.show(c, 4)}')
    elif sample is mags:
        flag('tested samples', 'sample', 'the whole sample is tested')
    # the b-value of the test
    out.ob('b-value of the test')
    if '!b' not in lab and ',b,' in lab:
        if b is not mk('in', 'b_value') and b.op in ('call', 'num'):
            flag('b-value of the test', 'b', 'the b-value given is not used')
    elif b.op == 'call' and b.a[0] == '#b':
        if not same(b.a[1][1], mc):
            flag('b-value of the test', 'bmc', 'the b-value is estimated '
                 f'above {t.show(b.a[1][1], 3)}')
        if b.a[1][0] not in (mags, sample) and b.a[1][0].op in (
                'sel', 'slice'):
            flag('b-value of the test', 'bmag', 'the b-value is estimated '
                 f'from {t.show(b.a[1][0], 4)}')
    elif b.op in ('num', 'in') or b.op == 'call' and b.a[0] == '#std':
        flag('b-value of the test', 'b', f'the b-value is {t.show(b, 2)}')
    # the simulated distances of the same magnitude
    if ',ks,' in lab:
        out.ob('distances of the test')
        kk = kd
        if kk.op in ('at', 'get', 'take') and kk.a[1].op in ('num', 'lin'):
            flag('distances of the test', 'kd', 'the distances used are '
                 f'{t.show(kk, 3)}')
        elif kk is NONE:
            flag('distances of the test', 'kd', 'the distances are not used')
    # the report
    for k, name in (('p_values', '#p'), ('ks_ds', '#d'),
                    ('b_values_tested', None)):
        v = entry(rep, k)
        out.ob('report')
        if v is None or v.op != 'map':
            continue
        e = v.a[3]
        if name and e.op == 'call' and e.a[0].startswith('#') and \
                e.a[0] != name:
            flag('report', k, f'{k} is a list of {e.a[0][1:]}')
        if name is None and e is not b and (
                e.op == 'call' and e.a[0].startswith('#')):
            flag('report', k, f'{k} is a list of {t.show(e, 3)}')
    # the magnitude chosen
    for v, key in ((best, 'best_mc'), (entry(rep, 'best_b_value'),
                                       'best_b_value')):
        if v is None:
            continue
        c, e = choice(v)
        out.ob('first that passes')
        ch = chosen(e)
        if e is NONE:
            flag('first that passes', key, f'{key} is always None')
        if ch is None:
            continue
        s, i = ch
        want = S(pm) - S(mk('in', 'p_value_pass'))
        if i.op == 'num':
            if s.op not in ('map', 'seq') and s is not seq:
                continue
            flag('first that passes', key, f'{key} is element '
                 f'{t.show(i, 1)} of those tested')
            continue
        if i.op == 'call' and i.a[0] in ('numpy.argmax', 'numpy.argmin'):
            a = i.a[1][0]
            if a is pm:
                flag('first that passes', key, f'{key} is the one with the '
                     'largest p-value')
            elif i.a[0] == 'numpy.argmin':
                flag('first that passes', key, f'{key} is not the first '
                     'that passes')
            elif a.op == 'cmp':
                d = S(a.a[1])
                if d.same(want) and a.a[0] == '>=':
                    out.ob('proved: first that passes')
                elif d.same(want) or d.same(S(t.ZERO) - want):
                    flag('first that passes', key, f'{key} is the first '
                         f'with {t.show(a, 3)}')
                elif parts(a) & mapset(pm) - {pm} and not (
                        parts(a) & {pm}):
                    flag('first that passes', key, f'{key} is chosen by '
                         f'{t.show(a, 4)}')
        # the element
        if key == 'best_mc':
            if s.op == 'map':
                e2 = s.a[3]
                if e2.op == 'call' and e2.a[0].startswith('#'):
                    flag('first that passes', key + 'e', 'the magnitude '
                         f'returned is a {e2.a[0][1:]}')
            elif s is not seq and s.op == 'slice' and s.a[0] is seq:
                flag('first that passes', key + 'e', 'the magnitude '
                     f'returned is that of {t.show(s, 3)}')
        elif s.op == 'map':
            e2 = s.a[3]
            if e2 is not b and e2.op == 'call' and e2.a[0].startswith('#'):
                flag('first that passes', key + 'e', 'the b-value returned '
                     f'is {t.show(e2, 3)}')
        # and None only when none passes
        out.ob('None when none passes')
        if isinstance(c, tuple) or c is None:
            c = c[1] if isinstance(c, tuple) else None
        if c is None:
            continue
        cs = [y for y in parts(c) if y.op == 'cmp' and pm in parts(y)]
        alls = [y for y in parts(c) if y.op == 'call' and
                y.a[0] in ('numpy.all', 'builtins.all')]
        if len(cs) == 1:
            d = S(cs[0].a[1])
            if d.same(want) and cs[0].a[0] != '>=' or d.same(
                    S(t.ZERO) - want) and cs[0].a[0] not in ('>',):
                flag('None when none passes', key + 'n', f'{key} is None '
                     f'depending on {t.show(c, 4)}')
            elif d.same(want) and alls:
                flag('None when none passes', key + 'n', f'{key} is None '
                     'unless all pass')


def mapset(pm):
    return {pm}


def is_elem(x, loop, seq):
    """x is the element of the loop over seq"""
    if x.op == 'at':
        if x.a[1] is loop or x.a[1].op == 'pos':
            return True
    return x.op in ('it', 'item') and any(y is loop for y in parts(x))


# --------------------------------------------------------------- stability
def do_stab(R, out):
    def prep(I):
        estimator(R, I)
    R.prepare = prep
    for E, cfg, r, lab in runs(R, out, 'estimate_mc_b_stability'):
        if 'Classic' in lab and '!verbose' in lab:
            stab(out, E, r, lab)


def stab(out, E, r, lab):
    x = r.result()
    if x is None or x.op != 'tuple' or len(x.a) != 2:
        return
    site = site_of(r.interp, E.qual)
    S = Space(r.interp)
    rep = x.a[1]

    def flag(rule, key, msg):
        out.flag(rule, site, key, f'{msg} ({lab})', lab)
    diffs, bs = entry(rep, 'diff_bs'), entry(rep, 'b_values_tested')
    if diffs is None or diffs.op != 'map' or bs is None or bs.op != 'map':
        return
    loop, seq, e = diffs.a[0], diffs.a[1], diffs.a[3]
    mags, delta = mk('in', 'magnitudes'), mk('in', 'delta_m')
    rng = mk('in', 'stability_range')
    # the b-value at the tested magnitude
    b = bs.a[3]
    out.ob('tested b-value')
    if b.op != 'call' or b.a[0] != '#b':
        if b.op == 'call' and b.a[0].startswith('#'):
            flag('tested b-value', 'b', 'the b-values are ' + b.a[0][1:])
        return
    mc = b.a[1][1]
    if mc.op != 'at':
        if mc.op in ('lin', 'in', 'num'):
            flag('tested b-value', 'bmc', 'the b-value is estimated above '
                 f'{t.show(mc, 3)}')
        return
    if b.a[1][0].op == 'slice':
        flag('tested b-value', 'bmag', 'the b-value is estimated from '
             f'{t.show(b.a[1][0], 3)}')
    std = mk('call', '#std', b.a[1], ())
    # the difference
    got = S(e)
    A = S.A
    inner = sorted({y for y in parts(S.resolve(e)) if y.op == 'map' and
                    y.a[3].op == 'call' and y.a[3].a[0].startswith('#')
                    and y is not bs}, key=lambda y: y.id)
    out.ob('difference')
    if len(inner) != 1:
        return
    m = inner[0]
    im = m.a[3]
    if im.a[0] != '#b':
        flag('difference', 'inner', f'the average is that of {im.a[0][1:]}')
        return
    if not (im.a[1][1].op == 'at' and im.a[1][1].a[0] is m.a[1]):
        if im.a[1][1] is mc or im.a[1][1].op in ('in', 'num'):
            flag('difference', 'innermc', 'the averaged b-values are '
                 f'estimated above {t.show(im.a[1][1], 3)}')
        return
    steps = [F('numpy.arange', *a) for a in (
        (t.ZERO, rng, delta), (mc, t.add(mc, rng), delta))]
    ns = [mk('len', s) for s in steps] + [mk('len', m), mk('len', m.a[1])]
    ns += [y for y in parts(S.resolve(e)) if y.op == 'len']
    S.extra |= parts(e) | {y for y in parts(rep) if y.op in ('at', 'map')}
    S.plain |= BAD | {'numpy.std', 'numpy.var'}
    wants = []
    sums = [S(F(f, m)) for f in ('numpy.sum', 'builtins.sum')]
    for k in ns:
        if not okcount(k, steps, m):
            continue
        wants += [((s / S(k)) - S(b)) / S(std) for s in sums]
    wants.append((S(F('numpy.mean', m)) - S(b)) / S(std))
    got2 = got
    ab = [y for y in A.leaves(got.r) if y.op == 'call' and
          y.a[0] in ('numpy.abs', 'builtins.abs')]
    names = A.names(got.r)
    if 'numpy.abs' in names or 'builtins.abs' in names or ab:
        pos = []
        for w in wants:
            for n in ('numpy.abs', 'builtins.abs'):
                pos += absof(S, n, w, S(std))
        wants = pos
    elif not any(rooted(y) for y in parts(S.resolve(e))):
        if any(got.same(w) or got.same(S(t.ZERO) - w) for w in wants):
            flag('difference', 'abs', 'the difference has a sign')
            return
    judge(out, S, got2, wants, 'difference', site, 'diff', 'difference '
          'between the b-value and the average above', lab)
    room(out, S, seq, steps, site, lab)
    window(out, S, m.a[1], mc, rng, delta, site, lab)
    pick(out, S, x, diffs, e, bs, b, mc, site, lab)


def rooted(y):
    """a power or a maximum that may stand for an absolute value"""
    if y.op == 'mono':
        return any(k.denominator != 1 for z, k in y.a[0])
    return y.op == 'call' and y.a[0] in ('numpy.maximum', 'builtins.max',
                                         'numpy.sqrt', 'numpy.power')


def okcount(k, steps, m):
    s = k.a[0]
    return s in (m, m.a[1]) or s in steps or s.op == 'call' and \
        s.a[0] == 'numpy.arange'


def absof(S, n, w, std):
    """abs(w) written in both ways"""
    A = S.A
    out = []
    for inner, div in ((w, None), (w * std, std)):
        for sg in (1, -1):
            v = inner * S(t.num(sg))
            for arr in (False, True):
                a = Ex(A, A.of_atom(A.fun(n, [v.r], arr)))
                out.append(a if div is None else a / div)
    return out


def room(out, S, seq, steps, site, lab):
    """the tested magnitudes leave room for the window"""
    given = mk('in', 'mcs_test')
    if given in parts(seq):
        rng = {'stability_range'}
        out.ob('tested range')
        cs = [c for c in parts(seq) if c.op == 'cmp' and given in parts(c)
              and mk('in', 'magnitudes') in parts(c)]
        if cs and not any(rng & t.inputs(c) for c in cs):
            out.flag('tested range', site, 'given', 'magnitudes are tested '
                     f'for which the range does not fit into the data ({lab})',
                     lab)
        return
    if seq.op != 'slice' or seq.a[1] is not NONE or seq.a[3] is not NONE:
        return
    base, hi = seq.a[0], seq.a[2]
    if hi.op not in ('lin', 'num', 'len'):
        return
    out.ob('tested range')
    for s in steps:
        k = S(mk('len', s))
        S.extra |= parts(s)
        if S(hi).same(S(t.ONE) - k):
            out.flag('tested range', site, 'range', 'no magnitude is tested '
                     'when the window has a single bin: the end '
                     f'{t.show(hi, 4)} of the slice is then zero ({lab})',
                     lab)
            return
    wants = [S(mk('len', base)) - S(mk('len', s)) + 1 for s in steps]
    S.extra |= parts(base) | {mk('len', base)}
    judge(out, S, S(hi), wants, 'tested range', site, 'range',
          'number of magnitudes tested', lab)


def window(out, S, s, mc, rng, delta, site, lab):
    """magnitudes over which the b-values are averaged"""
    while s.op == 'sel':
        s = s.a[0]
    out.ob('window')
    if s.op != 'call' or s.a[0] != 'numpy.arange' or len(s.a[1]) != 3:
        return
    lo, hi, st = s.a[1]
    S.extra |= parts(mc)
    for g, w, n in ((lo, S(mc), 'start'), (hi, S(mc) + S(rng), 'end'),
                    (st, S(delta), 'step')):
        judge(out, S, S(g), [w], 'window', site, 'window' + n,
              f'{n} of the window', lab)


def pick(out, S, x, diffs, e, bs, b, mc, site, lab):
    """the first or best magnitude that passes"""
    def flag(rule, key, msg):
        out.flag(rule, site, key, f'{msg} ({lab})', lab)
    one = S(t.ONE) - S(e)
    std = one * S(mk('call', '#std', b.a[1], ()))
    for v, key in ((x.a[0], 'best_mc'),
                   (entry(x.a[1], 'best_b_value'), 'best_b_value')):
        if v is None:
            continue
        fs = sorted({y for y in parts(v) if y.op == 'fold' and
                     y.a[0] is diffs.a[0]}, key=lambda y: y.id)
        out.ob('chosen')
        if len(fs) != 1:
            continue
        body = fs[0].a[2]
        conds, val = [], None
        while body.op == 'phi':
            c, p, q = body.a
            if p.op == 'mu':
                conds.append(('not', c))
                body = q
            elif q.op == 'mu':
                conds.append(('', c))
                body = p
            else:
                body = None
                break
        if body is None:
            continue
        val = body
        out.ob('chosen value')
        if key == 'best_mc':
            if val.op in ('in', 'num') or val.op == 'at' and \
                    val.a[0] is not mc.a[0] or val.op == 'lin':
                flag('chosen', key, f'{key} is {t.show(val, 3)}')
        else:
            if val.op == 'call' and val.a[0].startswith('#') and \
                    val is not b or val.op == 'get' and \
                    val.a[1] is not t.num(-1) and val.a[1].op == 'num':
                flag('chosen', key, f'{key} is {t.show(val, 3)}')
            elif val.op in ('lin', 'mono'):
                judge(out, S, S(val), [S(b)], 'chosen', site, key,
                      'b-value returned', lab)
        # the conditions
        passing = mins = False
        for neg, c in conds:
            if c.op == 'cmp':
                d = S(c.a[1])
                op = c.a[0]
                if any(y.op == 'call' and y.a[0] in (
                        'numpy.min', 'builtins.min', 'numpy.nanmin')
                        and any(z.op == 'call' and z.a[0] == '#b'
                                for z in parts(y)) for y in parts(c)):
                    mins = True
                    continue
                if d.same(std) or d.same(S(t.ZERO) - std):
                    d = d / S(mk('call', '#std', b.a[1], ()))
                if d.same(one) and op == '>=' and not neg:
                    passing = True
                    out.ob('proved: passes')
                elif d.same(S(t.ZERO) - one) and op == '>' and neg:
                    passing = True
                elif d.same(one) or d.same(S(t.ZERO) - one):
                    flag('passes', key + 'c', f'{key} is chosen when '
                         f'{neg} {t.show(c, 3)}')
                    passing = True
                elif set(S.A.leaves(d.r)) <= S.extra and 'numpy.min' not \
                        in S.A.names(d.r):
                    flag('passes', key + 'c', f'{key} is chosen when '
                         f'{neg} {t.show(c, 3)}')
                    passing = True
            if c.op == 'eq' and any(y.op == 'call' and y.a[0] in (
                    'numpy.max', 'builtins.max') for y in c.a):
                flag('best', key + 'm', f'{key} is the one with the largest '
                     'difference')
                mins = True
            elif c.op == 'eq' or c.op == 'cmp' and any(
                    y.op in ('mu', 'fold') for y in parts(c)):
                mins = True
        # a single earlier difference instead of the smallest one
        for neg, c in conds:
            for y in parts(c):
                if y.op == 'get' and y.a[0].op == 'seq' and \
                        y.a[1].op == 'num' and y.a[1].a[0] <= -2 and \
                        '!stop' in lab:
                    flag('best', key + 'g', f'{key} is the one that is '
                         'better than one of those before it, not the '
                         'best of all')
                    mins = True
                    break
        if not passing and all(c.op in ('cmp', 'eq') for n, c in conds):
            flag('passes', key + 'c', f'{key} is chosen without the '
                 'difference having passed')
        if not mins and '!stop' in lab and conds and all(
                c.op == 'cmp' for n, c in conds):
            flag('best', key + 'm', f'{key} is the last one that passes, '
                 'not the one with the smallest difference')

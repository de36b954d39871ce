"""P33: test statistics follow their published definitions."""
from .. import terms as t
from ..terms import mk, NONE
from ..algebra import Ex
from .common import all_entries, site_of
from .formula import Space, judge, runs, parts, V

RULE = 'autocorrelation, its expectation, its standard deviation, the ' \
       'distances and the p-values must equal the published formulas'
ASSUMPTIONS = ['real arithmetic', 'numpy and scipy functions compute the '
               'quantity they are named after']
NAN = {'numpy.isnan', 'pandas.isna', 'pandas.isnull'}


def tasks(R, tier):
    for n in ('moran', 'signif', 'parts', 'ks', 'lilliefors'):
        yield ('direct', n)


def work(R, task, out):
    globals()['do_' + task[1]](R, out)


def isnan_of(x, v):
    return x.op == 'call' and x.a[0] in NAN and x.a[1] == (v,) or \
        x.op == 'not' and x.a[0].op == 'call' and \
        x.a[0].a[0] == 'numpy.isfinite' and x.a[0].a[1] == (v,)


def valid_of(x, v):
    return x.op == 'not' and isnan_of(x.a[0], v)


def deviation(x, v):
    """(base, problem) when x is an array with the NaN entries replaced"""
    if x.op == 'setitem' and len(x.a) >= 3:
        b, i, z = x.a[:3]
        if isnan_of(i, v):
            return b, None if z is t.ZERO else f'NaN counts as {t.show(z, 2)}'
        if valid_of(i, v):
            return b, 'the valid entries are replaced'
    if x.op == 'call' and x.a[0] == 'numpy.where' and len(x.a[1]) == 3:
        c, p, q = x.a[1]
        if isnan_of(c, v):
            c, p, q = t.not_(c) if hasattr(t, 'not_') else c, q, p
        if valid_of(c, v) or isnan_of(x.a[1][0], v):
            return p, None if q is t.ZERO else 'NaN counts'
    if x.op == 'call' and x.a[0] == 'numpy.nan_to_num' \
            and len(x.a[1]) == 1 and not x.a[2]:
        return x.a[1][0], None
    if x.op in ('lin', 'mono'):
        return x, None
    return None


def product(x):
    """factors of a matrix product"""
    if x.op == 'call' and x.a[0] in ('op.MatMult', 'numpy.dot', 'meth.dot',
                                     'numpy.matmul') and len(x.a[1]) == 2:
        return product(x.a[1][0]) + product(x.a[1][1])
    if x.op == 'attr' and x.a[1] == 'T':
        return product(x.a[0])
    return [x]


def masks(w, v):
    """(matrix, masked axes) of a matrix with entries set to zero"""
    axes = set()
    while w.op == 'setitem' and w.a[2] is t.ZERO:
        i = w.a[1]
        if isnan_of(i, v):
            axes.add('rows')
        elif i.op == 'tuple' and len(i.a) == 2:
            full = [z.op in ('slc', 'slice') and all(
                k is NONE for k in z.a) for z in i.a]
            if isnan_of(i.a[0], v) and full[1]:
                axes.add('rows')
            elif isnan_of(i.a[1], v) and full[0]:
                axes.add('columns')
            else:
                return None
        else:
            return None
        w = w.a[0]
    return w, axes


def do_moran(R, out):
    for E, cfg, r, lab in runs(R, out, 'est_morans_i'):
        x = r.result()
        if x is None or x.op != 'tuple' or len(x.a) != 3:
            continue
        S = Space(r.interp)
        A = S.A
        site = site_of(r.interp, E.qual)
        v = mk('in', 'values')
        # the number of values
        n = S(x.a[1])
        cnt = [y for y in parts(S.resolve(x.a[1])) if valid_of(y, v)]
        bad = [y for y in parts(S.resolve(x.a[1])) if isnan_of(y, v)]
        out.ob('number of values')
        if not cnt and not bad and S(mk('len', v)).same(n):
            out.flag('number of values', site, 'n', 'the number of values '
                     f'includes NaN ({lab})', lab)
        elif cnt:
            judge(out, S, n, [S(mk('call', 'numpy.sum', (c,), ()))
                              for c in cnt] + [S(mk(
                                  'call', 'numpy.count_nonzero', (c,), ()))
                                  for c in cnt],
                  'number of values', site, 'n', 'number of values', lab)
        # the neighbours
        npt = S.resolve(x.a[2])
        W = None
        if npt.op == 'call' and npt.a[0] == 'numpy.sum' and not npt.a[2]:
            W = npt.a[1][0]
            m = masks(W, v)
            if m:
                out.ob('neighbours')
                for ax in {'rows', 'columns'} - m[1]:
                    out.flag('neighbours', site, 'mask', 'neighbours that '
                             f'are NaN count ({ax}) ({lab})', lab)
                if 'no_w' not in lab:
                    matrix(out, m[0], site, lab)
                if 'no_w' in lab:
                    eye(out, m[0], v, site, lab)
        # the deviations
        got = S(x.a[0])
        q0 = q1 = None
        D = set()
        for y in sorted(A.leaves(got.r), key=lambda y: y.id):
            fs = product(y)
            if y.op == 'call' and y.a[0] == 'numpy.sum' and \
                    y.a[1][0].op == 'mono':
                z = y.a[1][0]
                if any(deviation(k, v) for k in parts(z) if k is not z):
                    continue
            if len(fs) == 2:
                q0, D = y, D | set(fs)
            elif len(fs) == 3:
                q1, D = y, D | {fs[0], fs[2]}
                out.ob('neighbours')
                if W is not None and fs[1] is not W and masks(fs[1], v) \
                        and masks(W, v):
                    out.flag('neighbours', site, 'pairs', 'the neighbours '
                             f'that are summed and counted differ ({lab})',
                             lab)
        mean = [V(S, 'mean_v')] if 'no_mean' not in lab else [
            S(mk('call', f, (a,), ())) for f, a in
            [('numpy.nanmean', v)] + [('numpy.mean', mk('sel', v, c))
                                      for c in cnt]]
        good = len(D) > 0
        for d in sorted(D, key=lambda y: y.id):
            b = deviation(d, v)
            out.ob('deviations')
            if b is None:
                good = False
                continue
            if b[1]:
                out.flag('deviations', site, 'nan', f'{b[1]} ({lab})', lab)
            S.extra |= parts(v) | set(cnt) | {mk('sel', v, c) for c in cnt}
            S.plain |= {'numpy.mean', 'numpy.median', 'numpy.nanmedian'}
            good &= judge(out, S, S(b[0]), [S(v) - m for m in mean],
                          'deviations', site, 'dev',
                          'deviations from the mean', lab)
        if q0 is None or q1 is None or not good:
            continue
        S.extra |= parts(x)
        judge(out, S, got, [(n - 1) / S(npt) * S(q1) / S(q0)],
              'autocorrelation', site, 'ac', 'autocorrelation', lab)


class Unclear(Exception):
    pass


def triangles(x, w):
    """which of (diagonal, lower, upper) entries of the matrix x are not
    zero, given those of the matrix passed"""
    if x.op == 'in' and x.a[0] == 'w':
        return w
    if x.op == 'written' and x.a[0] == 'numpy.fill_diagonal' and \
            len(x.a) >= 3 and x.a[2].op == 'num':
        d, lo, up = triangles(x.a[1], w)
        return x.a[2] is not t.ZERO, lo, up
    if x.op == 'setitem' and x.a[2] is t.ZERO:
        d, lo, up = triangles(x.a[0], w)
        if any(y.op == 'call' and 'diag_indices' in str(y.a[0])
               for y in parts(x.a[1])):
            return False, lo, up
        if 'values' in t.inputs(x.a[1]):
            return d, lo, up            # those of missing values
        raise Unclear
    if x.op == 'attr' and x.a[1] == 'T' or x.op == 'call' and \
            x.a[0] in ('numpy.transpose', 'meth.transpose') and \
            len(x.a[1]) == 1:
        d, lo, up = triangles(x.a[0] if x.op == 'attr' else x.a[1][0], w)
        return d, up, lo
    if x.op == 'phi':
        return triangles(x.a[1 if holds(x.a[0], w) else 2], w)
    if x.op == 'call' and x.a[0] in ('numpy.triu', 'numpy.tril'):
        k = dict(x.a[2]).get('k', x.a[1][1] if len(x.a[1]) > 1 else t.ZERO)
        if k.op != 'num':
            raise Unclear
        d, lo, up = triangles(x.a[1][0], w)
        if x.a[0].endswith('u'):
            if k.a[0] > 1 or k.a[0] < 0:
                raise Unclear
            return d and k.a[0] == 0, False, up
        if k.a[0] < -1 or k.a[0] > 0:
            raise Unclear
        return d and k.a[0] == 0, lo, False
    if x.op in ('array', 'copy', 'astype') and x.a[0].op != 'num':
        return triangles(x.a[0], w)
    if x.op == 'call' and x.a[0] in ('numpy.array', 'numpy.asarray',
                                     'meth.copy', 'copy.copy') and x.a[1]:
        return triangles(x.a[1][0], w)
    raise Unclear


def holds(c, w):
    if c is t.TRUE or c is t.FALSE:
        return c is t.TRUE
    if c.op == 'not':
        return not holds(c.a[0], w)
    if c.op == 'phi':
        return holds(c.a[1 if holds(c.a[0], w) else 2], w)
    if c.op in ('eq', 'cmp'):
        y = c.a[1] if c.op == 'cmp' or c.a[0] is t.ZERO else c.a[0]
        if c.op == 'eq' and t.ZERO not in c.a:
            raise Unclear
        return nonzero(y, w) if c.op == 'cmp' and c.a[0] == '>' else \
            not nonzero(y, w) if c.op == 'eq' else unclear()
    if c.op == 'truth':
        return nonzero(c.a[0], w)
    if c.op == 'call' and c.a[0] in ('numpy.all', 'numpy.array_equal',
                                     'numpy.allclose'):
        z = c.a[1][0]
        a = z.a if z.op == 'eq' else c.a[1][:2] if len(c.a[1]) > 1 else \
            unclear()
        return triangles(a[0], w)[1:] == triangles(a[1], w)[1:]
    if c.op == 'call' and c.a[0] in ('numpy.any', 'numpy.count_nonzero'):
        return nonzero(c, w)
    raise Unclear


def unclear():
    raise Unclear


def nonzero(y, w):
    if y.op == 'call' and y.a[0] in ('numpy.sum', 'builtins.sum',
                                     'numpy.any', 'meth.any', 'meth.sum',
                                     'numpy.count_nonzero') \
            and len(y.a[1]) == 1 and not y.a[2]:
        y = y.a[1][0]
        if y.op == 'eq' and t.ZERO in y.a:
            raise Unclear
        if y.op == 'call' and y.a[0] in ('numpy.diagonal', 'numpy.diag',
                                         'meth.diagonal'):
            return triangles(y.a[1][0], w)[0]
        return any(triangles(y, w))
    if y.op == 'call' and y.a[0] in ('numpy.trace', 'meth.trace'):
        return triangles(y.a[1][0], w)[0]
    raise Unclear


def matrix(out, W, site, lab):
    """every pair of neighbours is counted once, no value with itself"""
    for d in (False, True):
        for n, lo, up in (('symmetric', True, True), ('lower', True, False),
                          ('upper', False, True)):
            out.ob('pairs of neighbours')
            try:
                got = triangles(W, (d, lo, up))
            except Unclear:
                out.ob('undetermined: pairs of neighbours')
                continue
            bad = 'values are neighbours of themselves' if got[0] else \
                'every pair is counted twice' if all(got) or \
                got[1] and got[2] else 'no pairs are left' \
                if not any(got) else None
            if bad:
                out.flag('neighbours', site, f'pairs {bad}', f'{n} matrix, '
                         f'diagonal {"not " if d else ""}zero: {bad} '
                         f'({lab})', lab)


def eye(out, w, v, site, lab):
    if w.op == 'call' and w.a[0] == 'numpy.eye':
        k = dict(w.a[2]).get('k', w.a[1][2] if len(w.a[1]) > 2 else t.ZERO)
        if k.op == 'num' and abs(k.a[0]) != 1:
            out.flag('neighbours', site, 'eye', 'neighbours are values at a '
                     f'distance of {t.show(k, 1)} ({lab})', lab)
        if w.a[1] and w.a[1][0].op in ('num', 'lin'):
            out.flag('neighbours', site, 'eye', 'the matrix has '
                     f'{t.show(w.a[1][0], 3)} rows ({lab})', lab)


# ------------------------------------------------------------- significance
def marked(R, name, what):
    """stand in for a function of the project"""
    q = R.func(all_entries(R)[name].qual).qual

    def prep(I):
        def f(I_, fv, args, kwargs, node):
            return what(I_, fv, args, kwargs)
        I.overrides[q] = f
    R.prepare = prep


def do_signif(R, out):
    if 'est_morans_i' not in all_entries(R):
        return
    names = ('#ac', '#n', '#np')

    def moran(I, fv, args, kwargs):
        return I.mk_tuple([I.val(mk('in', n)) for n in names])
    marked(R, 'est_morans_i', moran)
    try:
        for E, cfg, r, lab in runs(R, out, 'b_significant_1D'):
            signif(out, E, r, lab)
    finally:
        R.prepare = None


def no_nan(x):
    def f(y):
        if y.op == 'phi':
            for i, j in ((1, 2), (2, 1)):
                z = y.a[i]
                if z.op == 'const' and 'nan' in str(z.a[0]):
                    return y.a[j]
        return None
    return t.rewrite(x, f, {})


def is_nan(x):
    return x.op == 'const' and 'nan' in str(x.a[0])


def averages(x, name):
    """averages of the quantity over the ways of cutting"""
    return [y for y in parts(x) if y.op == 'call' and y.a[1] and
            y.a[1][0].op in ('fold', 'sel', 'map') and any(
                z is mk('in', name) for z in parts(y.a[1][0]))]


def normal(S, y):
    """(standardised argument, upper tail) of a normal distribution"""
    if y.op != 'call':
        return None
    f = y.a[0].split('.')[-1]
    if f not in ('cdf', 'sf'):
        return None
    a, kw = list(y.a[1]), dict(y.a[2])
    if y.a[0].startswith('meth.'):
        d = a.pop(0)
        if d.op == 'ext':
            if not str(d.a[0]).endswith('stats.norm'):
                return None
        elif d.op == 'call' and d.a[0] == 'scipy.stats.norm':
            kw = {**dict(d.a[2]), **kw}
            for k, z in zip(('loc', 'scale'), d.a[1]):
                kw[k] = z
        else:
            return None
    elif y.a[0] not in ('scipy.stats.norm.cdf', 'scipy.stats.norm.sf'):
        return None
    for k, z in zip(('x', 'loc', 'scale'), a):
        kw[k] = z
    if 'x' not in kw:
        return None
    return (S(kw['x']) - S(kw.get('loc', t.ZERO))) / S(
        kw.get('scale', t.ONE)), f == 'sf'


def signif(out, E, r, lab):
    x = r.result()
    if x is None or x.op != 'tuple' or len(x.a) != 4:
        return
    S = Space(r.interp)
    S.plain |= {'numpy.mean', 'numpy.median', 'numpy.nanmedian', 'numpy.sum',
                'numpy.nansum', 'numpy.max', 'numpy.min', 'numpy.nanmax',
                'numpy.nanmin', 'numpy.std', 'numpy.nanstd', 'numpy.abs',
                'builtins.abs', 'builtins.max', 'numpy.maximum'}
    site = site_of(r.interp, E.qual)
    ws = [no_nan(S.resolve(y)) for y in x.a]
    mean = {}
    for n in ('#ac', '#n', '#np'):
        avg = sorted({y for w in ws for y in averages(w, n)},
                     key=lambda y: y.id)
        out.ob('averages')
        for y in avg:
            if y.a[0] != 'numpy.nanmean':
                if y.a[0] in S.plain:
                    out.flag('averages', site, n, f'{y.a[0]} instead of the '
                             f'mean over the cuts that have a value ({lab})',
                             lab)
                return
        if len(avg) != 1:
            return
        mean[n] = avg[0]
        for z in parts(avg[0]):
            if z.op == 'fold' and any(
                    k.op == 'setitem' and k.a[2] is mk('in', n)
                    for k in parts(z)):
                cuts(out, z, site, lab)
    S.extra |= {z for y in mean.values() for z in parts(y)}
    mac, n, np_ = (S(mean[k]) for k in ('#ac', '#n', '#np'))
    mu = S(t.num(-1)) / n
    std = (np_ - 2) / (np_ * np_.sqrt())
    if '!cons' in lab:
        std = std * S(t.num(81)) / S(t.num(100))
    ok = judge(out, S, S(ws[1]), [mac], 'autocorrelation', site, 'mac',
               'mean autocorrelation', lab)
    ok &= judge(out, S, S(ws[2]), [mu], 'expectation', site, 'mu',
                'expected autocorrelation', lab)
    ok &= judge(out, S, S(ws[3]), [std], 'standard deviation', site, 'std',
                'standard deviation of the autocorrelation', lab)
    p = S(ws[0])
    ls = sorted(S.A.leaves(p.r), key=lambda y: y.id)
    z = [(y, normal(S, y)) for y in ls]
    out.ob('p-value')
    if len(z) != 1 or z[0][1] is None:
        if ls and all(y in S.extra for y in ls):
            out.flag('p-value', site, 'p', 'the p-value does not use the '
                     f'normal distribution ({lab})', lab)
        return
    (y, (zs, upper)), = z
    F = S(y)
    zw = (mac - mu) / std
    for sign in (1, -1):
        if zs.same(zw * S(t.num(sign))):
            up = upper if sign == 1 else not upper
            S.extra.add(y)
            judge(out, S, p, [F if up else 1 - F], 'p-value', site, 'p',
                  'p-value', lab)
            return
    judge(out, S, zs, [zw], 'p-value', site, 'z', 'standardised '
          'autocorrelation', lab)


def cuts(out, z, site, lab):
    """all offsets contribute"""
    out.ob('cuts')
    init = z.a[1]
    nm = mk('in', 'n_m')
    if init.op == 'full' and init.a[0].op in ('num', 'lin'):
        out.flag('cuts', site, 'size', f'{t.show(init.a[0], 2)} values are '
                 f'averaged instead of n_m ({lab})', lab)
    for k in parts(z):
        if k.op == 'setitem' and k.a[1].op == 'it' and len(k.a[1].a) == 4 \
                and k.a[1].a[0] is z.a[0]:
            lo, hi, st = k.a[1].a[1:]
            if lo is not t.ZERO and lo.op == 'num' or \
                    hi is not nm and hi.op in ('num', 'lin') or \
                    st is not t.ONE and st.op in ('num', 'in'):
                out.flag('cuts', site, 'range', 'the cuts are '
                         f'{t.show(k.a[1], 3)} ({lab})', lab)


# ------------------------------------------------------ Kolmogorov-Smirnov
def do_parts(R, out):
    """what is estimated for every way of cutting"""
    es = all_entries(R)
    if 'values_from_partitioning' not in es or 'est_morans_i' not in es:
        return
    qv = R.func(es['values_from_partitioning'].qual).qual
    qm = R.func(es['est_morans_i'].qual).qual
    seen, corr = [], []
    names = ('#values', '#stds', '#numbers')

    def prep(I):
        def values(I_, fv, args, kwargs, node):
            a = fv.node.args
            ps = [p.arg for p in a.posonlyargs + a.args]
            seen.append({k: I_.reify(o) for k, o in
                         list(zip(ps, args)) + list(kwargs.items())})
            return I_.mk_tuple([I_.val(mk('in', n)) for n in names])

        def moran(I_, fv, args, kwargs, node):
            d = {'values': args[0]} if args else {}
            d.update(kwargs)
            corr.append(I_.reify(d['values']))
            return I_.mk_tuple([I_.val(mk('in', n)) for n in (
                '#ac', '#n', '#np')])
        I.overrides[qv] = values
        I.overrides[qm] = moran
        seen.clear()
        corr.clear()
    R.prepare = prep
    try:
        for E, cfg, r, lab in runs(R, out, 'b_significant_1D'):
            site = site_of(r.interp, E.qual)
            for d in seen:
                for k, root in (('list_magnitudes', 'magnitudes'),
                                ('list_times', 'times'), ('list_mc', 'mc')):
                    if k in d:
                        pieces(out, Space(r.interp), d[k], k, root, site, lab)
            for x in corr:
                few(out, x, site, lab)
    finally:
        R.prepare = None


def splits(x):
    return sorted({y for y in parts(x) if y.op == 'call' and
                   y.a[0] == 'numpy.array_split'}, key=lambda y: y.id)


def pieces(out, S, x, name, root, site, lab):
    """complete windows of n_m events, cut at the offset"""
    nm = mk('in', 'n_m')

    def flag(rule, key, msg):
        out.flag(rule, site, key + ' ' + name, f'{name}: {msg} ({lab})', lab)
    sp = splits(x)
    if not sp:
        return
    out.ob('windows')
    for y in sp:
        ix = y.a[1][1] if len(y.a[1]) > 1 else None
        for a in parts(ix) if ix is not None else ():
            if a.op == 'call' and a.a[0] == 'numpy.arange' and \
                    len(a.a[1]) == 3:
                lo, hi, st = a.a[1]
                if st is not nm and st.op in ('in', 'num', 'lin'):
                    flag('windows', 'step', f'windows of {t.show(st, 2)} '
                         'events')
                if lo.op in ('num', 'in'):
                    flag('windows', 'offset', 'the first window starts at '
                         f'{t.show(lo, 2)} whatever the offset')
                elif lo.op == 'lin' and any(z.op == 'it' for z in parts(lo)):
                    flag('windows', 'offset', 'the first window starts at '
                         f'{t.show(lo, 2)}')
    if name == 'list_mc':
        for y in parts(x):
            if y.op == 'call' and len(y.a[1]) == 1 and y.a[1][0].op == 'at' \
                    and y.a[1][0].a[0] in sp:
                out.ob('completeness of a window')
                if y.a[0] in ('numpy.min', 'builtins.min', 'numpy.mean',
                              'numpy.median', 'numpy.nanmin', 'numpy.sum'):
                    flag('completeness of a window', 'mc', 'the completeness '
                         f'magnitude of a window is {y.a[0]} of those of '
                         'its events, not the largest')
            elif y.op == 'get' and y.a[0].op == 'at' and y.a[0].a[0] in sp:
                out.ob('completeness of a window')
                flag('completeness of a window', 'mc', 'the completeness '
                     'magnitude of a window is that of a single event')
    # short windows at both ends
    ends, stack, seen, plain = set(), [x], set(), True
    while stack:
        y = stack.pop()
        if y in seen:
            continue
        seen.add(y)
        if y.op == 'phi':
            stack += [y.a[1], y.a[2]]
            short(out, S, y, nm, flag)
        elif y.op == 'popped' and len(y.a) == 2 and \
                getattr(y.a[1], 'op', '') == 'num':
            ends.add(int(y.a[1].a[0]))
            stack.append(y.a[0])
        elif y.op == 'seq':
            plain = segments(y.a[0], sp, stack) and plain
        elif y not in sp and not (y.op == 'map' and y.a[1] in sp
                                  and y.a[2] is t.TRUE):
            plain = False
    out.ob('short windows')
    if plain:
        for k, w in ((0, 'first'), (-1, 'last')):
            if k not in ends:
                flag('short windows', w, f'the {w} window is kept even if '
                     'it has fewer than n_m events')
        if ends - {0, -1}:
            flag('short windows', 'other', 'window '
                 f'{sorted(ends - {0, -1})} is left out')


def segments(segs, sp, stack):
    """parts of a list that is put together from other lists"""
    plain = True
    for g in segs:
        if g[0] == 'c':
            plain = segments(g[2], sp, stack) and plain
        elif g[0] == 'u':
            stack.append(g[1])
        elif g[0] != 'm' or g[2] not in sp or len(g[3]) != 1 or \
                g[3][0][0] != 'e':
            plain = False
    return plain


def short(out, S, y, nm, flag):
    """a window is left out if it has fewer than n_m events"""
    c, p, q = y.a
    pop = p if p.op == 'popped' else q
    neg = pop is q
    if pop.op != 'popped' or len(pop.a) != 2:
        return
    k = pop.a[1]
    if c.op == 'not':
        c, neg = c.a[0], not neg
    if c.op != 'cmp':
        return
    lens = [z for z in parts(c.a[1]) if z.op == 'len' and
            z.a[0].op == 'get' and z.a[0].a[1] is k]
    if len(lens) != 1:
        return
    op, d = c.a
    d = S(d)
    n, ln = S(nm), S(lens[0])
    out.ob('short windows')
    good = [(n - ln, '>'), (n - ln - 1, '>=')]
    if neg:
        good = [(ln - n, '>='), (ln - n + 1, '>')]
    if any(op == o and d.same(w) for w, o in good):
        out.ob('proved: short windows')
        return
    if all(z.op == 'in' or z is lens[0] or z in parts(lens[0])
           for z in S.A.leaves(d.r)):
        flag('short windows', f'cond{t.show(k, 1)}', 'a window is left out '
             f'if {"not " * neg}{t.show(c, 4)}')


def few(out, x, site, lab):
    """windows with fewer than min_num events have no value"""
    out.ob('few events')
    mn, num = mk('in', 'min_num'), mk('in', '#numbers')
    if x is mk('in', '#values'):
        out.flag('few events', site, 'few', 'the values of windows with '
                 f'fewer than min_num events are used ({lab})', lab)
        return
    if x.op == 'setitem' and x.a[0] is mk('in', '#values') and \
            x.a[1].op == 'cmp' and {mn, num} >= {
                y for y in parts(x.a[1]) if y.op == 'in'}:
        if x.a[1] is not t.cmp('<', num, mn):
            out.flag('few events', site, 'few', 'values are left out where '
                     f'{t.show(x.a[1], 4)} ({lab})', lab)
        else:
            out.ob('proved: few events')
        if not is_nan(x.a[2]):
            if x.a[2].op in ('num', 'in'):
                out.flag('few events', site, 'fewnan', 'windows with few '
                         f'events get {t.show(x.a[2], 2)} ({lab})', lab)


def do_ks(R, out):
    if 'simulate_magnitudes_binned' not in all_entries(R):
        return
    seen = []

    def sim(I, fv, args, kwargs):
        ps = [p.arg for p in fv.node.args.posonlyargs + fv.node.args.args]
        d = {k: I.reify(o) for k, o in list(zip(ps, args)) +
             list(kwargs.items())}
        seen.append(d)
        return I.val(mk('in', '#simulated'))
    marked(R, 'simulate_magnitudes_binned', sim)
    try:
        for E, cfg, r, lab in runs(R, out, 'ks_test_gr'):
            ks(out, E, r, lab, list(seen))
            seen.clear()
    finally:
        R.prepare = None


def distance(out, S, x, sample, lab, site):
    """x is the distance between the sample and the distribution"""
    x = S.resolve(x)
    ms = [x] if x.op == 'call' and x.a[0] in (
        'numpy.max', 'builtins.max') else []
    out.ob('distance')
    if not ms:
        if x.op == 'call' and x.a[0] in ('numpy.mean', 'numpy.sum',
                                         'numpy.min', 'numpy.median'):
            out.flag('distance', site, 'max' + sample, f'the distance is '
                     f'the {x.a[0][6:]} ({lab})', lab)
        return
    y = ms[0].a[1][0]
    if y.op == 'call' and y.a[0] in ('numpy.abs', 'builtins.abs'):
        y = y.a[1][0]
    elif y.op == 'lin' and any(z.op == 'call' and z.a[0] == 'numpy.cumsum'
                               for z in parts(y)):
        out.flag('distance', site, 'abs' + sample, 'the distance is not '
                 f'absolute ({lab})', lab)
        return
    got = S(y)
    hs = sorted({z for z in parts(y) if z.op == 'call'
                 and z.a[0] == 'numpy.histogram'}, key=lambda z: z.id)
    if len(hs) != 1 or 'bins' not in dict(hs[0].a[2]):
        return
    h, kw = hs[0], dict(hs[0].a[2])
    out.ob('weights')
    if '[' in lab and 'no_weights' not in lab and 'weights' not in kw:
        out.flag('weights', site, 'w' + sample, f'weights unused ({lab})',
                 lab)
    if h.a[1] and h.a[1][0] is not mk('in', sample):
        if h.a[1][0].op in ('in', 'lin', 'sel', 'slice'):
            out.flag('distance', site, 's' + sample,
                     f'{t.show(h.a[1][0], 2)} instead of {sample} ({lab})',
                     lab)
        return
    c = mk('item', h, t.ZERO)
    S.extra |= parts(c)
    cum = mk('call', 'numpy.cumsum', (c,), ())
    S.plain |= {'numpy.mean', 'numpy.max', 'len', 'numpy.diff'}
    beta = S(mk('in', 'b_value')) * S.L10
    cand = [z for z in S.A.leaves(got.r) if z.op not in ('num', 'in') and
            z is not cum and not (z.op == 'call' and z.a[0] in (
                'numpy.sum', 'numpy.cumsum')) and z is not c]
    wants = []
    for X in cand:
        w = S(cum) / S(mk('call', 'numpy.sum', (c,), ())) - 1 + (-(beta * (
            S(X) + V(S, 'delta_m') - V(S, 'mc')))).exp()
        wants += [w, S(t.ZERO) - w]
        S.extra |= parts(X)
    if len(cand) == 1:
        if judge(out, S, got, wants, 'distance', site, 'd' + sample,
                 'difference of the distributions', lab):
            edges(out, S, cand[0], kw['bins'], site, lab)


def edges(out, S, X, bins, site, lab):
    """the bins end half a bin above the magnitudes"""
    while True:
        if X.op == 'call' and X.a[0] in ('numpy.unique', 'numpy.sort'):
            X = X.a[1][0]
        elif X.op == 'uniq':
            X = X.a[0]
        elif X.op == 'take' and X.a[1].op == 'argsort' and \
                X.a[1].a[0] is X.a[0]:
            X = X.a[0]
        else:
            break
    if X.op != 'slice':
        return
    out.ob('bins')
    base, lo, hi, st = X.a
    if lo is not NONE and lo.op == 'num' or hi.op == 'num' and \
            hi.a[0] != -1:
        out.flag('bins', site, 'cut', 'the distribution is taken at '
                 f'{t.show(X, 2)} ({lab})', lab)
        return
    S.extra |= parts(S.resolve(base)) | parts(S.resolve(bins))
    judge(out, S, S(bins), [S(base) - V(S, 'delta_m') / 2], 'bins', site,
          'edges', 'edges of the bins', lab)


def ks(out, E, r, lab, seen):
    x = r.result()
    if x is None or x.op != 'tuple' or len(x.a) != 3:
        return
    S = Space(r.interp)
    site = site_of(r.interp, E.qual)
    p, d, ds = (S.resolve(y) for y in x.a)
    distance(out, S, d, 'magnitudes', lab, site)
    ref = mk('in', 'ks_ds')
    if 'no_ks_ds' in lab:
        ref = ds
        for z in sorted(parts(ds), key=lambda y: y.id):
            if z.op == 'setitem' and z.a[2].op == 'call' and any(
                    k is mk('in', '#simulated') for k in parts(z.a[2])):
                S2 = Space(r.interp)
                distance(out, S2, z.a[2], '#simulated', lab, site)
        for s in seen:
            simulated(out, S, s, site, lab)
        nn = mk('in', 'n')
        out.ob('simulations')
        if ds.op == 'fold' and ds.a[1].op == 'full' and \
                ds.a[1].a[0] is not nn and ds.a[1].a[0].op in ('num', 'lin',
                                                               'len'):
            out.flag('simulations', site, 'n', f'{t.show(ds.a[1].a[0], 2)} '
                     f'samples are simulated ({lab})', lab)
    # the share of distances that are at least as large
    got = S(p)
    cs = sorted({z for z in parts(p) if z.op == 'cmp' and any(
        k is ref for k in parts(z))}, key=lambda z: z.id)
    out.ob('p-value')
    if len(cs) != 1:
        return
    c = cs[0]
    S.plain |= {'numpy.mean', 'numpy.sum', 'len', 'numpy.count_nonzero'}
    S.extra |= parts(p) | parts(d)
    wants = [S(mk('call', f, (c,), ())) / S(mk('len', ref))
             for f in ('numpy.sum', 'builtins.sum', 'numpy.count_nonzero')]
    wants.append(S(mk('call', 'numpy.mean', (c,), ())))
    rest = [1 - w for w in wants]
    if not judge(out, S, got, wants + rest, 'p-value', site, 'p', 'p-value',
                 lab):
        return
    diff = S(c.a[1])
    if any(got.same(w) for w in rest):
        out.ob('p-value')
        if diff.same(S(d) - S(ref)):
            if c.a[0] != '>':
                out.flag('p-value', site, 'ties', 'the p-value does not '
                         f'count equal distances ({lab})', lab)
        elif diff.same(S(ref) - S(d)):
            out.flag('p-value', site, 'side', 'the p-value counts the '
                     f'smaller distances ({lab})', lab)
        return
    want = S(ref) - S(d)
    op = c.a[0]
    out.ob('p-value')
    if diff.same(want):
        if op != '>=':
            out.flag('p-value', site, 'ties', f'the p-value counts the '
                     f'distances {op} the observed one ({lab})', lab)
    elif diff.same(S(t.ZERO) - want):
        out.flag('p-value', site, 'side', 'the p-value counts the smaller '
                 f'distances ({lab})', lab)


def simulated(out, S, s, site, lab):
    out.ob('simulations')
    want = {'n': mk('len', mk('in', 'magnitudes')),
            'b': mk('in', 'b_value'), 'b_value': mk('in', 'b_value'),
            'mc': mk('in', 'mc'), 'delta_m': mk('in', 'delta_m')}
    beta = s.get('b_parameter')
    if beta is not None and beta.op == 'const' and beta.a[0] == 'beta':
        for k in ('b', 'b_value'):
            if k in s and s[k].op in ('in',):
                out.flag('simulations', site, 'sim' + k, 'the b-value is '
                         f'used as beta ({lab})', lab)
            want.pop(k)
    for k, w in want.items():
        g = s.get(k)
        if g is None:
            continue
        g = S.resolve(g)
        if g is not w and not S(g).same(S(w)) and g.op in (
                'num', 'in', 'lin', 'len'):
            out.flag('simulations', site, 'sim' + k, f'{k} of the simulated '
                     f'samples is {t.show(g, 2)} ({lab})', lab)


def do_lilliefors(R, out):
    for E, cfg, r, lab in runs(R, out, 'ks_test_gr_lilliefors'):
        x = r.result()
        site = site_of(r.interp, E.qual)
        S = Space(r.interp)
        ls = [y for y in parts(x) if y.op == 'call'
              and y.a[0].split('.')[-1] == 'lilliefors']
        out.ob('p-value')
        if len(ls) != 1:
            continue
        y = ls[0]
        kw = dict(y.a[2])
        judge(out, S, S(y.a[1][0]), [V(S, 'magnitudes') - V(S, 'mc')],
              'shifted magnitudes', site, 'shift', 'shifted magnitudes', lab)
        dist = kw.get('dist', y.a[1][1] if len(y.a[1]) > 1 else None)
        if dist is None or dist.op == 'const' and dist.a[0] != 'exp':
            out.flag('p-value', site, 'dist', 'the distribution is not '
                     f'exponential ({lab})', lab)
        if x.op in ('item', 'at', 'get') and x.a[0] is y and x.a[1].op == 'num' \
                and x.a[1].a[0] != 1:
            out.flag('p-value', site, 'p', f'item {t.show(x.a[1], 1)} of the '
                     f'test is not the p-value ({lab})', lab)

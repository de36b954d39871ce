"""P32: random draws follow the documented law."""
from .. import terms as t
from ..terms import mk, NONE
from ..algebra import Ex
from .common import site_of, all_entries
from .formula import Space, judge, runs, parts, V
from .p_binning import roundings

RULE = 'drawn values must equal the inverse of the distribution function at '\
       'a standard uniform or exponential variable'
ASSUMPTIONS = ['real arithmetic', 'numpy draws from the distributions named',
               'u and 1 - u have the same distribution']


def tasks(R, tier):
    for n in ('magnitudes', 'binned', 'dither', 'cdf', 'bootstrap'):
        yield ('direct', n)


def work(R, task, out):
    globals()['do_' + task[1]](R, out)


OTHER = {'normal', 'standard_normal', 'poisson', 'laplace', 'lognormal',
         'logistic', 'rayleigh', 'triangular', 'gumbel'}


def other(out, L, site, key, lab):
    if L.other:
        out.ob('law')
        out.flag('law', site, key + 'law', f'{L.other} random values are '
                 f'drawn ({lab})', lab)


class Law:
    """random leaves as functions of standard variables"""

    def __init__(self, S, x):
        self.S, self.leaves, self.bad = S, [], False
        self.other = None
        A = S.A
        self.U = Ex(A, A.of_atom(A.atom('std', 'U', True)))
        self.E = Ex(A, A.of_atom(A.atom('std', 'E', True)))
        for y in sorted(parts(x), key=lambda y: y.id):
            if y.op == 'rng':
                self.leaf(y)

    def leaf(self, y):
        S = self.S
        n = y.a[0].split('.')[-1]
        a, kw = list(y.a[1]), dict(y.a[2])
        if 'default_rng' in y.a[0] or n in ('RandomState', 'Generator'):
            return
        if 'Generator' in y.a[0] or y.a[0].count('.') < 2:
            # generator object first
            a = a[1:] if a and a[0].op in ('rng', 'call') else a
        size = kw.pop('size', None)

        def arg(i, k, d):
            v = kw.pop(k, None)
            return S(v) if v is not None else S(a[i]) if i < len(a) \
                else S(t.num(d))
        if n == 'exponential':
            v = arg(0, 'scale', 1) * self.E
        elif n in ('standard_exponential',):
            v = self.E
            size = size if size is not None else a[0] if a else None
        elif n == 'uniform':
            lo, hi = arg(0, 'low', 0), arg(1, 'high', 1)
            v = lo + (hi - lo) * self.U
        elif n in ('random', 'random_sample', 'rand', 'ranf', 'sample'):
            v = self.U
            size = size if size is not None else a[0] if a else None
        else:
            self.bad = True
            if n in OTHER:
                self.other = n
            return
        if kw:
            self.bad = True
            return
        self.leaves.append((y, n, size))
        S.A.alias[y] = v.r
        S.A.memo.clear()

    def variants(self, f):
        """the law f(exponential variable), f(uniform variable)"""
        A = self.S.A
        return [f(u) for u in (self.U, Ex(A, A.const(1)) - self.U)]


def expo(L, beta, lo):
    return [lo + L.E / beta] + L.variants(lambda u: lo - u.log() / beta)


def trunc(L, beta, lo, hi):
    """inverse of (e^-bl - e^-bx) / (e^-bl - e^-bh)"""
    S = L.S

    def f(u):
        a, b = (-(beta * lo)).exp(), (-(beta * hi)).exp()
        return S(t.ZERO) - (a + u * (b - a)).log() / beta
    return L.variants(f)


def size(out, L, n, site, key, lab):
    out.ob('number of draws')
    for y, name, s in L.leaves:
        if s is not None and s is not n and s.op in ('num', 'in', 'len',
                                                     'lin'):
            out.flag('number of draws', site, key + 'size',
                     f'{t.show(s, 3)} values are drawn instead of '
                     f'{t.show(n, 2)} ({lab})', lab)


def do_magnitudes(R, out):
    for E, cfg, r, lab in runs(R, out, 'simulate_magnitudes'):
        S = Space(r.interp)
        x = S.resolve(r.result())
        L = Law(S, x)
        site = site_of(r.interp, E.qual)
        other(out, L, site, E.qual, lab)
        if L.bad or not L.leaves:
            continue
        beta, mc = V(S, 'beta'), V(S, 'mc')
        if cfg.get('mag_max') is None:
            wants = expo(L, beta, mc)
        else:
            wants = trunc(L, beta, mc, top(S, cfg))
        judge(out, S, S(x), wants, 'law', site, 'simulate',
              'simulated magnitudes', lab)
        size(out, L, mk('in', 'n'), site, 'simulate', lab)


def top(S, cfg):
    v = cfg.get('mag_max')
    return S(t.num(v)) if isinstance(v, (int, float)) else V(S, 'mag_max')


def do_binned(R, out):
    es = all_entries(R)
    R.prepare = None
    if 'bin_to_precision' in es:
        q = R.func(es['bin_to_precision'].qual).qual

        def binned(I, fv, args, kwargs, node):
            ps = [a.arg for a in fv.node.args.args]
            d = {k: I.reify(o) for k, o in
                 list(zip(ps, args)) + list(kwargs.items())}
            return I.val(mk('call', '#binned', tuple(
                d.get(k, t.num('1/10')) for k in ps[:2]), ()), 'arr')
        R.prepare = lambda I: I.overrides.__setitem__(q, binned)
    try:
        binned_law(R, out)
    finally:
        R.prepare = None


def binned_law(R, out):
    for E, cfg, r, lab in runs(R, out, 'simulate_magnitudes_binned'):
        S = Space(r.interp)
        x = S.resolve(r.result())
        site = site_of(r.interp, E.qual)
        cont = cfg.get('delta_m') == 0
        stub = x.op == 'call' and x.a[0] == '#binned'
        if stub:
            out.ob('bin width')
            w = x.a[1][1]
            if w is not mk('in', 'delta_m') and (
                    w.op in ('num', 'in', 'lin', 'mono')):
                out.flag('bin width', site, 'width', 'simulated magnitudes '
                         f'are binned with {t.show(w, 3)} ({lab})', lab)
            x = S.resolve(x.a[1][0])
        L = Law(S, x)
        other(out, L, site, E.qual, lab)
        if L.bad or not L.leaves:
            continue
        b, mc = V(S, 'b'), V(S, 'mc')
        d = S(t.ZERO) if cont else V(S, 'delta_m')
        beta = b if cfg.get('b_parameter') == 'beta' else b * S.L10
        got = S(x)
        lo = mc - d / 2
        wants = expo(L, beta, lo) if cfg.get('mag_max') is None else \
            trunc(L, beta, lo, top(S, cfg))
        if not cont and not stub:
            wants = [y for w in wants for y in roundings(S, w, d)]
            S.plain |= {'numpy.abs'}
            S.extra |= {y for y in S.A.leaves(got.r) if y.op == 'attr'
                        and y.a[1] == 'exponent'}
        judge(out, S, got, wants, 'law', site, 'binned',
              'simulated binned magnitudes', lab)
        size(out, L, mk('in', 'n'), site, 'binned', lab)


def do_dither(R, out):
    for E, cfg, r, lab in runs(R, out, 'dither_magnitudes'):
        x = r.result()
        maps = [y for y in parts(x) if y.op == 'map'
                and any(z.op == 'rng' for z in parts(y.a[3]))]
        if len(maps) != 1:
            continue
        S = Space(r.interp)
        e = S.resolve(maps[0].a[3])
        L = Law(S, e)
        if L.bad or len(L.leaves) != 1:
            continue
        site = site_of(r.interp, E.qual)
        d, b = V(S, 'delta_m'), V(S, 'b_value')
        got = S(e)
        n = L.leaves[0][2]
        centres = S.cands(got, lambda y: y.op == 'at')
        wants = [w for c in centres for w in trunc(
            L, b * S.L10, S(c) - d / 2, S(c) + d / 2)]
        judge(out, S, got, wants, 'law', site, 'dither',
              'dithered magnitudes', lab)
        if n is None or n.op != 'at' or len(centres) != 1:
            continue
        hs = [y for y in parts(n) if y.op == 'call'
              and y.a[0] == 'numpy.histogram']
        out.ob('number of draws')
        if len(hs) != 1 or 'bins' not in dict(hs[0].a[2]):
            continue
        if n.a[0] is not mk('item', hs[0], t.ZERO):
            out.flag('number of draws', site, 'ditherN',
                     f'{t.show(n.a[0], 3)} values are drawn for a bin', lab)
            continue
        edges = dict(hs[0].a[2])['bins']
        m = mk('in', 'magnitudes')
        low = [S(mk('call', f + 'min', (m,), ())) for f in (
            'numpy.', 'builtins.')]
        S.resolve(centres[0].a[0])
        left = S(mk('slice', edges, NONE, t.num(-1), NONE))
        wants = []
        for f in ('numpy.', 'builtins.'):
            mb = mk('call', f + 'min', (S.resolve(hs[0].a[1][0]),), ())
            wants += [left + d / 2 + q - S(mb) for q in low]
        S.extra |= parts(S.resolve(centres[0].a[0]))
        judge(out, S, S(centres[0].a[0]), wants, 'bins', site, 'ditherbins',
              'bins of the dithered magnitudes', lab)


def do_cdf(R, out):
    for E, cfg, r, lab in runs(R, out, 'cdf_discrete_exp'):
        x = r.result()
        if x is None or x.op != 'tuple' or len(x.a) != 2:
            continue
        S = Space(r.interp)
        S.extra = parts(x)
        y = S(x.a[0])
        want = 1 - (-(V(S, 'beta') * (y + V(S, 'delta_m') - V(S, 'mc')))
                    ).exp()
        judge(out, S, S(x.a[1]), [want], 'law', site_of(r.interp, E.qual),
              'cdf', 'distribution function', lab)


def do_bootstrap(R, out):
    for E, cfg, r, lab in runs(R, out, 'bootstrap_std'):
        x = r.result()
        site = site_of(r.interp, E.qual)
        sample = mk('in', 'sample')
        for y in sorted(parts(x), key=lambda y: y.id):
            if y.op != 'rng' or y.a[0].split('.')[-1] != 'choice':
                continue
            out.ob('resampling')
            kw = dict(y.a[2])
            a = [z for z in y.a[1] if z.op != 'rng']
            n = kw.get('size', a[1] if len(a) > 1 else None)
            bad = None
            if kw.get('replace', t.TRUE) is t.FALSE:
                bad = 'without replacement'
            elif n is not None and n.op in ('num', 'lin', 'len', 'in') \
                    and n is not mk('len', sample):
                bad = f'with {t.show(n, 3)} values'
            elif a and a[0].op in ('uniq', 'sel', 'slice'):
                bad = f'from {t.show(a[0], 3)}'
            elif 'p' in kw and kw['p'] is not NONE:
                bad = 'with unequal probabilities'
            if bad:
                out.flag('resampling', site, 'bootstrap',
                         f'resamples are drawn {bad} ({lab})', lab)
        maps = [y for y in parts(x) if y.op == 'map'
                and any(z.op == 'rng' for z in parts(y.a[3]))]
        if len(maps) != 1:
            continue
        S = Space(r.interp)
        S.extra = parts(x)
        v = maps[0]
        ok = [y for y in parts(x) if y.op == 'sel' and y.a[0] is v]
        wants = [S(mk('call', 'numpy.std', (y,), (('ddof', t.ONE),)))
                 for y in ok or [v]]
        judge(out, S, S(x), wants, 'spread', site, 'bootstrapstd',
              'standard deviation of the estimates', lab)
        out.ob('number of draws')
        n = v.a[1]
        if n.op == 'range' and n.a[:3] != (t.ZERO, mk('in', 'n'), t.ONE):
            out.flag('number of draws', site, 'bootstrapn',
                     f'the number of resamples is that of {t.show(n, 3)} '
                     f'({lab})', lab)

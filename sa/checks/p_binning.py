"""P31: binning and frequency-magnitude distributions."""
from fractions import Fraction
from .. import terms as t
from ..terms import mk, NONE, ZERO
from ..algebra import Ex
from .common import site_of
from .formula import Space, judge, runs, parts, V

RULE = 'binned values must have the normal form floor(x/d + 1/2 + tiny) d, '\
       'up to a rounding to the decimals of d; edges, bins and counts of the '\
       'distributions must be the ones of the binned values'
ASSUMPTIONS = ['real arithmetic; numpy.histogram counts values per '
               'half-open interval']
TINY = Fraction(1, 10**6)
HALF = Fraction(1, 2)


def tasks(R, tier):
    for n in ('normal_round', 'bin', 'fmd', 'column'):
        yield ('direct', n)


def work(R, task, out):
    globals()['do_' + task[1]](R, out)


def const(S, x):
    """value of a constant formula"""
    num, den = x.r
    if den == {(): 1} and not set(num) - {()}:
        return num.get((), Fraction(0))
    return None


def floors(S):
    """(argument, atom) of all floor functions"""
    for (n, k), L in list(S.A.funs.items()):
        if n in ('numpy.floor', 'math.floor') and k == 1:
            for (a,), i in L:
                yield Ex(S.A, a), Ex(S.A, S.A.of_atom(i))


def roundings(S, x, d):
    """forms of the nearest multiple of d, x.5 going up"""
    out = []
    for a, f in floors(S):
        c = const(S, a - x / d)
        if c is not None and HALF < c < HALF + TINY:
            out.append(f * d)
    more = []
    for y in out:
        for a, f in floors(S):
            # rounding to some number of decimals
            r = a / y
            for m in S.cands(r, lambda z: z.op in ('attr', 'in', 'call')):
                pass
            for P in powers(S, a):
                c = const(S, a - P * y)
                if c is not None and HALF <= c < HALF + TINY:
                    more.append(f / P)
        for n, k in list(S.A.funs):
            if n.split('|')[0] in ('numpy.round', 'builtins.round'):
                for (a), i in S.A.funs[(n, k)]:
                    if S.A.same(a[0], y.r) and (len(a) < 2 or const(
                            S, Ex(S.A, a[1])) is None):
                        more.append(Ex(S.A, S.A.of_atom(i)))
    return out + more


def powers(S, a):
    """powers of ten with a variable exponent in a"""
    out = []
    for p in a.r:
        for m in p:
            for i, e in m:
                if S.A.atoms[i][0] == 'exp':
                    out.append(Ex(S.A, ({((i, e),): Fraction(1)},
                                        {(): Fraction(1)})))
    return out


def isbin(out, S, got, x, d, site, key, msg, lab, rule='nearest bin'):
    wants = roundings(S, x, d)
    S.extra |= S.A.leaves(x.r)
    S.extra |= {y for y in S.A.leaves(got.r) if y.op == 'attr'
                and y.a[1] == 'exponent' or y.op == 'astype'
                and not S.A.leaves(S(y.a[0]).r) - S.extra - {
                    z for z in parts(y) if z.op == 'attr'}}
    S.plain |= {'numpy.abs'}
    return judge(out, S, got, wants, rule, site, key, msg, lab)


# ----------------------------------------------------------------- rounding
def do_normal_round(R, out):
    for E, cfg, r, lab in runs(R, out, 'normal_round'):
        S = Space(r.interp)
        x = V(S, 'x')
        n = cfg.get('n')
        d = S(t.ONE) if n in (None, 0) or not hasattr(n, '__dict__') and \
            isinstance(n, int) else 1 / V(S, 'n').exp10()
        site = site_of(r.interp, E.qual)
        got = S(r.result())
        isbin(out, S, got, x, d, site, 'normal_round', 'normal_round', lab)


def do_bin(R, out):
    for E, cfg, r, lab in runs(R, out, 'bin_to_precision'):
        S = Space(r.interp)
        got = S(r.result())
        isbin(out, S, got, V(S, 'x'), V(S, 'delta_x'),
              site_of(r.interp, E.qual), 'bin', 'binned values', lab)


def do_column(R, out):
    for E, cfg, r, lab in runs(R, out, 'Catalog.bin_magnitudes'):
        for e in r.evs('colwrite'):
            if e.d['col'] != 'magnitude' or e.d.get('value') is None:
                continue
            v = e.d['value']
            cols = [y for y in parts(v) if y.op == 'col'
                    and y.a[1] == 'magnitude']
            if len(cols) != 1:
                continue
            S = Space(r.interp)
            d = V(S, 'delta_m' if cfg.get('delta_m') is not None
                  else 'self.delta_m')
            isbin(out, S, S(v), S(cols[0]), d, e.site,
                  'column', 'binned magnitudes of the catalog', lab)


# ------------------------------------------------------------ distributions
def do_fmd(R, out):
    for key in ('get_fmd', 'get_cum_fmd'):
        for E, cfg, r, lab in runs(R, out, key):
            x = r.result()
            if x is not None and x.op == 'tuple' and len(x.a[0] if isinstance(
                    x.a[0], tuple) else x.a) == 3:
                vals = x.a[0] if isinstance(x.a[0], tuple) else x.a
                fmd(out, r, E, cfg, lab, vals, key)


def fmd(out, r, E, cfg, lab, vals, key):
    S = Space(r.interp)
    S.extra = set().union(*[parts(S.resolve(y)) for y in vals])
    site = site_of(r.interp, E.qual)
    bins, counts, binned = [S.resolve(y) for y in vals]
    w = mk('in', 'weights') if cfg.get('weights') is not None else NONE
    m = mk('in', 'magnitudes')
    if cfg.get('fmd_bin') == 0:
        u = mk('call', 'numpy.unique', (m,), ())
        inv = mk('uniq', 'return_inverse', u)
        judge(out, S, S(bins), [S(u)], 'bins', site, key + 'bins0',
              'bins without bin width', lab)
        judge(out, S, S(binned), [S(mk('take', u, inv)), S(m)],
              'binned magnitudes', site, key + 'mags0',
              'magnitudes without bin width', lab)
        c = mk('call', 'numpy.bincount', (inv,),
               () if w is NONE else (('weights', w),))
        cs = [c]
        if w is NONE:
            cs.append(mk('uniq', 'return_counts', u))
        judge(out, S, S(counts), [S(cumulated(y)) for y in cs],
              'cumulative counts', site, key + 'counts0',
              'cumulative counts without bin width', lab)
        return
    d = V(S, 'fmd_bin')
    isbin(out, S, S(binned), S(m), d, site, key + 'mags',
          'binned magnitudes', lab, 'binned magnitudes')
    hs = [y for y in parts(counts) if y.op == 'call'
          and y.a[0] == 'numpy.histogram']
    if len(hs) != 1:
        return
    h = hs[0]
    kw = dict(h.a[2])
    edges = kw.get('bins')
    if edges is None or len(h.a[1]) != 1:
        return
    judge(out, S, S(h.a[1][0]), [S(binned), S(m)], 'counted values', site,
          key + 'counted', 'values that are counted', lab)
    out.ob('weights')
    if kw.get('weights', NONE) is not w or kw.get('density', NONE) not in (
            NONE, t.FALSE):
        out.flag('weights', site, key + 'weights', 'the weights of the '
                 f'counts are {t.show(kw.get("weights", NONE), 3)} instead '
                 f'of {t.show(w, 2)} ({lab})', lab)
    c = mk('item', h, ZERO)
    judge(out, S, S(counts), [S(c if key == 'get_fmd' else cumulated(c))],
          'counts', site, key + 'counts', 'counts', lab)
    shift = S(ZERO) if cfg.get('bin_position') == 'left' else d / 2
    judge(out, S, S(bins), [S(mk('slice', edges, NONE, t.num(-1), NONE))
                            + shift], 'bins', site, key + 'bins',
          f'{"left edges" if shift.same(0) else "centres"} of the bins', lab)
    ar = [y for y in parts(edges) if y.op == 'call'
          and y.a[0] == 'numpy.arange']
    if len(ar) != 1 or len(ar[0].a[1]) != 3:
        return
    a, b, st = [S(y) for y in ar[0].a[1]]
    isbin(out, S, S(edges) + d / 2, S(ar[0]), d, site, key + 'edges',
          'edges of the bins', lab, 'edges')
    judge(out, S, st, [d], 'edges', site, key + 'step', 'width of the bins',
          lab)

    def ext(f):
        return [S(mk('call', n, (binned,), ())) for n in (
            'numpy.' + f, 'builtins.' + f, 'numpy.nan' + f)]
    judge(out, S, a, ext('min'), 'edges', site, key + 'first', 'first bin',
          lab)
    wants = []
    for x in ext('max'):
        c = const(S, (b - x) / d)
        if c is not None and 1 < c < 2:
            wants.append(b)
        wants.append(x + d * Fraction(3, 2))
    judge(out, S, b, wants, 'edges', site, key + 'last',
          'end of the bins (the last bin must contain the maximum)', lab)


def cumulated(c):
    """for each bin the counts from it on"""
    def rev(y):
        return mk('slice', y, NONE, NONE, t.num(-1))
    return rev(mk('call', 'numpy.cumsum', (rev(c),), ()))

"""P03: one completeness convention - an event is complete when its
magnitude reaches mc minus half a bin."""
from fractions import Fraction
from .. import terms as t
from ..terms import mk, num, NONE
from ..spaces import SC
from ..run import Spec
from .base import cut
from .align import spaces_for
from .common import (entry_tasks, entry_runs, class_tasks, class_runs, done)

RULE = 'abstract interpretation of every public entry point that takes '\
       'magnitudes together with a completeness magnitude, under every '\
       'finite option configuration; every comparison of a magnitude array '\
       'with a completeness magnitude that selects or counts events is '\
       'brought to the normal form magnitudes - mc + c*delta_m >= 0 and '\
       'must have c = 1/2 and include equality (differences of magnitudes '\
       'against dmc likewise); every estimator must leave calculate() with '\
       'magnitudes which were cut at mc'
ASSUMPTIONS = ['comparisons which do not normalise to magnitudes - mc + '
               'c*delta_m are counted as undetermined, never reported']
SKIP = {'estimate_b_weichert', 'estimate_b_kijko_smit', 'cdf_discrete_exp'}
CAP = {'quick': 100, 'thorough': None}
HEAVY = {'plot_b_significant_1D': {'quick': 16, 'thorough': 64}}
MAGS = ('magnitudes', 'list_magnitudes', 'list_magnitudes[]')
THRESH = ('mc', 'mcs', 'mcs_test', 'list_mc', 'mcs[]', 'list_mc[]', 'dmc')


def tasks(R, tier):
    yield from class_tasks(R)
    for k, v in HEAVY.items():
        yield from entry_tasks(R, v[tier], keys={k}, chunk=2)
    yield from entry_tasks(R, CAP[tier], skip=SKIP | set(HEAVY))


STRIP = {'sel', 'take', 'slice', 'resetidx', 'at', 'get', 'diff', 'it',
         'values', 'uniq', 'sorted'}


def leaf(x):
    """('M', order) for selections of the caller's magnitudes (order 1 for
    their differences), ('T',) for thresholds, else None"""
    order = 0
    single = False
    while True:
        if x.op == 'diff':
            order += 1
            x = x.a[0]
        elif x.op in ('at', 'get', 'it') and x.a and isinstance(x.a[0], t.T):
            single = True
            x = x.a[0]
        elif x.op == 'item' and x.a[0].op == 'uniq':
            x = x.a[0]
        elif x.op == 'uniq' and len(x.a) > 1 and isinstance(x.a[1], t.T):
            x = x.a[1]
        elif x.op == 'call' and x.a[0] == 'numpy.unique':
            x = x.a[1][0]
        elif x.op in STRIP and x.a and isinstance(x.a[0], t.T):
            x = x.a[0]
        elif x.op == 'mono' and x.a[0] == 1:
            # scalar * ones(n)
            fs = [f for f, p in x.a[1] if not (
                f.op == 'full' and f.a[-1] is num(1))]
            if len(fs) != 1:
                return None
            x = fs[0]
        elif x.op == 'full' and isinstance(x.a[-1], t.T):
            x = x.a[-1]
        elif x.op in ('phi',):
            l1, l2 = leaf(x.a[1]), leaf(x.a[2])
            if l1 == l2 and l1:
                return (l1[0], l1[1] + order)
            return None
        else:
            break
    if x.op == 'in':
        n = x.a[0]
        if n in MAGS:
            return ('M', order)
        if n in THRESH or n.endswith('.mc'):
            return ('T', order)
    if x.op == 'col' and x.a[1] == 'magnitude':
        return ('M', order)
    if not single and binned(x):
        return ('M', order + any(y.op == 'diff'
                                 for y in t.subterms(x).values()))
    return None


WIDTHS = {'delta_m', 'fmd_bin', 'self.delta_m'}


def binned(x):
    """the caller's magnitudes (or the centers of their bins) rounded to
    the bin width"""
    if x.op not in ('mono', 'call'):
        return False
    ins = t.inputs(x)
    return bool(ins & set(MAGS)) and ins <= set(MAGS) | WIDTHS and any(
        y.op == 'call' and y.a[0] in ('numpy.floor', 'numpy.round',
                                      'numpy.rint')
        for y in t.subterms(x).values())


def delta(cfg):
    """(atom or None) of the bin width that is in force"""
    for k in ('delta_m', 'fmd_bin'):
        if isinstance(cfg.get(k), Spec):
            return mk('in', k)
        if cfg.get(k) == 0 and cfg.get(k) is not None:
            return None
    s = cfg.get('self')
    if isinstance(s, Spec) and s.attrs:
        if isinstance(s.attrs.get('delta_m'), Spec):
            return mk('in', 'self.delta_m')
    return None


def linear(c):
    """comparison term -> (op, const, {atom: coef}) of  lhs op 0"""
    if c.op != 'cmp':
        return None
    op = c.a[0]
    k, d = t._lin_parts(c.a[1])
    return op, k, d


def classify(S, c, dl):
    """None: not a completeness cut; ('ok',...) / ('bad', why)"""
    l = linear(c)
    if l is None:
        return None
    op, k, d = l
    d = dict(d)
    deltas = {mk('in', n) for n in ('delta_m', 'self.delta_m', 'fmd_bin')}
    cs = {}
    for a in list(d):
        if a in deltas:
            cs[a] = d.pop(a)
    ms = [(a, leaf(a)) for a in d]
    mags = [(a, l) for a, l in ms if l and l[0] == 'M']
    ths = [(a, l) for a, l in ms if l and l[0] == 'T']
    if len(mags) != 1:
        return None
    a, (_, order) = mags[0]
    if S.space(a) in (None, SC):
        return None
    rest = [x for x in d if x is not a]
    if len(rest) > 1:
        return None
    if not rest and not (order == 1 and k == 0):
        return None
    s = d[a]
    if rest:
        if d[rest[0]] != -s:
            return None
        if not ths and order != 0:
            return None
        if not ths and not isgrid(rest[0]):
            return None
        if order > 1 or (order == 1 and leaf(rest[0]) and
                         'dmc' not in t.inputs(rest[0])):
            return None
    if s < 0:
        op = {'>=': '<=', '<=': '>=', '>': '<', '<': '>'}.get(op, op)
        cs = {x: -v for x, v in cs.items()}
        k = -k
    if abs(s) != 1:
        cs = {x: v / abs(s) for x, v in cs.items()}
        k = k / abs(s)
    want = Fraction(1, 2) if rest else Fraction(-1, 2)
    if k != 0:
        return ('bad', f'constant offset {float(k)}')
    others = {x: v for x, v in cs.items() if x is not dl}
    if others:
        return ('bad', 'offset by ' + ', '.join(
            f'{float(v)}*{t.show(x)}' for x, v in others.items())
            + ', not by the bin width in force')
    c = cs.get(dl, Fraction(0)) if dl is not None else None
    if dl is not None and c != want:
        return ('bad', f'offset by {float(c)} bin instead of '
                       f'{float(want)} bin')
    # complement (below completeness) is as good as the cut itself
    if op not in ('>=', '<'):
        return ('bad', f'compares with {op}, equality is on the wrong side')
    return ('ok', order)


def isgrid(x):
    """element of a grid of candidate completeness magnitudes"""
    return x.op in ('at', 'get', 'it')


def masks(run):
    """(event, boolean term) which select or count events"""
    for e in run.events:
        d = e.d
        if e.kind in ('subscript', 'store') and t.isbool(d['i']):
            yield e, d['i']
        elif e.kind == 'extcall' and d['name'] in (
                'numpy.sum', 'numpy.where', 'numpy.nonzero',
                'numpy.count_nonzero', 'numpy.flatnonzero', 'builtins.sum'):
            for x in d['args']:
                if isinstance(x, t.T) and t.isbool(x):
                    yield e, x
        elif e.kind == 'cmp' and e.d.get('kx') in ('arr', 'series'):
            c = t.cmp(d['op'], d['x'], d['y']) if d['op'] in (
                '<', '<=', '>', '>=') else None
            if c is not None and c.op == 'cmp':
                yield e, c


def scalar_checks(S, e, dl):
    """min/max of the magnitudes against a threshold, and differences of
    two single magnitudes against the minimal difference"""
    d = e.d
    if e.kind != 'cmp' or d['op'] not in ('<', '<=', '>', '>='):
        return None
    l = linear(t.cmp(d['op'], d['x'], d['y']))
    if l is None:
        return None
    op, k, c = l
    c = dict(c)
    cs = {}
    for a in list(c):
        if a in DELTAS:
            cs[a] = c.pop(a)
    if any(x is not dl for x in cs) or k != 0:
        return None
    ms = [a for a in c if one_mag(S, a)]
    th = [a for a in c if leaf(a) and leaf(a)[0] == 'T']
    if len(ms) + len(th) != len(c):
        return None
    off = cs.get(dl, Fraction(0)) if dl is not None else None
    if len(ms) == 2 and len(th) <= 1 and {c[m] for m in ms} == {1, -1}:
        # later - earlier - dmc + dm/2 >= 0
        if th and c[th[0]] > 0:
            op, off = {'>=': '<=', '>': '<'}[op], -off if off is not None \
                else None
        elif not th and off is not None and off > 0:
            op, off = {'>=': '<=', '>': '<'}[op], -off
        if not th and dl is None:
            return None
        want = Fraction(1, 2) if th else Fraction(-1, 2)
        if off is not None and off != want:
            return ('bad', f'offset by {float(off)} bin instead of '
                           f'{float(want)} bin')
        if op not in ('>=', '<'):
            return ('bad', 'equality is on the wrong side')
        return ('ok', 1)
    return None


DELTAS = {mk('in', n) for n in ('delta_m', 'self.delta_m', 'fmd_bin')}


def one_mag(S, a):
    l = leaf(a)
    return (l == ('M', 0) and S.space(a) == SC and a.op in ('at', 'get',
                                                          'it'))


def conj(m):
    """comparisons this mask is a conjunction / complement of"""
    if m.op == 'cmp':
        return [m]
    if m.op in ('and', 'or', 'not'):
        out = []
        for x in m.a:
            if isinstance(x, t.T):
                out += conj(x)
            elif isinstance(x, (tuple, list)):
                for y in x:
                    out += conj(y)
        return out
    return []


def check(run, cfg, out, S=None):
    S = S or spaces_for(run)
    dl = delta(cfg)
    for e, m in masks(run):
        for c in conj(m):
            v = classify(S, c, dl)
            if v is None:
                continue
            out.ob('completeness cut' if v[-1] != 1 else 'difference cut')
            if v[0] == 'bad':
                out.flag('cut.convention', e.site, e.site[2],
                         f'{cut(c)}: {v[1]}', run.name)
    for e in run.events:
        v = scalar_checks(S, e, dl)
        if v is None:
            continue
        out.ob('difference cut')
        if v[0] == 'bad':
            out.flag('cut.convention', e.site, e.site[2],
                     f'{cut(e.d["x"])} {e.d["op"]} {cut(e.d["y"])}: {v[1]}',
                     run.name)
    return S


def work(R, task, out):
    if task[0] == 'class':
        for ci, cfg, r in class_runs(R, task, read=('magnitudes',)):
            S = check(r, cfg, out)
            exit_cut(r, out, S)
            done(out, r)
            out.sample(r.name)
        return
    for E, cfg, r in entry_runs(R, task):
        if E.key in SKIP:
            continue
        check(r, cfg, out)
        done(out, r)
        out.sample(r.name)


def exit_cut(r, out, S):
    """the events an estimator keeps were compared with mc"""
    if r.dead or 'magnitudes' not in r.read:
        return
    m = r.term(r.read['magnitudes'])
    if m is NONE:
        return
    ins = t.inputs(m)
    if not ins & set(MAGS):
        return
    out.ob('estimator exit')
    if 'mc' not in ins:
        node = r.ci.node
        out.flag('cut.missing',
                 (r.interp.project.relpath(r.ci.module.path), node.lineno,
                  r.ci.qual), r.ci.qual,
                 'magnitudes left after calculate() were not cut at mc',
                 r.name)

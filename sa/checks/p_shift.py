"""P29: only differences of magnitudes matter (no preferred origin)."""
from fractions import Fraction
from .. import terms as t
from ..terms import T
from ..entries import Entry, calc_axes, bclasses, aclasses, estimator_run
from .base import cut
from .common import (all_entries, entry_tasks, entry_runs, class_tasks,
                     done, site_of)

RULE = 'every term built in the abstract runs is assigned its degree under '\
       'a common shift of all magnitudes and completeness magnitudes (1 for '\
       'magnitudes, 0 for differences); comparisons, logarithms, '\
       'exponentials, powers and divisors must have degree 0, and so must '\
       'b-values, a-values, uncertainties, test statistics and selections'
ASSUMPTIONS = ['products and roundings of terms with degree 1 have an '
               'unknown degree and are never reported']
ONE, ZERO = Fraction(1), Fraction(0)
KEYS = ('estimate_b', 'estimate_a', 'shi_bolt_confidence',
        'find_next_larger', 'make_more_incomplete', 'cdf_discrete_exp',
        'ks_test_gr', 'estimate_mc_ks', 'estimate_mc_maxc',
        'estimate_mc_b_stability', 'ks_test_gr_lilliefors',
        'values_from_partitioning', 'b_significant_1D', 'get_fmd',
        'binning_test',
        'get_cum_fmd', 'gutenberg_richter', 'plot_cum_fmd', 'plot_fmd',
        'plot_cum_count', 'plot_mags_in_time', 'dot_size',
        'reverse_dot_size', 'plot_in_space', 'plot_mc_vs_b',
        'plot_b_series_constant_nm', 'plot_b_significant_1D',
        'Catalog.estimate_b', 'Catalog.estimate_a', 'Catalog.estimate_mc_ks',
        'Catalog.estimate_mc_maxc', 'Catalog.estimate_mc_b_stability',
        'Catalog.plot_cum_fmd', 'Catalog.plot_fmd', 'Catalog.plot_mc_vs_b',
        'Catalog.plot_cum_count')
CAP = {'quick': 40, 'thorough': None}
HEAVY = {'plot_b_significant_1D': {'quick': 6, 'thorough': 48},
         'plot_b_series_constant_nm': {'quick': 16, 'thorough': 160},
         'b_significant_1D': {'quick': 16, 'thorough': None}}
RESULT0 = {'estimate_b', 'estimate_a', 'shi_bolt_confidence', 'ks_test_gr',
           'gutenberg_richter', 'values_from_partitioning',
           'b_significant_1D', 'dot_size'}
MAGS = {'magnitudes', 'magnitude', 'mc', 'mcs', 'mcs_test', 'm_ref',
        'mag_max', 'list_magnitudes', 'list_mc', 'min_mag', 'max_mag'}
KEEP = {'numpy.' + n for n in (
    'average', 'mean', 'median', 'min', 'max', 'sort', 'unique', 'array',
    'asarray', 'nanmean', 'nanmin', 'nanmax', 'amin', 'amax', 'atleast_1d',
    'ravel', 'copy', 'flip', 'float64', 'squeeze', 'repeat', 'tile',
    'percentile', 'quantile')} | {'builtins.float', 'builtins.sorted',
                                  'builtins.list', 'builtins.tuple'}
DIFF = {'numpy.' + n for n in ('std', 'var', 'diff', 'ptp', 'nanstd',
                               'argsort', 'argmax', 'argmin', 'isnan')}
NONLIN = {'numpy.log', 'numpy.log10', 'numpy.log2', 'numpy.log1p',
          'numpy.exp', 'numpy.expm1', 'math.log', 'math.log10', 'math.exp',
          'numpy.power', 'numpy.sqrt', 'math.sqrt', 'numpy.square'}
ANY = 'any'


ROUND = {'numpy.floor', 'numpy.ceil', 'numpy.round', 'numpy.rint',
         'numpy.trunc', 'builtins.round', 'builtins.int', 'math.floor',
         'op.FloorDiv', 'op.Mod', 'numpy.mod'}


def dep(V, x):
    """depends on the origin of the scale"""
    k = V.d(x)
    if k == 0 or k == ANY:
        return False
    if k is not None:
        return True
    if x.op == 'mono':
        return any(dep(V, y) for y, e in x.a[0])
    if x.op == 'lin':
        return len([y for y, c in x.a[1] if dep(V, y)]) == 1
    return False


class Shift:
    rounding = False
    more = ()

    def __init__(self):
        self.memo = {}
        self.bad = {}
        self.checked = 0

    def d(self, x):
        if x.id in self.memo:
            return self.memo[x.id]
        self.memo[x.id] = None
        r = self.memo[x.id] = self.degree(x)
        return r

    def need0(self, x, y, msg):
        k = self.d(y)
        if k in (None, ANY):
            return
        self.checked += 1
        if k != 0:
            self.bad.setdefault(x.id, (msg, y))

    def degree(self, x):
        op = x.op
        if op == 'num':
            return ANY if x.a[0] == 0 else ZERO
        if op == 'const':
            return ANY if isinstance(x.a[0], str) and \
                x.a[0].endswith('#float') else ZERO
        if op == 'in':
            n = x.a[0].replace('[]', '').split('.')[-1]
            return ONE if n in MAGS or n in self.more else ZERO
        if op == 'lin':
            r = ZERO
            for y, c in x.a[1]:
                k = self.d(y)
                if k is None:
                    return None
                if k != ANY:
                    r += c * k
            return r
        if op == 'mono':
            ks = []
            for y, e in x.a[0]:
                k = self.d(y)
                if e < 0 or e.denominator != 1:
                    self.need0(x, y, 'divides by' if e < 0
                               else 'takes a root of')
                ks.append((k, e))
            if any(k is None for k, e in ks):
                return None
            return ZERO if all(k in (0, ANY) for k, e in ks) else None
        if op == 'exp10':
            self.need0(x, x.a[0], 'raises 10 to')
            return ZERO if self.d(x.a[0]) in (0, ANY) else None
        if op == 'cmp':
            self.need0(x, x.a[1], 'compares with a fixed number')
            return ZERO
        if op in ('not', 'and', 'or', 'eq', 'isnone', 'contains'):
            for y in x.a:
                if isinstance(y, T):
                    self.d(y)
            return ZERO
        if op == 'phi':
            self.d(x.a[0])
            a, b = self.d(x.a[1]), self.d(x.a[2])
            return b if a == ANY else a if b == ANY or a == b else None
        if op in ('sel', 'take', 'slice', 'resetidx', 'at', 'it', 'values',
                  'sorted', 'astype'):
            for y in x.a[1:]:
                if isinstance(y, T):
                    self.d(y)
            return self.d(x.a[0])
        if op == 'diff':
            return ZERO if self.d(x.a[0]) is not None else None
        if op in ('len', 'nz', 'argsort', 'pos'):
            for y in x.a:
                if isinstance(y, T):
                    self.d(y)
            return ZERO
        if op == 'full':
            return self.d(x.a[1]) if isinstance(x.a[1], T) else None
        if op in ('list', 'tuple', 'seq'):
            ks = {self.d(y) for y in x.a if isinstance(y, T)} - {ANY}
            return ks.pop() if len(ks) == 1 else None
        if op == 'col':
            n = x.a[1].a[0] if isinstance(x.a[1], T) else x.a[1]
            return ONE if n in ('magnitude', 'mc') else ZERO
        if op == 'call':
            nm, args = x.a[0], x.a[1]
            ks = [self.d(y) if isinstance(y, T) else None for y in args]
            for k in (x.a[2] if len(x.a) > 2 else ()) or ():
                if isinstance(k, tuple) and len(k) > 1 and \
                        isinstance(k[1], T):
                    self.d(k[1])
            if nm.startswith('meth.') and ('numpy.' + nm[5:]) in KEEP | DIFF:
                nm = 'numpy.' + nm[5:]
            if nm in NONLIN and args:
                if nm != 'numpy.square' and not (
                        nm == 'numpy.power' and args[1].op == 'num'
                        and args[1].a[0] == 2):
                    self.need0(x, args[0], f'{nm} of')
                return ZERO if all(k in (0, ANY) for k in ks) else None
            if nm == 'numpy.arange' and len(ks) > 1:
                a, b = (ZERO if y.op == 'num' else k
                        for y, k in zip(args[:2], ks))
                if a not in (None, ANY) and b not in (None, ANY):
                    self.checked += 1
                    if a != b:
                        self.bad.setdefault(x.id, (
                            'makes a grid with one fixed end and', args[
                                0 if b == 0 else 1]))
                return a
            if nm in ROUND and args and self.rounding and dep(self, args[0]):
                self.checked += 1
                self.bad.setdefault(x.id, ('rounds', args[0]))
            if nm in KEEP and ks:
                return ks[0]
            if nm in DIFF and ks:
                return ZERO if ks[0] is not None else None
            if nm in ('numpy.sum', 'builtins.sum', 'numpy.cumsum',
                      'numpy.abs', 'builtins.abs') and ks:
                return ZERO if ks[0] in (0, ANY) else None
            return None
        for y in x.a:
            if isinstance(y, T):
                self.d(y)
        return None


def judge(r, out, rounding=False, more=()):
    V = Shift()
    V.rounding, V.more = rounding, more
    for e in r.events:
        if e.kind in ('warn', 'print'):
            continue
        for v in e.d.values():
            for x in ([v] if isinstance(v, T) else v if isinstance(
                    v, (list, tuple)) else v.values() if isinstance(
                    v, dict) else ()):
                if not isinstance(x, T):
                    continue
                V.d(x)
                if V.bad:
                    for msg, y in V.bad.values():
                        out.flag('shift.origin', e.site,
                                 f'{e.site[2]}|{msg}',
                                 f'{msg} a quantity which depends on the '
                                 f'origin of the magnitude scale: {cut(y)}',
                                 r.name)
                    V.bad.clear()
    out.ob('comparisons, divisors and functions with known degree',
           V.checked)
    return V


def expect(V, x, what, site, r, out):
    from .p_units import leaves
    for y in leaves(x):
        k = V.d(y)
        V.bad.clear()
        if k in (None, ANY):
            out.ob('undetermined: degree of a result')
            continue
        out.ob('degree of a result')
        if k != 0:
            out.flag('shift.result', site, what,
                     f'{what} changes with the origin of the magnitude '
                     f'scale: {cut(y)}', r.name)


def tasks(R, tier):
    yield from class_tasks(R)
    for k, v in HEAVY.items():
        yield from entry_tasks(R, v[tier], keys={k}, chunk=2)
    yield from entry_tasks(R, CAP[tier], keys=KEYS, skip=HEAVY)


def work(R, task, out):
    if task[0] == 'class':
        ci = R.classinfo(task[1])
        base, axes = calc_axes(R, ci)
        cfgs = list(Entry(ci.name, ci.qual, base, axes).configs())
        for lab, cfg in cfgs[task[2]:task[3]]:
            r = estimator_run(R, ci, lab, cfg, None, (
                'b_value', 'std', 'beta', 'std_beta', 'a_value', 'n'))
            done(out, r)
            r.events = r.events + r.reading
            V = judge(r, out, True)
            for k, v in r.read.items():
                if k == 'b_value' and ci in aclasses(R):
                    continue
                expect(V, r.term(v), f'{ci.name}.{k}', site_of(
                    R.I, ci.qual), r, out)
        out.sample(ci.name)
        return
    for E, cfg, r in entry_runs(R, task):
        done(out, r)
        V = judge(r, out, E.key == 'binning_test',
                  ('x',) if E.key == 'binning_test' else ())
        if E.key in RESULT0 and not r.dead:
            expect(V, r.result(), f'{E.key} result', site_of(R.I, E.qual),
                   r, out)
        out.sample(r.name)

"""Physical units of terms.

M: magnitude, L: natural logarithm of ten (the factor between a quantity per
decade and per e-fold, so b ~ 1/(M*L), beta ~ 1/M, log10 ~ 1/L), T: time,
D: degrees."""
from fractions import Fraction
import math
from . import terms as t
from .terms import T

LN10 = math.log(10)
SIMPLE = {Fraction(1), Fraction(2), Fraction(1, 2), Fraction(3, 2),
          Fraction(3), Fraction(1, 4)}
ANY = 'any'          # zero, nan: has every unit
NUM = 'num'          # a literal: unknown meaning


def U(**k):
    return tuple(sorted((d, Fraction(e)) for d, e in k.items() if e))


ONE = ()
MAG, LN, TIME, DEG = U(M=1), U(L=1), U(T=1), U(D=1)
BETA, BVAL, LOG10 = U(M=-1), U(M=-1, L=-1), U(L=-1)


def mulu(a, b, e=1):
    if a is None or b is None:
        return None
    d = dict(a)
    for k, v in b:
        d[k] = d.get(k, 0) + v * e
    return tuple(sorted((k, v) for k, v in d.items() if v))


def showu(u):
    if not u:
        return 'dimensionless'
    n = {'M': 'magnitude', 'L': 'ln10', 'T': 'time', 'D': 'degree'}
    return '*'.join(n[k] + (f'^{v}' if v != 1 else '') for k, v in u)


NAMES = {n: MAG for n in (
    'magnitudes', 'magnitude', 'mc', 'mcs', 'mcs_test', 'delta_m', 'dmc',
    'fmd_bin', 'm_ref', 'mag_max', 'stability_range', 'correction_factor',
    'list_magnitudes', 'list_mc', 'delta_x', 'min_mag', 'max_mag',
    'min_magnitude', 'max_magnitude')}
NAMES |= {n: BVAL for n in ('b_value', 'b_true', 'b_estimate')}
NAMES |= {'beta': BETA, 'times': TIME, 'time': TIME, 'list_times': TIME,
          'delta_t': TIME, 'weights': ONE, 'scaling_factor': ONE,
          'n': ONE, 'n_mc': ONE, 'confidence_interval': ONE}
NAMES |= {n: DEG for n in (
    'longitude', 'latitude', 'longitudes', 'latitudes', 'lon', 'lat',
    'target_longitude', 'target_latitude')}
COLS = {'magnitude': MAG, 'mc': MAG, 'longitude': DEG, 'latitude': DEG,
        'b': BVAL, 'time': TIME}
SAME = {'numpy.' + n for n in (
    'average', 'mean', 'median', 'min', 'max', 'sum', 'abs', 'sort',
    'unique', 'cumsum', 'diff', 'std', 'array', 'asarray', 'nanmean',
    'nansum', 'nanmin', 'nanmax', 'amin', 'amax', 'atleast_1d', 'ravel',
    'copy', 'absolute', 'negative', 'flip', 'float64', 'nanstd', 'ptp',
    'squeeze', 'repeat', 'tile', 'percentile', 'quantile', 'floor', 'ceil',
    'round', 'around', 'rint', 'trunc')}
SAME |= {'builtins.' + n for n in ('sum', 'float', 'abs', 'sorted', 'list',
                                   'tuple')}
JOIN = {'numpy.maximum', 'numpy.minimum', 'numpy.arange', 'numpy.linspace',
        'numpy.concatenate', 'numpy.append', 'builtins.max', 'builtins.min',
        'numpy.hstack', 'numpy.fmax', 'numpy.fmin', 'numpy.clip'}
TRIG = {'numpy.' + n for n in ('sin', 'cos', 'tan')} | {
    'math.' + n for n in ('sin', 'cos', 'tan')}
LOGS = {'numpy.log', 'math.log', 'numpy.log1p', 'math.log1p'}
LOG10S = {'numpy.log10', 'math.log10'}
EXPS = {'numpy.exp', 'math.exp', 'numpy.expm1', 'math.expm1'}
RADS = {'numpy.radians', 'numpy.deg2rad', 'math.radians'}
COUNTS = {'numpy.argsort', 'numpy.arange', 'numpy.count_nonzero', 'numpy.ones',
          'numpy.zeros_like', 'numpy.ones_like', 'numpy.arctan2',
          'numpy.arctan', 'numpy.arcsin', 'numpy.arccos', 'numpy.isnan',
          'numpy.searchsorted', 'numpy.digitize'}


class Units:
    def __init__(self, over=None):
        self.over = over or {}
        self.memo = {}
        self.bad = {}
        self.vmemo = {}
        self.checked = 0

    def variants(self, x):
        """the units x may have, by the conditions it depends on"""
        r = self.u(x)
        if r is not None:
            return [r]
        if x.id not in self.vmemo:
            self.vmemo[x.id] = []
            self.vmemo[x.id] = self._variants(x)
        return self.vmemo[x.id]

    def _variants(self, x):
        conds = []
        for y in t.subterms(x).values():
            if y.op == 'phi' and y.a[0] not in conds and \
                    self.u(y) is None:
                conds.append(y.a[0])
        if not 0 < len(conds) <= 2:
            return []
        out = []
        for bits in range(1 << len(conds)):
            val = {c: bool(bits >> i & 1) for i, c in enumerate(conds)}

            def f(y):
                if y.op == 'phi' and y.a[0] in val:
                    return t.rewrite(y.a[1 if val[y.a[0]] else 2], f)
            u = self.u(t.rewrite(x, f))
            if u not in out and u is not None:
                out.append(u)
        return out

    def flag(self, x, msg):
        self.bad.setdefault(x.id, msg)

    def u(self, x):
        if x.id in self.memo:
            return self.memo[x.id]
        self.memo[x.id] = None
        r = self.unit(x)
        self.memo[x.id] = r
        return r

    def name(self, n):
        n = n.replace('[]', '')
        n = n.split('.')[-1]
        if n in self.over:
            return self.over[n]
        return NAMES.get(n)

    def join(self, us):
        r = ANY
        for u in us:
            if u is None:
                return None
            if u in (ANY, NUM):
                if u == NUM and r == ANY:
                    r = NUM
                continue
            if r in (ANY, NUM):
                r = u
            elif r != u:
                return None
        return r

    def coef(self, c):
        """unit of a numeric factor: powers of ln(10) count as such"""
        v = abs(float(c))
        for e in (1, -1, 2, -2):
            if v and abs(v / LN10 ** e - 1) < 1e-4:
                return U(L=e)
        if v and (abs(v / (math.pi / 180) - 1) < 1e-6):
            return U(D=-1)
        if v and (abs(v / (180 / math.pi) - 1) < 1e-6):
            return U(D=1)
        return ONE

    def unit(self, x):
        op = x.op
        if op == 'num':
            if x.a[0] == 0:
                return ANY
            c = self.coef(x.a[0])
            return c if c else NUM
        if op == 'const':
            return ANY if isinstance(x.a[0], str) and \
                x.a[0].endswith('#float') else None
        if op == 'in':
            return self.name(x.a[0])
        if op == 'lin':
            us = []
            for y, c in x.a[1]:
                u = self.u(y)
                if u not in (None, ANY, NUM):
                    k = self.coef(c)
                    if dict(u).get('L') and any(
                            1e-6 < abs(abs(float(c)) / LN10 ** e - 1) < 0.01
                            for e in (1, -1)):
                        self.flag(x, f'{float(c)} is not ln(10)')
                    # other literals may carry a unit
                    u = mulu(u, k) if k or abs(c) in SIMPLE else None
                us.append((u, y))
            known = [(u, y) for u, y in us if u not in (None, ANY, NUM)]
            if known:
                self.checked += 1
                for u, y in known[1:]:
                    if u != known[0][0]:
                        self.flag(x, f'adds {showu(known[0][0])} and '
                                     f'{showu(u)}')
                        return None
            if any(u is None for u, y in us):
                return None
            return self.join([u for u, y in us])
        if op == 'mono':
            r = ONE
            lit, anyu = True, False
            for y, e in x.a[0]:
                u = self.u(y)
                if u is None:
                    r = None
                    continue
                if u == ANY:
                    anyu = True
                    continue
                if u == NUM:
                    continue
                lit = False
                r = mulu(r, tuple((k, v * e) for k, v in u))
            if anyu:
                return ANY
            return NUM if lit and r == ONE else r
        if op == 'exp10':
            u = self.u(x.a[0])
            if u not in (None, ANY, NUM):
                self.checked += 1
                d = dict(u)
                if d.get('M') or d.get('T') or d.get('D'):
                    self.flag(x, f'raises 10 to a quantity with the unit '
                                 f'{showu(u)}')
                elif d.get('L', 0) not in (-1, 0) or (
                        d.get('L', 0) == 0 and self.rates(x.a[0])):
                    self.flag(x, 'raises 10 to an exponent in natural units'
                              f' ({showu(u)})')
            return ONE
        if op in ('cmp', 'eq', 'not', 'and', 'or', 'isnone', 'contains'):
            for y in x.a:
                if isinstance(y, T):
                    self.u(y)
            return ONE
        if op in ('phi',):
            self.u(x.a[0])
            return self.join([self.u(x.a[1]), self.u(x.a[2])])
        if op in ('sel', 'take', 'slice', 'resetidx', 'at', 'diff', 'it',
                  'values', 'sorted', 'astype'):
            for y in x.a[1:]:
                if isinstance(y, T):
                    self.u(y)
            return self.u(x.a[0])
        if op == 'get' and x.a[0].op in ('in', 'sel', 'take', 'slice'):
            return self.u(x.a[0])
        if op == 'uniq':
            return None
        if op in ('len', 'nz', 'argsort', 'pos'):
            return ONE
        if op == 'full':
            return self.u(x.a[1]) if isinstance(x.a[1], T) else None
        if op in ('list', 'tuple', 'seq'):
            return self.join([self.u(y) for y in x.a if isinstance(y, T)])
        if op == 'setitem':
            self.u(x.a[1])
            return self.join([self.u(x.a[0]), self.u(x.a[2])])
        if op == 'map' and isinstance(x.a[-1], T):
            return self.u(x.a[-1])
        if op == 'col' and isinstance(x.a[1], str):
            return COLS.get(x.a[1])
        if op == 'col' and isinstance(x.a[1], T) and x.a[1].op == 'const':
            return COLS.get(x.a[1].a[0])
        if op == 'call':
            return self.call(x)
        if op == 'rng':
            if 'uniform' in str(x.a[0]):
                return ONE
            if str(x.a[0]).endswith('exponential') and x.a[1]:
                return self.u(x.a[1][0])
            return None
        for y in x.a:
            if isinstance(y, T):
                self.u(y)
        return None

    def rates(self, x):
        return any(n.split('.')[-1] in ('beta', 'b_value', 'b', 'b_true')
                   for n in t.inputs(x))

    def call(self, x):
        nm, args = x.a[0], x.a[1]
        kw = x.a[2] if len(x.a) > 2 else ()
        us = [self.u(y) if isinstance(y, T) else None for y in args]
        for k in kw or ():
            if isinstance(k, tuple) and len(k) > 1 and isinstance(k[1], T):
                self.u(k[1])
        if nm.startswith('meth.'):
            n2 = 'numpy.' + nm[5:]
            if n2 in SAME:
                nm = n2
        if nm in LOGS and args:
            if args[0].op == 'num' and args[0].a[0] == 10:
                return LN
            return ONE
        if nm in LOG10S:
            return LOG10
        if nm in EXPS and us:
            for u in self.variants(args[0]):
                if u in (ANY, NUM):
                    continue
                self.checked += 1
                if u != ONE:
                    self.flag(x, f'exponential of a quantity with the unit '
                                 f'{showu(u)}')
            return ONE
        if nm in TRIG and us:
            for u in self.variants(args[0]):
                if u in (ANY, NUM):
                    continue
                self.checked += 1
                if dict(u).get('D'):
                    self.flag(x, 'trigonometric function of degrees')
            return ONE
        if nm in RADS and us:
            u = us[0]
            if u not in (None, ANY, NUM):
                self.checked += 1
                if not dict(u).get('D'):
                    self.flag(x, 'radians of a quantity which is not in '
                                 'degrees')
                    return None
                return mulu(u, U(D=-1))
            return ONE if u is None else None
        if nm == 'numpy.square' and us and us[0] not in (None, ANY, NUM):
            return mulu(us[0], us[0])
        if nm == 'numpy.sqrt' and us and us[0] not in (None, ANY, NUM):
            return tuple((k, v / 2) for k, v in us[0])
        if nm == 'numpy.var' and us and us[0] not in (None, ANY, NUM):
            return mulu(us[0], us[0])
        if nm in ('numpy.power', 'math.pow') and len(args) == 2 and \
                us[0] not in (None, ANY, NUM):
            if us[0] == ONE:
                return ONE
            if args[1].op == 'num':
                return tuple((k, v * args[1].a[0]) for k, v in us[0])
            return None
        if nm in COUNTS:
            return ONE if nm != 'numpy.arange' or not us else self.join(us)
        if nm in JOIN:
            return self.join(us)
        if nm in SAME and us:
            return us[0]
        return None

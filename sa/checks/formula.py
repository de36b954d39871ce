"""Comparing value terms with closed formulas."""
from .. import terms as t
from ..terms import mk, T
from ..algebra import Alg, Ex, TooBig
from .common import all_entries, configs, run_entry, done

KNOWN = {'in', 'get', 'sel', 'take', 'slice', 'diff', 'setitem', 'const',
         'full', 'argsort', 'nz'}
# functions whose appearance is a difference of meaning
PLAIN = {'log', 'not', 'bool', 'exp', 'sum', 'numpy.floor', 'numpy.ceil', 'numpy.rint',
         'numpy.round', 'builtins.round', 'builtins.int', 'numpy.sqrt'}


def generic(I):
    """the case of many events"""
    def dec(c):
        if c.op == 'eq':
            x, y = c.a
            for a, b in ((x, y), (y, x)):
                if is_count(b) and (a.op == 'num' or is_count(a)):
                    return False
        if c.op == 'cmp':
            x = c.a[1]
            parts = x.a[1] if x.op == 'lin' else ((x, 1),)
            if all(is_count(y) for y, k in parts):
                if all(k > 0 for y, k in parts):
                    return True
                if all(k < 0 for y, k in parts):
                    return False
        if c.op == 'not':
            d = dec(c.a[0])
            return None if d is None else not d
        if c.op in ('and', 'or'):
            ds = [dec(y) for y in c.a]
            if c.op == 'and':
                return False if False in ds else \
                    True if all(d is True for d in ds) else None
            return True if True in ds else \
                False if all(d is False for d in ds) else None
        try:
            d = I.decide(c)
        except Exception:
            return None
        if d is None and c.op == 'eq' and any(
                a.op == 'num' and b.op == 'in' and not is_count(b)
                for a, b in (c.a, c.a[::-1])):
            return False          # a parameter is a certain number
        return d
    return dec


def is_count(x):
    if x.op == 'len':
        return True
    if x.op == 'call' and x.a[0] in ('numpy.sum', 'builtins.sum',
                                     'numpy.count_nonzero', 'numpy.size'):
        return x.a[0] == 'numpy.size' or x.a[1][0].op in (
            'cmp', 'not', 'and', 'or', 'eq', 'call') and (
            x.a[1][0].op != 'call' or 'is' in x.a[1][0].a[0])
    return False


class Space:
    """formulas of one run"""

    def __init__(self, I, array=None):
        self.I = I
        self.A = Alg(I, array=array, decide=generic(I))
        self.memo = {}
        self.extra = set()
        self.plain = set(PLAIN)
        self.L10 = Ex(self.A, self.A.L10())

    def resolve(self, x):
        """the value in the generic case"""
        def f(y):
            if y.op == 'phi':
                d = self.A.decide(y.a[0])
                if d is not None:
                    return y.a[1] if d else y.a[2]
                return t.phi(*y.a)
            if y.op in ('sel', 'take', 'slice', 'get') and y.a[0].op in (
                    'lin', 'mono'):
                return None
        return t.rewrite(x, f, self.memo)

    def __call__(self, x):
        return Ex(self.A, self.A.to(self.resolve(x) if isinstance(x, T)
                                    else t.num(x)))

    def known(self, got, want):
        """True when a difference between the formulas is meant"""
        w = set()
        for x in want:
            w |= self.A.leaves(x.r)
        sub = set(self.extra)
        for y in w:
            sub |= parts(y)
        for x in self.A.leaves(got.r):
            if x in sub or x.op in KNOWN or x.op == 'ext':
                continue
            return False
        fw = set()
        for x in want:
            fw |= self.A.names(x.r)
        return not {n for n in self.A.names(got.r) - fw - self.plain
                    if not n.startswith('cmp')}

    def cands(self, got, f):
        out = [x for x in self.A.leaves(got.r) if f(x)]
        return sorted(set(out), key=lambda x: x.id)


def judge(out, S, got, wants, rule, site, key, msg, lab):
    """got must equal one of the alternatives `wants`"""
    out.ob(rule)
    try:
        if any(got.same(w) for w in wants):
            out.ob('proved equal')
            return True
        if S.known(got, wants):
            out.flag(rule, site, key, f'{msg}: {S.A.show(got.r)[:150]} '
                     f'instead of ' + (S.A.show(wants[0].r)[:150] if wants
                                       else 'the formula') + f' ({lab})',
                     lab)
    except TooBig:
        pass
    return False


def parts(x):
    return set(t.subterms(x).values())


def runs(R, out, key, cap=None):
    if key not in all_entries(R):
        return
    E, cfgs = configs(R, key, cap)
    for lab, cfg in cfgs:
        r = run_entry(R, E, cfg, None, lab)
        done(out, r)
        if r.out is not None:
            yield E, cfg, r, lab


V = lambda S, n: S(mk('in', n))  # noqa: E731

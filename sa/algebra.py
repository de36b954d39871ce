"""Equality of closed formulas.

Value terms are brought into the form of a quotient of generalised
polynomials over atoms (inputs, array elements, reductions, logarithms, ...).
Reductions are linear: sums over elements are expanded and scalars taken out
of them, averages are quotients of sums.  Logarithms and exponentials are
split; two function atoms are the same when their arguments are.  Equality is
decided by cross-multiplication; nothing is evaluated numerically."""
from fractions import Fraction
from . import terms as t
from .terms import T, mk

F1, F0 = Fraction(1), Fraction(0)
ARRAYS = {'arr', 'list', 'series', 'dt', 'df', 'col'}
ELEM = {'sel', 'take', 'slice', 'diff', 'map', 'argsort', 'full', 'col',
        'cmp', 'not', 'and', 'or', 'eq', 'phi', 'list', 'setitem'}
SUMS = {'numpy.sum', 'numpy.nansum', 'builtins.sum', 'numpy.count_nonzero',
        'math.fsum'}
MEANS = {'numpy.mean', 'numpy.average', 'numpy.nanmean', 'statistics.mean',
         'statistics.fmean'}


class TooBig(Exception):
    pass


def factor(n):
    out, p = {}, 2
    while p * p <= n and p < 10000:
        while n % p == 0:
            out[p] = out.get(p, 0) + 1
            n //= p
        p += 1
    if n > 1:
        out[n] = out.get(n, 0) + 1
    return out


class Alg:
    """one space of atoms"""

    def __init__(self, I=None, array=None, decide=None):
        self.I = I
        self.atoms = []          # id -> (kind, payload, is_array)
        self.index = {}
        self.funs = {}           # name -> [(args, id)]
        self.memo = {}
        self.is_in_array = array
        self.decide = decide
        self.arrattrs = set()    # names of columns
        self.alias = {}          # term -> Rat given by the specification

    # ------------------------------------------------------------- atoms
    def atom(self, kind, payload, arr):
        k = (kind, payload)
        i = self.index.get(k)
        if i is None:
            i = self.index[k] = len(self.atoms)
            self.atoms.append((kind, payload, arr))
        return i

    def fun(self, name, args, arr=None):
        """id of the function atom name(args), args being quotients"""
        L = self.funs.setdefault((name, len(args)), [])
        for a, i in L:
            if all(self.same(x, y) for x, y in zip(a, args)):
                return i
        if arr is None:
            arr = any(self.has_array(x) for x in args)
        i = len(self.atoms)
        self.atoms.append(('fun', (name, tuple(args)), arr))
        L.append((tuple(args), i))
        return i

    def arr(self, i):
        return self.atoms[i][2]

    def has_array(self, r):
        return any(self.arr(i) for p in r for m in p for i, e in m)

    # ------------------------------------------------------- polynomials
    def pmul(self, p, q):
        if len(p) * len(q) > 20000:
            raise TooBig
        out = {}
        for m, c in p.items():
            for n, d in q.items():
                k = dict(m)
                for i, e in n:
                    k[i] = k.get(i, F0) + e
                k = tuple(sorted((i, e) for i, e in k.items() if e))
                out[k] = out.get(k, F0) + c * d
        return {k: v for k, v in out.items() if v}

    def padd(self, p, q, s=1):
        out = dict(p)
        for m, c in q.items():
            out[m] = out.get(m, F0) + s * c
        return {k: v for k, v in out.items() if v}

    def expand(self, num, den):
        """replace whole powers of sums by their expansion"""
        for _ in range(50):
            hit = None
            for p in (num, den):
                for m in p:
                    for i, e in m:
                        k = self.atoms[i][0]
                        if k in ('poly', 'prime') and abs(e) >= 1:
                            hit = i
            if hit is None:
                return num, den
            k, pay, _a = self.atoms[hit]
            base = dict(pay) if k == 'poly' else {(): Fraction(pay)}
            # multiply both sides with base^n so that exponents get into
            # [0, 1)
            n = 0
            for p in (num, den):
                for m in p:
                    for i, e in m:
                        if i == hit and e <= -1:
                            n = max(n, -int(e // 1) if e % 1 == 0
                                    else int(-e))
            num = self._raise(num, hit, n, base)
            den = self._raise(den, hit, n, base)
        raise TooBig

    def _raise(self, p, i, n, base):
        out = {}
        for m, c in p.items():
            d = dict(m)
            e = d.pop(i, F0) + n
            w = int(e // 1) if e >= 0 else 0
            r = e - w
            if r:
                d[i] = r
            q = {tuple(sorted(d.items())): c}
            for _ in range(w):
                q = self.pmul(q, base)
            out = self.padd(out, q)
        return out

    # --------------------------------------------------------- quotients
    def rat(self, num, den=None):
        den = den or {(): F1}
        num, den = self.expand(num, den)
        if len(den) == 1:
            (m, c), = den.items()
            inv = {tuple((i, -e) for i, e in m): 1 / c}
            num, den = self.pmul(num, inv), {(): F1}
        elif len(num) * len(den) < 600:
            q = self.divide(num, den)
            if q is not None:
                return (q, {(): F1})
            if len(num) > 1:
                q = self.divide(den, num)
                if q is not None:
                    return ({(): F1}, q)
        return (num, den)

    def divide(self, p, q):
        """p / q if it is a polynomial"""
        if not p:
            return {}

        def key(m):
            return tuple(sorted(m, reverse=True))
        lead = max(q, key=key)
        inv = {i: -e for i, e in lead}
        out, rest = {}, dict(p)
        for _ in range(2 * len(p) + 4):
            if not rest:
                return out
            m = max(rest, key=key)
            d = dict(m)
            for i, e in inv.items():
                d[i] = d.get(i, F0) + e
            k = tuple(sorted((i, e) for i, e in d.items() if e))
            c = rest[m] / q[lead]
            out[k] = out.get(k, F0) + c
            n = self.padd(rest, self.pmul({k: c}, q), -1)
            if m in n:
                return None
            rest = n
        return out if not rest else None

    def const(self, c):
        c = Fraction(c)
        return ({(): c} if c else {}, {(): F1})

    def of_atom(self, i):
        return ({((i, F1),): F1}, {(): F1})

    def add(self, x, y, s=1):
        if x[1] == y[1]:
            return self.rat(self.padd(x[0], y[0], s), x[1])
        return self.rat(self.padd(self.pmul(x[0], y[1]),
                                  self.pmul(y[0], x[1]), s),
                        self.pmul(x[1], y[1]))

    def sub(self, x, y):
        return self.add(x, y, -1)

    def mul(self, x, y):
        return self.rat(self.pmul(x[0], y[0]), self.pmul(x[1], y[1]))

    def div(self, x, y):
        return self.mul(x, self.power(y, -F1))

    def same(self, x, y):
        d = self.padd(self.pmul(x[0], y[1]), self.pmul(y[0], x[1]), -1)
        if not d:
            return True
        try:
            n, _ = self.expand(d, {(): F1})
        except TooBig:
            return False
        return not n

    def content(self, p, signed=False):
        """(positive coefficient, common monomial, rest); the sign of the
        rest is dropped when not `signed` (arguments of logarithms and roots
        are positive)"""
        lead = abs(p[min(p)])
        common = None
        for m in p:
            d = dict(m)
            common = d if common is None else {
                i: min(e, d[i]) for i, e in common.items() if i in d}
            if common is not None:
                common = dict(common)
        # negative exponents of single monomials
        for i in {i for m in p for i, e in m if e < 0}:
            common[i] = min(dict(m).get(i, F0) for m in p)
        cm = tuple(sorted((i, e) for i, e in common.items() if e))
        rest = self.pmul(p, {tuple((i, -e) for i, e in cm): 1 / lead})
        lead2 = rest[min(rest)]
        if signed:
            lead2 = abs(lead2)
        if lead2 != 1:
            rest = {m: c / lead2 for m, c in rest.items()}
            lead = abs(lead * lead2)
        return lead, cm, rest

    def polyatom(self, p):
        arr = any(self.arr(i) for m in p for i, e in m)
        return self.atom('poly', tuple(sorted(p.items())), arr)

    def ppow(self, p, e):
        """p^e as quotient for a polynomial p"""
        if e == 0:
            return self.const(1)
        if not p:
            return self.const(0) if e > 0 else \
                self.of_atom(self.atom('inf', 0, False))
        if e.denominator == 1 and e > 0 and (e < 8 or len(p) == 1):
            q = {(): F1}
            for _ in range(int(e)):
                q = self.pmul(q, p)
            return self.rat(q)
        lead, cm, rest = self.content(p, e.denominator == 1)
        out = {tuple((i, x * e) for i, x in cm): F1}
        if e.denominator == 1:
            out = self.pmul(out, {(): Fraction(lead) ** int(e)})
        else:
            d = []
            for n, s in ((lead.numerator, 1), (lead.denominator, -1)):
                for q, k in factor(n).items():
                    d.append((self.atom('prime', q, False), s * k * e))
            out = self.pmul(out, {tuple(sorted(d)): F1})
        if rest != {(): F1}:
            if e.denominator == 1:
                q = {(): F1}
                for _ in range(int(abs(e))):
                    q = self.pmul(q, rest)
                return self.rat(self.pmul(out, q)) if e > 0 else \
                    self.rat(out, q)
            out = self.pmul(out, {((self.polyatom(rest), e),): F1})
        return self.rat(out)

    def power(self, x, e):
        e = Fraction(e)
        if x[1] == {(): F1}:
            return self.ppow(x[0], e)
        if e.denominator == 1 and e < 0:
            return self.power((x[1], x[0]), -e)
        x = self.signs(x)
        a, b = self.ppow(x[0], e), self.ppow(x[1], -e)
        return self.mul(a, b)

    # ------------------------------------------------- logarithm and exp
    def L10(self):
        return self.of_atom(self.atom('log', 10, False))

    def logn(self, n):
        """log of a positive rational"""
        out = self.const(0)
        for q, s in ((n.numerator, 1), (n.denominator, -1)):
            f = factor(q)
            k5 = f.pop(5, 0)
            if k5:
                out = self.add(out, self.mul(self.const(s * k5), self.L10()))
                f[2] = f.get(2, 0) - k5
            for p, k in f.items():
                a = self.of_atom(self.atom('log', p, False))
                out = self.add(out, self.mul(self.const(s * k), a))
        return out

    def logp(self, p):
        if not p:
            return self.of_atom(self.atom('log', 0, False))
        lead, cm, rest = self.content(p)
        out = self.logn(lead)
        for i, e in cm:
            k, pay, arr = self.atoms[i]
            if k == 'exp':
                a = ({pay: F1}, {(): F1})
            elif k == 'prime':
                a = self.logn(Fraction(pay))
            elif k == 'poly':
                a = self.logp(dict(pay))
            else:
                a = self.of_atom(self.fun('log', [self.of_atom(i)]))
            out = self.add(out, self.mul(self.const(e), a))
        if rest != {(): F1}:
            out = self.add(out, self.of_atom(self.fun(
                'log', [self.rat(rest)])))
        return out

    def signs(self, x):
        """the same quotient with a positive first coefficient"""
        if x[1] != {(): F1} and x[0] and x[0][min(x[0])] < 0:
            return ({m: -c for m, c in x[0].items()},
                    {m: -c for m, c in x[1].items()})
        return x

    def log(self, x):
        x = self.signs(x)
        return self.sub(self.logp(x[0]), self.logp(x[1]))

    def exp(self, x):
        if x[1] != {(): F1}:
            return self.of_atom(self.fun('exp', [x]))
        out = self.const(1)
        for m, c in x[0].items():
            if len(m) == 1 and m[0][1] == 1:
                k, pay, arr = self.atoms[m[0][0]]
                if k == 'fun' and pay[0] == 'log':
                    out = self.mul(out, self.power(pay[1][0], c))
                    continue
                if k == 'log' and pay:
                    out = self.mul(out, self.power(self.const(pay), c))
                    continue
            arr = any(self.arr(i) for i, e in m)
            out = self.mul(out, ({((self.atom('exp', m, arr), c),): F1},
                                 {(): F1}))
        return out

    # ------------------------------------------------------- reductions
    def length(self, x):
        """number of elements of an element-wise quotient"""
        ids = sorted(i for p in x for m in p for i, e in m if self.arr(i))
        ls = [self.len_atom(i) for i in ids]
        for r in ls:
            return r
        return self.of_atom(self.atom('len', 'scalar', False))

    def len_atom(self, i):
        k, pay, _ = self.atoms[i]
        if k == 'term':
            return self.len_term(pay)
        if k == 'fun':
            for a in pay[1]:
                if self.has_array(a):
                    return self.length(a)
        if k in ('poly', 'exp'):
            p = dict(pay) if k == 'poly' else {pay: F1}
            return self.length((p, {(): F1}))
        return self.of_atom(self.atom('len', i, False))

    def len_term(self, x):
        op = x.op
        if op == 'sel':
            return self.total(self.to(x.a[1]))
        if op == 'take':
            return self.len_term(x.a[1])
        if op == 'nz':
            return self.total(self.to(x.a[0]))
        if op == 'diff':
            return self.sub(self.len_term(x.a[0]), self.const(1))
        if op == 'slice' and x.a[1].op == 'num' and x.a[2] is t.NONE \
                and x.a[3] in (t.ONE, t.NONE):
            n = x.a[1].a[0]
            if n >= 0:
                return self.sub(self.len_term(x.a[0]), self.const(n))
        if op == 'slice' and x.a[1] in (t.NONE, t.ZERO) and x.a[2].op == \
                'num' and x.a[2].a[0] < 0 and x.a[3] in (t.ONE, t.NONE):
            return self.add(self.len_term(x.a[0]), self.const(x.a[2].a[0]))
        if op == 'argsort':
            return self.len_term(x.a[0])
        if op in ('lin', 'mono', 'exp10', 'not', 'cmp', 'eq', 'and', 'or',
                  'astype') or op == 'call' and x.a[0] in ELEMCALLS:
            r = self.to(x)
            ids = sorted(i for p in r for m in p for i, e in m
                         if self.arr(i))
            for i in ids:
                if self.atoms[i][0] != 'term' or self.atoms[i][1] is not x:
                    return self.len_atom(i)
            for y in self.parts(x):
                if self.array_term(y):
                    return self.len_term(y)
        if op == 'full':
            return self.to(x.a[0])
        if op == 'in' or op == 'col':
            return self.of_atom(self.atom('len', 'events', False))
        return self.of_atom(self.atom('len', x, False))

    def parts(self, x):
        out = []
        for y in x.a:
            if isinstance(y, T):
                out.append(y)
            elif isinstance(y, tuple):
                for z in y:
                    if isinstance(z, T):
                        out.append(z)
                    elif isinstance(z, tuple) and z and isinstance(z[0], T):
                        out.append(z[0])
        return out

    def total(self, x):
        """sum over the elements"""
        num, den = x
        if any(self.arr(i) for m in den for i, e in m):
            i = self.polyatom(den) if len(den) > 1 else None
            if i is not None:
                num = self.pmul(num, {((i, -F1),): F1})
            den = {(): F1}
        out = {}
        n = None
        for m, c in num.items():
            sc = tuple((i, e) for i, e in m if not self.arr(i))
            el = tuple((i, e) for i, e in m if self.arr(i))
            if el:
                s = self.of_atom(self.atom('sum', el, False))
            else:
                n = n or self.length(x)
                s = n
            q = self.pmul({sc: c}, s[0])
            if s[1] != {(): F1}:
                return self.of_atom(self.fun('SUM', [x], False))
            out = self.padd(out, q)
        return self.rat(out, den)

    def mean(self, x, w=None):
        if not self.has_array(x) and (w is None or not self.has_array(w)):
            return x
        if w is None:
            return self.div(self.total(x), self.length(x))
        return self.div(self.total(self.mul(x, w)), self.total(
            w if self.has_array(w) else self.mul(w, self.ones(x))))

    def ones(self, x):
        return self.const(1)

    def var(self, x, w=None, ddof=0):
        d = self.sub(x, self.mean(x, w))
        v = self.mean(self.mul(d, d), w)
        if ddof:
            n = self.length(x)
            v = self.div(self.mul(v, n), self.sub(n, self.const(ddof)))
        return v

    # ------------------------------------------------------------- terms
    def array_term(self, x):
        if x.op in ('lin', 'mono', 'exp10', 'not', 'cmp', 'eq', 'and', 'or',
                    'phi', 'astype') or x.op == 'call' and x.a[0] in \
                ELEMCALLS:
            return any(self.array_term(y) for y in self.subs(x))
        if x.op in ('sel', 'take', 'slice', 'diff', 'argsort', 'full', 'map',
                    'nz'):
            return True
        if x.op == 'in':
            if self.is_in_array is not None:
                r = self.is_in_array(x.a[0])
                if r is not None:
                    return r
            return self.I is not None and self.I.kinds.get(x.a[0]) in ARRAYS
        if x.op == 'col':
            return True
        if x.op == 'attr':
            return x.a[1] in self.arrattrs
        if x.op == 'item':
            return x.a[0].op == 'call' and x.a[0].a[0] == 'numpy.histogram'
        if x.op == 'call':
            n = x.a[0]
            return n in ARRCALLS
        return x.op == 'setitem' or x.op == 'fold' and len(x.a) > 3

    def subs(self, x):
        if x.op == 'lin':
            return [y for y, c in x.a[1]]
        if x.op == 'mono':
            return [y for y, c in x.a[0]]
        if x.op == 'call':
            return list(x.a[1]) + [v for k, v in x.a[2]]
        return [y for y in x.a if isinstance(y, T)]

    def push(self, x, f):
        """index an element-wise expression"""
        if x.op == 'lin':
            out = t.num(x.a[0])
            for y, c in x.a[1]:
                out = t.add(out, t.mul(t.num(c), self.push(y, f)))
            return out
        if x.op == 'mono':
            out = t.ONE
            for y, e in x.a[0]:
                out = t.mul(out, t.power(self.push(y, f), t.num(e)))
            return out
        if x.op == 'exp10':
            return mk('exp10', self.push(x.a[0], f))
        if x.op == 'call' and x.a[0] in ELEMCALLS and not x.a[2]:
            return mk('call', x.a[0], tuple(self.push(y, f)
                                            for y in x.a[1]), x.a[2])
        if not self.array_term(x):
            return x
        return f(x)

    def to(self, x):
        r = self.memo.get(x)
        if r is None:
            r = self.memo[x] = self._to(x)
        return r

    def leaf(self, x):
        return self.of_atom(self.atom('term', x, self.array_term(x)))

    def _to(self, x):
        if x in self.alias:
            return self.alias[x]
        op = x.op
        if op == 'num':
            return self.const(x.a[0])
        if op == 'lin':
            out = self.const(x.a[0])
            for y, c in x.a[1]:
                out = self.add(out, self.mul(self.const(c), self.to(y)))
            return out
        if op == 'mono':
            out = self.const(1)
            for y, e in x.a[0]:
                out = self.mul(out, self.power(self.to(y), e))
            return out
        if op == 'ext' and x.a[0] in ('numpy.e', 'math.e', 'scipy.e'):
            return self.exp(self.const(1))
        if op == 'exp10':
            return self.exp(self.mul(self.to(x.a[0]), self.L10()))
        if op == 'len':
            return self.len_term(x.a[0])
        if op == 'phi' and self.decide is not None:
            d = self.decide(x.a[0])
            if d is not None:
                return self.to(x.a[1] if d else x.a[2])
        if op == 'phi':
            if x.a[1] is x.a[2]:
                return self.to(x.a[1])
            return self.of_atom(self.fun('phi', [
                self.to(y) for y in x.a]))
        if op in ('sel', 'take', 'slice', 'get') and x.a[0].op in (
                'lin', 'mono', 'exp10', 'call', 'phi', 'full'):
            y = x.a[0]
            if y.op == 'phi' and self.decide is not None:
                d = self.decide(y.a[0])
                if d is not None:
                    y = y.a[1] if d else y.a[2]
            if y.op == 'full':
                return self.to(y.a[1])
            z = self.push(y, lambda v: mk(op, v, *x.a[1:]))
            if z is not x:
                return self.to(z)
        if op == 'diff':
            y = x.a[0]
            if y.op in ('lin', 'mono'):
                r = self.to(y)
                if r[1] == {(): F1} and all(
                        sum(1 for i, e in m if self.arr(i)) <= 1 and all(
                            e == 1 for i, e in m if self.arr(i))
                        for m in r[0]):
                    out = {}
                    for m, c in r[0].items():
                        el = [i for i, e in m if self.arr(i)]
                        if not el:
                            continue
                        k, pay, a = self.atoms[el[0]]
                        if k != 'term':
                            return self.leaf(x)
                        d = self.atom('term', mk('diff', pay), True)
                        mm = tuple(sorted([(i, e) for i, e in m
                                           if i != el[0]] + [(d, F1)]))
                        out = self.padd(out, {mm: c})
                    return self.rat(out)
        if op == 'slice' and is_rev(x):
            y = x.a[0]
            if is_rev(y):
                return self.to(y.a[0])
            if y.op == 'call' and y.a[0] == 'numpy.cumsum' and len(
                    y.a[1]) == 1 and not y.a[2]:
                z = self.to(y.a[1][0])
                if is_rev(y.a[1][0]):
                    # sums from the element on
                    z = self.to(y.a[1][0].a[0])
                    return self.add(self.sub(self.total(z), self.of_atom(
                        self.fun('numpy.cumsum', [z], True))), z)
        if op == 'call' and x.a[0] in ('numpy.flip', 'numpy.flipud') and \
                len(x.a[1]) == 1 and not x.a[2]:
            return self.to(mk('slice', x.a[1][0], t.NONE, t.NONE,
                              t.num(-1)))
        if op == 'attr' and x.a[1] == 'values' and self.array_term(x.a[0]):
            return self.to(x.a[0])
        if op == 'cmp':
            return self.comparison(x)
        if op == 'not':
            return self.of_atom(self.fun('not', [self.to(x.a[0])]))
        if op in ('and', 'or'):
            ids = sorted(self.fun('bool', [self.to(y)]) for y in x.a)
            return self.of_atom(self.atom(op, tuple(ids), any(
                self.arr(i) for i in ids)))
        if op == 'astype' and self.floaty(x):
            return self.to(x.a[0])
        if op == 'call':
            r = self.call(x)
            if r is not None:
                return r
        return self.leaf(x)

    def floaty(self, x):
        return any(isinstance(y, T) and 'float' in str(y.a[0])
                   for y in x.a[1:] if isinstance(y, T) and y.a)

    def comparison(self, x):
        r = self.to(x.a[1])
        num, den = r
        if den == {(): F1} and num:
            lead = abs(num[min(num)])
            r = ({m: c / lead for m, c in num.items()}, den)
        return self.of_atom(self.fun('cmp' + x.a[0], [r]))

    def call(self, x):
        n, args, kw = x.a[0], x.a[1], dict(x.a[2])
        last = n.split('.')[-1]
        if not args:
            return None
        a = args[0]
        ax = kw.get('axis')
        if ax is not None and ax in (t.ZERO, t.num(-1)):
            kw.pop('axis')
        if n in SUMS and not kw and len(args) == 1:
            r = self.to(a)
            if not self.has_array(r) and n != 'numpy.count_nonzero' and \
                    not self.array_term(a):
                if a.op in ('list', 'tuple'):
                    out = self.const(0)
                    for y in a.a:
                        if not isinstance(y, T):
                            return None
                        out = self.add(out, self.to(y))
                    return out
                return self.of_atom(self.fun('SUM', [r], False))
            return self.total(r)
        if n in MEANS and len(args) == 1 and not set(kw) - {'weights'}:
            w = kw.get('weights')
            if w is t.NONE:
                w = None
            r = self.to(a)
            if not self.has_array(r):
                return None
            return self.mean(r, None if w is None else self.to(w))
        if n in ('numpy.var', 'numpy.nanvar', 'numpy.std', 'numpy.nanstd') \
                and not set(kw) - {'ddof'} and len(args) == 1:
            d = kw.get('ddof', t.ZERO)
            r = self.to(a)
            if d.op != 'num' or not self.has_array(r):
                return None
            v = self.var(r, None, d.a[0])
            return v if 'var' in n else self.power(v, Fraction(1, 2))
        if n in ('numpy.dot', 'numpy.inner', 'numpy.vdot') and len(args) \
                == 2:
            return self.total(self.mul(self.to(args[0]), self.to(args[1]))) \
                if self.array_term(args[0]) and self.array_term(args[1]) \
                else None
        if n in ('numpy.exp', 'numpy.expm1') and not kw:
            r = self.exp(self.to(a))
            return r if last == 'exp' else self.sub(r, self.const(1))
        if n in ('numpy.exp2',) and not kw:
            return self.exp(self.mul(self.to(a), self.logn(Fraction(2))))
        if n in ('numpy.log', 'numpy.log10', 'numpy.log2', 'numpy.log1p') \
                and not kw:
            y = self.to(a)
            if last == 'log1p':
                y = self.add(y, self.const(1))
            r = self.log(y)
            if last == 'log10':
                r = self.div(r, self.L10())
            if last == 'log2':
                r = self.div(r, self.logn(Fraction(2)))
            if len(args) == 2:
                r = self.div(r, self.log(self.to(args[1])))
            return r
        if n == 'numpy.sqrt':
            return self.power(self.to(a), Fraction(1, 2))
        if n == 'numpy.power' and len(args) == 2:
            b = args[1]
            if b.op == 'num':
                return self.power(self.to(a), b.a[0])
            return self.exp(self.mul(self.to(b), self.log(self.to(a))))
        if n in ('numpy.float64', 'builtins.float', 'numpy.asarray',
                 'numpy.array', 'numpy.atleast_1d', 'numpy.squeeze',
                 'numpy.asanyarray', 'numpy.ravel') and len(args) == 1:
            return self.to(a)
        if n in ('numpy.cos', 'numpy.sin', 'numpy.tan', 'numpy.arcsin',
                 'numpy.arctan2', 'numpy.arccos', 'numpy.arctan',
                 'numpy.abs', 'numpy.floor', 'numpy.ceil', 'numpy.round',
                 'numpy.rint', 'numpy.clip', 'numpy.max', 'numpy.min',
                 'numpy.median', 'numpy.cumsum', 'numpy.minimum',
                 'numpy.maximum', 'numpy.argmax', 'numpy.argmin',
                 'numpy.percentile', 'numpy.quantile', 'numpy.prod',
                 'builtins.round', 'builtins.int', 'numpy.ptp',
                 'numpy.heaviside', 'numpy.sign'):
            ks = sorted(kw)
            r = [self.to(y) for y in args] + [self.to(kw[k]) for k in ks]
            arr = self.array_term(x)
            return self.of_atom(self.fun('|'.join([n] + ks), r, arr))
        return None

    # -------------------------------------------------------- inspection
    def leaves(self, r, seen=None):
        """term atoms a quotient is made of"""
        seen = set() if seen is None else seen
        for p in r:
            for m in p:
                for i, e in m:
                    self._leaves(i, seen)
        return seen

    def _leaves(self, i, seen):
        k, pay, _ = self.atoms[i]
        if k == 'term':
            seen.add(pay)
        elif k == 'fun':
            for a in pay[1]:
                self.leaves(a, seen)
        elif k == 'poly':
            for m, c in pay:
                for j, e in m:
                    self._leaves(j, seen)
        elif k in ('exp', 'sum'):
            for j, e in pay:
                self._leaves(j, seen)
        elif k in ('and', 'or'):
            for j in pay:
                self._leaves(j, seen)
        elif k == 'len' and isinstance(pay, T):
            seen.add(pay)

    def names(self, r, seen=None):
        """names of the functions a quotient is made of"""
        seen = {} if seen is None else seen
        for p in r:
            for m in p:
                for i, e in m:
                    if i in seen:
                        continue
                    k, pay, _ = self.atoms[i]
                    seen[i] = pay[0] if k == 'fun' else None
                    if k == 'fun':
                        for a in pay[1]:
                            self.names(a, seen)
                    elif k == 'poly':
                        self.names((dict(pay), {}), seen)
                    elif k in ('exp', 'sum'):
                        self.names(({pay: F1}, {}), seen)
                    elif k in ('and', 'or'):
                        seen[i] = k
                        self.names(({((j, F1),): F1 for j in pay}, {}), seen)
        return {x for x in seen.values() if x}

    def show(self, r, d=3):
        def mono(m, c):
            s = '*'.join(self.show_atom(i, d) + ('' if e == 1 else f'^{e}')
                         for i, e in m)
            if c == 1 and s:
                return s
            return f'{float(c):.6g}' + ('*' + s if s else '')
        n = ' + '.join(mono(m, c) for m, c in sorted(r[0].items())) or '0'
        if r[1] == {(): F1}:
            return n
        q = ' + '.join(mono(m, c) for m, c in sorted(r[1].items()))
        return f'({n}) / ({q})'

    def show_atom(self, i, d):
        k, pay, _ = self.atoms[i]
        if d <= 0:
            return '..'
        if k == 'term':
            return t.show(pay, d)
        if k == 'fun':
            return f'{pay[0]}({", ".join(self.show(a, d - 1) for a in pay[1])})'
        if k == 'poly':
            return f'({self.show((dict(pay), {(): F1}), d - 1)})'
        if k in ('exp', 'sum'):
            return f'{k}({self.show(({pay: F1}, {(): F1}), d - 1)})'
        if k in ('prime', 'log'):
            return f'{k}{pay}'
        return k


def is_rev(x):
    if x.op == 'call' and x.a[0] in ('numpy.flip', 'numpy.flipud'):
        return len(x.a[1]) == 1 and not x.a[2]
    return x.op == 'slice' and x.a[1] is t.NONE and x.a[2] is t.NONE and \
        x.a[3] is t.num(-1)


class Ex:
    """formula with the usual operators"""

    def __init__(self, A, r):
        self.A, self.r = A, r

    def _o(self, y):
        return y.r if isinstance(y, Ex) else self.A.const(y)

    def __add__(self, y):
        return Ex(self.A, self.A.add(self.r, self._o(y)))

    def __sub__(self, y):
        return Ex(self.A, self.A.sub(self.r, self._o(y)))

    def __mul__(self, y):
        return Ex(self.A, self.A.mul(self.r, self._o(y)))

    def __truediv__(self, y):
        return Ex(self.A, self.A.div(self.r, self._o(y)))

    def __radd__(self, y):
        return Ex(self.A, self.A.add(self._o(y), self.r))

    def __rsub__(self, y):
        return Ex(self.A, self.A.sub(self._o(y), self.r))

    def __rmul__(self, y):
        return Ex(self.A, self.A.mul(self._o(y), self.r))

    def __rtruediv__(self, y):
        return Ex(self.A, self.A.div(self._o(y), self.r))

    def __pow__(self, e):
        return Ex(self.A, self.A.power(self.r, e))

    def __neg__(self):
        return Ex(self.A, self.A.sub(self.A.const(0), self.r))

    def log(self):
        return Ex(self.A, self.A.log(self.r))

    def log10(self):
        return Ex(self.A, self.A.div(self.A.log(self.r), self.A.L10()))

    def exp(self):
        return Ex(self.A, self.A.exp(self.r))

    def exp10(self):
        return Ex(self.A, self.A.exp(self.A.mul(self.r, self.A.L10())))

    def sqrt(self):
        return self ** Fraction(1, 2)

    def sum(self):
        return Ex(self.A, self.A.total(self.r))

    def mean(self, w=None):
        return Ex(self.A, self.A.mean(self.r, None if w is None else w.r))

    def n(self):
        return Ex(self.A, self.A.length(self.r))

    def same(self, y):
        return self.A.same(self.r, self._o(y))


ELEMCALLS = {'numpy.' + x for x in (
    'exp', 'log', 'log10', 'log2', 'log1p', 'expm1', 'sqrt', 'power', 'abs',
    'sin', 'cos', 'tan', 'arcsin', 'arctan2', 'arctan', 'arccos', 'floor',
    'ceil', 'round', 'rint', 'clip', 'minimum', 'maximum', 'isnan', 'isinf',
    'isfinite', 'exp2', 'sign')} | {'where3'}
ARRCALLS = {'numpy.' + x for x in (
    'cumsum', 'arange', 'unique', 'sort', 'linspace', 'concatenate', 'ones',
    'zeros', 'searchsorted', 'diff', 'isin', 'flip')}

"""Hash-consed value terms (global value numbering) and their algebra.

A term denotes a value computed by the analysed program as a function of its
inputs.  Nothing here runs the analysed code: terms are built from its syntax.
Equality of terms is equality of value numbers: equal terms denote equal
values; different terms may or may not.
"""
from fractions import Fraction
import math

_TABLE = {}
_COUNT = [0]


class T:
    __slots__ = ('op', 'a', 'id', '_h')

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o

    def __lt__(self, o):
        return self.id < o.id


def _key(x):
    if isinstance(x, T):
        return ('T', x.id)
    if isinstance(x, tuple):
        return ('t',) + tuple(_key(i) for i in x)
    return (type(x).__name__, x)


def mk(op, *a):
    k = (op,) + tuple(_key(x) for x in a)
    t = _TABLE.get(k)
    if t is None:
        t = T()
        t.op, t.a = op, a
        t.id = _COUNT[0]
        _COUNT[0] += 1
        _TABLE[k] = t
    return t


# ------------------------------------------------------------------ constants
def const(v):
    if isinstance(v, bool) or v is None or isinstance(v, (str, bytes)):
        return mk('const', v)
    if isinstance(v, int):
        return num(Fraction(v))
    if isinstance(v, float):
        if math.isnan(v) or math.isinf(v):
            return mk('const', repr(v) + '#float')
        return num(Fraction(repr(v)))
    if isinstance(v, Fraction):
        return num(v)
    return mk('const', repr(v))


def num(f):
    return mk('num', Fraction(f))


NONE = mk('const', None)
TRUE = mk('const', True)
FALSE = mk('const', False)
NAN = mk('const', 'nan#float')
UNBOUND = mk('unbound')
ONE = num(1)
ZERO = num(0)


def is_num(t):
    return t.op == 'num'


def pyval(t):
    """python constant of a constant term, or raise KeyError"""
    if t.op == 'num':
        f = t.a[0]
        return int(f) if f.denominator == 1 else float(f)
    if t.op == 'const':
        return t.a[0]
    raise KeyError


# ------------------------------------------------------------- linear algebra
def _lin_parts(t):
    """-> (const, {atom: coef})"""
    if t.op == 'num':
        return t.a[0], {}
    if t.op == 'lin':
        return t.a[0], {x: c for x, c in t.a[1]}
    return Fraction(0), {t: Fraction(1)}


def _mk_lin(c, d):
    d = {k: v for k, v in d.items() if v != 0}
    if not d:
        return num(c)
    if c == 0 and len(d) == 1:
        (k, v), = d.items()
        if v == 1:
            return k
    return mk('lin', c, tuple(sorted(d.items(), key=lambda kv: kv[0].id)))


def add(x, y, s=1):
    cx, dx = _lin_parts(x)
    cy, dy = _lin_parts(y)
    d = dict(dx)
    for k, v in dy.items():
        d[k] = d.get(k, 0) + s * v
    # x[1:] - x[:-1]  ==  diff(x)
    r = _fold_diff(d)
    return _mk_lin(cx + s * cy, r)


def _fold_diff(d):
    for k, v in list(d.items()):
        if k.op == 'slice' and v != 0 and k.a[1:] == (ONE, NONE, NONE):
            for k2, v2 in list(d.items()):
                if (k2.op == 'slice' and k2.a[0] is k.a[0] and v2 == -v
                        and k2.a[1] in (NONE, ZERO) and k2.a[3] is NONE
                        and k2.a[2] is num(-1)):
                    d = dict(d)
                    del d[k], d[k2]
                    q = mk('diff', k.a[0])
                    d[q] = d.get(q, 0) + v
                    return d
    return d


def sub(x, y):
    return add(x, y, -1)


def neg(x):
    return mul(num(-1), x)


def _mono_parts(t):
    """-> (coef, {atom: exponent})"""
    if t.op == 'num':
        return t.a[0], {}
    if t.op == 'lin' and t.a[0] == 0 and len(t.a[1]) == 1:
        (x, c), = t.a[1]
        c2, d = _mono_parts(x)
        return c * c2, d
    if t.op == 'mono':
        return Fraction(1), dict(t.a[0])
    if t.op == 'lin':
        # pull out the sign/scale of the first coefficient (content)
        lead = t.a[1][0][1]
        if lead != 1:
            return lead, {_mk_lin(t.a[0] / lead,
                                  {x: c / lead for x, c in t.a[1]}):
                          Fraction(1)}
    return Fraction(1), {t: Fraction(1)}


def _mk_mono(c, d):
    d = {k: v for k, v in d.items() if v != 0}
    if c == 0:
        return ZERO
    if not d:
        return num(c)
    if len(d) == 1 and next(iter(d.values())) == 1:
        x = next(iter(d))
    else:
        x = mk('mono', tuple(sorted(d.items(), key=lambda kv: kv[0].id)))
    if c == 1:
        return x
    cx, dx = _lin_parts(x)
    return _mk_lin(cx * c, {k: v * c for k, v in dx.items()})


def mul(x, y):
    if x.op == 'num' and y.op == 'lin' or y.op == 'num' and x.op == 'lin':
        k, l = (x, y) if x.op == 'num' else (y, x)
        c, d = _lin_parts(l)
        return _mk_lin(c * k.a[0], {a: v * k.a[0] for a, v in d.items()})
    cx, dx = _mono_parts(x)
    cy, dy = _mono_parts(y)
    d = dict(dx)
    for k, v in dy.items():
        d[k] = d.get(k, 0) + v
    return _mk_mono(cx * cy, d)


def power(x, y):
    if y.op == 'num':
        e = y.a[0]
        if e == 0:
            return ONE
        if e == 1:
            return x
        if x.op == 'num':
            v = x.a[0]
            if e.denominator == 1:
                if v == 0 and e < 0:
                    return mk('inf')
                if abs(e) < 400:
                    return num(v ** int(e))
            return mk('call', 'numpy.power', (x, y), ())
        c, d = _mono_parts(x)
        if c > 0 and e.denominator == 1 or c == 1:
            return _mk_mono(c ** int(e) if e.denominator == 1 else Fraction(1),
                            {k: v * e for k, v in d.items()})
        if e.denominator == 1:
            return _mk_mono(c ** int(e), {k: v * e for k, v in d.items()})
    if x.op == 'num' and x.a[0] == 10:
        return mk('exp10', y)
    return mk('call', 'numpy.power', (x, y), ())


def div(x, y):
    return mul(x, power(y, num(-1)))


# -------------------------------------------------------------- comparisons
def cmp(op, x, y):
    """op in < <= > >=, normalised to  lin OP 0  with OP in {>=, >}"""
    if op in ('<', '<='):
        x, y, op = y, x, {'<': '>', '<=': '>='}[op]
    d = sub(x, y)
    if d.op == 'num':
        v = d.a[0]
        return const(v > 0 if op == '>' else v >= 0)
    return mk('cmp', op, d)


def eq(x, y):
    if x is y:
        return TRUE if x.op in ('const', 'num') else mk('eqself', x)
    if x.op in ('const', 'num') and y.op in ('const', 'num'):
        return const(x is y)
    if y.id < x.id:
        x, y = y, x
    return mk('eq', x, y)


def isnone(x):
    if x is NONE:
        return TRUE
    if x.op in ('const', 'num', 'lin', 'mono', 'cmp', 'call', 'exp10', 'sel',
                'take', 'slice', 'argsort', 'nz', 'diff', 'len', 'not', 'eq',
                'and', 'or', 'list', 'tuple', 'dict', 'inst', 'map', 'setitem'):
        if not (x.op == 'call' and x.a[0].startswith('?')):
            return FALSE
    if x.op == 'phi':
        a, b = isnone(x.a[1]), isnone(x.a[2])
        if a is b:
            return a
        return phi(x.a[0], a, b)
    if x.op == 'ext' and x.a[0] in ('pandas.NaT', 'numpy.nan', 'pandas.NA'):
        return FALSE
    return mk('isnone', x)


def not_(x):
    if x is TRUE:
        return FALSE
    if x is FALSE:
        return TRUE
    if x.op == 'not':
        return x.a[0]
    return mk('not', x)


def and_(*xs):
    out = []
    for x in xs:
        if x is FALSE:
            return FALSE
        if x is TRUE:
            continue
        for y in (x.a if x.op == 'and' else (x,)):
            if y not in out:
                out.append(y)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    for x in out:
        if not_(x) in out:
            return FALSE
    return mk('and', *sorted(out))


def or_(*xs):
    out = []
    for x in xs:
        if x is TRUE:
            return TRUE
        if x is FALSE:
            continue
        for y in (x.a if x.op == 'or' else (x,)):
            if y not in out:
                out.append(y)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    for x in out:
        if not_(x) in out:
            return TRUE
    return mk('or', *sorted(out))


def phi(c, x, y):
    if x is y:
        return x
    if c is TRUE:
        return x
    if c is FALSE:
        return y
    if c.op == 'not':
        return phi(c.a[0], y, x)
    if x is TRUE and y is FALSE:
        return c
    if x is FALSE and y is TRUE:
        return not_(c)
    # isnone(z) ? None : z  ==  z
    if c.op == 'isnone' and x is NONE and y is c.a[0]:
        return y
    if x.op == 'phi' and x.a[0] is c:
        x = x.a[1]
    if y.op == 'phi' and y.a[0] is c:
        y = y.a[2]
    if isbool(c):
        if x is c:
            x = TRUE
        if y is c:
            y = FALSE
        if x is TRUE and y is FALSE:
            return c
        if x is FALSE and y is TRUE:
            return not_(c)
    if x is y:
        return x
    return mk('phi', c, x, y)


# ----------------------------------------------------------- row selections
BOOL_OPS = {'cmp', 'eq', 'not', 'and', 'or', 'isnone', 'eqself', 'ne'}
BOOL_CALLS = {'numpy.isnan', 'numpy.isinf', 'numpy.isfinite', 'numpy.isin',
              'numpy.logical_and', 'numpy.logical_or', 'numpy.logical_not',
              'meth.isin', 'meth.isna', 'meth.isnull', 'meth.notna',
              'meth.notnull', 'meth.between', 'numpy.isclose',
              'builtins.isinstance', 'builtins.issubclass',
              'builtins.hasattr', 'meth.duplicated'}
INT_CALLS = {'numpy.arange', 'numpy.searchsorted', 'numpy.argmax',
             'numpy.argmin', 'builtins.len', 'numpy.argpartition',
             'numpy.digitize'}


def isbool(t):
    if t.op in BOOL_OPS or t in (TRUE, FALSE):
        return True
    if t.op == 'call':
        return t.a[0] in BOOL_CALLS
    if t.op in ('sel', 'take', 'slice', 'at', 'get', 'phi', 'fold', 'setitem',
                'mu'):
        i = 1 if t.op == 'phi' else 0
        if t.op == 'mu':
            b = t.a[1] if isinstance(t.a[1], T) else t.a[2]
            return isbool(b)
        if t.op == 'fold':
            return isbool(t.a[1])
        return isinstance(t.a[i], T) and isbool(t.a[i])
    if t.op == 'full':
        return isbool(t.a[1])
    return False


def isint(t):
    if t.op in ('nz', 'argsort', 'len', 'pos', 'it'):
        return True
    if t.op == 'num':
        return t.a[0].denominator == 1
    if t.op == 'call':
        if t.a[0] in INT_CALLS:
            return True
        if t.a[0] in ('meth.astype', 'builtins.int') and any(
                x.op == 'ext' and x.a[0] in ('builtins.int', 'numpy.int64')
                for x in t.a[1] if isinstance(x, T)):
            return True
    if t.op == 'astype':
        return t.a[1] in ('int', 'int64', 'int32', 'intp')
    if t.op in ('sel', 'take', 'slice', 'at', 'get'):
        return isint(t.a[0])
    if t.op == 'lin':
        return t.a[0].denominator == 1 and all(
            c.denominator == 1 and isint(x) for x, c in t.a[1])
    return False


def getitem(x, i):
    """value of x[i] for a mask, index array, position or slice i"""
    if x.op == 'const' and isinstance(x.a[0], str):
        if i.op == 'slc' and all(y is NONE or y.op == 'num' for y in i.a):
            return const(x.a[0][slice(*[None if y is NONE else int(y.a[0])
                                        for y in i.a])])
        if i.op == 'num' and -len(x.a[0]) <= int(i.a[0]) < len(x.a[0]):
            return const(x.a[0][int(i.a[0])])
    if i.op == 'slc':
        lo, hi, st = i.a
        if lo in (NONE, ZERO) and hi is NONE and st in (NONE, ONE):
            return x
        if lo is ZERO:
            lo = NONE
        if st is ONE:
            st = NONE
        return mk('slice', x, lo, hi, st)
    if i.op == 'nz':
        return getitem(x, i.a[0])
    if isbool(i):
        if x.op in ('full', 'zeros') and False:
            return x
        return mk('sel', x, i)
    if i.op in ('pos', 'at', 'it', 'num') or (
            i.op == 'lin' and all(a.op in ('pos', 'it', 'len')
                                  for a, _ in i.a[1])):
        if i.op == 'pos' and i.a[1] is x:
            return mk('at', x, i.a[0])
        if i.op == 'it' and i.a[1] is ZERO and i.a[3] is ONE and \
                i.a[2] is mk('len', x):
            return mk('at', x, i.a[0])
        return mk('get', x, i)
    # composition: x[(i[j])] == (x[i])[j]
    if isint(i):
        if i.op == 'take' and isint(i.a[0]):
            return getitem(getitem(x, i.a[0]), i.a[1])
        if i.op == 'sel' and isint(i.a[0]):
            return getitem(getitem(x, i.a[0]), i.a[1])
        if i.op == 'slice' and isint(i.a[0]):
            return mk('slice', getitem(x, i.a[0]), *i.a[1:])
        return mk('take', x, i)
    return mk('take', x, i)


def length(t):
    if t.op == 'list' or t.op == 'tuple':
        return num(len(t.a))
    if t.op in ('full',):
        return t.a[0]
    if t.op == 'const' and isinstance(t.a[0], str):
        return num(len(t.a[0]))
    return mk('len', t)


# -------------------------------------------------------------------- misc
def subterms(t, seen=None):
    """all subterms (DAG walk)"""
    seen = {} if seen is None else seen
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, T):
            if x.id in seen:
                continue
            seen[x.id] = x
            stack.extend(x.a)
        elif isinstance(x, tuple):
            stack.extend(x)
    return seen


_INS = {}


def inputs(t):
    """names of 'in' atoms occurring in t"""
    r = _INS.get(t.id)
    if r is None:
        r = frozenset(x.a[0] for x in subterms(t).values() if x.op == 'in')
        _INS[t.id] = r
    return r


def rewrite(t, f, memo=None):
    """bottom-up rewrite with smart re-construction"""
    memo = {} if memo is None else memo

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(i) for i in x)
        if not isinstance(x, T):
            return x
        if x.id in memo:
            return memo[x.id]
        if x.op == 'lin':
            r = num(x.a[0])
            for at, c in x.a[1]:
                r = add(r, mul(num(c), go(at)))
        elif x.op == 'mono':
            r = ONE
            for at, e in x.a[0]:
                r = mul(r, power(go(at), num(e)))
        else:
            r = mk(x.op, *[go(i) for i in x.a])
        r2 = f(r)
        r = r if r2 is None else r2
        memo[x.id] = r
        return r
    return go(t)


def show(t, depth=6):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return '(' + ', '.join(show(x, depth) for x in t) + ')'
        return str(t)
    if depth <= 0:
        return '..'
    d = depth - 1
    o, a = t.op, t.a
    if o == 'num':
        return str(pyval(t))
    if o == 'const':
        return repr(a[0])
    if o == 'in':
        return a[0]
    if o == 'ext':
        return a[0]
    if o == 'lin':
        s = []
        for x, c in a[1]:
            c = float(c)
            s.append((f'{c:+g}*' if abs(c) != 1 else '+-'[c < 0])
                     + show(x, d))
        if a[0] != 0:
            s.append(f'{float(a[0]):+g}')
        r = ' '.join(s)
        return '(' + (r[1:] if r[0] == '+' else r) + ')'
    if o == 'mono':
        return '*'.join(show(x, d) + ('' if e == 1 else f'^{e}')
                        for x, e in a[0])
    if o == 'cmp':
        return f'[{show(a[1], d)} {a[0]} 0]'
    if o == 'sel':
        return f'{show(a[0], d)}[?{show(a[1], d)}]'
    if o == 'take':
        return f'{show(a[0], d)}[@{show(a[1], d)}]'
    if o == 'slice':
        f = lambda z: '' if z is NONE else show(z, d)
        return f'{show(a[0], d)}[{f(a[1])}:{f(a[2])}' + (
            f':{f(a[3])}' if a[3] is not NONE else '') + ']'
    if o == 'call':
        args = [show(x, d) for x in a[1]] + [f'{k}={show(v, d)}'
                                             for k, v in a[2]]
        return f'{a[0]}({", ".join(args)})'
    return f'{o}(' + ', '.join(show(x, d) for x in a) + ')'

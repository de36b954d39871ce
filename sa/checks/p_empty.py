"""P25: too few events give NaN."""
from .. import terms as t
from ..terms import NONE
from ..spaces import SC
from .align import spaces_for
from .base import cut
from .common import class_tasks, class_runs, done, site_of, \
    entry_tasks, entry_runs
from ..entries import accessors

RULE = 'every estimator is interpreted with arrays of unknown length; every '\
       'reduction or lookup that raises on an empty array, reached in '\
       'calculate() or while an attribute is read, must lie under a path '\
       'condition that implies that the array has an entry, no explicit '\
       'error may depend on the number of events, and the constants the '\
       'estimate can take must be NaN'
ASSUMPTIONS = ['numpy.mean and unweighted numpy.average of an empty array '
               'are NaN', 'magnitudes are numbers (NaN only where filtered)']
METHODS = {'calculate', 'filter_nan', 'p_lilliefors'}
RAISES = {'min', 'max', 'amin', 'amax', 'argmin', 'argmax', 'nanmin',
          'nanmax', 'nanargmin', 'nanargmax', 'ptp', 'quantile',
          'percentile', 'nanpercentile', 'mode', 'fmin', 'reduce'}
NAN = ('nan', 'NaN', 'NAN')


def tasks(R, tier):
    yield from class_tasks(R)
    yield from entry_tasks(R, 8, keys=['estimate_b_kijko_smit'])


def permutation(i):
    """the index selects something from everything which is not empty"""
    if i.op == 'argsort':
        return True
    if i.op == 'slice':
        return permutation(i.a[0]) and i.a[1] is NONE and i.a[2] is NONE
    if i.op == 'phi':
        return permutation(i.a[1]) and permutation(i.a[2])
    if i.op == 'call':
        n = str(i.a[0])
        if n in ('numpy.arange', 'builtins.range') and len(i.a[1]) == 1:
            return i.a[1][0].op == 'len'
        return n in ('numpy.lexsort', 'numpy.flip', 'builtins.sorted') or \
            n.endswith('argsort') or n.endswith('.permutation')
    return False


class NonEmpty:
    """what a path condition says about the length of arrays"""

    def __init__(self, S, pc):
        self.S = S
        self.known = []
        for p in pc if isinstance(pc, (list, tuple)) else [pc]:
            self.fact(p)

    def fact(self, p):
        if not isinstance(p, t.T):
            return
        if p.op == 'and':
            for q in p.a:
                self.fact(q)
            return
        if p.op == 'not':
            q = p.a[0]
            if q.op == 'or':
                for z in q.a:
                    self.fact(t.not_(z))
            elif q.op == 'eq':
                # a length which is not zero; two sizes which differ
                for u, v in ((q.a[0], q.a[1]), (q.a[1], q.a[0])):
                    if u.op == 'num' and u.a[0] == 0:
                        self.size(v)
                    else:
                        self.size(u)
            elif q.op == 'cmp' and isinstance(q.a[1], t.T):
                self.size(t.neg(q.a[1]), '>=' if q.a[0] == '>' else '>')
            elif q.op == 'isnan' or q.op == 'call' and str(
                    q.a[0]).endswith('.isnan'):
                self.known.append(None)     # a test on the estimate
            return
        if p.op == 'cmp' and p.a[0] in ('>', '>='):
            # c + k*len(x) > 0 with k > 0 and c <= 0
            z = p.a[1]
            if isinstance(z, t.T):
                self.size(z, p.a[0])
        elif p.op == 'truth':
            self.size(p.a[0])

    def size(self, z, op='>'):
        """z is positive: whose length is it"""
        if z.op == 'len':
            self.known.append(z.a[0])
        elif z.op == 'attr' and z.a[1] == 'size':
            self.known.append(z.a[0])
        elif z.op == 'lin' and len(z.a[1]) == 1:
            y, c = z.a[1][0]
            k = z.a[0]
            if c > 0 and (k < 0 or k == 0 and op == '>'):
                self.size(y)
        elif z.op in ('and', 'or', 'any'):
            pass

    def holds(self, x, depth=0):
        if depth > 12:
            return False
        for y in self.known:
            if y is not None and (x is y or self.same(x, y)):
                return True
            if y is not None and self.inside(y, x):
                return True
        o, a = x.op, x.a
        if o == 'sel' and self.nonan(a[1]):
            return self.holds(a[0], depth + 1)
        if o == 'take' and permutation(a[1]):
            return self.holds(a[0], depth + 1)
        if o == 'slice' and a[1] is NONE and a[2] is NONE:
            return self.holds(a[0], depth + 1)
        if o == 'phi':
            return self.holds(a[1], depth + 1) and \
                self.holds(a[2], depth + 1)
        if o in ('lin',):
            return any(self.holds(y, depth + 1) for y, _ in a[1])
        if o == 'mono':
            return any(self.holds(y, depth + 1) for y, _ in a[0])
        if o == 'phi':
            return all(self.holds(y, depth + 1) for y in a[1:3])
        if o in ('uniq',) or o == 'call' and a[1] and str(a[0]).split('.')[
                -1] in ('unique', 'array', 'asarray', 'sort', 'abs', 'log',
                        'cumsum', 'concatenate', 'append'):
            z = a[1][0] if o == 'call' else a[1]
            return isinstance(z, t.T) and self.holds(z, depth + 1)
        if o == 'resetidx':
            return self.holds(a[0], depth + 1)
        return False

    def nonan(self, m):
        return m.op == 'not' and 'isnan' in t.show(m.a[0], 1)

    def same(self, x, y):
        a, b = self.S.space(x), self.S.space(y)
        return a is not None and a != SC and a == b

    def inside(self, y, x):
        """entries of y are entries of x"""
        while y.op in ('sel', 'take', 'slice'):
            y = y.a[0]
            if y is x or self.same(x, y):
                return True
        return False


def events(r, evs, what, out, S):
    for e in evs:
        if e.kind == 'extcall':
            n = e.d['name'].split('.')[-1]
            args, kw = e.d['args'], e.d['kwargs']
            if not e.d['name'].startswith(('numpy.', 'builtins.', 'scipy.',
                                           'math.', 'statistics.')):
                continue
            if n == 'average':
                w = kw.get('weights')
                w = w if w is not None else args[2] if len(args) > 2 \
                    else None
                if w is None or w is NONE:
                    continue
            elif n not in RAISES:
                continue
            elif n in ('min', 'max') and e.d['name'].startswith(
                    'builtins.') and len(args) > 1:
                continue
            if 'default' in kw or 'initial' in kw or not args:
                continue
            x = args[0]
        elif e.kind == 'subscript':
            i = e.d['i']
            if i.op != 'num' or e.d.get('kx') not in ('arr', 'series',
                                                      'list'):
                continue
            x = e.d['x']
            n = f'[{t.show(i, 1)}]'
            if x.op in ('nz', 'const', 'list', 'tuple', 'list0'):
                continue
        elif e.kind == 'raise' and e.d.get('explicit') and \
                not e.d.get('caught') and counts(e):
            N = NonEmpty(S, e.pc)
            out.ob('error of a short sample')
            if None not in N.known:
                out.flag('empty.raise', e.site, f'{e.site[2]}|raise',
                         f'{e.d["exc"]} if too few events are left '
                         f'({what})', r.name)
            continue
        else:
            continue
        if not isinstance(x, t.T) or S.space(x) == SC or x.op in (
                'num', 'const', 'tuple', 'shape'):
            continue
        out.ob('reduction of a possibly empty array')
        if not NonEmpty(S, e.pc).holds(x):
            out.flag('empty.reduction', e.site, f'{e.site[2]}|{n}',
                     f'{n} of {cut(t.show(x, 3), 70)} fails if no event is '
                     f'left ({what})', r.name)


def factors(x):
    if x.op == 'mono':
        for y, k in x.a[0]:
            yield y
    elif x.op == 'lin' and x.a[0] == 0 and len(x.a[1]) == 1:
        yield from factors(x.a[1][0][0])
    else:
        yield x


def logs(r, evs, what, out, S):
    """the logarithm of a number of events must not be that of zero"""
    for e in evs:
        if e.kind != 'extcall' or e.d['name'].split('.')[-1] not in (
                'log', 'log10', 'log2') or not e.d['args']:
            continue
        pc = e.pc if isinstance(e.pc, (list, tuple)) else [e.pc]
        for y in factors(e.d['args'][0]):
            if y.op == 'len':
                out.ob('logarithm of a number of events')
                ok = NonEmpty(S, pc).holds(y.a[0])
            elif y.op == 'call' and str(y.a[0]).split('.')[-1] in (
                    'sum', 'count_nonzero') and y.a[1] and \
                    t.isbool(y.a[1][0]):
                out.ob('logarithm of a number of events')
                m = y.a[1][0]
                ids = {m.id, t.not_(m).id}
                ok = any(i in ids for p in pc if isinstance(p, t.T)
                         for i in t.subterms(p))
            elif y.op == 'sum' and y.a and t.isbool(y.a[0]):
                out.ob('logarithm of a number of events')
                m = y.a[0]
                ids = {m.id, t.not_(m).id}
                ok = any(i in ids for p in pc if isinstance(p, t.T)
                         for i in t.subterms(p))
            else:
                continue
            if not ok:
                out.flag('empty.log', e.site, f'{e.site[2]}|log',
                         f'logarithm of {cut(t.show(y, 3), 60)}, which can '
                         f'be zero ({what})', r.name)


def counts(e):
    """the error is raised because a sample is empty"""
    pc = e.pc if isinstance(e.pc, (list, tuple)) else [e.pc]
    if not pc:
        return False
    for p in [pc[-1]]:
        if p.op == 'eq':
            for u, v in ((p.a[0], p.a[1]), (p.a[1], p.a[0])):
                if u.op == 'num' and v.op in ('len', 'attr') or \
                        u.op == 'num' and 'sum' in t.show(v, 1)[:12]:
                    return True
        if p.op == 'not' and p.a[0].op == 'truth':
            return True
        if p.op == 'cmp' and isinstance(p.a[1], t.T):
            z = p.a[1]
            if z.op == 'lin' and len(z.a[1]) == 1 and \
                    z.a[1][0][0].op == 'len' and z.a[1][0][1] < 0:
                return True
    return False


def leaves(x, out):
    if x.op == 'phi':
        leaves(x.a[1], out)
        leaves(x.a[2], out)
    else:
        out.append(x)
    return out


def closed(x):
    return not t.inputs(x) and not any(
        y.op in ('pos', 'it', 'unknown', 'opaque', 'rng', 'attr')
        for y in t.subterms(x).values())


def isnan(x):
    return x.op == 'const' and 'nan' in str(x.a[0]).lower() or \
        x.op == 'num' and str(x.a[0]).lower() == 'nan' or \
        'nan' in t.show(x, 1).lower()


MEANS = {'average', 'mean', 'median', 'std', 'var'}


def periods(R, task, out):
    """a completeness period without events does not spoil the others"""
    for E, cfg, r in entry_runs(R, task):
        done(out, r)
        S = spaces_for(r)
        for e in r.evs('extcall'):
            n = e.d['name'].split('.')
            if n[-1] not in MEANS or n[0] != 'numpy' or not e.d['args']:
                continue
            x = y = e.d['args'][0]
            if y.op == 'at' and y.a[0].op == 'map' and y.a[0].a[2] is t.TRUE:
                y = y.a[0].a[3]
            if y.op != 'sel' or y.a[1].op not in ('and', 'eq', 'cmp'):
                continue
            out.ob('mean of the events of one period')
            N = NonEmpty(S, e.pc)
            if None not in N.known and x not in N.known and \
                    y not in N.known and not any(
                    k.op == 'at' for k in N.known):
                out.flag('empty.period', e.site, f'{e.site[2]}|{n[-1]}',
                         f'{n[-1]} of the events of a period which may have '
                         f'none makes the estimate NaN', r.name)
        out.sample(r.name)


def work(R, task, out):
    if task[0] == 'entry':
        return periods(R, task, out)
    ci = R.classinfo(task[1])
    names = [n for n in accessors(ci) if n not in METHODS]
    for ci, cfg, r in class_runs(R, task, read=names):
        done(out, r)
        site = site_of(R.I, ci.qual)
        S = spaces_for(r)
        events(r, r.events, 'calculate', out, S)
        events(r, r.reading, 'reading an attribute', out, S)
        logs(r, r.events, 'calculate', out, S)
        if r.dead:
            continue
        for what, x in [('the estimate', r.result())] + [
                (n, r.term(r.read[n])) for n in ('value', 'beta', 'std')
                if n in r.read and not (n == 'std' and r.term(
                    r.read[n]) is NONE)]:
            for y in leaves(x, []):
                out.ob('constant value of ' + what)
                if closed(y) and not isnan(y):
                    out.flag('empty.value', site, f'{ci.name}|{what}',
                             f'{what} can be {t.show(y, 1)} without '
                             f'being estimated', r.name)
        # the estimate is NaN if nothing is left
        out.sample(r.name)

"""P26: differences and windows follow the documented order."""
from .. import terms as t
from ..terms import NONE
from ..model import ELEMENTWISE
from .base import cut
from .common import (all_entries, entry_tasks, entry_runs, class_tasks,
                     class_runs, done, site_of)
from ..entries import calc_params

RULE = 'the order of every array is tracked from the arguments through '\
       'selections, permutations by argsort and entry-wise operations; '\
       'every operation whose result depends on the order (differences, '\
       'shifted slices, cumulative sums, splits into windows, first and '\
       'last entries) must be applied to events in order of time if times '\
       'are given, in order of the x variable for windows, and in the '\
       'given order otherwise'
ASSUMPTIONS = ['numpy.argsort sorts ascending']
TIMES = {'times', 'list_times'}
X = {'x_variable'}
CAP = {'quick': 16, 'thorough': 96}
# entry point -> (keys differences follow, keys windows follow)
ENTRIES = {
    'make_more_incomplete': (TIMES, TIMES),
    'values_from_partitioning': (TIMES, None),
    'b_significant_1D': (TIMES, X),
    'plot_b_significant_1D': (TIMES, X),
    'plot_b_series_constant_nm': (TIMES, X),
    'plot_cum_count': (TIMES, TIMES),
    'Catalog.plot_cum_count': ({'self.time'}, {'self.time'}),
}
KEEP = {'numpy.array', 'numpy.asarray', 'numpy.copy', 'numpy.asanyarray',
        'numpy.ascontiguousarray'}
IN = ('in',)
PER_EVENT = {'magnitudes', 'times', 'weights', 'list_magnitudes',
             'list_times', 'x_variable', 'mags'}


def tasks(R, tier):
    yield from class_tasks(R)
    for k in ENTRIES:
        if k in all_entries(R):
            yield from entry_tasks(R, CAP[tier], keys={k}, chunk=4)


def core(x):
    """the array whose entries are compared, or None"""
    while True:
        o, a = x.op, x.a
        if o in ('sel', 'take', 'slice', 'at', 'get', 'item'):
            x = a[0]
        elif o == 'call' and (a[0] in KEEP or str(a[0]).endswith(
                'array_split')) and a[1]:
            x = a[1][0]
        elif o == 'in':
            return x.a[0]
        elif o == 'col':
            return f'{core(a[0])}.{a[1]}'
        elif o == 'index':
            return None
        else:
            return None


class Order:
    def __init__(self):
        self.memo = {}

    def of(self, x):
        """IN, ('by', name), ('rev', ...), or None if unknown; SC scalar"""
        if x.id in self.memo:
            return self.memo[x.id]
        self.memo[x.id] = None
        r = self.memo[x.id] = self._of(x)
        return r

    def _of(self, x):
        o, a = x.op, x.a
        if o == 'in':
            return IN if a[0] in PER_EVENT else None
        if o == 'col':
            return IN if a[0].op == 'in' else None
        if o in ('sel', 'astype', 'not', 'diff', 'nz'):
            return self.of(a[0])
        if o in ('at', 'get'):
            # a window of a list of windows
            c = core(x)
            return IN if c in PER_EVENT and c.startswith('list_') else \
                self.of(a[0]) if a[0].op == 'call' and str(
                    a[0].a[0]).endswith('array_split') else None
        if o == 'take':
            return self.taken(a[0], a[1])
        if o == 'slice':
            b = self.of(a[0])
            st = a[3]
            if st is NONE or st.op == 'num' and st.a[0] > 0:
                return b
            if st.op == 'num' and b is not None:
                return rev(b)
            return None
        if o == 'cmp':
            return self.of(a[1])
        if o in ('and', 'or', 'eq'):
            return self.join(a)
        if o == 'lin':
            return self.join([y for y, _ in a[1]])
        if o == 'mono':
            return self.join([y for y, _ in a[0]])
        if o == 'phi':
            p, q = self.of(a[1]), self.of(a[2])
            if p == q:
                return p
            if p and q and not sorted_test(a[0]):
                return ('alt', p, q)
            return None
        if o == 'call' and a[1]:
            n = str(a[0])
            if n in KEEP or n.endswith('array_split'):
                return self.of(a[1][0])
            if n in ('numpy.flip', 'numpy.flipud', 'builtins.reversed'):
                b = self.of(a[1][0])
                return rev(b) if b else None
            if n in ELEMENTWISE or n in ('numpy.abs', 'numpy.floor',
                                         'numpy.isnan'):
                return self.join([y for y in a[1] if isinstance(y, t.T)])
        return None

    def join(self, xs):
        s = {self.of(y) for y in xs if isinstance(y, t.T)} - {None}
        return s.pop() if len(s) == 1 else None

    def taken(self, y, i):
        """y[i]"""
        o = i.op
        if o == 'phi':
            p, q = self.taken(y, i.a[1]), self.taken(y, i.a[2])
            if p == q:
                return p
            return ('alt', p, q) if p and q and not sorted_test(i.a[0]) \
                else None
        if o == 'argsort':
            if len(i.a) > 1 and any(isinstance(z, t.T) and z.op == 'num' and
                                    z.a[0] != 0 and z.a[0] != -1
                                    for z in i.a[1:]):
                return None
            k = i.a[0]
            neg = k.op == 'lin' and k.a[0] == 0 and len(k.a[1]) == 1 and \
                k.a[1][0][1] < 0
            if neg:
                k = k.a[1][0][0]
            c = core(k)
            if c is None:
                if k.op == 'call' and k.a[0] not in KEEP:
                    return ('by', t.show(k, 2))
                return None
            return rev(('by', c)) if neg else ('by', c)
        if o == 'nz':
            return self.of(y)
        if o == 'slice' and i.a[0].op == 'argsort':
            b = self.taken(y, i.a[0])
            st = i.a[3]
            if b and st.op == 'num' and st.a[0] < 0:
                return rev(b)
            if b and (st is NONE or st.op == 'num' and st.a[0] > 0):
                return b
        if o == 'call' and i.a[0] in ('numpy.flip', 'numpy.flipud') and \
                i.a[1] and i.a[1][0].op == 'argsort':
            b = self.taken(y, i.a[1][0])
            return rev(b) if b else None
        if o == 'sel' and i.a[0].op == 'argsort':
            return self.taken(y, i.a[0])
        if o == 'call' and i.a[0] == 'numpy.arange' and len(i.a[1]) == 1 \
                and i.a[1][0].op == 'len':
            return self.of(y)
        if o == 'rng' or o == 'call' and 'random' in str(i.a[0]):
            return ('random',)
        return None


def sorted_test(c):
    """could the condition c establish that an array is sorted?"""
    todo = [c]
    while todo:
        y = todo.pop()
        if isinstance(y, tuple):
            todo += y
            continue
        if not isinstance(y, t.T):
            continue
        if y.op in ('at', 'get', 'len', 'num', 'in'):
            continue                    # a single entry
        if y.op not in ('cmp', 'eq', 'not', 'and', 'or', 'lin', 'truth',
                        'mono'):
            return True
        todo += y.a
    return False


def alts(o):
    if o[0] == 'alt':
        return alts(o[1]) + alts(o[2])
    return [o]


def rev(b):
    if b[0] == 'alt':
        return ('alt', rev(b[1]), rev(b[2]))
    return b[1] if b[0] == 'rev' else ('rev', b)


def partial(i):
    """an index which singles out an end or a neighbour"""
    if i.op == 'slc':
        lo, hi, st = i.a
        return lo is not NONE or hi is not NONE
    if i.op == 'num':
        return True
    if i.op == 'it':
        lo = i.a[1]
        return lo.op != 'num' or lo.a[0] != 0
    if i.op == 'lin' and len(i.a[1]) == 1 and i.a[1][0][0].op in ('it',
                                                                  'pos'):
        return i.a[0] != 0
    return False


def sinks(evs):
    for e in evs:
        d = e.d
        if e.kind == 'extcall':
            n = d['name']
            if not d['args']:
                continue
            if n in ('numpy.diff', 'numpy.ediff1d', 'numpy.gradient'):
                yield e, 'difference', d['args'][0]
            elif n in ('numpy.cumsum', 'numpy.nancumsum'):
                yield e, 'cumulative sum', d['args'][0]
            elif n in ('numpy.array_split', 'numpy.split'):
                yield e, 'window', d['args'][0]
        elif e.kind == 'subscript' and d.get('kx') in ('arr', 'series'):
            i = d['i']
            if partial(i):
                w = i.op == 'slc' and any(z.op not in ('num', 'const')
                                          for z in i.a)
                yield e, 'window' if w else 'neighbour', d['x']


def tested(evs):
    """arrays of which differences or neighbours decide a branch"""
    pcs = {p.id: p for e in evs for p in e.pc if isinstance(p, t.T)}
    seen, todo, out = set(), list(pcs.values()), set()
    while todo:
        y = todo.pop()
        if isinstance(y, tuple):
            todo += y
            continue
        if not isinstance(y, t.T) or y.id in seen or y.op == 'len':
            continue
        seen.add(y.id)
        if y.op in ('diff', 'at', 'get', 'slice') or y.op == 'call' and \
                'diff' in str(y.a[0]):
            z = y.a[0] if y.op != 'call' else y.a[1][0]
            out.add(z.id)
        todo += y.a
    return out


def judge(r, evs, keys, wkeys, lab, out, given):
    L = Order()
    decide = tested(evs)
    for e, what, x in sinks(evs):
        if x.id in decide and core(x) in TIMES | X | {'self.time'}:
            continue                # is the array sorted?
        o = L.of(x)
        if o is None:
            continue
        ks = wkeys if what == 'window' else keys
        if ks is None:
            continue
        out.ob('order of a ' + what)
        ks = {k for k in ks if k in given}
        if not ks:
            ok = [a == IN or a[0] == 'by' and a[1] in TIMES | X | {
                'self.time'} for a in alts(o)]
            want = 'the given order'
        else:
            ok = [a[0] == 'by' and a[1] in ks for a in alts(o)]
            want = 'the order of ' + '/'.join(sorted(ks))
        o = next((a for a, k in zip(alts(o), ok) if not k), None)
        if o is not None:
            out.flag('order', e.site, f'{e.site[2]}|{what}|{o[0]}',
                     f'{what} of events in {name(o)}, not in {want}: '
                     f'{cut(t.show(x, 3), 60)}', lab)


def name(o):
    if o == IN:
        return 'the given order'
    if o[0] == 'rev':
        return 'reversed ' + name(o[1])
    if o[0] == 'random':
        return 'random order'
    return f'the order of {o[1]}'


def work(R, task, out):
    if task[0] == 'class':
        for ci, cfg, r in class_runs(R, task):
            done(out, r)
            given = {k for k in TIMES | X if k in r.args and r.term(
                r.args[k]) is not NONE}
            judge(r, r.events, TIMES, TIMES, r.name, out, given)
            out.sample(r.name)
        return
    for E, cfg, r in entry_runs(R, task):
        done(out, r)
        keys, wkeys = ENTRIES[E.key]
        given = {'self.time'} | {
            k for k in TIMES | X if k in r.args and r.term(
                r.args[k]) is not NONE}
        judge(r, r.events, keys, wkeys, r.name, out, given)
        out.sample(r.name)

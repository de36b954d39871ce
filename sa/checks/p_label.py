"""P22: row labels do not matter."""
from .. import terms as t
from ..run import Spec
from .base import cut
from .common import (all_entries, entry_tasks, configs, run_entry, done,
                     class_tasks, site_of)
from ..entries import accessors, bclasses, aclasses, calc_axes, Entry,\
    estimator_run

RULE = 'catalogs and series with arbitrary row labels are passed to every '\
       'public entry point; each lookup is classified as by label or by '\
       'position from the kind of the container and the origin of the '\
       'index, and positions may not be looked up as labels, labels not as '\
       'positions, and rows not be matched by labels of different origin'
ASSUMPTIONS = ['an integer in [] of a pandas object is a label']
CAP = {'quick': 24, 'thorough': None}
HEAVY = {'plot_b_significant_1D': {'quick': 4, 'thorough': 24},
         'plot_b_series_constant_nm': {'quick': 12, 'thorough': 60},
         'b_significant_1D': {'quick': 12, 'thorough': 60}}
METHODS = {'calculate', 'filter_nan'}
THROUGH = ('sel', 'take', 'slice', 'at', 'get', 'astype', 'diff', 'item')


def tasks(R, tier):
    for k, v in HEAVY.items():
        yield from entry_tasks(R, v[tier], keys={k}, chunk=2)
    yield from entry_tasks(R, CAP[tier], skip=set(HEAVY))
    yield from class_tasks(R)


NOT_EVENTS = {'completeness_table'}    # two-dimensional


LISTS = ('list_magnitudes', 'list_times')


def as_series(k, s):
    """the same argument as a pandas series"""
    if isinstance(s, Spec) and s.kind == 'arr' and k not in NOT_EVENTS:
        n = Spec('series')
        n.__dict__.update(s.__dict__)
        n.kind = 'series'
        return n
    if isinstance(s, Spec) and s.kind == 'list' and s.elem == 'arr' and \
            k in LISTS:
        n = Spec('list')
        n.__dict__.update(s.__dict__)
        n.elem = 'series'
        return n
    return s


class Labels:
    """where the row labels of a value come from"""

    def __init__(self):
        self.memo = {}

    def of(self, x):
        """'range': 0..n-1 in row order; ('own', x): those of x; None:
        unknown or no labels"""
        if x.id not in self.memo:
            self.memo[x.id] = None
            self.memo[x.id] = self._of(x)
        return self.memo[x.id]

    def _of(self, x):
        o, a = x.op, x.a
        if o == 'resetidx':
            return 'range'
        if o in ('col', 'cols', 'setcol'):
            return self.of(a[0])
        if o == 'in':
            return ('own', x)
        if o in ('at', 'get', 'it') and isinstance(a[0], t.T) and \
                a[0].op == 'in' and a[0].a[0] in LISTS:
            return ('own', x)
        if o == 'call' and a[0] in ('pandas.Series', 'pandas.DataFrame'):
            if any(k in ('index', 'data') for k, _ in a[2]) or \
                    len(a[1]) > 1:
                return None
            if a[1] and self.of(a[1][0]) is not None:
                return self.of(a[1][0])
            return 'range'
        if o in ('sel', 'take', 'slice'):
            b = self.of(a[0])
            return None if b is None else ('own', x)
        if o == 'call' and str(a[0]).startswith('df.') and a[1] and \
                isinstance(a[1][0], t.T):
            n = a[0][3:]
            b = self.of(a[1][0])
            if b is None:
                return None
            if n in ('assign', 'drop', 'rename', 'copy', 'astype', 'fillna',
                     'replace', 'round', 'clip', 'abs', 'where', 'mask',
                     'isna', 'notna', 'isnull', 'notnull'):
                return b
            return ('own', x)
        if o == 'lin':
            return self.join([y for y, _ in a[1]])
        if o == 'mono':
            return self.join([y for y, _ in a[0]])
        if o in ('not', 'exp10', 'isnan'):
            return self.of(a[0])
        if o == 'cmp':
            return self.join([y for y in a if isinstance(y, t.T)])
        return None

    def join(self, xs):
        ls = [y for y in map(self.of, xs) if y is not None]
        if ls and all(y == ls[0] for y in ls):
            return ls[0]
        return None

    # ------------------------------------------------------------- indices
    def origin(self, i):
        """'position', ('label', frame) or None"""
        o, a = i.op, i.a
        if o in ('pos', 'it', 'nz', 'argsort', 'range'):
            return 'position'
        if o == 'num':
            return 'position'
        if o == 'index':
            return ('label', a[0])
        if o == 'item' and a[1] is t.ZERO:
            x = a[0]
            if x.op == 'at' and x.a[0].op == 'call' and \
                    x.a[0].a[0] == 'meth.iterrows':
                return ('label', x.a[0].a[1][0])
        if o in THROUGH and a and isinstance(a[0], t.T):
            b = self.origin(a[0])
            if b == 'position' and o not in ('sel', 'take', 'slice', 'at',
                                             'get', 'astype'):
                return None
            return b
        if o == 'lin':
            b = [self.origin(y) for y, _ in a[1]]
            if b and all(y == 'position' for y in b):
                return 'position'
            return None
        if o == 'phi':
            b = [self.origin(y) for y in a[1:3]]
            return b[0] if b[0] == b[1] else None
        if o in ('call', 'meth'):
            n = str(a[0]).split('.')[-1]
            if n in ('argmax', 'argmin', 'argsort', 'searchsorted',
                     'flatnonzero', 'arange', 'len'):
                return 'position'
            if n in ('idxmax', 'idxmin') and a[1]:
                return ('label', a[1][0])
        if o == 'len':
            return 'position'
        return None

    def ranged(self, f):
        """the labels of f are positions of an unfiltered frame"""
        seen = set()
        todo = [f]
        while todo:
            y = todo.pop()
            if y.id in seen:
                continue
            seen.add(y.id)
            if y.op == 'resetidx':
                return True
            if y.op == 'call' and y.a[0] in ('pandas.Series',
                                             'pandas.DataFrame'):
                return True
            for z in y.a:
                if isinstance(z, t.T):
                    todo.append(z)
                elif isinstance(z, tuple):
                    todo += [w for w in z if isinstance(w, t.T)]
        return False


def rowpart(i):
    return i.a[0] if i.op == 'tuple' and i.a else i


def lookup(e, L):
    d = e.d
    x, i, kx = d['x'], rowpart(d['i']), d.get('kx')
    via = d.get('via')
    if not isinstance(i, t.T) or t.isbool(i) or i.op == 'slc':
        if isinstance(i, t.T) and t.isbool(i) and kx in ('series', 'df') \
                and d.get('ki') == 'series':
            a, b = L.of(x), L.of(i)
            if a and b and a != b and 'range' in (a, b):
                return 'rows are matched by labels of another origin'
        return None
    org = L.origin(i)
    if org is None:
        return None
    if via in ('iloc', 'iat') or (via is None and kx in ('arr', 'list',
                                                         'tuple')):
        if org != 'position' and not L.ranged(org[1]):
            return f'row label used as position'
        return None
    if via in ('loc', 'at') or kx == 'series':
        l = L.of(x)
        if l is None:
            return None
        if org == 'position':
            if l != 'range':
                return 'position used as row label'
            if i.op == 'num' and i.a[0] < 0:
                return 'negative position used as row label'
            return None
        if l != 'range' and not L.ranged(org[1]) and \
                e.kind == 'subscript':
            return 'row looked up by a label which may occur twice'
    return None


def match(e, L):
    d = e.d
    if e.kind == 'colwrite':
        v = d['value']
        f = d['obj']
        if not isinstance(v, t.T) or d.get('kv') != 'series':
            return None
        a, b = L.of(f), L.of(v)
    else:
        if d.get('kx') != 'series' or d.get('ky') != 'series':
            return None
        a, b = L.of(d['x']), L.of(d['y'])
    if a and b and a != b and 'range' in (a, b):
        return 'values are matched by row labels of different origin'
    return None


def judge(evs, lab, out):
    L = Labels()
    for e in evs:
        if e.kind in ('subscript', 'store'):
            if e.d.get('kx') not in ('series', 'df', 'arr', 'list', 'tuple',
                                     'loc', 'iloc', 'at', 'iat'):
                continue
            out.ob('lookup of rows')
            m = lookup(e, L)
        elif e.kind in ('binop', 'cmp', 'colwrite'):
            if e.kind != 'colwrite' and 'series' not in (
                    e.d.get('kx'), e.d.get('ky')):
                continue
            out.ob('rows matched by label')
            m = match(e, L)
        else:
            continue
        if m:
            x = e.d.get('x') if e.d.get('x') is not None else e.d.get('value')
            out.flag('label', e.site, f'{e.site[2]}|{m}',
                     f'{m}: {cut(t.show(x, 2), 50)}', lab)


def work(R, task, out):
    if task[0] == 'class':
        ci = R.classinfo(task[1])
        names = [n for n in accessors(ci) if n not in METHODS]
        base, axes = calc_axes(R, ci)
        cfgs = list(Entry(ci.name, ci.qual, base, axes).configs())
        for lab, cfg in cfgs[task[2]:task[3]]:
            cfg = {k: as_series(k, s) for k, s in cfg.items()}
            r = estimator_run(R, ci, 'series ' + lab, cfg, None, names)
            done(out, r)
            judge(r.events + r.reading, r.name, out)
            out.sample(r.name)
        return
    _, key, i, j, cap = task
    E, cs = configs(R, key, cap)
    for lab, cfg in cs[i:j]:
        cfg = {k: as_series(k, s) for k, s in cfg.items()}
        r = run_entry(R, E, cfg, None, lab)
        done(out, r)
        judge(r.events, r.name, out)
        if not r.dead and 'grid' not in E.tags:
            L = Labels()
            out.ob('result')
            for y in t.subterms(r.result()).values():
                if y.op == 'index' and not L.ranged(y.a[0]) and \
                        L.of(y.a[0]) is not None:
                    out.flag('label', site_of(R.I, E.qual), f'{key}|result',
                             'the result depends on the row labels', r.name)
                    break
        out.sample(r.name)

"""Model of the external libraries the project calls: which results are
views, fresh, scalars, element-wise, selections; which calls write into their
arguments.  Anything not listed is an uninterpreted function of its
arguments."""
import ast
from . import terms as t
from .terms import T, mk, const, num, NONE, TRUE, FALSE

ELEMENTWISE = {
    'numpy.' + x for x in (
        'log', 'log10', 'log2', 'log1p', 'exp', 'expm1', 'sqrt', 'abs',
        'floor', 'ceil', 'round', 'isnan', 'isinf', 'isfinite', 'sin', 'cos',
        'tan', 'arcsin', 'arccos', 'arctan', 'arctan2', 'sign', 'clip',
        'maximum', 'minimum', 'power', 'logical_and', 'logical_or',
        'logical_not', 'nan_to_num', 'rint', 'trunc', 'mod', 'isclose',
        'fmax', 'fmin', 'hypot')} | {'astype', 'where3', 'op.Mod',
                                     'op.FloorDiv', 'op.xor', 'op.invert',
                                     'meth.isin', 'numpy.isin', 'op.BitAnd',
                                     'op.BitOr'}
REDUCE = {'numpy.' + x for x in (
    'min', 'max', 'sum', 'mean', 'std', 'var', 'any', 'all', 'argmax',
    'argmin', 'average', 'median', 'nanmean', 'nanmin', 'nanmax', 'nansum',
    'nanstd', 'prod', 'count_nonzero', 'size', 'ptp', 'percentile',
    'quantile')}
SCALAR_CALLS = REDUCE | {
    'builtins.float', 'builtins.int', 'numpy.allclose', 'math.log',
    'math.log10', 'math.sqrt', 'math.exp', 'math.floor', 'math.ceil',
    'builtins.isinstance', 'builtins.bool', 'op.attrsize'}
FRESH_ARR = {'numpy.' + x for x in (
    'unique', 'sort', 'argsort', 'cumsum', 'histogram', 'concatenate',
    'zeros', 'ones', 'full', 'empty', 'arange', 'linspace', 'array', 'where',
    'isin', 'searchsorted', 'bincount', 'tril', 'triu', 'eye', 'diff',
    'ediff1d', 'split', 'array_split', 'append', 'delete', 'insert',
    'repeat', 'tile', 'stack', 'vstack', 'hstack', 'column_stack',
    'nonzero', 'flatnonzero', 'outer', 'dot', 'zeros_like', 'ones_like',
    'full_like', 'empty_like', 'digitize', 'interp', 'cumprod', 'gradient',
    'flip', 'roll', 'take', 'compress', 'setdiff1d', 'intersect1d',
    'union1d', 'copy')}
SIGS = {
    'numpy.average': ['a', 'axis', 'weights', 'returned'],
    'numpy.histogram': ['a', 'bins', 'range', 'density', 'weights'],
    'numpy.bincount': ['x', 'weights', 'minlength'],
    'numpy.unique': ['ar', 'return_index', 'return_inverse',
                     'return_counts', 'axis'],
    'numpy.full': ['shape', 'fill_value'],
    'numpy.std': ['a', 'axis', 'dtype', 'out', 'ddof'],
    'numpy.clip': ['a', 'a_min', 'a_max'],
    'numpy.searchsorted': ['a', 'v', 'side', 'sorter'],
    'numpy.argsort': ['a', 'axis', 'kind', 'order'],
    'numpy.sort': ['a', 'axis', 'kind', 'order'],
    'numpy.allclose': ['a', 'b', 'rtol', 'atol'],
    'numpy.zeros': ['shape', 'dtype'], 'numpy.ones': ['shape', 'dtype'],
    'numpy.empty': ['shape', 'dtype'],
    'numpy.linspace': ['start', 'stop', 'num'],
    'numpy.random.uniform': ['low', 'high', 'size'],
    'numpy.random.exponential': ['scale', 'size'],
    'pandas.to_datetime': ['arg'],
}
ALIASES = {
    'numpy.absolute': 'numpy.abs', 'numpy.amin': 'numpy.min',
    'numpy.amax': 'numpy.max', 'numpy.floor_divide': 'op.FloorDiv',
    'math.log': 'numpy.log', 'math.log10': 'numpy.log10',
    'math.sqrt': 'numpy.sqrt', 'math.exp': 'numpy.exp',
    'math.floor': 'numpy.floor', 'math.ceil': 'numpy.ceil',
    'math.isnan': 'numpy.isnan', 'pandas.isna': 'numpy.isnan',
    'pandas.isnull': 'numpy.isnan', 'numpy.around': 'numpy.round',
    'numpy.copy': 'numpy.array', 'math.pow': 'numpy.power',
    'numpy.float_power': 'numpy.power',
    'numpy.compat.long': 'builtins.int',
}
METH2FUN = {
    'mean': 'numpy.mean', 'sum': 'numpy.sum', 'min': 'numpy.min',
    'max': 'numpy.max', 'any': 'numpy.any', 'all': 'numpy.all',
    'std': 'numpy.std', 'var': 'numpy.var', 'cumsum': 'numpy.cumsum',
    'argsort': 'numpy.argsort', 'nonzero': 'numpy.nonzero',
    'argmax': 'numpy.argmax', 'argmin': 'numpy.argmin',
    'round': 'numpy.round', 'clip': 'numpy.clip', 'isna': 'numpy.isnan',
    'isnull': 'numpy.isnan', 'prod': 'numpy.prod',
    'searchsorted': 'numpy.searchsorted', 'median': 'numpy.median',
    'abs': 'numpy.abs', 'unique': 'numpy.unique', 'diff': 'numpy.diff',
    'take': 'numpy.take', 'compress': 'meth.compress', 'dot': 'numpy.dot',
}
SAME = {'copy', 'to_numpy', 'flatten', 'tolist', 'to_list', 'ravel',
        'squeeze', '__array__', 'item', 'view', 'reshape'}
MUTATORS = {'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'sort',
            'reverse', 'update', 'setdefault', 'popitem', 'add', 'discard',
            'fill', 'resize', 'put', 'itemset', 'partition', 'setflags',
            'byteswap_inplace', 'intersection_update', 'difference_update'}
ARG0_WRITERS = {'numpy.fill_diagonal', 'numpy.put', 'numpy.copyto',
                'numpy.place', 'numpy.putmask', 'numpy.random.shuffle',
                'random.shuffle', 'builtins.setattr', 'builtins.delattr',
                'heapq.heapify', 'heapq.heappush', 'heapq.heappop',
                'numpy.put_along_axis', 'object.__setattr__'}
VIEW_FUNS = {'numpy.asarray', 'numpy.asanyarray', 'numpy.ravel',
             'numpy.reshape', 'numpy.transpose', 'numpy.squeeze',
             'numpy.atleast_1d', 'numpy.ascontiguousarray',
             'numpy.atleast_2d', 'numpy.broadcast_to'}
EXC_SUFFIX = ('Error', 'Exception', 'Warning')


def install(cls):
    for f in (call_ext, call_meth, ext_builtin, setattr_dynamic, df_method,
              elementwise, nparr, arrkind):
        setattr(cls, f.__name__, f)


def arrkind(self, *oids):
    ks = {self.c(o).kind for o in oids}
    if 'series' in ks:
        return 'series'
    if 'arr' in ks or 'list' in ks:
        return 'arr'
    if ks <= {'num', 'bool'}:
        return 'num'
    if 'df' in ks:
        return 'df'
    return 'opaque'


def elementwise(self, name, args, kwargs, node):
    ts = [self.reify(a) for a in args]
    kind = self.arrkind(*args)
    if name == 'numpy.sqrt':
        return self.val(t.power(ts[0], num('1/2')), kind)
    if name == 'numpy.power' and len(ts) == 2:
        r = t.power(ts[0], ts[1])
        self.ev('binop', node, op='Pow', x=ts[0], y=ts[1], r=r,
                kx=self.c(args[0]).kind, ky=self.c(args[1]).kind)
        return self.val(r, kind)
    if name == 'numpy.logical_and':
        return self.val(t.and_(*ts), kind)
    if name == 'numpy.logical_or':
        return self.val(t.or_(*ts), kind)
    if name == 'numpy.logical_not':
        return self.val(t.not_(ts[0]), kind)
    if name in ('numpy.abs',) and ts[0].op == 'num':
        return self.val(num(abs(ts[0].a[0])), 'num')
    tm = mk('call', name, tuple(ts), tuple(
        (k, self.reify(v)) for k, v in sorted(kwargs.items())))
    return self.val(tm, kind)


def nparr(self, oid, fresh, node):
    c = self.c(oid)
    tm = self.reifyC(c)
    kind = c.kind
    if kind in ('list', 'tuple', 'opaque', 'series', 'phi', 'arr', 'gen',
                'range', 'df', 'set', 'none'):
        kind2 = 'arr'
    else:
        kind2 = 'arr' if kind != 'inst' else 'arr'
    if kind in ('num', 'bool'):
        kind2 = 'num'
    if fresh:
        return self.val(tm, kind2)
    if kind == 'arr':
        return oid
    roots = c.roots if kind in ('opaque', 'series', 'phi', 'df') else \
        frozenset()
    return self.val(tm, kind2, roots)


NAT = mk('ext', 'pandas.NaT')
MISSING = {'pandas.isna': True, 'pandas.isnull': True,
           'pandas.notna': False, 'pandas.notnull': False}


def call_ext(self, name, args, kwargs, star, node):
    if name in MISSING and len(args) == 1:
        x = self.c(args[0]).term
        if x is NONE or x is NAT:
            return self.k(MISSING[name])
    name = ALIASES.get(name, name)
    sig = SIGS.get(name)
    args = list(args)
    kwargs = dict(kwargs)
    if sig:
        for i, p in enumerate(sig):
            if i >= 1 and i < len(args):
                kwargs.setdefault(p, args[i])
        if not args and sig[0] in kwargs:
            args = [kwargs.pop(sig[0])]
        args = args[:1]
        for p in list(kwargs):
            if self.c(kwargs[p]).term is NONE and p in (
                    'axis', 'weights', 'range', 'density', 'kind', 'order'):
                del kwargs[p]
    if name.startswith('builtins.'):
        r = self.ext_builtin(name[9:], args, kwargs, star, node)
        if r is not None:
            return r
    ts = [self.reify(a) for a in args]
    kt = {k: self.reify(v) for k, v in kwargs.items()}
    if name == 'warnings.warn':
        self.ev('warn', node, msg=ts[0] if ts else None)
        return self.k(None)
    self.ev('extcall', node, name=name, args=ts, kwargs=kt,
            kinds=[self.c(a).kind for a in args],
            roots=[self.c(a).roots for a in args], oids=args, koids=kwargs,
            star=star)
    if self.ext_hook is not None:
        r = self.ext_hook(name, args, kwargs, node)
        if r is not None:
            return r
    if name in ARG0_WRITERS and args:
        if name in ('builtins.setattr', 'object.__setattr__',
                    'builtins.delattr'):
            return self.setattr_dynamic(args, node)
        self.inplace(args[0], mk('written', name, *ts), node, name)
        return self.k(None)
    if 'out' in kwargs and self.c(kwargs['out']).kind not in ('none',):
        self.inplace(kwargs['out'], mk('written', name, *ts), node,
                     name + '(out=)')
        return kwargs['out']
    if name == 'numpy.array':
        cp = kt.get('copy')
        if args:
            return self.nparr(args[0], cp is not FALSE, node)
    if name in VIEW_FUNS and args:
        return self.nparr(args[0], False, node)
    if name in ('numpy.array_split', 'numpy.split'):
        return self.val(mk('call', name, tuple(ts), ()), 'list',
                        self.c(args[0]).roots)
    if name in ELEMENTWISE and args:
        return self.elementwise(name, args, kwargs, node)
    if name == 'numpy.square' and args:
        return self.val(t.power(ts[0], num(2)), self.c(args[0]).kind)
    if name in ('numpy.add', 'numpy.subtract', 'numpy.multiply',
                'numpy.divide', 'numpy.true_divide') and len(args) == 2:
        op = {'add': 'Add', 'subtract': 'Sub', 'multiply': 'Mult',
              'divide': 'Div', 'true_divide': 'Div'}[name[6:]]
        return self.binop(op, args[0], args[1], node)
    if name in ('numpy.greater', 'numpy.greater_equal', 'numpy.less',
                'numpy.less_equal') and len(args) == 2:
        sym = {'greater': '>', 'greater_equal': '>=', 'less': '<',
               'less_equal': '<='}[name[6:]]
        self.ev('cmp', node, op=sym, x=ts[0], y=ts[1],
                kx=self.c(args[0]).kind, ky=self.c(args[1]).kind)
        return self.val(t.cmp(sym, ts[0], ts[1]), self.arrkind(*args))
    if name == 'numpy.negative':
        return self.val(t.neg(ts[0]), self.c(args[0]).kind)
    if name in ('numpy.radians', 'numpy.deg2rad', 'math.radians'):
        f = t.div(mk('ext', 'numpy.pi'), num(180))
        return self.val(t.mul(ts[0], f), self.c(args[0]).kind)
    if name in ('numpy.degrees', 'numpy.rad2deg', 'math.degrees'):
        f = t.div(num(180), mk('ext', 'numpy.pi'))
        return self.val(t.mul(ts[0], f), self.c(args[0]).kind)
    if name == 'numpy.argsort':
        return self.val(mk('argsort', ts[0], *[
            v for k, v in sorted(kt.items()) if k not in ('axis',)]), 'arr')
    if name == 'numpy.sort':
        return self.val(mk('take', ts[0], mk('argsort', ts[0])), 'arr')
    if name == 'numpy.diff' and len(ts) == 1 and not kt:
        return self.val(mk('diff', ts[0]), 'arr')
    if name == 'numpy.ediff1d' and len(ts) == 1 and not kt:
        return self.val(mk('diff', ts[0]), 'arr')
    if name == 'numpy.nonzero' or name == 'numpy.where' and len(ts) == 1:
        return self.mk_tuple([self.val(mk('nz', ts[0]), 'arr')])
    if name == 'numpy.flatnonzero':
        return self.val(mk('nz', ts[0]), 'arr')
    if name == 'numpy.where' and len(ts) == 3:
        return self.val(mk('call', 'where3', tuple(ts), ()),
                        self.arrkind(*args))
    if name in ('numpy.take', 'numpy.compress') and len(ts) == 2:
        x, i = (ts if name == 'numpy.take' else ts[::-1])
        self.ev('subscript', node, x=x, i=i, kx='arr', ki='arr', b=None)
        return self.val(t.getitem(x, i), 'arr')
    if name == 'numpy.delete':
        pass
    if name in ('numpy.zeros', 'numpy.ones', 'numpy.empty') and ts:
        fill = {'zeros': t.ZERO, 'ones': t.ONE,
                'empty': mk('uninit')}[name[6:]]
        dt = kt.get('dtype')
        if dt is not None and dt.op == 'ext' and 'bool' in dt.a[0]:
            fill = FALSE if fill is t.ZERO else TRUE
        return self.val(mk('full', ts[0], fill), 'arr')
    if name == 'numpy.full':
        return self.val(mk('full', ts[0], kt.get('fill_value', NONE)), 'arr')
    if name in ('numpy.zeros_like', 'numpy.ones_like', 'numpy.empty_like'):
        fill = {'zeros_like': t.ZERO, 'ones_like': t.ONE,
                'empty_like': mk('uninit')}[name[6:]]
        return self.val(mk('full', mk('len', ts[0]), fill), 'arr')
    if name == 'numpy.full_like':
        return self.val(mk('full', mk('len', ts[0]), ts[1]), 'arr')
    if name == 'numpy.size' and len(ts) == 1:
        return self.val(mk('len', ts[0]), 'num')
    if name in ('inspect.signature',) and args:
        c = self.c(args[0])
        if c.pl and c.pl[0] in ('func', 'bound'):
            return self.val(mk('sig', c.term), 'opaque',
                            pl=('sig', c.pl[1], c.pl[0] == 'bound'))
    if name in REDUCE and args:
        tm = mk('call', name, tuple(ts), tuple(sorted(kt.items())))
        ax = kt.get('axis')
        return self.val(tm, 'num' if ax is None else 'arr')
    if name == 'collections.defaultdict' and len(args) == 1 and not kwargs:
        # one object per evaluation
        tm = mk('dict0', 'default', self.oids)
        self.factories[tm] = args[0]
        return self.val(tm, 'dict', pl=('dict', (), None))
    if name == 'functools.wraps':
        return self.val(mk('wraps'), 'func', pl=('wrapsdeco',))
    if name == 'functools.partial' and args:
        return self.val(mk('call', name, tuple(ts), tuple(sorted(
            kt.items()))), 'opaque')
    if name == 'decimal.Decimal' or name.startswith('str.'):
        return self.val(mk('call', name, tuple(ts), ()), 'opaque')
    if name.split('.')[-1].endswith(EXC_SUFFIX):
        return self.val(mk('call', name, tuple(ts), ()), 'opaque')
    if name.endswith('.DataFrame') or name == 'pandas.concat' or \
            name.startswith('pandas.DataFrame.'):
        self.callbacks(args + list(kwargs.values()), node)
        roots = frozenset()
        if name.endswith('.DataFrame') and args:
            roots = self.c(args[0]).roots
        return self.val(mk('call', name, tuple(ts), tuple(
            sorted(kt.items()))), 'df', roots)
    if name == 'pandas.Series':
        return self.val(mk('call', name, tuple(ts), tuple(
            sorted(kt.items()))), 'series')
    self.callbacks(args + list(kwargs.values()), node)
    if name.startswith(('numpy.random.', 'random.')):
        tm = mk('rng', name, tuple(ts), tuple(sorted(kt.items())))
        return self.val(tm, 'arr' if 'size' in kt or len(ts) > 1
                        else 'opaque')
    tm = mk('call', name, tuple(ts), tuple(sorted(kt.items())) + (
        (('**', star),) if star is not None else ()))
    kind = 'arr' if name in FRESH_ARR else 'opaque'
    if name == 'numpy.histogram':
        return self.mk_tuple([self.val(mk('item', tm, num(0)), 'arr'),
                              self.val(mk('item', tm, num(1)), 'arr')])
    if name == 'numpy.unique':
        n = 1 + sum(1 for k in ('return_index', 'return_inverse',
                                'return_counts') if kt.get(k) is TRUE)
        if n > 1:
            base = mk('call', name, tuple(ts), ())
            out = [self.val(base, 'arr')]
            for k in ('return_index', 'return_inverse', 'return_counts'):
                if kt.get(k) is TRUE:
                    out.append(self.val(mk('uniq', k, base), 'arr'))
            return self.mk_tuple(out)
    if name.endswith(('.subplots',)):
        return self.mk_tuple([self.val(mk('item', tm, num(0))),
                              self.val(mk('item', tm, num(1)))])
    return self.val(tm, kind)


def setattr_dynamic(self, args, node):
    nm = self.reify(args[1])
    if nm.op == 'const' and isinstance(nm.a[0], str):
        c = self.c(args[0])
        if len(args) > 2:
            # object.__setattr__ and setattr never mangle
            p = c.pl
            if p and p[0] == 'inst':
                self.setattr(args[0], nm.a[0], args[2], node)
            else:
                self.setattr(args[0], nm.a[0], args[2], node)
            return self.k(None)
    self.ev('setattr_dyn', node, obj=args[0], name=nm,
            value=self.reify(args[2]) if len(args) > 2 else None,
            roots=self.c(args[0]).roots)
    return self.k(None)


def ext_builtin(self, name, args, kwargs, star, node):
    a = args
    if name in ('min', 'max') and self.clean and 'key' in kwargs and \
            len(a) == 1:
        els = self.iter_concrete(a[0])
        if els:
            got = sort_known(self, els, {'key': kwargs['key'],
                                         'reverse': self.k(name == 'max')},
                             node)
            if got:
                return got[0]
    if name == 'len' and a:
        c = self.c(a[0])
        els = self.concrete(a[0])
        if els is not None:
            return self.k(len(els))
        if c.pl and c.pl[0] == 'dict' and c.pl[2] is None and all(
                cd is TRUE for _, (o, cd) in c.pl[1]):
            return self.k(len(c.pl[1]))
        if c.pl and c.pl[0] == 'set' and c.pl[2:] == ('exact',):
            return self.k(len(c.pl[1]))
        tm = self.reifyC(c)
        if c.kind in ('num', 'bool', 'none'):
            self.ev('raise', node, exc='TypeError', msg='len of scalar')
            from .interp import Dead
            raise Dead
        return self.val(t.length(tm), 'num')
    if name == 'range':
        ts = [self.reify(x) for x in a]
        lo, hi, st = (t.ZERO, ts[0], t.ONE) if len(ts) == 1 else (
            (ts[0], ts[1], t.ONE) if len(ts) == 2 else tuple(ts[:3]))
        return self.val(mk('range', lo, hi, st), 'range',
                        pl=('range', lo, hi, st))
    if name == 'enumerate':
        st = self.reify(a[1]) if len(a) > 1 else (
            self.reify(kwargs['start']) if 'start' in kwargs else t.ZERO)
        return self.val(mk('enum', self.reify(a[0])), 'gen',
                        pl=('enum', a[0], st))
    if name == 'zip':
        return self.val(mk('zip', *[self.reify(x) for x in a]), 'gen',
                        pl=('zip', tuple(a)))
    if name == 'reversed' and a:
        return self.val(mk('rev', self.reify(a[0])), 'gen',
                        pl=('rev', a[0]))
    if name == 'map' and len(a) == 2:
        return self.val(mk('mapit', self.reify(a[0]), self.reify(a[1])),
                        'gen', pl=('mapit', a[0], a[1]))
    if name in ('list', 'tuple', 'set', 'frozenset', 'sorted'):
        if not a:
            if name == 'tuple':
                return self.mk_tuple([])
            if name == 'list':
                return self.val(mk('list0', str(self.site(node)),
                                   node.col_offset), 'list',
                                pl=('list', ()))
            return self.val(mk('set'), 'set', pl=('set', ()))
        els = self.iter_concrete(a[0])
        c = self.c(a[0])
        if els is None and c.pl and c.pl[0] == 'set':
            els = list(c.pl[1])
            if name in ('list', 'tuple') and len(els) > 1:
                self.ev('setorder', node, term=c.term)
        elif c.kind == 'set' and name in ('list', 'tuple'):
            self.ev('setorder', node, term=c.term)
        if name in ('list', 'tuple') and els is not None:
            if name == 'tuple':
                return self.mk_tuple(els)
            return self.val(mk('list0', str(self.site(node)),
                               node.col_offset), 'list',
                            pl=('list', tuple(('e', x) for x in els)))
        if name in ('set', 'frozenset'):
            tm = self.reifyC(c)
            if els is not None:
                tm = mk('set', *sorted({self.reify(x) for x in els}))
                u = distinct(self, els)
                if u is not None and any(
                        x in self.clean for x in t.subterms(tm).values()):
                    return self.val(tm, 'set', pl=('set', tuple(u), 'exact'))
                return self.val(tm, 'set', pl=('set', tuple(els)))
            return self.val(mk('call', 'builtins.set', (tm,), ()), 'set')
        if name in ('list', 'tuple'):
            # list(<iterable>) : build by symbolic iteration
            if c.kind in ('num', 'none', 'bool') or self.scalarish(c.term):
                self.ev('raise', node, exc='TypeError',
                        msg='object is not iterable')
                from .interp import Dead
                raise Dead
            if c.pl and c.pl[0] in ('mapit', 'enum', 'zip'):
                out = self.val(mk('list0', str(self.site(node)),
                                  node.col_offset), 'list', pl=('list', ()))
                lid = self.loopid(node)
                self.run_loop(lid, self.iter_term(a[0]),
                              lambda: self.append(out, self.iter_elem(
                                  a[0], lid, node), node), node)
                return out
            if c.pl and c.pl[0] == 'list':
                return self.val(c.term, name, pl=c.pl)
            return self.val(self.reifyC(c), name)
        if name == 'sorted' and els is not None and self.clean:
            got = sort_known(self, els, kwargs, node)
            if got is not None:
                return self.val(mk('list', *[self.reify(x) for x in got]),
                                'list',
                                pl=('list', tuple(('e', x) for x in got)))
        if name == 'sorted':
            self.callbacks(list(kwargs.values()), node)
            self.ev('extcall', node, name='builtins.sorted',
                    args=[self.reify(a[0])],
                    kwargs={k: self.reify(v) for k, v in kwargs.items()},
                    kinds=[c.kind], roots=[c.roots], oids=a, koids=kwargs,
                    star=None)
            tm = mk('call', 'builtins.sorted', (self.reifyC(c),), tuple(
                (k, self.reify(v)) for k, v in sorted(kwargs.items())))
            return self.val(tm, 'list')
    if name == 'dict.fromkeys' and a:
        els = self.iter_concrete(a[0])
        if els is not None:
            d = {}
            for e in els:
                k = self.ckey(e)
                eqs = [self.decide(t.eq(self.reify(e), x if isinstance(
                    x, t.T) else self.reify(self.k(x)))) for x in d]
                if any(q is None for q in eqs):
                    break
                if not any(eqs):
                    d[k] = (a[1] if len(a) > 1 else self.k(None), t.TRUE)
            else:
                return self.val(mk('dict', *[self.reify(e) for e in els]),
                                'dict', pl=('dict', tuple(d.items()), None))
    if name == 'dict':
        d, rest = {}, None
        if a:
            c = self.c(a[0])
            if c.pl and c.pl[0] == 'dict':
                d.update(dict(c.pl[1]))
                rest = c.pl[2]
            else:
                els = self.iter_concrete(a[0])
                ok = els is not None
                if ok:
                    for e in els:
                        kv = self.concrete(e)
                        if not kv or len(kv) != 2:
                            ok = False
                            break
                        d[self.ckey(kv[0])] = (kv[1], TRUE)
                if not ok:
                    rest = self.reifyC(c)
        for k, v in kwargs.items():
            d[k] = (v, TRUE)
        if star is not None:
            rest = star
        return self.val(mk('dict0', str(self.site(node)), node.col_offset),
                        'dict', pl=('dict', tuple(d.items()), rest))
    if name in ('min', 'max', 'sum', 'abs', 'any', 'all', 'round') and a:
        if name in ('min', 'max') and len(a) > 1:
            ts = [self.reify(x) for x in a]
            if all(x.op == 'num' for x in ts):
                return self.k((min if name == 'min' else max)(
                    x.a[0] for x in ts))
            return self.val(mk('call', 'numpy.%simum' % name,
                               tuple(ts), ()), 'num')
        els = self.concrete(a[0])
        if name in ('any', 'all') and els is not None:
            cs = []
            for x in els:
                r = self.truth(x, node, log=False)
                cs.append(const(r) if isinstance(r, bool) else r)
            return self.val(t.or_(*cs) if name == 'any' else t.and_(*cs),
                            'bool')
        return self.call_ext('numpy.' + name, args, kwargs, star, node)
    if name in ('float', 'int', 'bool', 'str'):
        if not a:
            return self.k({'float': 0.0, 'int': 0, 'bool': False,
                           'str': ''}[name])
        c = self.c(a[0])
        tm = self.reifyC(c)
        if name == 'str':
            if tm.op == 'const' and isinstance(tm.a[0], str):
                return a[0]
            return self.val(mk('call', 'builtins.str', (tm,), ()), 'str')
        if name == 'bool':
            r = self.truth(a[0], node)
            return self.k(r) if isinstance(r, bool) else self.val(r, 'bool')
        if name == 'int':
            if tm.op == 'num':
                return self.k(int(tm.a[0]))
            if t.isint(tm) or t.isbool(tm):
                return self.val(tm, 'num')
            return self.val(mk('call', 'builtins.int', (tm,), ()), 'num')
        if self.clean and (tm is t.NONE or tm.op == 'const'
                           and isinstance(tm.a[0], str)):
            try:
                return self.k(float(tm.a[0]))
            except (TypeError, ValueError) as e:
                from .interp import Dead
                exc = type(e).__name__
                self.ev('raise', node, exc=exc, msg=None)
                self.on_raise(exc)
                raise Dead
        return self.val(tm, 'num')
    if name in ('isinstance', 'issubclass'):
        r = _isinstance(self, name, a, node)
        if isinstance(r, bool):
            return self.k(r)
        return self.val(mk('call', 'builtins.' + name, tuple(
            self.reify(x) for x in a), ()), 'bool')
    if name == 'hasattr':
        c = self.c(a[0])
        nm = self.reify(a[1])
        if c.pl and c.pl[0] == 'inst' and nm.op == 'const':
            k, o = c.pl[1].lookup(nm.a[0])
            if o is not None or nm.a[0] in c.pl[2]:
                if o is None:
                    ac = self.st.get(c.pl[2][nm.a[0]])
                    if ac.term.op == 'phi' and t.UNBOUND in ac.term.a[1:]:
                        bad = ac.term.a[1] is t.UNBOUND
                        cd = ac.term.a[0]
                        return self.val(t.not_(cd) if bad else cd, 'bool')
                elif self.st.get(o).pl and self.st.get(o).pl[0] == \
                        'property' and nm.a[0].startswith('dmc'):
                    # property backed by a private attribute set only in
                    # calculate(): evaluate it
                    return self.val(mk('call', 'builtins.hasattr',
                                       (c.term, nm), ()), 'bool') \
                        if ('_' + nm.a[0]) not in c.pl[2] else self.k(True)
                return self.k(True)
            if not c.pl[1].is_df() and not c.pl[2].get('#open'):
                return self.k(False)
        return self.val(mk('call', 'builtins.hasattr', tuple(
            self.reify(x) for x in a), ()), 'bool')
    if name == 'getattr' and len(a) >= 2:
        nm = self.reify(a[1])
        if nm.op == 'const' and isinstance(nm.a[0], str):
            c = self.c(a[0])
            if len(a) > 2 and c.pl and c.pl[0] == 'inst':
                k, o = c.pl[1].lookup(nm.a[0])
                if o is None and nm.a[0] not in c.pl[2] and \
                        not c.pl[1].is_df():
                    return a[2]
            return self.getattr(a[0], nm.a[0], node)
        return self.val(mk('attr', self.reify(a[0]), nm), 'opaque',
                        self.c(a[0]).roots)
    if name == 'setattr' and len(a) == 3:
        return setattr_dynamic(self, a, node)
    if name == 'print':
        self.ev('print', node)
        return self.k(None)
    if name == 'type' and len(a) == 1:
        c = self.c(a[0])
        if c.pl and c.pl[0] == 'inst':
            return self.val(mk('class', c.pl[1].qual), 'class',
                            pl=('class', c.pl[1]))
    if name == 'callable' and a:
        c = self.c(a[0])
        if c.pl and c.pl[0] in ('func', 'bound', 'class'):
            return self.k(True)
    if name == 'next' and a:
        c = self.c(a[0])
        els = self.iter_concrete(a[0])
        if els:
            return els[0]
        if els is not None and len(a) > 1:
            return a[1]
        tm = mk('call', 'builtins.next', (self.reifyC(c),), ())
        if len(a) > 1:
            self._mg = {}
            dc = self.c(a[1])
            el = None
            if c.pl and c.pl[0] == 'list' and len(c.pl[1]) == 1:
                el = c.pl[1][0]
            return self.new(self.phiC(
                mk('truth', self.reifyC(c)),
                self._first(c, tm) if hasattr(self, '_first')
                else type(dc)(tm), dc, self.st.get, self.st.get))
        return self.val(tm, 'opaque')
    if name == 'super':
        from .interp import C
        c = self.c(a[0])
        if c.pl and c.pl[0] == 'class' and len(a) > 1:
            return self.val(mk('super', c.term), 'opaque',
                            pl=('super', c.pl[1], a[1]))
    if name == 'property' and a:
        return self.val(mk('property', self.c(a[0]).term), 'property',
                        pl=('property', a[0], a[1] if len(a) > 1 else None))
    if name in ('iter',) and a:
        return a[0]
    if name == 'slice' and a:
        ts = [self.reify(x) for x in a]
        if len(ts) == 1:
            ts = [NONE, ts[0], NONE]
        if len(ts) == 2:
            ts.append(NONE)
        return self.val(mk('slc', *ts), 'slice')
    if name == 'pow' and len(a) == 2:
        return self.binop('Pow', a[0], a[1], node)
    if name == 'filter' and len(a) == 2:
        out = self.val(mk('list0', str(self.site(node)), node.col_offset),
                       'list', pl=('list', ()))
        return self.val(mk('call', 'builtins.filter', (
            self.reify(a[0]), self.reify(a[1])), ()), 'gen')
    return None


PYK = {'builtins.float': {'num'}, 'builtins.int': {'num'},
       'builtins.str': {'str'}, 'builtins.list': {'list'},
       'builtins.tuple': {'tuple'}, 'builtins.dict': {'dict'},
       'numpy.ndarray': {'arr'}, 'pandas.Series': {'series'},
       'pandas.DataFrame': {'df'},
       'builtins.bool': {'bool'}, 'builtins.set': {'set'},
       'numbers.Number': {'num'}, 'numbers.Real': {'num'},
       'numpy.floating': set(), 'numpy.integer': set(),
       'numpy.number': set()}
ALLK = {'num', 'bool', 'str', 'arr', 'list', 'tuple', 'dict', 'set', 'series',
        'none', 'inst', 'df', 'func', 'class'}


def _isinstance(self, name, a, node):
    c = self.c(a[0])
    cls = []

    def flat(o):
        k = self.c(o)
        if k.pl and k.pl[0] == 'tuple':
            for x in k.pl[1]:
                flat(x)
        else:
            cls.append(k)
    flat(a[1])
    if name == 'issubclass':
        if c.pl and c.pl[0] == 'class' and all(
                k.pl and k.pl[0] == 'class' for k in cls):
            return any(c.pl[1].issub(k.pl[1]) for k in cls)
        return None
    if c.pl and c.pl[0] == 'inst':
        r = False
        for k in cls:
            if k.pl and k.pl[0] == 'class':
                r = r or c.pl[1].issub(k.pl[1])
            elif k.pl and k.pl[0] == 'ext':
                if any(k.pl[1].split('.')[-1] == b.split('.')[-1]
                       for b in c.pl[1].ext_bases()):
                    r = True
        return r
    if c.kind in ALLK:
        r = False
        for k in cls:
            if k.pl and k.pl[0] == 'ext':
                nm = k.pl[1]
                if nm not in PYK:
                    if c.kind in ('num', 'arr', 'list', 'none', 'bool'):
                        continue
                    return None
                if c.kind in PYK[nm]:
                    if c.kind == 'num' and nm == 'builtins.int' and \
                            len(cls) == 1:
                        return None
                    r = True
            elif k.pl and k.pl[0] == 'class':
                pass
            else:
                return None
        return r
    return None


def stripped(self, x):
    """x.strip() for concatenations that start and end with texts known to
    have no white space around them (or constants)"""
    if x in self.clean:
        return x
    if not (x.op == 'call' and x.a[0] == 'str.join' and not x.a[2]):
        return None
    parts = list(x.a[1])
    for i, f in ((0, str.lstrip), (-1, str.rstrip)):
        while parts and parts[i].op == 'const' and \
                isinstance(parts[i].a[0], str):
            y = f(parts[i].a[0])
            if y:
                parts[i] = t.const(y)
                break
            parts.pop(i)
        if parts and not (parts[i] in self.clean
                          or parts[i].op == 'const'):
            return None
    if not parts:
        return t.const('')
    if len(parts) == 1:
        return parts[0]
    return mk('call', 'str.join', tuple(parts), ())


def orderkey(x):
    """python value of a constant sort key"""
    if x is t.NONE:
        return ''
    if x.op == 'num':
        return float(x.a[0])
    if x.op == 'const' and isinstance(x.a[0], str):
        return x.a[0]
    if x.op == 'tuple':
        return tuple(orderkey(y) for y in x.a)
    if x.op == 'lin' and not x.a[1]:
        return float(x.a[0])
    if x.op == 'call' and x.a[0].split('.')[-1] in (
            'strptime', 'fromisoformat', 'to_datetime', 'Timestamp') and all(
            y.op == 'const' for y in x.a[1]) and x.a[1]:
        return x.a[1][0].a[0]          # ISO times sort like their texts
    raise KeyError


def sort_known(self, els, kwargs, node):
    """elements in sorted order when all keys are constants"""
    try:
        rev = kwargs.get('reverse')
        rev = False if rev is None else \
            {t.TRUE: True, t.FALSE: False}[self.reify(rev)]
        keys = [orderkey(self.reify(
            self.call(kwargs['key'], [e], {}, None, node)
            if 'key' in kwargs else e)) for e in els]
        return [els[i] for i in sorted(range(len(els)),
                                       key=lambda i: keys[i], reverse=rev)]
    except (KeyError, TypeError):
        return None


SETOPS = {'difference': 'Sub', 'union': 'BitOr', 'intersection': 'BitAnd',
          'symmetric_difference': 'BitXor'}


def constants(self, oid):
    c = self.c(oid)
    els = list(c.pl[1]) if c.pl and c.pl[0] == 'set' else \
        self.concrete(oid) if c.kind != 'str' else None
    if els is None:
        return None
    d = {self.reify(x): x for x in els}
    return d if all(x.op in ('const', 'num') for x in d) else None


def setop(self, op, a, b):
    """difference, union, ... of sets"""
    A, B = constants(self, a), constants(self, b)
    tm = mk('call', 'set.' + op, (self.reify(a), self.reify(b)), ())
    if A is None or B is None:
        return self.val(tm, 'set')
    d = {k: {**B, **A}[k] for k in {**A, **B}
         if {'Sub': k in A and k not in B, 'BitOr': True,
             'BitAnd': k in A and k in B,
             'BitXor': (k in A) != (k in B)}[op]}
    return self.val(mk('set', *sorted(d)), 'set',
                    pl=('set', tuple(d.values())))


def distinct(self, els):
    """elements without repetition if equality of all is decided"""
    u = []
    for e in els:
        eqs = [self.decide(t.eq(self.reify(e), self.reify(x))) for x in u]
        if any(q is None for q in eqs):
            return None
        if not any(eqs):
            u.append(e)
    return u


def pyconst(x):
    """python value of a constant term (str, int, tuple of str)"""
    if x.op == 'const' and isinstance(x.a[0], str):
        return x.a[0]
    if x.op == 'num' and x.a[0] == int(x.a[0]):
        return int(x.a[0])
    if x.op == 'tuple':
        r = tuple(pyconst(y) for y in x.a)
        return r if all(isinstance(y, str) for y in r) else None
    return None


def konst(self, v):
    """object for a python constant or a list/tuple of them"""
    if isinstance(v, list):
        els = [self.k(x) for x in v]
        return self.val(mk('list0', 'konst', tuple(v)), 'list',
                        pl=('list', tuple(('e', x) for x in els)))
    if isinstance(v, tuple):
        return self.mk_tuple([self.k(x) for x in v])
    return self.k(v)


def call_meth(self, recv, name, args, kwargs, star, node):
    c = self.c(recv)
    ts = [self.reify(a) for a in args]
    kt = {k: self.reify(v) for k, v in kwargs.items()}
    p = c.pl
    rt = self.reifyC(c)
    self.ev('methcall', node, name=name, recv=rt, args=ts, kwargs=kt,
            rkind=c.kind, oid=recv, oids=args, koids=kwargs, roots=c.roots,
            star=star)
    if self.meth_hook is not None:
        r = self.meth_hook(recv, rt, name, args, kwargs, node)
        if r is not None:
            return r
    # ---- python containers
    if p and p[0] == 'list' and name in ('append', 'extend', 'pop', 'insert',
                                         'copy', 'index', 'clear', 'remove',
                                         'sort', 'reverse', 'count'):
        if name == 'append':
            self.append(recv, args[0], node)
            return self.k(None)
        if name == 'extend':
            self.extend(recv, args[0], node)
            return self.k(None)
        if name == 'copy':
            return self.val(mk('list0', str(self.site(node)),
                               node.col_offset), 'list', pl=p)
        if name == 'pop':
            els = self.concrete(recv)
            if c.roots:
                self.mutate(recv, node, 'pop')
            i = int(ts[0].a[0]) if ts and ts[0].op == 'num' else -1
            if els:
                if -len(els) <= i < len(els):
                    r = els.pop(i)
                    self.st.set(recv, c.but(pl=('list', tuple(
                        ('e', x) for x in els))))
                    return r
            tm = mk('popped', self.list_term(p[1]), num(i))
            self.st.set(recv, c.but(pl=('list', (('u', tm),))))
            return self.val(mk('get', self.list_term(p[1]), num(i)))
        if name in ('index', 'count'):
            return self.val(mk('call', 'meth.' + name, (rt,) + tuple(ts),
                               ()), 'num')
        if c.roots:
            self.mutate(recv, node, name)
        if name == 'clear':
            self.st.set(recv, c.but(pl=('list', ())))
            return self.k(None)
        self.callbacks(list(kwargs.values()), node)
        self.st.set(recv, c.but(pl=('list', (('u', mk(
            'listop', name, self.list_term(p[1]), *ts)),))))
        return self.k(None)
    if p and p[0] == 'dict':
        r = _dict_meth(self, recv, c, name, args, kwargs, star, node)
        if r is not None:
            return r
    if p and p[0] == 'set':
        if name in ('issubset', 'issuperset') and args:
            o = self.c(args[0])
            other = list(o.pl[1]) if o.pl and o.pl[0] == 'set' else \
                self.concrete(args[0])
            if other is not None:
                A = {self.reify(x) for x in p[1]}
                B = {self.reify(x) for x in other}
                if all(x.op in ('const', 'num') for x in A | B):
                    return self.k(A <= B if name == 'issubset' else A >= B)
    if c.kind == 'set' and name in SETOPS and len(args) == 1:
        return setop(self, SETOPS[name], recv, args[0])
    if c.kind == 'str' and name in ('format', 'join', 'strip', 'lower',
                                    'upper', 'split', 'replace',
                                    'startswith', 'endswith', 'lstrip',
                                    'rstrip', 'removeprefix', 'removesuffix',
                                    'capitalize', 'title', 'isdigit',
                                    'rsplit', 'find', 'count', 'partition',
                                    'rpartition'):
        plain = [pyconst(x) for x in ts]
        if rt.op == 'const' and isinstance(rt.a[0], str) and \
                name not in ('format', 'join') and not kt and all(
                    x is not None for x in plain):
            try:
                return self.konst(getattr(rt.a[0], name)(*plain))
            except (TypeError, ValueError):
                pass
        if name == 'strip' and not ts:
            r = stripped(self, rt)
            if r is not None:
                return self.val(r, 'str')
        if name == 'join' and args and rt.op == 'const':
            els = self.concrete(args[0])
            if els is not None:
                es = [self.reify(x) for x in els]
                if all(x.op == 'const' and isinstance(x.a[0], str)
                       for x in es):
                    return self.k(rt.a[0].join(x.a[0] for x in es))
        return self.val(mk('call', 'str.' + name, (rt,) + tuple(ts), tuple(
            sorted(kt.items()))), 'list' if name == 'split' else 'str')
    # ---- data frames
    if p and p[0] == 'inst' and p[1].is_df() or c.kind in ('df',):
        r = self.df_method(recv, c, name, args, kwargs, ts, kt, star, node)
        if r is not None:
            return r
    if name in MUTATORS and c.kind not in ('num', 'str', 'ext'):
        if not (name in ('sort', 'partition', 'update', 'add', 'put',
                         'insert', 'pop') and c.kind in ('inst',)):
            self.mutate(recv, node, name + '()')
            if name == 'pop':
                self.st.set(recv, c.but(term=mk('popped', rt, *ts)))
                return self.val(mk('call', 'meth.pop', (rt,) + tuple(ts),
                                   ()), 'opaque')
            if c.kind in ('list', 'opaque', 'arr', 'set', 'dict', 'phi'):
                self.st.set(recv, c.but(term=mk('methmut', name, rt, *ts),
                                        pl=None if p and p[0] in (
                                            'list', 'dict', 'set') else p))
            return self.k(None)
    if kt.get('inplace') is TRUE:
        self.mutate(recv, node, name + '(inplace=True)')
        self.st.set(recv, c.but(term=mk('methmut', name, rt, *ts)))
        return self.k(None)
    if c.kind in ('arr', 'series', 'opaque', 'num', 'bool', 'phi', 'list',
                  'tuple', 'df'):
        if name in SAME:
            if name in ('copy', 'flatten', 'tolist', 'to_list'):
                return self.val(rt, {'tolist': 'list', 'to_list': 'list'}.get(
                    name, c.kind))
            if name == 'to_numpy':
                return self.val(rt, 'arr', frozenset() if kt.get('copy')
                                is TRUE else c.roots)
            if name in ('ravel', 'squeeze', 'view', 'reshape'):
                tm = rt if name != 'reshape' else mk(
                    'call', 'meth.reshape', (rt,) + tuple(ts), ())
                return self.val(tm, c.kind, c.roots,
                                ('view', recv) if c.kind == 'arr' else None)
            return self.val(rt, 'num')
        if name == 'astype':
            d = ts[0] if ts else NONE
            if d.op == 'ext' and d.a[0] == 'builtins.int' or (
                    d.op == 'const' and d.a[0] == 'int'):
                if t.isint(rt):
                    return self.val(rt, c.kind)
                return self.val(mk('astype', rt, 'int'), c.kind)
            if d.op == 'ext' and d.a[0] == 'builtins.bool':
                if t.isbool(rt):
                    return self.val(rt, c.kind)
                return self.val(t.not_(t.eq(rt, t.ZERO)), c.kind)
            return self.val(mk('astype', rt, t.show(d)), c.kind)
        if name in METH2FUN and c.kind != 'df' and not (
                name == 'round' and c.kind == 'opaque' and False):
            f = METH2FUN[name]
            if f == 'meth.compress':
                return self.call_ext('numpy.compress', [args[0], recv],
                                     {}, None, node)
            if f == 'numpy.unique' and name == 'unique' and \
                    c.kind == 'series':
                return self.val(mk('call', f, (rt,), ()), 'arr')
            return self.call_ext(f, [recv] + list(args), kwargs, star, node)
        if name == 'dropna':
            return self.val(mk('sel', rt, t.not_(mk(
                'call', 'numpy.isnan', (rt,), ()))), c.kind)
        if name in ('notna', 'notnull'):
            return self.val(t.not_(mk('call', 'numpy.isnan', (rt,), ())),
                            c.kind)
        if name == 'isin':
            return self.val(mk('call', 'numpy.isin', (rt,) + tuple(ts), ()),
                            c.kind)
        if name == 'reset_index' and c.kind == 'series':
            return self.val(rt, 'series')
        if name in ('transpose',):
            return self.val(mk('attr', rt, 'T'), c.kind, c.roots,
                            ('view', recv))
        if name == 'diagonal':
            return self.val(mk('call', 'numpy.diagonal', (rt,), ()), 'arr',
                            c.roots, ('view', recv))
        if name == 'iterrows':
            return self.val(mk('call', 'meth.iterrows', (rt,), ()), 'gen')
    self.callbacks(args + list(kwargs.values()), node)
    tm = mk('call', 'meth.' + name, (rt,) + tuple(ts), tuple(
        sorted(kt.items())) + ((('**', star),) if star is not None else ()))
    if rt.op == 'ext' or any(x.op == 'rng' for x in (rt,)):
        pass
    # random generators
    if rt.op == 'call' and rt.a[0] in ('numpy.random.default_rng',
                                       'numpy.random.RandomState') or \
            rt.op == 'rng':
        tm = mk('rng', 'Generator.' + name, (rt,) + tuple(ts),
                tuple(sorted(kt.items())))
        return self.val(tm, 'arr')
    return self.val(tm, 'opaque')


def _dict_meth(self, recv, c, name, args, kwargs, star, node):
    p = c.pl
    d = dict(p[1])
    if name in ('keys',):
        if p[2] is None and all(cd is TRUE for _, (o, cd) in p[1]):
            ks = [self.val(k) if isinstance(k, T) else self.k(k) for k in d]
            return self.val(mk('keys', self.reifyC(c)), 'list',
                            pl=('list', tuple(('e', k) for k in ks)))
        return self.val(mk('keys', self.reifyC(c)), 'list')
    if name == 'values':
        if p[2] is None and all(cd is TRUE for _, (o, cd) in p[1]):
            return self.val(mk('vals', self.reifyC(c)), 'list',
                            pl=('list', tuple(('e', o)
                                              for o, _ in d.values())))
        return self.val(mk('vals', self.reifyC(c)), 'list')
    if name == 'items':
        if p[2] is None and all(cd is TRUE for _, (o, cd) in p[1]):
            return self.val(mk('items', self.reifyC(c)), 'gen',
                            pl=('items', p[1]))
        return self.val(mk('items', self.reifyC(c)), 'gen')
    if name in ('get', 'setdefault', 'pop') and args:
        k = self.ckey(args[0])
        dflt = args[1] if len(args) > 1 else self.k(None)
        if name == 'pop':
            if c.roots:
                self.mutate(recv, node, 'pop')
        if k in d:
            o, cd = d[k]
            if name == 'pop':
                del d[k]
                self.st.set(recv, c.but(pl=('dict', tuple(d.items()), p[2])))
            if cd is TRUE:
                return o
            self._mg = {}
            return self.phi_oid(cd, o, dflt, self.st.get, self.st.get)
        if p[2] is None and not isinstance(k, T):
            if name == 'setdefault':
                self.setitem(recv, args[0], dflt, node)
            return dflt
        if p[2] is not None and not isinstance(k, T):
            self._mg = {}
            g = self.val(mk('get', p[2], const(k)))
            return self.phi_oid(mk('in_', const(k), p[2]), g, dflt,
                                self.st.get, self.st.get)
        return self.val(mk('get', self.reifyC(c), self.reify(args[0]),
                           self.reify(dflt)))
    if name == 'update':
        if c.roots:
            self.mutate(recv, node, 'update')
        rest = p[2]
        srcs = list(args)
        for s in srcs:
            sc = self.c(s)
            if sc.pl and sc.pl[0] == 'dict':
                for k, (o, cd) in sc.pl[1]:
                    if k in d and cd is not TRUE:
                        self._mg = {}
                        o = self.phi_oid(cd, o, d[k][0], self.st.get,
                                         self.st.get)
                        cd = t.or_(cd, d[k][1])
                    d[k] = (o, cd)
                if sc.pl[2] is not None:
                    rest = sc.pl[2]
            else:
                rest = self.reifyC(sc)
        for k, v in kwargs.items():
            d[k] = (v, TRUE)
        if star is not None:
            rest = star
        self.st.set(recv, c.but(pl=('dict', tuple(d.items()), rest)))
        return self.k(None)
    if name == 'copy':
        return self.val(mk('dict0', str(self.site(node)), node.col_offset),
                        'dict', pl=p)
    if name == 'clear':
        if c.roots:
            self.mutate(recv, node, 'clear')
        self.st.set(recv, c.but(pl=('dict', (), None)))
        return self.k(None)
    return None


ROWKEEP = {'assign', 'astype', 'fillna', 'rename', 'replace',
           'set_index', 'round', 'clip'}


def df_method(self, recv, c, name, args, kwargs, ts, kt, star, node):
    p = c.pl
    isinst = p and p[0] == 'inst'
    inpl = kt.get('inplace')
    self.callbacks(args + list(kwargs.values()), node)

    def result(term, keepcols=False, drop=()):
        if isinst:
            d = {k: v for k, v in p[2].items()
                 if k[0] != '$' or (keepcols and k[1:] not in drop)}
            return self.val(term, 'inst', pl=('inst', p[1], d))
        return self.val(term, 'df')

    kts = tuple(sorted((k, v) for k, v in kt.items() if k != 'inplace'))
    if name == 'copy':
        return result(c.term, True)
    known = self.colset(c.term)
    if known is not None and isinst:
        # the columns which were added stay when rows are selected
        new = tuple(k[1:] for k in p[2] if k[0] == '$'
                    and k[1:] not in known)
        full = mk('call', 'df.' + name, (c.term,) + tuple(ts), kts)
        if new and 'df.' + name in self.KEEPCOLS:
            self.colsets[full] = known + new
    if name in ('drop', 'dropna', 'fillna', 'sort_values', 'reset_index',
                'set_index', 'rename', 'replace', 'query', 'drop_duplicates',
                'sort_index', 'head', 'tail', 'sample', 'filter', 'astype',
                'select_dtypes', 'reindex', 'assign', 'nlargest',
                'nsmallest', 'truncate', 'round', 'clip', 'where', 'mask',
                'droplevel', 'fillna', 'add_prefix'):
        if name == 'reset_index':
            tm = c.term if c.term.op == 'resetidx' else mk('resetidx',
                                                           c.term)
            if kt.get('drop') is not TRUE:
                tm = mk('resetidx', c.term)
        elif name in ('drop', 'filter', 'select_dtypes', 'rename',
                      'add_prefix') and 'index' not in kt and \
                not (name == 'drop' and ts and kt.get('axis') is None
                     and 'columns' not in kt):
            tm = mk('call', 'df.' + name, (c.term,) + tuple(ts), kts)
        else:
            tm = mk('call', 'df.' + name, (c.term,) + tuple(ts), kts)
        if inpl is TRUE:
            self.mutate(recv, node, name + '(inplace=True)')
            self.rebase(recv, tm)
            return self.k(None)
        if inpl is not None and inpl is not FALSE:
            def doit():
                self.mutate(recv, node, name + '(inplace=True)')
                self.rebase(recv, tm)
                return self.k(None)
            return self.fork(self.as_cond(inpl), doit,
                             lambda: result(tm))
        if name == 'select_dtypes' or name == 'filter':
            return result(tm)
        return result(tm, name in ('drop', 'filter'))
    if name in ('insert', 'pop', 'update'):
        self.mutate(recv, node, name + '()')
        col = ts[0] if name == 'pop' and ts else None
        self.rebase(recv, mk('methmut', name, c.term, *ts))
        return self.val(mk('call', 'meth.' + name, (c.term,) + tuple(ts),
                           kts), 'series')
    if name == 'apply':
        return self.val(mk('call', 'df.apply', (c.term,) + tuple(ts), kts),
                        'series')
    if name == 'groupby':
        self.ev('groupby', node, term=c.term, args=ts, kwargs=kt,
                star=star)
        return self.val(mk('call', 'df.groupby', (c.term,) + tuple(ts), kts))
    if name == 'get' and ts and ts[0].op == 'const':
        return self.val(mk('col?', c.term, ts[0]), 'phi')
    if name == 'to_dict':
        return self.val(mk('call', 'df.to_dict', (c.term,) + tuple(ts),
                           kts), 'list')
    if name in ('isna', 'isnull', 'notna', 'min', 'max', 'mean', 'sum',
                'any', 'all', 'items', 'iterrows', 'itertuples', 'equals',
                'to_numpy', 'describe', 'agg', 'aggregate', 'merge', 'join',
                'duplicated', 'keys', 'count', 'std', 'var', 'nunique'):
        if name == 'iterrows':
            return self.val(mk('call', 'meth.iterrows', (c.term,), ()),
                            'gen')
        if name == 'to_numpy':
            return self.val(c.term, 'arr')
        return self.val(mk('call', 'df.' + name, (c.term,) + tuple(ts), kts))
    return None


def as_cond(self, tm):
    return tm if t.isbool(tm) else mk('truth', tm)


def _inst2(cls):
    cls.as_cond = as_cond
    cls.konst = konst


_old_install = install


def install(cls):  # noqa: F811
    _old_install(cls)
    _inst2(cls)

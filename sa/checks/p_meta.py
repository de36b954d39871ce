"""P14: tables keep their class and metadata."""
from .. import terms as t
from ..terms import mk
from ..run import Spec, number, opaque
from .base import cut
from .common import all_entries, configs, run_entry, done, site_of

RULE = 'for every DataFrame subclass: (1) every public attribute the '\
       'constructor sets is listed in _metadata and comes from the '\
       'parameter of that name, (2) _constructor gives a table with the '\
       'required columns of a class that class, (3) __finalize__ copies '\
       'every entry of _metadata from the first/left table, (4) tables '\
       'returned by methods, and the object itself, have the metadata of '\
       'the object unless the method is there to set it'
ASSUMPTIONS = ['pandas builds results with _constructor(DataFrame) followed '
               'by __finalize__, whose base version copies _metadata from '
               'table to table (pandas documentation)']
SETS = {'estimate_b': 'b_value', 'estimate_a': 'a_value',
        'estimate_mc_maxc': 'mc', 'estimate_mc_ks': 'mc',
        'estimate_mc_b_stability': 'mc', 'bin_magnitudes': 'delta_m'}
ROOTS = ('seismostats.catalogs.catalog.Catalog',
         'seismostats.catalogs.rategrid.GRRateGrid')
PANDAS = ('index', 'columns', 'attrs', 'flags')
COMBINE = {'Catalog': ('concat', 'merge'), 'GRRateGrid': ('concat',)}


def classes(R):
    for q in ROOTS:
        if R.has(q):
            root = R.classinfo(q)
            seen = {root.qual: root}
            for k, ci in sorted(R.I.classes.items()):
                if ci.issub(root):
                    seen[ci.qual] = ci
            for ci in seen.values():
                yield root, ci


def strings(R, ci, name):
    k, o = ci.lookup(name)
    if o is None:
        return None
    R.begin('class attribute')
    I = R.I
    c = I.c(o)
    if not (c.pl and c.pl[0] in ('list', 'tuple')):
        return None
    els = c.pl[1]
    if c.pl[0] == 'list':
        if any(s[0] != 'e' for s in els):
            return None
        els = [s[1] for s in els]
    out = []
    for e in els:
        x = I.reify(e)
        if x.op != 'const' or not isinstance(x.a[0], str):
            return None
        out.append(x.a[0])
    return out


def entry_cfgs(R, key, cap):
    E, c = configs(R, key, cap)
    for lab, cfg in c:
        s = cfg.get('self')
        if not (isinstance(s, Spec) and s.kind == 'catalog'):
            continue
        yield lab, cfg
        for root, ci in classes(R):
            if ci.qual == s.cls or ci is root:
                continue
            if R.classinfo(s.cls) in ci.mro():
                extra = {m: opaque() for m in strings(R, ci, '_metadata')
                         or () if m not in s.attrs and m[0] != '_'
                         and m != 'logger'}
                cols = tuple(s.colset or ()) + tuple(
                    x for x in strings(R, ci, '_required_cols') or ()
                    if x not in (s.colset or ()))
                s2 = Spec('catalog', cls=ci.qual, cols=s.cols,
                          attrs=dict(s.attrs, **extra), colset=cols)
                yield lab + '/' + ci.name, dict(cfg, self=s2)


def names(x, cols):
    """the set of column names a term stands for, None if unknown"""
    if x.op in ('set', 'list', 'tuple'):
        if all(isinstance(y, t.T) and y.op == 'const'
               and isinstance(y.a[0], str) for y in x.a):
            return {y.a[0] for y in x.a}
        return None
    if x.op == 'const' and isinstance(x.a[0], str):
        return {x.a[0]}
    if x.op == 'call' and isinstance(x.a[0], str):
        v = [names(y, cols) if isinstance(y, t.T) else None for y in x.a[1]]
        if not v or None in v:
            return None
        f = x.a[0].split('.')[-1]
        if f in ('set', 'list', 'tuple', 'sorted', 'frozenset', 'Index',
                 'tolist', 'to_list', 'unique', 'asarray', 'array'):
            return v[0]
        if len(v) == 2:
            return v[0] - v[1] if f in ('difference', 'Sub') else \
                v[0] & v[1] if f in ('intersection', 'BitAnd') else \
                v[0] | v[1] if f in ('union', 'BitOr') else None
    return None


def remaining(x, cols):
    """columns of the table a term stands for"""
    if x is mk('in', 'self'):
        return set(cols)
    if x.op == 'call' and x.a[0] in ('df.drop', 'df.copy', 'df.__getitem__',
                                     'df.filter', 'df.reindex') and x.a[1]:
        b = remaining(x.a[1][0], cols)
        if b is None or x.a[0] == 'df.copy':
            return b
        kw = dict(x.a[2]) if len(x.a) > 2 and x.a[2] else {}
        y = kw.get('columns', kw.get('items'))
        if y is None and len(x.a[1]) > 1 and (
                x.a[0] != 'df.drop' or kw.get('axis') in (
                    t.num(1), t.const('columns'))):
            y = x.a[1][1]
        v = names(y, cols) if isinstance(y, t.T) else None
        if v is None:
            return None
        return b - v if x.a[0] == 'df.drop' else v
    return None


def strip(R, out):
    """strip() leaves exactly the required columns"""
    for key, E in all_entries(R).items():
        if E.qual.split('.')[-1] != 'strip':
            continue
        for lab, cfg in entry_cfgs(R, key, None):
            s = cfg['self']
            ci = R.classinfo(s.cls)
            req = strings(R, ci, '_required_cols')
            if cfg.get('inplace') is True or not req:
                continue
            cols = tuple(req) + ('a_column', 'another_column')
            c2 = dict(cfg, self=Spec('catalog', cls=s.cls, cols=s.cols,
                                     attrs=s.attrs, colset=cols))
            q = ci.qual + '.strip'
            r = R.run(q if R.has(q) else E.qual, c2, name=lab)
            done(out, r)
            if r.dead:
                continue
            got = remaining(r.result(), cols)
            if got is None:
                out.ob('undetermined: columns left by strip()')
                continue
            out.ob('columns left by strip()')
            if got != set(req):
                d = got ^ set(req)
                out.flag('meta.strip', site_of(R.I, E.qual),
                         f'{ci.qual}|strip',
                         f'strip() of a {ci.name} does not leave exactly '
                         f'the required columns: {", ".join(sorted(d))}',
                         lab)


CAP = {'quick': 24, 'thorough': None}


def tasks(R, tier):
    for root, ci in classes(R):
        yield ('class', root.qual, ci.qual)
    yield ('strip',)
    for key, E in all_entries(R).items():
        if 'catalog' in E.tags or 'grid' in E.tags:
            n = len(list(entry_cfgs(R, key, CAP[tier])))
            for i in range(0, n, 12):
                yield ('entry', key, i, i + 12)


def work(R, task, out):
    if task[0] == 'class':
        return klass(R, R.classinfo(task[1]), R.classinfo(task[2]), out)
    if task[0] == 'strip':
        return strip(R, out)
    _, key, i, j = task
    E = all_entries(R)[key]
    meth = E.qual.split('.')[-1]
    for lab, cfg in list(entry_cfgs(R, key, CAP[R.tier]))[i:j]:
        ci = R.classinfo(cfg['self'].cls)
        meta = strings(R, ci, '_metadata') or []
        q = ci.qual + '.' + meth
        q = q if R.has(q) else E.qual
        # starting values of the metadata
        if E.runner is not None or q == E.qual:
            r = run_entry(R, E, cfg, None, lab)
        else:
            r = R.run(q, cfg, name=lab)
        done(out, r)
        if r.dead:
            continue
        site = site_of(R.I, E.qual)
        oid = r.args.get('self')
        init = {}
        for m, s in cfg['self'].attrs.items():
            init[m] = expected(cfg['self'], m)
        got = dict(out=r.attrs(r.out)) if isdf(r, r.out) else {}
        got['self'] = r.attrs(oid)
        for which, d in got.items():
            if which == 'out' and r.evs('new'):
                out.ob('class of returned tables')
                rc = r.c(r.out)
                if rc.pl[1] is not ci:
                    out.flag('meta.class', site, f'{E.qual}|class',
                             f'{E.qual} of a {ci.name} returns a '
                             f'{rc.pl[1].name}', lab)
            for m in meta:
                if m not in init:
                    continue
                if SETS.get(meth) == m:
                    if meth == 'bin_magnitudes':
                        binned(R, r, cfg, which, d.get(m), site, out)
                    continue
                o = d.get(m)
                x = r.term(o) if o is not None else t.UNBOUND
                out.ob('metadata kept by methods')
                if x is not init[m]:
                    out.flag('meta.method', site, f'{E.qual}|{m}|{which}',
                             f'{m} of the '
                             + ('returned table' if which == 'out'
                                else 'object') +
                             f' is {cut(x, 80)} instead of that of the '
                             'object the method was called on', lab)


def expected(spec, m):
    s = spec.attrs[m]
    if s is None:
        return t.NONE
    if isinstance(s, Spec):
        return s.eq if s.eq is not None else mk('in', s.name
                                                or 'self.' + m)
    return t.num(s) if isinstance(s, (int, float)) else t.const(s)


def isdf(r, oid):
    c = r.c(oid)
    return bool(c.pl and c.pl[0] == 'inst' and c.pl[1].is_df())


def binned(R, r, cfg, which, o, site, out):
    """bin_magnitudes leaves the bin width it used"""
    inplace = cfg.get('inplace')
    given = cfg.get('delta_m')
    own = expected(cfg['self'], 'delta_m')
    want = own if given is None else mk('in', 'delta_m') \
        if isinstance(given, Spec) else t.num(given)
    if which == 'self' and not inplace:
        want = own
    x = r.term(o) if o is not None else t.UNBOUND
    out.ob('bin width of binned catalogs')
    if x is not want:
        out.flag('meta.binned', site, f'bin_magnitudes|{which}|{inplace}',
                 f'delta_m after bin_magnitudes is {cut(x, 80)} instead of '
                 f'{cut(want, 60)}', r.name)


def klass(R, root, ci, out):
    meta = strings(R, ci, '_metadata')
    site = site_of(R.I, ci.qual)
    if meta is None:
        out.ob('undetermined: _metadata')
        return
    for k in ci.mro():
        m = strings(R, k, '_metadata') if 'seismostats' in k.qual else None
        for n in m or ():
            out.ob('metadata of the base class')
            if n not in meta:
                out.flag('meta.inherit', site, f'{ci.name}|{n}',
                         f'_metadata of {ci.name} lacks {n} of {k.name}: it '
                         'is lost in every pandas operation')
    E = all_entries(R).get(ci.name)
    for lab, cfg in configs(R, ci.name, 64)[1] if E else ():
        r = run_entry(R, E, cfg, None, lab)
        done(out, r)
        if r.dead:
            continue
        names = set()
        for e in r.evs('setattr'):
            if e.d['cls'] == ci.qual and e.d['obj'] == r.out and \
                    not e.d['name'].startswith('_'):
                n = e.d['name']
                if n in PANDAS or any(n in k.attrs for k in ci.mro()):
                    continue
                names.add(n)
                out.ob('attributes listed in _metadata')
                if n not in meta:
                    out.flag('meta.listed', e.site, f'{ci.name}|{n}',
                             f'attribute {n} is not in _metadata of '
                             f'{ci.name}: it is lost in every pandas '
                             'operation', lab)
        d = r.attrs(r.out)
        for n, s in cfg.items():
            n0 = n[4:] if n.startswith('new.') else n
            if n0 not in meta or n0 == 'self':
                continue
            out.ob('constructor parameters stored')
            x = r.term(d[n0]) if n0 in d else t.UNBOUND
            if isinstance(s, Spec) and n0 not in t.inputs(x):
                out.flag('meta.stored', site, f'{ci.name}|{n0}',
                         f'constructor argument {n0} is not stored: the '
                         f'attribute is {cut(x, 80)}', lab)
    finalize(R, root, ci, meta, out)
    constructor(R, root, ci, out)


def finalize(R, root, ci, meta, out):
    q = ci.qual + '.__finalize__'
    if ci.lookup('__finalize__')[1] is None:
        out.ob('undetermined: no __finalize__')
        return
    site = site_of(R.I, q)
    for m in COMBINE.get(root.name, ()) + (None,):
        r = R.run(q, dict(self=Spec('catalog', cls=ci.qual, attrs={},
                                    cols={}), other=opaque(), method=m),
                  name=f'{ci.name}.__finalize__({m})')
        done(out, r)
        if r.dead:
            out.flag('meta.finalize', site, f'{ci.name}|{m}|dead',
                     f'__finalize__ fails for method={m!r}', r.name)
            continue
        out.ob('__finalize__ returns the table')
        if r.result() is not mk('in', 'self'):
            out.flag('meta.finalize', site, f'{ci.name}|{m}|result',
                     f'__finalize__ returns {cut(r.result(), 80)}', r.name)
        sup = [e for e in r.evs('superext')
               if e.d['name'] == '__finalize__'
               and mk('in', 'other') in e.d['args'] + tuple(
                   e.d['kwargs'].values())]
        out.ob('__finalize__ of pandas called')
        if not sup:
            out.flag('meta.finalize', site, f'{ci.name}|{m}|super',
                     'the metadata of the other table is not handed to '
                     'pandas (super().__finalize__)', r.name)
        if m is None:
            continue
        got = {}
        opaquely = False
        for e in r.evs('extcall'):
            if e.d['name'] == 'builtins.object.__setattr__' and \
                    len(e.d['args']) == 3:
                o, n, v = e.d['args']
                if o is mk('in', 'self'):
                    if n.op == 'const':
                        got[n.a[0]] = v
                    else:
                        opaquely = True
        for e in r.evs('setattr'):
            got.setdefault(e.d['name'], e.d['value'])
        if r.evs('setattr_dyn'):
            opaquely = True
        objs = mk('attr', mk('in', 'other'), 'objs')

        def issrc(x):
            if m == 'merge':
                return x is mk('attr', mk('in', 'other'), 'left')
            return x.op in ('get', 'at', 'item') and x.a[0] is objs and \
                str(t.show(x.a[1], 2) if isinstance(x.a[1], t.T)
                    else x.a[1]) == '0'
        for n in meta:
            if n.startswith('_') or n == 'logger':
                continue
            out.ob(f'metadata copied by {m}')
            if n not in got:
                if opaquely:
                    out.ob('undetermined: computed attribute name')
                    continue
                out.flag('meta.finalize', site, f'{ci.name}|{m}|{n}',
                         f'{n} is lost by {m}', r.name)
                continue
            ok = any(y.op in ('attr', 'getattr') and issrc(y.a[0])
                     and y.a[1] == n for y in t.subterms(got[n]).values())
            if not ok and not any(y.op == 'attr' and y.a[1] == n
                                  for y in t.subterms(got[n]).values()):
                ok = got[n].op == 'unknown'
            if not ok:
                out.flag('meta.finalize', site, f'{ci.name}|{m}|{n}',
                         f'{n} of the result of {m} is {cut(got[n], 80)} '
                         'instead of that of the '
                         + ('first' if m == 'concat' else 'left')
                         + ' table', r.name)


def constructor(R, root, ci, out):
    need = strings(R, ci, '_required_cols')
    if need is None or ci.lookup('_constructor')[1] is None:
        out.ob('undetermined: _constructor')
        return
    cases = [(tuple(need), ci)]
    if ci is root:
        cases.append((('x',), None))
        if root.name == 'Catalog':
            cases.append((('magnitude',), ci))
    q = ci.qual + '._constructor'
    site = site_of(R.I, q)
    for cols, want in cases:
        r = R.begin(f'{ci.name}._constructor({len(cols)} columns)')
        o = R.arg('self', Spec('catalog', cls=ci.qual, attrs={}, cols={}))
        f = R.getattr(o, '_constructor')
        df = R.arg('df', Spec('df'))
        R.I.colsets[mk('in', 'df')] = cols
        res = R.call(f, [df], {}) if f is not None else None
        r = R.finish(r, res)
        done(out, r)
        if r.dead:
            out.flag('meta.constructor', site, f'{ci.name}|{len(cols)}|dead',
                     f'_constructor fails for a table with {cols}', r.name)
            continue
        c = r.c(r.out)
        have = c.pl[1] if isdf(r, r.out) else None
        if c.kind not in ('inst', 'df') and have is None:
            out.ob('undetermined: class of the constructed table')
            continue
        out.ob('class of the constructed table')
        if have is not want:
            out.flag('meta.constructor', site, f'{ci.name}|{len(cols)}',
                     'a table with the columns '
                     f'{", ".join(cols[:12])} becomes a '
                     f'{have.name if have else "DataFrame"}, not a '
                     f'{want.name if want else "DataFrame"}', r.name)

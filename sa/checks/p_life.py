"""P11: results depend on the last call only; none before the first."""
from .. import terms as t
from ..run import Spec, Ref
from ..entries import (accessors, bclasses, aclasses, calc_axes, Entry,
                       MethodEntry)
from .base import cut
from .common import all_entries, configs, done, site_of

RULE = 'every estimator class is interpreted (1) without calculate(): '\
       'reading a result must end in an AttributeError; (2) with two '\
       'calculate() calls with different symbolic arguments: neither the '\
       'second result, nor any attribute or public accessor read afterwards '\
       'may contain an argument of the first call; the same two-call '\
       'analysis is made for the methods of catalogs, clients, windows, '\
       'declustering and coordinate objects'
ASSUMPTIONS = []
RESULTS = ('b_value', 'a_value', 'value', 'beta', 'std', 'std_beta', 'n')
METHODS = ('p_lilliefors',)
PREV = 'earlier call: '
CATALOG = ('Catalog.estimate_b', 'Catalog.estimate_a',
           'Catalog.estimate_mc_maxc', 'Catalog.estimate_mc_ks',
           'Catalog.estimate_mc_b_stability')
CAP = {'quick': 48, 'thorough': None}


def class_cfgs(R, ci):
    base, axes = calc_axes(R, ci)
    return list(Entry(ci.name, ci.qual, base, axes).configs())


def two_calls(R):
    for key, E in all_entries(R).items():
        if isinstance(E, MethodEntry) or key in CATALOG:
            if 'client' in E.tags:
                continue
            yield key, E


def tasks(R, tier):
    for ci in bclasses(R) + aclasses(R):
        yield ('fresh', ci.qual)
        n = len(class_cfgs(R, ci))
        for i in range(0, n, 2):
            yield ('class', ci.qual, i, i + 2)
    for key, E in two_calls(R):
        n = len(configs(R, key, CAP[tier])[1])
        for i in range(0, n, 4):
            yield ('entry', key, i, i + 4)


def stale(x):
    return sorted(n for n in t.inputs(x) if n.startswith(PREV))


def check(out, r, site, key, what, x):
    out.ob('independent of the earlier call')
    s = stale(x)
    if s:
        out.flag('life.stale', site, key,
                 f'{what} contains {s[0][len(PREV):]} of an earlier call: '
                 f'{cut(x, 100)}', r.name)


def public(n):
    return not n.startswith('_')


def attrs_of(r, oid):
    return {n: r.term(v) for n, v in r.attrs(oid).items()}


def work(R, task, out):
    if task[0] == 'fresh':
        return fresh(R, R.classinfo(task[1]), out)
    if task[0] == 'class':
        return klass(R, R.classinfo(task[1]), task[2], task[3], out)
    _, key, i, j = task
    E, c = configs(R, key, CAP[R.tier])
    for lab, cfg in c[i:j]:
        if key in CATALOG:
            if 'delta_m' in E.axes and cfg.get('delta_m') is None:
                continue
            if 'mc' in E.axes and cfg.get('mc') is None:
                continue
            if 'b_value' in E.axes and cfg.get('b_value') is None:
                continue
        method(R, E, cfg, lab, c[-1][1], out)


def fresh(R, ci, out):
    names = [n for n in RESULTS + METHODS if ci.lookup(n)[1] is not None]
    calc = calc_axes(R, ci)
    for n in names:
        if n in calc[0] or n in calc[1]:
            continue
        r = R.begin(f'{ci.name}.{n} before calculate()')
        o = R.call(R.qual(ci.qual))
        v = R.getattr(o, n) if o is not None else None
        if n in METHODS and v is not None:
            v = R.call(v)
        R.finish(r, v)
        done(out, r)
        out.ob('no result before calculate()')
        if not r.dead:
            x = r.result()
            if x is t.NONE and n == 'std':
                continue            # not provided by the a-value estimators
            out.flag('life.fresh', site_of(R.I, f'{ci.qual}.{n}'),
                     f'{ci.qual}|{n}',
                     f'{n} can be read before calculate(): {cut(x, 60)}',
                     r.name)
        else:
            ex = [e.d['exc'] for e in r.evs('raise')]
            if ex and ex[-1] != 'AttributeError':
                out.flag('life.fresh', site_of(R.I, f'{ci.qual}.{n}'),
                         f'{ci.qual}|{n}|exc',
                         f'{n} read before calculate() raises {ex[-1]}, not '
                         'AttributeError', r.name)
    out.sample(ci.name)


def klass(R, ci, i, j, out):
    cf = class_cfgs(R, ci)
    full, least = cf[-1][1], cf[0][1]
    names = [n for n in accessors(ci)
             if n not in ('calculate', 'filter_nan')]
    for lab, cfg in cf[i:j]:
        for first in (full, least):
            r = R.begin(f'{lab} after another calculate()')
            o = R.call(R.qual(ci.qual))
            kw = {k: R.arg(PREV + k, s) for k, s in first.items()}
            if o is None or R.call(R.getattr(o, 'calculate'), [], kw) is None:
                R.finish(r, None)
                continue
            for n in names:
                v = R.getattr(o, n)
            kw = {k: R.arg(k, s) for k, s in cfg.items()}
            v = R.call(R.getattr(o, 'calculate'), [], kw)
            read = {}
            if v is not None:
                for n in names:
                    x = R.getattr(o, n)
                    if x is not None and n in METHODS:
                        x = R.call(x)
                    if x is not None:
                        read[n] = x
            R.finish(r, v)
            done(out, r)
            if r.dead:
                continue
            site = site_of(R.I, ci.qual + '.calculate')
            check(out, r, site, f'{ci.qual}|result', 'the result',
                  r.result())
            for n, x in attrs_of(r, o).items():
                if public(n):
                    check(out, r, site, f'{ci.qual}|{n}', n, x)
            for n, x in read.items():
                check(out, r, site_of(R.I, f'{ci.qual}.{n}'),
                      f'{ci.qual}|{n}', f'{n}', r.term(x))
            out.sample(r.name)


def method(R, E, cfg, lab, first, out):
    r = R.begin(lab + ' twice')
    cls = {'new.'}
    if isinstance(E, MethodEntry):
        new = {k[4:]: R.arg(k[4:], s) for k, s in cfg.items()
               if k.startswith('new.')}
        o = R.call(R.qual(E.qual), [], new)
        meth = E.meth
    else:
        o = R.arg('self', cfg['self'])
        meth = E.qual.split('.')[-1]
    if o is None:
        return
    ours = {k: s for k, s in cfg.items()
            if k != 'self' and not k.startswith('new.')}
    if 'method' in first and 'method' in cfg:
        first = dict(cfg)       # the same estimator, other numbers
    kw = {k: R.arg(PREV + k, s) for k, s in first.items()
          if k in ours and s is not None}
    for k, s in ours.items():
        if k not in kw and s is not None:
            kw[k] = R.arg(PREV + k, s)
    if R.call(R.getattr(o, meth), [], kw) is None:
        R.finish(r, None)
        return
    kw = {k: R.arg(k, s) for k, s in ours.items() if s is not None}
    v = R.call(R.getattr(o, meth), [], kw)
    R.finish(r, v)
    done(out, r)
    if r.dead:
        return
    check(out, r, site_of(R.I, E.qual + '.' + meth if isinstance(
        E, MethodEntry) else E.qual), f'{E.key}|result', 'the result',
        r.result())
    out.sample(r.name)

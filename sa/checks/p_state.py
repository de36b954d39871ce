"""P04 caller data, P05 hidden state, P06 warnings option."""
from .. import terms as t
from ..terms import mk, NONE, TRUE, FALSE
from .base import cut
from .common import (entry_tasks, entry_runs, class_tasks, class_runs, done,
                     run_entry, configs, site_of)
from ..entries import accessors

RULE = {
    'P04': 'abstract interpretation with alias roots: every object reachable '
           'from an argument carries that argument as a root (views, '
           'columns, slices and np.asarray keep it, copies and computed '
           'values drop it); every store, in-place operator, mutating '
           'method, inplace=True call, numpy out= and attribute write on a '
           'rooted object is a violation unless it is the documented effect '
           'of the method (inplace=True; mc/b_value/a_value of a catalog)',
    'P05': 'effect analysis of every public entry point: no write may reach '
           'an object created at import time (module globals, class '
           'attributes, mutable default arguments), a closure variable, a '
           'class, an imported module or the process-wide state of numpy, '
           'matplotlib, pandas, warnings or the interpreter; set_option is '
           'the only function which may change the configuration',
    'P06': 'every public entry point is interpreted twice under every '
           'configuration, with the warnings option on and off; returned '
           'values, attributes, drawn data and exceptions of the two '
           'abstract runs must be identical terms and no warning may be '
           'reachable with the option off',
}
ASSUMPTIONS = ['external functions only modify their arguments in the ways '
               'the library model lists (out=, inplace=True, mutating '
               'methods, random.shuffle and the like)']
CAP = {'quick': 60, 'thorough': None}
HEAVY = {'plot_b_significant_1D': {'quick': 8, 'thorough': 48},
         'plot_b_series_constant_nm': {'quick': 30, 'thorough': None},
         'b_significant_1D': {'quick': 30, 'thorough': None}}

EFFECTS = {  # documented attribute writes on the catalog
    'Catalog.estimate_mc_maxc': {'mc'}, 'Catalog.estimate_mc_ks': {'mc'},
    'Catalog.estimate_mc_b_stability': {'mc'},
    'Catalog.estimate_b': {'b_value'}, 'Catalog.estimate_a': {'a_value'},
}
GLOBAL = ('numpy.random.seed', 'numpy.random.set_state', 'random.seed',
          'numpy.seterr', 'numpy.set_printoptions', 'pandas.set_option',
          'pandas.options', 'matplotlib.rc', 'matplotlib.rcdefaults',
          'matplotlib.use', 'matplotlib.style.use',
          'matplotlib.pyplot.rc', 'matplotlib.pyplot.set_cmap',
          'matplotlib.pyplot.style.use', 'matplotlib.pyplot.xkcd',
          'matplotlib.pyplot.switch_backend', 'matplotlib.pyplot.ion',
          'matplotlib.pyplot.ioff', 'matplotlib.pyplot.close',
          'matplotlib.pyplot.clf', 'matplotlib.pyplot.viridis',
          'warnings.simplefilter', 'warnings.filterwarnings',
          'warnings.resetwarnings', 'os.chdir', 'os.putenv',
          'os.environ.update', 'locale.setlocale', 'sys.setrecursionlimit',
          'logging.disable', 'logging.basicConfig',
          'matplotlib.rcParams.update', 'matplotlib.pyplot.rcParams.update',
          'matplotlib.pyplot.jet', 'matplotlib.pyplot.gray')


def tasks(R, tier):
    yield from class_tasks(R)
    for k, v in HEAVY.items():
        yield from entry_tasks(R, v[tier], keys={k}, chunk=2)
    yield from entry_tasks(R, CAP[tier], skip=HEAVY)
    if R.prop == 'P05':
        yield ('options',)


def work(R, task, out):
    if task[0] == 'options':
        options(R, out)
        return
    f = {'P04': p04, 'P05': p05}.get(R.prop)
    if R.prop == 'P06':
        p06(R, task, out)
        return
    if task[0] == 'class':
        for ci, cfg, r in class_runs(R, task, read=()):
            f(r, ci.name, cfg, out, set())
            done(out, r)
            out.sample(r.name)
        return
    for E, cfg, r in entry_runs(R, task):
        f(r, E.key, cfg, out, E.tags)
        done(out, r)
        out.sample(r.name)


# ------------------------------------------------------------------ P04
def p04(r, key, cfg, out, tags):
    args = [k for k, v in r.args.items()]
    out.ob('arguments followed', len(args))
    inplace = cfg.get('inplace') is True
    for e in r.events:
        if e.kind == 'mutate':
            roots = {x for x in e.d['roots'] if x != '@shared'}
            out.ob('writes examined')
            if inplace:
                roots.discard('self')
            if key == 'parse_quakeml_response':
                roots.discard('response')   # the stream is consumed
            if roots:
                out.flag('argument.modified', e.site,
                         f'{e.site[2]}|{",".join(sorted(roots))}',
                         f'{e.d["how"]} changes the caller\'s '
                         f'{", ".join(sorted(roots))}', r.name)
        elif e.kind == 'setattr':
            roots = {x for x in (e.d.get('roots') or ())
                     if x in r.args or x == 'self'}
            if not roots:
                continue
            out.ob('attribute writes examined')
            ok = set(EFFECTS.get(key, ()))
            if inplace:
                ok.add('delta_m')
            if e.d['name'] not in ok:
                out.flag('argument.attribute', e.site,
                         f'{e.site[2]}|{e.d["name"]}',
                         f'attribute {e.d["name"]} of the caller\'s '
                         f'{", ".join(sorted(roots))} is changed', r.name)
        elif e.kind == 'extcall':
            o = e.d['kwargs'].get('out')
            if o is not None and o is not NONE:
                out.ob('out= arguments')
                koids = e.d.get('koids') or {}
                rt = set()
                if 'out' in koids:
                    I = r.interp
                    rt = {x for x in I.c(koids['out']).roots
                          if x != '@shared'} if koids['out'] in \
                        I.st.heap or True else set()
                if rt:
                    out.flag('argument.modified', e.site,
                             f'{e.site[2]}|out',
                             f'{e.d["name"]}(out=...) writes into the '
                             f'caller\'s {", ".join(sorted(rt))}', r.name)


# ------------------------------------------------------------------ P05
def p05(r, key, cfg, out, tags):
    for e in r.events:
        if e.kind == 'mutate':
            out.ob('writes examined')
            if '@shared' in e.d['roots']:
                out.flag('shared.modified', e.site, f'{e.site[2]}|shared',
                         f'{e.d["how"]} changes an object which outlives '
                         'the call (module global, class attribute or '
                         'mutable default)', r.name)
        elif e.kind in ('nonlocal_write', 'class_write', 'extattr_write'):
            out.ob('writes examined')
            out.flag('shared.' + e.kind, e.site,
                     f'{e.site[2]}|{e.kind}|{e.d.get("name")}',
                     f'writes {e.d.get("name")}, which outlives the call',
                     r.name)
        elif e.kind == 'extcall':
            out.ob('external calls examined')
            if e.d['name'] in GLOBAL:
                out.flag('shared.library', e.site,
                         f'{e.site[2]}|{e.d["name"]}',
                         f'{e.d["name"]} changes process-wide state',
                         r.name)
        elif e.kind == 'store':
            n = t.show(e.d['x'], 3)
            if 'rcParams' in n or 'os.environ' in n:
                out.flag('shared.library', e.site, f'{e.site[2]}|store',
                         f'stores into {n}', r.name)


def options(R, out):
    """set_option / get_option themselves"""
    for q in ('seismostats.utils._config.get_option',
              'seismostats.utils._config.set_option'):
        from ..run import string, opaque
        ps = R.params(q)
        r = R.begin(q)
        R.I.overrides = {}
        kw = {p: R.arg(p, opaque()) for p in ps}
        o = R.call(R.qual(q), [], kw)
        R.finish(r, o)
        done(out, r)
        for e in r.events:
            if e.kind in ('mutate', 'nonlocal_write') and q.endswith(
                    'get_option'):
                out.flag('shared.modified', e.site, e.site[2],
                         'reading an option changes it', r.name)
        out.ob('option functions')


# ------------------------------------------------------------------ P06
def observable(r, est=None):
    """what a caller can see of a run, as comparable terms"""
    d = {}
    if not r.dead:
        d['result'] = r.result()
    else:
        d['result'] = 'no normal exit'
    if est is not None:
        for k, v in r.attrs(est).items():
            d['attribute ' + k] = r.term(v)
    for k, o in r.args.items():
        try:
            d['argument ' + k] = r.term(o)
        except Exception:
            pass
        for a, v in r.attrs(o).items() if isinstance(o, int) else ():
            d[f'attribute {a} of {k}'] = r.term(v)
    return d


def drawn(r):
    n = {}
    for e in r.events:
        if e.kind == 'methcall' and '.plots.' in e.site[2] and \
                e.d['rkind'] in ('opaque', 'phi', 'ext'):
            k = (e.site[2], e.d['name'])
            n.setdefault(k, []).append(
                (tuple(e.d['args']), tuple(sorted(e.d['kwargs'].items()))))
    return n


def raises(r):
    out = set()
    for e in r.events:
        if e.kind == 'raise':
            out.add((e.site[2], str(e.d.get('exc'))))
    return out


def p06(R, task, out):
    if task[0] == 'class':
        gen = class_pairs(R, task)
    else:
        gen = entry_pairs(R, task)
    for key, a, b in gen:
        done(out, a)
        done(out, b)
        out.sample(a.name)
        compare(key, a, b, out)


class Snap:
    """what a run showed, independent of the interpreter's next run"""

    def __init__(self, r, q):
        self.name = r.name
        self.analysed = set(r.analysed)
        self.dead = r.dead
        self.obs = observable(r, getattr(r, 'est', None))
        self.raises = raises(r)
        self.drawn = drawn(r)
        self.warn = [e for e in r.events if e.kind == 'warn']
        self.site = site_of(r.interp, q)


def class_pairs(R, task):
    from ..entries import estimator_run, Entry, calc_axes
    _, q, i, j = task
    ci = R.classinfo(q)
    base, axes = calc_axes(R, ci)
    cfgs = list(Entry(ci.name, ci.qual, base, axes).configs())
    for lab, cfg in cfgs[i:j]:
        a = Snap(estimator_run(R, ci, lab, cfg, {'warnings': TRUE}),
                 ci.qual)
        b = Snap(estimator_run(R, ci, lab, cfg, {'warnings': FALSE}),
                 ci.qual)
        yield ci.name, a, b


def entry_pairs(R, task):
    _, key, i, j, cap = task
    E, c = configs(R, key, cap)
    for lab, cfg in c[i:j]:
        a = Snap(run_entry(R, E, cfg, {'warnings': TRUE}, lab), E.qual)
        b = Snap(run_entry(R, E, cfg, {'warnings': FALSE}, lab), E.qual)
        yield E.key, a, b


def alpha(x, memo):
    """forget the numbering of abstract objects"""
    if not isinstance(x, t.T):
        return x
    r = memo.get(x.id)
    if r is not None:
        return r
    if x.op in ('loop', 'site'):
        r = mk(x.op, *x.a[:-1])
    else:
        r = mk(x.op, *[sub(y, memo) for y in x.a])
    memo[x.id] = r
    return r


def sub(y, memo):
    if isinstance(y, t.T):
        return alpha(y, memo)
    if isinstance(y, tuple):
        return tuple(sub(z, memo) for z in y)
    return y


def compare(key, a, b, out):
    site = a.site or ('?', 0, key)
    for e in b.warn:
        out.flag('warnings.off', e.site, f'{e.site[2]}|warn',
                 'a warning is issued although the warnings option is off',
                 b.name)
    out.ob('runs without warnings')
    memo = {}
    for k in sorted(set(a.obs) | set(b.obs)):
        x, y = a.obs.get(k), b.obs.get(k)
        out.ob('compared values')
        if x is y:
            continue
        if alpha(x, memo) is alpha(y, memo) or x == y:
            continue
        out.flag('warnings.value', (site[0], site[1], key), f'{key}|{k}',
                 f'{k} depends on the warnings option: {cut(x, 90)} / '
                 f'{cut(y, 90)}', a.name)
    for e in a.raises ^ b.raises:
        out.flag('warnings.raise', (site[0], site[1], e[0]),
                 f'{e[0]}|{e[1]}',
                 f'{e[1]} is raised only with the warnings option '
                 f'{"on" if e in a.raises else "off"}', a.name)
    out.ob('compared exceptions', len(a.raises | b.raises))
    for k in sorted(set(a.drawn) | set(b.drawn)):
        out.ob('compared plot calls')
        x, y = a.drawn.get(k, []), b.drawn.get(k, [])
        if x == y:
            continue
        ax = [sub(z, memo) for z in x]
        ay = [sub(z, memo) for z in y]
        if ax != ay:
            out.flag('warnings.drawn', (site[0], site[1], k[0]),
                     f'{k[0]}|{k[1]}',
                     f'{k[1]}() depends on the warnings option', a.name)

"""P07: an explicit zero is a value, not a missing value."""
import ast
from .. import terms as t
from ..terms import NONE, ZERO
from ..run import Spec, number
from ..entries import Entry, calc_axes, bclasses, aclasses, estimator_run
from .base import cut
from .common import all_entries, run_entry, done, site_of
from .p_state import sub

RULE = 'every public entry point with an optional numeric parameter (or an '\
       'optional numeric catalog attribute) is interpreted with the value '\
       'absent, zero and arbitrary, everything else being equal; zero may '\
       'not be observably the same as absent when an arbitrary value is '\
       'not (results, attributes, drawn data, requests and exceptions are '\
       'compared as terms); additionally no branch may test a number that '\
       'can also be None by its truth value'
ASSUMPTIONS = ['bin widths of 0 and None both mean "not binned" where no '
               'catalog attribute provides a bin width']
LO = 1e-9
CAP = {'quick': 6, 'thorough': 40}
OPTIONAL = ['mc', 'delta_m', 'fmd_bin', 'dmc', 'm_ref', 'scaling_factor',
            'b_value', 'last_year', 'mag_max', 'mean_v', 'time_cutoff',
            'min_latitude', 'max_latitude', 'min_longitude',
            'max_longitude', 'min_magnitude', 'max_magnitude', 'depth_min',
            'depth_max', 'a_value']
UNBINNED = {'delta_m', 'fmd_bin'}


def optional_params(R, q):
    """parameters with default None"""
    try:
        fv = R.func(q)
    except Exception:
        ci = R.classinfo(q)
        k, o = ci.lookup('__init__')
        if o is None:
            return []
        fv = R.I.static.get(o).pl[1]
    fv = getattr(fv, 'wrapped', fv)
    a = fv.node.args
    pos = a.posonlyargs + a.args
    out = []
    for p, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
        if isinstance(d, ast.Constant) and d.value is None:
            out.append(p.arg)
    for p, d in zip(a.kwonlyargs, a.kw_defaults):
        if isinstance(d, ast.Constant) and d.value is None:
            out.append(p.arg)
    for p in pos[:len(pos) - len(a.defaults)]:
        # required, but None is allowed
        if p.annotation is not None and any(
                isinstance(y, ast.Constant) and y.value is None or
                isinstance(y, ast.Name) and y.id == 'Optional'
                for y in ast.walk(p.annotation)):
            out.append(p.arg)
    return out


def method_qual(R, E):
    if E.runner is None:
        return E.qual
    ci = R.classinfo(E.qual)
    k, o = ci.lookup(E.meth)
    return R.I.static.get(o).pl[1].qual


def tasks(R, tier):
    for ci in bclasses(R) + aclasses(R):
        yield ('class', ci.qual)
    for key, E in all_entries(R).items():
        if key == 'plot_b_significant_1D' and tier == 'quick':
            continue
        ps = targets(R, E)
        for p in ps:
            yield ('entry', key, p)
        if 'self' in E.axes and 'catalog' in E.tags:
            for a in ('mc', 'delta_m', 'b_value'):
                yield ('attr', key, a)


def targets(R, E):
    out = []
    if E.runner is not None:
        for p in optional_params_m(R, E):
            if p in OPTIONAL:
                out.append(p)
        for p in optional_params(R, E.qual):
            if p in OPTIONAL:
                out.append('new.' + p)
    else:
        out = [p for p in optional_params(R, E.qual) if p in OPTIONAL]
    return out


def optional_params_m(R, E):
    ci = R.classinfo(E.qual)
    k, o = ci.lookup(E.meth)
    c = R.I.static.get(o)
    fv = c.pl[1]
    fv = getattr(fv, 'wrapped', fv)
    a = fv.node.args
    pos = a.posonlyargs + a.args
    return [p.arg for p, d in zip(pos[len(pos) - len(a.defaults):],
                                  a.defaults)
            if isinstance(d, ast.Constant) and d.value is None]


def snapshot(r, est=None):
    memo = {}
    obs = {}
    obs['dead'] = r.dead
    if not r.dead:
        obs['result'] = r.result()
    if est is not None:
        for k, v in r.attrs(est).items():
            obs['attr ' + k] = r.term(v)
    for k, o in r.args.items():
        if isinstance(o, int):
            for a, v in r.attrs(o).items():
                obs[f'attr {k}.{a}'] = r.term(v)
    obs = {k: sub(v, memo) for k, v in obs.items()}
    ev = []
    for e in r.events:
        if e.kind == 'methcall':
            ev.append((e.kind, e.site[2], e.d['name'],
                       sub(tuple(e.d['args']), memo)))
        elif e.kind == 'extcall':
            ev.append((e.kind, e.site[2], e.d['name'],
                       sub(tuple(e.d['args']), memo),
                       sub(tuple(sorted(e.d['kwargs'].items())), memo)))
        elif e.kind == 'raise':
            ev.append((e.kind, e.site[2], str(e.d.get('exc'))))
    return obs, ev


def same(a, b):
    if set(a[0]) != set(b[0]):
        return False
    for k in a[0]:
        x, y = a[0][k], b[0][k]
        if not (x is y or x == y):
            return False
    return a[1] == b[1]


def maybe_none(r, e):
    """a number that may also be None, tested by its truth value"""
    x = e.d['term']
    if e.d['kind'] not in ('num', 'phi', 'opaque') or t.isbool(x):
        return None
    alts = []

    def walk(y, d=0):
        if y.op == 'phi' and d < 8:
            walk(y.a[1], d + 1)
            walk(y.a[2], d + 1)
        elif y.op in ('mu', 'fold') and d < 8:
            for z in y.a:
                if isinstance(z, t.T) and z.op == 'phi':
                    walk(z, d + 1)
            alts.append(y)
        else:
            alts.append(y)
    walk(x)
    if not any(y is NONE for y in alts):
        return None
    for y in alts:
        if y is NONE or t.isbool(y):
            continue
        if is_number(r, y):
            return y
    return None


def is_number(r, y):
    if y.op == 'num':
        return True
    if y.op in ('lin', 'mono', 'exp10'):
        return True
    if y.op == 'in':
        if r.kinds.get(y.a[0]) != 'num':
            return False
        iv = r.intervals.get(y)
        return not (iv and (iv[0] > 0 or iv[1] < 0))
    if y.op in ('at', 'get') and y.a[0].op == 'in':
        return y.a[0].a[0] in ('mcs', 'mcs_test', 'magnitudes')
    if y.op == 'at':
        z = y.a[0]
        ins = t.inputs(z)
        return bool(ins & {'mcs', 'mcs_test', 'magnitudes'}) and \
            z.op in ('sel', 'take', 'slice', 'lin', 'mono', 'uniq', 'call')
    return False


def truths(r, out):
    for e in r.events:
        if e.kind != 'truth':
            continue
        out.ob('truth tests')
        y = maybe_none(r, e)
        if y is not None:
            out.flag('zero.truth', e.site, e.site[2],
                     f'the number {cut(y, 80)}, which may be None or 0, is '
                     'tested by its truth value', r.name)


def values(p, cfg):
    lo = 0 if p == 'scaling_factor' else None
    return [('absent', None), ('zero', 0), ('given', number(lo))]


def work(R, task, out):
    if task[0] == 'class':
        ci = R.classinfo(task[1])
        base, axes = calc_axes(R, ci)
        axes['delta_m'] = axes.get('delta_m', [])[:1]
        for p in [x for x in axes if x in OPTIONAL and x != 'delta_m']:
            ax = {k: v for k, v in axes.items() if k != p}
            for lab, cfg in list(Entry(ci.name, ci.qual, base,
                                       ax).configs())[:8]:
                snaps = {}
                for n, v in values(p, cfg):
                    r = estimator_run(R, ci, f'{lab}/{p} {n}',
                                      dict(cfg, **{p: v}))
                    done(out, r)
                    truths(r, out)
                    snaps[n] = snapshot(r, r.est)
                judge(R, ci.qual, p, lab, snaps, out)
        out.sample(ci.name)
        return
    _, key, p = task
    E = all_entries(R)[key]
    cap = CAP[R.tier]
    if task[0] == 'attr':
        base = {k: v for k, v in E.base.items()}
        axes = {k: v for k, v in E.axes.items()
                if k not in ('self', p if p != 'delta_m' else 'delta_m')}
        if p == 'delta_m':
            axes.pop('delta_m', None)
            axes.pop('fmd_bin', None)
        spec = E.axes['self'][0][1]
        e2 = Entry(E.key, E.qual, base, axes, None, E.tags)
        for lab, cfg in spread(list(e2.configs()), cap):
            snaps = {}
            for n, v in values(p, cfg):
                attrs = dict(spec.attrs)
                if p != 'delta_m' and 'delta_m' not in cfg:
                    attrs['delta_m'] = number(LO)
                if p != 'mc' and 'mc' not in cfg:
                    attrs['mc'] = number()
                attrs[p] = v
                s = Spec('catalog', cls=spec.cls, attrs=attrs, cols={},
                         colset=spec.colset)
                r = R.run(E.qual, dict(cfg, self=s),
                          name=f'{lab}/self.{p} {n}')
                done(out, r)
                truths(r, out)
                snaps[n] = snapshot(r)
                for k in [k for k in snaps[n][0]
                          if k == f'attr self.{p}']:
                    del snaps[n][0][k]
            if p == 'delta_m' and E.key.split('.')[-1].startswith('plot'):
                continue    # unbinned either way
            judge(R, E.qual, 'self.' + p, lab, snaps, out)
        return
    base = {k: v for k, v in E.base.items() if k != p}
    axes = {k: v for k, v in E.axes.items() if k != p}
    for k in ('delta_m',):
        if k in axes and k != p:
            axes[k] = [x for x in axes[k] if x[1] != 0] or axes[k]
    if 'self' in axes:
        keep = [x for x in axes['self'] if 'dm0' not in x[0]]
        if p in UNBINNED:
            keep = [x for x in keep if 'self.dm' in x[0]]
        axes['self'] = keep
        if not keep:
            return
    elif p in UNBINNED and not key.startswith('FDSN'):
        return
    if E.skip is not None and p in E.axes:
        skip = None
    else:
        skip = E.skip
    e2 = Entry(E.key, E.qual, base, axes, skip, E.tags)
    for lab, cfg in spread(list(e2.configs()), cap):
        if p == 'm_ref' and cfg.get('b_value') is None:
            continue
        if key.startswith('FDSN') and p == 'delta_m':
            continue
        snaps = {}
        for n, v in values(p, cfg):
            r = run_entry(R, E, dict(cfg, **{p: v}), None,
                          f'{lab}/{p} {n}')
            done(out, r)
            truths(r, out)
            snaps[n] = snapshot(r, getattr(r, 'est', None))
        judge(R, E.qual, p, lab, snaps, out)
    out.sample(f'{key}: {p}')


def spread(c, cap):
    if len(c) <= cap:
        return c
    step = len(c) / cap
    return [c[int(i * step)] for i in range(cap)]


def judge(R, q, p, lab, snaps, out):
    out.ob('absent / zero / given compared')
    z, n, g = snaps['zero'], snaps['absent'], snaps['given']
    # the stored copy of the parameter itself is not an effect
    name = p.split('.')[-1]
    for x in (z, n, g):
        for k in [k for k in x[0] if k.startswith('attr ') and
                  k.split()[1].split('.')[-1].strip('_') == name]:
            del x[0][k]
    if same(z, n) and not same(g, n):
        out.flag('zero.absent', site_of(R.I, q), f'{q}|{p}',
                 f'{p}=0 behaves like {p} not being given, any other value '
                 'does not', lab)

"""P08: continuous magnitudes (bin width 0) are supported wherever a bin
width is a parameter."""
from .. import terms as t
from ..terms import ZERO
from ..run import Spec, number
from ..entries import (bclasses, aclasses, Entry, calc_axes, estimator_run,
                       accessors)
from .base import cut
from .common import all_entries, configs, run_entry, done, site_of

RULE = 'every estimator class and every public entry point that accepts a '\
       'bin width is interpreted with the bin width 0 and with a positive '\
       'bin width, everything else being equal; with bin width 0 there may '\
       'be no division by zero, no logarithm of zero, no exception and no '\
       'missing normal exit that the positive bin width does not have'
ASSUMPTIONS = ['divisions are reported only when the divisor reduces to the '
               'constant zero']
# working on binned magnitudes is what these are for
NEED_BINS = ('Catalog.estimate_mc_ks', 'Catalog.estimate_mc_b_stability',
             'Catalog.bin_magnitudes')
READ = ('b_value', 'std', 'beta', 'std_beta', 'value', 'n', 'a_value', 'idx')
METHODS = ('p_lilliefors',)
CAP = {'quick': 40, 'thorough': None}


def pairs(R, E):
    """configurations that differ in the bin width only"""
    for axis in ('delta_m', 'fmd_bin'):
        alts = E.axes.get(axis)
        if alts and any(a[1] == 0 and a[1] is not None for a in alts):
            pos = [a for a in alts if isinstance(a[1], Spec)][0]
            base = {k: v for k, v in E.base.items()}
            axes = {k: v for k, v in E.axes.items() if k != axis}
            e2 = Entry(E.key, E.qual, base, axes, E.skip, E.tags)
            for lab, cfg in e2.configs():
                yield lab, dict(cfg, **{axis: pos[1]}), \
                    dict(cfg, **{axis: 0})
    alts = E.axes.get('self')
    if alts:
        by = dict(alts)
        for lab0, s in alts:
            if 'self.dm0' not in lab0:
                continue
            labp = lab0.replace('self.dm0', 'self.dm')
            if labp not in by:
                continue
            axes = {k: v for k, v in E.axes.items()
                    if k not in ('self', 'delta_m')}
            e2 = Entry(E.key, E.qual, E.base, axes, E.skip, E.tags)
            for lab, cfg in e2.configs():
                yield f'{lab} {lab0}', dict(cfg, self=by[labp]), \
                    dict(cfg, self=s)


def tasks(R, tier):
    for ci in bclasses(R) + aclasses(R):
        yield ('class', ci.qual)
    for key, E in all_entries(R).items():
        n = 0 if key in NEED_BINS else len(list(pairs(R, E)))
        if not n:
            continue
        n = min(n, CAP[tier]) if CAP[tier] else n
        for i in range(0, n, 8):
            yield ('entry', key, i, min(i + 8, n))


def facts(r):
    z, raised = {}, {}
    for e in r.events + getattr(r, 'reading', []):
        if e.kind == 'divzero':
            z[(e.site[2], 'division by zero')] = e
        elif e.kind == 'extcall' and e.d['name'] in (
                'numpy.log', 'numpy.log10', 'math.log', 'math.log10',
                'numpy.log2') and e.d['args'] and e.d['args'][0] is ZERO:
            z[(e.site[2], 'logarithm of zero')] = e
        elif e.kind == 'raise':
            way = tuple(x[0]
                        for x in (e.stack or ()))
            raised[(e.site[2], str(e.d.get('exc')),
                    str(e.d.get('msg'))[:60], way)] = e
    return dict(z=z, raised=raised, dead=r.dead, name=r.name,
                analysed=set(r.analysed))


def judge(R, q, lab, p, z, out):
    out.ob('bin width 0 against positive bin width')
    for k, e in z['z'].items():
        if k not in p['z']:
            out.flag('continuous.zero', e.site, f'{k[0]}|{k[1]}',
                     f'{k[1]} with bin width 0', lab)
    for k, e in z['raised'].items():
        if k not in p['raised']:
            out.flag('continuous.raise', e.site, f'{k[0]}|{k[1]}',
                     f'{k[1]} ({k[2]}) only with bin width 0', lab)
    if z['dead'] and not p['dead']:
        out.flag('continuous.exit', site_of(R.I, q), f'{q}|exit',
                 'no normal exit with bin width 0', lab)


def work(R, task, out):
    if task[0] == 'class':
        ci = R.classinfo(task[1])
        base, axes = calc_axes(R, ci)
        axes.pop('delta_m', None)
        if 'delta_m' in base:
            return
        for lab, cfg in Entry(ci.name, ci.qual, base, axes).configs():
            f = []
            for v in (number(1e-9), 0):
                r = estimator_run(R, ci, lab, dict(cfg, delta_m=v),
                                  read=READ + tuple(
                                      f'{m}()' for m in METHODS
                                      if m in accessors(ci)))
                done(out, r)
                f.append(facts(r))
            judge(R, ci.qual, lab, f[0], f[1], out)
        out.sample(ci.name)
        return
    _, key, i, j = task
    E = all_entries(R)[key]
    ps = list(pairs(R, E))
    cap = CAP[R.tier]
    if cap and len(ps) > cap:
        step = len(ps) / cap
        ps = [ps[int(n * step)] for n in range(cap)]
    for lab, cp, c0 in ps[i:j]:
        f = []
        for c in (cp, c0):
            r = run_entry(R, E, c, None, lab)
            done(out, r)
            f.append(facts(r))
        judge(R, E.qual, lab, f[0], f[1], out)
        out.sample(lab)

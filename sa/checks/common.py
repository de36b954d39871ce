"""Units of work shared by the checks: entry points x configurations."""
import itertools
import random
from ..entries import entries, catalog_entries, grid_entries, misc_entries,\
    estimator_runs, bclasses, aclasses, \
    estimator_run, calc_axes, Entry
from ..run import arr, number, AnalysisError
from .. import terms as t

CHUNK = 8


def all_entries(R):
    if not hasattr(R, '_entries'):
        R._entries = {e.key: e for e in entries(R) + catalog_entries(R)
                      + grid_entries(R) + misc_entries(R)
                      if R.has(e.qual)}
    return R._entries


def configs(R, key, cap=None):
    E = all_entries(R)[key]
    c = list(E.configs())
    if cap and len(c) > cap:
        # deterministic spread which keeps every option value present
        rnd = random.Random(7)
        keep = sorted(rnd.sample(range(len(c)), cap))
        c = [c[i] for i in keep]
    out = []
    for lab, cfg in c:
        if 'a_times' in E.tags:
            cfg = dict(cfg)
            name = cfg['method'].qual.split('.')[-1]
            ci = R.classinfo(cfg['method'].qual)
            from ..entries import calc_params
            if 'times' in calc_params(R, ci)[0]:
                cfg['times'] = arr()
        if 'needs_b' in E.tags:
            from ..entries import calc_params
            ci = R.classinfo(cfg['method'].qual)
            if 'b_value' in calc_params(R, ci)[1]:
                cfg = dict(cfg, b_value=number(1e-9))
        out.append((lab, cfg))
    return E, out


def entry_tasks(R, cap, keys=None, skip=(), chunk=CHUNK):
    for key in all_entries(R):
        if keys is not None and key not in keys:
            continue
        if key in skip:
            continue
        E, c = configs(R, key, cap)
        for i in range(0, len(c), chunk):
            yield ('entry', key, i, i + chunk, cap)


def entry_runs(R, task, options=None):
    _, key, i, j, cap = task
    E, c = configs(R, key, cap)
    for lab, cfg in c[i:j]:
        yield E, cfg, run_entry(R, E, cfg, options, lab)


def run_entry(R, E, cfg, options, lab):
    if E.runner is not None:
        return E.runner(R, cfg, options, lab)
    return R.run(E.qual, cfg, options=options, name=lab)


def class_tasks(R, chunk=4):
    for ci in bclasses(R) + aclasses(R):
        base, axes = calc_axes(R, ci)
        n = len(list(Entry(ci.name, ci.qual, base, axes).configs()))
        for i in range(0, n, chunk):
            yield ('class', ci.qual, i, i + chunk)


def class_runs(R, task, options=None, read=()):
    _, q, i, j = task
    ci = R.classinfo(q)
    base, axes = calc_axes(R, ci)
    cfgs = list(Entry(ci.name, ci.qual, base, axes).configs())
    for lab, cfg in cfgs[i:j]:
        yield ci, cfg, estimator_run(R, ci, lab, cfg, options, read)


def done(out, run):
    out.runs += 1
    out.analysed |= run.analysed


def site_of(I, q):
    """(file, line, name) of the definition of a public name"""
    parts = q.split('.')
    for i in range(len(parts), 0, -1):
        mn = '.'.join(parts[:i])
        if mn in I.modframes:
            cur = I.static.get(I.modframes[mn]).pl[1].get(parts[i]) \
                if i < len(parts) else None
            if cur is None:
                break
            c = I.static.get(cur)
            if c.pl and c.pl[0] == 'class':
                ci = c.pl[1]
                for k in ci.mro() if i + 1 < len(parts) else ():
                    for n in k.node.body:
                        if getattr(n, 'name', None) == parts[i + 1]:
                            return (I.project.relpath(k.module.path),
                                    n.lineno, q)
                return (I.project.relpath(ci.module.path), ci.node.lineno, q)
            if c.pl and c.pl[0] == 'func':
                fv = getattr(c.pl[1], 'wrapped', c.pl[1])
                return (I.project.relpath(fv.module.path), fv.node.lineno, q)
            break
    return ('?', 0, q)

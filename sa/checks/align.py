"""P01/P02: entry-wise combinations, masks and positions stay in one space."""
from .. import terms as t
from ..terms import mk, num, NONE, TRUE, FALSE, ZERO, ONE
from ..spaces import Spaces, SC, ANY, show, uniform
from ..model import ELEMENTWISE
from .base import cut

ARRAYISH = {'arr', 'series', 'list', 'opaque', 'phi', 'tuple', 'df'}
COARGS = {
    'numpy.average': ('weights',), 'numpy.histogram': ('weights',),
    'numpy.bincount': ('weights',), 'numpy.interp': (),
}
PLOT_METHODS = {'plot': 2, 'scatter': 2, 'step': 2, 'fill_between': 3,
                'errorbar': 2, 'bar': 2, 'stem': 2, 'vlines': 3,
                'hlines': 3, 'semilogy': 2, 'loglog': 2, 'semilogx': 2,
                'hist': 1, 'barh': 2, 'fill_betweenx': 3}
PLOT_KW = ('c', 's', 'yerr', 'xerr', 'weights', 'y2', 'y1', 'x', 'y', 'color')


def all_terms(run):
    out = []
    for e in run.events:
        for v in e.d.values():
            if isinstance(v, t.T):
                out.append(v)
            elif isinstance(v, (list, tuple)):
                out.extend(x for x in v if isinstance(x, t.T))
            elif isinstance(v, dict):
                out.extend(x for x in v.values() if isinstance(x, t.T))
    return out


def spaces_for(run, groups=None):
    S = Spaces(run.kinds, groups)
    for x in all_terms(run):
        S.index(x)
    if not run.dead and run.out is not None:
        S.index(run.term(run.out))
    return S


def check_run(run, out, groups=None, S=None):
    S = S or spaces_for(run, groups)
    run.S = S

    def cmpsp(e, what, x, y, a, b, strict=False, lenient=False):
        if a is None or b is None or a == SC or b == SC:
            return
        out.ob('paired ' + what)
        if ('operands' in what or what == 'mask') and (
                uniform(x) or uniform(y)):
            return
        m = S.mismatch(a, b, e.pc, strict, lenient)
        if m:
            out.flag('align.' + what.replace(' ', '_'), e.site,
                     f'{e.site[2]}|{what}',
                     f'{what}: {cut(x)} belongs to [{cut(show(m[0]))}] but '
                     f'{cut(y)} belongs to [{cut(show(m[1]))}]', run.name)

    for e in run.events:
        d = e.d
        k = e.kind
        if k in ('binop', 'cmp'):
            cmpsp(e, 'operands', d['x'], d['y'], S.space(d['x']),
                  S.space(d['y']))
        elif k == 'subscript':
            x, i = d['x'], d['i']
            if d.get('kx') in ('dict', 'str'):
                continue
            sub(S, e, x, i, cmpsp, d.get('kx'))
        elif k == 'store':
            x, i, v = d['x'], d['i'], d['v']
            if d.get('kx') in ('dict',):
                continue
            sub(S, e, x, i, cmpsp, d.get('kx'))
            sv = S.space(v)
            if sv not in (None, SC):
                if t.isbool(i):
                    sx = S.space(i)
                    if sx not in (None, SC):
                        cmpsp(e, 'stored values', mk('sel', x, i), v,
                              S.selsp(sx, i), sv)
                elif i.op in ('nz', 'argsort', 'take', 'sel'):
                    cmpsp(e, 'stored values', i, v, S.space(i), sv)
        elif k == 'extcall':
            nm = d['name']
            args, kw = d['args'], d['kwargs']
            if nm in COARGS and args:
                for w in COARGS[nm]:
                    if w in kw and kw[w] is not NONE:
                        cmpsp(e, f'{nm} weights', args[0], kw[w],
                              S.space(args[0]), S.space(kw[w]))
            elif nm in ELEMENTWISE and len(args) > 1 and nm not in (
                    'numpy.isin', 'meth.isin', 'numpy.round', 'astype'):
                for y in args[1:]:
                    cmpsp(e, f'{nm} operands', args[0], y,
                          S.space(args[0]), S.space(y))
            elif nm.endswith('.DataFrame') and args and \
                    args[0].op == 'dict':
                vs = [v for _, v, _ in args[0].a[0]]
                vs = [v for v in vs if S.space(v) not in (None, SC)]
                for y in vs[1:]:
                    cmpsp(e, 'columns', vs[0], y, S.space(vs[0]),
                          S.space(y))
            elif nm.startswith('matplotlib.pyplot.'):
                plotargs(S, e, nm.split('.')[-1], args, kw, cmpsp)
        elif k == 'methcall':
            if d['rkind'] in ('opaque', 'phi', 'ext', 'mod'):
                plotargs(S, e, d['name'], d['args'], d['kwargs'], cmpsp)
            elif d['name'] in ('isin',):
                pass
        elif k == 'zip':
            vs = [v for v in d['args'] if S.space(v) not in (None, SC)]
            for y in vs[1:]:
                cmpsp(e, 'zip', vs[0], y, S.space(vs[0]), S.space(y))
    return S


def plotargs(S, e, name, args, kw, cmpsp):
    n = PLOT_METHODS.get(name)
    if n is None:
        return
    vs = list(args[:n]) + [kw[k] for k in PLOT_KW if k in kw]
    vs = [v for v in vs if S.space(v) not in (None, SC)]
    for y in vs[1:]:
        cmpsp(e, f'{name} arguments', vs[0], y, S.space(vs[0]), S.space(y))


def sub(S, e, x, i, cmpsp, kx):
    if i.op in ('slc', 'const', 'num', 'tuple', 'list', 'len'):
        return
    sx = S.space(x) if kx != 'df' else S.rows(x)
    if t.isbool(i):
        cmpsp(e, 'mask', x, i, sx, S.space(i))
    else:
        pr = S.posref(i)
        if pr in (None, ANY) or sx in (None, SC):
            return
        if isinstance(pr, tuple) and pr[0] == 'label':
            return
        cmpsp(e, 'positions', x, i, sx, pr, lenient=True)


ATTRS = ('weights', 'times', 'idx')


def ident(S, x, value=False):
    """which of the caller's rows the entries of x are (value: which rows
    the positions in x are), as a path of selections; None: unknown"""
    o, a = x.op, x.a
    if x is NONE or x is t.UNBOUND or (o in ('list', 'tuple') and not a):
        return ANY
    if o == 'phi':
        p, q = ident(S, a[1], value), ident(S, a[2], value)
        if p == q or q == ANY:
            return p
        if p == ANY:
            return q
        return ('phi', a[0], p, q) if p and q else None
    if o == 'astype':
        return ident(S, a[0], value)
    if not value and o == 'in':
        s = S.space(x)
        return s if s == ('in', 'rows') else None
    if o == 'nz' and value:
        s = S.space(a[0])
        return S.selsp(s, a[0]) if s == ('in', 'rows') else None
    if value and o == 'call' and a[0] == 'numpy.arange' and \
            len(a[1]) == 1 and a[1][0].op == 'len':
        s = S.space(a[1][0].a[0])
        return s if s == ('in', 'rows') else None
    if o in ('sel', 'take', 'slice'):
        s = ident(S, a[0], value)
        if s in (None, ANY):
            return s
        if o == 'slice':
            return slc(S, s, a[0], *a[1:])
        return pick(S, s, a[0], a[1])
    return None


def slc(S, s, x, lo, hi, st):
    if s[0] == 'phi':
        p, q = slc(S, s[2], x, lo, hi, st), slc(S, s[3], x, lo, hi, st)
        return ('phi', s[1], p, q) if p and q else None
    return S.slicesp(s, x, lo, hi, st)


def pick(S, s, x, i):
    """path s followed by the selection i (a mask or positions)"""
    if s[0] == 'phi':
        p, q = pick(S, s[2], x, i), pick(S, s[3], x, i)
        return ('phi', s[1], p, q) if p and q else None
    o, a = i.op, i.a
    if t.isbool(i):
        return S.selsp(s, i)
    if o == 'nz':
        return S.selsp(s, a[0])
    if o == 'astype':
        return pick(S, s, x, a[0])
    if o == 'phi':
        p, q = pick(S, s, x, a[1]), pick(S, s, x, a[2])
        return ('phi', a[0], p, q) if p and q else None
    if o in ('sel', 'take', 'slice'):
        p = pick(S, s, x, a[0])
        if p is None:
            return None
        return slc(S, p, a[0], *a[1:]) if o == 'slice' else pick(
            S, p, a[0], a[1])
    if o == 'lin' and len(a[1]) == 1 and a[1][0][1] == 1 and a[0] > 0:
        p = slc(S, s, x, num(a[0]), NONE, NONE)
        return p and pick(S, p, x, a[1][0][0])
    if o in ('argsort', 'fold', 'setitem', 'call', 'in'):
        return ('take', s, i)
    return None


def check_estimator(run, out, S=None):
    """the arrays an estimator exposes after calculate() describe the same
    events, and idx their positions in the caller's arrays"""
    if run.dead or run.est is None:
        return
    S = S or run.S
    terms_ = {k: run.term(run.read[k]) for k in ('magnitudes',) + ATTRS
              if k in run.read}
    for x in terms_.values():
        S.index(x)
    S.memo.clear()
    S.pmemo.clear()
    node = run.ci.node
    site = (run.interp.project.relpath(run.ci.module.path), node.lineno,
            run.ci.qual)
    m = terms_.get('magnitudes')
    if m is None:
        return
    sm = S.space(m)
    out.counts['exit states'] += 1
    for k in ATTRS:
        x = terms_.get(k)
        if x is None or x is NONE:
            continue
        sx = S.space(x)
        if sx in (None, SC) or sm in (None, SC):
            out.counts[f'undetermined {k}'] += 1
            continue
        out.ob(f'exit {k}')
        mm = S.mismatch(sm, sx, (), strict=True)
        if mm:
            out.flag(f'exit.{k}', site, f'{run.ci.qual}|{k}',
                     f'after calculate(), magnitudes hold '
                     f'[{cut(show(mm[0]))}] but {k} hold '
                     f'[{cut(show(mm[1]))}]', run.name)
    x = terms_.get('idx')
    rows = {k: ident(S, y, k == 'idx') for k, y in terms_.items()}
    for k in ('magnitudes', 'weights', 'times'):
        p, q = rows.get(k), rows.get('idx')
        if p in (None, ANY) or q in (None, ANY):
            continue
        out.ob(f'exit rows of {k}')
        mm = S.mismatch(p, q, (), strict=True)
        if mm:
            out.flag('exit.rows', site, f'{run.ci.qual}|rows of {k}',
                     f'after calculate(), {k} belong to the rows '
                     f'[{cut(show(mm[0]))}] but idx to [{cut(show(mm[1]))}]',
                     run.name)
    if x is not None and x is not NONE:
        p = S.posref(x)
        if p not in (None, ANY):
            out.ob('exit idx reference')
            mm = S.mismatch(('in', 'rows'), p, (), strict=True)
            if mm:
                out.flag('exit.idxref', site, f'{run.ci.qual}|idx reference',
                         f'idx are positions in [{cut(show(mm[1]))}], not in '
                         f'the arrays the caller passed', run.name)
        else:
            out.counts['undetermined idx reference'] += 1

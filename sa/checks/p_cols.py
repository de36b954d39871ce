"""P15: methods work with the columns they require and refuse other tables."""
from .. import terms as t
from ..terms import mk
from ..run import Spec
from .common import all_entries, configs, run_entry, done, site_of

RULE = 'for every catalog and rate-grid method: (1) with a column missing '\
       'that the method reads there is no normal exit and an AttributeError '\
       'is raised before anything is changed; (2) on a table that has just '\
       'the columns the method insists on, no other column is read; (3) no '\
       'column is insisted on that the method does not use'
ASSUMPTIONS = ['tables in a method that hands the whole table on '
               '(export, strip, rate grids) use all required columns']
CAP = {'quick': 16, 'thorough': None}
WHOLE = ('to_quakeml', 'to_openquake', 'strip', 'add_time_index',
         'calculate_statistics', '_reindex_cell_id', '_create_ids')
OPTIONAL = ('logger',)
# methods of tables that name columns: position and name of the argument
BY = {'dropna': (9, 'subset'), 'sort_values': (0, 'by'),
      'set_index': (0, 'keys'), 'drop_duplicates': (0, 'subset'),
      'duplicated': (0, 'subset'), 'nlargest': (1, 'columns'),
      'nsmallest': (1, 'columns'), 'pop': (0, 'item'),
      'explode': (0, 'column'), 'value_counts': (0, 'subset')}


def methods(R):
    for key, E in all_entries(R).items():
        if E.runner is not None and not callable(E.runner):
            continue
        _, c = configs(R, key, 4)
        if any(isinstance(cfg.get('self'), Spec)
               and cfg['self'].kind == 'catalog' for _, cfg in c):
            yield key, E


def tasks(R, tier):
    for key, E in methods(R):
        yield ('method', key)


def with_cols(cfg, cols):
    s = cfg['self']
    return dict(cfg, self=Spec('catalog', cls=s.cls, attrs=s.attrs,
                               cols=s.cols, colset=cols))


def guarded(e, n):
    return any(y.op == 'const' and y.a[0] == n and x.op != 'eq'
               for x in e.pc for y in t.subterms(x).values()
               if isinstance(y, t.T))


def reads(r):
    """columns of the object itself that are read by name (and not written
    before)"""
    me = mk('in', 'self')
    written = set()
    out = {}
    for e in r.events:
        if e.kind == 'colwrite':
            written.add(e.d.get('col'))
        elif e.kind == 'colread':
            n = e.d['col']
            o = e.d['obj']
            if n in written or n in OPTIONAL or not isinstance(n, str):
                continue
            while o.op == 'call' and isinstance(o.a[0], str) and \
                    o.a[0].startswith('df.') and o.a[1]:
                o = o.a[1][0]
            if o is me and not guarded(e, n):
                out.setdefault(n, e)
        elif e.kind == 'methcall' and e.d.get('name') in BY:
            o = e.d['recv']
            pos, kw = BY[e.d['name']]
            x = e.d['kwargs'].get(kw)
            if x is None and len(e.d['args']) > pos:
                x = e.d['args'][pos]
            if isinstance(x, t.T) and o is me:
                for y in t.subterms(x).values():
                    if y.op == 'const' and isinstance(y.a[0], str):
                        out.setdefault(y.a[0], e)
        elif e.kind == 'groupby' and e.d['term'] is me:
            for y in e.d['args']:
                if y.op == 'const' and isinstance(y.a[0], str):
                    out.setdefault(y.a[0], e)
    return out


def work(R, task, out):
    E, c = configs(R, task[1], CAP[R.tier])
    key = task[1]
    meth = E.qual.split('.')[-1]
    site = site_of(R.I, E.qual)
    full = None
    good = []
    used = {}
    for lab, cfg in c:
        s = cfg.get('self')
        if not (isinstance(s, Spec) and s.kind == 'catalog'
                and s.colset):
            continue
        r = run_entry(R, E, cfg, None, lab)
        done(out, r)
        if r.dead:
            continue
        base = tuple(x for x in s.colset)
        good.append((lab, cfg, base))
        for n, e in reads(r).items():
            used.setdefault(n, e)
        full = set(base) if full is None else full & set(base)
    if not good:
        out.ob('undetermined: no normal exit')
        return
    lab, cfg, base = good[0]
    # which columns does the method insist on
    D = []
    for n in sorted(full):
        r = run_entry(R, E, with_cols(cfg, tuple(x for x in base
                                                 if x != n)), None, lab)
        done(out, r)
        if r.dead:
            D.append(n)
            out.ob('refused without the column')
            exc = [e for e in r.evs('raise') if e.d.get('explicit')]
            if exc and not any('AttributeError' in str(e.d['exc'])
                               for e in exc):
                out.flag('cols.error', exc[0].site, f'{E.qual}|{n}',
                         f'without the column {n}, {E.qual} raises '
                         f'{exc[0].d["exc"]}, not AttributeError', lab)
            for e in r.evs('setattr', 'colwrite', 'mutate'):
                if e.d.get('obj') == r.args.get('self') or \
                        'self' in (e.d.get('roots') or ()):
                    out.flag('cols.late', e.site, f'{E.qual}|{n}|late',
                             f'{E.qual} changes the table before it '
                             f'refuses it for the missing column {n}', lab)
        elif n in reads(r):
            e = reads(r)[n]
            out.flag('cols.missing', e.site, f'{E.qual}|{n}',
                     f'{E.qual} reads the column {n} but does not refuse '
                     'tables without it', lab)
    if meth not in WHOLE and used:
        for n in D:
            out.ob('insists on columns it uses')
            if n not in used:
                out.flag('cols.extra', site, f'{E.qual}|{n}|extra',
                         f'{E.qual} refuses tables without the column {n}, '
                         'which it does not use', lab)
    # tables with just these columns
    for lab, cfg, base in good:
        extra = tuple(x for x in base if x not in full)
        r = run_entry(R, E, with_cols(cfg, tuple(D) + extra), None, lab)
        done(out, r)
        out.ob('works with just the required columns')
        if r.dead:
            out.flag('cols.minimal', site, f'{E.qual}|minimal',
                     f'{E.qual} has no normal exit for a table with just '
                     f'the columns {", ".join(D) or "(none)"}', lab)
            continue
        for n, e in reads(r).items():
            out.ob('columns read')
            if n not in D and n not in extra:
                out.flag('cols.missing', e.site, f'{E.qual}|{n}',
                         f'{E.qual} reads the column {n}, which it does '
                         'not require', lab)

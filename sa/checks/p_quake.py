"""P16 QuakeML round trip, P17 escaping, P18 reading."""
import itertools
from .. import terms as t
from ..terms import mk
from ..interp import Dead
from ..run import Spec
from ..template import Hole, NotXML
from ..quakeml import (write, Reader, atom, NUM, QUALITY, COUNTS, UNC, IDS,
                       TEXTS, CAT, PARSER)
from .common import done, site_of

RULE = {
    'P16': 'to_quakeml and its template are interpreted on tables whose '
           'cells are symbols in every state (number, zero, missing, text), '
           'the resulting document is parsed into events with symbolic '
           'texts, which are fed to the abstract QuakeMLHandler; the row it '
           'appends must hold the symbol of every written cell under the '
           'same column name, nothing where the cell was missing, and no '
           'lossy formatting may be applied on the way',
    'P17': 'in the abstract document every text of the caller must be '
           'escaped where it is inserted, and texts with markup characters '
           'must give well-formed XML',
    'P18': 'QuakeMLHandler is interpreted on abstract event streams which '
           'differ in element order, optional and unknown elements, '
           'chunking and white space: the rows must be the same symbols; '
           'the parse functions may not return after a syntax error',
}
ASSUMPTIONS = ['xml.sax delivers the events of the document in order',
               'str(float) and float(str) are inverse']
LOSSY = ('round', 'builtins.round', 'numpy.round', 'int', 'builtins.int',
         'numpy.floor', 'numpy.ceil', 'math.floor', 'math.ceil', 'numpy.rint',
         'numpy.int64', 'numpy.around', 'numpy.trunc', 'op.FloorDiv')
REQ = dict({c: 'value' for c in NUM + ('time',)}, magnitude_type='text')
SECS = ('MLh', 'Mw(mB)', 'Ms_20')


def sec(ty, state='value', unc=True, ids=True):
    d = {f'magnitude_{ty}': state}
    if unc:
        d[f'magnitude_{ty}_uncertainty'] = state
    if ids:
        d[f'magnitude_{ty}_magnitudeID'] = 'text'
    return d


def full(state='value'):
    d = dict(REQ)
    d.update({c: 'text' for c in IDS + TEXTS})
    d.update({c: state for c in UNC + QUALITY})
    for c in NUM:
        d[c] = state
    for ty in SECS:
        d.update(sec(ty, state))
    return d


def base_of(c):
    """the column and the one it belongs to"""
    for ty in SECS:
        if c.startswith(f'magnitude_{ty}'):
            return {f'magnitude_{ty}', c}
    return {c}


def scenarios():
    yield 'all columns', dict(cols=full())
    yield 'all numbers zero', dict(cols=full('zero'))
    f = full()
    for c in NUM[2:] + UNC + QUALITY:
        yield f'{c} missing', dict(cols=dict(f, **{c: 'nan'}))
    yield 'required columns only', dict(cols=dict(REQ))
    yield 'no IDs', dict(cols=dict(REQ, **sec('MLh', ids=False),
                                   **sec('Ms_20', ids=False, unc=False)))
    yield 'own type among the secondary ones', dict(cols=f, same='MLh')
    # types that begin like the name of another column
    yield 'secondary magnitudes of type m, u and mag', dict(cols=dict(
        REQ, **sec('m'), **sec('u'), **sec('mag')))
    # one optional column without the others, and the others without it
    opt = [c for c in f if c not in REQ]
    for c in opt:
        yield f'only {c} besides the required columns', dict(
            cols=dict(REQ, **{x: f[x] for x in base_of(c)}))
        yield f'all columns but {c}', dict(
            cols={k: v for k, v in f.items() if c not in base_of(k)})
    part = {c: 'nan' for c in UNC + QUALITY}
    for ty in SECS[:2]:
        part.update({f'magnitude_{ty}': 'nan',
                     f'magnitude_{ty}_uncertainty': 'nan'})
    yield 'two events', dict(cols=f, more=[dict(f, **part)])
    yield 'two events, first with gaps', dict(cols=dict(f, **part), more=[f])


def tasks(R, tier):
    if R.prop == 'P18':
        for i in range(len(list(streams()))):
            yield ('stream', i)
        yield ('errors',)
        return
    for i in range(len(list(scenarios()))):
        yield ('write', i)
    if R.prop == 'P16':
        yield ('options',)
        yield ('drops',)
        yield ('types',)
    else:
        yield ('markup',)


def work(R, task, out):
    if task[0] == 'stream':
        stream(R, out, *list(streams())[task[1]])
    elif task[0] == 'errors':
        errors(R, out)
    elif task[0] == 'write':
        lab, kw = list(scenarios())[task[1]]
        doc = document(R, out, lab, kw)
        if doc is None:
            return
        if R.prop == 'P16':
            lossless(R, out, doc, lab)
            roundtrip(R, out, doc, lab, kw)
        else:
            escaped(R, out, doc, lab)
    elif task[0] == 'options':
        options(R, out)
    elif task[0] == 'drops':
        drops(R, out)
    elif task[0] == 'types':
        types(R, out)
    elif task[0] == 'markup':
        markup(R, out)


def document(R, out, lab, kw):
    try:
        d = write(R, label=lab, **kw)
    except NotXML as e:
        out.ob('well-formed')
        out.flag('not well-formed', ('catalog_templates/quakeml.j2', e.line,
                                     'to_quakeml'), 'document',
                 f'the document is not well-formed XML: {e}', lab)
        return None
    done(out, d.run)
    out.ob('document written')
    if d.dead:
        out.flag('no document', site_of(R.I, CAT + 'Catalog.to_quakeml'),
                 'dead', f'to_quakeml of a table with {lab} raises: '
                 f'{why(d.run)}', lab)
        return None
    return d


def why(r):
    e = [e for e in r.evs('raise')]
    return f"{e[-1].d['exc']} in line {e[-1].site[1]}" if e else '?'


def colof(term):
    """(place, column) of a symbol"""
    n = term.a[0]
    return n.split('.', 1) if '.' in n else ('', n)


def lossy(h, col):
    for f in h.fmt:
        n = f[0]
        if n == 'python':
            continue
        if n == 'strftime':
            missing = [x for x in 'YmdHMSf' if '%' + x not in f[1]
                       and not (x in 'HMS' and '%T' in f[1])
                       and not (x in 'Ymd' and '%F' in f[1])]
            if missing:
                return f'strftime({f[1]}) drops %' + ', %'.join(missing)
        elif n == 'isoformat':
            if len(f) > 1:
                return f'isoformat{f[1:]} drops digits'
        elif n == 'int' and col in COUNTS:
            continue
        elif n in ('int', 'round', 'abs', 'truncate', 'upper', 'lower',
                   'title', 'capitalize', 'replace'):
            return f'{n} changes the value'
        elif n == 'format' and f[1] not in ('', 'r', 's', None, '.17g',
                                            'repr'):
            return f'format {f[1]} drops digits'
    for y in t.subterms(h.term).values():
        if isinstance(y, t.T) and y.op == 'call' and y.a[0] in LOSSY \
                and not (col in COUNTS and 'int' in y.a[0]):
            return f'{y.a[0]} changes the value'
    return None


def holes(doc):
    for e in doc.events:
        if e[0] == 'text':
            for p in e[1]:
                if isinstance(p, Hole):
                    yield p, e[2], 'text'
        elif e[0] == 'start':
            for k, v in e[2].items():
                for p in v:
                    if isinstance(p, Hole):
                        yield p, e[3], f'attribute {k}'


def atoms_of(doc, h):
    return [a for a in doc.atoms if a in t.subterms(h.term).values()]


def lossless(R, out, doc, lab):
    for h, line, where in holes(doc):
        ats = atoms_of(doc, h)
        if len(ats) != 1:
            continue
        col = colof(ats[0])[1]
        out.ob('lossless format')
        x = lossy(h, col)
        if x:
            out.flag('lossy', (doc.rel, line, 'quakeml'), col,
                     f'{col} is written with a format that {x}'
                     if 'drops' not in x else f'{col}: {x}', lab)


def feed(R, out, doc, lab, all_mags=True, quality=True):
    rd = Reader(R, lab, list(doc.atoms), all_mags, quality)
    rd.feed(doc.events)
    rows = rd.finish()
    done(out, rd.r)
    if rd.failed:
        site = [e.site for e in rd.r.evs('raise')]
        out.flag('reader raises', site[-1] if site else (
            'seismostats/io/parser.py', 0, 'QuakeMLHandler'), 'reader',
            f'the reader raises in {rd.failed} on a document written by '
            'to_quakeml', lab)
        return None
    return rows


def roundtrip(R, out, doc, lab, kw):
    rows = feed(R, out, doc, lab)
    if rows is None:
        return
    events = [kw['cols']] + list(kw.get('more', ()))
    site = (doc.rel, 0, 'quakeml')
    if len(rows) != len(events):
        out.flag('events', site, 'number', f'{len(events)} events written, '
                 f'{len(rows)} read', lab)
        return
    for i, (row, ev) in enumerate(zip(rows, events)):
        place = 'ev' if i == 0 else f'ev{i + 1}'
        known = dict(kw['cols'])
        known.update(ev)
        compare(out, row, known, place, kw.get('same') if i == 0 else None,
                site, lab)


def compare(out, row, cols, place, same, site, lab):
    gone = set()
    for ty in SECS:
        if ty == same or cols.get(f'magnitude_{ty}') == 'nan':
            gone |= {f'magnitude_{ty}', f'magnitude_{ty}_uncertainty',
                     f'magnitude_{ty}_magnitudeID'}
    want = {}
    for c, s in cols.items():
        if c not in gone and s != 'nan':
            want[c] = atom(c, place)
    for c in IDS:
        want.setdefault(c, atom(c, 'new' + place))
    for ty in SECS:
        c = f'magnitude_{ty}_magnitudeID'
        if f'magnitude_{ty}' in want and c not in want:
            want[c] = atom(c, 'new' + place)
    for c, a in want.items():
        out.ob('column comes back')
        x = row.get(c)
        if x is a:
            continue
        got = 'nothing' if x is None or x is t.NONE else t.show(x, 4)
        if x is not None and [y for y in t.subterms(x).values()
                              if isinstance(y, t.T) and y.op == 'in'] == [a]:
            continue              # a conversion of the value
        out.flag('lost' if got == 'nothing' else 'changed', site, c,
                 f'{c} of an event ({cols.get(c, "created")}) is written as '
                 f'{t.show(a)} and comes back as {got[:80]}', lab)
    for c, x in row.items():
        if not isinstance(c, str) or c in want or x is t.NONE:
            continue
        if c.endswith('_magnitudeID'):
            continue              # identifier of a magnitude without value
        if c in gone or cols.get(c) == 'nan' or c not in cols:
            out.ob('nothing else comes back')
            out.flag('invented', site, c, f'{c} has no value in the table '
                     f'but comes back as {t.show(x, 4)[:80]}', lab)


def options(R, out):
    """include_all_magnitudes and include_quality"""
    for am, q in itertools.product((True, False), repeat=2):
        lab = f'include_all_magnitudes={am}, include_quality={q}'
        d = document(R, out, lab, dict(cols=full()))
        if d is None:
            return
        rows = feed(R, out, d, lab, am, q)
        if rows is None:
            continue
        site = site_of(R.I, PARSER + 'QuakeMLHandler')
        for c in full():
            s = c.startswith('magnitude_') and any(
                c.startswith('magnitude_' + ty) for ty in SECS)
            want = (am or not s) and (q or c not in QUALITY)
            out.ob('option')
            have = bool(rows) and rows[0].get(c) is atom(c)
            if want != have:
                out.flag('option', site, f'{c}|{am}|{q}',
                         f'{c} is {"missing" if want else "there"} with '
                         + lab, lab)


def drops(R, out):
    univ = [c for c in full()] + [
        f'{c}{x}' for c in NUM + ('time', 'magnitude_MLh')
        for x in ('_lowerUncertainty', '_upperUncertainty',
                  '_confidenceLevel')] + ['time_uncertainty']
    univ = tuple(dict.fromkeys(univ))
    unc = {c for c in univ if c.endswith((
        '_uncertainty', '_lowerUncertainty', '_upperUncertainty',
        '_confidenceLevel'))}
    ids = {c for c in univ if c in IDS or c.endswith('_magnitudeID')}
    for m, gone in (('drop_uncertainties', unc), ('drop_ids', ids)):
        r = R.begin(m)
        o = R.arg('self', Spec('catalog', cls=CAT + 'Catalog', cols={},
                               attrs={}, colset=univ))
        f = R.getattr(o, m)
        r = R.finish(r, R.call(f, [], {}))
        done(out, r)
        if r.dead or r.result() is None:
            continue
        left = R.I.colset(r.result())
        if left is None:
            continue
        out.ob('columns dropped')
        for c in sorted((set(univ) - set(left)) ^ gone):
            out.flag('columns dropped', site_of(R.I, f'{CAT}Catalog.{m}'),
                     f'{m}|{c}', f'{m} {"keeps" if c in gone else "drops"} '
                     f'{c}', m)
    # from_dict with each combination of options
    for u, i in itertools.product((True, False), repeat=2):
        lab = f'include_uncertainties={u}, include_ids={i}'
        r = R.begin('from_dict ' + lab)
        calls = []
        for m in ('drop_uncertainties', 'drop_ids'):
            def f(I, fv, args, kwargs, node, m=m):
                calls.append(m)
                return args[0]
            R.I.overrides[f'{CAT}Catalog.{m}'] = f
        d = R.arg('data', Spec('opaque'))
        f = R.getattr(R.qual(CAT + 'Catalog'), 'from_dict')
        r = R.finish(r, R.call(f, [d], {
            'include_uncertainties': R.I.k(u), 'include_ids': R.I.k(i)}))
        done(out, r)
        R.I.overrides.clear()
        if r.dead:
            continue
        out.ob('option')
        want = [] if u else ['drop_uncertainties']
        want += [] if i else ['drop_ids']
        for m in set(want) ^ set(calls):
            if m in calls or any(e.kind == 'call' and e.d['callee'].endswith(
                    m) for e in r.events) or u or i or calls:
                out.flag('option', site_of(R.I, CAT + 'Catalog.from_dict'),
                         f'{m}|{u}|{i}', f'from_dict with {lab} '
                         f'{"does not call" if m in want else "calls"} {m}',
                         lab)


def types(R, out):
    """the texts of the file become numbers and times"""
    univ = tuple(full())
    r = R.begin('Catalog()')
    o = R.arg('data', Spec('df', cols={}, colset=univ))
    r = R.finish(r, R.call(R.qual(CAT + 'Catalog'), [o], {}))
    done(out, r)
    conv = {}
    for e in r.evs('colwrite'):
        c, v = e.d.get('col'), e.d.get('value')
        if not isinstance(c, str) or v is None:
            return
        names = {y.a[0] for y in t.subterms(v).values()
                 if isinstance(y, t.T) and y.op == 'call'}
        conv.setdefault(c, set()).update(names)
    numeric = {c for c, n in conv.items() if 'pandas.to_numeric' in n
               or 'meth.astype' in n}
    if not numeric:
        return
    for c in NUM + QUALITY:
        out.ob('number')
        if c not in numeric:
            out.flag('type', site_of(R.I, CAT + 'Catalog.__init__'), c,
                     f'the texts read for {c} do not become numbers',
                     'Catalog()')
    out.ob('time')
    if 'time' not in conv or not ({'pandas.to_datetime'} & conv['time']):
        out.flag('type', site_of(R.I, CAT + 'Catalog.__init__'), 'time',
                 'the texts read for time do not become times', 'Catalog()')


# --------------------------------------------------------------------- P17
def escaped(R, out, doc, lab):
    for h, line, where in holes(doc):
        if h.state != 'text':
            continue
        out.ob('escaped text')
        if h.esc or doc.auto:
            continue
        names = {y.a[0] for y in t.subterms(h.term).values()
                 if isinstance(y, t.T) and y.op == 'call'}
        if any('escape' in n or 'quoteattr' in n for n in names):
            continue
        ats = atoms_of(doc, h)
        col = colof(ats[0])[1] if ats else t.show(h.term, 3)
        out.flag('unescaped', (doc.rel, line, 'quakeml'), f'{col}|{where}',
                 f'{col} is inserted unescaped ({where})', lab)


def markup(R, out):
    """column names and texts with markup characters"""
    for ty in ('M<x', 'M&x', 'M"x', 'M>x'):
        lab = f'secondary magnitude type {ty}'
        cols = dict(REQ, **sec(ty))
        d = document(R, out, lab, dict(cols=cols))
        if d is None:
            continue
        escaped(R, out, d, lab)
        out.ob('text of a column name')
        seen = [p for e in d.events if e[0] == 'text' for p in e[1]
                if isinstance(p, str) and p.strip() == ty]
        if not seen:
            out.flag('unescaped', (d.rel, 0, 'quakeml'), 'type',
                     f'the magnitude type {ty} does not arrive in the '
                     'document', lab)


# --------------------------------------------------------------------- P18
def el(tag, *kids, **attrs):
    return (tag, attrs, kids)


def A(name):
    return mk('in', name)


def val(name, col, unc=True):
    kids = [el('value', A(col))]
    if unc:
        kids.append(el('uncertainty', A(col + '_uncertainty')))
    return el(name, *kids)


def quality(n):
    names = ('associatedPhaseCount', 'usedPhaseCount',
             'associatedStationCount', 'usedStationCount', 'depthPhaseCount',
             'standardError', 'azimuthalGap', 'secondaryAzimuthalGap',
             'maximumDistance', 'minimumDistance', 'medianDistance')
    return el('quality', *[el(x, A(f'{n}.{x.lower()}')) for x in names])


INFO = el('creationInfo', el('agencyID', A('x.agency')),
          el('author', A('x.author')), el('creationTime', A('x.created')))


def origin(n, extra=(), skip=()):
    kids = [val('time', f'{n}.time'), val('latitude', f'{n}.latitude'),
            val('longitude', f'{n}.longitude'), val('depth', f'{n}.depth'),
            el('evaluationMode', A(f'{n}.evaluationmode')), quality(n),
            INFO] + list(extra)
    return el('origin', *[k for k in kids if k[0] not in skip],
              publicID=A(f'{n}.originID'))


def magnitude(n, extra=(), skip=(), org='o'):
    kids = [val('mag', f'{n}.magnitude'), el('type', A(f'{n}.type')),
            el('originID', A(f'{org}.originID')), INFO] + list(extra)
    return el('magnitude', *[k for k in kids if k[0] not in skip],
              publicID=A(f'{n}.magnitudeID'))


def event(n, *kids):
    return el('event', *kids, publicID=A(f'{n}.eventID'))


def tree(*events):
    return el('q:quakeml', el('eventParameters', *events))


def pref(o='o', m='m'):
    r = []
    if o:
        r.append(el('preferredOriginID', A(f'{o}.originID')))
    if m:
        r.append(el('preferredMagnitudeID', A(f'{m}.magnitudeID')))
    return r


def want(n='e', o='o', m='m', secs=(), skip=(), unc=True):
    d = {'eventID': A(f'{n}.eventID'), 'event_type': A(f'{n}.type')}
    if o:
        for c in NUM[:3] + ('time',):
            d[c] = A(f'{o}.{c}')
            if unc:
                d[c + '_uncertainty'] = A(f'{o}.{c}_uncertainty')
        d['evaluationmode'] = A(f'{o}.evaluationmode')
        d['originID'] = A(f'{o}.originID')
        for c in QUALITY:
            d[c] = A(f'{o}.{c}')
    if m:
        d['magnitude'] = A(f'{m}.magnitude')
        if unc:
            d['magnitude_uncertainty'] = A(f'{m}.magnitude_uncertainty')
        d['magnitude_type'] = A(f'{m}.type')
        d['magnitudeID'] = A(f'{m}.magnitudeID')
    for s in secs:
        ty, s = s if isinstance(s, tuple) else (s, s)
        for c, x in (('', 'magnitude'), ('_uncertainty',
                                         'magnitude_uncertainty'),
                     ('_magnitudeID', 'magnitudeID')):
            d[(ty, c)] = A(f'{s}.{x}')
    for k in skip:
        d.pop(k, None)
    return d


UNKNOWN = [
    el('description', el('text', A('x.text')), el('type', A('x.dtype'))),
    el('comment', el('text', A('x.comment')), INFO),
    el('amplitude', el('genericAmplitude', el('value', A('x.amp'))),
       el('type', A('x.atype')), publicID=A('x.ampID')),
    el('stationMagnitude', val('mag', 'x.smag'), el('type', A('x.stype')),
       el('originID', A('x.sorg')), publicID=A('x.smagID')),
    el('focalMechanism', el('momentTensor', el(
        'derivedOriginID', A('x.derived')), val('scalarMoment', 'x.moment'),
        publicID=A('x.mtID')), el('nodalPlanes', el(
            'nodalPlane1', val('strike', 'x.strike'))),
       publicID=A('x.fmID')),
    el('pick', el('time', el('value', A('x.ptime'))),
       el('evaluationMode', A('x.pmode')), publicID=A('x.pickID')),
]
OUNKNOWN = [
    el('comment', el('text', A('x.ocomment'))),
    el('arrival', el('pickID', A('x.arrpick')), el('phase', A('x.phase')),
       el('azimuth', A('x.az')), publicID=A('x.arrID')),
    el('originUncertainty', el('horizontalUncertainty', A('x.hor')),
       el('confidenceLevel', A('x.conf'))),
    el('compositeTime', el('year', val('x', 'x.year'))),
    el('type', A('x.otype')),
    el('evaluationStatus', A('x.ostatus')),
]
MUNKNOWN = [
    el('comment', el('text', A('x.mcomment'))),
    el('stationMagnitudeContribution',
       el('stationMagnitudeID', A('x.contr')), el('weight', A('x.weight'))),
    el('evaluationMode', A('x.mmode')),
    el('stationCount', A('x.mcount')),
    el('azimuthalGap', A('x.mgap')),
]
TYPE = el('type', A('e.type'))

# (version, creation time) of magnitudes of one type, the first one is newest
VERSIONS = {
    'version numbers': [('10', None), ('9', None), ('2', None)],
    'creation times': [(None, '2020-03-01T10:00:00.5Z'),
                       (None, '2020-03-01T09:00:00Z'),
                       (None, '2019-12-31T23:59:59Z')],
    'version numbers and creation times':
        [('2', '2019-12-31T23:59:59Z'), ('1', '2020-03-01T10:00:00Z')],
    'creation times and one version number':
        [(None, '2020-03-01T10:00:00Z'), ('7', '2019-12-31T23:59:59Z')],
    'versions that are no numbers':
        [('b-2', '2020-03-01T10:00:00Z'), ('c-1', '2019-12-31T23:59:59Z')],
    'version numbers and one creation time':
        [('3', None), ('2', '2019-12-31T23:59:59Z')],
}


def version(n, ver, when):
    info = [el('agencyID', A('x.agency'))]
    if ver:
        info.append(el('version', t.const(ver)))
    if when:
        info.append(el('creationTime', t.const(when)))
    return el('magnitude', val('mag', f'{n}.magnitude'),
              el('type', A('v.type')), el('creationInfo', *info),
              publicID=A(f'{n}.magnitudeID'))



def streams():
    """(label, tree, expected rows, options)"""
    o, m, m2 = origin('o'), magnitude('m'), magnitude('m2')
    o2 = origin('o2')
    base = {'preferred': pref(), 'origin': [o], 'magnitude': [m],
            'type': [TYPE]}
    for perm in itertools.permutations(base):
        yield 'children in the order ' + ', '.join(perm), \
            tree(event('e', *[x for k in perm for x in base[k]])), \
            [want()], {}
    yield 'second of two origins preferred', tree(event(
        'e', *pref(), o2, o, m, TYPE)), [want()], {}
    yield 'first of two origins preferred', tree(event(
        'e', *pref(), o, o2, m, TYPE)), [want()], {}
    yield 'second of two magnitudes preferred', tree(event(
        'e', m2, m, o, TYPE, *pref())), [want(secs=['m2'])], {}
    yield 'first of three magnitudes preferred', tree(event(
        'e', m, magnitude('m3'), m2, o, TYPE, *pref())), \
        [want(secs=['m2', 'm3'])], {}
    yield 'only the preferred magnitude asked for', tree(event(
        'e', m, m2, o, TYPE, *pref())), [want()], {'all_mags': False}
    yield 'no quality asked for', tree(event('e', m, o, TYPE, *pref())), \
        [want(skip=QUALITY)], {'quality': False}
    for tag, cols in (('depth', ['depth', 'depth_uncertainty']),
                      ('evaluationMode', ['evaluationmode']),
                      ('quality', QUALITY), ('creationInfo', [])):
        yield f'origin without {tag}', tree(event(
            'e', *pref(), origin('o', skip=[tag]), m, TYPE)), \
            [want(skip=cols)], {}
    yield 'event without type', tree(event('e', *pref(), o, m)), \
        [want(skip=['event_type'])], {}
    yield 'magnitude without type', tree(event(
        'e', *pref(), o, magnitude('m', skip=['type']), TYPE)), \
        [want(skip=['magnitude_type'])], {}
    yield 'another magnitude without type', tree(event(
        'e', *pref(), o, m, magnitude('m2', skip=['type']), TYPE)), \
        [want()], {}
    yield 'no preferred magnitude', tree(event('e', *pref(m=None), o, TYPE)),\
        [want(m=None)], {}
    yield 'event without origin and magnitude', tree(event('e', TYPE)), \
        [want(o=None, m=None)], {}
    yield 'unknown elements', tree(event(
        'e', INFO, *UNKNOWN, *pref(), origin('o', OUNKNOWN),
        magnitude('m', MUNKNOWN), TYPE)), [want()], {}
    yield 'unknown elements at the end', tree(event(
        'e', *pref(), origin('o', OUNKNOWN), magnitude('m', MUNKNOWN), TYPE,
        INFO, *UNKNOWN)), [want()], {}
    yield 'magnitude without preferred magnitude ID', tree(event(
        'e', *pref(m=None), o, m, TYPE)), [want(m=None, secs=['m'])], {}
    for lab, vs in VERSIONS.items():
        for order in itertools.permutations(range(len(vs))):
            ms = [version(f'v{i}', *vs[i]) for i in order]
            yield f'magnitudes of one type with {lab}, order {order}', \
                tree(event('e', *pref(), o, m, TYPE, *ms)), \
                [want(secs=[('v', 'v0')])], {}
            if order == tuple(range(len(vs))):
                yield f'magnitudes of one type with {lab}, one of another', \
                    tree(event('e', *pref(), o, m, TYPE, ms[0], m2,
                               *ms[1:])), \
                    [want(secs=[('v', 'v0'), 'm2'])], {}
    two = tree(event('e', *pref(), o, m, TYPE),
               event('e2', *pref('o2', 'm2'), origin(
                   'o2', skip=['evaluationMode', 'quality']),
                   magnitude('m2')))
    yield 'two events', two, [want(), want(
        'e2', 'o2', 'm2', skip=('evaluationmode', 'event_type') + QUALITY)],\
        {}
    yield 'second event without origin and magnitude', tree(
        event('e', *pref(), o, m, m2, TYPE),
        event('e2', el('type', A('e2.type')))), \
        [want(secs=['m2']), want('e2', o=None, m=None)], {}
    yield 'no events', tree(), [], {}
    b = tree(event('e', *pref(), o, m, m2, TYPE))
    w = [want(secs=['m2'])]
    yield 'text in two pieces', b, w, {'chunks': True}
    yield 'white space around elements', b, w, {'space': True}
    yield 'white space around texts', b, w, {'pad': True}
    yield 'empty elements', tree(event(
        'e', *pref(), origin('o', [el('region')]), m, TYPE,
        el('comment'))), [want()], {}


def flatten(x, opts, ev, depth=0):
    sp = '\n' + '  ' * depth
    tag, attrs, kids = x
    if opts.get('space'):
        ev.append(('text', [sp]))
    ev.append(('start', tag, {k: [v] for k, v in attrs.items()}))
    for k in kids:
        if isinstance(k, t.T):
            n = k.a[0]
            if k.op == 'const':
                ev.append(('text', [n]))
            elif opts.get('chunks'):
                ev.append(('text', [mk('in', n + '#1')]))
                ev.append(('text', [mk('in', n + '#2')]))
            elif opts.get('pad'):
                ev.append(('text', ['\n   ']))
                ev.append(('text', [k]))
                ev.append(('text', ['\n ']))
            else:
                ev.append(('text', [k]))
        else:
            flatten(k, opts, ev, depth + 1)
    if opts.get('space'):
        ev.append(('text', [sp]))
    ev.append(('end', tag))
    return ev


def symbols(x, acc):
    for v in x[1].values():
        acc.add(v)
    for k in x[2]:
        if isinstance(k, t.T):
            if k.op == 'in':
                acc.add(k)
        else:
            symbols(k, acc)
    return acc


def stream(R, out, lab, tr, rows, opts):
    syms = symbols(tr, set())
    if opts.get('chunks'):
        syms |= {mk('in', f'{a.a[0]}#{i}') for a in syms for i in (1, 2)}
    rd = Reader(R, lab, sorted(syms, key=lambda a: a.a[0]),
                opts.get('all_mags', True), opts.get('quality', True))
    ev = flatten(tr, opts, [])
    if opts.get('chunks'):
        # identifiers come in one piece as attributes
        same = {}
        for e in ev:
            if e[0] == 'start':
                for v in e[2].values():
                    same[v[0]] = R.I.reify(rd.text(
                        [mk('in', v[0].a[0] + '#1'),
                         mk('in', v[0].a[0] + '#2')]))
        ev = [(e[0], e[1], {k: [same[v[0]]] for k, v in e[2].items()})
              if e[0] == 'start' else e for e in ev]
    rd.feed(ev)
    got = rd.finish()
    done(out, rd.r)
    site = site_of(R.I, PARSER + 'QuakeMLHandler')
    out.ob('stream read')
    if rd.failed:
        s = [e.site for e in rd.r.evs('raise')]
        out.flag('raises', s[-1] if s else site, f'raises|{lab}',
                 f'the reader raises in {rd.failed} for: {lab}', lab)
        return
    if len(got) != len(rows):
        out.flag('events', site, f'number|{lab}',
                 f'{len(rows)} events in the stream, {len(got)} read: {lab}',
                 lab)
        return
    I = R.I

    def key(k):
        if isinstance(k, tuple):
            s, c = k
            ty = A(f'{s}.type')
            if opts.get('chunks'):
                ty = text2(ty)
            parts = ['magnitude_', ty, c]
            return norm(I.reify(rd.text([p for p in parts if p != ''])))
        return k

    def text2(a):
        return I.reify(rd.text([mk('in', a.a[0] + '#1'),
                                mk('in', a.a[0] + '#2')]))

    for n, (row, exp) in enumerate(zip(got, rows)):
        row = {(norm(k) if isinstance(k, t.T) else k): v
               for k, v in row.items()}
        names = set()
        for k, a in exp.items():
            kk = key(k)
            names.add(kk)
            if opts.get('chunks'):
                a = text2(a)
            out.ob('value read')
            x = row.get(kk)
            if x is None or norm(x) is not norm(a):
                out.flag('value', site, f'{k}|{lab}',
                         f'{k if isinstance(k, str) else k[0] + k[1]} of '
                         f'event {n + 1} is '
                         f'{"missing" if x is None else t.show(x, 4)[:60]} '
                         f'instead of {t.show(a, 4)[:60]}: {lab}', lab)
        own = exp.get('magnitude_type')
        for k, x in row.items():
            if k in names or x is t.NONE:
                continue
            if isinstance(k, t.T):
                # columns of the preferred magnitude's own type
                if own is None or any(
                        y.op == 'in' and not y.a[0].split('#')[0] ==
                        exp['magnitude_type'].a[0]
                        for y in t.subterms(k).values()
                        if isinstance(y, t.T)):
                    out.flag('extra', site, f'{t.show(k, 4)}|{lab}',
                             f'unexpected column {t.show(k, 4)}: {lab}', lab)
                continue
            out.flag('extra', site, f'{k}|{lab}', f'{k} of event {n + 1} is '
                     f'{t.show(x, 4)[:60]} though the event has none: {lab}',
                     lab)


def norm(x):
    """flat concatenation without empty parts"""
    if not isinstance(x, t.T):
        return x
    out = []

    def go(y):
        if y.op == 'call' and y.a[0] == 'str.join':
            for z in y.a[1]:
                go(z)
        elif y.op == 'const' and y.a[0] == '':
            pass
        elif y.op == 'const' and out and out[-1].op == 'const':
            out[-1] = t.const(out[-1].a[0] + y.a[0])
        else:
            out.append(y)
    go(x)
    return out[0] if len(out) == 1 else mk('call', 'str.join', tuple(out),
                                           ())


# ------------------------------------------------------------ syntax errors
CASES = {
    'an empty document': ([], 'no element found: line 1', None),
    'a document that ends too early':
        ([('start', 'q:quakeml', {}), ('start', 'event', {})],
         'no element found: line 9', 'raise'),
    'a document that ends after an event':
        ([('start', 'q:quakeml', {}), ('start', 'event', {}),
          ('end', 'event')], 'no element found: line 9', 'raise'),
    'a document with a syntax error':
        ([('start', 'q:quakeml', {})], 'mismatched tag: line 3', 'raise'),
    'a document that is no XML': ([], 'syntax error: line 1', 'raise'),
    'a good document': ([('start', 'q:quakeml', {}), ('start', 'event', {}),
                         ('end', 'event'), ('end', 'q:quakeml')], None,
                        'rows'),
}


def errors(R, out):
    I = R.I
    for fn in ('parse_quakeml_file', 'parse_quakeml_response',
               'parse_quakeml'):
        q = PARSER + fn
        if not R.has(q):
            continue
        for lab, (evs, err, expect) in CASES.items():
            r = R.begin(f'{fn}: {lab}')
            st = {}

            def feed(h):
                for e in evs:
                    if e[0] == 'start':
                        a = I.val(mk('dict0', 'attrs', I.oids), 'dict',
                                  pl=('dict', (), None))
                        m, args = 'startElement', [I.k(e[1]), a]
                    else:
                        m, args = 'endElement', [I.k(e[1])]
                    I.call(I.getattr(h, m, None), args, {}, None, None)
                if err:
                    msg = I.k(err)
                    I.ev('raise', None, exc='SAXParseException',
                         msg=t.const(err))
                    I.on_raise('SAXParseException', msg)
                    raise Dead
                return I.k(None)

            def hook(recv, rt, name, args, kwargs, node):
                if name == 'setContentHandler' and args:
                    st['h'] = args[0]
                    return I.k(None)
                if name == 'parse' and 'h' in st:
                    st['parsed'] = True
                    return feed(st['h'])
                return None
            I.meth_hook = hook
            spec = Spec('opaque')
            x = R.arg('input', spec)
            r = R.finish(r, R.call(R.qual(q), [x], {}))
            done(out, r)
            if 'parsed' not in st:
                continue
            out.ob('syntax error')
            site = site_of(I, q)
            if expect == 'raise' and not r.dead:
                out.flag('silent', site, f'{fn}|{lab}',
                         f'{fn} returns normally for {lab}', lab)
            if expect == 'rows' and r.dead:
                out.flag('raises', site, f'{fn}|{lab}',
                         f'{fn} raises for {lab}', lab)

"""The QuakeML writer (to_quakeml and its template) and reader (handler),
interpreted on symbolic values."""
import os
from . import terms as t
from .terms import mk, TRUE
from .interp import Dead, C
from .run import Spec, Ref, string, opaque, number
from .template import Evaluator, Hole, Unsupported, NotXML, parse, \
    xml_events

CAT = 'seismostats.catalogs.catalog.'
PARSER = 'seismostats.io.parser.'
NUM = ('latitude', 'longitude', 'depth', 'magnitude')
QUALITY = ('associatedphasecount', 'usedphasecount',
           'associatedstationcount', 'usedstationcount', 'depthphasecount',
           'standarderror', 'azimuthalgap', 'secondaryazimuthalgap',
           'maximumdistance', 'minimumdistance', 'mediandistance')
COUNTS = ('associatedphasecount', 'usedphasecount',
          'associatedstationcount', 'usedstationcount', 'depthphasecount')
UNC = tuple(x + '_uncertainty' for x in NUM)
IDS = ('eventID', 'originID', 'magnitudeID')
TEXTS = ('magnitude_type', 'event_type', 'evaluationmode')
SEC = ('magnitude_MLh', 'magnitude_MLh_uncertainty',
       'magnitude_MLh_magnitudeID')
SEC2 = ('magnitude_Mw(mB)', 'magnitude_Mw(mB)_magnitudeID')


class Stop(Exception):
    """the analysis cannot follow the code"""


def isnum(col):
    return col not in IDS + TEXTS + ('time',) and \
        not col.endswith('magnitudeID')


def sectypes(cols):
    out = []
    for c in cols:
        if c.startswith('magnitude_') and c != 'magnitude_type' \
                and c not in UNC:
            x = c[len('magnitude_'):]
            for e in ('_magnitudeID', '_uncertainty', '_lowerUncertainty',
                      '_upperUncertainty', '_confidenceLevel'):
                if x.endswith(e):
                    x = x[:-len(e)]
            if x not in out:
                out.append(x)
    return out


def atom(col, where='ev'):
    return mk('in', f'{where}.{col}')


def setup(R, atoms):
    """facts about the values: `atoms` term -> state"""
    I = R.I
    for a, s in atoms.items():
        bad = s == 'nan'
        for f, v in (('notna', not bad), ('notnull', not bad),
                     ('isna', bad), ('isnull', bad)):
            I.assume(I.st, mk('call', 'pandas.' + f, (a,), ()), v)
            I.assume(I.st, mk('truth', mk('call', 'pandas.' + f, (a,), ())),
                     v)
        for f in ('numpy.isnan', 'math.isnan'):
            I.assume(I.st, mk('truth', mk('call', f, (a,), ())), bad)
        I.assume(I.st, t.isnone(a), False)
        if s == 'text':
            I.clean.add(a)
        elif s == 'zero':
            I.assume(I.st, t.eq(a, t.ZERO), True)
        elif s == 'value':
            I.assume(I.st, t.eq(a, t.ZERO), False)
    tx = [a for a, s in atoms.items() if s == 'text']
    for i, a in enumerate(tx):
        for b in tx[i + 1:]:
            I.assume(I.st, t.eq(a, b), False)


def plain(R, oid, atoms):
    """python structure of an abstract object"""
    I = R.I
    c = I.c(oid)
    p = c.pl
    if p and p[0] == 'list':
        if any(s[0] != 'e' for s in p[1]):
            raise Stop('list of unknown length')
        return [plain(R, s[1], atoms) for s in p[1]]
    if p and p[0] == 'tuple':
        return tuple(plain(R, x, atoms) for x in p[1])
    if p and p[0] == 'dict':
        if p[2] is not None:
            raise Stop('dictionary with unknown keys')
        d = {}
        for k, (o, cd) in p[1]:
            if isinstance(k, t.T):
                k = k.a[0] if k.op == 'const' else \
                    Hole(k, atoms.get(k, 'text'))
            if cd is not TRUE:
                dd = I.decide(cd)
                if dd is None:
                    raise Stop(f'entry {k} which is there only under a '
                               f'condition {t.show(cd, 6)}')
                if not dd:
                    continue
            d[k] = plain(R, o, atoms)
        return d
    x = I.reify(oid)
    if x.op == 'const':
        return x.a[0]
    if x.op == 'num':
        v = float(x.a[0])
        return int(v) if v == int(v) else v
    if x in atoms:
        return Hole(x, atoms[x])
    inside = [a for a in atoms if a in set(t.subterms(x).values())]
    if len(inside) == 1:
        return Hole(inside[0], atoms[inside[0]],
                    fmt=(('python', t.show(x, 3)),))
    return Hole(x, 'text', fmt=(('python', t.show(x, 3)),))


class Doc:
    pass


def write(R, cols, more=(), same=None, label='', cls='Catalog'):
    """to_quakeml of a catalog with columns `cols` (name -> state)"""
    I = R.I
    r = R.begin('to_quakeml ' + label)
    atoms = {}
    events = [cols] + list(more)
    places = ['ev'] + [f'ev{i}' for i in range(2, len(events) + 1)]
    for where, ev in zip(places, events):
        for c in cols:
            s = ev.get(c, cols[c])
            if not isinstance(s, tuple):       # not a given text
                atoms[atom(c, where)] = s
        for c in IDS:
            atoms.setdefault(atom(c, 'new' + where), 'text')
    atoms[mk('in', 'agencyID')] = 'text'
    atoms[mk('in', 'author')] = 'text'
    for k in list(atoms):
        I.kinds[k.a[0]] = 'num' if atoms[k] in ('value', 'zero', 'nan') \
            else 'str'
    setup(R, atoms)
    # `same`: the secondary type the event's own magnitude type is equal to
    for ty in sectypes(cols):
        for where in places:
            I.assume(I.st, t.eq(atom('magnitude_type', where), t.const(ty)),
                     ty == same and where == 'ev')
    got = {}

    def record(where, ev):
        d = {}
        base = list(cols)
        for c in base + extra():
            s = ev.get(c, cols.get(c))
            if isinstance(s, tuple):
                o = I.k(s[0])
            elif s is not None:
                a = atom(c, where)
                o = I.val(a, 'num' if s in ('value', 'zero', 'nan')
                          else 'str')
            else:
                a = atom(c, 'new' + where)
                if a not in atoms:
                    atoms[a] = 'text'
                    setup(R, {a: 'text'})
                o = I.val(a, 'str')
            d[c] = (o, TRUE)
        return I.val(mk('dict0', 'record', where, I.oids), 'dict',
                     pl=('dict', tuple(d.items()), None))
    known = []

    def extra():
        return [x for x in known if x not in cols]

    def hook(recv, rt, name, args, kwargs, node):
        c = I.c(recv)
        if name == 'to_dict' and (c.kind == 'df' or c.pl
                                  and c.pl[0] == 'inst'
                                  and c.pl[1].is_df()):
            o = kwargs.get('orient') or (args[0] if args else None)
            if o is None or I.reify(o) is not t.const('records'):
                raise Stop('to_dict in another orientation')
            names = list(I.colset(c.term) or ())
            if c.pl and c.pl[0] == 'inst':
                names += [k[1:] for k in c.pl[2] if k[0] == '$']
            known[:] = names
            got['columns'] = names
            return I.val(mk('list0', 'records', I.oids), 'list', pl=(
                'list', tuple(('e', record(w, e))
                        for w, e in zip(places, events))))
        if name == 'render':
            if 'data' in got:
                raise Stop('template rendered twice')
            got['data'] = {k: plain(R, v, atoms) for k, v in kwargs.items()}
            for a in args:
                v = plain(R, a, atoms)
                if not isinstance(v, dict):
                    raise Stop('render() of something else')
                got['data'].update(v)
            got['template'] = rt
            return I.val(mk('rendered'), 'str')
        if name == 'get_template' and args:
            got['name'] = I.reify(args[0])
        return None
    I.meth_hook = hook
    spec = Spec('catalog', cls=CAT + cls, cols={}, attrs={},
                colset=tuple(cols))
    o = R.arg('self', spec)
    f = R.qual(CAT + cls + '.to_quakeml')
    kw = {k: I.val(mk('in', k), 'str') for k in ('agencyID', 'author')}
    out = R.call(f, [o], kw)
    r = R.finish(r, out)
    d = Doc()
    d.run, d.atoms, d.dead = r, atoms, r.dead
    d.events = None
    if r.dead:
        return d
    if 'data' not in got:
        raise Stop('no template is rendered')
    path = pathof(got.get('name'))
    if path is None or not os.path.isfile(path):
        raise Stop('template file not found')
    d.path = path
    d.rel = I.project.relpath(path)
    d.auto = autoescape(r, path)
    d.data = got['data']
    tree = parse(open(path, encoding='utf-8').read())
    d.out = Evaluator(tree, got['data'], d.auto, d.rel).run()
    d.events = xml_events(d.out)
    return d


def pathof(x):
    if x is None:
        return None
    if x.op == 'const':
        return x.a[0]
    if x.op == 'call':
        a = [pathof(y) for y in x.a[1]]
        if any(y is None for y in a):
            return None
        if x.a[0] == 'os.path.join':
            return os.path.join(*a)
        if x.a[0] == 'os.path.dirname':
            return os.path.dirname(a[0])
        if x.a[0] in ('os.path.abspath', 'os.path.realpath',
                      'builtins.str', 'os.fspath'):
            return os.path.abspath(a[0])
        if x.a[0] == 'str.join':
            return ''.join(a)
        if x.a[0] == 'pathlib.Path':
            return os.path.join(*a)
    if x.op == 'attr' and x.a[1] == 'parent':
        b = pathof(x.a[0])
        return os.path.dirname(b) if b else None
    return None


def autoescape(r, path):
    res = False
    for e in r.evs('extcall'):
        if e.d['name'] != 'jinja2.Environment':
            continue
        a = e.d['kwargs'].get('autoescape')
        if a is None or a is t.FALSE:
            continue
        if a is t.TRUE:
            res = True
        elif a.op == 'call' and a.a[0] == 'jinja2.select_autoescape':
            kw = dict(a.a[2])
            ext = kw.get('enabled_extensions')
            exts = ('html', 'htm', 'xml')
            if a.a[1]:
                ext = a.a[1][0]
            if ext is not None:
                exts = tuple(y.a[0] for y in ext.a
                             if isinstance(y, t.T) and y.op == 'const')
            dflt = kw.get('default')
            res = path.endswith(tuple('.' + y for y in exts)) or \
                dflt is t.TRUE or (kw.get('default_for_string')
                                   is t.TRUE and False)
        else:
            raise Stop('autoescape')
    return res


# ------------------------------------------------------------------- reader
class Reader:
    """feeds XML events to the handler of the repository"""

    def __init__(self, R, label, atoms, all_mags=None, quality=None):
        self.R, self.I = R, R.I
        self.r = R.begin('reader ' + label)
        for k in atoms:
            self.I.kinds[k.a[0]] = 'str'
        setup(R, {a: 'text' for a in atoms})
        self.cat = R.arg('cat', [])
        kw = {}
        if all_mags is not None:
            kw['include_all_magnitudes'] = self.I.k(all_mags)
        if quality is not None:
            kw['include_quality'] = self.I.k(quality)
        self.h = R.call(R.qual(PARSER + 'QuakeMLHandler'), [self.cat], kw)
        self.failed = None
        if self.h is None:
            self.failed = 'constructor'
        self.do('startDocument')

    def do(self, meth, *args):
        if self.failed:
            return
        m = self.R.getattr(self.h, meth)
        if m is None:
            self.failed = meth
            return
        if self.R.call(m, list(args), {}) is None:
            self.failed = f'{meth}({", ".join(str(self.I.reify(a)) for a in args)[:60]})'

    def text(self, parts):
        """str, Hole or term -> one piece of text"""
        ts = [t.const(p) if isinstance(p, str) else
              p.term if isinstance(p, Hole) else p for p in parts]
        return self.I.strjoin(ts)

    def start(self, tag, attrs=()):
        d = {k: (self.text(v if isinstance(v, list) else [v]), TRUE)
             for k, v in dict(attrs).items()}
        self.do('startElement', self.I.k(tag), self.I.val(
            mk('dict0', 'attrs', self.I.oids), 'dict',
            pl=('dict', tuple(d.items()), None)))

    def end(self, tag):
        self.do('endElement', self.I.k(tag))

    def chars(self, *parts):
        self.do('characters', self.text(list(parts)))

    def feed(self, events):
        for e in events:
            if e[0] == 'start':
                self.start(e[1], e[2])
            elif e[0] == 'end':
                self.end(e[1])
            else:
                for p in e[1]:
                    self.chars(p)

    def finish(self):
        """list of {column: term} or None"""
        self.do('endDocument')
        self.r = self.R.finish(self.r, self.cat)
        self.r.dead = self.failed is not None
        if self.failed:
            return None
        c = self.I.c(self.cat)
        if not (c.pl and c.pl[0] == 'list'
                and all(s[0] == 'e' for s in c.pl[1])):
            raise Stop('list of events')
        out = []
        for s in c.pl[1]:
            d = self.I.c(s[1])
            if not (d.pl and d.pl[0] == 'dict') or d.pl[2] is not None:
                raise Stop('event which is no dictionary: ' +
                           t.show(d.term.a[1][1], 7)[:900])
            row = {}
            for k, (o, cd) in d.pl[1]:
                if isinstance(k, t.T):
                    k = k.a[0] if k.op == 'const' else k
                if cd is not TRUE:
                    dd = self.I.decide(cd)
                    if dd is None:
                        raise Stop('conditional entry')
                    if not dd:
                        continue
                row[k] = self.I.reify(o)
            out.append(row)
        return out

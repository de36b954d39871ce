"""P19: requests of the event client."""
import itertools
from fractions import Fraction
from .. import terms as t
from ..terms import mk, TRUE
from ..interp import Dead
from .common import done, site_of

RULE = 'get_events is interpreted for every given/omitted/zero parameter, in '\
       'one request and in batches: the query parameters of each request '\
       'must be exactly the given filters under their FDSN names (times '\
       'with date and time of day, minmagnitude lowered by half a bin), the '\
       'batches must be adjoining, all answers must be handed to the '\
       'catalog in order, and a failed request must not end normally'
ASSUMPTIONS = ['raise_for_status() raises exactly for status codes from 400',
               'the service counts events from offset 1']
CLIENT = 'seismostats.catalogs.client.FDSNWSEventClient'
PARSE = 'seismostats.io.parser.parse_quakeml_response'
FROM = 'seismostats.catalogs.catalog.Catalog.from_dict'
PLAIN = {'min_latitude': 'minlatitude', 'max_latitude': 'maxlatitude',
         'min_longitude': 'minlongitude', 'max_longitude': 'maxlongitude',
         'max_magnitude': 'maxmagnitude', 'event_type': 'eventtype'}
TIMES = {'start_time': 'starttime', 'end_time': 'endtime'}
OTHER = ('include_uncertainty', 'include_ids', 'include_quality')


def tasks(R, tier):
    names = list(PLAIN) + list(TIMES) + ['min_magnitude', 'delta_m', 'extra']
    n = 64 if tier == 'thorough' else 24
    sets = [()] + [(x,) for x in names] + [tuple(names)] + [
        tuple(x for x in names if x != y) for y in names] + [
        ('min_magnitude', 'delta_m')]
    for i in range(n):
        k = (i * 2654435761) % (1 << len(names))
        sets.append(tuple(x for j, x in enumerate(names) if k >> j & 1))
    for s in dict.fromkeys(sets):
        for batch in (False, True):
            yield ('params', s, 'value', batch)
    yield ('params', ('paging',), 'value', True)
    yield ('params', ('paging', 'min_magnitude', 'extra'), 'value', True)
    for x in names:
        if x in PLAIN or x in ('min_magnitude', 'extra'):
            yield ('params', (x, 'delta_m'), 'zero', False)
            yield ('params', (x, 'delta_m'), 'zero', True)
    for a in (True, False, None):
        yield ('all_mags', a)
    for c in itertools.product((True, False), repeat=3):
        yield ('options', c, False)
        yield ('options', c, True)
    yield ('twice',)
    yield ('error', False)
    yield ('error', True)
    yield ('error', 'counting')
    for k in range(-1, 40 if tier == 'thorough' else 18):
        yield ('count', k)


def work(R, task, out):
    globals()['do_' + task[0]](R, out, *task[1:])


class Call:
    pass


def begin(R, lab, status='good', client=None, batches=3):
    I = R.I
    s = Call()
    s.r = R.begin(lab)
    s.requests, s.parsed, s.given = [], [], []
    s.R = R
    if client is None:
        client = R.call(R.qual(CLIENT), [I.val(mk('in', 'url'), 'str')], {})
    s.client = client

    def hook(recv, rt, name, args, kwargs, node):
        if name == 'raise_for_status' and s.status == 'bad':
            I.ev('raise', node, exc='HTTPError', msg=None)
            I.on_raise('HTTPError')
            raise Dead
        return None
    s.status = status
    I.meth_hook = hook

    def parse(I, fv, args, kwargs, node):
        resp = I.reify(args[0]) if args else None
        s.parsed.append((resp, I.reify(kwargs['include_quality'])
                         if 'include_quality' in kwargs else
                         I.reify(args[2]) if len(args) > 2 else None))
        e = I.val(mk('in', f'event{len(s.parsed)}'), 'opaque')
        return I.val(mk('list0', 'parsed', len(s.parsed), I.oids), 'list',
                     pl=('list', (('e', e),)))
    I.overrides[PARSE] = parse
    if R.has(FROM):
        def frm(I, fv, args, kwargs, node):
            names = fv.params
            d = dict(zip(names, args))
            d.update(kwargs)
            s.given.append({k: I.reify(v) for k, v in d.items()})
            s.rows = [v for k, v in d.items() if k == 'data']
            return R.call(R.qual('seismostats.catalogs.catalog.Catalog'),
                          [], {})
        I.overrides[FROM] = frm
    if batches is not None and R.has(CLIENT + '._get_batch_count'):
        I.overrides[CLIENT + '._get_batch_count'] = \
            lambda I, fv, args, kwargs, node: I.k(batches)
    return s


def end(R, s, kw, out):
    I = R.I
    f = R.getattr(s.client, 'get_events')
    s.out = R.call(f, [], kw)
    s.r = R.finish(s.r, s.out)
    I.overrides.clear()
    done(out, s.r)
    s.requests = [e for e in s.r.evs('extcall')
                  if e.d['name'].startswith('requests.')
                  and e.d['name'].split('.')[-1] in ('get', 'request')]
    return s


def entries(I, e):
    """query parameters of a request, or None when not known"""
    p = e.d['kwargs'].get('params')
    if p is None and len(e.d['args']) > 1:
        p = e.d['args'][1]
    if p is None or p.op != 'dict' or len(p.a) < 2 or p.a[1] is not t.NONE \
            and p.a[1] is not None:
        return None
    d = {}
    for k, v, c in p.a[0]:
        cd = c if isinstance(c, bool) else I.decide(c)
        if cd is None:
            return None
        if cd:
            d[k.a[0] if isinstance(k, t.T) and k.op == 'const' else k] = v
    return d


def site(R, e=None):
    return e.site if e is not None and e.site else site_of(
        R.I, CLIENT + '.get_events')


def values(R, names, state):
    I = R.I
    kw = {}
    for n in names:
        if n == 'paging':         # overruled by the batches
            for x in ('limit', 'offset'):
                kw[x] = I.val(mk('in', x), 'num')
                I.assume(I.st, t.isnone(mk('in', x)), False)
            continue
        if n == 'extra':
            kw['mindepth'] = I.val(mk('in', 'mindepth'), 'num')
            kw['orderby'] = I.val(mk('in', 'orderby'), 'str')
            I.clean.add(mk('in', 'orderby'))
            a, z = mk('in', 'mindepth'), state == 'zero'
            for f, v in ((t.isnone(a), False), (t.eq(a, t.ZERO), z),
                         (mk('truth', a), not z)):
                I.assume(I.st, f, v)
            continue
        kind = 'opaque' if n in TIMES else 'str' if n == 'event_type' \
            else 'num'
        a = mk('in', n)
        kw[n] = I.val(a, kind)
        I.assume(I.st, t.isnone(a), False)
        if n in TIMES:
            I.assume(I.st, mk('truth', a), True)
        elif n == 'event_type':
            I.clean.add(a)
        elif state == 'zero' and n != 'delta_m':
            I.assume(I.st, t.eq(a, t.ZERO), True)
            I.assume(I.st, mk('truth', a), False)
            I.assume(I.st, t.cmp('>', a, t.ZERO), False)
        else:
            I.assume(I.st, t.eq(a, t.ZERO), False)
    return kw


def expected(names):
    d = {}
    for n in names:
        if n in PLAIN:
            d[PLAIN[n]] = mk('in', n)
        elif n in TIMES:
            d[TIMES[n]] = ('time', mk('in', n))
        elif n == 'extra':
            d['mindepth'] = mk('in', 'mindepth')
            d['orderby'] = mk('in', 'orderby')
    if 'min_magnitude' in names:
        m = mk('in', 'min_magnitude')
        d['minmagnitude'] = t.sub(m, t.mul(t.num('1/2'), mk('in', 'delta_m'))
                                  if 'delta_m' in names else
                                  t.num('1/20'))
    d['includeallmagnitudes'] = None
    return d


def timefmt(x, a):
    """reason why the text x does not name the time a, or None"""
    if a not in t.subterms(x).values():
        return 'is not made from ' + t.show(a)
    for y in t.subterms(x).values():
        if not isinstance(y, t.T) or y.op != 'call':
            continue
        if y.a[0].split('.')[-1] == 'strftime':
            f = [z.a[0] for z in y.a[1] if z.op == 'const'
                 and isinstance(z.a[0], str)]
            if not f:
                return None
            f = f[-1].replace('%T', '%H:%M:%S').replace('%F', '%Y-%m-%d')
            miss = [c for c in 'YmdHMS' if '%' + c not in f]
            if miss:
                return f'drops %{", %".join(miss)} ({f})'
        if y.a[0].split('.')[-1] in ('date', 'floor', 'normalize'):
            return f'drops the time of day ({y.a[0]})'
    return None


def check(R, out, s, e, want, lab, extra=()):
    """compare the parameters of request e"""
    got = entries(R.I, e)
    if got is None:
        return None
    for k, w in want.items():
        out.ob('filter in the request')
        if k not in got:
            if w is None:
                continue
            out.flag('filter missing', site(R, e), k, f'{k} is not in the '
                     f'request though it is given ({lab})', lab)
            continue
        x = got[k]
        if w is None:
            continue
        if isinstance(w, tuple):
            y = timefmt(x, w[1])
            if y:
                out.flag('time', site(R, e), k, f'{k} {y}', lab)
        elif x is not w:
            ins = {n for n in t.inputs(x)}
            if {n for n in t.inputs(w)} == ins and x.op not in (
                    'num', 'in', 'lin', 'mono', 'const', 'phi'):
                continue              # a conversion
            out.flag('filter', site(R, e), k, f'{k} is '
                     f'{t.show(x, 4)[:80]} instead of {t.show(w, 4)[:80]} '
                     f'({lab})', lab)
    for k in got:
        if k not in want and k not in extra:
            out.ob('no other filter')
            out.flag('other filter', site(R, e), str(k), f'{k} is in the '
                     f'request though it is not given ({lab})', lab)
    return got


def do_params(R, out, names, state, batch):
    lab = (', '.join(names) or 'nothing') + ' given' + (
        ' as zero' if state == 'zero' else '') + (
        ', batches' if batch else '')
    s = begin(R, lab)
    kw = values(R, names, state)
    if batch:
        kw['batch_size'] = R.I.val(mk('in', 'batch_size'), 'num')
        R.I.assume(R.I.st, t.cmp('>', mk('in', 'batch_size'), t.ZERO), True)
        R.I.assume(R.I.st, t.isnone(mk('in', 'batch_size')), False)
    end(R, s, kw, out)
    out.ob('request made')
    if s.r.dead:
        ev = list(s.r.evs('raise'))
        out.flag('raises', ev[-1].site if ev else site(R), f'raise|{lab}',
                 f'get_events raises with {lab}', lab)
        return
    if not s.requests:
        return
    for e in s.requests:
        check(R, out, s, e, expected(names), lab,
              ('limit', 'offset') if batch else ())
    if batch:
        batches(R, out, s, lab)
    else:
        out.ob('one request')
        if len(s.requests) == 1 and len(s.parsed) != 1:
            out.flag('answers', site(R), 'answers', f'{len(s.parsed)} '
                     'answers are read', lab)
    rows(R, out, s, lab)
    attrs(R, out, s, names, lab)


def batches(R, out, s, lab):
    bs = mk('in', 'batch_size')
    reqs = []
    for e in s.requests:
        got = entries(R.I, e)
        if got is None:
            return
        reqs.append((e, got))
    if len(reqs) != 3 or len(s.parsed) not in (3,):
        if len(s.parsed) and len(reqs) == 3 and len(s.parsed) != 3:
            out.flag('answers', site(R), 'answers', f'{len(s.parsed)} of 3 '
                     'answers are read', lab)
        return
    for i, (e, got) in enumerate(reqs):
        out.ob('batch')
        if got.get('limit') is not bs:
            out.flag('batch', site(R, e), 'limit', 'limit of a batch is '
                     f'{t.show(got["limit"]) if "limit" in got else "missing"}'
                     ' instead of batch_size', lab)
        w = t.add(t.ONE, t.mul(t.num(i), bs))
        x = got.get('offset')
        if x is not w:
            out.flag('batch', site(R, e), 'offset', f'batch {i + 1} starts '
                     f'at {t.show(x, 4) if x is not None else "nothing"} '
                     f'instead of {t.show(w, 4)}', lab)


def rows(R, out, s, lab):
    """all answers reach the catalog, in order"""
    I = R.I
    if not getattr(s, 'rows', None) or not s.parsed:
        return
    c = I.c(s.rows[0])
    if not (c.pl and c.pl[0] == 'list'
            and all(x[0] == 'e' for x in c.pl[1])):
        return
    got = [I.reify(x[1]) for x in c.pl[1]]
    want = [mk('in', f'event{i + 1}') for i in range(len(s.parsed))]
    out.ob('events reach the catalog')
    if got != want and {y.op for y in got} <= {'in'}:
        out.flag('events', site(R), 'events', 'the catalog gets '
                 f'{[t.show(x) for x in got]} of the events '
                 f'{[t.show(x) for x in want]} read', lab)


def attrs(R, out, s, names, lab):
    c = R.I.c(s.out) if s.out is not None else None
    if c is None or not (c.pl and c.pl[0] == 'inst'):
        return
    for n, k in TIMES.items():
        if k in c.pl[2]:
            x = R.I.reify(c.pl[2][k])
            out.ob('period of the catalog')
            if n in names and mk('in', n) not in t.subterms(x).values():
                out.flag('period', site(R), k, f'{k} of the catalog is '
                         f'{t.show(x, 3)} instead of {n}', lab)
            if n not in names and set(TIMES) & set(t.inputs(x)):
                out.flag('period', site(R), k, f'{k} of the catalog is '
                         f'{t.show(x, 3)} though {n} is not given', lab)


def do_all_mags(R, out, v):
    lab = f'include_all_magnitudes={v}'
    s = begin(R, lab)
    end(R, s, {'include_all_magnitudes': R.I.k(v)}, out)
    for e in s.requests:
        got = entries(R.I, e)
        if got is None:
            continue
        out.ob('filter in the request')
        x = got.get('includeallmagnitudes')
        if v is not None and (x is None or x not in (
                t.TRUE if v else t.FALSE, t.const(str(v).lower()),
                t.const(str(v)))):
            out.flag('filter', site(R, e), 'includeallmagnitudes',
                     f'includeallmagnitudes is {x} with {lab}', lab)


def do_options(R, out, vals, batch):
    lab = ', '.join(f'{k}={v}' for k, v in zip(OTHER, vals))
    s = begin(R, lab)
    kw = {k: R.I.k(v) for k, v in zip(OTHER, vals)}
    if batch:
        kw['batch_size'] = R.I.k(50)
    end(R, s, kw, out)
    u, i, q = [t.TRUE if v else t.FALSE for v in vals]
    for resp, x in s.parsed:
        out.ob('option')
        if x is not None and x.op in ('const',) and x is not q or \
                x is None and vals[2] is False:
            out.flag('option', site(R), f'include_quality|{batch}',
                     f'the answer is read with include_quality={x} '
                     f'({lab})', lab)
    for g in s.given:
        for k, w in (('include_uncertainties', u), ('include_ids', i)):
            out.ob('option')
            x = g.get(k, t.TRUE)
            if x is not w and x.op == 'const':
                out.flag('option', site(R), k, f'the catalog is made with '
                         f'{k}={x} ({lab})', lab)


def do_twice(R, out):
    """filters of an earlier call"""
    lab = 'second call on the same client'
    s = begin(R, 'first call')
    kw = values(R, list(PLAIN) + list(TIMES) + ['min_magnitude', 'extra'],
                'value')
    f = R.getattr(s.client, 'get_events')
    R.call(f, [], kw)
    n = len(R.I.events)
    s.out = R.call(f, [], {'min_latitude': R.I.val(mk('in', 'second'),
                                                   'num')})
    R.I.assume(R.I.st, t.isnone(mk('in', 'second')), False)
    new = [e for e in R.I.events[n:] if e.kind == 'extcall'
           and e.d['name'] == 'requests.get']
    s.r = R.finish(s.r, s.out)
    R.I.overrides.clear()
    done(out, s.r)
    for e in new:
        check(R, out, s, e, {'minlatitude': mk('in', 'second'),
                             'includeallmagnitudes': None}, lab)


def do_error(R, out, batch):
    lab = 'a failed request' + (' while counting' if batch == 'counting'
                                else ' of a batch' if batch else '')
    s = begin(R, lab, status='bad',
              batches=None if batch == 'counting' else 3)
    I = R.I
    kw = {}
    if batch:
        kw['batch_size'] = I.k(50)
    orig = I.opaque_attr

    def attr(oid, c, name, node):
        if c.term.op == 'call' and str(c.term.a[0]).startswith('requests.'):
            if name == 'status_code':
                return I.k(503)
            if name == 'ok':
                return I.k(False)
        return orig(oid, c, name, node)
    I.opaque_attr = attr
    try:
        end(R, s, kw, out)
    finally:
        del I.opaque_attr
    out.ob('failed request')
    if not s.r.dead and s.requests:
        out.flag('failure ignored', site(R), f'{batch}', f'{lab} (status '
                 '503) ends normally', lab)


class Unclear(Exception):
    pass


def many(k, bs):
    """numbers of events which fill k+1 batches, the last of them with one
    event or completely"""
    if k < 0:
        return [('no events', t.ZERO)]
    return [(f'{k} batches and one event', t.add(t.mul(t.num(k), bs), t.ONE)),
            (f'{k + 1} full batches', t.mul(t.num(k + 1), bs))]


def atleast(x, y, bs):
    """x >= y for all batch sizes from 2"""
    d = t.sub(x, y)
    a, b = Fraction(0), None
    if d.op == 'num':
        b = d.a[0]
    elif d is bs:
        a, b = Fraction(1), 0
    elif d.op == 'lin' and len(d.a[1]) == 1 and d.a[1][0][0] is bs:
        a, b = d.a[1][0][1], d.a[0]
    if b is None or a > 0 > 2 * a + b or a < 0 <= 2 * a + b:
        raise Unclear
    return 2 * a + b >= 0


def do_count(R, out, k):
    """how many batches are requested if there are so many events"""
    bs = mk('in', 'batch_size')
    for lab, n in many(k, bs):
        s = begin(R, lab, batches=None)
        I = R.I
        I.intervals[bs] = (2, float('inf'))
        answers = []

        def ext(name, args, kwargs, node):
            if not (name.startswith('requests.')
                    and name.split('.')[-1] in ('get', 'request')):
                return None
            e = next((x for x in reversed(I.events) if x.kind == 'extcall'),
                     None)
            d = None if I.dry or e is None else entries(I, e)
            if d is None:
                raise Unclear
            answers.append((e, d, atleast(
                n, d.get('offset', t.ONE), bs)))
            return I.val(mk('in', f'answer{len(answers)}'), 'opaque')
        orig, eh = I.opaque_attr, I.ext_hook

        def attr(oid, c, name, node):
            x = str(c.term.a[0]) if c.term.op == 'in' else ''
            if x.startswith('answer'):
                e, d, some = answers[int(x[6:]) - 1]
                if name == 'status_code':
                    return I.k(200 if some else 204)
                if name == 'ok':
                    return I.k(True)
                if name in ('content', 'text'):
                    return I.k('<q/>' if some else '')
            return orig(oid, c, name, node)
        I.opaque_attr, I.ext_hook, I.unroll = attr, ext, 64
        try:
            end(R, s, {'batch_size': I.val(bs, 'num')}, out)
        except Unclear:
            out.ob('undetermined: number of batches')
            continue
        finally:
            I.overrides.clear()
            del I.opaque_attr
            I.ext_hook, I.unroll, I.dry = eh, 0, 0
        if s.r.dead:
            out.flag('count', site(R), 'exit', f'with {lab} a call in '
                     'batches does not end normally', lab)
            continue
        got = []
        for resp, _ in s.parsed:
            x = str(resp.a[0]) if resp is not None and resp.op == 'in' else ''
            if x.startswith('answer'):
                got.append(answers[int(x[6:]) - 1])
        if len(got) != len(s.parsed):
            out.ob('undetermined: number of batches')
            continue
        out.ob('events requested')
        seen = [d.get('offset') for e, d, some in got if some]
        want = [t.add(t.ONE, t.mul(t.num(i), bs)) for i in range(k + 1)]
        for w in want:
            if w not in seen:
                out.flag('count', site(R), 'missing', f'with {lab} the '
                         f'events from {t.show(w, 4)} on are not requested',
                         lab)
                break
        if k >= 0 and any(not some for e, d, some in got):
            out.flag('count', site(R), 'beyond', f'with {lab} a batch '
                     'without events is requested, which cannot be read',
                     lab)

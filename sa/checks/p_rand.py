"""P21: results are reproducible."""
from .. import terms as t
from ..entries import accessors
from .base import cut
from .common import (all_entries, entry_tasks, entry_runs, class_tasks,
                     class_runs, done, site_of)

RULE = 'every public entry point and estimator attribute is interpreted; '\
       'every call of a random generator is classified by the public '\
       'function on its call stack and by the generator it draws from, and '\
       'no random, clock, environment, identity or set-order value may '\
       'occur in the term of a result that is documented as deterministic'
ASSUMPTIONS = ['external functions other than those listed are '
               'deterministic']
CAP = {'quick': 48, 'thorough': None}
HEAVY = {'plot_b_significant_1D': {'quick': 8, 'thorough': 48},
         'plot_b_series_constant_nm': {'quick': 24, 'thorough': None},
         'b_significant_1D': {'quick': 24, 'thorough': None}}
METHODS = {'calculate', 'filter_nan'}
# functions which may draw, and entry points which may return what they drew
GLOBAL_DRAW = ('simulate_magnitudes', 'simulate_magnitudes_binned',
               'dither_magnitudes')
OWN_DRAW = ('bootstrap_std',)
RANDOM = {'bootstrap_std', 'ks_test_gr', 'estimate_mc_ks',
          'estimate_mc_b_stability', 'simulate_magnitudes',
          'simulate_magnitudes_binned', 'dither_magnitudes',
          'Catalog.estimate_mc_ks', 'Catalog.estimate_mc_b_stability'}
# who may use the simulations and the bootstrap
USES_SIMULATION = ('ks_test_gr', 'estimate_mc_ks', 'p_lilliefors')
USES_BOOTSTRAP = ('std', 'std_beta')
IDS = ('_create_ids', 'to_openquake', 'to_quakeml')
SEEDS = ('numpy.random.seed', 'numpy.random.set_state', 'random.seed',
         'random.setstate', 'numpy.random.set_bit_generator')
MAKERS = ('numpy.random.default_rng', 'numpy.random.RandomState',
          'numpy.random.Generator', 'numpy.random.PCG64',
          'numpy.random.MT19937', 'numpy.random.SeedSequence',
          'numpy.random.Philox', 'numpy.random.SFC64', 'random.Random')
OTHER = ('secrets.', 'os.urandom', 'random.')
CLOCK = {'datetime.datetime.now', 'datetime.datetime.utcnow',
         'datetime.datetime.today', 'datetime.date.today',
         'pandas.Timestamp.now', 'pandas.Timestamp.utcnow',
         'pandas.Timestamp.today', 'pandas.to_datetime.now', 'time.time',
         'time.time_ns', 'time.monotonic', 'time.perf_counter',
         'time.process_time', 'time.localtime', 'time.gmtime',
         'time.strftime', 'time.ctime', 'timeit.default_timer'}
HOST = {'os.getenv', 'os.environ.get', 'os.environ', 'os.getpid',
        'os.getcwd', 'os.getlogin', 'os.uname', 'socket.gethostname',
        'platform.node', 'platform.platform', 'platform.system',
        'getpass.getuser', 'builtins.id', 'builtins.hash', 'uuid.getnode',
        'builtins.input', 'locale.getlocale', 'os.cpu_count',
        'threading.get_ident'}
UUID = {'uuid.uuid1', 'uuid.uuid4'}
UNORDERED = ('sorted', 'sort', 'argsort', 'unique', 'len', 'max', 'min',
             'any', 'all', 'set', 'frozenset', 'in', 'cols', 'uniq', 'isin',
             'contains', 'sum', 'mean', 'colset', 'lexsort', 'amax', 'amin',
             'nanmax', 'nanmin', 'median', 'std', 'var', 'issubset',
             'difference', 'union', 'intersection', 'histogram', 'size')
STREAMS = ('Generator.', 'RandomState.')


def tasks(R, tier):
    for k, v in HEAVY.items():
        yield from entry_tasks(R, v[tier], keys={k}, chunk=2)
    yield from entry_tasks(R, CAP[tier], skip=set(HEAVY))
    yield from class_tasks(R)
    from . import p_quake
    if R.has(p_quake.PARSER + 'QuakeMLHandler'):
        for i, x in enumerate(p_quake.streams()):
            if not x[3].get('chunks'):
                yield ('stream', i)


def names(e):
    """plain names of the functions on the stack of an event"""
    out = {e.site[2].replace('.<locals>', '').split('.<')[0].split('.')[-1]}
    for s in e.stack:
        q = s[0] if isinstance(s, tuple) else s
        for p in str(q).split('.'):
            out.add(p)
    for p in e.site[2].split('.'):
        out.add(p)
    return out


def kind(n):
    if n in SEEDS:
        return 'seed'
    if n in MAKERS:
        return 'maker'
    if n.startswith('numpy.random.'):
        return 'global'
    if n.endswith('.rvs'):
        return 'global'
    if n.startswith(OTHER):
        return 'other'
    if n in CLOCK:
        return 'clock'
    if n in HOST:
        return 'host'
    if n in UUID:
        return 'uuid'
    return None


def seeded(e, run):
    """the generator is made from the seed of the caller"""
    ts = list(e.d.get('args') or ()) + [v for v in (
        e.d.get('kwargs') or {}).values()]
    for x in ts:
        if not isinstance(x, t.T):
            continue
        if 'random_state' in t.inputs(x):
            return not unseeded(x)
    return False


def unseeded(x):
    """for some value of the seed it is not used"""
    if x.op != 'phi':
        return 'random_state' not in t.inputs(x)
    c = x.a[0]
    if c.op == 'not':
        c = c.a[0]
    if c.op in ('isnone', 'const') or 'isinstance' in t.show(c):
        return False
    return unseeded(x.a[1]) or unseeded(x.a[2])


def bad_order(x, orders):
    """a set whose order decides what x is"""
    seen, todo = set(), [x]
    while todo:
        y = todo.pop()
        if y.id in seen:
            continue
        seen.add(y.id)
        o = y.op
        n = y.a[0].split('.')[-1] if o in ('call', 'rng') and y.a and \
            isinstance(y.a[0], str) else o
        if y.id in orders:
            return y
        if n in UNORDERED:
            continue
        if o == 'map' and len(y.a) > 1 and isset(y.a[1]):
            return y
        if o in ('call',) and n in ('list', 'tuple', 'array', 'asarray',
                                    'fromiter', 'join') and len(y.a) > 1 \
                and y.a[1] and isset(y.a[1][-1]):
            return y
        kids(y.a, todo)
    return None


def kids(a, todo):
    for z in a:
        if isinstance(z, t.T):
            todo.append(z)
        elif isinstance(z, tuple):
            kids(z, todo)


def isset(y):
    if y.op == 'set':
        return len(y.a) > 1
    return y.op == 'call' and y.a[0] in ('builtins.set',
                                         'builtins.frozenset')


def rngs(x):
    return [y for y in t.subterms(x).values() if y.op == 'rng']


def impure(x):
    for y in t.subterms(x).values():
        if y.op == 'call' and isinstance(y.a[0], str):
            k = kind(y.a[0])
            if k in ('clock', 'host'):
                return y.a[0]
    return None


def events(r, evs, lab, out, silent=False):
    """every place where something unrepeatable is read"""
    for e in evs:
        if e.kind not in ('extcall', 'methcall'):
            continue
        n = e.d['name']
        if e.kind == 'methcall':
            rt = e.d.get('recv')
            if isinstance(rt, t.T) and n == 'sample' and \
                    e.d.get('rkind') in ('inst', 'df', 'series', 'opaque', 'arr') and \
                    'random_state' not in (e.d.get('kwargs') or {}):
                n = 'numpy.random.sample'
            else:
                continue
        k = kind(n)
        if k is None:
            continue
        st = names(e)
        out.ob('source of randomness, clock or environment')
        key = f'{e.site[2]}|{n}'
        if k == 'seed':
            out.flag('random.seed', e.site, key,
                     f'{n} resets the random state of the caller', lab)
        elif k == 'maker':
            if st & set(OWN_DRAW):
                if rs(r) and not seeded(e, r):
                    out.flag('random.state', e.site, key,
                             f'{n} ignores random_state', lab)
            elif not seeded(e, r):
                out.flag('random.generator', e.site, key,
                         f'{n}: the draws do not follow the numpy seed',
                         lab)
        elif k in ('global', 'other'):
            if k == 'other':
                out.flag('random.generator', e.site, key,
                         f'{n} does not follow the numpy seed', lab)
            elif st & set(OWN_DRAW):
                out.flag('random.state', e.site, key,
                         f'{n} is not governed by random_state', lab)
            elif not st & set(GLOBAL_DRAW):
                out.flag('random.draw', e.site, key,
                         f'{n} is drawn outside the simulation functions',
                         lab)
        if silent and k in ('global', 'maker', 'other'):
            out.flag('random.draw', e.site, key + '|silent',
                     f'{n} is drawn by a function which is documented as '
                     'deterministic', lab)
        elif k == 'uuid':
            if not st & set(IDS):
                out.flag('random.id', e.site, key,
                         f'{n} outside the creation of event ids', lab)


def rs(r):
    v = r.args.get('random_state')
    if v is None:
        return False
    x = r.term(v)
    return x.op == 'input' or bool(t.inputs(x))


def result(x, what, key, site, lab, out, random_ok, orders):
    out.ob('result is reproducible')
    if not random_ok:
        g = rngs(x)
        if g:
            out.flag('random.result', site, f'{key}|{what}|random',
                     f'{what} depends on a random number '
                     f'({cut(t.show(g[0], 2), 60)})', lab)
    i = impure(x)
    if i:
        out.flag('impure.result', site, f'{key}|{what}|{i}',
                 f'{what} depends on {i}', lab)
    y = bad_order(x, orders)
    if y is not None:
        out.flag('order.result', site, f'{key}|{what}|order',
                 f'{what} depends on the iteration order of a set '
                 f'({cut(t.show(y, 3), 60)})', lab)


def bootstrap_class(R, ci):
    """the std of this class is a bootstrap"""
    return any(k.name == 'BMorePositiveBValueEstimator' for k in ci.mro())


def reader(R, task, out):
    """the order of the columns that are read"""
    from . import p_quake
    lab, tr, rows, opts = list(p_quake.streams())[task[1]]
    syms = p_quake.symbols(tr, set())
    rd = p_quake.Reader(R, lab, sorted(syms, key=lambda a: a.a[0]),
                        opts.get('all_mags', True),
                        opts.get('quality', True))
    rd.feed(p_quake.flatten(tr, opts, []))
    rd.finish()
    done(out, rd.r)
    out.ob('stream read in order')
    for e in rd.r.events:
        if e.kind == 'setorder':
            out.flag('order.result', e.site, f'{e.site[2]}|order',
                     'the order of the columns depends on the iteration '
                     'order of a set', lab)


def work(R, task, out):
    if task[0] == 'stream':
        return reader(R, task, out)
    if task[0] == 'class':
        ci = R.classinfo(task[1])
        ns = [n for n in accessors(ci) if n not in METHODS]
        for ci, cfg, r in class_runs(R, task, read=ns):
            done(out, r)
            site = site_of(R.I, ci.qual)
            boot = bootstrap_class(R, ci)
            events(r, r.events, r.name, out, True)
            events(r, r.reading, r.name, out)
            if r.dead:
                continue
            orders = ordered(r.events + r.reading)
            result(r.result(), 'calculate()', ci.name, site, r.name, out,
                   False, orders)
            for n, o in r.read.items():
                ok = n == 'p_lilliefors' or boot and n in USES_BOOTSTRAP
                result(r.term(o), n, ci.name, site, r.name, out, ok, orders)
            out.sample(r.name)
        return
    for E, cfg, r in entry_runs(R, task):
        done(out, r)
        site = site_of(R.I, E.qual)
        m = getattr(cfg.get('method') or cfg.get('b_method'), 'qual', '')
        boot = bool(m) and bootstrap_class(R, R.classinfo(m))
        ok = E.key in RANDOM
        if E.key.endswith('estimate_mc_b_stability') and not boot and m:
            ok = False
        if E.key == 'ks_test_gr' and cfg.get('ks_ds') is not None:
            ok = False
        events(r, r.events, r.name, out, not ok and not boot)
        if r.dead:
            continue
        orders = ordered(r.events)
        x = r.result()
        if boot and not ok and x.op == 'tuple' and x.a and \
                (cfg.get('return_std') is True or
                 E.key == 'values_from_partitioning'):
            # the b-value and the number, not the bootstrap std
            for i, y in enumerate(x.a):
                if i != 1:
                    result(y, f'result {i}', E.key, site, r.name, out,
                           ok, orders)
        else:
            result(x, 'the result', E.key, site, r.name, out,
                   ok or boot, orders)
        out.sample(r.name)


def ordered(evs):
    return {e.d['term'].id for e in evs if e.kind == 'setorder'
            and isinstance(e.d['term'], t.T)}

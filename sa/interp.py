"""Abstract interpreter over the syntax trees of the project.

It computes, for one public entry point and one finite configuration of its
options, the value graph (terms.T) of everything the entry point returns,
stores, raises, warns about, mutates and passes to other functions, following
calls into the project's own functions.  Undecided conditions split the state
and are joined again with gated phi terms (no enumeration of paths, no
solver); loops over data are summarised symbolically.
"""
import re
import ast
from fractions import Fraction

from . import terms as t
from .terms import T, mk, const, num, NONE, TRUE, FALSE

MAXDEPTH = 40
UNROLL = 64


class Dead(Exception):
    """the current path ends (raise / no return)"""


class Undecided(Exception):
    pass


class C:
    """content of an abstract object (immutable)"""
    __slots__ = ('term', 'kind', 'roots', 'pl')

    def __init__(self, term, kind='opaque', roots=frozenset(), pl=None):
        self.term, self.kind, self.roots, self.pl = term, kind, roots, pl

    def but(self, **k):
        return C(k.get('term', self.term), k.get('kind', self.kind),
                 k.get('roots', self.roots), k.get('pl', self.pl))

    def __repr__(self):
        return f'<{self.kind} {self.term!r}>'


class FuncVal:
    def __init__(self, node, module, closure, cls, qual, defaults, kwdefaults):
        self.node, self.module, self.closure = node, module, closure
        self.cls, self.qual = cls, qual
        self.defaults, self.kwdefaults = defaults, kwdefaults
        self.is_static = self.is_cls = False
        self.uid = None

    @property
    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args]


class ClassInfo:
    def __init__(self, name, module, node, bases):
        self.name, self.module, self.node, self.bases = \
            name, module, node, bases
        self.attrs = {}
        self.qual = f'{module.name}.{name}'

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, ClassInfo):
                for x in b.mro():
                    if x not in out:
                        out.append(x)
        return out

    def ext_bases(self):
        out = []
        for c in self.mro():
            for b in c.bases:
                if not isinstance(b, ClassInfo):
                    out.append(b)
        return out

    def lookup(self, name):
        for c in self.mro():
            if name in c.attrs:
                return c, c.attrs[name]
        return None, None

    def issub(self, other):
        return other in self.mro()

    def is_df(self):
        return any('DataFrame' in b for b in self.ext_bases())


class State:
    __slots__ = ('heap', 'facts', 'pc', 'log', 'base')

    def __init__(self, base=None):
        self.heap, self.facts, self.pc, self.log = {}, {}, (), set()
        self.base = base

    def copy(self):
        s = State(self.base)
        s.heap = dict(self.heap)
        s.facts = dict(self.facts)
        s.pc = self.pc
        return s

    def get(self, oid):
        c = self.heap.get(oid)
        if c is None and self.base is not None:
            c = self.base.get(oid)
        return c

    def set(self, oid, c):
        self.heap[oid] = c
        self.log.add(oid)


class Event:
    __slots__ = ('kind', 'site', 'stack', 'pc', 'd', 'facts')

    def __init__(self, kind, site, stack, pc, d):
        self.kind, self.site, self.stack, self.pc, self.d = \
            kind, site, stack, pc, d

    def __repr__(self):
        return f'{self.kind}@{self.site} {self.d}'


class Exit:
    def __init__(self, st, oid):
        self.st, self.oid = st, oid


class Frame:
    """python-side activation record"""

    def __init__(self, fv, foid, module, cls):
        self.fv, self.foid, self.module, self.cls = fv, foid, module, cls
        self.exits = []
        self.loops = []
        self.nonlocals = {}
        self.catch = []


NUM_KINDS = {'num', 'bool'}
SETCMP = {'Lt': lambda a, b: a < b, 'LtE': lambda a, b: a <= b,
          'Gt': lambda a, b: a > b, 'GtE': lambda a, b: a >= b,
          'Eq': lambda a, b: a == b, 'NotEq': lambda a, b: a != b}
NOTNONE = {'bool', 'num', 'str', 'arr', 'list', 'tuple', 'dict', 'set', 'inst',
           'func', 'class', 'mod', 'ext', 'df', 'series', 'gen', 'range'}
BUILTINS = {'len', 'range', 'enumerate', 'zip', 'min', 'max', 'sum', 'abs',
            'sorted', 'set', 'frozenset', 'list', 'tuple', 'dict',
            'isinstance', 'issubclass', 'hasattr', 'getattr', 'setattr',
            'float', 'int', 'str', 'bool', 'print', 'any', 'all', 'round',
            'super', 'type', 'iter', 'next', 'map', 'filter', 'reversed',
            'open', 'repr', 'callable', 'id', 'hash', 'vars', 'dir', 'object',
            'property', 'staticmethod', 'classmethod', 'divmod', 'pow',
            'slice', 'bytes', 'complex', 'format', 'delattr', 'locals',
            'globals', 'input', 'ord', 'chr'}


class Interp:
    def __init__(self, project, options=None):
        self.project = project
        self.static = State()
        self.st = self.static
        self.oids = 0
        self.modframes = {}
        self.events = []
        self.dry = 0
        self.stack = []
        self.frames = []
        self.errors = []
        self.loopn = {}
        self.options = {'warnings': TRUE}
        if options:
            self.options.update(options)
        self.overrides = {}
        self.in_static = True
        self.kinds = {}
        self.intervals = {}
        self.opaque_recursion = 0
        self.classes = {}
        self.funcs = {}
        self.steps = 0
        self.fork_count = 0
        self.analysed = set()
        self.colsets = {}
        self.meth_hook = None
        self.ext_hook = None
        self.clean = set()
        self.factories = {}

    # ------------------------------------------------------------ allocation
    def new(self, c):
        self.oids += 1
        self.st.set(self.oids, c)
        return self.oids

    def val(self, term, kind='opaque', roots=frozenset(), pl=None):
        return self.new(C(term, kind, roots, pl))

    def k(self, v):
        """object for a python constant"""
        kind = ('none' if v is None else 'bool' if isinstance(v, bool) else
                'num' if isinstance(v, (int, float, Fraction)) else
                'str' if isinstance(v, str) else 'opaque')
        return self.val(const(v), kind)

    def c(self, oid):
        c = self.st.get(oid)
        if c is None:
            raise RuntimeError('dangling object')
        if c.pl is not None and c.pl[0] == 'phi':
            d = self.decide(c.pl[1])
            if d is True:
                return self._res(c.pl[2])
            if d is False:
                return self._res(c.pl[3])
        elif c.term.op == 'phi':
            d = self.decide(c.term.a[0])
            if d is not None:
                return c.but(term=c.term.a[1 if d else 2])
        return c

    def _res(self, c):
        if c.pl is not None and c.pl[0] == 'phi':
            d = self.decide(c.pl[1])
            if d is not None:
                return self._res(c.pl[2 if d else 3])
        return c

    # ---------------------------------------------------------------- events
    def site(self, node):
        f = self.frames[-1] if self.frames else None
        path = self.project.relpath(f.module.path) if f else '?'
        fn = f.fv.qual if f and f.fv else '<module>'
        return (path, getattr(node, 'lineno', 0), fn)

    unroll = 0

    def ev(self, kind, node, /, **d):
        if self.dry or self.in_static:
            return
        if kind == 'raise':
            d['caught'] = any(f.catch for f in self.frames)
        e = Event(kind, self.site(node), tuple(self.stack), self.st.pc, d)
        self.events.append(e)

    # -------------------------------------------------------------- modules
    def module_frame(self, name):
        if name in self.modframes:
            return self.modframes[name]
        m = self.project.modules[name]
        saved = (self.st, self.frames, self.in_static, self.stack)
        self.st, self.frames, self.in_static = self.static, [], True
        self.stack = []
        foid = self.new(C(mk('frame', name), 'frame', pl=('frame', {
            '__name__': self.k(name), '__file__': self.k(m.path)})))
        self.modframes[name] = foid
        fr = Frame(None, foid, m, None)
        self.frames.append(fr)
        try:
            for s in m.tree.body:
                try:
                    self.exec(s)
                except Dead:
                    break
        finally:
            self.st, self.frames, self.in_static, self.stack = saved
        return foid

    def frame_vars(self, foid):
        return self.st.get(foid).pl[1]

    def frame_set(self, foid, name, oid):
        c = self.st.get(foid)
        d = dict(c.pl[1])
        d[name] = oid
        self.st.set(foid, C(c.term, 'frame', pl=('frame', d)))

    def frame_del(self, foid, name):
        c = self.st.get(foid)
        d = dict(c.pl[1])
        d.pop(name, None)
        self.st.set(foid, C(c.term, 'frame', pl=('frame', d)))

    # --------------------------------------------------------------- lookup
    def chain(self):
        fr = self.frames[-1]
        out = [fr.foid]
        if fr.fv is not None:
            out += list(fr.fv.closure)
        m = self.modframes.get(fr.module.name)
        if m is not None and m not in out:
            out.append(m)
        return out

    def lookup(self, name, node):
        for foid in self.chain():
            v = self.frame_vars(foid)
            if name in v:
                oid = v[name]
                c = self.c(oid)
                if c.term is t.UNBOUND:
                    self.ev('raise', node, exc='UnboundLocalError',
                            msg=name)
                    raise Dead
                if c.term.op == 'phi' and t.UNBOUND in (c.term.a[1],
                                                        c.term.a[2]):
                    bad = c.term.a[1] is t.UNBOUND
                    self.ev('maybe_unbound', node, name=name,
                            cond=c.term.a[0], when=bad)
                    if c.pl and c.pl[0] == 'phi':
                        c2 = c.pl[3] if bad else c.pl[2]
                        return self.new(c2)
                return oid
        if name in BUILTINS:
            return self.val(mk('ext', 'builtins.' + name), 'ext',
                            pl=('ext', 'builtins.' + name))
        if name == 'NotImplemented' or name == 'Ellipsis':
            return self.val(mk('const', name), 'opaque')
        if name[:1].isupper() or name in ('__name__',):
            return self.val(mk('ext', 'builtins.' + name), 'ext',
                            pl=('ext', 'builtins.' + name))
        # assigned somewhere in this function but not on this path
        fr = self.frames[-1]
        if fr.fv is not None and any(
                isinstance(n, ast.Name) and n.id == name
                and isinstance(n.ctx, ast.Store)
                for n in ast.walk(fr.fv.node)):
            self.ev('raise', node, exc='UnboundLocalError', msg=name)
            raise Dead
        self.ev('raise', node, exc='NameError', msg=name)
        raise Dead

    def assign_name(self, name, oid, node=None):
        fr = self.frames[-1]
        foid = fr.nonlocals.get(name, fr.foid)
        if foid != fr.foid:
            self.ev('nonlocal_write', node, name=name,
                    module=foid in self.modframes.values(),
                    value=self.reify(oid))
        self.frame_set(foid, name, oid)

    # ------------------------------------------------------------- decisions
    def interval(self, x, depth=8):
        INF = float('inf')
        if x.op == 'num':
            v = float(x.a[0])
            return v, v
        if x in self.intervals:
            return self.intervals[x]
        if depth <= 0:
            return -INF, INF
        if x.op == 'lin':
            y = t.neg(x)
            if y in self.intervals:
                lo, hi = self.intervals[y]
                return -hi, -lo
            lo = hi = float(x.a[0])
            for a, c in x.a[1]:
                l2, h2 = self.interval(a, depth - 1)
                c = float(c)
                if c < 0:
                    l2, h2 = h2, l2
                lo += c * l2 if abs(l2) != INF else (
                    -INF)
                hi += c * h2 if abs(h2) != INF else (
                    INF)
            return lo, hi
        if x.op == 'mono':
            lo = hi = 1.0
            for a, e in x.a[0]:
                l2, h2 = self.interval(a, depth - 1)
                if l2 < 0 or (e < 0 and l2 == 0):
                    return -INF, INF
                try:
                    p, q = l2 ** float(e) if l2 else 0.0, (
                        h2 ** float(e) if h2 not in (INF,) else
                        (INF if e > 0 else 0.0))
                except (OverflowError, ZeroDivisionError):
                    return -INF, INF
                if e < 0:
                    p, q = q, p
                lo, hi = lo * p, (hi * q if not (hi == INF and q == 0) and
                                  not (hi == 0 and q == INF) else INF)
            return lo, hi
        if x.op == 'len':
            return 0.0, INF
        if x.op in ('pos', 'it'):
            return (0.0, INF) if x.op == 'pos' else (-INF, INF)
        if x.op == 'exp10':
            return 0.0, INF
        if x.op == 'call':
            n = x.a[0]
            if n in ('numpy.abs', 'numpy.exp', 'numpy.std'):
                return 0.0, INF
            if n in ('numpy.min', 'numpy.max', 'numpy.mean', 'numpy.average',
                     'builtins.float', 'numpy.median', 'numpy.unique',
                     'numpy.sort', 'astype', 'numpy.nanmin', 'numpy.nanmax'):
                if x.a[1]:
                    return self.interval(x.a[1][0], depth - 1)
            if n == 'numpy.log' and x.a[1] and x.a[1][0].op == 'num':
                import math
                v = float(x.a[1][0].a[0])
                if v > 0:
                    return math.log(v), math.log(v)
            if n == 'numpy.sum':
                l, h = self.interval(x.a[1][0], depth - 1)
                if l >= 0:
                    return 0.0, INF
        if x.op in ('sel', 'take', 'slice', 'at', 'get', 'astype'):
            return self.interval(x.a[0], depth - 1)
        if x.op == 'phi':
            a = self.interval(x.a[1], depth - 1)
            b = self.interval(x.a[2], depth - 1)
            return min(a[0], b[0]), max(a[1], b[1])
        return -INF, INF

    def decide(self, c):
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        f = self.st.facts.get(c)
        if f is not None:
            return f
        o = c.op
        if o == 'not':
            d = self.decide(c.a[0])
            return None if d is None else not d
        if o == 'and':
            ds = [self.decide(x) for x in c.a]
            if any(d is False for d in ds):
                return False
            if all(d is True for d in ds):
                return True
            return None
        if o == 'or':
            ds = [self.decide(x) for x in c.a]
            if any(d is True for d in ds):
                return True
            if all(d is False for d in ds):
                return False
            return None
        if o == 'cmp':
            lo, hi = self.interval(c.a[1])
            if c.a[0] == '>':
                if lo > 0:
                    return True
                if hi <= 0:
                    return False
            else:
                if lo >= 0:
                    return True
                if hi < 0:
                    return False
            # implied by facts on the same difference
            for op2, want in (('>', True), ('>=', False)):
                f2 = self.st.facts.get(mk('cmp', op2, c.a[1]))
                if f2 is True and op2 == '>':
                    return True
                if f2 is False and op2 == '>=':
                    return False
            nd = t.neg(c.a[1])
            f2 = self.st.facts.get(mk('cmp', '>', nd))   # -d > 0  => d < 0
            if f2 is True:
                return False
            f2 = self.st.facts.get(mk('cmp', '>=', nd))  # -d >= 0 => d <= 0
            if f2 is True and c.a[0] == '>':
                return False
            if f2 is False:                              # -d < 0 => d > 0
                return True
            return None
        if o == 'eq':
            x, y = c.a
            if x is t.ZERO and y.op == 'call' and y.a[0] in (
                    'numpy.any', 'numpy.all'):
                d = self.decide(y)
                return None if d is None else not d
            if x.op in ('num', 'lin', 'mono', 'len', 'in') or y.op in (
                    'num', 'lin', 'mono', 'len', 'in'):
                lo1, hi1 = self.interval(x)
                lo2, hi2 = self.interval(y)
                if hi1 < lo2 or hi2 < lo1:
                    return False
                if lo1 == hi1 == lo2 == hi2:
                    return True
                if x.op not in ('const',) and y.op not in ('const',):
                    d = t.sub(x, y)
                    lo, hi = self.interval(d)
                    if lo > 0 or hi < 0:
                        return False
                    if lo == hi == 0:
                        return True
                    for q in (d, t.neg(d)):
                        if self.st.facts.get(mk('cmp', '>', q)) is True:
                            return False
            if self.clean and x is not y and all(
                    self.own_text(z) for z in (x, y)):
                return False       # a text like no other
            return None
        if o == 'eqself' and self.clean and self.own_text(c.a[0]):
            return True
        if o == 'in_' and self.clean and all(map(self.own_text, c.a)) and \
                any(x in self.clean for x in c.a):
            return False           # a text like no other
        if o == 'isnone':
            x = c.a[0]
            if x.op == 'in' and self.kinds.get(x.a[0]) in NOTNONE:
                return False
            if x.op == 'phi':
                d = self.decide(x.a[0])
                if d is not None:
                    return self.decide(t.isnone(x.a[1 if d else 2]))
            return None
        if o == 'phi':
            d = self.decide(c.a[0])
            if d is not None:
                return self.decide(c.a[1 if d else 2])
            a, b = self.decide(c.a[1]), self.decide(c.a[2])
            return a if a == b else None
        if o == 'call':
            n = c.a[0]
            if n in ('numpy.any', 'numpy.all') and c.a[1]:
                # uniform decision over all elements of non-empty operand
                return self.decide_elem(c.a[1][0])
            if n == 'numpy.sum':
                return None
        if o == 'truth' and c.a[0].op == 'call' and c.a[0].a[0] in (
                'numpy.any', 'numpy.all'):
            return self.decide(c.a[0])
        if o == 'truth':
            lo, hi = self.interval(c.a[0])
            if lo > 0 or hi < 0:
                return True
        return None

    def own_text(self, x):
        return x in self.clean or x.op == 'const' or (
            x.op == 'call' and x.a[0] == 'str.join'
            and all(self.own_text(y) for y in x.a[1]))

    def decide_elem(self, x):
        d = self.decide(x)
        if d is not None:
            return d
        if x.op in ('sel', 'take', 'slice', 'at'):
            return self.decide_elem(x.a[0])
        return None

    def assume(self, st, cond, val):
        if cond.op == 'not':
            return self.assume(st, cond.a[0], not val)
        st.facts[cond] = val
        if cond.op == 'and' and val:
            for x in cond.a:
                self.assume(st, x, True)
        if cond.op == 'or' and not val:
            for x in cond.a:
                self.assume(st, x, False)
        if cond.op == 'truth' and val:
            st.facts[t.isnone(cond.a[0])] = False
        if cond.op == 'eq' and val:
            # len(x) == 0 and friends
            pass

    # --------------------------------------------------------------- forking
    def fork(self, cond, fa, fb):
        """run fa under cond, fb under not cond, join.  fa/fb are callables
        returning an oid/None; may raise Dead.  Returns the joined oid."""
        self.fork_count += 1
        parent = self.st
        plog = parent.log
        res = []
        for want, f in ((True, fa), (False, fb)):
            s = parent.copy()
            self.assume(s, cond, want)
            s.pc = parent.pc + (cond if want else t.not_(cond),)
            self.st = s
            try:
                v = f()
                res.append((self.st, v))
            except Dead:
                res.append(None)
        A, B = res
        if A is None and B is None:
            self.st = parent
            raise Dead
        if A is None or B is None:
            s, v = A or B
            s.log |= plog
            self.st = s
            return v
        st, v = self.merge(cond, A, B, parent.pc)
        st.log |= plog
        self.st = st
        return v

    def merge(self, cond, A, B, pc):
        sa, va = A
        sb, vb = B
        st = State(sa.base)
        st.pc = pc
        st.heap = sa.heap
        st.facts = {k: v for k, v in sa.facts.items()
                    if sb.facts.get(k) is v}
        changed = sa.log | sb.log
        st.log = set(changed)
        self._mg = {}
        for oid in changed:
            a, b = sa.heap.get(oid), sb.heap.get(oid)
            if a is b:
                continue
            if a is None:
                st.heap[oid] = b
                continue
            if b is None:
                continue
        both = [oid for oid in changed
                if oid in sa.heap and oid in sb.heap
                and sa.heap[oid] is not sb.heap[oid]]
        save = self.st
        self.st = st
        orig_a = {o: sa.heap[o] for o in both}
        get_a = lambda o: orig_a.get(o) or st.get(o)
        for oid in both:
            st.heap[oid] = self.phiC(cond, orig_a[oid], sb.heap[oid], get_a,
                                     sb.get)
        v = None
        if va is not None or vb is not None:
            if va == vb:
                v = va
            else:
                ca = get_a(va) if va is not None else C(NONE, 'none')
                cb = sb.get(vb) if vb is not None else C(NONE, 'none')
                v = self.new(self.phiC(cond, ca, cb, get_a, sb.get))
        self.st = save
        return st, v

    def phi_oid(self, cond, oa, ob, ga, gb):
        if oa == ob:
            return oa
        if oa is None:
            ca = C(t.UNBOUND, 'unbound')
        else:
            ca = ga(oa)
        if ob is None:
            cb = C(t.UNBOUND, 'unbound')
        else:
            cb = gb(ob)
        key = (cond.id, oa, ob)
        if key in self._mg:
            return self._mg[key]
        r = self.new(C(mk('tmp'), 'opaque'))
        self._mg[key] = r
        self.st.heap[r] = self.phiC(cond, ca, cb, ga, gb)
        return r

    def phiC(self, cond, a, b, ga, gb):
        if a is b:
            return a
        roots = a.roots | b.roots
        if a.kind == 'frame' and b.kind == 'frame':
            da, db = a.pl[1], b.pl[1]
            d = {}
            for k in list(da) + [x for x in db if x not in da]:
                d[k] = self.phi_oid(cond, da.get(k), db.get(k), ga, gb)
            return C(a.term, 'frame', pl=('frame', d))
        if (a.pl and b.pl and a.pl[0] == b.pl[0] == 'inst'
                and a.pl[1] is b.pl[1]
                and (a.term is b.term)):
            da, db = a.pl[2], b.pl[2]
            d = {}
            for k in list(da) + [x for x in db if x not in da]:
                d[k] = self.phi_oid(cond, da.get(k), db.get(k), ga, gb)
            return C(a.term, 'inst', roots, ('inst', a.pl[1], d))
        if (a.pl and b.pl and a.pl[0] == b.pl[0] == 'inst'
                and a.pl[1] is b.pl[1] and a.pl[1].is_df()):
            da, db = a.pl[2], b.pl[2]
            d = {}
            for k in list(da) + [x for x in db if x not in da]:
                oa, ob = da.get(k), db.get(k)
                if k[0] == '$' and oa is None:
                    oa = self.new(C(mk('col', a.term, k[1:]), 'series',
                                    a.roots))
                if k[0] == '$' and ob is None:
                    ob = self.new(C(mk('col', b.term, k[1:]), 'series',
                                    b.roots))
                d[k] = self.phi_oid(cond, oa, ob, lambda o: ga(o)
                                    if oa is da.get(k) else self.st.get(o),
                                    lambda o: gb(o) if ob is db.get(k)
                                    else self.st.get(o))
            return C(t.phi(cond, a.term, b.term), 'inst', roots,
                     ('inst', a.pl[1], d))
        if a.pl and b.pl and a.pl[0] == b.pl[0] == 'list':
            sa, sb = a.pl[1], b.pl[1]
            n = 0
            while n < len(sa) and n < len(sb) and sa[n] == sb[n]:
                n += 1
            ra, rb = sa[n:], sb[n:]
            if len(ra) == len(rb) and all(
                    x[0] == y[0] == 'e' for x, y in zip(ra, rb)):
                segs = sa[:n] + tuple(
                    ('e', self.phi_oid(cond, x[1], y[1], ga, gb))
                    for x, y in zip(ra, rb))
            else:
                segs = sa[:n]
                if ra:
                    segs += (('c', cond, ra),)
                if rb:
                    segs += (('c', t.not_(cond), rb),)
            return C(a.term if a.term is b.term
                     else t.phi(cond, a.term, b.term), 'list', roots,
                     ('list', segs))
        if (a.pl and b.pl and a.pl[0] == b.pl[0] == 'tuple'
                and len(a.pl[1]) == len(b.pl[1])):
            els = tuple(self.phi_oid(cond, x, y, ga, gb)
                        for x, y in zip(a.pl[1], b.pl[1]))
            return C(t.phi(cond, a.term, b.term), 'tuple', roots,
                     ('tuple', els))
        if a.pl and b.pl and a.pl[0] == b.pl[0] == 'dict':
            da, db = dict(a.pl[1]), dict(b.pl[1])
            out = {}
            for k in list(da) + [x for x in db if x not in da]:
                if k in da and k in db:
                    (oa, c1), (ob, c2) = da[k], db[k]
                    out[k] = (self.phi_oid(cond, oa, ob, ga, gb),
                              t.phi(cond, c1, c2))
                elif k in da:
                    out[k] = (da[k][0], t.and_(cond, da[k][1]))
                else:
                    out[k] = (db[k][0], t.and_(t.not_(cond), db[k][1]))
            return C(a.term if a.term is b.term
                     else t.phi(cond, a.term, b.term), 'dict', roots,
                     ('dict', tuple(out.items()), a.pl[2] or b.pl[2]))
        kind = a.kind if a.kind == b.kind else (
            'num' if {a.kind, b.kind} <= NUM_KINDS else
            'arr' if {a.kind, b.kind} <= {'arr', 'series'} else 'phi')
        ta, tb = a.term, b.term
        term = t.phi(cond, ta, tb)
        if a.pl is None and b.pl is None:
            if kind == 'phi':
                return C(term, kind, roots, ('phi', cond, a, b))
            return C(term, kind, roots)
        if term is ta and term is tb:
            return C(term, kind, roots, a.pl)
        return C(term, kind, roots, ('phi', cond, a, b))

    # ------------------------------------------------------------- reify
    def reify(self, oid, depth=6):
        return self.reifyC(self.c(oid), depth)

    def reifyC(self, c, depth=6):
        if c.pl is None or depth <= 0:
            return c.term
        p = c.pl
        if p[0] == 'list':
            return self.list_term(p[1], depth)
        if p[0] == 'tuple':
            return mk('tuple', *[self.reify(x, depth - 1) for x in p[1]])
        if p[0] == 'dict':
            return mk('dict', tuple((k if isinstance(k, T) else const(k),
                                     self.reify(o, depth - 1), cd)
                                    for k, (o, cd) in p[1]),
                      p[2] if p[2] is not None else NONE)
        if p[0] == 'phi':
            return t.phi(p[1], self.reifyC(p[2], depth - 1),
                         self.reifyC(p[3], depth - 1))
        return c.term

    def list_term(self, segs, depth=6):
        if all(s[0] == 'e' for s in segs):
            return mk('list', *[self.reify(s[1], depth - 1) for s in segs])
        if len(segs) == 1 and segs[0][0] == 'u':
            return segs[0][1]
        if len(segs) == 1 and segs[0][0] == 'm' and len(segs[0][3]) == 1:
            _, lid, it, inner = segs[0]
            s = inner[0]
            if s[0] == 'e':
                e = self.reify(s[1], depth - 1)
                # identity comprehension
                if e.op == 'at' and e.a[0] is it and e.a[1] is lid:
                    return it
                return mk('map', lid, it, TRUE, e)
            if s[0] == 'c' and len(s[2]) == 1 and s[2][0][0] == 'e':
                e = self.reify(s[2][0][1], depth - 1)
                return mk('map', lid, it, s[1], e)
        return mk('seq', tuple(self.seg_term(s, depth) for s in segs))

    def seg_term(self, s, depth):
        if s[0] == 'e':
            return ('e', self.reify(s[1], depth - 1))
        if s[0] == 'u':
            return s
        if s[0] == 'm':
            return ('m', s[1], s[2], tuple(self.seg_term(x, depth - 1)
                                           for x in s[3]))
        if s[0] == 'c':
            return ('c', s[1], tuple(self.seg_term(x, depth - 1)
                                     for x in s[2]))
        return ('mark', s[1])

    # ============================================================ statements
    def block(self, stmts):
        for s in stmts:
            self.exec(s)

    def exec(self, s):
        self.steps += 1
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            self.note(s, 'unsupported statement ' + type(s).__name__)
            return
        m(s)

    def note(self, node, msg):
        self.errors.append((self.site(node), msg))

    def s_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return
        self.e(s.value)

    def s_Pass(self, s):
        pass

    def s_Assign(self, s):
        v = self.e(s.value)
        for tg in s.targets:
            self.bind(tg, v)

    def s_AnnAssign(self, s):
        if s.value is not None:
            self.bind(s.target, self.e(s.value))

    def s_AugAssign(self, s):
        rhs_node = s.value
        if isinstance(s.target, ast.Name):
            cur = self.lookup(s.target.id, s.target)
        elif isinstance(s.target, ast.Attribute):
            base = self.e(s.target.value)
            cur = self.getattr(base, s.target.attr, s.target)
        else:
            base = self.e(s.target.value)
            idx = self.e(s.target.slice)
            cur = self.subscript(base, idx, s.target)
        rhs = self.e(rhs_node)
        res = self.binop(type(s.op).__name__, cur, rhs, s, aug=True)
        cc = self.c(cur)
        if isinstance(s.target, ast.Name):
            if cc.kind in ('arr', 'series', 'df'):
                self.inplace(cur, self.c(res).term, s, 'augmented assignment')
            elif cc.kind == 'list':
                self.extend(cur, rhs, s)
            else:
                self.assign_name(s.target.id, res, s)
        elif isinstance(s.target, ast.Attribute):
            if cc.kind in ('arr', 'series'):
                self.inplace(cur, self.c(res).term, s, 'augmented assignment')
                self.setattr(base, s.target.attr, cur, s)
            else:
                self.setattr(base, s.target.attr, res, s)
        else:
            self.setitem(base, idx, res, s)

    def bind(self, tg, oid):
        if isinstance(tg, ast.Name):
            self.assign_name(tg.id, oid, tg)
        elif isinstance(tg, (ast.Tuple, ast.List)):
            n = len(tg.elts)
            if any(isinstance(x, ast.Starred) for x in tg.elts):
                self.note(tg, 'starred unpack')
                for x in tg.elts:
                    y = x.value if isinstance(x, ast.Starred) else x
                    self.bind(y, self.val(mk('unpack', self.reify(oid), n)))
                return
            for i, x in enumerate(self.unpack(oid, n, tg)):
                self.bind(tg.elts[i], x)
        elif isinstance(tg, ast.Attribute):
            self.setattr(self.e(tg.value), tg.attr, oid, tg)
        elif isinstance(tg, ast.Subscript):
            self.setitem(self.e(tg.value), self.e(tg.slice), oid, tg)
        elif isinstance(tg, ast.Starred):
            self.bind(tg.value, oid)

    def unpack(self, oid, n, node):
        c = self.c(oid)
        els = self.concrete(oid)
        if els is not None:
            if len(els) != n:
                self.ev('raise', node, exc='ValueError',
                        msg=f'cannot unpack {len(els)} values into {n}')
                raise Dead
            return els
        if c.pl and c.pl[0] == 'phi':
            a = self.new(c.pl[2])
            b = self.new(c.pl[3])
            ea, eb = self.concrete(a), self.concrete(b)
            if ea and eb and len(ea) == len(eb) == n:
                self._mg = {}
                return [self.phi_oid(c.pl[1], x, y, self.st.get, self.st.get)
                        for x, y in zip(ea, eb)]
        tm = self.reify(oid)
        return [self.val(mk('item', tm, num(i)), self.item_kind(tm, i),
                         c.roots) for i in range(n)]

    def item_kind(self, tm, i):
        if tm.op == 'call' and tm.a[0] in ('numpy.histogram', 'numpy.unique',
                                           'numpy.where'):
            return 'arr'
        return 'opaque'

    def s_Return(self, s):
        v = self.e(s.value) if s.value is not None else self.k(None)
        self.frames[-1].exits.append(Exit(self.st, v))
        raise Dead

    def s_If(self, s):
        c = self.test(s.test)
        if c is True:
            return self.block(s.body)
        if c is False:
            return self.block(s.orelse)
        self.fork(c, lambda: self.block(s.body), lambda: self.block(s.orelse))

    def s_While(self, s):
        lid = self.loopid(s)

        def body():
            c = self.test(s.test)
            if c is False:
                raise Dead
            if c is True:
                self.block(s.body)
            else:
                self.fork(c, lambda: self.block(s.body),
                          lambda: self._raise_dead())
        if not self.unroll or self.dry:
            return self.run_loop(lid, mk('while', lid), body, s)
        brk = []
        if not self.unrolled(s, brk):
            self.run_loop(lid, mk('while', lid), body, s)
        for b in brk:
            self.st = self.join_states(self.st, b, s)

    def unrolled(self, s, brk):
        """runs the loop as long as its condition is decided; True if it
        has ended"""
        fr = self.frames[-1]
        try:
            fr.loops.append({'break': brk, 'continue': None})
            for _ in range(self.unroll):
                c = self.test(s.test)
                if c is False:
                    break
                if c is not True:
                    return False
                cont = fr.loops[-1]['continue'] = []
                try:
                    self.block(s.body)
                except Dead:
                    if not cont:
                        if not brk:
                            raise
                        self.st = brk.pop(0)
                        break
                    self.st = cont.pop(0)
                for cs in cont:
                    self.st = self.join_states(self.st, cs, s)
            else:
                return False
        finally:
            fr.loops.pop()
        return True

    def _raise_dead(self):
        raise Dead

    def s_For(self, s):
        it = self.e(s.iter)
        els = self.iter_concrete(it)
        if els is not None and len(els) <= UNROLL:
            fr = self.frames[-1]
            brk = []
            fr.loops.append({'break': brk, 'continue': None})
            try:
                dead = False
                for x in els:
                    cont = []
                    fr.loops[-1]['continue'] = cont
                    try:
                        self.bind(s.target, x)
                        self.block(s.body)
                    except Dead:
                        if not cont:
                            dead = True
                            break
                        self.st = cont.pop(0)
                    for cs in cont:
                        self.st = self.join_states(self.st, cs, s)
            finally:
                fr.loops.pop()
            if dead:
                if not brk:
                    raise Dead
                self.st = brk.pop(0)
            for b in brk:
                self.st = self.join_states(self.st, b, s)
            return
        lid = self.loopid(s)
        itc = self.c(it)
        self.ev_iter(it, s)

        def body():
            self.bind(s.target, self.iter_elem(it, lid, s))
            self.block(s.body)
        self.run_loop(lid, self.iter_term(it), body, s)

    def join_states(self, a, b, node):
        # conditions under which b was left
        n = 0
        while n < len(a.pc) and n < len(b.pc) and a.pc[n] is b.pc[n]:
            n += 1
        conds = b.pc[n:]
        cond = t.and_(*conds) if conds else mk('join', str(self.site(node)))
        if cond in (TRUE, FALSE):
            cond = mk('join', str(self.site(node)))
        # logs are relative to different forks: recompute by identity
        a2, b2 = a, b
        diff = {o for o in set(a.heap) | set(b.heap)
                if a.heap.get(o) is not b.heap.get(o)}
        la, lb = a.log, b.log
        a2.log, b2.log = diff, diff
        a2c = a2.copy()
        a2c.log = diff
        st, _ = self.merge(t.not_(cond), (a2c, None), (b2, None), a.pc[:n])
        st.log |= la | lb
        return st

    def loopid(self, node):
        fr = self.frames[-1]
        key = (self.project.relpath(fr.module.path),
               getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0),
               len(self.frames))
        return mk('loop', *key)

    def run_loop(self, lid, iterm, body, node):
        fr = self.frames[-1]
        pre = self.st
        ppc, plog = pre.pc, pre.log
        # ---- trial run: which objects change?
        self.dry += 1
        nex = len(fr.exits)
        s = pre.copy()
        s.pc = ppc + (mk('inloop', lid),)
        self.st = s
        fr.loops.append({'break': [], 'continue': []})
        post = None
        try:
            body()
            post = self.st
        except Dead:
            pass
        lo = fr.loops.pop()
        outs = ([post] if post else []) + lo['continue'] + lo['break']
        del fr.exits[nex:]
        self.dry -= 1
        changed = {}
        rebound = set()
        for o in outs:
            for oid in list(o.heap):
                b = pre.get(oid)
                if b is not None and o.heap[oid] is not b:
                    changed.setdefault(oid, []).append(o.heap[oid])
        # ---- generalise
        s = pre.copy()
        s.pc = ppc + (mk('inloop', lid),)
        s.log = set()
        self.st = s
        marks = {}
        for oid, afters in sorted(changed.items()):
            b = pre.get(oid)
            if b.kind == 'frame':
                d = dict(b.pl[1])
                for k in list(d):
                    for a in afters:
                        if a.pl[1].get(k, d[k]) != d[k]:
                            d[k] = self.mu(lid, k, pre.get(d[k]), a, outs)
                            break
                s.heap[oid] = C(b.term, 'frame', pl=('frame', d))
            elif b.pl and b.pl[0] == 'inst':
                d = dict(b.pl[2])
                for k in list(d):
                    for a in afters:
                        if a.pl and a.pl[0] == 'inst' and \
                                a.pl[2].get(k, d[k]) != d[k]:
                            d[k] = self.mu(lid, '.' + k, pre.get(d[k]), a,
                                           outs)
                            break
                s.heap[oid] = C(b.term, 'inst', b.roots,
                                ('inst', b.pl[1], d))
            elif b.pl and b.pl[0] == 'list' and all(
                    a.pl and a.pl[0] == 'list' and
                    a.pl[1][:len(b.pl[1])] == b.pl[1] for a in afters):
                marks[oid] = len(b.pl[1])
                s.heap[oid] = C(mk('mu', lid, self.list_term(b.pl[1])),
                                'list', b.roots,
                                ('list', b.pl[1] + (('mark', lid),)))
            elif b.pl and b.pl[0] == 'list':
                s.heap[oid] = C(mk('mu', lid, b.term), 'list', b.roots,
                                ('list', (('u', mk('mu', lid,
                                                   self.list_term(
                                                       b.pl[1]))),)))
            elif b.pl and b.pl[0] == 'dict':
                s.heap[oid] = C(mk('mu', lid, self.reifyC(b)), 'dict',
                                b.roots)
            elif b.kind in ('arr', 'series', 'df'):
                s.heap[oid] = C(mk('mu', lid, b.term, 'inplace'), b.kind,
                                b.roots, b.pl if b.pl and b.pl[0] == 'view'
                                else None)
            else:
                s.heap[oid] = C(mk('mu', lid, b.term), b.kind, b.roots)
        gen = dict(s.heap)
        # ---- real run
        fr.loops.append({'break': [], 'continue': []})
        post = None
        try:
            body()
            post = self.st
        except Dead:
            pass
        lo = fr.loops.pop()
        for cs in lo['continue']:
            post = cs if post is None else self.join_states(post, cs, node)
        # ---- exit state
        ex = pre.copy()
        ex.log = set()
        self.st = ex
        if post is not None:
            for oid in list(post.heap):
                g = gen.get(oid)
                if g is None:
                    if pre.get(oid) is None:
                        ex.heap[oid] = post.heap[oid]
                        ex.log.add(oid)
                        continue
                    g = pre.get(oid)
                a = post.heap[oid]
                if a is g and oid not in changed:
                    continue
                b = pre.get(oid)
                if b is None:
                    ex.set(oid, a)
                    continue
                ex.set(oid, self.fold(lid, iterm, b, g, a, post, marks, oid))
        for bs in lo['break']:
            # statements leaving the loop early
            bs2 = bs.copy()
            bs2.log = set()
            for oid in list(bs2.heap):
                c = bs2.heap[oid]
                if c.pl and c.pl[0] == 'list' and any(
                        x == ('mark', lid) for x in c.pl[1]):
                    bs2.heap[oid] = c.but(pl=('list', self.unmark(
                        c.pl[1], lid, iterm)))
            cond = mk('brk', lid, *[c for c in bs.pc[len(ppc):] if
                                    isinstance(c, t.T) and
                                    c.op != 'inloop'])
            bs2.facts = dict(bs2.facts)
            diff = {o for o in set(ex.heap) | set(bs2.heap)
                    if ex.heap.get(o) is not bs2.heap.get(o)}
            elog = ex.log
            exc = ex.copy()
            exc.log = diff
            bs2.log = diff
            st, _ = self.merge(cond, (bs2, None), (exc, None), ppc)
            st.log |= elog
            ex = st
        ex.facts = dict(pre.facts)
        ex.pc = ppc
        ex.log |= plog
        self.st = ex

    def unmark(self, segs, lid, iterm):
        out = []
        i = segs.index(('mark', lid))
        pre, post = segs[:i], segs[i + 1:]
        return pre + ((('m', lid, iterm, post),) if post else ())

    def mu(self, lid, name, b, after_frame, outs):
        kind, roots, stable = b.kind, b.roots, True
        d = after_frame.pl[1] if after_frame.kind == 'frame' \
            else after_frame.pl[2]
        k = name.lstrip('.')
        for o in outs:
            a = o.get(d.get(k)) if d.get(k) is not None else None
            if a is not None:
                roots = roots | a.roots
                if a.kind != kind:
                    kind = 'opaque'
        return self.new(C(mk('mu', lid, name, b.term), kind, roots))

    def fold(self, lid, iterm, b, g, a, post, marks, oid):
        if b.kind == 'frame':
            d = dict(b.pl[1])
            for k, o in a.pl[1].items():
                go = g.pl[1].get(k)
                if go == o and k in d and d[k] == go:
                    continue
                if k in d:
                    if go == o:
                        continue
                    d[k] = self.new(self.foldC(lid, self.st.get(d[k]),
                                               post.get(o)))
                else:
                    ca = post.get(o)
                    d[k] = self.new(ca.but(term=mk('last', lid, ca.term))
                                    if ca.pl is None else ca)
            return C(b.term, 'frame', pl=('frame', d))
        if b.pl and b.pl[0] == 'inst' and a.pl and a.pl[0] == 'inst':
            d = dict(b.pl[2])
            for k, o in a.pl[2].items():
                go = g.pl[2].get(k) if g.pl and g.pl[0] == 'inst' else None
                if k in d and (d[k] == o or go == o):
                    continue
                if k in d:
                    d[k] = self.new(self.foldC(lid, self.st.get(d[k]),
                                               post.get(o)))
                else:
                    d[k] = o
            return C(b.term, 'inst', b.roots | a.roots, ('inst', b.pl[1], d))
        if oid in marks and a.pl and a.pl[0] == 'list' and \
                ('mark', lid) in a.pl[1]:
            return C(mk('fold', lid, b.term, a.term), 'list', a.roots,
                     ('list', self.unmark(a.pl[1], lid, iterm)))
        if a.pl and a.pl[0] == 'list':
            return C(mk('fold', lid, b.term, a.term), 'list', a.roots,
                     ('list', (('u', mk('fold', lid, b.term,
                                        self.list_term(a.pl[1]))),)))
        return self.foldC(lid, b, a, inplace=True)

    def foldC(self, lid, b, a, inplace=False):
        bt = b.term
        at = self.reifyC(a) if a.pl and a.pl[0] in ('list', 'tuple', 'dict',
                                                    'phi') else a.term
        kind = b.kind if b.kind == a.kind else (
            'num' if {a.kind, b.kind} <= NUM_KINDS else 'opaque')
        term = mk('fold', lid, bt, at) if not inplace else \
            mk('fold', lid, bt, at, 'inplace')
        return C(term, kind, b.roots | a.roots,
                 a.pl if a.pl and a.pl[0] in ('inst', 'view') else None)

    def s_Break(self, s):
        lp = self.frames[-1].loops
        if lp:
            lp[-1]['break'].append(self.st)
        raise Dead

    def s_Continue(self, s):
        lp = self.frames[-1].loops
        if lp and lp[-1]['continue'] is not None:
            lp[-1]['continue'].append(self.st)
        raise Dead

    def s_Raise(self, s):
        exc, msg, oid = 'Exception', None, None
        if s.exc is not None:
            n = s.exc
            if isinstance(n, ast.Call):
                f = n.func
                exc = ast.unparse(f).split('.')[-1]
                for a in n.args:
                    try:
                        oid = self.e(a)
                    except Dead:
                        raise
            else:
                exc = ast.unparse(n)
        self.ev('raise', s, exc=exc,
                msg=self.reify(oid) if oid is not None else None,
                explicit=True)
        self.on_raise(exc)
        raise Dead

    def on_raise(self, exc, oid=None):
        for f in reversed(self.frames):
            if f.catch:
                f.catch[-1].append((self.st, exc, oid))
                return

    def s_Assert(self, s):
        c = self.test(s.test)
        if c is True:
            return

        def bad():
            self.ev('raise', s, exc='AssertionError', msg=None,
                    explicit=True)
            raise Dead
        if c is False:
            bad()
        self.fork(c, lambda: None, bad)

    def s_Try(self, s):
        if self.in_static:
            # module level: imports are assumed to succeed
            try:
                self.block(s.body)
                self.block(s.orelse)
            finally:
                pass
            self.block(s.finalbody)
            return
        pre = self.st.copy()
        fr = self.frames[-1]
        fr.catch.append([])
        alive = True
        log0 = set(self.st.log)
        nev = len(self.events)
        try:
            self.block(s.body)
        except Dead:
            alive = False
        raised = fr.catch.pop()
        safe = self.clean and alive and not raised and not any(
            e.kind not in ('call', 'raise') for e in self.events[nev:]) and \
            not any(isinstance(y, (ast.Subscript, ast.BinOp))
                    for x in s.body for y in ast.walk(x))
        states = []
        if alive:
            try:
                self.block(s.orelse)
                states.append(self.st)
            except Dead:
                pass
        for h in () if safe else s.handlers:
            cond = mk('exc', str(self.site(h)), len(self.frames))
            hs = raised[0][0] if raised and not alive else pre
            hs = hs.copy()
            hs.pc = pre.pc + (cond,)
            hs.log = set()
            self.st = hs
            if h.name:
                v = raised[0][2] if raised and not alive else None
                self.assign_name(h.name, v if v is not None else
                                 self.val(mk('excval', cond)), h)
            try:
                self.block(h.body)
                states.append(self.st)
            except Dead:
                pass
        if not states:
            self.st = pre
            if s.finalbody:
                self.block(s.finalbody)
            raise Dead
        st = states[0]
        for x in states[1:]:
            st = self.join_states(st, x, s)
        st.pc = pre.pc
        st.log |= log0
        self.st = st
        self.block(s.finalbody)

    def s_With(self, s):
        for it in s.items:
            v = self.e(it.context_expr)
            if it.optional_vars is not None:
                self.bind(it.optional_vars, v)
        self.block(s.body)

    def s_Delete(self, s):
        for tg in s.targets:
            if isinstance(tg, ast.Name):
                self.frame_del(self.frames[-1].foid, tg.id)
            elif isinstance(tg, ast.Subscript):
                b = self.e(tg.value)
                i = self.e(tg.slice)
                self.mutate(b, s, 'del item')
                cb = self.c(b)
                if cb.pl and cb.pl[0] == 'dict':
                    k = self.ckey(i)
                    self.st.set(b, cb.but(pl=('dict', tuple(
                        x for x in cb.pl[1] if x[0] != k), cb.pl[2])))
            elif isinstance(tg, ast.Attribute):
                b = self.e(tg.value)
                self.mutate(b, s, 'del attribute')

    def s_Global(self, s):
        fr = self.frames[-1]
        foid = self.modframes[fr.module.name]
        for n in s.names:
            fr.nonlocals[n] = foid

    def s_Nonlocal(self, s):
        fr = self.frames[-1]
        for n in s.names:
            for foid in fr.fv.closure:
                if n in self.frame_vars(foid):
                    fr.nonlocals[n] = foid
                    break

    def s_Import(self, s):
        for a in s.names:
            nm = a.name if a.asname else a.name.split('.')[0]
            if nm in self.project.modules:
                self.module_frame(a.name if a.name in self.project.modules
                                  else nm)
                o = self.val(mk('mod', nm), 'mod', pl=('mod', nm))
            else:
                o = self.val(mk('ext', nm), 'ext', pl=('ext', nm))
            self.assign_name(a.asname or nm, o, s)

    def s_ImportFrom(self, s):
        m = self.frames[-1].module
        base = s.module or ''
        if s.level:
            parts = m.name.split('.')
            if not m.is_pkg:
                parts = parts[:-1]
            parts = parts[:len(parts) - (s.level - 1)]
            base = '.'.join(parts + ([s.module] if s.module else []))
        for a in s.names:
            if a.name == '*':
                continue
            self.assign_name(a.asname or a.name,
                             self.import_name(base, a.name), s)

    def import_name(self, base, name):
        if base in self.project.modules:
            f = self.module_frame(base)
            v = self.static.get(f).pl[1]
            if name in v:
                return v[name]
            sub = base + '.' + name
            if sub in self.project.modules:
                self.module_frame(sub)
                return self.val(mk('mod', sub), 'mod', pl=('mod', sub))
        return self.val(mk('ext', base + '.' + name), 'ext',
                        pl=('ext', base + '.' + name))

    def s_FunctionDef(self, s):
        oid = self.make_func(s, s.name)
        for d in reversed(s.decorator_list):
            oid = self.decorate(d, oid)
        self.assign_name(s.name, oid, s)

    s_AsyncFunctionDef = s_FunctionDef

    def make_func(self, node, name):
        fr = self.frames[-1]
        a = node.args
        defaults = [self.e(x) for x in a.defaults]
        kwd = [self.e(x) if x is not None else None for x in a.kw_defaults]
        closure = [f for f in self.chain()
                   if not (fr.cls is not None and f == fr.foid
                           and fr.fv is None)]
        if fr.cls is not None and fr.fv is None:
            qual = f'{fr.cls.qual}.{name}'
        elif fr.fv is not None:
            qual = f'{fr.fv.qual}.<locals>.{name}'
        else:
            qual = f'{fr.module.name}.{name}'
        fv = FuncVal(node, fr.module, tuple(closure), fr.cls, qual, defaults,
                     kwd)
        self.funcs.setdefault(qual, fv)
        return self.val(mk('func', qual, getattr(node, 'lineno', 0)), 'func',
                        pl=('func', fv))

    def decorate(self, d, oid):
        if isinstance(d, ast.Attribute) and d.attr in ('setter', 'deleter',
                                                       'getter'):
            p = self.c(self.e(d.value))
            if p.pl and p.pl[0] == 'property':
                g, st = p.pl[1], p.pl[2]
                if d.attr == 'setter':
                    st = oid
                elif d.attr == 'getter':
                    g = oid
                return self.val(mk('property', self.c(g).term), 'property',
                                pl=('property', g, st))
        f = self.e(d)
        c = self.c(f)
        nm = c.pl[1] if c.pl and c.pl[0] == 'ext' else ''
        if nm.endswith('property'):
            return self.val(mk('property', self.c(oid).term), 'property',
                            pl=('property', oid, None))
        fc = self.c(oid)
        if nm == 'builtins.staticmethod' and fc.pl and fc.pl[0] == 'func':
            fc.pl[1].is_static = True
            return oid
        if nm == 'builtins.classmethod' and fc.pl and fc.pl[0] == 'func':
            fc.pl[1].is_cls = True
            return oid
        if nm.endswith('abstractmethod'):
            return oid
        if nm in ('functools.wraps',):
            return oid
        if c.pl and c.pl[0] == 'wrapsdeco':
            return oid
        if c.pl and c.pl[0] in ('func', 'bound'):
            r = self.call(f, [oid], {}, None, d)
            rc = self.c(r)
            if rc.pl and rc.pl[0] == 'func' and fc.pl and \
                    fc.pl[0] == 'func':
                rc.pl[1].wrapped = fc.pl[1]
                rc.pl[1].is_cls = False
            return r
        return oid

    def s_ClassDef(self, s):
        bases = []
        for b in s.bases:
            c = self.c(self.e(b))
            if c.pl and c.pl[0] == 'class':
                bases.append(c.pl[1])
            elif c.pl and c.pl[0] == 'ext':
                bases.append(c.pl[1])
            else:
                bases.append('?')
        m = self.frames[-1].module
        ci = ClassInfo(s.name, m, s, bases)
        self.classes[ci.qual] = ci
        foid = self.new(C(mk('frame', ci.qual), 'frame', pl=('frame', {})))
        outer = self.chain()
        fr = Frame(None, foid, m, ci)
        self.frames.append(fr)
        save_chain = self.chain
        self.chain = lambda: ([foid] + outer if self.frames[-1] is fr
                              else save_chain())
        try:
            for b in s.body:
                self.exec(b)
        finally:
            self.chain = save_chain
            self.frames.pop()
        ci.attrs = dict(self.frame_vars(foid))
        for k in list(ci.attrs):
            if k.startswith('__') and not k.endswith('__'):
                ci.attrs[f'_{s.name.lstrip("_")}{k}'] = ci.attrs.pop(k)
        self.assign_name(s.name, self.val(mk('class', ci.qual), 'class',
                                          pl=('class', ci)), s)

    # ========================================================== expressions
    def e(self, n):
        self.steps += 1
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            self.note(n, 'unsupported expression ' + type(n).__name__)
            return self.val(mk('opaque', ast.dump(n)))
        return m(n)

    def e_Constant(self, n):
        return self.k(n.value)

    def e_Name(self, n):
        return self.lookup(n.id, n)

    def e_JoinedStr(self, n):
        parts = []
        conc = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(const(v.value))
                if conc is not None:
                    conc.append(v.value)
            else:
                o = self.e(v.value)
                tm = self.reify(o)
                parts.append(tm)
                if conc is not None and tm.op == 'const' and isinstance(
                        tm.a[0], str) and v.format_spec is None:
                    conc.append(tm.a[0])
                else:
                    conc = None
                if conc is None:
                    conc = None
        if conc is not None and all(isinstance(x, str) for x in conc):
            return self.k(''.join(conc))
        return self.val(mk('call', 'str.join', tuple(parts), ()), 'str')

    def strjoin(self, parts):
        """concatenation of strings in normal form"""
        out = []
        for x in parts:
            for y in (x.a[1] if x.op == 'call' and x.a[0] == 'str.join'
                      and not x.a[2] else (x,)):
                if y.op == 'const' and y.a[0] == '':
                    continue
                if out and y.op == 'const' and out[-1].op == 'const' and \
                        isinstance(y.a[0], str) and \
                        isinstance(out[-1].a[0], str):
                    out[-1] = const(out[-1].a[0] + y.a[0])
                else:
                    out.append(y)
        if not out:
            return self.k('')
        if len(out) == 1:
            return self.val(out[0], 'str')
        return self.val(mk('call', 'str.join', tuple(out), ()), 'str')

    def e_FormattedValue(self, n):
        return self.e(n.value)

    def e_Tuple(self, n):
        if any(isinstance(x, ast.Starred) for x in n.elts):
            g = self.segs(n.elts)
            if all(x[0] == 'e' for x in g):
                return self.mk_tuple([x[1] for x in g])
            return self.val(self.list_term(g), 'tuple')
        return self.mk_tuple(self.elts(n.elts))

    def mk_tuple(self, els):
        if els is None:
            return self.val(mk('opaque', 'tuple'), 'tuple')
        return self.val(mk('tuple', *[self.reify(x) for x in els]), 'tuple',
                        pl=('tuple', tuple(els)))

    def elts(self, elts):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                els = self.concrete(self.elts_starred(x))
                if els is None:
                    return None
                out.extend(els)
            else:
                out.append(self.e(x))
        return out

    def scalarish(self, term):
        """term certainly denotes a single number"""
        if term.op in ('num', 'len', 'exp10'):
            return True
        if term.op in ('lin',):
            return all(self.scalarish(a) for a, _ in term.a[1])
        if term.op == 'mono':
            return all(self.scalarish(a) for a, _ in term.a[0])
        if term.op == 'in':
            return self.kinds.get(term.a[0]) in ('num', 'bool')
        if term.op == 'call':
            if term.a[0] in SCALAR_CALLS:
                return True
            if term.a[0] in ELEMENTWISE:
                return all(self.scalarish(x) for x in term.a[1])
            if term.a[0] == 'numpy.power':
                return all(self.scalarish(x) for x in term.a[1])
        if term.op == 'phi':
            return self.scalarish(term.a[1]) and self.scalarish(term.a[2])
        if term.op == 'const':
            return term is t.NAN or isinstance(term.a[0], bool)
        return False

    def segs(self, elts):
        """elements, as segments of a list of unknown length"""
        tmp = self.val(mk('list0', 'star', self.oids), 'list',
                       pl=('list', ()))
        for x in elts:
            if isinstance(x, ast.Starred):
                self.extend(tmp, self.elts_starred(x), x)
            else:
                self.append(tmp, self.e(x), x)
        return self.c(tmp).pl[1]

    def elts_starred(self, x):
        o = self.e(x.value)
        c = self.c(o)
        # unpacking something that is certainly not iterable
        if c.kind in ('num', 'bool', 'none') or self.scalarish(c.term):
            self.ev('raise', x, exc='TypeError',
                    msg='cannot unpack a scalar')
            raise Dead
        return o

    def e_List(self, n):
        if any(isinstance(x, ast.Starred) for x in n.elts):
            return self.val(mk('list0', str(self.site(n)), n.col_offset),
                            'list', pl=('list', self.segs(n.elts)))
        els = self.elts(n.elts)
        return self.val(mk('list0', str(self.site(n)), n.col_offset), 'list',
                        pl=('list', tuple(('e', x) for x in els)))

    def e_Set(self, n):
        els = self.elts(n.elts)
        if els is None:
            return self.val(mk('opaque', ast.dump(n)), 'set')
        return self.val(mk('set', *sorted(self.reify(x) for x in els)), 'set',
                        pl=('set', tuple(els)))

    def e_Dict(self, n):
        items, rest = [], None
        d = {}
        for k, v in zip(n.keys, n.values):
            if k is None:
                o = self.e(v)
                c = self.c(o)
                if c.pl and c.pl[0] == 'dict':
                    d.update(dict(c.pl[1]))
                    rest = rest or c.pl[2]
                else:
                    rest = self.reify(o)
            else:
                ko = self.e(k)
                d[self.ckey(ko)] = (self.e(v), TRUE)
        return self.val(mk('dict0', str(self.site(n)), n.col_offset), 'dict',
                        pl=('dict', tuple(d.items()), rest))

    def ckey(self, oid):
        tm = self.reify(oid)
        try:
            return t.pyval(tm)
        except KeyError:
            return tm

    def e_IfExp(self, n):
        c = self.test(n.test)
        if c is True:
            return self.e(n.body)
        if c is False:
            return self.e(n.orelse)
        return self.fork(c, lambda: self.e(n.body), lambda: self.e(n.orelse))

    def e_BoolOp(self, n):
        is_and = isinstance(n.op, ast.And)
        return self._bool(n.values, is_and, n)

    def _bool(self, vals, is_and, n):
        a = self.e(vals[0])
        if len(vals) == 1:
            return a
        c = self.truth(a, vals[0])
        if c is True or c is False:
            if c == is_and:
                return self._bool(vals[1:], is_and, n)
            return a
        ac = self.c(a)
        isb = ac.kind == 'bool' or t.isbool(ac.term)
        if isb:
            pre_pc = self.st.pc
            f = lambda: self._bool(vals[1:], is_and, n)
            g = lambda: a
            r = self.fork(c, f, g) if is_and else self.fork(c, g, f)
            return r
        if is_and:
            return self.fork(c, lambda: self._bool(vals[1:], is_and, n),
                             lambda: a)
        return self.fork(c, lambda: a,
                         lambda: self._bool(vals[1:], is_and, n))

    def test(self, n):
        """-> True / False / condition term"""
        return self.truth(self.e(n), n)

    def truth(self, oid, node, log=True):
        c = self.c(oid)
        p = c.pl
        if p and p[0] == 'phi':
            a = self.truthC(p[2], node)
            b = self.truthC(p[3], node)
            if log:
                self.ev('truth', node, term=c.term, kind=c.kind, c=c)
            ta = const(a) if isinstance(a, bool) else a
            tb = const(b) if isinstance(b, bool) else b
            r = t.phi(p[1], ta, tb)
        else:
            if log:
                self.ev('truth', node, term=c.term, kind=c.kind, c=c)
            r = self.truthC(c, node)
        if isinstance(r, bool):
            return r
        d = self.decide(r)
        return r if d is None else d

    def truthC(self, c, node):
        p = c.pl
        if p:
            if p[0] in ('func', 'class', 'mod', 'ext', 'bound', 'extmeth',
                        'property'):
                return True
            if p[0] == 'tuple' or p[0] == 'set':
                return len(p[1]) > 0
            if p[0] == 'list':
                if any(s[0] == 'e' for s in p[1]):
                    return True
                if not p[1]:
                    return False
                return mk('truth', self.list_term(p[1]))
            if p[0] == 'dict':
                if any(cd is TRUE for _, (o, cd) in p[1]):
                    return True
                if not p[1] and p[2] is None:
                    return False
                return mk('truth', self.reifyC(c))
            if p[0] == 'inst' and not p[1].is_df():
                return True
            if p[0] == 'phi':
                a, b = self.truthC(p[2], node), self.truthC(p[3], node)
                ta = const(a) if isinstance(a, bool) else a
                tb = const(b) if isinstance(b, bool) else b
                return t.phi(p[1], ta, tb)
        tm = c.term
        if tm.op == 'const':
            v = tm.a[0]
            return True if isinstance(v, str) and v.endswith('#float') \
                else bool(v)
        if tm.op == 'num':
            return tm.a[0] != 0
        if t.isbool(tm):
            return tm
        if tm.op == 'phi':
            a = self.truthC(C(tm.a[1], c.kind), node)
            b = self.truthC(C(tm.a[2], c.kind), node)
            return t.phi(tm.a[0], const(a) if isinstance(a, bool) else a,
                         const(b) if isinstance(b, bool) else b)
        if c.kind == 'num' or tm.op in ('lin', 'mono', 'len'):
            return t.not_(t.eq(tm, t.ZERO))
        if tm in self.clean:
            return True
        if tm.op == 'call' and tm.a[0] == 'str.join' and any(
                x in self.clean or x.op == 'const' and x.a[0]
                for x in tm.a[1]):
            return True
        return mk('truth', tm)

    def e_UnaryOp(self, n):
        if isinstance(n.op, ast.Not):
            c = self.test(n.operand)
            if isinstance(c, bool):
                return self.k(not c)
            return self.val(t.not_(c), 'bool')
        o = self.e(n.operand)
        c = self.c(o)
        if isinstance(n.op, ast.USub):
            return self.val(t.neg(c.term), c.kind if c.kind in (
                'num', 'arr', 'series') else 'opaque')
        if isinstance(n.op, ast.UAdd):
            return o
        if t.isbool(c.term):
            return self.val(t.not_(c.term), c.kind)
        return self.val(mk('not', c.term) if c.kind in ('arr', 'series')
                        else mk('call', 'op.invert', (c.term,), ()), c.kind)

    def e_BinOp(self, n):
        a = self.e(n.left)
        b = self.e(n.right)
        return self.binop(type(n.op).__name__, a, b, n)

    def binop(self, op, a, b, n, aug=False):
        ca, cb = self.c(a), self.c(b)
        ka, kb = ca.kind, cb.kind
        if ca.pl and ca.pl[0] == 'list' and op == 'Add' and cb.pl and \
                cb.pl[0] == 'list':
            return self.val(mk('concat', self.reifyC(ca), self.reifyC(cb)),
                            'list', pl=('list', ca.pl[1] + cb.pl[1]))
        if ca.pl and ca.pl[0] == 'tuple' and op == 'Add' and cb.pl and \
                cb.pl[0] == 'tuple':
            return self.mk_tuple(list(ca.pl[1] + cb.pl[1]))
        if ka == 'str' or kb == 'str':
            if op == 'Add' and ca.term.op == 'const' and \
                    cb.term.op == 'const' and ka == kb:
                return self.k(ca.term.a[0] + cb.term.a[0])
            if op == 'Add' and ka == kb:
                return self.strjoin([self.reifyC(ca), self.reifyC(cb)])
            return self.val(mk('call', 'str.' + op, (self.reifyC(ca),
                                                     self.reifyC(cb)), ()),
                            'str')
        if (ka == 'list' or kb == 'list') and op == 'Mult':
            return self.val(mk('call', 'op.repeat', (self.reifyC(ca),
                                                     self.reifyC(cb)), ()),
                            'list')
        if op == 'BitOr' and ca.pl and ca.pl[0] == 'dict' and cb.pl and \
                cb.pl[0] == 'dict':
            d = dict(ca.pl[1])
            for k, (o, cd) in cb.pl[1]:
                if k in d and cd is not TRUE:
                    self._mg = {}
                    o = self.phi_oid(cd, o, d[k][0], self.st.get, self.st.get)
                    cd = t.or_(cd, d[k][1])
                d[k] = (o, cd)
            return self.val(mk('union', self.reifyC(ca), self.reifyC(cb)),
                            'dict', pl=('dict', tuple(d.items()),
                                        ca.pl[2] or cb.pl[2]))
        if 'set' in (ka, kb) and op in ('Sub', 'BitAnd', 'BitOr', 'BitXor') \
                and (ka == kb or 'opaque' in (ka, kb)):
            return setop(self, op, a, b)
        x, y = self.reifyC(ca), self.reifyC(cb)
        if op in ('BitAnd', 'BitOr', 'BitXor'):
            if t.isbool(x) or t.isbool(y):
                r = {'BitAnd': t.and_, 'BitOr': t.or_,
                     'BitXor': lambda p, q: t.mk('call', 'op.xor', (p, q),
                                                 ())}[op](x, y)
            else:
                r = mk('call', 'op.' + op, (x, y), ())
        elif op == 'Add':
            r = t.add(x, y)
        elif op == 'Sub':
            r = t.sub(x, y)
        elif op == 'Mult':
            r = t.mul(x, y)
        elif op == 'Div':
            self.ev('div', n, num=x, den=y)
            if y is t.ZERO:
                if kb == 'num' and cb.term is t.ZERO and ka in ('num',):
                    self.ev('raise', n, exc='ZeroDivisionError', msg=None)
                    raise Dead
                self.ev('divzero', n, num=x)
                r = mk('inf', x)
            else:
                r = t.div(x, y)
        elif op == 'Pow':
            r = t.power(x, y)
        elif op == 'Mod' and x.op == 'num' and y.op == 'num' and y.a[0] != 0:
            r = num(x.a[0] % y.a[0])
        elif op == 'FloorDiv' and x.op == 'num' and y.op == 'num' and \
                y.a[0] != 0:
            r = num(x.a[0] // y.a[0])
        else:
            r = mk('call', 'op.' + op, (x, y), ())
        kind = self.join_kind(ka, kb)
        self.ev('binop', n, op=op, x=x, y=y, r=r, kx=ka, ky=kb)
        return self.val(r, kind)

    def join_kind(self, ka, kb):
        if 'df' in (ka, kb):
            return 'df'
        if 'series' in (ka, kb):
            return 'series'
        if 'arr' in (ka, kb):
            return 'arr'
        if {ka, kb} <= NUM_KINDS:
            return 'num'
        return 'opaque'

    def e_Compare(self, n):
        left = self.e(n.left)
        res = None
        for op, r in zip(n.ops, n.comparators):
            right = self.e(r)
            c = self.compare(type(op).__name__, left, right, n)
            if res is None:
                res = c
            else:
                res = t.and_(res, c)
            left = right
        ka = 'bool'
        lk = self.c(self.last_cmp[0]).kind
        rk = self.c(self.last_cmp[1]).kind
        if 'arr' in (lk, rk) or 'series' in (lk, rk):
            if type(n.ops[-1]).__name__ not in ('Is', 'IsNot', 'In', 'NotIn'):
                ka = 'series' if 'series' in (lk, rk) else 'arr'
        return self.val(res, ka)

    def compare(self, op, l, r, n):
        self.last_cmp = (l, r)
        cl, cr = self.c(l), self.c(r)
        if cl.kind == cr.kind == 'set' and op in SETCMP:
            A, B = constants(self, l), constants(self, r)
            if A is not None and B is not None:
                return const(SETCMP[op](set(A), set(B)))
            return mk('call', 'set.' + op, (self.reify(l), self.reify(r)),
                      ())
        x, y = self.reifyC(cl), self.reifyC(cr)
        if op in ('Is', 'IsNot'):
            if y is NONE or x is NONE:
                z, cz = (x, cl) if y is NONE else (y, cr)
                if cz.kind in NOTNONE:
                    res = FALSE
                elif cz.kind == 'none':
                    res = TRUE
                else:
                    res = t.isnone(z)
            elif x in (TRUE, FALSE) or y in (TRUE, FALSE):
                z, k = (x, y) if y in (TRUE, FALSE) else (y, x)
                cz = cl if z is x else cr
                if z.op in ('const', 'num') or cz.kind in ('str', 'none',
                                                           'list', 'arr'):
                    res = const(z is k)
                elif t.isbool(z) or cz.kind == 'bool':
                    res = z if k is TRUE else t.not_(z)
                else:
                    res = mk('eq', *sorted((z, k)))
            else:
                res = TRUE if l == r else t.eq(x, y)
            return t.not_(res) if op == 'IsNot' else res
        if op in ('In', 'NotIn'):
            res = self.contains(l, r, n)
            return t.not_(res) if op == 'NotIn' else res
        if op in ('Eq', 'NotEq'):
            self.ev('cmp', n, op=op, x=x, y=y, kx=cl.kind, ky=cr.kind)
            if x is y and x.op in ('const', 'num', 'in', 'class', 'func'):
                res = TRUE
            elif cl.kind == 'none' and cr.kind in NOTNONE or \
                    cr.kind == 'none' and cl.kind in NOTNONE:
                res = FALSE
            elif t.isbool(x) and y in (TRUE, FALSE):
                res = x if y is TRUE else t.not_(x)
            else:
                res = t.eq(x, y)
            return t.not_(res) if op == 'NotEq' else res
        sym = {'Lt': '<', 'LtE': '<=', 'Gt': '>', 'GtE': '>='}[op]
        self.ev('cmp', n, op=sym, x=x, y=y, kx=cl.kind, ky=cr.kind)
        if cl.kind == 'num' and cr.kind == 'none' or \
                cl.kind == 'none' and cr.kind == 'num':
            self.ev('raise', n, exc='TypeError', msg='compare with None')
            raise Dead
        if cl.kind == 'set' or cr.kind == 'set':
            return mk('call', 'set.' + op, (x, y), ())
        return t.cmp(sym, x, y)

    def contains(self, l, r, n):
        cr = self.c(r)
        x = self.reify(l)
        els = self.concrete(r)
        if els is None and cr.pl and cr.pl[0] == 'set':
            els = list(cr.pl[1])
        if els is not None:
            conds = []
            for e in els:
                y = self.reify(e)
                conds.append(t.eq(x, y))
            return t.or_(*conds)
        if cr.pl and cr.pl[0] == 'dict':
            k = self.ckey(l)
            d = dict(cr.pl[1])
            if k in d:
                return d[k][1]
            if cr.pl[2] is None and not isinstance(k, T):
                return FALSE
            return mk('in_', x, self.reifyC(cr))
        if cr.term.op == 'const' and isinstance(cr.term.a[0], str) and \
                x.op == 'const' and isinstance(x.a[0], str):
            return const(x.a[0] in cr.term.a[0])
        self.ev('contains', n, x=x, y=self.reifyC(cr), kx=self.c(l).kind,
                ky=cr.kind)
        return mk('in_', x, self.reifyC(cr))

    def e_Lambda(self, n):
        node = ast.FunctionDef(name='<lambda>', args=n.args,
                               body=[ast.Return(value=n.body,
                                                lineno=n.lineno,
                                                col_offset=n.col_offset)],
                               decorator_list=[], lineno=n.lineno,
                               col_offset=n.col_offset)
        return self.make_func(node, '<lambda>')

    def e_NamedExpr(self, n):
        v = self.e(n.value)
        self.bind(n.target, v)
        return v

    def e_Starred(self, n):
        return self.e(n.value)

    def e_Slice(self, n):
        f = lambda x: self.e(x) if x is not None else self.k(None)
        lo, hi, st = f(n.lower), f(n.upper), f(n.step)
        return self.val(mk('slc', self.reify(lo), self.reify(hi),
                           self.reify(st)), 'slice')

    # ------------------------------------------------------- comprehensions
    def e_ListComp(self, n):
        return self.comp(n, 'list')

    def e_GeneratorExp(self, n):
        return self.comp(n, 'gen')

    def e_SetComp(self, n):
        o = self.comp(n, 'list')
        c = self.c(o)
        els = self.concrete(o)
        return self.val(mk('set', self.reifyC(c)), 'set',
                        pl=('set', tuple(els)) if els is not None else None)

    def e_DictComp(self, n):
        out = self.val(mk('dict0', str(self.site(n)), n.col_offset), 'dict',
                       pl=('dict', (), None))

        def leaf():
            k = self.e(n.key)
            v = self.e(n.value)
            self.setitem(out, k, v, n)
        self.run_comp(n, leaf)
        return out

    def comp(self, n, kind):
        out = self.val(mk('list0', str(self.site(n)), n.col_offset), 'list',
                       pl=('list', ()))

        def leaf():
            self.append(out, self.e(n.elt), n)
        self.run_comp(n, leaf)
        return out

    def run_comp(self, n, leaf):
        """comprehension scope: variables live in a fresh frame"""
        fr = self.frames[-1]
        foid = self.new(C(mk('frame', 'comp'), 'frame', pl=('frame', {})))
        fv = FuncVal(n, fr.module, tuple(self.chain()),
                     fr.cls, (fr.fv.qual if fr.fv else fr.module.name), [],
                     [])
        # walrus etc. ignored; names resolve through the closure
        cf = Frame(fv, foid, fr.module, fr.cls)
        cf.exits = fr.exits
        gens = n.generators

        def level(i):
            if i == len(gens):
                leaf()
                return
            g = gens[i]
            it = self.e(g.iter)
            els = self.iter_concrete(it)

            def one(x):
                self.bind(g.target, x)
                self.filt(g.ifs, 0, lambda: level(i + 1))
            if els is not None and len(els) <= UNROLL:
                for x in els:
                    one(x)
                return
            lid = mk('loop', *(self.loopid(g.iter).a + (i,)))
            self.ev_iter(it, g.iter)
            self.run_loop(lid, self.iter_term(it),
                          lambda: one(self.iter_elem(it, lid, g.iter)), n)
        # first iterable is evaluated in the enclosing scope, harmless here
        self.frames.append(cf)
        try:
            level(0)
        finally:
            self.frames.pop()

    def filt(self, ifs, i, k):
        if i == len(ifs):
            k()
            return
        c = self.test(ifs[i])
        if c is True:
            self.filt(ifs, i + 1, k)
        elif c is False:
            return
        else:
            self.fork(c, lambda: self.filt(ifs, i + 1, k), lambda: None)

    # ------------------------------------------------------------ iteration
    def concrete(self, oid):
        """element oids when the container's length is known"""
        c = self.c(oid)
        p = c.pl
        if p is None:
            return None
        if p[0] == 'tuple':
            return list(p[1])
        if p[0] == 'list' and all(s[0] == 'e' for s in p[1]):
            return [s[1] for s in p[1]]
        return None

    def iter_concrete(self, oid):
        c = self.c(oid)
        p = c.pl
        if p is None:
            if c.term.op == 'const' and isinstance(c.term.a[0], str) and \
                    c.kind == 'str' and False:
                return None
            return None
        if p[0] in ('tuple', 'list'):
            return self.concrete(oid)
        if p[0] == 'dict' and p[2] is None and all(
                cd is TRUE for _, (o, cd) in p[1]):
            return [self.val(k, 'opaque') if isinstance(k, T) else self.k(k)
                    for k, _ in p[1]]
        if p[0] == 'range':
            a, b, s = p[1:]
            if a.op == b.op == s.op == 'num':
                r = range(int(a.a[0]), int(b.a[0]), int(s.a[0]))
                if len(r) <= UNROLL:
                    return [self.k(i) for i in r]
            return None
        if p[0] == 'set' and p[2:] == ('exact',):
            if len(p[1]) > 1:
                self.ev('setorder', None, term=c.term)
            return list(p[1])
        if p[0] == 'enum':
            els = self.iter_concrete(p[1])
            if els is None:
                return None
            return [self.mk_tuple([self.k(i), x])
                    for i, x in enumerate(els)]
        if p[0] == 'zip':
            ls = [self.iter_concrete(x) for x in p[1]]
            if any(x is None for x in ls):
                return None
            return [self.mk_tuple(list(x)) for x in zip(*ls)]
        if p[0] == 'mapit':
            els = self.iter_concrete(p[2])
            if els is None:
                return None
            return [self.call(p[1], [x], {}, None, None) for x in els]
        if p[0] == 'items':
            return [self.mk_tuple([self.val(k) if isinstance(k, T)
                                   else self.k(k), o])
                    for k, (o, cd) in p[1]]
        if p[0] == 'rev':
            els = self.iter_concrete(p[1])
            return None if els is None else els[::-1]
        if p[0] == 'keys':
            return list(p[1])
        return None

    def iter_term(self, oid):
        c = self.c(oid)
        p = c.pl
        if p:
            if p[0] == 'enum':
                return self.iter_term(p[1])
            if p[0] == 'zip' and p[1]:
                return self.iter_term(p[1][0])
            if p[0] == 'mapit':
                return self.iter_term(p[2])
        return self.reifyC(c)

    def ev_iter(self, oid, node):
        c = self.c(oid)
        p = c.pl
        if p and p[0] == 'zip':
            self.ev('zip', node, args=[self.iter_term(x) for x in p[1]])
            for x in p[1]:
                self.ev_iter(x, node)
            return
        if p and p[0] == 'enum':
            return self.ev_iter(p[1], node)
        self.ev('iter', node, term=self.reifyC(c), kind=c.kind)

    def iter_elem(self, oid, lid, node):
        c = self.c(oid)
        p = c.pl
        if p:
            if p[0] == 'range':
                a, b, s = p[1:]
                if a is t.ZERO and s is t.ONE and b.op == 'len':
                    return self.val(mk('pos', lid, b.a[0]), 'num')
                return self.val(mk('it', lid, a, b, s), 'num')
            if p[0] == 'enum':
                inner = self.iter_term(p[1])
                e = self.iter_elem(p[1], lid, node)
                pos = mk('pos', lid, inner)
                if p[2] is not t.ZERO:
                    pos = t.add(pos, p[2])
                return self.mk_tuple([self.val(pos, 'num'), e])
            if p[0] == 'zip':
                return self.mk_tuple([self.iter_elem(x, lid, node)
                                      for x in p[1]])
            if p[0] == 'mapit':
                return self.call(p[1], [self.iter_elem(p[2], lid, node)], {},
                                 None, node)
            if p[0] == 'list':
                # element content: single mapped segment keeps its structure
                segs = p[1]
                if len(segs) == 1 and segs[0][0] == 'm' and \
                        len(segs[0][3]) == 1 and segs[0][3][0][0] == 'e':
                    ec = self.c(segs[0][3][0][1])
                    tm = mk('at', self.list_term(segs), lid)
                    return self.val(tm, ec.kind, ec.roots | c.roots,
                                    ec.pl if ec.pl and ec.pl[0] in (
                                        'inst',) else None)
                if len(segs) == 1 and segs[0][0] == 'e':
                    return segs[0][1]
        tm = self.reifyC(c)
        kind = 'opaque'
        if c.kind in ('arr', 'series'):
            kind = 'opaque' if tm in getattr(self, 'nested', ()) else 'num'
            if tm.op == 'in' and self.kinds.get(tm.a[0] + '[]'):
                kind = self.kinds[tm.a[0] + '[]']
        elif c.kind == 'list' and tm.op == 'in':
            kind = self.kinds.get(tm.a[0] + '[]', 'opaque')
        if tm.op == 'call' and tm.a[0] == 'meth.iterrows':
            return self.mk_tuple([self.val(mk('item', mk('at', tm, lid),
                                              t.ZERO)),
                                  self.val(mk('item', mk('at', tm, lid),
                                              t.ONE), 'series')])
        if tm.op == 'map' and tm.a[2] is TRUE:
            pass
        return self.val(t.getitem(tm, mk('pos', lid, tm)), kind,
                        c.roots if kind != 'num' else frozenset())

    # ----------------------------------------------------------- attributes
    def mangle(self, name):
        fr = self.frames[-1]
        cls = fr.cls
        if name.startswith('__') and not name.endswith('__') and cls:
            return f'_{cls.name.lstrip("_")}{name}'
        return name

    def e_Attribute(self, n):
        return self.getattr(self.e(n.value), n.attr, n)

    def getattr(self, oid, name, node, default=None):
        name = self.mangle(name)
        c = self.c(oid)
        p = c.pl
        if p is None:
            return self.opaque_attr(oid, c, name, node)
        if p[0] == 'mod':
            f = self.modframes.get(p[1]) or self.module_frame(p[1])
            v = self.static.get(f).pl[1]
            if name in v:
                return v[name]
            sub = p[1] + '.' + name
            if sub in self.project.modules:
                self.module_frame(sub)
                return self.val(mk('mod', sub), 'mod', pl=('mod', sub))
            return self.val(mk('attr', c.term, name))
        if p[0] == 'ext':
            return self.ext_attr(p[1], name)
        if p[0] == 'inst':
            return self.inst_attr(oid, c, name, node, default)
        if p[0] == 'class':
            k, o = p[1].lookup(name)
            if o is not None:
                oc = self.c(o)
                if oc.pl and oc.pl[0] == 'func' and self.is_cm(oc.pl[1]):
                    return self.val(mk('bound', c.term, name), 'func',
                                    pl=('bound', oc.pl[1], oid))
                return o
            if name == '__name__':
                return self.k(p[1].name)
            return self.val(mk('attr', c.term, name), 'opaque',
                            pl=('extmeth', oid, name))
        if p[0] == 'super':
            return self.super_attr(p[1], p[2], name, node)
        if p[0] == 'func' and name == '__name__':
            return self.k(getattr(p[1].node, 'name', ''))
        if p[0] == 'sig' and name == 'parameters':
            fv = p[1]
            items = [(x, (self.val(mk('param', fv.qual, x)), TRUE))
                     for x in self.sig_params(fv, p[2])]
            return self.val(mk('attr', c.term, name), 'dict',
                            pl=('dict', tuple(items), None))
        if p[0] == 'bound' and name == '__func__':
            return self.val(c.term, 'func', pl=('func', p[1]))
        return self.opaque_attr(oid, c, name, node)

    def sig_params(self, fv, bound):
        fv = getattr(fv, 'wrapped', fv)
        a = fv.node.args
        ps = fv.params + ([a.vararg.arg] if a.vararg else []) + [
            x.arg for x in a.kwonlyargs] + ([a.kwarg.arg] if a.kwarg else [])
        return ps[1:] if bound else ps

    def is_cm(self, fv):
        return fv.is_cls

    def ext_attr(self, base, name):
        full = base + '.' + name
        if full in ('numpy.nan', 'numpy.NaN', 'math.nan'):
            return self.val(t.NAN, 'num')
        if full in ('numpy.pi', 'math.pi'):
            return self.val(mk('ext', 'numpy.pi'), 'num')
        if full == 'numpy.newaxis':
            return self.k(None)
        return self.val(mk('ext', full), 'ext', pl=('ext', full))

    def inst_attr(self, oid, c, name, node, default=None):
        ci, attrs = c.pl[1], c.pl[2]
        k, o = ci.lookup(name)
        if o is not None:
            oc = self.st.get(o)
            if oc.pl and oc.pl[0] == 'property':
                self.ev('getprop', node, cls=ci.qual, name=name,
                        obj=oid)
                return self.call(oc.pl[1], [oid], {}, None, node)
        if name in attrs:
            o2 = attrs[name]
            ac = self.st.get(o2)
            if ac.term.op == 'phi' and t.UNBOUND in ac.term.a[1:]:
                cc = self.c(o2)
                if cc.term is t.UNBOUND:
                    self.ev('raise', node, exc='AttributeError', msg=name)
                    raise Dead
                if cc.pl and cc.pl[0] == 'phi':
                    good = cc.pl[3] if cc.pl[2].term is t.UNBOUND \
                        else cc.pl[2]
                    return self.new(good)
            return o2
        if name == '__class__':
            return self.val(mk('class', ci.qual), 'class', pl=('class', ci))
        if o is not None:
            oc = self.c(o)
            if oc.pl and oc.pl[0] == 'func':
                fv = oc.pl[1]
                if fv.is_static:
                    return o
                if fv.is_cls:
                    cl = self.val(mk('class', ci.qual), 'class',
                                  pl=('class', ci))
                    return self.val(mk('bound', c.term, name), 'func',
                                    pl=('bound', fv, cl))
                return self.val(mk('bound', c.term, name), 'func',
                                pl=('bound', fv, oid))
            return o
        if ci.is_df():
            return self.df_attr(oid, c, name, node)
        if ci.ext_bases() and any(b not in ('abc.ABC', 'builtins.object')
                                  for b in ci.ext_bases()):
            return self.val(mk('attr', c.term, name), 'opaque', c.roots,
                            ('extmeth', oid, name))
        if default is None:
            if attrs.get('#open'):
                return self.val(mk('attr', c.term, name), 'opaque', c.roots)
            self.ev('raise', node, exc='AttributeError', msg=name)
            raise Dead
        return default

    DF_METHODS = {
        'copy', 'drop', 'dropna', 'filter', 'apply', 'groupby', 'to_dict',
        'sort_values', 'reset_index', 'set_index', 'query', 'rename', 'head',
        'tail', 'merge', 'join', 'astype', 'fillna', 'replace', 'describe',
        'select_dtypes', 'agg', 'aggregate', 'assign', 'isna', 'notna',
        'iterrows', 'itertuples', 'to_numpy', 'min', 'max', 'mean', 'sum',
        'drop_duplicates', 'duplicated', 'insert', 'pop', 'update', 'get',
        'items', 'keys', 'where', 'mask', 'sample', 'nlargest', 'nsmallest',
        'reindex', 'add_prefix', 'add_suffix', 'equals', 'explode', 'pipe',
        'transform', 'map', 'droplevel', 'sort_index', 'stack', 'unstack',
        'pivot', 'melt', 'corr', 'std', 'var', 'count', 'nunique', 'any',
        'all', 'clip', 'round', 'eval', 'concat', 'truncate', 'between_time',
        'iloc', 'loc', 'at', 'iat', 'from_dict', 'from_records'}
    DF_ATTRS = {'columns', 'index', 'dtypes', 'shape', 'size', 'values',
                'empty', 'T', 'iloc', 'loc', 'at', 'iat', 'axes', 'ndim',
                'attrs', 'style', 'plot'}

    def df_attr(self, oid, c, name, node):
        if name in ('iloc', 'loc', 'at', 'iat'):
            return self.val(mk('indexer', c.term, name), 'opaque', c.roots,
                            ('indexer', oid, name))
        if name in self.DF_ATTRS:
            if name == 'values':
                return self.val(c.term, 'arr', c.roots)
            if name == 'index':
                return self.val(mk('index', c.term), 'arr',
                                self.index_roots(c))
            if name == 'columns' and self.colset(c.term) is not None:
                names = list(self.colset(c.term))
                if c.pl and c.pl[0] == 'inst':
                    names += [k[1:] for k in c.pl[2] if k.startswith('$')
                              and k[1:] not in names]
                els = tuple(('e', self.k(x)) for x in names)
                return self.val(mk('list0', 'columns', c.term,
                                   tuple(names)), 'list', pl=('list', els))
            return self.val(mk('attr', c.term, name), 'opaque', c.roots)
        if name in self.DF_METHODS or name.startswith('_') or \
                name.startswith('to_') or name.startswith('from_'):
            return self.val(mk('attr', c.term, name), 'func', c.roots,
                            ('extmeth', oid, name))
        return self.column(oid, c, name, node)

    KEEPCOLS = {'df.' + x for x in (
        'copy', 'dropna', 'sort_values', 'drop_duplicates', 'head', 'tail',
        'sample', 'query', 'fillna', 'replace', 'astype', 'round', 'clip',
        'where', 'mask', 'sort_index', 'nlargest', 'nsmallest',
        'truncate')}

    def colset(self, x):
        """names of the columns of a table, if known"""
        if x in self.colsets:
            return self.colsets[x]
        if x.op == 'call' and x.a[0] in self.KEEPCOLS and x.a[1]:
            return self.colset(x.a[1][0])
        if x.op == 'call' and x.a[0] == 'df.drop' and x.a[1]:
            base = self.colset(x.a[1][0])
            cols = dict(x.a[2]).get('columns')
            if base is None or cols is None or len(x.a[1]) > 1:
                return None
            if cols.op in ('list', 'tuple', 'set') and all(
                    isinstance(y, T) and y.op == 'const' for y in cols.a):
                gone = {y.a[0] for y in cols.a}
                return tuple(y for y in base if y not in gone)
            if cols.op == 'list0' and cols.a[0] == 'columns':
                return tuple(y for y in base if y not in cols.a[2])
            if cols.op == 'const':
                return tuple(y for y in base if y != cols.a[0])
            return None
        if x.op == 'call' and x.a[0] == 'df.filter' and len(x.a[1]) == 1 \
                and len(x.a[2]) == 1:
            base = self.colset(x.a[1][0])
            k, v = x.a[2][0]
            if base is None:
                return None
            if v.op == 'const' and k == 'regex':
                return tuple(y for y in base if re.search(v.a[0], y))
            if v.op == 'const' and k == 'like':
                return tuple(y for y in base if v.a[0] in y)
            return None
        if x.op == 'cols' and x.a[1].op == 'list' and all(
                y.op == 'const' for y in x.a[1].a):
            return tuple(y.a[0] for y in x.a[1].a)
        if x.op in ('sel', 'take', 'slice', 'resetidx'):
            return self.colset(x.a[0])
        if x.op == 'setcol':
            base = self.colset(x.a[0])
            if base is not None and isinstance(x.a[1], str):
                return base if x.a[1] in base else base + (x.a[1],)
        return None

    def column(self, oid, c, name, node):
        d = c.pl[2] if c.pl and c.pl[0] == 'inst' else {}
        key = '$' + name
        self.ev('colread', node, col=name, obj=c.term, oid=oid)
        if key in d:
            return d[key]
        return self.val(mk('col', c.term, name), 'series',
                        frozenset(r + '.' + name for r in c.roots))

    def super_attr(self, ci, selfoid, name, node):
        sc = self.c(selfoid)
        dyn = sc.pl[1] if sc.pl and sc.pl[0] in ('inst', 'class') else ci
        mro = dyn.mro()
        i = mro.index(ci) + 1 if ci in mro else 0
        for k in mro[i:]:
            if name in k.attrs:
                o = k.attrs[name]
                oc = self.st.get(o)
                if oc.pl and oc.pl[0] == 'property':
                    return self.call(oc.pl[1], [selfoid], {}, None, node)
                if oc.pl and oc.pl[0] == 'func':
                    if oc.pl[1].is_static:
                        return o
                    return self.val(mk('bound', sc.term, name), 'func',
                                    pl=('bound', oc.pl[1], selfoid))
                return o
        return self.val(mk('attr', mk('super', sc.term), name), 'func',
                        sc.roots, ('superext', selfoid, name))

    def opaque_attr(self, oid, c, name, node):
        if c.kind == 'df' and name not in self.DF_ATTRS and \
                name not in self.DF_METHODS:
            return self.column(oid, c, name, node)
        if name == 'columns' and c.kind == 'df' and \
                self.colset(c.term) is not None:
            names = tuple(self.colset(c.term))
            els = tuple(('e', self.k(x)) for x in names)
            return self.val(mk('list0', 'columns', c.term, names), 'list',
                            pl=('list', els))
        if name in ('values', 'array') and c.kind in ('series', 'arr', 'df',
                                                     'opaque'):
            return self.val(c.term, 'arr', c.roots)
        if name in ('iloc', 'loc', 'at', 'iat'):
            return self.val(mk('indexer', c.term, name), 'opaque', c.roots,
                            ('indexer', oid, name))
        if name == 'size' and c.kind in ('arr', 'series'):
            return self.val(mk('len', c.term), 'num')
        if name == 'T' and c.kind in ('arr', 'opaque', 'phi'):
            return self.val(mk('attr', c.term, 'T'), c.kind, c.roots,
                            ('view', oid))
        if name == 'index' and c.kind in ('series', 'df'):
            return self.val(mk('index', c.term), 'arr', self.index_roots(c))
        if name == 'shape':
            return self.val(mk('attr', c.term, 'shape'), 'tuple')
        return self.val(mk('attr', self.reifyC(c), name), 'opaque', c.roots,
                        ('extmeth', oid, name))

    def setattr(self, oid, name, v, node):
        name = self.mangle(name)
        c = self.c(oid)
        p = c.pl
        if p and p[0] == 'inst':
            k, o = p[1].lookup(name)
            if o is not None:
                oc = self.st.get(o)
                if oc.pl and oc.pl[0] == 'property':
                    if oc.pl[2] is None:
                        self.ev('raise', node, exc='AttributeError',
                                msg=f'no setter for {name}')
                        raise Dead
                    self.call(oc.pl[2], [oid, v], {}, None, node)
                    return
            self.ev('setattr', node, obj=oid, cls=p[1].qual, name=name,
                    value=self.reify(v), voids=v, roots=c.roots,
                    vkind=self.c(v).kind)
            if p[1].is_df() and name in ('index', 'columns'):
                self.mutate(oid, node, f'.{name} =')
                d = dict(p[2])
                self.st.set(oid, C(mk('setattr', c.term, name,
                                      self.reify(v)), c.kind, c.roots,
                                   ('inst', p[1], d)))
                return
            d = dict(p[2])
            if p[1].is_df() and ('$' + name in d):
                self.mutate(oid, node, f'.{name} = (column)')
                d['$' + name] = v
            else:
                d[name] = v
            self.st.set(oid, C(c.term, c.kind, c.roots, ('inst', p[1], d)))
            return
        if p and p[0] == 'mod' or p and p[0] == 'ext':
            self.ev('extattr_write', node, obj=c.term, name=name)
            return
        if p and p[0] == 'class':
            self.ev('class_write', node, obj=c.term, name=name)
            return
        if p and p[0] == 'func':
            return
        self.mutate(oid, node, f'.{name} =')
        self.st.set(oid, c.but(term=mk('setattr', c.term, name,
                                       self.reify(v))))

    # ----------------------------------------------------------- subscripts
    def e_Subscript(self, n):
        return self.subscript(self.e(n.value), self.e(n.slice), n)

    def subscript(self, b, i, n):
        c = self.c(b)
        ic = self.c(i)
        p = c.pl
        it = self.reifyC(ic)
        if p and p[0] == 'phi':
            # distribute over the join when both sides are containers
            if all(x.pl and x.pl[0] in ('tuple', 'list', 'dict')
                   for x in (p[2], p[3])):
                a = self.new(p[2])
                d = self.new(p[3])
                return self.fork(p[1], lambda: self.subscript(a, i, n),
                                 lambda: self.subscript(d, i, n))
        if p and p[0] in ('tuple', 'list'):
            els = self.concrete(b)
            if els is not None and it.op == 'num':
                k = int(it.a[0])
                if -len(els) <= k < len(els):
                    return els[k]
                self.ev('raise', n, exc='IndexError', msg='out of range')
                raise Dead
            if els is not None and it.op == 'slc' and all(
                    x is NONE or x.op == 'num' for x in it.a):
                f = [None if x is NONE else int(x.a[0]) for x in it.a]
                sub = els[slice(*f)]
                if p[0] == 'tuple':
                    return self.mk_tuple(sub)
                return self.val(mk('list', *[self.reify(x) for x in sub]),
                                'list',
                                pl=('list', tuple(('e', x) for x in sub)))
        if p and p[0] == 'dict':
            k = self.ckey(i)
            d = dict(p[1])
            if k in d:
                o, cd = d[k]
                if cd is not TRUE:
                    self.ev('keyread', n, key=k, cond=cd,
                            obj=self.reifyC(c))
                return o
            if not isinstance(k, T) and p[2] is None:
                if c.term in self.factories:
                    o = self.call(self.factories[c.term], [], {}, None, n)
                    self.setitem(b, i, o, n)
                    return o
                self.ev('raise', n, exc='KeyError', msg=k)
                raise Dead
            return self.val(mk('get', self.reifyC(c), it))
        if p and p[0] == 'indexer':
            return self.indexer_get(p, b, i, n)
        if (p and p[0] == 'inst' and p[1].is_df()) or c.kind == 'df':
            return self.df_getitem(b, c, i, ic, it, n)
        if p and p[0] == 'class' or p and p[0] == 'ext':
            return self.val(mk('generic', c.term, it), 'opaque')
        if p and p[0] == 'inst':
            k, o = p[1].lookup('__getitem__')
            if o is not None:
                return self.call(o, [b, i], {}, None, n)
        x = self.reifyC(c)
        self.ev('subscript', n, x=x, i=it, kx=c.kind, ki=ic.kind, b=b)
        # tuple index
        if it.op == 'tuple':
            return self.val(mk('get2', x, *it.a), c.kind if any(
                z.op == 'slc' or self.c_isarr(z) for z in it.a)
                else 'opaque',
                c.roots, ('view', b) if c.kind == 'arr' else None)
        if it.op == 'const' and isinstance(it.a[0], str):
            self.ev('keyget', n, x=x, key=it.a[0])
            return self.val(mk('get', x, it), 'opaque', c.roots)
        r = t.getitem(x, it)
        if c.kind in ('arr', 'series'):
            if it.op == 'slc':
                return self.val(r, c.kind, c.roots,
                                ('view', b) if c.kind == 'arr' else None)
            if ic.kind in ('arr', 'series', 'list') or t.isbool(it):
                return self.val(r, c.kind)
            if ic.kind == 'num' or it.op in ('pos', 'it', 'num'):
                ek = self.kinds.get(x.a[0] + '[]') if x.op == 'in' else None
                return self.val(r, ek or 'num',
                                c.roots if ek in ('arr', 'list')
                                else frozenset())
            return self.val(r, 'opaque')
        if c.kind in ('list', 'tuple'):
            if it.op == 'slc':
                return self.val(r, 'list' if c.kind == 'list' else 'tuple')
            ek = self.kinds.get(x.a[0] + '[]') if x.op == 'in' else None
            g = c.pl[1] if c.pl and c.pl[0] == 'list' else ()
            if ek and len(g) == 1 and g[0][0] == 'm' and \
                    len(g[0][3]) == 1 and g[0][3][0][0] == 'e':
                # elements converted by a comprehension
                ek = self.c(g[0][3][0][1]).kind
            if ek is None and x.op == 'map':
                ek = 'opaque'
            return self.val(r, ek or 'opaque', c.roots)
        if c.kind == 'str':
            return self.val(r, 'str')
        return self.val(r, 'opaque', c.roots)

    def c_isarr(self, z):
        return z.op in ('cmp', 'not', 'nz', 'sel', 'take', 'argsort')

    def df_getitem(self, b, c, i, ic, it, n):
        if it.op == 'const' and isinstance(it.a[0], str):
            return self.column(b, c, it.a[0], n)
        if it.op == 'list' or ic.kind == 'list':
            els = self.concrete(i)
            if els is not None:
                for e in els:
                    et = self.reify(e)
                    if et.op == 'const' and isinstance(et.a[0], str):
                        self.ev('colread', n, col=et.a[0], obj=c.term,
                                oid=b)
            return self.val(mk('cols', c.term, it), 'df', c.roots)
        self.ev('subscript', n, x=c.term, i=it, kx='df', ki=ic.kind, b=b)
        if ic.kind in ('arr', 'series', 'bool') or t.isbool(it):
            r = t.getitem(c.term, it)
            if c.pl and c.pl[0] == 'inst':
                d = {k: v for k, v in c.pl[2].items() if k[0] != '$'}
                return self.val(r, 'inst', pl=('inst', c.pl[1], d))
            return self.val(r, 'df')
        if it.op in ('cols', 'attr') or ic.kind == 'opaque':
            return self.val(mk('get', c.term, it), 'opaque',
                            c.roots)
        return self.val(mk('get', c.term, it), 'opaque', c.roots)

    def indexer_get(self, p, b, i, n):
        base, kind = p[1], p[2]
        c = self.c(base)
        it = self.reify(i)
        ic = self.c(i)
        els = self.concrete(i)
        if els is not None and len(els) == 2 and it.op == 'tuple':
            r, cl = self.reify(els[0]), self.reify(els[1])
            if cl.op == 'const' and isinstance(cl.a[0], str):
                if r.op == 'slc':
                    return self.column(base, c, cl.a[0], n)
                self.ev('colread', n, col=cl.a[0], obj=c.term, oid=base)
                col = mk('col', c.term, cl.a[0])
                rc = self.c(els[0])
                self.ev('subscript', n, x=col, i=r, kx='series',
                        ki=rc.kind, b=base, via=kind)
                if t.isbool(r) or rc.kind in ('arr', 'series'):
                    return self.val(t.getitem(col, r), 'series')
                return self.val(mk(kind, col, r), 'opaque')
        self.ev('subscript', n, x=c.term, i=it, kx=kind, ki=ic.kind, b=base,
                via=kind)
        if kind == 'iloc' and (t.isint(it) or it.op == 'slc'):
            r = t.getitem(c.term, it)
        elif t.isbool(it):
            r = t.getitem(c.term, it)
        else:
            r = mk(kind, c.term, it)
        if c.pl and c.pl[0] == 'inst' and (ic.kind in ('arr', 'series', 'list')
                                           or it.op == 'slc'):
            d = {k: v for k, v in c.pl[2].items() if k[0] != '$'}
            return self.val(r, 'inst', pl=('inst', c.pl[1], d))
        return self.val(r, c.kind if it.op == 'slc' or ic.kind in (
            'arr', 'series', 'list') else 'opaque', c.roots)

    def setitem(self, b, i, v, n):
        c = self.c(b)
        p = c.pl
        it = self.reify(i)
        vt = self.reify(v)
        if p and p[0] == 'dict':
            if c.roots:
                self.mutate(b, n, 'item assignment')
            k = self.ckey(i)
            d = dict(p[1])
            d[k] = (v, TRUE)
            self.st.set(b, c.but(pl=('dict', tuple(d.items()), p[2])))
            return
        if p and p[0] == 'list':
            els = self.concrete(b)
            if c.roots:
                self.mutate(b, n, 'item assignment')
            if els is not None and it.op == 'num' and \
                    -len(els) <= int(it.a[0]) < len(els):
                els[int(it.a[0])] = v
                self.st.set(b, c.but(pl=('list', tuple(('e', x)
                                                       for x in els))))
            else:
                self.st.set(b, c.but(pl=('list', (('u', mk(
                    'setitem', self.list_term(p[1]), it, vt)),))))
            return
        if p and p[0] == 'indexer':
            base = p[1]
            bc = self.c(base)
            self.ev('subscript', n, x=bc.term, i=it, kx=p[2],
                    ki=self.c(i).kind, b=base, store=True)
            self.mutate(base, n, f'.{p[2]} assignment')
            els = self.concrete(i)
            if els and len(els) == 2:
                cl = self.reify(els[1])
                if cl.op == 'const' and isinstance(cl.a[0], str) and \
                        self.reify(els[0]).op == 'slc':
                    return self.set_column(base, cl.a[0], v, n)
            self.rebase(base, mk('setloc', bc.term, it, vt))
            return
        if p and p[0] == 'inst' and p[1].is_df() or c.kind == 'df':
            if it.op == 'const' and isinstance(it.a[0], str):
                self.mutate(b, n, f'column {it.a[0]!r} assignment')
                self.ev('colwrite', n, col=it.a[0], obj=c.term, value=vt,
                        oid=b, kv=self.c(v).kind)
                return self.set_column(b, it.a[0], v, n)
            self.mutate(b, n, 'item assignment')
            self.ev('colwrite', n, col=it, obj=c.term, value=vt, oid=b)
            self.rebase(b, mk('setitem', c.term, it, vt))
            return
        if p and p[0] == 'inst':
            k, o = p[1].lookup('__setitem__')
            if o is not None:
                self.call(o, [b, i, v], {}, None, n)
                return
        self.ev('store', n, x=c.term, i=it, v=vt, kx=c.kind,
                ki=self.c(i).kind, b=b)
        self.inplace(b, mk('setitem', self.reifyC(c), it, vt), n,
                     'item assignment')

    def set_column(self, b, col, v, n):
        c = self.c(b)
        p = c.pl
        if p and p[0] == 'inst':
            d = dict(p[2])
            vc = self.c(v)
            d['$' + col] = self.val(self.reifyC(vc), 'series' if vc.kind in (
                'arr', 'series', 'num', 'opaque', 'list', 'phi') else
                'series')
            self.st.set(b, C(c.term, c.kind, c.roots, ('inst', p[1], d)))
        else:
            self.st.set(b, c.but(term=mk('setcol', c.term, col,
                                         self.reify(v))))

    def rebase(self, oid, term):
        c = self.c(oid)
        if c.pl and c.pl[0] == 'inst':
            d = {k: v for k, v in c.pl[2].items() if k[0] != '$'}
            self.st.set(oid, C(term, c.kind, c.roots,
                               ('inst', c.pl[1], d)))
        else:
            self.st.set(oid, c.but(term=term))

    def index_roots(self, c):
        if any(x.op == 'setattr' and x.a[1] == 'index' or x.op == 'resetidx'
               or (x.op in ('call', 'meth', 'df') and 'set_index' in
                   str(x.a[0]))
               for x in t.subterms(c.term).values()):
            return frozenset(r for r in c.roots if r[0] != '~')
        return c.roots

    def mutate(self, oid, node, how):
        c = self.c(oid)
        if not c.roots:
            return
        # '~x': shares the values of x, but not its columns, index and
        # attributes (a data frame constructed from another one)
        roots = c.roots
        if (how.startswith(('column ', 'attribute '))
                or (how.startswith('.') and how.endswith('='))
                or (c.kind in ('inst', 'df') and (
                    how.endswith('(inplace=True)')
                    or how in ('del item', 'pop', 'insert()')))):
            roots = frozenset(r for r in roots if r[0] != '~')
        else:
            roots = frozenset(r.lstrip('~') for r in roots)
        if roots:
            self.ev('mutate', node, roots=roots, how=how, term=c.term)

    def inplace(self, oid, term, node, how):
        """object content changes in place"""
        self.mutate(oid, node, how)
        c = self.c(oid)
        self.st.set(oid, C(term, c.kind, c.roots,
                           c.pl if c.pl and c.pl[0] == 'view' else None))
        if c.pl and c.pl[0] == 'view':
            b = self.st.get(c.pl[1])
            if b is not None and b.kind in ('arr', 'opaque'):
                self.st.set(c.pl[1], b.but(term=mk('setitem', b.term,
                                                   c.term, term)))

    def append(self, oid, v, node):
        c = self.c(oid)
        if c.roots:
            self.mutate(oid, node, 'append')
        if c.pl and c.pl[0] == 'list':
            self.st.set(oid, c.but(pl=('list', c.pl[1] + (('e', v),)),
                                   roots=c.roots))
        else:
            self.st.set(oid, c.but(term=mk('append', c.term,
                                           self.reify(v)), pl=None))

    def extend(self, oid, v, node):
        c = self.c(oid)
        if c.roots:
            self.mutate(oid, node, 'extend')
        vc = self.c(v)
        if c.pl and c.pl[0] == 'list':
            if vc.pl and vc.pl[0] == 'list':
                segs = vc.pl[1]
            elif vc.pl and vc.pl[0] == 'tuple':
                segs = tuple(('e', x) for x in vc.pl[1])
            else:
                segs = (('u', self.reifyC(vc)),)
            self.st.set(oid, c.but(pl=('list', c.pl[1] + segs)))
        else:
            self.st.set(oid, c.but(term=mk('extend', c.term,
                                           self.reify(v)), pl=None))

    # ================================================================ calls
    def e_Call(self, n):
        # method call on a value: evaluate receiver first
        args, kwargs, star = [], {}, None
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and \
                not n.args:
            fr = self.frames[-1]
            so = self.frame_vars(fr.foid).get(fr.fv.params[0]) if fr.fv and \
                fr.fv.params else None
            if so is None:
                # inside a comprehension frame
                for f in fr.fv.closure:
                    v = self.frame_vars(f)
                    if 'self' in v:
                        so = v['self']
                        break
            return self.val(mk('super', fr.cls.qual), 'opaque',
                            pl=('super', fr.cls, so))
        f = self.e(n.func)
        open_args = None
        for a in n.args:
            if isinstance(a, ast.Starred):
                o = self.e(a.value)
                els = self.concrete(o)
                if els is None:
                    open_args = self.reify(o)
                else:
                    args.extend(els)
            else:
                args.append(self.e(a))
        maybe = {}
        for kw in n.keywords:
            if kw.arg is None:
                o = self.e(kw.value)
                c = self.c(o)
                if c.pl and c.pl[0] == 'dict':
                    for k, (vo, cd) in c.pl[1]:
                        if isinstance(k, str):
                            kwargs[k] = vo
                            if cd is not TRUE:
                                maybe[k] = cd
                    if c.pl[2] is not None:
                        star = c.pl[2]
                else:
                    star = self.reifyC(c)
            else:
                kwargs[kw.arg] = self.e(kw.value)
        return self.call(f, args, kwargs, star, n, maybe=maybe,
                         open_args=open_args)

    def call(self, f, args, kwargs, star, node, maybe=None, open_args=None):
        c = self.c(f)
        p = c.pl
        if p is None:
            return self.call_opaque(c, args, kwargs, star, node)
        if p[0] == 'func':
            return self.call_func(p[1], args, kwargs, star, node, maybe,
                                  open_args)
        if p[0] == 'bound':
            return self.call_func(p[1], [p[2]] + args, kwargs, star, node,
                                  maybe, open_args)
        if p[0] == 'class':
            return self.instantiate(p[1], args, kwargs, star, node, maybe,
                                    open_args)
        if p[0] == 'ext':
            return self.call_ext(p[1], args, kwargs, star, node)
        if p[0] == 'extmeth':
            return self.call_meth(p[1], p[2], args, kwargs, star, node)
        if p[0] == 'superext':
            return self.call_superext(p[1], p[2], args, kwargs, star, node)
        if p[0] == 'inst':
            k, o = p[1].lookup('__call__')
            if o is not None:
                return self.call(o, [f] + args, kwargs, star, node, maybe,
                                 open_args)
        if p[0] == 'phi':
            a, b = self.new(p[2]), self.new(p[3])
            return self.fork(
                p[1],
                lambda: self.call(a, args, kwargs, star, node, maybe),
                lambda: self.call(b, args, kwargs, star, node, maybe))
        if p[0] == 'wrapsdeco' and args:
            return args[0]
        return self.call_opaque(c, args, kwargs, star, node)

    def call_opaque(self, c, args, kwargs, star, node):
        roots = frozenset().union(*[self.c(a).roots for a in args]) \
            if args else frozenset()
        self.callbacks(args + list(kwargs.values()), node)
        tm = mk('call', '?value', (self.reifyC(c),) + tuple(
            self.reify(a) for a in args), tuple(
                (k, self.reify(v)) for k, v in sorted(kwargs.items())))
        self.ev('opaquecall', node, term=tm)
        return self.val(tm, 'opaque', roots)

    # ----------------------------------------------------- project functions
    def call_func(self, fv, args, kwargs, star, node, maybe=None,
                  open_args=None):
        ov = self.overrides.get(fv.qual)
        if ov is not None:
            r = ov(self, fv, args, kwargs, node)
            if r is not None:
                return r
        depth = sum(1 for s in self.stack if s[0] == fv.qual)
        if depth >= 2 or len(self.stack) > MAXDEPTH:
            self.opaque_recursion += 1
            return self.val(mk('call', '?' + fv.qual, tuple(
                self.reify(a) for a in args), tuple(
                    (k, self.reify(v)) for k, v in sorted(kwargs.items()))))
        self.analysed.add(fv.qual)
        env, bound = self.bind_args(fv, args, kwargs, star, node, maybe or {},
                                    open_args)
        self.ev('call', node, callee=fv.qual, args=bound, fv=fv,
                star=star, oids=dict(env))
        foid = self.new(C(mk('frame', fv.qual), 'frame', pl=('frame', env)))
        fr = Frame(fv, foid, fv.module, fv.cls)
        site = self.site(node) if node is not None and self.frames else None
        self.frames.append(fr)
        self.stack.append((fv.qual, site))
        pre_pc = self.st.pc
        pre_log = self.st.log
        try:
            try:
                self.block(fv.node.body)
                fr.exits.append(Exit(self.st, None))
            except Dead:
                pass
        finally:
            self.frames.pop()
            self.stack.pop()
        if not fr.exits:
            raise Dead
        return self.join_exits(fr.exits, pre_pc, pre_log)

    def join_exits(self, exits, pre_pc, pre_log):
        if len(exits) == 1:
            x = exits[0]
            self.st = x.st
            self.st.log |= pre_log
            # keep facts implied by dead siblings, drop local path condition
            self.st.pc = pre_pc
            return x.oid if x.oid is not None else self.k(None)
        cur = exits[-1]
        cst, cv = cur.st, cur.oid
        if cv is None:
            self.st = cst
            cv = self.k(None)
        for x in reversed(exits[:-1]):
            conds = x.st.pc[len(pre_pc):]
            cond = t.and_(*conds) if conds else TRUE
            if cond is TRUE:
                cst, cv = x.st, x.oid
                if cv is None:
                    self.st = cst
                    cv = self.k(None)
                continue
            xv = x.oid
            if xv is None:
                self.st = x.st
                xv = self.k(None)
            diff = {o for o in set(x.st.heap) | set(cst.heap)
                    if x.st.heap.get(o) is not cst.heap.get(o)}
            a = x.st.copy()
            a.log = set(diff)
            b = cst.copy()
            b.log = set(diff)
            log = cst.log | x.st.log
            cst, cv = self.merge(cond, (a, xv), (b, cv), pre_pc)
            cst.log |= log
        cst.pc = pre_pc
        cst.log |= pre_log
        self.st = cst
        return cv

    def bind_args(self, fv, args, kwargs, star, node, maybe, open_args):
        a = fv.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env, bound = {}, {}
        args = list(args)
        kw = dict(kwargs)
        for i, nm in enumerate(names):
            if i < len(args):
                env[nm] = args[i]
        extra = args[len(names):]
        if a.vararg:
            env[a.vararg.arg] = self.mk_tuple(extra)
        elif extra:
            self.ev('raise', node, exc='TypeError',
                    msg=f'{fv.qual}: too many positional arguments')
            raise Dead
        nd = len(fv.defaults)
        dmap = dict(zip(names[len(names) - nd:], fv.defaults)) if nd else {}
        for x, d in zip(a.kwonlyargs, fv.kwdefaults):
            if d is not None:
                dmap[x.arg] = d
        allnames = names + [x.arg for x in a.kwonlyargs]
        for nm in allnames:
            if nm in kw:
                if nm in env:
                    self.ev('raise', node, exc='TypeError',
                            msg=f'{fv.qual}: multiple values for {nm}')
                    raise Dead
                o = kw.pop(nm)
                if nm in maybe and nm in dmap:
                    self._mg = {}
                    o = self.phi_oid(maybe[nm], o, dmap[nm], self.st.get,
                                     self.st.get)
                env[nm] = o
        for nm in allnames:
            if nm not in env:
                if nm in dmap:
                    env[nm] = dmap[nm]
                elif star is not None or open_args is not None:
                    env[nm] = self.val(mk('fromstar', star or open_args, nm))
                else:
                    self.ev('raise', node, exc='TypeError',
                            msg=f'{fv.qual}: missing argument {nm}')
                    raise Dead
        if a.kwarg:
            env[a.kwarg.arg] = self.val(
                mk('kwargs', tuple((k, self.reify(v))
                                   for k, v in sorted(kw.items())),
                   star if star is not None else NONE), 'dict',
                pl=('dict', tuple((k, (v, maybe.get(k, TRUE)))
                                  for k, v in kw.items()), star))
        elif kw:
            self.ev('raise', node, exc='TypeError',
                    msg=f'{fv.qual}: unexpected keyword {sorted(kw)}')
            raise Dead
        for k, v in env.items():
            bound[k] = self.reify(v, 3)
        return env, bound

    def instantiate(self, ci, args, kwargs, star, node, maybe=None,
                    open_args=None):
        n = self.loopn.get(ci.qual, 0)
        o = self.val(mk('new', ci.qual, str(self.site(node)),
                        len(self.stack)), 'inst', pl=('inst', ci, {}))
        self.ev('new', node, cls=ci.qual, oid=o,
                args=[self.reify(a) for a in args],
                kwargs={k: self.reify(v) for k, v in kwargs.items()})
        k, init = ci.lookup('__init__')
        if init is not None:
            self.call(init, [o] + list(args), kwargs, star, node, maybe,
                      open_args)
        elif ci.is_df():
            self.call_superext(o, '__init__', args, kwargs, star, node)
        return o

    def call_superext(self, selfoid, name, args, kwargs, star, node):
        c = self.c(selfoid)
        ts = tuple(self.reify(a) for a in args)
        ks = tuple((k, self.reify(v)) for k, v in sorted(kwargs.items()))
        self.ev('superext', node, name=name, args=ts, kwargs=dict(ks))
        if name == '__init__':
            if c.pl and c.pl[0] == 'inst' and c.pl[1].is_df():
                tm = mk('df', c.pl[1].qual, ts, ks,
                        star if star is not None else NONE)
                # content comes from the data argument
                roots = c.roots
                for a in args[:1]:
                    ac = self.c(a)
                    if ac.pl and ac.pl[0] == 'inst' and ac.pl[1].is_df() \
                            or ac.kind == 'df':
                        tm = ac.term
                        roots = roots | frozenset(
                            '~' + r.lstrip('~') for r in ac.roots)
                d = dict(c.pl[2])
                self.st.set(selfoid, C(tm, 'inst', roots,
                                       ('inst', c.pl[1], d)))
            return self.k(None)
        if name == '__finalize__':
            return selfoid
        if c.pl and c.pl[0] == 'inst' and c.pl[1].is_df():
            return self.call_meth(selfoid, name, args, kwargs, star, node)
        return self.val(mk('call', 'super.' + name,
                           (c.term,) + ts, ks), 'opaque', c.roots)

    def callbacks(self, oids, node):
        """functions handed to external code run an unknown number of times
        on unknown arguments"""
        for o in oids:
            c = self.c(o)
            if c.pl and c.pl[0] in ('func', 'bound'):
                fv = c.pl[1]
                ps = fv.params[(1 if c.pl[0] == 'bound' else 0):]
                nreq = len(ps) - len(fv.defaults)
                args = [self.val(mk('cbarg', fv.qual, x)) for x in ps[:nreq]]
                cond = mk('cb', fv.qual)
                try:
                    self.fork(cond, lambda: self.call(o, args, {}, None,
                                                      node) and None,
                              lambda: None)
                except Dead:
                    pass


from .model import ELEMENTWISE, SCALAR_CALLS, install, setop,\
    constants  # noqa: E402

install(Interp)

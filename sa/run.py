"""Abstract runs of public entry points under finite configurations."""
from . import terms as t
from .terms import mk, const, num, NONE, TRUE, FALSE, T
from .interp import Interp, C, State, Dead, ClassInfo
from .project import Project

INF = float('inf')


class Spec:
    """symbolic argument: a value of a given kind the caller passes"""

    def __init__(self, kind, lo=None, hi=None, elem=None, name=None,
                 cls=None, cols=None, attrs=None, strict=False, build=None,
                 nonempty=False, eq=None, colset=None):
        self.kind, self.lo, self.hi, self.elem = kind, lo, hi, elem
        self.name, self.cls, self.cols, self.attrs = name, cls, cols, attrs
        self.build = build
        self.eq = eq
        self.colset = colset


def arr(lo=None, hi=None, **k):
    return Spec('arr', lo, hi, **k)


def lst(elem=None, **k):
    return Spec('list', elem=elem, **k)


def number(lo=None, hi=None, **k):
    return Spec('num', lo, hi, **k)


def series(lo=None, hi=None, **k):
    return Spec('series', lo, hi, **k)


def opaque(**k):
    return Spec('opaque', **k)


def string(**k):
    return Spec('str', **k)


def boolean(**k):
    return Spec('bool', **k)


class Ref:
    """reference to a project object by qualified name"""

    def __init__(self, qual):
        self.qual = qual


class Run:
    def __init__(self, name):
        self.name = name
        self.args = {}
        self.out = None
        self.dead = False
        self.events = []
        self.st = None
        self.interp = None
        self.error = None

    def evs(self, *kinds):
        return [e for e in self.events if e.kind in kinds]

    # ---- looking into the exit state
    def c(self, oid):
        I = self.interp
        I.st = self.st
        return I.c(oid)

    def term(self, oid, depth=8):
        I = self.interp
        I.st = self.st
        return I.reify(oid, depth)

    def result(self):
        return None if self.dead else self.term(self.out)

    def attrs(self, oid):
        c = self.c(oid)
        if c.pl and c.pl[0] == 'inst':
            return dict(c.pl[2])
        return {}


class AnalysisError(Exception):
    pass


class Runner:
    def __init__(self, root):
        self.project = Project(root)
        self.I = Interp(self.project)
        for m in self.project.modules:
            self.I.module_frame(m)
        self._taint_static()
        self.analysed = set()
        self.nruns = 0
        self.steps = 0
        self.cache = {}
        self.prepare = None

    def _taint_static(self):
        """objects created at import time are shared by every call"""
        st = self.I.static
        for oid, c in list(st.heap.items()):
            if c.kind in ('list', 'dict', 'set', 'arr', 'df', 'series',
                          'opaque') and c.kind != 'frame':
                if c.pl and c.pl[0] in ('ext', 'mod', 'func', 'class'):
                    continue
                st.heap[oid] = c.but(roots=frozenset({'@shared'}))

    def qual(self, q):
        """static object for a public name, following re-exports"""
        parts = q.split('.')
        mods = self.project.modules
        for i in range(len(parts), 0, -1):
            mn = '.'.join(parts[:i])
            if mn in mods:
                foid = self.I.modframes[mn]
                v = self.I.static.get(foid).pl[1]
                cur = None
                for j, p in enumerate(parts[i:]):
                    if j == 0:
                        if p not in v:
                            raise AnalysisError(f'{q} not found')
                        cur = v[p]
                    else:
                        c = self.I.static.get(cur)
                        if c.pl and c.pl[0] == 'class':
                            k, cur = c.pl[1].lookup(p)
                            if cur is None:
                                raise AnalysisError(f'{q} not found')
                        else:
                            raise AnalysisError(f'{q} not found')
                if cur is None:
                    raise AnalysisError(f'{q} is a module')
                return cur
        raise AnalysisError(f'{q} not found')

    def has(self, q):
        try:
            self.qual(q)
            return True
        except AnalysisError:
            return False

    def classinfo(self, q):
        c = self.I.static.get(self.qual(q))
        if not (c.pl and c.pl[0] == 'class'):
            raise AnalysisError(f'{q} is not a class')
        return c.pl[1]

    def func(self, q):
        c = self.I.static.get(self.qual(q))
        if c.pl and c.pl[0] == 'func':
            return c.pl[1]
        if c.pl and c.pl[0] == 'property':
            return self.I.static.get(c.pl[1]).pl[1]
        raise AnalysisError(f'{q} is not a function')

    def params(self, q):
        fv = self.func(q)
        fv = getattr(fv, 'wrapped', fv)
        a = fv.node.args
        return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]

    def declares(self, q, k):
        c = self.I.static.get(self.qual(q))
        if not (c.pl and c.pl[0] == 'func'):
            return True
        return k in self.params(q)

    # ---------------------------------------------------------------- setup
    def begin(self, name, options=None, facts=None):
        I = self.I
        I.events = []
        I.errors = []
        I.frames = []
        I.stack = []
        I.dry = 0
        I.in_static = False
        I.kinds = {}
        I.intervals = {}
        I.nested = set()
        I.analysed = set()
        I.colsets = {}
        I.meth_hook = None
        I.ext_hook = None
        I.clean = set()
        I.factories = {}
        I.steps = 0
        I.st = State(base=I.static)
        opts = {'warnings': TRUE}
        opts.update(options or {})

        def get_option(I_, fv, args, kwargs, node):
            o = args[0] if args else kwargs.get('key')
            k = I_.reify(o) if o is not None else None
            if k is not None and k.op == 'const' and k.a[0] in opts:
                return I_.val(opts[k.a[0]], 'bool')
            return None
        I.overrides = {'seismostats.utils._config.get_option': get_option}
        r = Run(name)
        r.interp = I
        from .interp import Frame
        m = self.project.modules['seismostats']
        foid = I.new(C(mk('frame', 'entry'), 'frame', pl=('frame', {})))
        I.frames.append(Frame(None, foid, m, None))
        for k, v in (facts or {}).items():
            I.assume(I.st, k, v)
        self.cur = r
        if self.prepare is not None:
            self.prepare(I)
        return r

    def arg(self, name, spec, path=None):
        """build the symbolic argument"""
        I = self.I
        if not isinstance(spec, (Spec, Ref)):
            return self.konst(spec)
        if isinstance(spec, Ref):
            return self.qual(spec.qual)
        nm = spec.name or name
        if spec.build is not None:
            return spec.build(self, nm)
        if spec.kind == 'catalog':
            return self.catalog(nm, spec)
        tm = spec.eq if spec.eq is not None else mk('in', nm)
        I.kinds[nm] = spec.kind
        if spec.elem:
            I.kinds[nm + '[]'] = spec.elem
        if spec.lo is not None or spec.hi is not None:
            I.intervals[tm] = (-INF if spec.lo is None else spec.lo,
                               INF if spec.hi is None else spec.hi)
        roots = frozenset({nm}) if spec.kind not in ('num', 'bool', 'str') \
            else frozenset()
        if spec.kind != 'none':
            I.st.facts[t.isnone(tm)] = False
        return I.val(tm, spec.kind, roots)

    def konst(self, v):
        I = self.I
        if isinstance(v, (list, tuple)):
            els = [self.konst(x) for x in v]
            if isinstance(v, tuple):
                return I.mk_tuple(els)
            return I.val(mk('list0', 'arg', I.oids), 'list',
                         pl=('list', tuple(('e', x) for x in els)))
        if isinstance(v, dict):
            return I.val(mk('dict0', 'arg', I.oids), 'dict',
                         pl=('dict', tuple((k, (self.konst(x), TRUE))
                                           for k, x in v.items()), None))
        return I.k(v)

    def catalog(self, nm, spec):
        I = self.I
        ci = self.classinfo(spec.cls)
        attrs = {}
        I.kinds[nm] = 'df'
        for k, s in (spec.attrs or {}).items():
            attrs[k] = self.arg(nm + '.' + k, s)
        for k, s in (spec.cols or {}).items():
            tm = mk('col', mk('in', nm), k)
            if s is not None and (s.lo is not None or s.hi is not None):
                I.intervals[tm] = (-INF if s.lo is None else s.lo,
                                   INF if s.hi is None else s.hi)
        if spec.colset is not None:
            I.colsets[mk('in', nm)] = tuple(spec.colset)
        o = I.val(mk('in', nm), 'inst', frozenset({nm}),
                  ('inst', ci, attrs))
        return o

    # ------------------------------------------------------------- running
    def call(self, f, args=(), kwargs=None):
        """call object f in the current run; returns oid or None when the
        call cannot return normally"""
        I = self.I
        import ast
        node = ast.parse('entry()').body[0].value
        try:
            return I.call(f, list(args), dict(kwargs or {}), None, node)
        except Dead:
            return None

    def getattr(self, oid, name):
        import ast
        node = ast.parse('entry()').body[0].value
        try:
            return self.I.getattr(oid, name, node)
        except Dead:
            return None

    def finish(self, r, out):
        I = self.I
        r.out = out
        r.dead = out is None
        r.st = I.st
        r.events = I.events
        r.kinds = dict(I.kinds)
        r.intervals = dict(I.intervals)
        r.errors = list(I.errors)
        r.analysed = set(I.analysed)
        self.analysed |= I.analysed
        self.nruns += 1
        self.steps += I.steps
        return r

    def run(self, q, config, options=None, name=None, facts=None, star=None,
            pos=()):
        """run function `q` with keyword arguments built from config"""
        f = self.qual(q)
        r = self.begin(name or q, options, facts)
        kw = {}
        for k, s in config.items():
            if s is None and not self.declares(q, k):
                continue            # not passed on through **kwargs
            kw[k] = self.arg(k, s)
            r.args[k] = kw[k]
        self_ = kw.pop('self', None)
        args = [self_] if self_ is not None else []
        args += [kw.pop(p) for p in pos]
        out = self.call(f, args, kw)
        return self.finish(r, out)

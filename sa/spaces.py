"""Index spaces: which sequence of observations the entries of an array
belong to.

space(term) describes the origin of the entries of an array value: the rows
the caller passed, a selection of them by a mask, a permutation, a slice, ...
Two arrays may be combined entry by entry only when their spaces are equal;
a mask may select only from an array of its own space; positions may index
only the space they were computed in.  None means "unknown" and never causes
a report."""
from . import terms as t
from .terms import T, mk, num, NONE, TRUE, FALSE, ZERO, ONE
from .model import REDUCE, ELEMENTWISE, SCALAR_CALLS

SC = 'scalar'
ANY = 'any'          # neutral element of posref joins

GROUPS = {}
for _n in ('magnitudes times weights x_variable longitudes latitudes values '
           'x sample').split():
    GROUPS[_n] = 'rows'
for _n in ('list_magnitudes', 'list_times', 'list_mc', 'list_scaling'):
    GROUPS[_n] = 'subsets'
for _n in ('mcs_test', 'ks_ds_list'):
    GROUPS[_n] = 'mcs_test'
for _n in ('color_dots', 'c', 'dot_labels', 'mc'):
    GROUPS[_n] = 'rows'
GROUPS['w'] = None
GROUPS['color'] = 'mcs'


def root(s):
    while isinstance(s, tuple) and s[0] not in ('in', 'new', 'df', 'uniq',
                                                'cat', 'phi', 'hist', 'lit',
                                                'dfop'):
        s = s[1]
    return s


def uniform(x):
    """every entry of the array is the same scalar"""
    if x.op == 'full':
        return isinstance(x.a[1], T)
    if x.op in ('lin', 'mono'):
        return any(y.op not in ('num', 'const') and uniform(y)
                   for y, c in (x.a[1] if x.op == 'lin' else x.a[0])) and \
            all(uniform(y) or y.op in ('num', 'const', 'in', 'len', 'ext')
                for y, c in (x.a[1] if x.op == 'lin' else x.a[0]))
    if x.op in ('sel', 'take', 'slice', 'astype'):
        return uniform(x.a[0])
    return False

ELT_CALLS = set(ELEMENTWISE) | {'numpy.square', 'numpy.nan_to_num'}
SAMESHAPE = {'numpy.cumsum', 'numpy.cumprod', 'numpy.interp',
             'numpy.digitize', 'numpy.vectorize', 'numpy.gradient',
             'numpy.array', 'numpy.asarray', 'pandas.to_datetime',
             'pandas.Series'}


class Spaces:
    def __init__(self, kinds, groups=None, terms_=()):
        self.kinds = kinds
        self.groups = dict(GROUPS)
        self.groups.update(groups or {})
        self.memo = {}
        self.pmemo = {}
        self.folds = {}
        self.muing = set()
        self._seen = {}
        for x in terms_:
            self.index(x)

    def index(self, x):
        """collect loop folds so that loop variables can be resolved"""
        for y in t.subterms(x, self._seen).values() if False else ():
            pass
        stack = [x]
        while stack:
            y = stack.pop()
            if isinstance(y, tuple):
                stack.extend(y)
                continue
            if not isinstance(y, T) or y.id in self._seen:
                continue
            self._seen[y.id] = True
            if y.op == 'fold':
                self.folds.setdefault((y.a[0].id, y.a[1].id), []).append(
                    y.a[2])
            stack.extend(y.a)

    # ------------------------------------------------------------- spaces
    def space(self, x):
        r = self.memo.get(x.id, self)
        if r is not self:
            return r
        self.memo[x.id] = None          # recursion guard
        r = self._space(x)
        if self.muing:
            # result may rest on an open loop assumption: do not keep it
            del self.memo[x.id]
        else:
            self.memo[x.id] = r
        return r

    def joint(self, xs):
        """space of an entry-wise combination of terms"""
        if any(uniform(x) for x in xs) and not all(
                uniform(x) or self.space(x) == SC for x in xs):
            xs = [x for x in xs if not uniform(x)]
        return self.join([self.space(x) for x in xs])

    def join(self, sps):
        out = SC
        for s in sps:
            if s is None:
                return None
            if s == SC:
                continue
            if out == SC:
                out = s
            elif out != s:
                if self.diffeq(out, s):
                    out = s if out[0] == 'diff' else out
                    continue
                return None
        return out

    @staticmethod
    def diffeq(a, b):
        """diff(x) may be paired with the earlier or the later entry"""
        if isinstance(a, tuple) and isinstance(b, tuple):
            if b[0] == 'diff':
                a, b = b, a
            if a[0] == 'diff' and b[0] == 'slice' and b[1] == a[1] and (
                    b[2:] in ((ONE, NONE, NONE), (NONE, num(-1), NONE))):
                return True
            if a[0] == b[0] == 'sel' and a[2] == b[2]:
                return Spaces.diffeq(a[1], b[1])
        return False

    def _in(self, nm):
        k = self.kinds.get(nm)
        if k in ('arr', 'series', 'list'):
            g = self.groups.get(nm, nm)
            return ('in', g) if g else None
        if k in ('num', 'bool', 'str', 'none'):
            return SC
        return None

    def _space(self, x):
        o, a = x.op, x.a
        sp = self.space
        if o == 'in':
            return self._in(a[0])
        if o in ('const', 'num', 'ext', 'len', 'pos', 'it', 'isnone', 'inf',
                 'attrsize', 'truth', 'contains', 'in_', 'uninit', 'class'):
            return SC
        if o == 'lin':
            return self.joint([y for y, c in a[1]])
        if o == 'mono':
            return self.joint([y for y, c in a[0]])
        if o in ('exp10', 'not', 'eqself', 'astype', 'ne'):
            return sp(a[0])
        if o == 'cmp':
            return sp(a[1])
        if o in ('eq', 'and', 'or'):
            return self.join([sp(y) for y in a])
        if o == 'phi':
            p, q = sp(a[1]), sp(a[2])
            if p == q:
                return p
            if a[1] is NONE or a[1] is t.UNBOUND:
                return q
            if a[2] is NONE or a[2] is t.UNBOUND:
                return p
            return ('phi', a[0], p, q)
        if o == 'sel':
            return self.selsp(sp(a[0]) if a[0].op != 'dfx' else None, a[1])
        if o == 'take':
            s = sp(a[1])
            if s == SC:
                return self.elem(a[0], a[1])
            return s
        if o == 'nz':
            s = sp(a[0])
            return None if s in (None, SC) else self.selsp(s, a[0])
        if o == 'argsort':
            s = sp(a[0])
            return None if s in (None, SC) else ('perm', s, x)
        if o == 'slice':
            s = sp(a[0])
            return None if s in (None, SC) else self.slicesp(
                s, a[0], a[1], a[2], a[3])
        if o == 'diff':
            s = sp(a[0])
            return None if s in (None, SC) else ('diff', s)
        if o in ('at', 'get'):
            return self.elem(a[0], a[1])
        if o == 'full':
            n = a[0]
            if n.op == 'len':
                s = sp(n.a[0])
                return None if s == SC else s
            return None
        if o == 'setitem':
            return sp(a[0])
        if o == 'mu':
            return self.mu(x)
        if o == 'fold':
            p, q = sp(a[1]), sp(a[2])
            if p == q:
                return p
            return None
        if o == 'last':
            return sp(a[1])
        if o == 'map':
            lid, it, cond, e = a
            s = sp(it)
            if s in (None, SC):
                return None
            if cond is TRUE:
                return s
            m = self.unat(cond, lid)
            return None if m is None else self.selsp(s, m)
        if o == 'uniq':
            base = a[1]
            if a[0] == 'return_inverse':
                s = sp(base.a[1][0])
                return None if s in (None, SC) else s
            return sp(base)
        if o == 'item':
            return self.item(x)
        if o == 'col':
            s = self.rows(a[0])
            return s
        if o == 'index':
            return self.rows(a[0])
        if o == 'rng':
            kw = dict(a[2]) if len(a) > 2 else {}
            n = kw.get('size')
            if n is not None and n.op == 'len':
                s = sp(n.a[0])
                return None if s == SC else s
            return None
        if o == 'call':
            return self.callsp(x)
        if o == 'attr' and sp(a[0]) == SC:
            return SC
        return None

    def mu(self, x):
        lid, b = x.a[0], (x.a[1] if isinstance(x.a[1], T) else x.a[2])
        s = self.space(b)
        if s is None:
            return None
        if x.id in self.muing:
            return s
        outs = self.folds.get((lid.id, b.id))
        if not outs:
            return None
        self.muing.add(x.id)
        try:
            ok = all(self.space(y) == s for y in outs)
        finally:
            self.muing.discard(x.id)
        return s if ok else None

    def callsp(self, x):
        name, args = x.a[0], x.a[1]
        kw = dict(x.a[2]) if len(x.a) > 2 else {}
        sp = self.space
        if name in REDUCE:
            return SC if kw.get('axis') is None else None
        if name in SCALAR_CALLS or name in ('builtins.len',):
            return SC
        if name in ELT_CALLS:
            if name in ('numpy.isin', 'meth.isin', 'numpy.clip'):
                return sp(args[0])
            return self.join([sp(y) for y in args])
        if name in SAMESHAPE and args:
            return sp(args[0])
        if name == 'numpy.unique':
            s = sp(args[0])
            return None if s in (None, SC) else ('uniq', args[0])
        if name in ('numpy.searchsorted',):
            v = kw.get('v') or (args[1] if len(args) > 1 else None)
            return sp(v) if v is not None else None
        if name == 'numpy.arange':
            if len(args) == 1 and not kw and args[0].op == 'len':
                s = sp(args[0].a[0])
                return None if s == SC else s
            return ('new', x)
        if name in ('numpy.linspace', 'numpy.logspace', 'numpy.geomspace'):
            return ('new', x)
        if name == 'decimal.Decimal':
            return SC
        if name.startswith('meth.') and args and args[0].op == 'call' and \
                args[0].a[0] == 'decimal.Decimal':
            return SC
        if name == 'builtins.sorted' and args and not kw:
            s = sp(args[0])
            return None if s in (None, SC) else ('perm', s, mk(
                'argsort', args[0]))
        if name == 'numpy.delete' and len(args) > 1:
            s = sp(args[0])
            return None if s in (None, SC) else ('del', s, args[1])
        if name == 'numpy.bincount':
            y = args[0]
            if y.op == 'uniq' and y.a[0] == 'return_inverse':
                return sp(y.a[1])
            return None
        if name in ('numpy.concatenate', 'numpy.hstack', 'numpy.append'):
            parts = args
            if name != 'numpy.append' and len(args) == 1 and \
                    args[0].op in ('list', 'tuple'):
                parts = args[0].a
            ss = [('lit', len(y.a)) if y.op in ('list', 'tuple')
                  else sp(y) for y in parts]
            if any(s is None or s == SC for s in ss):
                return None
            return ('cat',) + tuple(ss)
        if name == 'numpy.percentile':
            return None
        return None

    def item(self, x):
        b, i = x.a
        if b.op == 'call' and b.a[0] == 'numpy.histogram':
            kw = dict(b.a[2])
            bins = kw.get('bins') or (b.a[1][1] if len(b.a[1]) > 1 else None)
            if bins is None:
                return None
            s = self.space(bins)
            if s in (None, SC):
                s = ('new', mk('item', b, ONE))
            if i is ONE:
                return s
            return self.slicesp(s, bins, NONE, num(-1), NONE)
        return None

    def elem(self, x, i):
        """space of an element of the sequence x"""
        if i.op == 'pos':
            i = i.a[0]
        if x.op == 'in':
            k = self.kinds.get(x.a[0] + '[]')
            if k in ('arr', 'list'):
                return ('elem', self.groups.get(x.a[0], x.a[0]), i)
            return SC if self.kinds.get(x.a[0]) in ('arr', 'series') or k \
                else None
        if x.op == 'map':
            s = self.space(x.a[3])
            if s == SC:
                return SC
            return None
        if x.op == 'call' and x.a[0] in ('numpy.array_split', 'numpy.split'):
            s = self.space(x.a[1][0])
            if s in (None, SC) or len(x.a[1]) < 2:
                return None
            return ('elem', ('split', s, x.a[1][1]), i)
        if x.op == 'phi':
            p, q = self.elem(x.a[1], i), self.elem(x.a[2], i)
            return p if p == q else None
        if x.op in ('sel', 'take', 'slice'):
            s = self.elem(x.a[0], i)
            if s == SC:
                return SC
            if s is None:
                return None
            return ('elem', self.space(x), i) if self.space(x) else None
        if x.op == 'popped':
            s = self.elem(x.a[0], i)
            if s == SC or s is None:
                return s
            return ('elem', ('popped', s[1]) + tuple(x.a[1:]), i)
        s = self.space(x)
        if s is None:
            return None
        if x.op in ('lin', 'mono', 'cmp', 'diff', 'argsort', 'nz', 'full',
                    'astype', 'col', 'exp10', 'and', 'or', 'not', 'uniq',
                    'setitem', 'fold', 'item'):
            return SC
        if x.op == 'call' and x.a[0] in (ELT_CALLS | SAMESHAPE | {
                'numpy.unique', 'numpy.arange', 'numpy.searchsorted'}):
            return SC
        return None

    def rows(self, df):
        """row space of a data frame term"""
        o, a = df.op, df.a
        if o == 'in':
            if self.kinds.get(a[0]) == 'df' and a[0] in ('self', 'cat',
                                                         'catalog'):
                return ('in', 'rows')
            return ('df', a[0])
        if o == 'sel':
            return self.selsp(self.rows(a[0]), a[1])
        if o == 'take':
            return self.space(a[1])
        if o == 'slice':
            s = self.rows(a[0])
            return None if s is None else ('slice', s) + tuple(a[1:])
        if o in ('resetidx', 'colset', 'setcol', 'cols'):
            return self.rows(a[0])
        if o == 'call' and a[0] in ('df.drop', 'df.rename', 'df.astype',
                                    'df.fillna', 'df.assign', 'df.round',
                                    'df.filter', 'df.select_dtypes',
                                    'df.replace', 'df.add_prefix',
                                    'df.set_index'):
            kw = dict(a[2])
            if a[0] == 'df.drop' and not ('columns' in kw or kw.get('axis')
                                          in (ONE, t.const('columns'))):
                return None
            return self.rows(a[1][0])
        if o == 'call' and a[0].startswith('df.'):
            return ('dfop', df)
        if o == 'mu' or o == 'fold' or o == 'phi':
            if o == 'phi':
                p, q = self.rows(a[1]), self.rows(a[2])
                return p if p == q else None
            return None
        return None

    # -------------------------------------------------- canonical selections
    def selsp(self, s, m):
        if s in (None, SC):
            return None
        if isinstance(s, tuple) and s[0] == 'sel':
            m2 = self.pull(m, s[2])
            if m2 is not None:
                return ('sel', s[1], t.and_(s[2], m2))
        return ('sel', s, m)

    def pull(self, m, m1):
        """express mask m over entries selected by m1 on the unselected
        entries, or None"""
        sp = self.space(m)
        if sp == SC:
            return m
        o, a = m.op, m.a
        if o == 'sel':
            return a[0] if a[1] is m1 else None
        rec = lambda y: self.pull(y, m1)
        if o == 'lin':
            r = num(a[0])
            for y, c in a[1]:
                z = rec(y)
                if z is None:
                    return None
                r = t.add(r, t.mul(num(c), z))
            return r
        if o == 'mono':
            r = ONE
            for y, e in a[0]:
                z = rec(y)
                if z is None:
                    return None
                r = t.mul(r, t.power(z, num(e)))
            return r
        if o == 'cmp':
            z = rec(a[1])
            return None if z is None else mk('cmp', a[0], z)
        if o == 'not':
            z = rec(a[0])
            return None if z is None else t.not_(z)
        if o in ('and', 'or', 'eq'):
            zs = [rec(y) for y in a]
            if any(z is None for z in zs):
                return None
            return {'and': t.and_, 'or': t.or_, 'eq': t.eq}[o](*zs)
        if o == 'call' and a[0] in ELT_CALLS:
            zs = [rec(y) for y in a[1]]
            if any(z is None for z in zs):
                return None
            return mk('call', a[0], tuple(zs), a[2])
        return None

    def slicesp(self, s, x, lo, hi, st):
        def norm(b, lower):
            if b is NONE:
                return b
            if lower and b is ZERO:
                return NONE
            if b.op == 'len' and self.space(b.a[0]) == s and not lower:
                return NONE
            if b.op == 'lin':
                rest = []
                n = 0
                for y, c in b.a[1]:
                    if y.op == 'len' and c == 1 and \
                            self.space(y.a[0]) == s:
                        n += 1
                    else:
                        rest.append((y, c))
                if n == 1 and not rest and b.a[0] < 0:
                    return num(b.a[0])
            return b
        lo, hi = norm(lo, True), norm(hi, False)
        if st is ONE:
            st = NONE
        if lo is NONE and hi is NONE and st is NONE:
            return s
        if lo is NONE and hi is NONE and st is num(-1):
            if isinstance(s, tuple) and s[0] == 'rev':
                return s[1]
            return ('rev', s)
        return ('slice', s, lo, hi, st)

    def unat(self, cond, lid):
        """mask over the iterated sequence from a per-element condition"""
        bad = []

        def f(x):
            if x.op == 'at' and x.a[1] is lid:
                return x.a[0]
            if x.op == 'get' and x.a[1].op == 'pos' and x.a[1].a[0] is lid:
                return x.a[0]
            return None
        r = t.rewrite(cond, f)
        for y in t.subterms(r).values():
            if y is lid:
                bad.append(y)
        return None if bad else r

    # -------------------------------------------------------------- posref
    def posref(self, x):
        """space whose positions the integer entries of x are (ANY: neutral,
        None: unknown)"""
        r = self.pmemo.get(x.id, self)
        if r is not self:
            return r
        self.pmemo[x.id] = ANY
        r = self._posref(x)
        self.pmemo[x.id] = r
        return r

    def pjoin(self, ps):
        out = ANY
        for p in ps:
            if p is None:
                return None
            if p == ANY:
                continue
            if out == ANY:
                out = p
            elif out != p:
                return None
        return out

    def _posref(self, x):
        o, a = x.op, x.a
        kn = lambda s: None if s in (None, SC) else s
        if o == 'nz':
            return kn(self.space(a[0]))
        if o == 'argsort':
            return kn(self.space(a[0]))
        if o == 'pos':
            return kn(self.space(a[1]))
        if o == 'it':
            hi = a[2]
            if hi.op == 'len':
                return kn(self.space(hi.a[0]))
            if hi.op == 'lin' and len(hi.a[1]) == 1 and \
                    hi.a[1][0][0].op == 'len' and hi.a[1][0][1] == 1:
                return kn(self.space(hi.a[1][0][0].a[0]))
            return None
        if o in ('sel', 'take', 'slice'):
            if o == 'take' and a[0].op in ('in',):
                return None
            return self.posref(a[0])
        if o in ('at', 'get'):
            return self.posref(a[0])
        if o == 'astype':
            return self.posref(a[0])
        if o == 'num':
            return ANY
        if o == 'const':
            return ANY
        if o == 'full':
            return self.posref(a[1]) if isinstance(a[1], T) else None
        if o == 'setitem':
            return self.pjoin([self.posref(a[0]), self.posref(a[2])])
        if o == 'fold':
            return self.pjoin([self.posref(a[1]), self.posref(a[2])])
        if o == 'mu':
            b = a[1] if isinstance(a[1], T) else a[2]
            return self.posref(b)
        if o == 'phi':
            p, q = self.posref(a[1]), self.posref(a[2])
            if a[1] is NONE or a[1] is t.UNBOUND or p == ANY:
                return q
            if a[2] is NONE or a[2] is t.UNBOUND or q == ANY:
                return p
            if p == q:
                return p
            return ('phi', a[0], p, q)
        if o == 'lin' and len(a[1]) == 1 and a[1][0][1] == 1:
            p = self.posref(a[1][0][0])
            if isinstance(p, tuple):
                if p[0] == 'diff' and a[0] == 1:
                    return p[1]
                if p[0] == 'slice' and p[2] is num(a[0]) and p[4] is NONE:
                    return p[1]
            return None
        if o == 'call':
            nm = a[0]
            if nm == 'numpy.arange' and len(a[1]) == 1 and \
                    a[1][0].op == 'len':
                return kn(self.space(a[1][0].a[0]))
            if nm in ('numpy.argmax', 'numpy.argmin'):
                return kn(self.space(a[1][0]))
            return None
        if o == 'uniq':
            if a[0] == 'return_index':
                return kn(self.space(a[1].a[1][0]))
            if a[0] == 'return_inverse':
                return kn(self.space(a[1]))
            return None
        if o == 'range':
            if a[0] is ZERO and a[1].op == 'len':
                return kn(self.space(a[1].a[0]))
            return None
        if o == 'index':
            if a[0].op == 'resetidx':
                return self.rows(a[0])
            return ('label', a[0])
        if o == 'map':
            if a[3].op == 'pos' and a[3].a[0] is a[0]:
                return kn(self.space(a[3].a[1]))
            return self.posref(a[3]) if a[3].op in ('at', 'get') else None
        return None

    # ------------------------------------------------------------- compare
    def conds(self, s, out):
        if isinstance(s, tuple):
            if s and s[0] == 'phi':
                if s[1] not in out:
                    out.append(s[1])
                self.conds(s[2], out)
                self.conds(s[3], out)
            else:
                for y in s[1:]:
                    if isinstance(y, tuple):
                        self.conds(y, out)
        return out

    def resolve(self, s, asg):
        if isinstance(s, tuple):
            if s and s[0] == 'phi':
                return self.resolve(s[2 if asg[s[1]] else 3], asg)
            r = []
            for y in s:
                if isinstance(y, tuple):
                    y = self.resolve(y, asg)
                    if y is None:
                        return None
                    if y == SC and s[0] != 'cat':
                        return SC if s[0] in ('sel', 'slice') else None
                r.append(y)
            return tuple(r)
        return s

    def mismatch(self, a, b, pc=(), strict=False, lenient_pos=False):
        """a pair of known, different spaces a and b can take together, or
        None"""
        if a is None or b is None or a == b:
            return None
        cs = self.conds(a, [])
        self.conds(b, cs)
        if len(cs) > 8:
            return None
        known = {}
        for c in pc:
            known[c] = True
            if c.op == 'not':
                known[c.a[0]] = False
            elif c.op == 'and':
                for y in c.a:
                    known[y] = True
                    if y.op == 'not':
                        known[y.a[0]] = False
        free = [c for c in cs if c not in known]
        for bits in range(1 << len(free)):
            asg = dict(known)
            for i, c in enumerate(free):
                asg[c] = bool(bits >> i & 1)
            p, q = self.resolve(a, asg), self.resolve(b, asg)
            if p is None or q is None or p == q or p == SC or q == SC:
                continue
            if ANY in (p, q):
                continue
            rp, rq = root(p), root(q)
            if rp != rq and 'new' in (rp[0], rq[0]):
                continue
            if 'cat' in (p[0], q[0]):
                if p[0] != q[0] or len(p) != len(q):
                    continue
                for y, z in zip(p[1:], q[1:]):
                    m = None if 'lit' in (y[0], z[0]) else self.mismatch(
                        y, z, (), strict, lenient_pos)
                    if m:
                        return m
                continue
            if self.diffeq(p, q):
                if not strict:
                    continue
                if self.canon_diff(p) == self.canon_diff(q):
                    continue
            if lenient_pos and self.subpos(p, q):
                continue
            return p, q
        return None

    def canon_diff(self, s):
        if isinstance(s, tuple):
            if s[0] == 'diff':
                return ('slice', s[1], ONE, NONE, NONE)
            return tuple(self.canon_diff(y) if isinstance(y, tuple) else y
                         for y in s)
        return s

    @staticmethod
    def subpos(p, q):
        """positions in q[:-1] / diff(q) are positions in q as well"""
        return isinstance(p, tuple) and p[0] in ('diff', 'slice') and \
            p[1] == q and (p[0] == 'diff' or p[2] is NONE)


def show(s, depth=5):
    if isinstance(s, T):
        return t.show(s, depth)
    if not isinstance(s, tuple):
        return str(s)
    k = s[0]
    if k == 'in':
        return {'rows': 'the caller\'s rows'}.get(s[1], f'entries of {s[1]}')
    if k == 'sel':
        return f'{show(s[1], depth)} where {show(s[2], depth)}'
    if k == 'perm':
        return f'{show(s[1], depth)} ordered by {show(s[2], depth)}'
    if k == 'slice':
        f = lambda z: '' if z is NONE else show(z, 3)
        return f'{show(s[1], depth)} [{f(s[2])}:{f(s[3])}:{f(s[4])}]'
    if k == 'diff':
        return f'consecutive pairs of {show(s[1], depth)}'
    if k == 'rev':
        return f'{show(s[1], depth)} reversed'
    if k == 'df':
        return f'rows of {s[1]}'
    if k == 'label':
        return 'row labels'
    return '<' + ' '.join(show(y, depth) for y in s) + '>'

"""P20: local coordinates, polygons and bounding boxes."""
from .. import terms as t
from ..terms import mk, TRUE, NONE, ZERO
from .common import done, site_of

RULE = 'the coordinates returned must be, as value numbers, the projection '\
       '(always in x, y order, from the external to the local system and '\
       'back) shifted by the reference point, for points with and without '\
       'altitude (zero included) and for the vertices of polygons alike; '\
       'boxes and bounds must name the same four limits'
ASSUMPTIONS = ['Transformer.from_proj(A, B) and (B, A) are inverse to each '
               'other', 'shapely transform and translate act vertex by '
               'vertex; the z offset does not concern polygons without z']
MOD = 'seismostats.utils.coordinates.'
TR = MOD + 'CoordinateTransformer'
KNOWN = {'num', 'in', 'lin', 'mono', 'const', 'proj', 'phi', 'cmp', 'eq',
         'isnone', 'not', 'and', 'or', 'truth'}
PROJ_ARGS = ('proj_from', 'proj_to', 'always_xy')
CRS_ARGS = ('crs_from', 'crs_to', 'always_xy')


def tasks(R, tier):
    for ref in ('given', 'omitted', 'proj', 'zero'):
        for z in ('none', 'omitted', 'value', 'zero', 'arr'):
            for m in ('to_local_coords', 'from_local_coords'):
                yield ('point', m, ref, z)
        for z in (False, True):
            for m in ('polygon_to_local_coords', 'polygon_from_local_coords'):
                yield ('polygon', m, ref, z)
    yield ('box',)
    yield ('bounds',)


def work(R, task, out):
    globals()['do_' + task[0]](R, out, *task[1:])


def proj(A, B, xy, i, x, y, z):
    """coordinate i of (x, y, z) of system A in system B"""
    if x.op == y.op == 'proj' and x.a[:3] == (B, A, xy) == y.a[:3] and \
            x.a[4:] == y.a[4:] and x.a[3] == 0 and y.a[3] == 1:
        p = x.a[4:]
        if z is NONE and p[2] is NONE or z.op == 'proj' and \
                z.a == x.a[:3] + (2,) + p:
            return p[i]
    return mk('proj', A, B, xy, i, x, y, z)


def install(R, I):
    def systems(rt):
        if rt.op != 'call' or not str(rt.a[0]).startswith('pyproj.'):
            return None
        names = {'from_proj': PROJ_ARGS, 'from_crs': CRS_ARGS}.get(
            rt.a[0].split('.')[-1])
        if names is None:
            return None
        d = dict(zip(names, rt.a[1]))
        d.update(dict(rt.a[2]))
        if names[0] not in d or names[1] not in d:
            return None
        xy = d.get('always_xy', t.FALSE)
        if xy.op != 'const' or set(d) - set(names):
            return None
        return d[names[0]], d[names[1]], xy is TRUE

    def meth(recv, rt, name, args, kwargs, node):
        if name != 'transform':
            return None
        s = systems(rt)
        if s is None:
            return None
        A, B, xy = s
        d = dict(zip(('xx', 'yy', 'zz'), args))
        d.update(kwargs)
        direction = d.pop('direction', None)
        if set(d) - {'xx', 'yy', 'zz'} or len(args) > 3 or \
                'xx' not in d or 'yy' not in d:
            return None
        if direction is not None:
            x = t.show(I.reify(direction))
            if 'INVERSE' in x:
                A, B = B, A
            elif 'FORWARD' not in x:
                return None
        c = [I.reify(d[k]) if k in d else NONE for k in ('xx', 'yy', 'zz')]
        n = 2 if c[2] is NONE else 3
        return I.mk_tuple([I.val(proj(A, B, xy, i, *c), 'arr')
                           for i in range(n)])

    def poly(x, y, z):
        return I.val(mk('poly', x, y, z), 'opaque')

    def ext(name, args, kwargs, node):
        last = name.split('.')[-1]
        if not name.startswith('shapely'):
            return None
        d = dict(kwargs)
        if last == 'translate':
            d.update(zip(('geom', 'xoff', 'yoff', 'zoff'), args))
            g = I.reify(d.pop('geom'))
            off = [I.reify(d[k]) if k in d else ZERO
                   for k in ('xoff', 'yoff', 'zoff')]
            if g.op != 'poly':
                return None
            z = g.a[2]
            return poly(t.add(g.a[0], off[0]), t.add(g.a[1], off[1]),
                        z if z is NONE else t.add(z, off[2]))
        if name == 'shapely.ops.transform':
            d.update(zip(('func', 'geom'), args))
            g = I.reify(d['geom'])
            if g.op != 'poly':
                return None
            c = [I.val(x, 'arr') for x in g.a if x is not NONE]
            r = I.call(d['func'], c, {}, None, node)
            els = I.concrete(r)
            if els is None or len(els) not in (2, 3):
                return None
            ts = [I.reify(x) for x in els]
            return poly(*(ts + [NONE])[:3])
        if last == 'box':
            d.update(zip(('minx', 'miny', 'maxx', 'maxy', 'ccw'), args))
            ts = [I.reify(d[k]) for k in ('minx', 'miny', 'maxx', 'maxy')
                  if k in d]
            if len(ts) == 4:
                return I.val(mk('ring', (ts[0], ts[1]), (ts[2], ts[1]),
                                (ts[2], ts[3]), (ts[0], ts[3])), 'opaque')
        if last == 'Polygon' and len(args) == 1:
            els = I.concrete(args[0])
            if els is None:
                return None
            pts = []
            for e in els:
                c = I.concrete(e)
                if c is None or len(c) != 2:
                    return None
                pts.append(tuple(I.reify(x) for x in c))
            return I.val(mk('ring', *pts), 'opaque')
        return None
    I.meth_hook = meth
    I.ext_hook = ext


def transformer(R, ref):
    """(transformer object, reference point)"""
    I = R.I
    loc, ext_ = mk('in', 'local_proj'), mk('in', 'external_proj')
    kw = {'local_proj': I.val(loc, 'opaque'),
          'external_proj': I.val(ext_, 'opaque')}
    r = [mk('in', n) for n in ('ref_easting', 'ref_northing',
                               'ref_altitude')]
    if ref == 'omitted':
        r = [ZERO] * 3
    else:
        for n, x in zip(('ref_easting', 'ref_northing', 'ref_altitude'), r):
            kw[n] = I.val(x, 'num')
            I.assume(I.st, t.isnone(x), False)
            I.assume(I.st, t.eq(x, ZERO), ref == 'zero')
            I.assume(I.st, mk('truth', x), ref != 'zero')
    if ref == 'proj':
        p = mk('in', 'ref_proj')
        kw['ref_proj'] = I.val(p, 'opaque')
        I.assume(I.st, t.isnone(p), False)
        I.assume(I.st, mk('truth', p), True)
        r = [proj(p, loc, True, 0, r[0], r[1], NONE),
             proj(p, loc, True, 1, r[0], r[1], NONE), r[2]]
    return R.call(R.qual(TR), [], kw), r, loc, ext_


def known(x):
    return all(not isinstance(y, t.T) or y.op in KNOWN
               for y in t.subterms(x).values())


def simp(I, x):
    """resolve the cases decided by the assumptions"""
    n = 0
    while x.op == 'phi' and n < 20:
        d = I.decide(x.a[0])
        if d is None:
            return x
        x = x.a[1] if d else x.a[2]
        n += 1
    return x


def zeroed(I, x, zs):
    return t.rewrite(x, lambda y: ZERO if y in zs else y) if zs else x


def cmp_(R, out, names, got, want, m, lab, zs=()):
    I = R.I
    for n, g, w in zip(names, got, want):
        out.ob('coordinate')
        g = zeroed(I, simp(I, g), zs)
        w = zeroed(I, w, zs)
        if g is w:
            continue
        if g is NONE or w is NONE or known(g):
            out.flag('coordinate', site_of(I, TR + '.' + m), n,
                     f'{n} of {m} is {t.show(g, 5)[:100]} instead of '
                     f'{t.show(w, 5)[:100]} ({lab})', lab)


def do_point(R, out, m, ref, z):
    lab = f'reference {ref}, altitude {z}'
    r = R.begin(lab)
    I = R.I
    install(R, I)
    tr, rp, loc, ex = transformer(R, ref)
    a = [mk('in', n) for n in ('x', 'y', 'z')]
    kind = 'arr' if z == 'arr' else 'num'
    args = [I.val(a[0], kind), I.val(a[1], kind)]
    if z in ('value', 'zero', 'arr'):
        args.append(I.val(a[2], kind))
        I.assume(I.st, t.isnone(a[2]), False)
        if z == 'zero':
            I.assume(I.st, t.eq(a[2], ZERO), True)
            I.assume(I.st, mk('truth', a[2]), False)
        elif z == 'value':
            I.assume(I.st, t.eq(a[2], ZERO), False)
            I.assume(I.st, mk('truth', a[2]), True)
    elif z == 'none':
        args.append(I.k(None))
    f = R.getattr(tr, m) if tr is not None else None
    o = R.call(f, args, {}) if f is not None else None
    r = R.finish(r, o)
    done(out, r)
    out.ob('call')
    if r.dead:
        out.flag('raises', site_of(I, TR + '.' + m), m,
                 f'{m} raises ({lab})', lab)
        return
    for e in r.evs('truth'):
        if z == 'arr' and e.d.get('kind') == 'arr':
            out.flag('truth of array', e.site, m, f'{m} takes the truth '
                     'value of an array of coordinates', lab)
    els = I.concrete(o)
    if els is None:
        return
    zz = NONE if z in ('none', 'omitted') else a[2]
    if m == 'to_local_coords':
        want = [t.sub(proj(ex, loc, True, i, a[0], a[1], zz), rp[i])
                for i in range(3)]
    else:
        b = [t.add(x, y) for x, y in zip(a, rp)]
        bz = NONE if zz is NONE else b[2]
        want = [proj(loc, ex, True, i, b[0], b[1], bz) for i in range(3)]
    if zz is NONE:
        want[2] = NONE
    zs = set(rp) if ref == 'zero' else set()
    if z == 'zero':
        zs |= {a[2]}
    if len(els) != 3:
        out.flag('coordinate', site_of(I, TR + '.' + m), 'number',
                 f'{m} returns {len(els)} coordinates ({lab})', lab)
        return
    cmp_(R, out, ('easting', 'northing', 'altitude') if m[0] == 't' else
         ('longitude', 'latitude', 'altitude'),
         [I.reify(x) for x in els], want, m, lab, zs)


def do_polygon(R, out, m, ref, z):
    lab = f'reference {ref}, vertices with{"" if z else "out"} altitude'
    r = R.begin(lab)
    I = R.I
    install(R, I)
    tr, rp, loc, ex = transformer(R, ref)
    a = [mk('in', n) for n in ('x', 'y', 'z')]
    if not z:
        a[2] = NONE
    orig = I.opaque_attr

    def attr(oid, c, name, node):
        if c.term.op == 'poly' and name == 'has_z':
            return I.k(c.term.a[2] is not NONE)
        return orig(oid, c, name, node)
    I.opaque_attr = attr
    try:
        f = R.getattr(tr, m) if tr is not None else None
        o = R.call(f, [I.val(mk('poly', *a), 'opaque')], {}) \
            if f is not None else None
    finally:
        del I.opaque_attr
    r = R.finish(r, o)
    done(out, r)
    if o is None:
        return
    p = I.reify(o)
    if p.op != 'poly':
        return
    if m == 'polygon_to_local_coords':
        want = [t.sub(proj(ex, loc, True, i, *a), rp[i]) for i in range(3)]
    else:
        b = [t.add(x, y) for x, y in zip(a[:2], rp)]
        bz = NONE if not z else t.add(a[2], rp[2])
        want = [proj(loc, ex, True, i, b[0], b[1], bz) for i in range(3)]
    if not z:
        want[2] = NONE
    cmp_(R, out, ('x', 'y', 'z'), p.a, want, m, lab,
         set(rp) if ref == 'zero' else set())


def do_box(R, out):
    lab = 'bounding_box_to_polygon'
    r = R.begin(lab)
    I = R.I
    install(R, I)
    n = ('x_min', 'x_max', 'y_min', 'y_max')
    a = {k: mk('in', k) for k in n}
    o = R.call(R.qual(MOD + lab), [I.val(a[k], 'num') for k in n], {})
    r = R.finish(r, o)
    done(out, r)
    if o is None:
        return
    g = I.reify(o)
    if g.op != 'ring':
        return
    out.ob('corners')
    pts = list(g.a)
    if len(pts) > 1 and pts[0] == pts[-1]:
        pts.pop()
    want = {(a[x], a[y]) for x in n[:2] for y in n[2:]}
    ok = len(pts) == 4 and set(pts) == want and all(
        (p[0] is q[0]) != (p[1] is q[1])
        for p, q in zip(pts, pts[1:] + pts[:1]))
    if not ok and all(known(x) for p in pts for x in p):
        out.flag('corners', site_of(I, MOD + lab), 'corners',
                 f'{lab} has the corners '
                 f'{[tuple(t.show(x) for x in p) for p in pts]}', lab)


def do_bounds(R, out):
    lab = 'polygon_to_bounding_box'
    r = R.begin(lab)
    I = R.I
    b = [mk('in', n) for n in ('minx', 'miny', 'maxx', 'maxy')]
    orig = I.opaque_attr

    def attr(oid, c, name, node):
        if name == 'bounds':
            return I.mk_tuple([I.val(x, 'num') for x in b])
        return orig(oid, c, name, node)
    I.opaque_attr = attr
    try:
        o = R.call(R.qual(MOD + lab), [I.val(mk('in', 'polygon'),
                                             'opaque')], {})
    finally:
        del I.opaque_attr
    r = R.finish(r, o)
    done(out, r)
    els = I.concrete(o) if o is not None else None
    if els is None:
        return
    out.ob('bounds')
    got = [I.reify(x) for x in els]
    if got != b and all(known(x) for x in got):
        out.flag('bounds', site_of(I, MOD + lab), 'bounds', f'{lab} returns '
                 f'{[t.show(x) for x in got]} instead of '
                 f'{[t.show(x) for x in b]}', lab)

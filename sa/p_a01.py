"""A01: named getters, indexed getters, setters, constructors and conversions agree on the axes."""
from base import *
import p_m05


def run(c):
    n_types = 0
    for dim, tr in ((2, 'Is2D'), (3, 'Is3D')):
        names = AX[:dim]
        for im, ty in c.types_with(tr):
            n_types += 1
            c.guard('%s.%s' % (ty, tr), one_type, c, ty, tr, dim, names)
        for im, ty in c.types_with('IsEditable%dD' % dim):
            c.guard('%s.edit%d' % (ty, dim), editable, c, ty, tr, dim, names)
        for im, ty in c.types_with('IsBuildable%dD' % dim):
            c.guard('%s.build%d' % (ty, dim), buildable, c, ty, tr, dim, names)
        c.guard('provided%d' % dim, provided, c, tr, dim, names)
    c.guard('convert', convert, c)
    c.guard('compressed', compressed, c)
    c.guard('compress', compress, c)
    c.floor('coordinate types', n_types, 16)
    return {'rule': 'Every type implementing Is2D/Is3D is found in the source; the value-flow normal forms of getter, indexed getter, setter, '
            'constructor and conversion are composed with each other and must reduce to the identity on each axis.'}


def getter(c, ty, tr, k):
    return c.m(ty, tr, AX[k])


def inner_hook(c, dim, tr):
    """contract of an uninterpreted inner position"""
    nat = nat_hook(c.p)

    def hook(e, t):
        if t.op == 'call' and t.a[0] == 'IsND::position_nd':
            k = e.number(e.ev(t.a[1][1]))
            if 0 <= k < dim:
                return evalt.Agg(OPT, 1, [e.ev(calls('%s::%s' % (tr, AX[int(k)]), t.a[1][0]))])
            return evalt.Agg(OPT, 0, [])
        if t.op == 'isv' and t.a[0].op == 'call' and t.a[0].a[0] == 'IsND::position_nd':
            k = e.number(e.ev(t.a[0].a[1][1]))
            return (t.a[1] == 1) == (0 <= k < dim)
        return nat(e, t)
    return hook


def one_type(c, ty, tr, dim, names):
    s = sym('self')
    hook = inner_hook(c, dim, tr)
    ax = [c.val(getter(c, ty, tr, k), s) for k in range(dim)]
    pu = c.m(ty, 'IsND', 'position_nd')
    for k in range(dim):
        r = c.call(pu, s, num(k))
        c.eq('%s.position_nd(%d)' % (ty, k), r.ret, some(ax[k]), pu, 'position_nd(%d) must be %s()' % (k, AX[k]), hook=hook)
    d = sym('n_dim')
    r = c.call(pu, s, d)
    c.holds('%s.position_nd(>=%d)' % (ty, dim), is_none(r.ret), pu, 'dimensions the type does not have are refused',
            pc=as_bdd(cmp('ge', d, num(dim), False)), hook=lambda e, t: Fraction(dim + e.seed % 4) if t is d else hook(e, t))
    nu = c.m(ty, 'IsND', 'n_dimensions')
    nd = c.val(nu)
    if not (nd.op == 'call'):
        c.eq(ty + '.n_dimensions', nd, num(dim), nu, 'number of dimensions')
    # wrappers
    if ty == 'Box':
        for k in range(dim):
            c.eq('Box.%s' % AX[k], ax[k], calls('%s::%s' % (tr, AX[k]), s), getter(c, ty, tr, k), 'boxed position')
        return
    try:
        new = c.m(ty, '', 'new')
    except Missing:
        new = None
    if new is not None and c.p.bodies[new]['argc'] == 1 and c.p.bodies[new]['kind'] == 'fn' and 'IsBuildable' not in c.p.label(new):
        it = c.p.rt(c.p.bodies[new]['locals'][1][0])
        if it[0] == 'adt' and c.has(c.p.type_name(it), tr, 'x'):
            inner = c.p.type_name(it)
            v = sym('inner')
            w = c.val(new, v)
            for k in range(dim):
                c.eq('%s.wraps.%s' % (ty, AX[k]), c.val(getter(c, ty, tr, k), w), c.val(getter(c, inner, tr, k), v), getter(c, ty, tr, k),
                     'the wrapped %s and its wrapper must agree on %s' % (inner, AX[k]))
    a = c.adt(ty)
    for f, t, pub in a['v'][0][1]:
        tt = c.p.rt(t)
        if pub and f == 'center' and tt[0] == 'adt':
            pt = c.p.type_name(tt)
            v = c.struct(pt, 'center')
            w = c.struct(ty, 's', center=v)
            for k in range(dim):
                c.eq('%s.center.%s' % (ty, AX[k]), c.val(getter(c, ty, tr, k), w), c.val(getter(c, pt, tr, k), v), getter(c, ty, tr, k),
                     'position of the shape is its centre')
    if c.has(ty, '', 'min_p') and c.has(ty, '', 'center_bb'):
        # box given by corners: position is the centre
        lo, hi, ce = (c.val(c.m(ty, '', n), s) for n in ('min_p', 'max_p', 'center_bb'))
        pt = 'Point%dD' % dim
        for k in range(dim):
            g = getter(c, pt, tr, k)
            mid = mul(num(Fraction(1, 2)), add(c.val(g, lo), c.val(g, hi)))
            c.eq('%s.centre.%s' % (ty, AX[k]), ax[k], mid, getter(c, ty, tr, k), 'position of a bounding box is its centre')
            c.eq('%s.center_bb.%s' % (ty, AX[k]), c.val(g, ce), mid, c.m(ty, '', 'center_bb'), 'centre of a bounding box')


def editable(c, ty, tr, dim, names):
    s = sym('self')
    et = 'IsEditable%dD' % dim
    val = sym('val')
    before = [c.val(getter(c, ty, tr, k), s) for k in range(dim)]
    sp = c.m(ty, 'IsEditableND', 'set_position')
    for k in range(dim):
        u = c.m(ty, et, 'set_' + AX[k])
        after = c.call(u, s, val).post(0)
        for j in range(dim):
            got = c.val(getter(c, ty, tr, j), after)
            c.eq('%s.set_%s.%s' % (ty, AX[k], AX[j]), got, val if j == k else before[j], u, 'set_%s then %s()' % (AX[k], AX[j]))
        r = c.call(sp, s, num(k), val)
        c.holds('%s.set_position(%d).ok' % (ty, k), is_ok(r.ret), sp, 'an existing axis can be set')
        for j in range(dim):
            got = c.val(getter(c, ty, tr, j), r.post(0))
            c.eq('%s.set_position(%d).%s' % (ty, k, AX[j]), got, val if j == k else before[j], sp, 'set_position(%d) then %s()' % (k, AX[j]))
    d = sym('n_dim')
    nat = nat_hook(c.p)
    hk = lambda e, t: Fraction(dim + e.seed % 4) if t is d else nat(e, t)
    r = c.call(sp, s, d, val)
    pc = as_bdd(cmp('ge', d, num(dim), False))
    c.holds('%s.set_position(>=%d)' % (ty, dim), is_err(r.ret), sp, 'a missing axis is refused', pc=pc, hook=hk)
    c.eq('%s.set_position(>=%d).unchanged' % (ty, dim), r.post(0), s, sp, 'a refused edit changes nothing', pc=pc, hook=hk)
    # provided setters
    vs = [sym('v' + n) for n in names]
    u = c.on(ty, et, 'set_' + ''.join(names))
    after = c.call(u, s, *vs).post(0)
    for j in range(dim):
        c.eq('%s.set_%s.%s' % (ty, ''.join(names), AX[j]), c.val(getter(c, ty, tr, j), after), vs[j], u, 'setting all axes')


def buildable(c, ty, tr, dim, names):
    bt = 'IsBuildable%dD' % dim
    vs = [sym('v' + n) for n in names]
    new = c.m(ty, bt, 'new')
    w = c.val(new, *vs)
    for j in range(dim):
        c.eq('%s.new.%s' % (ty, AX[j]), c.val(getter(c, ty, tr, j), w), vs[j], new, 'constructor then %s()' % AX[j])
    s, o = sym('self'), sym('other')
    fr = c.m(ty, bt, 'from')
    after = c.call(fr, s, o).post(0)
    for j in range(dim):
        c.eq('%s.from.%s' % (ty, AX[j]), c.val(getter(c, ty, tr, j), after), calls('%s::%s' % (tr, AX[j]), o), fr, 'taking over a position')
    nf = c.on(ty, bt, 'new_from')
    w = c.val(nf, o)
    for j in range(dim):
        c.eq('%s.new_from.%s' % (ty, AX[j]), c.val(getter(c, ty, tr, j), w), calls('%s::%s' % (tr, AX[j]), o), nf, 'copy of a position')
    nn = c.m(ty, 'IsBuildableND', 'new_nd')
    for n in range(0, dim + 2):
        cs = [sym('c%d' % i) for i in range(n)]
        r = c.call(nn, mk('agg', 'array', 0, tuple(cs)))
        if n == dim:
            c.holds('%s.new_nd.ok' % ty, is_ok(r.ret), nn, 'as many numbers as dimensions are accepted')
            for j in range(dim):
                c.eq('%s.new_nd.%s' % (ty, AX[j]), c.val(getter(c, ty, tr, j), okval(r.ret)), cs[j], nn, 'coordinates by index')
        else:
            c.holds('%s.new_nd(%d)' % (ty, n), is_err(r.ret), nn, 'a wrong number of coordinates is refused')
    for pd in (2, 3):
        pt = 'Point%dD' % pd
        fn = c.on(ty, 'IsBuildableND', 'from_nd', P=c.ty(pt))
        o = c.struct(pt, 'o')
        r = c.call(fn, s, o)
        if pd == dim:
            c.holds('%s.from_nd.ok' % ty, is_ok(r.ret), fn, 'a position of the same dimension is accepted')
            for j in range(dim):
                c.eq('%s.from_nd.%s' % (ty, AX[j]), c.val(getter(c, ty, tr, j), r.post(0)), c.val(getter(c, pt, tr, j), o), fn, 'taking over by index')
        else:
            c.holds('%s.from_nd.other' % ty, is_err(r.ret), fn, 'a position of another dimension is refused')
            c.eq('%s.from_nd.unchanged' % ty, r.post(0), s, fn, 'a refused edit changes nothing')
    z = c.on(ty, bt, 'zero')
    w = c.val(z)
    for j in range(dim):
        c.eq('%s.zero.%s' % (ty, AX[j]), c.val(getter(c, ty, tr, j), w), num(0), z, 'origin')
    ce = c.on(ty, bt, 'center')
    w = c.val(ce, s, o2(c, dim))
    for j in range(dim):
        want = mul(num(Fraction(1, 2)), add(c.val(getter(c, ty, tr, j), s), calls('%s::%s' % (tr, AX[j]), o2(c, dim))))
        c.eq('%s.center.%s' % (ty, AX[j]), c.val(getter(c, ty, tr, j), w), want, ce, 'midpoint')


def o2(c, dim):
    return sym('other')


def provided(c, tr, dim, names):
    pt = 'Point%dD' % dim
    v = c.struct(pt, 'p')
    ax = [c.val(getter(c, pt, tr, k), v) for k in range(dim)]
    combos = [names] if dim == 2 else [('x', 'y', 'z'), ('x', 'y'), ('x', 'z'), ('y', 'z')]
    for cs in combos:
        u = c.on(pt, tr, ''.join(cs))
        r = c.val(u, v)
        for i, n in enumerate(cs):
            c.eq('%s.%s[%d]' % (tr, ''.join(cs), i), engine.sel(r, num(i)), ax[AX.index(n)], u, 'array of coordinates')
    for k in range(dim):
        c.eq('%s.field.%s' % (pt, AX[k]), ax[k], c.get(v, pt, AX[k]), getter(c, pt, tr, k), 'public field of the point')


def convert(c):
    u = c.on('Point3D', 'IsTransFormableTo2D', 'transform_to_2d', P=c.ty('Point2D'))
    v = c.struct('Point3D', 'p')
    w = c.val(u, v)
    for k in range(2):
        c.eq('to_2d.%s' % AX[k], c.val(getter(c, 'Point2D', 'Is2D', k), w), c.val(getter(c, 'Point3D', 'Is3D', k), v), u, 'projection')
    u = c.on('Point2D', 'IsTransFormableTo3D', 'transform_to_3d', P=c.ty('Point3D'))
    v = c.struct('Point2D', 'p')
    z = sym('z')
    w = c.val(u, v, z)
    for k in range(3):
        c.eq('to_3d.%s' % AX[k], c.val(getter(c, 'Point3D', 'Is3D', k), w), c.val(getter(c, 'Point2D', 'Is2D', k), v) if k < 2 else z, u, 'embedding')
    # storage with its own coordinate layout
    for tgt in ('PointCloud2D', 'PointCloud3D', 'PointCloud3Df32'):
        dim = 2 if '2D' in tgt else 3
        tr, pt = 'Is%dD' % dim, 'Point%dD' % dim
        P = c.ty(pt)
        data = mk('agg', 'array', 0, tuple(sym('d%d' % i) for i in range(6)))
        vs = c.struct(pt, 'p')
        get = c.on(tgt, 'IsDataContainer', 'get_d', P=P)
        ps = c.on(tgt, 'IsDataContainer', 'push_d', P=P)
        st = c.on(tgt, 'IsDataContainer', 'set_d', P=P)
        ln = c.on(tgt, 'IsDataContainer', 'len_d', P=P)
        empty = c.val(c.on(tgt, '', 'new', P=P))
        cloud = empty
        pts = []
        for i in range(3):
            q = c.struct(pt, 'p%d' % i)
            pts.append(q)
            cloud = c.call(ps, cloud, q).post(0)
        check_cloud(c, tgt + '.push_d', cloud, pts, get, ln, pt, tr, dim, ps)
        for i in range(3):
            q = c.struct(pt, 'q')
            cl = c.call(st, cloud, num(i), q).post(0)
            check_cloud(c, '%s.set_d(%d)' % (tgt, i), cl, pts[:i] + [q] + pts[i + 1:], get, ln, pt, tr, dim, st)


def check_cloud(c, key, cloud, pts, get, ln, pt, tr, dim, uid):
    c.eq(key + '.len', c.val(ln, cloud), num(len(pts)), uid, 'number of stored positions')
    for i, q in enumerate(pts):
        g = c.val(get, cloud, num(i))
        c.holds('%s.get(%d)' % (key, i), is_some(g), uid, 'stored position can be read')
        for k in range(dim):
            c.eq('%s.get(%d).%s' % (key, i, AX[k]), c.val(getter(c, pt, tr, k), someval(g)), c.val(getter(c, pt, tr, k), q), uid, 'stored coordinate')
    c.holds(key + '.end', is_none(c.val(get, cloud, num(len(pts)))), uid, 'reading past the end')


def compressed(c):
    ty, el = 'CompressedPointCloud3D', 'CompressedPoint3D'
    P = c.ty('Point3D')
    units = c.struct(el, 'u')
    cl = c.struct(ty, 'c', start=c.struct('Point3D', 'start'), data=mk('agg', 'array', 0, (units,)))
    de = c.on(ty, '', 'decompress', P=P)
    r = c.call(de, cl)
    pts = c.get(r.ret, 'PointCloud3D', 'data')
    tof = [x for x in subterms(r.ret) if x.op == 'call' and str(x.a[0]).endswith('to_f64')]
    for k in range(3):
        u = c.get(units, el, 'units' + AX[k])
        mine = [x for x in tof if u in children(x)] or [None]
        if mine[0] is None:
            c.fail('decompress.' + AX[k], 'the stored %s units are not used' % AX[k], de)
            continue
        num_k = getk(mine[0], ('v', 1, 0))
        want = add(c.get(c.get(cl, ty, 'start'), 'Point3D', AX[k]), mul(c.get(cl, ty, 'unitsize' + AX[k]), num_k))
        pc = T
        for x in tof:
            pc = band(pc, is_variant(x, 1, 2))
        c.eq('decompress.' + AX[k], getk(engine.sel(restrict(pts, pc), num(0)), ('f', c.fidx('Point3D', AX[k]))), want, de, 'decompressed coordinate', pc=pc)


def compress(c):
    ty, el = 'CompressedPointCloud3D', 'CompressedPoint3D'
    P = c.ty('Point3D')
    bbm = c.m('PointCloud3D', 'HasBoundingBox3DMaybe', 'bounding_box_maybe')
    u = c.on(ty, '', 'compress', P=P)
    p = c.struct('Point3D', 'p')
    pc = c.struct('PointCloud3D', 'pc', data=mk('agg', 'array', 0, (p,)))
    r = c.call(u, pc, noinline=[bbm])
    okc = is_ok(r.ret)
    v = okval(r.ret)
    bbs = [x for x in subterms(r.ret) if x.op == 'call' and x.a[0] == c.opname(bbm)]
    mx = [x for x in subterms(r.ret) if x.op == 'call' and str(x.a[0]).endswith('to_f64')]
    if len(bbs) != 1 or len(mx) != 1:
        c.undecided('compress', 'shape of the computation not recognised')
        return
    bb, m = getk(bbs[0], ('v', 1, 0)), getk(mx[0], ('v', 1, 0))
    lo, hi = c.val(c.m('BoundingBox3D', '', 'min_p'), bb), c.val(c.m('BoundingBox3D', '', 'max_p'), bb)
    for k in range(3):
        l, h = c.get(lo, 'Point3D', AX[k]), c.get(hi, 'Point3D', AX[k])
        us = fdiv(fabs(sub(h, l)), m)
        c.eq('compress.start.' + AX[k], c.get(c.get(v, ty, 'start'), 'Point3D', AX[k]), l, u, 'origin of the compressed cloud', pc=okc)
        c.eq('compress.unitsize.' + AX[k], c.get(v, ty, 'unitsize' + AX[k]), us, u, 'size of one unit', pc=okc)
    there_and_back(c, u, bbm)


WIDTHS = (8, 16, 32, 64, 128)


def conv_hook(c, width):
    """conversions between f64 and an unsigned number of the given width, as the num crate documents them"""
    top = 2 ** width - 1
    nat = nat_hook(c.p)

    def some(x):
        return evalt.Agg('core::option::Option', 1, (x,))

    def h(e, t):
        if t.op == 'call':
            n, a = str(t.a[0]), t.a[1]
            if n.endswith('Bounded::max_value'):
                return Fraction(top)
            if n.endswith('Bounded::min_value') or n.endswith('Zero::zero'):
                return Fraction(0)
            if n.endswith('One::one'):
                return Fraction(1)
            if n.endswith('to_f64') and len(a) == 1:
                x = e.number(e.ev(a[0]))
                return some(Fraction(float(x)) if x.denominator == 1 else x)
            if n.endswith('NumCast::from') and len(a) == 1:
                x = e.number(e.ev(a[0]))
                if -1 < x < top + 1:
                    return some(Fraction(int(x)))
                return evalt.Agg('core::option::Option', 0, ())
        return nat(e, t)
    return h


def there_and_back(c, u, bbm):
    ty = 'CompressedPointCloud3D'
    lo, hi, t = [sym('lo.' + a) for a in AX], [sym('hi.' + a) for a in AX], sym('t')
    pt = c.adt('Point3D')['d']
    proper = T
    for l, h in zip(lo, hi):
        proper = band(proper, as_bdd(cmp('lt', l, h, True)))
    inside = band(as_bdd(cmp('le', num(0), t, True)), as_bdd(cmp('le', t, num(1), True)))
    de = c.on(ty, '', 'decompress', P=c.ty('Point3D'))
    new = c.m('BoundingBox3D', '', 'new')
    new = (new, p_m05.fullsub(c, new, **{g: c.ty('Point3D') for g in c.p.bodies[new]['g'] if g and not g.startswith("'")}))
    for nm, f in (('lowest', num(0)), ('highest', num(1)), ('between', t)):
        q = [add(l, mul(f, sub(h, l))) for l, h in zip(lo, hi)]
        pc = c.struct('PointCloud3D', 'pc', data=mk('agg', 'array', 0, (agg(pt, 0, tuple(q)),)))
        r = c.call(u, pc, noinline=[bbm])
        bbs = [x for x in subterms(r.ret) if x.op == 'call' and x.a[0] == c.opname(bbm)]
        if len(bbs) != 1:
            c.undecided('compress.back.' + nm, 'shape of the computation not recognised')
            return
        box = some(okval(c.call(new, agg(pt, 0, tuple(lo)), agg(pt, 0, tuple(hi))).ret))
        ret = subst(r.ret, {bbs[0]: box})
        back = c.get(c.call(de, okval(ret)).ret, 'PointCloud3D', 'data')
        pcd = band(proper, inside if nm == 'between' else T)
        for w in WIDTHS:
            kw = dict(hook=conv_hook(c, w))
            c.holds('compress.accepted.%s.u%d' % (nm, w), is_ok(ret), u, 'a cloud inside its bounding box can be compressed', pc=pcd, **kw)
            c.eq('compress.count.%s.u%d' % (nm, w), engine.length(back), num(1), u, 'number of points after compressing and decompressing', pc=pcd, **kw)
            for k in range(3):
                got = getk(engine.sel(back, num(0)), ('f', c.fidx('Point3D', AX[k])))
                unit = mul(sub(hi[k], lo[k]), num(Fraction(1, 2 ** w - 1) + Fraction(1, 2 ** 50)))
                c.holds('compress.back.%s.u%d.%s' % (nm, w, AX[k]), as_bdd(cmp('le', fabs(sub(got, q[k])), unit, True)), u,
                        'a coordinate comes back within one step', pc=pcd, **kw)

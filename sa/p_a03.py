"""A03: bounding boxes enclose everything they are computed from."""
from geom import *


def run(c):
    for dim in (2, 3):
        c.guard('new%d' % dim, construct, c, dim)
        c.guard('from%d' % dim, from_points, c, dim)
        c.guard('merge%d' % dim, merge, c, dim)
        c.guard('shapes%d' % dim, shapes, c, dim)
        c.guard('own%d' % dim, own, c, dim)
        c.guard('sizes%d' % dim, sizes, c, dim)
        c.guard('maybe%d' % dim, maybe, c, dim)
        c.guard('sets%d' % dim, sets, c, dim)
        c.guard('converted%d' % dim, converted, c, dim)
    c.guard('f32', f32cloud, c)
    c.guard('triface', triface, c)
    c.guard('unaligned', unaligned, c)
    c.guard('collider', collider, c)
    return {'rule': 'The corners of every computed box, as value-flow normal forms over the inputs, must be the per-axis minimum and maximum of the inputs '
            '(any number of points: closed form of the accumulation loop), construction must succeed exactly for strictly ordered corners.',
            'assumptions': ['coordinates are numbers (not NaN)', 'real arithmetic (rounding ignored)']}


def expect_box(c, key, bb, lo, hi, uid, what, pc=T):
    dim = len(lo)
    l, h = bb_corners(c, dim, bb)
    for k in range(dim):
        c.eq('%s.min.%s' % (key, AX[k]), l[k], lo[k], uid, what, pc=pc)
        c.eq('%s.max.%s' % (key, AX[k]), h[k], hi[k], uid, what, pc=pc)


def construct(c, dim):
    u = c.m(bbname(dim), '', 'new')
    a, b = sym('a'), sym('b')
    A, B_ = uninterp_axes(dim, a), uninterp_axes(dim, b)
    r = c.call(u, a, b)
    good = conj(lt(A[k], B_[k]) for k in range(dim))
    c.eq('new%d.ok' % dim, B(is_ok(r.ret)), B(good), u, 'a box is constructed exactly for strictly ordered corners')
    expect_box(c, 'new%d' % dim, okval(r.ret), A, B_, u, 'corner of the constructed box', pc=good)


def from_points(c, dim):
    P = c.ty('Point%dD' % dim)
    vec = ('adt', 'alloc::vec::Vec', (P, ('adt', 'alloc::alloc::Global', ())))
    It = 'It%dD' % dim
    for name, it in (('from_iterator', ('ref', False, vec)), ('from_into_iterator', vec)):
        uid = c.m(bbname(dim), '', name)
        par = {n: it for n in c.p.bodies[uid]['g'] if n.startswith('It')}
        u = c.on(bbname(dim), '', name, P=P, **par)
        for n in range(0, 5):
            pts = [point_syms(c, dim, 'p%d' % i) for i in range(n)]
            r = c.call(u, mk('ref', ('E', 'src'), ()) if False else mk('agg', 'array', 0, tuple(pts)))
            key = '%s%d(%d)' % (name, dim, n)
            if n < 2:
                c.holds(key, is_err(r.ret), uid, 'too few points')
                continue
            lo = [mins([coord(c, dim, p, k) for p in pts]) for k in range(dim)]
            hi = [maxs([coord(c, dim, p, k) for p in pts]) for k in range(dim)]
            good = conj(lt(lo[k], hi[k]) for k in range(dim))
            c.eq(key + '.ok', B(is_ok(r.ret)), B(good), uid, 'a box exists exactly when the points span one')
            expect_box(c, key, okval(r.ret), lo, hi, uid, 'box of %d points' % n, pc=good)
        v = sym('points')
        r = c.call(u, v)
        n = engine.length(v)
        b = mk('bv', 'k')
        lo = [mk('bigmin', n, b, coord(c, dim, engine.sel(v, b), k)) for k in range(dim)]
        hi = [mk('bigmax', n, b, coord(c, dim, engine.sel(v, b), k)) for k in range(dim)]
        good = band(as_bdd(cmp('ge', n, num(2), False)), conj(lt(lo[k], hi[k]) for k in range(dim)))
        key = '%s%d' % (name, dim)
        c.eq(key + '.ok', B(is_ok(r.ret)), B(good), uid, 'a box exists exactly when the points span one', maxlen=5)
        expect_box(c, key, okval(r.ret), lo, hi, uid, 'box of any number of points', pc=good)


def merge(c, dim):
    a, alo, ahi, av_ = box(c, dim, 'a')
    b, blo, bhi, bv_ = box(c, dim, 'b')
    pc = band(av_, bv_)
    lo = [mkmin(alo[k], blo[k]) for k in range(dim)]
    hi = [mkmax(ahi[k], bhi[k]) for k in range(dim)]
    u = c.m(bbname(dim), 'IsMergeable', 'consume')
    expect_box(c, 'consume%d' % dim, c.call(u, a, b).post(0), lo, hi, u, 'box grown by another', pc)
    u = c.m(bbname(dim), 'IsMergeable', 'combine')
    expect_box(c, 'combine%d' % dim, c.val(u, a, b), lo, hi, u, 'box of two boxes', pc)


def shapes(c, dim):
    for ty, v, cc, half, inv, u in shape_values(c, dim):
        r = c.call(u, v, pc=inv)
        expect_box(c, ty, r.ret, [sub(cc[k], half[k]) for k in range(dim)], [add(cc[k], half[k]) for k in range(dim)], u,
                   'centre minus/plus half extent', inv)
        if ty.startswith('Box'):
            for n, s in (('min_p', -1), ('max_p', 1)):
                uu = c.m(ty, '', n)
                w = c.val(uu, v)
                for k in range(dim):
                    c.eq('%s.%s.%s' % (ty, n, AX[k]), coord(c, dim, w, k), add(cc[k], mul(num(s), half[k])), uu, 'corner of a box')
            uu = c.m(ty, '', 'sizes')
            w = c.val(uu, v)
            for k in range(dim):
                c.eq('%s.sizes.%s' % (ty, AX[k]), posval(c, engine.sel(w, num(k)))[0], mul(num(2), half[k]), uu, 'sizes by axis', pc=inv)


def own(c, dim):
    b, lo, hi, ok = box(c, dim, 'b')
    u = c.m(bbname(dim), 'HasBoundingBox%dD' % dim, 'bounding_box')
    expect_box(c, 'own%d' % dim, c.call(u, b, pc=ok).ret, lo, hi, u, 'bounding box of a bounding box', ok)


def sizes(c, dim):
    b, lo, hi, ok = box(c, dim, 'b')
    for k in range(dim):
        u = c.m(bbname(dim), '', 'size_' + AX[k])
        c.eq('size%d.%s' % (dim, AX[k]), posval(c, c.call(u, b, pc=ok).ret)[0], sub(hi[k], lo[k]), u, 'size by axis', pc=ok)
    u = c.m(bbname(dim), '', 'sizes')
    w = c.call(u, b, pc=ok).ret
    for k in range(dim):
        c.eq('sizes%d.%s' % (dim, AX[k]), posval(c, engine.sel(w, num(k)))[0], sub(hi[k], lo[k]), u, 'sizes by axis', pc=ok)
    if c.has(bbname(dim), '', 'corners'):
        u = c.m(bbname(dim), '', 'corners')
        w = c.val(u, b)
        n = engine.length(w)
        c.eq('corners%d.count' % dim, n, num(2 ** dim), u, 'number of corners')
        have = []
        for i in range(2 ** dim):
            p = engine.sel(w, num(i))
            have.append([coord(c, dim, p, k) for k in range(dim)])
        for bits in range(2 ** dim):
            want = [hi[k] if bits >> k & 1 else lo[k] for k in range(dim)]
            if any(all(x is y for x, y in zip(h, want)) for h in have):
                c.good('corners%d.%d' % (dim, bits))
            else:
                any_eq = disj([conj([as_bdd(cmp('eq', h[k], want[k], True)) for k in range(dim)]) for h in have])
                c.holds('corners%d.%d' % (dim, bits), any_eq, u, 'every combination of minimum and maximum is a corner', pc=ok)


def maybe(c, dim):
    """types with a certain box give the same box as their optional one"""
    tr, trm = 'HasBoundingBox%dD' % dim, 'HasBoundingBox%dDMaybe' % dim
    n = 0
    for im, ty in c.types_with(tr):
        if 'Converted' in ty:
            continue
        n += 1
        s = sym('self')
        r1, r2 = c.call(c.m(ty, tr, 'bounding_box'), s), c.call(c.m(ty, trm, 'bounding_box_maybe'), s)
        c.eq('maybe.' + ty, r2.ret, some(r1.ret), c.m(ty, trm, 'bounding_box_maybe'), 'optional box is the box', pc=r1.pc)
    c.floor('types with a box %dD' % dim, n, {2: 5, 3: 8}[dim])


def sets(c, dim):
    trm = 'HasBoundingBox%dDMaybe' % dim
    pt = 'Point%dD' % dim
    P = c.ty(pt)
    import p_a02
    for im, ty in c.types_with(trm):
        if not any(x in ty for x in ('PointCloud%dD' % dim, 'Polygon', 'LineSegment', 'Mesh')) or ty.endswith('f32'):
            continue
        u0 = c.m(ty, trm, 'bounding_box_maybe')
        u, sb = c.on(ty, trm, 'bounding_box_maybe', **p_a02.params(c, u0, P))
        st = c.p.rt(im['self'], sb)
        for n in ((2,) if 'Segment' in ty else (0, 1, 2, 3, 4)):
            pts = [point_syms(c, dim, 'p%d' % i) for i in range(n)]
            if 'Segment' in ty:
                v = c.struct(ty, 's', start=pts[0], end=pts[1])
            else:
                v = p_a02.wrap(c, sym('self'), st, mk('agg', 'array', 0, tuple(pts)))
            r = c.call((u, sb), v)
            key = '%s(%d)' % (ty, n)
            if n < 2:
                c.holds(key, is_none(r.ret), u, 'too few points for a box')
                continue
            lo = [mins([coord(c, dim, p, k) for p in pts]) for k in range(dim)]
            hi = [maxs([coord(c, dim, p, k) for p in pts]) for k in range(dim)]
            good = conj(lt(lo[k], hi[k]) for k in range(dim))
            c.eq(key + '.some', B(is_some(r.ret)), B(good), u, 'a box exists exactly when the points span one')
            expect_box(c, key, someval(r.ret), lo, hi, u, 'box of the points held', pc=good)


def converted(c, dim):
    ty = 'HasBoundingBox%dDConverted' % dim
    tr, trm = 'HasBoundingBox%dD' % dim, 'HasBoundingBox%dDMaybe' % dim
    x = sym('inner')
    w = c.val(c.m(ty, '', 'new'), x)
    inner = calls(trm + '::bounding_box_maybe', x)
    pc = is_some(w)
    c.eq(ty + '.new', B(is_some(w)), B(is_variant(inner, 1, 2)), c.m(ty, '', 'new'), 'converted exactly when there is a box')
    u = c.m(ty, tr, 'bounding_box')
    c.eq(ty, c.call(u, someval(w), pc=pc).ret, getk(inner, ('v', 1, 0)), u, 'box of the wrapped object', pc=pc)


def f32cloud(c):
    ty, P = 'PointCloud3Df32', c.ty('Point3D')
    ps = c.on(ty, 'IsDataContainer', 'push_d', P=P)
    u = c.on(ty, 'HasBoundingBox3DMaybe', 'bounding_box_maybe', P=P)
    for n in (0, 1, 2, 3, 4):
        cl = c.val(c.on(ty, '', 'new', P=P))
        pts = [point_syms(c, 3, 'p%d' % i) for i in range(n)]
        for q in pts:
            cl = c.call(ps, cl, q).post(0)
        r = c.call(u, cl)
        key = '%s(%d)' % (ty, n)
        if n < 2:
            c.holds(key, is_none(r.ret), u, 'too few points for a box')
            continue
        lo = [mins([coord(c, 3, p, k) for p in pts]) for k in range(3)]
        hi = [maxs([coord(c, 3, p, k) for p in pts]) for k in range(3)]
        good = conj(lt(lo[k], hi[k]) for k in range(3))
        c.eq(key + '.some', B(is_some(r.ret)), B(good), u, 'a box exists exactly when the points span one')
        expect_box(c, key, someval(r.ret), lo, hi, u, 'box of the points held', pc=band(good, is_some(r.ret)))


def triface(c):
    ty = 'TriFace3D'
    pts = [point_syms(c, 3, n) for n in 'abc']
    u = c.m(ty, '', 'new')
    r = c.call(u, *pts)
    lo = [mins([coord(c, 3, p, k) for p in pts]) for k in range(3)]
    hi = [maxs([coord(c, 3, p, k) for p in pts]) for k in range(3)]
    good = conj(lt(lo[k], hi[k]) for k in range(3))
    c.eq(ty + '.new', B(is_ok(r.ret)), B(good), u, 'a face is accepted exactly when it has a bounding box')
    v = okval(r.ret)
    ub = c.m(ty, 'HasBoundingBox3D', 'bounding_box')
    expect_box(c, ty, c.call(ub, v, pc=good).ret, lo, hi, ub, 'box of the three corners', pc=good)
    for i, n in enumerate('abc'):
        w = c.val(c.m(ty, '', n), v)
        for k in range(3):
            c.eq('%s.%s.%s' % (ty, n, AX[k]), coord(c, 3, w, k), coord(c, 3, pts[i], k), c.m(ty, '', n), 'corner of the face', pc=good)


def visited(c, uid, v, pc=T, closure='f'):
    """positions handed to a callback: events of the uninterpreted callback"""
    an_r = c.call(uid, v, sym(closure), pc=pc)
    out = []
    for e in an_r.an.events:
        if e.kind in ('call', 'indirect') and e.term is not None and sym(closure) in e.term.a[1][:1]:
            out.append((e.pc, e.args[-1]))
    return an_r, out


def unaligned(c):
    ty = 'BoxUnaligned3D'
    b, lo, hi, ok = box(c, 3, 'bb')
    u = c.m(ty, '', 'new_from_bb')
    w = c.call(u, b, pc=ok).ret
    ub = c.m(ty, 'HasBoundingBox3D', 'bounding_box')
    expect_box(c, ty + '.from_bb', c.call(ub, w, pc=ok).ret, lo, hi, ub, 'bounding box of the box made from a bounding box', pc=ok)
    fp = c.m(ty, 'IsSATObject', 'for_each_point')
    corners_of(c, ty + '.from_bb.corners', fp, w, ok, lo, hi)
    # any orientation: the bounding box encloses every corner (evaluated with exact corner positions)
    d = sym('self')
    pts = corner_points(c, fp, d)
    r = c.call(ub, d)
    l, h = bb_corners(c, 3, r.ret)
    if len(pts) != 8:
        c.fail(ty + '.corners', 'for_each_point visits %d corners, a box has 8' % len(pts), fp)
        return
    sizes = [posval(c, engine.sel(c.get(d, ty, 'size'), num(i)))[1] for i in range(3)]
    pc = band(conj(sizes), r.pc)
    for i, q in enumerate(pts):
        for k in range(3):
            x = coord(c, 3, q, k)
            c.holds('%s.encloses.%d.%s' % (ty, i, AX[k]), bnot(bor(lt(x, l[k]), gt(x, h[k]))), ub, 'the bounding box encloses corner %d' % i, pc=pc)


def corner_points(c, fp, v, pc=T):
    r = c.call(fp, v, sym('f'), pc=pc)
    out = []
    for e in r.an.events:
        if e.term is not None and e.term.op == 'call' and e.args and len(e.args) >= 2:
            a = e.args[-1]
            if 'f' in show(e.args[0])[:3] or e.kind == 'callback' or str(e.name).startswith(('Fn', 'indirect')):
                if a.op == 'agg' and a.a[0] == 'tuple' and len(a.a[2]) == 1:
                    a = a.a[2][0]
                out.append(a)
    return out


def corners_of(c, key, fp, v, pc, lo, hi):
    pts = corner_points(c, fp, v, pc)
    have = [[coord(c, 3, p, k) for k in range(3)] for p in pts]
    for bits in range(8):
        want = [hi[k] if bits >> k & 1 else lo[k] for k in range(3)]
        any_eq = disj([conj([as_bdd(cmp('eq', h[k], want[k], True)) for k in range(3)]) for h in have])
        c.holds('%s.%d' % (key, bits), any_eq, fp, 'every corner of the box is visited', pc=pc)


def collider(c):
    ty = 'Collider3D'
    a = c.adt(ty)
    u = c.m(ty, 'HasBoundingBox3D', 'bounding_box')
    for i, (n, fs) in enumerate(a['v']):
        inner = c.p.type_name(c.p.rt(fs[0][1]))
        x = sym('inner')
        w = agg(a['d'], i, [x])
        ui = c.m(inner, 'HasBoundingBox3D', 'bounding_box')
        r, ri = c.call(u, w), c.call(ui, x)
        lo, hi = bb_corners(c, 3, ri.ret)
        expect_box(c, '%s.%s' % (ty, n), r.ret, lo, hi, u, 'box of the wrapped shape', pc=band(r.pc, ri.pc))

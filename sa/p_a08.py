"""A08: lengths, centres of gravity and whole-object operations take every element into account exactly once."""
from geom import *
import p_a02
from p_a07 import total


def run(c):
    for dim in (2, 3):
        c.guard('length%d' % dim, length, c, dim)
        c.guard('gravity%d' % dim, gravity, c, dim)
        c.guard('append%d' % dim, append, c, dim)
        c.guard('each%d' % dim, each, c, dim)
    c.guard('center', center, c)
    c.guard('size', size, c)
    c.guard('extrude', extrude, c)
    return {'rule': 'Normal forms of length, centre of gravity, appending, visiting, centring and resizing over collections of 0..4 symbolic elements and of '
            'any length (closed form of the accumulation) must equal sum of consecutive distances (closed for polygons), mean of all elements, '
            'concatenation, every element once.',
            'assumptions': ['real arithmetic (rounding ignored)', 'sizes are below 2^53 (a count converted to a floating point number is exact)']}


def dist(c, dim, p, q):
    return sqrt(total(mul(sub(coord(c, dim, p, k), coord(c, dim, q, k)), sub(coord(c, dim, p, k), coord(c, dim, q, k))) for k in range(dim)))


def make(c, ty, uid, sub_, dim, pts, tr):
    im = [i for i, t in c.types_with(tr) if t == ty][0]
    st = c.p.rt(im['self'], sub_)
    if 'Segment' in ty:
        return c.struct(ty, 's', start=pts[0], end=pts[1])
    return p_a02.wrap(c, sym('self'), st, mk('agg', 'array', 0, tuple(pts)))


def length(c, dim):
    pt = 'Point%dD' % dim
    P = c.ty(pt)
    cnt = 0
    for im, ty in c.types_with('HasLength'):
        if '%dD' % dim not in ty:
            continue
        cnt += 1
        u0 = c.m(ty, 'HasLength', 'length')
        u = c.on(ty, 'HasLength', 'length', **p_a02.params(c, u0, P))
        for n in ((2,) if 'Segment' in ty else (0, 1, 2, 3, 4, 5)):
            pts = [point_syms(c, dim, 'p%d' % i) for i in range(n)]
            v = make(c, ty, u0, u[1], dim, pts, 'HasLength')
            w = total(dist(c, dim, pts[i + 1], pts[i]) for i in range(n - 1)) if n > 1 else num(0)
            if 'Polygon' in ty and n > 0:
                w = add(w, dist(c, dim, pts[-1], pts[0]))
            c.eq('%s.length(%d)' % (ty, n), c.val(u, v, unroll=8), w, u0, 'sum of the distances between consecutive points')
        if 'Segment' not in ty:
            r = c.call(u, sym('self'))
            d = rootseq(c, ty, u0, u[1], 'HasLength')
            nn = engine.length(d)
            b = mk('bv', 'len')
            w = mk('bigsum', mkmax(sub(nn, num(1)), num(0)), b, dist(c, dim, engine.sel(d, add(b, num(1))), engine.sel(d, b)))
            if 'Polygon' in ty:
                nz = as_bdd(cmp('ge', nn, num(1), False))
                w = gam([(nz, add(w, dist(c, dim, engine.sel(d, sub(nn, num(1))), engine.sel(d, num(0))))), (bnot(nz), w)])
            c.eq('%s.length' % ty, r.ret, w, u0, 'any number of points', maxlen=5)
    c.floor('types with a length %dD' % dim, cnt, 3)


def rootseq(c, ty, uid, sub_, tr):
    """the term of the sequence of positions held by a symbolic value"""
    im = [i for i, t in c.types_with(tr) if t == ty][0]
    st = c.p.rt(im['self'], sub_)
    found = []

    def go(v, t):
        name = c.p.type_name(t)
        if name in p_a02.SEQ:
            found.append(v)
            return
        a = c.p.adts.get(t[1]) if t[0] == 'adt' else None
        if a is None:
            return
        g = [x for x in a['g'] if not x.startswith("'")]
        s = tuple(t[2][i] if i < len(t[2]) else None for i in range(len(g)))
        for i, (n, ft, pub) in enumerate(a['v'][0][1]):
            if not found:
                go(getk(v, ('f', i)), c.p.rt(ft, s))
    go(sym('self'), st)
    if not found:
        raise TooComplex('no sequence in ' + ty)
    return found[0]


def gravity(c, dim):
    pt = 'Point%dD' % dim
    P = c.ty(pt)
    tr = 'HasCenterOfGravity%dD' % dim
    cnt = 0
    for im, ty in c.types_with(tr):
        if 'Searchable' in ty:
            continue
        cnt += 1
        u0 = c.m(ty, tr, 'center_of_gravity')
        u = c.on(ty, tr, 'center_of_gravity', **p_a02.params(c, u0, P))
        for n in ((2,) if 'Segment' in ty else (0, 1, 2, 3, 4)):
            pts = [point_syms(c, dim, 'p%d' % i) for i in range(n)]
            v = make(c, ty, u0, u[1], dim, pts, tr)
            r = c.val(u, v, unroll=8)
            key = '%s.gravity(%d)' % (ty, n)
            if n == 0:
                c.holds(key, is_none(r), u0, 'nothing has no centre')
                continue
            c.holds(key + '.some', is_some(r), u0, 'there is a centre')
            g = someval(r)
            for k in range(dim):
                c.eq('%s.%s' % (key, AX[k]), coord(c, dim, g, k), fdiv(total(coord(c, dim, p, k) for p in pts), num(n)), u0, 'mean of all positions')
        if 'Segment' not in ty:
            d = rootseq(c, ty, u0, u[1], tr)
            nn = engine.length(d)
            r = c.call(u, sym('self')).ret
            pc = as_bdd(cmp('ge', nn, num(1), False))
            c.eq(ty + '.gravity.some', B(is_some(r)), B(pc), u0, 'a centre exists exactly for non-empty objects')
            b = mk('bv', 'cog')
            for k in range(dim):
                c.eq('%s.gravity.%s' % (ty, AX[k]), coord(c, dim, someval(r), k), fdiv(mk('bigsum', nn, b, coord(c, dim, engine.sel(d, b), k)), nn), u0,
                     'mean of any number of positions', pc=pc, maxlen=5)
    c.floor('types with a centre of gravity %dD' % dim, cnt, {2: 3, 3: 4}[dim])


def append(c, dim):
    ty, pt = 'PointCloud%dD' % dim, 'Point%dD' % dim
    P = c.ty(pt)
    vec = ('adt', 'alloc::vec::Vec', (P, ('adt', 'alloc::alloc::Global', ())))
    u0 = c.m(ty, '', 'append_ra')
    sub_ = tuple(P if g == 'P' else vec if g == 'RA' else ('param', g) for g in c.p.bodies[u0]['g'])
    st = c.ty(ty, P)
    for n, m in ((0, 2), (2, 0), (2, 3)):
        a = [point_syms(c, dim, 'a%d' % i) for i in range(n)]
        b = [point_syms(c, dim, 'b%d' % i) for i in range(m)]
        v = p_a02.wrap(c, sym('self'), st, mk('agg', 'array', 0, tuple(a)))
        w = p_a02.wrap(c, sym('self'), st, mk('agg', 'array', 0, tuple(a + b)))
        r = c.call((u0, sub_), v, mk('agg', 'array', 0, tuple(b)), unroll=8)
        c.eq('%s.append_ra(%d,%d)' % (ty, n, m), r.post(0), w, u0, 'the elements are added behind the present ones, in order')


def each(c, dim):
    ty, pt = 'PointCloud%dD' % dim, 'Point%dD' % dim
    P = c.ty(pt)
    u0 = c.m(ty, '', 'for_each_point')
    st = c.ty(ty, P)
    sub_ = tuple(P if g == 'P' else ('param', g) for g in c.p.bodies[u0]['g'])
    for n in (0, 1, 3):
        pts = [point_syms(c, dim, 'a%d' % i) for i in range(n)]
        v = p_a02.wrap(c, sym('self'), st, mk('agg', 'array', 0, tuple(pts)))
        r = c.call((u0, sub_), v, sym('f'), unroll=8)
        seen = [e for e in r.an.events if e.term is not None and e.term.op == 'call' and (e.kind == 'apply' or str(e.name).split('::')[0] in ('FnMut', 'FnOnce', 'Fn'))]
        if len(seen) != n:
            c.fail('%s.for_each_point(%d)' % (ty, n), 'the function is applied %d times to %d points' % (len(seen), n), u0) if all(e.pc == T for e in seen) else \
                c.undecided('%s.for_each_point(%d)' % (ty, n), 'applications not resolved')
            continue
        for i, e in enumerate(seen):
            a = e.args[-1]
            if a.op == 'agg' and a.a[0] == 'tuple':
                a = a.a[2][0]
            for k in range(dim):
                c.eq('%s.for_each_point(%d).%d.%s' % (ty, n, i, AX[k]), coord(c, dim, a, k), coord(c, dim, pts[i], k), u0, 'every point once, in order')


def center(c):
    u = c.f('center')
    t = sym('x')
    r = c.call(u, t)
    mv = [e for e in r.an.events if e.term is not None and str(e.name).endswith('move_by')]
    bb = calls('HasBoundingBox3DMaybe::bounding_box_maybe', t)
    pc = is_variant(bb, 1, 2)
    if len(mv) != 1:
        c.undecided('center', '%d moves' % len(mv))
        return
    lo, hi = bb_corners(c, 3, someval(bb))
    c.eq('center.when', B(mv[0].pc), B(pc), u, 'moved exactly when it has a bounding box')
    for k in range(3):
        c.eq('center.' + AX[k], mv[0].args[1 + k], neg(mul(HALF, add(lo[k], hi[k]))), u, "moved by the opposite of its box's centre", pc=pc)


def size(c):
    u = c.f('set_size')
    t = sym('x')
    szs = [sym('s%d' % k) for k in range(3)]
    inv = T
    sv = []
    for s in szs:
        x, i = posval(c, s)
        sv.append(x)
        inv = band(inv, i)
    r = c.call(u, t, mk('agg', 'array', 0, tuple(szs)), pc=inv)
    mv = [e for e in r.an.events if e.term is not None and str(e.name).endswith('::transform')]
    bb = calls('HasBoundingBox3DMaybe::bounding_box_maybe', t)
    if len(mv) != 1:
        c.undecided('set_size', '%d transformations' % len(mv))
        return
    lo, hi = bb_corners(c, 3, someval(bb))
    pc = conj([inv, is_variant(bb, 1, 2)] + [lt(lo[k], hi[k]) for k in range(3)])
    from p_a07 import entry, ident
    w = ident(4)
    for k in range(3):
        w[k][k] = fdiv(sv[k], sub(hi[k], lo[k]))
    for i in range(4):
        for j in range(4):
            c.eq('set_size[%d][%d]' % (i, j), entry(c, 4, mv[0].args[1], i, j), w[i][j], u, 'scaled on every axis by required over present size', pc=pc)


def extrude(c):
    u = c.f('extrude')
    P2, P3 = c.ty('Point2D'), c.ty('Point3D')
    g = c.p.bodies[u]['g']
    sub_ = tuple({'P2': P2, 'P3': P3}.get(x, ('param', x)) for x in g)
    for n in (0, 1, 3):
        pts = [point_syms(c, 2, 'a%d' % i) for i in range(n)]
        d = point_syms(c, 3, 'd')
        D = [coord(c, 3, d, k) for k in range(3)]
        r = c.call((u, sub_), mk('agg', 'array', 0, tuple(pts)), d, unroll=8).ret
        get = c.on('PointCloud3D', 'IsRandomAccessible', '__i', P=P3) if False else None
        for j in (0, 1):
            cl = getk(r, ('f', j))
            seq = getk(cl, ('f', c.fidx('PointCloud3D', 'data')))
            c.eq('extrude(%d).%d.len' % (n, j), engine.length(seq), num(n), u, 'one point per input point')
            for i in range(n):
                q = engine.sel(seq, num(i))
                A = [coord(c, 2, pts[i], 0), coord(c, 2, pts[i], 1), num(0)]
                for k in range(3):
                    c.eq('extrude(%d).%d.%d.%s' % (n, j, i, AX[k]), coord(c, 3, q, k), add(A[k], D[k]) if j else A[k], u, 'extruded position')

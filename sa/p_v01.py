"""V01: wrapping, converting and delegating loses and changes nothing."""
from base import *
import p_m05
from engine import length, sel


def targ(c, im):
    ta = im.get('ta', [])
    return c.p.rt(ta[1]) if len(ta) > 1 and isinstance(ta[1], int) else None


def is_io(c, im):
    return '::io::' in str(c.p.rt(im['self'])[1]) if c.p.rt(im['self'])[0] == 'adt' else False


def tname(c, t):
    if t[0] == 'tuple':
        return '(%s)' % ', '.join(tname(c, x) for x in t[1])
    return c.p.type_name(t)


def run(c):
    p = c.p
    conv = {}
    for im, u in p.methods(None, 'From', 'from') + p.methods(None, 'Into', 'into'):
        t = targ(c, im)
        if t is None or is_io(c, im) or p.self_name(im) == 'ErrorKind':
            continue
        k = 'From' if im['tr'].split('::')[-1] == 'From' else 'Into'
        conv.setdefault(p.self_name(im), {}).setdefault(k, {})[t] = u
    n = 0
    for ty in sorted(conv):
        fr, to = conv[ty].get('From', {}), conv[ty].get('Into', {})
        for t in fr:
            if t in to:
                n += 1
                c.guard('%s<->%s' % (ty, tname(c, t)), roundtrip, c, ty, t, fr[t], to[t])
    c.floor('conversions there and back', n, 6)
    n = 0
    for im, u in p.methods(None, 'AsRef', 'as_ref'):
        if is_io(c, im):
            continue
        n += 1
        c.guard('%s.as_ref' % p.self_name(im), inner, c, im, u, conv)
    c.floor('types with a view on the wrapped value', n, 9)
    n = 0
    for ty in ('Line2D', 'Line3D', 'Ray2D', 'Ray3D', 'LineSegment2D', 'LineSegment3D', 'Rgb', 'Face3', 'Plane3D'):
        n += 1
        c.guard(ty + '.new', constructor, c, ty)
    c.guard('half edge parts', halfedge, c, conv)
    c.guard('clouds', empty, c)
    c.guard('polygons', polygons, c, conv)
    c.guard('boxes', boxes, c, conv)
    for d in '23':
        c.guard('HasBoundingBox%sDConverted' % d, converted, c, d)
    c.guard('SearchableMesh', searchable, c)
    c.guard('Face3.vid', unit, c)
    c.guard('set', setters, c)
    return {'rule': 'the value-flow normal form of unwrapping what was wrapped is the wrapped value itself; constructors put every argument into the field of its name; '
                    'delegating operations equal the operation of the wrapped value', 'assumptions': []}


def roundtrip(c, ty, t, fr, to):
    x = sym('x')
    if t[0] == 'tuple':
        x = agg('tuple', 0, tuple(sym('part%d' % i) for i in range(len(t[1]))))
    v = c.call(fr, x)
    r = c.call(to, v.ret)
    key = '%s<->%s' % (ty, tname(c, t))
    if t[0] == 'tuple':
        for i in range(len(t[1])):
            c.eq('%s/%d' % (key, i), getk(r.ret, ('f', i)), x.a[2][i], to, 'part %d comes back as it was given' % i)
    elif t[0] == 'adt':
        c.eq(key + '/count', length(r.ret), length(x), to, 'as many elements come back as were given')
        k = sym('n_k')
        c.eq(key + '/element', sel(r.ret, k), sel(x, k), to, 'every element comes back at its place', pc=as_bdd(cmp('lt', k, length(x), False)))
    else:
        c.eq(key, r.ret, x, to, 'comes back as it was given')


def inner(c, im, u, conv):
    """as_ref, as_mut and into are about the same value"""
    p = c.p
    ty = p.self_name(im)
    t = targ(c, im)
    a = c.adt(ty)
    pub = [n for n, tt, pb in a['v'][0][1] if pb]
    one = len(a['v'][0][1]) == 1
    w = sym('w')
    v = agg(a['d'], 0, (w,)) if one else sym('v')
    r = c.call(u, v)
    got = r.ret
    if got.op == 'ref':
        got = r.an.deep_read(r.st, got) if hasattr(r, 'st') else got
    if one:
        c.eq(ty + '.as_ref', got, w, u, 'shows the wrapped value')
        for im2, u2 in p.methods(ty, 'Into', 'into'):
            if targ(c, im2) == t:
                c.eq(ty + '.into', c.val(u2, v), w, u2, 'gives the wrapped value')
        for im2, u2 in p.methods(ty, 'Deref', 'deref'):
            r2 = c.call(u2, v)
            g2 = r2.an.deep_read(r2.st, r2.ret) if r2.ret.op == 'ref' and hasattr(r2, 'st') else r2.ret
            c.eq(ty + '.deref', g2, w, u2, 'shows the wrapped value')
        for im2, u2 in p.methods(ty, 'AsMut', 'as_mut'):
            r2 = c.call(u2, v)
            g2 = r2.an.deep_read(r2.st, r2.ret) if r2.ret.op == 'ref' and hasattr(r2, 'st') else r2.ret
            c.eq(ty + '.as_mut', g2, w, u2, 'gives access to the wrapped value')
            c.eq(ty + '.as_mut/unchanged', r2.post(0), v, u2, 'asking for access changes nothing')


def constructor(c, ty):
    u = None
    for tr in ('', 'IsPlane3D'):
        try:
            u = c.m(ty, tr, 'new')
            break
        except Missing:
            pass
    if u is None:
        raise Missing(ty + '::new')
    a = c.adt(ty)
    names = {}
    b = c.p.bodies[u]
    for i, (n, t, pub) in enumerate(a['v'][0][1]):
        names[n] = i
    argn = [c.p.rt(b['locals'][i + 1][0]) for i in range(b['argc'])]
    fields = [(n, i) for n, i in names.items()]
    if len(fields) != b['argc']:
        raise TooComplex('arguments are not the fields')
    args = [sym('a%d' % i) for i in range(b['argc'])]
    r = c.val(u, *args)
    if len(r.a) < 1:
        raise TooComplex('no aggregate')
    for n, i in fields:
        c.eq('%s.new/%s' % (ty, n), getk(r, ('f', i)), args[i], u, 'argument %d becomes the field %s' % (i + 1, n))


def halfedge(c, conv):
    ty = 'HalfEdge'
    fr = [u for t, u in conv.get(ty, {}).get('From', {}).items()]
    if len(fr) != 1:
        raise Missing('HalfEdge from its parts')
    x = agg('tuple', 0, (sym('tails'), sym('twins'), sym('around')))
    v = c.val(fr[0], x)
    n = 0
    for t, u in conv[ty].get('Into', {}).items():
        r = c.val(u, v)
        if t[0] == 'tuple':
            for i in range(len(t[1])):
                n += 1
                c.eq('HalfEdge.into%d/%d' % (len(t[1]), i), getk(r, ('f', i)), x.a[2][i], u, 'part %d comes back as it was given' % i)
        else:
            n += 1
            c.eq('HalfEdge.into_vec', r, x.a[2][2], u, 'the edges around the vertices come back as they were given')
    c.floor('parts of a half edge', n, 6)


def empty(c):
    n = 0
    for ty in ('PointCloud2D', 'PointCloud3D', 'PointCloud3Df32'):
        for m in ('new', 'with_capacity'):
            u = c.m(ty, '', m)
            v = c.val(u) if c.p.bodies[u]['argc'] == 0 else c.val(u, sym('n_capacity'))
            i = c.fidx(ty, 'data')
            c.eq('%s.%s' % (ty, m), length(getk(v, ('f', i))), num(0), u, 'a new container is empty')
            n += 1
    for im, name in c.types_with('IsIndexContainer'):
        if name not in c.p.adt_by_name:
            continue
        u = c.on(name, 'IsIndexContainer', 'with_capacity')
        ul = c.on(name, 'IsIndexContainer', 'len')
        v = c.val(u, sym('n_capacity'), sym('n_max'))
        c.eq('%s.with_capacity' % name, c.val(ul, v), num(0), u[0], 'a new container is empty')
        n += 1
    c.floor('new containers', n, 8)


def polygons(c, conv):
    n = 0
    for ty, d in (('Polygon2D', '2D'), ('Polygon3D', '3D')):
        for t, u in conv.get(ty, {}).get('From', {}).items():
            x = agg(c.adt('PointCloud' + d)['d'], 0, (sym('points'),))
            v = c.val(u, x)
            un = c.on(ty, 'IsPolygon', 'num_segments')
            uv = c.on(ty, 'IsPolygon', 'vertex')
            c.eq(ty + '.from/count', c.val(un, v), length(sym('points')), u, 'every point becomes a vertex')
            k = sym('n_k')
            r = c.val(uv, v, agg(c.adt('VId')['d'], 0, (k,)))
            c.eq(ty + '.from/vertex', someval(r), sel(sym('points'), k), u, 'in the given order', pc=as_bdd(cmp('lt', k, length(sym('points')), False)))
            n += 1
    c.floor('polygons from clouds', n, 2)


def boxes(c, conv):
    """a filter over a box is the box; a box from a bounding box has its centre and size"""
    n = 0
    for d, ax in ((2, 'xy'), (3, 'xyz')):
        bb = 'BoundingBox%dD' % d
        pd = c.adt('Point%dD' % d)['d']
        lo = agg(pd, 0, tuple(sym('lo' + x) for x in ax))
        hi = agg(pd, 0, tuple(sym('hi' + x) for x in ax))
        new = c.on(bb, '', 'new', P=c.ty('Point%dD' % d), P1=c.ty('Point%dD' % d), P2=c.ty('Point%dD' % d))
        r = c.call((new[0], p_m05.fullsub(c, new[0], P1=c.ty('Point%dD' % d), P2=c.ty('Point%dD' % d), P=c.ty('Point%dD' % d))), lo, hi)
        good = is_ok(r.ret)
        v = okval(r.ret)
        for t, u in conv.get('Box%dD' % d, {}).get('From', {}).items():
            b = c.val(u, v)
            cen, size = c.get(b, 'Box%dD' % d, 'center'), None
            for i, x in enumerate(ax):
                c.eq('Box%dD.from/centre/%s' % (d, x), getk(cen, ('f', i)), mul(num(Fraction(1, 2)), add(sym('lo' + x), sym('hi' + x))), u,
                     'the box has the centre of the bounding box', pc=good)
            for f, x in zip(('size_x', 'size_y', 'size_z'), ax):
                c.eq('Box%dD.from/%s' % (d, f), getk(c.get(b, 'Box%dD' % d, f), ('f', 0)), sub(sym('hi' + x), sym('lo' + x)), u,
                     'the box has the size of the bounding box', pc=good)
            n += 1
    c.floor('boxes from bounding boxes', n, 2)


def converted(c, d):
    ty = 'HasBoundingBox%sDConverted' % d
    x = sym('x')
    u = c.m(ty, '', 'new')
    r = c.call(u, x)
    bb = calls('HasBoundingBox%sDMaybe::bounding_box_maybe' % d, x)
    c.eq(ty + '/accepted', B(is_some(r.ret)), B(is_some(bb)), u, 'accepted exactly if there is a bounding box')
    v = someval(r.ret)
    ug = c.m(ty, '', 'get')
    rg = c.call(ug, v)
    g = rg.an.deep_read(rg.st, rg.ret) if rg.ret.op == 'ref' and hasattr(rg, 'st') else rg.ret
    c.eq(ty + '/get', g, x, ug, 'the wrapped value comes back', pc=is_some(bb))
    um = c.m(ty, 'HasBoundingBox%sDMaybe' % d, 'bounding_box_maybe')
    c.eq(ty + '/maybe', c.val(um, v), bb, um, 'the bounding box is that of the wrapped value', pc=is_some(bb))
    ub = c.m(ty, 'HasBoundingBox%sD' % d, 'bounding_box')
    c.eq(ty + '/box', c.val(ub, v), someval(bb), ub, 'the bounding box is that of the wrapped value', pc=is_some(bb))


def searchable(c):
    ty = 'SearchableMesh'
    fr = [u for im, u in c.p.methods(ty, 'From', 'from')]
    if len(fr) != 1:
        raise Missing('SearchableMesh from its parts')
    m, he = sym('mesh'), sym('half_edge')
    v = c.val(fr[0], agg('tuple', 0, (m, he)))
    for name, u in [('mesh', c.m(ty, '', 'mesh'))] + [('as_ref', u) for im, u in c.p.methods(ty, 'AsRef', 'as_ref')]:
        r = c.call(u, v)
        g = r.an.deep_read(r.st, r.ret) if r.ret.op == 'ref' and hasattr(r, 'st') else r.ret
        c.eq('%s.%s' % (ty, name), g, m, u, 'shows the mesh it was made of')
    i, q = agg(c.adt('VId')['d'], 0, (sym('n_i'),)), agg(c.adt('FId')['d'], 0, (sym('n_i'),))
    for tr, name, args in (('IsMesh', 'num_faces', []), ('IsMesh', 'num_vertices', []), ('IsMesh', 'face_vertex_ids', [q]),
                           ('IsMesh', 'face_vertices', [q]), ('IsMesh', 'vertex', [i])):
        u = c.m(ty, tr, name)
        c.eq('%s.%s' % (ty, name), c.val(u, v, *args), calls(tr + '::' + name, m, *args), u, 'answers like the mesh')
    n = 0
    for tr, name in (('HasCenterOfGravity3D', 'center_of_gravity'), ('HasBoundingBox3DMaybe', 'bounding_box_maybe')):
        u = c.m(ty, tr, name)
        c.eq('%s.%s' % (ty, name), c.val(u, v), calls(tr + '::' + name, m), u, 'answers like the mesh')


def unit(c):
    """for_each_vid visits the ids of a unit in order"""
    f = agg(c.adt('Face3')['d'], 0, tuple(agg(c.adt('VId')['d'], 0, (sym('n_' + x),)) for x in 'abc'))
    un, uv = c.m('Face3', 'IsTopologyUnit', 'n_vids'), c.m('Face3', 'IsTopologyUnit', 'vid')
    c.eq('Face3.n_vids', c.val(un), num(3), un, 'a face has three vertices')
    for i, x in enumerate('abc'):
        r = c.val(uv, f, num(i))
        c.holds('Face3.vid/%d' % i, is_some(r), uv, 'a face has three vertices')
        c.eq('Face3.vid/%d/value' % i, someval(r), c.get(f, 'Face3', x), uv, 'its vertices in order')


def setters(c):
    ty = 'Point3D'
    n = 0
    for i, j in ((0, 1), (0, 2), (1, 2)):
        m = 'set_' + AX[i] + AX[j]
        u, s = c.on(ty, 'IsEditable3D', m)
        v = agg(c.adt(ty)['d'], 0, tuple(sym('o' + x) for x in AX))
        r = c.call((u, s), v, sym('p'), sym('q'))
        for k in range(3):
            w = sym('p') if k == i else sym('q') if k == j else sym('o' + AX[k])
            c.eq('%s/%s' % (m, AX[k]), getk(r.post(0), ('f', k)), w, u, 'sets these two coordinates and leaves the third')
        n += 1
    u, s = c.on(ty, 'IsEditable3D', 'set_xyz')
    r = c.call((u, s), v, *[sym('n' + x) for x in AX])
    for k in range(3):
        c.eq('set_xyz/%s' % AX[k], getk(r.post(0), ('f', k)), sym('n' + AX[k]), u, 'sets all coordinates')
    c.floor('setters of two coordinates', n, 3)

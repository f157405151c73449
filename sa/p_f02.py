"""F02: geometric filters accept exactly their region."""
from geom import *


def run(c):
    for dim in (2, 3):
        c.guard('region%d' % dim, region, c, dim)
        c.guard('field%d' % dim, field, c, dim)
    c.guard('outlier', outlier, c)
    return {'rule': 'The boolean normal form of is_allowed over centre, size and the element must be equivalent to the region predicate '
            '(box: every axis; circle/sphere: sum over all axes); after scaling, moving the centre or conversion from a box the region is the changed one.',
            'assumptions': ['coordinates are numbers (not NaN), sizes and radii positive (A06)', 'real arithmetic (rounding ignored)']}


def allowed(c, ty):
    return c.m(ty, 'IsFilter', 'is_allowed')


def square(x):
    return mul(x, x)


def region(c, dim):
    filt = {2: ('FilterCircle', 'FilterBox2D'), 3: ('FilterSphere', 'FilterBox3D')}[dim]
    p = sym('p')
    P = uninterp_axes(dim, p)
    n = 0
    for ty, v, cc, half, inv, ub in shape_values(c, dim):
        if ty not in filt:
            continue
        u = allowed(c, ty)

        def want(cc, half):
            if 'Box' in ty:
                return conj(band(le(sub(cc[k], half[k]), P[k]), le(P[k], add(cc[k], half[k]))) for k in range(dim))
            s = num(0)
            for k in range(dim):
                s = add(s, square(sub(P[k], cc[k])))
            return le(s, square(half[0]))
        what = 'within half the size on every axis' if 'Box' in ty else 'within the radius measured over all axes'
        r = c.call(u, v, p, pc=inv)
        c.eq(ty, r.ret, B(want(cc, half)), u, what, pc=inv)
        n += 1
        # the answer follows the current shape
        f, fi = posval(c, sym('f'))
        us = c.m(ty, 'IsScalable', 'scale')
        w = c.call(us, v, sym('f'), pc=band(inv, fi)).post(0)
        r = c.call(u, w, p, pc=band(inv, fi))
        c.eq(ty + '.scaled', r.ret, B(want(cc, [mul(f, h) for h in half])), us, 'region after scaling', pc=band(inv, fi))
        for k in range(dim):
            us = c.m(ty, 'IsEditable%dD' % dim, 'set_' + AX[k])
            w = c.call(us, v, sym('nx')).post(0)
            c.eq('%s.set_%s' % (ty, AX[k]), c.call(u, w, p, pc=inv).ret, B(want([sym('nx') if j == k else cc[j] for j in range(dim)], half)),
                 us, 'region after moving its centre', pc=inv)
        if c.has(ty, 'From', 'from', bbname(dim)):
            uf = c.m(ty, 'From', 'from', bbname(dim))
            b, lo, hi, okb = box(c, dim, 'bb')
            w = c.call(uf, b, pc=okb).ret
            c.eq(ty + '.from_bb', c.call(u, w, p, pc=okb).ret, B(conj(band(le(lo[k], P[k]), le(P[k], hi[k])) for k in range(dim))), uf,
                 'region of a filter made from a bounding box', pc=okb)
            n += 1
    c.floor('region filters %dD' % dim, n, {2: 3, 3: 3}[dim])


def field(c, dim):
    ty = 'FilterDirectionField%dD' % dim
    u = allowed(c, ty)
    df, eps = sym('field'), sym('eps')
    v = c.val(c.m(ty, '', 'new'), df, eps)
    p, nrm = sym('p'), sym('n')
    e = mk('agg', 'tuple', 0, (p, nrm))
    r = c.call(u, v, e)
    N = 'Norm%dD' % dim
    d = calls('IsDirectionField%dD::direction_at' % dim, df, p)
    ur = c.on(N, 'Is%dD' % dim, 'rad_to')
    ang = c.call(ur, d, nrm)
    a = ang.ret
    rad = lambda x: getk(x, ('f', 0))
    if dim == 3:
        want = band(is_ok(a), le(rad(okval(a)), rad(eps)))
    else:
        want = le(rad(a), rad(eps))
    c.eq(ty, r.ret, B(want), u, "decides by the angle between the field's direction at the position and the element's normal", pc=band(r.pc, ang.pc))


def outlier(c):
    ty = 'FilterOutlier3D'
    u = allowed(c, ty)
    s, dist, n = sym('search'), sym('dist'), sym('n_min')
    v = c.val(c.m(ty, '', 'new'), s, dist, n)
    p = sym('p')
    P = uninterp_axes(3, p)
    r = c.call(u, v, p)
    sph = c.struct('Sphere', 's', center=c.struct('Point3D', 'c', x=P[0], y=P[1], z=P[2]), radius=dist)
    cs = find_calls(r.ret, 'in_sphere')
    if len(cs) != 1:
        c.undecided(ty, 'is_allowed does not reduce to one in_sphere query: %d' % len(cs))
        return
    a = cs[0].a[1]
    for k in range(3):
        c.eq('%s.centre.%s' % (ty, AX[k]), coord(c, 3, c.get(a[1], 'Sphere', 'center'), k), P[k], u, 'neighbours are searched around the element')
    c.eq(ty + '.radius', posval(c, c.get(a[1], 'Sphere', 'radius'))[0], posval(c, dist)[0], u, 'neighbours are searched within the search distance')
    c.eq(ty + '.searched', a[0], s, u, 'in the given collection')
    c.eq(ty + '.cache', engine.length(a[2]), num(0), u, 'no neighbours of earlier queries are counted')
    got = [x for x in subterms(r.ret) if x.op == 'post' and x.a[0] is cs[0]]
    if len(got) == 1:
        c.eq(ty, r.ret, B(as_bdd(cmp('ge', engine.length(got[0]), n, False))), u, 'allowed exactly with enough neighbours')
    else:
        c.undecided(ty, 'result list not found')

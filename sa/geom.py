"""helpers shared by the geometric properties"""
from base import *

HALF = num(Fraction(1, 2))


def coord(c, dim, v, k):
    """coordinate of a PointND value through its getter"""
    return c.val(c.m('Point%dD' % dim, 'Is%dD' % dim, AX[k]), v)


def lt(a, b):
    return as_bdd(cmp('lt', a, b, True))


def le(a, b):
    return as_bdd(cmp('le', a, b, True))


def gt(a, b):
    return as_bdd(cmp('gt', a, b, True))


def conj(xs):
    r = T
    for x in xs:
        r = band(r, x)
    return r


def disj(xs):
    r = F
    for x in xs:
        r = bor(r, x)
    return r


def bbname(dim):
    return 'BoundingBox%dD' % dim


def bb_corners(c, dim, bb):
    lo, hi = c.val(c.m(bbname(dim), '', 'min_p'), bb), c.val(c.m(bbname(dim), '', 'max_p'), bb)
    return [coord(c, dim, lo, k) for k in range(dim)], [coord(c, dim, hi, k) for k in range(dim)]


def box(c, dim, name):
    """symbolic bounding box: (value, lo, hi, condition that it is a constructible one)"""
    b = sym(name)
    lo, hi = bb_corners(c, dim, b)
    return b, lo, hi, conj(lt(lo[k], hi[k]) for k in range(dim))


def posval(c, v, ty='Positive'):
    """number in a sign-restricted value, its invariant"""
    x = c.val(c.m(ty, 'Deref', 'deref'), v)
    return x, (gt(x, num(0)) if ty == 'Positive' else as_bdd(cmp('ge', x, num(0), True)))


def point_syms(c, dim, name):
    return c.struct('Point%dD' % dim, name)


def uninterp_axes(dim, v):
    return [calls('Is%dD::%s' % (dim, AX[k]), v) for k in range(dim)]


def mins(xs):
    r = xs[0]
    for x in xs[1:]:
        r = mkmin(r, x)
    return r


def maxs(xs):
    r = xs[0]
    for x in xs[1:]:
        r = mkmax(r, x)
    return r


def shape_values(c, dim):
    """(type, value, centre coordinates, half extents, invariant, uid of bounding_box) of the shapes with a known extent"""
    out = []
    tr = 'HasBoundingBox%dD' % dim
    pt = 'Point%dD' % dim
    base = {2: ('Circle', 'Box2D'), 3: ('Sphere', 'Box3D')}[dim]
    filt = {2: (('FilterCircle', 'Circle'), ('FilterBox2D', 'Box2D')), 3: (('FilterSphere', 'Sphere'), ('FilterBox3D', 'Box3D'))}[dim]
    vals = {}
    for ty in base:
        v = c.struct(ty, 's')
        ce = c.get(v, ty, 'center')
        cc = [coord(c, dim, ce, k) for k in range(dim)]
        inv, half = T, []
        for k in range(dim):
            if any(f[0] == 'radius' for f in c.adt(ty)['v'][0][1]):
                x, i = posval(c, c.get(v, ty, 'radius'))
                half.append(x)
            else:
                x, i = posval(c, c.get(v, ty, 'size_' + AX[k]))
                half.append(mul(HALF, x))
            inv = band(inv, i)
        vals[ty] = (v, cc, half, inv)
        out.append((ty, v, cc, half, inv, c.m(ty, tr, 'bounding_box')))
    for ty, inner in filt:
        v, cc, half, inv = vals[inner]
        w = c.val(c.m(ty, '', 'new'), v)
        out.append((ty, w, cc, half, inv, c.m(ty, tr, 'bounding_box')))
    return out

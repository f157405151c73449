"""A05: distances use every axis and do not depend on the argument order."""
from geom import *


def sq(x):
    return mul(x, x)


def total(xs):
    r = num(0)
    for x in xs:
        r = add(r, x)
    return r


def run(c):
    for dim in (2, 3):
        c.guard('points%d' % dim, points, c, dim)
        c.guard('boxes%d' % dim, boxes, c, dim)
    c.guard('nd', nd, c)
    c.guard('segment', segment, c)
    return {'rule': 'Normal forms of the distance functions over both arguments must equal the sum over all axes of squared differences (gaps), '
            'its square root, and be the same with the arguments exchanged.',
            'assumptions': ['coordinates are numbers (not NaN)', 'real arithmetic (rounding ignored)']}


def points(c, dim):
    a, b = sym('a'), sym('b')
    A, Q = uninterp_axes(dim, a), uninterp_axes(dim, b)
    want = total(sq(sub(A[k], Q[k])) for k in range(dim))
    u = c.f('sqr_dist_%dd' % dim)
    r1, r2 = c.val(u, a, b), c.val(u, b, a)
    c.eq('sqr_dist_%dd' % dim, r1, want, u, 'sum of squared differences over all axes')
    c.eq('sqr_dist_%dd.swapped' % dim, r2, r1, u, 'symmetric')
    u = c.f('dist_%dd' % dim)
    r1, r2 = c.val(u, a, b), c.val(u, b, a)
    c.eq('dist_%dd' % dim, r1, sqrt(want), u, 'square root of the squared distance')
    c.eq('dist_%dd.swapped' % dim, r2, r1, u, 'symmetric')
    # distance of anything with a position to another
    for nm, w in (('sqr_distance', want), ('distance', sqrt(want))):
        u = None
        for im in c.p.impls_of.get(c.p.trait_by_name['HasDistanceTo'], []):
            if c.p.rt(im['self'])[0] == 'dyn' or c.p.self_name(im) in ('Is%dD' % dim, 'dyn Is%dD' % dim):
                if 'Is%dD' % dim in str(c.p.rt(im['self'])):
                    for n, uu in im['m']:
                        if n == nm:
                            u = uu
        if u is None:
            if nm == 'sqr_distance':
                c.fail('dyn%d' % dim, 'distance between positions through HasDistanceTo not found')
            continue
        r = c.call(u, a, b)
        c.eq('dyn%d.%s' % (dim, nm), posval(c, r.ret, 'NonNegative')[0], w, u, 'distance to a position', pc=r.pc)


def nd(c):
    a, b = sym('a'), sym('b')
    for nm in ('sqr_dist_nd', 'dist_nd'):
        u = c.f(nm)
        for d in (1, 2, 3, 4):
            def hook(e, t, d=d):
                if t.op == 'call' and str(t.a[0]).endswith('n_dimensions'):
                    return Fraction(d)
                return None
            # generic over both point types: same number of dimensions
            r = c.call(u, a, b)
        for dim in (2, 3):
            ty = c.ty('Point%dD' % dim)
            pa, pb = point_syms(c, dim, 'a'), point_syms(c, dim, 'b')
            r = c.call((u, tuple(ty for _ in c.p.bodies[u]['g'])), pa, pb)
            A = [coord(c, dim, pa, k) for k in range(dim)]
            Q = [coord(c, dim, pb, k) for k in range(dim)]
            w = total(sq(sub(A[k], Q[k])) for k in range(dim))
            w = w if nm.startswith('sqr') else sqrt(w)
            c.eq('%s.%dd' % (nm, dim), r.ret, ok(w), u, 'sum over all axes')
            r2 = c.call((u, tuple(ty for _ in c.p.bodies[u]['g'])), pb, pa)
            c.eq('%s.%dd.swapped' % (nm, dim), r2.ret, r.ret, u, 'symmetric')
        t2, t3 = c.ty('Point2D'), c.ty('Point3D')
        r = c.call((u, (t2, t3)), point_syms(c, 2, 'a'), point_syms(c, 3, 'b'))
        c.holds(nm + '.mixed', is_err(r.ret), u, 'different numbers of dimensions are refused')
        r = c.call((u, (t3, t2)), point_syms(c, 3, 'a'), point_syms(c, 2, 'b'))
        c.holds(nm + '.mixed2', is_err(r.ret), u, 'different numbers of dimensions are refused')


def boxes(c, dim):
    ty = bbname(dim)
    a, alo, ahi, oka = box(c, dim, 'a')
    b, blo, bhi, okb = box(c, dim, 'b')
    p = sym('p')
    P = uninterp_axes(dim, p)
    R = range(dim)
    want = total(sq(maxs([sub(alo[k], P[k]), num(0), sub(P[k], ahi[k])])) for k in R)
    for nm, w in (('sqr_distance', want), ('distance', sqrt(want))):
        u = c.m(ty, '', nm)
        r = c.call(u, a, p, pc=oka)
        c.eq('box%d.%s' % (dim, nm), posval(c, r.ret, 'NonNegative')[0], w, u, 'gap to the position on every axis', pc=band(oka, r.pc))
        c.holds('box%d.%s.answers' % (dim, nm), r.pc, u, 'there is an answer', pc=oka)
    want = total(sq(maxs([sub(alo[k], bhi[k]), num(0), sub(blo[k], ahi[k])])) for k in R)
    pc = band(oka, okb)
    for nm, w in (('sqr_distance', want), ('distance', sqrt(want))):
        u, sb = c.on(ty, 'HasDistanceTo', nm, targ=ty) if nm == 'sqr_distance' else c.on(ty, 'HasDistanceTo', nm)
        if nm == 'distance':
            sb = tuple(c.ty(ty) for _ in sb)
        r = c.call((u, sb), a, b, pc=pc)
        c.eq('boxbox%d.%s' % (dim, nm), posval(c, r.ret, 'NonNegative')[0], w, u, 'gap between the boxes on every axis', pc=band(pc, r.pc))
        r2 = c.call((u, sb), b, a, pc=pc)
        c.eq('boxbox%d.%s.swapped' % (dim, nm), posval(c, r2.ret, 'NonNegative')[0], posval(c, r.ret, 'NonNegative')[0], u, 'symmetric', pc=conj([pc, r.pc, r2.pc]))
        c.holds('boxbox%d.%s.answers' % (dim, nm), r.pc, u, 'there is an answer', pc=pc)


def segment(c):
    pass

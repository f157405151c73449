"""A04: box containment and overlap look at every axis."""
from geom import *


def run(c):
    for dim in (2, 3):
        c.guard('%d' % dim, preds, c, dim)
    return {'rule': 'The boolean normal form of each predicate over the corner coordinates of constructible boxes must be equivalent to the '
            'conjunction over all axes of the defining comparison; asking the other way round gives the same form.',
            'assumptions': ['coordinates are numbers (not NaN), min < max on each axis (A03 decides that boxes are only constructed so)', 'real arithmetic (rounding ignored)']}


def preds(c, dim):
    ty = bbname(dim)
    a, alo, ahi, oka = box(c, dim, 'a')
    b, blo, bhi, okb = box(c, dim, 'b')
    pc = band(oka, okb)
    R = range(dim)
    inside = conj(band(lt(blo[k], alo[k]), lt(ahi[k], bhi[k])) for k in R)
    u = c.m(ty, '', 'is_inside')
    c.eq('is_inside%d' % dim, c.call(u, a, b, pc=pc).ret, B(inside), u, 'inside: strictly between minimum and maximum on every axis', pc=pc)
    u = c.m(ty, '', 'has_inside')
    c.eq('has_inside%d' % dim, c.call(u, b, a, pc=pc).ret, B(inside), u, 'has inside: the converse of is inside', pc=pc)
    u = c.m(ty, '', 'contains')
    p = sym('p')
    P = uninterp_axes(dim, p)
    c.eq('contains%d' % dim, c.call(u, a, p, pc=oka).ret, B(conj(band(lt(alo[k], P[k]), lt(P[k], ahi[k])) for k in R)), u,
         'contains: strictly between minimum and maximum on every axis', pc=oka)
    u = c.m(ty, '', 'collides_with')
    over = conj(band(lt(alo[k], bhi[k]), lt(blo[k], ahi[k])) for k in R)
    r1, r2 = c.call(u, a, b, pc=pc).ret, c.call(u, b, a, pc=pc).ret
    c.eq('collides_with%d' % dim, r1, B(over), u, 'overlap of the extents on every axis', pc=pc)
    c.eq('collides_with%d.swapped' % dim, r2, r1, u, 'the answer does not depend on which box is asked', pc=pc)
    c.holds('collides_with%d.self' % dim, as_bdd(c.call(u, a, a, pc=oka).ret), u, 'a box overlaps itself', pc=oka)
    n = 0
    for k in R:
        name = 'crossing_%s_value' % AX[k]
        u = c.m(ty, '', name)
        x = sym('x')
        c.eq('%s%d' % (name, dim), c.call(u, a, x, pc=oka).ret, B(band(lt(alo[k], x), lt(x, ahi[k]))), u,
             'the value lies strictly between minimum and maximum on axis ' + AX[k], pc=oka)
        n += 1

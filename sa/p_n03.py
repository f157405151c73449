"""N03: simplifying a path keeps its ends and stays within the tolerance."""
from base import *
import math
import p_m05

SLACK = 1e-9


def dist(p, a, b):
    """distance to the line through a and b (to the point if they coincide)"""
    dx, dy, px, py = b[0] - a[0], b[1] - a[1], p[0] - a[0], p[1] - a[1]
    if dx == 0 and dy == 0:
        return math.hypot(float(px), float(py))
    return abs(float(dx * py - dy * px)) / math.hypot(float(dx), float(dy))


def simplified(ps, eps):
    """a simplification as required (the induction hypothesis)"""
    if len(ps) < 3:
        return list(ps)
    d = [dist(p, ps[0], ps[-1]) for p in ps[1:-1]]
    m = max(d)
    if m <= max(float(eps), 0.0):
        return [ps[0], ps[-1]]
    k = d.index(m) + 1
    return simplified(ps[:k + 1], eps)[:-1] + simplified(ps[k:], eps)


def near(a, b):
    return all(abs(float(x) - float(y)) <= SLACK for x, y in zip(a, b))


def fits(ps, out, eps):
    """the result is a part of the path from its first to its last point, and what is left out is within the tolerance of the line between its kept neighbours"""
    eps = max(float(eps), 0.0)
    if len(ps) < 3:
        return len(out) == len(ps) and all(near(a, b) for a, b in zip(ps, out))
    n = len(ps)
    d = [dist(p, ps[0], ps[-1]) for p in ps[1:-1]]
    if max(d) <= eps - SLACK and len(out) != 2:
        return False
    if len(out) < 2 or len(out) > n:
        return False
    cur = {0} if near(out[0], ps[0]) else set()
    for q in out[1:]:
        nxt = set()
        for i in cur:
            for j in range(i + 1, n):
                if near(ps[j], q) and all(dist(ps[k], ps[i], ps[j]) <= eps + SLACK * 10 for k in range(i + 1, j)):
                    nxt.add(j)
        cur = nxt
    return n - 1 in cur


def run(c):
    c.guard('douglas_peucker_2d', path, c)
    return {'rule': 'one level of the simplification as a value-flow normal form for paths of every length up to six with symbolic positions and tolerance, the recursive calls replaced '
                    'by the induction hypothesis (their result simplifies their argument): the outcome simplifies the path',
            'assumptions': ['real arithmetic', 'termination of the recursion: both parts are shorter, checked per level']}


def path(c):
    u = c.f('douglas_peucker_2d')
    pt, pd, cd = c.ty('Point2D'), c.adt('Point2D')['d'], c.adt('PointCloud2D')['d']
    full = (u, p_m05.fullsub(c, u, P=pt))
    me = c.opname(u)
    nat = nat_hook(c.p)

    def points(e, v):
        xs = e.toseq(v).xs
        if any(not isinstance(q, evalt.Agg) for q in xs):
            raise evalt.Unsupported('a point that is not known')
        return [tuple(e.number(x) for x in q.ch) for q in xs]

    def hook(e, t):
        if t.op == 'call' and t.a[0] == me:
            v = e.ev(t.a[1][0])
            ps, eps = points(e, v.ch[0]), e.number(e.ev(t.a[1][1]))
            return evalt.Agg(cd, 0, (evalt.Seq([evalt.Agg(pd, 0, q) for q in simplified(ps, eps)]),))
        if t.op == 'call' and t.a[0] == 'SPEC::simplified':
            a, b = points(e, e.ev(t.a[1][0])), points(e, e.ev(t.a[1][1]))
            return fits(a, b, e.number(e.ev(t.a[1][2])))
        if t.op == 'call' and t.a[0] == 'SPEC::shorter':
            return len(points(e, e.ev(t.a[1][0]).ch[0])) < int(e.number(e.ev(t.a[1][1])))
        return nat(e, t)

    kw = dict(hook=hook)
    for n in range(7):
        ps = mk('agg', 'array', 0, tuple(agg(pd, 0, (sym('x%d' % i), sym('y%d' % i))) for i in range(n)))
        for nm, eps, rel in variants(n):
            q = subst(ps, rel)
            r = c.call(full, agg(cd, 0, (q,)), eps, noinline=[u], unroll=8)
            t = calls('SPEC::simplified', q, c.get(r.ret, 'PointCloud2D', 'data'), eps)
            t.meta = 'bool'
            key = 'simplify/%d/%s' % (n, nm)
            c.holds(key, atom(t), u, 'the simplified path keeps the ends and the tolerance', rounds=60, **kw)
            # the parts are shorter, so that the recursion ends
            for i, x in enumerate(sorted({x for x in subterms(r.ret) if x.op == 'call' and x.a[0] == me}, key=show)):
                s = calls('SPEC::shorter', x.a[1][0], num(n))
                s.meta = 'bool'
                c.holds('%s/part/%d' % (key, i), atom(s), u, 'the parts that are simplified are shorter than the path', pc=reached(r.ret, x), rounds=60, **kw)


def reached(t, x):
    """condition under which the outcome depends on the part"""
    g = getk(t, ('f', 0))
    out = F
    for pc, v in alts(g):
        if x in subterms(v):
            out = bor(out, pc)
    return out


def alts(t):
    return [(pc, v) for pc, v in cases(t)]


def variants(n):
    e = sym('eps')
    z = sym('x0')
    out = [('any', e, {})]
    if n >= 3:
        out.append(('vertical', e, {sym('x%d' % (n - 1)): z}))
        out.append(('closed', e, {sym('x%d' % (n - 1)): z, sym('y%d' % (n - 1)): sym('y0')}))
        out.append(('exact', num(0), {}))
    return out

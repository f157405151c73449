"""N05: separating-axis answers use every corner and every face direction of both objects."""
from base import *
import p_c01
from p_c01 import kinds, answer, some_hook, valid


def vec(c, v):
    return [getk(v, ('f', k)) for k in range(3)]


def listed(c, ty, m, me):
    """what the object hands out: [(path condition, value)]"""
    r = c.call(c.on(ty, 'IsSATObject', m), me, None, noinline=(c.m('Norm3D', 'IsNormalized3D', 'new'),))
    out = []
    for e in r.an.events:
        if e.kind == 'apply' or (e.kind == 'call' and str(e.name).split('::')[0] in ('FnMut', 'FnOnce', 'Fn')):
            a = e.args[1:]
            x = a[0].a[2][0] if a[0].op == 'agg' and a[0].a[0] == 'tuple' else a[0]
            out.append((e.pc, x))
    return out, r


def xyz(c, ty, v):
    return [c.val(c.m(ty, 'Is3D', a), v) for a in AX]


def corners(c, ty, me):
    """the corners of the solid, from its public description"""
    P = c.adt('Point3D')['d']
    if ty == 'BoundingBox3D':
        lo, hi = (c.val(c.m(ty, '', m), me) for m in ('min_p', 'max_p'))
        lo, hi = xyz(c, 'Point3D', lo), xyz(c, 'Point3D', hi)
        return [[(lo, hi)[(k >> i) & 1][i] for i in range(3)] for k in range(8)]
    if ty == 'BoxUnaligned3D':
        d = [xyz(c, 'Norm3D', x) for x in directions(c, ty, me)]
        ce = xyz(c, 'Point3D', c.get(me, ty, 'center'))
        sz = c.get(me, ty, 'size')
        h = [mul(num(Fraction(1, 2)), c.val(c.m('Positive', 'Deref', 'deref'), engine.sel(sz, num(i)))) for i in range(3)]
        out = []
        for k in range(8):
            p = []
            for a in range(3):
                q = ce[a]
                for i in range(3):
                    s = mul(h[i], d[i][a])
                    q = add(q, s) if (k >> i) & 1 else sub(q, s)
                p.append(q)
            out.append(p)
        return out
    if ty == 'TriFace3D':
        return [xyz(c, 'Point3D', c.val(c.m(ty, '', m), me)) for m in ('a', 'b', 'c')]
    return None


def directions(c, ty, me):
    n = c.m('Norm3D', 'IsNormalized3D', 'new')
    if ty == 'BoxUnaligned3D':
        return [c.val(c.m(ty, '', 'x_dir'), me, noinline=(n,)), c.get(me, ty, 'y_dir'), c.get(me, ty, 'z_dir')]
    return None


def normals(c, ty, me):
    """the face directions, as vectors of any length"""
    if ty == 'BoundingBox3D':
        return [[num(int(i == k)) for i in range(3)] for k in range(3)]
    if ty == 'BoxUnaligned3D':
        y, z = (xyz(c, 'Norm3D', c.get(me, ty, m)) for m in ('y_dir', 'z_dir'))
        return [cross(y, z), y, z]
    a, b, d = (xyz(c, 'Point3D', c.val(c.m(ty, '', m), me)) for m in ('a', 'b', 'c'))
    u, v = [sub(b[i], a[i]) for i in range(3)], [sub(d[i], a[i]) for i in range(3)]
    w = [sub(d[i], b[i]) for i in range(3)]
    n = cross(u, v)
    return [n] + [cross(n, e) for e in (u, v, w)]


def cross(u, v):
    return [sub(mul(u[1], v[2]), mul(u[2], v[1])), sub(mul(u[2], v[0]), mul(u[0], v[2])), sub(mul(u[0], v[1]), mul(u[1], v[0]))]


def dot(u, v):
    return add(add(mul(u[0], v[0]), mul(u[1], v[1])), mul(u[2], v[2]))


def same_set(e, xs, ys):
    ev = lambda v: tuple(e.number(e.ev(x)) for x in v)
    return sorted({ev(x) for x in xs}) == sorted({ev(y) for y in ys})


def run(c):
    p = c.p
    hook = some_hook(c)
    tys = sorted(ty for im, ty in c.types_with('IsSATObject'))
    c.floor('separating-axis objects', len(tys), 3)
    known = {}
    for ty in tys:
        c.guard(ty, solid, c, ty, hook, known)
    u = c.m('Collider3D', '', 'collides_with')
    ks, d = kinds(c)
    names = {i: p.type_name(p.rt(fs[0][1])) for i, n, fs in ks if len(fs) == 1}
    n = 0
    for i, ni, fi in ks:
        for j, nj, fj in ks:
            if names.get(i) in tys and names.get(j) in tys and not (names[i] == names[j] == 'BoundingBox3D'):
                n += 1
                c.guard('%s/%s' % (ni, nj), pair, c, u, d, (i, ni, names[i]), (j, nj, names[j]), hook)
    c.floor('pairs decided by separating axes', n, 8)
    return {'rule': 'corners and axes each solid hands to the test are exactly its corners and include every face direction (polynomial identity); per pair of kinds '
                    'the answer equals "on every axis of either object the projections of all corners overlap", hence objects that share a point are always '
                    'reported and objects separated along a face direction never are',
            'assumptions': ['exact arithmetic: rounding of projections is not modelled',
                            'a normalised vector is parallel to the vector it is made from (A07)']}


def solid(c, ty, hook, known):
    me = sym('me')
    ps, r = listed(c, ty, 'for_each_point', me)
    ax, r2 = listed(c, ty, 'for_each_axis', me)
    want = corners(c, ty, me)
    c.floor('%s: corners handed out' % ty, len(ps), 1)
    X = mk('call', 'SETOF', tuple(agg('t', 0, xyz(c, 'Point3D', v)) for pc, v in ps))
    Y = mk('call', 'SETOF', tuple(agg('t', 0, q) for q in want))

    def h2(e, t):
        if t.op == 'call' and t.a[0] == 'SETOF':
            s = set()
            for x in t.a[1]:
                s.add(tuple(e.number(e.ev(y)) for y in x.a[2]))
            return evalt.Seq([y for x in sorted(s) for y in x])
        if t.op == 'call' and t.a[0] == 'CROSSZERO':
            v = [e.number(e.ev(x)) for x in t.a[1]]
            n, d = v[:3], v[3:]
            cr = (n[1] * d[2] - n[2] * d[1], n[2] * d[0] - n[0] * d[2], n[0] * d[1] - n[1] * d[0])
            return cr == (0, 0, 0) and any(d)
        return hook(e, t)
    c.eq(ty + '/corners', X, Y, r.uid, 'the points handed out are the corners', hook=h2)
    for k, (pc, v) in enumerate(ps):
        c.holds('%s/corners/%d/always' % (ty, k), pc, r.uid, 'every corner is handed out for every object', hook=h2)
    for k, n in enumerate(normals(c, ty, me)):
        ok_ = F
        for pc, v in ax:
            t = mk('call', 'CROSSZERO', tuple(n) + tuple(xyz(c, 'Norm3D', v)))
            t.meta = 'bool'
            ok_ = bor(ok_, band(pc, atom(t)))

        def nondeg(e, n=n):
            return any(e.number(e.ev(x)) for x in n)
        c.holds('%s/face-direction/%d' % (ty, k), ok_, r2.uid, 'every face direction is one of the axes handed out', hook=h2, assume=nondeg)


def pair(c, u, d, x, y, hook):
    i, ni, ti = x
    j, nj, tj = y
    a, b = agg(d, i, (sym('a0'),)), agg(d, j, (sym('b0'),))
    v, pc, cyc = answer(c, u, a, b)
    if v is None:
        return
    pa, pb = corners(c, ti, sym('a0')), corners(c, tj, sym('b0'))
    axes = [xv for _, xv in listed(c, ti, 'for_each_axis', sym('a0'))[0]] + [xv for _, xv in listed(c, tj, 'for_each_axis', sym('b0'))[0]]
    axes = [xyz(c, 'Norm3D', q) for q in axes]
    t = mk('call', 'OVERLAP', (agg('t', 0, [agg('t', 0, q) for q in pa]), agg('t', 0, [agg('t', 0, q) for q in pb]), agg('t', 0, [agg('t', 0, q) for q in axes])))
    t.meta = 'bool'

    def h2(e, t):
        if t.op == 'call' and t.a[0] == 'OVERLAP':
            A, Bp, X = ([[e.number(e.ev(z)) for z in q.a[2]] for q in s.a[2]] for s in t.a[1])
            for ax in X:
                da, db = ([sum(s * t2 for s, t2 in zip(q, ax)) for q in P] for P in (A, Bp))
                if max(da) < min(db) or max(db) < min(da):
                    return False
            return True
        return hook(e, t)

    def assume(e):
        return e.bdd(band(valid(c, d, a), valid(c, d, b)))
    c.eq('%s/%s' % (ni, nj), v, B(atom(t)), u, 'colliding exactly when the projections of all corners overlap on every axis of either object', hook=h2, rounds=60, assume=assume)

"""N07: reported intersections lie on both operands, and a hit is reported when there is one."""
from base import *
from p_c01 import some_hook, valid, boxnew, boolcall
from p_n05 import xyz, cross, dot


def pt(c, n):
    d = c.adt('Point3D')['d']
    return agg(d, 0, tuple(sym('%s.%s' % (n, a)) for a in AX))


def line(c):
    nd = c.adt('Norm3D')['d']
    return c.struct('Line3D', 'l', anchor=pt(c, 'a'), dir=agg(nd, 0, tuple(sym('d.%s' % a) for a in AX)))


A, D = [sym('a.' + a) for a in AX], [sym('d.' + a) for a in AX]


def pred(name, *args):
    return atom(boolcall(name, *args))


def nums(e, t):
    return [e.number(e.ev(x)) for x in t]


def run(c):
    p = c.p
    hook0 = some_hook(c)

    def hook(e, t):
        if t.op == 'call':
            f, a = t.a
            if f == 'ON-LINE':
                v = nums(e, a)
                q, an, d = v[:3], v[3:6], v[6:9]
                r = [q[i] - an[i] for i in range(3)]
                return (r[1] * d[2] - r[2] * d[1], r[2] * d[0] - r[0] * d[2], r[0] * d[1] - r[1] * d[0]) == (0, 0, 0)
            if f == 'IN-FRONT':
                v = nums(e, a)
                return sum((v[i] - v[3 + i]) * v[6 + i] for i in range(3)) > 0
        return hook0(e, t)

    def triangle():
        u = c.f('intersection_ray_triangle')
        sub = tuple(c.ty('Point3D') if g == 'P' else None for g in p.bodies[u]['g'])
        ray = c.struct('Ray3D', 'r', line=line(c))
        vs = [pt(c, 'v%d' % i) for i in range(3)]
        V = [[sym('v%d.%s' % (i, a)) for a in AX] for i in range(3)]
        r = c.call((u, sub), ray, *vs, noinline=(c.m('Norm3D', 'IsNormalized3D', 'new'),))
        n = cross([sub_(V[1][i], V[0][i]) for i in range(3)], [sub_(V[2][i], V[1][i]) for i in range(3)])
        some = is_some(r.ret)
        q = xyz(c, 'Point3D', someval(r.ret))

        def assume(e):
            return any(nums(e, n)) and any(nums(e, D))
        kw = dict(hook=hook, assume=assume, rounds=300)
        c.holds('triangle/on-ray', imp(some, band(pred('ON-LINE', *q, *A, *D), pred('IN-FRONT', *q, *A, *D))), u, 'a reported point lies on the ray, in front of its anchor', **kw)
        c.holds('triangle/in-plane', imp(some, cmp('eq', dot(n, [sub_(q[i], V[0][i]) for i in range(3)]), num(0), True).a[0]), u,
                'a reported point lies in the plane of the triangle', **kw)
        inside = T
        for i in range(3):
            s, t = V[i], V[(i + 1) % 3]
            k = dot(n, cross([sub_(t[j], s[j]) for j in range(3)], [sub_(q[j], s[j]) for j in range(3)]))
            inside = band(inside, cmp('ge', k, num(0), True).a[0])
        c.holds('triangle/inside', imp(some, inside), u, 'a reported point lies within the triangle', **kw)

        # where the line meets the plane, by Cramer's rule; strictly inside -> reported
        b = dot(n, D)
        t_ = dot(n, [sub_(V[0][i], A[i]) for i in range(3)])
        hitp = [add(A[i], fdiv(mul(D[i], t_), b)) for i in range(3)]

        def h2(e, t):
            if t.op == 'call' and t.a[0] == 'STRICT-HIT':
                bb = e.number(e.ev(b))
                if bb == 0:
                    return False
                tt = e.number(e.ev(t_)) / bb
                if tt <= 0:
                    return False
                h = [x + y * tt for x, y in zip(nums(e, A), nums(e, D))]
                nn = nums(e, n)
                VV = [nums(e, v) for v in V]
                for i in range(3):
                    s, w = VV[i], VV[(i + 1) % 3]
                    x, y = [w[j] - s[j] for j in range(3)], [h[j] - s[j] for j in range(3)]
                    cr = (x[1] * y[2] - x[2] * y[1], x[2] * y[0] - x[0] * y[2], x[0] * y[1] - x[1] * y[0])
                    if sum(nn[j] * cr[j] for j in range(3)) <= 0:
                        return False
                return True
            return hook(e, t)
        c.holds('triangle/complete', imp(pred('STRICT-HIT', sym('x')), some), u, 'a ray through the inside of the triangle is reported',
                hook=h2, assume=assume, rounds=1500)
        # aimed at a point inside the triangle: the ray hits it whatever the numbers are
        w0, w1, w2 = sym('n_w0'), sym('n_w1'), sym('n_w2')
        tot = add(add(w0, w1), add(w2, num(3)))
        tgt = [fdiv(add(add(mul(add(w0, num(1)), V[0][i]), mul(add(w1, num(1)), V[1][i])), mul(add(w2, num(1)), V[2][i])), tot) for i in range(3)]
        nd = c.adt('Norm3D')['d']
        aim = c.struct('Ray3D', 'r', line=c.struct('Line3D', 'l', anchor=pt(c, 'a'), dir=agg(nd, 0, tuple(sub_(tgt[i], A[i]) for i in range(3)))))
        r2 = c.call((u, sub), aim, *vs, noinline=(c.m('Norm3D', 'IsNormalized3D', 'new'),))

        def assume2(e):
            nn, dd = nums(e, n), [x - y for x, y in zip(nums(e, tgt), nums(e, A))]
            return any(nn) and sum(x * y for x, y in zip(nn, dd)) != 0
        c.holds('triangle/aimed', is_some(r2.ret), u, 'a ray aimed at a point inside the triangle is reported', hook=hook, assume=assume2, rounds=300)
        q2 = xyz(c, 'Point3D', someval(r2.ret))
        for i, a in enumerate(AX):
            c.eq('triangle/aimed/' + a, q2[i], tgt[i], u, 'the point aimed at is the point reported', pc=is_some(r2.ret), hook=hook, assume=assume2, rounds=100)
    c.guard('triangle', triangle)

    def box():
        u = c.f('intersection')
        b = sym('b')
        lo, hi = (xyz(c, 'Point3D', c.val(c.m('BoundingBox3D', '', m), b)) for m in ('min_p', 'max_p'))
        mi, ma = c.val(c.m('BoundingBox3D', '', 'min_p'), b), c.val(c.m('BoundingBox3D', '', 'max_p'), b)
        ok_ = is_ok(c.val(boxnew(c), mi, ma))
        r = c.call(u, line(c), b)
        some = is_some(r.ret)
        q = xyz(c, 'Point3D', someval(r.ret))

        def assume(e):
            return e.bdd(ok_) and all(nums(e, D))
        kw = dict(hook=hook, assume=assume, rounds=300)
        c.holds('box/on-line', imp(some, pred('ON-LINE', *q, *A, *D)), u, 'a reported point lies on the line', **kw)
        for i, a in enumerate(AX):
            c.holds('box/inside/' + a, imp(some, band(cmp('ge', q[i], lo[i], True).a[0], cmp('le', q[i], hi[i], True).a[0])), u, 'a reported point lies within the box on the axis', **kw)

        def h2(e, t):
            if t.op == 'call' and t.a[0] == 'HITS':
                an, d, l, h = nums(e, A), nums(e, D), nums(e, lo), nums(e, hi)
                t0, t1 = 0, None
                for i in range(3):
                    x, y = sorted(((l[i] - an[i]) / d[i], (h[i] - an[i]) / d[i]))
                    t0 = max(t0, x)
                    t1 = y if t1 is None else min(t1, y)
                return t1 >= t0
            return hook(e, t)
        c.eq('box/complete', B(some), B(pred('HITS', sym('x'))), u, 'a hit is reported exactly when the line passes through the box ahead of its anchor', hook=h2, assume=assume, rounds=400)
    c.guard('box', box)

    inter = c.f('intersection')
    BBM = 'HasBoundingBox3DMaybe::bounding_box_maybe'
    IN = c.opname(inter)
    ray = sym('ray')
    rl = c.get(ray, 'Ray3D', 'line')
    pd = c.adt('Point3D')['d']
    OPT = 'core::option::Option'

    def hit(x):
        bb = calls(BBM, x)
        return is_some(bb), calls(IN, rl, someval(bb))

    def closest(name, index):
        u = c.f(name)
        for k in range(4):
            xs = [sym('e%d' % i) for i in range(k)]
            r = c.call(u, ray, mk('agg', 'array', 0, tuple(xs)), noinline=(inter,))
            some = is_some(r.ret)
            v = someval(r.ret)
            p0, w = getk(v, ('f', 0)), getk(v, ('f', 1))
            hits, pts = [], []
            anyhit = F
            for x in xs:
                hb, i = hit(x)
                h = band(hb, is_some(i))
                hits.append(h)
                pts.append(someval(i))
                anyhit = bor(anyhit, h)
            c.eq('%s/%d/some' % (name, k), B(some), B(anyhit), u, 'something is reported exactly when something is hit, of %d' % k)
            good = F
            anchor = c.get(rl, 'Line3D', 'anchor')
            an = [c.get(anchor, 'Point3D', a) for a in AX]
            dirs = [c.get(c.get(rl, 'Line3D', 'dir'), 'Norm3D', a) for a in AX]
            dd = [mk('call', 'SQR-DIST', tuple(an) + tuple(c.get(q, 'Point3D', a) for a in AX)) for q in pts]
            for i in range(k):
                g = hits[i]
                g = band(g, cmp('eq', w, num(i), False).a[0] if index else pred('SAME', w, xs[i]))
                g = band(g, pred('SAME', p0, pts[i]))
                for j in range(k):
                    g = band(g, imp(hits[j], cmp('le', dd[i], dd[j], True).a[0]))
                good = bor(good, g)

            def h3(e, t):
                if t.op == 'call' and t.a[0] == 'SAME':
                    return e.eq(e.ev(t.a[1][0]), e.ev(t.a[1][1]))
                if t.op == 'call' and t.a[0] == 'SQR-DIST':
                    v = nums(e, t.a[1])
                    return sum((v[i] - v[3 + i]) ** 2 for i in range(3))
                if t.op == 'call' and t.a[0] == IN and t.a[1][0] is rl:
                    # some point of the ray, or none
                    k = int(evalt._h('hit', e.seed, e.mode, repr(evalt.key(e.ev(t.a[1][1]))))[:6], 16)
                    if k % 8 == 0:
                        return evalt.Agg(OPT, 0, [])
                    f = Fraction(k // 8 % 7)
                    return evalt.Agg(OPT, 1, [evalt.Agg(pd, 0, [x + f * y for x, y in zip(nums(e, an), nums(e, dirs))])])
                return nat_hook(p)(e, t)
            c.holds('%s/%d/closest' % (name, k), imp(some, good), u, 'the hit reported is the nearest one, with its element, of %d' % k, hook=h3, rounds=300)
    for name, index in (('closest_intersecting', False), ('closest_intersecting_mut', False), ('index_closest_intersecting', True)):
        c.guard(name, closest, name, index)

    def each():
        u = c.f('for_each_intersecting')
        for k in range(4):
            xs = [sym('e%d' % i) for i in range(k)]
            r = c.call(u, sym('arg0'), mk('agg', 'array', 0, tuple(xs)), None, noinline=(inter,), unroll=k + 1)
            ev = [e for e in r.an.events if str(e.name).split('::')[0] in ('FnMut', 'FnOnce', 'Fn')]
            seen = []
            for i, x in enumerate(xs):
                got, el = F, x
                for e in ev:
                    a = e.args[-1]
                    a = a.a[2] if a.op == 'agg' and a.a[0] == 'tuple' else e.args[1:]
                    if len(a) == 2 and (a[1] is x or (a[1].op == 'phi' and a[1].a[0] == ('M', x))):
                        if got is not F:
                            c.holds('for_each_intersecting/%d/%d/once' % (k, i), bnot(band(got, e.pc)), u, 'an element is handed over once')
                        got, el = bor(got, e.pc), a[1]
                        seen.append(e)
                        it = calls(IN, c.get(sym('arg0'), 'Ray3D', 'line'), someval(calls(BBM, el)))
                        c.eq('for_each_intersecting/%d/%d/point' % (k, i), a[0], someval(it), u, 'the point handed over', pc=e.pc)
                bb = calls(BBM, el)
                it = calls(IN, c.get(sym('arg0'), 'Ray3D', 'line'), someval(bb))
                c.eq('for_each_intersecting/%d/%d' % (k, i), B(got), B(band(is_some(bb), is_some(it))), u, 'an element is handed over exactly when it is hit')
            for e in ev:
                if e not in seen and e.pc != F:
                    c.undecided('for_each_intersecting/%d' % k, 'a call with other arguments')
    c.guard('for_each_intersecting', each)

    def mesh():
        u = c.f('collect_intersections_ray_mesh')
        tri = c.f('intersection_ray_triangle')
        tn = c.opname(tri)
        for k in range(3):
            def h4(e, t):
                if t.op == 'call' and t.a[0].endswith('IsMesh::num_faces'):
                    return Fraction(k)
                return nat_hook(p)(e, t)
            old = sym('old')
            m = sym('mesh')
            r = c.call(u, ray, m, old, noinline=(tri,))
            got = r.post(2)
            fid = c.p.adts[c.adt('FId')['d']]['d']
            want = old
            parts = []
            for i in range(k):
                fv = calls('IsMesh::face_vertices', m, agg(fid, 0, (num(i),)))
                vs = someval(fv)
                parts.append(mk('call', tn, (ray,) + tuple(engine.sel(vs, num(j)) for j in range(3))))
            t = mk('call', 'HITS-OF', (old,) + tuple(parts))

            def h5(e, t, k=k):
                if t.op == 'call' and t.a[0] == 'HITS-OF':
                    xs = list(e.toseq(e.ev(t.a[1][0])).xs)
                    for q in t.a[1][1:]:
                        if e.bdd(is_some(q)):
                            xs.append(e.ev(someval(q)))
                    return evalt.Seq(xs)
                return h4(e, t)
            c.eq('mesh/%d' % k, got, t, u, 'every hit of every face is collected, of %d faces' % k, hook=h5)
    c.guard('mesh', mesh)
    return {'rule': 'incidence of reported points as identities of rational functions of the inputs (exact arithmetic), completeness by comparison with the definition of a hit; '
                    'closest-hit queries over up to 3 elements with arbitrary hits and distances, in any order',
            'assumptions': ['exact arithmetic; lines parallel to an axis (division by a zero direction component) are not decided for boxes', 'triangles span a plane']}


def sub_(a, b):
    return sub(a, b)


def imp(a, b):
    return bor(bnot(a), b)

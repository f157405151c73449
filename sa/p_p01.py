"""P01: generated shapes, curves, interpolations and projections consist of the documented points."""
from base import *
import math
import p_m05
from engine import length, sel


def fr(*xs):
    return int(evalt._h(*xs)[:8], 16)


def trig(e, name, x):
    """a pair of functions with cos^2 + sin^2 = 1, cos(0) = 1, the right symmetries, else arbitrary"""
    a = abs(Fraction(x))
    if a == 0:
        return Fraction(1 if name == 'cos' else 0)
    k = Fraction(fr('trig', e.seed, str(a)) % 40 - 20, 7)
    if name == 'cos':
        return (1 - k * k) / (1 + k * k)
    s = 2 * k / (1 + k * k)
    return s if x > 0 else -s


def path(e, base):
    """positions of a sequence of base points"""
    out = []
    for x in e.toseq(e.ev(base)).xs:
        out.append(tuple(e.number(e.field(x, ('f', k))) for k in (0, 1)))
    return out


def along(e, base, n, k, kind):
    ps = path(e, base)
    segs = [math.hypot(float(b[0] - a[0]), float(b[1] - a[1])) for a, b in zip(ps, ps[1:])]
    n, k = int(n), int(k)
    s = sum(segs) * k / max(n - 1, 1)
    for i, d in enumerate(segs):
        if s <= d or i == len(segs) - 1:
            t = min(max(s / d, 0.0), 1.0) if d > 0 else 0.0
            break
        s -= d
    a, b = ps[i], ps[i + 1]
    x = float(a[0]) + t * float(b[0] - a[0])
    if kind == 'linear':
        return x, float(a[1]) + t * float(b[1] - a[1])
    w = (1 - math.cos(math.pi * t)) / 2
    return x, float(a[1]) + w * float(b[1] - a[1])


def bezier(e, base, n, k):
    ps = path(e, base)
    t = Fraction(int(k), int(n)) if n else Fraction(0)
    m = len(ps) - 1
    w = [math.comb(m, i) * t ** i * (1 - t) ** (m - i) for i in range(m + 1)]
    return tuple(sum(a * p[j] for a, p in zip(w, ps)) for j in (0, 1))


def hook(nat, numeric=False):
    def h(e, t):
        if t.op == 'call':
            n, a = t.a[0], t.a[1]
            if n in ('cos', 'sin') and len(a) == 1:
                x = e.number(e.ev(a[0]))
                if isinstance(x, float) or numeric:
                    x = float(x)
                    return math.cos(x) if n == 'cos' else math.sin(x)
                return trig(e, n, x)
            if n == 'powi' and len(a) == 2:
                x, k = e.number(e.ev(a[0])), e.number(e.ev(a[1]))
                if x == 0 and k < 0:
                    raise evalt.Unsupported('division by zero')
                return x ** int(k)
            if n == 'SPEC::bezier':
                r = bezier(e, a[0], e.number(e.ev(a[1])), e.number(e.ev(a[2])))
                return r[int(e.number(e.ev(a[3])))]
            if n in ('SPEC::linear', 'SPEC::cosine'):
                r = along(e, a[0], e.number(e.ev(a[1])), e.number(e.ev(a[2])), n[6:])
                return r[int(e.number(e.ev(a[3])))]
        return nat(e, t)
    return h


def substb(pc, m):
    return as_bdd(subst(B(pc), m))


LARGE = (300, 70001)
WALKED = (21,)


def data(c, v):
    return c.get(v, 'PointCloud2D', 'data')


def run(c):
    E = Shapes(c)
    for f in ('rectangle', 'arc', 'involut_circle', 'ellipse', 'interpolate_bezier', 'interpolation_linear', 'interpolate_cosine',
              'normal_of_face', 'project_point_on_plane', 'turned_box'):
        c.guard(f, getattr(E, f))
    return {'rule': 'value-flow normal form of the k-th generated point, for symbolic parameters, point counts and k, equals the documented point; as many points as asked for',
            'assumptions': ['real arithmetic', 'sine and cosine are two functions with cos(0) = 1, the usual symmetries and squares that add up to one']}


class Shapes:
    def __init__(self, c):
        self.c = c
        self.pt = c.ty('Point2D')
        self.kw = dict(hook=hook(nat_hook(c.p)), maxlen=(0, 2, 3, 5), rounds=300)
        self.n, self.k = sym('n_points'), sym('n_k')
        self.ctr = agg(c.adt('Point2D')['d'], 0, (sym('cx'), sym('cy')))
        self.inside = as_bdd(cmp('lt', self.k, self.n, False))

    def call(self, name, *a):
        c = self.c
        u = c.f(name)
        r = c.call((u, p_m05.fullsub(c, u, P=self.pt)), *a)
        return u, r

    def positive(self, name):
        d = self.c.adt('Positive')['d']
        return agg(d, 0, (sym(name),))

    def rad(self, name):
        return agg(self.c.adt('Rad')['d'], 0, (sym(name),))

    def xy(self, q):
        return getk(q, ('f', 0)), getk(q, ('f', 1))

    def rectangle(self):
        c = self.c
        u, r = self.call('rectangle', self.ctr, self.positive('w'), self.positive('h'))
        d = data(c, r.ret)
        c.eq('rectangle/count', length(d), num(4), u, 'a rectangle has four corners', **self.kw)
        half = num(Fraction(1, 2))
        cs = []
        for i in range(4):
            x, y = self.xy(sel(d, num(i)))
            dx, dy = sub(x, sym('cx')), sub(y, sym('cy'))
            c.eq('rectangle/width/%d' % i, mul(dx, dx), mul(num(Fraction(1, 4)), mul(sym('w'), sym('w'))), u, 'every corner is half the width from the centre', **self.kw)
            c.eq('rectangle/height/%d' % i, mul(dy, dy), mul(num(Fraction(1, 4)), mul(sym('h'), sym('h'))), u, 'every corner is half the height from the centre', **self.kw)
            cs.append((dx, dy))
        pos = band(as_bdd(cmp('gt', sym('w'), num(0), True)), as_bdd(cmp('gt', sym('h'), num(0), True)))
        for i in range(4):
            (ax, ay), (bx, by) = cs[i], cs[(i + 1) % 4]
            w = sub(mul(ax, by), mul(ay, bx))
            c.eq('rectangle/order/%d' % i, w, mul(half, mul(sym('w'), sym('h'))), u, 'the corners follow each other around the centre', pc=pos, **self.kw)

    def step(self, a, b):
        return fdiv(sub(b, a), sub(self.n, num(1)))

    def generated(self, key, u, r, nm):
        c = self.c
        d = data(c, r.ret)
        c.eq(key + '/count', length(d), self.n, u, 'as many points as asked for', **self.kw)
        return self.xy(sel(d, self.k))

    def arc(self):
        c = self.c
        s, t = sym('start'), sym('end')
        u, r = self.call('arc', self.ctr, self.n, self.positive('d'), self.rad('start'), self.rad('end'))
        x, y = self.generated('arc', u, r, 'arc')
        two = as_bdd(cmp('ge', self.n, num(2), False))
        pc = band(band(self.inside, two), as_bdd(cmp('le', s, t, True)))
        ang = add(s, mul(self.k, self.step(s, t)))
        rr = mul(num(Fraction(1, 2)), sym('d'))
        c.eq('arc/x', x, add(sym('cx'), mul(rr, calls('cos', ang))), u, 'x of the k-th point', pc=pc, **self.kw)
        c.eq('arc/y', y, add(sym('cy'), mul(rr, calls('sin', ang))), u, 'y of the k-th point', pc=pc, **self.kw)
        self.many('arc', u, [(x, add(sym('cx'), mul(rr, calls('cos', ang)))), (y, add(sym('cy'), mul(rr, calls('sin', ang))))], pc)
        one = band(self.inside, as_bdd(cmp('eq', self.n, num(1), False)))
        c.eq('arc/single/x', x, add(sym('cx'), mul(rr, calls('cos', s))), u, 'a single point is at the start', pc=one, **self.kw)
        c.eq('arc/single/y', y, add(sym('cy'), mul(rr, calls('sin', s))), u, 'a single point is at the start', pc=one, **self.kw)

    def involut_circle(self):
        c = self.c
        s, t = sym('start'), sym('end')
        u, r = self.call('involut_circle', self.ctr, self.n, self.positive('d'), self.rad('start'), self.rad('end'))
        x, y = self.generated('involute', u, r, 'involute')
        two = as_bdd(cmp('ge', self.n, num(2), False))
        rr = mul(num(Fraction(1, 2)), sym('d'))
        one = as_bdd(cmp('eq', self.n, num(1), False))
        for nm, pc, a in (('', band(two, as_bdd(cmp('le', s, t, True))), add(s, mul(self.k, self.step(s, t)))), ('/single', one, s)):
            pc = band(self.inside, pc)
            co, si = calls('cos', a), calls('sin', a)
            c.eq('involute/x' + nm, x, add(sym('cx'), mul(rr, add(co, mul(a, si)))), u, 'x of the k-th point', pc=pc, **self.kw)
            c.eq('involute/y' + nm, y, add(sym('cy'), mul(rr, sub(si, mul(a, co)))), u, 'y of the k-th point', pc=pc, **self.kw)
            if not nm:
                self.many('involute', u, [(x, add(sym('cx'), mul(rr, add(co, mul(a, si))))), (y, add(sym('cy'), mul(rr, sub(si, mul(a, co)))))], pc)

    def ellipse(self):
        c = self.c
        u, r = self.call('ellipse', self.ctr, self.n, self.positive('a'), self.positive('b'))
        x, y = self.generated('ellipse', u, r, 'ellipse')
        a, b = sym('a'), sym('b')
        dx, dy = sub(x, sym('cx')), sub(y, sym('cy'))
        w = add(mul(mul(dx, dx), mul(b, b)), mul(mul(dy, dy), mul(a, a)))
        two = as_bdd(cmp('ge', self.n, num(2), False))
        pos = band(as_bdd(cmp('gt', a, num(0), True)), as_bdd(cmp('gt', b, num(0), True)))
        c.eq('ellipse/on', w, mul(mul(a, a), mul(b, b)), u, 'every point lies on the ellipse', pc=band(pos, self.inside), **self.kw)
        self.many('ellipse', u, [(w, mul(mul(a, a), mul(b, b)))], band(pos, self.inside))
        first = band(self.inside, as_bdd(cmp('eq', self.k, num(0), False)))
        c.eq('ellipse/first', x, add(sym('cx'), a), u, 'the first point is on the main axis', pc=first, **self.kw)

    def base(self):
        b = sym('base')
        v = agg(self.c.adt('PointCloud2D')['d'], 0, (b,))
        return b, v

    def interpolated(self, name):
        c = self.c
        b, v = self.base()
        u, r = self.call(name, v, self.n)
        few = as_bdd(cmp('lt', length(b), num(2), False))
        c.eq(name + '/accepted', B(is_ok(r.ret)), B(bnot(few)), u, 'refused exactly for fewer than two base points', **self.kw)
        d = data(c, okval(r.ret))
        c.eq(name + '/count', length(d), self.n, u, 'as many points as asked for', pc=bnot(few), **self.kw)
        return u, b, self.xy(sel(d, self.k)), band(bnot(few), self.inside)

    def interpolate_bezier(self):
        c = self.c
        u, b, q, pc = self.interpolated('interpolate_bezier')
        for j in (0, 1):
            c.eq('interpolate_bezier/' + 'xy'[j], q[j], calls('SPEC::bezier', b, self.n, self.k, num(j)), u,
                 'the Bernstein combination of the base points at k/n', pc=pc, **self.kw)
        self.many('interpolate_bezier', u, [(q[j], calls('SPEC::bezier', b, self.n, self.k, num(j))) for j in (0, 1)], pc, dict(self.kw, maxlen=(2, 4, 8)), (210,))

    def interpolation_linear(self):
        c = self.c
        u, b, q, pc = self.interpolated('interpolation_linear')
        for j in (0, 1):
            c.eq('interpolation_linear/' + 'xy'[j], q[j], calls('SPEC::linear', b, self.n, self.k, num(j)), u,
                 'the point of the path at the k-th of equal distances along it', pc=pc, **self.kw)
        self.many('interpolation_linear', u, [(q[j], calls('SPEC::linear', b, self.n, self.k, num(j))) for j in (0, 1)], pc, None, WALKED)

    def interpolate_cosine(self):
        c = self.c
        u, b, q, pc = self.interpolated('interpolate_cosine')
        c.eq('interpolate_cosine/x', q[0], calls('SPEC::linear', b, self.n, self.k, num(0)), u,
             'x is that of the path at the k-th of equal distances along it', pc=pc, **self.kw)
        kw = dict(self.kw, hook=hook(nat_hook(c.p), numeric=True))
        w = calls('SPEC::cosine', b, self.n, self.k, num(1))
        c.eq('interpolate_cosine/y', q[1], w, u, 'y follows a half cosine wave from one base point to the next', pc=pc, **kw)
        self.many('interpolate_cosine', u, [(q[0], calls('SPEC::linear', b, self.n, self.k, num(0))), (q[1], w)], pc, kw, WALKED)

    def many(self, key, u, pairs, pc, kw=None, sizes=LARGE):
        """the same for large numbers of points"""
        kw = dict(kw or self.kw, rounds=4)
        for n in sizes:
            for nm, k in (('second', 1), ('middle', n // 2), ('last', n - 1)):
                m = {self.n: num(n), self.k: num(k)}
                for j, (x, w) in enumerate(pairs):
                    self.c.eq('%s/%s/%d/%s' % (key, 'xy'[j], n, nm), subst(x, m), subst(w, m), u, 'the %s of %d points' % (nm, n), pc=substb(pc, m), **kw)

    # ------------------------------------------------------------------ space
    def p3(self, n):
        return agg(self.c.adt('Point3D')['d'], 0, tuple(sym(n + x) for x in AX))

    def normal_of_face(self):
        c = self.c
        u = c.f('normal_of_face')
        a, b, d = self.p3('a'), self.p3('b'), self.p3('d')
        r = c.call((u, p_m05.fullsub(c, u, P=c.ty('Point3D'))), a, b, d)
        g = lambda q: [getk(q, ('f', i)) for i in range(3)]
        A, Bp, D = g(a), g(b), g(d)
        n = g(r.ret)
        ab, ad = [sub(y, x) for x, y in zip(A, Bp)], [sub(y, x) for x, y in zip(A, D)]
        cr = [sub(mul(ab[1], ad[2]), mul(ab[2], ad[1])), sub(mul(ab[2], ad[0]), mul(ab[0], ad[2])), sub(mul(ab[0], ad[1]), mul(ab[1], ad[0]))]
        dot = lambda x, y: add(add(mul(x[0], y[0]), mul(x[1], y[1])), mul(x[2], y[2]))
        l2 = dot(cr, cr)
        some_ = as_bdd(cmp('gt', l2, num(0), True))
        c.eq('normal_of_face/unit', dot(n, n), num(1), u, 'the normal has length one', pc=some_, rounds=200)
        for nm, e in (('first', ab), ('second', ad)):
            c.eq('normal_of_face/perpendicular/' + nm, dot(n, e), num(0), u, 'the normal is perpendicular to the edges', pc=some_, rounds=200)
        c.holds('normal_of_face/side', as_bdd(cmp('gt', dot(n, cr), num(0), True)), u, 'the normal is on the side from which the corners turn left', pc=some_, rounds=200)

    def project_point_on_plane(self):
        c = self.c
        u = c.f('project_point_on_plane')
        p3, n3 = c.ty('Point3D'), c.ty('Norm3D')
        nd = c.adt('Norm3D')['d']
        U, V = (agg(nd, 0, tuple(sym(n + x) for x in AX)) for n in ('u', 'v'))
        pl = c.val(c.on('Plane3D', 'IsPlane3D', 'new', P=p3, N=n3), self.p3('o'), U, V)
        s = p_m05.fullsub(c, u, PL=c.ty('Plane3D', p3, n3), P2=self.pt, P3=p3, N=n3)
        r = c.call((u, s), pl, self.p3('q'))
        for j, n in enumerate('uv'):
            want = num(0)
            for x in AX:
                want = add(want, mul(sym(n + x), sub(sym('q' + x), sym('o' + x))))
            c.eq('project_point_on_plane/' + n, getk(r.ret, ('f', j)), want, u, 'the component of the vector from the origin of the plane along its direction ' + n, rounds=200)

    def turned_box(self):
        c = self.c
        u = c.m('BoxUnaligned3D', None, 'new_from_z_rotation')
        sz = agg('array', 0, tuple(self.positive('s' + x) for x in AX))
        r = c.call((u, p_m05.fullsub(c, u, P=c.ty('Point3D'))), self.p3('m'), sz, sym('phi'))
        get = lambda n: c.get(r.ret, 'BoxUnaligned3D', n)
        for i, x in enumerate(AX):
            c.eq('turned_box/centre/' + x, getk(get('center'), ('f', i)), sym('m' + x), u, 'the box has the given centre', **self.kw)
            c.eq('turned_box/size/' + x, getk(sel(get('size'), num(i)), ('f', 0)), sym('s' + x), u, 'the box has the given size', **self.kw)
        # the sense of the rotation is left open
        y = [getk(get('y_dir'), ('f', i)) for i in range(3)]
        si, co = calls('sin', sym('phi')), calls('cos', sym('phi'))
        for nm, a, b in (('x', mul(y[0], y[0]), mul(si, si)), ('y', y[1], co), ('z', y[2], num(0))):
            c.eq('turned_box/y/' + nm, a, b, u, 'its second direction is the y axis turned by the angle', **self.kw)
        for i, w in enumerate((0, 0, 1)):
            c.eq('turned_box/z/%d' % i, getk(get('z_dir'), ('f', i)), num(w), u, 'its third direction is the z axis', **self.kw)

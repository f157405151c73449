"""A07: vector and matrix algebra follow their definitions."""
from geom import *
import p_a02

OPS = {'Add': '+', 'Sub': '-', 'Mul': '*', 'Div': '/', 'Neg': 'neg'}


def run(c):
    c.guard('operators', operators, c)
    for dim in (2, 3):
        c.guard('vec%d' % dim, vectors, c, dim)
        c.guard('editable%d' % dim, editable, c, dim)
        c.guard('norm%d' % dim, norm, c, dim)
        c.guard('matrix%d' % dim, matrix, c, dim)
        c.guard('apply%d' % dim, apply_, c, dim)
        c.guard('pipe%d' % dim, pipe, c, dim)
        c.guard('transform%d' % dim, transform, c, dim)
    c.guard('free', free, c)
    return {'rule': 'The normal form of every component of each vector and matrix operation (any overload found in the source) must equal its textbook definition '
            'over the components of the operands; collections: element by element; a transformed copy equals transforming in place.',
            'assumptions': ['real arithmetic (rounding ignored)', 'sin and cos are uninterpreted functions with sin odd and cos even']}


def dref(t):
    while t[0] == 'ref':
        t = t[2]
    return t


def tname(c, t):
    t = dref(t)
    return c.p.type_name(t) if t[0] == 'adt' else ('f64' if t == ('f64',) or (t[0] in ('prim', 'float') and 'f64' in str(t)) else (t[0]))


def fl(op, a, b):
    return {'+': add, '-': sub, '*': mul, '/': fdiv}[op](a, b)


def axes_of(c, dim, ty, v):
    """components of a vector-like operand of named type"""
    if ty in c.p.adt_by_name and c.has(ty, 'Is%dD' % dim, 'x'):
        return [c.val(c.m(ty, 'Is%dD' % dim, AX[k]), v) for k in range(dim)]
    return uninterp_axes(dim, v)


def entry(c, n, m, i, j):
    return engine.sel(engine.sel(c.get(m, 'Matrix%d' % n, 'data'), num(i)), num(j))


def operators(c):
    cnt = 0
    for im in c.p.impls:
        op = OPS.get(str(im.get('tr') or '').split('::')[-1])
        if op is None or 'ops' not in str(im.get('tr')):
            continue
        st = c.p.rt(im['self'])
        ty = tname(c, st)
        if ty not in ('Point2D', 'Point3D', 'Norm2D', 'Norm3D', 'Matrix3', 'Matrix4'):
            continue
        cnt += 1
        u = im['m'][0][1]
        key = '%s.%s.%s' % (im['tr'].split('::')[-1], c.p.tyname(st) if hasattr(c.p, 'tyname') else (('&' if st[0] == 'ref' else '') + ty), cnt)
        ot = tname(c, c.p.rt(im['ta'][1])) if len(im.get('ta', [])) > 1 and isinstance(im['ta'][1], int) else ty
        c.guard(key, operator, c, key, u, op, ty, ot)
    c.floor('operator overloads', cnt, 38)


def operator(c, key, u, op, ty, ot):
    a, b = sym('a'), sym('b')
    if ty.startswith('Matrix'):
        n = int(ty[-1])
        r = c.val(u, a, b)
        for i in range(n):
            for j in range(n):
                if ot == ty:
                    want = num(0)
                    for k in range(n):
                        want = add(want, mul(entry(c, n, a, i, k), entry(c, n, b, k, j)))
                else:
                    want = mul(entry(c, n, a, i, j), b)
                c.eq('%s[%d][%d]' % (key, i, j), entry(c, n, r, i, j), want, u, 'entry of a matrix product')
        return
    dim = int(ty[-2])
    A = axes_of(c, dim, ty, a)
    out = c.p.type_name(dref(c.p.rt(c.p.bodies[u]['locals'][0][0])))
    pc = T
    if op == 'neg':
        r = c.call(u, a)
        want = [neg(x) for x in A]
    else:
        if op == '/':
            pc = bnot(as_bdd(cmp('eq', b, num(0), True)))
        r = c.call(u, a, b, pc=pc)
        if ot in ('f64',):
            want = [fl(op, x, b) for x in A]
        else:
            B_ = axes_of(c, dim, ot, b)
            want = [fl(op, x, y) for x, y in zip(A, B_)]
    got = axes_of(c, dim, out, r.ret)
    for k in range(dim):
        c.eq('%s.%s' % (key, AX[k]), got[k], want[k], u, 'component %s of %s' % (AX[k], key), pc=pc)


def total(xs):
    r = num(0)
    for x in xs:
        r = add(r, x)
    return r


def built(c, dim, v):
    """components of a value made by the uninterpreted constructor of a buildable type"""
    return v


def vectors(c, dim):
    P = c.ty('Point%dD' % dim)
    pt = 'Point%dD' % dim
    a, b = point_syms(c, dim, 'a'), point_syms(c, dim, 'b')
    A, Q = axes_of(c, dim, pt, a), axes_of(c, dim, pt, b)
    tr = 'Is%dD' % dim
    u = c.on(pt, tr, 'dot')
    c.eq('dot%d' % dim, c.val(u, a, sym('o')), total(mul(A[k], calls('%s::%s' % (tr, AX[k]), sym('o'))) for k in range(dim)), u, 'dot product')
    if dim == 2:
        u = c.on(pt, tr, 'cross')
        O = uninterp_axes(2, sym('o'))
        c.eq('cross2', c.val(u, a, sym('o')), sub(mul(A[0], O[1]), mul(A[1], O[0])), u, 'cross product')
    u = c.on(pt, tr, 'abs')
    ln = sqrt(total(mul(x, x) for x in A))
    r = c.call(u, a)
    c.eq('abs%d' % dim, posval(c, r.ret, 'NonNegative')[0], ln, u, 'length', pc=r.pc)
    # buildable
    tb = 'IsBuildable%dD' % dim
    u = c.on(pt, tb, 'normalized')
    r = c.call(u, a)
    zero = conj(as_bdd(cmp('eq', x, num(0), True)) for x in A)
    c.eq('normalized%d.refuses' % dim, B(is_err(r.ret)), B(zero), u, 'exactly the zero vector has no direction', pc=r.pc)
    g = axes_of(c, dim, pt, okval(r.ret))
    for k in range(dim):
        c.eq('normalized%d.%s' % (dim, AX[k]), g[k], fdiv(A[k], ln), u, 'component divided by the length', pc=band(r.pc, bnot(zero)))
    u = c.on(pt, tb, 'zero')
    g = axes_of(c, dim, pt, c.val(u))
    for k in range(dim):
        c.eq('zero%d.%s' % (dim, AX[k]), g[k], num(0), u, 'zero')
    u = c.on(pt, tb, 'center', P=P)
    g = axes_of(c, dim, pt, c.val(u, a, b))
    u2 = c.f('center_%dd' % dim)
    g2 = axes_of(c, dim, pt, c.val((u2, (P,)), a, b))
    for k in range(dim):
        w = mul(HALF, add(A[k], Q[k]))
        c.eq('center%d.%s' % (dim, AX[k]), g[k], w, u, 'centre of two positions')
        c.eq('center_%dd.%s' % (dim, AX[k]), g2[k], w, u2, 'centre of two positions')


def editable(c, dim):
    pt, te = 'Point%dD' % dim, 'IsEditable%dD' % dim
    P = c.ty(pt)
    a, b = point_syms(c, dim, 'a'), point_syms(c, dim, 'b')
    A, Q = axes_of(c, dim, pt, a), axes_of(c, dim, pt, b)
    f, fi = posval(c, sym('f'))
    for nm, arg, want, pc in (('add', b, [add(A[k], Q[k]) for k in range(dim)], T),
                              ('subtract', b, [sub(A[k], Q[k]) for k in range(dim)], T),
                              ('scale_pos', sym('s'), [mul(sym('s'), A[k]) for k in range(dim)], T)):
        u = c.on(pt, te, nm, P=P)
        g = axes_of(c, dim, pt, c.call(u, a, arg, pc=pc).post(0))
        for k in range(dim):
            c.eq('%s%d.%s' % (nm, dim, AX[k]), g[k], want[k], u, '%s, component %s' % (nm, AX[k]), pc=pc)
    u = c.on(pt, te, 'increase_distance_to_by', P=P)
    g = axes_of(c, dim, pt, c.call(u, a, b, sym('f'), pc=fi).post(0))
    for k in range(dim):
        c.eq('increase_distance%d.%s' % (dim, AX[k]), g[k], add(Q[k], mul(f, sub(A[k], Q[k]))), u, 'distance scaled on every axis', pc=fi)
    if dim == 2:
        u = c.on(pt, te, 'rotate', P=P)
        r = c.struct('Rad', 'r')
        ang = getk(r, ('f', 0))
        sn, cs = trig(c, 'sin', ang), trig(c, 'cos', ang)
        g = axes_of(c, dim, pt, c.call(u, a, r, b).post(0))
        dx, dy = sub(A[0], Q[0]), sub(A[1], Q[1])
        c.eq('rotate.x', g[0], add(Q[0], sub(mul(cs, dx), mul(sn, dy))), u, 'rotation about a centre')
        c.eq('rotate.y', g[1], add(Q[1], add(mul(sn, dx), mul(cs, dy))), u, 'rotation about a centre')


def trig(c, name, x):
    import models
    return mk('call', 'f64::' + name, (x,)) if not hasattr(models, 'trig') else models.trig(name, x)


def norm(c, dim):
    ty, tn = 'Norm%dD' % dim, 'IsNormalized%dD' % dim
    pt = 'Point%dD' % dim
    P = c.ty(pt)
    a = point_syms(c, dim, 'a')
    A = axes_of(c, dim, pt, a)
    u = c.on(ty, tn, 'new', P=P)
    r = c.call(u, a)
    ln = sqrt(total(mul(x, x) for x in A))
    zero = conj(as_bdd(cmp('eq', x, num(0), True)) for x in A)
    c.eq('%s.refuses' % ty, B(is_err(r.ret)), B(zero), u, 'exactly the zero vector is refused', pc=r.pc)
    g = axes_of(c, dim, ty, okval(r.ret))
    pc = band(r.pc, bnot(zero))
    for k in range(dim):
        c.eq('%s.%s' % (ty, AX[k]), g[k], fdiv(A[k], ln), u, 'component divided by the length', pc=pc)
    c.eq('%s.unit' % ty, total(mul(x, x) for x in g), num(1), u, 'unit length', pc=pc)
    for k in range(dim):
        for s, sfx in ((1, ''), (-1, '_neg')):
            u = c.on(ty, tn, 'norm_' + AX[k] + sfx)
            r = c.call(u)
            g = axes_of(c, dim, ty, r.ret)
            for j in range(dim):
                c.eq('%s.norm_%s%s.%s' % (ty, AX[k], sfx, AX[j]), g[j], num(s if j == k else 0), u, 'axis direction', pc=r.pc)


def free(c):
    P = c.ty('Point3D')
    a, b = point_syms(c, 3, 'a'), point_syms(c, 3, 'b')
    A, Q = axes_of(c, 3, 'Point3D', a), axes_of(c, 3, 'Point3D', b)
    u = c.f('cross')
    g = axes_of(c, 3, 'Point3D', c.val((u, (P, P)), a, b))
    for k in range(3):
        i, j = (k + 1) % 3, (k + 2) % 3
        c.eq('cross.' + AX[k], g[k], sub(mul(A[i], Q[j]), mul(A[j], Q[i])), u, 'cross product')
    u = c.f('conn')
    g = axes_of(c, 3, 'Point3D', c.val((u, (P,)), a, b))
    for k in range(3):
        c.eq('conn.' + AX[k], g[k], sub(Q[k], A[k]), u, 'vector from the first to the second')
    c.guard('dimension', dimension, c)


def dimension(c):
    u = c.f('dimension_dist')
    a, b = sym('a'), sym('b')
    A, Q = uninterp_axes(3, a), uninterp_axes(3, b)
    for k in range(3):
        c.eq('dimension_dist.%d' % k, c.val(u, a, b, num(k)), ok(fabs(sub(A[k], Q[k]))), u, 'distance on axis %s' % AX[k])
    for k in (3, 4, -1):
        c.holds('dimension_dist.%d' % k, is_err(c.val(u, a, b, num(k))), u, 'unknown dimensions are refused')


def mexpect(c, key, n, m, want, uid, what, pc=T):
    for i in range(n):
        for j in range(n):
            c.eq('%s[%d][%d]' % (key, i, j), entry(c, n, m, i, j), want[i][j], uid, what, pc=pc)


def ident(n):
    return [[num(1 if i == j else 0) for j in range(n)] for i in range(n)]


def mm(a, b):
    n = len(a)
    return [[total(mul(a[i][k], b[k][j]) for k in range(n)) for j in range(n)] for i in range(n)]


def matrix(c, dim):
    n = dim + 1
    ty = 'Matrix%d' % n
    u = c.m(ty, '', 'identity')
    mexpect(c, ty + '.identity', n, c.val(u), ident(n), u, 'identity matrix')
    u = c.m(ty, 'Default', 'default')
    mexpect(c, ty + '.default', n, c.val(u), ident(n), u, 'default is identity')
    u = c.m(ty, '', 'zeroes')
    mexpect(c, ty + '.zeroes', n, c.val(u), [[num(0)] * n for _ in range(n)], u, 'zero matrix')
    xs = [sym('t' + AX[k]) for k in range(dim)]
    u = c.m(ty, '', 'translation')
    w = ident(n)
    for k in range(dim):
        w[k][dim] = xs[k]
    mexpect(c, ty + '.translation', n, c.val(u, *xs), w, u, 'translation matrix')
    u = c.m(ty, '', 'scale')
    w = ident(n)
    for k in range(dim):
        w[k][k] = xs[k]
    mexpect(c, ty + '.scale', n, c.val(u, *xs), w, u, 'scaling matrix')
    u = c.m(ty, '', 'rotation')
    rads = [c.struct('Rad', 'r%d' % k) for k in range(1 if dim == 2 else 3)]
    w = rotation(c, dim, rads)
    mexpect(c, ty + '.rotation', n, c.val(u, *rads), w, u, 'rotation matrix')
    if dim == 3:
        u = c.m(ty, '', 'rotation_axis')
        r = c.struct('Rad', 'r')
        s, co = trig(c, 'sin', getk(r, ('f', 0))), trig(c, 'cos', getk(r, ('f', 0)))
        ax = sym('axis')
        U = uninterp_axes(3, ax)
        K = [[num(0), neg(U[2]), U[1]], [U[2], num(0), neg(U[0])], [neg(U[1]), U[0], num(0)]]
        w = ident(4)
        for i in range(3):
            for j in range(3):
                w[i][j] = add(add(mul(co, num(1 if i == j else 0)), mul(s, K[i][j])), mul(sub(num(1), co), mul(U[i], U[j])))
        mexpect(c, ty + '.rotation_axis', 4, c.val(u, ax, r), w, u, 'rotation about an axis')


def rotation(c, dim, rads):
    t = [(trig(c, 'sin', getk(r, ('f', 0))), trig(c, 'cos', getk(r, ('f', 0)))) for r in rads]
    if dim == 2:
        w = ident(3)
        s, co = t[0]
        w[0][0], w[0][1], w[1][0], w[1][1] = co, neg(s), s, co
        return w
    ms = []
    for k in range(3):
        w = ident(4)
        s, co = t[k]
        i, j = (k + 1) % 3, (k + 2) % 3
        w[i][i], w[i][j], w[j][i], w[j][j] = co, neg(s), s, co
        ms.append(w)
    return mm(mm(ms[0], ms[1]), ms[2])


def mul_point(c, dim, m, A):
    n = dim + 1
    return [add(total(mul(entry(c, n, m, i, k), A[k]) for k in range(dim)), entry(c, n, m, i, dim)) for i in range(dim)]


def apply_(c, dim):
    pt = 'Point%dD' % dim
    n = dim + 1
    a, m = point_syms(c, dim, 'a'), sym('m')
    A = axes_of(c, dim, pt, a)
    want = mul_point(c, dim, m, A)
    tm = 'IsMatrix%dTransformable' % n
    for key, u, f in (('multiply_m', c.on(pt, 'IsBuildable%dD' % dim, 'multiply_m'), lambda r: r.ret),
                      ('transformed', c.on(pt, tm, 'transformed'), lambda r: r.ret),
                      ('transform', c.on(pt, tm, 'transform'), lambda r: r.post(0))):
        g = axes_of(c, dim, pt, f(c.call(u, a, m)))
        for k in range(dim):
            c.eq('%s.%s.%s' % (pt, key, AX[k]), g[k], want[k], u, 'matrix applied to a position')


def pipe(c, dim):
    n = dim + 1
    ty, mt = 'Matrix%dPipe' % n, 'Matrix%d' % n
    p = c.struct(ty, 'p')
    order = ['mtranslation', 'mrotation', 'mscale'] if dim == 2 else ['mperspective', 'mcamlook', 'mcamtrans', 'mtranslation', 'mrotation', 'mscale']
    u = c.m(ty, '', 'result')
    # small integers: the product of six symbolic 4x4 matrices is compared by its factors
    w = None
    syms = {}
    for f in order:
        m = [[None] * n for _ in range(n)]
        for i in range(n):
            for j in range(n):
                m[i][j] = entry(c, n, c.get(p, ty, f), i, j)
        syms[f] = m
    keep = {}
    # each stage in turn is symbolic next to one other symbolic stage, the others identity: fixes the order
    for x in range(len(order)):
        for y in range(x + 1, len(order)):
            v = p
            for f in order:
                if f not in (order[x], order[y]):
                    v = c.set(v, ty, f, mat(c, n, ident(n)))
            r = c.val(u, v)
            w = mm(syms[order[x]], syms[order[y]])
            mexpect(c, '%s.result.%s.%s' % (ty, order[x], order[y]), n, r, w, u, 'product of the stages in order')
    xs = [sym('t' + AX[k]) for k in range(dim)]
    rads = [c.struct('Rad', 'r%d' % k) for k in range(1 if dim == 2 else 3)]
    for nm, fld, args, via in (('add_translation', 'mtranslation', xs, 'translation'), ('add_rotation', 'mrotation', rads, 'rotation'),
                               ('add_scale', 'mscale', xs, 'scale')):
        u = c.m(ty, '', nm)
        r = c.call(u, p, *args)
        wm = c.val(c.m(mt, '', via), *args)
        c.eq('%s.%s' % (ty, nm), r.post(0), c.set(p, ty, fld, wm), u, 'exactly the %s stage is replaced' % fld)
    for nm, fld in (('remove_translation', 'mtranslation'), ('remove_rotation', 'mrotation'), ('remove_scale', 'mscale')) + (
            (('remove_perspective', 'mperspective'), ('remove_camera_translation', 'mcamtrans'), ('remove_look_at', 'mcamlook')) if dim == 3 else ()):
        u = c.m(ty, '', nm)
        r = c.call(u, p)
        c.eq('%s.%s' % (ty, nm), r.post(0), c.set(p, ty, fld, c.val(c.m(mt, '', 'identity'))), u, 'exactly the %s stage becomes the identity' % fld)
    if dim == 3:
        u = c.m(ty, '', 'add_camera_translation')
        c.eq(ty + '.add_camera_translation', c.call(u, p, *xs).post(0), c.set(p, ty, 'mcamtrans', c.val(c.m(mt, '', 'translation'), *[neg(x) for x in xs])), u,
             'the camera moves opposite')
        u = c.m(ty, '', 'add_rotation_axis')
        r = c.struct('Rad', 'r')
        c.eq(ty + '.add_rotation_axis', c.call(u, p, sym('axis'), r).post(0), c.set(p, ty, 'mrotation', c.val(c.m(mt, '', 'rotation_axis'), sym('axis'), r)), u, 'rotation stage')


def mat(c, n, m):
    return agg(c.adt('Matrix%d' % n)['d'], 0, [mk('agg', 'array', 0, tuple(mk('agg', 'array', 0, tuple(r)) for r in m))])


def transform(c, dim):
    n = dim + 1
    tm = 'IsMatrix%dTransformable' % n
    pt = 'Point%dD' % dim
    P = c.ty(pt)
    m = sym('m')
    takes = set(ty for im, ty in c.types_with(tm))
    cnt = 0

    def onpoint(v):
        A = [getk(v, ('f', c.fidx(pt, AX[k]))) for k in range(dim)]
        w = mul_point(c, dim, m, A)
        for k in range(dim):
            v = setk(v, ('f', c.fidx(pt, AX[k])), w[k])
        return v
    for im, ty in c.types_with(tm):
        cnt += 1
        key = '%s.transform' % ty

        def one(ty=ty, key=key):
            u0 = c.m(ty, tm, 'transform')
            uid, sb = c.on(ty, tm, 'transform', **p_a02.params(c, u0, P))
            st = c.p.rt(c.p.impl_by_id[im['d']]['self'], sb)
            s = sym('self')
            want = p_a02.rebuild(c, s, st, dim, takes, onpoint, tm)
            if want is s:
                c.undecided(key, 'no position found')
                return
            r = c.call((uid, sb), s, m)
            c.eq(key, r.post(0), want, u0, 'every position transformed by the matrix, everything else unchanged')
            u1 = c.m(ty, tm, 'transformed')
            u1, sb1 = c.on(ty, tm, 'transformed', **p_a02.params(c, u1, P))
            r1 = c.call((u1, sb1), s, m)
            c.eq(ty + '.transformed', r1.ret, want, u1, 'a transformed copy equals transforming in place')
            arr = mk('agg', 'array', 0, tuple(c.struct(pt, 'p%d' % i) for i in range(3)))
            v = p_a02.wrap(c, s, st, arr)
            if v is not s:
                want = p_a02.rebuild(c, v, st, dim, takes, onpoint, tm)
                c.eq(key + '/3', c.call((uid, sb), v, m).post(0), want, u0, 'collection of 3')
                c.eq(ty + '.transformed/3', c.call((u1, sb1), v, m).ret, want, u1, 'collection of 3')
        c.guard(key, one)
    c.floor('transformable types %dD' % dim, cnt, {2: 4, 3: 5}[dim])

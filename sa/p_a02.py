"""A02: moving and scaling act on every element, each axis on its own."""
from base import *

SEQ = ('Vec', 'VecDeque', 'LinkedList')


def params(c, uid, P):
    out = {}
    for n in c.p.bodies[uid]['g']:
        if n == 'ID':
            out[n] = c.ty('PointCloud3D', P)
        elif n == 'M':
            out[n] = c.ty('Mesh3D', P, c.ty('PointCloud3D', P), ('param', 'IC'))
        elif n != 'IC' and not n.startswith("'"):
            out[n] = P
    return out


def mapseq(v, fn):
    if v.op == 'agg' and v.a[0] == 'array':
        return mk('agg', 'array', 0, tuple(fn(x) for x in v.a[2]))
    b = mk('bv', 'm%d' % v.depth if hasattr(v, 'depth') else 'm')
    return mk('gen', engine.length(v), b, fn(mk('sel', v, b)))


def rebuild(c, v, t, dim, movable, onpoint, trait):
    """v with every position held by a type that takes part replaced"""
    p = c.p
    if t[0] == 'adt':
        name = p.type_name(t)
        if name == 'Point%dD' % dim:
            return onpoint(v)
        if name in SEQ:
            return mapseq(v, lambda x: rebuild(c, x, t[2][0], dim, movable, onpoint, trait))
        if name not in movable or t[1] not in p.adts:
            return v
        a = p.adts[t[1]]
        g = [x for x in a['g'] if not x.startswith("'")]
        sub = tuple(t[2][i] if i < len(t[2]) else None for i in range(len(g)))
        for i, (n, ft, pub) in enumerate(a['v'][0][1]):
            f = getk(v, ('f', i))
            x = rebuild(c, f, p.rt(ft, sub), dim, movable, onpoint, trait)
            if x is not f:
                v = setk(v, ('f', i), x)
        return v
    return v


def movers(c, dim):
    tr = 'IsMovable%dD' % dim
    off = [sym('d' + n) for n in AX[:dim]]
    pt = 'Point%dD' % dim
    P = c.ty(pt)
    movable = set(ty for im, ty in c.types_with(tr))

    def onpoint(v):
        out = v
        for k in range(dim):
            f = ('f', c.fidx(pt, AX[k]))
            out = setk(out, f, add(getk(v, f), off[k]))
        return out
    n = 0
    for im, ty in c.types_with(tr):
        n += 1
        u = c.m(ty, tr, 'move_by')
        key = '%s.move%d' % (ty, dim)

        def one(u=u, ty=ty, im=im, key=key):
            uid, sub = c.on(ty, tr, 'move_by', **params(c, u, P))
            st = c.p.rt(c.p.impl_by_id[im['d']]['self'], sub)
            if ty == 'PointCloud3Df32':
                return flat(c, key, uid, sub, off)
            s = sym('self')
            want = rebuild(c, s, st, dim, movable, onpoint, tr)
            if want is s:
                c.undecided(key, 'no position found in the type')
                return
            r = c.call((uid, sub), s, *off)
            c.eq(key, r.post(0), want, u, 'every position moved by the offset, everything else unchanged')
            c.eq(key + '/returns', B(r.pc), B(T), u, 'moving always succeeds')
            if ty in SEQ or any(x in ty for x in ('PointCloud', 'Polygon')):
                # short collections of concrete length
                for m in (1, 3):
                    arr = mk('agg', 'array', 0, tuple(c.struct(pt, 'p%d' % i) for i in range(m)))
                    v = arr
                    for path in seqpath(c, st):
                        pass
                    v = wrap(c, sym('self'), st, arr)
                    r2 = c.call((uid, sub), v, *off)
                    c.eq('%s/%d' % (key, m), r2.post(0), rebuild(c, v, st, dim, movable, onpoint, tr), u, 'collection of %d' % m)
        c.guard(key, one)
    return n


def seqpath(c, st):
    return ()


def wrap(c, v, t, arr):
    name = c.p.type_name(t)
    if name in SEQ:
        return arr
    a = c.p.adts.get(t[1]) if t[0] == 'adt' else None
    if a is None:
        return v
    g = [x for x in a['g'] if not x.startswith("'")]
    sub = tuple(t[2][i] if i < len(t[2]) else None for i in range(len(g)))
    for i, (n, ft, pub) in enumerate(a['v'][0][1]):
        x = wrap(c, getk(v, ('f', i)), c.p.rt(ft, sub), arr)
        if x is not getk(v, ('f', i)):
            v = setk(v, ('f', i), x)
    return v


def flat(c, key, uid, sub, off):
    """flat f32 storage, through its own accessors"""
    P = c.ty('Point3D')
    ty = 'PointCloud3Df32'
    get, ps = c.on(ty, 'IsDataContainer', 'get_d', P=P), c.on(ty, 'IsDataContainer', 'push_d', P=P)
    ln = c.on(ty, 'IsDataContainer', 'len_d', P=P)
    for m in (1, 2, 3):
        cl = c.val(c.on(ty, '', 'new', P=P))
        pts = [c.struct('Point3D', 'p%d' % i) for i in range(m)]
        for q in pts:
            cl = c.call(ps, cl, q).post(0)
        after = c.call((uid, sub), cl, *off).post(0)
        c.eq('%s/%d.len' % (key, m), c.val(ln, after), num(m), uid, 'number of positions')
        for i in range(m):
            g = someval(c.val(get, after, num(i)))
            for k in range(3):
                c.eq('%s/%d[%d].%s' % (key, m, i, AX[k]), c.get(g, 'Point3D', AX[k]), add(c.get(pts[i], 'Point3D', AX[k]), off[k]), uid, 'moved coordinate')


def scalers(c):
    n = 0
    f = sym('factor')
    fv = c.val(c.m('Positive', 'Deref', 'deref'), f)
    positive = as_bdd(cmp('gt', fv, num(0), True))
    for im, ty in c.types_with('IsScalable'):
        n += 1
        u = c.m(ty, 'IsScalable', 'scale')
        dim = 2 if ('2D' in ty or 'Circle' in ty) else 3
        key = ty + '.scale'

        def one(u=u, ty=ty, dim=dim, key=key, im=im):
            pt = 'Point%dD' % dim
            P = c.ty(pt)
            uid, sub = c.on(ty, 'IsScalable', 'scale', **params(c, u, P))
            st = c.p.rt(c.p.impl_by_id[im['d']]['self'], sub)
            s = sym('self')
            if ty.startswith('BoundingBox'):
                r = c.call((uid, sub), s, f)
                after = r.post(0)
                lo, hi = c.m(ty, '', 'min_p'), c.m(ty, '', 'max_p')
                for k in range(dim):
                    g = lambda fn, v: c.get(c.val(fn, v), pt, AX[k])
                    l, h = g(lo, s), g(hi, s)
                    mid, half = mul(num(Fraction(1, 2)), add(l, h)), mul(num(Fraction(1, 2)), sub_(h, l))
                    pc = band(as_bdd(cmp('lt', l, h, True)), positive)
                    c.eq('%s.min.%s' % (key, AX[k]), g(lo, after), sub_(mid, mul(fv, half)), u, 'lower corner after scaling', pc=pc)
                    c.eq('%s.max.%s' % (key, AX[k]), g(hi, after), add(mid, mul(fv, half)), u, 'upper corner after scaling', pc=pc)
                return
            if carries_positive(c, st):
                # sizes are sign-restricted numbers held by the shape
                want = scaled_sizes(c, s, st, fv)
                r = c.call((uid, sub), s, f)
                c.eq(key, r.post(0), want, u, 'every extent times the factor, position unchanged', pc=positive)
                return
            # objects made of positions: p -> c + factor * (p - c), c the centre of their bounding box
            bbm = bbm_of(c, st, dim)
            scal = set(t for i, t in c.types_with('IsScalable'))
            bt = 'BoundingBox%dD' % dim

            def check(v, suffix, base):
                r = c.call((uid, sub), v, f, noinline=[base])
                after = r.post(0)
                cs = find_calls(after, c.opname(base))
                if len(cs) != 1:
                    c.undecided(key + suffix, '%d bounding boxes in the result' % len(cs))
                    return
                has = is_variant(cs[0], 1, 2)
                ce = c.val(c.m(bt, '', 'center_bb'), getk(cs[0], ('v', 1, 0)))

                def onpoint(q):
                    out = q
                    for k in range(dim):
                        fi = ('f', c.fidx(pt, AX[k]))
                        m = c.get(ce, pt, AX[k])
                        out = setk(out, fi, add(m, mul(fv, sub_(getk(q, fi), m))))
                    return out
                want = rebuild(c, v, st, dim, scal, onpoint, 'IsScalable')
                c.eq(key + suffix, restrict(after, has), want, u, 'every position scaled about the centre', pc=has)
                c.eq(key + suffix + '/box-of-itself', cs[0].a[1][0], inner_of(c, v, st, base), u, 'the centre is that of the object itself')
            check(s, '', bbm)
            if ty not in ('LineSegment2D', 'LineSegment3D'):
                arr = mk('agg', 'array', 0, tuple(c.struct(pt, 'p%d' % i) for i in range(3)))
                check(wrap(c, s, st, arr), '/3', bbm)
        c.guard(key, one)
    return n


sub_ = sub


def inner_of(c, v, t, bbm):
    """component of v on which the bounding box function works"""
    want = c.p.self_name(c.p.impl_by_id[c.p.bodies[bbm]['impl']])
    return find_component(c, v, t, want)


def find_component(c, v, t, want):
    if t[0] == 'adt' and c.p.type_name(t) == want:
        return v
    a = c.p.adts.get(t[1]) if t[0] == 'adt' else None
    if a is None:
        return None
    g = [x for x in a['g'] if not x.startswith("'")]
    sub = tuple(t[2][i] if i < len(t[2]) else None for i in range(len(g)))
    for i, (n, ft, pub) in enumerate(a['v'][0][1]):
        x = find_component(c, getk(v, ('f', i)), c.p.rt(ft, sub), want)
        if x is not None:
            return x
    return None


def bbm_of(c, t, dim):
    """bounding_box_maybe of the innermost collection of the type"""
    for n in ('LineSegment2D', 'LineSegment3D', 'PointCloud2D', 'PointCloud3D'):
        if find_component(c, sym('probe'), t, n) is not None:
            return c.m(n, 'HasBoundingBox%dDMaybe' % dim, 'bounding_box_maybe')
    raise TooComplex('no collection in ' + str(t))


def carries_positive(c, t):
    if t[0] != 'adt' or t[1] not in c.p.adts:
        return False
    if c.p.type_name(t) == 'Positive':
        return True
    a = c.p.adts[t[1]]
    return not a['enum'] and any(carries_positive(c, c.p.rt(ft)) for n, ft, pub in a['v'][0][1])


def scaled_sizes(c, v, t, fv):
    if t[0] == 'adt' and c.p.type_name(t) == 'Positive':
        d = c.m('Positive', 'Deref', 'deref')
        for i, x in enumerate(c.p.adts[t[1]]['v'][0][1]):
            v2 = setk(v, ('f', i), mul(getk(v, ('f', i)), fv))
        return v2
    a = c.p.adts.get(t[1]) if t[0] == 'adt' else None
    if a is None or a['enum']:
        return v
    for i, (n, ft, pub) in enumerate(a['v'][0][1]):
        f = getk(v, ('f', i))
        x = scaled_sizes(c, f, c.p.rt(ft), fv)
        if x is not f:
            v = setk(v, ('f', i), x)
    return v


def run(c):
    n = movers(c, 2) + movers(c, 3)
    c.floor('movable types', n, 25)
    c.floor('scalable types', scalers(c), 19)
    return {'rule': 'For every impl of IsMovable2D/3D and IsScalable found in the source the final value of the object is compared with the value obtained by '
            'applying the definition to every position (extent) its type holds, for collections of any length.'}

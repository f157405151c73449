"""T02: search tree queries never skip a branch that may hold a hit."""
from base import *
import trees
from trees import *
from p_t01 import HELD, boxed, container, roles, nonempty


def run(c):
    n = 0
    for ty in ('AABBTree2D', 'AABBTree3D'):
        n += boxtree(c, ty)
    c.floor('box tree queries', n, 11)
    n = 0
    for trait, m, crit in (('IsSphereSearchable', 'in_sphere', in_sphere), ('IsBox3DSearchable', 'in_box', in_box)):
        for im, ty in c.types_with(trait):
            if 'IsTree3D' not in traits_of(c, ty):
                continue
            n += 1
            c.guard('%s.%s' % (ty, m), points, c, ty, trait, m, crit)
    c.floor('point tree queries', n, 2)
    return {'rule': 'one level of a query applied to one level of the tree as its builder makes it, recursive queries standing for "the hits in that subtree": '
                    'the elements reported are exactly those satisfying the criterion, wherever they lie, coincidences with split values included'}


def traits_of(c, ty):
    return {(im.get('tr') or '').split('::')[-1] for im in c.p.impls if c.p.self_name(im) == ty}


def sink(e, a, xs):
    """a result container or visitor given further elements"""
    if isinstance(a, evalt.Agg) and len(a.ch) >= 1:
        return evalt.Agg(a.d, a.v, [sink(e, a.ch[0], xs)] + list(a.ch[1:]))
    if isinstance(a, evalt.Seq):
        return evalt.Seq(a.xs + list(xs))
    raise evalt.Unsupported('result container %r' % (a,))


def entry(c, pub):
    es = sorted(entries(c.p, uid(pub)))
    if len(es) != 1:
        raise Missing('recursive function behind %s: %d candidates' % (c.p.label(uid(pub)), len(es)))
    return es[0]


# ------------------------------------------------------------------ trees of boxes
def boxtree(c, ty):
    p = c.p
    bb = 'BoundingBox' + ty[-2:]
    n = 0
    for im, u in inherent(c, ty):
        b = p.bodies[u]
        if not b.get('vis') or b['name'] == 'new' or not b['argc']:
            continue
        k = KIND.get(b['name'].replace('_x_', '_?_').replace('_y_', '_?_').replace('_z_', '_?_'))
        if k is None:
            continue
        n += 1
        c.guard('%s.%s' % (ty, b['name']), boxquery, c, ty, bb, u, b['name'], k)
    return n


KIND = {'any': 'any', 'for_each_collision_candidate': 'collides_with', 'bb_colliding': 'collides_with', 'bb_crossing_?_value': 'crossing',
        'for_each_intersection_candidate': 'intersection'}


def inherent(c, ty):
    out = []
    for im in c.p.impls:
        if not im.get('tr') and c.p.self_name(im) == ty:
            for n, u in im['m']:
                if u in c.p.bodies:
                    out.append((im, u))
    return out


def boxquery(c, ty, bb, u, name, kind):
    p = c.p
    t = trees.Tree(c, c.m(ty, '', 'new'))
    node, pc = t.built()
    inp = t.input()
    G = entry(c, u)
    n = c.opname(G)
    b = p.bodies[G]
    i = roles(c, t, G)
    acc = mutarg(p, G)
    q = [j for j in range(b['argc']) if j not in (i, acc)]
    if len(q) != 1:
        raise Missing('query argument of ' + p.label(G))
    q = sym('query')
    x = sym('box')
    if kind == 'any':
        crit = None
    elif kind == 'intersection':
        crit = B(is_some(c.call(c.f('intersection'), q, x).ret))
    else:
        crit = c.val(c.m(bb, '', name[3:] if kind == 'crossing' else kind), x, q)
    bd = p.adts[c.adt(bb)['d']]['d']
    bbname = 'HasBoundingBox%s::bounding_box' % ty[-2:]

    def own(e, el):
        if kind == 'any':
            return e.boolean(evalt.Tok(evalt._h('accept', evalt.key(el))))
        v = e.binder(sym('element'), el).ev(mk('call', bbname, (sym('element'),)))
        return sat(e, v)

    def sat(e, box):
        if kind == 'any':
            return True
        return e.boolean(e.binder(x, box).ev(crit))

    def hits(e, xs):
        return [el for el in xs if own(e, el)]

    def ih(e, args, post, k):
        s = args[i]
        if not isinstance(s, Sub):
            return None
        if kind == 'any':
            return None if post else bool(hits(e, s.xs))
        return sink(e, args[acc], hits(e, s.xs)) if post else None
    t.ih[n] = ih

    def more(e, q_):
        if q_.op == 'sym' and q_.a[0] == 'visitor':
            return evalt.Seq([])
        if q_.op in ('call', 'post'):
            cl = q_ if q_.op == 'call' else q_.a[0]
            if isinstance(cl, Term) and cl.op == 'call' and cl.a[0] in ('apply', 'Fn::call', 'FnMut::call_mut', 'FnOnce::call_once'):
                x_ = e.ev(cl.a[1][1])
                if isinstance(x_, evalt.Agg) and x_.d == 'tuple':
                    x_ = x_.ch[0]
                if kind == 'any':
                    return None if q_.op == 'post' else own(e, x_)
                if q_.op == 'post':
                    return sink(e, e.ev(cl.a[1][0]), [x_])
        if q_.op == 'call' and q_.a[0] == 'QUERIED':
            # the reported elements if they are between "own and node criterion" and "own criterion"
            got, nd, xs = (e.ev(y) for y in q_.a[1])
            xs = e.toseq(xs).xs
            boxes = own_boxes(nd, bd)
            if kind == 'any':
                return got == bool(hits(e, xs))
            ks = {evalt.key(y): y for y in xs}
            g = set(elements(got, set(ks)))
            upper = {evalt.key(y) for y in hits(e, xs)}
            lower = upper if all(sat(e, y) for y in boxes) else set()
            return lower <= g <= upper and len(boxes) <= 1
        return None
    args = []
    for j in range(b['argc']):
        ty_ = p.rt(b['locals'][j + 1][0])
        if j == i:
            args.append(node)
        elif j == acc:
            args.append(EMPTY if 'Vec' in p.type_name(deref_t(ty_)) else sym('visitor'))
        else:
            args.append(q)
    r = c.call(G, *args)
    out = r.ret if kind == 'any' else r.post(acc)
    out = unref(out, {'arg%d' % i: node})
    res = mk('call', 'QUERIED', (out, node, inp))
    res.meta = 'bool'
    h = t.hook(boxed(c, ty, more, q if kind == 'collides_with' else None))
    key = '%s.%s' % (ty, name)
    c.eq(key + '.level', B(atom(res)), B(T), G, 'exactly the elements whose own box and whose node satisfy the criterion', pc=pc, hook=h, maxlen=3, rounds=600)
    # through the public interface
    if uid(u) != G:
        args2 = [sym('tree')] + [EMPTY if j == mutarg(p, u) and 'Vec' in p.type_name(deref_t(p.rt(p.bodies[u]['locals'][j + 1][0]))) else sym('a%d' % j) for j in range(1, p.bodies[u]['argc'])]
        raise TooComplex('public entry differs from the recursive function')


def deref_t(t):
    while t[0] == 'ref':
        t = t[2]
    return t


def own_boxes(v, bd):
    out, st = [], [v]
    while st:
        x = st.pop()
        if isinstance(x, evalt.Agg):
            if x.d == bd:
                out.append(x)
            else:
                st.extend(x.ch)
    return out


# ------------------------------------------------------------------ trees of positions
def in_sphere(c):
    q = sym('query')
    ctr, rad = c.get(q, 'Sphere', 'center'), num_of(c, c.get(q, 'Sphere', 'radius'), 'Sphere', 'radius')
    at = [c.get(ctr, 'Point3D', a) for a in AX]

    def hit(e, xyz):
        r = e.number(e.ev(rad))
        return r >= 0 and sum((e.number(e.ev(a)) - v) ** 2 for a, v in zip(at, xyz)) <= r * r
    return q, hit, [rad], at


def in_box(c):
    q = sym('query')
    ctr = c.get(q, 'Box3D', 'center')
    at = [c.get(ctr, 'Point3D', a) for a in AX]
    sz = [num_of(c, c.get(q, 'Box3D', 'size_' + a), 'Box3D', 'size_' + a) for a in AX]

    def hit(e, xyz):
        return all(abs(e.number(e.ev(a)) - v) * 2 <= e.number(e.ev(s)) for a, v, s in zip(at, xyz, sz))
    return q, hit, sz, at


def num_of(c, v, ty, f):
    a = c.adt(ty)
    t = c.p.rt(a['v'][0][1][c.fidx(ty, f)][1])
    return c.val(c.m(c.p.type_name(t), 'Deref', 'deref'), v) if t[0] == 'adt' else v


def points(c, ty, trait, name, crit):
    p = c.p
    ub, uq = c.m(ty, 'IsTree3D', 'build'), c.m(ty, trait, name)
    t = trees.Tree(c, ub)
    node, pc = t.built()
    inp = t.input()
    G = entry(c, uq)
    b = p.bodies[G]
    i, acc = roles(c, t, G), mutarg(p, G)
    q, hit, extents, centre = crit(c)
    s = sym('element')
    xyz = [mk('call', 'Is3D::' + a, (s,)) for a in AX]

    def hits(e, xs):
        return [x for x in xs if hit(e, [e.number(e.binder(s, x).ev(a)) for a in xyz])]

    def ih(e, args, post, k):
        v = args[i]
        return sink(e, args[acc], hits(e, v.xs)) if isinstance(v, Sub) and post else None
    t.ih[c.opname(G)] = ih

    axes = ['Is3D::' + a for a in AX]

    def more(e, y):
        if e.seed % 3 == 1:
            # every other one: all on one line, so that elements on the border are frequent
            if e.seed % 2 and (y in centre or y.op == 'call' and y.a[0] in axes and len(y.a[1]) == 1):
                k = centre.index(y) if y in centre else axes.index(y.a[0])
                if k != e.seed // 6 % 3 and (y in centre or isinstance(e.ev(y.a[1][0]), evalt.Tok)):
                    return Fraction(0)
            # a small grid, on which elements coincide with split values and with the border of the region
            if y in extents:
                return Fraction(int(evalt._h('extent', e.seed, show(y))[:6], 16) % 3 * (2 if len(extents) == 3 else 1))
            if y in centre:
                return Fraction(int(evalt._h('centre', e.seed, show(y))[:6], 16) % 3)
            if y.op == 'call' and y.a[0] in axes and len(y.a[1]) == 1:
                at = e.ev(y.a[1][0])
                if isinstance(at, evalt.Tok):
                    return Fraction(int(evalt._h('grid', e.seed, y.a[0], evalt.key(at))[:6], 16) % 3)
        if y in extents and e.seed % 4:
            # regions large enough to hold several elements
            return Fraction(int(evalt._h('extent', e.seed, show(y))[:6], 16) % 10)
        if y.op == 'call' and y.a[0] == 'HITS':
            return bag(evalt.key(x) for x in hits(e, e.toseq(e.ev(y.a[1][0])).xs))
        if y.op == 'call' and y.a[0] == 'FOUND':
            ks = {evalt.key(x) for x in e.toseq(e.ev(y.a[1][1])).xs}
            return bag(elements(e.ev(y.a[1][0]), ks))
        return None
    h = t.hook(more)
    args = [node if j == i else EMPTY if j == acc else q for j in range(b['argc'])]
    r = c.call(G, *args)
    key = '%s.%s' % (ty, name)
    c.eq(key + '.level', mk('call', 'FOUND', (r.post(acc), inp)), mk('call', 'HITS', (inp,)), G,
         'exactly the elements within the queried region', pc=pc, hook=h, maxlen=(1, 2, 3, 3, 4, 4, 5), assume=nonempty(inp), rounds=600)
    rb = c.call(ub, sym('self'), sym('cloud'), noinline=(t.B,))
    ok = is_ok(rb.ret)
    bq = p.bodies[uq]
    aq = mutarg(p, uq)
    r = c.call(uq, *[restrict(rb.post(0), ok) if j == 0 else EMPTY if j == aq else q for j in range(bq['argc'])], noinline=(G,))
    data = getk(sym('cloud'), ('f', 0))
    c.eq(key, mk('call', 'FOUND', (r.post(aq), data)), mk('call', 'HITS', (data,)), uq,
         'exactly the elements within the queried region', pc=ok, hook=h, maxlen=4)

"""C01: collision queries answer for every pair of kinds, symmetrically, and a compound object
collides exactly when one of its parts does."""
from base import *


def kinds(c):
    a = c.adt('Collider3D')
    return [(i, n, fs) for i, (n, fs) in enumerate(a['v'])], a['d']


def noinl(c):
    """helpers whose inner workings do not matter for who asks whom"""
    return tuple(u for u in (c.m('Norm3D', 'IsNormalized3D', 'new'),) if u)


def answer(c, u, x, y, depth=0):
    """the answer for two concrete kinds; a call that comes back with the arguments turned round is followed"""
    r = c.call(u, x, y, noinline=noinl(c))
    v = r.ret
    name = c.opname(u)
    rec = [t for t in subterms(v) if t.op == 'call' and t.a[0] == name]
    if not rec:
        return v, r.pc, None
    m = {}
    for t in rec:
        p, q = t.a[1]
        if depth >= 3 or p.op != 'agg' or q.op != 'agg':
            return None, r.pc, t
        if (p is x and q is y):
            return None, r.pc, t
        w, wpc, cyc = answer(c, u, p, q, depth + 1)
        if cyc is not None:
            return None, r.pc, cyc
        m[t] = w
    return subst(v, m), r.pc, None


def some_hook(c):
    """a direction stands for itself, normalised or not: overlap of projections does not depend on its length"""
    nm = c.opname(c.m('Norm3D', 'IsNormalized3D', 'new'))
    nd = c.adt('Norm3D')['d']
    base = nat_hook(c.p)

    def hook(e, t):
        if t.op == 'call' and t.a[0] == nm:
            q = t.a[1][0]
            return evalt.Agg('R', 0, [evalt.Agg(nd, 0, [e.number(e.ev(getk(q, ('f', k)))) for k in range(3)])])
        return base(e, t)
    return hook


def pairs(c):
    ks, d = kinds(c)
    u = c.m('Collider3D', '', 'collides_with')
    c.floor('kinds of colliders', len(ks), 3)
    got = {}
    hook = some_hook(c)
    for i, ni, fi in ks:
        for j, nj, fj in ks:
            x = agg(d, i, tuple(sym('a%d' % k) for k in range(len(fi))))
            y = agg(d, j, tuple(sym('b%d' % k) for k in range(len(fj))))
            key = '%s/%s' % (ni, nj)

            def one():
                v, pc, cyc = answer(c, u, x, y)
                if cyc is not None:
                    c.fail(key + '/answers', 'asking %s against %s comes back to the same question: it is never answered' % (ni, nj), u)
                    return
                c.holds(key + '/answers', pc, u, 'the question is answered for every pair of values', hook=hook, pc=band(valid(c, d, x), valid(c, d, y)))
                got[i, j] = v
            c.guard(key, one)
    for i, ni, fi in ks:
        for j, nj, fj in ks:
            if j < i or (i, j) not in got or (j, i) not in got:
                continue
            m = {}
            for k in range(max(len(fi), len(fj))):
                m[sym('a%d' % k)], m[sym('b%d' % k)] = sym('b%d' % k), sym('a%d' % k)

            def two():
                # (j,i) is over a = kind j, b = kind i: exchange the names
                other = swap(got[j, i])
                c.eq('%s/%s/symmetric' % (ni, nj), got[i, j], other, u, 'the answer does not depend on which of the two is asked', hook=hook)
            c.guard('%s/%s/symmetric' % (ni, nj), two)


def valid(c, d, x):
    """boxes hold what their constructor lets through"""
    out = T
    for k, (n, t, pub) in enumerate(c.p.adts[d]['v'][x.a[1]][1]):
        if c.p.type_name(c.p.rt(t)) == 'BoundingBox3D':
            b = x.a[2][k]
            mi, ma = c.val(c.m('BoundingBox3D', '', 'min_p'), b), c.val(c.m('BoundingBox3D', '', 'max_p'), b)
            out = band(out, is_ok(c.val(boxnew(c), mi, ma)))
    return out


def boxnew(c):
    u = c.m('BoundingBox3D', '', 'new')
    return c.on('BoundingBox3D', '', 'new', **{g: c.ty('Point3D') for g in c.p.bodies[u]['g']})


def swap(v):
    m = {}
    for t in subterms(v):
        if t.op == 'sym' and t.a[0][0] in 'ab' and t.a[0][1:].isdigit():
            m[t] = sym(('b' if t.a[0][0] == 'a' else 'a') + t.a[0][1:])
    return subst(v, m)


def boolcall(name, *a):
    t = mk('call', name, tuple(a))
    if t.meta is None:
        t.meta = 'bool'
    return t


def closures(t):
    return sorted([x for x in subterms(t) if x.op == 'agg' and x.a[0] == 'closure'], key=show)


def over_parts(c, key, u, term, lister, want, noinline):
    """`term` is what a result variable holds after `lister` was handed a closure: it must be
    "some listed part satisfies `want`", which is: the variable starts as false, and handling one
    part replaces it by (what it was, or the part satisfies)"""
    cs = [t for t in subterms(term) if t.op == 'post' and t.a[0].op == 'call' and t.a[0].a[0] == lister]
    if not cs:
        c.fail(key, 'the parts are not asked (%s is not called)' % lister, u, {'computed': show(term)[:800]})
        return
    for t in cs:
        cl = [x for x in t.a[0].a[1] if x.op == 'agg' and x.a[0] == 'closure']
        if len(cl) != 1:
            c.undecided(key, 'shape of the closure handed to %s' % lister)
            return
        cl = cl[0]
        st = [i for i, x in enumerate(cl.a[2]) if x.op == 'b']
        if len(st) != 1:
            c.undecided(key, 'result variable of the closure handed to %s' % lister)
            return
        c.eq(key + '/starts', cl.a[2][st[0]], B(F), u, 'the result before any part has been asked')
        # (the result variable is captured by reference: place it behind a reference again)
        part = sym('part')
        for prev in (F, T):
            r = run_closure(c, cl, st[0], B(prev), part, noinline)
            w = B(T) if prev == T else want(part)
            c.eq(key + '/part/%s' % ('already' if prev == T else 'first'), r, w, u,
                 'result after asking one part when %s part before collided' % ('a' if prev == T else 'no'))


def run_closure(c, cl, k, prev, part, noinline):
    p = c.p
    body = p.bodies[cl.a[1]]
    an = engine.Analysis(p, {'noinline': noinline})
    sub = an.param_subst(body)
    pre = {('E', 'res'): prev, ('E', 'part'): part}
    caps = []
    for i, x in enumerate(cl.a[2]):
        if i == k:
            caps.append(mk('ref', ('E', 'res'), ()))
        else:
            pre[('E', 'cap%d' % i)] = x
            caps.append(mk('ref', ('E', 'cap%d' % i), ()))
    pre[('E', 'clo')] = mk('agg', 'closure', cl.a[1], tuple(caps))
    r = an.root_call(cl.a[1], [mk('ref', ('E', 'clo'), ()), mk('ref', ('E', 'part'), ())], sub, T, pre)
    c.funcs.add(cl.a[1])
    return r.st.get(('E', 'res'), prev)


def run(c):
    p = c.p
    pairs(c)
    tr = 'HasColliders3D'
    HAS, WITH, CWC, CW = tr + '::has_additional_colliders', tr + '::with_colliders', tr + '::collides_with_collider', tr + '::collides_with'
    BB = 'HasBoundingBox3D::bounding_box'
    ck, d = kinds(c)
    box = [i for i, n, fs in ck if len(fs) == 1 and 'BoundingBox3D' in str(p.rt(fs[0][1]))][:1]
    up = c.m('Collider3D', '', 'collides_with')
    upn = c.opname(up)
    tm = {n: u for n, u, dflt in p.traits[p.trait_by_name[tr]]['m'] if dflt}

    def single():
        u = tm['collides_with_collider']
        r = c.call(u, None, None, noinline=(up,))
        me, other = sym('arg0'), sym('arg1')
        has = atom(boolcall(HAS, me))
        v = r.ret
        c.eq('object-against-collider/box', restrict(v, bnot(has)), B(atom(boolcall(upn, agg(d, box[0], (calls(BB, me),)), other))), u,
             'an object without colliders of its own is asked by its bounding box', pc=bnot(has))
        over_parts(c, 'object-against-collider', u, restrict(v, has), WITH, lambda part: B(atom(boolcall(upn, part, other))), (up,))
    c.guard('object-against-collider', single)

    def double():
        u = tm['collides_with']
        r = c.call(u, None, None, noinline=(up, tm['collides_with_collider']))
        me, other = sym('arg0'), sym('arg1')
        has = atom(boolcall(HAS, other))
        v = r.ret
        c.eq('object-against-object/box', restrict(v, bnot(has)), B(atom(boolcall(CWC, me, agg(d, box[0], (calls(BB, other),))))), u,
             'an object without colliders of its own is asked by its bounding box', pc=bnot(has))
        over_parts(c, 'object-against-object', u, restrict(v, has), WITH, lambda part: B(atom(boolcall(CWC, me, part))), (up, tm['collides_with_collider']))
    c.guard('object-against-object', double)

    # the colliders of a collider are itself
    n = 0
    for im, ty in c.types_with(tr):
        n += 1

        def own():
            r = c.call(c.on(ty, tr, 'with_colliders'))
            ev = [e for e in r.an.events if e.kind in ('call', 'apply') and (e.kind == 'apply' or str(e.name).split('::')[0] in ('FnMut', 'FnOnce', 'Fn'))]
            c.stats['collider listings'] = c.stats.get('collider listings', 0) + len(ev)
            if ty != 'Collider3D':
                return
            tot = F
            for e in ev:
                a = e.args[1:] if len(e.args) > 1 else e.args
                x = a[0].a[2][0] if a[0].op == 'agg' and a[0].a[0] == 'tuple' else a[0]
                c.eq(ty + '/with_colliders/part', x, sym('arg0'), r.uid, 'a collider lists itself as its only part', pc=e.pc)
                tot = bor(tot, e.pc)
            c.holds(ty + '/with_colliders/lists-itself', tot, r.uid, 'a collider lists itself')
            ub = c.on(ty, tr, 'has_additional_colliders')
            for i, nm, fs in ck:
                if i == box[0]:
                    continue
                v = c.val(ub, agg(d, i, tuple(sym('a%d' % k) for k in range(len(fs)))))
                c.eq(ty + '/has_additional_colliders/' + nm, v, B(T), ub, 'a collider that is not a box must not be replaced by its bounding box')
        c.guard(ty + '/with_colliders', own)
    c.floor('types with colliders', n, 1)

    # containers
    ct = 'IsColliderContainer3D'
    n = 0
    for im, ty in c.types_with(ct):
        n += 1
        c.guard('container/' + ty, container, c, ty, ct, tm, BB, CW)
    c.floor('collider containers', n, 4)
    return {'rule': 'every pair of collider kinds reaches an answer (following calls with exchanged arguments until a non-recursive one), both orders have the same '
                    'normal form (separating-axis tests compared as conditions over the projections); collecting over parts is a disjunction that starts false',
            'assumptions': ['with_colliders of implementors outside the crate calls the given function once per part and nothing else',
                            'the normalised direction is parallel to the vector it is made from (decided by A07)']}


def container(c, ty, ct, tm, BB, CW):
    p = c.p
    for m, single in (('any_element_collides_with_collider', True), ('any_element_collides_with_bounding', False)):
        key = '%s/%s' % (ty, m)
        u = c.on(ty, ct, m)
        bbc = c.m('BoundingBox3D', '', 'collides_with')
        me, other = sym('arg0'), sym('arg1')
        own = tuple(uu for im2, uu in p.methods(ty, '', None))
        ni = (tm['collides_with'], bbc) + own
        r = c.call(u, None, None, noinline=ni)
        v = r.ret

        def hit(x, y=other):
            if single:
                return atom(boolcall(CW, x, y))
            return atom(boolcall(c.opname(bbc), calls(BB, y), calls(BB, x)))
        posts = [t for t in subterms(v) if t.op == 'post']
        if posts:
            # a search structure that hands out candidates (T02 decides that no overlapping element is withheld)
            seen = [t.a[0].a[0] for t in posts]
            for t in posts:
                over_parts(c, key, u, v, t.a[0].a[0], (lambda part: B(hit(part))) if single else (lambda part: B(T)), ni)
                a = t.a[0].a[1]
                if not any(x is calls(BB, other) for x in a):
                    c.fail(key + '/region', 'the candidates asked for are not those of the other object\'s bounding box', u, {'computed': show(t.a[0])[:400]})
                else:
                    c.good(key + '/region')
            continue
        b = mk('bv', 'k')
        for k in range(4):
            seq = mk('agg', 'array', 0, tuple(sym('part%d' % i) for i in range(k)))
            rr = c.call(u, seq, None, noinline=ni)
            w = F
            for i in range(k):
                h = hit(sym('part%d' % i))
                w = bor(w, h)
            c.eq('%s/%d' % (key, k), norm(c, rr.ret, bbc), norm(c, B(w), bbc), u, 'some element collides, of %d' % k)
        e = atom(mk('exists', engine.length(me), b, B(hit(mk('sel', me, b)))))
        c.eq(key, norm(c, v, bbc), norm(c, B(e), bbc), u, 'some element collides', maxlen=4)


def norm(c, v, bbc):
    """overlap of boxes does not depend on the order (A04): name the arguments in one order"""
    nm = c.opname(bbc)
    m = {}
    for t in subterms(v):
        if t.op == 'call' and t.a[0] == nm and show(t.a[1][0]) > show(t.a[1][1]):
            m[t] = B(atom(boolcall(nm, t.a[1][1], t.a[1][0])))
    return subst(v, m) if m else v

"""K01: containers hold exactly the elements put in, in order."""
import functools
from base import *
import p_a02
from p_a08 import rootseq


def sorter(c, more=None):
    """valuations under which sorting by a comparison or a key closure means what it says"""
    memo = {}
    nat = nat_hook(c.p)

    def term(f, n):
        if f.op != 'agg' or f.a[0] != 'closure':
            return None, None
        u = f.a[1]
        if u not in memo:
            cap = agg('closure', u, tuple(sym('cap%d' % i) for i in range(len(f.a[2]))))
            memo[u] = c.val(u, cap, *[sym('cmp_%s' % x) for x in 'ab'[:n]])
        return memo[u], f.a[2]

    def hook(e, t):
        if t.op == 'call' and t.a[0] in ('sort_by', 'sort_unstable_by', 'sort_by_key', 'sort_unstable_by_key', 'sort_by_cached_key'):
            v, f = t.a[1]
            n = 1 if 'key' in t.a[0] else 2
            x, cap = term(f, n)
            if x is None:
                return None
            caps = [e.ev(y) for y in cap]

            def at(*xs):
                return e.binder([sym('cap%d' % i) for i in range(len(caps))] + [sym('cmp_a'), sym('cmp_b')][:n], caps + list(xs)).ev(x)
            xs = e.toseq(e.ev(v)).xs
            if n == 1:
                return evalt.Seq(sorted(xs, key=lambda y: e.number(at(y))))

            def cmp(a, b):
                r = at(a, b)
                if not isinstance(r, evalt.Agg):
                    raise evalt.Unsupported('ordering')
                return r.v - 1
            return evalt.Seq(sorted(xs, key=functools.cmp_to_key(cmp)))
        if more is not None:
            r = more(e, t)
            if r is not None:
                return r
        return nat(e, t)
    return hook


def run(c):
    n = 0
    for im, ty in c.types_with('IsPushable'):
        n += 1
        c.guard(ty + '.push', pushed, c, ty, im)
    c.floor('types elements are pushed to', n, 5)
    n = 0
    for im, ty in c.types_with('IsDataContainer'):
        n += 1
        c.guard(ty + '.data', data, c, ty, im)
    c.floor('data containers', n, 5)
    n = 0
    for im, ty in c.types_with('IsRandomAccessible'):
        n += 1
        c.guard(ty + '.access', access, c, ty, im)
    c.floor('random access containers', n, 4)
    n = 0
    for im, ty in c.types_with('IsRandomInsertible'):
        n += 1
        c.guard(ty + '.insert', insert, c, ty, im)
    c.floor('containers with insertion', n, 4)
    n = 0
    for im, ty in c.types_with('IsMergeable'):
        if not ty.startswith('BoundingBox'):
            n += 1
            c.guard(ty + '.merge', merge, c, ty, im)
    c.floor('mergeable containers', n, 2)
    n = 0
    for im, ty in c.types_with('IsSortableND'):
        n += 1
        c.guard(ty + '.sort', sort, c, ty, im)
    c.floor('sortable containers', n, 2)
    n = 0
    for im, ty in c.types_with('IsEditablePolygon'):
        n += 1
        c.guard(ty + '.polygon', polygon, c, ty, im)
    c.floor('editable polygons', n, 2)
    c.guard('functions', functions, c)
    return {'rule': 'normal forms of every operation that puts elements in, counts, reads, replaces, inserts, merges or sorts them: the sequence held afterwards must '
                    'be the one the operation is named after, for sequences of any content and length; comparisons and distances in one dimension use that dimension'}


def on(c, ty, tr, name):
    u, s = c.on(ty, tr, name)
    return u, s


def root(c, ty, im, tr, u):
    return sym('self') if ty in p_a02.SEQ else rootseq(c, ty, u[0], u[1], tr)


def held(c, im, u, v, s=None):
    """value like `self` that holds the sequence v"""
    st = c.p.rt(im['self'], u[1])
    return p_a02.wrap(c, sym('self') if s is None else s, st, v)


def isflat(c, ty, im):
    """positions stored as a flat sequence of numbers"""
    st = c.p.rt(im['self'])
    if st[0] != 'adt' or st[1] not in c.p.adts:
        return False
    a = c.p.adts[st[1]]
    return any(c.p.type_name(c.p.rt(ft)) in p_a02.SEQ and c.p.rt(ft)[2][0][0] == 'prim' for n, ft, pub in a['v'][0][1])


def pushed(c, ty, im):
    if isflat(c, ty, im):
        return flat(c, ty, im, 'IsPushable', 'push', 'reserve')
    u = on(c, ty, 'IsPushable', 'push')
    d = root(c, ty, im, 'IsPushable', u)
    x = sym('x')
    r = c.call(u, sym('self'), x)
    c.eq(ty + '.push', r.post(0), held(c, im, u, engine.push(d, x)), u, 'the element is added behind the present ones, nothing else changes')
    c.eq(ty + '.push/returns', B(r.pc), B(T), u, 'pushing always succeeds')
    u = on(c, ty, 'IsPushable', 'reserve')
    r = c.call(u, sym('self'), sym('n_more'))
    c.eq(ty + '.reserve', r.post(0), sym('self'), u, 'room for more changes no element')


def data(c, ty, im):
    tr = 'IsDataContainer'
    if isflat(c, ty, im):
        flat(c, ty, im, tr, 'push_d', 'reserve_d')
        return flatdata(c, ty, im)
    u = on(c, ty, tr, 'push_d')
    d = root(c, ty, im, tr, u)
    x, i = sym('x'), sym('n_index')
    r = c.call(u, sym('self'), x)
    c.eq(ty + '.push_d', r.post(0), held(c, im, u, engine.push(d, x)), u, 'the element is added behind the present ones, nothing else changes')
    u = on(c, ty, tr, 'reserve_d')
    c.eq(ty + '.reserve_d', c.call(u, sym('self'), sym('n_more')).post(0), sym('self'), u, 'room for more changes no element')
    u = on(c, ty, tr, 'len_d')
    c.eq(ty + '.len_d', c.val(u, sym('self')), engine.length(d), u, 'the number of elements held')
    u = on(c, ty, tr, 'get_d')
    r = c.call(u, sym('self'), i)
    inside = as_bdd(cmp('lt', i, engine.length(d), False))
    c.eq(ty + '.get_d.some', B(is_some(r.ret)), B(inside), u, 'an answer exactly for the positions of elements')
    h = cloned(c)
    c.eq(ty + '.get_d', someval(r.ret), engine.sel(d, i), u, 'the element stored at the position', pc=inside, hook=h)
    u = on(c, ty, tr, 'set_d')
    r = c.call(u, sym('self'), i, x)
    c.eq(ty + '.set_d', r.post(0), held(c, im, u, engine.store(d, i, x)), u, 'replaces the element at the position, nothing else', pc=inside)
    c.eq(ty + '.set_d/returns', B(band(r.pc, inside)), B(inside), u, 'replacing an element succeeds')


def cloned(c, more=None):
    """a clone of an element is the element"""
    nat = nat_hook(c.p)

    def hook(e, t):
        if t.op == 'call' and str(t.a[0]) in ('Clone::clone', 'ToOwned::to_owned') and len(t.a[1]) == 1:
            return e.ev(t.a[1][0])
        if more is not None:
            r = more(e, t)
            if r is not None:
                return r
        return nat(e, t)
    return hook


def access(c, ty, im):
    u = on(c, ty, 'IsRandomAccessible', 'len')
    d = root(c, ty, im, 'IsRandomAccessible', u)
    c.eq(ty + '.len', c.val(u, sym('self')), engine.length(d), u, 'the number of elements held')
    if ty in p_a02.SEQ:
        return
    i = sym('n_index')
    inside = as_bdd(cmp('lt', i, engine.length(d), False))
    for name in ('index', 'index_mut'):
        u = c.on(ty, 'Index' if name == 'index' else 'IndexMut', name)
        r = c.call(u, sym('self'), i, pc=inside)
        v = r.an.deep_read(r.st, r.ret) if hasattr(r, 'st') else deref(c, r.ret)
        c.eq('%s.%s' % (ty, name), v, engine.sel(d, i), u, 'the element stored at the position', pc=inside)
        c.eq('%s.%s/returns' % (ty, name), B(band(r.pc, inside)), B(inside), u, 'every element can be reached', pc=inside)
        c.eq('%s.%s/unchanged' % (ty, name), r.post(0), sym('self'), u, 'looking at an element changes nothing', pc=inside)


def insert(c, ty, im):
    u = on(c, ty, 'IsRandomInsertible', 'insert')
    d = root(c, ty, im, 'IsRandomInsertible', u)
    i, x = sym('n_index'), sym('x')
    r = c.call(u, sym('self'), i, x)
    n = engine.length(d)
    # (at the end there is push; whether insertion works there, too, is left open)
    ok = is_ok(r.ret)
    c.holds(ty + '.insert.inside', ok, u, 'accepted at the position of every element', pc=as_bdd(cmp('lt', i, n, False)))
    c.holds(ty + '.insert.outside', bnot(ok), u, 'refused behind the end', pc=as_bdd(cmp('gt', i, n, False)))

    def more(e, t):
        if t.op == 'call' and t.a[0] == 'INSERTED':
            xs = list(e.toseq(e.ev(d)).xs)
            k = int(e.number(e.ev(i)))
            return evalt.Seq(xs[:k] + [e.ev(x)] + xs[k:])
        if t.op == 'call' and t.a[0] == 'SEQ':
            return e.toseq(e.ev(t.a[1][0]))
        return None
    got = rootof(c, im, u, r.post(0))
    c.eq(ty + '.insert', mk('call', 'SEQ', (got,)), mk('call', 'INSERTED', ()), u, 'the element is placed at the position, the others keep their order', pc=ok, hook=cloned(c, more))


def rootof(c, im, u, v):
    d = []

    def go(v, t):
        if c.p.type_name(t) in p_a02.SEQ:
            d.append(v)
            return
        a = c.p.adts.get(t[1]) if t[0] == 'adt' else None
        if a is None:
            return
        g = [x for x in a['g'] if not x.startswith("'")]
        s = tuple(t[2][i] if i < len(t[2]) else None for i in range(len(g)))
        for i, (n, ft, pub) in enumerate(a['v'][0][1]):
            if not d:
                go(getk(v, ('f', i)), c.p.rt(ft, s))
    go(v, c.p.rt(im['self'], u[1]))
    if not d:
        raise TooComplex('no sequence')
    return d[0]


def seqs(c, more=None):
    def m(e, t):
        if t.op == 'call' and t.a[0] == 'SEQ':
            return e.toseq(e.ev(t.a[1][0]))
        if t.op == 'call' and t.a[0] == 'CAT':
            return evalt.Seq([x for y in t.a[1] for x in e.toseq(e.ev(y)).xs])
        if more is not None:
            return more(e, t)
        return None
    return m


def merge(c, ty, im):
    a, b = sym('self'), sym('other')
    for name in ('consume', 'combine'):
        u = on(c, ty, 'IsMergeable', name)
        d = rootof(c, im, u, a)
        o = rootof(c, im, u, b)
        r = c.call(u, a, b)
        v = r.post(0) if name == 'consume' else r.ret
        h = cloned(c, seqs(c))
        c.eq('%s.%s' % (ty, name), mk('call', 'SEQ', (rootof(c, im, u, v),)), mk('call', 'CAT', (d, o)), u, 'the elements of the first followed by those of the second', hook=h)
        if name == 'combine':
            c.eq('%s.combine/first' % ty, r.post(0), a, u, 'the operands of a combination stay as they are')
            c.eq('%s.combine/second' % ty, r.post(1), b, u, 'the operands of a combination stay as they are')
        c.eq('%s.%s/returns' % (ty, name), B(r.pc), B(T), u, 'merging always succeeds')


def sort(c, ty, im):
    dim = 2 if '2D' in ty else 3
    s = sym('self')
    el = sym('element')

    def axis(e, k, x):
        return e.number(e.binder(el, x).ev(calls('Is%dD::%s' % (dim, AX[k]), el)))

    def more(d, k):
        def m(e, t):
            if t.op == 'call' and t.a[0] == 'SORTED':
                # the coordinates in ascending order and the same elements
                xs = e.toseq(e.ev(d)).xs
                return evalt.Agg('', 0, [evalt.Seq(sorted(axis(e, k, x) for x in xs)), evalt.Seq([evalt.Tok(q) for q in sorted(evalt.key(x) for x in xs)])])
            if t.op == 'call' and t.a[0] == 'GOT':
                xs = e.toseq(e.ev(t.a[1][0])).xs
                return evalt.Agg('', 0, [evalt.Seq([axis(e, k, x) for x in xs]), evalt.Seq([evalt.Tok(q) for q in sorted(evalt.key(x) for x in xs)])])
            return None
        return sorter(c, m)

    def order(key, u, v, d, k, pc=T):
        c.eq(key, mk('call', 'GOT', (v,)), mk('call', 'SORTED', ()), u, 'the same elements, ascending in %s' % AX[k], pc=pc, hook=more(d, k), maxlen=4)
    for k in range(dim):
        u = on(c, ty, 'IsSortable%dD' % dim, 'sort_' + AX[k])
        r = c.call(u, s)
        order('%s.sort_%s' % (ty, AX[k]), u, rootof(c, im, u, r.post(0)), rootof(c, im, u, s), k)
        u = on(c, ty, 'IsSortableND', 'sort_dim')
        r = c.call(u, s, num(k))
        c.holds('%s.sort_dim(%d).ok' % (ty, k), is_ok(r.ret), u, 'an axis the elements have')
        order('%s.sort_dim(%d)' % (ty, k), u, rootof(c, im, u, r.post(0)), rootof(c, im, u, s), k)
    n = sym('n_dim')
    r = c.call(u, s, n)
    no = as_bdd(cmp('ge', n, num(dim), False))
    c.holds('%s.sort_dim.unknown' % ty, is_err(r.ret), u, 'an axis the elements do not have is refused', pc=no)
    c.eq('%s.sort_dim.unknown/unchanged' % ty, r.post(0), s, u, 'nothing is sorted then', pc=no)
    u = on(c, ty, 'IsSortableND', 'n_dimensions')
    c.eq('%s.n_dimensions' % ty, c.val(u), num(dim), u, 'the number of axes')
    # the helpers that sort plain vectors
    for k in range(dim):
        try:
            u = c.f('sort_vec_%dd_%s' % (dim, AX[k]))
        except Missing:
            continue
        r = c.call(u, s)
        order('sort_vec_%dd_%s' % (dim, AX[k]), u, r.post(0), s, k)


def polygon(c, ty, im):
    tr = 'IsEditablePolygon'
    u = on(c, ty, tr, 'add_vertex')
    d = root(c, ty, im, tr, u)
    x, i = sym('x'), sym('n_index')
    r = c.call(u, sym('self'), x)
    c.eq(ty + '.add_vertex', r.post(0), held(c, im, u, engine.push(d, x)), u, 'the vertex is added behind the present ones')
    c.eq(ty + '.add_vertex/returns', B(r.pc), B(T), u, 'adding always succeeds')


def flat(c, ty, im, tr, push, reserve):
    P = c.ty('Point3D')
    u = c.on(ty, tr, push, P=P)
    d = rootof(c, im, u, sym('self'))
    x = c.struct('Point3D', 'x')
    want = d
    for k in range(3):
        want = engine.push(want, mk('f32', c.get(x, 'Point3D', AX[k])))
    r = c.call(u, sym('self'), x)
    c.eq('%s.%s' % (ty, push), r.post(0), held(c, im, u, want), u, 'the three numbers are added behind the present ones, x first')
    c.eq('%s.%s/returns' % (ty, push), B(r.pc), B(T), u, 'pushing always succeeds')
    u = c.on(ty, tr, reserve, P=P)
    c.eq('%s.%s' % (ty, reserve), c.call(u, sym('self'), sym('n_more')).post(0), sym('self'), u, 'room for more changes no element')


def flatdata(c, ty, im):
    tr = 'IsDataContainer'
    P = c.ty('Point3D')
    i = sym('n_index')
    s = sym('self')
    get, sett, ln = (c.on(ty, tr, n, P=P) for n in ('get_d', 'set_d', 'len_d'))
    d = rootof(c, im, get, s)

    def more(e, t):
        if t.op == 'call' and t.a[0] == 'COUNT':
            return Fraction(e.length(e.ev(d)) // 3)
        return None
    nat = nat_hook(c.p)

    def hook(e, t):
        r = more(e, t)
        return nat(e, t) if r is None else r
    n = mk('call', 'COUNT', ())
    c.eq(ty + '.len_d', c.val(ln, s), n, ln, 'the number of positions held', hook=hook, maxlen=10)
    inside = as_bdd(cmp('lt', add(mul(num(3), i), num(2)), engine.length(d), False))
    r = c.call(get, s, i)
    c.eq(ty + '.get_d.some', B(is_some(r.ret)), B(inside), get, 'an answer exactly for positions held', hook=hook, maxlen=10)
    x = c.struct('Point3D', 'x')
    w = d
    for k in range(3):
        c.eq('%s.get_d.%s' % (ty, AX[k]), c.get(someval(r.ret), 'Point3D', AX[k]), engine.sel(d, add(mul(num(3), i), num(k))), get,
             'the number stored for that axis', pc=inside, hook=hook, maxlen=10)
        w = engine.store(w, add(mul(num(3), i), num(k)), mk('f32', c.get(x, 'Point3D', AX[k])))
    r = c.call(sett, s, i, x)
    c.eq(ty + '.set_d', r.post(0), held(c, im, sett, w), sett, 'replaces the position, nothing else', pc=inside, hook=hook, maxlen=10)


def functions(c):
    a, b = sym('a'), sym('b')
    for k in range(3):
        u = c.f('dimension_compare')
        A, Bq = calls('Is3D::' + AX[k], a), calls('Is3D::' + AX[k], b)
        r = c.val(u, a, b, num(k))
        c.holds('dimension_compare(%d).ok' % k, is_ok(r), u, 'numbers can be compared')
        for name, kind, v in (('less', 'lt', 0), ('equal', 'eq', 1), ('greater', 'gt', 2)):
            c.eq('dimension_compare(%d).%s' % (k, name), B(is_variant(okval(r), v, 3)), cmp(kind, A, Bq, True), u, 'compares in that dimension')
        u = c.f('dimension_dist')
        r = c.val(u, a, b, num(k))
        c.holds('dimension_dist(%d).ok' % k, is_ok(r), u, 'a dimension positions have')
        dd = sub(A, Bq)
        c.eq('dimension_dist(%d)' % k, okval(r), mkmax(dd, neg(dd)), u, 'absolute difference in that dimension')
    n = sym('n_dim')
    no = as_bdd(cmp('ge', n, num(3), False))
    for name in ('dimension_compare', 'dimension_dist'):
        u = c.f(name)
        c.holds(name + '.unknown', is_err(c.val(u, a, b, n)), u, 'a dimension positions do not have is refused', pc=no)
    x, y, z = sym('x'), sym('y'), sym('z')
    for name, f in (('min64', mkmin), ('max64', mkmax), ('max_f64', mkmax)):
        u = c.f(name)
        c.eq(name, c.val(u, x, y), f(x, y), u, 'the smaller or larger of two numbers')
    u = c.f('max_f64_3')
    c.eq('max_f64_3', c.val(u, x, y, z), mkmax(x, mkmax(y, z)), u, 'the largest of three numbers')

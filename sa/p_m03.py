"""M03: unknown ids and out-of-range indices are refused, never a crash."""
from base import *
import p_m05

HUGE = [(1 << 64) - 1, (1 << 64) - 2, (1 << 64) - 3, 1 << 63, (1 << 64) // 3, (1 << 64) // 3 + 1, (1 << 65) // 3 + 1, (1 << 64) // 2 - 1]


def idval(e, name):
    """ids: small ones, the ones around every boundary, and the largest representable"""
    h = int(evalt._h('id', e.seed, e.mode, name)[:10], 16)
    return Fraction(HUGE[(h >> 8) % len(HUGE)] if h % 4 == 0 else (h >> 8) % 9)


def idhook(e, t):
    if t.op == 'sym' and str(t.a[0]).startswith('n_'):
        x = e.over.get(('nat', t))
        return idval(e, t.a[0]) if x is None else Fraction(x)
    return None


KW = dict(hook=idhook, rounds=300, maxlen=(0, 3, 6))


def lt(a, b):
    return as_bdd(cmp('lt', a, b, False))


def eqn(a, b):
    return as_bdd(cmp('eq', a, b, False))


def nopanic(c, key, r, u, pc=T, what='', **kw):
    """every check the compiler put in (bounds, overflow, unwrap of none) holds for every id"""
    for i, o in enumerate(r.an.oblig):
        c.holds('%s/no-panic/%d' % (key, i), bor(bnot(band(pc, o.pc)), o.ok), u, '%snever panics or wraps around: %s' % (what, o.desc), **(kw or KW))


def params(c, u, name):
    """the element type"""
    pt = c.ty('Point2D' if '2D' in name else 'Point3D')
    return {g: pt for g in c.p.bodies[u]['g'] if g in ('P', 'T')}


def run(c):
    p = c.p
    n = 0
    for im, name in c.types_with('IsDataContainer'):
        n += 1
        c.guard(name, container, c, name)
    c.floor('element containers', n, 4)
    n = 0
    for im, name in c.types_with('IsRandomInsertible'):
        n += 1
        c.guard(name + '.insert', insertible, c, name)
    c.floor('containers with insertion', n, 4)
    n = 0
    for im, name in c.types_with('IsTopologyUnit'):
        n += 1
        c.guard(name + '.vid', unit, c, name)
    c.floor('topology units', n, 1)
    n = 0
    for im, name in c.types_with('IsPolygon'):
        n += 1
        c.guard(name, polygon, c, name)
    c.floor('polygons', n, 2)
    c.guard('Mesh3D', mesh, c)
    c.guard('half edge', halfedge, c)
    return {'rule': 'for every operation that takes an id or index and answers optionally or fallibly: the condition of a positive answer (value-flow normal form) equals "the id exists", '
                    'the answer is the element of that id (relations between the operations of the type), and every compiler-inserted check (bounds, overflow, unwrap) on its paths holds',
            'assumptions': ['ids of every magnitude: around the number of elements, 2^64/3, 2^63 and 2^64-1; containers of 0, 3 and 6 elements',
                            'half edge and searchable mesh: the mesh is not changed after the structure was built (documented)']}


def container(c, name):
    def g(m):
        return c.on(name, 'IsDataContainer', m, **params(c, c.m(name, 'IsDataContainer', m), name))
    v, i, j, x = sym('v'), sym('n_i'), sym('n_j'), sym('x')
    x = pointval(c, name)
    n = c.val(g('len_d'), v)
    get = lambda q, k: c.call(g('get_d'), q, k)
    r = get(v, i)
    u = c.m(name, 'IsDataContainer', 'get_d')
    c.eq(name + '.get_d/accepted', B(is_some(r.ret)), B(lt(i, n)), u, 'answered exactly for the positions that exist', **KW)
    nopanic(c, name + '.get_d', r, u)
    old = lambda k: someval(get(v, k).ret)
    w = c.call(g('set_d'), v, i, x)
    us = c.m(name, 'IsDataContainer', 'set_d')
    nopanic(c, name + '.set_d', w, us, pc=lt(i, n))
    after = w.post(0)
    c.eq(name + '.set_d/len', c.val(g('len_d'), after), n, us, 'storing does not change the number of elements', pc=lt(i, n), **KW)
    c.eq(name + '.set_d/there', someval(get(after, i).ret), x, us, 'what was stored is read back', pc=lt(i, n), **KW)
    c.eq(name + '.set_d/elsewhere', someval(get(after, j).ret), old(j), us, 'the other elements stay', pc=band(band(lt(i, n), lt(j, n)), bnot(eqn(i, j))), **KW)
    w = c.call(g('push_d'), v, x)
    up = c.m(name, 'IsDataContainer', 'push_d')
    after = w.post(0)
    c.eq(name + '.push_d/len', c.val(g('len_d'), after), add(n, num(1)), up, 'one element more', **KW)
    c.eq(name + '.push_d/last', someval(get(after, n).ret), x, up, 'the new element is the last one', **KW)
    c.eq(name + '.push_d/others', someval(get(after, j).ret), old(j), up, 'the other elements stay', pc=lt(j, n), **KW)


def pointval(c, name):
    d = ('x', 'y') if '2D' in name else ('x', 'y', 'z')
    ty = 'Point2D' if '2D' in name else 'Point3D'
    a = c.adt(ty)
    if len(a['v'][0][1]) != len(d):
        return sym('x')
    return agg(a['d'], 0, tuple(sym('p' + k) for k in d))


def insertible(c, name):
    def g(m, tr='IsDataContainer'):
        return c.on(name, tr, m, **params(c, c.m(name, tr, m), name))
    v, i, j, x = sym('v'), sym('n_i'), sym('n_j'), pointval(c, name)
    n = c.val(g('len_d'), v)
    u = c.m(name, 'IsRandomInsertible', 'insert')
    r = c.call(g('insert', 'IsRandomInsertible'), v, i, x)
    key = name + '.insert'
    ok = is_ok(r.ret)
    # whether inserting behind the last element is allowed is up to the container
    c.holds(key + '/accepted', ok, u, 'every position that exists is accepted', pc=lt(i, n), **KW)
    c.holds(key + '/refused', bnot(ok), u, 'a position beyond the end is refused', pc=lt(n, i), **KW)
    nopanic(c, key, r, u)
    after = r.post(0)
    get = lambda q, k: someval(c.val(g('get_d'), q, k))
    c.eq(key + '/len', c.val(g('len_d'), after), add(n, num(1)), u, 'one element more', pc=ok, **KW)
    c.eq(key + '/there', get(after, i), x, u, 'the new element is at the position', pc=ok, **KW)
    c.eq(key + '/before', get(after, j), get(v, j), u, 'the elements in front stay', pc=band(ok, lt(j, i)), **KW)
    c.eq(key + '/behind', get(after, add(j, num(1))), get(v, j), u, 'the elements behind move up by one', pc=band(ok, band(lt(j, n), bnot(lt(j, i)))), **KW)


def unit(c, name):
    f, i = sym('f'), sym('n_i')
    u = c.m(name, 'IsTopologyUnit', 'vid')
    r = c.call(u, f, i)
    fields = [k for k, (fn, t, pub) in enumerate(c.adt(name)['v'][0][1])]
    n = c.val(c.m(name, 'IsTopologyUnit', 'n_vids'))
    c.eq(name + '.vid/accepted', B(is_some(r.ret)), B(lt(i, n)), u, 'answered exactly for the positions that exist', **KW)
    for k in fields:
        c.eq('%s.vid/%d' % (name, k), someval(r.ret), getk(f, ('f', k)), u, 'the id at position %d' % k, pc=eqn(i, num(k)), **KW)
    nopanic(c, name + '.vid', r, u)


def polygon(c, name):
    pt = {'P': c.ty('Point2D' if '2D' in name else 'Point3D')}
    pt['V'] = pt['P']

    def g(m, tr='IsPolygon'):
        u, sub = c.on(name, tr, m, **pt)
        return u, tuple(c.ty(name, pt['P']) if gn == 'Self' else s for gn, s in zip(c.p.bodies[u]['g'], sub))
    sid = lambda x: agg(c.adt('SId')['d'], 0, (x,))
    vid = lambda x: agg(c.adt('VId')['d'], 0, (x,))
    v, i, j, x = sym('v'), sym('n_i'), sym('n_j'), pointval(c, name)
    ns = c.val(g('num_segments'), v)
    nv = c.val(g('num_vertices'), v)
    c.eq(name + '.num_vertices', nv, ns, g('num_vertices')[0], 'a closed polygon has as many vertices as segments', **KW)
    r = c.call(g('segment_vertex_ids'), v, sid(i))
    u = g('segment_vertex_ids')[0]
    key = name + '.segment_vertex_ids'
    c.eq(key + '/accepted', B(is_some(r.ret)), B(lt(i, ns)), u, 'answered exactly for the segments that exist', **KW)
    want = agg('tuple', 0, [vid(i), vid(gam([(eqn(add(i, num(1)), ns), num(0)), (bnot(eqn(add(i, num(1)), ns)), add(i, num(1)))]))])
    c.eq(key, someval(r.ret), want, u, 'a segment joins consecutive vertices, the last one the last and the first', pc=lt(i, ns), **KW)
    nopanic(c, key, r, u)
    vert = lambda q, k: c.call(g('vertex'), q, vid(k))
    r = vert(v, i)
    u = g('vertex')[0]
    c.eq(name + '.vertex/accepted', B(is_some(r.ret)), B(lt(i, nv)), u, 'answered exactly for the vertices that exist', **KW)
    nopanic(c, name + '.vertex', r, u)
    r = c.call(g('segment_vertices'), v, sid(i))
    u = g('segment_vertices')[0]
    key = name + '.segment_vertices'
    c.eq(key + '/accepted', B(is_some(r.ret)), B(lt(i, ns)), u, 'answered exactly for the segments that exist', **KW)
    second = gam([(eqn(add(i, num(1)), ns), someval(vert(v, num(0)).ret)), (bnot(eqn(add(i, num(1)), ns)), someval(vert(v, add(i, num(1))).ret))])
    c.eq(key, someval(r.ret), agg('tuple', 0, [someval(vert(v, i).ret), second]), u, 'the vertices of the segment', pc=lt(i, ns), **KW)
    nopanic(c, key, r, u)
    if c.p.trait_by_name.get('IsEditablePolygon') and name in [t for _, t in c.types_with('IsEditablePolygon')]:
        editable(c, name, g, 'IsEditablePolygon', v, nv, vert, vid, x)


def editable(c, name, g, tr, v, nv, vert, vid, x, kw=None):
    kw = kw or KW
    i, j = sym('n_i'), sym('n_j')
    r = c.call(g('change_vertex', tr), v, vid(i), x)
    u = g('change_vertex', tr)[0]
    key = name + '.change_vertex'
    c.eq(key + '/accepted', B(is_ok(r.ret)), B(lt(i, nv)), u, 'accepted exactly for the vertices that exist', **kw)
    nopanic(c, key, r, u, **kw)
    after = r.post(0)
    c.eq(key + '/there', someval(vert(after, i).ret), x, u, 'the vertex is the new one', pc=lt(i, nv), **kw)
    c.eq(key + '/elsewhere', vert(after, j).ret, vert(v, j).ret, u, 'the other vertices stay', pc=band(lt(i, nv), bnot(eqn(i, j))), **kw)


# ---------------------------------------------------------------- meshes
class MeshLaw:
    """a mesh that only references vertices it contains: positions and topology are drawn per valuation"""

    def __init__(self, c, pc, topo, nv=None):
        self.c, self.pc, self.topo = c, pc, topo
        self.memo = {}

    def mesh(self, e):
        k = (e.seed, e.mode)
        r = self.memo.get(k)
        if r is None:
            import random
            rnd = random.Random('mesh%s' % (k,))
            nv = rnd.choice((0, 1, 3, 3, 4, 5))
            nf = rnd.choice((0, 1, 2, 3)) if nv >= 3 else 0
            r = self.memo[k] = (nv, [v for _ in range(nf) for v in rnd.sample(range(nv), 3)])
        return r

    def __call__(self, e, t):
        if t is self.pc:
            return evalt.Seq([evalt.Tok(evalt._h('vertex', e.seed, k)) for k in range(self.mesh(e)[0])])
        if t is self.topo:
            return evalt.Seq([Fraction(x) for x in self.mesh(e)[1]])
        if t.op == 'sym' and str(t.a[0]).startswith('n_'):
            if ('nat', t) in e.over:
                return Fraction(e.over[('nat', t)])
            h = int(evalt._h('meshid', e.seed, e.mode, t.a[0])[:10], 16)
            nv, idx = self.mesh(e)
            if h % 8 == 0:
                return idval(e, t.a[0])
            # up to and including the first id that does not exist
            return Fraction((h >> 8) % ((len(idx) // 3 if t.a[0] == 'n_face' or h % 8 == 1 else nv) + 2))
        return idhook(e, t)


class MeshEnv:
    """Mesh3D over Vec<Point3D> and Vec<usize>, built from symbolic parts"""

    def __init__(self, c):
        self.c = c
        p = c.p
        self.pt = c.ty('Point3D')
        self.ic = p_m05.vec_of_usize(c)
        self.id = ('adt', self.ic[1], (self.pt,) + tuple(self.ic[2][1:]))
        self.self = c.ty('Mesh3D', self.pt, self.id, self.ic)
        self.pc, self.topo = sym('positions'), sym('topology')
        self.law = MeshLaw(c, self.pc, self.topo)
        self.kw = dict(hook=self.law, rounds=500, maxlen=(0, 3, 6))
        fr = [u for im, u in p.methods('Mesh3D', 'From', 'from')]
        if len(fr) != 1:
            raise Missing('Mesh3D from its parts')
        self.m = c.val(self.sub(fr[0]), agg('tuple', 0, [self.pc, self.topo]))

    def sub(self, u):
        return u, p_m05.fullsub(self.c, u, P=self.pt, ID=self.id, IC=self.ic, Self=self.self, M=self.self)

    def g(self, m, tr='IsMesh'):
        return self.sub(self.c.on('Mesh3D', tr, m)[0])

    def wrap(self, kind, x):
        return agg(self.c.adt(kind)['d'], 0, (x,))

    def call(self, m, tr, *a):
        return self.c.call(self.g(m, tr), *a)

    def nv(self, q):
        return self.call('num_vertices', 'IsMesh', q).ret

    def nf(self, q):
        return self.call('num_faces', 'IsMesh', q).ret

    def vertex(self, q, k):
        return self.call('vertex', 'IsMesh', q, self.wrap('VId', k))

    def ids(self, q, k):
        return self.call('face_vertex_ids', 'IsMesh', q, self.wrap('FId', k))

    def point(self):
        return agg(self.c.adt('Point3D')['d'], 0, tuple(sym('p' + k) for k in 'xyz'))


def unbox(t):
    while t.op == 'agg' and len(t.a[2]) == 1:
        t = t.a[2][0]
    return t


def idnum(t):
    """the number in an id"""
    return getk(t, ('f', 0))


def mesh(c):
    E_ = MeshEnv(c)
    m, kw, i, j = E_.m, E_.kw, sym('n_i'), sym('n_j')
    nf, nv = E_.nf(m), E_.nv(m)
    r = E_.ids(m, i)
    u = E_.g('face_vertex_ids')[0]
    c.eq('Mesh3D.face_vertex_ids/accepted', B(is_some(r.ret)), B(lt(i, nf)), u, 'answered exactly for the faces that exist', **kw)
    nopanic(c, 'Mesh3D.face_vertex_ids', r, u, **kw)
    r = E_.vertex(m, i)
    u = E_.g('vertex')[0]
    c.eq('Mesh3D.vertex/accepted', B(is_some(r.ret)), B(lt(i, nv)), u, 'answered exactly for the vertices that exist', **kw)
    nopanic(c, 'Mesh3D.vertex', r, u, **kw)
    r = E_.call('face_vertices', 'IsMesh', m, E_.wrap('FId', i))
    u = E_.g('face_vertices')[0]
    c.eq('Mesh3D.face_vertices/accepted', B(is_some(r.ret)), B(lt(i, nf)), u, 'answered exactly for the faces that exist', **kw)
    nopanic(c, 'Mesh3D.face_vertices', r, u, **kw)
    f = someval(E_.ids(m, i).ret)
    for k, fn in enumerate(('a', 'b', 'c')):
        c.eq('Mesh3D.face_vertices/%d' % k, engine.sel(someval(r.ret), num(k)), someval(E_.vertex(m, idnum(c.get(f, 'Face3', fn))).ret), u,
             'the position of vertex %s of the face' % fn, pc=lt(i, nf), **kw)
    a, b, d = sym('n_a'), sym('n_b'), sym('n_c')
    r = E_.call('try_add_connection', 'IsFaceEditableMesh', m, E_.wrap('VId', a), E_.wrap('VId', b), E_.wrap('VId', d))
    u = E_.g('try_add_connection', 'IsFaceEditableMesh')[0]
    want = T
    for x in (a, b, d):
        want = band(want, lt(x, nv))
    for x, y in ((a, b), (a, d), (b, d)):
        want = band(want, bnot(eqn(x, y)))
    c.eq('Mesh3D.try_add_connection/accepted', B(is_ok(r.ret)), B(want), u, 'accepted exactly for three different vertices that exist', **kw)
    nopanic(c, 'Mesh3D.try_add_connection', r, u, **kw)
    editable(c, 'Mesh3D', E_.g, 'IsVertexEditableMesh', m, nv, E_.vertex, lambda k: E_.wrap('VId', k), E_.point(), kw)
    r = E_.call('face_normal', 'IsMesh3D', m, E_.wrap('FId', i))
    u = E_.g('face_normal', 'IsMesh3D')[0]
    c.holds('IsMesh3D.face_normal/refused', is_err(r.ret), u, 'the normal of a face that does not exist is an error', pc=bnot(lt(i, nf)), **kw)
    nopanic(c, 'IsMesh3D.face_normal', r, u, **kw)


def halfedge(c):
    """navigation over edges: which ids are answered, and that none of them panics (what is answered: M05)"""
    p = c.p
    base = p_m05.Law(c, 3)

    def law(e, t):
        r = idhook(e, t)
        return base(e, t) if r is None else r
    ic = p_m05.vec_of_usize(c)
    kw = dict(hook=law, rounds=160)
    msh = sym('mesh')
    kinds = {'EId': ('edge', sym('n_e')), 'VId': ('vertex', sym('n_v')), 'FId': ('face', sym('n_f'))}
    n = 0

    def built(ty):
        u = c.m(ty, '', 'new')
        return c.call((u, p_m05.fullsub(c, u, IC=ic)), msh).ret

    st = c.ty('SearchableMesh', ('param', 'M'), ('param', 'T'), ic)

    def method(ty, obj, u, b):
        sub = p_m05.fullsub(c, u, Self=st, V=('param', 'T'), TU=c.ty('Face3'), IC=ic, M=('param', 'M'), T=('param', 'T'))
        vals, known = [obj], T
        for k in range(1, b['argc']):
            t = p.rt(b['locals'][k + 1][0], sub)
            while t[0] == 'ref':
                t = t[2]
            nm = t[1].split('::')[-1] if t[0] == 'adt' else ''
            if nm in kinds:
                kind, x = kinds[nm]
                vals.append(agg(c.adt(nm)['d'], 0, (x,)))
                known = band(known, p_m05.known(kind, x))
            else:
                vals.append(sym('buffer%d' % k))
        r = c.call((u, sub), *vals)
        rt = p.rt(b['locals'][0][0], sub)
        yes = is_ok(r.ret) if rt[1] == engine.RES else is_some(r.ret)
        key = '%s.%s' % (ty, b['name'])
        if b['name'].endswith('twin'):
            # an edge of the border has no twin
            c.holds(key + '/refused', bnot(yes), u, 'an id that does not exist is refused', pc=bnot(known), **kw)
        else:
            c.eq(key + '/accepted', B(yes), B(known), u, 'answered exactly for the ids that exist', **kw)
        nopanic(c, key, r, u, **kw)

    for ty in ('HalfEdge', 'SearchableMesh'):
        obj = built(ty)
        for im in p.impls:
            if p.self_name(im) != ty or (im.get('tr') or '').split('::')[-1] in ('IsMesh', 'IsVertexEditableMesh', 'IsMesh3D'):
                continue
            ms = list(im['m'])
            if (im.get('tr') or '').split('::')[-1] == 'IsSearchableMesh':
                have = {m for m, u in ms}
                ms += [(m, u) for m, u, dflt in p.traits[im['tr']]['m'] if dflt and m not in have]
            for m, u in ms:
                b = p.bodies.get(u)
                if b is None or b['argc'] < 2:
                    continue
                rt = p.rt(b['locals'][0][0])
                if rt[0] != 'adt' or rt[1] not in (engine.RES, engine.OPT):
                    continue
                ts = [p.rt(x[0]) for x in b['locals'][2:b['argc'] + 1]]
                if not any(t[0] == 'adt' and t[1].split('::')[-1] in kinds for t in ts):
                    continue
                n += 1
                c.guard('%s.%s' % (ty, m), method, ty, obj, u, b)
    c.floor('half edge operations taking ids', n, 21)

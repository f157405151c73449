"""G01: rebuilding a mesh keeps its surface (subdivide, heal, vertex normals, packing of duplicates)."""
from base import *
import itertools
import p_m05, p_m03
from engine import length, sel

# small meshes with every way faces can meet: (vertex classes, faces).  Vertices of one class have the same
# position, vertices of different classes differ (their x is the class number, y and z are symbols)
MESHES = [
    ('one-face', (0, 1, 2), [(0, 1, 2)]),
    ('two-faces-shared-edge', (0, 1, 2, 3), [(0, 1, 2), (2, 1, 3)]),
    ('same-direction-edge', (0, 1, 2, 3), [(0, 1, 2), (1, 2, 3)]),
    ('reversed-ids', (0, 1, 2, 3), [(3, 2, 1), (1, 2, 0)]),
    ('fan', (0, 1, 2, 3, 4), [(0, 1, 2), (0, 2, 3), (0, 3, 4), (0, 4, 1)]),
    ('tetrahedron', (0, 1, 2, 3), [(0, 2, 1), (0, 1, 3), (1, 2, 3), (2, 0, 3)]),
    ('apart', (0, 1, 2, 3, 4, 5), [(0, 1, 2), (3, 4, 5)]),
    ('unused-vertex', (0, 1, 2, 3), [(0, 3, 1)]),
    ('twice', (0, 1, 2), [(0, 1, 2), (0, 1, 2)]),
    ('duplicates', (0, 1, 2, 2, 1, 3), [(0, 1, 2), (3, 4, 5)]),
    ('duplicates-first', (0, 0, 1, 2, 1), [(0, 2, 3), (3, 4, 1)]),
    ('degenerate', (0, 1, 1, 2), [(0, 1, 2), (0, 1, 3), (3, 3, 0)]),
    ('degenerate-ends', (0, 1, 0, 2), [(0, 1, 2), (2, 3, 1), (0, 3, 0)]),
    ('empty', (), []),
    ('no-faces', (0, 1), []),
]


class Env(p_m03.MeshEnv):
    def mesh(self, classes, faces):
        d = self.c.adt('Point3D')['d']
        pts = tuple(agg(d, 0, (num(k), sym('v%dy' % k), sym('v%dz' % k))) for k in classes)
        fr = [u for im, u in self.c.p.methods('Mesh3D', 'From', 'from')]
        ids = tuple(num(i) for f in faces for i in f)
        v = agg('tuple', 0, [agg('array', 0, pts), agg('array', 0, ids)])
        return self.c.val(self.sub(fr[0]), v), pts

    def full(self, u):
        return u, p_m05.fullsub(self.c, u, P=self.pt, V=self.pt, M=self.self, MI=self.self, MO=self.self)


class Open(Exception):
    pass


def const(t, what):
    v = const_val(t)
    if v is None:
        raise TooComplex('%s is not a definite number: %s' % (what, show(t)[:80]))
    return int(v)


def content(E, m):
    """(positions, faces as ids) of a mesh value, through its public accessors"""
    c = E.c
    nv, nf = const(E.nv(m), 'number of vertices'), const(E.nf(m), 'number of faces')
    vs = []
    for i in range(nv):
        r = E.vertex(m, num(i)).ret
        vs.append(someval(r))
    fs = []
    for i in range(nf):
        f = someval(E.ids(m, num(i)).ret)
        fs.append(tuple(const(p_m03.unbox(getk(f, ('f', k))), 'vertex id') for k in range(3)))
    return vs, fs


def coords(E, pt, e):
    """the three coordinates of a point under a valuation"""
    v = e.ev(pt)
    if not isinstance(v, evalt.Agg):
        raise TooComplex('not a point')
    return tuple(v.ch)


def at(seed, pts):
    """positions of the classes under one valuation (an injective, irregular one)"""
    def hook(e, t):
        if t.op == 'sym' and str(t.a[0])[0] == 'v':
            n = str(t.a[0])
            h = int(evalt._h('g01', seed, n)[:6], 16)
            return Fraction(h % 41 - 20, 1 + h % 3)
        return None
    return evalt.Ev(seed, {}, 1, 3, False, 20000, hook)


def rot(t):
    """a face up to the choice of its first corner"""
    i = t.index(min(t))
    return t[i:] + t[:i]


def place(E, vs, seed):
    e = at(seed, vs)
    return [coords(E, v, e) for v in vs]


def sites(fs, pos):
    return sorted(rot(tuple(pos[i] for i in f)) for f in fs)


def mid(a, b):
    return tuple((x + y) / 2 for x, y in zip(a, b))


def txt(x):
    if isinstance(x, (tuple, list)):
        return '(' + ', '.join(txt(y) for y in x) + ')'
    return str(x)


def diff(c, key, uid, what, bad):
    if bad is None:
        c.good(key)
    else:
        c.fail(key, '%s: %s' % (what, bad), uid)


def judge(E, key, uid, what, r, check):
    """evaluate the resulting mesh under several placements of the vertices"""
    c = E.c
    for i, o in enumerate(r.an.oblig):
        if o.ok != T and band(o.pc, bnot(o.ok)) == band(o.pc, T) and o.pc == T:
            c.fail(key + '/panics', '%s: panics: %s' % (what, o.desc), uid)
            return
    if is_ok(r.ret) != T:
        if is_ok(r.ret) == F:
            c.fail(key, '%s: is refused' % what, uid)
        else:
            c.undecided(key, 'success depends on %s' % bshow(is_ok(r.ret))[:100])
        return
    vs, fs = content(E, okval(r.ret))
    for f in fs:
        for i in f:
            if i >= len(vs):
                c.fail(key, '%s: a face uses vertex %d of %d' % (what, i, len(vs)), uid)
                return
    bad = None
    for seed in range(3):
        try:
            bad = check(seed, place(E, vs, seed), fs)
        except evalt.Unsupported as x:
            raise TooComplex('placement not evaluated: %s' % x)
        if bad:
            break
    diff(c, key, uid, what, bad)


def short(xs, n=3):
    return '; '.join(txt(x) for x in xs[:n])


def first_more(a, b):
    """elements of a that b does not have (as multisets)"""
    b = list(b)
    out = []
    for x in a:
        if x in b:
            b.remove(x)
        else:
            out.append(x)
    return out


def cmpfaces(got, want):
    more, less = first_more(got, want), first_more(want, got)
    if less:
        return 'the face with corners %s is missing%s' % (txt(less[0]), ', there is %s instead' % txt(more[0]) if more else '')
    if more:
        return 'there is an additional face with corners %s' % txt(more[0])
    return None


def linear(c, E, uid, name, classes, faces):
    m, pts = E.mesh(classes, faces)
    r = c.call(E.full(uid), m, unroll=14)
    what = 'subdividing the mesh "%s"' % name

    def check(seed, pos, fs):
        p0 = place(E, pts, seed)
        n = len(p0)
        if pos[:n] != p0:
            return 'the vertices of the mesh are not the first ones of the result'
        edges = {}
        want = []
        for a, b, d in faces:
            A, B_, D = p0[a], p0[b], p0[d]
            ab, bd, da = mid(A, B_), mid(B_, D), mid(D, A)
            want += [rot(t) for t in ((A, ab, da), (ab, B_, bd), (da, bd, D), (ab, bd, da))]
            for u, v in ((a, b), (b, d), (d, a)):
                edges[frozenset((u, v))] = 1
        bad = cmpfaces(sites(fs, pos), sorted(want))
        if bad:
            return bad
        if len(pos) != n + len(edges):
            return '%d vertices instead of %d: edges shared by faces must share their new vertex' % (len(pos), n + len(edges))
        # connectivity: the new vertex of an edge is one vertex
        for i, f in enumerate(faces):
            for g in fs[4 * i:4 * i + 4]:
                if len(set(f)) == 3 and len(set(g)) != 3:
                    return 'a face of the result uses a vertex twice'
        corner = {}
        for f in fs:
            for i in f:
                if i >= n:
                    corner.setdefault(pos[i], set()).add(i)
        em = {}
        for e in edges:
            e = sorted(e)
            em.setdefault(mid(p0[e[0]], p0[e[-1]]), 0)
            em[mid(p0[e[0]], p0[e[-1]])] += 1
        for k, s in corner.items():
            if len(s) > em.get(k, 0):
                return 'the middle %s of one edge is several vertices' % txt(k)
        return None
    judge(E, 'linear/' + name, uid, what, r, check)


def heal(c, E, uid, name, classes, faces):
    m, pts = E.mesh(classes, faces)
    r = c.call(E.full(uid), m, unroll=14)

    def check(seed, pos, fs):
        p0 = place(E, pts, seed)
        if len(set(pos)) != len(pos):
            return 'two vertices of the result are at the same position'
        want = [tuple(p0[i] for i in f) for f in faces]
        want = [t for t in want if len(set(t)) == 3]
        bad = cmpfaces(sites(fs, pos), sorted(rot(t) for t in want))
        if bad:
            return bad
        if [rot(tuple(pos[i] for i in f)) for f in fs] != [rot(t) for t in want]:
            return 'the faces are no longer in their order'
        used = set(p0[i] for f in faces for i in f)
        if not set(pos) <= set(p0):
            return 'a vertex is at a position the mesh did not have'
        return None
    judge(E, 'heal/' + name, uid, 'healing the mesh "%s"' % name, r, check)


def tmul(a, b):
    return mul(a, b)


def tsub(a, b):
    return add(a, neg(b))


def cross3(a, b):
    return [tsub(tmul(a[1], b[2]), tmul(a[2], b[1])), tsub(tmul(a[2], b[0]), tmul(a[0], b[2])), tsub(tmul(a[0], b[1]), tmul(a[1], b[0]))]


def normals(c, E, uid, name, classes, faces):
    """the normal of a vertex is the direction of the sum of the normals of the faces around it"""
    m, pts = E.mesh(classes, faces)
    d = c.adt('Point3D')['d']
    pt = lambda ch: agg(d, 0, tuple(ch))
    co = [[getk(q, ('f', k)) for k in range(3)] for q in pts]
    r = c.call(E.full(uid), m, unroll=14)
    what = 'normals of the mesh "%s"' % name
    nn = const(length(r.ret), 'number of normals')
    if nn != len(classes):
        c.fail('normals/' + name, '%s: %d normals for %d vertices' % (what, nn, len(classes)), uid)
        return
    unew = [u for im, u in c.p.methods('Norm3D', 'IsNormalized3D', 'new')][0]
    sub = p_m05.fullsub(c, unew, P=E.pt, Self=c.ty('Norm3D'))
    nz = c.val(c.on('Norm3D', 'IsNormalized3D', 'norm_z'))

    def unit(v):
        q = c.call((unew, sub), pt(v)).ret
        return gam([(is_ok(q), okval(q)), (is_err(q), nz)])
    fn = []
    for a, b_, d_ in faces:
        ab = [tsub(co[b_][k], co[a][k]) for k in range(3)]
        ad = [tsub(co[d_][k], co[a][k]) for k in range(3)]
        q = unit(cross3(ab, ad))
        fn.append([getk(q, ('f', k)) for k in range(3)])
    for i in range(len(classes)):
        s = [num(0)] * 3
        for f, n in zip(faces, fn):
            for v in f:
                if v == i:
                    s = [add(s[k], n[k]) for k in range(3)]
        want = unit(s)
        c.eq('normals/%s/%d' % (name, i), at_(r.ret, i), want, uid, what + ', vertex %d' % i, rounds=60)


def at_(seq, i):
    return sel(seq, num(i))


def pack(c, E, uid, name, classes):
    m, pts = E.mesh(classes, [])
    import models
    it = models.mkit('ref', mk('ref', ('M', agg('array', 0, pts)), ()), num(0), num(len(pts)))
    r = c.call((uid, p_m05.fullsub(c, uid, T=E.pt, I=('adt', 'core::slice::iter::Iter', (('param', "'a"), E.pt)))), it, unroll=14)
    what = 'packing %s' % (list(classes),)
    vs, ids = getk(r.ret, ('f', 0)), getk(r.ret, ('f', 1))
    nv, ni = const(length(vs), 'number of values'), const(length(ids), 'number of indices')
    got = [const(at_(ids, i), 'index') for i in range(ni)]
    vals = [at_(vs, i) for i in range(nv)]
    bad = None
    if ni != len(classes):
        bad = '%d indices for %d values' % (ni, len(classes))
    elif any(i >= nv for i in got):
        bad = 'an index is not one of a value: %s of %d' % (got, nv)
    elif nv != len(set(classes)):
        bad = '%d values kept, %d are different' % (nv, len(set(classes)))
    else:
        for seed in range(3):
            p0, pv = place(E, pts, seed), place(E, vals, seed)
            if [pv[i] for i in got] != p0:
                bad = bad or 'the indices do not lead back to the original sequence'
    diff(c, 'pack/' + '-'.join(map(str, classes)), uid, what, bad)


def partitions(n):
    out = [()]
    for i in range(n):
        out = [q + (k,) for q in out for k in range(max(q + (-1,)) + 2)]
    return out


def run(c):
    p = c.p
    E = Env(c)
    n = 0
    ul, uh, un, up = c.f('linear'), c.f('heal_mesh'), c.f('normals_of_mesh'), c.f('pack_dupes_indexed')
    for name, cl, fs in MESHES:
        if len(set(cl)) == len(cl):
            c.guard('linear/' + name, linear, c, E, ul, name, cl, fs)
            n += 1
        c.guard('heal/' + name, heal, c, E, uh, name, cl, fs)
        n += 1
    # every way two faces over four vertices can be numbered
    for a in itertools.permutations(range(3)):
        for b in itertools.permutations(range(4), 3):
            if sorted(a) != sorted(b) or a == (0, 1, 2):
                nm = 'pair-%d%d%d-%d%d%d' % (a + b)
                c.guard('linear/' + nm, linear, c, E, ul, nm, (0, 1, 2, 3), [a, b])
                n += 1
    # every way up to four vertices can coincide
    for cl in partitions(4):
        for b in ((1, 2, 3), (3, 0, 1), (0, 3, 2)):
            nm = 'classes-%d%d%d%d-%d%d%d' % (cl + b)
            c.guard('heal/' + nm, heal, c, E, uh, nm, cl, [(0, 1, 2), b])
            n += 1
    for name, cl, fs in MESHES:
        if len(cl) <= 4 and name not in ('degenerate', 'degenerate-ends'):
            c.guard('normals/' + name, normals, c, E, un, name, cl, fs)
    for cl in sorted(set(cl for name, cl, fs in MESHES) | {(0, 1, 0, 1), (2, 2, 2), (0, 1, 2, 1, 0)} | set(partitions(4))):
        c.guard('pack/' + '-'.join(map(str, cl)), pack, c, E, up, name, cl)
    c.floor('meshes rebuilt', n, 150)
    return {'rule': 'the mesh algorithms are analysed on meshes whose faces are fixed and whose positions are symbols (every way faces can meet, share, repeat or '
                    'degenerate); the resulting faces, read through the public accessors of the value-flow normal form, equal the required ones under '
                    'independent placements; vertex normals equal the direction of the sum of the surrounding face normals',
            'assumptions': ['meshes of up to four faces', 'different vertices differ in x']}

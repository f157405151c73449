"""M05: face and half-edge navigation is self-consistent."""
import random
from base import *

RES, OPTN = engine.RES, engine.OPT


def vec_of_usize(c):
    for im, n in c.types_with('IsIndexContainer'):
        if n == 'Vec':
            return c.p.rt(im['self'])
    raise Missing('index container Vec<usize>')


class Law:
    """an arbitrary mesh: its answers, under a valuation, follow the contract of IsMesh"""

    def __init__(self, c, maxfaces=3):
        self.c = c
        self.maxf = maxfaces
        self.d = {k: c.adt(k)['d'] for k in ('FId', 'VId', 'EId', 'Face3')}
        self.table = {}

    def mesh(self, e):
        """(number of vertices, faces)"""
        k = (e.seed, e.mode)
        r = self.table.get(k)
        if r is None:
            rnd = random.Random('%s' % (k,))
            nf = rnd.choice(list(range(self.maxf + 1)) + [self.maxf, self.maxf])
            nv = rnd.choice((3, 3, 4, 4, 5))
            fs, used = [], set()
            for _ in range(40):
                if len(fs) == nf:
                    break
                f = rnd.sample(range(nv), 3)
                es = {(f[i], f[(i + 1) % 3]) for i in range(3)}
                if not (es & used):             # manifold: every directed edge at most once
                    used |= es
                    fs.append(f)
            r = self.table[k] = (nv, fs)
        return r

    def id(self, kind, n):
        return evalt.Agg(self.d[kind], 0, [Fraction(n)])

    def some(self, x):
        return evalt.Agg(OPTN, 1, [x])

    def none(self):
        return evalt.Agg(OPTN, 0, [])

    def num(self, e, x):
        v = e.ev(x) if isinstance(x, Term) else x
        while isinstance(v, evalt.Agg) and len(v.ch) == 1:
            v = v.ch[0]
        return int(e.number(v))

    def __call__(self, e, t):
        if t.op == 'call' and isinstance(t.a[1], tuple):
            n, a = str(t.a[0]), t.a[1]
            if n == 'IsMesh::num_faces':
                return Fraction(len(self.mesh(e)[1]))
            if n == 'IsMesh::num_vertices':
                return Fraction(self.mesh(e)[0])
            if n == 'IsMesh::face_vertex_ids':
                i, fs = self.num(e, a[1]), self.mesh(e)[1]
                if i >= len(fs):
                    return self.none()
                return self.some(evalt.Agg(self.d['Face3'], 0, [self.id('VId', v) for v in fs[i]]))
            r = self.spec(e, n, a)
            if r is not None:
                return r
        if t.op == 'sym' and str(t.a[0]).startswith('n_'):
            x = e.over.get(('nat', t))
            return Fraction(int(evalt._h('nat', e.seed, e.mode, t.a[0])[:6], 16) % 11 if x is None else x)
        return None

    # what the answers have to be
    def spec(self, e, n, a):
        if not n.startswith('SPEC-'):
            return None
        nv, fs = self.mesh(e)
        tails = [v for f in fs for v in f]
        heads = [f[(i + 1) % 3] for f in fs for i in range(3)]
        x = self.num(e, a[0])
        opt = lambda ok, kind, v: self.some(self.id(kind, v())) if ok else self.none()
        ok = x < len(tails)
        if n == 'SPEC-tail':
            return opt(ok, 'VId', lambda: tails[x])
        if n == 'SPEC-head':
            return opt(ok, 'VId', lambda: heads[x])
        if n == 'SPEC-face':
            return opt(ok, 'FId', lambda: x // 3)
        if n == 'SPEC-next':
            return opt(ok, 'EId', lambda: x // 3 * 3 + (x % 3 + 1) % 3)
        if n == 'SPEC-prev':
            return opt(ok, 'EId', lambda: x // 3 * 3 + (x % 3 + 2) % 3)
        if n == 'SPEC-twin':
            tw = [y for y in range(len(tails)) if ok and tails[y] == heads[x] and heads[y] == tails[x]]
            return opt(bool(tw), 'EId', lambda: tw[0])
        if n == 'SPEC-edges-of-face':
            if x >= len(fs):
                return self.none()
            return self.some(evalt.Agg('tuple', 0, [self.id('EId', 3 * x + j) for j in range(3)]))
        if n == 'SPEC-num-edges':
            return Fraction(len(tails))
        if n in ('SPEC-known-vertex', 'SPEC-known-edge', 'SPEC-known-face'):
            return x < {'v': nv, 'e': len(tails), 'f': len(fs)}[n[11]]
        m = {'SPEC-originating': lambda: [('EId', y) for y in range(len(tails)) if tails[y] == x],
             'SPEC-ending': lambda: [('EId', y) for y in range(len(tails)) if heads[y] == x],
             'SPEC-all': lambda: [('EId', y) for y in range(len(tails)) if x in (tails[y], heads[y])],
             'SPEC-faces': lambda: [('FId', y) for y in range(len(fs)) if x in fs[y]]}.get(n)
        if n in ('SPEC-edge-neighbours', 'SPEC-vertex-neighbours'):
            before, got = e.toseq(e.ev(a[1])).xs, e.toseq(e.ev(a[2])).xs
            if x >= len(fs):
                return all(e.eq(p, q) for p, q in zip(before, got)) and len(before) == len(got)
            if n == 'SPEC-edge-neighbours':
                want = sorted(y // 3 for i in range(3 * x, 3 * x + 3) for y in range(len(tails)) if tails[y] == heads[i] and heads[y] == tails[i])
                return len(got) >= len(before) and all(e.eq(p, q) for p, q in zip(before, got)) and sorted(self.num(e, y) for y in got[len(before):]) == want
            near = {y for y in range(len(fs)) if set(fs[y]) & set(fs[x])}
            ks = [evalt.key(y) for y in got]
            if len(set(ks)) != len(ks):
                return False
            old = {evalt.key(y) for y in before}
            ids = lambda s: {evalt.key(self.id('FId', y)) for y in s}
            # whether a face neighbours itself is left open
            return set(ks) | ids({x}) == old | ids(near) and old <= set(ks)
        if m is not None:
            # SPEC(id, before, answered): the answer is the buffer before, followed by these, each once, in any order
            before, got = e.toseq(e.ev(a[1])).xs, e.toseq(e.ev(a[2])).xs
            want = sorted(y for _, y in m())
            if len(got) < len(before) or not all(e.eq(p, q) for p, q in zip(before, got)):
                return False
            return sorted(self.num(e, y) for y in got[len(before):]) == want
        return None


def known(kind, x):
    t = mk('call', 'SPEC-known-' + kind, (x,))
    t.meta = 'bool'
    return atom(t)


def spec(name, *a):
    return mk('call', 'SPEC-' + name, tuple(a))


def specb(name, *a):
    t = spec(name, *a)
    t.meta = 'bool'
    return atom(t)


def fullsub(c, u, **kw):
    """type arguments by the name of the parameter"""
    return tuple(kw[g] if g in kw else (('param', g) if g and not g.startswith("'") else None) for g in c.p.bodies[u]['g'])


def run(c):
    p = c.p
    law = Law(c, 3)
    ic = vec_of_usize(c)
    kw = dict(hook=law, rounds=160)
    cid = lambda kind, x: agg(law.d[kind], 0, (x,))
    e0, v0, f0 = sym('n_e'), sym('n_v'), sym('n_f')
    mesh = sym('mesh')
    unew = c.m('HalfEdge', '', 'new')
    built = c.call((unew, fullsub(c, unew, IC=ic)), mesh)
    he = built.ret
    unews = c.m('SearchableMesh', '', 'new')
    smesh = c.call((unews, fullsub(c, unews, IC=ic)), mesh).ret

    def arg(t):
        """(argument, kind) for a parameter type"""
        while t[0] == 'ref':
            t = t[2]
        n = t[1].split('::')[-1] if t[0] == 'adt' else ''
        return {'EId': (cid('EId', e0), 'EId'), 'VId': (cid('VId', v0), 'VId'), 'FId': (cid('FId', f0), 'FId'), 'Vec': (None, 'Vec')}.get(n)

    pre, cache = sym('before'), sym('cache')
    #            required answer                                    needs
    one = {'tail': 'tail', 'edge_tail': 'tail', 'head': 'head', 'edge_head': 'head', 'face': 'face', 'edge_face': 'face', 'next': 'next', 'edge_next': 'next',
           'prev': 'prev', 'edge_prev': 'prev', 'twin': 'twin', 'edge_twin': 'twin', 'edges_of_face': 'edges-of-face'}
    many = {'edges_originating': 'originating', 'edges_originating_from_vertex': 'originating', 'edges_ending': 'ending', 'edges_ending_at_vertex': 'ending',
            'edges_all': 'all', 'edges_of_vertex': 'all', 'faces': 'faces'}
    ensure = {'ensure_edge_id': 'edge', 'ensure_vertex_id': 'vertex', 'ensure_face_id': 'face'}
    n = {'one': 0, 'many': 0, 'ensure': 0}

    def method(ty, obj, u):
        b = p.bodies[u]
        m = b['name']
        key = '%s.%s' % (ty, m)
        sub = fullsub(c, u, IC=ic)
        if m in one or m in ensure:
            k = {'EId': e0, 'VId': v0, 'FId': f0}
            a = arg(p.rt(b['locals'][2][0], sub))
            r = c.call((u, sub), obj, a[0])
            x = k[a[1]]
            if m in ensure:
                n['ensure'] += 1
                c.eq(key, B(is_ok(r.ret)), B(known(ensure[m], x)), u, 'accepted exactly when it exists', **kw)
                return
            n['one'] += 1
            c.eq(key, r.ret, spec(one[m], x), u, 'the answer for every id', **kw)
        elif m in many:
            n['many'] += 1
            vals = [obj, cid('VId', v0)] + ([cache, pre] if b['argc'] == 4 else [pre])
            r = c.call((u, sub), *vals)
            ok = is_ok(r.ret)
            c.eq(key + '/accepted', B(ok), B(known('vertex', v0)), u, 'accepted exactly when the vertex exists', **kw)
            c.holds(key, specb(many[m], v0, pre, r.post(b['argc'] - 1)), u, 'every edge or face concerned is appended once', pc=ok, **kw)
            c.eq(key + '/refused', r.post(b['argc'] - 1), pre, u, 'nothing is appended when the vertex does not exist', pc=bnot(ok), **kw)
        for i, o in enumerate(r.an.oblig if m in one or m in many else ()):
            if o.kind != 'overflow':
                c.holds('%s/no-panic/%d' % (key, i), bor(bnot(o.pc), o.ok), u, 'never panics: %s' % o.desc, **kw)

    for ty, obj in (('HalfEdge', he), ('SearchableMesh', smesh)):
        for im in p.impls:
            if p.self_name(im) != ty:
                continue
            for m, u in im['m']:
                if m in one or m in many or m in ensure:
                    c.guard('%s.%s' % (ty, m), method, ty, obj, u)
    c.floor('navigation answers', n['one'], 12)
    c.floor('collecting queries', n['many'], 7)
    c.floor('id checks', n['ensure'], 3)
    for i, o in enumerate(built.an.oblig):
        if o.kind == 'bounds':
            c.holds('new/no-panic/%d' % i, bor(bnot(o.pc), o.ok), unew, 'building never panics: %s' % o.desc, **kw)

    # operations every searchable mesh has through the trait
    st = c.ty('SearchableMesh', ('param', 'M'), ('param', 'T'), ic)

    def provided(m, kind, name):
        u, _ = c.on('SearchableMesh', 'IsSearchableMesh', m)
        b = p.bodies[u]
        x = {'VId': v0, 'FId': f0}[kind]
        r = c.call((u, fullsub(c, u, Self=st, V=('param', 'T'), TU=c.ty('Face3'), IC=ic, M=('param', 'M'), T=('param', 'T'))), smesh, cid(kind, x), *([cache, pre] if b['argc'] == 4 else [pre]))
        ok = is_ok(r.ret)
        key = 'SearchableMesh.' + m
        c.eq(key + '/accepted', B(ok), B(known({'VId': 'vertex', 'FId': 'face'}[kind], x)), u, 'accepted exactly when the id exists', **kw)
        c.holds(key, specb(name, x, pre, r.post(b['argc'] - 1)), u, 'every face concerned is reported once', pc=ok, **kw)
        c.eq(key + '/refused', r.post(b['argc'] - 1), pre, u, 'nothing is appended when the id does not exist', pc=bnot(ok), **kw)
    for m, kind, name in (('faces_of_vertex', 'VId', 'faces'), ('face_edge_neighbours', 'FId', 'edge-neighbours'), ('face_vertex_neighbours', 'FId', 'vertex-neighbours')):
        c.guard('SearchableMesh.' + m, provided, m, kind, name)

    def counts():
        for m, want in (('num_edges', spec('num-edges', num(0))), ('num_faces', mk('call', 'IsMesh::num_faces', (mesh,))), ('num_vertices', mk('call', 'IsMesh::num_vertices', (mesh,)))):
            for im, u in [(im, u) for im in p.impls if p.self_name(im) == 'SearchableMesh' for mm, u in im['m'] if mm == m]:
                r = c.call((u, fullsub(c, u, IC=ic)), smesh)
                c.eq('SearchableMesh.' + m, r.ret, want, u, 'the number', **kw)
        for m in ('face_vertex_ids', 'vertex', 'face_vertices'):
            for im, u in [(im, u) for im in p.impls if p.self_name(im) == 'SearchableMesh' for mm, u in im['m'] if mm == m]:
                a = agg(law.d['VId' if m == 'vertex' else 'FId'], 0, (sym('n_q'),))
                r = c.call((u, fullsub(c, u, IC=ic)), smesh, a)
                c.eq('SearchableMesh.' + m, r.ret, mk('call', 'IsMesh::' + m, (mesh, a)), u, 'passed through to the mesh', **kw)
    c.guard('counts', counts)
    return {'rule': 'the half edge structure HalfEdge::new and SearchableMesh::new build (loop closed forms) of an arbitrary mesh, and every navigation answer on it, against the '
                    'definition over the face list: same numbering for faces and edges, next/prev cyclic in the face, head is the tail of next, twin connects the same vertices the other '
                    'way round, and the queries around a vertex report each edge or face once',
            'assumptions': ['manifold meshes of up to 3 faces and 5 vertices (documented requirement: every directed edge occurs once), isolated vertices included',
                            'the mesh is not changed after the structure was built (documented)', 'index container Vec<usize> (others: M04)']}

"""M01: meshes only ever reference vertices they contain."""
from base import *
import p_m03, p_m05
from p_m03 import MeshEnv, lt, eqn, idnum, idval

DERIVED = ('Debug', 'Hash', 'PartialEq', 'Eq', 'PartialOrd', 'Ord')


class Cloud(MeshEnv):
    """Mesh3D over PointCloud3D<Point3D> and Vec<usize>: the container with every whole-object operation"""

    def __init__(self, c):
        self.c = c
        self.pt = c.ty('Point3D')
        self.ic = p_m05.vec_of_usize(c)
        self.id = c.ty('PointCloud3D', self.pt)
        self.self = c.ty('Mesh3D', self.pt, self.id, self.ic)
        self.pc, self.topo = sym('positions'), sym('topology')
        self.law = Law(c, self.pc, self.topo)
        self.kw = dict(hook=self.law, rounds=500, maxlen=(0, 3, 6))
        fr = [u for im, u in c.p.methods('Mesh3D', 'From', 'from')]
        if len(fr) != 1:
            raise Missing('Mesh3D from its parts')
        self.m = c.val(self.sub(fr[0]), agg('tuple', 0, [self.pc, self.topo]))


class Law(p_m03.MeshLaw):
    def __call__(self, e, t):
        if t is self.pc:
            a = self.c.adt('PointCloud3D')
            pt = self.c.adt('Point3D')
            xs = [evalt.Agg(pt['d'], 0, [evalt.Tok(evalt._h('coord', e.seed, k, ax)) for ax in 'xyz']) for k in range(self.mesh(e)[0])]
            return evalt.Agg(a['d'], 0, [evalt.Seq(xs)] + [evalt.Tok('marker')] * (len(a['v'][0][1]) - 1))
        return p_m03.MeshLaw.__call__(self, e, t)


def run(c):
    p = c.p
    E_ = Cloud(c)
    n = [0]
    for im in p.impls:
        if p.self_name(im) != 'Mesh3D':
            continue
        tr = (im.get('tr') or '').split('::')[-1]
        if tr in DERIVED or tr == 'Into':
            continue
        ms = list(im['m'])
        if im.get('tr') in p.traits:
            have = {m for m, u in ms}
            ms += [(m, u) for m, u, dflt in p.traits[im['tr']]['m'] if dflt and m not in have]
        for m, u in ms:
            b = p.bodies.get(u)
            if b is None or (not tr and not b.get('vis', True)):
                continue
            t = p.rt(b['locals'][0][0])
            s = p.rt(b['locals'][1][0]) if b['argc'] else None
            mutates = s is not None and s[0] == 'ref' and s[1]
            builds = not mentions_parts(p, b) and returns_self(p, t)
            if t[0] == 'ref' and t[1]:
                c.fail('Mesh3D.%s/loan' % m, 'hands out a mutable loan into the mesh: indices can be changed behind its back', u)
                continue
            if not mutates and not builds:
                continue
            n[0] += 1
            c.guard('Mesh3D.' + m, operation, c, E_, m, u, b, mutates)
    c.floor('operations that change or build a mesh', n[0], 11)
    c.guard('parts', parts, c)
    c.guard('handed out', handed, c)
    return {'rule': 'induction over histories: every operation of Mesh3D that changes or builds a mesh (enumerated from its impl blocks), applied to a symbolic mesh whose faces only reference '
                    'vertices it has, yields such a mesh; ids handed out exist in the result; only these functions can build or change one (private fields, constructions enumerated in MIR)',
            'assumptions': ['building a mesh from raw parts (From<(points, indices)>) takes the caller\'s word for the indices',
                            'position container PointCloud3D, index container Vec<usize> (others: M03, M04)',
                            'induction step over meshes of up to 5 vertices and 3 faces']}


def returns_self(p, t):
    if t[0] == 'param' and t[1] == 'Self':
        return True
    if t[0] != 'adt':
        return False
    if t[1].split('::')[-1] == 'Mesh3D':
        return True
    return any(isinstance(x, tuple) and returns_self(p, x) for x in t[2])


def mentions_parts(p, b):
    """raw parts are given"""
    for l in b['locals'][1:b['argc'] + 1]:
        t = p.rt(l[0])
        while t[0] == 'ref':
            t = t[2]
        if t[0] == 'tuple' or (t[0] == 'param' and t[1] in ('ID', 'IC')):
            return True
    return False


def argument(c, E_, k, t, law):
    while t[0] == 'ref':
        t = t[2]
    nm = t[1].split('::')[-1] if t[0] == 'adt' else ''
    if nm in ('VId', 'FId', 'EId'):
        return E_.wrap(nm, sym('n_id%d' % k))
    if t == ('prim', 'usize'):
        return sym('n_arg%d' % k)
    if nm == 'Point3D':
        return agg(c.adt('Point3D')['d'], 0, tuple(sym('p%d%s' % (k, x)) for x in 'xyz'))
    if t[0] == 'adt' and t == E_.self:
        return E_.m
    return None


def wellformed(c, E_, key, q, u, pc=T, what=''):
    """every face of q that exists is made of vertices of q that exist"""
    f = sym('n_face')
    nf, nv = E_.nf(q), E_.nv(q)
    r = E_.ids(q, f)
    yes = is_some(r.ret)
    face = someval(r.ret)
    c.eq(key + '/faces', B(yes), B(lt(f, nf)), u, what + 'the faces counted are those that can be asked for', pc=pc, **E_.kw)
    for k, (fn, t, pub) in enumerate(c.adt('Mesh3D')['v'][0][1]):
        if c.p.rt(t) == ('param', 'IC'):
            n = c.val(c.on('Vec', 'IsIndexContainer', 'len')[0], getk(q, ('f', k)))
            c.eq(key + '/whole faces', engine.irem(n, num(3)), num(0), u, what + 'three indices are stored for every face', pc=pc, **E_.kw)
    for x in ('a', 'b', 'c'):
        c.holds('%s/vertex %s' % (key, x), bor(bnot(yes), lt(idnum(c.get(face, 'Face3', x)), nv)), u, what + 'the vertex a face references exists', pc=pc, **E_.kw)


def operation(c, E_, m, u, b, mutates):
    p = c.p
    uid = E_.sub(u)
    sub = uid[1]
    vals = []
    for k in range(b['argc']):
        t = p.rt(b['locals'][k + 1][0], sub)
        vals.append(E_.m if k == 0 and b['argc'] and is_self(p, b, sub, E_) else argument(c, E_, k, t, E_.law))
    r = c.call(uid, *vals)
    key = 'Mesh3D.' + m
    q = E_.m
    if mutates:
        q = r.post(0)
        wellformed(c, E_, key, q, u, what='afterwards ')
    rt = p.rt(b['locals'][0][0], sub)
    if rt == E_.self:
        wellformed(c, E_, key + '/result', r.ret, u, what='in the result ')
    # ids handed out
    okpc, v, vt = T, r.ret, rt
    if rt[0] == 'adt' and rt[1] in (engine.RES, engine.OPT):
        okpc = is_ok(r.ret) if rt[1] == engine.RES else is_some(r.ret)
        v, vt = (okval if rt[1] == engine.RES else someval)(r.ret), rt[2][0]
    nm = vt[1].split('::')[-1] if vt[0] == 'adt' else ''
    if nm in ('VId', 'FId'):
        c.holds(key + '/id', lt(idnum(v), E_.nv(q) if nm == 'VId' else E_.nf(q)), u, 'the id handed out exists', pc=okpc, **E_.kw)
        old = E_.nv(E_.m) if nm == 'VId' else E_.nf(E_.m)
        c.eq(key + '/id is the new one', idnum(v), old, u, 'the id handed out is that of the new element', pc=okpc, **E_.kw)
        added(c, E_, key, m, q, v, vals, u, okpc, nm)
    if mutates:
        # nothing that was there goes away or is renumbered
        f = sym('n_face')
        c.eq(key + '/faces kept', E_.ids(q, f).ret, E_.ids(E_.m, f).ret, u, 'the faces that were there reference the same vertices', pc=lt(f, E_.nf(E_.m)), **E_.kw)
        c.holds(key + '/vertices kept', bnot(lt(E_.nv(q), E_.nv(E_.m))), u, 'no vertex goes away', **E_.kw)


def added(c, E_, key, m, q, v, vals, u, okpc, nm):
    if nm == 'VId' and len(vals) == 2 and vals[1] is not None:
        c.eq(key + '/position', someval(E_.vertex(q, idnum(v)).ret), vals[1], u, 'the new vertex is the one given', pc=okpc, **E_.kw)
    elif nm == 'FId' and len(vals) == 4 and all(x is not None for x in vals):
        face = someval(E_.ids(q, idnum(v)).ret)
        for k, x in enumerate(('a', 'b', 'c')):
            w = idnum(c.get(face, 'Face3', x))
            given = vals[k + 1]
            if m == 'add_face':
                c.eq('%s/corner %s' % (key, x), someval(E_.vertex(q, w).ret), given, u, 'the new face joins the positions given, in order', pc=okpc, **E_.kw)
            else:
                c.eq('%s/corner %s' % (key, x), w, idnum(given), u, 'the new face joins the vertices given, in order', pc=okpc, **E_.kw)


def is_self(p, b, sub, E_):
    t = p.rt(b['locals'][1][0], sub)
    while t[0] == 'ref':
        t = t[2]
    return t == E_.self


def parts(c):
    """where a Mesh3D is put together or taken apart"""
    p = c.p
    d = c.adt('Mesh3D')['d']
    file = None
    n = 0
    for x in c.adt('Mesh3D')['v'][0][1]:
        if x[2] and not x[0].startswith('_'):
            c.fail('Mesh3D/field ' + x[0], 'the field is public: indices can be changed without any check', None)
    for u, b in sorted(p.bodies.items()):
        for bl in b['blocks']:
            if not bl:
                continue
            for s in bl['s']:
                if s[0] == '=' and s[2][0] == 'agg' and s[2][1][0] == 'adt' and s[2][1][1] == d:
                    n += 1
                    im = p.impl_by_id.get(owner(p, b).get('impl'))
                    if im is None or p.self_name(im) != 'Mesh3D':
                        c.fail('construction/' + p.label(u), 'puts a mesh together from parts without a check', u)
                    else:
                        c.good('construction/' + p.label(u))
    c.floor('constructions of a mesh', n, 1)
    # io code only ever sees meshes through the checked operations
    k = 0
    for u, b in sorted(p.bodies.items()):
        if '/io/' not in b['sp'][0]:
            continue
        k += 1
        if any(t[0] == 'adt' and t[1] == d for t in (p.rt(l[0]) for l in b['locals'])):
            c.undecided('io/' + p.label(u), 'handles Mesh3D itself')
    c.floor('io functions', k, 100)


def owner(p, b):
    while b['kind'] == 'closure' and b.get('parent') in p.bodies:
        b = p.bodies[b['parent']]
    return b


def handed(c):
    """ids handed out by the half edge structures exist"""
    p = c.p
    base = p_m05.Law(c, 3)

    def law(e, t):
        if t.op == 'call' and t.a[0] == 'ALL-KNOWN':
            before, got = e.toseq(e.ev(t.a[1][1])).xs, e.toseq(e.ev(t.a[1][2])).xs
            nv, fs = base.mesh(e)
            lim = {'VId': nv, 'EId': 3 * len(fs), 'FId': len(fs)}[t.a[1][0].a[0]]
            old = {evalt.key(x) for x in before}
            return all(evalt.key(y) in old or base.num(e, y) < lim for y in got)
        return base(e, t)
    ic = p_m05.vec_of_usize(c)
    kw = dict(hook=law, rounds=160)
    syms = {'EId': sym('n_e'), 'VId': sym('n_v'), 'FId': sym('n_f')}
    short = {'EId': 'edge', 'VId': 'vertex', 'FId': 'face'}
    st = c.ty('SearchableMesh', ('param', 'M'), ('param', 'T'), ic)
    n = 0

    def ids_in(t, v, out):
        nm = t[1].split('::')[-1] if t[0] == 'adt' else ''
        if nm in syms:
            out.append((nm, idnum(v)))
        elif t[0] == 'tuple':
            for k, x in enumerate(t[1]):
                ids_in(x, getk(v, ('f', k)), out)

    def method(ty, obj, u, b):
        sub = p_m05.fullsub(c, u, Self=st, V=('param', 'T'), TU=c.ty('Face3'), IC=ic, M=('param', 'M'), T=('param', 'T'))
        vals, bufs = [obj], []
        for k in range(1, b['argc']):
            t = p.rt(b['locals'][k + 1][0], sub)
            isref = t[0] == 'ref' and t[1]
            while t[0] == 'ref':
                t = t[2]
            nm = t[1].split('::')[-1] if t[0] == 'adt' else ''
            if nm in syms:
                vals.append(agg(c.adt(nm)['d'], 0, (syms[nm],)))
            else:
                v = sym('buffer%d' % k)
                vals.append(v)
                el = t[2][0] if nm == 'Vec' else None
                if isref and el and el[0] == 'adt' and el[1].split('::')[-1] in syms:
                    bufs.append((k, el[1].split('::')[-1], v))
        r = c.call((u, sub), *vals)
        rt = p.rt(b['locals'][0][0], sub)
        key = '%s.%s' % (ty, b['name'])
        out = []
        if rt[1] == engine.OPT:
            ids_in(rt[2][0], someval(r.ret), out)
            for k, (nm, x) in enumerate(out):
                c.holds('%s/id %d' % (key, k), p_m05.known(short[nm], x), u, 'the id handed out exists', pc=is_some(r.ret), **kw)
        for k, nm, v in bufs[-1:]:
            t = mk('call', 'ALL-KNOWN', (sym(nm), v, r.post(k)))
            t.meta = 'bool'
            c.holds('%s/ids' % key, atom(t), u, 'the ids handed out exist', **kw)
    for ty in ('HalfEdge', 'SearchableMesh'):
        unew = c.m(ty, '', 'new')
        obj = c.call((unew, p_m05.fullsub(c, unew, IC=ic)), sym('mesh')).ret
        for im in p.impls:
            if p.self_name(im) != ty or (im.get('tr') or '').split('::')[-1] in ('IsMesh', 'IsVertexEditableMesh', 'IsMesh3D'):
                continue
            ms = list(im['m'])
            if (im.get('tr') or '').split('::')[-1] == 'IsSearchableMesh':
                have = {m for m, u in ms}
                ms += [(m, u) for m, u, dflt in p.traits[im['tr']]['m'] if dflt and m not in have]
            for m, u in ms:
                b = p.bodies.get(u)
                if b is None or b['argc'] < 2 or (not im.get('tr') and not b.get('vis', True)):
                    continue
                rt = p.rt(b['locals'][0][0])
                if rt[0] != 'adt' or rt[1] not in (engine.RES, engine.OPT):
                    continue
                n += 1
                c.guard('%s.%s' % (ty, m), method, ty, obj, u, b)
    c.floor('operations handing out ids', n, 18)

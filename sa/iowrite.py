"""What the save functions emit for abstract meshes and point collections, read back by an independent
reader which honours the emitted header."""
import struct

from iocheck import *

WRITERS = {
    'save_ply_ascii': ('writer', 'mesh'), 'save_ply_ascii_colored': ('writer', 'mesh', 'colors'),
    'save_ply_binary': ('writer', 'mesh', 'precision'), 'save_ply_binary_colored': ('writer', 'mesh', 'precision', 'colors'),
    'save_stl_ascii': ('writer', 'mesh'), 'save_xyz': ('writer', 'points', 'dc', 'dp'), 'save_xy': ('writer', 'points', 'dc', 'dp'),
}


class WCase:
    def __init__(self, fn, name, verts, faces=(), precision=None, colors=None, dc=' ', dp='\n', dim=3):
        self.loader = self.fn = fn
        self.name, self.verts, self.faces, self.precision, self.colors, self.dc, self.dp, self.dim = name, verts, faces, precision, colors, dc, dp, dim


def wcases():
    g = Gen(11)
    fine = Gen(12, True)
    shapes = [('empty', [], []), ('points only', g.pts(3), []), ('one face', g.pts(3), [(0, 1, 2)]),
              ('two faces', g.pts(4), [(0, 2, 1), (3, 1, 2)]), ('repeated faces', g.pts(5), [(4, 0, 2), (4, 0, 2), (1, 3, 0)]),
              ('many', g.pts(12), [(11, 10, 0), (1, 2, 3), (9, 5, 7), (0, 6, 4)]),
              ('many faces on few vertices', g.pts(3), [(i % 3, (i + 1) % 3, (i + 2) % 3) for i in range(23)]),
              ('many vertices, one face', g.pts(26), [(25, 0, 13)]),
              ('fine numbers', fine.pts(4), [(3, 0, 1), (2, 1, 0)])]
    for nm, vs, fs in shapes:
        cols = [(7 * i % 256, (200 + 13 * i) % 256, (100 + 31 * i) % 256) for i in range(1, len(vs) + 1)]
        yield WCase('save_ply_ascii', nm, vs, fs)
        yield WCase('save_ply_ascii_colored', nm, vs, fs, colors=cols)
        for p in ('P32', 'P64'):
            if p == 'P64' or nm != 'fine numbers':
                yield WCase('save_ply_binary', '%s, %s' % (nm, p), vs, fs, precision=p)
                yield WCase('save_ply_binary_colored', '%s, %s' % (nm, p), vs, fs, precision=p, colors=cols)
        if vs:
            cols = cols[:-1]
            yield WCase('save_ply_ascii_colored', nm + ', colour missing', vs, fs, colors=cols)
            yield WCase('save_ply_binary_colored', nm + ', colour missing', vs, fs, precision='P32', colors=cols)
        yield WCase('save_stl_ascii', nm, vs, fs)
        for dc, dp in ((' ', '\n'), (';', '\n'), (',', '|')):
            yield WCase('save_xyz', '%s, %r %r' % (nm, dc, dp), vs, dc=dc, dp=dp)
            yield WCase('save_xy', '%s, %r %r' % (nm, dc, dp), [v[:2] for v in vs], dc=dc, dp=dp, dim=2)


class Out:
    pass


class Malformed(Exception):
    pass


def number(w):
    v = iotheory.parse(w)
    if v is None:
        raise Malformed('%r is not a number' % w)
    return v


def read_ply(d):
    """elements of a .ply file as its header describes them: {element: [{property: value}]}"""
    i = d.find(b'end_header\n')
    if i < 0:
        raise Malformed('the header does not end')
    h = d[:i].decode('latin1').split('\n')[:-1]
    body = d[i + 11:]
    if not h or h[0] != 'ply':
        raise Malformed('no magic line')
    fm, els = None, []
    for l in h[1:]:
        w = l.split()
        if not w or w[0] in ('comment', 'obj_info'):
            continue
        if w[0] == 'format' and fm is None and len(w) == 3:
            fm = w[1]
        elif w[0] == 'element' and len(w) == 3 and w[2].isdigit():
            els.append((w[1], int(w[2]), []))
        elif w[0] == 'property' and els and (len(w) == 3 and w[1] in TYPES or len(w) == 5 and w[1] == 'list' and w[2] in TYPES and w[3] in TYPES):
            els[-1][2].append(w[1:])
        else:
            raise Malformed('header line %r' % l)
    if fm not in ('ascii', 'binary_little_endian', 'binary_big_endian'):
        raise Malformed('format %r' % fm)
    out = {}
    if fm == 'ascii':
        ls = body.split(b'\n')
        if ls[-1] != b'':
            raise Malformed('the last line does not end')
        ls = ls[:-1]
        k = 0
        for nm, n, ps in els:
            rs = []
            for _ in range(n):
                if k >= len(ls):
                    raise Malformed('%d %s declared, %d emitted' % (n, nm, len(rs)))
                w = ls[k].split()
                k += 1
                r = {}
                for p in ps:
                    try:
                        if p[0] == 'list':
                            m = int(number(w.pop(0)))
                            r[p[3]] = [number(w.pop(0)) for _ in range(m)]
                        else:
                            r[p[1]] = number(w.pop(0))
                    except IndexError:
                        raise Malformed('%s %d lacks values' % (nm, len(rs)))
                if w:
                    raise Malformed('%s %d has %d values more than declared' % (nm, len(rs), len(w)))
                rs.append(r)
            out[nm] = rs
        if k != len(ls):
            raise Malformed('%d lines more than declared' % (len(ls) - k))
        return out
    e = '<' if 'little' in fm else '>'
    k = 0

    def take(t):
        nonlocal k
        c = TYPES[t]
        s = struct.calcsize(e + c)
        if k + s > len(body):
            raise Malformed('fewer bytes than declared')
        v = struct.unpack_from(e + c, body, k)[0]
        k += s
        if v != v or v in (float('inf'), float('-inf')):
            raise Malformed('value %r' % v)
        return Fr(v)
    for nm, n, ps in els:
        rs = []
        for _ in range(n):
            r = {}
            for p in ps:
                if p[0] == 'list':
                    m = take(p[1])
                    if m > 64:
                        raise Malformed('%s %d: list of %d' % (nm, len(rs), m))
                    r[p[3]] = [take(p[2]) for _ in range(int(m))]
                else:
                    r[p[1]] = take(p[0])
            rs.append(r)
        out[nm] = rs
    if k != len(body):
        raise Malformed('%d bytes more than declared' % (len(body) - k))
    return out


def read_stl(d):
    ls = [l.strip().split() for l in d.decode('latin1').split('\n')]
    ls = [l for l in ls if l]
    if not ls or ls[0][0] != 'solid' or ls[-1][0] != 'endsolid':
        raise Malformed('no solid')
    out, i = [], 1
    while i < len(ls) - 1:
        if len(ls) - 1 - i < 7:
            raise Malformed('incomplete facet')
        f = ls[i:i + 7]
        if f[0][:2] != ['facet', 'normal'] or f[1] != ['outer', 'loop'] or f[5] != ['endloop'] or f[6] != ['endfacet'] or any(x[0] != 'vertex' for x in f[2:5]):
            raise Malformed('facet %d' % len(out))
        if any(len(x) != 4 for x in f[2:5]) or len(f[0]) != 5:
            raise Malformed('facet %d: values' % len(out))
        out.append([tuple(number(v.encode()) for v in x[-3:]) for x in [f[0]] + f[2:5]])
        i += 7
    return out


def vdiff(want, got, what, out):
    if len(want) != len(got):
        out['count'] = '%d %s emitted instead of %d' % (len(got), what, len(want))
        return
    for i, (a, b) in enumerate(zip(want, got)):
        if tuple(a) != tuple(b):
            t = '%s %d emitted as %s instead of %s' % (what, i, fmt(b), fmt(a))
            if what in ('vertices', 'points', 'corners') and set(b) <= set(a):
                out.setdefault('axes', t)
            elif sorted(want) == sorted(got):
                out.setdefault('order', t)
            else:
                out.setdefault('value', t)


def close(a, b):
    return a == b or abs(float(a) - float(b)) <= 1e-12 * max(1.0, abs(float(a)))


def wdiff(k, ok, data):
    d = {}
    if k.colors is not None and len(k.colors) != len(k.verts):
        return {'success': 'success is reported with a colour missing'} if ok else {}
    if not ok:
        return {'error': 'an error is reported'}
    try:
        if 'ply' in k.fn:
            e = read_ply(data)
            if set(e) != {'vertex', 'face'}:
                raise Malformed('elements %s' % sorted(e))
            for n, want, ps in (('vertex', k.verts, ('x', 'y', 'z')),):
                if any(p not in r for r in e[n] for p in ps):
                    raise Malformed('no coordinates')
                got = [tuple(r[p] for p in ps) for r in e[n]]
                vdiff(want, got, 'vertices', d)
            if k.colors is not None:
                if any(p not in r for r in e['vertex'] for p in ('red', 'green', 'blue')):
                    raise Malformed('no colours')
                vdiff([tuple(Fr(v) for v in x) for x in k.colors], [tuple(r[p] for p in ('red', 'green', 'blue')) for r in e['vertex']], 'colours', d)
            fs = []
            for r in e['face']:
                l = [v for v in r.values() if isinstance(v, list)]
                if len(l) != 1:
                    raise Malformed('no list of vertices')
                fs.append(tuple(l[0]))
            vdiff([tuple(Fr(v) for v in f) for f in k.faces], fs, 'faces', d)
        elif 'stl' in k.fn:
            ts = read_stl(data)
            want = [tuple(k.verts[i] for i in f) for f in k.faces]
            if len(ts) != len(want):
                d['count'] = '%d facets emitted instead of %d' % (len(ts), len(want))
            else:
                vdiff([p for t in want for p in t], [p for t in ts for p in t[1:]], 'corners', d)
        else:
            parts = data.split(k.dp.encode())
            if parts[-1] != b'':
                raise Malformed('the last position does not end')
            got = []
            for x in parts[:-1]:
                got.append(tuple(number(w) for w in x.split(k.dc.encode())))
                if len(got[-1]) != k.dim:
                    raise Malformed('%d values for a position' % len(got[-1]))
            vdiff(k.verts, got, 'points', d)
    except Malformed as e:
        d['malformed'] = str(e)
    return d


class Writers(IO):
    def ready(self, name):
        self.analysis(name, WRITERS[name])

    def emit(self, k, wfail=None):
        kinds = WRITERS[k.fn]
        r = self.analysis(k.fn, kinds)
        mesh = Agg('MESH', 0, [Seq([Agg('P', 0, list(v)) for v in k.verts]), Seq([Seq([Fr(i) for i in f]) for f in k.faces])])
        T = self.theory(r, b'', mesh=mesh)
        T.write, T.wfail = True, wfail
        env = {}
        if 'precision' in kinds:
            env[sym('precision')] = self.variant('Precision', k.precision)
        if 'colors' in kinds:
            a = self.c.adt('Rgb')
            order = [f[0] for f in a['v'][0][1]]
            env[sym('colors')] = Seq([Agg(a['d'], 0, [Fr(x['rgb'.index(n)]) for n in order]) for x in k.colors])
        if 'points' in kinds:
            env[sym('points')] = Seq([Agg('P', 0, list(v)) for v in k.verts])
            env[sym('dc')] = iotheory.seq(k.dc.encode())
            env[sym('dp')] = iotheory.seq(k.dp.encode())
        e = T.evaluator(env)
        v = e.ev(r.ret)
        g = Got()
        g.ok = v.v == 0
        g.vague = e.vague
        g.data = iotheory.raw(e.ev(r.post(0))) if g.ok and wfail is None else b''
        g.starts = sorted(T.starts)
        return g


def axes(k, d):
    return d.get('axes')


def contents(k, d):
    for x in ('malformed', 'count', 'order', 'value', 'axes', 'error', 'success'):
        if x in d:
            return d[x]


def judge(c, prop, broken):
    io = Writers(c)
    cases = list(wcases())
    bad = {}
    n = 0
    why = {}
    for k in cases:
        if k.fn not in why:
            try:
                io.ready(k.fn)
                why[k.fn] = None
            except (Unsupported, TM.TooComplex, RecursionError) as e:
                why[k.fn] = '%s: %s' % (type(e).__name__, str(e)[:120])
                c.undecided('%s/%s' % (prop, k.fn), why[k.fn])
    jobs = [k for k in cases if why[k.fn] is None]

    def one(k):
        g = io.emit(k)
        d = wdiff(k, g.ok, g.data)
        if d and g.vague:
            return ('und', 'depends on %s' % g.vague[0])
        return ('done', (d, g.data[:160]))
    for k, r in zip(jobs, parallel(jobs, one, 200)):
        key = '%s/%s' % (k.fn, k.name)
        if r[0] == 'und':
            c.undecided(key, r[1])
            continue
        n += 1
        d, data = r[1]
        t = broken(k, d) if d else None
        if t is None:
            c.good(key)
        else:
            bad.setdefault(k.fn, []).append((key, t, data))
    for f, xs in bad.items():
        for key, t, data in xs[:5]:
            c.fail(key, '%s: %s; emitted: %s' % (f, t, show_data(data)), io.root(f), {'further': [x[0] for x in xs[5:40]]} if len(xs) > 5 else None)
    c.stats['abstract objects saved'] = n
    return n


def failing(c, prop):
    """every single write of every save function fails once"""
    io = Writers(c)
    seen, jobs = {}, []
    for k in wcases():
        if k.name.split(',')[0] not in ('empty', 'points only', 'one face', 'two faces') or 'missing' in k.name or '|' in k.name:
            continue
        try:
            io.ready(k.fn)
        except (Unsupported, TM.TooComplex, RecursionError) as e:
            if k.fn not in seen:
                c.undecided('%s/%s/failing writes' % (prop, k.fn), '%s: %s' % (type(e).__name__, str(e)[:120]))
            seen[k.fn] = 1
            continue
        jobs.append(k)

    def one(k):
        g = io.emit(k)
        if not g.ok:
            return ('und', 'not saved')
        bad = []
        for i, s in enumerate(g.starts):
            h = io.emit(k, s)
            if h.vague:
                return ('und', 'depends on %s' % h.vague[0])
            if h.ok:
                bad.append((i, s))
        return ('done', (len(g.starts), bad))
    n = 0
    for k, r in zip(jobs, parallel(jobs, one, 200)):
        key = '%s/failing writes/%s' % (k.fn, k.name)
        if r[0] == 'und':
            c.undecided(key, r[1])
            continue
        m, bad = r[1]
        n += m
        if bad:
            c.fail(key, '%s reports success although the write number %d of %d (after %d bytes) failed; saved: %s' % (k.fn, bad[0][0] + 1, m, bad[0][1], k.name), io.root(k.fn))
        else:
            c.good(key)
    c.stats['single failing writes'] = n
    c.floor('single failing writes', n + len(c.und), 150)

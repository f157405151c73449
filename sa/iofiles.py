"""Abstract input files per format with what a correct reader delivers for them, and the comparison of
the readers' extracted value flow with it.

A case fixes the bytes of the stream; `iotheory` gives the value of the reader's result (kind, points,
vertices, faces, normals) under those bytes from its normal form.  No code of the crate is run."""
import itertools
import struct
from fractions import Fraction as Fr

import engine
import evalt
from base import *
from evalt import Agg, Seq, Unsupported
from iotheory import Theory, WS

# parameters of the public loading functions: what they are, in order
LOADERS = {
    'load_xyz': ('stream', 'ip'), 'load_xy': ('stream', 'ip'), 'load_pts': ('stream', 'ip'), 'load_ptx': ('stream', 'ip'),
    'load_psl': ('stream', 'ip'), 'load_las': ('stream', 'ip'), 'load_gcode_points': ('stream', 'ip'),
    'load_obj_points': ('stream', 'ip'), 'load_obj_mesh': ('stream', 'mesh'),
    'load_off_points': ('stream', 'ip'), 'load_off_mesh': ('stream', 'mesh'),
    'load_ply_points': ('stream', 'ip'), 'load_ply_mesh': ('stream', 'mesh'), 'load_ply_either': ('stream', 'mesh', 'ip'),
    'load_stl_triplets': ('stream', 'format', 'ip', 'ip2'), 'load_stl_mesh_duped': ('stream', 'format', 'mesh', 'ip2'),
    'load_stl_mesh_unique': ('stream', 'format', 'mesh', 'ip2'),
}
HELP = ('next_line', 'fetch_line', 'from_ascii', 'to_words_skip_empty', 'skip_n', 'estimate_delimiter', 'skip_bytes', 'contains', 'trim_start')


def helpers(c):
    """functions kept as calls: text helpers (their own normal forms are used) and the header parser"""
    out = []
    for u, b in c.p.bodies.items():
        if b['kind'] != 'fn':
            continue
        l = b['p'].split('::')[-1]
        if l in HELP and 'utils' in b['d'] or l == 'load_header' and '::ply::' in b['d'] or 'SkipEmpty<' in b['p'] and l == 'next':
            out.append(u)
    return out


class Case:
    def __init__(self, loader, name, data, want, fmt=None, tags=(), fail=None):
        self.fail = fail
        self.loader, self.name, self.data, self.want, self.fmt, self.tags = loader, name, data, want, fmt, tags


class Want:
    """what a reader has to deliver; `err`: it must not report success"""

    def __init__(self, points=None, verts=None, faces=None, normals=None, err=False, alts=None):
        # alts: per element, values which only differ in the axis their parts were taken from
        self.points, self.verts, self.faces, self.normals, self.err, self.alts = points, verts, faces, normals, err, alts


class Got:
    pass


def num_of(x):
    if isinstance(x, bool) or not isinstance(x, (int, float, Fr)):
        raise Unsupported('number %r' % (x,))
    return Fr(x)


def point(v):
    if isinstance(v, Agg) and v.d == 'P':
        return tuple(num_of(x) for x in v.ch)
    if isinstance(v, Agg) and v.d == 'TRANSFORMED':
        m = v.ch[1]
        rows = []

        def flat(x):
            if isinstance(x, Seq):
                for y in x.xs:
                    flat(y)
            elif isinstance(x, Agg):
                for y in x.ch:
                    flat(y)
            else:
                rows.append(num_of(x))
        flat(m)
        return point(v.ch[0]) + tuple(rows)
    raise Unsupported('point %r' % (v,))


class IO:
    def __init__(self, c):
        self.c = c
        self.ni = helpers(c)
        self.an = {}

    def fn(self, name):
        us = [u for u, b in self.c.p.bodies.items() if b['kind'] == 'fn' and b['p'].split('::')[-1] == name and b.get('vis') != 'priv' and 'closure' not in u]
        us = [u for u in us if '::io::' in u] or us
        if len(us) != 1:
            raise Missing(name)
        return us[0]

    def analysis(self, name, kinds):
        r = self.an.get(name)
        if r is None:
            u = self.fn(name)
            args = [sym(k) for k in kinds]
            try:
                r = self.c.call(u, *args, noinline=tuple(self.ni), typed=True)
            except TM.TooComplex as e:
                r = e
            self.an[name] = r
        if isinstance(r, Exception):
            raise r
        return r

    def ready(self, name):
        self.analysis(name, LOADERS[name])

    def root(self, name):
        return self.fn(name)

    def theory(self, r, data, mesh=None, fail=None):
        T = Theory(self.c, data, mesh=mesh, fail=fail).add(r)
        T.noinline = self.ni
        return T

    def variant(self, ty, name):
        a = self.c.adt(ty)
        for i, (n, _f) in enumerate(a['v']):
            if n == name:
                return Agg(a['d'], i, [])
        raise Missing('%s::%s' % (ty, name))

    def load(self, case, trace=None):
        kinds = LOADERS[case.loader]
        r = self.analysis(case.loader, kinds)
        T = self.theory(r, case.data, fail=case.fail)
        env = {}
        if 'format' in kinds:
            env[sym('format')] = self.variant('StlFormat', case.fmt or 'Auto')
        e = T.evaluator(env)
        g = Got()
        v = e.ev(r.ret)
        if not (isinstance(v, Agg) and isinstance(v.v, int)):
            raise Unsupported('result')
        g.ok = v.v == 0
        g.points = g.verts = g.faces = g.normals = None
        g.vague = e.vague
        if g.ok and 'pos' in case.tags:
            st = e.ev(r.post(kinds.index('stream')))
            g.pos = int(st.ch[0]) if isinstance(st, Agg) and st.d == 'STREAM' else None
        if case.want.err:
            return g
        for i, k in enumerate(kinds):
            if k == 'ip':
                g.points = [point(x) for x in lst(e.ev(r.post(i)))]
            elif k == 'ip2':
                g.normals = [point(x) for x in lst(e.ev(r.post(i)))]
            elif k == 'mesh':
                m = e.ev(r.post(i))
                if not (isinstance(m, Agg) and m.d == 'MESH'):
                    raise Unsupported('mesh')
                g.verts = [point(x) for x in m.ch[0].xs]
                g.faces = [tuple(int(num_of(y)) for y in x.xs) for x in m.ch[1].xs]
        return g


def lst(v):
    if isinstance(v, Seq):
        return v.xs
    raise Unsupported('collection')


# ---------------------------------------------------------------- data
class Gen:
    """deterministic supply of distinct numbers which are exact in every format"""

    def __init__(self, k=0, fine=False):
        self.n = 7 * k
        self.fine = fine      # numbers which need double precision

    def num(self):
        self.n += 1
        n = self.n
        if self.fine:
            return Fr(float(Fr(n, 10) * (-1) ** n))
        return [Fr(n), Fr(-n), Fr(2 * n + 1, 2), Fr(n * 16), Fr(-4 * n - 1, 4), Fr(n, 8)][n * 5 % 6]

    def pt(self, d=3):
        return tuple(self.num() for _ in range(d))

    def pts(self, n, d=3):
        return [self.pt(d) for _ in range(n)]


def txt(x, style=0):
    if style == 1 and x.denominator == 1 and x % 10 == 0 and x:
        return '%de1' % (x // 10)
    if style == 3:
        return '%020.8f' % float(x)
    if style == 4:
        return '%.17e' % float(x)
    if x.denominator == 1:
        return str(int(x)) if style != 2 else '%d.0' % int(x)
    return repr(float(x))


def join(p, sep=' ', style=0):
    return sep.join(txt(x, style) for x in p)


def lines(ls, eol='\n', last=True):
    s = eol.join(ls)
    return (s + (eol if last else '')).encode()


EOLS = (('\n', True), ('\n', False), ('\r\n', True), ('\r\n', False))


def xyz_cases(loader, d):
    g = Gen(1)
    for sep, nm in ((' ', 'blank'), (';', 'semicolon'), (',', 'comma'), ('\t', 'tab')):
        for eol, last in EOLS:
            for st in (0, 2):
                ps = g.pts(3, d)
                yield Case(loader, '%s separated%s%s' % (nm, ', last line without newline' if not last else '', ', CRLF' if '\r' in eol else ''),
                           lines([join(p, sep, st) for p in ps], eol, last), Want(ps), tags=('text',))
    ps = g.pts(2, d)
    yield Case(loader, 'further columns', lines([join(p + (Fr(9), Fr(8))) for p in ps]), Want(ps), tags=('text',))
    yield Case(loader, 'repeated separators', lines(['  ' + join(p, '   ') + '  ' for p in ps]), Want(ps), tags=('text',))
    ps = g.pts(1, d)
    yield Case(loader, 'single line', lines([join(p) for p in ps], last=False), Want(ps), tags=('text',))
    yield Case(loader, 'empty', b'', Want([]), tags=('text',))
    ps = g.pts(3, d)
    bad = [join(ps[0]), join(ps[1][:-1]), join(ps[2])]
    yield Case(loader, 'a coordinate missing', lines(bad), Want(err=True), tags=('bad',))
    bad = [join(ps[0]), join(ps[1][:-1]) + ' abc', join(ps[2])]
    yield Case(loader, 'a word instead of a number', lines(bad), Want(err=True), tags=('bad',))


def pts_cases():
    g = Gen(2)
    for eol, last in EOLS:
        ps = g.pts(3)
        yield Case('load_pts', 'one block', lines(['3'] + [join(p) for p in ps], eol, last), Want(ps), tags=('text',))
    ps = g.pts(5)
    yield Case('load_pts', 'two blocks', lines(['2'] + [join(p) for p in ps[:2]] + ['3'] + [join(p) for p in ps[2:]]), Want(ps), tags=('text',))
    yield Case('load_pts', 'two blocks, extra blanks', lines(['2'] + [' ' + join(p, '\t ') for p in ps[:2]] + ['', '3', ''] + [join(p, '  ') for p in ps[2:]]), Want(ps), tags=('text',))
    yield Case('load_pts', 'intensity and colour columns', lines(['5'] + [join(p) + ' -1200 255 10 20' for p in ps]), Want(ps), tags=('text',))
    yield Case('load_pts', 'three blocks', lines(['1', join(ps[0]), '1', join(ps[1]), '3'] + [join(p) for p in ps[2:]]), Want(ps), tags=('text',))
    full = ['2'] + [join(p) for p in ps[:2]] + ['3'] + [join(p) for p in ps[2:]]
    for k in (1, 2, 4, 5, 6):
        yield Case('load_pts', 'truncated after line %d' % k, lines(full[:k]), Want(err=True), tags=('cut',))
    yield Case('load_pts', 'bad count', lines(['x'] + full[1:]), Want(err=True), tags=('bad',))
    yield Case('load_pts', 'bad vertex', lines(full[:2] + ['1 2'] + full[3:]), Want(err=True), tags=('bad',))


IDENT = ['1 0 0 0', '0 1 0 0', '0 0 1 0', '0 0 0 1']
SCAN = ['0 0 0', '1 0 0', '0 1 0', '0 0 1']


def ptx_block(cols, rows, mat, ps):
    return [str(cols), str(rows)] + SCAN + mat + [join(p) + ' 0.5' for p in ps]


def ptx_cases():
    g = Gen(3)
    for eol, last in EOLS:
        ps = g.pts(6)
        yield Case('load_ptx', 'identity', lines(ptx_block(2, 3, IDENT, ps), eol, last), Want(ps), tags=('text',))
    ps = g.pts(2)
    m = g.pts(1, 16)[0]
    mat = [join(m[4 * i:4 * i + 4]) for i in range(4)]
    yield Case('load_ptx', 'transformed', lines(ptx_block(1, 2, mat, ps)), Want([p + m for p in ps]), tags=('text',))
    for k in range(16):
        mm = tuple(Fr(int(i % 5 == 0)) + (Fr(3) if i == k else 0) for i in range(16))
        yield Case('load_ptx', 'one matrix entry', lines(ptx_block(1, 1, [join(mm[4 * i:4 * i + 4]) for i in range(4)], ps[:1])), Want([ps[0] + mm]), tags=('text',))
    ps = g.pts(5)
    two = ptx_block(1, 2, IDENT, ps[:2]) + ptx_block(3, 1, mat, ps[2:])
    yield Case('load_ptx', 'two scans', lines(two), Want(ps[:2] + [p + m for p in ps[2:]]), tags=('text',))
    two_ = ptx_block(3, 1, mat, ps[2:]) + ptx_block(1, 2, IDENT, ps[:2])
    yield Case('load_ptx', 'two scans, the second without transformation', lines(two_), Want([p + m for p in ps[2:]] + ps[:2]), tags=('text',))
    for k in (1, 2, 5, 9, 10, 11, 13, 15, 20, 22, 23, 24):
        if k != 12 and k < len(two):
            yield Case('load_ptx', 'truncated after line %d' % k, lines(two[:k]), Want(err=True), tags=('cut',))
    yield Case('load_ptx', 'bad matrix', lines(two[:7] + ['1 0 0'] + two[8:]), Want(err=True), tags=('bad',))
    yield Case('load_ptx', 'bad point', lines(two[:10] + ['1 2'] + two[11:]), Want(err=True), tags=('bad',))


def psl_file(passes, version=5, flag=0, junk=7):
    out = b'\x01\x02\x03\x04' + struct.pack('<i', version) + bytes([junk]) * 128 + struct.pack('<ii', len(passes), flag) + bytes([junk]) * 368
    for ls in passes:
        out += struct.pack('<ii', len(ls), 3) + bytes([junk]) * 56
        for ps in ls:
            out += struct.pack('<i', len(ps)) + bytes([junk]) * 60
            for p in ps:
                out += struct.pack('<3f', *[float(x) for x in p])
    return out


def psl_cases():
    g = Gen(4)
    for shape in (((1,),), ((2,),), ((2, 1),), ((1,), (2,)), ((2, 0, 1), (1,)), ((), (1, 2)), ((0,), (3,)), ()):
        passes = [[g.pts(n) for n in ls] for ls in shape]
        flat = [p for ls in passes for l in ls for p in l]
        data = psl_file(passes)
        yield Case('load_psl', 'passes %r' % (shape,), data, Want(flat), tags=('binary',))
    ps = g.pts(4)
    data = psl_file([[ps[:2]], [ps[2:]]])
    for cut in (1, 4, 8, 12, 24, 25, len(data) - 24, 100, 140, 300, 516, 520):
        yield Case('load_psl', 'truncated', data[:len(data) - cut], Want(err=True), tags=('cut',))


def las_file(ps, scale, off, rec=20, offset=375, legacy=True, version=(1, 4), fmt=0, gap=0, junk=0xee):
    h = bytearray([junk]) * 375
    h[0:4] = b'LASF'
    h[24], h[25] = version
    struct.pack_into('<H', h, 94, 375)
    struct.pack_into('<I', h, 96, offset + gap)
    h[104] = fmt
    struct.pack_into('<H', h, 105, rec)
    struct.pack_into('<I', h, 107, len(ps) if legacy else 0)
    struct.pack_into('<6d', h, 131, *([float(x) for x in scale] + [float(x) for x in off]))
    for i in range(6):
        struct.pack_into('<d', h, 179 + 8 * i, 1000.0 + i)
    struct.pack_into('<Q', h, 247, 99 if legacy else len(ps))
    out = bytes(h) + bytes([junk]) * gap
    for p in ps:
        out += struct.pack('<3i', *p) + bytes([junk]) * (rec - 12)
    return out


def fmt_(xs):
    return '/'.join(str(float(x)) for x in xs)


_S = (Fr(1, 4), Fr(1), Fr(8))
SCALES = ([(s, (Fr(o), Fr(-2 * o), Fr(3 * o))) for s, o in zip(itertools.permutations(_S), (1, -40, 1000, -3, 7, 0))]
          + [((Fr(1), Fr(1), Fr(1)), (Fr(0), Fr(0), Fr(0))), ((Fr(-1), Fr(2), Fr(-4)), (Fr(0), Fr(5), Fr(-6))), ((Fr(1, 2),) * 3, (Fr(10),) * 3),
             ((Fr(0), Fr(2), Fr(1)), (Fr(3), Fr(0), Fr(0))), ((Fr(2), Fr(0), Fr(1, 8)), (Fr(0), Fr(3), Fr(0))), ((Fr(1, 8), Fr(2), Fr(0)), (Fr(0), Fr(0), Fr(3)))])


def las_cases():
    n = 0

    def raw(k):
        nonlocal n
        out = []
        for _ in range(k):
            n += 3
            out.append((n * 1000 + 1, -n * 77 - 5, n * 70000 + 9))
        return out
    for rec, gap, legacy, v in ((20, 0, True, (1, 4)), (28, 0, True, (1, 2)), (30, 57, False, (1, 4)), (12, 3, True, (1, 3)), (34, 10, False, (1, 4))):
        ps = raw(3)
        sc, of = (Fr(1, 2), Fr(1, 4), Fr(2)), (Fr(100), Fr(-3), Fr(17, 2))
        data = las_file(ps, sc, of, rec, legacy=legacy, version=v, gap=gap)
        want = [tuple(of[i] + p[i] * sc[i] for i in range(3)) for p in ps]
        alts = [{of[i] + p[j] * sc[k] for i in range(3) for j in range(3) for k in range(3)} for p in ps]
        yield Case('load_las', 'record length %d%s%s' % (rec, ', gap before the points' if gap else '', '' if legacy else ', 64 bit count'), data, Want(want, alts=alts), tags=('binary',))
        for cut in (1, rec - 8, rec, rec + 1, 2 * rec, 3 * rec):
            if 12 < rec or cut <= rec:
                yield Case('load_las', 'truncated', data[:-cut], Want(err=True), tags=('cut',))
        yield Case('load_las', 'truncated header', data[:300], Want(err=True), tags=('cut',))
    for k, (sc, of) in enumerate(SCALES):
        ps = raw(2) + [(-5, 4, -3)]
        want = [tuple(of[i] + p[i] * sc[i] for i in range(3)) for p in ps]
        alts = [{of[i] + p[j] * sc[m] for i in range(3) for j in range(3) for m in range(3)} for p in ps]
        yield Case('load_las', 'scales %s offsets %s' % (fmt_(sc), fmt_(of)), las_file(ps, sc, of), Want(want, alts=alts), tags=('binary',))
    yield Case('load_las', 'no points', las_file([], (1, 1, 1), (0, 0, 0), legacy=False), Want([]), tags=('binary',))


def obj_cases():
    g = Gen(5)
    vs = g.pts(4)
    noise = ['# comment', 'vn 1 2 3', 'vt 0.5 0.5', '', 'g group', 's off', 'usemtl v', 'o f', 'mtllib x.mtl']
    fs = [(1, 2, 3), (2, 4, 3), (4, 1, 2)]
    for eol, last in EOLS:
        body = [noise[0]] + ['v ' + join(p) for p in vs] + noise[1:] + ['f %d %d %d' % f for f in fs]
        want = [tuple(i - 1 for i in f) for f in fs]
        yield Case('load_obj_mesh', 'vertices and faces', lines(body, eol, last), Want(verts=vs, faces=want), tags=('text',))
        yield Case('load_obj_points', 'vertices and faces', lines(body, eol, last), Want(vs), tags=('text',))
    body = ['v ' + join(p) for p in vs[:3]] + ['f 3 1 2'] + ['v ' + join(vs[3])] + ['f 4 2 1']
    yield Case('load_obj_mesh', 'interleaved', lines(body), Want(verts=vs, faces=[(2, 0, 1), (3, 1, 0)]), tags=('text',))
    body = ['v ' + join(p) for p in vs] + ['f 1/5/6 2/7/8 3/9/9', 'f 2//4 3//2 4//1', 'f 4/1 1/2 2/3']
    yield Case('load_obj_mesh', 'texture and normal indices', lines(body), Want(verts=vs, faces=[(0, 1, 2), (1, 2, 3), (3, 0, 1)]), tags=('text', 'slash'))
    yield Case('load_obj_mesh', 'w component', lines(['v  ' + join(p, '  ') + ' 1.0' for p in vs]), Want(verts=vs, faces=[]), tags=('text',))
    yield Case('load_obj_mesh', 'unknown vertex', lines(['v ' + join(p) for p in vs] + ['f 1 2 5']), Want(err=True), tags=('bad',))
    yield Case('load_obj_mesh', 'index 0', lines(['v ' + join(p) for p in vs] + ['f 0 1 2']), Want(err=True), tags=('bad',))
    yield Case('load_obj_mesh', 'incomplete vertex', lines(['v 1 2', 'v 1 2 3']), Want(err=True), tags=('bad',))
    yield Case('load_obj_points', 'incomplete vertex', lines(['v 1 2', 'v 1 2 3']), Want(err=True), tags=('bad',))


def off_cases():
    g = Gen(6)
    vs = g.pts(4)
    fs = [(0, 1, 2), (1, 3, 2), (3, 0, 1)]
    fl = ['3 %d %d %d' % f for f in fs]
    vl = [join(p) for p in vs]
    for eol, last in EOLS:
        body = ['OFF', '4 3 0'] + vl + fl
        yield Case('load_off_mesh', 'vertices and faces', lines(body, eol, last), Want(verts=vs, faces=fs), tags=('text',))
        yield Case('load_off_points', 'vertices and faces', lines(body, eol, last), Want(vs), tags=('text',))
    body = ['OFF', '# comment', '', ' 4  3  0'] + vl[:2] + ['', '# c'] + ['  ' + join(p, ' \t') + '  ' for p in vs[2:]] + [''] + fl[:1] + ['# x'] + [f + ' 255 0 0' for f in fl[1:]]
    yield Case('load_off_mesh', 'comments and blanks', lines(body), Want(verts=vs, faces=fs), tags=('text',))
    yield Case('load_off_points', 'comments and blanks', lines(body), Want(vs), tags=('text',))
    body = ['OFF', '4 3 0'] + vl + fl
    for k in (2, 3, 5):
        yield Case('load_off_mesh', 'truncated after line %d' % k, lines(body[:k]), Want(err=True), tags=('cut',))
        yield Case('load_off_points', 'truncated after line %d' % k, lines(body[:k]), Want(err=True), tags=('cut',))
    for k in (6, 7, 8):
        yield Case('load_off_mesh', 'truncated after line %d' % k, lines(body[:k]), Want(err=True), tags=('cut',))
    yield Case('load_off_mesh', 'no faces', lines(['OFF', '2 0 0'] + vl[:2]), Want(verts=vs[:2], faces=[]), tags=('text',))
    yield Case('load_off_mesh', 'further lines', lines(body + ['3 0 1 3']), Want(verts=vs, faces=fs), tags=('text',))
    yield Case('load_off_mesh', 'face with four vertices', lines(body[:6] + ['4 0 1 2 3'] + body[7:]), Want(err=True), tags=('bad',))
    yield Case('load_off_mesh', 'unknown vertex', lines(body[:6] + ['3 0 1 4'] + body[7:]), Want(err=True), tags=('bad',))
    yield Case('load_off_mesh', 'incomplete vertex', lines(body[:3] + ['1 2'] + body[4:]), Want(err=True), tags=('bad',))


def gcode_cases():
    yield Case('load_gcode_points', 'absolute', lines(['G1 X1 Y2 Z3', 'G1 X4', 'G1 Y5', 'G1 Z6', 'G1 F100', '; nothing', 'M3 X9', 'G1 Z7 X8 E5']),
               Want([(1, 2, 3), (4, 2, 3), (4, 5, 3), (4, 5, 6), (8, 5, 7)]), tags=('text',))
    yield Case('load_gcode_points', 'relative', lines(['G1 X1 Y2 Z3', 'G91', 'G1 X10', 'G1 Y20 Z30', 'G90', 'G1 X5', 'G91 ; relative', 'G2 Z1', 'G3 Y1']),
               Want([(1, 2, 3), (11, 2, 3), (11, 22, 33), (5, 22, 33), (5, 22, 34), (5, 23, 34)]), tags=('text',))
    yield Case('load_gcode_points', 'set position', lines(['G91', 'G1 X1', 'G92 X5 Y6 Z7', 'G1 X1 Y1 Z1', 'G92 E0'], last=False),
               Want([(1, 0, 0), (5, 6, 7), (6, 7, 8)]), tags=('text',))
    yield Case('load_gcode_points', 'set a single coordinate', lines(['G1 X1 Y2 Z3', 'G92 Y7', 'G1 X2', 'G92 Z9', 'G1 X3', 'G92 X0', 'G1 Y8']),
               Want([(1, 2, 3), (1, 7, 3), (2, 7, 3), (2, 7, 9), (3, 7, 9), (0, 7, 9), (0, 8, 9)]), tags=('text',))
    yield Case('load_gcode_points', 'comment', lines(['G1 X1 ; Y5', 'G1  Y2   Z3']), Want([(1, 0, 0), (1, 2, 3)]), tags=('text',))
    yield Case('load_gcode_points', 'fractions', lines(['G1 X1.5 Y-2.25 Z0.125', 'G2 X-3.5', 'G3 Y4', 'G4 X100', 'G28 X0', 'G10 X7']),
               Want([(Fr(3, 2), Fr(-9, 4), Fr(1, 8)), (Fr(-7, 2), Fr(-9, 4), Fr(1, 8)), (Fr(-7, 2), 4, Fr(1, 8))]), tags=('text',))
    yield Case('load_gcode_points', 'bad number', lines(['G1 X1', 'G1 Yabc']), Want(err=True), tags=('bad',))


TYPES = {'char': 'b', 'uchar': 'B', 'short': 'h', 'ushort': 'H', 'int': 'i', 'uint': 'I', 'float': 'f', 'double': 'd',
         'int8': 'b', 'uint8': 'B', 'int16': 'h', 'uint16': 'H', 'int32': 'i', 'uint32': 'I', 'float32': 'f', 'float64': 'd'}


class Ply:
    """a .ply file with the given layout"""

    def __init__(self, fmt, vprops, fprops, vs, fs, comments=False):
        # vprops: [(type, name)]; fprops: [(type, name)] or ('list', tcount, tindex, name)
        self.fmt, self.vprops, self.fprops, self.vs, self.fs = fmt, vprops, fprops, vs, fs
        self.comments = comments

    def header(self, nv=None, nf=None):
        h = ['ply', 'format %s 1.0' % self.fmt]
        if self.comments:
            h += ['comment made by hand', 'obj_info something']
        h += ['element vertex %d' % (len(self.vs) if nv is None else nv)] + ['property %s %s' % p for p in self.vprops]
        if self.comments:
            h += ['comment property float x']
        if self.fprops is not None:
            h += ['element face %d' % (len(self.fs) if nf is None else nf)]
            h += ['property list %s %s %s' % p[1:] if p[0] == 'list' else 'property %s %s' % p for p in self.fprops]
        return h + ['end_header']

    def records(self):
        """[(kind, bytes or line)]"""
        big = '>' if 'big' in self.fmt else '<'
        out = []
        k = 40
        for i, v in enumerate(self.vs):
            line, bs = [], b''
            for t, n in self.vprops:
                if n in ('x', 'y', 'z'):
                    x = v['xyz'.index(n)]
                else:
                    k = (k + 37) % 120 + 1
                    x = Fr(k)
                line.append(txt(x))
                bs += struct.pack(big + TYPES[t], float(x) if TYPES[t] in 'fd' else int(x))
            out.append(('v', ' '.join(line), bs))
        for f in (self.fs if self.fprops is not None else []):
            line, bs = [], b''
            for p in self.fprops:
                if p[0] == 'list':
                    line += [str(len(f))] + [str(i) for i in f]
                    bs += struct.pack(big + TYPES[p[1]], len(f)) + b''.join(struct.pack(big + TYPES[p[2]], i) for i in f)
                else:
                    k = (k + 37) % 120 + 1
                    line.append(str(k))
                    bs += struct.pack(big + TYPES[p[0]], k)
            out.append(('f', ' '.join(line), bs))
        return out

    def data(self, upto=None, eol='\n', last=True, cut=0, nv=None, nf=None):
        rs = self.records()[:upto]
        if self.fmt == 'ascii':
            return lines(self.header(nv, nf) + [r[1] for r in rs], eol, last)
        d = lines(self.header(nv, nf)) + b''.join(r[2] for r in rs)
        return d[:len(d) - cut] if cut else d


LIST = ('list', 'uchar', 'int', 'vertex_indices')
XYZF = [('float', 'x'), ('float', 'y'), ('float', 'z')]


def ply_layouts():
    """(description, vprops, fprops)"""
    for o in itertools.permutations('xyz'):
        yield 'order %s' % ''.join(o), [('float', n) for n in o], [LIST]
    for o in (('x', 'y', 'z'), ('y', 'z', 'x'), ('z', 'x', 'y')):
        for ts in (('double', 'float', 'float'), ('float', 'double', 'float'), ('float', 'float', 'double'), ('float64', 'float32', 'float64')):
            yield 'order %s as %s' % (''.join(o), '/'.join(ts)), list(zip(ts, o)), [LIST]
    for t in sorted(TYPES):
        e = [(t, 'extra')]
        yield '%s before the position' % t, e + XYZF, [LIST]
        yield '%s after x' % t, XYZF[:1] + e + XYZF[1:], [LIST]
        yield '%s after y' % t, XYZF[:2] + e + XYZF[2:], [LIST]
        yield '%s after the position' % t, XYZF + e, [LIST]
        yield '%s before the indices' % t, XYZF, e + [LIST]
        yield '%s after the indices' % t, XYZF, [LIST] + e
    for tc in ('char', 'uchar', 'short', 'ushort', 'int', 'uint', 'int8', 'uint16', 'uint32'):
        for ti in ('char', 'uchar', 'short', 'ushort', 'int', 'uint', 'uint8', 'int16', 'int32'):
            if tc[-1] == ti[-1] or tc == 'uchar' or ti == 'uint':
                yield 'indices as list %s %s' % (tc, ti), XYZF, [('list', tc, ti, 'vertex_index' if tc == 'short' else 'vertex_indices')]
    yield 'colours and normals', XYZF + [('float', 'nx'), ('float', 'ny'), ('float', 'nz'), ('uchar', 'red'), ('uchar', 'green'), ('uchar', 'blue')], [('uchar', 'flag')] + [LIST] + [('double', 'q'), ('char', 'w')]
    yield 'many properties', [('uchar', 'a'), ('double', 'b'), ('float', 'z'), ('short', 'c'), ('uchar', 'd'), ('double', 'x'), ('int', 'e'), ('float', 'y'), ('ushort', 'f')], [('int', 'g'), ('uchar', 'h'), LIST, ('short', 'i')]


def ply_cases(full=True):
    g = Gen(7)
    fs = [(0, 1, 2), (3, 2, 1), (0, 3, 1)]
    for i, (nm, vp, fp) in enumerate(ply_layouts()):
        vs = g.pts(4)
        for fmt in ('ascii', 'binary_little_endian', 'binary_big_endian'):
            f = Ply(fmt, vp, fp, vs, fs, comments=i % 2 == 0)
            tg = ('text',) if fmt == 'ascii' else ('binary',)
            d = f.data()
            yield Case('load_ply_mesh', '%s, %s' % (fmt, nm), d, Want(verts=vs, faces=fs), tags=tg)
            if 'indices' not in nm and (i % 3 == 0 or 'order' in nm):
                yield Case('load_ply_points', '%s, %s' % (fmt, nm), d, Want(vs), tags=tg)
            if i % 7 == 0:
                yield Case('load_ply_either', '%s, %s' % (fmt, nm), d, Want(points=[], verts=vs, faces=fs), tags=tg)
                p = Ply(fmt, vp, None, vs, fs)
                yield Case('load_ply_either', '%s, %s, points only' % (fmt, nm), p.data(), Want(points=vs, verts=[], faces=[]), tags=tg)
    vs = Gen(9, True).pts(4)
    for o in (('x', 'y', 'z'), ('z', 'y', 'x'), ('y', 'x', 'z')):
        for fmt in ('ascii', 'binary_little_endian', 'binary_big_endian'):
            tg = ('text',) if fmt == 'ascii' else ('binary',)
            f = Ply(fmt, [('double', n) for n in o], [LIST], vs, fs)
            yield Case('load_ply_mesh', '%s, precise doubles, order %s' % (fmt, ''.join(o)), f.data(), Want(verts=vs, faces=fs), tags=tg)
            yield Case('load_ply_points', '%s, precise doubles, order %s' % (fmt, ''.join(o)), f.data(), Want(vs), tags=tg)
    vs = g.pts(2)
    for t, ids in (('uchar', (255, 128, 7)), ('char', (127, 1, 0)), ('ushort', (65535, 40000, 256)), ('short', (32767, 258, 3)), ('int', (2147483647, 70000, 66051)), ('uint', (4294967295, 3000000000, 16909060))):
        for fmt in ('ascii', 'binary_little_endian', 'binary_big_endian'):
            f = Ply(fmt, XYZF, [('list', 'uchar', t, 'vertex_indices')], vs, [ids, ids[::-1]])
            yield Case('PlyMeshIterator', '%s, large indices as %s' % (fmt, t), f.data(), Want(verts=vs, faces=[ids, ids[::-1]]), tags=('text' if fmt == 'ascii' else 'binary',))
    vs = g.pts(4)
    for fmt in ('ascii', 'binary_little_endian', 'binary_big_endian'):
        f = Ply(fmt, [('uchar', 'q')] + XYZF + [('float', 'w')], [LIST, ('uchar', 'm')], vs, fs)
        for k in range(0, 7):
            yield Case('load_ply_mesh', '%s, truncated after %d records' % (fmt, k), f.data(upto=k), Want(err=True), tags=('cut',))
            if k < 4:
                yield Case('load_ply_points', '%s, truncated after %d records' % (fmt, k), f.data(upto=k), Want(err=True), tags=('cut',))
        if fmt != 'ascii':
            for cut in (1, 2, 12, 14, 15, 28, 41, 42, 43, 50, 62):
                yield Case('load_ply_mesh', '%s, truncated' % fmt, f.data(cut=cut), Want(err=True), tags=('cut',))
        yield Case('load_ply_mesh', '%s, unknown vertex' % fmt, Ply(fmt, XYZF, [LIST], vs, [(0, 1, 4)]).data(), Want(err=True), tags=('bad',))
        yield Case('load_ply_mesh', '%s, face with four vertices' % fmt, Ply(fmt, XYZF, [LIST], vs, [(0, 1, 2, 3)]).data(), Want(err=True), tags=('bad',))
    for eol, last in EOLS:
        f = Ply('ascii', XYZF, [LIST], vs, fs)
        yield Case('load_ply_mesh', 'ascii, line ends', f.data(eol=eol, last=last), Want(verts=vs, faces=fs), tags=('text',))
    hd = Ply('ascii', XYZF, [LIST], vs, fs)
    yield Case('load_ply_mesh', 'fewer faces announced than present', hd.data(nf=2), Want(verts=vs, faces=fs[:2]), tags=('text',))
    yield Case('load_ply_points', 'fewer vertices announced than present', hd.data(nv=3), Want(vs[:3]), tags=('text',))
    yield Case('load_ply_mesh', 'missing z', Ply('ascii', XYZF[:2], [LIST], vs, fs).data(), Want(err=True), tags=('bad',))
    yield Case('load_ply_mesh', 'x twice', Ply('ascii', [('float', 'x'), ('float', 'y'), ('float', 'x')], [LIST], vs, fs).data(), Want(err=True), tags=('bad',))


def stl_bin(ts, announce=None, head=b'solid', attr=0xabcd):
    out = head + b'\x07' * 75 + struct.pack('<I', len(ts) if announce is None else announce)
    for t in ts:
        for p in t:
            out += struct.pack('<3f', *[float(x) for x in p])
        out += struct.pack('<H', attr)
    return out


def stl_txt(ts, style=0):
    ind = ('', ' ', '  ', '\t', '    ')[style % 5]
    out = ['solid name of it']
    for n, a, b, c_ in ts:
        out += [ind + 'facet normal ' + join(n), ind * 2 + 'outer loop'] + [ind * 3 + 'vertex ' + join(v, ' ' * (1 + style % 2)) for v in (a, b, c_)] + [ind * 2 + 'endloop', ind + 'endfacet']
    return out + ['endsolid name of it']


def stl_want(loader, ts):
    flat = [p for t in ts for p in t[1:]]
    ns = [t[0] for t in ts]
    if loader == 'load_stl_triplets':
        return Want(points=flat, normals=ns)
    if loader == 'load_stl_mesh_duped':
        return Want(verts=flat, faces=[(3 * i, 3 * i + 1, 3 * i + 2) for i in range(len(ts))], normals=ns)
    vs, fs, nn = [], [], []
    for t in ts:
        ids = []
        for p in t[1:]:
            if p not in vs:
                vs.append(p)
            ids.append(vs.index(p))
        if len(set(ids)) == 3:
            fs.append(tuple(ids))
            nn.append(t[0])
    return Want(verts=vs, faces=fs, normals=nn)


def stl_cases():
    for loader in ('load_stl_triplets', 'load_stl_mesh_duped', 'load_stl_mesh_unique'):
        g = Gen(8)
        ps = g.pts(6)
        ns = g.pts(3)
        ts = [(ns[0], ps[0], ps[1], ps[2]), (ns[1], ps[2], ps[1], ps[3]), (ns[2], ps[4], ps[5], ps[0])]
        dg = ts[:1] + [(ns[1], ps[0], ps[0], ps[4])] + ts[2:]
        for fmt in ('Auto', 'Binary'):
            head = b'solid' if fmt == 'Binary' else b'other'
            yield Case(loader, 'binary, %s' % fmt, stl_bin(ts, head=head), stl_want(loader, ts), fmt, tags=('binary',))
        yield Case(loader, 'binary, none', stl_bin([], head=b'abcde'), stl_want(loader, []), 'Auto', tags=('binary',))
        yield Case(loader, 'binary, repeated vertices', stl_bin(dg, head=b'abcde'), stl_want(loader, dg), 'Auto', tags=('binary',))
        yield Case(loader, 'binary, further data', stl_bin(ts, announce=2, head=b'abcde'), stl_want(loader, ts[:2]), 'Auto', tags=('binary',))
        for cut in (1, 2, 3, 49, 50, 51, 100, 120, 150, 152):
            yield Case(loader, 'binary, truncated', stl_bin(ts, head=b'abcde')[:-cut], Want(err=True), 'Auto', tags=('cut',))
        for i, (eol, last) in enumerate(EOLS):
            for fmt in ('Auto', 'Ascii'):
                yield Case(loader, 'ascii, %s' % fmt, lines(stl_txt(ts, i), eol, last), stl_want(loader, ts), fmt, tags=('text',))
        yield Case(loader, 'ascii, repeated vertices', lines(stl_txt(dg)), stl_want(loader, dg), 'Ascii', tags=('text',))
        full = stl_txt(ts)
        for k in (2, 3, 5, 6, 7, 9, 12, 14):
            yield Case(loader, 'ascii, truncated inside a facet', lines(full[:k]), Want(err=True), 'Ascii', tags=('cut',))
        yield Case(loader, 'ascii, incomplete vertex', lines(full[:3] + ['vertex 1 2'] + full[4:]), Want(err=True), 'Ascii', tags=('bad',))


def long_cases():
    """numbers, words and lines much longer than usual"""
    g = Gen(20)
    rem = 'x' * 300
    for st, nm in ((3, 'many digits'), (4, 'exponents')):
        for d, l in ((3, 'load_xyz'), (2, 'load_xy')):
            ps = g.pts(3, d)
            for sep in ' ;':
                yield Case(l, 'long numbers, ' + nm, lines([join(p, sep, st) for p in ps]), Want(ps), tags=('text',))
        ps = g.pts(4)
        fs = [(0, 1, 2), (2, 1, 3)]
        L = [join(p, ' ', st) for p in ps]
        yield Case('load_pts', 'long numbers, ' + nm, lines(['0000000004'] + L), Want(ps), tags=('text',))
        yield Case('load_ptx', 'long numbers, ' + nm, lines(['0000000002', '00000000002'] + [join(map(Fr, x.split()), ' ', st) for x in SCAN + IDENT] + [x + ' 0.5' for x in L]), Want(ps), tags=('text',))
        body = ['# ' + rem, 'o ' + rem] + ['v ' + x for x in L]
        for fl in (['f %09d %010d %011d' % tuple(i + 1 for i in f) for f in fs], ['f %d/%09d/%09d %d/%09d/7 %d//%09d' % (f[0] + 1, 1, 2, f[1] + 1, 3, f[2] + 1, 4) for f in fs]):
            for l in ('load_obj_mesh', 'load_obj_points'):
                yield Case(l, 'long numbers, ' + nm, lines(body + fl), Want(verts=ps, faces=fs) if 'mesh' in l else Want(ps), tags=('text',))
        body = ['OFF', '# ' + rem, '000000000004  00000000002 0000000000000'] + L + ['3 %09d %010d %011d' % f for f in fs]
        for l in ('load_off_mesh', 'load_off_points'):
            yield Case(l, 'long numbers, ' + nm, lines(body), Want(verts=ps, faces=fs) if 'mesh' in l else Want(ps), tags=('text',))
        yield Case('load_gcode_points', 'long numbers, ' + nm, lines(['G1 X%s Y%s Z%s ; ' % tuple(txt(x, st) for x in p) + rem for p in ps] + ['; ' + rem]), Want(ps), tags=('text',))
        f = Ply('ascii', XYZF, [LIST], ps, fs)
        hd = f.header()
        hd[2:2] = ['comment ' + rem]
        body = L + ['3 %09d %010d %011d' % x for x in fs]
        for l in ('load_ply_mesh', 'load_ply_points'):
            yield Case(l, 'long numbers, ' + nm, lines(hd + body), Want(verts=ps, faces=fs) if 'mesh' in l else Want(ps), tags=('text',))
        ts = [(ps[0], ps[1], ps[2], ps[3])]
        for loader in ('load_stl_triplets', 'load_stl_mesh_duped', 'load_stl_mesh_unique'):
            for how in ('Auto', 'Ascii'):
                t = ['solid ' + rem, 'facet normal ' + L[0], 'outer loop'] + ['vertex ' + x for x in L[1:]] + ['endloop', 'endfacet', 'endsolid ' + rem]
                yield Case(loader, 'long numbers, ' + nm, lines(t), stl_want(loader, ts), how, tags=('text',))


def all_cases():
    for f in (long_cases(), xyz_cases('load_xyz', 3), xyz_cases('load_xy', 2), pts_cases(), ptx_cases(), psl_cases(), las_cases(), obj_cases(), off_cases(),
              gcode_cases(), ply_cases(), stl_cases()):
        for x in f:
            yield x


def show_data(d):
    return repr(d if len(d) < 400 else d[:200] + b' ... ' + d[-120:])[:600]

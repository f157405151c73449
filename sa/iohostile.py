"""Inputs no reader may fail on: truncated, corrupted, hostile and foreign files, derived from well-formed
files of every format."""
import re

from iocheck import *
import iowalk

WORDS = [b'', b'-1', b'0', b'x', b'2', b'65536', b'4294967296', b'2147483648', b'9223372036854775807', b'18446744073709551615', b'99999999999999999999999',
         b'1e5', b'1.5', b'\xff\xfe', b'.', b'1 2 3 4', b'6148914691236517206']
FIELDS = [b'\x00', b'\xff', b'\x7f', b'\x80']


def cutwords(line):
    return [m.span() for m in re.finditer(rb'[^ \t;,]+', line)]


def text_mutants(data, dense=True):
    """mutations of a text file: [(description, bytes)]"""
    ls = data.split(b'\n')

    def out(xs):
        return b'\n'.join(xs)
    seen = {data}

    def give(nm, d):
        if d not in seen:
            seen.add(d)
            yield nm, d
    for i, l in enumerate(ls):
        if len(ls) > 24 and 12 <= i < len(ls) - 8 and i % 3:
            continue
        yield from give('line %d deleted' % i, out(ls[:i] + ls[i + 1:]))
        yield from give('line %d twice' % i, out(ls[:i] + [l] + ls[i:]))
        yield from give('line %d blank' % i, out(ls[:i] + [b''] + ls[i + 1:]))
        yield from give('line %d of white space' % i, out(ls[:i] + [b' \t '] + ls[i + 1:]))
        for w in (b'\t', b'\t ', b'  \t\t', b'\x0b', b'\x0c ', b'\r', b'\xc2\xa0'):
            yield from give('line %d begins with %r' % (i, w.decode('latin1')), out(ls[:i] + [w + l] + ls[i + 1:]))
            yield from give('line %d ends with %r' % (i, w.decode('latin1')), out(ls[:i] + [l + w] + ls[i + 1:]))
        yield from give('line %d separated by tabs' % i, out(ls[:i] + [l.replace(b' ', b'\t \t')] + ls[i + 1:]))
        yield from give('ends after line %d' % i, out(ls[:i + 1]))
        ks = range(len(l) + 1) if dense or len(l) < 12 else [0, 1, 2, 3, 4, 5, 6, len(l) - 1]
        for k in ks:
            yield from give('line %d cut after %d bytes' % (i, k), out(ls[:i] + [l[:k]] + ls[i + 1:]))
        for k in (1, len(l) // 2, len(l) - 1):
            if 0 < k < len(l):
                yield from give('file cut in line %d' % i, out(ls[:i] + [l[:k]]))
        for j, (a, b) in enumerate(cutwords(l)):
            for w in WORDS:
                yield from give('line %d word %d replaced by %r' % (i, j, w.decode('latin1')), out(ls[:i] + [l[:a] + w + l[b:]] + ls[i + 1:]))


def binary_mutants(data, start=0, step=2, dense=64):
    n = len(data)
    seen = {data}
    for k in sorted(set(list(range(min(n, dense))) + list(range(max(0, n - dense), n)) + list(range(0, n, 16)))):
        yield 'cut after %d bytes' % k, data[:k]
    for w in (1, 2, 4, 8):
        for a in range(start, n - w + 1, max(step, w)):
            for f in FIELDS:
                for big in ((False, True) if w > 1 and f in (b'\x7f', b'\x80') else (False,)):
                    fill = b'\xff' if f == b'\x7f' else b'\x00' if f == b'\x80' else f
                    x = fill * (w - 1) + f if not big else f + fill * (w - 1)
                    d = data[:a] + x + data[a + w:]
                    if d not in seen:
                        seen.add(d)
                        yield '%d bytes at %d set to %s' % (w, a, x.hex()), d


def thin(xs, n):
    xs = list(xs)
    if len(xs) <= n:
        return xs
    q = len(xs) / n
    return [xs[int(i * q)] for i in range(n)]


def foreign():
    yield 'empty', b''
    for i, s in enumerate((b'\n', b'\n\n\n', b' ', b'0', b'\x00', b'\xff' * 40, b'0\n0\n0\n', b'1\n', b'-1\n', b'\x00' * 600, b'OFF', b'OFF\n', b'ply\n', b'ply', b'LASF',
                           b'solid', b'solid\n', b'v', b'f', b'v \n', b'f 0 0 0\n', b'G', b'G1', b'G1 X', b'G92', b'1 2', b'1 2 3', b'a b c\n', b'; ;', b',,,\n', b'\r\n', b'facet normal', b'vertex',
                           b'\x80\x81\x82\x83 \xf0 \xf1\n' * 4)):
        yield 'tiny %d' % i, s


def seeds():
    """one or more small well-formed files per format: {format: [(name, bytes, kind)]}"""
    g = Gen(30)
    s = {}
    ps = g.pts(3)
    s['xyz'] = [(lines([join(p) for p in ps]), 'text'), (lines([join(p, ';') for p in ps[:1]]), 'text')]
    s['xy'] = [(lines([join(p[:2]) for p in ps]), 'text')]
    s['pts'] = [(lines(['2'] + [join(p) for p in ps[:2]] + ['1'] + [join(ps[2])]), 'text')]
    s['ptx'] = [(lines(ptx_block(1, 2, IDENT, ps[:2])), 'text')]
    s['psl'] = [(psl_file([[ps[:1], ps[1:]], [ps[:1]]]), 'binary')]
    s['las'] = [(las_file([(1000, 2000, 3000), (-5, 6, 7)], (1, 1, 1), (0, 0, 0), 22, gap=3), 'binary')]
    s['obj'] = [(lines(['# c'] + ['v ' + join(p) for p in ps] + ['vn 1 2 3', 'f 1 2 3', 'f 1/1/1 2/2 3//3']), 'text')]
    s['off'] = [(lines(['OFF', '3 2 0'] + [join(p) for p in ps] + ['3 0 1 2', '3 0 2 1']), 'text')]
    s['gcode'] = [(lines(['G1 X1 Y2 Z3', 'G91', 'G92 X5', 'G1 Z-1 ; c', 'G90', 'G28']), 'text')]
    fs = [(0, 1, 2), (2, 1, 0)]
    plys = []
    for fmt in ('ascii', 'binary_little_endian', 'binary_big_endian'):
        for vp, fp in (([('uchar', 'q')] + XYZF, [LIST]), (XYZF + [('double', 'w')], [('short', 'm'), LIST, ('uchar', 'k')])):
            f = Ply(fmt, vp, fp, ps, fs)
            plys.append((f, fmt))
    s['ply'] = plys
    ts = [tuple(g.pts(4)) for _ in range(2)]
    s['stl'] = [(stl_bin(ts, head=b'abcde'), 'binary'), (lines(stl_txt(ts[:1])), 'text')]
    return s


FORMATS = {'load_xyz': 'xyz', 'load_xy': 'xy', 'load_pts': 'pts', 'load_ptx': 'ptx', 'load_psl': 'psl', 'load_las': 'las', 'load_gcode_points': 'gcode',
           'load_obj_points': 'obj', 'load_obj_mesh': 'obj', 'load_off_points': 'off', 'load_off_mesh': 'off', 'load_ply_points': 'ply', 'load_ply_mesh': 'ply',
           'load_ply_either': 'ply', 'load_stl_triplets': 'stl', 'load_stl_mesh_duped': 'stl', 'load_stl_mesh_unique': 'stl'}


def mutants(f, s):
    """[(name, bytes)] of one format"""
    out = []
    if f == 'ply':
        for i, (p, fmt) in enumerate(s['ply']):
            hd = lines(p.header())
            body = p.data()[len(hd):]
            if fmt == 'ascii':
                xs = list(text_mutants(p.data(), dense=False))
                out += [('ascii ply %d, %s' % (i, n), d) for n, d in thin(xs, 700)]
            else:
                xs = [(n, d + body) for n, d in text_mutants(hd[:-1], dense=False)] if False else []
                xs = [(n, d + b'\n' + body) for n, d in text_mutants(hd[:-1], dense=False)]
                out += [('%s ply %d, %s' % (fmt, i, n), d) for n, d in thin(xs, 220)]
                ys = [(n, hd + d) for n, d in binary_mutants(body, 0, 1, 300)]
                out += [('%s ply %d, %s' % (fmt, i, n), d) for n, d in thin(ys, 160)]
        return out
    for i, (d, kind) in enumerate(s[f]):
        if kind == 'text':
            xs = list(text_mutants(d))
            out += [('%s %d, %s' % (f, i, n), x) for n, x in thin(xs, 900)]
        else:
            xs = list(binary_mutants(d))
            out += [('%s %d, %s' % (f, i, n), x) for n, x in thin(xs, 1500)]
    return out


def hostile(share=1):
    """[Case]"""
    s = seeds()
    alien = list(foreign())
    for f, xs in s.items():
        for d in xs[:1] + xs[1:2]:
            alien.append(('a .%s file' % f, d[0].data() if f == 'ply' else d[0]))
    cases = []
    for l, f in FORMATS.items():
        ms = mutants(f, s)
        if l in ('load_obj_points', 'load_off_points', 'load_stl_mesh_duped', 'load_stl_triplets'):
            ms = ms[::3]
        if l in ('load_ply_points', 'load_ply_either'):
            ms = ms[::4]
        for n, d in ms[::share] + alien:
            for fm in (('Auto', 'Ascii', 'Binary') if f == 'stl' and (n, d) in alien else ('Auto',)):
                k = Case(l, n, d, Want(err=True), fm)
                cases.append(k)
                if f == 'stl' and 'stl 1' in n:
                    cases.append(Case(l, n, d, Want(err=True), 'Ascii'))
    return cases


def start(io, case):
    kinds = LOADERS[case.loader]
    r = io.analysis(case.loader, kinds)
    env = {}
    if 'format' in kinds:
        env[sym('format')] = io.variant('StlFormat', case.fmt or 'Auto')
    return r, env


def observe(io, case, limit=3000):
    r, env = start(io, case)
    return iowalk.walk(io.c, io.theory(r, case.data), r, env, limit)


def drive(io, rd, case, limit=3000, calls=40):
    """follow an incremental reader from call to call, also past errors and its end"""
    c = io.c
    r0, r1, fmt_ = rd.reader(case.loader)
    T = io.theory(r0, case.data)
    env = {sym('format'): io.variant('StlFormat', case.fmt or 'Auto')} if fmt_ else {}
    w = iowalk.walk(c, T, r0, env, limit)
    e = iowalk.Strict(0, dict(env), 0, 3, None, 4000000, T)
    st = e.ev(r0.ret)
    if isinstance(st, Agg) and st.d == iotheory.RES:
        if st.v != 0:
            return w
        st = st.ch[0]
    T1 = io.theory(r1, case.data)
    after = 0
    for n in range(calls):
        ev = {sym('state'): st}
        iowalk.walk(c, T1, r1, ev, limit, w)
        if any(f[0] == 'hang' for f in w.found):
            return w
        e = iowalk.Strict(0, dict(ev), 0, 3, None, 4000000, T1)
        v = e.ev(r1.ret)
        nx = e.ev(r1.post(0))
        if v.v == 0:
            after += 1
            if after > 2:
                return w
        elif evalt.key(nx) == evalt.key(st):
            w.found.append(('hang', 'an item is handed out again and again without any change of the reader', (rd.root(case.loader), c.p.bodies[rd.root(case.loader)].get('sp'), 0)))
            return w
        st = nx
    return w


SHARE = {'load_ply_mesh': 3, 'load_ply_points': 2, 'load_ply_either': 2, 'load_las': 2}
PERWORD = {'panic': 'panics', 'alloc': 'reserves whatever the file claims', 'hang': 'never ends'}


def judged_hostile(c, io, prop, kinds, share=1):
    """one obligation per loader and function: no hostile input shows a failure of one of the kinds"""
    rd = Readers(c)
    cases = []
    for i, k in enumerate(hostile()):
        q = SHARE.get(k.loader, 1) * share
        if i % q == 0 or len(k.data) < 12:
            cases.append(k)
    for t, l in READERS.items():
        mine = [k for k in cases if k.loader == l]
        for k in thin(mine, 150):
            cases.append(Case(t, k.name, k.data, k.want, k.fmt))
    bad = {}
    for l in sorted({k.loader for k in cases}):
        try:
            (rd if l in READERS else io).ready(l)
        except Missing:
            raise
        except (Unsupported, TM.TooComplex, RecursionError) as e:
            bad[l] = '%s: %s' % (type(e).__name__, str(e)[:120])
            c.undecided('%s/%s' % (prop, l), bad[l])
    # spread the kinds of inputs over the workers
    jobs = [k for k in cases if k.loader not in bad]
    order = sorted(range(len(jobs)), key=lambda i: (i * 7919) % max(1, len(jobs)))
    jobs = [jobs[i] for i in order]

    def one(k):
        w = drive(io, rd, k) if k.loader in READERS else observe(io, k)
        return ('done', w.found, w.unknown[:3], w.steps)
    res = parallel(jobs, one)
    n, m, steps_, found = {}, {}, 0, {}
    for k, r in zip(jobs, res):
        if r[0] == 'und':
            m.setdefault(k.loader, {}).setdefault(r[1], []).append(k.name)
            continue
        n[k.loader] = n.get(k.loader, 0) + 1
        steps_ += r[3]
        for x in r[2]:
            m.setdefault(k.loader, {}).setdefault(x, []).append(k.name)
        for f in r[1]:
            if f[0] in kinds:
                found.setdefault((k.loader,) + f, []).append(k)
    for l in sorted({k.loader for k in jobs}):
        mine = [(f, ks) for f, ks in found.items() if f[0] == l]
        seen = set()
        for (_, kind, text, where), ks in mine:
            u = where[0]
            key = '%s/%s/%s in %s' % (l, kind, text, c.fn(u).replace('rust_3d::', '') if hasattr(c, 'fn') else str(u).replace('rust_3d::', ''))
            if key in seen:
                continue
            seen.add(key)
            k = min(ks, key=lambda k: len(k.data))
            c.fail(key, '%s %s: %s (line %s); input (%s): %s' % (l, PERWORD[kind], text, where[2], k.name, show_data(k.data)), u if u in c.p.bodies else io.root(l),
                   {'inputs': len(ks)})
        if not mine and n.get(l):
            c.good('%s/%s/hostile inputs' % (prop, l))
    for l, xs in sorted(m.items()):
        for x, ks in sorted(xs.items())[:4]:
            c.undecided('%s/%s/hostile inputs' % (prop, l), '%d inputs: %s (%s)' % (len(ks), x, ks[0]))
    c.stats['hostile inputs followed'] = sum(n.values())
    c.stats['loop steps followed'] = steps_
    c.floor('hostile inputs', len(jobs), 1500)

"""L06: binary numbers are decoded with the declared width, kind and byte order."""
from iocheck import *
import p_l09

PATTERNS = [bytes(range(1, 9)), bytes(range(0xf8, 0x100)), bytes([0x80, 1, 2, 0x83, 4, 0x85, 6, 0x87]), bytes([0x3f, 0x80, 0, 0, 0, 0, 0x80, 0x3f]), bytes(8), bytes([0x7f, 0, 0xff, 1, 0x40, 0x49, 0x0f, 0xdb])]


def broken(k, d):
    for x in ('value', 'error', 'order'):
        if x in d:
            return d[x]


def run(c):
    p = c.p
    io = IO(c)
    m = 0
    # the readers for single numbers
    for im in p.impls:
        tr = (im.get('tr') or '').split('::')[-1]
        if tr == 'IsByteReader':
            nm = p.self_name(im)
            big = 'big' in nm.lower()
            if not big and 'little' not in nm.lower():
                continue
            for n, u in im['m']:
                t = n.split('_')[-1]
                if t in iotheory.SIZES and n == 'read_' + t:
                    c.guard('%s::%s' % (nm, n), single, c, io, u, '%s::%s' % (nm, n), t, big)
                    m += 1
        if tr == 'FromBytes':
            t = p.self_name(im)
            for n, u in im['m']:
                if t in iotheory.SIZES and n in ('from_le_slice', 'from_be_slice'):
                    c.guard('%s::%s' % (t, n), sliced, c, io, u, '%s::%s' % (t, n), t, '_be_' in n)
                    m += 1
    c.floor('number decoders', m, 30)
    us = [u for u, b in p.bodies.items() if b['kind'] == 'fn' and b['p'].split('::')[-1] == 'skip_bytes' and '::io::' in b['d'] and b['argc'] == 2]
    for u in us:
        c.guard('skip_bytes', skip, c, io, u)
    cs = [k for k in all_cases() if 'binary' in k.tags and not k.want.err]
    n = judged(c, io, loaders(cs), 'L06', broken)
    n += judged(c, Readers(c), plyshare(reader_cases(cs), 3), 'L06', broken)
    c.floor('binary files', n + len(c.und), 200)
    return {'rule': RULE + '; every reader of a single number against the definition of its name on bit patterns and lengths', 'assumptions': ASSUME}


def show_num(v):
    return v if not isinstance(v, Fr) else float(v)


def verdict(c, key, got, want, u, what):
    if got == want:
        c.good(key)
    else:
        c.fail(key, '%s gives %s instead of %s' % (what, show_num(got), show_num(want)), u)


def single(c, io, u, nm, t, big):
    n = iotheory.SIZES[t]
    b = c.p.bodies[u]
    for i, pat in enumerate(PATTERNS):
        key = '%s/%s' % (nm, pat.hex())
        try:
            v, s = p_l09.evaluate(c, io, u, [p_l09.stream0(1)], b'\x55' + pat, (0,))
        except (Unsupported, TM.TooComplex) as e:
            c.undecided(key, str(e)[:150])
            continue
        want = iotheory.decode(pat[:n], t, big)
        got = value(v)
        if not isinstance(want, Fr):
            got, want = evalt.key(got), evalt.key(want)
        verdict(c, key, got, want, u, 'reading %s from %s' % (t, pat.hex()))
        verdict(c, key + '/consumed', int(s.ch[0]) - 1, n, u, 'number of bytes read for ' + t)
    v, = p_l09.evaluate(c, io, u, [p_l09.stream0(0)], PATTERNS[0][:n - 1])
    verdict(c, nm + '/short', value(v), 'error', u, 'reading %s from %d bytes' % (t, n - 1))


def value(v):
    if isinstance(v, Agg) and v.d == iotheory.RES:
        return v.ch[0] if v.v == 0 else 'error'
    return v


def sliced(c, io, u, nm, t, big):
    n = iotheory.SIZES[t]
    for pat in PATTERNS:
        key = '%s/%s' % (nm, pat.hex())
        try:
            v, = p_l09.evaluate(c, io, u, [iotheory.seq(pat[:n])])
        except (Unsupported, TM.TooComplex) as e:
            c.undecided(key, str(e)[:150])
            continue
        want, got = iotheory.decode(pat[:n], t, big), value(v)
        if not isinstance(want, Fr):
            got, want = evalt.key(got), evalt.key(want)
        verdict(c, key, got, want, u, 'decoding %s from %s' % (t, pat[:n].hex()))
    for k in (n - 1, n + 1, 0):
        key = '%s/%d bytes' % (nm, k)
        try:
            v, = p_l09.evaluate(c, io, u, [iotheory.seq((PATTERNS[0] * 2)[:k])])
        except (Unsupported, TM.TooComplex) as e:
            c.undecided(key, str(e)[:150])
            continue
        verdict(c, key, value(v) if value(v) == 'error' else 'a number', 'error', u, 'decoding %s from %d bytes' % (t, k))


def skip(c, io, u):
    data = bytes(range(40))
    for n in (0, 1, 2, 3, 7, 16, 40, 41):
        v, s = p_l09.evaluate(c, io, u, [p_l09.stream0(0), Fr(n)], data, (0,))
        if n <= 40:
            verdict(c, 'skip_bytes/%d' % n, int(s.ch[0]) if value(v) != 'error' else 'error', n, u, 'skipping %d bytes' % n)
        else:
            verdict(c, 'skip_bytes/%d' % n, value(v) if value(v) == 'error' else 'success', 'error', u, 'skipping %d of 40 bytes' % n)

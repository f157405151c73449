"""L02: a failing read is never taken for the end of the data.

For every call of a std read operation and of every function of the crate that reports the
outcome of reads, the outcome is fixed to an error and the enclosing function analysed: on no
path that passed the call may the function report success or the end of the data.  The error a
caller sees is the one the analysis of the callee found, so conversions between error types are
part of the argument."""
from base import *
import faults


def run(c, kinds=('r',), least=120):
    S = faults.Sites(c, kinds)
    n = 0
    for root in sorted(S.carrier):
        for site in S.sites_of(root):
            c.guard('%s/%s' % (c.p.label(root), site[2]['p'].split('::')[-1]), one, c, S, root, site)
            n += 1
    if kinds == ('r',):
        failing(c)
    c.floor('sites', n, least)
    c.stats['functions with sites'] = len(S.carrier)
    return {'rule': 'each fallible read (std call or crate function reporting one) fixed to Err: every path that passed it ends in Err of the enclosing function',
            'assumptions': ['std read_exact/read_until/read_to_* report errors of the underlying reader as Err (documented contract)',
                            'calls not followed (reported in the analysis) do not change the outcome value of the fixed call']}


def failing(c):
    """the medium fails at one place of a well-formed file: the loader has to report it"""
    import iocheck as K
    import iohostile as H
    s = H.seeds()
    io = K.IO(c)
    base = []
    for l, f in H.FORMATS.items():
        for i, d in enumerate(s[f]):
            if f == 'ply':
                data, junk = K.Ply(d[1], K.XYZF, None if l == 'load_ply_points' else [K.LIST], d[0].vs, d[0].fs).data(), b''
                if i % 2:
                    continue
            else:
                data, junk = d[0], {'psl': b'\x07', 'las': b'\xee', 'stl': b'\x07\xcd\xab' if d[1] == 'binary' else b''}.get(f, b'')
            if l == 'load_off_points':
                data = data.replace(b'\n3 2 0\n', b'\n3 0 0\n')
                data = data[:data.index(b'3 0 1 2')]
            base.append(K.Case(l, '%s %d' % (f, i), data, K.Want(err=True), 'Auto', ('pos', junk)))
    jobs = []
    for k in base:
        try:
            io.ready(k.loader)
            jobs.append(k)
        except (evalt.Unsupported, TooComplex, RecursionError) as e:
            c.undecided('L02/%s/failing medium' % k.loader, '%s: %s' % (type(e).__name__, str(e)[:120]))

    def one(k):
        g = io.load(k)
        if not g.ok or g.vague:
            return ('und', 'the file is not read')
        junk = k.tags[1]
        if g.pos is None:
            g.pos = len(k.data)
            if b'endsolid' in k.data:
                g.pos = k.data.index(b'endsolid') - 10
        ps = [p for p in range(min(g.pos, len(k.data))) if k.data[p] not in junk]
        ps = sorted(set(H.thin(ps, 24) + ps[-2:]))
        bad = []
        for p in ps:
            h = io.load(K.Case(k.loader, k.name, k.data, k.want, k.fmt, (), p))
            if h.vague:
                return ('und', 'depends on %s' % h.vague[0])
            if h.ok:
                bad.append(p)
        return ('done', (len(ps), bad))
    n = 0
    for k, r in zip(jobs, K.parallel(jobs, one, 200)):
        key = '%s/failing medium/%s' % (k.loader, k.name)
        if r[0] == 'und':
            c.undecided(key, r[1])
            continue
        n += r[1][0]
        if r[1][1]:
            p = r[1][1][0]
            c.fail(key, '%s reports success although the medium failed after %d bytes of %s' % (k.loader, p, K.show_data(k.data)), io.root(k.loader), {'positions': r[1][1]})
        else:
            c.good(key)
    c.stats['places where the medium fails'] = n
    c.floor('places where the medium fails', n + len(c.und), 200)


def one(c, S, root, site):
    u, blk, fn, ot, sp, callee = site
    p = c.p
    nm = fn['p'].split('::')[-1]
    key = '%s/%s' % (p.label(root), nm)
    k = len([x for x in c.ok_ if x == key or x.startswith(key + '#')])
    if k:
        key += '#%d' % (k + 1)
    r, g, hits = S.run(root, site)
    if not hits:
        c.undecided(key, 'the call was not reached by the analysis')
        return
    t, bad, e = faults.judge(p, root, r, g)
    if t == 'raw' and g != F and not [1 for v in S.via.values() for x in v if faults.root_of(p, x[4]) == root]:
        c.undecided(key, 'the function reports outcomes in a form of its own and is not used inside the crate')
        return
    if bad == F:
        c.good(key)
        return
    try:
        res, w = evalt.compare(B(bnot(bad)), B(T), T, hook=nat_hook(p))
    except TooComplex as x:
        c.undecided(key, str(x))
        return
    if res == evalt.EQ:
        c.good(key)
        return
    if res == evalt.NE:
        where = srcloc(sp)
        c.fail(key, 'a failure reported by %s (called at %s) is swallowed: the function goes on to %s' % (
            nm, where, 'report success' if t != 'unit' else 'return normally although it cannot report it'), root,
            {'condition': bshow(bad)[:800], 'returns': show(r.ret)[:600]})
        return
    c.undecided(key, w)

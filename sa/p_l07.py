"""L07: writers hand over every byte or report the failure.

As L02 for the output side; in addition calls which may accept only part of a buffer, and
buffering layers whose last flush would go unreported."""
from base import *
import faults
import p_l02
import iowrite

PARTIAL = ('write', 'write_vectored')
BUFFERS = ('BufWriter', 'LineWriter')
FLUSH = ('flush', 'into_inner', 'into_parts')


def run(c):
    p = c.p
    S = faults.Sites(c, ('w',))
    n = 0
    for root in sorted(S.carrier):
        for site in S.sites_of(root):
            c.guard('%s/%s' % (p.label(root), site[2]['p'].split('::')[-1]), p_l02.one, c, S, root, site)
            n += 1
    m = 0
    for u, b in p.bodies.items():
        buffers, flushes = [], 0
        for blk, fn, bl in faults.body_calls(p, b):
            nm = fn['p'].split('::')[-1]
            if faults.io_kind(fn) == 'w':
                m += 1
                if fn['m'] in FLUSH:
                    flushes += 1
                if fn['m'] in PARTIAL:
                    c.guard('%s/partial' % p.label(u), partial, c, u, blk, bl)
            elif nm in ('new', 'with_capacity') and any('::%s' % x in fn['d'] for x in BUFFERS):
                buffers.append(bl['sp'])
            elif nm in FLUSH and any('::%s' % x in fn['d'] for x in BUFFERS):
                flushes += 1
        if buffers:
            if flushes < len(buffers):
                c.fail('%s/unflushed buffer' % p.label(u), 'an output buffer created at %s is dropped without flushing it: what is still buffered is lost silently when the output fails' % srcloc(buffers[0]), u)
            else:
                c.good('%s/buffer flushed' % p.label(u))
    iowrite.failing(c, 'L07')
    c.floor('sites', n, 30)
    c.floor('write calls', m, 30)
    return {'rule': 'each fallible write (std call or crate function reporting one) fixed to Err: every path that passed it ends in Err of the enclosing function; '
                    'no single call that may accept part of a buffer; buffers flushed before they are dropped',
            'assumptions': ['std write_all / write_fmt write everything or report an error (documented contract)']}


def partial(c, u, blk, bl):
    """Write::write outside a loop that goes on with the rest"""
    b = c.p.bodies[u]
    cfg = engine.Cfg(b)
    if any(blk in L['blocks'] for L in cfg.loops.values()):
        used = uses_count(c.p, b, bl['t'][3])
        if used:
            c.undecided('%s/partial' % c.p.label(u), 'a loop around Write::write: not decided whether it goes on with the rest')
            return
    c.fail('%s/partial' % c.p.label(u), 'Write::write may accept only a part of the buffer; the rest is never written (call at %s)' % srcloc(bl['sp']), u)


def uses_count(p, b, dest):
    """does any arithmetic or slicing of the body depend on the result of the call"""
    live = {dest[0]}
    ch = True
    while ch:
        ch = False
        for bl in b['blocks']:
            if not bl:
                continue
            for s in bl['s']:
                if s[0] == '=' and s[1][0] not in live and mentions(s[2], live):
                    live.add(s[1][0])
                    ch = True
            t = bl['t']
            if t[0] == 'call' and t[3][0] not in live and any(mentions(x, live) for x in t[2]):
                live.add(t[3][0])
                ch = True
    for bl in b['blocks']:
        if not bl:
            continue
        for s in bl['s']:
            if s[0] == '=' and s[2][0] == 'bin' and mentions(s[2], live):
                return True
        t = bl['t']
        if t[0] == 'call' and 'k' in t[1] and 'fn' in t[1]['k'] and (t[1]['k']['fn'].get('m') or '') in ('index', 'add_assign', 'sub_assign') and any(mentions(x, live) for x in t[2]):
            return True
    return False


def mentions(x, live):
    if isinstance(x, dict):
        for k in ('c', 'm'):
            if k in x and x[k][0] in live:
                return True
        return False
    if isinstance(x, (list, tuple)):
        return any(mentions(y, live) for y in x)
    return False

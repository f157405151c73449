"""U01: every unchecked operation is covered by the check that makes it sound."""
from base import *
import faults, evalt

SAFE_PTR = ('addr_of', 'offset_of')


def unsafe_calls(p, b):
    """calls of operations whose contract the caller has to establish"""
    out = []
    for blk, fn, bl in faults.body_calls(p, b):
        n = fn['p'].split('::')[-1]
        full = fn.get('rp') or fn['p']
        if fn.get('d') in p.bodies and p.bodies[fn['d']].get('unsafe'):
            out.append((blk, fn, n, bl))
        elif is_unchecked(n, fn['p'], full):
            out.append((blk, fn, n, bl))
    return out


def is_unchecked(n, path, full):
    if n.startswith('unchecked_') or n.endswith(('_unchecked', '_unchecked_mut', '_unchecked_ref')):
        return True
    if n in ('transmute', 'transmute_copy', 'zeroed', 'uninitialized', 'set_len', 'from_raw_parts', 'from_raw_parts_mut', 'from_raw', 'assume_init', 'assume_init_ref',
             'assume_init_mut', 'assume_init_read', 'unreachable_unchecked', 'as_bytes_mut', 'as_mut_vec', 'read_unaligned', 'write_unaligned', 'read_volatile', 'copy_nonoverlapping',
             'write_bytes', 'increment_strong_count'):
        return 'alloc::rc' not in path or n != 'from_raw'
    if '::ptr::' in path and n in ('read', 'write', 'copy', 'swap', 'replace', 'drop_in_place', 'add', 'sub', 'offset', 'as_ref', 'as_mut', 'deref'):
        return True
    return False


def raw(p, b):
    """dereferences of raw pointers, uses of mutable statics and unions"""
    out = []

    def place(pl, sp):
        t = p.rt(b['locals'][pl[0]][0])
        for e in pl[1]:
            if e == '*':
                if t[0] == 'ptr':
                    out.append(('dereference of a raw pointer', sp))
                if t[0] in ('ref',):
                    t = t[2]
                elif t[0] == 'ptr':
                    t = t[1]
                else:
                    return
            elif e[0] == 'f':
                t = p.rt(e[2])
            else:
                return

    def walk(x, sp):
        if isinstance(x, dict):
            for k, v in x.items():
                if k in ('c', 'm') and isinstance(v, list) and len(v) == 2:
                    place(v, sp)
                elif k == 'k' and isinstance(v, dict) and v.get('static'):
                    st = statics(p).get(v['static'])
                    if st:
                        out.append(('use of the mutable static ' + v['static'], sp))
        elif isinstance(x, list):
            if len(x) == 2 and isinstance(x[0], int) and isinstance(x[1], list):
                place(x, sp)
            for y in x:
                walk(y, sp)
    for bl in b['blocks']:
        if bl:
            for s in bl['s']:
                if s[0] == '=':
                    place(s[1], s[3] if len(s) > 3 else None)
                    walk(s[2], s[3] if len(s) > 3 else None)
            if bl['t'][0] == 'call':
                walk(bl['t'][2], bl.get('sp'))
    return out


def inner(p, fn, name, seen=()):
    """the unchecked operations behind a call (the crate's own unsafe functions are looked into)"""
    if fn.get('d') not in p.bodies or fn['d'] in seen:
        return [(fn, name)]
    out = []
    for blk, f2, n2, bl in unsafe_calls(p, p.bodies[fn['d']]):
        out += inner(p, f2, n2, seen + (fn['d'],))
    return out


def statics(p):
    return {s['d']: s for s in p.d.get('statics', []) if s['mut']}


def run(c):
    p = c.p
    blocks = p.d.get('unsafe', [])
    owners = {}
    for o, sp in blocks:
        owners.setdefault(faults.root_of(p, o) if o in p.bodies else o, []).append(sp)
    n = k = 0
    for u, b in sorted(p.bodies.items()):
        n += 1
        c.funcs.add(u)
        root = faults.root_of(p, u)
        for what, sp in raw(p, b):
            if boxed(p, b, sp, what):
                continue
            c.fail('%s.%s' % (p.label(root), what), '%s: no check in reach of a static rule makes it sound' % what, u)
        us = unsafe_calls(p, b)
        if p.bodies[root].get('unsafe') or root not in owners:
            # outside unsafe blocks only safe functions can be called; the callers of unsafe functions answer for them
            continue
        for blk, fn, name, bl in us:
            for f2, n2 in inner(p, fn, name):
                k += 1
                c.guard('%s.%s' % (p.label(root), n2), site, c, root, f2, n2)
        if not us and u == root and root in owners and not raw(p, b):
            c.good(p.label(root) + '.unsafe block without unchecked operation')
    for im in p.impls:
        if im.get('uns') or (im.get('tr') or '').split('::')[-1] in ('Send', 'Sync'):
            c.fail('impl.%s for %s' % (im.get('tr'), p.self_name(im)), 'an unsafe trait is implemented by hand')
    c.good('functions without unchecked operations')
    c.stats['unsafe blocks'] = len(blocks)
    c.stats['unchecked operations'] = k
    c.floor('functions', n, 600)
    return {'rule': 'every function of the crate is searched for raw pointer dereferences, mutable statics and calls of unchecked operations; the path condition of each such '
                    'call (value-flow analysis of the enclosing safe function with arbitrary arguments) has to imply the contract of the operation'}


def boxed(p, b, sp, what):
    # MIR spells a dereference of Box with a raw pointer
    return what.startswith('dereference') and b.get('kind') is not None and not any(x for x in p.d.get('unsafe', []) if faults.root_of(p, x[0]) == faults.root_of(p, b['d']) if x[0] in p.bodies)


CONTRACT = {
    'from_utf8_unchecked': ('the bytes are UTF-8', lambda a: mk('call', 'UTF8', (a[0],))),
    'from_utf8_unchecked_mut': ('the bytes are UTF-8', lambda a: mk('call', 'UTF8', (a[0],))),
    'get_unchecked': ('the index is within bounds', lambda a: mk('call', 'INDEX', (a[0], a[1]))),
    'get_unchecked_mut': ('the index is within bounds', lambda a: mk('call', 'INDEX', (a[0], a[1]))),
    'unwrap_unchecked': ('there is a value', lambda a: mk('call', 'PRESENT', (a[0],))),
    'unreachable_unchecked': ('it is never reached', lambda a: B(F)),
    'set_len': ('the elements exist', lambda a: mk('call', 'WITHIN', (a[0], a[1]))),
    'new_unchecked': ('the number is not zero', lambda a: mk('call', 'NONZERO', (a[0],))),
}


def site(c, root, fn, name):
    p = c.p
    key = '%s.%s' % (p.label(root), name)
    if name not in CONTRACT:
        c.fail(key, 'call of %s: no check in reach of a static rule makes it sound' % fn['p'], root)
        return
    what, con = CONTRACT[name]
    r = c.call(root)
    evs = [e for e in r.an.events if e.name.split('::')[-1] == name]
    if not evs:
        raise TooComplex('call of %s not met by the analysis' % name)
    params = {}
    b = p.bodies[root]
    for i in range(b['argc']):
        t = p.rt(b['locals'][i + 1][0])
        while t[0] == 'ref':
            t = t[2]
        if t[0] == 'slice' and t[1] == ('prim', 'u8') or t == ('str',):
            params['arg%d' % i] = t == ('str',)

    def text(e, nm, ascii_):
        h = int(evalt._h('bytes', e.seed, nm)[:8], 16)
        k = h % 7
        out = []
        for j in range(k):
            x = int(evalt._h('byte', e.seed, nm, j)[:8], 16)
            out.append(Fraction(x // 256 % 128 if ascii_ or e.seed % 2 else (x // 256) % 256))
        return evalt.Seq(out)

    def data(e, t):
        return [int(e.number(x)) for x in e.toseq(e.ev(t)).xs]

    def hook(e, t):
        if t.op == 'sym' and t.a[0] in params:
            return text(e, t.a[0], params[t.a[0]])
        if t.op == 'call':
            f = str(t.a[0]).split('::')[-1]
            if f == 'is_ascii':
                return all(0 <= x < 128 for x in data(e, t.a[1][0])) if not single(e, t.a[1][0]) else 0 <= e.number(e.ev(t.a[1][0])) < 128
            if f == 'UTF8':
                return valid(data(e, t.a[1][0]))
            if f == 'from_utf8':
                ok = valid(data(e, t.a[1][0]))
                return evalt.Agg(RES, 0 if ok else 1, [e.ev(t.a[1][0]) if ok else evalt.Tok('utf8error')])
            if f == 'INDEX':
                i = e.number(e.ev(t.a[1][1]))
                return 0 <= i < e.length(e.ev(t.a[1][0]))
            if f == 'WITHIN':
                return e.number(e.ev(t.a[1][1])) <= e.length(e.ev(t.a[1][0]))
            if f == 'NONZERO':
                return e.number(e.ev(t.a[1][0])) != 0
            if f == 'PRESENT':
                v = e.ev(t.a[1][0])
                return (e.variant(v, 2) == 0) == (isinstance(v, evalt.Agg) and v.d == RES)
        return nat_hook(p)(e, t)
    for e in evs:
        cond = con(e.args)
        if cond.op == 'call':
            cond.meta = 'bool'
            cond = B(atom(cond))
        c.eq(key, cond, B(T), root, '%s requires that %s' % (name, what), pc=e.pc, hook=hook, maxlen=3, rounds=200)


def single(e, t):
    v = e.ev(t)
    return isinstance(v, (int, Fraction))


def valid(xs):
    try:
        bytes(xs).decode('utf-8')
        return True
    except (UnicodeDecodeError, ValueError):
        return False

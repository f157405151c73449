"""M04: compact index storage returns every index that was stored."""
from base import *

K = 3
BIG = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'usize': 64}


def values(c, ty, name, k, depth=0):
    """every shape of a value of the type: all variants of its enums, k symbolic elements in its sequences.
    -> [(label, term, [element syms] or None)]"""
    p = c.p
    if depth > 5:
        raise TooComplex('nested type')
    if ty[0] == 'prim' and ty[1] in BIG:
        return [('', sym('%s.%s' % (ty[1], name)), None)]
    if ty[0] == 'adt' and ty[1].split('::')[-1] == 'Vec':
        el = ty[2][0]
        if el[0] != 'prim' or el[1] not in BIG:
            raise TooComplex('element type %s' % (el,))
        xs = [sym('%s.%s.%d' % (el[1], name, i)) for i in range(k)]
        return [(el[1], mk('agg', 'array', 0, tuple(xs)), xs)]
    a = p.adts.get(ty[1]) if ty[0] == 'adt' else None
    if a is None:
        raise TooComplex('type %s' % (ty,))
    out = []
    for vi, (vn, fields) in enumerate(x[:2] for x in a['v']):
        parts = [[]]
        for j, f in enumerate(fields):
            alts = values(c, p.rt(f[1], ty[2]), '%s%d' % (name, j), k, depth + 1)
            parts = [q + [z] for q in parts for z in alts]
        for q in parts:
            lab = '/'.join(x for x in [z[0] for z in q] if x)
            xs = [z[2] for z in q if z[2] is not None]
            out.append((lab or vn, agg(a['d'], vi, tuple(z[1] for z in q)), xs[0] if len(xs) == 1 else None))
    return out


def hookfor(limit):
    """index symbols take the values around every width"""
    def hook(e, t):
        if t.op == 'sym':
            n = str(t.a[0])
            w = n.split('.')[0]
            if w in BIG:
                w = min(BIG[w], BIG[limit]) if n.startswith('usize.new') else BIG[w]
                vals = [0, 1]
                for b in (8, 16, 32, 64):
                    if b <= w:
                        vals += [(1 << b) - 2, (1 << b) - 1]
                    if b < w:
                        vals += [1 << b, (1 << b) + 1]
                h = int(evalt._h('width', e.seed, e.mode, n)[:10], 16)
                return Fraction(vals[h % len(vals)])
        return None
    return hook


def run(c):
    p = c.p
    types = c.types_with('IsIndexContainer')
    n = 0
    for im, name in types:
        n += 1
        c.guard(name, one, c, name, im)
    c.floor('index containers', n, 2)
    return {'rule': 'for every storage variant of every index container (private enum variants enumerated from their types) and symbolic elements and indices: after set / push / '
                    'ensure_supported / reserve / conversion / upgrade, get answers the value last stored at every position',
            'assumptions': ['the containers of fixed width are only given indices they can represent (documented obligation of the caller)',
                            '%d elements; indices of every magnitude around the 8, 16, 32 and 64 bit limits' % K]}


def one(c, name, im):
    p = c.p
    g = lambda m: c.m(name, 'IsIndexContainer', m)
    ty = p.rt(im['self'])
    shapes = values(c, ty, 'e', K)
    # a type with one shape of a narrower element type cannot widen: fixed width
    widths = {s[0] for s in shapes}
    limit = 'usize' if 'usize' in widths else max(widths, key=lambda w: BIG.get(w, 0))
    kw = dict(hook=hookfor(limit), rounds=250)
    x = sym('usize.new')

    def same(key, after, want, u, what):
        """`after` answers exactly the list `want`"""
        ln = c.val(g('len'), after)
        c.eq(key + '/len', ln, num(len(want)), u, what + ': the number of indices', **kw)
        for j, w in enumerate(want):
            r = c.call(g('get'), after, num(j))
            c.eq('%s/%d' % (key, j), r.ret, w, u, what + ': the index at position %d' % j, **kw)

    def nopanic(key, r, u, what):
        for i, o in enumerate(r.an.oblig):
            if o.kind in ('overflow',):
                continue
            c.holds('%s/no-panic/%d' % (key, i), bor(bnot(o.pc), o.ok), u, what + ': ' + o.desc, **kw)

    for lab, v, xs in shapes:
        if xs is None:
            c.undecided('%s/%s' % (name, lab), 'no sequence of indices in this variant')
            continue
        same('%s/%s/get' % (name, lab), v, xs, g('get'), 'reading')
        for i in range(K):
            r = c.call(g('set'), v, num(i), x)
            same('%s/%s/set%d' % (name, lab, i), r.post(0), [x if j == i else y for j, y in enumerate(xs)], g('set'), 'after set(%d)' % i)
            nopanic('%s/%s/set%d' % (name, lab, i), r, g('set'), 'set of a position that exists')
        r = c.call(g('push'), v, x)
        same('%s/%s/push' % (name, lab), r.post(0), xs + [x], g('push'), 'after push')
        nopanic('%s/%s/push' % (name, lab), r, g('push'), 'push')
        r = c.call(g('ensure_supported'), v, x)
        same('%s/%s/ensure_supported' % (name, lab), r.post(0), xs, g('ensure_supported'), 'after ensure_supported')
        nopanic('%s/%s/ensure_supported' % (name, lab), r, g('ensure_supported'), 'ensure_supported')
        r = c.call(g('reserve'), v, sym('n_k'))
        same('%s/%s/reserve' % (name, lab), r.post(0), xs, g('reserve'), 'after reserve')
        if c.has(name, 'Clone', 'clone'):
            same('%s/%s/clone' % (name, lab), c.val(c.m(name, 'Clone', 'clone'), v), xs, c.m(name, 'Clone', 'clone'), 'clone')
        # iteration
        def iterate(lab=lab, v=v, xs=xs):
            it = c.val(g('iter'), v)
            for j in range(K + 2):
                r = c.call(c.on('IsIndexContainerIterator', 'Iterator', 'next', IC=ty), it)
                it = r.post(0)
                if j < K:
                    c.eq('%s/%s/iter/%d' % (name, lab, j), someval(r.ret), xs[j], g('iter'), 'the index handed out', pc=is_some(r.ret), **kw)
                    c.holds('%s/%s/iter/%d/some' % (name, lab, j), is_some(r.ret), g('iter'), 'iteration goes on', **kw)
                else:
                    c.holds('%s/%s/iter/%d/end' % (name, lab, j), is_none(r.ret), g('iter'), 'iteration ends', **kw)
        c.guard('%s/%s/iter' % (name, lab), iterate)
        # public methods that hand out the stored sequence (by type: -> Option<&Vec<int>> or &Vec<int>)
        for u, b in sorted(p.bodies.items()):
            i2 = p.impl_by_id.get(b.get('impl'))
            if i2 is None or i2.get('tr') or b['argc'] != 1 or p.self_name(i2) != name or not b.get('vis', True):
                continue
            rt = p.rt(b['locals'][0][0])
            opt = rt[0] == 'adt' and rt[1].split('::')[-1] == 'Option'
            t = rt[2][0] if opt else rt
            if t[0] != 'ref' or t[2][0] != 'adt' or t[2][1].split('::')[-1] != 'Vec':
                continue

            def inner(u=u, b=b, opt=opt, lab=lab, v=v, xs=xs):
                r = c.call(u, v)
                q = someval(r.ret) if opt else r.ret
                if q.op == 'ref':
                    q = r.an.deep_read(r.st, q)
                pc = is_some(r.ret) if opt else T
                if pc != F:
                    c.eq('%s/%s/%s' % (name, lab, b['name']), q, mk('agg', 'array', 0, tuple(xs)), u, 'the stored sequence', pc=pc, **kw)
                if t[1]:
                    same('%s/%s/%s/after' % (name, lab, b['name']), r.post(0), xs, u, 'after %s' % b['name'])
            c.guard('%s/%s/%s' % (name, lab, b['name']), inner)

    # construction: default, with_*, conversions from vectors of every width
    def builders():
        for m in ('with_capacity', 'with_support_for', 'with_capacity_and_support_for'):
            u, sub = c.on(name, 'IsIndexContainer', m)
            u = (u, tuple(ty if gn == 'Self' else sb for gn, sb in zip(p.bodies[u]['g'], sub)))
            r = c.call(u, sym('usize.new'), sym('usize.new'))
            same('%s/%s' % (name, m), r.ret, [], u, m)
    c.guard(name + '/builders', builders)

    def conversions():
        for b in sorted(p.bodies.values(), key=lambda b: str(b['d'])):
            i2 = p.impl_by_id.get(b.get('impl'))
            if i2 is None or not (i2.get('tr') or '').endswith('From') or b['name'] != 'from' or p.self_name(i2) != name:
                continue
            t = p.rt(b['locals'][1][0])
            tt = t[2] if t[0] == 'ref' else t
            if tt[0] != 'adt' or tt[1].split('::')[-1] != 'Vec' or tt[2][0][0] != 'prim':
                continue
            el = tt[2][0][1]
            for k in range(K + 1):
                xs = [sym('%s.from.%d' % (el, i)) for i in range(k)]
                key = '%s/from/%s%s/%d' % (name, '&' if t[0] == 'ref' else '', el, k)

                def conv(b=b, xs=xs, key=key):
                    r = c.call(b['d'], mk('agg', 'array', 0, tuple(xs)))
                    same(key, r.ret, xs, b['d'], 'conversion')
                c.guard(key, conv)
    c.guard(name + '/conversions', conversions)

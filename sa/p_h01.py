"""H01: values which compare equal hash identically.

For every hashable type of the crate the value flow of its `eq` and of its `hash` is computed.
Every way two values can compare equal (cube of the equality's condition) is turned into
equations between their components; under these the two sequences of hashed parts have to be the
same term.  Numbers hashed through their bit pattern must have the sign of zero removed, since
0.0 and -0.0 compare equal."""
from base import *


def run(c):
    p = c.p
    n = 0
    for im in p.impls:
        if not (im.get('tr') or '').endswith('hash::Hash') or not im.get('tr', '').startswith('core::'):
            continue
        ty = p.self_name(im)
        n += 1
        c.guard(ty, one, c, ty, dict(im['m']).get('hash'))
    c.floor('hashable types', n, 30)
    return {'rule': 'eq(a,b) implies hash(a) == hash(b): equality cubes as equations, hashed parts identical under them; bit patterns of numbers taken without the sign of zero',
            'assumptions': ['element types of containers and type parameters satisfy the law themselves', 'std implementations of Hash and Eq satisfy the law']}


def unref(t):
    """references to parts of the arguments as the parts"""
    m = {}
    for x in subterms(t):
        if x.op == 'ref' and x.a[0][0] == 'E':
            v = sym(x.a[0][1])
            for k in x.a[1]:
                v = getk(v, k)
            m[x] = v
    return subst(t, m) if m else t


def root(t):
    s = {x.a[0] for x in subterms(t) if x.op == 'sym'}
    return s.pop() if len(s) == 1 else None


def one(c, ty, hu):
    eqs = [(im, u) for im, u in c.p.methods(ty, 'PartialEq', 'eq') if c._targ(im) in (None, ty)]
    if len(eqs) != 1 or hu is None:
        raise Missing('eq / hash of ' + ty)
    eu = eqs[0][1]
    e = c.call(eu, poszero=True)
    E = as_bdd(unref(e.ret))
    h = c.call(hu, None, sym('H'), poszero=True)
    ha = unref(h.post(1))
    hb = subst(ha, {sym('arg0'): sym('arg1')})
    # the sign of zero
    zs = sorted({x for x in subterms(ha) if x.op == 'call' and x.a[0] in ('to_bits', 'to_ne_bytes', 'to_le_bytes', 'to_be_bytes')}, key=show)
    for x in zs:
        key = '%s/zero sign of %s' % (ty, show(x)[:60])
        if signless(x.a[1][0], T):
            c.good(key)
        else:
            c.fail(key, '0.0 and -0.0 compare equal but are hashed by their different bit patterns', hu, {'hashed': show(x)})
    cubes = bcubes(E)
    for i, cube in enumerate(cubes):
        key = '%s/equal values hash equally%s' % (ty, '#%d' % i if len(cubes) > 1 else '')
        m, pc, left = {}, T, []
        discr = False
        for v, pos in cube:
            a = atom_of(v)
            if a.op == 'isv':
                pc = band(pc, atom(a) if pos else bnot(atom(a)))
            pr = equation(a) if pos else None
            if pr:
                x, y = pr
                if x.op == 'discr':
                    discr = True
                m[y] = x
        if discr:
            pc = band(pc, as_bdd(subst(B(pc), {sym('arg0'): sym('arg1')})))
        va, vb = restrict(ha, pc), restrict(hb, pc)
        vb = subst(vb, m)
        va = restrict(va, pc)
        if va is vb:
            c.good(key)
            continue
        c.eq(key, va, vb, hu, 'two values that compare equal are hashed differently', pc=E)
    if not cubes:
        c.good('%s/never equal' % ty)


def equation(a):
    """(term of arg0, term of arg1) which the atom makes equal"""
    if a.op == 'eq0' or a.op == 'eq':
        q = a.a[0]
        d = poly_of(q)
        items = list(d.items()) if isinstance(d, dict) else list(d)
        if len(items) == 2 and all(len(mo) == 1 and mo[0][1] == 1 for mo, _ in items) and items[0][1] == -items[1][1]:
            x, y = items[0][0][0][0], items[1][0][0][0]
            return order(x, y)
    if a.op == 'call' and a.a[0] in ('eq', 'PartialEq::eq') and len(a.a[1]) == 2:
        return order(*a.a[1])
    return None


def order(x, y):
    rx, ry = root(x), root(y)
    if rx == 'arg0' and ry == 'arg1':
        return x, y
    if rx == 'arg1' and ry == 'arg0':
        return y, x
    return None


def signless(v, pc):
    if v.op == 'gam':
        return all(band(pc, cc) == F or signless(x, band(pc, cc)) for cc, x in v.a[0])
    if const_val(v) is not None:
        return True
    if v.op == 'call' and v.a[0] == 'poszero':
        return True
    if v.op in ('abs', 'sqrt'):
        return v.op == 'abs'
    z = as_bdd(cmp('eq', v, num(0), True))
    return band(pc, z) == F

"""M02: a refused edit leaves its target unchanged.

For every in-memory operation that takes `&mut self` and reports its outcome the value flow is
computed; under the condition that it reports failure the value behind `self` afterwards has to
be the value it had before the call."""
from base import *

from engine import OPT, RES


def run(c):
    p = c.p
    n = 0
    for u, b in sorted(p.bodies.items()):
        if not edits(p, b):
            continue
        n += 1
        c.guard(p.label(u), one, c, u, b)
    c.floor('fallible edits', n, 30)
    return {'rule': 'every function with `&mut self` returning Option/Result (readers, formatting and iterators aside): failure reported implies the value behind self is unchanged',
            'assumptions': ['operations of type parameters obey the same law']}


def edits(p, b):
    if b['kind'] == 'closure' or not b['argc'] or '/io/' in b['sp'][0]:
        return False
    t = p.rt(b['locals'][0][0])
    if t[0] != 'adt' or t[1] not in (OPT, RES):
        return False
    s = p.rt(b['locals'][1][0])
    if s[0] != 'ref' or not s[1]:
        return False
    if b['name'] in ('next', 'next_back', 'fmt'):
        return False
    # a loan into the object is not an edit
    if any(x[0] == 'ref' for x in t[2] if isinstance(x, tuple)):
        return False
    return True


def one(c, u, b):
    p = c.p
    r = c.call(u)
    t = p.rt(b['locals'][0][0])
    bad = is_err(r.ret) if t[1] == RES else is_none(r.ret)
    key = p.label(u)
    post, pre = restrict(r.post(0), bad), sym('arg0')
    # operations of type parameters obey the law themselves: what an editing call that reports
    # failure was applied to is what it was
    m = {}
    for x in subterms(post):
        if x.op == 'post' and x.a[0].op == 'call' and p_ret(c, x.a[0]) == RES and x.a[1] == 0:
            m[x] = gam([(bnot(is_err(x.a[0])), x), (is_err(x.a[0]), x.a[0].a[1][0])])
    if m:
        post = restrict(subst(post, m), bad)
    c.eq(key, post, pre, u, 'an error is reported but the object was changed', pc=bad, hook=lawful(c))


def p_ret(c, t):
    """type constructor an uninterpreted operation of a trait of the crate returns"""
    tr, _, n = str(t.a[0]).partition('::')
    td = c.p.trait_by_name.get(tr)
    if td is None:
        return None
    for m, u, d in c.p.traits[td]['m']:
        if m == n:
            b = c.p.bodies.get(u) if d else None
            if b:
                return c.p.rt(b['locals'][0][0])[1]
            for v in c.p.method_impls.get((td, n), []):
                if v in c.p.bodies:
                    rt = c.p.rt(c.p.bodies[v]['locals'][0][0])
                    return rt[1] if rt[0] == 'adt' else None
    return None


def lawful(c):
    """a position answers exactly the dimensions it has (A01)"""
    nat = nat_hook(c.p)

    def hook(e, t):
        if t.op == 'call' and t.a[0] == 'IsND::n_dimensions':
            return Fraction(2 + e.seed % 2)
        if t.op == 'call' and t.a[0] == 'IsND::position_nd':
            n, k = e.seed % 2 + 2, e.number(e.ev(t.a[1][1]))
            if not 0 <= k < n:
                return evalt.Agg(OPT, 0, [])
            return evalt.Agg(OPT, 1, [e.ev(mk('call', 'coordinate', t.a[1]))])
        return nat(e, t)
    return hook

"""F01: filter combinators are the logic they are named after."""
from base import *

ALLOW = 'IsFilter::is_allowed'


def acc(f, x):
    return atom(boolcall(ALLOW, f, x))


def boolcall(name, *a):
    t = mk('call', name, tuple(a))
    if t.meta is None:
        t.meta = 'bool'
    return t


def binary(c, ty, fn):
    new, al = c.m(ty, '', 'new'), c.m(ty, 'IsFilter', 'is_allowed')
    f1, f2, x = sym('filter1'), sym('filter2'), sym('element')
    r = c.call(al, c.val(new, f1, f2), x)
    c.eq(ty, r.ret, B(fn(acc(f1, x), acc(f2, x))), al, 'is_allowed of a combination of two filters')
    c.eq(ty + '/always-answers', B(r.pc), B(T), al, 'is_allowed returns for every element')


def run(c):
    x = sym('element')
    for ty, fn in (('FilterAND', band), ('FilterOR', bor), ('FilterXOR', bxor), ('FilterOuterInner', lambda a, b: band(a, bnot(b)))):
        c.guard(ty, binary, c, ty, fn)

    def neg():
        al = c.m('FilterNegate', 'IsFilter', 'is_allowed')
        f = sym('filter')
        r = c.call(al, c.val(c.m('FilterNegate', '', 'new'), f), x)
        c.eq('FilterNegate', r.ret, B(bnot(acc(f, x))), al, 'negation')
    c.guard('FilterNegate', neg)

    def const(ty, v):
        al = c.m(ty, 'IsFilter', 'is_allowed')
        r = c.call(al, c.val(c.m(ty, '', 'new')), x)
        c.eq(ty, r.ret, B(v), al, 'constant filter')
    c.guard('FilterAllow', const, 'FilterAllow', T)
    c.guard('FilterDeny', const, 'FilterDeny', F)

    def nary(ty, neg):
        al = c.m(ty, 'IsFilter', 'is_allowed')
        fs = sym('filters')
        r = c.call(al, c.set(c.val(c.m(ty, '', 'new')), ty, 'filters', fs), x)
        b = mk('bv', 'k')
        a = acc(mk('sel', fs, b), x)
        e = atom(mk('exists', engine.length(fs), b, B(bnot(a) if neg else a)))
        want = B(bnot(e) if neg else e)
        c.eq(ty, r.ret, want, al, 'combination of any number of filters', maxlen=4)
        for n in range(5):
            v = mk('agg', 'array', 0, tuple(sym('f%d' % i) for i in range(n)))
            rr = c.call(al, c.set(c.val(c.m(ty, '', 'new')), ty, 'filters', v), x)
            w = T if neg else F
            for y in v.a[2]:
                w = band(w, acc(y, x)) if neg else bor(w, acc(y, x))
            c.eq('%s/%d' % (ty, n), rr.ret, B(w), al, 'combination of %d filters' % n)
    c.guard('FilterAll', nary, 'FilterAll', True)
    c.guard('FilterAny', nary, 'FilterAny', False)
    def rand(ty, every):
        u = c.m(ty, 'IsFilterRandomAccessible', 'filter')
        fs, ra, view = sym('filters'), sym('data'), sym('view')
        r = c.call(u, c.struct(ty, 'f', filters=fs), ra, view)
        post = r.post(2)
        nat = nat_hook(c.p)

        def chosen(e, v):
            if isinstance(v, evalt.Agg):
                return e.toset(v.ch[0]) if v.ch else evalt.SetV({evalt.key(Fraction(i)): Fraction(i) for i in range(evalt.SETUNI)})
            return e.toset(v)

        def hook(e, t):
            # a component filter keeps those named elements it accepts (its own contract)
            if t is view:
                return evalt.Agg('view', 1, [e.toset(evalt.Tok('v%d' % e.seed))]) if e.seed % 3 else evalt.Agg('view', 0, [])
            if t.op == 'post' and t.a[0].op == 'call' and str(t.a[0].a[0]).endswith('IsFilterRandomAccessible::filter'):
                a = t.a[0].a[1]
                f, v = e.ev(a[0]), chosen(e, e.ev(a[2]))
                acc = e.toset(evalt.Tok(evalt._h('accepts', e.seed, evalt.key(f))))
                return evalt.Agg('view', 1, [evalt.SetV({k: x for k, x in v.m.items() if k in acc.m})])
            if t.op == 'call' and t.a[0] == 'CHOSEN':
                return chosen(e, e.ev(t.a[1][0]))
            if t.op == 'call' and t.a[0] == 'WANT':
                v, n = chosen(e, e.ev(view)), e.length(e.ev(fs))
                accs = [e.toset(evalt.Tok(evalt._h('accepts', e.seed, evalt.key(e.index(e.ev(fs), Fraction(i)))))) for i in range(n)]
                q = all if every else any
                return evalt.SetV({k: x for k, x in v.m.items() if q(k in s.m for s in accs)})
            return nat(e, t)
        c.eq(ty, mk('call', 'CHOSEN', (post,)), mk('call', 'WANT', ()), u, 'elements named by the view after filtering', hook=hook)
    c.guard('FilterAllRandomAccessible', rand, 'FilterAllRandomAccessible', True)
    c.guard('FilterAnyRandomAccessible', rand, 'FilterAnyRandomAccessible', False)
    return {'rule': 'For every combinator the value-flow normal form of is_allowed(new(f..), x) over the components\' uninterpreted answers '
            'must be the named Boolean function (BDD identity; quantifier over the component list for the n-ary ones).'}

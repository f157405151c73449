"""F03: views select exactly the chosen elements in every collection type."""
from base import *
import p_a02
from p_a08 import rootseq


def chosen(e, v, n=None):
    """the elements a view names (of a collection of n elements)"""
    if isinstance(v, evalt.Agg) and not v.ch:
        return set(range(evalt.SETUNI if n is None else n))
    s = e.toset(v.ch[0] if isinstance(v, evalt.Agg) else v)
    r = set(int(e.number(x)) for x in s.m.values())
    return r if n is None else r


def names(e, s):
    return evalt.SetV({evalt.key(Fraction(i)): Fraction(i) for i in s})


def view_hook(views, more=None):
    def hook(e, t):
        if t.op == 'sym' and t in views:
            k = evalt._h('view', e.seed, t.a[0])
            if int(k[:4], 16) % 4 == 0:
                return evalt.Agg('View', 0, [])
            # no, some or all elements of a range around the length of the collection
            u = list(e.universe())
            u = u[:int(k[4:8], 16) % (len(u) + 1)]
            return evalt.Agg('View', 1, [names(e, [i for i in u if int(evalt._h('in', k, i)[:4], 16) % 3])])
        if more:
            return more(e, t)
        return None
    return hook


def run(c):
    c.guard('union', union, c)
    c.guard('filter', filt, c)
    n = 0
    for im, ty in c.types_with('IsViewBuildable'):
        n += 1
        c.guard(ty + '.apply_view', apply, c, ty, im)
    c.floor('collections a view applies to', n, 5)
    return {'rule': 'Normal forms of View::union, FilterRandomAccessible::filter and every apply_view/from_view, with the view a symbolic set of indices: '
            'the elements named afterwards must be the union / those of the incoming view the filter accepts; the collection afterwards must be the named '
            'elements in order, unchanged with an error when a named element does not exist.'}


def union(c):
    u = c.m('View', '', 'union')
    a, b = sym('a'), sym('b')
    r = c.call(u, a, b)

    def more(e, t):
        if t.op == 'call' and t.a[0] == 'CHOSEN':
            return names(e, chosen(e, e.ev(t.a[1][0])))
        if t.op == 'call' and t.a[0] == 'FULL':
            v = e.ev(t.a[1][0])
            return Fraction(1 if not v.ch else 0)
        if t.op == 'call' and t.a[0] == 'ANYFULL':
            return Fraction(1 if any(not e.ev(x).ch for x in t.a[1]) else 0)
        if t.op == 'call' and t.a[0] == 'UNION':
            return names(e, chosen(e, e.ev(a)) | chosen(e, e.ev(b)))
        return None
    h = view_hook((a, b), more)
    c.eq('View.union', mk('call', 'CHOSEN', (r.post(0),)), mk('call', 'UNION', ()), u, 'exactly the elements named by either view', hook=h)
    c.eq('View.union.full', mk('call', 'FULL', (r.post(0),)), mk('call', 'ANYFULL', (a, b)), u, 'full exactly when one of the views is', hook=h)


def filt(c):
    u = c.m('FilterRandomAccessible', 'IsFilterRandomAccessible', 'filter')
    new = c.m('FilterRandomAccessible', '', 'new')
    f, ra, view = sym('f'), sym('ra'), sym('view')
    r = c.call(u, c.val(new, f), ra, view)
    LEN, AT, OK = 'IsRandomAccessible::len', 'Index::index', 'IsFilter::is_allowed'

    def n(e):
        return int(e.number(e.ev(calls(LEN, ra))))

    def more(e, t):
        if t.op == 'call' and str(t.a[0]) == LEN:
            return Fraction(e.seed % 5)
        if t.op == 'call' and t.a[0] == 'CHOSEN':
            return names(e, chosen(e, e.ev(t.a[1][0]), n(e)) & set(range(n(e))))
        if t.op == 'call' and t.a[0] == 'WANT':
            return names(e, [i for i in chosen(e, e.ev(view), n(e)) if i < n(e)
                             and e.boolean(e.ev(calls(OK, f, calls(AT, ra, num(i)))))])
        return None
    c.eq('FilterRandomAccessible.filter', mk('call', 'CHOSEN', (r.post(2),)), mk('call', 'WANT', ()), u,
         'exactly the elements of the incoming view the filter accepts', hook=view_hook((view,), more))
    c.eq('FilterRandomAccessible.always', B(r.pc), B(T), u, 'filtering always succeeds')


def apply(c, ty, im):
    view, s = sym('view'), sym('self')
    pt = 'Point2D' if '2D' in ty else 'Point3D'
    ps = {'P': c.ty(pt)}
    ua, uf = c.on(ty, 'IsViewBuildable', 'apply_view', **ps), c.on(ty, 'IsViewBuildable', 'from_view', **ps)
    st = c.p.rt(im['self'], ua[1])
    d = s if ty in p_a02.SEQ else rootseq(c, ty, ua[0], ua[1], 'IsViewBuildable')

    def fits(e):
        m = e.length(e.ev(d))
        v = e.ev(view)
        return not v.ch or max(chosen(e, v), default=-1) < m, m, v

    def more(e, t):
        if t.op == 'call' and t.a[0] == 'FITS':
            return fits(e)[0]
        if t.op == 'call' and t.a[0] == 'WANT':
            ok, m, v = fits(e)
            x = e.toseq(e.ev(d))
            w = chosen(e, v) if v.ch else ()
            return x if not ok or not v.ch else evalt.Seq([x.xs[i] for i in range(m) if i in w])
        if t.op == 'call' and t.a[0] == 'SEQ':
            return e.toseq(e.ev(t.a[1][0]))
        return None
    h = view_hook((view,), more)
    fit = mk('call', 'FITS', ())
    fit.meta = 'bool'
    fit = atom(fit)
    want = p_a02.wrap(c, s, st, mk('call', 'WANT', ()))
    r = c.call(ua, s, view)
    c.eq(ty + '.apply_view.ok', B(is_ok(r.ret)), B(fit), ua, 'accepted exactly when every named element exists', hook=h, maxlen=4)
    post = r.post(0)
    same(c, ty + '.apply_view', post, st, s, ua, h, 'exactly the named elements, in order; unchanged when refused', T)
    r = c.call(uf, s, view)
    c.eq(ty + '.from_view.some', B(is_some(r.ret)), B(fit), uf, 'an answer exactly when every named element exists', hook=h, maxlen=4)
    same(c, ty + '.from_view', someval(r.ret), st, s, uf, h, 'exactly the named elements, in order', fit)
    c.eq(ty + '.from_view.self', r.post(0), s, uf, 'the original is not changed', hook=h, maxlen=4)


def same(c, key, got, st, s, u, h, what, pc):
    name = c.p.type_name(st)
    if name in p_a02.SEQ:
        c.eq(key, mk('call', 'SEQ', (got,)), mk('call', 'WANT', ()), u, what, pc=pc, hook=h, maxlen=4)
        return
    a = c.p.adts.get(st[1]) if st[0] == 'adt' else None
    g = [x for x in a['g'] if not x.startswith("'")]
    sub_ = tuple(st[2][i] if i < len(st[2]) else None for i in range(len(g)))
    for i, (n, ft, pub) in enumerate(a['v'][0][1]):
        same_or_eq(c, '%s.%s' % (key, n), getk(got, ('f', i)), c.p.rt(ft, sub_), getk(s, ('f', i)), u, h, what, pc)


def same_or_eq(c, key, got, st, s, u, h, what, pc):
    if c.p.type_name(st) in p_a02.SEQ:
        same(c, key, got, st, s, u, h, what, pc)
    else:
        c.eq(key, got, s, u, 'unchanged', pc=pc, hook=h, maxlen=4)

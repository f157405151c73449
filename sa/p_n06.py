"""N06: nearest-neighbour queries return the nearest elements, nearest first."""
from base import *
import trees
from trees import *
from p_t01 import roles, nonempty
from p_t02 import entry, traits_of


def run(c):
    n = 0
    for im, ty in c.types_with('IsKNearestSearchable'):
        n += 1
        c.guard(ty, knearest, c, ty)
    c.floor('nearest-neighbour searches', n, 1)
    return {'rule': 'one level of the recursive search on one level of the tree as its builder makes it, the recursive calls standing for "the n nearest among the '
                    'candidates so far and the elements of the subtree, nearest first" (which is also what the level itself has to deliver)'}


def knearest(c, ty):
    p = c.p
    ub, uk, u1 = c.m(ty, 'IsTree3D', 'build'), c.m(ty, 'IsKNearestSearchable', 'knearest'), c.m(ty, 'IsKNearestSearchable', 'nearest')
    t = trees.Tree(c, ub)
    node, pc = t.built()
    inp = t.input()
    G = entry(c, uk)
    b = p.bodies[G]
    i, acc = roles(c, t, G), mutarg(p, G)
    num = [j for j in range(b['argc']) if p.rt(b['locals'][j + 1][0])[0] == 'prim']
    rest = [j for j in range(b['argc']) if j not in (i, acc) and j not in num]
    if len(num) != 1 or len(rest) != 1:
        raise Missing('arguments of ' + p.label(G))
    q, n, old = sym('query'), sym('n_wanted'), sym('old')
    pre = mk('call', 'PRE', (old, n))
    s = sym('element')
    dist = c.val(c.f('sqr_dist_3d'), q, s)

    def d(e, x):
        return e.number(e.binder(s, x).ev(dist))

    def first(e, xs, k):
        return sorted(xs, key=lambda x: d(e, x))[:int(k)]

    def ih(e, args, post, k):
        v, k = args[i], e.number(args[num[0]])
        if not isinstance(v, Sub) or not post:
            return None
        cur = e.toseq(args[acc]).xs
        if k < 1 or len(cur) > k or [d(e, x) for x in cur] != sorted(d(e, x) for x in cur):
            return evalt.Tok('precondition of the recursive search')
        return evalt.Seq(first(e, cur + list(v.xs), k))
    t.ih[c.opname(G)] = ih

    def more(e, y):
        if y.op != 'call':
            return None
        f, a = y.a
        if f == 'PRE':
            return evalt.Seq(first(e, e.toseq(e.ev(a[0])).xs, e.number(e.ev(a[1]))))
        if f == 'NEAREST':
            return evalt.Seq([d(e, x) for x in first(e, sum((e.toseq(e.ev(y)).xs for y in a[1:]), []), e.number(e.ev(a[0])))])
        if f == 'FOUND':
            r = e.ev(a[0])
            if not isinstance(r, evalt.Seq):
                return r
            ks = {evalt.key(x) for z in a[1:] for x in e.toseq(e.ev(z)).xs}
            g = [evalt.key(x) for x in r.xs]
            if len(set(g)) != len(g) or not set(g) <= ks:
                return evalt.Tok('something that was not stored, or twice the same')
            return evalt.Seq([d(e, x) for x in r.xs])
        return None
    h = t.hook(more)

    def assume(e):
        return nonempty(inp)(e) and e.number(e.ev(n)) >= 1 and distinct(e, inp, old)
    args = [node if j == i else pre if j == acc else n if j == num[0] else q for j in range(b['argc'])]
    r = c.call(G, *args)
    c.eq(ty + '.knearest.level', mk('call', 'FOUND', (r.post(acc), inp, pre)), mk('call', 'NEAREST', (n, inp, pre)), G,
         'the n nearest of the candidates so far and the elements of this subtree, nearest first', pc=pc, hook=h, assume=assume, maxlen=4, rounds=600)
    rb = c.call(ub, sym('self'), sym('cloud'), noinline=(t.B,))
    ok = is_ok(rb.ret)
    tree = restrict(rb.post(0), ok)
    data = getk(sym('cloud'), ('f', 0))
    bk = p.bodies[uk]
    ak = mutarg(p, uk)
    nk = [j for j in range(bk['argc']) if p.rt(bk['locals'][j + 1][0])[0] == 'prim'][0]
    r = c.call(uk, *[tree if j == 0 else EMPTY if j == ak else n if j == nk else q for j in range(bk['argc'])], noinline=(G,))

    def assume(e):
        return distinct(e, data)
    c.eq(ty + '.knearest', mk('call', 'FOUND', (r.post(ak), data)), mk('call', 'NEAREST', (n, data)), uk,
         'the n nearest elements (all when there are fewer), nearest first', pc=ok, hook=h, assume=assume, maxlen=4, rounds=600)
    one = c.val(u1, tree, q, noinline=(G,))
    c.eq(ty + '.nearest', ite(is_some(one), mk('call', 'FOUND', (seq1(someval(one)), data)), EMPTY), mk('call', 'NEAREST', (num_t(1), data)), u1,
         'an element than which none is nearer', pc=ok, hook=h, assume=assume, maxlen=4, rounds=600)


def seq1(x):
    return agg('array', 0, (x,))


def num_t(k):
    return num(k)


def distinct(e, *ts):
    ks = [evalt.key(x) for t in ts for x in e.toseq(e.ev(t)).xs]
    return len(set(ks)) == len(ks)

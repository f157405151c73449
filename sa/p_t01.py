"""T01: search trees keep every element they are built from."""
from base import *
import trees
from trees import *


def run(c):
    n = 0
    for im, ty in c.types_with('IsTree3D'):
        n += 1
        c.guard(ty, tree, c, ty)
    c.floor('trees of positions', n, 2)
    for ty in ('AABBTree2D', 'AABBTree3D'):
        c.guard(ty, boxes, c, ty)
    return {'rule': 'one level of each recursive build with its recursive calls standing for the subtrees of their arguments: the elements held are those given '
                    '(any coordinates, any length); counting and listing one level with the recursive calls standing for the count / elements of the subtree'}


def HELD(t, v, inp, once):
    """terms: elements held by v, elements of the input (distinct or with repetitions)"""
    held, want = mk('call', 'HELD', (v, inp)), mk('call', 'INPUT', (inp,))

    def more(e, q):
        if q.op == 'call' and q.a[0] in ('HELD', 'INPUT'):
            xs = [evalt.key(x) for x in e.toseq(e.ev(q.a[1][-1])).xs]
            if q.a[0] == 'HELD':
                xs = elements(e.ev(q.a[1][0]), set(xs), e.ev(q.a[1][1]))
            return bag(xs if once else set(xs))
        if q.op == 'call' and q.a[0] == 'COUNT':
            return Fraction(len(set(evalt.key(x) for x in e.toseq(e.ev(q.a[1][0])).xs)))
        return None
    return held, want, more


def nonempty(t):
    return lambda e: e.length(e.ev(t)) >= 1


def tree(c, ty):
    p = c.p
    ps = {'P': c.ty('Point3D')}
    ub, us, ul = c.m(ty, 'IsTree3D', 'build'), c.m(ty, 'IsTree3D', 'size'), c.m(ty, 'IsTree3D', 'to_pointcloud')
    t = trees.Tree(c, ub)
    node, pc = t.built()
    inp = t.input()
    lab = p.label(t.B)
    held, want, more = HELD(t, node, inp, True)
    c.eq(ty + '.build.level', held, want, t.B, 'every element given is in some branch or leaf, exactly once', pc=pc, hook=t.hook(more), maxlen=5, assume=nonempty(inp), rounds=400)
    # counting
    for what, pub, kind in (('size', us, 'count'), ('to_pointcloud', ul, 'list')):
        es = sorted(entries(p, pub))
        if len(es) != 1:
            raise Missing('recursive function behind %s.%s: %d candidates' % (ty, what, len(es)))
        G = es[0]
        fix = consts(c, pub, G)
        level(c, t, '%s.%s.level' % (ty, what), G, kind, node, inp, pc, fix)
        t.ih[c.opname(G)] = hypothesis(c, t, G, kind)
        # through the public interface
        s, cloud = sym('self'), sym('cloud')
        r = c.call(ub, s, cloud, noinline=(t.B,))
        ok = is_ok(r.ret)
        r2 = c.call(pub, restrict(r.post(0), ok), noinline=(G,))
        data = getk(cloud, ('f', 0))
        if what == 'size':
            h, w, m = r2.ret, mk('call', 'COUNT', (data,)), HELD(t, r2.ret, data, False)[2]
        else:
            h, w, m = HELD(t, r2.ret, data, False)
        c.eq('%s.%s' % (ty, what), h, w, pub, 'what the tree reports after being built is what it was built from', pc=ok, hook=t.hook(m), maxlen=5, rounds=400)


def consts(c, pub, G):
    """arguments of G that are the same constant in the call from the public function"""
    r = c.call(pub, noinline=(G,))
    n = c.opname(G)
    qs = [x.a[0] if x.op == 'post' else x for x in subterms(r.ret) if (x.op == 'call' and x.a[0] == n) or (x.op == 'post' and x.a[0].op == 'call' and x.a[0].a[0] == n)]
    if not qs:
        raise Missing('call of %s' % n)
    out = {}
    for i in range(len(qs[0].a[1])):
        vs = {q.a[1][i] for q in qs}
        if len(vs) == 1 and const_val(qs[0].a[1][i]) is not None:
            out[i] = qs[0].a[1][i]
    return out


def roles(c, t, G):
    """index of the tree argument"""
    p = c.p
    b = p.bodies[G]
    rb = p.rt(p.bodies[t.B]['locals'][0][0])
    names = set()

    def adts(x):
        if isinstance(x, tuple):
            if x and x[0] == 'adt':
                names.add(x[1])
            for y in x:
                adts(y)
    adts(rb)
    names -= {RES, OPT}
    for i in range(b['argc']):
        ty = p.rt(b['locals'][i + 1][0])
        while ty[0] == 'ref':
            ty = ty[2]
        if ty[0] == 'adt' and ty[1] in names:
            return i
    raise Missing('tree argument of ' + p.label(G))


def hypothesis(c, t, G, kind):
    i = roles(c, t, G)

    def count(e, args, post, k):
        x = args[i]
        return Fraction(len(x.xs)) if isinstance(x, Sub) and not post else None

    def lst(e, args, post, k):
        x = args[i]
        if not isinstance(x, Sub) or not post:
            return None
        a = args[mutarg(c.p, G, k)]
        return appended(e, a, x.xs)
    return count if kind == 'count' else lst


def appended(e, a, xs):
    """a container (a sequence or a structure around one) with elements added"""
    if isinstance(a, evalt.Seq):
        return evalt.Seq(a.xs + list(xs))
    if isinstance(a, evalt.Agg) and len(a.ch) >= 1:
        return evalt.Agg(a.d, a.v, [appended(e, a.ch[0], xs)] + list(a.ch[1:]))
    if isinstance(a, evalt.Tok):
        raise evalt.Unsupported('container')
    raise evalt.Unsupported('container %r' % (a,))


def level(c, t, key, G, kind, node, inp, pc, fix):
    """one level of a counting / listing function; scalar arguments the recursion changes are arbitrary"""
    p = c.p
    b = p.bodies[G]
    i = roles(c, t, G)
    n = c.opname(G)
    acc = mutarg(p, G)
    fix = dict(fix)
    for attempt in range(8):
        args = []
        for j in range(b['argc']):
            if j == i:
                args.append(node)
            elif j == acc:
                args.append(container(c, p.rt(b['locals'][j + 1][0])))
            else:
                args.append(fix.get(j, sym('n_%d' % j)))
        r = c.call(G, *args)
        out = r.ret if kind == 'count' else r.post(acc)
        ch = False
        for x in subterms(out):
            q = x.a[0] if x.op == 'post' else x
            if isinstance(q, Term) and q.op == 'call' and q.a[0] == n:
                for j in list(fix):
                    if q.a[1][j] is not fix[j]:
                        del fix[j]
                        ch = True
        if not ch:
            break
    t.ih[n] = hypothesis(c, t, G, kind)
    held, want, more = HELD(t, out, inp, True)
    if kind == 'count':
        held = out
        want = mk('call', 'LEN', (inp,))

        def more(e, q):
            if q.op == 'call' and q.a[0] == 'LEN':
                return Fraction(e.length(e.ev(q.a[1][0])))
            return None
    c.eq(key, held, want, G, 'every element of the node and of its subtrees, exactly once', pc=pc, hook=t.hook(more), maxlen=5, assume=nonempty(inp), rounds=400)


def container(c, t):
    while t[0] == 'ref':
        t = t[2]
    if c.p.type_name(t) in ('Vec', 'VecDeque', 'LinkedList'):
        return EMPTY
    return c.val(c.m(c.p.type_name(t), '', 'new'))


def boxes(c, ty):
    un = c.m(ty, '', 'new')
    t = trees.Tree(c, un)
    node, pc = t.built()
    inp = t.input()
    held, want, more = HELD(t, node, inp, False)
    c.eq(ty + '.build.level', held, want, t.B, 'every element given is in some branch or leaf', pc=pc, hook=t.hook(boxed(c, ty, more)), maxlen=4, rounds=400)
    r = c.call(un, noinline=(t.B,))
    d = sym('arg%d' % t.seqarg(un)) if t.seqarg(un) is not None else None
    held, want, more = HELD(t, r.ret, d, False)
    c.eq(ty + '.new', held, want, un, 'the tree is built from all elements given', pc=r.pc, hook=t.hook(more), maxlen=5, rounds=400)


def boxed(c, ty, more, query=None):
    """elements report proper bounding boxes (A03): built by the constructor from corners min < max"""
    n = '3D' if '3D' in ty else '2D'
    ax = AX[:3 if n == '3D' else 2]
    pt, bb = 'Point' + n, 'BoundingBox' + n
    mk_ = lambda s: c.struct(pt, s)
    r = c.call(c.on(bb, '', 'new', P=c.ty(pt), P1=c.ty(pt), P2=c.ty(pt)), mk_('lo'), mk_('hi'))
    term = okval(r.ret)
    name = 'HasBoundingBox%s::bounding_box' % n

    def hook(e, t):
        if t is query or (t.op == 'call' and t.a[0] == name):
            k = 'query' if t is query else evalt.key(e.ev(t.a[1][0]))
            bs, vs = [], []
            for a in ax:
                lo = e.number(evalt.Tok(evalt._h('lo', k, a)))
                bs += [sym('lo.' + a), sym('hi.' + a)]
                vs += [lo, lo + 1 + abs(e.number(evalt.Tok(evalt._h('ex', k, a))))]
            return e.binder(bs, vs).ev(term)
        return more(e, t)
    return hook

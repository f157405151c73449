"""Search trees by induction over their recursion.

The functions that build, count, list and query a tree are recursive.  Each is analysed once with
its recursive calls left uninterpreted; in the valuations that compare its normal form with the
required one such a call stands for what the function is required to do on the smaller tree
(induction hypothesis).  A subtree is represented by the elements it was built from."""
import functools
from base import *
from engine import OPT, RES, sel
import faults
EMPTY = agg('array', 0, ())


class Sub:
    """value of a subtree: the elements it was built from"""
    __slots__ = ('xs', 'args')

    def __init__(self, xs, args=()):
        self.xs, self.args = xs, args

    def __repr__(self):
        return 'Sub%r' % (self.xs,)

    __str__ = lambda self: evalt._h('sub', *[evalt.key(x) for x in self.xs])


def callees(p, u):
    out = set()
    for blk, fn, bl in faults.body_calls(p, p.bodies[u]):
        if fn.get('tr') in p.traits and fn.get('rk') != 'item':
            continue
        out |= faults.targets(p, fn)
    for v, b in p.bodies.items():
        if b.get('kind') == 'closure' and b.get('parent') == u:
            out.add(v)
    return {x for x in out if x in p.bodies}


_rec = {}


def reach(p, u):
    if u not in _rec:
        seen, st = set(), [u]
        while st:
            for y in callees(p, st.pop()):
                if y not in seen:
                    seen.add(y)
                    st.append(y)
        _rec[u] = seen
    return _rec[u]


def recursive(p, u):
    return u in reach(p, u)


def entries(p, u):
    """the recursive functions entered first from u"""
    out, seen, st = set(), {u}, [u]
    if recursive(p, u):
        return {u}
    while st:
        for y in callees(p, st.pop()):
            if y in seen:
                continue
            seen.add(y)
            if recursive(p, y):
                out.add(y)
            else:
                st.append(y)
    return out


def uid(x):
    return x[0] if isinstance(x, tuple) else x


class Tree:
    def __init__(self, c, build):
        """build: uid of a function through which the tree is built"""
        self.c, self.p = c, c.p
        p = c.p
        es = [u for u in entries(p, uid(build)) if self.seqarg(u) is not None]
        if len(es) != 1:
            raise Missing('recursive function building the tree: %d candidates from %s' % (len(es), p.label(uid(build))))
        self.B = es[0]
        self.k = self.seqarg(self.B)
        self.nb = c.opname(self.B)
        self.ih = {}
        self.comparators = {}
        self.nat = nat_hook(p)

    def seqarg(self, u):
        b = self.p.bodies[u]
        for i in range(b['argc']):
            t = self.p.rt(b['locals'][i + 1][0])
            if t[0] == 'adt' and t[1].split('::')[-1] in ('Vec', 'VecDeque', 'LinkedList'):
                return i
        return None

    def built(self, **o):
        """one level of the tree built from a symbolic sequence of elements, and the condition"""
        b = self.p.bodies[self.B]
        args = [sym('n_%d' % i) if self.p.rt(b['locals'][i + 1][0])[0] == 'prim' else sym('arg%d' % i) for i in range(b['argc'])]
        r = self.c.call(self.B, *args, **o)
        t = self.p.rt(self.p.bodies[self.B]['locals'][0][0])
        pc = r.pc
        v = r.ret
        if t[0] == 'adt' and t[1] == RES:
            ok = is_ok(v)
            pc = band(pc, ok)
            v = okval(v)
        return v, pc

    def input(self):
        return sym('arg%d' % self.k)

    # ------------------------------------------------------------ valuations
    def hook(self, more=None):
        def hook(e, t):
            if t.op in ('call', 'post'):
                q = t if t.op == 'call' else t.a[0]
                if isinstance(q, Term) and q.op == 'call':
                    n = q.a[0]
                    if n == self.nb and t.op == 'call':
                        args = [e.ev(x) for x in q.a[1]]
                        s = Sub(e.toseq(args[self.k]).xs, args)
                        rt = self.p.rt(self.p.bodies[self.B]['locals'][0][0])
                        return evalt.Agg(RES, 0, [s]) if rt[0] == 'adt' and rt[1] == RES else s
                    if n in self.ih:
                        r = self.ih[n](e, [e.ev(x) for x in q.a[1]], t.op == 'post', t.a[1] if t.op == 'post' else None)
                        if r is not None:
                            return r
                    if n in ('sort_by', 'sort_unstable_by') and t.op == 'call':
                        return self.sort(e, q)
            if t.op == 'sym' and str(t.a[0]).startswith('n_'):
                x = e.over.get(('nat', t))
                if x is not None:
                    return Fraction(x)
                return Fraction((0, 0, 1, 1, 2, 3, 2, 5)[int(evalt._h('nat', e.seed, e.mode, t.a[0])[:6], 16) % 8])
            if more is not None:
                r = more(e, t)
                if r is not None:
                    return r
            return self.nat(e, t)
        return hook

    def sort(self, e, t):
        v, f = t.a[1]
        if f.op != 'agg' or f.a[0] != 'closure':
            return None
        u = f.a[1]
        if u not in self.comparators:
            cap = agg('closure', u, tuple(sym('cap%d' % i) for i in range(len(f.a[2]))))
            self.comparators[u] = self.c.val(u, cap, sym('cmp_a'), sym('cmp_b'))
        term = self.comparators[u]
        caps = [e.ev(x) for x in f.a[2]]

        def cmp(x, y):
            b = e.binder([sym('cap%d' % i) for i in range(len(caps))] + [sym('cmp_a'), sym('cmp_b')], caps + [x, y])
            r = b.ev(term)
            if not isinstance(r, evalt.Agg):
                raise evalt.Unsupported('ordering')
            return r.v - 1
        return evalt.Seq(sorted(e.toseq(e.ev(v)).xs, key=functools.cmp_to_key(cmp)))


def elements(v, keys, inp=None):
    """the input elements (by key) a value holds, with repetitions"""
    out, st = [], [v]
    while st:
        x = st.pop()
        if inp is not None and isinstance(x, evalt.Tok) and isinstance(inp, evalt.Tok) and x.k == inp.k:
            out += sorted(keys)
            continue
        if isinstance(x, Sub):
            st.extend(x.xs)
        elif isinstance(x, evalt.Agg):
            st.extend(x.ch)
        elif isinstance(x, evalt.Seq):
            st.extend(x.xs)
        elif isinstance(x, evalt.Over):
            st.extend(x.kv.values() if hasattr(x, 'kv') else [])
        elif isinstance(x, evalt.SetV):
            st.extend(x.m.values())
        else:
            k = evalt.key(x)
            if k in keys:
                out.append(k)
    return sorted(out)


def bag(xs):
    return evalt.Seq([evalt.Tok(k) for k in sorted(xs)])


def mutarg(p, u, k=0):
    """index of the k-th parameter that is a mutable reference"""
    b = p.bodies[u]
    r = [i for i in range(b['argc']) if p.rt(b['locals'][i + 1][0])[0] == 'ref' and p.rt(b['locals'][i + 1][0])[1]]
    return r[k] if k < len(r) else None


def unref(t, roots):
    """references into the given values as the parts they refer to"""
    m = {}
    for x in subterms(t):
        if x.op == 'ref' and x.a[0][0] == 'E' and x.a[0][1] in roots:
            v = roots[x.a[0][1]]
            for k in x.a[1]:
                v = sel(v, k[1]) if k[0] == 'i' else getk(v, k)
            m[x] = v
    return subst(t, m) if m else t

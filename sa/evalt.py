"""Equality of normalised formulas.

Two formulas obtained from the analysis are equal when their normal forms coincide.  When
they do not, they are only called different if a valuation of their free symbols (inputs,
uninterpreted function values) separates them - an identity test on the formulas, so that
algebraically equal reformulations are never reported."""
import time
import hashlib, math, random
from fractions import Fraction
from terms import *
import terms as TM


BITOPS = {'BitAnd': lambda x, y: x & y, 'BitOr': lambda x, y: x | y, 'BitXor': lambda x, y: x ^ y,
          'Shl': lambda x, y: x << y, 'Shr': lambda x, y: x >> y}


class Unsupported(Exception):
    pass


class Tok:
    """value of an uninterpreted term: usable as number, boolean, structure or sequence"""
    __slots__ = ('k',)

    def __init__(self, k):
        self.k = k

    def __eq__(self, o):
        return isinstance(o, Tok) and self.k == o.k

    def __hash__(self):
        return hash(self.k)

    def __repr__(self):
        return 'Tok(%s)' % self.k[:8]


class Agg:
    __slots__ = ('d', 'v', 'ch')

    def __init__(self, d, v, ch):
        self.d, self.v, self.ch = d, v, ch

    def __repr__(self):
        return '%s#%s%r' % (str(self.d).split('::')[-1], self.v, self.ch)


class Seq:
    __slots__ = ('xs',)

    def __init__(self, xs):
        self.xs = xs

    def __repr__(self):
        return 'Seq%r' % (self.xs,)


class SetV:
    """finite set (elements by key)"""
    __slots__ = ('m',)

    def __init__(self, m):
        self.m = m

    def __repr__(self):
        return 'Set{%s}' % ', '.join(repr(self.m[k]) for k in sorted(self.m))


SETUNI = 6


def setname(op_name):
    p = str(op_name).split('::')
    n = '::'.join(p[-2:])
    return n.replace('FnvHashSet', 'HashSet')


def _h(*xs):
    return hashlib.md5('|'.join(map(str, xs)).encode()).hexdigest()


def key(v):
    if isinstance(v, Tok):
        return v.k
    if isinstance(v, bool):
        return 'b%d' % v
    if isinstance(v, float):
        return 'n%.9g' % v
    if isinstance(v, (int, Fraction)):
        return 'n%.9g' % float(v)
    if isinstance(v, Agg):
        return _h('agg', str(v.d), v.v, *[key(x) for x in v.ch])
    if isinstance(v, Seq):
        return _h('seq', *[key(x) for x in v.xs])
    if isinstance(v, SetV):
        return _h('set', *sorted(v.m))
    return str(v)


class Ev:
    """evaluation of terms under a pseudo random valuation `seed`"""
    maxtrip = 64
    deadline = None
    long = None           # length around which the long sequences of this valuation lie

    def __init__(self, seed, env=None, mode=0, maxlen=3, nonneg=None, maxsteps=200000, hook=None):
        self.seed = seed
        self.env = dict(env or {})
        self.mode = mode
        self.maxlen = maxlen
        self.memo = {}
        self.nonneg = nonneg
        self.steps = 0
        self.maxsteps = maxsteps
        self.hook = hook
        self.bias = None
        self.vague = []       # unresolved constructs met
        self.over = {}        # token -> number / truth value / variant chosen to reach a condition

    # lazily typed views of tokens
    def number(self, v):
        if isinstance(v, bool):
            return Fraction(int(v))
        if isinstance(v, (int, Fraction, float)):
            return v
        if isinstance(v, Tok):
            if v.k in self.over:
                return self.over[v.k]
            h = int(_h('num', self.seed, v.k)[:12], 16)
            if self.mode == 0:
                return Fraction(h % 7 - 3)
            if self.mode == 1:
                return Fraction(h % 2001 - 1000, 1 + (h // 2001) % 97)
            if self.mode == 3:
                return Fraction(h % 9 - 4, 8)
            return Fraction(h % 5)
        raise Unsupported('number of %r' % (v,))

    def boolean(self, v):
        if isinstance(v, bool):
            return v
        if isinstance(v, Tok):
            if ('b', v.k) in self.over:
                return self.over[('b', v.k)]
            h = int(_h('bool', self.seed, v.k)[:4], 16)
            if self.bias is not None:
                return h % 16 < self.bias
            return bool(h & 1)
        raise Unsupported('bool of %r' % (v,))

    def length(self, v):
        if isinstance(v, Seq):
            return len(v.xs)
        if isinstance(v, Tok):
            if ('len', v.k) in self.over:
                return self.over[('len', v.k)]
            h = int(_h('len', self.seed, v.k)[:6], 16)
            if isinstance(self.maxlen, tuple):
                return self.maxlen[h % len(self.maxlen)]
            return h % (self.maxlen + 1)
        if isinstance(v, (bytes, str)):
            return len(v)
        if isinstance(v, SetV):
            return len(v.m)
        raise Unsupported('len of %r' % (v,))

    def index(self, v, i):
        if isinstance(v, SetV):
            v = self.toseq(v)
        if isinstance(v, Seq):
            j = self.number(i)
            if j != int(j) or not 0 <= j < len(v.xs):
                return Tok(_h('oob', key(v), key(i)))
            return v.xs[int(j)]
        if isinstance(v, bytes):
            j = int(self.number(i))
            return v[j] if 0 <= j < len(v) else Tok('oob')
        return Tok(_h('sel', key(v), key(i)))

    def toseq(self, v):
        if isinstance(v, Seq):
            return v
        if isinstance(v, SetV):
            return Seq([v.m[k] for k in sorted(v.m)])
        n = self.length(v)
        return Seq([self.index(v, k) for k in range(n)])

    def universe(self):
        """the members of abstract sets of numbers are taken from these"""
        return range(SETUNI) if self.long is None else [*range(SETUNI), *range(max(SETUNI, self.long - 2), self.long + 3)]

    def toset(self, v):
        if isinstance(v, SetV):
            return v
        if isinstance(v, Seq):
            return SetV({key(x): x for x in v.xs})
        if isinstance(v, Tok):
            out = {}
            for i in self.universe():
                if int(_h('set', self.seed, v.k, i)[:4], 16) & 1:
                    x = Fraction(i)
                    out[key(x)] = x
            return SetV(out)
        raise Unsupported('set of %r' % (v,))

    def setop(self, t, post):
        n = setname(t.a[0])
        if n in ('HashSet::new', 'HashSet::with_capacity', 'HashSet::default') and not post:
            return SetV({})
        a = t.a[1]
        if not n.startswith('HashSet::') and n != 'Extend::extend':
            return None
        m = n.split('::')[1]
        if m in ('at', 'contains_key'):
            return None
        s = self.toset(self.ev(a[0]))
        if m in ('insert', 'remove', 'contains', 'inserted', 'replace', 'take'):
            x = self.ev(a[1])
            k = key(self.number(x) if isinstance(x, (bool, int, Fraction, float)) else x)
            if m == 'contains':
                return k in s.m
            if m == 'inserted' or (post and m in ('insert', 'replace')):
                return SetV(dict(s.m, **{k: x}))
            if post:
                return SetV({q: v for q, v in s.m.items() if q != k})
            if m == 'insert':
                return k not in s.m
            if m == 'remove':
                return k in s.m
            return None
        if m in ('extend', 'union', 'intersection', 'difference', 'symmetric_difference', 'is_subset', 'is_superset', 'is_disjoint'):
            o = self.toset(self.ev(a[1]))
            if m in ('extend', 'union'):
                if m == 'extend' and not post:
                    return None
                return SetV(dict(s.m, **o.m))
            if m == 'intersection':
                return SetV({q: v for q, v in s.m.items() if q in o.m})
            if m == 'difference':
                return SetV({q: v for q, v in s.m.items() if q not in o.m})
            if m == 'symmetric_difference':
                return SetV({q: v for q, v in list(s.m.items()) + list(o.m.items()) if (q in s.m) != (q in o.m)})
            if m == 'is_subset':
                return all(q in o.m for q in s.m)
            if m == 'is_superset':
                return all(q in s.m for q in o.m)
            return not any(q in o.m for q in s.m)
        return None

    def field(self, v, k):
        if isinstance(v, Agg):
            if k[0] == 'f':
                if k[1] < len(v.ch):
                    return v.ch[k[1]]
            elif v.v == k[1] and k[2] < len(v.ch):
                return v.ch[k[2]]
            return Tok(_h('bad', key(v), k))
        if isinstance(v, Tok):
            return Tok(_h('fld', v.k, k))
        if isinstance(v, Seq) and k[0] == 'f':
            return v.xs[k[1]]
        raise Unsupported('field of %r' % (v,))

    def variant(self, v, n):
        if isinstance(v, Agg):
            return v.v
        if isinstance(v, Tok):
            if ('v', v.k) in self.over:
                return self.over[('v', v.k)]
            return int(_h('var', self.seed, v.k)[:6], 16) % n
        raise Unsupported('variant of %r' % (v,))

    # ------------------------------------------------------------------ terms
    def bdd(self, n, depth=0):
        while n > 1:
            v, lo, hi = TM._nodes[n]
            try:
                b = self.boolean(self.ev(TM._atoms[v]))
            except Unsupported:
                # an atom without meaning here (part of a case that is not taken) must not matter
                if depth >= 4:
                    raise
                x = self.bdd(lo, depth + 1)
                if x != self.bdd(hi, depth + 1):
                    raise
                return x
            n = hi if b else lo
        return n == T

    def ev(self, t):
        if t in self.env:
            return self.env[t]
        r = self.memo.get(t)
        if r is None:
            self.steps += 1
            if self.steps > self.maxsteps:
                raise Unsupported('too large')
            r = self._ev(t)
            self.memo[t] = r
        return r

    def binder(self, bv, k):
        if self.deadline is not None and time.time() > self.deadline:
            raise Unsupported('time limit')
        e = type(self)(self.seed, self.env, self.mode, self.maxlen, self.nonneg, self.maxsteps, self.hook)
        e.steps = self.steps
        e.over = self.over
        e.vague = self.vague
        e.bias = self.bias
        e.maxtrip = self.maxtrip
        e.deadline = self.deadline
        e.long = self.long
        for b, v in (zip(bv, k) if isinstance(bv, (tuple, list)) else ((bv, k),)):
            e.env[b] = v
        return e

    def trip(self, n):
        x = self.number(self.ev(n))
        if x != int(x):
            raise Unsupported('trip count %s' % x)
        if x > self.maxtrip:
            raise Unsupported('large trip count')
        return max(0, int(x))

    def _ev(self, t):
        op = t.op
        if self.hook is not None:
            r = self.hook(self, t)
            if r is not None:
                return r
        if op == 'p':
            s = Fraction(0)
            for mono, c in t.a[0]:
                q = c
                for x, e in mono:
                    y = self.number(self.ev(x))
                    if e < 0 and y == 0:
                        raise Unsupported('division by zero')
                    q = q * (y if e == 1 else y ** e)
                s = s + q
            return s
        if op == 'b':
            return self.bdd(t.a[0])
        if op == 'gam':
            for c, v in t.a[0]:
                if self.bdd(c):
                    return self.ev(v)
            self.vague.append('no case')
            return Tok('nocase')
        if op in ('sym', 'bv', 'av', 'const', 'fconst', 'fn', 'phi'):
            if op == 'phi':
                raise Unsupported('loop symbol')
            return Tok(_h(op, repr(t.a)))
        if op == 'str':
            return t.a[0]
        if op == 'bytes':
            return t.a[0]
        if op == 'agg':
            if t.a[0] == 'array':
                return Seq([self.ev(x) for x in t.a[2]])
            return Agg(t.a[0], t.a[1], [self.ev(x) for x in t.a[2]])
        if op == 'upd':
            v = self.ev(t.a[0])
            # a payload of a variant the value does not have stays out of reach
            return self.update(v, [(k, self.ev(x)) for k, x in t.a[1]
                                   if not (k[0] == 'v' and isinstance(v, Agg) and isinstance(v.v, int) and v.v != k[1])])
        if op == 'fld':
            return self.field(self.ev(t.a[0]), ('f', t.a[1]))
        if op == 'vfld':
            return self.field(self.ev(t.a[0]), ('v', t.a[1], t.a[2]))
        if op == 'isv':
            v = self.ev(t.a[0])
            return self.variant(v, 2 if isinstance(v, Agg) or True else 2) == t.a[1]
        if op == 'lt0':
            x = self.number(self.ev(t.a[0]))
            if isinstance(x, float) and abs(x) < 1e-6:
                raise Unsupported('borderline rounding')
            return x < 0
        if op == 'eq0':
            x = self.number(self.ev(t.a[0]))
            if isinstance(x, float) and abs(x) < 1e-6:
                raise Unsupported('borderline rounding')
            return x == 0
        if op == 'sqrt':
            x = self.number(self.ev(t.a[0]))
            if x < 0:
                raise Unsupported('sqrt of negative')
            if isinstance(x, Fraction):
                n, d = math.isqrt(x.numerator), math.isqrt(x.denominator)
                if n * n == x.numerator and d * d == x.denominator:
                    return Fraction(n, d)
            return math.sqrt(x)
        if op == 'abs':
            return abs(self.number(self.ev(t.a[0])))
        if op in ('min', 'max'):
            return (min if op == 'min' else max)(self.number(self.ev(x)) for x in t.a[0])
        if op in ('bigmin', 'bigmax', 'bigsum'):
            n = self.trip(t.a[0])
            xs = [self.number(self.binder(t.a[1], k).ev(t.a[2])) for k in range(n)]
            if op == 'bigsum':
                return sum(xs, Fraction(0))
            if not xs:
                return math.inf if op == 'bigmin' else -math.inf
            return (min if op == 'bigmin' else max)(xs)
        if op == 'exists':
            return any(self.boolean(self.binder(t.a[1], k).ev(t.a[2])) for k in range(self.trip(t.a[0])))
        if op == 'first':
            n = self.trip(t.a[0])
            for k in range(n):
                if self.boolean(self.binder(t.a[1], k).ev(t.a[2])):
                    return Fraction(k)
            return Fraction(n)
        if op == 'gen':
            return Seq([self.binder(t.a[1], k).ev(t.a[2]) for k in range(self.trip(t.a[0]))])
        if op == 'gflt':
            out = []
            for k in range(self.trip(t.a[0])):
                e = self.binder(t.a[1], k)
                if self.boolean(e.ev(t.a[2])):
                    out.append(e.ev(t.a[3]))
            return Seq(out)
        if op == 'fold':
            acc = self.ev(t.a[0])
            for k in range(self.trip(t.a[1])):
                acc = self.binder((t.a[2], t.a[3]), (k, acc)).ev(t.a[4])
            return acc
        if op == 'rep':
            v = self.ev(t.a[0])
            return Seq([v] * self.trip(t.a[1]))
        if op == 'resized':
            xs = self.toseq(self.ev(t.a[0])).xs
            k = self.trip(t.a[1])
            return Seq(xs[:k] + [self.ev(t.a[2])] * max(0, k - len(xs)))
        if op == 'cat':
            return Seq(self.toseq(self.ev(t.a[0])).xs + self.toseq(self.ev(t.a[1])).xs)
        if op == 'push':
            return Seq(self.toseq(self.ev(t.a[0])).xs + [self.ev(t.a[1])])
        if op == 'insert':
            xs = list(self.toseq(self.ev(t.a[0])).xs)
            i = self.number(self.ev(t.a[1]))
            if not 0 <= i <= len(xs):
                return Tok('oob')
            xs.insert(int(i), self.ev(t.a[2]))
            return Seq(xs)
        if op == 'store':
            xs = list(self.toseq(self.ev(t.a[0])).xs)
            i = self.number(self.ev(t.a[1]))
            if i == int(i) and 0 <= i < len(xs):
                xs[int(i)] = self.ev(t.a[2])
            return Seq(xs)
        if op == 'windows':
            xs, n = self.toseq(self.ev(t.a[0])).xs, self.number(self.ev(t.a[1]))
            if n != int(n) or n < 1:
                raise Unsupported('empty windows')
            return Seq([Seq(xs[i:i + int(n)]) for i in range(len(xs) - int(n) + 1)])
        if op == 'subslice':
            xs = self.toseq(self.ev(t.a[0])).xs
            a, b = self.number(self.ev(t.a[1])), self.number(self.ev(t.a[2]))
            if not 0 <= a <= b <= len(xs):
                return Tok('oob')
            return Seq(xs[int(a):int(b)])
        if op == 'len':
            return Fraction(self.length(self.ev(t.a[0])))
        if op == 'sel':
            return self.index(self.ev(t.a[0]), self.ev(t.a[1]))
        if op == 'idiv':
            a, b = self.number(self.ev(t.a[0])), self.number(self.ev(t.a[1]))
            if b == 0:
                raise Unsupported('div0')
            q = abs(a) // abs(b)
            return Fraction(q if (a >= 0) == (b > 0) else -q)
        if op == 'irem':
            a, b = self.number(self.ev(t.a[0])), self.number(self.ev(t.a[1]))
            if b == 0:
                raise Unsupported('div0')
            return a - b * (abs(a) // abs(b)) * (1 if (a >= 0) == (b > 0) else -1)
        if op == 'ovf':
            o, ty = t.a[0], t.a[3]
            w = WIDTH.get(ty[1]) if isinstance(ty, tuple) and ty[0] == 'prim' else None
            x, y = self.ev(t.a[1]), self.ev(t.a[2])
            if w is None or not all(isinstance(z, (int, Fraction)) and not isinstance(z, bool) and Fraction(z).denominator == 1 for z in (x, y)):
                raise Unsupported('overflow of an unknown number')
            lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if ty[1][0] == 'i' else (0, (1 << w) - 1)
            if o in ('Shl', 'Shr'):
                return not 0 <= y < w
            r = {'Add': x + y, 'Sub': x - y, 'Mul': x * y}.get(o)
            if r is None:
                raise Unsupported('overflow of ' + str(o))
            return not lo <= r <= hi
        if op == 'trunc':
            x = self.ev(t.a[2])
            if isinstance(x, (int, Fraction)) and not isinstance(x, bool) and Fraction(x).denominator == 1:
                w = WIDTH.get(t.a[1])
                if w is not None:
                    x = int(x) % (1 << w)
                    if t.a[1][0] == 'i' and x >= 1 << (w - 1):
                        x -= 1 << w
                    return Fraction(x)
            return Tok(_h('trunc', t.a[0], t.a[1], key(x)))
        if op == 'sum':
            return self.number(self.ev(t.a[0]))
        if op == 'f32':
            return self.ev(t.a[0])
        if op == 'ref':
            raise Unsupported('reference')
        if op == 'discr':
            v = self.ev(t.a[0])
            i = self.variant(v, t.a[2])
            for d, vi in t.a[1]:
                if vi == i:
                    return Fraction(d)
            return Tok('discr')
        if op == 'undef':
            self.vague.append('undefined value')
            return Tok('undef')
        if op == 'mix':
            raise Unsupported('mix')
        if op == 'call' or (op == 'post' and isinstance(t.a[0], Term) and t.a[0].op == 'call'):
            c = t if op == 'call' else t.a[0]
            if op == 'call' and c.a[0] in ('add', 'mul', 'neg', 'fdiv'):
                v = [self.ev(x) for x in c.a[1]]
                if all(isinstance(x, (Fraction, int, Tok)) and not isinstance(x, bool) for x in v):
                    v = [self.number(x) for x in v]
                    if c.a[0] == 'add':
                        return v[0] + v[1]
                    if c.a[0] == 'mul':
                        return v[0] * v[1]
                    if c.a[0] == 'neg':
                        return -v[0]
                    if v[1] == 0:
                        raise Unsupported('div0')
                    return v[0] / v[1]
            if op == 'call' and c.a[0] in BITOPS and len(c.a[1]) == 2:
                v = [self.ev(x) for x in c.a[1]]
                if all(isinstance(x, (Fraction, int)) and not isinstance(x, bool) and Fraction(x).denominator == 1 for x in v) and (c.a[0][0] == 'B' or 0 <= v[1] < 64):
                    return Fraction(BITOPS[c.a[0]](int(v[0]), int(v[1])))
            if op == 'call' and c.a[0] in ('sort', 'sort_unstable', 'dedup', 'reverse') and len(c.a[1]) == 1:
                v = self.ev(c.a[1][0])
                if isinstance(v, Seq):
                    xs = list(v.xs)
                    if c.a[0] == 'reverse':
                        return Seq(xs[::-1])
                    if c.a[0] == 'dedup':
                        return Seq([x for i, x in enumerate(xs) if not i or key(x) != key(xs[i - 1])])
                    if all(sortkey(x) is not None for x in xs):
                        return Seq(sorted(xs, key=sortkey))
            if op == 'call' and str(c.a[0]) == 'hashseq':
                return self.toseq(self.toset(self.ev(c.a[1][0])))
            if op == 'call' or t.a[1] == 0:
                r = self.setop(c, op == 'post')
                if r is not None:
                    return r
        # uninterpreted
        parts = []
        for x in t.a:
            parts.append(self.pk(x))
        return Tok(_h(op, *parts))

    def pk(self, x):
        if isinstance(x, Term):
            return key(self.ev(x))
        if isinstance(x, tuple):
            return '(' + ','.join(self.pk(y) for y in x) + ')'
        return repr(x)

    def update(self, v, kvs):
        if isinstance(v, Agg):
            ch = list(v.ch)
            for k, x in kvs:
                i = k[1] if k[0] == 'f' else k[2]
                if i < len(ch):
                    ch[i] = x
            return Agg(v.d, v.v, ch)
        if isinstance(v, Tok):
            # representation: token with overridden components
            return Over(v, dict(kvs))
        raise Unsupported('update of %r' % (v,))

    # ------------------------------------------------------------------ equality
    def eq(self, a, b, d=0):
        if a is b:
            return True
        if isinstance(a, Over) or isinstance(b, Over):
            return eq_over(self, a, b, d)
        if isinstance(a, Tok) and isinstance(b, Tok) and a.k == b.k:
            return True
        if isinstance(a, SetV) or isinstance(b, SetV):
            return set(self.toset(a).m) == set(self.toset(b).m)
        if isinstance(a, Agg) and isinstance(b, Agg):
            if a.v != b.v or len(a.ch) != len(b.ch):
                return False
            return all(self.eq(x, y, d + 1) for x, y in zip(a.ch, b.ch))
        if isinstance(a, Seq) or isinstance(b, Seq):
            if isinstance(a, (Tok, Seq)) and isinstance(b, (Tok, Seq)):
                x, y = self.toseq(a), self.toseq(b)
                return len(x.xs) == len(y.xs) and all(self.eq(p, q, d + 1) for p, q in zip(x.xs, y.xs))
            if isinstance(a, Agg) or isinstance(b, Agg):
                return False
        if isinstance(a, Agg) or isinstance(b, Agg):
            if isinstance(b, Agg):
                a, b = b, a
            if isinstance(b, Tok):
                # structure rebuilt from its own components
                if not a.ch:
                    raise Unsupported('opaque value against unit')
                enum = a.d in (OPT, RES) or a.v != 0
                if enum:
                    if self.variant(b, 2) != a.v:
                        return False
                return all(self.eq(x, self.field(b, ('v', a.v, i) if enum else ('f', i)), d + 1) for i, x in enumerate(a.ch))
            return False
        if isinstance(a, bool) or isinstance(b, bool):
            return self.boolean(a) == self.boolean(b)
        if isinstance(a, (int, Fraction, float)) or isinstance(b, (int, Fraction, float)):
            if isinstance(a, (bytes, str)) or isinstance(b, (bytes, str)):
                return False
            x, y = self.number(a), self.number(b)
            if isinstance(x, float) or isinstance(y, float):
                x, y = float(x), float(y)
                if x == y:
                    return True
                return abs(x - y) <= 1e-7 * max(1.0, abs(x), abs(y))
            return x == y
        if isinstance(a, str) and isinstance(b, bytes):
            return a.encode() == b
        if isinstance(b, str) and isinstance(a, bytes):
            return b.encode() == a
        if isinstance(a, Tok) and isinstance(b, Tok):
            return False
        return a == b


class Over(Tok):
    """opaque structure with some components replaced"""
    __slots__ = ('base', 'kv')

    def __init__(self, base, kv):
        if isinstance(base, Over):
            d = dict(base.kv)
            d.update(kv)
            base, kv = base.base, d
        self.base = base
        self.kv = kv
        self.k = _h('over', base.k, *sorted('%s=%s' % (k, key(v)) for k, v in kv.items()))


def eq_over(e, a, b, d):
    if not isinstance(a, Over):
        a, b = b, a
    if isinstance(b, Agg):
        if all(k[0] == 'v' for k in a.kv):
            vs = set(k[1] for k in a.kv)
            if b.v not in vs:
                return False
            return all(e.eq(x, _ofield(e, a, ('v', b.v, i)), d + 1) for i, x in enumerate(b.ch))
        return all(e.eq(x, _ofield(e, a, ('f', i)), d + 1) for i, x in enumerate(b.ch))
    bb = b.base if isinstance(b, Over) else b
    if not (isinstance(bb, Tok) and bb.k == a.base.k):
        # different bases: may still agree on all components; not decidable without the type
        raise Unsupported('update of different bases')
    kb = b.kv if isinstance(b, Over) else {}
    for k in set(a.kv) | set(kb):
        if not e.eq(_ofield(e, a, k), _ofield(e, b, k), d + 1):
            return False
    return True


def _ofield(e, v, k):
    if isinstance(v, Over):
        if k in v.kv:
            return v.kv[k]
        return e.field(v.base, k)
    return e.field(v, k)


_oldfield = Ev.field


def _field(self, v, k):
    if isinstance(v, Over):
        return _ofield(self, v, k)
    return _oldfield(self, v, k)


Ev.field = _field

EQ, NE, UNDECIDED = 'equal', 'different', 'undecided'
ROUNDS = [(s, m) for s in range(24) for m in (0, 1, 2)] + [(100 + s, 3) for s in range(16)]


def rounds(n):
    """more valuations of small values (structures whose interesting configurations are rare)"""
    return ROUNDS + [(200000 + s, (0, 2, 3, 0, 2)[s % 5]) for s in range(n + n // 4)] if n else None


def regions(a, b, pc, limit=14):
    """conditions under which the two formulas are built differently"""
    out = [pc]
    if a.op == 'b' and b.op == 'b':
        x = band(pc, bxor(a.a[0], b.a[0]))
        return [r for r in (x, band(pc, a.a[0]), band(pc, bnot(a.a[0])), band(pc, b.a[0]), band(pc, bnot(b.a[0]))) if r != F]
    try:
        ca = a.a[0] if a.op == 'gam' else ((T, a),)
        cb = b.a[0] if b.op == 'gam' else ((T, b),)
        for c1, v1 in ca:
            for c2, v2 in cb:
                if v1 is not v2 or len(ca) + len(cb) == 2:
                    r = band(pc, band(c1, c2))
                    if r != F and r not in out:
                        out.append(r)
                        if len(out) > limit:
                            return out
    except TooComplex:
        pass
    return out


def free_leaves(e, t, out, seen, d=0):
    """tokens that a number depends on"""
    if t in seen or d > 12:
        return
    seen.add(t)
    if t.op == 'p':
        for mono, c in t.a[0]:
            for x, k in mono:
                free_leaves(e, x, out, seen, d + 1)
        return
    if t.op in ('abs', 'sqrt', 'lt0', 'eq0', 'f32', 'sum'):
        return free_leaves(e, t.a[0], out, seen, d + 1)
    if t.op in ('min', 'max'):
        for x in t.a[0]:
            free_leaves(e, x, out, seen, d + 1)
        return
    if t.op == 'gam':
        for c, x in t.a[0]:
            if e.bdd(c):
                return free_leaves(e, x, out, seen, d + 1)
        return
    if t.op == 'idiv' or t.op == 'irem':
        free_leaves(e, t.a[0], out, seen, d + 1)
        return
    if t.op in ('bigmin', 'bigmax', 'bigsum'):
        for k in range(e.trip(t.a[0])):
            free_leaves(e.binder(t.a[1], k), t.a[2], out, set(), d + 1)
        return
    if t.op == 'len':
        v = e.ev(t.a[0])
        if isinstance(v, Tok):
            out.append(('len', v.k))
        return
    if t.op == 'sym' and str(t.a[0]).startswith('n_') and t not in e.env:
        out.append(('nat', t))
        return
    v = e.ev(t)
    if isinstance(v, Tok):
        out.append(v.k)


def guided(e, region, rnd, steps=60):
    """choose values of free symbols (in e.over) such that the condition holds"""
    lits = {}
    n = region
    while n > 1:
        v, lo, hi = TM._nodes[n]
        if lo == F:
            up = True
        elif hi == F:
            up = False
        else:
            up = rnd.random() < 0.5
        lits[v] = up
        n = hi if up else lo
    if n == F:
        return False
    for it in range(steps):
        if time.time() > _dead[0]:
            return False
        e.memo.clear()
        e.steps = 0
        bad = []
        for v, up in lits.items():
            t = TM._atoms[v]
            try:
                if e.boolean(e.ev(t)) != up:
                    bad.append((t, up))
            except (ZeroDivisionError, OverflowError):
                bad.append((t, up))
            except Unsupported as ex:
                if 'negative' in str(ex) or 'zero' in str(ex) or 'trip' in str(ex) or 'borderline' in str(ex):
                    bad.append((t, up))
                else:
                    raise
        if not bad:
            return True
        t, up = bad[rnd.randrange(len(bad))]
        if t.op in ('lt0', 'eq0'):
            q = t.a[0]
            fr = []
            free_leaves(e, q, fr, set())
            if not fr:
                return False
            k = fr[rnd.randrange(len(fr))]
            isl = isinstance(k, tuple) and len(k) == 2 and k[0] == 'len'
            nat = isinstance(k, tuple) and len(k) == 2 and k[0] == 'nat'
            x0 = Fraction(e.length(Tok(k[1]))) if isl else e.number(e.ev(k[1])) if nat else e.number(Tok(k))
            isl = isl or nat

            def at(x):
                e.over[k] = int(x) if isl else x
                e.memo.clear()
                return e.number(e.ev(q))
            try:
                y0, y1 = at(x0), at(x0 + 1)
                s = y1 - y0
                if t.op == 'eq0':
                    want = [Fraction(0)] if up else [Fraction(rnd.choice([-1, 1, 2, -3]))]
                else:
                    want = [Fraction(-rnd.choice([1, 1, 2, 5]))] if up else [Fraction(rnd.choice([0, 0, 1, 3]))]
                cand = [x0 + rnd.choice([-3, -2, -1, 1, 2, 3])]
                if s:
                    z = x0 + (want[0] - y0) / s
                    if isinstance(z, float):
                        z = Fraction(z).limit_denominator(1000)
                    cand.insert(0, z)
                pick = cand[0] if rnd.random() < 0.85 else cand[-1]
                if pick.denominator > 10 ** 4:
                    pick = pick.limit_denominator(1000)
                if abs(pick) > 10 ** 7:
                    pick = Fraction(rnd.randrange(-9, 9))
                if isl:
                    pick = min(10 ** 6 if nat else 64, max(0, int(pick)))
                e.over[k] = pick
            except (Unsupported, ZeroDivisionError, OverflowError):
                e.over[k] = x0 + rnd.choice([-2, -1, 1, 2])
                if isl:
                    e.over[k] = int(max(0, e.over[k]))
        elif t.op == 'isv':
            v = e.ev(t.a[0])
            if not isinstance(v, Tok):
                return False
            e.over[('v', v.k)] = t.a[1] if up else (t.a[1] + 1) % 2
        else:
            v = e.ev(t)
            if not isinstance(v, Tok):
                return False
            e.over[('b', v.k)] = up
    return False


GUIDED = 3
def sortkey(x):
    """derived order of numbers and of structures of one number"""
    while isinstance(x, Agg) and len(x.ch) == 1:
        x = x.ch[0]
    if isinstance(x, (int, Fraction)) and not isinstance(x, bool):
        return (0, x, '')
    if isinstance(x, Tok):
        return (1, 0, x.k)
    return None


WIDTH = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'usize': 64, 'u128': 128,
         'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'isize': 64, 'i128': 128}
LIMIT = 45              # seconds for the valuations of one obligation
_dead = [float('inf')]


def compare(*a, **k):
    try:
        return compare_(*a, **k)
    finally:
        _dead[0] = float('inf')


def compare_(a, b, pc=T, rounds=None, env=None, hook=None, maxlen=3, assume=None):
    """(EQ|NE|UNDECIDED, witness) for two terms, under path condition pc"""
    if a is b:
        return EQ, None
    if a.op == 'b' and b.op == 'b' and band(pc, bxor(a.a[0], b.a[0])) == F:
        return EQ, None
    n = 0
    why = None
    vague = False
    _dead[0] = time.time() + LIMIT

    for gi, gen in enumerate((each_plain(rounds or ROUNDS, env, hook, maxlen, pc), each_guided(a, b, pc, env, hook, maxlen),
                each_more(pc, env, hook, maxlen), each_long(a, b, pc, env, hook))):
        if gi == 2 and n >= 3:
            continue
        for e, s, m in gen:
            if time.time() > _dead[0]:
                why = why or 'time limit'
                break
            if e is None:
                why = s
                continue
            try:
                if assume is not None and not assume(e):
                    continue
                x, y = e.ev(a), e.ev(b)
                if not e.eq(x, y):
                    if e.vague:
                        why = e.vague[0]
                        vague = True
                        continue
                    return NE, 'under a valuation (%s,%s): %s versus %s' % (s, m, short(x), short(y))
                n += 1
                if gi == 2 and n >= 4:
                    break
            except Unsupported as ex:
                why = str(ex)
            except (OverflowError, ZeroDivisionError, RecursionError) as ex:
                why = str(ex)
    if n >= 3 and not vague:
        return EQ, None
    return UNDECIDED, why or 'no valuation satisfies the path condition'


def each_plain(rounds, env, hook, maxlen, pc):
    for s, m in rounds:
        if time.time() > _dead[0] - 0.4 * LIMIT:
            return
        e = Ev(s, env, m, hook=hook, maxlen=maxlen)
        try:
            if pc != T and not e.bdd(pc):
                continue
        except (Unsupported, OverflowError, ZeroDivisionError, RecursionError) as ex:
            yield None, str(ex), None
            continue
        yield e, s, m


MORE = 100000


def each_more(pc, env, hook, maxlen):
    """further attempts to satisfy the path condition (used when the others found too few valuations)"""
    for s in range(60):
        e = Ev(MORE + s, env, s % 2, hook=hook, maxlen=maxlen)
        try:
            if not guided(e, pc, random.Random(s), steps=250):
                continue
        except (Unsupported, OverflowError, ZeroDivisionError, RecursionError):
            continue
        e.memo.clear()
        e.steps = 0
        yield e, MORE + s, 'guided'


def thresholds(a, b):
    """integer constants (and bounds of narrow integer types) only one of the terms mentions: sequence lengths around
    them are tried, too"""
    def sub(t):
        seen, st = set(), [t]
        while st:
            x = st.pop()
            if x not in seen:
                seen.add(x)
                st.extend(TM.children(x))
        return seen
    out = set()
    for x in sub(a) ^ sub(b):
        if x.op == 'p':
            for m, c in x.a[0]:
                if m == () and c.denominator == 1 and 3 < abs(c) <= MAXLONG:
                    out.add(int(abs(c)))
        elif x.op == 'trunc':
            for y in x.a:
                w = NARROW.get(y) if isinstance(y, str) else None
                if w:
                    out.add(w)
    small = sorted(k for k in out if k <= 60)[:4]
    large = sorted(k for k in out if k > 60)[:3]
    return small + large


MAXLONG = 66000
BIGTIME = 150       # seconds one check may spend on sequences of thousands of elements
_spent = [0.0]
NARROW = {'u8': 256, 'i8': 128, 'u16': 65536, 'i16': 32768}


def each_long(a, b, pc, env, hook):
    for k in thresholds(a, b):
        t0 = time.time()
        for s in range(150 if k <= 60 else 8):
            if time.time() - t0 > (2 if k <= 60 else 8) or _spent[0] > BIGTIME:
                break
            e = Ev(500 + 31 * k + s, env, s % 2, hook=hook, maxlen=(k - 1, k, k + 1, k + 2))
            if k > 60:
                e.mode = 0
                e.long = k
                e.maxtrip = k + 8
                e.maxsteps = 4000000
                e.deadline = time.time() + 12
                e.maxlen = (k + 2, k + 3) if s % 2 == 0 else (0, 1, k, k + 1)
            e.bias = (1, 15, 2, None, 14)[s % 5]
            try:
                if pc != T and not e.bdd(pc):
                    continue
            except (Unsupported, OverflowError, ZeroDivisionError, RecursionError):
                continue
            t1 = time.time()
            yield e, 500 + 31 * k + s, 'long'
            if k > 60:
                _spent[0] += time.time() - t1


def each_guided(a, b, pc, env, hook, maxlen):
    try:
        rs = regions(a, b, pc)
    except (TooComplex, RecursionError):
        rs = [pc]
    for ri, r in enumerate(rs):
        for s in range(GUIDED):
            if time.time() > _dead[0]:
                return
            e = Ev(1000 + 17 * ri + s, env, s % 2, hook=hook, maxlen=maxlen)
            try:
                if not guided(e, r, random.Random(7919 * ri + s)):
                    continue
            except (Unsupported, OverflowError, ZeroDivisionError, RecursionError) as ex:
                yield None, str(ex), None
                continue
            e.memo.clear()
            e.steps = 0
            yield e, 1000 + 17 * ri + s, 'guided'


def short(x):
    s = repr(x)
    return s if len(s) < 300 else s[:300] + '..'

"""Abstract interpretation of floating point terms over the classes of the IEEE numbers
(-inf, negative, -0, +0, positive, +inf, NaN), with order facts between terms.

Terms come from an analysis in IEEE mode, in which arithmetic and comparisons are kept exactly
as they are written (no algebra).  Every transfer function over-approximates the IEEE operation,
rounding to zero and overflow included."""
import math, itertools, random
from terms import *
import terms as TM

NI, N, NZ, Z, P, PI, NAN = '-inf', '-', '-0', '0', '+', 'inf', 'nan'
ALL = frozenset((NI, N, NZ, Z, P, PI, NAN))
FIN = frozenset((N, NZ, Z, P))
REP = {NI: [-math.inf], N: [-3.5, -1.0, -5e-324, -1.7e308], NZ: [-0.0], Z: [0.0], P: [2.5, 1.0, 5e-324, 1.7e308], PI: [math.inf], NAN: [math.nan]}
FLIP = {NI: PI, N: P, NZ: Z, Z: NZ, P: N, PI: NI, NAN: NAN}
RANK = {NI: -2, N: -1, NZ: 0, Z: 0, P: 1, PI: 2}


class Give(Exception):
    """a construct the domain does not know"""


def cls(x):
    if math.isnan(x):
        return NAN
    if math.isinf(x):
        return PI if x > 0 else NI
    if x == 0:
        return NZ if math.copysign(1, x) < 0 else Z
    return P if x > 0 else N


def sgn(c):
    return -1 if c in (NI, N, NZ) else 1


def add1(a, b):
    if NAN in (a, b):
        return {NAN}
    if {a, b} == {NI, PI}:
        return {NAN}
    for i in (NI, PI):
        if i in (a, b):
            return {i}
    if a in (Z, NZ):
        return {Z if b in (Z, NZ) and not (a == b == NZ) else b}
    if b in (Z, NZ):
        return {a}
    if a == b:
        return {a, PI if a == P else NI}
    return {N, Z, P}


def mul1(a, b):
    if NAN in (a, b):
        return {NAN}
    s = sgn(a) * sgn(b)
    ia, ib = a in (NI, PI), b in (NI, PI)
    za, zb = a in (Z, NZ), b in (Z, NZ)
    if (ia and zb) or (ib and za):
        return {NAN}
    if ia or ib:
        return {PI if s > 0 else NI}
    if za or zb:
        return {Z if s > 0 else NZ}
    return {Z, P, PI} if s > 0 else {NZ, N, NI}


def div1(a, b):
    if NAN in (a, b):
        return {NAN}
    s = sgn(a) * sgn(b)
    ia, ib = a in (NI, PI), b in (NI, PI)
    za, zb = a in (Z, NZ), b in (Z, NZ)
    if (ia and ib) or (za and zb):
        return {NAN}
    if ia or zb:
        return {PI if s > 0 else NI}
    if ib or za:
        return {Z if s > 0 else NZ}
    return {Z, P, PI} if s > 0 else {NZ, N, NI}


def sqrt1(a):
    if a in (NI, N, NAN):
        return {NAN}
    return {a}


def cmp1(op, a, b):
    """possible truth values"""
    if NAN in (a, b):
        return {False}
    x, y = RANK[a], RANK[b]
    if x != y or x not in (-1, 1):
        return {{'lt': x < y, 'le': x <= y, 'eq': x == y}[op]}
    return {True, False}


def minmax1(op, a, b):
    if a == NAN:
        return {b}
    if b == NAN:
        return {a}
    if RANK[a] == RANK[b]:
        return {a, b}
    return {min((a, b), key=RANK.get) if op == 'min' else max((a, b), key=RANK.get)}


TESTS = {'ieee.is_nan': (NAN,), 'ieee.is_finite': tuple(FIN), 'ieee.is_infinite': (NI, PI), 'ieee.is_sign_negative': (NI, N, NZ)}


class Signs:
    """classes of a term; env: leaf term -> set of classes; leafs without one: default"""

    def __init__(self, env=None, default=ALL, facts=T):
        self.env = dict(env or {})
        self.default = default
        self.rel = {}
        self.memo = {}
        self.truth = {}
        for v, pos in (bliterals(facts).items() if facts not in (T, F) else ()):
            self.learn(atom_of(v), pos)

    def learn(self, a, pos):
        self.truth[a] = pos
        if a.op != 'call' or a.a[0] not in ('ieee.lt', 'ieee.le', 'ieee.eq'):
            return
        x, y = a.a[1]
        r = {'ieee.lt': '<', 'ieee.le': '<=', 'ieee.eq': '='}[a.a[0]]
        if not pos:
            r = set('<=>?') - set(r)
        self.rel[(x, y)] = self.rel.get((x, y), set('<=>?')) & set(r)

    def relation(self, x, y):
        """possible relations of x to y; '?' = unordered"""
        r = set('<=>?') & self.rel.get((x, y), set('<=>?'))
        back = {'<': '>', '>': '<', '=': '=', '?': '?'}
        return r & {back[k] for k in self.rel.get((y, x), set('<=>?'))}

    def bool(self, n):
        """possible truth values of a condition"""
        if n == T:
            return {True}
        if n == F:
            return {False}
        k = ('b', n)
        if k not in self.memo:
            v, lo, hi = TM._nodes[n] if hasattr(TM, '_nodes') else TM.node(n)
            out = set()
            for t in self.atom(atom_of(v)):
                out |= self.bool(hi if t else lo)
            self.memo[k] = out
        return self.memo[k]

    def atom(self, a):
        if a in self.truth:
            return {self.truth[a]}
        if a.op == 'call' and a.a[0] in ('ieee.lt', 'ieee.le', 'ieee.eq'):
            x, y = a.a[1]
            out = set()
            for i in self.num(x):
                for j in self.num(y):
                    if x is y and NAN not in (i, j):
                        out |= {a.a[0] != 'ieee.lt'}
                    else:
                        out |= cmp1(a.a[0][5:], i, j)
            if out == {True, False}:
                r = self.relation(x, y)
                h = {'lt': '<', 'le': '<=', 'eq': '='}[a.a[0][5:]]
                if r <= set(h):
                    return {True}
                if not r & set(h):
                    return {False}
            return out
        if a.op == 'call' and a.a[0] in TESTS:
            return {i in TESTS[a.a[0]] for i in self.num(a.a[1][0])}
        return {True, False}

    def num(self, t):
        if t not in self.memo:
            self.memo[t] = frozenset(self.refine(t, self._num(t)))
        return self.memo[t]

    def refine(self, t, out):
        """comparisons with constants known to hold"""
        for a, pos in self.truth.items():
            if a.op == 'call' and a.a[0] in TESTS and a.a[1][0] is t:
                out = {i for i in out if (i in TESTS[a.a[0]]) == pos}
            if a.op != 'call' or a.a[0] not in ('ieee.lt', 'ieee.le', 'ieee.eq') or t not in a.a[1]:
                continue
            x, y = a.a[1]
            o = x if y is t else y
            cv = const_val(o)
            if cv is None or x is y:
                continue
            k = Z if cv == 0 else P if cv > 0 else N
            out = {i for i in out if pos in (cmp1(a.a[0][5:], i, k) if y is o else cmp1(a.a[0][5:], k, i))}
        return out

    def _num(self, t):
        if t in self.env:
            return self.env[t]
        c = const_val(t)
        if c is not None:
            return {Z if c == 0 else P if c > 0 else N}
        if t.op == 'gam':
            out = set()
            for cnd, v in t.a[0]:
                if True in self.bool(cnd):
                    try:
                        out |= self.under(cnd).num(v)
                    except RecursionError:
                        out |= self.num(v)
            return out
        if t.op == 'call' and str(t.a[0]).startswith('ieee.'):
            op, a = t.a[0][5:], t.a[1]
            if op == 'mul' and a[0] is a[1]:
                out = set()
                for i in self.num(a[0]):
                    out |= mul1(i, i)
                return out
            if op in ('sub', 'add'):
                x, y = a
                out = set()
                for i in self.num(x):
                    for j in self.num(y):
                        out |= add1(i, FLIP[j] if op == 'sub' else j)
                if op == 'sub':
                    if x is y:
                        return {Z, NAN} & out
                    r = self.relation(x, y)
                    if NAN not in self.num(x) and NAN not in self.num(y):
                        r = r - {'?'}
                    if r <= set('<=>'):
                        if '=' not in r:
                            out -= {Z, NZ}       # gradual underflow: different numbers have a difference
                        if '<' not in r:
                            out -= {N, NI}
                        if '>' not in r:
                            out -= {P, PI}
                        if '=' not in r:
                            out -= {NAN}         # only equal infinities have no difference
                return out
            if op in ('mul', 'div', 'min', 'max'):
                out = set()
                for i in self.num(a[0]):
                    for j in self.num(a[1]):
                        out |= mul1(i, j) if op == 'mul' else div1(i, j) if op == 'div' else minmax1(op, i, j)
                return out
            if op in ('neg', 'abs', 'sqrt'):
                out = set()
                for i in self.num(a[0]):
                    out |= {FLIP[i]} if op == 'neg' else sqrt1(i) if op == 'sqrt' else {FLIP[i] if sgn(i) < 0 else i}
                return out
            if op == 'recip':
                return set().union(*[div1(P, i) for i in self.num(a[0])])
            if op == 'powi':
                k = const_val(a[1])
                if k is not None and k.denominator == 1 and 1 <= k <= 8:
                    out = set()
                    for i in self.num(a[0]):
                        acc = {i}
                        for _ in range(int(k) - 1):
                            acc = set().union(*[mul1(x, i) for x in acc])
                        out |= acc
                    return out
                return ALL
            if op == 'hypot':
                x = set().union(*[self.num(y) for y in a])
                return {Z, P, PI} | (x & {NAN})
            return ALL
        if t.op == 'p':
            # real polynomial: only literals and plain leaves are expected here
            return ALL
        if t.op in ('abs',):
            return {FLIP[i] if sgn(i) < 0 else i for i in self.num(t.a[0])}
        if t.op == 'sqrt':
            return set().union(*[sqrt1(i) for i in self.num(t.a[0])])
        return self.default

    def under(self, cnd):
        if cnd in (T, F):
            return self
        s = Signs(self.env, self.default)
        s.rel = {k: set(v) for k, v in self.rel.items()}
        s.truth = dict(self.truth)
        for v, pos in bliterals(cnd).items():
            s.learn(atom_of(v), pos)
        return s


# ---------------------------------------------------------------- concrete IEEE value of a formula
class Conc:
    def __init__(self, env):
        self.env, self.memo = env, {}

    def bool(self, n):
        while n not in (T, F):
            v, lo, hi = TM._nodes[n]
            n = hi if self.atom(atom_of(v)) else lo
        return n == T

    def atom(self, a):
        if a.op == 'call' and a.a[0] in ('ieee.lt', 'ieee.le', 'ieee.eq'):
            x, y = (self.num(q) for q in a.a[1])
            return {'lt': x < y, 'le': x <= y, 'eq': x == y}[a.a[0][5:]]
        if a.op == 'call' and a.a[0] in TESTS:
            return cls(self.num(a.a[1][0])) in TESTS[a.a[0]]
        raise Give(show(a)[:80])

    def num(self, t):
        if t not in self.memo:
            self.memo[t] = self._num(t)
        return self.memo[t]

    def _num(self, t):
        if t in self.env:
            return self.env[t]
        c = const_val(t)
        if c is not None:
            return float(c)
        if t.op == 'gam':
            for cnd, v in t.a[0]:
                if self.bool(cnd):
                    return self.num(v)
            raise Give('no case')
        if t.op == 'call' and str(t.a[0]).startswith('ieee.'):
            op = t.a[0][5:]
            if op == 'powi':
                k = const_val(t.a[1][1])
                x, r = self.num(t.a[1][0]), 1.0
                if k is None or not 0 <= k <= 8:
                    raise Give('powi')
                for _ in range(int(k)):
                    r *= x
                return r
            a = [self.num(x) for x in t.a[1]]
            if op == 'add':
                return a[0] + a[1]
            if op == 'sub':
                return a[0] - a[1]
            if op == 'mul':
                return a[0] * a[1]
            if op in ('div', 'recip'):
                x, y = a if op == 'div' else (1.0, a[0])
                if y == 0:
                    return math.nan if x == 0 or math.isnan(x) else math.copysign(math.inf, x) * math.copysign(1, y)
                return x / y
            if op == 'neg':
                return -a[0]
            if op == 'abs':
                return abs(a[0])
            if op == 'sqrt':
                return math.nan if math.isnan(a[0]) or a[0] < 0 else math.sqrt(a[0]) if a[0] != 0 else a[0]
            if op in ('min', 'max'):
                x, y = a
                return y if math.isnan(x) else x if math.isnan(y) else (min if op == 'min' else max)(x, y)
        raise Give(show(t)[:80])


def leaves_of(t, stop=()):
    """maximal terms below the arithmetic: inputs"""
    out, seen, st = [], set(), [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if const_val(x) is not None:
            continue
        if x.op in ('gam', 'b') or (x.op == 'call' and str(x.a[0]).startswith('ieee.')):
            st.extend(children(x))
            continue
        out.append(x)
    return sorted(out, key=show)


def witness(goal, env, limit=6000):
    """concrete inputs (representatives of the classes) for which the goal holds"""
    ks = sorted(env, key=show)
    vals = [[r for c in sorted(env[k]) for r in REP[c]] for k in ks]
    size = 1
    for v in vals:
        size *= len(v)
    rnd = random.Random(1)
    src = itertools.product(*vals) if size <= limit else ([rnd.choice(v) for v in vals] for _ in range(limit))
    for x in src:
        e = dict(zip(ks, x))
        try:
            if goal(Conc(e)):
                return {show(k)[:60]: v for k, v in e.items()} or {'inputs': 'none needed'}
        except (Give, OverflowError):
            return None
    return None

"""Hash-consed value terms, polynomial normal forms and boolean functions (BDDs).

A value is described by a term over the inputs of the analysed function.  Joins of
the control flow graph are represented by gated values ('gam'): a list of
(condition, value) pairs with pairwise exclusive conditions, the conditions being
canonical boolean functions over atoms.  Nothing here is executed or solved: terms
are value numbers, conditions are reachability facts.
"""
from fractions import Fraction
import sys
sys.setrecursionlimit(20000)


class Term:
    __slots__ = ('op', 'a', 'id', 'depth', 'meta')

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.id < o.id


_tab = {}
_all = []


def mk(op, *a):
    k = (op,) + a
    t = _tab.get(k)
    if t is None:
        t = Term()
        t.op = op
        t.a = a
        t.id = len(_all)
        d = 0
        for x in a:
            if isinstance(x, Term):
                if x.depth > d:
                    d = x.depth
            elif isinstance(x, tuple):
                for y in x:
                    if isinstance(y, Term):
                        if y.depth > d:
                            d = y.depth
                    elif isinstance(y, tuple):
                        for z in y:
                            if isinstance(z, Term) and z.depth > d:
                                d = z.depth
        t.depth = d + 1
        t.meta = None
        _tab[k] = t
        _all.append(t)
    return t


# ---------------------------------------------------------------- BDD
class TooComplex(Exception):
    pass


_nodes = [None, None]      # id -> (var, lo, hi)
_nodetab = {}
_atoms = []                # var -> Term
_atomvar = {}              # Term -> var
_andc = {}
_notc = {}
LIMIT = [400000]


def set_budget(n):
    LIMIT[0] = len(_nodes) + n


F, T = 0, 1


def _node(v, lo, hi):
    if lo == hi:
        return lo
    k = (v, lo, hi)
    n = _nodetab.get(k)
    if n is None:
        if len(_nodes) > LIMIT[0]:
            raise TooComplex('condition too complex')
        n = len(_nodes)
        _nodes.append(k)
        _nodetab[k] = n
    return n


def atom(t):
    """boolean function which is the atom t"""
    v = _atomvar.get(t)
    if v is None:
        v = len(_atoms)
        _atoms.append(t)
        _atomvar[t] = v
    return _node(v, F, T)


def bnot(a):
    if a < 2:
        return 1 - a
    r = _notc.get(a)
    if r is None:
        v, lo, hi = _nodes[a]
        r = _node(v, bnot(lo), bnot(hi))
        _notc[a] = r
        _notc[r] = a
    return r


def band(a, b):
    if a == F or b == F:
        return F
    if a == T:
        return b
    if b == T or a == b:
        return a
    if a > b:
        a, b = b, a
    k = (a, b)
    r = _andc.get(k)
    if r is None:
        va, la, ha = _nodes[a]
        vb, lb, hb = _nodes[b]
        if va == vb:
            r = _node(va, band(la, lb), band(ha, hb))
        elif va < vb:
            r = _node(va, band(la, b), band(ha, b))
        else:
            r = _node(vb, band(a, lb), band(a, hb))
        _andc[k] = r
    return r


def bor(a, b):
    return bnot(band(bnot(a), bnot(b)))


def bimp(a, b):
    """a implies b"""
    return band(a, bnot(b)) == F


def bxor(a, b):
    return bor(band(a, bnot(b)), band(bnot(a), b))


def bite(c, a, b):
    return bor(band(c, a), band(bnot(c), b))


def bsupport(a):
    seen = set()
    out = set()
    st = [a]
    while st:
        n = st.pop()
        if n < 2 or n in seen:
            continue
        seen.add(n)
        v, lo, hi = _nodes[n]
        out.add(v)
        st.append(lo)
        st.append(hi)
    return out


def bsize(a):
    seen = set()
    st = [a]
    while st:
        n = st.pop()
        if n < 2 or n in seen:
            continue
        seen.add(n)
        st.append(_nodes[n][1])
        st.append(_nodes[n][2])
    return len(seen)


_conc = {}


def bconstrain(f, c):
    """generalised cofactor: agrees with f wherever c holds"""
    if c == F:
        return F
    if c == T or f < 2:
        return f
    if f == c:
        return T
    k = (f, c)
    r = _conc.get(k)
    if r is not None:
        return r
    vf = _nodes[f][0]
    vc = _nodes[c][0]
    v = min(vf, vc)
    if vc == v:
        c0, c1 = _nodes[c][1], _nodes[c][2]
    else:
        c0 = c1 = c
    if vf == v:
        f0, f1 = _nodes[f][1], _nodes[f][2]
    else:
        f0 = f1 = f
    if vc == v and c0 == F:
        r = bconstrain(f1, c1)
    elif vc == v and c1 == F:
        r = bconstrain(f0, c0)
    elif vf != v:
        # variable only in c: drop it (restrict flavour, keeps result small)
        r = bconstrain(f, bor(c0, c1))
    else:
        r = _node(v, bconstrain(f0, c0), bconstrain(f1, c1))
    _conc[k] = r
    return r


def bexists(f, vs):
    memo = {}

    def go(n):
        if n < 2:
            return n
        r = memo.get(n)
        if r is None:
            v, lo, hi = _nodes[n]
            if v in vs:
                r = bor(go(lo), go(hi))
            else:
                r = bite(_node(v, F, T), go(hi), go(lo))
            memo[n] = r
        return r
    return go(f)


def bcofactor(f, v, val):
    memo = {}

    def go(n):
        if n < 2:
            return n
        r = memo.get(n)
        if r is None:
            w, lo, hi = _nodes[n]
            if w == v:
                r = hi if val else lo
            elif w > v:
                r = n
            else:
                r = _node(w, go(lo), go(hi))
            memo[n] = r
        return r
    return go(f)


_litc = {}


def bliterals(f):
    """literals implied by f: {var: bool}"""
    r = _litc.get(f)
    if r is not None:
        return r
    out = {}
    for v in bsupport(f):
        if bcofactor(f, v, False) == F:
            out[v] = True
        elif bcofactor(f, v, True) == F:
            out[v] = False
    _litc[f] = out
    return out


def bcubes(f, limit=400):
    """paths to T, as lists of (var, bool); raises TooComplex over the limit"""
    out = []

    def go(n, acc):
        if n == F:
            return
        if n == T:
            out.append(list(acc))
            if len(out) > limit:
                raise TooComplex('too many cubes')
            return
        v, lo, hi = _nodes[n]
        acc.append((v, False))
        go(lo, acc)
        acc[-1] = (v, True)
        go(hi, acc)
        acc.pop()
    go(f, [])
    return out


def bmap(f, fn, memo=None):
    """substitute atoms: fn(term)->bdd"""
    if memo is None:
        memo = {}

    def go(n):
        if n < 2:
            return n
        r = memo.get(n)
        if r is None:
            v, lo, hi = _nodes[n]
            r = bite(fn(_atoms[v]), go(hi), go(lo))
            memo[n] = r
        return r
    return go(f)


def atom_of(v):
    return _atoms[v]


# ---------------------------------------------------------------- constants etc.
def num(v):
    if isinstance(v, Term):
        return v
    v = Fraction(v)
    return mk('p', (((), v),)) if v != 0 else mk('p', ())


def B(node):
    return mk('b', node)


TRUE = B(T)
FALSE = B(F)
UNIT = mk('agg', 'tuple', 0, ())


def sym(n):
    return mk('sym', n)


def strc(s):
    return mk('str', s)


def is_const(t):
    return t.op == 'p' and (t.a[0] == () or (len(t.a[0]) == 1 and t.a[0][0][0] == ()))


def const_val(t):
    if t.op != 'p':
        return None
    m = t.a[0]
    if m == ():
        return Fraction(0)
    if len(m) == 1 and m[0][0] == ():
        return m[0][1]
    return None


# ---------------------------------------------------------------- polynomials
def poly_of(t):
    if t.op == 'p':
        return dict(t.a[0])
    return {((t, 1),): Fraction(1)}


def _mono_key(m):
    return tuple((x.id, e) for x, e in m)


def of_poly(d):
    items = [(m, c) for m, c in d.items() if c != 0]
    if len(items) == 1 and items[0][1] == 1 and len(items[0][0]) == 1 and items[0][0][0][1] == 1:
        return items[0][0][0][0]
    items.sort(key=lambda x: _mono_key(x[0]))
    return mk('p', tuple(items))


MAXPOLY = 400


def padd(a, b, cb=1):
    d = dict(a)
    for m, c in b.items():
        d[m] = d.get(m, 0) + c * cb
    return d


def mono_mul(m1, m2):
    d = {}
    for x, e in m1:
        d[x] = d.get(x, 0) + e
    for x, e in m2:
        d[x] = d.get(x, 0) + e
    out = []
    extra = None
    for x, e in d.items():
        if e == 0:
            continue
        if x.op == 'sqrt' and e >= 2:
            k = e // 2
            pe = ppow(poly_of(x.a[0]), k)
            extra = pe if extra is None else pmul(extra, pe)
            if e % 2:
                out.append((x, 1))
            continue
        if x.op == 'abs' and e >= 2:
            k = e // 2
            pe = ppow(poly_of(x.a[0]), 2 * k)
            extra = pe if extra is None else pmul(extra, pe)
            if e % 2:
                out.append((x, 1))
            continue
        out.append((x, e))
    out.sort(key=lambda p: p[0].id)
    return tuple(out), extra


def pmul(a, b):
    d = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m, extra = mono_mul(m1, m2)
            c = c1 * c2
            if extra is None:
                d[m] = d.get(m, 0) + c
            else:
                for m3, c3 in pmul({m: c}, extra).items():
                    d[m3] = d.get(m3, 0) + c3
    return d


def ppow(a, k):
    r = {(): Fraction(1)}
    for _ in range(k):
        r = pmul(r, a)
    return r


# ---------------------------------------------------------------- gated values
MAXGAM = 40


def cases(t):
    """list of (cond, value) for t"""
    if t.op == 'gam':
        return list(t.a[0])
    return [(T, t)]


def is_bool(t):
    return t.op == 'b'


def gam(cs):
    """cs: iterable of (bdd, Term), conditions pairwise exclusive"""
    flat = []
    for c, v in cs:
        if c == F:
            continue
        if v.op == 'gam':
            for c2, v2 in v.a[0]:
                cc = band(c, c2)
                if cc != F:
                    flat.append((cc, v2))
        else:
            flat.append((c, v))
    if not flat:
        return mk('undef')
    by = {}
    order = []
    for c, v in flat:
        if v in by:
            by[v] = bor(by[v], c)
        else:
            by[v] = c
            order.append(v)
    # undefined values carry no information
    if len(order) > 1:
        order2 = [v for v in order if v.op != 'undef']
        if order2:
            order = order2
    if len(order) == 1:
        return order[0]
    if all(v.op == 'b' for v in order):
        r = F
        for v in order:
            r = bor(r, band(by[v], v.a[0]))
        return B(r)
    if any(v.op == 'b' for v in order):
        r = F
        ok = True
        for v in order:
            if v.op == 'b':
                r = bor(r, band(by[v], v.a[0]))
            elif boolish(v):
                r = bor(r, band(by[v], atom(v)))
            else:
                ok = False
        if ok:
            return B(r)
    # structural merge of aggregates with the same constructor
    if all(v.op == 'agg' for v in order):
        h = order[0].a[:2]
        n = len(order[0].a[2])
        if all(v.a[:2] == h and len(v.a[2]) == n for v in order) and h[0] != 'closure':
            ch = []
            for i in range(n):
                ch.append(gam([(by[v], v.a[2][i]) for v in order]))
            return mk('agg', h[0], h[1], tuple(ch))
    # structural merge of updates of the same base
    bases = set(upd_base(v) for v in order)
    if len(bases) == 1 and any(v.op == 'upd' for v in order):
        base = bases.pop()
        keys = {}
        for v in order:
            for k, _ in upd_items(v):
                keys[k] = 1
        out = []
        for k in keys:
            out.append((k, gam([(by[v], getk(v, k)) for v in order])))
        return mkupd(base, out)
    # min / max recognition
    if len(order) >= 2:
        r = _minmax(order, by)
        if r is not None:
            return r
    lst = [(by[v], v) for v in order]
    if len(lst) > MAXGAM:
        vs = sorted(set(v for _, v in lst), key=lambda x: x.id)
        return mk('mix', tuple(vs))
    lst.sort(key=lambda x: x[1].id)
    return mk('gam', tuple(lst))


_boolops = set()


def boolish(v):
    return v.op in ('call', 'fld', 'vfld', 'sym', 'sel', 'phi') and v.meta == 'bool'


def _minmax(order, by):
    for i in range(len(order)):
        for j in range(i + 1, len(order)):
            a, b = order[i], order[j]
            if not (numeric(a) and numeric(b)):
                continue
            ca, cb = by[a], by[b]
            # is there a comparison atom l on (a-b) with ca = U & l', cb = U & !l' ?
            d = of_poly(padd(poly_of(a), poly_of(b), -1))
            if const_val(d) is not None:
                continue
            p, s = normsign(d)
            for kind in ('lt0', 'gt0f', 'le0'):
                if kind == 'lt0':
                    at = mk('lt0', p)
                    if at not in _atomvar:
                        continue
                    l = atom(at)
                elif kind == 'gt0f':
                    at = mk('lt0', p)
                    z = mk('eq0', p)
                    if at not in _atomvar or z not in _atomvar:
                        continue
                    l = bor(atom(at), atom(z))
                else:
                    continue
                U = bor(ca, cb)
                for neg in (False, True):
                    ll = bnot(l) if neg else l
                    if band(U, ll) == ca and band(U, bnot(ll)) == cb:
                        # a chosen when ll (p<0 / p<=0)
                        # p = s*(a-b)*positive
                        less = (s > 0) != neg    # a<b when chosen a
                        m = mkmin(a, b) if less else mkmax(a, b)
                        rest = [(by[v], v) for v in order if v is not a and v is not b]
                        return gam(rest + [(U, m)])
    return None


NONNUM = ('agg', 'str', 'ref', 'b', 'upd', 'bytes', 'closure', 'undef', 'fn', 'mix', 'gam')


def numeric(t):
    return t.op not in NONNUM


def normsign(t):
    """scale numeric term so that the leading coefficient is +1 (abs); returns (term, sign)"""
    d = poly_of(t)
    items = sorted([(m, c) for m, c in d.items() if m != ()], key=lambda x: _mono_key(x[0]))
    if not items:
        return t, 1
    c = items[0][1]
    s = 1 if c > 0 else -1
    f = 1 / c
    return of_poly({m: k * f for m, k in d.items()}), s


def _nary(op, a, b):
    xs = set()
    for t in (a, b):
        if t.op == op:
            xs.update(t.a[0])
        else:
            xs.add(t)
    # constants
    cs = [x for x in xs if const_val(x) is not None]
    if len(cs) > 1:
        best = (min if op == 'min' else max)(cs, key=lambda x: const_val(x))
        xs = set(x for x in xs if const_val(x) is None)
        xs.add(best)
    if len(xs) == 1:
        return xs.pop()
    # absorption min(a, max(a,b)) = a
    return mk(op, tuple(sorted(xs, key=lambda x: x.id)))


def mkmin(a, b):
    return _dist2(lambda x, y: _nary('min', x, y), a, b)


def mkmax(a, b):
    return _dist2(lambda x, y: _nary('max', x, y), a, b)


def _dist1(f, a):
    if a.op == 'gam':
        return gam([(c, f(v)) for c, v in a.a[0]])
    return f(a)


def _dist2(f, a, b):
    if a.op == 'gam' or b.op == 'gam':
        out = []
        for c1, v1 in cases(a):
            for c2, v2 in cases(b):
                c = band(c1, c2)
                if c != F:
                    out.append((c, f(v1, v2)))
        return gam(out)
    return f(a, b)


def add(a, b):
    def f(x, y):
        if not (numeric(x) and numeric(y)):
            return mk('call', 'add', (x, y))
        d = padd(poly_of(x), poly_of(y))
        if len(d) > MAXPOLY:
            return mk('call', 'add', tuple(sorted((x, y), key=lambda t: t.id)))
        return of_poly(d)
    return _dist2(f, a, b)


def neg(a):
    return _dist1(lambda x: of_poly({m: -c for m, c in poly_of(x).items()}) if numeric(x) else mk('call', 'neg', (x,)), a)


def sub(a, b):
    return add(a, neg(b))


def mul(a, b):
    def f(x, y):
        if not (numeric(x) and numeric(y)):
            return mk('call', 'mul', (x, y))
        p, q = poly_of(x), poly_of(y)
        if len(p) * len(q) > MAXPOLY:
            return mk('call', 'mul', tuple(sorted((x, y), key=lambda t: t.id)))
        return of_poly(pmul(p, q))
    return _dist2(f, a, b)


def fdiv(a, b):
    def inv(y):
        cv = const_val(y)
        if cv is not None:
            if cv == 0:
                return mk('inv', y)
            return num(1 / cv)
        p = poly_of(y)
        if len(p) == 1:
            (m, c), = p.items()
            return of_poly({tuple((x, -e) for x, e in m): 1 / c})
        q, s = normsign(y)
        # y = q * lead
        items = sorted([(m, c) for m, c in p.items() if m != ()], key=lambda x: _mono_key(x[0]))
        lead = items[0][1]
        return of_poly({((mk('sum', q), -1),): 1 / lead})
    return _dist2(lambda x, y: mul(x, inv(y)) if numeric(x) and numeric(y) else mk('call', 'fdiv', (x, y)), a, b)


def idiv(a, b):
    def f(x, y):
        cx, cy = const_val(x), const_val(y)
        if cx is not None and cy is not None and cy != 0:
            q = abs(cx) // abs(cy)
            return num(q if (cx >= 0) == (cy > 0) else -q)
        if cy == 1:
            return x
        return mk('idiv', x, y)
    return _dist2(f, a, b)


def irem(a, b):
    def f(x, y):
        cx, cy = const_val(x), const_val(y)
        if cx is not None and cy is not None and cy != 0:
            return num(cx - cy * (cx // cy)) if cx >= 0 and cy > 0 else mk('irem', x, y)
        if cy == 1:
            return num(0)
        return mk('irem', x, y)
    return _dist2(f, a, b)


def sqrt(a):
    def f(x):
        c = const_val(x)
        if c is not None and c >= 0:
            import math
            n, d = c.numerator, c.denominator
            rn, rd = math.isqrt(n), math.isqrt(d)
            if rn * rn == n and rd * rd == d:
                return num(Fraction(rn, rd))
        return mk('sqrt', x)
    return _dist1(f, a)


def fabs(a):
    def f(x):
        c = const_val(x)
        if c is not None:
            return num(abs(c))
        if x.op in ('abs', 'sqrt'):
            return x
        d = poly_of(x)
        q, s = normsign(x)
        items = sorted([(m, c) for m, c in d.items() if m != ()], key=lambda x: _mono_key(x[0]))
        lead = abs(items[0][1])
        return of_poly({((mk('abs', q), 1),): lead})
    return _dist1(f, a)


IEEE = [False]     # keep floating point operations as they are written
NAN_AWARE = [False]


def intlt(p):
    """comparison of integers: remembers that it is one"""
    t = mk('lt0', p)
    t.meta = 'int'
    return t


def ieee(op, *a):
    return mk('call', 'ieee.' + op, a)


def _cmp(kind, isfloat):
    def f(x, y):
        if isfloat and IEEE[0]:
            if kind in ('gt', 'ge'):
                return B(atom(ieee('lt' if kind == 'gt' else 'le', y, x)))
            return B(atom(ieee(kind, x, y)))
        if not (numeric(x) and numeric(y)):
            return B(atom(mk('cmp' + kind, x, y)))
        d = of_poly(padd(poly_of(x), poly_of(y), -1))
        c = const_val(d)
        if c is not None and not (isfloat and NAN_AWARE[0] and x is y and const_val(x) is None and False):
            r = {'lt': c < 0, 'le': c <= 0, 'eq': c == 0, 'gt': c > 0, 'ge': c >= 0}[kind]
            return B(T if r else F)
        p, s = normsign(d)
        k = kind
        if s < 0:
            k = {'lt': 'gt', 'le': 'ge', 'gt': 'lt', 'ge': 'le', 'eq': 'eq'}[kind]
        if isfloat:
            L = atom(mk('lt0', p))
            Z = atom(mk('eq0', p))
            if NAN_AWARE[0]:
                U = atom(mk('nan', p))
                nu = bnot(U)
                e = band(nu, band(bnot(L), Z))
                l = band(nu, L)
                g = band(nu, band(bnot(L), bnot(Z)))
                r = {'lt': l, 'gt': g, 'eq': e, 'le': bor(l, e), 'ge': bor(g, e)}[k]
            else:
                r = {'lt': L, 'ge': bnot(L), 'le': bor(L, Z), 'gt': band(bnot(L), bnot(Z)),
                     'eq': band(bnot(L), Z)}[k]
            return B(r)
        # integers: only lt0 / eq0 atoms
        if k == 'eq':
            return B(atom(mk('eq0', p)))

        def ilt0(q):
            # clear denominators sign-preserving, keep as is
            return atom(intlt(q))
        one = num(1)
        # scale factor between d and p: |1/lead|; integer shift must use d's scale
        items = sorted([(m, cc) for m, cc in poly_of(d).items() if m != ()], key=lambda z: _mono_key(z[0]))
        step = num(abs(1 / items[0][1]))
        if k == 'lt':
            r = ilt0(p)
        elif k == 'ge':
            r = bnot(ilt0(p))
        elif k == 'le':
            # p <= 0  <=> p - step < 0
            r = ilt0(add(p, neg(step)))
        else:
            r = bnot(ilt0(add(p, neg(step))))
        return B(r)
    return f


def cmp(kind, a, b, isfloat):
    if kind == 'ne':
        return B(bnot(as_bdd(cmp('eq', a, b, isfloat))))
    if a.op == 'b' or b.op == 'b':
        x, y = as_bdd(a), as_bdd(b)
        e = bnot(bxor(x, y))
        return B({'eq': e, 'lt': band(bnot(x), y), 'le': bor(bnot(x), y), 'gt': band(x, bnot(y)),
                  'ge': bor(x, bnot(y))}[kind])
    return _dist2(_cmp(kind, isfloat), a, b)


def as_bdd(t):
    if t.op == 'b':
        return t.a[0]
    if t.op == 'gam':
        r = F
        for c, v in t.a[0]:
            r = bor(r, band(c, as_bdd(v)))
        return r
    if t.op == 'undef':
        return F
    return atom(t)


def ite(c, a, b):
    return gam([(c, a), (bnot(c), b)])


def restrict(t, pc):
    """drop the alternatives of t which cannot occur under pc"""
    if t.op == 'gam':
        cs = [(c, v) for c, v in t.a[0] if band(c, pc) != F]
        if len(cs) == len(t.a[0]):
            return t
        if len(cs) == 1:
            return restrict(cs[0][1], pc)
        return gam(cs) if cs else mk('undef')
    return t


# ---------------------------------------------------------------- structures
def upd_base(v):
    return v.a[0] if v.op == 'upd' else v


def upd_items(v):
    return v.a[1] if v.op == 'upd' else ()


def _kk(k):
    return repr(k)


def mkupd(base, items):
    d = dict(upd_items(base))
    base = upd_base(base)
    for k, v in items:
        d[k] = v
    out = []
    for k, v in d.items():
        if v is rawget(base, k):
            continue
        out.append((k, v))
    if not out:
        return base
    out.sort(key=lambda x: _kk(x[0]))
    return mk('upd', base, tuple(out))


def rawget(base, k):
    # k = ('f', i) or ('v', variant, i)
    if k[0] == 'f':
        return mk('fld', base, k[1])
    return mk('vfld', base, k[1], k[2])


def getk(v, k):
    """read component k of struct-like value v"""
    if v.op == 'gam':
        out = []
        for c, x in v.a[0]:
            if k[0] == 'v' and x.op == 'agg' and x.a[1] != k[1]:
                continue
            if k[0] == 'v' and x.op == 'undef':
                continue
            out.append((c, getk(x, k)))
        if not out:
            return mk('undef')
        return gam(out)
    if v.op == 'agg':
        if k[0] == 'f':
            if k[1] < len(v.a[2]):
                return v.a[2][k[1]]
            return mk('undef')
        if v.a[1] != k[1] or k[2] >= len(v.a[2]):
            return mk('undef')
        return v.a[2][k[2]]
    if v.op == 'upd':
        for kk, x in v.a[1]:
            if kk == k:
                return x
        return getk(v.a[0], k)
    if v.op == 'undef':
        return v
    return rawget(v, k)


def setk(v, k, x):
    if v.op == 'gam':
        return gam([(c, setk(y, k, x)) for c, y in v.a[0]])
    if v.op == 'agg':
        ch = list(v.a[2])
        i = k[1] if k[0] == 'f' else k[2]
        if i < len(ch):
            ch[i] = x
            return mk('agg', v.a[0], v.a[1], tuple(ch))
        return v
    if v.op == 'undef':
        return mkupd(v, [(k, x)])
    return mkupd(v, [(k, x)])


def agg(adt, variant, ch):
    ch = tuple(ch)
    # eta: S { 0: b.0, 1: b.1, ... } == b is not applied (needs the type); callers compare fieldwise
    return mk('agg', adt, variant, ch)


# option / result helpers
OPT = 'core::option::Option'
RES = 'core::result::Result'
NONE = agg(OPT, 0, ())


def some(x):
    return agg(OPT, 1, (x,))


def ok(x):
    return agg(RES, 0, (x,))


def err(x):
    return agg(RES, 1, (x,))


def keptrefs(x):
    """an unknown value whose references are known (engine.run_loop)"""
    return x.op == 'ref' or x.op == 'upd' and all(keptrefs(y) for _, y in x.a[1])


def is_variant(v, i, n):
    """condition: enum value v is variant i (of n)"""
    if v.op == 'gam':
        r = F
        for c, x in v.a[0]:
            r = bor(r, band(c, is_variant(x, i, n)))
        return r
    if v.op == 'agg':
        return T if v.a[1] == i else F
    if v.op == 'undef':
        return F
    if v.op == 'upd':
        # component writes do not change the variant
        for k, x in v.a[1]:
            if k[0] == 'v' and not (v.a[0].op == 'phi' and keptrefs(x)):
                return T if k[1] == i else F
        return is_variant(v.a[0], i, n)
    if v.op == 'call' and v.a[0] == 'withvariant':
        return T if v.a[2] == i else F
    if n == 1:
        return T
    if n == 2:
        a = atom(mk('isv', v, 1))
        return a if i == 1 else bnot(a)
    r = T
    for j in range(i):
        r = band(r, bnot(atom(mk('isv', v, j))))
    if i < n - 1:
        r = band(r, atom(mk('isv', v, i)))
    return r


# ---------------------------------------------------------------- substitution / traversal
def children(t):
    for x in t.a:
        if isinstance(x, Term):
            yield x
        elif isinstance(x, tuple):
            for y in x:
                if isinstance(y, Term):
                    yield y
                elif isinstance(y, tuple):
                    for z in y:
                        if isinstance(z, Term):
                            yield z
                        elif isinstance(z, tuple):
                            for w in z:
                                if isinstance(w, Term):
                                    yield w
                                elif isinstance(w, tuple):
                                    for u in w:
                                        if isinstance(u, Term):
                                            yield u
    if t.op == 'b':
        for v in bsupport(t.a[0]):
            yield _atoms[v]
    elif t.op == 'gam':
        for c, _ in t.a[0]:
            for v in bsupport(c):
                yield _atoms[v]


def leaves(t, stop=None, conds=True):
    """all subterms (ids visited once)"""
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if stop is not None and stop(x):
            continue
        if not conds and x.op == 'gam':
            for _, v in x.a[0]:
                st.append(v)
            continue
        for y in children(x):
            st.append(y)
    return seen


def subst(t, m, memo=None, bm=None):
    """replace terms by terms, rebuilding through the smart constructors"""
    if memo is None:
        memo = {}
        bm = {}

    def bs(n):
        return bmap(n, lambda a: as_bdd(go(a)), bm)

    def gx(x):
        if isinstance(x, Term):
            return go(x)
        if isinstance(x, tuple):
            return tuple(gx(y) for y in x)
        return x

    def go(t):
        if t in m:
            return m[t]
        r = memo.get(t)
        if r is not None:
            return r
        op = t.op
        if op == 'p':
            r = num(0)
            for mono, c in t.a[0]:
                q = num(c)
                for x, e in mono:
                    y = go(x)
                    if e > 0:
                        for _ in range(e):
                            q = mul(q, y)
                    else:
                        for _ in range(-e):
                            q = fdiv(q, y)
                r = add(r, q)
        elif op == 'b':
            r = B(bs(t.a[0]))
        elif op == 'gam':
            r = gam([(bs(c), go(v)) for c, v in t.a[0]])
        elif op == 'lt0':
            r = cmp('lt', go(t.a[0]), num(0), True) if False else _re_atom('lt0', go(t.a[0]), t.meta == 'int')
        elif op == 'eq0':
            r = _re_atom('eq0', go(t.a[0]))
        elif op == 'sqrt':
            r = sqrt(go(t.a[0]))
        elif op == 'abs':
            r = fabs(go(t.a[0]))
        elif op in ('min', 'max'):
            xs = [go(x) for x in t.a[0]]
            r = xs[0]
            for x in xs[1:]:
                r = mkmin(r, x) if op == 'min' else mkmax(r, x)
        elif op == 'fld':
            r = getk(go(t.a[0]), ('f', t.a[1]))
        elif op == 'vfld':
            r = getk(go(t.a[0]), ('v', t.a[1], t.a[2]))
        elif op == 'upd':
            r = go(t.a[0])
            for k, v in t.a[1]:
                r = setk(r, k, go(v))
        elif op == 'isv':
            y = go(t.a[0])
            if y is t.a[0]:
                r = t
            else:
                r = B(is_variant(y, t.a[1], 2 if t.a[1] == 1 else 99))
        elif op == 'sum':
            r = go(t.a[0])
        elif op == 'idiv':
            r = idiv(go(t.a[0]), go(t.a[1]))
        elif op == 'irem':
            r = irem(go(t.a[0]), go(t.a[1]))
        else:
            r = mk(op, *[gx(x) for x in t.a])
            if r is not t and r.meta is None:
                r.meta = t.meta
            f = REBUILD.get(op)
            if f is not None:
                r = f(r)
        memo[t] = r
        return r
    return go(t)


REBUILD = {}


def _re_atom(kind, q, isint=False):
    def f(x):
        c = const_val(x)
        if c is not None:
            return B(T if (c < 0 if kind == 'lt0' else c == 0) else F)
        if not numeric(x):
            return B(atom(mk(kind, x)))
        p, s = normsign(x)
        if kind == 'eq0':
            return B(atom(mk('eq0', p)))
        if isint:
            return _cmp('lt', False)(x, num(0))
        if s > 0:
            return B(atom(mk('lt0', p)))
        # p > 0 : treated as float style
        return B(band(bnot(atom(mk('lt0', p))), bnot(atom(mk('eq0', p)))))
    return _dist1(f, q)


# ---------------------------------------------------------------- printing
_left = [0]


def show(t, d=0):
    if d == 0:
        _left[0] = 4000
    if not isinstance(t, Term):
        return str(t)
    _left[0] -= 1
    if d > 14 or _left[0] < 0:
        return '..'
    op = t.op
    s = lambda x: show(x, d + 1)
    if op == 'p':
        if not t.a[0]:
            return '0'
        out = []
        for m, c in t.a[0]:
            ms = '*'.join(s(x) + ('' if e == 1 else '^%d' % e) for x, e in m)
            cs = str(c) if c.denominator == 1 else ('%g' % float(c))
            out.append(ms if (c == 1 and ms) else (cs if not ms else cs + '*' + ms))
        return '(' + ' + '.join(out) + ')' if len(out) > 1 else out[0]
    if op == 'b':
        return bshow(t.a[0], d)
    if op == 'gam':
        return '{' + '; '.join('%s -> %s' % (bshow(c, d + 1), s(v)) for c, v in t.a[0]) + '}'
    if op == 'sym':
        return str(t.a[0])
    if op == 'fld':
        return '%s.%s' % (s(t.a[0]), t.a[1])
    if op == 'vfld':
        return '%s.v%s.%s' % (s(t.a[0]), t.a[1], t.a[2])
    if op == 'agg':
        n = str(t.a[0]).split('::')[-1]
        return '%s#%s(%s)' % (n, t.a[1], ', '.join(s(x) for x in t.a[2]))
    if op == 'upd':
        return '%s{%s}' % (s(t.a[0]), ', '.join('%s:=%s' % (k, s(v)) for k, v in t.a[1]))
    if op == 'call':
        return '%s(%s)' % (t.a[0], ', '.join(s(x) for x in t.a[1:] if True)) if not (len(t.a) == 2 and isinstance(t.a[1], tuple)) else '%s(%s)' % (t.a[0], ', '.join(s(x) for x in t.a[1]))
    if op == 'str':
        return repr(t.a[0])
    if op == 'lt0':
        return '%s<0' % s(t.a[0])
    if op == 'eq0':
        return '%s==0' % s(t.a[0])
    if op in ('min', 'max'):
        return '%s(%s)' % (op, ','.join(s(x) for x in t.a[0]))
    if op == 'phi':
        return 'phi<%s>' % (','.join(str(x) for x in t.a[1:]))

    def g(x):
        if isinstance(x, Term):
            return s(x)
        if isinstance(x, tuple):
            return '(' + ','.join(g(y) for y in x) + ')'
        return str(x)
    return '%s(%s)' % (op, ', '.join(g(x) for x in t.a))


def bshow(n, d=0):
    if d == 0:
        _left[0] = 4000
        d = 1
    if _left[0] < 0:
        return '..'
    if n == F:
        return 'false'
    if n == T:
        return 'true'
    try:
        cs = bcubes(n, 12)
    except TooComplex:
        return '<bdd %d>' % n
    out = []
    for c in cs:
        out.append(' & '.join(('' if b else '!') + show(_atoms[v], d + 1) for v, b in c))
    return '[' + ' | '.join(out) + ']'

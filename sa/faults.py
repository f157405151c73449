"""Where the crate performs input or output, and what becomes of a failure there.

sites: calls of std's Read / BufRead / Seek / Write operations and of functions of the crate that
(transitively) contain such calls and report their outcome.  For one site at a time the enclosing
function is analysed with the outcome of that call fixed to an error; a marker in the analysis
state records that the site was passed.  No path that passed the site may end in success."""
from base import *

READ = ('Read', 'BufRead', 'Seek')
WRITE = ('Write',)


def body_calls(p, b):
    """[(block, fn constant, line)] of the direct calls of a body"""
    out = []
    for i, bl in enumerate(b['blocks']):
        if bl and bl['t'][0] == 'call':
            f = bl['t'][1]
            if 'k' in f and 'fn' in f['k']:
                out.append((i, f['k']['fn'], bl))
    return out


def root_of(p, u):
    b = p.bodies[u]
    n = 0
    while b.get('kind') == 'closure' and b.get('parent') in p.bodies and n < 9:
        b = p.bodies[b['parent']]
        n += 1
    return b['d']


def io_kind(fn):
    """'r' / 'w' / None for a call of std"""
    tr = fn.get('tr')
    if tr:
        t = tr.split('::')
        if 'io' in t:
            if t[-1] in READ:
                return 'r'
            if t[-1] in WRITE:
                return 'w'
        return None
    p = fn['p']
    if p.startswith(('std::io::', 'io::copy', 'std::fs::')) and not p.startswith('std::io::Error'):
        return 's'
    return None


def targets(p, fn):
    r = set()
    if fn.get('rk') == 'item' and fn.get('r') in p.bodies:
        return {fn['r']}
    if fn.get('tr') in p.traits:
        r |= {u for u in p.method_impls.get((fn['tr'], fn['m']), []) if u in p.bodies}
    if fn['d'] in p.bodies:
        r.add(fn['d'])
    return r


def outcome_type(t):
    """'res' for Result<..>, 'opt' for Option<Result<..>>, else None"""
    if t[0] == 'adt' and t[1] == RES:
        return 'res'
    if t[0] == 'adt' and t[1] == OPT and t[2] and t[2][0][0] == 'adt' and t[2][0][1] == RES:
        return 'opt'
    return None


class Sites:
    def __init__(self, c, kinds):
        self.c, self.p, self.kinds = c, c.p, kinds
        p = c.p
        self.direct = {}      # body -> [(block, name, outcome, fn, line)]
        self.callers = {}
        calls = {}
        for u, b in p.bodies.items():
            for blk, fn, bl in body_calls(p, b):
                k = io_kind(fn) or self.std_iter(fn)
                if k and (k in kinds or k == 's'):
                    ot = outcome_type(p.rt(bl['t'][6]))
                    if ot:
                        self.direct.setdefault(u, []).append((blk, fn, ot, bl['sp']))
                for t in targets(p, fn):
                    calls.setdefault(u, []).append((blk, fn, t, bl))
        # closures belong to their function
        self.carrier = {root_of(p, u) for u in self.direct}
        ch = True
        while ch:
            ch = False
            for u, lst in calls.items():
                ru = root_of(p, u)
                if ru in self.carrier:
                    continue
                if any(root_of(p, t) in self.carrier for _, _, t, _ in lst):
                    self.carrier.add(ru)
                    ch = True
        self.via = {}         # body -> [(block, fn, outcome, sp, callee)]
        for u, lst in calls.items():
            seen = set()
            for blk, fn, t, bl in lst:
                if root_of(p, t) in self.carrier and t != u and blk not in seen:
                    if root_of(p, t) == root_of(p, u):
                        continue
                    ot = outcome_type(p.rt(bl['t'][6]))
                    if ot is None and p.rt(bl['t'][6]) not in (('tuple', ()), ('never',)) and bl['t'][4] >= 0:
                        ot = 'raw'
                    if ot:
                        seen.add(blk)
                        self.via.setdefault(u, []).append((blk, fn, ot, bl['sp'], t))
        self.sums = {}
        # failing iterators consumed through std's adapters
        for u, b in p.bodies.items():
            for blk, fn, bl in body_calls(p, b):
                if (fn.get('tr') or '').split('::')[-1] == 'Iterator' and fn['m'] != 'next' and 'r' in kinds and fn['a']:
                    st = p.rt(fn['a'][0])
                    ad = self.failing(st)
                    if ad:
                        self.carrier.add(root_of(p, u))
                        self.via.setdefault(u, []).append((('step', ad), fn, 'opt', bl['sp'], self.next_of(ad)))

    def std_iter(self, fn):
        if (fn.get('tr') or '').split('::')[-1] == 'Iterator' and fn['m'] == 'next' and fn['a'] and fn['a'][0] is not None:
            t = self.p.rt(fn['a'][0])
            if t[0] == 'adt' and '::io::' in t[1]:
                return 'r'
        return None

    def next_of(self, ad):
        if ad == 'std':
            return None
        imp = self.p.find_impl('core::iter::traits::iterator::Iterator', (('adt', ad, ()),))
        return dict(imp[0]['m']).get('next') if imp else None

    def failing(self, t, d=0):
        """the iterator inside an iterator type whose elements report reading failures"""
        if d > 6 or not isinstance(t, tuple) or not t:
            return None
        if t[0] == 'adt':
            if '::io::' in t[1] and t[1].split('::')[-1] in ('Lines', 'Bytes', 'Split'):
                return 'std'
            if t[1] in self.p.adts:
                n = self.next_of(t[1])
                return t[1] if n in self.carrier else None
            for x in t[2]:
                r = self.failing(x, d + 1)
                if r:
                    return r
        if t[0] == 'ref':
            return self.failing(t[2], d + 1)
        return None

    def sites_of(self, root):
        """[(body, block, fn, outcome, sp, callee or None)] within a function and its closures"""
        out = []
        for u in self.p.bodies:
            if root_of(self.p, u) != root:
                continue
            for blk, fn, ot, sp in self.direct.get(u, []):
                out.append((u, blk, fn, ot, sp, None))
            for blk, fn, ot, sp, t in self.via.get(u, []):
                out.append((u, blk, fn, ot, sp, t))
        return sorted(out, key=lambda x: (x[0], str(x[1])))

    def error_value(self, fn, callee, busy=()):
        """the error a failing call hands to its caller"""
        if callee is None:
            return sym('io_error')
        vs = self.variants(root_of(self.p, callee), busy)
        if not vs:
            return sym('io_error')
        out, rest = [], T
        for i, v in enumerate(vs[:-1]):
            a = as_bdd(atom(sym('which_%d' % i))) if False else atom(sym('which_%d' % i))
            out.append((band(rest, a), v))
            rest = band(rest, bnot(a))
        out.append((rest, vs[-1]))
        return gam(out)

    def variants(self, root, busy=()):
        """error values (head constructors) the failures inside a carrier are reported as"""
        if root in self.sums:
            return self.sums[root]
        if root in busy:
            return []
        vs = {}
        for s in self.sites_of(root):
            try:
                r, g, fired = self.run(root, s, busy + (root,))
            except (TooComplex, RecursionError):
                continue
            if not fired:
                continue
            k, bad, e = judge(self.p, root, r, g)
            if e is None:
                continue
            for cc, x in cases(e):
                vs.setdefault(headkey(x), head(x))
        self.sums[root] = [vs[k] for k in sorted(vs, key=str)]
        return self.sums[root]

    def run(self, root, site, busy=()):
        u, blk, fn, ot, sp, callee = site
        e = self.error_value(fn, callee, busy)
        val = err(e) if ot == 'res' else some(err(e)) if ot == 'opt' else e
        last = None
        for opts in ({'inline': lambda x, fr: root_of(self.p, x) not in self.carrier or root_of(self.p, x) == root},
                     {'inline': lambda x, fr: root_of(self.p, x) == root or self.small(x)}):
            o = dict(opts)
            o['fault'] = (u, blk, val)
            if isinstance(blk, tuple):
                f0 = o['inline']
                o['inline'] = lambda x, fr, f0=f0, n=callee: x != n and f0(x, fr)
            try:
                c = self.c
                an, r = run_fault(c, root, o)
                g = as_bdd(r.post_ghost)
                return r, g, an.fault_hits
            except (TooComplex, RecursionError) as x:
                last = x
        raise last

    def small(self, u):
        b = self.p.bodies[u]
        if root_of(self.p, u) in self.carrier:
            return False
        return len(b['blocks']) < 12 or 'fault' in u.lower() or self.conv(b)

    def conv(self, b):
        """conversions between error types and outcome types"""
        t = self.p.rt(b['locals'][0][0])
        return outcome_type(t) is not None or b['name'] in ('from', 'into')


def run_fault(c, root, opts):
    p = c.p
    b = p.bodies[root]
    c.funcs.add(root)
    an = engine.Analysis(p, opts)
    an.fault_hits = 0
    subst = an.param_subst(b)
    G = ('E', 'fault passed')
    r = an.root_call(root, [None] * b['argc'], subst, T, {G: B(F)})
    c.stats['analyses'] = c.stats.get('analyses', 0) + 1
    g = r.st.get(G, B(F)) if r.pc != F else B(F)
    # a marker that went round a loop: set once it was set in any iteration
    n = 0
    while g.op == 'phi' or (g.op in ('gam', 'b') and any(x.op == 'phi' and x.a[1] == G for x in subterms(g))):
        m = {x: B(T) for x in subterms(g) if x.op == 'phi' and x.a[1] == G}
        if g.op == 'phi' and not m:
            break
        g = subst(g, m) if m else g
        n += 1
        if n > 5:
            break
    r.post_ghost = simplify(g, r.pc)
    return an, r


def simplify(g, pc):
    return g


def headkey(x):
    if x.op == 'agg':
        return (x.a[0], x.a[1]) + tuple(headkey(y) for y in x.a[2] if y.op == 'agg' and not str(y.a[0]).startswith('array'))
    return 'other'


def head(x, n=[0]):
    if x.op == 'agg' and x.a[0] != 'array':
        return mk('agg', x.a[0], x.a[1], tuple(head(y) for y in x.a[2]))
    n[0] += 1
    return sym('error payload') if x.op != 'sym' else x


def judge(p, root, r, g):
    """(kind of outcome, condition under which a failure went unreported, error value)"""
    t = p.rt(p.bodies[root]['locals'][0][0])
    ot = outcome_type(t)
    g = band(g, r.pc)
    if ot == 'res':
        e = is_err(r.ret)
        k = band(g, e)
        return ot, band(g, bnot(e)), (getk(restrict(r.ret, k), ('v', 1, 0)) if k != F else None)
    if ot == 'opt':
        s = is_some(r.ret)
        inner = getk(restrict(r.ret, s), ('v', 1, 0)) if s != F else None
        e = band(s, is_err(inner)) if inner is not None else F
        k = band(g, e)
        return ot, band(g, bnot(e)), (getk(restrict(inner, k), ('v', 1, 0)) if k != F else None)
    if t in (('tuple', ()), ('never',)):
        return 'unit', g, None
    # something else: what it returns after a failure is what its callers have to cope with
    return 'raw', F, (restrict(r.ret, g) if g != F else None)

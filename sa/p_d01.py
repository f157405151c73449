"""D01: results do not depend on hash seeds, addresses, time, environment or threads."""
import os
from base import *
import trees
import faults
from trees import *

HASHED = ('HashMap', 'HashSet')
SETS = ('HashMap', 'HashSet', 'BTreeMap', 'BTreeSet')
COMMUTE = ('Add', 'AddWithOverflow', 'Mul', 'MulWithOverflow', 'BitXor', 'BitAnd', 'BitOr', 'AddUnchecked')
WHOLE = {'any', 'all', 'count', 'len', 'is_empty', 'contains', 'contains_key', 'size_hint', 'capacity', 'is_subset', 'is_superset', 'is_disjoint', 'drop'}
SORT = {'sort', 'sort_unstable', 'sort_by', 'sort_by_key', 'sort_unstable_by', 'sort_unstable_by_key', 'sort_by_cached_key', 'par_sort', 'clear'}
PASS = {'map', 'filter', 'filter_map', 'flat_map', 'flatten', 'cloned', 'copied', 'chain', 'into_iter', 'iter', 'iter_mut', 'rev', 'by_ref', 'inspect', 'fuse',
        'retain', 'retain_mut', 'reserve', 'shrink_to_fit', 'clone', 'to_vec', 'drain', 'as_slice', 'as_ref', 'as_mut', 'deref', 'deref_mut', 'borrow', 'borrow_mut',
        'into_boxed_slice', 'into_vec', 'to_owned', 'from', 'into', 'as_mut_slice', 'into_keys', 'into_values', 'keys', 'values', 'values_mut', 'partition', 'unzip', 'append',
        'branch', 'from_residual', 'from_output', 'unwrap', 'expect', 'ok', 'Some'}
PUT = {'push', 'push_back', 'push_front', 'insert', 'extend', 'extend_from_slice', 'append', 'write', 'entry'}
BAN = [('SystemTime::now', 'the time of day'), ('Instant::now', 'the clock'), ('std::env::', 'the process environment'), ('env::var', 'the process environment'),
       ('env::args', 'the process environment'), ('thread::current', 'the identity of a thread'), ('process::id', 'the process id'),
       ('thread::spawn', 'the scheduling of threads'), ('thread::scope', 'the scheduling of threads'), ('available_parallelism', 'the machine'),
       ('RandomState::new', 'a random hash seed'), ('rand::', 'random numbers'), ('getrandom', 'random numbers'), ('fmt::Pointer::fmt', 'an address')]


def randomised(t, d=0):
    """a hashed collection with a per-process seed (also behind references)"""
    while t[0] == 'ref':
        t = t[2]
    if t[0] == 'adt' and t[1].split('::')[-1] in HASHED:
        return any(x and x[0] == 'adt' and x[1].split('::')[-1] == 'RandomState' for x in t[2])
    return False


def setlike(t):
    while t[0] == 'ref':
        t = t[2]
    return t[0] == 'adt' and t[1].split('::')[-1] in SETS


def yields_elements(t):
    if t[0] == 'ref':
        return yields_elements(t[2])
    if t[0] == 'adt':
        p = t[1]
        if ('hash::map' in p or 'hash::set' in p or 'hash_map' in p or 'hash_set' in p) and p.split('::')[-1] not in HASHED + ('Entry', 'OccupiedEntry', 'VacantEntry', 'RandomState', 'DefaultHasher'):
            return True
    return False


class Taint:
    def __init__(self, c):
        self.c, self.p = c, c.p
        self.memo = {}
        self.busy = set()
        self.sources = {}
        self.builders = {}
        self.changed = False

    def lty(self, b, l):
        return self.p.rt(b['locals'][l][0])

    # -------------------------------------------------- one body
    def nodes(self, b):
        """local -> the local it refers to (references), captured locals of closures"""
        par = {}

        def find(x):
            while par.get(x, x) != x:
                x = par[x]
            return x
        for bl in b['blocks']:
            if not bl:
                continue
            for s in bl['s']:
                if s[0] != '=' or s[1][1]:
                    continue
                d, rv = s[1][0], s[2]
                if rv[0] in ('ref', 'reborrow', 'rawptr'):
                    src = rv[-1][0]
                elif rv[0] in ('use', 'cast') and b['locals'][d]:
                    o = rv[1] if rv[0] == 'use' else rv[2]
                    pl = isinstance(o, dict) and (o.get('m') or o.get('c'))
                    if not pl or self.lty(b, d)[0] != 'ref' and self.lty(b, d)[0] != 'ptr':
                        continue
                    src = pl[0]
                else:
                    continue
                x, y = find(d), find(src)
                if x != y and d > b['argc']:
                    par[x] = y
            t = bl['t']
            if t[0] == 'call' and not t[3][1] and t[3][0] > b['argc'] and t[2]:
                # references returned by a call refer into its first argument
                rt = self.p.rt(t[6])
                o = t[2][0]
                pl = o.get('m') or o.get('c') if isinstance(o, dict) else None
                if rt[0] == 'ref' and rt[1] and pl:
                    x, y = find(t[3][0]), find(pl[0])
                    if x != y:
                        par[x] = y
        return find

    def summary(self, u, argt):
        """(tags of the result, {argument: tags}) of a function given tags of its arguments"""
        key = (u, argt)
        if key in self.busy:
            return self.memo.get(key, (frozenset(), {}))
        if key in self.memo:
            return self.memo[key]
        self.busy.add(key)
        while True:
            old = self.memo.get(key)
            r = self.body(u, argt)
            self.memo[key] = r
            if r == old:
                break
        self.busy.discard(key)
        return r

    def body(self, u, argt):
        p = self.p
        b = p.bodies[u]
        find = self.nodes(b)
        order = range(len(b['blocks']))
        init = {}
        for i, t in enumerate(argt):
            if t:
                init[i + 1] = frozenset(t)
        states = {0: init}
        work = [0]
        out_ret, out_arg = frozenset(), {}
        n = 0
        self.cap = {}
        while work and n < 4000:
            n += 1
            k = work.pop()
            bl = b['blocks'][k]
            st = dict(states[k])
            pend = {}
            for s in bl['s']:
                if s[0] == '=':
                    self.assign(b, find, st, s[1], self.rvalue(b, find, st, s[1], s[2], pend), s[2])
            t = bl['t']
            succ = []
            if t[0] == 'call':
                self.call(u, b, find, st, t, bl['sp'] if 'sp' in bl else None)
                if t[4] is not None and t[4] >= 0:
                    succ.append(t[4])
            elif t[0] == 'switch':
                succ += [x for _, x in t[3]] + [t[4]]
            elif t[0] == 'ret':
                out_ret |= st.get(find(0), frozenset())
                for i in range(b['argc']):
                    g = st.get(find(i + 1), frozenset()) - init.get(i + 1, frozenset())
                    if g:
                        out_arg[i] = out_arg.get(i, frozenset()) | g
            elif t[0] == 'goto':
                succ.append(t[1])
            elif t[0] == 'assert':
                succ.append(t[4])
            elif t[0] == 'drop':
                succ.append(t[2])
            else:
                succ += [x for x in t[1:] if isinstance(x, int) and 0 <= x < len(b['blocks'])]
            for x in succ:
                if not isinstance(x, int) or x < 0 or x >= len(b['blocks']) or not b['blocks'][x]:
                    continue
                o = states.get(x)
                m = dict(o) if o is not None else {}
                for l, g in st.items():
                    if g:
                        m[l] = m.get(l, frozenset()) | g
                if o is None or m != o:
                    states[x] = m
                    if x not in work:
                        work.append(x)
        return out_ret, out_arg

    def tags(self, find, st, o):
        pl = o.get('m') or o.get('c') if isinstance(o, dict) else None
        if not pl:
            return frozenset()
        g = st.get(find(pl[0]), frozenset())
        if g and any(isinstance(e, list) and e[0] in ('i', 'c') for e in pl[1]) and 'U' in g:
            g = (g - {'U'}) | {'T'}
        if pl[1]:
            for e in pl[1]:
                pass
        return g

    def assign(self, b, find, st, pl, g, rv):
        l = pl[0]
        if rv[0] in ('ref', 'reborrow', 'rawptr') and not pl[1]:
            return
        if setlike(self.lty(b, l)) and 'T' not in g:
            g = frozenset()
        d = find(l)
        if not pl[1] and d == l:
            st[d] = g
        else:
            st[d] = st.get(d, frozenset()) | g

    def rvalue(self, b, find, st, dst, rv, pend):
        k = rv[0]
        if k == 'use':
            o = rv[1]
            pl = o.get('m') or o.get('c') if isinstance(o, dict) else None
            if pl and pl[0] in pend and dst[0] in pend[pl[0]]:
                return frozenset() if find(dst[0]) == dst[0] and False else st.get(find(dst[0]), frozenset())
            return self.tags(find, st, o)
        if k == 'bin':
            g = self.tags(find, st, rv[2]) | self.tags(find, st, rv[3])
            if rv[1] in COMMUTE and self.p.rt(rv[4])[0] == 'prim' and self.p.rt(rv[4])[1][0] in 'iu' and 'T' not in g:
                src = [(o.get('m') or o.get('c'))[0] for o in (rv[2], rv[3]) if (o.get('m') or o.get('c')) and not (o.get('m') or o.get('c'))[1]]
                if dst[0] in src:
                    return st.get(find(dst[0]), frozenset())
                self.acc = getattr(self, 'acc', {})
                self.acc[(id(b), dst[0])] = set(src)
            return g
        if k == 'un':
            return self.tags(find, st, rv[2])
        if k == 'cast':
            return self.tags(find, st, rv[2])
        if k == 'repeat':
            return self.tags(find, st, rv[1])
        if k == 'agg':
            g = frozenset()
            for o in rv[2]:
                g |= self.tags(find, st, o)
            if rv[1][0] == 'closure':
                self.cap[dst[0]] = (rv[1][1], [(o.get('m') or o.get('c') or [None])[0] for o in rv[2]])
                return g
            return g
        return frozenset()

    # -------------------------------------------------- calls
    def call(self, u, b, find, st, t, sp):
        p = self.p
        f, args, dst = t[1], t[2], t[3]
        fn = f['k'].get('fn') if isinstance(f, dict) and 'k' in f else None
        ats = [p.rt(x) for x in t[5]] if t[5] else []
        rty = p.rt(t[6])
        at = [self.tags(find, st, o) for o in args]
        nodes = [find((o.get('m') or o.get('c'))[0]) if isinstance(o, dict) and (o.get('m') or o.get('c')) else None for o in args]
        d = find(dst[0])
        ret = frozenset()
        name = (fn['m'] if fn and fn.get('m') else fn['p'].split('::')[-1]) if fn else ''
        eff = {}
        # sources
        src = [i for i, x in enumerate(ats) if randomised(x)]
        if src and fn:
            if yields_elements(rty) and not (setlike(ats[0]) and name in ('entry', 'get', 'get_mut')):
                ret |= {'U'}
                self.sources.setdefault(u, set()).add(tuple(sp or ()))
            elif not setlike(ats[0]) or name in ('from_iter', 'collect', 'into_iter'):
                if name == 'into_iter' and not setlike(rty) and rty[0] != 'ref':
                    ret |= {'U'}
                    self.sources.setdefault(u, set()).add(tuple(sp or ()))
                elif fn.get('d') not in p.bodies and fn.get('tr') not in p.traits and name in ('extend', 'from_iter', 'collect', 'chain', 'zip', 'flat_map', 'max', 'min'):
                    self.sources.setdefault(u, set()).add(tuple(sp or ()))
                    if name in ('extend',):
                        eff[0] = frozenset('U')
                    else:
                        ret |= {'U'}
        if any(at) or ret or eff:
            al = frozenset().union(*at) if at else frozenset()
            tg = faults.targets(p, fn) if fn else set()
            cl = [(i, self.cap.get((o.get('m') or o.get('c'))[0])) for i, o in enumerate(args) if isinstance(o, dict) and (o.get('m') or o.get('c'))]
            cl = [(i, x) for i, x in cl if x]
            if tg:
                for x in sorted(tg):
                    if x not in p.bodies:
                        continue
                    bx = p.bodies[x]
                    if self.builder(x, at, ats):
                        continue
                    r, m = self.summary(x, tuple(at[:bx['argc']]))
                    ret |= r
                    for i, g in m.items():
                        eff[i] = eff.get(i, frozenset()) | g
            elif al:
                self.std(u, fn, name, at, ats, rty, al, eff, ret, cl, p, b, find, st)
                ret |= self.out
        if setlike(rty) and 'T' not in ret:
            ret = frozenset()
        for i, g in eff.items():
            if i < len(nodes) and nodes[i] is not None and g:
                ty = ats[i] if i < len(ats) else ('?',)
                if setlike(ty) and 'T' not in g:
                    continue
                st[nodes[i]] = st.get(nodes[i], frozenset()) | g
        for i in self.clean if hasattr(self, 'clean') else ():
            if nodes[i] is not None:
                st[nodes[i]] = frozenset()
        self.clean = ()
        if rty == ('tuple', ()) or rty[0] == 'never':
            ret = frozenset()
        if not dst[1] and d == dst[0]:
            st[d] = ret
        elif not (rty[0] == 'ref'):
            st[d] = st.get(d, frozenset()) | ret
        elif ret:
            st[d] = st.get(d, frozenset()) | ret

    def std(self, u, fn, name, at, ats, rty, al, eff, ret, cl, p, b, find, st):
        """library and trait functions given tagged arguments"""
        self.out = frozenset()
        self.clean = ()
        first = at[0] if at else frozenset()
        elem = frozenset('T') if 'T' in al else frozenset('E') if al & {'U', 'E'} else frozenset()
        # closures are applied to the elements
        for i, (cu, caps) in cl:
            if cu in p.bodies:
                nb = p.bodies[cu]['argc']
                r, m = self.summary(cu, tuple([frozenset()] + [elem] * (nb - 1)))
                if 0 in m:
                    for x in caps:
                        if x is not None and not setlike(self.lty(b, x)):
                            n = find(x)
                            st[n] = st.get(n, frozenset()) | ({'T'} if 'T' in m[0] else {'U'})
        if name in SORT and first:
            self.clean = (0,)
            return
        if 'T' in al and name not in WHOLE:
            self.out = frozenset('T')
            for i, x in enumerate(ats):
                if x[0] == 'ref' and x[1] and (i == 0 or at[i]):
                    eff[i] = eff.get(i, frozenset()) | {'T'}
            return
        if 'U' in first:
            if name in WHOLE:
                return
            if name == 'next':
                self.out = frozenset('E')
                return
            if name in ('for_each', 'try_for_each'):
                return
            if name in ('sum', 'product', 'max', 'min') and rty[0] in ('prim', 'adt') and 'f' != (rty[1] if rty[0] == 'prim' else 'i')[0]:
                if rty[0] == 'prim' or rty[2] and (rty[2][0][0] == 'prim' or rty[2][0][0] == 'ref' and rty[2][0][2][0] == 'prim'):
                    return
            if name in ('collect', 'from_iter'):
                self.out = frozenset() if setlike(rty) else frozenset('U')
                return
            if name in PASS or name in PUT or rty[0] == 'adt' and ('::iter::' in rty[1] or yields_elements(rty)) and name not in ('take', 'skip', 'step_by', 'zip', 'enumerate', 'scan', 'take_while', 'map_while', 'skip_while', 'peekable'):
                if rty != ('tuple', ()):
                    self.out = frozenset('U')
                if name == 'append' and len(ats) > 1:
                    eff[0] = frozenset('U')
                return
            if rty[0] == 'ref' and name in ('index', 'index_mut', 'get', 'get_mut'):
                self.out = frozenset('T')
                return
            self.out = frozenset('T')
            if ats[0][0] == 'ref' and ats[0][1]:
                eff[0] = frozenset('T')
            return
        # tagged values handed to an untagged object
        if name in ('from_iter', 'collect') and 'U' in al:
            self.out = frozenset() if setlike(rty) else frozenset('U')
            return
        if ats and ats[0][0] == 'ref' and ats[0][1]:
            if setlike(ats[0]):
                if name in PUT or name in ('remove', 'retain', 'take', 'replace', 'contains', 'get', 'get_mut'):
                    self.out = frozenset() if rty == ('bool',) else frozenset('E')
                    return
            g = frozenset('U')
            eff[0] = eff.get(0, frozenset()) | g
        for i, x in enumerate(ats):
            if i and x[0] == 'ref' and x[1] and not setlike(x):
                eff[i] = eff.get(i, frozenset()) | {'U'}
        if name in WHOLE and 'E' not in first:
            return
        self.out = frozenset(x for x in al if x in 'EU')

    # -------------------------------------------------- trees whose shape is independent of the order of their input
    def builder(self, x, at, ats):
        p = self.p
        if not recursive(p, x):
            return False
        for i, g in enumerate(at):
            if g == frozenset('U') and i < p.bodies[x]['argc']:
                ty = p.rt(p.bodies[x]['locals'][i + 1][0])
                if ty[0] == 'adt' and ty[1].split('::')[-1] in ('Vec', 'VecDeque'):
                    if x not in self.builders:
                        self.builders[x] = self.insensitive(x, i)
                    return self.builders[x]
        return False

    def insensitive(self, x, i):
        c = self.c
        key = c.p.label(x) + '.order of input'
        try:
            t = trees.Tree(c, x)
            node, pc = t.built()
        except (TooComplex, Missing) as e:
            c.undecided(key, str(e))
            return True
        inp = t.input()
        perm = mk('call', 'PERM', (inp,))
        other = subst(node, {inp: perm})
        pass

        def more(e, q):
            if q.op == 'call' and q.a[0] == 'PERM':
                xs = list(e.toseq(e.ev(q.a[1][0])).xs)
                return evalt.Seq(xs[e.seed % (len(xs) or 1):][::-1] + xs[:e.seed % (len(xs) or 1)])
            if q.op == 'call' and q.a[0] == 'SHAPE':
                return evalt.Tok(shape(e.ev(q.a[1][0])))
            return None
        n0 = len(c.bad)
        r = c.eq(key, mk('call', 'SHAPE', (node,)), mk('call', 'SHAPE', (other,)), x,
                 'the tree built from elements in one order equals the tree built from them in another (a hashed set hands them over in an order that changes from process to process)',
                 pc=pc, hook=t.hook(more), maxlen=(2, 3, 4, 5), rounds=200)
        return True


def shape(v):
    if isinstance(v, Sub):
        return evalt._h('sub', *sorted(evalt.key(x) for x in v.xs))
    if isinstance(v, evalt.Agg):
        return evalt._h('agg', str(v.d), v.v, *[shape(x) for x in v.ch])
    if isinstance(v, evalt.Seq):
        return evalt._h('seq', *[shape(x) for x in v.xs])
    return evalt.key(v)


def run(c):
    p = c.p
    tn = Taint(c)
    n = 0
    roots = sorted(u for u, b in p.bodies.items() if b.get('kind') in ('fn', 'closure') or b.get('kind') is None)
    roots = [u for u in roots if p.bodies[u].get('kind') == 'fn']
    leaks = []
    for u in roots:
        b = p.bodies[u]
        c.funcs.add(u)
        r, m = tn.summary(u, tuple(frozenset() for _ in range(b['argc'])))
        n += 1
        bad = set(r)
        for i, g in m.items():
            bad |= g
        if bad:
            leaks.append(u)
    rep = set()
    for u in leaks:
        # reported where the order first gets out
        if any(x in leaks and x != u for x in callees(p, u)) and u not in tn.sources:
            continue
        rep.add(u)
    for u in roots:
        key = 'order.' + p.label(u)
        if u in rep:
            c.fail(key, 'the order in which a hashed collection with a per-process random seed hands out its elements reaches the result or the caller\'s objects', u,
                   {'collections iterated': [srcloc(s) for s in sorted(tn.sources.get(u, []), key=str)]})
        else:
            c.good(key)
    # other sources
    k = 0
    for u, b in sorted(p.bodies.items()):
        for blk, fn, bl in faults.body_calls(p, b):
            k += 1
            for pat, what in BAN:
                if pat in fn['p'] or pat in (fn.get('rp') or ''):
                    if pat == 'RandomState::new' and 'hash::map' in fn['p']:
                        continue
                    c.fail('source.%s.%s' % (p.label(u), pat), 'uses %s (%s)' % (what, fn['p']), u)
        for bl in b['blocks']:
            for s in (bl or {'s': ()})['s']:
                if s[0] == '=' and s[2][0] == 'cast':
                    if 'PointerExpose' in s[2][1]:
                        c.fail('source.%s.address' % p.label(u), 'turns an address into a number', u)
                if s[0] == '=' and s[2][0] == 'tls':
                    c.fail('source.%s.tls' % p.label(u), 'uses a thread local', u)
    c.good('sources')
    c.stats['call sites'] = k
    c.stats['iterations of seeded collections'] = sum(len(x) for x in tn.sources.values())
    c.floor('functions', n, 600)
    if os.environ.get("SA_DEBUG"):
        print(tn.sources, tn.builders)
    return {'rule': 'flow-sensitive interprocedural taint over MIR: elements and iterators of collections hashed with RandomState are unordered until consumed by an order-insensitive '
                    'operation or sorted; none may reach a result or an object of the caller. No use of clocks, environment, threads, random numbers or addresses.'}

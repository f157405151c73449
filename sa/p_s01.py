"""S01: what scratch and result buffers held before does not matter; shared objects are frozen."""
from iocheck import *
import engine
from engine import sel
import random
import time

CELLS = ('UnsafeCell', 'RefCell', 'Cell', 'OnceCell', 'LazyCell', 'Mutex', 'RwLock', 'OnceLock', 'LazyLock', 'Once')
APPEND, REPLACE, UNION = 'append', 'replace', 'union'
STDLAW = {'BufRead::read_until': (2, APPEND), 'Read::read_to_end': (1, APPEND), 'BufRead::read_line': (1, APPEND), 'Read::read_to_string': (1, APPEND)}


def deref(t):
    while t[0] == 'ref':
        t = t[2]
    return t


def params(p, b):
    return [p.rt(b['locals'][i + 1][0], ()) for i in range(b['argc'])]


def is_vec(t):
    return t[0] == 'adt' and t[1].split('::')[-1] in ('Vec', 'VecDeque')


def buffers(p, b):
    """positions of the &mut Vec parameters other than self"""
    r = []
    for i, t in enumerate(params(p, b)):
        nm = b['locals'][i + 1][1:] or ['']
        if t[0] == 'ref' and t[1] and is_vec(t[2]) and nm[0] != 'self':
            r.append(i)
    return r


def mutrefs(p, b):
    return [i for i, t in enumerate(params(p, b)) if t[0] == 'ref' and t[1]]


class Laws:
    """what is known about calls that are kept as calls"""

    def __init__(self, c):
        self.c = c
        self.p = c.p
        self.by = {}
        for u, b in c.p.bodies.items():
            if b['kind'] != 'fn' or 'closure' in u:
                continue
            bs = buffers(c.p, b)
            if bs:
                self.by.setdefault(b['p'].split('::')[-1], []).append((u, b, bs))
        self.law = {}
        self.used = set()
        self.T = iotheory.Theory(c)
        self.T.limit = 60
        self.names = set()

    def find(self, name, n):
        nm = str(name).split('::')[-1]
        for u, b, bs in self.by.get(nm, ()):
            if b['argc'] == n:
                self.used.add(u)
                return b, bs
        return None

    def hook(self, e, t):
        k = None
        if t.op == 'phi':
            R = self.T.loops.get(t)
            if R is None:
                raise Unsupported('loop symbol')
            k = ('loop', id(R))
            if k not in e.memo:
                e.memo[k] = self.T.iterate(e, R)
            return e.memo[k][t]
        if t.op == 'ref' and t.a[0][0] == 'E':
            v = sym(t.a[0][1])
            for x in t.a[1]:
                v = sel(v, x[1]) if x[0] == 'i' else getk(v, x)
            return e.ev(v)
        if t.op == 'post' and t.a[0].op == 'call':
            call, k = t.a[0], t.a[1]
        elif t.op == 'call':
            call = t
        else:
            return None
        name, args = call.a[0], call.a[1]
        if not isinstance(args, tuple):
            return None
        if k is None and str(name) in ('sort_by', 'sort_unstable_by', 'sort', 'sort_unstable', 'sort_by_key'):
            how = tuple(evalt.key(e.ev(a)) for a in args[1:])
            return Seq(sorted(iotheory.items(e.ev(args[0])), key=lambda v: evalt._h('order', e.seed, how, evalt.key(v))))
        s = STDLAW.get(str(name))
        if s:
            bs, muts, law = [s[0]], [0, s[0]], {s[0]: s[1]}
        else:
            f = self.find(name, len(args))
            if f is None:
                return None
            b, bs = f
            muts = mutrefs(self.p, b)
            law = {j: self.law.get((b['d'], j), APPEND) for j in bs}
        others = tuple(evalt.key(e.ev(a)) for j, a in enumerate(args) if j not in bs)
        if k is None:
            if t.meta == 'bool':
                return None
            return evalt.Tok(repr(('ret', str(name), others)))
        j = muts[k] if k < len(muts) else None
        if j not in bs:
            return evalt.Tok(repr(('post', str(name), k, others))) if j is not None else None
        h = int(evalt._h('out', e.seed, str(name), k, others)[:8], 16)
        out = [evalt.Tok(repr(('out', str(name), k, i, others))) for i in range(h % 3)]
        old = list(iotheory.items(e.ev(args[j]))) if law[j] == APPEND else []
        return Seq(old + out)


def keyed(v):
    return evalt.key(v)


def every(t, limit=6000):
    """all parts of a term, those of its conditions included"""
    seen, st, bits = set(), [t], set()
    while st and len(seen) < limit:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'b':
            st += [TM._atoms[v] for v in TM.bsupport(x.a[0])]
        elif x.op == 'gam':
            for g, v in x.a[0]:
                st += [TM._atoms[i] for i in TM.bsupport(g)] + [v]
        else:
            st.extend(TM.children(x))
    return seen


def lengths(outs, bufs):
    """numbers the old length of a buffer is compared with"""
    r = set()
    for nm, t, s in outs:
        for x in every(t):
            if x.op in ('lt0', 'eq0') and x.a[0].op == 'p':
                c0, own = 0, False
                for mono, k in x.a[0].a[0]:
                    if not mono:
                        c0 = k
                    elif any(y.op == 'len' and y.a[0] in bufs for y, _ in mono):
                        own = True
                if own and abs(c0) < 6000:
                    r |= {int(abs(c0)) + d for d in (-1, 0, 1)}
    return sorted(x for x in r if x > 3)


def regions(r, outs):
    """conditions under which the analysis distinguishes behaviours"""
    out = []
    for nm, t, s in outs:
        if t.op == 'gam':
            out += [g for g, _ in t.a[0]][:16]
    for q in list(r.an.loops.values()):
        if isinstance(q, engine.Loop):
            out += [q.pc, q.back_pc]
    out += [e.pc for e in r.an.events if e.kind == 'call'][:60]
    seen, res = set(), []
    for g in out:
        try:
            g = band(r.pc, g)
        except TM.TooComplex:
            continue
        if g != F and g not in seen:
            seen.add(g)
            res.append(g)
    return res[:50]


def valuations(L, r, outs, bufs):
    """pairs of evaluators which differ in the old contents of the buffers only"""
    dead = time.time() + 12
    more = lengths(outs, bufs)

    def pair(seed, mode, n=None):
        olds = {s: [evalt.Tok('old %s %d %d' % (s, seed, i)) for i in range((seed + j) % 4 if n is None else n)] for j, s in enumerate(bufs)}
        if seed % 3 == 0:
            olds = {s: [Fr(7 + i) for i in range(len(x))] for s, x in olds.items()}
        make = lambda env: evalt.Ev(seed, env, mode, 3, None, 200000, L.hook)
        return make({s: Seq(x) for s, x in olds.items()}), make({s: Seq([]) for s in bufs}), olds
    for seed in range(120):
        for mode in (0, 1):
            yield pair(seed, mode)
    rs = regions(r, outs)
    for k in range(4):
        for n in [None] + more:
            for ri, q in enumerate(rs):
                if time.time() > dead:
                    return
                a, b, olds = pair(1000 + 17 * ri + k, k % 2, n)
                try:
                    if not evalt.guided(a, q, random.Random(7919 * ri + k)):
                        continue
                except (Unsupported, OverflowError, ZeroDivisionError, RecursionError):
                    continue
                a.memo.clear()
                a.steps = 0
                b.over = dict(a.over)
                yield a, b, olds


def independent(c, L, key, u, r, outs, bufs, what):
    """outs: [(name, term, symbol of its own buffer or None)]; bufs: the symbols of the buffers"""
    n, why = 0, None
    L.T.add(r)
    modes = {nm: {APPEND, REPLACE, UNION} for nm, t, s in outs if s is not None}
    wit = {}
    for a, b, olds in valuations(L, r, outs, bufs):
        if True:
            try:
                if r.pc != T and not (a.bdd(r.pc) and b.bdd(r.pc)):
                    continue
                for nm, t, s in outs:
                    x, y = a.ev(t), b.ev(t)
                    if s is None:
                        if not a.eq(x, y):
                            if a.vague or b.vague:
                                why = (a.vague + b.vague)[0]
                                continue
                            c.fail(key, '%s depends on what the buffers held: %s %s with %d old entries, %s with empty buffers' %
                                   (what, nm, evalt.short(x), max(map(len, olds.values())), evalt.short(y)), u)
                            return None
                    else:
                        if a.vague or b.vague:
                            why = (a.vague + b.vague)[0]
                            continue
                        kx, ky = [keyed(v) for v in iotheory.items(x)], [keyed(v) for v in iotheory.items(y)]
                        ko = [keyed(v) for v in olds[s]]
                        for m, ok in ((APPEND, kx == ko + ky), (REPLACE, kx == ky), (UNION, len(set(kx)) == len(kx) and set(kx) == set(ko) | set(ky))):
                            if not ok and m in modes[nm]:
                                modes[nm].discard(m)
                                wit[nm] = (len(ko), len(kx), len(ky))
                        if not modes[nm]:
                            c.fail(key, '%s: %s is neither the old content followed by the results nor the results alone: %d entries from %d old ones, %d from none' %
                                   ((what, nm) + (wit[nm][1], wit[nm][0], wit[nm][2])), u)
                            return None
                n += 1
            except (Unsupported, OverflowError, ZeroDivisionError, RecursionError) as ex:
                why = str(ex)
    if n >= 3:
        c.good(key)
        return modes
    c.undecided(key, why or 'no valuation')
    return None


def functions(c, L):
    p = c.p
    todo = []
    for u, b in sorted(p.bodies.items(), key=lambda x: 'fetch_line' in x[0]):
        if b['kind'] != 'fn' or 'closure' in u:
            continue
        bs = buffers(p, b)
        io_ = b['p'].split('::')[-1] in ('next_line', 'fetch_line')
        if not bs or b['argc'] == len(bs) or not (b.get('vis') or io_):
            continue
        todo.append((u, b, bs))
    for u, b, bs in todo:
        key = 'buffer/' + p.label(u)
        c.guard(key, one, c, L, key, u, b, bs)
    done = {u for u, b, bs in todo}
    while L.used - done:
        u = sorted(L.used - done)[0]
        done.add(u)
        b = p.bodies[u]
        key = 'buffer/' + p.label(u)
        c.guard(key, one, c, L, key, u, b, buffers(p, b))
    return len(done)


def one(c, L, key, u, b, bs):
    p = c.p
    syms = {j: sym('old%d' % j) for j in bs}
    r = c.call(u, *[syms.get(j) or sym('arg%d' % j) for j in range(b['argc'])])
    names = [(b['locals'][i + 1][1:] or ['argument %d' % i])[0] for i in range(b['argc'])]
    outs = [('the result', r.ret, None)]
    for i in mutrefs(p, b):
        outs.append((names[i], r.post(i), syms.get(i)))
    m = independent(c, L, key, u, r, outs, list(syms.values()), p.label(u))
    if m:
        for j in bs:
            s = m.get(names[j])
            if s and APPEND not in s:
                L.law[(b['d'], j)] = REPLACE


# ---------------------------------------------------------------- hidden state
def cellular(t):
    if isinstance(t, tuple):
        if t and t[0] == 'adt' and (t[1].split('::')[-1] in CELLS or 'atomic::' in t[1]):
            return True
        return any(cellular(x) for x in t)
    return False


def hidden(c, L):
    p = c.p
    n = 0
    for d, a in sorted(p.adts.items()):
        for vi, v in enumerate(a['v']):
            n += 1
            fs = v[1]
            cells = [i for i, f in enumerate(fs) if cellular(p.rt(f[1], ()))]
            if not cells:
                continue
            for u, b in sorted(p.bodies.items()):
                if b['kind'] != 'fn' or 'closure' in u or not b['argc']:
                    continue
                t0 = p.rt(b['locals'][1][0], ())
                if deref(t0)[0] != 'adt' or deref(t0)[1] != d or t0[0] != 'ref' or 'fmt::' in p.label(u) or 'Debug' in p.label(u):
                    continue
                key = 'hidden state/' + p.label(u)
                c.guard(key, hiding, c, L, key, u, b, d, vi, cells, len(fs), t0)
    for s in p.d.get('statics', []):
        n += 1
        t = p.rt(s['t'], ())
        nm = 'static ' + s['d'].replace('rust_3d::', '')
        if s['mut'] or cellular(t):
            c.fail('hidden state/' + nm, 'a %s can carry information from one call to the next' % ('mutable static' if s['mut'] else 'static with interior mutability'))
        else:
            c.good('hidden state/' + nm)
    c.stats['types and statics'] = n
    c.floor('types and statics', n, 60)
    for u, b in p.bodies.items():
        for bl in b["blocks"] or ():
            if not bl:
                continue
            for st in bl["s"] or ():
                if is_freeze_break(p, b, st):
                    c.fail('hidden state/cast in ' + p.label(u), 'a shared reference is turned into a mutable pointer', u)


def is_freeze_break(p, b, st):
    """a cast which adds mutability to a pointer or reference"""
    def casts(x):
        if isinstance(x, (list, tuple)):
            if len(x) >= 5 and x[0] == 'cast' and isinstance(x[1], str):
                yield x
            for y in x:
                yield from casts(y)
    for x in casts(st):
        try:
            a, z = p.rt(x[3], ()), p.rt(x[4], ())
        except Exception:
            continue
        if a[0] in ('ptr', 'ref') and z[0] == 'ptr' and not a[1] and z[1]:
            return True
    return False


def hiding(c, L, key, u, b, d, vi, cells, n, t0):
    p = c.p
    fs = [sym('field%d' % i) for i in range(n)]
    olds = [sym('old%d' % i) for i in cells]
    for i, s in zip(cells, olds):
        fs[i] = s
    self_ = agg(d, vi, tuple(fs))
    r = c.call(u, self_, *[sym('arg%d' % j) for j in range(1, b['argc'])])
    outs = [('the result', r.ret, None)]
    for i in mutrefs(p, b):
        if i:
            outs.append(('argument %d' % i, r.post(i), None))
    if t0[1]:
        for i in range(n):
            if i not in cells:
                outs.append(('field %d' % i, getk(r.post(0), ('f', i)), None))
    independent(c, L, key, u, r, outs, olds, p.label(u))


# ---------------------------------------------------------------- scratch fields of the incremental readers
def scratch(p, t):
    """a vector of bytes"""
    return t[0] == 'adt' and t[1].split('::')[-1] == 'Vec' and t[2] and t[2][0] == ('prim', 'u8')


def fields_of(c, v):
    a = c.p.adts.get(v.d) if isinstance(v, Agg) else None
    if a is None or not isinstance(v.v, int) or v.v >= len(a['v']):
        return None
    return a['v'][v.v][1]


def buffers_in(c, v, path=()):
    out = []
    if not isinstance(v, Agg):
        return out
    fs = fields_of(c, v)
    for i, x in enumerate(v.ch):
        if fs and i < len(fs) and scratch(c.p, c.p.rt(fs[i][1], ())):
            out.append(path + (i,))
        elif isinstance(x, Agg):
            out += buffers_in(c, x, path + (i,))
    return out


def at(v, path):
    for i in path:
        v = v.ch[i]
    return v


def put(v, path, x):
    if not path:
        return x
    ch = list(v.ch)
    ch[path[0]] = put(ch[path[0]], path[1:], x)
    return Agg(v.d, v.v, ch)


def dirty(io, rd, case):
    """[(call number, what differs)] of an incremental reader whose byte buffers are exchanged before a call"""
    c = io.c
    r0, r1, fmt_ = rd.reader(case.loader)
    T = io.theory(r0, case.data)
    e = T.evaluator({sym('format'): io.variant('StlFormat', case.fmt or 'Auto')} if fmt_ else {})
    st = e.ev(r0.ret)
    if isinstance(st, Agg) and st.d == iotheory.RES:
        if st.v != 0:
            return ('done', 0, None)
        st = st.ch[0]
    T1 = io.theory(r1, case.data)

    def step(s):
        e = T1.evaluator({sym('state'): s})
        v, n = e.ev(r1.ret), e.ev(r1.post(0))
        if e.vague:
            raise Unsupported('depends on %s' % e.vague[0])
        return v, n
    states = [st]
    items_ = []
    for n in range(12):
        v, st = step(st)
        items_.append(v)
        states.append(st)
        if v.v == 0:
            break
    ps = buffers_in(c, states[0])
    pools = {}
    for s in states[1:]:
        for q in buffers_in(c, s):
            pools.setdefault(q, []).append(at(s, q))
    m = 0
    for i, s in enumerate(states[:-1]):
        mine = buffers_in(c, s)
        for q in mine:
            own = list(iotheory.items(at(s, q)))
            alts = [Seq([Fr((int(b) + 77) % 256) for b in own])] + [x for x in pools[q] if i and evalt.key(x) != evalt.key(at(s, q))][:3]
            for x in alts:
                if evalt.key(x) == evalt.key(at(s, q)):
                    continue
                s2 = put(s, q, x)
                m += 1
                v, n = step(s2)
                if evalt.key(v) != evalt.key(items_[i]):
                    return ('done', m, 'call %d hands out something else when the byte buffer (field %s) held %s instead of %s' %
                            (i + 1, '.'.join(map(str, q)), show_data(bytes(int(b) for b in iotheory.items(x))), show_data(bytes(int(b) for b in own))))
                n1 = states[i + 1]
                for k in buffers_in(c, n):
                    n = put(n, k, Seq([]))
                for k in buffers_in(c, n1):
                    n1 = put(n1, k, Seq([]))
                if evalt.key(n) != evalt.key(n1):
                    return ('done', m, 'call %d leaves another state behind when the byte buffer held something else' % (i + 1))
    return ('done', m, None)


def readers(c):
    io = IO(c)
    rd = Readers(c)
    cs = [k for k in plyshare(list(reader_cases(all_cases())), 12)]
    by = {}
    for k in cs:
        by.setdefault(k.loader, []).append(k)
    jobs = []
    for l, ks in sorted(by.items()):
        try:
            rd.ready(l)
        except Missing:
            raise
        except (Unsupported, TM.TooComplex, RecursionError) as e:
            c.undecided('scratch/' + l, '%s: %s' % (type(e).__name__, str(e)[:100]))
            continue
        q = max(1, len(ks) // 14)
        jobs += ks[::q][:16]
    res = parallel(jobs, lambda k: dirty(io, rd, k), 200)
    n, bad = {}, set()
    for k, r in zip(jobs, res):
        if r[0] == 'und':
            c.undecided('scratch/%s/%s' % (k.loader, k.name), r[1])
            continue
        n[k.loader] = n.get(k.loader, 0) + r[1]
        if r[2] and k.loader not in bad:
            bad.add(k.loader)
            c.fail('scratch/' + k.loader, '%s::next: %s; input %s' % (k.loader, r[2], show_data(k.data)), rd.root(k.loader))
    for l in by:
        if l not in bad and n.get(l):
            c.good('scratch/' + l)
    c.stats['calls with exchanged byte buffers'] = sum(n.values())


def run(c):
    L = Laws(c)
    n = functions(c, L)
    c.stats['functions with buffers'] = n
    c.floor('functions with buffers', n, 25)
    hidden(c, L)
    readers(c)
    return {'rule': 'the value flow of every public function with a `&mut Vec` parameter is compared under pairs of valuations which differ in the old content of these vectors only: '
                    'results and all other effects have to agree and the vector has to hold old ++ new, the same new content or the duplicate free union; fields with interior mutability must not '
                    'influence any result of their type; no mutable or interior mutable statics and no cast from shared to mutable; the transition of every incremental reader is compared with that '
                    'of the same state holding other bytes in its byte buffers',
            'assumptions': ['implementers of IsSphereSearchable and the other query traits outside the crate append to the result vector', 'std: read_until and the like append']}

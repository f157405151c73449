"""L04: every loop of every reader (and of the text and byte helpers they share) ends on finite input"""
from iohostile import *
import loops
import engine
from loops import depends, bsubst
from models import length

RULE_ = ('for every loop of the readers\' extracted value flow: the condition of another iteration implies that a finite counter or sequence advances, '
         'or that the iteration consumed input through a successful read, or that a fact changes which is never restored; '
         'and no abstract hostile input drives a loop back into a state it already had')
CONSUME = {'io::utils::next_line': 1, 'io::utils::fetch_line': 0, 'Read::read_exact': 0}


def guarded(L):
    if not L.ind:
        return False
    return loops.find_guard(L, {ph: (p[0], loops.simplify_under(p[1], L.back_pc), p[2], p[3]) for ph, p in L.phis.items()}) is not None


def shrinks(L):
    """every iteration takes items off a sequence"""
    for ph, p in L.phis.items():
        try:
            d = TM.const_val(TM.sub(length(loops.simplify_under(p[1], L.back_pc)), length(ph)))
        except (TM.TooComplex, AttributeError, TypeError, ValueError):
            continue
        if d is not None and d < 0:
            return True
    return False


def nonempty(t):
    """the buffer handed to read_exact is not empty"""
    b = t.a[1][1]
    n = TM.const_val(length(b)) if b.op != 'sym' else None
    return n is not None and n > 0


def consumed(L):
    """conditions which mean that this iteration took something from the input"""
    out = []
    for v in TM.bsupport(L.back_pc):
        t = TM._atoms[v]
        if t.op != 'isv' or t.a[0].op != 'call':
            continue
        n = str(t.a[0].a[0])
        if n not in CONSUME:
            continue
        if n == 'Read::read_exact' and not nonempty(t.a[0]):
            continue
        out.append(atom(t) if t.a[1] == CONSUME[n] else bnot(atom(t)))
    for v in TM.bsupport(L.back_pc):
        # read_until delivered a positive number of bytes
        t = TM._atoms[v]
        if t.op in ('lt0', 'eq0') and any(x.op == 'call' and x.a[0] == 'BufRead::read_until' for x in parts(t)):
            q = t.a[0]
            if t.op == 'eq0' and q.op in ('vfld', 'fld'):
                out.append(bnot(atom(t)))
    return out


def parts(t, d=0, seen=None):
    seen = set() if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        if x in seen or len(seen) > 4000:
            continue
        seen.add(x)
        st.extend(TM.children(x))
    return seen


def flips(L, cond):
    """the iterations under cond change a fact which no iteration restores"""
    if cond == F:
        return True
    m = {ph: p[1] for ph, p in L.phis.items()}
    ks = set(m)
    for v in sorted(TM.bsupport(cond)):
        t = TM._atoms[v]
        if not depends(t, ks):
            continue
        before = atom(t)
        try:
            after = bsubst(before, m)
            for x, y in ((before, after), (bnot(before), bnot(after))):
                if band(cond, bnot(x)) == F and band(cond, y) == F and band(L.back_pc, band(bnot(x), y)) == F:
                    return True
        except (TM.TooComplex, RecursionError):
            continue
    return False


def seeks(L, an):
    return [e for e in L.events if e.kind == 'call' and str(e.name) == 'Seek::seek']


def proof(L, an):
    if L.back_pc == F:
        return 'no second iteration'
    if guarded(L) or shrinks(L):
        return 'counter'
    r = L.back_pc
    for e in seeks(L, an):
        c = band(L.back_pc, e.pc)
        if not flips(L, c):
            return None
    for x in consumed(L):
        r = band(r, bnot(x))
    if r == F:
        return 'input'
    if flips(L, r):
        return 'input or one-way fact'
    return None


def roots(io):
    """(name, analysis thunk)"""
    c = io.c
    for l, k in LOADERS.items():
        yield l, (lambda l=l, k=k: io.analysis(l, k)), io.fn(l)
    rd = Readers(c)
    for t in READERS:
        yield t + '::next', (lambda t=t: rd.reader(t)[1]), rd.root(t)
        yield t + '::new', (lambda t=t: rd.reader(t)[0]), c.m(t, '', 'new')
    for u in io.ni:
        b = c.p.bodies[u]
        yield b['p'], (lambda u=u: c.call(u, noinline=tuple(x for x in io.ni if x != u))), u
    for u, b in c.p.bodies.items():
        if b['kind'] == 'fn' and '::io::' in u and b['p'].split('::')[-1].startswith('save_') and b.get('vis') is not False:
            yield b['p'], (lambda u=u: c.call(u)), u


def run(c):
    io = IO(c)
    n = 0
    for nm, f, u in roots(io):
        try:
            r = f()
        except Missing:
            raise
        except (Unsupported, TM.TooComplex, RecursionError) as e:
            c.undecided('L04/' + nm, '%s: %s' % (type(e).__name__, str(e)[:120]))
            continue
        for L in r.an.loops.values():
            if not isinstance(L, engine.Loop):
                continue
            n += 1
            key = 'L04/%s/loop in %s' % (nm, L.uid.replace('rust_3d::', ''))
            try:
                p = proof(L, r.an)
            except (TM.TooComplex, RecursionError):
                p = None
            if p:
                c.good(key)
            else:
                c.undecided(key, 'no progress argument found (line %s)' % L.line)
    c.stats['loops'] = n
    c.floor('loops', n, 40)
    judged_hostile(c, io, 'L04', ('hang',), 3)
    return {'rule': RULE_, 'assumptions': ASSUME + ['a read from the stream that reports success hands out at least one byte']}

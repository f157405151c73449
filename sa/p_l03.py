"""L03: a file iterator which returned none or an error returns nothing but none afterwards.

Per iterator type the analysis computes, from the value flow of `next`, the greatest set D of
states from which every later call answers none whatever is read (fixpoint; the condition is
universally quantified over everything that comes from the input), and then requires that every
path of `next` which answers none or an error leaves a state of D.  States which no sequence of
calls can reach are excluded by clauses over the state's conditions that hold initially and are
kept by every call."""
from base import *
import itertools


BAD = ('call', 'phi', 'post', 'mix', 'undef', 'first', 'exists', 'ref', 'fold', 'gen', 'rep')


class Shape:
    """the state before the call: which variant every enum inside it has; everything else symbolic"""

    def __init__(self, term, vars_, syms):
        self.term, self.vars, self.syms = term, vars_, syms
        self.name = ','.join('%s=%d' % ('.'.join(str(k[-1]) for k in p), i) for p, i, n in vars_) or '-'

    def match(self, v, pc):
        """(condition, substitution) for a value to be of this shape"""
        k = pc
        for path, i, n in self.vars:
            x = v
            for st in path:
                x = getk(restrict(x, k) if k != F and x.op == 'gam' else x, st)
            k = band(k, is_variant(x, i, n))
            if k == F:
                return F, None
        m = {}
        for s_, path in self.syms.items():
            x = v
            for st in path:
                x = restrict(x, k) if x.op == 'gam' else x
                x = getk(x, st)
            m[s_] = restrict(x, k) if x.op == 'gam' else x
        return k, m


def shapes(c, t, path=(), depth=0):
    """[(term, variants, syms)] for a type"""
    p = c.p
    nm = 'self' + ''.join('.%s' % '_'.join(str(y) for y in k[1:]) for k in path)
    if t[0] == 'adt' and depth < 5:
        d = t[1]
        if d.endswith('option::Option'):
            if t[2][0][0] == 'adt' and t[2][0][1] in p.adts:
                inner = shapes(c, t[2][0], path + (('v', 1, 0),), depth + 1)
                return [(NONE, ((path, 0, 2),), {})] + [(some(a), ((path, 1, 2),) + v, s) for a, v, s in inner]
            return leaf(c, nm, t, path)
        if d in p.adts:
            a = p.adts[d]
            out = []
            if len(a['v']) > 1 and not any(f for v in a['v'] for f in v[1]):
                return leaf(c, nm, t, path)
            n = len(a['v'])
            for vi, v in enumerate(a['v']):
                alts = [((), (), {})]
                for fi, (fn, ft, pub) in enumerate(v[1]):
                    st = ('f', fi) if n == 1 else ('v', vi, fi)
                    sub_ = shapes(c, p.rt(ft, t[2]) if not isinstance(ft, tuple) else ft, path + (st,), depth + 1)
                    alts = [(x + (a1,), y + b1, dict(list(z.items()) + list(c1.items()))) for x, y, z in alts for a1, b1, c1 in sub_]
                    if len(alts) > 24:
                        return leaf(c, nm, t, path)
                for x, y, z in alts:
                    out.append((agg(d, vi, x), (((path, vi, n),) if n > 1 else ()) + y, z))
            if len(out) > 24:
                return leaf(c, nm, t, path)
            return out
    return leaf(c, nm, t, path)


def leaf(c, nm, t, path):
    s = sym(nm)
    if t == ('bool',):
        return [(B(atom(s)), (), {s: path})]
    return [(s, (), {s: path})]


def state_atom(t, memo={}):
    """the atom speaks about the state before the call only"""
    r = memo.get(t)
    if r is None:
        r = not any(x.op in BAD or (x.op == 'sym' and not str(x.a[0]).startswith('self')) for x in subterms(t))
        memo[t] = r
    return r


def forall_input(f):
    vs = [v for v in bsupport(f) if not state_atom(atom_of(v))]
    return bnot(bexists(bnot(f), vs)) if vs else f


def at(d, m):
    return as_bdd(subst(B(d), m))


def result_item(p, u):
    t = p.rt(p.bodies[u]['locals'][0][0])
    return t[0] == 'adt' and t[1].endswith('::Option') and t[2][0][0] == 'adt' and t[2][0][1].endswith('::Result')


def initial(c, ty):
    """states the constructor produces: list of (condition, term)"""
    out = []
    for im, u in c.p.methods(ty, '', None):
        b = c.p.bodies[u]
        rt = c.p.rt(b['locals'][0][0])
        isself = rt[0] == 'adt' and rt[1] in c.p.adt_by_name.get(ty, [])
        isres = rt[0] == 'adt' and rt[1].endswith('::Result') and rt[2][0][0] == 'adt' and rt[2][0][1] in c.p.adt_by_name.get(ty, [])
        if not (isself or isres) or b['argc'] and c.p.rt(b['locals'][1][0])[0] == 'ref' and c.p.rt(b['locals'][1][0])[2] == rt:
            continue
        r = c.call(u)
        if isself:
            out.append((r.pc, r.ret))
        else:
            k = band(r.pc, is_ok(r.ret))
            if k != F:
                out.append((k, okval(r.ret)))
    return out


def clauses(atoms):
    lits = [x for a in atoms for x in (atom(a), bnot(atom(a)))][:24]
    cl = lits + [bor(a, b) for a, b in itertools.combinations(lits, 2)]
    return [x for x in dict.fromkeys(cl) if x not in (T, F)]


def witness(c, cond, n=3):
    """(found, why): a valuation satisfying the condition, loop-carried values arbitrary"""
    import random
    why = None
    for s in range(40):
        e = evalt.Ev(77000 + s, None, s % 2, hook=phi_hook)
        try:
            if evalt.guided(e, cond, random.Random(s), steps=200):
                e.memo.clear()
                if e.bdd(cond):
                    return True, None
        except (evalt.Unsupported, OverflowError, ZeroDivisionError, RecursionError) as ex:
            why = str(ex)
    return False, why or 'no valuation found'


def phi_hook(e, t):
    if t.op in ('phi', 'mix', 'undef'):
        return evalt.Tok('%s%d' % (t.op, t.id))
    if t.op == 'ref':
        return evalt.Tok('ref%d' % t.id)
    return None


def state_types(c):
    """crate types which are iterators over results, or wrap such"""
    p = c.p
    out = {p.rt(im['self'])[1] for im in p.impls for m, u in im['m']
           if m == 'next' and p.rt(im['self'])[0] == 'adt' and result_item(p, u)}
    while True:
        more = set()
        for d, a in p.adts.items():
            if d not in out and any(ft[0] == 'adt' and (ft[1] in out or any(x[0] == 'adt' and x[1] in out for x in ft[2]))
                                    for v in a['v'] for ft in [p.rt(f[1]) if not isinstance(f[1], tuple) else f[1] for f in v[1]]):
                more.add(d)
        if not more:
            return out
        out |= more


def follow(c):
    """for the coarse view: follow only what can touch the iterator's state or pass results on"""
    p, stt, memo = c.p, state_types(c), {}

    def may(uid, fr):
        r = memo.get(uid)
        if r is None:
            b = p.bodies[uid]
            r = '{closure' in b['p']
            for i in range(b['argc']):
                t = p.rt(b['locals'][i + 1][0])
                mut = False
                while t[0] == 'ref':
                    mut = mut or bool(t[1])
                    t = t[2]
                if t[0] == 'adt' and (t[1] in stt or t[1].endswith(('::Result', '::Option'))) or (mut and t == ('bool',)):
                    r = True
            memo[uid] = r
        return r
    return may


def one(c, ty, u):
    """coarse first (everything that only computes from the input is opaque), then in full"""
    try:
        bad = attempt(c, ty, u, follow(c))
    except (TooComplex, RecursionError):
        bad = None
    if bad is not None and not bad:
        for what in KINDS:
            c.good('%s/%s' % (ty, what))
        return
    full = attempt(c, ty, u, None)
    for what in KINDS:
        key = '%s/%s' % (ty, what)
        if what not in full:
            c.good(key)
            continue
        why = None
        for x in (full.get(what), (bad or {}).get(what)):
            if x is None:
                continue
            ok, why = witness(c, x[3])
            if ok:
                S, S2, d, cond = x
                c.fail(key, 'next() of %s can answer %s and leave a state from which a later call may answer something else than none' % (
                    ty, 'none' if what == 'after-none' else 'an error'), u,
                    {'state before': S, 'state after': S2, 'states that stay none': bshow(d)[:400], 'path': bshow(cond)[:900]})
                break
        else:
            c.undecided(key, why)


KINDS = ('after-none', 'after-error')


def attempt(c, ty, u, inline):
    b = c.p.bodies[u]
    im = c.p.impl_by_id[b['impl']]
    t = c.p.rt(im['self'])
    SH = [Shape(*x) for x in shapes(c, t)]
    init = initial(c, ty)
    res, trans = {}, {}

    def explore(i):
        S = SH[i]
        r = c.call(u, S.term, inline=inline) if inline else c.call(u, S.term)
        post = r.post(0)
        tr = []
        for j, S2 in enumerate(SH):
            k, m = S2.match(post, r.pc)
            if k != F:
                tr.append((j, k, m))
        res[i] = r
        trans[i] = tr
    # reachable shapes
    start = []
    for k, v in init:
        for j, S2 in enumerate(SH):
            kk, m = S2.match(v, k)
            if kk != F:
                start.append((j, kk, m))
    todo = sorted({j for j, k, m in start}) if init else list(range(len(SH)))
    while todo:
        i = todo.pop()
        if i in res:
            continue
        explore(i)
        todo += [j for j, k, m in trans[i] if j not in res]
    # invariants per shape
    cl = {}
    for i, r in res.items():
        ats = {}
        for f in [as_bdd(B(is_none(r.ret)))] + [k for j, k, m in trans[i]]:
            for v in bsupport(f):
                if state_atom(atom_of(v)):
                    ats[atom_of(v)] = 1
        for s_ in SH[i].syms:
            if TM._atomvar.get(s_) is not None:
                ats[s_] = 1
        cl[i] = clauses(sorted(ats, key=show)[:12]) if init else []
    for j, k, m in start:
        cl[j] = [x for x in cl[j] if band(k, bnot(at(x, m))) == F]
    after = {}

    def aft(j, i, n, x, m):
        key = (i, n, x)
        if key not in after:
            after[key] = at(x, m)
        return after[key]
    changed = True
    J = {}
    while changed:
        changed = False
        for i in res:
            J[i] = T
            for x in cl[i]:
                J[i] = band(J[i], x)
        for i in res:
            if J[i] == F:
                continue
            for n, (j, k, m) in enumerate(trans[i]):
                kk = band(k, J[i])
                if kk == F:
                    continue
                keep = [x for x in cl[j] if band(kk, bnot(aft(j, i, n, x, m))) == F]
                if len(keep) != len(cl[j]):
                    cl[j] = keep
                    changed = True
    # greatest fixpoint of "answers none, and so for good"
    D = {i: forall_input(bor(bnot(r.pc), is_none(r.ret))) for i, r in res.items()}
    for rnd in range(12):
        new = {}
        for i in res:
            f = D[i]
            for j, k, m in trans[i]:
                f = band(f, forall_input(bor(bnot(k), at(D[j], m))))
            new[i] = f
        if new == D:
            break
        D = new
    else:
        raise TooComplex('no fixpoint')
    out = {}
    for what in KINDS:
        for i, r in sorted(res.items()):
            none = is_none(r.ret)
            cond = none if what == 'after-none' else band(is_some(r.ret), is_err(someval(r.ret)))
            for j, k, m in trans[i]:
                bad = band(band(band(cond, k), J[i]), bnot(at(D[j], m)))
                if bad != F and what not in out:
                    out[what] = (SH[i].name, SH[j].name, D[j], bad)
    return out


def concrete(c):
    """the extracted transition systems on abstract files, called on past the end and past errors"""
    import iocheck as K
    cs = []
    for i, k in enumerate(K.reader_cases(list(K.all_cases()))):
        if 'ply' in k.loader.lower() and 'text' in k.tags + k.tags and i % 12 and 'cut' not in k.tags and 'bad' not in k.tags:
            continue
        cs.append(k)
    more = []
    for k in cs:
        if 'ply' in k.loader.lower() and not ('cut' in k.tags or 'bad' in k.tags):
            continue
        if not k.want.err and not more or not k.want.err and more[-1].loader != k.loader:
            # the medium fails somewhere in the first well-formed file of this reader
            n = len(k.data)
            for q in range(12):
                more.append(K.Case(k.loader, 'read error after %d bytes' % (n * q // 12), k.data, K.Want(err=True), k.fmt, ('cut',), n * q // 12))
    def late(k, d):
        return d.get('late')
    n = K.judged(c, K.Readers(c), cs + more, 'L03', late)
    c.floor('histories', n + len(c.und), 150)


def run(c):
    n = 0
    for im in c.p.impls:
        if not str(im.get('tr')).endswith('iterator::Iterator') and im.get('tr') != 'std::iter::Iterator':
            continue
        ty = c.p.self_name(im)
        for m, u in im['m']:
            if m == 'next' and result_item(c.p, u):
                n += 1
                c.guard(ty, one, c, ty, u)
    c.floor('file iterators', n, 15)
    concrete(c)
    return {'rule': 'For every iterator of the crate whose items are results: D = greatest set of states closed under next() in which next() answers none for every '
            'input (computed from the value-flow normal form of next, crate functions inlined); every path answering none or an error must end in D.'}

"""Closed forms for loops that step through a counter or a sequence.

The symbols a loop changes are related to the iteration number: counters become
init + d*k, and the accumulating patterns (append, sum, minimum, maximum, conjunction,
element-wise update, general fold) become canonical comprehension terms, so that a `for`
loop, an index loop and an iterator chain doing the same thing yield the same value."""
from terms import *
import terms as TM
import engine as E
from engine import length, sel, store, simplify_under

_bvm = {}


def bvlevel(t):
    r = _bvm.get(t)
    if r is not None:
        return r
    if t.op in ('bv', 'av'):
        r = t.a[0] if isinstance(t.a[0], int) else 0
    else:
        r = 0
        _bvm[t] = 0
        for c in children(t):
            x = bvlevel(c)
            if x > r:
                r = x
    _bvm[t] = r
    return r


def depends(t, keys):
    return E.has_any(t, keys)


def cond_depends(b, keys):
    return any(depends(atom_of(v), keys) for v in bsupport(b))


def bsubst(b, m):
    return as_bdd(subst(B(b), m))


def mkexists(n, bv, e):
    """exists k in 0..n: e(k)"""
    if e == F:
        return F
    c = const_val(n)
    if c is not None and c <= 8:
        r = F
        for k in range(int(c)):
            r = bor(r, bsubst(e, {bv: num(k)}))
        return r
    if not cond_depends(e, {bv}):
        return band(e, as_bdd(cmp('gt', n, num(0), False)))
    t = mk('exists', n, bv, B(e))
    t.meta = 'bool'
    return atom(t)


def mkgen(n, bv, v):
    if v.op == 'sel' and v.a[1] is bv and length(v.a[0]) is n and not depends(v.a[0], {bv}):
        return v.a[0]
    if not depends(v, {bv}):
        return mk('rep', v, n)
    return mk('gen', n, bv, v)


def mkcat(a, b):
    if const_val(length(a)) == 0:
        return b
    if a.op == 'gam':
        return gam([(c, mkcat(x, b)) for c, x in a.a[0]])
    return mk('cat', a, b)


def _rb_gen(t):
    return mkgen(t.a[0], t.a[1], t.a[2])


def _rb_exists(t):
    return B(mkexists(t.a[0], t.a[1], as_bdd(t.a[2])))


TM.REBUILD['gen'] = _rb_gen
TM.REBUILD['exists'] = _rb_exists


def find_guard(L, phis, exits={}):
    """(phi, init, d, trip count, guard bdd) of the controlling counter"""
    cands = []
    for ph, (init, step, root, path) in phis.items():
        if not numeric(step) or not numeric(init):
            continue
        d = const_val(sub(step, ph))
        if d is None or d == 0:
            continue
        cands.append((ph, init, d))
    keys = set(phis)
    found = guard_literals(L.back_pc, cands, keys)
    for g in found:
        # exits are either the end of the count or leave before it
        if all(band(pc, g[4]) == F or bimp(pc, g[4]) for lst in exits.values() for pc, st in lst):
            return g
    if found:
        return found[0]
    return split_guard(L.back_pc, cands, keys) if cands else None


def split_guard(b, cands, keys):
    """the guard depends on conditions the loop does not change (e.g. which of two sequences is walked):
    trip count by cases"""
    out = []

    def rec(b, case):
        if len(out) > 12:
            return False
        if b == F:
            out.append((case, None))
            return True
        g = guard_literal(b, cands, keys)
        if g is not None:
            out.append((case, g))
            return True
        for v in bsupport(b):
            if not depends(atom_of(v), keys):
                at = atom(atom_of(v))
                return rec(bcofactor(b, v, True), band(case, at)) and rec(bcofactor(b, v, False), band(case, bnot(at)))
        return False
    if not rec(b, T):
        return None
    gs = [g for _, g in out if g is not None]
    if not gs or any(g[0] is not gs[0][0] or g[2] != gs[0][2] for g in gs):
        return None
    ph, init, d = gs[0][:3]
    trip = gam([(c, num(0) if g is None else clamp0(g[3])) for c, g in out])
    guard = F
    for c, g in out:
        if g is not None:
            guard = bor(guard, band(c, g[4]))
    return ph, init, d, trip, guard


def guard_literal(back, cands, keys):
    r = guard_literals(back, cands, keys)
    return r[0] if r else None


def guard_literals(back, cands, keys):
    out = []
    for v in bsupport(back):
        a = atom_of(v)
        if a.op != 'lt0':
            continue
        # value of the literal on the back edge
        if bcofactor(back, v, False) == F:
            posv = True
        elif bcofactor(back, v, True) == F:
            posv = False
        else:
            continue
        p = a.a[0]
        # literal: p < 0 (posv) or p >= 0, i.e. -p-1 < 0 for integers
        for ph, init, d in cands:
            pd = poly_of(p)
            co = pd.get(((ph, 1),))
            if co is None:
                continue
            if any(m != ((ph, 1),) and any(x in keys or depends(x, keys) for x, _ in m) for m in pd):
                continue
            rest = of_poly({m: c for m, c in pd.items() if m != ((ph, 1),)})
            # co*ph + rest < 0
            if posv:
                if co > 0 and d > 0:
                    n = mul(neg(rest), num(1 / co))          # ph < n
                elif co < 0 and d < 0:
                    n = mul(rest, num(-1 / co))              # ph > n
                else:
                    continue
            else:
                # co*ph + rest >= 0
                if co < 0 and d > 0:
                    n = add(mul(rest, num(-1 / co)), num(1))  # ph <= rest/-co -> ph < that+1
                elif co > 0 and d < 0:
                    n = sub(mul(neg(rest), num(1 / co)), num(1))
                else:
                    continue
            trip = sub(n, init) if d > 0 else sub(init, n)
            if abs(d) != 1:
                continue
            g = atom(a) if posv else bnot(atom(a))
            cand = (ph, init, d, trip, g)
            out.append(cand)
    return sorted(out, key=rank)


def rank(c):
    return (0 if const_val(c[3]) is not None else 1, 0 if c[2] > 0 else 1, c[3].depth, c[3].id)


def clamp0(n):
    """trip counts are never negative; lengths and plain counters are known not to be"""
    c = const_val(n)
    if c is not None:
        return num(max(0, c))
    return n


def closed(phis, keys, ph, bv, steps, n, ind):
    """closed form of accumulator ph after n iterations (bv: iteration number) or None"""
    init = phis[ph][0]
    s = steps[ph]
    others = keys - {ph} - set(ind)
    if depends(s, others):
        return None
    # relative to the iteration number
    m = {i: add(a, mul(num(d), bv)) for i, (a, d) in ind.items()}
    s = subst(s, m)
    return fold_form(init, s, ph, bv, n)


def fold_form(init, s, ph, bv, n):
    if s.op == 'b' or init.op == 'b':
        b = as_bdd(s)
        v = TM._atomvar.get(ph)
        if v is None or v not in bsupport(b):
            pass
        else:
            lo, hi = bcofactor(b, v, False), bcofactor(b, v, True)
            if not cond_depends(lo, {ph}) and not cond_depends(hi, {ph}):
                if lo == F:
                    return B(band(as_bdd(init), bnot(mkexists(n, bv, bnot(hi)))))
                if hi == T:
                    return B(bor(as_bdd(init), mkexists(n, bv, lo)))
        return mk('fold', init, n, bv, ph, s) if False else general(init, s, ph, bv, n)
    if s.op == 'push' and s.a[0] is ph and not depends(s.a[1], {ph}):
        return mkcat(init, mkgen(n, bv, s.a[1]))
    if s.op == 'gam':
        # conditional append
        app = F
        keep = F
        okk = True
        vals = []
        for c, v in s.a[0]:
            if cond_depends(c, {ph}):
                okk = False
            if v is ph:
                keep = bor(keep, c)
            elif v.op == 'push' and v.a[0] is ph and not depends(v.a[1], {ph}):
                app = bor(app, c)
                vals.append((c, v.a[1]))
            else:
                okk = False
        if okk and vals:
            v = gam(vals)
            if keep == F:
                return mkcat(init, mkgen(n, bv, v))
            return mkcat(init, mk('gflt', n, bv, B(app), v))
    if numeric(s) and numeric(init):
        if s.op in ('min', 'max') and ph in s.a[0]:
            rest = [x for x in s.a[0] if x is not ph]
            if not any(depends(x, {ph}) for x in rest):
                f = mkmin if s.op == 'min' else mkmax
                r = init
                for x in rest:
                    if not depends(x, {bv}):
                        return general(init, s, ph, bv, n)
                    r = f(r, mk('big' + s.op, n, bv, x))
                return r
        dlt = sub(s, ph)
        if numeric(dlt) and not depends(dlt, {ph}):
            if not depends(dlt, {bv}):
                return add(init, mul(dlt, n))
            return add(init, mk('bigsum', n, bv, dlt))
    if s.op == 'gam' and all(numeric(v) for _, v in s.a[0]) and numeric(init):
        if not any(cond_depends(c, {ph}) for c, _ in s.a[0]):
            dl = gam([(c, sub(v, ph)) for c, v in s.a[0]])
            if not depends(dl, {ph}):
                return add(init, mk('bigsum', n, bv, dl))
    if s.op == 'store' and s.a[0] is ph:
        idx, v = s.a[1], s.a[2]
        lenp = mk('len', ph)
        li = length(init)
        if idx is bv or (numeric(idx) and const_val(sub(idx, bv)) is not None):
            e = sel(ph, idx)
            v2 = subst(v, {e: sel(init, idx), lenp: li})
            if not depends(v2, {ph}) and idx is bv and subst(n, {lenp: li}) is li:
                return mkgen(li, bv, v2)
    return general(init, s, ph, bv, n)


def general(init, s, ph, bv, n):
    lv = max(bvlevel(s), bv.a[0] if isinstance(bv.a[0], int) else 0)
    av = mk('av', lv)
    s2 = subst(s, {ph: av})
    return mk('fold', init, n, bv, av, s2)


def unroll(phis, steps, keys, n):
    cur = {ph: phis[ph][0] for ph in phis}
    for _ in range(n):
        cur = {ph: subst(steps[ph], cur) for ph in phis}
    return cur


MAXUNROLL = 8


def summarise(an, L, exits):
    L.ind = {}
    phis = L.phis
    if not phis:
        return exits
    keys = set(phis)
    steps = {ph: simplify_under(p[1], L.back_pc) for ph, p in phis.items()}
    same = {ph: E.TM.restrict(p[0], L.pc) for ph, p in phis.items() if steps[ph] is ph}
    same = {ph: v for ph, v in same.items() if not depends(v, keys)}
    if same:
        # symbols the loop leaves alone stand for what they were before it
        phis = {ph: (subst(p[0], same), subst(p[1], same)) + tuple(p[2:]) for ph, p in phis.items() if ph not in same}
        exits = {tgt: [(bsubst(pc, same), sub_state(an, st, same)) for pc, st in lst] for tgt, lst in exits.items()}
        L.back_pc = bsubst(L.back_pc, same)
        keys = set(phis)
        steps = {ph: simplify_under(p[1], L.back_pc) for ph, p in phis.items()}
        if not phis:
            return exits
    ind = {}
    for ph, (init, step, root, path) in phis.items():
        if numeric(steps[ph]) and numeric(init):
            d = const_val(sub(steps[ph], ph))
            if d is not None and d != 0:
                ind[ph] = (init, d)
    L.ind = ind
    g = find_guard(L, {ph: (p[0], steps[ph], p[2], p[3]) for ph, p in phis.items()}, exits)
    if g is None:
        return exits
    ph, init, d, trip, guard = g
    trip = clamp0(trip)
    lv = 1 + max([bvlevel(s) for s in steps.values()] + [bvlevel(p[0]) for p in phis.values()] + [bvlevel(trip)] + [0])
    exh = {}
    early = []
    for tgt, lst in exits.items():
        for pc, st in lst:
            if band(pc, guard) == F:
                exh.setdefault(tgt, []).append((pc, st))
            elif bimp(pc, guard):
                early.append((tgt, pc, st))
            else:
                return exits
    ctx = band(L.pc, guard)
    Ec = F
    for _, pc, _s in early:
        Ec = bor(Ec, pc)
    Ec = bconstrain(Ec, ctx) if ctx != F else Ec
    for v in bsupport(Ec):
        lv = max(lv, 1 + bvlevel(atom_of(v)))
    for lst in exh.values():
        pass
    bv = mk('bv', lv)
    idx = {i: add(a, mul(num(dd), bv)) for i, (a, dd) in ind.items()}
    cn = const_val(trip)
    acc = keys - set(ind)
    # values as functions of the iteration number
    form = {}
    work = True
    sk = dict(idx)
    while work:
        work = False
        for a in acc:
            if a in form:
                continue
            s = subst(steps[a], sk) if sk else steps[a]
            if depends(s, (keys - {a}) - set(sk)):
                continue
            # value at the start of iteration bv: closed form over the first bv iterations
            inner = mk('bv', lv + 1) if depends(s, {bv}) else mk('bv', lv + 1)
            s_in = subst(s, {bv: inner})
            f = fold_form(phis[a][0], s_in, a, inner, bv)
            form[a] = f
            sk[a] = f
            work = True
    E2 = bsubst(Ec, sk) if Ec != F else F
    if cond_depends(E2, keys):
        # early exits depend on state without a closed form
        return exits
    N = trip
    ex = mkexists(N, bv, E2)
    final = {}
    if cn is not None and cn <= MAXUNROLL:
        final = unroll(phis, steps, keys, int(cn))
    else:
        for i, (a, dd) in ind.items():
            final[i] = add(a, mul(num(dd), N))
        for a in form:
            final[a] = relevel(form[a], bv, N, lv)
    out = {}
    for tgt, lst in exh.items():
        for pc, st in lst:
            st2 = sub_state(an, st, final)
            rest = bconstrain(pc, band(L.pc, bnot(guard)))
            if rest != T:
                rest = bsubst(rest, final)
            out.setdefault(tgt, []).append((band(band(L.pc, bnot(ex)), rest), st2))
    if early:
        fst = first_term(N, bv, E2)
        at = {}
        for i, (a, dd) in ind.items():
            at[i] = add(a, mul(num(dd), fst))
        for a in form:
            at[a] = relevel(form[a], bv, fst, lv)
        for tgt, pc, st in early:
            c = bconstrain(pc, band(ctx, Ec))
            if c != T:
                c = bsubst(c, at)
            p2 = band(band(L.pc, ex), c)
            out.setdefault(tgt, []).append((p2, sub_state(an, st, at)))
    return out


def relevel(f, bv, n, lv):
    """closed form with the iteration number replaced by n; inner binder renamed to bv when free"""
    r = subst(f, {bv: n})
    if not depends(r, {bv}):
        r = subst(r, {mk('bv', lv + 1): bv})
    return r


def first_term(n, bv, e):
    if bv is not None and not cond_depends(e, {bv}):
        return num(0)
    return mk('first', n, bv, B(e))


def sub_state(an, st, m):
    keys = set(m)
    out = {}
    for k, v in st.items():
        if k[0] == 'M' and depends(k[1], keys):
            k = ('M', subst(k[1], m))
        if depends(v, keys):
            v = subst(v, m)
        out[k] = v
    return out

"""A06: sign-restricted numbers never hold a forbidden value.

Abstract interpretation over the classes of the IEEE numbers.  The classes a Positive / a
NonNegative can hold are the least set closed under every public function of the crate that makes
or changes one; none of them may lie outside the range.  Everywhere else, unwrapping the fallible
construction needs an argument whose classes are all inside the range."""
from base import *
import signs
from signs import *

TYPES = {'Positive': frozenset((P, PI)), 'NonNegative': frozenset((Z, NZ, P, PI))}


def num_types(c):
    return {c.adt(t)['d']: t for t in TYPES}


def public(c, b):
    im = c.p.impl_by_id.get(b.get('impl'))
    return b['kind'] == 'fn' and (b.get('vis') or bool(im and im.get('tr')) or bool(b.get('trait')))


def holds_type(c, t, ids, d=0):
    """does a type contain a sign-restricted number (owned or borrowed)"""
    if not isinstance(t, tuple) or d > 6:
        return False
    if t[0] == 'adt' and t[1] in ids:
        return True
    return any(holds_type(c, x, ids, d + 1) if isinstance(x, tuple) and x and isinstance(x[0], str) else
               any(holds_type(c, y, ids, d + 1) for y in x if isinstance(y, tuple)) if isinstance(x, tuple) else False for x in t[1:])


def makes(p, b, ids):
    """the body builds a sign-restricted number from its parts or writes into one"""
    for bb in filter(None, b['blocks']):
        for s in bb['s']:
            if s[0] == '=' and isinstance(s[2], list) and s[2] and s[2][0] == 'agg' and s[2][1][0] == 'adt' and s[2][1][1] in ids:
                return True
            if s[0] == '=' and s[1][1]:
                # assignment through a place that goes into a number
                t = p.rt(b['locals'][s[1][0]][0])
                while t[0] in ('ref', 'ptr'):
                    t = t[1] if isinstance(t[1], tuple) else t[2]
                if t[0] == 'adt' and t[1] in ids:
                    return True
    return False


def numbers(v, t, c, ids):
    """(path condition, number term) of every sign-restricted number in a value"""
    out = []

    def go(v, pc, d):
        if d > 6 or pc == F:
            return
        if v.op == 'gam':
            for cc, x in v.a[0]:
                go(x, band(pc, cc), d)
        elif v.op == 'agg':
            if v.a[0] in ids:
                out.append((pc, ids[v.a[0]], v.a[2][0]))
            else:
                for x in v.a[2]:
                    go(x, pc, d + 1)
    go(v, T, 0)
    return out


def run(c):
    p = c.p
    TM.IEEE[0] = True
    ids = num_types(c)
    c.guard('fields', fields, c, ids)
    c.guard('range', closed, c, ids)
    c.guard('uses', uses, c, ids)
    TM.IEEE[0] = False
    return {'rule': 'least fixpoint of the IEEE classes (-inf, negative, -0, 0, positive, inf, NaN) a sign-restricted number can hold over every public function that makes or changes one; '
                    'unwrap of a fallible construction needs an argument all of whose classes are in range (order facts of the box constructor included)',
            'assumptions': ['indeterminate forms (0/0, inf/inf, 0*inf) and results rounded to zero are set aside', 'coordinates are finite where positions are compared']}


def fields(c, ids):
    """nothing outside can write the number"""
    for d, t in sorted(ids.items()):
        a = c.p.adts[d]
        fs = a['v'][0][1]
        key = t + '/private number'
        if any(pub for n, ty, pub in fs):
            c.fail(key, 'the number is a public field: any code can store a forbidden value')
        else:
            c.good(key)
        for im in c.p.impls:
            if c.p.self_name(im) == t and (im.get('tr') or '').split('::')[-1] in ('DerefMut', 'AsMut', 'BorrowMut', 'IndexMut'):
                c.fail(t + '/mutable access', 'hands out mutable access to the number (%s): any value can be stored' % im['tr'])


def closed(c, ids):
    p = c.p
    work = []
    for b in p.d['bodies']:
        if b['kind'] != 'fn' or not public(c, b):
            continue
        src = str(b['sp'][0])
        ts = [p.rt(l[0]) for l in b['locals'][:b['argc'] + 1]]
        mine = {p.self_name(p.impl_by_id[b['impl']])} if b.get('impl') in p.impl_by_id else set()
        if makes(p, b, ids) or (mine & set(TYPES) and (holds_type(c, ts[0], ids) or any(t[0] == 'ref' and t[2 if isinstance(t[1], bool) else 1] for t in ts[1:]))):
            work.append((b, ts))
    n = 0
    state = {t: frozenset() for t in TYPES}
    results = []
    for b, ts in work:
        key = p.label(b['d']) if hasattr(p, 'label') else b['p']
        try:
            r = c.call(b['d'])
        except (TooComplex, RecursionError) as e:
            c.undecided(key, str(e)[:100])
            continue
        outs = [(pc, ty, x, 'result') for pc, ty, x in numbers(r.ret, ts[0], c, ids)]
        for i in range(b['argc']):
            t = ts[i + 1]
            if t[0] != 'ref':
                continue
            inner = next(x for x in t[1:] if isinstance(x, tuple))
            if inner[0] == 'adt' and inner[1] in ids:
                v = r.post(i)
                x = getk(v, ('f', 0))
                if v is not sym('arg%d' % i):
                    outs.append((T, ids[inner[1]], x, 'receiver'))
        if ts[0][0] == 'ref' and ts[0][1] and ts[0][2][0] == 'prim':
            c.fail(key + '/mutable access', 'hands out mutable access to the number', b['d'])
        results.append((b, ts, r, outs, key))
        n += 1
    c.floor('functions making or changing a sign-restricted number', n, 30)

    def env_of(b, ts, state):
        env, opts = {}, []
        for i in range(b['argc']):
            t = ts[i + 1]
            s = sym('arg%d' % i)
            while t[0] == 'ref':
                t = next(x for x in t[1:] if isinstance(x, tuple))
            if t[0] == 'adt' and t[1] in ids:
                opts.append((getk(s, ('f', 0)), state[ids[t[1]]]))
        return opts

    def indeterminate(cl):
        return sum(x in (Z, NZ) for x in cl) > 1 or any(x in (PI, NI) for x in cl)
    changed = True
    bad = {}
    while changed:
        changed = False
        for b, ts, r, outs, key in results:
            opts = env_of(b, ts, state)
            for combo in itertools.product(*[sorted(o[1]) for o in opts]):
                S = Signs({o[0]: frozenset((x,)) for o, x in zip(opts, combo)}, ALL, r.pc)
                ind = indeterminate(combo)
                for pc, ty, x, what in outs:
                    if True not in S.bool(pc):
                        continue
                    got = S.under(pc).num(x)
                    if ind:
                        got -= {NAN}
                    if ty == 'Positive':
                        # rounding a tiny result to zero is set aside
                        if P in got and b['name'] not in ('new',):
                            got -= {Z}
                    over = got - TYPES[ty]
                    if over and (key, what) not in bad:
                        bad[(key, what)] = (b, combo, opts, over, ty, pc, x)
                    ok = got & TYPES[ty]
                    if not ok <= state[ty]:
                        state[ty] = state[ty] | ok
                        changed = True
    for b, ts, r, outs, key in results:
        for what in sorted({o[3] for o in outs}):
            if (key, what) not in bad:
                c.good(key + '/in range')
                continue
            _, combo, opts, over, ty, pc, x = bad[(key, what)]
            # confirm on numbers
            env = {o[0]: {cl} for o, cl in zip(opts, combo)}
            for lf in leaves_of(x) + leaves_of(B(pc)):
                env.setdefault(lf, set(ALL))
            w = witness(lambda e: e.bool(pc) and cls(e.num(x)) in over, env)
            if w:
                c.fail(key + '/in range', 'can hold %s (%s)' % ('/'.join(sorted(over)), ', '.join('%s=%s' % kv for kv in w.items())), b['d'], {'number': show(x)[:200]})
            else:
                c.undecided(key + '/in range', 'classes %s not excluded' % sorted(over))
        for i, o in enumerate(r.an.oblig):
            oblige(c, '%s/no-panic/%d' % (key, i), b['d'], r, o, env_of(b, ts, state), True)
        meaning(c, b, ts, r, outs, key, ids)
        # meaning of the constructor
        if b['name'] == 'new' and not b.get('trait'):
            new(c, b, r, key, ids)
    c.stats['classes held'] = {k: sorted(v) for k, v in state.items()}


OPS = {'add': 'add', 'mul': 'mul', 'div': 'div', 'sub': 'sub', 'add_assign': 'add', 'mul_assign': 'mul', 'div_assign': 'div', 'sub_assign': 'sub', 'sqrt': 'sqrt'}


def meaning(c, b, ts, r, outs, key, ids):
    """arithmetic gives the ordinary number, conversions the number itself"""
    v = []
    for i in range(b['argc']):
        t = ts[i + 1]
        while t[0] == 'ref':
            t = t[2]
        v.append(getk(sym('arg%d' % i), ('f', 0)) if t[0] == 'adt' and t[1] in ids else None)
    want = None
    if b['name'] in OPS and None not in v and v:
        want = TM.ieee(OPS[b['name']], *v)
    elif b['name'] in ('into', 'deref', 'as_ref', 'from', 'clone') and len(v) == 1 and v[0] is not None:
        want = v[0]
    if want is None:
        return
    got = outs[0][2] if outs else r.ret
    if not outs and (got.op == 'agg' or ts[0] == ('tuple', ())):
        return
    k = key + '/value'
    if got.op == 'ref':
        return
    env = {x: {Z, P, PI} if True else None for x in v}
    for x, t in zip(v, ts[1:]):
        while t[0] == 'ref':
            t = t[2]
        env[x] = TYPES[ids[t[1]]] - {NZ}
    w = witness(lambda e: e.num(want) == e.num(want) and e.num(got) != e.num(want), env)
    if w:
        c.fail(k, 'the result is not the ordinary number (%s)' % ', '.join('%s=%s' % q for q in w.items()), b['d'], {'computed': show(got)[:200], 'ordinary': show(want)})
    else:
        c.good(k)


def new(c, b, r, key, ids):
    """accepts exactly the numbers of the range and keeps them"""
    ty = ids[next(d for d in ids if ids[d] == c.p.self_name(c.p.impl_by_id[b['impl']]))] if False else c.p.self_name(c.p.impl_by_id[b['impl']])
    a = sym('arg0')
    for cl in sorted(ALL):
        S = Signs({a: frozenset((cl,))})
        got = S.bool(is_some(r.ret))
        want = {cl in TYPES[ty]}
        k = '%s/accepts %s' % (key, cl)
        if got == want:
            c.good(k)
        elif want == {False} and True in got or want == {True} and False in got:
            c.fail(k, 'the constructor %s a number of class %s' % ('accepts' if True in got else 'refuses', cl), b['d'], {'condition': bshow(is_some(r.ret))})
    for pc, t, x in numbers(r.ret, None, c, ids):
        for cl in sorted(TYPES[ty]):
            S = Signs({a: frozenset((cl,))}).under(pc)
            got = S.num(x)
            k = '%s/keeps %s' % (key, cl)
            if got <= ({Z, NZ} if cl in (Z, NZ) else {cl}):
                c.good(k)
            else:
                c.undecided(k, 'classes %s' % sorted(got))
        w = witness(lambda e: e.bool(pc) and e.num(x) != e.num(a), {a: TYPES[ty]})
        if w:
            c.fail(key + '/keeps the number', 'stores another number than it was given (%s)' % w, b['d'], {'stored': show(x)[:200]})
        else:
            c.good(key + '/keeps the number')


def oblige(c, key, uid, r, o, opts, indet=False, pre=T, default=FIN):
    pc = band(pre, o.pc)
    if pc == F or band(pc, bnot(o.ok)) == F:
        c.good(key)
        return
    lf = [x for x in leaves_of(B(o.ok)) + leaves_of(B(pc))]
    env = {}
    for x, cl in opts:
        env[x] = frozenset(cl)
    ok = True
    for combo in itertools.product(*[sorted(e[1]) for e in opts]):
        if indet and (sum(x in (Z, NZ) for x in combo) > 1 or any(x in (PI, NI) for x in combo)):
            continue
        S = Signs({e[0]: frozenset((x,)) for e, x in zip(opts, combo)}, default, pc)
        if False in S.bool(o.ok):
            ok = False
            e2 = {e[0]: {x} for e, x in zip(opts, combo)}
            for x in lf:
                e2.setdefault(x, set(default))
            w = witness(lambda e: e.bool(pc) and not e.bool(o.ok), e2)
            if w:
                c.fail(key, 'treats a construction as certain which can fail: %s (%s)' % (o.desc, ', '.join('%s=%s' % kv for kv in w.items())), uid, {'certain only if': bshow(o.ok)[:300], 'under': bshow(pc)[:300]})
                return
    if ok:
        c.good(key)
    else:
        c.undecided(key, 'not excluded over the classes: %s' % bshow(o.ok)[:200])


def uses(c, ids):
    """unwrap of a fallible construction outside the two types"""
    p = c.p
    news = {c.m(t, '', 'new') for t in TYPES}
    n = 0
    for b in p.d['bodies']:
        im = p.impl_by_id.get(b.get('impl'))
        if b['kind'] != 'fn' or (im and p.self_name(im) in TYPES):
            continue
        site = False
        for bb in filter(None, b['blocks']):
            t = bb['t']
            if t and t[0] == 'call' and isinstance(t[1], dict) and 'k' in t[1] and 'fn' in t[1]['k']:
                fn = t[1]['k']['fn']
                if fn.get('r', fn['d']) in news or fn['d'] in news:
                    site = True
                elif fn['p'].split('::')[-1] in ('unwrap', 'expect', 'unwrap_unchecked') and any(holds_type(c, p.rt(x), ids) for x in t[5]):
                    site = True
        if not site:
            continue
        n += 1
        key = p.label(b['d'])
        c.guard(key, use, c, b, key, ids)
    c.floor('uses of fallible constructions', n, 12)


def use(c, b, key, ids):
    p = c.p
    args, pre = [], T
    for i in range(b['argc']):
        t = p.rt(b['locals'][i + 1][0])
        while t[0] == 'ref':
            t = next(x for x in t[1:] if isinstance(x, tuple))
        v = None
        if t[0] == 'adt' and t[1] in p.adts:
            name = p.adts[t[1]]['d'].split('::')[-1]
            if name in ('BoundingBox2D', 'BoundingBox3D'):
                r = c.call(c.m(name, '', 'new'), sym('min%d' % i), sym('max%d' % i))
                v = restrict(okval(r.ret), is_ok(r.ret))
                pre = band(pre, is_ok(r.ret))
        args.append(v)
    r = c.call(b['d'], *args)
    only_self = b['argc'] == 1
    k = 0
    for o in r.an.oblig:
        if o.kind == 'unwrap':
            oblige(c, '%s/certain/%d' % (key, k), b['d'], r, o, [], False, pre, ALL if only_self and pre != T else FIN)
            k += 1
    if not k:
        c.good(key + '/nothing taken for certain')

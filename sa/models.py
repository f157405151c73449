"""Models of the std operations the crate uses: what each returns, what it requires
(obligations) and what it changes.  Everything not listed is an uninterpreted function."""
from terms import *
import terms as TM
import engine as E
from engine import length, sel, store, subslice, CF

ORD = 'core::cmp::Ordering'
RANGE = 'core::ops::range::Range'
LESS, EQUAL, GREATER = agg(ORD, 0, ()), agg(ORD, 1, ()), agg(ORD, 2, ())

M = {}


def model(*names):
    def deco(f):
        for n in names:
            M[n] = f
        return f
    return deco


def lookup(d, name, tr, m):
    if tr is not None:
        return M.get(tr.split('::')[-1] + '::' + m)
    parts = name.split('::')
    return M.get('::'.join(parts[-2:])) or M.get(parts[-1] + '()')


# ---------------------------------------------------------------- helpers
SEQT = ('alloc::vec::Vec', 'alloc::collections::vec_deque::VecDeque', 'alloc::collections::linked_list::LinkedList',
        'alloc::string::String', 'bitvec::vec::BitVec', 'bitvec::slice::BitSlice')
SETT = ('std::collections::hash::set::HashSet', 'std::collections::hash::map::HashMap')


def strip_ref(t):
    n = 0
    while t is not None and t[0] == 'ref':
        t = t[2]
        n += 1
    return t, n


def is_seq(t):
    return t is not None and (t[0] in ('slice', 'array', 'str') or (t[0] == 'adt' and t[1] in SEQT))


def is_prim(t):
    return t is not None and t[0] in ('prim', 'bool', 'char')


def isfloat(t):
    return t is not None and t[0] == 'prim' and t[1][0] == 'f'


def val(an, c, i):
    """i-th argument with all references removed"""
    return an.deep_read(c.st, c.args[i])


def opt_cases(v):
    """[(cond, payload or None)] of an option value"""
    s = is_variant(v, 1, 2)
    out = []
    if s != F:
        out.append((s, getk(restrict(v, s), ('v', 1, 0))))
    if bnot(s) != F:
        out.append((bnot(s), None))
    return out


def res_split(v):
    """(is_err cond, ok payload, err payload)"""
    e = is_variant(v, 1, 2)
    okv = getk(restrict(v, bnot(e)), ('v', 0, 0)) if e != T else mk('undef')
    erv = getk(restrict(v, e), ('v', 1, 0)) if e != F else mk('undef')
    return e, okv, erv


def join(an, outs):
    """outs: [(ret, pc, st)] -> (ret, pc, st)"""
    outs = [o for o in outs if o[1] != F]
    if not outs:
        return mk('undef'), F, {}
    K = ('L', -7, 'ret')
    lst = []
    for r, pc, st in outs:
        if len(outs) > 1:
            st = dict(st)
        st[K] = r
        lst.append((pc, st))
    pc, st = an.merge(lst)
    r = st.pop(K)
    return r, pc, st


def temp(an, c, st, v, tag):
    root = ('L', c.fr.key, 'tmp%s_%s' % (c.b, tag))
    st[root] = v
    return mk('ref', root, ())


def callv(an, c, f, args, pc, st, tag='', dty=None):
    return an.call_value(c.fr, f, args, pc, st, c.sp, '%s%s' % (c.b, tag), dty)


def outty(c, i=0):
    t = c.dty
    if t[0] == 'adt' and len(t[2]) > i:
        return t[2][i]
    return ('other', '?')


def need(an, c, kind, ok, desc, info=None):
    an.obligation(c.fr, kind, c.pc, ok, c.sp, desc, info)
    return band(c.pc, ok)


# ---------------------------------------------------------------- Try
@model('Try::branch')
def try_branch(an, c):
    v = c.args[0]
    t = c.atys[0]
    if t[0] == 'adt' and t[1] == OPT:
        s = is_variant(v, 1, 2)
        r = []
        if s != F:
            r.append((s, agg(CF, 0, (getk(restrict(v, s), ('v', 1, 0)),))))
        if s != T:
            r.append((bnot(s), agg(CF, 1, (NONE,))))
        return gam(r), c.pc, c.st
    if t[0] == 'adt' and t[1] == RES:
        e, okv, erv = res_split(v)
        r = []
        if e != T:
            r.append((bnot(e), agg(CF, 0, (okv,))))
        if e != F:
            r.append((e, agg(CF, 1, (err(erv),))))
        return gam(r), c.pc, c.st
    return None


@model('FromResidual::from_residual')
def from_residual(an, c):
    t = c.dty
    if t[0] == 'adt' and t[1] == OPT:
        return NONE, c.pc, c.st
    if t[0] == 'adt' and t[1] == RES:
        v = c.args[0]
        e = getk(v, ('v', 1, 0))
        ft = c.atys[0][2][1] if c.atys[0][0] == 'adt' and len(c.atys[0][2]) > 1 else None
        tt = t[2][1] if len(t[2]) > 1 else None
        r, pc, st = convert(an, c, e, ft, tt)
        return err(r), pc, st
    return None


def convert(an, c, v, ft, tt):
    """From::from"""
    if ft == tt or ft is None or tt is None:
        return v, c.pc, c.st
    fr = an.p.find_impl('core::convert::From', (tt, ft))
    if fr is not None:
        im, sub = fr
        for n, u in im['m']:
            if n == 'from' and an.may_inline(c.fr, u):
                return an.call_body(an.p.bodies[u], [v], sub, c.pc, c.st, c.fr, (c.b, c.sp[1], u))
    if is_prim(tt) and is_prim(ft):
        if ft == ('bool',) or ft == ('char',):
            return mk('call', 'from', (v,)), c.pc, c.st
        return v, c.pc, c.st
    if is_seq(tt) and is_seq(strip_ref(ft)[0]):
        return an.deep_read(c.st, v), c.pc, c.st
    return mk('call', 'From::from', (an.deep_read(c.st, v),)), c.pc, c.st


@model('From::from')
def m_from(an, c):
    if len(c.a) > 1 and c.a[0] and c.a[1]:
        return convert(an, c, c.args[0], c.a[1], c.a[0])
    return None


@model('Into::into')
def m_into(an, c):
    if len(c.a) > 1 and c.a[0] and c.a[1]:
        return convert(an, c, c.args[0], c.a[0], c.a[1])
    return None


@model('AsRef::as_ref', 'Borrow::borrow', 'Option::as_deref', 'AsMut::as_mut')
def m_same(an, c):
    return c.args[0], c.pc, c.st


@model('hint::must_use', 'ToOwned::to_owned', 'slice::to_vec', 'mem::forget', 'hint::black_box', 'slice::into_vec',
       'Vec::into_boxed_slice', 'Box::new', 'Box::from', 'boxed::box_assume_init_into_vec_unsafe')
def m_ident(an, c):
    v = c.args[0]
    t = c.atys[0]
    if c.m == 'to_owned' or c.name.endswith('to_vec'):
        v = val(an, c, 0)
    return v, c.pc, c.st


@model('Clone::clone', 'Option::cloned', 'Option::copied', 'Box::clone')
def m_clone(an, c):
    if c.m == 'clone':
        t = c.atys[0]
        v = c.args[0]
        if t is not None and t[0] == 'ref':
            v = an.read_ref(c.st, v)
            if t[2][0] != 'ref' and v.op == 'ref':
                v = v
        return v, c.pc, c.st
    v = c.args[0]
    out = []
    for cc, p in opt_cases(v):
        out.append((cc, NONE if p is None else some(an.deep_read(c.st, p))))
    return gam(out), c.pc, c.st


@model('Fn::call', 'FnMut::call_mut', 'FnOnce::call_once')
def _(an, c):
    """a direct call of a closure or function value: step into it when it is known"""
    if len(c.args) != 2:
        return None
    f = c.args[0]
    v, n = f, 0
    while n < 8:
        if v.op == 'ref':
            v = an.read(c.st, v.a[0], v.a[1])
        elif v.op == 'gam':
            w = restrict(v, c.pc)
            if w is v:
                return None
            v = w
        else:
            break
        n += 1
    if v.op not in ('agg', 'fn') or (v.op == 'agg' and v.a[0] != 'closure'):
        return None
    tup = c.args[1]
    if tup.op == 'ref':
        tup = an.read_ref(c.st, tup)
    if tup.op != 'agg' or tup.a[0] != 'tuple':
        return None
    if v.op == 'agg' and not (v.a[1] in an.p.bodies and an.may_inline(c.fr, v.a[1])):
        return None
    return an.call_value(c.fr, f, list(tup.a[2]), c.pc, c.st, c.sp, c.b, c.dty)


@model('mem::swap')
def m_swap(an, c):
    a, b = c.args
    x, y = an.read_ref(c.st, a), an.read_ref(c.st, b)
    an.write_ref(c.st, a, y)
    an.write_ref(c.st, b, x)
    return UNIT, c.pc, c.st


@model('mem::replace')
def m_replace(an, c):
    x = an.read_ref(c.st, c.args[0])
    an.write_ref(c.st, c.args[0], c.args[1])
    return x, c.pc, c.st


@model('mem::take')
def m_take(an, c):
    x = an.read_ref(c.st, c.args[0])
    t = strip_ref(c.atys[0])[0]
    d = default_of(an, c, t)
    if d is None:
        d = mk('call', 'Default::default', ())
    an.write_ref(c.st, c.args[0], d)
    return x, c.pc, c.st


@model('mem::drop', 'drop()')
def m_drop(an, c):
    return UNIT, c.pc, c.st


@model('mem::size_of')
def m_size_of(an, c):
    t = c.a[0] if c.a else None
    n = {'u8': 1, 'i8': 1, 'u16': 2, 'i16': 2, 'u32': 4, 'i32': 4, 'f32': 4, 'u64': 8, 'i64': 8, 'f64': 8,
         'usize': 8, 'isize': 8, 'u128': 16, 'i128': 16}
    if t and t[0] == 'prim':
        return num(n[t[1]]), c.pc, c.st
    if t == ('bool',):
        return num(1), c.pc, c.st
    return mk('call', 'size_of', (mk('str', repr(t)),)), c.pc, c.st


def default_of(an, c, t):
    if t is None:
        return None
    if t[0] == 'prim':
        return num(0)
    if t == ('bool',):
        return FALSE
    if t[0] == 'adt' and t[1] == OPT:
        return NONE
    if is_seq(t) and t[0] == 'adt':
        return agg('array', 0, ())
    if t[0] == 'tuple':
        ch = [default_of(an, c, x) for x in t[1]]
        if all(x is not None for x in ch):
            return agg('tuple', 0, ch) if ch else UNIT
    if t[0] == 'adt' and t[1].endswith('PhantomData'):
        return agg(t[1], 0, ())
    return None


@model('Default::default')
def m_default(an, c):
    d = default_of(an, c, c.dty)
    if d is None:
        return None
    return d, c.pc, c.st


# ---------------------------------------------------------------- Option / Result
def with_cases(an, c, branches):
    """branches: [(cond, fn(pc, st) -> (ret, pc, st))]"""
    outs = []
    live = [(band(c.pc, cc), fn) for cc, fn in branches]
    live = [(p, fn) for p, fn in live if p != F]
    for i, (p, fn) in enumerate(live):
        st = dict(c.st) if len(live) > 1 else c.st
        r, p2, st = fn(p, st)
        if p2 != F:
            outs.append((restrict(r, p2), p2, st))
    return join(an, outs)


def ret(v):
    return lambda pc, st: (v, pc, st)


def wrapret(f, w):
    def g(pc, st):
        r, p, s = f(pc, st)
        return w(r), p, s
    return g


@model('Option::is_some', 'Option::is_none', 'Result::is_ok', 'Result::is_err')
def m_is(an, c):
    v = val(an, c, 0)
    r = is_variant(v, 1, 2)
    if c.name.endswith('is_none') or c.name.endswith('is_ok'):
        r = bnot(r)
    return B(r), c.pc, c.st


@model('Option::unwrap', 'Option::expect')
def m_unwrap(an, c):
    v = c.args[0]
    s = is_variant(restrict(v, c.pc), 1, 2)
    pc = need(an, c, 'unwrap', s, 'unwrap of None', (v,))
    return restrict(getk(restrict(v, s), ('v', 1, 0)), pc), pc, c.st


@model('Result::unwrap', 'Result::expect')
def m_runwrap(an, c):
    v = c.args[0]
    e, okv, erv = res_split(restrict(v, c.pc))
    pc = need(an, c, 'unwrap', bnot(e), 'unwrap of Err', (v,))
    return restrict(okv, pc), pc, c.st


@model('Result::unwrap_err', 'Result::expect_err')
def m_runwraperr(an, c):
    v = c.args[0]
    e, okv, erv = res_split(v)
    pc = need(an, c, 'unwrap', e, 'unwrap_err of Ok', (v,))
    return restrict(erv, pc), pc, c.st


@model('Option::unwrap_or', 'Result::unwrap_or')
def m_unwrap_or(an, c):
    v, d = c.args
    if 'Option' in c.name:
        out = [(cc, d if p is None else p) for cc, p in opt_cases(v)]
    else:
        e, okv, erv = res_split(v)
        out = [(bnot(e), okv), (e, d)]
    return gam(out), c.pc, c.st


@model('Option::unwrap_or_default', 'Result::unwrap_or_default')
def m_unwrap_or_default(an, c):
    d = default_of(an, c, c.dty)
    if d is None:
        return None
    c.args = [c.args[0], d]
    return m_unwrap_or(an, c)


@model('Option::unwrap_or_else', 'Result::unwrap_or_else')
def m_unwrap_or_else(an, c):
    v, f = c.args
    if 'Option' in c.name:
        return with_cases(an, c, [(cc, ret(p) if p is not None else
                                   (lambda pc, st: callv(an, c, f, [], pc, st, '', c.dty))) for cc, p in opt_cases(v)])
    e, okv, erv = res_split(v)
    return with_cases(an, c, [(bnot(e), ret(okv)), (e, lambda pc, st: callv(an, c, f, [erv], pc, st, '', c.dty))])


@model('Option::ok_or')
def m_ok_or(an, c):
    v, e = c.args
    return gam([(cc, err(e) if p is None else ok(p)) for cc, p in opt_cases(v)]), c.pc, c.st


@model('Option::ok_or_else')
def m_ok_or_else(an, c):
    v, f = c.args
    return with_cases(an, c, [(cc, ret(ok(p)) if p is not None else
                               wrapret(lambda pc, st: callv(an, c, f, [], pc, st, '', outty(c, 1)), err))
                              for cc, p in opt_cases(v)])


@model('Option::map')
def m_omap(an, c):
    v, f = c.args
    return with_cases(an, c, [(cc, ret(NONE) if p is None else
                               wrapret((lambda p: lambda pc, st: callv(an, c, f, [p], pc, st, '', outty(c)))(p), some))
                              for cc, p in opt_cases(v)])


@model('Option::map_or')
def m_omap_or(an, c):
    v, d, f = c.args
    return with_cases(an, c, [(cc, ret(d) if p is None else
                               (lambda p: lambda pc, st: callv(an, c, f, [p], pc, st, '', c.dty))(p))
                              for cc, p in opt_cases(v)])


@model('Option::map_or_else')
def m_omap_or_else(an, c):
    v, d, f = c.args
    return with_cases(an, c, [(cc, (lambda pc, st: callv(an, c, d, [], pc, st, 'd', c.dty)) if p is None else
                               (lambda p: lambda pc, st: callv(an, c, f, [p], pc, st, '', c.dty))(p))
                              for cc, p in opt_cases(v)])


@model('Option::is_some_and')
def m_is_some_and(an, c):
    c.args = [c.args[0], FALSE, c.args[1]]
    return m_omap_or(an, c)


@model('Option::is_none_or')
def m_is_none_or(an, c):
    c.args = [c.args[0], TRUE, c.args[1]]
    return m_omap_or(an, c)


@model('Option::and_then')
def m_oand_then(an, c):
    v, f = c.args
    return with_cases(an, c, [(cc, ret(NONE) if p is None else
                               (lambda p: lambda pc, st: callv(an, c, f, [p], pc, st, '', c.dty))(p))
                              for cc, p in opt_cases(v)])


@model('Option::and')
def m_oand(an, c):
    v, w = c.args
    return gam([(cc, NONE if p is None else w) for cc, p in opt_cases(v)]), c.pc, c.st


@model('Option::or')
def m_oor(an, c):
    v, w = c.args
    return gam([(cc, w if p is None else some(p)) for cc, p in opt_cases(v)]), c.pc, c.st


@model('Option::or_else')
def m_oor_else(an, c):
    v, f = c.args
    return with_cases(an, c, [(cc, ret(some(p)) if p is not None else
                               (lambda pc, st: callv(an, c, f, [], pc, st, '', c.dty))) for cc, p in opt_cases(v)])


@model('Option::filter')
def m_ofilter(an, c):
    v, f = c.args

    def go(p):
        def g(pc, st):
            r, p2, st = callv(an, c, f, [temp(an, c, st, p, 'flt')], pc, st, '', ('bool',))
            b = as_bdd(r)
            return gam([(b, some(p)), (bnot(b), NONE)]), p2, st
        return g
    return with_cases(an, c, [(cc, ret(NONE) if p is None else go(p)) for cc, p in opt_cases(v)])


@model('Option::flatten')
def m_oflatten(an, c):
    v = c.args[0]
    return gam([(cc, NONE if p is None else p) for cc, p in opt_cases(v)]), c.pc, c.st


@model('Option::as_ref', 'Option::as_mut')
def m_oas_ref(an, c):
    r = c.args[0]
    v = an.read_ref(c.st, r)
    s = is_variant(v, 1, 2)
    return gam([(s, some(an.ext(r, ('v', 1, 0)))), (bnot(s), NONE)]), c.pc, c.st


@model('Option::take')
def m_otake(an, c):
    r = c.args[0]
    v = an.read_ref(c.st, r)
    an.write_ref(c.st, r, NONE)
    return v, c.pc, c.st


@model('Option::replace', 'Option::insert')
def m_oreplace(an, c):
    r = c.args[0]
    v = an.read_ref(c.st, r)
    an.write_ref(c.st, r, some(c.args[1]))
    if c.name.endswith('insert'):
        return an.ext(r, ('v', 1, 0)), c.pc, c.st
    return v, c.pc, c.st


@model('Option::zip')
def m_ozip(an, c):
    v, w = c.args
    a, b = is_variant(v, 1, 2), is_variant(w, 1, 2)
    s = band(a, b)
    return gam([(s, some(agg('tuple', 0, (getk(v, ('v', 1, 0)), getk(w, ('v', 1, 0)))))), (bnot(s), NONE)]), c.pc, c.st


@model('Option::iter')
def m_oiter(an, c):
    return None


@model('Result::as_ref', 'Result::as_mut')
def m_ras_ref(an, c):
    r = c.args[0]
    v = an.read_ref(c.st, r)
    e = is_variant(v, 1, 2)
    return gam([(bnot(e), ok(an.ext(r, ('v', 0, 0)))), (e, err(an.ext(r, ('v', 1, 0))))]), c.pc, c.st


@model('Result::ok')
def m_rok(an, c):
    e, okv, erv = res_split(c.args[0])
    return gam([(bnot(e), some(okv)), (e, NONE)]), c.pc, c.st


@model('Result::err')
def m_rerr(an, c):
    e, okv, erv = res_split(c.args[0])
    return gam([(e, some(erv)), (bnot(e), NONE)]), c.pc, c.st


@model('Result::map')
def m_rmap(an, c):
    v, f = c.args
    e, okv, erv = res_split(v)
    return with_cases(an, c, [(bnot(e), wrapret(lambda pc, st: callv(an, c, f, [okv], pc, st, '', outty(c)), ok)),
                              (e, ret(err(erv)))])


@model('Result::map_err')
def m_rmap_err(an, c):
    v, f = c.args
    e, okv, erv = res_split(v)
    return with_cases(an, c, [(e, wrapret(lambda pc, st: callv(an, c, f, [erv], pc, st, '', outty(c, 1)), err)),
                              (bnot(e), ret(ok(okv)))])


@model('Result::map_or')
def m_rmap_or(an, c):
    v, d, f = c.args
    e, okv, erv = res_split(v)
    return with_cases(an, c, [(bnot(e), lambda pc, st: callv(an, c, f, [okv], pc, st, '', c.dty)), (e, ret(d))])


@model('Result::is_ok_and')
def m_is_ok_and(an, c):
    c.args = [c.args[0], FALSE, c.args[1]]
    return m_rmap_or(an, c)


@model('Result::and_then')
def m_rand_then(an, c):
    v, f = c.args
    e, okv, erv = res_split(v)
    return with_cases(an, c, [(bnot(e), lambda pc, st: callv(an, c, f, [okv], pc, st, '', c.dty)), (e, ret(err(erv)))])


@model('Result::or_else')
def m_ror_else(an, c):
    v, f = c.args
    e, okv, erv = res_split(v)
    return with_cases(an, c, [(bnot(e), ret(ok(okv))), (e, lambda pc, st: callv(an, c, f, [erv], pc, st, '', c.dty))])


@model('Result::or')
def m_ror(an, c):
    v, w = c.args
    e, okv, erv = res_split(v)
    return gam([(bnot(e), ok(okv)), (e, w)]), c.pc, c.st


@model('Result::and')
def m_rand(an, c):
    v, w = c.args
    e, okv, erv = res_split(v)
    return gam([(bnot(e), w), (e, err(erv))]), c.pc, c.st


# ---------------------------------------------------------------- comparison
def cmp_args(an, c):
    t0, _ = strip_ref(c.atys[0])
    t1, _ = strip_ref(c.atys[1]) if len(c.atys) > 1 else (None, 0)
    return t0, t1, val(an, c, 0), val(an, c, 1)


@model('PartialOrd::lt', 'PartialOrd::le', 'PartialOrd::gt', 'PartialOrd::ge')
def m_lt(an, c):
    t0, t1, a, b = cmp_args(an, c)
    if is_prim(t0) and is_prim(t1):
        return cmp(c.m, a, b, isfloat(t0)), c.pc, c.st
    # derived comparison operators of crate types go through their partial_cmp
    if t0 is not None and t0[0] == 'adt':
        imp = an.p.find_impl('core::cmp::PartialOrd', (t0, t1))
        if imp is not None:
            im, sub = imp
            for n, u in im['m']:
                if n == 'partial_cmp' and an.may_inline(c.fr, u):
                    r, pc, st = an.call_body(an.p.bodies[u], list(c.args), sub, c.pc, c.st, c.fr, (c.b, c.sp[1], u))
                    s = is_variant(r, 1, 2)
                    o = getk(r, ('v', 1, 0))
                    l, g = is_variant(o, 0, 3), is_variant(o, 2, 3)
                    e = is_variant(o, 1, 3)
                    x = {'lt': l, 'gt': g, 'le': bor(l, e), 'ge': bor(g, e)}[c.m]
                    return B(band(s, x)), pc, st
    return None


@model('PartialEq::eq', 'PartialEq::ne')
def m_eq(an, c):
    t0, t1, a, b = cmp_args(an, c)
    r = None
    if is_prim(t0) and is_prim(t1):
        r = as_bdd(cmp('eq', a, b, isfloat(t0)))
    elif t0 is not None and t0[0] == 'adt' and an.p.find_impl('core::cmp::PartialEq', (t0, t1)) is not None:
        im, sub = an.p.find_impl('core::cmp::PartialEq', (t0, t1))
        for n, u in im['m']:
            if n == 'eq' and an.may_inline(c.fr, u):
                args = [x for x in c.args]
                rr, pc, st = an.call_body(an.p.bodies[u], args, sub, c.pc, c.st, c.fr, (c.b, c.sp[1], u))
                q = as_bdd(rr)
                return B(q if c.m == 'eq' else bnot(q)), pc, st
    elif t0 is not None and t0[0] == 'adt' and t0[1] == OPT:
        x, y = is_variant(a, 1, 2), is_variant(b, 1, 2)
        px, py = getk(a, ('v', 1, 0)), getk(b, ('v', 1, 0))
        it = t0[2][0] if t0[2] else None
        if is_prim(strip_ref(it)[0]):
            q = as_bdd(cmp('eq', px, py, isfloat(it))) if band(x, y) != F else F
            r = bor(band(bnot(x), bnot(y)), band(band(x, y), q))
    if r is None:
        if a is b:
            r = T
        else:
            x, y = sorted([a, b], key=lambda z: z.id)
            r = eqatom(x, y)
    return B(r if c.m == 'eq' else bnot(r)), c.pc, c.st


def eqatom(x, y):
    if x.op == 'gam':
        r = F
        for cc, v in x.a[0]:
            r = bor(r, band(cc, eqatom(v, y)))
        return r
    if y.op == 'gam':
        return eqatom(y, x)
    if x is y:
        return T
    if x.op in ('str', 'bytes') and y.op == x.op:
        return F
    x, y = sorted([x, y], key=lambda z: z.id)
    t = mk('call', 'eq', (x, y))
    t.meta = 'bool'
    return atom(t)


def ordering(a, b, fl):
    l = as_bdd(cmp('lt', a, b, fl))
    e = as_bdd(cmp('eq', a, b, fl))
    g = band(bnot(l), bnot(e))
    return gam([(l, LESS), (band(bnot(l), e), EQUAL), (g, GREATER)])


@model('PartialOrd::partial_cmp')
def m_partial_cmp(an, c):
    t0, t1, a, b = cmp_args(an, c)
    if is_prim(t0) and is_prim(t1):
        o = some(ordering(a, b, isfloat(t0)))
        if isfloat(t0) and TM.NAN_AWARE[0]:
            l = as_bdd(cmp('lt', a, b, True))
            g = as_bdd(cmp('gt', a, b, True))
            e = as_bdd(cmp('eq', a, b, True))
            return gam([(l, some(LESS)), (e, some(EQUAL)), (g, some(GREATER)), (bnot(bor(bor(l, g), e)), NONE)]), c.pc, c.st
        return o, c.pc, c.st
    return None


@model('Ord::cmp', 'f64::total_cmp')
def m_cmp(an, c):
    t0, t1, a, b = cmp_args(an, c)
    if is_prim(t0):
        return ordering(a, b, isfloat(t0)), c.pc, c.st
    return None


@model('Ord::max', 'Ord::min', 'f64::max', 'f64::min', 'cmp::max', 'cmp::min', 'f32::max', 'f32::min')
def m_max(an, c):
    a, b = c.args
    t0 = c.atys[0]
    mx = c.name.endswith('max')
    if not (is_prim(t0)):
        # by the order of the type
        tr = 'core::cmp::Ord'
        tgt = an.resolve_callee('core::cmp::Ord::cmp', (t0,), None, None, None, tr, 'cmp', c.args, c.st)
        if tgt is None or tgt[0] not in an.p.bodies:
            return None
        uid, sub = tgt
        o, pc, st = an.call_body(an.p.bodies[uid], [temp(an, c, c.st, a, 'ord0'), temp(an, c, c.st, b, 'ord1')], sub, c.pc, c.st, c.fr, (c.b, c.sp[1], uid))
        first = bnot(is_variant(o, 2, 3)) if not mx else is_variant(o, 2, 3)
        return gam([(first, a), (bnot(first), b)]), pc, st
    if TM.IEEE[0] and isfloat(t0):
        return TM._dist2(lambda x, y: TM.ieee('max' if mx else 'min', x, y), a, b), c.pc, c.st
    return (mkmax(a, b) if mx else mkmin(a, b)), c.pc, c.st


@model('Ord::clamp', 'f64::clamp')
def m_clamp(an, c):
    if not is_prim(c.atys[0]):
        return None
    if TM.IEEE[0] and isfloat(c.atys[0]):
        return TM.ieee('clamp', *c.args), c.pc, c.st
    return mkmax(mkmin(c.args[0], c.args[2]), c.args[1]), c.pc, c.st


@model('Ordering::reverse')
def m_ordrev(an, c):
    o = c.args[0]
    return gam([(is_variant(o, 0, 3), GREATER), (is_variant(o, 1, 3), EQUAL), (is_variant(o, 2, 3), LESS)]), c.pc, c.st


@model('Ordering::then')
def m_ordthen(an, c):
    o, p = c.args
    e = is_variant(o, 1, 3)
    return gam([(e, p), (bnot(e), o)]), c.pc, c.st


@model('Ordering::then_with')
def m_ordthenw(an, c):
    o, f = c.args
    e = is_variant(o, 1, 3)
    return with_cases(an, c, [(bnot(e), ret(restrict(o, bnot(e)))), (e, lambda pc, st: callv(an, c, f, [], pc, st, '', c.dty))])


# ---------------------------------------------------------------- arithmetic traits
ARITH = {'Add': 'Add', 'Sub': 'Sub', 'Mul': 'Mul', 'Div': 'Div', 'Rem': 'Rem'}


@model('Add::add', 'Sub::sub', 'Mul::mul', 'Div::div', 'Rem::rem')
def m_arith(an, c):
    t0, t1 = strip_ref(c.atys[0])[0], strip_ref(c.atys[1])[0]
    if is_prim(t0) and is_prim(t1):
        v = an.binop_v(c.tr.split('::')[-1], val(an, c, 0), val(an, c, 1), t0, isfloat(t0))
        return v, c.pc, c.st
    return None


@model('AddAssign::add_assign', 'SubAssign::sub_assign', 'MulAssign::mul_assign', 'DivAssign::div_assign')
def m_arith_assign(an, c):
    t0, t1 = strip_ref(c.atys[0])[0], strip_ref(c.atys[1])[0]
    if is_prim(t0) and is_prim(t1):
        v = an.binop_v(c.tr.split('::')[-1][:-6], an.read_ref(c.st, c.args[0]), val(an, c, 1), t0, isfloat(t0))
        an.write_ref(c.st, c.args[0], v)
        return UNIT, c.pc, c.st
    # x += y through the type's Add when the crate has one
    return None


@model('Neg::neg')
def m_neg(an, c):
    if is_prim(strip_ref(c.atys[0])[0]):
        if TM.IEEE[0] and isfloat(strip_ref(c.atys[0])[0]):
            return TM._dist1(lambda x: TM.ieee('neg', x), val(an, c, 0)), c.pc, c.st
        return neg(val(an, c, 0)), c.pc, c.st
    return None


@model('f64::is_nan', 'f64::is_finite', 'f64::is_infinite', 'f64::is_sign_negative', 'f64::is_sign_positive')
def m_isnan(an, c):
    n = c.name.split('::')[-1]
    x = val(an, c, 0)
    if TM.IEEE[0]:
        return B(as_bdd(TM._dist1(lambda y: B(atom(TM.ieee(n, y))), x))), c.pc, c.st
    if n in ('is_nan', 'is_infinite'):
        return B(F), c.pc, c.st       # numbers are finite outside the IEEE mode
    if n == 'is_finite':
        return B(T), c.pc, c.st
    return None


@model('f64::sqrt', 'f32::sqrt')
def m_sqrt(an, c):
    if TM.IEEE[0]:
        return TM._dist1(lambda x: TM.ieee('sqrt', x, *c.args[1:]), c.args[0]), c.pc, c.st
    return sqrt(c.args[0]), c.pc, c.st


@model('f64::abs', 'f32::abs', 'i64::abs', 'i32::abs', 'isize::abs', 'num::abs')
def m_abs(an, c):
    if TM.IEEE[0] and isfloat(c.atys[0]):
        return TM._dist1(lambda x: TM.ieee('abs', x), c.args[0]), c.pc, c.st
    return fabs(c.args[0]), c.pc, c.st


@model('f64::powi', 'f32::powi')
def m_powi(an, c):
    if TM.IEEE[0]:
        return TM._dist1(lambda x: TM.ieee('powi', x, c.args[1]), c.args[0]), c.pc, c.st
    k = const_val(c.args[1])
    if k is not None and k.denominator == 1 and abs(k) <= 8:
        k = int(k)

        def f(x):
            r = num(1)
            for _ in range(abs(k)):
                r = mul(r, x)
            return r if k >= 0 else fdiv(num(1), r)
        return TM._dist1(f, c.args[0]), c.pc, c.st
    return mk('call', 'powi', tuple(c.args)), c.pc, c.st


@model('f64::mul_add')
def m_mul_add(an, c):
    if TM.IEEE[0]:
        return TM._dist1(lambda x: TM.ieee('mul_add', x, *c.args[1:]), c.args[0]), c.pc, c.st
    return add(mul(c.args[0], c.args[1]), c.args[2]), c.pc, c.st


@model('f64::recip')
def m_recip(an, c):
    if TM.IEEE[0]:
        return TM._dist1(lambda x: TM.ieee('recip', x, *c.args[1:]), c.args[0]), c.pc, c.st
    return fdiv(num(1), c.args[0]), c.pc, c.st


@model('f64::hypot')
def m_hypot(an, c):
    if TM.IEEE[0]:
        return TM._dist1(lambda x: TM.ieee('hypot', x, *c.args[1:]), c.args[0]), c.pc, c.st
    return sqrt(add(mul(c.args[0], c.args[0]), mul(c.args[1], c.args[1]))), c.pc, c.st


@model('f64::sin', 'f64::cos', 'f64::tan', 'f64::acos', 'f64::asin', 'f64::atan', 'f64::atan2', 'f64::exp', 'f64::ln', 'f64::floor', 'f64::ceil', 'f64::round', 'f64::to_bits', 'f32::to_bits')
def m_fn1(an, c):
    n = c.name.split('::')[-1]
    if n in ('sin', 'cos'):
        return TM._dist1(lambda x: trig(n, x), c.args[0]), c.pc, c.st
    return mk('call', n, tuple(c.args)), c.pc, c.st


@model('f64::sin_cos')
def m_sincos(an, c):
    x = c.args[0]
    return agg('tuple', 0, (TM._dist1(lambda y: trig('sin', y), x), TM._dist1(lambda y: trig('cos', y), x))), c.pc, c.st


def trig(n, x):
    q, s = normsign(x)
    d = poly_of(x)
    if s < 0:
        y = neg(x)
        t = mk('call', n, (y,))
        return neg(t) if n == 'sin' else t
    return mk('call', n, (x,))


INTNAMES = ('usize', 'u8', 'u16', 'u32', 'u64', 'i32', 'i64', 'isize', 'num', 'i16', 'i8')


def _int(fn, *ops):
    for o in ops:
        for t in INTNAMES:
            M[t + '::' + o] = fn


def m_checked(an, c):
    o = c.name.split('checked_')[-1]
    a, b = c.args
    t = c.atys[0]
    n = t[1]
    v = {'add': add, 'sub': sub, 'mul': mul, 'div': idiv, 'rem': irem}[o](a, b)
    if o in ('div', 'rem'):
        okc = bnot(as_bdd(cmp('eq', b, num(0), False)))
    elif o == 'sub' and n[0] == 'u':
        okc = as_bdd(cmp('ge', a, b, False))
    else:
        w = an.INTW[n]
        okc = as_bdd(cmp('le', v, num((1 << w) - 1), False))
        if n[0] == 'i':
            okc = band(okc, as_bdd(cmp('ge', v, num(-(1 << w)), False)))
    return gam([(okc, some(v)), (bnot(okc), NONE)]), c.pc, c.st


_int(m_checked, 'checked_add', 'checked_sub', 'checked_mul', 'checked_div', 'checked_rem')


def m_satsub(an, c):
    a, b = c.args
    if c.atys[0][1][0] != 'u':
        return None
    g = as_bdd(cmp('ge', a, b, False))
    return gam([(g, sub(a, b)), (bnot(g), num(0))]), c.pc, c.st


_int(m_satsub, 'saturating_sub')


def m_wrapping(an, c):
    o = c.name.split('::')[-1]
    return mk('call', o, tuple(c.args) + (mk('str', c.atys[0][1]),)), c.pc, c.st


_int(m_wrapping, 'wrapping_add', 'wrapping_sub', 'wrapping_mul')


def m_from_bytes(an, c):
    o = c.name.split('::')[-1]
    return mk('call', '%s:%s' % (o, c.dty[1]), (val(an, c, 0),)), c.pc, c.st


for _o in ('from_le_bytes', 'from_be_bytes', 'from_ne_bytes'):
    M[_o + '()'] = m_from_bytes


def m_to_bytes(an, c):
    o = c.name.split('::')[-1]
    n = c.dty[2] if c.dty[0] == 'array' else None
    r = mk('call', '%s:%s' % (o, c.atys[0][1]), (c.args[0],))
    try:
        r.meta = ('len', int(str(n).split('_')[0]))
    except Exception:
        pass
    return r, c.pc, c.st


for _o in ('to_le_bytes', 'to_be_bytes', 'to_ne_bytes'):
    M[_o + '()'] = m_to_bytes


def arrlen(t):
    if t is not None and t[0] == 'array':
        import re
        m = re.match(r'(\d+)', str(t[2]))
        if m:
            return int(m.group(1))
    return None


@model('TryInto::try_into', 'TryFrom::try_from')
def m_try_into(an, c):
    t = c.dty
    tgt = t[2][0] if t[0] == 'adt' and t[2] else None
    n = arrlen(tgt)
    st0 = strip_ref(c.atys[0])[0]
    if n is not None and is_seq(st0):
        v = val(an, c, 0)
        cnd = as_bdd(cmp('eq', length(v), num(n), False))
        return gam([(cnd, ok(v)), (bnot(cnd), err(mk('call', 'TryFromSliceError', ())))]), c.pc, c.st
    if is_prim(tgt) and is_prim(c.atys[0]) and c.atys[0][0] == 'prim' and tgt[0] == 'prim' and c.atys[0][1][0] in 'ui' and tgt[1][0] in 'ui':
        v = c.args[0]
        w = an.INTW[tgt[1]]
        lo = -(1 << w) if tgt[1][0] == 'i' else 0
        fw = an.INTW[c.atys[0][1]]
        flo = -(1 << fw) if c.atys[0][1][0] == 'i' else 0
        cnd = T
        if (1 << fw) > (1 << w):
            cnd = band(cnd, as_bdd(cmp('lt', v, num(1 << w), False)))
        if flo < lo:
            cnd = band(cnd, as_bdd(cmp('ge', v, num(lo), False)))
        return gam([(cnd, ok(v)), (bnot(cnd), err(mk('call', 'TryFromIntError', ())))]), c.pc, c.st
    return None


# ---------------------------------------------------------------- sequences
EMPTY = agg('array', 0, ())


@model('Vec::new', 'VecDeque::new', 'LinkedList::new', 'String::new')
def m_vecnew(an, c):
    return EMPTY, c.pc, c.st


@model('Vec::with_capacity', 'VecDeque::with_capacity', 'String::with_capacity')
def m_vecwc(an, c):
    an.event(c.fr, 'reserve', c.pc, c.name, (c.args[0],), c.sp, (c.dty,))
    return EMPTY, c.pc, c.st


@model('Vec::reserve', 'VecDeque::reserve', 'Vec::reserve_exact', 'String::reserve')
def m_reserve(an, c):
    an.event(c.fr, 'reserve', c.pc, c.name, (c.args[1],), c.sp, (strip_ref(c.atys[0])[0],))
    return UNIT, c.pc, c.st


@model('Vec::shrink_to_fit')
def m_nop(an, c):
    return UNIT, c.pc, c.st


def push(v, x):
    if v.op == 'gam':
        return gam([(cc, push(y, restrict(x, cc))) for cc, y in v.a[0]])
    if v.op == 'agg' and v.a[0] == 'array' and len(v.a[2]) < 200:
        return agg('array', 0, v.a[2] + (x,))
    if v.op == 'undef':
        return v
    return mk('push', v, x)


E.push = push
E.REBUILD_PUSH = None
TM.REBUILD['push'] = lambda t: push(t.a[0], t.a[1])


@model('Vec::push', 'VecDeque::push_back', 'LinkedList::push_back', 'String::push')
def m_push(an, c):
    v = an.read_ref(c.st, c.args[0])
    an.write_ref(c.st, c.args[0], push(v, c.args[1]))
    an.event(c.fr, 'push', c.pc, 'push', (v, c.args[1]), c.sp, None)
    return UNIT, c.pc, c.st


@model('Vec::pop', 'VecDeque::pop_back')
def m_pop(an, c):
    v = an.read_ref(c.st, c.args[0])
    n = length(v)
    e = as_bdd(cmp('eq', n, num(0), False))
    last = sub(n, num(1))
    an.write_ref(c.st, c.args[0], gam([(e, v), (bnot(e), subslice(v, num(0), last))]))
    return gam([(e, NONE), (bnot(e), some(sel(restrict(v, bnot(e)), restrict(last, bnot(e)))))]), c.pc, c.st


@model('VecDeque::pop_front', 'LinkedList::pop_front')
def m_popf(an, c):
    v = an.read_ref(c.st, c.args[0])
    n = length(v)
    e = as_bdd(cmp('eq', n, num(0), False))
    an.write_ref(c.st, c.args[0], gam([(e, v), (bnot(e), subslice(v, num(1), n))]))
    return gam([(e, NONE), (bnot(e), some(sel(v, num(0))))]), c.pc, c.st


@model('Vec::insert', 'VecDeque::insert', 'String::insert')
def m_insert(an, c):
    v = an.read_ref(c.st, c.args[0])
    pc = need(an, c, 'bounds', as_bdd(cmp('le', c.args[1], length(v), False)), 'insert position out of bounds',
              (length(v), c.args[1]))
    an.write_ref(c.st, c.args[0], mk('insert', v, c.args[1], c.args[2]))
    return UNIT, pc, c.st


@model('Vec::remove', 'Vec::swap_remove')
def m_remove(an, c):
    v = an.read_ref(c.st, c.args[0])
    pc = need(an, c, 'bounds', as_bdd(cmp('lt', c.args[1], length(v), False)), 'remove position out of bounds',
              (length(v), c.args[1]))
    an.write_ref(c.st, c.args[0], mk('remove', v, c.args[1], mk('str', c.name.split('::')[-1])))
    return sel(v, c.args[1]), pc, c.st


@model('Vec::clear', 'VecDeque::clear', 'LinkedList::clear', 'String::clear', 'HashSet::clear', 'HashMap::clear')
def m_clear(an, c):
    an.write_ref(c.st, c.args[0], EMPTY if 'Hash' not in c.name else mk('call', c.name.split('::')[0] + '::new', ()))
    return UNIT, c.pc, c.st


@model('Vec::truncate')
def m_truncate(an, c):
    v = an.read_ref(c.st, c.args[0])
    g = as_bdd(cmp('lt', c.args[1], length(v), False))
    an.write_ref(c.st, c.args[0], gam([(g, subslice(v, num(0), c.args[1])), (bnot(g), v)]))
    return UNIT, c.pc, c.st


@model('Vec::len', 'VecDeque::len', 'LinkedList::len', 'slice::len', 'str::len', 'String::len', 'BitVec::len',
       'BitSlice::len', 'ExactSizeIterator::len', 'HashSet::len', 'HashMap::len')
def m_len(an, c):
    v = val(an, c, 0)
    if c.tr is not None:
        it = as_iter(an, c, v)
        r = it_remaining(it)
        return (r, c.pc, c.st) if r is not None else None
    if v.op == 'upd' or v.op == 'phi' or True:
        return length(v), c.pc, c.st


@model('Vec::is_empty', 'VecDeque::is_empty', 'LinkedList::is_empty', 'slice::is_empty', 'str::is_empty',
       'String::is_empty', 'HashSet::is_empty', 'HashMap::is_empty')
def m_is_empty(an, c):
    v = val(an, c, 0)
    return cmp('eq', length(v), num(0), False), c.pc, c.st


@model('Vec::as_slice', 'Vec::as_mut_slice', 'String::as_bytes', 'str::as_bytes', 'String::as_str', 'str::as_str', 'VecDeque::make_contiguous',
       'slice::as_ref', 'array::as_slice', 'String::into_bytes', 'Vec::leak')
def m_as(an, c):
    return c.args[0], c.pc, c.st


@model('Deref::deref', 'DerefMut::deref_mut')
def m_deref(an, c):
    t = strip_ref(c.atys[0])[0]
    if t is not None and t[0] == 'adt':
        if t[1] in SEQT or t[1].endswith('::Box'):
            return c.args[0], c.pc, c.st
        if t[1].split('::')[-1] in ('RefMut', 'Ref', 'MutexGuard'):
            return an.read_ref(c.st, c.args[0]), c.pc, c.st
        if t[1].split('::')[-1] in ('Rc', 'Arc'):
            return c.args[0], c.pc, c.st
    return None


@model('RefCell::borrow_mut', 'RefCell::borrow', 'RefCell::get_mut')
def m_borrow(an, c):
    an.event(c.fr, 'borrow', c.pc, c.name, (an.deep_read(c.st, c.args[0]),), c.sp, c.args[0])
    return c.args[0], c.pc, c.st


@model('RefCell::new', 'Cell::new', 'RefCell::into_inner')
def m_refcellnew(an, c):
    return c.args[0], c.pc, c.st


@model('vec::from_elem')
def m_from_elem(an, c):
    an.event(c.fr, 'reserve', c.pc, c.name, (c.args[1],), c.sp, (c.dty,))
    return mk('rep', c.args[0], c.args[1]), c.pc, c.st


@model('Vec::resize')
def m_resize(an, c):
    v = an.read_ref(c.st, c.args[0])
    n = c.args[1]
    an.event(c.fr, 'reserve', c.pc, c.name, (n,), c.sp, (strip_ref(c.atys[0])[0],))
    l = length(v)
    if const_val(l) == 0:
        r = mk('rep', c.args[2], n)
    else:
        g = as_bdd(cmp('lt', n, l, False))
        r = gam([(g, subslice(v, num(0), n)), (bnot(g), mk('resized', v, n, c.args[2]))])
    an.write_ref(c.st, c.args[0], r)
    return UNIT, c.pc, c.st


def range_bounds(an, r, t, n):
    """(lo, hi) of a range-typed index"""
    k = t[1].split('::')[-1] if t[0] == 'adt' else ''
    if k == 'Range':
        return getk(r, ('f', 0)), getk(r, ('f', 1))
    if k == 'RangeTo':
        return num(0), getk(r, ('f', 0))
    if k == 'RangeFrom':
        return getk(r, ('f', 0)), n
    if k == 'RangeFull':
        return num(0), n
    if k == 'RangeInclusive':
        return getk(r, ('f', 0)), add(getk(r, ('f', 1)), num(1))
    if k == 'RangeToInclusive':
        return num(0), add(getk(r, ('f', 0)), num(1))
    return None


def subref(an, st, r, lo, hi, n):
    """reference to the part lo..hi of the sequence behind r"""
    return mk('ref', ('M', subslice(an.deep_read(st, r), lo, hi)), ())


@model('Index::index', 'IndexMut::index_mut')
def m_index(an, c):
    t = strip_ref(c.atys[0])[0]
    it = c.atys[1]
    r = c.args[0]
    if is_seq(t):
        v = an.deep_read(c.st, r) if r.op != 'gam' else an.read_ref(c.st, r)
        n = length(v)
        if it == ('prim', 'usize'):
            i = c.args[1]
            pc = need(an, c, 'bounds', as_bdd(cmp('lt', i, n, False)), 'index out of bounds', (n, i))
            return an.ext(r, ('i', i)), pc, c.st
        b = range_bounds(an, c.args[1], it, n)
        if b is not None:
            lo, hi = b
            okc = band(as_bdd(cmp('le', lo, hi, False)), as_bdd(cmp('le', hi, n, False)))
            pc = need(an, c, 'bounds', okc, 'slice range out of bounds', (n, lo, hi))
            return subref(an, c.st, r, lo, hi, n), pc, c.st
    if t is not None and t[0] == 'adt' and t[1] in SETT:
        k = val(an, c, 1)
        m = val(an, c, 0)
        ck = mk('call', 'HashMap::contains_key', (m, k))
        ck.meta = 'bool'
        pc = need(an, c, 'bounds', atom(ck), 'missing map key', (m, k))
        return mk('ref', ('M', mk('call', 'HashMap::at', (m, k))), ()), pc, c.st
    return None


@model('HashMap::entry', 'BTreeMap::entry')
def m_entry(an, c):
    r = c.args[0]
    if r.op != 'ref':
        return None
    return agg('hm:entry', 0, (r, val(an, c, 1))), c.pc, c.st


def entry_or(an, c, f):
    e = c.args[0]
    if not (e.op == 'agg' and e.a[0] == 'hm:entry'):
        return None
    r, k = e.a[2]
    m = an.read_ref(c.st, r)
    at = an.ext(r, ('key', k))
    has = E.maphas(m, k)

    def new(pc, st):
        v, pc, st = f(pc, st)
        if pc != F:
            an.write_ref(st, at, v, pc)
        return UNIT, pc, st
    _, pc, st = with_cases(an, c, [(has, ret(UNIT)), (bnot(has), new)])
    return at, pc, st


@model('Entry::or_insert_with')
def m_or_insert_with(an, c):
    return entry_or(an, c, lambda pc, st: callv(an, c, c.args[1], [], pc, st))


@model('Entry::or_insert')
def m_or_insert(an, c):
    return entry_or(an, c, lambda pc, st: (c.args[1], pc, st))


@model('Entry::and_modify')
def m_and_modify(an, c):
    e = c.args[0]
    if not (e.op == 'agg' and e.a[0] == 'hm:entry'):
        return None
    r, k = e.a[2]
    has = E.maphas(an.read_ref(c.st, r), k)

    def mod(pc, st):
        _, pc, st = callv(an, c, c.args[1], [an.ext(r, ('key', k))], pc, st)
        return UNIT, pc, st
    _, pc, st = with_cases(an, c, [(has, mod), (bnot(has), ret(UNIT))])
    return e, pc, st


@model('HashMap::insert', 'BTreeMap::insert')
def m_hinsert(an, c):
    r = c.args[0]
    if r.op != 'ref':
        return None
    k = val(an, c, 1)
    m = an.read_ref(c.st, r)
    has = E.maphas(m, k)
    old = gam([(has, some(E.mapat(m, k))), (bnot(has), NONE)])
    an.write_ref(c.st, an.ext(r, ('key', k)), c.args[2], c.pc)
    return old, c.pc, c.st


@model('HashMap::get', 'HashMap::get_mut', 'BTreeMap::get', 'BTreeMap::get_mut')
def m_hget(an, c):
    r = c.args[0]
    if r.op != 'ref':
        return None
    k = val(an, c, 1)
    has = E.maphas(an.read_ref(c.st, r), k)
    return gam([(has, some(an.ext(r, ('key', k)))), (bnot(has), NONE)]), c.pc, c.st


@model('HashMap::contains_key', 'BTreeMap::contains_key')
def m_hcontains(an, c):
    return B(E.maphas(val(an, c, 0), val(an, c, 1))), c.pc, c.st


@model('slice::get', 'slice::get_mut', 'VecDeque::get', 'VecDeque::get_mut', 'Vec::get', 'Vec::get_mut')
def m_get(an, c):
    r = c.args[0]
    v = an.deep_read(c.st, r)
    n = length(v)
    if c.atys[1] == ('prim', 'usize'):
        i = c.args[1]
        g = as_bdd(cmp('lt', i, n, False))
        return gam([(g, some(an.ext(r, ('i', i)))), (bnot(g), NONE)]), c.pc, c.st
    b = range_bounds(an, c.args[1], c.atys[1], n)
    if b is not None:
        lo, hi = b
        g = band(as_bdd(cmp('le', lo, hi, False)), as_bdd(cmp('le', hi, n, False)))
        return gam([(g, some(subref(an, c.st, r, lo, hi, n))), (bnot(g), NONE)]), c.pc, c.st
    return None


@model('slice::first', 'slice::last', 'slice::first_mut', 'slice::last_mut', 'VecDeque::front', 'VecDeque::back',
       'LinkedList::front', 'LinkedList::back')
def m_first(an, c):
    r = c.args[0]
    v = an.deep_read(c.st, r)
    n = length(v)
    e = as_bdd(cmp('eq', n, num(0), False))
    last = 'last' in c.name or c.name.endswith('back')
    i = sub(n, num(1)) if last else num(0)
    return gam([(bnot(e), some(an.ext(r, ('i', i)))), (e, NONE)]), c.pc, c.st


@model('slice::split_at')
def m_split_at(an, c):
    r = c.args[0]
    v = an.deep_read(c.st, r)
    n = length(v)
    i = c.args[1]
    pc = need(an, c, 'bounds', as_bdd(cmp('le', i, n, False)), 'split_at out of bounds', (n, i))
    return agg('tuple', 0, (mk('ref', ('M', subslice(v, num(0), i)), ()), mk('ref', ('M', subslice(v, i, n)), ()))), pc, c.st


@model('slice::swap', 'Vec::swap')
def m_sswap(an, c):
    r, i, j = c.args
    v = an.deep_read(c.st, r)
    n = length(v)
    okc = band(as_bdd(cmp('lt', i, n, False)), as_bdd(cmp('lt', j, n, False)))
    pc = need(an, c, 'bounds', okc, 'swap out of bounds', (n, i, j))
    an.write_ref(c.st, r, store(store(v, i, sel(v, j)), j, sel(v, i)))
    return UNIT, pc, c.st


@model('slice::contains')
def m_contains(an, c):
    return None


def closure_sig(an, c, f):
    """canonical description of a comparison/key closure (value terms only)"""
    v = an.deep_read(c.st, f)
    return v


@model('slice::sort_by', 'slice::sort', 'slice::sort_unstable', 'slice::sort_unstable_by', 'Vec::dedup', 'slice::reverse',
       'slice::sort_by_key', 'slice::sort_unstable_by_key', 'Vec::dedup_by', 'Vec::dedup_by_key', 'slice::sort_by_cached_key')
def m_sort(an, c):
    r = c.args[0]
    v = an.deep_read(c.st, r)
    n = c.name.split('::')[-1]
    fs = tuple(closure_sig(an, c, x) for x in c.args[1:])
    nv = mk('call', n, (v,) + fs)
    an.event(c.fr, 'sort', c.pc, n, (v,) + fs, c.sp, c.args[1:], nv)
    an.write_ref(c.st, r, nv)
    return UNIT, c.pc, c.st


@model('Vec::retain', 'VecDeque::retain')
def m_retain(an, c):
    """v.retain(f): sequence of those elements accepted, in order"""
    r, f = c.args
    v = an.deep_read(c.st, r)
    accroot = ('L', c.fr.key, 'ret%s' % c.b)
    itroot = ('L', c.fr.key, 'retit%s' % c.b)
    c.st[accroot] = EMPTY
    c.st[itroot] = agg('it:val', 0, (v, num(0), length(v)))

    def body(pc, st, back, done):
        for kind, x, nit, p, s in step(an, c, st[itroot], pc, st):
            if kind == 'done':
                done.append((p, s))
                continue
            s[itroot] = nit
            rr, p2, s = callv(an, c, f, [temp(an, c, s, x, 'retx')], p, s, 'ret', ('bool',))
            b = as_bdd(restrict(rr, p2))
            for cc, keep in ((b, True), (bnot(b), False)):
                pp = band(p2, cc)
                if pp == F:
                    continue
                s2 = dict(s)
                if keep:
                    s2[accroot] = push(s2[accroot], x)
                back.append((pp, s2))
    pc, st = consume(an, c, 'retain', c.pc, c.st, body)
    if pc == F:
        return UNIT, F, st
    an.write_ref(st, r, st[accroot])
    return UNIT, pc, st


@model('Extend::extend', 'Vec::extend_from_slice', 'Vec::append')
def m_extend(an, c):
    t = strip_ref(c.atys[0])[0]
    if not is_seq(t):
        return None
    r = c.args[0]
    src = c.args[1]
    if c.name.endswith('append'):
        v2 = an.read_ref(c.st, src)
        an.write_ref(c.st, src, EMPTY)
        it = agg('it:val', 0, (v2, num(0), length(v2)))
    elif c.name.endswith('extend_from_slice'):
        v2 = val(an, c, 1)
        it = agg('it:val', 0, (v2, num(0), length(v2)))
    else:
        it = into_iter(an, c, src, c.atys[1], c.st)
        if it is None:
            return None
    itroot = ('L', c.fr.key, 'ext%s' % c.b)
    c.st[itroot] = it

    def body(pc, st, back, done):
        for kind, x, nit, p, s in step(an, c, st[itroot], pc, st):
            if kind == 'done':
                done.append((p, s))
                continue
            s[itroot] = nit
            if kind == 'item':
                an.event(c.fr, 'push', p, 'push', (an.read_ref(s, r), x), c.sp, None)
                xx = an.deep_read(s, x) if x.op == 'ref' and not elem_is_ref(t) else x
                an.write_ref(s, r, push(an.read_ref(s, r), xx))
            back.append((p, s))
    pc, st = consume(an, c, 'extend', c.pc, c.st, body)
    return UNIT, pc, st


def elem_is_ref(t):
    return t[0] == 'adt' and t[2] and t[2][0][0] == 'ref'


# ---------------------------------------------------------------- iterators
def mkit(name, *ch):
    return agg('it:' + name, 0, ch)


def is_it(v):
    return v.op == 'agg' and (str(v.a[0]).startswith('it:') or v.a[0] in (RANGE,))


def into_iter(an, c, v, t, st):
    if v.op == 'gam':
        v = restrict(v, c.pc)
    if is_it(v):
        return v
    if t is None:
        t = ('other', '?')
    if t[0] == 'ref':
        inner = t[2]
        u, nref = strip_ref(t)
        if is_seq(u):
            rr = v
            if nref > 1:
                rr = an.read_ref(st, v)
            sv = an.deep_read(st, rr)
            return mkit('ref', rr, num(0), length(sv))
        if u[0] == 'adt' and u[1] in SETT:
            sv = mk('call', 'hashseq', (an.deep_read(st, v),))
            return mkit('ref', mk('ref', ('M', sv), ()), num(0), length(sv))
        if u[0] == 'adt' and u[1] == OPT:
            sv = an.read_ref(st, v)
            return mkit('opt', gam([(is_variant(sv, 1, 2), some(an.ext(v, ('v', 1, 0)))), (bnot(is_variant(sv, 1, 2)), NONE)]))
        if t[1]:
            # &mut I where I: Iterator
            return mkit('by_ref', v)
        sv = an.deep_read(st, v)
        return mkit('ref', v, num(0), length(sv))
    if is_seq(t):
        return mkit('val', v, num(0), length(v))
    if t[0] == 'adt' and t[1] in SETT:
        sv = mk('call', 'hashseq', (v,))
        return mkit('val', sv, num(0), length(sv))
    if t[0] == 'adt' and t[1] == RANGE:
        return agg(RANGE, 0, (getk(v, ('f', 0)), getk(v, ('f', 1))))
    if t[0] == 'adt' and t[1].endswith('RangeInclusive'):
        return mkit('rangeinc', getk(v, ('f', 0)), getk(v, ('f', 1)))
    if t[0] == 'adt' and t[1].endswith('RangeFrom'):
        return mkit('rangefrom', getk(v, ('f', 0)))
    if t[0] == 'adt' and t[1] == OPT:
        return mkit('opt', v)
    if t[0] == 'adt' and t[1].startswith('rust_3d') or (t[0] == 'adt' and t[1] in an.p.adts):
        return v
    return mkit('val', v, num(0), length(v))


def as_iter(an, c, v, t=None):
    if v.op == 'gam':
        v = restrict(v, c.pc)
    if is_it(v):
        return v
    if v.op == 'agg' and v.a[0] in an.p.adts:
        return v
    if v.op == 'undef':
        return v
    if t is not None and t[0] == 'adt' and t[1] == RANGE:
        return agg(RANGE, 0, (getk(v, ('f', 0)), getk(v, ('f', 1))))
    if t is not None and t[0] == 'adt' and t[1] in an.p.adts:
        return v
    return mkit('val', v, num(0), length(v))


def it_remaining(it):
    if it.op != 'agg':
        return None
    k = it.a[0]
    ch = it.a[2]
    if k in ('it:ref', 'it:val'):
        return sub(ch[2], ch[1])
    if k == RANGE:
        return sub(ch[1], ch[0])
    if k in ('it:map', 'it:enum', 'it:cloned', 'it:rev'):
        return it_remaining(ch[0])
    return None


def step(an, c, it, pc, st):
    """one pull from iterator value `it`: [(kind, item, newit, pc, st)]"""
    it = restrict(it, pc) if it.op == 'gam' else it
    if it.op == 'gam':
        out = []
        for cc, x in it.a[0]:
            p = band(pc, cc)
            if p != F:
                out += step(an, c, x, p, dict(st))
        return out
    if it.op != 'agg':
        if it.op == 'undef':
            return []
        it = mkit('val', it, num(0), length(it))
    k = it.a[0]
    ch = it.a[2]

    def guard(g, item, nit):
        out = []
        p = band(pc, g)
        q = band(pc, bnot(g))
        if p != F:
            out.append(('item', item, nit, p, dict(st) if q != F else st))
        if q != F:
            out.append(('done', None, it, q, st))
        return out
    if k == 'it:ref':
        r, pos, end = ch
        return guard(as_bdd(cmp('lt', pos, end, False)), an.ext(r, ('i', pos)), mkit('ref', r, add(pos, num(1)), end))
    if k == 'it:val':
        v, pos, end = ch
        return guard(as_bdd(cmp('lt', pos, end, False)), sel(v, pos), mkit('val', v, add(pos, num(1)), end))
    if k == RANGE:
        s, e = ch
        return guard(as_bdd(cmp('lt', s, e, False)), s, agg(RANGE, 0, (add(s, num(1)), e)))
    if k == 'it:rangeinc':
        s, e = ch
        return guard(as_bdd(cmp('le', s, e, False)), s, mkit('rangeinc', add(s, num(1)), e))
    if k == 'it:rangefrom':
        return [('item', ch[0], mkit('rangefrom', add(ch[0], num(1))), pc, st)]
    if k == 'it:stepby':
        inner, n = ch
        if inner.op == 'agg' and inner.a[0] == RANGE:
            s, e = inner.a[2]
            return guard(as_bdd(cmp('lt', s, e, False)), s, mkit('stepby', agg(RANGE, 0, (add(s, n), e)), n))
    if k == 'it:rev':
        return stepback(an, c, ch[0], pc, st)
    if k == 'it:opt':
        s = is_variant(ch[0], 1, 2)
        return guard(s, getk(restrict(ch[0], s) if s != F else ch[0], ('v', 1, 0)), mkit('opt', NONE))
    if k == 'it:repeat':
        return [('item', ch[0], it, pc, st)]
    if k == 'it:by_ref':
        r = ch[0]
        inner = an.read_ref(st, r)
        out = []
        for kd, x, nit, p, s in step(an, c, inner, pc, st):
            an.write_ref(s, r, nit)
            out.append((kd, x, it, p, s))
        return out
    if k == 'it:map':
        out = []
        for kd, x, nit, p, s in step(an, c, ch[0], pc, st):
            if kd == 'item':
                x, p, s = callv(an, c, ch[1], [x], p, s, 'map')
                if p == F:
                    continue
            out.append((kd, x, mkit('map', nit, ch[1]), p, s))
        return out
    if k in ('it:filter', 'it:take_while', 'it:skip_while'):
        out = []
        for kd, x, nit, p, s in step(an, c, ch[0], pc, st):
            if kd != 'item':
                out.append((kd, x, agg(k, 0, (nit, ch[1])), p, s))
                continue
            rr, p, s = callv(an, c, ch[1], [temp(an, c, s, x, 'flt')], p, s, 'flt', ('bool',))
            b = as_bdd(restrict(rr, p)) if p != F else F
            for cc, keep in ((b, True), (bnot(b), False)):
                pp = band(p, cc)
                if pp == F:
                    continue
                if k == 'it:filter':
                    out.append(('item' if keep else 'skip', x, agg(k, 0, (nit, ch[1])), pp, dict(s)))
                elif k == 'it:take_while':
                    out.append(('item' if keep else 'done', x, agg(k, 0, (nit, ch[1])), pp, dict(s)))
                else:
                    out.append(('skip' if keep else 'item', x, agg(k, 0, (nit, ch[1])) if keep else nit, pp, dict(s)))
        return out
    if k == 'it:filter_map':
        out = []
        for kd, x, nit, p, s in step(an, c, ch[0], pc, st):
            if kd != 'item':
                out.append((kd, x, agg(k, 0, (nit, ch[1])), p, s))
                continue
            rr, p, s = callv(an, c, ch[1], [x], p, s, 'fm')
            if p == F:
                continue
            for cc, y in opt_cases(restrict(rr, p)):
                pp = band(p, cc)
                if pp != F:
                    out.append(('item' if y is not None else 'skip', y, agg(k, 0, (nit, ch[1])), pp, dict(s)))
        return out
    if k == 'it:inspect':
        out = []
        for kd, x, nit, p, s in step(an, c, ch[0], pc, st):
            if kd == 'item':
                _, p, s = callv(an, c, ch[1], [temp(an, c, s, x, 'insp')], p, s, 'insp')
            out.append((kd, x, mkit('inspect', nit, ch[1]), p, s))
        return out
    if k == 'it:cloned':
        return [(kd, an.deep_read(s, x) if kd == 'item' else x, mkit('cloned', nit), p, s)
                for kd, x, nit, p, s in step(an, c, ch[0], pc, st)]
    if k == 'it:enum':
        return [(kd, agg('tuple', 0, (ch[1], x)) if kd == 'item' else x,
                 mkit('enum', nit, add(ch[1], num(1)) if kd == 'item' else ch[1]), p, s)
                for kd, x, nit, p, s in step(an, c, ch[0], pc, st)]
    if k == 'it:take':
        g = bnot(as_bdd(cmp('eq', ch[1], num(0), False)))
        out = []
        if band(pc, bnot(g)) != F:
            out.append(('done', None, it, band(pc, bnot(g)), dict(st)))
        if band(pc, g) != F:
            for kd, x, nit, p, s in step(an, c, ch[0], band(pc, g), st):
                out.append((kd, x, mkit('take', nit, sub(ch[1], num(1)) if kd == 'item' else ch[1]), p, s))
        return out
    if k == 'it:zip':
        out = []
        for kd, x, nit, p, s in step(an, c, ch[0], pc, st):
            if kd != 'item':
                out.append((kd, x, mkit('zip', nit, ch[1]), p, s))
                continue
            for kd2, y, nit2, p2, s2 in step(an, c, ch[1], p, s):
                out.append((kd2, agg('tuple', 0, (x, y)) if kd2 == 'item' else None, mkit('zip', nit, nit2), p2, s2))
        return out
    if k == 'it:chain':
        out = []
        for kd, x, nit, p, s in step(an, c, ch[0], pc, st):
            if kd != 'done':
                out.append((kd, x, mkit('chain', nit, ch[1]), p, s))
                continue
            for kd2, y, nit2, p2, s2 in step(an, c, ch[1], p, s):
                out.append((kd2, y, mkit('chain', nit, nit2), p2, s2))
        return out
    if k == 'it:peek':
        inner, pk = ch
        out = []
        for cc, y in opt_cases(pk):
            p = band(pc, cc)
            if p == F:
                continue
            if y is None:
                for kd, x, nit, p2, s in step(an, c, inner, p, dict(st)):
                    out.append((kd, x, mkit('peek', nit, NONE), p2, s))
            else:
                out.append(('item', y, mkit('peek', inner, NONE), p, dict(st)))
        return out
    flt = an.o.get('fault')
    if flt is not None and isinstance(flt[1], tuple) and (flt[1][1] == k or (flt[1][1] == 'std' and k == 'it:val' and ch[0].op == 'call'
                                                          and str(ch[0].a[0]) in ('BufRead::lines', 'BufRead::split', 'Read::bytes'))):
        an.fault_hits += 1
        st[('E', 'fault passed')] = B(T)
        return [('item', getk(flt[2], ('v', 1, 0)), it, pc, st)]
    if k in an.p.adts:
        # an iterator implemented by the crate
        ta = an.adtargs.get(k, ())
        imp = an.p.find_impl('core::iter::traits::iterator::Iterator', (('adt', k, next(iter(ta)) if len(ta) == 1 else ()),))
        if imp is not None:
            im, sub_ = imp
            for n, u in im['m']:
                if n == 'next' and an.may_inline(c.fr, u):
                    r = temp(an, c, st, it, 'crit')
                    rv, p, s = an.call_body(an.p.bodies[u], [r], sub_, pc, st, c.fr, (c.b, c.sp[1], u))
                    if p == F:
                        return []
                    nit = an.read_ref(s, r)
                    out = []
                    for cc, y in opt_cases(restrict(rv, p)):
                        pp = band(p, cc)
                        if pp != F:
                            out.append(('item' if y is not None else 'done', y, restrict(nit, pp), pp, dict(s)))
                    return out
    # unknown iterator: uninterpreted step
    tm = mk('call', 'Iterator::next', (it,))
    g = is_variant(tm, 1, 2)
    return guard(g, getk(tm, ('v', 1, 0)), mk('post', tm, 0))


def stepback(an, c, it, pc, st):
    if it.op == 'agg':
        k, ch = it.a[0], it.a[2]

        def guard(g, item, nit):
            out = []
            p, q = band(pc, g), band(pc, bnot(g))
            if p != F:
                out.append(('item', item, mkit('rev', nit), p, dict(st) if q != F else st))
            if q != F:
                out.append(('done', None, mkit('rev', it), q, st))
            return out
        if k in ('it:ref', 'it:val'):
            r, pos, end = ch
            e1 = sub(end, num(1))
            x = an.ext(r, ('i', e1)) if k == 'it:ref' else sel(r, e1)
            return guard(as_bdd(cmp('lt', pos, end, False)), x, agg(k, 0, (r, pos, e1)))
        if k == RANGE:
            e1 = sub(ch[1], num(1))
            return guard(as_bdd(cmp('lt', ch[0], ch[1], False)), e1, agg(RANGE, 0, (ch[0], e1)))
        if k == 'it:rangeinc':
            return guard(as_bdd(cmp('le', ch[0], ch[1], False)), ch[1], mkit('rangeinc', ch[0], sub(ch[1], num(1))))
        if k in ('it:map', 'it:cloned'):
            out = []
            for kd, x, nit, p, s in stepback(an, c, ch[0], pc, st):
                if kd == 'item':
                    if k == 'it:map':
                        x, p, s = callv(an, c, ch[1], [x], p, s, 'map')
                        if p == F:
                            continue
                    else:
                        x = an.deep_read(s, x)
                inner = nit.a[2][0]
                out.append((kd, x, mkit('rev', agg(k, 0, (inner,) + ch[1:])), p, s))
            return out
        if k == 'it:enum':
            n = it_remaining(ch[0])
            if n is not None:
                out = []
                for kd, x, nit, p, s in stepback(an, c, ch[0], pc, st):
                    inner = nit.a[2][0]
                    xx = agg('tuple', 0, (add(ch[1], sub(n, num(1))), x)) if kd == 'item' else x
                    out.append((kd, xx, mkit('rev', mkit('enum', inner, ch[1])), p, s))
                return out
    tm = mk('call', 'next_back', (it,))
    g = is_variant(tm, 1, 2)
    out = []
    if band(pc, g) != F:
        out.append(('item', getk(tm, ('v', 1, 0)), mkit('rev', mk('post', tm, 0)), band(pc, g), dict(st)))
    out.append(('done', None, mkit('rev', it), band(pc, bnot(g)), st))
    return out


def consume(an, c, tag, pc, st, body):
    """run an implicit loop: body(pc, st, back, done)"""
    def run(pc0, st0):
        back, done = [], []
        body(pc0, st0, back, done)
        return back, {'done': done}
    exits = an.run_loop(c.fr, (tag, c.b, c.sp[1]), [(pc, st)], run, c.sp, [])
    return an.merge(exits.get('done', []))


def consume_n(an, c, tag, pc, st, body, labels):
    def run(pc0, st0):
        back, ex = [], {l: [] for l in labels}
        body(pc0, st0, back, ex)
        return back, ex
    return an.run_loop(c.fr, (tag, c.b, c.sp[1]), [(pc, st)], run, c.sp, [])


@model('IntoIterator::into_iter', 'Iterator::into_iter')
def m_into_iter(an, c):
    r = into_iter(an, c, c.args[0], c.atys[0], c.st)
    return (r, c.pc, c.st) if r is not None else None


@model('slice::iter', 'slice::iter_mut', 'VecDeque::iter', 'VecDeque::iter_mut', 'LinkedList::iter', 'LinkedList::iter_mut', 'BitSlice::iter')
def m_iter(an, c):
    r = c.args[0]
    return mkit('ref', r, num(0), length(an.deep_read(c.st, r))), c.pc, c.st


@model('HashSet::iter', 'HashMap::iter', 'HashMap::values', 'HashMap::keys', 'HashMap::iter_mut', 'HashMap::values_mut',
       'HashSet::into_iter', 'HashMap::into_iter', 'HashMap::drain', 'HashSet::drain', 'HashMap::into_values')
def m_hiter(an, c):
    an.event(c.fr, 'hashiter', c.pc, c.name, (val(an, c, 0),), c.sp, None)
    sv = mk('call', 'hashseq' + ('' if c.name.endswith('::iter') else ':' + c.name.split('::')[-1]), (val(an, c, 0),))
    return mkit('ref', mk('ref', ('M', sv), ()), num(0), length(sv)), c.pc, c.st


@model('Vec::drain')
def m_drain(an, c):
    v = an.read_ref(c.st, c.args[0])
    b = range_bounds(an, c.args[1], c.atys[1], length(v))
    if b is None:
        return None
    lo, hi = b
    if const_val(lo) == 0 and hi is length(v):
        an.write_ref(c.st, c.args[0], EMPTY)
        return mkit('val', v, num(0), length(v)), c.pc, c.st
    return None


@model('slice::windows')
def m_windows(an, c):
    v = val(an, c, 0)
    n = c.args[1]
    pc = need(an, c, 'panic', bnot(as_bdd(cmp('eq', n, num(0), False))), 'windows(0)')
    i = mk('bv', 'w')
    sv = mk('windows', v, n)
    return mkit('win', sv, num(0), length(sv)) if False else mkit('val', sv, num(0), length(sv)), pc, c.st


def _win_sel(v, i):
    return mk('ref', ('M', subslice(v.a[0], i, add(i, v.a[1]))), ())


E.SELHOOK['windows'] = _win_sel


@model('slice::split', 'str::split', 'str::split_whitespace', 'str::lines', 'slice::chunks', 'slice::chunks_exact', 'str::chars', 'str::bytes', 'slice::splitn', 'str::splitn', 'str::char_indices')
def m_split(an, c):
    vals = tuple(an.deep_read(c.st, x) for x in c.args)
    if c.name.endswith('chunks') or c.name.endswith('chunks_exact'):
        need(an, c, 'panic', bnot(as_bdd(cmp('eq', vals[1], num(0), False))), 'chunk size 0')
    if c.name.endswith('str::bytes'):
        return mkit('val', vals[0], num(0), length(vals[0])), c.pc, c.st
    sv = mk('call', c.name.split('::')[-1], vals)
    return mkit('val', sv, num(0), length(sv)), c.pc, c.st


@model('Iterator::next')
def m_next(an, c):
    r = c.args[0]
    v = an.read_ref(c.st, r)
    if v.op == 'gam':
        v = restrict(v, c.pc)
    t = strip_ref(c.atys[0])[0]
    it = as_iter(an, c, v, t)
    K = ('L', c.fr.key, 'nx%s' % c.b)
    outs = step(an, c, it, c.pc, c.st)
    if any(o[0] == 'skip' for o in outs):
        # look for the next accepted element
        c.st[K] = it

        def body(pc, st, back, ex):
            for kd, x, nit, p, s in step(an, c, st[K], pc, st):
                s[K] = nit
                if kd == 'skip':
                    back.append((p, s))
                else:
                    s[('L', c.fr.key, 'nxv%s' % c.b)] = x if x is not None else mk('undef')
                    ex[kd].append((p, s))
        exits = consume_n(an, c, 'next', c.pc, c.st, body, ('item', 'done'))
        res = []
        for kd in ('item', 'done'):
            p, s = an.merge(exits.get(kd, []))
            if p == F:
                continue
            x = s.pop(('L', c.fr.key, 'nxv%s' % c.b), None)
            an.write_ref(s, r, s.pop(K))
            res.append((some(x) if kd == 'item' else NONE, p, s))
        return join(an, res)
    res = []
    for kd, x, nit, p, s in outs:
        an.write_ref(s, r, nit)
        res.append((some(x) if kd == 'item' else NONE, p, s))
    return join(an, res)


def lazy(name):
    def f(an, c):
        it = into_iter(an, c, c.args[0], c.atys[0] if c.atys else None, c.st) if c.atys and c.atys[0] and c.atys[0][0] in ('ref',) else as_iter(an, c, c.args[0], c.atys[0] if c.atys else None)
        return mkit(name, it, *c.args[1:]), c.pc, c.st
    return f


for _n in ('map', 'filter', 'filter_map', 'take_while', 'skip_while', 'inspect'):
    M['Iterator::' + _n] = lazy(_n)
M['Iterator::rev'] = lazy('rev')
M['Iterator::step_by'] = lazy('stepby')


@model('Iterator::cloned', 'Iterator::copied')
def m_icloned(an, c):
    return mkit('cloned', as_iter(an, c, c.args[0])), c.pc, c.st


@model('Iterator::by_ref')
def m_byref(an, c):
    return c.args[0], c.pc, c.st


@model('Iterator::enumerate')
def m_ienum(an, c):
    return mkit('enum', as_iter(an, c, c.args[0], c.atys[0]), num(0)), c.pc, c.st


@model('Iterator::peekable')
def m_ipeek(an, c):
    return mkit('peek', as_iter(an, c, c.args[0], c.atys[0]), NONE), c.pc, c.st


@model('Iterator::zip')
def m_izip(an, c):
    a = as_iter(an, c, c.args[0], c.atys[0])
    b = into_iter(an, c, c.args[1], c.atys[1], c.st)
    return mkit('zip', a, b), c.pc, c.st


@model('Iterator::chain')
def m_ichain(an, c):
    a = as_iter(an, c, c.args[0], c.atys[0])
    b = into_iter(an, c, c.args[1], c.atys[1], c.st)
    return mkit('chain', a, b), c.pc, c.st


@model('iter::once')
def m_once(an, c):
    return mkit('opt', some(c.args[0])), c.pc, c.st


@model('iter::repeat')
def m_irepeat(an, c):
    return mkit('repeat', c.args[0]), c.pc, c.st


@model('RangeInclusive::new')
def m_rangeinc(an, c):
    return mkit('rangeinc', c.args[0], c.args[1]), c.pc, c.st


@model('Range::contains', 'RangeInclusive::contains')
def m_rcontains(an, c):
    r, x = val(an, c, 0), val(an, c, 1)
    t = strip_ref(c.atys[1])[0]
    lo, hi = getk(r, ('f', 0)), getk(r, ('f', 1))
    return B(band(as_bdd(cmp('le', lo, x, isfloat(t))), as_bdd(cmp('le' if 'Inclusive' in c.name else 'lt', x, hi, isfloat(t))))), c.pc, c.st


@model('Range::is_empty')
def m_rempty(an, c):
    r = val(an, c, 0)
    return cmp('ge', getk(r, ('f', 0)), getk(r, ('f', 1)), False), c.pc, c.st


@model('Iterator::skip')
def m_iskip(an, c):
    it = as_iter(an, c, c.args[0], c.atys[0])
    n = c.args[1]

    def adv(it):
        if it.op == 'agg':
            k, ch = it.a[0], it.a[2]
            if k in ('it:ref', 'it:val'):
                return agg(k, 0, (ch[0], add(ch[1], n), ch[2]))
            if k == RANGE:
                return agg(k, 0, (add(ch[0], n), ch[1]))
            if k == 'it:enum':
                x = adv(ch[0])
                return mkit('enum', x, add(ch[1], n)) if x is not None else None
            if k in ('it:cloned', 'it:map'):
                x = adv(ch[0])
                return agg(k, 0, (x,) + ch[1:]) if x is not None else None
        return None
    r = adv(it)
    if r is None:
        sv = mk('call', 'skip', (it, n))
        r = mkit('val', sv, num(0), length(sv))
    return r, c.pc, c.st


@model('Iterator::take')
def m_itake(an, c):
    it = as_iter(an, c, c.args[0], c.atys[0])
    n = c.args[1]

    def cut(it):
        if it.op == 'agg':
            k, ch = it.a[0], it.a[2]
            if k in ('it:ref', 'it:val'):
                return agg(k, 0, (ch[0], ch[1], mkmin(ch[2], add(ch[1], n))))
            if k == RANGE:
                return agg(k, 0, (ch[0], mkmin(ch[1], add(ch[0], n))))
            if k in ('it:cloned', 'it:map', 'it:enum'):
                x = cut(ch[0])
                return agg(k, 0, (x,) + ch[1:]) if x is not None else None
        return None
    r = cut(it)
    return (r if r is not None else mkit('take', it, n)), c.pc, c.st


@model('Iterator::nth')
def m_inth(an, c):
    r = c.args[0]
    v = an.read_ref(c.st, r)
    it = as_iter(an, c, v, strip_ref(c.atys[0])[0])
    n = c.args[1]
    if it.op == 'agg' and it.a[0] in ('it:ref', 'it:val'):
        s, pos, end = it.a[2]
        p = add(pos, n)
        g = as_bdd(cmp('lt', p, end, False))
        x = an.ext(s, ('i', p)) if it.a[0] == 'it:ref' else sel(s, p)
        an.write_ref(c.st, r, agg(it.a[0], 0, (s, add(p, num(1)), end)))
        return gam([(g, some(x)), (bnot(g), NONE)]), c.pc, c.st
    return None


@model('Iterator::last')
def m_ilast(an, c):
    it = as_iter(an, c, c.args[0], c.atys[0])
    if it.op == 'agg' and it.a[0] in ('it:ref', 'it:val'):
        s, pos, end = it.a[2]
        g = as_bdd(cmp('lt', pos, end, False))
        p = sub(end, num(1))
        x = an.ext(s, ('i', p)) if it.a[0] == 'it:ref' else sel(s, p)
        return gam([(g, some(x)), (bnot(g), NONE)]), c.pc, c.st
    return None


def walk(an, c, tag, item, init=None):
    """consume c.args[0]; item(x, acc, pc, st) -> [(kind 'next'|'stop', acc, pc, st)]
    returns (acc on exhaustion / stop joined, pc, st)"""
    isref = c.atys and c.atys[0] is not None and c.atys[0][0] == 'ref'
    itref = None
    if isref:
        itref = c.args[0]
        v = an.read_ref(c.st, itref)
        it = as_iter(an, c, v, strip_ref(c.atys[0])[0])
    else:
        it = as_iter(an, c, c.args[0], c.atys[0] if c.atys else None)
    I = ('L', c.fr.key, 'it%s' % c.b)
    A = ('L', c.fr.key, 'acc%s' % c.b)
    st = c.st
    st[I] = it
    if init is not None:
        st[A] = init

    def body(pc, s0, back, ex):
        for kd, x, nit, p, s in step(an, c, s0[I], pc, s0):
            s[I] = nit
            if kd == 'skip':
                back.append((p, s))
            elif kd == 'done':
                ex['done'].append((p, s))
            else:
                for k2, acc, p2, s2 in item(x, s.get(A), p, s):
                    if p2 == F:
                        continue
                    if acc is not None:
                        s2[A] = acc
                    (back if k2 == 'next' else ex['stop']).append((p2, s2))
    exits = consume_n(an, c, tag, c.pc, st, body, ('done', 'stop'))
    outs = []
    for lab in ('done', 'stop'):
        p, s = an.merge(exits.get(lab, []))
        if p == F:
            continue
        if itref is not None:
            an.write_ref(s, itref, s[I])
        s.pop(I, None)
        outs.append((lab, s.pop(A, UNIT), p, s))
    return outs


def joinw(an, outs):
    return join(an, [(a, p, s) for _, a, p, s in outs])


@model('Iterator::any', 'Iterator::all')
def m_any(an, c):
    f = c.args[1]
    isany = c.m == 'any'

    def item(x, acc, p, s):
        r, p, s = callv(an, c, f, [x], p, s, 'any', ('bool',))
        if p == F:
            return []
        b = as_bdd(restrict(r, p))
        stop = b if isany else bnot(b)
        return [('stop', None, band(p, stop), dict(s)), ('next', None, band(p, bnot(stop)), dict(s))]
    outs = walk(an, c, 'any', item)
    return join(an, [((TRUE if isany else FALSE) if lab == 'stop' else (FALSE if isany else TRUE), p, s) for lab, a, p, s in outs])


@model('Iterator::find', 'Iterator::position', 'Iterator::find_map')
def m_find(an, c):
    f = c.args[1]
    kind = c.m

    def item(x, acc, p, s):
        cnt = acc if kind == 'position' else None
        if kind == 'find':
            r, p, s = callv(an, c, f, [temp(an, c, s, x, 'fnd')], p, s, 'fnd', ('bool',))
        else:
            r, p, s = callv(an, c, f, [x], p, s, 'fnd', ('bool',) if kind == 'position' else c.dty)
        if p == F:
            return []
        r = restrict(r, p)
        if kind == 'find_map':
            b = is_variant(r, 1, 2)
            hit = r
        else:
            b = as_bdd(r)
            hit = some(x) if kind == 'find' else some(cnt)
        return [('stop', hit, band(p, b), dict(s)),
                ('next', add(cnt, num(1)) if kind == 'position' else None, band(p, bnot(b)), dict(s))]
    outs = walk(an, c, 'find', item, num(0) if kind == 'position' else NONE)
    return join(an, [(a if lab == 'stop' else NONE, p, s) for lab, a, p, s in outs])


@model('Iterator::fold')
def m_fold(an, c):
    f = c.args[2]

    def item(x, acc, p, s):
        r, p, s = callv(an, c, f, [acc, x], p, s, 'fold')
        return [('next', r, p, s)]
    return joinw(an, walk(an, c, 'fold', item, c.args[1]))


@model('Iterator::for_each')
def m_for_each(an, c):
    f = c.args[1]

    def item(x, acc, p, s):
        r, p, s = callv(an, c, f, [x], p, s, 'fe')
        return [('next', None, p, s)]
    outs = walk(an, c, 'foreach', item)
    return join(an, [(UNIT, p, s) for lab, a, p, s in outs])


@model('Iterator::try_for_each')
def m_try_for_each(an, c):
    f = c.args[1]
    if c.dty[0] != 'adt' or c.dty[1] != RES:
        return None

    def item(x, acc, p, s):
        r, p, s = callv(an, c, f, [x], p, s, 'tfe', c.dty)
        if p == F:
            return []
        r = restrict(r, p)
        e = is_variant(r, 1, 2)
        return [('stop', r, band(p, e), dict(s)), ('next', None, band(p, bnot(e)), dict(s))]
    outs = walk(an, c, 'tforeach', item, ok(UNIT))
    return join(an, [(a if lab == 'stop' else ok(UNIT), p, s) for lab, a, p, s in outs])


@model('Iterator::count')
def m_count(an, c):
    return joinw(an, walk(an, c, 'count', lambda x, acc, p, s: [('next', add(acc, num(1)), p, s)], num(0)))


@model('Iterator::sum', 'Iterator::product')
def m_sum(an, c):
    if not is_prim(c.dty):
        return None
    sm = c.m == 'sum'
    return joinw(an, walk(an, c, 'sum', lambda x, acc, p, s: [('next', (add if sm else mul)(acc, an.deep_read(s, x)), p, s)], num(0) if sm else num(1)))


@model('Iterator::collect', 'FromIterator::from_iter')
def m_collect(an, c):
    t = c.dty
    if is_seq(t):
        def item(x, acc, p, s):
            an.event(c.fr, 'push', p, 'collect', (acc, x), c.sp, None)
            return [('next', push(acc, x), p, s)]
        return joinw(an, walk(an, c, 'collect', item, EMPTY))
    if t[0] == 'adt' and t[1] in (RES, OPT) and t[2] and is_seq(t[2][0]):
        def item2(x, acc, p, s):
            if t[1] == RES:
                e = is_variant(x, 1, 2)
                okv = getk(restrict(x, bnot(e)), ('v', 0, 0)) if e != T else mk('undef')
            else:
                e = bnot(is_variant(x, 1, 2))
                okv = getk(restrict(x, bnot(e)), ('v', 1, 0)) if e != T else mk('undef')
            out = []
            if band(p, e) != F:
                out.append(('stop', err(getk(restrict(x, e), ('v', 1, 0))) if t[1] == RES else NONE, band(p, e), dict(s)))
            if band(p, bnot(e)) != F:
                out.append(('next', push(acc, okv), band(p, bnot(e)), dict(s)))
            return out
        outs = walk(an, c, 'collect', item2, EMPTY)
        return join(an, [(a if lab == 'stop' else (ok(a) if t[1] == RES else some(a)), p, s) for lab, a, p, s in outs])
    if t[0] == 'adt' and t[1] in SETT:
        def item3(x, acc, p, s):
            return [('next', mk('call', 'HashSet::inserted', (acc, x)), p, s)]
        return joinw(an, walk(an, c, 'collect', item3, mk('call', t[1].split('::')[-1] + '::new', ())))
    return None


@model('Iterator::max', 'Iterator::min')
def m_imax(an, c):
    t = c.dty[2][0] if c.dty[0] == 'adt' and c.dty[2] else None
    if not is_prim(strip_ref(t)[0]):
        return None
    mx = c.m == 'max'

    def item(x, acc, p, s):
        y = an.deep_read(s, x)
        cs = opt_cases(acc)
        o = some(gam([(cc, y if q is None else (mkmax(q, y) if mx else mkmin(q, y))) for cc, q in cs]))
        return [('next', o, p, s)]
    return joinw(an, walk(an, c, 'max', item, NONE))


# ---------------------------------------------------------------- fmt
@model('Argument::new_display', 'Argument::new_debug', 'Argument::new_lower_exp', 'Argument::new_upper_exp')
def m_fmtarg(an, c):
    return mk('call', 'fmt:' + c.name.split('new_')[-1], (val(an, c, 0),)), c.pc, c.st


@model('Arguments::new', 'Arguments::from_str', 'Arguments::new_const', 'Arguments::new_v1')
def m_fmtargs(an, c):
    return mk('call', 'fmtargs', tuple(an.deep_read(c.st, x) for x in c.args)), c.pc, c.st


@model('fmt::format')
def m_format(an, c):
    return mk('call', 'format', tuple(an.deep_read(c.st, x) for x in c.args)), c.pc, c.st


@model('ToString::to_string')
def m_tostring(an, c):
    t = strip_ref(c.atys[0])[0]
    if t is not None and t[0] == 'str':
        return val(an, c, 0), c.pc, c.st
    return mk('call', 'to_string', (val(an, c, 0),)), c.pc, c.st

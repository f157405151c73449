"""A theory of byte streams, text and collections for the value flow of readers and writers.

Terms extracted from the source contain calls of the standard library (`read_exact`, `read_until`,
`from_le_bytes`, ...) and of the crate's own traits (`IsPushable::push`, `IsBuildable3D::new`, ...)
on opaque receivers.  `Theory` says what those mean for an abstract input: a stream is a position
in a byte string, a collection a sequence, a mesh two sequences, a number its exact value.  Loop
symbols are resolved by iterating the transition the analysis extracted for their loop."""
import copy
import struct
import sys
from fractions import Fraction

import engine
import evalt
import terms as TM
from evalt import Agg, Ev, Seq, Tok, Unsupported
from terms import Term

RES, OPTN = engine.RES, engine.OPT
UNIT = Agg('tuple', 0, [])
WS = b' \t\n\r\x0b\x0c'
SIZES = {'i8': 1, 'u8': 1, 'i16': 2, 'u16': 2, 'i32': 4, 'u32': 4, 'i64': 8, 'u64': 8, 'f32': 4, 'f64': 8}
CODES = {'i8': 'b', 'u8': 'B', 'i16': 'h', 'u16': 'H', 'i32': 'i', 'u32': 'I', 'i64': 'q', 'u64': 'Q', 'f32': 'f', 'f64': 'd'}


def ok(v=UNIT):
    return Agg(RES, 0, [v])


def err(v='err'):
    return Agg(RES, 1, [Tok(v) if isinstance(v, str) else v])


def some(v):
    return Agg(OPTN, 1, [v])


NONE = Agg(OPTN, 0, [])


def seq(bs):
    return Seq([Fraction(b) for b in bs])


def raw(v):
    """python bytes of a value"""
    if isinstance(v, (bytes, bytearray)):
        return bytes(v)
    if isinstance(v, str):
        return v.encode()
    if isinstance(v, Agg) and v.d == 'array':
        v = Seq(v.ch)
    if isinstance(v, Seq):
        out = bytearray()
        for x in v.xs:
            if isinstance(x, bool) or not isinstance(x, (int, Fraction)) or x.denominator != 1 or not 0 <= x < 256:
                raise Unsupported('byte %r' % (x,))
            out.append(int(x))
        return bytes(out)
    raise Unsupported('bytes %r' % (v,))


def decode(bs, ty, big):
    if len(bs) != SIZES[ty]:
        raise Unsupported('%d bytes for %s' % (len(bs), ty))
    v = struct.unpack(('>' if big else '<') + CODES[ty], bs)[0]
    if isinstance(v, float) and (v != v or v in (float('inf'), float('-inf'))):
        return Tok(evalt._h('float', ty, bs.hex(), big))
    return Fraction(v)


def encode(v, ty, big):
    if not isinstance(v, (int, Fraction, float)) or isinstance(v, bool):
        raise Unsupported('number')
    try:
        return struct.pack(('>' if big else '<') + CODES[ty], float(v) if ty[0] == 'f' else int(v))
    except (struct.error, OverflowError):
        raise Unsupported('range of ' + ty)


PRIMS = frozenset(SIZES) | {'usize', 'isize', 'u128', 'i128'}


def parse(bs, ty=None):
    """FromStr of numbers; the type is None where it is not known"""
    try:
        s = bs.decode('ascii')
    except UnicodeDecodeError:
        return None
    if s != s.strip() or '_' in s or not s:
        return None
    try:
        if ty and ty[0] == 'f' and s.lstrip('+-').lower() in ('inf', 'infinity', 'nan') and len(s) - len(s.lstrip('+-')) < 2:
            return Tok(evalt._h('special', s.lower()))
        if s.lstrip('+-').isdigit():
            if s.count('+') + s.count('-') > 1 or (ty and ty[0] == 'u' and s[0] == '-'):
                return None
            v = Fraction(int(s))
            if ty and ty[0] in 'ui':
                w = evalt.WIDTH[ty]
                if not (-(1 << w - 1) if ty[0] == 'i' else 0) <= v < 1 << (w - 1 if ty[0] == 'i' else w):
                    return None
                return v
            if abs(v) < 1 << 53 and ty != 'f32':
                return v
            return tofloat(float(v), ty) if ty else v
        if ty and ty[0] in 'ui':
            return None
        if any(ch not in '0123456789+-.eE' for ch in s):
            return None
        return tofloat(float(s), ty)
    except (ValueError, OverflowError):
        return None


def tofloat(x, ty):
    if ty == 'f32':
        try:
            x = struct.unpack('<f', struct.pack('<f', x))[0]
        except OverflowError:
            x = float('inf')
    if x != x or x in (float('inf'), float('-inf')):
        return Tok(evalt._h('special', x))
    return Fraction(x)


def display(v):
    if isinstance(v, Agg) and len(v.ch) == 1:
        return display(v.ch[0])
    if isinstance(v, (int, Fraction)) and not isinstance(v, bool):
        if v.denominator == 1:
            return str(int(v)).encode()
        s = repr(float(v))
        return s.encode()
    if isinstance(v, float):
        return repr(v).encode()
    if isinstance(v, Seq):
        return raw(v)
    raise Unsupported('display of %r' % (v,))


def lower_exp(v):
    if isinstance(v, Agg) and len(v.ch) == 1:
        return lower_exp(v.ch[0])
    if isinstance(v, (int, float, Fraction)) and not isinstance(v, bool):
        x = float(v)
        if x == 0:
            return b'0e0'
        m, e = ('%.17e' % x).split('e')
        e = int(e)
        s = repr(x / 10 ** e) if abs(e) < 200 else m
        if s.endswith('.0'):
            s = s[:-2]
        return ('%se%d' % (s, e)).encode()
    raise Unsupported('exp')


# ---------------------------------------------------------------- reference text functions
def next_line(data, pos):
    """(line or None, new position)"""
    if pos >= len(data):
        return None, pos
    i = data.find(b'\n', pos)
    end = len(data) if i < 0 else i + 1
    line = data[pos:end]
    n = len(line)
    while n and is_ws(line[n - 1]):
        n -= 1
    return line[:n], end


def is_ws(b):
    return b in (9, 10, 11, 12, 13, 32, 0x85, 0xa0)


def words(line, seps=b' \t'):
    out, cur = [], bytearray()
    for b in line:
        if b in seps:
            if cur:
                out.append(bytes(cur))
            cur = bytearray()
        else:
            cur.append(b)
    if cur:
        out.append(bytes(cur))
    return out


def estimate(n, line):
    for d in b' ;,\t':
        if line.count(bytes([d])) >= n:
            return d
    return None


class Theory:
    """`data`: what the stream holds; `fail`: position at which the medium reports an error"""

    def __init__(self, c, data=b'', env=None, fail=None, strict=True, mesh=None):
        self.c = c
        self.data = data
        self.fail = fail
        self.wfail = None
        self.starts = set()
        self.strict = strict
        self.mesh = mesh
        self.loops = {}
        self.fns = {}
        self.phi = {}
        self.lmemo = {}
        self.limit = 400
        self.noinline = ()
        self.derive = True
        self.why = {}
        for k, v in FNS.items():
            self.fns[k] = v

    def add(self, r):
        """make the loops of an analysis known"""
        ls = r.an.loops
        ls = list(ls.values()) if isinstance(ls, dict) else list(ls)
        for L in ls:
            if isinstance(L, int):
                continue
            for ph in (getattr(L, 'phis', None) or {}):
                self.loops[ph] = L
        return self

    def run(self, t, env=None, maxsteps=2000000):
        return self.evaluator(env, maxsteps).ev(t)

    def evaluator(self, env=None, maxsteps=2000000):
        return Ev(0, dict(env or {}), 0, 3, None, maxsteps, self)

    # -- loops
    def resolve(self, e, ph):
        L = self.loops.get(ph)
        if L is None:
            raise Unsupported('loop symbol')
        k = (id(L), id(e.memo))
        st = self.lmemo.get(k)
        if st is None:
            st = self.iterate(e, L)
            self.lmemo[k] = (st, e.memo)      # keep the memo alive: its id names the context
        else:
            st = st[0]
        return st[ph]

    def sub(self, e, cur, th=None):
        s = type(e)(e.seed, e.env, e.mode, e.maxlen, e.nonneg, e.maxsteps, th or e.hook)
        s.steps = e.steps
        s.over, s.vague, s.bias = e.over, e.vague, e.bias
        s.env.update(cur)
        return s

    def iterate(self, e, L):
        cur = {ph: e.ev(v[0]) for ph, v in L.phis.items()}
        for _ in range(self.limit):
            s = self.sub(e, cur)
            if not s.bdd(L.back_pc):
                return cur
            cur = {ph: s.ev(v[1]) for ph, v in L.phis.items()}
            e.steps = s.steps
        raise Unsupported('loop does not end')

    # -- terms
    def __call__(self, e, t):
        op = t.op
        if op in ('bytes', 'str'):
            return seq(raw(t.a[0]))
        if op == 'phi':
            return self.resolve(e, t)
        if op == 'ref':
            return Tok(evalt._h('ref', repr(t)))
        if op == 'windows':
            xs, n = items(e.ev(t.a[0])), int(e.number(e.ev(t.a[1])))
            if n < 1:
                raise Unsupported('empty windows')
            return Seq([Seq(xs[i:i + n]) for i in range(len(xs) - n + 1)])
        if op == 'rep':
            n = e.number(e.ev(t.a[1]))
            if n > 4096:
                raise Unsupported('large array')
            return Seq([e.ev(t.a[0])] * int(n))
        if op == 'f32':
            v = e.ev(t.a[0])
            if isinstance(v, (int, Fraction)) and not isinstance(v, bool):
                return decode(encode(v, 'f32', False), 'f32', False)
            return v
        if op == 'sym':
            n = str(t.a[0])
            if n == 'stream':
                return Agg('STREAM', 0, [Fraction(0)])
            if n in ('ip', 'ip2', 'writer'):
                return Seq([])
            if n == 'mesh':
                return self.mesh if self.mesh is not None else Agg('MESH', 0, [Seq([]), Seq([])])
            return None
        if op in ('len', 'sel') and isinstance(t.a[0], Term):
            v = e.ev(t.a[0])
            if isinstance(v, Agg) and ('SkipEmpty' in str(v.d) or str(v.d) == 'it:val'):
                xs = rest_of(v)[0]
                if op == 'len':
                    return Fraction(len(xs))
                i = int(e.number(e.ev(t.a[1])))
                if not 0 <= i < len(xs):
                    raise Unsupported('item of an iterator')
                return xs[i]
            return None
        if op == 'call':
            return self.call(e, t, None)
        if op == 'post' and isinstance(t.a[0], Term) and t.a[0].op == 'call':
            return self.call(e, t.a[0], t.a[1])
        return None

    def call(self, e, t, k):
        n = str(t.a[0])
        ty = None
        if ':' in n and n.rsplit(':', 1)[1] in PRIMS and not n.split('::')[-1].startswith(('from_', 'to_')) or n.startswith(('io::utils::from_ascii:', 'FromStr::from_str:')):
            n, ty = n.rsplit(':', 1)
        f = self.fns.get(n)
        if f is None or n in HELPERS and self.derive:
            last = n.split('::')[-1]
            if ':' in last and last.split(':')[0] in ('from_le_bytes', 'from_be_bytes', 'to_le_bytes', 'to_be_bytes', 'from_ne_bytes', 'to_ne_bytes'):
                o, ty = last.split(':')
                v = e.ev(t.a[1][0])
                big = '_be_' in o
                return decode(raw(v), ty, big) if o[0] == 'f' else seq(encode(v, ty, big))
            if n in evalt.BITOPS or n in ('add', 'mul', 'neg', 'fdiv', 'sort', 'sort_unstable', 'dedup', 'reverse', 'hashseq') or 'Hash' in n or n.startswith('set'):
                return None
            try:
                r = self.summary(e, n, t.a[1], k, ty)
            except (Unsupported, engine.TooComplex):
                if f is None:
                    raise
                self.why[n] = str(sys.exc_info()[1])[:200]
                r = None
            if r is not None:
                return r
            if f is None:
                if self.strict:
                    raise Unsupported('call of ' + n)
                return None
        self.ty = ty
        return f(self, e, t.a[1], k)

    def child(self, r):
        """loop symbols are named within one analysis only"""
        t = copy.copy(self)
        t.loops = {}
        t.lmemo = {}
        t.add(r)
        return t

    def summary(self, e, n, args, k, ty=None):
        """a function of the crate kept as a call: its own normal form under the arguments' values"""
        b = self.c.p.bodies.get('rust_3d::' + n)
        if b is None or b['kind'] != 'fn' or b['argc'] != len(args):
            return None
        key_ = ('sum', b['d'], ty)
        r = self.lmemo.get(key_)
        if r is None:
            r = self.c.call((b['d'], self.typed(b, ty)) if ty else b['d'], *[TM.sym('sum_arg%d' % i) for i in range(len(args))], noinline=tuple(self.noinline), typed=True)
            r = self.lmemo[key_] = (r, self.child(r))
        r, th = r
        tys = [self.c.p.rt(b['locals'][i + 1][0], ()) for i in range(len(args))]
        muts = [i for i, t in enumerate(tys) if t[0] == 'ref' and t[1]]
        vals = [e.ev(x) for x in args]
        mk_ = ('val', b['d'], ty, tuple(evalt.key(v) for v in vals))
        s = self.lmemo.get(mk_)
        if s is None:
            s = self.sub(e, {TM.sym('sum_arg%d' % i): v for i, v in enumerate(vals)}, th)
            self.lmemo[mk_] = s
        if k is None:
            return s.ev(r.ret)
        return s.ev(r.post(muts[k])) if k < len(muts) else None

    def typed(self, b, ty):
        """type arguments: the given one for the only parameter of a number"""
        return tuple(('prim', ty) if n and not n.startswith("'") else None for n in b['g'])

    def stream(self, v):
        if isinstance(v, Agg) and v.d == 'STREAM':
            return int(v.ch[0])
        raise Unsupported('stream %r' % (v,))


def S(pos):
    return Agg('STREAM', 0, [Fraction(pos)])


FNS = {}
# functions of the crate whose own normal form is used; the reference meaning below stands in where that fails
HELPERS = ('io::utils::next_line', 'io::utils::fetch_line', 'io::utils::skip_bytes', 'io::utils::trim_start',
           'io::utils::from_ascii', 'utils::to_words_skip_empty', 'utils::estimate_delimiter', 'utils::contains')


def fn(*names):
    def d(f):
        for n in names:
            FNS[n] = f
        return f
    return d


def items(v):
    if isinstance(v, Seq):
        return v.xs
    if isinstance(v, Agg) and v.d == 'array':
        return v.ch
    if isinstance(v, Agg) and (str(v.d) == 'it:val' or 'SkipEmpty' in str(v.d)):
        return rest_of(v)[0]
    raise Unsupported('sequence %r' % (v,))


@fn('Read::read_exact')
def _(T, e, a, k):
    p = T.stream(e.ev(a[0]))
    n = len(items(e.ev(a[1])))
    good = p + n <= len(T.data) and (T.fail is None or p + n <= T.fail)
    if k is None:
        return ok() if good else err('eof')
    if k == 0:
        return S(p + n if good else len(T.data))
    return seq(T.data[p:p + n]) if good else e.ev(a[1])


@fn('BufRead::read_until')
def _(T, e, a, k):
    p = T.stream(e.ev(a[0]))
    d = int(e.number(e.ev(a[1])))
    i = T.data.find(bytes([d]), p)
    q = len(T.data) if i < 0 else i + 1
    bad = T.fail is not None and q > T.fail
    if bad:
        q = T.fail
    if k is None:
        return err('io') if bad else ok(Fraction(q - p))
    if k == 0:
        return S(q)
    return Seq(list(items(e.ev(a[2]))) + seq(T.data[p:q]).xs)


@fn('Seek::seek')
def _(T, e, a, k):
    v = e.ev(a[1])
    if not (isinstance(v, Agg) and v.v == 0 and v.ch):
        raise Unsupported('seek')
    return ok(v.ch[0]) if k is None else S(int(e.number(v.ch[0])))


@fn('io::utils::next_line')
def _(T, e, a, k):
    p = T.stream(e.ev(a[0]))
    line, q = next_line(T.data, p)
    bad = T.fail is not None and line is not None and q > T.fail
    if k == 0:
        return S(q)
    if k == 1:
        return seq(T.data[p:q])
    return NONE if line is None else some(err('io')) if bad else some(ok(seq(line)))


@fn('io::utils::fetch_line')
def _(T, e, a, k):
    p = T.stream(e.ev(a[0]))
    line, q = next_line(T.data, p)
    if k == 0:
        return S(q)
    if k == 1:
        return seq(T.data[p:q])
    if line is None or T.fail is not None and q > T.fail:
        return err('line')
    return ok(seq(line))


@fn('io::utils::skip_bytes')
def _(T, e, a, k):
    p = T.stream(e.ev(a[0]))
    n = int(e.number(e.ev(a[1])))
    good = p + n <= len(T.data)
    if k is None:
        return ok() if good else err('eof')
    return S(p + n if good else len(T.data))


@fn('utils::to_words_skip_empty')
def _(T, e, a, k):
    return Seq([seq(w) for w in words(raw(e.ev(a[0])))])


@fn('utils::estimate_delimiter')
def _(T, e, a, k):
    d = estimate(int(e.number(e.ev(a[0]))), raw(e.ev(a[1])))
    return NONE if d is None else some(Fraction(d))


@fn('utils::contains')
def _(T, e, a, k):
    return raw(e.ev(a[1])) in raw(e.ev(a[0]))


@fn('io::utils::trim_start')
def _(T, e, a, k):
    return seq(raw(e.ev(a[0])).lstrip(b' \t'))


@fn('io::utils::from_ascii')
def _(T, e, a, k):
    ty = T.ty
    v = parse(raw(e.ev(a[0])), ty)
    return NONE if v is None else some(v)


@fn('FromStr::from_str')
def _(T, e, a, k):
    ty = T.ty
    v = parse(raw(e.ev(a[0])), ty)
    return err('parse') if v is None else ok(v)


@fn('std::str::from_utf8_unchecked')
def _(T, e, a, k):
    return e.ev(a[0])


@fn('std::str::from_utf8')
def _(T, e, a, k):
    try:
        raw(e.ev(a[0])).decode()
    except UnicodeDecodeError:
        return err('utf8')
    return ok(e.ev(a[0]))


@fn('core::slice::ascii::is_ascii')
def _(T, e, a, k):
    return all(b < 128 for b in raw(e.ev(a[0])))


@fn('std::char::methods::is_whitespace')
def _(T, e, a, k):
    return is_ws(int(e.number(e.ev(a[0]))))


@fn('core::slice::starts_with', 'starts_with')
def _(T, e, a, k):
    return raw(e.ev(a[0])).startswith(raw(e.ev(a[1])))


@fn('core::slice::ends_with')
def _(T, e, a, k):
    return raw(e.ev(a[0])).endswith(raw(e.ev(a[1])))


@fn('eq')
def _(T, e, a, k):
    x, y = e.ev(a[0]), e.ev(a[1])
    return evalt.key(x if not isinstance(x, Agg) or x.d != 'array' else Seq(x.ch)) == evalt.key(y if not isinstance(y, Agg) or y.d != 'array' else Seq(y.ch))


def iterstate(v):
    """(remaining items, rebuild) of an iterator value"""
    if isinstance(v, Seq):
        return list(v.xs), lambda r: Seq(r)
    if isinstance(v, Agg):
        if str(v.d) == 'it:val' and len(v.ch) == 3:
            xs = items(v.ch[0])
            i, n = int(v.ch[1]), int(v.ch[2])
            return list(xs[i:n]), lambda r: Agg('it:val', v.v, [v.ch[0], Fraction(n - len(r)), v.ch[2]])
        for j, x in enumerate(v.ch):
            if isinstance(x, (Seq, Agg)):
                s = iterstate(x)
                if s is not None:
                    return s[0], lambda r: Agg(v.d, v.v, v.ch[:j] + [s[1](r)] + v.ch[j + 1:])
    return None


@fn('Iterator::next')
def _(T, e, a, k):
    v = e.ev(a[0])
    if not (isinstance(v, Agg) and 'SkipEmpty' in str(v.d)):
        raise Unsupported('iterator')
    s = iterstate(v)
    if s is None:
        raise Unsupported('iterator state')
    xs, mk_ = s
    i = 0
    while i < len(xs) and not items(xs[i]):
        i += 1
    if k is None:
        return some(xs[i]) if i < len(xs) else NONE
    return mk_(xs[i + 1:])


@fn('io::utils::skip_n')
def _(T, e, a, k):
    v = e.ev(a[0])
    n = int(e.number(e.ev(a[1])))
    if k is None:
        return UNIT
    if isinstance(v, Seq):
        return Seq(v.xs[n:])
    s = iterstate(v)
    if s is None:
        raise Unsupported('iterator')
    if 'SkipEmpty' in str(v.d):
        xs = [x for x in s[0]]
        while n and xs:
            if items(xs.pop(0)):
                n -= 1
        return s[1](xs)
    return s[1](s[0][n:])


@fn('split')
def _(T, e, a, k):
    xs = items(e.ev(a[0]))
    cl = a[1]
    out, cur = [], []
    for x in xs:
        if T.closure(e, cl, x):
            out.append(Seq(cur))
            cur = []
        else:
            cur.append(x)
    out.append(Seq(cur))
    return Seq(out)


def closure(self, e, cl, x):
    """truth of a one argument predicate"""
    if cl.op == 'gam':
        for cnd, v in cl.a[0]:
            if e.bdd(cnd):
                return self.closure(e, v, x)
    if not (cl.op == 'agg' and cl.a[0] == 'closure'):
        raise Unsupported('closure')
    key_ = ('closure', cl)
    r = self.lmemo.get(key_)
    if r is None:
        b = self.c.p.bodies[cl.a[1]]
        r = self.c.call(cl.a[1], cl, TM.sym('closure_arg'))
        r = self.lmemo[key_] = (r, self.child(r))
    r, th = r
    s = self.sub(e, {TM.sym('closure_arg'): x}, th)
    v = s.ev(r.ret)
    return e.boolean(v)


Theory.closure = closure


@fn('std::string::String::from_utf8_lossy', 'to_string')
def _(T, e, a, k):
    return seq(display(e.ev(a[0])))


@fn('Add::add')
def _(T, e, a, k):
    x, y = e.ev(a[0]), e.ev(a[1])
    if isinstance(x, Seq):
        return Seq(x.xs + list(items(y)))
    raise Unsupported('sum')


@fn('fmt:display')
def _(T, e, a, k):
    return seq(display(e.ev(a[0])))


@fn('fmt:lower_exp')
def _(T, e, a, k):
    return seq(lower_exp(e.ev(a[0])))


@fn('fmtargs')
def _(T, e, a, k):
    tpl = raw(e.ev(a[0]))
    args = [raw(x) for x in items(e.ev(a[1]))] if len(a) > 1 else []
    if len(a) == 1:
        return seq(tpl)
    out, i, j = bytearray(), 0, 0
    while i < len(tpl):
        b = tpl[i]
        if b == 0:
            break
        if b == 0xc0:
            out += args[j]
            j += 1
            i += 1
        elif b < 0x80:
            out += tpl[i + 1:i + 1 + b]
            i += 1 + b
        else:
            raise Unsupported('format')
    return seq(out)


@fn('format')
def _(T, e, a, k):
    return e.ev(a[0])


@fn('Write::write_all')
def _(T, e, a, k):
    v = e.ev(a[0])
    at = len(items(v))
    T.starts.add(at)
    if at == T.wfail:
        # this one write fails; what is written later is accepted again
        if k is None:
            return err('io')
        if k == 0:
            return Seq(items(v) + [Tok('lost')])
        return e.ev(a[k])
    if k is None:
        return ok()
    if k == 0:
        return Seq(items(v) + items(e.ev(a[1])))
    return e.ev(a[k])


# -- crate traits
@fn('IsBuildable3D::new', 'IsBuildable2D::new')
def _(T, e, a, k):
    return Agg('P', 0, [e.ev(x) for x in a])


def _coord(i):
    def f(T, e, a, k):
        v = e.ev(a[0])
        if isinstance(v, Agg) and v.d == 'P':
            return v.ch[i]
        raise Unsupported('coordinate of %r' % (v,))
    return f


for _i, _n in enumerate('xyz'):
    FNS['Is3D::' + _n] = _coord(_i)
    FNS['Is2D::' + _n] = _coord(_i)


@fn('IsMatrix4Transformable::transform')
def _(T, e, a, k):
    return Agg('TRANSFORMED', 0, [e.ev(a[0]), e.ev(a[1])]) if k == 0 else UNIT


@fn('IsPushable::push')
def _(T, e, a, k):
    v = e.ev(a[0])
    return Seq(items(v) + [e.ev(a[1])]) if k == 0 else UNIT


@fn('IsPushable::reserve', 'IsVertexEditableMesh::reserve_vertices', 'IsFaceEditableMesh::reserve_faces')
def _(T, e, a, k):
    return e.ev(a[0]) if k == 0 else UNIT


@fn('IsRandomAccessible::len')
def _(T, e, a, k):
    return Fraction(len(items(e.ev(a[0]))))


@fn('Index::index')
def _(T, e, a, k):
    xs = items(e.ev(a[0]))
    i = int(e.number(e.ev(a[1])))
    if not 0 <= i < len(xs):
        raise Unsupported('index')
    return xs[i]


def mesh_of(v):
    if isinstance(v, Agg) and v.d == 'MESH':
        return v.ch[0].xs, v.ch[1].xs
    raise Unsupported('mesh')


def idn(e, v):
    while isinstance(v, Agg) and len(v.ch) == 1:
        v = v.ch[0]
    return int(e.number(v))


def mkid(T, kind, n):
    return Agg(T.c.adt(kind)['d'], 0, [Fraction(n)])


@fn('IsMesh::num_vertices')
def _(T, e, a, k):
    return Fraction(len(mesh_of(e.ev(a[0]))[0]))


@fn('IsMesh::num_faces')
def _(T, e, a, k):
    return Fraction(len(mesh_of(e.ev(a[0]))[1]))


@fn('IsMesh::vertex')
def _(T, e, a, k):
    vs, _f = mesh_of(e.ev(a[0]))
    i = idn(e, e.ev(a[1]))
    return some(vs[i]) if i < len(vs) else NONE


@fn('IsMesh::face_vertex_ids')
def _(T, e, a, k):
    _v, fs = mesh_of(e.ev(a[0]))
    i = idn(e, e.ev(a[1]))
    return some(Agg(T.c.adt('Face3')['d'], 0, [mkid(T, 'VId', int(x)) for x in fs[i].xs])) if i < len(fs) else NONE


@fn('IsMesh::face_vertices')
def _(T, e, a, k):
    vs, fs = mesh_of(e.ev(a[0]))
    i = idn(e, e.ev(a[1]))
    return some(Seq([vs[int(x)] for x in fs[i].xs])) if i < len(fs) else NONE


@fn('IsVertexEditableMesh::add_vertex')
def _(T, e, a, k):
    vs, fs = mesh_of(e.ev(a[0]))
    if k is None:
        return mkid(T, 'VId', len(vs))
    return Agg('MESH', 0, [Seq(vs + [e.ev(a[1])]), Seq(fs)])


@fn('IsFaceEditableMesh::try_add_connection')
def _(T, e, a, k):
    vs, fs = mesh_of(e.ev(a[0]))
    ids = [idn(e, e.ev(x)) for x in a[1:4]]
    good = all(i < len(vs) for i in ids) and len(set(ids)) == 3
    if k is None:
        return ok(mkid(T, 'FId', len(fs))) if good else err('ids')
    return Agg('MESH', 0, [Seq(vs), Seq(fs + [Seq([Fraction(i) for i in ids])] if good else fs)])


@fn('IsFaceEditableMesh::add_face')
def _(T, e, a, k):
    vs, fs = mesh_of(e.ev(a[0]))
    n = len(vs)
    if k is None:
        return mkid(T, 'FId', len(fs))
    return Agg('MESH', 0, [Seq(vs + [e.ev(x) for x in a[1:4]]), Seq(fs + [Seq([Fraction(n + i) for i in range(3)])])])


# -- maps
@fn('HashMap::new', 'Default::default', 'std::collections::HashMap::new', 'std::collections::HashMap::with_capacity')
def _(T, e, a, k):
    return Agg('MAP', 0, [])


def entries(v):
    if isinstance(v, Agg) and v.d == 'MAP':
        return v.ch
    raise Unsupported('map %r' % (v,))


@fn('HashMap::contains_key')
def _(T, e, a, k):
    m, x = entries(e.ev(a[0])), evalt.key(e.ev(a[1]))
    return any(evalt.key(y.ch[0]) == x for y in m)


@fn('HashMap::at')
def _(T, e, a, k):
    m, x = entries(e.ev(a[0])), evalt.key(e.ev(a[1]))
    for y in m:
        if evalt.key(y.ch[0]) == x:
            return y.ch[1]
    raise Unsupported('missing key')


@fn('HashMap::set')
def _(T, e, a, k):
    m, x, v = entries(e.ev(a[0])), e.ev(a[1]), e.ev(a[2])
    kx = evalt.key(x)
    return Agg('MAP', 0, [y for y in m if evalt.key(y.ch[0]) != kx] + [Agg('tuple', 0, [x, v])])


def rest_of(v):
    """(items an iterator still yields, rebuild)"""
    s = iterstate(v)
    if s is None:
        raise Unsupported('iterator state')
    xs, mk_ = s
    if 'SkipEmpty' in str(getattr(v, 'd', '')):
        xs = [x for x in xs if items(x)]
    return xs, mk_


@fn('Iterator::nth')
def _(T, e, a, k):
    xs, mk_ = rest_of(e.ev(a[0]))
    n = int(e.number(e.ev(a[1])))
    if k is None:
        return some(xs[n]) if n < len(xs) else NONE
    return mk_(xs[n + 1:])


@fn('Iterator::count')
def _(T, e, a, k):
    return Fraction(len(rest_of(e.ev(a[0]))[0]))


@fn('Iterator::last')
def _(T, e, a, k):
    xs = rest_of(e.ev(a[0]))[0]
    return some(xs[-1]) if xs else NONE


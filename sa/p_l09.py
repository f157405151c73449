"""L09: text is read line by line, the words of a line are its maximal runs without separators."""
from iocheck import *
import itertools

FORMS = ('newline', 'CRLF', 'repeated', 'blanks', 'line ends', 'separated', 'comments', 'empty', 'single line', 'comment', 'long numbers')


def varied(k):
    """the case differs from a plain text by its form only"""
    return b'\r' in k.data or not k.data.endswith(b'\n') or any(x in k.name for x in FORMS)


def mismatch(k, d):
    for x in ('error', 'count', 'order', 'value', 'success'):
        if x in d:
            return d[x]


TEXTS = [b'', b'\n', b'a', b'a\n', b'ab cd\n', b'ab cd', b'\n\n', b'  ab \t\n', b'ab\r\n', b'ab\r\ncd', b'\r\n', b'a\n\nb', b'a\nb\n', b' \n a', b'\t\n', b'a b\n\n\nc', b'x \x0b\n', b'\x00\n', b'\xff\xfe\nq', b'\xc3\xa4b\n1']
WORDS = [b'', b' ', b'a', b' a', b'a ', b'a b', b'a  b', b'\ta\t b ', b'ab cd\tef', b'  1.5\t\t-2  3', b'a\rb c', b'x;y z', b'a b c d e']


def run(c):
    p = c.p
    io = IO(c)
    n = 0
    fs = {}
    for u, b in p.bodies.items():
        if b['kind'] == 'fn' and 'utils' in b['d'] and 'closure' not in u:
            fs.setdefault(b['p'].split('::')[-1], []).append(u)
    for nm, f in (('next_line', lines_), ('fetch_line', fetched), ('to_words_skip_empty', words_), ('skip_n', skipped), ('trim_start', trimmed),
                  ('estimate_delimiter', delim), ('contains', contained), ('from_ascii', parsed)):
        us = fs.get(nm, [])
        if len(us) == 1 and p.bodies[us[0]]['argc'] == (1 if nm in ('to_words_skip_empty', 'trim_start', 'from_ascii') else 2):
            c.guard(nm, f, c, io, us[0])
    cs = [k for k in all_cases() if 'text' in k.tags and not k.want.err]
    plain = [k for k in loaders(cs) if not varied(k)]
    vary = [k for k in loaders(cs) if varied(k)]
    # only where the plain text of a loader is read correctly a difference is one of form
    good = {}
    keep = {}
    for k in plain:
        keep.setdefault(k.loader, k)
    sub = Ctx.__new__(Ctx)
    sub.__dict__.update(c.__dict__)
    sub.ok_, sub.bad, sub.und, sub.stats = [], [], [], {}
    judged(sub, io, list(keep.values()), 'L09', mismatch)
    wrong = set(x[0].split('/')[0] for x in sub.bad + sub.und)
    for l in wrong:
        c.undecided('L09/%s' % l, 'the plain text is not read as expected: differences are not of form')
    vary = [k for k in vary if k.loader not in wrong]
    n += judged(c, io, vary, 'L09', mismatch)
    n += judged(c, Readers(c), plyshare([k for k in reader_cases(cs) if varied(k) and k.loader not in wrong and READERS.get(k.loader) not in wrong], 2), 'L09', mismatch)
    c.floor('texts', len(c.ok_) + len(c.und), 100)
    return {'rule': RULE + '; the line and word functions against reference functions on a systematic set of texts', 'assumptions': ASSUME}


def evaluate(c, io, u, vals, data=b'', posts=(), memo={}):
    b = c.p.bodies[u]
    r = memo.get(u)
    if r is None:
        r = memo[u] = c.call(u, *[sym('arg%d' % i) for i in range(b['argc'])], noinline=tuple(x for x in io.ni if x != u), typed=True)
    T = io.theory(r, data)
    e = T.evaluator({sym('arg%d' % i): v for i, v in enumerate(vals)})
    return [e.ev(r.ret)] + [e.ev(r.post(i)) for i in posts]


def stream0(i=0):
    return Agg('STREAM', 0, [Fr(i)])


def each(c, io, u, nm, inputs, got, want):
    for x in inputs:
        key = '%s/%r' % (nm, x)
        try:
            g = got(x)
        except (Unsupported, TM.TooComplex) as e:
            c.undecided(key, str(e)[:150])
            continue
        w = want(x)
        if g == w:
            c.good(key)
        else:
            c.fail(key, '%s: for %r the result is %r, it has to be %r' % (nm, x, g, w), u)


def unwrap(v):
    """Option / Result of bytes"""
    if isinstance(v, Agg) and v.d == iotheory.OPTN:
        return None if v.v == 0 else unwrap(v.ch[0])
    if isinstance(v, Agg) and v.d == iotheory.RES:
        return unwrap(v.ch[0]) if v.v == 0 else 'error'
    return iotheory.raw(v)


def lines_(c, io, u):
    def all_of(d):
        out, pos, buf = [], stream0(), Seq([])
        for _ in range(12):
            l, pos, buf = evaluate(c, io, u, [pos, buf], d, (0, 1))
            l = unwrap(l)
            out.append(l)
            if l is None:
                return out
        return out

    def ref(d):
        out, p = [], 0
        for _ in range(12):
            l, p = iotheory.next_line(d, p)
            out.append(l)
            if l is None:
                return out
        return out
    each(c, io, u, 'next_line', TEXTS, all_of, ref)
    # what the buffer held before does not matter
    each(c, io, u, 'next_line with a used buffer', TEXTS[:8], lambda d: unwrap(evaluate(c, io, u, [stream0(), iotheory.seq(b'old text')], d)[0]), lambda d: iotheory.next_line(d, 0)[0])


def fetched(c, io, u):
    def one(d):
        l, s, b = evaluate(c, io, u, [stream0(), iotheory.seq(b'old')], d, (0, 1))
        return unwrap(l), int(s.ch[0])

    def ref(d):
        l, p = iotheory.next_line(d, 0)
        return 'error' if l is None else l, p
    each(c, io, u, 'fetch_line', TEXTS, one, ref)


def words_(c, io, u):
    def of(t):
        v = evaluate(c, io, u, [iotheory.seq(t)])[0]
        return [iotheory.raw(x) for x in (iotheory.rest_of(v)[0] if isinstance(v, Agg) else v.xs)]
    each(c, io, u, 'to_words_skip_empty', WORDS, of, iotheory.words)


def skipped(c, io, u):
    def of(x):
        v = evaluate(c, io, u, [Seq([Fr(i) for i in range(x[0])]), Fr(x[1])], posts=(0,))[1]
        return [int(y) for y in (iotheory.rest_of(v)[0] if isinstance(v, Agg) else v.xs)]
    each(c, io, u, 'skip_n', [(n, k) for n in range(5) for k in range(6)], of, lambda x: list(range(x[0]))[x[1]:])


def trimmed(c, io, u):
    each(c, io, u, 'trim_start', [b'', b' ', b'a', b' a', b'  a b ', b'\ta', b' \t a', b'a '], lambda t: iotheory.raw(evaluate(c, io, u, [iotheory.seq(t)])[0]), lambda t: t.lstrip(b' \t'))


def delim(c, io, u):
    def of(x):
        v = evaluate(c, io, u, [Fr(x[0]), iotheory.seq(x[1])])[0]
        return None if v.v == 0 else int(v.ch[0])
    ts = [b'1 2 3', b'1;2;3', b'1,2,3', b'1\t2\t3', b'1 2;3', b'1;2', b'', b'abc', b'1 2 3 4', b'1, 2, 3'][:9]
    each(c, io, u, 'estimate_delimiter', [(n, t) for n in (1, 2, 3) for t in ts], of, lambda x: iotheory.estimate(*x))


def contained(c, io, u):
    xs = [(a, b) for a in (b'', b'a', b'ab', b'aab', b'abcab', b'xxabxx') for b in (b'a', b'ab', b'abc', b'b', b'xx')]
    each(c, io, u, 'contains', xs, lambda x: bool(evaluate(c, io, u, [iotheory.seq(x[0]), iotheory.seq(x[1])])[0]), lambda x: x[1] in x[0])


def parsed(c, io, u):
    def of(t):
        v = evaluate(c, io, u, [iotheory.seq(t)])[0]
        return None if v.v == 0 else v.ch[0]
    each(c, io, u, 'from_ascii', [b'1', b'-2', b'1.5', b'2e3', b'', b'abc', b'1a', b'\xff', b'\xc3\xa4', b'1 '], of, lambda t: iotheory.parse(t))

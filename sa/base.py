"""Common part of the checks: looking up the functions of the analysed crate by their public
name, feeding the results of one analysed function to another (so that properties relate
public operations to each other and never name a private field), recording verdicts,
known findings, evidence."""
import json, os, signal, sys, time, traceback
import prog as PROG
import engine
import terms as TM
import evalt
from terms import *

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get('VERIF_EVID') or os.path.join(VERIF, 'evidence')
KNOWN = os.path.join(VERIF, 'known_findings.txt')
sys.setrecursionlimit(20000)


class Missing(Exception):
    pass


class Ctx:
    def __init__(self, pid, tier='quick', p=None):
        self.pid, self.tier = pid, tier
        self.p = p or PROG.load()
        self.ok_, self.bad, self.und = [], [], []
        self.funcs = set()
        self.stats = {}
        self.known_used = []
        self.cur = None

    # ------------------------------------------------------------ lookup
    def has(self, ty, trait, name, targ=None):
        try:
            self.m(ty, trait, name, targ)
            return True
        except Missing:
            return False

    def m(self, ty, trait, name, targ=None, refself=None):
        """uid of a method of a type ('' = inherent), following provided methods of traits"""
        p = self.p
        r = [u for im, u in p.methods(ty, trait, name) if targ is None or self._targ(im) == targ]
        if len(r) == 1:
            return r[0]
        if not r and trait == '':
            # turned into a trait method
            r = [u for im, u in p.methods(ty, None, name)]
            if len(r) == 1:
                return r[0]
        if not r and trait and trait in p.trait_by_name:
            ims = [im for im, in [(i,) for i in p.impls] if im.get('tr') == p.trait_by_name[trait] and p.self_name(im) == ty
                   and (targ is None or self._targ(im) == targ)]
            bl = [im for im in p.impls if im.get('tr') == p.trait_by_name[trait] and p.rt(im['self'])[0] == 'param']
            for n, u, dflt in p.traits[p.trait_by_name[trait]]['m']:
                if n == name and dflt and (ims or bl):
                    return u
        raise Missing('%s <%s>::%s %s: %d candidates' % (ty, trait, name, targ or '', len(r)))

    def _targ(self, im):
        ta = im.get('ta', [])
        if len(ta) > 1 and isinstance(ta[1], int):
            return self.p.type_name(self.p.rt(ta[1]))
        return None

    def f(self, name):
        try:
            return self.p.func(name)
        except KeyError as e:
            raise Missing(str(e))

    def adt(self, ty):
        r = self.p.adt_by_name.get(ty, [])
        if len(r) != 1:
            raise Missing('type %s: %d candidates' % (ty, len(r)))
        return self.p.adts[r[0]]

    def fidx(self, ty, fname):
        """index of a public field"""
        a = self.adt(ty)
        for i, (n, t, pub) in enumerate(a['v'][0][1]):
            if n == fname:
                return i
        raise Missing('field %s of %s' % (fname, ty))

    def get(self, v, ty, fname):
        return getk(v, ('f', self.fidx(ty, fname)))

    def set(self, v, ty, fname, x):
        return setk(v, ('f', self.fidx(ty, fname)), x)

    def struct(self, ty, name, **kw):
        """value of a struct with every public field a symbol"""
        a = self.adt(ty)
        ch = []
        for n, t, pub in a['v'][0][1]:
            ch.append(kw[n] if n in kw else sym('%s.%s' % (name, n)))
        return agg(a['d'], 0, ch)

    def types_with(self, trait):
        """[(impl, self type name)] of a trait of the crate"""
        tr = self.p.trait_by_name.get(trait)
        if tr is None:
            raise Missing('trait ' + trait)
        return [(im, self.p.self_name(im)) for im in self.p.impls_of.get(tr, [])]

    def loc(self, uid):
        if isinstance(uid, tuple):
            uid = uid[0]
        b = self.p.bodies.get(uid)
        return '%s (%s)' % (b['p'], srcloc(b['sp'])) if b else str(uid)

    def ty(self, name, *args):
        a = self.adt(name)
        g = [x for x in a['g'] if not x.startswith("'")]
        return ('adt', a['d'], tuple(args) if args else tuple(('param', x) for x in g))

    def on(self, ty, trait, name, targ=None, **params):
        """(uid, subst): a method seen from a given type, also when the trait provides it;
        params: types for the method's own type parameters"""
        u = None
        try:
            u = self.m(ty, trait, name, targ)
        except Missing:
            if trait and trait in self.p.trait_by_name:
                for n, uu, dflt in self.p.traits[self.p.trait_by_name[trait]]['m']:
                    if n == name and dflt:
                        u = uu
            if u is None:
                raise
        b = self.p.bodies[u]
        st = self.ty(ty) if ty in self.p.adt_by_name else None
        sub = []
        for n in b['g']:
            if n == 'Self' and st is not None:
                sub.append(st)
            elif n in params:
                sub.append(params[n])
            elif n and not n.startswith("'"):
                sub.append(('param', n))
            else:
                sub.append(None)
        return u, tuple(sub)

    # ------------------------------------------------------------ analysis
    def call(self, uid, *vals, pc=T, subst=None, **opts):
        """analyse a function applied to the given values; a value given for a reference
        parameter is placed behind it.  None = a fresh symbol"""
        p = self.p
        if isinstance(uid, tuple):
            uid, subst = uid
        b = p.bodies[uid]
        self.funcs.add(uid)
        an = engine.Analysis(p, opts)
        if subst is None:
            subst = an.param_subst(b)
        args, pre = [], {}
        for i in range(b['argc']):
            t = p.rt(b['locals'][i + 1][0], subst)
            v = vals[i] if i < len(vals) else None
            if v is not None and t[0] == 'ref' and v.op != 'ref':
                pre[('E', 'arg%d' % i)] = v
                args.append(mk('ref', ('E', 'arg%d' % i), ()))
            elif v is not None and t == ('bool',) and v.op != 'b':
                args.append(B(atom(v)))
            else:
                args.append(v)
        r = an.root_call(uid, args, subst, pc, pre)
        self.stats['analyses'] = self.stats.get('analyses', 0) + 1
        r.uid = uid
        return r

    def val(self, uid, *vals, **k):
        return self.call(uid, *vals, **k).ret

    def opname(self, uid):
        """name of the uninterpreted term for a call that is not followed"""
        if isinstance(uid, tuple):
            uid = uid[0]
        b = self.p.bodies[uid]
        im = self.p.impl_by_id.get(b.get('impl'))
        if im is not None and im.get('tr'):
            return im['tr'].split('::')[-1] + '::' + b['name']
        if b.get('trait'):
            return b['trait'].split('::')[-1] + '::' + b['name']
        return b['p']

    # ------------------------------------------------------------ verdicts
    def good(self, key):
        self.ok_.append(key)

    def fail(self, key, msg, uid=None, extra=None):
        self.bad.append((key, msg, self.loc(uid) if uid else '', extra))

    def undecided(self, key, why):
        self.und.append((key, why))

    def eq(self, key, got, want, uid=None, what='', pc=T, assume=None, env=None, hook=None, maxlen=3, rounds=None):
        try:
            r, w = evalt.compare(got, want, pc, rounds=evalt.rounds(rounds), assume=assume, env=env, hook=hook or nat_hook(self.p), maxlen=maxlen)
        except TooComplex as e:
            self.undecided(key, str(e))
            return None
        if r == evalt.EQ:
            self.good(key)
            return True
        if r == evalt.NE:
            self.fail(key, '%s: differs from the definition %s' % (what or key, w), uid,
                      {'computed': show(got)[:1500], 'required': show(want)[:1500], 'under': bshow(pc)[:300]})
            return False
        self.undecided(key, w)
        return None

    def holds(self, key, cond, uid=None, what='', pc=T, **k):
        return self.eq(key, B(cond), B(T), uid, what, pc, **k)

    def guard(self, key, fn, *a, **k):
        """run one group of obligations; analysis limits make it undecided, a missing anchor fails"""
        try:
            fn(*a, **k)
        except Missing as e:
            self.fail(key + '/anchor', 'a function this property is anchored in was not found: %s' % e)
        except (TooComplex, RecursionError) as e:
            self.undecided(key, '%s: %s' % (type(e).__name__, str(e)[:200]))
        except Exception as e:
            if os.environ.get('SA_DEBUG'):
                traceback.print_exc()
            self.undecided(key, 'analysis gave up: %s: %s' % (type(e).__name__, str(e)[:200]))

    def floor(self, name, n, least):
        self.stats[name] = n
        if n < least:
            self.fail('floor/' + name, 'only %d instances of "%s" found in the source, at least %d are known to exist: the rule lost its anchors' % (n, name, least))


def srcloc(sp):
    if isinstance(sp, (list, tuple)) and sp:
        return str(sp[0]) + (':%s' % sp[1] if len(sp) > 1 else '')
    return str(sp)


AX = ('x', 'y', 'z')


def subterms(t):
    seen, st = set(), [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        st.extend(children(x))
    return seen


def find_calls(t, name):
    return sorted([x for x in subterms(t) if x.op == 'call' and (x.a[0] == name or str(x.a[0]).endswith('::' + name))], key=show)


def is_ok(v):
    return is_variant(v, 0, 2)


def is_err(v):
    return is_variant(v, 1, 2)


def okval(v):
    return getk(restrict(v, is_ok(v)), ('v', 0, 0))


def is_some(v):
    return is_variant(v, 1, 2)


def is_none(v):
    return is_variant(v, 0, 2)


def someval(v):
    return getk(restrict(v, is_some(v)), ('v', 1, 0))


def calls(name, *a):
    return mk('call', name, tuple(a))


def deref(c, v):
    """the number in a Positive / NonNegative term"""
    return v


_nat = {}


def nat_hook(p):
    """uninterpreted calls and symbols of unsigned type evaluate to naturals"""
    if id(p) in _nat:
        return _nat[id(p)]
    ur = set()
    for b in p.d['bodies']:
        try:
            t = p.rt(b['locals'][0][0])
        except Exception:
            continue
        if t[0] == 'prim' and t[1] in ('usize', 'u8', 'u16', 'u32', 'u64'):
            ur.add(b['p'])
    for n, td in p.trait_by_name.items():
        for m, u, d in p.traits[td]['m']:
            pass

    def hook(e, t):
        if t.op == 'sym' and str(t.a[0]).startswith('n_'):
            x = e.over.get(('nat', t))
            return Fraction(int(evalt._h('nat', e.seed, e.mode, t.a[0])[:6], 16) % 6 if x is None else x)
        return None
    _nat[id(p)] = hook
    return hook


# ---------------------------------------------------------------- known findings
def load_known():
    out = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.rstrip('\n')
            if l.startswith('known: property='):
                rest = l[len('known: property='):]
                pid, _, r = rest.partition(' ')
                k, _, txt = r.partition(' :: ')
                out.setdefault(pid, {})[k.strip()] = txt
    return out


LEVEL = 'other'


DEADLINE = 700


class Deadline(BaseException):
    pass


def main(pid, modfn, argv):
    tier = os.environ.get('VERIF_TIER') or ('thorough' if 'thorough' in argv else 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    os.makedirs(EVID, exist_ok=True)
    c = Ctx(pid, tier)
    info = {}

    def late(sig, frame):
        raise Deadline()
    signal.signal(signal.SIGALRM, late)
    signal.alarm(DEADLINE)
    try:
        info = modfn(c) or {}
    except Deadline:
        c.undecided('remaining obligations', 'time limit of %d s for the whole check' % DEADLINE)
    signal.alarm(0)
    known = load_known().get(pid, {})
    viol, kn = [], []
    seen = set()
    for k, msg, loc, extra in c.bad:
        if k in seen:
            continue
        seen.add(k)
        if k in known:
            kn.append((k, known[k]))
        else:
            viol.append((k, msg, loc, extra))
    for k, txt in kn:
        print('KNOWN-FINDING: property=%s %s :: %s' % (pid, k, txt))
    vs = []
    for i, (k, msg, loc, extra) in enumerate(viol):
        rp = os.path.join(EVID, '%s.violation.%d.json' % (pid, i))
        with open(rp, 'w') as f:
            json.dump({'property': pid, 'obligation': k, 'construct': loc, 'reason': msg, 'detail': extra,
                       'replay': 'cd %s && python3 sa/check.py %s %s' % (VERIF, pid, tier)}, f, indent=1)
        print('  obligation %s\n  at %s\n  %s' % (k, loc, msg))
        if extra:
            for kk, vv in extra.items():
                print('    %s: %s' % (kk, str(vv)[:700]))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        vs.append({'replay': rp, 'obligation': k, 'construct': loc, 'reason': msg[:500]})
    for k, why in c.und:
        print('undecided: %s (%s)' % (k, why))
    n = len(c.ok_) + len(seen) + len(c.und)
    print('%s: %d obligations, %d hold, %d undecided, %d known, %d violated; %d functions, %.1fs' % (
        pid, n, len(c.ok_), len(c.und), len(kn), len(viol), len(c.funcs), time.time() - t0))
    cov = {'explanation': info.get('rule', ''), 'obligations': n, 'discharged': len(c.ok_),
           'undecided': [{'obligation': k, 'why': w[:200]} for k, w in c.und],
           'known_findings': [k for k, _ in kn],
           'functions_analysed': sorted(c.p.label(u) for u in c.funcs),
           'samples': c.ok_[:40], 'bodies_in_crate': len(c.p.bodies)}
    cov.update(c.stats)
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': LEVEL, 'coverage': cov,
          'assumptions': info.get('assumptions', []), 'wall_s': round(time.time() - t0, 2), 'violations': len(vs)}
    with open(os.path.join(EVID, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    return 1 if viol else 0

"""Builds the dumper, runs it on /repo's current tree and indexes the dump."""
import json, os, re, subprocess, sys, fcntl, shutil, tempfile, hashlib

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
CACHE = os.environ.get('VERIF_CACHE') or os.path.join(VERIF, '.cache')
TOOLCHAIN = 'nightly'


def _env():
    e = dict(os.environ)
    e['PATH'] = '/root/.cargo/bin:' + e.get('PATH', '')
    e['CARGO_NET_OFFLINE'] = 'true'
    for k in ('RUSTC_WRAPPER', 'RUSTFLAGS', 'CARGO_ENCODED_RUSTFLAGS', 'RUSTUP_TOOLCHAIN', 'RUSTC_WORKSPACE_WRAPPER',
              'CARGO_TARGET_DIR', 'CARGO_BUILD_TARGET_DIR', 'CARGO_INCREMENTAL'):
        e.pop(k, None)
    e['CARGO_TERM_COLOR'] = 'never'
    return e


def sysroot():
    return subprocess.check_output(['rustc', '+' + TOOLCHAIN, '--print', 'sysroot'], env=_env(), text=True).strip()


class BuildError(Exception):
    pass


def build_driver():
    os.makedirs(CACHE, exist_ok=True)
    env = _env()
    td = os.path.join(CACHE, 'driver')
    exe = os.path.join(td, 'debug', 'mirdump')
    src = os.path.join(VERIF, 'driver', 'src', 'main.rs')
    stamp = os.path.join(td, 'stamp')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()
    if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == h:
        return exe
    env['LD_LIBRARY_PATH'] = sysroot() + '/lib'
    p = subprocess.run(['cargo', '+' + TOOLCHAIN, 'build', '--offline', '--target-dir', td], cwd=os.path.join(VERIF, 'driver'),
                       env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise BuildError('driver build failed:\n' + p.stdout[-4000:])
    with open(stamp, 'w') as f:
        f.write(h)
    return exe


def dump(repo=None, out=None):
    """type-check repo's library with the dumper and return the parsed dump"""
    repo = repo or REPO
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        exe = build_driver()
        env = _env()
        env['LD_LIBRARY_PATH'] = sysroot() + '/lib'
        env['RUSTC_WORKSPACE_WRAPPER'] = exe
        env['RUSTFLAGS'] = '--cap-lints allow -Zmir-opt-level=0 -Coverflow-checks=on -Cdebug-assertions=off'
        env['CARGO_INCREMENTAL'] = '0'
        env['MIRDUMP_CRATE'] = 'rust_3d'
        td = os.path.join(CACHE, 'target')
        # never reuse a previous result for the analysed crate
        for root, ds, fs in os.walk(td):
            for d in list(ds):
                if d.startswith(('rust-3d', 'rust_3d')):
                    shutil.rmtree(os.path.join(root, d))
                    ds.remove(d)
            for f in fs:
                if f.startswith(('rust-3d', 'rust_3d', 'librust_3d')):
                    os.unlink(os.path.join(root, f))
        own = out is None
        if own:
            fd, out = tempfile.mkstemp(suffix='.json', dir=CACHE)
            os.close(fd)
        os.unlink(out) if os.path.exists(out) else None
        env['MIRDUMP_OUT'] = out
        p = subprocess.run(['cargo', '+' + TOOLCHAIN, 'check', '--offline', '--lib', '--manifest-path',
                            os.path.join(repo, 'Cargo.toml'), '--target-dir', td],
                           env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode == 0 and not os.path.exists(out):
            shutil.rmtree(td, ignore_errors=True)
            p = subprocess.run(p.args, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0 or not os.path.exists(out):
            raise BuildError('analysis build of the crate failed:\n' + p.stdout[-4000:])
        with open(out) as f:
            d = json.load(f)
        if own:
            os.unlink(out)
    return d


def strip_generics(p):
    """path without its generic arguments (which may nest)"""
    out, i = [], 0
    while i < len(p):
        if p.startswith('::<', i):
            d, j = 0, i + 2
            while j < len(p):
                if p[j] == '<':
                    d += 1
                elif p[j] == '>' and p[j - 1] != '-':
                    d -= 1
                    if d == 0:
                        break
                j += 1
            if j < len(p):
                i = j + 1
                continue
        out.append(p[i])
        i += 1
    return ''.join(out)


def vec_macro(b, tys):
    """`vec![a, b]` writes an array through the pointer inside a box: write it to the box itself"""
    if not any('BoxDerefTransmute' in repr(s) for bl in b['blocks'] if bl for s in bl['s']):
        return
    at = {}
    for bl in b['blocks']:
        for s in (bl['s'] if bl else ()):
            if s[0] == '=' and s[2][0] == 'cast' and s[2][1] == 'BoxDerefTransmute' and not s[1][1]:
                src = s[2][2].get('c') or s[2][2].get('m')
                if src and 'MaybeUninit<' in tys[b['locals'][src[0]][0]]['s'] and len(src[1]) == 1 and isinstance(src[1][0], list) and src[1][0][:2] == ['f', 0]:
                    at[s[1][0]] = src[0]
    for bl in b['blocks']:
        if not bl:
            continue
        out = []
        for s in bl['s']:
            if s[0] == '=' and s[1][0] in at:
                if not s[1][1]:
                    continue
                if s[1][1][0] == '*' and [x[0] for x in s[1][1][1:3]] == ['f', 'f']:
                    s = [s[0], [at[s[1][0]], s[1][1][3:]]] + s[2:]
            out.append(s)
        bl['s'] = out


class Prog:
    def __init__(self, d):
        self.d = d
        for b in d['bodies']:
            vec_macro(b, d['tys'])
        self.tys = d['tys']
        self.bodies = {b['d']: b for b in d['bodies']}
        self.adts = {a['d']: a for a in d['adts']}
        self.traits = {t['d']: t for t in d['traits']}
        self.impls = d['impls']
        self.impl_by_id = {i['d']: i for i in d['impls']}
        self.impls_of = {}
        for i in d['impls']:
            self.impls_of.setdefault(i.get('tr'), []).append(i)
        self.consts = {}
        self.rtcache = {}
        self.method_impls = {}
        for i in d['impls']:
            for n, u in i['m']:
                self.method_impls.setdefault((i.get('tr'), n), []).append(u)
        self.adt_by_name = {}
        for a in d['adts']:
            self.adt_by_name.setdefault(a['d'].split('::')[-1], []).append(a['d'])
        self.trait_by_name = {t['d'].split('::')[-1]: t['d'] for t in d['traits']}

    # -------- types
    def rt(self, tid, subst=()):
        """resolve interned type to a structural tuple, substituting generic params"""
        key = (tid, subst)
        r = self.rtcache.get(key)
        if r is not None:
            return r
        r = self._rt(tid, subst)
        self.rtcache[key] = r
        return r

    def _ra(self, a, subst):
        out = []
        for x in a:
            if isinstance(x, int):
                out.append(self.rt(x, subst))
            elif x is None:
                continue
            else:
                out.append(('const', str(x.get('const'))))
        return tuple(out)

    def args(self, a, subst):
        """type args keeping positions (lifetimes -> None)"""
        out = []
        for x in a:
            if isinstance(x, int):
                out.append(self.rt(x, subst))
            elif x is None:
                out.append(None)
            else:
                out.append(('const', str(x.get('const'))))
        return tuple(out)

    def _rt(self, tid, subst):
        t = self.tys[tid]
        k = t['k']
        if k in ('bool', 'char', 'str', 'never'):
            return (k,)
        if k in ('int', 'float'):
            return ('prim', t['n'])
        if k == 'adt':
            return ('adt', t['d'], self._ra(t['a'], subst))
        if k == 'array':
            return ('array', self.rt(t['e'], subst), t['n'])
        if k == 'slice':
            return ('slice', self.rt(t['e'], subst))
        if k == 'ptr':
            return ('ptr', self.rt(t['e'], subst))
        if k == 'ref':
            return ('ref', t['m'], self.rt(t['e'], subst))
        if k == 'fndef':
            return ('fndef', t['d'], self.args(t['a'], subst))
        if k == 'closure':
            return ('closure', t['d'])
        if k == 'tuple':
            return ('tuple', tuple(self.rt(x, subst) for x in t['a']))
        if k == 'param':
            if t['i'] < len(subst) and subst[t['i']] is not None:
                return subst[t['i']]
            return ('param', t['n'])
        if k == 'dyn':
            return ('dyn', t['d'])
        if k == 'alias':
            a = self.args(t['a'], subst)
            n = self.normalize_alias(t['d'], a)
            return n if n is not None else ('alias', t['d'], a)
        return ('other', t['s'])

    def normalize_alias(self, d, a):
        # d = ...::Trait::Assoc ; a[0] = Self
        tr, _, name = d.rpartition('::')
        if not a or a[0] is None:
            return None
        st = a[0]
        if name == 'Item' and tr.endswith('Iterator') and st[0] == 'ref' and st[2][0] in ('adt', 'slice', 'array'):
            # &Vec<T>, &[T]
            e = st[2]
            if e[0] == 'adt' and e[2] and tr.endswith('IntoIterator'):
                return ('ref', st[1], e[2][0])
            if e[0] in ('slice', 'array'):
                return ('ref', st[1], e[1])
        r = self.find_impl(tr, a)
        if r is None:
            return None
        im, sub = r
        for n, t in im['at']:
            if n == name:
                return self.rt(t, sub)
        return None

    def unify(self, pat, t, sub):
        """pat: structural type with ('param', name) leaves"""
        if pat[0] == 'param':
            if pat[1] in sub:
                return sub[pat[1]] == t
            sub[pat[1]] = t
            return True
        if pat[0] != t[0]:
            return False
        if pat[0] == 'adt':
            if pat[1] != t[1]:
                return False
            if len(pat[2]) != len(t[2]):
                return len(t[2]) == 0
            return all(self.unify(p, x, sub) for p, x in zip(pat[2], t[2]))
        if pat[0] == 'ref':
            return pat[1] == t[1] and self.unify(pat[2], t[2], sub)
        if pat[0] in ('slice', 'ptr'):
            return self.unify(pat[1], t[1], sub)
        if pat[0] == 'array':
            return self.unify(pat[1], t[1], sub)
        if pat[0] == 'tuple':
            return len(pat[1]) == len(t[1]) and all(self.unify(p, x, sub) for p, x in zip(pat[1], t[1]))
        if pat[0] == 'alias':
            return True
        return pat == t

    def find_impl(self, trait, targs):
        """local impl of trait for concrete args (Self first); returns (impl, subst) or None"""
        st = targs[0]
        if st is None or st[0] in ('param', 'alias', 'dyn'):
            return None
        cands = []
        for im in self.impls_of.get(trait, ()):
            pats = self.args(im['ta'], ())
            sub = {}
            ok = True
            for p, t in zip(pats, targs):
                if p is None or t is None:
                    continue
                if t[0] in ('param', 'alias', 'other') and p[0] not in ('param',):
                    if p is pats[0]:
                        ok = False
                        break
                    if t[0] == 'param':
                        ok = False
                        break
                    continue
                if not self.unify(p, t, sub):
                    ok = False
                    break
            if ok:
                cands.append((im, sub, pats[0][0] == 'param'))
        if len(cands) > 1:
            # prefer non-blanket impls, then those whose bounds are known to hold
            nb = [c for c in cands if not c[2]]
            if nb:
                cands = nb
        if len(cands) == 1:
            im, sub, blanket = cands[0]
            if blanket and not self.bounds_ok(im, sub):
                return None
            g = tuple(sub.get(n, ('param', n)) if n and not n.startswith("'") else None for n in im['g'])
            return im, g
        return None

    def bounds_ok(self, im, sub):
        g = tuple(sub.get(n, ('param', n)) if n and not n.startswith("'") else None for n in im['g'])
        for st, tr, a in im['preds']:
            if tr not in self.traits:
                continue
            if self.find_impl(tr, self.args(a, g)) is None:
                return False
        return True

    # -------- lookup of functions by public name
    def self_name(self, im):
        t = self.rt(im['self'])
        return self.type_name(t)

    def type_name(self, t):
        if t[0] == 'adt':
            return t[1].split('::')[-1]
        if t[0] == 'ref':
            return '&' + ('mut ' if t[1] else '') + self.type_name(t[2])
        if t[0] == 'param':
            return t[1]
        if t[0] == 'prim':
            return t[1]
        if t[0] == 'slice':
            return '[%s]' % self.type_name(t[1])
        return t[0]

    def methods(self, tyname=None, trait=None, name=None):
        """all (impl, uid) with self type name, trait name ('' inherent, None any) and method name"""
        out = []
        for im in self.impls:
            tn = im['tr'].split('::')[-1] if im.get('tr') else ''
            if trait is not None and tn != trait:
                continue
            if tyname is not None and self.self_name(im) != tyname:
                continue
            for n, u in im['m']:
                if name is None or n == name:
                    out.append((im, u))
        return out

    def method(self, tyname, trait, name, targ=None):
        r = self.methods(tyname, trait, name)
        if targ is not None:
            r = [(im, u) for im, u in r if len(im.get('ta', [])) > 1 and im['ta'][1] is not None
                 and self.type_name(self.rt(im['ta'][1])) == targ]
        if len(r) != 1:
            raise KeyError('%s <%s>::%s(%s): %d candidates' % (tyname, trait, name, targ, len(r)))
        return r[0][1]

    def func(self, name):
        """free function by name (must be unique)"""
        r = [b for b in self.d['bodies'] if b['kind'] == 'fn' and b['name'] == name and 'impl' not in b and 'trait' not in b]
        if len(r) != 1:
            raise KeyError('fn %s: %d candidates' % (name, len(r)))
        return r[0]['d']

    def trait_method(self, trait, name):
        t = self.traits[self.trait_by_name[trait]]
        for n, u, dflt in t['m']:
            if n == name:
                return u
        raise KeyError('%s::%s' % (trait, name))

    def label(self, uid):
        b = self.bodies.get(uid)
        return b['p'] if b else uid


def load(repo=None):
    return Prog(dump(repo))


if __name__ == '__main__':
    if len(sys.argv) > 1 and sys.argv[1] == 'setup':
        build_driver()
        p = load()
        print('dumped %d bodies' % len(p.bodies))

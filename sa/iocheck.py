"""Running the abstract input files of `iofiles` through the extracted value flow of the readers, in parallel
over cases, and sorting the differences by the property they break."""
import os
import pickle
import signal
import tempfile
import time

import iotheory
from base import *
from iofiles import *

PROCS = 8
BUDGET = 480          # seconds for all cases of one check
PERCASE = 40


class Late(BaseException):
    pass


def parallel(jobs, f, budget=BUDGET):
    """[f(job)] over forked workers; ('late', ...) where the time did not suffice"""
    n = min(PROCS, max(1, len(jobs)))
    dirs = tempfile.mkdtemp(prefix='iocheck.')
    pids = []
    t0 = time.time()
    try:
        for k in range(n):
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    def late(sig, frame):
                        raise Late()
                    signal.signal(signal.SIGALRM, late)
                    out = []
                    for i in range(k, len(jobs), n):
                        left = budget - (time.time() - t0)
                        if left < 1:
                            out.append((i, ('und', 'time limit')))
                            continue
                        try:
                            signal.alarm(int(min(left, PERCASE)) + 1)
                            r = f(jobs[i])
                            signal.alarm(0)
                        except Late:
                            r = ('und', 'time limit')
                        except (Unsupported, TM.TooComplex, RecursionError) as e:
                            r = ('und', '%s: %s' % (type(e).__name__, str(e)[:120]))
                        except Exception as e:
                            if os.environ.get('SA_DEBUG'):
                                traceback.print_exc()
                            r = ('und', '%s: %s' % (type(e).__name__, str(e)[:120]))
                        finally:
                            signal.alarm(0)
                        out.append((i, r))
                    with open(os.path.join(dirs, str(k)), 'wb') as fh:
                        pickle.dump(out, fh)
                    code = 0
                finally:
                    os._exit(code)
            pids.append(pid)
        for p in pids:
            os.waitpid(p, 0)
        res = [('und', 'worker lost')] * len(jobs)
        for k in range(n):
            try:
                with open(os.path.join(dirs, str(k)), 'rb') as fh:
                    for i, r in pickle.load(fh):
                        res[i] = r
            except (OSError, EOFError, pickle.PickleError):
                pass
        return res
    finally:
        for k in range(n):
            try:
                os.unlink(os.path.join(dirs, str(k)))
            except OSError:
                pass
        os.rmdir(dirs)


FIELDS = ('points', 'verts', 'faces', 'normals')


def tup(xs):
    return [tuple(Fr(v) for v in x) for x in xs]


def differences(case, g):
    """what is wrong with the delivered data: {kind: text}"""
    w = case.want
    d = {}
    if w.err:
        if g.ok:
            d['success'] = 'success is reported'
        return d
    if not g.ok:
        return {'error': 'an error is reported'}
    for f in FIELDS:
        want = getattr(w, f)
        if want is None:
            continue
        want, got = tup(want), tup(getattr(g, f) or [])
        if want == got:
            continue
        if len(want) != len(got):
            d['count'] = '%d %s delivered instead of %d' % (len(got), f, len(want))
            m = min(len(want), len(got))
            if want[:m] != got[:m]:
                d['value'] = '%s are not those of the file' % f
            continue
        bad = [i for i in range(len(want)) if want[i] != got[i]]
        i = bad[0]
        t = '%s[%d] is %s instead of %s' % (f, i, fmt(got[i]), fmt(want[i]))
        if f != 'faces' and all(set(got[j]) <= (w.alts[j] if w.alts and f == 'points' else set(want[j])) for j in bad):
            d['axes'] = t
        elif sorted(want) == sorted(got):
            d['order'] = t
        else:
            d['value'] = t
    return d


def fmt(p):
    return '(%s)' % ', '.join(str(float(x)) if x.denominator != 1 else str(int(x)) for x in p)


def judged(c, io, cases, prop, broken, per=None):
    """evaluate the cases; `broken(case, differences)`: text if they break the property"""
    roots = {}
    for k in cases:
        if k.loader not in roots:
            try:
                io.ready(k.loader)
                roots[k.loader] = None
            except Missing:
                raise
            except (Unsupported, TM.TooComplex, RecursionError) as e:
                roots[k.loader] = '%s: %s' % (type(e).__name__, str(e)[:120])
    jobs = [k for k in cases if roots[k.loader] is None]

    def one(k):
        g = io.load(k)
        d = differences(k, g)
        if getattr(g, 'late', None):
            d = dict(d, late=g.late)
        if d and g.vague:
            return ('und', 'depends on %s' % g.vague[0])
        return ('done', d)
    res = parallel(jobs, one)
    for l, why in roots.items():
        if why is not None:
            c.undecided('%s/%s' % (prop, l), why)
    names, n = {}, 0
    bad = {}
    for k, r in zip(jobs, res):
        nm = '%s/%s' % (k.loader, k.name)
        names[nm] = names.get(nm, 0) + 1
        key = nm if names[nm] == 1 else '%s #%d' % (nm, names[nm])
        if r[0] == 'und':
            c.undecided(key, r[1])
            continue
        n += 1
        t = broken(k, r[1]) if r[1] else None
        if t is None:
            c.good(key)
        else:
            bad.setdefault(k.loader, []).append((key, t, k))
    for l, xs in bad.items():
        for key, t, k in xs[:6]:
            c.fail(key, '%s: %s; input: %s' % (l, t, show_data(k.data)), io.root(l), {'further inputs': [x[0] for x in xs[6:40]]} if len(xs) > 6 else None)
        if len(xs) > 6:
            for key, t, k in xs[6:]:
                c.undecided(key, 'differs as the inputs reported')
    c.stats['abstract files evaluated'] = c.stats.get('abstract files evaluated', 0) + n
    return n


# ---------------------------------------------------------------- incremental readers
# (type, cases of which loader, what the items are)
READERS = {
    'XyzIterator': 'load_xyz', 'XyIterator': 'load_xy', 'PtsIterator': 'load_pts', 'PtxIterator': 'load_ptx', 'PslIterator': 'load_psl',
    'LasIterator': 'load_las', 'GcodeIterator': 'load_gcode_points', 'ObjPointsIterator': 'load_obj_points', 'ObjMeshIterator': 'load_obj_mesh',
    'OffPointsIterator': 'load_off_points', 'OffMeshIterator': 'load_off_mesh', 'PlyMeshIterator': 'load_ply_mesh', 'PlyPointsIterator': 'load_ply_points',
    'StlIterator': 'load_stl_triplets',
}


def steps(io, case):
    """drive an incremental reader call by call"""
    c = io.c
    r0, r1, fmt_ = io.reader(case.loader)
    T = io.theory(r0, case.data, fail=case.fail)
    e = T.evaluator({sym('format'): io.variant('StlFormat', case.fmt or 'Auto')} if fmt_ else {})
    g = Got()
    g.points, g.verts, g.faces, g.normals = [], [], [], []
    g.ok, g.late = True, None
    g.vague = e.vague
    st = e.ev(r0.ret)
    if isinstance(st, Agg) and st.d == iotheory.RES:
        if st.v != 0:
            g.ok = False
            return g
        st = st.ch[0]
    pts = []
    T1 = io.theory(r1, case.data, fail=case.fail)
    n, ended = 0, None
    while ended is None or n < ended + 4:
        n += 1
        if n > 60:
            raise Unsupported('reader does not end')
        e = T1.evaluator({sym('state'): st})
        v = e.ev(r1.ret)
        st = e.ev(r1.post(0))
        g.vague = g.vague or e.vague
        if v.v == 0:
            ended = ended or n
            continue
        if ended is not None:
            g.late = 'something is delivered after the ' + ('end' if g.ok else 'error')
            return g
        x = v.ch[0]
        if x.v != 0:
            g.ok = False
            ended = n
            continue
        item(c, g, x.ch[0], pts)
    w = case.want
    if w.points is not None:
        g.points = pts
    g.verts = pts
    return g


def item(c, g, x, pts):
    if isinstance(x, Agg) and (x.d == 'P' or x.d == 'TRANSFORMED'):
        pts.append(point(x))
        return
    a = c.p.adts.get(x.d) if isinstance(x, Agg) else None
    if a is None:
        if isinstance(x, (Seq, Agg)):
            g.faces.append(tuple(int(num_of(y)) for y in iotheory.items(x)))
            return
        raise Unsupported('item %r' % (x,))
    if a['enum']:
        nm = a['v'][x.v][0]
        if nm.startswith('Reserve'):
            return
        for y in x.ch:
            item(c, g, y, pts)
        return
    fs = {f[0]: i for i, f in enumerate(a['v'][0][1])}
    if all(k in fs for k in 'nabc'):
        g.normals.append(point(x.ch[fs['n']]))
        for k in 'abc':
            pts.append(point(x.ch[fs[k]]))
        return
    raise Unsupported('item ' + str(x.d))


class Readers(IO):
    """incremental readers: constructor once, then `next` until it ends"""

    def ready(self, l):
        self.reader(l)

    def root(self, l):
        return self.c.m(l, 'Iterator', 'next')

    def reader(self, l):
        r = self.an.get(l)
        if r is None:
            try:
                u = self.c.m(l, '', 'new')
                b = self.c.p.bodies[u]
                r0 = self.c.call(u, *[sym('stream'), sym('format')][:b['argc']], noinline=tuple(self.ni), typed=True)
                r1 = self.c.call(self.root(l), sym('state'), noinline=tuple(self.ni), typed=True)
                r = (r0, r1, b['argc'] > 1)
            except TM.TooComplex as e:
                r = e
            self.an[l] = r
        if isinstance(r, Exception):
            raise r
        return r

    def load(self, case):
        return steps(self, case)


def reader_cases(cases):
    by = {}
    for k in cases:
        by.setdefault(k.loader, []).append(k)
    for t, l in READERS.items():
        for k in by.get(t, ()):
            yield k
        for k in by.get(l, ()):
            if k.name.endswith('unknown vertex'):
                continue          # a reader which does not build the mesh does not know
            yield Case(t, k.name, k.data, k.want, k.fmt, k.tags)


def loaders(cases):
    return [k for k in cases if k.loader in LOADERS]


def plyshare(cases, n):
    """every n-th of the .ply layouts"""
    out, i = [], 0
    for k in cases:
        if 'ply' in k.loader.lower():
            i += 1
            if i % n:
                continue
        out.append(k)
    return out


RULE = ('the readers\' transition systems (constructor, every loop step, the result) extracted from their MIR are evaluated under the bytes of each abstract file '
        'by a theory of streams and text; the delivered elements are compared with those an independent description of the format assigns to the file')
ASSUME = ['std: read_exact, read_until, from_*_bytes, FromStr of numbers, slice and iterator functions behave as documented',
          'the receiving collection or mesh obeys its trait (push appends, add_vertex numbers consecutively, try_add_connection refuses unknown vertices)']

"""Following an abstract input through the extracted value flow of a reader: every loop step in order, with
every check the compiler or a library function makes on the way (panics), every space reserved and every
state of every loop (a state met twice is never left)."""
from iotheory import *
from base import *

ALLOC = 1 << 26       # elements


class Strict(Ev):
    """values which are not known are not guessed"""
    maxtrip = 1500

    def number(self, v):
        if isinstance(v, Tok):
            raise Unsupported('number of an unknown value')
        return Ev.number(self, v)

    def boolean(self, v):
        if isinstance(v, Tok):
            raise Unsupported('truth of an unknown value')
        return Ev.boolean(self, v)

    def length(self, v):
        if isinstance(v, Tok):
            raise Unsupported('length of an unknown value')
        return Ev.length(self, v)

    def variant(self, v, n):
        if isinstance(v, Tok):
            raise Unsupported('variant of an unknown value')
        return Ev.variant(self, v, n)


def untyped(name):
    n = str(name)
    if ':' in n and n.rsplit(':', 1)[1] in PRIMS:
        return tuple(n.rsplit(':', 1))
    return n, None


class Found(Exception):
    def __init__(self, kind, what, where):
        self.kind, self.what, self.where = kind, what, where


class Walk:
    """kinds: 'panic', 'alloc', 'hang'"""

    def __init__(self, c, limit=3000):
        self.c = c
        self.limit = limit
        self.found = []       # (kind, text, (uid, file, line))
        self.unknown = []
        self.met = set()      # obligations met
        self.seen = set()
        self.tree = {}
        self.steps = 0

    def parts(self, an):
        r = self.tree.get(id(an))
        if r is None:
            loops = [L for L in an.loops.values() if not isinstance(L, int) and hasattr(L, 'phis')]
            kids = {}
            for L in loops:
                kids.setdefault(L.parent, []).append(L)
            own = {}
            for key, obs, evs in [(None, an.oblig, an.events)] + [(L.key, L.oblig, L.events) for L in loops]:
                ins, ine = set(), set()
                for M in kids.get(key, ()):
                    ins.update(id(o) for o in M.oblig)
                    ine.update(id(o) for o in M.events)
                own[key] = ([o for o in obs if id(o) not in ins],
                            [o for o in evs if id(o) not in ine and (o.kind == 'reserve' or o.kind == 'call')])
            r = self.tree[id(an)] = (kids, own, an)
        return r

    def note(self, kind, text, o):
        k = (kind, o.uid, o.file, o.line, text)
        if k not in self.seen:
            self.seen.add(k)
            self.found.append((kind, text, (o.uid, o.file, o.line)))

    def truth(self, e, n):
        """True, False or None"""
        try:
            return e.bdd(n)
        except (Unsupported, OverflowError, ZeroDivisionError) as ex:
            self.unknown.append(str(ex)[:100])
            return None

    def level(self, e, T, tree, key):
        kids, own, _ = tree
        obs, evs = own[key]
        for o in obs:
            if o.pc == TM.F or TM.band(o.pc, TM.bnot(o.ok)) == TM.F:
                continue
            bad = self.truth(e, TM.band(o.pc, TM.bnot(o.ok)))
            if bad:
                self.note('panic', o.desc, o)
        for v in evs:
            if v.kind == 'reserve' or v.name in ('IsPushable::reserve', 'IsVertexEditableMesh::reserve_vertices', 'IsFaceEditableMesh::reserve_faces'):
                if self.truth(e, v.pc):
                    try:
                        n = e.number(e.ev(v.args[0] if v.kind == 'reserve' else v.args[1]))
                    except (Unsupported, OverflowError, ZeroDivisionError) as ex:
                        self.unknown.append(str(ex)[:100])
                        continue
                    if n > ALLOC:
                        self.note('alloc', 'space is reserved for the number of elements the file claims', v)
            elif v.term is not None and 'rust_3d::' + untyped(v.name)[0] in self.c.p.bodies:
                if self.truth(e, v.pc):
                    self.callee(e, T, v)
        for L in kids.get(key, ()):
            if self.truth(e, L.pc):
                self.loop(e, T, tree, L)

    def loop(self, e, T, tree, L):
        try:
            cur = {ph: e.ev(v[0]) for ph, v in L.phis.items()}
        except (Unsupported, OverflowError, ZeroDivisionError) as ex:
            self.unknown.append(str(ex)[:100])
            return
        seen = set()
        while True:
            self.steps += 1
            if self.steps > self.limit:
                raise Unsupported('too many steps')
            k = tuple(sorted((repr(ph), evalt.key(v)) for ph, v in cur.items()))
            if k in seen:
                self.note('hang', 'the loop returns to a state it had before', L)
                raise Found('hang', '', None)
            seen.add(k)
            s = T.sub(e, cur)
            self.level(s, T, tree, L.key)
            b = self.truth(s, L.back_pc)
            if b is None:
                return
            if not b:
                T.lmemo[(id(L), id(e.memo))] = (cur, e.memo)
                return
            try:
                cur = {ph: s.ev(v[1]) for ph, v in L.phis.items()}
            except (Unsupported, OverflowError, ZeroDivisionError) as ex:
                self.unknown.append(str(ex)[:100])
                return
            e.steps = s.steps

    def callee(self, e, T, v):
        """a function kept as a call"""
        n, ty = untyped(v.name)
        b = self.c.p.bodies['rust_3d::' + n]
        if b['kind'] != 'fn' or b['argc'] != len(v.args):
            return
        try:
            T.summary(e, n, v.args, None, ty)
        except (Unsupported, engine.TooComplex):
            pass
        r = T.lmemo.get(('sum', b['d'], ty))
        if r is None:
            return
        r, th = r
        try:
            vals = [e.ev(x) for x in v.args]
        except Unsupported as ex:
            self.unknown.append(str(ex)[:100])
            return
        s = T.sub(e, {TM.sym('sum_arg%d' % i): x for i, x in enumerate(vals)}, th)
        self.level(s, th, self.parts(r.an), None)


def walk(c, T, r, env, limit=3000, w=None):
    w = w or Walk(c, limit)
    w.steps = 0
    e = Strict(0, dict(env or {}), 0, 3, None, 4000000, T)
    try:
        w.level(e, T, w.parts(r.an), None)
    except Found:
        pass
    return w

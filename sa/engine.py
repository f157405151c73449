"""Forward value-flow analysis over MIR (gated value numbering).

Each reachable body is analysed once per calling context in reverse post order.  At
joins values are merged into gated values; at loop headers every location the loop may
change is replaced by a loop symbol ('phi') whose initial and step values are recorded.
Calls into the crate are analysed in the context of the caller (bounded depth), calls
into std are described by the models in models.py, everything else is an uninterpreted
function of its arguments which may change whatever it received by mutable reference.
"""
import re
from terms import *
import terms as TM
from prog import strip_generics

MAXDEPTH = 24


def samekey(a, b, d=0):
    """True: the same key; False: certainly another one; None: not known"""
    if a is b:
        return True
    if a.op == 'agg' and b.op == 'agg' and d < 6:
        if a.a[1] != b.a[1] and a.a[0] == b.a[0]:
            return False
        if a.a[0] == b.a[0] and len(a.a[2]) == len(b.a[2]):
            rs = [samekey(x, y, d + 1) for x, y in zip(a.a[2], b.a[2])]
            return False if False in rs else True if all(rs) else None
        return None
    x, y = const_val(a), const_val(b)
    if x is not None and y is not None:
        return x == y
    return None


def emptymap(m):
    return m.op == 'call' and not m.a[1] and str(m.a[0]).split('::')[-1] in ('new', 'default')


def mapat(m, k):
    if m.op == 'gam':
        return gam([(c, mapat(x, k)) for c, x in m.a[0]])
    if m.op == 'call' and m.a[0] == 'HashMap::set':
        s = samekey(m.a[1][1], k)
        if s:
            return m.a[1][2]
        if s is False:
            return mapat(m.a[1][0], k)
    return mk('call', 'HashMap::at', (m, k))


def maphas(m, k):
    """condition under which the map holds the key"""
    if m.op == 'gam':
        r = F
        for c, x in m.a[0]:
            r = bor(r, band(c, maphas(x, k)))
        return r
    if emptymap(m):
        return F
    if m.op == 'call' and m.a[0] == 'HashMap::set':
        s = samekey(m.a[1][1], k)
        if s:
            return T
        if s is False:
            return maphas(m.a[1][0], k)
    t = mk('call', 'HashMap::contains_key', (m, k))
    t.meta = 'bool'
    return atom(t)


class Frame:
    __slots__ = ('body', 'key', 'subst', 'depth', 'parent', 'prom', 'uid', 'stack')


class Oblig:
    """something that must hold at a program point"""
    __slots__ = ('kind', 'pc', 'ok', 'uid', 'file', 'line', 'desc', 'stack', 'info')

    def __repr__(self):
        return '%s %s:%s %s' % (self.kind, self.file, self.line, self.desc)


class Event:
    __slots__ = ('kind', 'pc', 'name', 'args', 'uid', 'file', 'line', 'stack', 'info', 'term')

    def __repr__(self):
        return '%s %s:%s' % (self.name, self.file, self.line)


class Loop:
    __slots__ = ('key', 'pc', 'phis', 'back_pc', 'uid', 'line', 'file', 'exits', 'stack', 'blocks', 'hdr', 'synthetic', 'oblig', 'events', 'rets', 'ind', 'parent')


class Analysis:
    def __init__(self, prog, opts=None):
        self.p = prog
        self.o = opts or {}
        self.oblig = []
        self.adtargs = {}           # type arguments the types of the crate were seen with
        self.events = []
        self.loops = {}
        self.fkeys = {}
        self.fkeynames = []
        self.cfgcache = {}
        self.visited = {}
        self.inline_stack = []
        self.dynty = {}
        self.noinline = set(self.o.get('noinline', ()))
        self.unknown_calls = {}
        self.uniq = 0
        self.steps = 0
        self.budget = self.o.get('budget', 400000)
        self.phi_info = {}
        import models
        self.models = models

    # ------------------------------------------------------------ frames
    def fkey(self, *k):
        i = self.fkeys.get(k)
        if i is None:
            i = len(self.fkeys)
            self.fkeys[k] = i
        return i

    def root_call(self, uid, args=None, subst=None, pc=T, pre=None):
        """analyse uid as an entry point; args default to symbols arg0.."""
        TM.set_budget(self.o.get('nodes', 300000))
        body = self.p.bodies[uid]
        state = dict(pre or {})
        if subst is None:
            subst = self.param_subst(body)
        av = []
        for i in range(body['argc']):
            t = self.p.rt(body['locals'][i + 1][0], subst)
            if args is not None and i < len(args) and args[i] is not None:
                v = args[i]
            else:
                v = self.sym_for('arg%d' % i, t)
            av.append(v)
        ret, rpc, st = self.call_body(body, av, subst, pc, state, None, ('root', uid))
        return Result(self, body, ret, rpc, st)

    def param_subst(self, body):
        return tuple(('param', n) if n and not n.startswith("'") else None for n in body['g'])

    def sym_for(self, name, t):
        if t[0] == 'ref':
            inner = t[2]
            if inner[0] == 'ref':
                # reference to reference: transparent
                return mk('ref', ('E', name), ())
            return mk('ref', ('E', name), ())
        if t == ('bool',):
            s = sym(name)
            return B(atom(s))
        if t[0] == 'tuple':
            return agg('tuple', 0, [self.sym_for('%s_%d' % (name, i), x) for i, x in enumerate(t[1])])
        return sym(name)

    # ------------------------------------------------------------ cfg
    def cfg(self, body):
        k = id(body)
        c = self.cfgcache.get(k)
        if c is None:
            c = Cfg(body)
            self.cfgcache[k] = c
        return c

    # ------------------------------------------------------------ state
    def default(self, root):
        if root[0] == 'E':
            return sym(root[1])
        if root[0] == 'M':
            return root[1]
        return mk('undef')

    def rd_root(self, state, root):
        v = state.get(root)
        if v is None:
            return self.default(root)
        return v

    def read(self, state, root, path):
        v = self.rd_root(state, root)
        for k in path:
            v = self.getp(v, k)
        return v

    def getp(self, v, k):
        if k[0] == 'i':
            return sel(v, k[1])
        if k[0] == 'key':
            return mapat(v, k[1])
        return getk(v, k)

    def write(self, state, root, path, val):
        if not path:
            state[root] = val
            return
        v = self.rd_root(state, root)
        state[root] = self.setp(v, path, val)

    def setp(self, v, path, val):
        k = path[0]
        if len(path) > 1:
            val = self.setp(self.getp(v, k), path[1:], val)
        if k[0] == 'i':
            return store(v, k[1], val)
        if k[0] == 'key':
            return mk('call', 'HashMap::set', (v, k[1], val))
        if v.op == 'undef':
            return mkupd(v, [(k, val)])
        return setk(v, k, val)

    def read_ref(self, state, r, pc=T):
        """value behind reference term r"""
        if r.op == 'ref':
            return self.read(state, r.a[0], r.a[1])
        if r.op == 'gam':
            return gam([(c, self.read_ref(state, v)) for c, v in r.a[0]])
        if r.op == 'undef':
            return r
        v = state.get(('M', r))
        return v if v is not None else self.pointee(state, r)

    def pointee(self, st, v):
        """element of an array of references: element of the array of the values behind them"""
        if v.op == 'sel' and v.a[0].op == 'agg' and any(x.op == 'ref' for x in v.a[0].a[2]):
            a = v.a[0]
            return sel(mk('agg', a.a[0], a.a[1], tuple(self.read(st, x.a[0], x.a[1]) if x.op == 'ref' else x for x in a.a[2])), v.a[1])
        return v

    def write_ref(self, state, r, val, pc=T):
        if r.op == 'ref':
            self.write(state, r.a[0], r.a[1], val)
        elif r.op == 'gam':
            for c, v in r.a[0]:
                old = self.read_ref(state, v)
                self.write_ref(state, v, gam([(c, restrict(val, c)), (bnot(c), old)]))
        elif r.op == 'undef':
            pass
        else:
            state[('M', r)] = val

    def merge(self, preds):
        """preds: list of (pc, state)"""
        preds = [x for x in preds if x[0] != F]
        if not preds:
            return F, {}
        if len(preds) == 1:
            return preds[0][0], dict(preds[0][1])
        pc = F
        for c, _ in preds:
            pc = bor(pc, c)
        first = preds[0][1]
        out = {}
        keys = {}
        for _, s in preds:
            for k in s:
                keys[k] = 1
        for k in keys:
            v0 = first.get(k)
            same = v0 is not None
            if same:
                for _, s in preds:
                    if s.get(k) is not v0:
                        same = False
                        break
            if same:
                out[k] = v0
                continue
            cs = []
            for c, s in preds:
                v = s.get(k)
                if v is None:
                    if k[0] == 'L':
                        continue
                    v = self.default(k)
                cs.append((c, restrict(v, c)))
            out[k] = gam(cs)
        return pc, out

    # ------------------------------------------------------------ bodies
    def call_body(self, body, args, subst, pc, state, parent, site, close=False):
        """returns (ret, pc, state); state is consumed"""
        fr = Frame()
        fr.body = body
        fr.uid = body.get('d')
        fr.subst = subst
        fr.parent = parent
        fr.depth = 0 if parent is None else parent.depth + 1
        fr.key = self.fkey(parent.key if parent else -1, site, fr.uid)
        fr.stack = (parent.stack if parent else ()) + (fr.uid,)
        self.visited[fr.uid] = self.visited.get(fr.uid, 0) + 1
        for i, v in enumerate(args):
            state[('L', fr.key, i + 1)] = v
        cfg = self.cfg(body)
        rets = []
        self.region(fr, cfg, None, 0, [(pc, state)], rets)
        rpc, st = self.merge(rets)
        if rpc == F:
            return mk('undef'), F, {}
        ret = st.get(('L', fr.key, 0))
        if ret is None:
            ret = UNIT
        if close:
            # a constant is the value behind the references it returns
            ret = self.close_refs(ret, st)
        # forget the callee's locals
        for k in [k for k in st if k[0] == 'L' and k[1] == fr.key]:
            del st[k]
        return ret, rpc, st

    def region(self, fr, cfg, loop, entry, inc0, rets):
        """evaluate the blocks of `loop` (or the whole body) in RPO.  Returns
        (back_edges [(pc,state)], exits {target: [(pc,state)]})"""
        blocks = cfg.loops[loop]['blocks'] if loop is not None else None
        inc = {entry: list(inc0)}
        back = []
        exits = {}
        order = cfg.rpo
        start = cfg.pos[entry]
        for b in order[start:]:
            if blocks is not None and b not in blocks:
                continue
            es = inc.pop(b, None)
            if not es:
                continue
            if b in cfg.loops and b != loop and cfg.loops[b]['parent'] == loop:
                for tgt, lst in self.loop(fr, cfg, b, es, rets).items():
                    for e in lst:
                        self.route(cfg, blocks, loop, tgt, e, inc, back, exits)
                continue
            pc, st = self.merge(es)
            if pc == F:
                continue
            for tgt, p2, s2 in self.block(fr, cfg, b, pc, st, rets):
                if p2 == F:
                    continue
                self.route(cfg, blocks, loop, tgt, (p2, s2), inc, back, exits)
        return back, exits

    def route(self, cfg, blocks, loop, tgt, e, inc, back, exits):
        if loop is not None and tgt == loop:
            back.append(e)
        elif blocks is not None and tgt not in blocks:
            exits.setdefault(tgt, []).append(e)
        else:
            inc.setdefault(tgt, []).append(e)

    # ------------------------------------------------------------ loops
    def loop(self, fr, cfg, hdr, es, rets):
        def body(pc, st):
            return self.region(fr, cfg, hdr, hdr, [(pc, st)], rets)
        return self.run_loop(fr, hdr, es, body, cfg.body['blocks'][hdr]['sp'], rets)

    def unrolled(self, pc, st, body, n):
        """a loop over a collection of known length, iteration by iteration; None if it does not end within n"""
        out = {}
        for i in range(n + 1):
            back, exits = body(pc, dict(st))
            for tgt, lst in exits.items():
                out.setdefault(tgt, []).extend(lst)
            bpc, bst = self.merge(back)
            if bpc == F:
                return out
            pc, st = bpc, bst
        return None

    def run_loop(self, fr, lkey, es, body, sp, rets):
        """body(pc, state) -> (back edges, exits); stabilises the loop symbols"""
        pc0, st0 = self.merge(es)
        if pc0 == F:
            return {}
        key = self.fkey('loop', fr.key, lkey)
        mod = {}          # (root, path) -> phi
        keep = {}         # (root, path) -> references inside the value which no iteration changes
        mark = (len(self.oblig), len(self.events), len(rets))
        ev0 = mark
        if self.o.get('unroll'):
            r = self.unrolled(pc0, st0, body, self.o['unroll'])
            if r is not None:
                return r
            del self.oblig[mark[0]:]
            del self.events[mark[1]:]
            del rets[mark[2]:]
        stack = self.__dict__.setdefault('lstack', [])
        for it in range(14):
            st = dict(st0)
            for (root, path), ph in mod.items():
                for p, r in keep.get((root, path), ()):
                    ph = self.setp(ph, p, r)
                self.write(st, root, path, ph)
            hs = dict(st)
            for k in [k for k, M in self.loops.items() if isinstance(M, Loop) and M.parent == key]:
                del self.loops[k]
            stack.append(key)
            try:
                back, exits = body(pc0, st)
            finally:
                stack.pop()
            bpc, bst = self.merge(back)
            new = False
            if bpc != F:
                for root in bst:
                    if root not in hs:
                        if root[0] == 'L':
                            continue
                        h = self.default(root)
                    else:
                        h = hs[root]
                    if bst[root] is h:
                        continue
                    for path in self.diff(h, bst[root], ()):
                        if not self.covered(mod, root, path):
                            # drop more specific entries
                            for k in [k for k in mod if k[0] == root and k[1][:len(path)] == path]:
                                del mod[k]
                            mod[(root, path)] = mk('phi', key, self.rootname(root, fr), path)
                            if root in st0 or root[0] != 'L':
                                ks = self.refpaths(self.read(st0, root, path))
                                if ks:
                                    keep[(root, path)] = ks
                            new = True
                for (root, path), ks in list(keep.items()):
                    if (root, path) in mod and root in bst and not new:
                        v = self.read(bst, root, path)
                        ok_ = [(p, r) for p, r in ks if self.keeps(v, p, r)]
                        if len(ok_) != len(ks):
                            keep[(root, path)] = ok_
                            new = True
            if not new:
                break
            if it == 12:
                raise TooComplex('loop did not stabilise in %s' % fr.uid)
            del self.oblig[mark[0]:]
            del self.events[mark[1]:]
            del rets[mark[2]:]
        L = Loop()
        L.key = key
        L.parent = stack[-1] if stack else None
        L.pc = pc0
        L.back_pc = bpc
        L.phis = {}
        L.uid = fr.uid
        L.file, L.line = sp
        L.stack = fr.stack
        L.blocks = None
        L.hdr = lkey
        L.synthetic = isinstance(lkey, tuple)
        for (root, path), ph in mod.items():
            init = self.read(st0, root, path) if (root in st0 or root[0] != 'L') else mk('undef')
            step = self.read(bst, root, path) if bpc != F else ph
            L.phis[ph] = (init, step, root, path)
            self.phi_info[ph] = (key, init, step)
            if ph.meta is None and (step.op == 'b' or init.op == 'b'):
                ph.meta = 'bool'
        L.exits = [(c, tgt) for tgt, lst in exits.items() for c, _ in lst]
        L.oblig = self.oblig[mark[0]:]
        L.events = self.events[mark[1]:]
        L.rets = rets[mark[2]:]
        self.loops[key] = L
        if bpc != F:
            exits = self.summarise(L, exits)
        return exits

    def refpaths(self, v, path=()):
        """references inside an aggregate: [(path, reference)]"""
        if v.op == 'ref':
            return [(path, v)] if path else []
        if v.op != 'agg' or len(path) > 5 or v.a[0] in ('array', 'closure'):
            return []
        out = []
        for i, x in enumerate(v.a[2]):
            if x.op in ('ref', 'agg'):
                out += self.refpaths(x, path + (('f', i) if self.structlike(v) else ('v', v.a[1], i),))
        return out

    def keeps(self, v, path, r):
        """wherever the part of v at path exists it is the reference r"""
        if not path:
            return v is r
        if v.op == 'gam':
            return all(self.keeps(x, path, r) for _, x in v.a[0])
        k = path[0]
        if v.op == 'undef' or v.op == 'agg' and k[0] == 'v' and v.a[1] != k[1]:
            return True
        if v.op in ('agg', 'upd'):
            return self.keeps(self.getp(v, k), path[1:], r)
        return False

    def rootname(self, root, fr):
        # make the loop symbol readable and independent from temporaries
        return root

    def write_phi(self, st, root, path, ph):
        try:
            self.write(st, root, path, ph)
        except RecursionError:
            raise

    def covered(self, mod, root, path):
        for i in range(len(path) + 1):
            if (root, path[:i]) in mod:
                return True
        return False

    def diff(self, h, b, path):
        """paths at which value b differs from h"""
        if h is b:
            return []
        if len(path) < 6:
            if h.op == 'agg' and b.op == 'agg' and h.a[:2] == b.a[:2] and len(h.a[2]) == len(b.a[2]) and h.a[0] != 'array':
                r = []
                for i in range(len(h.a[2])):
                    k = ('f', i) if self.structlike(h) else ('v', h.a[1], i)
                    r += self.diff(h.a[2][i], b.a[2][i], path + (k,))
                return r
            if upd_base(h) is upd_base(b) and (h.op == 'upd' or b.op == 'upd'):
                ks = {}
                for k, _ in upd_items(h) + upd_items(b):
                    ks[k] = 1
                r = []
                for k in ks:
                    r += self.diff(getk(h, k), getk(b, k), path + (k,))
                return r
        return [path]

    def structlike(self, v):
        d = v.a[0]
        if d in ('tuple', 'closure') or str(d).startswith('it:'):
            return True
        a = self.p.adts.get(d)
        if a is not None:
            return not a['enum']
        return d not in (OPT, RES, CF)

    # loop summaries -------------------------------------------------------
    def summarise(self, L, exits):
        import loops
        return loops.summarise(self, L, exits)

    def subst_state(self, st, m):
        out = {}
        keys = set(m)
        for k, v in st.items():
            if has_any(v, keys):
                v = subst(v, m)
            out[k] = v
        return out

    # ------------------------------------------------------------ blocks
    def block(self, fr, cfg, b, pc, st, rets):
        blk = fr.body['blocks'][b]
        self.steps += 1
        if self.steps > self.budget:
            raise TooComplex('budget exceeded in %s' % fr.uid)
        for s in blk['s']:
            if s[0] == '=':
                v = self.rvalue(fr, st, s[2], pc, s[3], s[1])
                self.assign(fr, st, s[1], v, pc)
            elif s[0] == 'sd':
                old = self.read_place(fr, st, s[1])
                adt = self.place_adt(fr, s[1])
                self.assign(fr, st, s[1], agg(adt, s[2], ()) if old.op in ('undef',) else mk('call', 'withvariant', old, s[2]), pc)
        t = blk['t']
        k = t[0]
        if k == 'goto':
            return [(t[1], pc, st)]
        if k == 'drop':
            return [(t[2 - 0] if False else t[2], pc, st)]
        if k == 'ret':
            rets.append((pc, st))
            return []
        if k in ('unreachable', 'resume'):
            return []
        if k == 'switch':
            return self.switch(fr, st, t, pc)
        if k == 'assert':
            self.do_assert(fr, st, t, pc, blk['sp'])
            return [(t[4], pc, st)]
        if k == 'call':
            return self.call(fr, st, t, pc, blk['sp'], b)
        return []

    def switch(self, fr, st, t, pc):
        v = self.operand(fr, st, t[1], pc)
        ty = self.p.rt(t[2], fr.subst)
        rest = pc
        out = []
        v = restrict(v, pc)
        for val, tgt in t[3]:
            c = self.eqconst(v, val, ty)
            p2 = band(rest, c)
            rest = band(rest, bnot(c))
            if p2 != F:
                out.append((tgt, p2, dict(st)))
        if rest != F:
            out.append((t[4], rest, st))
        return out

    def eqconst(self, v, val, ty):
        if ty == ('bool',):
            b = as_bdd(v)
            return b if val else bnot(b)
        if v.op == 'gam':
            r = F
            for c, x in v.a[0]:
                r = bor(r, band(c, self.eqconst(x, val, ty)))
            return r
        if v.op == 'discr':
            base, table, n = v.a
            for dv, vi in table:
                if dv == val or (ty == ('prim', 'isize') and dv == val):
                    return is_variant(base, vi, n)
            return F
        if v.op == 'undef':
            return F
        if ty[0] == 'prim' and ty[1][0] == 'i' and val >= (1 << 63):
            val -= (1 << 64) if ty[1] in ('isize', 'i64') else 0
        return as_bdd(cmp('eq', v, num(val), False))

    def do_assert(self, fr, st, t, pc, sp):
        cond = self.operand(fr, st, t[1], pc)
        c = as_bdd(restrict(cond, pc))
        if not t[2]:
            c = bnot(c)
        m = t[3]
        info = None
        if m[0] == 'bounds':
            info = (self.operand(fr, st, m[1], pc), self.operand(fr, st, m[2], pc))
            desc = 'index out of bounds'
        elif m[0] == 'overflow':
            a, b_ = self.operand(fr, st, m[2], pc), self.operand(fr, st, m[3], pc)
            info = (m[1], a, b_, self.op_type(fr, m[2]))
            desc = 'arithmetic overflow in %s' % m[1]
        elif m[0] == 'overflowneg':
            info = (self.operand(fr, st, m[1], pc),)
            desc = 'negation overflow'
        elif m[0] in ('div0', 'rem0'):
            info = (self.operand(fr, st, m[1], pc),)
            desc = 'division by zero'
        else:
            desc = m[0]
        self.obligation(fr, m[0], pc, c, sp, desc, info)

    def op_type(self, fr, o):
        if 'k' in o:
            return self.p.rt(o['k']['t'], fr.subst)
        pl = o.get('c') or o.get('m')
        return self.place_type(fr, pl)

    def obligation(self, fr, kind, pc, ok, sp, desc, info=None):
        o = Oblig()
        o.kind = kind
        o.pc = pc
        o.ok = ok
        o.uid = fr.uid
        o.file, o.line = sp
        o.desc = desc
        o.stack = fr.stack
        o.info = info
        self.oblig.append(o)

    def event(self, fr, kind, pc, name, args, sp, info=None, term=None):
        e = Event()
        e.kind = kind
        e.pc = pc
        e.name = name
        e.args = args
        e.uid = fr.uid
        e.file, e.line = sp
        e.stack = fr.stack
        e.info = info
        e.term = term
        self.events.append(e)
        return e

    # ------------------------------------------------------------ places
    BOXY = ('alloc::boxed::Box', 'core::ptr::unique::Unique', 'core::ptr::non_null::NonNull')

    def boxy(self, t):
        return t[0] == 'adt' and t[1] in self.BOXY

    def place_type(self, fr, pl):
        t = self.p.rt(fr.body['locals'][pl[0]][0], fr.subst)
        for e in pl[1]:
            t = self.proj_type(fr, t, e)
        return t

    def proj_type(self, fr, t, e):
        if e == '*':
            if t[0] in ('ref',):
                return t[2]
            if t[0] == 'ptr':
                return t[1]
            if self.boxy(t):
                return t[2][0] if t[2] else ('other', '?')
            return ('other', '?')
        if e[0] == 'f':
            return self.p.rt(e[2], fr.subst)
        if e[0] in ('i', 'c'):
            if t[0] in ('slice', 'array'):
                return t[1]
            return ('other', '?')
        if e[0] == 's':
            return t
        return t

    def place_adt(self, fr, pl):
        t = self.place_type(fr, pl)
        return t[1] if t[0] == 'adt' else '?'

    def resolve(self, fr, st, pl):
        """place -> term: a 'ref' term (or gated refs) denoting the location"""
        root = ('L', fr.key, pl[0])
        cur = mk('ref', root, ())
        if not pl[1]:
            return cur
        t = self.p.rt(fr.body['locals'][pl[0]][0], fr.subst)
        i = 0
        proj = pl[1]
        n = len(proj)
        variant = None
        while i < n:
            e = proj[i]
            if e == '*':
                if not self.boxy(t):
                    v = self.read_loc(st, cur)
                    cur = v if v.op in ('ref', 'gam') else mk('ref', ('M', self.pointee(st, v) if ('M', v) not in st else v), ())
                    if v.op == 'gam':
                        cur = gam([(c, x if x.op == 'ref' else mk('ref', ('M', x), ())) for c, x in v.a[0]])
                t = self.proj_type(fr, t, e)
                variant = None
            elif e[0] == 'f':
                if not self.boxy(t):
                    k = ('f', e[1]) if variant is None else ('v', variant, e[1])
                    cur = self.ext(cur, k)
                t = self.p.rt(e[2], fr.subst)
                variant = None
            elif e[0] == 'd':
                variant = e[1]
            elif e[0] == 'i':
                idx = self.rd_root(st, ('L', fr.key, e[1]))
                cur = self.ext(cur, ('i', idx))
                t = self.proj_type(fr, t, e)
            elif e[0] == 'c':
                if e[3]:
                    v = self.read_loc(st, cur)
                    idx = sub(length(v), num(e[1]))
                else:
                    idx = num(e[1])
                cur = self.ext(cur, ('i', idx))
                t = self.proj_type(fr, t, e)
            elif e[0] == 's':
                v = self.read_loc(st, cur)
                to = sub(length(v), num(e[2])) if e[3] else num(e[2])
                cur = mk('ref', ('M', subslice(v, num(e[1]), to)), ())
            i += 1
        return cur

    def ext(self, r, k):
        if r.op == 'gam':
            return gam([(c, self.ext(v, k)) for c, v in r.a[0]])
        if r.op != 'ref':
            return mk('ref', ('M', r), (k,))
        # canonicalise ('M', term) roots: path folded into the term only when reading
        return mk('ref', r.a[0], r.a[1] + (k,))

    def read_loc(self, st, r):
        if r.op == 'gam':
            return gam([(c, self.read_loc(st, v)) for c, v in r.a[0]])
        return self.read(st, r.a[0], r.a[1])

    def read_place(self, fr, st, pl):
        if not pl[1]:
            return self.rd_root(st, ('L', fr.key, pl[0]))
        r = self.resolve(fr, st, pl)
        return self.read_loc(st, r)

    def assign(self, fr, st, pl, v, pc):
        if not pl[1]:
            st[('L', fr.key, pl[0])] = v
            return
        r = self.resolve(fr, st, pl)
        if r.op == 'gam':
            r = restrict(r, pc)
        if r.op == 'gam':
            for c, x in r.a[0]:
                old = self.read_loc(st, x)
                self.write(st, x.a[0], x.a[1], gam([(c, restrict(v, c)), (bnot(c), old)]))
        elif r.op == 'ref':
            self.write(st, r.a[0], r.a[1], v)
            if r.a[0][0] in ('E', 'M'):
                self.note_write(fr, st, r, v, pc)

    def note_write(self, fr, st, r, v, pc):
        pass

    # ------------------------------------------------------------ operands / rvalues
    def operand(self, fr, st, o, pc):
        if 'k' in o:
            return self.const(fr, st, o['k'])
        pl = o.get('c') or o.get('m')
        if pl is None:
            return mk('undef')
        v = self.read_place(fr, st, pl)
        # pointer obtained from inside a box: keep it as a reference to the box's contents
        if pl[1]:
            t = self.place_type(fr, pl)
            if self.boxy(t) or t[0] == 'ptr':
                t0 = self.p.rt(fr.body['locals'][pl[0]][0], fr.subst)
                cross = self.boxy(t0)
                tt = t0
                for e in pl[1]:
                    if self.boxy(tt):
                        cross = True
                    tt = self.proj_type(fr, tt, e)
                if cross and (t[1] == 'core::ptr::non_null::NonNull' or t[0] == 'ptr'):
                    return self.resolve(fr, st, pl)
        if v.op == 'gam':
            v = restrict(v, pc)
        return v

    def const(self, fr, st, k):
        t = self.p.rt(k['t'], fr.subst)
        if 'fn' in k:
            f = k['fn']
            return mk('fn', f['d'], self.fn_args(f['a'], fr.subst), f.get('r'), self.fn_args(f.get('ra', ()), fr.subst), f.get('rk'), f['p'], f.get('tr'), f.get('m'))
        if 'v' in k:
            v = k['v']
            if isinstance(v, bool):
                return B(T if v else F)
            if isinstance(v, str):
                return mk('fconst', v)
            return num(v)
        if 'prom' in k and k.get('u') == fr.uid or ('prom' in k and k.get('u') in self.p.bodies):
            b = self.p.bodies[k['u']]['prom'][k['prom']]
            b2 = dict(b)
            b2['d'] = k['u'] + '{promoted#%d}' % k['prom']
            kk = ('prom', k['u'], k['prom'])
            b2 = self.prombody(kk, b2)
            fr2 = Frame()
            ret, rpc, s2 = self.call_body(b2, [], fr.subst, T, {}, fr, kk, close=True)
            return ret
        if 'str' in k:
            return mk('str', k['str'])
        if 'bytes' in k:
            return mk('bytes', bytes(k['bytes']))
        if 'dbg' in k:
            b = parse_bytes(k['dbg'])
            if b is not None:
                return mk('bytes', b)
        if 'static' in k:
            return mk('ref', ('E', 'static ' + k['static']), ())
        if 'u' in k and k['u'] in self.p.bodies and 'prom' not in k:
            b = self.p.bodies[k['u']]
            sb = self.fn_args(k.get('ua', ()), fr.subst)
            ret, rpc, s2 = self.call_body(b, [], sb, T, {}, fr, ('const', k['u']), close=True)
            return ret
        if t[0] == 'tuple' and t[1] == ():
            return UNIT
        if t[0] == 'adt' and t[1] == 'core::marker::PhantomData':
            return agg(t[1], 0, ())
        if t[0] == 'closure':
            return agg('closure', t[1], ())
        if t[0] == 'adt' and t[1] in self.p.adts:
            a = self.p.adts[t[1]]
            if not a['enum'] and not a['v'][0][1]:
                return agg(t[1], 0, ())
            if a['enum']:
                m = re.search(r'::(\w+)$', k.get('txt', ''))
                if m:
                    for i, (n, fs) in enumerate(a['v']):
                        if n == m.group(1) and not fs:
                            return agg(t[1], i, ())
        if t[0] == 'adt' and t[1] == OPT and k.get('txt', '').endswith('None'):
            return NONE
        return mk('const', k.get('u') or k.get('txt', '?'), repr(t))

    _pb = {}

    def prombody(self, kk, b):
        k = (id(self.p), kk)
        if k not in self._pb:
            self._pb[k] = b
        return self._pb[k]

    def close_refs(self, v, st, d=0):
        if d > 8:
            return v
        if v.op == 'ref':
            return self.close_refs(self.read(st, v.a[0], v.a[1]), st, d + 1)
        if v.op == 'agg':
            return mk('agg', v.a[0], v.a[1], tuple(self.close_refs(x, st, d + 1) for x in v.a[2]))
        return v

    def fn_args(self, a, subst):
        return self.p.args(a or (), subst)

    def rvalue(self, fr, st, r, pc, sp, dest):
        k = r[0]
        if k == 'use':
            return self.operand(fr, st, r[1], pc)
        if k in ('ref', 'reborrow'):
            loc = self.resolve(fr, st, r[2])
            return self.simpl_ref(st, loc)
        if k == 'rawptr':
            return self.resolve(fr, st, r[1])
        if k == 'bin':
            return self.binop(fr, st, r, pc)
        if k == 'un':
            v = self.operand(fr, st, r[2], pc)
            if r[1] == 'Not':
                t = self.p.rt(r[3], fr.subst)
                if t == ('bool',):
                    return B(bnot(as_bdd(v)))
                return mk('call', 'bitnot', (v,))
            if r[1] == 'Neg':
                if TM.IEEE[0] and self.p.rt(r[3], fr.subst) in (('prim', 'f64'), ('prim', 'f32')):
                    return TM._dist1(lambda x: TM.ieee('neg', x), v)
                return neg(v)
            if r[1] == 'PtrMetadata':
                return length(self.read_ref(st, v))
            return mk('call', r[1], (v,))
        if k == 'discr':
            v = self.read_place(fr, st, r[1])
            v = restrict(v, pc)
            if v.op == 'ref':
                v = self.read_ref(st, v)
            n = len(r[3])
            table = tuple((d, i) for d, i in r[3])
            if v.op == 'gam':
                return gam([(c, self.mkdiscr(x, table, n)) for c, x in v.a[0]])
            return self.mkdiscr(v, table, n)
        if k == 'agg':
            ch = [self.operand(fr, st, o, pc) for o in r[2]]
            a = r[1]
            if a[0] == 'tuple':
                return agg('tuple', 0, ch) if ch else UNIT
            if a[0] == 'array':
                return agg('array', 0, ch)
            if a[0] == 'adt':
                if a[1] in self.BOXY:
                    return ch[0] if ch else mk('undef')
                return agg(a[1], a[2], ch)
            if a[0] == 'closure':
                # closure values remember the generic context they were created in
                return mk('agg', 'closure', a[1], tuple(ch))
            return mk('call', 'aggother', tuple(ch))
        if k == 'cast':
            v = self.operand(fr, st, r[2], pc)
            return self.cast(fr, r[1], v, self.p.rt(r[3], fr.subst), self.p.rt(r[4], fr.subst), pc, sp)
        if k == 'repeat':
            v = self.operand(fr, st, r[1], pc)
            m = re.match(r'^(\d+)', str(r[2]))
            if m:
                n = int(m.group(1))
                if n <= 64:
                    return agg('array', 0, [v] * n)
                return mk('rep', v, num(n))
            return mk('rep', v, sym('const ' + str(r[2])))
        return mk('call', 'rv_' + str(k), ())

    def simpl_ref(self, st, loc):
        # a reference to an opaque external value read through a non-reference pointer
        return loc

    def mkdiscr(self, v, table, n):
        if v.op == 'agg':
            for d, i in table:
                if i == v.a[1]:
                    return num(d)
        if v.op == 'undef':
            return v
        if v.op == 'upd':
            for k, x in v.a[1]:
                if k[0] == 'v' and not (v.a[0].op == 'phi' and keptrefs(x)):
                    for d, i in table:
                        if i == k[1]:
                            return num(d)
            v = v.a[0]
            return self.mkdiscr(v, table, n)
        return mk('discr', v, table, n)

    INTW = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'u128': 128, 'usize': 64,
            'i8': 7, 'i16': 15, 'i32': 31, 'i64': 63, 'i128': 127, 'isize': 63}

    def note_dyn(self, v, t):
        """remember what a trait object was made from"""
        if v.op == 'gam':
            for _, x in v.a[0]:
                self.note_dyn(x, t)
            return
        if v in self.dynty and self.dynty[v] != t:
            t = None
        self.dynty[v] = t

    def cast(self, fr, kind, v, ft, tt, pc, sp):
        if 'Unsize' in kind and ft[0] in ('ref', 'ptr') and tt[0] == ft[0] and tt[2] is not None and tt[2][0] == 'dyn':
            if ft[2] is not None and ft[2][0] in ('adt', 'closure', 'prim', 'array', 'tuple'):
                self.note_dyn(v, ft[2])
            return v
        if kind.startswith('IntToInt'):
            if v.op == 'b':
                return gam([(v.a[0], num(1)), (bnot(v.a[0]), num(0))])
            if ft == ('bool',):
                c = as_bdd(v)
                return gam([(c, num(1)), (bnot(c), num(0))])
            f, t = ft[1] if len(ft) > 1 else 'char', tt[1] if len(tt) > 1 else 'char'
            fw, tw = self.INTW.get(f, 21), self.INTW.get(t, 21)
            fs, ts = f[0] == 'i', t[0] == 'i'
            lossless = (fw <= tw) and (not fs or ts)
            if lossless:
                return v
            cv = const_val(v)
            if cv is not None:
                lo = -(1 << tw) if ts else 0
                if lo <= cv < (1 << tw):
                    return v
            self.event(fr, 'narrow', pc, '%s as %s' % (f, t), (v,), sp, (f, t))
            return TM._dist1(lambda x: mk('trunc', f, t, x), v)
        if kind.startswith('FloatToInt'):
            return TM._dist1(lambda x: mk('f2i', tt[1], x), v)
        if kind.startswith('IntToFloat') or kind.startswith('FloatToFloat'):
            if kind.startswith('FloatToFloat') and tt == ('prim', 'f32'):
                return TM._dist1(lambda x: mk('f32', x) if const_val(x) is None else x, v)
            return v
        return v

    CMP = {'Lt': 'lt', 'Le': 'le', 'Gt': 'gt', 'Ge': 'ge', 'Eq': 'eq', 'Ne': 'ne'}

    def binop(self, fr, st, r, pc):
        op = r[1]
        a = self.operand(fr, st, r[2], pc)
        b = self.operand(fr, st, r[3], pc)
        t = self.p.rt(r[4], fr.subst)
        isf = t[0] == 'prim' and t[1][0] == 'f'
        return self.binop_v(op, a, b, t, isf)

    def binop_v(self, op, a, b, t, isf):
        if op in self.CMP:
            return cmp(self.CMP[op], a, b, isf)
        if t == ('bool',):
            x, y = as_bdd(a), as_bdd(b)
            if op == 'BitAnd':
                return B(band(x, y))
            if op == 'BitOr':
                return B(bor(x, y))
            if op == 'BitXor':
                return B(bxor(x, y))
        ov = op.endswith('WithOverflow')
        o = op.replace('WithOverflow', '').replace('Unchecked', '')
        if isf and TM.IEEE[0] and o in ('Add', 'Sub', 'Mul', 'Div', 'Rem'):
            return TM._dist2(lambda x, y: TM.ieee(o.lower(), x, y), a, b)
        if o == 'Add' and isf and self.o.get('poszero') and (const_val(a) == 0 or const_val(b) == 0):
            # x + 0.0 is x without the sign of zero
            v = mk('call', 'poszero', (b if const_val(a) == 0 else a,))
        elif o == 'Add':
            v = add(a, b)
        elif o == 'Sub':
            v = sub(a, b)
        elif o == 'Mul':
            v = mul(a, b)
        elif o == 'Div':
            v = fdiv(a, b) if isf else idiv(a, b)
        elif o == 'Rem':
            v = irem(a, b) if not isf else mk('call', 'frem', (a, b))
        else:
            ca, cb = const_val(a), const_val(b)
            v = None
            if ca is not None and cb is not None and ca.denominator == 1 and cb.denominator == 1 and ca >= 0 and cb >= 0:
                x, y = int(ca), int(cb)
                if o == 'BitAnd':
                    v = num(x & y)
                elif o == 'BitOr':
                    v = num(x | y)
                elif o == 'BitXor':
                    v = num(x ^ y)
                elif o == 'Shl':
                    v = num(x << y)
                elif o == 'Shr':
                    v = num(x >> y)
            if v is None:
                v = mk('call', o, (a, b))
                if o == 'Shl' and t[0] == 'prim' and t[1] in self.INTW:
                    v = TM._dist1(lambda x: mk('trunc', 'big', t[1], x), v)
        if ov:
            w = mk('ovf', o, a, b, t)
            return agg('tuple', 0, [v, B(atom(w))])
        return v

    # ------------------------------------------------------------ calls
    def call(self, fr, st, t, pc, sp, b):
        f = t[1]
        args = [self.operand(fr, st, o, pc) for o in t[2]]
        dest, tgt = t[3], t[4]
        atys = [self.p.rt(x, fr.subst) for x in t[5]]
        dty = self.p.rt(t[6], fr.subst)
        fn = self.operand(fr, st, f, pc)
        ret, rpc, st = self.invoke(fr, fn, args, atys, dty, pc, st, sp, b)
        if tgt < 0:
            return []
        if rpc == F:
            return []
        self.assign(fr, st, dest, ret, rpc)
        return [(tgt, rpc, st)]

    def invoke(self, fr, fn, args, atys, dty, pc, st, sp, b):
        """returns (ret, pc, state)"""
        if fn.op != 'fn':
            # indirect call through a value
            return self.opaque(fr, 'indirect', (fn,) + tuple(args), [None] + list(atys), dty, pc, st, sp)
        d, a, r, ra, rk, path, tr, m = fn.a
        if dty is not None and dty[0] == 'adt' and dty[2] and dty[1] in self.p.adts:
            self.adtargs.setdefault(dty[1], set()).add(dty[2])
        flt = self.o.get('fault')
        if flt is not None and flt[0] == fr.uid and flt[1] == b:
            self.fault_hits += 1
            st[('E', 'fault passed')] = B(T)
            return restrict(flt[2], pc), pc, st
        tgt = self.resolve_callee(d, a, r, ra, rk, tr, m, args, st)
        name = strip_generics(path)
        if tr:
            name = tr.split('::')[-1] + '::' + m
        if tgt is not None:
            uid, sub = tgt
            body = self.p.bodies.get(uid)
            if body is not None and self.may_inline(fr, uid):
                self.inline_hook(fr, uid, args, pc, st, sp, dty)
                return self.call_body(body, args, sub, pc, st, fr, (b, sp[1], uid))
            if body is not None:
                name = body['p']
                prims = [t[1] for t in sub if t and t[0] == 'prim'] if uid in self.noinline and self.o.get('typed') else []
                if len(prims) == 1:
                    name += ':' + prims[0]
        mod = self.models.lookup(d, name, tr, m)
        if mod is not None:
            res = mod(self, Call(fr, d, a, name, tr, m, args, atys, dty, pc, st, sp, b))
            if res is not None:
                return res
        if tr is not None:
            nm = tr.split('::')[-1] + '::' + m
            if nm == 'FromStr::from_str' and self.o.get('typed') and dty[0] == 'adt' and dty[2] and dty[2][0][0] == 'prim':
                nm += ':' + dty[2][0][1]
        else:
            nm = name
        return self.opaque(fr, nm, tuple(args), atys, dty, pc, st, sp, (d, a, tr))

    def inline_hook(self, fr, uid, args, pc, st, sp, dty):
        pass

    def may_inline(self, fr, uid):
        if uid in self.noinline:
            return False
        if fr.depth >= MAXDEPTH:
            return False
        if fr.stack.count(uid) > 0:
            return False
        f = self.o.get('inline')
        if f is not None and not f(uid, fr):
            return False
        return True

    def resolve_callee(self, d, a, r, ra, rk, tr, m, args, st):
        """-> (uid of a body in the crate, subst) or None"""
        if tr is not None:
            ntg = len(self.p.traits[tr]['g']) if tr in self.p.traits else None
            st0 = a[0] if a else None
            if st0 is not None and st0[0] == 'dyn' and args:
                x = args[0]
                ts = {self.dynty.get(y) for _, y in x.a[0]} if x.op == 'gam' else {self.dynty.get(x)}
                if len(ts) == 1 and None not in ts:
                    st0 = ts.pop()
                    a = (st0,) + tuple(a[1:])
            if st0 is not None and st0[0] not in ('param', 'alias', 'dyn', 'other'):
                res = self.p.find_impl(tr, a if ntg is None else a[:ntg])
                if res is not None:
                    im, sub = res
                    for n, u in im['m']:
                        if n == m:
                            nt = ntg if ntg is not None else len(im['ta'])
                            return u, sub + tuple(a[nt:])
                    if d in self.p.bodies:
                        return d, a
            if r is not None and rk == 'item' and r in self.p.bodies:
                if m in ('call', 'call_mut', 'call_once') and len(args) == 2 and args[1].op != 'undef':
                    return None             # a closure called directly: its arguments come as a tuple
                return r, ra
            if d in self.p.bodies and tr in self.p.traits:
                # provided method: use it when the crate never overrides it
                if not self.p.method_impls.get((tr, m)):
                    return d, a
                if st0 is not None and st0[0] not in ('param', 'alias', 'dyn', 'other'):
                    return d, a
            return None
        if rk == 'item' and r in self.p.bodies:
            return r, ra
        if d in self.p.bodies:
            return d, a
        return None

    # uninterpreted calls ---------------------------------------------------
    def deep_read(self, st, v, d=0):
        """value with references replaced by what they point to (for argument terms)"""
        if v.op == 'ref':
            if d > 6:
                return v
            return self.deep_read(st, self.read(st, v.a[0], v.a[1]), d + 1)
        if v.op == 'gam':
            return gam([(c, self.deep_read(st, x, d + 1)) for c, x in v.a[0]])
        if v.op == 'agg' and d < 6 and any(self.hasref(x) for x in v.a[2]):
            return mk('agg', v.a[0], v.a[1], tuple(self.deep_read(st, x, d + 1) for x in v.a[2]))
        if v.op not in ('p', 'b', 'str', 'bytes', 'sym'):
            m = st.get(('M', v))
            if m is not None and d < 6 and m is not v:
                return m
        return v

    def hasref(self, v, d=0):
        if v.op == 'ref':
            return True
        if v.op == 'agg' and d < 5:
            return any(self.hasref(x, d + 1) for x in v.a[2])
        if v.op == 'gam' and d < 5:
            return any(self.hasref(x, d + 1) for _, x in v.a[0])
        return False

    def captures(self, st, v, d=0, at=None):
        """mutable references captured by the closure behind v (None: v is not a closure)"""
        if d > 8:
            return None
        if v.op == 'ref':
            return self.captures(st, self.read(st, v.a[0], v.a[1]), d + 1, v)
        if v.op == 'gam':
            rs = [self.captures(st, x, d + 1) for _, x in v.a[0]]
            if all(r is None for r in rs):
                return None
            return [y for r in rs if r for y in r]
        if v.op == 'agg' and v.a[0] == 'closure':
            body = self.p.bodies.get(v.a[1])
            mut = {}
            for _, (_, proj) in (body.get('upv') or [] if body else []):
                for e in proj:
                    if e[0] == 'f':
                        t = self.p.rt(e[2])
                        mut[e[1]] = t[0] != 'ref' or bool(t[1])
                        break
            out = []
            for i, x in enumerate(v.a[2]):
                if x.op != 'ref' and not (x.op == 'gam' and self.hasref(x)):
                    if at is not None:
                        out.append(mk('ref', at.a[0], at.a[1] + (('f', i),)))
                    continue
                inner = self.captures(st, x, d + 1)
                if inner is not None:
                    out += inner
                elif mut.get(i, True):
                    out.append(x)
            return out
        return None

    def mutrefs(self, st, v, ty, d=0):
        """mutable references an argument value gives the callee access to"""
        out = []
        if ty is not None and ty[0] == 'ref':
            caps = self.captures(st, v)
            if caps is not None and not ty[1]:
                caps = [x for x in caps if x.op != 'ref' or v.op != 'ref' or x.a[0] != v.a[0]]
            if caps is not None:
                return caps
            if ty[1]:
                t = ty[2]
                while t is not None and t[0] == 'ref' and t[1] and v.op == 'ref':
                    w = self.read(st, v.a[0], v.a[1])
                    if w.op != 'ref':
                        break
                    v, t = w, t[2]
                out.append(v)
            return out
        if ty is not None and ty[0] == 'tuple' and v.op == 'agg' and len(v.a[2]) == len(ty[1]):
            for x, t in zip(v.a[2], ty[1]):
                out += self.mutrefs(st, x, t, d + 1)
        else:
            out += self.captures(st, v) or []
        return out

    def opaque(self, fr, name, args, atys, dty, pc, st, sp, fnid=None, ev='call'):
        vals = tuple(self.deep_read(st, x) for x in args)
        term = mk('call', name, vals)
        if dty == ('bool',) and term.meta is None:
            term.meta = 'bool'
        self.event(fr, ev, pc, name, vals, sp, (fnid, atys, dty), term)
        self.unknown_calls[name] = self.unknown_calls.get(name, 0) + 1
        k = 0
        for x, ty in zip(args, atys):
            for r in self.mutrefs(st, x, ty):
                self.havoc(st, r, mk('post', term, k), pc)
                k += 1
            if x.op == 'agg' and x.a[0] == 'hm:entry':
                self.havoc(st, x.a[2][0], mk('post', term, k), pc)
                k += 1
        if dty == ('bool',):
            return B(atom(term)), pc, st
        if dty == ('never',):
            self.obligation(fr, 'panic', pc, F, sp, 'call to diverging %s' % name)
            return term, F, st
        return self.shape(term, dty), pc, st

    def shape(self, term, ty):
        if ty[0] == 'tuple':
            if not ty[1]:
                return UNIT
            return agg('tuple', 0, [self.shape(mk('fld', term, i), x) for i, x in enumerate(ty[1])])
        if ty == ('bool',):
            term.meta = 'bool'
            return B(atom(term))
        return term

    def havoc(self, st, r, val, pc):
        if r.op == 'gam':
            for c, x in r.a[0]:
                self.havoc(st, x, gam([(c, val), (bnot(c), self.read_ref(st, x))]), pc)
            return
        self.write_ref(st, r, val, pc)

    # closures ------------------------------------------------------------------
    def call_value(self, fr, f, args, pc, st, sp, b, dty=None):
        """call a closure / fn item / opaque callable with already evaluated args"""
        fv = f
        n = 0
        while fv.op == 'ref' and n < 5:
            inner = self.read(st, fv.a[0], fv.a[1])
            if inner.op == 'ref':
                fv = inner
                n += 1
                continue
            break
        val = self.read_ref(st, fv) if fv.op == 'ref' else fv
        if val.op == 'gam':
            val = restrict(val, pc)
        if val.op == 'agg' and val.a[0] == 'closure':
            body = self.p.bodies.get(val.a[1])
            if body is not None and self.may_inline(fr, val.a[1]):
                selfty = self.p.tys[body['locals'][1][0]]
                if selfty['k'] == 'ref':
                    if fv.op == 'ref':
                        sv = fv
                    else:
                        root = ('L', fr.key, 'clo%s_%s' % (b, val.a[1]))
                        st[root] = val
                        sv = mk('ref', root, ())
                else:
                    sv = val
                sub = self.closure_subst(fr, body)
                return self.call_body(body, [sv] + list(args), sub, pc, st, fr, ('clo', b, sp[1], val.a[1]))
        if val.op == 'fn':
            d, a, r, ra, rk, path, tr, m = val.a
            atys = self.fn_atys(d, a)
            # tuple-struct / variant constructors
            ctor = self.ctor(d, args)
            if ctor is not None:
                return ctor, pc, st
            return self.invoke(fr, val, list(args), atys or [None] * len(args), dty or ('other', '?'), pc, st, sp, b)
        return self.opaque(fr, 'apply', (f,) + tuple(args), [None] + [None] * len(args), dty or ('other', '?'), pc, st, sp, ev='apply')

    def ctor(self, d, args):
        if d in ('core::option::Option::Some', 'core::option::Option::Some::{constructor#0}'):
            return some(args[0])
        if d in ('core::result::Result::Ok', 'core::result::Result::Ok::{constructor#0}'):
            return ok(args[0])
        if d in ('core::result::Result::Err', 'core::result::Result::Err::{constructor#0}'):
            return err(args[0])
        base = re.sub(r'::\{constructor#0\}$', '', d)
        if base in self.p.adts:
            return agg(base, 0, args)
        en, _, vn = base.rpartition('::')
        a = self.p.adts.get(en)
        if a:
            for i, (n, fs) in enumerate(a['v']):
                if n == vn:
                    return agg(en, i, args)
        return None

    def fn_atys(self, d, a):
        b = self.p.bodies.get(d)
        if b is None:
            return None
        return [self.p.rt(b['locals'][i + 1][0], a) for i in range(b['argc'])]

    def closure_subst(self, fr, body):
        # a closure's generics start with those of its parent: reuse the frame that is lexically enclosing
        parent = body.get('parent')
        f = fr
        while f is not None:
            if f.uid == parent:
                n = len(self.p.bodies[parent]['g']) if parent in self.p.bodies else 0
                return tuple(f.subst[:n])
            f = f.parent
        return self.param_subst(body)


CF = 'core::ops::control_flow::ControlFlow'


class Call:
    __slots__ = ('fr', 'd', 'a', 'name', 'tr', 'm', 'args', 'atys', 'dty', 'pc', 'st', 'sp', 'b')

    def __init__(self, fr, d, a, name, tr, m, args, atys, dty, pc, st, sp, b):
        self.fr, self.d, self.a, self.name, self.tr, self.m = fr, d, a, name, tr, m
        self.args, self.atys, self.dty, self.pc, self.st, self.sp, self.b = args, atys, dty, pc, st, sp, b


class Result:
    """outcome of analysing an entry point"""

    def __init__(self, an, body, ret, pc, st):
        self.an, self.body, self.pc, self.st = an, body, pc, st
        self.ret_raw = ret
        self.ret = an.deep_read(st, ret) if pc != F else ret
        self.ret = simplify_under(self.ret, pc)

    def post(self, i):
        """final value behind the i-th (reference) argument"""
        v = self.an.rd_root(self.st, ('E', 'arg%d' % i))
        return simplify_under(self.an.deep_read(self.st, v), self.pc)

    def returns(self):
        """[(cond, value)]"""
        return cases(self.ret)


_sud = {}


def simplify_under(t, pc, d=0):
    """conditions are only meaningful where pc holds: drop what that implies"""
    if pc == T or pc == F:
        return t
    memo = _sud.setdefault(pc, {})
    return _su(t, pc, memo)


def _su(t, pc, memo):
    r = memo.get(t)
    if r is not None:
        return r
    op = t.op
    if op == 'gam':
        r = gam([(bconstrain(c, pc), _su(v, pc, memo)) for c, v in t.a[0] if band(c, pc) != F])
    elif op == 'b':
        r = B(bconstrain(t.a[0], pc))
    elif op in ('sym', 'bv', 'av', 'phi', 'str', 'bytes', 'fn', 'undef', 'const', 'ref', 'isv', 'lt0', 'eq0', 'discr', 'exists', 'first'):
        r = t
    elif not hascond(t):
        r = t
    elif op == 'p':
        m = {}
        for mono, c in t.a[0]:
            for x, e in mono:
                y = _su(x, pc, memo)
                if y is not x:
                    m[x] = y
        r = subst(t, m) if m else t
    else:
        def g(x):
            if isinstance(x, Term):
                return _su(x, pc, memo)
            if isinstance(x, tuple):
                return tuple(g(y) for y in x)
            return x
        r = mk(op, *[g(x) for x in t.a])
        if r is not t:
            if r.meta is None:
                r.meta = t.meta
            f = REBUILD.get(op)
            if f is not None:
                r = f(r)
    memo[t] = r
    return r


_hc = {}


def hascond(t):
    """does t contain gated values or conditions?"""
    r = _hc.get(t)
    if r is None:
        if t.op in ('gam', 'b'):
            r = True
        else:
            _hc[t] = False
            r = any(hascond(x) for x in children(t))
        _hc[t] = r
    return r


def gam_raw(cs):
    return gam(cs)


# ---------------------------------------------------------------- sequences
def length(v):
    """length of a sequence value"""
    if v.op == 'gam':
        return gam([(c, length(x)) for c, x in v.a[0]])
    if v.op == 'agg' and v.a[0] == 'array':
        return num(len(v.a[2]))
    if v.op == 'bytes':
        return num(len(v.a[0]))
    if v.op == 'str':
        return num(len(v.a[0].encode()))
    if v.op == 'rep':
        return v.a[1]
    if v.op == 'store':
        return length(v.a[0])
    if v.op == 'push':
        return add(length(v.a[0]), num(1))
    if v.op == 'subslice':
        return sub(v.a[2], v.a[1])
    if v.op == 'gen':
        return v.a[0]
    if v.op == 'cat':
        return add(length(v.a[0]), length(v.a[1]))
    if v.op == 'remove':
        return sub(length(v.a[0]), num(1))
    if v.op == 'resized':
        return v.a[1]
    if v.op == 'call' and isinstance(v.meta, tuple) and v.meta[0] == 'len':
        return num(v.meta[1])
    if v.op == 'call' and v.a[0] in ('sort', 'sort_by', 'sort_unstable', 'sort_unstable_by', 'reverse', 'sort_by_key'):
        return length(v.a[1][0])
    if v.op == 'insert':
        return add(length(v.a[0]), num(1))
    if v.op == 'undef':
        return v
    return mk('len', v)


def subslice(v, lo, hi):
    if const_val(lo) == 0 and hi is length(v):
        return v
    if v.op == 'gam':
        return gam([(c, subslice(x, restrict(lo, c), restrict(hi, c))) for c, x in v.a[0]])
    if v.op == 'subslice':
        return subslice(v.a[0], add(v.a[1], lo), add(v.a[1], hi))
    if v.op == 'bytes':
        a, b = const_val(lo), const_val(hi)
        if a is not None and b is not None:
            return mk('bytes', v.a[0][int(a):int(b)])
    if v.op == 'agg' and v.a[0] == 'array':
        a, b = const_val(lo), const_val(hi)
        if a is not None and b is not None:
            return agg('array', 0, v.a[2][int(a):int(b)])
    return mk('subslice', v, lo, hi)


def sel(v, i):
    if v.op == 'gam':
        return gam([(c, sel(x, restrict(i, c))) for c, x in v.a[0]])
    if i.op == 'gam':
        return gam([(c, sel(v, x)) for c, x in i.a[0]])
    ci = const_val(i)
    if v.op == 'agg' and v.a[0] == 'array':
        if ci is not None and 0 <= ci < len(v.a[2]):
            return v.a[2][int(ci)]
        if all(x is v.a[2][0] for x in v.a[2]) and v.a[2]:
            return v.a[2][0]
    if v.op == 'bytes' and ci is not None and 0 <= ci < len(v.a[0]):
        return num(v.a[0][int(ci)])
    if v.op == 'rep':
        return v.a[0]
    if v.op == 'store':
        j = v.a[1]
        if j is i:
            return v.a[2]
        d = const_val(sub(i, j)) if numeric(i) and numeric(j) else None
        if d is not None:
            return v.a[2] if d == 0 else sel(v.a[0], i)
    if v.op == 'push':
        n = length(v.a[0])
        d = const_val(sub(i, n)) if numeric(i) and numeric(n) else None
        if d is not None:
            if d == 0:
                return v.a[1]
            if d < 0:
                return sel(v.a[0], i)
    if v.op == 'subslice':
        return sel(v.a[0], add(v.a[1], i))
    if v.op == 'gen':
        # gen(n, bv, value)
        return subst(v.a[2], {v.a[1]: i})
    if v.op == 'cat':
        n = length(v.a[0])
        if const_val(n) == 0:
            return sel(v.a[1], i)
    h = SELHOOK.get(v.op)
    if h is not None:
        return h(v, i)
    if v.op == 'undef':
        return v
    return mk('sel', v, i)


def store(v, i, x):
    if v.op == 'gam':
        return gam([(c, store(y, restrict(i, c), restrict(x, c))) for c, y in v.a[0]])
    if i.op == 'gam':
        return gam([(c, store(v, y, restrict(x, c))) for c, y in i.a[0]])
    ci = const_val(i)
    if v.op == 'agg' and v.a[0] == 'array' and ci is not None and 0 <= ci < len(v.a[2]):
        ch = list(v.a[2])
        ch[int(ci)] = x
        return mk('agg', v.a[0], v.a[1], tuple(ch))
    if v.op == 'store' and v.a[1] is i:
        return store(v.a[0], i, x)
    if sel(v, i) is x:
        return v
    return mk('store', v, i, x)


def _rb_sel(t):
    return sel(t.a[0], t.a[1])


REBUILD['sel'] = _rb_sel
REBUILD['len'] = lambda t: length(t.a[0])
REBUILD['store'] = lambda t: store(t.a[0], t.a[1], t.a[2])
REBUILD['subslice'] = lambda t: subslice(t.a[0], t.a[1], t.a[2])

SELHOOK = {}
_hasmemo = {}


def has_any(t, keys):
    """does t contain any of the terms in keys"""
    fk = frozenset(keys)
    memo = _hasmemo.setdefault(fk, {})
    st = [t]
    # iterative dfs with memo
    def go(x):
        r = memo.get(x)
        if r is not None:
            return r
        if x in keys:
            memo[x] = True
            return True
        memo[x] = False
        for y in children(x):
            if go(y):
                memo[x] = True
                return True
        # references hide terms inside their root/path
        return memo[x]
    return go(t)


def parse_bytes(s):
    m = re.match(r'^(?:const )?b"(.*)"$', s, re.S)
    if not m:
        return None
    try:
        return eval('b"' + m.group(1) + '"')
    except Exception:
        return None


# ---------------------------------------------------------------- cfg
def succs(t):
    k = t[0]
    if k == 'goto':
        return [t[1]]
    if k == 'drop':
        return [t[2]]
    if k == 'switch':
        return [x[1] for x in t[3]] + [t[4]]
    if k == 'assert':
        return [t[4]]
    if k == 'call':
        return [t[4]] if t[4] >= 0 else []
    return []


class Cfg:
    def __init__(self, body):
        self.body = body
        bl = body['blocks']
        n = len(bl)
        self.succ = [succs(b['t']) if b else [] for b in bl]
        self.succ = [[s for s in ss if bl[s] is not None] for ss in self.succ]
        # unreachable blocks (exhaustive match fallbacks) are not targets
        seen = set()
        post = []
        st = [(0, iter(self.succ[0]))]
        seen.add(0)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(self.succ[s])))
                    break
            else:
                post.append(b)
                st.pop()
        rpo = post[::-1]
        pred = {b: [] for b in rpo}
        for b in rpo:
            for s in self.succ[b]:
                pred[s].append(b)
        self.pred = pred
        pos = {b: i for i, b in enumerate(rpo)}
        # dominators
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                ps = [p for p in pred[b] if p in idom]
                x = ps[0]
                for p in ps[1:]:
                    y = p
                    while x != y:
                        while pos[x] > pos[y]:
                            x = idom[x]
                        while pos[y] > pos[x]:
                            y = idom[y]
                if idom.get(b) != x:
                    idom[b] = x
                    ch = True
        self.idom = idom

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == 0:
                    return False
                b = idom[b]
        self.dom = dom
        loops = {}
        for b in rpo:
            for s in self.succ[b]:
                if dom(s, b):
                    L = loops.setdefault(s, {s})
                    stack = [b]
                    while stack:
                        x = stack.pop()
                        if x in L:
                            continue
                        L.add(x)
                        stack.extend(pred[x])
        self.loops = {}
        for h, bs in loops.items():
            self.loops[h] = {'blocks': bs, 'parent': None}
        for h in self.loops:
            best = None
            for g in self.loops:
                if g != h and h in self.loops[g]['blocks']:
                    if best is None or len(self.loops[g]['blocks']) < len(self.loops[best]['blocks']):
                        best = g
            self.loops[h]['parent'] = best
        # RPO in which the blocks of a loop are contiguous: order by nesting
        self.rpo = self.loop_order(rpo, pos)
        self.pos = {b: i for i, b in enumerate(self.rpo)}

    def loop_order(self, rpo, pos):
        # topological order of the acyclic graph with each loop collapsed, expanded in place
        def innermost(b):
            best = None
            for h, L in self.loops.items():
                if b in L['blocks']:
                    if best is None or len(L['blocks']) < len(self.loops[best]['blocks']):
                        best = h
            return best

        def order(region, header, parent):
            # units: blocks directly in region, or child loops
            unit = {}
            for b in region:
                h = innermost(b)
                # climb to child of parent
                while h is not None and h != parent and self.loops[h]['parent'] != parent:
                    h = self.loops[h]['parent']
                unit[b] = b if (h == parent or h is None) else ('L', h)
            succ = {}
            for b in region:
                for s in self.succ[b]:
                    if s in region and unit[s] != unit[b]:
                        if parent is not None and s == header:
                            continue
                        succ.setdefault(unit[b], set()).add(unit[s])
            start = unit[header]
            seen = set()
            post = []

            def keyf(u):
                return pos[u] if not isinstance(u, tuple) else pos[u[1]]
            st = [(start, iter(sorted(succ.get(start, ()), key=keyf, reverse=True)))]
            seen.add(start)
            while st:
                u, it = st[-1]
                for s in it:
                    if s not in seen:
                        seen.add(s)
                        st.append((s, iter(sorted(succ.get(s, ()), key=keyf, reverse=True))))
                        break
                else:
                    post.append(u)
                    st.pop()
            out = []
            for u in post[::-1]:
                if isinstance(u, tuple):
                    out += order(self.loops[u[1]]['blocks'], u[1], u[1])
                else:
                    out.append(u)
            return out
        return order(set(rpo), 0, None)



"""Symbolic executor over the LLVM IR of the crate."""
import z3
from dom import *
import dom
import ir


class Panic(Exception):
    pass


class Obj:
    __slots__ = ('size', 'base', 'cells', 'name')

    def __init__(self, size, base=None, name='', cells=None):
        self.size = size
        self.base = base
        self.cells = cells if cells is not None else {}
        self.name = name

    def copy(self):
        return Obj(self.size, self.base, self.name, dict(self.cells))

    # -- bytes
    def byte(self, o):
        c = self.cells
        for k in range(8):
            e = c.get(o - k)
            if e is not None:
                if e[0] > k:
                    return byte_of(e[1], e[0], k)
        if self.base is not None:
            b = self.base
            v = b[o]
            return v
        return UNDEF

    def read(self, o, n):
        e = self.cells.get(o)
        if e is not None and e[0] == n:
            return e[1]
        if o < 0 or o + n > self.size:
            raise Inconclusive('out-of-bounds read %s[%d..%d) size %d' % (self.name, o, o + n, self.size))
        bs = [self.byte(o + i) for i in range(n)]
        return join_bytes(bs)

    def write(self, o, n, v):
        c = self.cells
        e = c.get(o)
        if e is not None and e[0] == n:
            c[o] = (n, v)
            return
        if o < 0 or o + n > self.size:
            raise Inconclusive('out-of-bounds write %s[%d..%d) size %d' % (self.name, o, o + n, self.size))
        for k in range(o - 7, o + n):
            e = c.get(k)
            if e is None:
                continue
            m, val = e
            if k + m <= o:
                continue
            del c[k]
            for j in range(m):
                if not (o <= k + j < o + n):
                    c[k + j] = (1, byte_of(val, m, j))
        c[o] = (n, v)


def byte_of(v, n, k):
    if n == 1:
        return v
    if isinstance(v, int):
        return (v >> (8 * k)) & 255
    if v is UNDEF:
        return UNDEF
    if isinstance(v, Poly):
        u = unsigned(v, 8 * n)
        q, _ = divmod2(u, 8 * k)
        _, r = divmod2(q, 8)
        return r
    if isinstance(v, z3.BitVecRef):
        return simp(z3.Extract(8 * k + 7, 8 * k, v))
    if isinstance(v, z3.BoolRef):
        return v if k == 0 else 0
    if isinstance(v, Mux):
        return mux_norm(v.g, [byte_of(x, n, k) for x in v.v])
    if isinstance(v, Bits):
        return mkbits(v.b[8 * k:8 * k + 8])
    if isinstance(v, BT):
        return bt_map(lambda x: byte_of(x, n, k), v)
    return Part(v, n, k)


class Part:
    """byte k of an n-byte opaque value (pointer, xor pair)"""
    __slots__ = ('v', 'n', 'k')

    def __init__(self, v, n, k):
        self.v, self.n, self.k = v, n, k


def join_bytes(bs):
    if len(bs) == 1:
        return bs[0]
    if all(isinstance(b, int) for b in bs):
        r = 0
        for i, b in enumerate(bs):
            r |= b << (8 * i)
        return r
    if any(b is UNDEF for b in bs):
        if all(b is UNDEF for b in bs):
            return UNDEF
        bs = [0 if b is UNDEF else b for b in bs]
        return join_bytes(bs)
    if any(isinstance(b, (BT, Bits)) for b in bs):
        if all(isinstance(b, (int, Bits)) for b in bs):
            e = []
            for b in bs:
                e += list(b.b) if isinstance(b, Bits) else [(b >> i) & 1 for i in range(8)]
            return mkbits(e)
        return bt_map(lambda *x: join_bytes(list(x)), *[bit_arg(b) for b in bs])
    if isinstance(bs[0], Part):
        p = bs[0]
        if all(isinstance(b, Part) and b.v is p.v and b.k == i for i, b in enumerate(bs)) and len(bs) == p.n:
            return p.v
        raise Inconclusive('partial read of an opaque value')
    if any(isinstance(b, Mux) for b in bs):
        g = [b for b in bs if isinstance(b, Mux)][0].g
        if all(isinstance(b, int) or (isinstance(b, Mux) and b.g is g) for b in bs):
            return mux_norm(g, [join_bytes([b if isinstance(b, int) else b.v[i] for b in bs]) for i in range(len(g))])
        bs = [to_bv(b, 8) if isinstance(b, Mux) else b for b in bs]
    if any(isinstance(b, Poly) for b in bs):
        if all(isinstance(b, (int, Poly)) for b in bs):
            r = pconst(0)
            for i, b in enumerate(bs):
                u = unsigned(b, 8)
                r = padd(r, pscale(P(u), 1 << (8 * i)))
            return pcollapse(r)
    return simp(z3.Concat([to_bv(b, 8) for b in reversed(bs)]))


class Frame:
    __slots__ = ('fn', 'blk', 'prev', 'ip', 'env', 'dst', 'allocas', 'rettype')

    def __init__(self, fn, dst):
        self.fn = fn
        self.blk = fn.entry
        self.prev = None
        self.ip = 0
        self.env = {}
        self.dst = dst
        self.allocas = []

    def copy(self):
        f = Frame.__new__(Frame)
        f.fn, f.blk, f.prev, f.ip, f.dst = self.fn, self.blk, self.prev, self.ip, self.dst
        f.env = dict(self.env)
        f.allocas = list(self.allocas)
        return f


class State:
    def __init__(self):
        self.frames = []
        self.mem = {}
        self.owned = set()
        self.pc = []
        self.pcpolys = []
        self.facts = {}
        self.next = [1]      # shared counter
        self.trace = []
        self.ghost = {}      # contract-level data (per path)

    def clone(self):
        s = State.__new__(State)
        s.frames = [f.copy() for f in self.frames]
        s.mem = dict(self.mem)
        self.owned = set()
        s.owned = set()
        s.pc = list(self.pc)
        s.pcpolys = list(self.pcpolys)
        s.facts = dict(self.facts)
        s.next = self.next
        s.trace = list(self.trace)
        s.ghost = {k: (v.copy() if hasattr(v, 'copy') else v) for k, v in self.ghost.items()}
        return s

    def alloc(self, size, name='', base=None):
        i = self.next[0]
        self.next[0] += 1
        self.mem[i] = Obj(size, base, name)
        self.owned.add(i)
        return Ptr(i, 0)

    def wobj(self, i):
        o = self.mem[i]
        if i not in self.owned:
            o = o.copy()
            self.mem[i] = o
            self.owned.add(i)
        return o

    def assume(self, c):
        if isinstance(c, int):
            return
        self.pc.append(c)
        self.pcpolys.extend(polys_of(c))


class Outcome:
    __slots__ = ('kind', 'state', 'value', 'where')

    def __init__(self, kind, state, value=None, where=''):
        self.kind, self.state, self.value, self.where = kind, state, value, where


PANICS = ('core::panicking', 'slice_index_fail', 'len_mismatch_fail', 'unwrap_failed', 'handle_error', 'handle_alloc_error',
          'expect_failed', 'capacity_overflow', 'assert_failed', 'unwrap_failed_inner', 'str_index_overflow_fail',
          'slice_error_fail', 'panic_fmt', 'begin_panic')


_syms = {}


def syms(e):
    """names of the symbols of a formula"""
    i = e.get_id()
    r = _syms.get(i)
    if r is not None and r[1] is e:
        return r[0]
    out, todo, seen = set(), [e], set()
    while todo:
        x = todo.pop()
        j = x.get_id()
        if j in seen:
            continue
        seen.add(j)
        if x.num_args() == 0:
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(x.decl().name())
        else:
            todo += x.children()
    _syms[i] = (out, e)
    return out


def related(pc, e):
    """the path constraints that share symbols with e, transitively (the others are satisfiable on their own)"""
    have = set(syms(e))
    rest = list(pc)
    out = []
    while True:
        new = [c for c in rest if not syms(c) or not have.isdisjoint(syms(c))]
        if not new:
            return out
        out += new
        for c in new:
            have |= syms(c)
        rest = [c for c in rest if not any(c is n for n in new)]


MERGE = 6        # this many paths arriving at one join point are merged


class NoMerge(Exception):
    pass


def stopped(st, stop):
    """has the state reached the join point (frame depth, block; None: the return of the frame)?"""
    if stop is None:
        return False
    d, b = stop
    n = len(st.frames)
    if n < d:
        return True
    if n > d or b is None:
        return False
    f = st.frames[-1]
    return f.blk == b


class CFG:
    """post-dominators and live registers of a function"""

    def __init__(self, fn):
        self.fn = fn
        self.succ = {}
        for l, blk in fn.blocks.items():
            t = blk[-1]
            if t[0] == 'br':
                s = [t[2], t[3]]
            elif t[0] == 'jmp':
                s = [t[1]]
            elif t[0] == 'switch':
                s = [t[3]] + [x for _, x in t[4]]
            elif t[0] == 'ret':
                s = [None]
            else:
                s = []
            self.succ[l] = list(dict.fromkeys(s))
        # blocks that can reach a return; the others end in a panic
        ok, ch = {None}, True
        while ch:
            ch = False
            for l, s in self.succ.items():
                if l not in ok and any(x in ok for x in s):
                    ok.add(l)
                    ch = True
        live = [l for l in self.succ if l in ok]
        allb = set(live) | {None}
        pd = {l: set(allb) for l in live}
        pd[None] = {None}
        ch = True
        while ch:
            ch = False
            for l in reversed(live):
                ss = [pd[x] for x in self.succ[l] if x in ok]
                n = set.intersection(*ss) | {l}
                if n != pd[l]:
                    pd[l] = n
                    ch = True
        self.pd = pd
        self._live = {}

    def join(self, l):
        """the nearest block every returning path passes after l (None: the return)"""
        c = self.pd.get(l)
        if c is None:
            return None
        c = c - {l}
        for x in c:
            if len(self.pd[x]) == len(c):
                return x
        return None

    def live(self, l):
        """registers read in the blocks reachable from l"""
        if l not in self._live:
            seen, todo = set(), [l]
            while todo:
                x = todo.pop()
                if x is None or x in seen:
                    continue
                seen.add(x)
                todo += self.succ[x]
            regs = set()

            def walk(v):
                if isinstance(v, tuple):
                    if len(v) == 2 and v[0] == 'r':
                        regs.add(v[1])
                    for y in v:
                        walk(y)
                elif isinstance(v, (list,)):
                    for y in v:
                        walk(y)
                elif isinstance(v, dict):
                    for y in v.values():
                        walk(y)
            for x in seen:
                for ins in self.fn.blocks[x]:
                    walk(ins)
            self._live[l] = regs
        return self._live[l]


def cfg_of(fn):
    c = getattr(fn, '_cfg', None)
    if c is None:
        c = fn._cfg = CFG(fn)
    return c


class Engine:
    def __init__(self, module, contracts=None, max_paths=20000, max_steps=200_000_000):
        self.m = module
        self.contracts = contracts or {}
        self.globals = {}
        self.gobjs = {}
        self.dm = {}
        self.max_paths = max_paths
        self.merge = True
        self.aside = []
        self.max_steps = max_steps
        self.steps = 0
        self.paths = 0
        self.encoded = {}       # function path -> instructions executed
        self.stubbed = {}
        self.counter = [1]
        self.extern = {}        # extra externals: demangled path -> fn(engine,state,args)
        self.check_timeout = 60000
        self.byte_tags = {}     # z3 ast id of a byte constant -> (const, tag)
        self.obl = []
        self.mask_fork = False

    def path(self, name):
        d = self.dm.get(name)
        if d is None:
            d = self.dm[name] = ir.demangle(name)
        return d

    def find(self, path):
        """the function whose demangled path is (or ends with) the given one"""
        r = [n for n in self.m.funcs if self.path(n) == path]
        if not r:
            r = [n for n in self.m.funcs if self.path(n).endswith('::' + path)]
        if len(r) != 1:
            raise Inconclusive('function %s: %d candidates' % (path, len(r)))
        return r[0]

    # -- globals
    def gptr(self, st, name, off):
        i = self.gobjs.get(name)
        if i is None:
            g = self.m.globals.get(name)
            if g is None:
                i = ('fn', name)
            elif g[0] == 'init':
                size = self.m.size(g[1])
                base = bytearray(size)
                rel = []
                self.fill(base, 0, g[1], g[2], rel)
                i = -1 - len(self.gobjs)
                o = Obj(size, bytes(base), name)
                self.globals[i] = o
                self.gobjs[name] = i
                for (ro, tgt) in rel:
                    o.cells[ro] = (8, self.gptr(st, tgt[1], tgt[2]))
                i = self.gobjs[name]
            elif 'GLOBAL_PANIC_COUNT' in name:
                i = -1 - len(self.gobjs)
                self.globals[i] = Obj(8, bytes(8), name)
            else:
                raise Inconclusive('global %s not available' % name)
            self.gobjs[name] = i
        return Ptr(i, off)

    def fill(self, base, o, t, v, rel):
        t = self.m.resolve(t)
        if isinstance(v, int):
            n = self.m.size(t)
            base[o:o + n] = v.to_bytes(n, 'little')
        elif v[0] == 'bytes':
            base[o:o + len(v[1])] = v[1]
        elif v[0] == 'zero' or v[0] == 'undef':
            pass
        elif v[0] == 'g':
            rel.append((o, v))
        elif v[0] == 'agg':
            if t[0] == 'arr':
                es = self.m.size(t[2])
                for k, (et, ev) in enumerate(v[1]):
                    self.fill(base, o + k * es, et, ev, rel)
            else:
                for k, (et, ev) in enumerate(v[1]):
                    fo, _ = self.m.field_off(t, k)
                    self.fill(base, o + fo, et, ev, rel)
        else:
            raise Inconclusive('global initialiser %r' % (v,))

    def obj(self, st, i):
        if isinstance(i, int) and i < 0:
            o = st.mem.get(i)       # mutable static, written on this path
            return self.globals[i] if o is None else o
        o = st.mem.get(i)
        if o is None:
            raise Inconclusive('access through a dangling or function pointer')
        return o

    def wobj(self, st, i):
        if isinstance(i, int) and i < 0 and i not in st.mem:
            o = self.globals[i]
            if self.m.globals[o.name][0] == 'init' and self.m.globals[o.name][3]:
                raise Inconclusive('store to a constant')
            st.mem[i] = o.copy()
            st.owned.add(i)
        if i not in st.mem:
            raise Inconclusive('access through a dangling or function pointer')
        return st.wobj(i)

    def statics(self, st):
        """the static variables this path has written: name -> object"""
        return {o.name: o for i, o in st.mem.items() if isinstance(i, int) and i < 0}

    # -- memory
    def load(self, st, p, n):
        if not isinstance(p, Ptr):
            if isinstance(p, Mux):
                return mux_norm(p.g, [self.load(st, q, n) for q in p.v])
            if isinstance(p, BT):
                return self.flat(bt_map(lambda q: self.load(st, q, n), bit_arg(p)))
            raise Inconclusive('load through %r' % (p,))
        if isinstance(p.off, int):
            return self.obj(st, p.o).read(sx(p.off, 64), n)
        if bitty(p.off):
            ob = self.obj(st, p.o)
            return self.flat(bt_map(lambda o: ob.read(sx(o, 64), n), bit_arg(p.off)))
        offs = self.concretise(st, p.off, 64)
        ob = self.obj(st, p.o)
        g, os = offs
        return mux_norm(g, [ob.read(o, n) for o in os])

    @staticmethod
    def flat(x):
        """a table whose entries are tables themselves"""
        while isinstance(x, BT) and any(bitty(v) for v in x.v):
            sup = set(x.s)
            vs = [bit_arg(v) for v in x.v]
            for v in vs:
                if isinstance(v, BT):
                    sup.update(v.s)
            sup = sorted(sup)
            if len(sup) > dom.BTMAX:
                raise Inconclusive('a table lookup over too many scalar bits')
            cols = [bt_expand(v, sup) for v in vs]
            sel = bt_expand(BT(x.s, list(range(len(vs)))), sup)
            x = mkbt(sup, [cols[j][i] for i, j in enumerate(sel)])
        return x

    def store(self, st, p, n, v):
        if isinstance(p, BT):
            raise ForkBit(pickbit(p))
        if isinstance(p, Ptr) and bitty(p.off):
            o = bit_arg(p.off)
            if isinstance(o, BT):
                raise ForkBit(pickbit(o))
            p = Ptr(p.o, o)
        if not isinstance(p, Ptr):
            raise Inconclusive('store through %r' % (p,))
        off = p.off
        if not isinstance(off, int):
            self.fork_values(st, off, 64)
        self.wobj(st, p.o).write(sx(off, 64), n, v)

    def concretise(self, st, e, w, limit=64):
        """all values a symbolic word can take on this path: (guards, values)"""
        key = ('conc', e.get_id() if hasattr(e, 'get_id') else id(e))
        memo = st.ghost.setdefault('conc', {})
        if key in memo and memo[key][2] == len(st.pc):
            return memo[key][0], memo[key][1]
        if isinstance(e, Mux):
            vals = {}
            for g, v in zip(e.g, e.v):
                if not isinstance(v, int):
                    raise Inconclusive('nested symbolic address')
                vals.setdefault(v, []).append(g)
            vs = sorted(vals)
            gs = [z3.Or(vals[v]) if len(vals[v]) > 1 else vals[v][0] for v in vs]
            memo[key] = (gs, vs, len(st.pc))
            return gs, vs
        s = z3.Solver()
        s.set('timeout', self.check_timeout)
        s.add(*st.pc)
        vs = []
        import time
        t = time.time()
        e = to_bv(e, w)
        while True:
            r = s.check()
            STATS.queries += 1
            if r == z3.unsat:
                break
            if r != z3.sat:
                raise Inconclusive('solver gave up on a symbolic address')
            v = s.model().eval(e, model_completion=True).as_long()
            vs.append(v)
            if len(vs) > limit:
                raise Inconclusive('symbolic address has more than %d values' % limit)
            s.add(e != v)
        STATS.time += time.time() - t
        vs.sort()
        gs = [simp_bool(e == v) for v in vs]
        memo[key] = (gs, vs, len(st.pc))
        st.ghost['keep'] = st.ghost.get('keep', ()) + (e,)
        return gs, vs

    def fork_values(self, st, e, w):
        g, vs = self.concretise(st, e, w)
        raise ForkVals(e, list(zip(g, vs)))

    def memcpy(self, st, d, s, n):
        if not isinstance(n, int):
            if isinstance(n, z3.BitVecRef):
                self.fork_values(st, n, 64)
            raise Inconclusive('memcpy of symbolic length')
        if n == 0:
            return
        if isinstance(s, BT) or (isinstance(s, Ptr) and bitty(s.off)):
            step = 4 if n % 4 == 0 else 1
            at = (lambda k: bt_map(lambda q: Ptr(q.o, q.off + k), s)) if isinstance(s, BT) else (lambda k: Ptr(s.o, binop('add', 64, s.off, k)))
            vs = [self.load(st, at(k), step) for k in range(0, n, step)]
            dst = self.wobj(st, d.o)
            for k, v in zip(range(0, n, step), vs):
                dst.write(d.off + k, step, v)
            return
        if isinstance(s, Ptr) and not isinstance(s.off, int):
            g, vs = self.concretise(st, s.off, 64)
            ob = self.obj(st, s.o)
            step = 4 if n % 4 == 0 and all(v % 4 == 0 for v in vs) else 1
            dst = self.wobj(st, d.o)
            for k in range(0, n, step):
                dst.write(d.off + k, step, mux_norm(g, [ob.read(v + k, step) for v in vs]))
            return
        if not isinstance(s, Ptr) or not isinstance(d, Ptr) or not isinstance(d.off, int):
            raise Inconclusive('memcpy %r %r' % (d, s))
        so = self.obj(st, s.o)
        o0 = sx(s.off, 64)
        if o0 < 0 or o0 + n > so.size:
            raise Inconclusive('out-of-bounds copy from %s' % so.name)
        items = []
        k = 0
        cells = so.cells
        # a cell straddling the start?
        while k < n:
            e = cells.get(o0 + k)
            if e is not None and k + e[0] <= n:
                items.append((k, e[0], e[1]))
                k += e[0]
                continue
            if e is None and k % 4 == 0 and k + 4 <= n and so.base is not None:
                # clean 4-byte stretch of the initial image?
                clean = True
                for j in range(-7, 4):
                    c = cells.get(o0 + k + j)
                    if c is not None and (j >= 0 or c[0] > -j):
                        clean = False
                        break
                if clean:
                    items.append((k, 4, int.from_bytes(so.base[o0 + k:o0 + k + 4], 'little')))
                    k += 4
                    continue
            items.append((k, 1, so.byte(o0 + k)))
            k += 1
        dst = self.wobj(st, d.o)
        for (k, sz, v) in items:
            if v is UNDEF and (d.off + k) not in dst.cells and dst.base is None:
                # leave untouched only if nothing is there
                if not any((d.off + k - j) in dst.cells for j in range(8)):
                    continue
            dst.write(d.off + k, sz, v)

    def memset(self, st, d, v, n):
        if not isinstance(n, int):
            raise Inconclusive('symbolic memset')
        dst = self.wobj(st, d.o)
        k = 0
        if not isinstance(v, int):
            for k in range(n):
                dst.write(d.off + k, 1, v)
            return
        w = int.from_bytes(bytes([v]) * 4, 'little')
        while k + 4 <= n:
            dst.write(d.off + k, 4, w)
            k += 4
        while k < n:
            dst.write(d.off + k, 1, v)
            k += 1

    # -- helpers for contracts
    def words(self, st, p, n, size=4):
        if isinstance(p, Ptr) and isinstance(p.off, int):
            return [self.load(st, Ptr(p.o, p.off + size * i), size) for i in range(n)]
        return [self.load(st, bump(p, size * i), size) for i in range(n)]

    def put_words(self, st, p, vals, size=4):
        o = self.wobj(st, p.o)
        for i, v in enumerate(vals):
            o.write(p.off + size * i, size, v)

    # -- feasibility
    def feasible(self, st, extra):
        cs = list(st.pc) + [extra]
        polys = list(st.pcpolys) + polys_of(extra)
        if polys:
            r, _ = psolve(polys, st.pc, [extra], self.check_timeout)
        else:
            r, _ = solve(related(st.pc, extra) + [extra] if len(cs) > 8 else cs, self.check_timeout)
        if r == 'unknown':
            raise Inconclusive('solver gave up on a branch condition')
        return r == 'sat'

    def decide(self, st, c):
        """0/1 if the condition is decided on this path, else None"""
        if isinstance(c, int):
            return c & 1
        if c is UNDEF:
            raise Inconclusive('branch on undef')
        if bitty(c):
            c = bit_arg(c)
            if isinstance(c, BT):
                raise ForkBit(pickbit(c))
            return self.decide(st, c)
        k = st.ghost.setdefault('dec', {})
        i = c.get_id()
        if i in k and k[i][1] == len(st.pc):
            return k[i][0]
        t = self.feasible(st, c)
        if not t:
            r = 0
        else:
            f = self.feasible(st, z3.Not(c))
            r = None if f else 1
        k[i] = (r, len(st.pc), c)
        return r

    # -- main loop
    def run(self, fname, args, st=None, on_done=None):
        """explore every path of a call; returns the list of outcomes"""
        st = st or State()
        st.next = self.counter
        self.push(st, fname, args, None)
        work = [st]
        out = []
        while work:
            s = work.pop()
            self.paths += 1
            if self.paths > self.max_paths:
                raise Inconclusive('path budget exhausted')
            r = self.run_path(s, work)
            if r is not None:
                out.append(r)
            out += self.aside
            self.aside = []
        return out

    def push(self, st, fname, args, dst):
        fn = self.m.funcs.get(fname)
        if fn is None:
            raise Inconclusive('no body for %s' % fname)
        fr = Frame(fn, dst)
        for (t, n), a in zip(fn.params, args):
            fr.env[n] = a
        st.frames.append(fr)
        pth = self.path(fname)
        self.encoded[pth] = self.encoded.get(pth, 0)

    def val(self, st, env, v):
        if isinstance(v, int):
            return v
        k = v[0]
        if k == 'r':
            return env[v[1]]
        if k == 'g':
            return self.gptr(st, v[1], v[2])
        if k == 'undef':
            t = self.m.resolve(v[1])
            if t[0] == 'struct':
                return [UNDEF] * len(t[1])
            return UNDEF
        if k == 'zero':
            t = self.m.resolve(v[1])
            if t[0] == 'struct':
                return [0] * len(t[1])
            return 0
        if k == 'agg':
            return [self.val(st, env, x[1]) for x in v[1]]
        raise Inconclusive('operand %r' % (v,))

    def fork(self, st, work, alts):
        """alts: list of (constraint, facts). Continue with the first, queue the rest"""
        states = []
        for k, (c, facts) in enumerate(alts):
            s = st if k == len(alts) - 1 else st.clone()
            states.append((s, c, facts))
        for s, c, facts in states:
            if c is not None:
                s.assume(c)
            s.facts.update(facts)
        for s, _, _ in states[:-1]:
            work.append(s)
        return states[-1][0]

    def explore(self, work, stop):
        """run the states up to the join point; other outcomes are kept aside"""
        rs = []
        while work:
            s = work.pop()
            if stopped(s, stop):
                rs.append(s)
                continue
            self.paths += 1
            if self.paths > self.max_paths:
                raise Inconclusive('path budget exhausted')
            r = self.run_path(s, work, stop)
            if isinstance(r, State):
                rs.append(r)
            elif r is not None:
                self.aside.append(r)
        return rs

    def merged(self, base, rs, join):
        """one state for many: values that differ become guarded by the branch conditions of their paths"""
        try:
            return [self.merge_states(base, rs, join)]
        except NoMerge:
            return rs

    def merge_states(self, base, rs, join):
        n = len(base.pc)
        gs = []
        for r in rs:
            if len(r.frames) != len(rs[0].frames) or r.facts != base.facts or len(r.pcpolys) != len(base.pcpolys) or r.trace != rs[0].trace:
                raise NoMerge
            if len(r.pc) < n or any(a is not b for a, b in zip(r.pc, base.pc)):
                raise NoMerge
            x = r.pc[n:]
            gs.append(x[0] if len(x) == 1 else z3.And(x) if x else z3.BoolVal(True))
            for k in set(r.ghost) | set(base.ghost):
                if k not in ('conc', 'dec', 'keep') and r.ghost.get(k) != base.ghost.get(k):
                    raise NoMerge
        m = base.clone()
        m.pc, m.pcpolys, m.facts = list(base.pc), list(base.pcpolys), dict(base.facts)
        m.trace = list(rs[0].trace)
        m.ghost['keep'] = sum((r.ghost.get('keep', ()) for r in rs), ())
        memo = {}
        # registers
        d = join[0]
        m.frames = [f.copy() for f in rs[0].frames]
        for k, f in enumerate(m.frames):
            fs = [r.frames[k] for r in rs]
            if any(g.fn is not f.fn or g.dst != f.dst for g in fs):
                raise NoMerge
            if any((g.blk, g.ip) != (f.blk, f.ip) for g in fs):
                raise NoMerge
            f.allocas = sorted({i for g in fs for i in g.allocas})
            live = None
            if k == len(m.frames) - 1:
                live = cfg_of(f.fn).live(f.blk)
            for reg in set().union(*[g.env for g in fs]):
                if live is not None and reg not in live:
                    f.env.pop(reg, None)
                    continue
                vs = [g.env.get(reg, UNDEF) for g in fs]
                f.env[reg] = self.mergeval(gs, vs, None, memo)
        # memory
        m.mem, m.owned = {}, set()
        for i in set().union(*[r.mem for r in rs]):
            os = [r.mem.get(i) for r in rs]
            if i < 0:
                os = [self.globals[i] if o is None else o for o in os]
            have = [o for o in os if o is not None]
            if len(have) < len(os) or all(o is have[0] for o in have):
                m.mem[i] = have[0]
                continue
            o = have[0].copy()
            if any(x.size != o.size or x.base is not o.base for x in have):
                raise NoMerge
            for off in sorted(set().union(*[x.cells for x in have])):
                es = [x.cells.get(off) for x in have]
                if all(e is not None and e[0] == es[0][0] for e in es):
                    o.cells[off] = (es[0][0], self.mergeval(gs, [e[1] for e in es], 8 * es[0][0], memo))
                elif all(e is None or e[0] == max(x[0] for x in es if x) for e in es):
                    w = max(x[0] for x in es if x)
                    o.cells[off] = (w, self.mergeval(gs, [x.read(off, w) for x in have], 8 * w, memo))
                else:
                    raise NoMerge
            m.mem[i] = o
            m.owned.add(i)
        return m

    def mergeval(self, gs, vs, w, memo):
        v = vs[0]
        if all(sameval(x, v) for x in vs):
            return v
        if any(x is UNDEF for x in vs):
            return UNDEF
        if all(isinstance(x, list) for x in vs) and all(len(x) == len(v) for x in vs):
            return [self.mergeval(gs, [x[i] for x in vs], None, memo) for i in range(len(v))]
        ks = [x if isinstance(x, int) else (x.o, x.off) if isinstance(x, Ptr) and isinstance(x.off, int) else ('id', id(x)) for x in vs]
        key = tuple(ks)
        if (key, w) in memo:
            return memo[key, w][0]
        grp = {}
        for k, g, x in zip(ks, gs, vs):
            grp.setdefault(k, ([], x))[0].append(g)
        gv = sorted(((z3.Or(g) if len(g) > 1 else g[0], len(g), x) for g, x in grp.values()), key=lambda t: t[1])
        if all(isinstance(x, (int, Ptr)) for x in vs) and any(isinstance(x, Ptr) for x in vs):
            if any(isinstance(x, Ptr) and not isinstance(x.off, int) for x in vs):
                raise NoMerge
            r = Mux([g for g, _, _ in gv], [x for _, _, x in gv])
        elif all(isinstance(x, (int, z3.BoolRef, z3.BitVecRef)) for x in vs):
            if all(isinstance(x, z3.BoolRef) or x in (0, 1) for x in vs) and any(isinstance(x, z3.BoolRef) for x in vs) and w is None:
                r = gv[-1][2]
                r = z3.BoolVal(bool(r)) if isinstance(r, int) else r
                for g, _, x in gv[-2::-1]:
                    r = z3.If(g, z3.BoolVal(bool(x)) if isinstance(x, int) else x, r)
            else:
                ww = w
                if ww is None:
                    bs = [x.size() for x in vs if isinstance(x, z3.BitVecRef)]
                    if not bs:
                        r = Mux([g for g, _, _ in gv], [x for _, _, x in gv])
                        memo[key, w] = (r, vs)
                        return r
                    ww = bs[0]
                r = to_bv(gv[-1][2], ww)
                for g, _, x in gv[-2::-1]:
                    r = z3.If(g, to_bv(x, ww), r)
        else:
            raise NoMerge
        memo[key, w] = (r, vs)
        return r

    def run_path(self, st, work, stop=None):
        val = self.val
        while True:
            if stop is not None and stopped(st, stop):
                return st
            fr = st.frames[-1]
            env = fr.env
            blk = fr.fn.blocks[fr.blk]
            ins = blk[fr.ip]
            self.steps += 1
            if self.steps > self.max_steps:
                raise Inconclusive('step budget exhausted')
            CTX.facts = st.facts
            CTX.pc = st.pc
            CTX.pcpolys = st.pcpolys
            op = ins[0]
            try:
                if op == 'bin':
                    x, y = val(st, env, ins[4]), val(st, env, ins[5])
                    if self.mask_fork and ins[2] in ('and', 'or', 'xor', 'mul'):
                        # a mask computed from comparisons selects between arithmetic values: one path per mask value
                        if isinstance(x, Poly) and isinstance(y, z3.BitVecRef):
                            self.fork_values(st, y, ins[3])
                        if isinstance(y, Poly) and isinstance(x, z3.BitVecRef):
                            self.fork_values(st, x, ins[3])
                    env[ins[1]] = binop(ins[2], ins[3], x, y)
                elif op == 'load':
                    env[ins[1]] = self.do_load(st, ins[2], val(st, env, ins[3]))
                elif op == 'store':
                    self.do_store(st, ins[1], val(st, env, ins[2]), val(st, env, ins[3]))
                elif op == 'gep':
                    p = val(st, env, ins[2])
                    off = ins[3]
                    if ins[4]:
                        for (v, w, sc) in ins[4]:
                            x = val(st, env, v)
                            if isinstance(x, int):
                                off += sx(x, w) * sc
                            else:
                                if isinstance(x, Poly):
                                    x = self.poly_index(st, x, w)
                                x = binop('mul', 64, cast('sext', w, x, 64), sc)
                                off = binop('add', 64, off & ((1 << 64) - 1), x) if isinstance(off, int) else binop('add', 64, off, x)
                    if isinstance(p, Ptr):
                        if isinstance(p.off, int) and isinstance(off, int):
                            env[ins[1]] = Ptr(p.o, p.off + off)
                        else:
                            po = p.off & ((1 << 64) - 1) if isinstance(p.off, int) else p.off
                            oo = off & ((1 << 64) - 1) if isinstance(off, int) else off
                            env[ins[1]] = Ptr(p.o, binop('add', 64, po, oo))
                    elif isinstance(p, Mux):
                        env[ins[1]] = Mux(p.g, [Ptr(q.o, q.off + off) for q in p.v])
                    elif isinstance(p, BT):
                        env[ins[1]] = bt_map(lambda q, o: Ptr(q.o, q.off + (sx(o, 64) if o >= 0 else o)), p, bit_arg(off))
                    elif isinstance(p, int):
                        env[ins[1]] = (p + off) & ((1 << 64) - 1)
                    else:
                        raise Inconclusive('gep on %r' % (p,))
                elif op == 'icmp':
                    env[ins[1]] = icmp(ins[2], ins[3], val(st, env, ins[4]), val(st, env, ins[5]))
                elif op == 'cast':
                    env[ins[1]] = cast(ins[2], ins[3], val(st, env, ins[4]), ins[5])
                elif op == 'br':
                    c = val(st, env, ins[1])
                    if not isinstance(c, int):
                        c = to_bool(c) if c is not UNDEF else c
                    d = self.decide(st, c)
                    if d is not None:
                        self.goto(st, ins[2] if d else ins[3])
                        continue
                    join = (len(st.frames), cfg_of(fr.fn).join(fr.blk)) if self.merge and not polys_of(c) else None
                    base = None if join in (None, stop) else st.clone()
                    other = st.clone()
                    other.assume(z3.Not(c))
                    self.goto(other, ins[3])
                    st.assume(c)
                    self.goto(st, ins[2])
                    if base is None:
                        work.append(other)
                        continue
                    rs = self.explore([other, st], join)
                    if len(rs) > MERGE:
                        rs = self.merged(base, rs, join)
                    if not rs:
                        return None
                    work += rs[:-1]
                    st = rs[-1]
                    if stopped(st, stop):
                        return st
                    continue
                elif op == 'jmp':
                    self.goto(st, ins[1])
                    continue
                elif op == 'call':
                    r = self.call(st, fr, ins, work)
                    if r == 'pushed':
                        continue
                    if isinstance(r, Outcome):
                        return r
                    if isinstance(r, State):
                        st = r
                        continue
                elif op == 'ret':
                    v = val(st, env, ins[2]) if ins[1] is not None else None
                    for i in fr.allocas:
                        st.mem.pop(i, None)
                    st.frames.pop()
                    if not st.frames:
                        return Outcome('ret', st, v)
                    f2 = st.frames[-1]
                    if fr.dst is not None:
                        f2.env[fr.dst] = v
                    f2.ip += 1
                    continue
                elif op == 'alloca':
                    p = st.alloc(ins[2], ins[1])
                    fr.allocas.append(p.o)
                    env[ins[1]] = p
                elif op == 'extractvalue':
                    v = val(st, env, ins[2])
                    for k in ins[3]:
                        v = v[k]
                    env[ins[1]] = v
                elif op == 'insertvalue':
                    v = val(st, env, ins[2])
                    v = list(v) if isinstance(v, list) else [UNDEF] * len(ins[5][1])
                    v[ins[4][0]] = val(st, env, ins[3])
                    env[ins[1]] = v
                elif op == 'select':
                    c = val(st, env, ins[2])
                    a, b = val(st, env, ins[3]), val(st, env, ins[4])
                    if not isinstance(c, int) and c is not UNDEF:
                        c = to_bool(c)
                    if isinstance(c, int):
                        env[ins[1]] = a if c else b
                    elif isinstance(c, BT):
                        a, b = (bit_arg(v) if not isinstance(v, list) else v for v in (a, b))
                        env[ins[1]] = bt_map(lambda i, x, y: x if i else y, c, a, b)
                    else:
                        d = self.decide(st, c)
                        if d is not None:
                            env[ins[1]] = a if d else b
                        else:
                            t = ins[5]
                            r = select(c, a, b, t[1] if t[0] == 'i' else None)
                            if r is None:
                                raise Fork([(c, {}, None), (z3.Not(c), {}, None)])
                            env[ins[1]] = r
                elif op == 'switch':
                    v = val(st, env, ins[1])
                    if isinstance(v, int):
                        for c, l in ins[4]:
                            if c == v:
                                self.goto(st, l)
                                break
                        else:
                            self.goto(st, ins[3])
                        continue
                    if bitty(v):
                        v = bit_arg(v)
                        if isinstance(v, BT):
                            raise ForkBit(pickbit(v))
                        env[ins[1][1]] = v
                        continue
                    rest = []
                    feas = []
                    for c, l in ins[4]:
                        e = icmp('eq', ins[2], v, c)
                        if isinstance(e, int):
                            e = z3.BoolVal(bool(e))
                        feas.append((e, l))
                        rest.append(z3.Not(e))
                    feas.append((z3.And(rest), ins[3]))
                    live = [(e, l) for e, l in feas if self.feasible(st, e)]
                    if not live:
                        return Outcome('dead', st)
                    for e, l in live[1:]:
                        o = st.clone()
                        o.assume(e)
                        self.goto(o, l)
                        work.append(o)
                    st.assume(live[0][0])
                    self.goto(st, live[0][1])
                    continue
                elif op == 'nop':
                    pass
                elif op == 'atomicrmw':
                    p = val(st, env, ins[4])
                    x, y = self.do_load(st, ins[3], p), val(st, env, ins[5])
                    w = ins[3][1] if ins[3][0] == 'i' else 64
                    if ins[2] in ('add', 'sub', 'and', 'or', 'xor'):
                        y = binop(ins[2], w, x, y)
                    elif ins[2] != 'xchg':
                        raise Inconclusive('atomicrmw %s' % ins[2])
                    self.do_store(st, ins[3], y, p)
                    env[ins[1]] = x
                elif op == 'cmpxchg':
                    # one thread: the exchange fails only on a different value
                    p = val(st, env, ins[3])
                    x, y = self.do_load(st, ins[2], p), val(st, env, ins[4])
                    c = icmp('eq', ins[2][1] if ins[2][0] == 'i' else 64, x, y)
                    c = to_bool(c) if not isinstance(c, int) else c
                    if not isinstance(c, int):
                        raise Inconclusive('compare-exchange of a symbolic word')
                    if c:
                        self.do_store(st, ins[2], val(st, env, ins[5]), p)
                    env[ins[1]] = [x, c]
                elif op == 'freeze':
                    v = val(st, env, ins[2])
                    env[ins[1]] = 0 if v is UNDEF else v
                elif op == 'unreachable':
                    return Outcome('unreachable', st, None, self.where(st))
                elif op == 'phi':
                    raise Inconclusive('phi outside block head')
                else:
                    raise Inconclusive('instruction %r' % (ins,))
            except Fork as f:
                alts = []
                for (c, facts, p) in f.alts:
                    if p is not None:
                        if not self.feasible_poly(st, c, p):
                            continue
                        b = PolyBool(p, c)
                    else:
                        b = c
                        if not self.feasible(st, b):
                            continue
                    alts.append((b, facts))
                if not alts:
                    return Outcome('dead', st)
                st = self.fork(st, work, alts)
                continue
            except ForkBit as f:
                alts = []
                for v in (0, 1):
                    b = PolyBool(patom(f.a), A.z(f.a) == v)
                    alts.append((b, {('bit', f.a): v, patom(f.a).key: v}))
                if self.paths + len(work) > self.max_paths:
                    raise Inconclusive('path budget exhausted')
                st = self.fork(st, work, alts)
                continue
            except ForkVals as f:
                ss = []
                for k, (g, v) in enumerate(f.alts):
                    s2 = st if k == len(f.alts) - 1 else st.clone()
                    ss.append((s2, g, v))
                for s2, g, v in ss:
                    s2.assume(g)
                    self.subst(s2, f.e, v)
                for s2, _, _ in ss[:-1]:
                    work.append(s2)
                st = ss[-1][0]
                continue
            except Panic as e:
                return Outcome('panic', st, str(e), self.where(st))
            fr.ip += 1

    def subst(self, st, e, v):
        """replace a symbolic word by its concrete value in the live registers"""
        eid = e.get_id() if hasattr(e, 'get_id') else id(e)
        for fr in st.frames:
            for k, x in fr.env.items():
                if x is e or (hasattr(x, 'get_id') and not isinstance(x, Ptr) and x.get_id() == eid):
                    fr.env[k] = v
                elif isinstance(x, Ptr) and not isinstance(x.off, int) and (x.off is e or (hasattr(x.off, 'get_id') and x.off.get_id() == eid)):
                    fr.env[k] = Ptr(x.o, v)

    def feasible_poly(self, st, c, p):
        r, _ = psolve([p] + st.pcpolys, st.pc, [c], 5000)
        return r != 'unsat'

    def poly_index(self, st, x, w):
        v = lookup(x)
        if v is not None:
            return v
        raise Inconclusive('arithmetic value used as an index')

    def where(self, st):
        return ' <- '.join(self.path(f.fn.name) for f in reversed(st.frames[-4:]))

    def goto(self, st, lab):
        fr = st.frames[-1]
        fr.prev = fr.blk
        fr.blk = lab
        blk = fr.fn.blocks[lab]
        i = 0
        vals = []
        while blk[i][0] == 'phi':
            ins = blk[i]
            vals.append((ins[1], self.val(st, fr.env, ins[2][fr.prev])))
            i += 1
        for k, v in vals:
            fr.env[k] = v
        fr.ip = i

    def do_load(self, st, t, p):
        if t[0] == 'i':
            n = (t[1] + 7) // 8
            v = self.load(st, p, n)
            if t[1] == 1:
                return to_bool(v) if v is not UNDEF else v
            if t[1] % 8:
                raise Inconclusive('load i%d' % t[1])
            return v
        if t[0] == 'ptr':
            return self.load(st, p, 8)
        if t[0] == 'struct':
            return [self.do_load(st, self.m.resolve(f), Ptr(p.o, p.off + self.m.field_off(t, k)[0])) for k, f in enumerate(t[1])]
        raise Inconclusive('load of %r' % (t,))

    def do_store(self, st, t, v, p):
        if t[0] == 'i':
            if t[1] == 1 and not isinstance(v, int) and v is not UNDEF:
                v = to_bv(v, 8) if isinstance(v, z3.BoolRef) else v
            self.store(st, p, (t[1] + 7) // 8, v)
        elif t[0] == 'ptr':
            self.store(st, p, 8, v)
        elif t[0] == 'struct':
            for k, f in enumerate(t[1]):
                self.do_store(st, self.m.resolve(f), v[k], Ptr(p.o, p.off + self.m.field_off(t, k)[0]))
        else:
            raise Inconclusive('store of %r' % (t,))

    # -- calls
    def call(self, st, fr, ins, work):
        _, dst, rt, callee, args, _ = ins
        env = fr.env
        if callee[0] == '%':
            p = env[callee]
            if isinstance(p, Ptr) and isinstance(p.o, tuple):
                callee = p.o[1]
            else:
                raise Inconclusive('indirect call')
        if callee.startswith('@llvm.'):
            if callee.startswith(('@llvm.lifetime', '@llvm.assume', '@llvm.experimental', '@llvm.dbg')):
                return None
            a = [self.val(st, env, v) for v, t in args]
            r = self.intrinsic(st, callee, a)
            if dst is not None:
                env[dst] = r
            return None
        path = self.path(callee)
        if 'precondition_check' in path and callee in self.m.funcs and not getattr(self, 'check_ub', False):
            pass
        a = [self.val(st, env, v) for v, t in args]
        c = self.contracts.get(path)
        if c is not None:
            fn = self.m.funcs.get(callee)
            r = c(self, st, a, fn)
            if r is not NotImplemented:
                self.stubbed[path] = self.stubbed.get(path, 0) + 1
                if dst is not None:
                    env[dst] = r
                return None
        fn = self.m.funcs.get(callee)
        if fn is not None:
            self.push(st, callee, a, dst)
            self.encoded[path] = self.encoded.get(path, 0) + 1
            return 'pushed'
        if any(x in path for x in PANICS):
            raise Panic(path)
        if path.startswith('std::sys::sync::once::') and path.endswith('::Once::call'):
            # one thread: not yet done (the fast path is inlined at the caller), so run the closure; done afterwards
            self.store(st, a[0], 4, 0)
            f = self.load(st, Ptr(a[3].o, a[3].off + 32), 8)
            if not (isinstance(f, Ptr) and isinstance(f.o, tuple)):
                raise Inconclusive('indirect call')
            self.push(st, f.o[1], [a[2], st.alloc(16, 'once', bytes(16))], None)
            return 'pushed'
        e = self.extern.get(path)
        if e is not None:
            r = e(self, st, a)
        else:
            self.callee = callee
            r = self.external(st, path, a)
        if dst is not None:
            env[dst] = r
        return None

    def merged_call(self, st, fr, callee, a, dst):
        raise Inconclusive('merge not implemented')

    def external(self, st, path, a):
        if path.endswith('::__rust_no_alloc_shim_is_unstable_v2'):
            return None
        if path.endswith('::__rust_alloc'):
            if not isinstance(a[0], int):
                raise Inconclusive('allocation of symbolic size')
            return st.alloc(a[0], 'heap')
        if path.endswith('::__rust_alloc_zeroed'):
            return st.alloc(a[0], 'heap0', bytes(a[0]))
        if path.endswith('::__rust_dealloc'):
            if isinstance(a[0], Ptr):
                st.mem.pop(a[0].o, None)
            return None
        if path.endswith('::__rust_realloc'):
            p = st.alloc(a[3], 'heap')
            self.memcpy(st, p, a[0], min(a[1], a[3]))
            st.mem.pop(a[0].o, None)
            return p
        if path in ('memcmp', 'bcmp'):
            return self.memcmp(st, *a)
        if path.startswith('alloc::raw_vec::RawVec') and path.endswith('grow_one'):
            return self.grow_one(st, a[0])
        raise Inconclusive('external function %s' % path)

    def grow_one(self, st, p):
        # RawVec<u8> { cap, ptr, alloc }
        if 'RawVechE8grow_one' not in self.callee:
            raise Inconclusive('RawVec::grow_one without body')
        cap, old = self.load(st, p, 8), self.load(st, Ptr(p.o, p.off + 8), 8)
        if not isinstance(cap, int):
            raise Inconclusive('vector of symbolic capacity')
        n = max(8, 2 * cap)
        new = st.alloc(n, 'heap')
        if cap:
            self.memcpy(st, new, old, cap)
            st.mem.pop(old.o, None)
        self.store(st, p, 8, n)
        self.store(st, Ptr(p.o, p.off + 8), 8, new)
        return None

    def memcmp(self, st, p, q, n):
        if not isinstance(n, int):
            raise Inconclusive('memcmp of symbolic length')
        xs = [self.load(st, Ptr(p.o, p.off + i), 1) for i in range(n)] if n else []
        ys = [self.load(st, Ptr(q.o, q.off + i), 1) for i in range(n)] if n else []
        if all(isinstance(x, int) for x in xs + ys):
            for x, y in zip(xs, ys):
                if x != y:
                    return (x - y) & 0xffffffff
            return 0
        eqs = []
        for x, y in zip(xs, ys):
            e = icmp('eq', 8, x, y)
            if isinstance(e, int):
                if not e:
                    return 1      # only (in)equality with 0 is meaningful for callers here
            else:
                eqs.append(e)
        if not eqs:
            return 0
        return z3.If(z3.And(eqs) if len(eqs) > 1 else eqs[0], z3.BitVecVal(0, 32), z3.BitVecVal(1, 32))

    def intrinsic(self, st, callee, a):
        n = callee[6:]
        if n.startswith('threadlocal.address'):
            return a[0]
        if n.startswith('memcpy') or n.startswith('memmove'):
            self.memcpy(st, a[0], a[1], a[2])
            return None
        if n.startswith('memset'):
            self.memset(st, a[0], a[1], a[2])
            return None
        if '.with.overflow.' in n:
            kind = n.split('.')[0]
            w = int(n.rsplit('.i', 1)[1])
            return self.overflow(st, kind, w, a[0], a[1])
        if n.startswith(('umin', 'umax', 'smin', 'smax')):
            w = int(n.rsplit('.i', 1)[1])
            c = icmp({'umin': 'ult', 'umax': 'ugt', 'smin': 'slt', 'smax': 'sgt'}[n[:4]], w, a[0], a[1])
            if not isinstance(c, int):
                d = self.decide(st, c)
                if d is not None:
                    c = d
            if isinstance(c, int):
                return a[0] if c else a[1]
            r = select(c, a[0], a[1], w)
            if r is None:
                raise Fork([(c, {}, None), (z3.Not(c), {}, None)])
            return r
        if n.startswith('usub.sat') or n.startswith('uadd.sat'):
            w = int(n.rsplit('.i', 1)[1])
            if isinstance(a[0], int) and isinstance(a[1], int):
                return max(0, a[0] - a[1]) if n.startswith('usub') else min((1 << w) - 1, a[0] + a[1])
        if n.startswith('ctpop'):
            if isinstance(a[0], int):
                return bin(a[0]).count('1')
            raise Inconclusive('ctpop of a symbolic value')
        if n.startswith(('cttz', 'ctlz')):
            w = int(n.rsplit('.i', 1)[1])
            x = a[0]
            if isinstance(x, int):
                if n.startswith('cttz'):
                    return w if x == 0 else _v2i(x)
                return w - x.bit_length()
            if isinstance(x, Bits):
                x = bits_norm(x)
            if isinstance(x, Bits):
                for i in range(w) if n.startswith('cttz') else range(w - 1, -1, -1):
                    if x.b[i] > 1:
                        raise ForkBit((x.b[i] >> 1) - 1)
                    if x.b[i]:
                        return i if n.startswith('cttz') else w - 1 - i
                return w
            if isinstance(x, BT):
                x = bit_arg(x)
                if isinstance(x, BT) and all(isinstance(v, int) for v in x.v):
                    r = bt_map((lambda v: w if v == 0 else _v2i(v)) if n.startswith('cttz') else (lambda v: w - v.bit_length()), x)
                    if isinstance(r, BT):
                        raise ForkBit(pickbit(r))
                    return r
                if isinstance(x, int):
                    return (w if x == 0 else _v2i(x)) if n.startswith('cttz') else w - x.bit_length()
            x = to_bv(x, w)
            r = z3.BitVecVal(w, w)
            rng = range(w - 1, -1, -1) if n.startswith('cttz') else range(w)
            for i in rng:
                v = i if n.startswith('cttz') else w - 1 - i
                r = z3.If(z3.Extract(i, i, x) == 1, z3.BitVecVal(v, w), r)
            return r
        if n.startswith('bswap'):
            w = int(n.rsplit('.i', 1)[1])
            if isinstance(a[0], int):
                return int.from_bytes(a[0].to_bytes(w // 8, 'little'), 'big')
        if n.startswith(('fshl', 'fshr')):
            w = int(n.rsplit('.i', 1)[1])
            if isinstance(a[2], int):
                s = a[2] % w
                if n.startswith('fshr'):
                    s = (w - s) % w
                if s == 0:
                    return a[0] if n.startswith('fshl') else a[1]
                return binop('or', w, binop('shl', w, a[0], s), binop('lshr', w, a[1], w - s))
        if n.startswith('is.constant'):
            return 0
        if n.startswith('expect'):
            return a[0]
        if n.startswith('trap'):
            raise Panic('trap')
        if n.startswith('abs.'):
            w = int(n.rsplit('.i', 1)[1])
            if isinstance(a[0], int):
                return abs(sx(a[0], w)) & ((1 << w) - 1)
            c = icmp('slt', w, a[0], 0)
            r = select(c, binop('sub', w, 0, a[0]), a[0], w)
            if r is None:
                raise Fork([(c, {}, None), (z3.Not(c), {}, None)])
            return r
        raise Inconclusive('intrinsic ' + callee)

    def overflow(self, st, kind, w, a, b):
        op = kind[1:]
        sgn = kind[0] == 's'
        M = 1 << w
        r = binop(op, w, a, b)
        if isinstance(a, int) and isinstance(b, int):
            x, y = (sx(a, w), sx(b, w)) if sgn else (a, b)
            v = x + y if op == 'add' else x - y if op == 'sub' else x * y
            ok = -(M // 2) <= v < M // 2 if sgn else 0 <= v < M
            return [r, 0 if ok else 1]
        if bitty(a) or bitty(b):
            return [r, bt_map(lambda x, y: self.overflow(st, kind, w, x, y)[1], bit_arg(a), bit_arg(b))]
        if isinstance(a, Mux) or isinstance(b, Mux):
            if isinstance(a, (int, Mux, Poly)) and isinstance(b, (int, Mux, Poly)):
                o = mux_map2(lambda x, y: self.overflow(st, kind, w, x, y)[1], a, b)
                return [r, to_bool(o) if not isinstance(o, int) else o]
            a, b = to_bv(a, w), to_bv(b, w)
        if isinstance(a, (int, Poly)) and isinstance(b, (int, Poly)):
            rd = signed if sgn else unsigned
            x, y = rd(a, w), rd(b, w)
            v = padd(x, y) if op == 'add' else padd(x, y, -1) if op == 'sub' else pmul(x, y)
            v = pcollapse(P(v))
            if isinstance(v, int):
                ok = -(M // 2) <= v < M // 2 if sgn else 0 <= v < M
                return [v & (M - 1), 0 if ok else 1]
            lo, hi = (-(M // 2), M // 2 - 1) if sgn else (0, M - 1)
            if entails_range(v, lo, hi):
                return [v, 0]
            z = pz3(v)
            return [v, PolyBool(v, z3.Or(z < lo, z > hi))]
        x, y = to_bv(a, w), to_bv(b, w)
        e = z3.SignExt(w, x) if sgn else z3.ZeroExt(w, x)
        f = z3.SignExt(w, y) if sgn else z3.ZeroExt(w, y)
        v = e + f if op == 'add' else e - f if op == 'sub' else e * f
        rr = z3.Extract(w - 1, 0, v)
        back = z3.SignExt(w, rr) if sgn else z3.ZeroExt(w, rr)
        return [r, simp(v != back)]


def bump(p, k):
    if isinstance(p, Ptr):
        return Ptr(p.o, binop('add', 64, p.off, k))
    if isinstance(p, BT):
        return bt_map(lambda x: bump(x, k), p)
    raise Inconclusive('address %r' % (p,))


def pickbit(c):
    """the atom whose value settles most of the table"""
    best, ba = -1, c.s[0]
    for k, a in enumerate(c.s):
        sc = 0
        for h in (0, 1):
            vs = [v for i, v in enumerate(c.v) if i >> k & 1 == h]
            if all(sameval(v, vs[0]) for v in vs):
                sc += 1
        if sc > best:
            best, ba = sc, a
    return ba


def _v2i(x):
    return (x & -x).bit_length() - 1


def simp_bool(e):
    return z3.simplify(e)


class ForkVals(Exception):
    def __init__(self, e, alts):
        self.e = e
        self.alts = alts

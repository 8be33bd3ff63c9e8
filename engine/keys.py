"""Key objects, their text forms, and key generation."""
import ctypes
import os
from proto import *

VAL = 'hex::val'


def val_summary(ctx, path):
    """hex digit decoding executed once for every character: [(condition, written bytes)] over symbols"""
    c, i = z3.BitVec('hexc', 8), z3.BitVec('hexi', 64)
    E = Engine(ctx.m, {})
    out = []
    for o, ptr in execute(E, path, [Out(32), c, i]):
        ob = E.obj(o.state, ptr[0].o)
        wr = {}
        for off in range(32):
            try:
                b = E.load(o.state, Ptr(ptr[0].o, ptr[0].off + off), 1)
            except Inconclusive:
                continue
            if b is not UNDEF:
                wr[off] = b if isinstance(b, int) else to_bv(b, 8)
        out.append((z3.And([z3.BoolVal(True)] + list(o.state.pc)), wr))
    return c, i, out


class KWorld(World):
    def __init__(self, ctx):
        World.__init__(self, ctx)
        self.drawn = []
        self.sums = {}

    def c_val(self, E, st, a, fn):
        """the digits of one kind of outcome are merged into one value; outcomes writing different fields fork"""
        path = E.path(fn) if isinstance(fn, str) else E.path(fn.name)
        if isinstance(a[1], int):
            return NotImplemented
        if path not in self.sums:
            self.sums[path] = val_summary(self.ctx, path)
        c, i, outs = self.sums[path]
        sb = lambda x: x if isinstance(x, int) else simp(z3.substitute(x, (c, to_bv(a[1], 8)), (i, to_bv(a[2], 64))))
        groups = {}
        for cond, wr in outs:
            groups.setdefault(tuple(sorted(wr)), []).append((sb(cond), {k: sb(v) for k, v in wr.items()}))
        alts = [(z3.Or([x for x, _ in g]), g) for g in groups.values()]
        live = [(c_, g) for c_, g in alts if self.decided(E, st, c_) != 0]
        if len(live) > 1:
            raise Fork([(c_, {}, None) for c_, _ in live])
        g = live[0][1]
        for off in g[0][1]:
            v = g[-1][1][off]
            for cond, wr in g[-2::-1]:
                w = wr[off]
                if not eqterm(v, w):
                    v = z3.If(cond, bv(w), bv(v))
            E.put_words(st, Ptr(a[0].o, a[0].off + off), [v], 1)
        return None

    @staticmethod
    def decided(E, st, c):
        return E.decide(st, c)

    def draw(self, n):
        r = [z3.BitVec('g%d' % (len(self.drawn) + j), 8) for j in range(n)]
        self.drawn += r
        return r

    def c_fill(self, E, st, a, fn):
        if not isinstance(a[2], int):
            return NotImplemented
        E.put_words(st, a[1], self.draw(a[2]), 1)
        return 0

    def c_u32(self, E, st, a, fn):
        return z3.Concat(list(reversed(self.draw(4))))

    def c_u64(self, E, st, a, fn):
        return z3.Concat(list(reversed(self.draw(8))))

    def contracts(self):
        c = World.contracts(self)
        for n in self.ctx.m.funcs:
            d_ = ir.demangle(n)
            if d_.startswith('hex::val'):
                if has(self.ctx.m, d_, 'pii'):
                    c[d_] = self.c_val
            elif 'ThreadRng' in d_ or d_.startswith('rand_core::os::OsRng'):
                for suf, f in (('RngCore::fill_bytes', self.c_fill), ('RngCore::try_fill_bytes', self.c_fill), ('RngCore::next_u32', self.c_u32), ('RngCore::next_u64', self.c_u64)):
                    if d_.endswith(suf):
                        c[d_] = f
                if 'drop_glue' in d_ or d_.endswith('Drop::drop'):
                    c[d_] = lambda E, st, a, fn: None
            elif d_.endswith('thread::thread_rng') and d_.startswith('rand::'):
                c[d_] = lambda E, st, a, fn: st.alloc(64, 'rng')
        return c


def kruns(W, path, args, panics=False):
    E = Engine(W.ctx.m, W.contracts())
    E.mask_fork = True
    return E, execute(E, path, args, panics=panics)


def retval(o, w=32):
    r = o.value
    return z3.BitVecVal(r, w) if isinstance(r, int) else to_bv(r, w)


def check_pair(W, E, o, sec, ver, want, name):
    """byte form = want, verifying key = derived public key"""
    pc = list(o.state.pc)
    s = getbytes(E, o.state, sec, 57)
    v = getbytes(E, o.state, ver, 57)
    if any(x is UNDEF for x in s):
        raise Failed(name, 'a byte is never written')
    s = [x if isinstance(x, int) else to_bv(x, 8) for x in s]
    same_bytes(name + ' bytes', s, want, pc)
    for raw in (0, 1):
        t = bv(s[56])
        facts = pc + [top_bit(t) if raw else z3.Not(top_bit(t))]
        if solve(facts)[0] == 'unsat':
            continue
        S_ = Spec(W, facts)
        same_bytes(name + ' public key', v, S_.public(s, raw), facts + S_.ax)


HOWS = {'vh_sk_from_slice': 'bytes', 'vh_sk_from_bytes': 'bytes', 'vh_sk_from_secret_bytes': 'bytes', 'vh_sk_from_str': 'hex', 'vh_sk_from_secret_str': 'hex'}


def is_lower(c):
    return z3.Or(z3.And(z3.UGE(c, 48), z3.ULE(c, 57)), z3.And(z3.UGE(c, 97), z3.ULE(c, 102)))


def is_upper(c):
    return z3.And(z3.UGE(c, 65), z3.ULE(c, 70))


def is_hex(c):
    return z3.Or(is_lower(c), is_upper(c))


def nib(c):
    return z3.If(z3.ULE(c, 57), c - 48, z3.If(z3.UGE(c, 97), c - 87, c - 55))


def unhex(cs):
    return [nib(bv(cs[2 * i])) << 4 | nib(bv(cs[2 * i + 1])) for i in range(len(cs) // 2)]


def text(n, win=None, bg=b''):
    """n characters, all symbolic, or only those of a window"""
    cs = kbytes('c', n)
    if win is None:
        return cs
    return [cs[i] if win[0] <= i < win[1] else bg[i] for i in range(n)]


def buildspec(ctx, fn, n):
    """constructors: a key of exactly 57 bytes, or a refusal"""
    def go():
        W = KWorld(ctx)
        k = kbytes('k', n)
        E, outs = kruns(W, fn, [Mem(k, 1, max(n, 1)), n, Out(57), Out(57)], True)
        for o, ptr in outs:
            if n == 57:
                if o.kind == 'panic':
                    raise Failed(fn, 'panics', facts=o.state.pc)
                prove('%s builds a key' % fn, o.state.pc, retval(o) != 1)
                check_pair(W, E, o, ptr[2], ptr[3], k, fn)
            elif o.kind == 'panic':
                if fn == 'vh_sk_from_bytes':
                    raise Failed(fn, 'panics', facts=o.state.pc)
                LOG.add('%s refuses %d bytes' % (fn, n))
            else:
                prove('%s refuses %d bytes' % (fn, n), o.state.pc, retval(o) != 105 if fn == 'vh_sk_from_bytes' else retval(o) == 1)
        return True
    return ctx.memo(('build', fn, n), lambda: quietly(go))


def hexcase(ctx, fn, n, cs, human=None):
    """text consumers: [(outcome, engine, pointers, world)]"""
    W = KWorld(ctx)
    outs_n = {'vh_hex_to_private_key': [57], 'vh_hex_to_signature': [114], 'vh_hex_to_message_hash': [32], 'vh_vk_from_str': [57], 'vh_de_verifying': [57]}.get(fn, [57, 57])
    args = [Mem(cs, 1, max(n, 1)), n] + ([human] if human is not None else []) + [Out(x) for x in outs_n]
    E, outs = kruns(W, fn, args, True)
    return W, E, outs, outs_n


def textspec(ctx, fn, n, human=None, win=None, bg=b''):
    """from text: the key it spells; a refusal when it is not hex of the right length"""
    def go():
        cs = text(n, win, bg)
        W, E, outs, outs_n = hexcase(ctx, fn, n, cs, human)
        size = outs_n[0]
        serde = fn.startswith('vh_de_')
        ok = n == 2 * size and human != 0
        allhex = z3.And([is_hex(bv(c)) for c in cs]) if n else z3.BoolVal(True)
        lower = z3.And([is_lower(bv(c)) for c in cs]) if n else z3.BoolVal(True)
        built = 0
        for o, ptr in outs:
            pc = list(o.state.pc)
            if o.kind == 'panic':
                if serde:
                    raise Failed(fn, 'panics on %d characters: %s' % (n, o.value), facts=pc)
                if ok:
                    prove('%s of %d characters refuses only what is not hex' % (fn, n), pc, lower)
                else:
                    LOG.add('%s refuses %d characters' % (fn, n))
                continue
            r = retval(o) if fn not in ('vh_hex_to_private_key', 'vh_hex_to_signature', 'vh_hex_to_message_hash') else z3.BitVecVal(1, 32)
            good = size if fn == 'vh_vk_from_str' else 1
            if not ok:
                prove('%s refuses %d characters' % (fn, n), pc, r != 0 if serde else r == good)
                continue
            prove('%s of %d characters refuses what is not hex' % (fn, n), pc, z3.And(r == good, z3.Not(allhex)))
            prove('%s of %d characters takes what is hex' % (fn, n), pc, z3.And(r != good, lower))
            if solve(pc + [r == good])[0] == 'unsat':
                continue
            o.state.assume(simp(r == good))
            built += 1
            if len(outs_n) == 2:
                check_pair(W, E, o, ptr[-2], ptr[-1], unhex(cs), fn)
            else:
                got = getbytes(E, o.state, ptr[-1], size)
                same_bytes(fn, got, unhex(cs), o.state.pc)
        if ok and not built and win is None:
            raise Failed(fn, 'nothing decodes')
        return True
    return ctx.memo(('text', fn, n, human, win, bg), lambda: quietly(go))


def serspec(ctx, fn):
    """text form of a key: 114 lower-case digits"""
    def go():
        W = KWorld(ctx)
        k = kbytes('k', 57)
        E, outs = kruns(W, fn, [Mem(k, 1), Out(512)])
        dig = lambda x: z3.If(z3.ULT(x, 10), x + 48, x + 87)
        want = []
        for b in k:
            want += [dig(z3.LShR(b, 4)), dig(b & 15)]
        for o, ptr in outs:
            prove(fn + ' length', o.state.pc, retval(o, 64) != 114)
            same_bytes(fn, getbytes(E, o.state, ptr[1], 114), want, o.state.pc)
        return True
    return ctx.memo(('ser', fn), lambda: quietly(go))


def prehashspec(ctx, n):
    def go():
        W = KWorld(ctx)
        k, m = kbytes('k', 57), kbytes('m', n)
        E, outs = kruns(W, 'vh_sign_prehash', [Mem(k, 1), Mem(m, 1, max(n, 1)), n, Out(512)])
        for o, ptr in outs:
            prove('sign_prehash length', o.state.pc, retval(o) != 171)
            got = getbytes(E, o.state, ptr[-1], 171)
            for raw in (0, 1):
                facts = list(o.state.pc) + [top_bit(k[56]) if raw else z3.Not(top_bit(k[56]))]
                if solve(facts)[0] == 'unsat':
                    continue
                S_ = Spec(W, facts)
                want = S_.sign(*S_.expand(k, raw), m) + list(S_.public(k, raw))
                same_bytes('sign_prehash of %d bytes' % n, got, want, facts + S_.ax)
        return True
    return ctx.memo(('prehash', n), lambda: quietly(go))


def symbols(e):
    out, todo, seen = set(), [e], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.num_args() == 0 and z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(x.decl().name())
        todo += x.children()
    return out


def bijective(name, cases):
    """57 of the drawn bytes determine the key one-to-one, whatever the others are: a uniform draw gives a uniform key.
    cases: [(path condition, key bytes)]"""
    pick, vs = [], {}
    for i in range(57):
        fresh = None
        for pc, out in cases:
            b = out[i]
            s = {x for x in symbols(b) if x[:1] == 'g' and x not in vs} if not isinstance(b, int) else set()
            if s:
                fresh = s if fresh is None else fresh & s
        if fresh is None or not fresh:
            # on some path: let the solver look for two draws that give one key, with any bytes in this place
            for pc, out in cases:
                s = set() if isinstance(out[i], int) else symbols(out[i])
                if not {x for x in s if x[:1] == 'g'} - set(vs):
                    raise Failed(name, 'byte %d of a key depends on no fresh drawn byte' % i, facts=list(pc))
            raise Inconclusive('different draws on different paths')
        new = min(fresh, key=lambda x: int(x[1:]))
        vs[new] = 1
        pick.append(new)
    sub = [(z3.BitVec(x, 8), z3.BitVec(x + 'y', 8)) for x in pick]
    if len(cases) > 12:
        raise Inconclusive('too many paths')
    for pc, out in cases:
        for pc2, out2 in cases:
            two = [z3.substitute(bv(b), *sub) for b in out2]
            prove(name + ': different draws give different keys',
                  list(pc) + [z3.substitute(c, *sub) for c in pc2] + [bv(a) == b for a, b in zip(out, two)], z3.Or([a != b for a, b in sub]))


def randspec(ctx, fn):
    def go():
        W = KWorld(ctx)
        feed = fn == 'vh_sk_random'
        args = [Mem(kbytes('g', 1024), 1), Out(57), Out(57)] if feed else [Out(57)]
        E, outs = kruns(W, fn, args)
        cases = []
        for o, ptr in outs:
            got = getbytes(E, o.state, ptr[1 if feed else 0], 57)
            if any(x is UNDEF for x in got):
                raise Failed(fn, 'a key byte is never written')
            got = [x if isinstance(x, int) else to_bv(x, 8) for x in got]
            drawn = {'g%d' % i for i in range(1024)}
            pc = [c for c in o.state.pc if symbols(c) and symbols(c) <= drawn]
            for k in (k for k in cases if all(eqterm(x, y) for x, y in zip(k[1], got))):
                k[0][:] = [z3.Or(z3.And(k[0]), z3.And(pc))]
                break
            else:
                cases.append((pc, got))
            if feed:
                check_pair(W, E, o, ptr[1], ptr[2], got, fn)
        bijective(fn, cases)
        return True
    return ctx.memo(('rand', fn), lambda: quietly(go))


# ---------------------------------------------------------------- native oracles
class Forced:
    """in this (forked) process the thread generator hands out chosen bytes: its methods are replaced by callbacks"""
    def __init__(self, nat):
        nat.load()
        self.buf, self.pos = b'', 0
        self.keep = []
        libc = ctypes.CDLL(None, use_errno=True)
        todo = []
        for d_ in nat.paths:
            if 'ThreadRng' in d_:
                for suf in ('fill_bytes', 'try_fill_bytes', 'next_u32', 'next_u64'):
                    if d_.endswith('RngCore::' + suf):
                        todo.append((nat.addr(d_), suf))
        for ad, suf in todo:
            if suf.endswith('fill_bytes'):
                cb = ctypes.CFUNCTYPE(ctypes.c_uint64, ctypes.c_void_p, ctypes.c_void_p, ctypes.c_uint64)(self.fill)
            else:
                w = 4 if suf == 'next_u32' else 8
                cb = ctypes.CFUNCTYPE(ctypes.c_uint64, ctypes.c_void_p)(lambda _, w=w: int.from_bytes(self.take(w), 'little'))
            self.keep.append(cb)
            code = b'\x48\xb8' + ctypes.cast(cb, ctypes.c_void_p).value.to_bytes(8, 'little') + b'\xff\xe0'
            pg = ad & ~4095
            if libc.mprotect(ctypes.c_void_p(pg), ctypes.c_size_t(8192), 7):
                raise OSError('mprotect')
            ctypes.memmove(ad, code, len(code))

    def take(self, n):
        r = (self.buf + bytes(n))[self.pos:self.pos + n]
        self.pos += n
        return r.ljust(n, b'\0')

    def fill(self, _, p, n):
        ctypes.memmove(p, self.take(n), n)
        return 0


FORCED = {}


def fed(nat, fn, feed):
    if fn == 'vh_sk_random':
        return nat.call(fn, [feed, bytes(57), bytes(57)])[1][1]
    if nat.so not in FORCED:
        FORCED[nat.so] = Forced(nat)
    f = FORCED[nat.so]
    f.buf, f.pos = feed, 0
    return nat.call(fn, [bytes(57)])[1][0]


@oracle('feed')
def o_feed(nat, c):
    """chosen generator outputs (run in a child of its own: the generator stays replaced)"""
    fn = c['fn']
    if 'a' in c:
        a, b = bytes.fromhex(c['a']), bytes.fromhex(c['b'])
        ka, kb = fed(nat, fn, a), fed(nat, fn, b)
        if FORCED and not FORCED[nat.so].pos:
            return None
        return '%s gives the key %s for two different generator outputs' % (fn, ka.hex()) if ka == kb and fed(nat, fn, a) == ka and a != b else None
    # on how many bytes of the generator does the key depend?
    rng = random.Random(8)
    dep = set()
    for rep in range(3):
        f = bytearray(rng.randbytes(1024))
        k = fed(nat, fn, bytes(f))
        if fn != 'vh_sk_random' and FORCED[nat.so].pos == 0:
            return None
        if fed(nat, fn, bytes(f)) != k:
            return None
        for i in range(300):
            g = bytearray(f)
            g[i] ^= rng.randrange(1, 256)
            if fed(nat, fn, bytes(g)) != k:
                dep.add(i)
        if len(dep) >= 57:
            return None
    return 'keys from %s depend on only %d bytes of the generator' % (fn, len(dep))


def feeds(nat, fn, n, seed=5):
    rng = random.Random(seed)
    for _ in range(n):
        if fn == 'vh_sk_random':
            yield nat.call(fn, [rng.randbytes(1024), bytes(57), bytes(57)])[1][1]
        else:
            yield nat.call(fn, [bytes(57)])[1][0]


@oracle('random')
def o_random(nat, c):
    """statistics over many generated keys: fixed, unbalanced or repeated bytes"""
    n = 1500
    ks = list(feeds(nat, c['fn'], n))
    if len(set(ks)) < n:
        return 'generated keys repeat'
    for i in range(57):
        for b in range(8):
            ones = sum(k[i] >> b & 1 for k in ks)
            if abs(ones - n / 2) > 9 * (n ** .5) / 2:
                return 'bit %d of byte %d is set in %d of %d generated keys' % (b, i, ones, n)
        for j in range(i):
            for op, nm in ((lambda x, y: x ^ y, 'xor'), (lambda x, y: (x - y) & 255, 'difference')):
                cnt = {}
                for k in ks[:400]:
                    v = op(k[i], k[j])
                    cnt[v] = cnt.get(v, 0) + 1
                if max(cnt.values()) > 40:
                    return 'bytes %d and %d of generated keys are related (%s)' % (j, i, nm)
    # a linear relation between the bits of every generated key
    base = int.from_bytes(ks[0], 'little')
    piv = {}
    for k in ks[1:1500]:
        v = int.from_bytes(k, 'little') ^ base
        while v and v.bit_length() in piv:
            v ^= piv[v.bit_length()]
        if v:
            piv[v.bit_length()] = v
    if len(piv) < 456:
        return 'the 456 bits of generated keys span only %d dimensions in %d keys' % (len(piv), 1500)
    if c['fn'] == 'vh_sk_random':
        return None
    # values of a byte that come up too often or never
    n2 = 12000
    cnt = [[0] * 256 for _ in range(57)]
    for k in feeds(nat, c['fn'], n2, 6):
        for i, x in enumerate(k):
            cnt[i][x] += 1
    for i in range(57):
        for v in range(256):
            if cnt[i][v] == 0 or cnt[i][v] > 150:
                return 'byte %d is %d in %d of %d generated keys' % (i, v, cnt[i][v], n2)
    return None


@oracle('keys')
def o_keys(nat, c):
    fn = c['fn']
    d_ = bytes.fromhex(c['d'])
    n = len(d_)
    if c.get('expect') == 'refuse':
        # these refuse by panicking: run in a child
        rd, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                nat.call(fn, [d_ + b' ', n, bytes(114), bytes(114)][:c['na']])
                os.write(wr, b'x')
            finally:
                os._exit(0)
        os.close(wr)
        r = os.read(rd, 1)
        os.close(rd)
        os.waitpid(pid, 0)
        return '%s accepts %r' % (fn, d_) if r else None
    if fn in ('vh_sk_from_slice', 'vh_sk_from_bytes', 'vh_sk_from_secret_bytes', 'vh_sk_from_str', 'vh_sk_from_secret_str', 'vh_de_secret', 'vh_de_signing'):
        de = fn.startswith('vh_de')
        r, b = nat.call(fn, [d_ + b' ', n] + ([c['human']] if de else []) + [bytes(57), bytes(57)])
        if 'want' not in c:
            w = 0 if de else 105
            return None if r == w else '%s returns %d instead of %d for %r' % (fn, r, w, d_)
        w = bytes.fromhex(c['want'])
        if r != 1:
            return '%s returns %d for %r' % (fn, r, d_)
        if b[-2] != w:
            return '%s builds the key %s from %r' % (fn, b[-2].hex(), d_)
        if b[-1] != ref.public(w):
            return '%s builds a key with the wrong public key from %r' % (fn, d_)
        return None
    if fn in ('vh_vk_from_bytes', 'vh_vk_from_str', 'vh_de_verifying'):
        de = fn.startswith('vh_de')
        r, b = nat.call(fn, [d_ + b' ', n] + ([c['human']] if de else []) + [bytes(57)])
        if 'want' not in c:
            return None if r == 0 else '%s returns %d for %r' % (fn, r, d_)
        if r != (1 if de else 57) or b[-1].hex() != c['want']:
            return '%s returns %d, %s for %r' % (fn, r, b[-1].hex(), d_)
        return None
    if fn in ('vh_hex_to_private_key', 'vh_hex_to_signature', 'vh_hex_to_message_hash'):
        w = bytes.fromhex(c['want'])
        _, b = nat.call(fn, [d_, n, bytes(len(w))])
        return None if b[-1] == w else '%s gives %s for %r' % (fn, b[-1].hex(), d_)
    if fn.startswith('vh_ser'):
        r, b = nat.call(fn, [d_, bytes(512)])
        return None if r == 114 and b[1][:114] == d_.hex().encode() else '%s gives %r for %s' % (fn, b[1][:r], d_.hex())
    if fn == 'vh_sign_prehash':
        m = bytes.fromhex(c['m'])
        r, b = nat.call(fn, [d_, m, len(m), bytes(512)])
        w = ref.sign(d_, m) + ref.public(d_)
        return None if r == 171 and b[-1][:171] == w else '%s gives %s instead of %s' % (fn, b[-1][:r].hex(), w.hex())
    raise KeyError(fn)


def rand_cases(fn):
    return ('random', lambda ctx, exc: [{'fn': fn}])


def feed_cases(fn):
    def g(ctx, exc):
        rng = random.Random(46)
        core = core_of(exc)
        for rep in range(8):
            a = bytearray(rng.randbytes(1024))
            b = bytearray(a)
            for nm, v in core.items():
                if nm[:1] == 'g' and nm.rstrip('y')[1:].isdigit():
                    if nm[-1] != 'y':
                        a[int(nm[1:])] = v & 255
                        b[int(nm[1:])] = v & 255 if nm + 'y' not in core else core[nm + 'y'] & 255
                    else:
                        b[int(nm[1:-1])] = v & 255
            if a != b:
                yield {'fn': fn, 'a': a.hex(), 'b': b.hex()}
        m = getattr(exc, 'probe', None)
        if isinstance(m, z3.ModelRef):
            a, b = bytearray(rng.randbytes(1024)), None
            ev = {str(d): m[d].as_long() for d in m.decls() if d.arity() == 0 and z3.is_bv_value(m[d])}
            for nm, v in ev.items():
                if nm[:1] == 'g' and nm[1:].isdigit():
                    a[int(nm[1:])] = v & 255
            b = bytearray(a)
            for nm, v in ev.items():
                if nm[:1] == 'g' and nm[-1] == 'y':
                    b[int(nm[1:-1])] = v & 255
            if a != b:
                yield {'fn': fn, 'a': a.hex(), 'b': b.hex()}
        yield {'fn': fn}
    return ('feed', g)


def build_cases(fn, ns):
    def g(ctx, exc):
        rng = random.Random(43)
        for rep in range(200):
            k = from_model(exc, 'k', 57, rng) if rep < 20 else rng.randbytes(57)
            if fn in HOWS or fn == 'vh_vk_from_bytes':
                yield {'fn': fn, 'd': k.hex(), 'want': k.hex()}
            elif fn.startswith('vh_ser'):
                yield {'fn': fn, 'd': k.hex()}
            else:
                yield {'fn': fn, 'd': k.hex(), 'm': from_model(exc, 'm', ns[rep % len(ns)], rng).hex()}
        if fn in HOWS or fn == 'vh_vk_from_bytes':
            for n in ns:
                if n != 57:
                    for k in (from_model(exc, 'k', n, rng), rng.randbytes(n)):
                        if fn == 'vh_sk_from_bytes':
                            yield {'fn': fn, 'd': k.hex()}
                        else:
                            yield {'fn': fn, 'd': k.hex(), 'expect': 'refuse', 'na': 3 if fn == 'vh_vk_from_bytes' else 4}
    return ('keys', g)


def text_cases(fn, size):
    serde = fn.startswith('vh_de_')
    na = 3 if fn in ('vh_vk_from_str', 'vh_hex_to_private_key', 'vh_hex_to_signature', 'vh_hex_to_message_hash') else 4

    def bad(t):
        c = {'fn': fn, 'd': t.hex()}
        return dict(c, human=1) if serde else dict(c, expect='refuse', na=na)

    def g(ctx, exc):
        rng = random.Random(44)
        H = b'0123456789abcdef'
        hx = b'0123456789abcdefABCDEF'
        for rep in range(60):
            t = bytearray(rng.choice(H) for _ in range(2 * size))
            core = {int(k[1:]): v for k, v in core_of(exc).items() if k[:1] == 'c' and k[1:].isdigit() and int(k[1:]) < 2 * size}
            if rep < 30:
                for i, v in core.items():
                    t[i] = v
            good = all(x in hx for x in t)
            if good:
                c = {'fn': fn, 'd': bytes(t).hex(), 'want': bytes.fromhex(t.decode()).hex()}
                yield dict(c, human=1) if serde else c
                if serde:
                    yield {'fn': fn, 'd': bytes(t).hex(), 'human': 0}
            else:
                yield bad(bytes(t))
            u = bytearray(t)
            if good:
                u[rng.randrange(2 * size)] = rng.choice(b' gGz/:@`\0\x7f\x80\xff')
                yield bad(bytes(u))
                for v in (bytes(t) + b'0', bytes(t) + b'00', bytes(t[:-1]), bytes(t[:-2]), b'', bytes(t) + b' ', b'0x' + bytes(t), b' ' + bytes(t), bytes(t) + b'\n', b'0x' + bytes(t[2:]), bytes(t) * 2, bytes(t[:size])):
                    yield bad(v)
        for i in range(2 * size):
            for ch in b'g\xe9/:`@G ':
                u = bytearray(b'5' * (2 * size))
                u[i] = ch
                yield bad(bytes(u))
        for n in range(0, 300):
            if n != 2 * size:
                yield bad(b'7' * n)
    return ('keys', g)


def windows_fallback(fn, size, human):
    """when the digits cannot be merged: pairs of characters symbolic, the others fixed"""
    def f(ctx):
        rng = random.Random(9)
        for i in range(0, 2 * size, 2):
            textspec(ctx, fn, 2 * size, human, (i, i + 2), bytes(rng.choice(b'0123456789abcdef') for _ in range(2 * size)))
        return 'two characters symbolic at a time, the others fixed'
    return f


def blens(ctx):
    return list(range(0, 61)) + [113, 114, 115, 171, 256] if not ctx.thorough else list(range(0, 300))


def tlens(ctx, size):
    s = 2 * size
    base = [0, 1, 2, s // 2, s // 2 + 1, s - 4, s - 3, s - 2, s - 1, s + 1, s + 2, s + 3, s + 4, 2 * s, 57, 58, 64, 256]
    if ctx.thorough:
        base = list(range(0, 300))
    return [n for n in sorted(set(base)) if n != s]


def ttasks(ctx, fn, size):
    serde = fn.startswith('vh_de_')
    hs = (1, 0) if serde else (None,)
    T = []
    P_ = [text_cases(fn, size)]
    for h in hs:
        tag = {1: '', 0: ', not human readable', None: ''}[h]
        T.append(Task('%s of %d characters%s' % (fn, 2 * size, tag), lambda c, h=h: textspec(c, fn, 2 * size, h), P_,
                      fallback=windows_fallback(fn, size, h) if h != 0 else None, bounds='all strings of %d bytes' % (2 * size)))

        def other(c, h=h):
            for n in tlens(c, size):
                textspec(c, fn, n, h)
        T.append(Task('%s of other lengths%s' % (fn, tag), other, P_, bounds='all strings of %s bytes' % ', '.join(map(str, tlens(ctx, size)))))
    return T


def tasks_text(ctx):
    T = [Task(fn, lambda c, fn=fn: serspec(c, fn), [build_cases(fn, [57])], bounds='all 57-byte keys') for fn in ('vh_ser_secret', 'vh_ser_verifying', 'vh_ser_signing')]
    for fn in ('vh_de_secret', 'vh_de_verifying', 'vh_de_signing'):
        T += ttasks(ctx, fn, 57)
    return T


def tasks_hex(ctx):
    return ttasks(ctx, 'vh_hex_to_private_key', 57) + ttasks(ctx, 'vh_hex_to_signature', 114) + ttasks(ctx, 'vh_hex_to_message_hash', 32)


def tasks_build(ctx):
    T = []
    for fn in HOWS:
        if HOWS[fn] == 'hex':
            T += ttasks(ctx, fn, 57)
            continue

        def f(c, fn=fn):
            for n in [57] + [n for n in blens(c) if n != 57]:
                buildspec(c, fn, n)
        T.append(Task(fn, f, [build_cases(fn, blens(ctx))], bounds='all contents of lengths ' + ', '.join(map(str, blens(ctx)))))
    T.append(Task('vh_vk_from_bytes', vkspec, [build_cases('vh_vk_from_bytes', blens(ctx))], bounds='all contents'))
    T += ttasks(ctx, 'vh_vk_from_str', 57)
    for fn in ('vh_de_secret', 'vh_de_signing'):
        T.append(ttasks(ctx, fn, 57)[0])
    ns = [0, 1, 32, 69, 70, 148] if not ctx.thorough else list(range(0, 160)) + [300, 1000, 4097]
    for n in ns:
        T.append(Task('sign_prehash of %d bytes' % n, lambda c, n=n: prehashspec(c, n), [build_cases('vh_sign_prehash', [n])], bounds='all keys, all messages of %d bytes' % n))
    T.append(Task('vh_sk_random', lambda c: randspec(c, 'vh_sk_random'), [feed_cases('vh_sk_random'), rand_cases('vh_sk_random')], bounds='all generator outputs'))
    return T


def vkspec(ctx):
    def go():
        for n in [57] + [n for n in blens(ctx) if n != 57]:
            W = KWorld(ctx)
            k = kbytes('k', n)
            E, outs = kruns(W, 'vh_vk_from_bytes', [Mem(k, 1, max(n, 1)), n, Out(512)], True)
            for o, ptr in outs:
                if o.kind == 'panic':
                    if n == 57:
                        raise Failed('vh_vk_from_bytes', 'panics', facts=o.state.pc)
                    LOG.add('vh_vk_from_bytes refuses %d bytes' % n)
                    continue
                if n != 57:
                    raise Failed('vh_vk_from_bytes', 'accepts %d bytes' % n, facts=o.state.pc)
                prove('vh_vk_from_bytes length', o.state.pc, retval(o) != 57)
                same_bytes('vh_vk_from_bytes', getbytes(E, o.state, ptr[-1], 57), k, o.state.pc)
        return True
    return ctx.memo(('vk',), lambda: quietly(go))


EQS = ('vh_eq_secret', 'vh_eq_verifying', 'vh_eq_signing')


def eqobjspec(ctx, fn):
    """== holds exactly for equal bytes, != is its negation"""
    def go():
        W = KWorld(ctx)
        k, m = kbytes('k', 57), kbytes('m', 57)
        E, outs = kruns(W, fn, [Mem(k, 1), Mem(m, 1)])
        same = z3.And([a == b for a, b in zip(k, m)])
        for o, ptr in outs:
            r = retval(o)
            prove('%s accepts only equal keys' % fn, o.state.pc, z3.And(r == 1, z3.Not(same)))
            prove('%s answers and negates' % fn, o.state.pc, z3.And(r != 1, r != 2))
        W = KWorld(ctx)
        E, outs = kruns(W, fn, [Mem(k, 1), Mem(k, 1)])
        for o, ptr in outs:
            prove('%s accepts equal keys' % fn, o.state.pc, retval(o) != 1)
        return True
    return ctx.memo(('eqobj', fn), lambda: quietly(go))


def againspec(ctx):
    def go():
        W = KWorld(ctx)
        k = kbytes('k', 57)
        E, outs = kruns(W, 'vh_sk_secret', [Mem(k, 1), Out(57), Out(57)])
        for o, ptr in outs:
            check_pair(W, E, o, ptr[1], ptr[2], k, 'vh_sk_secret')
        return True
    return ctx.memo(('again',), lambda: quietly(go))


def eq_cases(fn):
    def g(ctx, exc):
        rng = random.Random(47)
        for rep in range(300):
            a = from_model(exc, 'k', 57, rng) if rep < 60 else rng.randbytes(57)
            b = bytearray(a)
            core = {int(x[1:]): v for x, v in core_of(exc).items() if x[:1] == 'm' and x[1:].isdigit() and int(x[1:]) < 57}
            for i, v in core.items():
                b[i] = v & 255
            yield {'fn': fn, 'a': a.hex(), 'b': bytes(b).hex()}
            i = rng.randrange(57) if rep >= 57 else rep
            b[i] ^= 1 << rng.randrange(8)
            yield {'fn': fn, 'a': a.hex(), 'b': bytes(b).hex()}
            b[rng.randrange(57)] ^= 1 << rng.randrange(8)
            yield {'fn': fn, 'a': a.hex(), 'b': bytes(b).hex()}
    return ('keyeq', g)


@oracle('keyeq')
def o_keyeq(nat, c):
    a, b = bytes.fromhex(c['a']), bytes.fromhex(c['b'])
    if c['fn'] == 'vh_sk_secret':
        r, x = nat.call(c['fn'], [a, bytes(57), bytes(57)])
        return None if x[1] == a and x[2] == ref.public(a) else 'the secret key of a signing key made from %s rebuilds %s, %s' % (a.hex(), x[1].hex(), x[2].hex())
    r, _ = nat.call(c['fn'], [a, b])
    return None if r == (1 if a == b else 2) else '%s answers %d for %s and %s' % (c['fn'], r, a.hex(), b.hex())


def tasks_eq(ctx):
    return [Task(fn, lambda c, fn=fn: eqobjspec(c, fn), [eq_cases(fn)], bounds='all pairs of 57-byte keys') for fn in EQS] + \
        [Task('vh_sk_secret', againspec, [eq_cases('vh_sk_secret')], bounds='all 57-byte keys')]


def tasks_random(ctx):
    return [Task(fn, lambda c, fn=fn: randspec(c, fn), [feed_cases(fn), rand_cases(fn)], bounds='all generator outputs') for fn in ('vh_generate', 'vh_sk_random')]

"""Signing protocol: public entry points executed over verified arithmetic, with the Keccak permutation uninterpreted."""
from codec import *
import codec
from scal import SC, SP
import scal
import ctypes
import time

i4 = pow(4, -1, q)
MASK64 = (1 << 64) - 1
ERR = {'DecodeError': 1, 'DecodePubkeyError': 2, 'DecodeSignatureError': 3, 'InvalidLengthError': 4, 'InvalidPubkeyLengthError': 6,
       'InvalidSignatureLengthError': 7, 'InvalidSignatureError': 8}
ROT = [[0, 36, 3, 41, 18], [1, 44, 10, 45, 2], [62, 6, 43, 15, 61], [28, 55, 25, 21, 56], [27, 20, 39, 8, 14]]


def keccak_f(a):
    """Keccak-f[1600] on 25 integers (a[x+5y])"""
    a = list(a)
    lfsr = 1

    def rc(t):
        r = 1
        for _ in range(t % 255):
            r <<= 1
            if r & 0x100:
                r ^= 0x171
        return r & 1
    for rnd in range(24):
        c = [a[x] ^ a[x + 5] ^ a[x + 10] ^ a[x + 15] ^ a[x + 20] for x in range(5)]
        d_ = [c[(x - 1) % 5] ^ ((c[(x + 1) % 5] << 1 | c[(x + 1) % 5] >> 63) & MASK64) for x in range(5)]
        a = [a[i] ^ d_[i % 5] for i in range(25)]
        b = [0] * 25
        for x in range(5):
            for y in range(5):
                r = ROT[x][y]
                v = a[x + 5 * y]
                b[y + 5 * ((2 * x + 3 * y) % 5)] = ((v << r) | (v >> (64 - r))) & MASK64 if r else v
        a = [b[i] ^ (~b[(i % 5 + 1) % 5 + 5 * (i // 5)] & b[(i % 5 + 2) % 5 + 5 * (i // 5)]) & MASK64 for i in range(25)]
        for j in range(7):
            if rc(j + 7 * rnd):
                a[0] ^= 1 << ((1 << j) - 1)
    return a


def bv(x, w=8):
    return z3.BitVecVal(x, w) if isinstance(x, int) else x


def eqterm(a, b):
    if isinstance(a, int) or isinstance(b, int):
        return isinstance(a, int) and isinstance(b, int) and a == b
    return a is b or a.eq(b)


class PGroup(Group):
    """token points whose value is {basis: polynomial over scalars}"""

    @staticmethod
    def vadd(a, b, s=1):
        r = dict(a)
        for k, f in b.items():
            r[k] = (r[k] + f.scale(s)) if k in r else f.scale(s)
        return {k: f for k, f in r.items() if f.d}

    def known(self, kind, cs):
        v = Group.known(self, kind, cs)
        return {k: SP.const(f.d[()]) for k, f in v.items()}

    def use(self, op, flag=0):
        pass


class World:
    """shared by the executions of the code and by the specification: equal arguments give the same symbols"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.wide = False       # histories: any two arguments may be equal
        self.perms = []
        self.dls = []
        self.encs = []
        self.pts = []
        self.valid = []
        self.eqs = {}
        self.fps, self.seen, self.fpm, self.rng = {}, {}, z3.Model(), random.Random(7)
        self.G = PGroup(ctx)
        self.G.whole = False
        self.S = scal.Scalars(ctx)
        self.lay = layout(ctx)
        self.err = self.errbytes()

    def errbytes(self):
        def go():
            r = [self.ctx.nat.one(DECODE, [bytes([s]) * 264, b'\xff' * 57, 57]) for s in (0xee, 0x11)]
            if r[0][0] != 'ok' or r[1][0] != 'ok':
                return None
            return [(i, x) for i, (x, y) in enumerate(zip(r[0][2][0], r[1][2][0])) if x == y]
        return self.ctx.memo(('errbytes',), go)

    # -- matching of argument tuples
    def fingerprint(self, x):
        """value under one random assignment of the symbols: cheap evidence that two words differ"""
        if isinstance(x, int):
            return x
        i = x.get_id()
        if i in self.fps:
            return self.fps[i][0]
        todo, seen = [x], self.seen
        while todo:
            y = todo.pop()
            j = y.get_id()
            if j in seen:
                continue
            seen[j] = y
            if y.num_args() == 0 and z3.is_const(y) and y.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                if z3.is_bv(y):
                    self.fpm.update_value(y, z3.BitVecVal(self.rng.getrandbits(y.size()), y.size()))
                elif z3.is_bool(y):
                    self.fpm.update_value(y, z3.BoolVal(self.rng.random() < .5))
            todo += y.children()
        v = self.fpm.eval(x, model_completion=True)
        v = v.as_long() if z3.is_bv_value(v) else -1
        self.fps[i] = (v, x)
        return v

    def find(self, table, key, pc, most=None):
        if self.wide:
            most = None
        if most is not None:
            # exact matches by fingerprint, near ones by the number of differing words
            fp = [self.fingerprint(x) for x in key]
            for row in table:
                if row[2] == fp and all(eqterm(a, b) for a, b in zip(row[0], key)):
                    return row
            table = [r for r in table if sum(map(int.__ne__, r[2], fp)) <= most]
        for row in table if not self.wide else ():
            k = row[0]
            if len(k) == len(key) and all(eqterm(a, b) for a, b in zip(k, key)):
                return row
        for row in table:
            k = row[0]
            if len(k) != len(key):
                continue
            if all(eqterm(a, b) for a, b in zip(k, key)):
                return row
            ne = []
            for a, b in zip(k, key):
                if eqterm(a, b):
                    continue
                if isinstance(a, int) and isinstance(b, int):
                    ne = None
                    break
                w = (a if not isinstance(a, int) else b).size()
                ne.append(bv(a, w) != bv(b, w))
            if ne is None or (not self.wide and len(ne) > 60 and len(ne) * 2 > len(key)):
                continue
            r, _ = solve(list(pc) + [z3.Or(ne)], 5000)
            if r == 'unsat':
                return row
        return None

    def perm(self, ws, pc):
        if all(isinstance(w, int) for w in ws):
            return keccak_f(ws)
        r = self.find(self.perms, ws, pc, 12)
        if r is None:
            n = len(self.perms)
            r = (list(ws), [z3.BitVec('h%d_%d' % (n, i), 64) for i in range(25)], [self.fingerprint(x) for x in ws])
            self.perms.append(r)
        return r[1]

    def c_perm(self, E, st, a, fn):
        if len(a) > 1 and a[1] != 24:
            raise Failed('hash', 'the permutation is run with %r rounds' % (a[1],))
        ws = E.words(st, a[0], 25, 8)
        E.put_words(st, a[0], self.perm(ws, st.pc), 8)
        return None

    # -- scalars from bytes and back
    def dl(self, bs, pc):
        if all(isinstance(b, int) for b in bs):
            return SP.const(sum(b << (8 * i) for i, b in enumerate(bs)) % q)
        for row in self.encs:
            k = row[0] if len(bs) == 57 else row[0][:len(bs)] if len(bs) == 56 else []
            if len(k) == len(bs) and all(eqterm(a, b) for a, b in zip(k, bs)):
                return row[1]
        r = self.find(self.dls, bs, pc)
        if r is None:
            r = (list(bs), SP.var('dl%d' % len(self.dls)))
            self.dls.append(r)
        return r[1]

    def c_dl(self, E, st, a, fn):
        if not isinstance(a[2], int):
            return NotImplemented
        bs = [E.load(st, Ptr(a[1].o, a[1].off + i), 1) for i in range(a[2])]
        if a[2] not in (56, 57, 114):
            scal.declong(self.ctx, a[2])
        E.put_words(st, a[0], self.S.new(self.dl(bs, st.pc)))
        return None

    def enc(self, f):
        """57 bytes of a scalar, with what is known about them"""
        if not f.d or set(f.d) == {()}:
            return list(f.d.get((), 0).to_bytes(57, 'little')), []
        for row in self.encs:
            if row[1].key == f.key:
                return row[0], row[2]
        e = z3.BitVec('es%d' % len(self.encs), 448)
        ax = [z3.ULT(e, z3.BitVecVal(q, 448))]
        for bs, v in self.dls:
            if v.key == f.key and len(bs) <= 57:
                V_ = z3.ZeroExt(464 - 8 * len(bs), z3.Concat([bv(b) for b in reversed(bs)]))
                ax.append(z3.Implies(z3.ULT(V_, z3.BitVecVal(q, 464)), z3.ZeroExt(16, e) == V_))
        out = [z3.Extract(8 * i + 7, 8 * i, e) for i in range(56)] + [0]
        self.encs.append((out, f, ax))
        return out, ax

    def c_enc(self, E, st, a, fn):
        x = E.words(st, a[1], 14)
        if not self.S.canonical(x):
            raise Inconclusive('encode of a scalar that is not known to be reduced')
        out, ax = self.enc(self.S.rec(x))
        for c in ax:
            st.assume(c)
        E.put_words(st, a[0], out, 1)
        return None

    # -- points
    def vkey(self, v):
        return tuple(sorted((b, f.key) for b, f in v.items()))

    def encp(self, val):
        """encoding of psi(val) for val = {'G': f, 'D3': g, ...}"""
        k = self.vkey(val)
        for row in self.pts:
            if row[1] == k:
                return row[0], row[3]
        e = z3.BitVec('ep%d' % len(self.pts), 456)
        y = z3.Extract(447, 0, e)
        ax = [z3.ULT(y, z3.BitVecVal(p, 448)), z3.Extract(454, 448, e) == 0, e != 0]
        out = [z3.Extract(8 * i + 7, 8 * i, e) for i in range(57)]
        self.pts.append((out, k, val, ax))
        return out, ax

    def c_encp(self, E, st, a, fn):
        v, _ = self.G.read(E, st, a[1], 'e', False)
        out, ax = self.encp(v)
        for c in ax:
            st.assume(c)
        E.put_words(st, a[0], out, 1)
        return None

    def dec(self, bs, pc):
        """(condition under which the bytes are a valid encoding, value of the decoded point)"""
        for row in self.pts:
            if len(row[0]) == len(bs) and all(eqterm(a, b) for a, b in zip(row[0], bs)):
                return 1, row[2]
        r = self.find(self.valid, bs, pc)
        if r is None:
            n = len(self.valid)
            r = (list(bs), z3.Bool('valid%d' % n), {'D%d' % n: SP.const(i4)})
            self.valid.append(r)
        return r[1], r[2]

    def c_dec(self, E, st, a, fn):
        if a[2] != 57:
            return NotImplemented
        bs = [E.load(st, Ptr(a[1].o, a[1].off + i), 1) for i in range(57)]
        if all(isinstance(b, int) for b in bs):
            return NotImplemented
        c, val = self.dec(bs, st.pc)
        if not isinstance(c, int):
            d_ = E.decide(st, c)
            if d_ is None:
                raise Fork([(c, {}, None), (z3.Not(c), {}, None)])
            c = d_
        if self.lay is None or self.err is None:
            raise Failed('decode', 'the base point does not decode, or garbage does')
        t, ok, off = self.lay
        if c:
            self.G.put(E, st, Ptr(a[0].o, a[0].off + off), 'e', val)
            E.put_words(st, Ptr(a[0].o, a[0].off + t), [ok])
        else:
            for i, b in self.err:
                E.put_words(st, Ptr(a[0].o, a[0].off + i), [b], 1)
        return None

    def scalar_at(self, E, st, ptr):
        x = E.words(st, ptr, 14)
        if not self.S.canonical(x):
            raise Inconclusive('multiplication by a scalar that is not known to be reduced')
        return self.S.rec(x)

    def c_fix(self, E, st, a, fn):
        f = self.scalar_at(E, st, a[1])
        self.G.put(E, st, a[0], 'e', {'G': f} if f.d else {}, tvalid=False)       # t is not part of the specification
        return None

    def c_var(self, E, st, a, fn):
        v, _ = self.G.read(E, st, a[1], 'e')
        f = self.scalar_at(E, st, a[2])
        self.G.put(E, st, a[0], 'e', {k: g for k, g in ((k, g * f) for k, g in v.items()) if g.d})
        return None

    def c_dbl(self, E, st, a, fn):
        v, _ = self.G.read(E, st, a[1], 'e')
        f, g = self.scalar_at(E, st, a[2]), self.scalar_at(E, st, a[3])
        r = self.G.vadd({'G': f} if f.d else {}, {k: x * g for k, x in v.items() if (x * g).d})
        self.G.put(E, st, a[0], 'e', r, tvalid=False)
        return None

    def equal(self, dv):
        """condition that a combination of points is zero"""
        if not dv:
            return 1
        b0 = min(dv)
        f0 = dv[b0]
        c = pow(f0.d[min(f0.d)], -1, q)
        dv = {k: f.scale(c) for k, f in dv.items()}
        if len(dv) == 1 and set(dv[b0].d) == {()} and b0 == 'G':
            return 0
        k = self.vkey(dv)
        if k not in self.eqs:
            self.eqs[k] = z3.Bool('eq%d' % len(self.eqs))
        return self.eqs[k]

    def c_eq(self, E, st, a, fn):
        v, _ = self.G.read(E, st, a[0], 'e', False)
        w, _ = self.G.read(E, st, a[1], 'e', False)
        return self.equal(self.G.vadd(v, w, -1))

    def contracts(self):
        m = self.ctx.m
        c = self.G.contracts(())
        c.update(self.S.contracts('add', 'sub', 'mul', 'halve', 'montgomery_multiply'))
        for path, sh, f in ((SC + 'decode_long', 'ppi', self.c_dl), (SC + 'encode', 'pp', self.c_enc), (ENCODE, 'pp', self.c_encp), (DECODE, 'ppi', self.c_dec),
                            (PSM, 'pp', self.c_fix), (VSM, 'ppp', self.c_var), (DSM, 'pppp', self.c_dbl), (TE + 'mod_equal', 'pp', self.c_eq),
                            ('keccak::p1600', 'pi', self.c_perm), ('keccak::f1600', 'p', self.c_perm)):
            if has(m, path, sh):
                c[path] = f
        return c

    # -- specification side
    def shake(self, bs, n, pc):
        st = [0] * 25
        bs = list(bs) + [0x1f]
        bs += [0] * (-len(bs) % 136)
        last = bs[-1]
        bs[-1] = (last | 0x80) if isinstance(last, int) else last
        for o in range(0, len(bs), 136):
            for i in range(17):
                st[i] = binop('xor', 64, st[i], join_bytes(bs[o + 8 * i:o + 8 * i + 8]))
            st = list(self.perm(st, pc))
        out = []
        while True:
            for i in range(17):
                for j in range(8):
                    w = st[i]
                    out.append((w >> (8 * j)) & 255 if isinstance(w, int) else simp(z3.Extract(8 * j + 7, 8 * j, w)))
                    if len(out) == n:
                        return out
            st = list(self.perm(st, pc))


def clamped(bs):
    bs = list(bs[:57])
    bs[0] = binop('and', 8, bs[0], 0xfc)
    bs[55] = binop('or', 8, bs[55], 0x80)
    bs[56] = 0
    return bs


DOMB = list(ref.DOM)


def kbytes(name, n):
    return [z3.BitVec('%s%d' % (name, i), 8) for i in range(n)]


class Spec:
    """the prescribed values, over the same symbols"""

    def __init__(self, W, pc):
        self.W, self.pc, self.ax = W, list(pc), []

    def point(self, f):
        """Ed448 encoding of f*B"""
        f = f.scale(i4)
        out, ax = self.W.encp({'G': f} if f.d else {})
        self.ax += ax
        return out

    def dl(self, bs):
        return self.W.dl(bs, self.pc)

    def shake(self, bs, n):
        return self.W.shake(bs, n, self.pc)

    def expand(self, k, raw):
        """(scalar bytes, nonce prefix)"""
        if raw:
            c = clamped(k)
            return c, c
        h = self.shake(k, 114)
        return clamped(h), h[57:]

    def public(self, k, raw):
        return self.point(self.dl(self.expand(k, raw)[0]))

    def sign(self, c, prefix, m):
        s = self.dl(c)
        A_ = self.point(s)
        r = self.dl(self.shake(DOMB + list(prefix) + list(m), 114))
        R_ = self.point(r)
        h = self.dl(self.shake(DOMB + list(R_) + list(A_) + list(m), 114))
        out, ax = self.W.enc(r + h * s)
        self.ax += ax
        return list(R_) + list(out)


def getbytes(E, st, ptr, n):
    return [E.load(st, Ptr(ptr.o, ptr.off + i), 1) for i in range(n)]


def same_bytes(name, got, want, facts):
    if any(g is UNDEF for g in got):
        raise Failed(name, 'an output byte is never written')
    got = [g if isinstance(g, int) else to_bv(g, 8) for g in got]
    ne = [bv(g) != bv(w) for g, w in zip(got, want) if not eqterm(g, w)]
    if any(isinstance(g, int) and isinstance(w, int) and g != w for g, w in zip(got, want)):
        # still reachable?
        r, m = solve(list(facts))
        if r == 'unsat':
            return
        raise Failed(name, 'a byte is constant and wrong', m, list(facts))
    if not ne:
        LOG.add(name)
        r, m = solve(list(facts))
        return
    prove(name, facts, z3.Or(ne))


def top_bit(b):
    return z3.Extract(7, 7, b) == 1


def runs(W, path, args, E=None, state=None):
    if E is None:
        E = Engine(W.ctx.m, W.contracts())
        E.mask_fork = True
    return E, execute(E, path, args, state=state)


def derivespec(ctx, fn='vh_derive'):
    return ctx.memo(('proto', fn), lambda: quietly(lambda: bool(derive_run(World(ctx), fn))))


def derive_run(W, fn, sfx='', E=None, state=None):
    if True:
        k = kbytes('k' + sfx, 57)
        E, outs = runs(W, fn, [Mem(k, 1), Out(57)], E, state)
        for o, ptr in outs:
            got = getbytes(E, o.state, ptr[1], 57)
            for raw in (0, 1) if fn == 'vh_derive' else (1,) if fn == 'vh_secret_to_public' else (0,):
                kind = [top_bit(k[56]) if raw else z3.Not(top_bit(k[56]))] if fn == 'vh_derive' else []
                facts = list(o.state.pc) + kind
                if solve(facts)[0] == 'unsat':
                    continue
                S_ = Spec(W, facts)
                same_bytes('%s (%s key)' % (fn, 'raw' if raw else 'seed'), got, S_.public(k, raw), facts + S_.ax)
        return E, outs


def signspec(ctx, n, fn='vh_sign'):
    return ctx.memo(('proto', fn, n), lambda: quietly(lambda: bool(sign_run(World(ctx), n, fn))))


def sign_run(W, n, fn='vh_sign', sfx='', E=None, state=None):
    if True:
        k = kbytes('k' + sfx, 57)
        nn = kbytes('n' + sfx, 57)
        m = kbytes('m' + sfx, n)
        mm = Mem(m, 1, max(n, 1))
        two = fn == 'vh_sign_secret_nonce'
        E, outs = runs(W, fn, [Mem(k, 1)] + ([Mem(nn, 1)] if two else []) + [mm, n, Out(114)], E, state)
        for o, ptr in outs:
            got = getbytes(E, o.state, ptr[-1], 114)
            for raw in (0, 1) if fn == 'vh_sign' else (1,) if two else (0,):
                kind = [top_bit(k[56]) if raw else z3.Not(top_bit(k[56]))] if fn == 'vh_sign' else []
                facts = list(o.state.pc) + kind
                if solve(facts)[0] == 'unsat':
                    continue
                S_ = Spec(W, facts)
                c, pre = S_.expand(k, raw)
                if two:
                    pre = nn
                same_bytes('%s of %d bytes (%s key)' % (fn, n, 'raw' if raw else 'seed'), got, S_.sign(c, pre, m), facts + S_.ax)
        return E, outs


def verifyspec(ctx, pn, sn, n, fn='vh_verify'):
    return ctx.memo(('proto', fn, pn, sn, n), lambda: quietly(lambda: bool(verify_run(World(ctx), pn, sn, n, fn))))


def verify_run(W, pn, sn, n, fn='vh_verify', sfx='', E=None, state=None):
    if True:
        pk, sg, m = kbytes('p' + sfx, pn), kbytes('s' + sfx, sn), kbytes('m' + sfx, n)
        E, outs = runs(W, fn, [Mem(pk, 1, max(pn, 1)), pn, Mem(sg, 1, max(sn, 1)), sn, Mem(m, 1, max(n, 1)), n], E, state)
        for o, ptr in outs:
            pc = list(o.state.pc)
            r = o.value
            r = z3.BitVecVal(r, 32) if isinstance(r, int) else to_bv(r, 32)
            S_ = Spec(W, pc)
            E32 = lambda e: z3.BitVecVal(100 + ERR[e], 32)
            zero = []
            if pn == 57:
                zero.append(z3.And([b == 0 for b in pk]))
            if sn == 114:
                zero.append(z3.And([b == 0 for b in sg]))
            if pn != 57:
                want = E32('InvalidPubkeyLengthError')
            else:
                va, A_ = W.dec(pk, pc)
                if sn != 114:
                    want = E32('InvalidSignatureLengthError')
                else:
                    vr, R_ = W.dec(sg[:57], pc)
                    h = S_.dl(S_.shake(DOMB + sg[:57] + pk + m, 114))
                    s = S_.dl(sg[57:])
                    # 4SB = 4R + 4hA, on the other side of the isogeny: S*G = phi(R) + h*phi(A)
                    v = W.G.vadd({'G': s}, {k: f.scale(4) for k, f in R_.items()}, -1)
                    v = W.G.vadd(v, {k: (f * h).scale(4) for k, f in A_.items()}, -1)
                    eq = W.equal(v)
                    eqb = z3.BoolVal(bool(eq)) if isinstance(eq, int) else eq
                    no = z3.BitVecVal(0, 32) if fn == 'vh_verify' else E32('InvalidSignatureError')
                    big = z3.ULT(z3.Concat(list(reversed(sg[57:]))), z3.BitVecVal(q, 456))
                    want = z3.If(z3.And(big, vr if not isinstance(vr, int) else z3.BoolVal(True)), z3.If(eqb, z3.BitVecVal(1, 32), no), E32('DecodeSignatureError'))
                want = z3.If(va if not isinstance(va, int) else z3.BoolVal(True), want, E32('DecodePubkeyError'))
            if zero:
                want = z3.If(z3.Or(zero), E32('InvalidSignatureError'), want)
            prove('%s of (%d, %d, %d) bytes' % (fn, pn, sn, n), pc + S_.ax, r != want)
        return E, outs


def roundspec(ctx, n):
    """sign, then verify with the derived key"""
    def go():
        k, m = kbytes('k', 57), kbytes('m', n)
        W = World(ctx)
        E, outs = runs(W, 'vh_sign', [Mem(k, 1), Mem(m, 1, max(n, 1)), n, Out(114)])
        done = 0
        for o, ptr in outs:
            sig = getbytes(E, o.state, ptr[-1], 114)
            pc = list(o.state.pc)
            E1 = Engine(ctx.m, W.contracts())
            st = State()
            for c in pc:
                st.assume(c)
            for o1, ptr1 in execute(E1, 'vh_derive', [Mem(k, 1), Out(57)], state=st):
                pk = getbytes(E1, o1.state, ptr1[1], 57)
                for fn in ('vh_verify', 'vh_verify_err'):
                    E2 = Engine(ctx.m, W.contracts())
                    st2 = State()
                    for c in o1.state.pc:
                        st2.assume(c)
                    for o2, ptr2 in execute(E2, fn, [Mem(pk, 1), 57, Mem(sig, 1), 114, Mem(m, 1, max(n, 1)), n], state=st2):
                        r = o2.value
                        r = z3.BitVecVal(r, 32) if isinstance(r, int) else to_bv(r, 32)
                        prove('%s accepts the signature of a %d-byte message' % (fn, n), list(o2.state.pc), r != 1)
                        done += 1
        if not done:
            raise Inconclusive('no path')
        return True
    return ctx.memo(('round', n), lambda: quietly(go))


def secretspec(ctx):
    """expanded secrets"""
    def go():
        k = kbytes('k', 57)
        W = World(ctx)
        E, outs = runs(W, 'vh_private_to_secret', [Mem(k, 1), Out(57)])
        for o, ptr in outs:
            got = getbytes(E, o.state, ptr[1], 57)
            S_ = Spec(W, o.state.pc)
            h = S_.shake(k, 57)
            want = h[:56] + [binop('or', 8, h[56], 0x80)]
            same_bytes('private_to_secret', got, want, list(o.state.pc))
            # the secret used as a raw key
            for fn in ('vh_derive', 'vh_secret_to_public'):
                st = State()
                for c in o.state.pc:
                    st.assume(c)
                E1 = Engine(ctx.m, W.contracts())
                for o1, p1 in execute(E1, fn, [Mem(got, 1), Out(57)], state=st):
                    pk = getbytes(E1, o1.state, p1[1], 57)
                    S1 = Spec(W, o1.state.pc)
                    same_bytes('%s of the expanded secret' % fn, pk, S1.public(k, 0), list(o1.state.pc) + S1.ax)
        return True
    return ctx.memo(('secret',), lambda: quietly(go))


# ---------------------------------------------------------------- native oracles
@oracle('proto')
def o_proto(nat, c):
    fn = c['fn']
    H = bytes.fromhex
    if fn in ('vh_derive', 'vh_secret_to_public', 'vh_private_to_public', 'vh_private_to_secret'):
        k = H(c['k'])
        _, b = nat.call(fn, [k, bytes(57)])
        raw = k[56] >> 7 if fn == 'vh_derive' else fn == 'vh_secret_to_public'
        if fn == 'vh_private_to_secret':
            h = ref.shake(k, 57)
            want = h[:56] + bytes([h[56] | 0x80])
        else:
            kk = k[:56] + bytes([k[56] | 0x80 if raw else k[56] & 0x7f])
            want = ref.public(kk) if raw else ref.enc(ref.mul(ref.le(ref.clamp(ref.shake(k, 114)[:57])) % q, ref.B))
        return None if b[1] == want else '%s gives %s instead of %s' % (fn, b[1].hex(), want.hex())
    if fn in ('vh_sign', 'vh_sign_by_private', 'vh_sign_secret_nonce'):
        k, m = H(c['k']), H(c['m'])
        if fn == 'vh_sign_secret_nonce':
            n = H(c['n'])
            want = ref.sign_raw(ref.le(ref.clamp(k)), n, m)
            _, b = nat.call(fn, [k, n, m, len(m), bytes(114)])
        else:
            if fn == 'vh_sign':
                want = ref.sign(k, m)
            else:
                h = ref.shake(k, 114)
                want = ref.sign_raw(ref.le(ref.clamp(h[:57])), h[57:], m)
            _, b = nat.call(fn, [k, m, len(m), bytes(114)])
        return None if b[-1] == want else '%s gives %s instead of %s' % (fn, b[-1].hex(), want.hex())
    if fn in ('vh_verify', 'vh_verify_err'):
        pk, sg, m = H(c['p']), H(c['s']), H(c['m'])
        r, _ = nat.call(fn, [pk, len(pk), sg, len(sg), m, len(m)])
        w = ref.verify(pk, sg, m)
        if isinstance(w, str):
            want = 100 + ERR[w]
        else:
            want = 1 if w else (0 if fn == 'vh_verify' else 108)
        return None if r == want else '%s returns %d, expected %d' % (fn, r, want)
    if fn == 'round':
        k, m = H(c['k']), H(c['m'])
        sg = nat.call('vh_sign', [k, m, len(m), bytes(114)])[1][-1]
        pk = nat.call('vh_derive', [k, bytes(57)])[1][1]
        for f in ('vh_verify', 'vh_verify_err'):
            r, _ = nat.call(f, [pk, 57, sg, 114, m, len(m)])
            if r != 1:
                return 'a signature made by the library is not accepted (%s returns %d)' % (f, r)
        return None
    if fn == 'secret':
        k = H(c['k'])
        s = nat.call('vh_private_to_secret', [k, bytes(57)])[1][1]
        h = ref.shake(k, 57)
        if s != h[:56] + bytes([h[56] | 0x80]):
            return 'private_to_secret gives %s' % s.hex()
        pk = nat.call('vh_private_to_public', [k, bytes(57)])[1][1]
        for f in ('vh_derive', 'vh_secret_to_public'):
            if nat.call(f, [s, bytes(57)])[1][1] != pk:
                return '%s of the expanded secret differs from the public key of the seed' % f
        return None
    raise KeyError(fn)


def core_of(exc):
    return exc.core() if isinstance(exc, Failed) else {}


def from_model(exc, name, n, rng):
    """n bytes: random, but for those the counterexample needs"""
    out = bytearray(rng.randbytes(n))
    for nm, v in core_of(exc).items():
        if nm[:1] == name and nm[1:].isdigit() and int(nm[1:]) < n:
            out[int(nm[1:])] = v & 255
    return bytes(out)


def walk(P, n):
    """P, P+B, P+2B ... (affine)"""
    for _ in range(n):
        yield P
        P = ref.add(P, ref.B)


def crafted(exc, n, rng, budget=12):
    """valid signatures that agree with the counterexample on the bytes it needs, found by search"""
    core = core_of(exc)
    pick = lambda nm, lo, hi: {int(k[1:]) - lo: v for k, v in core.items() if k[:1] == nm and k[1:].isdigit() and lo <= int(k[1:]) < hi}
    cp, cr, cs = pick('p', 0, 57), pick('s', 0, 57), pick('s', 57, 114)
    fits = lambda b, c: all(b[i] == v for i, v in c.items())
    rows = []
    t0 = time.time()
    for rep in range(6):
        m = from_model(exc, 'm', n, rng)
        # a public key of order dividing four makes every S valid with R = S*B
        S = ref.le(from_model(exc, 's', 114, rng)[57:])
        T = [t for t in [(0, 1), (0, p - 1), (1, 0), (p - 1, 0)] if fits(ref.enc(t), cp)] or [(0, 1)]
        if cs.get(56, 0) == 0 or rep % 2:
            S &= (1 << 448) - 1
        Rp = ref.mul(S % q, ref.B)
        free = [i for i in range(57) if i not in cs]
        for _ in range(3000 if cr else 1):
            R_ = ref.enc(Rp)
            if fits(R_, cr):
                break
            if time.time() - t0 > budget / 2:
                break
            i = rng.choice(free[:50])
            S2 = S + (1 << 8 * i)
            if all((S2 >> 8 * j) & 255 == v for j, v in cs.items()) and S2 >> 456 == 0:
                S, Rp = S2, ref.add(Rp, ref.mul(1 << 8 * i, ref.B))
        for t in T:
            rows.append((ref.enc(t), R_ + S.to_bytes(57, 'little'), m))
    for rep in range(3):
        m = from_model(exc, 'm', n, rng)
        s = rng.randrange(q)
        P = ref.mul(s, ref.B)
        for j, P in enumerate(walk(P, 60000)):
            pk = ref.enc(P)
            if fits(pk, cp):
                break
            if time.time() - t0 > budget:
                return rows
        s = (s + j) % q
        r = rng.randrange(q)
        for j, P in enumerate(walk(ref.mul(r, ref.B), 60000)):
            R_ = ref.enc(P)
            if fits(R_, cr):
                h = ref.le(ref.shake(ref.DOM + R_ + pk + m, 114)) % q
                S = (r + j + h * s) % q
                for k in range(4):
                    if fits((S + k * q).to_bytes(57, 'little'), cs):
                        rows.append((pk, R_ + (S + k * q).to_bytes(57, 'little'), m))
                        break
                else:
                    continue
                break
            if time.time() - t0 > budget * (2 + rep) / 2:
                break
    return rows


def key_cases(fns, n=None, nkeys=1500):
    def g(ctx, exc):
        rng = random.Random(41)
        ks = []
        for _ in range(4):
            ks.append(from_model(exc, 'k', 57, rng))
        for _ in range(nkeys):
            k = bytearray(rng.randbytes(57))
            c = rng.random()
            if c < 0.2:
                k[56] = rng.choice([0, 0x80, 0x7f, 0xff, 1, 0x81])
            if c < 0.1:
                for j in range(rng.randrange(57)):
                    k[j] = rng.choice([0, 255])
            ks.append(bytes(k))
        ks += [bytes(57), b'\xff' * 57, bytes(56) + b'\x80', b'\xff' * 56 + b'\x7f']
        for k in ks:
            for fn in fns:
                c = {'fn': fn, 'k': k.hex()}
                if n is not None:
                    for ln in (n,) if k is not ks[0] else (n, 0, 1, 32, 69, 12, 13, 100, 136, 300):
                        c = dict(c, m=from_model(exc, 'm', ln, rng).hex(), n=from_model(exc, 'n', 57, rng).hex())
                        yield c
                else:
                    yield c
    return ('proto', g)


def sig_cases(fns, n):
    def g(ctx, exc):
        rng = random.Random(42)
        T = [(0, 1), (0, p - 1), (1, 0), (p - 1, 0)]
        for a, b, c in crafted(exc, n, rng):
            for fn in fns:
                yield {'fn': fn, 'p': a.hex(), 's': b.hex(), 'm': c.hex()}
        for rep in range(14):
            k = rng.randbytes(57)
            m = from_model(exc, 'm', n, rng) if rep % 2 else rng.randbytes(n)
            pk, sg = ref.public(k), ref.sign(k, m)
            s, pre = ref.expand(k)
            rows = [(pk, sg, m)]
            S = ref.le(sg[57:])
            for j in (1, 2, 3):
                if S + j * q < 2**456:
                    rows.append((pk, sg[:57] + (S + j * q).to_bytes(57, 'little'), m))
            rows.append((pk, sg[:113] + bytes([rng.randrange(1, 256)]), m))
            rows.append((pk, sg[:56] + bytes([sg[56] ^ 0x80]) + sg[57:], m))
            for b in (1, 0x40):
                rows.append((pk, sg[:56] + bytes([sg[56] ^ b]) + sg[57:], m))
                rows.append((pk[:56] + bytes([pk[56] ^ b]), sg, m))
            rows.append((pk[:56] + bytes([pk[56] ^ 0x80]), sg, m))
            rows += [(pk, sg + b'\0', m), (pk, sg[:113], m), (pk + b'\0', sg, m), (pk[:56], sg, m), (pk, b'', m), (b'', sg, m), (pk + pk, sg, m), (pk, sg + sg[:57], m)]
            rows += [(bytes(57), sg, m), (pk, bytes(114), m), (bytes(57), bytes(114), m), (b'', bytes(114), m), (pk[:5], bytes(114), m), (pk, bytes(113), m), (bytes(56), sg, m), (bytes(57), sg[:9], m)]
            rows += [(pk, sg, m + b'\0'), (pk, sg, m[:-1]) if m else (pk, sg, b'x'), (pk, sg, b'')]
            for j in rng.sample(range(114), 12):
                rows.append((pk, sg[:j] + bytes([sg[j] ^ (1 << rng.randrange(8))]) + sg[j + 1:], m))
            for j in rng.sample(range(57), 6):
                rows.append((pk[:j] + bytes([pk[j] ^ (1 << rng.randrange(8))]) + pk[j + 1:], sg, m))
            for j in rng.sample(range(n), min(n, 6)) + ([n - 1] if n else []):
                rows.append((pk, sg, m[:j] + bytes([m[j] ^ (1 << rng.randrange(8))]) + m[j + 1:]))
            # torsion components, identity points, zero scalars
            A_ = ref.mul(s % q, ref.B)
            for t in T:
                At = ref.enc(ref.add(A_, t))
                r = rng.randrange(q) if rep else 0
                Rt = ref.enc(ref.add(ref.mul(r, ref.B), t))
                h = ref.le(ref.shake(ref.DOM + Rt + At + m, 114)) % q
                rows.append((At, Rt + ((r + h * s) % q).to_bytes(57, 'little'), m))
                I = ref.enc(t)
                rows.append((I, Rt + r.to_bytes(57, 'little'), m))
                rows.append((I, I + bytes(57), m))
                rows.append((I, ref.enc((0, 1)) + bytes(57), m))
            rows.append((ref.enc((0, 1)), ref.enc((0, 1)) + bytes(57), m))
            rows.append((pk, ref.enc((0, 1)) + bytes(57), m))
            rows.append((pk, b'\xff' * 57 + sg[57:], m))
            rows.append((b'\xff' * 57, sg, m))
            rows.append((pk, sg[:57] + q.to_bytes(57, 'little'), m))
            rows.append((pk, sg[:57] + (q - 1).to_bytes(57, 'little'), m))
            rows.append((pk, sg[:57] + b'\xff' * 57, m))
            rows.append((pk, sg[57:] + sg[:57], m))
            rows.append((from_model(exc, 'p', 57, rng), from_model(exc, 's', 114, rng), m))
            rows.append((pk, from_model(exc, 's', 114, rng), m))
            rows.append((from_model(exc, 'p', 57, rng), sg, m))
            for a, b, c in rows:
                for fn in fns:
                    yield {'fn': fn, 'p': a.hex(), 's': b.hex(), 'm': c.hex()}
            # a forged pair satisfying the equation for the solver's R or S bytes is out of reach: they are taken as they are
    return ('proto', g)


def lengths(ctx, what):
    """message lengths: around the block boundaries of the three hashes"""
    if ctx.thorough:
        return list(range(0, 820)) + [1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 32768, 65535, 65536, 65537, 70000]
    base = list(range(0, 301)) + [405, 408, 409, 511, 512, 513, 1023, 1024, 1025, 2049, 4096, 4097, 65537]
    return base if what != 'hash' else [n for n in base if n < 20 or n % 8 < 2 or 60 < n < 72 or 140 < n < 152 or 200 < n < 210 or n > 280]


def tasks_derive(ctx):
    return [Task('%s' % fn, lambda c, fn=fn: derivespec(c, fn), [key_cases([fn])], bounds='all 57-byte keys') for fn in ('vh_derive', 'vh_secret_to_public', 'vh_private_to_public')]


def tasks_sign(ctx, what='sign'):
    T = []
    for n in lengths(ctx, what)[::-1]:
        T.append(Task('vh_sign, %d-byte message' % n, lambda c, n=n: signspec(c, n), [key_cases(['vh_sign'], n)], bounds='all keys of both kinds, all messages of %d bytes' % n))
    for n in (0, 69, 32) if not ctx.thorough else (0, 1, 32, 69, 70, 148, 149, 300):
        for fn in ('vh_sign_by_private', 'vh_sign_secret_nonce'):
            T.append(Task('%s, %d-byte message' % (fn, n), lambda c, n=n, fn=fn: signspec(c, n, fn), [key_cases([fn], n)], bounds='all keys, all messages of %d bytes' % n))
    return T


def vtask(fn, pn, sn, n):
    return Task('%s (%d, %d, %d bytes)' % (fn, pn, sn, n), lambda c: verifyspec(c, pn, sn, n, fn), [sig_cases([fn], n)],
                bounds='all public keys of %d bytes, signatures of %d bytes, messages of %d bytes' % (pn, sn, n))


def tasks_verify(ctx, what='verify'):
    return [vtask('vh_verify', 57, 114, n) for n in lengths(ctx, what)[::-1]] + [vtask('vh_verify_err', 57, 114, n) for n in (0, 32, 148)]


def badlens(ctx):
    a = list(range(0, 57)) + list(range(58, 70)) + [113, 114, 115, 171, 228, 313]
    b = list(range(0, 114)) + list(range(115, 130)) + [171, 228, 370]
    return a, b


def multi(name, fn, combos):
    def f(c):
        for pn, sn, n in combos:
            verifyspec(c, pn, sn, n, fn)
    return Task('%s %s' % (fn, name), f, [sig_cases([fn], 5)], bounds='(key, signature, message) lengths ' + ', '.join(map(str, combos[:3])) + ' ... all contents')


def tasks_total(ctx, fns=('vh_verify',)):
    a, b = badlens(ctx)
    T = []
    for fn in fns:
        cs = [(x, 114, 5) for x in a] + [(57, x, 5) for x in b] + [(0, 0, 0), (57, 57, 0), (114, 57, 3), (56, 113, 1), (58, 115, 1), (0, 114, 0), (57, 0, 0)]
        for i in range(0, len(cs), 30):
            T.append(multi('lengths group %d' % (i // 30), fn, cs[i:i + 30]))
        T += [vtask(fn, 57, 114, n) for n in ((0, 5, 32) if fn == 'vh_verify' else (0, 12, 32, 148))]
    return T


def tasks_agree(ctx):
    return tasks_total(ctx, ('vh_verify', 'vh_verify_err'))


def tasks_round(ctx):
    return [Task('sign then verify, %d-byte message' % n, lambda c, n=n: roundspec(c, n), [key_cases(['round'], n)], bounds='all keys of both kinds, all messages of %d bytes' % n)
            for n in lengths(ctx, 'round')[::-1]]


def tasks_secret(ctx):
    return [Task('expanded secret', secretspec, [key_cases(['secret'])], bounds='all 57-byte seeds')] + tasks_derive(ctx) + [t for t in tasks_sign(ctx) if ' 0-byte' in t.name or ' 32-byte' in t.name]


def tasks_hash(ctx):
    return tasks_derive(ctx) + tasks_sign(ctx, 'hash') + tasks_verify(ctx, 'hash') + tasks_secret(ctx)

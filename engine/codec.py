"""Point encoding and decoding."""
from smul import *
import smul

DECODE = EP + 'eddsa_like_decode'
ENCODE = TE + 'eddsa_like_encode'
d = ref.d
Y, X1, Y1 = fvar('y'), fvar('x1'), fvar('y1')
one = FP.const(1)


def monic(f):
    return f.scale(pow(f.d[min(f.d)], -1, p)) if f.d else f


def legendre(a):
    return pow(a % p, (p - 1) // 2, p)


def sqrts(a):
    """square roots modulo p"""
    a %= p
    if legendre(a) == p - 1:
        return []
    r = pow(a, (p + 1) // 4, p)
    return [r, p - r]


def issq(a):
    return legendre(a) != p - 1


def no_exceptions():
    """the isogeny formulas divide by nothing that vanishes on the curves (plain arithmetic facts about p and d)"""
    def quad(a, b, c):
        return [(-b + r) * ref.inv(2 * a) % p for r in sqrts(b * b - 4 * a * c)]
    bad = []
    # decoder: on x^2+y^2 = 1+d x^2 y^2:  y^2 = x^2, or x^2+y^2 = 2
    bad += [s for s in quad(d, -2, 1) if issq(s)]
    bad += [s for s in quad(d, -2 * d, 1) if issq(s) and issq(2 - s)]
    # encoder: on y^2-x^2 = 1+dt x^2 y^2:  y^2 - x^2 = 2
    bad += [s for s in quad(dt, 2 * dt, -1) if issq(s) and issq(2 + s)]
    # -1 and d are not squares: x^2+y^2 = 0 only at the origin, 1-d y^2 never vanishes
    return not bad and not issq(-1) and not issq(d)


class Codec:
    def __init__(self, ctx):
        self.ctx = ctx
        self.F = Field(ctx)
        self.des = []        # (bytes, variable)
        self.mults = []      # (coordinates, scalar, token)

    def c_des(self, E, st, a, fn):
        n, mask = a[2], a[3]
        if not isinstance(n, int) or n < 56 or mask != 0:
            return NotImplemented
        bs = [E.load(st, Ptr(a[1].o, a[1].off + i), 1) for i in range(56)]
        if all(isinstance(b, int) for b in bs):
            return NotImplemented
        his = despec(self.ctx, n)
        for k, (old, v, e) in enumerate(self.des):
            if all(x is y or (not isinstance(x, int) and not isinstance(y, int) and x.eq(y)) for x, y in zip(old, bs)):
                break
        else:
            v = fvar('y' if not self.des else 'y_%d' % len(self.des))
            e = z3.Concat([to_bv(b, 8) for b in reversed(bs)])
            self.des.append((bs, v, e))
        E.put_words(st, a[0], self.F.el.new(v, his))
        E.put_words(st, Ptr(a[0].o, a[0].off + 64), [z3.If(z3.ULT(e, z3.BitVecVal(p, 448)), z3.BitVecVal(-1, 32), z3.BitVecVal(0, 32))])
        return None

    def c_smul(self, E, st, a, fn):
        cs = [self.F.rec(E.words(st, Ptr(a[1].o, a[1].off + 64 * i), 16)) for i in range(4)]
        s = E.words(st, a[2], 14)
        if not all(isinstance(w, int) for w in s):
            return NotImplemented
        varspec(self.ctx)
        k = len(self.mults)
        out = [self.F.elem(fvar('%s_m%d' % (c, k))) for c in 'XYZT']
        self.mults.append(([f for f, _ in cs], ref.val32(s), k))
        for f, us in cs:
            if klass(us) > 1:
                raise Inconclusive('a coordinate outside the range verified for multiplication')
        for i, ws in enumerate(out):
            E.put_words(st, Ptr(a[0].o, a[0].off + 64 * i), ws)
        return None

    def contracts(self):
        c = self.F.contracts('decaf_equal', 'low_bit', 'dsa_like_serialize', 'isr', 'invert')
        if self.F.exists('dsa_like_deserialize', 'ppii'):
            c[BN + 'dsa_like_deserialize'] = self.c_des
        if has(self.ctx.m, VSM, 'ppp'):
            c[VSM] = self.c_smul
        return c


def layout(ctx):
    """how Result<Point, Error> lies in memory: (tag offset, tag of Ok, offset of the coordinates), found by running the real decoder"""
    def go():
        b = ref.enc(ref.B)
        n = 264
        r = ctx.nat.one(DECODE, [b'\xee' * n, b, 57])
        e = ctx.nat.one(DECODE, [b'\xee' * n, b'\xff' * 57, 57])
        z = ctx.nat.one(DECODE, [b'\xee' * n, b'\xff' * 5, 5])
        if r[0] != 'ok' or e[0] != 'ok' or z[0] != 'ok':
            return None
        r, e, z = r[2][0], e[2][0], z[2][0]
        want = half_key(*ref.tmul(pow(4, -1, q), ref.phi(ref.B)))
        for off in (0, 4, 8):
            X, Y_, Z, T = rd_ext(r[off:off + 256])
            if Z and half_key(X * ref.inv(Z), Y_ * ref.inv(Z)) == want:
                for t in (0, 256, 260, 4):
                    if r[t:t + 4] != e[t:t + 4] and e[t:t + 4] == z[t:t + 4]:
                        return t, int.from_bytes(r[t:t + 4], 'little'), off
        return None
    return ctx.memo(('lay',), go)


def decspec(ctx):
    """decoding 57 bytes"""
    def go():
        lay = layout(ctx)
        if lay is None:
            raise Failed('decode', 'the base point does not decode, or garbage does')
        if not no_exceptions():
            raise Inconclusive('curve constants')
        C = Codec(ctx)
        F = C.F
        E = F.engine(C.contracts())
        E.mask_fork = True
        bs = [z3.BitVec('b%d' % i, 8) for i in range(57)]
        u = one - Y * Y
        N = u * (one - (Y * Y).scale(d))
        seen = 0
        for o, ptr in execute(E, DECODE, [Out(264), Mem(bs, 1), 57]):
            t, oktag, off = lay
            tag = E.load(o.state, Ptr(ptr[0].o, t), 4)
            tag = to_bv(tag, 32) if not isinstance(tag, int) else z3.BitVecVal(tag, 32)
            if len(C.des) != 1 or not all(a is b or (not isinstance(a, int) and a.eq(b)) for a, b in zip(C.des[0][0], bs)):
                raise Failed('decode', 'y is not read from the first 56 bytes')
            val = z3.Concat(list(reversed(bs[:56])))
            canon = z3.ULT(val, z3.BitVecVal(p, 448))
            sign = z3.Extract(7, 7, bs[56]) == 1
            clean = (bs[56] & 0x7f) == 0
            U, Ex, Odd = z3.Bool('y2_is_1'), z3.Bool('has_point'), z3.Bool('x_odd')
            facts = list(o.state.pc) + [z3.Implies(U, Ex), z3.Implies(U, z3.Not(Odd))]
            W = [v for (k, _), (v, f) in F.toks.items() if k == 'isr' and same(monic(f), monic(N))]
            if len(W) != 1:
                raise Failed('decode', 'x is not computed from the inverse square root of (1-y^2)(1-d y^2)')
            W = W[0]
            x = W * u
            cur = x * x + Y * Y - one - (x * x * Y * Y).scale(d)
            s2 = x * x + Y * Y
            iszero = {monic(f).key: U for f in (x, W, u, N, x * x)}
            iszero.update({monic(f).key: Ex for f in (cur, s2 * cur, s2 * s2 * cur)})
            den1, den2 = Y * Y - x * x, one.scale(2) - s2
            nz = {monic(f).key for f in (den1, den2, den1 * den2, s2)}
            for (k, _), (b, f) in list(F.toks.items()):
                g = monic(f)
                if k == 'zero':
                    if g.key in iszero:
                        facts.append(b == iszero[g.key])
                    elif g.key in nz:
                        facts.append(z3.Implies(Ex, z3.Not(b)))
                elif k == 'odd':
                    # Odd: parity of x; the parity of -x is the opposite one unless x = 0
                    if same(f, x):
                        facts.append(b == Odd)
                    elif same(f, x.scale(-1)):
                        facts.append(b == z3.And(z3.Not(Odd), z3.Not(U)))
                elif k == 'ser':
                    if same(f, x):
                        facts.append((z3.Extract(0, 0, b) == 1) == Odd)
                        facts.append((b == 0) == U)
            ok = z3.And(canon, clean, Ex, z3.Not(z3.And(U, sign)))
            prove('decode accepts exactly the canonical encodings', facts, (tag == oktag) != ok)
            LOG.vac += 1
            r, _ = solve(facts + [tag == oktag])
            if r == 'unsat':
                continue
            seen += 1
            # the point
            cs = [F.rec(E.words(o.state, Ptr(ptr[0].o, off + 64 * i), 16))[0] for i in range(4)]
            mm = [m for m in C.mults if all(same(c, fvar('%s_m%d' % (l, m[2]))) for c, l in zip(cs, 'XYZT'))]
            if len(mm) != 1:
                raise Failed('decode', 'the result is not the multiplied point')
            (PX, PY, PZ, PT), sc, _ = mm[0]
            if sc != pow(4, -1, q):
                raise Failed('decode', 'the point is not divided by four')
            LOG.add('decode divides by four')
            # which sign of x was used: coordinates of the isogeny image at (sg*x, y)
            for sg in (1, -1):
                xs = x.scale(sg)
                # X/Z = 2xy/(y^2-x^2), Y/Z = (x^2+y^2)/(2-x^2-y^2), T = XY/Z
                e1 = PX * den1 - (xs * Y).scale(2) * PZ
                e2 = PY * den2 - s2 * PZ
                e3 = PX * PY - PZ * PT
                if not e1.d and not e2.d and not e3.d:
                    break
            else:
                raise Failed('decode', 'the decoded coordinates are not the image of (x,y)')
            LOG.add('decode: coordinates')
            same_fp('decode: x coordinate', PX * den1, (xs * Y).scale(2) * PZ)
            same_fp('decode: y coordinate', PY * den2, s2 * PZ)
            same_fp('decode: t coordinate', PX * PY, PZ * PT)
            zz = monic(PZ).key
            if zz not in nz:
                raise Failed('decode', 'the z coordinate may vanish')
            # x_std = -sg*x has the parity given by the sign bit
            par = z3.Not(Odd) if sg == 1 else Odd
            prove('decode: sign of x', facts + [tag == oktag, z3.Not(U)], par != sign)
        if not seen:
            raise Failed('decode', 'nothing decodes')
        return True
    return ctx.memo(('dec',), lambda: quietly(go))


def same(f, g):
    return not (f - g).d


def declenspec(ctx):
    """decoding a slice of any other length is an error"""
    def go():
        lay = layout(ctx)
        if lay is None:
            raise Failed('decode', 'the base point does not decode, or garbage does')
        for n in list(range(57)) + list(range(58, 70)) + [112, 113, 114, 115, 171, 228, 256 + 57, 65536 + 57]:
            C = Codec(ctx)
            E = C.F.engine(C.contracts())
            E.mask_fork = True
            bs = [z3.BitVec('b%d' % i, 8) for i in range(n)]
            for o, ptr in execute(E, DECODE, [Out(264), Mem(bs, 1, max(n, 1)), n]):
                tag = E.load(o.state, Ptr(ptr[0].o, lay[0]), 4)
                tag = to_bv(tag, 32) if not isinstance(tag, int) else z3.BitVecVal(tag, 32)
                prove('decode of %d bytes is an error' % n, o.state.pc, tag == lay[1])
        return True
    return ctx.memo(('declen',), lambda: quietly(go))


def encspec(ctx):
    """encoding of every point of the group, in every representation"""
    def go():
        if not no_exceptions():
            raise Inconclusive('curve constants')
        C = Codec(ctx)
        F = C.F
        F.norm = curve_nf
        E = F.engine(C.contracts())
        E.mask_fork = True
        Pt = ext_in(F, 1)
        Z = fvar('Z1')
        xx, yy = X1 * X1, Y1 * Y1
        # psi(x,y): y' = (y^2-x^2)/(2-y^2+x^2), x' = -2xy/(x^2+y^2)
        yn, yd = yy - xx, one.scale(2) - yy + xx
        xn, xd = (X1 * Y1).scale(-2), xx + yy
        Wy, Wx = z3.BitVec('Wy', 448), z3.BitVec('Wx', 448)
        for o, ptr in execute(E, ENCODE, [Out(57), flat(Pt)]):
            out = [E.load(o.state, Ptr(ptr[0].o, i), 1) for i in range(57)]
            out = [z3.BitVecVal(b, 8) if isinstance(b, int) else to_bv(b, 8) for b in out]
            facts = list(o.state.pc) + [z3.ULT(Wy, z3.BitVecVal(p, 448)), z3.ULT(Wx, z3.BitVecVal(p, 448))]

            def ratio(f, n, dd):
                """is the value f (linear in an inverse) equal to n/dd?"""
                inv = {v: g for (k, _), (v, g) in F.toks.items() if k == 'inv'}
                for v, g in inv.items():
                    (m, _), = v.d.items()
                    nm = m[0][0]
                    if all(dict(mm).get(nm, 0) == 1 for mm in f.d):
                        num = FP({tuple((a, e) for a, e in mm if a != nm): c for mm, c in f.d.items()})
                        if not curve_nf(num * dd - n * g).d:
                            # the inverted value never vanishes
                            unit_multiple('encode: inverted value is never zero', g, [xd, yd])
                            return True
                return False
            for (k, _), (b, f) in F.toks.items():
                if k in ('ser', 'odd'):
                    for W, n, dd in ((Wy, yn, yd), (Wx, xn, xd)):
                        for sg in (1, -1):
                            if ratio(f, n.scale(sg), dd):
                                w = W if sg == 1 else z3.If(W == 0, W, z3.BitVecVal(p, 448) - W)
                                LOG.add('encode: coordinate')
                                facts.append(b == w if k == 'ser' else b == (z3.Extract(0, 0, w) == 1))
            for i in range(56):
                prove('encode: byte %d' % i, facts, out[i] != z3.Extract(8 * i + 7, 8 * i, Wy))
            prove('encode: sign byte', facts, out[56] != z3.If(z3.Extract(0, 0, Wx) == 1, z3.BitVecVal(0x80, 8), z3.BitVecVal(0, 8)))
        return True
    return ctx.memo(('enc',), lambda: quietly(go))


# ---------------------------------------------------------------- native oracles
@oracle('decode')
def o_decode(nat, c):
    b = bytes.fromhex(c['b'])
    r, o = nat.call(DECODE, [b'\xee' * 264, b, len(b)])
    o = o[0]
    want = ref.dec(b) if len(b) == 57 else None
    okn = nat.call(DECODE, [b'\xee' * 264, ref.enc(ref.B), 57])[1][0][:4]
    ok = o[:4] == okn
    if ok != (want is not None):
        return 'decoding %s' % ('accepts a string that is not a canonical encoding' if ok else 'refuses a canonical encoding')
    if ok:
        X, Y_, Z, T = rd_ext(o[4:260])
        w = ref.tmul(pow(4, -1, q), ref.phi(want))
        if Z == 0 or half_key(X * ref.inv(Z), Y_ * ref.inv(Z)) != half_key(*w):
            return 'decoding gives a wrong point'
    return None


@oracle('encode')
def o_encode(nat, c):
    x, y = ref.tmul(c['k'], ref.phi(ref.B))
    if c.get('tor'):
        x, y = -x % p, -y % p
    z = c['z'] % p or 1
    _, b = nat.call(ENCODE, [bytes(57), ser_ext(x * z, y * z, z, x * y * z)])
    want = ref.enc(ref.psi((x, y)))
    return None if b[0] == want else 'encoding differs from the RFC 8032 encoding'


def dec_cases(ctx, exc):
    rng = random.Random(31)
    en = [ref.enc(ref.mul(k, ref.B)) for k in [0, 1, 2, 3, q - 1, 5] + [rng.randrange(q) for _ in range(20)]]
    T = [(0, 1), (0, p - 1), (1, 0), (p - 1, 0)]
    en += [ref.enc(t) for t in T]
    en += [ref.enc(ref.add(ref.mul(rng.randrange(q), ref.B), t)) for t in T for _ in range(4)]
    for e in en:
        yield {'b': e.hex()}
        yield {'b': (e[:56] + bytes([e[56] ^ 0x80])).hex()}
        for m in (1, 2, 4, 0x40, 0x7f):
            yield {'b': (e[:56] + bytes([e[56] ^ m])).hex()}
    for y in list(range(40)) + [p - k for k in range(1, 40)]:
        for v in (y, y + p):
            for s in (0, 0x80):
                if v < 2**448:
                    yield {'b': (v.to_bytes(56, 'little') + bytes([s])).hex()}
    for v in (2**448 - 1, 2**448 - 2**224, p, p + 1, p + 2, 2**224, 2**447):
        for s in (0, 0x80, 1):
            yield {'b': (v.to_bytes(56, 'little') + bytes([s])).hex()}
    for _ in range(120):
        yield {'b': (rng.getrandbits(448).to_bytes(56, 'little') + bytes([rng.choice([0, 0x80])])).hex()}
    for e in en[:4]:
        for n in (0, 1, 32, 55, 56):
            yield {'b': e[:n].hex()}
        yield {'b': (e + b'\0').hex()}
        yield {'b': (e + e).hex()}


def enc_cases(ctx, exc):
    rng = random.Random(32)
    for k in [0, 1, 2, 4, q - 1] + [rng.randrange(q) for _ in range(60)]:
        for z in (1, p - 1, rng.randrange(1, p)):
            for t in (0, 1):
                yield {'k': k, 'z': z, 'tor': t}


def tasks_dec(ctx):
    return [Task('decode 57 bytes', optional(decspec), [('decode', dec_cases)], bounds='all 57-byte strings'),
            Task('decode other lengths', optional(declenspec), [('decode', dec_cases)], bounds='lengths 0-69 and a few larger; all contents')]


def tasks_enc(ctx):
    return [Task('encode', optional(encspec), [('encode', enc_cases)], bounds='every point of the group in every projective representation')]

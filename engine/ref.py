"""Independent reference: Ed448 (RFC 8032) and the isogenous twisted curve, in plain integers.
Used as the oracle when a candidate counterexample is replayed natively and to identify constants."""
import hashlib

p = 2**448 - 2**224 - 1
L = 2**446 - 0x8335dc163bb124b65129c96fde933d8d723a70aadc873d6d54a7bb0d
d = -39081 % p
Bx = 0x4f1970c66bed0ded221d15a622bf36da9e146570470f1767ea6de324a3d3a46412ae1af72ab66511433b80e18b00938e2626a82bc70cc05e
By = 0x693f46716eb6bc248876203756c9c7624bea73736ca3984087789c1e05a0c2d73ad3ff1ce67c39c4fdbd132c4ed7c8ad9808795bf230fa14
B = (Bx, By)


def inv(a):
    return pow(a, p - 2, p)


# -- Ed448, affine, complete
def add(P, Q):
    x1, y1 = P
    x2, y2 = Q
    t = d * x1 * x2 * y1 * y2 % p
    return ((x1 * y2 + y1 * x2) * inv(1 + t) % p, (y1 * y2 - x1 * x2) * inv(1 - t) % p)


def padd_(P, Q):
    X1, Y1, Z1 = P
    X2, Y2, Z2 = Q
    A = Z1 * Z2 % p
    Bb = A * A % p
    C = X1 * X2 % p
    D = Y1 * Y2 % p
    E = d * C * D % p
    F = (Bb - E) % p
    G = (Bb + E) % p
    H = (X1 + Y1) * (X2 + Y2) % p
    return (A * F * (H - C - D) % p, A * G * (D - C) % p, F * G % p)


def mul(k, P):
    R = (0, 1, 1)
    Q = (P[0], P[1], 1)
    for b in bin(k)[2:] if k else '':
        R = padd_(R, R)
        if b == '1':
            R = padd_(R, Q)
    zi = inv(R[2])
    return (R[0] * zi % p, R[1] * zi % p)


def enc(P):
    b = bytearray(P[1].to_bytes(57, 'little'))
    b[56] |= (P[0] & 1) << 7
    return bytes(b)


def dec(s):
    """None when not a valid encoding"""
    if len(s) != 57:
        return None
    sign = s[56] >> 7
    y = int.from_bytes(s, 'little') & ((1 << 455) - 1)
    if y >= p:
        return None
    num = (1 - y * y) % p
    den = (1 - d * y * y) % p
    x = num * inv(den) % p
    x = pow(x, (p + 1) // 4, p)
    if (x * x * den - num) % p:
        return None
    if x == 0 and sign:
        return None
    if x & 1 != sign:
        x = p - x
    return (x, y)


def shake(b, n):
    return hashlib.shake_256(b).digest(n)


DOM = b'SigEd448\0\0'


def le(b):
    return int.from_bytes(b, 'little')


def clamp(h):
    h = bytearray(h)
    h[0] &= 0xfc
    h[55] |= 0x80
    h[56] = 0
    return bytes(h)


def expand(k):
    """(scalar, nonce prefix) of a 57-byte key of either kind"""
    if k[56] & 0x80:
        c = clamp(k)
        return le(c), c
    h = shake(k, 114)
    return le(clamp(h[:57])), h[57:]


def public(k):
    return enc(mul(expand(k)[0] % L, B))


def sign_raw(s, prefix, m):
    A = enc(mul(s % L, B))
    r = le(shake(DOM + prefix + m, 114)) % L
    R = enc(mul(r, B))
    h = le(shake(DOM + R + A + m, 114)) % L
    return R + ((r + h * s) % L).to_bytes(57, 'little')


def sign(k, m):
    s, pre = expand(k)
    return sign_raw(s, pre, m)


def verify(pk, sig, m):
    """the outcome the properties prescribe: True/False or an error name"""
    if pk == bytes(57) or sig == bytes(114):
        return 'InvalidSignatureError'
    if len(pk) != 57:
        return 'InvalidPubkeyLengthError'
    A = dec(pk)
    if A is None:
        return 'DecodePubkeyError'
    if len(sig) != 114:
        return 'InvalidSignatureLengthError'
    R = dec(sig[:57])
    if R is None:
        return 'DecodeSignatureError'
    S = le(sig[57:])
    if S >= L:
        return 'DecodeSignatureError'
    h = le(shake(DOM + sig[:57] + pk + m, 114)) % L
    return mul(4 * S, B) == add(mul(4, R), mul(4 * h, A))


# -- the twisted curve -x^2 + y^2 = 1 + dt x^2 y^2 the library computes on
dt = (d - 1) % p     # -39082


def tadd(P, Q):
    x1, y1 = P
    x2, y2 = Q
    t = dt * x1 * x2 * y1 * y2 % p
    return ((x1 * y2 + y1 * x2) * inv(1 + t) % p, (y1 * y2 + x1 * x2) * inv(1 - t) % p)


def tpadd(P, Q):
    X1, Y1, Z1, T1 = P
    X2, Y2, Z2, T2 = Q
    A = (Y1 - X1) * (Y2 - X2) % p
    Bb = (Y1 + X1) * (Y2 + X2) % p
    C = 2 * dt * T1 * T2 % p
    D = 2 * Z1 * Z2 % p
    E, F, G, H = Bb - A, D - C, D + C, Bb + A
    return (E * F % p, G * H % p, F * G % p, E * H % p)


def taff(P):
    zi = inv(P[2])
    return (P[0] * zi % p, P[1] * zi % p)


def tmul(k, P):
    """k*P on the twisted curve, affine in, affine out"""
    k %= L
    R = (0, 1, 1, 0)
    Q = (P[0], P[1], 1, P[0] * P[1] % p)
    for b in bin(k)[2:] if k else '':
        R = tpadd(R, R)
        if b == '1':
            R = tpadd(R, Q)
    return taff(R)


def tneg(P):
    return ((-P[0]) % p, P[1])


def phi(P):
    """Ed448 -> twisted curve (the isogeny of the decoder, taken at (-x, y))"""
    x, y = (-P[0]) % p, P[1]
    xx, yy = x * x % p, y * y % p
    s = (xx + yy) % p
    return (2 * x * y * inv((yy - xx) % p) % p, s * inv((2 - s) % p) % p)


def psi(P):
    """twisted curve -> Ed448 (what the encoder computes)"""
    x, y = P
    xx, yy = x * x % p, y * y % p
    return ((-2 * x * y) * inv((xx + yy) % p) % p, (yy - xx) * inv((2 - yy + xx) % p) % p)


def val28(l):
    return sum(x << (28 * i) for i, x in enumerate(l))


def val32(l):
    return sum(x << (32 * i) for i, x in enumerate(l))


def limbs28(v):
    return [(v >> (28 * i)) & 0xfffffff for i in range(16)]


def limbs32(v, n=14):
    return [(v >> (32 * i)) & 0xffffffff for i in range(n)]

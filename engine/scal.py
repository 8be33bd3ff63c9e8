"""Scalar layer (integers modulo the group order)."""
from field import *
import field

q = ref.L
SC = 'libgoldilocks::scalar::'
W14 = [2**32 - 1] * 14


class SP(FP):
    """polynomial over Z_q"""
    __slots__ = ()
    mod = q


class Scalars:
    def __init__(self, ctx):
        self.ctx = ctx
        self.m = ctx.m
        self.el = Elems(SP, 14, 32, 'S')

    def new(self, f):
        """words of the canonical representative of a scalar"""
        if not f.d or (len(f.d) == 1 and () in f.d):
            return ref.limbs32(f.d.get((), 0))
        return self.el.new(f, W14)

    def canonical(self, ws):
        """is the word vector known to be below q?"""
        if all(isinstance(w, int) for w in ws):
            return ref.val32(ws) < q
        return self.el.token(ws) is not None

    def rec(self, ws):
        try:
            return self.el.recognise(ws, True)[0]
        except Unrecognised as e:
            raise Failed('scalar arithmetic', 'a value is not congruent to any combination of its operands (%s)' % e)

    def binary(self, name, f, need):
        def g(E, st, a, fn):
            x, y = E.words(st, a[1], 14), E.words(st, a[2], 14)
            if all(isinstance(v, int) for v in x + y):
                return NotImplemented
            cx, cy = self.canonical(x), self.canonical(y)
            if not need(cx, cy):
                return NotImplemented
            scspec(self.ctx, name, cx, cy)
            E.put_words(st, a[0], self.new(f(self.rec(x), self.rec(y))))
            return None
        return g

    def c_halve(self, E, st, a, fn):
        x = E.words(st, a[1], 14)
        if all(isinstance(v, int) for v in x) or not self.canonical(x):
            return NotImplemented
        scspec(self.ctx, 'halve', True, True)
        E.put_words(st, a[0], self.new(self.rec(x).scale(pow(2, -1, q))))
        return None

    def contracts(self, *names):
        R = pow(2, -448, q)
        one = lambda a, b: a or b
        both = lambda a, b: a and b
        c = {}
        for n, sh, g in (('montgomery_multiply', 'ppp', self.binary('montgomery_multiply', lambda x, y: (x * y).scale(R), one)),
                         ('mul', 'ppp', self.binary('mul', lambda x, y: x * y, one)),
                         ('add', 'ppp', self.binary('add', lambda x, y: x + y, both)),
                         ('sub', 'ppp', self.binary('sub', lambda x, y: x - y, both)),
                         ('halve', 'pp', self.c_halve)):
            if n in names and has(self.m, SC + n, sh):
                c[SC + n] = g
        return c


def below_q(st, Y):
    d = padd(q - 1, Y, -1)
    st.assume(PolyBool(d, pz3(d) >= 0))


def scspec(ctx, name, cx=True, cy=True):
    """result < q and congruent to the specified value, for operands below q (or any 448-bit one where allowed)"""
    def go():
        x, y = [[new_input('%s%d' % (c, i), 0, 2**32 - 1) for i in range(14)] for c in 'ab']
        X, Y = V(x, 32), V(y, 32)
        nm = '%s%s' % (name, '' if cx and cy else ' (one operand any 448-bit integer)')

        def pre(st):
            if cx:
                below_q(st, X)
            if cy and name != 'halve':
                below_q(st, Y)
            if name == 'montgomery_multiply':
                d = pmul(X, padd(q - 1, Y, -1)) if cy else pmul(Y, padd(q - 1, X, -1))
                st.assume(PolyBool(d, pz3(d) >= 0))
        if name == 'mul':
            # through the Montgomery specification
            S = Scalars(ctx)
            cs = S.contracts('montgomery_multiply')
            E = Engine(ctx.m, cs)
            vx = S.new(SP.var('x')) if cx else x
            vy = S.new(SP.var('y')) if cy else y
            if not cs:
                raise Inconclusive('no separate Montgomery multiplication')
            for o, pt in execute(E, SC + name, [Out(56), vx, vy]):
                r = E.words(o.state, pt[0], 14)
                if not S.canonical(r):
                    raise Inconclusive('mul: result not known canonical')
                same_fp(nm, S.rec(r), S.rec(vx) * S.rec(vy))
            return True
        E = Engine(ctx.m)
        args = [Out(56), x] if name == 'halve' else [Out(56), x, y]
        for o, pt in execute(E, SC + name, args, pre):
            r = words(E, o, pt[0], 14)
            R = V(r, 32)
            prove_range(nm + ' < q', R, 0, q - 1, o.state)
            if name == 'add':
                g = padd(R, padd(X, Y), -1)
            elif name == 'sub':
                g = padd(R, padd(X, Y, -1), -1)
            elif name == 'halve':
                g = padd(pscale(R, 2), X, -1)
            else:
                g = padd(pscale(R, 2**448), pmul(X, Y), -1)
            prove_congruent(nm + ' mod q', g, q, o.state)
        return True
    return ctx.memo(('sc', name, cx, cy), lambda: quietly(go))


def declong(ctx, n, fn='decode_long'):
    """the canonical scalar of an n-byte little-endian string"""
    def go():
        S = Scalars(ctx)
        E = Engine(ctx.m, S.contracts('montgomery_multiply', 'mul', 'add'))
        bs = [new_input('b%d' % i, 0, 255) for i in range(n)]
        want = SP.const(0)
        for i, b in enumerate(bs[:56] if fn == 'decode' else bs):
            (m, _), = b.d.items()
            want = want + SP.var('in%d' % m[0]).scale(pow(256, i, q))
        for o, pt in execute(E, SC + fn, [Out(56), Mem(bs, 1, max(n, 1)), n]):
            r = E.words(o.state, pt[0], 14)
            CTX.facts, CTX.pc, CTX.pcpolys = o.state.facts, o.state.pc, o.state.pcpolys
            if not S.canonical(r):
                prove_range('%s(%d bytes) < q' % (fn, n), V([uw(o, w) for w in r], 32), 0, q - 1, o.state)
            same_fp('%s(%d bytes)' % (fn, n), S.rec(r), want)
        return True
    return ctx.memo(('dl', fn, n), lambda: quietly(go))


def encspec(ctx):
    def go():
        E = Engine(ctx.m)
        x = [new_input('a%d' % i, 0, 2**32 - 1) for i in range(14)]
        for o, pt in execute(E, SC + 'encode', [Out(57), x]):
            b = words(E, o, pt[0], 57, 1)
            d = padd(V(b, 8), V(x, 32), -1)
            nounsat('encode is little-endian', [d], o, [pz3(d) != 0])
        return True
    return ctx.memo(('senc',), lambda: quietly(go))


# ---------------------------------------------------------------- native oracles
@oracle('scalar')
def o_scalar(nat, c):
    fn = c['fn']
    ops = [bytes.fromhex(h) for h in c['ops']]
    if fn in ('decode_long', 'decode'):
        _, b = nat.call(SC + fn, [bytes(56), ops[0], len(ops[0])])
        got = int.from_bytes(b[0], 'little')
        want = int.from_bytes(ops[0][:56] if fn == 'decode' else ops[0], 'little') % q
        return None if got == want else '%s of %d bytes gives %d instead of %d' % (fn, len(ops[0]), got, want)
    v = [int.from_bytes(o, 'little') for o in ops]
    if fn == 'encode':
        _, b = nat.call(SC + fn, [bytes(57), ops[0]])
        return None if b[0] == v[0].to_bytes(57, 'little') else 'encode gives %s' % b[0].hex()
    _, b = nat.call(SC + fn, [bytes(56)] + ops)
    got = int.from_bytes(b[0], 'little')
    want = {'add': lambda: v[0] + v[1], 'sub': lambda: v[0] - v[1], 'mul': lambda: v[0] * v[1], 'halve': lambda: v[0] * pow(2, -1, q),
            'montgomery_multiply': lambda: v[0] * v[1] * pow(2, -448, q)}[fn]() % q
    return None if got == want else '%s gives %d instead of %d' % (fn, got, want)


def gen_scalars(n, rng, anyv=False):
    top = 2**448 if anyv else q
    out = [0, 1, 2, 3, q - 1, q - 2, (q + 1) // 2, (q - 1) // 2, 2**445, 2**224, 2**32 - 1, 2**446 - 1, q, q + 1, 2 * q - 1, 2 * q, 4 * q, 2**448 - 1, 2**447]
    for i in range(14):
        out += [1 << (32 * i), (1 << (32 * i)) - 1, q - (1 << (32 * i)), q ^ (1 << (32 * i)), (2**32 - 1) << (32 * i), 2**446 - (1 << (32 * i))]
    for _ in range(n):
        c = rng.random()
        if c < 0.4:
            out.append(rng.randrange(top))
        elif c < 0.7:
            out.append(ref.val32([rng.choice([0, 1, 2**32 - 1, 2**31, rng.getrandbits(32)]) for _ in range(14)]))
        else:
            out.append(q + rng.choice([-1, 1]) * rng.getrandbits(rng.randrange(1, 440)))
    return [v % 2**448 if anyv else v % q for v in out]


def model_scalars(exc, n):
    m = getattr(exc, 'probe', None)
    if isinstance(m, z3.ModelRef):
        xs = []
        for c in 'ab'[:n]:
            v = 0
            for d in m.decls():
                b = d.name().split('#')[0]
                if b[:1] == c and b[1:].isdigit() and int(b[1:]) < 14 and z3.is_int_value(m[d]):
                    v |= (m[d].as_long() % 2**32) << (32 * int(b[1:]))
            xs.append(v)
        yield tuple(xs)


def scases(fn, nops, n=2000, anyx=False):
    def g(ctx, exc):
        if not any(ir.demangle(f) == SC + fn for f in ctx.m.funcs):
            return
        rng = random.Random(11)
        xs = gen_scalars(n, rng, anyx)
        ys = gen_scalars(n, rng)
        rows = list(model_scalars(exc, nops))
        if nops == 1:
            rows += [(x,) for x in xs]
        else:
            rows += list(zip(xs, ys))
            for y in ys[:110]:
                rows += [(x, y) for x in xs[:40]] + [(y, (q - y) % q), (y, y), (y, (q - y + 1) % q), ((q - y) % q, (y - 1) % q)]
        for r in rows:
            if not anyx and any(v >= q for v in r):
                continue
            yield {'fn': fn, 'ops': [v.to_bytes(56, 'little').hex() for v in r]}
    return ('scalar', g)


def dcases(fn, n):
    def g(ctx, exc):
        if not any(ir.demangle(f) == SC + fn for f in ctx.m.funcs):
            return
        rng = random.Random(n)
        pats = [bytes(n), b'\xff' * n, b'\x01' + bytes(n - 1) if n else b'', bytes(n - 1) + b'\xff' if n else b'']
        for k in range(n):
            pats.append(bytes(k) + b'\xff' + bytes(n - k - 1))
            pats.append(b'\xff' * k + b'\x7f' + b'\xff' * (n - k - 1))
        for v in (q - 1, q, q + 1, 2 * q, 4 * q - 1, 4 * q, 2**446, 2**448 - 1, 2**448, 2**448 + q, 2**896 - 1):
            if v < 256**n:
                pats.append(v.to_bytes(n, 'little'))
                pats.append((256**n - 1 - v).to_bytes(n, 'little'))
        for _ in range(300):
            pats.append(rng.randbytes(n))
        for b in pats:
            yield {'fn': fn, 'ops': [b.hex()]}
    return ('scalar', g)


def tasks_arith(ctx):
    """P12"""
    T = []
    for n, nops, cx, cy in (('add', 2, True, True), ('sub', 2, True, True), ('halve', 1, True, True),
                            ('montgomery_multiply', 2, True, True), ('montgomery_multiply', 2, False, True), ('mul', 2, True, True), ('mul', 2, False, True)):
        T.append(Task('scalar %s%s' % (n, '' if cx else ' (any first operand)'), optional(lambda c, a=(n, cx, cy): scspec(c, *a)),
                      [scases(n, nops, 2000, not cx)], bounds='operands below q' if cx else 'first operand any 448-bit integer, second below q'))
    return T


def dl_lengths(ctx):
    if ctx.thorough:
        return list(range(0, 260))
    return [0, 1, 2, 3, 4, 5, 28, 31, 32, 33, 54, 55, 56, 57, 58, 59, 60, 84, 85, 110, 111, 112, 113, 114, 115, 116, 128, 140, 141, 167, 168, 169, 170, 171, 172, 200, 223, 224, 225]


def tasks_codec(ctx):
    """P13"""
    T = []
    for n in dl_lengths(ctx):
        T.append(Task('decode_long %d bytes' % n, optional(lambda c, n=n: declong(c, n)), [dcases('decode_long', n)], bounds='every string of %d bytes' % n))
    T.append(Task('scalar encode', optional(encspec), [scases('encode', 1, 500, True)], bounds='every 448-bit integer'))
    return T

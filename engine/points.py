"""Point layer: the formulas (P14) and the contracts the scalar multiplications are executed with."""
from field import *
import field
import scal

EP = 'libgoldilocks::extended_point::'
TE = EP + 'TwistedExtendedPoint::'
q = ref.L
dt = ref.dt
HALF = pow(2, -1, p)


# ---------------------------------------------------------------- normal forms modulo the curve equation
def curve_nf(f):
    """rewrite x_i^2*y_i^2 -> (y_i^2 - x_i^2 - 1)/dt for every pair of variables x<i>, y<i>"""
    idt = pow(dt, -1, p)
    out = {}
    work = dict(f.d)
    while work:
        m, c = work.popitem()
        e = dict(m)
        hit = None
        for v, k in m:
            if v[0] == 'x' and k >= 2 and e.get('y' + v[1:], 0) >= 2:
                hit = v[1:]
                break
        if hit is None:
            v = (out.get(m, 0) + c) % p
            if v:
                out[m] = v
            else:
                out.pop(m, None)
            continue
        x, y = 'x' + hit, 'y' + hit
        for dx, dy, k in ((0, 2, 1), (2, 0, -1), (0, 0, -1)):
            e2 = dict(e)
            e2[x] += dx - 2
            e2[y] += dy - 2
            m2 = tuple(sorted((a, b) for a, b in e2.items() if b))
            t = (work.get(m2, 0) + c * k * idt) % p
            if t:
                work[m2] = t
            else:
                work.pop(m2, None)
    return FP(out)


def zero_nf(name, f):
    same_fp(name, curve_nf(f), FP({}))


def unit_multiple(name, f, dens):
    """f is a non-zero constant times a monomial in the projective scales times powers of the (never vanishing) denominators"""
    f = curve_nf(f)
    if not f.d:
        raise Failed(name, 'is identically zero')
    import itertools
    low = None
    for m in f.d:
        e = {v: k for v, k in m if v[0] in 'Zl'}
        low = e if low is None else {v: min(k, e.get(v, 0)) for v, k in low.items() if v in e}
    mono = FP({tuple(sorted((v, k) for v, k in low.items() if k)): 1})
    for es in itertools.product(range(3), repeat=len(dens)):
        g = mono
        for d, e in zip(dens, es):
            g = g * (d ** e if e else FP.const(1))
        g = curve_nf(g)
        m = max(g.d, key=lambda m: (sum(k for _, k in m), m))
        if m not in f.d:
            continue
        c = f.d[m] * pow(g.d[m], -1, p) % p
        if not (f - g.scale(c)).d:
            same_fp(name, f, g.scale(c))
            return
    raise Failed(name, 'may vanish on valid operands')


def aff(i):
    return fvar('x%d' % i), fvar('y%d' % i)


def sum_law(i, j, s):
    """affine sum (s=1) or difference (s=-1): numerators and denominators"""
    x1, y1 = aff(i)
    x2, y2 = aff(j)
    x2 = x2.scale(s)
    t = (x1 * x2 * y1 * y2).scale(dt)
    one = FP.const(1)
    return (x1 * y2 + y1 * x2, one + t), (y1 * y2 + x1 * x2, one - t)


def ext_in(F, i, k=1, tok=True):
    x, y = aff(i)
    Z = fvar('Z%d' % i)
    return [F.elem(f, k) for f in (x * Z, y * Z, Z, x * y * Z if tok else fvar('junk'))]


def niels_polys(i, lam):
    x, y = aff(i)
    return [(y - x) * lam, (y + x) * lam, (x * y * lam).scale(2 * dt), lam.scale(2)]


def flat(cs):
    return [w for c in cs for w in c]


SHAPES = {'double': (TE + 'double_internal', 'pi'), 'add_n': (TE + 'add_niels_to_extended', 'ppi'), 'sub_n': (TE + 'sub_niels_from_extended_point', 'ppi'),
          'add_pn': (TE + 'add_projected_niels_to_extended', 'ppi'), 'sub_pn': (TE + 'sub_projected_niels_from_extended_point', 'ppi'),
          'to_pn': (TE + 'to_projected_niels', 'pp'), 'pn_ext': (EP + 'TwistedProjectedNiels::to_extended_point', 'pp'),
          'n_ext': (EP + 'TwistedNiels::to_extended', 'pp'), 'cneg': (EP + 'TwistedNiels::conditional_negate', 'pp')}


def pspec(ctx, op, flag=0):
    """one point operation on every operand (coordinates with limbs up to 2^28+2^12, any projective scale)"""
    def go():
        F = Field(ctx)
        E = F.engine(F.contracts())
        path, sh = SHAPES[op]
        nm = '%s(%d)' % (path[len(EP):], flag)
        one, half = FP.const(1), FP.const(HALF)

        def coords(o, ptr, n):
            fs = []
            for c in range(n):
                ws = E.words(o.state, Ptr(ptr.o, ptr.off + 64 * c), 16)
                CTX.facts, CTX.pc, CTX.pcpolys = o.state.facts, o.state.pc, o.state.pcpolys
                f, u = F.rec(ws)
                fs.append((f, u))
            return fs

        def inrange(fs):
            for f, u in fs:
                for w in u:
                    if not isinstance(w, int) and w.iv[1] > khi(1) or isinstance(w, int) and w > khi(1):
                        prove_range(nm + ' limb range', w, 0, khi(1))

        def check_ext(o, ptr, law, tvalid):
            fs = coords(o, ptr, 4)
            X, Y, Z, T = [f for f, _ in fs]
            (nx, dx), (ny, dy) = law
            zero_nf(nm + ' x', X * dx - nx * Z)
            zero_nf(nm + ' y', Y * dy - ny * Z)
            unit_multiple(nm + ' z', Z, [dx, dy])
            if tvalid:
                zero_nf(nm + ' t', T * Z - X * Y)
            inrange(fs if tvalid else fs[:3])

        x1, y1 = aff(1)
        idl = ((x1, one), (y1, one))
        if op == 'double':
            for tv in (True, False):
                for o, ptr in execute(E, path, [flat(ext_in(F, 1, tok=tv)), flag]):
                    check_ext(o, ptr[0], sum_law(1, 1, 1), not flag)
        elif op in ('add_n', 'sub_n', 'add_pn', 'sub_pn'):
            proj = op.endswith('pn')
            lam = fvar('l2') if proj else half
            n = [F.elem(f) for f in niels_polys(2, lam)[:4 if proj else 3]]
            for o, ptr in execute(E, path, [flat(ext_in(F, 1)), flat(n), flag]):
                check_ext(o, ptr[0], sum_law(1, 2, 1 if op[:3] == 'add' else -1), not flag)
        elif op == 'to_pn':
            for o, ptr in execute(E, path, [Out(256), flat(ext_in(F, 1))]):
                fs = coords(o, ptr[0], 4)
                a, b, c, z = [f for f, _ in fs]
                zero_nf(nm + ' a', a.scale(2) - z * (y1 - x1))
                zero_nf(nm + ' b', b.scale(2) - z * (y1 + x1))
                zero_nf(nm + ' c', c - (z * x1 * y1).scale(dt))
                unit_multiple(nm + ' z', z, [])
                inrange(fs)
        elif op in ('pn_ext', 'n_ext'):
            proj = op[0] == 'p'
            n = [F.elem(f) for f in niels_polys(1, fvar('l1') if proj else half)[:4 if proj else 3]]
            for o, ptr in execute(E, path, [Out(256), flat(n)]):
                check_ext(o, ptr[0], idl, True)
        elif op == 'cneg':
            lam = fvar('l1')
            n = [F.elem(f) for f in niels_polys(1, lam)[:3]]
            for o, ptr in execute(E, path, [flat(n), [M32 * flag]]):
                fs = coords(o, ptr[0], 3)
                sub = {'x1': x1.scale(-1)} if flag else {}
                for (f, u), w, c in zip(fs, niels_polys(1, lam), 'abc'):
                    zero_nf(nm + ' ' + c, f - w.subs(sub))
                inrange(fs)
        return True
    return ctx.memo(('pt', op, flag), lambda: quietly(go))


def eval_tokens(F, e):
    """tokens of a returned boolean"""
    return {k: v for k, v in F.toks.items()}


def strip_scales(f):
    """divide by the monomial in the (non-zero) projective scales and make monic"""
    low = None
    for m in f.d:
        e = {v: k for v, k in m if v[0] in 'Zl'}
        low = e if low is None else {v: min(k, e.get(v, 0)) for v, k in low.items() if v in e}
    low = low or {}
    d = {tuple(sorted((v, k - low.get(v, 0)) for v, k in m if k - low.get(v, 0))): c for m, c in f.d.items()}
    f = FP(d)
    if f.d:
        c = f.d[min(f.d)]
        f = f.scale(pow(c, -1, p))
    return f


def as_bool(e):
    if isinstance(e, int):
        return z3.BoolVal(bool(e & 1))
    return to_bool(e)


def equalspec(ctx):
    """mod_equal on prime-order points: true exactly for equal points"""
    def go():
        for same in (True, False):
            F = Field(ctx)
            E = F.engine(F.contracts('decaf_equal'))
            F.norm = curve_nf
            P1 = ext_in(F, 1)
            if same:
                x, y = aff(1)
                Z = fvar('Z2')
                P2 = [F.elem(f) for f in (x * Z, y * Z, Z, x * y * Z)]
            else:
                P2 = ext_in(F, 2)
            (x1, y1), (x2, y2) = aff(1), aff(2)
            for o, ptr in execute(E, TE + 'mod_equal', [flat(P1), flat(P2)]):
                r = as_bool(o.value)
                facts = list(o.state.pc)
                if same:
                    for (k, _), (b, f) in F.toks.items():
                        if k == 'zero' and not curve_nf(f).d:
                            facts.append(b)
                    prove('mod_equal accepts equal points', facts, z3.Not(r))
                else:
                    # distinct points of the odd-order group: x1*y2 != y1*x2 and (x1,y1) != (x2,y2)
                    cross = strip_scales(x1 * y2 - y1 * x2)
                    dx, dy = strip_scales(x1 - x2), strip_scales(y1 - y2)
                    bx = by = None
                    for (k, _), (b, f) in F.toks.items():
                        if k != 'zero':
                            continue
                        g = strip_scales(f)
                        if g.key == cross.key:
                            facts.append(z3.Not(b))
                        elif g.key == dx.key:
                            bx = b
                        elif g.key == dy.key:
                            by = b
                    if bx is not None and by is not None:
                        facts.append(z3.Not(z3.And(bx, by)))
                    prove('mod_equal separates distinct points', facts, r)
        return True
    return ctx.memo(('meq',), lambda: quietly(go))


def oncurvespec(ctx):
    def go():
        F = Field(ctx)
        E = F.engine(F.contracts('decaf_equal'))
        X, Y, Z, T = [fvar(v) for v in 'XYZT']
        for o, ptr in execute(E, TE + 'is_on_curve', [flat([F.elem(f) for f in (X, Y, Z, T)])]):
            r = as_bool(o.value)
            want = []
            for f in (X * Y - Z * T, Y * Y - X * X - Z * Z - (T * T).scale(dt), Z):
                c = f.d[min(f.d)]
                want.append(F.tok('zero', f.scale(pow(c, -1, p))))
            w = z3.And(want[0], want[1], z3.Not(want[2]))
            prove('is_on_curve', list(o.state.pc), r != w)
        return True
    return ctx.memo(('onc',), lambda: quietly(go))


# ---------------------------------------------------------------- native oracle
def ser_ext(X, Y, Z, T):
    return b''.join(pack(ref.limbs28(v % p)) for v in (X, Y, Z, T))


def rd_ext(b):
    return [ref.val28(unpack(b[64 * i:64 * i + 64])) % p for i in range(len(b) // 64)]


TB = None


def tbase():
    global TB
    if TB is None:
        TB = ref.tmul(pow(2, -1, q), ref.phi(ref.B))  # placeholder, replaced below
    return TB


@oracle('point')
def o_point(nat, c):
    """c: op, flag, a=[k,z] and b=[k,z]: scalars (multiples of a prime-order point) and projective scales"""
    op, flag = c['op'], c['flag']
    path, sh = SHAPES[op]
    G = ref.phi(ref.B)
    x1, y1 = ref.tmul(c['a'][0], G)
    z1 = c['a'][1] % p or 1
    e1 = ser_ext(x1 * z1, y1 * z1, z1, x1 * y1 * z1)

    def nl(x, y, lam):
        return [(y - x) * lam, (y + x) * lam, 2 * dt * x * y * lam, 2 * lam]

    def cmp_ext(b, want, tv):
        X, Y, Z, T = rd_ext(b)
        if Z == 0:
            return 'the result has z = 0'
        zi = ref.inv(Z)
        if (X * zi % p, Y * zi % p) != want:
            return '%s gives a wrong point' % path[len(EP):]
        if tv and (T * Z - X * Y) % p:
            return '%s leaves a wrong t coordinate' % path[len(EP):]
        for v in unpack(b[:192 if not tv else 256]):
            if v > khi(1):
                return 'a limb of the result is out of range'
        return None

    def pk(vs):
        return b''.join(pack(ref.limbs28(v % p)) for v in vs)
    if op == 'double':
        _, b = nat.call(path, [e1, flag])
        return cmp_ext(b[0], ref.tadd((x1, y1), (x1, y1)), not flag)
    if op in ('add_n', 'sub_n', 'add_pn', 'sub_pn'):
        x2, y2 = ref.tmul(c['b'][0], G)
        proj = op.endswith('pn')
        n = nl(x2, y2, (c['b'][1] % p or 1) if proj else HALF)[:4 if proj else 3]
        _, b = nat.call(path, [e1, pk(n), flag])
        P2 = (x2, y2) if op[:3] == 'add' else ref.tneg((x2, y2))
        return cmp_ext(b[0], ref.tadd((x1, y1), P2), not flag)
    if op == 'to_pn':
        _, b = nat.call(path, [bytes(256), e1])
        A_, B_, C_, Z_ = rd_ext(b[0])
        if Z_ == 0 or [A_, B_, C_] != [v % p for v in nl(x1, y1, Z_ * HALF)[:3]]:
            return 'wrong projective Niels form'
        return None
    if op in ('pn_ext', 'n_ext'):
        proj = op[0] == 'p'
        n = nl(x1, y1, (c['a'][1] % p or 1) if proj else HALF)[:4 if proj else 3]
        _, b = nat.call(path, [bytes(256), pk(n)])
        return cmp_ext(b[0], (x1, y1), True)
    if op == 'cneg':
        n = nl(x1, y1, z1)[:3]
        _, b = nat.call(path, [pk(n), (M32 * flag).to_bytes(4, 'little')])
        w = nl(-x1 if flag else x1, y1, z1)[:3]
        return None if rd_ext(b[0]) == [v % p for v in w] else 'wrong negation'
    if op in ('mod_equal', 'on_curve'):
        raise KeyError(op)


@oracle('point_pred')
def o_pred(nat, c):
    G = ref.phi(ref.B)

    def ext(k, z):
        x, y = ref.tmul(k, G)
        z = z % p or 1
        return [x * z, y * z, z, x * y * z]
    import ctypes
    if c['op'] == 'mod_equal':
        ea, eb = ext(*c['a']), ext(*c['b'])
        if 'match' in c:
            # scale the second one so that a coordinate (or the sum of two) coincides
            f = [lambda e: e[0], lambda e: e[1], lambda e: e[2], lambda e: e[3], lambda e: e[0] + e[1], lambda e: e[1] - e[0], lambda e: e[0] * c['sign'] * -1][c['match']]
            if f(eb) % p and f(ea) % p:
                k = f(ea) * c['sign'] * pow(f(eb), -1, p)
                eb = [v * k % p for v in eb]
        r, _ = nat.call(TE + 'mod_equal', [ser_ext(*ea), ser_ext(*eb)], ctypes.c_bool)
        want = (c['a'][0] - c['b'][0]) % q == 0
    else:
        e = c['raw'] if 'raw' in c else [(v + w) % p for v, w in zip(ext(*c['a']), c['d'])]
        if c.get('zero'):
            e[2] = 0
        r, _ = nat.call(TE + 'is_on_curve', [ser_ext(*e)], ctypes.c_bool)
        X, Y, Z, T = e
        want = (X * Y - Z * T) % p == 0 and (Y * Y - X * X - Z * Z - dt * T * T) % p == 0 and Z % p != 0
    return None if bool(r) == want else '%s returned %s, expected %s' % (c['op'], bool(r), want)


def pt_cases(op, flag):
    def g(ctx, exc):
        rng = random.Random(3)
        sp = [0, 1, q - 1, 2, q - 2, (q + 1) // 2, 5]
        zs = [1, 2, p - 1, rng.randrange(1, p), 2**224, rng.randrange(1, p)]
        for a in sp:
            for b in sp:
                yield {'op': op, 'flag': flag, 'a': [a, rng.choice(zs)], 'b': [b, rng.choice(zs)]}
        for _ in range(40):
            k = rng.randrange(q)
            yield {'op': op, 'flag': flag, 'a': [k, rng.randrange(1, p)], 'b': [rng.choice([k, q - k, rng.randrange(q)]), rng.randrange(1, p)]}
    return ('point', g)


def pred_cases(op):
    def g(ctx, exc):
        rng = random.Random(4)
        sp = [0, 1, q - 1, 2, q - 2, 5]
        if op == 'mod_equal':
            for a in sp:
                for b in sp:
                    yield {'op': op, 'a': [a, rng.randrange(1, p)], 'b': [b, rng.randrange(1, p)]}
            for _ in range(40):
                k = rng.randrange(q)
                yield {'op': op, 'a': [k, rng.randrange(1, p)], 'b': [rng.choice([k, q - k, k + 1]) % q, rng.randrange(1, p)]}
            for k in [0, 1, rng.randrange(q)]:
                for l in [q - k, 0, 1, k + 1, rng.randrange(q)]:
                    for j in range(6):
                        for sg in (1, -1):
                            yield {'op': op, 'a': [k, rng.randrange(1, p)], 'b': [l % q, 1], 'match': j, 'sign': sg}
            return

        def root(v):
            r = pow(v, (p + 1) // 4, p)
            return r if r * r % p == v % p else None
        # coordinates satisfying one of the conditions only
        for _ in range(30):
            x, y, z, t = [rng.randrange(1, p) for _ in range(4)]
            y0 = root(z * z + dt * t * t)
            x0 = root(-z * z - dt * t * t)
            raws = [[0, y0, z, t], [x0, 0, z, t], [2 * x * y, x * x + y * y, x * x - y * y, 0], [x, y, z, x * y * pow(z, -1, p)],
                    [0, root(dt * t * t), 0, t], [root(-dt * t * t), 0, 0, t], [x, root(x * x + z * z + dt * t * t), z, t], [x, x, 0, 0], [x, -x, 0, 0], [0, y, y, 0], [0, y, -y, 0], [0, 0, z, 0], [x, 0, z, 0], [0, y, z, 0]]
            for r in raws:
                if None not in r:
                    yield {'op': op, 'raw': [v % p for v in r]}
        for k in sp + [rng.randrange(q) for _ in range(6)]:
            yield {'op': op, 'a': [k, 1], 'd': [0] * 4}
            yield {'op': op, 'a': [k, rng.randrange(1, p)], 'd': [0] * 4}
            for j in range(4):
                yield {'op': op, 'a': [k, rng.randrange(1, p)], 'd': [int(i == j) << rng.randrange(440) for i in range(4)]}
            yield {'op': op, 'a': [0, 1], 'd': [0, -1, 0, 0], 'zero': 1}
            for v in (2, 3, 5):
                # a multiple satisfying only one of the equations
                yield {'op': op, 'a': [k, 1], 'd': [0, 0, 0, v]}
        yield {'op': op, 'a': [0, 1], 'd': [0, -1, -1, 0]}
        yield {'op': op, 'a': [0, 1], 'd': [1, 0, -1, 0], 'zero': 1}
    return ('point_pred', g)


def tasks(ctx):
    """P14"""
    T = []
    for op in SHAPES:
        for flag in ((0, 1) if op in ('double', 'add_n', 'sub_n', 'add_pn', 'sub_pn', 'cneg') else (0,)):
            T.append(Task('point %s(%d)' % (op, flag), optional(lambda c, a=(op, flag): pspec(c, *a)), [pt_cases(op, flag)],
                          bounds='all coordinates with limbs <= 2^28+2^12, all projective scales'))
    return T + tasks_pred(ctx)


def tasks_pred(ctx):
    T = []
    T.append(Task('point equality', optional(equalspec), [pred_cases('mod_equal')]))
    T.append(Task('on-curve test', optional(oncurvespec), [pred_cases('on_curve')]))
    return T

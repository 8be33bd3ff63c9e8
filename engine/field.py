"""Field layer: specifications of the limb-level functions, verified on demand for the limb ranges
at which the layers above use them, and the contracts those layers call."""
import z3
from dom import *
import dom
from sym import *
from obl import *
import ref
import random
from run import Task, oracle
from native import limbs as unpack, pack
import ir

p = ref.p
BN = 'libgoldilocks::bignumber::'
SLACK = 1 << 12


# ---------------------------------------------------------------- F_p[vars]
class FP:
    """polynomial over F_p; monomials are tuples of (var, exponent)"""
    __slots__ = ('d', '_k')
    mod = p

    def __init__(self, d):
        self.d = d
        self._k = None

    @property
    def key(self):
        if self._k is None:
            self._k = frozenset(self.d.items())
        return self._k

    @classmethod
    def const(cls, c):
        c %= cls.mod
        return cls({(): c} if c else {})

    @classmethod
    def var(cls, v):
        return cls({((v, 1),): 1})

    def __add__(a, b):
        d = dict(a.d)
        for m, c in b.d.items():
            v = (d.get(m, 0) + c) % a.mod
            if v:
                d[m] = v
            else:
                d.pop(m, None)
        return type(a)(d)

    def __sub__(a, b):
        return a + b.scale(-1)

    def scale(a, k):
        k %= a.mod
        if not k:
            return type(a)({})
        return type(a)({m: c * k % a.mod for m, c in a.d.items()})

    def __mul__(a, b):
        d = {}
        for m1, c1 in a.d.items():
            for m2, c2 in b.d.items():
                m = mmul(m1, m2)
                v = (d.get(m, 0) + c1 * c2) % a.mod
                if v:
                    d[m] = v
                else:
                    d.pop(m, None)
        if len(d) > 20000:
            raise Inconclusive('field polynomial too large')
        return type(a)(d)

    def __pow__(a, n):
        if len(a.d) == 1:
            (m, c), = a.d.items()
            return type(a)({tuple((v, e * n) for v, e in m): pow(c, n, a.mod)})
        r = type(a).const(1)
        for _ in range(n):
            r = r * a
        return r

    def vars(self):
        return {v for m in self.d for v, e in m}

    def subs(a, sub):
        """substitute variables by polynomials"""
        r = type(a).const(0)
        for m, c in a.d.items():
            t = type(a).const(c)
            for v, e in m:
                if v in sub:
                    t = t * (sub[v] ** e)
                else:
                    t = t * type(a)({((v, e),): 1})
            r = r + t
        return r

    def ev(a, env):
        s = 0
        for m, c in a.d.items():
            t = c
            for v, e in m:
                t = t * pow(env[v], e, a.mod) % a.mod
            s += t
        return s % a.mod

    def __repr__(self):
        if len(self.d) > 8:
            return 'FP<%d terms>' % len(self.d)
        return ' + '.join('%d*%s' % (c if c < self.mod // 2 else c - self.mod, '*'.join('%s^%d' % x for x in m) or '1') for m, c in self.d.items()) or '0'


def mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for v, e in b:
        d[v] = d.get(v, 0) + e
    return tuple(sorted(d.items()))


def fconst(c):
    return FP.const(c)


def fvar(v):
    return FP({((v, 1),): 1})


# ---------------------------------------------------------------- elements in memory
class Elems:
    """abstract ring elements: id -> polynomial; their limbs are tagged atoms"""

    def __init__(self, ring=FP, n=16, radix=28, tag='E'):
        self.poly = {}
        self.atoms = {}
        self.n = 0
        self.ring, self.nl, self.radix, self.t = ring, n, radix, tag

    def new(self, fp, his):
        """limb atoms standing for some representative of fp with the given limb maxima"""
        i = self.n
        self.n += 1
        self.poly[i] = fp
        a = A.batch('%s%d_' % (self.t.lower(), i), [0] * self.nl, his[:self.nl], [(self.t, i, j) for j in range(self.nl)])
        return [Poly({(a + j,): 1}) for j in range(self.nl)]

    def token(self, limbs):
        """the element id if the words are exactly one element's limbs"""
        i = None
        for j, x in enumerate(limbs):
            if not isinstance(x, Poly) or len(x.d) != 1:
                return None
            (m, c), = x.d.items()
            if len(m) != 1 or c != 1:
                return None
            t = A.tag[m[0]]
            if not t or t[0] != self.t or t[2] != j or (i is not None and t[1] != i):
                return None
            i = t[1]
        return i

    def recognise(self, limbs, free=False):
        """the ring element a limb vector represents, from the integers the words denote"""
        i = self.token(limbs)
        if i is not None:
            return self.poly[i], limbs
        us = [unsigned(x, 32) for x in limbs]
        mod, R = self.ring.mod, self.ring
        if all(isinstance(u, int) for u in us):
            return R.const(sum(u << (self.radix * k) for k, u in enumerate(us))), us
        g = unfold(V(us, self.radix), mod)
        acc = {}
        r = R.const(0)
        for m, c in g.d.items():
            if m == ():
                r = r + R.const(c)
                continue
            if len(m) != 1:
                raise Unrecognised('a product of limbs survives')
            t = A.tag[m[0]]
            if not t or t[0] != self.t:
                if free and not A.defn[m[0]]:
                    r = r + R.var('in%d' % m[0]).scale(c)
                    continue
                raise Unrecognised('a carry is lost')
            acc.setdefault(t[1], {})[t[2]] = c
        for e, d in acc.items():
            if len(d) != self.nl:
                raise Unrecognised('limbs of one operand are lost')
            c0 = d[0]
            for j in range(self.nl):
                if (c0 << (self.radix * j)) % mod != d[j]:
                    raise Unrecognised('limbs of one operand carry different weights')
            r = r + self.poly[e].scale(c0)
        return r, us


class Unrecognised(Exception):
    pass


def klass(us):
    """smallest k such that every limb is at most k*(2^28 + 2^12)"""
    k = 1
    for u in us:
        h = u if isinstance(u, int) else u.iv[1]
        while h > k * ((1 << 28) + SLACK):
            k += 1
    return k


def khi(k):
    return min(k * ((1 << 28) + SLACK), (1 << 32) - 1)


# ---------------------------------------------------------------- running one function of the crate
class Absent(Exception):
    """the function does not exist (any more) with the expected shape: its callers are judged instead"""


def has(m, path, shape):
    """does a function with this path and parameter shape ('p' pointer / 'i' integer) exist?"""
    ns = [n for n in m.funcs if ir.demangle(n) == path]
    if len(ns) != 1:
        return False
    ps = ''.join('p' if t[0] == 'ptr' else 'i' for t, _ in m.funcs[ns[0]].params)
    return ps == shape


class Out:
    def __init__(self, n):
        self.n = n


class Mem:
    """a pointer argument: words of the given size"""

    def __init__(self, words, size=4, total=None):
        self.words, self.size, self.total = words, size, total


def shape_of(args):
    return ''.join('p' if isinstance(a, (Out, Mem, list)) else 'i' for a in args)


def execute(E, path, args, pre=None, state=None, panics=False):
    """run one function on symbolic arguments; a panic is a refuted obligation.
    args: list (words), Mem, Out(nbytes) or integers. returns [(outcome, pointers)]"""
    if not has(E.m, path, shape_of(args)):
        raise Absent(path)
    st = state or State()
    st.next = E.counter
    ptrs, av = [], []
    for a in args:
        if isinstance(a, list):
            a = Mem(a)
        if isinstance(a, Out):
            q = st.alloc(a.n, 'out')
        elif isinstance(a, Mem):
            q = st.alloc(a.total or len(a.words) * a.size, 'arg')
            E.put_words(st, q, a.words, a.size)
        else:
            av.append(a)
            ptrs.append(None)
            continue
        av.append(q)
        ptrs.append(q)
    if pre:
        pre(st)
    try:
        outs = E.run(E.find(path), av, st)
    finally:
        LOG.take(E)
    r = []
    for o in outs:
        if o.kind == 'panic' and panics:
            r.append((o, ptrs))
            continue
        if o.kind == 'panic':
            raise Failed(path, 'reaches a panic: %s at %s' % (o.value, o.where), facts=o.state.pc)
        if o.kind == 'unreachable':
            raise Failed(path, 'reaches unreachable code', facts=o.state.pc)
        if o.kind == 'ret':
            r.append((o, ptrs))
    if not r:
        raise Inconclusive('no path of %s returns' % path)
    return r


def uw(o, x, w=32):
    """unsigned reading of an output word on its path"""
    CTX.facts, CTX.pc, CTX.pcpolys = o.state.facts, o.state.pc, o.state.pcpolys
    if x is UNDEF:
        raise Failed('output', 'undefined output word')
    if isinstance(x, (z3.BoolRef, z3.BitVecRef)):
        raise Inconclusive('bit-level output where an arithmetic one was expected')
    return unsigned(x, w)


def words(E, o, q, n, size=4):
    return [uw(o, x, 8 * size) for x in E.words(o.state, q, n, size)]


def fresh(k, name):
    return [new_input('%s%d' % (name, i), 0, khi(k)) for i in range(16)]


def same_fp(name, got, want):
    """the solver's verdict that two polynomials over F_p have the same normal form"""
    d = (got - want).d
    p = got.mod
    if d:
        raise Failed(name, 'the computed polynomial differs from the specified one')
    ms = sorted(set(got.d) | set(want.d))
    vs = {m: z3.Int('M%d' % i) for i, m in enumerate(ms)}
    z = lambda f: z3.Sum([z3.IntVal(0)] + [c * vs[m] for m, c in f.d.items()])
    k = z3.Sum([z3.IntVal(0)] + [((got.d.get(m, 0) - want.d.get(m, 0)) // p) * vs[m] for m in ms])
    prove(name, [], z(got) - z(want) != p * k)


# ---------------------------------------------------------------- the layer
class Field:
    def __init__(self, ctx):
        self.ctx = ctx
        self.m = ctx.m
        self.el = Elems()
        self.toks = {}
        self.have = {}
        self.demand = set()

    def engine(self, contracts=None):
        return Engine(self.m, contracts or {})

    def exists(self, name, shape):
        return has(self.m, BN + name, shape)

    # -- multiplication
    def mulspec(self, fname, ka, kb):
        """limb maxima of the product, after proving it congruent to the product"""
        def go():
            save = (CTX.facts, CTX.pc, CTX.pcpolys)
            CTX.facts, CTX.pc, CTX.pcpolys = {}, [], []
            try:
                E = self.engine()
                a = fresh(ka, 'a')
                b = fresh(kb, 'b') if kb else a
                nm = '%s[limbs<=%d*(2^28+2^12)%s]' % (fname, ka, ',%d*(2^28+2^12)' % kb if kb else '')
                outs = execute(E, BN + fname, [Out(64), a, b] if kb else [Out(64), a])
                his = [0] * 16
                for o, q in outs:
                    r = words(E, o, q[0], 16)
                    prove_congruent(nm + ' = product mod p', padd(V(r, 28), pmul(V(a, 28), V(b, 28)), -1), p, o.state)
                    for j, x in enumerate(r):
                        his[j] = max(his[j], x if isinstance(x, int) else x.iv[1])
                return his
            finally:
                CTX.facts, CTX.pc, CTX.pcpolys = save
        self.demand.add((fname, ka, kb))
        return self.ctx.memo(('mul', fname, ka, kb), go)

    def srspec(self, k):
        """strong_reduce: the representative below p"""
        def go():
            save = (CTX.facts, CTX.pc, CTX.pcpolys)
            CTX.facts, CTX.pc, CTX.pcpolys = {}, [], []
            try:
                E = self.engine()
                a = fresh(k, 'a')
                nm = 'strong_reduce[limbs<=%d*(2^28+2^12)]' % k
                for o, q in execute(E, BN + 'strong_reduce', [Out(64), a]):
                    r = words(E, o, q[0], 16)
                    for x in r:
                        prove_range(nm + ' limb<2^28', x, 0, 2**28 - 1, o.state)
                    prove_range(nm + ' < p', V(r, 28), 0, p - 1, o.state)
                    prove_congruent(nm + ' = value mod p', padd(V(r, 28), V(a, 28), -1), p, o.state)
                return True
            finally:
                CTX.facts, CTX.pc, CTX.pcpolys = save
        return self.ctx.memo(('sr', k), go)

    def c_mul(self, fname):
        def f(E, st, a, fn):
            xa = E.words(st, a[1], 16)
            xb = E.words(st, a[2], 16) if len(a) > 2 else xa
            if all(isinstance(x, int) for x in xa + xb):
                return NotImplemented
            if any(isinstance(x, Mux) for x in xa + xb):
                raise Inconclusive('product of alternatives')
            fa, ua = self.rec(xa)
            fb, ub = self.rec(xb) if len(a) > 2 else (fa, ua)
            his = self.mulspec(fname, klass(ua), klass(ub) if len(a) > 2 else 0)
            E.put_words(st, a[0], self.el.new(self.norm(fa * fb), his))
            return None
        return f

    norm = staticmethod(lambda f: f)

    def c_strong(self, rec):
        def f(E, st, a, fn):
            x = E.words(st, a[1], 16)
            if all(isinstance(v, int) for v in x):
                return NotImplemented
            us = [unsigned(v, 32) for v in x]
            self.srspec(klass(us))
            y = [new_input('y%d' % i, 0, 2**28 - 1) for i in range(16)]
            W = V(us, 28)
            k = new_input('k', W.iv[0] // p - 1, W.iv[1] // p + 1)
            d = padd(padd(W, pscale(k, p), -1), V(y, 28), -1)
            st.assume(PolyBool(d, pz3(d) == 0))
            d = padd(p - 1, V(y, 28), -1)
            st.assume(PolyBool(d, pz3(d) >= 0))
            E.put_words(st, a[0], y)
            rec.append((us, y))
            return None
        return f

    def rec(self, xs):
        try:
            return self.el.recognise(xs)
        except Unrecognised as e:
            raise Failed('field arithmetic', 'a value is not congruent to any combination of its operands (%s)' % e)

    def put(self, E, st, q, f, k=1):
        E.put_words(st, q, self.el.new(f, [khi(k)] * 16))

    def elem(self, f, k=1):
        if not f.d or (len(f.d) == 1 and () in f.d):
            return ref.limbs28(f.d.get((), 0))
        return self.el.new(f, [khi(k)] * 16)

    # -- tokens for facts about field values
    def tok(self, kind, f):
        k = (kind, f.key)
        if k not in self.toks:
            self.toks[k] = (z3.Bool('%s_%d' % (kind, len(self.toks))), f)
        return self.toks[k][0]

    def c_equal(self, E, st, a, fn):
        x, y = E.words(st, a[0], 16), E.words(st, a[1], 16)
        if all(isinstance(v, int) for v in x + y):
            return NotImplemented
        (fx, ux), (fy, uy) = self.rec(x), self.rec(y)
        eqspec(self.ctx, klass(ux), klass(uy))
        d = self.norm(fx - fy)
        if not d.d:
            return 0xffffffff
        if len(d.d) == 1 and () in d.d:
            return 0
        c = d.d[min(d.d)]
        d = d.scale(pow(c, -1, p))
        return z3.If(self.tok('zero', d), z3.BitVecVal(-1, 32), z3.BitVecVal(0, 32))

    def c_lowbit(self, E, st, a, fn):
        x = E.words(st, a[0], 16)
        if all(isinstance(v, int) for v in x):
            return NotImplemented
        f, u = self.rec(x)
        lbspec(self.ctx, klass(u))
        f = self.norm(f)
        return z3.If(self.tok('odd', f), z3.BitVecVal(-1, 32), z3.BitVecVal(0, 32))

    def c_serialize(self, E, st, a, fn):
        x = E.words(st, a[1], 16)
        if all(isinstance(v, int) for v in x):
            return NotImplemented
        f, u = self.rec(x)
        serspec(self.ctx, klass(u))
        f = self.norm(f)
        k = ('ser', f.key)
        if k not in self.toks:
            self.toks[k] = (z3.BitVec('ser_%d' % len(self.toks), 448), f)
        b = self.toks[k][0]
        E.put_words(st, a[0], [z3.Extract(8 * i + 7, 8 * i, b) for i in range(56)], 1)
        return None

    def c_isr(self, E, st, a, fn):
        x = E.words(st, a[1], 16)
        if all(isinstance(v, int) for v in x):
            return NotImplemented
        f, u = self.rec(x)
        his = powspec(self.ctx, 'isr', klass(u))
        E.put_words(st, a[0], self.el.new(self.power('isr', f), his))
        return None

    def c_invert(self, E, st, a, fn):
        x = E.words(st, a[1], 16)
        if all(isinstance(v, int) for v in x):
            return NotImplemented
        f, u = self.rec(x)
        his = powspec(self.ctx, 'invert', klass(u))
        E.put_words(st, a[0], self.el.new(self.power('inv', f), his))
        return None

    def power(self, kind, f):
        """a variable standing for f^((p-3)/4) or f^(p-2)"""
        f = self.norm(f)
        k = (kind, f.key)
        if k not in self.toks:
            self.toks[k] = (fvar('%s_%d' % (kind, len(self.toks))), f)
        return self.toks[k][0]

    def contracts(self, *more):
        c = {}
        for n, sh, f in (('mul', 'ppp', self.c_mul('mul')), ('square', 'pp', self.c_mul('square')),
                         ('decaf_equal', 'pp', self.c_equal), ('low_bit', 'p', self.c_lowbit),
                         ('dsa_like_serialize', 'pp', self.c_serialize), ('isr', 'pp', self.c_isr), ('invert', 'pp', self.c_invert)):
            if (n in ('mul', 'square') or n in more) and self.exists(n, sh):
                c[BN + n] = f
        return c


# ---------------------------------------------------------------- specifications of single functions
def quietly(fn):
    save = (CTX.facts, CTX.pc, CTX.pcpolys)
    CTX.facts, CTX.pc, CTX.pcpolys = {}, [], []
    try:
        return fn()
    finally:
        CTX.facts, CTX.pc, CTX.pcpolys = save


def nounsat(name, polys, o, extra):
    polys = [P(x) for x in polys] + o.state.pcpolys
    r, m = psolve(polys, o.state.pc, extra, 120000)
    if r == 'unsat':
        LOG.add(name)
        return
    if r == 'sat':
        raise Failed(name, 'the solver found values violating it', m)
    raise Inconclusive('solver gave up on ' + name)


M32 = 2**32 - 1


def eqspec(ctx, ka, kb):
    """decaf_equal is all-ones exactly when the operands agree mod p, zero otherwise"""
    def go():
        F = Field(ctx)
        E = F.engine()
        a, b = fresh(ka, 'a'), fresh(kb, 'b')
        D = padd(V(a, 28), V(b, 28), -1)
        lo, hi = D.iv
        nm = 'decaf_equal[%d,%d]' % (ka, kb)
        ones = zeros = 0
        for o, q in execute(E, BN + 'decaf_equal', [a, b]):
            mk = P(uw(o, o.value))
            j, r = new_input('j', lo // p, hi // p + 1), new_input('r', 0, p - 1)
            eq = padd(D, padd(pscale(j, p), r), -1)
            zm, ze = pz3(mk), pz3(eq) == 0
            nounsat(nm + ' is a mask', [mk], o, [zm != 0, zm != M32])
            nounsat(nm + ' accepts only equal values', [mk, eq], o, [ze, pz3(r) >= 1, zm == M32])
            nounsat(nm + ' accepts all equal values', [mk, eq], o, [ze, pz3(r) == 0, zm != M32])
        return True
    return ctx.memo(('eq', ka, kb), lambda: quietly(go))


def lbspec(ctx, k):
    """low_bit is the all-ones mask exactly when the canonical representative is odd"""
    def go():
        F = Field(ctx)
        rec = []
        cs = {BN + 'strong_reduce': F.c_strong(rec)} if F.exists('strong_reduce', 'pp') else {}
        E = F.engine(cs)
        a = fresh(k, 'a')
        W = V(a, 28)
        nm = 'low_bit[%d]' % k
        for o, q in execute(E, BN + 'low_bit', [a]):
            mk = P(uw(o, o.value))
            if rec:
                # the contract's representative is the canonical one of the operand
                R = V(rec[-1][1], 28)
                h, b = divmod2(R, 1)
                j, r = new_input('j', W.iv[0] // p, W.iv[1] // p + 1), new_input('r', 0, p - 1)
                eq = padd(W, padd(pscale(j, p), r), -1)
                nounsat(nm + ' canonical representative', [eq, R], o, [pz3(eq) == 0, pz3(r) != pz3(R)])
                nounsat(nm, [mk, P(b)], o, [pz3(mk) != M32 * pz3(P(b))])
            else:
                h, b, j = new_input('h', 0, (p - 1) // 2), new_input('b', 0, 1), new_input('j', 0, W.iv[1] // p)
                r = padd(pscale(h, 2), b)
                eq = padd(W, padd(pscale(j, p), r), -1)
                nounsat(nm, [mk, eq], o, [pz3(eq) == 0, pz3(r) <= p - 1, pz3(mk) != M32 * pz3(b)])
        return True
    return ctx.memo(('lb', k), lambda: quietly(go))


def serspec(ctx, k):
    def go():
        E = Field(ctx).engine()
        a = fresh(k, 'a')
        nm = 'dsa_like_serialize[%d]' % k
        for o, q in execute(E, BN + 'dsa_like_serialize', [Out(56), a]):
            W = V(words(E, o, q[0], 56, 1), 8)
            prove_range(nm + ' < p', W, 0, p - 1, o.state)
            prove_congruent(nm + ' = value mod p', padd(W, V(a, 28), -1), p, o.state)
        return True
    return ctx.memo(('ser', k), lambda: quietly(go))


def despec(ctx, n):
    """dsa_like_deserialize of n bytes with mask 0: the integer of the first 56, flag = below p"""
    def go():
        E = Field(ctx).engine()
        bs = [new_input('b%d' % i, 0, 255) for i in range(n)]
        W = V(bs[:56], 8)
        his = [0] * 16
        for o, q in execute(E, BN + 'dsa_like_deserialize', [Out(68), Mem(bs, 1), n, 0]):
            r = words(E, o, q[0], 17)
            d = padd(V(r[:16], 28), W, -1)
            nounsat('dsa_like_deserialize value', [d], o, [pz3(d) != 0])
            mk = P(r[16])
            zm, zw = pz3(mk), pz3(W)
            nounsat('dsa_like_deserialize flag is a mask', [mk], o, [zm != 0, zm != M32])
            nounsat('dsa_like_deserialize rejects values not below p', [mk, W], o, [zm == M32, zw >= p])
            nounsat('dsa_like_deserialize accepts every value below p', [mk, W], o, [zm != M32, zw < p])
            for j in range(16):
                his[j] = max(his[j], P(r[j]).iv[1])
        return his
    return ctx.memo(('des', n), lambda: quietly(go))


ISR_E, INV_E = (p - 3) // 4, p - 2


def powspec(ctx, name, k):
    """isr(x) = x^((p-3)/4), invert(x) = x^(p-2), by tracking exponents through the real chain"""
    def go():
        F = Field(ctx)
        E = F.engine(F.contracts())
        x = F.elem(fvar('x'), k)
        want = {'isr': ISR_E, 'invert': INV_E}[name]
        his = [0] * 16
        for o, q in execute(E, BN + name, [Out(64), x]):
            r = E.words(o.state, q[0], 16)
            f, u = F.rec(r)
            same_fp('%s[%d] = x^e' % (name, k), f, FP({(('x', want),): 1}))
            for j, v in enumerate(u):
                his[j] = max(his[j], P(v).iv[1])
        return his
    return ctx.memo(('pow', name, k), lambda: quietly(go))


def linspec(ctx, name, args, want, klist, nm):
    """a limb-level function computes the given linear combination of its operands"""
    def go():
        F = Field(ctx)
        E = F.engine()
        vs = [fvar('v%d' % i) for i in range(len(klist))]
        xs = [F.elem(v, k) for v, k in zip(vs, klist)]
        for o, q in execute(E, BN + name, args(xs)):
            f, u = F.rec(E.words(o.state, q[0], 16))
            same_fp(nm, f, want(vs))
        return True
    return quietly(go)


# ---------------------------------------------------------------- candidate operands for native confirmation
def gen_limbs(k, n, rng):
    hi = khi(k)
    pl = ref.limbs28(p)
    out = [[0] * 16, [hi] * 16, [2**28 - 1] * 16, pl, ref.limbs28(p - 1), ref.limbs28(1), [min(2 * x, hi) for x in pl], [2**28] * 16]
    for i in range(16):
        v = [0] * 16
        v[i] = hi
        out.append(v)
        out.append([hi - x for x in v])
        v = ref.limbs28(p)
        v[i] = min(v[i] + 1, hi)
        out.append(v)
        v = [0] * 16
        v[i] = 1
        out.append(v)
        v = list(pl)
        v[i] -= 1
        out.append(v)
        if i < 15:
            v = list(pl)
            v[i] += 2**28
            v[i + 1] -= 1
            out.append([min(x, hi) for x in v])
            v = [0] * 16
            v[i] = 2**28
            out.append(v)
    for _ in range(n):
        c = rng.random()
        if c < 0.3:
            out.append([rng.randrange(hi + 1) for _ in range(16)])
        elif c < 0.6:
            out.append([rng.choice([0, 1, 2**28 - 1, 2**28 - 2, 2**28, hi, hi - 1, rng.randrange(hi + 1)]) for _ in range(16)])
        elif c < 0.8:
            out.append(ref.limbs28((rng.choice([0, p, 2**448 - 1, 2**224, 2**448 - 2**224]) + rng.randrange(-2**rng.randrange(1, 300), 2**rng.randrange(1, 300))) % 2**448))
        else:
            out.append(ref.limbs28(rng.randrange(p)))
    return [[min(x, hi) for x in v] for v in out]


def hx(ls):
    return pack(ls).hex()


@oracle('field')
def o_field(nat, c):
    """c: fn, ops (hex limb vectors), optional n"""
    fn = c['fn']
    xs = [bytes.fromhex(h) for h in c['ops']]
    vs = [ref.val28(unpack(x)) for x in xs]
    import ctypes
    if fn in ('decaf_equal', 'low_bit'):
        r, _ = nat.call(BN + fn, xs)
        want = (M32 if (vs[0] - vs[1]) % p == 0 else 0) if fn == 'decaf_equal' else (M32 if vs[0] % p & 1 else 0)
        return None if r == want else '%s returned %#x, expected %#x' % (fn, r, want)
    if fn == 'dsa_like_serialize':
        _, b = nat.call(BN + fn, [bytes(56), xs[0]])
        return None if b[0] == (vs[0] % p).to_bytes(56, 'little') else 'serialized to %s' % b[0].hex()
    if fn == 'dsa_like_deserialize':
        _, b = nat.call(BN + fn, [bytes(68), xs[0], len(xs[0]), 0])
        v = int.from_bytes(xs[0][:56], 'little')
        got = unpack(b[0])
        if ref.val28(got[:16]) != v:
            return 'deserialized to another value'
        want = M32 if v < p else 0
        return None if got[16] == want else 'flag %#x, expected %#x' % (got[16], want)
    extra = []
    k = c.get('n')
    if fn == 'square_n':
        extra = [k]
    elif fn in ('sub_x_bias',):
        extra = [k.to_bytes(4, 'little')]
    elif fn in ('mul_w', 'mul_with_signed_curve_constant'):
        extra = [(k % 2**64).to_bytes(8, 'little')]
    elif fn in ('conditional_negate', 'decaf_cond_negate', 'constant_time_select', 'decaf_const_time_select'):
        extra = [(M32 if k else 0).to_bytes(4, 'little')]
    if fn == 'conditional_swap':
        _, b = nat.call(BN + fn, [xs[0], xs[1], (M32 if k else 0).to_bytes(4, 'little')])
        w = (xs[1], xs[0]) if k else (xs[0], xs[1])
        return None if (b[0], b[1]) == w else 'swap gives a wrong result'
    _, b = nat.call(BN + fn, [bytes(64)] + xs + extra)
    got = ref.val28(unpack(b[0]))
    v = vs
    want = {'mul': lambda: v[0] * v[1], 'square': lambda: v[0] ** 2, 'add': lambda: v[0] + v[1], 'add_raw': lambda: v[0] + v[1],
            'sub': lambda: v[0] - v[1], 'sub_x_bias': lambda: v[0] - v[1], 'neg': lambda: -v[0], 'weak_reduce': lambda: v[0],
            'strong_reduce': lambda: v[0], 'isr': lambda: pow(v[0], ISR_E, p), 'invert': lambda: pow(v[0], INV_E, p),
            'square_n': lambda: pow(v[0], 2**k, p), 'mul_w': lambda: v[0] * k, 'mul_with_signed_curve_constant': lambda: v[0] * k,
            'conditional_negate': lambda: -v[0] if k else v[0], 'decaf_cond_negate': lambda: -v[0] if k else v[0],
            'constant_time_select': lambda: v[0] if k else v[1], 'decaf_const_time_select': lambda: v[1] if k else v[0]}[fn]()
    if (got - want) % p:
        return '%s gives %d mod p instead of %d' % (fn, got % p, want % p)
    if fn == 'strong_reduce' and got >= p:
        return 'strong_reduce result is not below p'
    return None


def cases(fn, ks, n=1200, ns=(None,)):
    def g(ctx, exc):
        if not any(ir.demangle(f) == BN + fn for f in ctx.m.funcs):
            return
        rng = random.Random(7)
        cols = [gen_limbs(k, n, rng) for k in ks]
        m = [c for c in model_cases(exc, len(ks))]
        rows = m + list(zip(*cols))
        if len(ks) == 2:
            # operands related to each other: equal mod p, differing in one limb
            for a in cols[0][:80]:
                rows.append((a, a))
                for i in range(16):
                    b = list(a)
                    b[i] ^= 1
                    rows.append((a, b))
            for a in gen_limbs(ks[0], 40, rng):
                rows.append((a, [rng.choice([x, x]) for x in ref.limbs28(ref.val28(a) % p)]))
                for b in cols[1][:40]:
                    rows.append((a, b))
        for r in rows:
            for k in ns:
                yield {'fn': fn, 'ops': [hx(x) for x in r], 'n': k}
    return ('field', g)


def model_cases(exc, n):
    """operands from the solver's model, if the refuted query had one"""
    m = getattr(exc, 'probe', None)
    if not isinstance(m, z3.ModelRef):
        return
    val = {d.name(): m[d] for d in m.decls()}
    xs = []
    for c in 'ab'[:n]:
        l = [0] * 16
        for nm, v in val.items():
            b = nm.split('#')[0]
            if b[:1] == c and b[1:].isdigit() and int(b[1:]) < 16 and z3.is_int_value(v):
                l[int(b[1:])] = v.as_long() % 2**32
        xs.append(l)
    yield tuple(xs)


def optional(fn):
    """a component that no longer exists separately is judged through its callers"""
    def f(ctx):
        try:
            fn(ctx)
        except Absent as e:
            LOG.bounds.append('no separate function %s: judged through its callers' % e)
    return f


def tasks_arith(ctx):
    """P09"""
    T = []

    def mul(fname, ka, kb):
        return Task('%s limbs %d,%d' % (fname, ka, kb), optional(lambda c: Field(c).mulspec(fname, ka, kb)),
                    [cases(fname, [ka, kb] if kb else [ka], 2500)], bounds='limbs <= %d*(2^28+2^12) and %d*(2^28+2^12)' % (ka, kb or ka))
    for ka, kb in ((1, 1), (1, 2), (2, 1), (2, 2)):
        T.append(mul('mul', ka, kb))
    for ka in (1, 2):
        T.append(mul('square', ka, 0))
    lin = [('add', lambda x: [Out(64)] + x, lambda v: v[0] + v[1], [(1, 1), (2, 2), (4, 4)], None),
           ('add_raw', lambda x: [Out(64)] + x, lambda v: v[0] + v[1], [(1, 1), (2, 2)], None),
           ('sub', lambda x: [Out(64)] + x, lambda v: v[0] - v[1], [(1, 1), (2, 1), (3, 1)], None),
           ('neg', lambda x: [Out(64)] + x, lambda v: v[0].scale(-1), [(1,)], None),
           ('weak_reduce', lambda x: [Out(64)] + x, lambda v: v[0], [(1,), (2,), (4,), (8,)], None)]
    for b in (2, 3, 4):
        lin.append(('sub_x_bias', lambda x, b=b: [Out(64)] + x + [[b]], lambda v: v[0] - v[1], [(1, b - 1), (2, b - 1)], b))
    for w in (1, 39081, 39082, 78164, 2**28 + 5, 2**31 + 12345):
        lin.append(('mul_w', lambda x, w=w: [Out(64)] + x + [Mem([w], 8)], lambda v, w=w: v[0].scale(w), [(1,)], w))
    for c in (-39081, -78164, 39082, 1, 0):
        lin.append(('mul_with_signed_curve_constant', lambda x, c=c: [Out(64)] + x + [Mem([c % 2**64], 8)], lambda v, c=c: v[0].scale(c), [(1,)], c))
    for s in (0, 1):
        mk = M32 * s
        lin.append(('conditional_negate', lambda x, mk=mk: [Out(64)] + x + [[mk]], lambda v, s=s: v[0].scale(-1 if s else 1), [(1,)], s))
        lin.append(('decaf_cond_negate', lambda x, mk=mk: [Out(64)] + x + [[mk]], lambda v, s=s: v[0].scale(-1 if s else 1), [(1,)], s))
        lin.append(('constant_time_select', lambda x, mk=mk: [Out(64)] + x + [[mk]], lambda v, s=s: v[0] if s else v[1], [(1, 1)], s))
        lin.append(('decaf_const_time_select', lambda x, mk=mk: [Out(64)] + x + [[mk]], lambda v, s=s: v[1] if s else v[0], [(1, 1)], s))
    for name, args, want, kls, par in lin:
        for ks in kls:
            nm = '%s%s limbs %s' % (name, '' if par is None else '(%d)' % par, ','.join(map(str, ks)))
            T.append(Task(nm, optional(lambda c, a=(name, args, want, ks, nm): linspec(c, *a)), [cases(name, ks, 800, (par,))],
                          bounds='limbs <= k*(2^28+2^12), k=%s' % (ks,)))

    def swap(s):
        def go(c):
            F = Field(c)
            E = F.engine()
            a, b = F.elem(fvar('a')), F.elem(fvar('b'))
            for o, q in execute(E, BN + 'conditional_swap', [a, b, [M32 * s]]):
                for i, w in ((0, b if s else a), (1, a if s else b)):
                    f, u = F.rec(E.words(o.state, q[i], 16))
                    same_fp('conditional_swap(%d)' % s, f, fvar('b' if (i == 0) == bool(s) else 'a'))
        return Task('conditional_swap(%d)' % s, optional(go), [cases('conditional_swap', (1, 1), 200, (s,))])
    T += [swap(0), swap(1)]
    for n in (1, 2, 3, 4, 5, 9, 18, 37):
        def sq(c, n=n):
            F = Field(c)
            E = F.engine(F.contracts())
            for o, q in execute(E, BN + 'square_n', [Out(64), F.elem(fvar('x')), n]):
                f, u = F.rec(E.words(o.state, q[0], 16))
                same_fp('square_n(%d)' % n, f, FP({(('x', 2**n),): 1}))
        T.append(Task('square_n(%d)' % n, optional(sq), [cases('square_n', (1,), 200, (n,))]))
    if ctx.thorough:
        for ka in range(1, 5):
            for kb in range(1, 5):
                if ka + kb > 4 and (ka, kb) != (3, 2):
                    continue
                if (ka, kb) not in ((1, 1), (1, 2), (2, 1), (2, 2)):
                    T.append(mul('mul', ka, kb))
        T.append(mul('square', 3, 0))
    return T


def tasks_canon(ctx):
    """P10"""
    T = []
    ks = (1, 2, 4, 8) if not ctx.thorough else (1, 2, 3, 4, 6, 8, 12)
    for k in ks:
        T.append(Task('strong_reduce limbs %d' % k, optional(lambda c, k=k: Field(c).srspec(k)), [cases('strong_reduce', (k,), 3000)],
                      bounds='limbs <= %d*(2^28+2^12)' % k))
    for ka, kb in ((1, 1),) if not ctx.thorough else ((1, 1), (2, 1), (3, 1)):
        T.append(Task('decaf_equal limbs %d,%d' % (ka, kb), optional(lambda c, a=(ka, kb): eqspec(c, *a)), [cases('decaf_equal', (ka, kb), 2000)]))
    for k in (1, 2):
        T.append(Task('low_bit limbs %d' % k, optional(lambda c, k=k: lbspec(c, k)), [cases('low_bit', (k,), 3000)]))
        T.append(Task('serialize limbs %d' % k, optional(lambda c, k=k: serspec(c, k)), [cases('dsa_like_serialize', (k,), 3000)]))

    def des_cases(ctx, exc):
        rng = random.Random(5)
        vals = [0, 1, p - 1, p, p + 1, 2**448 - 1, 2**224, 2**448 - 2**224, 2**448 - 2**224 - 2] + [rng.randrange(2**448) for _ in range(300)]
        vals += [(p + rng.choice([1, -1]) * (1 << rng.randrange(448))) % 2**448 for _ in range(600)]
        vals += [p + (rng.getrandbits(rng.randrange(1, 224))) for _ in range(300)] + [p - (rng.getrandbits(rng.randrange(1, 440))) for _ in range(300)]
        for v in vals:
            v %= 2**448
            yield {'fn': 'dsa_like_deserialize', 'ops': [(v.to_bytes(56, 'little') + b'\0').hex()]}
    T.append(Task('deserialize', optional(lambda c: despec(c, 57)), [('field', des_cases)], bounds='all 56-byte strings'))
    return T


def tasks_pow(ctx):
    """P11"""
    return [Task('%s exponent' % n, optional(lambda c, n=n: powspec(c, n, 1)), [cases(n, (1,), 300)], bounds='operand limbs <= 2^28+2^12')
            for n in ('isr', 'invert')]

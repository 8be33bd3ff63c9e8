"""Scalar multiplications, executed on symbolic scalar bits over verified point operations."""
from points import *
import points

PSM = EP + 'precomputed_scalar_mul'
VSM = TE + 'point_scalar_mul'
DSM = TE + 'point_double_scalamul_non_secret'
G = None


def gbase():
    """the library's base point, modulo the 2-torsion point (0,-1) that encoding and comparison ignore"""
    global G
    if G is None:
        G = ref.phi(ref.B)
    return G


def half_key(x, y):
    """a name for the point (x,y) up to (x,y) -> (-x,-y)"""
    m = min((x % p, y % p), (-x % p, -y % p))
    return m


_dict = {}


def multiples():
    """known multiples of the base point: comb entries, odd window entries, small ones"""
    if not _dict:
        g = gbase()
        ks = set(range(0, 65))
        for j in range(5):
            for t in range(16):
                v = 1 << (18 * (4 + 5 * j))
                for k in range(4):
                    v += (1 if t >> k & 1 else -1) << (18 * (k + 5 * j))
                ks.add(v % q)
        ext = {}
        for k in ks:
            P_ = ref.tmul(k, g)
            _dict[half_key(*P_)] = k
            _dict[half_key(*ref.tneg(P_))] = -k % q
    return _dict


class BitScalars(scal.Scalars):
    """scalar results as words of single bits"""

    def __init__(self, ctx):
        scal.Scalars.__init__(self, ctx)
        self.byatom = {}
        self.toks = []

    def new(self, f, known=None):
        if not f.d or (len(f.d) == 1 and () in f.d):
            return ref.limbs32(f.d.get((), 0))
        i = len(self.toks)
        ats = [A.new('n%d_%d_' % (i, k), 0, 1, None, ('bit', i, k)) for k in range(446)]
        e = [2 + 2 * a for a in ats] + [0, 0]
        for k, v in (known or {}).items():
            e[k] = v
        ws = [mkbits(e[32 * j:32 * j + 32]) for j in range(14)]
        self.toks.append((f, ws, e))
        for a in ats:
            self.byatom[a] = i
        return ws

    def token(self, ws):
        for w in ws:
            if isinstance(w, Bits):
                for e in w.b:
                    if e > 1:
                        i = self.byatom.get((e >> 1) - 1)
                        if i is not None and all(same_word(a, b) for a, b in zip(self.toks[i][1], ws)):
                            return i
                        return None
        return None

    def canonical(self, ws):
        if all(isinstance(w, int) for w in ws):
            return ref.val32(ws) < q
        return self.token(ws) is not None

    def rec(self, ws):
        if all(isinstance(w, int) for w in ws):
            return SPc(ref.val32(ws))
        i = self.token(ws)
        if i is None:
            raise Inconclusive('a scalar that is neither known nor symbolic as a whole')
        return self.toks[i][0]


def SPc(v):
    return scal.SP.const(v)


def same_word(a, b):
    if isinstance(a, int) or isinstance(b, int):
        return a is b or (isinstance(a, int) and isinstance(b, int) and a == b)
    return a.b == b.b


class Group:
    """points in memory as tokens; values are {basis: polynomial over scalar bits modulo q}"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.F = Field(ctx)
        self.S = BitScalars(ctx)
        self.vals = {}
        self.n = 0
        self.used = set()
        self.whole = True        # execute operations on wholly concrete points as they are
        self.bytok = {}          # id of a token's first word -> (token, its words, t is valid)
        self.consts = {}         # values of points in constant memory
        self.done = {}           # results of operations on tokens: an operation is a function of its operands

    # -- values
    @staticmethod
    def vadd(a, b, s=1):
        r = dict(a)
        for k, f in b.items():
            g = padd(r[k], f, s) if k in r else pscale(f, s)
            r[k] = Poly({m: c % q for m, c in g.d.items() if c % q})
        return {k: f for k, f in r.items() if f.d}

    def fresh(self, kind, val, scale=None):
        n = self.n
        self.n += 1
        self.vals[n] = (kind, val, n if scale is None else scale)
        cs = {'e': 'XYZT', 'n': 'abc', 'pn': 'abcz'}[kind]
        return n, [self.F.elem(fvar('%s%d' % (c, n))) for c in cs]

    def put(self, E, st, ptr, kind, val, tvalid=True, scale=None):
        n, cs = self.fresh(kind, val, scale)
        if kind == 'e' and not tvalid:
            cs[3] = self.F.elem(fvar('J%d' % n))
        ws = [w for c in cs for w in c]
        if scale is None:
            self.bytok[id(ws[0])] = (n, ws, tvalid)
        E.put_words(st, ptr, ws)
        return ws

    def point(self, val):
        n, cs = self.fresh('e', val)
        ws = [w for c in cs for w in c]
        self.bytok[id(ws[0])] = (n, ws, True)
        return cs

    def token(self, E, st, ptr, nw):
        """(id, words, t is valid) if the memory holds exactly the words of one token"""
        if not isinstance(ptr, Ptr) or not isinstance(ptr.off, int):
            return None
        c, o = E.obj(st, ptr.o).cells, ptr.off
        e = c.get(o)
        k = self.bytok.get(id(e[1])) if e is not None else None
        if k is None or len(k[1]) != nw:
            return None
        for w in k[1]:
            e = c.get(o)
            if e is None or e[1] is not w or e[0] != 4:
                return None
            o += 4
        return k

    def rows(self, E, st, ptr, nw):
        """(support, list of plain word lists)"""
        ws = E.words(st, ptr, nw)
        ws = [bit_arg(w) for w in ws]
        sup = set()
        for w in ws:
            if isinstance(w, BT):
                sup.update(w.s)
            elif isinstance(w, Mux) or w is UNDEF:
                raise Inconclusive('unexpected word in a point')
        sup = sorted(sup)
        if len(sup) > dom.BTMAX:
            raise Inconclusive('a point depends on too many scalar bits at once')
        cols = [bt_expand(w, sup) for w in ws]
        return sup, list(zip(*cols))

    def coord(self, ws):
        """(letter, id, sign) or an int"""
        ws = list(ws)
        if all(isinstance(w, int) for w in ws):
            return ref.val28(ws) % p
        f, _ = self.F.rec(ws)
        if len(f.d) == 1:
            (m, c), = f.d.items()
            if len(m) == 1 and m[0][1] == 1 and c in (1, p - 1):
                v = m[0][0]
                return v[0], int(v[1:]), 1 if c == 1 else -1
        raise Inconclusive('a coordinate that is not one of a known point')

    def one(self, kind, row, need_t):
        """value and scale of one concrete-or-token row"""
        nc = {'e': 4, 'n': 3, 'pn': 4}[kind]
        cs = [self.coord(row[16 * i:16 * i + 16]) if (kind != 'e' or i < 3 or need_t) else None for i in range(nc)]
        if all(isinstance(c, int) for c in cs if c is not None):
            return self.known(kind, cs), None
        if kind == 'e':
            x, y, z, t = cs
            if isinstance(x, int) or isinstance(y, int) or isinstance(z, int) or isinstance(t, int):
                raise Inconclusive('a partly concrete point')
            n = y[1]
            kd, val, sc = self.vals[n]
            if kd != 'e' or [c[0] for c in (x, y, z)] != ['X', 'Y', 'Z'] or x[1] != n or z[1] != n or y[2] != 1 or z[2] != 1:
                raise Inconclusive('coordinates of different points')
            if need_t:
                if t[0] == 'J':
                    raise Failed('point operation', 'the auxiliary coordinate t is used although it was not computed')
                if t != ('T', n, x[2]):
                    raise Failed('point operation', 'the auxiliary coordinate t belongs to another point')
            return (val if x[2] == 1 else self.vadd({}, val, -1)), None
        if any(isinstance(c, int) for c in cs):
            raise Inconclusive('a partly concrete Niels point')
        a, b, c = cs[:3]
        n = c[1]
        kd, val, sc = self.vals[n]
        if kd not in ('n', 'pn') or (a[1], b[1]) != (n, n) or a[2] != 1 or b[2] != 1 or c[0] != 'c':
            raise Inconclusive('Niels coordinates of different points')
        if (a[0], b[0], c[2]) == ('a', 'b', 1):
            v = val
        elif (a[0], b[0], c[2]) == ('b', 'a', -1):
            v = self.vadd({}, val, -1)
        else:
            raise Failed('point operation', 'a Niels point is negated only in part')
        if kind == 'pn':
            z = cs[3]
            if z[0] != 'z' or z[2] != 1:
                raise Inconclusive('not a projective scale')
            return v, (sc, z[1])
        return v, (sc, None)

    def known(self, kind, cs):
        if kind == 'e':
            x, y, z = cs[:3]
            if z == 0:
                raise Failed('point operation', 'a point with z = 0')
            zi = ref.inv(z)
            x, y = x * zi % p, y * zi % p
            if cs[3] is not None and (cs[3] * zi - x * y) % p:
                raise Failed('point operation', 'a constant with a wrong t coordinate')
        else:
            lam = HALF if kind == 'n' else cs[3] * HALF % p
            if lam == 0:
                raise Failed('point operation', 'a constant with z = 0')
            li = ref.inv(2 * lam % p)
            y, x = (cs[1] + cs[0]) * li % p, (cs[1] - cs[0]) * li % p
            if (cs[2] - 2 * dt * lam * x * y) % p:
                raise Failed('table', 'a table entry whose third coordinate does not match the other two')
        if (y * y - x * x - 1 - dt * x * x * y * y) % p:
            raise Failed('table', 'a table entry that is not on the curve')
        k = multiples().get(half_key(x, y))
        if k is None:
            if (x, y) in ((0, 1), (0, p - 1)):
                return {}
            raise Failed('table', 'a table entry that is not one of the expected multiples of the base point')
        return {'G': pconst(k)} if k else {}

    def read(self, E, st, ptr, kind, need_t=True):
        nw = 64 if kind != 'n' else 48
        k = self.token(E, st, ptr, nw)
        if k and self.vals[k[0]][0] == kind and (k[2] or not need_t):
            _, val, sc = self.vals[k[0]]
            return val, (None if kind == 'e' else sc)
        if isinstance(ptr, Ptr) and isinstance(ptr.o, int) and ptr.o < 0 and isinstance(ptr.off, int):
            key = (ptr.o, ptr.off, kind, need_t)
            if key not in self.consts:
                self.consts[key] = self.read1(E, st, ptr, kind, need_t)
            return self.consts[key]
        return self.read1(E, st, ptr, kind, need_t)

    def again(self, E, st, key, ptrs, sizes, kind, nd, val, tvalid):
        """write the result of an operation: the same words again if it was applied to the same operands before"""
        ks = []
        for a, n in zip(ptrs, sizes):
            k = self.token(E, st, a, n)
            if k:
                ks.append(k[0])
            elif isinstance(a, Ptr) and isinstance(a.o, int) and a.o < 0 and isinstance(a.off, int):
                ks.append((a.o, a.off))
            else:
                ks = None
                break
        if ks is not None:
            ks = (key, tuple(ks))
            ws = self.done.get(ks)
            if ws is not None:
                E.put_words(st, nd, ws)
                return
        ws = self.put(E, st, nd, kind, val(), tvalid)
        if ks is not None:
            self.done[ks] = ws

    def read1(self, E, st, ptr, kind, need_t=True):
        sup, rows = self.rows(E, st, ptr, 64 if kind != 'n' else 48)
        memo, res = {}, []
        for r in rows:
            k = tuple(x if isinstance(x, int) else id(x) for x in r)
            if k not in memo:
                memo[k] = self.one(kind, r, need_t)
            res.append(memo[k])
        if kind == 'pn':
            for i, (v, sc) in enumerate(res):
                if sc is not None:
                    s, z = sc
                    if isinstance(s, tuple):      # scale given over its own support
                        s = self.at(s, sup, i)
                    if s != z:
                        raise Failed('point operation', 'Niels coordinates combined with the scale of another point')
        if not sup:
            v, sc = res[0]
            return v, (None if sc is None else sc[0])
        # combine
        tot = {}
        n = len(sup)
        for i, (v, _) in enumerate(res):
            if not v:
                continue
            ind = bt_poly(BT(tuple(sup), [int(j == i) for j in range(1 << n)]), q)
            for b, f in v.items():
                g = pmul(ind, f)
                g = Poly(idem(g.d))
                tot = self.vadd(tot, {b: g})
        scs = [None if sc is None else sc[0] for _, sc in res]
        return tot, ('bt', tuple(sup), tuple(scs))

    @staticmethod
    def at(s, sup, i):
        _, ss, vs = s
        j = 0
        for k, a in enumerate(ss):
            if a not in sup:
                # the scale depends on a bit the coordinates do not: only fine if irrelevant
                lo = [v for t, v in enumerate(vs) if not t >> k & 1]
                hi = [v for t, v in enumerate(vs) if t >> k & 1]
                if lo != hi:
                    raise Inconclusive('scale of a table entry')
                continue
            j |= ((i >> sup.index(a)) & 1) << k
        v = vs[j]
        return Group.at(v, sup, i) if isinstance(v, tuple) else v

    # -- contracts
    def flag(self, E, st, f):
        if isinstance(f, int):
            return f & 1
        d = E.decide(st, to_bool(f))
        if d is None:
            c = to_bool(f)
            raise Fork([(c, {}, None), (z3.Not(c), {}, None)])
        return d

    def use(self, op, flag=0):
        if (op, flag) not in self.used:
            self.used.add((op, flag))
            pspec(self.ctx, op, flag)

    def c_double(self, E, st, a, fn):
        fl = self.flag(E, st, a[1])
        if self.concrete(E, st, a[0], 64):
            return NotImplemented
        v, _ = self.read(E, st, a[0], 'e', False)
        self.use('double', fl)
        self.again(E, st, ('double', fl), a[:1], [64], 'e', a[0], lambda: self.vadd(v, v), not fl)

    def concrete(self, E, st, ptr, n):
        """a wholly concrete point that is none of the known multiples (such operations are executed as they are)"""
        if not self.whole or self.token(E, st, ptr, n):
            return False
        return all(isinstance(w, int) for w in E.words(st, ptr, n))

    def c_arith(self, op, kind, s):
        def f(E, st, a, fn):
            fl = self.flag(E, st, a[2])
            if self.concrete(E, st, a[0], 64) and self.concrete(E, st, a[1], 48 if kind == 'n' else 64):
                return NotImplemented
            v, _ = self.read(E, st, a[0], 'e')
            w, _ = self.read(E, st, a[1], kind)
            self.use(op, fl)
            self.again(E, st, (op, fl), a[:2], [64, 48 if kind == 'n' else 64], 'e', a[0], lambda: self.vadd(v, w, s), not fl)
        return f

    def c_to_pn(self, E, st, a, fn):
        if self.concrete(E, st, a[1], 64):
            return NotImplemented
        v, _ = self.read(E, st, a[1], 'e')
        self.use('to_pn')
        self.again(E, st, ('to_pn',), [a[1]], [64], 'pn', a[0], lambda: v, True)

    def c_to_ext(self, op, kind):
        def f(E, st, a, fn):
            if self.concrete(E, st, a[1], 48 if kind == 'n' else 64):
                return NotImplemented
            v, _ = self.read(E, st, a[1], kind)
            self.use(op)
            self.put(E, st, a[0], 'e', v)
        return f

    def c_cneg(self, E, st, a, fn):
        m = bit_arg(E.load(st, a[1], 4))
        if isinstance(m, int) and self.concrete(E, st, a[0], 48):
            return NotImplemented
        if not isinstance(m, (int, BT)):
            return NotImplemented
        for x in ([m] if isinstance(m, int) else m.v):
            if x not in (0, M32):
                raise Failed('conditional_negate', 'called with a mask that is neither 0 nor all ones')
        v, sc = self.read(E, st, a[0], 'n')
        self.use('cneg', 0)
        self.use('cneg', 1)
        sg = bt_poly(bt_map(lambda x: 1 if x == 0 else -1, m), q)
        out = {b: Poly(idem(pmul(sg, f).d)) for b, f in v.items()}
        self.put(E, st, a[0], 'n', self.vadd({}, out), scale=sc)

    def contracts(self, scalars=('add', 'halve', 'sub', 'mul', 'montgomery_multiply')):
        c = {}
        for op, f in (('double', self.c_double), ('add_n', self.c_arith('add_n', 'n', 1)), ('sub_n', self.c_arith('sub_n', 'n', -1)),
                      ('add_pn', self.c_arith('add_pn', 'pn', 1)), ('sub_pn', self.c_arith('sub_pn', 'pn', -1)), ('to_pn', self.c_to_pn),
                      ('pn_ext', self.c_to_ext('pn_ext', 'pn')), ('n_ext', self.c_to_ext('n_ext', 'n')), ('cneg', self.c_cneg)):
            path, sh = SHAPES[op]
            if has(self.ctx.m, path, sh):
                c[path] = f
        c.update(self.S.contracts(*scalars))
        return c

    def target(self, sp):
        """the scalar variable s as a polynomial over the bits of a token whose value is alpha*s + beta"""


def idem(d):
    """bits are 0/1: b^2 = b"""
    r = {}
    for m, c in d.items():
        k = tuple(sorted(set(m)))
        v = (r.get(k, 0) + c) % q
        if v:
            r[k] = v
        else:
            r.pop(k, None)
    return r


def scalar_of(S, var):
    """the variable as a polynomial over token bits, from a token that is affine in it"""
    out = []
    for f, ws, e in S.toks:
        al = f.d.get(((var, 1),), 0)
        if al and set(f.d) <= {((var, 1),), ()}:
            ai = pow(al, -1, q)
            pol = {}
            be = -f.d.get((), 0) * ai % q
            if be:
                pol[()] = be
            for k, x in enumerate(e):
                c = ai * (1 << k) % q
                if x == 1:
                    pol[()] = (pol.get((), 0) + c) % q
                elif x > 1:
                    pol[((x >> 1) - 1,)] = c
            out.append(Poly(pol))
    return out


def check_value(gr, name, val, want, o):
    """val and want agree as {basis: polynomial over bits} modulo q, on this path"""
    for b in set(val) | set(want):
        d = padd(val.get(b, pconst(0)), want.get(b, pconst(0)), -1)
        fx = {k[1]: v for k, v in o.state.facts.items() if isinstance(k, tuple) and k and k[0] == 'bit'}
        if fx:
            nd = {}
            for m, c in d.d.items():
                if any(fx.get(a) == 0 for a in m):
                    continue
                m = tuple(a for a in m if a not in fx)
                nd[m] = nd.get(m, 0) + c
            d = Poly({m: c for m, c in nd.items() if c})
        prove_congruent('%s (%s part)' % (name, b), d, q)


def fixspec(ctx, known=None):
    """fixed-base multiplication: s*G for every s below q"""
    def go():
        gr = Group(ctx)
        E = Engine(ctx.m, gr.contracts())
        s = gr.S.new(scal.SP.var('s'), known)
        for o, ptr in execute(E, PSM, [Out(256), s]):
            CTX.facts = o.state.facts
            v, _ = gr.read(E, o.state, ptr[0], 'e', False)
            tgt = scalar_of(gr.S, 's')
            check(gr, 'fixed-base multiplication', v, tgt, 'G', o)
        return True
    return ctx.memo(('fix', repr(known)), lambda: quietly(go))


def check(gr, name, v, tgt, basis, o):
    """one of the tokens tells s; they all denote the same scalar"""
    err = None
    used = {a for f in v.values() for m in f.d for a in m}
    for t in tgt:
        ats = {a for m in t.d for a in m}
        if used <= ats or not used:
            try:
                check_value(gr, name, v, {basis: t}, o)
                return
            except Failed as e:
                err = e
    raise err or Inconclusive(name + ': the result mixes representations of the scalar')


def varspec(ctx):
    """variable-base multiplication: s*P"""
    def go():
        gr = Group(ctx)
        E = Engine(ctx.m, gr.contracts())
        s = gr.S.new(scal.SP.var('s'))
        cs = gr.point({'P': pconst(1)})
        for o, ptr in execute(E, VSM, [Out(256), flat(cs), s]):
            CTX.facts = o.state.facts
            v, _ = gr.read(E, o.state, ptr[0], 'e')
            check(gr, 'variable-base multiplication', v, scalar_of(gr.S, 's'), 'P', o)
        return True
    return ctx.memo(('var',), lambda: quietly(go))


def window(bg, lo, n):
    """scalar words: background value with n symbolic bits from position lo; (words, polynomial of the value)"""
    ats = [A.new('w%d_' % (lo + k), 0, 1, None, None) for k in range(n)]
    e = [bg >> k & 1 for k in range(448)]
    pol = {(): 0}
    for k, a in enumerate(ats):
        e[lo + k] = 2 + 2 * a
    for k, x in enumerate(e):
        if x == 1:
            pol[()] += 1 << k
        elif x > 1:
            pol[((x >> 1) - 1,)] = 1 << k
    pol = {m: c for m, c in pol.items() if c}
    return [mkbits(e[32 * j:32 * j + 32]) for j in range(14)], Poly(pol)


def dblspec(ctx, sb, sw, tb, tw):
    """double-scalar multiplication: s*G + t*P; s and t are backgrounds with windows of symbolic bits"""
    def go():
        gr = Group(ctx)
        gr.whole = False
        E = Engine(ctx.m, gr.contracts())
        s, sp = window(sb, *sw)
        t, tp = window(tb, *tw)
        cs = gr.point({'P': pconst(1)})
        for o, ptr in execute(E, DSM, [Out(256), flat(cs), s, t]):
            CTX.facts = o.state.facts
            v, _ = gr.read(E, o.state, ptr[0], 'e', False)
            check_value(gr, 'double-scalar multiplication', v, {'G': sp, 'P': tp}, o)
        return True
    return ctx.memo(('dbl', sb, sw, tb, tw), lambda: quietly(go))


# ---------------------------------------------------------------- native oracle
@oracle('smul')
def o_smul(nat, c):
    g = gbase()
    s = c['s']
    if c['fn'] == 'fixed':
        _, b = nat.call(PSM, [bytes(256), s.to_bytes(56, 'little')])
        want = ref.tmul(s, g)
    else:
        x, y = ref.tmul(c['k'], g)
        z = c['z'] % p or 1
        e = ser_ext(x * z, y * z, z, x * y * z)
        if c['fn'] == 'var':
            _, b = nat.call(VSM, [bytes(256), e, s.to_bytes(56, 'little')])
            want = ref.tmul(s, (x, y))
        else:
            _, b = nat.call(DSM, [bytes(256), e, s.to_bytes(56, 'little'), c['t'].to_bytes(56, 'little')])
            want = ref.tadd(ref.tmul(s, g), ref.tmul(c['t'], (x, y)))
    X, Y, Z, T = rd_ext(b[0])
    if Z == 0:
        return 'the result has z = 0'
    zi = ref.inv(Z)
    if half_key(X * zi, Y * zi) != half_key(*want):
        return '%s multiplication gives a wrong point' % c['fn']
    return None


def sm_scalars(rng, n):
    ss = [0, 1, 2, 3, q - 1, q - 2, (q + 1) // 2, (q - 1) // 2, 2**445, 2**446 - 2**400]
    ss += [1 << i for i in range(0, 446, 7)] + [(1 << i) - 1 for i in range(5, 446, 31)]
    for _ in range(n):
        ss.append(rng.randrange(q))
    return [s % q for s in ss]


def fix_cases(ctx, exc):
    rng = random.Random(21)
    for s in sm_scalars(rng, 200):
        yield {'fn': 'fixed', 's': s}
    # every comb entry: choose the bits of (s+adj)/2
    for i in range(18):
        for j in range(5):
            for t in range(32):
                if rng.random() < 0.25:
                    N = rng.getrandbits(446)
                    for k in range(5):
                        bit = i + 18 * (k + 5 * j)
                        N = (N & ~(1 << bit)) | ((t >> k & 1) << bit)
                    s = (2 * N - (2**450 - 1)) % q
                    yield {'fn': 'fixed', 's': s}


def var_cases(ctx, exc):
    rng = random.Random(22)
    for s in sm_scalars(rng, 60):
        yield {'fn': 'var', 's': s, 'k': rng.choice([0, 1, 4, q - 1, rng.randrange(q), rng.randrange(q)]), 'z': rng.choice([1, rng.randrange(1, p)])}
    for i in range(0, 446, 5):
        for t in range(32):
            if rng.random() < 0.3:
                N = rng.getrandbits(446)
                N = (N & ~(31 << i)) | (t << i)
                yield {'fn': 'var', 's': (2 * N - (2**450 - 1)) % q, 'k': rng.randrange(q), 'z': rng.randrange(1, p)}


def tasks_fixed(ctx):
    return [Task('fixed-base multiplication', optional(fixspec), [('smul', fix_cases)], bounds='all scalars below the group order')]


def tasks_var(ctx):
    return [Task('variable-base multiplication', optional(varspec), [('smul', var_cases)],
                 bounds='all scalars below the group order, every point of the group in every representation')]


DENSE = sum(1 << i for i in range(0, 446, 5))
ONES = 2**446 - 2**400 - 1


def dbl_windows(tier):
    """(background of s, window of s, background of t, window of t)"""
    def cut(bg, lo):
        return bg & ((1 << (lo + 30)) - 1)
    out = [(0, (0, 8), 0, (0, 6)), (0, (0, 4), 0, (0, 9)), (1, (438, 8), 1, (441, 5)), (0, (0, 0), 0, (0, 10)), (0, (0, 10), 0, (0, 0))]
    if tier == 'quick':
        ws = [0, 9] + list(range(22, 430, 16)) + [436]
    else:
        ws = list(range(0, 437, 6)) + [436]
    z = (0, 0)
    for k, lo in enumerate(ws):
        full = tier != 'quick' or k % 2 == 0 or lo > 400
        out.append((DENSE if full else cut(DENSE, lo), (lo, 10), cut(DENSE >> 2, 40 + 5 * (k % 3)), z))
        out.append((cut(DENSE >> 1, 40 + 7 * (k % 3)), z, DENSE >> 1 if full else cut(DENSE, lo), (lo, 10)))
    for lo in (27, 123, 219, 315) if tier == 'quick' else range(11, 430, 32):
        out.append((ONES, (lo, 10), 3, z))
        out.append((3, z, ONES, (lo, 10)))
        out.append((cut(ONES, lo), (lo, 6), cut(ONES, lo), (lo + 1, 3)))
    if tier != 'quick':
        for k, lo in enumerate(range(3, 436, 9)):
            rng = random.Random(lo)
            out.append((rng.randrange(q), (lo, 6), rng.randrange(q), (lo + rng.randrange(4), 4)))
            out.append((rng.randrange(q), (lo, 10), rng.randrange(q), z))
            out.append((rng.randrange(q), z, rng.randrange(q), (lo, 10)))
    return [(a % 2**446, w, b % 2**446, v) for a, w, b, v in out]


def dbl_cases(ctx, exc):
    rng = random.Random(23)
    for a in sm_scalars(rng, 10)[:40]:
        yield {'fn': 'double', 's': a, 't': rng.choice([0, 1, 5, a, rng.randrange(q)]), 'k': rng.randrange(1, q), 'z': rng.randrange(1, p)}
    for s in range(64):
        yield {'fn': 'double', 's': s, 't': rng.randrange(64), 'k': rng.randrange(1, q), 'z': 1}
        yield {'fn': 'double', 's': s, 't': 0, 'k': rng.randrange(1, q), 'z': 1}
        yield {'fn': 'double', 's': 0, 't': s, 'k': rng.randrange(1, q), 'z': 1}
    ws = dbl_windows('quick')
    for n in range(1500):
        sb, (sl, sn), tb, (tl, tn) = ws[n % len(ws)]
        s = (sb & ~(((1 << sn) - 1) << sl)) | (rng.getrandbits(sn) if sn else 0) << sl
        t = (tb & ~(((1 << tn) - 1) << tl)) | (rng.getrandbits(tn) if tn else 0) << tl
        if s < q and t < q:
            yield {'fn': 'double', 's': s, 't': t, 'k': rng.randrange(1, q), 'z': 1}


def tasks_dbl(ctx):
    T = []
    for w in dbl_windows(ctx.tier):
        sb, (sl, sn), tb, (tl, tn) = w
        nm = 'double-scalar multiplication s=%s t=%s' % (wname(sb, sl, sn), wname(tb, tl, tn))
        T.append(Task(nm, optional(lambda c, w=w: dblspec(c, *w)), [('smul', dbl_cases)], bounds='symbolic bits of s: %d from %d, of t: %d from %d; the other bits as named; every point' % (sn, sl, tn, tl)))
    return T


def wname(b, lo, n):
    return ('%x' % b if b < 2**64 else '%x~%d' % (b >> (b.bit_length() - 16), b.bit_length())) + ('[%d..%d]' % (lo, lo + n) if n else '')

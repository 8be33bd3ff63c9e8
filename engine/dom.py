"""Value domains of the symbolic executor.

 int                      a concrete word (unsigned, already reduced to its width)
 Poly                     an integer polynomial over bounded integer atoms; as a machine word of
                          width w it stands for (polynomial mod 2^w).  Wrapping is never assumed
                          away: when an instruction needs the unsigned (signed) reading of a word
                          whose polynomial is not provably in range, a wrap atom is introduced.
 z3.BitVecRef / BoolRef   a bit-precise symbolic word / i1
 Mux                      a guarded union of values
 Ptr                      (object, byte offset)
"""
import z3


class Inconclusive(Exception):
    """the engine cannot encode something: neither a proof nor a violation"""


class Fork(Exception):
    """ask the executor to split the current path: list of (z3 constraint, facts dict)"""

    def __init__(self, alts):
        self.alts = alts


class Undef:
    def __repr__(self):
        return 'undef'


UNDEF = Undef()

# ---------------------------------------------------------------- atoms


class Atoms:
    def __init__(self):
        self.reset()

    def reset(self):
        self.lo = []
        self.hi = []
        self.name = []
        self.defn = []      # None | ('div',E,c,q,r,role) | ('wrap',E,w,u,k,role) | ('ineq',[z3 builders]) | ('z3',expr)
        self.tag = []       # abstract-object tag, e.g. ('limb',elem,i)
        self.zv = []
        self.divs = {}
        self.ranges = {}
        self.divcs = {}
        self.wraps = {}
        self.mono_iv = {(): (1, 1)}
        self.mono_z3 = {}
        self.ors = {}

    def new(self, name, lo, hi, defn=None, tag=None):
        i = len(self.lo)
        self.lo.append(lo)
        self.hi.append(hi)
        self.name.append('%s#%d' % (name, i))
        self.defn.append(defn)
        self.tag.append(tag)
        self.zv.append(None)
        return i

    def batch(self, name, los, his, tags):
        i, n = len(self.lo), len(his)
        self.lo.extend(los)
        self.hi.extend(his)
        self.name.extend(['%s%d#%d' % (name, j, i + j) for j in range(n)])
        self.defn.extend([None] * n)
        self.tag.extend(tags)
        self.zv.extend([None] * n)
        return i

    def z(self, i):
        v = self.zv[i]
        if v is None:
            v = self.zv[i] = z3.Int(self.name[i])
        return v

    def interval(self, m):
        iv = self.mono_iv.get(m)
        if iv is None:
            lo, hi = 1, 1
            for a in m:
                l2, h2 = self.lo[a], self.hi[a]
                c = (lo * l2, lo * h2, hi * l2, hi * h2)
                lo, hi = min(c), max(c)
            if len(m) == 2 and m[0] == m[1] and lo < 0:
                lo = 0
            iv = self.mono_iv[m] = (lo, hi)
        return iv

    def mz(self, m):
        """z3 term of a monomial; products are opaque integer variables"""
        if len(m) == 1:
            return self.z(m[0])
        v = self.mono_z3.get(m)
        if v is None:
            v = self.mono_z3[m] = z3.Int('m_' + '_'.join(map(str, m)))
        return v


A = Atoms()


class Poly:
    __slots__ = ('d', '_iv', '_key')

    def __init__(self, d):
        self.d = d
        self._iv = None
        self._key = None

    @property
    def iv(self):
        iv = self._iv
        if iv is None:
            lo = hi = 0
            mi = A.interval
            for m, c in self.d.items():
                l, h = mi(m)
                if c > 0:
                    lo += c * l
                    hi += c * h
                else:
                    lo += c * h
                    hi += c * l
            iv = self._iv = (lo, hi)
        return iv

    @property
    def key(self):
        if self._key is None:
            self._key = frozenset(self.d.items())
        return self._key

    def __repr__(self):
        if len(self.d) > 6:
            return 'Poly<%d terms in [%d,%d]>' % (len(self.d), *self.iv)
        return 'Poly(' + ' + '.join('%d*%s' % (c, '*'.join(A.name[a] for a in m) or '1') for m, c in self.d.items()) + ')'


def patom(i):
    return Poly({(i,): 1})


def pconst(c):
    return Poly({(): c} if c else {})


def P(x):
    return x if isinstance(x, Poly) else pconst(x)


def padd(a, b, s=1):
    if isinstance(a, int):
        a = pconst(a)
    if isinstance(b, int):
        b = pconst(b)
    d = dict(a.d)
    for m, c in b.d.items():
        v = d.get(m, 0) + s * c
        if v:
            d[m] = v
        else:
            d.pop(m, None)
    return Poly(d)


def pscale(a, k):
    if k == 0:
        return Poly({})
    return Poly({m: c * k for m, c in a.d.items()})


def pmul(a, b):
    if isinstance(a, int):
        return pscale(P(b), a)
    if isinstance(b, int):
        return pscale(a, b)
    d = {}
    for m1, c1 in a.d.items():
        for m2, c2 in b.d.items():
            m = tuple(sorted(m1 + m2)) if m1 and m2 else (m1 or m2)
            v = d.get(m, 0) + c1 * c2
            if v:
                d[m] = v
            else:
                d.pop(m, None)
    return Poly(d)


def pcollapse(p):
    """a constant polynomial becomes an int (as integer, not a word)"""
    if not p.d:
        return 0
    if len(p.d) == 1 and () in p.d:
        return p.d[()]
    return p


def new_input(name, lo, hi, tag=None):
    return patom(A.new(name, lo, hi, None, tag))


# -- z3 views ------------------------------------------------------------
def pz3(p):
    if isinstance(p, int):
        return z3.IntVal(p)
    ts = [c * A.mz(m) if m else z3.IntVal(c) for m, c in p.d.items()]
    if not ts:
        return z3.IntVal(0)
    return z3.Sum(ts) if len(ts) > 1 else ts[0]


def closure(polys):
    """atoms/monomials needed to state facts about the given polynomials"""
    atoms, monos = set(), set()
    work = list(polys)
    while work:
        p = work.pop()
        for m in p.d:
            if len(m) > 1 and m not in monos:
                monos.add(m)
            for a in m:
                if a not in atoms:
                    atoms.add(a)
                    df = A.defn[a]
                    if df:
                        if df[0] in ('div', 'wrap'):
                            work.append(df[1])
                            work.append(patom(df[3]))
                            work.append(patom(df[4]))
                        elif df[0] == 'ineq':
                            work.extend(df[1])
    return atoms, monos


def constraints(polys):
    """bounds and definitions of everything the polynomials depend on"""
    atoms, monos = closure(polys)
    cs = []
    done = set()
    for a in sorted(atoms):
        z = A.z(a)
        cs.append(z >= A.lo[a])
        cs.append(z <= A.hi[a])
        df = A.defn[a]
        if df:
            if df[0] in ('div', 'wrap'):
                k = (df[3], df[4])
                if k in done:
                    continue
                done.add(k)
                if df[0] == 'div':
                    cs.append(pz3(df[1]) == (1 << df[2]) * A.z(df[3]) + A.z(df[4]))
                else:
                    cs.append(pz3(df[1]) == A.z(df[3]) + (1 << df[2]) * A.z(df[4]))
            elif df[0] == 'ineq':
                cs.extend(df[2](z))
            elif df[0] == 'z3':
                cs.append(z == df[1])
    for m in monos:
        lo, hi = A.interval(m)
        v = A.mz(m)
        cs.append(v >= lo)
        cs.append(v <= hi)
        for (a, b) in ((m[0], m[1]),) if len(m) == 2 else ():
            # boolean times bounded: exact linearisation
            for x, y in ((a, b), (b, a)):
                if A.lo[x] == 0 and A.hi[x] == 1:
                    zx, zy = A.z(x), A.z(y)
                    cs.append(z3.Implies(zx == 0, v == 0))
                    cs.append(z3.Implies(zx == 1, v == zy))
    return cs


class Stats:
    def __init__(self):
        self.queries = 0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.time = 0.0
        self.terms = 0


STATS = Stats()


def solve(cs, timeout_ms=60000, logic=None):
    """one solver query; returns ('unsat'|'sat'|'unknown', model)"""
    import time
    t = time.time()
    s = z3.SolverFor(logic) if logic else z3.Solver()
    s.set('timeout', timeout_ms)
    s.add(*cs)
    r = s.check()
    STATS.time += time.time() - t
    STATS.queries += 1
    STATS.terms += len(cs)
    if r == z3.unsat:
        STATS.unsat += 1
        return 'unsat', None
    if r == z3.sat:
        STATS.sat += 1
        return 'sat', s.model()
    STATS.unknown += 1
    return 'unknown', None


# -- integer readings ------------------------------------------------------
class Ctx:
    """path-dependent facts (set by the executor before evaluating an instruction)"""
    facts = {}       # poly key -> concrete integer value
    pc = []          # z3 constraints
    pcpolys = []     # polynomials mentioned in pc


CTX = Ctx()


def lookup(p):
    if CTX.facts:
        v = CTX.facts.get(p.key)
        if v is not None:
            return v
    return None


def condense(polys):
    """implied linear facts about the given polynomials: definitions chained through single-use
    carries are added up, so that a carry chain becomes one equation between whole numbers.
    Dropping the eliminated atoms' own bounds only relaxes the problem (sound for 'unsat')."""
    atoms, monos = closure(polys)
    prot = {a for p in polys for m in p.d for a in m}
    eqs = {}
    defs = {}
    occ = {}
    ineqs = []

    def note(e):
        for m in eqs[e]:
            for a in m:
                occ.setdefault(a, set()).add(e)
            if len(m) > 1:
                for a in m:
                    prot.add(a)

    for a in sorted(atoms):
        df = A.defn[a]
        if not df:
            continue
        if df[0] == 'div':
            k = (df[3], df[4])
            if k in defs:
                continue
            d = dict(df[1].d)
            for at, c in ((df[3], -(1 << df[2])), (df[4], -1)):
                if at is not None:
                    v = d.get((at,), 0) + c
                    if v:
                        d[(at,)] = v
                    else:
                        d.pop((at,), None)
            if df[5]:
                d[()] = d.get((), 0) - df[5]
            e = len(defs)
            defs[k] = e
            eqs[e] = d
            note(e)
        elif df[0] == 'ineq':
            for p in df[1]:
                for m in p.d:
                    prot.update(m)
            prot.add(a)
            ineqs.append(a)
    for k, e in list(defs.items()):
        q = k[0]
        if q in prot or q not in occ:
            continue
        es = occ[q]
        if e not in eqs or e not in es:
            continue
        if len(es) == 1:
            if A.hi[q] - A.lo[q] > 8:
                for m in eqs[e]:
                    for a in m:
                        occ[a].discard(e)
                del eqs[e]
            continue
        if len(es) != 2:
            continue
        o, = es - {e}
        c1, c2 = eqs[e][(q,)], eqs[o][(q,)]
        import math
        g = math.gcd(c1, c2)
        f1, f2 = c2 // g, c1 // g
        d = {m: c * f2 for m, c in eqs[o].items()}
        for m, c in eqs[e].items():
            v = d.get(m, 0) - c * f1
            if v:
                d[m] = v
            else:
                d.pop(m, None)
        for x in (e, o):
            for m in eqs[x]:
                for a in m:
                    occ[a].discard(x)
        del eqs[e]
        eqs[o] = d
        note(o)
        for kk, ee in defs.items():
            pass
        remap = [kk for kk, ee in defs.items() if ee == e]
        for kk in remap:
            defs[kk] = o
    # bounds
    cs = []
    live, lm = set(), set()
    for d in list(eqs.values()) + [p.d for p in polys]:
        for m in d:
            live.update(m)
            if len(m) > 1:
                lm.add(m)
    for a in ineqs:
        live.add(a)
        for p in A.defn[a][1]:
            for m in p.d:
                live.update(m)
    for a in sorted(live):
        z = A.z(a)
        cs.append(z >= A.lo[a])
        cs.append(z <= A.hi[a])
        df = A.defn[a]
        if df and df[0] == 'ineq':
            cs.extend(df[2](z))
    for m in lm:
        lo, hi = A.interval(m)
        v = A.mz(m)
        cs.append(v >= lo)
        cs.append(v <= hi)
    for d in eqs.values():
        cs.append(pz3(Poly(d)) == 0)
    small = [a for a in sorted(live) if 0 < A.hi[a] - A.lo[a] <= 4]
    return cs, small[:40]


_OPS = None


_real = {}


def to_real(cs):
    """linear integer constraints relaxed to rationals (strict bounds tightened first)"""
    K = z3
    cache = _real
    if len(cache) > 300000:
        cache.clear()

    def cv(e):
        k = e.get_id()
        r = cache.get(k)
        if r is not None:
            return r[0]
        if z3.is_int_value(e):
            r = z3.RealVal(e.as_long())
        elif z3.is_const(e):
            r = z3.Real('R' + e.decl().name()) if e.sort() == z3.IntSort() else e
        else:
            ch = [cv(c) for c in e.children()]
            kd = e.decl().kind()
            if kd == K.Z3_OP_ADD:
                r = z3.Sum(ch)
            elif kd == K.Z3_OP_MUL:
                r = ch[0] * ch[1]
            elif kd == K.Z3_OP_SUB:
                r = ch[0] - ch[1]
            elif kd == K.Z3_OP_UMINUS:
                r = -ch[0]
            elif kd == K.Z3_OP_LE:
                r = ch[0] <= ch[1]
            elif kd == K.Z3_OP_GE:
                r = ch[0] >= ch[1]
            elif kd == K.Z3_OP_LT:
                r = ch[0] <= ch[1] - 1
            elif kd == K.Z3_OP_GT:
                r = ch[0] >= ch[1] + 1
            elif kd == K.Z3_OP_EQ:
                r = ch[0] == ch[1]
            elif kd == K.Z3_OP_DISTINCT:
                if e.children()[0].sort() == z3.IntSort():
                    r = z3.Or(ch[0] <= ch[1] - 1, ch[0] >= ch[1] + 1)
                else:
                    r = ch[0] != ch[1]
            elif kd == K.Z3_OP_NOT:
                c = e.children()[0]
                kk = c.decl().kind()
                if kk in (K.Z3_OP_LE, K.Z3_OP_GE, K.Z3_OP_LT, K.Z3_OP_GT, K.Z3_OP_EQ) and c.children()[0].sort() == z3.IntSort():
                    a, b = [cv(x) for x in c.children()]
                    if kk == K.Z3_OP_LE:
                        r = a >= b + 1
                    elif kk == K.Z3_OP_GE:
                        r = a <= b - 1
                    elif kk == K.Z3_OP_LT:
                        r = a >= b
                    elif kk == K.Z3_OP_GT:
                        r = a <= b
                    else:
                        r = z3.Or(a <= b - 1, a >= b + 1)
                elif kk == K.Z3_OP_AND:
                    r = z3.Or([cv(z3.Not(x)) for x in c.children()])
                elif kk == K.Z3_OP_OR:
                    r = z3.And([cv(z3.Not(x)) for x in c.children()])
                elif kk == K.Z3_OP_NOT:
                    r = cv(c.children()[0])
                else:
                    r = z3.Not(ch[0])
            elif kd == K.Z3_OP_AND:
                r = z3.And(ch)
            elif kd == K.Z3_OP_OR:
                r = z3.Or(ch)
            elif kd == K.Z3_OP_IMPLIES:
                r = z3.Or(cv(z3.Not(e.children()[0])), ch[1])
            else:
                r = e.decl()(*ch)
        cache[k] = (r, e)
        return r
    return [cv(c) for c in cs]


def psolve(polys, pc, extra, timeout_ms=20000, exact=True):
    """satisfiability of `extra` under the path condition: condensed relaxation first"""
    polys = list(polys)
    cd, small = condense(polys)
    cs = cd + list(pc) + list(extra)
    r, _ = solve(to_real(cs), min(timeout_ms, 10000))
    if r == 'unsat':
        return 'unsat', None
    if small:
        split = [z3.Or([A.z(a) == v for v in range(A.lo[a], A.hi[a] + 1)]) for a in small]
        r, _ = solve(to_real(cs + split), timeout_ms)
        if r == 'unsat':
            return 'unsat', None
    if not exact:
        return 'unknown', None
    cs = constraints(polys) + list(pc) + list(extra)
    return solve(cs, timeout_ms)


def entails_range(p, lo, hi, exact=False):
    """does lo <= p <= hi hold on the current path? interval first, then the solver"""
    l, h = p.iv
    if lo <= l and h <= hi:
        return True
    if len(p.d) > 400:
        return False
    z = pz3(p)
    r, _ = psolve([p] + CTX.pcpolys, CTX.pc, [z3.Or(z < lo, z > hi)], 20000, exact)
    return r == 'unsat'


def unsigned(p, w):
    """the unsigned reading of a word as an integer polynomial (or int)"""
    if isinstance(p, int):
        return p & ((1 << w) - 1)
    v = lookup(p)
    if v is not None:
        return v & ((1 << w) - 1)
    lo, hi = p.iv
    M = 1 << w
    if lo >= 0 and hi < M:
        return p
    k = lo >> w
    if k == hi >> w:
        return pcollapse(padd(p, -(k << w)))
    # cheap coefficient reduction: drop multiples of 2^w
    red = {m: c % M for m, c in p.d.items()}
    red = {m: c for m, c in red.items() if c}
    if len(red) < len(p.d):
        q = Poly(red)
        if q.iv[0] >= 0 and q.iv[1] < M:
            return pcollapse(q)
    if (p.key, w) not in A.divs and hi - lo < 3 * M and lo > -2 * M and hi < 3 * M:
        mk = (p.key, w, len(CTX.pc))
        k = A.ranges.get(mk)
        if k is None:
            A.ranges[mk] = k = ()
            for kk in range(lo >> w, (hi >> w) + 1):
                if entails_range(p, kk << w, (kk << w) + M - 1):
                    A.ranges[mk] = k = (kk,)
                    break
        if k:
            return pcollapse(padd(p, -(k[0] << w)))
    return divmod2(p, w)[1]


def signed(p, w):
    if isinstance(p, int):
        p &= (1 << w) - 1
        return p - (1 << w) if p >> (w - 1) else p
    v = lookup(p)
    if v is not None:
        return signed(v, w)
    lo, hi = p.iv
    H = 1 << (w - 1)
    if lo >= -H and hi < H:
        return p
    k = (lo + H) >> w
    if k == (hi + H) >> w:
        return pcollapse(padd(p, -(k << w)))
    u = unsigned(padd(p, H), w)
    return padd(u, -H) if not isinstance(u, int) else u - H


def divmod2(p, c):
    """(floor(p / 2^c), p mod 2^c) of an integer polynomial, introducing atoms when needed"""
    if isinstance(p, int):
        return p >> c, p & ((1 << c) - 1)
    M = 1 << c
    if c == 0:
        return p, 0
    lo, hi = p.iv
    if 0 <= lo and hi < M:
        return 0, p
    if lo >> c == hi >> c:
        return lo >> c, pcollapse(padd(p, -((lo >> c) << c)))
    if len(p.d) - (() in p.d) == 1:
        (m, cf), = [(m, cf) for m, cf in p.d.items() if m]
        if len(m) == 1 and A.hi[m[0]] - A.lo[m[0]] == 1:
            a, k0 = m[0], p.d.get((), 0)
            v0, v1 = k0 + cf * A.lo[a], k0 + cf * A.hi[a]

            def lin(f0, f1):
                return pcollapse(padd(pscale(patom(a), f1 - f0), f0 - (f1 - f0) * A.lo[a]))
            return lin(v0 >> c, v1 >> c), lin(v0 & (M - 1), v1 & (M - 1))
    # split p = rest + 2^v * H with rest in [0,2^v)
    vals = sorted({_v2(cf) for m, cf in p.d.items()}, reverse=True)
    for v in vals:
        if v == 0:
            break
        H = {m: cf for m, cf in p.d.items() if cf % (1 << v) == 0}
        if len(H) == len(p.d):
            if v >= c:
                return pcollapse(Poly({m: cf >> c for m, cf in p.d.items()})), 0
            q, r = divmod2(pcollapse(Poly({m: cf >> v for m, cf in p.d.items()})), c - v)
            return q, _shl(r, v)
        R = Poly({m: cf for m, cf in p.d.items() if m not in H})
        if R.iv[0] >= 0 and R.iv[1] < (1 << v):
            Hq = pcollapse(Poly({m: cf >> v for m, cf in H.items()}))
            if v >= c:
                q1, r1 = divmod2(pcollapse(R), c)
                return addp(_shl(Hq, v - c), q1), r1
            q, r = divmod2(Hq, c - v)
            return q, addp(_shl(r, v), pcollapse(R))
    # congruence: is p mod 2^c constant once the definitions of remainders are unfolded?
    r = residue_const(p, c)
    if r is not None:
        if r == 0 and all(cf % M == 0 for cf in p.d.values()):
            return pcollapse(Poly({m: cf >> c for m, cf in p.d.items()})), 0
    key = (p.key, c)
    e = A.divs.get(key)
    if e is None and r is None:
        # reuse an earlier division of the same number, so that equal bits share atoms
        old = A.divcs.get(p.key)
        if old:
            up = [x for x in old if x > c]
            if up:
                qa, ra, k = A.divs[(p.key, min(up))]
                q1, r1 = divmod2(patom(ra) if k is None else k, c)
                return addp(_shl(patom(qa), min(up) - c), q1), r1
            c0 = max(old)
            qa, ra, k = A.divs[(p.key, c0)]
            q1, r1 = divmod2(patom(qa), c - c0)
            return q1, addp(_shl(r1, c0), patom(ra) if k is None else k)
    if e is None:
        A.divcs.setdefault(p.key, []).append(c)
        df = ['div', p, c, None, None, 0]
        qa = A.new('q', lo >> c, hi >> c, df)
        ra = A.new('r', r if r is not None else 0, r if r is not None else M - 1, df)
        df[3], df[4] = qa, ra
        e = A.divs[key] = (qa, ra, r)
    return patom(e[0]), (patom(e[1]) if e[2] is None else e[2])


def _shl(x, k):
    return x << k if isinstance(x, int) else pscale(x, 1 << k)


def addp(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a + b
    return pcollapse(padd(a, b))


def _v2(c):
    return (c & -c).bit_length() - 1


def residue_const(p, c):
    M = 1 << c
    d = {m: cf % M for m, cf in p.d.items() if cf % M}
    for _ in range(4):
        if not d:
            return 0
        if len(d) == 1 and () in d:
            return d[()]
        # unfold one round of remainder atoms whose modulus is a multiple of 2^c
        nd = {}
        changed = False
        for m, cf in d.items():
            df = A.defn[m[0]] if len(m) == 1 else None
            if df and df[0] == 'div' and df[4] == m[0] and df[2] >= c:
                changed = True
                for m2, c2 in df[1].d.items():
                    nd[m2] = (nd.get(m2, 0) + cf * c2) % M
            elif df and df[0] == 'wrap' and df[3] == m[0] and df[2] >= c:
                changed = True
                for m2, c2 in df[1].d.items():
                    nd[m2] = (nd.get(m2, 0) + cf * c2) % M
            else:
                nd[m] = (nd.get(m, 0) + cf) % M
        d = {m: cf for m, cf in nd.items() if cf}
        if not changed:
            return None
    return None


def unfold(p, mod=None):
    """eliminate remainder/wrapped atoms through their definitions (a polynomial identity)"""
    d = dict(p.d) if isinstance(p, Poly) else {(): p}
    while True:
        # highest-numbered defined atom first: definitions only mention older atoms
        best = -1
        for m in d:
            for a in m:
                if a > best:
                    df = A.defn[a]
                    if df and ((df[0] == 'div' and df[4] == a) or (df[0] == 'wrap' and df[3] == a)):
                        best = a
        if best < 0:
            break
        df = A.defn[best]
        if df[0] == 'div':
            rep = padd(df[1], Poly({(df[3],): -(1 << df[2])}))
        else:
            rep = padd(df[1], Poly({(df[4],): -(1 << df[2])}))
        nd = {}
        for m, c in d.items():
            n = m.count(best)
            if not n:
                nd[m] = nd.get(m, 0) + c
                continue
            base = Poly({tuple(x for x in m if x != best): c})
            for _ in range(n):
                base = pmul(base, rep)
            for m2, c2 in base.d.items():
                nd[m2] = nd.get(m2, 0) + c2
        if mod:
            d = {m: c % mod for m, c in nd.items() if c % mod}
        else:
            d = {m: c for m, c in nd.items() if c}
    if mod:
        d = {m: c % mod for m, c in d.items() if c % mod}
    return Poly(d)


# ---------------------------------------------------------------- Mux
class Mux:
    """guarded union; guards are mutually exclusive and exhaustive z3 Bools, shared by identity"""
    __slots__ = ('g', 'v')

    def __init__(self, g, v):
        self.g = g
        self.v = v

    def __repr__(self):
        return 'Mux(%d)' % len(self.v)


_muxprod = {}


def mux_product(g1, g2):
    k = (id(g1), id(g2))
    r = _muxprod.get(k)
    if r is None:
        r = _muxprod[k] = ([z3.And(a, b) for a in g1 for b in g2], g1, g2)
    return r[0]


def mux_map2(f, a, b):
    if isinstance(a, Mux) and isinstance(b, Mux):
        if a.g is b.g:
            return mux_norm(a.g, [f(x, y) for x, y in zip(a.v, b.v)])
        if len(a.v) * len(b.v) > 256:
            raise Inconclusive('mux product too large')
        return mux_norm(mux_product(a.g, b.g), [f(x, y) for x in a.v for y in b.v])
    if isinstance(a, Mux):
        return mux_norm(a.g, [f(x, b) for x in a.v])
    return mux_norm(b.g, [f(a, y) for y in b.v])


def mux_norm(g, vs):
    if all(isinstance(v, int) and v == vs[0] for v in vs):
        return vs[0]
    return Mux(g, vs)


def mux_z3(m, w):
    e = to_bv(m.v[-1], w)
    for g, v in zip(m.g[-2::-1], m.v[-2::-1]):
        e = z3.If(g, to_bv(v, w), e)
    return e


def is_bv(x):
    return isinstance(x, z3.BitVecRef)


def is_bool(x):
    return isinstance(x, z3.BoolRef)


def to_bv(x, w):
    if isinstance(x, int):
        return z3.BitVecVal(x, w)
    if isinstance(x, z3.BoolRef):
        return z3.If(x, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
    if isinstance(x, z3.BitVecRef):
        return x
    if isinstance(x, Mux):
        return mux_z3(x, w)
    if isinstance(x, Poly):
        return poly_bv(x, w)
    if isinstance(x, (BT, Bits)):
        x = bit_arg(x)
        if isinstance(x, BT):
            raise ForkBit(x.s[0])
        return to_bv(x, w)
    raise Inconclusive('to_bv %r' % (x,))


def poly_bv(p, w):
    u = unsigned(p, w)
    if isinstance(u, int):
        return z3.BitVecVal(u, w)
    if len(u.d) == 1:
        (m, c), = u.d.items()
        if c == 1 and len(m) == 1:
            t = A.tag[m[0]]
            if t and t[0] == 'bv':
                return fitbv(t[1], w)
    raise Inconclusive('bit-level use of an arithmetic value %r' % (p,))


def fitbv(b, w):
    s = b.size()
    if s == w:
        return b
    if s < w:
        return z3.ZeroExt(w - s, b)
    return z3.Extract(w - 1, 0, b)


# ---------------------------------------------------------------- Ptr
class Ptr:
    __slots__ = ('o', 'off')

    def __init__(self, o, off):
        self.o = o
        self.off = off

    def __repr__(self):
        return 'Ptr(%s+%s)' % (self.o, self.off)


# ---------------------------------------------------------------- tables over bit atoms
class ForkBit(Exception):
    """split the path on one bit atom"""

    def __init__(self, a):
        self.a = a


BTMAX = 10


class BT:
    """a value given by its table over the assignments of a few bit atoms (0/1 integer atoms)"""
    __slots__ = ('s', 'v')

    def __init__(self, s, v):
        self.s = s
        self.v = v

    def __repr__(self):
        return 'BT(%s,%r)' % (self.s, self.v[:4])


class Bits:
    """a word of single bits: entries 0, 1, 2+2a (bit atom a), 3+2a (its complement); entry i is bit i"""
    __slots__ = ('b',)

    def __init__(self, b):
        self.b = b

    def __repr__(self):
        return 'Bits(%d free)' % sum(1 for x in self.b if x > 1)


def mkbits(b):
    b = tuple(b)
    if all(x < 2 for x in b):
        return sum(x << i for i, x in enumerate(b))
    return Bits(b)


def sameval(x, y):
    if x is y:
        return True
    if type(x) is not type(y):
        return False
    if isinstance(x, int):
        return x == y
    if isinstance(x, Poly):
        return x.key == y.key
    if isinstance(x, Ptr):
        return x.o == y.o and sameval(x.off, y.off)
    return False


def mkbt(s, v):
    """canonical: atoms fixed by the path and irrelevant atoms removed"""
    s, v = list(s), list(v)
    k = 0
    while k < len(s):
        fx = CTX.facts.get(('bit', s[k]))
        n = 1 << k
        if fx is not None:
            v = [v[((i >> k) << (k + 1)) | (fx << k) | (i & (n - 1))] for i in range(len(v) // 2)]
            del s[k]
            continue
        if all(sameval(v[i], v[i | n]) for i in range(len(v)) if not i & n):
            v = [v[((i >> k) << (k + 1)) | (i & (n - 1))] for i in range(len(v) // 2)]
            del s[k]
            continue
        k += 1
    if not s:
        return v[0]
    return BT(tuple(s), v)


def bits_norm(x):
    f = CTX.facts
    if f and any(e > 1 and ('bit', (e >> 1) - 1) in f for e in x.b):
        return mkbits([e if e < 2 or ('bit', (e >> 1) - 1) not in f else f[('bit', (e >> 1) - 1)] ^ (e & 1) for e in x.b])
    return x


def bits_bt(x):
    sup = sorted({(e >> 1) - 1 for e in x.b if e > 1})
    if len(sup) > BTMAX:
        raise Inconclusive('a bit-level operation on too many scalar bits')
    pos = {a: i for i, a in enumerate(sup)}
    v = []
    for i in range(1 << len(sup)):
        t = 0
        for k, e in enumerate(x.b):
            t |= (e if e < 2 else ((i >> pos[(e >> 1) - 1]) & 1) ^ (e & 1)) << k
        v.append(t)
    return mkbt(sup, v)


def bits_poly(x):
    p = pconst(0)
    for k, e in enumerate(x.b):
        if e < 2:
            p = padd(p, e << k)
        elif e & 1:
            p = padd(p, padd(1 << k, Poly({((e >> 1) - 1,): 1 << k}), -1))
        else:
            p = padd(p, Poly({((e >> 1) - 1,): 1 << k}))
    return p


def bt_expand(x, sup):
    """values of x over the assignments of sup (a superset of its support)"""
    if not isinstance(x, BT):
        return [x] * (1 << len(sup))
    pos = [sup.index(a) for a in x.s]
    out = []
    for i in range(1 << len(sup)):
        j = 0
        for k, q in enumerate(pos):
            j |= ((i >> q) & 1) << k
        out.append(x.v[j])
    return out


def bt_map(f, *xs):
    sup = set()
    for x in xs:
        if isinstance(x, BT):
            sup.update(x.s)
    sup = sorted(sup)
    if BTMAX < len(sup) <= BTMAX + 6:
        raise ForkBit(sup[0])
    if len(sup) > BTMAX:
        raise Inconclusive('a bit-level operation on too many scalar bits')
    cols = [bt_expand(x, sup) for x in xs]
    memo = {}
    out = []
    for row in zip(*cols):
        k = tuple(x if isinstance(x, int) else id(x) for x in row)
        if k not in memo:
            memo[k] = f(*row)
        out.append(memo[k])
    return mkbt(sup, out)


def bt_poly(x, mod):
    """the multilinear polynomial of a table of integers"""
    if isinstance(x, int):
        return pconst(x % mod)
    c = [v % mod for v in x.v]
    n = len(x.s)
    for k in range(n):
        for i in range(1 << n):
            if i >> k & 1:
                c[i] = (c[i] - c[i ^ (1 << k)]) % mod
    return Poly({tuple(x.s[k] for k in range(n) if i >> k & 1): v for i, v in enumerate(c) if v})


def bitty(x):
    return isinstance(x, (BT, Bits))


def bit_bin(op, w, a, b):
    if isinstance(a, Bits):
        a = bits_norm(a)
    if isinstance(b, Bits):
        b = bits_norm(b)
    if isinstance(a, BT):
        a = mkbt(a.s, a.v)
    if isinstance(b, BT):
        b = mkbt(b.s, b.v)
    if not bitty(a) and not bitty(b):
        return binop(op, w, a, b)
    if isinstance(a, Bits) and isinstance(b, int) and op in ('shl', 'lshr', 'ashr'):
        if b >= w:
            return UNDEF
        e = list(a.b)
        if op == 'shl':
            return mkbits(([0] * b + e)[:w])
        return mkbits(e[b:] + [0 if op == 'lshr' else e[-1]] * b)
    if isinstance(a, (Bits, int)) and isinstance(b, (Bits, int)) and op in ('and', 'or', 'xor', 'add'):
        x = a.b if isinstance(a, Bits) else [(a >> i) & 1 for i in range(w)]
        y = b.b if isinstance(b, Bits) else [(b >> i) & 1 for i in range(w)]
        if op == 'add':
            if all(p == 0 or q == 0 for p, q in zip(x, y)):
                return mkbits([p | q for p, q in zip(x, y)])
        else:
            out = []
            for p, q in zip(x, y):
                if p > 1 and q < 2:
                    p, q = q, p
                if p < 2:
                    out.append((q if p else 0) if op == 'and' else (1 if p else q) if op == 'or' else q ^ p)
                elif p == q:
                    out.append(0 if op == 'xor' else p)
                elif p ^ 1 == q:
                    out.append(0 if op == 'and' else 1)
                else:
                    break
            else:
                return mkbits(out)
    if isinstance(a, Poly) or isinstance(b, Poly) or isinstance(a, XorPair) or isinstance(b, XorPair):
        pass
    if isinstance(a, Bits):
        a = bits_bt(a)
    if isinstance(b, Bits):
        b = bits_bt(b)
    return bt_map(lambda x, y: binop(op, w, x, y), a, b)


def bit_arg(x):
    if isinstance(x, Bits):
        x = bits_norm(x)
        return bits_bt(x) if isinstance(x, Bits) else x
    if isinstance(x, BT):
        return mkbt(x.s, x.v)
    return x


def new_bits(w, name):
    return Bits(tuple(2 + 2 * A.new('%s%d_' % (name, i), 0, 1, None, ('bit',)) for i in range(w)))


# ---------------------------------------------------------------- operators
def two_valued(p, w):
    """is the word one of {0, 2^w-1}? returns the polynomial s with p = -s, s in {0,1}, else None"""
    if isinstance(p, int):
        return None
    lo, hi = p.iv
    if lo == -1 and hi == 0:
        return pscale(p, -1)
    if lo >= -2 and hi <= 2:
        mk = (p.key, 'tv', len(CTX.pc))
        r = A.ranges.get(mk)
        if r is None:
            r = A.ranges[mk] = entails_range(p, -1, 0, True)
        if r:
            return pscale(p, -1)
    return None


def mask_fork(p, w):
    """fork a path on a Poly word that can only be 0 or all-ones (or on all its few values)"""
    M = (1 << w) - 1
    s = two_valued(p, w)
    if s is not None:
        raise Fork([(pz3(p) == 0, {p.key: 0}, p), (pz3(p) == -1, {p.key: M}, p)])
    lo, hi = p.iv
    if hi - lo <= 4:
        raise Fork([(pz3(p) == v, {p.key: v & M}, p) for v in range(lo, hi + 1)])
    u = unsigned(p, w)
    if isinstance(u, int):
        return u
    if u.iv[1] <= 4:
        raise Fork([(pz3(u) == v, {p.key: v, u.key: v}, u) for v in range(u.iv[0], u.iv[1] + 1)])
    z = pz3(u)
    r, _ = psolve([u] + CTX.pcpolys, CTX.pc, [z != 0, z != M], 20000)
    if r != 'unsat':
        raise Inconclusive('bitwise operation on an arithmetic value that is not a 0/-1 mask: %r' % (u,))
    alts = []
    for v in (0, M):
        alts.append((z == v, {p.key: v, u.key: v}, u))
    raise Fork(alts)


def poly_and(p, c, w):
    """p & c for a concrete c, as a polynomial"""
    M = (1 << w) - 1
    c &= M
    if c == 0:
        return 0
    if c == M:
        return p
    out = 0
    # runs of ones
    i = 0
    runs = []
    while i < w:
        if (c >> i) & 1:
            j = i
            while j < w and (c >> j) & 1:
                j += 1
            runs.append((i, j))
            i = j
        else:
            i += 1
    if len(runs) > 3:
        return None
    for (i, j) in runs:
        if i == 0:
            if j < w:
                _, r = divmod2(p, j)
            else:
                r = unsigned(p, w)
            out = addp(out, r)
        else:
            u = unsigned(p, w)
            if j == w:
                q, r = divmod2(u, i)
                out = addp(out, _shl(q, i))
            else:
                _, r = divmod2(u, j)
                q, _ = divmod2(r, i)
                out = addp(out, _shl(q, i))
    return out


def binop(op, w, a, b):
    if isinstance(a, int) and isinstance(b, int):
        return conc_bin(op, w, a, b)
    if a is UNDEF or b is UNDEF:
        return UNDEF
    if isinstance(a, (BT, Bits)) or isinstance(b, (BT, Bits)):
        return bit_bin(op, w, a, b)
    if isinstance(a, XorPair) or isinstance(b, XorPair):
        return xor_bin(op, w, a, b)
    if isinstance(a, Mux) or isinstance(b, Mux):
        if isinstance(a, (int, Mux, Poly)) and isinstance(b, (int, Mux, Poly)):
            return mux_map2(lambda x, y: binop(op, w, x, y), a, b)
        a = to_bv(a, w) if isinstance(a, Mux) else a
        b = to_bv(b, w) if isinstance(b, Mux) else b
        return binop(op, w, a, b)
    if isinstance(a, Ptr) or isinstance(b, Ptr):
        return ptr_bin(op, w, a, b)
    if w == 1:
        return bool_bin(op, a, b)
    if is_bv(a) or is_bv(b):
        return bv_bin(op, w, to_bv(a, w), to_bv(b, w), a, b)
    if is_bool(a) or is_bool(b):
        return bv_bin(op, w, to_bv(a, w), to_bv(b, w), a, b)
    # at least one Poly
    return poly_bin(op, w, a, b)


def conc_bin(op, w, a, b):
    M = (1 << w) - 1
    if op == 'add':
        return (a + b) & M
    if op == 'sub':
        return (a - b) & M
    if op == 'mul':
        return (a * b) & M
    if op == 'and':
        return a & b
    if op == 'or':
        return a | b
    if op == 'xor':
        return a ^ b
    if op == 'shl':
        return (a << b) & M if b < w else UNDEF
    if op == 'lshr':
        return a >> b if b < w else UNDEF
    if op == 'ashr':
        return (sx(a, w) >> b) & M if b < w else UNDEF
    if op == 'udiv':
        return a // b if b else UNDEF
    if op == 'urem':
        return a % b if b else UNDEF
    if op in ('sdiv', 'srem'):
        x, y = sx(a, w), sx(b, w)
        if y == 0:
            return UNDEF
        q = abs(x) // abs(y)
        if (x < 0) != (y < 0):
            q = -q
        return (q if op == 'sdiv' else x - q * y) & M
    raise Inconclusive(op)


def sx(i, w):
    return i - (1 << w) if i >> (w - 1) else i


def bool_bin(op, a, b):
    a = to_bool(a)
    b = to_bool(b)
    if op == 'and' or op == 'mul':
        if isinstance(a, int):
            return b if a else 0
        if isinstance(b, int):
            return a if b else 0
        return z3.And(a, b)
    if op == 'or':
        if isinstance(a, int):
            return 1 if a else b
        if isinstance(b, int):
            return 1 if b else a
        return z3.Or(a, b)
    if op in ('xor', 'add', 'sub'):
        if isinstance(a, int):
            a, b = b, a
        if isinstance(b, int):
            if isinstance(a, int):
                return a ^ b
            return z3.Not(a) if b else a
        return z3.Xor(a, b)
    raise Inconclusive('i1 ' + op)


def to_bool(x):
    if isinstance(x, int):
        return x & 1
    if isinstance(x, (BT, Bits)):
        return bt_map(to_bool, bit_arg(x))
    if isinstance(x, z3.BoolRef):
        return x
    if isinstance(x, z3.BitVecRef):
        return simp(z3.Extract(0, 0, x) == z3.BitVecVal(1, 1))
    if isinstance(x, Mux):
        vs = [to_bool(v) for v in x.v]
        if all(isinstance(v, int) and v == vs[0] for v in vs):
            return vs[0]
        return z3.Or([z3.And(g, v if not isinstance(v, int) else z3.BoolVal(bool(v))) for g, v in zip(x.g, vs)])
    if isinstance(x, Poly):
        u = unsigned(x, 1) if x.iv[0] < 0 or x.iv[1] > 1 else x
        if isinstance(u, int):
            return u
        return PolyBool(u, pz3(u) == 1)
    raise Inconclusive('bool of %r' % (x,))


def PolyBool(p, b):
    """a z3 Bool over integer atoms: remember which polynomials it mentions"""
    POLYBOOL[b.get_id()] = (b, p)
    return b


POLYBOOL = {}


def polys_of(b):
    """polynomials mentioned by a z3 formula built by this module"""
    out = []
    seen = set()
    work = [b]
    while work:
        e = work.pop()
        i = e.get_id()
        if i in seen:
            continue
        seen.add(i)
        pb = POLYBOOL.get(i)
        if pb is not None:
            out.append(pb[1])
            continue
        work.extend(e.children())
    return out


def simp(e):
    e = z3.simplify(e)
    if isinstance(e, z3.BoolRef):
        if z3.is_true(e):
            return 1
        if z3.is_false(e):
            return 0
        return e
    if z3.is_bv_value(e):
        return e.as_long()
    return e


def bv_bin(op, w, x, y, a, b):
    if op == 'add':
        r = x + y
    elif op == 'sub':
        r = x - y
    elif op == 'mul':
        r = x * y
    elif op == 'and':
        r = x & y
    elif op == 'or':
        r = x | y
    elif op == 'xor':
        r = x ^ y
    elif op == 'shl':
        r = x << y
    elif op == 'lshr':
        r = z3.LShR(x, y)
    elif op == 'ashr':
        r = x >> y
    elif op == 'udiv':
        r = z3.UDiv(x, y)
    elif op == 'urem':
        r = z3.URem(x, y)
    elif op == 'sdiv':
        r = x / y
    elif op == 'srem':
        r = z3.SRem(x, y)
    else:
        raise Inconclusive(op)
    return simp(r)


def addr(p):
    """objects lie far apart (only differences and order of unrelated objects use this)"""
    return binop('add', 64, ((p.o + (1 << 24)) << 36) & ((1 << 64) - 1), p.off if not isinstance(p.off, int) else p.off & ((1 << 64) - 1))


def ptr_bin(op, w, a, b):
    if op == 'sub' and isinstance(a, Ptr) and isinstance(b, Ptr):
        if a.o == b.o:
            return binop('sub', 64, a.off, b.off)
        if isinstance(a.o, int) and isinstance(b.o, int):
            return binop('sub', 64, addr(a), addr(b))
        raise Inconclusive('difference of unrelated pointers')
    if isinstance(a, Ptr) and isinstance(b, int):
        if op == 'add':
            return Ptr(a.o, binop('add', 64, a.off, b))
        if op == 'sub':
            return Ptr(a.o, binop('sub', 64, a.off, b))
        if op == 'and' and b < 16:
            return binop('and', 64, a.off, b)
        if op == 'and':
            return a
    if isinstance(b, Ptr) and isinstance(a, int) and op == 'add':
        return Ptr(b.o, binop('add', 64, b.off, a))
    raise Inconclusive('pointer arithmetic %s %r %r' % (op, a, b))


def poly_bin(op, w, a, b):
    if isinstance(a, Poly):
        v = lookup(a)
        if v is not None:
            a = v & ((1 << w) - 1)
    if isinstance(b, Poly):
        v = lookup(b)
        if v is not None:
            b = v & ((1 << w) - 1)
    if isinstance(a, int) and isinstance(b, int):
        return conc_bin(op, w, a, b)
    M = 1 << w
    if op == 'add':
        if isinstance(b, int) and b >> (w - 1):
            b -= M
        if isinstance(a, int) and a >> (w - 1):
            a -= M
        return wordc(padd(a, b), w)
    if op == 'sub':
        if isinstance(b, int) and b >> (w - 1):
            b -= M
        if isinstance(a, int) and a >> (w - 1):
            a -= M
        return wordc(padd(a, b, -1), w)
    if op == 'mul':
        # multiplication needs readings only to keep coefficients small; it is a ring operation
        if isinstance(b, int) and b >> (w - 1):
            b -= M
        if isinstance(a, int) and a >> (w - 1):
            a -= M
        return wordc(pmul(a, b), w)
    if op == 'shl':
        if not isinstance(b, int):
            raise Inconclusive('shift by arithmetic value')
        return wordc(pscale(a, 1 << b), w)
    if op == 'lshr':
        if not isinstance(b, int):
            raise Inconclusive('shift by arithmetic value')
        q, _ = divmod2(unsigned(a, w), b)
        return q
    if op == 'ashr':
        if not isinstance(b, int):
            raise Inconclusive('shift by arithmetic value')
        q, _ = divmod2(signed(a, w), b)
        return q if not isinstance(q, int) else q & (M - 1)
    if op in ('udiv', 'urem') and isinstance(b, int) and b & (b - 1) == 0 and b:
        q, r = divmod2(unsigned(a, w), b.bit_length() - 1)
        return q if op == 'udiv' else r
    if op == 'and':
        if isinstance(a, int):
            a, b = b, a
        if isinstance(b, int):
            s = two_valued(a, w)
            if s is not None:
                return pscale(s, b)
            r = poly_and(a, b, w)
            if r is not None:
                return r
            return binop('and', w, mask_fork(a, w), b)
        for x, y in ((a, b), (b, a)):
            if two_valued(x, w) is not None:
                mask_fork(x, w)
        for x, y in ((a, b), (b, a)):
            try:
                v = mask_fork(x, w)
                return binop('and', w, v, y)
            except Inconclusive:
                continue
        raise Inconclusive('and of two arithmetic values')
    if op == 'xor':
        if isinstance(a, int):
            a, b = b, a
        if isinstance(b, int):
            if b == 0:
                return a
            if b == M - 1:
                return wordc(padd(-1, a, -1), w)
            if b == 1 and a.iv[0] >= 0 and a.iv[1] <= 1:
                return wordc(padd(1, a, -1), w)
            return binop('xor', w, mask_fork(a, w), b)
        if a.key == b.key:
            return 0
        # x ^ (x ^ y) style identities never reach here: masks fork first
        for x, y in ((a, b), (b, a)):
            if two_valued(x, w) is not None:
                mask_fork(x, w)
        return XorPair(a, b, w)
    if op == 'or':
        if isinstance(a, int):
            a, b = b, a
        if isinstance(b, int) and b == 0:
            return a
        # disjoint bits?
        r = disjoint_or(a, b, w)
        if r is not None:
            return r
        if isinstance(b, int):
            return binop('or', w, mask_fork(a, w), b)
        for x, y in ((a, b), (b, a)):
            if two_valued(x, w) is not None:
                mask_fork(x, w)
        ua, ub = unsigned(a, w), unsigned(b, w)
        if isinstance(ua, int) or isinstance(ub, int):
            return binop('or', w, ua, ub)
        k = frozenset((ua.key, ub.key))
        at = A.ors.get(k)
        if at is None:
            la, ha = ua.iv
            lb, hb = ub.iv
            top = (1 << max(ha.bit_length(), hb.bit_length())) - 1

            def ineq(z, ua=ua, ub=ub):
                return [z >= pz3(ua), z >= pz3(ub), z <= pz3(ua) + pz3(ub)]
            at = A.ors[k] = A.new('or', max(la, lb), top, ('ineq', [ua, ub], ineq))
        return patom(at)
    raise Inconclusive('arithmetic-domain %s' % op)


class XorPair:
    """a ^ b of two arithmetic words: only xor-ing it with a or b (or masking) is supported"""
    __slots__ = ('a', 'b', 'w')

    def __init__(self, a, b, w):
        self.a, self.b, self.w = a, b, w


def same(x, y):
    if isinstance(x, int) or isinstance(y, int):
        return x == y if type(x) is type(y) else False
    return isinstance(x, Poly) and isinstance(y, Poly) and x.key == y.key


def xor_bin(op, w, a, b):
    x, y = (a, b) if isinstance(a, XorPair) else (b, a)
    M = (1 << w) - 1
    if isinstance(y, Mux):
        return mux_norm(y.g, [binop(op, w, x, v) for v in y.v])
    if op == 'and':
        if isinstance(y, Poly):
            v = lookup(y)
            y = mask_fork(y, w) if v is None else v & M
        if y == 0:
            return 0
        if y == M:
            return x
    if op == 'xor':
        if isinstance(y, int) and y == 0:
            return x
        if same(y, x.a):
            return x.b
        if same(y, x.b):
            return x.a
        if isinstance(y, XorPair):
            if (same(x.a, y.a) and same(x.b, y.b)) or (same(x.a, y.b) and same(x.b, y.a)):
                return 0
    raise Inconclusive('unsupported use of xor of arithmetic values')


def disjoint_or(a, b, w):
    for x, y in ((a, b), (b, a)):
        # x multiple of 2^v, y in [0, 2^v)
        if isinstance(x, int):
            if x == 0:
                return y
            v = _v2(x)
        else:
            if not x.d:
                return y
            v = min(_v2(c) for c in x.d.values())
        if v == 0:
            continue
        if isinstance(y, int):
            if 0 <= y < (1 << v):
                return padd(x, y)
        else:
            l, h = y.iv
            if 0 <= l and h < (1 << v):
                return padd(x, y)
    return None


def wordc(p, w):
    if not p.d:
        return 0
    if len(p.d) == 1 and () in p.d:
        return p.d[()] & ((1 << w) - 1)
    return p


def icmp(pred, w, a, b):
    if isinstance(a, int) and isinstance(b, int):
        if pred == 'eq':
            return int(a == b)
        if pred == 'ne':
            return int(a != b)
        if pred[0] == 's':
            a, b = sx(a, w), sx(b, w)
        p = pred[1:]
        return int(a < b if p == 'lt' else a <= b if p == 'le' else a > b if p == 'gt' else a >= b)
    if a is UNDEF or b is UNDEF:
        return UNDEF
    if isinstance(a, (BT, Bits)) or isinstance(b, (BT, Bits)):
        return bt_map(lambda x, y: icmp(pred, w, x, y), bit_arg(a), bit_arg(b))
    if isinstance(a, Ptr) or isinstance(b, Ptr):
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.o == b.o:
                return icmp(pred, 64, a.off, b.off)
            if pred == 'eq':
                return 0
            if pred == 'ne':
                return 1
            if isinstance(a.o, int) and isinstance(b.o, int):
                return icmp(pred, 64, addr(a), addr(b))
            raise Inconclusive('order of unrelated pointers')
        p, c = (a, b) if isinstance(a, Ptr) else (b, a)
        if isinstance(c, int):
            if pred == 'eq':
                return 0
            if pred == 'ne':
                return 1
            # objects live far from address 0
            if c < 4096:
                big = 1 << 40
                return icmp(pred, 64, big if p is a else c, big if p is b else c)
        raise Inconclusive('pointer compare')
    if isinstance(a, Mux) or isinstance(b, Mux):
        if isinstance(a, (int, Mux, Poly)) and isinstance(b, (int, Mux, Poly)):
            r = mux_map2(lambda x, y: icmp(pred, w, x, y), a, b)
            return to_bool(r) if isinstance(r, Mux) else r
    if w == 1:
        x, y = to_bool(a), to_bool(b)
        if pred in ('eq', 'ne'):
            r = bool_bin('xor', x, y)
            return bool_bin('xor', r, 1) if pred == 'eq' else r
        if pred == 'ult':
            return bool_bin('and', bool_bin('xor', x, 1), y)
        if pred == 'ugt':
            return bool_bin('and', bool_bin('xor', y, 1), x)
        raise Inconclusive('i1 icmp ' + pred)
    if isinstance(a, Poly) or isinstance(b, Poly):
        if not (is_bv(a) or is_bv(b)):
            return poly_cmp(pred, w, a, b)
    x, y = to_bv(a, w), to_bv(b, w)
    if pred == 'eq':
        r = x == y
    elif pred == 'ne':
        r = x != y
    elif pred == 'ult':
        r = z3.ULT(x, y)
    elif pred == 'ule':
        r = z3.ULE(x, y)
    elif pred == 'ugt':
        r = z3.UGT(x, y)
    elif pred == 'uge':
        r = z3.UGE(x, y)
    elif pred == 'slt':
        r = x < y
    elif pred == 'sle':
        r = x <= y
    elif pred == 'sgt':
        r = x > y
    else:
        r = x >= y
    return simp(r)


def poly_cmp(pred, w, a, b):
    rd = signed if pred[0] == 's' else unsigned
    x, y = rd(a, w), rd(b, w)
    if isinstance(x, int) and isinstance(y, int):
        d = pconst(x - y)
    else:
        d = padd(x, y, -1)
    d = pcollapse(d)
    if isinstance(d, int):
        v = d
        return int({'eq': v == 0, 'ne': v != 0}.get(pred, None) if pred in ('eq', 'ne') else
                   (v < 0 if pred[1:] == 'lt' else v <= 0 if pred[1:] == 'le' else v > 0 if pred[1:] == 'gt' else v >= 0))
    lo, hi = d.iv
    z = pz3(d)
    if pred in ('eq', 'ne'):
        if lo > 0 or hi < 0:
            return int(pred == 'ne')
        r = PolyBool(d, z == 0)
        return r if pred == 'eq' else z3.Not(r)
    k = pred[1:]
    if k == 'lt':
        if hi < 0:
            return 1
        if lo >= 0:
            return 0
        return PolyBool(d, z < 0)
    if k == 'le':
        if hi <= 0:
            return 1
        if lo > 0:
            return 0
        return PolyBool(d, z <= 0)
    if k == 'gt':
        if lo > 0:
            return 1
        if hi <= 0:
            return 0
        return PolyBool(d, z > 0)
    if lo >= 0:
        return 1
    if hi < 0:
        return 0
    return PolyBool(d, z >= 0)


def cast(op, w, x, w2):
    if x is UNDEF:
        return UNDEF
    if isinstance(x, int):
        if op == 'sext':
            return sx(x, w) & ((1 << w2) - 1)
        return x & ((1 << w2) - 1)
    if isinstance(x, Ptr):
        return x
    if isinstance(x, Bits):
        e = list(x.b)
        return mkbits(e[:w2] + [e[-1] if op == 'sext' else 0] * max(0, w2 - w)) if op in ('trunc', 'zext', 'sext') else x
    if isinstance(x, BT):
        return bt_map(lambda v: cast(op, w, v, w2), bit_arg(x))
    if isinstance(x, Mux):
        return mux_norm(x.g, [cast(op, w, v, w2) for v in x.v])
    if isinstance(x, Poly):
        if op == 'trunc':
            return x
        if op == 'zext':
            return unsigned(x, w)
        if op == 'sext':
            s = signed(x, w)
            return s if not isinstance(s, int) else s & ((1 << w2) - 1)
        return x
    if isinstance(x, XorPair):
        raise Inconclusive('cast of xor')
    if is_bool(x):
        if op == 'zext':
            if w2 == 1:
                return x
            return z3.If(x, z3.BitVecVal(1, w2), z3.BitVecVal(0, w2))
        if op == 'sext':
            return z3.If(x, z3.BitVecVal(-1, w2), z3.BitVecVal(0, w2))
        return x
    if op == 'trunc':
        if w2 == 1:
            return to_bool(x)
        return simp(z3.Extract(w2 - 1, 0, x))
    if op == 'zext':
        return simp(z3.ZeroExt(w2 - w, x)) if w2 > w else x
    if op == 'sext':
        return simp(z3.SignExt(w2 - w, x)) if w2 > w else x
    return x


def select(c, a, b, w):
    """c is int or z3 Bool"""
    if isinstance(c, int):
        return a if c else b
    if type(a) is type(b) and isinstance(a, int) and a == b:
        return a
    if isinstance(a, (int, z3.BitVecRef, z3.BoolRef)) and isinstance(b, (int, z3.BitVecRef, z3.BoolRef)) and w:
        if w == 1:
            x = a if not isinstance(a, int) else z3.BoolVal(bool(a))
            y = b if not isinstance(b, int) else z3.BoolVal(bool(b))
            return simp(z3.If(c, x, y))
        if isinstance(a, int) and isinstance(b, int) and polys_of(c):
            return None     # an arithmetic condition choosing between constants: two paths
        return z3.If(c, to_bv(a, w), to_bv(b, w))
    return None

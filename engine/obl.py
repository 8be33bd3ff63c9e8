"""Obligation bookkeeping shared by all layers."""
import math
import time
import z3
from dom import *
import dom


class Failed(Exception):
    """an obligation the solver refuted (or whose normal form does not match); `probe` lists concrete
    candidates / a search routine the runner uses to replay natively"""

    def __init__(self, name, why, probe=None, facts=None):
        Exception.__init__(self, '%s: %s' % (name, why))
        self.name, self.why, self.probe, self.facts = name, why, probe, facts
        self._core = None

    def core(self):
        """the part of the counterexample that matters: {symbol: value} such that any completion of it still fails"""
        if self._core is None:
            self._core = {}
            try:
                self._core = essential([f for f in self.facts or [] if isinstance(f, z3.BoolRef)], self.probe)
            except z3.Z3Exception:
                pass
        return self._core


def essential(facts, model=None, budget=20):
    if not facts:
        return {}
    if not isinstance(model, z3.ModelRef):
        r, model = solve(facts, 20000)
        if r != 'sat':
            return {}
    t0 = time.time()
    lits = {}
    for d in model.decls():
        if d.arity() == 0 and (z3.is_bv_value(model[d]) or z3.is_true(model[d]) or z3.is_false(model[d])):
            c = d()
            if z3.is_bv(c) and c.size() > 8:
                for i in range(0, c.size(), 8):
                    e = z3.Extract(min(i + 7, c.size() - 1), i, c)
                    lits['%s[%d]' % (d.name(), i // 8)] = (e, model.eval(e))
            else:
                lits[d.name()] = (c, model[d])
    s = z3.Solver()
    s.set('timeout', 8000)
    s.add(z3.Not(z3.And(facts)))
    tr = {}
    for n, (c, v) in lits.items():
        b = z3.Bool('core!' + n)
        s.add(z3.Implies(b, c == v))
        tr[n] = b

    def need(names):
        if s.check([tr[n] for n in names]) != z3.unsat:
            return None
        ks = set(str(x)[5:] for x in s.unsat_core())
        return [n for n in names if n in ks]
    cur = need(list(lits))
    if cur is None:
        return {}
    for n in list(cur):
        if n not in cur or time.time() - t0 > budget:
            continue
        c = need([x for x in cur if x != n])
        if c is not None:
            cur = c
    val = lambda v: v.as_long() if z3.is_bv_value(v) else bool(z3.is_true(v))
    return {n: val(lits[n][1]) for n in cur}


class Log:
    def __init__(self):
        self.items = []
        self.funcs = {}
        self.stubs = {}
        self.bounds = []
        self.vac = 0
        self.paths = 0
        self.steps = 0

    def add(self, name, n=1):
        self.items.append(name)

    def take(self, E):
        for k, v in E.encoded.items():
            self.funcs[k] = self.funcs.get(k, 0) + v
        for k, v in E.stubbed.items():
            self.stubs[k] = self.stubs.get(k, 0) + v
        self.paths += E.paths
        self.steps += E.steps
        E.encoded, E.stubbed, E.paths, E.steps = {}, {}, 0, 0


LOG = Log()


def prove(name, cs, neg, timeout=120000):
    """unsat(cs and neg) or Failed / Inconclusive"""
    r, m = solve(list(cs) + [neg], timeout)
    if r == 'unsat':
        LOG.add(name)
        return
    if r == 'sat':
        raise Failed(name, 'the solver found values violating it', m, list(cs) + [neg])
    raise Inconclusive('solver gave up on ' + name)


def witness(name, cs, timeout=60000):
    """vacuity check: the assumptions are satisfiable"""
    r, m = solve(list(cs), timeout)
    LOG.vac += 1
    if r == 'unsat':
        raise Inconclusive('vacuous: ' + name)
    return m


def unfold_exact(p, mod):
    """(N, f): N*p = f, every remainder and exact quotient replaced through its definition; N a power of two"""
    d = dict(p.d) if isinstance(p, Poly) else {(): p}
    N = 1
    while True:
        best = -1
        for m in d:
            for a in m:
                if a > best:
                    df = A.defn[a]
                    if df and df[0] == 'div' and (df[4] == a or (df[3] == a and A.lo[df[4]] == A.hi[df[4]])):
                        best = a
        if best < 0:
            return N, Poly(d)
        df = A.defn[best]
        if df[4] == best:
            rep, sc = padd(df[1], Poly({(df[3],): -(1 << df[2])})), 1
        else:
            rep, sc = padd(df[1], -A.lo[df[4]]), 1 << df[2]
        deg = max(m.count(best) for m in d)
        nd = {}
        for m, c in d.items():
            n = m.count(best)
            c *= sc ** (deg - n)
            if not n:
                nd[m] = nd.get(m, 0) + c
                continue
            t = Poly({tuple(x for x in m if x != best): c})
            for _ in range(n):
                t = pmul(t, rep)
            for m2, c2 in t.d.items():
                nd[m2] = nd.get(m2, 0) + c2
        N *= sc ** deg
        d = {m: c for m, c in nd.items() if c}


def prove_congruent(name, g, mod, st=None):
    """g == 0 (mod mod) for every value of the atoms on this path: explicit cofactor, decided by the solver;
    a dropped carry is allowed only if the solver proves the combination of carries to be zero"""
    g = P(g)
    N, u = unfold_exact(g, mod)
    bad = {m: c % mod for m, c in u.d.items() if c % mod}
    pcp, pc = (st.pcpolys, st.pc) if st is not None else ([], [])
    pinned, known = pconst(0), []
    rest = pconst(0)

    def carries(bad):
        """(l, c0): the leftover is c0*l modulo mod, with small coefficients"""
        if any(len(m) > 1 for m in bad) or len(bad) > 60:
            return None
        ms = sorted(bad)
        for m0 in [m for m in ms if m][:4] + [None]:
            c0 = bad[m0] if m0 is not None else 1
            inv0 = pow(c0, -1, mod) if math.gcd(c0, mod) == 1 else None
            ks = {m: (bad[m] * inv0 + mod // 2) % mod - mod // 2 for m in ms} if inv0 is not None else None
            if ks and max(map(abs, ks.values())) <= 1 << (40 if m0 is None else 20):
                return Poly(ks), c0
        return None

    def vanish(bad, exact):
        lc = carries(bad)
        if lc is None:
            return None, 'not congruent: %d terms are left over' % len(bad), None
        l, c0 = lc
        r, m = psolve([l] + list(pcp), pc, [pz3(l) != 0], 60000, exact)
        if r == 'unsat':
            LOG.add(name + ' (no carry lost)')
            return pscale(l, c0), None, None
        return None, ('a carry is lost' if r == 'sat' else None), m

    if bad:
        rs, why, m = vanish(bad, not pc)
        if rs is None and pc:
            # bits the path condition fixes
            for m in [m for m in bad if len(m) == 1 and A.hi[m[0]] - A.lo[m[0]] == 1]:
                a = m[0]
                for v in (A.lo[a], A.hi[a]):
                    if psolve([Poly({m: 1})] + list(pcp), pc, [A.z(a) != v], 10000, False)[0] == 'unsat':
                        pinned = padd(pinned, padd(Poly({m: u.d[m]}), pconst(u.d[m] * v), -1))
                        known.append(A.z(a) == v)
                        LOG.add(name + ' (a bit fixed by the path)')
                        break
            u = padd(u, pinned, -1)
            bad = {m: c % mod for m, c in u.d.items() if c % mod}
            rs, why, m = vanish(bad, True) if bad else (pconst(0), None, None)
        if rs is None:
            if why:
                raise Failed(name, why, m)
            raise Inconclusive('solver gave up on a carry of ' + name)
        # N*g = mod*K + rest  with rest = 0
        rest = rs
        u = padd(u, rest, -1)
        if any(c % mod for c in u.d.values()):
            raise Failed(name, 'not congruent')
    K = Poly({m: c // mod for m, c in u.d.items()})
    cs = [c for c in constraints([g, K, rest]) if c.decl().kind() == z3.Z3_OP_EQ]
    cs += [A.z(a) == A.lo[a] for a in closure([g, K, rest])[0] if A.lo[a] == A.hi[a]] + known
    rest = padd(rest, pinned)
    prove(name, cs, N * pz3(g) != mod * pz3(K) + pz3(rest))
    return K


def prove_range(name, p, lo, hi, st=None, timeout=120000):
    p = pcollapse(P(p))
    if isinstance(p, int):
        if not lo <= p <= hi:
            raise Failed(name, 'value %d out of range' % p)
        return
    l, h = p.iv
    if lo <= l and h <= hi:
        return
    pcp, pc = (st.pcpolys, st.pc) if st is not None else ([], [])
    z = pz3(p)
    r, m = psolve([p] + list(pcp), pc, [z3.Or(z < lo, z > hi)], timeout)
    if r == 'unsat':
        LOG.add(name)
        return
    if r == 'sat':
        raise Failed(name, 'the solver found values out of range', m)
    raise Inconclusive('solver gave up on ' + name)


def V(ls, radix):
    s = {}
    for i, x in enumerate(ls):
        for m, c in P(x).d.items():
            v = s.get(m, 0) + (c << (radix * i))
            if v:
                s[m] = v
            else:
                s.pop(m, None)
    return Poly(s)

"""Histories: what an operation does after earlier calls."""
import json
from proto import *
import proto


def refs(x, out):
    if isinstance(x, str):
        if x[:1] == '@':
            out.add(x)
    elif isinstance(x, (tuple, list)):
        for y in x:
            refs(y, out)
    elif isinstance(x, dict):
        for y in x.values():
            refs(y, out)


def reach(m, name):
    """everything a function can reach: called functions, tables, static variables"""
    seen, todo = set(), [name]
    memo = m.__dict__.setdefault('_refs', {})
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if x not in memo:
            r = set()
            if x in m.funcs:
                refs(m.funcs[x].blocks, r)
            elif x in m.globals and m.globals[x][0] == 'init':
                refs(m.globals[x][2], r)
            memo[x] = r
        todo += memo[x]
    return seen


def statics(ctx, name):
    """variable static storage a function can reach"""
    g = ctx.m.globals
    return sorted(x for x in reach(ctx.m, name) if x in g and g[x][0] == 'init' and not g[x][3])


OPS = {
    'derive': lambda W, **k: derive_run(W, 'vh_derive', **k),
    'sign': lambda W, **k: sign_run(W, 3, **k),
    'verify': lambda W, **k: verify_run(W, 57, 114, 3, **k),
    'verify_with_error': lambda W, **k: verify_run(W, 57, 114, 3, 'vh_verify_err', **k),
}
ENTRY = {'derive': 'vh_derive', 'sign': 'vh_sign', 'verify': 'vh_verify', 'verify_with_error': 'vh_verify_err'}


class HWorld(World):
    """contracts stand only for functions without static variables"""

    def contracts(self):
        r = World.contracts(self)
        names = {ir.demangle(n): n for n in self.ctx.m.funcs}
        return {p: c for p, c in r.items() if p not in names or not statics(self.ctx, names[p])}


def historyspec(ctx, first, depth=1):
    def go():
        W = HWorld(ctx)
        W.wide = True
        states = [(None, None)]
        for d in range(depth):
            nxt = []
            for E, st in states:
                E, outs = OPS[first](W, sfx='' if d == 0 else 'abc'[d - 1], E=E, state=st)
                for o, _ in outs:
                    if E.statics(o.state):
                        nxt.append((E, o.state))
            # nothing written: every later call starts from the initial state again
            states = nxt
        for E, st in states:
            for snd in OPS:
                s2 = st.clone()
                s2.frames = []
                OPS[snd](W, sfx='z', E=E, state=s2)
        return True
    return ctx.memo(('history', first, depth), lambda: quietly(go))


# ---------------------------------------------------------------- native confirmation
@oracle('history')
def o_history(nat, c):
    """the calls one after another in a process of their own"""
    import os
    import pickle
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            msg = None
            for i, op in enumerate(c['calls']):
                msg = proto.o_proto(nat, op)
                if msg:
                    msg = 'call %d of %d: %s' % (i + 1, len(c['calls']), msg)
                    break
            os.write(wr, json.dumps(msg).encode())
        except BaseException:
            pass
        os._exit(0)
    os.close(wr)
    b = b''
    while True:
        x = os.read(rd, 65536)
        if not x:
            break
        b += x
    os.close(rd)
    os.waitpid(pid, 0)
    return json.loads(b) if b else 'the calls end the process'


def near(bs, rng, k=3):
    """byte strings that differ from bs in one place"""
    out = []
    for j in [0, len(bs) - 1, len(bs) // 2] + [rng.randrange(len(bs)) for _ in range(k)] if bs else []:
        out.append(bs[:j] + bytes([bs[j] ^ (1 << rng.randrange(8))]) + bs[j + 1:])
    return out


def hist_cases(ops=tuple(OPS)):
    def g(ctx, exc):
        rng = random.Random(77)
        fm = lambda name, n: from_model(exc, name, n, rng)
        fv = lambda fn, a, b, c: {'fn': fn, 'p': a.hex(), 's': b.hex(), 'm': c.hex()}
        for rep in range(12):
            k, m = rng.randbytes(57), rng.randbytes(3)
            if rep % 3 == 0:
                k, m = fm('k', 57), fm('m', 3)
            keys = [k] + near(k, rng) + [k[:56] + bytes([k[56] ^ 0x80]), fm('kz', 57), rng.randbytes(57), k[:32] + rng.randbytes(25), rng.randbytes(32) + k[32:], rng.randbytes(56) + k[56:]]
            msgs = [m] + near(m, rng, 0) + [b'', m + b'x', rng.randbytes(3)]
            D = [{'fn': 'vh_derive', 'k': x.hex()} for x in keys]
            S = [{'fn': 'vh_sign', 'k': x.hex(), 'm': y.hex()} for x in keys[:7] for y in msgs[:3]]
            rows = []
            for x in (k, keys[-1], keys[1]):
                pk, sg = ref.public(x), ref.sign(x, m)
                rows += [(pk, sg, m), (pk, sg, msgs[1]), (pk, sg, b''), (pk, sg[:57] + rng.randrange(q).to_bytes(57, 'little'), m), (pk, rng.randbytes(57) + sg[57:], m)]
                rows += [(ref.public(rng.randbytes(57)), sg, m), (pk, ref.sign(x, b'other'), b'other'), (pk, ref.sign(x, b'other'), m)]
                rows += [(near(pk, rng)[0], sg, m), (pk, near(sg, rng)[0], m), (pk, near(sg, rng)[1], m), (bytes(57), sg, m), (pk[:56], sg, m), (pk, sg[:113], m)]
            V = [fv(f, *r) for r in rows for f in ('vh_verify', 'vh_verify_err')]
            pool = {'derive': D, 'sign': S, 'verify': V[::2], 'verify_with_error': V[1::2]}
            # pairs
            for a in ops:
                for b in OPS:
                    for x in pool[a][:4]:
                        for y in rng.sample(pool[b], min(8, len(pool[b]))) + pool[b][:3]:
                            yield {'calls': [x, y]}
            # longer ones
            for _ in range(30):
                allp = D + S + V
                yield {'calls': [rng.choice(allp) for _ in range(12)]}
                x = rng.choice(allp)
                yield {'calls': [x, rng.choice(allp), x, rng.choice(D[:3] + S[:3]), x]}
    return ('history', g)


def tasks(ctx, ops=tuple(OPS)):
    T = []
    for f in ops:
        T.append(Task('calls after %s' % f, lambda c, f=f: historyspec(c, f, 1), [hist_cases((f,))], bounds='two calls, all inputs of both (messages of 3 bytes)'))
    if ctx.thorough:
        for f in ops:
            T.append(Task('calls after two of %s' % f, lambda c, f=f: historyspec(c, f, 2), [hist_cases((f,))], bounds='three calls, all inputs'))
    return T


def tasks_derive(ctx):
    return tasks(ctx, ('derive',))


def tasks_sign(ctx):
    return tasks(ctx, ('sign',))


def tasks_verify(ctx):
    return tasks(ctx, ('verify', 'verify_with_error'))

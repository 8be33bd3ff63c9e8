"""Agreement of the executor with the native build: the same functions on the same concrete inputs, through both."""
from smul import *
import obl
from scal import SC

REC = EP + 'recode_wnaf'


def table():
    """(path, [argument kinds]): 'o<n>' output buffer, 'f' field element, 's' scalar, 'e' point, 'n' Niels point,
    'b<n>' n bytes, integer"""
    t = []
    for f in ('mul', 'square', 'add', 'sub', 'neg', 'strong_reduce'):
        t.append((BN + f, ['o64'] + ['f'] * (2 if f in ('mul', 'add', 'sub') else 1)))
    for f in ('add', 'sub', 'mul', 'halve'):
        t.append((SC + f, ['o56'] + ['s'] * (1 if f == 'halve' else 2)))
    t.append((SC + 'decode_long', ['o56', 'b57', 57]))
    t.append((SC + 'decode_long', ['o56', 'b114', 114]))
    t.append((SC + 'encode', ['o57', 's']))
    t.append((BN + 'dsa_like_serialize', ['o56', 'f']))
    t.append((TE + 'double_internal', ['e', 0]))
    t.append((TE + 'double_internal', ['e', 1]))
    t.append((TE + 'add_niels_to_extended', ['e', 'n', 0]))
    t.append((TE + 'sub_niels_from_extended_point', ['e', 'n', 1]))
    t.append((TE + 'to_projected_niels', ['o256', 'e']))
    t.append(('vh_hex_to_private_key', ['h114', 114, 'o57']))
    t.append(('vh_hex_to_message_hash', ['h64', 64, 'o32']))
    t.append(('vh_eq_secret', ['b57', 'b57']))
    t.append((TE + 'eddsa_like_encode', ['o57', 'e']))
    t.append((PSM, ['o256', 's']))
    t.append(('vh_derive', ['b57', 'o57']))
    t.append(('vh_sign', ['b57', 'b33', 33, 'o114']))
    return t


def agree(ctx, k):
    path, sh = table()[k]
    rng = random.Random(1000 + k + ctx.seed)
    if not has(ctx.m, path, ''.join('i' if isinstance(a, int) else 'p' for a in sh)):
        raise Absent(path)
    for rnd in range(2):
        nat, sym = [], []
        for a in sh:
            if isinstance(a, int):
                b = a
            elif a[0] == 'o':
                b = bytes(int(a[1:]))
            elif a[0] == 'f':
                b = pack([rng.choice((rng.getrandbits(28), 2**28 - 1)) for _ in range(16)])
            elif a[0] == 's':
                b = rng.randrange(q).to_bytes(56, 'little')
            elif a[0] == 'e':
                b = pack([rng.getrandbits(28) for _ in range(64)])
            elif a[0] == 'n':
                b = pack([rng.getrandbits(28) for _ in range(48)])
            elif a[0] == 'h':
                b = ''.join(rng.choice('0123456789abcdef') for _ in range(int(a[1:]))).encode()
            else:
                b = rng.randbytes(int(a[1:]))
            nat.append(b)
            if isinstance(b, int):
                sym.append(b)
            elif isinstance(a, str) and a[0] == 'o':
                sym.append(Out(len(b)))
            elif isinstance(a, str) and a[0] in 'bh':
                sym.append(Mem(list(b), 1))
            else:
                sym.append(list(unpack(b)))
        void = path != 'vh_eq_secret'
        r, bufs = ctx.nat.call(path, nat)
        E = Engine(ctx.m, {})
        outs = execute(E, path, sym)
        if len(outs) != 1:
            raise Inconclusive('concrete run of %s forks' % path)
        o, ptrs = outs[0]
        for a, b, pt in zip(sh, bufs, ptrs):
            if pt is None:
                continue
            got = bytes(o.state.mem[pt.o].byte(i) if isinstance(o.state.mem[pt.o].byte(i), int) else 0 for i in range(len(b)))
            if got != b:
                raise Failed(path, 'the executor and the native build disagree')
        if not void and (o.value & 0xffffffff) != r:
            raise Failed(path, 'the executor and the native build disagree')
        obl.LOG.vac += 1
    return True


def some(ks):
    def go(c):
        for k in ks:
            try:
                quietly(lambda: agree(c, k))
            except Absent:
                pass
    return go


def tasks(ctx):
    ks = [k for k, (p, _) in enumerate(table()) if p not in (PSM, 'vh_derive', 'vh_sign')]
    return [Task('executor agrees with the native build', some(ks), [], bounds='two concrete inputs for each of %d functions' % len(ks))]


def tasks_whole(ctx):
    """whole operations, the Keccak permutation included"""
    return [Task('executor agrees with the native build on %s' % p, some([k]), [], bounds='two concrete inputs')
            for k, (p, _) in enumerate(table()) if p in (PSM, 'vh_derive', 'vh_sign')]

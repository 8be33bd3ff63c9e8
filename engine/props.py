"""Which obligations decide which property (each property runs its whole dependency cone)."""
import importlib

TRUST = ['rustc nightly -> LLVM IR (debug profile, overflow checks on) and llvm-link/opt (sroa, simplifycfg, early-cse, dce)',
         'the symbolic executor in /verif/engine (each run compares it with the native build on concrete inputs)', 'z3']

LAYERS = {
    'P09': [('field', 'tasks_arith')],
    'P10': [('field', 'tasks_canon')],
    'P11': [('field', 'tasks_pow'), ('field', 'tasks_arith')],
    'P12': [('scal', 'tasks_arith')],
    'P13': [('scal', 'tasks_codec'), ('scal', 'tasks_arith')],
    'P14': [('points', 'tasks'), ('field', 'tasks_arith'), ('field', 'tasks_canon')],
    'P15': [('smul', 'tasks_fixed'), ('points', 'tasks'), ('scal', 'tasks_arith'), ('field', 'tasks_arith')],
    'P16': [('smul', 'tasks_var'), ('points', 'tasks'), ('scal', 'tasks_arith'), ('field', 'tasks_arith')],
    'P17': [('smul', 'tasks_dbl'), ('points', 'tasks'), ('field', 'tasks_arith')],
}
F = [('field', 'tasks_arith'), ('field', 'tasks_canon'), ('field', 'tasks_pow')]
SCL = [('scal', 'tasks_codec'), ('scal', 'tasks_arith')]
ENC = [('codec', 'tasks_enc')] + F
DEC = [('codec', 'tasks_dec'), ('smul', 'tasks_var'), ('points', 'tasks')] + SCL + F
FIX = [('smul', 'tasks_fixed'), ('points', 'tasks')] + SCL + F
DBL = [('smul', 'tasks_dbl'), ('points', 'tasks')] + F
LAYERS.update({
    'P01': DBL + FIX + ENC + DEC + [('proto', 'tasks_round')],
    'P02': FIX + ENC + [('proto', 'tasks_derive')],
    'P03': FIX + ENC + [('proto', 'tasks_sign')],
    'P04': DBL + DEC + [('proto', 'tasks_verify')],
    'P05': DBL + DEC + [('proto', 'tasks_agree')],
    'P06': DEC,
    'P07': [('codec', 'tasks_dec'), ('smul', 'tasks_var'), ('points', 'tasks')] + SCL + ENC,
    'P08': SCL + [('proto', 'tasks_agree')],
    'P18': [('proto', 'tasks_hash')],
    'P21': [('proto', 'tasks_agree')],
    'P19': [('keys', 'tasks_text')],
    'P20': [('keys', 'tasks_build')],
    'P23': [('keys', 'tasks_random')],
    'P24': [('keys', 'tasks_hex')],
    'P22': [('proto', 'tasks_secret')],
    'P25': [('keys', 'tasks_eq')],
})
LAYERS['P26'] = [('points', 'tasks_pred')] + F
LAYERS['P27'] = [('hist', 'tasks')]
LAYERS['P01'] += [('hist', 'tasks')]
LAYERS['P02'] += [('hist', 'tasks_derive')]
LAYERS['P03'] += [('hist', 'tasks_sign')]
LAYERS['P04'] += [('hist', 'tasks_verify')]
for _p in LAYERS:
    LAYERS[_p] = LAYERS[_p] + [('valid', 'tasks')] + ([('valid', 'tasks_whole')] if _p in ('P02', 'P03') else [])
ASSUME = {}


def tasks(ctx, pid):
    out, seen = [], set()
    for mod, fn in LAYERS[pid]:
        for t in getattr(importlib.import_module(mod), fn)(ctx):
            if t.name not in seen:
                seen.add(t.name)
                out.append(t)
    # the slow ones (long messages) first
    long = [t for t in out if any(n in t.name for n in ('65535', '65536', '65537', '70000', '32768'))]
    for t in long:
        t.limit = t.limit or 600
    return long + [t for t in out if t not in long]


def load(oracle):
    """import the module that defines an oracle"""
    import run
    for ls in LAYERS.values():
        for mod, _ in ls:
            importlib.import_module(mod)
    if oracle not in run.ORACLES:
        raise KeyError(oracle)


TECH, NA = {}, {}
LIMITS = 'solver verdict for every value within the stated bounds; trusts rustc/LLVM, the executor and z3; '
NOTE = {
    'P09': LIMITS + 'all limb vectors up to the stated multiple of 2^28+2^12 (the ranges the library uses)',
    'P10': LIMITS + 'all limb vectors up to the stated multiple of 2^28+2^12, all 57-byte strings',
    'P11': LIMITS + 'exponents tracked through the real addition chain over verified multiplication; Fermat/Euler criterion are mathematics, not checked',
    'P12': LIMITS + 'all operands below the group order (first factor of a product: any 448-bit integer)',
    'P13': LIMITS + 'every byte string of the listed lengths (quick: 39 lengths up to 225, thorough: all lengths below 260)',
    'P14': LIMITS + 'every pair of points in every projective representation, coordinates within the limb ranges the library keeps; completeness of the twisted Edwards addition law on this group is mathematics',
    'P15': LIMITS + 'all 446 scalar bits symbolic, every comb table entry; points identified up to the 2-torsion point that encoding and comparison ignore',
    'P16': LIMITS + 'all 446 scalar bits symbolic, every point in every representation; points identified up to the 2-torsion point that encoding and comparison ignore',
    'P17': LIMITS + 'windows of up to 10 symbolic bits of either scalar (or 8+6 jointly) over several dense backgrounds, not all 892 bits at once; every point; all odd-multiple table entries',
    'P01': LIMITS + 'all keys of both kinds, all messages of the listed lengths; Keccak-f uninterpreted; arithmetic through the contracts discharged in the same run, double-scalar multiplication within the bounds of P17',
    'P02': LIMITS + 'all 57-byte keys; Keccak-f uninterpreted; arithmetic through the contracts discharged in the same run',
    'P03': LIMITS + 'all keys of both kinds, all messages of the listed lengths (around every block boundary up to 300, then up to 4097 bytes; more in thorough); Keccak-f uninterpreted; arithmetic through the contracts discharged in the same run',
    'P04': LIMITS + 'all 57-byte public keys, 114-byte signatures and messages of the listed lengths; Keccak-f uninterpreted; double-scalar multiplication within the bounds of P17',
    'P05': LIMITS + 'all contents for the listed lengths (public keys 0..69 and some longer, signatures 0..129 and some longer); Keccak-f uninterpreted',
    'P06': LIMITS + 'all 57-byte strings, other lengths up to 256',
    'P07': LIMITS + 'every point of the group in every projective representation, coordinates within the limb ranges the library keeps',
    'P08': LIMITS + 'all contents for the listed lengths; Keccak-f uninterpreted, points and scalars through contracts',
    'P18': LIMITS + 'all contents for the listed lengths (block boundaries, up to 4097 bytes); Keccak-f itself is the trusted keccak crate',
    'P21': LIMITS + 'all contents for the listed lengths; Keccak-f uninterpreted, points and scalars through contracts',
    'P22': LIMITS + 'all 57-byte keys; Keccak-f uninterpreted, points and scalars through contracts',
    'P19': LIMITS + 'all keys; all strings of 114 bytes and of the listed other lengths; the serde data format is a minimal string format of ours',
    'P20': LIMITS + 'all 57-byte keys, all contents of the listed other lengths, messages of the listed lengths; Keccak-f uninterpreted, points and scalars through contracts',
    'P23': LIMITS + 'every output of the generator; the generator itself (rand) is trusted to be uniform',
    'P25': LIMITS + 'all pairs of 57-byte keys; Keccak-f uninterpreted, points and scalars through contracts',
    'P26': LIMITS + 'every pair of points of the group in every projective representation; every coordinate quadruple within the limb ranges the library keeps',
    'P24': LIMITS + 'all strings of the right length and of the listed other lengths',
}
NOTE['P27'] = LIMITS + 'sequences of two calls (thorough: three), all inputs of each, messages of 3 bytes; a path that writes no static variable leaves every later call in the initial state'

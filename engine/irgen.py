"""Build /repo's current working tree (through the harness crate) twice from the same sources:
as LLVM IR for the symbolic executor and as a cdylib for native replay."""
import os
import glob
import shutil
import subprocess
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
FLAGS = ('-Zshare-generics=no -Ccodegen-units=1 -Cdebuginfo=0 -Zinline-mir=yes -Zinline-mir-threshold=0 '
         '-Zinline-mir-hint-threshold=200 -Zmir-opt-level=2 -Cpanic=abort -Csymbol-mangling-version=v0')
PASSES = 'function(sroa,simplifycfg,early-cse,sroa,dce),globaldce'


class BuildError(Exception):
    pass


def env():
    e = dict(os.environ)
    e['HOME'] = '/root'
    e['PATH'] = '/usr/local/bin:/root/.cargo/bin:' + e.get('PATH', '')
    e['CARGO_NET_OFFLINE'] = 'true'
    e['CARGO_INCREMENTAL'] = '0'
    e['CARGO_TERM_COLOR'] = 'never'
    e.pop('RUSTC_WRAPPER', None)
    e.pop('RUSTUP_TOOLCHAIN', None)
    return e


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        raise BuildError('%s\n%s' % (' '.join(cmd), r.stdout[-4000:]))
    return r.stdout


def build(work):
    """returns dict(ll=path, so=path, seconds=...)"""
    t0 = time.time()
    e = env()
    src = os.path.join(work, 'harness')
    shutil.copytree(os.path.join(VERIF, 'harness'), src, ignore=shutil.ignore_patterns('target'))
    sysroot = run(['rustc', '+nightly', '--print', 'sysroot'], env=e).strip()
    bin_ = os.path.join(sysroot, 'lib/rustlib/x86_64-unknown-linux-gnu/bin')
    ei = dict(e)
    ei['RUSTFLAGS'] = '--emit=llvm-ir ' + FLAGS
    ei['CARGO_TARGET_DIR'] = os.path.join(work, 'tir')
    en = dict(e)
    en['RUSTFLAGS'] = FLAGS
    en['CARGO_TARGET_DIR'] = os.path.join(work, 'tso')
    cmd = ['cargo', '+nightly', 'build', '--offline', '--lib', '--quiet']
    ps = [subprocess.Popen(cmd, cwd=src, env=x, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True) for x in (ei, en)]
    outs = [p.communicate()[0] for p in ps]
    for p, o in zip(ps, outs):
        if p.returncode:
            raise BuildError('cargo build failed\n' + o[-4000:])
    lls = []
    for pat in ('**/*.ll',):
        lls += glob.glob(os.path.join(ei['CARGO_TARGET_DIR'], pat), recursive=True)
    want = {}
    for f in lls:
        b = os.path.basename(f)
        name = b[:-3].split('-')[0]
        if name in ('vharness', 'libgoldilocks', 'hex', 'sha3', 'digest', 'block_buffer', 'crypto_common', 'generic_array', 'rand',
                    'rand_core', 'serdect', 'serde', 'serde_core', 'base16ct', 'keccak', 'typenum'):
            want[b] = f
    lls = sorted(want.values())
    linked = os.path.join(work, 'all.bc')
    run([os.path.join(bin_, 'llvm-link'), '-o', linked, *lls], env=e)
    out = os.path.join(work, 'all.ll')
    run([os.path.join(bin_, 'opt'), '-S', '-passes=' + PASSES, '-o', out, linked], env=e)
    so = glob.glob(os.path.join(en['CARGO_TARGET_DIR'], 'debug', 'libvharness.so'))
    return {'ll': out, 'so': so[0], 'seconds': time.time() - t0, 'units': [os.path.basename(x) for x in lls]}


if __name__ == '__main__':
    import sys
    w = sys.argv[1] if len(sys.argv) > 1 else tempfile.mkdtemp(prefix='vbuild')
    os.makedirs(w, exist_ok=True)
    print(build(w))

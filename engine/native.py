"""Native replay: call functions of the freshly built cdylib (exported wrappers and, through the
symbol table, internal functions) in a forked child so that panics only end the child."""
import ctypes
import os
import pickle
import signal
import subprocess
import select
import ir


class Native:
    def __init__(self, so):
        self.so = so
        self.off = {}
        self.paths = {}
        out = subprocess.run(['nm', so], stdout=subprocess.PIPE, text=True).stdout
        for l in out.splitlines():
            f = l.split()
            if len(f) == 3 and f[1] in 'tTwW':
                self.off[f[2]] = int(f[0], 16)
        self.lib = None

    def load(self):
        if self.lib is None:
            self.lib = ctypes.CDLL(self.so)
            self.base = ctypes.cast(self.lib.vh_derive, ctypes.c_void_p).value - self.off['vh_derive']
            for n in self.off:
                if n.startswith('_R'):
                    self.paths.setdefault(ir.demangle('@' + n), []).append(n)
        return self

    def has(self, path):
        self.load()
        return len(self.paths.get(path, [])) == 1 or path in self.off

    def addr(self, path):
        self.load()
        if path in self.off:
            return self.base + self.off[path]
        c = self.paths.get(path, [])
        if len(c) != 1:
            raise KeyError('%s: %d symbols' % (path, len(c)))
        return self.base + self.off[c[0]]

    def call(self, path, args, ret=ctypes.c_uint32):
        """in-process call; bytearrays/bytes become buffers, ints u64. returns (ret, [buffers])"""
        self.load()
        bufs = []
        cargs = []
        for a in args:
            if isinstance(a, (bytes, bytearray)):
                b = ctypes.create_string_buffer(bytes(a), max(len(a), 1))
                bufs.append((b, len(a)))
                cargs.append(ctypes.cast(b, ctypes.c_void_p))
            else:
                bufs.append(None)
                cargs.append(ctypes.c_uint64(a))
        f = ctypes.CFUNCTYPE(ret, *[ctypes.c_void_p if x is not None else ctypes.c_uint64 for x in bufs])(self.addr(path))
        r = f(*cargs)
        return r, [b[0].raw[:b[1]] if b is not None else None for b in bufs]

    def batch(self, calls, timeout=60):
        """run calls in forked children; returns list of ('ok',ret,bufs) | ('panic',sig) | ('timeout',)"""
        res = [None] * len(calls)
        i = 0
        self.load()
        while i < len(calls):
            rd, wr = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(rd)
                    dn = os.open('/dev/null', os.O_WRONLY)
                    os.dup2(dn, 2)
                    os.dup2(dn, 1)
                    w = os.fdopen(wr, 'wb')
                    for j in range(i, len(calls)):
                        c = calls[j]
                        pickle.dump((j, self.call(*c)), w)
                        w.flush()
                finally:
                    os._exit(0)
            os.close(wr)
            r = os.fdopen(rd, 'rb')
            last = i - 1
            dead = None
            while True:
                if not select.select([r], [], [], timeout)[0]:
                    os.kill(pid, signal.SIGKILL)
                    dead = ('timeout',)
                    break
                try:
                    j, v = pickle.load(r)
                except EOFError:
                    break
                res[j] = ('ok',) + v
                last = j
            r.close()
            _, stt = os.waitpid(pid, 0)
            if last + 1 < len(calls):
                res[last + 1] = dead or ('panic', stt & 127)
            i = last + 2
        return res

    def one(self, path, args, ret=ctypes.c_uint32):
        return self.batch([(path, args, ret)])[0]


def limbs(bs, n=4):
    return [int.from_bytes(bs[i:i + n], 'little') for i in range(0, len(bs), n)]


def pack(ls, n=4):
    return b''.join(x.to_bytes(n, 'little') for x in ls)

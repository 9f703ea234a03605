"""The subjects of kv/subjects.py on the real library, over an allocator that fails on demand and logs what is freed."""
import ctypes
import hashlib
import os
import subprocess
from . import ir, lib, native
from .scen import Mismatch

VP = ctypes.c_void_p
_L = None


def secret(tag):
    return 'key' in tag or not any(x in tag for x in ('iv', 'salt', 'tweak'))


def path():
    p = os.path.join(lib.scratch(), 'libkripto_alloc.so')
    if not os.path.exists(p):
        tmp = p + '.%d' % os.getpid()
        a = tmp + '.o'
        subprocess.run(['gcc', '-O2', '-fPIC', '-c', os.path.join(os.path.dirname(__file__), 'alloc.c'), '-o', a], check=True)
        native.build(tmp, ['-Dmalloc=kv_malloc', '-Dfree=kv_free', '-Dcalloc=kv_calloc', '-Drealloc=kv_realloc', a])
        os.replace(tmp, p)
    return p


def load():
    global _L
    if _L is None:
        _L = native.bind(ctypes.CDLL(path()))
        u, z = ctypes.c_uint, ctypes.c_size_t
        _L.kv_log.restype = VP
        for nm, a in (('kripto_pbkdf2', [VP, u, u, VP, u, VP, u, VP, z]),
                      ('kripto_scrypt', [VP, u, ctypes.c_uint64, ctypes.c_uint32, ctypes.c_uint32, VP, u, VP, u, VP, z])):
            f = getattr(_L, nm)
            f.restype, f.argtypes = ctypes.c_int, a
    return _L


def var(L, n):
    return ctypes.c_int.in_dll(L, n)


class N:
    """the calls of a Subject on the real library"""

    def __init__(self, L, seed=0, alloc=True):
        self.L = L
        self.seed = seed
        self.keep = []
        if alloc:
            L.kv_reset()

    def __call__(self, fn, *args):
        f = getattr(self.L, fn)
        if f.argtypes is None:
            f.restype = VP
            f.argtypes = [VP] * len(args)
        v = f(*args)
        return v or 0

    def desc(self, sym):
        return VP.in_dll(self.L, sym).value

    def raw(self, n):
        b = ctypes.create_string_buffer(b'\xc3' * (n + 64), n + 64)
        self.keep.append((b, n))
        return b, ctypes.addressof(b) + 32

    def data(self, tag, n):
        seed = '%s:%d' % (tag, self.seed if secret(tag) else 0)
        r = b''
        i = 0
        while len(r) < n:
            r += hashlib.sha256(('%s:%d' % (seed, i)).encode()).digest()
            i += 1
        return r[:n]

    def inbuf(self, tag, cells):
        b, p = self.raw(len(cells))
        ctypes.memmove(p, bytes(cells), len(cells))
        self.keep[-1] += (bytes(cells),)
        return p

    def out(self, n, name=''):
        return self.raw(n)[1]

    def get(self, p, n):
        return ctypes.string_at(p, n)

    def guards(self):
        for k in self.keep:
            b, n = k[:2]
            if b.raw[:32] != b'\xc3' * 32 or b.raw[32 + n:] != b'\xc3' * 32:
                return 'bytes outside a buffer of %d bytes were written' % n
            if len(k) > 2 and b.raw[32:32 + n] != k[2]:
                return 'an input of %d bytes was changed' % n
        return None

    def state(self):
        e = {0: None, 1: 'double free', 2: 'free of something not allocated', 3: 'freed memory written'}[self.L.kv_check()]
        return e

    def live(self):
        return var(self.L, 'kv_live').value

    def count(self):
        return var(self.L, 'kv_count').value

    def fail(self, k):
        var(self.L, 'kv_fail').value = k

    def log(self):
        n = ctypes.c_size_t.in_dll(self.L, 'kv_loglen').value
        return ctypes.string_at(self.L.kv_log(), n)


def entries(log):
    i = 0
    out = []
    while i < len(log):
        h = int.from_bytes(log[i:i + 8], 'little')
        n = h & 0xFFFFFFFF
        out.append((h >> 32, log[i + 8:i + 8 + n]))
        i += 8 + n
    return out

"""The real library, compiled from /repo's working tree, for replaying counterexamples."""
import ctypes
import glob
import os
import subprocess
import hashlib
from concurrent.futures import ThreadPoolExecutor
from . import ir

CFLAGS = ['-std=c99', '-O2', '-fstack-protector-all', '-fPIC', '-D_ANSI_SOURCE', '-D_ISOC99_SOURCE', '-D_LARGEFILE64_SOURCE',
          '-D_FILE_OFFSET_BITS=64', '-DKRIPTO_UNIX', '-w']
_lib = None


def sources():
    r = os.path.join(ir.REPO, 'lib')
    return sorted(glob.glob(r + '/*.c') + glob.glob(r + '/*/*.c'))


def build(out, extra=(), srcs=None, shared=True):
    """compile the sources of /repo into a shared object"""
    objs = []
    d = out + '.d'
    os.makedirs(d, exist_ok=True)

    def one(src):
        o = os.path.join(d, hashlib.md5(src.encode()).hexdigest()[:12] + '.o')
        p = subprocess.run(['gcc'] + CFLAGS + list(extra) + ['-I', os.path.join(ir.REPO, 'include'), '-c', src, '-o', o], capture_output=True, text=True)
        if p.returncode:
            raise RuntimeError('compile failed: ' + src + '\n' + p.stderr[:2000])
        return o
    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(one, srcs or sources()))
    subprocess.run(['gcc', '-shared', '-o', out] + list(extra) + objs, check=True)
    return out


def path():
    from . import lib
    p = os.path.join(lib.scratch(), 'libkripto_native.so')
    if not os.path.exists(p):
        tmp = p + '.%d' % os.getpid()
        build(tmp)
        os.replace(tmp, p)
    return p


def bind(lb):
    """signatures of the API"""
    vp = ctypes.c_void_p
    u = ctypes.c_uint
    z = ctypes.c_size_t
    sig = {
        'block_create': (vp, [vp, u, vp, u]), 'block_recreate': (vp, [vp, u, vp, u]), 'block_tweak': (None, [vp, vp, u]),
        'block_encrypt': (None, [vp, vp, vp]), 'block_decrypt': (None, [vp, vp, vp]), 'block_destroy': (None, [vp]),
        'block_size': (u, [vp]), 'block_maxkey': (u, [vp]), 'block_maxtweak': (u, [vp]),
        'hash_create': (vp, [vp, u, vp, u, u]), 'hash_recreate': (vp, [vp, u, vp, u, u]), 'hash_input': (None, [vp, vp, z]),
        'hash_output': (None, [vp, vp, z]), 'hash_destroy': (None, [vp]), 'hash_all': (ctypes.c_int, [vp, u, vp, u, vp, z, vp, z]),
        'hash_maxout': (u, [vp]), 'hash_maxsalt': (u, [vp]), 'hash_blocksize': (u, [vp]),
        'mac_create': (vp, [vp, u, vp, u, u]), 'mac_recreate': (vp, [vp, u, vp, u, u]), 'mac_input': (None, [vp, vp, z]),
        'mac_tag': (None, [vp, vp, u]), 'mac_verify': (ctypes.c_int, [vp, vp, u]), 'mac_destroy': (None, [vp]),
        'mac_all': (ctypes.c_int, [vp, u, vp, u, vp, u, vp, u]), 'mac_maxtag': (u, [vp]), 'mac_maxkey': (u, [vp]),
        'stream_create': (vp, [vp, u, vp, u, vp, u]), 'stream_recreate': (vp, [vp, u, vp, u, vp, u]),
        'stream_encrypt': (None, [vp, vp, vp, z]), 'stream_decrypt': (None, [vp, vp, vp, z]), 'stream_prng': (None, [vp, vp, z]),
        'stream_destroy': (None, [vp]), 'stream_multof': (u, [vp]), 'stream_maxkey': (u, [vp]), 'stream_maxiv': (u, [vp]),
        'ae_create': (vp, [vp, u, vp, u, vp, u, u]), 'ae_recreate': (vp, [vp, u, vp, u, vp, u, u]),
        'ae_encrypt': (None, [vp, vp, vp, z]), 'ae_decrypt': (None, [vp, vp, vp, z]), 'ae_header': (None, [vp, vp, z]),
        'ae_tag': (None, [vp, vp, u]), 'ae_verify': (ctypes.c_int, [vp, vp, u]), 'ae_destroy': (None, [vp]),
    }
    for n, (r, a) in sig.items():
        try:
            f = getattr(lb, 'kripto_' + n)
        except AttributeError:
            continue
        f.restype = r
        f.argtypes = a
    return lb


def load():
    global _lib
    if _lib is None:
        _lib = bind(ctypes.CDLL(path()))
    return _lib


def desc(sym):
    """pointer value of a descriptor: 'kripto_block_x' or 'kripto_block_gost_cbr()'"""
    L = load()
    if sym.endswith('()'):
        f = getattr(L, sym[:-2])
        f.restype = ctypes.c_void_p
        f.argtypes = []
        return f()
    return ctypes.c_void_p.in_dll(L, sym).value


def crash(v):
    """was the reason given by isolated() a crash of the library (and not a time limit or an error of the harness)"""
    v = str(v)
    return v.startswith('died with signal') and v.split()[-1] in ('4', '6', '7', '8', '11')


def isolated(fn, *args, timeout=60):
    """run fn(*args) in a forked child; returns (True, value) or (False, reason)"""
    import pickle
    import select
    import signal
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            dn = os.open('/dev/null', os.O_WRONLY)
            os.dup2(dn, 2)
            signal.alarm(timeout)
            v = fn(*args)
            data = pickle.dumps((True, v))
        except BaseException as e:
            data = pickle.dumps((False, repr(e)))
        with os.fdopen(w, 'wb') as f:
            f.write(data)
        os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    _, st = os.waitpid(pid, 0)
    if not data:
        return False, 'died with signal %d' % (st & 127) if st & 127 else 'exit %d' % (st >> 8)
    return pickle.loads(data)


def block(sym, rounds, key, data, op='encrypt', inplace=False):
    L = load()
    d = desc(sym)
    s = L.kripto_block_create(d, rounds, bytes(key), len(key))
    if not s:
        raise MemoryError
    out = ctypes.create_string_buffer(bytes(data), len(data))
    src = out if inplace else bytes(data)
    getattr(L, 'kripto_block_' + op)(s, src, out)
    L.kripto_block_destroy(s)
    return out.raw

"""Native runs under AddressSanitizer and UndefinedBehaviorSanitizer, with buffers of exactly the stated size."""
import ctypes
import json
import os
import resource
import subprocess
import sys
from . import drive, lib, native

FLAGS = ['-fsanitize=address,signed-integer-overflow,shift-exponent,integer-divide-by-zero,bounds', '-fno-sanitize-recover=all', '-g1']


def path():
    p = os.path.join(lib.scratch(), 'libkripto_asan.so')
    if not os.path.exists(p):
        tmp = p + '.%d' % os.getpid()
        native.build(tmp, FLAGS)
        os.replace(tmp, p)
    return p


class N(drive.N):
    def __init__(self, L):
        drive.N.__init__(self, L, 1, False)
        self.c = ctypes.CDLL(None)
        self.c.malloc.restype = ctypes.c_void_p
        self.c.malloc.argtypes = [ctypes.c_size_t]

    def raw(self, n):
        p = self.c.malloc(n or 1)
        self.keep.append((p, n))
        return p, p

    def inbuf(self, tag, cells):
        p = self.raw(len(cells))[1]
        ctypes.memmove(p, bytes(cells), len(cells))
        self.keep[-1] += (bytes(cells),)
        return p

    def changed(self):
        return any(len(k) > 2 and ctypes.string_at(k[0], k[1]) != k[2] for k in self.keep)


def child(so, name, cfgs):
    """in a process with the sanitizers loaded"""
    from . import life, subjects
    L = native.bind(ctypes.CDLL(so))
    for nm, a in (('kripto_pbkdf2', [ctypes.c_void_p] + [ctypes.c_uint] * 2 + [ctypes.c_void_p, ctypes.c_uint] * 2 + [ctypes.c_void_p, ctypes.c_size_t]),
                  ('kripto_scrypt', [ctypes.c_void_p, ctypes.c_uint, ctypes.c_uint64, ctypes.c_uint32, ctypes.c_uint32] + [ctypes.c_void_p, ctypes.c_uint] * 2 + [ctypes.c_void_p, ctypes.c_size_t])):
        f = getattr(L, nm)
        f.restype, f.argtypes = ctypes.c_int, a
    x = next(x for x in subjects.everything() if x.name == name)
    if x.kind != 'call':
        for c in cfgs:
            c = tuple(c)
            print('AT create %r and the script of operations' % (c,), flush=True)
            s = N(L)
            x.desc = x.setup(s)
            h = x.create(s, c)
            for nm, op in x.ops(c):
                op(s, h, 'a')
            h = x.recreate(s, h, tuple(cfgs[0]), 'b')
            x.release(s, h)
            if s.changed():
                print('an input buffer was changed', flush=True)
                os._exit(99)
    for c, n in life.wholes(x):
        print('AT one call %r, %d bytes' % (c, n), flush=True)
        s = N(L)
        x.desc = x.setup(s)
        x.whole(s, c, n)
    print('AT end', flush=True)
    os._exit(0)


def search(name, cfgs):
    so = path()
    pre = subprocess.run(['gcc', '-print-file-name=libasan.so'], capture_output=True, text=True).stdout.strip()
    ub = subprocess.run(['gcc', '-print-file-name=libubsan.so'], capture_output=True, text=True).stdout.strip()
    env = dict(os.environ, LD_PRELOAD='%s %s' % (pre, ub), ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=97', UBSAN_OPTIONS='halt_on_error=1:exitcode=98', PYTHONMALLOC='malloc',
               PYTHONPATH=os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    try:
        p = subprocess.run([sys.executable, '-c', 'import sys,json; from kv import asan; asan.child(*json.loads(sys.argv[1]))', json.dumps([so, name, cfgs])],
                           capture_output=True, text=True, env=env, timeout=120,
                           preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_AS, (resource.getrlimit(resource.RLIMIT_AS)[1],) * 2))
    except subprocess.TimeoutExpired:
        return None
    if 'failed to allocate' in p.stderr or not p.stdout:
        return None
    last = [l for l in p.stdout.split('\n') if l.startswith('AT ')]
    rep = [l for l in p.stderr.split('\n') if 'ERROR: AddressSanitizer' in l or 'runtime error' in l or l.strip().startswith('#0') or l.strip().startswith('#1 ')]
    if p.returncode in (97, 98, 99, -11, -6, -8) or any('Sanitizer' in l or 'runtime error' in l for l in rep):
        return {'object': name, 'input': last[-1:] and last[-1], 'report': rep[:6] or p.stdout[-300:], 'exit': p.returncode}
    return None

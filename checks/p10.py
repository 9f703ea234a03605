"""P10: PKCS7 padding."""
import ctypes
import random
from kv import native, run, smt
from kv import terms as T
from kv.machine import Ptr
from kv.obl import Group
from kv.fake import Lazy
from kv.scen import S, same, Mismatch

M64 = (1 << 64) - 1


def LEN():
    return T.zext(T.var('len', 62), 62, 64)


def native_search():
    L = native.load()
    z = ctypes.c_size_t
    L.kripto_pkcs7_add.restype = z
    L.kripto_pkcs7_add.argtypes = [ctypes.c_void_p, z, ctypes.c_uint, z]
    L.kripto_pkcs7_rem.restype = z
    L.kripto_pkcs7_rem.argtypes = [ctypes.c_void_p, z]
    r = random.Random(1)
    for pad in range(1, 256):
        for ln in list(range(0, min(2 * pad + 2, 300))) + [3 * pad - 1, 3 * pad, 1000]:
            p = pad - ln % pad
            data = bytes(r.randrange(256) for _ in range(ln))
            for room in (p, p + 3, p - 1, 0):
                b = ctypes.create_string_buffer(data + b'\xA5' * 260, ln + 260)
                v = L.kripto_pkcs7_add(b, ln, pad, ln + room)
                want = (ln + p, data + bytes([p]) * p) if room >= p else (0, data)
                if v != want[0] or b.raw != want[1] + b'\xA5' * (ln + 260 - len(want[1])):
                    return {'call': 'kripto_pkcs7_add', 'len': ln, 'pad': pad, 'maxlen': ln + room, 'returned': v, 'expected': want[0], 'written': b.raw[ln:ln + 260].hex()}
            if p + ln:
                x = data + bytes([p]) * p
                v = L.kripto_pkcs7_rem(ctypes.create_string_buffer(x, len(x)), len(x))
                if v != ln:
                    return {'call': 'kripto_pkcs7_rem', 'buffer': x.hex(), 'returned': v, 'expected': ln}
    for ln in range(1, 300):
        for last in (0, 1, ln - 1, ln, ln + 1, 255):
            if 0 <= last < 256:
                v = L.kripto_pkcs7_rem(ctypes.create_string_buffer(bytes(ln - 1) + bytes([last]), ln), ln)
                if v != (ln - last if last <= ln else ln):
                    return {'call': 'kripto_pkcs7_rem', 'length': ln, 'last byte': last, 'returned': v}
    return None


def add_case(s, pad, r):
    """len = any number with remainder r modulo pad, any maxlen"""
    s.st = s.m.state()
    L, M = LEN(), T.var('maxlen', 64)
    p = pad - r
    b = s.st.new(p, 'arg', 'buf', [None] * p, False)
    s.m.windows[b.obj] = L
    urem = T.urem

    def rem(a, d, w):
        if d == pad and T.bits(a, w) == T.bits(L, w):
            return r
        return urem(a, d, w)
    T.urem = rem
    try:
        outs = s.branch('kripto_pkcs7_add', b, L, pad, M)
    finally:
        T.urem = urem
        s.m.windows.clear()
    end = T.add(L, p, 64)
    full = T.ult(M, end, 64)
    seen = 0
    for o in outs:
        if o.kind != 'ret':
            raise Mismatch('assertion')
        c = 1
        for x in o.st.pc:
            c = T.and2(c, x)
        cells = o.st.get(b.obj).cells
        if o.val == 0 and c in (0,):
            continue
        if all(x is None for x in cells):
            want, val = full, 0
        else:
            want, val = T.not1(full), end
            if any(x is None for x in cells):
                raise Mismatch('padding of %d bytes not written in full' % p)
            same(cells, [p] * p, 'padding for len %% %d = %d' % (pad, r))
        if c != want and smt.equal(T.mk([c]), T.mk([want]), 1) != 'yes':
            raise Mismatch('room is judged wrongly for len %% %d = %d' % (pad, r))
        if o.val != val and (type(o.val) is not tuple or smt.equal(o.val, val, 64, o.st.pc) != 'yes'):
            raise Mismatch('returned length for len %% %d = %d' % (pad, r))
        seen += 1
    if seen != 2:
        raise Mismatch('%d outcomes' % seen)
    return s.m.functions


def add_task(pads):
    G = Group('padding to %s bytes' % pads, native_search)

    def f():
        s = S(['pkcs7'], lazy=True)
        s.m.merge = False
        for pad in pads:
            for r in range(pad):
                fn = add_case(s, pad, r)
        return fn
    G.prove('every length, every remainder, any room', f)
    return G.close(None, 'native runs: every block size, lengths up to 300')


def rem_all():
    s = S(['pkcs7'], lazy=True)
    k = LEN()
    n = T.add(k, 1, 64)
    x = T.var('last', 8)
    b = s.st.new(1, 'arg', 'buf', [x], True)
    s.m.windows[b.obj] = k
    try:
        v = s('kripto_pkcs7_rem', b, n)
    finally:
        s.m.windows.clear()
    x64 = T.zext(x, 8, 64)
    want = T.ite(T.ult(n, x64, 64), n, T.sub(n, x64, 64), 64)
    if v != want and smt.equal(v, want, 64) != 'yes':
        raise Mismatch('length after removal')
    return s.m.functions


def inverse():
    """lemma: removal after padding gives the length"""
    for pad in range(1, 256):
        for r in range(pad):
            p = pad - r
            if not 1 <= p <= pad <= 255:
                raise Mismatch('lemma')
            # n = len + p >= p, last byte p
            n = T.add(LEN(), p, 64)
            if T.sub(n, p, 64) != LEN() and smt.equal(T.sub(n, p, 64), LEN(), 64) != 'yes':
                raise Mismatch('lemma')


def rem_task():
    G = Group('removal of padding', native_search)
    G.prove('every buffer, every length', rem_all)
    G.prove('removal inverts padding (lemma)', inverse)
    return G.close(None, 'native runs: every block size, lengths up to 300')


def tasks():
    ts = [('rem', rem_task, (), 300)]
    order = list(range(255, 0, -1))
    for i in range(24):
        ts.append(('add %d' % i, add_task, (order[i::24],), 600))
    return ts


ASSUME = ['block size 1..255; the length of the buffer is below 2^62 (lengths that wrap a size_t are excluded)',
          'only the last byte is judged on removal: a last byte larger than the buffer leaves the length unchanged, the other padding bytes are not examined (as the code defines)']


def main():
    native.path()
    run.finish('P10', run.run_tasks(tasks(), deadline=800), assumptions=ASSUME)


if __name__ == '__main__':
    main()

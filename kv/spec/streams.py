"""ChaCha, Salsa20 and their extended-nonce forms, RC4; bytes that are ints or terms."""
from .. import terms as T
from ..word import W, B, les, tole
from .kdf import salsa_double, quarter


def cquarter(a, b, c, d):
    a = a + b
    d = (d ^ a).rol(16)
    c = c + d
    b = (b ^ c).rol(12)
    a = a + b
    d = (d ^ a).rol(8)
    c = c + d
    b = (b ^ c).rol(7)
    return a, b, c, d


def _quarters(x, q, rows):
    x = list(x)
    for k in rows:
        for a, v in zip(k, q(*[x[a] for a in k])):
            x[a] = v
    return x


CROWS = ([(i, 4 + i, 8 + i, 12 + i) for i in range(4)], [(i, 4 + (i + 1) % 4, 8 + (i + 2) % 4, 12 + (i + 3) % 4) for i in range(4)])
SROWS = ([tuple(4 * ((i + j) % 4) + i for j in range(4)) for i in range(4)], [tuple(4 * i + (i + j) % 4 for j in range(4)) for i in range(4)])


def perm(kind, x, rounds):
    """rounds single rounds, columns first"""
    q, rows = (cquarter, CROWS) if kind == 'chacha' else (quarter, SROWS)
    for r in range(rounds):
        x = _quarters(x, q, rows[r % 2])
    return x


def words(bs):
    return les([B(c) for c in bs], 32)


def bytes_(ws):
    return [b.v for b in tole(ws)]


def core(kind, x, rounds):
    w = words(x)
    return bytes_([a + b for a, b in zip(w, perm(kind, w, rounds))])


def sigma(n):
    """expand n-byte k"""
    return list(b'expand ' + b'%02d' % n + b'-byte k')


def cyc(key):
    return [key[i % len(key)] for i in range(32)]


def pad(x, n):
    return list(x) + [0] * (n - len(x))


def start(kind, key, iv, rounds):
    """(64 bytes of state with the counter at zero, bytes of the counter)"""
    rounds = rounds or 20
    c = sigma(len(key))
    k = cyc(list(key))
    ext = 12 if kind == 'chacha' else 8
    if len(iv) > ext:
        iv = pad(iv, 24)
        x = layout(kind, c, k, iv[:16])
        z = perm(kind, words(x), rounds)
        k = bytes_([z[i] for i in ((0, 1, 2, 3, 12, 13, 14, 15) if kind == 'chacha' else (0, 5, 10, 15, 6, 7, 8, 9))])
        iv = iv[16:]
        n = 8
    elif kind == 'chacha' and len(iv) > 8:
        iv, n = pad(iv, 12), 4
    else:
        iv, n = pad(iv, 8), 8
    block = [0] * n + iv if kind == 'chacha' else iv + [0] * n
    return layout(kind, c, k, block), n


def layout(kind, c, k, block):
    if kind == 'chacha':
        return c + k + block
    return c[:4] + k[:16] + c[4:8] + block + c[8:12] + k[16:] + c[12:]


def counter(kind):
    """offset of the counter"""
    return 48 if kind == 'chacha' else 32


def rc4_key(key):
    p = list(range(256))
    j = 0
    for i in range(256):
        j = (j + p[i] + key[i % len(key)]) & 255
        p[i], p[j] = p[j], p[i]
    return p


def rc4_stream(key, drop, n):
    p = rc4_key(key)
    i = j = 0
    out = []
    for _ in range(drop + n):
        i = (i + 1) & 255
        j = (j + p[i]) & 255
        p[i], p[j] = p[j], p[i]
        out.append(p[(p[i] + p[j]) & 255])
    return out[drop:]


def _is(j, k):
    c = 1
    for i, b in enumerate(j):
        c = T.and2(c, b if (k >> i) & 1 else T.not1(b))
    return c


def rc4_step(p, j, i):
    """one byte at the (known) index i of a symbolic table: (p, j, byte)"""
    p = list(p)
    j = T.add(j, p[i], 8)

    def at(k):
        return p[k] if type(k) is int else T.select(list(p), tuple(k), 8)
    a, b = p[i], at(j)
    p[i] = b
    if type(j) is int:
        p[j] = a
    else:
        p = [T.ite(_is(j, k), a, v, 8) for k, v in enumerate(p)]
    return p, j, at(T.add(at(i), at(j), 8))

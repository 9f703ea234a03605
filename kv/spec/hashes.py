"""Hash functions, written from their definitions (words run on ints or on terms)."""
from ..word import W, B, le, be, les, bes, tole, tobe, cat, tab
from .. import terms as T
from .blocks_arx import _primes, _root, sha2_round, threefish_words
from .blocks_tab import pi_words, gfmul, mulc, xsum

M32 = (1 << 32) - 1
M64 = (1 << 64) - 1


def words(vs, w):
    return [W(v, w) for v in vs]


# ---------------------------------------------------------------- MD5 (RFC 1321)
def _sin():
    """floor(2^32 |sin i|), i = 1..64, by the series over integers"""
    from fractions import Fraction
    out = []
    for i in range(1, 65):
        x = Fraction(i)
        s, t, k = Fraction(0), x, 1
        while abs(t) > Fraction(1, 1 << 60):
            s += t
            k += 2
            t = -t * x * x / ((k - 1) * k)
            t = Fraction(int(t * (1 << 200)), 1 << 200)
        out.append(int(abs(s) * (1 << 32)))
    return out


MD5K = _sin()
MD5R = [(7, 12, 17, 22), (5, 9, 14, 20), (4, 11, 16, 23), (6, 10, 15, 21)]


def md5(h, m, **_):
    x = les(m, 32)
    a, b, c, d = h
    for i in range(64):
        if i < 16:
            f, g = (b & c) | (~b & d), i
        elif i < 32:
            f, g = (d & b) | (~d & c), (5 * i + 1) % 16
        elif i < 48:
            f, g = b ^ c ^ d, (3 * i + 5) % 16
        else:
            f, g = c ^ (b | ~d), 7 * i % 16
        a, d, c, b = d, c, b, b + (a + f + x[g] + MD5K[i]).rol(MD5R[i // 16][i % 4])
    return [p + q for p, q in zip(h, (a, b, c, d))]


# ---------------------------------------------------------------- SHA-1 (FIPS 180-4)
def sha1(h, m, **_):
    w = bes(m, 32)
    for i in range(16, 80):
        w.append((w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16]).rol(1))
    a, b, c, d, e = h
    k = [0x5A827999, 0x6ED9EBA1, 0x8F1BBCDC, 0xCA62C1D6]
    for i in range(80):
        if i < 20:
            f = (b & c) ^ (~b & d)
        elif 40 <= i < 60:
            f = (b & c) ^ (b & d) ^ (c & d)
        else:
            f = b ^ c ^ d
        a, b, c, d, e = a.rol(5) + f + e + k[i // 20] + w[i], a, b.rol(30), c, d
    return [p + q for p, q in zip(h, (a, b, c, d, e))]


# ---------------------------------------------------------------- SHA-2
def sha2(w):
    K = [_root(p, 3, w) for p in _primes(128 if w == 32 else 160)]

    def f(h, m, rounds=0, **_):
        x = bes(m, w)
        n = rounds or (64 if w == 32 else 80)
        for i in range(16, n):
            p, q = x[i - 15], x[i - 2]
            if w == 32:
                s0, s1 = p.ror(7) ^ p.ror(18) ^ (p >> 3), q.ror(17) ^ q.ror(19) ^ (q >> 10)
            else:
                s0, s1 = p.ror(1) ^ p.ror(8) ^ (p >> 7), q.ror(19) ^ q.ror(61) ^ (q >> 6)
            x.append(x[i - 16] + s0 + x[i - 7] + s1)
        v = list(h)
        for i in range(n):
            v = sha2_round(v, x[i] + K[i], w)
        return [p + q for p, q in zip(h, v)]
    return f


IV512 = [_root(p, 2, 64) for p in _primes(8)]
IV384 = [_root(p, 2, 64) for p in _primes(16)[8:]]
IV256 = [x >> 32 for x in IV512]
IV224 = [x & M32 for x in IV384]


# ---------------------------------------------------------------- BLAKE and BLAKE2
SIGMA = ['0123456789abcdef', 'ea489fd61c02b753', 'b8c052fdae367194', '7931dcbe265a40f8', '905724afe1bc683d',
         '2c6a0b834d75fe19', 'c51fed4a0763928b', 'db7ec13950f4862a', '6fe9b308c2d714a5', 'a2847615fb9e3cd0']
SIGMA = [[int(c, 16) for c in s] for s in SIGMA]
PI32 = pi_words(32)


def blake(w, two):
    if two:
        rot = (16, 12, 8, 7) if w == 32 else (32, 24, 16, 63)
        C = IV256 if w == 32 else IV512
        dr = 10 if w == 32 else 12
    else:
        rot = (16, 12, 8, 7) if w == 32 else (32, 25, 16, 11)
        C = PI32[:16] if w == 32 else [(PI32[2 * i] << 32) | PI32[2 * i + 1] for i in range(16)]
        dr = 14 if w == 32 else 16

    def f(h, m, rounds=0, salt=None, ctr=None, flag=None):
        """ctr: two words, low first"""
        x = (les if two else bes)(m, w)
        if two:
            v = list(h) + words(IV256 if w == 32 else IV512, w)
            v[12], v[13], v[14] = v[12] ^ ctr[0], v[13] ^ ctr[1], v[14] ^ flag
        else:
            v = list(h) + [W(C[i], w) ^ salt[i] for i in range(4)] + [W(C[4], w) ^ ctr[0], W(C[5], w) ^ ctr[0], W(C[6], w) ^ ctr[1], W(C[7], w) ^ ctr[1]]
        for r in range(rounds or dr):
            s = SIGMA[r % 10]
            for i, (a, b, c, d) in enumerate(((0, 4, 8, 12), (1, 5, 9, 13), (2, 6, 10, 14), (3, 7, 11, 15), (0, 5, 10, 15), (1, 6, 11, 12), (2, 7, 8, 13), (3, 4, 9, 14))):
                p, q = s[2 * i], s[2 * i + 1]
                for (j, k), (r1, r2) in (((p, q), rot[:2]), ((q, p), rot[2:])):
                    v[a] = v[a] + v[b] + (x[j] if two else x[j] ^ C[k])
                    v[d] = (v[d] ^ v[a]).ror(r1)
                    v[c] = v[c] + v[d]
                    v[b] = (v[b] ^ v[c]).ror(r2)
        if two:
            return [h[i] ^ v[i] ^ v[i + 8] for i in range(8)]
        return [h[i] ^ salt[i % 4] ^ v[i] ^ v[i + 8] for i in range(8)]
    return f


# ---------------------------------------------------------------- Whirlpool (ISO/IEC 10118-3)
def _wsbox():
    E = [1, 11, 9, 12, 13, 6, 15, 3, 14, 8, 7, 4, 10, 2, 5, 0]
    R = [7, 12, 11, 13, 14, 4, 9, 15, 6, 3, 8, 10, 2, 5, 1, 0]
    I = [E.index(i) for i in range(16)]
    out = []
    for x in range(256):
        u, l = E[x >> 4], I[x & 15]
        r = R[u ^ l]
        out.append(E[u ^ r] << 4 | I[l ^ r])
    return out


WS = _wsbox()
WC = (1, 1, 4, 1, 8, 5, 2, 9)


def whirlpool(h, m, rounds=0, **_):
    S = {c: [gfmul(c, x, 0x11D) for x in WS] for c in set(WC)}

    def rnd(a, k):
        out = []
        for i in range(8):
            row = []
            for j in range(8):
                row.append(xsum([tab(S[WC[(j - c) % 8]], a[(i - c) % 8][c], 8) for c in range(8)]) ^ k[i][j])
            out.append(row)
        return out
    k = [x.be() for x in h]
    x = [m[8 * i:8 * i + 8] for i in range(8)]
    s = [[p ^ q for p, q in zip(a, b)] for a, b in zip(x, k)]
    for r in range(rounds or 10):
        rc = [[B(WS[8 * r + j]) if i == 0 else B(0) for j in range(8)] for i in range(8)]
        k = rnd(k, rc)
        s = rnd(s, k)
    return [h[i] ^ be(s[i]) ^ be(x[i]) for i in range(8)]


# ---------------------------------------------------------------- Tiger (Anderson, Biham)
def _tiger_gen():
    """the S-boxes, by the authors' generation procedure"""
    t = [[i & 255 for _ in range(8)] for i in range(1024)]
    msg = [int.from_bytes(b'Tiger - A Fast New Hash Function, by Ross Anderson and Eli Biham'[8 * i:8 * i + 8], 'little') for i in range(8)]
    st = [0x0123456789ABCDEF, 0xFEDCBA9876543210, 0xF096A5B4C3B2E187]
    abc = 2
    for _ in range(5):
        for i in range(256):
            for sb in range(0, 1024, 256):
                abc += 1
                if abc == 3:
                    abc = 0
                    st = _tiger_int(st, msg, t)
                for col in range(8):
                    j = st[abc] >> (8 * col) & 255
                    t[sb + i][col], t[sb + j][col] = t[sb + j][col], t[sb + i][col]
    full = [sum(r[c] << (8 * c) for c in range(8)) for r in t]
    return [full[256 * i:256 * i + 256] for i in range(4)]


def _tiger_int(st, x, t):
    a, b, c = st
    x = list(x)

    def S(i, j):
        r = t[256 * i + j]
        return r[0] | r[1] << 8 | r[2] << 16 | r[3] << 24 | r[4] << 32 | r[5] << 40 | r[6] << 48 | r[7] << 56
    for p in range(3):
        if p:
            _tiger_ks(x, lambda v: v & M64)
        for i in range(8):
            c ^= x[i]
            a = (a - (S(0, c & 255) ^ S(1, c >> 16 & 255) ^ S(2, c >> 32 & 255) ^ S(3, c >> 48 & 255))) & M64
            b = (b + (S(3, c >> 8 & 255) ^ S(2, c >> 24 & 255) ^ S(1, c >> 40 & 255) ^ S(0, c >> 56))) & M64
            b = b * (5, 7, 9)[p] & M64
            a, b, c = b, c, a
    # 24 rotations leave the roles as they were
    return [a ^ st[0], (b - st[1]) & M64, (c + st[2]) & M64]


def _tiger_ks(x, f):
    x[0] = f(x[0] - (x[7] ^ 0xA5A5A5A5A5A5A5A5))
    x[1] = f(x[1] ^ x[0])
    x[2] = f(x[2] + x[1])
    x[3] = f(x[3] - (x[2] ^ f(f(~x[1]) << 19)))
    x[4] = f(x[4] ^ x[3])
    x[5] = f(x[5] + x[4])
    x[6] = f(x[6] - (x[5] ^ (f(~x[4]) >> 23)))
    x[7] = f(x[7] ^ x[6])
    x[0] = f(x[0] + x[7])
    x[1] = f(x[1] - (x[0] ^ f(f(~x[7]) << 19)))
    x[2] = f(x[2] ^ x[1])
    x[3] = f(x[3] + x[2])
    x[4] = f(x[4] - (x[3] ^ (f(~x[2]) >> 23)))
    x[5] = f(x[5] ^ x[4])
    x[6] = f(x[6] + x[5])
    x[7] = f(x[7] - (x[6] ^ 0x0123456789ABCDEF))


_tg = []


def tiger(h, m, rounds=0, **_):
    if not _tg:
        _tg.extend(_tiger_gen())
    S = _tg
    x = les(m, 64)
    a, b, c = h
    for p in range(rounds if rounds > 3 else 3):
        if p:
            _tiger_ks(x, lambda v: v)
        for i in range(8):
            c = c ^ x[i]
            y = c.le()
            a = a - (tab(S[0], y[0], 64) ^ tab(S[1], y[2], 64) ^ tab(S[2], y[4], 64) ^ tab(S[3], y[6], 64))
            b = b + (tab(S[3], y[1], 64) ^ tab(S[2], y[3], 64) ^ tab(S[1], y[5], 64) ^ tab(S[0], y[7], 64))
            b = b * (5, 7, 9)[min(p, 2)]
            a, b, c = b, c, a
    return [a ^ h[0], b - h[1], c + h[2]]


# ---------------------------------------------------------------- Keccak
def _lfsr():
    """the constants' bits rc(t)"""
    out, r = [], 1
    for _ in range(255):
        out.append(r & 1)
        r <<= 1
        if r & 0x100:
            r ^= 0x171
    return out


_RC = _lfsr()


def keccak_f(a, w, rounds):
    """a[x + 5 y]: W words"""
    l = w.bit_length() - 1
    a = list(a)
    for r in range(rounds):
        c = [a[x] ^ a[x + 5] ^ a[x + 10] ^ a[x + 15] ^ a[x + 20] for x in range(5)]
        d = [c[(x + 4) % 5] ^ c[(x + 1) % 5].rol(1) for x in range(5)]
        a = [a[i] ^ d[i % 5] for i in range(25)]
        b = list(a)
        x, y, off = 1, 0, 0
        b[0] = a[0]
        for t in range(24):
            off = (t + 1) * (t + 2) // 2 % w
            X, Y = y, (2 * x + 3 * y) % 5
            b[X + 5 * Y] = a[x + 5 * y].rol(off)
            x, y = X, Y
        a = [b[i] ^ (~b[5 * (i // 5) + (i % 5 + 1) % 5] & b[5 * (i // 5) + (i % 5 + 2) % 5]) for i in range(25)]
        k = sum(_RC[(j + 7 * r) % 255] << ((1 << j) - 1) for j in range(l + 1))
        a[0] = a[0] ^ k
    return a


# ---------------------------------------------------------------- descriptions
class Spec:
    """the parts of one hash; comp(cv words, block bytes, ...)"""

    def __init__(self, name, B, w, nw, out, comp, iv, end, lenat, lenbytes, ctrbytes, pad=0x80, lenend='B', salt=0, rounds=0, two=False, blake=False, proc=None):
        self.name, self.B, self.w, self.nw, self.maxout, self.comp, self.iv, self.end = name, B, w, nw, out, comp, iv, end
        self.lenat, self.lenbytes, self.ctrbytes, self.pad, self.lenend = lenat, lenbytes, ctrbytes, pad, lenend
        self.salt, self.rounds, self.two, self.blake = salt, rounds, two, blake
        self.proc = proc or name + '_process'
        self.bits = 8 if not two else 1      # the counter counts bits, BLAKE2's bytes


def _const(v, w):
    return lambda out_len, salt: words(v, w)


def _two_iv(w):
    base = IV256 if w == 32 else IV512

    def iv(out_len, salt):
        h = words(base, w)
        h[0] = h[0] ^ (0x01010000 ^ out_len)
        s = les(list(salt) + [B(0)] * (2 * w // 8 - len(salt)), w)
        h[4], h[5] = h[4] ^ s[0], h[5] ^ s[1]
        return h
    return iv


def _pick(big, small, w, lim):
    return lambda out_len, salt: words(big if out_len > lim else small, w)


MDIV = [0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0]
ALL = {s.name: s for s in (
    Spec('md5', 64, 32, 4, 16, md5, _const(MDIV[:4], 32), 'L', 56, 8, 8, lenend='L'),
    Spec('sha1', 64, 32, 5, 20, sha1, _const(MDIV, 32), 'B', 56, 8, 8),
    Spec('sha2_256', 64, 32, 8, 32, sha2(32), _pick(IV256, IV224, 32, 28), 'B', 56, 8, 8, rounds=64),
    Spec('sha2_512', 128, 64, 8, 64, sha2(64), _pick(IV512, IV384, 64, 48), 'B', 112, 16, 16, rounds=80),
    Spec('tiger', 64, 64, 3, 24, tiger, _const([0x0123456789ABCDEF, 0xFEDCBA9876543210, 0xF096A5B4C3B2E187], 64), 'L', 56, 8, 8, pad=1, lenend='L', rounds=3),
    Spec('whirlpool', 64, 64, 8, 64, whirlpool, _const([0] * 8, 64), 'B', 32, 32, 32, rounds=10),
    Spec('blake256', 64, 32, 8, 32, blake(32, False), _pick(IV256, IV224, 32, 28), 'B', 56, 8, 8, salt=16, rounds=14, blake=True),
    Spec('blake512', 128, 64, 8, 64, blake(64, False), _pick(IV512, IV384, 64, 48), 'B', 112, 16, 16, salt=32, rounds=16, blake=True),
    Spec('blake2s', 64, 32, 8, 32, blake(32, True), _two_iv(32), 'L', 0, 0, 8, salt=8, rounds=10, two=True),
    Spec('blake2b', 128, 64, 8, 64, blake(64, True), _two_iv(64), 'L', 0, 0, 16, salt=16, rounds=12, two=True),
)}

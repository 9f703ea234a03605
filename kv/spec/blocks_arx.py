"""Executable specifications: block ciphers made of additions, rotations and bitwise operations.

Every function maps (key bytes, rounds, tweak bytes, plaintext bytes) to ciphertext bytes (lists of 8-bit W).
Keys shorter than the cipher's key size are padded with zero bytes (the library's convention)."""
from ..word import *

PHI = 0x9E3779B9


# ---------------------------------------------------------------- Simon and Speck (Beaulieu et al., 2013)
Z = ['11111010001001010110000111001101111101000100101011000011100110',
     '10001110111110010011000010110101000111011111001001100001011010',
     '10101111011100000011010010011000101000010001111110010110110011',
     '11011011101011000110010111100000010010001010011100110100001111',
     '11010001111001101011011000100000010111000011001010010011101111']


def simon(n, mmin, mmax, zsel):
    def f(key, rounds, tweak, pt):
        m = max(mmin, min(mmax, -(-len(key) // (n // 8))))
        z = Z[zsel[m]]
        k = les(pad0(key, m * n // 8), n)
        c = (1 << n) - 4
        for i in range(m, rounds):
            t = k[i - 1].ror(3)
            if m == 4:
                t = t ^ k[i - 3]
            t = t ^ t.ror(1)
            k.append(k[i - m] ^ t ^ (c ^ int(z[(i - m) % 62])))
        y, x = les(pt, n)
        for i in range(rounds):
            x, y = y ^ (x.rol(1) & x.rol(8)) ^ x.rol(2) ^ k[i], x
        return tole([y, x])
    return f


def speck(n, a, b, mmax):
    def f(key, rounds, tweak, pt):
        m = max(2, min(mmax, -(-len(key) // (n // 8))))
        l = les(pad0(key, m * n // 8), n)
        k = l.pop(0)
        y, x = les(pt, n)
        for i in range(rounds):
            x = (x.ror(a) + y) ^ k
            y = y.rol(b) ^ x
            l.append((l[i].ror(a) + k) ^ i)
            k = k.rol(b) ^ l[-1]
        return tole([y, x])
    return f


# ---------------------------------------------------------------- TEA family (Wheeler, Needham)
def tea(key, rounds, tweak, pt):
    k = bes(pad0(key, 16), 32)
    y, z = bes(pt, 32)
    s = 0
    for i in range(rounds):
        s = (s + PHI) & 0xFFFFFFFF
        y = y + (((z << 4) + k[0]) ^ (z + s) ^ ((z >> 5) + k[1]))
        z = z + (((y << 4) + k[2]) ^ (y + s) ^ ((y >> 5) + k[3]))
    return tobe([y, z])


def xtea(key, rounds, tweak, pt):
    # rounds counts Feistel rounds; a key of fewer than four words is used cyclically
    n = -(-len(key) // 4)
    k = bes(pad0(key, 4 * n), 32)
    x = bes(pt, 32)
    s = 0
    for i in range(rounds):
        z = x[1]
        f = ((z << 4) ^ (z >> 5)) + z
        if i & 1:
            s = (s + PHI) & 0xFFFFFFFF
            kk = k[(s >> 11) % n]
        else:
            kk = k[s % n]
        x = [x[1], x[0] + (f ^ (kk + s))]
    if rounds & 1:
        x = [x[1], x[0]]
    return tobe(x)


# ---------------------------------------------------------------- RC5, RC6 (Rivest)
def _rc_keys(key, t, steps):
    c = -(-len(key) // 4)
    L = les(pad0(key, 4 * c), 32)
    S = [W(0xB7E15163 + i * PHI, 32) for i in range(t)]
    A = B_ = W(0, 32)
    for s in range(steps):
        A = S[s % t] = (S[s % t] + A + B_).rol(3)
        B_ = L[s % c] = (L[s % c] + A + B_).rol((A + B_).bits(0, 5))
    return S


def rc5(key, rounds, tweak, pt):
    # key mixing runs three times over the round keys; for keys longer than the round key array the
    # standard runs 3*max(t, c) steps
    t = 2 * (rounds + 1)
    S = _rc_keys(key, t, 3 * t)
    a, b = les(pt, 32)
    a = a + S[0]
    b = b + S[1]
    for i in range(1, rounds + 1):
        a = (a ^ b).rol(b.bits(0, 5)) + S[2 * i]
        b = (b ^ a).rol(a.bits(0, 5)) + S[2 * i + 1]
    return tole([a, b])


def rc6(key, rounds, tweak, pt):
    t = 2 * rounds + 4
    S = _rc_keys(key, t, 3 * t)
    a, b, c, d = les(pt, 32)
    b = b + S[0]
    d = d + S[1]
    for i in range(1, rounds + 1):
        u = (b * (b + b + 1)).rol(5)
        v = (d * (d + d + 1)).rol(5)
        a = (a ^ u).rol(v.bits(0, 5)) + S[2 * i]
        c = (c ^ v).rol(u.bits(0, 5)) + S[2 * i + 1]
        a, b, c, d = b, c, d, a
    return tole([a + S[2 * rounds + 2], b, c + S[2 * rounds + 3], d])


# ---------------------------------------------------------------- LEA (KATS)
DELTA = [0xC3EFE9DB, 0x44626B02, 0x79E27C8A, 0x78DF30EC, 0x715EA49E, 0xC785DA0A, 0xE04EF22A, 0xE5C40957]


def rol32c(x, n):
    n %= 32
    return ((x << n) | (x >> (32 - n))) & 0xFFFFFFFF


def lea(key, rounds, tweak, pt):
    n = 4 if len(key) <= 16 else 6 if len(key) <= 24 else 8
    T = les(pad0(key, 4 * n), 32)
    rot = [1, 3, 6, 11, 13, 17]
    x = les(pt, 32)
    for i in range(rounds):
        d = DELTA[i % n]
        for j in range(4 if n == 4 else 6):
            p = j if n < 8 else (6 * i + j) % 8
            T[p] = (T[p] + rol32c(d, i + j)).rol(rot[j])
        if n == 4:
            rk = [T[0], T[1], T[2], T[1], T[3], T[1]]
        elif n == 6:
            rk = T[:]
        else:
            rk = [T[(6 * i + j) % 8] for j in range(6)]
        x = [((x[0] ^ rk[0]) + (x[1] ^ rk[1])).rol(9),
             ((x[1] ^ rk[2]) + (x[2] ^ rk[3])).ror(5),
             ((x[2] ^ rk[4]) + (x[3] ^ rk[5])).ror(3),
             x[0]]
    return tole(x)


# ---------------------------------------------------------------- Threefish (Skein 1.3)
ROT = {4: [[14, 16], [52, 57], [23, 40], [5, 37], [25, 33], [46, 12], [58, 22], [32, 32]],
       8: [[46, 36, 19, 37], [33, 27, 14, 42], [17, 49, 36, 39], [44, 9, 54, 56],
           [39, 30, 34, 24], [13, 50, 10, 17], [25, 29, 39, 43], [8, 35, 56, 22]],
       16: [[24, 13, 8, 47, 8, 17, 22, 37], [38, 19, 10, 55, 49, 18, 23, 52], [33, 4, 51, 13, 34, 41, 59, 17],
            [5, 20, 48, 41, 47, 28, 16, 25], [41, 9, 37, 31, 12, 47, 44, 30], [16, 34, 56, 51, 4, 53, 42, 41],
            [31, 44, 47, 46, 19, 42, 44, 25], [9, 48, 35, 52, 23, 31, 37, 20]]}
PERM = {4: [0, 3, 2, 1], 8: [2, 1, 4, 7, 6, 5, 0, 3], 16: [0, 9, 2, 13, 6, 11, 4, 15, 10, 7, 12, 3, 14, 5, 8, 1]}


def threefish_words(nw, k, t, x, rounds):
    par = W(0x1BD11BDAA9FC1A22, 64)
    for w in k:
        par = par ^ w
    k = k + [par]
    t = t + [t[0] ^ t[1]]

    def addkey(x, s):
        y = [x[i] + k[(s + i) % (nw + 1)] for i in range(nw)]
        y[nw - 3] = y[nw - 3] + t[s % 3]
        y[nw - 2] = y[nw - 2] + t[(s + 1) % 3]
        y[nw - 1] = y[nw - 1] + s
        return y
    x = list(x)
    for r in range(rounds):
        if r % 4 == 0:
            x = addkey(x, r // 4)
        f = [None] * nw
        for j in range(nw // 2):
            a = x[2 * j] + x[2 * j + 1]
            f[2 * j] = a
            f[2 * j + 1] = x[2 * j + 1].rol(ROT[nw][r % 8][j]) ^ a
        x = [f[PERM[nw][i]] for i in range(nw)]
    return addkey(x, rounds // 4)


def threefish(nw):
    def f(key, rounds, tweak, pt):
        return tole(threefish_words(nw, les(pad0(key, 8 * nw), 64), les(pad0(tweak, 16), 64), les(pt, 64), rounds))
    return f


# ---------------------------------------------------------------- CRAX, TRAX (Beierle et al.)
RCON = [0xB7E15162, 0xBF715880, 0x38B4DA56, 0x324E7738, 0xBB1185EB, 0x4F7C7B57, 0xCFBFA1C8, 0xC2B3293D]


def alzette(x, y, c):
    for r, s in ((31, 24), (17, 17), (0, 31), (24, 16)):
        x = x + y.ror(r)
        y = y ^ x.ror(s)
        x = x ^ c
    return x, y


def crax_s(key, rounds, tweak, pt):
    k = les(pad0(key, 16), 32)
    x, y = les(pt, 32)
    for i in range(rounds):
        x = x ^ i
        x = x ^ k[2 * (i % 2)]
        y = y ^ k[2 * (i % 2) + 1]
        x, y = alzette(x, y, RCON[i % 5])
    x = x ^ k[2 * (rounds % 2)]
    y = y ^ k[2 * (rounds % 2) + 1]
    return tole([x, y])


def trax_m(key, rounds, tweak, pt):
    k = les(pad0(key, 16), 32)
    tw = les(pad0(tweak, 8), 32)
    x0, y0, x1, y1 = les(pt, 32)
    for i in range(rounds):
        if i % 2:
            x0 = x0 ^ tw[0]
            y0 = y0 ^ tw[1]
        x0, y0, x1, y1 = x0 ^ k[0], y0 ^ k[1], x1 ^ k[2], y1 ^ k[3]
        x0, y0 = alzette(x0, y0, RCON[2 * i % 8])
        x1, y1 = alzette(x1, y1, RCON[(2 * i + 1) % 8])
        x0, x1 = x0 ^ x1, x0
        y0, y1 = y0 ^ y1, y0
        k = [k[1], k[2] ^ k[3] ^ i, k[3], k[0] + k[1] + RCON[i % 8]]
    return tole([x0 ^ k[0], y0 ^ k[1], x1 ^ k[2], y1 ^ k[3]])


def _ell(x):
    return (x ^ (x << 16)).rol(16)


def trax_l(key, rounds, tweak, pt):
    k = les(pad0(key, 32), 32)
    tw = les(pad0(tweak, 16), 32)
    v = les(pt, 32)
    x, y = v[0::2], v[1::2]
    for i in range(rounds):
        if i % 2:
            x[0], y[0], x[1], y[1] = x[0] ^ tw[0], y[0] ^ tw[1], x[1] ^ tw[2], y[1] ^ tw[3]
        for j in range(4):
            x[j], y[j] = alzette(x[j] ^ k[2 * j], y[j] ^ k[2 * j + 1], RCON[(4 * i + j) % 8])
        lx, ly = _ell(x[2] ^ x[3]), _ell(y[2] ^ y[3])
        x = [x[3], x[2], x[0] ^ ly, x[1] ^ ly]
        y = [y[3], y[2], y[0] ^ lx, y[1] ^ lx]
        k = [k[1], k[2] ^ k[3] ^ i, k[3], k[4] + k[5] + RCON[(2 * i + 1) % 8], k[5], k[6] ^ k[7] ^ (i << 16), k[7], k[0] + k[1] + RCON[2 * i % 8]]
    out = []
    for j in range(4):
        out += [x[j] ^ k[2 * j], y[j] ^ k[2 * j + 1]]
    return tole(out)


# ---------------------------------------------------------------- SHACAL-2 (SHA-256 compression as a cipher)
def _primes(n):
    p = []
    c = 2
    while len(p) < n:
        if all(c % q for q in p):
            p.append(c)
        c += 1
    return p


def _root(x, r, bits):
    """first bits of the fraction of the r-th root of x"""
    v = x << (r * bits)
    lo, hi = 0, 1 << (bits + 16)
    while lo < hi:
        m = (lo + hi + 1) // 2
        if m ** r <= v:
            lo = m
        else:
            hi = m - 1
    return lo & ((1 << bits) - 1)


K256 = [_root(p, 3, 32) for p in _primes(64)]
K512 = [_root(p, 3, 64) for p in _primes(80)]


def sha2_round(v, kw, w):
    a, b, c, d, e, f, g, h = v
    if w == 32:
        s1 = e.ror(6) ^ e.ror(11) ^ e.ror(25)
        s0 = a.ror(2) ^ a.ror(13) ^ a.ror(22)
    else:
        s1 = e.ror(14) ^ e.ror(18) ^ e.ror(41)
        s0 = a.ror(28) ^ a.ror(34) ^ a.ror(39)
    t1 = h + s1 + ((e & f) ^ (~e & g)) + kw
    t2 = s0 + ((a & b) ^ (a & c) ^ (b & c))
    return [t1 + t2, a, b, c, d + t1, e, f, g]


def shacal2(key, rounds, tweak, pt):
    w = bes(pad0(key, 64), 32)
    for i in range(16, rounds):
        x, y = w[i - 15], w[i - 2]
        w.append(w[i - 16] + (x.ror(7) ^ x.ror(18) ^ (x >> 3)) + w[i - 7] + (y.ror(17) ^ y.ror(19) ^ (y >> 10)))
    v = bes(pt, 32)
    for i in range(rounds):
        v = sha2_round(v, w[i] + K256[i], 32)
    return tobe(v)


# ---------------------------------------------------------------- IDEA (Lai, Massey)
def idea(key, rounds, tweak, pt):
    from ..cipher import mul16_spec

    def mul(a, b):
        return W(mul16_spec(a.v, b.v), 16)
    big = be(pad0(key, 16))
    ks = []
    while len(ks) < 6 * rounds + 4:
        ks += [big.bits(112 - 16 * i, 16) for i in range(8)]
        big = big.rol(25)
    a, b, c, d = bes(pt, 16)
    for r in range(rounds):
        k = ks[6 * r:6 * r + 6]
        a, b, c, d = mul(a, k[0]), b + k[1], c + k[2], mul(d, k[3])
        t = mul(a ^ c, k[4])
        u = mul(t + (b ^ d), k[5])
        t = t + u
        a, b, c, d = a ^ u, c ^ u, b ^ t, d ^ t
    k = ks[6 * rounds:6 * rounds + 4]
    return tobe([mul(a, k[0]), c + k[1], b + k[2], mul(d, k[3])])


# ---------------------------------------------------------------- Noekeon (direct mode) and 3-Way (Daemen)
def _ntheta(a, k):
    t = a[0] ^ a[2]
    t = t ^ t.rol(8) ^ t.ror(8)
    a = [a[0], a[1] ^ t, a[2], a[3] ^ t]
    a = [x ^ y for x, y in zip(a, k)]
    t = a[1] ^ a[3]
    t = t ^ t.rol(8) ^ t.ror(8)
    return [a[0] ^ t, a[1], a[2] ^ t, a[3]]


def _nrc(n):
    r = [0x80]
    for i in range(n):
        x = r[-1] << 1
        r.append(x ^ 0x11B if x & 0x100 else x)
    return r


def noekeon(key, rounds, tweak, pt):
    k = bes(pad0(key, 16), 32)
    a = bes(pt, 32)
    rc = _nrc(rounds)
    for i in range(rounds):
        a = _ntheta([a[0] ^ rc[i]] + a[1:], k)
        a = [a[0], a[1].rol(1), a[2].rol(5), a[3].rol(2)]
        a[1] = a[1] ^ (~a[3] & ~a[2])
        a[0] = a[0] ^ (a[2] & a[1])
        a[3], a[0] = a[0], a[3]
        a[2] = a[2] ^ a[0] ^ a[1] ^ a[3]
        a[1] = a[1] ^ (~a[3] & ~a[2])
        a[0] = a[0] ^ (a[2] & a[1])
        a = [a[0], a[1].ror(1), a[2].ror(5), a[3].ror(2)]
    a = _ntheta([a[0] ^ rc[rounds]] + a[1:], k)
    return tobe(a)


def threeway(key, rounds, tweak, pt):
    k = bes(pad0(key, 12), 32)
    a = bes(pt, 32)
    rc = 0x0B0B

    def theta(a):
        x, y, z = a

        def f(x, y, z):
            return (x ^ (x >> 16) ^ (y << 16) ^ (y >> 16) ^ (z << 16) ^ (y >> 24) ^ (z << 8) ^ (z >> 8) ^ (x << 24)
                    ^ (z >> 16) ^ (x << 16) ^ (z >> 24) ^ (x << 8))
        return [f(x, y, z), f(y, z, x), f(z, x, y)]
    for i in range(rounds + 1):
        a = [a[0] ^ k[0] ^ (rc << 16), a[1] ^ k[1], a[2] ^ k[2] ^ rc]
        a = theta(a)
        if i < rounds:
            a = [a[0].ror(10), a[1], a[2].rol(1)]
            x, y, z = a
            a = [x ^ (y | ~z), y ^ (z | ~x), z ^ (x | ~y)]
            a = [a[0].rol(1), a[1], a[2].ror(10)]
        rc <<= 1
        if rc & 0x10000:
            rc ^= 0x11011
    return tobe(a)


SPECS = {
    'simon32': simon(16, 4, 4, {4: 0}), 'simon64': simon(32, 3, 4, {3: 2, 4: 3}), 'simon128': simon(64, 2, 4, {2: 2, 3: 3, 4: 4}),
    'speck32': speck(16, 7, 2, 4), 'speck64': speck(32, 8, 3, 4), 'speck128': speck(64, 8, 3, 4),
    'tea': tea, 'xtea': xtea, 'rc5': rc5, 'rc6': rc6, 'lea': lea,
    'threefish256': threefish(4), 'threefish512': threefish(8), 'threefish1024': threefish(16),
    'crax_s': crax_s, 'trax_m': trax_m, 'trax_l': trax_l, 'shacal2': shacal2, 'idea': idea, 
    'noekeon': noekeon, '3way': threeway,
}

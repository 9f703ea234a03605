"""Executable specifications: block ciphers built on substitution tables."""
from ..word import *
from .blocks_arx import SPECS as _A
from . import gold


def gfmul(a, b, poly, w=8):
    r = 0
    while b:
        if b & 1:
            r ^= a
        a <<= 1
        if a >> w:
            a ^= poly
        b >>= 1
    return r


_MULT = {}


def mulc(x, c, poly):
    """x * c over GF(2^8), as a linear map on bits"""
    t = _MULT.get((c, poly))
    if t is None:
        t = _MULT[(c, poly)] = [gfmul(v, c, poly) for v in range(256)]
    return tab(t, x, 8)


def xsum(ws):
    r = ws[0]
    for w in ws[1:]:
        r = r ^ w
    return r


# ---------------------------------------------------------------- Rijndael
def _aes_sbox():
    inv = [0] * 256
    for a in range(1, 256):
        for b in range(1, 256):
            if gfmul(a, b, 0x11B) == 1:
                inv[a] = b
                break
    s = []
    for x in range(256):
        b = inv[x]
        r = 0x63
        for i in range(5):
            r ^= ((b << i) | (b >> (8 - i))) & 255
        s.append(r)
    return s


AES_S = _aes_sbox()


def rijndael(nb):
    def f(key, rounds, tweak, pt):
        nk = -(-len(key) // 4)
        w = [list(c) for c in chunks(pad0(key, 4 * nk), 4)]
        rc = 1
        nrc = 0
        sub = lambda c: [tab(AES_S, b, 8) for b in c]
        for i in range(nk, nb * (rounds + 1)):
            t = w[i - 1]
            if i % nk == 0:
                t = sub(t[1:] + t[:1])
                t[0] = t[0] ^ rc
                rc = gfmul(rc, 2, 0x11B)
            elif nk > 6 and i % nk == 4:
                t = sub(t)
            w.append([a ^ b for a, b in zip(w[i - nk], t)])
        sh = (0, 1, 2, 3) if nb < 8 else (0, 1, 3, 4)
        s = [list(c) for c in chunks(list(pt), 4)]
        s = [[a ^ b for a, b in zip(s[j], w[j])] for j in range(nb)]
        for r in range(1, rounds + 1):
            s = [sub(c) for c in s]
            s = [[s[(j + sh[i]) % nb][i] for i in range(4)] for j in range(nb)]
            if r != rounds:
                s = [[mulc(c[i], 2, 0x11B) ^ mulc(c[(i + 1) % 4], 3, 0x11B) ^ c[(i + 2) % 4] ^ c[(i + 3) % 4] for i in range(4)] for c in s]
            s = [[a ^ b for a, b in zip(s[j], w[nb * r + j])] for j in range(nb)]
        return [b for c in s for b in c]
    return f


# ---------------------------------------------------------------- Khazad, Anubis (Barreto, Rijmen), tweaked versions
def _mini(P, Q):
    s = []
    for x in range(256):
        a, b = P[x >> 4], Q[x & 15]
        a, b = (a & 0xC) | (b >> 2), ((a & 3) << 2) | (b & 3)
        a, b = Q[a], P[b]
        a, b = (a & 0xC) | (b >> 2), ((a & 3) << 2) | (b & 3)
        s.append(P[a] << 4 | Q[b])
    return s


KH_S = _mini([0x3, 0xF, 0xE, 0x0, 0x5, 0x4, 0xB, 0xC, 0xD, 0xA, 0x9, 0x6, 0x7, 0x8, 0x2, 0x1],
             [0x9, 0xE, 0x5, 0x6, 0xA, 0x2, 0x3, 0xC, 0xF, 0x0, 0x4, 0xD, 0x7, 0xB, 0x1, 0x8])
KH_H = [1, 3, 4, 5, 6, 8, 11, 7]


def _had(row, coef):
    n = len(coef)
    return [xsum([mulc(row[j], coef[i ^ j], 0x11D) for j in range(n)]) for i in range(n)]


def khazad(key, rounds, tweak, pt):
    k = pad0(key, 16)
    a, b = k[:8], k[8:]
    ks = []
    for r in range(rounds + 1):
        x = _had([tab(KH_S, v, 8) for v in b], KH_H)
        c = KH_S[8 * r:8 * r + 8]
        x = [x[i] ^ c[i] ^ a[i] for i in range(8)]
        ks.append(x)
        a, b = b, x
    s = [p ^ q for p, q in zip(pt, ks[0])]
    for r in range(1, rounds + 1):
        s = [tab(KH_S, v, 8) for v in s]
        if r < rounds:
            s = _had(s, KH_H)
        s = [p ^ q for p, q in zip(s, ks[r])]
    return s


AN_H = [1, 2, 4, 6]


def anubis(key, rounds, tweak, pt):
    n = -(-len(key) // 4)
    kap = chunks(pad0(key, 4 * n), 4)
    v = [1, 2, 6, 8]
    ks = []
    for r in range(rounds + 1):
        g = [[tab(KH_S, x, 8) for x in row] for row in kap]
        # K[c][m] = sum_i v_m^i g[i][c]
        K = []
        for c in range(4):
            row = []
            for m in range(4):
                e = 1
                acc = []
                for i in range(n):
                    acc.append(mulc(g[i][c], e, 0x11D))
                    e = gfmul(e, v[m], 0x11D)
                row.append(xsum(acc))
            K.append(row)
        ks.append(K)
        p = [[g[(i - j) % n][j] for j in range(4)] for i in range(n)]
        kap = [_had(row, AN_H) for row in p]
        kap[0] = [kap[0][j] ^ KH_S[4 * r + j] for j in range(4)]
    s = chunks(list(pt), 4)
    s = [[a ^ b for a, b in zip(s[i], ks[0][i])] for i in range(4)]
    for r in range(1, rounds + 1):
        s = [[tab(KH_S, s[j][i], 8) for j in range(4)] for i in range(4)]
        if r < rounds:
            s = [_had(row, AN_H) for row in s]
        s = [[a ^ b for a, b in zip(s[i], ks[r][i])] for i in range(4)]
    return [b for row in s for b in row]


# ---------------------------------------------------------------- ARIA (RFC 5794)
AR1 = AES_S
AR2 = gold.ARIA_S2
AR3 = [AR1.index(i) for i in range(256)]
AR4 = [AR2.index(i) for i in range(256)]
AR_A = [(3, 4, 6, 8, 9, 13, 14), (2, 5, 7, 8, 9, 12, 15), (1, 4, 6, 10, 11, 12, 15), (0, 5, 7, 10, 11, 13, 14),
        (0, 2, 5, 8, 11, 14, 15), (1, 3, 4, 9, 10, 14, 15), (0, 2, 7, 9, 10, 12, 13), (1, 3, 6, 8, 11, 12, 13),
        (0, 1, 4, 7, 10, 13, 15), (0, 1, 5, 6, 11, 12, 14), (2, 3, 5, 6, 8, 13, 15), (2, 3, 4, 7, 9, 12, 14),
        (1, 2, 6, 7, 9, 11, 12), (0, 3, 6, 7, 8, 10, 13), (0, 3, 4, 5, 9, 11, 14), (1, 2, 4, 5, 8, 10, 15)]
AR_C = [0x517cc1b727220a94fe13abe8fa9a6ee0, 0x6db14acc9e21c820ff28b1d5ef5de2b0, 0xdb92371d2126e9700324977504e8c90e]


def aria(key, rounds, tweak, pt):
    SL1 = lambda s: [tab((AR1, AR2, AR3, AR4)[i % 4], b, 8) for i, b in enumerate(s)]
    SL2 = lambda s: [tab((AR3, AR4, AR1, AR2)[i % 4], b, 8) for i, b in enumerate(s)]
    A = lambda s: [xsum([s[j] for j in row]) for row in AR_A]
    X = lambda a, b: [p ^ q for p, q in zip(a, b)]
    n = -(-len(key) // 4)
    k = pad0(key, 32)
    c0 = {6: 1, 8: 2}.get(n, 0)
    CK = [bytesW(AR_C[(c0 + i) % 3].to_bytes(16, 'big')) for i in range(3)]
    W0 = k[:16]
    W1 = X(A(SL1(X(W0, CK[0]))), k[16:])
    W2 = X(A(SL2(X(W1, CK[1]))), W0)
    W3 = X(A(SL1(X(W2, CK[2]))), W1)
    Ws = [W0, W1, W2, W3]
    ek = []
    for i in range(rounds + 1):
        r = (19, 31, 128 - 61, 128 - 31, 128 - 19)[(i // 4) % 5]
        ek.append(X(Ws[i % 4], be(Ws[(i + 1) % 4]).ror(r).be()))
    s = list(pt)
    for i in range(rounds - 1):
        s = A((SL2 if i & 1 else SL1)(X(s, ek[i])))
    return X(SL2(X(s, ek[rounds - 1])), ek[rounds])


# ---------------------------------------------------------------- Camellia (RFC 3713)
CM1 = gold.CAMELLIA_S1
CM2 = [(x << 1 | x >> 7) & 255 for x in CM1]
CM3 = [(x << 7 | x >> 1) & 255 for x in CM1]
CM4 = [CM1[(x << 1 | x >> 7) & 255] for x in range(256)]
CM_SIG = [0xA09E667F3BCC908B, 0xB67AE8584CAA73B2, 0xC6EF372FE94F82BE, 0x54FF53A5F1D36F1C, 0x10E527FADE682D1D, 0xB05688C2B3E6C1FD]


def _cm_F(x, k):
    t = (x ^ k).be()
    t = [tab((CM1, CM2, CM3, CM4, CM2, CM3, CM4, CM1)[i], t[i], 8) for i in range(8)]
    y = [(0, 2, 3, 5, 6, 7), (0, 1, 3, 4, 6, 7), (0, 1, 2, 4, 5, 7), (1, 2, 3, 4, 5, 6),
         (0, 1, 5, 6, 7), (1, 2, 4, 6, 7), (2, 3, 4, 5, 7), (0, 3, 4, 5, 6)]
    return be([xsum([t[j] for j in r]) for r in y])


def camellia(key, rounds, tweak, pt):
    # short keys: the missing half (of the first or second 128 bits) is the complement of the bytes eight places before
    n = len(key)
    t = list(key)
    t += [B(0)] * (8 - len(t))
    if len(t) < 16:
        e = len(t) + 8
        while len(t) < e:
            t.append(~t[len(t) - 8])
    if n > 16:
        t += [B(0)] * (24 - len(t))
        if len(t) == 24:
            t += [~b for b in t[16:24]]
    t += [B(0)] * (32 - len(t))
    KL, KR = be(t[:16]), be(t[16:])
    F = lambda x, i: _cm_F(x, W(CM_SIG[i], 64))
    d = KL ^ KR
    d1, d2 = d.bits(64, 64), d.bits(0, 64)
    d2 = d2 ^ F(d1, 0)
    d1 = d1 ^ F(d2, 1)
    d = cat([d2, d1]) ^ KL
    d1, d2 = d.bits(64, 64), d.bits(0, 64)
    d2 = d2 ^ F(d1, 2)
    d1 = d1 ^ F(d2, 3)
    KA = cat([d2, d1])
    d = KA ^ KR
    d1, d2 = d.bits(64, 64), d.bits(0, 64)
    d2 = d2 ^ F(d1, 4)
    d1 = d1 ^ F(d2, 5)
    KB = cat([d2, d1])
    H = lambda x, r: [x.rol(r).bits(64, 64), x.rol(r).bits(0, 64)]
    if n <= 16:
        k = H(KA, 0) + H(KL, 15) + H(KA, 15) + H(KL, 45) + [H(KA, 45)[0], H(KL, 60)[1]] + H(KA, 60) + H(KL, 94) + H(KA, 94) + H(KL, 111)
        ke = H(KA, 30) + H(KL, 77)
        kw = H(KL, 0) + H(KA, 111)
    else:
        k = H(KB, 0) + H(KR, 15) + H(KA, 15) + H(KB, 30) + H(KL, 45) + H(KA, 45) + H(KR, 60) + H(KB, 60) + H(KL, 77) + H(KR, 94) + H(KA, 94) + H(KL, 111)
        ke = H(KR, 30) + H(KL, 60) + H(KA, 77)
        kw = H(KL, 0) + H(KB, 111)
    d1, d2 = bes(pt, 64)
    d1, d2 = d1 ^ kw[0], d2 ^ kw[1]
    for r in range(len(k)):
        if r and r % 6 == 0:
            x1, x2 = d1.bits(32, 32), d1.bits(0, 32)
            q = ke[r // 3 - 2]
            x2 = x2 ^ (x1 & q.bits(32, 32)).rol(1)
            x1 = x1 ^ (x2 | q.bits(0, 32))
            d1 = cat([x2, x1])
            y1, y2 = d2.bits(32, 32), d2.bits(0, 32)
            q = ke[r // 3 - 1]
            y1 = y1 ^ (y2 | q.bits(0, 32))
            y2 = y2 ^ (y1 & q.bits(32, 32)).rol(1)
            d2 = cat([y2, y1])
        d1, d2 = d2 ^ _cm_F(d1, k[r]), d1
    return tobe([d2 ^ kw[2], d1 ^ kw[3]])


# ---------------------------------------------------------------- SEED (RFC 4269)
def _seed_G(x):
    y = [tab(gold.SEED_S1 if i % 2 == 0 else gold.SEED_S2, x.byte(i), 8) for i in range(4)]
    m = [0xFC, 0xF3, 0xCF, 0x3F]
    return le([xsum([y[j] & m[(j + i) % 4] for j in range(4)]) for i in range(4)])


def seed(key, rounds, tweak, pt):
    k = be(pad0(key, 16))
    ks = []
    kc = 0x9E3779B9
    for i in range(rounds):
        a, b, c, d = [k.bits(96 - 32 * j, 32) for j in range(4)]
        ks.append((_seed_G(a + c - kc), _seed_G(b - d + kc)))
        if i % 2 == 0:
            k = cat([k.bits(0, 64), k.bits(64, 64).ror(8)])
        else:
            k = cat([k.bits(0, 64).rol(8), k.bits(64, 64)])
        kc = (kc << 1 | kc >> 31) & 0xFFFFFFFF
    l0, l1, r0, r1 = bes(pt, 32)
    for k0, k1 in ks:
        c = r0 ^ k0
        d = r1 ^ k1
        d = _seed_G(c ^ d)
        c = _seed_G(c + d)
        d = _seed_G(d + c)
        c = c + d
        l0, l1, r0, r1 = r0, r1, l0 ^ c, l1 ^ d
    return tobe([r0, r1, l0, l1])


# ---------------------------------------------------------------- SM4 (GB/T 32907)
def sm4(key, rounds, tweak, pt):
    fk = [0xA3B1BAC6, 0x56AA3350, 0x677D9197, 0xB27022DC]
    tau = lambda x: le([tab(gold.SM4_S, b, 8) for b in x.le()])
    k = [w ^ f for w, f in zip(bes(pad0(key, 16), 32), fk)]
    x = bes(pt, 32)
    for i in range(rounds):
        ck = 0
        for j in range(4):
            ck = ck << 8 | (4 * i + j) * 7 % 256
        b = tau(k[1] ^ k[2] ^ k[3] ^ ck)
        rk = k[0] ^ b ^ b.rol(13) ^ b.rol(23)
        k = k[1:] + [rk]
        b = tau(x[1] ^ x[2] ^ x[3] ^ rk)
        x = x[1:] + [x[0] ^ b ^ b.rol(2) ^ b.rol(10) ^ b.rol(18) ^ b.rol(24)]
    return tobe(x[::-1])


# ---------------------------------------------------------------- GOST 28147-89 / Magma
def gost(flat):
    box = chunks(flat, 16)

    def f(key, rounds, tweak, pt):
        n = -(-len(key) // 4)
        k = les(pad0(key, 4 * n), 32)
        l, r = les(pt, 32)
        seq = [i % n for i in range(max(n, rounds - n))] + list(range(n - 1, -1, -1))
        for i in seq[:rounds]:
            t = l + k[i]
            t = cat([tab(box[j], t.bits(4 * j, 4), 4) for j in range(8)]).rol(11)
            l, r = r ^ t, l
        return tole([r, l])
    return f


# ---------------------------------------------------------------- Skipjack (NSA 1998), byte order of the reference vectors reversed
def skipjack(key, rounds, tweak, pt):
    k = pad0(key, 10)[::-1]
    w = [le(pt[6:8]), le(pt[4:6]), le(pt[2:4]), le(pt[0:2])]

    def G(x, kk):
        # x = (g1 high byte of the reference, g2)
        a, b = x.byte(1), x.byte(0)
        a = a ^ tab(gold.SKIPJACK_F, b ^ k[(4 * kk) % 10], 8)
        b = b ^ tab(gold.SKIPJACK_F, a ^ k[(4 * kk + 1) % 10], 8)
        a = a ^ tab(gold.SKIPJACK_F, b ^ k[(4 * kk + 2) % 10], 8)
        b = b ^ tab(gold.SKIPJACK_F, a ^ k[(4 * kk + 3) % 10], 8)
        return le([b, a])
    for i in range(32):
        if i // 8 % 2 == 0:
            g = G(w[0], i)
            w = [g ^ w[3] ^ (i + 1), g, w[1], w[2]]
        else:
            w = [w[3], G(w[0], i), w[0] ^ w[1] ^ (i + 1), w[2]]
    return w[3].le() + w[2].le() + w[1].le() + w[0].le()


# ---------------------------------------------------------------- CAST-128 (RFC 2144)
def cast5(key, rounds, tweak, pt):
    S = {i: getattr(gold, 'CAST5_S%d' % i) for i in range(1, 9)}
    L = lambda i, b: tab(S[i], b, 32)
    x = pad0(key, 16)

    def word(src, i):
        return be(src[i:i + 4])

    def mix(base, a, idx, extra, ebyte, tbl):
        return (base ^ L(5, a[idx[0]]) ^ L(6, a[idx[1]]) ^ L(7, a[idx[2]]) ^ L(8, a[idx[3]]) ^ L(tbl, extra[ebyte])).be()
    ks = []
    for half in range(2):
        z = mix(word(x, 0), x, (13, 15, 12, 14), x, 8, 7)
        z = z + mix(word(x, 8), z, (0, 2, 1, 3), x, 10, 8)
        z = z + mix(word(x, 12), z, (7, 6, 5, 4), x, 9, 5)
        z = z + mix(word(x, 4), z, (10, 9, 11, 8), x, 11, 6)
        K = lambda s, a, b, c, d, e, t: ks.append(L(5, s[a]) ^ L(6, s[b]) ^ L(7, s[c]) ^ L(8, s[d]) ^ L(t, s[e]))
        K(z, 8, 9, 7, 6, 2, 5); K(z, 10, 11, 5, 4, 6, 6); K(z, 12, 13, 3, 2, 9, 7); K(z, 14, 15, 1, 0, 12, 8)

        def back(z):
            x = mix(word(z, 8), z, (5, 7, 4, 6), z, 0, 7)
            x = x + mix(word(z, 0), x, (0, 2, 1, 3), z, 2, 8)
            x = x + mix(word(z, 4), x, (7, 6, 5, 4), z, 1, 5)
            x = x + mix(word(z, 12), x, (10, 9, 11, 8), z, 3, 6)
            return x
        x = back(z)
        K(x, 3, 2, 12, 13, 8, 5); K(x, 1, 0, 14, 15, 13, 6); K(x, 7, 6, 8, 9, 3, 7); K(x, 5, 4, 10, 11, 7, 8)
        z = mix(word(x, 0), x, (13, 15, 12, 14), x, 8, 7)
        z = z + mix(word(x, 8), z, (0, 2, 1, 3), x, 10, 8)
        z = z + mix(word(x, 12), z, (7, 6, 5, 4), x, 9, 5)
        z = z + mix(word(x, 4), z, (10, 9, 11, 8), x, 11, 6)
        K(z, 3, 2, 12, 13, 9, 5); K(z, 1, 0, 14, 15, 12, 6); K(z, 7, 6, 8, 9, 2, 7); K(z, 5, 4, 10, 11, 6, 8)
        x = back(z)
        K(x, 8, 9, 7, 6, 3, 5); K(x, 10, 11, 5, 4, 7, 6); K(x, 12, 13, 3, 2, 8, 7); K(x, 14, 15, 1, 0, 13, 8)
    l, r = bes(pt, 32)
    for i in range(12 if rounds <= 12 else 16):
        km, kr = ks[i], ks[16 + i].bits(0, 5)
        if i % 3 == 0:
            t = (km + r).rol(kr)
            f = ((L(1, t.byte(3)) ^ L(2, t.byte(2))) - L(3, t.byte(1))) + L(4, t.byte(0))
        elif i % 3 == 1:
            t = (km ^ r).rol(kr)
            f = ((L(1, t.byte(3)) - L(2, t.byte(2))) + L(3, t.byte(1))) ^ L(4, t.byte(0))
        else:
            t = (km - r).rol(kr)
            f = ((L(1, t.byte(3)) + L(2, t.byte(2))) ^ L(3, t.byte(1))) - L(4, t.byte(0))
        l, r = r, l ^ f
    return tobe([r, l])


# ---------------------------------------------------------------- RC2 (RFC 2268, effective key length = key length)
def rc2(key, rounds, tweak, pt):
    P = gold.RC2_PI
    t8 = len(key)
    L = list(key)
    for i in range(t8, 128):
        L.append(tab(P, L[i - 1] + L[i - t8], 8))
    L[128 - t8] = tab(P, L[128 - t8], 8)
    for i in range(127 - t8, -1, -1):
        L[i] = tab(P, L[i + 1] ^ L[i + t8], 8)
    K = les(L, 16)
    R = les(pt, 16)
    j = 0
    for rnd in range(16):
        for i in range(4):
            R[i] = (R[i] + K[j] + (R[(i - 1) % 4] & R[(i - 2) % 4]) + (~R[(i - 1) % 4] & R[(i - 3) % 4])).rol((1, 2, 3, 5)[i])
            j += 1
        if rnd in (4, 10):
            for i in range(4):
                R[i] = R[i] + tab(K, R[(i - 1) % 4].bits(0, 6), 16)
    return tole(R)


# ---------------------------------------------------------------- DES and triple DES (FIPS 46-3)
DES_IP = [58, 50, 42, 34, 26, 18, 10, 2, 60, 52, 44, 36, 28, 20, 12, 4, 62, 54, 46, 38, 30, 22, 14, 6, 64, 56, 48, 40, 32, 24, 16, 8,
          57, 49, 41, 33, 25, 17, 9, 1, 59, 51, 43, 35, 27, 19, 11, 3, 61, 53, 45, 37, 29, 21, 13, 5, 63, 55, 47, 39, 31, 23, 15, 7]
DES_E = [32, 1, 2, 3, 4, 5, 4, 5, 6, 7, 8, 9, 8, 9, 10, 11, 12, 13, 12, 13, 14, 15, 16, 17, 16, 17, 18, 19, 20, 21, 20, 21, 22, 23, 24, 25, 24, 25, 26, 27, 28, 29, 28, 29, 30, 31, 32, 1]
DES_P = [16, 7, 20, 21, 29, 12, 28, 17, 1, 15, 23, 26, 5, 18, 31, 10, 2, 8, 24, 14, 32, 27, 3, 9, 19, 13, 30, 6, 22, 11, 4, 25]
DES_PC1 = [57, 49, 41, 33, 25, 17, 9, 1, 58, 50, 42, 34, 26, 18, 10, 2, 59, 51, 43, 35, 27, 19, 11, 3, 60, 52, 44, 36,
           63, 55, 47, 39, 31, 23, 15, 7, 62, 54, 46, 38, 30, 22, 14, 6, 61, 53, 45, 37, 29, 21, 13, 5, 28, 20, 12, 4]
DES_PC2 = [14, 17, 11, 24, 1, 5, 3, 28, 15, 6, 21, 10, 23, 19, 12, 4, 26, 8, 16, 7, 27, 20, 13, 2,
           41, 52, 31, 37, 47, 55, 30, 40, 51, 45, 33, 48, 44, 49, 39, 56, 34, 53, 46, 42, 50, 36, 29, 32]
DES_SH = [1, 1, 2, 2, 2, 2, 2, 2, 1, 2, 2, 2, 2, 2, 2, 1]
DES_S = [
    'E4D12FB83A6C5907 0F74E2D1A6CBB953 41E8D62BFC973A50 FC8249175B3EA06D'.replace('0F74E2D1A6CBB953', '0F74E2D1A6CB9538'),
    'F18E6B34972DC05A 3D47F28EC01A69B5 0E7BA4D158C6932F D8A13F42B67C05E9',
    'A09E63F51DC7B428 D709346A285ECBF1 D6498F30B12C5AE7 1AD069874FE3B52C',
    '7DE3069A1285BC4F D8B56F03472C1AE9 A690CB7DF13E5284 3F06A1D8945BC72E',
    '2C417AB6853FD0E9 EB2C47D150FA3986 421BAD78F9C5630E B8C71E2D6F09A453',
    'C1AF92680D34E75B AF427C9561DE0B38 9EF528C3704A1DB6 432C95FABE17608D',
    '4B2EF08D3C975A61 D0B7491AE35C2F86 14BDC37EAF680592 6BD814A7950FE23C',
    'D2846FB1A93E50C7 1FD8A374C56B0E92 7B419CE206ADF358 21E74A8DFC90356B']
DES_T = []
for _s in DES_S:
    _r = [[int(c, 16) for c in row] for row in _s.split()]
    DES_T.append([_r[(v >> 4 & 2) | (v & 1)][v >> 1 & 15] for v in range(64)])


def _perm(bits, p):
    return [bits[i - 1] for i in p]


def _tobits(bs):
    return [b.bits(7 - i, 1) for b in bs for i in range(8)]


def _frombits(bits):
    return [cat(bits[i:i + 8][::-1]) for i in range(0, len(bits), 8)]


def _des_keys(key):
    c = _perm(_tobits(pad0(key, 8)), DES_PC1)
    c, d = c[:28], c[28:]
    ks = []
    for s in DES_SH:
        c, d = c[s:] + c[:s], d[s:] + d[:s]
        ks.append(_perm(c + d, DES_PC2))
    return ks


def _des(ks, bs):
    x = _perm(_tobits(bs), DES_IP)
    l, r = x[:32], x[32:]
    for k in ks:
        e = [a ^ b for a, b in zip(_perm(r, DES_E), k)]
        o = []
        for i in range(8):
            v = tab(DES_T[i], cat(e[6 * i:6 * i + 6][::-1]), 4)
            o += [v.bits(3 - j, 1) for j in range(4)]
        l, r = r, [a ^ b for a, b in zip(l, _perm(o, DES_P))]
    x = r + l
    inv = [DES_IP.index(i + 1) + 1 for i in range(64)]
    return _frombits(_perm(x, inv))


def des(key, rounds, tweak, pt):
    if len(key) <= 8:
        return _des(_des_keys(key), pt)
    k1, k2 = _des_keys(key[:8]), _des_keys(key[8:16])
    k3 = _des_keys(key[16:]) if len(key) > 16 else k1
    return _des(k3, _des(k2[::-1], _des(k1, pt)))


# ---------------------------------------------------------------- Serpent (Anderson, Biham, Knudsen)
SERPENT_S = ['38F1A65BED42709C', 'FC27905A1BE86D34', '86793CAFD1E40B52', '0FB8C963D124A75E', '1F83C0B6254A9E7D', 'F52B4A9C03E8D671', '72C5846BE91FD3A0', '1DF0E82B74CA9356']
SERPENT_T = [[int(c, 16) for c in s] for s in SERPENT_S]


def bitslice(t, ws):
    """4-bit table applied to the columns of four words, first word = least significant bit"""
    w = ws[0].w
    o = [tab(t, cat([x.bits(i, 1) for x in ws]), 4) for i in range(w)]
    return [cat([v.bits(j, 1) for v in o]) for j in range(4)]


def serpent(key, rounds, tweak, pt):
    k = list(key)
    if len(k) < 32:
        k.append(B(1))
    w = les(pad0(k, 32), 32)
    for i in range(4 * (rounds + 1)):
        w.append((w[i] ^ w[i + 3] ^ w[i + 5] ^ w[i + 7] ^ 0x9E3779B9 ^ i).rol(11))
    w = w[8:]
    ks = [bitslice(SERPENT_T[(3 - i) % 8], w[4 * i:4 * i + 4]) for i in range(rounds + 1)]
    x = les(pt, 32)
    for r in range(rounds):
        x = [a ^ b for a, b in zip(x, ks[r])]
        x = bitslice(SERPENT_T[r % 8], x)
        if r < rounds - 1:
            a, b, c, d = x
            a = a.rol(13)
            c = c.rol(3)
            b = b ^ a ^ c
            d = d ^ c ^ (a << 3)
            b = b.rol(1)
            d = d.rol(7)
            a = a ^ b ^ d
            c = c ^ d ^ (b << 7)
            x = [a.rol(5), b, c.rol(22), d]
    return tole([a ^ b for a, b in zip(x, ks[rounds])])


# ---------------------------------------------------------------- RECTANGLE (Zhang et al.)
RECT_T = [int(c, 16) for c in '65CA1E79B03D8F42']


def rectangle(key, rounds, tweak, pt):
    rc = 1
    ks = []
    if len(key) > 10:
        k = bes(pad0(key, 16), 32)
        nc = 8
    else:
        k = bes(pad0(key, 10), 16)
        nc = 4
    for i in range(rounds):
        ks.append([w.bits(0, 16) for w in k[:4]])
        s = bitslice(RECT_T, [w.bits(0, nc) for w in k[:4]])
        k = [cat([s[j], k[j].bits(nc, k[j].w - nc)]) for j in range(4)] + k[4:]
        if nc == 8:
            k = [k[0].rol(8) ^ k[1], k[2], k[2].rol(16) ^ k[3], k[0]]
        else:
            k = [k[0].rol(8) ^ k[1], k[2], k[3], k[3].rol(12) ^ k[4], k[0]]
        k[0] = k[0] ^ rc
        rc = (rc << 1 & 31) | ((rc >> 4 ^ rc >> 2) & 1)
    ks.append([w.bits(0, 16) for w in k[:4]])
    x = bes(pt, 16)
    for i in range(rounds):
        x = bitslice(RECT_T, [a ^ b for a, b in zip(x, ks[i])])
        x = [x[0], x[1].rol(1), x[2].rol(12), x[3].rol(13)]
    return tobe([a ^ b for a, b in zip(x, ks[rounds])])


# ---------------------------------------------------------------- SAFER K/SK, SAFER++ (Massey)
EXP = [pow(45, x, 257) & 255 for x in range(256)]
LOG = [EXP.index(x) for x in range(256)]
_e = lambda x: tab(EXP, x, 8)
_l = lambda x: tab(LOG, x, 8)


def safer(sk):
    def f(key, rounds, tweak, pt):
        k = pad0(key, 16)
        k2 = k[8:] if len(key) > 8 else k[:8]
        ka = [b.rol(5) for b in k[:8]]
        ka.append(xsum(ka))
        kb = list(k2)
        kb.append(xsum(kb))
        ks = [list(k2)]
        for i in range(2, 2 * rounds + 1, 2):
            ka = [b.rol(6) for b in ka]
            kb = [b.rol(6) for b in kb]
            ks.append([ka[(i - 1 + j) % 9 if sk else j] + EXP[EXP[(9 * i + 1 + j) & 255]] for j in range(8)])
            ks.append([kb[(i + j) % 9 if sk else j] + EXP[EXP[(9 * i + 10 + j) & 255]] for j in range(8)])
        x = list(pt)
        for r in range(rounds):
            a, b = ks[2 * r], ks[2 * r + 1]
            x = [_e(x[j] ^ a[j]) + b[j] if j % 4 in (0, 3) else _l(x[j] + a[j]) ^ b[j] for j in range(8)]
            for lv in range(3):
                y = []
                for j in range(0, 8, 2):
                    y.append(x[j] + x[j] + x[j + 1])
                    y.append(x[j] + x[j + 1])
                x = y if lv == 2 else [y[j] for j in (0, 2, 4, 6, 1, 3, 5, 7)]
        a = ks[2 * rounds]
        return [x[j] ^ a[j] if j % 4 in (0, 3) else x[j] + a[j] for j in range(8)]
    return f


def saferpp(key, rounds, tweak, pt):
    k = pad0(key, 32)
    k2 = k[16:] if len(key) > 16 else k[:16]
    ka = [b.rol(5) for b in k2]
    ka.append(xsum(ka))
    kb = list(k[:16])
    kb.append(xsum(kb))
    ks = [k[:16]]

    def bias(row, j):
        # row numbers start at 2; the first fifteen biases are doubly exponentiated
        v = EXP[(17 * row + j + 1) & 255]
        return EXP[v] if row < 16 else v
    for i in range(2, 2 * rounds + 1, 2):
        ka = [b.rol(6) for b in ka]
        kb = [b.rol(6) for b in kb]
        ks.append([ka[(i - 1 + j) % 17] + bias(i, j) for j in range(16)])
        ks.append([kb[(i + j) % 17] + bias(i + 1, j) for j in range(16)])
    x = list(pt)

    def pht4(x):
        # the four-point transform after the shuffle
        perm = [8, 5, 2, 15, 0, 13, 10, 7, 4, 1, 14, 11, 12, 9, 6, 3]
        y = [None] * 16
        for g in range(0, 16, 4):
            a, b, c, d = [x[p] for p in perm[g:g + 4]]
            s = a + b + c + d
            y[g:g + 4] = [a + s, b + s, c + s, s]
        return y
    for r in range(rounds):
        a, b = ks[2 * r], ks[2 * r + 1]
        x = [_e(x[j] ^ a[j]) + b[j] if j % 4 in (0, 3) else _l(x[j] + a[j]) ^ b[j] for j in range(16)]
        x = pht4(pht4(x))
    a = ks[2 * rounds]
    return [x[j] ^ a[j] if j % 4 in (0, 3) else x[j] + a[j] for j in range(16)]


# ---------------------------------------------------------------- Twofish (Schneier et al.)
def _q(ts):
    t = [[int(c, 16) for c in s] for s in ts]
    ror4 = lambda x: (x >> 1 | x << 3) & 15
    o = []
    for x in range(256):
        a, b = x >> 4, x & 15
        for h in (0, 2):
            a, b = a ^ b, a ^ ror4(b) ^ (8 * a & 15)
            a, b = t[h][a], t[h + 1][b]
        o.append(b << 4 | a)
    return o


Q0 = _q(['817D6F320B59ECA4', 'ECB81235F4A6709D', 'BA5E6D90C8F32471', 'D7F4126E9B3085CA'])
Q1 = _q(['28BDF76E31940AC5', '1E2B4C376DA5F908', '4C75169A0ED82B3F', 'B951C3DE647F208A'])
TF_MDS = [[0x01, 0xEF, 0x5B, 0x5B], [0x5B, 0xEF, 0xEF, 0x01], [0xEF, 0x5B, 0x01, 0xEF], [0xEF, 0x01, 0xEF, 0x5B]]
TF_RS = [[0x01, 0xA4, 0x55, 0x87, 0x5A, 0x58, 0xDB, 0x9E], [0xA4, 0x56, 0x82, 0xF3, 0x1E, 0xC6, 0x68, 0xE5],
         [0x02, 0xA1, 0xFC, 0xC1, 0x47, 0xAE, 0x3D, 0x19], [0xA4, 0x55, 0x87, 0x5A, 0x58, 0xDB, 0x9E, 0x03]]
TF_Q = [(Q1, Q1, Q0, Q0, Q1), (Q0, Q1, Q1, Q0, Q0), (Q0, Q0, Q0, Q1, Q1), (Q1, Q0, Q1, Q1, Q0)]


def _tf_col(i, x, L):
    """byte lane i of h: L = list of key bytes, first used last"""
    k = len(L)
    for j in range(k - 1, -1, -1):
        x = tab(TF_Q[i][3 - j], x, 8) ^ L[j]
    return tab(TF_Q[i][4], x, 8)


def _tf_mds(i, y):
    return le([mulc(y, TF_MDS[r][i], 0x169) for r in range(4)])


def twofish(key, rounds, tweak, pt):
    n = -(-len(key) // 8)
    k = pad0(key, 8 * n)
    m = chunks(k, 4)
    me, mo = m[0::2], m[1::2]

    def h(x, L):
        return xsum([_tf_mds(i, _tf_col(i, B(x), [w[i] for w in L])) for i in range(4)])
    ks = []
    for i in range(rounds + 4):
        a = h(2 * i, me)
        b = h(2 * i + 1, mo).rol(8)
        ks += [a + b, (a + b + b).rol(9)]
    S = []
    for j in range(n):
        c = k[8 * j:8 * j + 8]
        S.append([xsum([mulc(c[t], TF_RS[r][t], 0x14D) for t in range(8)]) for r in range(4)])
    S = S[::-1]
    box = [[_tf_mds(i, _tf_col(i, B(x), [w[i] for w in S])) for x in range(256)] for i in range(4)]
    g = lambda x: xsum([tab(box[i], x.byte(i), 32) for i in range(4)])
    x = [a ^ b for a, b in zip(les(pt, 32), ks[:4])]
    for r in range(rounds):
        t0, t1 = g(x[0]), g(x[1].rol(8))
        f0, f1 = t0 + t1 + ks[2 * r + 8], t0 + t1 + t1 + ks[2 * r + 9]
        x = [(x[2] ^ f0).ror(1), x[3].rol(1) ^ f1, x[0], x[1]]
    x = [x[2], x[3], x[0], x[1]]
    return tole([a ^ b for a, b in zip(x, ks[4:8])])


# ---------------------------------------------------------------- Blowfish (Schneier)
def _pi_words(n):
    """fraction of pi in 32-bit words (Machin's formula)"""
    bits = 32 * n + 64
    one = 1 << bits

    def arctan_inv(x):
        s = t = one // x
        k = 3
        sg = -1
        while t:
            t //= x * x
            s += sg * (t // k)
            sg = -sg
            k += 2
        return s
    pi = 4 * (4 * arctan_inv(5) - arctan_inv(239))
    f = (pi - 3 * one) >> 64
    return [f >> (32 * (n - 1 - i)) & 0xFFFFFFFF for i in range(n)]


_PI = []


def pi_words(n):
    if len(_PI) < n:
        _PI[:] = _pi_words(max(n, 1060))
    return _PI[:n]


def blowfish_init(key, rounds):
    pi = pi_words(rounds + 2 + 1024)
    P = []
    j = 0
    for i in range(rounds + 2):
        w = []
        for b in range(4):
            w.append(key[j])
            j = (j + 1) % len(key)
        P.append(be(w) ^ pi[i])
    S = [[W(v, 32) for v in pi[rounds + 2 + 256 * i:rounds + 2 + 256 * i + 256]] for i in range(4)]
    return P, S


def blowfish_crypt(P, S, rounds, l, r):
    for i in range(rounds):
        l = l ^ P[i]
        f = ((tab(S[0], l.byte(3), 32) + tab(S[1], l.byte(2), 32)) ^ tab(S[2], l.byte(1), 32)) + tab(S[3], l.byte(0), 32)
        l, r = r ^ f, l
    l, r = r, l
    return l ^ P[rounds + 1], r ^ P[rounds]


def blowfish(key, rounds, tweak, pt):
    P, S = blowfish_init(key, rounds)
    l = r = W(0, 32)
    n = rounds + 2
    i = 0
    while i < n:
        l, r = blowfish_crypt(P, S, rounds, l, r)
        P[i] = l
        if i + 1 < n:
            P[i + 1] = r
        i += 2
    for s in S:
        for i in range(0, 256, 2):
            l, r = blowfish_crypt(P, S, rounds, l, r)
            s[i], s[i + 1] = l, r
    return tobe(blowfish_crypt(P, S, rounds, *bes(pt, 32)))


SPECS = {
    'rijndael128': rijndael(4), 'rijndael256': rijndael(8), 'khazad': khazad, 'anubis': anubis, 'aria': aria, 'camellia': camellia,
    'seed': seed, 'sm4': sm4, 'gost_cbr': gost(gold.GOST_CBR), 'gost_r34': gost(gold.GOST_R34), 'skipjack': skipjack, 'cast5': cast5,
    'rc2': rc2, 'des': des, 'serpent': serpent, 'rectangle': rectangle, 'safer': safer(False), 'safer_sk': safer(True), 'saferpp': saferpp,
    'twofish': twofish, 'blowfish': blowfish,
}

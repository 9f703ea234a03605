"""HMAC (RFC 2104), OMAC1/CMAC (SP 800-38B) and XCBC (RFC 3566), EAX, over byte lists of terms."""
from .. import terms as T
from .modes import X


def be_word(b):
    return T.concat([(x, 8) for x in reversed(b)])


def from_be(w, n):
    return [T.extract(w, 8 * (n - 1 - j), 8) for j in range(n)]


def double(b, poly):
    """multiplication by x in GF(2^n), bytes big-endian"""
    n = len(b)
    w = be_word(b)
    top = T.bits(w, 8 * n)[8 * n - 1]
    d = T.shl(w, 1, 8 * n)
    return from_be(T.ite(top, T.xor(d, poly, 8 * n), d, 8 * n), n)


class Omac:
    """sigma: key identity (8), previous cipher block, current block (xored into it as far as filled), the two key blocks"""
    unit = 1

    def __init__(self, bs, E):
        self.bs, self.P, self.E_ = bs, bs, E
        self.words = [(0, 8)] + [(8 + i * bs, bs) for i in range(4)]

    def init(self, kid):
        L = double(self.E_(list(kid), [0] * self.bs), POLY[self.bs])
        return list(kid) + [0] * (2 * self.bs) + L + double(L, POLY[self.bs])

    def split(self, s):
        bs = self.bs
        return list(s[:8]), list(s[8:8 + bs]), list(s[8 + bs:8 + 2 * bs])

    def step(self, s, t, x):
        kid, prev, buf = self.split(s)
        keys = list(s[8 + 2 * self.bs:])
        u = t % self.bs
        if u == 0 and t:
            prev = self.E_(kid, buf)
        buf[u] = T.xor(prev[u], x[0], 8)
        return kid + prev + buf + keys, []

    def last(self, s, t):
        """the block with padding, and whether it was padded"""
        kid, prev, buf = self.split(s)
        u = t % self.bs
        if u == 0 and t:
            return kid, buf, False
        return kid, buf[:u] + [T.xor(prev[u], 0x80, 8)] + prev[u + 1:], True

    def final(self, s, t):
        kid, b, padded = self.last(s, t)
        k = list(s[8 + 2 * self.bs:])
        k = k[self.bs:] if padded else k[:self.bs]
        return self.E_(kid, X(b, k))


class Xcbc(Omac):
    """key identity of K1, K2, K3, previous cipher block xored with the data so far"""

    def __init__(self, bs, E, mkkey):
        Omac.__init__(self, bs, E)
        self.mkkey = mkkey
        self.words = [(0, 8), (8, bs), (8 + bs, bs), (8 + 2 * bs, bs)]

    def init(self, kid):
        bs = self.bs
        return self.mkkey(self.E_(kid, [1] * bs)) + self.E_(kid, [2] * bs) + self.E_(kid, [3] * bs) + [0] * bs

    def split(self, s):
        bs = self.bs
        return list(s[:8]), list(s[8:8 + bs]), list(s[8 + bs:8 + 2 * bs]), list(s[8 + 2 * bs:])

    def step(self, s, t, x):
        kid, k2, k3, buf = self.split(s)
        u = t % self.bs
        if u == 0 and t:
            buf = self.E_(kid, buf)
        buf[u] = T.xor(buf[u], x[0], 8)
        return kid + k2 + k3 + buf, []

    def final(self, s, t):
        kid, k2, k3, buf = self.split(s)
        u = t % self.bs
        if u == 0 and t:
            return self.E_(kid, X(buf, k2))
        buf[u] = T.xor(buf[u], 0x80, 8)
        return self.E_(kid, X(buf, k3))


def hmac(H, bs, rounds, key, msg, tag_len, out):
    """H(par, message) -> digest bytes; par = (rounds, salt, length).  The hash has tag_len bytes of output; the tag may be
    read shorter than it was asked for, then the outer hash has that length"""
    if len(key) > bs:
        n = min(tag_len, bs)
        key = H((rounds, (), n), list(key))[:n]
    k = list(key) + [0] * (bs - len(key))
    inner = H((rounds, (), tag_len), X(k, [0x36] * bs) + list(msg))[:out]
    return H((rounds, (), out), X(k, [0x5C] * bs) + inner)[:out]


# x^(8n) + ...: the lexicographically first irreducible polynomial with the fewest terms, by block length n
POLY = [
    0x0, 0x1B, 0x2B, 0x1B, 0x8D, 0x39, 0x2D, 0x95,
    0x1B, 0x609, 0x215, 0xC5, 0x641, 0x1B, 0x39, 0x1B,
    0x87, 0x2D, 0x95, 0x4D, 0x2D, 0x800D, 0x80D, 0x381,
    0x87, 0x2D, 0x20B, 0x8B, 0x309, 0x215, 0x129, 0xC401,
    0x425, 0x245, 0x20D, 0x225, 0xC03, 0x8D, 0x807, 0x291,
    0x1B, 0x10B, 0x93, 0x87, 0x2841, 0x2D, 0x8D, 0x1A1,
    0x100D, 0x2441, 0x2D, 0x2D, 0x225, 0x285, 0x2019, 0x1B,
    0x851, 0x40241, 0xC2001, 0x80D, 0x8241, 0x1B, 0x10025, 0xC041,
    0x125, 0x8805, 0x845, 0xA9, 0x10B, 0x90201, 0xA41, 0x80C1,
    0x2019, 0x6009, 0x2049, 0x225, 0x82041, 0x80409, 0x861, 0x207,
    0x400D, 0x200B, 0xB1, 0xB01, 0x861, 0x810201, 0x84041, 0x800405,
    0x10D, 0x39, 0x251, 0x1D, 0x2141, 0x2803, 0x2409, 0x861,
    0xA0011, 0xC081, 0x2241, 0x289, 0x283, 0x400D, 0x905, 0x851,
    0x2025, 0x823, 0x813, 0x80409, 0x200441, 0x200B, 0x80A1, 0xC0401,
    0xA9, 0x1085, 0xA3, 0x4241, 0x40D, 0xB001, 0x1A01, 0x10281,
    0x1209, 0x225, 0x20441, 0x1000209, 0x2A001, 0x39, 0xA0101, 0x8049,
    0x80043, 0x208009, 0x8501, 0x8085, 0x807, 0x2A01, 0x80301, 0x8241,
    0x600401, 0x1008041, 0x200241, 0x8141, 0x2241, 0x8B, 0x215, 0xA81,
    0x800D, 0x8805, 0x1085, 0xA09, 0x2D, 0x381, 0x8241, 0xC41,
    0xA000201, 0x1281, 0x2000405, 0x200A1, 0x8029, 0xC0000005, 0x2D, 0x10281,
    0x10A1, 0x810041, 0xC005, 0x128001, 0xC005, 0x1209, 0x200809, 0x10D,
    0x8043, 0x24041, 0x2D, 0x8221, 0xC0401, 0x823, 0x28021, 0x10B,
    0x6041, 0x641, 0x845, 0xC41, 0x6081, 0x80D, 0x215, 0x1209,
    0x813, 0xC05, 0x341, 0x2811, 0x10D, 0x609, 0x2409, 0x60081,
    0x200045, 0x883, 0x81005, 0x125, 0x200481, 0x100205, 0x282001, 0x10A1,
    0x4803, 0xA003, 0x2019, 0x2821, 0x28009, 0xA3, 0x42003, 0x88401,
    0x20241, 0x39, 0x845, 0x8141, 0x8049, 0x4809, 0x9021, 0x24401,
    0xC21, 0x84041, 0xC0005, 0x4D, 0x10D, 0x2000061, 0x609, 0xA00041,
    0x24009, 0x400025, 0x90201, 0x840003, 0xA3, 0x42081, 0x200405, 0x12009,
    0xA11, 0xA03, 0x425, 0x8015, 0x22005, 0x4000805, 0x1803, 0x108401,
    0x80D, 0x30081, 0x8403, 0x8440001, 0xC041, 0x28005, 0x2084001, 0x20A0001,
    0x2821, 0x4D, 0x2441, 0x4802001, 0x208081, 0x10800000201, 0xC5, 0x87,
]

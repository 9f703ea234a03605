"""Skein 1.3: UBI chaining over a tweakable block cipher E(key, tweak, block), bytes throughout."""
from .. import terms as T
from ..word import W, les, tole
from .blocks_arx import threefish_words

KEY, CFG, NONCE, MSG, OUT = 0, 4, 20, 48, 63


def tweak(pos, typ, first, final):
    """pos: number or 12 bytes"""
    p = list(pos) if type(pos) is list else [pos >> (8 * i) & 255 for i in range(12)]
    return p + [0, 0, 0, typ | (0x40 if first else 0) | (0x80 if final else 0)]


def ubi(E, bs, g, data, typ):
    n = len(data)
    blocks = [data[i:i + bs] for i in range(0, n, bs)] or [[]]
    for i, b in enumerate(blocks):
        b = list(b) + [0] * (bs - len(b))
        c = E(g, tweak(min(n, (i + 1) * bs), typ, i == 0, i == len(blocks) - 1), b)
        g = [T.xor(x, y, 8) for x, y in zip(c, b)]
    return g


def config(E, bs, g, bits):
    return ubi(E, bs, g, list(b'SHA3') + [1, 0, 0, 0] + [bits >> (8 * i) & 255 for i in range(8)] + [0] * 16, CFG)


def start(E, bs, bits, key=(), nonce=()):
    """chaining value before the message"""
    g = [0] * bs
    if key:
        g = ubi(E, bs, g, list(key), KEY)
    g = config(E, bs, g, bits)
    if nonce:
        g = ubi(E, bs, g, list(nonce), NONCE)
    return g


def block_out(E, bs, g, j):
    """output block j (number or eight bytes)"""
    c = (list(j) if type(j) is list else [j >> (8 * i) & 255 for i in range(8)]) + [0] * (bs - 8)
    return [T.xor(x, y, 8) for x, y in zip(E(g, tweak(8, OUT, True, True), c), c)]


def output(E, bs, g, n):
    out = []
    j = 0
    while len(out) < n:
        out += block_out(E, bs, g, j)
        j += 1
    return out[:n]


def skein(E, bs, bits, msg, n, key=(), nonce=()):
    return output(E, bs, ubi(E, bs, start(E, bs, bits, key, nonce), list(msg), MSG), n)


def real(bs, rounds=0):
    """E on numbers"""
    nw = bs // 8

    def ws(b):
        return les([W(x, 8) for x in b], 64)

    def E(key, tw, x):
        return [b.v for b in tole(threefish_words(nw, ws(key), ws(tw), ws(x), rounds or (80 if nw == 16 else 72)))]
    return E

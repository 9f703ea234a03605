"""PBKDF2 (RFC 8018) and scrypt (RFC 7914), on ints or terms."""
from .. import terms as T
from ..word import W, les, tole, B


def pbkdf2(prf, x, salt, it, n):
    out = []
    i = 1
    while len(out) < n:
        u = prf(list(salt) + [(i >> 24) & 255, (i >> 16) & 255, (i >> 8) & 255, i & 255])
        t = list(u)
        for _ in range(it - 1):
            u = prf(u)
            t = [T.xor(a, b, 8) for a, b in zip(t, u)]
        out += t
        i += 1
    return out[:n]


def quarter(y0, y1, y2, y3):
    y1 = y1 ^ (y0 + y3).rol(7)
    y2 = y2 ^ (y1 + y0).rol(9)
    y3 = y3 ^ (y2 + y1).rol(13)
    y0 = y0 ^ (y3 + y2).rol(18)
    return y0, y1, y2, y3


def salsa_double(x):
    x = list(x)
    for i in range(4):
        k = [4 * ((i + j) % 4) + i for j in range(4)]
        for a, v in zip(k, quarter(*[x[a] for a in k])):
            x[a] = v
    for i in range(4):
        k = [4 * i + (i + j) % 4 for j in range(4)]
        for a, v in zip(k, quarter(*[x[a] for a in k])):
            x[a] = v
    return x


def salsa20(x, rounds):
    """64 bytes -> 64 bytes"""
    w = les([B(c) for c in x], 32)
    y = w
    for _ in range(rounds // 2):
        y = salsa_double(y)
    out = []
    for a, b in zip(w, y):
        out += [c.v for c in tole([a + b])]
    return out


def salsa20_8(x):
    return salsa20(x, 8)


def blockmix(core, b, r):
    x = list(b[-64:])
    ys = []
    for i in range(2 * r):
        x = core([T.xor(p, q, 8) for p, q in zip(x, b[64 * i:64 * i + 64])])
        ys.append(list(x))
    return [c for y in ys[0::2] + ys[1::2] for c in y]


def romix(mix, b, r, n):
    x = list(b)
    v = []
    for _ in range(n):
        v.append(list(x))
        x = mix(x)
    k = n.bit_length() - 1
    for _ in range(n):
        z = T.concat([(c, 8) for c in x[-64:-56]])
        j = T.extract(z, 0, k)
        y = []
        for t in range(len(x)):
            col = [v[i][t] for i in range(n)]
            y.append(T.xor(x[t], col[j] if type(j) is int else T.select(col, tuple(j), 8), 8))
        x = mix(y)
    return x

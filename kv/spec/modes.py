"""Cipher modes over any block function E/D on lists of bytes (SP 800-38A)."""
from .. import terms as T


def X(a, b):
    return [T.xor(x, y, 8) for x, y in zip(a, b)]


def blocks(d, bs):
    return [d[i:i + bs] for i in range(0, len(d), bs)]


def ecb(E, D, iv, data, bs, enc):
    o = []
    for b in blocks(data, bs):
        o += (E if enc else D)(b)
    return o


def cbc(E, D, iv, data, bs, enc):
    o = []
    p = iv
    for b in blocks(data, bs):
        if enc:
            p = E(X(b, p))
            o += p
        else:
            o += X(D(b), p)
            p = b
    return o


def cfb(E, D, iv, data, bs, enc):
    o = []
    p = iv
    for b in blocks(data, bs):
        y = X(b, E(p))
        o += y
        p = y if enc else b
    return o


def ofb(E, D, iv, data, bs, enc):
    o = []
    p = iv
    for b in blocks(data, bs):
        p = E(p)
        o += X(b, p)
    return o


def be_word(b):
    return T.concat([(x, 8) for x in reversed(b)])


def ctr(E, D, iv, data, bs, enc):
    o = []
    n = be_word(iv)
    for b in blocks(data, bs):
        o += X(b, E([T.extract(n, 8 * (bs - 1 - j), 8) for j in range(bs)]))
        n = T.add(n, 1, 8 * bs)
    return o


MODES = {'ecb': ecb, 'cbc': cbc, 'cfb': cfb, 'ofb': ofb, 'ctr': ctr}


# ---------------------------------------------------------------- the same modes as state machines
class Machine_:
    """sigma: key identity (8 bytes), register r (bs), key stream block k (bs)"""
    unit = 1

    def __init__(self, bs, enc, E, D):
        self.bs, self.enc, self.E_, self.D_ = bs, enc, E, D
        self.P = bs
        self.words = [(0, 8), (8, bs), (8 + bs, bs)]

    def init(self, kid, iv):
        return list(kid) + list(iv) + [0] * self.bs

    def split(self, s):
        return s[:8], s[8:8 + self.bs], s[8 + self.bs:]


class Ofb(Machine_):
    def step(self, s, t, x):
        kid, r, k = self.split(s)
        u = t % self.bs
        if u == 0:
            r = self.E_(kid, r)
        return kid + r + k, [T.xor(x[0], r[u], 8)]


class Cfb(Machine_):
    """r: ciphertext before the position, key stream from it on"""

    def step(self, s, t, x):
        kid, r, k = self.split(s)
        u = t % self.bs
        if u == 0:
            r = self.E_(kid, r)
        y = T.xor(x[0], r[u], 8)
        r = list(r)
        r[u] = y if self.enc else x[0]
        return kid + r + k, [y]


class Ctr(Machine_):
    def step(self, s, t, x):
        kid, r, k = self.split(s)
        u = t % self.bs
        if u == 0:
            k = self.E_(kid, r)
            n = T.add(be_word(r), 1, 8 * self.bs)
            r = [T.extract(n, 8 * (self.bs - 1 - j), 8) for j in range(self.bs)]
        return kid + r + k, [T.xor(x[0], k[u], 8)]


class Cbc(Machine_):
    def __init__(self, bs, enc, E, D):
        Machine_.__init__(self, bs, enc, E, D)
        self.P = 1
        self.unit = bs

    def step(self, s, t, x):
        kid, r, k = self.split(s)
        if self.enc:
            r = self.E_(kid, X(x, r))
            return kid + r + k, r
        return kid + x + k, X(self.D_(kid, x), r)


class Ecb(Cbc):
    def step(self, s, t, x):
        kid, r, k = self.split(s)
        return s, (self.E_ if self.enc else self.D_)(kid, x)


MACHINES = {'ecb': Ecb, 'cbc': Cbc, 'cfb': Cfb, 'ofb': Ofb, 'ctr': Ctr}

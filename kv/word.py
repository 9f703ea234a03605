"""Width-carrying words for writing specifications: run on ints or on symbolic terms."""
from . import terms as T


class W:
    __slots__ = ('v', 'w')

    def __init__(self, v, w):
        self.v = v & ((1 << w) - 1) if type(v) is int else v
        self.w = w

    def _o(self, b):
        if type(b) is W:
            assert b.w == self.w, (self.w, b.w)
            return b.v
        return b & ((1 << self.w) - 1)

    def __add__(self, b):
        return W(T.add(self.v, self._o(b), self.w), self.w)
    __radd__ = __add__

    def __sub__(self, b):
        return W(T.sub(self.v, self._o(b), self.w), self.w)

    def __rsub__(self, b):
        return W(T.sub(self._o(b), self.v, self.w), self.w)

    def __mul__(self, b):
        return W(T.mul(self.v, self._o(b), self.w), self.w)
    __rmul__ = __mul__

    def __xor__(self, b):
        return W(T.xor(self.v, self._o(b), self.w), self.w)
    __rxor__ = __xor__

    def __and__(self, b):
        return W(T.and_(self.v, self._o(b), self.w), self.w)
    __rand__ = __and__

    def __or__(self, b):
        return W(T.or_(self.v, self._o(b), self.w), self.w)
    __ror__ = __or__

    def __invert__(self):
        return W(T.xor(self.v, (1 << self.w) - 1, self.w), self.w)

    def __neg__(self):
        return W(T.sub(0, self.v, self.w), self.w)

    def __lshift__(self, n):
        return W(T.shl(self.v, n, self.w), self.w)

    def __rshift__(self, n):
        return W(T.lshr(self.v, n, self.w), self.w)

    def rol(self, n):
        if type(n) is W:
            return W(T.rotl_var(self.v, n.v, self.w), self.w)
        return W(T.rotl(self.v, n % self.w, self.w), self.w)

    def ror(self, n):
        if type(n) is W:
            return W(T.rotr_var(self.v, n.v, self.w), self.w)
        return W(T.rotr(self.v, n % self.w, self.w), self.w)

    def bits(self, lo, n):
        return W(T.extract(self.v, lo, n), n)

    def byte(self, i):
        """byte i, least significant first"""
        return self.bits(8 * i, 8)

    def zx(self, w):
        return W(T.zext(self.v, self.w, w), w)

    def tr(self, w):
        return W(T.trunc(self.v, w), w)

    def le(self):
        return [self.byte(i) for i in range(self.w // 8)]

    def be(self):
        return self.le()[::-1]

    def __repr__(self):
        return 'W%d(%s)' % (self.w, hex(self.v) if type(self.v) is int else 'sym')


def B(v):
    return W(v, 8)


def cat(parts):
    """parts: list of W, least significant first"""
    return W(T.concat([(p.v, p.w) for p in parts]), sum(p.w for p in parts))


def le(bs):
    return cat(list(bs))


def be(bs):
    return cat(list(bs)[::-1])


def tab(table, idx, w):
    """table lookup; len(table) == 2**idx.w"""
    if type(idx.v) is int:
        e = table[idx.v]
        return e if type(e) is W else W(e, w)
    if any(type(e) is W for e in table):
        return W(T.select([e.v if type(e) is W else e for e in table], T.bits(idx.v, idx.w), w), w)
    return W(T.table(tuple(table), T.bits(idx.v, idx.w), w), w)


def chunks(bs, n):
    return [bs[i:i + n] for i in range(0, len(bs), n)]


def les(bs, w):
    return [le(c) for c in chunks(bs, w // 8)]


def bes(bs, w):
    return [be(c) for c in chunks(bs, w // 8)]


def tole(ws):
    return [b for x in ws for b in x.le()]


def tobe(ws):
    return [b for x in ws for b in x.be()]


def pad0(bs, n):
    return list(bs) + [B(0)] * (n - len(bs))


def bytesW(data):
    return [B(x) for x in data]


def ints(bs):
    return bytes(b.v for b in bs)

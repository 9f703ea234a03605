"""The VC generator with the values of data forgotten.

Every bit of a word is 0, 1 or a level >= 2 meaning "any value"; the level says where the bit came from and a result carries
the highest level of what it was computed from.  Control data (lengths, positions, pointers) stays exact as long as it does not
depend on data.  Everything proved this way holds for every value of the data: the abstraction only adds behaviours.
LEVEL is the level of the data made at the moment (see at())."""
from . import fake, machine
from . import terms as T
from .machine import Ptr, Violation, Unsupported, Obj

LEVEL = [2]
STRICT_BRANCH = [0]       # a branch on data of this level or above is beyond the method (0: allowed)


class at:
    def __init__(self, level):
        self.level = level

    def __enter__(self):
        self.old = LEVEL[0]
        LEVEL[0] = self.level

    def __exit__(self, *a):
        LEVEL[0] = self.old


def bits(v, w):
    if type(v) is int:
        return tuple([(v >> i) & 1 for i in range(w)])
    return v if len(v) >= w else v + (0,) * (w - len(v))


def mk(b):
    b = tuple(b)
    if max(b) <= 1:
        r = 0
        for i, x in enumerate(b):
            r |= x << i
        return r
    return b


def level(v):
    """0 for known values"""
    if type(v) is not tuple:
        return 0
    m = max(v)
    return m if m > 1 else 0


def xor(a, b, w):
    if type(a) is int and type(b) is int:
        return a ^ b
    return mk([x ^ y if x < 2 and y < 2 else x if x > y else y for x, y in zip(bits(a, w), bits(b, w))])


def and_(a, b, w):
    if type(a) is int and type(b) is int:
        return a & b
    return mk([0 if not x or not y else x if x > y else y for x, y in zip(bits(a, w), bits(b, w))])


def or_(a, b, w):
    if type(a) is int and type(b) is int:
        return a | b
    return mk([1 if x == 1 or y == 1 else x if x > y else y for x, y in zip(bits(a, w), bits(b, w))])


def _sum(a, b, c, w):
    """a + b + c, bitwise"""
    r = []
    for x, y in zip(bits(a, w), bits(b, w)):
        m = max(x, y, c)
        if m < 2:
            s = x + y + c
            r.append(s & 1)
            c = s >> 1
        else:
            r.append(m)
            if x == y and x < 2 or x == c and x < 2:
                c = x
            elif y == c and y < 2:
                c = y
            else:
                c = m
    return mk(r)


def not_(a, w):
    if type(a) is int:
        return a ^ ((1 << w) - 1)
    return tuple([x if x > 1 else 1 - x for x in bits(a, w)])


def add(a, b, w):
    if type(a) is int and type(b) is int:
        return (a + b) & ((1 << w) - 1)
    if type(a) is tuple and len(a) == w and min(a) > 1 or type(b) is tuple and len(b) == w and min(b) > 1:
        return (max(level(a), level(b)),) * w
    return _sum(a, b, 0, w)


def sub(a, b, w):
    if type(a) is int and type(b) is int:
        return (a - b) & ((1 << w) - 1)
    return _sum(a, not_(b, w), 1, w)


def neg(a, w):
    return sub(0, a, w)


def mul(a, b, w):
    if type(a) is int and type(b) is int:
        return (a * b) & ((1 << w) - 1)
    if type(b) is tuple and type(a) is int:
        a, b = b, a
    if b == 0:
        return 0
    if type(b) is int:
        tz = (b & -b).bit_length() - 1
        if b >> tz == 1:
            return shl(a, tz, w)
        r = 0
        k = 0
        while b >> k:
            if (b >> k) & 1:
                r = add(r, shl(a, k, w), w)
            k += 1
        return r
    m = max(level(a), level(b))
    hi = max(i for i, x in enumerate(bits(a, w)) if x) + max(i for i, x in enumerate(bits(b, w)) if x) + 2
    return mk([m if i < hi else 0 for i in range(w)])


def shl(a, n, w):
    if type(a) is int:
        return (a << n) & ((1 << w) - 1)
    return mk(((0,) * n + bits(a, w))[:w])


def lshr(a, n, w):
    if type(a) is int:
        return a >> n
    return mk(bits(a, w)[n:] + (0,) * n)


def ashr(a, n, w):
    b = bits(a, w)
    return mk(b[n:] + (b[-1],) * n)


def shift_var(op, a, b, w):
    if SHIFTS[0] and sum(1 << i for i, x in enumerate(bits(b, w)) if x) >= w:
        raise Violation('shift-ub', 'shift of a %d-bit value by a computed amount that can reach %d' % (w, w))
    m = max(level(a), level(b))
    return (m,) * w if m else a


def zext(a, w, w2):
    return a if type(a) is int else a + (0,) * (w2 - len(a))


def sext(a, w, w2):
    b = bits(a, w)
    return mk(b + (b[-1],) * (w2 - w))


def trunc(a, w):
    if type(a) is int:
        return a & ((1 << w) - 1)
    return mk(a[:w])


def ite(c, a, b, w):
    if c == 1:
        return a
    if c == 0:
        return b
    if a is b:
        return a
    return mk([x if x == y and x < 2 else max(x, y, c) for x, y in zip(bits(a, w), bits(b, w))])


def eq(a, b, w):
    if type(a) is int and type(b) is int:
        return 1 if a == b else 0
    m = 0
    for x, y in zip(bits(a, w), bits(b, w)):
        if x != y and x < 2 and y < 2:
            return 0
        m = max(m, x, y)
    return m if m > 1 else 1


def ult(a, b, w):
    if type(a) is int and type(b) is int:
        return 1 if a < b else 0
    a, b = bits(a, w), bits(b, w)
    lo = lambda v: sum(1 << i for i, x in enumerate(v) if x == 1)
    hi = lambda v: sum(1 << i for i, x in enumerate(v) if x)
    if hi(a) < lo(b):
        return 1
    if lo(a) >= hi(b):
        return 0
    return max(max(a), max(b))


def slt(a, b, w):
    if type(a) is int and type(b) is int:
        return 1 if (a ^ (1 << (w - 1))) < (b ^ (1 << (w - 1))) else 0
    flip = lambda v: v[:-1] + (v[-1] if v[-1] > 1 else 1 - v[-1],)
    return ult(flip(bits(a, w)), flip(bits(b, w)), w)


def not1(b):
    return b if b > 1 else 1 - b


def and2(a, b):
    return 0 if not a or not b else max(a, b)


def or2(a, b):
    return 1 if a == 1 or b == 1 else max(a, b)


def concat(parts):
    r = ()
    for v, w in parts:
        r += bits(v, w)
    return mk(r)


def extract(v, lo, n):
    if type(v) is int:
        return (v >> lo) & ((1 << n) - 1)
    return mk(bits(v, lo + n)[lo:lo + n])


def rot(a, n, w, left):
    if type(n) is not int:
        m = max(level(a), level(n))
        return (m,) * w if m else a
    n %= w
    if not left:
        n = (w - n) % w
    if type(a) is int:
        return ((a << n) | (a >> (w - n))) & ((1 << w) - 1)
    b = bits(a, w)
    return mk(b[w - n:] + b[:w - n])


def div(a, b, w, rem):
    if type(a) is int and type(b) is int:
        return a % b if rem else a // b
    if type(b) is int and b & (b - 1) == 0:
        k = b.bit_length() - 1
        return and_(a, b - 1, w) if rem else lshr(a, k, w)
    m = max(level(a), level(b))
    hi = w if type(b) is not int else (b.bit_length() if rem else w)
    return mk([m if i < hi else 0 for i in range(w)])


def addn(terms, w):
    r = 0
    for c, v in terms:
        if c < 0:
            r = sub(r, mul(v, -c, w), w)
        else:
            r = add(r, mul(v, c, w), w)
    return r


SHIFTS = [False]
NAMED = [None]           # level of a variable by its name


def var(name, w):
    return (NAMED[0](name) if NAMED[0] else LEVEL[0],) * w


def _deep(x):
    if type(x) is tuple and x and type(x[0]) is int and max(x) < 8 and len(x) >= 1:
        return level(x)
    if type(x) in (list, tuple):
        return max([_deep(y) for y in x] + [0])
    return 0


def uf(name, n, args):
    m = _deep(list(args)) or 2
    return [(m,) * 8] * n


def _offs(p, n, o):
    t = bits(p.sym, 64)
    if sum(1 for x in t if x > 1) > 17:
        raise Unsupported('index over a wide range')
    lo = sum(1 << i for i, x in enumerate(t) if x == 1)
    hi = sum(1 << i for i, x in enumerate(t) if x)
    if lo >> 63:
        lo, hi = lo - (1 << 64), hi - (1 << 64)
    elif hi >> 63:
        raise Unsupported('index over a wide range')
    return lo + p.off, hi + p.off, max(t)


def load_sym(self, o, p, n, w):
    lo, hi, m = _offs(p, n, o)
    if lo < 0 or hi > o.size - n:
        raise Violation('out-of-bounds', 'computed offset %d..%d of %s can leave the object (size %d)' % (lo, hi, o.name, o.size), self)
    if o.ro and o.kind != 'arg':
        return (m,) * (8 * n)
    cs = o.cells[lo:hi + n]
    if None in cs:
        raise Violation('uninitialised-read', 'computed read of %s may reach bytes not written' % o.name, self)
    for c in cs:
        if type(c) is tuple:
            k = max(c)
            if k > m:
                m = k
    return (m,) * (8 * n)


def store_sym(self, o, p, n, v):
    lo, hi, m = _offs(p, n, o)
    if lo < 0 or hi > o.size - n:
        raise Violation('out-of-bounds', 'computed offset %d..%d of %s can leave the object (size %d)' % (lo, hi, o.name, o.size), self)
    m = max(m, level(v))
    o = self.getw(p.obj) if o.owner is not self else o
    for i in range(lo, hi + n):
        c = o.cells[i]
        if c is not None:
            if type(c) not in (int, tuple):
                raise Unsupported('data written over pointers')
            o.cells[i] = (max(m, level(c)),) * 8
        else:
            o.cells[i] = (m,) * 8
        if o.written is not None:
            o.written.add(i)


def srange(v, w):
    if type(v) is int:
        x = v - (1 << w) if v >> (w - 1) else v
        return x, x
    v = bits(v, w)
    lo = sum(1 << i for i, x in enumerate(v[:-1]) if x == 1)
    hi = sum(1 << i for i, x in enumerate(v[:-1]) if x)
    if v[-1]:
        lo -= 1 << (w - 1)
    if v[-1] == 1:
        hi -= 1 << (w - 1)
    return lo, hi


_oldpcmp = machine.pcmp


def pcmp(pred, a, b):
    if type(a) is Ptr and type(b) is Ptr and a.obj == b.obj and (a.sym is not None or b.sym is not None):
        raise Unsupported('comparison of computed addresses')
    return _oldpcmp(pred, a, b)


_oldbin = machine.binop


def binop(op, w, a, b, flags, st):
    if type(a) is Ptr and type(b) is Ptr and (a.sym is not None or b.sym is not None):
        raise Unsupported('difference of computed addresses')
    if 'nsw' in flags and type(a) is not Ptr and type(b) is not Ptr:
        a0, a1 = srange(a, w)
        b0, b1 = srange(b, w)
        if op == 'add':
            lo, hi = a0 + b0, a1 + b1
        elif op == 'sub':
            lo, hi = a0 - b1, a1 - b0
        elif op == 'mul':
            c = [x * y for x in (a0, a1) for y in (b0, b1)]
            lo, hi = min(c), max(c)
        else:
            lo, hi = 0, 0
        if any(type(x) is tuple and x[w - 1:] and x[-1] > 1 and w >= 32 for x in (a, b)):
            pass        # range not known to this abstraction: left to the sanitizer runs
        elif lo < -(1 << (w - 1)) or hi >> (w - 1) > 0:
            raise Violation('signed-overflow', '%s of %d-bit signed values in %d..%d and %d..%d' % (op, w, a0, a1, b0, b1), st)
    return _oldbin(op, w, a, b, flags, st)


def symbranch(self, f, blocks, st, R, bn, stop, alts):
    c = alts[0][0]
    if STRICT_BRANCH[0] and c >= STRICT_BRANCH[0]:
        raise Unsupported('branch of %s on earlier data' % f.name)
    if self.on_branch:
        self.on_branch(self, f, st, c)
    # loops: give up on the ones that data controls
    k = (f.name, bn)
    d = self.__dict__.setdefault('nbranch', {})
    d[k] = d.get(k, 0) + 1
    depth = self.__dict__.setdefault('dbranch', {})
    depth[k] = depth.get(k, 0) + 1
    try:
        if depth[k] > 40:
            raise Unsupported('loop of %s controlled by data' % f.name)
        return _oldsym(self, f, blocks, st, R, bn, stop, alts)
    finally:
        depth[k] -= 1


_oldsym = machine.Machine._symbranch


class PC(list):
    """path conditions are forgotten"""
    def append(self, x):
        pass


_oldstate = machine.State.__init__
_oldfork = machine.State.fork


def install(checks=False):
    """for the rest of this process; checks: with obligations for signed overflow and shift amounts"""
    SHIFTS[0] = machine.CHECK_NSW = checks
    me = globals()
    for n in ('xor', 'and_', 'or_', 'add', 'sub', 'mul', 'shl', 'lshr', 'ashr', 'zext', 'sext', 'trunc', 'ite'):
        setattr(machine, n, me[n])
        setattr(T, n, me[n])
    for n in ('bits', 'mk', 'shift_var', 'eq', 'ult', 'slt', 'not1', 'and2', 'or2', 'concat', 'extract', 'addn', 'var'):
        setattr(T, n, me[n])
    T.udiv = lambda a, b, w: div(a, b, w, False)
    T.urem = lambda a, b, w: div(a, b, w, True)
    T.rotl_var = lambda a, n, w: rot(a, n, w, True)
    T.rotr_var = lambda a, n, w: rot(a, n, w, False)
    T.uf = lambda name, w, args: (_deep(list(args)) or 2,) * w
    T.WORD2ADD = {}
    T.iszero = lambda v, w: eq(v, 0, w)
    fake.uf = uf
    machine.pcmp = pcmp
    machine.binop = binop
    machine.State._load_sym = load_sym
    machine.State._store_sym = store_sym
    machine.Machine._symbranch = symbranch

    def fork(self):
        s = _oldfork(self)
        s.pc = PC()
        return s

    def init(self, m):
        _oldstate(self, m)
        self.pc = PC()
    machine.State.fork = fork
    machine.State.__init__ = init
    machine.Machine.feasible = lambda self, st, extra=(): not any(b == 0 for b in extra)

"""Terms to z3 bit-vectors: equality, satisfiability and models for what the normal form does not decide."""
import z3
from . import terms as T

TIMEOUT = 20000
stats = {'calls': 0, 'secs': 0.0, 'unknown': 0}


class Ctx:
    """translation of the current term store (valid until T.reset())"""

    def __init__(self):
        self.atom = {}
        self.form = {0: z3.BoolVal(False), 1: z3.BoolVal(True)}
        self.word = {}
        self.node = {}
        self.vars = {}

    def bit(self, f):
        r = self.form.get(f)
        if r is None:
            need = [f]
            while need:
                g = need[-1]
                if g in self.form:
                    need.pop()
                    continue
                miss = []
                for a in T.FORM[g]:
                    if a and a not in self.atom:
                        self._deps(a, miss)
                if miss:
                    need.extend(miss)
                    continue
                r = None
                neg = False
                for a in sorted(T.FORM[g]):
                    if a == 0:
                        neg = True
                        continue
                    x = self._atom(a)
                    r = x if r is None else z3.Xor(r, x)
                self.form[g] = z3.Not(r) if neg else r
                need.pop()
            r = self.form[f]
        return r

    def _deps(self, a, miss):
        d = T.ATOM[a]
        if d[0] == 'v':
            return
        for f in set(T.atom_deps(a)):
            if f not in self.form:
                miss.append(f)

    def bv(self, v, w):
        if type(v) is int:
            return z3.BitVecVal(v, w)
        r = self.word.get(v)
        if r is None:
            for b in v:
                self.bit(b)
            one, zero = z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)
            # runs of constants and consecutive bits of one variable stay together
            parts = []
            i = 0
            while i < len(v):
                run = self._run(v, i)
                if run is not None:
                    parts.append(run[0])
                    i += run[1]
                    continue
                b = self.form[v[i]]
                parts.append(z3.If(b, one, zero) if v[i] > 1 else (one if v[i] else zero))
                i += 1
            parts.reverse()
            r = parts[0] if len(parts) == 1 else z3.Concat(*parts)
            self.word[v] = r
        return r

    def _run(self, v, i):
        if v[i] <= 1:
            return None
        s = T.FORM[v[i]]
        if len(s) != 1:
            return None
        a, = s
        d = T.ATOM[a]
        if d[0] == 'w':
            n, k = d[1], d[2]
            e = self.node.get(n)
            if e is None:
                return None
            j = 1
            while i + j < len(v) and v[i + j] > 1 and T.FORM[v[i + j]] == frozenset((T.AKEY.get(('w', n, k + j), -1),)):
                j += 1
            return z3.Extract(k + j - 1, k, e), j
        return None

    def _atom(self, a):
        r = self.atom.get(a)
        if r is not None:
            return r
        d = T.ATOM[a]
        k = d[0]
        if k == 'v':
            r = z3.Bool('%s.%d' % (d[1], d[2]))
            self.vars[(d[1], d[2])] = r
        elif k == '&':
            r = z3.And(*[self.form[f] for f in sorted(d[1])])
        elif k == 'z':
            r = z3.Not(z3.Or(*[self.form[f] for f in d[1]]))
        elif k == 'd':
            r = self.form[d[1]]
        elif k == 't':
            n = len(d[1])
            if n > 8:
                raise NotImplementedError('large table')
            tt = T._basis[n].fun[d[2]]
            r = self._tt(tt, n, [self.form[f] for f in d[1]])
        elif k == 'w':
            r = z3.Extract(d[2], d[2], self._node(d[1])) == z3.BitVecVal(1, 1)
        else:
            raise NotImplementedError(k)
        self.atom[a] = r
        return r

    def _tt(self, tt, n, bits):
        full = (1 << (1 << n)) - 1
        if tt == 0 or tt == full:
            return z3.BoolVal(tt != 0)
        h = 1 << (n - 1)
        lo, hi = tt & ((1 << h) - 1), tt >> h
        if lo == hi:
            return self._tt(lo, n - 1, bits)
        return z3.If(bits[n - 1], self._tt(hi, n - 1, bits), self._tt(lo, n - 1, bits))

    def _node(self, n):
        r = self.node.get(n)
        if r is not None:
            return r
        op, w, args = T.NODE[n]
        if op == 'add':
            r = z3.BitVecVal(args[1], w)
            for t, c in args[0]:
                r = r + z3.BitVecVal(c, w) * self.bv(t, w)
        elif op == 'sel':
            sel = [self.bit(f) for f in args[1]]
            ents = args[0]

            def go(lo, n):
                if n == 0:
                    return self.bv(ents[lo], w)
                return z3.If(sel[n - 1], go(lo + (1 << (n - 1)), n - 1), go(lo, n - 1))
            r = go(0, len(sel))
        elif op == 'ult':
            ww = len(args[0]) if type(args[0]) is tuple else len(args[1])
            r = z3.If(z3.ULT(self.bv(args[0], ww), self.bv(args[1], ww)), z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
        elif op.startswith('uf:'):
            name = [op, str(w)]
            xs = []
            for x in args:
                if type(x) is tuple:
                    xs.append(self.bv(x, len(x)))
                    name.append('_%d' % len(x))
                else:
                    name.append(repr(x))
            fn = '|'.join(name)
            if xs:
                r = z3.Function(fn, *([x.sort() for x in xs] + [z3.BitVecSort(w)]))(*xs)
            else:
                r = z3.BitVec(fn, w)
        else:
            a = [self.bv(x, w) if op not in ('rotl', 'shl', 'lshr', 'ashr') or i == 0 else self._amt(x, w) for i, x in enumerate(args)]
            if op == 'mul':
                r = a[0] * a[1]
            elif op == 'udiv':
                r = z3.UDiv(a[0], a[1])
            elif op == 'urem':
                r = z3.URem(a[0], a[1])
            elif op == 'rotl':
                r = z3.RotateLeft(a[0], a[1])
            elif op == 'shl':
                r = a[0] << a[1]
            elif op == 'lshr':
                r = z3.LShR(a[0], a[1])
            elif op == 'ashr':
                r = a[0] >> a[1]
            else:
                raise NotImplementedError(op)
        self.node[n] = r
        return r

    def _amt(self, x, w):
        if type(x) is int:
            return z3.BitVecVal(x, w)
        e = self.bv(x, len(x))
        if len(x) < w:
            return z3.ZeroExt(w - len(x), e)
        return z3.Extract(w - 1, 0, e)


_ctx = [None, None]


def ctx():
    if _ctx[0] is None or _ctx[1] != T.GEN[0]:
        _ctx[0] = Ctx()
        _ctx[1] = T.GEN[0]
    return _ctx[0]


def check(form_ids, timeout=None):
    """(z3 verdict, model or None) of the conjunction of bits"""
    import time
    if any(f == 0 for f in form_ids):
        return z3.unsat, None
    c = ctx()
    s = z3.Solver()
    s.set('timeout', timeout or TIMEOUT)
    for f in form_ids:
        s.add(c.bit(f))
    t = time.time()
    r = s.check()
    stats['calls'] += 1
    stats['secs'] += time.time() - t
    if r == z3.unknown:
        stats['unknown'] += 1
    return r, (s.model() if r == z3.sat else None)


def sat_bits(bits, timeout=None):
    """False only if the conjunction is refuted"""
    bits = [b for b in bits if b != 1]
    if not bits:
        return True
    try:
        return check(bits, timeout or 5000)[0] != z3.unsat
    except NotImplementedError:
        return True


def differ(a, b, w):
    """bit: the words differ"""
    d = 0
    for x, y in zip(T.bits(a, w), T.bits(b, w)):
        d = T.or2(d, T.xor2(x, y))
    return d


def equal(a, b, w, assume=(), timeout=None):
    """'yes', 'no' or 'unknown'"""
    if a == b:
        return 'yes'
    try:
        c = ctx()
        import time
        s = z3.Solver()
        s.set('timeout', timeout or TIMEOUT)
        for f in assume:
            s.add(c.bit(f))
        s.add(c.bv(a, w) != c.bv(b, w))
        t = time.time()
        r = s.check()
        stats['calls'] += 1
        stats['secs'] += time.time() - t
    except NotImplementedError:
        return 'unknown'
    if r == z3.unsat:
        return 'yes'
    if r == z3.sat:
        return 'no'
    stats['unknown'] += 1
    return 'unknown'


def model(form_ids):
    """assignment {(variable, bit): bool} satisfying the bits, or None"""
    r, m = check(form_ids)
    if m is None:
        return None
    return {k: z3.is_true(m.eval(v)) for k, v in ctx().vars.items()}

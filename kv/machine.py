"""Symbolic executor for the IR of the real code: memory model, calls, branches, merging.

Every memory access generates a bounds/liveness/initialisation obligation; a failed one
raises Violation on that path.  Loops whose conditions are concrete are executed completely.
"""
import os
from . import terms as T
from .terms import (xor, and_, or_, add, sub, mul, shl, lshr, ashr, zext, sext, trunc, ite)
from . import ir

MASKS = {w: (1 << w) - 1 for w in (1, 8, 16, 32, 64, 128)}
CHECK_NSW = False         # obligations for signed overflow (kv/forget.py)
BITS8 = [tuple((v >> i) & 1 for i in range(8)) for v in range(256)]


class Violation(Exception):
    def __init__(self, kind, msg, st=None):
        Exception.__init__(self, kind + ': ' + msg)
        self.kind = kind
        self.msg = msg
        self.st = st


class Unsupported(Exception):
    pass


class Budget(Exception):
    pass


class Ptr:
    __slots__ = ('obj', 'off', 'sym')

    def __init__(self, obj, off, sym=None):
        self.obj = obj
        self.off = off
        self.sym = sym

    def __eq__(self, o):
        return type(o) is Ptr and o.obj == self.obj and o.off == self.off and o.sym == self.sym

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash((self.obj, self.off, self.sym))

    def __repr__(self):
        return 'Ptr(%s+%s%s)' % (self.obj, self.off, '+sym' if self.sym is not None else '')


class Fn:
    __slots__ = ('name', 'mod')

    def __init__(self, name, mod=None):
        self.name = name
        self.mod = mod

    def __eq__(self, o):
        return type(o) is Fn and o.name == self.name and o.mod is self.mod

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return 'Fn(%s)' % self.name


class PB:
    __slots__ = ('p', 'k')

    def __init__(self, p, k):
        self.p = p
        self.k = k

    def __eq__(self, o):
        return type(o) is PB and o.k == self.k and o.p == self.p

    def __hash__(self):
        return hash((self.p, self.k))


class Obj:
    __slots__ = ('id', 'size', 'cells', 'kind', 'alive', 'ro', 'name', 'owner', 'written', 'hook')

    def __init__(self, oid, size, cells, kind, name, ro=False):
        self.id = oid
        self.size = size
        self.cells = cells
        self.kind = kind
        self.alive = True
        self.ro = ro
        self.name = name
        self.owner = None
        self.written = None
        self.hook = None

    def clone(self):
        o = Obj(self.id, self.size, list(self.cells), self.kind, self.name, self.ro)
        o.alive = self.alive
        o.written = set(self.written) if self.written is not None else None
        o.hook = self.hook
        return o


class State:
    def __init__(self, m):
        self.m = m
        self.objs = {}
        self.pc = []          # bit ids known true
        self.nmalloc = 0
        self.ghost = {}
        self.log = []
        self.uninit_reads = []

    def fork(self):
        s = State(self.m)
        s.objs = dict(self.objs)
        for o in s.objs.values():
            o.owner = None
        s.pc = list(self.pc)
        s.nmalloc = self.nmalloc
        s.ghost = dict(self.ghost)
        s.log = list(self.log)
        s.uninit_reads = list(self.uninit_reads)
        return s

    def get(self, oid):
        o = self.objs.get(oid)
        if o is None:
            o = self.m.base.get(oid)
            if o is None:
                raise Violation('bad-pointer', 'no object %r' % (oid,), self)
        return o

    def getw(self, oid):
        o = self.objs.get(oid)
        if o is None:
            o = self.m.base[oid]
            if o.ro:
                raise Violation('write-const', 'write to constant %s' % o.name, self)
        if o.owner is not self:
            o = o.clone()
            o.owner = self
            self.objs[oid] = o
        return o

    def new(self, size, kind, name, cells=None, ro=False):
        self.m.nobj += 1
        oid = self.m.nobj
        if size > (1 << 26):
            raise Unsupported('object too large: %d' % size)
        o = Obj(oid, size, cells if cells is not None else [None] * size, kind, name, ro)
        o.owner = self
        self.objs[oid] = o
        return Ptr(oid, 0)

    # ------------------------------------------------------------ access
    def _chk(self, p, n, wr):
        if type(p) is not Ptr:
            if p == 0:
                raise Violation('null-deref', 'access through null pointer', self)
            raise Violation('bad-pointer', 'access through %r' % (p,), self)
        o = self.get(p.obj)
        if not o.alive:
            raise Violation('use-after-free' if o.kind == 'heap' else 'use-after-scope', 'access to %s' % o.name, self)
        if o.kind == 'opaque':
            raise Unsupported('access to a part of a buffer of arbitrary length')
        if p.sym is None and not 0 <= p.off <= o.size - n:
            raise Violation('out-of-bounds', '%s of %d bytes at offset %d of %s (size %d)' % ('write' if wr else 'read', n, p.off, o.name, o.size), self)
        if wr and o.ro:
            raise Violation('write-const', 'write to read-only %s' % o.name, self)
        return o

    def window(self, p):
        """pointer at a symbolic position of a buffer of symbolic length, of which a window is represented"""
        if type(p) is Ptr and p.sym is not None and self.m.windows.get(p.obj) == p.sym:
            return Ptr(p.obj, p.off)
        return p

    def load_int(self, p, n, w):
        if type(p) is Ptr and p.sym is not None:
            p = self.window(p)
        o = self._chk(p, n, False)
        if p.sym is not None:
            return self._load_sym(o, p, n, w)
        off = p.off
        if n == 1:
            c = o.cells[off]
            tc = type(c)
            if tc is int or tc is tuple:
                return c
            return self._odd(o, off, 1, w)
        cs = o.cells[off:off + n]
        r = 0
        s = 0
        for c in cs:
            if type(c) is not int:
                break
            r |= c << s
            s += 8
        else:
            return r
        t = ()
        for c in cs:
            tc = type(c)
            if tc is tuple:
                t += c
            elif tc is int:
                t += BITS8[c]
            else:
                return self._odd(o, off, n, w)
        return t

    def _odd(self, o, off, n, w):
        cs = o.cells[off:off + n]
        if any(c is None for c in cs):
            o = self.getw(o.id) if o.id in self.objs else o
            for i in range(off, off + n):
                if o.cells[i] is None:
                    o.cells[i] = T.var('uninit:%s:%d:%d' % (o.name, o.id, i), 8)
            self.uninit_reads.append((o.name, off, n))
            if self.m.strict_uninit:
                raise Violation('uninitialised-read', 'read of uninitialised bytes %d..%d of %s' % (off, off + n - 1, o.name), self)
            return self.load_int(Ptr(o.id, off), n, w)
        raise Unsupported('integer load of pointer bytes')

    def load_ptr(self, p):
        o = self._chk(p, 8, False)
        if p.sym is not None:
            raise Unsupported('pointer load at symbolic offset')
        cs = o.cells[p.off:p.off + 8]
        c = cs[0]
        if type(c) is PB and all(type(x) is PB and x.k == i and x.p == c.p for i, x in enumerate(cs)):
            return c.p
        if all(type(x) is int for x in cs):
            return sum(x << (8 * i) for i, x in enumerate(cs))
        if any(x is None for x in cs):
            raise Violation('uninitialised-read', 'pointer read from uninitialised bytes of %s' % o.name, self)
        raise Violation('bad-pointer', 'pointer overwritten with data in %s' % o.name, self)

    def store_int(self, p, n, v):
        if type(p) is Ptr and p.sym is not None:
            p = self.window(p)
        o = self._chk(p, n, True)
        if p.sym is not None:
            return self._store_sym(o, p, n, v)
        if o.owner is not self:
            o = self.getw(p.obj)
        off = p.off
        if o.written is not None:
            o.written.update(range(off, off + n))
        if n == 1:
            o.cells[off] = v if type(v) is int else (v if len(v) == 8 else v + (0,) * (8 - len(v)))
            return
        if type(v) is int:
            o.cells[off:off + n] = [(v >> (8 * i)) & 255 for i in range(n)]
        else:
            cs = []
            for i in range(n):
                b = v[8 * i:8 * i + 8]
                if max(b) <= 1:
                    b = T.mk(b)
                cs.append(b)
            o.cells[off:off + n] = cs

    def store_ptr(self, p, v):
        o = self._chk(p, 8, True)
        if p.sym is not None:
            raise Unsupported('pointer store at symbolic offset')
        if o.owner is not self:
            o = self.getw(p.obj)
        if o.written is not None:
            o.written.update(range(p.off, p.off + 8))
        if type(v) is int:
            o.cells[p.off:p.off + 8] = [(v >> (8 * i)) & 255 for i in range(8)]
        else:
            o.cells[p.off:p.off + 8] = [PB(v, i) for i in range(8)]

    # symbolic offsets
    def _offsets(self, o, p, n):
        """returns (sel bits, offsets list or None entries when infeasible)"""
        sel, vals = enum_word(p.sym)
        m = 1 << 64
        offs = []
        bad = []
        for x, v in enumerate(vals):
            f = p.off + (v - m if v >> 63 else v)
            if 0 <= f <= o.size - n:
                offs.append(f)
            else:
                bad.append(x)
                offs.append(None)
        if bad:
            if self.m.feasible_any(self, sel, bad):
                raise Violation('out-of-bounds', 'symbolic offset of %s can leave the object (size %d)' % (o.name, o.size), self)
        return sel, offs

    def _load_sym(self, o, p, n, w):
        key = None
        if o.ro:
            key = (o.id, p.off, p.sym, n)
            r = self.m.symload.get(key)
            if r is not None:
                return r
        sel, offs = self._offsets(o, p, n)
        ents = []
        ok = next(f for f in offs if f is not None)
        if o.ro:
            ek = (o.id, n, tuple(offs))
            ents = self.m.syments.get(ek)
            if ents is None:
                ents = tuple([self.load_int(Ptr(o.id, ok if f is None else f), n, w) for f in offs])
                self.m.syments[ek] = ents
        else:
            ents = [self.load_int(Ptr(o.id, ok if f is None else f), n, w) for f in offs]
        r = T.select(ents, tuple(sel), w)
        if key is not None:
            self.m.symload[key] = r
        return r

    def _store_sym(self, o, p, n, v):
        sel, offs = self._offsets(o, p, n)
        if o.owner is not self:
            o = self.getw(p.obj)
        vb = T.bits(v, 8 * n)
        k = len(sel)
        new = {}
        for x, f in enumerate(offs):
            if f is None:
                continue
            c = 1
            for i, b in enumerate(sel):
                c = T.and2(c, b if (x >> i) & 1 else T.not1(b))
            for j in range(n):
                old = new.get(f + j, o.cells[f + j])
                if old is None:
                    old = T.var('uninit:%s:%d:%d' % (o.name, o.id, f + j), 8)
                new[f + j] = ite(c, T.mk(vb[8 * j:8 * j + 8]), old, 8)
        for f, c in new.items():
            o.cells[f] = c
            if o.written is not None:
                o.written.add(f)

    # ------------------------------------------------------------ bulk helpers
    def bytes_at(self, p, n):
        return [self.load_int(Ptr(p.obj, p.off + i, p.sym), 1, 8) for i in range(n)]

    def put_bytes(self, p, vals):
        for i, v in enumerate(vals):
            self.store_int(Ptr(p.obj, p.off + i, p.sym), 1, v)


def enum_word(t):
    """(sel bits, values): every value the word takes as its unknown bits vary"""
    forms = []
    for b in t:
        if b > 1 and b not in forms:
            forms.append(b)
    terms = None
    if len(forms) > 10:
        e = T.WORD2ADD.get(t)
        if e is not None:
            f2 = []
            for w, c in e[0]:
                for b in w:
                    if b > 1 and b not in f2:
                        f2.append(b)
            if len(f2) <= 12:
                forms = f2
                terms = e
    if len(forms) > 12:
        raise Unsupported('symbolic index with %d unknown bits' % len(forms))
    pos = {b: i for i, b in enumerate(forms)}
    W = len(t)
    m = (1 << W) - 1
    vals = []
    if terms is None:
        const = sum(1 << i for i, b in enumerate(t) if b == 1)
        plc = [(pos[b], 1 << i) for i, b in enumerate(t) if b > 1]
        for x in range(1 << len(forms)):
            v = const
            for q, bit in plc:
                if (x >> q) & 1:
                    v |= bit
            vals.append(v)
    else:
        for x in range(1 << len(forms)):
            v = terms[1]
            for w, c in terms[0]:
                s = 0
                for i, b in enumerate(w):
                    if b == 1 or (b > 1 and (x >> pos[b]) & 1):
                        s |= 1 << i
                v += c * s
            vals.append(v & m)
    return forms, vals


class Outcome:
    __slots__ = ('st', 'kind', 'val')

    def __init__(self, st, kind, val):
        self.st = st
        self.kind = kind
        self.val = val


# ---------------------------------------------------------------- IR helpers used by generated code
def gep(p, off, var):
    if type(p) is not Ptr:
        if p == 0 and off == 0 and all(v == 0 for _, _, v in var):
            return 0
        if type(p) is int:
            raise Violation('null-deref', 'pointer arithmetic on null')
        raise Unsupported('gep on %r' % (p,))
    o = p.off + off
    sym = p.sym
    for sc, w, v in var:
        if type(v) is int:
            if v >> (w - 1):
                v -= 1 << w
            o += sc * v
        else:
            if w < 64:
                v = sext(v, w, 64)
            t = T.addn(((sc, v),) if sym is None else ((1, sym), (sc, v)), 64)
            if type(t) is int:
                o += t - (1 << 64) if t >> 63 else t
                sym = None
            else:
                # keep constants out of the symbolic part
                e = T.WORD2ADD.get(t)
                if e is not None and e[1]:
                    c = e[1]
                    o += c - (1 << 64) if c >> 63 else c
                    t = T.addn(((1, t), (-1, c)), 64)
                sym = t
    return Ptr(p.obj, o, sym)


def gepc(p, off):
    if type(p) is Ptr:
        return Ptr(p.obj, p.off + off, p.sym)
    if p == 0 and off == 0:
        return 0
    if type(p) is int:
        raise Violation('null-deref', 'pointer arithmetic on null')
    raise Unsupported('gep on %r' % (p,))


def binop(op, w, a, b, flags, st):
    m = (1 << w) - 1
    if type(a) is Ptr or type(b) is Ptr:
        if op == 'sub' and type(a) is Ptr and type(b) is Ptr and a.obj == b.obj and a.sym == b.sym:
            return (a.off - b.off) & m
        if op == 'add' and type(a) is Ptr and type(b) is int:
            return gepc(a, b - (1 << 64) if b >> 63 else b)
        raise Unsupported('pointer arithmetic ' + op)
    if op == 'add':
        return add(a, b, w)
    if op == 'sub':
        return sub(a, b, w)
    if op == 'mul':
        return mul(a, b, w)
    if op == 'xor':
        return xor(a, b, w)
    if op == 'and':
        return and_(a, b, w)
    if op == 'or':
        return or_(a, b, w)
    if op in ('shl', 'lshr', 'ashr'):
        if type(b) is int:
            if b >= w:
                raise Violation('shift-ub', 'shift by %d of a %d-bit value' % (b, w), st)
            return (shl if op == 'shl' else lshr if op == 'lshr' else ashr)(a, b, w)
        return T.shift_var(op, a, b, w)
    if op in ('udiv', 'urem'):
        if type(b) is int and b == 0:
            raise Violation('div-by-zero', op, st)
        return (T.udiv if op == 'udiv' else T.urem)(a, b, w)
    if op in ('sdiv', 'srem'):
        if type(a) is int and type(b) is int:
            if b == 0:
                raise Violation('div-by-zero', op, st)
            sa = a - (1 << w) if a >> (w - 1) else a
            sb = b - (1 << w) if b >> (w - 1) else b
            q = abs(sa) // abs(sb)
            if (sa < 0) != (sb < 0):
                q = -q
            return (q if op == 'sdiv' else sa - q * sb) & m
        if type(b) is int and not b >> (w - 1) and T.bits(a, w)[-1] == 0:
            return (T.udiv if op == 'sdiv' else T.urem)(a, b, w)
        raise Unsupported('symbolic ' + op)
    raise Unsupported(op)


def icmp(pred, w, a, b, st):
    r = icmp_bit(pred, w, a, b)
    return r if r <= 1 else (r,)


def icmp_bit(pred, w, a, b):
    if type(a) in (Ptr, Fn) or type(b) in (Ptr, Fn):
        return pcmp(pred, a, b)
    if pred == 'eq':
        return T.eq(a, b, w)
    if pred == 'ne':
        return T.not1(T.eq(a, b, w))
    if type(a) is int and type(b) is int:
        if pred[0] == 's':
            if a >> (w - 1):
                a -= 1 << w
            if b >> (w - 1):
                b -= 1 << w
        p = pred[1:]
        return 1 if (a < b if p == 'lt' else a <= b if p == 'le' else a > b if p == 'gt' else a >= b) else 0
    lt = T.ult if pred[0] == 'u' else T.slt
    p = pred[1:]
    if p == 'lt':
        return lt(a, b, w)
    if p == 'gt':
        return lt(b, a, w)
    if p == 'le':
        return T.not1(lt(b, a, w))
    return T.not1(lt(a, b, w))


def pcmp(pred, a, b):
    if pred in ('eq', 'ne'):
        if type(a) is Ptr and type(b) is Ptr and a.obj == b.obj and a.sym != b.sym:
            e = T.eq(T.add(a.sym or 0, a.off & MASKS[64], 64), T.add(b.sym or 0, b.off & MASKS[64], 64), 64)
            return e if pred == 'eq' else T.not1(e)
        r = a == b
        return 1 if r == (pred == 'eq') else 0
    if type(a) is Ptr and type(b) is Ptr and a.obj == b.obj and a.sym == b.sym:
        p = pred[1:]
        x, y = a.off, b.off
        return 1 if (x < y if p == 'lt' else x <= y if p == 'le' else x > y if p == 'gt' else x >= y) else 0
    raise Unsupported('pointer comparison')


def cast(op, w, v, w2):
    if op == 'zext':
        return zext(v, w, w2)
    if op == 'sext':
        return sext(v, w, w2)
    if op == 'trunc':
        if type(v) is Ptr:
            raise Unsupported('trunc of pointer')
        return trunc(v, w2)
    return v


def sel(c, a, b, w):
    if type(c) is tuple:
        c = c[0]
    if c == 1:
        return a
    if c == 0:
        return b
    if type(a) in (Ptr, Fn) or type(b) in (Ptr, Fn):
        if a == b:
            return a
        raise Unsupported('select between pointers on a symbolic condition')
    return ite(c, a, b, w)


# ---------------------------------------------------------------- code generation
def compile_func(f, m):
    """blocks -> (phis, items, terminator) with straight-line code as Python functions"""
    regs = {}

    def R(name):
        i = regs.get(name)
        if i is None:
            i = regs[name] = len(regs)
        return i
    for _, nm in f.params:
        R(nm or '?')
    consts = []

    def opnd(o):
        if o[0] == 'r':
            return 'R[%d]' % R(o[1])
        v = o[1]
        if type(v) is int:
            return str(v)
        v = m.const_value(v, f.mod)
        if type(v) is int:
            return str(v)
        consts.append(v)
        return 'K[%d]' % (len(consts) - 1)

    def opval(o):
        if o[0] == 'r':
            return ('r', R(o[1]))
        v = o[1]
        return ('c', v if type(v) is int else m.const_value(v, f.mod))
    segs = []
    blocks = {}
    for bn in f.order:
        phis = []
        items = []
        code = []

        def flush():
            if code:
                nm = 's%d' % len(segs)
                segs.append('def %s(R, st):\n%s' % (nm, '\n'.join('  ' + c for c in code)))
                items.append(('seg', nm))
                del code[:]
        term = None
        for ins in f.blocks[bn]:
            k = ins[0]
            if k == 'phi':
                phis.append((R(ins[1]), ins[2], {l: opval(v) for l, v in ins[3].items()}))
            elif k == 'bin':
                _, d, op, w, a, b, fl = ins
                a, b, d = opnd(a), opnd(b), R(d)
                mm = (1 << w) - 1
                if CHECK_NSW and 'nsw' in fl:
                    code.append('R[%d]=binop(%r,%d,%s,%s,%r,st)' % (d, op, w, a, b, fl))
                elif op in ('add', 'sub'):
                    code.append('a=%s;b=%s' % (a, b))
                    code.append('R[%d]=(a%sb)&%d if type(a) is int and type(b) is int else binop(%r,%d,a,b,(),st)' % (d, '+' if op == 'add' else '-', mm, op, w))
                elif op in ('xor', 'and', 'or') and True:
                    code.append('a=%s;b=%s' % (a, b))
                    code.append('R[%d]=a%sb if type(a) is int and type(b) is int else %s(a,b,%d)' % (d, {'xor': '^', 'and': '&', 'or': '|'}[op], {'xor': 'xor', 'and': 'and_', 'or': 'or_'}[op], w))
                else:
                    code.append('R[%d]=binop(%r,%d,%s,%s,%r,st)' % (d, op, w, a, b, fl))
            elif k == 'icmp':
                _, d, p, t, a, b = ins
                code.append('R[%d]=icmp(%r,%d,%s,%s,st)' % (R(d), p, t.w if t.k == 'int' else 64, opnd(a), opnd(b)))
            elif k == 'cast':
                _, d, op, t, a, t2 = ins
                if op in ('zext',):
                    code.append('a=%s;R[%d]=a if type(a) is int else zext(a,%d,%d)' % (opnd(a), R(d), t.w, t2.w))
                else:
                    code.append('R[%d]=cast(%r,%d,%s,%d)' % (R(d), op, t.w if t.k == 'int' else 64, opnd(a), t2.w if t2.k == 'int' else 64))
            elif k == 'gep':
                _, d, p, off, var = ins
                if not var:
                    code.append('R[%d]=gepc(%s,%d)' % (R(d), opnd(p), off))
                else:
                    code.append('R[%d]=gep(%s,%d,(%s,))' % (R(d), opnd(p), off, ','.join('(%d,%d,%s)' % (sc, w, opnd(v)) for sc, w, v in var)))
            elif k == 'load':
                _, d, t, p = ins
                if t.k == 'ptr':
                    code.append('R[%d]=st.load_ptr(%s)' % (R(d), opnd(p)))
                elif t.k == 'int':
                    code.append('R[%d]=st.load_int(%s,%d,%d)' % (R(d), opnd(p), t.size, t.w))
                else:
                    code.append('raise Unsupported("load type")')
            elif k == 'store':
                _, _, t, v, p, vol = ins
                if t.k == 'ptr':
                    code.append('st.store_ptr(%s,%s)' % (opnd(p), opnd(v)))
                elif t.k == 'int':
                    code.append('st.store_int(%s,%d,%s)' % (opnd(p), t.size, opnd(v)))
                else:
                    code.append('raise Unsupported("store type")')
            elif k == 'select':
                _, d, t, c, a, b = ins
                code.append('R[%d]=sel(%s,%s,%s,%d)' % (R(d), opnd(c), opnd(a), opnd(b), t.w if t.k == 'int' else 64))
            elif k == 'alloca':
                _, d, t, n = ins
                code.append('R[%d]=st.m.alloca(st,%d,%s,%r)' % (R(d), t.size, opnd(n), f.name + ':' + d))
            elif k == 'call':
                flush()
                _, d, t, callee, args = ins
                items.append(('call', None if d is None else R(d), t, callee if callee[0] != 'r' else ('r', R(callee[1])),
                              [(at, opval(v)) for at, v in args]))
            elif k == 'unsupported':
                code.append('raise Unsupported(%r)' % ins[2][:200])
            elif k in ('br', 'ret', 'unreachable'):
                flush()
                if k == 'ret':
                    term = ('ret', None if ins[3] is None else opval(ins[3]))
                elif k == 'br':
                    term = ('br', ins[2])
                else:
                    term = ('unreachable',)
            elif k == 'cbr':
                flush()
                term = ('cbr', opval(ins[2]), ins[3], ins[4])
            elif k == 'switch':
                flush()
                term = ('switch', ins[2].w, opval(ins[3]), ins[4], ins[5])
            else:
                code.append('raise Unsupported(%r)' % (k,))
        flush()
        blocks[bn] = (phis, items, term)
    env = {'binop': binop, 'icmp': icmp, 'cast': cast, 'gep': gep, 'gepc': gepc, 'sel': sel, 'xor': xor, 'and_': and_,
           'or_': or_, 'zext': zext, 'Unsupported': Unsupported, 'K': consts}
    if segs:
        exec(compile('\n'.join(segs), '<%s>' % f.name, 'exec'), env)
    for bn, (phis, items, term) in blocks.items():
        blocks[bn] = (phis, [('seg', env[i[1]]) if i[0] == 'seg' else i for i in items], term)
    return len(regs), blocks


class Machine:
    def __init__(self):
        self.mods = {}
        self.base = {}
        self.gptr = {}        # (mod, name) -> Ptr
        self.nobj = 0
        self.hooks = {}       # function name -> handler(m, st, args) -> list of Outcome or value
        self.compiled = {}
        self.strict_uninit = False
        self.symload = {}
        self.syments = {}
        self.functions = set()
        self.fail_at = None   # set of malloc indexes to fail
        self.steps = 0
        self.max_steps = None
        self.merge = True
        self.on_free = None
        self.on_alloc = None
        self.solver = None
        self.freed_dirty = []
        self.loop_rule = None
        self.windows = {}     # object -> symbolic offset at which its cells stand
        self.globfun = {}
        self.secret_branches = []
        self.on_branch = None

    # -------------------------------------------------------- modules
    def load(self, mod):
        self.mods[mod.name] = mod
        for n, f in mod.funcs.items():
            if not f.internal:
                self.globfun[n] = f

    def find_func(self, name, mod=None):
        if mod is not None and name in mod.funcs:
            return mod.funcs[name]
        return self.globfun.get(name)

    def global_ptr(self, name, mod):
        g = mod.globals.get(name)
        if g is None:
            if name in mod.funcs or name in mod.decls or name in self.globfun or name in self.hooks:
                return Fn(name, mod if name in mod.funcs and mod.funcs[name].internal else None)
            raise Unsupported('global ' + name)
        if g.ext:
            for m2 in self.mods.values():
                g2 = m2.globals.get(name)
                if g2 is not None and not g2.ext and not g2.internal:
                    return self.global_ptr(name, m2)
            # unresolved external: opaque object
            key = (None, name)
            p = self.gptr.get(key)
            if p is None:
                self.nobj += 1
                o = Obj(self.nobj, g.ty.size, [None] * g.ty.size, 'global', name, True)
                self.base[o.id] = o
                p = self.gptr[key] = Ptr(o.id, 0)
            return p
        key = (mod.name, name)
        p = self.gptr.get(key)
        if p is None:
            self.nobj += 1
            o = Obj(self.nobj, g.ty.size, None, 'global', name, g.const)
            self.base[o.id] = o
            p = self.gptr[key] = Ptr(o.id, 0)
            o.cells = self._init(g.ty, g.init, mod)
        return p

    def _init(self, ty, v, mod):
        if type(v) is int:
            return [(v >> (8 * i)) & 255 for i in range(ty.size)]
        k = v[0]
        if k == 'zero':
            return [0] * ty.size
        if k == 'undef':
            return [None] * ty.size
        if k == 'bytes':
            return list(v[1])
        if k == 'agg':
            cells = [0] * ty.size
            if ty.k == 'arr':
                es = ty.el.size
                for i, (et, x) in enumerate(v[1]):
                    cells[i * es:(i + 1) * es] = self._init(et, x, mod)
            else:
                for i, (et, x) in enumerate(v[1]):
                    o = ty.offs[i]
                    cells[o:o + et.size] = self._init(et, x, mod)
            return cells
        if k == 'fp':
            return [None] * ty.size
        p = self.const_value(v, mod)
        if type(p) is int:
            return [(p >> (8 * i)) & 255 for i in range(8)]
        return [PB(p, i) for i in range(8)]

    def const_value(self, v, mod):
        if type(v) is int:
            return v
        k = v[0]
        if k == 'g':
            return self.global_ptr(v[1], mod)
        if k == 'gep':
            _, bt, args = v
            p = self.const_value(args[0][1], mod)
            t = bt
            off = 0
            for i, (at, x) in enumerate(args[1:]):
                if x >> (at.w - 1):
                    x -= 1 << at.w
                if i == 0:
                    off += t.size * x
                elif t.k == 'arr':
                    t = t.el
                    off += t.size * x
                else:
                    off += t.offs[x]
                    t = t.el[x]
            return gepc(p, off)
        if k == 'cast':
            return self.const_value(v[2], mod)
        if k == 'zero':
            return 0
        if k == 'undef':
            return 0
        raise Unsupported('constant %r' % (k,))

    # -------------------------------------------------------- memory services
    def alloca(self, st, size, n, name):
        if type(n) is not int:
            raise Unsupported('alloca of symbolic size')
        return st.new(size * n, 'stack', name)

    def malloc(self, st, size, name='heap'):
        if type(size) is not int:
            raise Unsupported('malloc of symbolic size')
        k = st.nmalloc
        st.nmalloc += 1
        if self.fail_at is not None and k in self.fail_at:
            return 0
        return st.new(size, 'heap', '%s#%d' % (name, k))

    def free(self, st, p):
        if type(p) is int and p == 0:
            return
        if type(p) is not Ptr:
            raise Violation('bad-free', 'free(%r)' % (p,), st)
        o = st.get(p.obj)
        if o.kind != 'heap':
            raise Violation('bad-free', 'free of non-heap %s' % o.name, st)
        if not o.alive:
            raise Violation('double-free', 'second free of %s' % o.name, st)
        if p.off != 0 or p.sym is not None:
            raise Violation('bad-free', 'free of interior pointer', st)
        if self.on_free:
            self.on_free(st, o)
        o = st.getw(p.obj)
        o.alive = False

    def feasible(self, st, extra=()):
        """is pc and extra satisfiable (True when not refuted)"""
        if self.solver is None:
            from . import solve
            self.solver = solve
        return self.solver.sat_bits(list(st.pc) + list(extra))

    def feasible_any(self, st, sel, idxs):
        d = 0
        for x in idxs:
            c = 1
            for i, b in enumerate(sel):
                c = T.and2(c, b if (x >> i) & 1 else T.not1(b))
            d = T.or2(d, c)
        if d == 0:
            return False
        return self.feasible(st, [d])

    # -------------------------------------------------------- execution
    def state(self):
        return State(self)

    def call(self, st, fn, args):
        """fn: name, Fn or ir.Func.  Returns list of Outcome."""
        if type(fn) is str:
            h = self.hooks.get(fn)
            if h is not None:
                return self._hook(h, st, args)
            f = self.find_func(fn)
            if f is None:
                raise Unsupported('function ' + fn)
        elif type(fn) is Fn:
            h = self.hooks.get(fn.name)
            if h is not None:
                return self._hook(h, st, args)
            f = self.find_func(fn.name, fn.mod)
            if f is None:
                r = self.builtin(st, fn.name, args)
                return r if type(r) is list else [Outcome(st, 'ret', r)]
        else:
            f = fn
        self.functions.add((f.mod.name, f.name))
        c = self.compiled.get(f)
        if c is None:
            c = self.compiled[f] = compile_func(f, self)
        nregs, blocks = c
        R = [None] * nregs
        for i, a in enumerate(args):
            R[i] = a
        allocas0 = self.nobj
        outs = self._run(f, blocks, st, R, f.entry, None, 0, None)
        res = []
        for o in outs:
            if o.kind == 'ret':
                # end of scope of the stack objects of this call
                for oid, ob in list(o.st.objs.items()):
                    if oid > allocas0 and ob.kind == 'stack':
                        if self.on_scope:
                            self.on_scope(o.st, ob)
                        del o.st.objs[oid]
            res.append(o)
        return res

    on_scope = None

    def _hook(self, h, st, args):
        r = h(self, st, args)
        if type(r) is list:
            return r
        return [Outcome(st, 'ret', r)]

    def call1(self, st, fn, args):
        outs = [o for o in self.call(st, fn, args)]
        bad = [o for o in outs if o.kind != 'ret']
        if bad:
            raise Violation(bad[0].kind, str(bad[0].val), bad[0].st)
        if len(outs) != 1:
            raise Unsupported('%d outcomes' % len(outs))
        return outs[0].st, outs[0].val

    def _phis(self, blk, R, prev):
        phis = blk[0]
        if phis:
            vals = []
            for d, t, inc in phis:
                v = inc[prev]
                vals.append((d, R[v[1]] if v[0] == 'r' else v[1]))
            for d, v in vals:
                R[d] = v

    def _run(self, f, blocks, st, R, bn, prev, ip, stop):
        """execute from block bn, item ip; returns outcomes: ret/assert/... or ('stop', (R, prev))"""
        while True:
            if bn == stop and ip == 0:
                return [Outcome(st, 'stop', (R, prev))]
            blk = blocks[bn]
            if ip == 0:
                if prev != '<merged>':
                    self._phis(blk, R, prev)
                if self.loop_rule is not None:
                    r = self.loop_rule(self, f, st, R, bn, blk)
                    if r is not None:
                        if r[0] == 'end':
                            return r[1]
                        _, st, R = r
                self.steps += 1
                if self.max_steps is not None and self.steps > self.max_steps:
                    raise Budget('step budget exhausted in ' + f.name)
            items = blk[1]
            n = len(items)
            while ip < n:
                it = items[ip]
                if it[0] == 'seg':
                    it[1](R, st)
                else:
                    outs = self._call_item(f, it, R, st)
                    if type(outs) is not list:
                        if it[1] is not None:
                            R[it[1]] = outs[0]
                    elif len(outs) == 1 and outs[0].kind == 'ret':
                        st = outs[0].st
                        if it[1] is not None:
                            R[it[1]] = outs[0].val
                    else:
                        res = []
                        for o in outs:
                            if o.kind != 'ret':
                                res.append(o)
                                continue
                            R2 = list(R)
                            if it[1] is not None:
                                R2[it[1]] = o.val
                            res.extend(self._run(f, blocks, o.st, R2, bn, prev, ip + 1, stop))
                        return res
                ip += 1
            t = blk[2]
            k = t[0]
            ip = 0
            if k == 'br':
                prev, bn = bn, t[1]
            elif k == 'ret':
                v = t[1]
                return [Outcome(st, 'ret', None if v is None else (R[v[1]] if v[0] == 'r' else v[1]))]
            elif k == 'unreachable':
                raise Violation('unreachable', f.name, st)
            elif k == 'cbr':
                c = R[t[1][1]] if t[1][0] == 'r' else t[1][1]
                if type(c) is tuple:
                    c = c[0]
                if c == 1:
                    prev, bn = bn, t[2]
                elif c == 0:
                    prev, bn = bn, t[3]
                else:
                    r = self._symbranch(f, blocks, st, R, bn, stop, [(c, t[2]), (T.not1(c), t[3])])
                    if r[0] == 'go':
                        _, st, R, prev, bn = r
                    else:
                        return r[1]
            elif k == 'switch':
                v = R[t[2][1]] if t[2][0] == 'r' else t[2][1]
                if type(v) is int:
                    nb = t[3]
                    for cv, lab in t[4]:
                        if cv == v:
                            nb = lab
                            break
                    prev, bn = bn, nb
                else:
                    conds = []
                    rest = 1
                    for cv, lab in t[4]:
                        c = T.eq(v, cv, t[1])
                        conds.append((c, lab))
                        rest = T.and2(rest, T.not1(c))
                    conds.append((rest, t[3]))
                    res = []
                    for c, lab in conds:
                        if c == 0 or not self.feasible(st, [c]):
                            continue
                        s2 = st.fork()
                        s2.pc.append(c)
                        res.extend(self._run(f, blocks, s2, list(R), lab, bn, 0, stop))
                    return res
            else:
                raise Unsupported(k)

    def _symbranch(self, f, blocks, st, R, bn, stop, alts):
        (c, b1), (nc, b2) = alts
        # known from the path condition?
        if c in st.pc:
            return ('go', st, R, bn, b1)
        if nc in st.pc:
            return ('go', st, R, bn, b2)
        if self.on_branch:
            self.on_branch(self, f, st, c)
        f1 = self.feasible(st, [c])
        f2 = self.feasible(st, [nc])
        if f1 and not f2:
            return ('go', st, R, bn, b1)
        if f2 and not f1:
            return ('go', st, R, bn, b2)
        if not f1 and not f2:
            return ('done', [])
        ipd = f.ipdom()[bn] if self.merge else None
        s1 = st.fork()
        s1.pc.append(c)
        s2 = st.fork()
        s2.pc.append(nc)
        if ipd is not None:
            o1 = self._run(f, blocks, s1, list(R), b1, bn, 0, ipd)
            o2 = self._run(f, blocks, s2, list(R), b2, bn, 0, ipd)
            if len(o1) == 1 and len(o2) == 1 and o1[0].kind == 'stop' and o2[0].kind == 'stop':
                mg = self._merge(f, blocks, st, c, o1[0], o2[0], ipd)
                if mg is not None:
                    st, R = mg
                    return ('go', mg[0], mg[1], '<merged>', ipd)
            res = []
            for o in o1 + o2:
                if o.kind != 'stop':
                    res.append(o)
                else:
                    R2, pv = o.val
                    res.extend(self._run(f, blocks, o.st, R2, ipd, pv, 0, stop))
            return ('done', res)
        res = self._run(f, blocks, s1, list(R), b1, bn, 0, stop)
        res = res + self._run(f, blocks, s2, list(R), b2, bn, 0, stop)
        return ('done', res)

    def _merge(self, f, blocks, st, c, o1, o2, ipd):
        sa, (Ra, pa) = o1.st, o1.val
        sb, (Rb, pb) = o2.st, o2.val
        if pa == '<merged>' or pb == '<merged>':
            # phis already applied on that side
            pass
        Ra = list(Ra)
        Rb = list(Rb)
        blk = blocks[ipd]
        if pa != '<merged>':
            self._phis(blk, Ra, pa)
        if pb != '<merged>':
            self._phis(blk, Rb, pb)
        if sa.nmalloc != sb.nmalloc:
            return None
        ka = {k for k, o in sa.objs.items() if o.kind != 'stack' or k in st.objs}
        kb = {k for k, o in sb.objs.items() if o.kind != 'stack' or k in st.objs}
        if ka != kb:
            return None
        R = list(Ra)
        for i, (x, y) in enumerate(zip(Ra, Rb)):
            if x is y or (type(x) == type(y) and x == y):
                continue
            if x is None or y is None:
                R[i] = None
                continue
            if type(x) in (Ptr, Fn) or type(y) in (Ptr, Fn):
                if any(d == i for d, _, _ in blk[0]):
                    return None
                R[i] = None
                continue
            w = len(x) if type(x) is tuple else (len(y) if type(y) is tuple else None)
            if w is None:
                w = self._regwidth(f, i, blk, x, y)
            R[i] = ite(c, x, y, w)
        new = st.fork()
        for k in ka:
            oa = sa.objs[k]
            ob = sb.objs[k]
            if oa is ob:
                new.objs[k] = oa
                continue
            if oa.alive != ob.alive:
                return None
            cells = []
            for x, y in zip(oa.cells, ob.cells):
                if x is y or (type(x) == type(y) and x == y):
                    cells.append(x)
                elif x is None or y is None:
                    z = x if y is None else y
                    u = T.var('uninit:%s:%d:%d' % (oa.name, k, len(cells)), 8)
                    if type(z) is PB:
                        return None
                    cells.append(ite(c, u if x is None else x, u if y is None else y, 8))
                elif type(x) is PB or type(y) is PB:
                    return None
                else:
                    cells.append(ite(c, x, y, 8))
            o = Obj(k, oa.size, cells, oa.kind, oa.name, oa.ro)
            o.alive = oa.alive
            o.hook = oa.hook
            if oa.written is not None:
                o.written = set(oa.written) | set(ob.written or ())
            o.owner = new
            new.objs[k] = o
        for k, o in list(sa.objs.items()) + list(sb.objs.items()):
            if k not in new.objs:
                new.objs[k] = o
        for o in new.objs.values():
            if o.owner is not new:
                o.owner = None
        new.nmalloc = sa.nmalloc
        if sa.ghost != sb.ghost:
            return None
        new.ghost = sa.ghost
        if sa.log != sb.log:
            return None
        new.log = sa.log
        new.uninit_reads = sa.uninit_reads + sb.uninit_reads
        return new, R

    def _regwidth(self, f, i, blk, x, y):
        for d, t, _ in blk[0]:
            if d == i:
                return t.w
        return max(x.bit_length(), y.bit_length(), 1)

    def _call_item(self, f, it, R, st):
        _, dest, rty, callee, args = it
        vals = [R[v[1]] if v[0] == 'r' else v[1] for _, v in args]
        if callee[0] == 'asm':
            return (self.asm(callee[1], args, vals, rty),)
        if callee[0] == 'r':
            fn = R[callee[1]]
            if type(fn) is not Fn:
                if fn == 0:
                    raise Violation('null-call', 'call through null pointer in ' + f.name, st)
                raise Violation('bad-call', 'call through %r in %s' % (fn, f.name), st)
            return self.call(st, fn, vals)
        name = callee[1]
        h = self.hooks.get(name)
        if h is not None:
            return self._hook(h, st, vals)
        g = self.find_func(name, f.mod)
        if g is not None:
            return self.call(st, g, vals)
        r = self.builtin(st, name, vals)
        if type(r) is list:
            return r
        return (r,)

    def builtin(self, st, name, a):
        if name == 'malloc':
            return self.malloc(st, a[0])
        if name == 'calloc':
            n = a[0] * a[1]
            p = self.malloc(st, n)
            if type(p) is Ptr:
                st.getw(p.obj).cells[:] = [0] * n
            return p
        if name == 'free':
            self.free(st, a[0])
            return None
        if name.startswith('llvm.memcpy') or name in ('memcpy', 'memmove') or name.startswith('llvm.memmove'):
            d, s, n = a[0], a[1], a[2]
            if type(n) is not int:
                raise Unsupported('memcpy of symbolic length')
            if n:
                s, d = st.window(s), st.window(d)
                so = st._chk(s, n, False)
                st._chk(d, n, True)
                if s.sym is not None or d.sym is not None:
                    raise Unsupported('memcpy at symbolic offset')
                if 'memmove' not in name and s.obj == d.obj and s.off != d.off and abs(s.off - d.off) < n:
                    raise Violation('memcpy-overlap', 'overlapping memcpy', st)
                cells = so.cells[s.off:s.off + n]
                o = st.getw(d.obj)
                o.cells[d.off:d.off + n] = cells
                if o.written is not None:
                    o.written.update(range(d.off, d.off + n))
            return d
        if name.startswith('llvm.memset') or name == 'memset':
            d, v, n = a[0], a[1], a[2]
            if type(n) is not int:
                raise Unsupported('memset of symbolic length')
            if n:
                d = st.window(d)
                st._chk(d, n, True)
                if d.sym is not None:
                    raise Unsupported('memset at symbolic offset')
                if name == 'memset' and type(v) is int:
                    v &= 255
                elif type(v) is tuple and len(v) > 8:
                    v = trunc(v, 8)
                o = st.getw(d.obj)
                o.cells[d.off:d.off + n] = [v] * n
                if o.written is not None:
                    o.written.update(range(d.off, d.off + n))
            return d
        if name == 'memcmp':
            n = a[2]
            if type(n) is not int:
                raise Unsupported('memcmp of symbolic length')
            x = st.bytes_at(a[0], n) if n else []
            y = st.bytes_at(a[1], n) if n else []
            r = 0
            for p, q in reversed(list(zip(x, y))):
                r = ite(T.eq(p, q, 8), r, sub(zext(p, 8, 32), zext(q, 8, 32), 32), 32)
            return r
        if name.startswith('llvm.fshl') or name.startswith('llvm.fshr'):
            w = int(name.rsplit('.i', 1)[1])
            left = 'fshl' in name
            if a[0] == a[1]:
                return (T.rotl_var if left else T.rotr_var)(a[0], a[2], w)
            if type(a[2]) is not int:
                raise Unsupported('funnel shift')
            n = a[2] % w
            cat = T.concat([(a[1], w), (a[0], w)])
            return T.extract(cat, w - n if left else n, w)
        if name.startswith('llvm.bswap'):
            w = int(name.rsplit('.i', 1)[1])
            return bswap(a[0], w)
        if name.startswith('llvm.lifetime') or name.startswith('llvm.dbg') or name.startswith('llvm.assume') \
                or name.startswith('llvm.stacksave') or name.startswith('llvm.stackrestore') or name.startswith('llvm.donothing'):
            return 0
        if name.startswith('llvm.umin') or name.startswith('llvm.umax'):
            w = int(name.rsplit('.i', 1)[1])
            c = T.ult(a[0], a[1], w)
            return sel(c, a[0], a[1], w) if 'umin' in name else sel(c, a[1], a[0], w)
        if name == '__assert_fail':
            msg = self.cstr(st, a[0])
            return [Outcome(st, 'assert', msg)]
        if name == 'abort' or name == 'exit':
            return [Outcome(st, 'abort', name)]
        if name == 'strlen':
            return len(self.cstr(st, a[0]))
        raise Unsupported('external function ' + name)

    def cstr(self, st, p):
        o = st.get(p.obj)
        r = []
        i = p.off
        while type(o.cells[i]) is int and o.cells[i]:
            r.append(chr(o.cells[i]))
            i += 1
        return ''.join(r)

    def asm(self, a, args, vals, rty):
        text, cons = a
        w = rty.w
        s = text.replace('$$', '#').split()
        op = s[0].rstrip(',')
        rest = ' '.join(s[1:])
        if op in ('bswap', 'bswapl', 'bswapq') and rest == '$0':
            return bswap(vals[0], w)
        sfx = {8: 'b', 16: 'w', 32: 'l', 64: 'q'}[w]
        if op in ('rol' + sfx, 'ror' + sfx, 'rol', 'ror'):
            src, dst = [x.strip() for x in rest.split(',')]
            if dst != '$0':
                raise Unsupported('asm ' + text)
            f = T.rotl_var if op.startswith('rol') else T.rotr_var
            if src == '%cl':
                amt = vals[1]
                if 'cx' not in cons:
                    raise Unsupported('asm ' + text)
                amt = trunc(amt, 8)
                if w == 64:
                    amt = trunc(amt, 6)
                else:
                    amt = trunc(amt, 5)
                return f(vals[0], amt, w)
            if src.startswith('#'):
                return f(vals[0], int(src[1:]) & (63 if w == 64 else 31), w)
        raise Unsupported('asm ' + text)


def bswap(v, w):
    n = w // 8
    return T.concat([(T.extract(v, w - 8 * (i + 1), 8), 8) for i in range(n)])

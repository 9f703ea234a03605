"""Contracts of the primitives a construction is built on: descriptors whose functions are hooks.
The functions are uninterpreted (any block cipher, hash, MAC, stream cipher); create and recreate allocate
through the machine, so that they fail when the machine is told to, recreate moves the object, and destroy wipes it."""
from . import terms as T
from .machine import Ptr, Fn, PB, Violation, Unsupported
from .word import W


def word(bs):
    """list of byte terms as one word term (first byte lowest)"""
    if not bs:
        return 0
    return T.concat([(b, 8) for b in bs])


def unword(w, n):
    return [T.extract(w, 8 * i, 8) for i in range(n)]


def uf(name, n, args):
    """n bytes of an uninterpreted function of the arguments (ints, strings, byte lists)"""
    a = []
    for x in args:
        if type(x) in (list, tuple) and not (x and type(x) is tuple and type(x[0]) is int):
            a += [len(x), word(list(x))]
        else:
            a.append(x)
    return unword(canon(name, n, tuple(a)), n)


def chunk(st, name):
    """(pointer, length, token): a buffer of any length with any contents; the contracts below take it as a whole,
    everything else that touches it is beyond the verifier"""
    tok = [T.var('%s.chunk[%d]' % (name, i), 8) for i in range(8)]
    p = st.new(8, 'opaque', name, list(tok), False)
    return p, T.var('%s.len' % name, 64), tok


def chunk32(st, name):
    """the same with a length of 32 bits"""
    p, _, tok = chunk(st, name)
    return p, T.var('%s.len' % name, 32), tok


def taken(st, p, n, what):
    """the contents of a buffer as the contracts see it"""
    if type(n) is int:
        return list(st.bytes_at(p, n)) if n else []
    o = st.get(p.obj) if type(p) is Ptr else None
    b = T.bits(n, 64)
    if len(b) < 64:
        b = tuple(b) + (0,) * (64 - len(b))
    ln = '%s.len' % (o.name if o is not None else '')
    if o is None or o.kind != 'opaque' or p.off or p.sym is not None or b not in (T.bits(T.var(ln, 64), 64), T.bits(T.var(ln, 32), 32) + (0,) * 32):
        raise Unsupported('symbolic length in ' + what)
    return list(o.cells)


def opaque_out(st, p, n, ref, tok):
    """write the token of the result into an output buffer of the same length as ref"""
    o = st.getw(p.obj)
    if o.kind != 'opaque' or p.off or p.sym is not None:
        raise Unsupported('symbolic length')
    if o.name.split('.')[0] != st.get(ref.obj).name.split('.')[0]:
        raise Unsupported('other buffer')
    o.cells = list(tok)


_apps = {}
_gen = [None]


def canon(name, n, args):
    """application of an uninterpreted function; arguments that are equal, though not in their normal form, give the same term"""
    if _gen[0] != T.GEN[0]:
        _apps.clear()
        _gen[0] = T.GEN[0]
    if not any(type(x) is tuple for x in args):
        return T.uf(name, 8 * n, args)
    shape = (name, n, tuple(len(x) if type(x) is tuple else None for x in args))
    sig = tuple(hash(tuple(T.sim_word(x, len(x)))) if type(x) is tuple else x for x in args)
    known = _apps.setdefault(shape + (sig,), [])
    for other, r in known:
        if other == args:
            return r
    from . import smt
    for other, r in known:
        for x, y in zip(args, other):
            if x != y and not (type(x) is tuple and smt.equal(x, y, len(x)) == 'yes'):
                break
        else:
            known.append((args, r))
            return r
    r = T.uf(name, 8 * n, args)
    known.append((args, r))
    return r


class _Prim:
    kind = ''

    def __init__(self, m, st, tag, slots, ints):
        """slots: method names in order of the descriptor"""
        self.m = m
        self.tag = tag
        cells = []
        for s in slots:
            name = '%s.%s' % (tag, s)
            if s is None:
                cells += [0] * 8
                continue
            m.hooks[name] = getattr(self, s)
            cells += [PB(Fn(name), i) for i in range(8)]
        for v in ints:
            cells += [(v >> (8 * i)) & 255 for i in range(4)]
        cells += [0] * (-len(cells) % 8)
        self.desc = st.new(len(cells), 'global', tag + '.desc', cells, True)
        self.cells = cells
        self.descs = {self.desc}
        self.calls = 0

    def maker(self, *want):
        """contract of a descriptor constructor such as kripto_stream_ctr(block): a new heap descriptor, or null"""
        def hook(m, st, a):
            if list(a) != list(want):
                raise Violation('precondition', 'constructor of %s called with other descriptors' % self.tag, st)
            p = m.malloc(st, len(self.cells), self.tag + '.desc')
            if type(p) is not Ptr:
                return 0
            st.getw(p.obj).cells = list(self.cells)
            self.descs.add(p)
            return p
        return hook

    def key(self, st, r, p, n):
        """bytes identifying (rounds, key)"""
        if type(r) is not int:
            raise Unsupported('symbolic rounds in a call of %s.create' % self.tag)
        if type(n) is int and not n:
            raise Violation('precondition', 'empty key given to ' + self.tag, st)
        return uf(self.tag + '.key', 8, [r, taken(st, p, n, self.tag)])

    def alloc(self, st, secret, desc=None):
        p = self.m.malloc(st, 8 + len(secret), self.tag)
        if type(p) is not Ptr:
            return 0
        st.store_ptr(p, desc or self.desc)
        st.put_bytes(Ptr(p.obj, 8), secret)
        return p

    def drop(self, st, s):
        o = st.getw(s.obj)
        self.own(st, s)
        o.cells[8:] = [0] * (o.size - 8)
        self.m.free(st, s)
        st.ghost.pop((self.tag, s.obj), None)

    def own(self, st, s):
        """the secret of a live object of this kind"""
        o = st._chk(s, 8, False)
        d = st.load_ptr(Ptr(s.obj, 0))
        if s.off or d not in self.descs:
            raise Violation('precondition', 'not an object of ' + self.tag, st)
        return o.cells[8:]

    def destroy(self, m, st, a):
        self.drop(st, a[0])
        return None


class Block(_Prim):
    kind = 'block'

    def __init__(self, m, st, bs, maxkey=64, tag='blk'):
        self.bs = bs
        self.maxkey = maxkey
        self.dec = {}
        self.enc = {}
        _Prim.__init__(self, m, st, tag, ('create', 'recreate', None, 'encrypt', 'decrypt', 'destroy'), (bs, maxkey, 0))

    def chk(self, st, n):
        if n > self.maxkey:
            raise Violation('precondition', 'key longer than the maximum given to ' + self.tag, st)

    def create(self, m, st, a):
        d, r, k, n = a
        self.chk(st, n)
        return self.alloc(st, self.key(st, r, k, n))

    def recreate(self, m, st, a):
        s, r, k, n = a
        self.chk(st, n)
        self.own(st, s)
        kid = self.key(st, r, k, n)
        self.drop(st, s)
        return self.alloc(st, kid)

    def E(self, kid, x):
        k = (tuple(kid), tuple(x))
        y = self.enc.get(k)
        if y is None:
            y = self.enc[k] = uf(self.tag + '.E', self.bs, [list(kid), list(x)])
            self.dec.setdefault((tuple(kid), tuple(y)), list(x))
        return list(y)

    def D(self, kid, y):
        k = (tuple(kid), tuple(y))
        x = self.dec.get(k)
        if x is None:
            x = self.dec[k] = uf(self.tag + '.D', self.bs, [list(kid), list(y)])
            self.enc.setdefault((tuple(kid), tuple(x)), list(y))
        return list(x)

    def encrypt(self, m, st, a):
        s, i, o = a
        st.put_bytes(o, self.E(self.own(st, s), st.bytes_at(i, self.bs)))

    def decrypt(self, m, st, a):
        s, i, o = a
        st.put_bytes(o, self.D(self.own(st, s), st.bytes_at(i, self.bs)))


class Hash(_Prim):
    """output: any prefix of an uninterpreted function of (rounds, salt, requested length, message)"""
    kind = 'hash'

    def __init__(self, m, st, bs, maxout=64, maxsalt=16, tag='hash', unlimited=256):
        self.bs, self.maxout, self.maxsalt = bs, maxout, maxsalt
        self.unl = unlimited
        self.may_fail_recreate = False
        _Prim.__init__(self, m, st, tag, ('create', 'recreate', 'input', 'output', 'destroy', 'all'), (maxout, bs, maxsalt))

    def params(self, st, r, p, n, out):
        if self.maxout and out > self.maxout:
            raise Violation('precondition', '%s.create with output length %r' % (self.tag, out), st)
        if n > self.maxsalt:
            raise Violation('precondition', 'salt too long for ' + self.tag, st)
        return (r, tuple(st.bytes_at(p, n) if n else ()), out)

    def H(self, par, msg):
        return uf(self.tag + '.H', par[2] if par[2] else self.unl, [par[0], list(par[1]), par[2], list(msg)])

    def create(self, m, st, a):
        d, r, p, n, out = a
        par = self.params(st, r, p, n, out)
        s = self.alloc(st, [0] * 8)
        if type(s) is Ptr:
            self.set(st, s, (par, (), None))
        return s

    def set(self, st, s, v):
        """the ghost value, with its influence on the object's bytes"""
        st.ghost[(self.tag, s.obj)] = v
        st.getw(s.obj).cells[8:16] = uf(self.tag + '.state', 8, [repr(v[0][0]), list(v[0][1]), v[0][2], list(v[1]), repr(v[2])]) if v[1] or v[0][1] else [0] * 8

    def recreate(self, m, st, a):
        s, r, p, n, out = a
        self.own(st, s)
        self.set(st, s, (self.params(st, r, p, n, out), (), None))
        return s

    def ghost(self, st, s):
        self.own(st, s)
        return st.ghost[(self.tag, s.obj)]

    def input(self, m, st, a):
        s, p, n = a
        par, msg, pos = self.ghost(st, s)
        x = tuple(taken(st, p, n, self.tag))
        if pos is not None:
            raise Violation('precondition', 'input after output', st)
        self.set(st, s, (par, msg + x, None))

    def output(self, m, st, a):
        s, p, n = a
        par, msg, pos = self.ghost(st, s)
        pos = pos or 0
        if par[2] and pos + n > par[2]:
            raise Violation('precondition', 'output of %d bytes beyond the requested length %d' % (pos + n, par[2]), st)
        st.put_bytes(p, self.H(par, msg)[pos:pos + n])
        self.set(st, s, (par, msg, pos + n))

    def all(self, m, st, a):
        d, r, p, n, i, il, o, ol = a
        t = self.malloc_probe(st)
        if t:
            return 0xFFFFFFFF
        par = self.params(st, r, p, n, ol)
        st.put_bytes(o, self.H(par, st.bytes_at(i, il) if il else [])[:ol])
        return 0

    def malloc_probe(self, st):
        """one allocation that is released again; true if it fails"""
        p = self.m.malloc(st, 1, self.tag)
        if type(p) is not Ptr:
            return True
        st.getw(p.obj).cells[:] = [0]
        self.m.free(st, p)
        return False


class Mac(_Prim):
    """tag: any prefix of an uninterpreted function of (rounds, key, requested length, message)"""
    kind = 'mac'

    def __init__(self, m, st, maxtag=16, maxkey=64, tag='mac', unlimited=256):
        self.maxtag, self.maxkey = maxtag, maxkey
        self.unl = unlimited
        _Prim.__init__(self, m, st, tag, ('create', 'recreate', 'input', 'tag_', 'destroy'), (maxtag, maxkey))

    def params(self, st, r, k, n, out):
        if self.maxtag and out > self.maxtag:
            raise Violation('precondition', '%s.create with tag length %r' % (self.tag, out), st)
        if type(n) is int and n > self.maxkey:
            raise Violation('precondition', 'key too long for ' + self.tag, st)
        return (tuple(self.key(st, r, k, n)), out)

    def M(self, par, msg):
        return uf(self.tag + '.M', par[1] or self.unl, [list(par[0]), par[1], list(msg)])

    def set(self, st, s, v):
        st.ghost[(self.tag, s.obj)] = v
        o = st.getw(s.obj)
        o.cells[8:16] = list(v[0][0])
        o.cells[16:24] = uf(self.tag + '.state', 8, [list(v[1]), repr(v[2])]) if v[1] else [0] * 8

    def create(self, m, st, a):
        d, r, k, n, out = a
        par = self.params(st, r, k, n, out)
        s = self.alloc(st, [0] * 16, d)
        if type(s) is Ptr:
            self.set(st, s, (par, (), False))
        return s

    def recreate(self, m, st, a):
        s, r, k, n, out = a
        self.own(st, s)
        d = st.load_ptr(Ptr(s.obj, 0))
        par = self.params(st, r, k, n, out)
        self.drop(st, s)
        s = self.alloc(st, [0] * 16, d)
        if type(s) is Ptr:
            self.set(st, s, (par, (), False))
        return s

    def ghost(self, st, s):
        self.own(st, s)
        return st.ghost[(self.tag, s.obj)]

    def input(self, m, st, a):
        s, p, n = a
        par, msg, done = self.ghost(st, s)
        x = tuple(taken(st, p, n, self.tag))
        if done:
            raise Violation('precondition', 'MAC input after the tag was taken', st)
        self.set(st, s, (par, msg + x, False))

    def tag_(self, m, st, a):
        s, p, n = a
        par, msg, done = self.ghost(st, s)
        if done:
            raise Violation('precondition', 'MAC tag taken twice', st)
        if par[1] and n > par[1]:
            raise Violation('precondition', 'tag of %d bytes from a MAC created for %d' % (n, par[1]), st)
        st.put_bytes(p, self.M(par, msg)[:n])
        self.set(st, s, (par, msg, True))


class Stream(_Prim):
    """ciphertext byte = plaintext byte xor an uninterpreted function of key, nonce and the ciphertext so far"""
    kind = 'stream'

    def __init__(self, m, st, maxkey=32, maxiv=24, tag='str', multof=1):
        self.maxkey, self.maxiv = maxkey, maxiv
        self.mult = multof
        self.fwd, self.bwd = {}, {}
        _Prim.__init__(self, m, st, tag, ('create', 'recreate', 'encrypt', 'decrypt', None, 'destroy'), (maxkey, maxiv))

    def params(self, st, r, k, kn, iv, ivn):
        if kn > self.maxkey or ivn > self.maxiv:
            raise Violation('precondition', 'key or nonce too long for ' + self.tag, st)
        return (tuple(self.key(st, r, k, kn)), tuple(st.bytes_at(iv, ivn) if ivn else ()))

    def mk(self, st, par, d):
        p = self.m.malloc(st, 32, self.tag)
        if type(p) is not Ptr:
            return 0
        st.store_ptr(p, d)
        st.put_bytes(Ptr(p.obj, 8), [self.mult] + [0] * 7)
        self.set(st, p, (par, ()))
        return p

    def set(self, st, s, v):
        st.ghost[(self.tag, s.obj)] = v
        o = st.getw(s.obj)
        o.cells[16:24] = list(v[0][0])
        o.cells[24:32] = uf(self.tag + '.state', 8, [list(v[0][1]), list(v[1])]) if v[0][1] or v[1] else [0] * 8

    def create(self, m, st, a):
        d, r, k, kn, iv, ivn = a
        return self.mk(st, self.params(st, r, k, kn, iv, ivn), d)

    def recreate(self, m, st, a):
        s, r, k, kn, iv, ivn = a
        self.own(st, s)
        d = st.load_ptr(Ptr(s.obj, 0))
        par = self.params(st, r, k, kn, iv, ivn)
        self.drop(st, s)
        return self.mk(st, par, d)

    def ks(self, par, ct):
        return uf(self.tag + '.ks', 1, [list(par[0]), list(par[1]), list(ct)])[0]

    def crypt(self, st, a, enc):
        s, i, o, n = a
        self.own(st, s)
        par, ct = st.ghost[(self.tag, s.obj)]
        if type(n) is not int:
            x = taken(st, i, n, self.tag)
            if enc:
                y = self.whole(par, ct, x, True)
            else:
                y = self.whole(par, ct, x, False)
            opaque_out(st, o, n, i, y)
            self.set(st, s, (par, ct + tuple(y if enc else x)))
            return
        if n % self.mult:
            raise Violation('precondition', 'length not a multiple of the block', st)
        src = st.bytes_at(i, n) if n else []
        out = []
        for x in src:
            y = T.xor(x, self.ks(par, ct), 8)
            out.append(y)
            ct = ct + ((y if enc else x),)
        if n:
            st.put_bytes(o, out)
        self.set(st, s, (par, ct))

    def whole(self, par, ct, x, enc):
        """a piece of any length; decryption of what encryption gave is the data"""
        k = (par, tuple(ct), tuple(x))
        a, b = (self.fwd, self.bwd) if enc else (self.bwd, self.fwd)
        if k not in a:
            y = uf('%s.%s' % (self.tag, 'enc' if enc else 'dec'), 8, [list(par[0]), list(par[1]), list(ct), list(x)])
            a[k] = y
            b.setdefault((par, tuple(ct), tuple(y)), list(x))
        return list(a[k])

    def encrypt(self, m, st, a):
        self.crypt(st, a, True)

    def decrypt(self, m, st, a):
        self.crypt(st, a, False)


class Lazy:
    """feasibility oracle that refutes nothing: every branch is explored and merged"""
    @staticmethod
    def sat_bits(bits):
        return not any(b == 0 for b in bits)

"""P04 continued: Keccak, SHA-3, Skein (also the Skein MACs for P07)."""
import ctypes
import random
from kv import fake, fold, lib, native, offs, run
from kv import terms as T
from kv.machine import Ptr, Fn, PB, Unsupported, Violation
from kv.obl import Group
from kv.run import THOROUGH
from kv.scen import S, same, Mismatch
from kv.spec import hashes as H, skein as K
from kv.word import W, B, les, tole, bytesW, ints

KEC = {'keccak1600': (200, 64, 24, 'hash/keccak1600', 'keccak1600_F', 1), 'keccak800': (100, 32, 22, 'hash/keccak800', 'keccak800_F', 1), 'sha3': (200, 64, 24, 'hash/keccak1600', 'keccak1600_F', 6)}


# ---------------------------------------------------------------- the permutation
class Lay:
    def __init__(self, name):
        size, w, dr, rel, fn, pad = KEC[name]
        self.o = offs.fields(rel, 'kripto_hash', ['r', 's'])
        if self.o['s'][1] != size or self.o['r'][1] != 4:
            raise Unsupported('fields of ' + rel)
        self.size = self.o[''][1]
        self.n = size

    def s(self, st, p):
        return st.bytes_at(Ptr(p.obj, p.off + self.o['s'][0]), self.n)

    def r(self, st, p):
        b = st.bytes_at(Ptr(p.obj, p.off + self.o['r'][0]), 4)
        if any(type(x) is not int for x in b):
            raise Unsupported('rounds')
        return sum(x << (8 * i) for i, x in enumerate(b))


def permutation(name, rounds):
    size, w, dr, rel, fn, pad = KEC[name]

    def go():
        lay = Lay(name)
        s = S([rel], strict=False)
        f = next((mod.funcs[fn] for mod in s.m.mods.values() if fn in mod.funcs), None)
        if f is None or len(f.params) != 1:
            raise Unsupported('no function ' + fn)
        cells = [T.var('o[%d]' % i, 8) for i in range(lay.size)]
        o = lay.o['r'][0]
        cells[o:o + 4] = [rounds >> (8 * i) & 255 for i in range(4)]
        p = s.st.new(lay.size, 'arg', 'object', list(cells))
        a = les([W(c, 8) for c in lay.s(s.st, p)], w)
        want = list(cells)
        k = lay.o['s'][0]
        want[k:k + size] = [b.v for b in tole(H.keccak_f(a, w, rounds))]
        outs = s.m.call(s.st, f, [p])
        if len(outs) != 1 or outs[0].kind != 'ret':
            raise Unsupported('several outcomes')
        same(outs[0].st.get(p.obj).cells, want, 'state after the permutation')
        return s.m.functions
    return go


def perm_task(name, rounds):
    G = Group('%s permutation, %d rounds' % (name, rounds), lambda: native_keccak(name))
    G.prove('contract: any state', permutation(name, rounds))
    return G.close(None, 'native differential runs')


# ---------------------------------------------------------------- absorbing and squeezing
def F(name, rounds, s):
    return fake.uf(KEC[name][4], len(s), [rounds or KEC[name][2], list(s)])


class Absorb:
    unit = 1

    def __init__(self, name, out_len, rounds):
        self.name, self.rounds = name, rounds
        self.n, self.pad = KEC[name][0], KEC[name][5]
        self.P = self.rate = self.n - 2 * min(out_len, self.n // 2 - 1)
        self.words = [(0, self.n)]

    def init(self):
        return [0] * self.n

    def step(self, sg, t, x):
        s = list(sg)
        i = t % self.rate
        s[i] = T.xor(s[i], x[0], 8)
        if i == self.rate - 1:
            s = F(self.name, self.rounds, s)
        return s, []

    def padded(self, sg, t):
        s = list(sg)
        i = t % self.rate
        s[i] = T.xor(s[i], self.pad, 8)
        s[self.rate - 1] = T.xor(s[self.rate - 1], 0x80, 8)
        return F(self.name, self.rounds, s)

    def output(self, s, n):
        out = []
        while True:
            out += s[:self.rate]
            if len(out) >= n:
                return out[:n]
            s = F(self.name, self.rounds, s)

    def final(self, sg, t, n):
        return self.output(self.padded(sg, t), n)


class Squeeze(Absorb):
    def step(self, sg, t, x):
        s = list(sg)
        if t and t % self.rate == 0:
            s = F(self.name, self.rounds, s)
        return s, [s[t % self.rate]]


def setup(name):
    size, w, dr, rel, fn, pad = KEC[name]
    s = S(['hash', rel], lazy=True)
    if not any(fn in mod.funcs for mod in s.m.mods.values()):
        raise Unsupported('no function ' + fn)
    lay = Lay(name)

    def hook(m, st, a):
        if len(a) != 1 or type(a[0]) is not Ptr or a[0].sym is not None or st.get(a[0].obj).size != lay.size:
            raise Unsupported('arguments of ' + fn)
        st.put_bytes(Ptr(a[0].obj, a[0].off + lay.o['s'][0]), F(name, lay.r(st, a[0]), lay.s(st, a[0])))
    s.m.hooks[fn] = hook
    s.desc = lib.desc(s.m, rel, 'kripto_hash_' + name)
    return s


def folds(name, out_len, rounds=0):
    s = setup(name)
    st0 = s.st.fork()
    ab, sq = Absorb(name, out_len, rounds), Squeeze(name, out_len, rounds)

    def make(g):
        q = S.__new__(S)
        q.m, q.st, q.n = s.m, st0.fork(), 0
        return q, q('kripto_hash_create', s.desc, rounds, 0, 0, out_len), ab.init()

    def feed(q, o, x):
        q('kripto_hash_input', o, q.inbuf('x', x), len(x))
        return []

    def make2(g):
        q, o, sg = make(g)
        x = g('m', 5)
        feed(q, o, x)
        for t, c in enumerate(x):
            sg, _ = ab.step(sg, t, [c])
        q('kripto_hash_output', o, q.out(1), 0)
        return q, o, ab.padded(sg, 5)

    def feed2(q, o, x):
        p = q.out(1)
        q('kripto_hash_output', o, p, 1)
        return q.get(p, 1)
    A = fold.Fold('%s.%d' % (name, out_len), make, feed, ab, runs=3, cycles=2, concrete=True)
    Q = fold.Fold('%s.%d.out' % (name, out_len), make2, feed2, sq, runs=3, cycles=2, concrete=True)
    A.mach, A.desc = s.m, s.desc
    return A, Q


def finals(A, Q, q, o, sg, t, lens):
    st0 = q.st
    for split in lens:
        q.st = st0.fork()
        got = []
        for n in split:
            p = q.out(n)
            q('kripto_hash_output', o, p, n)
            got += q.get(p, n)
        same(got, A.spec.final(sg, t, len(got)), 'output at position %d, read as %s' % (t, '+'.join(map(str, split))))
    if Q is not None:
        q.st = st0.fork()
        q('kripto_hash_output', o, q.out(1), 0)
        fold.check(fold.snapshot(q.st), Q.tpl[0], A.spec.padded(sg, t), 'state after switching to output at position %d' % t)
    q.st = st0


def keccak_task(name, out_len, rounds=0):
    G = Group('%s, length parameter %d, %d rounds' % (name, out_len, rounds), lambda: native_keccak(name))
    A = Q = None
    inf = name != 'sha3'
    P = Absorb(name, out_len, 0).rate

    def splits(t):
        n = out_len if not inf else min(out_len, P)
        o = [(n,)]
        if t % P in (0, P - 1):
            o += [(k,) for k in range(1, n)] + [(1,) * n] + [(k, n - k) for k in range(1, n)]
            if inf:
                o += [(P + 3,), (P, 1), (2 * P + 1,)]
        return o

    def disc():
        nonlocal A, Q
        A, Q = folds(name, out_len, rounds)
        A.discover()
        if inf:
            Q.discover()
        else:
            Q = None
    G.prove('invariant, first runs', disc)
    G.prove('absorbing from create through the first block, with the output of every message shorter than a block', lambda: A.base(lambda q, o, sg, t: finals(A, Q, q, o, sg, t, splits(t))))

    def dig():
        for u in A.positions():
            q, o, sg = A.at(u)
            finals(A, Q, q, o, sg, u, splits(u))
        return A.functions
    G.prove('padding and output from every state', dig)
    soft = len(G.soft)
    G.prove('input of every length from every state', lambda: fold.every_length(A, lambda q, h, ps, n: q('kripto_hash_input', h, ps[0], n), ('in',)) and None, optional=True)
    if len(G.soft) > soft:
        G.prove('one byte from every state', A.inductive)
    if inf:
        G.prove('output, first block', Q and Q.base or (lambda: Q.base()))
        soft = len(G.soft)
        G.prove('output of every length from every state', lambda: fold.every_length(Q, lambda q, h, ps, n: q('kripto_hash_output', h, ps[0], n), ('out',)) and None, optional=True)
        if len(G.soft) > soft:
            G.prove('one byte of output from every state', Q.inductive)

    def bounded():
        for pieces in [(0,), (1,), (P - 1,), (P,), (P + 1,), (2 * P,), (1, P - 1), (P, 1), (P - 1, 2), (1, 0, P)]:
            a, _ = folds(name, out_len, rounds)
            q, o, sg = a.make(lambda tag, n: [T.var('%s[%d]' % (tag, i), 8) for i in range(n)])
            t = 0
            for j, n in enumerate(pieces):
                x = q.data('d%d' % j, n)
                q('kripto_hash_input', o, q.inbuf('d', x), n)
                for c in x:
                    sg, _ = a.spec.step(sg, t, [c])
                    t += 1
            finals(a, None, q, o, sg, t, [(out_len,)])
    return G.close(bounded, 'messages of up to 2 blocks in 10 splits, data symbolic')


def keccak_setup(name):
    G = Group('%s, creation, recreation and the one-call form' % name, lambda: native_keccak(name))
    size = KEC[name][0]
    mx = size // 2 - 1 if name != 'sha3' else 64

    def go():
        fns = set()
        for ol in range(1, mx + (3 if name != 'sha3' else 1)):
            for re in (0, 1, 2):
                A, _ = folds(name, ol)
                q, o, sg = A.make(None)
                if re:
                    x = q.data('w', 3)
                    q('kripto_hash_input', o, q.inbuf('w', x), 3)
                    if re == 2:
                        q('kripto_hash_output', o, q.out(2), 1)
                    o = q('kripto_hash_recreate', o, 0, 0, 0, ol)
                x = q.data('x', 2)
                q('kripto_hash_input', o, q.inbuf('x', x), 2)
                for t in range(2):
                    sg, _ = A.spec.step(sg, t % A.spec.rate, [x[t]])
                finals(A, None, q, o, sg, 2 % A.spec.rate, [(ol,)])
                fns |= q.m.functions
            for n in (0, 2):
                A, _ = folds(name, ol)
                q, _, sg = A.make(None)
                x = q.data('m', n)
                p = q.out(ol)
                if q('kripto_hash_all', A.desc, 0, 0, 0, q.inbuf('m', x) if n else 0, n, p, ol) != 0:
                    raise Mismatch('kripto_hash_all fails')
                for t in range(n):
                    sg, _ = A.spec.step(sg, t % A.spec.rate, [x[t]])
                same(q.get(p, ol), A.spec.final(sg, n % A.spec.rate, ol), 'kripto_hash_all')
        return fns
    G.prove('every length parameter, short messages', go)

    def limits():
        s = setup(name)
        for fn, want in (('kripto_hash_maxout', 64 if name == 'sha3' else 0), ('kripto_hash_blocksize', size)):
            if s(fn, s.desc) != want and not (name != 'sha3' and fn == 'kripto_hash_maxout'):
                raise Mismatch(fn)
    G.prove('limits', limits)

    def one():
        from checks.p04 import one_call_contract
        return one_call_contract(lambda: setup(name), 0, 20)
    G.prove('one-call form for every length', one, optional=True)
    return G.close(None, 'one-call form: messages of up to 2 bytes; native runs')


def native_keccak(name, seed=0, n=150):
    from checks.p04 import drive
    size, w, dr, rel, fn, pad = KEC[name]
    r = random.Random('%s/%d' % (name, seed))
    L = native.load()
    d = native.desc('kripto_hash_' + name)
    s = None

    def ref(msg, ol, n, rounds):
        rate = size - 2 * min(ol, size // 2 - 1)
        p = bytearray(msg) + bytearray([pad])
        p += bytes(-len(p) % rate)
        p[-1] ^= 0x80
        st = [0] * size

        def perm(st):
            return [b.v for b in tole(H.keccak_f(les(bytesW(bytes(st)), w), w, rounds or dr))]
        for i in range(0, len(p), rate):
            st = perm([x ^ (p[i + j] if j < rate else 0) for j, x in enumerate(st)])
        out = st[:rate]
        while len(out) < n:
            st = perm(st)
            out += st[:rate]
        return bytes(out[:n])
    for i in range(n):
        ol = r.choice((28, 32, 20, 1, 49, 48, 64, 99)) if name != 'sha3' else r.choice((28, 32, 48, 64, 20))
        rate = size - 2 * min(ol, size // 2 - 1)
        k = r.choice((0, 1, rate - 1, rate, rate + 1, 2 * rate, r.randrange(500)))
        nout = r.choice((ol, ol, rate, rate + 1, 3 * rate)) if name != 'sha3' else ol
        rounds = 0 if i % 4 else 7
        msg = r.randbytes(k)
        want = ref(msg, ol, nout, rounds)
        s = L.kripto_hash_recreate(s, rounds, None, 0, ol) if s and i % 5 else L.kripto_hash_create(d, rounds, None, 0, ol)
        from checks.p04 import pieces_of
        p = 0
        ps, os_ = pieces_of(r, k), pieces_of(r, nout)
        for x in ps:
            L.kripto_hash_input(s, msg[p:p + x], x)
            p += x
        got = b''
        for x in os_:
            o = ctypes.create_string_buffer(max(1, x))
            L.kripto_hash_output(s, o, x)
            got += o.raw[:x]
        rec = {'hash': name, 'rounds': rounds, 'length': ol, 'message': msg.hex(), 'pieces': ps, 'read': os_, 'expected': want.hex()}
        if got != want:
            return dict(rec, got=got.hex())
        o = ctypes.create_string_buffer(ol)
        L.kripto_hash_all(d, rounds, None, 0, msg, k, o, ol)
        if o.raw != want[:ol] and nout >= ol:
            return dict(rec, got=o.raw.hex(), call='kripto_hash_all')
    return None


# ---------------------------------------------------------------- Skein
class TF(fake._Prim):
    """contract of Threefish: E(rounds, key, tweak, block), recreated in place, tweak set after the key"""
    kind = 'block'

    def __init__(self, m, st, bs):
        self.bs = bs
        fake._Prim.__init__(self, m, st, 'tf', ('create', 'recreate', 'tweak', 'encrypt', None, 'destroy'), (bs, bs, 16))
        name = 'kripto_block_threefish%d' % (8 * bs)
        p = st.new(8, 'global', name, None, False)
        st.store_ptr(p, self.desc)
        st.getw(p.obj).ro = True
        m.gptr[(None, name)] = p

    def create(self, m, st, a):
        d, r, k, n = a
        if n > self.bs:
            raise Violation('precondition', 'key longer than the maximum given to Threefish', st)
        kid = self.key(st, r, k, n)
        p = self.alloc(st, kid + [0] * 16)
        if type(p) is Ptr:
            st.getw(p.obj).cells[16:] = [None] * 16
        return p

    def recreate(self, m, st, a):
        s, r, k, n = a
        if n > self.bs:
            raise Violation('precondition', 'key longer than the maximum given to Threefish', st)
        self.own(st, s)
        kid = self.key(st, r, k, n)
        st.getw(s.obj).cells[8:] = list(kid) + [None] * 16
        return s

    def tweak(self, m, st, a):
        s, t, n = a
        if n != 16:
            raise Unsupported('tweak of %r bytes' % (n,))
        self.own(st, s)
        st.put_bytes(Ptr(s.obj, 16), st.bytes_at(t, 16))

    def encrypt(self, m, st, a):
        s, i, o = a
        sec = self.own(st, s)
        if any(c is None for c in sec):
            raise Violation('precondition', 'Threefish used without a key or tweak', st)
        st.put_bytes(o, fake.uf('tf.E', self.bs, [list(sec[:8]), list(sec[8:]), st.bytes_at(i, self.bs)]))


def E_of(rounds, bs):
    def E(key, tw, x):
        return fake.uf('tf.E', bs, [fake.uf('tf.key', 8, [rounds, list(key)]), list(tw), list(x)])
    return E


class Msg:
    """chaining value, buffer, position (12 bytes), type byte"""
    unit = 1

    def __init__(self, bs, E, bits, key=(), nonce=()):
        self.bs = self.P = bs
        self.E, self.bits = E, bits
        self.words = [(0, bs), (bs, bs), (2 * bs, 12), (2 * bs + 12, 1)]

    def init(self, key, nonce):
        return K.start(self.E, self.bs, self.bits, key, nonce) + [0] * self.bs + [0] * 12 + [K.MSG | 0x40]

    def proc(self, sg, n, final):
        bs = self.bs
        h, buf, pos, typ = sg[:bs], sg[bs:2 * bs], sg[2 * bs:2 * bs + 12], sg[2 * bs + 12]
        v = T.add(T.concat([(b, 8) for b in pos]), n, 96)
        pos = [T.extract(v, 8 * i, 8) for i in range(12)]
        x = list(buf[:n]) + [0] * (bs - n)
        c = self.E(h, list(pos) + [0, 0, 0, T.or_(typ, 0x80, 8) if final else typ], x)
        return [T.xor(a, b, 8) for a, b in zip(c, x)], pos

    def step(self, sg, t, x):
        bs = self.bs
        sg = list(sg)
        if t and t % bs == 0:
            h, pos = self.proc(sg, bs, False)
            sg[:bs], sg[2 * bs:2 * bs + 12], sg[2 * bs + 12] = h, pos, K.MSG
        sg[bs + t % bs] = x[0]
        return sg, []

    def final(self, sg, t, n):
        bs = self.bs
        g, _ = self.proc(sg, bs if t and t % bs == 0 else t % bs, True)
        return K.output(self.E, bs, g, n)


class SFold(fold.Fold):
    def rng(self):
        return range(2 * self.spec.bs, 2 * self.spec.bs + 12)

    def discover(self):
        fold.Fold.discover(self)
        # key and tweak of the cipher object are set before every use: nothing is known about them between calls
        for tpl in self.tpl:
            for t in tpl:
                if len(t) == 32:
                    t[8:] = [None] * 24

    def havoc(self, u, tag):
        sig = fold.Fold.havoc(self, u, tag)
        bs = self.spec.bs
        c = 2 * bs
        k = bs.bit_length() - 1
        if type(sig[c]) is not int:
            sig[c] = T.shl(T.lshr(sig[c], k, 8), k, 8)
        sig[c + 11] = 0
        if u > bs:
            sig[c + 12] = K.MSG
        return sig

    def pinned(self, u, sig):
        fold.Fold.pinned(self, u, sig)
        bs = self.spec.bs
        same([T.and_(sig[2 * bs], bs - 1, 8)], [0], 'the position is no multiple of the block')
        if u > bs:
            same([sig[2 * bs + 12]], [K.MSG], 'type of the block')

    def decided(self, name):
        i = name[name.find('[') + 1:-1]
        return name[0] in 'VW' and i.isdigit() and int(i) in self.rng()


PRE = {'hash': ('kripto_hash_create', 'kripto_hash_input', 'kripto_hash_output', 'kripto_hash_recreate', 'kripto_hash_all'),
       'mac': ('kripto_mac_create', 'kripto_mac_input', 'kripto_mac_tag', 'kripto_mac_recreate', 'kripto_mac_all')}


def sk_setup(kind, bs):
    rel = '%s/skein%d' % (kind, 8 * bs)
    s = S(['block', kind, rel], lazy=True)
    s.tf = TF(s.m, s.st, bs)
    s.desc = lib.desc(s.m, rel, 'kripto_%s_skein%d' % (kind, 8 * bs))
    return s


def sk_fold(kind, bs, n, rounds=0, klen=0):
    s = sk_setup(kind, bs)
    st0 = s.st.fork()
    E = E_of(rounds, bs)
    spec = Msg(bs, E, 8 * n)
    fn = PRE[kind]

    def make(g):
        q = S.__new__(S)
        q.m, q.st, q.n, q.desc = s.m, st0.fork(), 0, s.desc
        k = g('key', klen) if klen else []
        kp = q.inbuf('key', k) if klen else 0
        if kind == 'hash':
            o = q(fn[0], s.desc, rounds, kp, klen, n)
            return q, o, spec.init((), k)
        o = q(fn[0], s.desc, rounds, kp, klen, n)
        return q, o, spec.init(k, ())

    def feed(q, o, x):
        q(fn[1], o, q.inbuf('x', x), len(x))
        return []
    A = SFold('skein.%s.%d.%d' % (kind, bs, n), make, feed, spec, runs=3, cycles=2, concrete=True)
    A.fn, A.mach = fn, s.m
    s.m.solver = fold._Solver((), A.decided)
    return A


def sk_finals(A, q, o, sg, t, lens):
    st0 = q.st
    want = A.spec.final(sg, t, max(sum(x) for x in lens))
    for split in lens:
        q.st = st0.fork()
        got = []
        for n in split:
            p = q.out(n)
            q(A.fn[2], o, p, n)
            got += q.get(p, n)
        same(got, want[:len(got)], 'output at position %d, read as %s' % (t, '+'.join(map(str, split))))
    q.st = st0


def skein_task(kind, bs, n, rounds=0, klen=None):
    klen = (0 if kind == 'hash' else 9) if klen is None else klen
    G = Group('skein%d %s, %d bytes, %d rounds' % (8 * bs, kind, n, rounds), lambda: native_skein(kind, bs))
    A = None

    def splits(t):
        o = [(n,)]
        if t % bs in (0, bs - 1):
            o += [(k,) for k in range(1, n, 1 if n <= 64 or THOROUGH else 3)] + [(1,) * n] + [(k, n - k) for k in range(1, n, 1 if n <= 32 or THOROUGH else 7)]
            for k in (bs - 1, bs, bs + 1, 2 * bs, 2 * bs + 1):
                if k < n:
                    o += [(k,), (k, n - k)]
        return o

    def disc():
        nonlocal A
        A = sk_fold(kind, bs, n, rounds, klen)
        A.discover()
    G.prove('invariant, first runs', disc)
    G.prove('from create through the first block, with the output of every message shorter than a block', lambda: A.base(lambda q, o, sg, t: sk_finals(A, q, o, sg, t, splits(t))))

    def dig():
        for u in A.positions():
            q, o, sg = A.at(u)
            sk_finals(A, q, o, sg, u, splits(u))
        return A.functions
    G.prove('output from every state', dig)
    G.prove('input of every length from every state', lambda: fold.every_length(A, lambda q, h, ps, k: q(A.fn[1], h, ps[0], k), ('in',)) and None, optional=True)
    if G.soft:
        G.prove('one byte from every state', A.inductive)

    def bounded():
        for pieces in [(0,), (1,), (bs - 1,), (bs,), (bs + 1,), (2 * bs,), (1, bs - 1), (bs, 1), (bs - 1, 2), (1, 0, bs), (2, 2 * bs)]:
            a = sk_fold(kind, bs, n, rounds, klen)
            q, o, sg = a.make(lambda tag, k: [T.var('%s[%d]' % (tag, i), 8) for i in range(k)])
            t = 0
            for j, k in enumerate(pieces):
                x = q.data('d%d' % j, k)
                q(a.fn[1], o, q.inbuf('d', x), k)
                for c in x:
                    sg, _ = a.spec.step(sg, t, [c])
                    t += 1
            sk_finals(a, q, o, sg, t, [(n,)])
    return G.close(bounded, 'messages of up to 2 blocks in 11 splits, data symbolic')


def skein_setup_task(kind, bs):
    G = Group('skein%d %s, creation, recreation and the one-call form' % (8 * bs, kind), lambda: native_skein(kind, bs))
    fn = PRE[kind]

    def go():
        fns = set()
        ks = sorted({1, 2, bs - 1, bs, bs + 1, 2 * bs - 1, 2 * bs, 2 * bs + 1, 3 * bs, 5} | ({0} if kind == 'hash' else set()))
        if THOROUGH:
            ks = range(0 if kind == 'hash' else 1, 3 * bs + 2)
        outs = range(1, bs + 1) if kind == 'mac' else [x for x in range(1, 2 * bs + 4)]
        todo = [(k, n) for k in ks for n in (1, bs)] + [(5, n) for n in outs]
        for kl, n in todo:
            for re in (0, 1, 2, 3):
                if re and n not in (1, bs) and not THOROUGH:
                    continue
                A = sk_fold(kind, bs, n, 0, kl if re in (0, 3) else (3 if kind == 'mac' else 0))
                g = lambda tag, k: [T.var('%s[%d]' % (tag, i), 8) for i in range(k)]
                q, o, sg = A.make(g)
                key = g('key', kl)
                kp = q.inbuf('key', key) if kl else 0
                if re == 3:
                    x = q.data('m', 2)
                    p = q.out(n)
                    if q(fn[4], q.desc, 0, kp, kl, q.inbuf('m', x), 2, p, n) != 0:
                        raise Mismatch(fn[4] + ' fails')
                    for t in range(2):
                        sg, _ = A.spec.step(sg, t, [x[t]])
                    same(q.get(p, n), A.spec.final(sg, 2, n), fn[4])
                    continue
                if re:
                    w = q.data('w', 3)
                    q(fn[1], o, q.inbuf('w', w), 3)
                    if re == 2:
                        q(fn[2], o, q.out(1), 1)
                    o = q(fn[3], o, 0, kp, kl, n)
                    sg = A.spec.init((), key) if kind == 'hash' else A.spec.init(key, ())
                x = q.data('x', 2)
                q(fn[1], o, q.inbuf('x', x), 2)
                for t in range(2):
                    sg, _ = A.spec.step(sg, t, [x[t]])
                sk_finals(A, q, o, sg, 2, [(n,)])
                fns |= q.m.functions
        return fns
    G.prove('key or salt lengths, output lengths', go)
    if kind == 'hash':
        def one():
            from checks.p04 import one_call_contract
            return one_call_contract(lambda: sk_setup('hash', bs), 3, bs)
        G.prove('one-call form for every length', one, optional=True)
    return G.close(None, 'one-call form: messages of up to 2 bytes; native runs')


def native_skein(kind, bs, seed=0, n=60):
    from checks.p04 import pieces_of
    r = random.Random('%s%d/%d' % (kind, bs, seed))
    L = native.load()
    d = native.desc('kripto_%s_skein%d' % (kind, 8 * bs))
    s = None
    g = lambda nm: getattr(L, 'kripto_%s_%s' % (kind, nm))
    for i in range(n):
        k = r.choice((0, 1, bs - 1, bs, bs + 1, 2 * bs, r.randrange(300)))
        kl = r.choice((0 if kind == 'hash' else 1, 1, bs, bs + 1, 2 * bs, 2 * bs + 1, r.randrange(1, 3 * bs)))
        ol = r.choice((bs, 1, r.randrange(1, bs + 1))) if kind == 'mac' or i % 2 else r.randrange(1, 4 * bs)
        key, msg = r.randbytes(kl), r.randbytes(k)
        rounds = 0 if i % 4 else 8
        E = K.real(bs, rounds)
        want = bytes(K.skein(E, bs, 8 * ol, msg, ol, key if kind == 'mac' else (), key if kind == 'hash' else ()))
        s = g('recreate')(s, rounds, key, kl, ol) if s and i % 5 else g('create')(d, rounds, key, kl, ol)
        p = 0
        ps, os_ = pieces_of(r, k), pieces_of(r, ol)
        for x in ps:
            g('input')(s, msg[p:p + x], x)
            p += x
        got = b''
        for x in os_:
            o = ctypes.create_string_buffer(max(1, x))
            g('output' if kind == 'hash' else 'tag')(s, o, x)
            got += o.raw[:x]
        rec = {'primitive': 'skein%d %s' % (8 * bs, kind), 'rounds': rounds, 'key': key.hex(), 'message': msg.hex(), 'pieces': ps, 'read': os_, 'expected': want.hex()}
        if got != want:
            return dict(rec, got=got.hex())
        o = ctypes.create_string_buffer(ol)
        g('all')(d, rounds, key, kl, msg, k, o, ol)
        if o.raw != want:
            return dict(rec, got=o.raw.hex(), call='one call')
    return None


def native_task(what, fn, *args):
    import time
    from kv.run import Ob
    t = time.time()
    ok, v = native.isolated(fn, *args, timeout=200)
    if (ok and v is not None) or (not ok and native.crash(v)):
        return [Ob(what, 'violated', str(v), time.time() - t, replay={'input': v})]
    return [Ob(what, 'bounded' if ok else 'unknown', '' if ok else str(v)[-400:], time.time() - t, bound='random messages, splits, keys on the real library')]


def tasks():
    ts = []
    for name in ('keccak1600', 'keccak800'):
        for r in (KEC[name][2], 5):
            ts.append(('perm %s %d' % (name, r), perm_task, (name, r), 600))
    for name, ols in (('keccak1600', (32, 64, 28, 99, 1)), ('keccak800', (20, 32, 49, 1)), ('sha3', (28, 32, 48, 64))):
        if THOROUGH:
            ols = range(1, KEC[name][0] // 2) if name != 'sha3' else range(1, 65)
        for ol in ols:
            ts.append(('%s %d' % (name, ol), keccak_task, (name, ol), 600))
        ts.append(('%s setup' % name, keccak_setup, (name,), 600))
        ts.append(('%s native' % name, native_task, (name + ' against the definition', native_keccak, name), 250))
    for bs in (32, 64, 128):
        for n in (bs, 20, 2 * bs + 5):
            ts.append(('skein %d %d' % (bs, n), skein_task, ('hash', bs, n), 700))
        ts.append(('skein %d setup' % bs, skein_setup_task, ('hash', bs), 600))
        ts.append(('skein %d native' % bs, native_task, ('skein%d against the definition' % (8 * bs), native_skein, 'hash', bs), 250))
    return ts

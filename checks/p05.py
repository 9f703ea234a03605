"""P05: the stream ciphers ChaCha, Salsa20, RC4, Keccak and Skein."""
import ctypes
import random
from checks.p04_sponge import TF
from kv import fake, fold, lib, native, run, smt
from kv import terms as T
from kv.machine import Ptr, Unsupported, Violation
from kv.obl import Group
from kv.run import THOROUGH, Ob
from kv.scen import S, same, Mismatch
from kv.spec import skein as K
from kv.spec import streams as SP

ARX = {'chacha': [(16, 8, 20), (32, 12, 0), (32, 24, 0)], 'salsa20': [(16, 8, 12), (32, 24, 0)]}
OPS = ('encrypt', 'decrypt', 'prng')


def fresh(s, st0):
    q = S.__new__(S)
    q.m, q.st, q.n = s.m, st0.fork(), 0
    return q


def feeder(op):
    def feed(q, o, x):
        p = q.out(len(x))
        if op == 'prng':
            q('kripto_stream_prng', o, p, len(x))
        else:
            q('kripto_stream_' + op, o, q.inbuf('x', x), p, len(x))
        return q.get(p, len(x))
    return feed


def calls(op):
    if op == 'prng':
        return [(('out',), lambda q, h, ps, n: q('kripto_stream_prng', h, ps[0], n))]
    return [(('in', 'out'), lambda q, h, ps, n: q('kripto_stream_' + op, h, ps[0], ps[1], n)),
            (('io',), lambda q, h, ps, n: q('kripto_stream_' + op, h, ps[0], ps[0], n))]


def create(q, d, rounds, key, iv):
    o = q('kripto_stream_create', d, rounds, q.inbuf('key', key), len(key), q.inbuf('iv', iv) if iv else 0, len(iv))
    if type(o) is not Ptr:
        raise Mismatch('not created')
    return o


def recreate(q, o, rounds, key, iv):
    o = q('kripto_stream_recreate', o, rounds, q.inbuf('key', key), len(key), q.inbuf('iv', iv) if iv else 0, len(iv))
    if type(o) is not Ptr:
        raise Mismatch('not recreated')
    return o


def prove_fold(G, mk, prng_zero=True, base=True, ops=OPS):
    for op in ops:
        F = [None]

        def disc():
            F[0] = mk(op)
            if op == 'prng':
                step = F[0].spec.step
                F[0].spec.step = lambda sg, t, x: step(sg, t, [0] * len(x))
            F[0].discover()
        G.prove('%s: invariant, first runs' % op, disc)
        if base:
            G.prove('%s: from create through the first block' % op, lambda: F[0].base() or F[0].functions)
        G.soft = []
        for bufs, call in calls(op):
            G.prove('%s: calls of every length from every state%s' % (op, ', in place' if bufs == ('io',) else ''), lambda: fold.every_length(F[0], call, bufs) and None, optional=True)
        if G.soft:
            soft = G.soft
            G.prove('%s: one byte from every state' % op, lambda: F[0].inductive() or F[0].functions)
            G.soft = soft
            return


# ---------------------------------------------------------------- ChaCha, Salsa20
class Arx:
    P = 64
    unit = 1

    def __init__(self, kind, rounds, ctr):
        self.kind, self.rounds, self.ctr = kind, rounds or 20, ctr
        self.words = [(0, 64), (64, 64)]

    def step(self, sg, t, x):
        sg = list(sg)
        if t % 64 == 0:
            sg[64:] = SP.core(self.kind, sg[:64], self.rounds)
            c = SP.counter(self.kind)
            v = T.add(T.concat([(b, 8) for b in sg[c:c + self.ctr]]), 1, 8 * self.ctr)
            sg[c:c + self.ctr] = [T.extract(v, 8 * i, 8) for i in range(self.ctr)]
        return sg, [T.xor(x[0], sg[64 + t % 64], 8)]


class CtrFold(fold.Fold):
    """the counter does not overflow: its top byte is zero"""
    ctr = None            # (offset, bytes) in sigma

    def havoc(self, u, tag):
        sig = fold.Fold.havoc(self, u, tag)
        sig[self.ctr[0] + self.ctr[1] - 1] = 0
        return sig

    def decided(self, name):
        i = name[name.find('[') + 1:-1]
        return name[0] in 'VW' and i.isdigit() and self.ctr[0] <= int(i) < self.ctr[0] + self.ctr[1]


def arx_setup(kind):
    rel = 'stream/' + kind
    s = S(['stream', rel], lazy=True)
    return s, lib.desc(s.m, rel, 'kripto_stream_' + kind)


def arx_fold(kind, kl, ivl, rounds):
    def mk(op):
        s, d = arx_setup(kind)
        st0 = s.st.fork()
        n = SP.start(kind, [1] * kl, [1] * ivl, 2)[1]
        spec = Arx(kind, rounds, n)

        def make(g):
            q = fresh(s, st0)
            key, iv = g('key', kl), g('iv', ivl)
            return q, create(q, d, rounds, key, iv), SP.start(kind, key, iv, rounds)[0] + [0] * 64
        F = CtrFold('%s.%s.%d' % (kind, op, ivl), make, feeder(op), spec, runs=3, cycles=2, concrete=True)
        F.ctr = (SP.counter(kind), n)
        s.m.solver = fold._Solver((), F.decided)
        return F
    return mk


def arx_task(kind, kl, ivl, rounds, op):
    G = Group('%s %s, key of %d, nonce of %d bytes, %s rounds' % (kind, op, kl, ivl, rounds or 'default'), lambda: native_arx(kind))
    prove_fold(G, arx_fold(kind, kl, ivl, rounds), ops=(op,))
    return G.close(lambda: arx_bounded(kind), 'creation and 65 bytes for all key and nonce lengths, data symbolic')


def arx_bounded(kind):
    for kl, ivl, rounds in [(16, 8, 0), (32, 24, 8), (5, 3, 3)]:
        one_setup(lambda: arx_setup(kind), lambda q, d, k, v: SP.start(kind, k, v, rounds)[0] + [0] * 64, lambda q: Arx(kind, rounds, SP.start(kind, [1] * kl, [1] * ivl, 2)[1]), kl, ivl, rounds, 130, 0)


def one_setup(setup, start, spec, kl, ivl, rounds, n, re):
    s, d = setup()
    q = s
    if re:
        o = create(q, d, rounds + 1, q.data('k0', 7), [])
        if re == 2:
            feeder('encrypt')(q, o, q.data('x0', 3))
    key, iv = q.data('key', kl), q.data('iv', ivl)
    o = recreate(q, o, rounds, key, iv) if re else create(q, d, rounds, key, iv)
    sp = spec(q)
    sg = start(q, d, key, iv)
    x = q.data('x', n)
    want = []
    for t, c in enumerate(x):
        sg, y = sp.step(sg, t, [c])
        want += y
    same(feeder('encrypt')(q, o, x), want, 'key of %d, nonce of %d bytes, %d rounds' % (kl, ivl, rounds))
    return q.m.functions


def arx_setup_task(kind):
    G = Group('%s, creation and recreation' % kind, lambda: native_arx(kind))

    def go(cases):
        fns = set()
        for kl, ivl, rounds, re in cases:
            ctr = SP.start(kind, [1] * kl, [1] * ivl, 2)[1]
            fns |= one_setup(lambda: arx_setup(kind), lambda q, d, k, v: SP.start(kind, k, v, rounds)[0] + [0] * 64, lambda q: Arx(kind, rounds, ctr), kl, ivl, rounds, 64, re)
        return fns
    ivs = range(25) if THOROUGH else (0, 1, 4, 7, 8, 9, 11, 12, 13, 15, 16, 17, 20, 23, 24)
    G.prove('keys of 1 to 32 bytes', lambda: go([(kl, 8, 8, 0) for kl in range(1, 33)]))
    G.prove('nonces', lambda: go([(32, n, 8, 0) for n in ivs] + [(16, n, 8, 0) for n in (0, 8, 24)]))
    G.prove('rounds', lambda: go([(32, n, r, 0) for r in (0, 1, 2, 3, 7, 12, 20, 21) for n in (8, 24)]))
    G.prove('recreation', lambda: go([(kl, n, 8, re) for kl, n in ((32, 8), (5, 24), (16, 12), (1, 0)) for re in (1, 2)]))
    return G.close(None, 'native runs')


# ---------------------------------------------------------------- RC4
class Rc4:
    P = 256
    unit = 1
    words = [(0, 256), (256, 1)]

    def step(self, sg, t, x):
        p, j, b = SP.rc4_step(sg[:256], sg[256], (t + 1) & 255)
        return p + [j], [T.xor(x[0], b, 8)]


def rc4_fold(op):
    s = S(['stream', 'stream/rc4'], lazy=True)
    d = lib.desc(s.m, 'stream/rc4', 'kripto_stream_rc4')
    st0 = s.st.fork()

    def make(g):
        q = fresh(s, st0)
        key = g('key', 9)
        return q, create(q, d, 0, key, []), SP.rc4_key(key) + [0]
    return fold.Fold('rc4.' + op, make, feeder(op), Rc4(), runs=3, cycles=1, concrete=True)


def rc4_task(op, part, parts):
    G = Group('RC4 %s, indices %d of %d' % (op, part, parts), native_rc4)
    F = [None]

    def disc():
        F[0] = rc4_fold(op)
        if op == 'prng':
            step = F[0].spec.step
            F[0].spec.step = lambda sg, t, x: step(sg, t, [0] * len(x))
        F[0].discover()
        # the states of the first period are instances of the later ones
        for t in range(256):
            for snap, sig in F[0].samples[t]:
                fold.check(snap, F[0].tpl[256 + t], sig, 'state at byte %d' % t)
        F[0].pre = []
        F[0].positions = lambda: range(256 + part, 512, parts)
    G.prove('invariant, first runs', disc)
    for bufs, call in calls(op):
        G.prove('calls of every length from every table%s' % (', in place' if bufs == ('io',) else ''), lambda: fold.every_length(F[0], call, bufs) and None, optional=True)
    if G.soft:
        G.prove('one byte from every table', lambda: F[0].inductive() or F[0].functions)
    return G.close(None, 'native runs, keys of every length')


# ---------------------------------------------------------------- Keccak
class Sponge(fake.Hash):
    """output without end; what is read first and next are consecutive bytes of it"""

    def output(self, m, st, a):
        s, p, n = a
        if type(n) is not int:
            raise Unsupported('symbolic length in output')
        par, msg, pos = self.ghost(st, s)
        pos = pos or 0
        st.put_bytes(p, [self.byte(par, msg, pos + i) for i in range(n)])
        self.set(st, s, (par, msg, pos + n))

    def byte(self, par, msg, i):
        return fake.uf(self.tag + '.b', 1, [repr(par[0]), list(par[1]), par[2], list(msg), i])[0]


MAXKEY = {'keccak1600': 99, 'keccak800': 49}


def keccak_setup(name):
    s = S(['stream', 'hash', 'stream/keccak'], lazy=True)
    for n in MAXKEY:
        h = Sponge(s.m, s.st, bs=64, maxout=0, maxsalt=0, tag='sp' + n)
        p = s.st.new(8, 'global', 'kripto_hash_' + n, None, False)
        s.st.store_ptr(p, h.desc)
        s.st.getw(p.obj).ro = True
        s.m.gptr[(None, 'kripto_hash_' + n)] = p
        if n == name:
            s.h = h
    return s, lib.desc(s.m, 'stream/keccak', 'kripto_stream_' + name)


def keccak_task(name):
    G = Group('%s stream over any sponge' % name, lambda: native_keccak(name))

    def go(cases):
        fns = set()
        for kl, ivl, rounds, re, pieces, ops, inplace in cases:
            s, d = keccak_setup(name)
            key, iv = s.data('key', kl), s.data('iv', ivl)
            if re:
                o = create(s, d, rounds + 1, s.data('k0', 3), s.data('v0', 2))
                if re == 2:
                    feeder('prng')(s, o, [0] * 5)
                o = recreate(s, o, rounds, key, iv)
            else:
                o = create(s, d, rounds, key, iv)
            par, pos = (rounds, (), kl), 0
            for j, (n, op) in enumerate(zip(pieces, ops)):
                x = s.data('x%d' % j, n)
                ks = [s.h.byte(par, tuple(key) + tuple(iv), pos + i) for i in range(n)]
                pos += n
                want = ks if op == 'prng' else [T.xor(a, b, 8) for a, b in zip(x, ks)]
                if inplace and op != 'prng':
                    p = s.buf('io', n, list(x), False)
                    s('kripto_stream_' + op, o, p, p, n)
                    got = s.get(p, n)
                else:
                    got = feeder(op)(s, o, x)
                same(got, want, 'key of %d, nonce of %d bytes, pieces %s' % (kl, ivl, pieces))
            fns |= s.m.functions
        return fns
    mx = MAXKEY[name]
    G.prove('creation, keys of 1 to %d bytes' % mx, lambda: go([(k, 5, 0, 0, (3,), ('prng',), False) for k in range(1, mx + 1)]))
    G.prove('creation, nonces, rounds, recreation', lambda: go([(7, n, 0, 0, (3,), ('prng',), False) for n in (0, 1, 2, 16, 99, 200, 500)] + [(9, 4, r, re, (3, 4), ('prng', 'encrypt'), False) for r in (0, 1, 7, 24) for re in (0, 1, 2)]))
    for op in OPS:
        G.prove('%s, calls of up to 200 bytes from any state' % op, lambda: go([(4, 2, 0, 0, (3, n, 2), ('prng', op, 'prng'), False) for n in list(range(201)) + [256, 257, 1000]]))
    G.prove('in place', lambda: go([(4, 2, 0, 0, (3, n, 2), ('encrypt', op, 'prng'), True) for op in ('encrypt', 'decrypt') for n in (0, 1, 63, 64, 65, 127, 128, 129, 300)]))
    G.prove('pieces', lambda: go([(4, 2, 0, 0, p, ('encrypt', 'decrypt', 'prng', 'encrypt'), False) for p in ((1, 1, 1, 1), (63, 2, 64, 65), (64, 64, 64, 64), (0, 70, 0, 130), (65, 1, 62, 3))]))
    return G.close(None, 'native runs')


# ---------------------------------------------------------------- Skein
BITS = (1 << 64) - 1


class Sk:
    """key of the output transform (8), counter (8), block"""
    unit = 1

    def __init__(self, bs):
        self.bs = self.P = bs
        self.words = [(0, 8), (8, 8), (16, bs)]

    def step(self, sg, t, x):
        bs = self.bs
        sg = list(sg)
        if t % bs == 0:
            c = sg[8:16] + [0] * (bs - 8)
            e = fake.uf('tf.E', bs, [sg[:8], K.tweak(8, K.OUT, True, True), c])
            sg[16:] = [T.xor(a, b, 8) for a, b in zip(e, c)]
            v = T.add(T.concat([(b, 8) for b in sg[8:16]]), 1, 64)
            sg[8:16] = [T.extract(v, 8 * i, 8) for i in range(8)]
        return sg, [T.xor(x[0], sg[16 + t % bs], 8)]


def sk_E(bs, rounds):
    def E(key, tw, x):
        return fake.uf('tf.E', bs, [fake.uf('tf.key', 8, [rounds, list(key)]), list(tw), list(x)])
    return E


def sk_start(bs, rounds, key, iv):
    g = K.start(sk_E(bs, rounds), bs, BITS, key, iv)
    return fake.uf('tf.key', 8, [rounds, g]) + [0] * 8 + [0] * bs


def sk_setup(bs):
    rel = 'stream/skein%d' % (8 * bs)
    s = S(['block', 'stream', rel], lazy=True)
    s.tf = TF(s.m, s.st, bs)
    return s, lib.desc(s.m, rel, 'kripto_stream_skein%d' % (8 * bs))


def skein_fold(bs):
    def mk(op):
        s, d = sk_setup(bs)
        st0 = s.st.fork()

        def make(g):
            q = fresh(s, st0)
            key, iv = g('key', 9), g('iv', 5)
            return q, create(q, d, 0, key, iv), sk_start(bs, 0, key, iv)
        F = CtrFold('skein%d.%s' % (bs, op), make, feeder(op), Sk(bs), runs=3, cycles=2, concrete=True)
        F.ctr = (8, 8)
        s.m.solver = fold._Solver((), F.decided)
        return F
    return mk


def skein_task(bs, op):
    G = Group('skein%d stream %s over any Threefish' % (8 * bs, op), lambda: native_skein(bs))
    prove_fold(G, skein_fold(bs), ops=(op,))
    return G.close(lambda: skein_setup_go(bs, [(5, 3, 0, 0, 2 * bs + 1)]), 'two blocks, data symbolic')


def skein_setup_go(bs, cases):
    fns = set()
    for kl, ivl, rounds, re, n in cases:
        fns |= one_setup(lambda: sk_setup(bs), lambda q, d, k, v: sk_start(bs, rounds, k, v), lambda q: Sk(bs), kl, ivl, rounds, n, re)
    return fns


def skein_setup_task(bs):
    G = Group('skein%d stream, creation and recreation' % (8 * bs), lambda: native_skein(bs))
    ls = sorted({1, 2, bs - 1, bs, bs + 1, 2 * bs - 1, 2 * bs, 2 * bs + 1, 3 * bs})
    G.prove('keys', lambda: skein_setup_go(bs, [(k, 4, 0, 0, bs) for k in ls]))
    G.prove('nonces', lambda: skein_setup_go(bs, [(9, v, 0, 0, bs) for v in [0] + ls]))
    G.prove('recreation, rounds', lambda: skein_setup_go(bs, [(k, v, r, re, bs) for k, v in ((3, 0), (bs + 1, 7)) for r in (0, 8) for re in (0, 1, 2)]))
    return G.close(None, 'native runs')


# ---------------------------------------------------------------- native
def rnd(r, n):
    return bytes(r.randrange(256) for _ in range(n))


def nlib():
    L = native.load()
    vp, u, z = ctypes.c_void_p, ctypes.c_uint, ctypes.c_size_t
    L.kripto_stream_create.restype = vp
    L.kripto_stream_create.argtypes = [vp, u, vp, u, vp, u]
    L.kripto_stream_recreate.restype = vp
    L.kripto_stream_recreate.argtypes = [vp, u, vp, u, vp, u]
    L.kripto_stream_encrypt.argtypes = [vp, vp, vp, z]
    L.kripto_stream_decrypt.argtypes = [vp, vp, vp, z]
    L.kripto_stream_prng.argtypes = [vp, vp, z]
    L.kripto_stream_destroy.argtypes = [vp]
    return L


def drive(name, r, params, ks, n=60, sizes=(0, 1, 3, 63, 64, 65, 128, 200)):
    """params(r, i) -> (rounds, key, iv, total); ks(rounds, key, iv, n) -> bytes"""
    L = nlib()
    d = native.desc('kripto_stream_' + name)
    s = None
    for i in range(n):
        rounds, key, iv, total = params(r, i)
        if s and i % 2:
            s = L.kripto_stream_recreate(s, rounds, key, len(key), iv or None, len(iv))
            how = 'recreate'
        else:
            if s:
                L.kripto_stream_destroy(s)
            s = L.kripto_stream_create(d, rounds, key, len(key), iv or None, len(iv))
            how = 'create'
        want = bytes(ks(rounds, key, iv, total))
        p = 0
        log = []
        while p < total:
            k = min(total - p, r.choice(sizes + (total,)))
            op = r.choice(OPS)
            x = rnd(r, k) if k < 4096 else bytes(k)
            log.append((op, k))
            o = ctypes.create_string_buffer(x, k + 8)
            if op == 'prng':
                x = bytes(k)
                L.kripto_stream_prng(s, o, k)
            elif r.randrange(2):
                getattr(L, 'kripto_stream_' + op)(s, o, o, k)
            else:
                getattr(L, 'kripto_stream_' + op)(s, x, o, k)
            g = o.raw[:k]
            if bytes(a ^ b for a, b in zip(g, x)) != want[p:p + k]:
                j = next(j for j in range(k) if g[j] ^ x[j] != want[p + j])
                return {'stream': name, 'made by': how, 'rounds': rounds, 'key': key.hex(), 'nonce': iv.hex(), 'calls': log[-20:], 'wrong byte at position': p + j}
            if o.raw[k:] != bytes(8):
                return {'stream': name, 'calls': log[-20:], 'bytes written beyond the output': True}
            p += k
    return None


def native_arx(kind, seed=0):
    r = random.Random('%s/%d' % (kind, seed))

    def params(r, i):
        return r.choice((0, 0, 8, 12, 20, 1, 7, 24)), rnd(r, r.choice((16, 32, 32, 1 + r.randrange(32)))), rnd(r, r.choice((8, 12, 24, r.randrange(25)))), 64 * 260 + 5 if i == 0 else r.randrange(700)

    def ks(rounds, key, iv, n):
        x, c = SP.start(kind, list(key), list(iv), rounds)
        o = SP.counter(kind)
        out = []
        j = 0
        while len(out) < n:
            x[o:o + c] = list(j.to_bytes(c, 'little'))
            out += SP.core(kind, x, rounds or 20)
            j += 1
        return out[:n]
    return drive(kind, r, params, ks, 60)


def native_rc4(seed=0):
    r = random.Random('rc4/%d' % seed)

    def params(r, i):
        return r.choice((0, 0, 1, 256, 768, 3072)), rnd(r, 1 + i % 256), b'', r.randrange(900)
    return drive('rc4', r, params, lambda rounds, key, iv, n: SP.rc4_stream(list(key), rounds, n), 300)


def native_skein(bs, seed=0):
    r = random.Random('skein%d/%d' % (bs, seed))
    E = {}

    def params(r, i):
        return r.choice((0, 0, 8, 16)), rnd(r, r.choice((1, bs - 1, bs, bs + 1, 2 * bs, r.randrange(1, 3 * bs)))), rnd(r, r.choice((0, 1, bs, bs + 1, r.randrange(3 * bs)))), bs * 260 + 3 if i == 0 else r.randrange(5 * bs)

    def ks(rounds, key, iv, n):
        e = E.setdefault(rounds, K.real(bs, rounds))
        return K.output(e, bs, K.start(e, bs, BITS, list(key), list(iv)), n)
    return drive('skein%d' % (8 * bs), r, params, ks, 25)


def native_keccak(name, seed=0):
    """against this library's hash, whose definition is P04"""
    r = random.Random('%s/%d' % (name, seed))
    L = native.load()
    hd = native.desc('kripto_hash_' + name)

    def params(r, i):
        return r.choice((0, 0, 12)), rnd(r, r.randrange(1, MAXKEY[name] + 1)), rnd(r, r.choice((0, 1, 16, r.randrange(300)))), 5000 if i == 0 else r.randrange(600)

    def ks(rounds, key, iv, n):
        h = L.kripto_hash_create(hd, rounds, None, 0, len(key))
        m = key + iv
        L.kripto_hash_input(h, m, len(m))
        o = ctypes.create_string_buffer(n + 1)
        L.kripto_hash_output(h, o, n)
        L.kripto_hash_destroy(h)
        return o.raw[:n]
    return drive(name, r, params, ks, 80)


def native_task(what, fn, *args):
    ok, v = native.isolated(fn, *args, timeout=240)
    if ok and v is None:
        return [Ob(what + ' against the definition, native', 'bounded', bound='random keys, nonces and call sequences')]
    if ok or native.crash(v):
        return [Ob(what + ' against the definition, native', 'violated', str(v), replay={'input': v})]
    return [Ob(what + ' against the definition, native', 'unknown', str(v))]


RC4_PARTS = 2


def tasks():
    ts = []
    for op in OPS:
        for k in range(RC4_PARTS):
            ts.append(('rc4 %s %d' % (op, k), rc4_task, (op, k, RC4_PARTS), 170))
    for bs in (128, 64, 32):
        ts += [('skein%d %s' % (8 * bs, op), skein_task, (bs, op), 500) for op in OPS]
        ts.append(('skein%d setup' % (8 * bs), skein_setup_task, (bs,), 400))
    for kind in ARX:
        ts.append((kind + ' setup', arx_setup_task, (kind,), 400))
        for kl, ivl, rounds in ARX[kind]:
            ts += [('%s %d %s' % (kind, ivl, op), arx_task, (kind, kl, ivl, rounds, op), 500) for op in OPS]
    for name in MAXKEY:
        ts.append((name, keccak_task, (name,), 400))
    for sd in range(1, 2 + 2 * THOROUGH):
        sd += run.SEED
        for kind in ARX:
            ts.append((kind + ' native', native_task, (kind, native_arx, kind, sd), 250))
        ts.append(('rc4 native', native_task, ('RC4', native_rc4, sd), 250))
        for bs in (32, 64, 128):
            ts.append(('skein%d native' % (8 * bs), native_task, ('skein%d stream' % (8 * bs), native_skein, bs, sd), 250))
        for name in MAXKEY:
            ts.append((name + ' native', native_task, (name + ' stream', native_keccak, name, sd), 250))
    return ts


ASSUME = ['the modes CTR, CFB, OFB, CBC, ECB are P06; here are the dedicated stream ciphers',
          'the position counter does not overflow: fewer than 2^56 blocks with a 64-bit counter, 2^24 blocks of arbitrary history per induction step with the 32-bit counter of the 12-byte ChaCha nonce (the code then runs into the nonce)',
          'Threefish and the Keccak sponge are contracts here (kv/fake.py, checks/p04_sponge.py); P01, P02 and P04 show that the real ones meet them',
          'RC4: the generator is proved from every table; the key schedule is compared natively for every key length (bounded)',
          'Keccak streams: proved for calls of up to 200 bytes from any state, data, key and nonce symbolic',
          'conventions pinned to the code: shorter ChaCha/Salsa20 keys repeat cyclically with their length in the constant, nonces are padded with zeros, Skein streams use an output length of 2^64-1 and no message block']


def main():
    native.path()
    run.finish('P05', run.run_tasks(tasks(), deadline=800), assumptions=ASSUME)


if __name__ == '__main__':
    main()

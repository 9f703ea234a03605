"""P08: EAX over any block cipher (through CTR and OMAC) and EAX2 over any stream cipher and MAC."""
import ctypes
import random
from kv import fake, native, run
from kv import terms as T
from kv.cipher import heap_objs
from kv.obl import Group
from kv.machine import Ptr
from kv.run import THOROUGH
from kv.scen import S, same, Mismatch
from kv.spec import macs
from kv.spec.modes import MODES, X
from checks.p07 import block_fns, cuts

REAL = {8: 'kripto_block_des', 16: 'kripto_block_rijndael128', 32: 'kripto_block_threefish256', 64: 'kripto_block_threefish512', 128: 'kripto_block_threefish1024'}


# ---------------------------------------------------------------- native
def lib_ae(L, d, r, key, iv, tl, head, data, enc, s=None):
    """one message through the API in random pieces; returns (object, output, tag, other)"""
    if s is None:
        s = L.kripto_ae_create(d, 0, key, len(key), iv or None, len(iv), tl)
    else:
        s = L.kripto_ae_recreate(s, 0, key, len(key), iv or None, len(iv), tl)
    out = b''
    h = [('h', c) for c in cuts(r, len(head))]
    e = [('e', c) for c in cuts(r, len(data))]
    ops = h + e
    if r.random() < .7:
        r.shuffle(ops)
    ph = pe = 0
    for k, c in ops:
        if k == 'h':
            L.kripto_ae_header(s, head[ph:ph + c], c)
            ph += c
        else:
            b = ctypes.create_string_buffer(data[pe:pe + c] + b'x', c + 1)
            src = b if r.random() < .5 else data[pe:pe + c]
            (L.kripto_ae_encrypt if enc else L.kripto_ae_decrypt)(s, src, b, c)
            out += b.raw[:c]
            pe += c
    t = ctypes.create_string_buffer(tl)
    L.kripto_ae_tag(s, t, tl)
    return s, out, t.raw, ops


def omac_bytes(E, bs, msg):
    sp = macs.Omac(bs, lambda kid, x: E(x))
    sg = sp.init([0] * 8)
    for t, x in enumerate(msg):
        sg, _ = sp.step(sg, t, [x])
    return bytes(sp.final(sg, len(msg)))


def xb(*v):
    return bytes(__import__('functools').reduce(lambda a, b: [x ^ y for x, y in zip(a, b)], v))


def native_eax(bs, n=80):
    L = native.load()
    r = random.Random(bs)
    blk = native.desc(REAL[bs])
    L.kripto_ae_eax.restype = ctypes.c_void_p
    L.kripto_ae_eax.argtypes = [ctypes.c_void_p]
    d = L.kripto_ae_eax(blk)
    s = None
    rb = lambda k: bytes(r.randrange(256) for _ in range(k))
    for i in range(n):
        key, iv, head, pt = rb(8), rb(r.choice((0, 1, bs - 1, bs, r.randrange(bs + 1)))), rb(r.choice((0, 1, bs, r.randrange(3 * bs)))), rb(r.choice((0, 1, bs, bs + 1, r.randrange(3 * bs))))
        tl = r.choice((bs, bs, bs // 2, 1))
        E = block_fns(L, blk, key)
        N = omac_bytes(E, bs, bytes(bs) + iv)
        ct = bytes(MODES['ctr'](E, None, list(N), list(pt), bs, True))
        tag = xb(omac_bytes(E, bs, bytes(bs - 1) + b'\2' + ct), omac_bytes(E, bs, bytes(bs - 1) + b'\1' + head), N)[:tl]
        for enc, x, y in ((True, pt, ct), (False, ct, pt)):
            s, out, t, ops = lib_ae(L, d, r, key, iv, tl, head, x, enc, s if i % 3 else None)
            if out != y or t != tag:
                return {'ae': 'eax', 'cipher': REAL[bs], 'encrypt': enc, 'key': key.hex(), 'iv': iv.hex(), 'header': head.hex(), 'data': x.hex(), 'calls': ops,
                        'got': [out.hex(), t.hex()], 'expected': [y.hex(), tag.hex()]}
    return None


def native_eax2(n=60):
    L = native.load()
    r = random.Random(2)
    for f in ('kripto_mac_hmac', 'kripto_mac_omac'):
        getattr(L, f).restype = ctypes.c_void_p
        getattr(L, f).argtypes = [ctypes.c_void_p]
    L.kripto_ae_eax2.restype = ctypes.c_void_p
    L.kripto_ae_eax2.argtypes = [ctypes.c_void_p, ctypes.c_void_p]
    rb = lambda k: bytes(r.randrange(256) for _ in range(k))
    for st, mac in (('kripto_stream_chacha', L.kripto_mac_hmac(native.desc('kripto_hash_sha2_256'))), ('kripto_stream_salsa20', L.kripto_mac_omac(native.desc('kripto_block_rijndael128')))):
        sd = native.desc(st)
        d = L.kripto_ae_eax2(sd, mac)
        mt, mk, sk, si = L.kripto_mac_maxtag(mac), L.kripto_mac_maxkey(mac), L.kripto_stream_maxkey(sd), L.kripto_stream_maxiv(sd)
        s = None
        for i in range(n):
            kl = r.choice((2, 3, 16, 32, 33, 64))
            key, iv, head, pt = rb(min(kl, 64)), rb(r.randrange(si + 1)), rb(r.randrange(40)), rb(r.randrange(150))
            tl = r.choice((mt, mt, 16, 1, r.randrange(1, mt + 1)))
            n2 = min((len(key) + 1) // 2, sk)
            k1, k2 = key[:len(key) - n2], key[len(key) - n2:]
            if len(k1) > mk:
                continue

            def M(x):
                o = ctypes.create_string_buffer(tl)
                L.kripto_mac_all(mac, 0, k1, len(k1), x, len(x), o, tl)
                return o.raw
            N = M(bytes(tl) + iv)
            nl = min(tl, si)
            q = L.kripto_stream_create(sd, 0, k2, len(k2), N, nl)
            b = ctypes.create_string_buffer(len(pt) + 1)
            L.kripto_stream_encrypt(q, pt, b, len(pt))
            ct = b.raw[:len(pt)]
            tag = xb(M(bytes(tl - 1) + b'\2' + ct), M(bytes(tl - 1) + b'\1' + head), N)
            for enc, x, y in ((True, pt, ct), (False, ct, pt)):
                s, out, t, ops = lib_ae(L, d, r, key, iv, tl, head, x, enc, s if i % 3 else None)
                if out != y or t != tag:
                    return {'ae': 'eax2', 'stream': st, 'encrypt': enc, 'key': key.hex(), 'iv': iv.hex(), 'header': head.hex(), 'data': x.hex(), 'calls': ops, 'tag_len': tl,
                            'got': [out.hex(), t.hex()], 'expected': [y.hex(), tag.hex()]}
    return None


# ---------------------------------------------------------------- definition
class Def:
    """M(key, message) with tags of n bytes, stream cipher (key, nonce)"""

    def __init__(self, mac, stream, mkid, skid, n, noncelen, iv):
        self.M = lambda msg: mac.M((tuple(mkid), n), msg)
        self.n = n
        self.N = self.M([0] * n + list(iv))
        self.par = (tuple(skid), tuple(self.N[:noncelen]))
        self.stream = stream
        self.ct = []
        self.head = []

    def data(self, x, enc, opaque):
        if opaque:
            y = self.stream.whole(self.par, tuple(self.ct), x, enc)
            self.ct += y if enc else x
            return y
        out = []
        for b in x:
            y = T.xor(b, self.stream.ks(self.par, tuple(self.ct)), 8)
            out.append(y)
            self.ct.append(y if enc else b)
        return out

    def tag(self):
        z = [0] * (self.n - 1)
        return X(X(self.M(z + [2] + self.ct), self.M(z + [1] + self.head)), self.N)


def eax(bs, kl, ivl, tl, maxkey=64):
    s = S(['ae', 'ae/eax', 'block', 'mac', 'stream'], lazy=True)
    b = fake.Block(s.m, s.st, bs, maxkey)
    mac = fake.Mac(s.m, s.st, bs, maxkey, tag='omac')
    st = fake.Stream(s.m, s.st, maxkey, bs, tag='ctr')
    s.m.hooks['kripto_mac_omac'] = mac.maker(b.desc)
    s.m.hooks['kripto_stream_ctr'] = st.maker(b.desc)
    d = s('kripto_ae_eax', b.desc)
    key, iv = s.data('key', kl), s.data('iv', ivl)
    o = s('kripto_ae_create', d, 3, s.inbuf('key', key), kl, s.inbuf('iv', iv) if ivl else 0, ivl, tl)
    if type(o) is not Ptr:
        raise Mismatch('kripto_ae_create fails')
    return s, d, o, Def(mac, st, fake.uf('omac.key', 8, [3, key]), fake.uf('ctr.key', 8, [3, key]), bs, bs, iv)


def eax2(mt, mk, sk, si, mult, kl, ivl, tl):
    s = S(['ae', 'ae/eax2', 'mac', 'stream'], lazy=True)
    mac = fake.Mac(s.m, s.st, mt, mk)
    st = fake.Stream(s.m, s.st, sk, si, multof=mult)
    d = s('kripto_ae_eax2', st.desc, mac.desc)
    key, iv = s.data('key', kl), s.data('iv', ivl)
    o = s('kripto_ae_create', d, 3, s.inbuf('key', key), kl, s.inbuf('iv', iv) if ivl else 0, ivl, tl)
    if type(o) is not Ptr:
        raise Mismatch('kripto_ae_create fails')
    n2 = min((kl + 1) // 2, sk)
    return s, d, o, Def(mac, st, fake.uf('mac.key', 8, [3, key[:kl - n2]]), fake.uf('str.key', 8, [3, key[kl - n2:]]), tl, min(tl, si), iv)


def own(s, o):
    return list(s.st.get(o.obj).cells)


def run_ops(s, o, D, ops, opaque, mult=1):
    me = own(s, o)
    for i, op in enumerate(ops):
        inpl = op.endswith('!')
        k = op.rstrip('!')
        enc = k == 'encrypt'
        if opaque:
            p, n, x = fake.chunk(s.st, 'c%d' % i)
            q = p if inpl or k == 'header' else fake.chunk(s.st, 'c%d' % i)[0]
        else:
            n = 4 * mult
            x = s.data('c%d' % i, n)
            p = s.buf('c%d' % i, n, x, ro=not inpl)
            q = p if inpl else s.out(n)
        if k == 'header':
            s('kripto_ae_header', o, p, n)
            D.head += x
        else:
            if opaque and not inpl:
                s.st.getw(q.obj).cells = [0] * 8
            s('kripto_ae_' + k, o, p, q, n)
            want = D.data(x, enc, opaque)
            same(s.st.get(q.obj).cells, want, '%s, call %d' % (k, i))
            if not inpl:
                same(s.st.get(p.obj).cells, x, 'input of ' + k)
        if own(s, o) != me:
            raise Mismatch('%s changes the object itself' % k)


SEQS = [(), ('encrypt',), ('decrypt',), ('header',), ('header', 'encrypt'), ('encrypt!', 'header', 'encrypt'), ('decrypt!', 'decrypt'), ('header', 'header', 'decrypt', 'header', 'encrypt!')]


def case(mk, seqs, opaque, tags, mult=1):
    for ops in seqs:
        for tl in tags:
            s, d, o, D = mk()
            run_ops(s, o, D, ops, opaque, mult)
            p = s.out(tl)
            s('kripto_ae_tag', o, p, tl)
            same(s.get(p, tl), D.tag()[:tl], 'tag of %d bytes' % tl)
    return s.m.functions


def eax_task(bs, part):
    G = Group('eax, block of %d bytes, %s' % (bs, part), lambda: native_eax(bs if bs in REAL else 16))

    def go(opaque):
        def f():
            if part == 'calls':
                case(lambda: eax(bs, 5, bs, bs), SEQS, opaque, (bs,))
                return case(lambda: eax(bs, 5, 1, bs), SEQS[4:6], opaque, range(0, bs + 1))
            fn = ()
            for ivl in range(bs + 1) if part == 'nonces' else (0,):
                for kl in (1, 16) if part == 'nonces' else range(1, 65):
                    fn = case(lambda: eax(bs, kl, ivl, bs), SEQS[4:5], opaque, (bs,))
            return fn
        return f
    if not G.prove('ciphertext, plaintext and tag for data of every length', go(True), optional=True) and not G.fail:
        G.prove('ciphertext, plaintext and tag of short data', go(False))
    if part == 'calls':
        G.prove('descriptor', lambda: descr(lambda: eax(bs, 5, 0, bs, 40), (40, bs, bs), 1))
    return G.close(None, 'pieces of 4 bytes, native differential runs')


def descr(mk, want, mult):
    s, d, o, D = mk()
    for fn, w in zip(('kripto_ae_maxkey', 'kripto_ae_maxiv', 'kripto_ae_maxtag'), want):
        if s(fn, d) != w:
            raise Mismatch('%s is not %d' % (fn, w))
    if s('kripto_ae_multof', o) != mult or s('kripto_ae_getdesc', o) != d:
        raise Mismatch('kripto_ae_multof or getdesc')
    return s.m.functions


def eax2_task(mt, mk, sk, si, mult):
    G = Group('eax2, tags to %d, MAC keys to %d, stream keys to %d, nonces to %d bytes' % (mt, mk, sk, si), native_eax2)
    # the MAC takes the rest of the key
    kls = [k for k in range(2, sk + mk + 1) if k - min((k + 1) // 2, sk) <= mk]
    if not THOROUGH and len(kls) > 24:
        kls = kls[:4] + kls[4:-4:7] + kls[-4:]
    tls = list(range(1, mt + 1))
    if not THOROUGH and len(tls) > 24:
        tls = sorted({1, 2, si, si - 1 or 1, si + 1, mt, mt - 1, 16, 20} & set(tls))

    def go(opaque):
        def f():
            case(lambda: eax2(mt, mk, sk, si, mult, kls[-1], si, mt), SEQS, opaque, (mt,), mult)
            for kl in kls:
                case(lambda: eax2(mt, mk, sk, si, mult, kl, si // 2, mt), SEQS[4:5], opaque, (mt,), mult)
            for ivl in range(si + 1):
                case(lambda: eax2(mt, mk, sk, si, mult, kls[0], ivl, mt), SEQS[4:5], opaque, (mt,), mult)
            for tl in tls:
                fn = case(lambda: eax2(mt, mk, sk, si, mult, kls[1], si, tl), SEQS[4:5], opaque, {tl, 1, (tl + 1) // 2}, mult)
            return fn
        return f
    if not G.prove('ciphertext, plaintext and tag for data of every length', go(mult == 1), optional=True) and not G.fail:
        G.prove('ciphertext, plaintext and tag of short data', go(False))
    G.prove('descriptor', lambda: descr(lambda: eax2(mt, mk, sk, si, mult, kls[0], 0, mt), (min(sk + mk, 0xFFFFFFFF), si, mt), mult))
    return G.close(None, 'pieces of 4 bytes, native differential runs')


def inverse():
    """lemma over the definition: decrypting the ciphertext under the same nonce and header gives the data and the tag"""
    s = S(['memory'])
    mac, st = fake.Mac(s.m, s.st), fake.Stream(s.m, s.st)
    k = [T.var('k%d' % i, 8) for i in range(8)]
    for opaque in (True, False):
        A = Def(mac, st, k, k, 16, 16, k)
        B = Def(mac, st, k, k, 16, 16, k)
        for j in range(3):
            x = s.data('x%d' % j, 8)
            h = s.data('h%d' % j, 8)
            y = A.data(x, True, opaque)
            same(B.data(y, False, opaque), x, 'decrypted data')
            A.head += h
            B.head += h
        same(A.tag(), B.tag(), 'tag')


def lemma_task():
    G = Group('definition')
    G.prove('decryption inverts encryption with the same tag (lemma)', inverse)
    return G.close()


def tasks():
    ts = [('lemma', lemma_task, (), 100)]
    for bs in (128, 64, 32, 16, 8, 4):
        for part in ('nonces', 'calls', 'keys'):
            ts.append(('eax %d %s' % (bs, part), eax_task, (bs, part), 400))
    for c in ((64, 40, 32, 24, 1), (16, 16, 32, 24, 1), (32, 64, 16, 8, 1), (20, 80, 16, 40, 1), (8, 8, 8, 8, 1), (16, 32, 16, 16, 8)):
        ts.append(('eax2 %s' % (c,), eax2_task, c, 400))
    return ts


ASSUME = [
    'EAX: kripto_stream_ctr(block) and kripto_mac_omac(block) meet the contracts of a stream cipher and a MAC (P06, P07), their definitions are CTR and OMAC over the block cipher',
    'EAX2: any stream cipher and MAC; tag length at least 1, key length at least 2 and the part left for the MAC at most its maximum',
    'the tag is taken once, at the end',
]


def main():
    native.path()
    run.finish('P08', run.run_tasks(tasks(), deadline=800), assumptions=ASSUME)


if __name__ == '__main__':
    main()

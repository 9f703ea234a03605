"""P07: HMAC, OMAC and XCBC over any primitive; the Keccak and Skein MACs."""
import ctypes
import hashlib
import hmac as pyhmac
import random
import sys
from kv import fake, fold, native, run
from kv import terms as T
from kv.obl import Group
from kv.run import THOROUGH
from kv.scen import S, same, Mismatch
from kv.spec import macs

SIZES = (4, 8, 16, 32, 64, 128)
REAL = {4: 'kripto_block_simon32', 8: 'kripto_block_des', 16: 'kripto_block_rijndael128', 32: 'kripto_block_threefish256', 64: 'kripto_block_threefish512', 128: 'kripto_block_threefish1024'}
PYHASH = {'kripto_hash_md5': 'md5', 'kripto_hash_sha1': 'sha1', 'kripto_hash_sha2_256': 'sha256', 'kripto_hash_sha2_512': 'sha512'}


# ---------------------------------------------------------------- native
def block_fns(L, d, key, rounds=0):
    b = L.kripto_block_create(d, rounds, bytes(key), len(key))
    bs = L.kripto_block_size(d)

    def E(x):
        o = ctypes.create_string_buffer(bs)
        L.kripto_block_encrypt(b, bytes(x), o)
        return list(o.raw)
    return E


def cuts(r, n):
    out = []
    if r.randrange(3) == 0:
        return [n]
    while n > 0:
        k = r.choice((0, 1, 2, r.randrange(n + 1), n))
        k = min(k, n)
        out.append(k)
        n -= k
    return out or [0]


def native_block_mac(kind, bs, seed=0, n=150):
    r = random.Random('%s%d/%d' % (kind, bs, seed))
    L = native.load()
    blk = native.desc(REAL[bs])
    mk = getattr(L, 'kripto_mac_' + kind)
    mk.restype = ctypes.c_void_p
    mk.argtypes = [ctypes.c_void_p]
    d = mk(blk)
    s = None
    for i in range(n):
        key = bytes(r.randrange(256) for _ in range(8))
        msg = bytes(r.randrange(256) for _ in range(r.choice((0, 1, bs - 1, bs, bs + 1, 2 * bs, 3 * bs, r.randrange(4 * bs), bs * r.randrange(40), r.randrange(40 * bs)))))
        E = block_fns(L, blk, key)
        if kind == 'omac':
            sp = macs.Omac(bs, lambda kid, x: E(x))
            sg = sp.init([0] * 8)
        else:
            E2 = block_fns(L, blk, E([1] * bs))
            sp = macs.Xcbc(bs, lambda kid, x: (E if kid[0] == 0 else E2)(x), lambda k: [1] * 8)
            sg = sp.init([0] * 8)
        for t, x in enumerate(msg):
            sg, _ = sp.step(sg, t, [x])
        want = bytes(sp.final(sg, len(msg)))
        if i % 3 and s:
            s = L.kripto_mac_recreate(s, 0, key, len(key), bs)
        else:
            s = L.kripto_mac_create(d, 0, key, len(key), bs)
        p = 0
        pieces = cuts(r, len(msg))
        for c in pieces:
            L.kripto_mac_input(s, msg[p:p + c], c)
            p += c
        tl = r.choice((bs, bs, 1, bs // 2))
        o = ctypes.create_string_buffer(tl)
        L.kripto_mac_tag(s, o, tl)
        if o.raw != want[:tl]:
            return {'mac': kind, 'cipher': REAL[bs], 'key': key.hex(), 'message': msg.hex(), 'pieces': pieces, 'got': o.raw.hex(), 'expected': want[:tl].hex()}
        o2 = ctypes.create_string_buffer(bs)
        L.kripto_mac_all(d, 0, key, len(key), msg, len(msg), o2, bs)
        if o2.raw != want:
            return {'mac': kind + ' (kripto_mac_all)', 'cipher': REAL[bs], 'key': key.hex(), 'message': msg.hex(), 'got': o2.raw.hex(), 'expected': want.hex()}
    return None


def native_hmac(seed=0, n=400):
    r = random.Random(seed)
    L = native.load()
    L.kripto_mac_hmac.restype = ctypes.c_void_p
    L.kripto_mac_hmac.argtypes = [ctypes.c_void_p]
    for sym, py in PYHASH.items():
        d = L.kripto_mac_hmac(native.desc(sym))
        h = getattr(hashlib, py)
        bs, tl = h().block_size, h().digest_size
        s = None
        for i in range(n):
            kl = r.choice((1, 2, bs - 1, bs, bs + 1, 2 * bs, r.randrange(1, 3 * bs)))
            key = bytes(r.randrange(256) for _ in range(kl))
            msg = bytes(r.randrange(256) for _ in range(r.choice((0, 1, bs, r.randrange(3 * bs)))))
            want = pyhmac.new(key, msg, py).digest()
            if i % 3 and s:
                s = L.kripto_mac_recreate(s, 0, key, kl, tl)
            else:
                s = L.kripto_mac_create(d, 0, key, kl, tl)
            p = 0
            pieces = cuts(r, len(msg))
            for c in pieces:
                L.kripto_mac_input(s, msg[p:p + c], c)
                p += c
            o = ctypes.create_string_buffer(tl)
            L.kripto_mac_tag(s, o, tl)
            if o.raw != want:
                return {'mac': 'hmac', 'hash': sym, 'key': key.hex(), 'message': msg.hex(), 'pieces': pieces, 'got': o.raw.hex(), 'expected': want.hex()}
            o = ctypes.create_string_buffer(tl)
            L.kripto_mac_all(d, 0, key, kl, msg, len(msg), o, tl)
            if o.raw != want:
                return {'mac': 'hmac (kripto_mac_all)', 'hash': sym, 'key': key.hex(), 'message': msg.hex(), 'got': o.raw.hex(), 'expected': want.hex()}
    # key schedule of every other length, through hashes of other sizes: the definition over the library's own hash
    for sym in ('kripto_hash_sha2_256', 'kripto_hash_sha2_512', 'kripto_hash_whirlpool', 'kripto_hash_tiger', 'kripto_hash_blake2s', 'kripto_hash_sha1', 'kripto_hash_keccak1600', 'kripto_hash_keccak800', 'kripto_hash_skein256', 'kripto_hash_skein1024'):
        hd = native.desc(sym)
        d = L.kripto_mac_hmac(hd)
        bs, mo = L.kripto_hash_blocksize(hd), L.kripto_hash_maxout(hd)

        def H(par, m):
            o = ctypes.create_string_buffer(par[2])
            L.kripto_hash_all(hd, par[0], None, 0, bytes(m), len(m), o, par[2])
            return list(o.raw)
        for i in range(60):
            kl = r.choice((1, bs - 1, bs, bs + 1, r.randrange(1, 3 * bs)))
            mx = mo or {'kripto_hash_keccak1600': 99, 'kripto_hash_keccak800': 49}.get(sym, 300)
            tl = r.choice([x for x in (1, 5, 16, 20, 24, 28, 32, 33, 48, 49, 64, 65, 80, 99, 128, 129, 300) if x <= mx])
            key = bytes(r.randrange(256) for _ in range(kl))
            msg = bytes(r.randrange(256) for _ in range(r.randrange(2 * bs)))
            want = bytes(macs.hmac(H, bs, 0, list(key), list(msg), tl, tl))
            o = ctypes.create_string_buffer(tl)
            L.kripto_mac_all(d, 0, key, kl, msg, len(msg), o, tl)
            if o.raw != want:
                return {'mac': 'hmac', 'hash': sym, 'key': key.hex(), 'message': msg.hex(), 'got': o.raw.hex(), 'expected': want.hex()}
    return None


# ---------------------------------------------------------------- OMAC and XCBC
def blkfold(kind, bs, kl=5):
    s = S(['block', 'mac', 'mac/' + kind], lazy=True)
    b = fake.Block(s.m, s.st, bs, max(64, bs))
    d = s('kripto_mac_' + kind, b.desc)
    st0 = s.st.fork()
    if kind == 'omac':
        spec = macs.Omac(bs, b.E)
    else:
        spec = macs.Xcbc(bs, b.E, lambda k: fake.uf('blk.key', 8, [3, k]))

    def make(g, tl=None):
        q = S.__new__(S)
        q.m, q.st, q.n = s.m, st0.fork(), 0
        key = g('key', kl)
        o = q('kripto_mac_create', d, 3, q.inbuf('key', key), kl, bs if tl is None else tl)
        return q, o, spec.init(fake.uf('blk.key', 8, [3, key]))

    def feed(q, o, x):
        q('kripto_mac_input', o, q.inbuf('x', x), len(x))
        return []
    F = fold.Fold('%s.%d' % (kind, bs), make, feed, spec, runs=3, cycles=2, concrete=True)
    F.desc, F.block, F.st0, F.mach = d, b, st0, s.m
    return F


def finals(F, q, o, sg, t, lens):
    """the tag from this state, read in each of the given ways"""
    want = F.spec.final(sg, t)
    for split in lens:
        st = q.st.fork()
        got = []
        for n in split:
            p = q.out(n)
            q('kripto_mac_tag', o, p, n)
            got += q.get(p, n)
        same(got, want[:len(got)], 'tag at position %d, read as %s' % (t, '+'.join(map(str, split))))
        q.st = st


def splits(bs, t):
    out = [(bs,)]
    if t % bs in (0, 1, bs // 2, bs - 1):
        out += [(n,) for n in range(bs)] + [(1,) * bs, (0, bs), (bs - 1, 1)]
        if bs <= 16:
            out += [(a, b) for a in range(1, bs) for b in (1, bs - a)]
    return out


def blocktask(kind, bs):
    G = Group('%s, block of %d bytes' % (kind, bs), lambda: native_block_mac(kind, bs))
    F = None

    def disc():
        nonlocal F
        F = blkfold(kind, bs)
        F.discover()
    G.prove('descriptor', lambda: descriptor(kind, bs))
    G.prove('invariant: every byte of the state determined by the definition\'s state, first runs', disc)
    G.prove('from create through the first block, with the tag of every message shorter than a block', lambda: F.base(lambda q, o, sg, t: finals(F, q, o, sg, t, splits(bs, t))) or F.functions)

    def tags():
        for u in F.positions():
            q, o, sg = F.at(u)
            finals(F, q, o, sg, u, splits(bs, u))
    G.prove('tag of every message, from every state, for every length of tag', tags)
    G.prove('input of every length from every state', lambda: fold.every_length(F, lambda q, h, ps, n: q('kripto_mac_input', h, ps[0], n), ('in',)) and None, optional=True)
    if G.soft:
        G.prove('one byte from every state', F.inductive)
    G.prove('one-call form', lambda: one_call(kind, bs))

    def bounded():
        for pieces in [(0,), (1,), (bs - 1,), (bs,), (bs + 1,), (2 * bs,), (1, bs - 1), (bs, 1), (bs - 1, 2), (1, 0, bs), (2, 2 * bs)]:
            f = blkfold(kind, bs)
            q, o, sg = f.make(lambda tag, n: [T.var('%s[%d]' % (tag, i), 8) for i in range(n)])
            t = 0
            for j, n in enumerate(pieces):
                x = q.data('d%d' % j, n)
                q('kripto_mac_input', o, q.inbuf('d', x), n)
                for c in x:
                    sg, _ = f.spec.step(sg, t, [c])
                    t += 1
            finals(f, q, o, sg, t, [(bs,)])
    return G.close(bounded, 'messages of up to 2 blocks in 11 splits, data symbolic')


def descriptor(kind, bs):
    s = S(['block', 'mac', 'mac/' + kind], lazy=True)
    b = fake.Block(s.m, s.st, bs, 64)
    d = s('kripto_mac_' + kind, b.desc)
    for fn, want in (('kripto_mac_maxtag', bs), ('kripto_mac_maxkey', 64)):
        v = s(fn, d)
        if v != want:
            raise Mismatch('%s gives %r, not %r' % (fn, v, want))
    return s.m.functions


def one_call(kind, bs, n=None, kl=7, tl=None):
    f = blkfold(kind, bs, kl)
    g = lambda tag, k: [T.var('%s[%d]' % (tag, i), 8) for i in range(k)]
    for n in (0, 1, bs, bs + 1) if n is None else (n,):
        for tl_ in (bs, 1) if tl is None else (tl,):
            q, o, sg = f.make(g)
            key, x = q.data('key', kl), q.data('m', n)
            p = q.out(tl_)
            v = q('kripto_mac_all', f.desc, 3, q.inbuf('key', key), kl, q.inbuf('m', x) if n else 0, n, p, tl_)
            if v != 0:
                raise Mismatch('kripto_mac_all returned %r' % (v,))
            for t, c in enumerate(x):
                sg, _ = f.spec.step(sg, t, [c])
            same(q.get(p, tl_), f.spec.final(sg, n)[:tl_], 'kripto_mac_all, %d bytes' % n)
    return f.mach.functions


def sizes_task(lo, hi):
    """OMAC over block lengths the library's ciphers do not have: the reduction polynomial"""
    G = Group('omac, blocks of %d to %d bytes' % (lo, hi - 1), lambda: native_block_mac('omac', 16))

    def tags():
        for bs in range(lo, hi):
            f = blkfold('omac', bs)
            g = lambda tag, k: [T.var('%s[%d]' % (tag, i), 8) for i in range(k)]
            q, o, sg = f.make(g)
            finals(f, q, o, sg, 0, [(bs,)])
            x = q.data('x', bs)
            q('kripto_mac_input', o, q.inbuf('x', x), bs)
            for t in range(bs):
                sg, _ = f.spec.step(sg, t, [x[t]])
            finals(f, q, o, sg, bs, [(bs,)])
        return f.mach.functions
    G.prove('keys for complete and padded blocks', tags)
    return G.close()


# ---------------------------------------------------------------- HMAC
def hmac_setup(bs, maxout, tag='hash'):
    s = S(['hash', 'mac', 'mac/hmac'], lazy=True)
    h = fake.Hash(s.m, s.st, bs, maxout)
    d = s('kripto_mac_hmac', h.desc)
    return s, h, d


def hmac_task(bs, maxout, lens):
    """message pieces of any length: HMAC hands them to the hash unchanged (opaque pieces)"""
    G = Group('hmac, hash with %d-byte block and %d-byte output, keys of %s bytes' % (bs, maxout, '%d..%d' % (lens[0], lens[-1])), native_hmac)

    def go(opaque):
        def f():
            for kl in lens:
                for tl in sorted({1, maxout, maxout // 2, 20 if maxout >= 20 else 1}) if kl not in (1, bs, bs + 1) else range(1, maxout + 1):
                    for out in {tl, 1, tl - 1 or 1} if kl in (1, bs + 1) else (tl,):
                        s, h, d = hmac_setup(bs, maxout)
                        key = s.data('key', kl)
                        o = s('kripto_mac_create', d, 7, s.inbuf('key', key), kl, tl)
                        msg = []
                        for j in range(2 if tl == maxout else 1):
                            if opaque:
                                p, n, tok = fake.chunk(s.st, 'm%d' % j)
                                s('kripto_mac_input', o, p, n)
                                msg += tok
                            else:
                                x = s.data('m%d' % j, 3)
                                s('kripto_mac_input', o, s.inbuf('m', x), 3)
                                msg += x
                        p = s.out(out)
                        s('kripto_mac_tag', o, p, out)
                        same(s.get(p, out), macs.hmac(h.H, bs, 7, key, msg, tl, out), 'tag of %d bytes, key of %d bytes' % (out, kl))
            return s.m.functions
        return f
    if not G.prove('tags of messages in pieces of every length', go(True), optional=True) and not G.fail:
        G.prove('tags of short messages', go(False))

    def one():
        for kl in lens[:2] + lens[-2:]:
            for n in (0, 5):
                s, h, d = hmac_setup(bs, maxout)
                key, x = s.data('key', kl), s.data('m', n)
                p = s.out(maxout)
                if s('kripto_mac_all', d, 7, s.inbuf('key', key), kl, s.inbuf('m', x) if n else 0, n, p, maxout) != 0:
                    raise Mismatch('kripto_mac_all fails')
                same(s.get(p, maxout), macs.hmac(h.H, bs, 7, key, x, maxout, maxout), 'kripto_mac_all')
        for fn, want in (('kripto_mac_maxtag', maxout), ('kripto_mac_maxkey', 0xFFFFFFFF)):
            if s(fn, d) != want:
                raise Mismatch(fn)
        return s.m.functions
    G.prove('one-call form and descriptor', one)
    return G.close(None, 'native differential runs against the Python library and the definition over the library\'s hashes')


def tasks():
    ts = []
    for kind in ('omac', 'xcbc'):
        for bs in reversed(SIZES):
            ts.append(('%s %d' % (kind, bs), blocktask, (kind, bs), 500))
    for lo in range(1, 256, 12):
        ts.append(('omac sizes %d' % lo, sizes_task, (lo, min(256, lo + 12)), 400))
    for bs, mo in ((128, 64), (64, 32), (64, 20), (64, 16), (64, 24), (32, 32), (72, 64), (136, 32), (144, 28), (200, 99), (100, 49), (32, 150), (128, 200)):
        ls = list(range(1, bs + 3)) + [2 * bs, 3 * bs + 1]
        if mo in (99, 49, 150, 200) and not THOROUGH:
            ls = [1, 2, bs // 2, bs - 1, bs, bs + 1, 2 * bs + 3]
        elif not THOROUGH:
            ls = sorted({k for k in ls if k < 4 or k > bs - 3 or k % 8 == 5})
        k = 12
        for i in range(0, len(ls), k):
            ts.append(('hmac %d/%d' % (bs, mo), hmac_task, (bs, mo, ls[i:i + k]), 500))
    try:
        from checks import p07_sponge
        ts += p07_sponge.tasks()
    except ImportError:
        pass
    return ts


ASSUME = [
    'OMAC and XCBC: the block cipher is any function E fixed per (rounds, key); HMAC: the hash is any function of (rounds, salt, length, message) whose shorter outputs are prefixes',
    'XCBC: the key of the block cipher may be as long as its block',
    'HMAC takes the hash with output of tag_len bytes and hashes long keys to min(tag_len, block) bytes, as the code defines; with the tag length equal to the hash length this is RFC 2104',
    'a MAC of HMAC is read once; tags are not longer than requested',
]


def main():
    native.path()
    obs = run.run_tasks(tasks(), deadline=800)
    run.finish('P07', obs, assumptions=ASSUME)


if __name__ == '__main__':
    main()

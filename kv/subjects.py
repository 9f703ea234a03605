"""Every kind of object of the library, behind one interface: create, recreate, operations, destroy.
Primitives below a construction are the contracts of kv.fake; everything else is the real code."""
from . import fake, lib
from . import terms as T
from .catalog import CIPHERS
from .machine import Ptr
from .scen import S

HASHES = {  # name: (module, maxout (limit used here), block size, salts)
    'blake256': ('blake256', 32, 64, (0, 5, 16)), 'blake512': ('blake512', 64, 128, (0, 9, 32)),
    'blake2s': ('blake2s', 32, 64, (0, 3, 8)), 'blake2b': ('blake2b', 64, 128, (0, 7, 16)),
    'keccak1600': ('keccak1600', 99, 0, (0,)), 'keccak800': ('keccak800', 49, 0, (0,)), 'sha3': ('keccak1600', 64, 0, (0,)),
    'md5': ('md5', 16, 64, (0,)), 'sha1': ('sha1', 20, 64, (0,)), 'sha2_256': ('sha2_256', 32, 64, (0,)), 'sha2_512': ('sha2_512', 64, 128, (0,)),
    'skein256': ('skein256', 70, 32, (0, 1, 33)), 'skein512': ('skein512', 100, 64, (0, 5, 65)), 'skein1024': ('skein1024', 150, 128, (0, 7, 129)),
    'tiger': ('tiger', 24, 64, (0,)), 'whirlpool': ('whirlpool', 64, 64, (0,)),
}
NAT_SALT = {'blake2b': 16, 'blake2s': 8, 'blake256': 16, 'blake512': 32}


def skein_rels(n):
    return ['block', 'block/threefish' + n] if n else []


class Subject:
    """cfgs: parameter tuples"""
    kind = ''
    rels = ()
    maker = None

    def __init__(self, name):
        self.name = name
        self.cfgs = []

    def start(self):
        s = S(list(self.rels), lazy=True)
        self.desc = self.setup(s)
        return s

    def bytes(self, s, tag, n):
        """symbolic input buffer of exactly n bytes (null when empty)"""
        if not n:
            return 0
        return s.inbuf(tag, s.data(tag, n))

    def release(self, s, h):
        s('kripto_%s_destroy' % self.kind, h)


class BlockS(Subject):
    kind = 'block'

    def __init__(self, c):
        Subject.__init__(self, 'block ' + c.name)
        self.c = c
        self.rels = ['block', c.rel]
        mk = c.mk
        self.cfgs = [(k, r) for k in sorted({1, min(mk, 5), mk // 2, mk}) if k for r in ((0,) + tuple(c.extra)[:1] if k == mk else (0,))]
        self.all = [(k, r) for k in range(1, mk + 1) for r in ((0,) + tuple(c.extra) if k in (mk, 1) else (0,))]
        if c.name == 'blowfish':        # slow: 521 encryptions per key
            self.cfgs = [(1, 0), (mk, 2)]
            self.all = [(k, 2) for k in range(1, mk + 1)] + [(mk, 0)]

    def setup(self, s):
        if self.c.sym.endswith('()'):
            return s(self.c.sym[:-2])
        if native(s):
            return s.desc(self.c.sym)
        return lib.desc(s.m, self.c.rel, self.c.sym)

    def create(self, s, cfg, tag='k'):
        return s('kripto_block_create', self.desc, cfg[1], self.bytes(s, tag + 'key', cfg[0]), cfg[0])

    def recreate(self, s, h, cfg, tag='k'):
        return s('kripto_block_recreate', h, cfg[1], self.bytes(s, tag + 'key', cfg[0]), cfg[0])

    def ops(self, cfg):
        bs, tw = self.c.bs, self.c.tweak

        def crypt(fn):
            def f(s, h, tag):
                o = s.out(bs)
                s(fn, h, self.bytes(s, tag + fn[13:16], bs), o)
                return s.get(o, bs)
            return f

        def tweak(s, h, tag):
            s('kripto_block_tweak', h, self.bytes(s, tag + 'tweak', tw), tw)
            return []
        r = [('encrypt', crypt('kripto_block_encrypt')), ('decrypt', crypt('kripto_block_decrypt'))]
        return r + [('tweak', tweak), ('encrypt after tweak', crypt('kripto_block_encrypt')), ('decrypt after tweak', crypt('kripto_block_decrypt'))] if tw else r


class HashS(Subject):
    kind = 'hash'

    def __init__(self, name):
        Subject.__init__(self, 'hash ' + name)
        self.n = name
        mod, mo, bs, salts = HASHES[name]
        self.rels = ['hash', 'hash/' + mod] + skein_rels(name[5:] if name.startswith('skein') else '')
        self.mo, self.bs = mo, bs or 200 - 2 * 32
        self.cfgs = [(sl, out, 0) for sl in salts for out in sorted({1, mo // 2, mo})]
        self.cfgs = [c for c in self.cfgs if c[0] == 0 or c[1] == mo] + ([(0, mo, {'blake256': 3, 'blake512': 3, 'blake2s': 3, 'blake2b': 3, 'keccak1600': 5, 'keccak800': 5, 'whirlpool': 3, 'sha2_256': 16, 'sha2_512': 16, 'skein256': 8, 'skein512': 8, 'skein1024': 8}.get(name, 0))])
        ms = salts[-1]
        self.all = [(sl, mo, 0) for sl in range(0, ms + 1)] + [(0, o, 0) for o in range(1, mo + 1)]

    def setup(self, s):
        if native(s):
            return s.desc('kripto_hash_' + self.n)
        return lib.desc(s.m, 'hash/' + HASHES[self.n][0], 'kripto_hash_' + self.n)

    def create(self, s, cfg, tag='k'):
        return s('kripto_hash_create', self.desc, cfg[2], self.bytes(s, tag + 'salt', cfg[0]), cfg[0], cfg[1])

    def recreate(self, s, h, cfg, tag='k'):
        return s('kripto_hash_recreate', h, cfg[2], self.bytes(s, tag + 'salt', cfg[0]), cfg[0], cfg[1])

    def piece(self, n):
        def f(s, h, tag):
            s('kripto_hash_input', h, self.bytes(s, '%sm%d' % (tag, n), n), n)
            return []
        return f

    def ops(self, cfg):
        def out(n):
            def f(s, h, tag):
                o = s.out(n)
                s('kripto_hash_output', h, o, n)
                return s.get(o, n)
            return f
        a = cfg[1] // 2
        r = [('input', self.piece(3)), ('input of nothing', self.piece(0)), ('input of a block', self.piece(self.bs)), ('input', self.piece(5))]
        if a:
            r.append(('output', out(a)))
        return r + [('rest of the output', out(cfg[1] - a))]

    def whole(self, s, cfg, n, tag='w'):
        o = s.out(cfg[1])
        r = s('kripto_hash_all', self.desc, cfg[2], self.bytes(s, tag + 'salt', cfg[0]), cfg[0], self.bytes(s, tag + 'm', n), n, o, cfg[1])
        return r, o, cfg[1]


class MacS(Subject):
    kind = 'mac'

    def __init__(self, name, rels, maxkey, maxtag, bs, setup):
        Subject.__init__(self, 'mac ' + name)
        self.rels = ['mac'] + rels
        self.set = setup
        self.mk, self.mt, self.bs = maxkey, maxtag, bs
        self.cfgs = [(k, t, 0) for k in sorted({1, 7, min(maxkey, bs), min(maxkey, bs + 1), min(maxkey, 2 * bs + 3)}) for t in sorted({1, maxtag}) if t == maxtag or k in (1, bs + 1)]
        self.all = [(k, maxtag, 0) for k in range(1, min(maxkey, 2 * bs + 4) + 1)] + [(3, t, 0) for t in range(1, maxtag + 1)]

    def setup(self, s):
        return self.set(self, s)

    def create(self, s, cfg, tag='k'):
        return s('kripto_mac_create', self.desc, cfg[2], self.bytes(s, tag + 'key', cfg[0]), cfg[0], cfg[1])

    def recreate(self, s, h, cfg, tag='k'):
        return s('kripto_mac_recreate', h, cfg[2], self.bytes(s, tag + 'key', cfg[0]), cfg[0], cfg[1])

    def piece(self, n):
        def f(s, h, tag):
            s('kripto_mac_input', h, self.bytes(s, '%sm%d' % (tag, n), n), n)
            return []
        return f

    def ops(self, cfg):
        def out(n):
            def f(s, h, tag):
                o = s.out(n)
                s('kripto_mac_tag', h, o, n)
                return s.get(o, n)
            return f
        return [('input', self.piece(3)), ('input of nothing', self.piece(0)), ('input of a block', self.piece(self.bs)), ('input', self.piece(2)), ('tag', out(cfg[1]))]

    def whole(self, s, cfg, n, tag='w'):
        o = s.out(cfg[1])
        r = s('kripto_mac_all', self.desc, cfg[2], self.bytes(s, tag + 'key', cfg[0]), cfg[0], self.bytes(s, tag + 'm', n), n, o, cfg[1])
        return r, o, cfg[1]


class StreamS(Subject):
    kind = 'stream'

    def __init__(self, name, rels, maxkey, maxiv, unit, setup, ivs=None, prng=True):
        Subject.__init__(self, 'stream ' + name)
        self.rels = ['stream'] + rels
        self.set, self.mk, self.mi, self.unit, self.prng = setup, maxkey, maxiv, unit, prng
        ivs = ivs or sorted({0, 1, maxiv // 2, maxiv})
        self.cfgs = [(k, i, 0) for k in sorted({1, min(9, maxkey), min(17, maxkey), maxkey}) for i in ivs if i == ivs[-1] or k == maxkey]
        self.all = [(k, ivs[-1], 0) for k in range(1, maxkey + 1)] + [(maxkey, i, 0) for i in range(0, maxiv + 1)]

    def setup(self, s):
        return self.set(self, s)

    def create(self, s, cfg, tag='k'):
        return s('kripto_stream_create', self.desc, cfg[2], self.bytes(s, tag + 'key', cfg[0]), cfg[0], self.bytes(s, tag + 'iv', cfg[1]), cfg[1])

    def recreate(self, s, h, cfg, tag='k'):
        return s('kripto_stream_recreate', h, cfg[2], self.bytes(s, tag + 'key', cfg[0]), cfg[0], self.bytes(s, tag + 'iv', cfg[1]), cfg[1])

    def ops(self, cfg):
        def crypt(fn, n):
            def f(s, h, tag):
                o = s.out(n)
                s('kripto_stream_' + fn, h, self.bytes(s, '%s%s%d' % (tag, fn[:3], n), n), o, n)
                return s.get(o, n)
            return f

        def prng(n):
            def f(s, h, tag):
                o = s.out(n)
                s('kripto_stream_prng', h, o, n)
                return s.get(o, n)
            return f
        u = self.unit
        if u > 1:
            return [('encrypt', crypt('encrypt', 2 * u)), ('decrypt', crypt('decrypt', u)), ('encrypt', crypt('encrypt', u))]
        r = [('encrypt', crypt('encrypt', 3)), ('decrypt', crypt('decrypt', 2))]
        return r + [('prng', prng(4)), ('encrypt', crypt('encrypt', 1))] if self.prng else r


class AeS(Subject):
    kind = 'ae'

    def __init__(self, name, rels, maxkey, maxiv, maxtag, setup, minkey=1):
        Subject.__init__(self, 'ae ' + name)
        self.rels = ['ae'] + rels
        self.set, self.mk, self.mi, self.mt = setup, maxkey, maxiv, maxtag
        self.cfgs = [(k, i, t, 0) for k in sorted({minkey, min(9, maxkey), maxkey}) for i in sorted({0, 1, maxiv}) for t in (maxtag,) if i == maxiv or k == maxkey]
        self.all = [(k, maxiv, maxtag, 0) for k in range(minkey, maxkey + 1)] + [(maxkey, i, maxtag, 0) for i in range(maxiv + 1)]

    def setup(self, s):
        return self.set(self, s)

    def create(self, s, cfg, tag='k'):
        return s('kripto_ae_create', self.desc, cfg[3], self.bytes(s, tag + 'key', cfg[0]), cfg[0], self.bytes(s, tag + 'iv', cfg[1]), cfg[1], cfg[2])

    def recreate(self, s, h, cfg, tag='k'):
        return s('kripto_ae_recreate', h, cfg[3], self.bytes(s, tag + 'key', cfg[0]), cfg[0], self.bytes(s, tag + 'iv', cfg[1]), cfg[1], cfg[2])

    def ops(self, cfg):
        def crypt(fn, n):
            def f(s, h, tag):
                o = s.out(n)
                s('kripto_ae_' + fn, h, self.bytes(s, '%s%s%d' % (tag, fn[:3], n), n), o, n)
                return s.get(o, n)
            return f

        def header(s, h, tag):
            s('kripto_ae_header', h, self.bytes(s, tag + 'head', 5), 5)
            return []

        def gettag(s, h, tag):
            o = s.out(cfg[2])
            s('kripto_ae_tag', h, o, cfg[2])
            return s.get(o, cfg[2])
        return [('encrypt', crypt('encrypt', 3)), ('header', header), ('decrypt', crypt('decrypt', 2)), ('tag', gettag)]


# ------------------------------------------------------------------ set-ups
def native(s):
    """on the real library (kv/drive.py): real primitives stand where the contracts stand otherwise"""
    return hasattr(s, 'L')


def over_block(fn, bs, maxkey=20):
    def f(self, s):
        if native(s):
            return s(fn, s.desc('kripto_block_rijndael128' if bs == 16 else 'kripto_block_blowfish'))
        self.prim = fake.Block(s.m, s.st, bs, maxkey)
        return s(fn, self.prim.desc)
    return f


def over_hash(bs, mo):
    def f(self, s):
        if native(s):
            return s('kripto_mac_hmac', s.desc('kripto_hash_md5' if mo <= 16 else 'kripto_hash_sha2_256'))
        self.prim = fake.Hash(s.m, s.st, bs, mo)
        return s('kripto_mac_hmac', self.prim.desc)
    return f


def real(rel, sym):
    return lambda self, s: s.desc(sym) if native(s) else lib.desc(s.m, rel, sym)


def eax(bs):
    def f(self, s):
        if native(s):
            return s('kripto_ae_eax', s.desc('kripto_block_rijndael128'))
        b = fake.Block(s.m, s.st, bs, 20)
        o = fake.Mac(s.m, s.st, bs, 20, 'omac')
        c = fake.Stream(s.m, s.st, 20, bs, 'ctr')
        s.m.hooks['kripto_mac_omac'] = o.maker(b.desc)
        s.m.hooks['kripto_stream_ctr'] = c.maker(b.desc)
        return s('kripto_ae_eax', b.desc)
    return f


def eax2(mt, mi):
    def f(self, s):
        if native(s):
            return s('kripto_ae_eax2', s.desc('kripto_stream_chacha'), s('kripto_mac_hmac', s.desc('kripto_hash_md5')))
        o = fake.Mac(s.m, s.st, mt, 20, 'mac')
        c = fake.Stream(s.m, s.st, 20, mi, 'str')
        return s('kripto_ae_eax2', c.desc, o.desc)
    return f


class OneShot(Subject):
    """key derivation: a single call, 0 on success"""
    kind = 'call'

    def __init__(self, name, fn, cfgs):
        Subject.__init__(self, name)
        self.fn, self.cfgs, self.all = fn, cfgs, cfgs
        self.rels = ['mac', 'pbkdf2'] + (['scrypt'] if 'scrypt' in fn else [])

    def setup(self, s):
        if native(s):
            return s('kripto_mac_hmac', s.desc('kripto_hash_md5'))
        self.prim = fake.Mac(s.m, s.st, 16, 64, 'mac')
        return self.prim.desc

    def whole(self, s, cfg, n, tag='w'):
        nums, kl, sl, n = cfg
        o = s.out(n)
        r = s(self.fn, self.desc, 0, *nums, self.bytes(s, tag + 'key', kl), kl, self.bytes(s, tag + 'salt', sl), sl, o, n)
        return r, o, n


def everything():
    out = [BlockS(c) for c in CIPHERS]
    out += [HashS(n) for n in HASHES]
    for bs in (8, 16):
        out.append(MacS('omac/%d' % bs, ['block', 'mac/omac'], 20, bs, bs, over_block('kripto_mac_omac', bs)))
        out.append(MacS('xcbc/%d' % bs, ['block', 'mac/xcbc'], 20, bs, bs, over_block('kripto_mac_xcbc', bs)))
    out.append(MacS('hmac/16', ['hash', 'mac/hmac'], 99, 12, 16, over_hash(16, 12)))
    out.append(MacS('hmac/64', ['hash', 'mac/hmac'], 199, 32, 64, over_hash(64, 32)))
    for n, mt in (('1600', 99), ('800', 49)):
        out.append(MacS('keccak' + n, ['hash', 'hash/keccak1600', 'hash/keccak800', 'mac/keccak'], 99, mt, 10, real('mac/keccak', 'kripto_mac_keccak' + n)))
        out.append(StreamS('keccak' + n, ['hash', 'hash/keccak1600', 'hash/keccak800', 'stream/keccak'], mt, 20, 1, real('stream/keccak', 'kripto_stream_keccak' + n), (0, 1, 20)))
    for n in ('256', '512', '1024'):
        w = int(n) // 8
        out.append(MacS('skein' + n, skein_rels(n) + ['mac/skein' + n], 2 * w + 3, w, w, real('mac/skein' + n, 'kripto_mac_skein' + n)))
        out.append(StreamS('skein' + n, skein_rels(n) + ['stream/skein' + n], 2 * w + 3, w + 1, 1, real('stream/skein' + n, 'kripto_stream_skein' + n), (0, 1, w + 1)))
    for bs in (8, 16):
        for nm in ('cbc', 'cfb', 'ctr', 'ecb', 'ofb'):
            out.append(StreamS('%s/%d' % (nm, bs), ['block', 'stream/' + nm], 20, bs if nm != 'ecb' else 0, bs if nm in ('cbc', 'ecb') else 1, over_block('kripto_stream_' + nm, bs),
                               (bs,) if nm == 'cbc' else (0,) if nm == 'ecb' else None))
    for nm in ('chacha', 'salsa20'):
        out.append(StreamS(nm, ['stream/' + nm], 32, 24, 1, real('stream/' + nm, 'kripto_stream_' + nm)))
    out.append(StreamS('rc4', ['stream/rc4'], 256, 0, 1, real('stream/rc4', 'kripto_stream_rc4'), (0,)))
    out.append(AeS('eax', ['block', 'mac', 'stream', 'ae/eax'], 20, 16, 16, eax(16)))
    out.append(AeS('eax2', ['mac', 'stream', 'ae/eax2'], 40, 12, 16, eax2(16, 12), minkey=2))
    out.append(OneShot('pbkdf2', 'kripto_pbkdf2', [((i,), k, sl, n) for i, k, sl, n in ((1, 5, 0, 1), (2, 1, 9, 16), (3, 20, 4, 17), (1, 64, 70, 40), (2, 3, 3, 15), (1, 4, 4, 33))]))
    out.append(OneShot('scrypt', 'kripto_scrypt', [((nn, r, p), k, sl, n) for nn, r, p, k, sl, n in ((2, 1, 1, 5, 3, 20), (4, 2, 1, 1, 0, 16), (2, 1, 3, 9, 9, 33))]))
    return out

"""P07 continued: the Skein MACs, and the Keccak MACs over any hash."""
from kv import fake, lib
from kv import terms as T
from kv.machine import Ptr
from kv.obl import Group
from kv.run import THOROUGH
from kv.scen import S, same, Mismatch
from checks import p04_sponge as sp


def keccak_setup(name):
    s = S(['hash', 'mac', 'mac/keccak'], lazy=True)
    mx = 99 if name == 'keccak1600' else 49
    h = fake.Hash(s.m, s.st, 200, mx)
    sym = 'kripto_hash_' + name
    p = s.st.new(8, 'global', sym, None, False)
    s.st.store_ptr(p, h.desc)
    s.st.getw(p.obj).ro = True
    s.m.gptr[(None, sym)] = p
    return s, h, lib.desc(s.m, 'mac/keccak', 'kripto_mac_' + name), mx


def native_keccak(name, n=200):
    import ctypes
    import random
    from kv import native
    from checks.p04 import pieces_of
    r = random.Random(name)
    L = native.load()
    d, hd = native.desc('kripto_mac_' + name), native.desc('kripto_hash_' + name)
    s = None
    for i in range(n):
        tl = r.randrange(1, 100 if name == 'keccak1600' else 50)
        key, msg = r.randbytes(r.randrange(1, 300)), r.randbytes(r.randrange(300))
        o = ctypes.create_string_buffer(tl)
        L.kripto_hash_all(hd, 0, None, 0, key + msg, len(key + msg), o, tl)
        s = L.kripto_mac_recreate(s, 0, key, len(key), tl) if s and i % 3 else L.kripto_mac_create(d, 0, key, len(key), tl)
        p = 0
        ps = pieces_of(r, len(msg))
        for k in ps:
            L.kripto_mac_input(s, msg[p:p + k], k)
            p += k
        g = ctypes.create_string_buffer(tl)
        L.kripto_mac_tag(s, g, tl)
        a = ctypes.create_string_buffer(tl)
        L.kripto_mac_all(d, 0, key, len(key), msg, len(msg), a, tl)
        if g.raw != o.raw or a.raw != o.raw:
            return {'mac': name, 'key': key.hex(), 'message': msg.hex(), 'pieces': ps, 'got': g.raw.hex(), 'one call': a.raw.hex(), 'expected': o.raw.hex()}
    return None


def keccak_task(name):
    """MAC(key, message) = hash of key || message with the tag length as its length parameter, pieces of any length"""
    G = Group('%s MAC' % name, lambda: native_keccak(name))

    def go(opaque):
        def f():
            fns = set()
            for tl in range(1, (99 if name == 'keccak1600' else 49) + 1):
                for kl in (1, 16, 201) if tl in (1, 32) else (16,):
                    for re in (False, True):
                        for split in {(tl,), (1,), (tl - 1, 1), (0, tl)}:
                            s, h, d, mx = keccak_setup(name)
                            key = s.data('key', kl)
                            if re:
                                o = s('kripto_mac_create', d, 1, s.inbuf('old', s.data('old', 3)), 3, 5)
                                o = s('kripto_mac_recreate', o, 7, s.inbuf('key', key), kl, tl)
                            else:
                                o = s('kripto_mac_create', d, 7, s.inbuf('key', key), kl, tl)
                            msg = list(key)
                            for j in range(2):
                                if opaque:
                                    p, n, tok = fake.chunk(s.st, 'm%d' % j)
                                    s('kripto_mac_input', o, p, n)
                                    msg += tok
                                else:
                                    x = s.data('m%d' % j, 3)
                                    s('kripto_mac_input', o, s.inbuf('m', x), 3)
                                    msg += x
                            want = h.H((7, [], tl), msg)
                            got = []
                            for n in split:
                                p = s.out(n)
                                s('kripto_mac_tag', o, p, n)
                                got += s.get(p, n)
                            same(got, want[:len(got)], 'tag of %d bytes' % tl)
                            s('kripto_mac_destroy', o)
                            fns |= s.m.functions
            return fns
        return f
    if not G.prove('tags of messages in pieces of every length', go(True), optional=True) and not G.fail:
        G.prove('tags of short messages', go(False))

    def one():
        for tl in (1, 32):
            for n in (0, 4):
                s, h, d, mx = keccak_setup(name)
                key, x = s.data('key', 9), s.data('m', n)
                p = s.out(tl)
                if s('kripto_mac_all', d, 7, s.inbuf('key', key), 9, s.inbuf('m', x) if n else 0, n, p, tl) != 0:
                    raise Mismatch('kripto_mac_all fails')
                same(s.get(p, tl), h.H((7, [], tl), key + x)[:tl], 'kripto_mac_all')
        for fn, want in (('kripto_mac_maxtag', mx), ('kripto_mac_maxkey', 0xFFFFFFFF)):
            if s(fn, d) != want:
                raise Mismatch(fn)
        return s.m.functions
    G.prove('one-call form and descriptor', one)
    return G.close(None, 'native runs against the library\'s own Keccak')


def tasks():
    ts = []
    for bs in (32, 64, 128):
        for n in (bs, 20):
            ts.append(('skein mac %d %d' % (bs, n), sp.skein_task, ('mac', bs, n), 600))
        ts.append(('skein mac %d setup' % bs, sp.skein_setup_task, ('mac', bs), 500))
        ts.append(('skein mac %d native' % bs, sp.native_task, ('Skein-MAC of %d bits against the definition' % (8 * bs), sp.native_skein, 'mac', bs), 250))
    for name in ('keccak1600', 'keccak800'):
        ts.append(('%s mac' % name, keccak_task, (name,), 400))
    return ts

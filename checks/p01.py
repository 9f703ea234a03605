"""P01: decryption inverts encryption, for every block cipher, key length, key, tweak and block."""
import random
import sys
import time
from kv import cipher, lib, native, run
from kv import terms as T
from kv.catalog import CIPHERS, BY
from kv.machine import Violation, Unsupported
from kv.run import Ob, THOROUGH

ATTEMPTS = [(128, 'fresh'), (128, 'linear'), (1024, 'linear'), (32, ''), (128, '')]


def native_try(c, rounds, kl, n=400, seed=1):
    """random search on the real library: failing (key, tweak, block) or None"""
    rnd = random.Random('%s/%d/%d/%d' % (c.name, rounds, kl, seed))
    L = native.load()
    d = native.desc(c.sym)
    import ctypes
    for i in range(n):
        key = bytes(rnd.choice((0, 255, rnd.randrange(256), rnd.randrange(256))) for _ in range(kl)) if i % 3 else bytes(rnd.randrange(256) for _ in range(kl))
        if i < 4:
            key = bytes([(0, 255, 1, 128)[i]] * kl)
        pt = bytes(rnd.randrange(256) for _ in range(c.bs)) if i % 5 else bytes([rnd.choice((0, 255))] * c.bs)
        s = L.kripto_block_create(d, rounds, key, kl)
        tw = b''
        if c.tweak:
            tl = rnd.randrange(0, c.tweak + 1)
            tw = bytes(rnd.randrange(256) for _ in range(tl))
            if tl:
                L.kripto_block_tweak(s, tw, tl)
        ct = ctypes.create_string_buffer(c.bs)
        x = ctypes.create_string_buffer(c.bs)
        L.kripto_block_encrypt(s, pt, ct)
        L.kripto_block_decrypt(s, ct.raw, x)
        y = ctypes.create_string_buffer(pt, c.bs)
        L.kripto_block_encrypt(s, y, y)
        same = y.raw == ct.raw
        L.kripto_block_decrypt(s, y, y)
        L.kripto_block_destroy(s)
        if x.raw != pt or y.raw != pt or not same:
            return {'cipher': c.sym, 'rounds': rounds, 'key': key.hex(), 'tweak': tw.hex(), 'plaintext': pt.hex(), 'ciphertext': ct.raw.hex(),
                    'decrypted': x.raw.hex(), 'in_place': y.raw.hex(), 'expected': pt.hex()}
    return None


def trip(m, st, s, c):
    """obligations on one state: returns list of (name, term, term)"""
    obs = []
    pt = [T.var('pt[%d]' % i, 8) for i in range(c.bs)]
    a = lib.buf(st, 'pt', c.bs, pt, ro=True)
    b = lib.buf(st, 'ct', c.bs, None)
    x = lib.buf(st, 'x', c.bs, None)
    st, _ = m.call1(st, 'kripto_block_encrypt', [s, a, b])
    ct = lib.getbuf(st, b, c.bs)
    st.getw(b.obj).ro = True
    st, _ = m.call1(st, 'kripto_block_decrypt', [s, b, x])
    obs.append(('decrypt(encrypt(m)) = m', lib.getbuf(st, x, c.bs), pt))
    # the same with one buffer for input and output
    y = lib.buf(st, 'y', c.bs, pt)
    st, _ = m.call1(st, 'kripto_block_encrypt', [s, y, y])
    obs.append(('encrypt in place', lib.getbuf(st, y, c.bs), ct))
    o = st.getw(y.obj)
    o.cells[:] = ct
    st, _ = m.call1(st, 'kripto_block_decrypt', [s, y, y])
    obs.append(('decrypt in place', lib.getbuf(st, y, c.bs), pt))
    return obs


def prove(obs):
    for name, xs, ys in obs:
        for i, (x, y) in enumerate(zip(xs, ys)):
            if x != y and not T.prove_eq(x, y, 8):
                differs = T.sim_word(x, 8) != T.sim_word(y, 8)
                return name, i, differs
    return None


def setup(c, kl, rounds, tl, dense, sweep):
    T.DENSE = dense
    T.SELCANON = False
    T.SCALE = c.name != 'idea'
    T.reset()
    cipher._PROD.clear()
    m = cipher.machine(c)
    st = m.state()
    T.SWEEP = sweep
    try:
        st, d = cipher.get_desc(m, st, c)
        st, s, k = cipher.create(m, st, c, d, kl, rounds)
        if tl:
            tw = lib.buf(st, 'tweak', tl, ro=True)
            st, _ = m.call1(st, 'kripto_block_tweak', [s, tw, tl])
    finally:
        T.SWEEP = True
    return m, st, s


def task(name, cfgs):
    """cfgs: (key length, rounds, tweak length) triples, most general first"""
    c = BY[name]
    out = []
    seen = []
    order = list(range(len(ATTEMPTS)))
    bad = 0
    for kl, rounds, tl in cfgs:
        t = time.time()
        label = '%s key %d rounds %s%s' % (name, kl, rounds or 'default', ' tweak %d' % tl if tl else '')
        if seen:
            m, st, s = setup(c, kl, rounds, tl, 128, False)
            if any(cipher.instance(g, st) for g in seen):
                out.append(Ob(label, 'proved', secs=time.time() - t, functions=m.functions, count=3, backend='instance of a proven general state'))
                continue
        for ai in order:
            dense, gen = ATTEMPTS[ai]
            if c.name == 'blowfish' and not gen or c.name == 'idea' and gen:
                continue
            m, st, s = setup(c, kl, rounds, tl, dense, not gen)
            sig = None
            if gen:
                cipher.rebase_heap(st, fresh=gen == 'fresh')
                sig = cipher.signature(st)
            r = prove(trip(m, st, s, c))
            if r is None:
                if sig is not None:
                    seen.insert(0, sig)
                    del seen[2:]
                order.remove(ai)
                order.insert(0, ai)
                out.append(Ob(label, 'proved', secs=time.time() - t, functions=m.functions, count=3, backend='terms'))
                break
        else:
            cx = native.isolated(native_try, c, rounds, kl, 3000)
            if cx[0] and cx[1] is None:
                out.append(Ob(label, 'unproved', '%s, byte %d: not proved (simulation %s)' % (r[0], r[1], 'differs' if r[2] else 'agrees'), time.time() - t, functions=m.functions, replay={'obligation': r[0], 'byte': r[1]}))
            else:
                out.append(Ob(label, 'violated', '%s fails: %s' % (r[0], cx[1]), time.time() - t, functions=m.functions, replay=cx[1]))
            bad += 1
            if bad >= 2:
                break
    return out


def mul_task():
    c = cipher.mul16_candidates()
    out = []
    for n in c:
        t = time.time()
        bad = cipher.mul16_exhaustive(n)
        if bad is None:
            out.append(Ob('idea: contract of the 16-bit multiplication', 'proved', secs=time.time() - t, backend='exhaustive execution of all 2^32 argument pairs', functions=[('block/idea', n)]))
        else:
            out.append(Ob('idea: contract of the 16-bit multiplication', 'unknown', 'not multiplication modulo 65537 at %r' % (bad,)))
    return out


def native_task(names):
    """what the symbolic run left undecided: bounded differential runs"""
    out = []
    for c in CIPHERS:
        if c.name not in names:
            continue
        for kl in range(1, c.mk + 1):
            for r in (0,) + (tuple(c.extra) if kl in (c.mk, (c.mk + 1) // 2) else ()):
                cx = native.isolated(native_try, c, r, kl, 60)
                if not cx[0] or cx[1] is not None:
                    out.append(Ob('%s key %d rounds %s (native)' % (c.name, kl, r or 'default'), 'violated', str(cx[1]), replay=cx[1]))
                    break
        out.append(Ob('%s native round trips' % c.name, 'bounded', bound='60 random keys and blocks per key length'))
    return out


def configs(c):
    kls = list(range(c.mk, 0, -1))
    out = [(k, 0, c.tweak) for k in kls]
    if c.tweak:
        out += [(c.mk, 0, t) for t in range(c.tweak - 1, -1, -1)]
        out += [(1, 0, 0)]
    for r in c.extra:
        out += [(k, r, c.tweak) for k in (c.mk, max(1, c.mk // 2))]
    return out


SLOW = ('threefish1024', 'rijndael256', 'rijndael128', 'anubis', 'aria', 'shacal2', 'twofish', 'rc5', 'rc6', 'serpent')


def tasks():
    """independent tasks; a task covers neighbouring key lengths, so that one proof can serve several"""
    ts = [('idea mul', mul_task, (), 300)]
    for c in sorted(CIPHERS, key=lambda c: c.name not in SLOW):
        cf = configs(c)
        n = {'twofish': 8, 'rc5': 4, 'rc6': 8, 'rijndael256': 2}.get(c.name, 1)
        h = -(-len(cf) // n)
        for i in range(n):
            ts.append(('%s/%d' % (c.name, i), task, (c.name, cf[i * h:(i + 1) * h]), 700))
    return ts


ASSUME = [
    'rounds: the default count of every key length, and the listed non-default counts at two key lengths; other counts are not covered',
    'encrypt(decrypt(c)) = c follows from decrypt(encrypt(m)) = m because the block space is finite (injective map of a finite set into itself)',
    'key schedules are generalised before the round trip: all relations among key-schedule bytes except linear ones are forgotten, which only strengthens what is proved',
    'Blowfish key setup: its 521 internal encryptions are replaced by their contract (eight arbitrary bytes)',
]


def main():
    native.path()
    ts = tasks()
    obs = run.run_tasks(ts, deadline=780)
    und = {o.name.split()[0].split('/')[0] for o in obs if o.status == 'unknown'}
    if und:
        obs += run.run_tasks([('native ' + n, native_task, ([n],), 100) for n in sorted(und)], deadline=880)
    # a broken contract of the multiplication invalidates the IDEA proofs
    if any(o.status == 'unknown' and o.name.startswith('idea: contract') for o in obs):
        for o in obs:
            if o.name.startswith('idea ') and o.status == 'proved':
                o.status = 'unknown'
                o.detail = 'rests on the multiplication contract'
        if 'idea' not in und:
            obs += run.run_tasks([('native idea', native_task, (['idea'],), 100)], deadline=880)
    run.finish('P01', obs, assumptions=ASSUME)


if __name__ == '__main__':
    main()

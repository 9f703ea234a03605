"""P02: every block cipher computes the published function of key, tweak and block."""
import ctypes
import random
import sys
import time
from kv import cipher, lib, native, run
from kv import terms as T
from kv.catalog import CIPHERS, BY
from kv.machine import Ptr, PB, Violation, Unsupported
from kv.run import Ob, THOROUGH
from kv.spec import blocks, blocks_tab
from kv.word import B, W, be, ints, pad0, bytesW, tobe, bes


# ---------------------------------------------------------------- the real library against the specification, concretely
def spec_bytes(c, rounds, key, tweak, pt):
    return ints(blocks.SPECS[c.name](bytesW(key), rounds or c.default(len(key)), bytesW(tweak), bytesW(pt)))


def lib_bytes(c, rounds, key, tweak, pt):
    L = native.load()
    s = L.kripto_block_create(native.desc(c.sym), rounds, bytes(key), len(key))
    if tweak:
        L.kripto_block_tweak(s, bytes(tweak), len(tweak))
    o = ctypes.create_string_buffer(c.bs)
    L.kripto_block_encrypt(s, bytes(pt), o)
    L.kripto_block_destroy(s)
    return o.raw


def compare(c, rounds, key, tweak, pt):
    got = lib_bytes(c, rounds, key, tweak, pt)
    want = spec_bytes(c, rounds, key, tweak, pt)
    if got != want:
        return {'cipher': c.sym, 'rounds': rounds, 'key': bytes(key).hex(), 'tweak': bytes(tweak).hex(), 'plaintext': bytes(pt).hex(), 'got': got.hex(), 'expected': want.hex()}
    return None


def native_try(c, rounds, kl, tl, n, cands=(), limit=30):
    rnd = random.Random('%s/%d/%d/%d' % (c.name, rounds, kl, tl))
    t = time.time()
    for key, tw, pt in cands:
        r = compare(c, rounds, key, tw, pt)
        if r:
            return r
    rb = lambda k: bytes(rnd.randrange(256) for _ in range(k))
    for i in range(n):
        if time.time() - t > limit:
            break
        key = rb(kl) if i > 3 else bytes([(0, 255, 1, 128)[i]] * kl)
        r = compare(c, rounds, key, rb(tl), rb(c.bs) if i % 4 else bytes([rnd.choice((0, 255))] * c.bs))
        if r:
            return r
    return None


# ---------------------------------------------------------------- symbolic
T.COMPOSE = False


def keyvars(kl):
    return [T.var('key[%d]' % i, 8) for i in range(kl)]


def start(c, kl, rounds, key=None):
    m = cipher.machine(c)
    st = m.state()
    st, d = cipher.get_desc(m, st, c)
    st, s, k = cipher.create(m, st, c, d, kl, rounds, key=key)
    return m, st, s


def encrypt(m, st, s, c):
    pt = [T.var('pt[%d]' % i, 8) for i in range(c.bs)]
    a = lib.buf(st, 'pt', c.bs, pt, ro=True)
    o = lib.buf(st, 'ct', c.bs, None)
    st, _ = m.call1(st, 'kripto_block_encrypt', [s, a, o])
    return pt, lib.getbuf(st, o, c.bs)


def mismatch(xs, ys):
    for i, (x, y) in enumerate(zip(xs, ys)):
        if x != y and not T.prove_eq(x, y, 8):
            a, b = T.sim_word(x, 8), T.sim_word(y, 8)
            d = 0
            for p, q in zip(a, b):
                d |= p ^ q
            return i, d
    return None


def sample(name, n, bit):
    return bytes(sum(((T._varval('%s[%d]' % (name, i), j) >> bit) & 1) << j for j in range(8)) for i in range(n))


def heap_cells(st):
    objs = sorted(cipher.heap_objs(st), key=lambda o: o.id)
    rank = {o.id: i for i, o in enumerate(objs)}
    return [(o.size, [cipher._pcell(st, x, rank) if type(x) is PB else x for x in o.cells]) for o in objs]


def padded(name, kl):
    """(length, padding) of the key with which the specification treats a key of kl bytes, for ciphers that extend short keys"""
    if name == 'serpent' and kl < 32:
        return 32, [1] + [0] * (31 - kl)
    if name == 'rectangle' and kl not in (10, 16):
        n = 10 if kl < 10 else 16
        return n, [0] * (n - kl)
    g = {'threefish256': 32, 'threefish512': 64, 'threefish1024': 128, 'twofish': 8, 'anubis': 4, 'rijndael256': 4, 'rijndael128': 4, 'shacal2': 64, 'lea': 8, 'sm4': 16, 'seed': 16, 'rc6': 4, 'rc5': 4}.get(name)
    if g and kl % g:
        return -(-kl // g) * g, [0] * (-kl % g)
    return None


def same_state(c, kl, rounds):
    """create(key) = create(key with padding written out)?"""
    p = padded(c.name, kl)
    T.reset()
    T.SWEEP = False
    try:
        _, s1, _ = start(c, kl, rounds)
        _, s2, _ = start(c, p[0], rounds, keyvars(kl) + p[1])
        return heap_cells(s1) == heap_cells(s2)
    finally:
        T.SWEEP = True


def prove_direct(c, kl, rounds, tl):
    T.DENSE = 128
    T.reset()
    cipher._PROD.clear()
    m, st, s = start(c, kl, rounds)
    tw = []
    if tl:
        tb = lib.buf(st, 'tweak', tl, ro=True)
        st, _ = m.call1(st, 'kripto_block_tweak', [s, tb, tl])
        tw = lib.getbuf(st, tb, tl)
    pt, ct = encrypt(m, st, s, c)
    want = blocks.SPECS[c.name]([B(x) for x in keyvars(kl)], rounds or c.default(kl), [B(x) for x in tw], [B(x) for x in pt])
    r = mismatch(ct, [w.v for w in want])
    if r is None:
        return None, [], m.functions
    i, d = r
    cands = []
    b = 0
    while d and len(cands) < 8:
        if d & 1:
            cands.append((sample('key', kl, b), sample('tweak', tl, b), sample('pt', c.bs, b)))
        d >>= 1
        b += 1
    return 'byte %d' % i, cands, m.functions


def blowfish(c, kl, rounds):
    """the key setup as a chain of encryptions: each call is checked against the state and block the
    specification feeds it, with earlier results as free variables"""
    T.DENSE = 128
    T.reset()
    m, st, s = start(c, kl, rounds)
    log = st.ghost['bf']
    n = rounds or c.default(kl)
    np = -(-(n + 2) // 2)
    fns = m.functions
    if len(log) != np + 512:
        return 'key setup makes %d encryptions, not %d' % (len(log), np + 512), [], fns
    outs = [[T.var('bf%d.%d' % (k, i), 8) for i in range(8)] for k in range(len(log))]
    word = lambda k, h: be([B(x) for x in outs[k][4 * h:4 * h + 4]])
    P, S = blocks_tab.blowfish_init([B(x) for x in keyvars(kl)], n)
    final = [word(i // 2, i % 2) for i in range(n + 2)] + [word(np + i // 2, i % 2) for i in range(1024)]
    cur = list(P) + [x for t in S for x in t]
    where = {}
    for q, w in enumerate(final):
        for j in range(4):
            where[w.byte(j).v] = (q, j)
    # 1. layout of the finished state: every word of P and S exactly at the places holding its last value
    o = st.get(s.obj)
    place = [where.get(x) if type(x) is tuple else None for x in o.cells]
    if {p for p in place if p} != {(q, j) for q in range(len(final)) for j in range(4)}:
        return 'the finished state is not the chain of encryption results', [], fns
    if any(type(x) is tuple and p is None for x, p in zip(o.cells, place)):
        return 'unexpected symbolic data in the finished state', [], fns
    # 2. encryption under an arbitrary state of that layout
    pt, ct = encrypt(m, st, s, c)
    f = final
    want = tobe(blocks_tab.blowfish_crypt(f[:n + 2], [f[n + 2 + 256 * i:n + 2 + 256 * i + 256] for i in range(4)], n, *bes([B(x) for x in pt], 32)))
    r = mismatch(ct, [w.v for w in want])
    if r is not None:
        return 'encryption with a general state, byte %d' % r[0], [], fns
    # 3. every call of the chain
    prev = [0] * 8
    done = 0
    for k, (cells, off, blk) in enumerate(log):
        if off != s.off or len(cells) != len(o.cells):
            return 'call %d: other state object' % k, [], fns
        if blk != prev:
            return 'call %d: wrong input block' % k, [], fns
        for i, (x, p) in enumerate(zip(cells, place)):
            if p is not None:
                if x != cur[p[0]].byte(p[1]).v:
                    return 'call %d: P/S word %d differs' % (k, p[0]), [], fns
            elif x != o.cells[i] and o.cells[i] is not None:
                return 'call %d: state byte %d differs' % (k, i), [], fns
        prev = outs[k]
        if k < np:
            cur[2 * k] = final[2 * k]
            if 2 * k + 1 < n + 2:
                cur[2 * k + 1] = final[2 * k + 1]
        else:
            b = n + 2 + 2 * (k - np)
            cur[b:b + 2] = final[b:b + 2]
    return None, [], fns


def task(name, cfgs, all_cfgs):
    c = BY[name]
    out = []
    bad = 0
    for kl, rounds, tl in cfgs:
        t = time.time()
        label = '%s key %d rounds %s%s' % (name, kl, rounds or 'default', ' tweak %d' % tl if tl else '')
        p = padded(name, kl)
        if p is not None and (p[0], rounds, tl) in all_cfgs and c.default(kl) == c.default(p[0]) and same_state(c, kl, rounds):
            out.append(Ob(label, 'proved', secs=time.time() - t, backend='terms: same state as the padded key of %d bytes' % p[0], key=label))
            out[-1].needs = '%s key %d rounds %s%s' % (name, p[0], rounds or 'default', ' tweak %d' % tl if tl else '')
            continue
        if name == 'blowfish':
            why, cands, fns = blowfish(c, kl, rounds)
        else:
            why, cands, fns = prove_direct(c, kl, rounds, tl)
        if why is None:
            out.append(Ob(label, 'proved', secs=time.time() - t, functions=fns, backend='terms'))
            continue
        cx = native.isolated(native_try, c, rounds, kl, tl, 400, cands)
        if cx[0] and cx[1] is None:
            out.append(Ob(label, 'unproved', 'encrypt(create(key)) = specification: %s' % why, time.time() - t, functions=fns, replay={'obligation': why}))
        else:
            out.append(Ob(label, 'violated', str(cx[1]), time.time() - t, functions=fns, replay=cx[1]))
        bad += 1
        if bad >= 2:
            break
    return out


def native_task(name, kls):
    c = BY[name]
    out = []
    n = 0
    t = time.time()
    for kl, r, tl in kls:
        cx = native.isolated(native_try, c, r, kl, tl, 12, (), 2)
        n += 1
        if not cx[0] or cx[1] is not None:
            out.append(Ob('%s key %d rounds %s (native)' % (name, kl, r or 'default'), 'violated', str(cx[1]), replay=cx[1]))
            break
    out.append(Ob('%s against the specification, native' % name, 'bounded', bound='12 keys and blocks for each of %d configurations' % n, secs=time.time() - t))
    return out


def configs(c):
    out = [(k, 0, c.tweak) for k in range(c.mk, 0, -1)]
    if c.tweak:
        out += [(c.mk, 0, t) for t in range(c.tweak - 1, -1, -1)] + [(1, 0, 0)]
    for r in c.extra:
        for k in (c.mk, max(1, c.mk // 2)):
            p = padded(c.name, k)
            out += [(q, r, c.tweak) for q in ((p[0], k) if p and p[0] <= c.mk else (k,)) if (q, r, c.tweak) not in out]
    return out


COST = {'twofish': 60, 'serpent': 20, 'anubis': 30, 'rijndael256': 16, 'camellia': 6, 'cast5': 6, 'aria': 5, 'rijndael128': 8, 'shacal2': 5, 'khazad': 5, 'blowfish': 8, 'threefish1024': 6, 'threefish512': 3}


QUICK = {'twofish': (32, 24, 16, 8), 'anubis': (40, 39, 32, 24, 16, 8)}


def quick(c, cfs):
    """the quick tier leaves out some key lengths of the ciphers with many or costly ones"""
    if c.name in QUICK:
        return [x for x in cfs if x[0] in QUICK[c.name] and (x[1] == 0 or x[0] < c.mk)]
    if c.mk <= 16 and COST.get(c.name, 1) < 5:
        return cfs
    keep = {c.mk, c.mk - 1, c.mk // 2, 1, 2}
    n = 64 if c.mk > 128 else 8
    out = [x for x in cfs if x[1] or x[0] in keep or x[0] % n == 0 or x[0] % 16 == 5 and c.mk <= 64 or x[0] % 32 == 5]
    tw = [x for x in out if x[0] == c.mk and c.tweak and x[1] == 0 and x[2] not in (0, 1, 5, c.tweak // 2, c.tweak - 1, c.tweak)]
    out = [x for x in out if x not in tw]
    # with every padded length the length it rests on
    for x in list(out):
        p = padded(c.name, x[0])
        if p and (p[0], x[1], x[2]) in cfs and (p[0], x[1], x[2]) not in out:
            out.append((p[0], x[1], x[2]))
    return out


def split(cfs, name):
    """tasks of about equal cost; padded keys are cheap"""
    out = []
    cur = []
    acc = 0
    for cf in cfs:
        w = COST.get(name, 1.5)
        if padded(name, cf[0]):
            w = min(w, 3)
        if cur and acc + w > 60:
            out.append(cur)
            cur, acc = [], 0
        cur.append(cf)
        acc += w
    if cur:
        out.append(cur)
    return out


def tasks():
    ts = []
    for c in CIPHERS:
        w = COST.get(c.name, 1)
        cfs = configs(c)
        if not THOROUGH:
            cfs = quick(c, cfs)
        for i, cf in enumerate(split(cfs, c.name)):
            ts.append((w, ('%s/%d' % (c.name, i), task, (c.name, cf, frozenset(cfs)), 840 if not THOROUGH else 3000)))
    ts.sort(key=lambda x: -x[0])
    return [('idea mul', mul, (), 300)] + [t for _, t in ts]


def mul():
    from checks import p01
    return p01.mul_task()


ASSUME = [
    'rounds: the default count of every key length, and the listed non-default counts at two key lengths; other counts are not covered',
    'the specifications in kv/spec are transcriptions of the published ciphers, checked against OpenSSL/libgcrypt and the published test vectors, not derived mechanically',
    'conventions the publications leave open (key padding, odd key lengths, round counts for long keys) are pinned to the documented behaviour of the library',
    'Blowfish: the 521 encryptions of the key setup are checked one by one against the encryption contract, which is proved for an arbitrary state',
]


def main():
    native.path()
    obs = run.run_tasks(tasks(), deadline=780 if not THOROUGH else 9000)
    # a padded key rests on the proof of the padded length
    names = {o.name for o in obs if o.status == 'proved'}
    for o in obs:
        nd = getattr(o, 'needs', None)
        if nd and o.status == 'proved':
            if nd not in names:
                o.status = 'unknown'
                o.detail = 'rests on ' + nd
    if any(o.status == 'unknown' and o.name.startswith('idea: contract') for o in obs):
        for o in obs:
            if o.name.startswith('idea ') and o.status == 'proved':
                o.status, o.detail = 'unknown', 'rests on the multiplication contract'
    if not THOROUGH:
        for c in CIPHERS:
            left = sorted({x[0] for x in configs(c)} - {x[0] for x in quick(c, configs(c))})
            if left:
                obs.append(Ob(c.name + ' other key lengths', 'unknown', 'proved in the thorough tier only: key lengths %s' % (left,)))
    und = {o.name.split()[0].split('/')[0].rstrip(':') for o in obs if o.status == 'unknown'}
    if und:
        obs += run.run_tasks([('native ' + n, native_task, (n, configs(BY[n])), 100) for n in sorted(und) if n in BY], deadline=880 if not THOROUGH else 9900)
    run.finish('P02', obs, assumptions=ASSUME)


if __name__ == '__main__':
    main()

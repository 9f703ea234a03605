"""P09: PBKDF2 over any MAC, scrypt over any MAC."""
import ctypes
import hashlib
import random
from kv import fake, fold, native, run, smt
from kv import terms as T
from kv.machine import Ptr, Outcome, Unsupported, Violation
from kv.obl import Group
from kv.run import THOROUGH
from kv.scen import S, same, Mismatch
from kv.spec import kdf

XS = (1, 2, 3, 16, 20)


def soft(fn):
    """a lemma about the inside: its failure is not a verdict, the obligations about the function as a whole decide"""
    def g(*a):
        try:
            return fn(*a)
        except (Mismatch, Violation) as e:
            raise Unsupported('lemma not shown: %s' % e)
    return g


# ---------------------------------------------------------------- PBKDF2
def prf(M, rounds, pw, x):
    kid = fake.uf(M.tag + '.key', 8, [rounds, pw])

    def f(msg):
        return M.M((tuple(kid), x), tuple(msg))
    return f


def pbkdf2_setup(maxtag, plen, slen):
    s = S(['pbkdf2', 'mac'])
    M = fake.Mac(s.m, s.st, maxtag=maxtag, unlimited=64)
    if plen is None:
        p, pn, ptok = fake.chunk32(s.st, 'pass')
        s.st.pc = s.st.pc + [T.not1(T.eq(pn, 0, 32))]
    else:
        ptok = s.data('pass', plen)
        p, pn = s.inbuf('pass', ptok), plen
    if slen is None:
        q, qn, qtok = fake.chunk32(s.st, 'salt')
    else:
        qtok = s.data('salt', slen)
        q, qn = s.inbuf('salt', qtok), slen
    return s, M, (p, pn, ptok), (q, qn, qtok)


def pbkdf2_bounded(maxtag, it, out_len, plen=None, slen=None, rounds=5):
    s, M, (p, pn, ptok), (q, qn, qtok) = pbkdf2_setup(maxtag, plen, slen)
    out = s.out(out_len)
    r = s('kripto_pbkdf2', M.desc, rounds, it, p, pn, q, qn, out, out_len)
    if r != 0:
        raise Mismatch('returns %r' % (r,))
    x = maxtag or out_len
    same(s.get(out, out_len), kdf.pbkdf2(prf(M, rounds, ptok, x), x, qtok, it, out_len), 'derived key')
    return s.m.functions


def live(st):
    from kv.cipher import heap_objs
    return heap_objs(st)


def split(st, M):
    os = sorted(live(st), key=lambda o: o.id)
    return [o for o in os if (M.tag, o.id) in st.ghost], [o for o in os if (M.tag, o.id) not in st.ghost]


def inner_loop(maxtag):
    """(header, fits, template) of the loop that runs once per iteration"""
    x = maxtag
    logs = {}
    chains = {}
    for it in (5, 8):
        s, M, (p, pn, ptok), (q, qn, qtok) = pbkdf2_setup(maxtag, None, None)
        f = prf(M, 5, ptok, x)
        u = f(qtok + [0, 0, 0, 1])
        t = list(u)
        ch = [(list(u), list(t))]
        for _ in range(it - 1):
            u = f(u)
            t = [T.xor(a, b, 8) for a, b in zip(t, u)]
            ch.append((list(u), list(t)))
        log = logs[it] = {}

        def rule(m, f, st, R, bn, blk):
            if f.mod.name == 'pbkdf2':
                a, b = split(st, M)
                vals = [(d, t.w if t.k == 'int' else 64, R[d]) for d, t, _ in blk[0]]
                log.setdefault((f.mod.name, f.name, bn), []).append((vals, [o.id for o in a], [list(o.cells) for o in b]))
            return None
        s.m.loop_rule = rule
        s('kripto_pbkdf2', M.desc, 5, it, p, pn, q, qn, s.out(x), x)
        s.m.loop_rule = None
        chains[it] = ch
        # the terms live in one generation: match now
        for h, arr in list(log.items()):
            n = len(arr)
            k0 = {it: 0, it - 1: 1}.get(n)
            if k0 is None or any(len(a[1]) != 1 for a in arr):
                del log[h]
                continue
            tpl = None
            good = True
            for k, (vals, macs, cells) in enumerate(arr):
                U, V = ch[k]
                if k == 0 and k0 == 0:
                    continue
                now = []
                for o in cells:
                    row = []
                    for c in o:
                        if type(c) is tuple and c in [z for z in V if type(z) is tuple] and c not in U:
                            row.append(('T', V.index(c)))
                        elif type(c) is tuple and c in U:
                            row.append(('U', U.index(c)))
                        else:
                            row.append(('c', c if type(c) is int else None))
                    now.append(row)
                if tpl is None:
                    tpl = now
                elif tpl != now:
                    good = False
            if k0 or not good or tpl is None or not any(c[0] == 'T' for r in tpl for c in r):
                del log[h]
                continue
            log[h] = (arr, tpl)
    for h in logs[5]:
        if h not in logs[8] or logs[5][h][1] != logs[8][h][1]:
            continue
        fits = []
        (a5, tpl), (a8, _) = logs[5][h], logs[8][h]
        for i, (d, w, v) in enumerate(a5[0][0]):
            x0, x1, x2, y0 = a5[0][0][i][2], a5[1][0][i][2], a5[2][0][i][2], a8[0][0][i][2]
            if type(x0) is int:
                st = x1 - x0
                co = (y0 - x0) // 3
                if x2 - x1 != st or (y0 - x0) % 3:
                    break
                fits.append(('aff', x0 - 5 * co, st, co, w))
            elif type(x0) is Ptr and x0.obj in a5[0][1]:
                fits.append(('mac', x0.off))
            else:
                fits.append(('same',))
        else:
            return h, fits, tpl
    raise fold.NoLoop('no loop that runs once per iteration')


@soft
def pbkdf2_every(maxtag, out_len, cache={}):
    """every iteration count, password and salt of any length"""
    x = maxtag
    if maxtag not in cache:
        cache[maxtag] = inner_loop(maxtag)
    head, fits, tpl = cache[maxtag]
    fns = set()
    for mode in ('step', 'exit'):
        s, M, (p, pn, ptok), (q, qn, qtok) = pbkdf2_setup(maxtag, None, None)
        f = prf(M, 5, ptok, x)
        I = T.var('iter', 32)
        s.st.pc = s.st.pc + [T.not1(T.eq(I, 0, 32))]
        K = T.var('k', 32)
        n = [0]
        box = {}

        def at(k, fit):
            v = T.addn(((1, fit[1] & 0xFFFFFFFF), (fit[2] & 0xFFFFFFFF, k), (fit[3] & 0xFFFFFFFF, I)), 32)
            if fit[4] == 64:
                raise Unsupported('counter width')
            return v

        def regs_ok(st, R, blk, k):
            a, b = split(st, M)
            for (d, t, _), fit in zip(blk[0], fits):
                if fit[0] == 'mac':
                    if type(R[d]) is not Ptr or R[d].obj != a[0].id or R[d].off != fit[1]:
                        raise Unsupported('loop variables')
                elif fit[0] == 'aff' and R[d] != at(k, fit) and smt.equal(R[d], at(k, fit), 32, st.pc) != 'yes':
                    raise Mismatch('loop counter')

        def put(st, U, V):
            _, b = split(st, M)
            if [len(o.cells) for o in b] != [len(r) for r in tpl]:
                raise Unsupported('shape')
            for o, row in zip(b, tpl):
                o = st.getw(o.id)
                o.cells = [U[c[1]] if c[0] == 'U' else V[c[1]] if c[0] == 'T' else c[1] for c in row]

        def has(st, U, V):
            _, b = split(st, M)
            if [len(o.cells) for o in b] != [len(r) for r in tpl]:
                raise Unsupported('shape')
            got, want = [], []
            for o, row in zip(b, tpl):
                for v, c in zip(o.cells, row):
                    if c[0] == 'c' and c[1] is None:
                        continue
                    got.append(v)
                    want.append(U[c[1]] if c[0] == 'U' else V[c[1]] if c[0] == 'T' else c[1])
            same(got, want, 'intermediate values')

        def mac(st):
            a, _ = split(st, M)
            if len(a) != 1:
                raise Unsupported('MAC objects')
            return a[0], st.ghost[(M.tag, a[0].id)]

        def rule(m, fn, st, R, bn, blk):
            if (fn.mod.name, fn.name, bn) != head:
                return None
            if mode == 'step' and n[0]:
                u, t = box['ut']
                u2 = f(u)
                has(st, u2, [T.xor(a, b, 8) for a, b in zip(t, u2)])
                o, g = mac(st)
                if g[0] != box['par'] or not g[2]:
                    raise Mismatch('state of the MAC')
                regs_ok(st, R, blk, T.add(K, 1, 32))
                if [(o.id, list(o.cells)) for o in st.objs.values() if o.kind == 'stack'] != box['stk']:
                    raise Unsupported('local memory')
                return ('end', [Outcome(st, 'back', None)])
            n[0] += 1
            b = n[0]
            U1 = f(qtok + [(b >> 24) & 255, (b >> 16) & 255, (b >> 8) & 255, b & 255])
            has(st, U1, U1)
            o, g = mac(st)
            if not g[2]:
                raise Unsupported('MAC not finished')
            box['par'] = g[0]
            regs_ok(st, R, blk, 0)
            st = st.fork()
            u = [T.var('U%d[%d]' % (b, i), 8) for i in range(x)]
            t = [T.var('T%d[%d]' % (b, i), 8) for i in range(x)]
            box['ut'] = (u, t)
            box['stk'] = [(o.id, list(o.cells)) for o in st.objs.values() if o.kind == 'stack']
            put(st, u, t)
            M.set(st, Ptr(o.id, 0), (g[0], tuple(T.var('mm[%d]' % i, 8) for i in range(8)), True))
            R = list(R)
            k = K if mode == 'step' else T.sub(I, 1, 32)
            for (d, ty, _), fit in zip(blk[0], fits):
                if fit[0] == 'aff':
                    R[d] = at(k, fit)
            if mode == 'step':
                st.pc = st.pc + [T.ult(K, T.sub(I, 1, 32), 32)]
            return ('go', st, R)
        s.m.loop_rule = rule
        out = s.out(out_len if mode == 'exit' else 1)
        outs = s.m.call(s.st, 'kripto_pbkdf2', [M.desc, 5, I, p, pn, q, qn, out, out_len if mode == 'exit' else 1])
        s.m.loop_rule = None
        outs = [o for o in outs if s.m.feasible(o.st)]
        if not outs or any(o.kind != ('back' if mode == 'step' else 'ret') for o in outs):
            raise Mismatch('number of iterations')
        fns |= set(s.m.functions)
        if mode == 'exit':
            if len(outs) != 1 or outs[0].val != 0:
                raise Mismatch('result')
            blocks = -(-out_len // x)
            want = [T.var('T%d[%d]' % (b, i), 8) for b in range(1, blocks + 1) for i in range(x)][:out_len]
            s.st = outs[0].st
            same(s.get(out, out_len), want, 'derived key')
            if n[0] != blocks:
                raise Mismatch('blocks')
    return fns


PY = {'kripto_hash_md5': 'md5', 'kripto_hash_sha1': 'sha1', 'kripto_hash_sha2_256': 'sha256', 'kripto_hash_sha2_512': 'sha512'}


def kdf_lib():
    L = native.load()
    vp, u, z = ctypes.c_void_p, ctypes.c_uint, ctypes.c_size_t
    L.kripto_mac_hmac.restype = vp
    L.kripto_mac_hmac.argtypes = [vp]
    L.kripto_pbkdf2.argtypes = [vp, u, u, vp, u, vp, u, vp, z]
    L.kripto_scrypt.argtypes = [vp, u, ctypes.c_uint64, ctypes.c_uint32, ctypes.c_uint32, vp, u, vp, u, vp, z]
    return L


def rnd(r, n):
    return bytes(r.randrange(256) for _ in range(n))


def guarded(n):
    """output buffer between guard bytes"""
    b = ctypes.create_string_buffer(b'\xA5' * (n + 64), n + 64)

    def get():
        x = b.raw
        return x[32:32 + n], x[:32] == b'\xA5' * 32 and x[32 + n:] == b'\xA5' * 32
    return ctypes.addressof(b) + 32, get


def pbkdf2_native(seed=0, n=120):
    r = random.Random('pbkdf2/%d' % seed)
    L = kdf_lib()
    for i in range(n):
        hn = r.choice(sorted(PY))
        d = L.kripto_mac_hmac(native.desc(hn))
        x = L.kripto_mac_maxtag(ctypes.c_void_p(d)) if hasattr(L, 'kripto_mac_maxtag') else 64
        pw = rnd(r, r.choice((1, 2, 8, 63, 64, 65, 127, 128, 129, 200)))
        salt = rnd(r, r.choice((0, 1, 8, 55, 56, 64, 119, 120, 128, 300)))
        it = r.choice((1, 1, 2, 3, 4, 7, 40))
        ol = r.choice((1, x - 1, x, x + 1, 2 * x, 2 * x + 1, 5 * x - 1, r.randrange(1, 400)))
        if i == 0:
            it = 70000
        if i == 1:
            it, ol = 300, 2 * x
        if i == 2:
            it, ol = 1, x * 300 + 5
        if i == 3:
            it, ol = 1, x * 66000 + 5
        o, get = guarded(ol)
        rc = L.kripto_pbkdf2(d, 0, it, pw, len(pw), salt, len(salt), o, ol)
        got, ok = get()
        want = hashlib.pbkdf2_hmac(PY[hn], pw, salt, it, ol)
        if rc or got != want or not ok:
            return {'hash': hn, 'password': pw.hex(), 'salt': salt.hex(), 'iterations': it, 'length': ol, 'returned': rc, 'guards intact': ok,
                    'first wrong byte': next((j for j in range(ol) if got[j] != want[j]), None)}
    return None


def pbkdf2_task(maxtag):
    G = Group('PBKDF2 over any MAC with tags of up to %s bytes' % (maxtag or 'any number of'), pbkdf2_native)
    x = maxtag or 7
    cases = [(1, x), (2, x), (3, x + 1 if maxtag else x), (4, 2 * x - 1 or 1), (1, 3 * x)] if maxtag else [(1, 1), (2, 5), (3, 9), (4, 16)]
    for it, ol in cases:
        G.prove('%d iterations, %d bytes, password and salt of any length' % (it, ol), lambda: pbkdf2_bounded(maxtag, it, ol))
    G.prove('no salt', lambda: pbkdf2_bounded(maxtag, 2, 2 * x, 3, 0))
    if maxtag and maxtag <= 3:
        G.prove('300 blocks', lambda: pbkdf2_bounded(maxtag, 1, 300 * x - (x > 1), 2, 1))
    if maxtag and G.fail is None:
        for ol in sorted({1, x - 1 or 1, x, x + 1, 2 * x, 3 * x + 1}):
            G.prove('every iteration count, %d bytes' % ol, lambda: pbkdf2_every(maxtag, ol), optional=True)
    return G.close(None, 'iteration counts 1 to 4; native comparison with hashlib up to 70000 iterations')


# ---------------------------------------------------------------- scrypt
def inner(s, name):
    f = s.m.mods['scrypt'].funcs.get(name)
    if f is None:
        raise Unsupported('no function %s' % name)
    return f


@soft
def core_lemma():
    s = S(['scrypt', 'pbkdf2', 'mac'])
    x = s.data('x', 64)
    p = s.buf('x', 64, list(x), False)
    s(inner(s, 'salsa20_core'), p)
    same(s.get(p, 64), kdf.salsa20_8(x), 'Salsa20/8 core')
    return s.m.functions


def core_hook(m, st, a):
    x = st.bytes_at(a[0], 64)
    st.put_bytes(a[0], fake.uf('core', 64, [x]))


def core_uf(x):
    return fake.uf('core', 64, [list(x)])


def mix_uf(b, r):
    return fake.uf('blockmix', 128 * r, [r, list(b)])


def rom_uf(b, r, n):
    return fake.uf('romix', 128 * r, [r, n, list(b)])


@soft
def blockmix_lemma(r):
    s = S(['scrypt', 'pbkdf2', 'mac'])
    s.m.hooks['salsa20_core'] = core_hook
    b = s.data('b', 128 * r)
    p = s.buf('b', 128 * r, list(b), False)
    t = s.buf('t', 128 * r, None, False)
    s(inner(s, 'blockmix'), p, t, r)
    same(s.get(p, 128 * r), kdf.blockmix(core_uf, b, r), 'BlockMix')
    return s.m.functions


@soft
def romix_lemma(r, n):
    s = S(['scrypt', 'pbkdf2', 'mac'])

    def hook(m, st, a):
        k = a[2]
        st.put_bytes(a[0], mix_uf(st.bytes_at(a[0], 128 * k), k))
        st.put_bytes(a[1], [T.var('junk[%d]' % i, 8) for i in range(128 * k)])
    s.m.hooks['blockmix'] = hook
    b = s.data('b', 128 * r)
    p = s.buf('b', 128 * r, list(b), False)
    t0 = s.buf('t0', 128 * r * n, None, False)
    t1 = s.buf('t1', 128 * r, None, False)
    t2 = s.buf('t2', 128 * r, None, False)
    s(inner(s, 'smix'), p, r, n, t0, t1, t2)
    same(s.get(p, 128 * r), kdf.romix(lambda x: mix_uf(x, r), b, r, n), 'ROMix')
    return s.m.functions


def pb_uf(pw, salt, n, rounds):
    return fake.uf('pbkdf2', n, [rounds, list(pw), list(salt)])


def scrypt_whole(n, r, p, out_len, lemma):
    s = S(['scrypt', 'pbkdf2', 'mac'], lazy=False)
    M = fake.Mac(s.m, s.st, maxtag=32)

    def pb(m, st, a):
        d, rounds, it, pw, pn, q, qn, o, ol = a
        if d != M.desc or it != 1:
            raise Mismatch('PBKDF2 called with %r iterations' % (it,))
        # the length is part of the definition only as the number of bytes taken
        st.put_bytes(o, pb_uf(fake.taken(st, pw, pn, 'pbkdf2'), fake.taken(st, q, qn, 'pbkdf2'), ol, rounds))
        return 0
    s.m.hooks['kripto_pbkdf2'] = pb
    if lemma:
        def rom(m, st, a):
            q, rr, nn = a[:3]
            k = 128 * rr
            for z, sz in ((a[3], k * nn), (a[4], k), (a[5], k)):
                st.put_bytes(Ptr(z.obj, z.off), [T.var('junk', 8)] * sz)
            st.put_bytes(q, rom_uf(st.bytes_at(q, k), rr, nn))
        s.m.hooks['smix'] = rom
    P, pn, ptok = fake.chunk32(s.st, 'pass')
    Q, qn, qtok = fake.chunk32(s.st, 'salt')
    out = s.out(out_len)
    v = s('kripto_scrypt', M.desc, 7, n, r, p, P, pn, Q, qn, out, out_len)
    if v != 0:
        raise Mismatch('returns %r' % (v,))
    rom = (lambda b: rom_uf(b, r, n)) if lemma else (lambda b: kdf.romix(lambda x: kdf.blockmix(kdf.salsa20_8, x, r), b, r, n))
    B = pb_uf(ptok, qtok, 128 * r * p, 7)
    B = [c for i in range(p) for c in rom(B[128 * r * i:128 * r * (i + 1)])]
    same(s.get(out, out_len), pb_uf(ptok, B, out_len, 7), 'derived key')
    return s.m.functions


def scrypt_native(seed=0, n=40):
    r = random.Random('scrypt/%d' % seed)
    L = kdf_lib()
    for i in range(n):
        hn = 'kripto_hash_sha2_256'
        d = L.kripto_mac_hmac(native.desc(hn))
        pw, salt = rnd(r, r.choice((1, 8, 64, 65, 130))), rnd(r, r.choice((0, 1, 8, 70)))
        N, R, P = r.choice((2, 4, 8, 16, 64, 256, 1024)), r.choice((1, 2, 3, 5, 8)), r.choice((1, 2, 3, 5))
        if i == 0:
            N, R, P = 1 << 15, 2, 1
        if i == 1:
            N, R, P = 2, 40, 9
        if i == 2:
            N, R, P = 2, 1, 300
        ol = r.choice((1, 16, 31, 32, 33, 64, 65, 200))
        want = hashlib.scrypt(pw, salt=salt, n=N, r=R, p=P, maxmem=1 << 30, dklen=ol)
        o, get = guarded(ol)
        rc = L.kripto_scrypt(d, 0, N, R, P, pw, len(pw), salt, len(salt), o, ol)
        got, ok = get()
        if rc or got != want or not ok:
            return {'N': N, 'r': R, 'p': P, 'password': pw.hex(), 'salt': salt.hex(), 'length': ol, 'returned': rc, 'guards intact': ok, 'got': got.hex(), 'expected': want.hex()}
    # over another MAC, against this library's own PBKDF2 (proved separately)
    for i in range(10):
        hn = r.choice(sorted(PY))
        d = L.kripto_mac_hmac(native.desc(hn))
        pw, salt = rnd(r, 9), rnd(r, 5)
        N, R, P, ol = r.choice((2, 8)), r.choice((1, 2)), r.choice((1, 2)), r.choice((3, 50))
        B = list(hashlib.pbkdf2_hmac(PY[hn], pw, salt, 1, 128 * R * P))
        B = bytes(c for j in range(P) for c in kdf.romix(lambda x: kdf.blockmix(kdf.salsa20_8, x, R), B[128 * R * j:128 * R * (j + 1)], R, N))
        want = hashlib.pbkdf2_hmac(PY[hn], pw, B, 1, ol)
        o, get = guarded(ol)
        rc = L.kripto_scrypt(d, 0, N, R, P, pw, len(pw), salt, len(salt), o, ol)
        got, ok = get()
        if rc or got != want or not ok:
            return {'hash': hn, 'N': N, 'r': R, 'p': P, 'password': pw.hex(), 'salt': salt.hex(), 'length': ol, 'got': got.hex(), 'expected': want.hex()}
    return None


def scrypt_task(what):
    G = Group('scrypt: ' + what, scrypt_native)
    if what == 'core':
        G.prove('Salsa20/8 core', core_lemma, optional=True)
        for r in (1, 2, 3, 8):
            G.prove('BlockMix, r = %d, over any core' % r, lambda: blockmix_lemma(r), optional=True)
    elif what == 'ROMix':
        for r, n in ((1, 2), (2, 2), (1, 4)) + (((3, 4),) if THOROUGH else ()):
            G.prove('ROMix, r = %d, N = %d, over any BlockMix' % (r, n), lambda: romix_lemma(r, n), optional=True)
    else:
        for n, r, p, ol in ((2, 1, 1, 1), (4, 1, 2, 33), (8, 2, 3, 64), (16, 8, 1, 20), (2, 3, 5, 7)):
            G.prove('N = %d, r = %d, p = %d, %d bytes, over any PBKDF2 and ROMix' % (n, r, p, ol), lambda: soft(scrypt_whole)(n, r, p, ol, True), optional=True)
    return G.close(None, 'native comparison with OpenSSL through hashlib.scrypt')


def params():
    """costs that cannot be represented are refused without touching the output"""
    fns = set()
    for n, r, p in ((2, 0, 1), (2, 1, 0), (2, 1 << 24, 1), (2, 1, 1 << 26), (1 << 58, 1, 1), (2, 1 << 20, 1 << 20), ((1 << 64) - 2, 1, 1)):
        s = S(['scrypt', 'pbkdf2', 'mac'])
        M = fake.Mac(s.m, s.st, maxtag=32)
        P, Q = s.inbuf('pw', s.data('pw', 3)), s.inbuf('salt', s.data('salt', 3))
        out = s.buf('o', 16, 'var', True)
        v = s('kripto_scrypt', M.desc, 7, n, r, p, P, 3, Q, 3, out, 16)
        if v in (0, None):
            raise Mismatch('N = %d, r = %d, p = %d returns %r' % (n, r, p, v))
        fns |= set(s.m.functions)
    return fns


def params_native():
    L = kdf_lib()
    d = L.kripto_mac_hmac(native.desc('kripto_hash_sha2_256'))
    for n, r, p in ((2, 0, 1), (2, 1, 0), (2, 1 << 24, 1), (2, 1, 1 << 26), (1 << 58, 1, 1), (2, 1 << 20, 1 << 20), ((1 << 64) - 2, 1, 1)):
        o, get = guarded(16)
        rc = L.kripto_scrypt(d, 0, n, r, p, b'pw', 2, b'sa', 2, o, 16)
        got, ok = get()
        if not rc or got != b'\xA5' * 16 or not ok:
            return {'N': n, 'r': r, 'p': p, 'returned': rc}
    return None


def params_task():
    G = Group('scrypt: costs whose sizes overflow', params_native)
    G.prove('refused', params)
    return G.close(None, 'native runs')


def diff_task(name, fn, seed):
    from kv.run import Ob
    ok, v = native.isolated(fn, seed, timeout=200)
    if ok and v is None:
        return [Ob('%s against hashlib, seed %d' % (name, seed), 'bounded', bound='random native runs')]
    if ok or native.crash(v):
        return [Ob('%s against hashlib' % name, 'violated', str(v), replay={'input': v})]
    return [Ob('%s against hashlib' % name, 'unknown', str(v))]


def tasks():
    ts = [('pbkdf2 %d' % x, pbkdf2_task, (x,), 300) for x in (0,) + XS]
    ts += [('scrypt ' + w, scrypt_task, (w,), 300) for w in ('core', 'ROMix', 'whole')]
    ts += [('scrypt params', params_task, (), 60)]
    for sd in range(1, 2 + 3 * THOROUGH):
        ts += [('pbkdf2 native', diff_task, ('PBKDF2', pbkdf2_native, sd + run.SEED), 250), ('scrypt native', diff_task, ('scrypt', scrypt_native, sd + run.SEED), 250)]
    return ts


ASSUME = ['the MAC is a contract (kv/fake.py): an uninterpreted function of rounds, key, tag length and message; that the real MACs meet it is P07',
          'iteration counts: proved for every count by induction over the iteration loop; the number of output blocks is enumerated (up to 4, and 300 for short tags), longer outputs compared natively (66000 blocks)',
          'ROMix proved for N up to 4 and r up to 2 over any BlockMix, BlockMix for r in 1, 2, 3, 8 over any core, the core for all inputs; other costs compared natively with hashlib.scrypt',
          'password of at least one byte (asserted by the MAC wrapper); out_len at least 1; fewer than 2^32 output blocks; N a power of two above 1']


def main():
    native.path()
    run.finish('P09', run.run_tasks(tasks(), deadline=600), assumptions=ASSUME)


if __name__ == '__main__':
    main()

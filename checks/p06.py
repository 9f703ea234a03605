"""P06: CBC, CFB, OFB, CTR and ECB over any block cipher."""
import ctypes
import random
import time
import traceback
from kv import fake, fold, native, run
from kv import terms as T
from kv.machine import Violation, Unsupported, Budget
from kv.run import Ob
from kv.scen import S, same, decide, Mismatch
from kv.spec.modes import MODES, MACHINES

SIZES = (4, 8, 16, 32, 64, 128)
REAL = {4: 'kripto_block_simon32', 8: 'kripto_block_des', 16: 'kripto_block_rijndael128', 32: 'kripto_block_threefish256', 64: 'kripto_block_threefish512', 128: 'kripto_block_threefish1024'}
STREAM = ('cfb', 'ofb', 'ctr')


# ---------------------------------------------------------------- native
def native_run(mode, bs, key, iv, pieces, rounds=0):
    """pieces: (op, data); the real mode over a real cipher against the definition over the same cipher"""
    L = native.load()
    blk = native.desc(REAL[bs])
    mk = getattr(L, 'kripto_stream_' + mode)
    mk.restype = ctypes.c_void_p
    mk.argtypes = [ctypes.c_void_p]
    d = mk(blk)
    s = L.kripto_stream_create(d, rounds, key, len(key), iv or None, len(iv))
    b = L.kripto_block_create(blk, rounds, key, len(key))
    E, D = block_fns(L, b, bs)
    out = b''
    data = b''
    op = pieces[0][0]
    for o, x in pieces:
        buf = ctypes.create_string_buffer(x, len(x)) if x else ctypes.create_string_buffer(1)
        if o == 'prng':
            L.kripto_stream_prng(s, buf, len(x))
        else:
            getattr(L, 'kripto_stream_' + o)(s, x, buf, len(x))
        out += buf.raw[:len(x)]
        data += bytes(len(x)) if o == 'prng' else x
    want = bytes(MODES[mode](E, D, list(iv) + [0] * (bs - len(iv)), list(data), bs, op != 'decrypt'))
    L.kripto_stream_destroy(s)
    if out != want:
        return {'mode': mode, 'cipher': REAL[bs], 'key': key.hex(), 'iv': iv.hex(), 'calls': [(o, x.hex()) for o, x in pieces], 'got': out.hex(), 'expected': want.hex()}
    return None


def block_fns(L, b, bs):
    def run_(f):
        def g(x):
            o = ctypes.create_string_buffer(bs)
            f(b, bytes(x), o)
            return list(o.raw)
        return g
    return run_(L.kripto_block_encrypt), run_(L.kripto_block_decrypt)


def native_search(mode, bs, cands=(), n=120):
    r = random.Random('%s%d' % (mode, bs))
    rb = lambda k: bytes(r.randrange(256) for _ in range(k))
    ops = ['encrypt', 'decrypt'] + (['prng'] if mode in STREAM else [])
    for i in range(n):
        key = rb(8)
        ivl = r.choice((0, 1, bs - 1, bs, bs)) if mode != 'ecb' else 0
        iv = rb(ivl)
        if i % 2 and iv:
            k = r.randrange(ivl + 1)
            iv = iv[:ivl - k] + b'\xff' * k
        op = ops[i % len(ops)]
        step = 1 if mode in STREAM else bs
        tot = r.randrange(1, 4 * bs // step + 2)
        cuts = []
        while tot:
            k = r.randrange(0, tot + 1)
            cuts.append(k * step)
            tot -= k
        x = native_run(mode, bs, key, iv, [(op, rb(c)) for c in cuts])
        if x:
            return x
    return None


# ---------------------------------------------------------------- symbolic
def setup(mode, bs, ivl, kl=5, rounds=3):
    s = S(['block', 'stream', 'stream/' + mode], lazy=True)
    b = fake.Block(s.m, s.st, bs)
    d = s('kripto_stream_' + mode, b.desc)
    k = s.buf('key', kl)
    iv = s.buf('iv', ivl) if ivl else 0
    o = s('kripto_stream_create', d, rounds, k, kl, iv, ivl)
    kid = fake.uf('blk.key', 8, [rounds, s.data('key', kl)])
    ivb = s.data('iv', ivl) + [0] * (bs - ivl)
    return s, b, d, o, (lambda x: b.E(kid, x)), (lambda x: b.D(kid, x)), ivb


def scenario(mode, bs, ivl, op, cuts, inplace):
    def f():
        s, b, d, o, E, D, iv = setup(mode, bs, ivl)
        out = []
        data = []
        for i, n in enumerate(cuts):
            x = s.data('d%d' % i, n)
            if op == 'prng':
                p = s.out(n)
                s('kripto_stream_prng', o, p, n)
                data += [0] * n
            else:
                if inplace:
                    p = q = s.buf('d%d' % i, n, x, ro=False)
                else:
                    q = s.inbuf('d%d' % i, x)
                    p = s.out(n)
                s('kripto_stream_' + op, o, q, p, n)
                data += x
            out += s.get(p, n)
        want = MODES[mode](E, D, iv, data, bs, op != 'decrypt')
        same(out, want, '%s %s' % (mode, op))
        return s.m.functions
    return f


def descriptor(mode, bs):
    def f():
        s, b, d, o, E, D, iv = setup(mode, bs, 0)
        for fn, arg, want in (('kripto_stream_maxkey', d, b.maxkey), ('kripto_stream_maxiv', d, 0 if mode == 'ecb' else bs), ('kripto_stream_multof', o, 1 if mode in STREAM else bs)):
            v = s(fn, arg)
            if v != want:
                raise Mismatch('%s gives %r, not %r' % (fn, v, want))
        if s('kripto_stream_getdesc', o) != d:
            raise Mismatch('kripto_stream_getdesc')
        return s.m.functions
    return f


def cutlists(mode, bs):
    """splits of the data into calls, for the bounded stand-in"""
    if mode in STREAM:
        n = 2 * bs + 3 if bs <= 16 else bs + 3
        out = [(a, n - a) for a in ((0, 1, 2, bs // 2, bs - 1, bs, bs + 1) if bs > 8 else range(n + 1))]
        out += [(bs - 1, 2, 1), (bs, 0, 3), (1, bs - 1, 2), tuple([1] * (bs + 2))]
    else:
        out = [(), (bs,), (bs, bs), (3 * bs,), (bs, 2 * bs), (2 * bs, bs), (0, bs, 0, bs), (2 * bs, 2 * bs)]
    return out


# ---------------------------------------------------------------- induction
def mkfold(mode, bs, op):
    s = S(['block', 'stream', 'stream/' + mode], lazy=True)
    b = fake.Block(s.m, s.st, bs)
    d = s('kripto_stream_' + mode, b.desc)
    st0 = s.st.fork()
    spec = MACHINES[mode](bs, op != 'decrypt', b.E, b.D)
    if op == 'prng':
        step = spec.step
        spec.step = lambda sg, t, x: step(sg, t, [0] * len(x))

    def fresh():
        q = S.__new__(S)
        q.m, q.st, q.n = s.m, st0.fork(), 0
        return q

    def make(g, ivl=bs if mode != 'ecb' else 0, iv=None):
        q = fresh()
        key = g('key', 5)
        iv = (g('iv', ivl) if iv is None else iv)
        o = q('kripto_stream_create', d, 3, q.inbuf('key', key), 5, q.inbuf('iv', iv) if ivl else 0, ivl)
        return q, o, spec.init(fake.uf('blk.key', 8, [3, key]), iv + [0] * (bs - len(iv)))

    def feed(q, o, x):
        p = q.out(len(x))
        if op == 'prng':
            q('kripto_stream_prng', o, p, len(x))
        else:
            q('kripto_stream_' + op, o, q.inbuf('x', x), p, len(x))
        return q.get(p, len(x))
    return fold.Fold('%s.%s.%d' % (mode, op, bs), make, feed, spec, runs=3, cycles=1, concrete=True)


def calls(op):
    if op == 'prng':
        return [(('out',), lambda q, h, ps, n: q('kripto_stream_prng', h, ps[0], n))]
    return [(('in', 'out'), lambda q, h, ps, n: q('kripto_stream_' + op, h, ps[0], ps[1], n)),
            (('io',), lambda q, h, ps, n: q('kripto_stream_' + op, h, ps[0], ps[0], n))]


def short_iv(F, bs):
    """creating with a shorter initial value is creating with zeros appended"""
    iv = [T.var('iv[%d]' % i, 8) for i in range(bs)]
    g = lambda tag, n: [T.var('%s[%d]' % (tag, i), 8) for i in range(n)]
    for n in range(bs):
        a = F.make(g, n, iv[:n])
        b = F.make(g, bs, iv[:n] + [0] * (bs - n))
        if fold.snapshot(a[0].st) != fold.snapshot(b[0].st):
            raise Mismatch('initial value of %d bytes' % n)
    return a[0].m.functions


def inverse(mode, bs):
    """over the definition: decrypting what encryption gave returns the data and reaches the same state"""
    def f():
        s = S(['memory'])
        b = fake.Block(s.m, s.st, bs)
        e, d = MACHINES[mode](bs, True, b.E, b.D), MACHINES[mode](bs, False, b.E, b.D)
        for u in range(e.P):
            sg = [T.var('s%d[%d]' % (u, i), 8) for i in range(8 + 2 * bs)]
            x = [T.var('x%d[%d]' % (u, i), 8) for i in range(e.unit)]
            s1, y = e.step(sg, u, x)
            s2, z = d.step(sg, u, y)
            same(z, x, 'decrypted data')
            same(s2, s1, 'state after decryption')
    return f


def task(mode, bs, op):
    out = []
    nat = lambda c: native_search(mode, bs, c)
    name = '%s %s, block of %d bytes' % (mode, op, bs)
    if op == 'encrypt':
        out.append(decide('%s, block of %d bytes: descriptor' % (mode, bs), descriptor(mode, bs), nat))
        out.append(decide('%s, block of %d bytes: decryption inverts encryption (lemma over the definition)' % (mode, bs), inverse(mode, bs)))
    F = None

    def prove(what, fn, soft=False):
        """None when proved; otherwise the reason"""
        t = time.time()
        try:
            fns = fn()
            out.append(Ob('%s: %s' % (name, what), 'proved', secs=time.time() - t, functions=fns or F.functions, backend='terms, z3'))
            return None
        except (fold.NoTemplate, fold.NoLoop, Unsupported, Budget, NotImplementedError) as e:
            return (False, '%s: %s: %s' % (what, type(e).__name__, e))
        except (Mismatch, Violation) as e:
            return (True, '%s: %s' % (what, e))
        except Exception:
            return (False, '%s: %s' % (what, traceback.format_exc()[-1500:]))
    why = None
    loops = 0
    try:
        F = mkfold(mode, bs, op)
        F.discover()
    except (Mismatch, Violation) as e:
        why = (not isinstance(e, Unsupported), 'first runs: %s' % e)
    except Exception as e:
        why = (False, 'no invariant found: %s %s' % (type(e).__name__, e))
    if why is None:
        why = prove('from create through the first block', F.base)
    if why is None and mode != 'ecb' and op == 'encrypt':
        why = prove('initial values of every length', lambda: short_iv(F, bs))
    if why is None:
        for bufs, call in calls(op):
            w = prove('calls of every length from every state%s' % (', in place' if bufs == ('io',) else ''), lambda: fold.every_length(F, call, bufs) and None)
            if w is not None and not w[0]:
                loops = w[1]
                w = None
            why = why or w
        if why is None and loops:
            why = prove('one unit from every state', F.inductive)
    if why is None and not loops:
        return out
    # bounded stand-in
    t = time.time()
    bad = None
    n = 0
    for cuts in cutlists(mode, bs):
        for inplace in ((False, True) if op != 'prng' else (False,)):
            o = decide('%s, calls of %s bytes%s' % (name, '+'.join(map(str, cuts)) or 'no', ' in place' if inplace else ''), scenario(mode, bs, bs if mode != 'ecb' else 0, op, cuts, inplace), nat)
            n += 1
            if o.status in ('violated', 'unproved'):
                out.append(o)
                return out
    for ivl in (range(bs) if mode != 'ecb' and bs <= 16 else (0, 1, bs // 2, bs - 1) if mode != 'ecb' else ()):
        o = decide('%s, %d bytes of IV' % (name, ivl), scenario(mode, bs, ivl, op, (2 * bs,), False), nat)
        n += 1
        if o.status in ('violated', 'unproved'):
            out.append(o)
            return out
    if why is not None and why[0]:
        ok, cx = native.isolated(native_search, mode, bs, (), 400, timeout=120)
        if ok and cx or not ok and native.crash(cx):
            out.append(Ob(name, 'violated', '%s; on the real library: %s' % (why[1], cx), replay=cx))
        else:
            out.append(Ob(name, 'unproved', why[1], replay={'failed obligation': name, 'verifier output': why[1]}))
    else:
        out.append(Ob(name, 'bounded', (why[1] if why else loops), time.time() - t, bound='%d call patterns of up to 4 blocks, data symbolic' % n))
    return out


def tasks():
    ts = []
    for bs in reversed(SIZES):
        for mode in ('ctr', 'cfb', 'ofb', 'cbc', 'ecb'):
            for op in ('encrypt', 'decrypt', 'prng'):
                if op == 'prng' and mode not in STREAM:
                    continue
                ts.append(('%s %s %d' % (mode, op, bs), task, (mode, bs, op), 600))
    return ts


ASSUME = [
    'the block cipher is an uninterpreted pair of functions E, D with D(k,E(k,x)) = x = E(k,D(k,x)), fixed per (rounds, key); the real ciphers meet this contract (P01)',
    'block sizes: all sizes of the ciphers of the library (4, 8, 16, 32, 64, 128 bytes)',
]


def main():
    native.path()
    obs = run.run_tasks(tasks(), deadline=800)
    run.finish('P06', obs, assumptions=ASSUME)


if __name__ == '__main__':
    main()

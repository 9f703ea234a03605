"""P11: comparison of memory, verification of tags."""
import ctypes
import random
from kv import fold, native, run, smt
from kv import terms as T
from kv.machine import Ptr, Violation, Outcome, Unsupported
from kv.obl import Group
from kv.scen import S, same, Mismatch
from kv.fake import Mac, _Prim, uf, word


class Ae(_Prim):
    """tag: any function of everything the object was given"""
    kind = 'ae'

    def __init__(self, m, st, tag='aead'):
        _Prim.__init__(self, m, st, tag, ('create', 'recreate', 'crypt', 'crypt', 'header', 'tag_', 'destroy'), (64, 64, 255))

    def create(self, m, st, a):
        raise NotImplementedError

    recreate = crypt = header = create

    def tag_(self, m, st, a):
        s, p, n = a
        n0 = st.ghost.get((self.tag, s.obj), 0)
        if n0:
            raise Violation('precondition', 'tag taken twice', st)
        st.ghost[(self.tag, s.obj)] = 1
        st.put_bytes(p, uf(self.tag + '.tag', 256, [list(self.own(st, s))])[:n])


def eqbit(a, b):
    """all bytes equal"""
    return T.eq(word(a), word(b), 8 * len(a)) if a else 1


def nonzero(v, w):
    return T.not1(T.iszero(v, w))


def same_bit(got, want, what):
    if got == want:
        return
    r = smt.equal(T.mk([got]), T.mk([want]), 1)
    if r == 'no':
        raise Mismatch(what)
    if r != 'yes':
        raise Unsupported('solver gave up: ' + what)


def accepts(v, w, a, b, what):
    same_bit(nonzero(v, w), eqbit(a, b), what)


def no_branch(s):
    bad = []

    def rule(m, f, st, c):
        bad.append(f.name)
    s.m.on_branch = rule
    return bad


# ------------------------------------------------------------- the comparison
def native_equals():
    L = native.load()
    f = L.kripto_memory_equals
    f.restype = ctypes.c_ubyte
    f.argtypes = [ctypes.c_void_p, ctypes.c_void_p, ctypes.c_size_t]
    r = random.Random(2)
    for n in list(range(0, 140)) + [255, 256, 257, 511, 512, 1023, 1024, 4096, 65535, 65536, 65537]:
        a = bytes(r.randrange(256) for _ in range(n))
        if not f(a, ctypes.create_string_buffer(a, n or 1), n):
            return {'call': 'kripto_memory_equals', 'len': n, 'equal buffers': a[:64].hex(), 'returned': 0}
        pos = range(n) if n <= 520 else [0, 1, n // 2, 255, 256, 257, n - 2, n - 1]
        for i in pos:
            for d in (1, 2, 4, 8, 16, 32, 64, 128, 255, r.randrange(1, 256)):
                b = bytearray(a)
                b[i] ^= d
                if f(a, bytes(b), n):
                    return {'call': 'kripto_memory_equals', 'len': n, 'a': a[:600].hex(), 'b': bytes(b)[:600].hex(), 'differ at': i, 'returned': 'equal'}
        for _ in range(40 if n > 1 else 0):
            b = bytearray(a)
            d = r.randrange(1, 256)
            for i in r.sample(range(n), min(n, r.choice([2, 2, 2, 4, 16]))):
                b[i] ^= d
            if f(a, bytes(b), n):
                return {'call': 'kripto_memory_equals', 'len': n, 'a': a[:600].hex(), 'b': bytes(b)[:600].hex(), 'returned': 'equal'}
    # the same memory, and bytes past the length
    a = bytes(range(64))
    if not f(a, a[:32] + bytes(32), 32):
        return {'call': 'kripto_memory_equals', 'reads past': 32}
    return None


def equals_len(ns):
    def f():
        for n in ns:
            s = S(['memory'])
            bad = no_branch(s)
            a, b = s.data('a', n), s.data('b', n)
            v = s('kripto_memory_equals', s.inbuf('a', a), s.inbuf('b', b), n)
            accepts(v, 8, a, b, 'comparison of %d bytes' % n)
            if bad:
                raise Mismatch('a branch depends on the compared bytes (%d bytes)' % n)
        return s.m.functions
    return f


def equals_every():
    """loop rule: one iteration at any position of buffers of any length"""
    prof = {}
    for n in (3, 4):
        s = S(['memory'])
        pr = fold._Prof()
        s.m.loop_rule = pr.rule
        ps = [s.inbuf('a', s.data('a', n)), s.inbuf('b', s.data('b', n))]
        s('kripto_memory_equals', *ps, n)
        prof[n] = (pr, ps)
    cand = None
    for k in prof[3][0].order:
        a, b = prof[3][0].v[k], prof[4][0].v.get(k)
        if b is None or len(a) != 4 or len(b) != 5:
            continue
        fits = []
        for i in range(len(a[0])):
            va, vb = [x[i] for x in a], [x[i] for x in b]
            if all(type(x) is Ptr for x in va + vb):
                fit = fold._fit(va, vb, 1)
                w = [j for j, p in enumerate(prof[3][1]) if p.obj == va[0].obj]
                if fit is None or fit[1] != 1 or fit[2] or not w:
                    raise fold.NoLoop('pointer')
                fits.append(('ptr', w[0], fit[3]))
            elif all(type(x) is int for x in va + vb):
                fits.append(fold._fit(va, vb, 1) or ('acc',))
            else:
                fits.append(('acc',))
        cand = (k, fits)
        break
    if cand is None:
        raise fold.NoLoop('loop')
    key, fits = cand
    for mode in ('step', 'exit'):
        s = S(['memory'])
        L, C = T.var('len', 64), T.var('done', 64)
        a, b = s.data('a', 1), s.data('b', 1)
        ps = [s.inbuf('a', a), s.inbuf('b', b)]
        m = s.m
        bad = no_branch(s)
        m.solver = fold._Solver(('len', 'done'))
        accs = []
        tagv = [0]

        def fresh(w):
            tagv[0] += 1
            return T.var('acc%d' % tagv[0], w)

        def accbit(vals):
            x = ()
            for v, w in vals:
                x += tuple(T.bits(v, w))
            return nonzero(T.mk(x), len(x))
        state = {'n': 0}

        def stack(st):
            return sorted((o for o in st.objs.values() if o.kind == 'stack'), key=lambda o: o.id)

        def accvals(st, R, blk):
            out = [(R[d], t.w) for (d, t, _), f in zip(blk[0], fits) if f[0] == 'acc']
            for o in stack(st):
                out += [(c, 8) for c in o.cells if c is not None and not (type(c) is int and c == 0 and False)]
            return out

        def val(f, c, w):
            v = T.addn(((f[1], c), (f[2], L), (1, f[3] & ((1 << 64) - 1))), 64)
            return T.trunc(v, w) if w < 64 else v

        def rule(m, f, st, R, bn, blk):
            if (f.mod.name, f.name, bn) != key:
                return None
            R = list(R)
            if state['n'] == 0:
                state['n'] = 1
                if any(v != 0 for v, w in accvals(st, R, blk)):
                    raise Mismatch('the accumulator does not start at zero')
                for (d, t, _), ft in zip(blk[0], fits):
                    if ft[0] == 'int' and smt.equal(R[d], val(ft, 0, t.w), t.w) != 'yes':
                        raise fold.NoLoop('entry')
                c = C if mode == 'step' else L
                st = st.fork()
                for (d, t, _), ft in zip(blk[0], fits):
                    if ft[0] == 'acc':
                        R[d] = fresh(t.w)
                        accs.append((R[d], t.w))
                    elif ft[0] == 'ptr':
                        R[d] = Ptr(ps[ft[1]].obj, ft[2], c)
                    elif ft[0] == 'int':
                        R[d] = val(ft, c, t.w)
                for o in stack(st):
                    w = st.getw(o.id)
                    for i, x in enumerate(w.cells):
                        if x is not None:
                            w.cells[i] = fresh(8)
                            accs.append((w.cells[i], 8))
                for p in ps:
                    m.windows[p.obj] = c
                if mode == 'step':
                    st.pc = st.pc + [T.ult(C, L, 64)]
                return ('go', st, R)
            if mode == 'exit':
                raise Mismatch('the loop does not end at the length')
            for (d, t, _), ft in zip(blk[0], fits):
                if ft[0] == 'int' and smt.equal(R[d], val(ft, T.add(C, 1, 64), t.w), t.w, st.pc) != 'yes':
                    raise Mismatch('position in the loop')
                if ft[0] == 'ptr':
                    p = R[d]
                    if p.obj != ps[ft[1]].obj or smt.equal(T.addn(((1, p.sym or 0), (1, p.off & ((1 << 64) - 1))), 64), T.addn(((1, C), (1, ft[2] + 1)), 64), 64, st.pc) != 'yes':
                        raise Mismatch('position in the loop')
            got = accbit(accvals(st, R, blk))
            want = T.or2(accbit(accs), T.not1(eqbit(a, b)))
            same_bit(got, want, 'one iteration does not record exactly whether the bytes differ')
            return ('end', [Outcome(st, 'back', None)])
        m.loop_rule = rule
        outs = m.call(s.st, 'kripto_memory_equals', [ps[0], ps[1], L])
        m.windows.clear()
        for o in outs:
            if mode == 'step':
                if o.kind != 'back':
                    raise Mismatch('the comparison stops before the length')
            else:
                if o.kind != 'ret':
                    raise fold.NoLoop('exit')
                got, want = nonzero(o.val, 8), T.not1(accbit(accs))
                same_bit(got, want, 'the result is not whether the accumulator is zero')
        if not outs:
            raise fold.NoLoop('no outcome')
        # the only branch may be on the length
    return s.m.functions


def equals_task():
    G = Group('kripto_memory_equals', native_equals)
    G.prove('lengths 0..6', equals_len(list(range(0, 7))))
    G.prove('every length (loop rule)', equals_every, optional=True)
    return G.close(None, 'lengths 0..6 proved; native runs up to 65537 bytes')


# ------------------------------------------------------------- verification of tags
MACS = [('hmac(sha1)', 20, 20), ('omac(aes)', 16, 16), ('xcbc(aes)', 16, 16), ('kripto_mac_keccak1600', 20, 99), ('kripto_mac_keccak800', 20, 49),
        ('kripto_mac_skein256', 20, 32), ('kripto_mac_skein512', 20, 64), ('kripto_mac_skein1024', 20, 128)]


def mdesc(name):
    L = native.load()
    vp = ctypes.c_void_p

    def call(fn, *a):
        f = getattr(L, fn)
        f.restype = vp
        f.argtypes = [vp] * len(a)
        return f(*a)
    if name == 'hmac(sha1)':
        return call('kripto_mac_hmac', native.desc('kripto_hash_sha1'))
    if name == 'omac(aes)':
        return call('kripto_mac_omac', native.desc('kripto_block_rijndael128'))
    if name == 'xcbc(aes)':
        return call('kripto_mac_xcbc', native.desc('kripto_block_rijndael128'))
    if name == 'eax(aes)':
        return call('kripto_ae_eax', native.desc('kripto_block_rijndael128'))
    if name == 'eax2(aes)':
        return call('kripto_ae_eax2', call('kripto_stream_ctr', native.desc('kripto_block_rijndael128')), call('kripto_mac_omac', native.desc('kripto_block_rijndael128')))
    return native.desc(name)


def native_verify(ae):
    L = native.load()
    key = bytes(range(16))
    for name, klen, mx in ([('eax(aes)', 16, 16), ('eax2(aes)', 16, 16)] if ae else MACS):
        try:
            d = mdesc(name)
        except (AttributeError, ValueError):
            continue
        for n in sorted(set([1, 2, 4, 5, 8, 9, 12, 16, 17, 20, 32, 33, mx - 1, mx])):
            if n > mx:
                continue
            kk = key[:16]

            def verify(t, ln=None):
                if ae:
                    s = L.kripto_ae_create(d, 0, kk, 16, b'nonce', 5, n)
                    o = ctypes.create_string_buffer(5)
                    L.kripto_ae_encrypt(s, b'hello', o, 5)
                    if t is None:
                        x = ctypes.create_string_buffer(n)
                        L.kripto_ae_tag(s, x, n)
                        r = x.raw
                    else:
                        r = L.kripto_ae_verify(s, t, ln if ln is not None else n)
                    L.kripto_ae_destroy(s)
                else:
                    s = L.kripto_mac_create(d, 0, kk, 16, n)
                    L.kripto_mac_input(s, b'hello', 5)
                    if t is None:
                        x = ctypes.create_string_buffer(n)
                        L.kripto_mac_tag(s, x, n)
                        r = x.raw
                    else:
                        r = L.kripto_mac_verify(s, t, ln if ln is not None else n)
                    L.kripto_mac_destroy(s)
                return r
            t = verify(None)
            if not verify(t):
                return {'verify': name, 'tag': t.hex(), 'returned': 0, 'note': 'the right tag is refused'}
            for i in range(n):
                for bit in range(8):
                    b = bytearray(t)
                    b[i] ^= 1 << bit
                    if verify(bytes(b)):
                        return {'verify': name, 'tag': t.hex(), 'accepted': bytes(b).hex()}
            for i in range(n - 1):
                b = bytearray(t)
                b[i] ^= 0x55
                b[n - 1] ^= 0x55
                if verify(bytes(b)):
                    return {'verify': name, 'tag': t.hex(), 'accepted': bytes(b).hex()}
    return None


def verify_sym(kind, ns, contract=True):
    def equals(m, st, a):
        """contract of kripto_memory_equals: nonzero exactly if the bytes are equal"""
        if type(a[2]) is not int:
            raise Unsupported('length')
        x, y = [list(st.bytes_at(p, a[2])) for p in a[:2]]
        return T.zext((eqbit(x, y),), 1, 8) if eqbit(x, y) > 1 else eqbit(x, y)

    def f():
        for n in ns:
            s = S([kind])
            bad = no_branch(s)
            if contract:
                s.m.hooks['kripto_memory_equals'] = equals
            if kind == 'mac':
                fk = Mac(s.m, s.st, maxtag=0, maxkey=64)
                key = s.inbuf('key', s.data('key', 8))
                h = fk.create(s.m, s.st, [fk.desc, 0, key, 8, n])
                par = st_par = s.st.ghost[(fk.tag, h.obj)][0]
                want = fk.M(par, ())[:n]
            else:
                fk = Ae(s.m, s.st)
                h = fk.alloc(s.st, [1, 0, 0, 0] + s.data('key', 12))
                want = uf('aead.tag', 256, [list(fk.own(s.st, h))])[:n]
            leaks = []

            def scope(st, ob):
                if any(c is not None and type(c) is not int for c in ob.cells) and ob.size >= n and n > 8:
                    leaks.append(ob.name)
            t = s.data('tag', n)
            v = s('kripto_%s_verify' % kind, h, s.inbuf('tag', t), n)
            accepts(v, 32, want, t, 'kripto_%s_verify accepts other than the computed tag of %d bytes' % (kind, n))
            if bad:
                raise Mismatch('a branch of %s depends on the tag' % bad[0])
        return s.m.functions
    return f


def verify_task(kind):
    G = Group('kripto_%s_verify' % kind, lambda: native_verify(kind == 'ae'))
    G.prove('tags of 1..128 and 255 bytes, over the contract of kripto_memory_equals', verify_sym(kind, list(range(1, 129)) + [255]))
    G.prove('tags of 1..6 bytes, over the real kripto_memory_equals', verify_sym(kind, range(1, 7), False))
    return G.close(None, 'native runs over every MAC/AE of the library')


def tasks():
    return [('equals', equals_task, (), 400), ('mac', verify_task, ('mac',), 400), ('ae', verify_task, ('ae',), 400)]


ASSUME = ['the tag computed by a MAC or AE object is an uninterpreted function of what it was given (its value is the subject of P07 and P08)',
          'tags of 1..128 and 255 bytes: the largest tag of the library is 128 bytes (Skein-1024)',
          'constant time is stated over the source program (no branch condition and no address depends on the compared bytes); what the compiler and the processor do is outside']


def main():
    native.path()
    run.finish('P11', run.run_tasks(tasks(), deadline=700), assumptions=ASSUME)


if __name__ == '__main__':
    main()

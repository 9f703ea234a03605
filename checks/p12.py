"""P12: secrets are wiped before their memory is released."""
import ctypes
import random
from kv import drive, fold, forget, life, native, run, smt, subjects
from kv import terms as T
from kv.machine import Ptr, Outcome
from kv.obl import Group
from kv.scen import S, Mismatch


def native_search(x):
    return lambda: life.nat_life(x, life.pairs(x, True), True, True, False)


def task(name):
    forget.install()
    forget.NAMED[0] = life.named
    x = next(x for x in subjects.everything() if x.name == name)
    G = Group(name, native_search(x))
    if x.kind != 'call':
        G.prove('no byte freed by create, use, recreate, destroy or a failing allocation depends on key or data', lambda: life.lifetimes(x, life.pairs(x, run.THOROUGH), True, True))
    if hasattr(x, 'whole'):
        G.prove('no byte freed by the one-call form depends on key or data', lambda: life.oneshots(x, True, True))
    return G.close(None, 'native runs with two keys, comparing all freed memory')


# ------------------------------------------------------------ kripto_memory_wipe
def wipe_native():
    L = native.load()
    f = L.kripto_memory_wipe
    f.restype, f.argtypes = None, [ctypes.c_void_p, ctypes.c_size_t]
    r = random.Random(4)
    for n in list(range(0, 300)) + [511, 512, 1000, 4096, 65535, 65536, 65537, 200000]:
        for off in range(0, 17 if n < 70 else 2):
            a = bytes(r.randrange(1, 256) for _ in range(n + 64))
            b = ctypes.create_string_buffer(a, n + 64)
            f(ctypes.addressof(b) + 16 + off, n)
            if b.raw != a[:16 + off] + bytes(n) + a[16 + off + n:]:
                return {'call': 'kripto_memory_wipe', 'len': n, 'offset': off, 'wrong byte at': [i for i in range(n + 64) if b.raw[i] != (a[:16 + off] + bytes(n) + a[16 + off + n:])[i]][:4]}
    return None


def wipe_len(ns):
    for n in ns:
        s = S(['memory'])
        p = s.buf('x', n + 2, 'var', ro=False)
        before = list(s.st.get(p.obj).cells)
        s('kripto_memory_wipe', Ptr(p.obj, 1), n)
        c = s.st.get(p.obj).cells
        if list(c[1:n + 1]) != [0] * n:
            raise Mismatch('%d bytes: not all are zero' % n)
        if c[0] != before[0] or c[n + 1] != before[n + 1]:
            raise Mismatch('%d bytes: wrote outside' % n)
    return s.m.functions


def wipe_every():
    """loop rule: one iteration at any position of a buffer of any length"""
    prof = {}
    for n in (3, 4):
        s = S(['memory'])
        pr = fold._Prof()
        s.m.loop_rule = pr.rule
        p = s.buf('x', n, 'var', ro=False)
        s('kripto_memory_wipe', p, n)
        prof[n] = (pr, p)
    if len(prof[3][0].order) != 1:
        raise fold.NoLoop('loops')
    key = prof[3][0].order[0]
    a, b = prof[3][0].v[key], prof[4][0].v.get(key)
    if b is None or len(a) != 4 or len(b) != 5:
        raise fold.NoLoop('iterations')
    fits = [fold._fit([x[i] for x in a], [x[i] for x in b], 1) for i in range(len(a[0]))]
    if None in fits:
        raise fold.NoLoop('template')
    for i, ft in enumerate(fits):
        if ft[0] == 'ptr' and (ft[1] != 1 or ft[2]):
            raise fold.NoLoop('pointer')
    M = (1 << 64) - 1
    for mode in ('step', 'exit'):
        s = S(['memory'])
        L, C = T.var('len', 64), T.var('done', 64)
        p = s.buf('x', 1, 'var', ro=False)
        state = {'n': 0}

        def val(f, c, w):
            v = T.addn(((f[1], c), (f[2], L), (1, f[3] & M)), 64)
            return T.trunc(v, w) if w < 64 else v

        def at(R, blk, c, pc):
            for (d, t, _), ft in zip(blk[0], fits):
                if type(R[d]) is Ptr:
                    q = R[d]
                    if q.obj != p.obj or smt.equal(T.addn(((1, q.sym or 0), (1, q.off & M)), 64), T.addn(((1, c), (1, ft[3])), 64) if c != 0 else ft[3], 64, pc) != 'yes':
                        return False
                elif smt.equal(R[d], val(ft, c, t.w), t.w, pc) != 'yes':
                    return False
            return True

        def rule(m, f, st, R, bn, blk):
            if (f.mod.name, f.name, bn) != key:
                return None
            R = list(R)
            if state['n'] == 0:
                state['n'] = 1
                if not at(R, blk, 0, ()):
                    raise fold.NoLoop('entry')
                c = C if mode == 'step' else L
                st = st.fork()
                for (d, t, _), ft in zip(blk[0], fits):
                    R[d] = Ptr(p.obj, ft[3], c) if type(R[d]) is Ptr else val(ft, c, t.w)
                m.windows[p.obj] = c
                if mode == 'step':
                    st.pc = st.pc + [T.ult(C, L, 64)]
                return ('go', st, R)
            if mode == 'exit':
                raise Mismatch('the loop does not end at the length')
            if not at(R, blk, T.add(C, 1, 64), st.pc):
                raise Mismatch('position in the loop')
            if st.get(p.obj).cells[0] != 0:
                raise Mismatch('an iteration leaves its byte')
            return ('end', [Outcome(st, 'back', None)])
        s.m.loop_rule = rule
        outs = s.m.call(s.st, 'kripto_memory_wipe', [p, L])
        s.m.windows.clear()
        for o in outs:
            if o.kind != ('back' if mode == 'step' else 'ret'):
                raise Mismatch('the loop stops before the length')
        if not outs:
            raise fold.NoLoop('no outcome')
    return s.m.functions


def wipe_task():
    G = Group('kripto_memory_wipe', wipe_native)
    G.prove('lengths 0..70, 1000', lambda: wipe_len(list(range(71)) + [127, 128, 129, 255, 256, 257, 1000]))
    G.prove('every length (loop rule)', wipe_every, optional=True)
    return G.close(None, 'lengths 0..70 and some longer proved; native runs up to 200000 bytes')


ORDER = ('block blowfish', 'stream keccak', 'mac keccak', 'hash keccak', 'block des', 'block twofish', 'block')


def tasks():
    xs = [x.name for x in subjects.everything()]
    xs.sort(key=lambda n: next((i for i, o in enumerate(ORDER) if n.startswith(o)), 9))
    return [('wipe', wipe_task, (), 200)] + [(n, task, (n,), 400) for n in xs]


ASSUME = ['the values of the data are forgotten (kv/forget.py): a byte counts as depending on a secret when any of its bits was computed from a key, message or other data byte; it is clean when it is a constant or depends on nonce, salt or tweak only',
          'control flow is followed exactly for the parameter lengths and round counts listed in kv/subjects.py',
          'the primitives below a mode, MAC or AE are contracts (kv/fake.py) that wipe and free their own object; each real primitive is shown to meet this contract as a subject of its own',
          'heap memory only, as the property states: bytes left in registers or on the stack are not examined; that a compiler keeps the volatile stores of kripto_memory_wipe is assumed']


def main():
    native.path()
    drive.path()
    run.finish('P12', run.run_tasks(tasks(), deadline=800), assumptions=ASSUME)


if __name__ == '__main__':
    main()

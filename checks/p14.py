"""P14: memory safety, exact output regions, no undefined arithmetic."""
import time
from kv.run import Ob
from kv import asan, drive, forget, life, native, run, subjects
from kv.machine import Ptr, Violation
from kv.obl import Group
from kv.scen import Mismatch

SLOW = {'block blowfish': 12, 'block twofish': 12, 'hash keccak1600': 20, 'hash keccak800': 20, 'mac keccak1600': 20, 'mac keccak800': 20, 'stream keccak1600': 16, 'stream keccak800': 30}


def params(x):
    """every length; fewer of the slow subjects in the quick tier"""
    a = list(x.cfgs)
    rest = [c for c in x.all if c not in a]
    if not run.THOROUGH:
        n = SLOW.get(x.name, 160)
        if len(rest) > n:
            rest = rest[::(len(rest) + n - 1) // n]
    return a + rest


def one(x, cfg):
    s = x.start()
    base = life.live(s)
    h = x.create(s, cfg)
    if not isinstance(h, Ptr):
        raise Mismatch('create fails')
    for nm, op in x.ops(cfg):
        try:
            op(s, h, 'a')
        except Violation as e:
            raise Mismatch('%s %r, %s: %s: %s' % (x.name, cfg, nm, e.kind, e))
    x.release(s, h)
    return s.m.functions


def every(x, cfgs):
    fns = set()
    for c in cfgs:
        try:
            fns |= one(x, c)
        except Violation as e:
            raise Mismatch('%s %r: %s: %s' % (x.name, c, e.kind, e))
    return fns


def once(x):
    fns = set()
    for cfg, n in life.wholes(x):
        s = x.start()
        try:
            r, o, ln = x.whole(s, cfg, n)
        except Violation as e:
            raise Mismatch('%s, one call, %r, %d bytes: %s: %s' % (x.name, cfg, n, e.kind, e))
        s.get(o, ln)
        fns |= s.m.functions
    return fns


def task(name, part, parts):
    forget.install(True)
    x = next(x for x in subjects.everything() if x.name == name)
    cfgs = params(x)[part::parts]
    G = Group(name + (' (%d of %d)' % (part + 1, parts) if parts > 1 else ''), lambda: asan.search(name, cfgs))
    if x.kind != 'call':
        G.prove('every access inside its object, initialised, no overflow or oversized shift: %d parameter sets' % len(cfgs), lambda: every(x, cfgs))
    if hasattr(x, 'whole') and part == 0:
        G.prove('the one-call form', lambda: once(x))
    t = time.time()
    cx = asan.search(name, cfgs) if G.fail is None else None
    if cx:
        G.obs.append(Ob(G.name + ': sanitizers', 'violated', str(cx), time.time() - t, replay={'input': cx}))
    elif G.fail is None:
        G.obs.append(Ob(G.name + ': sanitizers', 'bounded', '', time.time() - t, bound='one run of each of the %d parameter sets' % len(cfgs)))
    return G.close(None, 'native runs under AddressSanitizer and UndefinedBehaviorSanitizer')


ORDER = ('block blowfish', 'block twofish', 'stream keccak', 'mac keccak', 'hash keccak', 'block des', 'block')


def tasks():
    xs = [x.name for x in subjects.everything()]
    xs.sort(key=lambda n: next((i for i, o in enumerate(ORDER) if n.startswith(o)), 9))
    ts = []
    for n in xs:
        k = 4 if n in SLOW else 1
        ts += [(n, task, (n, i, k), 500) for i in range(k)]
    return ts


ASSUME = ['the values of the data are forgotten (kv/forget.py): what is shown holds for every key, nonce, salt, tweak and message; control flow is followed exactly for the parameter lengths and round counts enumerated',
          'messages: a script of inputs of 0, 3, 5 and a block of bytes, and outputs; the unbounded-length arguments for the hashes, MACs and modes are in P04, P06, P07 (their proofs carry the same memory obligations)',
          'parameters within the documented limits; round counts the code does not support are preconditions (DESIGN.md)',
          'signed overflow is an obligation wherever the operands are narrower than the type or constant; a left shift of an int into its sign bit (uint8_t << 24, in 3way.c, rijndael.c, sm4.c) is taken as the compilers define it; full-width signed operands are covered by the sanitizer runs only',
          'alignment of accesses is not checked']


def main():
    native.path()
    asan.path()
    run.finish('P14', run.run_tasks(tasks(), deadline=800), assumptions=ASSUME)


if __name__ == '__main__':
    main()

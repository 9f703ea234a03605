"""P03: re-creating an object equals creating a fresh one."""
import multiprocessing
from kv import drive, forget, life, native, reuse, run, subjects
from kv.machine import Unsupported, Violation
from kv.obl import Group
from kv.scen import Mismatch, Undecided


def subject(name):
    return next(x for x in subjects.everything() if x.name == name)


def native_search(x):
    return lambda: life.nat_life(x, life.pairs(x, True), False, False, True)


def forgetful(name, todo):
    """in a child process: the abstraction is for good"""
    forget.install()
    p = {}
    fns = reuse.noninterference(subject(name), todo, p)
    return fns, p


def task(name):
    x = subject(name)
    G = Group(name, native_search(x))
    todo = life.pairs(x, run.THOROUGH)
    got = {}

    def first():
        ok, v = native.isolated(child, name, todo, timeout=300)
        if not ok:
            raise Unsupported(v)
        if v[0] == 'mismatch':
            raise Mismatch(v[1])
        if v[0] != 'ok':
            raise Unsupported(v[1])
        got['p'] = v[2]
        return v[1]

    def second():
        # exact values: by far the slower half, and the same code whatever the round count
        n = 2 if not run.THOROUGH else 8
        ok, v = native.isolated(child2, name, todo[:n], got['p'], timeout=60 if not run.THOROUGH else 500)
        if not ok:
            raise Unsupported(v)
        if v[0] == 'mismatch':
            raise Mismatch(v[1])
        if v[0] != 'ok':
            raise Unsupported(v[1])
        return v[1]
    G.prove('nothing of the earlier life is read after recreate', first)
    if got:
        G.prove('recreate leaves the state create makes', second, optional=True)
    return G.close(None, 'equality of the values: native runs of every pair of parameters')


def child(name, todo):
    try:
        return ('ok',) + forgetful(name, todo)
    except (Mismatch, Violation) as e:
        return ('unsupported' if isinstance(e, Undecided) else 'mismatch'), str(e)
    except (Unsupported, NotImplementedError) as e:
        return 'unsupported', str(e)


def child2(name, todo, poisoned):
    try:
        return 'ok', reuse.equal_state(subject(name), todo, poisoned)
    except (Mismatch, Violation) as e:
        return ('unsupported' if isinstance(e, Undecided) else 'mismatch'), str(e)
    except (Unsupported, NotImplementedError, MemoryError) as e:
        return 'unsupported', str(e) or 'memory'


ORDER = ('block blowfish', 'stream keccak', 'mac keccak', 'hash keccak', 'block des', 'block twofish', 'block')


def tasks():
    xs = [x.name for x in subjects.everything() if x.kind != 'call']
    xs.sort(key=lambda n: next((i for i, o in enumerate(ORDER) if n.startswith(o)), 9))
    return [(n, task, (n,), 500) for n in xs]


ASSUME = ['histories: an object created with parameters A, used by the first k operations of a script of inputs, outputs and tweaks, re-created with parameters B (pairs of kv/life.py: grown, shrunk, other round counts); the data of both lives is arbitrary',
          'a byte that differs from a fresh object\'s, or that was computed from the earlier life, is taken away; the operations of the new life must then never read it',
          'that the remaining bytes have the values a fresh creation gives is proved by exact terms where listed, otherwise by native runs (listed under bounded); there the Keccak permutation, Threefish and the Blowfish encryption inside set-up are any function of the bytes they are given']


def main():
    native.path()
    drive.path()
    run.finish('P03', run.run_tasks(tasks(), deadline=800), assumptions=ASSUME)


if __name__ == '__main__':
    main()

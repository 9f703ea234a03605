"""P13: failing allocations, and release of everything."""
from kv import drive, forget, life, native, run, subjects
from kv.obl import Group


def native_search(x):
    return lambda: life.nat_life(x, life.pairs(x, True), True, False, False)


def task(name):
    forget.install()
    x = next(x for x in subjects.everything() if x.name == name)
    G = Group(name, native_search(x))
    if x.kind != 'call':
        G.prove('every allocation of create and recreate failing; destroy releases everything', lambda: life.lifetimes(x, life.pairs(x, run.THOROUGH), True, False))
    if hasattr(x, 'whole'):
        G.prove('every allocation of the one-call form failing', lambda: life.oneshots(x, True, False))
    return G.close(None, 'native runs with every allocation failing')


ORDER = ('block blowfish', 'block twofish', 'stream keccak', 'mac keccak', 'block')


def tasks():
    xs = [x.name for x in subjects.everything()]
    xs.sort(key=lambda n: next((i for i, o in enumerate(ORDER) if n.startswith(o)), 9))
    return [(n, task, (n,), 400) for n in xs]


ASSUME = ['the values of the data are forgotten (kv/forget.py): what is shown holds for every key, nonce, salt and message; control flow is followed exactly for the parameter lengths and round counts listed in kv/subjects.py (all lengths at which the code takes another path)',
          'the primitives below a mode, MAC or AE are contracts (kv/fake.py) that make one allocation per object and may fail; each real primitive is shown to meet this contract as a subject of its own',
          'one allocation fails per call; descriptors handed to the user by kripto_mac_omac and the like are the user\'s to release']


def main():
    native.path()
    drive.path()
    run.finish('P13', run.run_tasks(tasks(), deadline=800), assumptions=ASSUME)


if __name__ == '__main__':
    main()

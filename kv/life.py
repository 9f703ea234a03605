"""Lives of objects: creation, use, re-creation, destruction, with allocations failing, for every kind of object.
The proofs run over kv.forget (every value of the data at once); the same scripts run on the real library (kv.drive)."""
from . import drive, forget, native, subjects
from .cipher import heap_objs
from .machine import PB, Ptr, Violation, Unsupported
from .scen import Mismatch, S


def pairs(x, full=False):
    """(old, new) parameters: grown, shrunk, other rounds"""
    c = x.cfgs
    if len(c) == 1:
        return [(c[0], c[0])]
    p = [(c[i], c[(i + 1) % len(c)]) for i in range(len(c))]
    p += [(c[-1 - i], c[i]) for i in range(len(c)) if c[-1 - i] != c[i]] if full else [(c[-1], c[0]), (c[0], c[-1]), (c[-2], c[0])]
    out = []
    for q in p:
        if q not in out:
            out.append(q)
    return out


def lens(x):
    b = getattr(x, 'bs', 16)
    return [0, 3, b, b + 5]


def wholes(x):
    if not hasattr(x, 'whole'):
        return []
    if x.kind == 'call':
        return [(c, 0) for c in x.cfgs]
    return [(c, n) for c in (x.cfgs[0], x.cfgs[-1]) for n in lens(x)]


def live(s):
    return {o.id for o in heap_objs(s.st)}


def what(x, s, base, where):
    left = [o.name for o in heap_objs(s.st) if o.id not in base]
    if left:
        raise Mismatch('%s: %d allocation(s) not released: %s' % (where, len(left), ', '.join(left[:4])))
    gone = [i for i in base if not s.st.get(i).alive]
    if gone:
        raise Mismatch('%s: released an object that is not its own' % where)


class Fail:
    """every allocation of a call failing in turn"""

    def __init__(self, s, on):
        self.s = s
        self.on = on
        self.tried = 0

    def step(self, where, fn, ok, base):
        s = self.s
        if self.on:
            n0 = s.st.nmalloc
            k = 0
            while True:
                keep = s.st
                s.st = keep.fork()
                s.m.fail_at = {n0 + k}
                try:
                    r = fn()
                    hit = s.st.nmalloc > n0 + k
                    if hit:
                        self.tried += 1
                        at = '%s, allocation %d failing' % (where, k)
                        if ok(r):
                            raise Mismatch('%s: success is reported' % at)
                        what(None, s, base, at)
                except Violation as e:
                    raise Mismatch('%s, allocation %d failing: %s: %s' % (where, k, e.kind, e))
                finally:
                    s.m.fail_at = None
                    s.st = keep
                if not hit:
                    break
                k += 1
        r = fn()
        if not ok(r):
            raise Mismatch('%s: failure is reported' % where)
        return r


isptr = lambda r: type(r) is Ptr
isnull = lambda r: type(r) is int and r == 0
first = lambda r: type(r[0]) is int and r[0] == 0


def start(x):
    """the set-up, with its own allocations failing"""
    s = S(list(x.rels), lazy=True)
    f = Fail(s, True)
    base = live(s)
    x.desc = f.step('descriptor', lambda: x.setup(s), isptr, base)
    return s


def lifetimes(x, todo, fails, wipe, hook=None):
    """scripts for the pairs of parameters in todo"""
    fns = set()
    for A, B in todo:
        s = start(x) if fails else x.start()
        if wipe:
            s.m.on_free = clean
        f = Fail(s, fails)
        base = live(s)
        where = '%s %r' % (x.name, A)
        h = f.step(where + ' create', lambda: x.create(s, A), isptr, base)
        for nm, op in x.ops(A):
            op(s, h, 'a')
        h = f.step(where + ' recreate %r' % (B,), lambda: x.recreate(s, h, B, 'b'), isptr, base)
        for nm, op in x.ops(B):
            op(s, h, 'c')
        x.release(s, h)
        what(x, s, base, where + ' destroy')
        # unused objects, too
        h = x.create(s, B, 'd')
        h = f.step(where + ' recreate %r' % (A,), lambda: x.recreate(s, h, A, 'e'), isptr, base)
        x.release(s, h)
        what(x, s, base, where + ' destroy')
        fns |= s.m.functions
    return fns


def oneshots(x, fails, wipe):
    fns = set()
    for cfg, n in wholes(x):
        s = x.start()
        if wipe:
            s.m.on_free = clean
        f = Fail(s, fails)
        base = live(s)
        where = '%s, one call, %r, %d bytes' % (x.name, cfg, n)
        r, o, ln = f.step(where, lambda: x.whole(s, cfg, n), first, base)
        s.get(o, ln)
        what(x, s, base, where)
        fns |= s.m.functions
    return fns


SECRET = 3


def clean(st, o):
    for i, c in enumerate(o.cells):
        if type(c) is tuple and max(c) >= SECRET:
            raise Mismatch('byte %d of %s (%d bytes) still depends on the key or the data when the memory is freed' % (i, o.name, o.size))


def named(name):
    return SECRET if drive.secret(name) else 2


# ------------------------------------------------------------------ on the real library
def nat_life(x, todo, fails, wipe, equal):
    L = drive.load()

    def script(A, B, k, seed):
        """returns (problem, log); k: failing allocation or None"""
        s = drive.N(L, seed)
        x.desc = x.setup(s)
        base = s.live()
        c0 = s.count()
        if k is not None:
            s.fail(c0 + k)

        def failed(r, where, want):
            if s.state():
                return '%s: %s' % (where, s.state())
            if k is not None and s.count() > c0 + k and not failed.done:
                failed.done = True
                if r:
                    return '%s: allocation %d fails and success is reported' % (where, k)
                if s.live() != base:
                    return '%s: allocation %d fails and %d allocations are not released' % (where, k, s.live() - base)
                return 'end'
            if not r:
                return '%s: failure without a failing allocation' % where
            return None
        failed.done = False
        h = x.create(s, A)
        e = failed(h, 'create %r' % (A,), base)
        if e:
            return e, s
        for nm, op in x.ops(A):
            op(s, h, 'a')
        h = x.recreate(s, h, B, 'b')
        e = failed(h, 'create %r, recreate %r' % (A, B), base)
        if e:
            return e, s
        outs = [bytes(op(s, h, 'c')) for nm, op in x.ops(B)]
        x.release(s, h)
        if s.state():
            return s.state(), s
        if s.live() != base:
            return 'create %r, recreate %r, destroy: %d allocations not released' % (A, B, s.live() - base), s
        g = s.guards()
        if g:
            return 'create %r, recreate %r: %s' % (A, B, g), s
        if equal:
            s2 = drive.N(L, seed)
            x.desc = x.setup(s2)
            h = x.create(s2, B, 'b')
            ref = [bytes(op(s2, h, 'c')) for nm, op in x.ops(B)]
            for (nm, _), a, b in zip(x.ops(B), outs, ref):
                if a != b:
                    return 'create %r, use, recreate %r: %s gives %s, a fresh object gives %s' % (A, B, nm, a.hex(), b.hex()), s
        return None, s

    def wrun(cfg, n, k, seed):
        s = drive.N(L, seed)
        x.desc = x.setup(s)
        base, c0 = s.live(), s.count()
        if k is not None:
            s.fail(c0 + k)
        r, o, ln = x.whole(s, cfg, n)
        where = 'one call, %r, %d bytes' % (cfg, n)
        if s.state():
            return where + ': ' + s.state(), s
        if s.live() != base:
            return '%s%s: %d allocations not released' % (where, '' if k is None else ', allocation %d fails' % k, s.live() - base), s
        if k is not None and s.count() > c0 + k:
            if r == 0:
                return '%s: allocation %d fails and success is reported' % (where, k), s
            return 'end', s
        if r:
            return '%s: failure without a failing allocation' % where, s
        return s.guards() and where + ': ' + s.guards(), s

    def run1(f, args):
        ks = [None]
        if fails:
            s = f(*args, None, 1)[1]
            ks += list(range(min(s.count(), 60)))
        for k in ks:
            e, s = f(*args, k, 1)
            if e and e != 'end':
                return e
            if wipe:
                l1 = drive.entries(s.log())
                e, s = f(*args, k, 2)
                l2 = drive.entries(s.log())
                for (i, a), (j, b) in zip(l1, l2):
                    if i != j or len(a) != len(b):
                        break
                    d = [q for q in range(len(a)) if a[q] != b[q]]
                    if d:
                        return '%r%s: memory of %d bytes is freed with bytes %s.. depending on the key or data: %s' % (
                            args, '' if k is None else ', allocation %d fails' % k, len(a), d[:4], a[d[0]:d[0] + 16].hex())
        return None
    def quiet(f, args):
        """in a child of its own, so that a crash names its input"""
        ok, v = native.isolated(run1, f, args, timeout=30)
        if ok:
            return v
        return '%r: %s' % (args, v) if native.crash(v) else None
    if x.kind != 'call':
        for A, B in todo:
            e = quiet(script, (A, B))
            if e:
                return {'object': x.name, 'what': e}
    for cfg, n in wholes(x):
        e = quiet(wrun, (cfg, n))
        if e:
            return {'object': x.name, 'what': e}
    return None

"""Scenarios: a sequence of API calls on the real code, compared with a specification term by term."""
import time
import traceback
from . import lib, native, smt
from . import terms as T
from .machine import Ptr, Violation, Unsupported, Budget
from .run import Ob


class Mismatch(Exception):
    def __init__(self, what, cands=()):
        Exception.__init__(self, what)
        self.cands = list(cands)


class Undecided(Mismatch, Unsupported):
    """neither proved nor refuted: no verdict"""

    def __init__(self, what):
        Mismatch.__init__(self, what)


class S:
    """a machine with its current state"""

    def __init__(self, rels, strict=True, lazy=False):
        T.reset()
        self.m = lib.machine(rels)
        self.m.strict_uninit = strict
        if lazy:
            from .fake import Lazy
            self.m.solver = Lazy
        self.st = self.m.state()
        self.n = 0
        self.bufs = []

    def __call__(self, fn, *args):
        self.st, v = self.m.call1(self.st, fn, list(args))
        return v

    def buf(self, name, n, fill='var', ro=None, kind='arg'):
        """object of exactly n bytes; inputs are read-only"""
        if ro is None:
            ro = fill is not None
        return lib.buf(self.st, name, n, fill, kind, ro)

    def data(self, name, n):
        return [T.var('%s[%d]' % (name, i), 8) for i in range(n)]

    def inbuf(self, name, cells):
        return lib.buf(self.st, name, len(cells), list(cells), ro=True)

    def out(self, n, name='out'):
        self.n += 1
        return lib.buf(self.st, '%s%d' % (name, self.n), n, None)

    def get(self, p, n):
        o = self.st.get(p.obj)
        for i in range(p.off, p.off + n):
            if o.cells[i] is None:
                raise Mismatch('byte %d of %s not written' % (i, o.name))
        return lib.getbuf(self.st, p, n)

    def branch(self, fn, *args):
        """outcomes of a call that may split"""
        return self.m.call(self.st, fn, list(args))


_known = set()
_gen = [None]


def same(got, want, what, assume=()):
    """byte lists equal, or Mismatch"""
    if len(got) != len(want):
        raise Mismatch('%s: %d bytes instead of %d' % (what, len(got), len(want)))
    for i, (a, b) in enumerate(zip(got, want)):
        if a == b:
            continue
        if not assume:
            if _gen[0] != T.GEN[0]:
                _known.clear()
                _gen[0] = T.GEN[0]
            if (a, b) in _known:
                continue
        if type(a) not in (int, tuple) or type(b) not in (int, tuple):
            raise Mismatch('%s: byte %d is %r' % (what, i, a))
        if not assume and T.sim_word(a, 8) != T.sim_word(b, 8):
            raise Mismatch('%s: byte %d differs' % (what, i))
        if T.prove_eq(a, b, 8):
            _known.add((a, b))
            continue
        r = smt.equal(a, b, 8, assume)
        if r == 'yes' and not assume:
            _known.add((a, b))
        if r != 'yes':
            if r == 'no':
                raise Mismatch('%s: byte %d differs' % (what, i))
            raise Undecided('%s: byte %d not shown equal (solver gave up)' % (what, i))


def decide(label, sym, nat=None, bound=None, nbound=''):
    """label: obligation name; sym(): proves or raises; nat(cands): None or a counterexample on the real library.
    bound: text when the symbolic run is complete only up to a bound"""
    t = time.time()
    try:
        r = sym()
        fns = r if r else ()
        return Ob(label, 'bounded' if bound else 'proved', secs=time.time() - t, functions=fns, bound=bound or '', backend='terms, z3')
    except (Mismatch, Violation) as e:
        why = '%s: %s' % (getattr(e, 'kind', 'mismatch'), e)
        cands = getattr(e, 'cands', [])
        hard = not isinstance(e, Undecided)
    except (Unsupported, Budget, NotImplementedError, RecursionError) as e:
        why = '%s: %s' % (type(e).__name__, e)
        cands = []
        hard = False
    except Exception:
        why = traceback.format_exc()[-1500:]
        cands = []
        hard = False
    cx = None
    if nat is not None:
        ok, v = native.isolated(nat, cands, timeout=120)
        cx = v if not ok or v is not None else None
        if not ok and not native.crash(v):
            cx = None
    if cx is not None:
        return Ob(label, 'violated', '%s; on the real library: %s' % (why, cx), time.time() - t, replay={'why': why, 'input': cx})
    if hard:
        return Ob(label, 'unproved', why, time.time() - t, replay={'failed obligation': label, 'verifier output': why})
    return Ob(label, 'bounded' if nat is not None else 'unknown', 'outside the verifier (%s); %s' % (why, nbound), time.time() - t, bound=nbound or 'native differential runs')

"""obligations of one subject: proved one after the other; what the prover cannot reach falls back to a bounded check"""
import time
import traceback
from . import fold, native
from .machine import Violation, Unsupported, Budget
from .run import Ob
from .scen import Mismatch


class Group:
    def __init__(self, name, nat=None):
        self.name = name
        self.nat = nat            # nat() -> None or a counterexample on the real library
        self.obs = []
        self.fail = None          # (hard, reason) of the first failed obligation
        self.soft = []
        self.functions = set()

    def prove(self, what, fn, optional=False):
        """fn() proves or raises; returns True when proved.  A soft failure (the prover cannot express it) of an optional
        obligation is remembered without stopping the others"""
        if self.fail is not None:
            return False
        t = time.time()
        try:
            r = fn()
            if r:
                self.functions |= set(r)
            self.obs.append(Ob('%s: %s' % (self.name, what), 'proved', secs=time.time() - t, functions=tuple(self.functions), backend='terms, z3'))
            return True
        except (fold.NoTemplate, fold.NoLoop, Unsupported, Budget, NotImplementedError, RecursionError) as e:
            why = (False, '%s: %s: %s' % (what, type(e).__name__, e))
        except (Mismatch, Violation) as e:
            why = (True, '%s: %s' % (what, e))
        except Exception:
            why = (False, '%s: %s' % (what, traceback.format_exc()[-1500:]))
        if optional and not why[0]:
            self.soft.append(why[1])
            return False
        self.fail = why
        return False

    def close(self, bounded=None, bound=''):
        """bounded() runs the bounded stand-in and raises Mismatch/Violation on a failure"""
        if self.fail is None and not self.soft:
            return self.obs
        t = time.time()
        hard = self.fail is not None and self.fail[0]
        why = self.fail[1] if self.fail else self.soft[0]
        if not hard and bounded is not None:
            try:
                bounded()
            except Unsupported as e:
                bound = 'native differential runs only (%s)' % str(e)[:200]
            except (Mismatch, Violation) as e:
                hard = True
                why = 'bounded check: %s' % e
            except Exception as e:
                bound = 'native differential runs only (%s: %s)' % (type(e).__name__, str(e)[:200])
        cx = None
        if self.nat is not None:
            ok, v = native.isolated(self.nat, timeout=150)
            if not ok and native.crash(v):
                cx = v
            elif ok and v is not None:
                cx = v
        if cx is not None:
            self.obs.append(Ob(self.name, 'violated', '%s; on the real library: %s' % (why, cx), time.time() - t, replay={'why': why, 'input': cx}))
        elif hard:
            self.obs.append(Ob(self.name, 'unproved', why, time.time() - t, replay={'failed obligation': self.name, 'verifier output': why}))
        else:
            self.obs.append(Ob(self.name, 'bounded' if bounded or self.nat else 'unknown', why, time.time() - t, bound=bound or 'native differential runs'))
        return self.obs

"""Inductive proof that a streaming object follows a specification for messages of every length.

The specification is a state machine: sigma (bytes), step(sigma, position, unit).  The layout of the code's state is
found by running it: for every position u of a period, every byte of every heap object is matched with a byte of sigma,
a constant, a pointer, or nothing (then it is left uninitialised, so that reading it fails).  The match is the invariant;
it is proved by execution from create for the first period and by induction from arbitrary sigma afterwards."""
import random
from . import terms as T
from .cipher import heap_objs
from .machine import Ptr, PB, Violation, Unsupported, Obj
from .scen import Mismatch, same


class NoTemplate(Exception):
    pass


def snapshot(st):
    objs = sorted(heap_objs(st), key=lambda o: o.id)
    rank = {o.id: i for i, o in enumerate(objs)}
    out = []
    for o in objs:
        cells = []
        for c in o.cells:
            if type(c) is PB:
                p = c.p
                cells.append(('p', rank[p.obj] if type(p) is Ptr and p.obj in rank else repr(p), p.off if type(p) is Ptr else 0, c.k))
            else:
                cells.append(c)
        out.append(cells)
    return out


def isp(c):
    return type(c) is tuple and c and c[0] == 'p'


def match(samples, words):
    """samples: [(snapshot, sigma)]; words: (start, length) runs of sigma that lie in memory in this order"""
    n = len(samples[0][1])
    shape = [len(o) for o in samples[0][0]]
    for snap, sig in samples:
        if [len(o) for o in snap] != shape:
            raise NoTemplate('the objects of the state vary')
    index = {}
    for j in range(n):
        index.setdefault(tuple(sig[j] for _, sig in samples), []).append(j)
    nxt = {}
    prv = {}
    for a, k in words:
        for j in range(a, a + k - 1):
            nxt[j] = j + 1
            prv[j + 1] = j
    tpl = []
    for oi, size in enumerate(shape):
        t = []
        cand = []
        for i in range(size):
            v = tuple(snap[oi][i] for snap, _ in samples)
            if any(x is None for x in v):
                cand.append(('h',))
                continue
            if any(isp(x) for x in v):
                if len(set(v)) != 1:
                    raise NoTemplate('pointer in the state varies')
                cand.append(('k', v[0]))
                continue
            js = index.get(v, ())
            if len(set(v)) == 1 and type(v[0]) is int:
                cand.append(('c', v[0], js))
            elif js:
                cand.append(('s', js))
            elif any(type(x) is tuple for x in v):
                cand.append(('h',))
            else:
                cand.append(('h',))
        for i, c in enumerate(cand):
            if c[0] == 'h':
                t.append(None)
            elif c[0] == 'k':
                t.append(('k', c[1]))
            else:
                js = c[-1]
                p = t[i - 1] if i else None
                j = nxt.get(p[1]) if p is not None and p[0] == 's' else None
                if j is not None and j in js:
                    t.append(('s', j))
                elif c[0] == 'c':
                    t.append(('c', c[1]))
                elif len(js) == 1:
                    t.append(('s', js[0]))
                else:
                    # the start of a run that fits the following bytes best
                    best = None
                    for j in js:
                        k = 0
                        q = j
                        while i + k < size and q is not None and q in (cand[i + k][-1] if cand[i + k][0] in 'cs' else ()):
                            k += 1
                            q = nxt.get(q)
                        if best is None or k > best[0]:
                            best = (k, j)
                    t.append(('s', best[1]))
        # a run continues downwards over constant bytes too (first byte of a counter that happened to stay)
        for i in range(size - 2, -1, -1):
            if t[i] is not None and t[i][0] == 'c' and t[i + 1] is not None and t[i + 1][0] == 's':
                j = prv.get(t[i + 1][1])
                if j is not None and j in cand[i][-1]:
                    t[i] = ('s', j)
        tpl.append(t)
    return tpl


def install(st, tpl, sig):
    """state in which the heap is exactly the template over sigma"""
    st = st.fork()
    objs = sorted(heap_objs(st), key=lambda o: o.id)
    for o, t in zip(objs, tpl):
        w = st.getw(o.id)
        w.cells = [None if c is None else c[1] if c[0] == 'c' else sig[c[1]] if c[0] == 's' else old for c, old in zip(t, o.cells)]
    return st


def check(snap, tpl, sig, what):
    """is the heap an instance of the template over sigma"""
    if [len(o) for o in snap] != [len(t) for t in tpl]:
        raise Mismatch('%s: other heap objects' % what)
    for oi, (o, t) in enumerate(zip(snap, tpl)):
        for i, (x, c) in enumerate(zip(o, t)):
            if c is None:
                continue
            if c[0] == 'k':
                if x != c[1]:
                    raise Mismatch('%s: pointer at byte %d of object %d changed' % (what, i, oi))
            else:
                y = c[1] if c[0] == 'c' else sig[c[1]]
                if x is None or isp(x):
                    raise Mismatch('%s: byte %d of object %d of the state not set' % (what, i, oi))
                if x != y:
                    same([x], [y], '%s: state object %d offset %d' % (what, oi, i))


def instance(snap, tpl, sig):
    """is the heap an instance of the template"""
    try:
        check(snap, tpl, sig, 'state')
    except Mismatch:
        return False
    return True


class Fold:
    """spec: P (period in units), unit (bytes), init() -> sigma, step(sigma, t, x) -> (sigma, out), words; t is the number
    of units already taken, reduced to P..2P-1 from the second period on.
    make(gen) -> (S, handle, sigma0); feed(S, handle, x) -> out bytes"""

    def __init__(self, name, make, feed, spec, runs=2, cycles=2, concrete=False):
        self.name = name
        self.make, self.feed, self.spec = make, feed, spec
        self.runs, self.cycles, self.concrete = runs, cycles, concrete
        self.functions = set()
        self.vars = 0

    def gen(self, seed):
        if not self.concrete:
            return lambda tag, n: [T.var('%s.%s[%d]' % (seed, tag, i), 8) for i in range(n)]
        r = random.Random(seed)
        return lambda tag, n: [r.randrange(256) for _ in range(n)]

    def discover(self):
        P = self.spec.P
        self.samples = [[] for _ in range(2 * P)]
        self.states = [None] * (2 * P)
        self.pre = list(range(P))
        for k in range(self.runs):
            g = self.gen('%s%d' % (self.name, k))
            S, h, sig = self.make(g)
            for t in range(self.cycles * P + P):
                u = self.pos(t)
                self.samples[u].append((snapshot(S.st), list(sig)))
                if self.states[u] is None:
                    self.states[u] = (S, S.st.fork(), h)
                x = g('x%d' % t, self.spec.unit)
                out = self.feed(S, h, x)
                sig, want = self.spec.step(sig, u, x)
                same(out, want, 'output at unit %d' % t)
        self.tpl = [match(s, self.spec.words) for s in self.samples]
        # bytes of the definition's state that are constants in the first period
        self.pin = []
        for u in range(2 * P):
            sigs = [sig for _, sig in self.samples[u]]
            self.pin.append({j: v for j, v in enumerate(sigs[0]) if type(v) is int and len(sigs) > 2 and all(x[j] == v for x in sigs)} if u < P else {})

    def decided(self, name):
        """variables of the state conditions on which are decided exactly"""
        return False

    def pos(self, t):
        """position after t units: 0..P-1 in the first period, P..2P-1 later"""
        P = self.spec.P
        return t if t < P else P + t % P

    def positions(self):
        """every position whose states are not instances of another's"""
        return self.pre + list(range(self.spec.P, 2 * self.spec.P))

    def fresh(self, tag):
        self.vars += 1
        n = len(self.samples[0][0][1])
        return [T.var('%s%d[%d]' % (tag, self.vars, j), 8) for j in range(n)]

    def base(self, each=None):
        """from create through the first period with arbitrary data; each(S, h, sigma, t) is run on every state"""
        P = self.spec.P
        conc, self.concrete = self.concrete, False
        try:
            g = self.gen('base')
            S, h, sig = self.make(g)
        finally:
            self.concrete = conc
        self.functions = S.m.functions
        self.pre = []
        for t in range(P):
            for j, v in list(self.pin[t].items()):
                if sig[j] != v:
                    del self.pin[t][j]
            snap = snapshot(S.st)
            if not instance(snap, self.tpl[P + t], sig):
                check(snap, self.tpl[t], sig, 'state at unit %d' % t)
                self.pre.append(t)
            if each:
                each(S, h, sig, t)
            x = g('x%d' % t, self.spec.unit)
            out = self.feed(S, h, x)
            sig, want = self.spec.step(sig, t, x)
            same(out, want, 'output at unit %d' % t)
        check(snapshot(S.st), self.tpl[P], sig, 'state after the first period')

    def havoc(self, u, tag):
        """arbitrary state of the definition at a position"""
        sig = self.fresh(tag)
        for j, v in self.pin[u].items():
            sig[j] = v
        return sig

    def pinned(self, u, sig):
        for j, v in self.pin[u].items():
            same([sig[j]], [v], 'constant of the first period')

    def at(self, u, tag='V'):
        """(S, handle, sigma): an arbitrary state at position u"""
        S, st, h = self.states[u]
        sig = self.havoc(u, tag)
        S.st = install(st, self.tpl[u], sig)
        return S, h, sig

    def inductive(self, us=None, n=1):
        """from an arbitrary state at position u, one call with n units gives the specified output and the state at u+n"""
        for u in us if us is not None else self.positions():
            S, h, sig = self.at(u)
            x = [T.var('in%d[%d]' % (self.vars, i), 8) for i in range(n * self.spec.unit)]
            out = self.feed(S, h, x)
            want = []
            for i in range(n):
                sig, w = self.spec.step(sig, self.pos(u + i), x[i * self.spec.unit:(i + 1) * self.spec.unit])
                want += w
            same(out, want, 'output at position %d' % u)
            self.pinned(self.pos(u + n), sig)
            check(snapshot(S.st), self.tpl[self.pos(u + n)], sig, 'state after position %d' % u)
            self.functions |= S.m.functions


# ---------------------------------------------------------------- calls of every length
class NoLoop(Exception):
    pass


class _Solver:
    """decides conditions on position and length only; everything else counts as feasible"""

    def __init__(self, names, decided=None):
        self.names = names
        self.decided = decided or (lambda n: False)

    def own(self, b):
        v = tuple(T.bits(b, 1)) if type(b) is tuple else (b,)
        return all(n in self.names or self.decided(n) for n, _ in T.support([v]))

    def sat_bits(self, bits):
        from . import smt
        if any(b == 0 for b in bits):
            return False
        if not self.own(bits[-1]):
            return True
        return smt.sat_bits([b for b in bits if self.own(b)])


def _cells(v, rank):
    return v


class _Prof:
    """visits of every block during one call: (function, block) -> list of phi values"""

    def __init__(self):
        self.v = {}
        self.order = []

    def rule(self, m, f, st, R, bn, blk):
        if not blk[0]:
            return None
        k = (f.mod.name, f.name, bn)
        if k not in self.v:
            self.v[k] = []
            self.order.append(k)
        self.v[k].append([R[d] for d, _, _ in blk[0]])
        return None


def _fit(v3, v4, unit, P=None):
    """value at visit k of calls with 3 and 4 units as alpha*c + beta*L + gamma"""
    def num(x):
        return x.off if type(x) is Ptr else x
    a, b = v3, v4
    if all(type(x) is Ptr for x in a + b):
        if any(x.sym is not None for x in a + b):
            return None
        obj = 'ptr'
    elif all(type(x) is int for x in a + b):
        obj = 'int'
    else:
        if all(type(x) is type(a[0]) and x == a[0] for x in a + b):
            return ('same',)
        return None
    al = num(a[1]) - num(a[0])
    if any(num(a[i + 1]) - num(a[i]) != al for i in range(len(a) - 1)) or any(num(b[i + 1]) - num(b[i]) != al for i in range(len(b) - 1)):
        return None
    be = num(b[0]) - num(a[0])
    if al % unit or be % unit:
        return None
    return (obj, al // unit, be // unit, num(a[0]) - 3 * be)


def every_length(F, call, bufs):
    """F: a proved Fold.  call(S, h, ptrs, n): the API call with buffers ptrs and length n (int or term).
    bufs: ('in'|'out'|'io', ...) kinds of the buffers; 'io' is input and output at once.  Proves that one call with any number of units has the effect of
    that many calls with one unit."""
    P, unit = F.spec.P, F.spec.unit

    def mkbufs(S, n):
        out = []
        for i, k in enumerate(bufs):
            d = [T.var('pr%d.%d[%d]' % (F.vars, i, j), 8) for j in range(n)]
            if k == 'in':
                out.append(S.inbuf('src%d' % i, d))
            elif k == 'io':
                out.append(S.buf('srcdst%d' % i, n, d, ro=False))
            else:
                out.append(S.out(n, 'dst'))
        return out
    # profile
    profs = {}
    for n in (3, 4):
        S, h, sig = F.at(P)
        ps = mkbufs(S, n * unit)
        pr = _Prof()
        S.m.loop_rule = pr.rule
        try:
            call(S, h, ps, n * unit)
        finally:
            S.m.loop_rule = None
        profs[n] = (pr, ps)
    cand = None
    for k in profs[3][0].order:
        a, b = profs[3][0].v[k], profs[4][0].v.get(k)
        if b is None or len(a) != 4 or len(b) != 5:
            continue
        fits = []
        for i in range(len(a[0])):
            va, vb = [x[i] for x in a], [x[i] for x in b]
            fit = _fit(va, vb, unit)
            if fit is not None and fit[0] == 'ptr':
                ia = [j for j, p in enumerate(profs[3][1]) if p.obj == va[0].obj]
                ib = [j for j, p in enumerate(profs[4][1]) if p.obj == vb[0].obj]
                if ia and ia == ib and fit[1] == 1 and fit[2] == 0:
                    fit = ('ptr', 1, 0, fit[3], ia[0])
                elif fit[1] == 0 and fit[2] == 0 and va[0] == vb[0]:
                    fit = ('same',)
                else:
                    fit = None
            fits.append(fit)
        if all(f is not None for f in fits) and any(f[0] != 'same' for f in fits):
            cand = (k, fits)
            break
    if cand is None:
        raise NoLoop('no loop that takes one unit per iteration')
    (mod, fn, header), fits = cand
    sh = unit.bit_length() - 1
    if unit & (unit - 1):
        raise NoLoop('unit')
    names = ('len', 'done')
    L = T.shl(T.var('len', 64), sh, 64) if sh else T.var('len', 64)
    C = T.shl(T.var('done', 64), sh, 64) if sh else T.var('done', 64)
    if sh:
        # multiples of the unit: the low bits are zero
        L = T.mk((0,) * sh + T.var('len', 64 - sh))
        C = T.mk((0,) * sh + T.var('done', 64 - sh))

    def aff(fit, c, ps, w, old):
        if fit[0] == 'same':
            return old
        if fit[0] == 'ptr':
            return Ptr(ps[fit[4]].obj, fit[3], c) if type(c) is tuple else Ptr(ps[fit[4]].obj, fit[3] + c)
        v = T.addn(((fit[1], c), (fit[2], L), (1, fit[3] & ((1 << 64) - 1))), 64)
        return T.trunc(v, w) if w < 64 else v

    def eqv(x, y, w, pc):
        if type(x) is Ptr or type(y) is Ptr:
            if type(x) is not Ptr or type(y) is not Ptr or x.obj != y.obj:
                return False
            zx = T.addn(((1, x.sym if x.sym is not None else 0), (1, x.off & ((1 << 64) - 1))), 64)
            zy = T.addn(((1, y.sym if y.sym is not None else 0), (1, y.off & ((1 << 64) - 1))), 64)
            return eqv(zx, zy, 64, pc)
        if x == y:
            return True
        if type(x) not in (int, tuple) or type(y) not in (int, tuple):
            return False
        from . import smt
        return smt.equal(x, y, w, pc) == 'yes'

    entry = {}
    for u in F.positions():
        for mode in ('step', 'exit'):
            S, h, sig = F.at(u)
            ps = mkbufs(S, unit)
            m = S.m
            log = {'n': 0}
            start = snapshot(S.st)
            post = F.havoc(u, 'W')
            xin = [list(S.st.get(p.obj).cells) for p, k in zip(ps, bufs) if k in ('in', 'io')]
            sol = m.solver
            m.solver = _Solver(names, F.decided)

            def rule(m, f, st, R, bn, blk):
                if (f.mod.name, f.name, bn) != (mod, fn, header):
                    return None
                if log['n'] == 0:
                    log['n'] = 1
                    # arrival: nothing has happened yet
                    check_same(start, snapshot(st), 'before the loop')
                    for p, k in zip(ps, bufs):
                        if k == 'out' and any(c is not None for c in st.get(p.obj).cells) or k == 'io' and st.get(p.obj).cells != xin[0]:
                            raise NoLoop('output written before the loop')
                    phi = {d: (t, fit) for (d, t, _), fit in zip(blk[0], fits)}
                    for d, (t, fit) in phi.items():
                        if fit[0] != 'same' and not eqv(R[d], aff(fit, 0, ps, t.w if t.k == 'int' else 64, R[d]), t.w if t.k == 'int' else 64, st.pc):
                            raise NoLoop('loop variables at entry')
                    regs = [None if i in phi and phi[i][1][0] != 'same' else norm(v, ps) for i, v in enumerate(R)]
                    stk = sorted((o for o in st.objs.values() if o.kind == 'stack'), key=lambda o: o.id)
                    regs += [norm(c, ps) for o in stk for c in o.cells]
                    entry.setdefault(mode, []).append(regs)
                    st = install(st, F.tpl[u], post)
                    R = list(R)
                    c = C if mode == 'step' else L
                    for d, (t, fit) in phi.items():
                        R[d] = aff(fit, c, ps, t.w if t.k == 'int' else 64, R[d])
                    for p in ps:
                        m.windows[p.obj] = c
                    if mode == 'step':
                        st.pc = st.pc + [T.ult(C, L, 64), T.not1(T.ult(L, T.add(C, unit, 64), 64)), T.not1(T.ult(T.add(C, unit, 64), C, 64))]
                    log['stack'] = [(o.id, list(o.cells)) for o in stk]
                    return ('go', st, R)
                if mode == 'exit':
                    raise NoLoop('the loop does not end at the length')
                c2 = T.add(C, unit, 64)
                for (d, t, _), fit in zip(blk[0], fits):
                    if fit[0] == 'same':
                        if norm(R[d], ps) != norm(aff(fit, 0, ps, 0, R[d]), ps):
                            raise NoLoop('loop variable')
                    elif not eqv(R[d], aff(fit, c2, ps, t.w if t.k == 'int' else 64, None), t.w if t.k == 'int' else 64, st.pc):
                        raise Mismatch('a loop variable of %s loses track of the position in long calls' % fn)
                for oid, cells in log['stack']:
                    if oid in st.objs and st.objs[oid].cells != cells:
                        raise NoLoop('local memory changes in the loop')
                from .machine import Outcome
                return ('end', [Outcome(st, 'back', list(R))])
            m.loop_rule = rule
            try:
                outs = F_call(m, S, call, h, ps, L)
            finally:
                m.loop_rule = None
                m.windows.clear()
                m.solver = sol
            if not outs:
                raise NoLoop('no outcome')
            for o in outs:
                if o.kind == 'assert':
                    raise Mismatch('assertion fails: %s' % o.val)
                if mode == 'step':
                    if o.kind != 'back':
                        raise Mismatch('%s ends before the given length' % fn)
                    x = xin[0] if xin else [0] * unit
                    s2, want = F.spec.step(post, u, x)
                    for p, k in zip(ps, bufs):
                        if k in ('out', 'io'):
                            got = o.st.get(p.obj).cells
                            if any(c is None for c in got):
                                raise Mismatch('output not written in a long call')
                            same(got, want, 'output of one iteration at position %d' % u)
                    F.pinned(F.pos(u + 1), s2)
                    check(snapshot(o.st), F.tpl[F.pos(u + 1)], s2, 'state after one iteration at position %d' % u)
                else:
                    if o.kind != 'ret':
                        raise NoLoop('exit')
                    for p, k in zip(ps, bufs):
                        if k == 'out' and any(c is not None for c in o.st.get(p.obj).cells) or k == 'io' and o.st.get(p.obj).cells != xin[0]:
                            raise NoLoop('output written after the loop')
                    check(snapshot(o.st), F.tpl[u], post, 'state after the loop')
    for mode, rs in entry.items():
        r0 = rs[0]
        for r in rs[1:]:
            if len(r) != len(r0) or any(type(a) is not type(b) or (type(a) is not tuple and a != b) for a, b in zip(r, r0)):
                raise NoLoop('values computed before the loop depend on the position')
    return (mod, fn, header)


def norm(v, ps):
    if type(v) is Ptr:
        for i, p in enumerate(ps):
            if p.obj == v.obj:
                return ('buf', i, v.off)
        return 'ptr %r' % (v.off,) if False else ('obj', v.off)
    if type(v) is PB:
        return repr(type(v.p))
    return v


def check_same(a, b, what):
    if len(a) != len(b) or any(len(x) != len(y) for x, y in zip(a, b)) or any(p != q for x, y in zip(a, b) for p, q in zip(x, y)):
        raise NoLoop('state changes ' + what)


def F_call(m, S, call, h, ps, L):
    """outcomes of a call whose execution may stop at the loop header"""
    class _C:
        pass
    q = _C()
    q.m, q.st = m, S.st
    res = []

    def run(fn, *args):
        res.extend(m.call(q.st, fn, list(args)))
    call(run, h, ps, L)
    return res

"""Re-creation against fresh creation, object by object."""
from . import forget, life
from .machine import PB, Ptr, Fn, Violation, Unsupported
from .scen import Mismatch, S, same

import sys
sys.set_int_max_str_digits(0)
OLD = 3


def graph(st, h, st2, h2):
    """pairs of objects reached alike from two handles: [(object, object)]"""
    seen = {}
    todo = [(h.obj, h2.obj)]
    while todo:
        a, b = todo.pop()
        if a in seen:
            if seen[a] != b:
                raise Mismatch('the objects are linked differently')
            continue
        seen[a] = b
        oa, ob = st.get(a), st2.get(b)
        if oa.kind != 'heap':
            continue
        for x, y in zip(oa.cells, ob.cells):
            if type(x) is PB and type(y) is PB and x.k == y.k == 0 and type(x.p) is Ptr and type(y.p) is Ptr:
                todo.append((x.p.obj, y.p.obj))
    return [(a, b) for a, b in seen.items() if st.get(a).kind == 'heap']


def alike(x, y, m):
    """two pointer bytes that name the same thing"""
    if x.k != y.k:
        return False
    p, q = x.p, y.p
    if type(p) is Ptr and type(q) is Ptr:
        return p.off == q.off and p.sym is None and q.sym is None and (p.obj in m and m[p.obj] == q.obj or p.obj == q.obj)
    return p == q


def differing(st, h, st2, h2):
    """{object: positions} whose contents are not those of the fresh object"""
    g = graph(st, h, st2, h2)
    m = dict(g)
    bad = {}
    for a, b in g:
        oa, ob = st.get(a), st2.get(b)
        w = set()
        for i, x in enumerate(oa.cells):
            y = ob.cells[i] if i < len(ob.cells) else None
            if type(x) is PB and type(y) is PB:
                if not alike(x, y, m):
                    w.add(i)
            elif type(x) is tuple and type(y) is tuple:
                if x != y or max(x) >= OLD:
                    w.add(i)
            elif type(x) is int and type(y) is int:
                if x != y:
                    w.add(i)
            elif x is not y:
                w.add(i)
        if w:
            bad[a] = w
    return bad, g


def noninterference(x, todo, poisoned=None):
    """what an earlier life left behind is never read again"""
    fns = set()
    for A, B in todo:
        n = len(x.ops(A))
        for used in sorted({0, 1, n // 2, n}) if 'blowfish' not in x.name else (n,):
            s = x.start()
            st0 = s.st
            s.st = st0.fork()
            s.st.objs.update()
            forget.STRICT_BRANCH[0] = 0
            with forget.at(OLD):
                h = x.create(s, A)
                for nm, op in x.ops(A)[:used]:
                    op(s, h, 'a')
            forget.STRICT_BRANCH[0] = OLD
            h = x.recreate(s, h, B, 'b')
            if not isinstance(h, Ptr):
                raise Mismatch('recreate fails')
            old = s.st
            s.st = old.fork()
            h2 = x.create(s, B, 'b')
            bad, g = differing(old, h, s.st, h2)
            where = '%s: create %r, %d operations, recreate %r' % (x.name, A, used, B)
            for a, b in g:
                if old.get(a).size < s.st.get(b).size:
                    raise Mismatch('%s: an object of %d bytes where a fresh one has %d' % (where, old.get(a).size, s.st.get(b).size))
            s.st = old
            for o, w in bad.items():
                c = s.st.getw(o).cells
                for i in w:
                    c[i] = None
            if poisoned is not None:
                for o, w in bad.items():
                    poisoned.setdefault((A, B), set()).update((next(i for i, (a, b) in enumerate(g) if a == o), j) for j in w)
            try:
                for nm, op in x.ops(B):
                    r = op(s, h, 'c')
                    if any(type(v) is tuple and max(v) >= OLD for v in r):
                        raise Mismatch('%s: %s depends on the earlier life' % (where, nm))
            except Violation as e:
                raise Mismatch('%s: %s, then %s uses what the earlier life left (%s)' % (where, '', nm, e))
            x.release(s, h)
            fns |= s.m.functions
    forget.STRICT_BRANCH[0] = 0
    return fns


# functions taken as an uninterpreted function of the bytes they are given: (function, bytes read through the second argument,
# bytes written through the third); what they write in the object is found by running them
OPAQUE = {'keccak1600_F': (0, 0), 'keccak800_F': (0, 0), 'threefish256_encrypt': (32, 32), 'threefish512_encrypt': (64, 64),
          'threefish1024_encrypt': (128, 128), 'blowfish_encrypt': (8, 8)}


def opaque(m, fn, sizes):
    eff = {}

    def hook(m, st, a):
        o = st.get(a[0].obj)
        k = (o.size, tuple(c for c in o.cells[8:16] if type(c) is int))
        if k not in eff:
            t = st.fork()
            for q in t.objs:
                if t.get(q).kind == 'heap' or q == o.id:
                    ob = t.getw(q)
                    ob.cells[:] = [0 if type(c) is tuple else c for c in ob.cells]
            w = t.getw(o.id)
            w.written = set()
            f = next(mod.funcs[fn] for mod in m.mods.values() if fn in mod.funcs)
            x = t.new(max(1, sizes[0]), 'stack', 'opaque.in', [0] * max(1, sizes[0]))
            y = t.new(max(1, sizes[1]), 'stack', 'opaque.out')
            for out in m.call(t, f, [a[0], x, y][:len(a)]):
                if out.kind != 'ret':
                    raise Unsupported(fn)
                eff[k] = sorted(out.st.get(o.id).written)
        from .fake import uf
        own = [c for c in st.get(o.id).cells if type(c) in (int, tuple)]
        if sizes[1]:
            if eff[k]:
                raise Unsupported(fn + ' writes its object')
            st.put_bytes(a[2], uf(fn, sizes[1], [own, st.bytes_at(a[1], sizes[0])]))
        else:
            r = uf(fn, len(eff[k]), [own])
            for i, v in zip(eff[k], r):
                st.store_int(Ptr(o.id, i), 1, v)
    m.hooks[fn] = hook


def equal_state(x, todo, poisoned):
    """every byte that may be read again is computed as by a fresh creation (values exact)"""
    fns = set()
    for A, B in todo:
        s = x.start()
        for fn, sizes in OPAQUE.items():
            opaque(s.m, fn, sizes)
        h = x.create(s, A)
        h = x.recreate(s, h, B, 'b')
        old = s.st
        s.st = old.fork()
        h2 = x.create(s, B, 'b')
        g = graph(old, h, s.st, h2)
        m = dict(g)
        skip = poisoned.get((A, B), set())
        for n, (a, b) in enumerate(g):
            ca, cb = old.get(a).cells, s.st.get(b).cells
            ia = [i for i in range(len(ca)) if (n, i) not in skip and i < len(cb) and type(ca[i]) is not PB and not (ca[i] is None and cb[i] is None)]
            va, vb = [ca[i] for i in ia], [cb[i] for i in ia]
            if any(v is None for v in va):
                raise Unsupported('uninitialised')
            same(va, vb, '%s: create %r, recreate %r: state' % (x.name, A, B))
        fns |= s.m.functions
    return fns

"""Symbolic runs of the block cipher API on the real code."""
import os
import subprocess
from . import ir, lib, native
from . import terms as T
from .machine import Ptr, Fn, Violation, Unsupported, Outcome

# ---------------------------------------------------------------- IDEA multiplication contract
_PROD = {}


def _fval(v):
    return v if v else 65536


def mul16_spec(a, b):
    """multiplication modulo 65537 with 0 standing for 65536: normal form over the cyclic group of order 65536"""
    def split(v):
        if type(v) is int:
            return _fval(v), {}
        p = _PROD.get(v)
        if p is not None:
            return p[0], dict(p[1])
        return 1, {v: 1}
    ca, fa = split(a)
    cb, fb = split(b)
    c = ca * cb % 65537
    for w, e in fb.items():
        e = (fa.get(w, 0) + e) & 0xFFFF
        if e:
            fa[w] = e
        else:
            fa.pop(w, None)
    if not fa:
        return c & 0xFFFF
    if len(fa) == 1 and c == 1:
        (w, e), = fa.items()
        if e == 1:
            return w
    items = tuple(sorted(fa.items(), key=lambda t: repr(t[0])))
    args = (c,) + tuple(x for w, e in items for x in (w, e))
    r = T.opnode('uf:ideaprod', 16, args)
    _PROD[r] = (c, items)
    return r


def _ideaeval(*a):
    c = a[0]
    for i in range(1, len(a), 2):
        c = c * pow(_fval(a[i]), a[i + 1], 65537) % 65537
    return c & 0xFFFF


T.UFEVAL['ideaprod'] = _ideaeval


def mul16_candidates():
    """internal functions of idea.c of type i16(i16,i16)"""
    mod = lib.module('block/idea')
    out = []
    for n, f in mod.funcs.items():
        if len(f.params) == 2 and all(t.k == 'int' and t.w == 16 for t, _ in f.params) and f.rt.k == 'int' and f.rt.w == 16:
            out.append(n)
    return out


MUL_C = r'''
#include "%s/lib/block/idea.c"
#include <stdio.h>
#include <stdlib.h>
int main(int c, char **v)
{
	unsigned int a, b, lo = atoi(v[1]), hi = atoi(v[2]);
	for(a = lo; a < hi; a++) for(b = 0; b < 65536; b++)
	{
		unsigned long x = a ? a : 65536, y = b ? b : 65536;
		if((unsigned short)%s(a, b) != (unsigned short)(x * y %% 65537)) { printf("%%u %%u\n", a, b); return 1; }
	}
	return 0;
}
'''


def mul16_exhaustive(name):
    """complete check of a multiplication function over all 2^32 pairs: None or a failing pair"""
    d = lib.scratch()
    src = os.path.join(d, 'mul16_%s.c' % name)
    open(src, 'w').write(MUL_C % (ir.REPO, name))
    exe = src[:-2]
    p = subprocess.run(['gcc', '-O2', '-std=c99', '-w', '-D_ANSI_SOURCE', '-I', ir.REPO + '/include', src, ir.REPO + '/lib/memory.c', '-o', exe], capture_output=True, text=True)
    if p.returncode:
        raise Unsupported('harness for %s does not compile' % name)
    ps = [subprocess.Popen([exe, str(i * 8192), str((i + 1) * 8192)], stdout=subprocess.PIPE, text=True) for i in range(8)]
    bad = None
    for q in ps:
        o = q.communicate()[0]
        if q.returncode:
            bad = tuple(map(int, o.split()))
    return bad


# ---------------------------------------------------------------- runs
def machine(c, extra=()):
    m = lib.machine(['block', c.rel] + [r for r in extra if r != 'block'])
    if c.name == 'idea':
        for n in mul16_candidates():
            m.hooks[n] = lambda m, st, a: mul16_spec(a[0], a[1])
    return m


def get_desc(m, st, c):
    if c.sym.endswith('()'):
        st, d = m.call1(st, c.sym[:-2], [])
        return st, d
    return st, lib.desc(m, c.rel, c.sym)


def desc_fn(m, st, d, slot):
    """function pointer in the descriptor table: create recreate tweak encrypt decrypt destroy"""
    i = ('create', 'recreate', 'tweak', 'encrypt', 'decrypt', 'destroy').index(slot)
    return st.load_ptr(Ptr(d.obj, d.off + 8 * i))


def sym_cells(st, s):
    o = st.get(s.obj)
    return [(s.obj, i) for i, x in enumerate(o.cells) if type(x) is tuple]


def heap_objs(st, skip=()):
    return [o for o in st.objs.values() if o.kind == 'heap' and o.alive and o.id not in skip]


def rebase_heap(st, tag='K', skip=(), fresh=False):
    """generalise every symbolic byte of the live heap objects: keep linear relations only, or (fresh) none but equality"""
    locs = []
    for o in sorted(heap_objs(st, skip), key=lambda o: o.id):
        locs += [(o.id, i) for i, x in enumerate(o.cells) if type(x) is tuple]
    if fresh:
        known = {}
        for o, i in locs:
            v = st.get(o).cells[i]
            w = known.get(v)
            if w is None:
                w = known[v] = T.var('%s.%d' % (tag, len(known)), 8)
            st.getw(o).cells[i] = w
        return
    T._nrebase[0] = 0
    new = T.rebase([st.get(o).cells[i] for o, i in locs], tag)
    for (o, i), v in zip(locs, new):
        st.getw(o).cells[i] = v


def _pcell(st, x, rank):
    p = x.p
    if type(p) is Ptr:
        return ('p', rank.get(p.obj) if p.obj in rank else st.get(p.obj).name, p.off, x.k)
    return ('p', repr(p), 0, x.k)


def signature(st, skip=()):
    """heap contents with variables written out by name: (size, cells) per object"""
    sig = []
    objs = sorted(heap_objs(st, skip), key=lambda o: o.id)
    rank = {o.id: i for i, o in enumerate(objs)}
    memo = {}

    def bit(b):
        if b <= 1:
            return b
        r = memo.get(b)
        if r is None:
            r = memo[b] = frozenset(T.ATOM[a][1:] if T.ATOM[a][0] == 'v' else '1' if a == 0 else ('other', a) for a in T.FORM[b])
        return r
    for o in objs:
        cells = []
        for x in o.cells:
            if x is None or type(x) is int:
                cells.append(x)
            elif type(x) is tuple:
                cells.append([bit(b) for b in x])
            else:
                cells.append(_pcell(st, x, rank))
        sig.append((o.size, cells))
    return sig


def create(m, st, c, d, kl, rounds=0, name='key', key=None):
    k = lib.buf(st, name, kl, key if key is not None else 'var', ro=True)
    if c.name == 'blowfish':
        enc = desc_fn(m, st, d, 'encrypt')
        log = st.ghost.setdefault('bf', [])

        def h(m, st, a):
            s, pt, ct = a
            n = len(log)
            log.append((list(st.get(s.obj).cells), s.off, st.bytes_at(pt, 8)))
            st.put_bytes(ct, [T.var('bf%d.%d' % (n, i), 8) for i in range(8)])
        m.hooks[enc.name] = h
        try:
            st, s = m.call1(st, 'kripto_block_create', [d, rounds, k, kl])
        finally:
            del m.hooks[enc.name]
    else:
        st, s = m.call1(st, 'kripto_block_create', [d, rounds, k, kl])
    return st, s, k


def instance(gen, st, skip=()):
    """is the heap of st obtained from the proven heap contents gen (a signature) by substituting its variables"""
    cur = sorted(heap_objs(st, skip), key=lambda o: o.id)
    if len(cur) != len(gen):
        return False
    rank = {o.id: i for i, o in enumerate(cur)}
    sub = {}
    later = []
    for (size, cells), o in zip(gen, cur):
        if size != o.size:
            return False
        for g, c in zip(cells, o.cells):
            if g is None:
                continue
            if type(g) is int:
                if g != c:
                    return False
            elif type(g) is list:
                if type(c) is not tuple and type(c) is not int:
                    return False
                for x, y in zip(g, T.bits(c, 8)):
                    if type(x) is int:
                        if x != y:
                            return False
                    elif len(x) == 1 and x not in sub:
                        sub[x] = y
                    else:
                        later.append((x, y))
            elif type(c) in (int, tuple) or c is None or g != _pcell(st, c, rank):
                return False
    masks = {}

    def mask(b):
        r = masks.get(b)
        if r is None:
            r = masks[b] = T._mask(b)
        return r
    for x, y in later:
        v = mask(y)
        for a in x:
            if a == '1':
                v ^= 1
                continue
            z = sub.get(frozenset((a,)))
            if z is None:
                return False
            v ^= mask(z)
        if v:
            return False
    return True

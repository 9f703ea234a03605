"""Term language of the verifier.

A W-bit word is a Python int (constant) or a tuple of W bit ids (LSB first).
A bit id names a GF(2)-affine form: a set of atoms, atom 0 being the constant 1.
Atoms are variables, AND-monomials, table basis functions and bits of word-level
operation nodes (sums, products, variable rotates, selections, uninterpreted
functions).  All constructors normalise, so that identical meaning very often
means identical ids; what the normal form does not decide goes to the solver.
"""
import random

# ---------------------------------------------------------------- forms
FORM = [frozenset(), frozenset((0,))]
INTERN = {FORM[0]: 0, FORM[1]: 1}
ATOM = [('1',)]          # atom id -> definition
AFORM = [1]              # atom id -> form id of the single atom
AKEY = {}                # definition -> atom id
NODE = []                # word-level nodes: (op, width, args)
NODEKEY = {}
WORD2ADD = {}            # tuple -> (((word,coef),...), const)
ADDKEY = {}
WORD2ROT = {}
_tables = {}


GEN = [0]       # counts resets


def reset():
    GEN[0] += 1
    del FORM[2:]
    INTERN.clear(); INTERN[FORM[0]] = 0; INTERN[FORM[1]] = 1
    del ATOM[1:]; del AFORM[1:]; del NODE[:]
    _andm[:] = [0, 0]; _expandable[:] = [0, 0]; _dmask.clear(); MASK2D.clear(); BSIG.clear(); del PEND[:]; BMEMO.clear(); _andatoms.clear(); AKEY.clear(); NODEKEY.clear(); WORD2ADD.clear(); NORM2ADD.clear(); ADDKEY.clear(); WORD2ROT.clear(); DNAMED.clear(); WOP.clear(); SEEN.clear(); SIG.clear(); SEQ.clear(); _idxc.clear()
    SIM.clear(); SIM[0] = SIM_MASK
    SIMRND.clear()
    _selsnap.clear()
    _T.clear()
    _basis.clear()      # the pivots depend on the tables seen so far
    _compcache.clear()


def fid(s):
    i = INTERN.get(s)
    if i is None:
        i = len(FORM)
        FORM.append(s)
        INTERN[s] = i
    return i


def atom(defn):
    a = AKEY.get(defn)
    if a is None:
        a = len(ATOM)
        ATOM.append(defn)
        if defn[0] == '&' or defn[0] == 't' and len(defn[1]) <= 5:
            _andatoms.add(a)
        AKEY[defn] = a
        AFORM.append(fid(frozenset((a,))))
    return a


def xor2(a, b):
    if a == 0:
        return b
    if b == 0:
        return a
    if a == b:
        return 0
    s = FORM[a] ^ FORM[b]
    i = INTERN.get(s)
    if i is None:
        i = len(FORM)
        FORM.append(s)
        INTERN[s] = i
    return i


def not1(a):
    return xor2(a, 1)


def has1(a):
    return 0 in FORM[a]


def _mono(fs):
    """product of a frozenset of const-free form ids"""
    if len(fs) == 1:
        return next(iter(fs))
    return AFORM[atom(('&', fs))]


def _factors(f):
    """factor set of const-free form f"""
    s = FORM[f]
    if len(s) == 1:
        d = ATOM[next(iter(s))]
        if d[0] == '&':
            return d[1]
    return frozenset((f,))


DISTRIB = 6


def and2(a, b):
    if a == 0 or b == 0:
        return 0
    if a == 1:
        return b
    if b == 1 or a == b:
        return a
    sa = FORM[a]
    sb = FORM[b]
    ca = 0 in sa
    cb = 0 in sb
    if ca or cb:
        a1 = fid(sa - _ONE) if ca else a
        b1 = fid(sb - _ONE) if cb else b
        r = and2(a1, b1) if a1 != b1 else a1
        if cb:
            r = xor2(r, a1)
        if ca:
            r = xor2(r, b1)
        if ca and cb:
            r = xor2(r, 1)
        return r
    la = len(sa)
    lb = len(sb)
    if la == 1 and lb == 1:
        return _mono(_factors(a) | _factors(b))
    if la * lb <= DISTRIB:
        r = 0
        for x in sa:
            fx = _factors(AFORM[x])
            for y in sb:
                r = xor2(r, _mono(fx | _factors(AFORM[y])))
        return r
    return _mono(_factors(a) | _factors(b))


_ONE = frozenset((0,))


def or2(a, b):
    return xor2(xor2(a, b), and2(a, b))


def ite1(c, a, b):
    if a == b:
        return a
    if c == 1:
        return a
    if c == 0:
        return b
    return xor2(b, and2(c, xor2(a, b)))


# ---------------------------------------------------------------- words
def bits(v, w):
    if type(v) is tuple:
        return v
    return tuple([(v >> i) & 1 for i in range(w)])


def mk(t):
    if max(t) <= 1:
        r = 0
        for i, b in enumerate(t):
            if b:
                r |= 1 << i
        return r
    return tuple(t)


def var(name, w):
    return tuple([AFORM[atom(('v', name, i))] for i in range(w)])


DENSE = int(__import__('os').environ.get('KV_DENSE', '128'))
DNAMED = set()


MASK2D = {}


def _dense(b):
    """canonical form for a bit that is long or mentions a named form: fully expanded when
    short enough, otherwise the (unique) name of its expansion"""
    m = _mask(b)
    neg = m & 1
    m ^= neg
    r = MASK2D.get(m)
    if r is None:
        if m.bit_count() <= DENSE:
            s = set()
            x = m
            while x:
                p = x.bit_length() - 1
                s.add(p)
                x ^= 1 << p
            r = fid(frozenset(s))
        else:
            d = atom(('d', xor2(b, neg)))
            DNAMED.add(d)
            _dmask[d] = m
            r = AFORM[d]
        MASK2D[m] = r
    return xor2(r, neg)


def _fold(t):
    """bits with over-long linear forms get canonical names"""
    for b in t:
        s = FORM[b]
        if len(s) > DENSE or not (DNAMED.isdisjoint(s) if DNAMED else True):
            break
    else:
        return t
    out = []
    for b in t:
        s = FORM[b]
        if len(s) > DENSE:
            b = _dense(b)
        elif len(s) > 1 and not DNAMED.isdisjoint(s):
            if not (len(s) == 2 and 0 in s):
                b = _dense(b)
        out.append(b)
    return mk(out)


def xor(a, b, w):
    if type(a) is int:
        if type(b) is int:
            return a ^ b
        a, b = b, a
    if type(b) is int:
        if b == 0:
            return a
        r = tuple([xor2(x, 1) if (b >> i) & 1 else x for i, x in enumerate(a)])
        if b == (1 << w) - 1 and r not in WOP:
            if a not in SEQ:
                SEQ[a] = len(SEQ)
            if r not in SEQ:
                SEQ[r] = len(SEQ)
                WOP[r] = ('~', a, None)
        return r
    if a == b:
        return 0
    r = mk([xor2(x, y) for x, y in zip(a, b)])
    if type(r) is int:
        return r
    r = _fold(r)
    if type(r) is int:
        return r
    if BITSWEEP and SWEEP:
        r = mk([_bit(x) if x > 1 else x for x in r])
        if type(r) is int:
            return r
    return _canon(r, w, '^', a, b)


def and_(a, b, w):
    if type(a) is int:
        if type(b) is int:
            return a & b
        a, b = b, a
    if type(b) is int:
        return mk([x if (b >> i) & 1 else 0 for i, x in enumerate(a)])
    if a == b:
        return a
    r = mk([and2(x, y) for x, y in zip(a, b)])
    if type(r) is int:
        return r
    r = _fold(r)
    if type(r) is int:
        return r
    return _canon(r, w, '&', a, b)


def or_(a, b, w):
    if type(a) is int:
        if type(b) is int:
            return a | b
        a, b = b, a
    if type(b) is int:
        return mk([1 if (b >> i) & 1 else x for i, x in enumerate(a)])
    if a == b:
        return a
    for x, y in zip(a, b):
        if x and y:
            break
    else:
        return tuple([x or y for x, y in zip(a, b)])
    r = mk([y if x == 0 else (x if y == 0 else or2(x, y)) for x, y in zip(a, b)])
    if type(r) is int:
        return r
    r = _fold(r)
    if type(r) is int:
        return r
    return _canon(r, w, '|', a, b)


# ---- words already met: a new word that provably equals an older one is replaced by it
SWEEP = True
WOP = {}         # word -> (bitwise op, a, b), first construction
SEEN = {}        # word -> representative
SIG = {}         # simulation signature -> representatives
SEQ = {}         # word -> creation number
STATS = {'bit': 0, 'seen': 0, 'linear': 0, 'bitwise': 0, 'smt': 0, 'failed': 0}
prove_smt = None


def _sig(r, w):
    nz = [b for b in r if b > 1]
    n = len(nz)
    if n == w:
        return (w, sim_form(r[0]), sim_form(r[w >> 1]), sim_form(r[w - 1]))
    return (w, tuple([b if b <= 1 else 2 for b in r]), sim_form(nz[0]), sim_form(nz[n >> 1]), sim_form(nz[-1]))


_andm = [0, 0]


def _andmask():
    if _andm[0] != len(_andatoms):
        arr = bytearray((len(ATOM) >> 3) + 1)
        for a in _andatoms:
            arr[a >> 3] |= 1 << (a & 7)
        _andm[0] = len(_andatoms)
        _andm[1] = int.from_bytes(arr, 'little')
    return _andm[1]


BSIG = {}
BMEMO = {}
PEND = []
BITSWEEP = True
_andatoms = set()


def _bit(b):
    """oldest known bit provably equal to b (up to complement), for bits holding products"""
    u = BMEMO.get(b)
    if u is not None:
        return u
    s = FORM[b]
    named = DNAMED and not DNAMED.isdisjoint(s)
    if len(s) < 2 and not named and not (s and ATOM[next(iter(s))][0] == 't'):
        BMEMO[b] = b
        return b
    if not (_mask(b) & _andmask() if named else not _andatoms.isdisjoint(s)):
        BMEMO[b] = b
        PEND.append(b)
        return b
    if PEND:
        for x in PEND:
            v = sim_form(x)
            if v & 1:
                BSIG.setdefault(v ^ SIM_MASK, xor2(x, 1))
            else:
                BSIG.setdefault(v, x)
        del PEND[:]
    v = sim_form(b)
    neg = v & 1
    if neg:
        v ^= SIM_MASK
    o = BSIG.get(v)
    if o is None:
        BSIG[v] = xor2(b, neg)
        BMEMO[b] = b
        return b
    c = xor2(o, neg)
    if c != b:
        d = xor2(b, c)
        if lin_zero(d) or prove_bit(d):
            STATS['bits'] = STATS.get('bits', 0) + 1
            BMEMO[b] = c
            return c
        STATS['bitsfail'] = STATS.get('bitsfail', 0) + 1
    BMEMO[b] = b
    return b


def _strip(r):
    n = len(r)
    while r[n - 1] == 0:
        n -= 1
    return r if n == len(r) else r[:n]


def _canon(r, w, op, a, b):
    if type(a) is tuple and a not in SEQ:
        SEQ[a] = len(SEQ)
    if type(b) is tuple and b not in SEQ:
        SEQ[b] = len(SEQ)
    if r not in SEQ:
        SEQ[r] = len(SEQ)
        WOP[r] = (op, a, b)
    if not SWEEP:
        return r
    u = SEEN.get(r)
    if u is not None:
        return u
    return _canon2(r, w)


def _canon2(r, w):
    """the oldest known word equal to r"""
    if r[w - 1] == 0:
        c = _strip(r)
        n = len(c)
        u = SEEN.get(c)
        if u is None:
            if n < 4:
                return r
            u = _canon2(c, n)
        if u is c or u == c:
            if r not in SEEN:
                SEEN[r] = r
            if r not in SEQ:
                SEQ[r] = len(SEQ)
            return r
        u = bits(u, n) + (0,) * (w - n)
        if type(u) is tuple:
            u = mk(u)
        SEEN[r] = u
        return u
    if w < 4:
        return r
    sig = _sig(r, w)
    lst = SIG.get(sig)
    if lst is None:
        SIG[sig] = [r]
    else:
        for u in lst:
            if prove_eq(u, r, w):
                SEEN[r] = u
                return u
        lst.append(r)
    SEEN[r] = r
    if r not in SEQ:
        SEQ[r] = len(SEQ)
    return r


_dmask = {}


def _mask(f):
    """the form with every named form expanded, as a bit mask over atoms"""
    s = FORM[f]
    ds = s & DNAMED if DNAMED else ()
    arr = bytearray((max(s) >> 3) + 1) if s else bytearray(1)
    for a in s:
        if a not in ds:
            arr[a >> 3] |= 1 << (a & 7)
    r = int.from_bytes(arr, 'little')
    for a in ds:
        m = _dmask.get(a)
        if m is None:
            m = _dmask[a] = _mask(ATOM[a][1])
        r ^= m
    return r


def lin_zero(f):
    """does the form vanish after expanding named forms"""
    s = FORM[f]
    if not s:
        return True
    if not DNAMED or DNAMED.isdisjoint(s):
        return False
    return _mask(f) == 0


def prove_eq(u, r, w):
    """cheap proofs that two words are equal"""
    if u == r:
        return True
    ub = bits(u, w)
    rb = bits(r, w)
    for x, y in zip(ub, rb):
        if x != y:
            if x <= 1 or y <= 1:
                if sim_form(x) != sim_form(y):
                    return False
    diff = [xor2(x, y) for x, y in zip(ub, rb) if x != y]
    if all(lin_zero(d) for d in diff):
        STATS['linear'] += 1
        return True
    # full simulation before anything expensive
    for d in diff:
        if sim_form(d):
            return False
    if type(u) is tuple and type(r) is tuple and prove_bitwise(u, r):
        STATS['bitwise'] += 1
        return True
    if all(prove_bit(d) for d in diff):
        STATS['bit'] += 1
        return True
    if prove_smt is not None and prove_smt(u, r, w):
        STATS['smt'] += 1
        return True
    STATS['failed'] += 1
    return False


_expandable = [0, 0]


def _expmask():
    """mask of the atoms that have a bit-level definition"""
    n, m = _expandable
    if n < len(ATOM):
        arr = bytearray((len(ATOM) >> 3) + 1)
        for i in range(n, len(ATOM)):
            if ATOM[i][0] in '&t':
                arr[i >> 3] |= 1 << (i & 7)
        m |= int.from_bytes(arr, 'little')
        _expandable[0] = len(ATOM)
        _expandable[1] = m
    return m


def prove_bit(D, maxleaf=9, maxexp=40):
    """is the form D identically zero: expand its newest products and table atoms step by
    step, treat what is left as (linearly reduced) free leaves, and compare truth tables
    over those leaves"""
    em = _expmask()
    exp = 0                        # atoms expanded
    forms = {D: _mask(D)}
    for _ in range(maxexp):
        avail = em & ~exp
        best = -1
        for m in forms.values():
            p = (m & avail).bit_length() - 1
            if p > best:
                best = p
        if best < 0:
            return False
        exp |= 1 << best
        for f in ATOM[best][1]:
            if f not in forms:
                forms[f] = _mask(f)
        keep = ~(exp | 1)
        piv = {}
        nleaf = 0
        leaf = {}
        for f, m in forms.items():
            v = m & keep
            comb = 0
            while v:
                p = v.bit_length()
                e = piv.get(p)
                if e is None:
                    if nleaf >= maxleaf:
                        return False
                    piv[p] = (v, comb ^ (1 << nleaf))
                    comb = 1 << nleaf
                    nleaf += 1
                    break
                v ^= e[0]
                comb ^= e[1]
            leaf[f] = comb
        full = (1 << (1 << nleaf)) - 1
        val = {}

        def fv(f):
            m = forms[f]
            r = full if m & 1 else 0
            c = leaf[f]
            i = 0
            while c:
                if c & 1:
                    r ^= _lintt(nleaf, i)
                c >>= 1
                i += 1
            x = m & exp
            while x:
                p = x.bit_length() - 1
                x ^= 1 << p
                r ^= av(p)
            return r

        def av(a):
            r = val.get(a)
            if r is None:
                d = ATOM[a]
                if d[0] == '&':
                    r = full
                    for f in d[1]:
                        r &= fv(f)
                else:
                    ins = [fv(f) for f in d[1]]
                    tt = _basis[len(ins)].fun[d[2]]
                    r = 0
                    for x in range(1 << nleaf):
                        i = 0
                        for k, t in enumerate(ins):
                            if (t >> x) & 1:
                                i |= 1 << k
                        if (tt >> i) & 1:
                            r |= 1 << x
                val[a] = r
            return r
        if fv(D) == 0:
            return True
    return False


def prove_bitwise(u, r, maxleaf=10, maxexp=60):
    """equality of two words through their bitwise-operation graph above a small cut"""
    # expand newest words first; leaves get truth tables
    exp = {}            # expanded word -> op
    leaves = {u, r}
    for _ in range(maxexp):
        cand = [x for x in leaves if x in WOP]
        if not cand:
            return False
        x = max(cand, key=lambda y: SEQ.get(y, -1))
        leaves.discard(x)
        exp[x] = WOP[x]
        for y in WOP[x][1:]:
            if type(y) is tuple and y not in exp:
                leaves.add(y)
        if len(leaves) > maxleaf:
            return False
        if u in leaves and r in leaves:
            continue
        # evaluate
        L = list(leaves)
        n = len(L)
        val = {}
        full = (1 << (1 << n)) - 1
        for i, l in enumerate(L):
            val[l] = _lintt(n, i)

        def ev(y):
            st = [y]
            while st:
                z = st[-1]
                if z in val:
                    st.pop()
                    continue
                op, p, q = exp[z]
                need = [t for t in (p, q) if type(t) is tuple and t not in val]
                if need:
                    st.extend(need)
                    continue
                st.pop()
                if op == '~':
                    val[z] = val[p] ^ full
                elif op == '^':
                    val[z] = val[p] ^ val[q]
                elif op == '&':
                    val[z] = val[p] & val[q]
                else:
                    val[z] = val[p] | val[q]
            return val[y]
        try:
            if ev(u) == ev(r):
                return True
        except KeyError:
            return False
    return False


_lint = {}


def _lintt(n, i):
    k = (n, i)
    t = _lint.get(k)
    if t is None:
        t = 0
        for x in range(1 << n):
            if (x >> i) & 1:
                t |= 1 << x
        _lint[k] = t
    return t


def not_(a, w):
    return xor(a, (1 << w) - 1, w)


def ite(c, a, b, w):
    """c is a bit id"""
    if c == 1:
        return a
    if c == 0:
        return b
    if a == b:
        return a
    return mk([ite1(c, x, y) for x, y in zip(bits(a, w), bits(b, w))])


def shl(a, n, w):
    if type(a) is int:
        return (a << n) & ((1 << w) - 1)
    if n >= w:
        return 0
    if n == 0:
        return a
    r = mk((0,) * n + bits(trunc(a, w - n), w - n))
    if type(r) is tuple and r not in WORD2ADD and SCALE and a in WORD2ADD:
        # remember the shifted word as a multiple
        terms = {}
        const = _accum(terms, a, 1 << n, 0, w)
        const = _evens(terms, const & ((1 << w) - 1), w)
        e = (tuple(terms.items()), const)
        if not (len(e[0]) == 1 and e[0][0][0] == r):
            key = (w, frozenset(e[0]), e[1])
            r = ADDKEY.setdefault(key, r)
            WORD2ADD.setdefault(r, e)
    return r


SCALE = True


def lshr(a, n, w):
    if type(a) is int:
        return a >> n
    if n >= w:
        return 0
    return mk(a[n:] + (0,) * n)


def ashr(a, n, w):
    if type(a) is int:
        s = a - (1 << w) if a >> (w - 1) else a
        return (s >> min(n, w - 1)) & ((1 << w) - 1)
    n = min(n, w - 1)
    return mk(a[n:] + (a[-1],) * n)


def rotl(a, n, w):
    n %= w
    if n == 0:
        return a
    if type(a) is int:
        return ((a << n) | (a >> (w - n))) & ((1 << w) - 1)
    r = a[w - n:] + a[:w - n]
    if SWEEP:
        return SEEN.get(r) or _canon2(r, w)
    return r


def rotr(a, n, w):
    return rotl(a, w - (n % w), w)


def zext(a, w, w2):
    if type(a) is int:
        return a
    return a + (0,) * (w2 - w)


def sext(a, w, w2):
    if type(a) is int:
        return (a - (1 << w)) & ((1 << w2) - 1) if a >> (w - 1) else a
    return a + (a[-1],) * (w2 - w)


def _truncadd(t, e, w2):
    """low part of a sum"""
    m = (1 << w2) - 1
    terms = {}
    const = e[1] & m
    for word, c in e[0]:
        const = _accum(terms, trunc(word, w2), c & m, const, w2)
    const &= m
    if SCALE:
        const = _evens(terms, const, w2)
    key = _addkey(terms, const & m, w2)
    if key is None:
        return _addfinish(terms, const & m, w2)
    r = ADDKEY.get(key)
    if r is None:
        ADDKEY[key] = r = t
        _regadd(t, (tuple(key[1]), key[2]))
    return r


def trunc(a, w2):
    if type(a) is int:
        return a & ((1 << w2) - 1)
    if len(a) == w2:
        return a
    t = a[:w2]
    e = WORD2ADD.get(a)
    if e is not None and max(t) > 1:
        r = _truncadd(t, e, w2)
    else:
        r = mk(t)
    if SWEEP and type(r) is tuple:
        return SEEN.get(r) or _canon2(r, w2)
    return r


def extract(a, lo, n):
    """bits lo..lo+n-1"""
    if type(a) is int:
        return (a >> lo) & ((1 << n) - 1)
    if lo == 0:
        return trunc(a, n)
    return mk(a[lo:lo + n])


def concat(parts):
    """parts: list of (value,width), LSB first"""
    if all(type(v) is int for v, _ in parts):
        r = 0
        s = 0
        for v, w in parts:
            r |= v << s
            s += w
        return r
    t = ()
    for v, w in parts:
        t += bits(v, w)
    return mk(t)


# ---------------------------------------------------------------- sums
NORM2ADD = {}


def _norm(v, w):
    """(t, sign, k) with v = sign*t + k mod 2^w and t of fixed polarity"""
    pol = None
    msk = 0
    k = 0
    lst = list(v)
    for i, b in enumerate(lst):
        if b == 1:
            k += 1 << i
            lst[i] = 0
        elif b:
            msk |= 1 << i
            if pol is None:
                pol = 0 in FORM[b]
    sg = 1
    if pol:
        lst = [xor2(b, 1) if b else 0 for b in lst]
        k += msk
        sg = -1
    if 0 in FORM[lst[w - 1]]:
        lst[w - 1] = xor2(lst[w - 1], 1)
        k += 1 << (w - 1)
    if not msk:
        return 0, 1, k
    return tuple(lst), sg, k


def _regadd(t, e):
    if t in WORD2ADD:
        return
    WORD2ADD[t] = e
    t2, sg, k = _norm(t, len(t))
    if t2 not in NORM2ADD:
        NORM2ADD[t2] = (e, sg, k)


def _accum(terms, v, c, const, w):
    """add c*v into terms; returns new const"""
    m = (1 << w) - 1
    if type(v) is int:
        return const + c * v
    e = WORD2ADD.get(v)
    if e is not None:
        for t, k in e[0]:
            n = (terms.get(t, 0) + c * k) & m
            if n:
                terms[t] = n
            else:
                terms.pop(t, None)
        return const + c * e[1]
    t, sg, k0 = _norm(v, w)
    const += c * k0
    if sg < 0:
        c = -c
    if type(t) is int:
        return const + c * t
    if t != v:
        e = WORD2ADD.get(t)
    if e is None:
        n1 = NORM2ADD.get(t)
        if n1 is not None:
            # v1 = sg1*t + k1  =>  t = sg1*(v1 - k1)
            e, sg1, k1 = n1
            c *= sg1
            const -= c * k1
    if e is not None:
        for t2, k in e[0]:
            n = (terms.get(t2, 0) + c * k) & m
            if n:
                terms[t2] = n
            else:
                terms.pop(t2, None)
        return const + c * e[1]
    # c*t only depends on the low bits of t when c is even: one representative per residue
    if SCALE:
        z = 0
        while not t[z]:
            z += 1
        if z:
            t = t[z:] + (0,) * z
            c <<= z
        c &= m
        if not c:
            return const
    n = (terms.get(t, 0) + c) & m
    if n:
        terms[t] = n
    else:
        terms.pop(t, None)
    return const


def _lowpart(t, n):
    """low n bits with the constant of the top one removed, and that constant"""
    b = t[n - 1]
    if 0 in FORM[b]:
        return t[:n - 1] + (xor2(b, 1),), 1
    return t[:n], 0


def _evens(terms, const, w):
    """c*t only depends on the low bits of t when c is even: one representative, one term per residue"""
    m = (1 << w) - 1
    ev = [(t, c) for t, c in terms.items() if not c & 1]
    if not ev:
        return const
    # most significant multiples first, so that they can join any other term
    ev.sort(key=lambda x: -(x[1] & -x[1]))
    for t, c in ev:
        z = (c & -c).bit_length() - 1
        low, k = _lowpart(t, w - z)
        hit = None
        for t2, c2 in terms.items():
            if t2 is not t and (c2 & -c2) <= (c & -c):
                l2, k2 = _lowpart(t2, w - z)
                if l2 == low:
                    hit = t2
                    break
        if hit is not None:
            del terms[t]
            if k != k2:
                const ^= 1 << (w - 1)
            n = (terms[hit] + c) & m
            if n:
                terms[hit] = n
            else:
                del terms[hit]
            return _evens(terms, const & m, w)
        new = low + (0,) * z
        if new != t:
            del terms[t]
            if k:
                const ^= 1 << (w - 1)
            if any(new):
                terms[new] = (terms.get(new, 0) + c) & m
    return const


def _addkey(terms, const, w):
    """None when the sum is simple (handled by _addfinish)"""
    if not terms:
        return None
    if len(terms) == 1:
        (t, c), = terms.items()
        if c & (c - 1) == 0 and const == 0:
            return None
        m = (1 << w) - 1
        top = 1 << (w - 1)
        if c == 1 and const == top:
            return None
        if c == m and (const == m or const == m ^ top or (const == 0 and not any(t[1:]))):
            return None
    if all(c == 1 for c in terms.values()):
        # disjoint?
        occ = [(const >> i) & 1 for i in range(w)]
        ok = True
        for t in terms:
            for i, b in enumerate(t):
                if b:
                    if occ[i]:
                        ok = False
                        break
                    occ[i] = b
            if not ok:
                break
        if ok:
            return None
    return (w, frozenset(terms.items()), const)


def _addfinish(terms, const, w):
    m = (1 << w) - 1
    const &= m
    if not terms:
        return const
    if len(terms) == 1:
        (t, c), = terms.items()
        if c & (c - 1) == 0 and const == 0:
            return shl(t, c.bit_length() - 1, w)
        if c == m and const == m:
            return xor(t, m, w)
        if c == 1 and const == 1 << (w - 1):
            return xor(t, const, w)
        if c == m and const == m ^ (1 << (w - 1)):
            return xor(t, const, w)
        if c == m and const == 0 and not any(t[1:]):
            return mk((t[0],) * w)
    # disjoint
    occ = [(const >> i) & 1 for i in range(w)]
    for t in terms:
        for i, b in enumerate(t):
            if b:
                occ[i] = b
    return mk(occ)


def _addmake(terms, const, w):
    const &= (1 << w) - 1
    if SCALE:
        const = _evens(terms, const, w)
    key = _addkey(terms, const, w)
    if key is None:
        return _addfinish(terms, const, w)
    r = ADDKEY.get(key)
    if r is not None:
        return r
    if SCALE and not any(c & 1 for c in terms.values()):
        # common power of two: shifted sum
        g = 0
        for c in terms.values():
            g |= c
        tz = (g & -g).bit_length() - 1
        h = 1 << (w - 1)
        m = (1 << w) - 1
        inner = _addmake({t: (((c ^ h) - h) >> tz) & m for t, c in terms.items()}, const >> tz, w)
        r = shl(inner, tz, w)
        lo = const & ((1 << tz) - 1)
        if lo:
            r = mk([1 if (lo >> i) & 1 else b for i, b in enumerate(bits(r, w))])
            if type(r) is tuple:
                _regadd(r, (tuple(terms.items()), const))
        ADDKEY[key] = r
        return r
    node = len(NODE)
    NODE.append(('add', w, (tuple(terms.items()), const)))
    res = []
    carry_free = True
    items = list(terms.items())
    for i in range(w):
        if carry_free:
            # column i
            n = (const >> i) & 1
            b = n
            cnt = n
            simple = True
            for t, c in items:
                # contribution of c*t to column i and below: odd coefficient only is simple
                if c & 1:
                    if t[i]:
                        b = xor2(b, t[i])
                        cnt += 1
                    if c != 1 and any(t[:i + 1]):
                        carry_free = False
                else:
                    tz = (c & -c).bit_length() - 1
                    if i >= tz and any(t[:i - tz + 1]):
                        simple = False
            if not simple:
                carry_free = False
                res.append(AFORM[atom(('w', node, i))])
                continue
            res.append(b)
            if cnt > 1:
                carry_free = False
        else:
            res.append(AFORM[atom(('w', node, i))])
    t = _fold(tuple(res))
    ADDKEY[key] = t
    if type(t) is int:
        return t
    _regadd(t, (tuple(terms.items()), const))
    for n in (8, 16, 32):
        if n < w and all(not any(x[n:]) for x in terms) and max(t[:n]) > 1:
            _truncadd(t[:n], (tuple(terms.items()), const), n)
    return t


def addn(lst, w):
    """lst: [(coef, value)]"""
    terms = {}
    const = 0
    for c, v in lst:
        const = _accum(terms, v, c, const, w)
    r = _addmake(terms, const, w)
    if SWEEP and type(r) is tuple:
        u = SEEN.get(r)
        if u is None:
            u = _canon2(r, w)
        return u
    return r


def add(a, b, w):
    if type(a) is int and type(b) is int:
        return (a + b) & ((1 << w) - 1)
    if type(a) is int and a == 0:
        return b
    if type(b) is int and b == 0:
        return a
    return addn(((1, a), (1, b)), w)


def sub(a, b, w):
    if type(a) is int and type(b) is int:
        return (a - b) & ((1 << w) - 1)
    if type(b) is int and b == 0:
        return a
    return addn(((1, a), (-1, b)), w)


# ---------------------------------------------------------------- nodes
def opnode(op, w, args, extra=None):
    key = (op, w, args)
    r = NODEKEY.get(key)
    if r is None:
        n = len(NODE)
        NODE.append(key)
        r = tuple([AFORM[atom(('w', n, i))] for i in range(w)])
        NODEKEY[key] = r
    return r


def mul(a, b, w):
    if type(a) is int:
        if type(b) is int:
            return (a * b) & ((1 << w) - 1)
        a, b = b, a
    if type(b) is int:
        if b == 0:
            return 0
        return addn(((b, a),), w)
    if b < a:
        a, b = b, a
    return opnode('mul', w, (a, b))


def udiv(a, b, w):
    if type(b) is int:
        if b == 0:
            raise ZeroDivisionError
        if type(a) is int:
            return a // b
        if b & (b - 1) == 0:
            return lshr(a, b.bit_length() - 1, w)
        n = eff_width(a)
        if n <= 10:
            return table([v // b for v in range(1 << n)], a[:n], w)
    return opnode('udiv', w, (a, b))


def urem(a, b, w):
    if type(b) is int:
        if b == 0:
            raise ZeroDivisionError
        if type(a) is int:
            return a % b
        if b & (b - 1) == 0:
            return and_(a, b - 1, w)
        n = eff_width(a)
        if n <= 10:
            return table([v % b for v in range(1 << n)], a[:n], w)
    return opnode('urem', w, (a, b))


def eff_width(a):
    n = len(a)
    while n > 1 and a[n - 1] == 0:
        n -= 1
    return n


def rotl_var(x, amt, w):
    lw = w.bit_length() - 1
    amt = trunc(amt, lw) if type(amt) is tuple and len(amt) > lw else amt
    if type(amt) is int:
        return rotl(x, amt % w, w)
    if type(x) is int and x in (0, (1 << w) - 1):
        return x
    if type(x) is tuple:
        e = WORD2ROT.get(x)
        if e is not None:
            x, a0 = e
            amt = add(a0, amt, lw)
            if type(amt) is int:
                return rotl(x, amt, w)
    r = opnode('rotl', w, (x, amt))
    WORD2ROT.setdefault(r, (x, amt))
    return r


def rotr_var(x, amt, w):
    lw = w.bit_length() - 1
    if type(amt) is tuple and len(amt) > lw:
        amt = trunc(amt, lw)
    if type(amt) is int:
        return rotr(x, amt % w, w)
    return rotl_var(x, sub(0, amt, lw), w)


def shift_var(op, x, amt, w):
    """op in shl/lshr/ashr with symbolic amount"""
    if type(amt) is int:
        return {'shl': shl, 'lshr': lshr, 'ashr': ashr}[op](x, amt, w)
    return opnode(op, w, (x, amt))


def eq(a, b, w):
    """bit id"""
    if type(a) is int and type(b) is int:
        return 1 if a == b else 0
    if a == b:
        return 1
    x = xor(a, b, w)
    return iszero(x, w)


def iszero(x, w):
    if type(x) is int:
        return 1 if x == 0 else 0
    s = frozenset(b for b in x if b)
    if 1 in s:
        return 0
    if len(s) == 1:
        return xor2(next(iter(s)), 1)
    # all(not b) as a monomial over const-free polarity
    for b in s:
        if xor2(b, 1) in s:
            return 0
    return AFORM[atom(('z', s))]


def ult(a, b, w):
    if type(a) is int and type(b) is int:
        return 1 if a < b else 0
    if a == b:
        return 0
    if type(b) is int and b == 0:
        return 0
    if type(b) is int and b == 1:
        return iszero(a, w)
    if type(a) is int and a == (1 << w) - 1:
        return 0
    if type(b) is int and type(a) is tuple and b > sum(1 << i for i, x in enumerate(a) if x):
        return 1
    return opnode('ult', 1, (a, b))[0]


def slt(a, b, w):
    f = 1 << (w - 1)
    return ult(xor(a, f, w), xor(b, f, w), w)


def uf(name, w, args):
    """uninterpreted function; args: tuple of (words|ints|strings)"""
    return opnode('uf:' + name, w, args)


# ---------------------------------------------------------------- tables
class _Basis:
    """canonical atoms for functions of n bits; affine functions stay linear"""

    def __init__(self, n):
        self.n = n
        self.piv = {}
        self.fun = []        # index -> truth table
        self.cache = {0: []}
        self.lin = [(1 << (1 << n)) - 1]
        for i in range(n):
            t = 0
            for x in range(1 << n):
                if (x >> i) & 1:
                    t |= 1 << x
            self.lin.append(t)

    def affine(self, tt):
        """tags of an affine function, or None"""
        tags = []
        t = 0
        if tt & 1:
            tags.append('c')
            t = self.lin[0]
        c = tt & 1
        for i in range(self.n):
            if ((tt >> (1 << i)) & 1) != c:
                tags.append(i)
                t ^= self.lin[i + 1]
        return tags if t == tt else None

    def decomp(self, tt):
        """list of tags: 'c', int i (selbit), ('b',k)"""
        r = self.cache.get(tt)
        if r is not None:
            return r
        r = self.affine(tt)
        if r is None:
            t = tt
            r = []
            if t & 1:
                t ^= self.lin[0]
                r = ['c']
            while t:
                p = t.bit_length() - 1
                e = self.piv.get(p)
                if e is None:
                    a = self.affine(t)
                    if a is not None:
                        r = _symm(r, a)
                        break
                    k = len(self.fun)
                    self.fun.append(t)
                    self.piv[p] = (t, [('b', k)])
                    r = r + [('b', k)]
                    break
                t ^= e[0]
                r = _symm(r, e[1])
        self.cache[tt] = r
        return r


def _symm(a, b):
    r = list(a)
    for x in b:
        if x in r:
            r.remove(x)
        else:
            r.append(x)
    return r


_basis = {}
_ttcache = {}


def basis(n):
    b = _basis.get(n)
    if b is None:
        b = _basis[n] = _Basis(n)
    return b


def table_tts(entries, w):
    key = (entries, w)
    r = _ttcache.get(key)
    if r is None:
        r = []
        for i in range(w):
            t = 0
            m = 1 << i
            for x, v in enumerate(entries):
                if v & m:
                    t |= 1 << x
            r.append(t)
        _ttcache[key] = r
    return r


def _tt_of_form(f, n):
    """truth table of form over selbits X, if all atoms are 't' atoms over one X"""
    return None


_T = {}
_compcache = {}
_selgrp = {}


SELCANON = True
COMPOSE = True


def _selcanon(sel):
    """index bits without constant term and in order of their ids: (bits, complement mask, permutation or None)"""
    if not SELCANON:
        return sel, 0, None
    flip = 0
    ns = []
    for i, b in enumerate(sel):
        if 0 in FORM[b]:
            flip |= 1 << i
            b = xor2(b, 1)
        ns.append(b)
    perm = tuple(range(len(ns)))
    if all(i == p for i, p in enumerate(perm)):
        perm = None
        return tuple(ns), flip, None
    return tuple([ns[p] for p in perm]), flip, perm


_permc = {}


def _permuted(entries, flip, perm):
    """entries as seen through complemented and reordered index bits"""
    key = (entries, flip, perm)
    r = _permc.get(key)
    if r is None:
        n = len(entries).bit_length() - 1
        r = []
        for x in range(len(entries)):
            idx = 0
            for k in range(n):
                if (x >> k) & 1:
                    idx |= 1 << (perm[k] if perm is not None else k)
            r.append(entries[idx ^ flip])
        r = _permc[key] = tuple(r)
    return r


def table(entries, sel, w):
    """entries[idx] ints; sel: tuple of bit ids (idx LSB first); result w-bit word"""
    entries = tuple(entries)
    n = len(sel)
    assert len(entries) == 1 << n
    # drop constant select bits and duplicates
    if any(b <= 1 for b in sel) or len(set(sel)) < n:
        uniq = []
        for b in sel:
            if b > 1 and b not in uniq:
                uniq.append(b)
        ne = []
        pos = {b: i for i, b in enumerate(uniq)}
        for x in range(1 << len(uniq)):
            idx = 0
            for i, b in enumerate(sel):
                v = b if b <= 1 else (x >> pos[b]) & 1
                idx |= v << i
            ne.append(entries[idx])
        if not uniq:
            return ne[0]
        return table(ne, tuple(uniq), w)
    key0 = (entries, sel, w)
    r = _T.get(key0)
    if r is not None:
        return r
    ns, flip, perm = _selcanon(sel)
    if flip or perm is not None:
        r = table(_permuted(entries, flip, perm), ns, w)
        _T[key0] = r
        return r
    key = key0
    # composition: every atom of every select form is a table atom over the same X
    X = None
    ok = COMPOSE
    for b in sel if COMPOSE else ():
        for a in FORM[b]:
            if a == 0:
                continue
            d = ATOM[a]
            if d[0] == 't':
                if X is None:
                    X = d[1]
                elif X != d[1]:
                    ok = False
                    break
            else:
                ok = False
                break
        if not ok:
            break
    if ok and X is not None and len(X) <= 12:
        nx = len(X)
        bx = basis(nx)
        shape = []
        for b in sel:
            shape.append(tuple(sorted((-1 if a == 0 else ATOM[a][2]) for a in FORM[b])))
        ck = (entries, nx, tuple(shape))
        comp = _compcache.get(ck)
        if comp is None:
            full = (1 << (1 << nx)) - 1
            tts = []
            for s in shape:
                t = 0
                for k in s:
                    t ^= full if k < 0 else bx.fun[k]
                tts.append(t)
            comp = []
            for x in range(1 << nx):
                idx = 0
                for i, t in enumerate(tts):
                    if (t >> x) & 1:
                        idx |= 1 << i
                comp.append(entries[idx])
            comp = tuple(comp)
            _compcache[ck] = comp
        r = table(comp, X, w)
        _T[key] = r
        return r
    B = basis(n)
    out = []
    for tt in table_tts(entries, w):
        s = B.decomp(tt)
        f = 0
        plain = []
        for tag in s:
            if tag == 'c':
                plain.append(0)
            elif type(tag) is int:
                f = xor2(f, sel[tag])
            else:
                plain.append(atom(('t', sel, tag[1])))
        if plain:
            f = xor2(f, fid(frozenset(plain)))
            if n <= 5 and SWEEP and BITSWEEP:
                f = _bit(f)
        out.append(f)
    r = mk(out)
    _T[key] = r
    return r


_selsnap = {}


def select(entries, sel, w):
    """entries: list of words (some symbolic); sel bits"""
    if all(type(e) is int for e in entries):
        return table(entries, sel, w)
    if any(b <= 1 for b in sel):
        i = next(i for i, b in enumerate(sel) if b <= 1)
        ne = [e for x, e in enumerate(entries) if (x >> i) & 1 == sel[i]]
        ns = sel[:i] + sel[i + 1:]
        if not ns:
            return ne[0]
        return select(ne, ns, w)
    if all(e == entries[0] for e in entries):
        return entries[0]
    if len(sel) <= 2:
        if len(sel) == 1:
            return ite(sel[0], entries[1], entries[0], w)
        return ite(sel[1], ite(sel[0], entries[3], entries[2], w), ite(sel[0], entries[1], entries[0], w), w)
    entries = tuple(entries)
    sel, flip, perm = _selcanon(sel)
    if flip or perm is not None:
        n = len(sel)
        entries = tuple([entries[flip ^ sum(1 << (perm[k] if perm is not None else k) for k in range(n) if (x >> k) & 1)] for x in range(1 << n)])
    return opnode('sel', w, (entries, sel))


# ---------------------------------------------------------------- simulation
SIM_N = 64
SIM_MASK = (1 << SIM_N) - 1
SIM = {0: SIM_MASK}
SIMRND = {}
_idxc = {}
_rng = random.Random(12345)
VARGEN = None      # optional hook: name,i -> int bitvector of samples


def sim_seed(seed, n=64):
    global SIM_N, SIM_MASK, _rng
    SIM_N = n
    SIM_MASK = (1 << n) - 1
    _rng = random.Random(seed)
    SIM.clear()
    SIM[0] = SIM_MASK


def _varval(name, i):
    k = (name, i)
    v = SIMRND.get(k)
    if v is None:
        v = _rng.getrandbits(SIM_N)
        SIMRND[k] = v
    return v


def sim_form(f):
    r = 0
    for a in FORM[f]:
        v = SIM.get(a)
        if v is None:
            _sim_need(a)
            v = SIM[a]
        r ^= v
    return r


def sim_word(v, w):
    if type(v) is int:
        return [SIM_MASK if (v >> i) & 1 else 0 for i in range(w)]
    return [sim_form(b) for b in v]


def sim_samples(v, w):
    """list of SIM_N ints"""
    cols = sim_word(v, w)
    return transpose(cols, SIM_N)


def transpose(cols, n):
    if not cols:
        return [0] * n
    w = len(cols)
    # via strings: fast enough
    fmt = '0%db' % n
    rows = [format(c, fmt) for c in reversed(cols)]
    return [int(''.join(x), 2) for x in zip(*rows)][::-1]


def untranspose(vals, w):
    """list of ints (samples) -> list of w bit columns"""
    fmt = '0%db' % w
    rows = [format(v, fmt) for v in reversed(vals)]
    return [int(''.join(x), 2) for x in zip(*rows)][::-1]


def atom_deps(a):
    d = ATOM[a]
    k = d[0]
    if k == '&' or k == 'z':
        return d[1]
    if k == 't':
        return d[1]
    if k == 'w':
        return node_deps(d[1])
    if k == 'd':
        return (d[1],)
    return ()


def node_deps(n):
    op, w, args = NODE[n]
    out = []
    if op == 'add':
        for t, c in args[0]:
            out.extend(t)
    elif op == 'sel':
        for e in args[0]:
            if type(e) is tuple:
                out.extend(e)
        out.extend(args[1])
    else:
        for x in args:
            if type(x) is tuple:
                out.extend(x)
    return out


def _sim_need(a0):
    stack = [a0]
    while stack:
        a = stack[-1]
        if a in SIM:
            stack.pop()
            continue
        d = ATOM[a]
        pend = False
        if d[0] != 'v':
            for f in set(atom_deps(a)):
                for x in FORM[f]:
                    if x not in SIM:
                        stack.append(x)
                        pend = True
        if pend:
            continue
        stack.pop()
        _sim_eval(a, d)


def _sim_eval(a, d):
    k = d[0]
    if k == 'v':
        SIM[a] = _varval(d[1], d[2])
    elif k == '&':
        r = SIM_MASK
        for f in d[1]:
            r &= sim_form(f)
        SIM[a] = r
    elif k == 'z':
        r = 0
        for f in d[1]:
            r |= sim_form(f)
        SIM[a] = r ^ SIM_MASK
    elif k == 't':
        idx = _idxc.get(d[1])
        if idx is None:
            idx = _idxc[d[1]] = transpose([sim_form(f) for f in d[1]], SIM_N)
        tt = _basis[len(d[1])].fun[d[2]]
        r = 0
        for i, x in enumerate(idx):
            if (tt >> x) & 1:
                r |= 1 << i
        SIM[a] = r
    elif k == 'd':
        SIM[a] = sim_form(d[1])
    else:
        n = d[1]
        cols = _sim_node(n)
        # fill every atom of the node
        for i, c in enumerate(cols):
            x = AKEY.get(('w', n, i))
            if x is not None:
                SIM[x] = c


def _hexed(a):
    return hex(a) if type(a) is int else tuple([_hexed(x) for x in a]) if type(a) in (tuple, list) else a


def _hash_uf(name, args, w):
    import hashlib
    h = hashlib.blake2b(repr((name, _hexed(args))).encode(), digest_size=64)
    r = 0
    out = h.digest()
    while len(out) * 8 < w:
        h.update(b'x')
        out += h.digest()
    return int.from_bytes(out, 'little') & ((1 << w) - 1)


UFEVAL = {}     # name -> concrete function(args)->int


def _sim_node(n):
    op, w, args = NODE[n]
    if op == 'add':
        m = (1 << w) - 1
        acc = [args[1]] * SIM_N
        for t, c in args[0]:
            s = sim_samples(t, w)
            acc = [x + c * y for x, y in zip(acc, s)]
        return untranspose([x & m for x in acc], w)
    if op == 'sel':
        idx = transpose([sim_form(f) for f in args[1]], SIM_N)
        memo = {}
        vals = []
        for i, x in enumerate(idx):
            if x not in memo:
                memo[x] = sim_samples(args[0][x], w)
            vals.append(memo[x][i])
        return untranspose(vals, w)
    if op == 'ult':
        ww = len(args[0]) if type(args[0]) is tuple else len(args[1])
        A = sim_samples(args[0], ww)
        B = sim_samples(args[1], ww)
        return untranspose([1 if x < y else 0 for x, y in zip(A, B)], 1)
    A = [sim_samples(x, len(x)) if type(x) is tuple else [x] * SIM_N for x in args]
    m = (1 << w) - 1
    if op == 'mul':
        return untranspose([(x * y) & m for x, y in zip(*A)], w)
    if op == 'udiv':
        return untranspose([x // y if y else m for x, y in zip(*A)], w)
    if op == 'urem':
        return untranspose([x % y if y else x for x, y in zip(*A)], w)
    if op == 'rotl':
        return untranspose([rotl(x, y % w, w) for x, y in zip(*A)], w)
    if op == 'shl':
        return untranspose([(x << y) & m if y < w else 0 for x, y in zip(*A)], w)
    if op == 'lshr':
        return untranspose([x >> y if y < w else 0 for x, y in zip(*A)], w)
    if op == 'ashr':
        return untranspose([ashr(x, min(y, w - 1), w) for x, y in zip(*A)], w)
    if op.startswith('uf:'):
        f = UFEVAL.get(op[3:])
        vals = []
        for tup in zip(*A) if A else [()] * SIM_N:
            vals.append(f(*tup) & m if f else _hash_uf(op, tup, w))
        return untranspose(vals, w)
    raise NotImplementedError(op)


# ---------------------------------------------------------------- support
def support(words):
    """variable (name,bit) pairs the words depend on"""
    seen = set()
    out = set()
    stack = []
    for v in words:
        if type(v) is tuple:
            for b in v:
                stack.extend(FORM[b])
    while stack:
        a = stack.pop()
        if a in seen:
            continue
        seen.add(a)
        d = ATOM[a]
        if d[0] == 'v':
            out.add((d[1], d[2]))
        elif d[0] != '1':
            for f in set(atom_deps(a)):
                stack.extend(FORM[f])
    return out


def depends_on(v, pred):
    """does word v syntactically depend on a variable whose name satisfies pred"""
    if type(v) is int:
        return False
    return any(pred(n) for n, _ in support([v]))


# ---------------------------------------------------------------- generalisation
_nrebase = [0]


def rebase(words, tag='K', keep_small=2):
    """Replace the bits of the given words by a basis of fresh variables.

    Every GF(2)-linear relation among the given bits is kept; everything else about
    them is forgotten, so whatever is proved afterwards holds for more values than the
    words can take (a sound generalisation).  Returns the list of replaced words."""
    n = _nrebase[0]
    _nrebase[0] += 1
    piv = {}         # pivot atom index -> (vector, combination of fresh bits)
    fresh = 0
    cache = {}
    amap = {}
    order = []

    dvec = {}

    def vec(f):
        v = 0
        for a in FORM[f]:
            if ATOM[a][0] == 'd':
                x = dvec.get(a)
                if x is None:
                    x = dvec[a] = vec(ATOM[a][1])
                v ^= x
                continue
            i = amap.get(a)
            if i is None:
                i = amap[a] = len(amap)
            v ^= 1 << i
        return v
    amap[0] = 0
    piv[0] = (1, 1)     # constant one: combination bit 0
    k = [1]
    names = [1]         # fresh index -> bit id
    out = []
    for wi, w in enumerate(words):
        if type(w) is int:
            out.append(w)
            continue
        bitsout = []
        for bi, b in enumerate(w):
            if b <= 1:
                bitsout.append(b)
                continue
            r = cache.get(b)
            if r is None:
                v = vec(b)
                c = 0
                while v:
                    p = v.bit_length() - 1
                    e = piv.get(p)
                    if e is None:
                        nb = AFORM[atom(('v', '%s%d' % (tag, n), k[0]))]
                        names.append(nb)
                        piv[p] = (v, c | (1 << k[0]))
                        c = 1 << k[0]
                        k[0] += 1
                        break
                    v ^= e[0]
                    c ^= e[1]
                r = 0
                i = 0
                s = set()
                while c:
                    if c & 1:
                        r = xor2(r, names[i])
                    c >>= 1
                    i += 1
                cache[b] = r
            bitsout.append(r)
        out.append(mk(bitsout))
    return out

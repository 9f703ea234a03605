"""P04: every hash computes the function its standard defines, for messages of every length in every split."""
import ctypes
import hashlib
import random
from kv import fake, fold, native, offs, run
from kv import terms as T
from kv.machine import Ptr, Unsupported, Violation
from kv.obl import Group
from kv.run import THOROUGH
from kv.scen import S, same, Mismatch
from kv.spec import hashes as H
from kv.word import W, B, le, be, les, bes, tole, tobe, bytesW, ints, pad0


def w2(bs):
    return [W(b, 8) for b in bs]


def v2(ws):
    return [x.v for x in ws]


# ---------------------------------------------------------------- layout of the private object
FIELDS = {'md5': ['h', 'len', 'buf'], 'sha1': ['h', 'len', 'buf'], 'sha2_256': ['h', 'len', 'buf', 'r'], 'sha2_512': ['h', 'len', 'buf', 'r'],
          'tiger': ['h', 'len', 'buf', 'passes'], 'whirlpool': ['h', 'len', 'buf', 'r'],
          'blake256': ['h', 'len', 'buf', 'r', 's'], 'blake512': ['h', 'len', 'buf', 'r', 's'],
          'blake2s': ['h', 'len', 'buf', 'r', 'f'], 'blake2b': ['h', 'len', 'buf', 'r', 'f']}


class Lay:
    def __init__(self, sp):
        self.o = offs.fields('hash/' + sp.name, 'kripto_hash', FIELDS[sp.name])
        want = {'h': sp.nw * sp.w // 8, 'len': sp.ctrbytes, 'buf': sp.B, 's': 4 * sp.w // 8, 'f': sp.w // 8}
        for k, n in want.items():
            if k in self.o and self.o[k][1] != n:
                raise Unsupported('field %s has %d bytes' % (k, self.o[k][1]))
        self.rounds = self.o.get('passes', self.o.get('r'))
        self.size = self.o[''][1]

    def get(self, st, p, k):
        o, n = self.o[k]
        return st.bytes_at(Ptr(p.obj, p.off + o), n)

    def r(self, st, p):
        if self.rounds is None:
            return 0
        b = st.bytes_at(Ptr(p.obj, p.off + self.rounds[0]), 4)
        if any(type(x) is not int for x in b):
            raise Unsupported('rounds')
        return sum(x << (8 * i) for i, x in enumerate(b))


def args_of(sp, lay, st, p):
    """what the compression function depends on besides the chaining value and the block"""
    a = {'rounds': lay.r(st, p)}
    if sp.blake or sp.two:
        a['ctr'] = lay.get(st, p, 'len')
    if sp.blake:
        a['salt'] = lay.get(st, p, 's')
    if sp.two:
        a['flag'] = lay.get(st, p, 'f')
    return a


def comp(sp, cv, block, rounds=0, ctr=None, salt=None, flag=None):
    """the definition, on byte lists in the order of memory"""
    kw = {'rounds': rounds}
    if ctr is not None:
        kw['ctr'] = les(w2(ctr), sp.w)
    if salt is not None:
        kw['salt'] = les(w2(salt), sp.w)
    if flag is not None:
        kw['flag'] = le(w2(flag))
    return v2(tole(sp.comp(les(w2(cv), sp.w), w2(block), **kw)))


def comp_uf(sp, cv, block, rounds=0, ctr=None, salt=None, flag=None):
    return fake.uf(sp.name + '.compress', len(cv), [rounds, cv, block] + [x for x in (ctr, salt, flag) if x is not None])


def process(m, sp):
    for mod in m.mods.values():
        if mod.name == 'hash/' + sp.name or len(m.mods) == 1:
            if sp.proc in mod.funcs:
                return mod.funcs[sp.proc]
    for mod in m.mods.values():
        if sp.proc in mod.funcs:
            return mod.funcs[sp.proc]
    raise Unsupported('no function %s' % sp.proc)


def compression(sp, rounds):
    """{P: object of the hash with any contents, data = its buffer} process {h = compress(h, buf, ...), all else unchanged}"""
    def go():
        lay = Lay(sp)
        s = S(['hash/' + sp.name], strict=False)
        f = process(s.m, sp)
        if len(f.params) != 2:
            raise Unsupported('parameters of ' + sp.proc)
        cells = [T.var('o[%d]' % i, 8) for i in range(lay.size)]
        if lay.rounds:
            o, n = lay.rounds
            cells[o:o + n] = [rounds >> (8 * i) & 255 for i in range(n)]
        p = s.st.new(lay.size, 'arg', 'object', list(cells))
        a = args_of(sp, lay, s.st, p)
        want = list(cells)
        h = lay.o['h'][0]
        blk = lay.get(s.st, p, 'buf')
        want[h:h + lay.o['h'][1]] = comp(sp, lay.get(s.st, p, 'h'), blk, **a)
        outs = s.m.call(s.st, f, [p, Ptr(p.obj, lay.o['buf'][0])])
        if len(outs) != 1 or outs[0].kind != 'ret':
            raise Unsupported('several outcomes')
        same(outs[0].st.get(p.obj).cells, want, 'chaining value after one block')
        return s.m.functions
    return go


# ---------------------------------------------------------------- the iteration
def num_add(bs, n):
    k = len(bs) * 8
    v = T.add(T.concat([(b, 8) for b in bs]), n, k)
    return [T.extract(v, 8 * i, 8) for i in range(len(bs))]


class Iter:
    """state: chaining value, buffer, counter, salt (bytes as in memory)"""
    unit = 1

    def __init__(self, sp, out_len, rounds):
        self.sp, self.P, self.out_len, self.rounds = sp, sp.B, out_len, rounds
        self.ncv = sp.nw * sp.w // 8
        self.nsalt = 4 * sp.w // 8 if sp.blake else 0
        self.c0 = self.ncv + sp.B
        wb = sp.w // 8
        self.words = [(0, self.ncv), (self.ncv, sp.B), (self.c0, sp.ctrbytes), (self.c0 + sp.ctrbytes, self.nsalt)]
        self.two = sp.two

    def init(self, salt):
        sp = self.sp
        cv = v2(tole(sp.iv(self.out_len, w2(salt))))
        sl = v2(tole(bes(pad0(w2(salt), self.nsalt), sp.w))) if sp.blake else []
        return cv + [0] * sp.B + [0] * sp.ctrbytes + sl

    def parts(self, sg):
        return sg[:self.ncv], sg[self.ncv:self.c0], sg[self.c0:self.c0 + self.sp.ctrbytes], sg[self.c0 + self.sp.ctrbytes:]

    def comp(self, cv, buf, ctr, salt, flag=0):
        sp = self.sp
        a = {'rounds': self.rounds or sp.rounds}
        if sp.blake:
            a['ctr'], a['salt'] = ctr, salt
        if sp.two:
            a['ctr'], a['flag'] = ctr, [flag] * (sp.w // 8)
        return comp_uf(sp, cv, buf, **a)

    def step(self, sg, t, x):
        cv, buf, ctr, salt = self.parts(sg)
        B_, i = self.sp.B, t % self.sp.B
        buf = list(buf)
        if self.two:
            if t and i == 0:
                ctr = num_add(ctr, B_)
                cv = self.comp(cv, buf, ctr, salt)
            buf[i] = x[0]
        else:
            buf[i] = x[0]
            if i == B_ - 1:
                ctr = num_add(ctr, 8 * B_)
                cv = self.comp(cv, buf, ctr, salt)
        return list(cv) + buf + list(ctr) + list(salt), []

    def final(self, sg, t):
        sp = self.sp
        cv, buf, ctr, salt = self.parts(sg)
        B_, i = sp.B, t % sp.B
        if self.two:
            n = B_ if t and i == 0 else i
            ctr = num_add(ctr, n)
            cv = self.comp(cv, buf[:n] + [0] * (B_ - n), ctr, salt, 255)
        else:
            ctr = num_add(ctr, 8 * i)
            blk = buf[:i] + [sp.pad]
            n = i
            if len(blk) > sp.lenat:
                cv = self.comp(cv, blk + [0] * (B_ - len(blk)), ctr, salt)
                blk = []
                n = 0
            blk = blk + [0] * (sp.lenat - len(blk))
            if sp.blake and self.out_len > (28 if sp.w == 32 else 48):
                blk[-1] = T.xor(blk[-1], 1, 8)
            length = (list(ctr) + [0] * sp.lenbytes)[:sp.lenbytes]
            blk += length if sp.lenend == 'L' else length[::-1]
            cv = self.comp(cv, blk, ctr if n else [0] * len(ctr), salt)
        k = sp.w // 8
        return cv if sp.end == 'L' else [b for j in range(0, len(cv), k) for b in cv[j:j + k][::-1]]


class HFold(fold.Fold):
    """the counter is a multiple of the block (invariant) and stays below its highest byte (precondition)"""

    def mask(self):
        """byte of sigma -> low bits of it that are zero, and the byte assumed zero"""
        sp = self.spec
        z = sp.sp.B if sp.two else 8 * sp.sp.B
        n = z.bit_length() - 1
        lo = sp.c0 + (24 if sp.sp.name == 'whirlpool' else 0)
        low = {lo + i: min(8, n - 8 * i) for i in range((n + 7) // 8)}
        return low, (sp.c0 + 7 if sp.sp.name == 'whirlpool' else sp.c0 + sp.sp.ctrbytes - 1)

    def havoc(self, u, tag):
        sig = fold.Fold.havoc(self, u, tag)
        low, top = self.mask()
        sig[top] = 0
        for j, k in low.items():
            if type(sig[j]) is not int:
                sig[j] = 0 if k == 8 else T.shl(T.lshr(sig[j], k, 8), k, 8)
        return sig

    def pinned(self, u, sig):
        fold.Fold.pinned(self, u, sig)
        low, _ = self.mask()
        for j, k in low.items():
            same([T.and_(sig[j], (1 << k) - 1, 8)], [0], 'the counter is no multiple of the block')

    def decided(self, name):
        c = self.spec.c0
        i = name[name.find('[') + 1:-1]
        return name[0] in 'VW' and i.isdigit() and c <= int(i) < c + self.spec.sp.ctrbytes


class Whirl(Iter):
    """the counter of Whirlpool: four words, the last one lowest"""

    def order(self, c):
        return [b for j in range(24, -1, -8) for b in c[j:j + 8]]

    def parts(self, sg):
        cv, buf, ctr, salt = Iter.parts(self, sg)
        return cv, buf, self.order(ctr), salt

    def step(self, sg, t, x):
        sg, o = Iter.step(self, sg, t, x)
        return sg[:self.c0] + self.order(sg[self.c0:]), o


def setup(sp, lay=None):
    s = S(['hash', 'hash/' + sp.name], lazy=True)
    process(s.m, sp)
    lay = lay or Lay(sp)

    def hook(m, st, a):
        if len(a) != 2 or type(a[0]) is not Ptr or type(a[1]) is not Ptr or a[1].obj != a[0].obj or a[1].off - a[0].off != lay.o['buf'][0] or a[0].sym is not None:
            raise Unsupported('arguments of ' + sp.proc)
        if st.get(a[0].obj).size != lay.size:
            raise Unsupported('object of ' + sp.proc)
        r = comp_uf(sp, lay.get(st, a[0], 'h'), lay.get(st, a[0], 'buf'), **args_of(sp, lay, st, a[0]))
        st.put_bytes(Ptr(a[0].obj, a[0].off + lay.o['h'][0]), r)
    s.m.hooks[sp.proc] = hook
    from kv import lib
    s.desc = lib.desc(s.m, 'hash/' + sp.name, 'kripto_hash_' + sp.name)
    return s


def mkfold(sp, out_len, rounds, salt_len):
    s = setup(sp)
    st0 = s.st.fork()
    spec = (Whirl if sp.name == 'whirlpool' else Iter)(sp, out_len, rounds)

    def make(g):
        q = S.__new__(S)
        q.m, q.st, q.n = s.m, st0.fork(), 0
        salt = g('salt', salt_len)
        o = q('kripto_hash_create', s.desc, rounds, q.inbuf('salt', salt) if salt_len else 0, salt_len, out_len)
        return q, o, spec.init(salt)

    def feed(q, o, x):
        q('kripto_hash_input', o, q.inbuf('x', x), len(x))
        return []
    F = HFold('%s.%d' % (sp.name, out_len), make, feed, spec, runs=3, cycles=2, concrete=True)
    F.st0, F.mach, F.desc = st0, s.m, s.desc
    s.m.solver = fold._Solver((), F.decided)
    return F


def finals(F, q, o, sg, t, lens):
    want = F.spec.final(sg, t)
    for split in lens:
        st = q.st.fork()
        got = []
        for n in split:
            p = q.out(n)
            q('kripto_hash_output', o, p, n)
            got += q.get(p, n)
        same(got, want[:len(got)], 'digest at position %d, read as %s' % (t, '+'.join(map(str, split))))
        q.st = st


def splits(n, t, B_):
    out = [(n,)]
    if t % B_ in (0, 1, B_ - 1):
        out += [(1,) * n, (0, n), (n - 1, 1)] + [(k,) for k in range(1, n)] + [(k, n - k) for k in range(1, n)]
    elif n > 1:
        out += [(n // 2, n - n // 2)]
    return out


def iter_task(name, out_len, rounds=0, salt_len=None, full=True):
    sp = H.ALL[name]
    salt_len = sp.salt if salt_len is None else salt_len
    G = Group('%s, %d bytes of output, %d rounds, salt of %d' % (name, out_len, rounds, salt_len), lambda: native_hash(name))
    F = None

    def disc():
        nonlocal F
        F = mkfold(sp, out_len, rounds, salt_len)
        F.discover()
    G.prove('invariant: every byte of the state determined by the definition\'s state, first runs', disc)
    G.prove('from create through the first block, with the digest of every message shorter than a block',
            lambda: F.base(lambda q, o, sg, t: finals(F, q, o, sg, t, splits(out_len, t, sp.B))) or F.functions)

    def dig():
        for u in F.positions():
            q, o, sg = F.at(u)
            finals(F, q, o, sg, u, splits(out_len, u, sp.B))
    G.prove('digest of every message, from every state', dig)
    if full:
        G.prove('input of every length from every state', lambda: fold.every_length(F, lambda q, h, ps, n: q('kripto_hash_input', h, ps[0], n), ('in',)) and None, optional=True)
    if not full or G.soft:
        G.prove('one byte from every state', F.inductive)

    def bounded():
        bs = sp.B
        for pieces in [(0,), (1,), (bs - 1,), (bs,), (bs + 1,), (2 * bs,), (1, bs - 1), (bs, 1), (bs - 1, 2), (1, 0, bs), (2, 2 * bs)]:
            f = mkfold(sp, out_len, rounds, salt_len)
            q, o, sg = f.make(lambda tag, n: [T.var('%s[%d]' % (tag, i), 8) for i in range(n)])
            t = 0
            for j, n in enumerate(pieces):
                x = q.data('d%d' % j, n)
                q('kripto_hash_input', o, q.inbuf('d', x), n)
                for c in x:
                    sg, _ = f.spec.step(sg, t, [c])
                    t += 1
            finals(f, q, o, sg, t, [(out_len,)])
    return G.close(bounded, 'messages of up to 2 blocks in 11 splits, data symbolic')


# ---------------------------------------------------------------- set-up and the one-call form
def setup_task(name):
    sp = H.ALL[name]
    G = Group('%s, creation and the one-call form' % name, lambda: native_hash(name))

    def init():
        fns = set()
        salts = sorted({0, 1, sp.salt - 1, sp.salt, sp.salt // 2, sp.w // 8}) if sp.salt else [0]
        if sp.salt:
            salts = range(sp.salt + 1)
        for sl in salts:
            for ol in range(1, sp.maxout + 1):
                if sl not in (0, sp.salt) and ol not in (1, sp.maxout):
                    continue
                for re in (False, True):
                    f = mkfold(sp, ol, 0, sl)
                    g = lambda tag, k: [T.var('%s[%d]' % (tag, i), 8) for i in range(k)]
                    q, o, sg = f.make(g)
                    if re:
                        x = q.data('w', 3)
                        q('kripto_hash_input', o, q.inbuf('w', x), 3)
                        p = q.out(1)
                        q('kripto_hash_output', o, p, 1)
                        salt = g('salt', sl)
                        o = q('kripto_hash_recreate', o, 0, q.inbuf('salt', salt) if sl else 0, sl, ol)
                    x = q.data('x', 2)
                    q('kripto_hash_input', o, q.inbuf('x', x), 2)
                    for t in range(2):
                        sg, _ = f.spec.step(sg, t, [x[t]])
                    finals(f, q, o, sg, 2, [(ol,)])
                    fns |= q.m.functions
        return fns
    G.prove('every salt length and output length', init)

    def consts():
        s = setup(sp)
        for fn, want in (('kripto_hash_maxout', sp.maxout), ('kripto_hash_blocksize', sp.B), ('kripto_hash_maxsalt', sp.salt)):
            if s(fn, s.desc) != want:
                raise Mismatch(fn)
    G.prove('limits', consts)

    def one():
        return one_call_contract(lambda: setup(sp), sp.salt, sp.maxout)
    if not G.prove('one-call form for every length', one, optional=True) and not G.fail:
        def short():
            for n in (0, 1, sp.B - 1, sp.B, sp.B + 1):
                for ol in (1, sp.maxout):
                    f = mkfold(sp, ol, 0, sp.salt)
                    q, _, sg = f.make(lambda tag, k: [T.var('%s[%d]' % (tag, i), 8) for i in range(k)])
                    x = q.data('m', n)
                    p = q.out(ol)
                    salt = [T.var('salt[%d]' % i, 8) for i in range(sp.salt)]
                    if q('kripto_hash_all', f.desc, 0, q.inbuf('salt', salt) if salt else 0, sp.salt, q.inbuf('m', x) if n else 0, n, p, ol) != 0:
                        raise Mismatch('kripto_hash_all fails')
                    for t, c in enumerate(x):
                        sg, _ = f.spec.step(sg, t, [c])
                    same(q.get(p, ol), f.spec.final(sg, n)[:ol], 'kripto_hash_all, %d bytes' % n)
        G.prove('one-call form of short messages', short)
    return G.close(None, 'native differential runs')


def one_call_contract(mk, maxsalt, outn):
    """the one-call form is recreate, input, output on a local object: checked against their contracts, any length"""
    for sl in {0, maxsalt}:
        s = mk()
        slots = one_slots(s)
        log = []
        for k in ('recreate', 'input', 'output'):
            def hook(m, st, a, k=k):
                log.append((k, tuple(a)))
                if k == 'recreate':
                    return a[0]
                if k == 'output':
                    if type(a[2]) is not int:
                        raise Unsupported('length of output')
                    st.put_bytes(a[1], fake.uf('digest', a[2], [1]))
            s.m.hooks[slots[k]] = hook
        n = T.var('n', 64)
        data = s.inbuf('m', s.data('m', 4))
        salt = s.inbuf('salt', s.data('salt', sl)) if sl else 0
        p = s.out(outn)
        v = s('kripto_hash_all', s.desc, 5, salt, sl, data, n, p, outn)
        if v != 0:
            raise Mismatch('kripto_hash_all returns %r' % (v,))
        if [k for k, _ in log] != ['recreate', 'input', 'output']:
            raise Unsupported('one-call form: %s' % [k for k, _ in log])
        r, i, o = (a for _, a in log)
        if not (r[1:] == (5, salt, sl, outn) and i == (r[0], data, n) and o == (r[0], p, outn)):
            raise Unsupported('one-call form: arguments')
        same(s.get(p, outn), fake.uf('digest', outn, [1]), 'digest')
    return s.m.functions


def one_slots(s):
    """names of the functions in a hash descriptor, in its order"""
    st = s.st
    names = {}
    from kv.machine import Fn
    for k, i in (('recreate', 1), ('input', 2), ('output', 3)):
        v = st.load_ptr(Ptr(s.desc.obj, s.desc.off + 8 * i))
        if type(v) is not Fn:
            raise Unsupported('descriptor')
        names[k] = v.name
    return names


def compress_task(name, rounds):
    sp = H.ALL[name]
    G = Group('%s compression function, %d rounds' % (name, rounds or sp.rounds), lambda: native_hash(name))
    G.prove('contract: chaining value from any chaining value, block, counter', compression(sp, rounds or sp.rounds))
    return G.close(None, 'native differential runs')


# ---------------------------------------------------------------- native
def spec_hash(sp, msg, out_len, salt=b'', rounds=0):
    cv = sp.iv(out_len, bytesW(salt))
    mask = (1 << sp.w) - 1
    sl = bes(pad0(bytesW(salt), 4 * sp.w // 8), sp.w) if sp.blake else None

    def c(cv, blk, n, flag=0):
        return sp.comp(cv, bytesW(blk), rounds=rounds, salt=sl, ctr=[W(n & mask, sp.w), W(n >> sp.w, sp.w)], flag=flag)
    n = len(msg)
    if sp.two:
        blks = [msg[i:i + sp.B] for i in range(0, n, sp.B)] or [b'']
        for i, b in enumerate(blks):
            cv = c(cv, b + bytes(sp.B - len(b)), min(n, (i + 1) * sp.B), mask if i == len(blks) - 1 else 0)
    else:
        p = msg + bytes([sp.pad])
        while len(p) % sp.B != sp.lenat:
            p += b'\0'
        if sp.blake and out_len > (28 if sp.w == 32 else 48):
            p = p[:-1] + bytes([p[-1] ^ 1])
        p += (8 * n).to_bytes(sp.lenbytes, 'little' if sp.lenend == 'L' else 'big')
        for i in range(0, len(p), sp.B):
            cv = c(cv, p[i:i + sp.B], 0 if i >= n else min(8 * n, 8 * (i + sp.B)))
    return ints(tole(cv) if sp.end == 'L' else tobe(cv))[:out_len]


def pieces_of(r, n):
    out = []
    if r.randrange(3) == 0:
        return [n]
    while n > 0:
        k = min(n, r.choice((0, 1, 2, r.randrange(n + 1), n, 64, 63, 65, 128)))
        out.append(k)
        n -= k
    return out or [0]


def drive(L, d, s, msg, r, ol, rounds, salt):
    s = L.kripto_hash_recreate(s, rounds, salt, len(salt), ol) if s else L.kripto_hash_create(d, rounds, salt, len(salt), ol)
    p = 0
    ps = pieces_of(r, len(msg))
    for k in ps:
        L.kripto_hash_input(s, msg[p:p + k], k)
        p += k
    got = b''
    os = pieces_of(r, ol)
    for k in os:
        o = ctypes.create_string_buffer(max(1, k))
        L.kripto_hash_output(s, o, k)
        got += o.raw[:k]
    return s, got, ps, os


def native_hash(name, seed=0, n=200):
    sp = H.ALL[name]
    r = random.Random('%s/%d' % (name, seed))
    L = native.load()
    d = native.desc('kripto_hash_' + name)
    s = None
    for i in range(n):
        B_ = sp.B
        k = r.choice((0, 1, sp.lenat, max(0, sp.lenat - 1), sp.lenat + 1, B_ - 1, B_, B_ + 1, 2 * B_, 2 * B_ + 1, r.randrange(300), 4096 + r.randrange(3) if i % 50 == 0 else 5))
        msg = r.randbytes(k)
        ol = r.choice((sp.maxout, sp.maxout, 1 + r.randrange(sp.maxout), 28 if sp.w == 32 and sp.maxout > 28 else 1, 29 if sp.maxout > 29 else 1, 48 if sp.maxout > 48 else 2))
        salt = r.randbytes(r.choice((0, sp.salt, r.randrange(sp.salt + 1)))) if sp.salt else b''
        rounds = 0
        if i % 4 == 3 and sp.rounds:
            rounds = {'tiger': 4, 'whirlpool': 3, 'sha2_256': r.choice((32, 128)), 'sha2_512': r.choice((48, 160))}.get(name, 5)
        want = spec_hash(sp, msg, ol, salt, rounds)
        s, got, ps, os = drive(L, d, s if i % 5 else None, msg, r, ol, rounds, salt)
        rec = {'hash': name, 'rounds': rounds, 'salt': salt.hex(), 'message': msg.hex(), 'pieces': ps, 'read': os, 'expected': want.hex()}
        if got != want:
            return dict(rec, got=got.hex())
        o = ctypes.create_string_buffer(ol)
        L.kripto_hash_all(d, rounds, salt, len(salt), msg, k, o, ol)
        if o.raw != want:
            return dict(rec, got=o.raw.hex(), call='kripto_hash_all')
    return None


PY = {'md5': ('md5', 16), 'sha1': ('sha1', 20), 'sha2_256': ('sha256', 32), 'sha2_512': ('sha512', 64)}


def lib_task():
    """bounded: the library and the definitions against Python's hashlib"""
    import time
    from kv.run import Ob
    t0 = time.time()
    obs = []

    def go():
        L = native.load()
        r = random.Random(5)
        tests = [(n, p, l, 0) for n, (p, l) in PY.items()] + [('sha2_256', 'sha224', 28, 0), ('sha2_512', 'sha384', 48, 0), ('blake2s', 'blake2s', 32, 0), ('blake2b', 'blake2b', 64, 0),
                 ('sha3', 'sha3_224', 28, 0), ('sha3', 'sha3_256', 32, 0), ('sha3', 'sha3_384', 48, 0), ('sha3', 'sha3_512', 64, 0)]
        for n, p, l, rounds in tests:
            d = native.desc('kripto_hash_' + n)
            for k in list(range(0, 300, 7)) + [55, 56, 63, 64, 65, 111, 112, 127, 128, 129, 135, 136, 137, 143, 144, 71, 72, 1000]:
                m = r.randbytes(k)
                want = hashlib.new(p, m).digest()
                _, got, ps, os = drive(L, d, None, m, r, l, rounds, b'')
                if got != want:
                    return {'hash': n, 'message': m.hex(), 'pieces': ps, 'read': os, 'got': got.hex(), 'expected': want.hex(), 'oracle': 'hashlib.' + p}
                if n in H.ALL and spec_hash(H.ALL[n], m, l) != want:
                    return {'specification': n, 'message': m.hex(), 'note': 'the specification itself differs from hashlib'}
        return None
    ok, v = native.isolated(go, timeout=200)
    if (ok and v is not None) or (not ok and native.crash(v)):
        obs.append(Ob('hashes against hashlib', 'violated', str(v), time.time() - t0, replay={'input': v}))
    else:
        obs.append(Ob('hashes against hashlib', 'bounded' if ok else 'unknown', str(v) if not ok else '', time.time() - t0, bound='60 lengths up to 1000 bytes, random splits'))
    return obs


def tasks():
    ts = []
    for name, sp in H.ALL.items():
        rs = [0]
        if sp.rounds:
            rs += {'tiger': [4], 'whirlpool': [3], 'sha2_256': [32], 'sha2_512': [48], 'blake256': [11], 'blake512': [11], 'blake2s': [11], 'blake2b': [11]}[name]
        for r in rs:
            ts.append(('compress %s %d' % (name, r), compress_task, (name, r), 600))
        ols = sorted({sp.maxout, {32: 28, 64: 48}.get(sp.maxout, sp.maxout)}) if not (sp.name in ('md5', 'sha1', 'tiger', 'whirlpool') or sp.two) else [sp.maxout]
        for ol in ols:
            ts.append(('iter %s %d' % (name, ol), iter_task, (name, ol), 600))
        if sp.blake:
            for ol in ((1, 20, 29, 30) if sp.w == 32 else (1, 32, 49, 50)):
                ts.append(('iter %s %d' % (name, ol), iter_task, (name, ol, 0, 3, False), 600))
        ts.append(('create %s' % name, setup_task, (name,), 600))
    ts.append(('hashlib', lib_task, (), 250))
    try:
        from checks import p04_sponge
        ts += p04_sponge.tasks()
    except ImportError:
        pass
    return ts


ASSUME = [
    'a message is shorter than 2^(c-8) bits, c the width of the algorithm\'s bit counter in the code (64 bits for MD5, SHA-1, SHA-256, Tiger, BLAKE-256): beyond, the library asserts',
    'output of at least one byte; a digest is read once, in any number of pieces',
    'iteration: the compression function is an uninterpreted function of (rounds, chaining value, block, counter, salt, flag), whose contract is proved separately for the default and one or two other numbers of rounds',
    'SHA-2 with an odd number of rounds, or one not reached by the unrolled loop, is outside',
]


def main():
    native.path()
    obs = run.run_tasks(tasks(), deadline=840)
    run.finish('P04', obs, assumptions=ASSUME)


if __name__ == '__main__':
    main()

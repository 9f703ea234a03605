"""Front end: clang -> LLVM IR text -> Python structures (only the IR subset C99 code needs)."""
import os
import re
import subprocess

REPO = os.environ.get('KV_REPO', '/repo')
CLANG = '/usr/bin/clang-18'
OPT = '/usr/bin/opt-18'
CFLAGS = ['-std=c99', '-I', REPO + '/include/', '-fPIC', '-D_ANSI_SOURCE', '-D_ISOC99_SOURCE',
          '-D_LARGEFILE64_SOURCE', '-D_FILE_OFFSET_BITS=64', '-DKRIPTO_UNIX']


class ExtractionError(Exception):
    pass


def emit_ll(src, out, extra=()):
    p = subprocess.run([CLANG] + CFLAGS + list(extra) + ['-w', '-O0', '-Xclang', '-disable-O0-optnone', '-S', '-emit-llvm', src, '-o', '-'],
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode:
        raise ExtractionError('clang failed on %s: %s' % (src, p.stderr.decode()[-500:]))
    q = subprocess.run([OPT, '-passes=function(sroa,simplifycfg,dce)', '-S', '-o', out], input=p.stdout,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if q.returncode:
        raise ExtractionError('opt failed on %s: %s' % (src, q.stderr.decode()[-500:]))


# ------------------------------------------------------------------ types
class Ty:
    __slots__ = ('k', 'w', 'el', 'n', 'size', 'align', 'offs')

    def __init__(self, k, w=0, el=None, n=0):
        self.k = k
        self.w = w
        self.el = el
        self.n = n
        self.offs = None
        if k == 'int':
            self.size = (w + 7) // 8
            self.align = min(self.size, 8) or 1
        elif k in ('ptr',):
            self.size = self.align = 8
        elif k == 'fp':
            self.size = self.align = w // 8
        elif k == 'arr':
            self.size = el.size * n
            self.align = el.align
        elif k == 'struct':
            off = 0
            al = 1
            self.offs = []
            for e in el:
                a = 1 if n else e.align
                off = (off + a - 1) // a * a
                self.offs.append(off)
                off += e.size
                al = max(al, a)
            self.size = (off + al - 1) // al * al
            self.align = al
        else:
            self.size = 0
            self.align = 1

    def __repr__(self):
        return '%s%s' % (self.k, self.w or '')


INTS = {}


def int_ty(w):
    t = INTS.get(w)
    if t is None:
        t = INTS[w] = Ty('int', w)
    return t


PTR = Ty('ptr')
VOID = Ty('void')
LABEL = Ty('label')
META = Ty('metadata')

TOK = re.compile(r'\s*(c"(?:[^"])*"|"(?:[^"])*"|%"[^"]*"|@"[^"]*"|[%@][-a-zA-Z$._0-9]+|![-a-zA-Z$._0-9]*|#\d+|0x[0-9A-Fa-f]+|-?\d+\.\d+(?:e[+-]?\d+)?|-?\d+|[a-zA-Z_.][-a-zA-Z_.0-9]*|\.\.\.|[\[\](){}<>,=*:;]|\S)')


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            break
        t = m.group(1)
        if t == ';':
            break
        out.append(t)
        i = m.end()
    return out


class Module:
    def __init__(self, path, name):
        self.name = name
        self.types = {}
        self.globals = {}    # name -> Global
        self.funcs = {}
        self.decls = set()
        self._parse(open(path).read())

    # -------------------------------------------------- type parsing on token list
    def ty(self, toks, i):
        t = toks[i]
        if t == 'ptr':
            r = PTR
            i += 1
        elif re.match(r'i\d+$', t):
            r = int_ty(int(t[1:]))
            i += 1
        elif t == 'void':
            r = VOID
            i += 1
        elif t == 'double':
            r = Ty('fp', 64)
            i += 1
        elif t == 'float':
            r = Ty('fp', 32)
            i += 1
        elif t == 'label':
            r = LABEL
            i += 1
        elif t == 'metadata':
            r = META
            i += 1
        elif t[0] == '%':
            r = self.types[t]
            i += 1
        elif t == '[':
            n = int(toks[i + 1])
            assert toks[i + 2] == 'x'
            el, i = self.ty(toks, i + 3)
            assert toks[i] == ']'
            r = Ty('arr', 0, el, n)
            i += 1
        elif t == '{' or (t == '<' and toks[i + 1] == '{'):
            packed = t == '<'
            i += 2 if packed else 1
            els = []
            while toks[i] != '}':
                e, i = self.ty(toks, i)
                els.append(e)
                if toks[i] == ',':
                    i += 1
            i += 1
            if packed:
                i += 1
            r = Ty('struct', 0, els, 1 if packed else 0)
        elif t == '<':
            raise ExtractionError('vector type')
        else:
            raise ExtractionError('type %r' % toks[i:i + 4])
        # function type
        if i < len(toks) and toks[i] == '(' and r is not None and False:
            pass
        return r, i

    # -------------------------------------------------- constants
    def const(self, toks, i, ty):
        """returns constant: int | ('null',) ... generic nested"""
        t = toks[i]
        if t == 'zeroinitializer':
            return ('zero',), i + 1
        if t in ('undef', 'poison'):
            return ('undef',), i + 1
        if t == 'null':
            return 0, i + 1
        if t == 'true':
            return 1, i + 1
        if t == 'false':
            return 0, i + 1
        if t[0] == '@':
            return ('g', t[1:].strip('"')), i + 1
        if ty.k == 'fp':
            return ('fp', t), i + 1
        if re.match(r'-?\d+$', t):
            return int(t) & ((1 << ty.w) - 1), i + 1
        if t.startswith('c"'):
            s = t[2:-1]
            b = []
            j = 0
            while j < len(s):
                if s[j] == '\\' and s[j + 1] == '\\':
                    b.append(92)
                    j += 2
                elif s[j] == '\\':
                    b.append(int(s[j + 1:j + 3], 16))
                    j += 3
                else:
                    b.append(ord(s[j]))
                    j += 1
            return ('bytes', b), i + 1
        if t == '[' or t == '{' or (t == '<' and toks[i + 1] == '{'):
            packed = t == '<'
            i += 2 if packed else 1
            vals = []
            end = ']' if t == '[' else '}'
            while toks[i] != end:
                et, i = self.ty(toks, i)
                v, i = self.const(toks, i, et)
                vals.append((et, v))
                if toks[i] == ',':
                    i += 1
            i += 1
            if packed:
                i += 1
            return ('agg', vals), i
        if t == 'getelementptr':
            i += 1
            while toks[i] in ('inbounds', 'nuw', 'nusw'):
                i += 1
            assert toks[i] == '('
            bt, i = self.ty(toks, i + 1)
            assert toks[i] == ','
            args = []
            while toks[i] != ')':
                at, i = self.ty(toks, i + 1)
                v, i = self.const(toks, i, at)
                args.append((at, v))
            return ('gep', bt, args), i + 1
        if t in ('ptrtoint', 'inttoptr', 'bitcast'):
            at, j = self.ty(toks, i + 2)
            v, j = self.const(toks, j, at)
            while toks[j] != ')':
                j += 1
            return ('cast', t, v), j + 1
        raise ExtractionError('constant %r' % toks[i:i + 6])

    # -------------------------------------------------- module
    def _parse(self, text):
        lines = text.split('\n')
        # types first (may be forward-referencing)
        pend = []
        for ln in lines:
            if ln.startswith('%') and ' = type ' in ln:
                nm, d = ln.split(' = type ', 1)
                pend.append((nm.strip(), d.strip()))
        while pend:
            rest = []
            for nm, d in pend:
                if d == 'opaque':
                    self.types[nm] = Ty('struct', 0, [], 0)
                    continue
                try:
                    self.types[nm], _ = self.ty(tokenize(d), 0)
                except KeyError:
                    rest.append((nm, d))
            if len(rest) == len(pend):
                raise ExtractionError('types')
            pend = rest
        i = 0
        while i < len(lines):
            ln = lines[i]
            if ln.startswith('@'):
                self._global(ln)
            elif ln.startswith('define'):
                j = i + 1
                while lines[j] != '}':
                    j += 1
                self._func(ln, lines[i + 1:j])
                i = j
            elif ln.startswith('declare'):
                m = re.search(r'@([-\w.$]+)\(', ln)
                self.decls.add(m.group(1))
            i += 1

    def _global(self, ln):
        nm, d = ln.split(' = ', 1)
        toks = tokenize(d)
        i = 0
        ext = False
        internal = False
        while toks[i] not in ('constant', 'global'):
            if toks[i] in ('external', 'extern_weak'):
                ext = True
            if toks[i] in ('internal', 'private'):
                internal = True
            if toks[i] == 'alias':
                return
            i += 1
        isconst = toks[i] == 'constant'
        t, i = self.ty(toks, i + 1)
        v = None
        if not ext:
            v, i = self.const(toks, i, t)
        self.globals[nm[1:].strip('"')] = Global(nm[1:].strip('"'), t, v, isconst, ext, internal, self)

    def _func(self, head, body):
        m = re.search(r'@([-\w.$]+|"[^"]*")\(', head)
        name = m.group(1).strip('"')
        internal = ' internal ' in head[:m.start()] or ' private ' in head[:m.start()]
        pre = tokenize(head[:m.start()])
        # return type: last parsable type token(s)
        rt = None
        for k in range(1, len(pre)):
            try:
                rt, e = self.ty(pre, k)
                if e == len(pre):
                    break
            except (ExtractionError, KeyError, AssertionError, ValueError):
                continue
        # params
        depth = 1
        j = m.end()
        while depth:
            if head[j] == '(':
                depth += 1
            elif head[j] == ')':
                depth -= 1
            j += 1
        params = []
        ptoks = tokenize(head[m.end():j - 1])
        k = 0
        while k < len(ptoks):
            if ptoks[k] == '...':
                break
            t, k = self.ty(ptoks, k)
            nm = None
            d = 0
            while k < len(ptoks) and not (ptoks[k] == ',' and d == 0):
                if ptoks[k] == '(':
                    d += 1
                elif ptoks[k] == ')':
                    d -= 1
                elif ptoks[k][0] == '%' and d == 0:
                    nm = ptoks[k]
                k += 1
            k += 1
            params.append((t, nm))
        f = Func(name, rt, params, self, internal)
        cur = None
        label = None
        # first block label: number after params or named
        nparams = len(params)
        first = '%%%d' % nparams
        n = 0
        blocks = {}
        order = []
        it = iter(range(len(body)))
        k = 0
        while k < len(body):
            ln = body[k]
            k += 1
            if not ln.strip() or ln.startswith(';'):
                continue
            mm = re.match(r'([-\w.$]+|"[^"]*"):', ln)
            if mm:
                label = '%' + mm.group(1)
                cur = blocks[label] = []
                order.append(label)
                continue
            if cur is None:
                label = first
                cur = blocks[label] = []
                order.append(label)
            s = ln.strip()
            if s.startswith('switch'):
                while ']' not in s:
                    s += ' ' + body[k].strip()
                    k += 1
            cur.append(self._instr(s))
        f.blocks = blocks
        f.order = order
        f.entry = order[0]
        self.funcs[name] = f

    # -------------------------------------------------- operands
    def operand(self, toks, i, ty):
        t = toks[i]
        if t[0] == '%':
            return ('r', t), i + 1
        v, i = self.const(toks, i, ty)
        return ('c', v), i

    def _instr(self, s):
        try:
            return self._instr2(s)
        except (ExtractionError, KeyError, AssertionError, ValueError, IndexError) as e:
            return ('unsupported', None, s + ' ## ' + repr(e))

    def _instr2(self, s):
        toks = tokenize(s)
        dest = None
        i = 0
        if len(toks) > 1 and toks[1] == '=':
            dest = toks[0]
            i = 2
        op = toks[i]
        i += 1
        if op in ('tail', 'musttail', 'notail'):
            op = toks[i]
            i += 1
        if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'):
            flags = []
            while toks[i] in ('nuw', 'nsw', 'exact', 'disjoint'):
                flags.append(toks[i])
                i += 1
            t, i = self.ty(toks, i)
            a, i = self.operand(toks, i, t)
            b, i = self.operand(toks, i + 1, t)
            return ('bin', dest, op, t.w, a, b, tuple(flags))
        if op == 'icmp':
            pred = toks[i]
            t, i = self.ty(toks, i + 1)
            a, i = self.operand(toks, i, t)
            b, i = self.operand(toks, i + 1, t)
            return ('icmp', dest, pred, t, a, b)
        if op in ('zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'freeze'):
            while toks[i] in ('nneg', 'nuw', 'nsw'):
                i += 1
            t, i = self.ty(toks, i)
            a, i = self.operand(toks, i, t)
            if op == 'freeze':
                return ('cast', dest, 'bitcast', t, a, t)
            t2, i = self.ty(toks, i + 1)
            return ('cast', dest, op, t, a, t2)
        if op == 'getelementptr':
            while toks[i] in ('inbounds', 'nuw', 'nusw'):
                i += 1
            bt, i = self.ty(toks, i)
            pt, i = self.ty(toks, i + 1)
            p, i = self.operand(toks, i, pt)
            idx = []
            while i < len(toks) and toks[i] == ',':
                if toks[i + 1][0] == '!':
                    break
                it, i = self.ty(toks, i + 1)
                v, i = self.operand(toks, i, it)
                idx.append((it, v))
            return self._gep(dest, bt, p, idx)
        if op == 'load':
            while toks[i] in ('volatile', 'atomic'):
                i += 1
            t, i = self.ty(toks, i)
            pt, i = self.ty(toks, i + 1)
            p, i = self.operand(toks, i, pt)
            return ('load', dest, t, p)
        if op == 'store':
            vol = False
            while toks[i] in ('volatile', 'atomic'):
                vol = True
                i += 1
            t, i = self.ty(toks, i)
            v, i = self.operand(toks, i, t)
            pt, i = self.ty(toks, i + 1)
            p, i = self.operand(toks, i, pt)
            return ('store', None, t, v, p, vol)
        if op == 'alloca':
            t, i = self.ty(toks, i)
            n = ('c', 1)
            nt = int_ty(32)
            if i < len(toks) and toks[i] == ',' and toks[i + 1] != 'align':
                nt, i = self.ty(toks, i + 1)
                n, i = self.operand(toks, i, nt)
            return ('alloca', dest, t, n)
        if op == 'phi':
            t, i = self.ty(toks, i)
            inc = []
            while True:
                assert toks[i] == '['
                v, i = self.operand(toks, i + 1, t)
                lab = toks[i + 1]
                inc.append((lab, v))
                i += 3
                if i < len(toks) and toks[i] == ',' and toks[i + 1] == '[':
                    i += 1
                else:
                    break
            return ('phi', dest, t, dict(inc))
        if op == 'select':
            t, i = self.ty(toks, i)
            c, i = self.operand(toks, i, t)
            t, i = self.ty(toks, i + 1)
            a, i = self.operand(toks, i, t)
            t2, i = self.ty(toks, i + 1)
            b, i = self.operand(toks, i, t2)
            return ('select', dest, t, c, a, b)
        if op == 'br':
            if toks[i] == 'label':
                return ('br', None, toks[i + 1])
            t, i = self.ty(toks, i)
            c, i = self.operand(toks, i, t)
            return ('cbr', None, c, toks[i + 2], toks[i + 5])
        if op == 'switch':
            t, i = self.ty(toks, i)
            c, i = self.operand(toks, i, t)
            dflt = toks[i + 2]
            i += 4
            cases = []
            while toks[i] != ']':
                ct, i = self.ty(toks, i)
                v, i = self.const(toks, i, ct)
                cases.append((v, toks[i + 2]))
                i += 3
            return ('switch', None, t, c, dflt, cases)
        if op == 'ret':
            if toks[i] == 'void':
                return ('ret', None, None, None)
            t, i = self.ty(toks, i)
            v, i = self.operand(toks, i, t)
            return ('ret', None, t, v)
        if op == 'unreachable':
            return ('unreachable', None)
        if op == 'call':
            # skip cc / attributes until a type
            while True:
                try:
                    if toks[i] in ('noalias', 'noundef', 'zeroext', 'signext', 'nonnull', 'noalias', 'fastcc'):
                        i += 1
                        continue
                    t, i = self.ty(toks, i)
                    break
                except (ExtractionError, KeyError):
                    i += 1
            if toks[i] == '(':       # function type for varargs
                d = 0
                while True:
                    if toks[i] == '(':
                        d += 1
                    if toks[i] == ')':
                        d -= 1
                        if d == 0:
                            break
                    i += 1
                i += 1
            asm = None
            if toks[i] == 'asm':
                i += 1
                while toks[i] in ('sideeffect', 'alignstack', 'inteldialect'):
                    i += 1
                asm = (toks[i].strip('"'), toks[i + 2].strip('"'))
                i += 3
                callee = ('asm', asm)
            else:
                if toks[i][0] == '@':
                    callee = ('f', toks[i][1:].strip('"'))
                else:
                    callee = ('r', toks[i])
                i += 1
            assert toks[i] == '('
            i += 1
            args = []
            while toks[i] != ')':
                at, i = self.ty(toks, i)
                # attributes
                while toks[i] in ('noundef', 'zeroext', 'signext', 'nonnull', 'noalias', 'nocapture', 'readonly', 'align', 'dereferenceable', 'immarg', 'writeonly', 'returned'):
                    if toks[i] == 'align':
                        i += 2
                    elif toks[i] == 'dereferenceable':
                        i += 4
                    else:
                        i += 1
                if at is META:
                    while toks[i] not in (',', ')'):
                        i += 1
                    v = ('c', 0)
                else:
                    v, i = self.operand(toks, i, at)
                args.append((at, v))
                if toks[i] == ',':
                    i += 1
            return ('call', dest, t, callee, args)
        raise ExtractionError('instruction ' + s)

    def _gep(self, dest, bt, p, idx):
        """normalise to (const offset, [(scale, width, operand)])"""
        off = 0
        var = []
        t = bt
        for k, (it, v) in enumerate(idx):
            if k == 0:
                sc = t.size
            elif t.k == 'arr':
                t = t.el
                sc = t.size
            elif t.k == 'struct':
                assert v[0] == 'c'
                off += t.offs[v[1]]
                t = t.el[v[1]]
                continue
            else:
                raise ExtractionError('gep')
            if v[0] == 'c':
                c = v[1]
                if c >> (it.w - 1):
                    c -= 1 << it.w
                off += sc * c
            else:
                var.append((sc, it.w, v))
        return ('gep', dest, p, off, var)


class Global:
    def __init__(self, name, ty, init, isconst, ext, internal, mod):
        self.name, self.ty, self.init, self.const, self.ext, self.internal, self.mod = name, ty, init, isconst, ext, internal, mod


class Func:
    def __init__(self, name, rt, params, mod, internal):
        self.name, self.rt, self.params, self.mod, self.internal = name, rt, params, mod, internal
        self.blocks = None
        self._ipdom = None

    def succs(self, b):
        t = self.blocks[b][-1]
        if t[0] == 'br':
            return [t[2]]
        if t[0] == 'cbr':
            return [t[3], t[4]]
        if t[0] == 'switch':
            return [t[4]] + [c for _, c in t[5]]
        return []

    def ipdom(self):
        """immediate post-dominators, blocks ending in unreachable ignored"""
        if self._ipdom is not None:
            return self._ipdom
        nodes = list(self.order)
        EXIT = '<exit>'
        succ = {}
        for b in nodes:
            s = self.succs(b)
            if not s:
                s = [EXIT] if self.blocks[b][-1][0] == 'ret' else []
            succ[b] = s
        # pdom sets as bitmasks
        idx = {b: i for i, b in enumerate(nodes)}
        idx[EXIT] = len(nodes)
        full = (1 << (len(nodes) + 1)) - 1
        pd = {b: full for b in nodes}
        pd[EXIT] = 1 << len(nodes)
        ch = True
        while ch:
            ch = False
            for b in reversed(nodes):
                m = full
                for s in succ[b]:
                    m &= pd[s]
                m |= 1 << idx[b]
                if not succ[b]:
                    m = full
                if m != pd[b]:
                    pd[b] = m
                    ch = True
        res = {}
        names = nodes + [EXIT]
        for b in nodes:
            m = pd[b] & ~(1 << idx[b])
            best = None
            for i, nme in enumerate(names):
                if (m >> i) & 1:
                    # immediate: every other strict pdom of b post-dominates it
                    if pd[nme] & m == m:
                        best = nme
                        break
            res[b] = best if best != EXIT else None
        self._ipdom = res
        return res

"""Loading /repo sources into a Machine (re-extracted on every run) and API-level helpers."""
import os
import tempfile
import atexit
import shutil
from . import ir
from . import terms as T
from .machine import Machine, State, Ptr, Fn, Violation, Unsupported, Outcome

_dir = None
_mods = {}


def scratch():
    global _dir
    if _dir is None:
        base = os.environ.get('KV_SCRATCH') or tempfile.gettempdir()
        _dir = tempfile.mkdtemp(prefix='kv-', dir=base)
        pid = os.getpid()

        def clean():
            if os.getpid() == pid:
                shutil.rmtree(_dir, ignore_errors=True)
        atexit.register(clean)
    return _dir


def module(rel):
    """rel: path under /repo/lib without .c, e.g. 'block/rc6'"""
    m = _mods.get(rel)
    if m is None:
        out = os.path.join(scratch(), rel.replace('/', '_') + '.ll')
        if not os.path.exists(out):
            tmp = '%s.%d' % (out, os.getpid())
            ir.emit_ll(os.path.join(ir.REPO, 'lib', rel + '.c'), tmp)
            os.replace(tmp, out)
        m = _mods[rel] = ir.Module(out, rel)
    return m


def machine(rels):
    m = Machine()
    for r in rels:
        m.load(module(r))
    m.load(module('memory')) if 'memory' not in rels else None
    return m


def buf(st, name, n, fill='var', kind='arg', ro=False):
    """object of n bytes; fill: 'var' symbolic, int constant, list, None uninitialised"""
    if fill == 'var':
        cells = [T.var('%s[%d]' % (name, i), 8) for i in range(n)]
    elif fill is None:
        cells = [None] * n
    elif type(fill) is int:
        cells = [fill] * n
    else:
        cells = list(fill)
    return st.new(n, kind, name, cells, ro)


def getbuf(st, p, n):
    return st.bytes_at(p, n)


def desc(m, rel, sym):
    """value of the exported 'const kripto_desc_x *const sym'"""
    mod = m.mods[rel]
    p = m.global_ptr(sym, mod)
    st = m.state()
    return st.load_ptr(p)

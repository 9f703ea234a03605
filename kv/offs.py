"""Offsets of the fields of a translation unit's private struct, from the compiler (on every run)."""
import os
import subprocess
from . import ir, lib
from .machine import Unsupported


def fields(rel, struct, names):
    """{name: (offset, size)} plus '' for the whole; a name that does not exist is Unsupported"""
    d = lib.scratch()
    c = os.path.join(d, 'offs_%s_%d.c' % (rel.replace('/', '_'), os.getpid()))
    x = c[:-2]
    with open(c, 'w') as f:
        f.write('#include "%s"\n#include <stdio.h>\n#include <stddef.h>\nint main(void) {\n' % os.path.join(ir.REPO, 'lib', rel + '.c'))
        f.write('printf("%%zu\\n", sizeof(struct %s));\n' % struct)
        for n in names:
            f.write('printf("%%zu %%zu\\n", offsetof(struct %s, %s), sizeof(((struct %s *)0)->%s));\n' % (struct, n, struct, n))
        f.write('return 0; }\n')
    p = subprocess.run(['gcc'] + [a for a in ir.CFLAGS] + ['-w', '-fsyntax-only', c], capture_output=True, text=True)
    if p.returncode:
        raise Unsupported('the fields %s of struct %s in %s: %s' % (', '.join(names), struct, rel, p.stderr[:200]))
    # a relocatable object is enough: the values are read through a shared object that resolves nothing else
    p = subprocess.run(['gcc'] + [a for a in ir.CFLAGS] + ['-w', '-O0', '-o', x, c, '-Wl,--unresolved-symbols=ignore-all'], capture_output=True, text=True)
    if p.returncode:
        raise Unsupported('offsets of %s: %s' % (rel, p.stderr[:200]))
    out = subprocess.run([x], capture_output=True, text=True).stdout.split('\n')
    for q in (c, x):
        os.unlink(q)
    r = {'': (0, int(out[0]))}
    for n, l in zip(names, out[1:]):
        r[n] = tuple(map(int, l.split()))
    return r

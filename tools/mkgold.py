#!/usr/bin/env python3-vt
"""One-off: pins tables that have no generating formula, taken from the tree at the time of writing (base commit), into kv/spec/gold.py.
The pinned values were then cross-checked against openssl and libgcrypt (see DESIGN.md)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
from kv import lib
def get(rel, name, w):
    m = lib.machine([rel]); p = m.global_ptr(name, m.mods[rel]); st = m.state()
    n = st.get(p.obj).size
    b = st.bytes_at(p, n)
    return [sum(b[i + j] << (8 * j) for j in range(w)) for i in range(0, n, w)]
out = {}
out['RC2_PI'] = get('block/rc2', 'sp', 1)
out['SKIPJACK_F'] = get('block/skipjack', 'S', 1)
out['SM4_S'] = get('block/sm4', 'S', 1)
out['GOST_CBR'] = get('block/gost', 'CBR', 1)
out['GOST_R34'] = get('block/gost', 'R34_12_2015', 1)
s0, s1 = get('block/seed', 'S0', 4), get('block/seed', 'S1', 4)
f = lambda x: (x & 255) | (x >> 8 & 255) | (x >> 16 & 255) | (x >> 24)
out['SEED_S1'] = [f(x) for x in s0]
out['SEED_S2'] = [f(x) for x in s1]
for i in range(1, 9):
    out['CAST5_S%d' % i] = get('block/cast5', 's%d' % i, 4)
out['CAMELLIA_S1'] = [x >> 24 for x in get('block/camellia', 'SP1110', 4)]
out['ARIA_S2'] = [f(x) for x in get('block/aria', 's1', 4)]
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'kv', 'spec', 'gold.py'), 'w') as o:
    o.write('"""Pinned constant tables (see tools/mkgold.py)."""\n\n\ndef _t(s, w):\n    return [int(s[i:i + 2 * w], 16) for i in range(0, len(s), 2 * w)]\n\n\n')
    for k, v in out.items():
        w = 4 if max(v) > 255 else 1
        h = ''.join('%0*x' % (2 * w, x) for x in v)
        o.write('%s = _t(\n' % k + '\n'.join("    '%s'" % h[i:i + 128] for i in range(0, len(h), 128)) + ', %d)\n' % w)

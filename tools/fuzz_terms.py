"""Self-test of the term language: random expressions, symbolic normal form against direct evaluation on the simulation samples."""
import random
import sys
import os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from kv import terms as T


def run(seed, n=400):
    rnd = random.Random(seed)
    T.reset()
    T.SWEEP = rnd.random() < 0.7
    w = rnd.choice((8, 16, 32))
    m = (1 << w) - 1
    pool = []
    for i in range(4):
        v = T.var('v%d' % i, w)
        pool.append((v, T.sim_samples(v, w)))
    for c in (0, 1, m, 1 << (w - 1), rnd.randrange(1 << w)):
        pool.append((c, [c] * 64))
    tab = tuple(rnd.randrange(256) for _ in range(256))
    for step in range(n):
        op = rnd.choice('++++---^^&|<>rRt~*z')
        a, sa = rnd.choice(pool)
        b, sb = rnd.choice(pool)
        k = rnd.randrange(w)
        if op == '+':
            r, s = T.add(a, b, w), [(x + y) & m for x, y in zip(sa, sb)]
        elif op == '-':
            r, s = T.sub(a, b, w), [(x - y) & m for x, y in zip(sa, sb)]
        elif op == '^':
            r, s = T.xor(a, b, w), [x ^ y for x, y in zip(sa, sb)]
        elif op == '&':
            r, s = T.and_(a, b, w), [x & y for x, y in zip(sa, sb)]
        elif op == '|':
            r, s = T.or_(a, b, w), [x | y for x, y in zip(sa, sb)]
        elif op == '~':
            r, s = T.not_(a, w), [x ^ m for x in sa]
        elif op == '<':
            r, s = T.shl(a, k, w), [(x << k) & m for x in sa]
        elif op == '>':
            r, s = T.lshr(a, k, w), [x >> k for x in sa]
        elif op == 'r':
            r, s = T.rotl(a, k, w), [T.rotl(x, k, w) for x in sa]
        elif op == 'R':
            r, s = T.rotl_var(a, b, w), [T.rotl(x, y % w, w) for x, y in zip(sa, sb)]
        elif op == '*':
            c = rnd.choice((2, 3, 4, 6, m, m - 1, rnd.randrange(1 << w)))
            r, s = T.mul(a, c, w), [(x * c) & m for x in sa]
        elif op == 'z':
            h = w // 2
            r = T.zext(T.trunc(a, h), h, w)
            s = [x & ((1 << h) - 1) for x in sa]
        else:
            x8 = T.bits(T.extract(a, 0, 8), 8)
            r, s = T.zext(T.table(tab, x8, 8), 8, w), [tab[x & 255] for x in sa]
        got = [r] * 64 if type(r) is int else T.sim_samples(r, w)
        if got != s:
            print('seed %d step %d op %s width %d: wrong' % (seed, step, op, w))
            return False
        if type(r) is tuple or rnd.random() < 0.1:
            pool.append((r, s))
            if len(pool) > 40:
                pool.pop(rnd.randrange(4, len(pool)))
    return True


if __name__ == '__main__':
    bad = sum(not run(s) for s in range(int(sys.argv[1]) if len(sys.argv) > 1 else 60))
    print('bad: %d' % bad)
    sys.exit(bad != 0)

import numpy as np
from rt import case
import orc
from coniii import utils as U


@case('binary states')
def binary(c):
    c.bound = 'n up to %d' % c.pick(11, 15)
    for n in range(1, c.pick(12, 16)):
        for sym in (False, True):
            want = orc.states(n, [-1, 1] if sym else [0, 1])
            a = U.bin_states(n, sym)
            c.same(a, want, 'states in increasing order, first spin most significant', n=n, sym=sym)
            c.ok(np.issubdtype(a.dtype, np.signedinteger), 'integer states', got=str(a.dtype))
            it = list(U.xbin_states(n, sym))
            c.ok(len(it) == 2 ** n, 'the iterator has 2^n states', got=len(it), n=n)
            c.same(np.array(it), want, 'the iterator gives the same states', n=n, sym=sym)
    c.same(U.bin_states(3, sym=True), orc.states(3, [-1, 1]), 'keyword')
    c.raises(lambda: U.bin_states(-1), 'negative size')
    c.raises(lambda: U.bin_states(31), 'too large')
    for n in (12, 17, 25, 40):
        g = U.xbin_states(n)
        f = [next(g) for _ in range(5)]
        for q, s in enumerate(f):
            c.same(s, [int(ch) for ch in format(q, '0%db' % n)], 'first states of a long enumeration', n=n)


@case('Potts states')
def potts(c):
    for k in list(range(2, 8)) + [11, 18, 19, 20, 25, 36]:
        for n in range(1, 7):
            if k ** n > c.pick(3000, 50000):
                break
            got = [list(s) for s in U.xpotts_states(n, k)]
            want = ['0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ'[d] for d in range(k)]
            c.ok(got == [[want[d] for d in s] for s in orc.states(n, range(k)).tolist()], 'all k^n states in increasing order', n=n, k=k, got=got[:40])
    for n in range(1, 9):
        c.ok([[int(x) for x in s] for s in U.xpotts_states(n, 2)] == U.bin_states(n).tolist(), 'k=2 agrees with the binary states', n=n)
    c.raises(lambda: list(U.xpotts_states(0, 3)), 'n=0')
    c.raises(lambda: list(U.xpotts_states(3, 1)), 'k=1')


@case('digits')
def digits(c):
    c.bound = 'all i < %d, powers and their neighbours below 2^63, random i < 2^63, bases 2..36' % c.pick(1500, 20000)
    f = U.base_repr
    for base in range(2, 37):
        L = list(range(c.pick(1500, 20000)))
        p = 1
        while p < 2 ** 63:
            for m in range(1, base):
                L += [m * p + d for d in (-1, 0, 1)]
            p *= base
        L += [int(c.rng.randint(0, 2 ** 62)) * 2 + 1 for _ in range(200)] + [2 ** 63 - 1, 2 ** 53 + 1]
        for i in L:
            if 0 <= i < 2 ** 63:
                g = f(i, base)
                c.ok(''.join(g) == np.base_repr(i, base) and all(len(x) == 1 for x in g), 'digits', got=g, want=np.base_repr(i, base), i=i, base=base)
    c.raises(lambda: f(-1, 2), 'negative')
    c.raises(lambda: f(3, 1), 'base 1')
    c.raises(lambda: f(3, 37), 'base 37')
    c.raises(lambda: f(100, 40), 'base 40')


@case('neighbours')
def neigh(c):
    for f, vals in ((U.adj, [0, 1]), (U.adj_sym, [-1, 1])):
        for n in range(1, 12):
            for dt in (int, float, np.int8):
                for rep in range(3):
                    s = c.rng.choice(vals, size=n).astype(dt)
                    s0 = s.copy()
                    a = f(s)
                    c.ok(np.array_equal(s, s0), 'the state is left unchanged', s=s0)
                    want = np.array([s0] * n, dtype=float)
                    for i in range(n):
                        want[i, i] = vals[0] + vals[1] - want[i, i]
                    c.same(a, want, 'n single-spin flips in order', s=s0)
                    for r in (1, 2, 7):
                        b = f(s, r)
                        c.ok(b.shape == (n + r, n), 'number of neighbours', got=b.shape, s=s0, r=r)
                        c.same(b[:n], want, 'the flips come first', s=s0, r=r)
                        c.ok(set(np.unique(b)) <= set(map(float, vals)), 'random neighbours are states', s=s0, got=b)
                        c.ok((b[n:] != s0).any(1).all(), 'random neighbours differ from the state', s=s0, got=b)
                        c.ok(np.array_equal(s, s0), 'the state is left unchanged', s=s0)
        # random neighbours reach every other state
        s = np.array([vals[1], vals[0], vals[1]])
        b = f(s, 600)[3:]
        c.ok(len({tuple(r) for r in b.tolist()}) == 7, 'random neighbours cover all other states', s=s)

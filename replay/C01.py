import itertools
import numpy as np
from math import comb
from rt import case
from coniii import utils as U


@case('pair index maps')
def pairs(c):
    N = c.pick(40, 90)
    c.bound = 'all pairs and positions for n<=%d, random pairs for n up to 10^6' % N
    for n in range(2, N + 1):
        pr = list(itertools.combinations(range(n), 2))
        for q, (i, j) in enumerate(pr):
            c.ok(U.sub_to_ind(n, i, j) == q, 'sub_to_ind gives the lexicographic position', got=U.sub_to_ind(n, i, j), want=q, n=n, i=i, j=j)
            c.ok(U.sub_to_ind(n, j, i) == q, 'sub_to_ind is symmetric', got=U.sub_to_ind(n, j, i), want=q, n=n, i=j, j=i)
            c.ok(tuple(U.ind_to_sub(n, q)) == (i, j), 'ind_to_sub inverts', got=U.ind_to_sub(n, q), want=(i, j), n=n, ix=q)
        for i in range(n):
            c.raises(lambda: U.sub_to_ind(n, i, i), 'equal indices are rejected', n=n, i=i)
    for _ in range(c.pick(300, 3000)):
        n = int(c.rng.randint(2, 10 ** int(c.rng.randint(1, 7)) + 2))
        i, j = sorted(int(x) for x in c.rng.choice(n, 2, replace=False)) if n < 10000 else sorted((int(c.rng.randint(0, n // 2)), int(c.rng.randint(n // 2, n))))
        q = i * (2 * n - i - 1) // 2 + j - i - 1
        c.ok(U.sub_to_ind(n, i, j) == q and U.sub_to_ind(n, j, i) == q, 'sub_to_ind gives the lexicographic position',
             got=(U.sub_to_ind(n, i, j), U.sub_to_ind(n, j, i)), want=q, n=n, i=i, j=j)
        if n < 3000:
            c.ok(tuple(U.ind_to_sub(n, q)) == (i, j), 'ind_to_sub inverts', n=n, ix=q, got=U.ind_to_sub(n, q), want=(i, j))


@case('python forms of the pair maps')
def pypairs(c):
    """The undecorated functions (as other Python code with other integer types may call them)."""
    for f, g in ((U.sub_to_ind, U.ind_to_sub),):
        f0, g0 = getattr(f, 'py_func', f), getattr(g, 'py_func', g)
        for n in range(2, 14):
            for q, (i, j) in enumerate(itertools.combinations(range(n), 2)):
                for ty in (int, np.int64, np.int32):
                    c.ok(f(ty(n), ty(i), ty(j)) == q and f0(n, i, j) == q, 'sub_to_ind', n=n, i=i, j=j, type=str(ty))
                    c.ok(tuple(g(ty(n), ty(q))) == (i, j) and tuple(g0(n, q)) == (i, j), 'ind_to_sub', n=n, q=q, type=str(ty))


@case('k-spin index')
def kspin(c):
    N = c.pick(11, 14)
    c.bound = 'all increasing tuples for n<=%d and every k, random ones up to n=60' % N
    for n in range(1, N + 1):
        for k in range(1, n + 1):
            for q, t in enumerate(itertools.combinations(range(n), k)):
                c.ok(U.unravel_index(t, n) == q, 'rank of a subset', got=U.unravel_index(t, n), want=q, ijk=t, n=n)
    for _ in range(c.pick(300, 3000)):
        n = int(c.rng.randint(3, 60))
        k = int(c.rng.randint(2, min(n, 9) + 1))
        t = tuple(sorted(int(x) for x in c.rng.choice(n, k, replace=False)))
        want = comb(n, k) - 1 - sum(comb(n - 1 - x, k - p) for p, x in enumerate(t))
        c.ok(U.unravel_index(t, n) == want, 'rank of a subset', got=U.unravel_index(t, n), want=want, ijk=t, n=n)
        if k == 2:
            c.ok(U.unravel_index(t, n) == U.sub_to_ind(n, *t), 'agrees with sub_to_ind', ijk=t, n=n)
    for n in range(1, 9):
        for i in range(n):
            c.ok(U.unravel_index(i, n) == i and U.unravel_index((i,), n) == i, 'single index', i=i, n=n)

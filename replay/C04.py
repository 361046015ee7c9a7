import numpy as np
import warnings
from itertools import combinations
from fractions import Fraction
from math import comb
from rt import case
import orc
from coniii import utils as U
warnings.simplefilter('ignore')


def samples(c):
    for n in list(range(2, 8)) + [13]:
        for vals in ([-1, 1], [0, 1], [-1, 0, 1]):
            for R in (1, 2, 7, 40):
                yield c.rng.choice(vals, size=(R, n))


@case('means and pairs')
def pair_corr(c):
    for X in samples(c):
        R, n = X.shape
        pr = orc.pairs(n)
        for X_ in (X, X.astype(float), np.asfortranarray(X), X.astype(np.int8)):
            X0 = X_.copy()
            Xf = X.astype(float)
            w = c.rng.rand(R)
            w[c.rng.randint(R)] = 0
            wt = (c.rng.rand(n), c.rng.rand(len(pr)))
            w0 = w.copy()
            scal = float(c.rng.rand())
            for ww, sm, sp in ((None, lambda x: x.sum() / R, None), (w, lambda x: (x * w).sum(), None), (scal, lambda x: x.sum() * scal, None),
                               (wt, None, wt)):
                if sp is None:
                    si = np.array([sm(Xf[:, i]) for i in range(n)])
                    ss = np.array([sm(Xf[:, i] * Xf[:, j]) for i, j in pr])
                else:
                    si = Xf.sum(0) * sp[0]
                    ss = np.array([(Xf[:, i] * Xf[:, j]).sum() for i, j in pr]) * sp[1]
                for sub in (False, True):
                    s2 = ss - np.array([si[i] * si[j] for i, j in pr]) if sub else ss
                    g = U.pair_corr(X_, weights=ww, subtract_mean=sub)
                    kw = dict(X=X0, weights=repr(ww), subtract_mean=sub)
                    c.close(g[0], si, 'means', 1e-9, **kw)
                    c.close(g[1], s2, 'pair correlations', 1e-9, **kw)
                    c.close(U.pair_corr(X_, weights=ww, subtract_mean=sub, concat=True), np.concatenate((si, s2)), 'concatenated', 1e-9, **kw)
            c.ok(np.array_equal(X_, X0) and np.array_equal(w, w0), 'inputs unchanged', X=X0)
            # leaving out empty entries
            nz = Xf != 0
            ni = nz.sum(0)
            nij = np.array([(nz[:, i] & nz[:, j]).sum() for i, j in pr])
            for lap, a, b in ((False, 0, 0), (True, 2, 4)):
                if not lap and (ni.min() == 0 or nij.min() == 0):
                    continue
                si = Xf.sum(0) / (ni + a)
                ss = np.array([(Xf[:, i] * Xf[:, j]).sum() for i, j in pr]) / (nij + b)
                for sub in (False, True):
                    s2 = ss - np.array([si[i] * si[j] for i, j in pr]) if sub else ss
                    g = U.pair_corr(X_, exclude_empty=True, laplace_count=lap, subtract_mean=sub, weights=(w if sub else None))
                    c.close(g[0], si, 'means without empty entries', 1e-9, X=X0, laplace=lap)
                    c.close(g[1], s2, 'pairs without empty entries', 1e-9, X=X0, laplace=lap)
            c.ok(np.array_equal(X_, X0), 'sample unchanged', X=X0)
    big = c.rng.choice([-1, 1], size=(700, 3)).astype(np.int8)
    big[:, 1] = big[:, 0]
    c.close(U.pair_corr(big, exclude_empty=True)[1], U.pair_corr(big.astype(int))[1], 'small integer types', X=big[:5])


@case('k-th order')
def kcorr(c):
    for X in samples(c):
        R, n = X.shape
        Xf = X.astype(float)
        X0 = X.copy()
        w = c.rng.rand(R)
        for k in range(1, min(n, 5) + 1):
            if comb(n, k) > 300:
                continue
            P = np.array([Xf[:, t].prod(1) for t in combinations(range(n), k)])
            c.close(U.k_corr(X, k), P.mean(1), 'k-th order averages', X=X0, k=k)
            c.close(U.k_corr(X, k, weights=w), P.dot(w), 'weighted k-th order averages', X=X0, k=k, w=w)
            if (P != 0).any(1).all():
                want = np.array([p[p != 0].mean() for p in P])
                c.close(U.k_corr(X, k, exclude_empty=True), want, 'k-th order averages without empty entries', X=X0, k=k)
                c.close(U.k_corr(X, k, weights=w, exclude_empty=True), want, 'weights do nothing when empty entries are left out', X=X0, k=k)
            if k == 2:
                c.close(U.k_corr(X, 2), U.pair_corr(X)[1], 'agrees with the pair correlations', X=X0)
            c.ok(np.array_equal(X, X0), 'sample unchanged', X=X0)


@case('state frequencies')
def probs(c):
    for rep in range(c.pick(60, 400)):
        n, R = int(c.rng.randint(1, 6)), int(c.rng.randint(1, 40))
        vals = ([-1, 1], [0, 1], [0, 1, 2])[rep % 3]
        X = c.rng.choice(vals, size=(R, n))
        if rep % 4 == 1:
            X = X.astype(float)
        if rep % 5 == 2:
            X = np.asfortranarray(X)
        X0 = X.copy()
        cnt = {}
        for r in X.tolist():
            cnt[tuple(r)] = cnt.get(tuple(r), 0) + 1
        for norm in (True, False):
            f, s = U.state_probs(X, normalized=norm)
            c.ok(len(s) == len(cnt) and len({tuple(r) for r in s.tolist()}) == len(cnt), 'every distinct state once', X=X0, got=s)
            c.close(f, [cnt[tuple(r)] / (R if norm else 1) for r in s.tolist()], 'frequency of each state', X=X0)
        A = orc.states(n, vals)
        A = A[c.rng.permutation(len(A))]
        w = c.rng.rand(R)
        sel = A[:max(1, len(A) - int(c.rng.randint(0, 3)))]
        for AA in (A, sel):
            for ww in (None, w):
                v = np.ones(R) if ww is None else ww
                want = np.array([sum(v[q] for q in range(R) if tuple(X0[q].tolist()) == tuple(a)) for a in AA.tolist()])
                g = U.state_probs(X, allstates=AA, weights=ww, normalized=False)
                c.close(g, want, 'weighted count of each listed state', 1e-9, X=X0, allstates=AA, weights=ww)
                if want.sum() > 0:
                    g = U.state_probs(X, allstates=AA, weights=ww)
                    c.close(g, want / want.sum(), 'normalised frequencies', 1e-9, X=X0, allstates=AA, weights=ww)
                    c.close(g.sum(), 1, 'frequencies sum to one', 1e-9, X=X0)
        c.ok(np.array_equal(X, X0), 'sample unchanged', X=X0)
    f, s = U.state_probs(np.array([0, 1, 1, 1, 0]))
    c.close(f, [.4, .6], 'one-dimensional sample')
    c.ok(s.tolist() == [[0], [1]], 'one-dimensional sample: states', got=s)


@case('unique rows')
def unique(c):
    for rep in range(c.pick(100, 500)):
        n, R = int(c.rng.randint(1, 7)), int(c.rng.randint(1, 30))
        dt = (int, float, np.int8, np.int32)[rep % 4]
        X = c.rng.choice([-1, 0, 1], size=(R, n)).astype(dt)
        if rep % 3 == 1:
            X = np.asfortranarray(X)
        if rep % 3 == 2:
            X = np.repeat(X, 2, axis=1)[:, ::2]
        X0 = X.copy()
        ix = U.unique_rows(X)
        inv = U.unique_rows(X, return_inverse=True)
        d = {tuple(r) for r in X0.tolist()}
        c.ok(len(ix) == len(d) and {tuple(r) for r in X0[ix].tolist()} == d, 'each distinct row once', X=X0, got=ix)
        c.ok(np.array_equal(X0[ix][np.ravel(inv)], X0), 'the inverse rebuilds the matrix', X=X0, got=inv)
        c.ok(all(X0[:i].tolist().count(X0[i].tolist()) == 0 for i in ix), 'indices of first occurrences', X=X0, got=ix)
        c.ok(np.array_equal(X, X0), 'matrix unchanged', X=X0)


@case('replica overlap')
def overlap(c):
    for X in samples(c):
        R, n = X.shape
        X0 = X.copy()
        g = U.calc_overlap(X)
        want = np.array([[sum(int(a) * int(b) for a, b in zip(X[i], X[j])) / n for j in range(R)] for i in range(R)])
        c.close(g, want, 'overlap', X=X0)
        z = (X == 0).sum(1)
        if z.max() < n:
            want = np.array([[want[i, j] * n / (n - max(z[i], z[j])) for j in range(R)] for i in range(R)])
            c.close(U.calc_overlap(X, ignore_zeros=True), want, 'overlap relative to the nonzero spins', X=X0)
        c.ok(np.array_equal(X, X0), 'sample unchanged', X=X0)
    c.close(U.calc_overlap(np.ones((2, 200), dtype=np.int8)), np.ones((2, 2)), 'small integer types')

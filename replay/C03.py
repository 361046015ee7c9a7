import numpy as np
from itertools import combinations
from math import comb
from rt import case
import orc
from coniii import utils as U


def esum(S, params):
    """-sum over orders, written from the definition"""
    out = []
    for s in S:
        e = 0.
        for k, p in enumerate(params, 1):
            for q, t in enumerate(combinations(range(len(s)), k)):
                v = float(p[q])
                for i in t:
                    v *= float(s[i])
                e -= v
        out.append(e)
    return np.array(out)


def unchanged(c, before, after, what, **kw):
    c.ok(all(np.array_equal(a, b) and np.asarray(a).shape == np.asarray(b).shape for a, b in zip(before, after)), what, **kw)


@case('fields and couplings')
def pairwise(c):
    c.bound = 'n from 2 to 8, all 2^n states'
    for n in range(2, c.pick(8, 11)):
        S = orc.states(n, [0, 1])
        for rep in range(4):
            h, J = c.rng.normal(size=n), c.rng.normal(size=n * (n - 1) // 2)
            if rep == 1:
                h = np.round(h * 5).astype(int)
                J = np.round(J * 5).astype(int)
            if rep == 2:
                J = np.zeros_like(J)
                J[c.rng.randint(len(J))] = 1.7
            if rep == 3:
                h = np.zeros(n)
            Jm = np.zeros((n, n), dtype=J.dtype)
            for q, (i, j) in enumerate(orc.pairs(n)):
                Jm[i, j] = Jm[j, i] = J[q]
            for to, src, dst in (('11', S, 2 * S - 1), ('01', 2 * S - 1, S)):
                h0, J0, M0 = h.copy(), J.copy(), Jm.copy()
                a, b = U.convert_params(h, J, to)
                a2, b2 = U.convert_params(h, Jm, to)
                cc = U.convert_params(h, J, to, concat=True)
                cm = U.convert_params(h, Jm, convert_to=to, concat=True)
                unchanged(c, (h0, J0, M0), (h, J, Jm), 'inputs unchanged', h=h0, J=J0, to=to)
                c.ok(np.shape(a) == (n,) and np.shape(b) == (len(J),), 'shapes', h=h, J=J, to=to)
                d = esum(dst, (a, b)) - esum(src, (h, J))
                c.close(d, np.full(len(d), d[0]), 'energies differ by one constant', 1e-9, h=h, J=J, to=to)
                c.close(a2, a, 'matrix couplings give the same fields', h=h, J=J, to=to)
                c.close(b2, b, 'matrix couplings give the same couplings', h=h, J=J, to=to)
                c.close(cc, np.concatenate((a, b)), 'concatenated output', h=h, J=J, to=to)
                c.close(cm, np.concatenate((a, b)), 'concatenated output (matrix)', h=h, J=J, to=to)
                back = '01' if to == '11' else '11'
                x, y = U.convert_params(a, b, back)
                c.close(x, h, 'converting back restores the fields', h=h, J=J, to=to)
                c.close(y, J, 'converting back restores the couplings', h=h, J=J, to=to)
    for bad in ('10', 1, 'x', '', None, 11):
        for Jx in (np.ones(3), 1 - np.eye(3)):
            c.raises(lambda: U.convert_params(np.ones(3), Jx, bad), 'an unknown basis is rejected', bad=bad)


@case('any order')
def orders(c):
    c.bound = 'n up to %d, every order up to n, all 2^n states' % c.pick(6, 8)
    for n in range(2, c.pick(7, 9)):
        S = orc.states(n, [0, 1])
        for order in range(1, n + 1):
            for rep in range(3):
                p = [c.rng.normal(size=comb(n, k)) for k in range(1, order + 1)]
                if rep == 1:
                    for k in range(order):
                        p[k] *= 0
                    p[-1][c.rng.randint(len(p[-1]))] = 1.3
                if rep == 2:
                    p = [list(x) for x in p]
                for to, src, dst in (('11', S, 2 * S - 1), ('01', 2 * S - 1, S)):
                    p0 = [np.array(x) for x in p]
                    q = U.ising_convert_params(p, to)
                    q2 = U.ising_convert_params(tuple(p), convert_to=to, concat=True)
                    unchanged(c, p0, p, 'inputs unchanged', n=n, order=order, to=to, p=p0)
                    c.ok(len(q) == order and all(len(q[k]) == comb(n, k + 1) for k in range(order)), 'shapes', n=n, order=order)
                    d = esum(dst, q) - esum(src, p)
                    c.close(d, np.full(len(d), d[0]), 'energies differ by one constant', 1e-9, p=p0, to=to, n=n)
                    c.close(q2, np.concatenate([np.asarray(x) for x in q]), 'concatenated output', p=p0, to=to, n=n)
                    b = U.ising_convert_params(q, '01' if to == '11' else '11')
                    for x, y in zip(b, p):
                        c.close(x, y, 'converting back restores the parameters', 1e-9, p=p0, to=to, n=n)
                    sp = U.split_concat_params(q2, n)
                    c.ok(len(sp) == order, 'splitting the concatenated parameters', n=n, order=order)
                    for x, y in zip(sp, q):
                        c.close(x, y, 'splitting the concatenated parameters', n=n, order=order)
            if order == 2:
                h, J = c.rng.normal(size=n), c.rng.normal(size=comb(n, 2))
                for to in ('01', '11'):
                    c.close(U.ising_convert_params([h, J], to, concat=True), U.convert_params(h, J, to, concat=True), 'agrees with the pairwise conversion', h=h, J=J)
    for bad in ('10', 1, 'x', ''):
        c.raises(lambda: U.ising_convert_params([np.ones(3), np.ones(3)], bad), 'an unknown basis is rejected', bad=bad)


@case('correlations')
def corr(c):
    for n in range(2, c.pick(10, 20)):
        for rep in range(3):
            X = c.rng.choice([-1, 1], size=(int(c.rng.randint(1, 30)), n))
            if rep == 2:
                X[:, 0] = 1
            O = lambda Y: (np.array(Y, dtype=float).mean(0), np.array([(Y[:, i] * Y[:, j]).mean() for i, j in orc.pairs(n)]))
            s11, s01 = O(X), O((X + 1) // 2)
            for to, a, b in (('01', s11, s01), ('11', s01, s11)):
                a0 = [x.copy() for x in a]
                r = U.convert_corr(*a, to)
                unchanged(c, a0, a, 'inputs unchanged', to=to)
                c.close(r[0], b[0], 'means of the transformed sample', X=X, to=to)
                c.close(r[1], b[1], 'pair correlations of the transformed sample', X=X, to=to)
                c.close(U.convert_corr(*a, to, concat=True), np.concatenate(b), 'concatenated output', X=X, to=to)
                z = U.convert_corr(*r, '11' if to == '01' else '01')
                c.close(np.concatenate(z), np.concatenate(a), 'inverted by the opposite conversion', X=X, to=to)
                c.close(np.concatenate(U.convert_corr(*a, '??', convertTo=to)), np.concatenate(b), 'old keyword', X=X, to=to)
                # any numbers, any element type: the conversion is affine
                for dt in (int, np.int8, np.float32, float):
                    si = np.array(c.rng.randint(-3, 4, size=n), dtype=dt)
                    ss = np.array(c.rng.randint(-3, 4, size=n * (n - 1) // 2), dtype=dt)
                    x = [float(t) for t in si]
                    y = [float(t) for t in ss]
                    w = ([(t + 1) / 2 for t in x], [(y[k] + x[i] + x[j] + 1) / 4 for k, (i, j) in enumerate(orc.pairs(n))]) if to == '01' else \
                        ([2 * t - 1 for t in x], [4 * y[k] - 2 * x[i] - 2 * x[j] + 1 for k, (i, j) in enumerate(orc.pairs(n))])
                    for g in (U.convert_corr(si, ss, to), np.split(U.convert_corr(si, ss, to, concat=True), [n])):
                        c.close(g[0], w[0], 'means, element type', 1e-5, si=si, sisj=ss, to=to, dtype=str(dt))
                        c.close(g[1], w[1], 'pair correlations, element type', 1e-5, si=si, sisj=ss, to=to, dtype=str(dt))
    for bad in ('10', 11, 'x'):
        c.raises(lambda: U.convert_corr(np.zeros(3), np.zeros(3), bad), 'an unknown basis is rejected', bad=bad)
    c.raises(lambda: U.convert_corr(np.zeros(3), np.zeros(3), '11', nonsense=1), 'unknown keywords are rejected')

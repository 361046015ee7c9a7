import numpy as np
from rt import case
import orc
from coniii import utils as U


def mat(h, J):
    n = len(h)
    A = np.zeros((n, n), dtype=np.result_type(h, J))
    for i in range(n):
        A[i, i] = h[i]
    for q, (i, j) in enumerate(orc.pairs(n)):
        A[i, j] = A[j, i] = J[q]
    return A


def params(c, n, kind):
    h, J = c.rng.normal(size=n), c.rng.normal(size=n * (n - 1) // 2)
    if kind == 1:
        h, J = np.round(h * 9).astype(int), np.round(J * 9).astype(int)
    if kind == 2:
        J = np.zeros_like(J)
        if len(J):
            J[-1] = 2.5
    if kind == 3:
        h = np.arange(1, n + 1) * 1.
        J = 100. + np.arange(len(J))
    return h, J


@case('vectors and matrices')
def conv(c):
    c.bound = 'sizes 2..%d, random and structured parameters' % c.pick(14, 40)
    for n in range(2, c.pick(15, 41)):
        for kind in range(4):
            h, J = params(c, n, kind)
            p = np.concatenate((h, J))
            A = mat(h, J)
            p0, A0 = p.copy(), A.copy()
            M = U.vec2mat(p)
            c.same(M, A, 'vec2mat', p=p)
            hh, JJ = U.vec2mat(p, separate_fields=True)
            c.same(hh, h, 'fields returned separately', p=p)
            c.same(JJ, A - np.diag(np.diag(A)), 'couplings with a zero diagonal', p=p)
            c.same(p, p0, 'vec2mat leaves its input', p=p0)
            c.same(U.mat2vec(A), p, 'mat2vec', A=A)
            c.same(A, A0, 'mat2vec leaves its input', A=A0)
            c.same(U.mat2vec(U.vec2mat(p)), p, 'round trip', p=p)
            c.same(U.mat2vec(np.asfortranarray(A)), p, 'mat2vec, column order', A=A)
    sizes = {n * (n + 1) // 2 for n in range(1, 200)}
    for s in range(2, c.pick(120, 1200)):
        if s not in sizes:
            for kw in ({}, {'separate_fields': True}):
                c.raises(lambda: U.vec2mat(np.zeros(s), **kw), 'length %d is rejected' % s, length=s, kw=kw)


@case('diagonals')
def diag(c):
    c.bound = 'sizes 1..12, symmetric and asymmetric matrices'
    for n in range(1, 13):
        for rep in range(4):
            A = c.rng.normal(size=(n, n))
            if rep == 1:
                A = np.round(A * 9).astype(int)
            if rep == 2:
                A = A.T
            d = c.rng.normal(size=n) if rep else np.zeros(n)
            A0, d0 = A.copy(), d.copy()
            for fn, nd in ((lambda: U.replace_diag(A, d), d), (lambda: U.zero_diag(A), np.zeros(n))):
                B = fn()
                W = A0.astype(float).copy()
                for i in range(n):
                    W[i, i] = nd[i]
                c.close(B, W, 'only the diagonal changes', 1e-12, A=A0, d=nd)
                off = ~np.eye(n, dtype=bool)
                c.same(np.asarray(B, float)[off], A0.astype(float)[off], 'off-diagonal entries kept exactly', A=A0)
                c.ok(not np.shares_memory(B, A), 'a new matrix is returned', A=A0)
            c.same(A, A0, 'matrix unchanged', A=A0)
            c.same(d, d0, 'diagonal unchanged', d=d0)
    c.raises(lambda: U.replace_diag(np.zeros((3, 3)), np.zeros(4)), 'wrong diagonal length')
    c.raises(lambda: U.replace_diag(np.zeros((3, 4)), np.zeros(3)), 'matrix not square')
    c.raises(lambda: U.replace_diag(np.zeros((4, 3)), np.zeros(3)), 'matrix not square')
    c.raises(lambda: U.replace_diag(np.zeros((4, 3)), np.zeros(4)), 'matrix not square')
    c.raises(lambda: U.replace_diag(np.zeros((3, 3)), np.zeros((3, 1))), 'diagonal not a vector')


def boltz(n, p, alphabet=(-1, 1), obs=None):
    S = orc.states(n, alphabet)
    O = orc.obs_matrix(S) if obs is None else obs(S)
    e = -O @ np.asarray(p, float)
    w = np.exp(-(e - e.min()))
    w /= w.sum()
    return S, O, w


@case('models.Ising')
def ising(c):
    from coniii import models as Md
    c.bound = 'sizes 2..11 in every format'
    for n in c.pick((2, 3, 4, 6, 11), tuple(range(2, 25))):
        for kind in c.pick((0, 3) if n in (2, 4) else (0 if n == 6 else 1 if n == 3 else 3,), range(4)):
            h, J = params(c, n, kind)
            p, A = np.concatenate((h, J)), mat(h, J)
            forms = [('pair', (h.copy(), J.copy())), ('list', [h.copy(), J.copy()]), ('matrix', A.copy()), ('fortran matrix', np.asfortranarray(A))]
            if n > 1 and len(p) != 2:
                forms.append(('vector', p.copy()))
            for nm, a in forms:
                keep = [np.array(x, copy=True) for x in a] if isinstance(a, (tuple, list)) else np.array(a, copy=True)
                m = Md.Ising(a)
                c.ok(m.n == n, 'size from %s' % nm, m.n, n, h=h, J=J)
                c.same(np.asarray(m.multipliers, float), p.astype(float), 'parameters from %s' % nm, h=h, J=J)
                now = list(a) if isinstance(a, (tuple, list)) else a
                c.ok(all(np.array_equal(x, y) for x, y in zip(keep, now)) if isinstance(keep, list) else np.array_equal(keep, now), 'argument unchanged (%s)' % nm)
                S = c.rng.choice([-1, 1], size=(5, n))
                if kind == 0 and n in (2, 7) and nm in ('pair', 'matrix'):
                    c.close(m.calc_e(S, m.multipliers.astype(float)), -orc.obs_matrix(S) @ p.astype(float), 'energies of the model', 1e-9, h=h, J=J)
            if n <= c.pick(6, 9) and (kind == 0 or n < 5):
                m = Md.Ising(p.astype(float))
                S, O, w = boltz(n, p)
                c.close(m.calc_observables(), w @ O, 'observables of the initial parameters', 1e-6, p=p)
                for _ in range(2):
                    q = c.rng.normal(size=len(p))
                    m.set_multipliers(q)
                    S, O, w = boltz(n, q)
                    c.same(m.multipliers, q, 'parameters after an update', p=p, q=q)
                    c.close(m.calc_observables(), w @ O, 'observables after an update', 1e-6, q=q)
                    c.close(sorted(m.calc_p()), sorted(w), 'probabilities after an update', 1e-8, q=q)
                r = c.rng.normal(size=len(p))
                c.close(m.calc_observables(r), boltz(n, r)[2] @ O, 'observables of given parameters', 1e-6, r=r)
        m = Md.Ising(n)
        c.ok(m.n == n and np.array_equal(m.multipliers, np.zeros(n * (n + 1) // 2)), 'integer size', n=n)
    sizes = {n * (n + 1) // 2 for n in range(1, 200)}
    for s in range(4, c.pick(60, 400)):
        if s not in sizes:
            c.raises(lambda: Md.Ising(np.zeros(s)), 'vector length %d is rejected' % s, length=s)
    for n in range(2, 8):
        for d in (-2, -1, 1, 2, n):
            k = n * (n - 1) // 2 + d
            if k >= 0:
                c.raises(lambda: Md.Ising((np.zeros(n), np.zeros(k))), 'wrong number of couplings', n=n, k=k)
                c.raises(lambda: Md.Ising([np.zeros(n), np.zeros(k)]), 'wrong number of couplings', n=n, k=k)
    for bad in (1, 0, -3, 'abc'):
        c.raises(lambda: Md.Ising(bad), 'rejects %r' % (bad,))


@case('models.Triplet and models.Potts3')
def other(c):
    from coniii import models as Md
    from math import comb
    c.bound = 'sizes 3..8'
    for n in range(3, 9):
        h, J, K = c.rng.normal(size=n), c.rng.normal(size=comb(n, 2)), c.rng.normal(size=comb(n, 3))
        m = Md.Triplet([h, J, K])
        p = np.concatenate((h, J, K))
        c.ok(m.n == n, 'triplet size', m.n, n)
        c.same(m.multipliers, p, 'triplet parameters', n=n)
        S = c.rng.choice([-1, 1], size=(6, n))
        if n in (3, 6):
            c.close(m.calc_e(S, m.multipliers), -orc.ising_obs_many(S, 3) @ p, 'triplet energies', 1e-9, n=n)
        q = c.rng.normal(size=len(p))
        m.set_multipliers(q)
        c.same(m.multipliers, q, 'triplet update')
        if m._calc_p is not None:
            w = boltz(n, q, obs=lambda S: orc.ising_obs_many(S, 3))[2]
            c.close(sorted(m.calc_p()), sorted(w), 'triplet probabilities after an update', 1e-8, q=q)
        for d in (-1, 1, 2):
            c.raises(lambda: Md.Triplet([h, np.zeros(comb(n, 2) + d), K]), 'wrong number of couplings', n=n, d=d)
            if comb(n, 3) + d >= 0:
                c.raises(lambda: Md.Triplet([h, J, np.zeros(comb(n, 3) + d)]), 'wrong number of triplets', n=n, d=d)
    for n in range(2, 9):
        h, J = c.rng.normal(size=3 * n), c.rng.normal(size=comb(n, 2))
        p = np.concatenate((h, J))
        for a in ([h.copy(), J.copy()], p.copy()):
            m = Md.Potts3(a)
            c.ok(m.n == n, 'Potts size', m.n, n)
            c.same(m.multipliers, p, 'Potts parameters', n=n)
            S = c.rng.randint(3, size=(6, n))
            if n in (2, 5):
                c.close(m.calc_e(S, m.multipliers), -orc.potts_obs_many(S, 3) @ p, 'Potts energies', 1e-9, n=n)
        q = c.rng.normal(size=len(p))
        m.set_multipliers(q)
        c.same(m.multipliers, q, 'Potts update')
        if m._calc_p is not None:
            w = boltz(n, q, (0, 1, 2), lambda S: orc.potts_obs_many(S, 3))[2]
            c.close(sorted(m.calc_p()), sorted(w), 'Potts probabilities after an update', 1e-8, q=q)
        for d in (-1, 1, 2):
            if comb(n, 2) + d >= 0:
                c.raises(lambda: Md.Potts3([h, np.zeros(comb(n, 2) + d)]), 'wrong number of couplings', n=n, d=d)
        c.raises(lambda: Md.Potts3([h[:-1], J]), 'fields not a multiple of three', n=n)
    sizes = {3 * n + comb(n, 2) for n in range(0, 100)}
    for s in range(1, c.pick(80, 400)):
        if s not in sizes:
            c.raises(lambda: Md.Potts3(np.zeros(s)), 'vector length %d is rejected' % s, length=s)


@case('sampler copies')
def sampler(c):
    from coniii import models as Md
    c.bound = 'sizes 3..6, Ising, Triplet and Potts3'
    from math import comb
    for n in (3, 5):
        for kind in ('ising', 'triplet', 'potts'):
            sizes = {'ising': [n, comb(n, 2)], 'triplet': [n, comb(n, 2), comb(n, 3)], 'potts': [3 * n, comb(n, 2)]}[kind]
            parts = [c.rng.normal(size=k) for k in sizes]
            m = {'ising': Md.Ising, 'triplet': Md.Triplet, 'potts': Md.Potts3}[kind](parts)
            m.setup_sampler(sampler_kwargs=dict(boost=False), sample_size=10)
            p0 = np.concatenate(parts)
            th = lambda: np.concatenate([np.ravel(x) for x in (m.sampler.theta,)])
            c.close(th(), p0, 'the sampler starts with the parameters of the model', 1e-12, kind=kind, n=n)
            q = c.rng.normal(size=len(p0))
            m.set_multipliers(q)
            m.generate_sample(2, 2, parallel=False)
            c.close(th(), q, 'the sampler uses the updated parameters', 1e-12, kind=kind, n=n)
            obs = {'ising': orc.ising_obs_many, 'triplet': lambda S: orc.ising_obs_many(S, 3), 'potts': lambda S: orc.potts_obs_many(S, 3)}[kind]
            c.close(m.sampler.E, -obs(m.sample) @ q, 'energies of the sample under the updated parameters', 1e-8, kind=kind, n=n)
            r = c.rng.normal(size=len(p0))
            m.generate_sample(2, 2, multipliers=r, parallel=False)
            c.close(th(), r, 'the sampler uses the given parameters', 1e-12, kind=kind, n=n)
            c.same(m.multipliers, q, 'the parameters of the model are kept', kind=kind, n=n)

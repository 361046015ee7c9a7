import numpy as np
from rt import case
import orc
from coniii import utils as U


def check_family(c, calc_e, calc_obs, n, X, theta, f, what):
    X0, t0 = X.copy(), theta.copy()
    e = calc_e(X, theta)
    c.ok(np.array_equal(X, X0) and np.array_equal(theta, t0), what + ': energy leaves its inputs alone', X=X0, theta=t0)
    c.close(e, orc.energy(X0, t0, f), what + ': energy is minus multipliers.observables', 1e-9, X=X0, theta=t0)
    o = calc_obs(X)
    c.ok(np.array_equal(X, X0), what + ': observables leave the sample alone', X=X0)
    c.same(np.asarray(o, dtype=float), orc.obs_matrix(X0, f) if len(X0) else np.zeros((0, len(theta))), what + ': observables', X=X0)
    if len(X) > 1:
        q = c.rng.permutation(len(X))
        c.close(calc_e(np.ascontiguousarray(X[q]), theta), np.asarray(e)[q], what + ': rows are independent', 1e-10, X=X0, theta=t0)


def thetas(c, m):
    yield c.rng.normal(size=m)
    t = np.zeros(m)
    t[c.rng.randint(m)] = 1.5
    yield t
    yield 10. ** np.arange(m)[::-1].clip(0, 4) * c.rng.choice([-1, 1], m) * 1e-2
    yield np.zeros(m)


@case('ising energy and observables')
def ising(c):
    calc_e, obs, _ = U.define_ising_helper_functions()
    c.bound = 'n from 2 to %d, all or random states in {0,1} and {-1,1}' % c.pick(14, 30)
    for n in list(range(2, c.pick(9, 14))) + [c.pick(14, 30)]:
        m = n + n * (n - 1) // 2
        for vals in ([-1, 1], [0, 1]):
            if n <= 4:
                S = orc.states(n, vals)
            else:
                S = c.rng.choice(vals, size=(17, n))
                S[0] = vals[0]
                S[1] = vals[1]
            for _, X in list(orc.layouts(S)):
                X = X.astype(np.int64) if X.flags['C_CONTIGUOUS'] else X
                for t in thetas(c, m):
                    check_family(c, calc_e, obs, n, X, t, orc.ising_obs, 'Ising')
            check_family(c, calc_e, obs, n, S[:1].copy(), c.rng.normal(size=m), orc.ising_obs, 'Ising one row')
            big = c.rng.normal(size=2 * m)
            check_family(c, calc_e, obs, n, S, big[::2], orc.ising_obs, 'Ising strided parameters')
    c.ok(obs(np.zeros((0, 4), dtype=int)).shape == (0, 10), 'no rows')


@case('ising without fields')
def sym(c):
    calc_e, obs, _ = U.define_ising_helper_functions_sym()
    for n in range(2, c.pick(9, 20)):
        m = n * (n - 1) // 2
        for vals in ([-1, 1], [0, 1]):
            S = orc.states(n, vals) if n <= 4 else c.rng.choice(vals, size=(15, n))
            for t in thetas(c, m):
                check_family(c, calc_e, obs, n, S, t, orc.sym_obs, 'field-free Ising')


@case('third order')
def triplet(c):
    calc_e, obs = U.define_triplet_helper_functions()
    for n in range(3, c.pick(8, 14)):
        m = n + n * (n - 1) // 2 + n * (n - 1) * (n - 2) // 6
        for vals in ([-1, 1], [0, 1]):
            S = orc.states(n, vals) if n <= 4 else c.rng.choice(vals, size=(12, n))
            for t in thetas(c, m):
                check_family(c, calc_e, obs, n, S, t, lambda s: orc.ising_obs(s, 3), 'third order')


@case('Potts')
def potts(c):
    for k in range(2, c.pick(6, 9)):
        calc_e, obs, _ = U.define_potts_helper_functions(k)
        for n in range(2, c.pick(7, 10)):
            m = n * k + n * (n - 1) // 2
            S = orc.states(n, range(k)) if k ** n < 100 else c.rng.choice(k, size=(20, n))
            for t in thetas(c, m):
                check_family(c, calc_e, obs, n, S, t, lambda s: orc.potts_obs(s, k), 'Potts k=%d' % k)


@case('ternary')
def ternary(c):
    calc_e, obs = U.define_ternary_helper_functions()
    n, R = 3, 5
    # the sample is a window of a larger zero array: columns past the end exist and are zero
    big = np.zeros((R + 2, 4 * n), dtype=np.int64)
    X = big[1:R + 1, :n]
    X[:] = c.rng.choice([-1, 0, 1], size=(R, n))
    Y = obs(X)
    c.ok(Y.shape == (R, 3 * n + n * (n - 1) // 2), 'ternary: number of observables', got=Y.shape)
    c.same(Y[:, 3 * n:], orc.obs_matrix(X, orc.sym_obs), 'ternary: pair products', X=X)
    t = c.rng.normal(size=Y.shape[1])
    c.close(calc_e(X, t), -Y.dot(t), 'ternary: energy is minus multipliers.observables', X=X, theta=t)
    py = getattr(obs, 'py_func', obs)
    c.probe('ternary-out-of-bounds', lambda: py(np.ascontiguousarray(X)).shape == Y.shape,
            'define_ternary_helper_functions.calc_observables reads 2n columns past the end of the sample')


@case('energy derivative')
def de(c):
    for n in range(2, c.pick(9, 15)):
        for vals in ([-1, 1], [0, 1]):
            X = c.rng.choice(vals, size=(11, n))
            X0 = X.copy()
            O = orc.obs_matrix(X, orc.ising_obs)
            for i in range(n + n * (n - 1) // 2):
                c.same(U.calc_de(X, i), -O[:, i], 'derivative of the energy with respect to parameter i', X=X0, i=i)
            c.ok(np.array_equal(X, X0), 'sample unchanged', X=X0)
            calc_e = U.define_ising_helper_functions()[0]
            t = c.rng.normal(size=n + n * (n - 1) // 2)
            for i in (0, n - 1, n, len(t) - 1):
                d = t.copy()
                d[i] += 1.
                c.close(calc_e(X, d) - calc_e(X, t), U.calc_de(X, i), 'finite difference', 1e-9, X=X0, theta=t, i=i)

"""Independent oracles: written from the definitions with plain loops (itertools), no code of the package."""
import itertools
import math
import numpy as np


def pairs(n):
    return list(itertools.combinations(range(n), 2))


def ising_obs(s, order=2):
    s = [float(x) for x in s]
    out = []
    for k in range(1, order + 1):
        for t in itertools.combinations(range(len(s)), k):
            p = 1.
            for i in t:
                p *= s[i]
            out.append(p)
    return np.array(out)


def sym_obs(s):
    return np.array([float(s[i]) * float(s[j]) for i, j in pairs(len(s))])


def potts_obs(s, k):
    return np.array([1. * (s[j] == i) for i in range(k) for j in range(len(s))] + [1. * (s[i] == s[j]) for i, j in pairs(len(s))])


def obs_matrix(X, f=ising_obs):
    return np.array([f(s) for s in X])


def ising_obs_many(X, order=2):
    return np.array([ising_obs(s, order) for s in X])


def potts_obs_many(X, k):
    return np.array([potts_obs(s, k) for s in X])


def energy(X, theta, f):
    return np.array([-math.fsum(float(a) * float(b) for a, b in zip(f(s), theta)) for s in X])


def states(n, vals):
    return np.array(list(itertools.product(vals, repeat=n)))


def boltzmann(X, theta, f):
    """probabilities and log Z over the given states"""
    e = energy(X, theta, f)
    m = (-e).max()
    w = np.exp(-e - m)
    return w / w.sum(), m + math.log(w.sum())


def rand_theta(rng, m, scale=1.):
    return rng.normal(size=m) * scale


def layouts(X):
    """the same matrix in several memory layouts"""
    X = np.asarray(X)
    yield 'C', np.ascontiguousarray(X)
    yield 'F', np.asfortranarray(X)
    big = np.zeros((2 * X.shape[0] + 1, 3 * X.shape[1] + 2), dtype=X.dtype)
    big[1:2 * X.shape[0] + 1:2, 1:3 * X.shape[1] + 1:3] = X
    yield 'strided', big[1:2 * X.shape[0] + 1:2, 1:3 * X.shape[1] + 1:3]

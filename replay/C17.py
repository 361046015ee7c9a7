import itertools
import math
import warnings
import numpy as np
from rt import case
import orc
from coniii import utils as U
from coniii.ising import utils as IU
from coniii.ising import automaton as AU
warnings.simplefilter('ignore')


@case('coarse graining')
def coarse(c):
    c.bound = '2..9 columns, up to three rounds, random similarities (also negative ones and ties)'
    for it in range(c.pick(60, 300)):
        n, R = c.rng.randint(2, 10), c.rng.randint(1, 8)
        times = c.rng.randint(0, max(1, int(math.ceil(math.log2(n)))))
        X = c.rng.randint(-3, 4, size=(R, n)).astype(c.rng.choice([np.int64, np.float64]))
        keep = X.copy()
        seen, made = [], []

        def sim(Y):
            m = Y.shape[1]
            v = c.rng.normal(size=m * (m - 1) // 2) * 2 - (1 if it % 2 else 0)
            if it % 3 == 0:
                v = np.round(v)
            seen.append((Y.copy(), v.copy()))
            return v

        def fn(Y):
            r = (Y.sum(1) * 3 if Y.shape[1] == 2 else Y[:, 0] * 5) + len(made) % 4
            made.append((len(seen) - 1, Y.copy(), r.copy()))
            return r
        out, ids = U.coarse_grain_with_func(X, times, sim, fn)
        a = dict(X=X, times=times, sims=[v for _, v in seen], ids=ids)
        c.same(X, keep, 'the data are left as they were')
        c.ok(sorted(q for g in ids for q in g) == list(range(n)), 'the groups partition the columns', **a)
        cur, groups, k = X.copy(), [[i] for i in range(n)], 0
        for lv in range(times):
            Y, v = seen[lv]
            c.same(Y, cur, 'similarities of the columns of the round before', **a)
            m = cur.shape[1]
            at = {p: v[q] for q, p in enumerate(orc.pairs(m))}
            left, nxt, ng = set(range(m)), [], []
            size = (m + 1) // 2
            for g in range(size):
                lvl, Z, r = made[k]
                k += 1
                want = 1 if (m % 2 and g == size - 1) else 2
                c.ok(lvl == lv and Z.shape[1] == want, 'pairs at each step', group=g, columns=Z.shape[1], **a)
                cand = [p for p in itertools.combinations(sorted(left), want) if all(np.array_equal(cur[:, x], Z[:, y]) for y, x in enumerate(p))]
                c.ok(bool(cand), 'a group of columns that are left', group=g, **a)
                if want == 2:
                    best = max(at[p] for p in itertools.combinations(sorted(left), 2))
                    cand = [p for p in cand if at[p] == best]
                    c.ok(bool(cand), 'the pair with the highest similarity', group=g, **a)
                # which one when columns are equal: the one the result says
                names = {tuple(sorted(sum((groups[x] for x in p), []))): p for p in cand}
                p = cand[0]
                if lv == times - 1:
                    p = names.get(tuple(sorted(ids[g])), None)
                    c.ok(p is not None, 'the group that the result names', group=g, **a)
                elif len(cand) > 1:
                    break
                left -= set(p)
                nxt.append(r)
                ng.append(sum((groups[x] for x in p), []))
            else:
                cur, groups = np.array(nxt).T.reshape(R, size), ng
                continue
            break
        else:
            c.same(out, cur, 'coarse columns are the coarse functions of their groups', **a)
            c.ok(out.dtype == X.dtype, 'kind of the data', **a)
            c.ok([sorted(g) for g in ids] == [sorted(g) for g in groups], 'columns merged into each', **a)


def energy(s, h, J):
    n = len(s)
    return -sum(h[i] * s[i] for i in range(n)) - sum(J[q] * s[i] * s[j] for q, (i, j) in enumerate(orc.pairs(n)))


@case('energy landscape')
def landscape(c):
    c.bound = '2..6 spins; every state up to 5 spins; fields and couplings as arrays, lists and numbers'
    for it in range(c.pick(30, 120)):
        n = 2 + it % 5
        m = n * (n - 1) // 2
        h, J = c.rng.normal(size=n), c.rng.normal(size=m) * 2
        how = it % 4
        args = (h, J)
        if how == 1:
            args = (list(h), list(J))
        elif how == 2:
            args = (.3, -.7)
            h, J = np.zeros(n) + .3, np.zeros(m) - .7
        elif how == 3 and it % 8 == 3:
            args = ()
            h, J = np.zeros(n), np.zeros(m)
        o = IU.Ising(n, *args)
        a = dict(h=h, J=J)
        p, _ = orc.boltzmann(orc.states(n, (-1, 1)), np.concatenate((h, J)), orc.ising_obs)
        s1 = orc.states(n, (-1, 1))
        c.close(o.correlations(), p.dot(orc.ising_obs_many(s1)), 'correlations', 1e-8, **a)
        c.close(o.correlations('0'), p.dot(orc.ising_obs_many((s1 + 1) // 2)), 'correlations of zeros and ones', 1e-8, **a)
        c.close(o.fields(), h, 'fields', 1e-12)
        c.close(o.couplings(), J, 'couplings', 1e-12)
        e01 = [-np.dot(o.fields('0'), x) - sum(o.couplings('0')[q] * x[i] * x[j] for q, (i, j) in enumerate(orc.pairs(n))) for x in (s1 + 1) // 2]
        e11 = [energy(x, h, J) for x in s1]
        c.close(np.diff(e01), np.diff(e11), 'the same energies in the other basis', 1e-8, **a)
        todo = s1 if n <= 5 else s1[c.rng.permutation(len(s1))[:20]]
        for s in todo:
            keep = s.copy()
            dE = o.neighbor_dE(s)
            for i in range(n):
                t = s.copy()
                t[i] *= -1
                c.close(dE[i], energy(t, h, J) - energy(s, h, J), 'energy after minus before', 1e-8, s=s, i=i, **a)
            b = o.find_basin(s)
            c.same(s, keep, 'the start is left as it was')
            c.ok(set(np.unique(b)) <= {-1, 1} and b.shape == (n,), 'a state', s=s, got=b)
            c.ok(energy(b, h, J) <= energy(s, h, J) + 1e-9, 'energy not above the start', s=s, got=b, **a)
            for i in range(n):
                t = b.copy()
                t[i] *= -1
                c.ok(energy(t, h, J) >= energy(b, h, J) - 1e-9, 'no flip lowers the energy', s=s, got=b, i=i, **a)


def lattice_energy(L, h, J):
    a, b = L.shape
    e = 0.
    for i in range(a):
        for j in range(b):
            e += h[i, j] * L[i, j] - J * L[i, j] * (L[(i + 1) % a, j] + L[i, (j + 1) % b])
    return e


@case('lattice')
def lattice(c):
    c.bound = 'lattices of 2..5 by 2..5; flips at every site, 200 draws each for the rising ones'
    for it in range(c.pick(25, 100)):
        dim = (int(c.rng.randint(2, 6)), int(c.rng.randint(2, 6)))
        J = float(abs(c.rng.normal()) * .5)
        h = [0, float(c.rng.normal()), c.rng.normal(size=dim)][it % 3]
        o = AU.Ising2D(dim, J, h=h)
        H = np.zeros(dim) + h
        c.ok(o.lattice.shape == dim and set(np.unique(o.lattice)) <= {-1, 1}, 'a lattice of spins', dim=dim)
        c.close(o.h, H, 'fields', 0)
        for i in range(dim[0]):
            for j in range(dim[1]):
                L = np.where(c.rng.rand(*dim) < .5, 1, -1).astype(np.int8)
                F = L.copy()
                F[i, j] *= -1
                dE = lattice_energy(F, H, J) - lattice_energy(L, H, J)
                a = dict(lattice=L, h=H, J=J, at=(i, j), dE=dE)
                flips = 0
                draws = 200 if dE > 1e-9 and it % 5 == 0 and i + j < 3 else 3
                for _ in range(draws):
                    G = L.copy()
                    AU.Ising2D.flip_metropolis(i, j, H[i, j], J, G)
                    c.ok(np.array_equal(G, L) or np.array_equal(G, F), 'only the site is turned', got=G, **a)
                    flips += np.array_equal(G, F)
                if dE < -1e-9:
                    c.ok(flips == draws, 'a flip that lowers the energy is made', **a)
                elif draws == 200:
                    p = math.exp(-dE)
                    c.ok(abs(flips - 200 * p) < 6.5 * math.sqrt(200 * p * (1 - p)) + 6, 'flips as often as the Boltzmann factor of the rise', flips=flips, **a)
                elif dE > 40:
                    c.ok(flips == 0, 'no flip uphill', **a)
    # whole sweeps: a field far above everything else sets every spin
    for dim in ((2, 3), (3, 2), (4, 4)):
        for big in (-60., 60.):
            H = np.where(c.rng.rand(*dim) < .5, 1, -1) * big
            o = AU.Ising2D(dim, .1, h=H)
            o.iterate(dim[0] * dim[1])
            c.same(o.lattice, -np.sign(H).astype(o.lattice.dtype), 'one sweep visits every site with its own field', h=H)
            o = AU.Ising2D(dim, .1, h=H)
            o.iterate(dim[0] * dim[1] * 40, systematic=False)
            c.same(o.lattice, -np.sign(H).astype(o.lattice.dtype), 'random sites with their own fields', h=H)
            before = o.lattice.copy()
            o.iterate(0)
            c.same(o.lattice, before, 'no iterations')


@case('majority of blocks')
def blocks(c):
    c.bound = 'lattices of 2..11 by 2..11, factors 1..4'
    for it in range(c.pick(80, 400)):
        d = c.rng.randint(2, 12, size=2)
        f = int(c.rng.randint(1, min(4, d.min()) + 1))
        L = np.where(c.rng.rand(*d) < c.rng.choice([.5, .3, .8]), 1, -1).astype(c.rng.choice([np.int8, np.int64]))
        keep = L.copy()
        got = AU.coarse_grain(L, f)
        c.same(L, keep, 'the lattice is left as it was')
        c.ok(got.shape == (d[0] // f, d[1] // f), 'one site per block', d=d, factor=f, got=got)
        for i in range(got.shape[0]):
            for j in range(got.shape[1]):
                t = int(L[i * f:(i + 1) * f, j * f:(j + 1) * f].astype(int).sum())
                c.ok(got[i, j] == np.sign(t) if t else got[i, j] in (-1, 1), 'majority of the block', lattice=L, factor=f, at=(i, j), got=got[i, j])

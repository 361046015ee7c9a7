import itertools
import math
import warnings
import numpy as np
from rt import case
import orc
from coniii import mean_field_ising as MF
from coniii import solvers as SV
from coniii.models import Ising
warnings.simplefilter('ignore')

H = {}


def model(n):
    if n not in H:
        H[n] = Ising(np.zeros(n + n * (n - 1) // 2))
    return H[n]


def zero_one(n):
    return np.array(list(itertools.product((0, 1), repeat=n)), dtype=float)


def prob(J, hext=0., least=0):
    """zeros and ones with energies of the diagonal and of all off-diagonal entries"""
    n = len(J)
    s = np.array([x for x in zero_one(n) if x.sum() >= least])
    e = np.array([sum((J[i][i] - hext) * x[i] for i in range(n)) + sum(J[i][j] * x[i] * x[j] for i in range(n) for j in range(n) if i != j) for x in s])
    w = np.exp(-e)
    return s, w, w / w.sum()


def corr(X):
    X = [[float(v) for v in x] for x in X]
    n = len(X[0])
    return np.array([[math.fsum(x[i] * x[j] for x in X) / len(X) if i <= j else 0. for j in range(n)] for i in range(n)])


def flat_positions(n):
    """the main diagonal first, then the next"""
    return [(i, i + d) for d in range(n) for i in range(n - d)]


def data(c, n, R, extra=None):
    """every state at least once, so that all the correlations are well inside"""
    s = orc.states(n, (-1, 1))
    return np.vstack([s, s[c.rng.randint(len(s), size=R)]])


@case('co-occurrences')
def cooc(c):
    c.bound = 'samples of up to 6 variables and 400 states, four integer types'
    for it in range(c.pick(30, 120)):
        n, R = c.rng.randint(1, 7), c.rng.choice([1, 2, 7, 60, 400])
        X = c.rng.randint(0, 2, size=(R, n)).astype(c.rng.choice([np.int64, np.int8, np.float64, np.uint8]))
        keep = X.copy()
        want = corr(X)
        c.close(MF.cooccurrence_matrix(X), want, 'co-occurrence matrix', 1e-12, X=X)
        c.close(MF.cooccurrence_matrix(X, keep_diag=False), want - np.diag(np.diag(want)), 'co-occurrence matrix without its diagonal', 1e-12, X=X)
        c.same(X, keep, 'the sample is left as it was')
        D = c.rng.rand(n, n)
        if R > 1:
            c.close(MF.isingDeltaCooc(X, D), [want[p] - D[p] for p in flat_positions(n)], 'differences of co-occurrences', 1e-12, X=X)
        c.close(MF.coocStdevsFlat(D, R), [math.sqrt(((D[p] * R + 1) / (R + 2)) * (1 - (D[p] * R + 1) / (R + 2)) / R) for p in flat_positions(n)], 'standard deviations', 1e-12)
        if n <= 4:
            f = MF.fourthOrderCoocMat(X.astype(float))
            pos = flat_positions(n)
            for a, (i, j) in enumerate(pos):
                for b, (k, l) in enumerate(pos):
                    if k >= i:
                        c.close(f[a, b] if k > i else max(f[a, b], f[b, a]), (X[:, i].astype(float) * X[:, j] * X[:, k] * X[:, l]).mean(), 'fourth-order co-occurrence', 1e-12, at=(i, j, k, l))


@case('flattening')
def flat(c):
    c.bound = 'sizes 1..%d' % c.pick(9, 25)
    for n in range(1, c.pick(9, 25) + 1):
        A = c.rng.normal(size=(n, n))
        keep = A.copy()
        pos = flat_positions(n)
        v = MF.aboveDiagFlat(A, keepDiag=True)
        c.same(v, np.array([A[p] for p in pos]), 'diagonals one after the other')
        if n > 1:
            c.same(MF.aboveDiagFlat(A), np.array([A[p] for p in pos[n:]]), 'without the main one')
            c.close(MF.aboveDiagFlat(A, keepDiag=True, offDiagMult=2.), [A[i, j] * (1 if i == j else 2) for i, j in pos], 'off-diagonal entries doubled', 1e-14)
        c.same(A, keep, 'the matrix is left as it was')
        for q, (i, j) in enumerate(pos):
            c.ok(MF.diagFlatIndex(i, j, n) == q, 'position of an entry', n=n, i=i, j=j)
        w = c.rng.normal(size=n * (n + 1) // 2)
        U = MF.unflatten(w, n)
        c.same(MF.aboveDiagFlat(U, keepDiag=True), w, 'flattening undoes unflattening', n=n)
        c.ok(np.all(np.tril(U, -1) == 0), 'nothing below the diagonal', n=n)
        c.close(MF.unflatten(w, n, symmetrize=True), (U + U.T) / 2, 'symmetrised', 1e-14, n=n)


@case('exact distribution')
def exact(c):
    c.bound = '1..%d variables' % c.pick(4, 6)
    for it in range(c.pick(24, 80)):
        n = 1 + it % c.pick(4, 6)
        J = c.rng.normal(size=(n, n))
        if it % 3 == 1:        # sparse: some variables without couplings, some without fields
            J *= c.rng.rand(n, n) < .5
            a = c.rng.randint(n)
            h = J[a, a]
            J[a] = J[:, a] = 0
            J[a, a] = h
        least = c.rng.randint(0, n + 1)
        hext = c.rng.normal()
        got = [tuple(int(v) for v in f) for f in MF.fightPossibilities(n, least)]
        s, w, p = prob(J, hext, least)
        c.ok(sorted(got) == sorted(tuple(int(v) for v in x) for x in s), 'all states with at least so many ones', n=n, least=least, got=got)
        order = [got.index(tuple(int(v) for v in x)) for x in s]
        c.close(MF.unsummedZ(J, hext, least)[order], w, 'Boltzmann factors', 1e-9, J=J)
        c.close(MF.unsummedLogZ(J, hext, least)[order], np.log(w), 'their logarithms', 1e-9, J=J)
        C = sum(q * np.outer(x, x) for q, x in zip(p, s))
        c.close(MF.coocExpectations(J, hext, minSize=least), np.triu(C), 'expected co-occurrences', 1e-9, J=J)
        c.close(MF.coocExpectations(J, hext, zeroBelowDiag=False, minSize=least), C, 'expected co-occurrences in full', 1e-9, J=J)
        _, _, p0 = prob(J)
        c.close(MF.analyticEntropy(J), -sum(q * math.log(q) for q in p0), 'entropy', 1e-9, J=J)
        # the inverse
        sym = (J + J.T) / 2
        C0 = MF.coocExpectations(sym)
        got = MF.findJmatrixAnalytic_CoocMat(C0)
        c.close(MF.coocExpectations(got), C0, 'couplings that reproduce the co-occurrences', 1e-5, J=sym)
        c.same(got, got.T, 'symmetric couplings')


@case('mean field at finite temperature')
def thermal(c):
    c.bound = '%d random points with J >= 0; derivatives by central differences' % c.pick(60, 400)
    for it in range(c.pick(60, 400)):
        h, J, ell, T = c.rng.normal() * 1.5, abs(c.rng.normal()), c.rng.randint(1, 8), .4 + c.rng.rand() * 2
        m = MF.m(h, J, ell, T)
        c.close(m, 1 / (1 + math.exp((h + 2 * (ell - 1) * m * J) / T)), 'self-consistent', 1e-9, h=h, J=J, ell=ell, T=T)
        e = 1e-4
        d = lambda f, x: (f(x + e) - f(x - e)) / (2 * e)
        c.close(MF.avgE(h, J, ell, T), m * h + (ell - 1) * J * m * m, 'energy', 1e-9)
        c.close(MF.dmdT(h, J, ell, T), d(lambda t: MF.m(h, J, ell, t), T), 'derivative with the temperature', 1e-5, h=h, J=J, ell=ell, T=T)
        c.close(MF.specificHeat(h, J, ell, T), d(lambda t: MF.avgE(h, J, ell, t), T), 'specific heat', 1e-5, h=h, J=J, ell=ell, T=T)
        c.close(MF.susc(h, J, ell, T), -d(lambda x: MF.m(x, J, ell, T), h), 'susceptibility', 1e-5, h=h, J=J, ell=ell, T=T)


@case('homogeneous system')
def homogeneous(c):
    c.bound = 'up to 8 spins against their exact sums'
    for it in range(c.pick(15, 60)):
        h, J, N = c.rng.normal() * .4, .02 + c.rng.rand() * .12, c.rng.randint(2, 9)
        tot = [(math.comb(N, k), 2 * k - N) for k in range(N + 1)]
        w = np.array([b * math.exp(h * M + J * M * M) for b, M in tot])
        Z = w.sum()
        mean = sum(x * M for x, (b, M) in zip(w, tot)) / Z / N
        S = math.log(Z) - sum(x * (h * M + J * M * M) for x, (b, M) in zip(w, tot)) / Z
        q = (1 + mean) / 2
        ind = -N * (q * math.log(q) + (1 - q) * math.log(1 - q))
        a = dict(h=h, J=J, N=N)
        c.close(MF.SHomogeneous(h, J, N), S, 'entropy', 1e-5, **a)
        c.close(MF.avgmHomogeneous(h, J, N), mean, 'mean auxiliary field', 1e-5, **a)
        c.close(MF.avgxHomogeneous(h, J, N), mean, 'mean spin', 1e-5, **a)
        c.close(MF.independentEntropyHomogeneous(h, J, N), ind, 'independent entropy', 1e-5, **a)
        c.close(MF.independentEntropyHomogeneous2(h, J, N), ind, 'independent entropy, second form', 1e-5, **a)
        c.close(MF.multiInfoHomogeneous(h, J, N), ind - S, 'multi-information', 1e-5, **a)
        m, e = c.rng.normal(), 1e-5
        f = lambda t: MF.FHomogeneous(h / t, J / t, N, m)
        c.close(MF.dFdT(h, J, N, m), (f(1 + e) - f(1 - e)) / (2 * e), 'derivative with the temperature', 1e-4, **a)
        x = c.rng.normal() * 5
        c.close(MF.logCosh(x), math.log(math.cosh(x)), 'log cosh', 1e-10, x=x)


def mean_field(C, cluster, gamma):
    """from the definitions, through matrix functions rather than eigenvectors"""
    import scipy.linalg as la
    k = len(cluster)
    full = np.triu(C) + np.triu(C, 1).T
    S = np.array([[full[a, b] for b in cluster] for a in cluster])
    f = np.diag(S)
    cov = S - np.outer(f, f)
    sd = np.sqrt(np.outer(f * (1 - f), f * (1 - f)))
    M = cov / sd
    B = M - gamma * np.eye(k)
    hat = (B + np.real(la.sqrtm(B.dot(B) + 4 * gamma * np.eye(k)))) / 2
    Jp = np.linalg.inv(hat) / sd
    off = Jp - np.diag(np.diag(Jp))
    h = np.array([-math.log(f[i] / (1 - f[i])) + sum(off[i, j] * (cov[i, j] * (f[i] - .5) / (f[i] * (1 - f[i])) - f[j]) for j in range(k)) for i in range(k)])
    ent = sum(-q * math.log(q) - (1 - q) * math.log(1 - q) for q in f) + .5 * (np.linalg.slogdet(hat)[1] + k - np.trace(hat))
    out = np.zeros((len(C), len(C)))
    for i, a in enumerate(cluster):
        for j, b in enumerate(cluster):
            out[a, b] = h[i] if i == j else .5 * off[i, j]
    return ent, out


@case('mean field couplings')
def couplings(c):
    c.bound = 'up to 6 variables, clusters in any order, upper-triangular or full input, degenerate correlations'
    for it in range(c.pick(40, 160)):
        n = c.rng.randint(2, 7)
        if it % 4 == 0:        # uncorrelated or equally correlated: degenerate eigenvalues
            p, r = .2 + .6 * c.rng.rand(), (0. if it % 8 == 0 else .1)
            C = np.full((n, n), p * p + r * p * (1 - p))
            np.fill_diagonal(C, p)
        else:
            C = corr((data(c, n, 50) + 1) // 2)
        C = np.triu(C)
        k = c.rng.randint(1, n + 1)
        cluster = [int(v) for v in c.rng.permutation(n)[:k]]
        lam, num = (0., None) if it % 3 == 0 else (c.rng.rand() * 3, 100)
        want, Jw = mean_field(C, cluster, lam / num if num else 0.)
        arg = C if it % 2 else C + np.triu(C, 1).T
        keep = arg.copy()
        got, J = MF.SmeanField(cluster, arg, lam, num)
        a = dict(C=arg, cluster=cluster, prior=lam)
        c.close(got, want, 'entropy', 1e-6, **a)
        c.close(J, Jw, 'couplings', 1e-6, **a)
        c.same(J, J.T, 'symmetric', **a)
        c.same(arg, keep, 'the matrix is left as it was')
        if num is None:
            e2, J2 = MF.SmeanField(cluster, arg, 0., None, useRegularizedEq=False)
            c.close(J2, Jw, 'couplings by the inverse', 1e-6, **a)
        if k == n:
            c.close(MF.JmeanField(arg, meanFieldPriorLmbda=lam, numSamples=num), mean_field(C, list(range(n)), lam / num if num else 0.)[1], 'couplings of all', 1e-6, **a)


def cluster_solver(X, n):
    return SV.ClusterExpansion(X, model=model(n), calc_observables=lambda x: orc.ising_obs_many(x).astype(float), iprint=False)


def full_entropy(C, cluster):
    """entropy and couplings that reproduce the correlations of a cluster (Newton's method on the exact distribution)"""
    k = len(cluster)
    U = np.triu(C) + np.triu(C, 1).T
    want = np.array([U[cluster[i], cluster[j]] for i, j in flat_positions(k)])
    s = zero_one(k)
    F = np.array([[x[i] * x[j] for i, j in flat_positions(k)] for x in s])
    th = np.zeros(F.shape[1])
    for _ in range(200):
        w = np.exp(-F.dot(th))
        p = w / w.sum()
        mu = p.dot(F)
        g = mu - want
        if abs(g).max() < 1e-13:
            break
        cov = (F * p[:, None]).T.dot(F) - np.outer(mu, mu)
        step = np.linalg.solve(cov, g)
        th = th + step * min(1., 1. / max(1e-300, abs(step).max()))
    J = np.zeros((len(C), len(C)))
    for v, (i, j) in zip(th, flat_positions(k)):
        a, b = cluster[i], cluster[j]
        if a == b:
            J[a, a] = v
        else:
            J[a, b] = J[b, a] = v / 2
    return -sum(q * math.log(q) for q in p), J


def independent(C, cluster):
    J = np.zeros((len(C), len(C)))
    e = 0.
    for a in cluster:
        f = C[a, a]
        J[a, a] = -math.log(f / (1 - f))
        e += -f * math.log(f) - (1 - f) * math.log(1 - f)
    return e, J


def delta(C, cluster, ref, cache):
    k = tuple(sorted(cluster))
    if k not in cache:
        e, J = full_entropy(C, list(k))
        e0, J0 = independent(C, k) if ref == 'independent' else mean_field(C, list(k), 0.)
        e, J = e - e0, J - J0
        for m in range(1, len(k)):
            for b in itertools.combinations(k, m):
                eb, Jb = delta(C, b, ref, cache)
                e, J = e - eb, J - Jb
        cache[k] = (e, J)
    return cache[k]


@case('clusters', timeout=600)
def clusters(c):
    c.bound = 'subsets of up to 6 members; entropies and contributions of clusters of up to 4 of 5 spins, in any order'
    sv = cluster_solver(data(c, 5, 5), 5)
    for it in range(c.pick(20, 60)):
        items = [int(v) for v in c.rng.permutation(20)[:c.rng.randint(0, 7)]]
        for size in range(0, len(items) + 2):
            keep = list(items)
            got = sv.subsets(items, size)
            want = list(itertools.combinations(sorted(items), size)) if size else None
            if want is not None and items:
                c.ok(sorted(tuple(sorted(g)) for g in got) == want, 'all subsets once', items=keep, size=size, got=got)
            c.ok(items == keep, 'the cluster is left as it was', items=keep, now=items)
    for it in range(c.pick(14, 50)):
        n = 5
        C = corr((data(c, n, 30) + 1) // 2)
        k = c.rng.randint(1, 5)
        cl = [int(v) for v in c.rng.permutation(n)[:k]]
        a = dict(C=C, cluster=cl)
        e, J = sv.S(list(cl), C)
        we, wJ = full_entropy(C, cl)
        c.close(e, we, 'entropy of a cluster', 1e-5, **a)
        c.close(J, wJ, 'couplings of a cluster', 1e-4, **a)
        if k < 3:
            e, J = sv.S(list(cl), C, useAnalyticResults=True)
            c.close(e, we, 'entropy of a cluster, analytic', 1e-6, **a)
            c.close(J, wJ, 'couplings of a cluster, analytic', 1e-6, **a)
        e, J = sv.Sindependent(list(cl), C)
        we, wJ = independent(C, cl)
        c.close(e, we, 'independent entropy', 1e-9, **a)
        c.close(J, wJ, 'independent fields', 1e-9, **a)
        for ref in ('independent', 'mean'):
            cache = {}
            kw = {'independentRef': True} if ref == 'independent' else {'meanFieldRef': True}
            D, DJ = {}, {}
            if it % 2 and k > 1:      # part of it is known already
                sv.deltaS(list(cl[:k - 1]), C, D, DJ, iprint=False, **kw)
            e, J = sv.deltaS(list(cl), C, D, DJ, iprint=False, **kw)
            we, wJ = delta(C, cl, ref, cache)
            c.close(e, we, 'contribution of a cluster to the entropy, ' + ref, 1e-4, **a)
            c.close(J, wJ, 'contribution of a cluster to the couplings, ' + ref, 1e-3, **a)
            subs = {b for m in range(1, k + 1) for b in itertools.combinations(sorted(cl), m)}
            c.ok(set(D) == set(DJ) == subs, 'the tables hold the subsets', **a)
            for b in subs:
                c.close(D[b], delta(C, b, ref, cache)[0], 'entry of the table', 1e-4, subset=b, **a)
                c.close(DJ[b], delta(C, b, ref, cache)[1], 'entry of the table of couplings', 1e-3, subset=b, **a)


def multipliers(J):
    n = len(J)
    off = [-2 * J[i, j] for i, j in orc.pairs(n)]
    h = [-J[i, i] / 2 + sum(-2 * J[min(i, j), max(i, j)] for j in range(n) if j != i) / 4 for i in range(n)]
    return np.array(h + [v / 4 for v in off])


@case('cluster expansion', timeout=600)
def expansion(c):
    c.bound = '2..4 spins; thresholds zero, small and large; both references'
    for it in range(c.pick(12, 40)):
        n = 2 + it % 3
        X = data(c, n, 20)
        sv = cluster_solver(X, n)
        C = corr((X + 1) // 2)
        ref = 'mean' if it % 4 == 3 else 'independent'
        thr = [0., 1e-3, .02, 10.][it // 3 % 4]
        kw = dict(meanFieldRef=True, independentRef=False) if ref == 'mean' else {}
        if it % 5 == 4:
            kw['cluster'] = [int(v) for v in c.rng.permutation(n)]
        cache = {}
        m, ent, cl, D, DJ = sv.solve(thr, iprint=False, full_output=True, **kw)
        kept = [tuple(sorted(g)) for v in cl.values() for g in v]
        a = dict(X=X, threshold=thr, ref=ref, kept=kept)
        c.ok(len(set(kept)) == len(kept), 'no cluster twice', **a)
        level = [(i,) for i in range(n)]
        want = list(level)
        clear = True
        while level:
            cand = {tuple(sorted(set(p) | set(q))) for p, q in itertools.combinations(level, 2) if len(set(p) & set(q)) == len(p) - 1}
            clear = clear and all(abs(abs(delta(C, k, ref, cache)[0]) - thr) > 1e-6 for k in cand)
            level = sorted(k for k in cand if abs(delta(C, k, ref, cache)[0]) > thr)
            want += level
        if clear:
            c.ok(sorted(kept) == sorted(want), 'the clusters above the threshold', want=want, **a)
        e0, J0 = independent(C, range(n)) if ref == 'independent' else mean_field(C, list(range(n)), 0.)
        e = e0 + sum(delta(C, k, ref, cache)[0] for k in kept)
        J = J0 + sum(delta(C, k, ref, cache)[1] for k in kept)
        c.close(ent, e, 'entropy', 1e-3, **a)
        c.close(m, multipliers(J), 'reference plus the contributions kept', 1e-3, **a)
        c.same(m, sv.multipliers, 'stored')
        if thr == 0. and len(kept) == 2 ** n - 1:
            s = orc.states(n, (-1, 1))
            p, _ = orc.boltzmann(s, m, orc.ising_obs)
            c.close(p.dot(orc.ising_obs_many(s)), orc.ising_obs_many(X).mean(0), 'all the clusters: the exact solution', 1e-3, **a)


@case('regularized mean field', timeout=600)
def regularized(c):
    c.bound = '3 and 4 spins; the minimiser watched'
    for it in range(c.pick(5, 16)):
        n = 3 + it % 2
        X = data(c, n, 60)
        C = corr((X + 1) // 2)
        sv = SV.RegularizedMeanField(X, model=Ising(np.zeros(n + n * (n - 1) // 2)), calc_observables=lambda x: orc.ising_obs_many(x).astype(float), iprint=False, sample_size=50)
        f = np.diag(C)
        pm = f.mean()
        seen = []
        keep = SV.minimize_scalar
        best = abs(c.rng.normal())

        def watch(fun, **kw):
            for g in (best / 2, best, best / 2):
                seen.append((g, fun(g), sv.model.multipliers.copy(), sv.model.sample.copy()))
            return {'x': best}
        SV.minimize_scalar = watch
        try:
            kw = {}
            if it % 2:
                kw = dict(reset_rng=True)
            got = sv.solve(**kw)
        finally:
            SV.minimize_scalar = keep
        for g, v, m, S in seen:
            J = mean_field(C, list(range(n)), g / (pm ** 2 * (1 - pm) ** 2) / len(X))[1]
            c.close(m, multipliers(J), 'the model sampled is the mean field', 1e-6, X=X, g=g)
            d = corr((S + 1) // 2) - C
            sd = [((C[p] * len(X) + 1) / (len(X) + 2)) for p in flat_positions(n)]
            want = sum(d[p] ** 2 / (q * (1 - q) / len(X)) for p, q in zip(flat_positions(n), sd))
            c.close(v, want, 'sum of squared scaled residuals', 1e-8 * max(1, want), X=X, g=g)
        c.close(seen[0][1], seen[2][1], 'the same value at the same strength', 1e-12, X=X)
        J = mean_field(C, list(range(n)), best / (pm ** 2 * (1 - pm) ** 2) / len(X))[1]
        c.close(got, multipliers(J), 'the mean field of the best strength', 1e-6, X=X)
    for it in range(c.pick(40, 200)):
        m = c.rng.randint(3, 9)
        x = np.sort(c.rng.normal(size=m))
        y = list(c.rng.permutation(m).astype(float))
        k = int(np.argmin(y))
        if 0 < k < m - 1:
            a, b, d = sv.bracket1d(x, y)
            lo, hi = min(range(k), key=lambda q: y[q]), min(range(k + 1, m), key=lambda q: y[q])
            c.same(np.array([a, b, d]), np.array([x[lo], x[k], x[hi]]), 'bracket of the minimum', x=x, y=y)
        else:
            c.raises(lambda: sv.bracket1d(x, y), 'no bracket at an end', x=x, y=y)

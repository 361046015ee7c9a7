import itertools
import warnings
import numpy as np
from rt import case
import orc
from coniii import samplers as S
warnings.simplefilter('ignore')


def full(J, n):
    M = np.zeros((n, n))
    for k, (i, j) in enumerate(orc.pairs(n)):
        M[i, j] = M[j, i] = J[k]
    return M


class Rand:
    """Draws of the test (anything that is not a uniform or an integer draw fails)."""

    def __init__(self, u, seed):
        self.u, self.g = u, np.random.RandomState(seed)

    def rand(self, *shape):
        return self.u if not shape else np.full(shape, self.u)

    random_sample = random = lambda self, size=None: self.u if size is None else np.full(size, self.u)

    def uniform(self, lo=0., hi=1., size=None):
        return (lo + (hi - lo) * self.u) if size is None else np.full(size, lo + (hi - lo) * self.u)

    def randint(self, *a, **k):
        return self.g.randint(*a, **k)

    def choice(self, *a, **k):
        return self.g.choice(*a, **k)


def component(start, joined):
    seen, todo = {start}, [start]
    while todo:
        i = todo.pop()
        for j in np.nonzero(joined[i])[0]:
            if j not in seen:
                seen.add(int(j))
                todo.append(int(j))
    return seen


@case('joining')
def joining(c):
    c.bound = '1..8 sites, random marks, weights and draws (also ties)'
    for it in range(c.pick(200, 1000)):
        n = c.rng.randint(1, 9)
        ix = c.rng.rand(n) < c.rng.rand()
        w, r = np.round(c.rng.rand(n) * 2, 2 if it % 2 else 1), np.round(c.rng.rand(n), 2 if it % 2 else 1)
        keep = [x.copy() for x in (ix, w, r)]
        out = S.iterate_neighbors(n, ix, w, r)
        c.same(np.asarray(out), np.array([i for i in range(n) if not ix[i] and r[i] < 1 - w[i]], dtype=int), 'unmarked sites whose own draw is below 1 - weight, in order', n=n, ix=ix, w=w, r=r)
        for a, b in zip((ix, w, r), keep):
            c.same(a, b, 'inputs are left as they were', n=n)


@case('one step')
def step(c):
    c.bound = '2..7 sites, all states or 40 of them, all draws equal to a threshold (sites reached do not depend on their order), fields of both signs'
    for it in range(c.pick(25, 120)):
        n = c.rng.randint(2, 8)
        J, h = c.rng.normal(size=n * (n - 1) // 2) * c.rng.choice([.3, 1., 4.]), c.rng.normal(size=n) * c.rng.choice([0., .2, 1.])
        J[c.rng.rand(len(J)) < .3] = 0
        M = full(J, n)
        w = S.WolffIsing(J, h)
        for s in itertools.product((-1., 1.), repeat=n) if n < 5 else c.rng.choice([-1., 1.], size=(40, n)):
            s = np.array(s)
            u = float(c.rng.rand())
            w.rng = Rand(u, c.rng.randint(1000))
            first = c.rng.randint(n)
            new = s.copy()
            given = bool(first) or c.rng.rand() < .5
            w.one_step(new, initialsite=int(first) if given else None)
            joined = u < 1 - np.exp(-2 * s[:, None] * M * s[None, :])
            a = dict(J=J, h=h, s=s, u=u, first=first)
            options = [component(first, joined)] if given else [component(i, joined) for i in range(n)]
            want = []
            for o in options:
                o = sorted(o)
                t = s.copy()
                if u < np.exp(-2 * h[o].dot(s[o])):
                    t[o] *= -1
                want.append(t)
            c.ok(any(np.array_equal(new, t) for t in want), 'turns exactly the cluster of its start, exactly when accepted', got=new, want=want, **a)


@case('parameters')
def parameters(c):
    c.bound = '2..8 sites, vectors and matrices'
    for n in range(2, 9):
        J, h = c.rng.normal(size=n * (n - 1) // 2), c.rng.normal(size=n)
        w = S.WolffIsing(J, h)
        c.close(w.J, full(J, n), 'couplings at the positions of their pairs', n=n)
        c.close(w.h, h, 'fields', n=n)
        c.ok(w.n == n, 'size')
        J2, h2 = c.rng.normal(size=n * (n - 1) // 2), c.rng.normal(size=n)
        w.update_parameters(J2, h2)
        c.close(w.J, full(J2, n), 'updated couplings', n=n)
        c.close(w.h, h2, 'updated fields', n=n)
        w.update_parameters(full(J, n), h)
        c.close(w.J, full(J, n), 'couplings as a matrix', n=n)
        c.raises(lambda: S.WolffIsing(np.append(J, 1.), h), 'numbers that do not belong together', n=n)


@case('runs')
def runs(c):
    c.bound = '2..6 sites, up to 5 samples and 8 steps'
    for it in range(c.pick(20, 60)):
        n = c.rng.randint(2, 7)
        J, h = c.rng.normal(size=n * (n - 1) // 2), c.rng.normal(size=n)
        R, k = c.rng.randint(1, 6), c.rng.randint(0, 9)
        w = S.WolffIsing(J, h)
        w.rng = np.random.RandomState(it)
        start = c.rng.choice([-1., 1.], size=(R, n))
        a = dict(n=n, R=R, n_iters=k, start=start)
        out, hist = w.generate_sample(R, k, initialSample=start.copy(), save_history=True)
        c.ok(np.shape(out) == (R, n) and np.shape(hist) == (R, n, k + 1), 'shapes', got=(np.shape(out), np.shape(hist)), **a)
        c.same(hist[:, :, 0], start, 'starts at the states given', **a)
        c.same(hist[:, :, -1], out, 'ends with the states returned', **a)
        c.ok(set(np.unique(hist)) <= {-1., 1.}, 'spins', **a)
        # satisfied bonds decide what can turn together
        M = full(J, n)
        for r in range(R):
            for t in range(k):
                x, y = hist[r, :, t], hist[r, :, t + 1]
                turned = np.nonzero(x != y)[0]
                if len(turned):
                    ok = (M * np.outer(x, x) > 0)
                    ok[:, x == y] = False
                    c.ok(component(int(turned[0]), ok) >= set(turned.tolist()), 'only clusters of satisfied bonds turn', x=x, y=y, J=J)
        c.same(w.generate_sample(R, 0, initialSample=start.copy()), start, 'no steps', **a)
        for what, got in (('sequential', w.generate_sample(R, k)), ('one chain', w._generate_sample(R, k + 1))) + ((('parallel', w.generate_sample_parallel(R, k)),) if it < 3 else ()):
            c.ok(np.shape(got) == (R, n) and set(np.unique(got)) <= {-1., 1.}, 'as many states of spins as asked for, ' + what, got=got, **a)
        if it < 1:
            free = S.WolffIsing(np.zeros(40 * 39 // 2), np.full(40, .35))
            got = np.asarray(free.generate_sample_parallel(48, 40, initialSample=np.ones((48, 40))))
            c.ok(len(np.unique(got, axis=0)) == 48, 'parallel chains draw from streams of their own: 48 chains of 40 free spins do not coincide', distinct=len(np.unique(got, axis=0)))
        if it < 2:
            big = S.WolffIsing(np.zeros(len(J)), np.full(n, 30.))
            got = big.generate_sample_parallel(R, 6 * n + 20, initialSample=np.full((R, n), -1.))
            c.ok(np.shape(got) == (R, n) and (np.asarray(got) == 1).mean() > .5, 'parallel runs take their steps', got=got, n=n)


@case('stationary distribution')
def stationary(c):
    c.bound = '3 sites, 3 models, 6 standard errors'
    n = 3
    X = np.array(orc.states(n, (-1, 1)))
    for it in range(3):
        J, h = c.rng.normal(size=3) * .7, c.rng.normal(size=3) * .5
        w = S.WolffIsing(J, h)
        w.rng = np.random.RandomState(10 + it)
        R = c.pick(1500, 20000)
        out = w.generate_sample(R, 25)
        e = X.dot(h) + np.einsum('ri,ij,rj->r', X, full(J, n), X) / 2
        p = np.exp(e) / np.exp(e).sum()
        q = np.array([(out == x).all(1).mean() for x in X])
        c.ok(np.all(np.abs(p - q) < 6 * np.sqrt(p * (1 - p) / R) + 2e-3), 'samples follow exp(h.s + s.J.s)', got=q, want=p, J=J, h=h)


@case('bonds and clusters')
def clusters(c):
    c.bound = 'all graphs of up to 4 sites (5 in the thorough tier); 2..7 spins'
    for n in range(1, c.pick(5, 6)):
        ps = list(itertools.combinations(range(n), 2))
        for mask in range(2 ** len(ps)):
            adj = np.zeros((n, n))
            for q, (i, j) in enumerate(ps):
                if mask >> q & 1:
                    adj[i, j] = adj[j, i] = 1
            keep = adj.copy()
            want = sorted({tuple(sorted(component(i, adj))) for i in range(n)})
            got = S.iter_cluster(adj)
            c.ok(sorted(tuple(sorted(g)) for g in got) == want and sum(map(len, got)) == n, 'the connected components, every site once', got=got, want=want, adj=adj)
            c.same(adj, keep, 'the graph is left as it was')
    for it in range(c.pick(30, 100)):
        n = c.rng.randint(2, 8)
        s = c.rng.choice([-1, 1], size=n)
        m = n * (n - 1) // 2
        J, p, r = c.rng.normal(size=m), c.rng.rand(m), c.rng.rand(m)
        J[c.rng.rand(m) < .2] = 0
        c.same(S.pairwise_prod(s), np.array([s[i] * s[j] for i, j in orc.pairs(n)], dtype=float), 'products of pairs', s=s)
        c.same(S.sample_bonds(p, r, s, J), np.array([float(J[k] * s[i] * s[j] > 0 and r[k] < p[k]) for k, (i, j) in enumerate(orc.pairs(n))]), 'bonds of satisfied couplings', s=s, J=J, p=p, r=r)


@case('vector spins')
def vectors(c):
    c.bound = '1..6 spins'
    for it in range(c.pick(40, 200)):
        n = c.rng.randint(1, 7)
        th = c.rng.normal(size=n * (n - 1) // 2)
        x = c.rng.uniform(-4, 7, size=2 * n)

        def vec(y):
            t, f = y[::2], y[1::2]
            return np.array([np.sin(t) * np.cos(f), np.sin(t) * np.sin(f), np.cos(t)]).T

        def energy(y):
            v = vec(y)
            return -sum(th[k] * v[i].dot(v[j]) for k, (i, j) in enumerate(orc.pairs(n)))
        keep = x.copy()
        c.close(S.calc_e(th, x), energy(x), 'minus couplings times dot products', theta=th, x=x)
        v = vec(x)
        c.close(S.grad_e_theta(th, x), np.array([-v[i].dot(v[j]) for i, j in orc.pairs(n)]), 'derivatives with respect to the couplings', theta=th, x=x)
        g = []
        for q in range(2 * n):      # the energy is a sine wave in every angle: derivative from a quarter turn
            a, b = x.copy(), x.copy()
            a[q] += np.pi / 2
            b[q] -= np.pi / 2
            g.append((energy(a) - energy(b)) / 2)
        c.close(S.grad_e(th, x), np.array(g), 'derivatives with respect to the angles', theta=th, x=x)
        c.same(x, keep, 'angles are left as they were')


@case('energies and log-probabilities')
def elogp(c):
    c.bound = '2..5 spins, up to 30 rows'
    for it in range(c.pick(30, 100)):
        n, R = c.rng.randint(2, 6), c.rng.randint(1, 31)
        X = c.rng.choice([-1, 1], size=(R, n))
        h = c.rng.normal(size=n)
        states, e, logp = S.check_e_logp(X, lambda Y: -Y.dot(h))
        a = dict(X=X)
        c.ok(len(np.unique(states, axis=0)) == len(states) == len(np.unique(X, axis=0)), 'every distinct state once', got=states, **a)
        c.close(e, -states.dot(h), 'its energy', **a)
        c.close(np.exp(logp), np.array([(X == s).all(1).mean() for s in states]), 'its frequency', **a)

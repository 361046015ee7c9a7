import copy
import itertools
import warnings
import io
import contextlib
import numpy as np
from rt import case
import orc
from rngs import FixedRng
from coniii import samplers as S
warnings.simplefilter('ignore')


def en(X, theta):
    X = np.asarray(X)
    n = X.shape[1]
    I, J = np.triu_indices(n, 1)
    return -(X.dot(theta[:n]) + (X[:, I] * X[:, J]).dot(theta[n:]))


def theta_for(c, n, scale=.6):
    return c.rng.normal(size=n + n * (n - 1) // 2) * scale


class Serial:
    """Stands in for the pool: results of f on deep copies."""
    def map(self, f, it):
        return [f(copy.deepcopy(x)) for x in it]

    def close(self):
        pass


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)


def bare(c, n, M, theta=None, beta=None, rng=None):
    """A ParallelTempering object without the (stochastic) set-up: its replicas hold random states."""
    pt = S.ParallelTempering.__new__(S.ParallelTempering)
    pt.n, pt.calc_e, pt.nReplicas, pt.sampleSize, pt.sample = n, en, M, 10, None
    pt.theta = theta_for(c, n) if theta is None else theta
    pt.replicaBurnin, pt.repExBurnin = 7, 5
    pt.rng = rng or np.random.RandomState(c.rng.randint(1 << 30))
    pt.beta = np.sort(c.rng.uniform(.2, 1.5, size=M)) if beta is None else beta
    pt.replicas = []
    for i, b in enumerate(pt.beta):
        r = S.Metropolis(n, pt.theta * b, en, boost=False, rng=np.random.RandomState(c.rng.randint(1 << 30)), iprint=False)
        r.index = i
        place(c, pt, r, b)
        pt.replicas.append(r)
    return pt


def place(c, pt, r, b):
    x = c.rng.choice([-1, 1], size=(1, pt.n))
    r.sample, r._samples, r.E = x, x.copy(), en(x, pt.theta * b)


def consistent(c_, pt_, what_, **kw):
    for j, r in enumerate(pt_.replicas):
        c_.close(r.theta, pt_.theta * pt_.beta[j], what_ + ': a replica samples with its inverse temperature times the model parameters', replica=j, beta=pt_.beta, theta=pt_.theta, **kw)
        c_.close(r.E, en(r.sample, pt_.theta * pt_.beta[j]), what_ + ': each configuration keeps its own energy', replica=j, beta=pt_.beta, theta=pt_.theta, state=r.sample, **kw)
        c_.same(r.sample, r._samples, what_ + ': the chain continues from the reported state', replica=j, **kw)


@case('construction')
def construct(c):
    for n, M, T in c.pick([(3, 2, (1., 3.)), (4, 3, (1., 2.)), (3, 4, (.5, 4.))], [(n, M, T) for n in (2, 3, 5) for M in (2, 3, 4, 6) for T in ((1., 3.), (.5, 2.), (2., 2.5))]):
        th = theta_for(c, n)
        try:
            pt = quiet(S.ParallelTempering, n, th, en, M, Tbds=T, replica_burnin=20, rep_ex_burnin=8, rng=np.random.RandomState(3))
        except AssertionError as e:
            c.ok(False, 'temperatures are in order', error=str(e), n=n, replicas=M, Tbds=list(T), theta=th)
        info = dict(n=n, Tbds=list(T), theta0=th)
        c.ok(len(pt.replicas) == M == len(pt.beta), 'number of replicas', **info)
        c.ok((np.diff(pt.beta) > 0).all(), 'temperatures are strictly ordered', beta=pt.beta, **info)
        c.close(pt.beta[-1], 1 / T[0], 'the lowest temperature is kept', beta=pt.beta, **info)
        c.same([r.index for r in pt.replicas], np.arange(M), 'indices', **info)
        consistent(c, pt, 'construction', **info)
        c.ok((pt.replicaBurnin, pt.repExBurnin) == (20, 8), 'iteration numbers', **info)
    r = np.random.RandomState(5)
    c.ok(quiet(S.ParallelTempering, 3, theta_for(c, 3), en, 2, replica_burnin=5, rep_ex_burnin=5, rng=r).rng is r, 'the generator given is used')
    c.ok(hasattr(quiet(S.ParallelTempering, 3, theta_for(c, 3), en, 2, replica_burnin=5, rep_ex_burnin=5).rng, 'rand'), 'a generator of its own otherwise')
    for bad in ((3., 1.), (1., 1.), (0., 1.), (-1., 1.)):
        c.raises(lambda: S.ParallelTempering(3, theta_for(c, 3), en, 2, Tbds=bad), 'temperature bounds in order and positive', Tbds=list(bad))
    c.raises(lambda: S.ParallelTempering(3, theta_for(c, 3), en, 1), 'at least two replicas')


@case('exchange rule')
def exchange(c):
    for n, M in c.pick([(2, 2), (3, 3), (4, 4)], [(n, M) for n in (2, 3, 5) for M in (2, 3, 4, 6)]):
        for rep in range(c.pick(25, 120)):
            base = bare(c, n, M)
            # acceptance thresholds of the pairs depend on the exchanges before them: try draws just below and above each
            us = {0., .5, 1 - 1e-12}
            for i in range(M - 1):
                for a, b in itertools.combinations(range(M), 2):
                    for x, y in ((a, b), (b, a)):
                        d = en(base.replicas[x].sample, base.theta)[0] - en(base.replicas[y].sample, base.theta)[0]
                        p = np.exp(d * (base.beta[i] - base.beta[i + 1]))
                        if p < 1:
                            us |= {p * (1 - 1e-7), min(p * (1 + 1e-7), 1 - 1e-12)}
            us = sorted(us)
            for u in (us if len(us) < 12 else [us[k] for k in c.rng.choice(len(us), 12, replace=False)]):
                pt = copy.copy(base)
                pt.replicas = [copy.copy(r) for r in base.replicas]
                pt.rng = FixedRng(u)
                asked = []
                pt.burn_in_replicas = lambda pool=None, close_pool=True, n_iters=None: asked.append(n_iters)
                pt.burn_and_exchange(Serial())
                own = list(range(M))
                for i in range(M - 1):
                    e = [en(base.replicas[k].sample, base.theta)[0] for k in (own[i], own[i + 1])]
                    if u < min(1, np.exp((e[0] - e[1]) * (base.beta[i] - base.beta[i + 1]))):
                        own[i], own[i + 1] = own[i + 1], own[i]
                info = dict(draw=u, beta=base.beta, theta=base.theta, states=[r.sample[0] for r in base.replicas], expected_owner=own)
                c.same([r.index for r in pt.replicas], own, 'exchanges happen exactly when the rule accepts', **info)
                for j in range(M):
                    c.same(pt.replicas[j].sample, base.replicas[own[j]].sample, 'whole configurations are exchanged', **info)
                    c.same(pt.replicas[j]._samples, base.replicas[own[j]]._samples, 'whole configurations are exchanged', **info)
                    c.close(pt.replicas[j].E, en(pt.replicas[j].sample, pt.theta * pt.beta[j]), 'each configuration keeps its own energy', **info)
                    c.close(pt.replicas[j].theta, pt.theta * pt.beta[j], 'temperatures stay in place', **info)
                c.same(asked, [5], 'replicas are sampled before the exchange', **info)


@case('acceptance ratios')
def ratios(c):
    for n, M in ((2, 2), (3, 4), (5, 3)):
        for rep in range(20):
            pt = bare(c, n, M)
            e = np.array([en(r.sample, pt.theta)[0] for r in pt.replicas])
            want = np.minimum(1, np.exp((e[:-1] - e[1:]) * (pt.beta[:-1] - pt.beta[1:])))
            c.close(pt._acceptance_ratio(1, 0), want, 'acceptance of all neighbours', beta=pt.beta, energies=e)
            for i in range(M - 1):
                c.close(pt._acceptance_ratio(1, 0, pairs=[(i, i + 1)]), want[i:i + 1], 'acceptance of one pair', beta=pt.beta, energies=e, pair=i)
    # estimates: the average over freshly sampled states
    for N, M in ((1, 2), (3, 3), (4, 2)):
        pt = bare(c, 3, M)
        seen = []

        def burn(pool=None, close_pool=True, n_iters=None):
            for j, r in enumerate(pt.replicas):
                place(c, pt, r, pt.beta[j])
            seen.append(([en(r.sample, pt.theta)[0] for r in pt.replicas], n_iters))
        pt.burn_in_replicas = burn
        got = pt._acceptance_ratio(N, 6)
        e = np.array([s[0] for s in seen])
        c.ok(len(seen) == N and all(s[1] == 6 for s in seen), 'one round of sampling per estimate', rounds=len(seen), wanted=N)
        want = np.minimum(1, np.exp((e[:, :-1] - e[:, 1:]) * (pt.beta[:-1] - pt.beta[1:]))).mean(0)
        c.close(got, want, 'average acceptance', energies=e, beta=pt.beta)


@case('temperature recursion')
def recursion(c):
    for rep in range(c.pick(200, 2000)):
        M = c.rng.randint(2, 9)
        b = np.cumsum(c.rng.uniform(.01, 1, size=M))
        a = c.rng.uniform(.01, 1, size=M - 1)
        if rep % 5 == 0:
            a[c.rng.randint(M - 1)] = 1.
        if rep % 7 == 0:
            a[:] = a[0]
        b0, a0 = b.copy(), a.copy()
        got = S.ParallelTempering.iterate_beta(b, a)
        want = np.zeros(M)
        want[-1] = b0[-1]
        for i in range(M - 1, 0, -1):
            want[i - 1] = want[i] - (b0[i] - b0[i - 1]) * a0[i - 1] / (a0.sum() / len(a0))
        c.close(got, want, 'the documented recursion', beta=b0, ratios=a0)
        c.ok(got[-1] == b0[-1], 'the lowest temperature does not change', beta=b0, ratios=a0)
        c.ok((np.diff(got) > 0).all(), 'the order is kept', beta=b0, ratios=a0)
        c.same(b, b0, 'arguments unchanged')
        c.same(a, a0, 'arguments unchanged')
        if rep % 7 == 0:
            c.close(got, b0, 'equal acceptance is a fixed point', beta=b0, ratios=a0)
    c.raises(lambda: S.ParallelTempering.iterate_beta(np.array([.1, .2, .3]), np.array([.5])), 'one ratio per pair')
    for M in (2, 3, 7):
        lo, hi = .2, 1.3
        c.close(S.ParallelTempering.initialize_beta(lo, hi, M), [lo + (hi - lo) * i / (M - 1) for i in range(M)], 'linear interpolation of the inverse temperatures')


@case('optimisation of temperatures')
def optimise(c):
    for M, rounds in ((2, 3), (3, 4), (4, 10)):
        pt = bare(c, 3, M)
        b = pt.beta.copy()
        log = []

        def acc(n_samples, n_iters, pairs=None):
            for j, r in enumerate(pt.replicas):
                c.close(r.theta, pt.theta * pt.beta[j], 'estimates are made at the current temperatures', round=len(log), beta=pt.beta)
            log.append((pt.beta.copy(), c.rng.uniform(.1, 1, size=M - 1)))
            return log[-1][1]
        pt._acceptance_ratio = acc
        quiet(pt.optimize_beta, 5, 6, tol=1e-12, max_iter=rounds)
        want = b
        for k, (used, a) in enumerate(log):
            c.close(used, want, 'temperatures of round %d' % k, start=b)
            want = S.ParallelTempering.iterate_beta(want, a)
        c.ok(len(log) == rounds if M > 2 else 1 <= len(log) <= rounds, 'number of rounds', got=len(log))
        c.close(pt.beta, want, 'final temperatures', start=b)
        for j, r in enumerate(pt.replicas):
            c.close(r.theta, pt.theta * pt.beta[j], 'a replica samples with its inverse temperature times the model parameters', beta=pt.beta)
    for M in (2, 4):
        pt = bare(c, 3, M)
        pt.theta = theta_for(c, 3)
        pt.beta = np.sort(c.rng.uniform(size=M))
        pt.update_replica_parameters()
        for j, r in enumerate(pt.replicas):
            c.close(r.theta, pt.theta * pt.beta[j], 'updating the parameters updates all replicas', beta=pt.beta, theta=pt.theta)


@case('running the replicas')
def burning(c):
    for n, M in ((3, 2), (4, 3)):
        for asked, want in ((None, 7), (4, 4), (11, 11)):
            pt = bare(c, n, M, beta=np.linspace(.6, 1., M))
            log = []
            for r in pt.replicas:
                def run(size, n_iters=None, _r=r, _orig=r.generate_sample, **kw):
                    log.append((_r.index, size, n_iters))
                    return _orig(size, n_iters=n_iters, **kw)
                r.generate_sample = run

            class Pool(Serial):
                def map(self, f, it):
                    return [f(x) for x in it]
            pt.burn_in_replicas(pool=Pool(), close_pool=True, n_iters=asked)
            c.same(sorted(l[0] for l in log), np.arange(M), 'every replica is run once', n=n, replicas=M)
            c.ok(all(l[1:] == (1, want) for l in log), 'the number of steps asked for', asked=asked, log=log)
            consistent(c, pt, 'after a run', n=n, replicas=M)


@case('sampling and history')
def sampling(c):
    for n, M, N in ((3, 2, 6), (4, 3, 5)):
        for hist in (False, True):
            pt = bare(c, n, M, beta=np.linspace(.6, 1., M))
            log = []
            orig = pt.burn_and_exchange

            def rec(pool):
                orig(pool)
                log.append(([r.sample[0].copy() for r in pt.replicas], [r.index for r in pt.replicas]))
                consistent(c, pt, 'round %d' % len(log), n=n, replicas=M)
            pt.burn_and_exchange = rec
            h = pt.generate_sample(N, save_exchange_trajectory=hist)
            c.ok(len(pt.sample) == M and all(s.shape == (N, n) for s in pt.sample), 'one sample set per replica', n=n, replicas=M)
            for t in range(N):
                for j in range(M):
                    c.same(pt.sample[j][t], log[t][0][j], 'sample %d of replica %d' % (t, j))
                if hist:
                    c.same(h[t], log[t][1], 'history')
                    c.same(sorted(h[t]), np.arange(M), 'every replica is somewhere exactly once')
            if not hist:
                c.ok(h is None, 'no history asked for')


@case('every replica samples its own distribution')
def stationary(c):
    n, M = 2, 3
    for rep in range(c.pick(1, 4)):
        th = theta_for(c, n, 1.)
        pt = bare(c, n, M, theta=th, beta=np.array([.3, .6, 1.]))
        pt.repExBurnin = 3
        N = c.pick(2500, 12000)
        cnt = np.zeros((M, 4))
        ser = Serial()
        ser.map = lambda f, it: [f(x) for x in it]
        for t in range(N):
            pt.burn_and_exchange(ser)
            for j in range(M):
                s = pt.replicas[j].sample[0]
                cnt[j, (s[0] + 1) + (s[1] + 1) // 2] += 1
        X = np.array([[-1, -1], [-1, 1], [1, -1], [1, 1]])
        for j in range(M):
            w = np.exp(-en(X, th * pt.beta[j]))
            w /= w.sum()
            d = np.abs(cnt[j] / N - w).max()
            c.ok(d < .5 / np.sqrt(N / 25.) + .01, 'frequencies follow the Boltzmann distribution of the replica', got=cnt[j] / N, want=w, replica=j, theta=th, beta=pt.beta)
    c.bound = 'n=2, 3 replicas'

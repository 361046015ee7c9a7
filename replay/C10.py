import itertools
import warnings
import numpy as np
from rt import case
import orc
from coniii import samplers as S
from coniii import utils as U
warnings.simplefilter('ignore')
SPIN, COL = (-1, 1), (0, 1, 2)


def fobs(cls):
    return (lambda s: orc.potts_obs(s, 3)) if cls == 'Potts3' else (lambda s: orc.ising_obs(s, 2))


def pyenergy(cls):
    """Energy of states in plain numpy (independent of the package)."""
    f = fobs(cls)
    return lambda X, theta: np.array([-np.dot(f(np.asarray(s)), theta) for s in X])


def theta_for(c, cls, n, scale=.7):
    return c.rng.normal(size=(3 if cls == 'Potts3' else 1) * n + n * (n - 1) // 2) * scale


def make(cls, n, th, rng=None, boost=False, calc_e=None):
    if cls == 'Potts3':
        return S.Potts3(n, th, calc_e=calc_e or pyenergy(cls), rng=rng, boost=boost, n_cpus=3)
    return S.Metropolis(n, th, calc_e=calc_e or pyenergy(cls), rng=rng, boost=boost, iprint=False)


def legal(cls):
    return COL if cls == 'Potts3' else SPIN


def start(c, cls, n, k=1):
    return c.rng.choice(legal(cls), size=(k, n))


def check(c_, cls_, X_, ss_, n_, **kw):
    c_.ok(isinstance(X_, np.ndarray) and X_.shape == (ss_, n_), 'number of samples', got_shape=list(np.shape(X_)), wanted=[ss_, n_], **kw)
    c_.ok(np.isin(X_, legal(cls_)).all(), 'legal spin values', X=X_, **kw)


@case('python sampler: counts, energies, start of the chain')
def seq(c):
    for cls in ('Metropolis', 'Potts3'):
        for n in (1, 2, 5):
            th = theta_for(c, cls, n)
            e = pyenergy(cls)
            for ss, it, burn, syst, hist in itertools.product((1, 3), (0, 1, 4), (None, 0, 3), (False, True), (False, True)):
                for given in (False, True):
                    s = make(cls, n, th.copy(), np.random.RandomState(c.rng.randint(1 << 30)))
                    init = start(c, cls, n)
                    kw = dict(n_iters=it, burn_in=burn, systematic_iter=syst, saveHistory=hist)
                    if given:
                        kw['initial_sample'] = init.copy()
                    h = s.generate_sample_py(ss, **kw)
                    info = dict(cls=cls, n=n, theta=th, kw={k: repr(v) for k, v in kw.items()}, sample_size=ss)
                    check(c, cls, s.sample, ss, n, **info)
                    c.close(s.E, e(s.sample, th), 'energies of the reported states', **info)
                    if given:
                        c.same(kw['initial_sample'], init, 'initial sample unchanged', **info)
                    if hist:
                        c.ok(np.shape(h) == (ss * it,), 'one energy per step', got=list(np.shape(h)), **info)
                        if it:
                            c.close(np.asarray(h)[it - 1::it], s.E, 'the history passes through the energies of the samples', **info)
                    if given and it == 0 and (burn == 0 or burn is None):
                        c.same(s.sample, np.repeat(init, ss, 0), 'no steps: the samples are the initial state', **info)
                    if given and it == 0 and burn == 3 and not syst:
                        d = (s.sample[0] != init[0]).sum()
                        c.ok(d <= 3, 'at most one spin changes per step from the given start', d=int(d), **info)
                    if given and it == 1 and (burn == 0):
                        for a, b in zip(np.vstack([init, s.sample[:-1]]), s.sample):
                            c.ok((a != b).sum() <= 1, 'at most one spin changes per step', a=a, b=b, **info)


class Slow(np.random.RandomState):
    pass


@case('python sampler: which sites are stepped')
def sites(c):
    """With zero parameters every proposal is accepted, so the path of the chain is visible: systematic sweeps visit 0, 1, 2, ..."""
    for cls in ('Metropolis', 'Potts3'):
        n = 4
        th = np.zeros(theta_for(c, cls, n).size)
        s = make(cls, n, th, np.random.RandomState(3))
        init = start(c, cls, n)
        for burn in (0, 1, 2, 4):
            s.generate_sample_py(6, n_iters=1, burn_in=burn, initial_sample=init.copy(), systematic_iter=True, saveHistory=False)
            x = init[0].copy()
            want = init.copy()
            c.ok((s.sample[0] != init[0]).sum() <= burn + 1, 'steps before the first sample', burn=burn, sample=s.sample)
            if burn == 0:
                c.ok((s.sample[0] != init[0]).sum() == 1, 'one accepted step before the first sample', cls=cls, sample=s.sample, init=init)


@case('sequence of calls on one sampler: sizes, replicas kept between calls, new parameters')
def history(c):
    for cls in ('Metropolis', 'Potts3'):
        n = 3
        for calls in (['par', 'seq'], ['seq', 'par'], ['par', 'par'], ['seq', 'seq'], ['seq', 'upd', 'seq'], ['par', 'upd', 'par', 'seq']):
            th = theta_for(c, cls, n)
            s = make(cls, n, th.copy(), np.random.RandomState(c.rng.randint(1 << 30)))
            import multiprocess as mp
            for j, call in enumerate(calls):
                info = dict(cls=cls, calls=calls, position=j, theta=th)
                if call == 'upd':
                    th = theta_for(c, cls, n)
                    s.update_parameters(th.copy())
                    continue
                for ss in (mp.cpu_count(), 3) if call == 'seq' else (5,):
                    if call == 'seq':
                        s.generate_sample_py(ss, n_iters=2)
                        c.close(s.E, pyenergy(cls)(s.sample, th), 'energies of the reported states', **info)
                    else:
                        s.generate_sample_parallel_py(ss, n_iters=2)
                        c.close(np.ravel(np.asarray([np.ravel(x)[0] for x in s.E])), pyenergy(cls)(s._samples, th), 'energies of the replicas', **info)
                    check(c, cls, s.sample, ss, n, **info)


@case('parallel python sampler')
def par(c):
    import multiprocess as mp
    P = mp.cpu_count()
    for cls in ('Metropolis', 'Potts3'):
        n = 4
        th = theta_for(c, cls, n)
        for ss, it, burn, syst in c.pick([(1, 2, None, False), (P, 1, 0, True), (2 * P + 1, 0, 0, False)],
                                         list(itertools.product((1, P - 1, P, 2 * P + 1), (0, 1, 3), (None, 0, 2), (False, True)))):
            init = start(c, cls, n, P)
            s = make(cls, n, th.copy(), np.random.RandomState(c.rng.randint(1 << 30)))
            s.generate_sample_parallel_py(ss, n_iters=it, burn_in=burn, initial_sample=init.copy(), systematic_iter=syst)
            info = dict(cls=cls, n=n, theta=th, sample_size=ss, n_iters=it, burn_in=burn, systematic=syst, initial=init)
            check(c, cls, s.sample, ss, n, **info)
            c.ok(s._samples.shape == (P, n), 'one replica per processor', **info)
            c.close([np.ravel(x)[0] for x in s.E], pyenergy(cls)(s._samples, th), 'energies of the replicas', **info)
            if it == 0 and not burn:
                k = int(np.ceil(ss / P))
                c.same(s.sample, np.repeat(init, k, 0)[:ss], 'no steps: the samples are the initial states', **info)


@case('conditional sampling, python')
def condpy(c):
    for n in c.pick((2, 3, 4), (2, 3, 4, 5)):
        th = theta_for(c, 'Metropolis', n)
        e = pyenergy('Metropolis')
        for k in range(1, n):
            for ix in itertools.combinations(range(n), k):
                for syst in (False, True):
                    vals = c.rng.choice(SPIN, size=k)
                    fs = [(i, int(v)) for i, v in zip(ix, vals)]
                    ss = int(c.rng.choice([1, 2, 5]))
                    for init in (None, c.rng.choice(SPIN, size=(ss, n - k))):
                        it, burn = (int(x) for x in (c.rng.choice([0, 1, 3]), c.rng.choice([0, 2])))
                        s = make('Metropolis', n, th.copy(), np.random.RandomState(c.rng.randint(1 << 30)))
                        i0 = None if init is None else init.copy()
                        s.generate_cond_sample_py(ss, fs, burn_in=burn, n_iters=it, initial_sample=init, systematic_iter=syst)
                        info = dict(n=n, theta=th, fixed=fs, sample_size=ss, n_iters=it, burn_in=burn, systematic=syst, initial=i0)
                        check(c, 'Metropolis', s.sample, ss, n, **info)
                        c.ok((s.sample[:, list(ix)] == vals).all(), 'fixed spins keep their values', sample=s.sample, **info)
                        c.close(s.E, e(s.sample, th), 'energies of the reported states', **info)
                        if init is not None:
                            c.same(init, i0, 'initial sample unchanged', **info)
                            if it == 0 and burn == 0:
                                free = [i for i in range(n) if i not in ix]
                                c.same(s.sample[:, free], np.repeat(i0[:1], ss, 0), 'no steps: the samples are the initial state', **info)


@case('conditional sampling, compiled')
def condboost(c):
    for n in c.pick((2, 3, 4, 5), (2, 3, 4, 5, 6)):
        th = theta_for(c, 'Metropolis', n)
        e = pyenergy('Metropolis')
        for k in range(1, n):
            for ix in itertools.combinations(range(n), k):
                for syst in (False, True):
                    vals = c.rng.choice(SPIN, size=k)
                    fs = [(i, int(v)) for i, v in zip(ix, vals)]
                    ss = int(c.rng.choice([1, 2, 7]))
                    par = c.rng.rand() < (.1 if not c.deep else .3)
                    s = make('Metropolis', n, th.copy(), np.random.RandomState(c.rng.randint(1 << 30)), boost=True)
                    s.generate_cond_sample_boost(ss, fs, burn_in=3, n_iters=5, systematic_iter=syst, parallel=par)
                    info = dict(n=n, theta=th, fixed=fs, sample_size=ss, systematic=syst, parallel=par)
                    check(c, 'Metropolis', s.sample, ss, n, **info)
                    c.ok((s.sample[:, list(ix)] == vals).all(), 'fixed spins keep their values', sample=s.sample, **info)
    # the distribution is the conditional one (bounded statistics with a strict threshold)
    n, th = 3, theta_for(c, 'Metropolis', 3, 1.)
    for ix in range(3):
        for v in SPIN:
            s = make('Metropolis', n, th.copy(), np.random.RandomState(5 + ix), boost=True)
            N = 40000
            s.generate_cond_sample_boost(N, [(ix, v)], burn_in=100, n_iters=8, parallel=False)
            st = np.array([x for x in itertools.product(SPIN, repeat=3) if x[ix] == v])
            p = np.exp(-e_of(st, th))
            p /= p.sum()
            f = np.array([(s.sample == x).all(1).mean() for x in st])
            c.ok((np.abs(f - p) < 6.5 * np.sqrt(p * (1 - p) / N * 3) + 1e-3).all(), 'conditional probabilities', theta=th, fixed=[ix, v], freq=f, want=p)


def e_of(X, th):
    return pyenergy('Metropolis')(X, th)


@case('conditional sampling, compiled: given initial sample')
def condinit(c):
    n = 4
    s = make('Metropolis', n, np.zeros(10), np.random.RandomState(1), boost=True)
    init = np.array([[1, -1, 1]])
    got = []
    for seed in range(6):
        s.rng = np.random.RandomState(seed)
        s.generate_cond_sample_boost(1, [(1, 1)], burn_in=0, n_iters=0, initial_sample=init, parallel=False)
        got.append(s.sample[0, [0, 2, 3]])
    c.finding('cond-boost-initial-sample', (np.array(got) == init).all(), 'generate_cond_sample_boost ignores initial_sample', got=np.array(got), want=init)


@case('compiled sampler: parameters in any form, sizes, legal values')
def boost(c):
    for cls in ('Metropolis', 'Potts3'):
        n = 4
        th = theta_for(c, cls, n, 1.5)
        ith = np.round(th * 2).astype(int)
        big = np.zeros((th.size, 3))
        big[:, 1] = th
        forms = [('float64', th, th), ('strided', big[:, 1], th), ('reversed', th[::-1].copy()[::-1], th), ('float32', th.astype(np.float32), th.astype(np.float32)),
                 ('int64', ith, ith), ('int32', ith.astype(np.int32), ith), ('big endian', th.astype('>f8'), th)]
        for syst in (False, True):
            ref = None
            for nm, given, val in forms:
                x = given.copy() if given.flags.c_contiguous else given
                s = make(cls, n, given, np.random.RandomState(11), boost=True)
                s.generate_sample_boost(40, n_iters=7, systematic_iter=syst)
                r = make(cls, n, np.ascontiguousarray(val, dtype=float), np.random.RandomState(11), boost=True)
                r.generate_sample_boost(40, n_iters=7, systematic_iter=syst)
                check(c, cls, s.sample, 40, n, form=nm)
                c.same(s.sample, r.sample, 'the same sample as for the same values in a plain array', cls=cls, form=nm, theta=val, systematic=syst)
                # new parameters
                s.update_parameters(given * 0 + 1)
                r = make(cls, n, np.ones(th.size), np.random.RandomState(12), boost=True)
                s.rng = np.random.RandomState(12)
                r.rng = np.random.RandomState(12)
                s.generate_sample_boost(30, n_iters=5)
                r.generate_sample_boost(30, n_iters=5)
                c.same(s.sample, r.sample, 'new parameters are used for the next sample', cls=cls, form=nm)
        for ss in (1, 2, 9):
            for it, burn in ((0, 0), (1, 0), (0, 3), (3, None)):
                s = make(cls, n, th.copy(), np.random.RandomState(1), boost=True)
                s.generate_sample_boost(ss, n_iters=it, burn_in=burn)
                check(c, cls, s.sample, ss, n, cls=cls, n_iters=it, burn_in=burn)
                if it == 0:
                    c.ok((s.sample == s.sample[0]).all(), 'no steps between samples: all alike', cls=cls, sample=s.sample)
                if it == 1:
                    c.ok(((s.sample[1:] != s.sample[:-1]).sum(1) <= 1).all(), 'at most one spin changes per step', cls=cls, sample=s.sample)
        for ss in (4, 17):
            for it, burn in ((0, 0), (2, None)):
                s = make(cls, n, th.copy(), np.random.RandomState(1), boost=True)
                s.generate_sample_parallel_boost(ss, n_iters=it, burn_in=burn)
                check(c, cls, s.sample, ss, n, cls=cls, n_iters=it, burn_in=burn, parallel=True)


@case('compiled sampler: stationary distribution')
def stat(c):
    """Bounded statistics with a strict threshold: frequencies of all states of a small system against the Boltzmann distribution."""
    for cls in ('Metropolis', 'Potts3'):
        n = 3 if cls == 'Metropolis' else 2
        th = theta_for(c, cls, n, .8)
        st = np.array(list(itertools.product(legal(cls), repeat=n)))
        p = np.exp(-pyenergy(cls)(st, th))
        p /= p.sum()
        N = c.pick(30000, 200000)
        s = make(cls, n, th.copy(), np.random.RandomState(17), boost=True)
        for meth in (s.generate_sample_boost, s.generate_sample_parallel_boost):
            meth(N, n_iters=12)
            f = np.array([(s.sample == x).all(1).mean() for x in st])
            c.ok((np.abs(f - p) < 6.5 * np.sqrt(p * (1 - p) / N * 3) + 1e-3).all(), 'frequencies of the states', cls=cls, theta=th, freq=f, want=p, method=meth.__name__)


@case('the same seed gives the same sample')
def seeds(c):
    n = 4
    for cls in ('Metropolis', 'Potts3'):
        th = theta_for(c, cls, n)
        runs = [('seq py', lambda s: s.generate_sample_py(6, n_iters=3), False), ('par py', lambda s: s.generate_sample_parallel_py(6, n_iters=3), False),
                ('seq boost', lambda s: s.generate_sample_boost(6, n_iters=3), True), ('par boost', lambda s: s.generate_sample_parallel_boost(6, n_iters=3), True)]
        if cls == 'Metropolis':
            runs += [('cond py', lambda s: s.generate_cond_sample_py(6, [(1, 1)], burn_in=2, n_iters=3), False),
                     ('cond boost', lambda s: s.generate_cond_sample_boost(6, [(1, 1)], burn_in=2, n_iters=3, parallel=False), True),
                     ('cond par boost', lambda s: s.generate_cond_sample_boost(6, [(1, 1)], burn_in=2, n_iters=3, parallel=True), True)]
        for nm, run, boost in runs:
            got = []
            for k in range(2):
                np.random.seed(100 + k)
                s = make(cls, n, th.copy(), np.random.RandomState(9), boost=boost)
                run(s)
                a = s.sample
                run(s)
                got.append(np.vstack([a, s.sample]))
            c.same(got[0], got[1], 'two runs with the same seed', cls=cls, run=nm)
            other = make(cls, n, th.copy(), np.random.RandomState(10), boost=boost)
            run(other)
            a = other.sample
            run(other)
            c.ok(not np.array_equal(np.vstack([a, other.sample]), got[0]), 'another seed gives another sample', cls=cls, run=nm)
    a = S.sample_ising(np.arange(6) / 6., 5, seed=3, generate_sample_kw=dict(n_iters=4))
    b = S.sample_ising(np.arange(6) / 6., 5, seed=3, generate_sample_kw=dict(n_iters=4))
    c.same(a, b, 'sample_ising with the same seed')
    a = S.sample_ising([np.arange(3) / 6., np.arange(3, 6) / 6.], 5, seed=3, parallel=False, generate_sample_kw=dict(n_iters=4))
    b = S.sample_ising(np.arange(6) / 6., 5, seed=3, parallel=False, generate_sample_kw=dict(n_iters=4))
    c.same(a, b, 'sample_ising with the same parameters in two forms')
    c.ok(a.shape == (5, 3) and np.isin(a, SPIN).all(), 'sample_ising shape and values')


@case('models: sampling through a model')
def models(c):
    import multiprocess as mp
    from coniii import models as M
    n = 4
    for cls, val in ((M.Ising, SPIN), (M.Potts3, COL)):
        th = c.rng.normal(size=(3 if cls is M.Potts3 else 1) * n + n * (n - 1) // 2)
        m = cls(th.copy(), rng=np.random.RandomState(2))
        P = mp.cpu_count() + 3
        m.setup_sampler(sample_size=P)
        for par in (False, True):
            if par and P < 6:
                continue
            for mult in (None, th * 0):
                for ss in (None, P + 4):
                    outs = []
                    for k in range(2):
                        m.set_rng(np.random.RandomState(4))
                        m.generate_sample(3, 2, parallel=par, multipliers=mult, sample_size=ss)
                        outs.append(m.sample)
                        c.ok(m.sample.shape == (ss or P, n) and np.isin(m.sample, val).all(), 'shape and values', cls=cls.__name__, parallel=par, sample=m.sample)
                    c.same(outs[0], outs[1], 'the same generator gives the same sample', cls=cls.__name__, parallel=par)
        # the parameters in use are those of the call: strong fields
        big = np.zeros(th.size)
        big[:n] = 50.
        for par in (False, True):
            if par and P < 6:
                continue
            m.generate_sample(60, 60, parallel=par, multipliers=big, sample_size=P)
            c.ok((m.sample == (0 if cls is M.Potts3 else 1)).all(), 'parameters passed to the call are used', cls=cls.__name__, parallel=par, sample=m.sample)
            m.set_multipliers(-big)
            m.generate_sample(60, 60, parallel=par, sample_size=P)
            c.ok((m.sample != (0 if cls is M.Potts3 else 1)).all(), 'new parameters of the model are used', cls=cls.__name__, parallel=par, sample=m.sample)


@case('cluster sampler: states stay legal')
def cluster(c):
    n = 4
    w = S.WolffIsing(np.abs(c.rng.normal(size=n * (n - 1) // 2)), np.zeros(n))
    w.rng = np.random.RandomState(3)
    for ss, it in ((1, 0), (3, 5)):
        X = w.generate_sample(ss, it)
        c.ok(X.shape == (ss, n) and np.isin(X, SPIN).all(), 'shape and legal values after cluster moves', X=X)
    J, h = np.round(c.rng.normal(size=3), 2), np.round(c.rng.normal(size=3) * .3, 2)
    st = np.array(list(itertools.product(SPIN, repeat=3)))
    p = np.exp(-e_of(st, np.concatenate([h, J])))
    p /= p.sum()
    N = c.pick(2500, 20000)
    s = S.WolffIsing(J, h)
    s.rng = np.random.RandomState(5)
    X = s.generate_sample(N, 10)
    f = np.array([(X == x).all(1).mean() for x in st])
    c.ok((np.abs(f - p) < 6.5 * np.sqrt(p * (1 - p) / N) + 1e-3).all(), 'frequencies of the states', J=J, h=h, freq=f, want=p)

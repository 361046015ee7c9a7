import contextlib
import io
import itertools
import warnings
import numpy as np
from rt import case
import orc
from coniii import solvers as SV
from coniii import utils as U
warnings.simplefilter('ignore')

HELP = {}


def helpers(kind, k=None):
    """the functions of one family (compiled once)"""
    key = (kind, k)
    if key not in HELP:
        HELP[key] = U.define_ising_helper_functions() if kind == 'ising' else \
            U.define_ising_helper_functions_sym() if kind == 'sym' else U.define_potts_helper_functions(k)
    return HELP[key]


def predicted(X, d, obs):
    """averages of the observables over the sample reweighted by exp(minus the energy change)"""
    O = np.array([obs(s) for s in X])
    e = O.dot(np.asarray(d, dtype=float))
    w = np.exp(e - e.max())
    return w.dot(O) / w.sum()


def learn(est, con, predict, maxd=1, maxn=1, steps=50, eta=1):
    D, E, dist, t = np.zeros(len(con)), np.array(est, dtype=float), 1., 0
    while True:
        D = D - (E - con) * min(dist, 1.) * eta
        E = predict(D)
        dist = np.sqrt(((E - con) ** 2).sum())
        t += 1
        if np.sqrt((D ** 2).sum()) > maxn or (abs(D) > maxd).any() or t > steps:
            return D, E, t


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)


@case('reweighted averages', timeout=300)
def reweight(c):
    runs = c.pick(40, 300)
    for kind, k in (('ising', None), ('sym', None), ('potts', 2), ('potts', 3), ('potts', 5)):
        f = helpers(kind, k)[-1]
        obs = orc.ising_obs if kind == 'ising' else orc.sym_obs if kind == 'sym' else (lambda s: orc.potts_obs(s, k))
        for run in range(runs):
            n, R = c.rng.randint(2, 7), int(c.rng.choice([1, 2, 3, 10, 60]))
            vals = range(k) if k else ([-1, 1] if run % 3 else [0, 1])
            dt = np.int64 if kind != 'potts' and run % 2 else (np.int8 if kind == 'potts' and run % 2 else np.int64)
            X = c.rng.choice(list(vals), size=(R, n)).astype(dt)
            if run % 5 == 0:
                X[:, 0] = list(vals)[-1]              # a constant spin: a large common offset
            m = len(obs(X[0]))
            scale = [0, 1e-3, .1, 1, 5, 60, 900][run % 7]
            d = c.rng.normal(size=m) * scale
            if run % 4 == 1:
                d[0] += c.rng.choice([-1, 1]) * 2000   # every state of a constant column shifts by the same energy
            X0, d0 = X.copy(), d.copy()
            try:
                got = f(X, d)
            except Exception as x:
                c.ok(False, '%s: prediction raised %r' % (kind, x), X=X, d=d)
                continue
            want = predicted(X0, d0, obs)
            c.close(got, want, 'predicted observables, %s' % kind, 1e-9, X=X0, d=d0)
            if scale == 0 and run % 4 != 1:
                c.close(got, np.mean([obs(s) for s in X0], axis=0), 'no change: the sample averages, %s' % kind, 1e-12, X=X0)
            c.same(X, X0, 'sample unchanged', kind=kind)
            c.same(d, d0, 'parameter change unchanged', kind=kind)
            # the same prediction when all the energies are moved
            if kind == 'ising':
                Y = np.hstack([np.ones((R, 1), dtype=dt), X])
                e = np.zeros(1 + n + (n + 1) * n // 2)
                e[1:1 + n] = d0[:n]
                pos = {p: 1 + n + i for i, p in enumerate(orc.pairs(n + 1))}
                for i, (a, b) in enumerate(orc.pairs(n)):
                    e[pos[(a + 1, b + 1)]] = d0[n + i]
                p0 = f(Y, e)
                e[0] = 750.
                c.close(f(Y, e), p0, 'prediction independent of the energy offset', 1e-9, X=Y, d=e)


def steps_cases(c, make, runs):
    for run in range(runs):
        n, R = int(c.rng.randint(2, 5)), int(c.rng.choice([5, 30, 100]))
        X = c.rng.choice([-1, 1], size=(R, n))
        m = n + n * (n - 1) // 2
        est = np.array([orc.ising_obs(s) for s in X]).mean(0)
        con = np.clip(est + c.rng.normal(size=m) * c.rng.choice([.01, .1, .5]), -1, 1)
        if run % 3 == 0:                # one parameter has to change, up or down
            con = est.copy()
            con[c.rng.randint(m)] += c.rng.choice([-1, 1]) * c.rng.choice([.1, .3])
        kw = dict(maxdlamda=float(c.rng.choice([.01, .1, .3, 1])), maxdlamdaNorm=float(c.rng.choice([.05, .3, 1, 5])),
                  maxLearningSteps=int(c.rng.choice([0, 1, 2, 5, 50])), eta=float(c.rng.choice([.1, .5, 1, 3])))
        only = run % 7                  # one limit alone
        if only in (0, 1):
            kw.update(maxdlamda=float(c.rng.choice([.01, .05])), maxdlamdaNorm=1e3, maxLearningSteps=20)
        if only == 2:
            kw.update(maxdlamda=1e3, maxdlamdaNorm=float(c.rng.choice([.02, .2])), maxLearningSteps=20)
        if only == 3:
            kw.update(maxdlamda=1e3, maxdlamdaNorm=1e3)
        make(n, X, est, con, kw, run)


@case('MCH learning steps', timeout=300)
def mch_steps(c):
    class M:
        pass
    f = helpers('ising')[-1]

    def make(n, X, est, con, kw, run):
        s = SV.MCH.__new__(SV.MCH)
        s.model = M()
        s.model.sample = X.copy()
        s.mch_approximation = f
        s.n = n
        p0 = c.rng.normal(size=len(con))
        s._multipliers = p0.copy()
        e0, c0 = est.copy(), con.copy()
        given = kw if run % 3 else {k: v for k, v in kw.items() if k == 'maxdlamda'}
        ret = s.learn_parameters_mch(est, con, **given)
        D, E, t = learn(e0, c0, lambda d: predicted(X, d, orc.ising_obs), given.get('maxdlamda', 1), given.get('maxdlamdaNorm', 1),
                        given.get('maxLearningSteps', 50), given.get('eta', 1))
        c.close(s._multipliers - p0, D, 'change of the parameters', 1e-8, X=X, est=e0, con=c0, kw=given)
        c.close(ret, E, 'returned prediction', 1e-8, X=X, est=e0, con=c0, kw=given)
        c.same(con, c0, 'constraints unchanged')
        c.same(est, e0, 'given observables unchanged')
        c.same(s.model.sample, X, 'sample unchanged')
    steps_cases(c, make, c.pick(60, 600))


@case('SparseMCH learning steps', timeout=300)
def sparse_steps(c):
    class M:
        pass
    f = helpers('ising')[-1]

    def make(n, X, est, con, kw, run):
        L = len(con)
        ix = np.sort(c.rng.permutation(L)[:c.rng.randint(1, L + 1)])
        s = SV.SparseMCH.__new__(SV.SparseMCH)
        s.model = M()
        s.model.sample = X.astype(np.int8)
        s.model.multipliers = np.zeros(L)
        s.mch_approximation = f
        s.n = n
        s.parameterIx = ix
        s.set_insertion_ix()
        p0 = np.zeros(L)
        p0[ix] = c.rng.normal(size=len(ix))
        s._multipliers = p0.copy()
        e0, c0 = est[ix].copy(), con[ix].copy()

        def full(d):
            z = np.zeros(L)
            z[ix] = d
            return z
        ret = s.learn_parameters_mch(e0.copy(), c0.copy(), **kw)
        D, E, t = learn(e0, c0, lambda d: predicted(X, full(d), orc.ising_obs)[ix], kw['maxdlamda'], kw['maxdlamdaNorm'],
                        kw['maxLearningSteps'], kw['eta'])
        c.close(s._multipliers - p0, full(D), 'change of the parameters', 1e-8, X=X, ix=ix, est=e0, con=c0, kw=kw)
        c.same(np.delete(s._multipliers, ix), np.zeros(L - len(ix)), 'the other parameters stay at the fill value', ix=ix)
        c.close(ret, E, 'returned prediction', 1e-8, X=X, ix=ix, est=e0, con=c0, kw=kw)
    steps_cases(c, make, c.pick(60, 600))


@case('MCHIncompleteData learning steps', timeout=300)
def incomplete_steps(c):
    f = helpers('ising')[-1]

    def make(n, X, est, con, kw, run):
        s = SV.MCHIncompleteData.__new__(SV.MCHIncompleteData)
        s.mch_approximation = f
        s.constraints = con.copy()
        s.samples = X.copy()
        s.n = n
        q = run % 3
        s.condSamples = [c.rng.choice([-1, 1], size=(12, n)) for _ in range(q)]
        counts = c.rng.randint(1, 9, size=q)
        ff = 1. if q == 0 else float(c.rng.choice([0, .3, .8]))
        p0 = c.rng.normal(size=len(con))
        s._multipliers = p0.copy()
        e0 = est.copy()
        ret = s.learn_parameters_mch(est, ff, [None] * q, counts, **kw)

        def pred(d):
            v = ff * predicted(X, d, orc.ising_obs) if ff else np.zeros(len(con))
            for z, w in zip(s.condSamples, counts):
                v = v + (1 - ff) * w / counts.sum() * predicted(z, d, orc.ising_obs)
            return v
        D, E, t = learn(e0, con, pred, kw['maxdlamda'], kw['maxdlamdaNorm'], kw['maxLearningSteps'], kw['eta'])
        c.close(s._multipliers - p0, D, 'change of the parameters', 1e-8, X=X, est=e0, con=con, kw=kw, ff=ff)
        c.close(ret, E, 'returned prediction', 1e-8, X=X, est=e0, con=con, kw=kw, ff=ff)
        c.same(est, e0, 'given observables unchanged')
    steps_cases(c, make, c.pick(40, 400))


class Model:
    """Stands in for the model: hands out the next sample and notes what it was asked for."""

    def __init__(self, rng, n, size, fixed=None):
        self.rng, self.n, self.sampleSize, self.calls, self.sample, self.fixed = rng, n, size, [], None, fixed
        self.multipliers = np.zeros(n + n * (n - 1) // 2)

    def setup_sampler(self, *a, **k):
        pass

    def generate_sample(self, n_iters, burn_in, multipliers=None, sample_size=None, sample_method=None, parallel=True, generate_kwargs={}):
        size = sample_size or self.sampleSize
        self.sample = (self.fixed if self.fixed is not None else self.rng.choice([-1, 1], size=(size, self.n))).copy()
        self.calls.append((np.array(self.multipliers if multipliers is None else multipliers, dtype=float).copy(), self.sample.copy(), n_iters, burn_in))


@case('solution histories', timeout=400)
def histories(c):
    obs = orc.ising_obs
    runs = c.pick(40, 400)
    for cls in (SV.MCH, SV.SparseMCH):
        for run in range(runs):
            sparse = cls is SV.SparseMCH
            n = int(c.rng.randint(2, 5))
            m = n + n * (n - 1) // 2
            data = c.rng.choice([-1, 1], size=(40, n))
            fixed = None
            if run % 4 == 0:
                fixed = data                              # the sample matches the data: solved at once
            mod = Model(c.rng, n, 37, fixed)
            kw = {}
            ix = np.arange(m)
            if sparse:
                ix = np.sort(c.rng.permutation(m)[:c.rng.randint(1, m + 1)])
                kw['parameter_ix'] = c.rng.permutation(ix)
            s = quiet(cls, data, model=mod, sample_size=1000, iprint=False, calc_observables=helpers('ising')[1],
                      mch_approximation=helpers('ising')[-1], **kw)
            mod.calls = []
            mod.sampleSize = 37
            given = None
            con = np.array([obs(z) for z in data]).mean(0)[ix]
            if run % 3 == 1:
                given = con + c.rng.normal(size=len(ix)) * .05
                con = given.copy()
            guess = None if run % 2 else c.rng.normal(size=len(ix)) * .3
            g0 = np.zeros(len(ix)) if guess is None else guess.copy()
            maxiter = int(c.rng.choice([0, 1, 3]))
            kws = [dict(maxdlamda=.3, eta=.7), dict(maxdlamda=.05, eta=.2, maxLearningSteps=3)]
            style = run % 5
            asked = []
            conv, sizes = None, lambda i: 37
            setting = lambda i: kws[0]
            opts = dict(learn_params_kwargs=kws[0])
            if style in (1, 2):
                setting = lambda i: kws[0] if i < 1 else kws[1]
                opts = dict(custom_convergence_f=lambda i: dict(setting(i)))
            if style == 2:
                sizes = lambda i: 20 + i
                opts = dict(custom_convergence_f=lambda i: (dict(setting(i)), 20 + i))
            tol, norm = (None, None) if run % 2 else (.4, 1.1)
            out = quiet(s.solve, initial_guess=guess, constraints=given, tol=tol, tolNorm=norm, n_iters=7, burn_in=11, maxiter=maxiter,
                        full_output=True, **opts)
            info = dict(solver=cls.__name__, data=data, ix=ix, guess=guess, maxiter=maxiter, run=run)
            c.ok(isinstance(out, tuple) and len(out) == 3, 'full output is parameters, flag and history', **info)
            par, flag, err = out
            t = len(err)
            c.ok(2 <= t <= maxiter + 2, 'number of iterations', t=t, **info)
            c.ok(len(mod.calls) >= t, 'one sample per entry of the history', **info)
            full = lambda p: np.bincount(ix, weights=p, minlength=m)
            p = g0
            for i in range(t):
                q, S, a, b = mod.calls[i]
                c.close(q, full(p), 'parameters the sample was generated with', 1e-7, i=i, **info)
                c.ok((a, b) == (7, 11), 'iterations and burn in passed on', **info)
                if i >= 1 or style != 2:
                    c.ok(len(S) == sizes(i - 1 if i else 0) or fixed is not None, 'size of the sample', i=i, size=len(S), **info)
                e = np.array([obs(z) for z in S]).mean(0)[ix]
                c.close(err[i], e - con, 'recorded error', 1e-9, i=i, **info)
                if i + 1 < t:
                    k = setting(i)
                    D, E, _ = learn(e, con, lambda d: predicted(S, full(d), obs)[ix], k['maxdlamda'], 1, k.get('maxLearningSteps', 50), k['eta'])
                    p = p + D
            c.close(par, p, 'returned parameters', 1e-7, **info)
            c.close(s.multipliers, full(p), 'parameters of the solver', 1e-7, **info)
            for q, S, a, b in mod.calls[t:]:
                c.close(q, full(p), 'the final sample is that of the solution', 1e-7, **info)
            # the size in force when the tolerances are set is the model's
            T = tol or 1 / np.sqrt(37)
            N = norm or np.sqrt(1 / 37) * m
            good = [np.sqrt((x ** 2).sum()) < N and (abs(x) < T).all() for x in err]
            c.ok(not any(good[1:-1]), 'it stops at the first solution', **info)
            c.ok(flag == (0 if good[-1] else 1), 'error flag', flag=flag, **info)
            if not good[-1]:
                c.ok(t - 1 >= maxiter, 'gives up only after the maximum number of iterations', **info)
            if guess is not None:
                c.same(guess, g0, 'initial guess unchanged', **info)
            if given is not None:
                c.same(given, con, 'constraints unchanged', **info)
            one = quiet(s.solve, initial_guess=guess, constraints=given, tol=50., tolNorm=50., n_iters=7, burn_in=11, maxiter=0)
            c.ok(isinstance(one, np.ndarray) and one.shape == (len(ix),), 'one vector without full output', **info)


@case('inserting the constrained parameters', timeout=200)
def insertion(c):
    class M:
        pass

    def check(L, ix):
        s = SV.SparseMCH.__new__(SV.SparseMCH)
        s.model = M()
        s.model.multipliers = np.zeros(L)
        s.parameterIx = np.array(ix)
        x = c.rng.normal(size=len(ix))
        for v in (0, 2.5):
            want = np.full(L, v, dtype=float)
            want[list(ix)] = x
            try:
                s.set_insertion_ix()
                got = s.fill_in(x) if v == 0 else s.fill_in(x, fill_value=v)
            except Exception as e:
                c.ok(False, 'filling in raised %r' % e, L=L, ix=ix)
                return
            c.same(got, want, 'filled in parameters', L=L, ix=list(ix), fill=v)
    for L in range(2, c.pick(7, 9)):
        for k in range(1, L + 1):
            for ix in itertools.combinations(range(L), k):
                check(L, ix)
    for _ in range(c.pick(100, 1000)):
        L = int(c.rng.randint(7, 60))
        check(L, np.sort(c.rng.permutation(L)[:c.rng.randint(1, L + 1)]))
    # as set up by the constructors, from positions in any order
    for run in range(c.pick(6, 30)):
        n = int(c.rng.randint(2, 5))
        m = n + n * (n - 1) // 2
        ix = c.rng.permutation(m)[:c.rng.randint(1, m + 1)]
        for cls in (SV.SparseMCH, SV.SparseEnumerate):
            kw = dict(mch_approximation=helpers('ising')[-1]) if cls is SV.SparseMCH else {}
            s = quiet(cls, c.rng.choice([-1, 1], size=(9, n)), model=Model(c.rng, n, 5), parameter_ix=ix, iprint=False,
                      calc_observables=helpers('ising')[1], **kw)
            x = np.arange(1., len(ix) + 1)
            want = np.zeros(m)
            want[np.sort(ix)] = x
            c.same(s.fill_in(x), want, 'filled in after construction', cls=cls.__name__, ix=ix)


@case('Jacobian estimate', timeout=200)
def jacobian(c):
    class M:
        pass
    for run in range(c.pick(6, 40)):
        n = int(c.rng.randint(2, 5))
        m = n + n * (n - 1) // 2
        s = SV.MCH.__new__(SV.MCH)
        s.model = M()
        s.model.sample = X = c.rng.choice([-1, 1], size=(50, n))
        s.mch_approximation = helpers('ising')[-1]
        s._multipliers = p0 = c.rng.normal(size=m)
        eps = float(c.rng.choice([1e-3, 1e-2, .3]))
        q0 = p0.copy()
        J = quiet(s.estimate_jac, eps=eps)
        for i in range(m):
            d = np.zeros(m)
            d[i] = eps
            want = (predicted(X, d, orc.ising_obs) - predicted(X, -d, orc.ising_obs)) / (2 * eps)
            c.close(J[i], want, 'Jacobian row', 1e-7, i=i, X=X, eps=eps)
        c.same(s._multipliers, q0, 'parameters unchanged')

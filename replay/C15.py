import itertools
import warnings
import numpy as np
from rt import case
import orc
from coniii import solvers as SV
from coniii import utils as U
from coniii.models import Ising
warnings.simplefilter('ignore')

H = {}


def model(n):
    if n not in H:
        H[n] = Ising(np.zeros(n + n * (n - 1) // 2))
    return H[n]


def exact(th, n):
    s = orc.states(n, (-1, 1))
    p, _ = orc.boltzmann(s, th, orc.ising_obs)
    return p.dot(orc.ising_obs_many(s))


def obs(X):
    return orc.ising_obs_many(X).astype(float)


def data(c, n, R):
    """a sample whose observables are well inside the possible ones"""
    s = orc.states(n, (-1, 1))
    return np.vstack((s, s[c.rng.randint(len(s), size=R)]))


@case('exact solutions')
def solutions(c):
    c.bound = '2..%d spins; constraints from a sample and given; both routines; with and without limit and guess' % c.pick(4, 6)
    for it in range(c.pick(32, 120)):
        n = 2 + it % c.pick(3, 5)
        m = n + n * (n - 1) // 2
        own, root, limit, guess = [bool(it >> b & 1) for b in range(4)]
        if own:
            X = data(c, n, 30)
            sv = SV.Enumerate(X, model=model(n), calc_observables=obs, iprint=False)
            want = orc.ising_obs_many(X).mean(0)
            con = None
        else:
            want = exact(c.rng.normal(size=m) * .6, n)
            con = want.copy()
            if it % 3 == 0:   # the given constraints take precedence over those of the sample
                sv = SV.Enumerate(data(c, n, 5), model=model(n), calc_observables=obs, iprint=False)
            else:
                sv = SV.Enumerate(n, model=model(n), calc_observables=obs, iprint=False)
        g = c.rng.normal(size=m) * .2
        gk = g.copy()
        kw = dict(use_root=root, max_param_value=50 if limit else None, full_output=True)
        if guess:
            kw['initial_guess'] = g
        if con is not None:
            kw['constraints'] = con
        if not root:
            kw['scipy_solver_kwargs'] = {'method': 'L-BFGS-B', 'options': {'maxiter': 5000}}
        info = dict(constraints=want, root=root, limit=limit, guess=g if guess else None, own=own, n=n)
        th, soln = sv.solve(**kw)
        c.ok(th.shape == (m,), 'one value per parameter', got=th, **info)
        if root:
            c.ok(bool(soln['success']), 'a solution is found', **info)
        c.close(exact(th, n), want, 'observables of the solution', 1e-6 if root else 3e-2, **info)
        c.same(sv.multipliers, th, 'the solver keeps the solution', **info)
        c.ok((con is None or np.array_equal(con, want)) and np.array_equal(g, gk), 'arguments unchanged', **info)


@case('partial constraints')
def partial(c):
    c.bound = '2..%d spins; %s index sets; constraints from a sample and given' % (c.pick(4, 5), 'random')
    for it in range(c.pick(36, 160)):
        n = 2 + it % c.pick(3, 4)
        m = n + n * (n - 1) // 2
        k = int(c.rng.randint(1, m + 1))
        ix = c.rng.permutation(m)[:k]
        if it % 4 == 0:
            ix = np.concatenate((ix, ix[:1]))
        srt = sorted(set(ix.tolist()))
        own, root, limit = [bool(it >> b & 1) for b in range(3)]
        sv = None
        args = dict(model=model(n), calc_observables=obs, parameter_ix=ix, iprint=False)
        if own:
            X = data(c, n, 30)
            sv = SV.SparseEnumerate(X, **args)
            want = orc.ising_obs_many(X).mean(0)[srt]
            kw = {}
        else:
            th0 = np.zeros(m)
            th0[srt] = c.rng.normal(size=k) * .6
            want = exact(th0, n)[srt]
            sv = SV.SparseEnumerate(n, **args)
            kw = dict(constraints=want.copy())
        if it % 5 == 0:
            kw['initial_guess'] = c.rng.normal(size=k) * .2
        if not root:
            kw['scipy_solver_kwargs'] = {'method': 'L-BFGS-B', 'options': {'maxiter': 5000}}
        info = dict(parameter_ix=ix, constraints=want, root=root, own=own, n=n)
        x, soln = sv.solve(use_root=root, max_param_value=50 if limit else None, full_output=True, **kw)
        c.ok(x.shape == (k,), 'one value per constrained parameter', got=x, **info)
        th = sv.fill_in(x)
        c.ok(th.shape == (m,), 'filled in', got=th, **info)
        c.same(th[srt], x, 'constrained parameters at their positions', **info)
        rest = [i for i in range(m) if i not in srt]
        c.same(th[rest], np.zeros(len(rest)), 'the others are zero', **info)
        c.close(exact(th, n)[srt], want, 'constrained observables of the solution', 1e-6 if root else 3e-2, **info)
        f = sv.fill_in(np.arange(k) + 5., fill_value=-3.5)
        e = np.zeros(m) - 3.5
        e[srt] = np.arange(k) + 5.
        c.same(f, e, 'another fill value', **info)


@case('all index sets')
def subsets(c):
    c.bound = 'every nonempty subset of the parameters of 2, 3%s spins' % (' and 4 (1023)' if c.deep else ' and 150 of 4')
    class Stub:
        pass
    for n in (2, 3, 4):
        m = n + n * (n - 1) // 2
        masks = range(1, 2 ** m)
        if n == 4 and not c.deep:
            masks = sorted(c.rng.choice(np.arange(1, 2 ** m), size=150, replace=False).tolist())
        for mask in masks:
            ix = np.array([i for i in range(m) if mask >> i & 1])
            sv = SV.SparseEnumerate(n, model=model(n), calc_observables=obs, parameter_ix=ix, iprint=False)
            x = c.rng.normal(size=len(ix))
            e = np.zeros(m)
            e[ix] = x
            c.same(sv.fill_in(x), e, 'values at their positions', parameter_ix=ix, x=x)


@case('limit on the parameters')
def limit(c):
    c.bound = 'objective looked at within and beyond the limit'
    for it in range(c.pick(16, 80)):
        n = 2 + it % 3
        m = n + n * (n - 1) // 2
        sparse, root = bool(it & 1), bool(it & 2)
        ix = np.sort(c.rng.permutation(m)[:int(c.rng.randint(1, m + 1))]) if sparse else np.arange(m)
        con = c.rng.normal(size=len(ix)) * .1
        lim = float(c.rng.randint(1, 30))
        seen = []

        def catch(f, x0, **kw):
            seen.append((f, np.array(x0)))
            return {'x': np.array(x0) + 1}
        old = SV.root, SV.minimize
        SV.root = SV.minimize = catch
        try:
            if sparse:
                sv = SV.SparseEnumerate(n, model=model(n), calc_observables=obs, parameter_ix=ix, iprint=False)
            else:
                sv = SV.Enumerate(n, model=model(n), calc_observables=obs, iprint=False)
            r = sv.solve(constraints=con, max_param_value=lim, use_root=root)
        finally:
            SV.root, SV.minimize = old
        f = seen[0][0]
        info = dict(n=n, parameter_ix=ix, constraints=con, limit=lim, root=root)
        c.same(r, np.ones(len(ix)), 'the solution is returned', **info)
        for q in range(c.pick(4, 10)):
            p = c.rng.uniform(-lim, lim, size=len(ix))
            if q == 1:
                p[c.rng.randint(len(ix))] = lim
            th = np.zeros(m)
            th[ix] = p
            d = exact(th, n)[ix] - con
            c.close(f(p), d if root else np.linalg.norm(d), 'distance from the constraints within the limit', 1e-7, params=p, **info)
            j = int(c.rng.randint(len(ix)))
            p[j] = c.rng.choice([-1, 1]) * lim * 1.001
            v = f(p)
            c.ok(np.all(np.asarray(v) > 1e20) and np.shape(v) == ((len(ix),) if root else ()), 'far from the constraints beyond the limit', got=v, params=p, **info)


@case('log-probability of states')
def logp(c):
    c.bound = '2..%d spins, model samples of up to 400 states, states with unspecified spins, repeated states' % c.pick(5, 8)
    for it in range(c.pick(60, 400)):
        n = int(c.rng.randint(2, c.pick(6, 9)))
        M = c.rng.choice([-1, 1], size=(int(c.rng.randint(1, 400)), n))
        X = c.rng.choice([-1, 0, 1], size=(int(c.rng.randint(1, 30)), n))
        if it % 3 == 0:
            X[c.rng.randint(len(X))] = 0
        if it % 4 == 0:
            X = np.vstack((X, X[::-1]))
        m = SV.Solver.__new__(SV.Enumerate)
        class Stub:
            pass
        m.model = Stub()
        m.model.sample = M
        m.sample = X
        want = []
        for s in X:
            k = 0
            for t in M:
                k += all(a == 0 or a == b for a, b in zip(s, t))
            want.append(k / len(M))
        with np.errstate(divide='ignore'):
            want = np.log(np.array(want))
            Xk, Mk = X.copy(), M.copy()
            info = dict(states=Xk, sample=Mk)
            c.close(m.logp(X), want, 'log of the fraction that agrees', 1e-12, **info)
            c.close(m.logp(), want, 'states of the solver', 1e-12, **info)
            c.close(m.logp(X[0]), want[:1], 'one state', 1e-12, **info)
            c.close(m.logp(X, run_checks=False), want, 'without checks', 1e-12, **info)
        c.ok(np.array_equal(X, Xk) and np.array_equal(M, Mk), 'states and sample unchanged', **info)
    c.raises(lambda: m.logp(X + 3), 'other values are rejected')


@case('setting up')
def setup(c):
    c.bound = 'sample, size or nothing; models and observables given or not'
    X = data(c, 3, 10)
    k = X.copy()
    a = SV.Enumerate(X, iprint=False)
    c.close(a.constraints, orc.ising_obs_many(X).mean(0), 'constraints of the sample', 1e-12, sample=X)
    c.ok(a.n == 3 and a.model.n == 3 and np.array_equal(a.model.multipliers, np.zeros(6)) and np.array_equal(X, k), 'default model', sample=X)
    b = SV.Enumerate(4, iprint=False)
    c.ok(b.n == 4 and b.sample is None and b.constraints is None and np.array_equal(b.model.multipliers, np.zeros(10)), 'size')
    r = np.random.RandomState(3)
    c.ok(SV.Enumerate(X, iprint=False, rng=r).model.rng is r and SV.Enumerate(4, iprint=False, rng=r).model.rng is r, 'settings of the default model reach it')
    d = SV.Enumerate(None, iprint=False)
    c.ok(d.n is None and d.sample is None and d.constraints is None and d.model is None, 'nothing')
    want = exact(np.arange(6) * .1, 3)
    c.close(exact(a.solve(constraints=want), 3), want, 'direct constraints with the default model', 1e-6)
    c.raises(lambda: b.solve(), 'no constraints')
    c.raises(lambda: SV.SparseEnumerate(3, iprint=False), 'no indices')
    c.raises(lambda: SV.Enumerate(1, iprint=False), 'one spin')

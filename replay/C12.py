import contextlib
import io
import itertools
import warnings
import numpy as np
from rt import case
import orc
from coniii import solvers as SV
from coniii import utils as U
from coniii.models import Ising, Potts3
warnings.simplefilter('ignore')


def idx(n, i, j):
    i, j = min(i, j), max(i, j)
    return orc.pairs(n).index((i, j))


def others(n, r):
    return [j for j in range(n) if j != r]


def cond(theta, X, r, obs, vals):
    """minus the conditional log likelihood of spin r, its gradient and Hessian in all parameters."""
    v, g, H = 0., np.zeros(len(theta)), np.zeros((len(theta), len(theta)))
    for s in np.asarray(X):
        o = []
        for z in vals:
            y = np.array(s)
            y[r] = z
            o.append(obs(y))
        o = np.array(o)
        e = o.dot(theta)
        m = e.max()
        p = np.exp(e - m)
        z = p.sum()
        p /= z
        o0 = obs(s)
        v += m + np.log(z) - o0.dot(theta)
        mu = p.dot(o)
        g += mu - o0
        H += (o.T * p).dot(o) - np.outer(mu, mu)
    return v, g, H


class Catch:
    """Stands in for scipy's minimize: looks at the objective while the problem is posed and answers what it is told to."""

    def __init__(self, look, answer):
        self.look, self.answer, self.n = look, answer, 0

    def __call__(self, f, x0, *a, jac=None, **kw):
        if jac is True:
            fg = f
        elif callable(jac):
            fg = lambda x: (f(x), jac(x))
        else:
            fg = lambda x: (f(x), None)
        q = self.n
        self.n += 1
        self.look(q, fg, np.array(x0, dtype=float), dict(kw, args=a))
        return {'x': np.array(self.answer(q, len(x0)), dtype=float), 'fun': 0.}

    def __enter__(self):
        self.old = SV.minimize
        SV.minimize = self
        return self

    def __exit__(self, *a):
        SV.minimize = self.old


def sample(c, n, R, vals):
    X = c.rng.choice(vals, size=(R, n))
    return X


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)


@case('conditional parameters and observables')
def helpers(c):
    c.bound = 'binary models of 2..%d spins' % c.pick(7, 12)
    for n in range(2, c.pick(8, 13)):
        get, obs = U.define_pseudo_ising_helper_functions(n)
        th = c.rng.normal(size=n + n * (n - 1) // 2)
        t0 = th.copy()
        X = sample(c, n, 9, [-1, 1])
        for r in range(n):
            m, ix = get(r, th)
            want = [r] + [n + idx(n, r, j) for j in others(n, r)]
            c.same(np.array(ix), np.array(want), 'positions of the parameters of a spin', n=n, spin=r)
            c.same(m, th[want], 'the parameters of a spin', n=n, spin=r)
            for lab, Y in orc.layouts(X):
                o = obs(r, Y)
                w = np.array([[s[r]] + [s[r] * s[j] for j in others(n, r)] for s in X], dtype=float)
                c.same(o, w, 'observables of a spin', n=n, spin=r, X=X, layout=lab)
            # together: the part of the energy that involves the spin
            c.close(obs(r, X.astype(float)).dot(m), [sum(th[r] * s[r] if q == 0 else th[n + idx(n, r, j)] * s[r] * s[j] for q, j in enumerate([r] + others(n, r)))
                                      for s in X], 'conditional energy', n=n, spin=r, X=X)
        c.same(th, t0, 'parameters unchanged')
    # helper functions of different sizes live side by side
    a, b = U.define_pseudo_ising_helper_functions(3), U.define_pseudo_ising_helper_functions(5)
    c.same(np.array(a[0](2, np.arange(6.))[1]), [2, 4, 5], 'helpers of another size do not interfere')
    c.same(np.array(b[0](1, np.arange(15.))[1]), [1, 5, 9, 10, 11], 'helpers of another size do not interfere')


@case('conditional parameters and observables, Potts')
def potts_helpers(c):
    for n, k in c.pick([(2, 2), (3, 3), (4, 4), (5, 3)], [(n, k) for n in (2, 3, 4, 6) for k in (2, 3, 4, 5)]):
        get, obs = U.define_pseudo_potts_helper_functions(n, k)
        th = c.rng.normal(size=k * n + n * (n - 1) // 2)
        X = np.vstack((sample(c, n, 12, range(k)), np.zeros((1, n), dtype=int), np.zeros((1, n), dtype=int) + k - 1))
        for r in range(n):
            m, ix = get(r, th)
            want = [r + n * z for z in range(k)] + [k * n + idx(n, r, j) for j in others(n, r)]
            c.same(np.array(ix), np.array(want), 'positions of the parameters of a spin', n=n, k=k, spin=r)
            c.same(m, th[want], 'the parameters of a spin', n=n, k=k, spin=r)
            f = lambda s, z: [1. * (z == q) for q in range(k)] + [1. * (s[j] == z) for j in others(n, r)]
            for lab, Y in orc.layouts(X):
                o, alt, st = obs(r, Y)
                info = dict(n=n, k=k, spin=r, X=X, layout=lab)
                c.same(o, np.array([f(s, s[r]) for s in X]), 'observables of a spin', **info)
                c.same(st, np.array([[z for z in range(k) if z != s[r]] for s in X]), 'the other states', **info)
                c.ok(len(alt) == k - 1, 'one set of observables per other state', got=len(alt), **info)
                for w in range(k - 1):
                    c.same(alt[w], np.array([f(s, [z for z in range(k) if z != s[r]][w]) for s in X]), 'observables had the spin another state', which=w, **info)


def settings(c, vals):
    out = []
    for n in c.pick((2, 3, 4), (2, 3, 4, 5, 6)):
        for R in (1, 2, 7, 40):
            X = sample(c, n, R, vals)
            out.append((n, X))
            if R == 7:
                out.append((n, np.repeat(X[:2], 4, axis=0)))
    return out


_kept = {}


def solver(X):
    """A solver for this sample (the compiled helpers are shared by solvers of the same size)."""
    n = X.shape[1]
    if n not in _kept:
        _kept[n] = SV.Pseudo(X, iprint=False)
        return _kept[n]
    k = _kept[n]
    return SV.Pseudo(X, model=k.model, calc_observables=k.calc_observables, get_multipliers_r=k.get_multipliers_r,
                     calc_observables_r=k.calc_observables_r, iprint=False)


def look_at(c, what, X, obs, vals, r_of, ix_of, fg, size, **info):
    """The objective and gradient at several parameters against minus the conditional log likelihoods."""
    for scale in (0., .3, 1.5, 12.):
        p = c.rng.normal(size=size) * scale
        p0 = p.copy()
        v, g = fg(p)
        c.same(p, p0, what + ': parameters unchanged', **info)
        th = np.zeros(len(obs(X[0])))
        ix = ix_of()
        th[ix] = p
        tot, gr = 0., np.zeros(len(th))
        for r in r_of():
            a, b, _ = cond(th, X, r, obs, vals)
            tot, gr = tot + a, gr + b
        c.close(v, tot, what + ': objective is minus the log conditional likelihood', tol=1e-8, X=X, params=p, **info)
        c.ok(g is not None, what + ': a gradient is given', **info)
        c.close(g, gr[ix], what + ': gradient is its derivative', tol=1e-8, X=X, params=p, **info)
        v2, g2 = fg(p)
        c.close(v2, v, what + ': evaluating twice gives the same value', X=X, params=p, **info)
        c.close(g2, g, what + ': evaluating twice gives the same gradient', X=X, params=p, **info)


@case('Ising problems')
def ising(c):
    for n, X in settings(c, [-1, 1]):
        L = n + n * (n - 1) // 2
        X0 = X.copy()
        for guess in (None, c.rng.normal(size=L)):
            sv = solver(X)
            g0 = None if guess is None else guess.copy()
            got = []

            def look(r, fg, x0, kw):
                ix = [r] + [n + idx(n, r, j) for j in others(n, r)]
                c.same(x0, np.zeros(n) if guess is None else guess[ix], 'a spin starts from its part of the guess', n=n, spin=r, guess=guess)
                c.ok(kw.get('tol') == 1e-3, 'options are passed on', got=kw)
                look_at(c, 'spin %d' % r, X, orc.ising_obs, (-1, 1), lambda: [r], lambda: ix, fg, n, n=n)

            def answer(r, m):
                got.append(c.rng.normal(size=m))
                return got[-1]
            with Catch(look, answer) as ca:
                res = sv.solve(initial_guess=guess, solver_kwargs={'tol': 1e-3})
            c.ok(ca.n == n, 'one problem per spin', got=ca.n, n=n)
            want = np.zeros(L)
            for i in range(n):
                want[i] = got[i][0]
                for j in range(i + 1, n):
                    want[n + idx(n, i, j)] = (got[i][1 + others(n, i).index(j)] + got[j][1 + others(n, j).index(i)]) / 2
            c.close(res, want, 'couplings are the average of the two estimates at their positions', n=n, estimates=got)
            c.close(sv.multipliers, want, 'the solver keeps the result', n=n)
            if guess is not None:
                c.same(guess, g0, 'guess unchanged')
        c.same(X, X0, 'sample unchanged')
    # the full output, and a second problem with the same solver
    X = sample(c, 3, 50, [-1, 1])
    sv = SV.Pseudo(X, iprint=False)
    r1, out = sv.solve(full_output=True)
    c.ok(len(out) == 3, 'one result per spin', got=len(out))
    for r in range(3):
        c.ok(np.abs(out[r]['jac']).max() < 1e-2, 'converged')
    sv.sample = sample(c, 3, 50, [-1, 1])
    r2 = sv.solve()
    g = np.zeros(6)
    for i in range(3):
        g[i] = cond(r2, sv.sample, i, orc.ising_obs, (-1, 1))[0]
    c.close(r2, SV.Pseudo(sv.sample, iprint=False).solve(), 'a second solution with new data', X=sv.sample)


@case('general problems')
def general(c):
    for n, X in settings(c, [-1, 1]):
        L = n + n * (n - 1) // 2
        for guess in (None, c.rng.normal(size=L)):
            sv = solver(X)
            g0 = None if guess is None else guess.copy()
            sol = c.rng.normal(size=L)

            def look(q, fg, x0, kw):
                c.same(x0, np.zeros(L) if guess is None else guess, 'starts from the guess', n=n, guess=guess)
                look_at(c, 'general', X, orc.ising_obs, (-1, 1), lambda: range(n), lambda: list(range(L)), fg, L, n=n)
            with Catch(look, lambda q, m: sol) as ca:
                res = sv.solve(force_general=True, initial_guess=guess)
            c.ok(ca.n == 1, 'one problem', got=ca.n)
            c.same(res, sol, 'the solution is returned')
            c.same(sv.multipliers, sol, 'the solver keeps the result')
            if guess is not None:
                c.same(guess, g0, 'guess unchanged')


@case('Potts problems')
def potts(c):
    hs = {}
    for n, k in c.pick([(2, 3), (3, 3), (3, 4), (4, 2)], [(2, 2), (2, 3), (3, 3), (3, 4), (4, 2), (5, 3), (4, 5)]):
        L = n * k + n * (n - 1) // 2
        ps = U.define_pseudo_potts_helper_functions(n, k)
        if k not in hs:
            hs[k] = U.define_potts_helper_functions(k)
        calc = hs[k][1]
        obs = lambda s, k=k: orc.potts_obs(s, k)
        for R in (1, 6, 30):
            X = sample(c, n, R, range(k))
            X0 = X.copy()
            for mode in (0, 1, 2):
                guess = None if mode == 0 else c.rng.normal(size=L)
                model = Potts3([np.zeros(3 * n), np.zeros(n * (n - 1) // 2)]) if k == 3 else Ising(n)
                sv = SV.Pseudo(X, model=model, calc_observables=calc, get_multipliers_r=ps[0], calc_observables_r=ps[1], k=k, iprint=False)
                kw = {}
                A = c.rng.normal(size=L)
                if mode == 2:
                    kw = dict(cost_fcn=lambda x: .5 * (A * x * x).sum(), cost_fcn_jac=lambda x: A * x)
                sol = c.rng.normal(size=L)

                def look(q, fg, x0, kw2):
                    c.same(x0, np.zeros(L) if guess is None else guess, 'starts from the guess', n=n, k=k, guess=guess)
                    sub = (lambda x: (fg(x)[0] - .5 * (A * x * x).sum(), fg(x)[1] - A * x)) if mode == 2 else fg
                    look_at(c, 'Potts', X, obs, range(k), lambda: range(n), lambda: list(range(L)), sub, L, n=n, k=k, with_cost=mode == 2)
                with Catch(look, lambda q, m: sol) as ca:
                    res = sv.solve(initial_guess=guess, **kw) if k == 3 else sv._solve_potts(initial_guess=guess, **kw)
                c.ok(ca.n == 1, 'one problem', got=ca.n)
                c.same(res, sol, 'the solution is returned')
                c.same(sv.multipliers, sol, 'the solver keeps the result')
            c.same(X, X0, 'sample unchanged')


def binary(c, what, X, r, f, fp, fh, sign=1.):
    """Newton problems in the {0,1} basis: couplings enter twice."""
    n = X.shape[1]
    for scale in (0., .7):
        J = c.rng.normal(size=n) * scale
        a = 2. * X
        a[:, r] = 1
        s = (2. * X[:, r] - 1)
        e = s * a.dot(J)
        c.close(f(J), np.log1p(np.exp(e)).sum(), what + ': minus the log conditional likelihood', X=X, spin=r, params=J)
        p = 1 / (1 + np.exp(-e))
        c.close(fp(J), (s * p).dot(a), what + ': derivative', X=X, spin=r, params=J)
        c.close(fh(J), (a.T * (p * (1 - p))).dot(a), what + ': second derivative', X=X, spin=r, params=J)


@case('deprecated Newton solvers')
def newton(c):
    from coniii import pseudo_inverse_ising as PI
    for n in c.pick((2, 3, 4), (2, 3, 4, 5, 6)):
        X = sample(c, n, 30, [-1, 1])
        B = (X + 1) // 2
        sv = SV.Pseudo(X, iprint=False)
        got = []
        old = SV.fmin_ncg

        def stub(f, x0, fprime=None, fhess=None, **kw):
            r = len(got)
            binary(c, 'Pseudo', B, r, f, fprime, fhess)
            got.append(c.rng.normal(size=n))
            return got[-1]
        SV.fmin_ncg = stub
        try:
            res = sv._solve_ising_deprecated()
        finally:
            SV.fmin_ncg = old
        J = -(np.array(got) + np.array(got).T) / 2
        # log P = sum J_rr b_r + 2 sum_{i<j} J_ij b_i b_j + const.
        want = [J[i, i] / 2 + sum(J[i, j] for j in others(n, i)) / 2 for i in range(n)] + [J[i, j] / 2 for i, j in orc.pairs(n)]
        c.close(res, want, 'parameters in the {-1,1} basis', estimates=got)
        res = sv._solve_ising_deprecated()
        sv2 = SV.Pseudo(X, iprint=False)
        # at the Newton solution the conditional gradients vanish
        r0 = 0
        for r in range(n):
            binary(c, 'module', B, r, lambda J: -PI.conditionalLogLikelihood(r, B, J), lambda J: PI.conditionalJacobian(r, B, J),
                   lambda J: PI.conditionalHessian(r, B, J))
            a = 2. * B
            a[:, r] = 1
            binary(c, 'module with products', B, r, lambda J: -PI.conditionalLogLikelihood(r, B, J), lambda J: PI.conditionalJacobian(r, B, J),
                   lambda J: PI.conditionalHessian(r, B, J, pairCoocRhat=PI.pairCoocMat(a)))
            binary(c, 'class', B, r, lambda J: -sv2.cond_log_likelihood(r, B, J), lambda J: sv2.cond_jac(r, B, J), lambda J: sv2.cond_hess(r, B, J))
        Jm = c.rng.normal(size=(n, n))
        Jm = Jm + Jm.T
        want = sum(PI.conditionalLogLikelihood(r, B, Jm[r]) for r in range(n))
        c.close(PI.pseudoLogLikelihood(B, Jm), want, 'pseudo log likelihood is the sum of the conditional ones', X=B, J=Jm)
        c.close(sv.pseudo_log_likelihood(B, Jm), want, 'pseudo log likelihood is the sum of the conditional ones', X=B, J=Jm)
        # the module's solver
        got2 = []
        import scipy.optimize as so
        oldm = so.fmin_ncg

        def stub2(f, x0, fprime=None, fhess=None, **kw):
            r = len(got2)
            binary(c, 'module solver', B, r, f, fprime, fhess)
            got2.append(c.rng.normal(size=n))
            return got2[-1]
        so.fmin_ncg = stub2
        try:
            Jr = quiet(PI.pseudoInverseIsing, B)
        finally:
            so.fmin_ncg = oldm
        c.close(Jr, (np.array(got2) + np.array(got2).T) / 2, 'estimates are averaged', estimates=got2)
    # samples below the minimum size carry no information on the spins that are on in them
    for n, ms in ((3, 1), (4, 2)):
        B = sample(c, n, 40, [0, 1])
        for r in range(n):
            J = c.rng.normal(size=n) * .5
            keep = ~((B[:, r] == 1) & (B.sum(1) <= ms))
            want = PI.conditionalLogLikelihood(r, B[keep], J)
            c.close(PI.conditionalLogLikelihood(r, B, J, minSize=ms), want, 'minimum size', X=B, spin=r)
            c.close(PI.conditionalJacobian(r, B, J, minSize=ms), PI.conditionalJacobian(r, B[keep], J), 'minimum size, derivative', X=B, spin=r)
            c.close(PI.conditionalHessian(r, B, J, minSize=ms), PI.conditionalHessian(r, B[keep], J), 'minimum size, second derivative', X=B, spin=r)


@case('solutions')
def solutions(c):
    """The whole solver on data: the returned parameters are a stationary point of what they should be."""
    for n in c.pick((2, 3, 4), (2, 3, 4, 5)):
        X = sample(c, n, 200, [-1, 1])
        L = n + n * (n - 1) // 2
        r, full = SV.Pseudo(X, iprint=False).solve(force_general=True, full_output=True, solver_kwargs={'tol': 1e-10})
        g = sum(cond(r, X, i, orc.ising_obs, (-1, 1))[1] for i in range(n))
        c.ok(np.abs(g).max() < 1e-3 * len(X), 'the general solution is stationary', got=g, X=X)
        r1, full = SV.Pseudo(X, iprint=False).solve(full_output=True, solver_kwargs={'tol': 1e-10})
        for i in range(n):
            th = np.zeros(L)
            th[[i] + [n + idx(n, i, j) for j in others(n, i)]] = full[i]['x']
            g = cond(th, X, i, orc.ising_obs, (-1, 1))[1]
            c.ok(np.abs(g[[i] + [n + idx(n, i, j) for j in others(n, i)]]).max() < 1e-3 * len(X), 'the solution of each spin is stationary', got=g, X=X, spin=i)
    # a model whose exact conditional statistics are in the data is recovered by both
    n = 3
    th = np.array([.3, -.2, .1, .4, -.3, .2])
    S = orc.states(n, (-1, 1))
    p, _ = orc.boltzmann(S, th, orc.ising_obs)
    N = np.round(p * 400000).astype(int)
    X = np.repeat(S, N, axis=0)
    for fg in (False, True):
        r = SV.Pseudo(X, iprint=False).solve(force_general=fg, solver_kwargs={'tol': 1e-12})
        c.close(r, th, 'the model behind the data is recovered', tol=2e-3, theta=th, general=fg)

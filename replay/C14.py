import contextlib
import io
import itertools
import math
import warnings
import numpy as np
from rt import case
import orc
from coniii import solvers as SV
from coniii import utils as U
from coniii.models import Ising
warnings.simplefilter('ignore')

H = {}


def helper():
    """compiled energies and observables of the Ising model (shared: building them compiles)"""
    if not H:
        H['e'], H['o'] = U.define_ising_helper_functions()[:2]
    return H['e'], H['o']


class Model:
    """all of a model that the solver uses: the energies"""

    def __init__(self, calc_e):
        self.calc_e = calc_e


def mpf(X, model=None, obs=None, **kw):
    e, o = helper()
    return SV.MPF(X, model=Model(e) if model is None else model, calc_observables=o if obs is None else obs, iprint=False, **kw)


def flips(s):
    out = []
    for i in range(len(s)):
        t = list(s)
        t[i] = 1 - t[i]
        out.append(tuple(t))
    return out


def e_of(s, th):
    return -math.fsum(float(a) * float(b) for a, b in zip(orc.ising_obs(s), th))


def flow(states, counts, lists, th, energy=e_of, obs=orc.ising_obs):
    """the count-weighted mean of exp of half the energy differences and its gradient, with plain loops"""
    v, g = [], np.zeros(len(th))
    for s, c, l in zip(states, counts, lists):
        for t in l:
            w = c * math.exp(.5 * (energy(s, th) - energy(t, th)))
            v.append(w)
            g += .5 * w * (np.asarray(obs(t), dtype=float) - np.asarray(obs(s), dtype=float))
    return math.fsum(v) / sum(counts), g / sum(counts)


def some_states(rng, n, U_):
    al = list(itertools.product((0, 1), repeat=n))
    return np.array([al[i] for i in sorted(rng.choice(len(al), size=U_, replace=False))])


def table(states):
    return [tuple(int(x) for x in s) for s in states]


@case('objective, logarithm and gradients')
def objective(c):
    c.bound = '2..%d spins, random sets of states with random counts, full and reduced neighbour lists' % c.pick(5, 8)
    for it in range(c.pick(40, 200)):
        n = int(c.rng.randint(2, c.pick(6, 9)))
        m = n + n * (n - 1) // 2
        s = some_states(c.rng, n, int(c.rng.randint(1, min(2 ** n, 9) + 1)))
        count = c.rng.randint(1, 50, size=len(s))
        th = c.rng.normal(size=m) * c.rng.choice([.3, 1., 4.])
        lists = [np.array(flips(x)) for x in s]
        kind = it % 3
        if kind == 1:      # different numbers of neighbours
            lists = [l[c.rng.permutation(len(l))[:int(c.rng.randint(1, len(l) + 1))]] for l in lists]
        if kind == 2:      # neighbours that are not single flips
            lists = [c.rng.randint(0, 2, size=(int(c.rng.randint(1, n + 3)), n)) for l in lists]
        want, grad = flow(s, count, lists, th)
        keep = s.copy(), count.copy(), [l.copy() for l in lists], th.copy()
        info = dict(states=s, counts=count, neighbours=lists, params=th)
        sv = mpf(2 * s - 1)
        c.ok(sv.calc_de is None, 'no derivative by default', **info)
        c.close(sv.K(s, count, lists, th), want, 'objective', 1e-10, **info)
        c.close(sv.logK(s, count, lists, th), math.log(want), 'logarithm of the objective', 1e-10, **info)
        sv = mpf(2 * s - 1, calc_de=U.calc_de)
        v, g = sv.K(s, count, lists, th)
        c.close(v, want, 'objective with gradient', 1e-10, **info)
        c.close(g, grad, 'gradient of the objective', 1e-9, **info)
        v, g = sv.logK(s, count, lists, th)
        c.close(v, math.log(want), 'logarithm with gradient', 1e-10, **info)
        c.close(g, grad / want, 'gradient of the logarithm', 1e-9, **info)
        c.ok(np.array_equal(keep[0], s) and np.array_equal(keep[1], count) and np.array_equal(keep[3], th)
             and all(np.array_equal(a, b) for a, b in zip(keep[2], lists)), 'arguments unchanged', **info)
        # the worker computes the count-weighted sum of one state
        i = int(c.rng.randint(len(s)))
        w, _ = flow(s[i:i + 1], count[i:i + 1], lists[i:i + 1], th)
        c.close(SV.MPF.worker_objective_task(s[i], count[i], lists[i], th, helper()[0]), w * count[i], 'term of one state', 1e-10, **info)


@case('large energies')
def large(c):
    c.bound = 'energy differences of up to several thousand: the logarithm stays exact'
    for it in range(c.pick(10, 60)):
        n = int(c.rng.randint(2, 5))
        s = some_states(c.rng, n, int(c.rng.randint(1, 4)))
        count = c.rng.randint(1, 9, size=len(s))
        th = c.rng.normal(size=n + n * (n - 1) // 2) * 1500
        lists = [np.array(flips(x)) for x in s]
        d, w, o = [], [], []
        for x, k, l in zip(s, count, lists):
            for t in l:
                d.append(.5 * (e_of(x, th) - e_of(t, th)) + math.log(k / count.sum()))
                o.append(.5 * (orc.ising_obs(t) - orc.ising_obs(x)))
        d, o = np.array(d), np.array(o)
        p = np.exp(d - d.max())
        info = dict(states=s, counts=count, params=th)
        v, g = mpf(2 * s - 1, calc_de=U.calc_de).logK(s, count, lists, th)
        c.close(v, d.max() + math.log(p.sum()), 'logarithm', 1e-10, **info)
        c.close(g, (p[:, None] * o).sum(0) / p.sum(), 'gradient of the logarithm', 1e-9, **info)


@case('other models')
def other(c):
    c.bound = 'energies and derivatives given by the user; one to four parameters'
    for it in range(c.pick(12, 60)):
        n, m = int(c.rng.randint(2, 5)), int(c.rng.randint(1, 5))
        A = c.rng.normal(size=(n, m))

        def obs(s):
            return np.tanh(np.asarray(s, dtype=float).dot(A)) + np.sum(s) ** 2

        def calc_e(X, th):
            return -np.array([obs(x) for x in X]).dot(th)

        def calc_de(X, j):
            return -np.array([obs(x)[j] for x in X])

        def energy(s, th):
            return -float(obs(np.asarray(s)).dot(th))
        s = some_states(c.rng, n, int(c.rng.randint(1, 2 ** n)))
        count = c.rng.randint(1, 9, size=len(s))
        th = c.rng.normal(size=m) * .5
        lists = [np.array(flips(x)) for x in s]
        want, grad = flow(s, count, lists, th, energy, obs)
        info = dict(states=s, counts=count, params=th, A=A)
        sv = mpf(2 * s - 1, model=Model(calc_e), calc_de=calc_de)
        v, g = sv.K(s, count, lists, th)
        c.close(v, want, 'objective', 1e-10, **info)
        c.close(g, grad, 'gradient', 1e-9, **info)
        v, g = sv.logK(s, count, lists, th)
        c.close(v, math.log(want), 'logarithm', 1e-10, **info)
        c.close(g, grad / want, 'gradient of the logarithm', 1e-9, **info)


@case('neighbour lists')
def neighbours(c):
    c.bound = 'every set of states of 2 and 3 spins; random sets of up to %d spins; neighbour functions given by the user' % c.pick(6, 9)

    def two(s):       # two flips at once, the number of neighbours depends on the state
        out = [list(s)]
        out[0][0] = 1 - out[0][0]
        for i in range(len(s) - 1):
            if s[0] or i % 2 == 0:
                t = list(s)
                t[i], t[i + 1] = 1 - t[i], 1 - t[i + 1]
                out.append(t)
        return np.array(out)

    def check(s, adj=None):
        X = np.array(s)
        kw = {} if adj is None else dict(adj=adj)
        sv = mpf(2 * X - 1, **kw)
        nb = [flips(x) if adj is None else table(adj(np.array(x))) for x in s]
        data = set(tuple(x) for x in table(s))
        out = [[t for t in l if t not in data] for l in nb]
        keep = X.copy()
        full = sv.list_adjacent_states(X, True)
        c.ok(len(full) == len(s) and all(np.asarray(a).shape == (len(b), X.shape[1]) and table(a) == b for a, b in zip(full, nb)),
             'all the neighbours of every state', got=[np.array(a) for a in full], want=nb, states=X)
        c.ok(np.array_equal(keep, X), 'data unchanged', states=keep)
        if all(out):
            some = sv.list_adjacent_states(X, False)
            c.ok(len(some) == len(s) and all(np.asarray(a).shape == (len(b), X.shape[1]) and table(a) == b for a, b in zip(some, out)),
                 'the neighbours outside the data', got=[np.array(a) for a in some], want=out, states=X)
        else:
            c.raises(lambda: sv.list_adjacent_states(X, False), 'a state without neighbours outside the data is rejected', states=X)
        c.ok(np.array_equal(keep, X), 'data unchanged', states=keep)
    for n in (2, 3):
        al = list(itertools.product((0, 1), repeat=n))
        for mask in range(1, 2 ** len(al)):
            s = [al[i] for i in range(len(al)) if mask >> i & 1]
            check(s)
            if mask % 5 == 0:
                check(s, two)
    for it in range(c.pick(40, 300)):
        n = int(c.rng.randint(4, c.pick(7, 10)))
        s = some_states(c.rng, n, int(c.rng.randint(1, min(2 ** n, 30))))
        check(table(s))
        check(table(s[c.rng.permutation(len(s))]), two)


def conv01(th, n):
    """parameters of {0,1} spins with the same distribution as theta of {-1,1} spins: E = -sum theta O(2x-1) up to a constant"""
    h = np.array(th[:n]) * 2
    J = np.array(th[n:]) * 4
    for q, (i, j) in enumerate(orc.pairs(n)):
        h[i] -= 2 * th[n + q]
        h[j] -= 2 * th[n + q]
    return np.concatenate((h, J))


class Catch:
    def __init__(self, answer):
        self.answer, self.calls = answer, []

    def __call__(self, f, x0, *a, **kw):
        self.calls.append((f, np.array(x0, dtype=float), kw))
        return {'x': np.array(self.answer, dtype=float), 'fun': 0.}

    def __enter__(self):
        self.old = SV.minimize
        SV.minimize = self
        return self

    def __exit__(self, *a):
        SV.minimize = self.old


@case('problem given to the minimiser')
def posed(c):
    c.bound = '2..%d spins; all option combinations; objective looked at in arbitrary parameters' % c.pick(4, 6)
    for it in range(c.pick(32, 160)):
        n = int(c.rng.randint(2, c.pick(5, 7)))
        m = n + n * (n - 1) // 2
        R = int(c.rng.randint(1, 40))
        full, uselog, de, guess = [bool(it >> b & 1) for b in range(4)]
        s = some_states(c.rng, n, int(c.rng.randint(1, 2 ** (n - 1))))
        X = 2 * s[c.rng.randint(len(s), size=R)] - 1
        data = {}
        for x in table((X + 1) // 2):
            data[x] = data.get(x, 0) + 1
        states = list(data)
        lists = [[t for t in flips(x) if full or t not in data] for x in states]
        if not all(lists):
            continue
        keep = X.copy()
        sv = mpf(X, **(dict(calc_de=U.calc_de) if de else {}))
        g0 = c.rng.normal(size=m)
        gk = g0.copy()
        ans = c.rng.normal(size=m)
        lim = float(c.rng.randint(1, 200))
        o = bool(it % 7 < 3)
        with Catch(ans) as ca:
            kw = dict(initial_guess=g0) if guess else {}
            r = sv.solve(all_connected=full, uselog=uselog, parameter_limits=lim, full_output=o, **kw)
            f, x0, opt = ca.calls[0]
            info = dict(sample=keep, all_connected=full, uselog=uselog, gradient=de, guess=g0 if guess else None)
            c.ok(len(ca.calls) == 1, 'one problem', **info)
            for q in range(3):
                th = c.rng.normal(size=m)
                v, g = flow(states, [data[x] for x in states], lists, th)
                got = f(th)
                if de:
                    c.close(got[1], g / v if uselog else g, 'gradient of the objective', 1e-9, params=th, **info)
                    got = got[0]
                c.close(got, math.log(v) if uselog else v, 'objective', 1e-10, params=th, **info)
        c.ok(bool(opt.get('jac')) == de, 'the minimiser knows whether there is a gradient', **info)
        c.ok(opt['bounds'] == [(-lim, lim)] * m, 'bounds', got=opt['bounds'], **info)
        if guess:
            c.close(x0, conv01(g0, n), 'initial guess in the 0/1 basis', 1e-10, **info)
        else:
            c.ok(x0.shape == (m,) and np.isfinite(x0).all(), 'initial guess', got=x0, **info)
        c.close(conv01(r[0] if o else r, n), ans, 'solution in the -1/1 basis', 1e-10, **info)
        c.same(sv.multipliers, r[0] if o else r, 'multipliers of the solver', **info)
        if o:
            c.same(r[1]['x'], ans, 'output of the minimiser', **info)
        c.ok(np.array_equal(keep, X) and np.array_equal(gk, g0), 'sample and guess unchanged', **info)


@case('recovery of the model')
def recover(c):
    c.bound = 'data with exactly the probabilities of a model: 2..%d spins, every option' % c.pick(3, 4)
    for it in range(c.pick(12, 40)):
        n = 2 + it % c.pick(2, 3)
        m = n + n * (n - 1) // 2
        # parameters in the 0/1 basis that are multiples of log 2 give probabilities that are ratios of powers of two
        k = c.rng.randint(-1, 2, size=m)
        st = list(itertools.product((0, 1), repeat=n))
        e = [int(round(orc.ising_obs(s).dot(k))) for s in st]
        cnt = [2 ** (x - min(e)) for x in e]
        if sum(cnt) > 5000:
            continue
        X = np.repeat(2 * np.array(st) - 1, cnt, axis=0)[c.rng.permutation(sum(cnt))]
        full = np.log(2.) * k
        info = dict(params01=full, counts=cnt)
        de, uselog = bool(it & 1), bool(it & 2)
        sv = mpf(X, calc_de=U.calc_de)
        lists = [np.array(flips(s)) for s in st]
        for name in ('K', 'logK'):
            v, g = getattr(sv, name)(np.array(st), np.array(cnt), lists, full)
            c.close(g, np.zeros(m), 'no gradient of %s at the parameters of the model' % name, 1e-10, **info)
        sv = mpf(X, **(dict(calc_de=U.calc_de) if de else {}))
        kw = dict(initial_guess=c.rng.normal(size=m) * .3) if it % 3 else {}
        with contextlib.redirect_stdout(io.StringIO()):
            r = sv.solve(uselog=uselog, solver_kwargs={'maxiter': 2000, 'disp': False, 'ftol': 1e-15, 'gtol': 1e-9}, **kw)
        c.close(conv01(r, n), full, 'the minimiser is the parameter vector of the model', 2e-3, **dict(info, uselog=uselog, gradient=de))


@case('neighbours and derivatives of the package')
def parts(c):
    c.bound = 'adj, adj_sym and calc_de for 2..%d spins' % c.pick(6, 9)
    for n in range(2, c.pick(7, 10)):
        for it in range(c.pick(4, 20)):
            s = c.rng.randint(0, 2, size=n)
            k = s.copy()
            c.ok(table(U.adj(s)) == flips(s.tolist()), 'single flips', state=k)
            c.same(s, k, 'state unchanged', state=k)
            X = c.rng.randint(0, 2, size=(5, n))
            o = orc.ising_obs_many(X)
            for j in range(o.shape[1]):
                c.same(U.calc_de(X, j), -o[:, j], 'derivative of the energy', states=X, parameter=j)

import glob
import importlib
import os
import re
import warnings
import numpy as np
import mpmath as mp
from rt import case
import orc
from coniii import enumerate as en


def modules():
    d = os.path.dirname(importlib.import_module('coniii.ising_eqn').__file__)
    out = []
    for p in sorted(glob.glob(os.path.join(d, 'ising_eqn_*.py'))):
        g = re.match(r'(ising_eqn_(\d+)(_sym)?(_triplet)?(_hp)?)\.py$', os.path.basename(p))
        if g:
            out.append((g.group(1), int(g.group(2)), bool(g.group(3)), 3 if g.group(4) else 2, bool(g.group(5))))
    return out


def exact(n, sym, order, th):
    """probabilities and observables by the definition, states in increasing order, first spin most significant"""
    S = orc.states(n, [-1, 1] if sym else [0, 1])
    O = orc.obs_matrix(S, lambda s: orc.ising_obs(s, order)).astype(np.longdouble)
    e = O.dot(np.asarray(th, dtype=np.longdouble))
    w = np.exp(e - e.max())
    p = w / w.sum()
    return S, p.astype(float), p.dot(O).astype(float)


def thetas(c, m, n):
    yield np.zeros(m)
    for sc in (.1, 1., 5.):
        yield c.rng.normal(size=m) * sc
    yield c.rng.normal(size=m) * 200
    yield c.rng.normal(size=m) * 3000
    t = np.zeros(m)
    t[0] = 800.
    yield t
    yield -np.ones(m) * 100.
    yield np.arange(1, m + 1) / m
    # exactly cancelling sums: only one parameter is non-zero
    for q in (0, n - 1, n, m - 1):
        t = np.zeros(m)
        t[q] = -1.5
        yield t


@case('shipped modules', timeout=300)
def shipped(c):
    c.bound = 'every shipped module, %d parameter vectors each' % 13
    seen = set()
    for name, n, sym, order, hp in modules():
        if hp:
            continue
        mod = importlib.import_module('coniii.ising_eqn.' + name)
        seen.add((n, sym, order))
        m = len([1 for k in range(1, order + 1) for _ in __import__('itertools').combinations(range(n), k)])
        for th in thetas(c, m, n):
            S, p, o = exact(n, sym, order, th)
            t0 = th.copy()
            with np.errstate(all='ignore'):
                gp, go = mod.p(th), mod.calc_observables(th)
            c.ok(np.array_equal(th, t0), 'the parameters are left unchanged', module=name)
            c.close(gp, p, 'probabilities of the states in documented order', 1e-9, module=name, theta=t0)
            c.close(go, o, 'exact means and correlations in canonical order', 1e-9, module=name, theta=t0)
            c.ok((np.asarray(gp) >= 0).all() and abs(np.sum(gp) - 1) < 1e-9, 'probabilities are non-negative and sum to one', module=name, theta=t0)
            X = orc.obs_matrix(S, lambda s: orc.ising_obs(s, order))
            c.close(go, np.asarray(gp).dot(X), 'observables are those of the probabilities', 1e-8, module=name, theta=t0)
            c.ok(go.shape == (m,) and gp.shape == (2 ** n,), 'shapes', module=name)
    for n in range(2, 10):
        for sym in (False, True):
            c.ok((n, sym, 2) in seen, 'module is shipped', n=n, sym=sym)
    for sym in (False, True):
        c.ok((5, sym, 3) in seen, 'triplet module is shipped', sym=sym)


@case('multi-precision arithmetic', timeout=200)
def hp(c):
    import contextlib
    import io
    import sys
    d = os.path.join(os.getcwd(), 'hpmod')
    os.makedirs(os.path.join(d, 'ising_eqn'), exist_ok=True)
    old = os.getcwd()
    os.chdir(d)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            en.pairwise(3, 0, high_prec=True)
            en.pairwise(4, 1, high_prec=True)
    finally:
        os.chdir(old)
    import types
    old = mp.mp.dps
    mp.mp.dps = 40
    try:
        for n, sym, fn in ((3, False, 'ising_eqn_3_hp'), (4, True, 'ising_eqn_4_sym_hp')):
            src = open(os.path.join(d, 'ising_eqn', fn + '.py')).read()
            mod = types.ModuleType('coniii.ising_eqn.' + fn)
            mod.__package__ = 'coniii.ising_eqn'
            exec(compile(src, fn, 'exec'), mod.__dict__)
            m = n + n * (n - 1) // 2
            for sc in (0, 1, 50):
                th = c.rng.normal(size=m) * sc
                x = np.array([mp.mpf(float(t)) / 3 for t in th], dtype=object)
                S = orc.states(n, [-1, 1] if sym else [0, 1])
                w = [mp.exp(sum((mp.mpf(float(o)) * t for o, t in zip(orc.ising_obs(s), x)), mp.mpf(0))) for s in S]
                z = sum(w, mp.mpf(0))
                gp, go = mod.p(x), mod.calc_observables(x)
                for q in range(2 ** n):
                    c.ok(abs(gp[q] - w[q] / z) < mp.mpf(10) ** -30, 'multi-precision probability', module=fn, theta=th, state=S[q], got=str(gp[q]), want=str(w[q] / z))
                for q in range(m):
                    want = sum((mp.mpf(float(orc.ising_obs(s)[q])) * y for s, y in zip(S, w)), mp.mpf(0)) / z
                    c.ok(abs(go[q] - want) < mp.mpf(10) ** -30, 'multi-precision observable', module=fn, theta=th, q=q, got=str(go[q]), want=str(want))
    finally:
        mp.mp.dps = old


@case('log-sum-exp')
def lse(c):
    c.bound = 'lengths 1..40, exponents up to 1e5'
    old = mp.mp.dps
    mp.mp.dps = 50
    try:
        for rep in range(c.pick(150, 1500)):
            n = int(c.rng.choice([1, 2, 3, 8, 40]))
            X = c.rng.normal(size=n) * c.rng.choice([0, 1, 30, 1000, 1e5])
            kind = rep % 5
            C = [None, c.rng.choice([-1, 1], size=n), c.rng.choice([0, 1], size=n), c.rng.normal(size=n), -np.ones(n)][kind]
            ex = [mp.mpf(float(x)) for x in X]
            y = sum((mp.exp(x) * mp.mpf(float(1 if C is None else C[q])) for q, x in enumerate(ex)), mp.mpf(0))
            scale = sum((mp.exp(x) * abs(mp.mpf(float(1 if C is None else C[q]))) for q, x in enumerate(ex)), mp.mpf(0))
            for f, tol in ((en.fast_logsumexp, 1e-9), (en.mp_fast_logsumexp, 1e-9)):
                if f is en.mp_fast_logsumexp:
                    a = [np.array(ex, dtype=object)]
                else:
                    a = [X.copy()]
                x0 = a[0].copy()
                if C is not None:
                    a.append(C)
                with np.errstate(all='ignore'):
                    g = f(*a)
                c.ok((a[0] == x0).all(), 'arguments unchanged', X=X)
                if y == 0:
                    c.ok(g[0] == -mp.inf or g[0] == -np.inf, 'log of a zero sum', got=str(g[0]), X=X, C=C)
                    continue
                if abs(y) < scale * mp.mpf(10) ** -9 or abs(y) < mp.mpf(10) ** -250 * mp.exp(max(ex)):
                    continue        # cancellation or terms below the largest by more than the double range: only the sign class is defined
                c.ok(abs(mp.mpf(g[0]) - mp.log(abs(y))) <= tol * max(1, abs(mp.log(abs(y)))), 'log of the absolute value', got=str(g[0]), want=str(mp.log(abs(y))), X=X, C=C, f=f.__name__)
                c.ok(g[1] == (1 if y > 0 else -1), 'sign', got=float(g[1]), want=int(mp.sign(y)), X=X, C=C, f=f.__name__)
    finally:
        mp.mp.dps = old

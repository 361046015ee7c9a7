import contextlib
import importlib
import io
import itertools
import os
import subprocess
import sys
import numpy as np
import mpmath as mp
from rt import case
import orc
from coniii import enumerate as en
from coniii import enumerate_potts as ep
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
from props import gen_modules


def scratch(name):
    """A scratch directory whose ising_eqn folder is importable as part of the package."""
    d = os.path.abspath(name)
    os.makedirs(os.path.join(d, 'ising_eqn'), exist_ok=True)
    pk = importlib.import_module('coniii.ising_eqn')
    pk.__path__ = [os.path.join(d, 'ising_eqn')] + [p for p in pk.__path__ if p != os.path.join(d, 'ising_eqn')]
    importlib.invalidate_caches()
    return d


def load(d, f):
    importlib.invalidate_caches()
    nm = 'coniii.ising_eqn.' + os.path.basename(f)[:-3]
    sys.modules.pop(nm, None)
    m = importlib.import_module(nm)
    assert os.path.abspath(m.__file__).startswith(d), m.__file__
    return m


@contextlib.contextmanager
def cwd(d):
    old = os.getcwd()
    os.chdir(d)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            yield
    finally:
        os.chdir(old)


def check(c, mod, rows, what, hp=False):
    rows = np.array(rows, dtype=float)
    m = rows.shape[1]
    for sc in ((1,) if hp else (0, 1, 40)):
        th = c.rng.normal(size=m) * sc
        if hp:
            x = np.array([mp.mpf(float(t)) / 3 for t in th], dtype=object)
            w = [mp.exp(sum((mp.mpf(float(o)) * t for o, t in zip(r, x)), mp.mpf(0))) for r in rows]
            z = sum(w, mp.mpf(0))
            gp, go = mod.p(x), mod.calc_observables(x)
            c.ok(len(gp) == len(rows) and all(abs(g - v / z) < mp.mpf(10) ** -25 for g, v in zip(gp, w)), 'probabilities', module=what, theta=th, got=[str(g) for g in gp], want=[str(v / z) for v in w])
            want = [sum((mp.mpf(float(r[q])) * v for r, v in zip(rows, w)), mp.mpf(0)) / z for q in range(m)]
            c.ok(len(go) == m and all(abs(g - v) < mp.mpf(10) ** -25 for g, v in zip(go, want)), 'observables', module=what, theta=th, got=[str(g) for g in go], want=[str(v) for v in want])
            continue
        e = rows.dot(th)
        w = np.exp(e - e.max())
        p = w / w.sum()
        with np.errstate(all='ignore'):
            gp, go = mod.p(th), mod.calc_observables(th)
        c.close(gp, p, 'probabilities in the documented state order', 1e-9, module=what, theta=th)
        c.close(go, p.dot(rows), 'observables in canonical order', 1e-9, module=what, theta=th)


def rows_of(job):
    if job['kind'] == 'potts':
        return [orc.potts_obs(s, job['k']) for s in orc.states(job['n'], range(job['k']))]
    S = orc.states(job['n'], [-1, 1] if job['sym'] else [0, 1])
    return [[np.prod([s[i] for i in t]) for t in gen_modules.subs(job)] for s in S]


@case('generated modules', timeout=400)
def generated(c):
    c.bound = 'sizes and orders of props/gen_modules.py'
    d = scratch('gen')
    old = mp.mp.dps
    mp.mp.dps = 35
    try:
        for q, job in enumerate(gen_modules.jobs('thorough' if c.deep else 'quick')):
            try:
                with cwd(d):
                    f = gen_modules.write(q, job)
            except Exception as e:
                c.ok(False, 'a module is written', job=job, got='%s: %s' % (type(e).__name__, e))
                continue
            c.ok(os.path.exists(os.path.join(d, f)), 'the module has the documented name', job=job, want=f)
            check(c, load(d, f), rows_of(job), job, job.get('hp', False))
    finally:
        mp.mp.dps = old


@case('any symmetric pattern of constraints')
def patterns(c):
    c.bound = 'random subsets of constraints, sizes 2..6'
    d = scratch('pat')
    for rep in range(c.pick(14, 60)):
        n = int(c.rng.randint(2, 7))
        sym = rep % 2
        ix, subs = [], []
        for k in range(1, n + 1):
            t = list(itertools.combinations(range(n), k))
            t = [t[q] for q in sorted(c.rng.permutation(len(t))[:c.rng.randint(1, len(t) + 1)])]
            if c.rng.rand() < .6 or (k == n and not ix):
                ix.append([np.array(x) for x in zip(*t)])
                subs += t
        with cwd(d):
            en.write_eqns(n, sym, ix, suffix='_r%d' % rep)
        S = orc.states(n, [-1, 1] if sym else [0, 1])
        check(c, load(d, 'ising_eqn_%d_r%d.py' % (n, rep)), [[np.prod([s[i] for i in t]) for t in subs] for s in S], dict(n=n, sym=sym, subsets=subs))


@case('signs')
def signs(c):
    for n in range(1, 7):
        for k in range(1, min(n, 4) + 1):
            t = list(itertools.combinations(range(n), k))
            ix = [np.array(x) for x in zip(*t)]
            for s in orc.states(n, [0, 1]):
                b = ''.join(str(x) for x in s)
                g = en._compute_signs(ix, '', b)
                c.same(g, [np.prod([1 - 2 * s[i] for i in q]) for q in t], 'sign of a state, {-1,1} with 1 for a down spin', state=b, k=k)
                g = en._compute_signs(ix, '', b, False)
                c.same(g, [np.prod([s[i] for i in q]) for q in t], 'sign of a state, {0,1}', state=b, k=k)
    for n in range(2, 8):
        for k in range(1, n + 1):
            c.same(np.array(en.get_nidx(k, n)).T, list(itertools.combinations(range(n), k)), 'k-th order indices', n=n, k=k) if k < n else None
        if n > 2:
            c.same(np.array(np.where(en.get_3idx(n))).T, list(itertools.combinations(range(n), 3)), 'triplet indices', n=n)


@case('command line', timeout=200)
def cli(c):
    d = scratch('cli')
    env = dict(os.environ)
    here = os.path.dirname(os.path.dirname(os.path.abspath(en.__file__)))
    jobs = [(['coniii.enumerate', '3'], 'ising_eqn_3.py', 3, 0, 2), (['coniii.enumerate', '4', '1'], 'ising_eqn_4_sym.py', 4, 1, 2),
            (['coniii.enumerate', '4', '0', '3'], 'ising_eqn_4_triplet.py', 4, 0, 3), (['coniii.enumerate', '3', '1', '3'], 'ising_eqn_3_sym_triplet.py', 3, 1, 3),
            (['coniii.enumerate_potts', '3', '3', 'ising_eqn/ising_eqn_3_potts.py'], 'ising_eqn_3_potts.py', 3, None, 3)]
    for a, f, n, sym, order in jobs:
        env['PYTHONPATH'] = here
        r = subprocess.run([sys.executable, '-W', 'ignore', '-m'] + a, cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=100)
        c.ok(os.path.exists(os.path.join(d, 'ising_eqn', f)), 'the command line writes the module', command=a, got=r.stdout[-400:])
        if os.path.exists(os.path.join(d, 'ising_eqn', f)):
            if sym is None:
                rows = [orc.potts_obs(s, order) for s in orc.states(n, range(order))]
            else:
                rows = [orc.ising_obs(s, order) for s in orc.states(n, [-1, 1] if sym else [0, 1])]
            check(c, load(d, f), rows, a)

"""Runs the real equation generators of the repository (under its own interpreter) and leaves the written modules in the current directory.
usage: gen_modules.py tier"""
import contextlib
import io
import itertools
import json
import os
import sys
import numpy as np


def index_arrays(n, orders):
    return [[np.array(x) for x in zip(*itertools.combinations(range(n), k))] for k in orders]


def jobs(tier):
    deep = tier != 'quick'
    out = []
    for sym in (0, 1):
        for n in range(1, 9 if deep else 7):
            for orders in ((1,), (2,), (1, 2), (3,), (1, 3), (1, 2, 3), (2, 4), (1, 2, 3, 4), (2, 1)):
                if max(orders) > n:
                    continue
                if n > 5 and orders not in ((1, 2), (1, 2, 3), (2, 4)):
                    continue
                out.append(dict(kind='eqns', n=n, sym=sym, orders=orders, hp=False, order=None))
        out.append(dict(kind='eqns', n=3, sym=sym, orders=(1, 2), hp=True, order=None))
        out.append(dict(kind='eqns', n=4, sym=sym, orders=(1, 2, 3), hp=True, order=None))
        out.append(dict(kind='eqns', n=4, sym=sym, orders=(1, 2), hp=False, order='shuffled'))
        for n in ((2, 3, 5, 7) if not deep else (2, 3, 4, 5, 6, 7, 8)):
            out.append(dict(kind='pairwise', n=n, sym=sym, orders=(1, 2), hp=n == 3, order=None))
        for n in (3, 4, 6):
            out.append(dict(kind='triplet', n=n, sym=sym, orders=(1, 2, 3), hp=n == 4, order=None))
    for n, k in ((3, 2), (3, 3), (4, 3), (3, 4), (5, 2), (6, 2), (3, 11), (5, 3)) + (((3, 12), (6, 3), (4, 5), (7, 2)) if deep else ()):
        out.append(dict(kind='potts', n=n, k=k))
    return out


def subs(job):
    """The subsets named by the constraints, in the order of the parameters."""
    rng = np.random.RandomState(3)
    s = []
    for k in job['orders']:
        t = list(itertools.combinations(range(job['n']), k))
        if job['order']:
            t = [t[q] for q in rng.permutation(len(t))]
        s += t
    return s


def write(q, job):
    from coniii import enumerate as en
    from coniii import enumerate_potts as ep
    n = job['n']
    if job['kind'] == 'potts':
        os.makedirs('ising_eqn', exist_ok=True)
        f = 'ising_eqn/p%d.py' % q
        ep.SpecificFieldGenericCouplings(n, job['k']).write(f)
        return f
    hp = '_hp' if job['hp'] else ''
    with contextlib.redirect_stdout(io.StringIO()):
        kw = dict(high_prec=True) if job['hp'] else {}
        if job['kind'] == 'pairwise':
            en.pairwise(n, job['sym'], **kw)
            f = 'ising_eqn/ising_eqn_%d%s%s.py' % (n, '_sym' if job['sym'] else '', hp)
        elif job['kind'] == 'triplet':
            en.triplet(n, job['sym'], **kw)
            f = 'ising_eqn/ising_eqn_%d%s%s.py' % (n, '_sym_triplet' if job['sym'] else '_triplet', hp)
        else:
            t = subs(job)
            ix = []
            for k in job['orders']:
                ix.append([np.array(x) for x in zip(*[x for x in t if len(x) == k])])
            en.write_eqns(n, job['sym'], ix, suffix='_t%d' % q, **kw)
            f = 'ising_eqn/ising_eqn_%d_t%d%s.py' % (n, q, hp)
    return f


if __name__ == '__main__':
    out = []
    for q, job in enumerate(jobs(sys.argv[1])):
        try:
            out.append(write(q, job))
        except Exception as e:
            out.append('error: %s: %s' % (type(e).__name__, e))
    json.dump(out, open('modules.json', 'w'))

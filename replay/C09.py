import os
import sys
import itertools
import numpy as np
from rt import case
import orc
from rngs import FixedRng
from coniii import samplers as S
from coniii import utils as U

ISING_E = {}


def energies(n):
    return U.define_ising_helper_functions()[0]


def make(cls, n, theta, calc_e, rng):
    if cls == 'Potts3':
        return S.Potts3(n, theta, calc_e=calc_e, rng=rng, boost=False)
    return S.Metropolis(n, theta, calc_e=calc_e, rng=rng, boost=False, iprint=False)


def model(c, cls, n, scale=1.):
    if cls == 'Potts3':
        th = c.rng.normal(size=3 * n + n * (n - 1) // 2) * scale
        return th, U.define_potts_helper_functions(3)[0], lambda X: orc.energy(X, th, lambda s: orc.potts_obs(s, 3))
    th = c.rng.normal(size=n + n * (n - 1) // 2) * scale
    return th, U.define_ising_helper_functions()[0], lambda X: orc.energy(X, th, lambda s: orc.ising_obs(s, 2))


def uvalues(de):
    p = float(np.exp(-de)) if de > -700 else np.inf
    out = [0., 1e-300, .5, 1 - 2.**-53]
    if p < 1:
        out += [p, np.nextafter(p, 0), np.nextafter(p, 1), p * .99, min(1 - 2.**-53, p * 1.01)]
    return out


def steps(c, cls):
    vals = (0, 1, 2) if cls == 'Potts3' else (-1, 1)
    c.bound = 'all states of 1..%d spins, every site, uniform draws around the acceptance threshold' % c.pick(3, 4)
    for n in range(1, c.pick(4, 5)):
        for scale in (1., 6.):
            theta, calc_e, E = model(c, cls, n, scale)
            th0 = theta.copy()
            samp = make(cls, n, theta, calc_e, FixedRng(.5))
            for s0 in itertools.product(vals, repeat=n):
                s0 = np.array(s0)
                e0 = float(E(s0[None, :])[0])
                for site in range(n):
                    seen = set()
                    for k in ((0, 1) if cls == 'Potts3' else (0,)):
                        # probe the proposal with a draw that always accepts
                        new = None
                        s = s0.copy()
                        samp.rng = FixedRng(0., [k])
                        samp.sample_metropolis(s, calc_e(s0[None, :].copy(), theta), flip_site=site)
                        inp = dict(sampler=cls, theta=theta, state=s0, site=site)
                        c.ok((s != s0).sum() == 1 and s[site] != s0[site], 'a draw of 0 moves exactly the site asked for', got=s, **inp)
                        c.ok(s[site] in vals, 'the new state is legal', got=s, **inp)
                        seen.add(int(s[site]))
                        prop = s.copy()
                        de = float(E(prop[None, :])[0]) - e0
                        for u in uvalues(de):
                            for arr in (True, False):
                                for own in (True, False):
                                    if own != arr and u not in (0., .5):
                                        continue
                                    s = s0.copy()
                                    rng = FixedRng(u, [k])
                                    other = FixedRng(.5 if de <= 0 else (1 - 2.**-53 if u < np.exp(-de) else 0.), [1 - k])
                                    samp.rng = rng if own else other
                                    kw = {} if own else {'rng': rng}
                                    base = calc_e(s0[None, :].copy(), theta)
                                    # the energy change as the sampler computes it, for draws exactly on the threshold
                                    de_code = float(calc_e(prop[None, :].copy(), theta)[0]) - float(base[0])
                                    arg = base if arr else float(base[0])
                                    r = samp.sample_metropolis(s, arg, flip_site=site, **kw)
                                    acc = de_code <= 0 or u <= np.exp(-de_code)
                                    inp = dict(sampler=cls, theta=theta, state=s0, site=site, u=u, energy_change=de)
                                    c.same(s, prop if acc else s0, 'state after %s move' % ('an accepted' if acc else 'a rejected'), **inp)
                                    c.close(np.ravel(r), [de if acc else 0.], 'reported energy change', **inp)
                                    c.ok(float(np.ravel(base)[0]) == float(calc_e(s0[None, :].copy(), theta)[0]), 'the energy given is not changed', **inp)
                                    c.ok(not [a for a in (other if not own else FixedRng(0)).asked], 'the generator given is the one used', **inp)
                    if cls == 'Potts3':
                        c.ok(seen == set(vals) - {int(s0[site])}, 'both other states are proposed', got=sorted(seen), theta=theta, state=s0, site=site)
            c.same(theta, th0, 'parameters unchanged')
            # the site is drawn from all sites
            for s0 in (np.array([vals[0]] * n), np.array([vals[-1]] * n)):
                hit = []
                for k in range(n):
                    samp.rng = FixedRng(0., [k, 0])
                    s = s0.copy()
                    samp.sample_metropolis(s, calc_e(s0[None, :].copy(), theta))
                    a = samp.rng.asked
                    c.ok((s != s0).sum() == 1, 'one site changes', state=s0, got=s)
                    hit.append(int(np.where(s != s0)[0][0]))
                    c.ok(a[0][0] == 'i' and a[0][2] - a[0][1] == n, 'the site is drawn from n values', n=n, got=a)
                c.ok(sorted(hit) == list(range(n)), 'every site can be drawn', n=n, got=hit)
            # a view of a larger array, and another energy function
            big = np.array(list(itertools.product(vals, repeat=n)))
            for order in 'CF':
                B = np.array(big, order=order)
                B0 = B.copy()
                samp.rng = FixedRng(0., [0] * 9)
                e0 = calc_e(B0[1:2].copy(), theta)
                samp.sample_metropolis(B[1], e0, flip_site=n - 1)
                B1 = B0.copy()
                B1[1, n - 1] = B[1, n - 1]
                c.ok(B[1, n - 1] != B0[1, n - 1], 'a row is updated in place')
                c.same(B, B1, 'the other rows are left alone')
            seen = []

            def other_e(X, th):
                seen.append((X.copy(), th))
                return calc_e(X, th * 0) + 3.
            s = big[0].copy()
            samp.rng = FixedRng(.9999, [0])
            r = samp.sample_metropolis(s, np.array([3.]), flip_site=0, calc_e=other_e)
            c.ok(len(seen) == 1 and np.array_equal(seen[0][0][0], s) and s[0] != big[0][0], 'the energy function given is the one used', state=big[0], got=s)
            c.close(np.ravel(r), [0.], 'energy change of a flat model')


@case('Metropolis steps')
def met(c):
    steps(c, 'Metropolis')


@case('Potts3 steps')
def pot(c):
    steps(c, 'Potts3')


@case('jit steps')
def jitted(c):
    c.bound = 'all states of 1..%d spins, every site' % c.pick(3, 5)
    for n in range(1, c.pick(4, 6)):
        for scale in (1., 4.):
            th, calc_e, E = model(c, 'Metropolis', n, scale)
            h, J = th[:n].copy(), np.zeros((n, n))
            for q, (i, j) in enumerate(orc.pairs(n)):
                J[i, j] = J[j, i] = th[n + q]
            h0, J0 = h.copy(), J.copy()
            for s0 in itertools.product((-1, 1), repeat=n):
                s0 = np.array(s0)
                for k in range(n):
                    s1 = s0.copy()
                    s1[k] *= -1
                    de = float(E(s1[None, :])[0] - E(s0[None, :])[0])
                    for u in (0., .25, 1 - 2.**-53, np.exp(-de) * .999, np.exp(-de) * 1.001):
                        if not 0 <= u < 1:
                            continue
                        s = s0.copy()
                        r = S._jit_sample_metropolis(s, h, J, k, FixedRng(u))
                        acc = de <= 0 or u <= np.exp(-de)
                        inp = dict(h=h, J=J, state=s0, site=k, u=u, energy_change=de)
                        c.same(s, s1 if acc else s0, 'state after the step', **inp)
                        c.close(r, de if acc else 0., 'reported energy change', **inp)
            c.same(h, h0, 'fields unchanged')
            c.same(J, J0, 'couplings unchanged')


def transitions(c, X, n, vals, E, systematic, what, **inp):
    """A chain sampled after every move: only single-site moves, accepted at the Metropolis rate."""
    d = X[1:] != X[:-1]
    c.ok(d.sum(1).max() <= 1, '%s: a move changes one site at most' % what, got=X[:-1][d.sum(1) > 1][:3], **inp)
    for v in np.unique(X):
        c.ok(v in vals, '%s: legal states' % what, got=v, **inp)
    T = len(X) - 1
    idx = sum((np.searchsorted(vals, X[:, i]) * len(vals)**i for i in range(n)), np.zeros(len(X), dtype=int))
    K = len(vals)
    states = [np.array([vals[(q // K**i) % K] for i in range(n)]) for q in range(K**n)]
    en = np.array([float(E(s[None, :])[0]) for s in states])
    if systematic:
        moved = [np.where(d[:, i])[0] % n for i in range(n)]
        sites = {}
        for i in range(n):
            ph = set((moved[i] - i) % n)
            c.ok(len(ph) <= 1, '%s: sites in increasing order' % what, site=i, got=sorted(ph), **inp)
            sites[i] = ph
        ph = set().union(*sites.values()) or {0}
        c.ok(len(ph) == 1, '%s: every site in its turn' % what, got=sorted(ph), **inp)
        ph = ph.pop()
    for q, s in enumerate(states):
        for i in range(n):
            at = np.where(idx[:-1] == q)[0]
            if systematic:
                at = at[(at - ph) % n == i]
            m = len(at)
            if m < 30:
                continue
            for v in vals:
                if v == s[i]:
                    continue
                q2 = q + (vals.index(v) - vals.index(int(s[i]))) * K**i
                p = min(1., np.exp(-(en[q2] - en[q]))) / (K - 1) / (1 if systematic else n)
                k = int((idx[at + 1] == q2).sum())
                sd = np.sqrt(max(m * p * (1 - p), 1e-12))
                c.ok(abs(k - m * p) <= 6 * sd + (.5 if p in (0., 1.) else 3), '%s: moves accepted at the Metropolis rate' % what, got=k / m, want=p,
                     state=s, site=i, new_value=v, times=m, **inp)


def ext():
    from coniii import samplers_ext
    return samplers_ext


def compiled(c, name, systematic):
    vals = (0, 1, 2) if name == 'BoostPotts3' else (-1, 1)
    N = c.pick(60000, 600000)
    c.bound = 'models of 1..3 spins, %d moves each' % N
    for n in (1, 2, 3):
        for scale in (.7, 2.):
            th, _, E = model(c, 'Potts3' if name == 'BoostPotts3' else 'Metropolis', n, scale)
            b = getattr(ext(), name)(n, th, int(c.rng.randint(2**31 - 1)))
            b.generate_sample(N, 5, 1, systematic)
            X = np.array(b.fetch_sample()).astype(int)
            c.ok(X.shape == (N, n), 'shape of the sample', got=X.shape)
            transitions(c, X, n, vals, E, systematic, name, theta=th)


@case('compiled Ising, sites in turn')
def ci1(c):
    compiled(c, 'BoostIsing', True)


@case('compiled Ising, random sites')
def ci2(c):
    compiled(c, 'BoostIsing', False)


@case('compiled Potts, sites in turn')
def cp1(c):
    compiled(c, 'BoostPotts3', True)


@case('compiled Potts, random sites')
def cp2(c):
    compiled(c, 'BoostPotts3', False)


@case('compiled samplers, larger models')
def larger(c):
    """Deterministic limits: with very large couplings only the moves that lower the energy are ever accepted, so every canonical
    position of the couplings matters; with zero parameters every move is accepted."""
    c.bound = 'sizes 2..%d' % c.pick(7, 12)
    for name, K, cls in (('BoostIsing', 2, 'Metropolis'), ('BoostPotts3', 3, 'Potts3')):
        for n in range(2, c.pick(8, 13)):
            th, _, E = model(c, cls, n, 300.)
            # couplings that are exactly zero (sparse models, and no couplings at all)
            for keep in (.5, 0.):
                sp = th.copy()
                nf = n if K == 2 else 3 * n
                sp[nf:] *= c.rng.rand(len(th) - nf) < keep
                if keep and n > 2:
                    sp[nf] = 0
                    sp[-1] = th[-1]
                Es = (lambda X, sp=sp: orc.energy(X, sp, lambda s: orc.ising_obs(s, 2))) if K == 2 else (lambda X, sp=sp: orc.energy(X, sp, lambda s: orc.potts_obs(s, 3)))
                b = getattr(ext(), name)(n, sp, int(c.rng.randint(2**31 - 1)))
                b.generate_sample(400, 1, 1, False)
                X = np.array(b.fetch_sample()).astype(int)
                e = np.array([float(Es(x[None, :])[0]) for x in X])
                c.ok(np.all(np.diff(e) <= 40.), '%s: no uphill move at low temperature, sparse model' % name, theta=sp, got=float(np.diff(e).max()),
                     states=X[np.argmax(np.diff(e)):][:2])
            for sysit in (False, True):
                b = getattr(ext(), name)(n, th, int(c.rng.randint(2**31 - 1)))
                b.generate_sample(400, 1, 1, sysit)
                X = np.array(b.fetch_sample()).astype(int)
                e = np.array([float(E(x[None, :])[0]) for x in X])
                c.ok(np.all(np.diff(e) <= 40.), '%s: no uphill move at low temperature' % name, theta=th, states=X[:2], got=float(np.diff(e).max()))
                # the last state is a local minimum
                x = X[-1]
                for i in range(n):
                    for v in ((-1, 1) if K == 2 else (0, 1, 2)):
                        y = x.copy()
                        y[i] = v
                        c.ok(float(E(y[None, :])[0]) >= e[-1] - 1e-9, '%s: ends in a local minimum' % name, theta=th, state=x, site=i, value=v)
            b = getattr(ext(), name)(n, th * 0, 3)
            b.generate_sample(300, 1, 1, True)
            X = np.array(b.fetch_sample()).astype(int)
            c.ok(np.all((X[1:] != X[:-1]).sum(1) == 1), '%s: every move of a flat model is accepted' % name, n=n)


@case('Python chains')
def chains(c):
    N = c.pick(4000, 40000)
    c.bound = '%d moves of 2-spin models' % N
    for cls, vals in (('Metropolis', (-1, 1)), ('Potts3', (0, 1, 2))):
        n = 2
        th, calc_e, E = model(c, cls, n, 1.)
        for sysit in (False, True):
            samp = make(cls, n, th, calc_e, np.random.RandomState(int(c.rng.randint(2**31 - 1))))
            s = np.array([vals[0]] * n)
            e = calc_e(s[None, :].copy(), th)
            X = [s.copy()]
            for t in range(N):
                e = e + samp.sample_metropolis(s, e, **({'flip_site': t % n} if sysit else {}))
                X.append(s.copy())
            c.close(np.ravel(e), E(s[None, :]), 'energies add up along the chain', tol=1e-6)
            transitions(c, np.array(X), n, vals, E, sysit, cls + ' in Python', theta=th)

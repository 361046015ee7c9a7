"""C09: every Metropolis move is a correct single-site update."""
import json
import os
from pyvc.units import unit
from pyvc import terms as T
from pyvc import smt
from pyvc.terms import P, ZERO, ONE
from pyvc.lib import pidx, tri, Native, RngVal
from pyvc.exec import Obj, Clo, BMeth
from props.cpp_common import CPP, cpp, unit_rng, cpp_object, colour, spin
S = 'coniii/samplers.py'


def scalar(ex, v):
    """A number, or the single element of an array."""
    if isinstance(v, (T.Poly, T.Bool)):
        return P(v)
    c = ex.content(v)
    return c.read(ex, tuple(ZERO for _ in c.shape))


def metropolis(u, cls, label, given_site, given_rng, array_e, given_calc):
    """Contract of sample_metropolis: what it proposes, when it accepts, what it reports and what it leaves alone."""
    potts = cls == 'Potts3'
    ex = u.ex(label)
    n = T.var('n')
    u.requires(ex, n >= 1)
    env = ex.load(S)
    s = ex.sym_array('s', (n,), 'int', colour if potts else spin)
    s0 = ex.content(s)
    k = T.var('site')
    u.requires(ex, T.le(ZERO, k), T.lt(k, n))
    theta = ex.sym_array('theta', (T.var('m'),), 'real')
    theta0 = ex.content(theta)
    e1 = T.var('E1', 'real')
    e0 = T.var('E0', 'real')
    calls = []

    def energy(ex, state, th):
        c = ex.content(state)
        calls.append((c, th))
        if len(c.shape) != 2:
            ex.oblige('the energy function gets an array of states', T.FALSE, 'pre')
        ex.oblige('the energy function gets one state of n spins', T.And(T.eq(c.shape[0], ONE), T.eq(c.shape[1], n)), 'pre')
        ex.oblige('the energy function gets the parameters of the model', T.TRUE if th == theta else T.FALSE, 'pre')
        return ex.const_array((ONE,), e1, 'real')
    calc, other = Native(energy, 'calc_e'), Native(lambda ex, *a: _wrong(ex), 'wrong calc_e')

    def _wrong(ex):
        ex.oblige('the energy function that was asked for is used', T.FALSE, 'pre')
        return ex.const_array((ONE,), ZERO, 'real')
    own, foreign = RngVal('own'), RngVal('given')
    obj = ex.alloc(Obj(env[cls], dict(n=n, theta=theta, calc_e=other if given_calc else calc, rng=own)))
    kw = {}
    if given_site:
        kw['flip_site'] = k
    if given_rng:
        kw['rng'] = foreign
    if given_calc:
        kw['calc_e'] = calc
    e0arg = ex.const_array((ONE,), e0, 'real') if array_e else e0
    f = env[cls].lookup('sample_metropolis')[0].bind(obj)
    for ret in u.paths(ex, f, [s, e0arg], kw):
        src = 'given' if given_rng else 'own'
        ex.oblige('every draw comes from the generator in use', T.TRUE if all(d[1] == src for d in ex.draws) else T.FALSE, 'post')
        unif = [d[2] for d in ex.draws if d[0] == 'rand']
        ints = [d for d in ex.draws if d[0] == 'randint']
        ex.oblige('one uniform draw decides', T.TRUE if len(unif) == 1 and unif[0] is not None else T.FALSE, 'post')
        want = (0 if given_site else 1) + (1 if potts else 0)
        ex.oblige('one draw for the site if it is not given%s' % (', one for the new state' if potts else ''), T.TRUE if len(ints) == want else T.FALSE, 'post')
        if len(unif) != 1 or len(ints) != want:
            return
        if not given_site:
            site = ints[0][2]
            ex.oblige('the site is drawn from all n sites', T.And(T.eq(ints[0][3], ZERO), T.eq(ints[0][4], n)), 'post')
        else:
            site = k
        unit_draw = unif[0]
        ex.oblige('the energy is asked once', T.TRUE if len(calls) == 1 else T.FALSE, 'post')
        prop, th = calls[0]
        old = s0.read(ex, (site,))
        new = prop.read(ex, (ZERO, site))
        p = T.var('p')
        with ex.assume(T.le(ZERO, p), T.lt(p, n), T.ne0(p - site)):
            u.eq(ex, 'the proposal differs in one site only', prop.read(ex, (ZERO, p)), s0.read(ex, (p,)))
        if potts:
            d, lo, hi = ints[-1][2:5]
            ex.oblige('the proposed state differs from the old one', T.ne0(new - old), 'post')
            ex.oblige('the proposed state is a legal state', colour(new), 'post')
            ex.oblige('two draws for the two other states', T.eq(hi - lo, P(2)), 'post')
            nn = [T.subst(new, {d.as_atom(): lo + j}) for j in (0, 1)]
            ex.oblige('every other state can be proposed', T.ne0(nn[0] - nn[1]), 'post')
        else:
            u.eq(ex, 'the proposal is the flipped spin', new, -old)
        de = e1 - e0
        acc = T.Or(T.le(de, ZERO), T.le(unit_draw, T.fexp(-de)))
        now = ex.content(s)
        u.eq(ex, 'new value exactly when the move is accepted, the old one otherwise', now.read(ex, (site,)), T.ite(acc, new, old))
        with ex.assume(T.le(ZERO, p), T.lt(p, n), T.ne0(p - site)):
            u.eq(ex, 'every other spin is left alone', now.read(ex, (p,)), s0.read(ex, (p,)))
        u.eq(ex, 'reports the energy change of what it did', scalar(ex, ret), T.ite(acc, de, ZERO))
        u.unchanged(ex, 'parameters unchanged', theta, theta0)
        if array_e:
            u.eq(ex, 'the caller\'s energy is not touched', scalar(ex, e0arg), e0)


for _cls in ('Metropolis', 'Potts3'):
    def _mk(cls):
        @unit('%s.sample_metropolis' % cls, [S + ':%s.sample_metropolis' % cls])
        def go(u):
            for site in (False, True):
                for rng in (False, True):
                    for arr in (False, True):
                        metropolis(u, cls, '%s site, %s generator, energy as %s' % ('given' if site else 'drawn', 'given' if rng else 'own', 'array' if arr else 'number'), site, rng, arr, False)
            metropolis(u, cls, 'given energy function', True, False, True, True)
    _mk(_cls)


@unit('_jit_sample_metropolis', [S + ':_jit_sample_metropolis'])
def jitm(u):
    ex = u.ex()
    n, k = T.var('n'), T.var('site')
    u.requires(ex, n >= 1, T.le(ZERO, k), T.lt(k, n))
    s = ex.sym_array('s', (n,), 'int', spin)
    s0 = ex.content(s)
    h = ex.sym_array('h', (n,), 'real')
    h0 = ex.content(h)

    def base(co):
        a, b = co
        return T.app('J', (T.ite(T.le(a, b), a, b), T.ite(T.le(a, b), b, a)), 'real')
    smt.add_fun_fact('J', lambda a, b: T.Implies(T.eq(a, b), T.eq(T.app('J', (a, b), 'real'), ZERO)))
    J = ex.new_array((n, n), 'real', base)
    J0 = ex.content(J)
    f = u.fn(ex, S, '_jit_sample_metropolis')
    # energy change of flipping site k: -sum_i h_i s_i - sum_{i<j} J_ij s_i s_j after minus before (see the lemma)
    de = s0.read(ex, (k,)).scale(2) * (h0.read(ex, (k,)) + ex.sum(ZERO, n, lambda j: J0.read(ex, (k, j)) * s0.read(ex, (j,))))
    for ret in u.paths(ex, f, [s, h, J, k, RngVal('given')]):
        unif = [d for d in ex.draws if d[0] == 'rand']
        ex.oblige('one uniform draw decides', T.TRUE if len(ex.draws) == len(unif) == 1 and unif[0][1] == 'given' else T.FALSE, 'post')
        if len(unif) != 1:
            return
        ex.st.facts.append(T.le(ONE - de, T.fexp(-de)))     # exp(x) >= 1 + x: at de == 0 every draw accepts
        acc = T.Or(T.le(de, ZERO), T.le(unif[0][2], T.fexp(-de)))
        now = ex.content(s)
        p = T.var('p')
        old = s0.read(ex, (k,))
        got = now.read(ex, (k,))
        u.eq(ex, 'flipped exactly when the move is accepted', got, T.ite(acc, -old, old))
        with ex.assume(T.le(ZERO, p), T.lt(p, n), T.ne0(p - k)):
            u.eq(ex, 'every other spin is left alone', now.read(ex, (p,)), s0.read(ex, (p,)))
        u.eq(ex, 'reports the energy change of what it did', scalar(ex, ret), T.ite(acc, de, ZERO))
        u.unchanged(ex, 'fields unchanged', h, h0)
        u.unchanged(ex, 'couplings unchanged', J, J0)


def used_de(u, ex, t, de):
    """The energy change whose exponential decides the move (the only exponential in the new spin value), proved equal to the model's."""
    es = set(a for x in [t] + list(ex.st.facts) for a in T.all_atoms(x, under_binders=False) if a.kind == 'f' and a.args[0] == 'exp')
    if len(es) != 1:
        ex.st.facts.append(T.le(ONE - de, T.fexp(-de)))     # exp(x) >= 1 + x
        return de
    used = -es.pop().args[1][0]
    u.eq(ex, 'the energy change that decides is the model\'s', used, de)
    ex.st.facts.append(T.le(ONE - used, T.fexp(-used)))
    return used


def cpp_metropolis(u, cls):
    potts = cls == 'Potts3'
    ex = u.ex()
    n, k = T.var('n'), T.var('site')
    u.requires(ex, n >= 1, T.le(ZERO, k), T.lt(k, n))
    env, obj, th, t0, C, c0 = cpp_object(u, ex, cls, n)
    s = ex.sym_array('s', (n,), 'int', colour if potts else spin)
    s0 = ex.content(s)
    f = env[cls].lookup('sample_metropolis')[0].bind(obj)
    for ret in u.paths(ex, f, [s, k]):
        ex.oblige('every draw comes from the object\'s generator', T.TRUE if all(d[1] == 'own' for d in ex.draws) else T.FALSE, 'post')
        unif = [d for d in ex.draws if d[0] == 'rand']
        ints = [d for d in ex.draws if d[0] == 'randint']
        ok = len(unif) == 1 and len(ints) == (1 if potts else 0)
        ex.oblige('one uniform draw decides%s' % (', one draw for the new state' if potts else ''), T.TRUE if ok else T.FALSE, 'post')
        if not ok:
            return
        old = s0.read(ex, (k,))
        if potts:
            d, lo, hi = ints[0][2:5]
            # the state proposed for this draw: what the spin is when the move is accepted
            ex.oblige('two draws for the two other states', T.eq(hi - lo, P(2)), 'post')
            d1 = T.fmod(old + 1, P(3))
            d2 = T.fmod(old + 2, P(3))
            new = T.ite(T.eq(d, lo), d1, d2)
            if not ex.prove(T.Implies(T.ne0(ex.content(s).read(ex, (k,)) - old), T.eq(ex.content(s).read(ex, (k,)), new))):
                new = T.ite(T.eq(d, lo), d2, d1)
            de = (t0.read(ex, (n * old + k,)) - t0.read(ex, (n * new + k,))
                  + ex.sum(ZERO, n, lambda j: c0.read(ex, (k, j)) * (T.ind(T.eq(s0.read(ex, (j,)), old)) - T.ind(T.eq(s0.read(ex, (j,)), new)))))
        else:
            new = -old
            de = old.scale(2) * (t0.read(ex, (k,)) + ex.sum(ZERO, n, lambda j: c0.read(ex, (k, j)) * s0.read(ex, (j,))))
        de = used_de(u, ex, ex.content(s).read(ex, (k,)), de)
        acc = T.Or(T.le(de, ZERO), T.le(unif[0][2], T.fexp(-de)))
        now = ex.content(s)
        p = T.var('p')
        u.eq(ex, 'new value exactly when the move is accepted, the old one otherwise', now.read(ex, (k,)), T.ite(acc, new, old))
        with ex.assume(T.le(ZERO, p), T.lt(p, n), T.ne0(p - k)):
            u.eq(ex, 'every other spin is left alone', now.read(ex, (p,)), s0.read(ex, (p,)))
        u.eq(ex, 'reports the energy change of what it did', scalar(ex, ret), T.ite(acc, de, ZERO))
        u.unchanged(ex, 'multipliers unchanged', th, t0)
        u.unchanged(ex, 'couplings unchanged', C, c0)


for _c in ('Ising', 'Potts3'):
    def _mk2(cls):
        @unit('C++ %s::sample_metropolis' % cls, [CPP + ':%s::sample_metropolis' % cls])
        def go(u):
            cpp_metropolis(u, cls)
    _mk2(_c)


@unit('C++ Ising::calc_e', [CPP + ':Ising::calc_e'])
def cpp_e(u):
    ex = u.ex()
    n = T.var('n')
    u.requires(ex, n >= 1)
    env, obj, th, t0, C, c0 = cpp_object(u, ex, 'Ising', n)
    s = ex.sym_array('s', (n,), 'int')
    s0 = ex.content(s)
    e = u.call(ex, env['Ising'].lookup('calc_e')[0].bind(obj), [s])
    x = lambda i: s0.read(ex, (i,))
    want = -ex.sum(ZERO, n, lambda i: t0.read(ex, (i,)) * x(i)) - ex.sum(ZERO, n, lambda i: ex.sum(i + 1, n, lambda j: t0.read(ex, (n + pidx(n, i, j),)) * x(i) * x(j)))
    u.eq(ex, 'minus fields.spins minus couplings.pairs', scalar(ex, e), want)
    u.unchanged(ex, 'state unchanged', s, s0)


@unit('C++ Potts3::calc_e', [CPP + ':Potts3::calc_e'])
def cpp_pe(u):
    ex = u.ex()
    n = T.var('n')
    u.requires(ex, n >= 1)
    env, obj, th, t0, C, c0 = cpp_object(u, ex, 'Potts3', n)
    s = ex.sym_array('s', (n,), 'int', colour)
    s0 = ex.content(s)
    e = u.call(ex, env['Potts3'].lookup('calc_e')[0].bind(obj), [s])
    x = lambda i: s0.read(ex, (i,))
    want = (-ex.sum(ZERO, n, lambda i: sum((T.ind(T.eq(x(i), P(v))) * t0.read(ex, (n.scale(v) + i,)) for v in range(3)), ZERO))
            - ex.sum(ZERO, n, lambda i: ex.sum(i + 1, n, lambda j: t0.read(ex, (n.scale(3) + pidx(n, i, j),)) * T.ind(T.eq(x(i), x(j))))))
    u.eq(ex, 'minus the field of each state minus the couplings of equal pairs', scalar(ex, e), want)
    u.unchanged(ex, 'state unchanged', s, s0)


for _c in ('Ising', 'Potts3'):
    def _mk3(cls):
        @unit('C++ %s constructor' % cls, [CPP + ':%s::%s' % (cls, cls), CPP + ':%s::readin_multipliers' % cls, CPP + ':Sampler::Sampler'])
        def go(u):
            for form in ('nd',) if cls == 'Potts3' else ('nd', 'vec'):
                ex = u.ex(form)
                n = T.var('n')
                u.requires(ex, n >= 1)
                k = 3 if cls == 'Potts3' else 1
                th = ex.sym_array('theta', (n.scale(k) + tri(n),), 'real')
                t0 = ex.content(th)
                seed = T.var('seed')
                u.requires(ex, T.le(ZERO, seed))
                if form == 'nd':
                    ex.foreign = {th}        # any layout and number type that numpy can convert
                env = cpp(u, ex)
                obj = ex.alloc(Obj(env[cls], {}))
                I, J = T.var('I'), T.var('J')
                ex.hints.append((I, J))
                u.call(ex, env[cls].lookup('%s__int_%s_int' % (cls, form))[0].bind(obj), [n, th, seed])
                m = ex.getattr(obj, 'multipliers')
                C = ex.getattr(obj, 'couplingMat')
                q = u.idx(ex, 'q', 0, n.scale(k) + tri(n))
                ex.oblige('size', T.eq(ex.getattr(obj, 'n'), n), 'post')
                u.shape(ex, 'one multiplier per parameter', m, [n.scale(k) + tri(n)])
                u.elem(ex, 'multipliers are the parameters', m, [q], t0.read(ex, (q,)))
                u.shape(ex, 'coupling matrix', C, [n, n])
                i = u.idx(ex, 'i', 0, n)
                u.elem(ex, 'zero diagonal', C, [i, i], ZERO)
                ex.st.facts += [I >= 0, I < J, J < n]
                u.elem(ex, 'coupling above the diagonal', C, [I, J], t0.read(ex, (n.scale(k) + pidx(n, I, J),)))
                u.elem(ex, 'coupling below the diagonal', C, [J, I], t0.read(ex, (n.scale(k) + pidx(n, I, J),)))
                rd = ex.getattr(obj, 'rd')
                ex.oblige('the generator is seeded with the given seed', T.TRUE if isinstance(rd, RngVal) and isinstance(rd.src, tuple) and rd.src[1] is seed else T.FALSE, 'post')
                ur = ex.getattr(obj, 'unitrng')
                ex.oblige('uniform draws are from [0, 1)', T.And(T.eq(ex.getattr(ur, 'a'), ZERO), T.eq(ex.getattr(ur, 'b'), ONE)), 'post')
                if cls == 'Potts3':
                    sr = ex.getattr(obj, 'staterng')
                    ex.oblige('the increment of a Potts state is 1 or 2', T.And(T.eq(ex.getattr(sr, 'a'), ONE), T.eq(ex.getattr(sr, 'b'), P(2))), 'post')
                u.unchanged(ex, 'parameters unchanged', th, t0)
    _mk3(_c)


@unit('lemma: the energy change of one site', [])
def flip_lemma(u):
    """The pair part of any energy is a sum over i<j of a term that depends on the two spins; changing spin k changes the terms of the
    pairs with k only.  With v(j) the change of the (symmetric) term of the pair {k, j}, the total change is the sum of v over the other
    spins: the single-site formulas of _jit_sample_metropolis, Ising::sample_metropolis and Potts3::sample_metropolis are the energy
    after minus the energy before (calc_e contracts)."""
    from pyvc import sums
    ex = u.ex()
    k, m = T.var('k'), T.var('m')
    u.requires(ex, k >= 0)
    v = lambda j: T.app('v', (j,), 'real')

    def diff(n):
        pairs = ex.sum(ZERO, n, lambda i: ex.sum(i + 1, n, lambda j: T.ind(T.eq(i, k)) * v(j) + T.ind(T.eq(j, k)) * v(i)))
        # guarded for k < n; for smaller n there is no pair with k
        return pairs - T.ind(T.lt(k, n)) * ex.sum(ZERO, n, lambda j: v(j) * (ONE - T.ind(T.eq(j, k))))
    sums.induct(ex, 'sum over pairs of the changed terms', diff)
    # instances: the changes of the Ising and Potts pair terms have this form
    a, b, c = T.var('a', 'real'), T.var('b', 'real'), T.var('c', 'real')
    u.eq(ex, 'Ising: c x\'_k x_j - c x_k x_j with x\'_k = -x_k', c * (-a) * b - c * a * b, -(c * a * b).scale(2))

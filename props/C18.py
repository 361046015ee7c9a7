"""C18: the Wolff cluster sampler, bond and cluster helpers, energies of vector spins."""
import itertools
import os
from pyvc.units import unit
from pyvc import terms as T
from pyvc import deriv
from pyvc.terms import P, ZERO, ONE
from pyvc.lib import pidx, tri, Native, RngVal
from pyvc.exec import Obj, Lst, Dct
S = 'coniii/samplers.py'
DEEP = os.environ.get('PYVC_TIER') == 'thorough'
spin = lambda v: T.Or(T.eq(v, ONE), T.eq(v, P(-1)))


@unit('neighbours joined by a bond', [S + ':iterate_neighbors'])
def _(u):
    u.notes.append('bounded: up to 4 sites (5 in the thorough tier); any marks, weights and draws')
    for n in range(1, 6 if DEEP else 5):
        ex = u.ex('%d sites' % n)
        marked = ex.new_array((P(n),), 'bool', lambda co: T.Or(*[T.And(T.eq(co[0], P(i)), T.eq(T.var('mark%d' % i), ONE)) for i in range(n)]))
        w = ex.sym_array('w', (P(n),), 'real')
        r = ex.sym_array('r', (P(n),), 'real')
        wc, rc = ex.content(w), ex.content(r)
        for ret in u.paths(ex, u.fn(ex, S, 'iterate_neighbors'), [P(n), marked, w, r]):
            joins = [T.And(T.ne0(T.var('mark%d' % i) - 1), T.lt(rc.read(ex, (P(i),)), ONE - wc.read(ex, (P(i),)))) for i in range(n)]
            c = ex.content(ret)
            count = sum((T.ite(j, ONE, ZERO) for j in joins), ZERO)
            u.eq(ex, 'as many as pass their own draw', c.shape[0], count)
            for i in range(n):
                at = sum((T.ite(j, ONE, ZERO) for j in joins[:i]), ZERO)
                with ex.assume(joins[i]):
                    u.eq(ex, 'in order, at its rank', c.read(ex, (at,)), P(i))


def sampler(ex, n, J=None, h=None, **kw):
    env = ex.load(S)
    return env['WolffIsing'], ex.alloc(Obj(env['WolffIsing'], dict(n=n, J=J, h=h, rng=RngVal('own'), **kw)))


def method(ex, cls, obj, name):
    return cls.lookup(name)[0].bind(obj)


@unit('neighbours of a site', [S + ':WolffIsing.find_neighbors'])
def _(u):
    """Any number of sites; up to three marked sites and up to two new ones, all at arbitrary positions."""
    u.notes.append('lists of marked and new sites of up to 3 and 2 entries; any number of sites')
    for m in (1, 2, 3):
        for k in (0, 1, 2):
            ex = u.ex('%d marked, %d new' % (m, k))
            n = T.var('n')
            u.requires(ex, n >= 1)
            W = ex.sym_array('W', (n, n), 'real')
            wc = ex.content(W)
            cls, obj = sampler(ex, n, expdJ=W)
            s = ex.sym_array('s', (n,), 'real', spin)
            s0 = ex.content(s)
            at = [T.var('a%d' % i) for i in range(m)]
            new = [T.var('b%d' % i) for i in range(k)]
            site = T.var('site')
            u.requires(ex, *[T.And(T.le(ZERO, a), T.lt(a, n)) for a in at + new + [site]])
            seen = []

            def joined(ex, f, args, kw):
                nn, marks, w, r = args
                u.eq(ex, 'all sites are looked at', nn, n)
                q = u.idx(ex, 'q', ZERO, n)
                mc, wq, rq = ex.content(marks), ex.content(w), ex.content(r)
                u.eq(ex, 'one mark per site', mc.shape[0], n)
                u.eq(ex, 'one draw per site', rq.shape[0], n)
                is_marked = T.Or(T.eq(q, site), *[T.eq(q, a) for a in at])
                got = mc.read(ex, (q,))
                u.holds(ex, 'exactly the marked sites and the site itself are left out', T.And(T.Or(T.Not(is_marked), got if isinstance(got, T.Bool) else T.ne0(got)), T.Or(is_marked, T.Not(got if isinstance(got, T.Bool) else T.ne0(got)))))
                u.eq(ex, 'weights of the bonds of the site', wq.read(ex, (q,)), wc.read(ex, (q, site)))
                draws = [d for d in ex.draws if d[0] == 'rand']
                u.holds(ex, 'fresh draws of the generator in use', T.TRUE if len(draws) == 1 and draws[0][1] == 'own' else T.FALSE)
                seen.append(1)
                return ex.list_array(new) if hasattr(ex, 'list_array') else ex.new_array((P(len(new)),), 'int', lambda co: ex.pick(new, co[0]) if new else ZERO)
            ex.contracts[(S, 'iterate_neighbors')] = joined
            marked = ex.alloc(Lst(list(at)))
            for ret in u.paths(ex, method(ex, cls, obj, 'find_neighbors'), [s, site, marked]):
                u.holds(ex, 'one look', T.TRUE if len(seen) >= 1 else T.FALSE)
                got, now = ex.sequence(ret), ex.sequence(marked)
                u.holds(ex, 'as many as joined', T.TRUE if len(got) == k and len(now) == m + k else T.FALSE)
                for g, w in zip(got, new):
                    u.eq(ex, 'returns those that joined', g, w)
                for g, w in zip(now, at + new):
                    u.eq(ex, 'marks those that joined', g, w)
                u.unchanged(ex, 'state', s, s0)


def growths(n, start):
    """every way a cluster can grow: list of (site explored, sites marked then, sites that join)"""
    def go(queue, marked, log):
        if not queue:
            yield tuple(log), tuple(marked)
            return
        site, rest = queue[0], queue[1:]
        free = [i for i in range(n) if i not in marked]
        for k in range(len(free) + 1):
            for new in itertools.combinations(free, k):
                yield from go(rest + list(new), marked + list(new), log + [(site, tuple(marked), new)])
    yield from go([start], [start], [])


@unit('growing a cluster', [S + ':WolffIsing.build_cluster'])
def _(u):
    u.notes.append('bounded: up to 3 sites (4 in the thorough tier), every way a cluster can grow')
    for n in range(1, 5 if DEEP else 4):
        for start in range(n):
            for log, cluster in growths(n, start):
                ex = u.ex('%d sites from %d: %s' % (n, start, log))
                cls, obj = sampler(ex, P(n))
                s = ex.sym_array('s', (P(n),), 'real', spin)
                calls = []

                def found(ex, f, args, kw):
                    state, site, marked = args[-3:]
                    k = len(calls)
                    if k >= len(log):
                        u.holds(ex, 'every site is explored once', T.FALSE)
                        return ex.alloc(Lst([]))
                    u.holds(ex, 'the state', T.TRUE if state == s else T.FALSE)
                    u.eq(ex, 'sites are explored in the order in which they joined', site, P(log[k][0]))
                    have = ex.sequence(marked)
                    u.holds(ex, 'all sites of the cluster are marked', T.TRUE if len(have) == len(log[k][1]) and all((P(a) - b) is ZERO or P(a) == P(b) for a, b in zip(have, log[k][1])) else T.FALSE)
                    calls.append(site)
                    ex.st.heap[marked.id] = Lst(have + [P(i) for i in log[k][2]])
                    return ex.alloc(Lst([P(i) for i in log[k][2]]))
                ex.contracts[(S, 'WolffIsing.find_neighbors')] = found
                ex.contracts[(S, 'find_neighbors')] = found
                for ret in u.paths(ex, method(ex, cls, obj, 'build_cluster'), [s, P(start)]):
                    u.holds(ex, 'every site is explored', T.TRUE if len(calls) == len(log) else T.FALSE)
                    got = ex.sequence(ret)
                    u.holds(ex, 'the cluster: the start and all that joined', T.TRUE if [int(P(g).const()) for g in got] == list(cluster) else T.FALSE)


@unit('one Wolff step', [S + ':WolffIsing.one_step'])
def _(u):
    u.notes.append('clusters of up to 3 sites at arbitrary positions; any number of sites')
    for m in (1, 2, 3):
        for given in (False, True):
            ex = u.ex('cluster of %d, start %s' % (m, 'given' if given else 'drawn'))
            n = T.var('n')
            u.requires(ex, n >= 1)
            J = ex.sym_array('J', (n, n), 'real')
            h = ex.sym_array('h', (n,), 'real')
            jc, hc = ex.content(J), ex.content(h)
            cls, obj = sampler(ex, n, J=J, h=h)
            s = ex.sym_array('s', (n,), 'real', spin)
            s0 = ex.content(s)
            at = [T.var('a%d' % i) for i in range(m)]
            u.requires(ex, *[T.And(T.le(ZERO, a), T.lt(a, n)) for a in at])
            u.requires(ex, *[T.ne0(a - b) for a, b in itertools.combinations(at, 2)])
            site = T.var('site')
            u.requires(ex, T.le(ONE, site), T.lt(site, n))
            seen = []

            def grown(ex, f, args, kw):
                state, start = args[-2:]
                u.holds(ex, 'grows in the state given', T.TRUE if state == s else T.FALSE)
                c = ex.content(s)
                q, p = u.idx(ex, 'q', ZERO, n), u.idx(ex, 'p', ZERO, n)
                u.eq(ex, 'before anything is flipped', c.read(ex, (q,)), s0.read(ex, (q,)))
                w = ex.content(ex.getattr(obj, 'expdJ'))
                u.eq(ex, 'weight of a bond', w.read(ex, (q, p)), T.fexp(-2 * jc.read(ex, (q, p)) * s0.read(ex, (q,)) * s0.read(ex, (p,))))
                ints = [d for d in ex.draws if d[0] == 'randint']
                if given:
                    u.eq(ex, 'starts at the site given', start, site)
                else:
                    u.holds(ex, 'one draw for the start', T.TRUE if len(ints) == 1 and ints[0][1] == 'own' else T.FALSE)
                    u.eq(ex, 'starts at the site drawn', start, ints[0][2])
                    u.holds(ex, 'from all sites', T.And(T.eq(ints[0][3], ZERO), T.eq(ints[0][4], n)))
                seen.append(start)
                return ex.alloc(Lst(list(at)))
            ex.contracts[(S, 'WolffIsing.build_cluster')] = grown
            ex.contracts[(S, 'build_cluster')] = grown
            for ret in u.paths(ex, method(ex, cls, obj, 'one_step'), [s] + ([site] if given else [])):
                draws = [d for d in ex.draws if d[0] == 'rand']
                u.holds(ex, 'one cluster, one draw to decide', T.TRUE if len(seen) >= 1 and len(draws) == 1 and draws[0][1] == 'own' else T.FALSE)
                field = sum((hc.read(ex, (a,)) * s0.read(ex, (a,)) for a in at), ZERO)
                flip = T.lt(draws[0][2], T.fexp(-2 * field))
                now = ex.content(s)
                q = u.idx(ex, 'q', ZERO, n)
                inside = T.Or(*[T.eq(q, a) for a in at])
                u.eq(ex, 'the whole cluster and nothing else is turned, exactly when accepted', now.read(ex, (q,)), T.ite(T.And(inside, flip), -s0.read(ex, (q,)), s0.read(ex, (q,))))


def growth_probability(n, s, J, start, members):
    """Probability that the cluster grown from `start` is `members`, by the contracts above: draws are independent and uniform."""
    total = ZERO
    for log, cluster in growths(n, start):
        if set(cluster) != set(members):
            continue
        p = ONE
        for site, marked, new in log:
            for i in range(n):
                if i not in marked:
                    bond = J[tuple(sorted((site, i)))](s[site] * s[i])
                    p = p * (bond if i in new else ONE - bond)
        total = total + p
    return total


@unit('the step is in detailed balance (lemma)', [S + ':WolffIsing.one_step'])
def _(u):
    """Lemma over the contracts of the step: probability of the cluster times the Boltzmann weight is symmetric, for couplings of
    either sign; the acceptance has the ratio of the field terms."""
    u.notes.append('bounded: 2 and 3 sites (4 in the thorough tier), every state, every sign of the couplings')
    for n in (2, 3, 4) if DEEP else (2, 3):
        pairs = list(itertools.combinations(range(n), 2))
        for signs in itertools.product((1, -1), repeat=len(pairs)):
            ex = u.ex('%d sites, couplings %s' % (n, ''.join('+' if q > 0 else '-' for q in signs)))
            j = {p: T.var('J%d%d' % p, 'real') for p in pairs}
            # draws are in [0,1): below 1-exp(-2 J s s') with that probability when it is positive, never otherwise
            bond = {p: (lambda x, q, jj: (ONE - T.fexp(-2 * jj)) if x * q > 0 and q > 0 else (ONE - T.fexp(2 * jj)) if x * q > 0 else ZERO) for p, q in zip(pairs, signs)}
            f = {p: (lambda x, p=p, q=q: bond[p](x, q, j[p])) for p, q in zip(pairs, signs)}
            for s in itertools.product((1, -1), repeat=n):
                for k in range(1, n + 1):
                    for c in itertools.combinations(range(n), k):
                        t = tuple(-v if i in c else v for i, v in enumerate(s))
                        if t < s:
                            continue
                        weight = lambda z: T.fexp(sum((j[p] * (z[p[0]] * z[p[1]]) for p in pairs), ZERO))
                        for start in c:
                            u.eq(ex, 'probability of the move times the weight of the state', growth_probability(n, s, f, start, c) * weight(s), growth_probability(n, t, f, start, c) * weight(t))
    ex = u.ex('field terms')
    b = T.var('b', 'real')
    # probability that a uniform draw is below exp(x): one for x >= 0, exp(x) otherwise
    for name, fact, there, back in (('against the field', T.le(ZERO, b), T.fexp(-2 * b), ONE), ('along the field', T.lt(b, ZERO), ONE, T.fexp(2 * b))):
        with ex.assume(fact):
            u.eq(ex, 'acceptance times weight, ' + name, there * T.fexp(b), back * T.fexp(-b))


@unit('bonds between aligned spins', [S + ':pairwise_prod', S + ':sample_bonds'])
def _(u):
    ex = u.ex('products')
    n = T.var('n')
    u.requires(ex, n >= 1)
    s = ex.sym_array('s', (n,), 'int', spin)
    sc = ex.content(s)
    for ret in u.paths(ex, u.fn(ex, S, 'pairwise_prod'), [s]):
        i = u.idx(ex, 'i', ZERO, n)
        k = u.idx(ex, 'k', i + 1, n)
        u.shape(ex, 'one per pair', ret, (tri(n),))
        ex.hints.append((i, k))
        u.elem(ex, 'product of a pair', ret, (pidx(n, i, k),), sc.read(ex, (i,)) * sc.read(ex, (k,)))
    ex = u.ex('bonds')
    u.requires(ex, n >= 1)
    s = ex.sym_array('s', (n,), 'int', spin)
    sc = ex.content(s)
    J, p, r = (ex.sym_array(x, (tri(n),), 'real') for x in 'Jpr')
    jc, pc, rc = map(ex.content, (J, p, r))
    for ret in u.paths(ex, u.fn(ex, S, 'sample_bonds'), [p, r, s, J]):
        i = u.idx(ex, 'i', ZERO, n)
        k = u.idx(ex, 'k', i + 1, n)
        u.shape(ex, 'one per pair', ret, (tri(n),))
        at = (pidx(n, i, k),)
        ex.hints.append((i, k))
        x = sc.read(ex, (i,)) * sc.read(ex, (k,))
        ok = T.And(T.lt(ZERO, jc.read(ex, at) * x), T.lt(rc.read(ex, at), pc.read(ex, at)))
        u.elem(ex, 'a bond when the coupling is satisfied and the draw allows it', ret, at, T.ite(ok, ONE, ZERO))


def vector_energy(ex, n, th, x):
    """minus the sum of coupling times cosine of the angle between the two vectors"""
    sin, cos = (lambda q: T.app('sin', (q,), 'real')), (lambda q: T.app('cos', (q,), 'real'))
    e = ZERO
    for i in range(n):
        for k in range(i + 1, n):
            ti, pi, tk, pk = x(2 * i), x(2 * i + 1), x(2 * k), x(2 * k + 1)
            dot = sin(ti) * cos(pi) * sin(tk) * cos(pk) + sin(ti) * sin(pi) * sin(tk) * sin(pk) + cos(ti) * cos(tk)
            e = e - th(i * (2 * n - i - 1) // 2 + k - i - 1) * dot
    return e


@unit('energy of vector spins and its gradients', [S + ':calc_e', S + ':grad_e', S + ':grad_e_theta'])
def _(u):
    u.notes.append('bounded: 1 to 4 spins (5 in the thorough tier), any angles and couplings')
    for n in range(1, 6 if DEEP else 5):
        ex = u.ex('%d spins' % n)
        m = n * (n - 1) // 2
        th = ex.sym_array('theta', (P(m),), 'real')
        x = ex.sym_array('x', (P(2 * n),), 'real')
        tc, xc = ex.content(th), ex.content(x)
        want = vector_energy(ex, n, lambda q: tc.read(ex, (P(q),)), lambda q: xc.read(ex, (P(q),)))
        for ret in u.paths(ex, u.fn(ex, S, 'calc_e'), [th, x]):
            u.eq(ex, 'minus couplings times dot products', ret, want)
        for ret in u.paths(ex, u.fn(ex, S, 'grad_e'), [th, x]):
            u.shape(ex, 'one per angle', ret, (P(2 * n),))
            for q in range(2 * n):
                u.elem(ex, 'derivative with respect to an angle', ret, (P(q),), deriv.diff(want, 'x', (P(q),)))
        for ret in u.paths(ex, u.fn(ex, S, 'grad_e_theta'), [th, x]):
            u.shape(ex, 'one per coupling', ret, (P(m),))
            for q in range(m):
                u.elem(ex, 'derivative with respect to a coupling', ret, (P(q),), deriv.diff(want, 'theta', (P(q),)))
        u.unchanged(ex, 'angles', x, xc)
        u.unchanged(ex, 'couplings', th, tc)


@unit('parameters of the cluster sampler', [S + ':WolffIsing.__init__', S + ':WolffIsing.update_parameters'])
def _(u):
    for later in (False, True):
        ex = u.ex('vector' + ', updated' * later)
        n = T.var('n')
        u.requires(ex, n >= 2)
        J, h = ex.sym_array('J', (tri(n),), 'real'), ex.sym_array('h', (n,), 'real')
        jc = ex.content(J)
        cls = ex.load(S)['WolffIsing']
        if later:
            obj = ex.alloc(Obj(cls, dict(n=n, J=T.var('old', 'real'), h=T.var('old', 'real'))))
            go = u.paths(ex, method(ex, cls, obj, 'update_parameters'), [J, h])
        else:
            obj = ex.alloc(Obj(cls, {}))
            go = u.paths(ex, method(ex, cls, obj, '__init__'), [J, h])
        for _ in go:
            i = u.idx(ex, 'i', ZERO, n)
            k = u.idx(ex, 'k', i + 1, n)
            M = ex.getattr(obj, 'J')
            u.eq(ex, 'size', ex.getattr(obj, 'n'), n)
            u.shape(ex, 'couplings', M, (n, n))
            u.elem(ex, 'coupling of a pair', M, (i, k), jc.read(ex, (pidx(n, i, k),)))
            u.elem(ex, 'symmetric', M, (k, i), jc.read(ex, (pidx(n, i, k),)))
            u.elem(ex, 'no coupling with itself', M, (i, i), ZERO)
            u.holds(ex, 'fields', T.TRUE if ex.getattr(obj, 'h') == h else T.FALSE)
    ex = u.ex('matrix')
    n = T.var('n')
    u.requires(ex, n >= 2)
    J, h = ex.sym_array('J', (n, n), 'real'), ex.sym_array('h', (n,), 'real')
    cls = ex.load(S)['WolffIsing']
    obj = ex.alloc(Obj(cls, dict(n=n)))
    for _ in u.paths(ex, method(ex, cls, obj, 'update_parameters'), [J, h]):
        u.holds(ex, 'the matrix given', T.TRUE if ex.getattr(obj, 'J') == J and ex.getattr(obj, 'h') == h else T.FALSE)
    ex = u.ex('lengths that do not belong together')
    n, m = T.var('n'), T.var('m')
    u.requires(ex, n >= 2, m >= 1, T.ne0(m - tri(n)))
    cls = ex.load(S)['WolffIsing']
    u.must_raise(ex, method(ex, cls, ex.alloc(Obj(cls, {})), '__init__'), [ex.sym_array('J', (m,), 'real'), ex.sym_array('h', (n,), 'real')], {})


PUT = 'def put(s, v):\n    s[:] = v\n'


def steps(u, ex, n, log, obj=None, streams=None):
    """Contract of one_step: turns the spins of the state into other spins, in place."""
    put = ex.load_source(PUT, 'spec')['put']

    def go(ex, f, args, kw):
        state = args[-1] if len(args) < 3 else args[1]
        k = len(log)
        before = ex.content(state)
        new = ex.sym_array('step%d' % k, (n,), 'real', spin)
        log.append((before, ex.content(new), kw.get('initialsite')))
        if obj is not None:
            streams.append(ex.getattr(obj, 'rng'))
        ex.call(put, [state, new])
        return None
    ex.contracts[(S, 'one_step')] = go
    ex.contracts[(S, 'WolffIsing.one_step')] = go


@unit('runs of the cluster sampler', [S + ':WolffIsing.generate_sample', S + ':WolffIsing.generate_sample_parallel', S + ':WolffIsing._generate_sample'])
def _(u):
    u.notes.append('bounded: up to 2 samples and 3 steps; any number of sites, any steps')
    for name in ('generate_sample', 'generate_sample_parallel'):
        for R, iters in ((1, 0), (1, 1), (2, 2), (2, 3)):
            for given in (False, True):
                for hist in (False, True) if name == 'generate_sample' else (False,):
                    ex = u.ex('%s: %d samples, %d steps%s%s' % (name, R, iters, ', start given' * given, ', history' * hist))
                    n = T.var('n')
                    u.requires(ex, n >= 1)
                    cls, obj = sampler(ex, n)
                    log = []
                    streams = []
                    steps(u, ex, n, log, obj, streams)
                    kw = {}
                    if given:
                        start = ex.sym_array('start', (P(R), n), 'real', spin)
                        s0 = ex.content(start)
                        kw['initialSample'] = start
                    if hist:
                        kw['save_history'] = T.TRUE
                    for ret in u.paths(ex, method(ex, cls, obj, name), [P(R), P(iters)], kw):
                        out = ex.sequence(ret)[0] if hist else ret
                        history = ex.sequence(ret)[1] if hist else None
                        u.shape(ex, 'as many samples as asked for', out, (P(R), n))
                        u.holds(ex, 'as many steps as asked for', T.TRUE if len(log) == R * iters else T.FALSE)
                        if hist:
                            u.shape(ex, 'one entry per step and the start', history, (P(R), n, P(iters + 1)))
                        src = [repr(g.src) if isinstance(g, RngVal) else None for g in streams]
                        if name.endswith('parallel'):
                            mine = [set(src[r * iters:(r + 1) * iters]) for r in range(R)]
                            u.holds(ex, 'every chain has one stream of its own', T.TRUE if iters == 0 or (None not in src and all(len(m) == 1 for m in mine) and len(set(src)) == R and not any('entropy' not in x and 'seed' not in x for x in src)) else T.FALSE)
                        else:
                            u.holds(ex, 'draws come from the generator of the sampler', T.TRUE if set(src) <= {repr('own')} else T.FALSE)
                        q = u.idx(ex, 'q', ZERO, n)
                        oc = ex.content(out)
                        for r in range(R):
                            mine = log[r * iters:(r + 1) * iters]
                            if given:
                                at = s0.read(ex, (P(r), q))
                            elif mine:
                                at = mine[0][0].read(ex, (q,))
                            else:
                                at = oc.read(ex, (P(r), q))
                            u.holds(ex, 'starts from spins', spin(at))
                            if hist:
                                u.elem(ex, 'history starts at the start', history, (P(r), q, ZERO), at)
                            for t, (before, after, first) in enumerate(mine):
                                u.eq(ex, 'every step continues from the one before', before.read(ex, (q,)), at)
                                if first is not None:
                                    u.holds(ex, 'starts at a site', T.And(T.le(ZERO, first), T.lt(first, n)))
                                at = after.read(ex, (q,))
                                if hist:
                                    u.elem(ex, 'history: the state after each step', history, (P(r), q, P(t + 1)), at)
                            u.eq(ex, 'returns the state after the last step', oc.read(ex, (P(r), q)), at)
    for R, sep in ((1, 1), (2, 1), (2, 2), (3, 2)):
        ex = u.ex('_generate_sample: %d samples, every %d steps' % (R, sep))
        n = T.var('n')
        u.requires(ex, n >= 1)
        cls, obj = sampler(ex, n)
        log = []
        steps(u, ex, n, log)
        for ret in u.paths(ex, method(ex, cls, obj, '_generate_sample'), [P(R), P(sep)]):
            u.shape(ex, 'as many samples as asked for', ret, (P(R), n))
            q = u.idx(ex, 'q', ZERO, n)
            oc = ex.content(ret)
            u.holds(ex, 'as many steps as needed', T.TRUE if len(log) == (R - 1) * sep + 1 else T.FALSE)
            u.holds(ex, 'starts from spins', spin(log[0][0].read(ex, (q,))))
            for a, b in zip(log, log[1:]):
                u.eq(ex, 'every step continues from the one before', b[0].read(ex, (q,)), a[1].read(ex, (q,)))
            for r in range(R):
                u.eq(ex, 'states that many steps apart', oc.read(ex, (P(r), q)), log[r * sep][1].read(ex, (q,)))

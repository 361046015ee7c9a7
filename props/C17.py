"""C17: coarse graining, energy landscape and lattice helpers."""
import itertools
import os
from pyvc.units import unit
from pyvc import terms as T
from pyvc import loops
from pyvc.terms import P, ZERO, ONE
from pyvc.lib import tri, Native
from pyvc.exec import Obj, Lst, Dct
from pyvc.heap import Unsupported
U = 'coniii/utils.py'
I = 'coniii/ising/utils.py'
A = 'coniii/ising/automaton.py'
DEEP = os.environ.get('PYVC_TIER') == 'thorough'


def pair_index(n, i, j):
    return i * (2 * n - i - 1) // 2 + j - i - 1


def choices(n):
    """all the ways of pairing n columns, one pair after the other: (position, position) among those left"""
    if n < 2:
        yield ()
        return
    for p in itertools.combinations(range(n), 2):
        for rest in choices(n - 2):
            yield (p,) + rest


def all_levels(n, times):
    if times == 0:
        yield ()
        return
    for first in choices(n):
        for rest in all_levels((n + 1) // 2, times - 1):
            yield (first,) + rest


@unit('coarse graining of a data set', [U + ':coarse_grain_with_func'], timeout=900)
def _(u):
    """Similarities, coarse columns and data arbitrary; argmax by contract: any position of a pair (its entry is a largest one of
    the matrix it is given, and what it is given is proved to be the similarities of the columns left, none with itself)."""
    u.notes.append('bounded: up to 6 columns (7 in the thorough tier) and two rounds; every order of pairing')
    R = T.var('R')
    cases = [(n, t) for n in range(2, 8 if DEEP else 7) for t in (0, 1, 2) if 2 ** t < n and (DEEP or n < 6 or t == 1)]
    for n, times in cases:
        for plan in all_levels(n, times):
            for turned in (False, True) if n < 5 else (False,):
                one(u, R, n, times, plan, turned)


def one(u, R, n, times, plan, turned):
    ex = u.ex('%d columns, %d rounds, pairs %s%s' % (n, times, plan, ' lower triangle' * turned))
    u.requires(ex, R >= 1)
    X = ex.sym_array('X', (R, P(n)), 'real')
    x0 = ex.content(X)
    inf = T.app('inf', (), 'real')
    sims, made, asked = [], [], []
    expected = []      # per round: pairs of columns of that round, in order of choice
    level_n = n
    for lv in plan:
        left = list(range(level_n))
        got = []
        for a, b in lv:
            got.append((left[a], left[b]))
            del left[b], left[a]
        expected.append(got + [(q,) for q in left])
        level_n = (level_n + 1) // 2

    def sim(ex, Y):
        m = int(ex.content(Y).shape[1].const())
        v = ex.sym_array('sim%d' % len(sims), (P(m * (m - 1) // 2),), 'real')
        sims.append((ex.content(Y), ex.content(v), m))
        return v

    def argmax(ex, v):
        c = ex.content(v)
        lv = len(sims) - 1
        k = sum(1 for l, _ in asked if l == lv)
        m = sims[lv][2] - 2 * k
        left = list(range(sims[lv][2]))
        for a, b in plan[lv][:k]:
            del left[b], left[a]
        u.eq(ex, 'as many similarities as there are columns left, squared', c.shape[0], P(m * m))
        for a in range(m):
            for b in range(m):
                p, q = sorted((left[a], left[b]))
                want = -inf if a == b else sims[lv][1].read(ex, (P(pair_index(sims[lv][2], p, q)),))
                u.eq(ex, 'similarity of two columns left', c.read(ex, (P(a * m + b),)), want)
        a, b = plan[lv][k]
        asked.append((lv, (a, b)))
        return P(b * m + a if turned else a * m + b)

    def coarse(ex, Y):
        v = ex.sym_array('col%d' % len(made), (R,), 'real')
        made.append((len(sims) - 1, ex.content(Y), ex.content(v)))
        return v
    ex.lib = dict(ex.lib)
    ex.lib['numpy.argmax'] = argmax
    for ret in u.paths(ex, u.fn(ex, U, 'coarse_grain_with_func'), [X, P(times), Native(sim, 'sim'), Native(coarse, 'coarse')]):
        r = u.idx(ex, 'r', ZERO, R)
        cols = lambda c: [c.read(ex, (r, P(i))) for i in range(int(c.shape[1].const()))]
        u.holds(ex, 'one look at the similarities per round, one coarse column per group', T.TRUE if len(sims) == times and len(made) == sum(map(len, expected)) else T.FALSE)
        current, groups, k = cols(x0), [(i,) for i in range(n)], 0
        for lv in range(times):
            for got, want in zip(cols(sims[lv][0]), current):
                u.eq(ex, 'similarities of the columns of the round before', got, want)
            nxt, ngroups = [], []
            for pair in expected[lv]:
                lvl, arg, out = made[k]
                k += 1
                u.shape(ex, 'columns of the group', arg, (R, P(len(pair)))) if False else u.eq(ex, 'columns of the group', arg.shape[1], P(len(pair)))
                for i, c in enumerate(pair):
                    u.eq(ex, 'the columns of the group', arg.read(ex, (r, P(i))), current[c])
                nxt.append(out.read(ex, (r,)))
                ngroups.append(sum((groups[c] for c in pair), ()))
            current, groups = nxt, ngroups
        out, ids = ret
        u.shape(ex, 'shape', out, (R, P(len(current))))
        for i, w in enumerate(current):
            u.elem(ex, 'coarse column', out, (r, P(i)), w)
        have = [tuple(int(P(q).const()) for q in ex.sequence(g)) for g in ex.sequence(ids)]
        u.holds(ex, 'columns merged into each', T.TRUE if have == groups else T.FALSE)
        u.holds(ex, 'every column once', T.TRUE if sorted(sum(have, ())) == list(range(n)) else T.FALSE)
        u.unchanged(ex, 'data', X, x0)


def couplings(ex, n):
    """A symmetric matrix with a zero diagonal."""
    from pyvc import smt
    smt.add_fun_fact('G', lambda a, b: T.Implies(T.eq(a, b), T.eq(T.app('G', (a, b), 'real'), ZERO)))
    g = lambda a, b: ZERO if (a - b) is ZERO else T.app('G', (a, b), 'real')
    return ex.new_array((n, n), 'real', lambda co: g(co[0], co[1]) + g(co[1], co[0]))


spin = lambda v: T.Or(T.eq(v, ONE), T.eq(v, P(-1)))


def landscape(u, ex, n):
    J = couplings(ex, n)
    hJ = ex.sym_array('hJ', (n + n * (n - 1) * T.P(T.Fraction(1, 2)),), 'real')
    o = ex.alloc(Obj(ex.load(I)['Ising'], {'n': n, 'hJ': hJ, 'Jmat': J}))
    return o, ex.content(hJ), ex.content(J)


@unit('energies of single flips', [I + ':Ising.neighbor_dE'])
def _(u):
    """The energy after minus the energy before, by the single-site formula and as the difference of the two sums over all sites and pairs."""
    ex = u.ex('all sizes')
    n = T.var('n')
    u.requires(ex, n >= 2)
    o, h, J = landscape(u, ex, n)
    s = ex.sym_array('s', (n,), 'int', spin)
    x = ex.content(s)
    for ret in u.paths(ex, u.fn(ex, I, 'Ising.neighbor_dE'), [o, s]):
        i = u.idx(ex, 'i', ZERO, n)
        u.shape(ex, 'shape', ret, (n,))
        u.elem(ex, 'energy after minus before', ret, (i,), x.read(ex, (i,)).scale(2) * (h.read(ex, (i,)) + ex.sum(ZERO, n, lambda j: J.read(ex, (i, j)) * x.read(ex, (j,)))))
        u.unchanged(ex, 'state', s, x)
        turned = ex.content(ex.new_array((n,), 'int', lambda co: T.ite(T.eq(co[0], i), -x.read(ex, co), x.read(ex, co))))
        u.eq(ex, 'which is the difference of the two energies', ret_at(ex, ret, i), ising_energy(ex, n, h, J, turned) - ising_energy(ex, n, h, J, x))


def ret_at(ex, a, i):
    return ex.content(a).read(ex, (i,))


def ising_energy(ex, n, h, J, c):
    return -ex.sum(ZERO, n, lambda i: c.read(ex, (i,)) * h.read(ex, (i,))) - \
        ex.sum(ZERO, n, lambda i: ex.sum(ZERO, n, lambda j: J.read(ex, (i, j)) * c.read(ex, (i,)) * c.read(ex, (j,)))).scale(T.Fraction(1, 2))


@unit('descent', [I + ':Ising.find_basin'])
def _(u):
    """neighbor_dE by contract (the single-site formula); the invariant holds the whole energy of the state, summed over all sites and pairs."""
    ex = u.ex('all sizes')
    n = T.var('n')
    u.requires(ex, n >= 2)
    o, h, J = landscape(u, ex, n)
    s = ex.sym_array('s', (n,), 'int', spin)
    x = ex.content(s)
    def field(c, k):
        return h.read(ex, (k,)) + ex.sum(ZERO, n, lambda j: J.read(ex, (k, j)) * c.read(ex, (j,)))

    def de(c, k):
        return c.read(ex, (k,)).scale(2) * field(c, k)

    def neighbor(ex, f, args, kw):
        c = ex.content(args[1])
        return ex.new_array((n,), 'real', lambda co: de(c, co[0]))
    clo = u.fn(ex, I, 'Ising.neighbor_dE')
    ex.contracts[(clo.module.get('__path__'), clo.name)] = neighbor

    def anyof(ex, v):
        # some entry is true, or none is
        c = ex.content(v)
        w, q = T.fresh('witness'), T.fresh('q')
        some = T.eq(T.fresh('some'), ONE)
        with ex.assume(T.le(ZERO, w), T.lt(w, n)):
            ex_w = T.ne0(c.read(ex, (w,)))
        with ex.assume(T.le(ZERO, q), T.lt(q, n)):
            ex_q = T.ne0(c.read(ex, (q,)))
        ex.st.facts.append(T.Or(T.Not(some), T.And(T.le(ZERO, w), T.lt(w, n), ex_w)))
        from pyvc.exec import QF
        ex.st.qfacts = list(ex.st.qfacts) + [QF(((q.as_atom(), ZERO, n),), T.Or(some, T.Not(ex_q)))]
        ex.hints.append((w,))
        return some
    ex.lib = dict(ex.lib)
    ex.lib['numpy.any'] = anyof
    p = u.idx(ex, 'p', ZERO, n)
    ex.hints.append((p,))

    energy_of = lambda c: ising_energy(ex, n, h, J, c)

    def values(ex, st):
        a = ex.sym_array('state', (n,), 'int', spin)
        return {'thisState': ex.content(a), 'atMin': T.eq(T.fresh('atMin'), ONE), 'dE': None, 'ix': None}

    def invariant(ex, env):
        c = ex.content(env['thisState'])
        at = ex.truth(env['atMin'])
        v = c.read(ex, (p,))
        return [('spins', spin(v)), ('ends where no flip lowers the energy', T.Or(T.Not(at), T.le(ZERO, de(c, p)))),
                ('energy never above the start', T.le(energy_of(c), energy_of(x)))]
    ex.loopspec[('find_basin', 0)] = ex.loopspec[('Ising.find_basin', 0)] = loops.Inv(values, invariant)
    for ret in u.paths(ex, u.fn(ex, I, 'Ising.find_basin'), [o, s]):
        c = ex.content(ret)
        u.shape(ex, 'shape', ret, (n,))
        u.holds(ex, 'a state', spin(c.read(ex, (p,))))
        u.holds(ex, 'no flip lowers the energy', T.le(ZERO, de(c, p)))
        u.holds(ex, 'energy not above the start', T.le(energy_of(c), energy_of(x)))
        u.unchanged(ex, 'start', s, x)


@unit('landscape set up', [I + ':Ising.__init__', I + ':Ising.correlations', I + ':Ising.fields', I + ':Ising.couplings', U + ':convert_params', U + ':convert_corr'])
def _(u):
    u.notes.append('bounded: 2..4 spins (the observables come from the generated module of that size, by contract)')
    for n in range(2, 6 if DEEP else 5):
        m = n * (n - 1) // 2
        for how in ('arrays', 'numbers', 'nothing', 'lists'):
            ex = u.ex('%d spins, %s' % (n, how))
            asked = []
            obs = ex.sym_array('obs', (P(n + m),), 'real')

            def calc(ex, p):
                asked.append(ex.content(p))
                return obs
            mod = ex.alloc(Obj(None, {'calc_observables': Native(calc, 'calc_observables')}))
            names = []
            ex.lib = dict(ex.lib)
            ex.lib['importlib.import_module'] = lambda ex, name: (names.append(name), mod)[1]
            h, J = [T.app('h', (P(i),), 'real') for i in range(n)], [T.app('c', (P(i),), 'real') for i in range(m)]
            if how == 'arrays':
                args = [ex.new_array((P(n),), 'real', lambda co: T.app('h', (co[0],), 'real')), ex.new_array((P(m),), 'real', lambda co: T.app('c', (co[0],), 'real'))]
            elif how == 'lists':
                args = [ex.alloc(Lst(h)), ex.alloc(Lst(J))]
            elif how == 'numbers':
                a, b = T.var('a', 'real'), T.var('b', 'real')
                h, J, args = [a] * n, [b] * m, [a, b]
            else:
                h, J, args = [ZERO] * n, [ZERO] * m, []
            cls = ex.load(I)['Ising']
            at = lambda i, j: ZERO if i == j else J[pair_index(n, min(i, j), max(i, j))]
            o = ex.alloc(Obj(cls, {}))
            for _ in u.paths(ex, u.fn(ex, I, 'Ising.__init__'), [o, P(n)] + args, {}):
                want = h + J
                hJ = ex.getattr(o, 'hJ')
                u.shape(ex, 'parameters', hJ, (P(n + m),))
                for q, w in enumerate(want):
                    u.elem(ex, 'fields, then couplings', hJ, (P(q),), w)
                for i in range(n):
                    for j in range(n):
                        u.elem(ex, 'matrix of couplings', ex.getattr(o, 'Jmat'), (P(i), P(j)), at(i, j))
                u.holds(ex, 'the equations of this size', T.TRUE if names[-1] == 'coniii.ising_eqn.ising_eqn_%d_sym' % n else T.FALSE)
                f1 = [(h[i] - sum((at(i, j) for j in range(n)), ZERO)).scale(2) for i in range(n)]
                for basis, wf, wc in (('1', h, J), ('0', f1, [x.scale(4) for x in J])):
                    for name, w in (('fields', wf), ('couplings', wc)):
                        r = ex.call(u.fn(ex, I, 'Ising.' + name), [o], {'basis': basis})
                        u.shape(ex, name, r, (P(len(w)),))
                        for q, v in enumerate(w):
                            u.elem(ex, '%s, basis %s' % (name, basis), r, (P(q),), v)
                    r = ex.call(u.fn(ex, I, 'Ising.correlations'), [o], {'basis': basis})
                    for q, v in enumerate(want):
                        u.eq(ex, 'correlations of these parameters', asked[-1].read(ex, (P(q),)), v)
                    g = ex.content(obs)
                    o1 = [g.read(ex, (P(i),)) for i in range(n)]
                    o2 = [g.read(ex, (P(n + q),)) for q in range(m)]
                    if basis == '0':
                        o2 = [(o2[q] + o1[i] + o1[j] + 1).scale(T.Fraction(1, 4)) for q, (i, j) in enumerate(itertools.combinations(range(n), 2))]
                        o1 = [(v + 1).scale(T.Fraction(1, 2)) for v in o1]
                    for q, v in enumerate(o1 + o2):
                        u.elem(ex, 'correlations, basis ' + basis, r, (P(q),), v)


@unit('lattice flips', [A + ':Ising2D.flip_metropolis'])
def _(u):
    """Energy -J s s' for the four bonds of a site and +h s for its field (the convention of this class: a positive field favours -1)."""
    for wide in ((False, False), (True, False), (False, True), (True, True)):
        ex = u.ex('lattice of %s by %s' % tuple('any number above 2' if w else '2' for w in wide))
        d = [T.var('d%d' % k) if w else P(2) for k, w in enumerate(wide)]
        for x in d:
            u.requires(ex, x >= 2)
        lat = ex.sym_array('lattice', tuple(d), 'int', spin)
        c = ex.content(lat)
        i, j = u.idx(ex, 'i', ZERO, d[0]), u.idx(ex, 'j', ZERO, d[1])
        h, J = T.var('h', 'real'), T.var('J', 'real')
        up = lambda x, k: T.ite(T.eq(x, d[k] - 1), ZERO, x + 1)
        down = lambda x, k: T.ite(T.eq(x, ZERO), d[k] - 1, x - 1)
        s = c.read(ex, (i, j))
        around = sum((c.read(ex, q) for q in ((up(i, 0), j), (down(i, 0), j), (i, up(j, 1)), (i, down(j, 1)))), ZERO)
        de = s.scale(2) * (J * around - h)
        clo = u.fn(ex, A, 'Ising2D.flip_metropolis')
        for ret in u.paths(ex, clo, [i, j, h, J, lat]):
            now = ex.content(ret)
            u.holds(ex, 'the lattice given', T.TRUE if ret == lat else T.FALSE)
            draws = [x for x in ex.draws]
            new = now.read(ex, (i, j))
            a, b = u.idx(ex, 'a', ZERO, d[0]), u.idx(ex, 'b', ZERO, d[1])
            with ex.assume(T.Or(T.ne0(a - i), T.ne0(b - j))):
                u.eq(ex, 'the other sites are left alone', now.read(ex, (a, b)), c.read(ex, (a, b)))
            unif = [x for x in ex.draws if x[0] == 'rand']
            u.holds(ex, 'at most one uniform draw', T.TRUE if len(unif) == len(ex.draws) <= 1 else T.FALSE)
            acc = T.le(de, ZERO) if not unif else T.Or(T.le(de, ZERO), T.lt(unif[0][2], T.fexp(-de)))
            u.eq(ex, 'flipped exactly when the energy does not rise or a uniform draw is below the Boltzmann factor of the rise', new, T.ite(acc, -s, s))


@unit('lattice set up', [A + ':Ising2D.__init__'])
def _(u):
    for how in ('number', 'array', 'default'):
        ex = u.ex('field: ' + how)
        d = (T.var('d0'), T.var('d1'))
        for x in d:
            u.requires(ex, x >= 1)
        J = T.var('J', 'real')
        f = T.var('f', 'real') if how == 'number' else ex.sym_array('f', d, 'real') if how == 'array' else None
        o = ex.alloc(Obj(ex.load(A)['Ising2D'], {}))
        for _ in u.paths(ex, u.fn(ex, A, 'Ising2D.__init__'), [o, d, J] + ([] if f is None else [f])):
            i, j = u.idx(ex, 'i', ZERO, d[0]), u.idx(ex, 'j', ZERO, d[1])
            lat = ex.content(ex.getattr(o, 'lattice'))
            u.shape(ex, 'lattice', ex.getattr(o, 'lattice'), d)
            u.holds(ex, 'spins', spin(lat.read(ex, (i, j))))
            u.shape(ex, 'field', ex.getattr(o, 'h'), d)
            u.elem(ex, 'field', ex.getattr(o, 'h'), (i, j), ZERO if f is None else f if how == 'number' else ex.content(f).read(ex, (i, j)))
            u.eq(ex, 'coupling', ex.getattr(o, 'J'), J)
            u.holds(ex, 'dimensions', T.TRUE if ex.getattr(o, 'dim') == d else T.FALSE)


@unit('lattice sweeps', [A + ':Ising2D.iterate'])
def _(u):
    """flip_metropolis and the permutation by contract: every flip uses the field of its own site, every sweep visits each site once."""
    u.notes.append('bounded: lattices of 2x3 and 3x2, up to three sweeps; fields, coupling and permutations arbitrary')
    for dim in ((2, 3), (3, 2)):
        size = dim[0] * dim[1]
        for n_iters, systematic in [(k, True) for k in (0, 1, size, size + 1, 2 * size)] + [(1, False), (2, False), (size, False)]:
            ex = u.ex('%d by %d, %d iterations%s' % (dim + (n_iters, '' if systematic else ', random sites')))
            lat, h = ex.sym_array('lattice', (P(dim[0]), P(dim[1])), 'int', spin), ex.sym_array('h', (P(dim[0]), P(dim[1])), 'real')
            J = T.var('J', 'real')
            o = ex.alloc(Obj(ex.load(A)['Ising2D'], {'dim': (P(dim[0]), P(dim[1])), 'lattice': lat, 'h': h, 'J': J}))
            calls, perms = [], []

            def flip(ex, f, args, kw):
                calls.append(args)
                return args[4]

            def permutation(ex, a):
                c = ex.content(a)
                for q in range(size):
                    u.eq(ex, 'all the sites are put in order', c.read(ex, (P(q),)), P(q))
                u.eq(ex, 'all the sites are put in order', c.shape[0], P(size))
                name = 'perm%d' % len(perms)
                perms.append(name)
                return ex.sym_array(name, (P(size),), 'int', lambda v: T.And(T.le(ZERO, v), T.lt(v, P(size))))
            ex.lib = dict(ex.lib)
            ex.lib['numpy.random.permutation'] = permutation
            clo = u.fn(ex, A, 'Ising2D.flip_metropolis')
            ex.contracts[(clo.module.get('__path__'), clo.name)] = flip
            for _ in u.paths(ex, u.fn(ex, A, 'Ising2D.iterate'), [o, P(n_iters)], {} if systematic else {'systematic': T.FALSE}):
                hc = ex.content(h)
                if systematic:
                    sweeps = -(-n_iters // size)
                    u.holds(ex, 'whole sweeps, at least as many flips as asked for', T.TRUE if len(perms) == sweeps and len(calls) == sweeps * size else T.FALSE)
                    for q, args in enumerate(calls):
                        u.eq(ex, 'the next site of the order', args[0] * dim[1] + args[1], T.app(perms[q // size], (P(q % size),), 'int'))
                else:
                    u.holds(ex, 'at least as many flips as asked for', T.TRUE if len(calls) >= n_iters else T.FALSE)
                for i, j, field, coup, L in calls:
                    u.holds(ex, 'a site', T.And(T.le(ZERO, i), T.lt(i, P(dim[0])), T.le(ZERO, j), T.lt(j, P(dim[1]))))
                    u.eq(ex, 'the field of this site', field, hc.read(ex, (i, j)))
                    u.eq(ex, 'the coupling', coup, J)
                    u.holds(ex, 'the own lattice', T.TRUE if L == lat else T.FALSE)
                u.holds(ex, 'kept', T.TRUE if ex.getattr(o, 'lattice') == lat else T.FALSE)


@unit('majority of blocks', [A + ':coarse_grain'])
def _(u):
    u.notes.append('factors 1 to 3 (4 in the thorough tier); lattices of every size')
    for factor in range(1, 5 if DEEP else 4):
        ex = u.ex('factor %d' % factor)
        d = (T.var('d0'), T.var('d1'))
        for x in d:
            u.requires(ex, x >= factor)
        lat = ex.sym_array('lattice', d, 'int', spin)
        c = ex.content(lat)
        for ret in u.paths(ex, u.fn(ex, A, 'coarse_grain'), [lat, P(factor)]):
            sh = tuple(T.fdiv(x, P(factor)) for x in d)
            u.shape(ex, 'one site per block', ret, sh)
            i, j = u.idx(ex, 'i', ZERO, sh[0]), u.idx(ex, 'j', ZERO, sh[1])
            total = sum((c.read(ex, (i * factor + a, j * factor + b)) for a in range(factor) for b in range(factor)), ZERO)
            got = ex.content(ret).read(ex, (i, j))
            for name, cond, want in (('up', T.lt(ZERO, total), ONE), ('down', T.lt(total, ZERO), P(-1))):
                with ex.assume(cond):
                    u.eq(ex, 'majority ' + name, got, want)
            with ex.assume(T.eq(total, ZERO)):
                u.holds(ex, 'a tie: either', spin(got))
            u.unchanged(ex, 'lattice', lat, c)

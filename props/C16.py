"""C16: mean-field and cluster-expansion algebra."""
import itertools
import os
from pyvc.units import unit
from pyvc import terms as T
from pyvc.terms import P, ZERO, ONE
from pyvc.lib import tri, Native
from pyvc.exec import Obj, Lst, Dct
from pyvc.heap import Unsupported
from pyvc import deriv
M = 'coniii/mean_field_ising.py'
S = 'coniii/solvers.py'
DEEP = os.environ.get('PYVC_TIER') == 'thorough'


@unit('co-occurrence matrix', [M + ':cooccurrence_matrix', M + ':coocMatBayesianMean'])
def _(u):
    for keep in (None, True, False):
        ex = u.ex('keep_diag ' + str(keep))
        f = u.fn(ex, M, 'cooccurrence_matrix')
        n, R = T.var('n'), T.var('R')
        u.requires(ex, n >= 1)
        u.requires(ex, R >= 1)
        X = ex.sym_array('X', (R, n), 'real')
        before = ex.content(X)
        for ret in u.paths(ex, f, [X] + ([] if keep is None else [T.TRUE if keep else T.FALSE])):
            u.shape(ex, 'shape', ret, (n, n))
            i, j = u.idx(ex, 'i', ZERO, n), u.idx(ex, 'j', ZERO, n)
            corr = ex.sum(ZERO, R, lambda r: before.read(ex, (r, i)) * before.read(ex, (r, j))) * T.inv(R)
            kept = T.le(i, j) if keep in (None, True) else T.lt(i, j)
            u.elem(ex, 'mean product on and above the diagonal', ret, (i, j), T.ind(kept) * corr)
            u.unchanged(ex, 'sample', X, before)


@unit('matrix helpers', [M + ':' + f for f in ('replaceDiag', 'zeroDiag', 'symmetrizeUsingUpper', 'coocCluster', 'JfullFromCluster')])
def _(u):
    ex = u.ex('replaceDiag, zeroDiag, symmetrizeUsingUpper')
    n = T.var('n')
    u.requires(ex, n >= 1)
    A, d = ex.sym_array('A', (n, n), 'real'), ex.sym_array('d', (n,), 'real')
    a, dd = ex.content(A), ex.content(d)
    i, j = u.idx(ex, 'i', ZERO, n), u.idx(ex, 'j', ZERO, n)
    for ret in u.paths(ex, u.fn(ex, M, 'replaceDiag'), [A, d]):
        u.elem(ex, 'diagonal replaced', ret, (i, j), T.ite(T.eq(i, j), dd.read(ex, (i,)), a.read(ex, (i, j))))
    for ret in u.paths(ex, u.fn(ex, M, 'zeroDiag'), [A]):
        u.elem(ex, 'diagonal zero', ret, (i, j), T.ite(T.eq(i, j), ZERO, a.read(ex, (i, j))))
    for ret in u.paths(ex, u.fn(ex, M, 'symmetrizeUsingUpper'), [A]):
        u.elem(ex, 'the upper triangle mirrored', ret, (i, j), T.ite(T.le(i, j), a.read(ex, (i, j)), a.read(ex, (j, i))))
    u.unchanged(ex, 'matrix', A, a)
    u.must_raise(ex, u.fn(ex, M, 'replaceDiag'), [A, ex.sym_array('two', (n, n), 'real')], {}, name='a matrix for the diagonal')


def flat_at(ell, i, j):
    """Position of (i, j>=i) when the diagonals are laid out one after the other, the main one first."""
    d = P(j) - P(i)
    return P(i) + d * P(ell) - (d * (d - 1)).scale(T.Fraction(1, 2))


@unit('flattening a matrix along its diagonals', [M + ':' + f for f in ('aboveDiagFlat', 'unflatten', 'diagFlatIndex')])
def _(u):
    ex = u.ex('positions')
    ell = T.var('ell')
    u.requires(ex, ell >= 1)
    i = u.idx(ex, 'i', ZERO, ell)
    j = u.idx(ex, 'j', i, ell)
    for ret in u.paths(ex, u.fn(ex, M, 'diagFlatIndex'), [i, j, ell]):
        u.eq(ex, 'diagFlatIndex', ret, flat_at(ell, i, j))
    for keep in (True, False):
        for mult in (None, T.var('mult', 'real')):
            ex = u.ex('aboveDiagFlat, keepDiag %s, offDiagMult %s' % (keep, mult))
            u.requires(ex, ell >= (1 if keep else 2))
            A = ex.sym_array('A', (ell, ell), 'real')
            a = ex.content(A)
            i = u.idx(ex, 'i', ZERO, ell)
            j = u.idx(ex, 'j', i if keep else i + 1, ell)
            d = j - i
            size = (ell if keep else ell - 1)
            ex.hints.append((d, d + 1 + i) if keep else (d - 1, d + i))
            for ret in u.paths(ex, u.fn(ex, M, 'aboveDiagFlat'), [A], {'keepDiag': T.TRUE if keep else T.FALSE, 'offDiagMult': mult}):
                u.shape(ex, 'shape', ret, (tri(size + 1),))
                pos = flat_at(ell, i, j) - (ZERO if keep else ell)
                want = a.read(ex, (i, j)) * (ONE if mult is None else T.ite(T.eq(i, j), ONE, mult))
                u.elem(ex, 'element (i, j)', ret, (pos,), want)
                u.unchanged(ex, 'matrix', A, a)
    for sym in (None, True):
        ex = u.ex('unflatten' + ', symmetrize' * bool(sym))
        u.requires(ex, ell >= 1)
        i = u.idx(ex, 'i', ZERO, ell)
        j = u.idx(ex, 'j', ZERO, ell)
        F = ex.sym_array('F', (tri(ell + 1),), 'real')
        f = ex.content(F)
        for ret in u.paths(ex, u.fn(ex, M, 'unflatten'), [F, ell], {} if sym is None else {'symmetrize': T.TRUE}):
            u.shape(ex, 'shape', ret, (ell, ell))
            up, low = f.read(ex, (flat_at(ell, i, j),)), f.read(ex, (flat_at(ell, j, i),))
            want = T.ite(T.le(i, j), up, ZERO) if sym is None else \
                T.ite(T.eq(i, j), up, T.ite(T.lt(i, j), up, low).scale(T.Fraction(1, 2)))
            u.elem(ex, 'element (i, j)', ret, (i, j), want)
            u.unchanged(ex, 'list', F, f)


@unit('flattening and unflattening are inverse', [M + ':aboveDiagFlat', M + ':unflatten'])
def _(u):
    ell = T.var('ell')
    ex = u.ex('of a vector')
    u.requires(ex, ell >= 1)
    F = ex.sym_array('F', (tri(ell + 1),), 'real')
    i = u.idx(ex, 'i', ZERO, ell)
    j = u.idx(ex, 'j', i, ell)
    p = flat_at(ell, i, j)
    ex.hints.append((j - i, j + 1))
    for mat in u.paths(ex, u.fn(ex, M, 'unflatten'), [F, ell]):
        for ret in u.paths(ex, u.fn(ex, M, 'aboveDiagFlat'), [mat], {'keepDiag': T.TRUE}):
            u.elem(ex, 'element', ret, (p,), ex.content(F).read(ex, (p,)))
    ex = u.ex('of a matrix')
    u.requires(ex, ell >= 1)
    A = ex.sym_array('A', (ell, ell), 'real')
    i = u.idx(ex, 'i', ZERO, ell)
    j = u.idx(ex, 'j', i, ell)
    ex.hints.append((j - i, j + 1))
    for flat in u.paths(ex, u.fn(ex, M, 'aboveDiagFlat'), [A], {'keepDiag': T.TRUE}):
        for ret in u.paths(ex, u.fn(ex, M, 'unflatten'), [flat, ell]):
            u.elem(ex, 'element on or above the diagonal', ret, (i, j), ex.content(A).read(ex, (i, j)))


def bit(ell, f, c):
    return T.fmod(T.fdiv(P(f), T.power(P(2), P(ell) - 1 - P(c))), P(2))


@unit('states of zeros and ones', [M + ':fightPossibilities'])
def _(u):
    ex = u.ex('all sizes')
    ell = T.var('ell')
    u.requires(ex, ell >= 1)
    for ret in u.paths(ex, u.fn(ex, M, 'fightPossibilities'), [ell]):
        K = T.power(P(2), ell)
        u.shape(ex, 'one row per state', ret, (K, ell))
        f, c = u.idx(ex, 'f', ZERO, K), u.idx(ex, 'c', ZERO, ell)
        u.elem(ex, 'binary digit', ret, (f, c), bit(ell, f, c))
    for n in range(1, 6 if DEEP else 4):
        for least in range(0, n + 1):
            ex = u.ex('%d spins, at least %d ones' % (n, least))
            for ret in u.paths(ex, u.fn(ex, M, 'fightPossibilities'), [P(n), P(least)]):
                rows = [r for r in itertools.product((0, 1), repeat=n) if sum(r) >= least]
                u.shape(ex, 'rows', ret, (P(len(rows)), P(n)))
                for q, r in enumerate(rows):
                    for c in range(n):
                        u.elem(ex, 'row %d, spin %d' % (q, c), ret, (P(q), P(c)), P(r[c]))


@unit('exact distribution of zeros and ones', [M + ':' + f for f in ('unsummedLogZ', 'unsummedZ', 'analyticEntropy', 'coocExpectations')])
def _(u):
    """For the states that fightPossibilities lists (by contract: any matrix of zeros and ones)."""
    ell, K = T.var('ell'), T.var('K')
    for what in ('unsummedLogZ', 'unsummedZ', 'coocExpectations', 'coocExpectations, full', 'analyticEntropy'):
        ex = u.ex(what)
        u.requires(ex, ell >= 1)
        u.requires(ex, K >= 1)
        J = ex.sym_array('J', (ell, ell), 'real')
        a = ex.content(J)
        fp = ex.sym_array('fp', (K, ell), 'int', lambda v: T.And(T.le(ZERO, v), T.le(v, ONE)))
        x = ex.content(fp)
        ext, least = T.var('hext', 'real'), T.var('minSize')
        u.requires(ex, least >= 0)
        clo = u.fn(ex, M, 'fightPossibilities')
        asked = []

        def states(ex, f, args, kw):
            asked.append((args[0], args[1] if len(args) > 1 else kw.get('minSize', ZERO)))
            return fp
        ex.contracts[(clo.module.get('__path__'), clo.name)] = states

        def logz(f, hext):
            return -ex.sum(ZERO, ell, lambda c: x.read(ex, (f, c)) * (a.read(ex, (c, c)) - hext)) - \
                ex.sum(ZERO, ell, lambda d: ex.sum(ZERO, ell, lambda c: T.ite(T.eq(c, d), ZERO, a.read(ex, (c, d))) * x.read(ex, (f, c)) * x.read(ex, (f, d))))
        name = what.split(',')[0]
        kw = {} if name == 'analyticEntropy' else {'hext': ext, 'minSize': least}
        if what.endswith('full'):
            kw['zeroBelowDiag'] = T.FALSE
        for ret in u.paths(ex, u.fn(ex, M, name), [J], kw):
            for n_, m_ in asked:
                u.eq(ex, 'states of all the spins', n_, ell)
                u.eq(ex, 'states with at least the given number of ones', m_, ZERO if name == 'analyticEntropy' else least)
            del asked[:]
            if name == 'analyticEntropy':
                Z = ex.sum(ZERO, K, lambda f: T.fexp(logz(f, ZERO)))
                u.eq(ex, 'entropy', ret, -ex.sum(ZERO, K, lambda f: T.fexp(logz(f, ZERO)) * T.inv(Z) * T.flog(T.fexp(logz(f, ZERO)) * T.inv(Z))))
            elif name == 'coocExpectations':
                Z = ex.sum(ZERO, K, lambda f: T.fexp(logz(f, ext)))
                i, j = u.idx(ex, 'i', ZERO, ell), u.idx(ex, 'j', ZERO, ell)
                want = ex.sum(ZERO, K, lambda f: x.read(ex, (f, i)) * x.read(ex, (f, j)) * T.fexp(logz(f, ext))) * T.inv(Z)
                u.shape(ex, 'shape', ret, (ell, ell))
                u.elem(ex, 'expectation of the product', ret, (i, j), want if what.endswith('full') else T.ind(T.le(i, j)) * want)
            else:
                f = u.idx(ex, 'f', ZERO, K)
                want = logz(f, ext)
                u.shape(ex, 'one per state', ret, (K,))
                u.elem(ex, 'value', ret, (f,), want if name == 'unsummedLogZ' else T.fexp(want))
            u.unchanged(ex, 'couplings', J, a)


def logistic(ex, h, J, ell, T_, m):
    return T.inv(ONE + T.fexp((h + (ell - 1) * m * J * 2) * T.inv(T_)))


@unit('mean field at finite temperature', [M + ':' + f for f in ('m', 'avgE', 'dmdT', 'specificHeat', 'susc')])
def _(u):
    names = ('h', 'J', 'ell', 'T')

    def setup(label):
        ex = u.ex(label)
        v = [T.var(x, 'real') for x in names]
        u.requires(ex, T.lt(ZERO, v[3]))
        u.requires(ex, T.le(ONE, v[2]))
        return ex, v
    # the equation that m solves
    ex, (h, J, ell, temp) = setup('equation')

    def brentq(ex, f, a, b):
        ex.oblige('brentq: the function changes its sign in the interval',
                  T.And(T.le(P(ex.call(f, [a])), ZERO), T.le(ZERO, P(ex.call(f, [b])))), 'callee-pre')
        r = T.fresh('root', 'real')
        ex.st.facts.append(T.And(T.le(a, r), T.le(r, b), T.eq(ex.call(f, [r]), ZERO)))
        return r
    ex.lib = dict(ex.lib)
    ex.lib['scipy.optimize.brentq'] = brentq
    for ret in u.paths(ex, u.fn(ex, M, 'm'), [h, J, ell, temp]):
        u.holds(ex, 'self-consistent', T.eq(ret, logistic(ex, h, J, ell, temp, ret)))
        u.holds(ex, 'between zero and one', T.And(T.le(ZERO, ret), T.le(ret, ONE)))
    # derivatives: m by its contract (any solution of its equation)
    for what in ('avgE', 'dmdT', 'specificHeat', 'susc', 'dmdT, any sign', 'susc, any sign'):
        ex = u.ex(what)
        what, given = what.split(',')[0], ',' in what      # couplings of any sign: where the derivative exists
        h, J, ell = T.app('field', (ZERO,), 'real'), T.var('J', 'real'), T.var('ell', 'real')
        temp, mu = T.app('temp', (ZERO,), 'real'), T.app('mu', (ZERO,), 'real')
        u.requires(ex, T.lt(ZERO, temp))
        u.requires(ex, T.le(ONE, ell))
        if what in ('dmdT', 'susc') and not given:
            u.requires(ex, T.le(ZERO, J))
        clo = u.fn(ex, M, 'm')

        def root(ex, f, args, kw):
            for x, y in zip(args, (h, J, ell, temp)):
                u.eq(ex, 'mean field at the same arguments', x, y)
            return mu
        ex.contracts[(clo.module.get('__path__'), clo.name)] = root
        G = mu - logistic(ex, h, J, ell, temp, mu)
        E = mu * h + (ell - 1) * J * mu * mu
        if what == 'specificHeat':
            rate = T.var('rate', 'real')
            d = u.fn(ex, M, 'dmdT')

            def contract(ex, f, args, kw):
                for x, y in zip(args, (h, J, ell, temp)):
                    u.eq(ex, 'dmdT at the same arguments', x, y)
                return rate
            ex.contracts[(d.module.get('__path__'), d.name)] = contract
        for ret in u.paths(ex, u.fn(ex, M, what), [h, J, ell, temp]):
            D = lambda t, name: deriv.diff(t, name, (ZERO,))
            if what == 'avgE':
                u.eq(ex, 'energy of the mean field, per spin', ret, E)
            elif what == 'specificHeat':
                u.eq(ex, 'derivative of the energy', ret, D(E, 'mu') * rate)
            else:
                ret = ret if what == 'dmdT' else -ret
                u.rational(ex, 'derivative of the solution of the equation', D(G, 'temp' if what == 'dmdT' else 'field') + D(G, 'mu') * ret, ZERO, given)


HOM = ('SHomogeneous', 'avgmHomogeneous', 'avgxHomogeneous', 'multiInfoHomogeneous', 'independentEntropyHomogeneous', 'independentEntropyHomogeneous2')


@unit('homogeneous system', [M + ':' + f for f in ('logCosh', 'FHomogeneous', 'dFdT') + HOM])
def _(u):
    inf = T.app('inf', (), 'real')

    def by_contract(ex, name, value):
        clo = u.fn(ex, M, name)
        ex.contracts[(clo.module.get('__path__'), clo.name)] = lambda ex, f, args, kw: value(*[P(a) for a in args])
    ex = u.ex('logCosh')
    x = T.var('x', 'real')
    for ret in u.paths(ex, u.fn(ex, M, 'logCosh'), [x]):
        for sign, c in (('x >= 0', T.le(ZERO, x)), ('x < 0', T.lt(x, ZERO))):
            with ex.assume(c):
                u.eq(ex, 'log(cosh(x)), ' + sign, T.fexp(P(ret)), (T.fexp(x) + T.fexp(-x)).scale(T.Fraction(1, 2)))
    h, J, N, m = [T.var(s, 'real') for s in ('h', 'J', 'N', 'm')]

    def free(h, J, N, m):
        return N * (J * N * m * m - T.flog(P(2)) - T.app('logcosh', (J * N * m * 2 + h,), 'real')) + \
            T.flog(T.app('sqrt', (T.var('pi', 'real') * T.inv(N * J * N),), 'real'))

    def setup(label):
        ex = u.ex(label)
        u.requires(ex, T.lt(ZERO, J))
        u.requires(ex, T.lt(ZERO, N))
        by_contract(ex, 'logCosh', lambda x: T.app('logcosh', (x,), 'real'))
        return ex
    ex = setup('FHomogeneous')
    for ret in u.paths(ex, u.fn(ex, M, 'FHomogeneous'), [h, J, N, m]):
        u.eq(ex, 'auxiliary field free energy', ret, free(h, J, N, m))
    ex = setup('dFdT')
    temp = T.app('temp', (ZERO,), 'real')
    u.requires(ex, T.lt(ZERO, temp))
    u.requires(ex, T.lt(ZERO, T.var('pi', 'real')))
    F = P(ex.call(u.fn(ex, M, 'FHomogeneous'), [h * T.inv(temp), J * T.inv(temp), N, m]))
    rate = deriv.diff(F, 'temp', (ZERO,))
    for ret in u.paths(ex, u.fn(ex, M, 'dFdT'), [h, J, N, m]):
        u.rational(ex, 'derivative of the free energy with respect to the temperature, at one', ret, T.subst(rate, {temp.as_atom(): ONE}))
    for name in HOM:
        ex = setup(name)
        weight = T.fexp(-T.app('F', (h, J, N, x), 'real'))
        known = {'Z': weight, 'rate': T.app('dFdT', (h, J, N, x), 'real') * weight, 'field': x * weight,
                 'tanh': T.app('tanh', (J * N * x * 2 + h,), 'real') * weight}

        def quad(ex, f, a, b):
            ex.oblige('integral over the line', T.And(T.eq(a, -inf), T.eq(b, inf)), 'post')
            t = P(ex.call(f, [x]))
            for k, w in known.items():
                if (t - w) is ZERO:
                    return (T.var('integral_' + k, 'real'), ZERO)
            raise Unsupported('an integrand the specification does not know: %s' % t)
        ex.lib = dict(ex.lib)
        ex.lib['scipy.integrate.quad'] = quad
        by_contract(ex, 'FHomogeneous', lambda *a: T.app('F', a, 'real'))
        by_contract(ex, 'dFdT', lambda *a: T.app('dFdT', a, 'real'))
        I = {k: T.var('integral_' + k, 'real') for k in known}
        ax = T.var('avgx', 'real')
        if name != 'avgxHomogeneous':
            by_contract(ex, 'avgxHomogeneous', lambda *a: ax)
        if name == 'multiInfoHomogeneous':
            by_contract(ex, 'independentEntropyHomogeneous', lambda *a: T.app('Sind', a, 'real'))
            by_contract(ex, 'SHomogeneous', lambda *a: T.app('S', a, 'real'))
        if 'independent' in name:
            u.requires(ex, T.And(T.lt(-ONE, ax), T.lt(ax, ONE)))
        for ret in u.paths(ex, u.fn(ex, M, name), [h, J, N]):
            half = lambda s: (ONE + ax.scale(s)).scale(T.Fraction(1, 2))
            want = {'SHomogeneous': T.flog(I['Z']) - I['rate'] * T.inv(I['Z']), 'avgmHomogeneous': I['field'] * T.inv(I['Z']),
                    'avgxHomogeneous': I['tanh'] * T.inv(I['Z']),
                    'multiInfoHomogeneous': T.app('Sind', (h, J, N), 'real') - T.app('S', (h, J, N), 'real'),
                    'independentEntropyHomogeneous': -N * (half(1) * T.flog(half(1)) + half(-1) * T.flog(half(-1)))}.get(name)
            if want is not None:
                u.eq(ex, name, ret, want)
            if name == 'independentEntropyHomogeneous2':
                la, lb = T.flog(ONE + ax), T.flog(ONE - ax)
                e = (la - lb).scale(T.Fraction(1, 2))
                C = (T.fexp(e) + T.fexp(-e)).scale(T.Fraction(1, 2))
                u.eq(ex, 'entropy in terms of the effective field', ret, N * (T.flog(P(2)) + T.flog(C) - ax * e))
                u.rational(ex, 'lemma: cosh of the effective field', C * C * (ONE + ax) * (ONE - ax), ONE)
                both = -(la + lb).scale(T.Fraction(1, 2))      # its logarithm, by the lemma
                first = -N * (half(1) * (la - T.flog(P(2))) + half(-1) * (lb - T.flog(P(2))))
                u.eq(ex, 'the same entropy as the first form', N * (T.flog(P(2)) + both - ax * e), first)


@unit('clusters of a matrix', [M + ':coocCluster', M + ':JfullFromCluster'])
def _(u):
    N, k = T.var('N'), T.var('k')
    ex = u.ex('coocCluster')
    u.requires(ex, k >= 1)
    A = ex.sym_array('A', (N, N), 'real')
    C = ex.sym_array('cluster', (k,), 'int', lambda v: T.And(T.le(ZERO, v), T.lt(v, N)))
    a, c = ex.content(A), ex.content(C)
    i, j = u.idx(ex, 'i', ZERO, k), u.idx(ex, 'j', ZERO, k)
    for ret in u.paths(ex, u.fn(ex, M, 'coocCluster'), [A, C]):
        u.shape(ex, 'shape', ret, (k, k))
        u.elem(ex, 'element of the members', ret, (i, j), a.read(ex, (c.read(ex, (i,)), c.read(ex, (j,)))))
        u.unchanged(ex, 'matrix', A, a)
    u.notes.append('JfullFromCluster: clusters of up to four members at any positions (bounded in the number of members)')
    for m in range(0, 6 if DEEP else 5):
        ex = u.ex('JfullFromCluster, %d members' % m)
        u.requires(ex, N >= m)
        pos = [u.idx(ex, 'p%d' % q, ZERO, N) for q in range(m)]
        for p, q in itertools.combinations(pos, 2):
            u.requires(ex, T.Not(T.eq(p, q)))
        Jc = ex.sym_array('Jcluster', (P(m), P(m)), 'real')
        jc = ex.content(Jc)
        x, y = u.idx(ex, 'x', ZERO, N), u.idx(ex, 'y', ZERO, N)
        for ret in u.paths(ex, u.fn(ex, M, 'JfullFromCluster'), [Jc, ex.alloc(Lst(pos)), N]):
            u.shape(ex, 'shape', ret, (N, N))
            for p in range(m):
                for q in range(m):
                    u.elem(ex, 'members %d and %d' % (p, q), ret, (pos[p], pos[q]), jc.read(ex, (P(p), P(q))))
            with ex.assume(*[T.Not(T.eq(x, p)) for p in pos]):
                u.elem(ex, 'row outside the cluster', ret, (x, y), ZERO)
            with ex.assume(*[T.Not(T.eq(y, p)) for p in pos]):
                u.elem(ex, 'column outside the cluster', ret, (x, y), ZERO)


@unit('mean field couplings', [M + ':SmeanField', M + ':JmeanField'])
def _(u):
    """All sizes; the eigendecomposition by contract (any eigenvalues and eigenvectors), coocCluster and JfullFromCluster by contract."""
    n, N = T.var('n'), T.var('N')
    for indep in (None, False):
        for lam, num, reg in ((None, None, None), (T.var('lmbda', 'real'), T.var('numSamples', 'real'), None), (None, None, False)):
            if indep is False and lam is None and reg is None:
                continue
            ex = u.ex(', '.join(['with prior' if lam is not None else ('direct inverse' if reg is False else 'no prior')] + ['no independent term'] * (indep is False)))
            u.requires(ex, n >= 1)
            u.requires(ex, N >= n)
            A = ex.sym_array('A', (N, N), 'real')
            a = ex.content(A)
            C = ex.sym_array('cluster', (n,), 'int', lambda v: T.And(T.le(ZERO, v), T.lt(v, N)))
            member = ex.content(C)
            S_ = ex.sym_array('C', (n, n), 'real')     # symmetric, frequencies strictly between zero and one on its diagonal
            sc = ex.content(S_)
            fr = lambda i: sc.read(ex, (i, i))
            seen = {}

            def cooc(ex, f, args, kw):
                seen['cluster'] = args[1]
                b = ex.content(args[0])
                i, j = T.fresh('i'), T.fresh('j')
                with ex.assume(T.le(ZERO, i), T.lt(i, N), T.le(ZERO, j), T.lt(j, N)):
                    u.eq(ex, 'the upper triangle mirrored', b.read(ex, (i, j)), T.ite(T.le(i, j), a.read(ex, (i, j)), a.read(ex, (j, i))))
                return S_
            full = []

            def jfull(ex, f, args, kw):
                full.append(args)
                return ex.sym_array('Jfull%d' % len(full), (N, N), 'real')
            for name, fn in (('coocCluster', cooc), ('JfullFromCluster', jfull)):
                clo = u.fn(ex, M, name)
                ex.contracts[(clo.module.get('__path__'), clo.name)] = fn
            W_, V_ = ex.sym_array('eigval', (n,), 'real'), ex.sym_array('eigvec', (n, n), 'real')
            w, v = ex.content(W_), ex.content(V_)
            sd = lambda i, j: T.app('sqrt', (fr(i) * (ONE - fr(i)) * fr(j) * (ONE - fr(j)),), 'real')
            cov = lambda i, j: sc.read(ex, (i, j)) - fr(i) * fr(j)

            def normalised(ex, X):
                x = ex.content(X)
                i, j = T.fresh('i'), T.fresh('j')
                with ex.assume(T.le(ZERO, i), T.lt(i, n), T.le(ZERO, j), T.lt(j, n)):
                    u.eq(ex, 'matrix of correlation coefficients', x.read(ex, (i, j)), cov(i, j) * T.inv(sd(i, j)))
            ex.lib = dict(ex.lib)
            ex.lib['scipy.linalg.eigh'] = lambda ex, X: (normalised(ex, X), (W_, V_))[1]
            ex.lib['scipy.linalg.inv'] = lambda ex, X: (normalised(ex, X), ex.new_array((n, n), 'real', lambda co: v.read(ex, co)))[1]
            ex.lib['scipy.linalg.svdvals'] = lambda ex, X: (normalised(ex, X), W_)[1]
            kw = {}
            if lam is not None:
                u.requires(ex, T.lt(ZERO, lam))
                u.requires(ex, T.lt(ZERO, num))
                kw.update(meanFieldPriorLmbda=lam, numSamples=num)
            if indep is False:
                kw['indTerm'] = T.FALSE
            if reg is False:
                kw['useRegularizedEq'] = T.FALSE
            gamma = lam * T.inv(num) if lam is not None else ZERO
            b = lambda q: w.read(ex, (q,)) - gamma
            hat = lambda q: (b(q) + T.app('sqrt', (b(q) * b(q) + gamma * 4,), 'real')).scale(T.Fraction(1, 2))
            for ret in u.paths(ex, u.fn(ex, M, 'SmeanField'), [C, A], kw):
                ent, J = ret
                Jc = ex.content(full[-1][0])
                u.holds(ex, 'members of the cluster', T.TRUE if full[-1][1] == C and seen['cluster'] == C else T.FALSE)
                u.eq(ex, 'size of the full matrix', full[-1][2], N)
                i, j = u.idx(ex, 'i', ZERO, n), u.idx(ex, 'j', ZERO, n)

                def coupling(i, j):
                    x = v.read(ex, (i, j)) if reg is False else \
                        ex.sum(ZERO, n, lambda q: v.read(ex, (i, q)) * v.read(ex, (j, q)) * T.inv(hat(q)))
                    return T.ite(T.eq(i, j), ZERO, x * T.inv(sd(i, j)))
                symm = lambda i, j: (coupling(i, j) + coupling(j, i)).scale(T.Fraction(1, 4))
                with ex.assume(T.Not(T.eq(i, j))):
                    u.eq(ex, 'coupling', Jc.read(ex, (i, j)), symm(i, j))
                inv_var = lambda i: T.inv(fr(i) * (ONE - fr(i)))
                field = ex.sum(ZERO, n, lambda j: coupling(i, j) * (cov(i, j) * (fr(i) - T.Fraction(1, 2)) * inv_var(i) - fr(j)))
                if indep is None:
                    field = field - T.flog(fr(i) * T.inv(ONE - fr(i)))
                u.eq(ex, 'field', Jc.read(ex, (i, i)), field)
                e = ZERO if indep is False else -ex.sum(ZERO, n, lambda q: fr(q) * T.flog(fr(q)) + (ONE - fr(q)) * T.flog(ONE - fr(q)))
                e = e + (ex.sum(ZERO, n, lambda q: T.flog(w.read(ex, (q,)))) if reg is False else
                         ex.sum(ZERO, n, lambda q: T.flog(hat(q)) + ONE - hat(q))).scale(T.Fraction(1, 2))
                u.eq(ex, 'entropy', ent, e)


@unit('mean field couplings of the whole matrix; residuals and their scales',
      [M + ':' + f for f in ('JmeanField', 'isingDeltaCooc', 'coocStdevsFlat', 'coocMatBayesianMean')])
def _(u):
    n, R = T.var('n'), T.var('R')
    ex = u.ex('JmeanField')
    u.requires(ex, n >= 1)
    A = ex.sym_array('A', (n, n), 'real')
    J = ex.sym_array('J', (n, n), 'real')
    clo = u.fn(ex, M, 'SmeanField')

    def smf(ex, f, args, kw):
        c = ex.content(args[0])
        u.eq(ex, 'cluster of all', c.shape[0], n)
        i = u.idx(ex, 'i', ZERO, n)
        u.eq(ex, 'member', c.read(ex, (i,)), i)
        u.holds(ex, 'the matrix and the options', T.TRUE if args[1] == A and kw.get('numSamples') is R else T.FALSE)
        return (T.var('S', 'real'), J)
    ex.contracts[(clo.module.get('__path__'), clo.name)] = smf
    for ret in u.paths(ex, u.fn(ex, M, 'JmeanField'), [A], {'numSamples': R}):
        u.holds(ex, 'the couplings', T.TRUE if ret == J else T.FALSE)
    i, j = T.var('i'), T.var('j')
    pos = flat_at(n, i, j)
    for what in ('isingDeltaCooc', 'coocStdevsFlat'):
        ex = u.ex(what)
        u.requires(ex, n >= 1)
        u.requires(ex, R >= 1)
        u.requires(ex, T.And(T.le(ZERO, i), T.le(i, j), T.lt(j, n)))
        ex.hints.append((j - i, j + 1))
        A = ex.sym_array('A', (n, n), 'real')
        X = ex.sym_array('X', (R, n), 'real')
        a, x = ex.content(A), ex.content(X)
        for ret in u.paths(ex, u.fn(ex, M, what), [X, A] if what == 'isingDeltaCooc' else [A, R]):
            u.shape(ex, 'shape', ret, (tri(n + 1),))
            if what == 'isingDeltaCooc':
                want = ex.sum(ZERO, R, lambda r: x.read(ex, (r, i)) * x.read(ex, (r, j))) * T.inv(R) - a.read(ex, (i, j))
            else:
                p = (a.read(ex, (i, j)) * R + 1) * T.inv(R + 2)
                want = T.app('sqrt', (p * (ONE - p) * T.inv(R),), 'real')
            u.elem(ex, 'element (i, j)', ret, (pos,), want)
            u.unchanged(ex, 'matrix', A, a)


@unit('fourth-order co-occurrences', [M + ':fourthOrderCoocMat'])
def _(u):
    u.notes.append('bounded: up to 3 variables (4 in the thorough tier), any samples')
    for ell in range(1, 5 if DEEP else 4):
        ex = u.ex('%d variables' % ell)
        R = T.var('R')
        u.requires(ex, R >= 1)
        X = ex.sym_array('X', (R, P(ell)), 'real')
        x = ex.content(X)
        prs = [(i, i + d) for d in range(ell) for i in range(ell - d)]
        for ret in u.paths(ex, u.fn(ex, M, 'fourthOrderCoocMat'), [X]):
            u.shape(ex, 'shape', ret, (P(len(prs)), P(len(prs))))
            for a, (i, j) in enumerate(prs):
                for b, (k, l) in enumerate(prs):
                    u.elem(ex, '(%d,%d),(%d,%d)' % (i, j, k, l), ret, (P(a), P(b)),
                           ex.sum(ZERO, R, lambda r: x.read(ex, (r, P(i))) * x.read(ex, (r, P(j))) * x.read(ex, (r, P(k))) * x.read(ex, (r, P(l)))) * T.inv(R))


@unit('inverse problem of a cluster posed', [M + ':findJmatrixAnalytic_CoocMat'])
def _(u):
    """coocExpectations, aboveDiagFlat and unflatten by contract; leastsq returns any vector."""
    n = T.var('n')
    for lam in (False, True):
        for bayes in (False, True):
            for init in (False, True):
                ex = u.ex(', '.join(['prior'] * lam + ['bayesian mean'] * bayes + ['initial guess'] * init) or 'plain')
                u.requires(ex, n >= 2)
                A = ex.sym_array('A', (n, n), 'real')
                a = ex.content(A)
                num, lmb, least = T.var('numSamples', 'real'), T.var('lmbda', 'real'), T.var('minSize')
                u.requires(ex, T.lt(ZERO, num))
                u.requires(ex, T.lt(ZERO, lmb))
                target = lambda i, j: (a.read(ex, (i, j)) * num + 1) * T.inv(num + 2) if bayes else a.read(ex, (i, j))
                J0 = ex.sym_array('J0', (n, n), 'real')
                E = ex.sym_array('E', (n, n), 'real')
                clo = u.fn(ex, M, 'coocExpectations')
                given = []

                def expect(ex, f, args, kw):
                    given.append(args[0])
                    u.eq(ex, 'minimum size', kw.get('minSize', ZERO), least)
                    return E
                ex.contracts[(clo.module.get('__path__'), clo.name)] = expect
                sol = ex.sym_array('solution', (tri(n + 1),), 'real')
                i = u.idx(ex, 'i', ZERO, n)
                j = u.idx(ex, 'j', i, n)
                ex.hints.append((j - i, j + 1))
                pos = flat_at(n, i, j)

                def leastsq(ex, f, x0):
                    x = ex.sym_array('any', (tri(n + 1),), 'real')
                    c0, cx = ex.content(x0), ex.content(x)
                    start = ex.content(J0).read(ex, (i, j)) if init else \
                        T.ite(T.eq(i, j), -T.flog(target(i, i) * T.inv(ONE - target(i, i))), ZERO)
                    u.eq(ex, 'starting point', c0.read(ex, (pos,)), start)
                    r = ex.content(ex.call(f, [x]))
                    J = ex.content(given[-1])
                    u.eq(ex, 'expectations at the parameters', J.read(ex, (i, j)), cx.read(ex, (pos,)))
                    with ex.assume(T.lt(i, j)):
                        u.eq(ex, 'nothing below the diagonal', J.read(ex, (j, i)), ZERO)
                    u.eq(ex, 'residual', r.read(ex, (pos,)), ex.content(E).read(ex, (i, j)) - target(i, j))
                    m = tri(n + 1)
                    u.eq(ex, 'number of residuals', r.shape[0], m + tri(n) if lam else m)
                    if lam:
                        with ex.assume(T.lt(i, j)):
                            ex.hints.append((j - i - 1, j))
                            var = lambda q: target(q, q) * (ONE - target(q, q))
                            k = pos - n
                            ex.oblige('position of a coupling', T.And(T.le(ZERO, k), T.lt(k, tri(n))), 'post')
                            u.eq(ex, 'prior on a coupling', r.read(ex, (m + k,)), lmb * T.inv(num) * var(i) * var(j) * cx.read(ex, (pos,)) * cx.read(ex, (pos,)))
                            ex.hints.pop()
                    return (sol, ONE)
                ex.lib = dict(ex.lib)
                ex.lib['scipy.optimize.leastsq'] = leastsq
                kw = {'minSize': least, 'numSamples': num}
                if lam:
                    kw['priorLmbda'] = lmb
                if bayes:
                    kw['bayesianMean'] = T.TRUE
                if init:
                    kw['Jinit'] = J0
                for ret in u.paths(ex, u.fn(ex, M, 'findJmatrixAnalytic_CoocMat'), [A], kw):
                    s = ex.content(sol)
                    u.shape(ex, 'shape', ret, (n, n))
                    want = s.read(ex, (pos,)) * T.ite(T.eq(i, j), ONE, P(T.Fraction(1, 2)))
                    u.elem(ex, 'coupling of the solution', ret, (i, j), want)
                    u.elem(ex, 'symmetric', ret, (j, i), want)
                    u.unchanged(ex, 'matrix', A, a)


def solver(u, ex):
    return ex.alloc(Obj(ex.load(S)['ClusterExpansion'], {}))


def contract(u, ex, path, name, fn):
    clo = u.fn(ex, path, name)
    ex.contracts[(clo.module.get('__path__'), clo.name)] = fn


@unit('entropy of a cluster', [S + ':ClusterExpansion.S', S + ':ClusterExpansion.Sindependent'])
def _(u):
    n, N = T.var('n'), T.var('N')

    def jfull(ex, full):
        def fn(ex, f, args, kw):
            full.append(args)
            return ex.sym_array('Jfull%d' % len(full), (N, N), 'real')
        return fn

    def start(label, size):
        ex = u.ex(label)
        u.requires(ex, N >= 1)
        A = ex.sym_array('A', (N, N), 'real')
        if isinstance(size, int):
            pos = [u.idx(ex, 'p%d' % q, ZERO, N) for q in range(size)]
            for p, q in itertools.combinations(pos, 2):
                u.requires(ex, T.Not(T.eq(p, q)))
            C = ex.alloc(Lst(pos))
        else:
            u.requires(ex, size >= 1)
            C, pos = ex.sym_array('cluster', (size,), 'int', lambda v: T.And(T.le(ZERO, v), T.lt(v, N))), None
        full = []
        contract(u, ex, M, 'JfullFromCluster', jfull(ex, full))
        return ex, A, ex.content(A), C, pos, full
    upper = lambda a, ex, i, j: T.ite(T.le(i, j), a.read(ex, (i, j)), a.read(ex, (j, i)))
    # independent
    ex, A, a, C, pos, full = start('Sindependent', n)
    c = ex.content(C)
    fr = lambda q: a.read(ex, (c.read(ex, (q,)), c.read(ex, (q,))))
    for ret in u.paths(ex, u.fn(ex, S, 'ClusterExpansion.Sindependent'), [solver(u, ex), C, A]):
        u.eq(ex, 'entropy', ret[0], -ex.sum(ZERO, n, lambda q: fr(q) * T.flog(fr(q)) + (ONE - fr(q)) * T.flog(ONE - fr(q))))
        J = ex.content(full[-1][0])
        i, j = u.idx(ex, 'i', ZERO, n), u.idx(ex, 'j', ZERO, n)
        u.eq(ex, 'couplings', J.read(ex, (i, j)), T.ite(T.eq(i, j), -T.flog(fr(i) * T.inv(ONE - fr(i))), ZERO))
        u.holds(ex, 'members', T.TRUE if full[-1][1] == C else T.FALSE)
        u.eq(ex, 'size', full[-1][2], N)
        u.unchanged(ex, 'matrix', A, a)
    # fitted
    for size, analytic in ((1, False), (2, False), (3, False), (n, False), (1, True), (2, True), (3, True)):
        ex, A, a, C, pos, full = start('S, %s members%s' % (size, ', analytic' * analytic), size)
        J = ex.sym_array('J', (P(size), P(size)), 'real')
        given = []

        def fit(ex, f, args, kw):
            given.append((args, kw))
            return J
        contract(u, ex, M, 'findJmatrixAnalytic_CoocMat', fit)
        contract(u, ex, M, 'analyticEntropy', lambda ex, f, args, kw: (given.append(args[0]), T.var('S', 'real'))[1])
        lam, num = T.var('lmbda', 'real'), T.var('num', 'real')
        for ret in u.paths(ex, u.fn(ex, S, 'ClusterExpansion.S'), [solver(u, ex), C, A], {'priorLmbda': lam, 'numSamples': num, 'useAnalyticResults': T.TRUE if analytic else T.FALSE}):
            Jc = given.pop()
            u.holds(ex, 'entropy and full couplings of the same couplings', T.TRUE if Jc == full[-1][0] and ret[0] is T.var('S', 'real') and full[-1][1] == C else T.FALSE)
            u.eq(ex, 'size', full[-1][2], N)
            i, j = u.idx(ex, 'i', ZERO, P(size)), u.idx(ex, 'j', ZERO, P(size))
            if given:
                args, kw = given.pop()
                u.holds(ex, 'fitted couplings, the given prior', T.TRUE if Jc == J and kw.get('priorLmbda') is lam and kw.get('numSamples') is num else T.FALSE)
                x = ex.content(args[0])
                c = ex.content(C)
                u.shape(ex, 'correlations of the cluster', args[0], (P(size), P(size)))
                u.eq(ex, 'correlation', x.read(ex, (i, j)), upper(a, ex, c.read(ex, (i,)), c.read(ex, (j,))))
                u.holds(ex, 'not the analytic results', T.TRUE if not analytic or size == 3 else T.FALSE)
            else:
                u.holds(ex, 'analytic results asked for', T.TRUE if analytic and size < 3 else T.FALSE)
                x = ex.content(Jc)
                if size == 1:
                    p = a.read(ex, (pos[0], pos[0]))
                    u.eq(ex, 'field', x.read(ex, (ZERO, ZERO)), -T.flog(p * T.inv(ONE - p)))
                else:
                    p = [a.read(ex, (q, q)) for q in pos]
                    pq = upper(a, ex, pos[0], pos[1])
                    none = ONE - p[0] - p[1] + pq
                    u.requires(ex, T.And(T.lt(ZERO, pq), T.lt(ZERO, none), T.lt(ZERO, p[0] - pq), T.lt(ZERO, p[1] - pq)))
                    for q in range(2):
                        u.eq(ex, 'field %d' % q, x.read(ex, (P(q), P(q))), -T.flog((p[q] - pq) * T.inv(none)))
                    want = -(T.flog(pq) - T.flog(p[0] - pq) - T.flog(p[1] - pq) + T.flog(none)).scale(T.Fraction(1, 2))
                    for q in range(2):
                        u.eq(ex, 'coupling', x.read(ex, (P(q), P(1 - q))), want)
            u.unchanged(ex, 'matrix', A, a)


@unit('subsets of a cluster', [S + ':ClusterExpansion.subsets', S + ':ClusterExpansion.clusterID'])
def _(u):
    u.notes.append('bounded: up to 5 members (7 in the thorough tier), given in any of several orders')
    for n in range(0, 8 if DEEP else 6):
        for order in {tuple(range(n)), tuple(range(n))[::-1], tuple((3 * k + 1) % 7 for k in range(n))}:
            items = [10 * k + 3 for k in order]
            for size in range(1, n + 2):
                ex = u.ex('%d of %s' % (size, items))
                for ret in u.paths(ex, u.fn(ex, S, 'ClusterExpansion.subsets'), [solver(u, ex), ex.alloc(Lst([P(x) for x in items])), P(size)]):
                    rows = [tuple(sorted(int(P(x).const()) for x in ex.sequence(r))) for r in ex.sequence(ret)]
                    want = sorted(itertools.combinations(sorted(items), size))
                    u.holds(ex, 'all subsets, once each', T.TRUE if sorted(rows) == want else T.FALSE)


def key(ex, cluster):
    return tuple(sorted(int(P(x).const()) for x in ex.sequence(cluster)))


def name_of(k):
    return '_'.join(map(str, k))


def matrix(ex, N, name):
    return ex.new_array((N, N), 'real', lambda co: T.app(name, tuple(co), 'real'))


def contributions(u, ex, N, ref, seen=None, lam=None, num=None, mflam=None):
    """S, Sindependent and SmeanField by contract: a number and a matrix for every cluster."""
    lam = ZERO if lam is None else lam

    def full(ex, f, args, kw):
        k = key(ex, args[1])
        if seen is not None:
            seen.append(k)
        u.holds(ex, 'the given prior and samples', T.TRUE if kw.get('priorLmbda', ZERO) is lam and kw.get('numSamples') is num else T.FALSE)
        return (T.var('S_' + name_of(k), 'real'), matrix(ex, N, 'J_' + name_of(k)))

    def reference(ex, f, args, kw):
        if ref == 'mean':
            u.holds(ex, 'the given prior and samples of the reference', T.TRUE if args[2] is mflam and args[3] is num else T.FALSE)
        k = key(ex, args[0] if ref == 'mean' else args[1])
        return (T.var('R_' + name_of(k), 'real'), matrix(ex, N, 'K_' + name_of(k)))
    contract(u, ex, S, 'ClusterExpansion.S', full)
    if ref == 'mean':
        contract(u, ex, M, 'SmeanField', reference)
    else:
        contract(u, ex, S, 'ClusterExpansion.Sindependent', reference)


def moebius(k, f):
    out = ZERO
    for m in range(1, len(k) + 1):
        for b in itertools.combinations(k, m):
            out = out + f(b).scale((-1) ** (len(k) - m))
    return out


ds = lambda k: moebius(k, lambda b: T.var('S_' + name_of(b), 'real') - T.var('R_' + name_of(b), 'real'))
dj = lambda k, i, j: moebius(k, lambda b: T.app('J_' + name_of(b), (i, j), 'real') - T.app('K_' + name_of(b), (i, j), 'real'))


@unit('contribution of a cluster', [S + ':ClusterExpansion.deltaS', S + ':ClusterExpansion.clusterID', S + ':ClusterExpansion.subsets'])
def _(u):
    """Recursion executed with S and the reference by contract."""
    u.notes.append('bounded: clusters of up to 4 members (5 in the thorough tier); entropies, couplings and sizes arbitrary')
    N = T.var('N')
    lam, mf = T.var('lmbda', 'real'), T.var('mflmbda', 'real')
    for ref in ('independent', 'mean'):
        for cluster in [(4,), (4, 1), (1, 4), (2, 0, 5), (0, 3, 1, 2)] + [(0, 1, 2, 3, 4)] * DEEP:
            for before in ((), (1,), (0, 1), (0, 2), 'all') if len(cluster) > 2 and ref == 'independent' else ((),):
                ex = u.ex('%s reference, cluster %s%s' % (ref, cluster, ', after %s' % (before,) if before else ''))
                u.requires(ex, N >= 6)
                i, j = u.idx(ex, 'i', ZERO, N), u.idx(ex, 'j', ZERO, N)
                seen = []
                num = T.var('num', 'real')
                contributions(u, ex, N, ref, seen, lam, num, mf)
                full = tuple(sorted(cluster))
                have = {}
                for m in range(1, len(full) + (before == 'all')):
                    for b in itertools.combinations(full, m):
                        if before == 'all' or before and set(b) <= set(before):
                            have[b] = (ds(b), matrix(ex, N, 'had_' + name_of(b)))
                known = dict(have)
                D = ex.alloc(Dct({ex.dkey(tuple(P(x) for x in b)): v[0] for b, v in have.items()}))
                DJ = ex.alloc(Dct({ex.dkey(tuple(P(x) for x in b)): v[1] for b, v in have.items()}))
                o = solver(u, ex)
                A = ex.sym_array('A', (N, N), 'real')
                kw = dict(iprint=T.FALSE, priorLmbda=lam, numSamples=num, meanFieldPriorLmbda=mf)
                kw['independentRef' if ref == 'independent' else 'meanFieldRef'] = T.TRUE
                # matrices computed earlier are the contributions of their clusters
                def given(t):
                    return T.subst(t, {T.app('had_' + name_of(b), (i, j), 'real').as_atom(): dj(b, i, j) for b in have}) if have else t
                for ret in u.paths(ex, u.fn(ex, S, 'ClusterExpansion.deltaS'), [o, ex.alloc(Lst([P(x) for x in cluster])), A, D, DJ], kw):
                    u.eq(ex, 'entropy minus the contributions of the proper subsets', ret[0], ds(full))
                    u.eq(ex, 'couplings minus the contributions of the proper subsets', given(ex.content(ret[1]).read(ex, (i, j))), dj(full, i, j))
                    ents = {tuple(int(P(x).const()) for x in ex.unkey(k)): v for k, v in ex.cell(D).d.items()}
                    mats = {tuple(int(P(x).const()) for x in ex.unkey(k)): v for k, v in ex.cell(DJ).d.items()}
                    subs = [b for m in range(1, len(full) + 1) for b in itertools.combinations(full, m)]
                    u.holds(ex, 'the tables hold the cluster and its subsets', T.TRUE if set(ents) == set(mats) == set(subs) else T.FALSE)
                    u.holds(ex, 'nothing computed twice', T.TRUE if sorted(seen) == sorted(b for b in subs if b not in known) else T.FALSE)
                    for b in subs:
                        u.eq(ex, 'entropy contribution of %s' % (b,), ents[b], ds(b))
                        u.eq(ex, 'coupling contribution of %s' % (b,), given(ex.content(mats[b]).read(ex, (i, j))), dj(b, i, j))
    for a, b in ((T.TRUE, T.TRUE), (T.FALSE, T.FALSE)):
        ex = u.ex('no or two references')
        u.must_raise(ex, u.fn(ex, S, 'ClusterExpansion.deltaS'), [solver(u, ex), ex.alloc(Lst([ZERO])), ex.sym_array('A', (N, N), 'real')],
                     {'iprint': T.FALSE, 'meanFieldRef': a, 'independentRef': b}, name='needs one reference')


def sym(ex, N, name):
    f = lambda i, j: T.ite(T.le(i, j), T.app(name, (P(i), P(j)), 'real'), T.app(name, (P(j), P(i)), 'real'))
    return ex.new_array((N, N), 'real', lambda co: f(co[0], co[1]))


def pm(ex, n, f):
    """Fields and couplings of spins -1 and 1 for energies f(i,j) of zeros and ones."""
    c = lambda i, j: -(f(P(min(i, j)), P(max(i, j))).scale(2))
    h = [(-f(P(i), P(i))).scale(T.Fraction(1, 2)) + sum((c(i, j) for j in range(n) if j != i), ZERO).scale(T.Fraction(1, 4)) for i in range(n)]
    return h + [c(i, j).scale(T.Fraction(1, 4)) for i, j in itertools.combinations(range(n), 2)]


@unit('expansion over clusters', [S + ':ClusterExpansion.solve', S + ':ClusterExpansion.clusterID', 'coniii/utils.py:convert_params', 'coniii/utils.py:zero_diag'], timeout=600)
def _(u):
    """deltaS and the references by contract: any contribution and symmetric matrix for every cluster; any threshold."""
    u.notes.append('bounded: 2 and 3 spins')
    for n in (2, 3):
        for ref in ('independent', 'mean', 'both', 'independent, given') if n == 2 or DEEP else ('independent',):
            ex = u.ex('%d spins, %s' % (n, ref))
            R, thr, lam, num, mf = T.var('R'), T.var('T', 'real'), T.var('lmbda', 'real'), T.var('num', 'real'), T.var('mflmbda', 'real')
            u.requires(ex, R >= 1)
            X = ex.sym_array('X', (R, P(n)), 'int')
            x = ex.content(X)
            C = ex.sym_array('C', (P(n), P(n)), 'real')
            o = solver(u, ex)
            ex.setattr(o, 'sample', X)
            whole = tuple(range(n))

            def cooc(ex, f, args, kw):
                r, i = u.idx(ex, 'r', ZERO, R), u.idx(ex, 'i', ZERO, P(n))
                u.elem(ex, 'zeros and ones of the sample', args[0], (r, i), (x.read(ex, (r, i)) + 1).scale(T.Fraction(1, 2)))
                return C

            def delta(ex, f, args, kw):
                k = key(ex, args[1])
                own = T.TRUE
                u.holds(ex, 'the co-occurrences and options given', T.TRUE if args[2] == C and kw['priorLmbda'] is lam and kw['numSamples'] is num
                        and kw['meanFieldPriorLmbda'] is (mf if ref == 'mean' else lam) and kw['meanFieldRef'] is (T.TRUE if ref == 'mean' else T.FALSE)
                        and kw['independentRef'] is (T.FALSE if ref == 'mean' else T.TRUE) else T.FALSE)
                for m in range(1, len(k) + 1):
                    for b in itertools.combinations(k, m):
                        kk = ex.dkey(tuple(P(q) for q in b))
                        if kk not in ex.cell(args[3]).d:
                            for t, v in ((args[3], T.var('dS_' + name_of(b), 'real')), (args[4], sym(ex, P(n), 'dJ_' + name_of(b)))):
                                ex.st.heap[t.id] = Dct({**ex.cell(t).d, kk: v})
                kk = ex.dkey(tuple(P(q) for q in k))
                return (ex.cell(args[3]).d[kk], ex.cell(args[4]).d[kk])

            def reference(ex, f, args, kw):
                k = key(ex, args[0] if ref == 'mean' else args[1])
                ok = (args[1] == C and args[2] is mf and args[3] is num) if ref == 'mean' else args[2] == C
                u.holds(ex, 'the reference of all the spins', T.TRUE if k == whole and ok else T.FALSE)
                return (T.var('S0', 'real'), sym(ex, P(n), 'J0'))
            contract(u, ex, M, 'cooccurrence_matrix', cooc)
            contract(u, ex, S, 'ClusterExpansion.deltaS', delta)
            contract(u, ex, M, 'SmeanField', reference if ref == 'mean' else None)
            contract(u, ex, S, 'ClusterExpansion.Sindependent', reference)
            f = u.fn(ex, S, 'ClusterExpansion.solve')
            kw = dict(iprint=T.FALSE, priorLmbda=lam, numSamples=num, full_output=T.TRUE)
            if ref == 'both':
                u.must_raise(ex, f, [o, thr], dict(kw, meanFieldRef=T.TRUE, independentRef=T.TRUE), name='two references')
                continue
            D, DJ = None, None
            if ref == 'mean':
                kw.update(meanFieldRef=T.TRUE, independentRef=T.FALSE, meanFieldPriorLmbda=mf)
            elif 'given' in ref:
                # results of an earlier expansion are reused
                D, DJ = ex.alloc(Dct({})), ex.alloc(Dct({}))
                kw.update(cluster=ex.alloc(Lst([P(q) for q in whole[::-1]])), deltaSdict=D, deltaJdict=DJ)
            for ret in u.paths(ex, f, [o, thr], kw):
                mult, ent, clusters = ret[0], ret[1], ret[2]
                kept = {int(P(ex.unkey(k)).const()): sorted(key(ex, c) for c in ex.sequence(v)) for k, v in ex.cell(clusters).d.items()}
                u.holds(ex, 'every spin alone', T.TRUE if kept[1] == [(i,) for i in whole] else T.FALSE)
                u.holds(ex, 'no cluster twice', T.TRUE if all(len(set(v)) == len(v) and all(len(c) == m for c in v) for m, v in kept.items()) else T.FALSE)
                ended = False
                for m in range(2, n + 2):
                    last = kept.get(m - 1, [])
                    ended = ended or not last
                    # unions of two clusters of the size before that share all but one member each
                    cand = sorted({tuple(sorted(set(a) | set(b))) for a, b in itertools.combinations(last, 2) if len(set(a) & set(b)) == m - 2})
                    u.holds(ex, 'expansion ends when no cluster is left', T.TRUE if (m in kept) != ended else T.FALSE)
                    u.holds(ex, 'clusters of two smaller ones', T.TRUE if set(kept.get(m, [])) <= set(cand) else T.FALSE)
                    for c in cand:
                        dc = T.var('dS_' + name_of(c), 'real')
                        big = T.Or(T.lt(thr, dc), T.lt(thr, -dc))
                        u.holds(ex, 'kept when above the threshold', big if c in kept[m] else T.Not(big))
                allc = [c for v in kept.values() for c in v]
                u.eq(ex, 'entropy', ent, T.var('S0', 'real') + sum((T.var('dS_' + name_of(c), 'real') for c in allc), ZERO))
                want = pm(ex, n, lambda i, j: sum((T.app('dJ_' + name_of(c), (i, j), 'real') for c in allc), T.app('J0', (i, j), 'real')))
                u.shape(ex, 'multipliers', mult, (P(len(want)),))
                for q, w in enumerate(want):
                    u.eq(ex, 'reference plus the contributions of the clusters kept, for spins -1 and 1', ex.content(mult).read(ex, (P(q),)), w)
                u.holds(ex, 'stored', T.TRUE if ex.getattr(o, 'multipliers') == mult else T.FALSE)
                if D is not None:
                    u.holds(ex, 'the tables given are filled', T.TRUE if ret[3] == D and ret[4] == DJ else T.FALSE)


@unit('regularized mean field', [S + ':RegularizedMeanField.solve', S + ':RegularizedMeanField.bracket1d', 'coniii/utils.py:convert_params', 'coniii/utils.py:zero_diag'])
def _(u):
    """The mean field, co-occurrences, residuals, scales and the model by contract; the minimiser returns any number."""
    for n in (1, 2, 3) + (4,) * DEEP:
        for reset in (True, False):
            ex = u.ex('%d spins%s' % (n, ', generator kept' * (not reset)))
            R, RR = T.var('R'), T.var('RR')
            u.requires(ex, R >= 1)
            u.requires(ex, RR >= 1)
            X = ex.sym_array('X', (R, P(n)), 'int')
            Y = ex.sym_array('Y', (RR, P(n)), 'int')
            x, y = ex.content(X), ex.content(Y)
            C = ex.sym_array('C', (P(n), P(n)), 'real', lambda v: T.And(T.lt(ZERO, v), T.lt(v, ONE)))
            L = P(n * (n + 1) // 2)
            scale = ex.sym_array('scale', (L,), 'real', lambda v: T.lt(ZERO, v))
            log = []

            def halved(what, arr, c, m):
                r, i = u.idx(ex, 'r', ZERO, m), u.idx(ex, 'i', ZERO, P(n))
                u.shape(ex, what, arr, (m, P(n)))
                u.elem(ex, what, arr, (r, i), (c.read(ex, (r, i)) + 1).scale(T.Fraction(1, 2)))

            def cooc(ex, f, args, kw):
                halved('zeros and ones of the sample', args[0], x, R)
                return C

            def mean(ex, f, args, kw):
                u.holds(ex, 'mean field of the co-occurrences of the sample', T.TRUE if args[0] == C and len(args) == 1 and set(kw) == {'meanFieldPriorLmbda', 'numSamples'} else T.FALSE)
                u.eq(ex, 'number of samples', kw['numSamples'], R)
                name = 'J%d' % len(log)
                log.append(('J', kw['meanFieldPriorLmbda'], name))
                return sym(ex, P(n), name)

            def scales(ex, f, args, kw):
                u.holds(ex, 'scales of the residuals of the sample', T.TRUE if args[0] == C else T.FALSE)
                u.eq(ex, 'number of samples', args[1], R)
                return scale

            def delta(ex, f, args, kw):
                halved('zeros and ones of the model sample', args[0], y, RR)
                u.holds(ex, 'against the sample', T.TRUE if args[1] == C else T.FALSE)
                r = ex.sym_array('dc%d' % len(log), (L,), 'real')
                log.append(('dc', r))
                return r
            contract(u, ex, M, 'cooccurrence_matrix', cooc)
            contract(u, ex, M, 'JmeanField', mean)
            contract(u, ex, M, 'coocStdevsFlat', scales)
            contract(u, ex, M, 'isingDeltaCooc', delta)
            contract(u, ex, M, 'coocSampleCovariance', lambda ex, f, args, kw: None)
            o = ex.alloc(Obj(ex.load(S)['RegularizedMeanField'], {}))
            rng = ex.alloc(Obj(None, {'randint': Native(lambda ex, *a, **k: T.var('seed'), 'randint')}))
            model = ex.alloc(Obj(None, {'rng': rng, 'sample': None}))
            ex.setattr(model, 'set_rng', Native(lambda ex, r: log.append(('rng', r)), 'set_rng'))
            ex.setattr(model, 'set_multipliers', Native(lambda ex, m: log.append(('mult', ex.content(m))), 'set_multipliers'))

            def draw(ex, *a, **k):
                log.append(('draw', a, k))
                ex.setattr(model, 'sample', Y)
            ex.setattr(model, 'generate_sample', Native(draw, 'generate_sample'))
            for k, v in (('sample', X), ('model', model), ('n', P(n)), ('iprint', T.FALSE)):
                ex.setattr(o, k, v)
            pm_ = sum((ex.content(C).read(ex, (P(i), P(i))) for i in range(n)), ZERO).scale(T.Fraction(1, n))
            prior = lambda g: g * T.inv(pm_ * pm_ * (ONE - pm_) * (ONE - pm_))
            u.requires(ex, T.And(T.lt(ZERO, pm_), T.lt(pm_, ONE)))
            best = T.var('best', 'real')
            values = []

            def mult_of(c, name):
                want = pm(ex, n, lambda i, j: T.app(name, (i, j), 'real'))
                u.eq(ex, 'number of parameters', c.shape[0], P(len(want)))
                for q, w in enumerate(want):
                    u.eq(ex, 'parameters of the mean field for spins -1 and 1', c.read(ex, (P(q),)), w)

            def minimise(ex, fun, **kw):
                g = T.var('g', 'real')
                for turn in range(2):
                    del log[:]
                    v = ex.call(fun, [g], {})
                    u.holds(ex, 'one mean field, sampled once, in order', T.TRUE if [e[0] for e in log] == ['J', 'rng', 'mult', 'draw', 'dc'] else T.FALSE)
                    u.eq(ex, 'prior from its strength', log[0][1], prior(g))
                    mult_of(log[2][1], log[0][2])
                    u.holds(ex, 'the generator in the same state at every evaluation', T.TRUE if (reset and log[1][1] != rng or not reset and log[1][1] == rng) else T.FALSE)
                    if reset:
                        values.append(getattr(log[1][1], 'src', None))
                        u.holds(ex, 'seeded alike', T.TRUE if isinstance(values[-1], tuple) and values[-1] == ('seed', T.var('seed')) else T.FALSE)
                    dc, sc = ex.content(log[4][1]), ex.content(scale)
                    u.eq(ex, 'sum of squared scaled residuals', v, sum(((dc.read(ex, (P(q),)) * T.inv(sc.read(ex, (P(q),)))) * (dc.read(ex, (P(q),)) * T.inv(sc.read(ex, (P(q),)))) for q in range(int(L.const()))), ZERO))
                del log[:]
                return ex.alloc(Dct({'x': best}))
            ex.lib = dict(ex.lib)
            ex.lib['scipy.optimize.minimize_scalar'] = minimise
            for ret in u.paths(ex, u.fn(ex, S, 'RegularizedMeanField.solve'), [o], {'reset_rng': T.TRUE if reset else T.FALSE}):
                u.holds(ex, 'the mean field of the minimum', T.TRUE if [e[0] for e in log] == ['J'] else T.FALSE)
                u.eq(ex, 'its prior', log[0][1], prior(best))
                mult_of(ex.content(ret), log[0][2])
                u.holds(ex, 'stored', T.TRUE if ex.getattr(o, 'multipliers') == ret else T.FALSE)
                u.unchanged(ex, 'sample', X, x)


@unit('bracket of the minimum on a grid', [S + ':RegularizedMeanField.bracket1d'])
def _(u):
    """All sizes; numpy.argmin by contract: an index within the vector whose entry no other is below."""
    for end in (False, True):
        bracket(u, end)


def bracket(u, end):
    ex = u.ex('minimum at an end' if end else 'any grid')
    n = T.var('n')
    u.requires(ex, n >= 1)
    X, F = ex.sym_array('x', (n,), 'real'), ex.sym_array('f', (n,), 'real')
    f0 = ex.content(F)
    calls = []

    def argmin(ex, v):
        c = ex.content(v)
        ex.oblige('argmin of a vector that is not empty', T.le(ONE, c.shape[0]), 'callee-pre')
        k = T.fresh('argmin')
        ex.st.facts += [T.le(ZERO, k), T.lt(k, c.shape[0])]
        if not calls:
            inside = T.And(T.lt(ZERO, k), T.lt(k, n - 1))
            ex.st.facts.append(T.Not(inside) if end else inside)
        calls.append((k, c))
        return k
    ex.lib = dict(ex.lib)
    ex.lib['numpy.argmin'] = argmin
    o = ex.alloc(Obj(ex.load(S)['RegularizedMeanField'], {}))
    if end:
        u.must_raise(ex, u.fn(ex, S, 'RegularizedMeanField.bracket1d'), [o, X, F], {}, name='no bracket')
        return
    for ret in u.paths(ex, u.fn(ex, S, 'RegularizedMeanField.bracket1d'), [o, X, F]):
        k = calls[0][0]
        u.holds(ex, 'minimum of the whole grid, not at its ends', T.And(T.lt(ZERO, k), T.lt(k, n - 1)))
        xs = ex.content(X)
        u.eq(ex, 'the middle', ret[1], xs.read(ex, (k,)))
        # the one below and the one above: each the best of its side
        lo, hi = calls[1], calls[2]
        i = u.idx(ex, 'i', ZERO, n)
        u.eq(ex, 'over the whole grid', calls[0][1].shape[0], n)
        u.elem(ex, 'of the values given', X, (i,), xs.read(ex, (i,)))
        for (kk, c), first, size, got, name in ((lo, ZERO, k, ret[0], 'below'), (hi, k + 1, n - k - 1, ret[2], 'above')):
            u.eq(ex, name + ': points of this side', c.shape[0], size)
            q = u.idx(ex, 'q', ZERO, size)
            u.eq(ex, name + ': their values', c.read(ex, (q,)), f0.read(ex, (first + q,)))
            u.eq(ex, name + ': the best of them', got, xs.read(ex, (first + kk,)))
        u.unchanged(ex, 'values', F, f0)

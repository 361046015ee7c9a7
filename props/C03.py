"""C03: changing basis between {0,1} and {-1,1} preserves the model."""
from fractions import Fraction
from pyvc.units import unit
from pyvc import terms as T
from pyvc import sums
from pyvc.terms import P, ZERO, ONE
from pyvc.lib import pidx, tri
U = 'coniii/utils.py'
H = Fraction(1, 2)


def sym(n, J, i, j):
    """entry (i,j) of the symmetric matrix with the couplings J at the canonical positions"""
    return T.ind(T.lt(i, j)) * J(pidx(n, i, j)) + T.ind(T.lt(j, i)) * J(pidx(n, j, i))


def rowsum(ex, n, J, i):
    return ex.sum(ZERO, i, lambda j: J(pidx(n, j, i))) + ex.sum(i + 1, n, lambda j: J(pidx(n, i, j)))


def params(ex, n, matrix, so='real'):
    h = ex.sym_array('h', (n,), so)
    if not matrix:
        J = ex.sym_array('J', (tri(n),), so)
        J0 = ex.content(J)
        return h, J, lambda q: J0.read(ex, (q,))
    Jv = lambda q: T.app('J', (q,), so)
    J = ex.new_array((n, n), so, lambda c: sym(n, Jv, *c))
    return h, J, Jv


@unit('convert_params', [U + ':convert_params'])
def convert_params(u):
    for to in ('11', '01'):
        for matrix in (False, True):
            for concat, so in ((False, 'real'), (True, 'real'), (False, 'int')):
                ex = u.ex('%s%s%s%s' % (to, ' matrix' if matrix else '', ' concatenated' if concat else '', ' of integers' if so == 'int' else ''))
                n = T.var('n')
                u.requires(ex, n >= 2)
                h, J, Jv = params(ex, n, matrix, so)
                h0, J0 = ex.content(h), ex.content(J)
                I, K = T.var('I'), T.var('K')
                ex.hints.append((I, K))
                r = u.call(ex, u.fn(ex, U, 'convert_params'), [h, J, to], dict(concat=T.TRUE if concat else T.FALSE))
                i = u.idx(ex, 'i', 0, n)
                hh = h0.read(ex, (i,))
                R = rowsum(ex, n, Jv, i)
                wh = hh.scale(H) + R.scale(H * H) if to == '11' else hh.scale(2) - R.scale(2)
                ex.st.facts += [I >= 0, I < K, K < n]
                wj = Jv(pidx(n, I, K)).scale(Fraction(1, 4) if to == '11' else 4)
                if concat:
                    u.shape(ex, 'one vector', r, [n + tri(n)])
                    u.elem(ex, 'fields come first', r, [i], wh)
                    u.elem(ex, 'couplings follow in canonical order', r, [n + pidx(n, I, K)], wj)
                else:
                    u.shape(ex, 'one field per spin', r[0], [n])
                    u.shape(ex, 'one coupling per pair', r[1], [tri(n)])
                    u.elem(ex, 'field', r[0], [i], wh)
                    u.elem(ex, 'coupling', r[1], [pidx(n, I, K)], wj)
                u.unchanged(ex, 'fields unchanged', h, h0)
                u.unchanged(ex, 'couplings unchanged', J, J0)


@unit('convert_params rejects unknown bases', [U + ':convert_params'])
def convert_params_bad(u):
    for bad in ('10', '', 'x', None, P(11), P(1)):
        ex = u.ex(repr(bad))
        n = T.var('n')
        u.requires(ex, n >= 2)
        h, J, Jv = params(ex, n, False)
        u.must_raise(ex, u.fn(ex, U, 'convert_params'), [h, J, bad])


@unit('convert_params round trip', [U + ':convert_params'])
def roundtrip(u):
    for to, back in (('11', '01'), ('01', '11')):
        ex = u.ex(to + ' and back')
        n = T.var('n')
        u.requires(ex, n >= 2)
        h, J, Jv = params(ex, n, False)
        I, K = T.var('I'), T.var('K')
        ex.hints.append((I, K))
        f = u.fn(ex, U, 'convert_params')
        a, b = u.call(ex, f, [h, J, to])
        x, y = u.call(ex, f, [a, b, back])
        i = u.idx(ex, 'i', 0, n)
        u.elem(ex, 'fields restored', x, [i], ex.content(h).read(ex, (i,)))
        ex.st.facts += [I >= 0, I < K, K < n]
        u.elem(ex, 'couplings restored', y, [pidx(n, I, K)], Jv(pidx(n, I, K)))


@unit('the converted parameters give the same energies (lemma)', ['lemma'])
def energy_lemma(u):
    """For the parameters established by the postconditions of convert_params, F(i,j) = J at the position of the pair i<j."""
    h = lambda i: T.app('h', (i,), 'real')
    s = lambda i: T.app('s', (i,), 'real')
    F = lambda i, j: T.app('F', (i, j), 'real')
    ex = u.ex()

    def swap(n):
        a = ex.sum(ZERO, n, lambda i: s(i) * (ex.sum(ZERO, i, lambda j: F(j, i)) + ex.sum(i + 1, n, lambda j: F(i, j))))
        return a - ex.sum(ZERO, n, lambda i: ex.sum(i + 1, n, lambda j: F(i, j) * (s(i) + s(j))))
    sums.induct(ex, 'sum over spins of row sums equals sum over pairs', swap)
    n = T.var('n')
    u.requires(ex, n >= 0)
    sw = swap(n)

    def en(h_, F_, s_):
        return -ex.sum(ZERO, n, lambda i: h_(i) * s_(i)) - ex.sum(ZERO, n, lambda i: ex.sum(i + 1, n, lambda j: F_(i, j) * s_(i) * s_(j)))
    row = lambda i: ex.sum(ZERO, i, lambda j: F(j, i)) + ex.sum(i + 1, n, lambda j: F(i, j))
    # to +-1: binary state (s+1)/2
    e01 = en(h, F, lambda i: s(i).scale(H) + H)
    e11 = en(lambda i: h(i).scale(H) + row(i).scale(H * H), lambda i, j: F(i, j).scale(H * H), s)
    const = -ex.sum(ZERO, n, lambda i: h(i).scale(H)) - ex.sum(ZERO, n, lambda i: ex.sum(i + 1, n, lambda j: F(i, j).scale(H * H)))
    sums.prove_eq(ex, 'to {-1,1}: energies differ by one constant', e01 - e11 - sw.scale(H * H), const, 'lemma')
    # to {0,1}: spin 2s-1
    e11 = en(h, F, lambda i: s(i).scale(2) - 1)
    e01 = en(lambda i: (h(i) - row(i)).scale(2), lambda i, j: F(i, j).scale(4), s)
    const = ex.sum(ZERO, n, h) - ex.sum(ZERO, n, lambda i: ex.sum(i + 1, n, lambda j: F(i, j)))
    sums.prove_eq(ex, 'to {0,1}: energies differ by one constant', e11 - e01 + sw.scale(2), const, 'lemma')


@unit('convert_corr', [U + ':convert_corr'])
def convert_corr(u):
    for to in ('01', '11'):
        for concat, so in ((False, 'real'), (True, 'real'), (False, 'int')):
            ex = u.ex(to + (' concatenated' if concat else '') + (' of integers' if so == 'int' else ''))
            n = T.var('n')
            u.requires(ex, n >= 1)
            si = ex.sym_array('si', (n,), so)
            ss = ex.sym_array('sisj', (tri(n),), so)
            a, b = ex.content(si), ex.content(ss)
            I, K = T.var('I'), T.var('K')
            ex.hints.append((I, K))
            r = u.call(ex, u.fn(ex, U, 'convert_corr'), [si, ss, to], dict(concat=T.TRUE if concat else T.FALSE))
            i = u.idx(ex, 'i', 0, n)
            ex.st.facts += [I >= 0, I < K, K < n]
            A = lambda q: a.read(ex, (q,))
            q = b.read(ex, (pidx(n, I, K),))
            ws = A(i).scale(2) - 1 if to == '11' else (A(i) + 1).scale(H)
            wp = q.scale(4) - A(I).scale(2) - A(K).scale(2) + 1 if to == '11' else (q + A(I) + A(K) + 1).scale(H * H)
            if concat:
                u.shape(ex, 'one vector', r, [n + tri(n)])
                u.elem(ex, 'means come first', r, [i], ws)
                u.elem(ex, 'pairs follow in canonical order', r, [n + pidx(n, I, K)], wp)
            else:
                u.shape(ex, 'one mean per spin', r[0], [n])
                u.shape(ex, 'one correlation per pair', r[1], [tri(n)])
                u.elem(ex, 'mean', r[0], [i], ws)
                u.elem(ex, 'pair correlation', r[1], [pidx(n, I, K)], wp)
            u.unchanged(ex, 'means unchanged', si, a)
            u.unchanged(ex, 'pair correlations unchanged', ss, b)
    for bad in ('10', P(11), 'x', None):
        ex = u.ex(repr(bad))
        n = T.var('n')
        u.requires(ex, n >= 1)
        u.must_raise(ex, u.fn(ex, U, 'convert_corr'), [ex.sym_array('si', (n,)), ex.sym_array('sisj', (tri(n),)), bad])


@unit('converted correlations are those of the converted sample (lemma)', ['lemma'])
def corr_lemma(u):
    """For weights w summing to one and spins x: the conversion formulas of convert_corr applied to the averages."""
    ex = u.ex()
    R = T.var('R')
    u.requires(ex, R >= 1)
    w = lambda r: T.app('w', (r,), 'real')
    x, y = (lambda r: T.app('x', (r,), 'real')), (lambda r: T.app('y', (r,), 'real'))
    av = lambda f: ex.sum(ZERO, R, lambda r: w(r) * f(r))
    ex.st.facts.append(T.eq(av(lambda r: ONE), ONE))
    mx, my, mxy = av(x), av(y), av(lambda r: x(r) * y(r))
    sums.prove_eq(ex, 'pairs to {-1,1}', av(lambda r: (x(r).scale(2) - 1) * (y(r).scale(2) - 1)), mxy.scale(4) - mx.scale(2) - my.scale(2) + 1, 'lemma')
    sums.prove_eq(ex, 'means to {-1,1}', av(lambda r: x(r).scale(2) - 1), mx.scale(2) - 1, 'lemma')
    sums.prove_eq(ex, 'pairs to {0,1}', av(lambda r: ((x(r) + 1) * (y(r) + 1)).scale(H * H)), (mxy + mx + my + 1).scale(H * H), 'lemma')
    sums.prove_eq(ex, 'means to {0,1}', av(lambda r: (x(r) + 1).scale(H)), (mx + 1).scale(H), 'lemma')
    p = lambda q, a, b: q.scale(4) - a.scale(2) - b.scale(2) + 1
    z = lambda q, a, b: (q + a + b + 1).scale(H * H)
    q, a, b = T.var('q', 'real'), T.var('a', 'real'), T.var('b', 'real')
    ex.oblige('round trip of the pairs from {0,1}', T.eq(z(p(q, a, b), a.scale(2) - 1, b.scale(2) - 1), q), 'lemma')
    ex.oblige('round trip of the pairs from {-1,1}', T.eq(p(z(q, a, b), (a + 1).scale(H), (b + 1).scale(H)), q), 'lemma')


def subsets(n, k):
    import itertools
    return list(itertools.combinations(range(n), k))


def _orders(n, order):
    @unit('ising_convert_params n=%d order %d' % (n, order), [U + ':ising_convert_params'], tier='quick' if n <= 4 else 'thorough')
    def f(u):
        """All data symbolic, size and order fixed: the energy polynomials in the spins agree up to the constant term."""
        from math import comb
        for to in ('11', '01'):
            ex = u.ex(to)
            arrs = [ex.sym_array('p%d' % k, (P(comb(n, k)),), 'real') for k in range(1, order + 1)]
            old = [ex.content(a) for a in arrs]
            fn = u.fn(ex, U, 'ising_convert_params')
            r = u.call(ex, fn, [tuple(arrs), to])
            r = [ex.content(x) for x in ex.sequence(r)]
            if len(r) != order:
                ex.oblige('one vector per order', T.FALSE, 'post')
                return
            for k in range(order):
                ex.oblige('number of parameters of order %d' % (k + 1), T.eq(r[k].shape[0], P(comb(n, k + 1))), 'post')
            new = {S: r[k - 1].read(ex, (P(q),)) for k in range(1, order + 1) for q, S in enumerate(subsets(n, k))}
            src = {S: old[k - 1].read(ex, (P(q),)) for k in range(1, order + 1) for q, S in enumerate(subsets(n, k))}
            # energy identity: expand the source polynomial in the destination spins; coefficients of every subset
            for S in new:
                want = ZERO
                for B in src:
                    if set(S) <= set(B):
                        d = len(B) - len(S)
                        want = want + src[B].scale(Fraction(2) ** len(S) * (-1) ** d if to == '01' else Fraction(1, 2) ** len(B))
                u.eq(ex, 'coefficient of %s' % (S,), new[S], want)
            for a, o in zip(arrs, old):
                u.unchanged(ex, 'inputs unchanged', a, o)
            ex2 = u.ex(to + ' concatenated')
            arrs = [ex2.sym_array('p%d' % k, (P(comb(n, k)),), 'real') for k in range(1, order + 1)]
            c = u.call(ex2, u.fn(ex2, U, 'ising_convert_params'), [tuple(arrs), to], dict(concat=T.TRUE))
            pos = 0
            for k in range(1, order + 1):
                for S in subsets(n, k):
                    u.elem(ex2, 'entry %d' % pos, c, [P(pos)], new[S])
                    pos += 1


for _n in range(1, 6):
    for _o in range(1, _n + 1):
        _orders(_n, _o)


@unit('ising_convert_params up to pairs, every size', [U + ':ising_convert_params'])
def orders_sym(u):
    for to in ('11', '01'):
        for order in (1, 2):
            ex = u.ex('%s order %d' % (to, order))
            n = T.var('n')
            u.requires(ex, n >= 2)
            h = ex.sym_array('h', (n,), 'real')
            J = ex.sym_array('J', (tri(n),), 'real')
            h0, J0 = ex.content(h), ex.content(J)
            Jv = lambda q: J0.read(ex, (q,))
            I, K = T.var('I'), T.var('K')
            ex.hints.append((I, K))
            r = u.call(ex, u.fn(ex, U, 'ising_convert_params'), [(h, J) if order == 2 else (h,), to])
            r = [ex.content(x) for x in ex.sequence(r)]
            i = u.idx(ex, 'i', 0, n)
            hh = h0.read(ex, (i,))
            R = rowsum(ex, n, Jv, i) if order == 2 else ZERO
            u.eq(ex, 'fields', r[0].read(ex, (i,)), hh.scale(H) + R.scale(H * H) if to == '11' else hh.scale(2) - R.scale(2))
            if order == 2:
                ex.st.facts += [I >= 0, I < K, K < n]
                u.eq(ex, 'couplings', r[1].read(ex, (pidx(n, I, K),)), Jv(pidx(n, I, K)).scale(H * H if to == '11' else 4))


@unit('split_concat_params', [U + ':split_concat_params'])
def split(u):
    n = T.var('n')
    tr = (n * (n - 1) * (n - 2)).scale(Fraction(1, 6))
    for order in (1, 2, 3):
        ex = u.ex('order %d' % order)
        u.requires(ex, n >= order)
        m = [n, tri(n), tr][:order]
        tot = sum(m, ZERO)
        p = ex.sym_array('p', (tot,), 'real')
        p0 = ex.content(p)
        r = u.call(ex, u.fn(ex, U, 'split_concat_params'), [p, n])
        r = ex.sequence(r)
        if not isinstance(r, list) or len(r) != order:
            ex.oblige('one vector per order', T.FALSE, 'post')
            return
        pos = ZERO
        for k in range(order):
            u.shape(ex, 'length of part %d' % k, r[k], [m[k]])
            i = u.idx(ex, 'i%d' % k, 0, m[k])
            u.elem(ex, 'part %d' % k, r[k], [i], p0.read(ex, (pos + i,)))
            pos = pos + m[k]
        u.unchanged(ex, 'input unchanged', p, p0)

"""C04: sample statistics equal their definitions."""
from fractions import Fraction
from pyvc.units import unit
from pyvc import terms as T
from pyvc import sums
from pyvc.terms import P, ZERO, ONE
from pyvc.lib import pidx, tri
U = 'coniii/utils.py'
SPIN = lambda x: T.Or(T.eq(x, P(-1)), T.eq(x, ZERO), T.eq(x, ONE))


def sample(ex, n, R, sort='int'):
    return ex.sym_array('X', (R, n), sort, SPIN)


def start(u, label, lo=1):
    ex = u.ex(label)
    n, R = T.var('n'), T.var('R')
    u.requires(ex, n >= lo, R >= 1)
    X = sample(ex, n, R)
    x = lambda r, i: ex.content(X).read(ex, (r, i))
    I, J = T.var('I'), T.var('J')
    ex.hints.append((I, J))
    return ex, n, R, X, x, I, J


def modes(ex, n, R, mode):
    """weights argument and the mean and pair averages it stands for"""
    if mode == 'uniform':
        return None, (lambda f: ex.sum(ZERO, R, f) * T.inv(R)), (lambda f, q: ex.sum(ZERO, R, f) * T.inv(R)), None
    if mode == 'per row':
        w = ex.sym_array('w', (R,), 'real')
        wv = lambda r: ex.content(w).read(ex, (r,))
        return w, (lambda f: ex.sum(ZERO, R, lambda r: f(r) * wv(r))), (lambda f, q: ex.sum(ZERO, R, lambda r: f(r) * wv(r))), w
    if mode == 'scalar':
        w = T.var('w', 'real')
        return w, (lambda f: ex.sum(ZERO, R, f) * w), (lambda f, q: ex.sum(ZERO, R, f) * w), None


def pair_unit(mode):
    @unit('pair_corr, %s weights' % mode, [U + ':pair_corr'])
    def f(u):
        for sub in (False, True):
            for concat in (False, True):
                ex, n, R, X, x, I, J = start(u, '%s%s' % ('connected ' if sub else '', 'concatenated' if concat else 'separate'))
                x0 = ex.content(X)
                w, mean, pair, wa = modes(ex, n, R, mode)
                w0 = ex.content(wa) if wa is not None else None
                kw = dict(weights=w, subtract_mean=T.TRUE if sub else T.FALSE, concat=T.TRUE if concat else T.FALSE)
                r = u.call(ex, u.fn(ex, U, 'pair_corr'), [X], kw)
                check(u, ex, r, concat, sub, n, x, I, J, mean, lambda a, b: pair(lambda r: x(r, a) * x(r, b), None), lambda i: mean(lambda r: x(r, i)))
                u.unchanged(ex, 'sample unchanged', X, x0)
                if wa is not None:
                    u.unchanged(ex, 'weights unchanged', wa, w0)


def check(u, ex, r, concat, sub, n, x, I, J, mean, pr, mn):
    i = u.idx(ex, 'i', 0, n)
    ex.st.facts += [I >= 0, I < J, J < n]
    ws = mn(i)
    wp = pr(I, J) - (mn(I) * mn(J) if sub else ZERO)
    if concat:
        u.shape(ex, 'one vector', r, [n + tri(n)])
        u.elem(ex, 'means come first', r, [i], ws)
        u.elem(ex, 'pairs follow in canonical order', r, [n + pidx(n, I, J)], wp)
    else:
        u.shape(ex, 'one mean per spin', r[0], [n])
        u.shape(ex, 'one average per pair', r[1], [tri(n)])
        u.elem(ex, 'mean', r[0], [i], ws)
        u.elem(ex, 'pair average', r[1], [pidx(n, I, J)], wp)


for _m in ('uniform', 'per row', 'scalar'):
    pair_unit(_m)


@unit('pair_corr, per-entry weights', [U + ':pair_corr'])
def per_entry(u):
    for sub in (False, True):
        for concat in (False, True):
            ex, n, R, X, x, I, J = start(u, '%s%s' % ('connected ' if sub else '', 'concatenated' if concat else 'separate'))
            x0 = ex.content(X)
            a, b = ex.sym_array('wa', (n,), 'real'), ex.sym_array('wb', (tri(n),), 'real')
            A, B = ex.content(a), ex.content(b)
            kw = dict(weights=(a, b), subtract_mean=T.TRUE if sub else T.FALSE, concat=T.TRUE if concat else T.FALSE)
            r = u.call(ex, u.fn(ex, U, 'pair_corr'), [X], kw)
            mn = lambda i: ex.sum(ZERO, R, lambda r: x(r, i)) * A.read(ex, (i,))
            pr = lambda i, j: ex.sum(ZERO, R, lambda r: x(r, i) * x(r, j)) * B.read(ex, (pidx(n, i, j),))
            check(u, ex, r, concat, sub, n, x, I, J, None, pr, mn)
            u.unchanged(ex, 'sample unchanged', X, x0)


@unit('pair_corr, empty entries left out', [U + ':pair_corr'])
def exclude(u):
    for lap in (False, True):
        for sub in (False, True):
            ex, n, R, X, x, I, J = start(u, '%s%s' % ('connected ' if sub else '', 'laplace' if lap else 'plain'))
            x0 = ex.content(X)
            kw = dict(exclude_empty=T.TRUE, laplace_count=T.TRUE if lap else T.FALSE, subtract_mean=T.TRUE if sub else T.FALSE)
            r = u.call(ex, u.fn(ex, U, 'pair_corr'), [X], kw)
            nz = lambda r, i: T.ONE - T.ind(T.eq(x(r, i), ZERO))
            ni = lambda i: ex.sum(ZERO, R, lambda r: nz(r, i)) + (2 if lap else 0)
            nij = lambda i, j: ex.sum(ZERO, R, lambda r: nz(r, i) * nz(r, j)) + (4 if lap else 0)
            mn = lambda i: ex.sum(ZERO, R, lambda r: x(r, i)) * T.inv(ni(i))
            pr = lambda i, j: ex.sum(ZERO, R, lambda r: x(r, i) * x(r, j)) * T.inv(nij(i, j))
            check(u, ex, r, False, sub, n, x, I, J, None, pr, mn)
            u.unchanged(ex, 'sample unchanged', X, x0)


@unit('pair_corr rejects other values and wrong weights', [U + ':pair_corr'])
def rejects(u):
    ex = u.ex('weights of the wrong length')
    n, R, Q = T.var('n'), T.var('R'), T.var('Q')
    u.requires(ex, n >= 1, R >= 1, Q >= 0, T.Not(T.eq(Q, R)))
    u.must_raise(ex, u.fn(ex, U, 'pair_corr'), [sample(ex, n, R), ex.sym_array('w', (Q,))])
    ex = u.ex('field weights of the wrong length')
    u.requires(ex, n >= 1, R >= 1, Q >= 0, T.Not(T.eq(Q, n)))
    u.must_raise(ex, u.fn(ex, U, 'pair_corr'), [sample(ex, n, R), (ex.sym_array('w', (Q,)), ex.sym_array('v', (tri(n),)))])


@unit('k_corr pairs and means, every size', [U + ':k_corr'])
def kcorr(u):
    for k in (1, 2):
        for weighted in (False, True):
            ex, n, R, X, x, I, J = start(u, 'k=%d%s' % (k, ' weighted' if weighted else ''), 2)
            x0 = ex.content(X)
            kw = {}
            if weighted:
                w = ex.sym_array('w', (R,), 'real')
                kw['weights'] = w
                av = lambda f: ex.sum(ZERO, R, lambda r: f(r) * ex.content(w).read(ex, (r,)))
            else:
                av = lambda f: ex.sum(ZERO, R, f) * T.inv(R)
            r = u.call(ex, u.fn(ex, U, 'k_corr'), [X, P(k)], kw)
            if k == 1:
                i = u.idx(ex, 'i', 0, n)
                u.shape(ex, 'length', r, [n])
                u.elem(ex, 'average of every subset', r, [i], av(lambda r: x(r, i)))
            else:
                ex.st.facts += [I >= 0, I < J, J < n]
                u.shape(ex, 'length', r, [tri(n)])
                u.elem(ex, 'average of every subset', r, [pidx(n, I, J)], av(lambda r: x(r, I) * x(r, J)))
            u.unchanged(ex, 'sample unchanged', X, x0)


def kc(n, k):
    @unit('k_corr n=%d k=%d' % (n, k), [U + ':k_corr'])
    def f(u):
        import itertools
        for weighted in (False, True):
            ex = u.ex('weighted' if weighted else 'uniform')
            R = T.var('R')
            u.requires(ex, R >= 1)
            X = sample(ex, P(n), R)
            x = lambda r, i: ex.content(X).read(ex, (r, P(i)))
            kw = {}
            if weighted:
                w = ex.sym_array('w', (R,), 'real')
                kw['weights'] = w
                av = lambda f: ex.sum(ZERO, R, lambda r: f(r) * ex.content(w).read(ex, (r,)))
            else:
                av = lambda f: ex.sum(ZERO, R, f) * T.inv(R)
            r = u.call(ex, u.fn(ex, U, 'k_corr'), [X, P(k)], kw)
            S = list(itertools.combinations(range(n), k))
            u.shape(ex, 'length', r, [len(S)])

            def prod(r, s):
                p = ONE
                for i in s:
                    p = p * x(r, i)
                return p
            for q, s in enumerate(S):
                u.elem(ex, 'subset %s' % (s,), r, [P(q)], av(lambda r: prod(r, s)))


for _n in range(1, 6):
    for _k in range(1, _n + 1):
        kc(_n, _k)


@unit('calc_overlap', [U + ':calc_overlap'])
def overlap(u):
    for ign in (False, True):
        ex, n, R, X, x, I, J = start(u, 'nonzero' if ign else 'plain')
        x0 = ex.content(X)
        a, b = u.idx(ex, 'a', 0, R), u.idx(ex, 'b', 0, R)
        r = u.call(ex, u.fn(ex, U, 'calc_overlap'), [X], dict(ignore_zeros=T.TRUE) if ign else {})
        u.shape(ex, 'one entry per pair of replicas', r, [R, R])
        dot = ex.sum(ZERO, n, lambda i: x(a, i) * x(b, i))
        if not ign:
            u.elem(ex, 'overlap', r, [a, b], dot * T.inv(n))
        else:
            za = ex.sum(ZERO, n, lambda i: T.ind(T.eq(x(a, i), ZERO)))
            zb = ex.sum(ZERO, n, lambda i: T.ind(T.eq(x(b, i), ZERO)))
            mx = T.ite(T.le(zb, za), za, zb)
            u.elem(ex, 'overlap', r, [a, b], dot * T.inv(n - mx))
        u.unchanged(ex, 'sample unchanged', X, x0)


@unit('state_probs of given states', [U + ':state_probs'])
def state_probs(u):
    for weighted in (False, True):
        for norm in (False, True):
            ex = u.ex(('weighted ' if weighted else '') + ('normalised' if norm else 'counts'))
            n, R, S = T.var('n'), T.var('R'), T.var('S')
            u.requires(ex, n >= 1, R >= 1, S >= 1)
            v = ex.sym_array('v', (R, n), 'int')
            A = ex.sym_array('A', (S, n), 'int')
            v0, A0 = ex.content(v), ex.content(A)
            kw = dict(normalized=T.TRUE if norm else T.FALSE)
            wv = lambda r: ONE
            if weighted:
                w = ex.sym_array('w', (R,), 'real')
                w0 = ex.content(w)
                wv = lambda r: w0.read(ex, (r,))
                kw['weights'] = w
            count = lambda s: ex.sum(ZERO, R, lambda r: wv(r) * T.ind(T.eq(ex.sum(ZERO, n, lambda i: T.ind(T.eq(A0.read(ex, (s, i)), v0.read(ex, (r, i))))), n)))
            p = u.call(ex, u.fn(ex, U, 'state_probs'), [v, A], kw)
            s = u.idx(ex, 's', 0, S)
            u.shape(ex, 'one frequency per state', p, [S])
            tot = ex.sum(ZERO, S, count)
            u.elem(ex, 'weighted number of rows agreeing in all n places', p, [s], count(s) * (T.inv(tot) if norm else ONE))
            if norm:
                ex.st.facts.append(T.Not(T.eq(tot, ZERO)))
                u.eq(ex, 'frequencies sum to one', ex.sum(ZERO, S, lambda s: ex.content(p).read(ex, (s,))), ONE)
            u.unchanged(ex, 'sample unchanged', v, v0)
            u.unchanged(ex, 'states unchanged', A, A0)

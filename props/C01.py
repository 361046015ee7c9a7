"""C01: pair and multi-spin indices are one canonical bijection."""
from pyvc.units import unit
from pyvc import terms as T
from pyvc.terms import P, ZERO
from pyvc.lib import pidx, tri
U = 'coniii/utils.py'


def pair_lemma(n, i, j, I, J):
    """Instances of the lemmas proved in the unit 'pair positions are a bijection', for two pairs."""
    i, j = P(i), P(j)
    pre = T.And(i >= 0, i < j, j < n, I >= 0, I < J, J < n)
    return [T.Implies(T.And(pre, i < I), pidx(n, i, j) < pidx(n, I, J)),
            T.Implies(T.And(pre, I < i), pidx(n, I, J) < pidx(n, i, j)),
            T.Implies(T.And(pre, T.eq(i, I), j < J), pidx(n, i, j) < pidx(n, I, J)),
            T.Implies(T.And(pre, T.eq(i, I), J < j), pidx(n, I, J) < pidx(n, i, j))]


@unit('sub_to_ind', [U + ':sub_to_ind'])
def sub_to_ind(u):
    n, i, j = T.var('n'), T.var('i'), T.var('j')
    for a, b, lab in ((i, j, 'i<j'), (j, i, 'j<i')):
        ex = u.ex(lab)
        u.requires(ex, i >= 0, i < j, j < n)
        r = u.call(ex, u.fn(ex, U, 'sub_to_ind'), [n, a, b])
        u.eq(ex, 'returns the canonical position', r, pidx(n, i, j))
    ex = u.ex('i=j')
    u.requires(ex, i >= 0, i < n)
    u.must_raise(ex, u.fn(ex, U, 'sub_to_ind'), [n, i, i], name='equal indices are rejected')


@unit('ind_to_sub', [U + ':ind_to_sub'])
def ind_to_sub(u):
    n, I, J = T.var('n'), T.var('I'), T.var('J')
    ex = u.ex()
    u.requires(ex, I >= 0, I < J, J < n)
    ex.hints.append((I, J))
    r = u.call(ex, u.fn(ex, U, 'ind_to_sub'), [n, pidx(n, I, J)])
    if not isinstance(r, tuple) or len(r) != 2:
        ex.oblige('returns a pair', T.FALSE, 'post')
        return
    ex.st.facts += pair_lemma(n, r[0], r[1], I, J)
    u.eq(ex, 'first component', r[0], I)
    u.eq(ex, 'second component', r[1], J)


@unit('pair positions are a bijection (lemma)', ['lemma'])
def bijection(u):
    n, i, j, I, J = [T.var(x) for x in ('n', 'i', 'j', 'I', 'J')]
    ex = u.ex()
    u.requires(ex, i >= 0, i < j, j < n, I >= 0, I < J, J < n)
    u.nonvacuous(ex)
    ex.oblige('position is in range', T.And(pidx(n, i, j) >= 0, pidx(n, i, j) < tri(n)), 'lemma')
    ex.oblige('lexicographic order, first index', T.Implies(i < I, pidx(n, i, j) < pidx(n, I, J)), 'lemma')
    ex.oblige('lexicographic order, second index', T.Implies(T.And(T.eq(i, I), j < J), pidx(n, i, j) < pidx(n, I, J)), 'lemma')


def binom_poly(m, k):
    r = P(1)
    from math import factorial
    from fractions import Fraction
    for q in range(k):
        r = r * (m - q)
    return r.scale(Fraction(1, factorial(k)))


def rank(n, ix):
    """Lexicographic rank of an increasing tuple among all k-subsets of range(n)."""
    k = len(ix)
    r = binom_poly(n, k) - 1
    for p, i in enumerate(ix):
        r = r - binom_poly(n - 1 - i, k - p)
    return r


@unit('rank formula is the lexicographic rank (lemma)', ['lemma'])
def rank_lemma(u):
    n = T.var('n')
    for k in range(1, 7):
        ex = u.ex('k=%d' % k)
        ex.oblige('first subset has rank 0', T.eq(rank(n, [P(q) for q in range(k)]), ZERO), 'lemma')
        ex.oblige('last subset has rank C(n,k)-1', T.eq(rank(n, [n - k + q for q in range(k)]), binom_poly(n, k) - 1), 'lemma')
        for p in range(k):
            # successor: position p is increased, the ones after it are at their maximum and restart
            ix = [T.var('i%d' % q) for q in range(p + 1)]
            cur = ix + [n - k + q for q in range(p + 1, k)]
            nxt = ix[:p] + [ix[p] + 1 + q for q in range(k - p)]
            ex.oblige('successor at %d has the next rank' % p, T.eq(rank(n, nxt), rank(n, cur) + 1), 'lemma')
        if k == 2:
            i, j = T.var('i'), T.var('j')
            ex.oblige('k=2 agrees with the pair position', T.eq(rank(n, [i, j]), pidx(n, i, j)), 'lemma')


def _unravel(k):
    @unit('unravel_index k=%d' % k, [U + ':unravel_index'])
    def f(u):
        n = T.var('n')
        ix = [T.var('i%d' % q) for q in range(k)]
        ex = u.ex()
        fs = [ix[0] >= 0, ix[-1] < n] + [ix[q] < ix[q + 1] for q in range(k - 1)]
        u.requires(ex, *fs)
        r = u.call(ex, u.fn(ex, U, 'unravel_index'), [tuple(ix), n])
        u.eq(ex, 'is the lexicographic rank', r, rank(n, ix))


for _k in range(1, 7):
    _unravel(_k)

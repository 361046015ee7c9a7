"""Contract shared by the shipped (C07) and generated (C08) exact-solution modules."""
import itertools
from pyvc import terms as T
from pyvc.terms import P, ZERO, ONE
from pyvc.heap import Unsupported
ENUM = 'coniii/enumerate.py'


def subsets(n, order):
    return [t for k in range(1, order + 1) for t in itertools.combinations(range(n), k)]


def lse_contract(table, energies, uses):
    """fast_logsumexp(X, c) = (log|sum_k c_k exp(X_k)|, sign of the sum): here the call must be over the energies of all states, and
    the coefficients must be those of one of the observables (or all ones, the partition function)."""
    def contract(ex, f, args, kw):
        args = list(args) + [kw[k] for k in ('X', 'coeffs') if k in kw]
        X = ex.content(args[0])
        m = X.shape[0].const()
        if m is None:
            raise Unsupported('energies of symbolic length')
        xs = [X.read(ex, (P(q),)) for q in range(int(m))]
        if len(args) > 1 and args[1] is not None:
            c = ex.content(args[1])
            if c.shape[0].const() != m:
                ex.oblige('one coefficient per state', T.FALSE, 'callee-pre')
                raise Unsupported('coefficients')
            cs = tuple(int(c.read(ex, (P(q),)).const()) for q in range(int(m)))
        else:
            cs = (1,) * int(m)
        order = energies.match(ex, xs)
        cs = tuple(cs[q] for q in order)
        k = table.get(cs)
        if k is None:
            k = 'other%d' % len(uses)
        uses.append(k)
        return (T.app('logabs:%s' % k, (), 'real'), ONE if k == 'Z' else T.app('sign:%s' % k, (), 'real'))
    return contract


class Energies:
    """The exponents handed to the log-sum-exp must be minus the energies of all states, each once."""

    def __init__(self, want, name='exponents are minus the energies of all states, each once'):
        # states of equal energy (for all parameters) have equal observables and are interchangeable
        self.want = {}
        for q, p in enumerate(want):
            self.want.setdefault(p, []).append(q)
        self.n = len(want)
        self.name = name
        self.seen = {}

    def match(self, ex, xs):
        key = tuple(xs)
        r = self.seen.get(key)
        if r is None:
            left = {p: list(v) for p, v in self.want.items()}
            pos = [left[x].pop(0) if left.get(x) else None for x in xs]
            ok = len(xs) == self.n and None not in pos and sorted(pos) == list(range(self.n))
            bad = [q for q, p in enumerate(pos) if p is None]
            ex.oblige(self.name, T.TRUE if ok else T.FALSE, 'callee-pre',
                      detail=None if ok else {'states with a wrong exponent': bad[:5], 'got': [xs[q].key for q in bad[:3]]})
            if not ok:
                raise Unsupported('exponents are not the energies')
            inv = [None] * self.n
            for q, p in enumerate(pos):
                inv[p] = q
            r = self.seen[key] = inv
        return r


def ising_rows(n, sym, subs):
    """Values of the observables (products over the given subsets) for all states in increasing order, first spin most significant."""
    S = list(itertools.product((-1, 1) if sym else (0, 1), repeat=n))
    rows = []
    for s in S:
        row = []
        for t in subs:
            p = 1
            for i in t:
                p *= s[i]
            row.append(p)
        rows.append(row)
    return rows


def potts_rows(n, k):
    S = list(itertools.product(range(k), repeat=n))
    return [[int(s[i] == c) for c in range(k) for i in range(n)] + [int(s[i] == s[j]) for i, j in itertools.combinations(range(n), 2)] for s in S]


def check_module(u, label, load, rows, lse='fast_logsumexp', nonneg=False):
    """load(ex, name) -> function of the module.  For every real parameter vector: the exponents are minus the energies of all states,
    the probabilities are exp(-E - log Z) in the documented order, every observable is the expectation of its own values."""
    m = len(rows[0])
    params = [T.var('theta%d' % q, 'real') for q in range(m)]
    en = []
    for row in rows:
        d = {}
        for q, v in enumerate(row):
            if v:
                (mon, c), = params[q].m
                d[mon] = d.get(mon, 0) + v * c
        en.append(T.Poly(d))
    table = {tuple(r[q] for r in rows): str(q) for q in range(m)}
    table[(1,) * len(rows)] = 'Z'
    for fn in ('calc_observables', 'p'):
        ex = u.ex('%s.%s' % (label, fn))
        uses = []
        ex.contracts[(ENUM, lse)] = lse_contract(table, Energies(en), uses)
        th = ex.new_array((m,), 'real', lambda co: ex.pick(params, co[0]))
        t0 = ex.content(th)
        r = u.call(ex, load(ex, fn), [th])
        u.unchanged(ex, 'the parameters are left unchanged', th, t0)
        c = ex.content(r)
        logz = T.app('logabs:Z', (), 'real')
        want = [m] if fn == 'calc_observables' else [len(rows)]
        u.shape(ex, 'one value per %s' % ('observable' if fn != 'p' else 'state'), r, want)
        bad = []
        for q in range(want[0]):
            got = c.read(ex, (P(q),))
            if fn == 'p':
                w = T.fexp(en[q] - logz)
            else:
                w = T.fexp(T.app('logabs:%d' % q, (), 'real') - logz)
                if not nonneg:
                    w = w * T.app('sign:%d' % q, (), 'real')
                if got is not w and all(r[q] >= 0 for r in rows):
                    # a sum of exponentials with coefficients 0 and 1 is not negative
                    w2 = T.fexp(T.app('logabs:%d' % q, (), 'real') - logz)
                    got = T.subst(got, {T.app('sign:%d' % q, (), 'real').as_atom(): ONE})
                    w = w2
            if got is not w and (got - w).key != '0':
                bad.append((q, got.key[:200], w.key[:200]))
        nm = 'probability of state r is exp(-E(state r) - log Z)' if fn == 'p' else 'observable q is sign*exp(log|sum| - log Z) of its own coefficients'
        ex.oblige(nm, T.FALSE if bad else T.TRUE, 'post', detail=bad[:3] or None)

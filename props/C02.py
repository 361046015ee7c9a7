"""C02: energy is minus the multipliers dotted with the observables, in every model."""
from fractions import Fraction
from pyvc.units import unit
from pyvc import terms as T
from pyvc.terms import P, ZERO, ONE
from pyvc.lib import pidx, tri
U = 'coniii/utils.py'


def sample(ex, n, R, name='X', fact=None):
    return ex.sym_array(name, (R, n), 'int', fact)


def spec_pair_energy(ex, n, x, J):
    """sum_{i<j} J(idx(i,j)) x_i x_j"""
    return ex.sum(ZERO, n, lambda i: ex.sum(i + 1, n, lambda j: J(pidx(n, i, j)) * x(i) * x(j)))


def setup(u, label, n=None, lo=1):
    ex = u.ex(label)
    n, R = T.var('n'), T.var('R')
    u.requires(ex, n >= lo, R >= 0)
    return ex, n, R


def helpers(u, ex, name, *args):
    r = u.call(ex, u.fn(ex, U, name), list(args))
    assert isinstance(r, tuple)
    return r


@unit('ising energy', [U + ':define_ising_helper_functions.calc_e', U + ':define_ising_helper_functions.fast_sum'])
def ising_energy(u):
    ex, n, R = setup(u, 'ising')
    calc_e = helpers(u, ex, 'define_ising_helper_functions')[0]
    X = sample(ex, n, R)
    p = ex.sym_array('p', (n + tri(n),), 'real')
    x0, p0 = ex.content(X), ex.content(p)
    e = u.call(ex, calc_e, [X, p])
    u.shape(ex, 'one energy per row', e, [R])
    m = u.idx(ex, 'm', 0, R)
    xs = lambda i: x0.read(ex, (m, i))
    pr = lambda q: p0.read(ex, (q,))
    want = -ex.sum(ZERO, n, lambda i: pr(i) * xs(i)) - spec_pair_energy(ex, n, xs, lambda q: pr(n + q))
    u.elem(ex, 'energy is minus fields.spins minus couplings.pairs', e, [m], want)
    u.unchanged(ex, 'sample unchanged', X, x0)
    u.unchanged(ex, 'parameters unchanged', p, p0)


@unit('ising observables', [U + ':define_ising_helper_functions.calc_observables'])
def ising_obs(u):
    ex, n, R = setup(u, 'ising')
    obsf = helpers(u, ex, 'define_ising_helper_functions')[1]
    check_obs(u, ex, n, R, obsf, True)


def check_obs(u, ex, n, R, obsf, fields, args=()):
    X = sample(ex, n, R)
    x0 = ex.content(X)
    I, J = T.var('I'), T.var('J')
    ex.hints.append((I, J))
    off = n if fields else ZERO
    ob = u.call(ex, obsf, [X] + list(args))
    m = u.idx(ex, 'm', 0, R)
    i = u.idx(ex, 'q', 0, n)
    u.shape(ex, 'one column per observable', ob, [R, off + tri(n)])
    if fields:
        u.elem(ex, 'column i is spin i', ob, [m, i], x0.read(ex, (m, i)))
    ex.st.facts += [I >= 0, I < J, J < n]
    u.elem(ex, 'column of pair (I,J) is the product of the spins', ob, [m, off + pidx(n, I, J)], x0.read(ex, (m, I)) * x0.read(ex, (m, J)))
    u.unchanged(ex, 'sample unchanged', X, x0)


@unit('symmetric ising', [U + ':define_ising_helper_functions_sym.calc_e', U + ':define_ising_helper_functions_sym.fast_sum',
                          U + ':define_ising_helper_functions_sym.calc_observables'])
def ising_sym(u):
    ex, n, R = setup(u, 'energy')
    calc_e, obsf, _ = helpers(u, ex, 'define_ising_helper_functions_sym')
    X = sample(ex, n, R)
    p = ex.sym_array('p', (tri(n),), 'real')
    x0, p0 = ex.content(X), ex.content(p)
    e = u.call(ex, calc_e, [X, p])
    u.shape(ex, 'one energy per row', e, [R])
    m = u.idx(ex, 'm', 0, R)
    want = -spec_pair_energy(ex, n, lambda i: x0.read(ex, (m, i)), lambda q: p0.read(ex, (q,)))
    u.elem(ex, 'energy is minus couplings.pairs', e, [m], want)
    u.unchanged(ex, 'sample unchanged', X, x0)
    u.unchanged(ex, 'parameters unchanged', p, p0)
    ex, n, R = setup(u, 'observables')
    check_obs(u, ex, n, R, helpers(u, ex, 'define_ising_helper_functions_sym')[1], False)


def triple_pos(n, i, j, k):
    from props.C01 import rank
    return rank(n, [i, j, k])


def check_dot_energy(u, name, args, nobs, lo=1, pre=None):
    """calc_e(X, multipliers) == -calc_observables(X).multipliers; the callee calc_observables is used through its contract
    (an array with one row per row of X and nobs columns, a function of X alone)."""
    ex, n, R = setup(u, 'energy', lo=lo)
    if pre:
        u.requires(ex, *pre)
    h = helpers(u, ex, name, *args)
    calc_e, obsf = h[0], h[1]
    X = sample(ex, n, R)
    x0 = ex.content(X)
    O = ex.content(ex.sym_array('obs', (R, nobs(n)), 'int'))

    def contract(ex, f, a, kw):
        env = ex.bind_args(f, a, kw)
        vals = list(env.values())
        ex.oblige('calc_observables is called on the sample', T.TRUE if vals and vals[0] == X and ex.content(X) is x0 else T.FALSE, 'callee-pre')
        for v, w in zip(vals[1:], args):
            ex.oblige('calc_observables gets the number of states', T.eq(P(v), P(w)), 'callee-pre')
        return ex.new_array(O.shape, O.sort, lambda co: O.read(ex, co))
    ex.contracts[(obsf.module.get('__path__'), obsf.name)] = contract
    p = ex.sym_array('p', (nobs(n),), 'real')
    p0 = ex.content(p)
    e = u.call(ex, calc_e, [X, p])
    m = u.idx(ex, 'm', 0, R)
    u.shape(ex, 'one energy per row', e, [R])
    want = -ex.sum(ZERO, nobs(n), lambda q: O.read(ex, (m, q)) * p0.read(ex, (q,)))
    u.elem(ex, 'energy is minus observables.multipliers', e, [m], want)
    u.unchanged(ex, 'sample unchanged', X, x0)
    u.unchanged(ex, 'parameters unchanged', p, p0)


@unit('triplet observables', [U + ':define_triplet_helper_functions.calc_observables'])
def triplet(u):
    ex, n, R = setup(u, 'observables')
    obsf = helpers(u, ex, 'define_triplet_helper_functions')[1]
    X = sample(ex, n, R)
    x0 = ex.content(X)
    I, J, K = T.var('I'), T.var('J'), T.var('K')
    ex.hints += [(I, J), (I, J, K)]
    ob = u.call(ex, obsf, [X])
    u.shape(ex, 'number of observables', ob, [R, n + tri(n) + (n * (n - 1) * (n - 2)).scale(Fraction(1, 6))])
    m = u.idx(ex, 'm', 0, R)
    i = u.idx(ex, 'q', 0, n)
    u.elem(ex, 'column i is spin i', ob, [m, i], x0.read(ex, (m, i)))
    ex.st.facts += [I >= 0, I < J, J < n]
    u.elem(ex, 'pair columns', ob, [m, n + pidx(n, I, J)], x0.read(ex, (m, I)) * x0.read(ex, (m, J)))
    ex.st.facts += [J < K, K < n]
    u.elem(ex, 'triple columns', ob, [m, n + tri(n) + triple_pos(n, I, J, K)],
           x0.read(ex, (m, I)) * x0.read(ex, (m, J)) * x0.read(ex, (m, K)))
    u.unchanged(ex, 'sample unchanged', X, x0)


@unit('triplet energy', [U + ':define_triplet_helper_functions.calc_e'])
def triplet_e(u):
    check_dot_energy(u, 'define_triplet_helper_functions', (), lambda n: n + tri(n) + (n * (n - 1) * (n - 2)).scale(Fraction(1, 6)))


@unit('potts observables', [U + ':define_potts_helper_functions.calc_observables'])
def potts(u):
    ex, n, R = setup(u, 'observables')
    k = T.var('k')
    u.requires(ex, k >= 2)
    obsf = helpers(u, ex, 'define_potts_helper_functions', k)[1]
    X = sample(ex, n, R)
    x0 = ex.content(X)
    I, J, A, B = T.var('I'), T.var('J'), T.var('A'), T.var('B')
    ex.hints += [(I, J), (A, B)]
    ob = u.call(ex, obsf, [X])
    u.shape(ex, 'number of observables', ob, [R, n * k + tri(n)])
    m = u.idx(ex, 'm', 0, R)
    ex.st.facts += [A >= 0, A < k, B >= 0, B < n]
    u.elem(ex, 'field columns indicate the state', ob, [m, A * n + B], T.ind(T.eq(x0.read(ex, (m, B)), A)))
    ex.st.facts += [I >= 0, I < J, J < n]
    u.elem(ex, 'pair columns indicate coincidence', ob, [m, n * k + pidx(n, I, J)], T.ind(T.eq(x0.read(ex, (m, I)), x0.read(ex, (m, J)))))
    u.unchanged(ex, 'sample unchanged', X, x0)


@unit('potts energy', [U + ':define_potts_helper_functions.calc_e'])
def potts_e(u):
    k = T.var('k')
    check_dot_energy(u, 'define_potts_helper_functions', (k,), lambda n: n * k + tri(n), pre=[k >= 2])


@unit('calc_de', [U + ':calc_de'])
def calc_de(u):
    for f in (True, False):
        ex, n, R = setup(u, 'field' if f else 'coupling')
        X = sample(ex, n, R)
        x0 = ex.content(X)
        m = u.idx(ex, 'm', 0, R)
        if f:
            i = u.idx(ex, 'q', 0, n)
            r = u.call(ex, u.fn(ex, U, 'calc_de'), [X, i])
            u.elem(ex, 'minus spin i', r, [m], -x0.read(ex, (m, i)))
        else:
            I, J = T.var('I'), T.var('J')
            ex.st.facts += [I >= 0, I < J, J < n]
            ex.hints.append((I, J))
            r = u.call(ex, u.fn(ex, U, 'calc_de'), [X, n + pidx(n, I, J)])
            u.elem(ex, 'minus the product of the pair', r, [m], -x0.read(ex, (m, I)) * x0.read(ex, (m, J)))
        u.unchanged(ex, 'sample unchanged', X, x0)

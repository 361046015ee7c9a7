"""C14: minimum probability flow: objective, logarithm, gradients, neighbour lists, problem posed."""
import os
from pyvc.units import unit
from pyvc import terms as T
from pyvc.terms import P, ZERO, ONE
from pyvc.lib import tri, pidx, Native
from pyvc.exec import Obj, Lst, Dct
from pyvc.deriv import diff
from pyvc.heap import Unsupported, Content
from pyvc.loops import Inv
U = 'coniii/utils.py'
S = 'coniii/solvers.py'
DEEP = os.environ.get('PYVC_TIER') == 'thorough'
HALF = T.Fraction(1, 2)


def linear(ex, u):
    """A model whose energy is linear in its parameters with the entries of the rows as observables, and the derivative of it."""
    def calc_e(ex, rows, params, *a):
        r, p = ex.content(rows), ex.content(params)
        return ex.new_array((r.shape[0],), 'real', lambda co: -ex.sum(ZERO, r.shape[1], lambda q: p.read(ex, (q,)) * r.read(ex, (co[0], q))))

    def calc_de(ex, rows, j):
        r = ex.content(rows)
        return ex.new_array((r.shape[0],), 'real', lambda co: -r.read(ex, (co[0], P(j))))
    return Native(calc_e, 'calc_e'), Native(calc_de, 'calc_de')


def mpf(ex, calc_e, calc_de=None, **attrs):
    env = ex.load(S)
    return ex.alloc(Obj(env['MPF'], dict({'model': ex.alloc(Obj(None, {'calc_e': calc_e})), 'calc_de': calc_de}, **attrs)))


def flow(ex, xs, count, lists, energy, params):
    """count-weighted sum of exp of half the energy differences. lists: contents (one per state) or one content over all states."""
    def one(i, s, a, at):
        return count(i) * ex.sum(ZERO, a, lambda v: T.fexp((energy(s) - energy(at(v))).scale(HALF)))
    return one


def sizes(ex, u, A=True):
    U_, n, a = T.var('U'), T.var('n'), T.var('A')
    u.requires(ex, U_ >= 1, n >= 1, a >= 1)
    X = ex.sym_array('X', (U_, n), 'int')
    adj = ex.sym_array('adj', (U_, a, n), 'int')
    cnt = ex.sym_array('count', (U_,), 'int', lambda v: v >= 1)
    th = ex.sym_array('theta', (n,), 'real')
    return U_, n, a, X, adj, cnt, th


def spec(ex, U_, n, a, xc, ac, cc, tc):
    en = lambda rd: -ex.sum(ZERO, n, lambda q: tc.read(ex, (q,)) * rd(q))
    return ex.sum(ZERO, U_, lambda i: cc.read(ex, (i,)) * ex.sum(ZERO, a, lambda v: T.fexp(
        (en(lambda q: xc.read(ex, (i, q))) - en(lambda q: ac.read(ex, (i, v, q)))).scale(HALF))))


@unit('objective', [S + ':MPF.K'])
def K(u):
    for de in (False, True):
        ex = u.ex('with gradient' if de else 'without gradient')
        U_, n, a, X, adj, cnt, th = sizes(ex, u)
        e, d = linear(ex, u)
        o = mpf(ex, e, d if de else None)
        cs = [ex.content(x) for x in (X, adj, cnt, th)]
        want = spec(ex, U_, n, a, *cs)
        total = ex.sum(ZERO, U_, lambda i: cs[2].read(ex, (i,)))
        r = u.call(ex, ex.getattr(o, 'K'), [X, cnt, adj, th])
        v, g = r if de else (r, None)
        u.eq(ex, 'count-weighted mean over the observed states', P(v), want * T.inv(total))
        if de:
            u.shape(ex, 'gradient', g, [n])
            q = u.idx(ex, 'q', 0, n)
            u.eq(ex, 'gradient', ex.content(g).read(ex, (q,)), diff(P(v), 'theta', (q,)))
        for x, c, nm in zip((X, adj, cnt, th), cs, ('states', 'neighbours', 'counts', 'parameters')):
            u.unchanged(ex, nm + ' unchanged', x, c)


def gradient_loop(ex, n, states, cc, U_, a):
    xc, at = states
    w = lambda g, i, v: cc.read(ex, (i,)) * T.fexp(g['p0'].read(ex, (i, v)))
    d = lambda i, v, q: (at(i, v, q) - xc.read(ex, (i, q))).scale(HALF)

    def ratio(g, q):
        return ex.sum(ZERO, U_, lambda i: ex.sum(ZERO, a, lambda v: w(g, i, v) * d(i, v, q))) * \
            T.inv(ex.sum(ZERO, U_, lambda i: ex.sum(ZERO, a, lambda v: w(g, i, v))))
    s, v = T.fresh('s'), T.fresh('v')
    loop_contract(ex, n, ratio, [((s, v), [T.le(ZERO, s), T.lt(s, U_), T.le(ZERO, v), T.lt(v, a)])])


def loop_contract(ex, n, ratio, places):
    """Contract of the loop over the parameters: the powers are known up to a constant, the gradient is the ratio for the
    parameters that are done."""
    g = {}
    key = ('logK', 'for', 1)

    def values(ex, st, i):
        c = T.fresh('c', 'real')
        p = g['p0']
        return {'power': Content(p.shape, 'real', lambda co: p.read(ex, co) - c),
                'objGrad': Content((n,), 'real', lambda co: T.ind(T.lt(co[0], i)) * ratio(g, co[0]))}

    def invariant(ex, e, i):
        p = ex.content(e['power'])
        g.setdefault('p0', p)
        p0 = g['p0']
        q = T.fresh('q')
        obj = ex.content(e['objGrad'])
        out = []

        def add(name, rng, cond):
            with ex.assume(*rng):
                out.append((name, T.Or(T.Not(T.And(*rng)), cond())))
        for co, rng in places:
            add('the powers change by a constant', rng,
                lambda: T.eq(p.read(ex, co) - p0.read(ex, co), p.read(ex, (ZERO, ZERO)) - p0.read(ex, (ZERO, ZERO))))
        add('the gradient of earlier parameters', [T.le(ZERO, q), T.lt(q, i - 1), T.lt(q, n)], lambda: T.eq(obj.read(ex, (q,)), ratio(g, q)))
        add('the gradient of the last parameter', [T.lt(ZERO, i)], lambda: T.eq(obj.read(ex, (i - 1,)), ratio(g, i - 1)))
        add('the gradient of later parameters', [T.le(i, q), T.lt(q, n)], lambda: T.eq(obj.read(ex, (q,)), ZERO))
        return out
    ex.loopspec[key] = ex.loopspec[('MPF.' + key[0],) + key[1:]] = Inv(values, invariant)


@unit('logarithm of the objective', [S + ':MPF.logK'])
def logK(u):
    for de in (False, True):
        ex = u.ex('with gradient' if de else 'without gradient')
        U_, n, a, X, adj, cnt, th = sizes(ex, u)
        e, d = linear(ex, u)
        o = mpf(ex, e, d if de else None)
        cs = [ex.content(x) for x in (X, adj, cnt, th)]
        want = spec(ex, U_, n, a, *cs)
        total = ex.sum(ZERO, U_, lambda i: cs[2].read(ex, (i,)))
        if de:
            gradient_loop(ex, n, (cs[0], lambda i, v, q: cs[1].read(ex, (i, v, q))), cs[2], U_, a)
        r = u.call(ex, ex.getattr(o, 'logK'), [X, cnt, adj, th])
        v, g = r if de else (r, None)
        u.eq(ex, 'logarithm of the count-weighted mean', T.fexp(P(v)), want * T.inv(total))
        if de:
            u.shape(ex, 'gradient', g, [n])
            q = u.idx(ex, 'q', 0, n)
            u.eq(ex, 'gradient', ex.content(g).read(ex, (q,)), diff(want, 'theta', (q,)) * T.inv(want))
        for x, c, nm in zip((X, adj, cnt, th), cs, ('states', 'neighbours', 'counts', 'parameters')):
            u.unchanged(ex, nm + ' unchanged', x, c)


@unit('different numbers of neighbours', [S + ':MPF.K', S + ':MPF.logK'])
def ragged(u):
    u.notes.append('two observed states with any different numbers of neighbours; any number of parameters')
    for name, de in (('K', False), ('K', True), ('logK', False), ('logK', True)):
        ex = u.ex(name + (', gradient' if de else ''))
        n, a, b = T.var('n'), T.var('A'), T.var('B')
        u.requires(ex, n >= 1, a >= 1, b > a)
        for order in (0, 1):
            ln = (a, b) if order == 0 else (b, a)
            X = ex.sym_array('X', (P(2), n), 'int')
            adj = [ex.sym_array('adj%d' % q, (ln[q], n), 'int') for q in range(2)]
            cnt = ex.sym_array('count', (P(2),), 'int', lambda v: v >= 1)
            th = ex.sym_array('theta', (n,), 'real')
            xc, ac, cc, tc = ex.content(X), [ex.content(x) for x in adj], ex.content(cnt), ex.content(th)
            e, d = linear(ex, u)
            o = mpf(ex, e, d if de else None)
            en = lambda rd: -ex.sum(ZERO, n, lambda q: tc.read(ex, (q,)) * rd(q))
            want = ZERO
            for i in range(2):
                want = want + cc.read(ex, (P(i),)) * ex.sum(ZERO, ln[i], lambda v: T.fexp(
                    (en(lambda q: xc.read(ex, (P(i), q))) - en(lambda q: ac[i].read(ex, (v, q)))).scale(HALF)))
            total = cc.read(ex, (ZERO,)) + cc.read(ex, (ONE,))
            if de and name == 'logK':
                ragged_loop(ex, n, xc, ac, cc, ln)
            r = u.call(ex, ex.getattr(o, name), [X, cnt, ex.alloc(Lst(adj)), th])
            v, g = r if de else (r, None)
            u.eq(ex, 'value', P(v) if name == 'K' else T.fexp(P(v)), want * T.inv(total))
            if de:
                q = u.idx(ex, 'q', 0, n)
                u.eq(ex, 'gradient', ex.content(g).read(ex, (q,)), diff(want, 'theta', (q,)) * T.inv(total if name == 'K' else want))


def ragged_loop(ex, n, xc, ac, cc, ln):
    def ratio(g, q):
        num, den = ZERO, ZERO
        for i in range(2):
            w = lambda v: cc.read(ex, (P(i),)) * T.fexp(g['p0'].read(ex, (P(i), v)))
            num = num + ex.sum(ZERO, ln[i], lambda v: w(v) * (ac[i].read(ex, (v, q)) - xc.read(ex, (P(i), q))).scale(HALF))
            den = den + ex.sum(ZERO, ln[i], w)
        return num * T.inv(den)
    loop_contract(ex, n, ratio, [((P(i), v), [T.le(ZERO, v), T.lt(v, ln[i])]) for i in range(2) for v in [T.fresh('v')]])


@unit('all neighbours', [S + ':MPF.list_adjacent_states', U + ':adj'])
def neighbours(u):
    ex = u.ex()
    U_, n = T.var('U'), T.var('n')
    u.requires(ex, U_ >= 1, n >= 1)
    X = ex.sym_array('X', (U_, n), 'int', lambda v: T.And(v >= 0, v <= 1))
    x0 = ex.content(X)
    o = mpf(ex, None, adj=u.fn(ex, U, 'adj'))
    r = u.call(ex, ex.getattr(o, 'list_adjacent_states'), [X, T.TRUE])
    s, i, j = u.idx(ex, 's', 0, U_), u.idx(ex, 'i', 0, n), u.idx(ex, 'j', 0, n)
    u.eq(ex, 'one list per state', ex.content(r).shape[0], U_)
    row = ex.subscript(r, s)
    u.shape(ex, 'a neighbour per spin', row, [n, n])
    x = x0.read(ex, (s, j))
    u.elem(ex, 'one spin is flipped', row, (i, j), T.ite(T.eq(i, j), ONE - x, x))
    u.unchanged(ex, 'states unchanged', X, x0)


def bits(n, m):
    return [m >> (n - 1 - i) & 1 for i in range(n)]


@unit('neighbours outside the data', [S + ':MPF.list_adjacent_states'])
def outside(u):
    u.notes.append('every set of states of 2 spins, sets of 3 spins (all of them in the thorough tier)')
    for n in (2, 3):
        masks = range(1, 2 ** 2 ** n)
        if n == 3 and not DEEP:
            masks = [m for m in masks if m % 17 == 5 or bin(m).count('1') == 1]
        ex = u.ex('n=%d' % n)
        adj = u.fn(ex, U, 'adj')
        o = mpf(ex, None, adj=adj)
        for m in masks:
            data = [bits(n, q) for q in range(2 ** n) if m >> q & 1]
            X = ex.new_array((P(len(data)), P(n)), 'int', lambda co: sum((T.ind(T.And(T.eq(co[0], P(i)), T.eq(co[1], P(j)))).scale(d[j])
                                                                          for i, d in enumerate(data) for j in range(n)), ZERO))
            want = [[d[:q] + [1 - d[q]] + d[q + 1:] for q in range(n)] for d in data]
            want = [[t for t in w if t not in data] for w in want]
            if not all(want):
                u.must_raise(ex, ex.getattr(o, 'list_adjacent_states'), [X, T.FALSE], name='no neighbour outside the data: rejected')
                continue
            r = u.call(ex, ex.getattr(o, 'list_adjacent_states'), [X, T.FALSE])
            items = ex.cell(r).items
            u.holds(ex, 'one list per state', len(items) == len(data))
            for w, it in zip(want, items):
                u.shape(ex, 'the neighbours outside the data', it, [len(w), n])
                for a, t in enumerate(w):
                    for j in range(n):
                        u.elem(ex, 'neighbours in order', it, (P(a), P(j)), P(t[j]))


@unit('Ising model', [S + ':MPF.K', S + ':MPF.logK', U + ':calc_de'])
def ising(u):
    u.notes.append('bounded in the number of spins; any number of states and neighbours, any counts and parameters')
    for n in (2,) if not DEEP else (2, 3):
        for name in ('K', 'logK'):
            ex = u.ex('%s, n=%d' % (name, n))
            L = n + n * (n - 1) // 2
            U_, a = T.var('U'), T.var('A')
            u.requires(ex, U_ >= 1, a >= 1)
            X = ex.sym_array('X', (U_, P(n)), 'int', lambda v: T.And(v >= 0, v <= 1))
            adj = ex.sym_array('adj', (U_, a, P(n)), 'int', lambda v: T.And(v >= 0, v <= 1))
            cnt = ex.sym_array('count', (U_,), 'int', lambda v: v >= 1)
            th = ex.sym_array('theta', (P(L),), 'real')
            e = u.call(ex, u.fn(ex, U, 'define_ising_helper_functions'), [])[0]
            o = mpf(ex, e, u.fn(ex, U, 'calc_de'))
            xc, ac, cc, tc = [ex.content(x) for x in (X, adj, cnt, th)]

            def en(rd):
                r = ZERO
                for i in range(n):
                    r = r - tc.read(ex, (P(i),)) * rd(P(i))
                    for j in range(i + 1, n):
                        r = r - tc.read(ex, (P(n + i * (2 * n - i - 1) // 2 + j - i - 1),)) * rd(P(i)) * rd(P(j))
                return r
            want = ex.sum(ZERO, U_, lambda i: cc.read(ex, (i,)) * ex.sum(ZERO, a, lambda v: T.fexp(
                (en(lambda q: xc.read(ex, (i, q))) - en(lambda q: ac.read(ex, (i, v, q)))).scale(HALF))))
            total = ex.sum(ZERO, U_, lambda i: cc.read(ex, (i,)))
            v, g = u.call(ex, ex.getattr(o, name), [X, cnt, adj, th])
            u.eq(ex, 'value', P(v) if name == 'K' else T.fexp(P(v)), want * T.inv(total))
            u.shape(ex, 'gradient', g, [L])
            for q in range(L):
                u.eq(ex, 'derivative in parameter %d' % q, ex.content(g).read(ex, (P(q),)),
                     diff(want, 'theta', (P(q),)) * T.inv(total if name == 'K' else want))


@unit('no flow for data drawn from the model', [S + ':MPF.K', S + ':MPF.logK', S + ':MPF.list_adjacent_states'])
def stationary(u):
    u.notes.append('bounded in the number of spins; any parameters')
    for n in (2, 3):
        L = n + n * (n - 1) // 2
        ex = u.ex('n=%d' % n)
        data = [bits(n, q) for q in range(2 ** n)]
        X = ex.new_array((P(len(data)), P(n)), 'int', lambda co: sum((T.ind(T.And(T.eq(co[0], P(i)), T.eq(co[1], P(j)))).scale(d[j])
                                                                      for i, d in enumerate(data) for j in range(n)), ZERO))
        th = ex.sym_array('theta', (P(L),), 'real')
        tc = ex.content(th)

        def en(d):
            r = ZERO
            for i in range(n):
                r = r - tc.read(ex, (P(i),)).scale(d[i])
                for j in range(i + 1, n):
                    r = r - tc.read(ex, (P(n + i * (2 * n - i - 1) // 2 + j - i - 1),)).scale(d[i] * d[j])
            return r
        cnt = ex.new_array((P(len(data)),), 'real', lambda co: sum((T.ind(T.eq(co[0], P(i))) * T.fexp(-en(d)) for i, d in enumerate(data)), ZERO))
        e = u.call(ex, u.fn(ex, U, 'define_ising_helper_functions'), [])[0]
        o = mpf(ex, e, u.fn(ex, U, 'calc_de'), adj=u.fn(ex, U, 'adj'))
        lists = u.call(ex, ex.getattr(o, 'list_adjacent_states'), [X, T.TRUE])
        for name in ('K', 'logK') if n == 2 or DEEP else ('K',):
            v, g = u.call(ex, ex.getattr(o, name), [X, cnt, lists, th])
            for q in range(L):
                u.eq(ex, '%s does not change with parameter %d' % (name, q), ex.content(g).read(ex, (P(q),)), ZERO)


@unit('term of one state', [S + ':MPF.worker_objective_task'])
def worker(u):
    ex = u.ex()
    n, a, c = T.var('n'), T.var('A'), T.var('c')
    u.requires(ex, n >= 1, a >= 1, c >= 1)
    s = ex.sym_array('s', (n,), 'int')
    adj = ex.sym_array('adj', (a, n), 'int')
    th = ex.sym_array('theta', (n,), 'real')
    sc, ac, tc = ex.content(s), ex.content(adj), ex.content(th)
    e, d = linear(ex, u)
    r = u.call(ex, u.fn(ex, S, 'MPF.worker_objective_task'), [s, c, adj, th, e])
    en = lambda rd: -ex.sum(ZERO, n, lambda q: tc.read(ex, (q,)) * rd(q))
    u.eq(ex, 'count-weighted sum over the neighbours', P(r), c * ex.sum(ZERO, a, lambda v: T.fexp(
        (en(lambda q: sc.read(ex, (q,))) - en(lambda q: ac.read(ex, (v, q)))).scale(HALF))))


def fresh_contract(ex, clo, seen, make):
    """The callee by contract: any result; what it is called with is recorded."""
    def fn(ex, f, args, kw):
        r = make(len(seen))
        seen.append((args, kw, r))
        return r
    ex.contracts[(clo.module.get('__path__'), clo.name)] = fn


@unit('problem posed to the minimiser', [S + ':MPF.solve'])
def solve(u):
    for full in (True, False):
        for uselog in (True, False):
            for de in (False, True):
                for given in (False, True):
                    posed(u, full, uselog, de, given)


def posed(u, full, uselog, de, given):
    ex = u.ex(', '.join(('all neighbours' if full else 'neighbours outside the data', 'logarithm' if uselog else 'no logarithm',
                         'gradient' if de else 'no gradient', 'guess' if given else 'no guess')))
    n, R, U_, lim = T.var('n'), T.var('R'), T.var('U'), T.var('limit', 'real')
    u.requires(ex, n >= 2, R >= 1, U_ >= 1, T.lt(ZERO, lim))
    L = n + tri(n)
    X = ex.sym_array('X', (R, n), 'int', lambda v: T.Or(T.eq(v, -ONE), T.eq(v, ONE)))
    x0 = ex.content(X)
    guess = ex.sym_array('guess', (L,), 'real') if given else None
    g0 = ex.content(guess) if given else None
    env = ex.load(S)
    e, d = linear(ex, u)
    uniq, obs, lists = [], [], []

    def calc_obs(ex, x):
        xc = ex.content(x)
        t, j = u.idx(ex, 't', 0, R), u.idx(ex, 'j', 0, n)
        u.eq(ex, 'observables of the states in the 0/1 basis', xc.read(ex, (t, j)).scale(2), x0.read(ex, (t, j)) + 1)
        u.shape(ex, 'observables of all the states', x, [R, n])
        r = ex.sym_array('obs', (R, L), 'real')
        obs.append(r)
        return r
    o = mpf(ex, e, d if de else None, sample=X, n=n, calc_observables=Native(calc_obs, 'calc_observables'), multipliers=None, adj=None)

    def unique(ex, x, **kw):
        u.holds(ex, 'unique rows with their counts', P(kw.get('axis', ONE)) is ZERO and kw.get('return_counts') is T.TRUE)
        u.shape(ex, 'all the states', x, [R, n])
        t, j = u.idx(ex, 't', 0, R), u.idx(ex, 'j', 0, n)
        u.eq(ex, 'states in the 0/1 basis', ex.content(x).read(ex, (t, j)).scale(2), x0.read(ex, (t, j)) + 1)
        out = [ex.sym_array('Xu', (U_, n), 'int')]
        if kw.get('return_inverse') is T.TRUE:
            out.append(ex.sym_array('inverse', (R,), 'int'))
        out.append(ex.sym_array('count', (U_,), 'int', lambda v: v >= 1))
        uniq.append(out)
        return tuple(out)
    ex.lib = dict(ex.lib)
    ex.lib['numpy.unique'] = unique
    fresh_contract(ex, u.fn(ex, S, 'MPF.list_adjacent_states'), lists, lambda q: ex.sym_array('lists', (U_, T.var('A'), n), 'int'))
    res = lambda q: (ex.fresh('value', 'real'), ex.sym_array('grad%d' % q, (L,), 'real')) if de else ex.fresh('value', 'real')
    by = {}
    for nm in ('K', 'logK'):
        fresh_contract(ex, u.fn(ex, S, 'MPF.' + nm), by.setdefault(nm, []), res)
    conv = lambda p, to: u.call(ex, env['ising_convert_params'], [u.call(ex, env['split_concat_params'], [p, n]), to, T.TRUE])
    sols = []

    def minimize(ex, f, start, **kw):
        i = u.idx(ex, 'i', 0, L)
        u.shape(ex, 'start', start, [L])
        if given:
            u.elem(ex, 'starts from the guess in the 0/1 basis', start, (i,), ex.content(conv(guess, '01')).read(ex, (i,)))
        else:
            oc = ex.content(obs[0])
            u.eq(ex, 'starts from the mean observables', ex.content(start).read(ex, (i,)) * R, ex.sum(ZERO, R, lambda t: oc.read(ex, (t, i))))
        u.holds(ex, 'the gradient is declared', T.B(kw.get('jac', T.FALSE)) is (T.TRUE if de else T.FALSE))
        th = ex.sym_array('params', (L,), 'real')
        r = ex.call(f, [th], {})
        calls = by['logK' if uselog else 'K']
        u.holds(ex, 'one evaluation of the objective asked for', len(calls) == 1 and not by['K' if uselog else 'logK'])
        args, k2, got = calls[0]
        u.holds(ex, 'the objective of the unique states, counts and neighbours',
                list(args[1:]) == [uniq[0][0], uniq[0][-1], lists[0][2], th] and not k2)
        u.holds(ex, 'the value is passed on', r == got)
        b = kw['bounds']
        q = u.idx(ex, 'q', 0, L)
        bq = ex.subscript(b, q)
        u.eq(ex, 'lower bound', P(bq[0]), -lim)
        u.eq(ex, 'upper bound', P(bq[1]), lim)
        u.eq(ex, 'a bound per parameter', P(u.call(ex, ex.load_source('def f(x): return len(x)\n', 'spec')['f'], [b])), L)
        s = ex.alloc(Dct({'x': ex.sym_array('solution', (L,), 'real')}))
        sols.append(s)
        return s
    ex.lib['scipy.optimize.minimize'] = minimize
    r = u.call(ex, ex.getattr(o, 'solve'), [], dict(initial_guess=guess, all_connected=T.TRUE if full else T.FALSE, parameter_limits=lim,
                                                   uselog=T.TRUE if uselog else T.FALSE))
    u.holds(ex, 'one problem', len(sols) == 1)
    u.holds(ex, 'the neighbours of the unique states', list(lists[0][0][1:]) == [uniq[0][0], T.TRUE if full else T.FALSE] and not lists[0][1])
    i = u.idx(ex, 'i', 0, L)
    want = ex.content(conv(ex.sym_array('solution', (L,), 'real'), '11')).read(ex, (i,))
    u.elem(ex, 'the solution in the -1/1 basis', r, (i,), want)
    u.elem(ex, 'the solver keeps the solution', ex.cell(o).attrs['multipliers'], (i,), want)
    u.unchanged(ex, 'sample unchanged', X, x0)
    if given:
        u.unchanged(ex, 'guess unchanged', guess, g0)


@unit('functions given to the solver', [S + ':MPF.__init__'])
def init(u):
    for adj in (None, Native(lambda ex, s: s, 'my_adj')):
        for de in (None, Native(lambda ex, s, j: s, 'my_de')):
            ex = u.ex('adj %s, calc_de %s' % ('given' if adj else 'default', 'given' if de else 'default'))
            env = ex.load(S)
            kept = []
            setup = u.fn(ex, S, 'Solver.basic_setup')
            fresh_contract(ex, setup, kept, lambda q: None)
            R, n = T.var('R'), T.var('n')
            X = ex.sym_array('X', (R, n), 'int')
            m, c = ex.alloc(Obj(None, {})), Native(lambda ex, x: x, 'obs')
            o = u.call(ex, env['MPF'], [X], dict(model=m, calc_observables=c, adj=adj, calc_de=de, iprint=T.FALSE))
            at = ex.cell(o).attrs
            u.holds(ex, 'the neighbour function', at['adj'] is adj if adj else getattr(at['adj'], 'name', None) == 'adj')
            u.holds(ex, 'the derivative', at['calc_de'] is de)
            u.holds(ex, 'the solver is set up with the arguments', list(kept[0][0][1:5]) == [X, m, c, T.FALSE])

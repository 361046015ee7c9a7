"""C12: pseudolikelihood objective, gradient and index bookkeeping."""
import os
from pyvc.units import unit
from pyvc import terms as T
from pyvc.terms import P, ZERO, ONE
from pyvc.lib import tri, pidx, Native
from pyvc.exec import Obj, Lst, Dct
from pyvc.deriv import diff
from pyvc.sums import cases_eq
from pyvc.heap import Unsupported
U = 'coniii/utils.py'
S = 'coniii/solvers.py'
DEEP = os.environ.get('PYVC_TIER') == 'thorough'


def helpers(u, ex, kind, n, k=None):
    f = u.fn(ex, U, 'define_pseudo_%s_helper_functions' % kind)
    r = u.call(ex, f, [n] if k is None else [n, k])
    return r[0], r[1]


@unit('ising get_multipliers_r', [U + ':define_pseudo_ising_helper_functions.get_multipliers_r'])
def gm(u):
    ex = u.ex()
    n, r = T.var('n'), T.var('r')
    u.requires(ex, n >= 2, r >= 0, r < n)
    th = ex.sym_array('theta', (n + tri(n),), 'real')
    t0 = ex.content(th)
    get, obs = helpers(u, ex, 'ising', n)
    m, ix = u.call(ex, get, [r, th])
    u.shape(ex, 'one field and n-1 couplings', m, [n])
    q = u.idx(ex, 'q', 1, n)
    u.elem(ex, 'the field of spin r', m, (ZERO,), t0.read(ex, (r,)))
    for lab, f, a, b in (('smaller', q - 1 < r, q - 1, r), ('larger', q - 1 >= r, r, q)):
        with ex.assume(f):
            ex.hints += [(a, b), (a if lab == 'smaller' else b,)]
            u.elem(ex, 'coupling to a %s spin' % lab, m, (q,), t0.read(ex, (n + pidx(n, a, b),)))
            u.eq(ex, 'position of the coupling to a %s spin' % lab, ex.content(ix).read(ex, (q,)), n + pidx(n, a, b))
    u.eq(ex, 'position of the field', ex.content(ix).read(ex, (ZERO,)), r)
    u.unchanged(ex, 'multipliers unchanged', th, t0)


@unit('ising calc_observables_r', [U + ':define_pseudo_ising_helper_functions.calc_observables_r'])
def obsr(u):
    ex = u.ex()
    n, r, R = T.var('n'), T.var('r'), T.var('R')
    u.requires(ex, n >= 2, r >= 0, r < n, R >= 1)
    X = ex.sym_array('X', (R, n), 'int')
    x0 = ex.content(X)
    get, obs = helpers(u, ex, 'ising', n)
    o = u.call(ex, obs, [r, X])
    u.shape(ex, 'one row per sample', o, [R, n])
    t = u.idx(ex, 't', 0, R)
    q = u.idx(ex, 'q', 1, n)
    u.elem(ex, 'the field observable', o, (t, ZERO), x0.read(ex, (t, r)))
    for lab, f, a in (('smaller', q - 1 < r, q - 1), ('larger', q - 1 >= r, q)):
        with ex.assume(f):
            ex.hints += [(a, r) if lab == 'smaller' else (r, a)]
            u.elem(ex, 'product with a %s spin' % lab, o, (t, q), x0.read(ex, (t, r)) * x0.read(ex, (t, a)))
    u.unchanged(ex, 'sample unchanged', X, x0)


@unit('potts get_multipliers_r', [U + ':define_pseudo_potts_helper_functions.get_multipliers_r'])
def pgm(u):
    ex = u.ex()
    n, r, k = T.var('n'), T.var('r'), T.var('k')
    u.requires(ex, n >= 2, r >= 0, r < n, k >= 2)
    th = ex.sym_array('theta', (n * k + tri(n),), 'real')
    t0 = ex.content(th)
    get, obs = helpers(u, ex, 'potts', n, k)
    m, ix = u.call(ex, get, [r, th])
    u.shape(ex, 'k fields and n-1 couplings', m, [k - 1 + n])
    s = u.idx(ex, 's', 0, k)
    ex.hints += [(s,)]
    u.elem(ex, 'the fields of spin r', m, (s,), t0.read(ex, (r + n * s,)))
    u.eq(ex, 'positions of the fields', ex.content(ix).read(ex, (s,)), r + n * s)
    q = u.idx(ex, 'q', 1, n)
    for lab, f, a, b in (('smaller', q - 1 < r, q - 1, r), ('larger', q - 1 >= r, r, q)):
        with ex.assume(f):
            ex.hints += [(a, b), (a if lab == 'smaller' else b,)]
            u.elem(ex, 'coupling to a %s spin' % lab, m, (k - 1 + q,), t0.read(ex, (n * k + pidx(n, a, b),)))
            u.eq(ex, 'position of the coupling to a %s spin' % lab, ex.content(ix).read(ex, (k - 1 + q,)), n * k + pidx(n, a, b))
    u.unchanged(ex, 'multipliers unchanged', th, t0)


@unit('potts calc_observables_r', [U + ':define_pseudo_potts_helper_functions.calc_observables_r'])
def pobsr(u):
    ex = u.ex()
    n, r, R, k = T.var('n'), T.var('r'), T.var('R'), T.var('k')
    u.requires(ex, n >= 2, r >= 0, r < n, R >= 1, k >= 2)
    X = ex.sym_array('X', (R, n), 'int', lambda v: T.And(v >= 0, v < k))
    x0 = ex.content(X)
    get, obs = helpers(u, ex, 'potts', n, k)
    o, other, st = u.call(ex, obs, [r, X])
    u.shape(ex, 'one row per sample', o, [R, k - 1 + n])
    t = u.idx(ex, 't', 0, R)
    x = x0.read(ex, (t, r))
    s = u.idx(ex, 's', 0, k)
    ex.hints += [(s,)]
    u.elem(ex, 'the state of spin r', o, (t, s), T.ind(T.eq(x, s)))
    w = u.idx(ex, 'w', 0, k - 1)
    sw = w + T.ind(w >= x)
    ex.hints += [(sw,)]
    u.elem(ex, 'the other states in increasing order', st, (t, w), sw)
    oc = ex.content(other)
    u.eq(ex, 'the state of spin r in the alternatives', oc.read(ex, (w, t, s)), T.ind(T.eq(sw, s)))
    q = u.idx(ex, 'q', 1, n)
    for lab, f, a in (('smaller', q - 1 < r, q - 1), ('larger', q - 1 >= r, q)):
        with ex.assume(f):
            ex.hints += [(a, r) if lab == 'smaller' else (r, a), (a, r, sw) if lab == 'smaller' else (r, a, sw)]
            u.elem(ex, 'agreement with a %s spin' % lab, o, (t, k - 1 + q), T.ind(T.eq(x, x0.read(ex, (t, a)))))
            u.eq(ex, 'agreement of the alternatives with a %s spin' % lab, oc.read(ex, (w, t, k - 1 + q)), T.ind(T.eq(sw, x0.read(ex, (t, a)))))
    u.unchanged(ex, 'sample unchanged', X, x0)


def pseudo(u, ex, n, R, calc=None, kind='ising', k=None, fact=None):
    """A Pseudo solver for n spins (concrete) with any sample."""
    env = ex.load(S)
    X = ex.sym_array('X', (R, P(n)), 'int', fact or (lambda v: T.Or(T.eq(v, -ONE), T.eq(v, ONE))))
    if kind == 'ising':
        get, obs = helpers(u, ex, 'ising', P(n))
        calc = u.call(ex, u.fn(ex, U, 'define_ising_helper_functions'), [])[1]
    else:
        get, obs = helpers(u, ex, 'potts', P(n), P(k))
        calc = u.call(ex, u.fn(ex, U, 'define_potts_helper_functions'), [P(k)])[1]
    o = ex.alloc(Obj(env['Pseudo'], {'n': P(n), 'sample': X, 'calc_observables': calc, 'get_multipliers_r': get, 'calc_observables_r': obs,
                                     'k': P(k or 2), 'multipliers': None}))
    return env, o, X


def capture(ex, u, check):
    """minimize: any result; the objective it is given is evaluated at arbitrary parameters by check(index, f, x0, kwargs)."""
    seen = []

    def fn(ex, fun, x0, **kw):
        q = len(seen)
        m = ex.content(x0).shape[0]
        seen.append(q)
        check(q, fun, x0, kw)
        res = ex.sym_array('solution%d' % q, (m,), 'real')
        return ex.alloc(Dct({'x': res}))
    ex.lib = dict(ex.lib)
    ex.lib['scipy.optimize.minimize'] = fn
    return seen


def potts_obs_contract(ex, k, clo):
    """calc_observables_r of the Potts model, as proved above for any number of spins, states and samples."""
    def fn(ex, f, args, kw):
        r, X = args[0], args[1]
        x = ex.content(X)
        R, n = x.shape
        n = int(n.const())
        rr = int(P(r).const())
        js = [j for j in range(n) if j != rr]

        def row(state):
            def rd(co):
                t, q = co
                v = ZERO
                for s in range(k):
                    v = v + T.ind(T.eq(q, P(s))) * T.ind(T.eq(state(t), P(s)))
                for p_, j in enumerate(js):
                    v = v + T.ind(T.eq(q, P(k + p_))) * T.ind(T.eq(x.read(ex, (t, P(j))), state(t)))
                return v
            return ex.new_array((R, P(k - 1 + n)), 'int', rd)
        own = lambda t: x.read(ex, (t, P(rr)))
        alt = lambda w: (lambda t: P(w) + T.ind(T.le(own(t), P(w))))
        st = ex.new_array((R, P(k - 1)), 'int', lambda co: co[1] + T.ind(T.le(own(co[0]), co[1])))
        return (row(own), ex.alloc(Lst([row(alt(w)) for w in range(k - 1)])), st)
    ex.contracts[(clo.module.get('__path__'), clo.name)] = fn


def others(n, r):
    return [i for i in range(n) if i != r]


def pos(n, a, b):
    a, b = min(a, b), max(a, b)
    return n + a * (2 * n - a - 1) // 2 + b - a - 1


@unit('ising objective and gradient', [S + ':Pseudo._solve_ising'])
def solve_ising(u):
    u.notes.append('bounded in the number of spins; any number of samples, any data, any parameters')
    for n in (2, 3) if not DEEP else (2, 3, 4, 5):
        for given in (True, False):
            ex = u.ex('n=%d%s' % (n, ', initial guess' if given else ''))
            R = T.var('R')
            u.requires(ex, R >= 1)
            env, o, X = pseudo(u, ex, n, R)
            x0 = ex.content(X)
            L = n + n * (n - 1) // 2
            guess = ex.sym_array('guess', (P(L),), 'real') if given else None
            g0 = ex.content(guess) if given else None

            def check(r, f, start, kw):
                u.holds(ex, 'the gradient is declared', kw.get('jac') is T.TRUE)
                sc = ex.content(start)
                ix = [r] + [pos(n, r, j) for j in others(n, r)]
                for q in range(n):
                    u.eq(ex, 'spin %d starts from the guess' % r, sc.read(ex, (P(q),)), g0.read(ex, (P(ix[q]),)) if given else ZERO)
                params = ex.sym_array('params%d' % r, (P(n),), 'real')
                val, grad = ex.call(f, [params], {})
                pc = ex.content(params)

                def one(t):
                    s = pc.read(ex, (ZERO,)) * x0.read(ex, (t, P(r)))
                    for q, j in enumerate(others(n, r)):
                        s = s + pc.read(ex, (P(q + 1),)) * x0.read(ex, (t, P(r))) * x0.read(ex, (t, P(j)))
                    return T.flog(ONE + T.fexp(s.scale(-2)))
                u.eq(ex, 'negative log conditional likelihood of spin %d' % r, P(val), ex.sum(ZERO, R, one))
                gc = ex.content(grad)
                u.shape(ex, 'gradient', grad, [n])
                for q in range(n):
                    u.eq(ex, 'derivative of spin %d, parameter %d' % (r, q), gc.read(ex, (P(q),)),
                         diff(P(val), 'params%d' % r, (P(q),)))
            seen = capture(ex, u, check)
            ret = u.call(ex, ex.getattr(o, '_solve_ising'), [guess] if given else [])
            u.holds(ex, 'one problem per spin', len(seen) == n)
            u.shape(ex, 'fields and couplings', ret, [L])
            sol = [ex.content(ex.sym_array('solution%d' % r, (P(n),), 'real')) for r in range(n)]
            for i in range(n):
                u.elem(ex, 'field %d' % i, ret, (P(i),), sol[i].read(ex, (ZERO,)))
                for j in range(i + 1, n):
                    want = (sol[i].read(ex, (P(1 + others(n, i).index(j)),)) + sol[j].read(ex, (P(1 + others(n, j).index(i)),))).scale(T.Fraction(1, 2))
                    u.elem(ex, 'coupling %d,%d is the average of the two estimates' % (i, j), ret, (P(pos(n, i, j)),), want)
            u.holds(ex, 'the solver keeps what it returns', ex.cell(o).attrs['multipliers'] == ret)
            u.unchanged(ex, 'sample unchanged', X, x0)
            if given:
                u.unchanged(ex, 'guess unchanged', guess, g0)


@unit('general objective and gradient', [S + ':Pseudo._solve_general'])
def solve_general(u):
    u.notes.append('bounded in the number of spins; any number of samples, any data, any parameters')
    for n in (2, 3) if not DEEP else (2, 3, 4):
        for given in (True, False):
            ex = u.ex('n=%d%s' % (n, ', initial guess' if given else ''))
            R = T.var('R')
            u.requires(ex, R >= 1)
            env, o, X = pseudo(u, ex, n, R)
            x0 = ex.content(X)
            L = n + n * (n - 1) // 2
            guess = ex.sym_array('guess', (P(L),), 'real') if given else None
            g0 = ex.content(guess) if given else None

            def check(q, f, start, kw):
                u.holds(ex, 'the gradient is declared', kw.get('jac') is T.TRUE)
                u.shape(ex, 'start', start, [L])
                sc = ex.content(start)
                for i in range(L):
                    u.eq(ex, 'starts from the guess', sc.read(ex, (P(i),)), g0.read(ex, (P(i),)) if given else ZERO)
                params = ex.sym_array('params', (P(L),), 'real')
                pc = ex.content(params)
                val, grad = ex.call(f, [params], {})

                def one(t):
                    r_ = ZERO
                    for r in range(n):
                        s = pc.read(ex, (P(r),)) * x0.read(ex, (t, P(r)))
                        for j in others(n, r):
                            s = s + pc.read(ex, (P(pos(n, r, j)),)) * x0.read(ex, (t, P(r))) * x0.read(ex, (t, P(j)))
                        r_ = r_ + T.flog(ONE + T.fexp(s.scale(-2)))
                    return r_
                u.eq(ex, 'sum of the negative log conditional likelihoods', P(val), ex.sum(ZERO, R, one))
                gc = ex.content(grad)
                u.shape(ex, 'gradient', grad, [L])
                for i in range(L):
                    u.eq(ex, 'derivative, parameter %d' % i, gc.read(ex, (P(i),)), diff(P(val), 'params', (P(i),)))
                u.unchanged(ex, 'parameters unchanged', params, pc)
            seen = capture(ex, u, check)
            ret = u.call(ex, ex.getattr(o, '_solve_general'), [guess] if given else [])
            u.holds(ex, 'one problem', len(seen) == 1)
            sol = ex.content(ex.sym_array('solution0', (P(L),), 'real'))
            i = u.idx(ex, 'i', 0, L)
            u.elem(ex, 'the solution is returned', ret, (i,), sol.read(ex, (i,)))
            u.holds(ex, 'the solver keeps what it returns', ex.cell(o).attrs['multipliers'] == ret)
            u.unchanged(ex, 'sample unchanged', X, x0)


@unit('Potts objective and gradient', [S + ':Pseudo._solve_potts'], timeout=600)
def solve_potts(u):
    u.notes.append('bounded in the number of spins and states; any number of samples, any data, any parameters')
    for n, k in ((2, 2), (2, 3)) if not DEEP else ((2, 2), (2, 3), (3, 2), (3, 3)):
        ex = u.ex('n=%d, k=%d' % (n, k))
        R = T.var('R')
        u.requires(ex, R >= 1)
        env, o, X = pseudo(u, ex, n, R, kind='potts', k=k, fact=lambda v: T.And(v >= 0, v < k))
        x0 = ex.content(X)
        L = n * k + n * (n - 1) // 2
        guess = ex.sym_array('guess', (P(L),), 'real')
        g0 = ex.content(guess)
        potts_obs_contract(ex, k, ex.cell(o).attrs['calc_observables_r'])

        def check(q, f, start, kw):
            u.holds(ex, 'the gradient is declared', kw.get('jac') is T.TRUE)
            u.holds(ex, 'starts from the guess', start == guess)
            params = ex.sym_array('params', (P(L),), 'real')
            pc = ex.content(params)
            val, grad = ex.call(f, [params], {})

            def one(t):
                r_ = ZERO
                for r in range(n):
                    def en(s):
                        # minus the energy of spin r in state s given the others
                        e = ZERO
                        for z in range(k):
                            e = e + T.ind(T.eq(s, P(z))) * pc.read(ex, (P(r + n * z),))
                        for j in others(n, r):
                            e = e + T.ind(T.eq(s, x0.read(ex, (t, P(j))))) * pc.read(ex, (P(pos(n, r, j) - n + n * k),))
                        return e
                    z = ZERO
                    for s in range(k):
                        z = z + T.fexp(en(P(s)) - en(x0.read(ex, (t, P(r)))))
                    r_ = r_ + T.flog(z)
                return r_
            cells = lambda t: [x0.read(ex, (t, P(j))) for j in range(n)]
            cases_eq(ex, 'sum of the negative log conditional likelihoods', P(val), ex.sum(ZERO, R, one), R, cells, range(k))
            gc = ex.content(grad)
            u.shape(ex, 'gradient', grad, [L])
            for i in range(L):
                cases_eq(ex, 'derivative, parameter %d' % i, gc.read(ex, (P(i),)), diff(P(val), 'params', (P(i),)), R, cells, range(k))
        seen = capture(ex, u, check)
        ret = u.call(ex, ex.getattr(o, '_solve_potts'), [guess])
        u.holds(ex, 'one problem', len(seen) == 1)
        sol = ex.content(ex.sym_array('solution0', (P(L),), 'real'))
        i = u.idx(ex, 'i', 0, L)
        u.elem(ex, 'the solution is returned', ret, (i,), sol.read(ex, (i,)))
        u.unchanged(ex, 'sample unchanged', X, x0)


@unit('deprecated Newton solver', [S + ':Pseudo._solve_ising_deprecated', S + ':Pseudo.cond_log_likelihood', S + ':Pseudo.cond_jac',
                                   S + ':Pseudo.cond_hess', S + ':Pseudo.pair_cooc_mat'], timeout=600)
def deprecated(u):
    u.notes.append('bounded in the number of spins; any number of samples, any data, any parameters')
    for n in (2, 3) if not DEEP else (2, 3, 4):
        ex = u.ex('n=%d' % n)
        R = T.var('R')
        u.requires(ex, R >= 1)
        env, o, X = pseudo(u, ex, n, R)
        x0 = ex.content(X)
        done = []

        def newton(ex, f, start, fprime, *more, fhess=None, **kw):
            r = len(done)
            done.append(r)
            params = ex.sym_array('params%d' % r, (P(n),), 'real')
            pc = ex.content(params)
            val = P(ex.call(f, [params], {}))

            def one(t):
                # binary spins; the conditional model of spin r given the others, coupling entering twice
                b = [(x0.read(ex, (t, P(j))) + 1).scale(T.Fraction(1, 2)) for j in range(n)]
                s = pc.read(ex, (P(r),))
                for j in others(n, r):
                    s = s + (pc.read(ex, (P(j),)) * b[j]).scale(2)
                return T.flog(ONE + T.fexp((b[r].scale(2) - 1) * s))
            u.eq(ex, 'negative log conditional likelihood of spin %d' % r, val, ex.sum(ZERO, R, one))
            g = ex.call(fprime, [params], {})
            h = ex.call(fhess, [params], {})
            u.shape(ex, 'gradient', g, [n])
            u.shape(ex, 'Hessian', h, [n, n])
            cells = lambda t: [x0.read(ex, (t, P(j))) for j in range(n)]
            for i in range(n):
                d = diff(val, 'params%d' % r, (P(i),))
                cases_eq(ex, 'derivative %d, spin %d' % (i, r), ex.content(g).read(ex, (P(i),)), d, R, cells, (-1, 1))
                for j in range(n):
                    cases_eq(ex, 'second derivative %d,%d, spin %d' % (i, j, r), ex.content(h).read(ex, (P(i), P(j))),
                             diff(d, 'params%d' % r, (P(j),)), R, cells, (-1, 1))
            return ex.sym_array('solution%d' % r, (P(n),), 'real')
        ex.lib = dict(ex.lib)
        ex.lib['scipy.optimize.fmin_ncg'] = newton
        ret = u.call(ex, ex.getattr(o, '_solve_ising_deprecated'), [])
        u.holds(ex, 'one problem per spin', len(done) == n)
        sol = [ex.content(ex.sym_array('solution%d' % r, (P(n),), 'real')) for r in range(n)]
        # P(b) ~ exp(-sum J_rr b_r - 2 J_ij b_i b_j) with b = (s+1)/2, J the average: the parameters in the {-1,1} basis
        av = lambda i, j: (sol[i].read(ex, (P(j),)) + sol[j].read(ex, (P(i),))).scale(T.Fraction(-1, 2))
        for i in range(n):
            w = av(i, i).scale(T.Fraction(1, 2))
            for j in others(n, i):
                w = w + av(i, j).scale(T.Fraction(1, 2))
            u.elem(ex, 'field %d' % i, ret, (P(i),), w)
            for j in range(i + 1, n):
                u.elem(ex, 'coupling %d,%d' % (i, j), ret, (P(pos(n, i, j)),), av(i, j).scale(T.Fraction(1, 2)))
        u.unchanged(ex, 'sample unchanged', X, x0)


PI = 'coniii/pseudo_inverse_ising.py'


@unit('pseudo_inverse_ising module', [PI + ':pseudoInverseIsing', PI + ':conditionalLogLikelihood', PI + ':conditionalJacobian',
                                      PI + ':conditionalHessian', PI + ':pairCoocMat', PI + ':pseudoLogLikelihood'], timeout=600)
def pim(u):
    u.notes.append('bounded in the number of spins; any number of samples, any binary data, any parameters; minimum size 0 (other sizes: replay)')
    for n in (2, 3) if not DEEP else (2, 3, 4):
        ex = u.ex('n=%d' % n)
        R = T.var('R')
        u.requires(ex, R >= 1)
        env = ex.load(PI)
        X = ex.sym_array('X', (R, P(n)), 'int', lambda v: T.And(v >= 0, v <= 1))
        x0 = ex.content(X)
        cells = lambda t: [x0.read(ex, (t, P(j))) for j in range(n)]
        for r in range(n):
            params = ex.sym_array('params', (P(n),), 'real')
            pc = ex.content(params)
            val = P(u.call(ex, env['conditionalLogLikelihood'], [P(r), X, params]))

            def one(t, r=r):
                b = cells(t)
                s = pc.read(ex, (P(r),))
                for j in others(n, r):
                    s = s + (pc.read(ex, (P(j),)) * b[j]).scale(2)
                return -T.flog(ONE + T.fexp((b[r].scale(2) - 1) * s))
            cases_eq(ex, 'conditional log likelihood of spin %d' % r, val, ex.sum(ZERO, R, one), R, cells, (0, 1))
            g = u.call(ex, env['conditionalJacobian'], [P(r), X, params])
            h = u.call(ex, env['conditionalHessian'], [P(r), X, params])
            rh = ex.new_array((R, P(n)), 'real', lambda co, r=r: ONE if int(co[1].const()) == r else x0.read(ex, co).scale(2))
            h2 = u.call(ex, env['conditionalHessian'], [P(r), X, params], {'pairCoocRhat': u.call(ex, env['pairCoocMat'], [rh])})
            for i in range(n):
                d = diff(-val, 'params', (P(i),))
                cases_eq(ex, 'derivative %d, spin %d' % (i, r), ex.content(g).read(ex, (P(i),)), d, R, cells, (0, 1))
                for j in range(n):
                    w = diff(d, 'params', (P(j),))
                    for lab, hh in (('', h), (' with the products given', h2)):
                        cases_eq(ex, 'second derivative %d,%d, spin %d%s' % (i, j, r, lab), ex.content(hh).read(ex, (P(i), P(j))), w, R, cells, (0, 1))
        u.unchanged(ex, 'data unchanged', X, x0)

"""C13: histogram reweighting and its parameter updates."""
import os
from pyvc.units import unit
from pyvc import terms as T
from pyvc import sums
from pyvc.terms import P, ZERO, ONE
from pyvc.lib import tri, pidx, Native
from pyvc.exec import Obj, Lst, Dct
from pyvc.heap import Unsupported
from props.sparse_common import insertion, sparse_solver
U = 'coniii/utils.py'
S = 'coniii/solvers.py'
DEEP = os.environ.get('PYVC_TIER') == 'thorough'
FACT = {'spins -1,1': lambda v: T.Or(T.eq(v, -ONE), T.eq(v, ONE)), 'spins 0,1': lambda v: T.And(v >= 0, v <= 1)}


def pairs_energy(ex, n, off, p, x):
    return ex.sum(ZERO, n, lambda i: ex.sum(i + 1, n, lambda j: p(off + pidx(n, i, j)) * x(i) * x(j)))


def reweighted(ex, R, w, f):
    """the average of f over the sample, sample t having the weight w(t)"""
    return ex.sum(ZERO, R, lambda t: w(t) * f(t)) * T.inv(ex.sum(ZERO, R, w))


def start(u, label, fact, length):
    ex = u.ex(label)
    n, R = T.var('n'), T.var('R')
    u.requires(ex, n >= 2, R >= 1)
    X = ex.sym_array('X', (R, n), 'int', fact)
    d = ex.sym_array('dlamda', (length(n),), 'real')
    I, J = T.var('I'), T.var('J')
    ex.hints.append((I, J))
    x0, d0 = ex.content(X), ex.content(d)
    return ex, n, R, X, d, x0, d0, I, J, (lambda t, i: x0.read(ex, (t, i))), (lambda q: d0.read(ex, (q,)))


def finish(u, ex, X, d, x0, d0):
    u.unchanged(ex, 'sample unchanged', X, x0)
    u.unchanged(ex, 'parameter change unchanged', d, d0)


@unit('mch_approximation, Ising', [U + ':define_ising_helper_functions.mch_approximation', U + ':define_ising_helper_functions.calc_e', U + ':pair_corr'])
def ising(u):
    for lab, fact in FACT.items():
        ex, n, R, X, d, x0, d0, I, J, x, p = start(u, lab, fact, lambda n: n + tri(n))
        f = u.call(ex, u.fn(ex, U, 'define_ising_helper_functions'), [])[2]
        r = u.call(ex, f, [X, d])
        w = lambda t: T.fexp(ex.sum(ZERO, n, lambda i: p(i) * x(t, i)) + pairs_energy(ex, n, n, p, lambda i: x(t, i)))
        u.shape(ex, 'one prediction per observable', r, [n + tri(n)])
        i = u.idx(ex, 'i', 0, n)
        u.elem(ex, 'reweighted mean', r, (i,), reweighted(ex, R, w, lambda t: x(t, i)))
        ex.st.facts += [I >= 0, I < J, J < n]
        u.elem(ex, 'reweighted pair average', r, (n + pidx(n, I, J),), reweighted(ex, R, w, lambda t: x(t, I) * x(t, J)))
        finish(u, ex, X, d, x0, d0)


@unit('mch_approximation, symmetric Ising', [U + ':define_ising_helper_functions_sym.mch_approximation', U + ':define_ising_helper_functions_sym.calc_e', U + ':pair_corr'])
def sym(u):
    for lab, fact in FACT.items():
        ex, n, R, X, d, x0, d0, I, J, x, p = start(u, lab, fact, lambda n: tri(n))
        f = u.call(ex, u.fn(ex, U, 'define_ising_helper_functions_sym'), [])[2]
        r = u.call(ex, f, [X, d])
        w = lambda t: T.fexp(pairs_energy(ex, n, ZERO, p, lambda i: x(t, i)))
        u.shape(ex, 'one prediction per observable', r, [tri(n)])
        ex.st.facts += [I >= 0, I < J, J < n]
        u.elem(ex, 'reweighted pair average', r, (pidx(n, I, J),), reweighted(ex, R, w, lambda t: x(t, I) * x(t, J)))
        finish(u, ex, X, d, x0, d0)


@unit('mch_approximation, Potts', [U + ':define_potts_helper_functions.mch_approximation', U + ':define_potts_helper_functions.calc_e'])
def potts(u):
    """calc_observables by its contract (C02): the same table of indicators, column by column, for every call on a sample."""
    k = T.var('k')
    ex, n, R, X, d, x0, d0, I, J, x, p = start(u, '', lambda v: T.And(v >= 0, v < k), lambda n: n * k + tri(n))
    u.requires(ex, k >= 2)
    hf = u.call(ex, u.fn(ex, U, 'define_potts_helper_functions'), [k])
    L = n * k + tri(n)
    Y = lambda t, q: T.app('Y', (t, q), 'int')
    from pyvc import smt
    smt.add_fun_fact('Y', lambda t, q: T.And(Y(t, q) >= 0, Y(t, q) <= 1))

    def observables(ex, f, args, kw):
        u.holds(ex, 'observables of the sample', args[0] == X)
        kk = args[1] if len(args) > 1 else kw.get('k', k)
        u.eq(ex, 'observables of k states', kk, k)
        return ex.new_array((R, L), 'int', lambda co: Y(*co))
    ex.contracts[(hf[1].module.get('__path__'), hf[1].name)] = observables
    r = u.call(ex, hf[2], [X, d])
    w = lambda t: T.fexp(ex.sum(ZERO, L, lambda q: Y(t, q) * p(q)))
    u.shape(ex, 'one prediction per observable', r, [L])
    q = u.idx(ex, 'q', 0, L)
    u.elem(ex, 'reweighted average of every observable', r, (q,), reweighted(ex, R, w, lambda t: Y(t, q)))
    finish(u, ex, X, d, x0, d0)


# ------------------------------------------------------------------ learning steps
SPEC = """
import numpy as np
def exceeded(d, maxd, maxn):
    return np.linalg.norm(d) > maxn or np.any(np.abs(d) > maxd)
def distance(e, c):
    return np.linalg.norm(e - c)
def off(e, c, tol):
    return not np.all(np.abs(e - c) < tol)
"""


def learning(u, cls, ncond=0, full_data=True):
    """Contract of the learning loop, by an invariant at an arbitrary observable q.

    State at the loop head: D the accumulated change, E the current prediction, dist its distance to the constraints, steps the number
    of steps made.  Before the first step D = 0, E the observables given, dist = 1; afterwards E is the prediction for D and dist its
    distance; the loop goes on exactly while D is within the limits and steps is not above the maximum.  Every step adds
    -(E - constraints) min(dist, 1) eta to D.  At the end the parameters have changed by D and E is returned."""
    from pyvc.loops import Inv
    sparse, incomplete = cls == 'SparseMCH', cls == 'MCHIncompleteData'
    ex = u.ex(cls + (', %d conditional samples%s' % (ncond, '' if full_data else ', no complete data') if incomplete else ''))
    m, L, R, n = T.var('m'), T.var('L'), T.var('R'), T.var('n')
    u.requires(ex, m >= 1, L >= m, R >= 1, n >= 2)
    full = L if sparse else m
    env = ex.load(S)
    ex.side_timeout = 150         # most side questions asked here are undecided: do not spend time on them
    spec = ex.load_source(SPEC, 'spec')
    arr = lambda nm, k=m: ex.sym_array(nm, (k,), 'real')
    est, con, mult = arr('est'), arr('constraints'), arr('multipliers', full)
    X = ex.sym_array('X', (R, n), 'int')
    e0, c0, m0, x0 = (ex.content(a) for a in (est, con, mult, X))
    maxd, maxn, eta = (T.var(x, 'real') for x in ('maxdlamda', 'maxdlamdaNorm', 'eta'))
    most = T.var('maxLearningSteps')
    q, f = u.idx(ex, 'q', 0, m), u.idx(ex, 'f', 0, full)
    g = dict(fills={}, calls=0, cur=None, res=None, got=[])
    exceeded = lambda d: ex.truth(ex.call(spec['exceeded'], [d, maxd, maxn], {}))
    conds = [ex.sym_array('C%d' % i, (R, n), 'int') for i in range(ncond)]
    attrs = {'_multipliers': mult, 'model': ex.alloc(Obj(None, {'sample': X}))}
    pix = None

    if sparse:
        attrs['parameterIx'] = ix = ex.sym_array('parameterIx', (m,), 'int', lambda v: T.And(v >= 0, v < L))
        pix = ex.content(ix)

        def fill(ex, clo, args, kw):
            u.holds(ex, 'filled in with zeros', len(args) == 2 and not kw)
            u.shape(ex, 'one value per constrained parameter', args[1], [m])
            r = arr('filled%d' % len(g['fills']), L)
            g['fills'][r] = ex.content(args[1])
            return r
        ex.contracts[(S, 'Solver.fill_in')] = fill
        ex.contracts[(S, 'fill_in')] = fill
    if incomplete:
        ff = T.var('fullFraction', 'real')
        counts = ex.sym_array('counts', (P(ncond),), 'int', lambda v: v >= 1)
        cc = ex.content(counts)
        attrs.update(constraints=con, samples=X, condSamples=ex.alloc(Lst(conds)))
        u.requires(ex, T.lt(ZERO, ff) if full_data else T.eq(ff, ZERO), T.le(ff, ONE))

    def approx(ex, sample, d):
        cur = g['cur']
        if sparse:
            u.holds(ex, 'the change is filled in', d in g['fills'])
            if d not in g['fills']:
                raise Unsupported('prediction of another change')
            dl = g['fills'][d]
            t, i = T.fresh('t'), T.fresh('i')
            with ex.assume(T.le(ZERO, t), T.lt(t, R), T.le(ZERO, i), T.lt(i, n)):
                u.eq(ex, 'prediction from the current sample', ex.content(sample).read(ex, (t, i)), x0.read(ex, (t, i)))
        else:
            dl = ex.content(d)
            u.holds(ex, 'prediction from the current sample', sample == X or sample in conds)
        if cur is not None:
            D, E, dist = (cur[k] for k in ('D', 'E', 'dist'))
            u.eq(ex, 'change made by the step', dl.read(ex, (q,)),
                 D.read(ex, (q,)) - (E.read(ex, (q,)) - c0.read(ex, (q,))) * T.ite(T.le(dist, ONE), dist, ONE) * eta)
        r = arr('pred%d' % g['calls'], full)
        g['calls'] += 1
        g['got'].append((sample, ex.content(r), dl))
        return r
    attrs['mch_approximation'] = Native(approx, 'mch_approximation')
    o = ex.alloc(Obj(env[cls], attrs))

    def values(ex, st):
        D = ex.content(arr('D'))
        E = arr('E')
        g['cur'] = dict(D=D, E=ex.content(E), dist=T.fresh('dist', 'real'), steps=T.fresh('steps'), keep=T.bvar('keep'))
        g['res'] = None
        g['got'] = []
        g['Eref'] = E
        return {'dlamda': D, 'estConstraints': E, 'distance': g['cur']['dist'], 'learningSteps': g['cur']['steps'], 'keepLearning': g['cur']['keep']}

    def prediction():
        """the prediction for the step just made"""
        def rd(co):
            if not incomplete:
                return g['got'][-1][1].read(ex, (pix.read(ex, co),) if sparse else co)
            by = dict((s, c) for s, c, d in g['got'])
            v = by[X].read(ex, co) * ff if full_data else ZERO
            tot = ZERO
            for i in range(ncond):
                tot = tot + cc.read(ex, (P(i),))
            for i in range(ncond):
                if conds[i] in by:
                    v = v + (ONE - ff) * cc.read(ex, (P(i),)) * T.inv(tot) * by[conds[i]].read(ex, co)
            return v
        return rd

    def invariant(ex, e):
        steps, keep, d, E, dist = e['learningSteps'], T.B(e['keepLearning']), e['dlamda'], ex.content(e['estConstraints']), P(e['distance'])
        dq = ex.content(d).read(ex, (q,))
        first = T.eq(steps, ZERO)
        out = [('number of steps', T.ge0(P(steps))),
               ('start', T.Or(T.Not(first), T.And(T.eq(dq, ZERO), T.eq(E.read(ex, (q,)), e0.read(ex, (q,))), T.eq(dist, ONE), keep))),
               ('distance of the prediction', T.Or(first, T.eq(dist, P(ex.call(spec['distance'], [e['estConstraints'], con], {}))))),
               ('goes on within the limits', T.Or(first, T.And(T.Or(T.Not(keep), T.And(T.Not(exceeded(d)), T.le(steps, most))),
                                                               T.Or(keep, exceeded(d), T.lt(most, steps)))))]
        if g['got'] and not ex.prove(first):
            # at the end of a step
            rd = prediction()
            want = {X} if not incomplete else set(conds) | ({X} if full_data else set())
            have = {s for s, c, dl in g['got']}
            if not sparse:
                out.append(('every sample is used', T.TRUE if want <= have else T.FALSE))
            out.append(('the prediction belongs to the change', T.And(T.eq(E.read(ex, (q,)), rd((q,))),
                                                                      *[T.eq(dq, dl.read(ex, (q,))) for s, c, dl in g['got']])))
            out.append(('one step', T.eq(P(steps), g['cur']['steps'] + 1)))
        return out
    ex.loopspec[('learn_parameters_mch', 0)] = ex.loopspec[(cls + '.learn_parameters_mch', 0)] = Inv(values, invariant)
    args = [est, con] if not incomplete else [est, ff, ex.alloc(Lst(conds)), counts]
    kw = dict(maxdlamda=maxd, maxdlamdaNorm=maxn, maxLearningSteps=most, eta=eta)
    ret = u.call(ex, ex.getattr(o, 'learn_parameters_mch'), args, kw)
    u.holds(ex, 'the last prediction is returned', ret == g['Eref'])
    D = g['cur']['D']
    after = ex.content(ex.cell(o).attrs['_multipliers'])
    if sparse:
        last = [r for r, c in g['fills'].items()][-1]
        u.eq(ex, 'the accumulated change is filled in', g['fills'][last].read(ex, (q,)), D.read(ex, (q,)))
        u.eq(ex, 'the parameters change by the accumulated change', after.read(ex, (f,)), m0.read(ex, (f,)) + ex.content(last).read(ex, (f,)))
    else:
        u.eq(ex, 'the parameters change by the accumulated change', after.read(ex, (f,)), m0.read(ex, (f,)) + D.read(ex, (f,)))
    steps = g['cur']['steps']
    dref = ex.new_array((m,), 'real', lambda co: D.read(ex, co))
    ex.oblige('it stopped because a limit was reached', T.And(T.le(ONE, steps), T.Or(exceeded(dref), T.lt(most, steps))), 'post')
    u.unchanged(ex, 'constraints unchanged', con, c0)
    u.unchanged(ex, 'sample unchanged', X, x0)
    u.unchanged(ex, 'given observables unchanged', est, e0)


@unit('MCH learning steps', [S + ':MCH.learn_parameters_mch'])
def learn_mch(u):
    learning(u, 'MCH')


@unit('SparseMCH learning steps', [S + ':SparseMCH.learn_parameters_mch'])
def learn_sparse(u):
    learning(u, 'SparseMCH')


@unit('MCHIncompleteData learning steps', [S + ':MCHIncompleteData.learn_parameters_mch'])
def learn_incomplete(u):
    for c in (0, 1, 2):
        learning(u, 'MCHIncompleteData', c)
    for c in (1, 2):
        learning(u, 'MCHIncompleteData', c, False)


unit('inserting the constrained parameters', [S + ':Solver.set_insertion_ix', S + ':Solver.fill_in'])(insertion)


def history(u, cls, maxiter, style, guess, own, full):
    """Contract of the solution loop, with the sampler, the observables and the learning step by their contracts.

    Sample k is generated with the current parameters, its mean observables minus the constraints are the k-th row of the history and
    the step from k to k+1 is the learning step from exactly those observables, with the settings for k."""
    sparse = cls == 'SparseMCH'
    ex = u.ex('%s, at most %d iterations, %s%s%s%s' % (cls, maxiter, style, ', initial guess' if guess else '', ', given constraints' if own else '',
                                                       '' if full else ', parameters only'))
    ex.side_timeout = 300
    env = ex.load(S)
    L, R, n = T.var('L'), T.var('sampleSize'), T.var('n')
    m = T.var('m') if sparse else L
    u.requires(ex, m >= 1, L >= m, R >= 1, n >= 2)
    tol, norm = T.var('tol', 'real'), T.var('tolNorm', 'real')
    u.requires(ex, T.lt(ZERO, tol), T.lt(ZERO, norm))
    arr = lambda nm, k: ex.sym_array(nm, (k,), 'real')
    dcon, ccon, g0 = arr('constraints', L), arr('given', m), arr('guess', m)
    cd, cc, cg = (ex.content(a) for a in (dcon, ccon, g0))
    q, f = u.idx(ex, 'q', 0, m), u.idx(ex, 'f', 0, L)
    model = ex.alloc(Obj(None, {'sample': None, 'sampleSize': R, 'gen': (), 'learn': ()}))
    # what happened so far on this path
    gen, steps = lambda: ex.cell(model).attrs['gen'], lambda: ex.cell(model).attrs['learn']
    attrs = {'n': n, 'iprint': T.FALSE, 'constraints': dcon, 'model': model}
    pix = None
    if sparse:
        ix = ex.sym_array('parameterIx', (m,), 'int', lambda v: T.And(v >= 0, v < L))
        pix = ex.content(ix)
        attrs['parameterIx'] = ix
        fills = {}

        def fill(ex, clo, args, kw):
            u.holds(ex, 'filled in with zeros', len(args) == 2 and not kw)
            u.shape(ex, 'one value per constrained parameter', args[1], [m])
            src = ex.content(args[1])
            r = ex.sym_array('full%d' % len(fills), (L,), 'real')
            fills[r] = src
            # fill_in: the values stand at their positions
            t = T.fresh('t')
            return r
        ex.contracts[(S, 'Solver.fill_in')] = fill
        ex.contracts[(S, 'fill_in')] = fill
    con = lambda co: (cc.read(ex, co) if own else cd.read(ex, (pix.read(ex, co),) if sparse else co))

    def generate(ex, a, b, multipliers=None, generate_kwargs=None, **kw):
        k = len(gen())
        u.eq(ex, 'iterations between samples', a, T.var('n_iters'))
        u.eq(ex, 'burn in', b, T.var('burn_in'))
        u.holds(ex, 'parameters are given to the sampler', multipliers is not None and not [x for x in kw.values() if x is not None])
        s = ex.sym_array('sample%d' % k, (ex.cell(model).attrs['sampleSize'], n), 'int')
        ex.setattr(model, 'sample', s)
        ex.setattr(model, 'gen', gen() + ((s, ex.content(multipliers)),))
        return None
    ex.cell(model).attrs['generate_sample'] = Native(generate, 'generate_sample')

    def observables(ex, s):
        ks = [k for k, (x, _) in enumerate(gen()) if x == s]
        u.holds(ex, 'observables of a generated sample', bool(ks))
        k = ks[-1]
        size = ex.content(s).shape[0]
        return ex.new_array((size, L), 'int', lambda co: T.app('obs%d' % k, co, 'int'))
    attrs['calc_observables'] = Native(observables, 'calc_observables')
    size = {}
    mean = lambda k, j: ex.sum(ZERO, ex.content(gen()[k][0]).shape[0], lambda t: T.app('obs%d' % k, (t, j), 'int')) * \
        T.inv(ex.content(gen()[k][0]).shape[0])
    est = lambda k, co: mean(k, pix.read(ex, co) if sparse else co[0])

    def learn(ex, clo, args, kw):
        k = len(steps())
        me, e, c = args[:3]
        u.holds(ex, 'learning settings', set(kw) == {'maxdlamda', 'eta'} and len(args) == 3)
        j = k if style != 'one setting' else 0
        u.eq(ex, 'maximum change', kw['maxdlamda'], T.var('maxdlamda%d' % j, 'real'))
        u.eq(ex, 'factor', kw['eta'], T.var('eta%d' % j, 'real'))
        u.eq(ex, 'one sample before every step', P(len(gen())), P(k + 1))
        u.elem(ex, 'the step starts from the observables of the current sample', e, (q,), est(k, (q,)))
        u.elem(ex, 'the step aims at the constraints', c, (q,), con((q,)))
        before = ex.content(ex.cell(me).attrs['_multipliers'])
        u.eq(ex, 'the sample belongs to the parameters', gen()[-1][1].read(ex, (f,)), before.read(ex, (f,)))
        d = ex.content(arr('step%d' % k, L))
        new = ex.new_array((L,), 'real', lambda co: before.read(ex, co) + d.read(ex, co))
        ex.setattr(me, '_multipliers', new)
        ex.setattr(model, 'learn', steps() + ((before, ex.content(new)),))
        return arr('unused%d' % k, m)
    for nm in (cls + '.learn_parameters_mch', 'learn_parameters_mch'):
        ex.contracts[(S, nm)] = learn
    o = ex.alloc(Obj(env[cls], attrs))
    setting = lambda k: ex.alloc(Dct({'maxdlamda': T.var('maxdlamda%d' % k, 'real'), 'eta': T.var('eta%d' % k, 'real')}))
    sizes = lambda k: T.var('size%d' % k)
    kw = {'tol': tol, 'tolNorm': norm, 'n_iters': T.var('n_iters'), 'burn_in': T.var('burn_in'), 'maxiter': P(maxiter), 'full_output': T.TRUE if full else T.FALSE}
    if style == 'one setting':
        kw['learn_params_kwargs'] = setting(0)
    else:
        def conv(ex, k):
            k = int(P(k).const())
            if style == 'settings and sizes':
                u.requires(ex, sizes(k) >= 1)
                return (setting(k), sizes(k))
            return setting(k)
        kw['custom_convergence_f'] = Native(conv, 'custom_convergence_f')
    if guess:
        kw['initial_guess'] = g0
    if own:
        kw['constraints'] = ccon
    ex.fork_while |= {cls + '.solve', 'solve'}
    ex.no_merge |= {cls + '.solve', 'solve'}
    spec = ex.load_source(SPEC, 'spec')
    seen = set()
    for ret in u.paths(ex, ex.getattr(o, 'solve'), [], kw):
        t = len(steps())
        u.holds(ex, 'at least one step, at most one more than the maximum', 1 <= t <= maxiter + 1)
        u.eq(ex, 'one sample per entry of the history, and that of the solution', P(len(gen())), P(t + (1 if sparse else 2)))
        if full:
            par, flag, err = ret
            u.shape(ex, 'one row of errors per sample', err, [P(t + 1), m])
            for k in range(t + 1):
                u.elem(ex, 'recorded error', err, (P(k), q), est(k, (q,)) - con((q,)))
            e, c = ex.new_array((m,), 'real', lambda co: est(t, co)), ex.new_array((m,), 'real', con)
            dist = P(ex.call(spec['distance'], [e, c], {}))
            off = ex.truth(ex.call(spec['off'], [e, c, tol], {}))
            ok = T.And(T.lt(dist, norm), T.Not(off))
            ex.oblige('the flag tells whether the constraints are met', T.Or(T.And(ok, T.eq(flag, ZERO)), T.And(T.Not(ok), T.eq(flag, ONE))), 'post')
            ex.oblige('gives up only after the maximum number of iterations', T.Or(T.eq(flag, ZERO), T.TRUE if t == maxiter + 1 else T.FALSE), 'post')
            seen.add(t)
        else:
            par = ret
        last = steps()[-1][1]
        first = gen()[0][1]
        if sparse:
            src = [fills[r] for r in fills if ex.content(r) is first]
            u.holds(ex, 'the first parameters are filled in', len(src) == 1)
            u.eq(ex, 'first parameters', src[0].read(ex, (q,)), cg.read(ex, (q,)) if guess else ZERO)
        else:
            u.eq(ex, 'first parameters', first.read(ex, (q,)), cg.read(ex, (q,)) if guess else ZERO)
        for k in range(1, len(gen())):
            u.eq(ex, 'sample generated with the parameters of the last step', gen()[k][1].read(ex, (f,)), steps()[min(k, t) - 1][1].read(ex, (f,)))
        if style == 'settings and sizes':
            for k in range(1, len(gen())):
                u.eq(ex, 'size of the sample', ex.content(gen()[k][0]).shape[0], sizes(min(k, t) - 1))
        u.shape(ex, 'returned parameters', par, [m])
        u.elem(ex, 'returned parameters', par, (q,), last.read(ex, (pix.read(ex, (q,)) if sparse else q,)))
        keep = ex.cell(o).attrs['multipliers']
        u.elem(ex, 'parameters of the solver', keep, (f,), last.read(ex, (f,)))
        u.holds(ex, 'they are a copy', keep != ex.cell(o).attrs['_multipliers'])
        u.unchanged(ex, 'initial guess unchanged', g0, cg)
        u.unchanged(ex, 'given constraints unchanged', ccon, cc)
        u.unchanged(ex, 'constraints unchanged', dcon, cd)
    if full:
        u.holds(ex, 'every outcome is covered', seen == set(range(1, maxiter + 2)))


RUNS = [(0, 'one setting', False, False, True), (1, 'one setting', True, True, True), (1, 'settings', False, False, True),
        (1, 'settings and sizes', True, False, True), (0, 'one setting', False, True, False)] + \
    ([(2, s, g, w, True) for s in ('one setting', 'settings', 'settings and sizes') for g in (False, True) for w in (False, True)] if DEEP else [])


@unit('MCH solution history', [S + ':MCH.solve'])
def mch_history(u):
    u.notes.append('the number of iterations is bounded in the history units (the loop is unrolled); the learning step is by its contract')
    for r in RUNS:
        history(u, 'MCH', *r)


@unit('SparseMCH solution history', [S + ':SparseMCH.solve'])
def sparse_history(u):
    for r in RUNS:
        history(u, 'SparseMCH', *r)


@unit('MCH Jacobian estimate', [S + ':MCH.estimate_jac'])
def jacobian(u):
    u.notes.append('the number of parameters is bounded in the Jacobian unit (%d)' % (6 if DEEP else 4))
    for m in range(1, 7 if DEEP else 5):
        ex = u.ex('%d parameters' % m)
        env = ex.load(S)
        R, n, eps = T.var('R'), T.var('n'), T.var('eps', 'real')
        u.requires(ex, R >= 1, n >= 1, T.lt(ZERO, eps))
        X = ex.sym_array('X', (R, n), 'int')
        mult = ex.sym_array('multipliers', (P(m),), 'real')
        x0, m0 = ex.content(X), ex.content(mult)
        got = []

        def approx(ex, s, d):
            u.holds(ex, 'prediction from the current sample', s == X)
            u.shape(ex, 'one change per parameter', d, [P(m)])
            r = ex.sym_array('pred%d' % len(got), (P(m),), 'real')
            dc = ex.content(d)
            got.append(([dc.read(ex, (P(i),)) for i in range(m)], ex.content(r)))
            return r
        o = ex.alloc(Obj(env['MCH'], {'_multipliers': mult, 'model': ex.alloc(Obj(None, {'sample': X})),
                                      'mch_approximation': Native(approx, 'mch_approximation')}))
        J = u.call(ex, ex.getattr(o, 'estimate_jac'), [], {'eps': eps})
        u.shape(ex, 'one row per parameter', J, [P(m), P(m)])
        for i in range(m):
            find = lambda sign: [r for d, r in got if all(d[j] is (eps.scale(sign) if j == i else ZERO) for j in range(m))]
            up, down = find(1), find(-1)
            u.holds(ex, 'predictions for parameter %d moved up and down alone' % i, bool(up) and bool(down))
            for j in range(m):
                u.elem(ex, 'central difference', J, (P(i), P(j)), (up[0].read(ex, (P(j),)) - down[0].read(ex, (P(j),))) * T.inv(eps * 2))
        u.unchanged(ex, 'parameters unchanged', mult, m0)
        u.unchanged(ex, 'sample unchanged', X, x0)

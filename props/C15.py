"""C15: exact solvers (enumeration), partial constraints, log-probability of states."""
import itertools
import os
from pyvc.units import unit
from pyvc import terms as T
from pyvc.terms import P, ZERO, ONE
from pyvc.lib import RngVal, tri, Native
from pyvc.exec import Obj, Lst, Dct
from pyvc.heap import Unsupported
from props.sparse_common import insertion, sparse_solver
U = 'coniii/utils.py'
S = 'coniii/solvers.py'
DEEP = os.environ.get('PYVC_TIER') == 'thorough'

unit('inserting the constrained parameters', [S + ':Solver.set_insertion_ix', S + ':Solver.fill_in'])(insertion)


def capture(ex, check):
    """root and minimize: any result; the function they are given is evaluated at arbitrary parameters by check."""
    seen = []

    def stand_in(name):
        def fn(ex, fun, x0, **kw):
            m = ex.content(x0).shape[0]
            res = ex.alloc(Dct({'x': ex.sym_array('solution', (m,), 'real')}))
            seen.append((name, res, kw))
            check(name, fun, x0, m)
            return res
        return fn
    ex.lib = dict(ex.lib)
    for name in ('root', 'minimize'):
        ex.lib['scipy.optimize.' + name] = stand_in(name)
    return seen


def model(ex, u, L, calls):
    """A model by the contract of its exact observables: a vector per parameter vector."""
    def obs(ex, p):
        r = ex.sym_array('obs%d' % len(calls), (L,), 'real')
        calls.append((p, r))
        return r
    return ex.alloc(Obj(None, {'calc_observables': Native(obs, 'calc_observables'), 'multipliers': ex.sym_array('multipliers', (L,), 'real')}))


def fill_contract(ex, u, L, pos):
    """fill_in as proved above: the values at the positions of the constrained parameters, the fill value elsewhere."""
    def fn(ex, f, args, kw):
        xc = ex.content(args[1])
        fill = P(args[2] if len(args) > 2 else kw.get('fill_value', ZERO))

        def rd(co):
            v = fill
            for i, p in enumerate(pos):
                v = v + T.ind(T.eq(co[0], p)) * (xc.read(ex, (P(i),)) - fill)
            return v
        return ex.new_array((L,), 'real', rd)
    clo = u.fn(ex, S, 'Solver.fill_in')
    ex.contracts[(clo.module.get('__path__'), clo.name)] = fn


def objective(u, cls, m, limit, root, given, guess, full):
    """m: None for all the parameters, else the number of constrained ones (at any increasing positions)."""
    sparse = m is not None
    ex = u.ex(', '.join([cls, 'root' if root else 'minimize'] + (['%d constrained' % m] if sparse else []) + ['limit'] * limit +
                        ['given constraints'] * given + ['guess'] * guess + ['full output'] * full))
    env = ex.load(S)
    calls = []
    lim = T.var('limit', 'real')
    if sparse:
        L, pos, o = sparse_solver(u, ex, m, cls)
        fill_contract(ex, u, L, pos)
        mm = P(m)
    else:
        L = T.var('L')
        u.requires(ex, L >= 1)
        o = ex.alloc(Obj(env[cls], {}))
        mm = L
    u.requires(ex, T.lt(ZERO, lim))
    ex.setattr(o, 'model', model(ex, u, L, calls))
    own = ex.sym_array('constraints', (L,), 'real')
    oc = ex.content(own)
    ex.setattr(o, 'constraints', None if given and full else own)
    direct = ex.sym_array('given', (mm,), 'real') if given else None
    start = ex.sym_array('guess', (mm,), 'real') if guess else None
    d0, s0 = ex.content(direct) if given else None, ex.content(start) if guess else None

    def want(q):
        # constraint of the q-th constrained parameter
        if given:
            return d0.read(ex, (P(q),))
        return oc.read(ex, (pos[q],)) if sparse else oc.read(ex, (q,))

    def check(name, f, x0, k):
        u.holds(ex, 'the routine asked for', name == ('root' if root else 'minimize'))
        u.eq(ex, 'size of the problem', k, mm)
        for q in (range(m) if sparse else [u.idx(ex, 'q', 0, L)]):
            u.elem(ex, 'start', x0, (P(q),), s0.read(ex, (P(q),)) if guess else ZERO)
        # within the limit
        p = ex.sym_array('within', (mm,), 'real', (lambda v: T.And(T.le(v, lim), T.le(-lim, v))) if limit else None)
        pc = ex.content(p)
        del calls[:]
        r = ex.call(f, [p], {})
        u.holds(ex, 'one evaluation of the observables', len(calls) == 1)
        arg, obs = calls[0]
        bc = ex.content(obs)
        if sparse:
            u.shape(ex, 'all the parameters', arg, [L])
            for q in range(m):
                u.elem(ex, 'a constrained parameter at its position', arg, (pos[q],), pc.read(ex, (P(q),)))
            w = u.idx(ex, 'w', 0, L)
            with ex.assume(*[T.ne0(w - x) for x in pos]):
                u.elem(ex, 'the others are zero', arg, (w,), ZERO)
        else:
            w = u.idx(ex, 'w', 0, L)
            u.elem(ex, 'the observables of these parameters', arg, (w,), pc.read(ex, (w,)))
        diff = lambda q: bc.read(ex, (pos[q],) if sparse else (q,)) - want(q)
        if root:
            u.shape(ex, 'a residual per constraint', r, [mm])
            for q in (range(m) if sparse else [u.idx(ex, 'q', 0, L)]):
                u.elem(ex, 'observable minus constraint', r, (P(q),), diff(q))
        else:
            sq = sum((diff(q) * diff(q) for q in range(m)), ZERO) if sparse else ex.sum(ZERO, L, lambda q: diff(q) * diff(q))
            u.eq(ex, 'norm of the residuals', P(r), T.app('sqrt', (sq,), 'real'))
        u.unchanged(ex, 'parameters unchanged', p, pc)
    seen = capture(ex, check)
    kw = dict(use_root=T.TRUE if root else T.FALSE, full_output=T.TRUE if full else T.FALSE, max_param_value=lim if limit else None,
              initial_guess=start, constraints=direct)
    r = u.call(ex, ex.getattr(o, 'solve'), [], kw)
    u.holds(ex, 'one problem', len(seen) == 1)
    x = ex.cell(seen[0][1]).items['x'] if hasattr(ex.cell(seen[0][1]), 'items') else None
    if full:
        u.holds(ex, 'the output of the routine', r[1] == seen[0][1])
        r = r[0]
    sol = ex.content(ex.sym_array('solution', (mm,), 'real'))
    q = u.idx(ex, 'q', 0, mm)
    u.elem(ex, 'the solution is returned', r, (q,), sol.read(ex, (q,)))
    u.elem(ex, 'the solver keeps the solution', ex.cell(o).attrs['multipliers'], (q,), sol.read(ex, (q,)))
    u.unchanged(ex, 'own constraints unchanged', own, oc)
    if given:
        u.unchanged(ex, 'given constraints unchanged', direct, d0)
    if guess:
        u.unchanged(ex, 'guess unchanged', start, s0)


@unit('problem posed: all parameters', [S + ':Enumerate.solve'])
def full_problem(u):
    for root in (True, False):
        for limit in (True, False):
            for given in (True, False):
                objective(u, 'Enumerate', None, limit, root, given, not given, root)


@unit('problem posed: some parameters', [S + ':SparseEnumerate.solve', S + ':Solver.fill_in'])
def sparse_problem(u):
    for m in (1, 2, 3) if not DEEP else (1, 2, 3, 4, 5):
        for root in (True, False):
            for limit in (True, False):
                objective(u, 'SparseEnumerate', m, limit, root, limit, not limit, root)
                objective(u, 'SparseEnumerate', m, limit, root, not limit, limit, not root)


@unit('problem posed: beyond the limit', [S + ':Enumerate.solve', S + ':SparseEnumerate.solve'])
def beyond(u):
    u.notes.append('two to four parameters; any limit, any parameters')
    for cls, L, pos in (('Enumerate', 2, None), ('Enumerate', 3, None), ('SparseEnumerate', 3, (1,)), ('SparseEnumerate', 4, (0, 3))):
        m = L if pos is None else len(pos)
        for root in (True, False):
            ex = u.ex('%s, %d of %d, %s' % (cls, m, L, 'root' if root else 'minimize'))
            lim = T.var('limit', 'real')
            u.requires(ex, T.lt(ZERO, lim))
            calls = []
            mod = model(ex, u, P(L), calls)
            con = ex.sym_array('constraints', (P(L),), 'real')
            o = ex.alloc(Obj(ex.load(S)[cls], {'model': mod, 'constraints': con}))
            if pos is not None:
                ex.setattr(o, 'parameterIx', ex.new_array((P(m),), 'int', lambda co: sum((T.ind(T.eq(co[0], P(i))).scale(p) for i, p in enumerate(pos)), ZERO)))
                u.call(ex, ex.getattr(o, 'set_insertion_ix'), [])

            def check(name, f, x0, k):
                p = ex.sym_array('beyond', (P(m),), 'real')
                pc = ex.content(p)
                for q in range(m):
                    for sg in (1, -1):
                        with ex.assume(T.lt(lim, pc.read(ex, (P(q),)).scale(sg))):
                            for r in u.paths(ex, f, [p]):
                                for j in range(m if root else 1):
                                    v = ex.content(r).read(ex, (P(j),)) if root else P(r)
                                    u.holds(ex, 'far from the constraints beyond the limit', T.le(P(10 ** 20), v))
            capture(ex, check)
            u.call(ex, ex.getattr(o, 'solve'), [], dict(use_root=T.TRUE if root else T.FALSE, max_param_value=lim))


def rows(ex, data):
    n = len(data[0])
    return ex.new_array((P(len(data)), P(n)), 'int', lambda co: sum((T.ind(T.And(T.eq(co[0], P(i)), T.eq(co[1], P(j)))).scale(d[j])
                                                                      for i, d in enumerate(data) for j in range(n)), ZERO))


@unit('log-probability of states', [S + ':Solver.logp'])
def logp(u):
    u.notes.append('states of 2 and 3 spins with every pattern of unspecified spins; any model sample of any size')
    for n in (2, 3):
        al = list(itertools.product((-1, 0, 1), repeat=n))
        sets = [al, al[::-1] + al[:3], [al[2], al[5], al[2], al[2]], [al[-1]]]
        if n == 3 and not DEEP:
            sets = [al[::2], [al[20], al[7], al[20], al[13], al[7]], [al[5]]]
        for k, data in enumerate(sets):
            for how in ('given', 'own', 'single')[:3 if len(data) == 1 else 2]:
                ex = u.ex('n=%d, set %d, %s' % (n, k, how))
                R = T.var('R')
                u.requires(ex, R >= 1)
                M = ex.sym_array('M', (R, P(n)), 'int', lambda v: T.Or(T.eq(v, -ONE), T.eq(v, ONE)))
                mc = ex.content(M)
                X = rows(ex, data)
                if how == 'single':
                    X = ex.new_array((P(n),), 'int', lambda co: sum((T.ind(T.eq(co[0], P(j))).scale(data[0][j]) for j in range(n)), ZERO))
                xc = ex.content(X)
                o = ex.alloc(Obj(ex.load(S)['Solver'], {'sample': X if how == 'own' else None, 'model': ex.alloc(Obj(None, {'sample': M}))}))
                r = u.call(ex, ex.getattr(o, 'logp'), [] if how == 'own' else [X], dict(run_checks=T.FALSE))
                u.shape(ex, 'one number per state', r, [len(data)])
                rc = ex.content(r)
                for i, d in enumerate(data):
                    def agree(t):
                        v = ONE
                        for j, x in enumerate(d):
                            if x:
                                v = v * T.ind(T.eq(mc.read(ex, (t, P(j))), P(x)))
                        return v
                    got = rc.read(ex, (P(i),))
                    want = ex.sum(ZERO, R, agree) * T.inv(R)
                    u.eq(ex, 'log of the fraction of the sample that agrees', got, T.flog(want))
                u.unchanged(ex, 'states unchanged', X, xc)
                u.unchanged(ex, 'model sample unchanged', M, mc)


@unit('setting up a solver', [S + ':Solver.basic_setup', S + ':Enumerate.__init__'])
def setup(u):
    for kind in ('sample', 'size', 'nothing'):
        for own in (True, False):
            ex = u.ex('%s, %s' % (kind, 'model and observables given' if own else 'defaults'))
            n, R = T.var('n'), T.var('R')
            u.requires(ex, n >= 2, R >= 1)
            env = ex.load(S)
            L = n + tri(n)
            X = ex.sym_array('X', (R, n), 'int', lambda v: T.Or(T.eq(v, -ONE), T.eq(v, ONE)))
            x0 = ex.content(X)
            seen = []

            def obs(ex, x):
                seen.append(x)
                return ex.sym_array('obs', (R, L), 'real')
            m = ex.alloc(Obj(None, {})) if own else None
            c = Native(obs, 'calc_observables') if own else None
            made = []

            def ising(ex, f, args, kw):
                made.append((args, kw))
            h = u.fn(ex, U, 'define_ising_helper_functions')
            std = (Native(lambda ex, *a: None, 'calc_e'), Native(obs, 'calc_observables'), None)
            ex.contracts[(h.module.get('__path__'), h.name)] = lambda ex, f, args, kw: std
            init = u.fn(ex, 'coniii/models.py', 'Ising.__init__')
            ex.contracts[(init.module.get('__path__'), init.name)] = ising
            a = {'sample': X, 'size': n, 'nothing': None}[kind]
            gen = RngVal('given')
            o = u.call(ex, env['Enumerate'], [a], dict(model=m, calc_observables=c, iprint=T.FALSE, rng=gen))
            at = ex.cell(o).attrs
            u.holds(ex, 'the sample', at['sample'] == (X if kind == 'sample' else None))
            if kind == 'nothing':
                u.holds(ex, 'no size', at['n'] is None)
            else:
                u.eq(ex, 'the size', P(at['n']), n)
            if own or kind == 'nothing':
                u.holds(ex, 'the model', at['model'] == m)
            else:
                u.holds(ex, 'an Ising model', len(made) == 1)
                q = u.idx(ex, 'q', 0, L)
                u.shape(ex, 'of all the fields and couplings', made[0][0][1], [L])
                u.holds(ex, 'with the settings given for it', gen in list(made[0][0]) + list(made[0][1].values()))
                u.elem(ex, 'all zero', made[0][0][1], (q,), ZERO)
            u.holds(ex, 'the observables', at['calc_observables'] is (c if own else std[1]))
            if kind != 'sample':
                u.holds(ex, 'no constraints', at['constraints'] is None)
            else:
                q = u.idx(ex, 'q', 0, L)
                u.holds(ex, 'of the sample', seen == [X])
                oc = ex.content(ex.sym_array('obs', (R, L), 'real'))
                u.eq(ex, 'mean observables of the sample', ex.content(at['constraints']).read(ex, (q,)) * R, ex.sum(ZERO, R, lambda t: oc.read(ex, (t, q))))
                u.unchanged(ex, 'sample unchanged', X, x0)


@unit('setting up a sparse solver', [S + ':SparseEnumerate.__init__'])
def sparse_setup(u):
    u.notes.append('lists of up to five indices in any order with repetitions')
    for ix in ([2], [1, 4], [4, 1, 0], [3, 3, 1], [5, 0, 2, 5, 4]):
        ex = u.ex(str(ix))
        env = ex.load(S)
        done = []

        def setup(ex, f, args, kw):
            done.append(args)
            at = ex.cell(args[0]).attrs
            ex.setattr(args[0], 'iprint', T.FALSE)
            ex.setattr(args[0], 'model', ex.alloc(Obj(None, {'multipliers': ex.sym_array('multipliers', (P(6),), 'real')})))
        b = u.fn(ex, S, 'Solver.basic_setup')
        ex.contracts[(b.module.get('__path__'), b.name)] = setup
        a = ex.new_array((P(len(ix)),), 'int', lambda co: sum((T.ind(T.eq(co[0], P(i))).scale(v) for i, v in enumerate(ix)), ZERO))
        X = ex.sym_array('X', (T.var('R'), P(3)), 'int')
        o = u.call(ex, env['SparseEnumerate'], [X], dict(parameter_ix=a, iprint=T.FALSE))
        u.holds(ex, 'set up with the sample', done[0][1] == X)
        p = ex.cell(o).attrs['parameterIx']
        w = sorted(set(ix))
        u.shape(ex, 'the different indices', p, [len(w)])
        for q, v in enumerate(w):
            u.elem(ex, 'in increasing order', p, (P(q),), P(v))
        x = ex.sym_array('x', (P(len(w)),), 'real')
        xc = ex.content(x)
        r = u.call(ex, ex.getattr(o, 'fill_in'), [x])
        u.shape(ex, 'filled in', r, [6])
        for q in range(6):
            u.elem(ex, 'filled in', r, (P(q),), xc.read(ex, (P(w.index(q)),)) if q in w else ZERO)

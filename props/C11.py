"""C11: replica exchange keeps replicas, temperatures and energies consistent.

Replicas are objects of the Metropolis class; Metropolis.generate_sample_py is used by contract (proved in C10: it leaves one legal
state in sample, the same in _samples, and that state's energy under the replica's parameters in E).  Energies are linear in the
parameters, so under theta*b the energy of a state is b times its energy under theta.  The number of replicas is fixed in the units
that unroll the loops over replicas (bounded in that number only); temperatures, states, energies, draws and n are arbitrary."""
import os
from pyvc.units import unit
from pyvc import terms as T
from pyvc.terms import P, ZERO, ONE
from pyvc.lib import Native, RngVal
from pyvc.exec import Obj, Lst, Ref
from pyvc.heap import Unsupported
S = 'coniii/samplers.py'
DEEP = os.environ.get('PYVC_TIER') == 'thorough'
MS = (2, 3, 4, 5) if DEEP else (2, 3, 4)


class PT:
    """A ParallelTempering object with M replicas and the contract of the replicas' own sampling."""

    def __init__(self, u, ex, M, n=None, replicas=True, ordered=True):
        self.u, self.ex, self.M = u, ex, M
        self.n = n if n is not None else T.var('n')
        self.np = T.var('npar')
        u.requires(ex, self.n >= 1, self.np >= 1)
        self.env = ex.load(S)
        self.theta = ex.sym_array('theta', (self.np,), 'real')
        self.t0 = ex.content(self.theta)
        self.conf = []          # (configuration function, energy under theta)
        self.calls = []
        f = self.env['Metropolis'].lookup('generate_sample_py')[0]
        ex.contracts[(f.module.get('__path__'), f.name)] = self.generate_sample
        self.beta = ex.sym_array('beta', (P(M),), 'real')
        self.b0 = ex.content(self.beta)
        b = [self.b0.read(ex, (P(i),)) for i in range(M)]
        u.requires(ex, T.lt(ZERO, b[0]), *[T.lt(b[i], b[i + 1]) for i in range(M - 1)])
        self.calc_e = Native(lambda e, *a: (_ for _ in ()).throw(Unsupported('calc_e called outside the replicas')), 'calc_e')
        at = dict(n=self.n, theta=self.theta, calc_e=self.calc_e, nReplicas=P(M), beta=self.beta, rng=RngVal('own'),
                  repExBurnin=T.var('repExBurnin'), replicaBurnin=T.var('replicaBurnin'), sampleSize=P(1000), sample=None)
        u.requires(ex, T.var('repExBurnin') >= 1, T.var('replicaBurnin') >= 1)
        self.obj = ex.alloc(Obj(self.env['ParallelTempering'], at))
        if replicas:
            ex.cell(self.obj).attrs['replicas'] = ex.alloc(Lst([self.replica(b[i], i) for i in range(M)]))

    def replica(self, b, i):
        ex = self.ex
        th = ex.new_array((self.np,), 'real', lambda co, b=b: self.t0.read(ex, co) * b)
        r = ex.alloc(Obj(self.env['Metropolis'], dict(n=self.n, theta=th, calc_e=self.calc_e, rng=RngVal('replica %d' % i), index=P(i),
                                                      sample=None, _samples=None, E=None)))
        m = self.env['Metropolis'].lookup('generate_sample_py')[0].bind(r)
        ex.cell(r).attrs['generate_sample'] = m
        self.place(r, b)
        return r

    def place(self, r, b):
        """the replica holds a new arbitrary state with its energy"""
        ex = self.ex
        k = len(self.conf)
        e = T.app('e0_%d' % k, (), 'real')
        leg = lambda x: T.And(T.Or(T.eq(x, ONE), T.eq(x, -ONE)))
        s = ex.sym_array('state%d' % k, (ONE, self.n), 'int', leg)
        c = ex.content(s)
        self.conf.append((c, e))
        a = ex.cell(r).attrs
        a['sample'] = s
        a['_samples'] = ex.new_array((ONE, self.n), 'int', lambda co: c.read(ex, co))
        a['E'] = ex.new_array((ONE,), 'real', lambda co: e * b)
        return k

    def temp_of(self, ex, th, cands):
        """the inverse temperature b with th = theta*b, among the candidates"""
        c = ex.content(th)
        q = T.fresh('q')
        for j, b in enumerate(cands):
            with ex.assume(T.le(ZERO, q), T.lt(q, self.np)):
                if ex.prove(T.eq(c.read(ex, (q,)), self.t0.read(ex, (q,)) * b)):
                    return j
        return None

    def betas(self, ex):
        c = ex.content(ex.getattr(self.obj, 'beta'))
        return [c.read(ex, (P(i),)) for i in range(self.M)]

    def generate_sample(self, ex, f, args, kw):
        """contract of Metropolis.generate_sample_py(1, n_iters=.., systematic_iter=True) on a replica"""
        r, ss = args[0], args[1]
        extra = dict(kw)
        it = extra.pop('n_iters', None)
        it = args[2] if it is None and len(args) > 2 else it
        extra.pop('systematic_iter', None)
        extra.pop('burn_in', None)
        if extra or len(args) > 3:
            raise Unsupported('generate_sample arguments %s' % sorted(extra))
        ex.oblige('each replica takes one sample', T.eq(P(ss), ONE), 'pre')
        ex.oblige('iterations not negative', T.le(ZERO, P(it)), 'pre')
        bs = self.betas(ex)
        j = self.temp_of(ex, ex.getattr(r, 'theta'), bs)
        if j is None:
            j = self.temp_of(ex, ex.getattr(r, 'theta'), getattr(self, 'other', []))
            b = getattr(self, 'other', [None])[j] if j is not None else None
        else:
            b = bs[j]
        ex.oblige('a replica samples with the model parameters times an inverse temperature', T.TRUE if b is not None else T.FALSE, 'pre')
        if b is None:
            raise Unsupported('the parameters of a replica are not a multiple of the model parameters')
        k = self.place(r, b)
        self.calls.append((r, j, P(it), k))
        return None

    def reps(self, ex):
        l = ex.sequence(ex.getattr(self.obj, 'replicas'))
        if not isinstance(l, list):
            raise Unsupported('replicas is not a list')
        return l

    def consistent(self, ex, what, owner, beta=None):
        """replica j holds configuration owner[j], with its energy at the j-th temperature, and the parameters of that temperature"""
        u = self.u
        bs = beta or self.betas(ex)
        rs = self.reps(ex)
        ex.oblige(what + 'as many replicas', T.TRUE if len(rs) == self.M else T.FALSE, 'post')
        for j in range(min(self.M, len(rs))):
            r = rs[j]
            p, q = u.idx(ex, 'p', 0, self.n), u.idx(ex, 'q', 0, self.np)
            c, e = self.conf[owner[j]]
            for at in ('sample', '_samples'):
                u.shape(ex, what + 'shape of %s' % at, ex.getattr(r, at), [ONE, self.n])
                u.eq(ex, what + 'replica %d holds the whole configuration (%s)' % (j, at), ex.content(ex.getattr(r, at)).read(ex, (ZERO, p)), c.read(ex, (ZERO, p)))
            u.shape(ex, what + 'shape of E', ex.getattr(r, 'E'), [ONE])
            u.eq(ex, what + 'the configuration of replica %d keeps its energy' % j, ex.content(ex.getattr(r, 'E')).read(ex, (ZERO,)), e * bs[j])
            u.shape(ex, what + 'shape of theta', ex.getattr(r, 'theta'), [self.np])
            u.eq(ex, what + 'replica %d has its inverse temperature times the model parameters' % j,
                 ex.content(ex.getattr(r, 'theta')).read(ex, (q,)), self.t0.read(ex, (q,)) * bs[j])


def bind(pt, name):
    return pt.env['ParallelTempering'].lookup(name)[0].bind(pt.obj)


def rule(ex, pt, i, own, draw):
    """replica-exchange Metropolis rule for the pair (i, i+1) with the given configurations"""
    b = pt.betas(ex)
    dE = pt.conf[own[i]][1] - pt.conf[own[i + 1]][1]
    x = T.fexp(dE * (b[i] - b[i + 1]))
    return T.And(T.lt(draw, ONE), T.lt(draw, x))


@unit('initialize_beta', [S + ':ParallelTempering.initialize_beta'])
def init_beta(u):
    ex = u.ex()
    m, lo, hi = T.var('m'), T.var('b0', 'real'), T.var('b1', 'real')
    u.requires(ex, m >= 2, T.lt(ZERO, lo), T.lt(lo, hi))
    b = u.call(ex, u.fn(ex, S, 'ParallelTempering.initialize_beta'), [lo, hi, m])
    u.shape(ex, 'one temperature per replica', b, [m])
    c = ex.content(b)
    u.eq(ex, 'starts at the highest temperature', c.read(ex, (ZERO,)), lo)
    u.eq(ex, 'ends at the lowest temperature', c.read(ex, (m - 1,)), hi)
    i = u.idx(ex, 'i', 0, m - 1)
    u.eq(ex, 'equally spaced', (c.read(ex, (i + 1,)) - c.read(ex, (i,))) * (m - 1), hi - lo)


@unit('iterate_beta', [S + ':ParallelTempering.iterate_beta'])
def iterate(u):
    ex = u.ex()
    m = T.var('m')
    u.requires(ex, m >= 2)
    beta = ex.sym_array('beta', (m,), 'real')
    a = ex.sym_array('a', (m - 1,), 'real', lambda x: T.And(T.lt(ZERO, x), T.le(x, ONE)))
    b0, a0 = ex.content(beta), ex.content(a)
    new = u.call(ex, u.fn(ex, S, 'ParallelTempering.iterate_beta'), [beta, a])
    u.shape(ex, 'as many temperatures', new, [m])
    c = ex.content(new)
    u.eq(ex, 'the lowest temperature does not change', c.read(ex, (m - 1,)), b0.read(ex, (m - 1,)))
    avg = ex.sum(ZERO, m - 1, lambda j: a0.read(ex, (j,))) / (m - 1)

    def rec(what, i):
        lhs = (c.read(ex, (i,)) - c.read(ex, (i - 1,))) * avg
        u.eq(ex, what, lhs, (b0.read(ex, (i,)) - b0.read(ex, (i - 1,))) * a0.read(ex, (i - 1,)))
    rec('the documented recursion, next to the lowest temperature', m - 1)
    rec('the documented recursion', u.idx(ex, 'i', 1, m - 1))
    # with positive acceptance ratios the mean is positive (induction on the number of summands), so the recursion keeps the order
    k = T.fresh('k')
    s = lambda n: ex.sum(ZERO, n, lambda j: a0.read(ex, (j,)))
    with ex.assume(T.lt(ZERO, a0.read(ex, (ZERO,)))):
        ex.oblige('order kept: one positive ratio', T.lt(ZERO, a0.read(ex, (ZERO,))), 'lemma')
    ak = a0.read(ex, (k,))
    with ex.assume(T.le(ONE, k), T.lt(k, m - 1), T.lt(ZERO, s(k))):
        ex.oblige('order kept: the sum of positive ratios is positive (step)', T.lt(ZERO, s(k) + ak), 'lemma')
    d, r, g, av, nd = (T.var(x, 'real') for x in ('d!', 'r!', 'g!', 'av!', 'nd!'))
    with ex.assume(T.lt(ZERO, d), T.lt(ZERO, r), T.lt(ZERO, av), T.eq(nd * av, d * r)):
        ex.oblige('order kept: the recursion with a positive mean', T.lt(ZERO, nd), 'lemma')
    u.unchanged(ex, 'beta unchanged', beta, b0)
    u.unchanged(ex, 'acceptance ratios unchanged', a, a0)


@unit('iterate_beta: rejections', [S + ':ParallelTempering.iterate_beta'])
def iterate_bad(u):
    ex = u.ex('wrong number of ratios')
    m, k = T.var('m'), T.var('k')
    u.requires(ex, m >= 2, k >= 1, T.Not(T.eq(k + 1, m)))
    u.must_raise(ex, u.fn(ex, S, 'ParallelTempering.iterate_beta'), [ex.sym_array('beta', (m,), 'real'), ex.sym_array('a', (k,), 'real')])


@unit('_acceptance_ratio', [S + ':ParallelTempering._acceptance_ratio'])
def acc(u):
    """Acceptance probabilities of the current states (n_iters=0) for given pairs and for all neighbours."""
    for M in MS:
        for pairs in [[(i, i + 1)] for i in range(M - 1)] + [None]:
            ex = u.ex('%d replicas, pairs %s' % (M, pairs))
            pt = PT(u, ex, M)
            kw = {} if pairs is None else dict(pairs=ex.alloc(Lst([tuple(P(x) for x in p) for p in pairs])))
            r = u.call(ex, bind(pt, '_acceptance_ratio'), [ONE, ZERO], kw)
            want = pairs or [(i, i + 1) for i in range(M - 1)]
            u.shape(ex, 'one ratio per pair', r, [P(len(want))])
            b = pt.betas(ex)
            for k, (i, j) in enumerate(want):
                x = T.fexp((pt.conf[i][1] - pt.conf[j][1]) * (b[i] - b[j]))
                got = ex.content(r).read(ex, (P(k),))
                ex.oblige('ratio of pair %d,%d' % (i, j), T.eq(got, T.ite(T.le(ONE, x), ONE, x)), 'post')
            pt.consistent(ex, '', list(range(M)))


@unit('_acceptance_ratio: estimated', [S + ':ParallelTempering._acceptance_ratio', S + ':ParallelTempering.burn_in_replicas'])
def acc_est(u):
    """Averages over freshly sampled states."""
    for M, N in ((2, 1), (2, 2), (3, 2)):
        ex = u.ex('%d replicas, %d samples' % (M, N))
        pt = PT(u, ex, M)
        it = T.var('it')
        u.requires(ex, it >= 1)
        r = u.call(ex, bind(pt, '_acceptance_ratio'), [P(N), it])
        u.shape(ex, 'one ratio per pair', r, [P(M - 1)])
        b = pt.betas(ex)
        ex.oblige('every replica is sampled for every estimate', T.TRUE if len(pt.calls) == M * N else T.FALSE, 'post')
        if len(pt.calls) != M * N:
            continue
        ex.oblige('with the number of iterations asked for', T.And(*[T.eq(c[2], it) for c in pt.calls]), 'post')
        for i in range(M - 1):
            tot = ZERO
            for t in range(N):
                ks = {c[1]: c[3] for c in pt.calls[t * M:(t + 1) * M]}
                x = T.fexp((pt.conf[ks[i]][1] - pt.conf[ks[i + 1]][1]) * (b[i] - b[i + 1]))
                tot = tot + T.ite(T.le(ONE, x), ONE, x)
            ex.oblige('average acceptance of pair %d,%d' % (i, i + 1), T.eq(ex.content(r).read(ex, (P(i),)) * N, tot), 'post')
        last = {c[1]: c[3] for c in pt.calls[-M:]}
        pt.consistent(ex, '', [last[j] for j in range(M)])


@unit('burn_in_replicas', [S + ':ParallelTempering.burn_in_replicas'])
def burn(u):
    for M in MS:
        for kw in ({}, {'n_iters': T.var('it')}):
            ex = u.ex('%d replicas, %s' % (M, sorted(kw)))
            pt = PT(u, ex, M)
            u.requires(ex, T.var('it') >= 1)
            u.call(ex, bind(pt, 'burn_in_replicas'), [], kw)
            ex.oblige('every replica is sampled once', T.TRUE if sorted(c[1] for c in pt.calls) == list(range(M)) else T.FALSE, 'post')
            ex.oblige('number of iterations', T.And(*[T.eq(c[2], kw.get('n_iters', T.var('replicaBurnin'))) for c in pt.calls]), 'post')
            own = {c[1]: c[3] for c in pt.calls}
            if len(own) == M:
                pt.consistent(ex, '', [own[j] for j in range(M)])
            for j, r in enumerate(pt.reps(ex)):
                u.eq(ex, 'the index goes with the replica', ex.getattr(r, 'index'), P(j))


@unit('burn_and_exchange', [S + ':ParallelTempering.burn_and_exchange', S + ':ParallelTempering._acceptance_ratio', S + ':ParallelTempering.burn_in_replicas'])
def exchange(u):
    """Replicas i and i+1, for i = 0, 1, .. in turn, exchange exactly when the rule accepts: every path of the code is matched with the
    acceptance pattern its conditions imply."""
    from pyvc.lib import PoolVal
    for M in MS:
        ex = u.ex('%d replicas' % M)
        pt = PT(u, ex, M)
        start = [P(10 + j) for j in range(M)]
        for j, r in enumerate(pt.reps(ex)):
            ex.cell(r).attrs['index'] = start[j]
        npaths = 0
        for _ in u.paths(ex, bind(pt, 'burn_and_exchange'), [PoolVal()]):
            npaths += 1
            lab = 'path %d: ' % npaths
            calls = pt.calls[-M:]
            first = {c[1]: c[3] for c in pt.calls[:M]}
            ex.oblige(lab + 'every replica is sampled once, with its own temperature', T.TRUE if len(pt.calls) == M and sorted(first) == list(range(M)) else T.FALSE, 'post')
            ex.oblige(lab + 'number of iterations between exchanges', T.And(*[T.eq(c[2], T.var('repExBurnin')) for c in calls]), 'post')
            draws = [d for d in ex.draws_of(ex.st)] if hasattr(ex, 'draws_of') else list(ex.draws)
            own = [first[j] for j in range(M)]
            idx = list(start)
            ok = True
            us = [d[2] for d in draws if d[1] == 'own']
            ex.oblige(lab + 'one draw per neighbouring pair', T.TRUE if len(us) >= M - 1 else T.FALSE, 'post')
            for i in range(M - 1):
                hit = None
                for d in us:
                    c = rule(ex, pt, i, own, d)
                    if ex.prove(c):
                        hit = True
                    elif ex.prove(T.Not(c)):
                        hit = False
                    if hit is not None:
                        us.remove(d)
                        break
                if hit is None:
                    ex.oblige(lab + 'the exchange of %d and %d is decided by the rule' % (i, i + 1), T.FALSE, 'post')
                    ok = False
                    break
                ex.oblige(lab + 'the exchange of %d and %d is decided by the rule' % (i, i + 1), T.TRUE, 'post')
                if hit:
                    own[i], own[i + 1] = own[i + 1], own[i]
                    idx[i], idx[i + 1] = idx[i + 1], idx[i]
            if not ok:
                continue
            pt.consistent(ex, lab, own)
            for j, r in enumerate(pt.reps(ex)):
                u.eq(ex, lab + 'the index goes with the configuration', ex.getattr(r, 'index'), idx[j])
            ex.oblige(lab + 'every draw comes from the sampler\'s generator', T.TRUE if all(d[1] == 'own' for d in ex.draws) else T.FALSE, 'post')
        ex.oblige('all acceptance patterns are reachable', T.TRUE if npaths >= 2 ** (M - 1) else T.FALSE, 'post')


@unit('update_replica_parameters', [S + ':ParallelTempering.update_replica_parameters'])
def upd(u):
    for M in MS:
        ex = u.ex('%d replicas' % M)
        pt = PT(u, ex, M)
        nb = ex.sym_array('newbeta', (P(M),), 'real')
        nt = ex.sym_array('newtheta', (pt.np,), 'real')
        ex.cell(pt.obj).attrs.update(beta=nb, theta=nt)
        u.call(ex, bind(pt, 'update_replica_parameters'), [])
        q = u.idx(ex, 'q', 0, pt.np)
        for j, r in enumerate(pt.reps(ex)):
            u.shape(ex, 'shape', ex.getattr(r, 'theta'), [pt.np])
            u.eq(ex, 'replica %d' % j, ex.content(ex.getattr(r, 'theta')).read(ex, (q,)), ex.content(nt).read(ex, (q,)) * ex.content(nb).read(ex, (P(j),)))
        u.unchanged(ex, 'temperatures unchanged', ex.getattr(pt.obj, 'beta'), ex.content(nb))


def stub(ex, pt, name, fn):
    f = pt.env['ParallelTempering'].lookup(name)[0]
    ex.contracts[(f.module.get('__path__'), f.name)] = fn


@unit('setup_replicas', [S + ':ParallelTempering.setup_replicas', S + ':Metropolis.__init__'])
def setup(u):
    """One Metropolis replica per temperature, burned in before and after the temperatures are chosen."""
    for M in MS:
        ex = u.ex('%d replicas' % M)
        pt = PT(u, ex, M, replicas=False)
        log = []

        def burn(e, f, args, kw):
            log.append('burn')
            rs = pt.reps(e)
            for r in rs:
                pt.place(r, ONE)
        def optimize(e, f, args, kw):
            log.append('optimize')
            e.oblige('the replicas hold a state when temperatures are optimised', T.TRUE if 'burn' in log else T.FALSE, 'pre')
            rs = pt.reps(e)
            for j, r in enumerate(rs):
                q = T.fresh('q')
                th = e.content(e.getattr(r, 'theta'))
                with e.assume(T.le(ZERO, q), T.lt(q, pt.np)):
                    e.oblige('replica %d starts with its inverse temperature times the parameters' % j, T.eq(th.read(e, (q,)), pt.t0.read(e, (q,)) * pt.betas(e)[j]), 'pre')
        stub(ex, pt, 'burn_in_replicas', burn)
        stub(ex, pt, 'optimize_beta', optimize)
        u.call(ex, bind(pt, 'setup_replicas'), [])
        rs = pt.reps(ex)
        ex.oblige('one replica per temperature', T.TRUE if len(rs) == M and len({r.id for r in rs}) == M else T.FALSE, 'post')
        ex.oblige('burned in after the temperatures are chosen', T.TRUE if 'optimize' in log and log[-1] == 'burn' else T.FALSE, 'post')
        for j, r in enumerate(rs):
            ex.oblige('a replica is a Metropolis sampler', T.TRUE if ex.cell(r).cls is pt.env['Metropolis'] else T.FALSE, 'post')
            g = ex.getattr(r, 'generate_sample')
            ex.oblige('sampling with the given energy function', T.TRUE if getattr(g, 'name', '') == 'Metropolis.generate_sample_py' and g.bound == r and ex.getattr(r, 'calc_e') is pt.calc_e else T.FALSE, 'post')
            u.eq(ex, 'index', ex.getattr(r, 'index'), P(j))
            u.eq(ex, 'size', ex.getattr(r, 'n'), pt.n)


@unit('optimize_beta', [S + ':ParallelTempering.optimize_beta', S + ':ParallelTempering.update_replica_parameters'])
def optimize(u):
    """Every adopted set of temperatures is the recursion applied to the previous one with a fresh estimate, and the replicas get it."""
    for M, K in ((2, 1), (2, 3), (3, 2)):
        ex = u.ex('%d replicas, at most %d rounds' % (M, K))
        pt = PT(u, ex, M)
        rounds = []

        def acc(e, f, args, kw):
            # the replicas sample with the temperatures in use
            bs = pt.betas(e)
            for j, r in enumerate(pt.reps(e)):
                q = T.fresh('q')
                with e.assume(T.le(ZERO, q), T.lt(q, pt.np)):
                    e.oblige('estimates are made at the current temperatures', T.eq(e.content(e.getattr(r, 'theta')).read(e, (q,)), pt.t0.read(e, (q,)) * bs[j]), 'pre')
            a = e.sym_array('ratio%d' % len(rounds), (P(M - 1),), 'real', lambda x: T.And(T.lt(ZERO, x), T.le(x, ONE)))
            rounds.append([bs, a, None])
            return a

        def iterate(e, f, args, kw):
            args = args[-2:]
            old, a = rounds[-1][0], rounds[-1][1]
            c = e.content(args[0])
            for j in range(M):
                e.oblige('the recursion starts from the temperatures in use', T.eq(c.read(e, (P(j),)), old[j]), 'pre')
            e.oblige('the recursion uses the new estimate', T.TRUE if args[1] == a else T.FALSE, 'pre')
            b = e.sym_array('beta%d' % len(rounds), (P(M),), 'real')
            rounds[-1][2] = b
            return b
        stub(ex, pt, '_acceptance_ratio', acc)
        stub(ex, pt, 'iterate_beta', iterate)
        ex.fork_while.add('ParallelTempering.optimize_beta')
        u.requires(ex, T.var('ns') >= 1, T.var('it') >= 1)
        n = 0
        for _ in u.paths(ex, bind(pt, 'optimize_beta'), [T.var('ns'), T.var('it')], dict(max_iter=P(K))):
            n += 1
            fin = ex.getattr(pt.obj, 'beta')
            cand = [pt.beta] + [x[2] for x in rounds]
            k = [i for i, b in enumerate(cand) if b == fin]
            ex.oblige('the final temperatures are those of the last round', T.TRUE if k else T.FALSE, 'post')
            bs = pt.betas(ex)
            for j, r in enumerate(pt.reps(ex)):
                q = u.idx(ex, 'q', 0, pt.np)
                u.eq(ex, 'replica %d has its inverse temperature times the model parameters' % j,
                     ex.content(ex.getattr(r, 'theta')).read(ex, (q,)), pt.t0.read(ex, (q,)) * bs[j])
        ex.oblige('rounds', T.TRUE if 1 <= len(rounds) else T.FALSE, 'post')


@unit('ParallelTempering.__init__', [S + ':ParallelTempering.__init__', S + ':ParallelTempering.initialize_beta'])
def init(u):
    def mk(ex, pt, order=True):
        def setup(e, f, args, kw):
            me = args[0]
            bs = e.content(e.getattr(me, 'beta'))
            e.oblige('as many temperatures as replicas', T.eq(bs.shape[0], T.var('m')), 'pre')
            e.oblige('from the highest temperature', T.eq(bs.read(e, (ZERO,)) * T.var('Tmax', 'real'), ONE), 'pre')
            e.oblige('to the lowest temperature', T.eq(bs.read(e, (T.var('m') - 1,)) * T.var('Tmin', 'real'), ONE), 'pre')
            for a, v in (('n', pt.n), ('nReplicas', T.var('m'))):
                e.oblige('%s is set' % a, T.eq(e.getattr(me, a), v), 'pre')
            e.oblige('parameters are set', T.TRUE if e.getattr(me, 'theta') == pt.theta and e.getattr(me, 'calc_e') is pt.calc_e else T.FALSE, 'pre')
            # adapted temperatures: the lowest stays, the order is kept
            nb = e.sym_array('adapted', (T.var('m'),), 'real')
            e.cell(me).attrs['beta'] = nb
        stub(ex, pt, 'setup_replicas', setup)
        return pt.env['ParallelTempering']
    m, lo, hi = T.var('m'), T.var('Tmin', 'real'), T.var('Tmax', 'real')
    for rng in (None, RngVal('own')):
        ex = u.ex('generator %s' % ('given' if rng else 'not given'))
        pt = PT(u, ex, 2, replicas=False)
        u.requires(ex, m >= 2, T.lt(ZERO, lo), T.lt(lo, hi))
        cls = mk(ex, pt)
        n0 = len(ex.raises)
        kw = dict(Tbds=(lo, hi))
        if rng is not None:
            kw['rng'] = rng
        o = ex.call(cls, [pt.n, pt.theta, pt.calc_e, m], kw)
        # the closing assertion (temperatures in order) may reject what the adaptation returned; nothing else may be raised
        for facts, q, exc, label in ex.raises[n0:]:
            ex.oblige('only the final order check may fail', T.TRUE if exc.name == 'AssertionError' else T.FALSE, 'noraise')
        b = ex.content(ex.getattr(o, 'beta'))
        i = u.idx(ex, 'i', 0, m - 1)
        ex.hints.append((i,))
        ex.oblige('a constructed sampler has its temperatures in order', T.lt(b.read(ex, (i,)), b.read(ex, (i + 1,))), 'post')
        if rng is not None:
            ex.oblige('the given generator is used', T.TRUE if ex.getattr(o, 'rng') is rng else T.FALSE, 'post')
    for what, bad in (('bounds in the wrong order', T.le(hi, lo)), ('temperature not positive', T.And(T.le(lo, ZERO), T.lt(lo, hi))), ('one replica', None)):
        ex = u.ex(what)
        pt = PT(u, ex, 2, replicas=False)
        if bad is None:
            u.requires(ex, T.le(m, ONE), T.lt(ZERO, lo), T.lt(lo, hi))
        else:
            u.requires(ex, m >= 2, bad, T.lt(ZERO, hi), T.Not(T.eq(lo, ZERO)))
        u.must_raise(ex, mk(ex, pt), [pt.n, pt.theta, pt.calc_e, m], dict(Tbds=(lo, hi)))


@unit('generate_sample', [S + ':ParallelTempering.generate_sample'])
def gen(u):
    """Sample t of replica j is the state replica j holds after the t-th exchange; the history gives the index it holds."""
    for M, N in ((2, 1), (2, 3), (3, 2)):
        for hist in (False, True):
            ex = u.ex('%d replicas, %d samples, history %s' % (M, N, hist))
            pt = PT(u, ex, M)
            rounds = []

            def be(e, f, args, kw):
                ks = []
                for j, r in enumerate(pt.reps(e)):
                    ks.append(pt.place(r, pt.betas(e)[j]))
                    e.cell(r).attrs['index'] = T.var('ix_%d_%d' % (len(rounds), j))
                rounds.append(ks)
            stub(ex, pt, 'burn_and_exchange', be)
            r = u.call(ex, bind(pt, 'generate_sample'), [P(N)], dict(save_exchange_trajectory=T.TRUE) if hist else {})
            ex.oblige('one exchange round per sample', T.TRUE if len(rounds) == N else T.FALSE, 'post')
            if len(rounds) != N:
                continue
            l = ex.sequence(ex.getattr(pt.obj, 'sample'))
            ex.oblige('one sample set per replica', T.TRUE if isinstance(l, list) and len(l) == M else T.FALSE, 'post')
            p = u.idx(ex, 'p', 0, pt.n)
            for j in range(M):
                u.shape(ex, 'shape', l[j], [P(N), pt.n])
                for t in range(N):
                    u.elem(ex, 'sample %d of replica %d' % (t, j), l[j], (P(t), p), pt.conf[rounds[t][j]][0].read(ex, (ZERO, p)))
            if hist:
                u.shape(ex, 'history shape', r, [P(N), P(M)])
                for j in range(M):
                    for t in range(N):
                        u.elem(ex, 'history', r, (P(t), P(j)), T.var('ix_%d_%d' % (t, j)))

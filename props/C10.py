"""C10: sampling runs return valid, consistent, reproducible samples."""
from pyvc.units import unit
from pyvc import terms as T
from pyvc.terms import P, ZERO, ONE
from pyvc.lib import tri, Native, RngVal
from pyvc import smt
from pyvc.exec import Obj, Lst, ClassVal
from pyvc.heap import Unsupported
from pyvc.chain import Chain, scalar, energy
from props.cpp_common import CPP, cpp_object, colour, spin
S = 'coniii/samplers.py'


def setup(u, ex, cls, n, **attrs):
    env = ex.load(S)
    k = 3 if cls == 'Potts3' else 1
    theta = ex.sym_array('theta', (n.scale(k) + tri(n),), 'real')
    ch = Chain(ex, n, colour if cls == 'Potts3' else spin, ex.content(theta))
    f = env[cls].lookup('sample_metropolis')[0]
    ex.contracts[(f.module.get('__path__'), f.name)] = ch.metropolis
    own = RngVal('own')
    at = dict(n=n, theta=theta, calc_e=ch.calc_e(), rng=own, _samples=None)
    at.update(attrs)
    obj = ex.alloc(Obj(env[cls], at))
    return env, obj, ch, theta


def own_draws(ex, extra=()):
    """every random number comes from the sampler's generator, or from a generator seeded with a number drawn from it"""
    seeds = [d[2] for d in ex.draws if d[1] == 'own']
    ok = True
    for d in ex.draws:
        if d[1] == 'own':
            continue
        if isinstance(d[1], tuple) and d[1][0] == 'seed' and any(derived(d[1][1], s) for s in seeds):
            continue
        ok = False
    if not ok and __import__('os').environ.get('PYVC_DEBUG'):
        print([d[:3] for d in ex.draws])
    return T.TRUE if ok else T.FALSE


def derived(t, s):
    """the seed t is the draw s (a term), or an element of the array of draws s (a name)"""
    a = t.as_atom()
    if isinstance(s, str):
        return a is not None and a.kind == 'f' and a.args[0] == s
    return s is not None and a is not None and a == s.as_atom()


def check_sample(u, ex, ch, obj, ss, n, legal, energies=True, sample=None):
    X = ex.content(sample if sample is not None else ex.getattr(obj, 'sample'))
    u.shape(ex, 'as many samples as asked for', X, [ss, n])
    q, p = u.idx(ex, 'q', 0, ss), u.idx(ex, 'p', 0, n)
    ex.oblige('legal spin values', legal(X.read(ex, (q, p))), 'post')
    if energies:
        E = ex.content(ex.getattr(obj, 'E'))
        u.shape(ex, 'one energy per sample', E, [ss])
        u.eq(ex, 'the reported energy is the energy of the reported state', E.read(ex, (q,)), energy(ch.of(X, (q,))))
    return X, q, p


for _cls in ('Metropolis', 'Potts3'):
    def _mk(cls):
        legal = colour if cls == 'Potts3' else spin

        @unit('%s.generate_sample_py' % cls, [S + ':Metropolis.generate_sample_py', S + ':%s.random_sample' % cls])
        def go(u):
            for syst in (False, True):
                for hist in (False, True):
                    for start in ('none', 'given', 'kept', 'many'):
                        for burn in ('none', 'given'):
                            if (hist or syst) and (start in ('kept', 'many') or burn == 'none'):
                                continue
                            ex = u.ex('systematic %s, history %s, start %s, burn_in %s' % (syst, hist, start, burn))
                            n, ss, it, bi = T.var('n'), T.var('ss'), T.var('n_iters'), T.var('burn_in')
                            u.requires(ex, n >= 1, ss >= 1, it >= 0, bi >= 0)
                            kept = None
                            if start in ('kept', 'many'):
                                kept = ex.sym_array('kept', (ONE if start == 'kept' else T.var('nk'), n), 'int', legal)
                                u.requires(ex, T.var('nk') >= 2)
                            env, obj, ch, theta = setup(u, ex, cls, n, _samples=kept)
                            kw = {}
                            init = None
                            if start == 'given':
                                init = ex.sym_array('init', (ONE, n), 'int', legal)
                                i0 = ex.content(init)
                                kw['initial_sample'] = init
                            if burn == 'given':
                                kw['burn_in'] = bi
                            if syst:
                                kw['systematic_iter'] = T.TRUE
                            if hist:
                                kw['saveHistory'] = T.TRUE
                            r = u.call(ex, env[cls].lookup('generate_sample_py')[0].bind(obj), [ss], dict(kw, n_iters=it))
                            check_sample(u, ex, ch, obj, ss, n, legal)
                            if hist:
                                u.shape(ex, 'one energy per step', r, [ss * it])
                            if not syst:
                                ex.oblige('every draw comes from the sampler\'s generator', T.TRUE if all(d[1] == 'own' for d in ex.draws) else T.FALSE, 'post')
                            if init is not None:
                                ex.oblige('the chain is run', T.TRUE if ch.starts else T.FALSE, 'post')
                                row = ch.starts[0][0]
                                p = u.idx(ex, 'p', 0, n)
                                u.eq(ex, 'the chain starts in the given state', row.read(ex, (p,)), i0.read(ex, (ZERO, p)))
                                u.unchanged(ex, 'initial sample unchanged', init, i0)

        @unit('%s.generate_sample_py: no steps' % cls, [S + ':Metropolis.generate_sample_py'])
        def still(u):
            """With no burn-in and no iterations the samples are the given initial state."""
            ex = u.ex()
            n, ss = T.var('n'), T.var('ss')
            u.requires(ex, n >= 1, ss >= 1)
            env, obj, ch, theta = setup(u, ex, cls, n)
            init = ex.sym_array('init', (ONE, n), 'int', legal)
            i0 = ex.content(init)
            u.call(ex, env[cls].lookup('generate_sample_py')[0].bind(obj), [ss], dict(n_iters=ZERO, burn_in=ZERO, initial_sample=init))
            X, q, p = check_sample(u, ex, ch, obj, ss, n, legal)
            u.eq(ex, 'the samples are the initial state', X.read(ex, (q, p)), i0.read(ex, (ZERO, p)))
    _mk(_cls)


for _cls in ('Metropolis', 'Potts3'):
    def _mk2(cls):
        legal = colour if cls == 'Potts3' else spin

        @unit('%s.generate_sample_parallel_py' % cls, [S + ':Metropolis.generate_sample_parallel_py', S + ':%s.random_sample' % cls])
        def par(u):
            for syst in (False, True):
                for start in ('none', 'given', 'kept', 'kept, wrong number'):
                    for burn in ('none', 'given'):
                        if syst and burn == 'none':
                            continue
                        ex = u.ex('systematic %s, start %s, burn_in %s' % (syst, start, burn))
                        n, ss, it, bi = T.var('n'), T.var('ss'), T.var('n_iters'), T.var('burn_in')
                        u.requires(ex, n >= 1, ss >= 1, it >= 0, bi >= 0)
                        cpus = T.var('cpu_count!')
                        u.requires(ex, cpus >= 1)
                        nk = cpus if start == 'kept' else T.var('nk')
                        kept = ex.sym_array('kept', (nk, n), 'int', legal) if start[:4] == 'kept' else None
                        if start == 'kept, wrong number':
                            u.requires(ex, nk >= 1, T.Not(T.eq(nk, cpus)))
                        env, obj, ch, theta = setup(u, ex, cls, n, _samples=kept)
                        kw = {}
                        if start == 'given':
                            init = ex.sym_array('init', (cpus, n), 'int', legal)
                            i0 = ex.content(init)
                            kw['initial_sample'] = init
                        if burn == 'given':
                            kw['burn_in'] = bi
                        if syst:
                            kw['systematic_iter'] = T.TRUE
                        u.call(ex, env[cls].lookup('generate_sample_parallel_py')[0].bind(obj), [ss], dict(kw, n_iters=it))
                        X, q, p = check_sample(u, ex, ch, obj, ss, n, legal, energies=False)
                        R = ex.content(ex.getattr(obj, '_samples'))
                        u.shape(ex, 'one replica per processor', R, [cpus, n])
                        r = u.idx(ex, 'r', 0, cpus)
                        ex.oblige('legal spin values of the replicas', legal(R.read(ex, (r, p))), 'post')
                        E = ex.getattr(obj, 'E')
                        E = ex.content(E)
                        u.eq(ex, 'the reported energies are those of the replicas', E.read(ex, (r,) + (ZERO,) * (len(E.shape) - 1)), energy(ch.of(R, (r,))))
                        ex.oblige('every draw comes from the sampler\'s generator or one seeded from it', own_draws(ex), 'post')
                        if start == 'given':
                            u.unchanged(ex, 'initial sample unchanged', init, i0)
                            row = ch.starts[0][0]
                            b = ch.starts[0][1]
    _mk2(_cls)


def cond(u, k):
    """Fixed spins (k of them, at any positions) keep their values, the energies are those of the full states."""
    for first in (0, 1):
        for syst in (False, True):
            for start in ('none', 'given'):
                if k >= 3 and (syst or start == 'given'):
                    continue
                ex = u.ex('%d fixed, %s, systematic %s, start %s' % (k, 'the first spin among them' if not first else 'not the first spin', syst, start))
                n, ss, it, bi = T.var('n'), T.var('ss'), T.var('n_iters'), T.var('burn_in')
                u.requires(ex, n >= k + 1, ss >= 1, it >= 0, bi >= 0)
                pos = [T.var('pos%d' % j) for j in range(k)]
                val = [T.var('val%d' % j) for j in range(k)]
                u.requires(ex, T.eq(pos[0], ZERO) if not first else pos[0] >= 1, pos[-1] < n, *[spin(v) for v in val])
                for a, b in zip(pos, pos[1:]):
                    u.requires(ex, T.lt(a, b))
                env, obj, ch, theta = setup(u, ex, 'Metropolis', n)
                fs = ex.alloc(Lst([(a, b) for a, b in zip(pos, val)]))
                kw = dict(burn_in=bi, n_iters=it)
                if syst:
                    kw['systematic_iter'] = T.TRUE
                if start == 'given':
                    init = ex.sym_array('init', (ss, n - k), 'int', spin)
                    i0 = ex.content(init)
                    kw['initial_sample'] = init
                u.call(ex, env['Metropolis'].lookup('generate_cond_sample_py')[0].bind(obj), [ss, fs], kw)
                X, q, p = check_sample(u, ex, ch, obj, ss, n, spin, energies=False)
                for a, b in zip(pos, val):
                    u.eq(ex, 'a fixed spin keeps its value', X.read(ex, (q, a)), b)
                E = ex.content(ex.getattr(obj, 'E'))
                u.shape(ex, 'one energy per sample', E, [ss])
                ch.same(ex, 'the reported energy is the energy of the reported state', E.read(ex, (q,)), X, (q,))
                ex.oblige('every draw comes from the sampler\'s generator', T.TRUE if all(d[1] == 'own' for d in ex.draws) else T.FALSE, 'post')
                if start == 'given':
                    u.unchanged(ex, 'initial sample unchanged', init, i0)


for _k, _tier in ((1, 'quick'), (2, 'quick'), (3, 'thorough'), (4, 'thorough')):
    unit('Metropolis.generate_cond_sample_py: %d fixed' % _k, [S + ':Metropolis.generate_cond_sample_py'], tier=_tier, timeout=600)(lambda u, k=_k: cond(u, k))



def cpp_chain(u, ex, cls, n, legal=None):
    env, obj, th, t0, C, c0 = cpp_object(u, ex, cls, n)
    ch = Chain(ex, n, legal or (colour if cls == 'Potts3' else spin), t0)
    at = ex.cell(obj).attrs

    def owner(me):
        ex.oblige('the step is one of this object with its parameters', T.TRUE if me == obj else T.FALSE, 'pre')
        th_now = ex.content(ex.getattr(obj, 'multipliers'))
        ex.oblige('the parameters are unchanged', T.TRUE if th_now is t0 else T.FALSE, 'pre')

    def ce(ex, f, args, kwargs):
        owner(args[0])
        c = ex.content(args[-1])
        return energy(ch.of(c))

    def sm(ex, f, args, kwargs):
        owner(args[0])
        e = Native(lambda ex, X, theta: ex.new_array((ex.content(X).shape[0],), 'real', lambda co: energy(ch.of(ex.content(X), (co[0],)))), 'calc_e')
        return ch.step(ex, args[-2], None, 'own', args[-1], e, th, obj)
    for nm, f in (('calc_e', ce), ('sample_metropolis', sm)):
        g = env[cls].lookup(nm)[0]
        ex.contracts[(g.module.get('__path__'), g.name)] = f
    return env, obj, ch


for _cls in ('Ising', 'Potts3'):
    def _mk3(cls):
        legal = colour if cls == 'Potts3' else spin

        @unit('C++ %s::generate_sample' % cls, [CPP + ':Sampler::generate_sample', CPP + ':%s::init_sample' % cls])
        def go(u):
            for syst in (False, True):
                ex = u.ex('systematic %s' % syst)
                n, ss, it, bi = T.var('n'), T.var('ss'), T.var('n_iters'), T.var('burn_in')
                u.requires(ex, n >= 1, ss >= 1, it >= 0, bi >= 0)
                env, obj, ch = cpp_chain(u, ex, cls, n)
                u.call(ex, env[cls].lookup('generate_sample')[0].bind(obj), [ss, bi, it, T.TRUE if syst else T.FALSE])
                X = ex.getattr(obj, 'sample')
                check_sample(u, ex, ch, obj, ss, n, legal, energies=False, sample=X)
                ex.oblige('every draw comes from the object\'s generator', T.TRUE if all(d[1] == 'own' for d in ex.draws) else T.FALSE, 'post')
    _mk3(_cls)


def numbers(ex, xs):
    def rd(co):
        e = xs[-1]
        for i in range(len(xs) - 2, -1, -1):
            e = T.ite(T.eq(co[0], P(i)), xs[i], e)
        return e
    return ex.new_array((P(len(xs)),), 'int', rd)


@unit('C++ generate_cond_sample: bounded number of spins', [CPP + ':Sampler::generate_cond_sample', CPP + ':Sampler::readin_fixed_set'], timeout=600)
def cppcond(u):
    """Every proper non-empty subset of up to 4 spins held fixed at any values; any number of samples and steps."""
    import itertools
    deep = __import__('os').environ.get('PYVC_TIER') == 'thorough'
    for m in range(2, 6 if deep else 5):
        for k in range(1, m):
            for ix in itertools.combinations(range(m), k):
                for syst in (False, True):
                    ex = u.ex('%d spins, fixed %s, systematic %s' % (m, ix, syst))
                    n, ss, it, bi = P(m), T.var('ss'), T.var('n_iters'), T.var('burn_in')
                    u.requires(ex, ss >= 1, it >= 0, bi >= 0)
                    val = [T.var('val%d' % j) for j in range(k)]
                    u.requires(ex, *[spin(v) for v in val])

                    def legal(x, p):
                        return T.And(spin(x), *[T.Implies(T.eq(p, P(i)), T.eq(x, v)) for i, v in zip(ix, val)])
                    env, obj, ch = cpp_chain(u, ex, 'Ising', n, legal)
                    ch.frozen = lambda site: T.Or(*[T.eq(site, P(i)) for i in ix])
                    a = numbers(ex, [P(i) for i in ix])
                    b = numbers(ex, val)
                    u.call(ex, env['Ising'].lookup('generate_cond_sample')[0].bind(obj), [a, b, ss, bi, it, T.TRUE if syst else T.FALSE])
                    X, q, p = check_sample(u, ex, ch, obj, ss, n, spin, energies=False, sample=ex.getattr(obj, 'sample'))
                    for i, v in zip(ix, val):
                        u.eq(ex, 'a fixed spin keeps its value', X.read(ex, (q, P(i))), v)
                    ex.oblige('every draw comes from the object\'s generator', T.TRUE if all(d[1] == 'own' for d in ex.draws) else T.FALSE, 'post')


def boost_contract(u, ex, name, n, theta, legal):
    """Contract of the compiled class (constructor and sampling proved above and in C09; fetch_sample, which copies the stored sample
    into an array, is assumed): the sample is a function of the parameters, the seed and the arguments."""
    made = []
    t0 = ex.content(theta)
    ex.assumed.add('samplers_ext.%s: boost.python binding and fetch_sample return the stored sample' % name)
    fn = 'boost!' + name
    smt.add_fun_fact(fn, lambda *a: legal(T.app(fn, a, 'int')))

    def cons(ex, n_, th, seed=None):
        ex.oblige('compiled sampler: number of spins', T.eq(P(n_), n), 'pre')
        c = ex.content(th)
        ex.oblige('compiled sampler: number of parameters', T.eq(c.shape[0], t0.shape[0]), 'pre')
        q = T.fresh('q')
        with ex.assume(T.le(ZERO, q), T.lt(q, t0.shape[0])):
            ex.oblige('compiled sampler: the current parameters', T.eq(c.read(ex, (q,)), t0.read(ex, (q,))), 'pre')
        ex.oblige('compiled sampler: a non-negative seed is given (otherwise it seeds itself)', T.TRUE if seed is None else T.le(ZERO, P(seed)), 'pre')
        if seed is None:
            ex.draw('entropy', 'entropy', ZERO)
        else:
            ex.draw('boost', ('seed', P(seed)), ZERO)
        cell = dict(call=None)
        made.append(cell)

        def gen(ex, ss, bi, it, syst=T.FALSE):
            for x in (ss, bi, it):
                ex.oblige('compiled sampler: counts are not negative', T.le(ZERO, P(x)), 'pre')
            cell['call'] = (P(ss), (P(seed), P(ss), P(bi), P(it), T.ind(T.B(syst))), None)

        def cgen(ex, ix, vals, ss, bi, it, syst=T.FALSE):
            for x in (ss, bi, it):
                ex.oblige('compiled sampler: counts are not negative', T.le(ZERO, P(x)), 'pre')
            cell['call'] = (P(ss), (P(seed), P(ss), P(bi), P(it), T.ind(T.B(syst))), (ex.content(ix), ex.content(vals)))

        def fetch(ex):
            if cell['call'] is None:
                raise Unsupported('sample fetched before it is taken')
            ss, a, fixed = cell['call']
            return ex.new_array((ss, n), 'int', lambda co: T.app(fn, a + tuple(co), 'int'))
        cell['bsampler'] = True
        return ex.alloc(Obj(ClassVal(name, [], {}, {}), dict(generate_sample=Native(gen, 'generate_sample'), fetch_sample=Native(fetch, 'fetch_sample'),
                                                             generate_cond_sample=Native(cgen, 'generate_cond_sample'))))
    ex.lib = dict(ex.lib)
    ex.lib['samplers_ext.' + name] = cons
    return fn, made


for _cls in ('Metropolis', 'Potts3'):
    def _mk4(cls):
        legal = colour if cls == 'Potts3' else spin
        name = 'BoostPotts3' if cls == 'Potts3' else 'BoostIsing'

        def go(u, method, extra, parallel, cond=False):
            for syst in (False, True):
                for burn in ('none', 'given'):
                    ex = u.ex('systematic %s, burn_in %s' % (syst, burn))
                    n, ss, it, bi = T.var('n'), T.var('ss'), T.var('n_iters'), T.var('burn_in')
                    u.requires(ex, n >= (3 if cond else 1), ss >= 1, it >= 0, bi >= 0, T.var('cpu_count!') >= 1)
                    env, obj, ch, theta = setup(u, ex, cls, n)
                    ex.chain = None
                    cpus = T.var('cpu_count!')
                    if parallel and cls == 'Potts3':
                        cpus = T.var('nCpus')
                        u.requires(ex, cpus >= 2, ss > cpus)
                        ex.cell(obj).attrs['nCpus'] = cpus
                    fn, made = boost_contract(u, ex, name, n, theta, legal)
                    kw = dict(n_iters=it)
                    if burn == 'given':
                        kw['burn_in'] = bi
                    if syst:
                        kw['systematic_iter'] = T.TRUE
                    args = [ss]
                    if cond:
                        pos, val = [T.var('pos0'), T.var('pos1')], [T.var('val0'), T.var('val1')]
                        u.requires(ex, pos[0] >= 0, T.lt(pos[0], pos[1]), pos[1] < n, *[spin(v) for v in val])
                        args.append(ex.alloc(Lst([(a, b) for a, b in zip(pos, val)])))
                        kw['parallel'] = T.TRUE if parallel else T.FALSE
                    u.call(ex, env[cls].lookup(method)[0].bind(obj), args, kw)
                    X, q, p = check_sample(u, ex, ch, obj, ss, n, legal, energies=False)
                    ex.oblige('every draw comes from the sampler\'s generator or one seeded from it', own_draws(ex), 'post')
                    b = bi if burn == 'given' else (P(1000) if cond else it)
                    a = X.read(ex, (q, p)).as_atom()
                    ok = a is not None and a.kind == 'f' and a.args[0] == fn
                    ex.oblige('the sample is the one taken by the compiled sampler', T.TRUE if ok else T.FALSE, 'post')
                    if not ok:
                        continue
                    seed, s_, b_, i_, y_, r, c = a.args[1]
                    for nm, x, want in (('burn-in steps', b_, b), ('steps between samples', i_, it), ('systematic', y_, P(int(syst))), ('spin', c, p)):
                        u.eq(ex, 'what is asked of the compiled sampler: ' + nm, x, want)
                    if parallel:
                        # row r of the sample with the seed number w
                        w = seed.as_atom().args[1][0]
                        u.eq(ex, 'row of the samples of all processors', w * s_ + r, q)
                        ex.oblige('the row exists', T.And(T.le(ZERO, r), T.lt(r, s_), T.le(ZERO, w), T.lt(w, cpus)), 'post')
                    else:
                        u.eq(ex, 'all samples', s_, ss)
                        u.eq(ex, 'row', r, q)
                    if cond:
                        for cell in made:
                            ci, cv = cell['call'][2]
                            u.shape(ex, 'fixed positions', ci, [P(2)])
                            u.shape(ex, 'fixed values', cv, [P(2)])
                            for j in range(2):
                                u.eq(ex, 'fixed position given', ci.read(ex, (P(j),)), pos[j])
                                u.eq(ex, 'fixed value given', cv.read(ex, (P(j),)), val[j])

        unit('%s.generate_sample_boost' % cls, [S + ':%s.generate_sample_boost' % cls])(lambda u: go(u, 'generate_sample_boost', {}, False))
        unit('%s.generate_sample_parallel_boost' % cls, [S + ':%s.generate_sample_parallel_boost' % cls])(lambda u: go(u, 'generate_sample_parallel_boost', {}, True))
        if cls == 'Metropolis':
            for par in (False, True):
                unit('Metropolis.generate_cond_sample_boost: two fixed spins, parallel %s' % par, [S + ':Metropolis.generate_cond_sample_boost'])(
                    lambda u, par=par: go(u, 'generate_cond_sample_boost', {}, par, True))
    _mk4(_cls)


@unit('update_parameters', [S + ':Metropolis.update_parameters'])
def upd(u):
    for cls in ('Metropolis', 'Potts3'):
        ex = u.ex(cls)
        n, m = T.var('n'), T.var('m')
        u.requires(ex, n >= 1, m >= 1)
        env = ex.load(S)
        th = ex.sym_array('theta', (m,), 'real')
        new = ex.sym_array('new', (m,), 'real')
        v0 = ex.content(new)
        obj = ex.alloc(Obj(env[cls], dict(n=n, theta=th, rng=RngVal('own'), _samples=None)))
        u.call(ex, env[cls].lookup('update_parameters')[0].bind(obj), [new])
        q = u.idx(ex, 'q', 0, m)
        u.unchanged(ex, 'given array unchanged', new, v0)
        t = ex.getattr(obj, 'theta')
        u.shape(ex, 'as many parameters', t, [m])
        u.elem(ex, 'the given values', t, [q], v0.read(ex, (q,)))
        ex.call(ex.load_source('def poke(a):\n    a[0] = a[0] + 1\n', 'poke.py')['poke'], [new])
        u.elem(ex, 'the values as they were when given', t, [q], v0.read(ex, (q,)))


M = 'coniii/models.py'


@unit('Model.generate_sample and set_rng', [M + ':Model.generate_sample', M + ':Model.set_rng'])
def model_sample(u):
    """The sampler is given the parameters (the model's unless others are passed), then asked for the sample with the given counts."""
    for cls in ('Ising', 'Triplet', 'Potts3'):
        for par in (False, True):
            for given in (False, True):
                for size in (False, True):
                    ex = u.ex('%s, parallel %s, multipliers given %s, size given %s' % (cls, par, given, size))
                    env = ex.load(M)
                    n, m, it, bi = T.var('n'), T.var('m'), T.var('n_iters'), T.var('burn_in')
                    ss0, ss = T.var('ss0'), T.var('ss')
                    u.requires(ex, n >= 1, m >= 1, it >= 0, bi >= 0, ss0 >= 1, ss >= 1)
                    th, other = ex.sym_array('theta', (m,), 'real'), ex.sym_array('other', (m,), 'real')
                    t0 = ex.content(other if given else th)
                    log = []
                    smp = ex.sym_array('sample', (ss if size else ss0, n), 'int')
                    sampler = ex.alloc(Obj(ClassVal('Sampler', [], {}, {}), dict(
                        update_parameters=Native(lambda ex, t: log.append(('theta', t)), 'update_parameters'),
                        generate_sample=Native(lambda ex, k, **kw: log.append(('seq', k, kw)), 'generate_sample'),
                        generate_sample_parallel=Native(lambda ex, k, **kw: log.append(('par', k, kw)), 'generate_sample_parallel'),
                        sample=smp, rng=RngVal('old'))))
                    obj = ex.alloc(Obj(env[cls], dict(n=n, multipliers=th, sampler=sampler, sampleMethod='metropolis', sampleSize=ss0, rng=RngVal('old'), sample=None)))
                    rng = RngVal('new')
                    u.call(ex, env[cls].lookup('set_rng')[0].bind(obj), [rng])
                    ex.oblige('the sampler gets the new generator', T.TRUE if ex.getattr(sampler, 'rng') is rng and ex.getattr(obj, 'rng') is rng else T.FALSE, 'post')
                    kw = dict(parallel=T.TRUE if par else T.FALSE)
                    if given:
                        kw['multipliers'] = other
                    if size:
                        kw['sample_size'] = ss
                    u.call(ex, env[cls].lookup('generate_sample')[0].bind(obj), [it, bi], kw)
                    ok = [x[0] for x in log] == ['theta', 'par' if par else 'seq']
                    ex.oblige('parameters first, then one sample', T.TRUE if ok else T.FALSE, 'post')
                    if not ok:
                        continue
                    q = u.idx(ex, 'q', 0, m)
                    u.shape(ex, 'the number of parameters asked for', log[0][1], [m])
                    u.elem(ex, 'the parameters asked for', log[0][1], [q], t0.read(ex, (q,)))
                    u.eq(ex, 'as many samples as asked for', P(log[1][1]), ss if size else ss0)
                    u.eq(ex, 'steps between samples', P(log[1][2]['n_iters']), it)
                    u.eq(ex, 'burn-in steps', P(log[1][2]['burn_in']), bi)
                    a, b = u.idx(ex, 'a', 0, ss if size else ss0), u.idx(ex, 'b', 0, n)
                    u.shape(ex, 'the size of the sample', ex.getattr(obj, 'sample'), [ss if size else ss0, n])
                    u.elem(ex, 'the sample is that of the sampler', ex.getattr(obj, 'sample'), [a, b], ex.content(smp).read(ex, (a, b)))


@unit('Metropolis and Potts3 constructors: which sampler runs', [S + ':Metropolis.__init__', S + ':Potts3.__init__'])
def construct(u):
    for cls in ('Metropolis', 'Potts3'):
        for boost in (True, False):
            for rng in (True, False):
                ex = u.ex('%s, boost %s, generator given %s' % (cls, boost, rng))
                n = T.var('n')
                u.requires(ex, n >= 1, T.var('cpu_count!') >= 3)
                env = ex.load(S)
                theta = ex.sym_array('theta', (n.scale(3 if cls == 'Potts3' else 1) + tri(n),), 'real')
                t0 = ex.content(theta)
                boost_contract(u, ex, 'BoostPotts3' if cls == 'Potts3' else 'BoostIsing', n, theta, colour if cls == 'Potts3' else spin)
                ce = Native(lambda ex, *a: ZERO, 'calc_e')
                own = RngVal('own')
                kw = dict(calc_e=ce, boost=T.TRUE if boost else T.FALSE)
                if rng:
                    kw['rng'] = own
                obj = u.call(ex, env[cls], [n, theta], kw)
                for pub in ('generate_sample', 'generate_sample_parallel') + (('generate_cond_sample',) if cls == 'Metropolis' else ()):
                    g = ex.getattr(obj, pub)
                    want = '%s_%s' % (pub, 'boost' if boost else 'py')
                    ex.oblige('%s is %s' % (pub, want), T.TRUE if getattr(g, 'bound', None) == obj and g.name.split('.')[-1] == want else T.FALSE, 'post')
                r = ex.getattr(obj, 'rng')
                ex.oblige('the given generator is used, otherwise one of its own', T.TRUE if isinstance(r, RngVal) and (r is own) == rng and r.src != 'global' else T.FALSE, 'post')
                q = u.idx(ex, 'q', 0, ex.content(theta).shape[0])
                u.elem(ex, 'the parameters are the given ones', ex.getattr(obj, 'theta'), [q], t0.read(ex, (q,)))


@unit('sample_ising', [S + ':sample_ising'])
def s_ising(u):
    for par in (False, True):
        for form in ('vector', 'two'):
            ex = u.ex('parallel %s, %s' % (par, form))
            n, ss = T.var('n'), T.var('ss')
            cpus = T.var('cpu_count!')
            u.requires(ex, n >= (2 if form == 'two' else 1), ss >= 1, cpus >= 1)
            env = ex.load(S)
            theta = ex.sym_array('theta', (n + tri(n),), 'real')
            t0 = ex.content(theta)
            arg = theta
            if form == 'two':
                h = ex.new_array((n,), 'real', lambda co: t0.read(ex, co))
                J = ex.new_array((tri(n),), 'real', lambda co: t0.read(ex, (n + co[0],)))
                arg = ex.alloc(Lst([h, J]))
            fn, made = boost_contract(u, ex, 'BoostIsing', n, theta, spin)
            seed = T.var('seed')
            u.requires(ex, seed >= 0)
            X = u.call(ex, u.fn(ex, S, 'sample_ising'), [arg, ss], dict(seed=seed, parallel=T.TRUE if par else T.FALSE))
            c = ex.content(X)
            u.shape(ex, 'as many samples as asked for', c, [ss, n])
            q, p = u.idx(ex, 'q', 0, ss), u.idx(ex, 'p', 0, n)
            ex.oblige('legal spin values', spin(c.read(ex, (q, p))), 'post')
            firsts = [d for d in ex.draws if isinstance(d[1], tuple) and d[1] == ('seed', seed)]
            ok = bool(firsts) and all(d in firsts or isinstance(d[1], tuple) and any(derived(d[1][1], f[2]) for f in firsts) for d in ex.draws)
            ex.oblige('every draw comes from a generator with the given seed', T.TRUE if ok else T.FALSE, 'post')
            u.unchanged(ex, 'parameters unchanged', theta, t0)

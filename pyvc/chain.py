"""Markov chains: contract of one Metropolis step (property C09) and the loop rule for runs of steps.

A state is named by a token t: S(t, p) is the value of spin p, En(t) the energy of the state under the sampler's parameters.  The
contract of a step, assumed here and proved for the real implementations in props/C09.py: given the state s and its energy, it draws
from the given generator only, replaces s by some legal state and returns the energy of the new state minus the energy of the old
one.  A loop whose body changes a state only by steps is summarised by naming the state before iteration v with tok(v); what is
carried along and equals the energy of the state before the loop must be shown to equal it after every iteration."""
from . import terms as T
from . import smt
from .terms import P, Poly, Bool, ZERO, ONE
from .heap import Content, W, Unsupported
from .exec import Native, Clo, View, Ref, Arr

STATE = 'S!st'
EN = 'En!st'


def spin(t, p):
    return T.app(STATE, (t, p), 'int')


def energy(t):
    return T.app(EN, (t,), 'real')


class Chain:
    def __init__(self, ex, n, legal, theta):
        """n: number of spins; legal: value -> condition; theta: the content of the parameters in use"""
        self.ex, self.n, self.theta = ex, n, theta
        # legal: condition on the value x of spin p (a condition on p is kept by every step that does not flip p: see frozen)
        self.legal = legal if legal.__code__.co_argcount == 2 else lambda x, p: legal(x)
        self.states, self.memo, self.starts, self.k, self.nt = {}, {}, [], 0, 0
        self.frozen = None
        self.rows = {}         # name of a composed state -> (spin tok!p, parameters)
        smt.add_fun_fact(STATE, lambda t, p: self.legal(spin(t, p), p))
        ex.chain = self

    # ------------------------------------------------------------ names of states
    def token(self, row, length, lead=(), bounds=()):
        """The name of the state with elements row(lead, p)."""
        ex = self.ex
        p = T.var('tok!p')
        lead = tuple(P(x) for x in lead)
        with ex.assume(T.le(ZERO, p), T.lt(p, length), *[c for r, b in zip(lead, bounds) for c in (T.le(ZERO, r), T.lt(r, b))]):
            e = row(lead, p)
            m = e.as_atom() if isinstance(e, Poly) else None
            if m is not None and m.kind == 'f' and m.args[0] == STATE and m.args[1][1] == p and not T.occurs(p.as_atom(), m.args[1][0]):
                return m.args[1][0]
            ex.oblige('the spins have legal values', self.legal(e, p), 'pre')
        # free parameters: the names of other states, the variables of the row's index, the counters of the loops we are in
        from .loops import subst_fun
        toks, args = [], []

        def ab(a):
            if T.occurs(p.as_atom(), a[0]):
                raise Unsupported('the spins of a state come from several states')
            if a[0] not in toks:
                toks.append(a[0])
            return T.app(STATE, (T.var('tok!t%d' % toks.index(a[0])), a[1]), 'int')
        key = subst_fun(e, {STATE: ab})
        args += toks
        for r in [P(x) for y in lead for x in sorted(T.free_vars(y), key=str)] + list(ex.binders):
            if T.occurs(r.as_atom(), key):
                args.append(r)
                key = T.subst(key, {r.as_atom(): T.var('tok!a%d' % len(args))})
        k = (key.key, len(args))
        if k not in self.memo:
            self.memo[k] = 'tk!%d' % len(self.memo)
            self.rows[self.memo[k]] = (key, [T.var('tok!t%d' % i) for i in range(len(toks))]
                                       + [T.var('tok!a%d' % i) for i in range(len(toks) + 1, len(args) + 1)])
        return T.app(self.memo[k], tuple(args), 'int') if args else T.var(self.memo[k])

    def of(self, c, lead=()):
        """token of the row `lead` of a content"""
        k = len(c.shape) - 1
        return self.token(lambda R, p: c.read(self.ex, tuple(R) + (p,)), c.shape[-1], lead, c.shape[:k])

    def at(self, t, p):
        """spin p of the state named t"""
        a = t.as_atom()
        nm = a.args[0] if a is not None and a.kind == 'f' else None if a is None else t.key
        if nm in self.rows:
            e, par = self.rows[nm]
            m = {x.as_atom(): y for x, y in zip(par, a.args[1] if a.kind == 'f' else ())}
            m[T.var('tok!p').as_atom()] = p
            return T.subst(e, m)
        return spin(t, p)

    def same(self, ex, name, e, c, lead):
        """e is the energy of the state in row lead of c (states with the same spins have the same energy)"""
        a = e.as_atom()
        if a is not None and a.kind == 'ite':
            with ex.assume(a.args[0]):
                self.same(ex, name, P(a.args[1]), c, lead)
            with ex.assume(T.Not(a.args[0])):
                self.same(ex, name, P(a.args[2]), c, lead)
            return
        if a is None or a.kind != 'f' or a.args[0] != EN:
            return ex.oblige(name + ' (not an energy: %s)' % e.key[:80], T.FALSE, 'post')
        p = T.fresh('p')
        with ex.assume(T.le(ZERO, p), T.lt(p, c.shape[-1])):
            ex.oblige(name, T.eq(self.at(a.args[1][0], p), c.read(ex, tuple(P(x) for x in lead) + (p,))), 'post')

    # ------------------------------------------------------------ contracts
    def same_theta(self, ex, theta):
        c = ex.content(theta)
        if c is self.theta or c.tag is not None and c.tag == self.theta.tag:
            return
        if not ex.mute:
            ex.oblige('the energy is taken with the current parameters (number of parameters)', T.eq(c.shape[0], self.theta.shape[0]), 'pre')
        q = T.fresh('q')
        with ex.assume(T.le(ZERO, q), T.lt(q, c.shape[0])):
            ex.oblige('the energy is taken with the current parameters', T.eq(c.read(ex, (q,)), self.theta.read(ex, (q,))), 'pre')

    def calc_e(self):
        def f(ex, X, theta):
            c = ex.content(X)
            if len(c.shape) != 2:
                raise Unsupported('energy of an array that is not two-dimensional')
            ex.oblige('energies of states of n spins', T.eq(c.shape[1], self.n), 'pre')
            self.same_theta(ex, theta)
            if c.shape[0].const() is None:
                self.of(c, (T.var('row!'),))
            return ex.new_array((c.shape[0],), 'real', lambda co: energy(self.of(c, (co[0],))))
        return Native(f, 'calc_e')

    def value(self, ex, calc_e, row, theta):
        """calc_e(row[None, :], theta)[0] for a content row"""
        X = ex.new_array((ONE,) + row.shape, row.sort, lambda co: row.read(ex, co[1:]))
        e = ex.call(calc_e, [X, theta])
        return P(ex.subscript(e, ZERO)) if not isinstance(e, Poly) else e

    def fresh_row(self, ex, row, name, args):
        t = T.app(name, tuple(args), 'int') if args else T.var(name)
        return Content(row.shape, 'int', lambda co: spin(t, co[-1]))

    def step(self, ex, s, E0, rng_src, site, calc_e, theta, who):
        """one Metropolis step on the array s; returns the change of energy"""
        row = ex.content(s)
        if len(row.shape) != 1:
            raise Unsupported('Metropolis step on an array that is not one-dimensional')
        if site is not None:
            ex.oblige('the site to flip exists', T.And(T.le(ZERO, P(site)), T.lt(P(site), row.shape[0])), 'pre')
            if self.frozen is not None:
                ex.oblige('the site to flip is not held fixed', T.Not(self.frozen(P(site))), 'pre')
        else:
            ex.oblige('there is a site to flip', T.lt(ZERO, row.shape[0]), 'pre')
        ex.draw('metropolis', rng_src, ZERO)
        E = self.value(ex, calc_e, row, theta)
        if E0 is not None:
            ex.oblige('the energy given to the step is the energy of the state', T.eq(scalar(ex, E0), E), 'pre')
        ref, dims = ex.base_target(s)
        self.states[ref.id] = (calc_e, theta)
        self.k += 1
        new = self.fresh_row(ex, row, 'mv!%d' % self.k, ex.binders)
        ex.write(ref, W(dims, T.TRUE, 'set', ex.local(dims, lambda co: new.base(co))))
        return self.value(ex, calc_e, new, theta) - E

    def metropolis(self, ex, f, args, kwargs):
        """contract of Metropolis.sample_metropolis / Potts3.sample_metropolis"""
        g = Clo(f.node, f.env, f.module, f.name, f.defaults, f.kwdefaults, None, f.cls)
        env = ex.bind_args(g, args, kwargs)
        me = env['self']
        rng = env.get('rng')
        if rng is None:
            rng = ex.getattr(me, 'rng')
        calc_e = env.get('calc_e')
        if calc_e is None:
            calc_e = ex.getattr(me, 'calc_e')
        return self.step(ex, env['sample0'], env['E0'], rng.src, env.get('flip_site'), calc_e, ex.getattr(me, 'theta'), me)

    # ------------------------------------------------------------ loops
    def row_of(self, c):
        """the state kept in a content of shape (1, .., 1, len)"""
        lead = c.shape[:-1]
        if any(x.const() != 1 for x in lead):
            raise Unsupported('several chains in one array')
        z = (ZERO,) * len(lead)
        return Content((c.shape[-1],), c.sort, lambda co: c.read(self.ex, z + co))

    def cell(self, c, name, args):
        t = T.app(name, tuple(args), 'int') if args else T.var(name)
        return Content(c.shape, c.sort, lambda co: spin(t, co[-1]))


def scalar(ex, x):
    if isinstance(x, (Poly, Bool)):
        return P(x)
    c = ex.content(x)
    if any(s.const() != 1 for s in c.shape):
        raise Unsupported('not a single number')
    return c.read(ex, (ZERO,) * len(c.shape))

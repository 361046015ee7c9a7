"""Self-test of the ring normaliser: random terms built through its constructors mean what was asked for.

Every random expression is built twice, as a term (with all simplifications) and as a plain Python function, and both are evaluated at
random points.  The side conditions the normaliser asks about (Ctx.prove) are answered exactly for the point, by enumeration of the bound
variables.  usage: python3-vt selftest/terms_fuzz.py [count] [seed]"""
import itertools
import os
import random
import signal
import sys
from fractions import Fraction
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(2000)
from pyvc import terms as T
from pyvc import sums
from pyvc.terms import P, ZERO, ONE

INTS, REALS = ['a', 'b', 'c'], ['x', 'y']
FUNCS = {'F': lambda i: (i * 7 + 3) % 5 - 2, 'G': lambda i, j: Fraction((i * 3 + j * 5) % 7 - 3, 2), 'B': lambda i: (i * i + i // 3) % 3}


class Skip(Exception):
    pass


def late(*a):
    raise Skip


signal.signal(signal.SIGALRM, late)


class Point:
    """Answers side conditions at one point."""

    def __init__(self, env):
        self.env, self.facts, self.rng = env, [], (-12, 30)

    def prove(self, b):
        if b is T.TRUE:
            return True
        if b is T.FALSE:
            return False
        free = [a for a in T.free_vars(b) if a.key not in self.env]
        extra = [f for f in self.facts]
        for f in extra:
            free += [a for a in T.free_vars(f) if a.key not in self.env]
        free = list(dict.fromkeys(a.key for a in free))
        if len(free) > 2:
            return False
        try:
            for vals in itertools.product(range(*self.rng), repeat=len(free)):
                e = dict(self.env)
                e.update(zip(free, vals))
                if all(T.evaluate(f, e, FUNCS) for f in extra) and not T.evaluate(b, e, FUNCS):
                    return False
        except (ZeroDivisionError, KeyError):
            return False
        return True

    def assume(self, *facts):
        p = self

        class A:
            def __enter__(s):
                s.n = len(p.facts)
                p.facts += list(facts)

            def __exit__(s, *a):
                del p.facts[s.n:]
        return A()


def num(r, depth, bound, sort='int'):
    """(term, function of env)"""
    k = r.random()
    if depth <= 0 or k < .18:
        pool = INTS + bound + (REALS if sort == 'real' else [])
        if r.random() < .3:
            c = r.randint(-3, 3)
            return P(c), lambda e: c
        v = r.choice(pool)
        return T.var(v, 'real' if v in REALS else 'int'), lambda e: e[v]
    if k < .36:
        (a, f), (b, g) = num(r, depth - 1, bound, sort), num(r, depth - 1, bound, sort)
        if r.random() < .5:
            return a + b, lambda e: f(e) + g(e)
        return a - b, lambda e: f(e) - g(e)
    if k < .48:
        (a, f), (b, g) = num(r, depth - 1, bound, sort), num(r, depth - 1, bound, sort)
        return a * b, lambda e: f(e) * g(e)
    if k < .58:
        c, h = cond(r, depth - 1, bound)
        return T.ind(c), lambda e: int(h(e))
    if k < .68:
        c, h = cond(r, depth - 1, bound)
        (a, f), (b, g) = num(r, depth - 1, bound, sort), num(r, depth - 1, bound, sort)
        return T.ite(c, a, b), lambda e: f(e) if h(e) else g(e)
    if k < .74:
        (a, f), d = num(r, depth - 1, bound), r.choice([1, 2, 3, -2])
        if r.random() < .5:
            return T.fdiv(a, d), lambda e: f(e) // d
        return T.fmod(a, d), lambda e: f(e) % d
    if k < .80:
        a, f = num(r, depth - 1, bound)
        return T.app('F', (a,), 'int'), lambda e: FUNCS['F'](f(e))
    if k < .83 and sort == 'real':
        (a, f), (b, g) = num(r, depth - 1, bound), num(r, depth - 1, bound)
        return T.app('G', (a, b), 'real'), lambda e: FUNCS['G'](f(e), g(e))
    if k < .86 and sort == 'real':
        a, f = num(r, depth - 1, bound, sort)

        def inv(e):
            z = f(e)
            if z == 0:
                raise Skip
            return Fraction(1) / z
        return T.inv(a), inv
    if k < .90:
        # substitution
        v = 's%d' % r.randrange(10 ** 6)
        a, f = num(r, depth - 1, bound + [v], sort)
        b, g = num(r, depth - 2, bound)
        t = T.subst(a, {T.var(v).as_atom(): b})

        def sub(e):
            d = dict(e)
            d[v] = g(e)
            return f(d)
        return t, sub
    if len(bound) >= 2:
        return num(r, depth - 1, bound, sort)
    v = 'v%d' % r.randrange(10 ** 6)
    (lo, f), (hi, g) = num(r, 1, bound), num(r, 1, bound)
    b, h = num(r, depth - 1, bound + [v], sort)
    t = T.mksum(T.var(v).as_atom(), lo, hi, b)

    def tot(e):
        s = 0
        for q in range(int(f(e)), int(g(e))):
            d = dict(e)
            d[v] = q
            s += h(d)
        return s
    return t, tot


def cond(r, depth, bound):
    k = r.random()
    if depth > 0 and k < .35:
        (a, f), (b, g) = cond(r, depth - 1, bound), cond(r, depth - 1, bound)
        if r.random() < .5:
            return T.And(a, b), lambda e: f(e) and g(e)
        return T.Or(a, b), lambda e: f(e) or g(e)
    if depth > 0 and k < .45:
        a, f = cond(r, depth - 1, bound)
        return T.Not(a), lambda e: not f(e)
    if depth > 0 and k < .55:
        # combinations of indicators
        parts = [(r.choice([-2, -1, 1, 1, 2]), cond(r, depth - 1, bound)) for _ in range(r.randint(1, 3))]
        c0 = r.choice([0, 0, 1, -1])
        a = P(c0)
        for c, (t, h) in parts:
            a = a + T.ind(t).scale(c)

        def f(e):
            return c0 + sum(c * int(h(e)) for c, (t, h) in parts)
        return r.choice([(T.le(ZERO, a), lambda e: 0 <= f(e)), (T.lt(ZERO, a), lambda e: 0 < f(e)), (T.eq(a, ZERO), lambda e: f(e) == 0)])
    (a, f), (b, g) = num(r, depth - 1, bound), num(r, depth - 1, bound)
    if k < .65:
        return T.le(a, b), lambda e: f(e) <= g(e)
    if k < .8:
        return T.lt(a, b), lambda e: f(e) < g(e)
    return T.eq(a, b), lambda e: f(e) == g(e)


def main(count=3000, seed=1):
    r = random.Random(seed)
    done = skipped = 0
    prove0, assume0 = T.Ctx.prove, T.Ctx.assume
    try:
        while done < count:
            env = {v: r.randint(-3, 3) for v in INTS}
            env.update({v: Fraction(r.randint(-6, 6), r.choice([1, 2, 3])) for v in REALS})
            pt = Point(env)
            # without and with answers to side conditions
            if r.random() < .5:
                T.Ctx.prove, T.Ctx.assume = staticmethod(pt.prove), pt.assume
            else:
                T.Ctx.prove, T.Ctx.assume = prove0, assume0
            s0 = r.getrandbits(48)
            signal.alarm(2)
            try:
                if r.random() < .7:
                    t, f = num(random.Random(s0), r.randint(2, 5), [], r.choice(['int', 'real']))
                else:
                    t, f = cond(random.Random(s0), r.randint(2, 4), [])
                want = f(env)
                got = T.evaluate(t, env, FUNCS)
                # the simplification under the assumptions is checked as well
            except (Skip, ZeroDivisionError, RecursionError):
                skipped += 1
                continue
            except KeyError as x:
                if str(x) == "'div0'":
                    skipped += 1
                    continue
                raise
            finally:
                signal.alarm(0)
            if want != got:
                print('MISMATCH', t, 'at', env, 'want', want, 'got', got, 'seed', s0)
                return 1
            done += 1
    finally:
        T.Ctx.prove, T.Ctx.assume = prove0, assume0
    print('terms: %d random expressions agree (%d undefined ones skipped)' % (done, skipped))
    return 0


if __name__ == '__main__':
    sys.exit(main(*[int(x) for x in sys.argv[1:]]))

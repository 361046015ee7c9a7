"""Proof units: one unit executes functions of /repo against a contract and collects its obligations."""
import os
import sys
import time
import traceback
from . import terms as T
from . import smt
from .exec import Ex, Raised, Obl, Ref, View, Clo
from .heap import Unsupported, Content

UNITS = []


class UnitDef:
    def __init__(self, name, fn, targets, timeout, tier):
        self.name, self.fn, self.targets, self.timeout, self.tier = name, fn, targets, timeout, tier


def unit(name, targets=(), timeout=240, tier='quick'):
    def deco(fn):
        UNITS.append(UnitDef(name, fn, list(targets), timeout, tier))
        return fn
    return deco


class U:
    """Helper given to a unit body."""

    def __init__(self, repo, name):
        self.repo, self.name = repo, name
        self.obls = []
        self.functions = {}
        self.assumed = set()
        self.notes = []
        self.vac = 0

    def ex(self, label='', **k):
        e = Ex(self.repo, **k)
        e.label = (label + ': ') if label else ''
        e.obls = self.obls
        e.functions = self.functions
        e.assumed = self.assumed
        e.unit = self
        return e

    # -- contracts
    def fn(self, ex, path, name):
        env = ex.load(path)
        cur = env
        parts = name.split('.')
        if parts[0] not in env:
            raise Unsupported('%s is not defined in %s' % (name, path))
        v = env[parts[0]]
        for p in parts[1:]:
            r = v.lookup(p)
            if r is None:
                raise Unsupported('%s has no %s' % (name, p))
            v = r[0]
        return v

    def requires(self, ex, *facts):
        """Assume the precondition; it must be satisfiable (vacuity check)."""
        ex.st.facts += [f for f in facts if f is not T.TRUE]

    def nonvacuous(self, ex):
        r = smt.satisfiable(ex.facts())
        if r == 'unsat':
            self.obls.append(Obl(ex.label + 'precondition is satisfiable', 'vacuity', 'refuted', 'z3', 0.0, 'contradictory precondition'))
        else:
            self.vac += 1

    def call(self, ex, f, args, kwargs=None, may_raise=False):
        """Run f under its precondition; it must not raise."""
        n0 = len(ex.raises)
        self.nonvacuous(ex)
        try:
            v = ex.call(f, list(args), kwargs or {})
        except Raised as r:
            if may_raise:
                return r.exc
            ex.oblige('returns normally (raises %s)' % r.exc.name, T.FALSE, 'noraise')
            raise Unsupported('raises %s on every path' % r.exc.name)
        self.no_raise(ex, n0)
        return v

    def paths(self, ex, f, args, kwargs=None):
        """Run f; iterate over its returning paths (value), with ex.st the state at the end of each path.  No path may raise."""
        n0 = len(ex.raises)
        self.nonvacuous(ex)
        try:
            outs, env = ex.outcomes(f, list(args), kwargs or {})
        except Raised as r:
            ex.oblige('returns normally (raises %s)' % r.exc.name, T.FALSE, 'noraise')
            raise Unsupported('raises %s on every path' % r.exc.name)
        live = 0
        for st, kind, v in outs:
            st.env = env
            ex.st = st
            if kind == 'raise':
                ex.oblige('no %s' % v.name, T.FALSE, 'noraise')
                continue
            live += 1
            yield v
        self.no_raise(ex, n0)
        if not live:
            raise Unsupported('no path returns')

    def no_raise(self, ex, n0=0):
        for facts, q, exc, label in ex.raises[n0:]:
            sv = ex.st.qfacts
            ex.st.qfacts = q
            ex.oblige('no %s' % exc.name, T.FALSE, 'noraise', facts=facts)
            ex.st.qfacts = sv

    def must_raise(self, ex, f, args, kwargs=None, name='rejects'):
        self.nonvacuous(ex)
        try:
            ex.call(f, list(args), kwargs or {})
        except Raised:
            ex.oblige(name, T.TRUE, 'raise')
            return
        # some path returned: its facts must be contradictory
        ex.oblige(name, T.FALSE, 'raise')

    def eq(self, ex, name, got, want):
        """Postcondition got == want (numbers)."""
        from . import sums
        return sums.prove_eq(ex, name, T.P(got), T.P(want))

    def rational(self, ex, name, got, want, given=False):
        """Postcondition got == want, by multiplying with the denominators (each of them is shown to be nonzero, unless
        that is a precondition)."""
        p = T.P(got) - T.P(want)
        for _ in range(40):
            k, q, d = T.denominator(p)
            if q is None:
                break
            if not given:
                ex.oblige(name + ': denominator is not zero', T.Not(T.eq(q, T.ZERO)), 'post')
            p = d
        return self.eq(ex, name, p, T.ZERO)

    def elem(self, ex, name, arr, coords, want):
        c = ex.content(arr)
        if len(c.shape) != len(coords):
            ex.oblige(name + ' (rank)', T.FALSE, 'post')
            return False
        got = c.read(ex, tuple(T.P(x) for x in coords))
        return self.eq(ex, name, got, want)

    def shape(self, ex, name, arr, want):
        c = ex.content(arr)
        if len(c.shape) != len(want):
            return ex.oblige(name, T.FALSE, 'post')
        return ex.oblige(name, T.And(*[T.eq(a, T.P(b)) for a, b in zip(c.shape, want)]), 'post')

    def unchanged(self, ex, name, arr, before):
        """The array has the content it had."""
        c = ex.content(arr)
        if c is before or (c.base is before.base and len(c.log) == len(before.log)):
            return ex.oblige(name, T.TRUE, 'frame')
        co = tuple(T.fresh('c') for _ in c.shape)
        rng = []
        for x, s in zip(co, c.shape):
            rng += [T.le(T.ZERO, x), T.lt(x, s)]
        with ex.assume(*rng):
            return ex.oblige(name, T.eq(c.read(ex, co), before.read(ex, co)), 'frame')

    def holds(self, ex, name, cond, kind='post'):
        """A concrete fact about the execution (number of calls, identity of an object)."""
        if not isinstance(cond, T.Bool):
            cond = T.TRUE if cond else T.FALSE
        return ex.oblige(name, cond, kind)

    def idx(self, ex, prefix='q', lo=0, hi=None):
        x = T.var(prefix)
        fs = [T.le(T.P(lo), x)]
        if hi is not None:
            fs.append(T.lt(x, T.P(hi)))
        ex.st.facts += fs
        return x


def run_unit(u, repo='/repo'):
    """Run one unit; returns a JSON-able dict."""
    t0 = time.time()
    h = U(repo, u.name)
    for k in smt.STATS:
        smt.STATS[k] = 0
    err = None
    try:
        u.fn(h)
    except Unsupported as e:
        err = 'outside the verifier\'s reach: %s%s' % (e, ' (line %s)' % e.line if getattr(e, 'line', None) else '')
    except Raised as e:
        err = 'the code raises %s on every path' % e.exc.name
    except RecursionError:
        err = 'recursion limit'
    except Exception as e:
        err = 'generation failed: %s: %s' % (type(e).__name__, e)
        if os.environ.get('PYVC_DEBUG'):
            traceback.print_exc()
        err += ' @ ' + ' < '.join('%s:%d' % (os.path.basename(f.filename), f.lineno) for f in reversed(traceback.extract_tb(e.__traceback__)[-5:]))
    if err:
        h.obls.append(Obl('generate the obligations', 'generation', 'error', '-', 0.0, err))
    elif not h.obls:
        h.obls.append(Obl('unit produced no obligation', 'generation', 'error', '-', 0.0, 'empty unit'))
    return dict(unit=u.name, targets=u.targets, seconds=round(time.time() - t0, 3),
                functions=h.functions, assumed=sorted(h.assumed), notes=h.notes, vacuity_checks=h.vac, stats=dict(smt.STATS),
                obligations=[dict(name='%s/%s' % (u.name, o.name), kind=o.kind, status=o.status, backend=o.backend,
                                  time=round(o.time, 4), detail=o.detail) for o in h.obls])

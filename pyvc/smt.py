"""Discharging obligations: translation of terms to z3, lemma instantiation, cvc5 fall-back.

Python integers are z3 Ints, floats are z3 Reals (stated assumption), sums over a symbolic range are
uninterpreted functions of their free variables together with instantiated lemmas (empty range, one step).
"""
import time
from fractions import Fraction
import z3
from . import terms as T
from .terms import Poly, Bool, Atom

z3.set_param('smt.random_seed', 1)
RL = 4000
STATS = dict(z3_calls=0, z3_time=0.0, cvc5_calls=0, cvc5_time=0.0)

# facts about applications of a function symbol: name -> list of callables(args tuple of Poly) -> Bool
FUN_FACTS = {}


_cache = {}         # results of prove under the current FUN_FACTS


def add_fun_fact(name, fn):
    _cache.clear()
    FUN_FACTS.setdefault(name, []).append(fn)


def drop_fun_facts(n):
    """Forget the facts about fresh values numbered above n."""
    _cache.clear()
    for k in [k for k in FUN_FACTS if '~' in k and k.rsplit('~', 1)[1].isdigit() and int(k.rsplit('~', 1)[1]) > n]:
        del FUN_FACTS[k]


def reset_fun_facts():
    _cache.clear()
    FUN_FACTS.clear()


class Tr:
    def __init__(self):
        self.funcs = {}
        self.side = []
        self.cp = {}
        self.ca = {}
        self.cb = {}
        self.nq = 0

    def poly(self, p, want=None):
        """z3 term; Int if p.sort=='int' (unless want=='real')."""
        sort = p.sort
        key = (p, want)
        r = self.cp.get(key)
        if r is not None:
            return r
        if sort == 'int' and want != 'real':
            den = 1
            for _, c in p.m:
                den = T.lcm(den, c.denominator)
            acc = []
            for mon, c in p.m:
                t = None
                for a, k in mon:
                    x = self.atom(a)
                    for _ in range(k):
                        t = x if t is None else t * x
                cc = int(c * den)
                if t is None:
                    t = z3.IntVal(cc)
                elif cc != 1:
                    t = z3.IntVal(cc) * t
                acc.append(t)
            r = z3.Sum(acc) if len(acc) > 1 else (acc[0] if acc else z3.IntVal(0))
            if den != 1:
                self.nq += 1
                q = z3.Int('q!%d' % self.nq)
                self.side.append(z3.IntVal(den) * q == r)
                r = q
        else:
            acc = []
            for mon, c in p.m:
                t = None
                for a, k in mon:
                    x = self.atom(a)
                    if x.sort() == z3.IntSort():
                        x = z3.ToReal(x)
                    for _ in range(k):
                        t = x if t is None else t * x
                cv = z3.RealVal('%d/%d' % (c.numerator, c.denominator))
                if t is None:
                    t = cv
                elif c != 1:
                    t = cv * t
                acc.append(t)
            r = z3.Sum(acc) if len(acc) > 1 else (acc[0] if acc else z3.RealVal(0))
        self.cp[key] = r
        return r

    def fn(self, name, argsorts, ressort):
        k = (name, tuple(str(s) for s in argsorts), str(ressort))
        f = self.funcs.get(k)
        if f is None:
            f = z3.Function('%s/%d' % (name, len(self.funcs)), *(list(argsorts) + [ressort]))
            self.funcs[k] = f
        return f

    def zs(self, sort):
        return z3.IntSort() if sort == 'int' else z3.RealSort()

    def atom(self, a):
        r = self.ca.get(a)
        if r is not None:
            return r
        k = a.kind
        if k == 'v':
            r = z3.Int(a.key) if a.sort == 'int' else z3.Real(a.key)
        elif k == 'f':
            name, args = a.args
            zargs = [self.poly(x) for x in args]
            if not zargs:
                r = z3.Const('%s()' % name, self.zs(a.sort))
            else:
                r = self.fn(name, [x.sort() for x in zargs], self.zs(a.sort))(*zargs)
            if name == 'exp':
                self.side.append(r > 0)
            elif name == 'sqrt':
                x = self.poly(args[0], 'real')
                self.side.append(z3.Implies(x >= 0, z3.And(r >= 0, r * r == x)))
            elif name == 'binomint':
                self.side.append(r >= 0)
        elif k == 'ind':
            r = z3.If(self.bool(a.args[0]), z3.IntVal(1), z3.IntVal(0))
        elif k == 'fd':
            x, y = self.poly(a.args[0]), self.poly(a.args[1])
            c = a.args[1].const()
            if c is not None and c > 0 and x.sort() == z3.IntSort():
                r = x / y
            else:
                r = self.fn('//', [z3.IntSort(), z3.IntSort()], z3.IntSort())(x, y) if x.sort() == z3.IntSort() == y.sort() else z3.FreshInt('fd')
                self.side.append(z3.Implies(z3.And(y > 0, x >= 0), z3.And(r >= 0, (x < y) == (r == 0))))
                self.side.append(z3.Implies(y > 0, z3.And(r * y <= x, x < r * y + y)))
                self.side.append(z3.Implies(y < 0, z3.And(r * y >= x, x > r * y + y)))
        elif k == 'floor':
            r = z3.ToInt(self.poly(a.args[0], 'real'))
        elif k == 'inv':
            x = self.poly(a.args[0], 'real')
            r = z3.Real('inv!' + a.args[0].key)
            self.side.append(z3.Implies(x != 0, x * r == 1))
        elif k in ('sum', 'prod'):
            r = self.big(a)
        else:
            raise AssertionError(k)
        self.ca[a] = r
        return r

    def big(self, a):
        bv, lo, hi, body = a.args
        fvs = sorted((x for x in T.all_atoms(a) if x.kind == 'v' and x is not bv
                      and not _bound_inside(x, a)), key=lambda x: x.key)
        # canonical skeleton: variables replaced by positions
        ren = {x: T.var('$%d' % i, x.sort) for i, x in enumerate(fvs)}
        skel = T.subst(T.P(a), ren)
        zargs = [self.atom(x) for x in fvs]
        name = '%s<%s>' % (a.kind, skel.key)
        if not zargs:
            r = z3.Const(name, self.zs(a.sort))
        else:
            r = self.fn(name, [x.sort() for x in zargs], self.zs(a.sort))(*zargs)
        if not any(x.kind == 'v' and x.key.startswith('#') for x in fvs):
            h = self.poly(hi)
            if a.kind == 'sum':
                self.side.append(z3.Implies(h <= 0, r == 0))
                if _nonneg(body):
                    self.side.append(r >= 0)
                    if _indicator(body):
                        self.side.append(z3.Implies(h >= 0, r <= h))
        return r

    def bool(self, b):
        r = self.cb.get(b)
        if r is not None:
            return r
        k = b.kind
        if k == 'true':
            r = z3.BoolVal(True)
        elif k == 'false':
            r = z3.BoolVal(False)
        elif k == 'not':
            r = z3.Not(self.bool(b.args[0]))
        elif k == 'and':
            r = z3.And([self.bool(x) for x in b.args])
        elif k == 'or':
            r = z3.Or([self.bool(x) for x in b.args])
        elif k == 'ge':
            r = self.cmp(b.args[0], 'ge')
        elif k == 'gt':
            r = self.cmp(b.args[0], 'gt')
        elif k == 'eq':
            r = self.cmp(b.args[0], 'eq')
        elif k == 'bf':
            zargs = [self.poly(x) for x in b.args[1]]
            if not zargs:
                r = z3.Bool(b.args[0])
            else:
                r = self.fn('?' + b.args[0], [x.sort() for x in zargs], z3.BoolSort())(*zargs)
        else:
            raise AssertionError(k)
        self.cb[b] = r
        return r

    def cmp(self, p, k):
        # split positive and negative parts for readability of linear arithmetic
        den = 1
        for _, c in p.m:
            den = T.lcm(den, c.denominator)
        p = p.scale(den)
        x = self.poly(p)
        z = z3.IntVal(0) if x.sort() == z3.IntSort() else z3.RealVal(0)
        return {'ge': x >= z, 'gt': x > z, 'eq': x == z}[k]


def _bound_inside(x, a):
    """x is a '#k' variable bound by a sum inside (or at) a."""
    if not x.key.startswith('#'):
        return False
    for y in T.all_atoms(a):
        if y.kind in ('sum', 'prod') and y.args[0] is x:
            return True
    return False


def _nonneg(p):
    for mon, c in p.m:
        if c < 0:
            return False
        for a, k in mon:
            if k % 2 and not (a.kind == 'ind' or (a.kind == 'f' and a.args[0] == 'exp')):
                return False
    return True


def _indicator(p):
    """body is an indicator (0/1): one monomial of indicator atoms with coefficient 1."""
    if len(p.m) != 1:
        return False
    (mon, c), = p.m
    return c == 1 and all(a.kind == 'ind' for a, k in mon)


def collect_side_facts(ts):
    """Instances of FUN_FACTS for every application in the given terms (two rounds)."""
    out = []
    seen = set()
    work = list(ts)
    for _ in range(2):
        new = []
        for t in work:
            for a in T.all_atoms(t, under_binders=False):
                if a.kind == 'f' and a.args[0] in FUN_FACTS and a not in seen:
                    seen.add(a)
                    if any('#' in x.key for x in a.args[1]):
                        continue
                    for fn in FUN_FACTS[a.args[0]]:
                        b = fn(*a.args[1])
                        if b is not None and b is not T.TRUE:
                            new.append(b)
        out += new
        work = new
        if not new:
            break
    return out


def relevant(goal, facts):
    names = set(a.key for a in T.all_atoms(goal) if a.kind in ('v',) or (a.kind == 'f'))
    if not names:
        return list(facts)
    fn = [(f, set(a.key for a in T.all_atoms(f) if a.kind in ('v',) or a.kind == 'f')) for f in facts]
    use = []
    ch = True
    while ch:
        ch = False
        rest = []
        for f, ks in fn:
            if not ks or ks & names:
                names |= ks
                use.append(f)
                ch = True
            else:
                rest.append((f, ks))
        fn = rest
    return use


class Result:
    __slots__ = ('ok', 'status', 'model', 'time', 'backend')

    def __init__(self, ok, status, model=None, time_=0.0, backend='ring'):
        self.ok, self.status, self.model, self.time, self.backend = ok, status, model, time_, backend


def prove(goal, facts=(), timeout=3000, want_model=False, fallback=False):
    """Valid(facts -> goal)?"""
    goal = T.B(goal)
    if goal is T.TRUE:
        return Result(True, 'proved')
    facts = [f for f in facts if f is not T.TRUE]
    if goal in facts or T.FALSE in facts:
        return Result(True, 'proved')
    if goal.kind == 'and':
        for g in goal.args:
            r = prove(g, facts, timeout, want_model, fallback)
            if not r.ok:
                return r
        return r
    key = (goal, frozenset(facts))
    r = _cache.get(key)
    if r is not None and (r.ok or not want_model) and (r.ok or not fallback):
        return r
    use = relevant(goal, facts)
    use = use + collect_side_facts(list(use) + [goal])
    tr = Tr()
    s = z3.Solver()
    s.set('rlimit', timeout * RL)       # deterministic budget: the result does not depend on the machine's speed
    s.set('timeout', timeout * (20 if timeout > 1000 else 5))
    g = tr.bool(goal)
    fs = [tr.bool(f) for f in use]
    s.add(*fs)
    s.add(*tr.side)
    s.add(z3.Not(g))
    t0 = time.time()
    c = s.check()
    dt = time.time() - t0
    STATS['z3_calls'] += 1
    STATS['z3_time'] += dt
    if c == z3.unsat:
        r = Result(True, 'proved', None, dt, 'z3')
    elif c == z3.sat:
        r = Result(False, 'refuted', _model(s.model()) if want_model else None, dt, 'z3')
    else:
        r = Result(False, 'unknown', s.reason_unknown(), dt, 'z3')
        if fallback:
            r2 = cvc5_check(s, timeout * 3)
            if r2 is not None:
                r = r2
    _cache[key] = r
    return r


def _model(m):
    out = {}
    for d in m.decls():
        try:
            out[d.name()] = str(m[d])[:200]
        except Exception:
            pass
    return out


def cvc5_check(s, timeout):
    import subprocess
    txt = '(set-logic ALL)\n' + s.to_smt2()
    t0 = time.time()
    try:
        pr = subprocess.run(['cvc5', '--lang=smt2', '--tlimit=%d' % timeout, '-'], input=txt,
                            capture_output=True, text=True, timeout=timeout / 1000 + 5)
        out = pr.stdout.strip().splitlines()
    except Exception:
        return None
    dt = time.time() - t0
    STATS['cvc5_calls'] += 1
    STATS['cvc5_time'] += dt
    if out and out[0] == 'unsat':
        return Result(True, 'proved', None, dt, 'cvc5')
    if out and out[0] == 'sat':
        return Result(False, 'refuted', None, dt, 'cvc5')
    return None


def satisfiable(facts, timeout=5000):
    """'sat' / 'unsat' / 'unknown' for a set of facts (vacuity check)."""
    tr = Tr()
    s = z3.Solver()
    s.set('rlimit', timeout * RL)
    s.set('timeout', timeout * (20 if timeout > 1000 else 5))
    fs = list(facts) + collect_side_facts(list(facts))
    s.add(*[tr.bool(f) for f in fs])
    s.add(*tr.side)
    c = s.check()
    return 'sat' if c == z3.sat else 'unsat' if c == z3.unsat else 'unknown'

"""Term language of the verification-condition generator.

Numeric terms are polynomials with rational coefficients over *atoms*; they are kept in canonical
form, so two terms that are equal by ring arithmetic are the same object structure.  Atoms are
variables, uninterpreted applications (array reads, exp, log ...), sums over an integer range
(with a bound variable), if-then-else, floor division and modulo, and reciprocals.

Boolean terms are normalised comparisons of polynomials with 0, closed under not/and/or.
"""
from fractions import Fraction
from itertools import count

_fresh = count(1)


def lcm(a, b):
    from math import gcd
    return a * b // gcd(a, b)


class Atom:
    __slots__ = ('kind', 'args', 'sort', 'key', 'height', '_hash', '_fv')
    _table = {}

    def __repr__(self):
        return self.key


def _mk(kind, args, sort, key, height):
    a = Atom._table.get((key, sort))
    if a is None:
        a = Atom()
        a.kind, a.args, a.sort, a.key, a.height = kind, args, sort, key, height
        a._hash = hash((key, sort))
        a._fv = None
        Atom._table[(key, sort)] = a
    return a


class Poly:
    """Canonical polynomial.  m: tuple of (monomial, Fraction), monomial: tuple of (Atom, power)."""
    __slots__ = ('m', 'key', '_hash', 'height')
    _table = {}

    def __new__(cls, terms):
        t = [(mon, c) for mon, c in terms.items() if c != 0]
        t.sort(key=lambda mc: _mkey(mc[0]))
        key = _pkey(t)
        p = cls._table.get(key)
        if p is None:
            p = object.__new__(cls)
            p.m = tuple(t)
            p.key = key
            p._hash = hash(key)
            p.height = max([a.height for mon, _ in t for a, _ in mon], default=0)
            cls._table[key] = p
        return p

    def __hash__(self):
        return self._hash

    def __eq__(self, o):
        return self is o

    def __ne__(self, o):
        return self is not o

    def __repr__(self):
        return self.key

    # -- inspection
    @property
    def sort(self):
        for mon, c in self.m:
            if c.denominator != 1:
                if not intvalued(self):
                    return 'real'
            for a, _ in mon:
                if a.sort == 'real':
                    return 'real'
        return 'int'

    def is_const(self):
        return not self.m or (len(self.m) == 1 and self.m[0][0] == ())

    def const(self):
        """Value if constant else None."""
        if not self.m:
            return Fraction(0)
        if len(self.m) == 1 and self.m[0][0] == ():
            return self.m[0][1]
        return None

    def atoms(self):
        s = []
        seen = set()
        for mon, _ in self.m:
            for a, _ in mon:
                if a not in seen:
                    seen.add(a)
                    s.append(a)
        return s

    def as_atom(self):
        if len(self.m) == 1 and self.m[0][1] == 1 and len(self.m[0][0]) == 1 and self.m[0][0][0][1] == 1:
            return self.m[0][0][0][0]
        return None

    # -- arithmetic
    def __add__(self, o):
        o = P(o)
        d = dict(self.m)
        for mon, c in o.m:
            d[mon] = d.get(mon, 0) + c
        return Poly(d)
    __radd__ = __add__

    def __neg__(self):
        return Poly({mon: -c for mon, c in self.m})

    def __sub__(self, o):
        return self + (-P(o))

    def __rsub__(self, o):
        return P(o) - self

    def __mul__(self, o):
        o = P(o)
        d = {}
        for m1, c1 in self.m:
            for m2, c2 in o.m:
                r = _mulmon(m1, m2)
                if isinstance(r, Poly):
                    for m3, c3 in r.m:
                        d[m3] = d.get(m3, 0) + c1 * c2 * c3
                else:
                    d[r] = d.get(r, 0) + c1 * c2
        return Poly(d)
    __rmul__ = __mul__

    def scale(self, c):
        return Poly({mon: k * c for mon, k in self.m})

    def __truediv__(self, o):
        return self * inv(P(o))

    def __rtruediv__(self, o):
        return P(o) / self

    def __pow__(self, k):
        r = ONE
        for _ in range(k):
            r = r * self
        return r

    # comparisons build boolean terms
    def __lt__(self, o): return lt(self, P(o))
    def __le__(self, o): return le(self, P(o))
    def __gt__(self, o): return lt(P(o), self)
    def __ge__(self, o): return le(P(o), self)
    def eq(self, o): return eq(self, P(o))
    def ne(self, o): return Not(eq(self, P(o)))


def _mkey(mon):
    return tuple((a.key, p) for a, p in mon)


def _pkey(t):
    if not t:
        return '0'
    out = []
    for mon, c in t:
        s = '*'.join(a.key if p == 1 else '%s^%d' % (a.key, p) for a, p in mon)
        if not s:
            out.append(str(c))
        elif c == 1:
            out.append(s)
        else:
            out.append('%s*%s' % (c, s))
    return '(' + ' + '.join(out) + ')' if len(out) > 1 else out[0]


def _mulmon(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = {}
    for a, p in m1 + m2:
        d[a] = d.get(a, 0) + p
    # inv(x)*x -> 1 when x is an atom (x != 0 is a side condition recorded by the caller of '/')
    for a in list(d):
        if a.kind == 'inv':
            b = a.args[0].as_atom()
            if b is not None and b in d:
                k = min(d[a], d[b])
                d[a] -= k
                d[b] -= k
    # exp(a)*exp(b) -> exp(a+b)
    es = [a for a in d if a.kind == 'f' and a.args[0] == 'exp' and d[a] > 0]
    if sum(d[a] for a in es) > 1:
        tot = ZERO
        for a in es:
            tot = tot + a.args[1][0].scale(d[a])
            del d[a]
        rest = tuple(sorted(((a, p) for a, p in d.items() if p), key=lambda ap: ap[0].key))
        e = fexp(tot)
        return Poly({rest: Fraction(1)}) * e
    return tuple(sorted(((a, p) for a, p in d.items() if p), key=lambda ap: ap[0].key))


def P(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, Atom):
        return Poly({((x, 1),): Fraction(1)})
    if isinstance(x, bool):
        return Poly({(): Fraction(int(x))})
    if isinstance(x, (int, Fraction)):
        return Poly({(): Fraction(x)})
    if isinstance(x, float):
        return Poly({(): Fraction(x)})   # exact binary value (the real number the literal denotes)
    if isinstance(x, Bool):
        return ite(x, ONE, ZERO)
    raise TypeError('not a numeric term: %r' % (x,))


# ---------------------------------------------------------------- atoms
def var(name, sort='int'):
    return P(_mk('v', (name,), sort, name, 0))


def fresh(prefix='t', sort='int'):
    return var('%s!%d' % (prefix, next(_fresh)), sort)


def app(fname, args, sort='real'):
    args = tuple(P(a) for a in args)
    key = '%s(%s)' % (fname, ','.join(a.key for a in args))
    return P(_mk('f', (fname, args), sort, key, max([a.height for a in args], default=0)))


def power(a, b):
    """a**b for a symbolic exponent; positive integer constants in an integer exponent are split off: a**(e+c) = a**c * a**e."""
    a, b = P(a), P(b)
    sort = 'int' if a.sort == 'int' and b.sort == 'int' else 'real'
    if b.sort == 'int':
        c = dict(b.m).get((), 0)
        if b.const() is not None and 0 <= c <= 8:
            return a ** int(c)
        if 0 < c <= 8 and c.denominator == 1:
            return (a ** int(c)) * app('pow', (a, b - P(c)), sort)
    return app('pow', (a, b), sort)


def pow_facts(a, b):
    """Instances about the term a**b for integer b."""
    if b.sort != 'int':
        return None
    p = app('pow', (a, b), 'int' if a.sort == 'int' else 'real')
    fs = [Or(lt(b, ZERO), lt(a, ONE), ge0(p - ONE)), Or(Not(eq(b, ZERO)), eq(p, ONE))]
    c = dict(b.m).get((), 0)
    if c < 0 and c.denominator == 1 and -c <= 8:
        fs.append(Or(lt(b, ZERO), eq((a ** int(-c)) * p, power(a, b - P(c)))))
    return And(*fs)


def fexp(p):
    p = P(p)
    if p.const() == 0:
        return ONE
    infs = [(mon, c) for mon, c in p.m if any(_inf(a) for a, k in mon)]
    if infs:
        ends = [(mon, c) for mon, c in infs if len(mon) == 1 and mon[0][1] == 1]
        inds = [a for mon, c in infs for a, k in mon if a.kind == 'ind']
        if inds:
            # exp of a number that is infinite only under a condition: by cases of the condition
            c = inds[0].args[0]
            return ind(c) * fexp(subst_ind(p, c, True)) + (ONE - ind(c)) * fexp(subst_ind(p, c, False))
        if len(infs) == 1 and ends and ends[0][1] < 0:
            return ZERO
    for mon, c in p.m:
        # exp(k log z + r) = z^k exp(r) for an integer k and a positive z
        if len(mon) == 1 and mon[0][1] == 1 and mon[0][0].kind == 'f' and mon[0][0].args[0] == 'log' and c.denominator == 1 and abs(c) <= 4 \
                and (positive(mon[0][0].args[1][0]) or Ctx.prove(lt(ZERO, mon[0][0].args[1][0]))):
            z = mon[0][0].args[1][0]
            r = fexp(p - Poly({mon: c}))
            f = z if c > 0 else inv(z)
            for _ in range(abs(int(c))):
                r = r * f
            return r
    return app('exp', (p,), 'real')


def _inf(a):
    return a.kind == 'f' and a.args[0] == 'inf'


def subst_ind(p, c, value):
    """p where the condition c is known: its indicator is 1 or 0."""
    r = ZERO
    for mon, k in p.m:
        q, gone = [], False
        for a, e in mon:
            if a.kind == 'ind' and a.args[0] is c:
                gone = gone or not value
            else:
                q.append((a, e))
        if not gone:
            r = r + Poly({tuple(q): k})
    return r


def positive(z):
    """Syntactically positive: (non-empty) sums of exponentials and positive constants with positive coefficients."""
    for mon, c in z.m:
        if c <= 0:
            return False
        for a, k in mon:
            if not (a.kind == 'f' and (a.args[0] == 'exp' or Ctx.prove(lt(ZERO, P(a))))) and not (a.kind == 'sum' and _positive_sum(a)) \
                    and not (a.kind == 'inv' and positive(a.args[0])):
                return False
    return bool(z.m)


def _positive_sum(a):
    v, lo, hi, body = a.args
    if P(hi).const() is None and not Ctx.prove(lt(lo, hi)):
        return False
    w = fresh('p')
    with Ctx.assume(le(lo, w), lt(w, hi)):
        return positive(subst(body, {v: w}))


def flog(p):
    p = P(p)
    if p.const() == 1:
        return ZERO
    a = p.as_atom()
    if a is not None and a.kind == 'f' and a.args[0] == 'exp':
        return a.args[1][0]
    # log(exp(x)*y) is only split by the caller's axioms
    return app('log', (p,), 'real')


def _common_exp(p):
    """p = exp(e) * q where e is common to the exponents of all monomials; None when there is none."""
    com, parts = None, []
    for mon, c in p.m:
        ex = [a for a, k in mon if a.kind == 'f' and a.args[0] == 'exp']
        if len(ex) != 1 or dict(mon)[ex[0]] != 1:
            return None
        e = ex[0].args[1][0]
        parts.append((mon, c, ex[0], e))
        items = set(e.m)
        com = items if com is None else com & items
        if not com:
            return None
    e = Poly(dict(com))
    q = ZERO
    for mon, c, a, x in parts:
        q = q + Poly({tuple(y for y in mon if y[0] is not a): c}) * fexp(x - e)
    return e, q


def inv(p):
    """1/p; p != 0 is a side condition of the use."""
    p = P(p)
    c = p.const()
    if c is not None:
        if c == 0:
            return app('div0', (), 'real')
        return P(Fraction(1) / c)
    if len(p.m) == 1:
        mon, c = p.m[0]
        r = P(Fraction(1) / c)
        for a, k in mon:
            if a.kind == 'inv':
                f = a.args[0]
            elif a.kind == 'f' and a.args[0] == 'exp':
                f = fexp(-a.args[1][0])
            else:
                f = P(_mk('inv', (P(a),), 'real', 'inv(%s)' % a.key, a.height))
            for _ in range(k):
                r = r * f
        return r
    com = _common_exp(p)
    if com is not None:
        return inv(com[1]) * fexp(-com[0])
    # normalise leading coefficient
    lead = p.m[0][1]
    q = p.scale(1 / lead)
    return P(_mk('inv', (q,), 'real', 'inv(%s)' % q.key, q.height)).scale(1 / lead)


def ite(c, a, b):
    a, b = P(a), P(b)
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.kind == 'not':
        c, a, b = c.args[0], b, a
    # canonical: pull out the common part so that ite(c, x+1, x) = x + ite(c,1,0)
    if b is not ZERO:
        return b + ite(c, a - b, ZERO)
    sort = a.sort
    # split monomials: ite(c, u+v, 0) = ite(c,u,0)+ite(c,v,0); coefficients out
    if len(a.m) > 1 or a.m[0][1] != 1:
        r = ZERO
        for mon, k in a.m:
            r = r + _ite1(c, Poly({mon: Fraction(1)})).scale(k)
        return r
    return _ite1(c, a)


def _ite1(c, a):
    """ite(c, monomial, 0) = [c] * monomial, with [c] an indicator atom."""
    return ind(c) * a


def ind(c):
    if c is TRUE:
        return ONE
    if c is FALSE:
        return ZERO
    if c.kind == 'not':
        return ONE - ind(c.args[0])
    if c.kind == 'and':
        r = ONE
        for x in c.args:
            r = r * ind(x)
        return r
    if c.kind == 'or':
        r = ONE
        for x in c.args:
            r = r * (ONE - ind(x))
        return ONE - r
    return P(_mk('ind', (c,), 'int', '[%s]' % c.key, c.height))


def fdiv(a, b):
    a, b = P(a), P(b)
    ca, cb = a.const(), b.const()
    if ca is not None and cb is not None and cb != 0:
        return P(ca // cb)
    if cb is not None and cb != 0:
        q = a.scale(1 / cb)
        if intvalued(q):
            return q
        # split the part that divides exactly
        ex, rem = {}, {}
        for mon, c in a.m:
            if (c / cb).denominator == 1 and all(x.sort == 'int' for x, _ in mon):
                ex[mon] = c / cb
            else:
                rem[mon] = c
        if ex:
            return Poly(ex) + fdiv(Poly(rem), b)
    else:
        # (k*b + r) // b
        ba = b.as_atom()
        if ba is not None:
            ex, rem = {}, {}
            for mon, c in a.m:
                pw = dict(mon).get(ba, 0)
                if pw >= 1 and c.denominator == 1 and all(x.sort == 'int' for x, _ in mon):
                    nm = tuple((x, p - (1 if x is ba else 0)) for x, p in mon if not (x is ba and p == 1))
                    ex[nm] = ex.get(nm, 0) + c
                else:
                    rem[mon] = c
            if ex:
                return Poly(ex) + fdiv(Poly(rem), b)
            if not a.m:
                return ZERO
    return P(_mk('fd', (a, b), 'int', '(%s//%s)' % (a.key, b.key), max(a.height, b.height)))


def fmod(a, b):
    a, b = P(a), P(b)
    return a - b * fdiv(a, b)


def floor_(p):
    p = P(p)
    if p.sort == 'int':
        return p
    c = p.const()
    if c is not None:
        return P(c.numerator // c.denominator)
    return P(_mk('floor', (p,), 'int', 'floor(%s)' % p.key, p.height))


def intvalued(p):
    """Is the polynomial integer-valued for all integer values of its atoms?  (decided exactly)"""
    den = 1
    for mon, c in p.m:
        den = lcm(den, c.denominator)
        for a, _ in mon:
            if a.sort != 'int':
                return False
    if den == 1:
        return True
    # a polynomial is integer-valued on Z^m iff it is on the grid 0..deg in each variable (forward differences)
    ats = p.atoms()
    deg = [max(k for mon, _ in p.m for x, k in mon if x is a) for a in ats]
    sz = 1
    for d in deg:
        sz *= d + 1
    if sz > 5000:
        return False
    r = _IV.get(p)
    if r is not None:
        return r
    from itertools import product
    ok = True
    for vals in product(*[range(d + 1) for d in deg]):
        d = dict(zip(ats, vals))
        s = Fraction(0)
        for mon, c in p.m:
            t = c
            for a, k in mon:
                t = t * d[a] ** k
            s += t
        if s.denominator != 1:
            ok = False
            break
    _IV[p] = ok
    return ok


_IV = {}


# ---------------------------------------------------------------- booleans
class Bool:
    __slots__ = ('kind', 'args', 'key', 'height', '_hash')
    _table = {}

    def __hash__(self):
        return self._hash

    def __eq__(self, o):
        return self is o

    def __ne__(self, o):
        return self is not o

    def __repr__(self):
        return self.key

    def __bool__(self):
        raise TypeError('symbolic boolean used as a Python bool: %s' % self.key)

    def __and__(self, o): return And(self, o)
    def __or__(self, o): return Or(self, o)
    def __invert__(self): return Not(self)


def _mkb(kind, args, key, height):
    b = Bool._table.get(key)
    if b is None:
        b = object.__new__(Bool)
        b.kind, b.args, b.key, b.height = kind, args, key, height
        b._hash = hash(key)
        Bool._table[key] = b
    return b


TRUE = _mkb('true', (), 'T', 0)
FALSE = _mkb('false', (), 'F', 0)


def B(x):
    if isinstance(x, Bool):
        return x
    if x is True:
        return TRUE
    if x is False:
        return FALSE
    raise TypeError('not a boolean term: %r' % (x,))


def Not(b):
    b = B(b)
    if b is TRUE:
        return FALSE
    if b is FALSE:
        return TRUE
    if b.kind == 'not':
        return b.args[0]
    if b.kind == 'ge':      # not p>=0  ->  p<0
        p = b.args[0]
        if p.sort == 'int':
            return ge0(-p - 1)
        return gt0(-p)
    if b.kind == 'gt':
        return ge0(-b.args[0])
    if b.kind == 'and':
        return Or(*[Not(x) for x in b.args])
    if b.kind == 'or':
        return And(*[Not(x) for x in b.args])
    return _mkb('not', (b,), '!%s' % b.key, b.height)


def And(*bs):
    out = []
    for b in bs:
        b = B(b)
        if b is FALSE:
            return FALSE
        if b is TRUE:
            continue
        for x in (b.args if b.kind == 'and' else (b,)):
            if x not in out:
                out.append(x)
    if not out:
        return TRUE
    for x in out:
        if Not(x) in out:
            return FALSE
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda x: x.key)
    return _mkb('and', tuple(out), '(' + ' & '.join(x.key for x in out) + ')', max(x.height for x in out))


def Or(*bs):
    out = []
    for b in bs:
        b = B(b)
        if b is TRUE:
            return TRUE
        if b is FALSE:
            continue
        for x in (b.args if b.kind == 'or' else (b,)):
            if x not in out:
                out.append(x)
    if not out:
        return FALSE
    for x in out:
        if Not(x) in out:
            return TRUE
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda x: x.key)
    return _mkb('or', tuple(out), '(' + ' | '.join(x.key for x in out) + ')', max(x.height for x in out))


def Implies(a, b):
    return Or(Not(a), b)


def _norm(p):
    """Scale to integer coprime coefficients with positive leading coefficient magnitude kept."""
    from math import gcd
    den = 1
    for _, c in p.m:
        den = lcm(den, c.denominator)
    g = 0
    for _, c in p.m:
        g = gcd(g, int(c * den))
    if g == 0:
        return p
    return p.scale(Fraction(den, g))


def _of_ind(p, test):
    """A condition on a*[c]+b is c, its negation, true or false."""
    m = p.m
    if len(m) > 2:
        return None
    a, b, k = None, 0, None
    for mon, c in m:
        if not mon:
            b = c
        elif a is None and len(mon) == 1 and mon[0][1] == 1 and mon[0][0].kind == 'ind':
            a, k = mon[0][0], c
        else:
            return None
    if a is None:
        return None
    one, zero = test(k + b), test(b)
    if one and zero:
        return TRUE
    if not one and not zero:
        return FALSE
    return a.args[0] if one else Not(a.args[0])


def ge0(p):
    c = p.const()
    if c is not None:
        return TRUE if c >= 0 else FALSE
    r = _of_ind(p, lambda x: x >= 0)
    if r is not None:
        return r
    from math import gcd
    isint = p.sort == 'int'
    if isint:
        # make coprime excluding the constant (integer tightening)
        den = 1
        for _, k in p.m:
            den = lcm(den, k.denominator)
        p = p.scale(den)
        g = 0
        for mon, k in p.m:
            if mon:
                g = gcd(g, int(k))
        if g > 1:
            d = {}
            for mon, k in p.m:
                d[mon] = k / g if mon else Fraction(int(k) // g)
            p = Poly(d)
    else:
        p = _norm(p)
    return _mkb('ge', (p,), '%s>=0' % p.key, p.height)


def gt0(p):
    c = p.const()
    if c is not None:
        return TRUE if c > 0 else FALSE
    r = _of_ind(p, lambda x: x > 0)
    if r is not None:
        return r
    if p.sort == 'int':
        den = 1
        for _, k in p.m:
            den = lcm(den, k.denominator)
        return ge0(p.scale(den) - 1)
    p = _norm(p)
    return _mkb('gt', (p,), '%s>0' % p.key, p.height)


def le(a, b): return ge0(P(b) - P(a))
def lt(a, b): return gt0(P(b) - P(a))


def eq(a, b):
    p = P(a) - P(b)
    c = p.const()
    if c is not None:
        return TRUE if c == 0 else FALSE
    r = _of_ind(p, lambda x: x == 0)
    if r is not None:
        return r
    p = _norm(p)
    if p.m[0][1] < 0:
        p = -p
    return _mkb('eq', (p,), '%s==0' % p.key, p.height)


def ne0(p):
    return Not(eq(p, 0))


def bapp(fname, args):
    args = tuple(P(a) for a in args)
    key = '%s?(%s)' % (fname, ','.join(a.key for a in args))
    return _mkb('bf', (fname, args), key, max([a.height for a in args], default=0))


def bvar(name):
    return bapp(name, ())


ZERO = Poly({})
ONE = Poly({(): Fraction(1)})


# ---------------------------------------------------------------- substitution / traversal
def subst(t, d):
    """Substitute variables (Atoms of kind 'v' -> Poly) in a Poly or Bool."""
    if not d:
        return t
    memo = {}
    names = set(a.key for a in d)

    def sp(p):
        r = memo.get(p)
        if r is not None:
            return r
        if not any(n in p.key for n in names):
            memo[p] = p
            return p
        out = ZERO
        for mon, c in p.m:
            acc = P(c)
            for a, k in mon:
                x = sa(a)
                for _ in range(k):
                    acc = acc * x
            out = out + acc
        memo[p] = out
        return out

    def sa(a):
        k = a.kind
        r = d.get(a)
        if r is not None:
            return r
        if k == 'v':
            return P(a)
        if not any(n in a.key for n in names):
            return P(a)
        if k == 'f':
            f, args = a.args
            nargs = tuple(sp(x) for x in args)
            if f == 'exp':
                return fexp(nargs[0])
            if f == 'log':
                return flog(nargs[0])
            return app(f, nargs, a.sort)
        if k == 'inv':
            return inv(sp(a.args[0]))
        if k == 'ind':
            return ind(sb(a.args[0]))
        if k == 'fd':
            return fdiv(sp(a.args[0]), sp(a.args[1]))
        if k == 'floor':
            return floor_(sp(a.args[0]))
        if k in ('sum', 'prod'):
            bv, lo, hi, body = a.args
            v = fresh('b')
            body2 = subst(body, {bv: v})
            body2 = sp(body2)
            f = mksum if k == 'sum' else mkprod
            return f(v.as_atom(), sp(lo), sp(hi), body2)
        raise AssertionError(k)

    def sb(b):
        r = memo.get(b)
        if r is not None:
            return r
        k = b.kind
        if k in ('true', 'false'):
            r = b
        elif k == 'not':
            r = Not(sb(b.args[0]))
        elif k == 'and':
            r = And(*[sb(x) for x in b.args])
        elif k == 'or':
            r = Or(*[sb(x) for x in b.args])
        elif k == 'ge':
            r = ge0(sp(b.args[0]))
        elif k == 'gt':
            r = gt0(sp(b.args[0]))
        elif k == 'eq':
            r = eq(sp(b.args[0]), ZERO)
        elif k == 'bf':
            r = bapp(b.args[0], tuple(sp(x) for x in b.args[1]))
        else:
            raise AssertionError(k)
        memo[b] = r
        return r

    return sp(t) if isinstance(t, Poly) else sb(t)


def all_atoms(t, under_binders=True, acc=None):
    """All atoms occurring in a Poly/Bool (recursively)."""
    if acc is None:
        acc = {}
    seen = set()

    def wp(p):
        if p in seen:
            return
        seen.add(p)
        for mon, _ in p.m:
            for a, _ in mon:
                wa(a)

    def wa(a):
        if a in acc:
            return
        acc[a] = True
        k = a.kind
        if k == 'f':
            for x in a.args[1]:
                wp(x)
        elif k in ('inv', 'floor'):
            wp(a.args[0])
        elif k == 'ind':
            wb(a.args[0])
        elif k == 'fd':
            wp(a.args[0]); wp(a.args[1])
        elif k in ('sum', 'prod'):
            wp(a.args[1]); wp(a.args[2])
            if under_binders:
                wp(a.args[3])

    def wb(b):
        if b in seen:
            return
        seen.add(b)
        if b.kind in ('not', 'and', 'or'):
            for x in b.args:
                wb(x)
        elif b.kind in ('ge', 'gt', 'eq'):
            wp(b.args[0])
        elif b.kind == 'bf':
            for x in b.args[1]:
                wp(x)
    if isinstance(t, Poly):
        wp(t)
    elif isinstance(t, Atom):
        wa(t)
    else:
        wb(t)
    return acc


def free_vars(t):
    """Free variables (atoms of kind 'v' that are not bound)."""
    return {a for a in all_atoms(t) if a.kind == 'v' and not a.key.startswith('#')}


def occurs(a, t):
    if a.key not in t.key:
        return False
    return a in all_atoms(t)


# ---------------------------------------------------------------- sums
def _close(v, body):
    h = body.height
    bv = _mk('v', ('#%d' % (h + 1),), 'int', '#%d' % (h + 1), 0)
    return bv, subst(body, {v: P(bv)}), h + 1


_faul_cache = {}


def faulhaber(k):
    """Coefficients of sum_{t=0}^{x-1} t^k as a polynomial in x."""
    if k in _faul_cache:
        return _faul_cache[k]
    # solve by interpolation of degree k+1 through k+2 points
    n = k + 2
    xs = list(range(n))
    ys = [Fraction(sum(t ** k for t in range(x))) if x > 0 else Fraction(0) for x in xs]
    # 0**0 == 1 in Python: for k=0, sum = x, fine
    coeffs = [Fraction(0)] * n
    for i in range(n):
        num = [Fraction(1)]
        den = Fraction(1)
        for j in range(n):
            if j == i:
                continue
            num = [Fraction(0)] + num
            for q in range(len(num) - 1):
                num[q] -= xs[j] * num[q + 1]
            den *= xs[i] - xs[j]
        for q in range(len(num)):
            coeffs[q] += ys[i] * num[q] / den
    _faul_cache[k] = coeffs
    return coeffs


# A hook installed by the prover: proves a Bool under the current context (used only to decide side
# conditions of rewriting such as lo <= hi).
class _NoAssume:
    def __init__(self, *a):
        pass

    def __enter__(self):
        pass

    def __exit__(self, *a):
        pass


class Ctx:
    prove = staticmethod(lambda b: b is TRUE)
    assume = _NoAssume


def _rangepoly(lo, hi):
    """number of iterations of range(lo,hi)."""
    if Ctx.prove(le(lo, hi)):
        return hi - lo
    if Ctx.prove(le(hi, lo)):
        return ZERO
    return ite(le(lo, hi), hi - lo, ZERO)


def mksum(v, lo, hi, body):
    """sum_{v in [lo,hi)} body; v is a variable Atom."""
    lo, hi, body = P(lo), P(hi), P(body)
    if body is ZERO:
        return ZERO
    n = (hi - lo).const()
    if n is not None:
        if n <= 0:
            return ZERO
        if n <= 6:
            r = ZERO
            for q in range(int(n)):
                r = r + subst(body, {v: lo + q})
            return r
    out = ZERO
    rest = {}
    for mon, c in body.m:
        inside, outside = [], []
        free = ONE
        for a, k in mon:
            if a.kind == 'f' and a.args[0] == 'exp' and occurs(a=v, t=a):
                # exp(x + y) = exp(x) exp(y): the part of the exponent that does not vary goes out of the sum
                p = a.args[1][0]
                fr = Poly({m: x for m, x in p.m if not any(occurs(a=v, t=y) for y, _ in m)})
                if fr is not ZERO:
                    free = free * fexp(fr.scale(k))
                    a = fexp(p - fr).as_atom()
            (inside if occurs(a=v, t=a) else outside).append((a, k))
        inside.sort(key=lambda ap: ap[0].key)
        outp = Poly({tuple(outside): c}) * free
        rest.setdefault(tuple(inside), ZERO)
        rest[tuple(inside)] = rest[tuple(inside)] + outp
    for inside, coef in rest.items():
        out = out + coef * _sum1(v, lo, hi, inside)
    return out


def _tri_of(v, lo, hi, inside):
    """A sum over all pair positions whose summand names the pair: the size N of the index set, else None."""
    if lo is not ZERO or hi.const() is not None:
        return None
    vp = P(v)
    for x in all_atoms(Poly({inside: Fraction(1)}), under_binders=True):
        if x.kind == 'f' and x.args[0] in ('triI', 'triJ') and x.args[1][1] is vp:
            N = x.args[1][0]
            if (N * (N - 1)).scale(Fraction(1, 2)) is hi:
                return N
    return None


def _sum1(v, lo, hi, inside):
    if not inside:
        return _rangepoly(lo, hi)
    N = _tri_of(v, lo, hi, inside)
    if N is not None:
        # the positions are in bijection with the pairs i<j (lemma proved in props/C01)
        i, j = fresh('ti'), fresh('tj')
        body = Poly({inside: Fraction(1)})
        vp = P(v)
        body = subst(body, {app('triI', (N, vp), 'int').as_atom(): i, app('triJ', (N, vp), 'int').as_atom(): j})
        body = subst(body, {v: (i * (N * 2 - i - 1)).scale(Fraction(1, 2)) + j - i - 1})
        with Ctx.assume(le(ZERO, i), lt(i, N)):
            with Ctx.assume(lt(i, j), lt(j, N)):
                body = P(body)
            inner = mksum(j.as_atom(), i + 1, N, body)
        return mksum(i.as_atom(), ZERO, N, inner)
    # polynomial in v
    if len(inside) == 1 and inside[0][0] is v:
        k = inside[0][1]
        if k <= 6:
            nn = Ctx.prove(le(lo, hi))
            if nn or Ctx.prove(le(hi, lo)):
                if not nn:
                    return ZERO
                f = faulhaber(k)

                def F(x):
                    r = ZERO
                    for i in range(len(f) - 1, -1, -1):
                        r = r * x + f[i]
                    return r
                return F(hi) - F(lo)
    # indicator elimination:  sum_v [v==t]*body  and range restriction [v>=t]
    for idx, (a, k) in enumerate(inside):
        if a.kind == 'ind':
            c = a.args[0]
            restm = tuple(x for j, x in enumerate(inside) if j != idx)
            r = solve_for(c, v)
            if r is not None:
                kind, t = r
                body = Poly({restm: Fraction(1)})
                if kind == 'eq':
                    return ite(And(*[g for g in (le(lo, t), lt(t, hi)) if not Ctx.prove(g)]), subst(body, {v: t}), ZERO)
                if kind == 'ge':      # v >= t
                    if Ctx.prove(le(t, lo)):
                        return mksum(v, lo, hi, body)
                    if Ctx.prove(le(lo, t)):
                        return mksum(v, t, hi, body)
                    if Ctx.prove(le(hi, t)):
                        return ZERO
                if kind == 'le':      # v <= t
                    if Ctx.prove(le(hi - 1, t)):
                        return mksum(v, lo, hi, body)
                    if Ctx.prove(le(t, hi - 1)):
                        return mksum(v, lo, t + 1, body)
                    if Ctx.prove(lt(t, lo)):
                        return ZERO
    if len(inside) == 1 and inside[0][0].kind == 'ind':
        # how many integers of the range lie on one side of t
        r = solve_for(inside[0][0].args[0], v)
        if r is not None and r[0] in ('ge', 'le') and Ctx.prove(le(lo, hi)):
            t = r[1]
            if r[0] == 'le':
                return ite(lt(t, lo), ZERO, ite(le(hi - 1, t), hi - lo, t + 1 - lo))
            return ite(le(t, lo), hi - lo, ite(le(hi, t), ZERO, hi - t))
    # canonical: shift so that the range starts at 0
    body = Poly({inside: Fraction(1)})
    if lo is not ZERO:
        body = subst(body, {v: P(v) + lo})
        hi = hi - lo
        lo = ZERO
        return mksum(v, lo, hi, body)
    # a last or first summand that is identically zero is dropped (also right for an empty range)
    if hi.const() is None:
        for _ in range(3):
            if subst(body, {v: hi - 1}) is ZERO:
                hi = hi - 1
            else:
                break
        if subst(body, {v: ZERO}) is ZERO:
            return mksum(v, ONE, hi, body)
    bv, b, h = _close(v, body)
    sort = 'real' if body.sort == 'real' else 'int'
    key = 'sum(%s,%s,%s)' % (bv.key, hi.key, b.key)
    return P(_mk('sum', (bv, lo, hi, b), sort, key, max(h, hi.height)))


def mkprod(v, lo, hi, body):
    lo, hi, body = P(lo), P(hi), P(body)
    n = (hi - lo).const()
    if n is not None and n <= 4:
        r = ONE
        for q in range(max(0, int(n))):
            r = r * subst(body, {v: lo + q})
        return r
    if lo is not ZERO:
        body = subst(body, {v: P(v) + lo})
        hi, lo = hi - lo, ZERO
    bv, b, h = _close(v, body)
    key = 'prod(%s,%s,%s)' % (bv.key, hi.key, b.key)
    return P(_mk('prod', (bv, lo, hi, b), body.sort, key, max(h, hi.height)))


def solve_for(c, v):
    """Solve an atomic comparison for the variable v with coefficient +-1 (integers).
    Returns ('eq'|'ge'|'le', t) or None."""
    if c.kind not in ('eq', 'ge'):
        return None
    p = c.args[0]
    coef = None
    rest = {}
    for mon, k in p.m:
        has = [x for x, _ in mon if x is v or occurs(v, x)]
        if not has:
            rest[mon] = k
            continue
        if mon == ((v, 1),):
            coef = k
        else:
            return None
    if coef is None:
        return None
    t = Poly(rest).scale(Fraction(-1) / coef)
    if t.sort != 'int' or (abs(coef) != 1 and not intvalued(t)):
        return None
    if c.kind == 'eq':
        return ('eq', t)
    return ('ge' if coef > 0 else 'le', t)


# ---------------------------------------------------------------- evaluation on concrete values
def evaluate(t, env, funcs=None):
    """Evaluate a term with env: variable name -> number, funcs: name -> python callable."""
    import math
    funcs = funcs or {}

    def ep(p, loc):
        s = 0
        for mon, c in p.m:
            x = c if c.denominator != 1 else int(c)
            for a, k in mon:
                x = x * ea(a, loc) ** k
                if isinstance(x, (int, Fraction)) and x == 0:
                    x = 0
                    break
            s = s + x
        return s

    def ea(a, loc):
        k = a.kind
        if k == 'v':
            if a.key in loc:
                return loc[a.key]
            return env[a.key]
        if k == 'f':
            f, args = a.args
            vals = [ep(x, loc) for x in args]
            if f in funcs:
                return funcs[f](*vals)
            if f == 'exp':
                return math.exp(vals[0])
            if f == 'log':
                return math.log(vals[0])
            if f == 'sqrt':
                return math.sqrt(vals[0])
            raise KeyError(f)
        if k == 'inv':
            return 1 / ep(a.args[0], loc) if not isinstance(ep(a.args[0], loc), int) else Fraction(1, ep(a.args[0], loc))
        if k == 'ind':
            return 1 if eb(a.args[0], loc) else 0
        if k == 'fd':
            return ep(a.args[0], loc) // ep(a.args[1], loc)
        if k == 'floor':
            return math.floor(ep(a.args[0], loc))
        if k in ('sum', 'prod'):
            bv, lo, hi, body = a.args
            r = 0 if k == 'sum' else 1
            for q in range(int(ep(lo, loc)), int(ep(hi, loc))):
                l2 = dict(loc)
                l2[bv.key] = q
                x = ep(body, l2)
                r = r + x if k == 'sum' else r * x
            return r
        raise AssertionError(k)

    def eb(b, loc):
        k = b.kind
        if k == 'true':
            return True
        if k == 'false':
            return False
        if k == 'not':
            return not eb(b.args[0], loc)
        if k == 'and':
            return all(eb(x, loc) for x in b.args)
        if k == 'or':
            return any(eb(x, loc) for x in b.args)
        if k == 'ge':
            return ep(b.args[0], loc) >= 0
        if k == 'gt':
            return ep(b.args[0], loc) > 0
        if k == 'eq':
            return ep(b.args[0], loc) == 0
        if k == 'bf':
            return funcs[b.args[0]](*[ep(x, loc) for x in b.args[1]])
        raise AssertionError(k)
    return ep(t, {}) if isinstance(t, Poly) else eb(t, {})


def denominator(p):
    """(k, q, p * q**k) for one inverse 1/q of highest power k in p with its inverses cleared; (0, None, p) if there is none."""
    p = P(p)
    best = None
    for mon, c in p.m:
        for a, k in mon:
            if a.kind == 'inv' and (best is None or len(a.key) > len(best.key)):
                best = a
    if best is None:
        return 0, None, p
    q = P(best.args[0])
    k = max((e for mon, c in p.m for a, e in mon if a is best), default=0)
    out = ZERO
    for mon, c in p.m:
        e = next((e for a, e in mon if a is best), 0)
        t = Poly({tuple(x for x in mon if x[0] is not best): c})
        for _ in range(k - e):
            t = t * q
        out = out + t
    return k, q, out

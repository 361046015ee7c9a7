"""Exact symbolic derivatives of verified values: d t / d name(q) for a real function symbol `name` (an array of parameters)."""
from . import terms as T
from .terms import P, ZERO, ONE, Poly
from .heap import Unsupported


def _has(t, name):
    return any(a.kind == 'f' and a.args[0] == name for a in T.all_atoms(t, under_binders=True))


def diff(t, name, q):
    """q: coordinates (tuple of Poly)."""
    t = P(t)
    out = ZERO
    for mon, c in t.m:
        for i, (a, k) in enumerate(mon):
            d = _atom(a, name, q)
            if d is ZERO:
                continue
            rest = Poly({tuple(x for j, x in enumerate(mon) if j != i): c})
            p = P(a)
            for _ in range(k - 1):
                rest = rest * p
            out = out + rest.scale(k) * d
    return out


def _atom(a, name, q):
    if a.kind == 'f' and a.args[0] == name:
        return T.ind(T.And(*[T.eq(x, y) for x, y in zip(a.args[1], q)]))
    if not _has(P(a), name):
        return ZERO
    if a.kind == 'f' and a.args[0] == 'exp':
        return P(a) * diff(a.args[1][0], name, q)
    if a.kind == 'f' and a.args[0] == 'log':
        return T.inv(a.args[1][0]) * diff(a.args[1][0], name, q)
    if a.kind == 'inv':
        return -(P(a) * P(a)) * diff(a.args[0], name, q)
    if a.kind == 'sum':
        bv, lo, hi, b = a.args
        if _has(P(lo), name) or _has(P(hi), name):
            raise Unsupported('derivative of a range')
        v = T.fresh('d')
        return T.mksum(v.as_atom(), lo, hi, diff(T.subst(b, {bv: v}), name, q))
    if a.kind == 'f' and a.args[0] == 'tanh':
        return (ONE - P(a) * P(a)) * diff(a.args[1][0], name, q)
    if a.kind == 'f' and a.args[0] == 'sin':
        return T.app('cos', (a.args[1][0],), 'real') * diff(a.args[1][0], name, q)
    if a.kind == 'f' and a.args[0] == 'cos':
        return -T.app('sin', (a.args[1][0],), 'real') * diff(a.args[1][0], name, q)
    if a.kind == 'f' and a.args[0] == 'sqrt':
        return T.inv(P(a)).scale(T.Fraction(1, 2)) * diff(a.args[1][0], name, q)
    if a.kind == 'f' and a.args[0] == 'logcosh':
        return T.app('tanh', (a.args[1][0],), 'real') * diff(a.args[1][0], name, q)
    raise Unsupported('derivative of %s' % a.key[:80])

"""C06: state enumeration and neighbourhoods are complete and exact."""
from pyvc.units import unit
from pyvc import terms as T
from pyvc.heap import Content
from pyvc.exec import SymLst
from pyvc.terms import P, ZERO, ONE
U = 'coniii/utils.py'


@unit('single-spin flips and random neighbours', [U + ':adj', U + ':adj_sym'])
def neigh(u):
    for fn in ('adj', 'adj_sym'):
        a, b = (ZERO, ONE) if fn == 'adj' else (P(-1), ONE)
        for more in (False, True):
            for sort in ('int', 'real'):
                ex = u.ex('%s%s %s' % (fn, ' with random neighbours' if more else '', sort))
                n, m = T.var('n'), T.var('m')
                u.requires(ex, n >= 1, m >= 1)
                spin = lambda x: T.Or(T.eq(x, a), T.eq(x, b))
                s = ex.sym_array('s', (n,), sort, spin)
                s0 = ex.content(s)
                r = u.call(ex, u.fn(ex, U, fn), [s, m] if more else [s])
                u.shape(ex, 'one row per neighbour', r, [n + m if more else n, n])
                u.unchanged(ex, 'the state is left unchanged', s, s0)
                i, j = u.idx(ex, 'i', 0, n), u.idx(ex, 'j', 0, n)
                x = lambda q: s0.read(ex, (q,))
                u.elem(ex, 'row i is the state with spin i flipped', r, [i, j], T.ite(T.eq(i, j), a + b - x(j), x(j)))
                if more:
                    k = u.idx(ex, 'k', 0, m)
                    c = ex.content(r)
                    ex.hints.append((k,))
                    ex.oblige('random neighbours differ from the state', ex.sum(ZERO, n, lambda q: T.ind(T.Not(T.eq(c.read(ex, (n + k, q)), x(q))))) >= 1, 'post')
                    ex.oblige('random neighbours are states', spin(c.read(ex, (n + k, j))), 'post')


def bit(i, n, j):
    """Digit j (most significant first) of i written with n binary digits."""
    return T.fmod(T.fdiv(i, T.power(P(2), n - 1 - j)), P(2))


@unit('binary states in increasing order', [U + ':bin_states', U + ':xbin_states'])
def binary(u):
    for sym in (False, True):
        for fn in ('bin_states', 'xbin_states'):
            ex = u.ex('%s sym=%s' % (fn, sym))
            n = T.var('n')
            u.requires(ex, n >= 1, T.le(n, P(30)))
            r = u.call(ex, u.fn(ex, U, fn), [n], {'sym': T.TRUE if sym else T.FALSE})
            N = T.power(P(2), n)
            u.shape(ex, '2**n states of n spins', r, [N, n])
            i, j = u.idx(ex, 'i', 0, N), u.idx(ex, 'j', 0, n)
            b = bit(i, n, j)
            u.elem(ex, 'state i holds the binary digits of i, most significant first', r, [i, j], b * 2 - 1 if sym else b)
        ex = u.ex('too many spins')
        n = T.var('n')
        u.requires(ex, n > 30)
        u.must_raise(ex, u.fn(ex, U, 'bin_states'), [n])
        ex = u.ex('negative size')
        n = T.var('n')
        u.requires(ex, n < 0)
        u.must_raise(ex, u.fn(ex, U, 'bin_states'), [n])


def digit(i, b, q):
    """The character of digit q (of weight b**q) of i in base b."""
    return T.app('chr', (digit_value(i, b, q),), 'int')


def digit_value(i, b, q):
    return T.fdiv(i, T.power(b, q)) - b * T.fdiv(i, T.power(b, q + 1))


def small_multiple(d, p):
    """Lemma: an integer multiple of p strictly between -p and p is zero."""
    return T.Or(T.le(p, ZERO), T.le(p, d * p), T.le(d * p, -p), T.eq(d, ZERO))


def digit_loops(ex, fn, i0, b):
    """Loop contracts of the two loops of a digit routine; returns the leading exponent."""
    from pyvc.loops import Inv
    e, x, h, k = T.fresh('e'), T.fresh('x'), T.fresh('i'), T.fresh('k')

    def inv1(ex, env):
        x = env['exponent']
        return [('exponent >= 0', T.ge0(x)), ('base**exponent <= i', T.le(T.power(b, x), i0))]

    q = T.power(b, x)
    ex.oblige('lemma: an integer multiple of p between -p and p is zero', small_multiple(T.var('d'), T.var('p')), 'lemma')
    ex.st.facts += [small_multiple(T.fdiv(h, q) - T.fdiv(i0, q) + b * T.fdiv(i0, b * q), q), small_multiple(T.fdiv(i0, q) - b * T.fdiv(i0, b * q), q)]

    def inv2(ex, env):
        x, i = env['exponent'], env['i']
        c = ex.content(env['rep'])
        p = T.power(b, x + 1)
        out = [('exponent from -1 to below the first', T.And(T.le(P(-1), x), T.lt(x, e))),
               ('number of digits', T.eq(c.shape[0], e - x)),
               ('remainder', T.Or(T.lt(x, ZERO), T.eq(i, i0 - p * T.fdiv(i0, p)))),
               ('remainder is not negative', T.Or(T.lt(x, ZERO), T.le(ZERO, i))),
               ('remainder is below the power', T.Or(T.lt(x, ZERO), T.lt(i, p)))]
        with ex.assume(T.le(ZERO, k), T.lt(k, c.shape[0])):
            out.append(('digits', T.Or(T.lt(k, ZERO), T.le(c.shape[0], k), T.eq(c.read(ex, (k,)), digit(i0, b, e - k)))))
        return out
    ex.loopspec[(fn, 0)] = Inv(lambda ex, s: {'exponent': e}, inv1)
    ex.loopspec[(fn, 1)] = Inv(lambda ex, s: {'exponent': x, 'i': h, 'rep': Content((e - x,), 'int', lambda co: digit(i0, b, e - co[0]))}, inv2)
    return e


@unit('digits of an integer in a base', [U + ':_small_base', U + ':_large_base'])
def digits(u):
    for fn, lo, hi in (('_small_base', 2, 10), ('_large_base', 11, 36)):
        ex = u.ex(fn)
        i, b = T.var('i'), T.var('b')
        u.requires(ex, i >= 1, b >= lo, T.le(b, P(hi)))
        e = digit_loops(ex, fn, i, b)
        r = u.call(ex, u.fn(ex, U, fn), [i, b])
        c = ex.content(r)
        u.shape(ex, 'one digit more than the largest power not above i', r, [e + 1])
        ex.oblige('the leading power is the largest one not above i', T.And(T.le(T.power(b, e), i), T.lt(i, b * T.power(b, e)), T.ge0(e)), 'post')
        m = u.idx(ex, 'm', 0, e + 1)
        u.elem(ex, 'digit m', r, [m], digit(i, b, e - m))
        ex.oblige('no leading zero', T.lt(ZERO, digit_value(i, b, e)), 'post')


def lead(i, b):
    """Exponent of the leading digit of i in base b (0 for i = 0)."""
    return T.app('lead', (i, b), 'int')


def lead_fact(i, b):
    e = lead(i, b)
    return T.And(T.ge0(e), T.Or(T.Not(T.eq(i, ZERO)), T.eq(e, ZERO)),
                 T.Or(i < 1, T.And(T.le(T.power(b, e), i), T.lt(i, b * T.power(b, e)))))


def digits_contract(lo, hi, least):
    def contract(ex, f, args, kw):
        i, b = P(args[0]), P(args[1])
        ex.oblige('%s: precondition' % f.name, T.And(T.le(P(least), i), T.le(P(lo), b), T.le(b, P(hi))), 'pre')
        return ex.alloc(SymLst(Content((lead(i, b) + 1,), 'int', lambda co: digit(i, b, lead(i, b) - co[0]))))
    return contract


def pow_mono(b, e, f):
    return T.Or(T.lt(b, ONE), T.lt(e, ZERO), T.lt(f, e), T.le(T.power(b, e), T.power(b, f)))


@unit('digits of every non-negative integer, Potts states', [U + ':base_repr', U + ':xpotts_states'])
def base(u):
    from pyvc import smt
    for nm, cond in (('zero', lambda i, b: T.eq(i, ZERO)), ('base up to 10', lambda i, b: T.And(i >= 1, T.le(b, P(10)))),
                     ('base above 10', lambda i, b: T.And(i >= 1, b >= 11))):
        ex = u.ex('base_repr ' + nm)
        smt.add_fun_fact('lead', lead_fact)
        i, b = T.var('i'), T.var('b')
        u.requires(ex, i >= 0, b >= 2, T.le(b, P(36)), cond(i, b))
        ex.contracts[(U, '_small_base')] = digits_contract(2, 10, 1)
        ex.contracts[(U, '_large_base')] = digits_contract(11, 36, 1)
        r = u.call(ex, u.fn(ex, U, 'base_repr'), [i, b])
        u.shape(ex, 'number of digits', r, [lead(i, b) + 1])
        m = u.idx(ex, 'm', 0, lead(i, b) + 1)
        if nm == 'zero':
            u.elem(ex, 'digit m', r, [m], T.app('chr', (ZERO,), 'int'))
        else:
            u.elem(ex, 'digit m', r, [m], digit(i, b, lead(i, b) - m))
    for nm, i, b in (('negative integer', P(-1), P(2)), ('base 1', P(3), ONE), ('base above 36', None, None)):
        ex = u.ex('base_repr rejects ' + nm)
        if i is None:
            i, b = T.var('i'), T.var('b')
            u.requires(ex, i >= 1, b > 36)
        u.must_raise(ex, u.fn(ex, U, 'base_repr'), [i, b])

    ex = u.ex('xpotts_states')
    n, k = T.var('n'), T.var('k')
    e, f, b = T.var('e'), T.var('f'), T.var('b')
    ex.oblige('lemma: powers increase (base)', pow_mono(b, e, e), 'lemma')
    ex.oblige('lemma: powers increase (step)', T.Or(T.lt(f, e), T.Not(pow_mono(b, e, f)), pow_mono(b, e, f + 1)), 'lemma')
    smt.add_fun_fact('lead', lambda i, b: T.And(lead_fact(i, b), pow_mono(b, n, lead(i, b))))
    u.requires(ex, n >= 1, k >= 2, T.le(k, P(36)))
    ex.contracts[(U, 'base_repr')] = digits_contract(2, 36, 0)
    r = u.call(ex, u.fn(ex, U, 'xpotts_states'), [n, k])
    N = T.power(k, n)
    u.shape(ex, 'k**n states of n spins', r, [N, n])
    i, m = u.idx(ex, 'i', 0, N), u.idx(ex, 'm', 0, n)
    ex.st.facts += [pow_mono(k, lead(i, k) + 1, n - 1 - m)]
    u.elem(ex, 'state i holds the base-k digits of i, most significant first', r, [i, m], digit(i, k, n - 1 - m))
    for nm, a in (('n=0', (ZERO, P(3))), ('k=1', (P(3), ONE))):
        ex = u.ex('xpotts_states rejects ' + nm)
        u.must_raise(ex, u.fn(ex, U, 'xpotts_states'), list(a))

"""C05: all accepted parameter formats denote the same model."""
from fractions import Fraction
from pyvc.units import unit
from pyvc import terms as T
from pyvc.terms import P, ZERO, ONE
from pyvc.lib import pidx, tri, Native
U = 'coniii/utils.py'
M = 'coniii/models.py'


def start(u, label, lo=1):
    ex = u.ex(label)
    n = T.var('n')
    u.requires(ex, n >= lo)
    I, J = T.var('I'), T.var('J')
    ex.hints.append((I, J))
    return ex, n, I, J


def vector(ex, n, name='p'):
    p = ex.sym_array(name, (n + tri(n),), 'real')
    return p, ex.content(p)


def symmetric(ex, n, name='A', lo=None):
    """A symmetric n x n matrix with an arbitrary diagonal."""
    def base(co):
        a, b = co
        up = T.app(name, (T.ite(T.le(a, b), a, b), T.ite(T.le(a, b), b, a)), 'real')
        return up
    return ex.new_array((n, n), 'real', base)


@unit('vec2mat', [U + ':vec2mat', U + ':replace_diag'])
def v2m(u):
    for sep in (False, True):
        ex, n, I, J = start(u, 'separate' if sep else 'matrix', 2)
        p, p0 = vector(ex, n)
        r = u.call(ex, u.fn(ex, U, 'vec2mat'), [p], dict(separate_fields=T.TRUE if sep else T.FALSE))
        h, A = (r if sep else (None, r))
        i = u.idx(ex, 'i', 0, n)
        u.shape(ex, 'square matrix', A, [n, n])
        if sep:
            u.shape(ex, 'one field per spin', h, [n])
            u.elem(ex, 'fields first', h, [i], p0.read(ex, (i,)))
        u.elem(ex, 'diagonal', A, [i, i], ZERO if sep else p0.read(ex, (i,)))
        ex.st.facts += [I >= 0, I < J, J < n]
        u.elem(ex, 'coupling above the diagonal', A, [I, J], p0.read(ex, (n + pidx(n, I, J),)))
        u.elem(ex, 'coupling below the diagonal', A, [J, I], p0.read(ex, (n + pidx(n, I, J),)))
        u.unchanged(ex, 'parameters unchanged', p, p0)


def no_size(u, ex, m, k, c=1):
    """Lemma: k(k+c) grows with k, so no k has k(k+c)/2 strictly between the sizes of m and m+1."""
    def g(m, k):
        return T.Implies(T.And(T.le(ZERO, k), T.le(ZERO, m)),
                         T.Or(T.And(T.le(k, m), T.le(k * (k + c), m * (m + c))), T.And(T.le(m + 1, k), T.le((m + 1) * (m + 1 + c), k * (k + c)))))
    e = u.ex(ex.label[:-2])
    M_, K_ = T.var('M'), T.var('K')
    e.oblige('lemma: sizes grow', g(M_, K_), 'lemma')
    ex.st.facts.append(g(m, k))


def root(s, a, b):
    return T.floor_((T.app('sqrt', (a + s.scale(8),), 'real') - b).scale(Fraction(1, 2)))


@unit('vec2mat rejects impossible lengths', [U + ':vec2mat'])
def v2mr(u):
    for sep in (False, True):
        ex = u.ex('separate' if sep else 'matrix')
        s, m = T.var('s'), T.var('m')
        u.requires(ex, m >= 1, T.lt(m + tri(m), s), T.lt(s, m + 1 + tri(m + 1)))
        no_size(u, ex, m, root(s, 1, 1))
        u.must_raise(ex, u.fn(ex, U, 'vec2mat'), [ex.sym_array('p', (s,), 'real')], dict(separate_fields=T.TRUE if sep else T.FALSE))


@unit('mat2vec', [U + ':mat2vec', U + ':zero_diag', U + ':replace_diag'])
def m2v(u):
    ex, n, I, J = start(u, '', 2)
    A = symmetric(ex, n)
    a0 = ex.content(A)
    v = u.call(ex, u.fn(ex, U, 'mat2vec'), [A])
    i = u.idx(ex, 'i', 0, n)
    u.shape(ex, 'length', v, [n + tri(n)])
    u.elem(ex, 'fields first', v, [i], a0.read(ex, (i, i)))
    ex.st.facts += [I >= 0, I < J, J < n]
    u.elem(ex, 'couplings in canonical order', v, [n + pidx(n, I, J)], a0.read(ex, (I, J)))
    u.unchanged(ex, 'matrix unchanged', A, a0)


@unit('vector to matrix and back', [U + ':vec2mat', U + ':mat2vec'])
def roundtrip(u):
    ex, n, I, J = start(u, 'vector', 2)
    p, p0 = vector(ex, n)
    A = u.call(ex, u.fn(ex, U, 'vec2mat'), [p])
    v = u.call(ex, u.fn(ex, U, 'mat2vec'), [A])
    i = u.idx(ex, 'i', 0, n)
    u.shape(ex, 'length', v, [n + tri(n)])
    u.elem(ex, 'fields restored', v, [i], p0.read(ex, (i,)))
    ex.st.facts += [I >= 0, I < J, J < n]
    u.elem(ex, 'couplings restored', v, [n + pidx(n, I, J)], p0.read(ex, (n + pidx(n, I, J),)))
    ex, n, I, J = start(u, 'matrix', 2)
    A = symmetric(ex, n)
    a0 = ex.content(A)
    v = u.call(ex, u.fn(ex, U, 'mat2vec'), [A])
    B = u.call(ex, u.fn(ex, U, 'vec2mat'), [v])
    i = u.idx(ex, 'i', 0, n)
    u.shape(ex, 'shape', B, [n, n])
    u.elem(ex, 'diagonal restored', B, [i, i], a0.read(ex, (i, i)))
    ex.st.facts += [I >= 0, I < J, J < n]
    u.elem(ex, 'upper triangle restored', B, [I, J], a0.read(ex, (I, J)))
    u.elem(ex, 'lower triangle restored', B, [J, I], a0.read(ex, (I, J)))


@unit('replace_diag and zero_diag', [U + ':replace_diag', U + ':zero_diag'])
def diag(u):
    for zero, so in ((False, 'real'), (True, 'real'), (False, 'int')):
        ex, n, I, J = start(u, 'zero' if zero else 'replace' + (' in an integer matrix' if so == 'int' else ''))
        A = ex.sym_array('A', (n, n), so)
        a0 = ex.content(A)
        if zero:
            r = u.call(ex, u.fn(ex, U, 'zero_diag'), [A])
        else:
            d = ex.sym_array('d', (n,), 'real')
            d0 = ex.content(d)
            r = u.call(ex, u.fn(ex, U, 'replace_diag'), [A, d])
        i, j = u.idx(ex, 'i', 0, n), u.idx(ex, 'j', 0, n)
        u.shape(ex, 'shape', r, [n, n])
        u.elem(ex, 'diagonal', r, [i, i], ZERO if zero else d0.read(ex, (i,)))
        ex.st.facts.append(T.Not(T.eq(i, j)))
        u.elem(ex, 'the rest is kept', r, [i, j], a0.read(ex, (i, j)))
        u.unchanged(ex, 'matrix unchanged', A, a0)
        if not zero:
            u.unchanged(ex, 'diagonal unchanged', d, d0)
    ex = u.ex('wrong sizes')
    n, m, k = T.var('n'), T.var('m'), T.var('k')
    u.requires(ex, n >= 0, m >= 0, k >= 0, T.Or(T.Not(T.eq(n, m)), T.Not(T.eq(n, k))))
    u.must_raise(ex, u.fn(ex, U, 'replace_diag'), [ex.sym_array('A', (n, m), 'real'), ex.sym_array('d', (k,), 'real')])
    ex = u.ex('matrix as diagonal')
    u.requires(ex, n >= 0, m >= 0)
    u.must_raise(ex, u.fn(ex, U, 'replace_diag'), [ex.sym_array('A', (n, n), 'real'), ex.sym_array('d', (n, m), 'real')])


def check_model(u, ex, m, n, h, J, total, I, Jx, formats=''):
    """m.n == n, m.multipliers = h then J"""
    u.eq(ex, 'system size', ex.getattr(m, 'n'), n)
    v = ex.getattr(m, 'multipliers')
    u.shape(ex, 'parameter vector length', v, [total])
    i = u.idx(ex, 'i', 0, n)
    u.elem(ex, 'fields first', v, [i], h(i))
    ex.st.facts += [I >= 0, I < Jx, Jx < n]
    u.elem(ex, 'couplings in canonical order', v, [n + pidx(n, I, Jx)], J(I, Jx))


@unit('models.Ising from every format', [M + ':Ising.__init__', M + ':Ising.set_multipliers'])
def ising(u):
    for fmt in ('vector', 'pair', 'list', 'matrix', 'integer'):
        ex, n, I, J = start(u, fmt, 3 if fmt == 'vector' else 2)
        if fmt == 'vector':
            p, p0 = vector(ex, n)
            arg, h, c = p, lambda i: p0.read(ex, (i,)), lambda a, b: p0.read(ex, (n + pidx(n, a, b),))
        elif fmt in ('pair', 'list'):
            a, b = ex.sym_array('h', (n,), 'real'), ex.sym_array('J', (tri(n),), 'real')
            A, B = ex.content(a), ex.content(b)
            arg = (a, b) if fmt == 'pair' else ex.alloc(Lst([a, b]))
            h, c = lambda i: A.read(ex, (i,)), lambda x, y: B.read(ex, (pidx(n, x, y),))
        elif fmt == 'matrix':
            arg = symmetric(ex, n)
            a0 = ex.content(arg)
            h, c = lambda i: a0.read(ex, (i, i)), lambda x, y: a0.read(ex, (x, y))
        else:
            arg, h, c = n, lambda i: ZERO, lambda x, y: ZERO
        m = u.call(ex, u.fn(ex, M, 'Ising'), [arg])
        check_model(u, ex, m, n, h, c, n + tri(n), I, J)
        if fmt == 'matrix':
            u.unchanged(ex, 'matrix unchanged', arg, a0)
        if fmt == 'vector':
            u.unchanged(ex, 'vector unchanged', p, p0)
        q, q0 = vector(ex, n, 'q')
        u.call(ex, ex.getattr(m, 'set_multipliers'), [q])
        i = T.var('i')
        u.elem(ex, 'parameters after an update', ex.getattr(m, 'multipliers'), [i], q0.read(ex, (i,)))


from pyvc.exec import Lst


def module_contract(ex, want, nobs, nstates):
    """The enumeration module of the right name provides two functions of the parameters."""
    def imp(ex, name):
        ex.oblige('enumeration module is the one for this size and model', T.TRUE if name == want else T.FALSE, 'callee-pre', detail=name)

        def fn(tag, size):
            def f(ex, x):
                c = ex.content(x)
                ex.seen = getattr(ex, 'seen', []) + [(tag, c)]
                return ex.new_array((size,), 'real', lambda co: T.app(tag, co, 'real'))
            return Native(f, tag)
        return ex.alloc(Obj(None, {'calc_observables': fn('obs', nobs), 'p': fn('prob', nstates)}))
    ex.import_contract = imp


def check_update(u, ex, m, size):
    """After set_multipliers every dependent copy uses the new parameters."""
    q = ex.sym_array('q', (size,), 'real')
    q0 = ex.content(q)
    u.call(ex, ex.getattr(m, 'set_multipliers'), [q])
    i = u.idx(ex, 'iq', 0, size)
    u.elem(ex, 'parameters after an update', ex.getattr(m, 'multipliers'), [i], q0.read(ex, (i,)))
    ex.seen = []
    u.call(ex, ex.getattr(m, 'calc_observables'), [])
    u.call(ex, ex.getattr(m, 'calc_p'), [])
    ex.oblige('observables and probabilities are evaluated', T.TRUE if [t for t, _ in ex.seen] == ['obs', 'prob'] else T.FALSE, 'post')
    for t, c in ex.seen:
        u.eq(ex, '%s use the updated parameters' % t, c.read(ex, (i,)), q0.read(ex, (i,)))
    # explicit argument
    r = ex.sym_array('r', (size,), 'real')
    r0 = ex.content(r)
    ex.seen = []
    u.call(ex, ex.getattr(m, 'calc_observables'), [r])
    u.call(ex, ex.getattr(m, 'calc_p'), [r])
    for t, c in ex.seen:
        u.eq(ex, '%s of given parameters' % t, c.read(ex, (i,)), r0.read(ex, (i,)))
    u.elem(ex, 'parameters kept', ex.getattr(m, 'multipliers'), [i], q0.read(ex, (i,)))


@unit('models.Ising with an enumeration module', [M + ':Ising.__init__', M + ':Ising.set_multipliers'])
def ising_mod(u):
    ex, n, I, J = start(u, '', 3)
    module_contract(ex, 'coniii.ising_eqn.ising_eqn_%s_sym' % n.key, n + tri(n), T.var('S'))
    p, p0 = vector(ex, n)
    m = u.call(ex, u.fn(ex, M, 'Ising'), [p])
    check_model(u, ex, m, n, lambda i: p0.read(ex, (i,)), lambda a, b: p0.read(ex, (n + pidx(n, a, b),)), n + tri(n), I, J)
    check_update(u, ex, m, n + tri(n))


@unit('models.Ising rejects impossible parameters', [M + ':Ising.__init__'])
def ising_rej(u):
    ex = u.ex('vector')
    s, m = T.var('s'), T.var('m')
    u.requires(ex, m >= 2, T.lt(m + tri(m), s), T.lt(s, m + 1 + tri(m + 1)))
    no_size(u, ex, m, root(s, 1, 1))
    u.must_raise(ex, u.fn(ex, M, 'Ising'), [ex.sym_array('p', (s,), 'real')])
    for kind in ('pair', 'list'):
        ex = u.ex(kind)
        n, k = T.var('n'), T.var('k')
        u.requires(ex, n >= 0, k >= 0, T.Not(T.eq(k, tri(n))))
        a, b = ex.sym_array('h', (n,), 'real'), ex.sym_array('J', (k,), 'real')
        u.must_raise(ex, u.fn(ex, M, 'Ising'), [(a, b) if kind == 'pair' else ex.alloc(Lst([a, b]))])
    ex = u.ex('integer')
    n = T.var('n')
    u.requires(ex, n <= 1)
    u.must_raise(ex, u.fn(ex, M, 'Ising'), [n])


def choose3(n):
    return (n * (n - 1) * (n - 2)).scale(Fraction(1, 6))


@unit('models.Triplet', [M + ':Triplet.__init__', M + ':Triplet.set_multipliers'])
def triplet(u):
    for mod in (False, True):
        ex, n, I, J = start(u, 'with module' if mod else 'without module', 3)
        a, b, c = ex.sym_array('h', (n,), 'real'), ex.sym_array('J', (tri(n),), 'real'), ex.sym_array('K', (choose3(n),), 'real')
        A, B, C = ex.content(a), ex.content(b), ex.content(c)
        size = n + tri(n) + choose3(n)
        if mod:
            module_contract(ex, 'coniii.ising_eqn.ising_eqn_%s_sym_triplet' % n.key, size, T.var('S'))
        m = u.call(ex, u.fn(ex, M, 'Triplet'), [ex.alloc(Lst([a, b, c]))])
        check_model(u, ex, m, n, lambda i: A.read(ex, (i,)), lambda x, y: B.read(ex, (pidx(n, x, y),)), size, I, J)
        k = u.idx(ex, 'k', 0, choose3(n))
        u.elem(ex, 'triplet interactions last', ex.getattr(m, 'multipliers'), [n + tri(n) + k], C.read(ex, (k,)))
        if mod:
            check_update(u, ex, m, size)
    for which in ('couplings', 'triplets'):
        ex = u.ex('wrong number of ' + which)
        n, k = T.var('n'), T.var('k')
        u.requires(ex, n >= 3, k >= 0, T.Not(T.eq(k, tri(n) if which == 'couplings' else choose3(n))))
        s2, s3 = (k, choose3(n)) if which == 'couplings' else (tri(n), k)
        args = [ex.sym_array('h', (n,), 'real'), ex.sym_array('J', (s2,), 'real'), ex.sym_array('K', (s3,), 'real')]
        u.must_raise(ex, u.fn(ex, M, 'Triplet'), [ex.alloc(Lst(args))])


@unit('models.Potts3', [M + ':Potts3.__init__', M + ':Potts3.set_multipliers'])
def potts(u):
    for fmt in ('list', 'vector'):
        for mod in (False, True):
            ex, n, I, J = start(u, fmt + (' with module' if mod else ''), 2)
            size = n * 3 + tri(n)
            if mod:
                module_contract(ex, 'coniii.ising_eqn.ising_eqn_%s_potts' % n.key, size, T.var('S'))
            if fmt == 'list':
                a, b = ex.sym_array('h', (n * 3,), 'real'), ex.sym_array('J', (tri(n),), 'real')
                A, B = ex.content(a), ex.content(b)
                arg = ex.alloc(Lst([a, b]))
                h, c = lambda i: A.read(ex, (i,)), lambda q: B.read(ex, (q,))
            else:
                arg = ex.sym_array('p', (size,), 'real')
                p0 = ex.content(arg)
                h, c = lambda i: p0.read(ex, (i,)), lambda q: p0.read(ex, (n * 3 + q,))
            m = u.call(ex, u.fn(ex, M, 'Potts3'), [arg])
            u.eq(ex, 'system size', ex.getattr(m, 'n'), n)
            v = ex.getattr(m, 'multipliers')
            u.shape(ex, 'parameter vector length', v, [size])
            i = u.idx(ex, 'i', 0, n * 3)
            q = u.idx(ex, 'q', 0, tri(n))
            u.elem(ex, 'fields first', v, [i], h(i))
            u.elem(ex, 'couplings follow', v, [n * 3 + q], c(q))
            if mod:
                check_update(u, ex, m, size)
    ex = u.ex('impossible vector length')
    s, m = T.var('s'), T.var('m')
    u.requires(ex, m >= 1, T.lt(m * 3 + tri(m), s), T.lt(s, (m + 1) * 3 + tri(m + 1)))
    no_size(u, ex, m, root(s, 25, 5), 5)
    u.must_raise(ex, u.fn(ex, M, 'Potts3'), [ex.sym_array('p', (s,), 'real')])
    ex = u.ex('number of fields not a multiple of three')
    f, k = T.var('f'), T.var('k')
    u.requires(ex, f >= 0, k >= 0, T.Not(T.eq(T.fmod(f, 3), ZERO)))
    u.must_raise(ex, u.fn(ex, M, 'Potts3'), [ex.alloc(Lst([ex.sym_array('h', (f,), 'real'), ex.sym_array('J', (k,), 'real')]))])
    ex = u.ex('wrong number of couplings')
    n, k = T.var('n'), T.var('k')
    u.requires(ex, n >= 1, k >= 0, T.Not(T.eq(k, tri(n))))
    u.must_raise(ex, u.fn(ex, M, 'Potts3'), [ex.alloc(Lst([ex.sym_array('h', (n * 3,), 'real'), ex.sym_array('J', (k,), 'real')]))])


from pyvc.exec import Lst, Obj

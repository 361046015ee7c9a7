"""Assumed contracts of the language built-ins, numpy, scipy and itertools functions the code calls.

Everything here is trusted; each name that a proof used is listed in the evidence (trusted_base)."""
import dis
import inspect
import itertools
from fractions import Fraction
from math import comb
from . import terms as T
from . import smt
from .terms import P, Poly, Bool, ZERO, ONE
from .heap import Content, W, L, Unsupported
from .exec import (QF, Arr, SymLst, Lst, Obj, Dct, Ref, View, Mod, BMeth, Native, Poison, SeqVal, RangeVal, Slice, Clo,
                   ClassVal, Raised, Exc, is_chr, chr_)

BUILTINS = {'range', 'len', 'int', 'float', 'abs', 'min', 'max', 'sum', 'enumerate', 'zip', 'list', 'tuple', 'str', 'bool',
            'print', 'isinstance', 'type', 'all', 'any', 'Exception', 'AssertionError', 'frozenset', 'set', 'sorted', 'reversed',
            'super', 'round', 'NotImplementedError', 'dict', 'map', 'callable', 'hasattr', 'getattr', 'ValueError', 'TypeError', 'RuntimeError',
            'ndarray', 'KeyError', 'IndexError', 'slice', 'property', 'staticmethod', 'object', 'iter', 'next', 'bin', 'repr', 'UserWarning',
            'cxx_static_cast_int', 'cxx_idiv', 'cxx_imod', 'cxx_unsigned', 'cxx_data', 'cxx_astype', 'id'}
CONSTS = {'numpy.newaxis': None, 'numpy.inf': T.app('inf', (), 'real'), 'numpy.pi': T.var('pi', 'real')}
ALIAS = {'np': 'numpy'}
LIB = {}


def canon(d):
    p = d.split('.')
    p[0] = ALIAS.get(p[0], p[0])
    return '.'.join(p)


# keywords that change no value the contracts speak about; any other keyword a contract does not name is refused
HARMLESS = {'order', 'dtype', 'copy', 'sep', 'end', 'force', 'checks', 'processes', 'maxtasksperchild', 'stacklevel', 'category',
            'rtol', 'atol', 'casting', 'subok', 'flush'}


def strict(f):
    ps = inspect.signature(f).parameters.values()
    var = [p.name for p in ps if p.kind == p.VAR_KEYWORD]
    if not var or any(i.opname.startswith('LOAD') and (i.argval == var[0] or isinstance(i.argval, tuple) and var[0] in i.argval)
                      for i in dis.get_instructions(f)):
        return f
    named = {p.name for p in ps}

    def g(*a, **k):
        for x in k:
            if x not in named and x not in HARMLESS:
                raise Unsupported('keyword %s of a library function' % x)
        return f(*a, **k)
    g.__name__ = f.__name__
    return g


def lib(*names):
    def deco(f):
        f = strict(f)
        for n in names:
            LIB[n] = f
        return f
    return deco


def install(ex):
    ex.lib = dict(LIB)


def tri(n):
    return (n * (n - 1)).scale(Fraction(1, 2))


def pidx(n, i, j):
    """Position of the pair i<j in the flattened upper triangle (lexicographic)."""
    n, i, j = P(n), P(i), P(j)
    return (i * (n * 2 - i - 1)).scale(Fraction(1, 2)) + j - i - 1


def pair_of(ex, n, q):
    """The pair at position q."""
    n, q = P(n), P(q)
    if n.const() is not None and q.const() is not None:
        c = list(itertools.combinations(range(int(n.const())), 2))
        if 0 <= int(q.const()) < len(c):
            a, b = c[int(q.const())]
            return P(a), P(b)
    for h in ex.hints:
        if len(h) == 2 and (q - pidx(n, h[0], h[1])) is ZERO:
            if ex.prove(T.And(T.le(ZERO, h[0]), T.lt(h[0], h[1]), T.lt(h[1], n))):
                return h
    if 'triI' not in smt.FUN_FACTS:
        def ff(n, q):
            i, j = T.app('triI', (n, q), 'int'), T.app('triJ', (n, q), 'int')
            return T.Implies(T.And(T.le(ZERO, q), T.lt(q, tri(n))),
                             T.And(T.le(ZERO, i), T.lt(i, j), T.lt(j, n), T.eq(pidx(n, i, j), q)))
        smt.add_fun_fact('triI', ff)
        smt.add_fun_fact('triJ', ff)
    return T.app('triI', (n, q), 'int'), T.app('triJ', (n, q), 'int')


def size_from_tri(ex, m):
    """N with N(N-1)/2 == m."""
    c = m.const()
    if c is not None:
        n = 0
        while n * (n - 1) // 2 < c:
            n += 1
        if c == 0:
            n = 1
        if n * (n - 1) // 2 != c:
            raise Raised(Exc('ValueError'))
        return P(n)
    for a in m.atoms():
        for k in (0, -1, 1, 2, -2):
            if tri(P(a) + k) is m:
                return P(a) + k
    raise Unsupported('length is not recognised as n(n-1)/2: %s' % m)


# ---------------------------------------------------------------- builtins
@lib('builtins.range')
def _range(ex, *a):
    a = [P(x) for x in a]
    if len(a) == 1:
        return RangeVal(ZERO, a[0], ONE)
    if len(a) == 2:
        return RangeVal(a[0], a[1], ONE)
    return RangeVal(*a)


@lib('builtins.len')
def _len(ex, x):
    if isinstance(x, (tuple, str, list)):
        return P(len(x))
    if isinstance(x, RangeVal):
        return ex.range_len(x)
    if isinstance(x, SeqVal):
        return x.n
    if isinstance(x, Ref):
        c = ex.cell(x)
        if isinstance(c, Lst):
            return P(len(c.items))
        if isinstance(c, Dct):
            return P(len(c.d))
    return ex.shape(x)[0]


@lib('builtins.int', 'numpy.int64', 'numpy.int32', 'numpy.int8', 'numpy.uint8', 'numpy.int_', 'cxx.int')
def _int(ex, x=ZERO, *a):
    if isinstance(x, Bool):
        return P(x)
    if isinstance(x, Poly):
        if any(t.kind == 'f' and t.args[0].startswith('chr') for t in T.all_atoms(x)):
            if a:
                raise Unsupported('int of a character in a base')
            return unchr(ex, x)
        if x.sort == 'int':
            return x
        c = x.const()
        if c is not None:
            return P(int(c))
        if ex.prove(T.le(ZERO, x)):
            return T.floor_(x)
        return T.ite(T.le(ZERO, x), T.floor_(x), -T.floor_(-x))
    if isinstance(x, str):
        return P(int(x, *[int(P(b).const()) for b in a]))
    if a:
        raise Unsupported('int with a base')
    if ex.is_array(x):
        c = ex.content(x)
        if all(s.const() == 1 for s in c.shape):
            return _int(ex, c.read(ex, tuple(ZERO for _ in c.shape)))
        return ex.map1(x, lambda p: _int(ex, p), 'int')
    raise Unsupported('int(%r)' % (x,))


@lib('builtins.float', 'numpy.float64')
def _float(ex, x=ZERO):
    if isinstance(x, (Bool, Poly)):
        return P(x)
    raise Unsupported('float')


@lib('builtins.bool')
def _bool(ex, x):
    return ex.truth(x)


@lib('builtins.abs', 'numpy.abs', 'numpy.absolute')
def _abs(ex, x):
    def f(p):
        d = ex.dec(T.le(ZERO, p))
        return p if d is T.TRUE else (-p if d is T.FALSE else T.ite(d, p, -p))
    return ex.map1(x, f)


@lib('builtins.min', 'builtins.max')
def _minmax(ex, *a, **k):
    raise Unsupported('min/max')


def scalar1(ex, x):
    """The element of an array with exactly one element (compared and assigned like the number it holds)."""
    if ex.is_array(x):
        c = ex.content(x)
        if all(s.const() == 1 for s in c.shape):
            return c.read(ex, tuple(ZERO for _ in c.shape))
    return x


def _min(ex, *a):
    if len(a) == 1:
        q = ex.sequence(a[0])
        if not isinstance(q, list):
            return extremum(ex, ex.content(a[0] if not isinstance(q, SeqVal) or ex.is_array(a[0]) else q), 'min')
        a = tuple(q)
        if not a:
            raise Raised(Exc('ValueError'))
    xs = [scalar1(ex, x) for x in a]
    r = P(xs[0])
    for y in xs[1:]:
        c = ex.dec(T.le(r, P(y)))
        r = r if c is T.TRUE else (P(y) if c is T.FALSE else T.ite(c, r, P(y)))
    return r


def _max(ex, *a):
    if len(a) == 1:
        q = ex.sequence(a[0])
        if not isinstance(q, list):
            return extremum(ex, ex.content(a[0] if not isinstance(q, SeqVal) or ex.is_array(a[0]) else q), 'max')
        a = tuple(q)
        if not a:
            raise Raised(Exc('ValueError'))
    xs = [scalar1(ex, x) for x in a]
    r = P(xs[0])
    for y in xs[1:]:
        c = ex.dec(T.le(P(y), r))
        r = r if c is T.TRUE else (P(y) if c is T.FALSE else T.ite(c, r, P(y)))
    return r


LIB['builtins.min'] = _min
LIB['builtins.max'] = _max


@lib('builtins.sum')
def _bsum(ex, x, start=ZERO):
    s = ex.sequence(x)
    if isinstance(s, list):
        r = P(start)
        for y in s:
            r = ex.binop('Add', r, y)
        return r
    if isinstance(s, RangeVal):
        s = SeqVal(ex.range_len(s), lambda i, r=s: r.lo + r.step * i)
    return P(start) + ex.sum(ZERO, s.n, lambda k: P(s.elem(k)))


@lib('builtins.map')
def _map(ex, f, *xs):
    ss = [ex.sequence(x) for x in xs]
    if all(isinstance(s, list) for s in ss):
        return tuple(ex.call(f, list(z)) for z in zip(*ss))
    if len(ss) != 1:
        raise Unsupported('map over several sequences')
    s = ss[0]
    if isinstance(s, RangeVal):
        s = SeqVal(ex.range_len(s), lambda i, r=s: r.lo + r.step * i)
    return SeqVal(s.n, lambda i: ex.call(f, [s.elem(i)]))


@lib('builtins.enumerate')
def _enum(ex, x, start=ZERO):
    s = ex.sequence(x)
    if isinstance(s, list):
        return tuple((P(i) + P(start), y) for i, y in enumerate(s))
    if isinstance(s, RangeVal):
        s = SeqVal(ex.range_len(s), lambda i, r=s: r.lo + r.step * i)
    return SeqVal(s.n, lambda i: (P(i) + P(start), s.elem(i)))


@lib('builtins.zip')
def _zip(ex, *xs):
    ss = [ex.sequence(x) for x in xs]
    if all(isinstance(s, list) for s in ss):
        return tuple(zip(*ss))
    ss = [SeqVal(P(len(s)), lambda i, s=s: ex.subscript(tuple(s), i)) if isinstance(s, list) else
          (SeqVal(ex.range_len(s), lambda i, r=s: r.lo + r.step * i) if isinstance(s, RangeVal) else s) for s in ss]
    n = ss[0].n
    for s in ss[1:]:
        if s.n is not n and not ex.prove(T.eq(s.n, n)):
            raise Unsupported('zip of different lengths')
    return SeqVal(n, lambda i: tuple(s.elem(i) for s in ss))


@lib('builtins.list')
def _list(ex, x=()):
    s = ex.sequence(x)
    if isinstance(s, list):
        return ex.alloc(Lst(s))
    if isinstance(s, SeqVal) and not isinstance(s.elem(ZERO), (Poly, Bool)):
        return s
    return ex.alloc(SymLst(ex.content(s)))


@lib('builtins.tuple')
def _tuple(ex, x=()):
    s = ex.sequence(x)
    if isinstance(s, list):
        return tuple(s)
    raise Unsupported('symbolic tuple')


@lib('builtins.reversed')
def _reversed(ex, x):
    s = ex.sequence(x)
    if isinstance(s, list):
        return tuple(reversed(s))
    if isinstance(s, RangeVal):
        n = ex.range_len(s)
        return RangeVal(s.lo + s.step * (n - 1), s.lo - s.step, -s.step)
    return SeqVal(s.n, lambda i: s.elem(s.n - 1 - i))


@lib('builtins.print', 'warnings.warn')
def _print(ex, *a, **k):
    return None


@lib('importlib.import_module')
def _import_module(ex, name):
    """The unit says what the module of that name provides; without a contract the module is absent."""
    fn = getattr(ex, 'import_contract', None)
    if fn is None:
        raise Raised(Exc('ModuleNotFoundError'))
    return fn(ex, name)


@lib('builtins.Exception', 'builtins.ValueError')
def _exc(ex, *a):
    return Exc('Exception')


@lib('builtins.isinstance')
def _isinstance(ex, x, t):
    ts = t if isinstance(t, tuple) else (t,)
    r = T.FALSE
    for q in ts:
        r = T.Or(r, _istype(ex, x, q))
    return r


def _istype(ex, x, t):
    if isinstance(t, ClassVal):
        if isinstance(x, Ref) and isinstance(ex.cell(x), Obj):
            c = ex.cell(x).cls
            seen = [c]
            while seen:
                k = seen.pop()
                if k is t:
                    return T.TRUE
                seen += [b for b in k.bases if isinstance(b, ClassVal)]
        return T.FALSE
    n = t.name if isinstance(t, Mod) else str(t)
    tx = _typename(ex, x)
    names = {'builtins.int': ('int',), 'builtins.float': ('float',), 'builtins.list': ('list',), 'builtins.tuple': ('tuple',),
             'builtins.str': ('str',), 'builtins.bool': ('bool',), 'numpy.ndarray': ('ndarray',), 'builtins.dict': ('dict',)}
    return T.TRUE if tx in names.get(n, ()) else T.FALSE


def _typename(ex, x):
    if isinstance(x, Poly):
        return 'int' if x.sort == 'int' else 'float'
    if isinstance(x, Bool):
        return 'bool'
    if isinstance(x, tuple):
        return 'tuple'
    if isinstance(x, str):
        return 'str'
    if x is None:
        return 'NoneType'
    if isinstance(x, View) or isinstance(x, Content):
        return 'ndarray'
    if isinstance(x, Ref):
        c = ex.cell(x)
        return {Arr: 'ndarray', Lst: 'list', SymLst: 'list', Dct: 'dict'}.get(type(c), 'object')
    return 'object'


@lib('builtins.type')
def _type(ex, x):
    n = _typename(ex, x)
    return Mod({'ndarray': 'numpy.ndarray'}.get(n, 'builtins.' + n))


@lib('builtins.callable')
def _callable(ex, x):
    return T.TRUE if isinstance(x, (Clo, Native, BMeth)) else T.FALSE


@lib('builtins.hasattr')
def _hasattr(ex, o, name):
    if isinstance(o, Ref) and isinstance(ex.cell(o), Obj):
        c = ex.cell(o)
        return T.TRUE if name in c.attrs or c.cls.lookup(name) else T.FALSE
    if name == '__len__':
        if o is None or isinstance(o, (Poly, Bool)):
            return T.FALSE
        if isinstance(o, (str, tuple, View)) or isinstance(o, Ref):
            if ex.is_array(o) and not ex.content(o).shape:
                raise Unsupported('hasattr of an array without axes')
            return T.TRUE
    raise Unsupported('hasattr')


@lib('builtins.getattr')
def _getattr(ex, o, name, *default):
    try:
        return ex.getattr(o, name)
    except (Raised, Unsupported):
        if default and _typename(ex, o) in ('list', 'tuple', 'int', 'float', 'str', 'NoneType'):
            return default[0]
        raise


@lib('builtins.all')
def _ball(ex, x):
    s = ex.sequence(x)
    if isinstance(s, list):
        return T.And(*[ex.truth(y) for y in s])
    raise Unsupported('all over symbolic sequence')


@lib('builtins.any')
def _bany(ex, x):
    s = ex.sequence(x)
    if isinstance(s, list):
        return T.Or(*[ex.truth(y) for y in s])
    raise Unsupported('any over symbolic sequence')


class SetVal:
    def __init__(self, content=None, items=None):
        self.content, self.items = content, items


@lib('builtins.frozenset', 'builtins.set')
def _fset(ex, x=()):
    if isinstance(x, UniqueVal):
        return SetVal(content=x.c)
    if isinstance(x, tuple) and len(x) and x[0] == 'set':
        return SetVal(items=x[1])
    s = ex.sequence(x)
    if isinstance(s, list):
        return SetVal(items=tuple(s))
    return SetVal(content=ex.content(x))


def known_vector(ex, x):
    """The entries of a vector all of whose entries are constants."""
    c = ex.content(x)
    if len(c.shape) == 1 and c.shape[0].const() is not None and c.shape[0].const() <= 64:
        v = [P(c.read(ex, (P(i),))).const() for i in range(int(c.shape[0].const()))]
        if None not in v:
            return v, c.sort
    raise Unsupported('sorting a vector of unknown values')


def vector_of(ex, vals, sort):
    return ex.new_array((P(len(vals)),), sort, lambda co: sum((T.ind(T.eq(co[0], P(i))).scale(v) for i, v in enumerate(vals)), ZERO))


@lib('numpy.sort')
def _sort(ex, x):
    v, sort = known_vector(ex, x)
    return vector_of(ex, sorted(v), sort)


@lib('numpy.intersect1d')
def _intersect1d(ex, a, b):
    (v, s), (w, r) = known_vector(ex, a), known_vector(ex, b)
    return vector_of(ex, sorted(set(v) & set(w)), 'int' if s == r == 'int' else 'real')


@lib('numpy.union1d')
def _union1d(ex, a, b):
    (v, s), (w, r) = known_vector(ex, a), known_vector(ex, b)
    return vector_of(ex, sorted(set(v) | set(w)), 'int' if s == r == 'int' else 'real')


class UniqueVal:
    def __init__(self, c):
        self.c = c


@lib('numpy.unique')
def _unique(ex, x, axis=None, return_index=None, return_inverse=None, return_counts=None):
    c = ex.content(x)
    wants = [w is T.TRUE or w is True for w in (return_index, return_inverse, return_counts)]
    if all(s.const() is not None and s.const() <= 64 for s in c.shape):
        ax = axis_of(ex, axis, len(c.shape))
        vals = {co: P(c.read(ex, tuple(P(q) for q in co))).const() for co in itertools.product(*[range(int(s.const())) for s in c.shape])}
        if None not in vals.values() and (ax == 0 or (ax is None and len(c.shape) == 1)) and len(c.shape) <= 2:
            # every value is known
            m = int(c.shape[0].const())
            keys = [tuple(v for co, v in vals.items() if co[0] == t) for t in range(m)]
            un = sorted(set(keys))

            def arr(data, sh, sort):
                return ex.new_array(sh, sort, lambda co: sum((T.ind(T.And(*[T.eq(a, P(b)) for a, b in zip(co, q)])).scale(v) for q, v in data), ZERO))
            if len(c.shape) == 1:
                out = [arr([((i,), k[0]) for i, k in enumerate(un)], (P(len(un)),), c.sort)]
            else:
                out = [arr([((i, j), v) for i, k in enumerate(un) for j, v in enumerate(k)], (P(len(un)), c.shape[1]), c.sort)]
            for w, f in zip(wants, ([keys.index(k) for k in un], [un.index(k) for k in keys], [keys.count(k) for k in un])):
                if w:
                    out.append(arr([((i,), v) for i, v in enumerate(f)], (P(len(f)),), 'int'))
            return tuple(out) if len(out) > 1 else out[0]
    if axis is not None or any(wants):
        raise Unsupported('np.unique options')
    return UniqueVal(c)


def subset(ex, a, b):
    if a.items is not None and b.items is not None:
        return T.And(*[T.Or(*[ex.truth(ex.compare('Eq', x, y)) for y in b.items]) for x in a.items])
    if b.items is None:
        raise Unsupported('set comparison')
    c = a.content
    co = tuple(T.fresh('u') for _ in c.shape)
    rng = []
    for x, s in zip(co, c.shape):
        rng += [T.le(ZERO, x), T.lt(x, s)]
    with ex.assume(*rng):
        v = c.read(ex, co)
        g = T.Or(*[T.eq(v, P(y)) for y in b.items])
        if ex.prove(g):
            return T.TRUE
    return T.bvar('subset!%s' % g.key)


# ---------------------------------------------------------------- numpy creation
def shp(ex, s):
    if isinstance(s, (Poly, Bool)):
        return (P(s),)
    if isinstance(s, tuple):
        return tuple(P(x) for x in s)
    if isinstance(s, Ref) and isinstance(ex.cell(s), Lst):
        return tuple(P(x) for x in ex.cell(s).items)
    raise Unsupported('shape')


def dt(d, default='real'):
    if d is None:
        return default
    n = d.name if isinstance(d, Mod) else (d if isinstance(d, str) else None)
    if isinstance(d, DtypeVal):
        return d.sort
    if n is None:
        raise Unsupported('dtype')
    n = n.split('.')[-1]
    if n.startswith('int') or n.startswith('uint') or n in ('i8', 'i4', 'long'):
        return 'int'
    if n.startswith('bool'):
        return 'bool'
    if n.startswith('float') or n in ('f8', 'd', 'double', 'object'):
        return 'real'
    raise Unsupported('dtype %s' % n)


class DtypeVal:
    def __init__(self, sort):
        self.sort = sort


def same_dtype(a, b):
    """Integer arrays are taken to be int64 and real ones float64; comparing with another width is refused."""
    for d in (a, b):
        if isinstance(d, Mod) and d.name.split('.')[-1] not in ('int', 'int64', 'float', 'float64', 'bool', 'bool_'):
            raise Unsupported('compare with dtype %s' % d.name)
    return T.TRUE if dt(a) == dt(b) else T.FALSE


@lib('numpy.zeros', 'numpy.empty')
def _zeros(ex, shape, dtype=None, **k):
    return ex.const_array(shp(ex, shape), ZERO, dt(dtype))


@lib('numpy.ones')
def _ones(ex, shape, dtype=None):
    return ex.const_array(shp(ex, shape), ONE, dt(dtype))


@lib('numpy.full')
def _full(ex, shape, v, dtype=None):
    return ex.const_array(shp(ex, shape), v, dt(dtype, P(v).sort))


@lib('numpy.zeros_like', 'numpy.empty_like')
def _zeros_like(ex, x, dtype=None):
    c = ex.content(x)
    return ex.const_array(c.shape, ZERO, dt(dtype, c.sort))


@lib('numpy.ones_like')
def _ones_like(ex, x, dtype=None):
    c = ex.content(x)
    return ex.const_array(c.shape, ONE, dt(dtype, c.sort))


@lib('numpy.eye', 'numpy.identity')
def _eye(ex, n):
    return ex.new_array((n, n), 'real', lambda c: T.ind(ex.dec(T.eq(c[0], c[1]))))


@lib('numpy.arange')
def _arange(ex, *a, **k):
    a = [P(x) for x in a]
    lo, hi = (ZERO, a[0]) if len(a) == 1 else a[:2]
    st = a[2] if len(a) > 2 else ONE
    n = ex.range_len(RangeVal(lo, hi, st))
    return ex.new_array((n,), 'int', lambda c: lo + st * c[0])


@lib('numpy.array_equal')
def _array_equal(ex, a, b, **k):
    ca, cb = ex.content(a), ex.content(b)
    if len(ca.shape) != len(cb.shape):
        return T.FALSE
    if len(ca.shape) == 1 and ca.shape[0].const() is not None and cb.shape[0].const() is not None:
        if ca.shape[0] != cb.shape[0]:
            return T.FALSE
        return ex.dec(T.And(*[T.eq(ca.read(ex, (P(q),)), cb.read(ex, (P(q),))) for q in range(int(ca.shape[0].const()))]))
    raise Unsupported('array_equal of symbolic arrays')


@lib('numpy.reshape')
def _reshape(ex, x, sh, **k):
    return method(ex, x, 'reshape', [sh], k)


@lib('numpy.vstack')
def _vstack(ex, xs, **k):
    s = ex.sequence(xs) if not ex.is_array(xs) else None
    if s is None:
        c = ex.content(xs)
        if len(c.shape) == 2:
            return _array(ex, xs)
        if len(c.shape) == 1:
            return ex.new_array((c.shape[0], ONE), c.sort, lambda co: c.read(ex, (co[0],)))
        raise Unsupported('vstack of a higher-dimensional array')
    if isinstance(s, list):
        cs = [ex.content(x) for x in s]
        if any(len(c.shape) == 2 for c in cs):
            cs = [c if len(c.shape) == 2 else Content((ONE,) + c.shape, c.sort, lambda co, c=c: c.read(ex, (co[1],))) for c in cs]
            return _concat(ex, tuple(ex.alloc(Arr(c)) for c in cs), axis=ZERO)
        return _array(ex, tuple(xs) if isinstance(xs, (list, tuple)) else xs)
    e0 = ex.content(s.elem(ZERO))
    if len(e0.shape) == 1:
        return ex.new_array((s.n,) + e0.shape, e0.sort, lambda co: ex.content(s.elem(co[0])).read(ex, co[1:]))
    m = e0.shape[0]
    ex.oblige('vstack: the blocks are not empty', T.lt(ZERO, m), 'pre')
    return ex.new_array((s.n * m, e0.shape[1]), e0.sort, lambda co: ex.content(s.elem(T.fdiv(co[0], m))).read(ex, (T.fmod(co[0], m), co[1])))


# ---------------------------------------------------------------- worker processes
class PoolVal:
    pass


@lib('multiprocess.Pool')
def _pool(ex, *a, **k):
    return PoolVal()


@lib('multiprocess.cpu_count')
def _cpu_count(ex):
    x = T.var('cpu_count!')
    ex.st.facts.append(T.le(ONE, x))
    return x


def _pickled(ex, x, memo=None):
    if isinstance(x, (tuple, list)):
        memo = {} if memo is None else memo
        return tuple(_pickled(ex, y, memo) for y in x)
    if ex.is_array(x) or isinstance(x, Content):
        c = ex.content(x)
        return ex.new_array(c.shape, c.sort, lambda co: c.read(ex, co))
    if isinstance(x, Ref) and isinstance(ex.cell(x), Obj):
        memo = {} if memo is None else memo
        if x.id not in memo:
            o = ex.cell(x)
            memo[x.id] = ex.alloc(Obj(o.cls, {}))
            ex.st.heap[memo[x.id].id] = Obj(o.cls, {k: _pickled(ex, v, memo) for k, v in o.attrs.items()})
        return memo[x.id]
    if isinstance(x, Clo) and isinstance(x.bound, Ref) and isinstance(ex.cell(x.bound), Obj):
        return x.bind(_pickled(ex, x.bound, {} if memo is None else memo))
    return x


def _pool_map(ex, f, it):
    """Pool.map: the results of f on copies of the items, in order; each call runs in its own process (no effect on this one)."""
    ex.assumed.add('multiprocess.Pool.map')
    s = ex.sequence(it)
    if isinstance(s, list):
        out = []
        for x in s:
            heap = dict(ex.st.heap)
            r = ex.call(f, [_pickled(ex, x)])
            ex.st.heap = {**ex.st.heap, **heap}
            out.append(r)
        return ex.alloc(Lst(out))
    if not isinstance(s, SeqVal):
        s = SeqVal(ex.range_len(s), lambda i, r=s: r.lo + r.step * i)
    v = T.fresh('w')
    va = v.as_atom()
    st = ex.st
    facts = list(st.facts)
    st.facts = facts + [T.le(ZERO, v), T.lt(v, s.n)]
    heap = dict(st.heap)
    ex.binders.append(v)
    try:
        r = ex.call(f, [_pickled(ex, s.elem(v))])
    finally:
        ex.binders.pop()
    ex.st.facts = [q for q in ex.st.facts if not T.occurs(va, q)]
    ex.st.qfacts = [q for q in ex.st.qfacts if not T.occurs(va, q.body)]
    ex.st.heap = {**ex.st.heap, **heap}

    def conv(x, i):
        if isinstance(x, (Poly, Bool)):
            return T.subst(P(x), {va: i})
        if isinstance(x, tuple):
            return tuple(conv(y, i) for y in x)
        if x is None:
            return None
        c = snap[id(x)]
        return ex.new_array(tuple(T.subst(q, {va: i}) for q in c.shape), c.sort, lambda co: ex.sub_read(c, va, i, co))
    snap = {}

    def collect(x):
        if isinstance(x, tuple):
            for y in x:
                collect(y)
        elif not isinstance(x, (Poly, Bool)) and x is not None:
            snap[id(x)] = ex.content(x)
    collect(r)
    return SeqVal(s.n, lambda i: conv(r, P(i)))


@lib('numpy.insert')
def _insert(ex, arr, where, val, axis=None, **k):
    """Insertion of one value in every row of a two-dimensional array, given as equally spaced positions of the flattened array (or
    with axis=1 and one position); the result is flat, its rows are remembered."""
    c = ex.content(arr)
    rows = None
    if len(c.shape) == 2:
        rows = c
    elif isinstance(arr, Ref) and arr.id in ex.flatrows:
        rows = ex.flatrows[arr.id]
    val = P(val)
    if len(c.shape) == 1 and axis is None and rows is None and (ex.is_array(where) or ex.is_list(where)):
        return _insert_listed(ex, c, where, val)
    if rows is None:
        raise Unsupported('insert into an array that is not made of rows')
    R, m = rows.shape
    if axis is not None:
        if P(axis).const() != 1 or len(c.shape) != 2 or not isinstance(where, Poly):
            raise Unsupported('insert along an axis')
        a = where
    else:
        if isinstance(where, Ref) and isinstance(ex.cell(where), Lst):
            raise Unsupported('insert at listed positions')
        w = ex.content(where)
        a = w.read(ex, (ZERO,))
        q = T.fresh('q')
        with ex.assume(T.le(ZERO, q), T.lt(q, w.shape[0])):
            ex.oblige('insert: one position in every row (same place)', T.eq(w.read(ex, (q,)), a + q * m), 'pre')
        ex.oblige('insert: one position for every row', T.eq(w.shape[0], R), 'pre')
    ex.oblige('insert: the position is inside the row', T.And(T.le(ZERO, a), T.le(a, m)), 'pre')

    def read2(co):
        q, p = co
        lt, eq = ex.dec(T.lt(p, a)), ex.dec(T.eq(p, a))
        if lt is T.TRUE:
            return rows.read(ex, (q, p))
        if eq is T.TRUE:
            return val
        out = []
        with ex.assume(T.Not(lt), T.Not(eq)):
            hi = rows.read(ex, (q, p - 1)) if not (lt is T.TRUE or eq is T.TRUE) else ZERO
        if lt is T.FALSE and eq is T.FALSE:
            return hi
        with ex.assume(lt):
            lo = rows.read(ex, (q, p)) if lt is not T.FALSE else ZERO
        return T.ite(lt, lo, T.ite(eq, val, hi))
    new = Content((R, m + 1), c.sort, read2)
    if axis is not None:
        return ex.alloc(Arr(new))
    flat = ex.new_array((R * (m + 1),), c.sort, lambda co: read2((T.fdiv(co[0], m + 1), T.fmod(co[0], m + 1))))
    ex.flatrows[flat.id] = new
    return flat


@lib('numpy.array', 'numpy.asarray', 'numpy.ascontiguousarray', 'numpy.copy', 'numpy.asanyarray')
def _array(ex, x, dtype=None, **k):
    if isinstance(x, Ref) and isinstance(ex.cell(x), Obj):
        raise Unsupported('array of object')
    c = ex.content(x)
    so = dt(dtype, c.sort)
    if so == 'int' and c.sort == 'real':
        return ex.new_array(c.shape, so, lambda co: _int(ex, c.read(ex, co)))
    return ex.new_array(c.shape, so, lambda co: c.read(ex, co))


def _asarray(ex, x, dtype=None, **k):
    if ex.is_array(x) and dtype is None:
        return x
    return _array(ex, x, dtype)


LIB['numpy.asarray'] = _asarray


def _ascontig(ex, x, dtype=None, **k):
    if ex.is_array(x) and (dtype is None or dt(dtype) == ex.content(x).sort):
        return x
    return _array(ex, x, dtype)


LIB['numpy.ascontiguousarray'] = _ascontig


@lib('numpy.hstack')
def _hstack(ex, xs, **k):
    s = ex.sequence(xs)
    if not isinstance(s, list):
        return _concat(ex, xs)
    return _concat(ex, xs, axis=ONE if len(ex.content(s[0]).shape) > 1 else ZERO)


@lib('numpy.append')
def _append(ex, a, b, axis=None):
    if axis is None and any(len(ex.content(x).shape) > 1 for x in (a, b) if not isinstance(x, (Poly, Bool))):
        raise Unsupported('append flattens')
    return _concat(ex, (a, b), axis=axis or ZERO)


@lib('numpy.delete')
def _delete(ex, a, i, axis=None):
    c = ex.content(a)
    if not isinstance(i, Poly) or (axis is None and len(c.shape) != 1):
        raise Unsupported('delete')
    ax = 0 if axis is None else axis_of(ex, axis, len(c.shape))
    if ax is None or ax >= len(c.shape):
        raise Unsupported('axis of delete')
    i = ex.norm_index(i, c.shape[ax])
    sh = tuple(n - 1 if k == ax else n for k, n in enumerate(c.shape))
    return ex.new_array(sh, c.sort, lambda co: c.read(ex, tuple(x + T.ind(T.le(i, x)) if k == ax else x for k, x in enumerate(co))))


@lib('numpy.fill_diagonal')
def _fill_diagonal(ex, a, val):
    c = ex.content(a)
    if len(c.shape) != 2 or not isinstance(val, (Poly, Bool)):
        raise Unsupported('fill_diagonal')
    p = P(val)
    ref, dims = ex.base_target(a)
    ex.write(ref, W(dims, T.TRUE, 'set', ex.local(dims, lambda co: T.ite(T.eq(co[0], co[1]), p, c.read(ex, co)))))
    return None


def concat_triangle(ex, s):
    """Concatenation of vectors of lengths n, n-1, ..., 1: the layout of the pairs i<j of n+1 things."""
    k = T.fresh('blk')
    with ex.assume(T.le(ZERO, k), T.lt(k, s.n)):
        c = ex.content(s.elem(k))
    if len(c.shape) != 1 or not (c.shape[0] - (s.n - k)) is ZERO:
        raise Unsupported('concatenate of a symbolic list of vectors of lengths %s' % (c.shape,))
    ex.oblige('concatenate: at least one array', T.lt(ZERO, s.n), 'pre')
    n = s.n + 1

    def base(co):
        i, j = pair_of(ex, n, co[0])
        with ex.assume(T.le(ZERO, i), T.lt(i, s.n)):
            return ex.content(s.elem(i)).read(ex, (j - i - 1,))
    return ex.new_array((tri(n),), c.sort, base)


@lib('numpy.concatenate')
def _concat(ex, xs, *more, axis=ZERO, **k):
    if more:
        xs = (xs,) + more
    if isinstance(xs, SeqVal) and P(axis).const() == 0 and not isinstance(xs.elem(ZERO), (Poly, Bool)):
        return concat_triangle(ex, xs)
    if not more and ex.is_array(xs) and len(ex.content(xs).shape) >= 2 and ex.content(xs).shape[0].const() is None and P(axis).const() == 0:
        c = ex.content(xs)
        m = c.shape[1]
        ex.oblige('concatenate: at least one array', T.lt(ZERO, c.shape[0]), 'pre')
        if m.const() == 1:
            return ex.new_array((c.shape[0],) + c.shape[2:], c.sort, lambda co: c.read(ex, (co[0], ZERO) + co[1:]))
        return ex.new_array((c.shape[0] * m,) + c.shape[2:], c.sort, lambda co: c.read(ex, (T.fdiv(co[0], m), T.fmod(co[0], m)) + co[1:]))
    s = ex.sequence(xs)
    if not isinstance(s, list):
        raise Unsupported('concatenate of symbolic list')
    ax = P(axis).const()
    cs = [ex.content(x) for x in s]
    cs = [c if c.shape else Content((ONE,), c.sort, lambda co, c=c: c.read(ex, ())) for c in cs]
    ax = int(ax)
    shape = list(cs[0].shape)
    for c in cs[1:]:
        if len(c.shape) != len(shape):
            raise Raised(Exc('ValueError'))
        for k in range(len(shape)):
            if k != ax % len(shape) and not (c.shape[k] - shape[k]) is ZERO:
                ex.oblige('concatenate: equal sizes along the other axes', T.eq(c.shape[k], shape[k]), 'pre')
    offs = [ZERO]
    for c in cs:
        offs.append(offs[-1] + c.shape[ax])
    shape[ax] = offs[-1]
    sort = 'real' if any(c.sort == 'real' for c in cs) else 'int'

    def base(co):
        r = None
        x = co[ax]
        pieces = list(range(len(cs)))
        for q in pieces[:-1]:
            d = ex.dec(T.lt(x, offs[q + 1]))
            if d is T.TRUE:
                v = cs[q].read(ex, co[:ax] + (x - offs[q],) + co[ax + 1:])
                break_v = v
                return _chain(pending, v) if False else _chain_all(pend, break_v)
            if d is T.FALSE:
                continue
            with ex.assume(d):
                v = cs[q].read(ex, co[:ax] + (x - offs[q],) + co[ax + 1:])
            pend.append((d, v))
        v = cs[-1].read(ex, co[:ax] + (x - offs[len(cs) - 1],) + co[ax + 1:])
        return _chain_all(pend, v)

    def base_(co):
        nonlocal pend
        pend = []
        return base(co)
    pend = []
    return ex.new_array(shape, sort, base_)


def _chain_all(pend, v):
    for d, w in reversed(pend):
        v = T.ite(d, w, v)
    return v


def diagonal(ex, c, k):
    """The k-th diagonal of a matrix (a copy; numpy returns a read-only view)."""
    if len(c.shape) != 2:
        raise Unsupported('diagonal of a higher array')
    r, m = c.shape
    k = P(k)
    up = T.TRUE if ex.prove(T.ge0(k)) else (T.FALSE if ex.prove(T.lt(k, ZERO)) else None)
    if up is None:
        raise Unsupported('diagonal offset of unknown sign')
    if up is T.FALSE:
        return diagonal(ex, Content((m, r), c.sort, lambda co: c.read(ex, (co[1], co[0]))), -k)
    if r is m or ex.prove(T.le(m - k, r)):
        n = m - k
    elif ex.prove(T.le(r, m - k)):
        n = r
    else:
        n = _min(ex, r, m - k)
    if not ex.prove(T.ge0(n)):
        n = _max(ex, n, ZERO)
    return ex.new_array((n,), c.sort, lambda co: c.read(ex, (co[0], co[0] + k)))


@lib('numpy.diagonal')
def _np_diagonal(ex, a, offset=ZERO):
    return diagonal(ex, ex.content(a), offset)


@lib('numpy.tri')
def _np_tri(ex, N, M=None, k=ZERO, dtype=None):
    N = P(N)
    M = N if M is None else P(M)
    k = P(k)
    return ex.new_array((N, M), dt(dtype), lambda co: T.ind(ex.dec(T.le(co[1], co[0] + k))))


@lib('copy.copy')
def _copy_copy(ex, x):
    if isinstance(x, (Poly, Bool, str, tuple)) or x is None:
        return x
    if isinstance(x, Ref) and isinstance(ex.cell(x), Lst) or ex.is_array(x):
        return method(ex, x, 'copy', [], {})
    raise Unsupported('copy.copy of %r' % (x,))


@lib('numpy.real_if_close')
def _real_if_close(ex, x):
    return x            # every number here is real


@lib('numpy.shape')
def _np_shape(ex, a):
    return tuple(ex.content(a).shape)


@lib('numpy.diag')
def _diag(ex, x, k=ZERO):
    c = ex.content(x)
    k = P(k)
    if k.const() != 0:
        if len(c.shape) != 1:
            return diagonal(ex, c, k)
        if not ex.prove(T.ge0(k)):
            raise Unsupported('diag with an offset that may be negative')
        n = c.shape[0] + k

        def shifted(co):
            d = ex.dec(T.eq(co[1] - co[0], k))
            if d is T.FALSE:
                return ZERO
            with ex.assume(d):
                return T.ite(d, c.read(ex, (co[0],)), ZERO)
        return ex.new_array((n, n), c.sort, shifted)
    if len(c.shape) == 1:
        n = c.shape[0]

        def base(co):
            d = ex.dec(T.eq(co[0], co[1]))
            if d is T.FALSE:
                return ZERO
            with ex.assume(d):
                return T.ite(d, c.read(ex, (co[0],)), ZERO)
        return ex.new_array((n, n), c.sort, base)
    return ex.new_array((c.shape[0],), c.sort, lambda co: c.read(ex, (co[0], co[0])))


@lib('numpy.diag_indices_from')
def _dif(ex, x):
    c = ex.content(x)
    a = ex.new_array((c.shape[0],), 'int', lambda co: co[0])
    return (a, a)


@lib('numpy.diag_indices')
def _diag_indices(ex, n, ndim=2):
    a = ex.new_array((P(n),), 'int', lambda co: co[0])
    return (a, a)


@lib('numpy.triu_indices')
def _triu(ex, n, k=ZERO):
    if P(k).const() != 1:
        if P(k).const() == 0 and P(n).const() is not None:
            n = int(P(n).const())
            prs = [(i, j) for i in range(n) for j in range(i, n)]
            a = ex.alloc(Lst([P(i) for i, _ in prs]))
            b = ex.alloc(Lst([P(j) for _, j in prs]))
            return (_array(ex, a), _array(ex, b))
        raise Unsupported('triu_indices offset')
    n = P(n)
    m = tri(n)
    I = ex.new_array((m,), 'int', lambda co: pair_of(ex, n, co[0])[0])
    J = ex.new_array((m,), 'int', lambda co: pair_of(ex, n, co[0])[1])
    return (I, J)


@lib('scipy.spatial.distance.squareform')
def _squareform(ex, x, **k):
    c = ex.content(x)
    if len(c.shape) == 1:
        n = size_from_tri(ex, c.shape[0])

        def base(co):
            i, j = co
            lt = ex.dec(T.lt(i, j))
            gt = T.FALSE if lt is T.TRUE else ex.dec(T.lt(j, i))
            v = ZERO
            for cond, q in ((lt, pidx(n, i, j)), (gt, pidx(n, j, i))):
                if cond is T.FALSE:
                    continue
                with ex.assume(cond):
                    v = v + T.ind(cond) * c.read(ex, (q,))
            return v
        return ex.new_array((n, n), c.sort, base)
    n = c.shape[0]
    # scipy checks symmetry and the zero diagonal
    i, j = T.fresh('sq'), T.fresh('sq')
    with ex.assume(T.le(ZERO, i), T.lt(i, n), T.le(ZERO, j), T.lt(j, n)):
        ex.oblige('squareform: matrix is symmetric', T.eq(c.read(ex, (i, j)), c.read(ex, (j, i))), 'callee-pre')
        ex.oblige('squareform: zero diagonal', T.eq(c.read(ex, (i, i)), ZERO), 'callee-pre')

    def base2(co):
        a, b = pair_of(ex, n, co[0])
        return c.read(ex, (a, b))
    return ex.new_array((tri(n),), c.sort, base2)


# ---------------------------------------------------------------- numpy elementwise
def _ew(name, fn, sort='real'):
    def f(ex, x, **k):
        return ex.map1(x, lambda p: fn(ex, p), sort)
    LIB[name] = strict(f)


def sqrt_poly(ex, p):
    c = p.const()
    if c is not None and c >= 0:
        from math import isqrt
        a, b = isqrt(c.numerator), isqrt(c.denominator)
        if a * a == c.numerator and b * b == c.denominator:
            return P(Fraction(a, b))
    # perfect squares of polynomials linear in one atom
    for a in p.atoms():
        co = {}
        ok = True
        for mon, k in p.m:
            if mon == ():
                co[0] = k
            elif len(mon) == 1 and mon[0][0] is a and mon[0][1] <= 2:
                co[mon[0][1]] = k
            else:
                ok = False
        if ok and co.get(2, 0) > 0:
            s = sqrt_poly(ex, P(co[2])).const()
            if s is not None:
                q = P(a).scale(s) + P(co.get(1, Fraction(0)) / (2 * s))
                if (q * q) is p and ex.prove(T.le(ZERO, q)):
                    return q
    return T.app('sqrt', (p,), 'real')


_ew('numpy.exp', lambda ex, p: T.fexp(p))
LIB['mpmath.exp'] = LIB['numpy.exp']
_ew('mpmath.log', lambda ex, p: T.flog(p))
LIB['mpmath.mp.exp'], LIB['mpmath.mp.log'] = LIB['mpmath.exp'], LIB['mpmath.log']
_ew('numpy.log', lambda ex, p: T.flog(p))
_ew('numpy.sqrt', sqrt_poly)
_ew('math.exp', lambda ex, p: T.fexp(p))
_ew('math.log', lambda ex, p: T.flog(p))
_ew('math.sqrt', sqrt_poly)
_ew('numpy.sin', lambda ex, p: T.app('sin', (p,), 'real'))
_ew('numpy.cos', lambda ex, p: T.app('cos', (p,), 'real'))
_ew('numpy.tanh', lambda ex, p: T.app('tanh', (p,), 'real'))
_ew('numpy.cosh', lambda ex, p: (T.fexp(p) + T.fexp(-p)).scale(Fraction(1, 2)))
def _atanh(ex, p):
    ex.oblige('arctanh: argument between -1 and 1', T.And(T.lt(-ONE, p), T.lt(p, ONE)), 'pre')
    return (T.flog(ONE + p) - T.flog(ONE - p)).scale(Fraction(1, 2))


_ew('numpy.arctanh', _atanh)
_ew('numpy.sign', lambda ex, p: T.ind(T.lt(ZERO, p)) - T.ind(T.lt(p, ZERO)), 'int')
def _log2(ex, p):
    k = p.const()
    v = T.app('log2', (p,), 'real')
    if k is not None and k >= 1:
        m = int(k).bit_length() - 1
        if k == 2 ** m:
            return P(m)
        ex.st.facts.append(T.And(T.lt(P(m), v), T.lt(v, P(m + 1))))
    return v


_ew('numpy.log2', _log2)
_ew('numpy.log1p', lambda ex, p: T.flog(p + 1))
_ew('numpy.ceil', lambda ex, p: -T.floor_(-p))
_ew('numpy.floor', lambda ex, p: T.floor_(p))
_ew('numpy.isnan', lambda ex, p: ZERO, 'bool')
_ew('numpy.logical_not', lambda ex, p: T.ind(T.eq(p, ZERO)), 'bool')
_ew('numpy.square', lambda ex, p: p * p)


@lib('numpy.where')
def _where(ex, c, a=None, b=None):
    if a is None:
        raise Unsupported('np.where with one argument')
    cs = [x if isinstance(x, (Poly, Bool)) else ex.content(x) for x in (c, a, b)]
    so = 'real' if any((x.sort if not isinstance(x, Bool) else 'bool') == 'real' for x in cs[1:]) else 'int'
    return ex.elementwise(cs, lambda x, y, z: T.ite(T.ne0(x), y, z), so)


@lib('numpy.maximum', 'numpy.minimum')
def _maximum(ex, a, b):
    raise Unsupported('np.maximum')


LIB['numpy.maximum'] = lambda ex, a, b: ex.elementwise([x if isinstance(x, (Poly, Bool)) else ex.content(x) for x in (a, b)], lambda x, y: _max(ex, x, y), 'real')
LIB['numpy.minimum'] = lambda ex, a, b: ex.elementwise([x if isinstance(x, (Poly, Bool)) else ex.content(x) for x in (a, b)], lambda x, y: _min(ex, x, y), 'real')
LIB['numpy.clip'] = lambda ex, a, lo, hi: ex.map1(a, lambda p: _min(ex, _max(ex, p, lo), hi))


# ---------------------------------------------------------------- reductions
def known_mask(ex, v):
    n = v.shape[0].const()
    if n is None or n > 64:
        return None
    on = []
    for q in range(int(n)):
        x = P(v.read(ex, (P(q),))).const()
        if x is None:
            b = ex.dec(T.ne0(v.read(ex, (P(q),))))
            x = 1 if b is T.TRUE else 0 if b is T.FALSE else None
        if x is None:
            return None
        if x:
            on.append(q)
    return on


def axis_of(ex, axis, nd):
    if axis is None:
        return None
    k = P(axis).const()
    k = int(k)
    return k + nd if k < 0 else k


@lib('numpy.sum')
def _npsum(ex, x, axis=None, **k):
    if isinstance(x, (Poly, Bool)):
        return P(x)
    c = ex.content(x)
    ax = axis_of(ex, axis, len(c.shape))
    if 'dtype' in k:
        k.pop('dtype')
    keep = k.pop('keepdims', None)
    if k:
        raise Unsupported('options of sum')
    if keep is not None and keep is T.TRUE:
        n = c.shape[ax]
        sh = tuple(ONE if q == ax else s for q, s in enumerate(c.shape))
        return ex.new_array(sh, 'int' if c.sort == 'bool' else c.sort,
                            lambda co: ex.sum(ZERO, n, lambda v: c.read(ex, co[:ax] + (v,) + co[ax + 1:])))
    if ax is None or len(c.shape) == 1:
        def rec(co):
            if len(co) == len(c.shape):
                return c.read(ex, co)
            return ex.sum(ZERO, c.shape[len(co)], lambda v: rec(co + (v,)))
        return rec(())
    n = c.shape[ax]
    sh = c.shape[:ax] + c.shape[ax + 1:]
    so = 'int' if c.sort == 'bool' else c.sort
    return ex.new_array(sh, so, lambda co: ex.sum(ZERO, n, lambda v: c.read(ex, co[:ax] + (v,) + co[ax:])))


@lib('numpy.mean', 'numpy.average')
def _mean(ex, x, axis=None, weights=None, **k):
    if weights is not None:
        raise Unsupported('weighted average')
    c = ex.content(x)
    ax = axis_of(ex, axis, len(c.shape))
    if ax is None:
        n = ONE
        for s in c.shape:
            n = n * s
    else:
        n = c.shape[ax]
    s = _npsum(ex, x, axis)
    return ex.binop('Div', s, n)


@lib('numpy.prod')
def _prod(ex, x, axis=None, **k):
    c = ex.content(x)
    ax = axis_of(ex, axis, len(c.shape))
    if ax is None and len(c.shape) == 1:
        ax = 0
    if ax is None:
        raise Unsupported('prod over all axes')
    n = c.shape[ax]

    def one(co):
        v = T.fresh('k')
        with ex.assume(T.le(ZERO, v), T.lt(v, n)):
            if n.const() is not None:
                r = ONE
                for q in range(int(n.const())):
                    r = r * c.read(ex, co[:ax] + (P(q),) + co[ax:])
                return r
            b = c.read(ex, co[:ax] + (v,) + co[ax:])
        return T.mkprod(v.as_atom(), ZERO, n, b)
    if len(c.shape) == 1:
        return one(())
    return ex.new_array(c.shape[:ax] + c.shape[ax + 1:], c.sort, one)


@lib('numpy.dot', 'numpy.matmul')
def _dot(ex, a, b, **k):
    if isinstance(a, (Poly, Bool)) or isinstance(b, (Poly, Bool)):
        return ex.binop('Mult', a, b)
    ca, cb = ex.content(a), ex.content(b)
    so = 'real' if 'real' in (ca.sort, cb.sort) else 'int'
    n = ca.shape[-1]
    m = cb.shape[-2] if len(cb.shape) > 1 else cb.shape[0]
    if n is not m:
        ex.oblige('dot: shapes agree', T.eq(n, m), 'shape')

    def rb(v, rest):
        return cb.read(ex, rest[:-1] + (v,) + rest[-1:]) if len(cb.shape) > 1 else cb.read(ex, (v,))
    na = len(ca.shape) - 1
    sh = ca.shape[:-1] + (cb.shape[:-2] + cb.shape[-1:] if len(cb.shape) > 1 else ())

    def base(co):
        return ex.sum(ZERO, n, lambda v: ca.read(ex, co[:na] + (v,)) * rb(v, co[na:]))
    if not sh:
        return base(())
    return ex.new_array(sh, so, base)


@lib('numpy.transpose')
def _transpose(ex, a, axes=None):
    c = ex.content(a)
    perm = [int(P(x).const()) for x in ex.sequence(axes)] if axes is not None else list(range(len(c.shape)))[::-1]
    if sorted(perm) != list(range(len(c.shape))):
        raise Raised(Exc('ValueError'))
    return ex.new_array(tuple(c.shape[p] for p in perm), c.sort, lambda co: c.read(ex, tuple(co[perm.index(k)] for k in range(len(perm)))))


@lib('numpy.repeat')
def _repeat(ex, a, n, axis=None):
    c = ex.content(a)
    if not isinstance(n, Poly) or (axis is None and len(c.shape) != 1):
        raise Unsupported('repeat')
    ax = int(P(axis).const()) % len(c.shape) if axis is not None else 0
    ex.oblige('repeat: a count', T.ge0(n), 'pre')
    sh = list(c.shape)
    sh[ax] = sh[ax] * n
    if c.shape[ax].const() == 1:
        return ex.new_array(sh, c.sort, lambda co: c.read(ex, tuple(ZERO if k == ax else x for k, x in enumerate(co))))
    return ex.new_array(sh, c.sort, lambda co: c.read(ex, tuple(T.fdiv(x, n) if k == ax else x for k, x in enumerate(co))))


@lib('numpy.outer')
def _outer(ex, a, b):
    ca, cb = ex.content(a), ex.content(b)
    so = 'real' if 'real' in (ca.sort, cb.sort) else 'int'
    return ex.new_array((ca.shape[0], cb.shape[0]), so, lambda co: ca.read(ex, co[:1]) * cb.read(ex, co[1:]))


@lib('numpy.any', 'numpy.all')
def _any(ex, *a, **k):
    raise Unsupported('any/all')


def quant(ex, x, kind, axis=None):
    """any/all over all elements (or along one axis): decided generically, else by the number of elements that are true (false)."""
    if isinstance(x, Bool):
        return x
    c = ex.content(x)
    if axis is not None and len(c.shape) > 1:
        ax = axis_of(ex, axis, len(c.shape))

        def red(co):
            one = ex.new_array((c.shape[ax],), 'bool', lambda v: T.ind(T.ne0(c.read(ex, co[:ax] + v + co[ax:]))))
            return T.ind(quant(ex, one, kind))
        return ex.new_array(c.shape[:ax] + c.shape[ax + 1:], 'bool', red)
    if all(s.const() is not None for s in c.shape):
        import itertools as it
        bs = []
        for co in it.product(*[range(int(s.const())) for s in c.shape]):
            bs.append(T.ne0(c.read(ex, tuple(P(q) for q in co))))
        return T.Or(*bs) if kind == 'any' else T.And(*bs)
    co = tuple(T.fresh('u') for _ in c.shape)
    rng = []
    for q, s in zip(co, c.shape):
        rng += [T.le(ZERO, q), T.lt(q, s)]
    with ex.assume(*rng):
        b = T.ne0(c.read(ex, co))
        from .sums import prove_bound
        if kind == 'all' and prove_bound(ex, b):
            return T.TRUE
        if kind == 'any' and prove_bound(ex, T.Not(b)):
            return T.FALSE
    # the number of elements that are true (false)
    def count(k, got):
        if k == len(c.shape):
            x = T.ne0(c.read(ex, tuple(got)))
            return T.ind(x if kind == 'any' else T.Not(x))
        return ex.sum(ZERO, c.shape[k], lambda v: count(k + 1, got + [v]))
    n = count(0, [])
    return T.Not(T.eq(n, ZERO)) if kind == 'any' else T.eq(n, ZERO)


LIB['numpy.any'] = lambda ex, x, axis=None: quant(ex, x, 'any', axis)
LIB['numpy.all'] = lambda ex, x, axis=None: quant(ex, x, 'all', axis)


@lib('numpy.diff')
def _diff(ex, x, **k):
    c = ex.content(x)
    return ex.new_array((c.shape[0] - 1,), c.sort, lambda co: c.read(ex, (co[0] + 1,)) - c.read(ex, co))


@lib('numpy.linspace')
def _linspace(ex, a, b, num=50, **k):
    if k:
        raise Unsupported('linspace options')
    a, b, m = P(a), P(b), P(num)
    if not ex.prove(T.le(P(2), m)):
        raise Unsupported('linspace with fewer than two points')
    r = ex.new_array((m,), 'real', lambda co: a + (b - a) * co[0] / (m - 1))
    return r


def isclose1(a, b):
    return T.TRUE if a is b else T.bapp('isclose', (a, b))


@lib('numpy.isclose')
def _isclose(ex, a, b, **k):
    """An unknown truth value for numbers that are not the same."""
    if isinstance(a, Poly) and isinstance(b, Poly):
        return isclose1(a, b)
    return ex.elementwise([x if isinstance(x, (Poly, Bool)) else ex.content(x) for x in (a, b)], lambda x, y: T.ind(isclose1(x, y)), 'bool')


@lib('numpy.allclose')
def _allclose(ex, a, b, **k):
    if isinstance(a, Poly) and isinstance(b, Poly):
        return isclose1(a, b)
    raise Unsupported('allclose')


@lib('numpy.linalg.norm')
def _norm(ex, x, **k):
    c = ex.content(x)
    return T.app('sqrt', (ex.sum(ZERO, c.shape[0], lambda v: c.read(ex, (v,)) * c.read(ex, (v,))),), 'real')


@lib('scipy.special.logsumexp', 'scipy.misc.logsumexp')
def _logsumexp(ex, x, axis=None, **k):
    if k:
        raise Unsupported('logsumexp options')
    c = ex.content(x)
    if len(c.shape) == 2 and axis is not None:
        ax = int(P(axis).const()) % 2

        def red(co):
            at = (lambda v: (v, co[0])) if ax == 0 else (lambda v: (co[0], v))
            return T.flog(ex.sum(ZERO, c.shape[ax], lambda v: T.fexp(c.read(ex, at(v)))))
        return ex.new_array((c.shape[1 - ax],), 'real', red)
    if len(c.shape) == 2 and axis is None:
        return T.flog(ex.sum(ZERO, c.shape[0], lambda i: ex.sum(ZERO, c.shape[1], lambda j: T.fexp(c.read(ex, (i, j))))))
    if len(c.shape) != 1:
        raise Unsupported('logsumexp of an array')
    return T.flog(ex.sum(ZERO, c.shape[0], lambda v: T.fexp(c.read(ex, (v,)))))


@lib('scipy.special.binom')
def _binom(ex, n, k):
    n, k = P(n), P(k)
    kc, nc = k.const(), n.const()
    if kc is not None and nc is not None:
        return P(comb(int(nc), int(kc))) if nc >= 0 and kc >= 0 else ZERO
    if kc is not None:
        r = ONE
        for q in range(int(kc)):
            r = r * (n - q)
        from math import factorial
        # for an integer 0<=n<k the product is 0, as the binomial is
        return r.scale(Fraction(1, factorial(int(kc))))
    return T.app('binomint', (n, k), 'int')


@lib('itertools.combinations')
def _combinations(ex, x, k):
    kc = P(k).const()
    s = ex.sequence(x)
    if isinstance(s, list) and kc is not None:
        return tuple(itertools.combinations(s, int(kc)))
    if kc == 2 and isinstance(s, (RangeVal, SeqVal)):
        if isinstance(s, RangeVal):
            n = ex.range_len(s)
            el = lambda i: s.lo + s.step * i
        else:
            n, el = s.n, s.elem

        def elem(q):
            a, b = pair_of(ex, n, q)
            return (el(a), el(b))
        return SeqVal(tri(n), elem)
    if kc == 1:
        if isinstance(s, RangeVal):
            return SeqVal(ex.range_len(s), lambda i: (s.lo + s.step * i,))
    raise Unsupported('combinations of a symbolic range')


@lib('itertools.product')
def _product(ex, *xs, repeat=ONE):
    ss = [ex.sequence(x) for x in xs]
    if all(isinstance(s, list) for s in ss):
        return tuple(itertools.product(*ss, repeat=int(P(repeat).const())))
    raise Unsupported('product of symbolic ranges')


# ---------------------------------------------------------------- random numbers
def unit(x):
    return T.And(T.le(ZERO, x), T.lt(x, ONE))


def rand(ex, *shape, src='global', **k):
    ex.assumed.add('random draws are in their documented range')
    if not shape or shape == (None,):
        r = ex.fresh('rand', 'real', unit)
        ex.draw('rand', src, r)
        return r
    ex.draw('rand', src, None)
    sh = shp(ex, shape[0]) if len(shape) == 1 else tuple(P(s) for s in shape)
    ex.nfresh += 1
    nm = 'rands~%d' % ex.nfresh
    bs = tuple(ex.binders)
    smt.add_fun_fact(nm, lambda *a: unit(T.app(nm, a, 'real')))
    return ex.new_array(sh, 'real', lambda co: T.app(nm, bs + co, 'real'))


def randint(ex, lo, hi=None, size=None, src='global', **k):
    ex.assumed.add('random draws are in their documented range')
    lo = P(lo)
    if hi is None:
        lo, hi = ZERO, lo
    hi = P(hi)
    if size is None:
        r = ex.fresh('randint', 'int', lambda x: T.And(T.le(lo, x), T.lt(x, hi)))
        ex.draw('randint', src, r, lo, hi)
        return r
    ex.nfresh += 1
    nm = 'randints~%d' % ex.nfresh
    ex.draw('randint', src, nm, lo, hi)
    bs = tuple(ex.binders)
    smt.add_fun_fact(nm, lambda *a: T.And(T.le(lo, T.app(nm, a, 'int')), T.lt(T.app(nm, a, 'int'), hi)))
    return ex.new_array(shp(ex, size), 'int', lambda co: T.app(nm, bs + co, 'int'))


LIB['numpy.random.rand'] = rand
LIB['numpy.random.random'] = rand
LIB['numpy.random.randint'] = randint


def uniform(ex, lo=ZERO, hi=ONE, size=None, src='global', **k):
    ex.assumed.add('random draws are in their documented range')
    lo, hi = P(lo), P(hi)
    r = rand(ex, src=src) if size is None else rand(ex, size, src=src)
    if isinstance(r, Poly):
        return lo + (hi - lo) * r
    c = ex.content(r)
    return ex.new_array(c.shape, 'real', lambda co: lo + (hi - lo) * c.read(ex, co))


def choice(ex, vals, size=None, src='global', **k):
    if isinstance(vals, Poly):
        return randint(ex, vals, None, size, src=src)
    vs = ex.sequence(vals)
    if not isinstance(vs, list) or k:
        raise Unsupported('choice')
    vs = [P(v) for v in vs]

    def val(q):
        r = vs[-1]
        for i in range(len(vs) - 2, -1, -1):
            r = T.ite(T.eq(q, P(i)), vs[i], r)
        return r
    r = randint(ex, P(len(vs)), None, size, src=src)
    if isinstance(r, Poly):
        return val(r)
    c = ex.content(r)
    return ex.new_array(c.shape, 'int' if all(v.sort == 'int' for v in vs) else 'real', lambda co: val(c.read(ex, co)))


def normal(ex, loc=ZERO, scale=ONE, size=None, src='global'):
    ex.draw('normal', src, None)
    if size is None:
        return ex.fresh('normal', 'real')
    ex.nfresh += 1
    nm = 'normals~%d' % ex.nfresh
    bs = tuple(ex.binders)
    return ex.new_array(shp(ex, size), 'real', lambda co: T.app(nm, bs + co, 'real'))


RNG = {'rand': rand, 'random': rand, 'randint': randint, 'uniform': uniform, 'choice': choice, 'normal': normal}
LIB['numpy.random.choice'] = choice
LIB['numpy.random.uniform'] = uniform
LIB['numpy.random.normal'] = normal


class RngVal:
    """numpy RandomState / Generator: draws are arbitrary values of their range."""

    def __init__(self, src='rng'):
        self.src = src


def _random_state(ex, seed=None, **k):
    """A generator; its source names what it was seeded with (nothing: the operating system's entropy)."""
    if seed is None:
        return RngVal('entropy')
    return RngVal(('seed', P(seed)))


LIB['numpy.random.RandomState'] = _random_state
LIB['numpy.random.default_rng'] = _random_state
LIB['numpy.random.seed'] = lambda ex, *a: None


# ---------------------------------------------------------------- helpers of the C++ extraction (see cxx.py)
def _cxx_div(fn):
    def f(ex, a, b):
        a, b = P(a), P(b)
        ex.oblige('integer division: operands are not negative', T.And(T.le(ZERO, a), T.lt(ZERO, b)), 'pre')
        return fn(a, b)
    return f


LIB['builtins.cxx_imod'] = _cxx_div(T.fmod)
LIB['builtins.cxx_idiv'] = _cxx_div(T.fdiv)


@lib('builtins.cxx_unsigned')
def _cxx_unsigned(ex, a):
    a = P(a)
    ex.oblige('conversion to unsigned: the value is not negative', T.le(ZERO, a), 'pre')
    return a


@lib('builtins.cxx_static_cast_int')
def _cxx_cast(ex, a):
    return _int(ex, P(a))


@lib('builtins.cxx_data')
def _cxx_data(ex, a, kind):
    """The raw buffer of an ndarray: only meaningful for a contiguous vector of exactly this element type (contract of the caller)."""
    c = ex.content(a)
    if a in getattr(ex, 'foreign', ()):
        ex.oblige('raw buffer: an array given by the caller may be strided or of another type', T.FALSE, 'pre')
    ex.oblige('raw buffer: one-dimensional array of %s' % kind, T.TRUE if len(c.shape) == 1 and c.sort == ('real' if kind == 'float64' else 'int') else T.FALSE, 'pre')
    return a


@lib('builtins.cxx_astype')
def _cxx_astype(ex, a, kind):
    """ndarray::astype: a new contiguous array of the given type (for a one-dimensional array) with the same values."""
    c = ex.content(a)
    if kind == 'int32' and c.sort == 'real':
        raise Unsupported('astype int of a float array')
    return ex.new_array(c.shape, 'real' if kind == 'float64' else 'int', lambda co: c.read(ex, co))


# ---------------------------------------------------------------- attributes and methods
def attribute(ex, o, name):
    if isinstance(o, (RngVal, PoolVal)):
        return BMeth(o, name)
    if ex.is_array(o) or isinstance(o, Content):
        c = ex.content(o)
        if name == 'shape':
            return tuple(c.shape)
        if name == 'size':
            r = ONE
            for s in c.shape:
                r = r * s
            return r
        if name == 'ndim':
            return P(len(c.shape))
        if name == 'T':
            if len(c.shape) == 1:
                return o
            return ex.new_array(tuple(reversed(c.shape)), c.sort, lambda co: c.read(ex, tuple(reversed(co))))
        if name == 'dtype':
            return DtypeVal(c.sort)
        return BMeth(o, name)
    if isinstance(o, (Ref, Poly, Bool, str, tuple, UniqueVal, SetVal)):
        if isinstance(o, (Ref, str, tuple)) and name in ('shape', 'ndim', 'size', 'dtype', 'T'):
            raise Raised(Exc('AttributeError'))
        if isinstance(o, Poly) and name in ('size',):
            return ONE
        return BMeth(o, name)
    raise Unsupported('attribute %s of %r' % (name, o))


def is_chrs(ex, c):
    if not c.shape or c.sort != 'int':
        return False
    with ex.assume():
        t = c.read(ex, tuple(T.fresh('z') for _ in c.shape))
    return any(a.kind == 'f' and a.args[0] == 'chr' for a in T.all_atoms(t))


def unchr(ex, t):
    """int(character): its digit value (decimal digits only)."""
    a = t.as_atom()
    if a is None or a.kind != 'f' or a.args[0] != 'chr':
        raise Unsupported('integer value of a character')
    v = a.args[1][0]
    if not (ex.prove(T.And(T.le(ZERO, v), T.le(v, P(9))))):
        raise Unsupported('integer value of a character that may be a letter')
    return v


@lib('numpy.mod', 'numpy.remainder')
def _npmod(ex, a, b):
    return ex.binop('Mod', P(a) if isinstance(a, Bool) else a, b)


@lib('numpy.floor_divide')
def _npfd(ex, a, b):
    return ex.binop('FloorDiv', a, b)


@lib('numpy.isnan', 'mpmath.isnan')
def _isnan(ex, x):
    """No real number is NaN (floats are reals: not-a-number results are outside the model)."""
    if isinstance(x, (Poly, Bool)):
        return T.FALSE
    c = ex.content(x)
    return ex.new_array(c.shape, 'bool', lambda co: ZERO)


@lib('numpy.binary_repr')
def _binary_repr(ex, i, width=None):
    """Digits of i, most significant first, in exactly width characters; needs 0 <= i < 2**width (otherwise it is longer or has a sign)."""
    if width is None:
        raise Unsupported('binary_repr without width')
    i, w = P(i), P(width)
    ex.oblige('binary_repr: the integer fits the width', T.And(T.le(ZERO, i), T.lt(i, T.power(P(2), w))), 'pre')
    return SeqVal(w, lambda j: T.app('chr', (T.fmod(T.fdiv(i, T.power(P(2), w - 1 - j)), P(2)),), 'int'))


def method(ex, o, name, args, kwargs):
    if isinstance(o, UniqueVal) and name == 'tolist':
        return o
    if isinstance(o, PoolVal):
        if name == 'map':
            return _pool_map(ex, *args[:2])
        if name in ('close', 'join', 'terminate'):
            return None
        raise Unsupported('Pool.%s' % name)
    if isinstance(o, RngVal):
        if name in RNG:
            return RNG[name](ex, *args, src=o.src, **kwargs)
        raise Unsupported('random generator method %s' % name)
    if isinstance(o, str):
        if name == 'format':
            return '<formatted>'
        try:
            return getattr(o, name)(*args)
        except Exception:
            raise Unsupported('string method')
    if isinstance(o, Ref):
        c = ex.cell(o)
        if isinstance(c, (Lst, SymLst)) and not isinstance(c, Arr):
            return list_method(ex, o, c, name, args, kwargs)
        if isinstance(c, Dct):
            if name == 'keys':
                return tuple(ex.unkey(k) for k in c.d)
            if name == 'values':
                return tuple(c.d.values())
            if name == 'items':
                return tuple((ex.unkey(k), v) for k, v in c.d.items())
            if name == 'get':
                return c.d.get(ex.dkey(args[0]), args[1] if len(args) > 1 else None)
            if name == 'pop':
                k = ex.dkey(args[0])
                d = dict(c.d)
                if k not in d and len(args) > 1:
                    return args[1]
                v = d.pop(k)
                ex.st.heap[o.id] = Dct(d)
                return v
            raise Unsupported('dict.%s' % name)
    if ex.is_array(o):
        c = ex.content(o)
        if name == 'copy':
            return ex.new_array(c.shape, c.sort, lambda co: c.read(ex, co))
        if name == 'astype':
            so = dt(args[0])
            if so == 'int' and c.sort == 'real':
                return ex.new_array(c.shape, so, lambda co: _int(ex, c.read(ex, co)))
            if so == 'int' and is_chrs(ex, c):
                return ex.new_array(c.shape, so, lambda co: unchr(ex, c.read(ex, co)))
            if so == 'bool' and c.sort != 'bool':
                return ex.new_array(c.shape, so, lambda co: T.ind(T.ne0(c.read(ex, co))))
            return ex.new_array(c.shape, so, lambda co: c.read(ex, co))
        if name == 'sum':
            return _npsum(ex, o, *args, **kwargs)
        if name == 'mean':
            return _mean(ex, o, *args, **kwargs)
        if name == 'prod':
            return _prod(ex, o, *args, **kwargs)
        if name == 'dot':
            return _dot(ex, o, *args)
        if name in ('any', 'all'):
            return quant(ex, o, name, *args, **kwargs)
        if name == 'diagonal':
            return _diag(ex, o)
        if name in ('ravel', 'flatten', 'reshape', 'copy', 'transpose', 'tolist', 'item', 'diagonal') and \
                (kwargs or (args and name not in ('reshape',))) and not (set(kwargs) <= {'order'} and all(x in ('C', 'K') for x in [*args, *kwargs.values()])):
            raise Unsupported('options of %s' % name)
        if name in ('ravel', 'flatten'):
            if len(c.shape) == 1:
                return ex.new_array(c.shape, c.sort, lambda co: c.read(ex, co))
            if len(c.shape) == 2 and c.shape[1].const() is not None:
                m = c.shape[1]
                return ex.new_array((c.shape[0] * m,), c.sort, lambda co: c.read(ex, (T.fdiv(co[0], m), T.fmod(co[0], m))))
            raise Unsupported('ravel')
        if name == 'reshape':
            sh = shp(ex, args[0]) if len(args) == 1 else tuple(P(a) for a in args)
            if isinstance(o, Ref) and o.id in ex.flatrows and len(sh) == 2:
                rows = ex.flatrows[o.id]
                for a, b in zip(sh, rows.shape):
                    ex.oblige('reshape to the rows it was made of', T.eq(a, b), 'pre')
                return ex.new_array(sh, c.sort, lambda co: rows.read(ex, co))
            if len(c.shape) == 1 and len(sh) == 2:
                m = sh[1]
                return ex.new_array(sh, c.sort, lambda co: c.read(ex, (co[0] * m + co[1],)))
            raise Unsupported('reshape')
        if name in ('argmin', 'argmax'):
            return ex.lib['numpy.' + name](ex, o, *args, **kwargs)
        if name in ('min', 'max'):
            return extremum(ex, c, name, *args, **{k: v for k, v in kwargs.items() if k == 'axis'})
        if name == 'fill':
            ref, dims = ex.base_target(o)
            p = P(args[0])
            ex.write(ref, W(dims, T.TRUE, 'set', lambda co: p))
            return None
        if name == 'tolist':
            return ex.alloc(SymLst(c))
        if name == 'item':
            return c.read(ex, tuple(ZERO for _ in c.shape))
        if name == 'transpose':
            return attribute(ex, o, 'T')
        raise Unsupported('array method %s' % name)
    if isinstance(o, Poly):
        if name in ('copy', 'sum', 'mean', 'astype'):
            return o
    if isinstance(o, tuple) and name == 'index':
        raise Unsupported('tuple.index')
    raise Unsupported('method %s of %r' % (name, o))


def extremum(ex, c, name, axis=None):
    """min/max of all elements (a value bounding every element and attained by one), or along one axis of known length."""
    two = _min if name == 'min' else _max
    if axis is not None:
        k = axis_of(ex, axis, len(c.shape))
        if len(c.shape) > 1:
            m = c.shape[k].const()
            if m is None or not 1 <= m <= 8:
                raise Unsupported('%s along an axis of symbolic length' % name)
            return ex.new_array(c.shape[:k] + c.shape[k + 1:], c.sort,
                                lambda co: two(ex, *[c.read(ex, co[:k] + (P(q),) + co[k:]) for q in range(int(m))]))
    if all(s.const() is not None for s in c.shape) and len(c.shape) == 1 and 1 <= c.shape[0].const() <= 8:
        vals = [c.read(ex, (P(q),)) for q in range(int(c.shape[0].const()))]
        return two(ex, *vals) if len(vals) > 1 else vals[0]
    if len(c.shape) == 1 and ex.prove(T.lt(ZERO, c.shape[0])):
        i = T.fresh('m')
        with ex.assume(T.le(ZERO, i), T.lt(i, c.shape[0])):
            el = c.read(ex, (i,))
        if i.as_atom() not in T.all_atoms(el, under_binders=True):
            return el
    x = ex.fresh(name, c.sort if c.sort != 'bool' else 'int')
    if not ex.binders:
        co = tuple(T.fresh('x') for _ in c.shape)
        rng = T.And(*[T.And(T.le(ZERO, a), T.lt(a, s)) for a, s in zip(co, c.shape)])
        ex.st.facts.append(rng)
        ex.st.facts.append(T.eq(x, c.read(ex, co)))
        v = tuple(T.fresh('y') for _ in c.shape)
        with ex.assume(*[f for a, s in zip(v, c.shape) for f in (T.le(ZERO, a), T.lt(a, s))]):
            el = c.read(ex, v)
        ex.st.qfacts = list(ex.st.qfacts) + [QF(tuple((a.as_atom(), ZERO, s) for a, s in zip(v, c.shape)),
                                                T.le(x, el) if name == 'min' else T.le(el, x))]
        ex.oblige('%s of a nonempty array' % name, T.And(*[T.lt(ZERO, s) for s in c.shape]), 'callee-pre')
    return x


def arg_extremum(ex, x, name, axis=None):
    """argmin/argmax of a vector: an index within it whose entry bounds every entry."""
    c = ex.content(x)
    if axis is not None or len(c.shape) != 1 or ex.binders:
        raise Unsupported('%s of this array' % name)
    ex.oblige('%s of a nonempty array' % name, T.lt(ZERO, c.shape[0]), 'callee-pre')
    k, v = T.fresh(name), T.fresh('y')
    ex.st.facts += [T.le(ZERO, k), T.lt(k, c.shape[0])]
    with ex.assume(T.le(ZERO, v), T.lt(v, c.shape[0])):
        el = c.read(ex, (v,))
    at = c.read(ex, (k,))
    ex.st.qfacts = list(ex.st.qfacts) + [QF(((v.as_atom(), ZERO, c.shape[0]),), T.le(at, el) if name == 'argmin' else T.le(el, at))]
    return k


LIB['numpy.argmin'] = lambda ex, x, axis=None: arg_extremum(ex, x, 'argmin', axis)
LIB['numpy.argmax'] = lambda ex, x, axis=None: arg_extremum(ex, x, 'argmax', axis)


def _ext(ex, x, axis=None, which='max'):
    return extremum(ex, ex.content(x), which, axis)


LIB['numpy.max'] = lambda ex, x, axis=None: _ext(ex, x, axis, 'max')
LIB['numpy.min'] = lambda ex, x, axis=None: _ext(ex, x, axis, 'min')


def list_method(ex, o, c, name, args, kwargs):
    if isinstance(c, Lst):
        items = list(c.items)
        if name == 'append':
            ex.st.heap[o.id] = Lst(items + [args[0]])
            return None
        if name == 'extend':
            s = ex.sequence(args[0])
            if isinstance(s, list):
                ex.st.heap[o.id] = Lst(items + s)
                return None
            return _extend(ex, o, args[0])
        if name == 'pop':
            k = int(P(args[0]).const()) if args and P(args[0]).const() is not None else (-1 if not args else None)
            if k is None:
                raise Unsupported('pop at symbolic index')
            v = items.pop(k)
            ex.st.heap[o.id] = Lst(items)
            return v
        if name == 'insert':
            items.insert(int(P(args[0]).const()), args[1])
            ex.st.heap[o.id] = Lst(items)
            return None
        if name == 'copy':
            return ex.alloc(Lst(items))
        if name == 'reverse':
            ex.st.heap[o.id] = Lst(items[::-1])
            return None
        if name == 'index':
            for q, x in enumerate(items):
                t = ex.dec(ex.truth(ex.compare('Eq', x, args[0])))
                if t is T.TRUE:
                    return P(q)
                if t is not T.FALSE:
                    break
            raise Unsupported('list.index')
        if name == 'remove':
            for q, x in enumerate(items):
                t = ex.dec(ex.truth(ex.compare('Eq', x, args[0])))
                if t is T.TRUE:
                    ex.st.heap[o.id] = Lst(items[:q] + items[q + 1:])
                    return None
                if t is not T.FALSE:
                    raise Unsupported('list.remove of an element that may or may not be there')
            raise Raised(Exc('ValueError'))
        raise Unsupported('list.%s' % name)
    cc = c.c
    if name == 'append':
        n = cc.shape[0]
        x = chr_(args[0])
        if isinstance(x, (Poly, Bool)):
            p = P(x)
            w = W([('at', n)], T.TRUE, 'set', lambda co: p)
        else:
            src = ex.content(x)
            dims = [('at', n)] + [('rng', ZERO, s) for s in cc.shape[1:]]
            w = W(dims, T.TRUE, 'set', lambda co: src.read(ex, co[1:]))
        so = cc.sort if not (isinstance(x, Poly) and x.sort == 'real') else 'real'
        ex.st.heap[o.id] = SymLst(Content((n + 1,) + cc.shape[1:], so, cc.base, cc.log + (w,)))
        return None
    if name == 'extend':
        return _extend(ex, o, args[0])
    raise Unsupported('list.%s on a list of symbolic length' % name)


def _extend(ex, o, more):
    ca, cb = ex.content(o), ex.content(more)
    m = ca.shape[0]
    if m is ZERO:
        r = cb
    elif P(cb.shape[0]) is ZERO:
        return None
    else:
        def base(co):
            h = ex.dec(T.lt(co[0], m))
            return T.ite(h, ca.read(ex, co) if h is not T.FALSE else ZERO, cb.read(ex, (co[0] - m,) + tuple(co[1:])) if h is not T.TRUE else ZERO)
        r = Content((m + cb.shape[0],) + tuple(ca.shape[1:]), ca.sort if ca.sort == cb.sort else 'real', base)
    ex.st.heap[o.id] = SymLst(r)
    return None


def ind_of(ex, c):
    """The indicator of a condition on a polynomial in indicators, as a polynomial of indicators of simple conditions."""
    from .sums import top_inds
    if c.kind not in ('ge', 'gt', 'eq'):
        return T.ind(c)
    p = c.args[0]
    xs = top_inds(p)
    if not xs:
        return T.ind(c)
    a = xs[0]

    def put(v):
        q = T.subst(p, {a: P(v)})
        return ind_of(ex, T.ge0(q) if c.kind == 'ge' else T.gt0(q) if c.kind == 'gt' else T.eq(q, ZERO))
    return P(a) * put(1) + (ONE - P(a)) * put(0)


def _insert_listed(ex, c, where, val):
    """One value inserted into a vector of fixed length before the listed positions (which must not decrease): the entry at position j moves
    up by the number of listed positions that are at most j, every other entry of the result is the value."""
    w = ex.content(where)
    m, k = P(c.shape[0]).const(), P(w.shape[0])
    if m is None or m > 12:
        raise Unsupported('insert at listed positions of a vector of symbolic length')
    q = T.fresh('q')
    with ex.assume(T.le(ZERO, q), T.lt(q, k)):
        ex.oblige('insert: the position is inside the vector', T.And(T.le(ZERO, w.read(ex, (q,))), T.le(w.read(ex, (q,)), P(m))), 'pre')
        with ex.assume(T.lt(q + 1, k)):
            ex.oblige('insert: positions do not decrease', T.le(w.read(ex, (q,)), w.read(ex, (q + 1,))), 'pre')
    at = [P(j) + ex.sum(ZERO, k, lambda i, j=j: ind_of(ex, T.le(w.read(ex, (i,)), P(j)))) for j in range(int(m))]

    def read(co):
        r = val
        for j in range(int(m) - 1, -1, -1):
            h = ex.dec(T.eq(co[0], at[j]))
            if h is T.TRUE:
                r = c.read(ex, (P(j),))
            elif h is not T.FALSE:
                r = T.ite(h, c.read(ex, (P(j),)), r)
        return r
    so = c.sort                       # numpy keeps the type of the vector
    return ex.new_array((P(m) + k,), so, (lambda co: read(co)) if so == 'real' or val.sort == 'int' else (lambda co: _int(ex, read(co))))


def fancy(ex, base, ix):
    """Advanced indexing (read)."""
    c = ex.content(base)
    idx = list(ix) if isinstance(ix, tuple) and not (isinstance(base, Ref) and False) else [ix]

    def isvec(x):
        return not isinstance(x, (Poly, Bool, Slice)) and x is not None
    if len(idx) == 1 and isinstance(ix, tuple) and len(c.shape) == 1:
        pass
    # reversal
    if any(isinstance(x, Slice) and x.step is not None and P(x.step).const() != 1 for x in idx):
        if all(isinstance(x, Slice) for x in idx):
            maps = []
            sh = list(c.shape)
            for k, x in enumerate(idx):
                stp = P(x.step).const() if x.step is not None else 1
                n = c.shape[k]
                if stp == 1:
                    lo, hi = ex.norm_slice(x, n)
                    maps.append((lo, 1))
                    sh[k] = hi - lo
                elif stp == -1 and x.lo is None and x.hi is None:
                    maps.append((n - 1, -1))
                elif stp > 1 and x.hi is None:
                    lo = P(x.lo) if x.lo is not None else ZERO
                    maps.append((lo, int(stp)))
                    sh[k] = T.fdiv(n - lo + int(stp) - 1, P(int(stp)))
                else:
                    raise Unsupported('stepped slice')
            while len(maps) < len(c.shape):
                maps.append((ZERO, 1))
            return ex.new_array(sh, c.sort, lambda co: c.read(ex, tuple(m[0] + q * m[1] for m, q in zip(maps, co))))
        raise Unsupported('stepped slice')
    vecs = [ex.content(x) if isvec(x) else None for x in idx]
    # boolean masks: one whose values are all decided selects listed positions
    for k, v in enumerate(vecs):
        if v is not None and v.sort == 'bool':
            on = known_mask(ex, v) if len(v.shape) == 1 else None
            if on is not None:
                if T.eq(v.shape[0], c.shape[k]) is not T.TRUE:
                    ex.oblige('boolean index matches', T.eq(v.shape[0], c.shape[k]), 'shape')
                vecs[k] = ex.content(ex.new_array((P(len(on)),), 'int', lambda co: sum((T.ind(T.eq(co[0], P(j))).scale(q) for j, q in enumerate(on)), ZERO)))
                continue
            if len(vecs) == 1 and len(v.shape) == len(c.shape) == 1:
                return MaskVal(c, v)
            raise Unsupported('boolean mask')
    nv = [k for k, v in enumerate(vecs) if v is not None]
    if all(len(vecs[k].shape) == 1 for k in nv):
        m = vecs[nv[0]].shape[0]
        for k in nv[1:]:
            if vecs[k].shape[0] is not m:
                ex.oblige('index vectors agree', T.eq(vecs[k].shape[0], m), 'shape')
        # in-bounds for a generic position
        q = T.fresh('u')
        with ex.assume(T.le(ZERO, q), T.lt(q, m)):
            neg = {}
            for k in nv:
                at = vecs[k].read(ex, (q,))
                dim = c.shape[k]
                if ex.prove(T.le(ZERO, at)):
                    ex.oblige('index in bounds', T.lt(at, dim), 'bounds')
                else:
                    ex.oblige('index in bounds', T.And(T.le(-dim, at), T.lt(at, dim)), 'bounds')
                    neg[k] = True
        full = idx + [Slice(None, None, None)] * (len(c.shape) - len(idx))
        contiguous = nv == list(range(nv[0], nv[0] + len(nv)))
        if not contiguous:
            raise Unsupported('separated index vectors')
        sh, plan = [], []
        for k, x in enumerate(full):
            if k in nv:
                if k == nv[0]:
                    pos = len(sh)
                    sh.append(m)
                plan.append(('v', vecs[k], pos, c.shape[k], k in neg))
            elif isinstance(x, Slice):
                lo, hi = ex.norm_slice(x, c.shape[k])
                plan.append(('s', lo, len(sh)))
                sh.append(hi - lo)
            else:
                plan.append(('i', ex.norm_index(x, c.shape[k])))

        def rd(co):
            out = []
            for p in plan:
                if p[0] == 'v':
                    at = p[1].read(ex, (co[p[2]],))
                    if p[4]:
                        d = ex.dec(T.lt(at, ZERO))
                        at = at + p[3] if d is T.TRUE else (at if d is T.FALSE else T.ite(d, at + p[3], at))
                    out.append(at)
                elif p[0] == 's':
                    out.append(p[1] + co[p[2]])
                else:
                    out.append(p[1])
            return c.read(ex, tuple(out))
        return ex.new_array(sh, c.sort, rd)
    raise Unsupported('fancy index')


class MaskVal:
    """x[mask] for one-dimensional x: only reductions of it are defined."""

    def __init__(self, c, m):
        self.c, self.m = c, m

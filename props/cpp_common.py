"""The compiled sampler (cpp/samplers.cpp) as extracted from its clang AST, and its objects under their invariant (shared by C09, C10)."""
from pyvc import cxx, smt
from pyvc import terms as T
from pyvc.terms import P, ZERO, ONE
from pyvc.lib import tri, RngVal
from pyvc.exec import Obj
CPP = 'cpp/samplers.cpp'


def spin(x):
    return T.Or(T.eq(x, ONE), T.eq(x, -ONE))


def colour(x):
    return T.And(T.le(ZERO, x), T.le(x, P(2)))


def cpp(u, ex):
    text, dropped = cxx.extract(ex.repo)
    for k, why in sorted(dropped.items()):
        note = 'C++ extraction drops %s (%s)' % (k, why[:80])
        if note not in u.notes:
            u.notes.append(note)
    ex.assumed.add('C++ extraction: clang AST printed as Python (int without overflow, double as real, std::vector by value as array)')
    return ex.load_source(text, CPP)


def unit_rng(ex, env):
    o = ex.alloc(Obj(env['cxx_uniform_real'], dict(a=ZERO, b=ONE)))
    return o


def cpp_object(u, ex, cls, n, name='couplings'):
    """An object of the class under its invariant: multipliers theta; couplingMat symmetric, zero on the diagonal, theta at the canonical positions."""
    env = cpp(u, ex)
    k = 3 if cls == 'Potts3' else 1
    th = ex.sym_array('theta', (n.scale(k) + tri(n),), 'real')
    t0 = ex.content(th)

    def base(co):
        a, b = co
        lo, hi = T.ite(T.le(a, b), a, b), T.ite(T.le(a, b), b, a)
        return coupling(ex, lo, hi)

    def coupling(ex, lo, hi):
        return T.app('C', (lo, hi), 'real')
    smt.add_fun_fact('C', lambda a, b: T.Implies(T.eq(a, b), T.eq(T.app('C', (a, b), 'real'), ZERO)))
    C = ex.new_array((n, n), 'real', base)
    at = dict(n=n, multipliers=th, couplingMat=C, rd=RngVal('own'), unitrng=unit_rng(ex, env))
    if cls == 'Potts3':
        at['staterng'] = ex.alloc(Obj(env['cxx_uniform_int'], dict(a=ONE, b=P(2))))
    return env, ex.alloc(Obj(env[cls], at)), th, t0, C, ex.content(C)

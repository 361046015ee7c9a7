"""Contracts shared by the solvers that constrain only some parameters (C13, C15)."""
import os
from pyvc import terms as T
from pyvc.terms import P, ZERO
from pyvc.exec import Obj
S = 'coniii/solvers.py'
DEEP = os.environ.get('PYVC_TIER') == 'thorough'


def sparse_solver(u, ex, m, cls='SparseMCH'):
    """A sparse solver of L parameters, m of them constrained, at any increasing positions."""
    env = ex.load(S)
    L = T.var('L')
    pos = [T.var('p%d' % i) for i in range(m)]
    u.requires(ex, pos[0] >= 0, *[pos[i] < pos[i + 1] for i in range(m - 1)], pos[-1] < L)
    ix = ex.new_array((P(m),), 'int', lambda co: sum((T.ind(T.eq(co[0], P(i))) * pos[i] for i in range(m)), ZERO))
    mod = ex.alloc(Obj(None, {'multipliers': ex.sym_array('multipliers', (L,), 'real')}))
    return L, pos, ex.alloc(Obj(env[cls], {'parameterIx': ix, 'model': mod}))


def insertion(u):
    for m in (1, 2, 3, 4, 5) + ((6, 7) if DEEP else ()):
        ex = u.ex('%d constrained' % m)
        L, pos, o = sparse_solver(u, ex, m)
        u.call(ex, ex.getattr(o, 'set_insertion_ix'), [])
        x = ex.sym_array('x', (P(m),), 'real')
        xc = ex.content(x)
        fill = T.var('fill', 'real')
        for lab, args, v in (('', [], ZERO), (', another fill value', [fill], fill)):
            r = u.call(ex, ex.getattr(o, 'fill_in'), [x] + args)
            u.shape(ex, 'one value per parameter' + lab, r, [L])
            for i in range(m):
                u.elem(ex, 'constrained parameter at its position' + lab, r, (pos[i],), xc.read(ex, (P(i),)))
            f = u.idx(ex, 'f', 0, L)
            with ex.assume(*[T.ne0(f - p) for p in pos]):
                u.elem(ex, 'fill value elsewhere' + lab, r, (f,), v)
        u.unchanged(ex, 'values unchanged', x, xc)

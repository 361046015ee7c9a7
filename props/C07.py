"""C07: the shipped exact-solution modules give the Boltzmann distribution."""
import glob
import os
import re
from pyvc.units import unit
from pyvc import terms as T
from pyvc.terms import P, ZERO, ONE
from props.eqn_common import ENUM, subsets, ising_rows, check_module
from pyvc.heap import Unsupported
REPO = os.environ.get('REPO', os.environ.get('CONIII_REPO', '/repo'))


def shipped():
    out = []
    for p in sorted(glob.glob(os.path.join(REPO, 'coniii/ising_eqn/ising_eqn_*.py'))):
        g = re.match(r'ising_eqn_(\d+)(_sym)?(_triplet)?(_hp)?\.py$', os.path.basename(p))
        if g:
            out.append(('coniii/ising_eqn/' + os.path.basename(p), int(g.group(1)), bool(g.group(2)), 3 if g.group(3) else 2, bool(g.group(4))))
    return out


EXPECTED = ['ising_eqn_%d%s.py' % (n, s) for n in range(2, 10) for s in ('', '_sym')] + ['ising_eqn_5_triplet.py', 'ising_eqn_5_sym_triplet.py']


def make(group):
    def body(u):
        have = {os.path.basename(x[0]) for x in shipped()}
        for path, n, sym, order, hp in group:
            check_module(u, os.path.basename(path)[:-3], lambda ex, fn: u.fn(ex, path, fn), ising_rows(n, sym, subsets(n, order)),
                         'mp_fast_logsumexp' if hp else 'fast_logsumexp')
    return body


for nm, sel in (('up to 6 spins', lambda x: x[1] <= 6), ('7 spins', lambda x: x[1] == 7), ('8 spins', lambda x: x[1] == 8 and not x[2]),
                ('8 spins sym', lambda x: x[1] == 8 and x[2]), ('9 spins', lambda x: x[1] >= 9 and not x[2]), ('9 spins sym', lambda x: x[1] >= 9 and x[2])):
    g = [x for x in shipped() if sel(x)]
    if g:
        unit('shipped modules, %s' % nm, [x[0] for x in g], timeout=600)(make(g))


@unit('all modules are present', ['coniii/ising_eqn'])
def present(u):
    ex = u.ex('')
    have = {os.path.basename(x[0]) for x in shipped()}
    for f in EXPECTED:
        ex.oblige('%s is shipped' % f, T.TRUE if f in have else T.FALSE, 'post')


@unit('signed log-sum-exp', [ENUM + ':fast_logsumexp', ENUM + ':mp_fast_logsumexp'])
def lse(u):
    for fn in ('fast_logsumexp', 'mp_fast_logsumexp'):
        for co in (False, True):
            for neg in ((False, True) if co else (False,)):
                ex = u.ex('%s%s%s' % (fn, ' with coefficients' if co else '', ', negative sum' if neg else ''))
                n = T.var('n')
                u.requires(ex, n >= 1)
                X = ex.sym_array('X', (n,), 'real')
                C = ex.sym_array('c', (n,), 'real')
                x, c = (lambda q, a=ex.content(X): a.read(ex, (q,))), (lambda q, a=ex.content(C): a.read(ex, (q,)))
                w = c if co else (lambda q: ONE)
                if co:
                    # the sign of the sum is that of the sum of the exponentials relative to any reference exponent (lemma below)
                    ref = T.var('m', 'real')
                r = u.call(ex, u.fn(ex, ENUM, fn), [X, C] if co else [X])
                mx = sorted({a for a in T.all_atoms(r[0]) if a.kind == 'v' and a.key.startswith('max')}, key=lambda a: a.key)
                if len(mx) != 1:
                    raise Unsupported('the largest exponent is not taken out')
                m = P(mx[0])
                y = ex.sum(ZERO, n, lambda q: w(q) * T.fexp(x(q) - m))
                full = ex.sum(ZERO, n, lambda q: w(q) * T.fexp(x(q)))
                u.eq(ex, 'lemma: taking out the reference exponent', T.fexp(m) * y, full)
                q = u.idx(ex, 'q', 0, n)
                ex.hints.append((q,))
                ex.oblige('no exponential overflows: every exponent is at most 0', T.le(x(q), m), 'post')
                cond = T.lt(y, ZERO) if neg else T.ge0(y)
                with ex.assume(cond):
                    u.eq(ex, 'log of the absolute value', r[0], T.flog(-y if neg else y) + m)
                    u.eq(ex, 'sign', r[1], P(-1) if neg else ONE)

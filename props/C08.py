"""C08: generated exact-solution code is the Boltzmann distribution of the model."""
import json
import os
import shutil
import subprocess
import tempfile
from pyvc.units import unit
from pyvc import terms as T
from pyvc import smt
from pyvc.terms import P, ZERO, ONE
from pyvc.exec import SymLst, Lst
from pyvc.heap import Content, Unsupported
from props.eqn_common import ENUM, check_module, ising_rows, potts_rows
from props import gen_modules
POTTS = 'coniii/enumerate_potts.py'


@unit('sign of a state in an observable', [ENUM + ':_compute_signs'])
def signs(u):
    for order in (1, 2, 3, 4):
        for sym in (True, False):
            ex = u.ex('order %d, %s' % (order, '{-1,1}' if sym else '{0,1}'))
            n, m = T.var('n'), T.var('m')
            u.requires(ex, n >= 1, m >= 1)
            smt.add_fun_fact('bit', lambda j: T.And(T.le(ZERO, T.app('bit', (j,), 'int')), T.le(T.app('bit', (j,), 'int'), ONE)))
            state = ex.alloc(SymLst(Content((n,), 'int', lambda co: T.app('chr', (T.app('bit', co, 'int'),), 'int'))))
            ix = [ex.sym_array('k%d' % q, (m,), 'int', lambda x: T.And(T.le(ZERO, x), T.lt(x, n))) for q in range(order)]
            sub = ex.alloc(Lst(ix))
            r = u.call(ex, u.fn(ex, ENUM, '_compute_signs'), [sub, 'unused', state] + ([] if sym else [T.FALSE]))
            u.shape(ex, 'one sign per constraint', r, [m])
            i = u.idx(ex, 'i', 0, m)
            want = ONE
            for a in ix:
                b = T.app('bit', (ex.content(a).read(ex, (i,)),), 'int')
                # files of the {-1,1} basis write spin -1 as 1 (the states are reversed at the end)
                want = want * (ONE - b.scale(2) if sym else b)
            u.elem(ex, 'sign is the product of the named spins', r, [i], want)


@unit('generated modules', [ENUM + ':write_eqns', ENUM + ':write_py', ENUM + ':get_terms01', ENUM + ':get_terms11', ENUM + ':pairwise',
                            ENUM + ':triplet', POTTS + ':SpecificFieldGenericCouplings'], timeout=600)
def generated(u):
    repo = u.repo
    tier = os.environ.get('PYVC_TIER', 'quick')
    d = tempfile.mkdtemp(prefix='gen')
    try:
        env = dict(os.environ, PYTHONPATH=repo, PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1')
        p = subprocess.run(['/opt/venv/bin/python', '-W', 'ignore', os.path.abspath(gen_modules.__file__), tier], cwd=d, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=400)
        if not os.path.exists(os.path.join(d, 'modules.json')):
            raise Unsupported('the generator does not run: ' + p.stdout[-500:])
        files = json.load(open(os.path.join(d, 'modules.json')))
        u.notes.append('bounded: modules generated by the real generator for the listed sizes and orders; each module is then proved for all real parameters')
        for q, (job, f) in enumerate(zip(gen_modules.jobs(tier), files)):
            label = ' '.join('%s=%s' % kv for kv in job.items() if kv[1] not in (None, False))
            if f.startswith('error'):
                u.ex(label).oblige('a module is written', T.FALSE, 'post', detail=f)
                continue
            src = open(os.path.join(d, f)).read()
            name = 'coniii/ising_eqn/generated%d.py' % q

            def load(ex, fn, src=src, name=name):
                g = ex.load_source(src, name)
                if fn not in g:
                    raise Unsupported('%s is not defined in the generated module' % fn)
                return g[fn]
            rows = potts_rows(job['n'], job['k']) if job['kind'] == 'potts' else ising_rows(job['n'], job['sym'], gen_modules.subs(job))
            check_module(u, label, load, rows, 'mp_fast_logsumexp' if job.get('hp') else 'fast_logsumexp')
    finally:
        shutil.rmtree(d, ignore_errors=True)

#!/usr/bin/env python3
"""Runs the check of one property: proof units (pyvc, under the verification Python) and runtime contract checks (bounded, real code).

  check.py <property> [quick|thorough]        exit 0: held; exit 1: VIOLATION line(s)
"""
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('CONIII_REPO', '/repo')
PY = os.environ.get('CONIII_PYTHON', '/opt/venv/bin/python')
CXX_PROPS = {'C09', 'C10', 'C05'}
sys.path.insert(0, VERIF)
sys.setrecursionlimit(20000)


def build_ext(out):
    """Compile the extension from the current C++ sources into the scratch directory."""
    inc = subprocess.run([PY, '-c', 'import sysconfig,numpy;print(sysconfig.get_paths()["include"]);print(numpy.get_include())'],
                         capture_output=True, text=True).stdout.split()
    so = os.path.join(out, 'samplers_ext.so')
    ps = []
    for f in ('samplers', 'py'):
        ps.append((f, subprocess.Popen(['g++', '-DNDEBUG', '-g', '-O2', '-fPIC', '-std=c++11', '-w', '-I' + os.path.join(REPO, 'cpp')] +
                                       ['-I' + i for i in inc] + ['-c', os.path.join(REPO, 'cpp', f + '.cpp'), '-o', os.path.join(out, f + '.o')],
                                       stderr=subprocess.PIPE, text=True)))
    err = ''
    for f, p in ps:
        e = p.communicate()[1]
        if p.returncode:
            err += e
    if err:
        return None, err
    r = subprocess.run(['g++', '-shared', '-o', so, os.path.join(out, 'samplers.o'), os.path.join(out, 'py.o'), '-lboost_python312', '-lboost_numpy312'],
                       capture_output=True, text=True)
    if r.returncode:
        return None, r.stderr
    return so, ''


def unit_worker(prop, k, path):
    os.setpgid(0, 0)
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    from pyvc import units
    r = units.run_unit(units.UNITS[k], REPO)
    with open(path, 'w') as f:
        json.dump(r, f)


def failed_unit(u, why):
    return dict(unit=u.name, targets=u.targets, seconds=0, functions={}, assumed=[], notes=[], vacuity_checks=0, stats={},
                obligations=[dict(name=u.name + '/generate the obligations', kind='generation', status='error', backend='-', time=0, detail=why)])


def run_units(prop, tier, scratch, workers, deadline):
    from pyvc import units
    try:
        importlib.import_module('props.' + prop)
    except ModuleNotFoundError as e:
        if 'props.' + prop in str(e):
            return []
        raise
    mine = [(k, u) for k, u in enumerate(units.UNITS) if u.fn.__module__ == 'props.' + prop and (tier == 'thorough' or u.tier == 'quick')]
    todo = list(mine)
    running = {}
    out = []
    while todo or running:
        while todo and len(running) < workers:
            k, u = todo.pop(0)
            if time.time() > deadline:
                out.append(failed_unit(u, 'not reached within the time of the check'))
                continue
            path = os.path.join(scratch, 'unit%d.json' % k)
            p = mp.Process(target=unit_worker, args=(prop, k, path))
            p.start()
            running[k] = (p, u, path, time.time())
        for k, (p, u, path, t0) in list(running.items()):
            if not p.is_alive():
                p.join()
                del running[k]
                if os.path.exists(path):
                    out.append(json.load(open(path)))
                else:
                    out.append(failed_unit(u, 'the verifier process ended without a result (exit %s)' % p.exitcode))
            elif time.time() - t0 > u.timeout * (3 if tier == 'thorough' else 1) or time.time() > deadline:
                p.kill()
                p.join()
                del running[k]
                out.append(failed_unit(u, 'not discharged within %d s' % u.timeout))
        time.sleep(0.01)
    order = {u.name: q for q, (k, u) in enumerate(mine)}
    out.sort(key=lambda r: order[r['unit']])
    return out


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix='coniii-%s-' % prop)
    rep_dir = os.path.join(VERIF, 'evidence', 'replays')
    os.makedirs(rep_dir, exist_ok=True)
    for f in os.listdir(rep_dir):
        if f.startswith(prop + '-'):
            os.unlink(os.path.join(rep_dir, f))
    os.environ['PYVC_TIER'], os.environ['PYVC_SCRATCH'] = tier, scratch
    code = 1
    try:
        code = run(prop, tier, seed, t0, scratch, rep_dir)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(code)


def run(prop, tier, seed, t0, scratch, rep_dir):
    env = dict(os.environ, PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', NUMBA_CACHE_DIR=os.path.join(scratch, 'nc'),
               CONIII_REPO=REPO, OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', MKL_NUM_THREADS='1', NUMBA_NUM_THREADS='2',
               TMPDIR=scratch, PYTHONWARNINGS='ignore', RT_SCRATCH=scratch, HOME=scratch)
    violations = []          # (file stem, dict, suffix)
    ext_note = None
    if prop in CXX_PROPS:
        so, err = build_ext(scratch)
        if so is None:
            violations.append(('build', dict(what='the C++ extension does not compile', output=err[-3000:]), ' no-failing-input-found'))
        else:
            env['CONIII_EXT'] = so
            ext_note = 'C++ extension compiled from the current sources'
    rt = None
    has_rt = os.path.exists(os.path.join(VERIF, 'replay', prop + '.py'))
    if has_rt:
        rt = subprocess.Popen([PY, '-W', 'ignore', os.path.join(VERIF, 'replay', 'rt.py'), prop, tier, str(seed), scratch],
                              env=env, cwd=scratch, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
    units_out = run_units(prop, tier, scratch, 4, t0 + (780 if tier == 'quick' else 20000))
    t_units = time.time() - t0
    cases = []
    if rt is not None:
        try:
            out, _ = rt.communicate(timeout=(820 if tier == 'quick' else 6000) - (time.time() - t0))
        except subprocess.TimeoutExpired:
            os.killpg(rt.pid, signal.SIGKILL)
            out = 'runtime checks did not finish'
        f = os.path.join(scratch, prop + '.json')
        if os.path.exists(f):
            cases = json.load(open(f))
        else:
            cases = [dict(case='runtime', status='fail', what='the runtime checks ended without a result', inputs={'output': out[-3000:]}, evals=0,
                          seconds=0, known=[], samples=[])]
    # ---- verdict
    obls = [o for u in units_out for o in u['obligations']]
    bad = [o for o in obls if o['status'] != 'proved']
    fails = [c for c in cases if c['status'] != 'ok']
    known = []
    for c in cases:
        for k in c.get('known', []):
            known.append(tuple(k))
    for c in fails:
        stem = '%s-%s' % (prop, ''.join(ch if ch.isalnum() else '_' for ch in c['case']))
        violations.append((stem, dict(property=prop, case=c['case'], what=c['what'], inputs=c.get('inputs'), got=c.get('got'), expected=c.get('want'),
                                      seed=seed, tier=tier, failed_obligations=[o['name'] for o in bad][:20],
                                      replay_command='cd /verif && VERIF_SEED=%d python3-vt check.py %s %s' % (seed, prop, tier)), ''))
    if bad and not fails:
        groups = {}
        for o in bad:
            groups.setdefault(o['name'].split('/')[0], []).append(o)
        for g, os_ in list(groups.items())[:6]:
            stem = '%s-obligation-%s' % (prop, ''.join(ch if ch.isalnum() else '_' for ch in g))
            violations.append((stem, dict(property=prop, failed_obligation=os_[0]['name'], kind=os_[0]['kind'], verifier_status=os_[0]['status'],
                                          verifier_output=os_[0]['detail'], all_failed=[(o['name'], o['status'], o['detail']) for o in os_[:10]],
                                          note='no failing input was found by the runtime checks'), ' no-failing-input-found'))
    # ---- evidence
    funcs = {}
    assumed = set()
    stats = dict(z3_calls=0, z3_time=0.0, cvc5_calls=0, cvc5_time=0.0)
    backends = {}
    for u in units_out:
        funcs.update(u['functions'])
        assumed |= set(u['assumed'])
        for k in stats:
            stats[k] += u['stats'].get(k, 0)
    for o in obls:
        if o['status'] == 'proved':
            backends[o['backend']] = backends.get(o['backend'], 0) + 1
    level = LEVELS.get(prop, 'proof')
    bounded = [dict(case=c['case'], evaluations=c['evals'], bound=c.get('bound'), seconds=c['seconds']) for c in cases]
    cov = dict(obligations=len(obls), discharged=sum(o['status'] == 'proved' for o in obls),
               checker_cmd='python3-vt check.py %s %s  (pyvc VC generator; z3 %s, cvc5 fall-back)' % (prop, tier, z3v()),
               trusted_base=['pyvc (this VC generator and its loop-summary rule), z3, cvc5, CPython ast parser',
                             'Python ints and floats are mathematical integers and reals; numba executes the Python semantics of the decorated source'] +
                            ['assumed contract: ' + a for a in sorted(assumed)],
               functions_under_contract=sorted('%s#%s' % kv for kv in funcs.items()),
               discharged_by=backends, vacuity_checks=sum(u['vacuity_checks'] for u in units_out), solver=stats,
               units=[dict(unit=u['unit'], targets=u['targets'], obligations=len(u['obligations']), seconds=u['seconds'], notes=u['notes']) for u in units_out],
               evaluations=sum(c['evals'] for c in cases), bounded_runtime_checks=bounded,
               bounded_note='the runtime contract checks are bounded stand-ins and cross-checks; they are never counted as discharged obligations',
               samples=[s for c in cases for s in c.get('samples', [])][:3])
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov, wall_s=round(time.time() - t0, 2), violations=len(violations),
              assumptions=sorted(assumed))
    if ext_note:
        cov['extension'] = ext_note
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    # ---- report
    print('%s: %d/%d obligations discharged (%s; %.1f s), %d functions executed under contract, %d runtime contract evaluations in %d cases, %.1f s' % (
        prop, cov['discharged'], cov['obligations'], ', '.join('%s %d' % kv for kv in sorted(backends.items())) or 'none', t_units, len(funcs),
        cov['evaluations'], len(cases), time.time() - t0))
    for o in bad[:12]:
        print('  obligation not discharged: %s [%s, %s]' % (o['name'], o['kind'], o['status']))
    for c in fails:
        print('  runtime contract violated in %s: %s' % (c['case'], c['what']))
    for key, what in sorted(set(known)):
        print('KNOWN-FINDING: property=%s %s: %s' % (prop, key, what))
    for stem, d, suffix in violations:
        path = os.path.join(rep_dir, stem + '.json')
        with open(path, 'w') as f:
            json.dump(d, f, indent=1)
        print('VIOLATION property=%s replay=%s%s' % (prop, path, suffix))
    return 1 if violations else 0


LEVELS = {}


def z3v():
    try:
        import z3
        return z3.get_version_string()
    except Exception:
        return '?'


if __name__ == '__main__':
    main()

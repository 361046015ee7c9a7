"""Runtime contract checks of the real code (bounded): runs under the repository's interpreter.

Usage: rt.py <property> <tier> <seed> <outdir> [case ...]   ->  <outdir>/<property>.json
Every case runs in its own forked process, so a crash or an endless loop of the code under test is a failure of the case."""
import hashlib
import importlib
import importlib.util
import json
import os
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
CASES = []


class Fail(Exception):
    def __init__(self, what, inputs=None, got=None, want=None):
        self.what, self.inputs, self.got, self.want = what, inputs or {}, got, want


def case(name, timeout=300, units=(), needs=None):
    def deco(fn):
        CASES.append((name, fn, timeout, tuple(units)))
        return fn
    return deco


def js(x, depth=0):
    import numpy as np
    if isinstance(x, np.ndarray):
        if x.size > 4000:
            return {'dtype': str(x.dtype), 'shape': list(x.shape), 'head': js(x.ravel()[:200].tolist(), depth + 1)}
        return {'dtype': str(x.dtype), 'shape': list(x.shape), 'values': js(x.tolist(), depth + 1)}
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, (np.floating,)):
        return float(x)
    if isinstance(x, np.bool_):
        return bool(x)
    if isinstance(x, dict):
        return {str(k): js(v, depth + 1) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [js(v, depth + 1) for v in x]
    if isinstance(x, (int, float, str, bool)) or x is None:
        return x
    return repr(x)[:500]


class Case:
    def __init__(self, prop, name, tier, seed):
        import numpy as np
        self.np = np
        self.prop, self.name, self.tier, self.seed = prop, name, tier, seed
        h = int(hashlib.sha1(('%s/%s/%d' % (prop, name, seed)).encode()).hexdigest()[:8], 16)
        self.rng = np.random.RandomState(h)
        self.evals = 0
        self.known = []
        self.samples = []
        self.listed = {}
        self.bound = None

    @property
    def deep(self):
        return self.tier == 'thorough'

    def pick(self, quick, thorough):
        return thorough if self.deep else quick

    def ok(self, cond, what, got=None, want=None, **inputs):
        self.evals += 1
        if len(self.samples) < 1 and inputs:
            self.samples.append({'what': what, 'inputs': js(inputs)})
        if not cond:
            raise Fail(what, inputs, got, want)

    def same(self, got, want, what, **inputs):
        """Exact equality of numbers/arrays (shape and values)."""
        np = self.np
        g, w = np.asarray(got), np.asarray(want)
        self.ok(g.shape == w.shape and bool(np.all(g == w)), what, got, want, **inputs)

    def close(self, got, want, what, tol=1e-9, **inputs):
        np = self.np
        g, w = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
        good = g.shape == w.shape
        if good and g.size:
            good = bool(np.all((np.abs(g - w) <= tol * (1 + np.abs(w))) | (g == w) | (np.isnan(g) & np.isnan(w))))
        self.ok(good, what, got, want, **inputs)

    def raises(self, fn, what, exc=Exception, **inputs):
        self.evals += 1
        try:
            r = fn()
        except exc:
            return
        raise Fail(what + ' (no exception)', inputs, got=r)

    def finding(self, key, cond, what, **inputs):
        """A behaviour recorded in known_findings.json: a failure listed there is reported but is not an alarm."""
        self.evals += 1
        if cond:
            return
        if self.listed.get(key) == 'finding':
            self.known.append((key, what))
            return
        raise Fail(what, inputs)

    def probe(self, key, fn, what, **inputs):
        """fn() must return True without raising; otherwise it is finding `key`."""
        try:
            c = bool(fn())
            why = ''
        except Fail as f:
            c, why = False, ': ' + f.what
        except Exception as e:
            c, why = False, ': %s: %s' % (type(e).__name__, str(e)[:200])
        self.finding(key, c, what + why, **inputs)


def run_case(prop, name, fn, tier, seed, listed, path):
    c = Case(prop, name, tier, seed)
    c.listed = listed
    c.np.random.seed(c.rng.randint(2**31))
    t0 = time.time()
    res = dict(case=name, status='ok')
    try:
        fn(c)
    except Fail as f:
        res.update(status='fail', what=f.what, inputs=js(f.inputs), got=js(f.got), want=js(f.want))
    except BaseException as e:
        tb = traceback.extract_tb(e.__traceback__)
        loc = None
        for f in tb:
            if '/coniii/' in f.filename or f.filename.startswith(os.environ.get('CONIII_REPO', '/repo')):
                loc = '%s:%d %s' % (os.path.basename(f.filename), f.lineno, f.line)
        mine = [f for f in tb if f.filename.startswith(HERE)]
        res.update(status='fail', what='unexpected %s: %s' % (type(e).__name__, str(e)[:400]),
                   inputs={'at': loc, 'check line': ('%s:%d %s' % (os.path.basename(mine[-1].filename), mine[-1].lineno, mine[-1].line)) if mine else None,
                           'locals': frame_locals(e)})
    res.update(evals=c.evals, seconds=round(time.time() - t0, 2), known=c.known, samples=c.samples, bound=c.bound)
    with open(path, 'w') as fo:
        json.dump(res, fo)


def frame_locals(e):
    tb = e.__traceback__
    best = None
    while tb:
        if os.path.basename(os.path.dirname(tb.tb_frame.f_code.co_filename)) == 'replay' and 'rt.py' not in tb.tb_frame.f_code.co_filename:
            best = tb.tb_frame
        tb = tb.tb_next
    if best is None:
        return None
    import numpy as np
    out = {}
    for k, v in best.f_locals.items():
        if isinstance(v, (int, float, str, bool, tuple, list, np.ndarray, np.integer, np.floating)):
            try:
                s = js(v)
                if len(json.dumps(s)) < 3000:
                    out[k] = s
            except Exception:
                pass
    return out


def main():
    prop, tier, seed, outdir = sys.argv[1], sys.argv[2], int(sys.argv[3]), sys.argv[4]
    only = sys.argv[5:]
    sys.path.insert(0, HERE)
    sys.modules['rt'] = sys.modules['__main__']
    try:
        listed = {f['id']: f['status'] for f in json.load(open(os.path.join(HERE, '..', 'known_findings.json')))['findings']}
    except FileNotFoundError:
        listed = {}
    ext = os.environ.get('CONIII_EXT')
    if ext:
        import coniii_stub  # noqa: F401  (installs the freshly built extension as coniii.samplers_ext)
    results = []
    try:
        importlib.import_module(prop)
    except BaseException as e:
        results.append(dict(case='import', status='fail', what='importing the package fails: %s: %s' % (type(e).__name__, str(e)[:500]),
                            inputs={'traceback': traceback.format_exc()[-1500:]}, evals=1, seconds=0, known=[], samples=[]))
        json.dump(results, open(os.path.join(outdir, prop + '.json'), 'w'))
        return
    todo = [c for c in CASES if not only or c[0] in only]
    running = {}
    W = int(os.environ.get('RT_WORKERS', '5'))
    q = list(enumerate(todo))
    while q or running:
        while q and len(running) < W:
            k, (name, fn, to, units) = q.pop(0)
            path = os.path.join(outdir, '%s-%d.part' % (prop, k))
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                os.setpgid(0, 0)
                dn = os.open(os.devnull, os.O_WRONLY)
                os.dup2(dn, 1)
                if not os.environ.get('RT_VERBOSE'):
                    os.dup2(dn, 2)
                try:
                    run_case(prop, name, fn, tier, seed, listed, path)
                finally:
                    os._exit(0)
            running[pid] = (name, path, time.time(), to * (4 if tier == 'thorough' else 1))
        pid, st = os.waitpid(-1, os.WNOHANG)
        if pid and pid in running:
            name, path, t0, to = running.pop(pid)
            try:
                os.killpg(pid, signal.SIGKILL)
            except (ProcessLookupError, PermissionError):
                pass
            if os.path.exists(path):
                results.append(json.load(open(path)))
                os.unlink(path)
            else:
                results.append(dict(case=name, status='fail', what='the process running the code was ended by signal %s' % (st & 127),
                                    inputs={}, evals=1, seconds=round(time.time() - t0, 2), known=[], samples=[]))
            continue
        for pid, (name, path, t0, to) in list(running.items()):
            if time.time() - t0 > to:
                try:
                    os.killpg(pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                os.waitpid(pid, 0)
                running.pop(pid)
                results.append(dict(case=name, status='fail', what='did not finish within %d s' % to, inputs={}, evals=1,
                                    seconds=round(time.time() - t0, 2), known=[], samples=[]))
        time.sleep(0.02)
    json.dump(results, open(os.path.join(outdir, prop + '.json'), 'w'))


if __name__ == '__main__':
    main()

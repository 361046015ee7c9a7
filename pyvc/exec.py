"""Symbolic execution of the Python subset of the numerical core, generating verification conditions."""
import ast
import copy
import os
from contextlib import contextmanager
from fractions import Fraction
from . import terms as T
from . import smt
from .terms import P, Poly, Bool, ZERO, ONE
from .heap import Content, W, L, Unsupported, sub_entry, guard_entry

UNROLL = 3000


# ------------------------------------------------------------------ values
class Ref:
    __slots__ = ('id',)

    def __init__(self, i):
        self.id = i

    def __repr__(self):
        return 'Ref%d' % self.id

    def __eq__(self, o):
        return isinstance(o, Ref) and o.id == self.id

    def __hash__(self):
        return hash(self.id)


class View:
    """Basic slice of an array: dims of the base: ('at', p) or ('rng', lo, hi)."""
    __slots__ = ('ref', 'dims')

    def __init__(self, ref, dims):
        self.ref, self.dims = ref, tuple(dims)


class Arr:
    __slots__ = ('c',)

    def __init__(self, c):
        self.c = c


class Lst:
    """A list with known items."""
    __slots__ = ('items',)

    def __init__(self, items):
        self.items = tuple(items)


class SymLst:
    """A list of numbers (or of equally shaped arrays) of symbolic length: content has the length as first dimension."""
    __slots__ = ('c',)

    def __init__(self, c):
        self.c = c


class Dct:
    __slots__ = ('d',)

    def __init__(self, d):
        self.d = dict(d)


class Obj:
    __slots__ = ('cls', 'attrs', 'changed')

    def __init__(self, cls, attrs):
        self.cls, self.attrs = cls, dict(attrs)


class Clo:
    def __init__(self, node, env, module, name, defaults, kwdefaults, bound=None, cls=None):
        self.node, self.env, self.module, self.name = node, env, module, name
        self.defaults, self.kwdefaults, self.bound, self.cls = defaults, kwdefaults, bound, cls

    def bind(self, obj):
        return Clo(self.node, self.env, self.module, self.name, self.defaults, self.kwdefaults, obj, self.cls)

    def __repr__(self):
        return '<function %s>' % self.name


class ClassVal:
    def __init__(self, name, bases, ns, module):
        self.name, self.bases, self.ns, self.module = name, bases, ns, module

    def lookup(self, a):
        if a in self.ns:
            return self.ns[a], self
        for b in self.bases:
            if isinstance(b, ClassVal):
                r = b.lookup(a)
                if r is not None:
                    return r
        return None


class Mod:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return '<%s>' % self.name

    def __eq__(self, o):
        return isinstance(o, Mod) and o.name == self.name

    def __hash__(self):
        return hash(self.name)


class SrcMod:
    """A module of the package, by its source."""
    __slots__ = ('env',)

    def __init__(self, env):
        self.env = env


class BMeth:
    """Bound builtin method of a value."""
    __slots__ = ('obj', 'name')

    def __init__(self, obj, name):
        self.obj, self.name = obj, name


class Native:
    """A python callable fn(ex, st, args, kwargs) -> value supplied by a contract."""

    def __init__(self, fn, name='native'):
        self.fn, self.name = fn, name


class Poison:
    def __init__(self, why):
        self.why = why


class Exc:
    def __init__(self, name, args=()):
        self.name, self.args = name, args


class Slice:
    __slots__ = ('lo', 'hi', 'step')

    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class RangeVal:
    __slots__ = ('lo', 'hi', 'step')

    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class SeqVal:
    """A lazily indexed sequence of symbolic length: elem(i Poly) -> value."""
    __slots__ = ('n', 'elem', 'facts')

    def __init__(self, n, elem, facts=None):
        self.n, self.elem, self.facts = n, elem, facts


ELLIPSIS = object()


class QF:
    """For all binders in their ranges: body."""
    __slots__ = ('binders', 'body')

    def __init__(self, binders, body):
        self.binders, self.body = tuple(binders), body


class St:
    __slots__ = ('env', 'heap', 'facts', 'qfacts')

    def __init__(self, env=None, heap=None, facts=(), qfacts=()):
        self.env = env if env is not None else {}
        self.heap = heap if heap is not None else {}
        self.facts = list(facts)
        self.qfacts = list(qfacts)

    def copy(self):
        return St(dict(self.env), dict(self.heap), self.facts, self.qfacts)


class Obl:
    __slots__ = ('name', 'kind', 'status', 'backend', 'time', 'detail', 'where')

    def __init__(self, name, kind, status, backend, time_, detail=None, where=None):
        self.name, self.kind, self.status, self.backend = name, kind, status, backend
        self.time, self.detail, self.where = time_, detail, where


class Raised(Exception):
    """Unconditional raise met while evaluating an expression."""

    def __init__(self, exc):
        self.exc = exc


class Ex:
    def __init__(self, repo='/repo', timeout=8000, side_timeout=800):
        self.repo = repo
        self.timeout, self.side_timeout = timeout, side_timeout
        self.modules = {}
        self.extra = []          # assumptions pushed while reading under binders
        self.st = St()
        self.obls = []
        self.mute = 0
        self.raises = []         # (facts, Exc, where)
        self.hints = []          # tuples of Poly, instances for quantified facts / loop counters
        self.binders = []        # enclosing symbolic loop variables
        self.contracts = {}      # (module, qualname) -> callable(ex, st, args, kwargs) -> value
        self.loopspec = {}
        self.no_merge = set()       # functions whose paths are kept apart
        self.fork_while = set()     # functions whose while loops are unrolled with a case distinction on the condition
        self.nref = 0
        self.nfresh = 0
        self.functions = {}      # functions executed: qualname -> source hash
        self.depth = 0
        self.assumed = set()     # library contracts used
        self.lib = {}
        self.opaque_reads = {}
        self.label = ''
        self.deny = set()
        self.chain, self.flatrows = None, {}
        self.draws = []          # (kind, source, value, lo, hi, facts) of every draw from a random generator
        T.Ctx.prove = staticmethod(self.prove)
        T.Ctx.assume = staticmethod(self.assume)
        smt.reset_fun_facts()
        smt.add_fun_fact('pow', T.pow_facts)
        from . import lib
        lib.install(self)

    # -------------------------------------------------------------- facts and proving
    @contextmanager
    def assume(self, *facts):
        n = len(self.extra)
        for f in facts:
            if f is not T.TRUE:
                self.extra.append(f)
        try:
            yield
        finally:
            del self.extra[n:]

    def facts(self):
        return list(self.st.facts) + self.extra

    def inst(self, goal=None):
        """Instances of the quantified facts at the hint tuples and at index terms in the goal."""
        out = []
        for q in self.st.qfacts:
            m = len(q.binders)
            for h in self.hints:
                if len(h) != m:
                    continue
                d = {b[0]: x for b, x in zip(q.binders, h)}
                pre = []
                for (v, lo, hi) in q.binders:
                    pre += [T.le(T.subst(lo, d), d[v]), T.lt(d[v], T.subst(hi, d))]
                out.append(T.Implies(T.And(*pre), T.subst(q.body, d)))
        return out

    def prove(self, goal, timeout=None):
        if goal is T.TRUE:
            return True
        if goal is T.FALSE and not self.extra and not self.st.facts:
            return False
        fs = self.facts()
        if goal in fs:
            return True
        r = smt.prove(goal, fs, timeout or self.side_timeout)
        if not r.ok and self.st.qfacts:
            r = smt.prove(goal, fs + self.inst(goal), timeout or self.side_timeout)
        return r.ok

    def dec(self, c):
        """Simplify a condition to TRUE/FALSE when provable."""
        if c is T.TRUE or c is T.FALSE:
            return c
        if self.prove(c):
            return T.TRUE
        if self.prove(T.Not(c)):
            return T.FALSE
        if c.kind == 'and':
            return T.And(*[x for x in c.args if not self.prove(x)])
        return c

    def oblige(self, name, goal, kind='assert', facts=None, where=None, detail=None):
        if self.mute:
            return True
        fs = (self.facts() if facts is None else list(facts))
        fs = fs + self.inst(goal)
        r = smt.prove(goal, fs, self.timeout, want_model=True, fallback=True)
        st = r.status
        if not r.ok:
            # case split on indicators / disjunctions left to z3; record what is needed
            detail = dict(goal=goal.key[:1500], facts=[f.key[:300] for f in fs[:40]],
                          model=r.model if isinstance(r.model, (dict, str)) else None, note=detail)
        self.obls.append(Obl(self.label + name, kind, st, r.backend, r.time, detail if not r.ok else None, where))
        return r.ok

    def sum(self, lo, hi, fn):
        v = T.fresh('k')
        with self.assume(T.le(P(lo), v), T.lt(v, P(hi))):
            body = fn(v)
        return T.mksum(v.as_atom(), P(lo), P(hi), body)

    def fresh(self, prefix, sort='int', fact=None):
        """A fresh value; inside symbolic loops it is a function of the loop counters."""
        self.nfresh += 1
        name = '%s~%d' % (prefix, self.nfresh)
        if fact is not None:
            nb = len(self.binders)
            def ff(*args):
                return fact(T.app(name, args, sort) if nb else T.var(name, sort))
            smt.add_fun_fact(name, ff)
        if self.binders:
            return T.app(name, tuple(self.binders), sort)
        x = T.var(name, sort)
        if fact is not None:
            self.st.facts.append(fact(x))
        return x

    def draw(self, kind, src, val, lo=None, hi=None):
        """Record a draw from a random generator (with the condition under which it is made)."""
        if not self.mute:
            self.draws.append((kind, src, val, lo, hi, list(self.st.facts) + list(self.extra)))

    # -------------------------------------------------------------- heap
    def alloc(self, cell):
        self.nref += 1
        self.st.heap[self.nref] = cell
        return Ref(self.nref)

    def new_array(self, shape, sort, base):
        return self.alloc(Arr(Content(shape, sort, base)))

    def const_array(self, shape, val, sort):
        val = P(val)
        return self.new_array(shape, sort, lambda c: val)

    def sym_array(self, name, shape, sort='real', fact=None):
        """An unconstrained input array; fact(value) holds of every element."""
        def base(c):
            return T.app(name, c, 'int' if sort in ('int', 'bool') else 'real')
        if fact is not None:
            smt.add_fun_fact(name, lambda *args: fact(base(args), *args) if fact.__code__.co_argcount > 1 else fact(base(args)))
        r = self.new_array(shape, sort, base)
        self.st.heap[r.id].c.tag = name
        return r

    def cell(self, ref):
        return self.st.heap[ref.id]

    def is_array(self, v):
        return isinstance(v, View) or (isinstance(v, Ref) and isinstance(self.cell(v), Arr))

    def is_list(self, v):
        return isinstance(v, Ref) and isinstance(self.cell(v), (Lst, SymLst))

    def content(self, v):
        """Content of an array-like value (current snapshot)."""
        if isinstance(v, Content):
            return v
        if isinstance(v, Ref):
            c = self.cell(v)
            if isinstance(c, Arr):
                return c.c
            if isinstance(c, SymLst):
                return c.c
            if isinstance(c, Lst):
                return self.list_content(c.items)
        if isinstance(v, View):
            b = self.cell(v.ref).c
            dims = v.dims
            shape = [d[2] - d[1] if d[0] == 'rng' else None for d in dims]
            shape = [s for s in shape if s is not None]

            def base(c, b=b, dims=dims):
                full, k = [], 0
                for d in dims:
                    if d[0] == 'at':
                        full.append(d[1])
                    else:
                        full.append(c[k] + d[1])
                        k += 1
                return b.read(self, tuple(full))
            return Content(shape, b.sort, base)
        if isinstance(v, tuple):
            return self.list_content(v)
        if isinstance(v, RangeVal):
            n = self.range_len(v)
            return Content((n,), 'int', lambda c: v.lo + c[0] * v.step)
        if isinstance(v, SeqVal):
            e0 = v.elem(ZERO)
            if isinstance(e0, (Poly, Bool)):
                return Content((v.n,), P(e0).sort, lambda c: P(v.elem(c[0])))
            raise Unsupported('sequence of non-numbers used as array')
        if isinstance(v, (Poly, Bool)):
            return Content((), P(v).sort if isinstance(v, Poly) else 'bool', lambda c, v=v: P(v))
        raise Unsupported('not array-like: %r' % (v,))

    def list_content(self, items):
        items = [chr_(x) for x in items]
        if not items:
            return Content((0,), 'real', lambda c: ZERO)
        if all(isinstance(x, (Poly, Bool)) for x in items):
            ps = [P(x) for x in items]
            sort = 'bool' if all(isinstance(x, Bool) for x in items) else ('real' if any(p.sort == 'real' for p in ps) else 'int')

            def base(c):
                return self.pick(ps, c[0])
            return Content((len(ps),), sort, base)
        cs = [self.content(x) for x in items]
        sh = cs[0].shape
        for c in cs[1:]:
            if c.shape != sh and not all(self.prove(T.eq(a, b)) for a, b in zip(c.shape, sh)):
                raise Unsupported('ragged list')
        sort = 'real' if any(c.sort == 'real' for c in cs) else cs[0].sort

        def base2(c):
            k = c[0].const()
            if k is not None:
                return cs[int(k)].read(self, c[1:])
            return self.pick([x.read(self, c[1:]) for x in cs], c[0])
        return Content((len(cs),) + sh, sort, base2)

    def pick(self, ps, i):
        k = i.const()
        if k is not None:
            k = int(k)
            if not (0 <= k < len(ps)):
                return T.app('oob', (i,), 'real')
            return ps[k]
        r = ps[-1]
        for q in range(len(ps) - 2, -1, -1):
            r = T.ite(self.dec(T.eq(i, q)), ps[q], r)
        return r

    def shape(self, v):
        return self.content(v).shape

    def base_target(self, v):
        """(ref, dims) for writing into an array value."""
        if isinstance(v, View):
            return v.ref, v.dims
        c = self.cell(v).c
        return v, tuple(('rng', ZERO, s) for s in c.shape)

    def write(self, ref, w):
        c = self.cell(ref)
        if isinstance(c, Arr):
            if c.c.sort != 'real' and self.opts_cast:
                self.cast_check(c.c.sort, w)
            self.st.heap[ref.id] = Arr(c.c.with_write(w))
        else:
            self.st.heap[ref.id] = SymLst(c.c.with_write(w))

    opts_cast = True

    def cast_check(self, sort, w):
        """A real stored in an integer array is truncated by numpy: oblige that it is an integer."""
        if isinstance(w, L):
            for e in w.entries:
                self.cast_check(sort, e)
            return
        facts, co = [], []
        for d in w.dims:
            if d[0] == 'at':
                co.append(d[1])
            else:
                i = T.fresh('c')
                facts += [T.le(d[1], i), T.lt(i, d[2])]
                co.append(i)
        with self.assume(*(facts + [w.guard])):
            v = w.val(tuple(co))
            if isinstance(v, Bool):
                return
            if sort == 'int' and P(v).sort == 'real':
                self.oblige('value stored in an integer array is an integer', T.eq(T.floor_(P(v)), P(v)), 'cast')
            elif sort == 'bool':
                self.oblige('value stored in a boolean array is 0 or 1', T.Or(T.eq(P(v), ZERO), T.eq(P(v), ONE)), 'cast')

    # -------------------------------------------------------------- modules
    def load(self, path):
        """Module environment of a repository file (functions, classes, simple constants)."""
        full = os.path.join(self.repo, path)
        if full in self.modules:
            return self.modules[full]
        src = open(full).read()
        tree = ast.parse(src)
        env = {}
        self.modules[full] = env
        env['__path__'] = path
        self.run_module(tree, env, path)
        return env

    def load_source(self, src, name):
        env = {'__path__': name}
        self.modules[name] = env
        self.run_module(ast.parse(src), env, name)
        return env

    def run_module(self, tree, env, path):
        for node in tree.body:
            self.module_stmt(node, env, path)

    def module_stmt(self, node, env, path):
        if isinstance(node, ast.Import):
            for a in node.names:
                if a.asname:
                    env[a.asname] = Mod(a.name)
                else:
                    env[a.name.split('.')[0]] = Mod(a.name.split('.')[0])
        elif isinstance(node, ast.ImportFrom):
            self.import_from(node, env, path)
        elif isinstance(node, ast.FunctionDef):
            env[node.name] = self.mkclo(node, env, env, node.name)
        elif isinstance(node, ast.ClassDef):
            ns = {}
            bases = []
            for b in node.bases:
                try:
                    bases.append(self.ev_static(b, env))
                except Exception:
                    pass
            cv = ClassVal(node.name, bases, ns, env)
            for s in node.body:
                if isinstance(s, ast.FunctionDef):
                    c = self.mkclo(s, env, env, node.name + '.' + s.name, cls=cv)
                    ns[s.name] = c
                elif isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name):
                    try:
                        ns[s.targets[0].id] = self.ev_static(s.value, env)
                    except Exception:
                        pass
            env[node.name] = cv
        elif isinstance(node, ast.Assign):
            if all(isinstance(t, ast.Name) for t in node.targets):
                try:
                    v = self.ev_static(node.value, env)
                    for t in node.targets:
                        env[t.id] = v
                except Exception:
                    pass
            elif len(node.targets) == 1 and isinstance(node.targets[0], ast.Tuple):
                try:
                    v = self.ev_static(node.value, env)
                    for t, x in zip(node.targets[0].elts, v):
                        env[t.id] = x
                except Exception:
                    pass
        elif isinstance(node, ast.Try):
            for s in node.body:
                self.module_stmt(s, env, path)
        elif isinstance(node, ast.If):
            try:
                c = self.truth(self.ev_static(node.test, env))
            except Exception:
                return
            if c is T.TRUE:
                for s in node.body:
                    self.module_stmt(s, env, path)
            elif c is T.FALSE:
                for s in node.orelse:
                    self.module_stmt(s, env, path)

    def import_from(self, node, env, path):
        mod = node.module or ''
        local = None
        if node.level:
            d = os.path.dirname(path)
            for _ in range(node.level - 1):
                d = os.path.dirname(d)
            p = os.path.join(d, mod.replace('.', '/') + '.py')
            if os.path.exists(os.path.join(self.repo, p)):
                local = p
        elif mod.split('.')[0] == 'coniii':
            p = mod.replace('.', '/') + '.py'
            if os.path.exists(os.path.join(self.repo, p)):
                local = p
        if local is not None:
            m = self.load(local)
            for a in node.names:
                if a.name == '*':
                    for k, v in list(m.items()):
                        if not k.startswith('_'):
                            env[k] = v
                elif a.name in m:
                    env[a.asname or a.name] = m[a.name]
            return
        for a in node.names:
            if node.level and not mod and os.path.exists(os.path.join(self.repo, d, a.name + '.py')):
                env[a.asname or a.name] = SrcMod(self.load(os.path.join(d, a.name + '.py')))
            elif a.name != '*':
                env[a.asname or a.name] = Mod((mod + '.' if mod else '') + a.name)

    def ev_static(self, node, env):
        save = self.st
        self.st = St(dict(env))
        self.mute += 1
        old = getattr(self, 'frame', None)
        self.frame = (env, None)
        try:
            v = self.ev(node)
            if isinstance(v, Ref):
                save.heap[v.id] = self.st.heap[v.id]
            return v
        finally:
            self.mute -= 1
            self.st = save
            self.frame = old

    def mkclo(self, node, env, module, name, cls=None):
        return Clo(node, env, module, name, list(node.args.defaults) if False else self._defaults(node, env),
                   self._kwdefaults(node, env), None, cls)

    def _defaults(self, node, env):
        out = []
        for d in node.args.defaults:
            try:
                out.append(self.ev_static(d, env) if env is not self.st.env else self.ev(d))
            except Unsupported:
                out.append(Poison('default'))
        return out

    def _kwdefaults(self, node, env):
        out = {}
        for a, d in zip(node.args.kwonlyargs, node.args.kw_defaults):
            if d is not None:
                out[a.arg] = self.ev_static(d, env)
        return out

    # -------------------------------------------------------------- calls
    def call(self, f, args=(), kwargs=None):
        kwargs = dict(kwargs or {})
        args = list(args)
        if isinstance(f, Native):
            return f.fn(self, *args, **kwargs)
        if isinstance(f, Clo):
            return self.call_clo(f, args, kwargs)
        if isinstance(f, Mod):
            h = self.lib.get(f.name)
            if h is None and f.name.startswith('scipy.') and f.name.count('.') == 1:
                h = self.lib.get('numpy.' + f.name[6:])      # scipy re-exports numpy's functions
            if h is None:
                raise Unsupported('no contract for %s' % f.name)
            self.assumed.add(f.name)
            return h(self, *args, **kwargs)
        if isinstance(f, BMeth):
            from . import lib
            return lib.method(self, f.obj, f.name, args, kwargs)
        if isinstance(f, ClassVal):
            return self.construct(f, args, kwargs)
        if callable(f):
            return f(self, *args, **kwargs)
        raise Unsupported('call of %r' % (f,))

    def construct(self, cls, args, kwargs):
        o = self.alloc(Obj(cls, {}))
        r = cls.lookup('__init__')
        if r is not None:
            self.call_clo(r[0].bind(o), args, kwargs)
        return o

    def call_clo(self, f, args, kwargs):
        q = (f.module.get('__path__'), f.name)
        c = self.contracts.get(q)
        if c is not None:
            if f.bound is not None:
                args = [f.bound] + list(args)
            return c(self, f, args, kwargs)
        if is_generator(f.node):
            return self.generate(f, args, kwargs)
        return self.inline(f, args, kwargs)

    def generate(self, f, args, kwargs):
        """A generator is modelled by the list of everything it yields, in order (its body must not depend on its consumer)."""
        self.assumed.add('generators are consumed in order and completely')
        node = copy.deepcopy(f.node)

        class Y(ast.NodeTransformer):
            def visit_Expr(self, n):
                if isinstance(n.value, ast.Yield):
                    return ast.copy_location(ast.Expr(ast.Call(ast.Attribute(ast.Name('yielded!', ast.Load()), 'append', ast.Load()), [n.value.value], [])), n)
                return self.generic_visit(n)
        node = Y().visit(node)
        if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(node)):
            raise Unsupported('yield used as a value')
        node.body = ([ast.Assign([ast.Name('yielded!', ast.Store())], ast.List([], ast.Load()))] + node.body
                     + [ast.Return(ast.Name('yielded!', ast.Load()))])
        ast.fix_missing_locations(node)
        g = Clo(node, f.env, f.module, f.name, f.defaults, f.kwdefaults, f.bound, f.cls)
        return self.inline(g, args, kwargs)

    def bind_args(self, f, args, kwargs):
        a = f.node.args
        env = {}
        names = [x.arg for x in a.posonlyargs + a.args]
        args = list(args)
        if f.bound is not None:
            args = [f.bound] + args
        kwargs = dict(kwargs)
        for i, nm in enumerate(names):
            if i < len(args):
                env[nm] = args[i]
            elif nm in kwargs:
                env[nm] = kwargs.pop(nm)
            else:
                k = i - (len(names) - len(f.defaults))
                if k < 0:
                    raise Unsupported('missing argument %s of %s' % (nm, f.name))
                env[nm] = f.defaults[k]
        if len(args) > len(names):
            if not a.vararg:
                raise Unsupported('too many arguments of %s' % f.name)
            env[a.vararg.arg] = tuple(args[len(names):])
        elif a.vararg:
            env[a.vararg.arg] = ()
        for x in a.kwonlyargs:
            if x.arg in kwargs:
                env[x.arg] = kwargs.pop(x.arg)
            elif x.arg in f.kwdefaults:
                env[x.arg] = f.kwdefaults[x.arg]
            else:
                raise Unsupported('missing keyword %s' % x.arg)
        if a.kwarg:
            env[a.kwarg.arg] = self.alloc(Dct(kwargs))
        elif kwargs:
            raise Unsupported('unexpected keyword %s' % list(kwargs))
        return env

    def outcomes(self, f, args, kwargs):
        """Execute a function body; returns the list of (state, kind, value)."""
        if self.depth > 40:
            raise Unsupported('recursion too deep')
        env = self.bind_args(f, args, kwargs)
        self.note(f)
        caller_env = self.st.env
        caller_frame = getattr(self, 'frame', None)
        self.st.env = env
        self.frame = (f.env, f)
        self.depth += 1
        try:
            if isinstance(f.node, ast.Lambda):
                v = self.ev(f.node.body)
                outs = [(self.st, 'return', v)]
            else:
                outs = self.block(f.node.body, self.st)
        finally:
            self.depth -= 1
            self.frame = caller_frame
        res = []
        for st, kind, v in outs:
            if kind == 'normal':
                kind, v = 'return', None
            res.append((st, kind, v))
        return res, caller_env

    def note(self, f):
        k = '%s:%s' % (f.module.get('__path__'), f.name)
        if k not in self.functions:
            import hashlib
            self.functions[k] = hashlib.sha1(ast.dump(f.node).encode()).hexdigest()[:12]

    def inline(self, f, args, kwargs):
        outs, caller_env = self.outcomes(f, args, kwargs)
        rets = []
        for st, kind, v in outs:
            if kind == 'return':
                rets.append((st, v))
            elif kind == 'raise':
                self.record_raise(st, v)
        if not rets:
            self.st = outs[0][0] if outs else self.st
            self.st.env = caller_env
            raise Raised(outs[0][2] if outs else Exc('Exception'))
        st, v = self.merge_rets(rets)
        st.env = caller_env
        self.st = st
        return v

    def merge_rets(self, rets):
        try:
            st, v = rets[0]
            for st2, v2 in rets[1:]:
                st, v = self.merge(st, v, st2, v2)
            return st, v
        except Unsupported:
            left = [r for r in rets if not self.infeasible(r[0])]
            if len(left) == len(rets):
                raise
            if not left:
                raise Raised(Exc('no feasible path'))
            st, v = left[0]
            for st2, v2 in left[1:]:
                st, v = self.merge(st, v, st2, v2)
            return st, v

    def infeasible(self, st):
        save = self.st
        self.st = st
        try:
            fs = self.facts() + self.inst()
            return smt.prove(T.FALSE, fs, self.side_timeout).ok
        finally:
            self.st = save

    def record_raise(self, st, exc):
        if not self.mute:
            self.raises.append((list(st.facts) + list(self.extra), list(st.qfacts), exc, self.label))

    # -------------------------------------------------------------- merging of states
    def merge(self, s1, v1, s2, v2):
        """States that continue from alternative branches: facts carry the branch conditions."""
        k = 0
        while k < len(s1.facts) and k < len(s2.facts) and s1.facts[k] is s2.facts[k]:
            k += 1
        common = s1.facts[:k]
        f1, f2 = s1.facts[k:], s2.facts[k:]
        c1 = T.And(*f1) if f1 else T.TRUE
        # the branch condition: first differing fact of s1; s2 must have its negation
        if f1 and f2 and f2[0] is T.Not(f1[0]):
            c = f1[0]
            r1, r2 = f1[1:], f2[1:]
            new = [T.Implies(c, x) for x in r1] + [T.Implies(T.Not(c), x) for x in r2]
        else:
            c = None
            for x in f1:
                if T.Not(x) in f2:
                    c = x
            if c is None:
                # distinguish by the whole conjunction of s1 (sound when the branches exclude each other)
                if not smt.prove(T.Not(T.And(T.And(*f1), T.And(*f2))), common, self.side_timeout).ok:
                    raise Unsupported('cannot merge branches')
                c = c1
            new = [T.Or(c1, T.And(*f2))]
        st = St({}, {}, common + [x for x in new if x is not T.TRUE], s1.qfacts if s1.qfacts == s2.qfacts else [q for q in s1.qfacts if q in s2.qfacts])
        for key in list(s1.env) + [x for x in s2.env if x not in s1.env]:
            if key in s1.env and key in s2.env:
                st.env[key] = self.merge_val(c, s1.env[key], s2.env[key], soft=True)
            else:
                st.env[key] = Poison('%s may be undefined' % key)
        for key in list(s1.heap) + [x for x in s2.heap if x not in s1.heap]:
            a, b = s1.heap.get(key), s2.heap.get(key)
            if a is b or b is None:
                st.heap[key] = a
            elif a is None:
                st.heap[key] = b
            else:
                st.heap[key] = self.merge_cell(c, a, b, s1, s2, st)
        v = self.merge_val(c, v1, v2)
        return st, v

    def merge_val(self, c, a, b, soft=False):
        if a is b or (isinstance(a, Ref) and a == b):
            return a
        if isinstance(a, Poly) and isinstance(b, Poly):
            return T.ite(c, a, b)
        if isinstance(a, Bool) and isinstance(b, Bool):
            return T.Or(T.And(c, a), T.And(T.Not(c), b))
        if isinstance(a, (Poly, Bool)) and isinstance(b, (Poly, Bool)):
            return T.ite(c, P(a), P(b))
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(self.merge_val(c, x, y, soft) for x, y in zip(a, b))
        if isinstance(a, str) and isinstance(b, str) and a == b:
            return a
        if isinstance(a, View) and isinstance(b, View) and a.ref == b.ref and a.dims == b.dims:
            return a
        if soft:
            return Poison('value differs between branches')
        raise Unsupported('cannot merge %r and %r' % (a, b))

    def merge_cell(self, c, a, b, s1, s2, st):
        if type(a) is not type(b):
            raise Unsupported('merge of different objects')
        if isinstance(a, (Arr, SymLst)):
            ca, cb = a.c, b.c
            if ca is cb:
                return a
            if ca.base is cb.base and ca.shape == cb.shape:
                k = 0
                while k < len(ca.log) and k < len(cb.log) and ca.log[k] is cb.log[k]:
                    k += 1
                log = ca.log[:k] + tuple(guard_entry(e, c) for e in ca.log[k:]) + tuple(guard_entry(e, T.Not(c)) for e in cb.log[k:])
                return type(a)(Content(ca.shape, ca.sort, ca.base, log, ca.tag))
            if len(ca.shape) == len(cb.shape):
                shape = tuple(T.ite(c, x, y) for x, y in zip(ca.shape, cb.shape))

                def base(co, ca=ca, cb=cb):
                    with self.assume(c):
                        x = ca.read(self, co)
                    with self.assume(T.Not(c)):
                        y = cb.read(self, co)
                    return T.ite(c, x, y)
                if isinstance(a, SymLst) and ca.base is cb.base:
                    k = 0
                    while k < len(ca.log) and k < len(cb.log) and ca.log[k] is cb.log[k]:
                        k += 1
                    log = ca.log[:k] + tuple(guard_entry(e, c) for e in ca.log[k:]) + tuple(guard_entry(e, T.Not(c)) for e in cb.log[k:])
                    return SymLst(Content(shape, ca.sort, ca.base, log))
                return type(a)(Content(shape, ca.sort if ca.sort == cb.sort else 'real', base))
            raise Unsupported('merge of arrays')
        if isinstance(a, Obj):
            if a.cls is not b.cls:
                raise Unsupported('merge objects')
            at = {}
            for k in set(a.attrs) | set(b.attrs):
                if k in a.attrs and k in b.attrs:
                    at[k] = self.merge_val(c, a.attrs[k], b.attrs[k], soft=True)
                else:
                    at[k] = Poison('attribute may be undefined')
            return Obj(a.cls, at)
        if isinstance(a, Lst):
            if len(a.items) == len(b.items):
                return Lst([self.merge_val(c, x, y, soft=True) for x, y in zip(a.items, b.items)])
            k = 0
            while k < min(len(a.items), len(b.items)) and (a.items[k] is b.items[k] or
                    (isinstance(a.items[k], Ref) and a.items[k] == b.items[k])):
                k += 1
            if all(isinstance(x, (Poly, Bool)) for x in list(a.items) + list(b.items)):
                # lists of different lengths become a list of symbolic length
                sort = 'real' if any(P(x).sort == 'real' for x in a.items + b.items) else 'int'
                la, lb = list(a.items), list(b.items)

                def base(co, la=la, lb=lb, k=k):
                    def pick(xs):
                        r = P(xs[-1]) if xs else ZERO
                        for q in range(len(xs) - 2, -1, -1):
                            r = T.ite(T.eq(co[0], P(q)), P(xs[q]), r)
                        return r
                    return T.ite(c, pick(la), pick(lb)) if la != lb else pick(la)
                return SymLst(Content((T.ite(c, P(len(la)), P(len(lb))),), sort, base))
            raise Unsupported('merge lists')
        if isinstance(a, Dct):
            if set(a.d) == set(b.d):
                return Dct({k: self.merge_val(c, a.d[k], b.d[k], soft=True) for k in a.d})
        raise Unsupported('merge %s' % type(a).__name__)

    # -------------------------------------------------------------- statements
    def block(self, stmts, st):
        """Execute statements from st; list of (state, kind, value), kind in normal/return/raise/break/continue."""
        live = [st]
        done = []
        for s in stmts:
            nxt = []
            for x in live:
                self.st = x
                try:
                    outs = self.stmt(s, x)
                except Raised as r:
                    outs = [(self.st, 'raise', r.exc)]
                except Unsupported as u:
                    if not getattr(u, 'line', None):
                        u.line = getattr(s, 'lineno', None)
                    raise
                for o in outs:
                    if o[1] == 'normal':
                        nxt.append(o[0])
                    else:
                        done.append(o)
            if len(nxt) > 1:
                nxt = self.try_merge(nxt)
            live = nxt
            if not live:
                break
        return done + [(x, 'normal', None) for x in live]

    def poisoned(self, m, a, b):
        """An attribute or list element has a value in both states and none in the merged one."""
        for key, cm in m.heap.items():
            ca, cb = a.heap.get(key), b.heap.get(key)
            if ca is cb or ca is None or cb is None or type(ca) is not type(cb):
                continue
            if isinstance(cm, Obj):
                g = lambda c: c.attrs
            elif isinstance(cm, Lst):
                g = lambda c: dict(enumerate(c.items))
            elif isinstance(cm, Dct):
                g = lambda c: c.d
            else:
                continue
            dm, da, db = g(cm), g(ca), g(cb)
            for k in dm:
                if isinstance(dm[k], Poison) and k in da and k in db and not isinstance(da[k], Poison) and not isinstance(db[k], Poison):
                    return True
        return False

    def try_merge(self, states):
        if self.no_merge and self.frame and self.frame[1] is not None and self.frame[1].name in self.no_merge:
            if len(states) > 64:
                raise Unsupported('too many paths')
            return states
        out = [states[0]]
        for s in states[1:]:
            try:
                m, _ = self.merge(out[-1], None, s, None)
                # merging must not lose values: a poisoned variable keeps the states apart
                if any(isinstance(m.env.get(k), Poison) and not isinstance(s.env.get(k), Poison) and k in s.env and k in out[-1].env
                       and not isinstance(out[-1].env.get(k), Poison) for k in m.env) or self.poisoned(m, out[-1], s):
                    out.append(s)
                else:
                    out[-1] = m
            except Unsupported:
                out.append(s)
        if len(out) > 64:
            raise Unsupported('too many paths')
        return out

    def stmt(self, s, st):
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            raise Unsupported('statement %s' % type(s).__name__)
        r = m(s)
        if r is None:
            return [(self.st, 'normal', None)]
        return r

    def s_Pass(self, s):
        return None

    def s_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return None
        self.ev(s.value)

    def s_Import(self, s):
        self.module_stmt(s, self.st.env, '')

    def s_ImportFrom(self, s):
        self.import_from(s, self.st.env, self.frame[1].module.get('__path__', '') if self.frame and self.frame[1] else '')

    def s_Global(self, s):
        return None
    s_Nonlocal = s_Global

    def s_FunctionDef(self, s):
        self.st.env[s.name] = Clo(s, self.capture(), self.frame[1].module if self.frame[1] else self.frame[0],
                                  (self.frame[1].name + '.' if self.frame[1] else '') + s.name,
                                  [self.ev(d) for d in s.args.defaults],
                                  {a.arg: self.ev(d) for a, d in zip(s.args.kwonlyargs, s.args.kw_defaults) if d is not None})

    def capture(self):
        return _Scope(self.st.env, self.frame[0])

    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.st.env.pop(t.id, None)
            else:
                raise Unsupported('del')

    def s_Return(self, s):
        v = self.ev(s.value) if s.value is not None else None
        return [(self.st, 'return', v)]

    def s_Break(self, s):
        return [(self.st, 'break', None)]

    def s_Continue(self, s):
        return [(self.st, 'continue', None)]

    def s_Raise(self, s):
        name = 'Exception'
        if s.exc is not None:
            n = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
            if isinstance(n, ast.Name):
                name = n.id
        return [(self.st, 'raise', Exc(name))]

    def s_Assert(self, s):
        c = self.truth(self.ev(s.test))
        d = self.dec(c)
        if d is T.TRUE:
            return None
        if d is T.FALSE:
            return [(self.st, 'raise', Exc('AssertionError'))]
        bad = self.st.copy()
        bad.facts.append(T.Not(d))
        self.st.facts.append(d)
        self.forall_fact(d)
        return [(self.st, 'normal', None), (bad, 'raise', Exc('AssertionError'))]

    def forall_fact(self, d):
        """A count of violations that is zero: no element violates."""
        for x in (d.args if d.kind == 'and' else (d,)):
            if x.kind != 'eq':
                continue
            p = x.args[0]
            if len(p.m) != 1 or len(p.m[0][0]) != 1 or p.m[0][0][0][1] != 1:
                continue
            bs, a = [], p.m[0][0][0][0]
            while a is not None and a.kind == 'sum':
                bv, lo, hi, body = a.args
                v = T.fresh('all')
                sub = {bv: v}
                bs.append((v.as_atom(), lo, hi))
                a = T.subst(body, sub).as_atom()
            if a is not None and a.kind == 'ind' and bs:
                self.st.qfacts = list(self.st.qfacts) + [QF(bs, T.Not(a.args[0]))]

    def s_With(self, s):
        for it in s.items:
            v = self.ev(it.context_expr)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v)
        return self.block(s.body, self.st)

    def s_Try(self, s):
        outs = self.block(s.body, self.st)
        res = []
        for st, k, v in outs:
            if k == 'raise':
                h = None
                for x in s.handlers:
                    nm = None if x.type is None else ast.unparse(x.type)
                    if nm is None or nm == v.name or nm == 'Exception' or v.name in nm:
                        h = x
                        break
                if h is not None:
                    self.st = st
                    res += self.block(h.body, st)
                    continue
            elif k == 'normal' and s.orelse:
                self.st = st
                res += self.block(s.orelse, st)
                continue
            res.append((st, k, v))
        if s.finalbody:
            out2 = []
            for st, k, v in res:
                self.st = st
                for st2, k2, v2 in self.block(s.finalbody, st):
                    out2.append((st2, k, v) if k2 == 'normal' else (st2, k2, v2))
            res = out2
        return res

    def s_If(self, s):
        c = self.truth(self.ev(s.test))
        c = self.dec(c)
        if c is T.TRUE:
            return self.block(s.body, self.st)
        if c is T.FALSE:
            return self.block(s.orelse, self.st)
        s1, s2 = self.st, self.st.copy()
        s1.env, s1.heap = dict(s1.env), dict(s1.heap)
        s1 = s1.copy()
        s1.facts.append(c)
        s2.facts.append(T.Not(c))
        self.st = s1
        o1 = self.block(s.body, s1)
        self.st = s2
        o2 = self.block(s.orelse, s2)
        outs = o1 + o2
        norm = [o[0] for o in outs if o[1] == 'normal']
        rest = [o for o in outs if o[1] != 'normal']
        if len(norm) > 1:
            norm = self.try_merge(norm)
        return rest + [(x, 'normal', None) for x in norm]

    def s_Assign(self, s):
        v = self.ev(s.value)
        for t in s.targets:
            self.assign(t, v)

    def s_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value))

    def s_AugAssign(self, s):
        t = s.target
        op = type(s.op).__name__
        if isinstance(t, ast.Name):
            cur = self.name(t.id)
            v = self.ev(s.value)
            if self.is_array(cur):
                self.aug_array(cur, op, v)
            elif self.is_list(cur) and op == 'Add':
                from . import lib
                lib.method(self, cur, 'extend', [v], {})
            else:
                self.st.env[t.id] = self.binop(op, cur, v)
        elif isinstance(t, ast.Subscript):
            base = self.ev(t.value)
            ix = self.index(t.slice)
            v = self.ev(s.value)
            if self.is_array(base) and not isinstance(base, tuple) and self.index_dims(base, ix) is None:
                # advanced indexing: read, combine, write back
                self.store(base, ix, self.binop(op, self.subscript(base, ix), v))
            elif self.is_array(base) and not isinstance(base, tuple):
                view = self.subscript(base, ix, want_view=True)
                if isinstance(view, (Ref, View)):
                    self.aug_array(view, op, v)
                    return
                # scalar element
                ref, dims = self.elem_dims(base, ix)
                if op in ('Add', 'Sub'):
                    x = P(v) if op == 'Add' else -P(v)
                    self.write(ref, W(dims, T.TRUE, 'add', lambda c, x=x: x))
                else:
                    x = self.binop(op, view, v)
                    self.write(ref, W(dims, T.TRUE, 'set', lambda c, x=x: P(x)))
            else:
                cur = self.subscript(base, ix)
                if self.is_list(cur) and op == 'Add':
                    from . import lib
                    lib.method(self, cur, 'extend', [v], {})
                elif self.is_array(cur):
                    self.aug_array(cur, op, v)
                else:
                    self.store(base, ix, self.binop(op, cur, v))
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value)
            cur = self.getattr(o, t.attr)
            v = self.ev(s.value)
            if self.is_array(cur):
                self.aug_array(cur, op, v)
            else:
                self.setattr(o, t.attr, self.binop(op, cur, v))
        else:
            raise Unsupported('augmented target')

    def aug_array(self, arr, op, v):
        cur = self.content(arr)
        ref, dims = self.base_target(arr)
        if op in ('Add', 'Sub'):
            x = self.broadcast_to(self.content(v) if not isinstance(v, (Poly, Bool)) else v, cur.shape)
            sg = 1 if op == 'Add' else -1
            self.write(ref, W(dims, T.TRUE, 'add', self.local(dims, lambda c: x(c).scale(sg))))
        else:
            nv = self.content(self.binop(op, arr, v))
            self.write(ref, W(dims, T.TRUE, 'set', self.local(dims, lambda c: nv.read(self, c))))

    def local(self, dims, fn):
        """val in terms of the view's coordinates -> val in terms of the base coordinates."""
        def val(coords):
            cs = tuple(c - d[1] for c, d in zip(coords, dims) if d[0] == 'rng')
            return fn(cs)
        return val

    def broadcast_to(self, v, shape, store=False):
        """fn(coords in shape) -> value of v."""
        if isinstance(v, (Poly, Bool)):
            p = P(v)
            return lambda c: p
        c0 = v
        off = len(shape) - len(c0.shape)
        if off < 0 and store and all(x.const() == 1 for x in c0.shape[:-off]):
            # assignment drops leading axes of length one
            c1, z = c0, (ZERO,) * -off
            c0 = Content(c1.shape[-off:], c1.sort, lambda co: c1.read(self, z + tuple(co)))
            off = 0
        if off < 0:
            raise Unsupported('broadcast')
        ones = []
        for k, s in enumerate(c0.shape):
            one = s.const() == 1 and shape[off + k].const() != 1
            if not one and s is not shape[off + k]:
                self.oblige('shapes agree', T.eq(s, shape[off + k]), 'shape', where=self.where())
            ones.append(one)

        def fn(c):
            cc = tuple(ZERO if ones[k] else c[off + k] for k in range(len(c0.shape)))
            return c0.read(self, cc)
        return fn

    def where(self):
        return None

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.st.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = self.unpack(v, len(t.elts))
            for x, y in zip(t.elts, vals):
                self.assign(x, y)
        elif isinstance(t, ast.Subscript):
            base = self.ev(t.value)
            self.store(base, self.index(t.slice), v)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value), t.attr, v)
        else:
            raise Unsupported('assignment target')

    def unpack(self, v, n):
        if isinstance(v, tuple):
            if len(v) != n:
                raise Unsupported('unpack length')
            return v
        if isinstance(v, Ref) and isinstance(self.cell(v), Lst):
            return self.cell(v).items
        if self.is_array(v) or isinstance(v, Content):
            sh = self.shape(v)
            return [self.subscript(v, P(i)) for i in range(n)]
        if isinstance(v, SeqVal):
            return [v.elem(P(i)) for i in range(n)]
        raise Unsupported('unpack %r' % (v,))

    def store(self, base, ix, v):
        if isinstance(base, Ref) and isinstance(self.cell(base), Dct):
            c = self.cell(base)
            d = dict(c.d)
            d[self.dkey(ix)] = v
            self.st.heap[base.id] = Dct(d)
            return
        if isinstance(base, Ref) and isinstance(self.cell(base), Lst):
            c = self.cell(base)
            k = P(ix).const() if isinstance(ix, (Poly, Bool)) else None
            if k is None:
                raise Unsupported('list store at symbolic index')
            items = list(c.items)
            items[int(k)] = v
            self.st.heap[base.id] = Lst(items)
            return
        if self.is_array(base) or (isinstance(base, Ref) and isinstance(self.cell(base), SymLst)):
            r = self.index_dims(base, ix)
            if r is None:
                self.fancy_store(base, ix, v)
                return
            ref, dims, newaxes = r
            shape = [d[2] - d[1] for d in dims if d[0] == 'rng' and not (len(d) > 3)]
            if isinstance(v, (Poly, Bool)):
                p = P(v)
                self.write(ref, W(dims, T.TRUE, 'set', lambda c: p))
            else:
                src = self.content(v)
                fn = self.broadcast_to(src, tuple(shape), True)
                self.write(ref, W(dims, T.TRUE, 'set', self.local(dims, fn)))
            return
        if isinstance(base, Ref) and isinstance(self.cell(base), Obj):
            r = self.cell(base).cls.lookup('__setitem__')
            if r:
                self.call(r[0].bind(base), [ix, v])
                return
        raise Unsupported('store into %r' % (base,))

    def fancy_store(self, base, ix, v):
        c = self.content(base)
        ref, dims0 = self.base_target(base)
        # boolean mask of the same shape
        if (self.is_array(ix) or isinstance(ix, Content)) and self.content(ix).sort == 'bool' and isinstance(v, (Poly, Bool)):
            m = self.content(ix)
            if len(m.shape) == len(c.shape):
                old = c
                p = P(v)
                self.write(ref, W(dims0, T.TRUE, 'set', self.local(dims0, lambda co: T.ite(T.ne0(m.read(self, co)), p, old.read(self, co)))))
                return
        if (self.is_array(ix) or isinstance(ix, Content)) and self.content(ix).sort == 'bool' and not isinstance(v, (Poly, Bool)) and not self.binders:
            # boolean mask and a vector: its entries go, in order, to the places where the mask is true
            m, src = self.content(ix), self.content(v)
            if len(m.shape) == len(c.shape) == len(dims0) and len(src.shape) == 1:
                def count(k, got):
                    return T.ind(T.ne0(m.read(self, tuple(got)))) if k == len(m.shape) else self.sum(ZERO, m.shape[k], lambda q: count(k + 1, got + [q]))
                for a, b in zip(m.shape, c.shape):
                    self.oblige('mask of the shape of the array', T.eq(a, b), 'shape')
                self.oblige('as many values as places', T.eq(src.shape[0], count(0, [])), 'shape')
                nm = 'rank!%s' % T.fresh('r').as_atom().args[0]
                ln = src.shape[0]

                def known(*co):
                    r = T.app(nm, co, 'int')
                    inside = [T.And(T.le(ZERO, x), T.lt(x, n)) for x, n in zip(co, m.shape)]
                    return T.Implies(T.And(T.ne0(m.read(self, tuple(co))), *inside), T.And(T.le(ZERO, r), T.lt(r, ln)))
                smt.add_fun_fact(nm, known)
                old = c
                self.write(ref, W(dims0, T.TRUE, 'set', self.local(dims0, lambda co: T.ite(T.ne0(m.read(self, co)), src.read(self, (T.app(nm, co, 'int'),)), old.read(self, co)))))
                return
        if (self.is_array(ix) or isinstance(ix, (Content, tuple)) or self.is_list(ix)) and len(c.shape) == 1 and len(dims0) == 1 and not isinstance(ix, tuple):
            # integer vector index: iterated write in order
            m = self.content(ix)
            if len(m.shape) == 1 and m.sort == 'int':
                k = T.fresh('w')
                with self.assume(T.le(ZERO, k), T.lt(k, m.shape[0])):
                    at = m.read(self, (k,))
                    self.oblige('index in bounds', T.And(T.le(ZERO, at), T.lt(at, c.shape[0])), 'bounds')
                if isinstance(v, (Poly, Bool)):
                    val = lambda co, p=P(v): p
                else:
                    fn = self.broadcast_to(self.content(v), m.shape)
                    val = lambda co: fn((k,))
                off = dims0[0][1]
                ln = m.shape[0].const()
                if ln is not None and ln <= 24:
                    if isinstance(v, (Poly, Bool)):
                        vals = [P(v)] * int(ln)
                    else:
                        vals = [fn((P(q),)) for q in range(int(ln))]
                    for q in range(int(ln)):
                        self.write(ref, W([('at', m.read(self, (P(q),)) + off)], T.TRUE, 'set', lambda co, p=vals[q]: p))
                    return
                w = W([('at', at + off)], T.TRUE, 'set', val)
                self.write(ref, L(k.as_atom(), ZERO, m.shape[0], [w]))
                return
        if isinstance(ix, tuple) and len(ix) == len(c.shape) == len(dims0) and sum(isinstance(x, Poly) for x in ix) == len(ix) - 1 and \
                all(isinstance(x, Poly) or self.is_array(x) or self.is_list(x) or isinstance(x, Content) for x in ix):
            # scalars and one integer vector: one row (column) scattered
            ax = [q for q, x in enumerate(ix) if not isinstance(x, Poly)][0]
            m = self.content(ix[ax])
            if len(m.shape) == 1 and m.sort == 'int':
                co0 = [None if q == ax else self.norm_index(x, c.shape[q]) + dims0[q][1] for q, x in enumerate(ix)]
                if isinstance(v, (Poly, Bool)):
                    fn = lambda co, p=P(v): p
                else:
                    fn = self.broadcast_to(self.content(v), m.shape)
                k = T.fresh('w')
                with self.assume(T.le(ZERO, k), T.lt(k, m.shape[0])):
                    at = m.read(self, (k,))
                    self.oblige('index in bounds', T.And(T.le(ZERO, at), T.lt(at, c.shape[ax])), 'bounds')

                def wr(kk):
                    p = m.read(self, (kk,)) + dims0[ax][1]
                    x = fn((kk,))
                    return W([('at', p if q == ax else y) for q, y in enumerate(co0)], T.TRUE, 'set', lambda co, x=x: x)
                ln = m.shape[0].const()
                if ln is not None and ln <= 24:
                    for w in [wr(P(q)) for q in range(int(ln))]:
                        self.write(ref, w)
                else:
                    self.write(ref, L(k.as_atom(), ZERO, m.shape[0], [wr(k)]))
                return
        if isinstance(ix, tuple) and len(ix) == len(c.shape) == 2 and all(self.is_array(x) or self.is_list(x) for x in ix):
            ms = [self.content(x) for x in ix]
            if all(len(m.shape) == 1 and m.sort == 'int' for m in ms) and len(dims0) == 2:
                k = T.fresh('w')
                ats = []
                self.oblige('index vectors of equal length', T.eq(ms[0].shape[0], ms[1].shape[0]), 'shape')
                with self.assume(T.le(ZERO, k), T.lt(k, ms[0].shape[0])):
                    for m, sz, d in zip(ms, c.shape, dims0):
                        at = m.read(self, (k,))
                        self.oblige('index in bounds', T.And(T.le(ZERO, at), T.lt(at, sz)), 'bounds')
                        ats.append(('at', at + d[1]))
                if isinstance(v, (Poly, Bool)):
                    val = lambda co, p=P(v): p
                else:
                    fn = self.broadcast_to(self.content(v), ms[0].shape)
                    val = lambda co: fn((k,))
                self.write(ref, L(k.as_atom(), ZERO, ms[0].shape[0], [W(ats, T.TRUE, 'set', val)]))
                return
        raise Unsupported('fancy store')

    def setattr(self, o, name, v):
        if isinstance(o, Ref) and isinstance(self.cell(o), Obj):
            c = self.cell(o)
            at = dict(c.attrs)
            at[name] = v
            self.st.heap[o.id] = Obj(c.cls, at)
            return
        raise Unsupported('attribute store')

    # -------------------------------------------------------------- loops
    def s_For(self, s):
        it = self.ev(s.iter)
        seq = self.sequence(it)
        if isinstance(seq, list):
            if len(seq) > UNROLL:
                raise Unsupported('loop too long to unroll')
            return self.unrolled(s, seq)
        from . import loops
        return loops.symbolic_for(self, s, seq)

    def unrolled(self, s, items):
        live = [self.st]
        done = []
        brk = []
        for x in items:
            nxt = []
            for st in live:
                self.st = st
                self.assign(s.target, x)
                for o in self.block(s.body, self.st):
                    if o[1] in ('normal', 'continue'):
                        nxt.append(o[0])
                    elif o[1] == 'break':
                        brk.append(o[0])
                    else:
                        done.append(o)
            if len(nxt) > 1:
                nxt = self.try_merge(nxt)
            live = nxt
            if not live:
                break
        outs = []
        for st in live:
            self.st = st
            outs += self.block(s.orelse, st) if s.orelse else [(st, 'normal', None)]
        outs += [(st, 'normal', None) for st in brk]
        norm = [o[0] for o in outs if o[1] == 'normal']
        rest = [o for o in outs if o[1] != 'normal']
        if len(norm) > 1:
            norm = self.try_merge(norm)
        return done + rest + [(x, 'normal', None) for x in norm]

    def s_While(self, s):
        from . import loops
        return loops.while_loop(self, s)

    def range_len(self, r):
        st = r.step.const()
        if st is None:
            return self.range_len_sym(r)
        d = r.hi - r.lo if st > 0 else r.lo - r.hi
        if abs(st) != 1:
            d = T.fdiv(d + abs(st) - 1, P(abs(st)))
        c = d.const()
        if c is not None:
            return P(max(0, c))
        c = self.dec(T.ge0(d))
        return d if c is T.TRUE else (ZERO if c is T.FALSE else T.ite(c, d, ZERO))

    def range_len_sym(self, r):
        """Length of a range whose step is a positive term: the quotient found by polynomial division, or a value given by what it means."""
        w = r.step
        self.oblige('the step of a range is not zero', T.lt(ZERO, w), 'pre')
        d = r.hi - r.lo
        for mon, c in w.m:
            if len(mon) != 1 or mon[0][1] != 1 or abs(c) != 1:
                continue
            x, q, rem = mon[0][0], ZERO, d
            if any(x in [a for a, _ in m2] for m2, _ in w.m if m2 != mon) or any(T.occurs(x, P(a)) for m2, _ in d.m for a, _ in m2 if a is not x):
                continue
            for _ in range(20):
                top = max(((dict(m2).get(x, 0), m2, c2) for m2, c2 in rem.m), key=lambda t: t[0], default=(0, None, 0))
                if top[0] == 0:
                    break
                part = P(top[2] / c)
                for a, e in top[1]:
                    part = part * P(a) ** (e - 1 if a is x else e)
                q, rem = q + part, rem - part * w
            for k in (0, -1, 1):
                L = q + k
                if self.prove(T.And(T.le(ZERO, L), T.le(d, L * w), T.lt((L - 1) * w, d)) if L.const() != 0 else T.le(d, ZERO)):
                    return L
        return self.fresh('range_len', 'int', lambda L: T.And(T.le(ZERO, L), T.le(d, L * w), T.Or(T.eq(L, ZERO), T.lt((L - 1) * w, d))))

    def sequence(self, it):
        """Concrete list of items, or SeqVal."""
        if isinstance(it, (tuple, list)):
            return list(it)
        if isinstance(it, str):
            return list(it)
        if isinstance(it, RangeVal):
            n = self.range_len(it)
            k = n.const()
            if k is not None:
                return [it.lo + it.step * q for q in range(int(k))]
            return it
        if isinstance(it, SeqVal):
            k = it.n.const()
            if k is not None and k <= UNROLL:
                return [it.elem(P(q)) for q in range(int(k))]
            return it
        if isinstance(it, Ref):
            c = self.cell(it)
            if isinstance(c, Lst):
                return list(c.items)
            if isinstance(c, Dct):
                return [self.unkey(k) for k in c.d]
        if self.is_array(it) or (isinstance(it, Ref) and isinstance(self.cell(it), SymLst)) or isinstance(it, Content):
            n = self.shape(it)[0]
            k = n.const()
            if k is not None and k <= UNROLL:
                return [self.subscript(it, P(q)) for q in range(int(k))]
            return SeqVal(n, lambda i: self.subscript(it, i))
        raise Unsupported('iteration over %r' % (it,))

    # -------------------------------------------------------------- expressions
    def ev(self, n):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            raise Unsupported('expression %s' % type(n).__name__)
        return m(n)

    def name(self, nm):
        e = self.st.env
        if nm in e:
            v = e[nm]
        else:
            sc = self.frame[0] if self.frame else {}
            v = _lookup(sc, nm)
            if v is _MISSING:
                from . import lib
                if nm in lib.BUILTINS:
                    return Mod('builtins.' + nm)
                raise Unsupported('undefined name %s' % nm)
        if isinstance(v, Poison):
            raise Unsupported('%s: %s' % (nm, v.why))
        return v

    def e_Name(self, n):
        return self.name(n.id)

    def e_Constant(self, n):
        v = n.value
        if isinstance(v, bool):
            return T.TRUE if v else T.FALSE
        if isinstance(v, (int, float)):
            if isinstance(v, float):
                from fractions import Fraction
                return Poly({(): Fraction(v)}) if v == v and abs(v) != float('inf') else T.app('inf' if v > 0 else 'ninf', (), 'real')
            return P(v)
        if v is None or isinstance(v, str) or v is Ellipsis:
            return v if v is not Ellipsis else ELLIPSIS
        raise Unsupported('constant %r' % (v,))

    def e_Tuple(self, n):
        return tuple(self.starred(n.elts))

    def starred(self, elts):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                s = self.sequence(self.ev(e.value))
                if not isinstance(s, list):
                    raise Unsupported('symbolic *args')
                out += s
            else:
                out.append(self.ev(e))
        return out

    def e_List(self, n):
        return self.alloc(Lst(self.starred(n.elts)))

    def e_Dict(self, n):
        return self.alloc(Dct({self.dkey(self.ev(k)): self.ev(v) for k, v in zip(n.keys, n.values)}))

    def e_Set(self, n):
        return ('set', tuple(self.ev(e) for e in n.elts))

    def dkey(self, k):
        if isinstance(k, Poly):
            c = k.const()
            if c is None:
                raise Unsupported('symbolic dictionary key')
            return c
        if isinstance(k, tuple):
            return tuple(self.dkey(x) for x in k)
        if isinstance(k, (str, Bool)) or k is None:
            return k
        raise Unsupported('dictionary key')

    def unkey(self, k):
        if isinstance(k, Fraction):
            return P(k)
        if isinstance(k, tuple):
            return tuple(self.unkey(x) for x in k)
        return k

    def e_JoinedStr(self, n):
        return '<fstring>'

    def e_Lambda(self, n):
        return Clo(n, self.capture(), self.frame[1].module if self.frame[1] else self.frame[0], '<lambda>',
                   [self.ev(d) for d in n.args.defaults], {})

    def e_IfExp(self, n):
        c = self.dec(self.truth(self.ev(n.test)))
        if c is T.TRUE:
            return self.ev(n.body)
        if c is T.FALSE:
            return self.ev(n.orelse)
        heap0 = dict(self.st.heap)
        k0, q0 = len(self.st.facts), len(self.st.qfacts)
        with self.assume(c):
            a = self.ev(n.body)
        self.st.facts[k0:] = [T.Implies(c, f) for f in self.st.facts[k0:]]
        self.st.qfacts[q0:] = [QF(q.binders, T.Implies(c, q.body)) for q in self.st.qfacts[q0:]]
        k0, q0 = len(self.st.facts), len(self.st.qfacts)
        with self.assume(T.Not(c)):
            b = self.ev(n.orelse)
        self.st.facts[k0:] = [T.Implies(T.Not(c), f) for f in self.st.facts[k0:]]
        self.st.qfacts[q0:] = [QF(q.binders, T.Implies(T.Not(c), q.body)) for q in self.st.qfacts[q0:]]
        if any(self.st.heap.get(k) is not x for k, x in heap0.items()):
            raise Unsupported('side effect in a conditional expression')
        return self.merge_val(c, a, b)

    def e_BoolOp(self, n):
        isand = isinstance(n.op, ast.And)
        acc = None
        vals = []
        depth = len(self.extra)
        try:
            for x in n.values:
                v = self.ev(x)
                t = self.dec(self.truth(v))
                vals.append((v, t))
                if isand and t is T.FALSE or (not isand and t is T.TRUE):
                    break
                self.extra.append(t if isand else T.Not(t))
        finally:
            del self.extra[depth:]
        if all(isinstance(v, Bool) for v, _ in vals):
            return T.And(*[t for _, t in vals]) if isand else T.Or(*[t for _, t in vals])
        # value semantics
        for v, t in vals[:-1]:
            if isand and t is T.FALSE or (not isand and t is T.TRUE):
                return v
            if t is not T.TRUE and t is not T.FALSE:
                return T.And(*[t for _, t in vals]) if isand else T.Or(*[t for _, t in vals])
        return vals[-1][0]

    def e_UnaryOp(self, n):
        op = type(n.op).__name__
        v = self.ev(n.operand)
        if op == 'Not':
            return T.Not(self.truth(v))
        if op == 'USub':
            return self.map1(v, lambda p: -p)
        if op == 'UAdd':
            return v
        if op == 'Invert':
            if isinstance(v, Bool):
                return T.Not(v)
            c = self.content(v)
            if c.sort == 'bool':
                return self.new_array(c.shape, 'bool', lambda co: ONE - c.read(self, co))
        raise Unsupported('unary %s' % op)

    def map1(self, v, fn, sort=None):
        if isinstance(v, (Poly, Bool)):
            return fn(P(v))
        c = self.content(v)
        so = sort or ('int' if c.sort == 'bool' else c.sort)
        return self.new_array(c.shape, so, lambda co: fn(c.read(self, co)))

    def e_BinOp(self, n):
        return self.binop(type(n.op).__name__, self.ev(n.left), self.ev(n.right))

    def truth(self, v):
        if isinstance(v, Bool):
            return v
        if isinstance(v, Poly):
            return T.Not(T.eq(v, ZERO))
        if v is None:
            return T.FALSE
        if isinstance(v, (str, tuple)):
            return T.TRUE if len(v) else T.FALSE
        if isinstance(v, Ref):
            c = self.cell(v)
            if isinstance(c, Lst):
                return T.TRUE if c.items else T.FALSE
            if isinstance(c, Dct):
                return T.TRUE if c.d else T.FALSE
            if isinstance(c, Obj):
                return T.TRUE
            if isinstance(c, SymLst):
                return T.gt0(c.c.shape[0])
            if isinstance(c, Arr) and all(s.const() == 1 for s in c.c.shape):
                return T.Not(T.eq(c.c.read(self, tuple(ZERO for _ in c.c.shape)), ZERO))
        if isinstance(v, (Clo, Mod, Native, ClassVal)):
            return T.TRUE
        if type(v).__name__ in ('RngVal', 'BMeth', 'PoolVal'):
            return T.TRUE
        raise Unsupported('truth value of %r' % (v,))

    def arith(self, op, a, b):
        if op == 'Add':
            return a + b
        if op == 'Sub':
            return a - b
        if op == 'Mult':
            return a * b
        if op == 'Div':
            if b.const() is None:
                self.oblige('divisor non-zero', T.Not(T.eq(b, ZERO)), 'division') if self.check_div else None
            return a / b
        if op == 'FloorDiv':
            if a.sort == 'int' and b.sort == 'int':
                return T.fdiv(a, b)
            return T.floor_(a / b)
        if op == 'Mod':
            if a.sort == 'int' and b.sort == 'int':
                return T.fmod(a, b)
            if b.const() == 1:
                return a - T.floor_(a)
            return a - b * T.floor_(a / b)
        if op == 'Pow':
            k = b.const()
            if k is not None and k.denominator == 1:
                if k >= 0 and k < 60:
                    if a.const() is not None:
                        return P(a.const() ** int(k))
                    if k <= 8:
                        return a ** int(k)
                elif k < 0 and a.const() is not None:
                    return P(Fraction(a.const()) ** int(k))
                elif k < 0:
                    return T.inv(a ** int(-k))
            if k == Fraction(1, 2):
                return T.app('sqrt', (a,), 'real')
            return T.power(a, b)
        if op in ('BitAnd', 'BitOr', 'BitXor'):
            if op == 'BitAnd':
                return a * b
            if op == 'BitOr':
                return a + b - a * b
            return a + b - a * b * 2
        raise Unsupported('operator %s' % op)

    check_div = False
    unroll_while = False

    def binop(self, op, a, b):
        if isinstance(a, Poison) or isinstance(b, Poison):
            raise Unsupported('poisoned value')
        if isinstance(a, (Poly, Bool)) and isinstance(b, (Poly, Bool)):
            if isinstance(a, Bool) and isinstance(b, Bool) and op in ('BitAnd', 'BitOr', 'BitXor'):
                return T.And(a, b) if op == 'BitAnd' else (T.Or(a, b) if op == 'BitOr' else T.Or(T.And(a, T.Not(b)), T.And(b, T.Not(a))))
            return self.arith(op, P(a), P(b))
        if isinstance(a, str) and op == 'Mod':
            return fmt_str(self, a, b)
        if isinstance(a, str) and isinstance(b, str) and op == 'Add':
            return a + b
        if isinstance(a, tuple) and isinstance(b, tuple) and op == 'Add':
            return a + b
        if self.is_list(a) and op == 'Add' and self.is_list(b):
            if not (isinstance(self.cell(a), Lst) and isinstance(self.cell(b), Lst)):
                ca, cb = self.content(a), self.content(b)
                m = ca.shape[0]
                return self.alloc(SymLst(Content((m + cb.shape[0],) + ca.shape[1:], ca.sort,
                                                 lambda co: T.ite(self.dec(T.lt(co[0], m)), ca.read(self, co), cb.read(self, (co[0] - m,) + tuple(co[1:]))))))
            return self.alloc(Lst(tuple(self.sequence(a)) + tuple(self.sequence(b))))
        if self.is_list(a) and op == 'Mult' and isinstance(b, Poly):
            k = b.const()
            it = self.sequence(a)
            if k is not None and isinstance(it, list):
                return self.alloc(Lst(it * int(k)))
            if isinstance(it, list) and len(it) == 1 and (isinstance(it[0], Poly) or is_chr(it[0])):
                c = chr_(it[0])
                b = T.ite(self.dec(T.ge0(b)), b, ZERO)
                return self.alloc(SymLst(Content((b,), c.sort, lambda co: c)))
            if isinstance(it, list) and len(it) == 1 and isinstance(it[0], tuple) and all(isinstance(x, (Poly, Bool)) for x in it[0]):
                return SeqVal(T.ite(self.dec(T.ge0(b)), b, ZERO), lambda i, v=it[0]: v)
            raise Unsupported('list repetition')
        if isinstance(a, Ref) and isinstance(self.cell(a), Obj) or isinstance(b, Ref) and isinstance(self.cell(b), Obj):
            raise Unsupported('operator on object')
        ca = a if isinstance(a, (Poly, Bool)) else self.content(a)
        cb = b if isinstance(b, (Poly, Bool)) else self.content(b)
        return self.elementwise([ca, cb], lambda x, y: self.arith(op, x, y), self.opsort(op, ca, cb))

    def opsort(self, op, a, b):
        def so(x):
            if isinstance(x, Poly):
                return x.sort
            if isinstance(x, Bool):
                return 'bool'
            return x.sort
        sa, sb = so(a), so(b)
        if op == 'Div':
            return 'real'
        if op in ('BitAnd', 'BitOr', 'BitXor') and sa == sb == 'bool':
            return 'bool'
        if 'real' in (sa, sb):
            return 'real'
        if sa == sb == 'bool' and op in ('Mult',):
            return 'bool'
        return 'int'

    def bshape(self, contents):
        nd = max(len(c.shape) for c in contents)
        shape = []
        for k in range(nd):
            dims = []
            for c in contents:
                j = k - (nd - len(c.shape))
                if j >= 0:
                    dims.append(c.shape[j])
            d = None
            for x in dims:
                if x.const() == 1 and len(dims) > 1:
                    continue
                if d is None:
                    d = x
                elif d is not x:
                    self.oblige('shapes agree', T.eq(d, x), 'shape')
            shape.append(d if d is not None else ONE)
        return tuple(shape)

    def elementwise(self, vals, fn, sort):
        cs = [v for v in vals if isinstance(v, Content)]
        shape = self.bshape(cs)
        fns = [self.broadcast_to(v, shape) for v in vals]
        return self.new_array(shape, sort, lambda co: P(fn(*[f(co) for f in fns])))

    def e_Compare(self, n):
        left = self.ev(n.left)
        res = None
        for op, r in zip(n.ops, n.comparators):
            right = self.ev(r)
            c = self.compare(type(op).__name__, left, right)
            res = c if res is None else (T.And(self.truth(res), self.truth(c)))
            left = right
        return res

    def compare(self, op, a, b):
        if op in ('Is', 'IsNot'):
            r = self.same(a, b)
            return r if op == 'Is' else T.Not(r)
        if op in ('In', 'NotIn'):
            r = self.contains(a, b)
            return r if op == 'In' else T.Not(r)
        if isinstance(a, (Poly, Bool)) and isinstance(b, (Poly, Bool)):
            return self.cmp(op, P(a), P(b))
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Poly) and is_chr(y) and op in ('Eq', 'NotEq'):
                t = x.as_atom()
                if t is not None and t.kind == 'f' and t.args[0] == 'chr':
                    r = T.eq(t.args[1][0], P(int(y, 36)))
                    return r if op == 'Eq' else T.Not(r)
        from . import lib
        if isinstance(a, lib.DtypeVal) or isinstance(b, lib.DtypeVal):
            if op not in ('Eq', 'NotEq'):
                raise Unsupported('compare dtypes')
            r = lib.same_dtype(a, b)
            return r if op == 'Eq' else T.Not(r)
        if isinstance(a, (str, type(None), Mod)) or isinstance(b, (str, type(None), Mod)):
            if op == 'Eq':
                return T.TRUE if a == b else T.FALSE
            if op == 'NotEq':
                return T.FALSE if a == b else T.TRUE
            raise Unsupported('compare strings')
        if isinstance(a, tuple) and isinstance(b, tuple) and (not a or a[0] != 'set'):
            if op in ('Eq', 'NotEq'):
                r = T.FALSE if len(a) != len(b) else T.And(*[self.truth(self.compare('Eq', x, y)) for x, y in zip(a, b)])
                return r if op == 'Eq' else T.Not(r)
        from . import lib
        if isinstance(a, lib.SetVal) and isinstance(b, lib.SetVal):
            le, ge = op in ('LtE', 'Eq', 'NotEq'), op in ('GtE', 'Eq', 'NotEq')
            if not (le or ge):
                raise Unsupported('set comparison')
            r = T.And(lib.subset(self, a, b) if le else T.TRUE, lib.subset(self, b, a) if ge else T.TRUE)
            return T.Not(r) if op == 'NotEq' else r
        kind = [tuple if isinstance(x, tuple) else list if isinstance(x, Ref) and isinstance(self.cell(x), Lst) else None for x in (a, b)]
        scalar = [isinstance(x, (Poly, Bool)) for x in (a, b)]
        if list in kind and (None not in kind or scalar[0] or scalar[1]):
            # Python's own lists: equality as a whole
            if op not in ('Eq', 'NotEq'):
                raise Unsupported('order of lists')
            if kind == [list, list]:
                x, y = self.sequence(a), self.sequence(b)
                if not isinstance(x, list) or not isinstance(y, list):
                    raise Unsupported('comparison of symbolic sequences')
                r = T.FALSE if len(x) != len(y) else T.And(*[self.truth(self.compare('Eq', p, q)) for p, q in zip(x, y)])
            else:
                r = T.FALSE
            return r if op == 'Eq' else T.Not(r)
        ca = a if isinstance(a, (Poly, Bool)) else self.content(a)
        cb = b if isinstance(b, (Poly, Bool)) else self.content(b)
        return self.elementwise([ca, cb], lambda x, y: T.ind(self.cmp(op, x, y)), 'bool')

    def cmp(self, op, a, b):
        return {'Eq': lambda: T.eq(a, b), 'NotEq': lambda: T.Not(T.eq(a, b)), 'Lt': lambda: T.lt(a, b),
                'LtE': lambda: T.le(a, b), 'Gt': lambda: T.lt(b, a), 'GtE': lambda: T.le(b, a)}[op]()

    def same(self, a, b):
        if isinstance(a, Bool) and isinstance(b, Bool):
            if b is T.TRUE:
                return a
            if b is T.FALSE:
                return T.Not(a)
            return T.Or(T.And(a, b), T.And(T.Not(a), T.Not(b)))
        if isinstance(a, Poly) and isinstance(b, Poly):
            return T.eq(a, b)
        return T.TRUE if (a is b or (type(a) == type(b) and isinstance(a, (str, Ref, Mod)) and a == b)) else T.FALSE

    def contains(self, a, b):
        if isinstance(b, Ref) and isinstance(self.cell(b), Dct):
            return T.TRUE if self.dkey(a) in self.cell(b).d else T.FALSE
        if isinstance(b, tuple) and len(b) and b[0] == 'set':
            b = b[1]
        s = self.sequence(b)
        if isinstance(s, list):
            return T.Or(*[self.truth(self.compare('Eq', a, x)) for x in s])
        raise Unsupported('membership in symbolic sequence')

    def e_Call(self, n):
        # super().__init__ etc.
        f = self.ev(n.func)
        if isinstance(f, Mod) and f.name == 'builtins.zip' and len(n.args) == 1 and isinstance(n.args[0], ast.Starred):
            s = self.sequence(self.ev(n.args[0].value))
            if isinstance(s, SeqVal):
                # transposition of a sequence of k-tuples
                e0 = s.elem(ZERO)
                if not isinstance(e0, tuple):
                    raise Unsupported('zip(*) of a sequence of non-tuples')
                return tuple(SeqVal(s.n, lambda i, k=k: s.elem(i)[k]) for k in range(len(e0)))
            return self.lib['builtins.zip'](self, *s)
        args = self.starred(n.args)
        kwargs = {}
        for k in n.keywords:
            if k.arg is None:
                d = self.ev(k.value)
                if isinstance(d, Ref) and isinstance(self.cell(d), Dct):
                    kwargs.update(self.cell(d).d)
                else:
                    raise Unsupported('**kwargs')
            else:
                kwargs[k.arg] = self.ev(k.value)
        if isinstance(f, Mod) and f.name == 'builtins.super':
            return ('super', self.frame[1].cls if self.frame[1] else None, self.st.env.get('self'))
        return self.call(f, args, kwargs)

    def e_Attribute(self, n):
        return self.getattr(self.ev(n.value), n.attr)

    def getattr(self, o, name):
        if isinstance(o, SrcMod):
            if name not in o.env:
                raise Raised(Exc('AttributeError'))
            return o.env[name]
        if isinstance(o, Mod):
            return self.lib_const(o.name + '.' + name)
        if isinstance(o, tuple) and len(o) == 3 and o[0] == 'super':
            for b in o[1].bases:
                r = b.lookup(name)
                if r:
                    return r[0].bind(o[2])
            raise Unsupported('super().%s' % name)
        if isinstance(o, Ref):
            c = self.cell(o)
            if isinstance(c, Obj):
                if name in c.attrs:
                    v = c.attrs[name]
                    if isinstance(v, Poison):
                        raise Unsupported('attribute %s: %s' % (name, v.why))
                    return v
                r = c.cls.lookup(name) if c.cls else None
                if r:
                    f = r[0]
                    if isinstance(f, Clo):
                        decs = [ast.unparse(d) for d in getattr(f.node, 'decorator_list', [])]
                        if any('staticmethod' in d for d in decs):
                            return f
                        if any('property' in d for d in decs):
                            return self.call(f.bind(o), [])
                        return f.bind(o)
                    return f
                raise Raised(Exc('AttributeError'))
        if isinstance(o, ClassVal):
            r = o.lookup(name)
            if r:
                return r[0]
            if name == '__name__':
                return o.name
            raise Unsupported('class attribute %s' % name)
        from . import lib
        r = lib.attribute(self, o, name)
        return r

    def lib_const(self, dotted):
        from . import lib
        if dotted in lib.CONSTS:
            return lib.CONSTS[dotted]
        if dotted.startswith('scipy.') and 'numpy.' + dotted[6:] in lib.CONSTS:
            return lib.CONSTS['numpy.' + dotted[6:]]
        return Mod(lib.canon(dotted))

    def e_Subscript(self, n):
        return self.subscript(self.ev(n.value), self.index(n.slice))

    def index(self, n):
        if isinstance(n, ast.Slice):
            return Slice(*[self.ev(x) if x is not None else None for x in (n.lower, n.upper, n.step)])
        if isinstance(n, ast.Tuple):
            if any(isinstance(e, ast.Starred) for e in n.elts):
                return tuple(self.starred(n.elts))
            return tuple(self.index(e) for e in n.elts)
        return self.ev(n)

    def norm_index(self, p, dim):
        """Python index -> 0-based, with an in-bounds obligation."""
        p = P(p)
        k = p.const()
        if k is not None and k < 0:
            q = p + dim
            self.oblige('index in bounds', T.And(T.le(ZERO, q), T.lt(q, dim)), 'bounds')
            return q
        if self.prove(T.le(ZERO, p)):
            self.oblige('index in bounds', T.lt(p, dim), 'bounds')
            return p
        if self.prove(T.lt(p, ZERO)):
            q = p + dim
            self.oblige('index in bounds', T.le(ZERO, q), 'bounds')
            return q
        self.oblige('index in bounds', T.And(T.le(-dim, p), T.lt(p, dim)), 'bounds')
        if self.prove(T.le(ZERO, p), self.timeout):
            return p
        return T.ite(T.lt(p, ZERO), p + dim, p)

    def norm_slice(self, s, dim):
        step = P(s.step).const() if s.step is not None else 1
        if step != 1:
            return None
        def bound(x, default):
            if x is None:
                return default
            x = P(x)
            if x.const() is not None and x.const() < 0:
                x = x + dim
            elif x.const() is None and not self.prove(T.le(ZERO, x)):
                if self.prove(T.lt(x, ZERO)):
                    x = x + dim
            # clip to [0,dim]
            if self.prove(T.le(x, dim)):
                if self.prove(T.le(ZERO, x)):
                    return x
                return T.ite(T.le(ZERO, x), x, ZERO)
            if self.prove(T.le(dim, x)):
                return dim
            return T.ite(T.le(x, dim), x, dim)
        lo = bound(s.lo, ZERO)
        hi = bound(s.hi, dim)
        if not self.prove(T.le(lo, hi)):
            if self.prove(T.lt(hi, lo)):
                hi = lo
            else:
                hi = T.ite(T.le(lo, hi), hi, lo)
        return lo, hi

    def index_dims(self, base, ix):
        """For basic indexing: (ref, dims, newaxis positions); None when the index is not basic."""
        if isinstance(base, View):
            ref, bd = base.ref, base.dims
        else:
            ref = base
            c = self.cell(base)
            bd = tuple(('rng', ZERO, s) for s in c.c.shape)
        idx = list(ix) if isinstance(ix, tuple) else [ix]
        if any(not (isinstance(x, (Poly, Bool, Slice)) or x is None or x is ELLIPSIS) for x in idx):
            return None
        if any(isinstance(x, Bool) for x in idx):
            return None
        free = [k for k, d in enumerate(bd) if d[0] == 'rng']
        nreal = len([x for x in idx if x is not None and x is not ELLIPSIS])
        if ELLIPSIS in [x for x in idx if not isinstance(x, (Poly, Slice))]:
            p = [i for i, x in enumerate(idx) if x is ELLIPSIS][0]
            idx = idx[:p] + [Slice(None, None, None)] * (len(free) - nreal) + idx[p + 1:]
        else:
            idx = idx + [Slice(None, None, None)] * (len(free) - nreal)
        dims = list(bd)
        new = []
        k = 0
        out_axis = 0
        for x in idx:
            if x is None:
                new.append(out_axis)
                out_axis += 1
                continue
            if k >= len(free):
                raise Raised(Exc('IndexError'))
            d = dims[free[k]]
            dim = d[2] - d[1]
            if isinstance(x, Slice):
                r = self.norm_slice(x, dim)
                if r is None:
                    return None
                dims[free[k]] = ('rng', d[1] + r[0], d[1] + r[1])
                out_axis += 1
            else:
                dims[free[k]] = ('at', d[1] + self.norm_index(x, dim))
            k += 1
        return ref, tuple(dims), new

    def elem_dims(self, base, ix):
        ref, dims, new = self.index_dims(base, ix)
        return ref, dims

    def subscript(self, base, ix, want_view=False):
        if isinstance(base, Content):
            base = self.alloc(Arr(base))
        if isinstance(base, tuple):
            if isinstance(ix, Slice):
                lo = None if ix.lo is None else int(P(ix.lo).const())
                hi = None if ix.hi is None else int(P(ix.hi).const())
                stp = None if ix.step is None else int(P(ix.step).const())
                return base[lo:hi:stp]
            k = P(ix).const()
            if k is None:
                return self.pick([P(x) for x in base], P(ix))
            if not -len(base) <= k < len(base):
                raise Raised(Exc('IndexError'))
            return base[int(k)]
        if isinstance(base, str):
            k = P(ix).const() if isinstance(ix, Poly) else None
            if k is None:
                if not isinstance(ix, Poly):
                    _unsup('string slice')
                if base == '0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ'[:len(base)]:
                    self.oblige('string index in range', T.And(T.le(ZERO, ix), T.lt(ix, P(len(base)))), 'index')
                    return T.app('chr', (ix,), 'int')
                return T.app('chr:' + base, (P(ix),), 'int')
            return base[int(k)]
        if isinstance(base, (RangeVal, SeqVal)):
            if isinstance(base, SeqVal):
                return base.elem(P(ix))
            return base.lo + base.step * P(ix)
        if isinstance(base, Mod):
            return base
        c = self.cell(base) if isinstance(base, Ref) else None
        if isinstance(c, Dct):
            k = self.dkey(ix)
            if k not in c.d:
                raise Raised(Exc('KeyError'))
            return c.d[k]
        if isinstance(c, Lst):
            if isinstance(ix, Slice):
                lo = None if ix.lo is None else P(ix.lo).const()
                hi = None if ix.hi is None else P(ix.hi).const()
                stp = None if ix.step is None else P(ix.step).const()
                if (ix.lo is not None and lo is None) or (ix.hi is not None and hi is None):
                    raise Unsupported('symbolic slice of list')
                f = lambda x: None if x is None else int(x)
                return self.alloc(Lst(c.items[f(lo):f(hi):f(stp)]))
            k = P(ix).const()
            if k is None:
                self.oblige('index in bounds', T.And(T.le(ZERO, P(ix)), T.lt(P(ix), P(len(c.items)))), 'bounds')
                return self.pick([P(x) for x in c.items], P(ix))
            if not -len(c.items) <= k < len(c.items):
                raise Raised(Exc('IndexError'))
            return c.items[int(k)]
        if isinstance(c, Obj):
            r = c.cls.lookup('__getitem__')
            if r:
                return self.call(r[0].bind(base), [ix])
            raise Unsupported('subscript of object')
        if isinstance(base, Poly) and ix == ():
            return base
        if not (isinstance(c, (Arr, SymLst)) or isinstance(base, View)):
            raise Unsupported('subscript of %r' % (base,))
        r = self.index_dims(base, ix)
        if r is None:
            from . import lib
            return lib.fancy(self, base, ix)
        ref, dims, new = r
        if not any(d[0] == 'rng' for d in dims) and not new:
            return self.cell(ref).c.read(self, tuple(d[1] for d in dims))
        v = View(ref, dims)
        if new:
            src = self.content(v)
            shape = list(src.shape)
            for a in new:
                shape.insert(a, ONE)
            keep = [k for k in range(len(shape)) if k not in new]
            return self.new_array(shape, src.sort, lambda co: src.read(self, tuple(co[k] for k in keep)))
        return v

    # -------------------------------------------------------------- comprehensions
    def comp(self, n):
        if len(n.generators) != 1:
            gens = n.generators
            return self.comp_multi(n.elt, gens)
        g = n.generators[0]
        seq = self.sequence(self.ev(g.iter))
        save = dict(self.st.env)
        if isinstance(seq, list):
            out = []
            for x in seq:
                self.assign(g.target, x)
                ok = True
                for c in g.ifs:
                    t = self.dec(self.truth(self.ev(c)))
                    if t is T.FALSE:
                        ok = False
                        break
                    if t is not T.TRUE:
                        raise Unsupported('symbolic filter in comprehension')
                if ok:
                    out.append(self.ev(n.elt))
            self.restore_env(save)
            return out
        if g.ifs:
            raise Unsupported('filter in symbolic comprehension')
        seq = seq if isinstance(seq, SeqVal) else SeqVal(self.range_len(seq), lambda i, r=seq: r.lo + r.step * i)
        v = T.fresh('c')
        st = self.st
        st.facts.append(T.le(ZERO, v)); st.facts.append(T.lt(v, seq.n))
        nf = len(st.facts)
        self.binders.append(v)
        try:
            self.assign(g.target, seq.elem(v))
            e = self.ev(n.elt)
        finally:
            self.binders.pop()
        self.st.facts = [f for f in self.st.facts if not T.occurs(v.as_atom(), f)]
        self.restore_env(save)
        va = v.as_atom()
        if isinstance(e, (Poly, Bool)):
            p = P(e)
            return SeqVal(seq.n, lambda i: T.subst(p, {va: P(i)}))
        c = self.content(e)

        def elem(i):
            i = P(i)
            return self.new_array(tuple(T.subst(s, {va: i}) for s in c.shape), c.sort,
                                  lambda co: self.sub_read(c, va, i, co))
        sv = SeqVal(seq.n, elem)
        if any(T.occurs(va, s) for s in c.shape):
            return sv        # vectors of different lengths: only concatenation is defined
        # a list of equally shaped arrays is an array with one more dimension
        return Content((seq.n,) + c.shape, c.sort, lambda co: self.sub_read(c, va, co[0], co[1:]))

    def sub_read(self, c, va, i, co):
        prot = {x: T.fresh('prot', x.sort) for x in [va] if any(T.occurs(va, q) for q in co)}
        cs = [T.subst(q, prot) for q in co] if prot else co
        with self.assume(T.le(ZERO, P(va))):
            r = c.read(self, tuple(cs))
        r = T.subst(r, {va: P(i)})
        return T.subst(r, {prot[x].as_atom(): P(x) for x in prot}) if prot else r

    def comp_multi(self, elt, gens):
        save = dict(self.st.env)
        out = []

        def rec(k):
            if k == len(gens):
                out.append(self.ev(elt))
                return
            seq = self.sequence(self.ev(gens[k].iter))
            if not isinstance(seq, list):
                raise Unsupported('symbolic nested comprehension')
            for x in seq:
                self.assign(gens[k].target, x)
                ok = True
                for c in gens[k].ifs:
                    t = self.dec(self.truth(self.ev(c)))
                    if t is T.FALSE:
                        ok = False
                        break
                    if t is not T.TRUE:
                        raise Unsupported('symbolic filter')
                if ok:
                    rec(k + 1)
        rec(0)
        self.restore_env(save)
        return out

    def restore_env(self, save):
        self.st.env = save

    def e_ListComp(self, n):
        r = self.comp(n)
        if isinstance(r, list):
            return self.alloc(Lst(r))
        if isinstance(r, Content):
            return self.alloc(SymLst(r))
        if not isinstance(r.elem(ZERO), (Poly, Bool)):
            return r            # vectors of different lengths
        p = self.content(r)
        return self.alloc(SymLst(p))

    def e_GeneratorExp(self, n):
        r = self.comp(n)
        if isinstance(r, list):
            return tuple(r)
        return r

    def e_DictComp(self, n):
        raise Unsupported('dict comprehension')


def is_generator(node):
    def walk(n):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.Yield, ast.YieldFrom)):
                return True
            if not isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef)) and walk(c):
                return True
        return False
    return isinstance(node, ast.FunctionDef) and walk(node)


def is_chr(x):
    return isinstance(x, str) and len(x) == 1 and x in '0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ'


def chr_(x):
    """One-character digit strings held in arrays are chr(value of the digit)."""
    return T.app('chr', (P(int(x, 36)),), 'int') if is_chr(x) else x


def fmt_str(ex, a, b):
    """Formatted string with the arguments' term keys in place of their values."""
    import re
    args = list(b) if isinstance(b, tuple) else [b]

    def one(m):
        if m.group(0) == '%%':
            return '%'
        if not args:
            return '<?>'
        x = args.pop(0)
        return x.key if isinstance(x, (Poly, Bool)) else (x if isinstance(x, str) else '<value>')
    return re.sub(r'%[-+ #0-9.]*[a-zA-Z%]', one, a)


def _unsup(m):
    raise Unsupported(m)


_MISSING = object()


class _Scope:
    """Lexical scope captured by a nested function."""
    __slots__ = ('env', 'parent')

    def __init__(self, env, parent):
        self.env, self.parent = env, parent

    def get(self, k, d=None):
        v = _lookup(self, k)
        return d if v is _MISSING else v


def _lookup(sc, nm):
    while isinstance(sc, _Scope):
        if nm in sc.env:
            return sc.env[nm]
        sc = sc.parent
    if sc is not None and nm in sc:
        return sc[nm]
    return _MISSING

"""Loops over a symbolic range: inferred inductive invariants in closed form.

For the loop  for v in range(lo, hi): body  the candidates are, for every variable the body changes,
x at iteration v = x0 + sum of its increments (or the last assigned value), and for every array the log of the writes of
the iterations before v.  Preservation and initialisation are obligations.  Returns and raises inside the body are first-hit.
"""
import ast
from . import terms as T
from . import smt
from .terms import P, Poly, Bool, ZERO, ONE
from .heap import Content, W, L, Unsupported, sub_entry, flatten, guard_entry
from .exec import (Arr, SymLst, Lst, Obj, Dct, Ref, View, Poison, SeqVal, RangeVal, St, QF, Exc)


def assigned_names(body):
    out = set()
    for s in body:
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                out.add(n.id)
            elif isinstance(n, (ast.FunctionDef,)):
                out.add(n.name)
    return out


def has_break(body):
    """break belonging to this loop"""
    def walk(stmts):
        for s in stmts:
            if isinstance(s, ast.Break):
                return True
            if isinstance(s, (ast.For, ast.While)):
                if walk(s.orelse):
                    return True
                continue
            for f in ('body', 'orelse', 'finalbody'):
                if walk(getattr(s, f, []) or []):
                    return True
        return False
    return walk(body)


class HNames:
    n = 0


def opaque(c):
    HNames.n += 1
    nm = 'H!%d' % HNames.n
    sort = 'int' if c.sort in ('int', 'bool') else 'real'
    return nm, Content(c.shape, c.sort, lambda co: T.app(nm, co, sort))


def subst_fun(t, repl):
    """Replace applications name(args) by repl[name](args)."""
    if not any(k in t.key for k in repl):
        return t
    memo = {}

    def sp(p):
        if p in memo:
            return memo[p]
        if not any(k in p.key for k in repl):
            return p
        out = ZERO
        for mon, c in p.m:
            acc = P(c)
            for a, k in mon:
                x = sa(a)
                for _ in range(k):
                    acc = acc * x
            out = out + acc
        memo[p] = out
        return out

    def sa(a):
        k = a.kind
        if k == 'v' or not any(n in a.key for n in repl):
            return P(a)
        if k == 'f':
            f, args = a.args
            na = tuple(sp(x) for x in args)
            if f in repl:
                return repl[f](na)
            if f == 'exp':
                return T.fexp(na[0])
            if f == 'log':
                return T.flog(na[0])
            return T.app(f, na, a.sort)
        if k == 'inv':
            return T.inv(sp(a.args[0]))
        if k == 'ind':
            return T.ind(sb(a.args[0]))
        if k == 'fd':
            return T.fdiv(sp(a.args[0]), sp(a.args[1]))
        if k == 'floor':
            return T.floor_(sp(a.args[0]))
        if k in ('sum', 'prod'):
            bv, lo, hi, body = a.args
            v = T.fresh('b')
            b2 = sp(T.subst(body, {bv: v}))
            return (T.mksum if k == 'sum' else T.mkprod)(v.as_atom(), sp(lo), sp(hi), b2)
        raise AssertionError(k)

    def sb(b):
        k = b.kind
        if k in ('true', 'false'):
            return b
        if k == 'not':
            return T.Not(sb(b.args[0]))
        if k == 'and':
            return T.And(*[sb(x) for x in b.args])
        if k == 'or':
            return T.Or(*[sb(x) for x in b.args])
        if k == 'ge':
            return T.ge0(sp(b.args[0]))
        if k == 'gt':
            return T.gt0(sp(b.args[0]))
        if k == 'eq':
            return T.eq(sp(b.args[0]), ZERO)
        if k == 'bf':
            return T.bapp(b.args[0], tuple(sp(x) for x in b.args[1]))
        raise AssertionError(k)
    return sp(t) if isinstance(t, Poly) else sb(t)


def map_entry(e, fn):
    """Apply fn to every term of an entry."""
    if isinstance(e, W):
        dims = [('at', fn(x[1])) if x[0] == 'at' else ('rng', fn(x[1]), fn(x[2])) for x in e.dims]
        old = e.val
        return W(dims, fn(e.guard), e.op, lambda c: fn(old(c)))
    return L(e.var, fn(e.lo), fn(e.hi), [map_entry(x, fn) for x in e.entries])


def symbolic_for(ex, s, seq):
    if isinstance(seq, RangeVal):
        st = seq.step.const()
        n = ex.range_len(seq)
        if st == 1:
            lo, hi = seq.lo, seq.hi
            elem = lambda i: i
            if not ex.prove(T.le(lo, hi)):
                if ex.prove(T.le(hi, lo)):
                    return [(ex.st, 'normal', None)]
                # keep the range; sums over it are guarded
                hi = lo + n
        else:
            lo, hi = ZERO, n
            elem = lambda i, r=seq: r.lo + r.step * i
    else:
        lo, hi, elem = ZERO, seq.n, seq.elem
    if ex.frame[1] is not None:
        order = sorted((x for x in ast.walk(ex.frame[1].node) if isinstance(x, ast.For)), key=lambda x: x.lineno)
        spec = ex.loopspec.get((ex.frame[1].name, 'for', order.index(s))) if s in order else None
        if spec is not None:
            return inv_for(ex, s, lo, hi, elem, spec)
    if s.orelse:
        raise Unsupported('for-else over a symbolic range')
    if has_break(s.body):
        raise Unsupported('break in a loop over a symbolic range')
    ent = ex.st
    entry_env, entry_heap = dict(ent.env), dict(ent.heap)
    entry_facts, entry_q = list(ent.facts), list(ent.qfacts)
    targets = assigned_names([ast.Assign(targets=[s.target], value=ast.Constant(value=0))])
    assigned = assigned_names(s.body)
    carried = {}
    others = {}
    for nm in assigned:
        if nm in targets or nm not in entry_env:
            continue
        v = entry_env[nm]
        if isinstance(v, (Poly, Bool)):
            carried[('n', nm)] = P(v)
        else:
            others[nm] = v
    v = T.fresh('i')
    va = v.as_atom()
    known = {}         # key -> closed form in v
    dirty = {}         # ref id -> (H name, opaque content)
    rng = [T.le(lo, v), T.lt(v, hi)]
    syms = {}
    used_opaque = set()
    chn = getattr(ex, 'chain', None)
    cells = {}         # ref id -> content at iteration t of a Markov chain state (chain.py) or of its energy, as a function of t
    energies = {}      # carried number or one-element array -> (calc_e, theta, state ref id)
    recs = {}          # ref id -> where the iteration before wrote, for arrays computed one element from the last (recurrences)

    def newval(k, norm):
        if k[0] == 'n':
            return norm.env.get(k[1])
        if k[0] == 'c':
            ex.st = norm
            return norm.heap[k[1]].c.read(ex, tuple(T.subst(x, {va: v + 1}) for x in recs[k[1]]))
        return norm.heap[k[1]].c.shape[0]
    k0, nt0 = (chn.k, chn.nt) if chn is not None else (0, 0)
    f0 = ex.nfresh

    def run(mute):
        # every round uses the same names for states and fresh values (what was known about those of the last round is dropped)
        if chn is not None:
            chn.k, chn.nt = k0, nt0 + len(cells)
        ex.nfresh = f0
        smt.drop_fun_facts(f0)
        st = St(dict(entry_env), dict(entry_heap), entry_facts + rng, entry_q)
        for k, x0 in carried.items():
            if k in known:
                val = known[k]
            else:
                if k not in syms:
                    syms[k] = T.fresh('x', x0.sort if x0.sort == 'real' else 'int')
                val = syms[k]
            if k[0] == 'n':
                st.env[k[1]] = val
        for rid, (nm, c) in dirty.items():
            cell = entry_heap[rid]
            if rid in cells:
                st.heap[rid] = Arr(cells[rid](v))
            elif rid in recs:
                st.heap[rid] = Arr(Content(c.shape, c.sort, _rec_base(c, recs[rid], known.get(('c', rid), syms.get(('c', rid))))))
            elif isinstance(cell, Arr):
                st.heap[rid] = Arr(c)
            else:
                ln = known.get(('l', rid), syms.get(('l', rid)))
                st.heap[rid] = SymLst(Content((ln,) + c.shape[1:], c.sort, c.base))
        for nm, x in others.items():
            pass
        ex.st = st
        ex.mute += 1 if mute else 0
        ex.binders.append(v)
        try:
            ex.assign(s.target, elem(v))
            outs = ex.block(s.body, ex.st)
        finally:
            ex.binders.pop()
            ex.mute -= 1 if mute else 0
        norm = [o[0] for o in outs if o[1] in ('normal', 'continue')]
        rest = [o for o in outs if o[1] not in ('normal', 'continue')]
        if len(norm) > 1:
            m = norm[0]
            for x in norm[1:]:
                m, _ = ex.merge(m, None, x, None)
            norm = [m]
        if any(o[1] == 'break' for o in rest):
            raise Unsupported('break in a loop over a symbolic range')
        return (norm[0] if norm else None), rest

    for rounds in range(12):
        norm, rest = run(True)
        if norm is None:
            break
        changed = False
        # newly dirty heap cells
        for rid, cell in entry_heap.items():
            now = norm.heap.get(rid)
            if rid in dirty:
                continue
            if now is cell:
                continue
            if isinstance(cell, Arr) and isinstance(now, Arr):
                if now.c is cell.c:
                    continue
                dirty[rid] = opaque(cell.c)
                changed = True
            elif isinstance(cell, (Lst, SymLst)) and isinstance(now, (Lst, SymLst)):
                c0 = ex.content(Ref(rid)) if False else _list_content(ex, cell, now)
                # from now on a list of symbolic length
                entry_heap[rid] = SymLst(c0)
                dirty[rid] = opaque(c0)
                carried[('l', rid)] = c0.shape[0]
                syms[('l', rid)] = T.fresh('len')
                changed = True
            elif isinstance(cell, Obj) and isinstance(now, Obj):
                for a in now.attrs:
                    if now.attrs[a] is not cell.attrs.get(a):
                        raise Unsupported('attribute %s changes in a loop over a symbolic range' % a)
            else:
                raise Unsupported('object changes in a loop over a symbolic range')
        if not changed:
            for rid, (nm, c) in dirty.items():
                at = _recurrence(ex, norm.heap[rid], nm, v) if rid not in recs and rid not in cells and isinstance(entry_heap[rid], Arr) else None
                if at is not None:
                    recs[rid] = at
                    ex.st = St(dict(entry_env), dict(entry_heap), list(entry_facts), list(entry_q))
                    carried[('c', rid)] = entry_heap[rid].c.read(ex, tuple(T.subst(x, {va: lo}) for x in at))
                    changed = True
        if chn is not None and changed:
            _chain_cells(ex, chn, ent, entry_heap, dirty, cells, energies, carried, known, v, nt0)
        for nm, x in others.items():
            y = norm.env.get(nm)
            if y is not x and not (isinstance(x, (Ref, Poison)) and (y == x or isinstance(x, Poison))):
                # rebinding of a non-numeric variable: only its use after the loop is problematic
                entry_env[nm] = Poison('%s is rebound in the loop' % nm)
        if changed:
            continue
        # closed forms
        prog = False
        sy = {syms[k].as_atom(): k for k in carried if k not in known and k in syms}
        for k, x0 in carried.items():
            if k in known:
                continue
            new = newval(k, norm)
            if not isinstance(new, (Poly, Bool)):
                raise Unsupported('loop variable %s changes type' % (k,))
            new = P(new)
            xs = syms[k]
            d = new - xs
            fr = [a for a in T.free_vars(d) if a in sy]
            hz = any(nm in d.key for nm, _ in dirty.values())
            if not fr and not hz:
                t = T.fresh('t')
                with ex.assume(T.le(lo, v), T.le(v, hi)):
                    known[k] = x0 + T.mksum(t.as_atom(), lo, v, T.subst(d, {va: t}))
                prog = True
                continue
            fr2 = [a for a in T.free_vars(new) if a in sy]
            if not fr2 and not any(nm in new.key for nm, _ in dirty.values()):
                # last-value assignment
                if not T.occurs(va, new):
                    known[k] = T.ite(T.eq(v, lo), x0, new)
                else:
                    known[k] = T.ite(T.eq(v, lo), x0, T.subst(new, {va: v - 1}))
                prog = True
                continue
        left = [k for k in carried if k not in known]
        if not left:
            break
        if not prog:
            if set(left) <= used_opaque:
                break
            # leave them opaque: acceptable if nothing that is kept depends on them
            used_opaque |= set(left)
            break
    else:
        raise Unsupported('loop analysis does not converge')

    # final, checked execution of the body
    norm, rest = run(False)
    returns = [o for o in rest if o[1] == 'return']
    raises = [o for o in rest if o[1] == 'raise']
    if norm is not None:
        for k, x0 in carried.items():
            if k in energies:
                continue
            if k in known:
                new = newval(k, norm)
                nxt = T.subst(known[k], {va: v + 1})
                ex.st = norm
                ex.oblige('loop invariant %s holds initially' % _nm(k), T.eq(T.subst(known[k], {va: lo}), x0), 'inv-init')
                with ex.assume(*rng):
                    from . import sums
                    sums.prove_eq(ex, 'loop invariant %s is preserved' % _nm(k), P(new), nxt, 'inv-step')
    if norm is not None and cells:
        _chain_check(ex, chn, ent, entry_heap, norm, cells, energies, rng)
    # arrays
    out_heap = dict(entry_heap)
    for rid in cells:
        out_heap[rid] = Arr(cells[rid](hi))
    repl = {}
    pend = {}
    if norm is not None:
        ex.st = norm
        for rid, (nm, c) in dirty.items():
            if rid in cells:
                continue
            now = norm.heap[rid].c
            if now.base is not c.base and rid not in recs:
                raise Unsupported('array replaced in loop')
            entries = now.log
            if _restored(ex, entries, now, nm):
                repl[nm] = (lambda rid: lambda co: _safe(entry_heap[rid].c).read(ex, co))(rid)
            else:
                pend[rid] = (nm, entries)
    left_syms = [syms[k].key for k in carried if k not in known]
    hnames = [nm for rid, (nm, es) in pend.items()]

    def clean(t):
        t = subst_fun(t, repl) if repl else t
        for x in left_syms:
            if x in t.key:
                raise Unsupported('value depends on a loop variable without closed form')
        for x in hnames:
            if x in t.key:
                raise Unsupported('value depends on array elements changed by earlier iterations')
        return t

    st = St(dict(entry_env), out_heap, entry_facts, entry_q)
    # heap cells allocated in the loop are kept for closures but belong to single iterations
    if norm is not None:
        for rid, cell in norm.heap.items():
            if rid not in out_heap:
                out_heap[rid] = cell
    lof, hif = lo, hi
    for rid, (nm, entries) in pend.items():
        c0 = entry_heap[rid].c
        t = T.fresh('it')
        es = []
        for e in entries:
            e = _self_reads(ex, e, nm, c0, lo, va, entries)
            e = map_entry(e, clean)
            es.append(sub_entry(e, {va: t}))
        body = tuple(es)
        c1 = Content(c0.shape, c0.sort, c0.base, c0.log + (L(t.as_atom(), lo, hi, body),), c0.tag)
        if isinstance(entry_heap[rid], SymLst):
            ln = T.subst(known[('l', rid)], {va: hi})
            c1 = Content((ln,) + c0.shape[1:], c0.sort, c0.base, c1.log)
            out_heap[rid] = SymLst(c1)
        else:
            out_heap[rid] = Arr(c1)
    # facts of every iteration
    newq = []
    if norm is not None:
        for q in norm.qfacts[len(entry_q):]:
            newq.append((((va, lo, hi),) + q.binders, q.body))
        base = len(entry_facts) + 2
        fs = [f for f in norm.facts[base:]]
        for f in fs:
            newq.append((((va, lo, hi),), f))
    outs = []
    # first-hit returns / raises
    for o in returns + raises:
        ost = o[0]
        f2 = []
        ost.facts = [clean(f) for f in ost.facts]
        extraq = []
        for binders, body in newq:
            try:
                b = clean(body)
            except Unsupported:
                continue
            # iterations before this one
            w = T.fresh('w')
            d = {va: w}
            nb = ((w.as_atom(), lo, v),) + tuple((x, T.subst(l2, d), T.subst(h2, d)) for x, l2, h2 in binders[1:])
            extraq.append(QF(nb, T.subst(b, d)))
        ost.qfacts = list(ost.qfacts) + extraq
        # arrays at that moment: entry + earlier iterations + this iteration so far
        for rid, (nm, c) in dirty.items():
            if rid in cells:
                continue
            now = ost.heap[rid].c
            c0 = entry_heap[rid].c
            if nm in repl:
                log = c0.log + tuple(map_entry(e, clean) for e in now.log)
                nc = Content(now.shape, c0.sort, c0.base, log, c0.tag)
            else:
                t = T.fresh('it')
                es = [sub_entry(map_entry(_self_reads(ex, e, nm, c0, lo, va, pend[rid][1]), clean), {va: t}) for e in pend[rid][1]] if rid in pend else []
                log = c0.log + ((L(t.as_atom(), lo, v, es),) if es else ()) + tuple(map_entry(e, clean) for e in now.log)
                nc = Content(now.shape, c0.sort, c0.base, log, c0.tag)
            ost.heap[rid] = type(ost.heap[rid])(nc)
        ost.env = {k: x for k, x in ost.env.items()}
        val = o[2]
        if o[1] == 'return':
            val = _clean_val(val, clean)
        outs.append((ost, o[1], val))
    if norm is None:
        # every iteration leaves the function
        st.facts = st.facts + [T.le(hi, lo)]
        outs.append((st, 'normal', None))
        ex.st = st
        return outs
    st.qfacts = list(st.qfacts)
    for binders, body in newq:
        try:
            b = clean(body)
        except Unsupported:
            continue
        w = T.fresh('w')
        d = {va: w}
        nb = ((w.as_atom(), lo, hi),) + tuple((x, T.subst(l2, d), T.subst(h2, d)) for x, l2, h2 in binders[1:])
        st.qfacts.append(QF(nb, T.subst(b, d)))
    nonempty = ex.prove(T.lt(lo, hi))
    for k, x0 in carried.items():
        if k[0] != 'n':
            continue
        if k in known:
            with ex.assume():
                ex.st = st
                val = T.subst(known[k], {va: hi})
                if T.occurs(va, known[k]) and not ex.prove(T.le(lo, hi)):
                    val = T.ite(T.le(lo, hi), val, x0)
            st.env[k[1]] = val
        else:
            st.env[k[1]] = Poison('no closed form for %s' % k[1])
    for nm in (assigned | targets):
        if ('n', nm) in carried:
            continue
        if nm in others:
            st.env[nm] = entry_env[nm]
            continue
        val = norm.env.get(nm)
        if isinstance(val, (Poly, Bool)) and nonempty:
            try:
                st.env[nm] = T.subst(clean(val), {va: hi - 1})
            except Unsupported as u:
                st.env[nm] = Poison(str(u))
        else:
            st.env[nm] = Poison('%s is local to the loop' % nm)
    outs.append((st, 'normal', None))
    ex.st = st
    return outs


def _chain_cells(ex, chn, ent, entry_heap, dirty, cells, energies, carried, known, v, nt0):
    """Markov chain states among the changed arrays (arrays given to a Metropolis step), and the numbers that hold their energies."""
    new = [rid for rid in dirty if rid in chn.states and rid not in cells]
    if not new:
        return
    outer = list(ex.binders)
    for rid in new:
        c0 = entry_heap[rid].c
        nm = 'tok!%d' % (nt0 + len(cells) + 1)
        cells[rid] = lambda t, c0=c0, nm=nm: chn.cell(c0, nm, outer + [t])
    ex.st = St(dict(ent.env), dict(entry_heap), list(ent.facts), list(ent.qfacts))
    ex.mute += 1
    try:
        for rid in new:
            fe, th = chn.states[rid]
            try:
                e0 = chn.value(ex, fe, chn.row_of(entry_heap[rid].c), th)
            except Unsupported:
                continue

            def at(t, rid=rid, fe=fe, th=th):
                return chn.value(ex, fe, chn.row_of(cells[rid](t)), th)
            for k, x0 in carried.items():
                if k[0] == 'n' and k not in energies and ex.prove(T.eq(x0, e0)):
                    energies[k] = rid
                    known[k] = at(v)
            for r2, (nm, c) in dirty.items():
                c2 = entry_heap[r2].c
                if r2 in cells or isinstance(entry_heap[r2], SymLst) or c2.sort != 'real' or any(s.const() != 1 for s in c2.shape):
                    continue
                if ex.prove(T.eq(c2.read(ex, (ZERO,) * len(c2.shape)), e0)):
                    energies[('a', r2)] = rid
                    ev = at(v)
                    va = v.as_atom()
                    cells[r2] = lambda t, c2=c2, ev=ev, va=va: Content(c2.shape, 'real', lambda co: T.subst(ev, {va: t}))
    finally:
        ex.mute -= 1


def _chain_check(ex, chn, ent, entry_heap, norm, cells, energies, rng):
    from . import sums
    ex.st = St(dict(ent.env), dict(entry_heap), list(ent.facts), list(ent.qfacts))
    for rid in cells:
        if ('a', rid) in energies:
            continue
        row = chn.row_of(entry_heap[rid].c)
        p = T.fresh('p')
        with ex.assume(T.le(ZERO, p), T.lt(p, row.shape[0])):
            ex.oblige('the state of the chain is legal at the start', chn.legal(row.read(ex, (p,)), p), 'inv-init')
        if not ex.mute:
            chn.starts.append((row, list(ex.binders)))
    for k, rid in energies.items():
        fe, th = chn.states[rid]
        for st, key in ((St(dict(ent.env), dict(entry_heap), list(ent.facts), list(ent.qfacts)), 'holds initially'), (norm, 'is preserved')):
            ex.st = st
            with ex.assume(*(rng if st is norm else [])):
                e = chn.value(ex, fe, chn.row_of(st.heap[rid].c), th)
                if k[0] == 'a':
                    c = st.heap[k[1]].c
                    x = c.read(ex, (ZERO,) * len(c.shape))
                else:
                    x = P(st.env[k[1]])
                sums.prove_eq(ex, 'the carried energy is the energy of the state: %s' % key, x, e, 'inv-init' if st is not norm else 'inv-step')


def _nm(k):
    return k[1] if k[0] == 'n' else 'list length' if k[0] == 'l' else 'array element'


def _recurrence(ex, cell, nm, v):
    """The place written by the previous iteration, when every iteration writes one element, from the one written before it."""
    if not isinstance(cell, Arr) or len(cell.c.log) != 1 or not isinstance(cell.c.log[0], W):
        return None
    e = cell.c.log[0]
    if e.op != 'set' or e.guard is not T.TRUE or any(d[0] != 'at' for d in e.dims):
        return None
    va = v.as_atom()
    at = tuple(P(d[1]) for d in e.dims)
    prev = tuple(T.subst(x, {va: v - 1}) for x in at)
    if prev == at:
        return None
    val = e.val(at)
    if not isinstance(val, Poly):
        return None
    used = [a for a in T.all_atoms(val) if a.kind == 'f' and a.args[0] == nm]
    return prev if used and all(tuple(a.args[1]) == prev for a in used) else None


def _rec_base(c, at, x):
    def base(co):
        return x if tuple(P(y) for y in co) == at else c.base(co)
    return base


def _safe(c):
    return c


def _list_content(ex, cell, now):
    if isinstance(cell, SymLst):
        return cell.c
    items = list(cell.items)
    if not items:
        # shape of the elements from what is appended
        if isinstance(now, SymLst):
            c = now.c
            return Content((ZERO,) + c.shape[1:], c.sort, lambda co: ZERO)
        it = now.items[0]
        if isinstance(it, (Poly, Bool)):
            return Content((ZERO,), 'real' if P(it).sort == 'real' else 'int', lambda co: ZERO)
        c = ex.content(it)
        return Content((ZERO,) + c.shape, c.sort, lambda co: ZERO)
    return ex.list_content(items)


def _restored(ex, entries, now, nm):
    """Does the iteration leave every touched cell as it found it?"""
    ws = []
    for e in entries:
        if not isinstance(e, W) or any(d[0] != 'at' for d in e.dims):
            return False
        ws.append(e)
    if not ws:
        return True
    for w in ws:
        co = tuple(d[1] for d in w.dims)
        try:
            val = now.read(ex, co)
        except Unsupported:
            return False
        h = now.base(co)
        if val is not h and not ex.prove(T.eq(val, h)):
            return False
    return True


def _self_reads(ex, e, nm, c0, lo, va, entries):
    """Reads of the array's own earlier iterations are resolved when they provably precede every write (they see the value before
    the loop); otherwise they stay opaque and are rejected when used."""
    def fn(t):
        if nm not in t.key:
            return t

        def read_old(co):
            # could an earlier iteration (index u < v) have written this cell?
            u = T.fresh('u')
            for x in entries:
                y = sub_entry(x, {va: u})
                for w in ([y] if isinstance(y, W) else [z for _, z in flatten(y)]):
                    conds = [w.guard]
                    for d, c in zip(w.dims, co):
                        if d[0] == 'at':
                            conds.append(T.eq(d[1], c))
                        else:
                            conds += [T.le(d[1], c), T.lt(c, d[2])]
                    pre = [T.le(lo, u), T.lt(u, P(va))]
                    if not isinstance(y, W):
                        for bs, z in flatten(y):
                            if z is w:
                                for (bv, l2, h2) in bs:
                                    pre += [T.le(l2, P(bv)), T.lt(P(bv), h2)]
                    with ex.assume(*pre):
                        if not ex.prove(T.Not(T.And(*conds))):
                            return T.app(nm, co, 'int' if c0.sort in ('int', 'bool') else 'real')
            return c0.read(ex, co)
        return subst_fun(t, {nm: read_old})
    return map_entry(e, fn)


def _clean_val(v, clean):
    if isinstance(v, (Poly, Bool)):
        return clean(v)
    if isinstance(v, tuple):
        return tuple(_clean_val(x, clean) for x in v)
    return v


# ---------------------------------------------------------------- while
def while_loop(ex, s):
    """Unrolled while its condition is decided; with a loop specification, by invariant."""
    spec = None
    if ex.frame[1] is not None:
        f = ex.frame[1]
        order = [n for n in ast.walk(f.node) if isinstance(n, ast.While)]
        order.sort(key=lambda n: n.lineno)
        spec = ex.loopspec.get((f.name, order.index(s))) if s in order else None
    if spec is not None:
        return inv_while(ex, s, spec)
    if isinstance(s.test, (ast.Name, ast.Constant)) and not ex.unroll_while and not (ex.frame[1] is not None and ex.frame[1].name in ex.fork_while):
        # flag-controlled loops: decide by one iteration whether the flag becomes symbolic
        if _symbolic_exit(ex, s):
            return havoc_while(ex, s)
    live = [ex.st]
    done, after = [], []
    for it in range(400):
        nxt = []
        for st in live:
            ex.st = st
            c = ex.dec(ex.truth(ex.ev(s.test)))
            if c is T.FALSE:
                after.append(ex.st)
                continue
            if c is not T.TRUE and ex.frame[1] is not None and ex.frame[1].name in ex.fork_while:
                out = ex.st.copy()
                out.facts.append(T.Not(c))
                after.append(out)
                ex.st = ex.st.copy()
                ex.st.facts.append(c)
                c = T.TRUE
            if c is not T.TRUE:
                ex.st = st
                if it or len(live) > 1:
                    raise Unsupported('while with a condition that becomes symbolic')
                return havoc_while(ex, s)
            for o in ex.block(s.body, ex.st):
                if o[1] in ('normal', 'continue'):
                    nxt.append(o[0])
                elif o[1] == 'break':
                    after.append(o[0])
                else:
                    done.append(o)
        live = nxt
        if not live:
            break
    else:
        raise Unsupported('while loop does not finish')
    outs = done + [(x, 'normal', None) for x in after]
    if len(after) > 1:
        outs = done + [(x, 'normal', None) for x in ex.try_merge(after)]
    return outs


def _symbolic_exit(ex, s):
    """Does one iteration leave the condition undecided (or leave the loop under a symbolic condition)?"""
    st0 = ex.st
    ex.mute += 1
    try:
        c = ex.dec(ex.truth(ex.ev(s.test)))
        if c is T.FALSE:
            return False
        ex.st = _copy(st0)
        outs = ex.block(s.body, ex.st)
        if len(outs) > 1:
            return True
        for o in outs:
            if o[1] in ('normal', 'continue'):
                ex.st = o[0]
                c = ex.dec(ex.truth(ex.ev(s.test)))
                if c is not T.TRUE and c is not T.FALSE:
                    return True
        return False
    finally:
        ex.mute -= 1
        ex.st = st0


def _copy(st):
    return St(dict(st.env), dict(st.heap), list(st.facts), list(st.qfacts))


def havoc_state(ex, ent, assigned, touched, values=None):
    """The state with every variable and array the loop changes replaced by arbitrary values."""
    st = _copy(ent)
    for nm in assigned:
        if nm not in st.env:
            continue
        v = st.env[nm]
        if values and nm in values:
            st.env[nm] = values[nm]
        elif isinstance(v, Poly):
            st.env[nm] = T.fresh('h', v.sort if v.sort == 'real' else 'int')
        elif isinstance(v, Bool):
            st.env[nm] = T.bvar('hb!%d' % next(T._fresh))
        elif isinstance(v, (Ref, View)):
            st.env[nm] = v          # checked below: rebinding poisons it
        else:
            st.env[nm] = Poison('%s changes in a loop' % nm)
    for rid, c in touched.items():
        st.heap[rid] = c
    return st


def touched_cells(ex, s, ent, assigned):
    touched = {}
    poisoned = set()
    for rounds in range(8):
        st = havoc_state(ex, ent, assigned, touched)
        for nm in poisoned:
            st.env[nm] = Poison('%s is rebound in a loop' % nm)
        ex.st = st
        ex.mute += 1
        try:
            outs = ex.block(s.body, st)
        finally:
            ex.mute -= 1
        new = False
        for o in outs:
            for nm in assigned:
                v = ent.env.get(nm)
                if isinstance(v, (Ref, View)) and nm not in poisoned and o[0].env.get(nm) is not v and o[0].env.get(nm) != v:
                    poisoned.add(nm)
                    new = True
            for rid, cell in ent.heap.items():
                now = o[0].heap.get(rid)
                was = touched.get(rid, cell)
                if now is was or rid in touched and isinstance(now, Arr):
                    continue
                if isinstance(cell, Arr) and isinstance(now, Arr):
                    if now.c is cell.c:
                        continue
                    touched[rid] = Arr(opaque(cell.c)[1])
                    new = True
                elif isinstance(cell, Obj) and isinstance(now, Obj):
                    at = dict(was.attrs)
                    ch = False
                    for a in now.attrs:
                        if now.attrs[a] is not was.attrs.get(a):
                            x = cell.attrs.get(a)
                            if rid in touched and a in touched[rid].changed:
                                continue
                            at[a] = T.fresh('ha', x.sort) if isinstance(x, Poly) else Poison('attribute %s changes in a loop' % a)
                            ch = True
                    if ch:
                        o2 = Obj(cell.cls, at)
                        o2.changed = set(getattr(was, 'changed', ())) | {a for a in now.attrs if now.attrs[a] is not was.attrs.get(a)}
                        touched[rid] = o2
                        new = True
                elif now is not was:
                    raise Unsupported('list changes in a while loop')
        if not new:
            return touched, poisoned
    raise Unsupported('while loop analysis does not converge')


def havoc_while(ex, s):
    """A loop whose number of iterations is unknown: the state after it is the one before it (no iteration) or the result of the body
    run from an arbitrary state.  Sound for partial correctness; termination is assumed."""
    if s.orelse:
        raise Unsupported('while-else')
    ex.assumed.add('while loops of unknown length terminate')
    ent = ex.st
    assigned = assigned_names(s.body)
    c0 = ex.dec(ex.truth(ex.ev(s.test)))
    outs, exits = [], []
    if c0 is not T.TRUE:
        st = _copy(ent)
        st.facts.append(T.Not(c0))
        exits.append(st)
    touched, poisoned = touched_cells(ex, s, ent, assigned)
    st = havoc_state(ex, ent, assigned, touched)
    for nm in poisoned:
        st.env[nm] = Poison('%s is rebound in a loop' % nm)
    ex.st = st
    t = ex.truth(ex.ev(s.test))
    st.facts.append(t)
    for o in ex.block(s.body, st):
        if o[1] in ('normal', 'continue'):
            ex.st = o[0]
            t = ex.dec(ex.truth(ex.ev(s.test)))
            if t is T.TRUE:
                continue
            o[0].facts.append(T.Not(t))
            exits.append(o[0])
        elif o[1] == 'break':
            exits.append(o[0])
        else:
            outs.append(o)
    exits = [x for x in exits if not ex.infeasible(x)] or exits[:1]
    if len(exits) > 1:
        exits = ex.try_merge(exits)
    return outs + [(x, 'normal', None) for x in exits]


class Inv:
    """Loop specification: values(ex, st) gives the arbitrary values of the changed variables (name -> value, refs in heap by
    name -> content), invariant(ex, env) the list of (name, condition)."""

    def __init__(self, values, invariant, after=None):
        self.values, self.invariant, self.after = values, invariant, after


def inv_while(ex, s, spec):
    ent = ex.st
    assigned = assigned_names(s.body)
    for nm, c in spec.invariant(ex, ex.st.env):
        ex.oblige('loop invariant %s holds initially' % nm, c, 'inv-init')
    st = _copy(ent)
    ex.st = st
    vals = spec.values(ex, st)
    for nm in assigned:
        if nm in st.env and nm not in vals:
            st.env[nm] = Poison('%s changes in a loop whose contract does not mention it' % nm)
    for nm, v in vals.items():
        if isinstance(v, Content):
            st.heap[st.env[nm].id] = SymLst(v) if not isinstance(ex.cell(st.env[nm]), Arr) else Arr(v)
        else:
            st.env[nm] = v
    for nm, c in spec.invariant(ex, st.env):
        st.facts.append(c)
    frame = dict(st.heap)
    listed = {st.env[nm].id for nm, v in vals.items() if isinstance(v, Content)}
    exit_ = _copy(st)
    ex.st = st
    t = ex.truth(ex.ev(s.test))
    st.facts.append(t)
    outs = []
    for o in ex.block(s.body, st):
        if o[1] in ('normal', 'continue'):
            ex.st = o[0]
            for rid, cell in ent.heap.items():
                if rid not in listed and o[0].heap.get(rid) is not frame.get(rid):
                    raise Unsupported('the loop changes an object its specification does not mention')
            for nm, c in spec.invariant(ex, o[0].env):
                ex.oblige('loop invariant %s is preserved' % nm, c, 'inv-step')
        else:
            raise Unsupported('the loop is left from inside')
    ex.st = exit_
    t = ex.truth(ex.ev(s.test))
    exit_.facts.append(T.Not(t))
    if spec.after:
        spec.after(ex, exit_.env)
    return [(exit_, 'normal', None)]


def inv_for(ex, s, lo, hi, elem, spec):
    """A for loop by invariant: spec.values(ex, st, i) and spec.invariant(ex, env, i), i the number of the iteration about to start."""
    ent = ex.st
    if s.orelse or has_break(s.body):
        raise Unsupported('for-else or break in a loop with a contract')
    ex.oblige('the loop contract covers the range', T.le(lo, hi), 'inv-init')
    for nm, c in spec.invariant(ex, ent.env, lo):
        ex.oblige('loop invariant %s holds initially' % nm, c, 'inv-init')
    assigned = assigned_names(s.body) | assigned_names([ast.Assign(targets=[s.target], value=ast.Constant(value=0))])

    def at(i, *facts):
        st = _copy(ent)
        ex.st = st
        st.facts += list(facts)
        vals = spec.values(ex, st, i)
        for nm in assigned:
            if nm not in vals:
                st.env[nm] = Poison('%s changes in a loop whose contract does not mention it' % nm)
        for nm, v in vals.items():
            if isinstance(v, Content):
                st.heap[st.env[nm].id] = SymLst(v) if not isinstance(ex.cell(st.env[nm]), Arr) else Arr(v)
            else:
                st.env[nm] = v
        for nm, c in spec.invariant(ex, st.env, i):
            st.facts.append(c)
        return st, {ent.env[nm].id for nm, v in vals.items() if isinstance(v, Content)}
    i = T.fresh('i')
    st, listed = at(i, T.le(lo, i), T.lt(i, hi))
    frame = dict(st.heap)
    ex.assign(s.target, elem(i))
    for o in ex.block(s.body, st):
        if o[1] in ('normal', 'continue'):
            ex.st = o[0]
            for rid, cell in ent.heap.items():
                if rid not in listed and o[0].heap.get(rid) is not frame.get(rid):
                    raise Unsupported('the loop changes an object its specification does not mention')
            for nm, c in spec.invariant(ex, o[0].env, i + 1):
                ex.oblige('loop invariant %s is preserved' % nm, c, 'inv-step')
        else:
            raise Unsupported('the loop is left from inside')
    exit_, _ = at(hi)
    ex.st = exit_
    if spec.after:
        spec.after(ex, exit_.env)
    return [(exit_, 'normal', None)]

"""Arrays as persistent contents: a base function plus a log of (possibly iterated) writes."""
from . import terms as T
from .terms import P, ZERO, ONE, Poly, Bool


class Unsupported(Exception):
    """The construct is outside the verifier's subset: the obligation cannot be generated."""


class W:
    """One write.  dims: ('at', p) or ('rng', lo, hi); val(coords) gives the written value."""
    __slots__ = ('dims', 'guard', 'op', 'val')

    def __init__(self, dims, guard, op, val):
        self.dims, self.guard, self.op, self.val = tuple(dims), guard, op, val


class L:
    """The writes of all iterations var in [lo,hi), in increasing order of var."""
    __slots__ = ('var', 'lo', 'hi', 'entries', 'desc', 'uniq')

    def __init__(self, var, lo, hi, entries):
        self.var, self.lo, self.hi, self.entries = var, lo, hi, tuple(entries)
        self.uniq = {}


def sub_entry(e, d, post=None):
    """Substitute variables in an entry; post is applied to every poly/bool afterwards."""
    def sp(p):
        r = T.subst(p, d)
        return post(r) if post else r
    if isinstance(e, W):
        dims = [('at', sp(x[1])) if x[0] == 'at' else ('rng', sp(x[1]), sp(x[2])) for x in e.dims]
        old = e.val
        # the coordinates given to val belong to the reader: protect them from the substitution
        def val(coords, old=old):
            prot, back, cs = {}, {}, []
            for c in coords:
                c2 = c
                for x in T.free_vars(c):
                    if x in d:
                        if x not in prot:
                            f = T.fresh('prot', x.sort)
                            prot[x] = f
                            back[f.as_atom()] = P(x)
                if prot:
                    c2 = T.subst(c, prot)
                cs.append(c2)
            r = sp(old(tuple(cs)))
            return T.subst(r, back) if back else r
        return W(dims, sp(e.guard), e.op, val)
    return L(e.var, sp(e.lo), sp(e.hi), [sub_entry(x, d, post) for x in e.entries])


def guard_entry(e, c):
    if isinstance(e, W):
        return W(e.dims, T.And(e.guard, c), e.op, e.val)
    return L(e.var, e.lo, e.hi, [guard_entry(x, c) for x in e.entries])


class Content:
    """Immutable array content."""
    __slots__ = ('shape', 'sort', 'base', 'log', 'tag', 'uid')
    _n = 0

    def __init__(self, shape, sort, base, log=(), tag=None):
        self.shape = tuple(P(s) for s in shape)
        self.sort, self.base, self.log, self.tag = sort, base, tuple(log), tag
        Content._n += 1
        self.uid = Content._n

    def with_write(self, w):
        return Content(self.shape, self.sort, self.base, self.log + (w,), self.tag)

    @property
    def ndim(self):
        return len(self.shape)

    def read(self, ex, coords):
        coords = tuple(P(c) for c in coords)
        assert len(coords) == len(self.shape), 'rank'
        return _rd(ex, self.log, len(self.log) - 1, self.base, coords)


def _rd(ex, log, k, base, coords):
    acc = ZERO       # additions found so far (newer than the current entry)
    while k >= 0:
        e = log[k]
        if isinstance(e, W):
            c = w_cond(ex, e, coords)
            if c is T.FALSE:
                k -= 1
                continue
            with ex.assume(c):
                v = e.val(coords)
            if e.op == 'add':
                acc = acc + T.ite(c, v, ZERO)
                k -= 1
                continue
            if c is T.TRUE:
                return acc + v
            with ex.assume(T.Not(c)):
                old = _rd(ex, log, k - 1, base, coords)
            return acc + T.ite(c, v, old)
        leaves = list(flatten(e))
        if all(w.op == 'add' for _, w in leaves):
            acc = acc + contrib(ex, e, coords)
            k -= 1
            continue
        hits = []
        for binders, w in leaves:
            h = leaf_hit(ex, e, binders, w, coords)
            if h is not None:
                hits.append((binders, w) + h)
        if not hits:
            k -= 1
            continue
        if len(hits) == 1 and hits[0][1].op == 'set':
            binders, w, c, sub = hits[0]
            with ex.assume(c):
                v = value_at(ex, w, sub, coords)
            if c is T.TRUE:
                return acc + v
            with ex.assume(T.Not(c)):
                old = _rd(ex, log, k - 1, base, coords)
            return acc + T.ite(c, v, old)
        # several writes of the loop may touch the cell: allowed when they belong to the same
        # iteration of the outermost loop (then they are applied in program order), or when their conditions exclude each other
        outer = e.var
        its = [h[3].get(outer) for h in hits]
        if all(i is not None for i in its) and all(i is its[0] for i in its):
            it = its[0]
            inr = ex.dec(T.And(T.le(e.lo, it), T.lt(it, e.hi)))
            if inr is T.FALSE:
                k -= 1
                continue
            with ex.assume(T.Not(inr)):
                old = _rd(ex, log, k - 1, base, coords) if inr is not T.TRUE else ZERO
            body = [sub_entry(x, {outer: it}) for x in e.entries]
            # inside: older content is what the log held before the loop
            pre = log[:k]
            with ex.assume(inr):
                v = _rd(ex, tuple(pre) + tuple(body), len(pre) + len(body) - 1, base, coords)
            return acc + T.ite(inr, v, old)
        if all(h[1].op == 'set' for h in hits):
            ok = True
            for a in range(len(hits)):
                for b in range(a):
                    if not ex.prove(T.Not(T.And(hits[a][2], hits[b][2]))):
                        ok = False
            if ok:
                with ex.assume(*[T.Not(h[2]) for h in hits]):
                    r = _rd(ex, log, k - 1, base, coords)
                for binders, w, c, sub in hits:
                    with ex.assume(c):
                        v = value_at(ex, w, sub, coords)
                    r = T.ite(c, v, r)
                return acc + r
        raise Unsupported('read of a cell that several loop writes may have touched')
    return acc + base(coords)


def value_at(ex, w, sub, coords):
    e = sub_entry(w, sub) if sub else w
    return e.val(coords)


def w_cond(ex, w, coords):
    cs = [w.guard]
    for d, c in zip(w.dims, coords):
        if d[0] == 'at':
            cs.append(T.eq(d[1], c))
        else:
            cs += [T.le(d[1], c), T.lt(c, d[2])]
    return ex.dec(T.And(*cs))


def flatten(e, binders=()):
    binders = binders + ((e.var, e.lo, e.hi),)
    for x in e.entries:
        if isinstance(x, W):
            yield binders, x
        else:
            for y in flatten(x, binders):
                yield y


def contrib(ex, e, coords):
    """Sum of the additions an entry makes to the cell."""
    if isinstance(e, W):
        c = w_cond(ex, e, coords)
        if c is T.FALSE:
            return ZERO
        with ex.assume(c):
            v = e.val(coords)
        return T.ite(c, v, ZERO)
    v = e.var
    rng = (T.le(e.lo, P(v)), T.lt(P(v), e.hi))
    with ex.assume(*rng):
        tot = ZERO
        for x in e.entries:
            tot = tot + contrib(ex, x, coords)
    return T.mksum(v, e.lo, e.hi, tot)


def leaf_hit(ex, loop, binders, w, coords):
    """When does the iterated write touch the cell?  None: never.  Else (condition, binder values);
    the binder values are unique."""
    sub = {}
    vars_ = [b[0] for b in binders]
    eqs = []
    for d, c in zip(w.dims, coords):
        if d[0] == 'at':
            if not any(T.occurs(v, d[1]) for v in vars_):
                if ex.dec(T.eq(d[1], c)) is T.FALSE:
                    return None
            eqs.append((d[1], c))
    used = set()
    progress = True
    pend = list(eqs)
    while progress:
        progress = False
        for q in list(pend):
            p = T.subst(q[0], sub)
            un = [v for v in vars_ if v not in sub and T.occurs(v, p)]
            if len(un) == 1:
                # protect the coordinate: it belongs to the reader
                r = _solve_lin(p, un[0], q[1])
                if r is not None:
                    sub[un[0]] = r
                    pend.remove(q)
                    progress = True
            elif not un:
                pass
    unsolved = [v for v in vars_ if v not in sub]
    if unsolved:
        relevant = [v for v in unsolved if any(T.occurs(v, T.subst(q[0], sub)) for q in pend)]
        if relevant:
            if _provably_miss(ex, binders, w, coords):
                return None
            h = _try_hints(ex, loop, binders, w, coords, sub, relevant, pend)
            if h is None:
                raise Unsupported('cannot solve %s for the loop counters' %
                                  ', '.join('%s == %s' % (T.subst(q[0], sub), q[1]) for q in pend))
            sub.update(h)
            unsolved = [v for v in vars_ if v not in sub]
        for v in reversed(unsolved):
            # location independent of this binder: the last iteration wins, if unguarded
            b = [x for x in binders if x[0] is v][0]
            if T.occurs(v, w.guard) or any(T.occurs(v, x[1]) or T.occurs(v, x[2]) for x in binders if x[0] is not v):
                raise Unsupported('guarded repeated write to one cell')
            sub[v] = T.subst(b[2], sub) - 1
    full = _resolve(sub, vars_)
    cs = [T.subst(w.guard, full)]
    for v, lo, hi in binders:
        cs += [T.le(T.subst(lo, full), full[v]), T.lt(full[v], T.subst(hi, full))]
    for d, c in zip(w.dims, coords):
        if d[0] == 'at':
            cs.append(T.eq(T.subst(d[1], full), c))
        else:
            cs += [T.le(T.subst(d[1], full), c), T.lt(c, T.subst(d[2], full))]
    c = ex.dec(T.And(*cs))
    if c is T.FALSE:
        return None
    return c, full


def _resolve(sub, vars_):
    for _ in range(len(vars_) + 1):
        sub = {v: T.subst(x, {k: y for k, y in sub.items() if k is not v}) for v, x in sub.items()}
    return sub


def _solve_lin(p, v, target):
    coef = None
    rest = {}
    for mon, k in p.m:
        has = [x for x, _ in mon if T.occurs(v, x)]
        if not has:
            rest[mon] = k
        elif mon == ((v, 1),):
            coef = k
        else:
            return None
    if coef is None:
        return None
    r = (P(target) - Poly(rest)).scale(1 / coef)
    if coef not in (1, -1) and not T.intvalued(r):
        return None
    return r


def _provably_miss(ex, binders, w, coords):
    fs = [w.guard]
    for v, lo, hi in binders:
        fs += [T.le(lo, P(v)), T.lt(P(v), hi)]
    eqs = []
    for d, c in zip(w.dims, coords):
        if d[0] == 'at':
            eqs.append(T.eq(d[1], c))
        else:
            eqs += [T.le(d[1], c), T.lt(c, d[2])]
    with ex.assume(*fs):
        return ex.prove(T.Not(T.And(*eqs)))


def _try_hints(ex, loop, binders, w, coords, sub, relevant, pend):
    for hint in ex.hints:
        if len(hint) != len(relevant):
            continue
        s2 = dict(sub)
        s2.update(dict(zip(relevant, hint)))
        s2 = {v: T.subst(x, s2) for v, x in s2.items()}
        fs = []
        for v, lo, hi in binders:
            if v in s2:
                fs += [T.le(T.subst(lo, s2), s2[v]), T.lt(s2[v], T.subst(hi, s2))]
        if all(ex.prove(T.eq(T.subst(q[0], s2), q[1])) for q in pend) and all(ex.prove(f) for f in fs):
            if ex.prove(T.subst(w.guard, s2)):
                if _injective(ex, loop, binders, w, relevant):
                    return dict(zip(relevant, hint))
            else:
                # whether it is written depends on the guard; no other iteration could have written there, guard or not
                free = loop.uniq.setdefault(('unguarded', id(w)), W(w.dims, T.TRUE, w.op, w.val))
                if _injective(ex, loop, binders, free, relevant):
                    return dict(zip(relevant, hint))
    return None


def _injective(ex, loop, binders, w, relevant):
    """Distinct guarded iterations of the relevant binders write to distinct cells.
    Shown by: some coordinate F never decreases from an iteration to the next one and increases after every guarded one."""
    key = tuple(relevant)
    if (id(w), key) in loop.uniq:
        return loop.uniq[(id(w), key)]
    ok = _monotone(ex, binders, w, relevant)
    if not ok:
        # each coordinate tells apart the iterations of its own binders
        groups, left = [], set(relevant)
        for d in w.dims:
            if d[0] == 'at':
                g = [v for v in relevant if T.occurs(v, d[1])]
                if g and set(g) <= left:
                    groups.append(g)
                    left -= set(g)
        ok = not left and len(groups) > 1 and all(_monotone(ex, binders, w, g) for g in groups)
    loop.uniq[(id(w), key)] = ok
    return ok


def _monotone(ex, binders, w, relevant):
    bs = [b for b in binders if b[0] in relevant]
    others = [b for b in binders if b[0] not in relevant]
    for d in w.dims:
        if d[0] != 'at' or not all(T.occurs(b[0], d[1]) for b in bs):
            continue
        F = d[1]
        good = True
        base = []
        for v, lo, hi in others:
            base += [T.le(lo, P(v)), T.lt(P(v), hi)]
        # innermost: F(.., v+1) >= F(.., v) + [guard]
        for lvl in range(len(bs)):
            v, lo, hi = bs[lvl]
            fs = list(base)
            for (x, l2, h2) in bs[:lvl + 1]:
                fs += [T.le(l2, P(x)), T.lt(P(x), h2)]
            if lvl == len(bs) - 1:
                g = T.subst(F, {v: P(v) + 1}) - F
                with ex.assume(*fs):
                    a = ex.prove(T.ge0(g - T.ind(w.guard)))
                if not a:
                    good = False
            else:
                # F where the inner loops of iteration v end  <=  F where they start in iteration v+1
                end = F
                start = F
                inner = bs[lvl + 1:]
                for q in range(len(inner) - 1, -1, -1):
                    x, l2, h2 = inner[q]
                    end = T.subst(end, {x: h2 if q == 0 else l2})
                    start = T.subst(start, {x: l2})
                start = T.subst(start, {v: P(v) + 1})
                with ex.assume(*fs):
                    a = ex.prove(T.ge0(start - end)) and _ranges_ok(ex, inner)
                if not a:
                    good = False
            if not good:
                break
        if good:
            return True
    return False


def _ranges_ok(ex, bs):
    """lo<=hi for each inner range, given the outer ones."""
    if not bs:
        return True
    v, lo, hi = bs[0]
    if not ex.prove(T.le(lo, hi)):
        return False
    with ex.assume(T.le(lo, P(v)), T.lt(P(v), hi)):
        return _ranges_ok(ex, bs[1:])

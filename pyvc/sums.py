"""Equality of terms containing sums: extensionality with matching of summands."""
from . import terms as T
from .terms import P, Poly, ZERO, ONE


def prove_eq(ex, name, got, want, kind='post', depth=0):
    d = tri_norm(ex, P(got) - P(want))
    if d is not ZERO:
        d = clear_inv(ex, balance(ex, clear_inv(ex, d)))
    if d is ZERO:
        return ex.oblige(name, T.TRUE, kind)
    if _diff_zero(ex, d, depth):
        return ex.oblige(name, T.TRUE, kind)
    if split_zero(ex, d):
        return ex.oblige(name, T.TRUE, kind)
    d2 = balance(ex, d, False)
    if d2 is not d and (_diff_zero(ex, d2, depth) or split_zero(ex, d2)):
        return ex.oblige(name, T.TRUE, kind)
    return ex.oblige(name, T.eq(P(got), P(want)), kind, detail='difference %s' % d.key[:1500])


def balance(ex, t, same_body=True):
    """Sums with the same summand whose upper bounds differ by a small number: split off the last summands of the longer ones."""
    for _ in range(4):
        g = {}
        for a in T.all_atoms(t, under_binders=False):
            if a.kind == 'sum':
                bv, lo, hi, body = a.args
                g.setdefault((bv, lo, body if same_body else None), []).append(a)
        d = {}
        for k, atoms in g.items():
            if len(atoms) < 2:
                continue
            for a in atoms:
                for b in atoms:
                    c = (a.args[2] - b.args[2]).const()
                    if c is not None and 0 < c <= 4 and a not in d and b not in d and ex.prove(T.le(b.args[1], b.args[2])):
                        bv, lo, hi, body = a.args
                        w = T.fresh('b')
                        v = T.mksum(w.as_atom(), lo, b.args[2], T.subst(body, {bv: w}))
                        for j in range(int(c)):
                            v = v + T.subst(body, {bv: b.args[2] + j})
                        d[a] = v
        if not d:
            return t
        t = _replace(t, d)
    return t


def clear_inv(ex, t):
    """Rewrite x*inv(x + r) as 1 - r*inv(x + r) where x + r is known not to be zero."""
    for a in T.all_atoms(t, under_binders=False):
        if a.kind != 'inv' or len(a.args[0].m) < 2:
            continue
        q = a.args[0]
        cand = [(mon, c) for mon, c in q.m if len(mon) == 1 and mon[0][1] == 1]
        if not cand:
            continue
        (mon, c), x = cand[-1], cand[-1][0][0][0]
        if not ex.prove(T.Not(T.eq(q, ZERO))):
            continue
        rest = q - P(x).scale(c)
        for _ in range(6):
            out, hit = ZERO, False
            for mo, k in t.m:
                dd = dict(mo)
                if dd.get(a, 0) >= 1 and dd.get(x, 0) >= 1:
                    hit = True
                    w = P(k)
                    for b, e in mo:
                        for _i in range(e - 1 if b in (a, x) else e):
                            w = w * P(b)
                    out = out + w * (ONE - rest * P(a)).scale(1 / c)
                else:
                    w = P(k)
                    for b, e in mo:
                        for _i in range(e):
                            w = w * P(b)
                    out = out + w
            t = out
            if not hit:
                break
    return t


def rational_zero(ex, t):
    """Is a rational function (polynomial over inverses of non-zero terms) zero?  Denominators are cleared one after the other."""
    for _ in range(12):
        if t is ZERO:
            return True
        invs = [a for a in T.all_atoms(t, under_binders=False) if a.kind == 'inv' and any(b is a for mon, c in t.m for b, k in mon)]
        if not invs:
            return False
        a = max(invs, key=lambda x: x.height)
        q = a.args[0]
        if not T.positive(q) and not ex.prove(T.Not(T.eq(q, ZERO))):
            return False
        top = max(dict(mon).get(a, 0) for mon, c in t.m)
        out = ZERO
        for mon, c in t.m:
            e = dict(mon).get(a, 0)
            w = Poly({tuple(x for x in mon if x[0] is not a): c})
            for _i in range(top - e):
                w = w * q
            out = out + w
        t = out
    return False


def cases_eq(ex, name, got, want, size, cells, values, kind='post'):
    """got == want where both are combinations of sums over the samples [0, size): the summands of a fresh sample t agree for every
    combination of the values of the cells (cells(t) is a list of terms, each known to be one of the values)."""
    import itertools
    d = P(got) - P(want)
    if d is ZERO:
        return ex.oblige(name, T.TRUE, kind)
    t = T.fresh('t')
    body = ZERO
    for mon, c in d.m:
        ss = [a for a, k in mon if a.kind == 'sum' and k == 1 and a.args[1] is ZERO and a.args[2] is P(size)]
        if len(ss) != 1:
            return ex.oblige(name, T.eq(P(got), P(want)), kind)
        bv, lo, hi, b = ss[0].args
        body = body + T.subst(b, {bv: t}) * Poly({tuple(x for x in mon if x[0] is not ss[0]): c})
    cs = [P(x) for x in cells(t)]
    with ex.assume(T.le(ZERO, t), T.lt(t, size)):
        for x in cs:
            if not ex.prove(T.Or(*[T.eq(x, P(v)) for v in values])):
                return ex.oblige(name + ' (the cases are exhaustive)', T.FALSE, kind)
    for vs in itertools.product(values, repeat=len(cs)):
        e = T.subst(body, {x.as_atom(): P(v) for x, v in zip(cs, vs)})
        if not rational_zero(ex, e):
            return ex.oblige(name, T.FALSE, kind, detail='summand differs when the sample is %s: %s' % (vs, e.key[:800]))
    return ex.oblige(name, T.TRUE, kind)


def _replace(t, d):
    """Replace top-level atoms by terms."""
    out = ZERO
    for mon, c in t.m:
        acc = P(c)
        for a, k in mon:
            x = d.get(a) if a in d else P(a)
            for _ in range(k):
                acc = acc * x
        out = out + acc
    return out


def tri_norm(ex, t):
    """Row and column of a pair position that is the position of one of the pairs under consideration (C01 bijection lemma)."""
    from .lib import pidx
    for _ in range(3):
        d = {}
        for a in T.all_atoms(t):
            if a.kind == 'f' and a.args[0] in ('triI', 'triJ') and '#' not in a.key:
                n, q = a.args[1]
                for I, J in ex.hints:
                    if (q - pidx(n, I, J)) is ZERO and ex.prove(T.And(T.le(ZERO, I), T.lt(I, J), T.lt(J, n))):
                        d[a] = I if a.args[0] == 'triI' else J
                        break
        if not d:
            break
        t = T.subst(t, d)
    return t


def _diff_zero(ex, d, depth=0):
    """d == 0 by pairing sums with equal ranges and opposite coefficients."""
    if d is ZERO:
        return True
    if depth > 5:
        return False
    mons = [(mon, c) for mon, c in d.m]
    sums = []
    for mon, c in mons:
        s = [a for a, k in mon if a.kind == 'sum' and k == 1]
        if len(s) == 1:
            sums.append((mon, c, s[0]))
    # combine all sums with the same (other factors, range) into one summand and prove it zero pointwise
    groups = {}
    for mon, c, s in sums:
        bv, lo, hi, body = s.args
        other = tuple((a, k) for a, k in mon if a is not s)
        groups.setdefault((other, lo, hi), []).append((mon, c, s))
    merged = []
    for key, g in list(groups.items()):
        hit = False
        for k2, g2 in merged:
            if k2[0] == key[0] and k2[1] is key[1] and ex.prove(T.eq(k2[2], key[2])):
                g2 += g
                hit = True
                break
        if not hit:
            merged.append((key, list(g)))
    rem = dict(mons)
    for (other, lo, hi), g in merged:
        if len(g) < 2 and not depth:
            pass
        v = T.fresh('e')
        tot = ZERO
        for mon, c, s in g:
            bv, lo2, hi2, body = s.args
            tot = tot + T.subst(body, {bv: v}).scale(c)
        with ex.assume(T.le(lo, v), T.lt(v, hi)):
            ok = _diff_zero(ex, resimp(ex, tot), depth + 1) or ex.prove(T.eq(tot, ZERO), ex.timeout)
        if ok:
            for mon, c, s in g:
                rem.pop(mon, None)
    r = Poly(rem)
    if r is ZERO:
        return True
    if len(rem) < len(mons) or depth:
        return ex.prove(T.eq(r, ZERO), ex.timeout)
    return False


def resimp(ex, t):
    """Rebuild a term so that indicators and sums are simplified under the current assumptions."""
    def sp(p):
        out = ZERO
        for mon, c in p.m:
            acc = P(c)
            for a, k in mon:
                x = sa(a)
                for _ in range(k):
                    acc = acc * x
            out = out + acc
        return out

    def sa(a):
        if a.kind == 'ind':
            c = ex.dec(a.args[0])
            return T.ind(c)
        if a.kind == 'sum':
            bv, lo, hi, body = a.args
            v = T.fresh('b')
            with ex.assume(T.le(lo, v), T.lt(v, hi)):
                b2 = sp(T.subst(body, {bv: v}))
            return T.mksum(v.as_atom(), lo, hi, b2)
        if a.kind == 'fd':
            x, y = sp(a.args[0]), sp(a.args[1])
            if ex.prove(T.And(T.le(ZERO, x), T.lt(x, y))):
                return ZERO
            return T.fdiv(x, y)
        return P(a)
    return sp(t)


def top_inds(p):
    """Indicator atoms of a polynomial, smallest first."""
    out = {}
    for a in T.all_atoms(p, under_binders=False):
        if a.kind == 'ind' and '#' not in a.key:
            out[a] = len(a.key)
    return sorted(out, key=lambda a: (out[a], a.key))


def equalities(ex, c):
    """Substitutions implied by an assumed condition together with the facts: p>=0 assumed, -p>=0 provable."""
    for x in (c.args if c.kind == 'and' else (c,)):
        if x.kind == 'ge':
            p = x.args[0]
            if not ex.prove(T.ge0(-p)):
                continue
        elif x.kind == 'eq':
            p = x.args[0]
        else:
            continue
        for mon, k in p.m:
            if len(mon) == 1 and mon[0][1] == 1 and abs(k) == 1 and mon[0][0].kind == 'v':
                v = mon[0][0]
                rest = T.P(v) - p.scale(1 / k)
                if not T.occurs(v, rest):
                    return {v: rest}
    return None


def split_zero(ex, d, depth=0, limit=10):
    """d == 0 by case distinction on its indicators, decided by ring arithmetic and pairing of sums in every case."""
    if d is ZERO or _diff_zero(ex, d):
        return True
    d2 = balance(ex, d)
    if d2 is not d:
        if d2 is ZERO or _diff_zero(ex, d2):
            return True
        d = d2
    if depth >= limit:
        return False
    inds = top_inds(d)
    if not inds:
        return False
    a = inds[0]
    c = a.args[0]
    for cc in (c, T.Not(c)):
        with ex.assume(cc):
            if ex.prove(T.FALSE):
                continue
            e = T.subst(d, {a: T.ONE if cc is c else ZERO}) if False else _set_ind(d, c, cc is c)
            s = equalities(ex, cc)
            if s:
                e = T.subst(e, s)
            if e is not ZERO:
                e = resimp(ex, e)
            if not split_zero(ex, e, depth + 1, limit):
                return False
    return True


def _set_ind(d, c, val):
    """Replace the indicator of c by its value in d (everywhere outside binders)."""
    def sp(p):
        out = ZERO
        for mon, k in p.m:
            acc = P(k)
            for a, n in mon:
                x = (T.ONE if val else ZERO) if (a.kind == 'ind' and a.args[0] is c) else P(a)
                for _ in range(n):
                    acc = acc * x
            out = out + acc
        return out
    return sp(d)


def peel(ex, t, m):
    """Split the last summand off every sum whose upper bound exceeds m by one (used in induction steps: hi = .. + 1)."""
    def sp(p):
        out = ZERO
        for mon, c in p.m:
            acc = P(c)
            for a, k in mon:
                x = sa(a)
                for _ in range(k):
                    acc = acc * x
            out = out + acc
        return out

    def sa(a):
        if a.kind != 'sum':
            return P(a)
        bv, lo, hi, body = a.args
        v = T.fresh('b')
        with ex.assume(T.le(lo, v), T.lt(v, hi)):
            b2 = sp(T.subst(body, {bv: v}))
        # sums are stored with lower bound 0: the range is hi - lo long, so occurrences of m anywhere in hi qualify
        if T.occurs(m.as_atom(), hi) and ex.prove(T.le(lo + 1, hi)):
            last = hi - 1
            return T.mksum(v.as_atom(), lo, last, b2) + sp(T.subst(b2, {v.as_atom(): last}))
        return T.mksum(v.as_atom(), lo, hi, b2)
    return sp(t)


def induct(ex, name, f, lo=0, bases=3):
    """Lemma by induction: f(n) == 0 for every n >= lo, where f builds the term for a given size."""
    m = T.fresh('m')
    for b in range(bases):
        ex.oblige(name + ': base case %d' % (lo + b), T.eq(f(P(lo + b)), ZERO), 'lemma')
    with ex.assume(T.le(P(lo + bases - 1), m)):
        d = peel(ex, f(m + 1), m) - f(m)
        prove_eq(ex, name + ': induction step', d, ZERO, 'lemma')


def prove_bound(ex, c, depth=0):
    """A bound on a weighted average: p >= 0 (or > 0) where p mentions inverses of positive sums.  Indicators are decided by cases, the
    inverses are cleared, the sums over one range are joined, and the summand (up to a positive common factor) is shown >= 0."""
    if c is T.TRUE or ex.prove(c):
        return True
    if c.kind == 'and':
        return all(prove_bound(ex, x, depth) for x in c.args)
    if c.kind not in ('ge', 'gt'):
        return False
    p = c.args[0]
    inds = top_inds(p)
    if inds and depth < 6:
        for b in (inds[0].args[0], T.Not(inds[0].args[0])):
            with ex.assume(b):
                if ex.prove(T.FALSE):
                    continue
                q = resimp(ex, p)
                if not prove_bound(ex, T.ge0(q) if c.kind == 'ge' else T.gt0(q), depth + 1):
                    return False
        return True
    invs = [a for a in T.all_atoms(p, under_binders=False) if a.kind == 'inv' and any(b is a for mon, k in p.m for b, e in mon)]
    if len(invs) != 1 or not T.positive(invs[0].args[0]):
        return False
    s = invs[0].args[0]
    out = ZERO
    for mon, k in p.m:
        e = dict(mon).get(invs[0], 0)
        if e > 1:
            return False
        w = Poly({tuple(x for x in mon if x[0] is not invs[0]): k})
        out = out + (w if e else w * s)
    v = T.fresh('t')
    rng, body = None, ZERO
    for mon, k in out.m:
        ss = [a for a, e in mon if a.kind == 'sum' and e == 1]
        if len(ss) != 1:
            return False
        bv, lo, hi, b = ss[0].args
        if rng is None:
            rng = (lo, hi)
        if rng[0] is not lo or rng[1] is not hi:
            return False
        body = body + T.subst(b, {bv: v}) * Poly({tuple(x for x in mon if x[0] is not ss[0]): k})
    if rng is None or not body.m:
        return out is ZERO and c.kind == 'ge'
    if c.kind == 'gt' and not ex.prove(T.lt(*rng)):
        return False
    with ex.assume(T.le(rng[0], v), T.lt(v, rng[1])):
        common = set.intersection(*[{a for a, e in mon if a.kind == 'f' and a.args[0] == 'exp'} for mon, k in body.m])
        q = Poly({tuple((a, e - (a in common)) for a, e in mon if e - (a in common)): k for mon, k in body.m})
        return ex.prove(T.ge0(q) if c.kind == 'ge' else T.gt0(q))

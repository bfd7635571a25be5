"""Zero test for real terms: normal form, case split on guards (z3 prunes and
discharges the index conditions), denominators cleared, algebraic identities."""
from __future__ import annotations

from fractions import Fraction

from . import ix
from .dims import consistent, implied
from .ix import CTX, IX, RX, Unsupported, f_not, obj_fv, skey, subst


class Residual(Exception):
    def __init__(self, d, facts):
        super().__init__(str(d))
        self.d, self.facts = d, list(facts)


def _merge_exp(f):
    """exp(a)^p exp(b)^q -> exp(p a + q b) in a factor list."""
    ex = [(a, e) for a, e in f if ix._atoms[a][0] == 'fn' and ix._atoms[a][1] == 'exp']
    if not ex or (len(ex) == 1 and ex[0][1] == 1):
        return None
    s = RX({})
    for a, e in ex:
        s = s + ix._atoms[a][2][0].scale(e)
    rest = tuple((a, e) for a, e in f if (a, e) not in ex)
    return rest, s.canon()


def rewrite(d: RX) -> RX:
    """One pass of algebraic identities; canonical polarity of bound guards."""
    for _ in range(12):
        changed = False
        r = RX({})
        for (b, g, f), c in d.t.items():
            new = _rewrite_mono(b, g, f, c)
            if new is None:
                m = (b, g, f)
                n = r.t.get(m, 0) + c
                t = dict(r.t)
                if n:
                    t[m] = n
                else:
                    t.pop(m, None)
                r = RX(t)
            else:
                changed = True
                r = r + new
        d = r.canon()
        if not changed:
            return d
    return d


def rewrite_once(y: RX):
    """The rewritten argument of a power, or None when it is in normal form."""
    k = ('rewritten', y.key())
    if k not in CTX.cache:
        z = rewrite(y)
        CTX.cache[k] = None if z.key() == y.key() else z
    return CTX.cache[k]


def _with(b, g, f, c, fac: RX) -> RX:
    return ix._mul_under(RX({(b, g, f): c}), fac)


def _rewrite_mono(b, g, f, c):
    m = _merge_exp(f)
    if m is not None:
        rest, s = m
        if not s.t:
            return RX({(b, g, rest): c})
        return _with(b, g, rest, c, RX.atom(('fn', 'exp', (s,))))
    for k, (a, e) in enumerate(f):
        at = ix._atoms[a]
        rest = f[:k] + f[k + 1:]
        if at[0] == 'fn' and e.denominator == 1:
            if at[1] == 'cos' and (e >= 2):
                s2 = RX.const(1) - RX.atom(('fn', 'sin', at[2]), 2)
                return _with(b, g, ix._fmul(rest, ((a, e - 2),)) if e > 2 else rest, c, s2)
            if at[1] == 'cosh' and e >= 2:
                s2 = RX.const(1) + RX.atom(('fn', 'sinh', at[2]), 2)
                return _with(b, g, ix._fmul(rest, ((a, e - 2),)) if e > 2 else rest, c, s2)
            if at[1] == 'sign' and (e >= 2 or e < 0):
                if e % 2 == 0:
                    return RX({(b, g, rest): c})
                return RX({(b, g, ix._fmul(rest, ((a, Fraction(1)),))): c})
        if at[0] == 'base':
            y = rewrite_once(at[1])
            if y is not None:
                return _with(b, g, rest, c, ix.r_pow(y, e))
        if at[0] == 'base' and e > 0 and e >= 1:
            n = int(e)
            y = at[1]
            p = y
            for _ in range(n - 1):
                p = p * y
            rem = e - n
            rf = ix._fmul(rest, ((a, rem),)) if rem else rest
            return _with(b, g, rf, c, p)
    if b:
        bv = {v for v, _ in b}
        fvs = set()
        for o in [obj_fv(x) for x in g] + [ix.atom_fv(a) for a, _ in f] + [sz.fv() for _, sz in b]:
            fvs |= o
        if bv - fvs:
            return ix.resimplify(RX({(b, g, f): c}))
        for x in g:
            if not (obj_fv(x) & bv):
                continue
            nx = f_not(x)
            if skey(nx, {v: '?' for v in bv}) < skey(x, {v: '?' for v in bv}) or x[0] == 'not':
                full = RX({(b, g - {x}, f): c})
                return ix.resimplify(full) - ix.resimplify(ix.guard_open(full, nx))
    return None


def _clear(d: RX):
    """Multiply by the free denominators; None if there is nothing to clear."""
    mins = {}
    for (b, g, f), c in d.t.items():
        bv = {v for v, _ in b}
        for a, e in f:
            if ix._atoms[a][0] == 'base' and not (ix.atom_fv(a) & bv):
                mins[a] = min(mins.get(a, Fraction(0)), e)
    neg = {a: e for a, e in mins.items() if e < 0}
    if not neg:
        return None
    import math

    fac = tuple(sorted((a, Fraction(math.ceil(-e))) for a, e in neg.items()))
    r = {}
    for (b, g, f), c in d.t.items():
        k = (b, g, ix._fmul(f, fac))
        r[k] = r.get(k, 0) + c
    return RX({k: c for k, c in r.items() if c})


def _set_facts(fs):
    CTX.facts = list(fs)
    CTX.cache.clear()


def _eq_subst(h):
    """Solve an equality fact for an index variable."""
    if h[0] != 'eq':
        return None
    p = h[1]
    cand = []
    for a in sorted(p.atoms(), reverse=True):
        at = ix._atoms[a]
        if at[0] == 'v':
            sol = ix.solve_eq(h, at[1])
            if sol is not None:
                cand.append((at[1], sol))
    for v, sol in cand:
        size = CTX.var_size.get(v)
        if size is None or (ix.ge0(sol) and ix.ge0(size - 1 - sol)):
            return {v: sol}, []
    for v, sol in cand:
        size = CTX.var_size[v]
        return {v: sol}, [ix.f_ge(sol), ix.f_lt(sol, size)]
    return None


def _split_index(d: RX):
    """Substitutions v := m*q + r for a free index v whose quotient by m occurs."""
    for v in sorted(d.fv()):
        size = CTX.var_size.get(v)
        if size is None:
            continue
        for b, g, f in d.t:
            m = ix._find_divisor(v, g, f)
            if m is None:
                continue
            q, r = ix._divide(size, m)
            if q is None or r.t:
                continue
            q = CTX.fresh(q)
            if m.is_const() and m.cval() <= 4:
                return [{v: q * m + IX.const(i)} for i in range(m.cval())]
            return [{v: q * m + CTX.fresh(m)}]
    return None


MAX_STEPS = 4000


def prove_zero(d: RX, budget=None, facts=None):
    """Raise Residual unless d == 0 on every consistent case."""
    budget = budget if budget is not None else [MAX_STEPS]
    base = list(CTX.facts) if facts is None else facts
    budget[0] -= 1
    if budget[0] < 0:
        raise Unsupported('case split too large')
    d = d.canon()
    if not d.t:
        return
    d = rewrite(d)
    if not d.t:
        return
    parts = _split_index(d)
    if parts is not None:
        saved = list(CTX.facts)
        try:
            for s in parts:
                fs = [x for x in (subst(x, s) for x in base) if x != ix.TRUE]
                if ix.FALSE in fs:
                    continue
                _set_facts(fs)
                prove_zero(ix.resimplify(subst(d, s)), budget, fs)
        finally:
            _set_facts(saved)
        return
    g = d.some_guard()
    if g is not None:
        saved = list(CTX.facts)
        try:
            for h in (g, f_not(g)):
                hs = [h] if h[0] != 'and' else list(h[1])
                fs = base + hs
                _set_facts(base)
                if not consistent(hs):
                    continue
                hs = [ix.f_eq0(x[1]) if x[0] == 'ge' and ('ge', -x[1]) in base else x for x in hs]
                h0, h = h, (hs[0] if len(hs) == 1 else h)
                fs = base + hs
                _set_facts(fs)
                d2 = d.assume(h0)
                if h != h0:
                    d2 = d2.assume(h)
                s = _eq_subst(h)
                if s:
                    # guards may become decidable
                    s, rng = s
                    fs = [subst(x, s) for x in fs] + rng
                    fs = [y for x in fs for y in (x[1] if x[0] == 'and' else [x]) if y != ix.TRUE]
                    if ix.FALSE in fs:
                        continue
                    _set_facts(fs)
                    d2 = _resolve_guards(subst(d2, s)) if rng else subst(d2, s)
                else:
                    d2 = _resolve_guards(d2)
                prove_zero(d2, budget, fs)
        finally:
            _set_facts(saved)
        return
    d2 = _clear(d)
    if d2 is not None:
        prove_zero(d2, budget, base)
        return
    d2 = _orient(d)
    if d2 is not None:
        prove_zero(d2, budget, base)
        return
    # last resort: enumerate an index over a short constant range
    for v in sorted(d.fv()):
        size = CTX.var_size.get(v)
        if size is None or not size.is_const() or size.cval() > 4:
            continue
        saved = list(CTX.facts)
        try:
            for i in range(size.cval()):
                s = {v: IX.const(i)}
                fs = [x for x in (subst(x, s) for x in base) if x != ix.TRUE]
                if ix.FALSE in fs:
                    continue
                _set_facts(fs)
                prove_zero(ix.resimplify(subst(d, s)), budget, fs)
        finally:
            _set_facts(saved)
        return
    raise Residual(d, base)


def _orient(d: RX):
    """Choose the direction of every bound variable: v or size - 1 - v."""
    import itertools

    r, changed = RX({}), False
    for (b, g, f), c in d.t.items():
        m = RX({(b, g, f): c})
        if 0 < len(b) <= 3:
            best = None
            for flip in itertools.product((0, 1), repeat=len(b)):
                q = m
                for (v, sz), y in zip(b, flip):
                    if y:
                        q = ix.subst_open(q, {v: sz - 1 - IX.atom(('v', v))})
                k = '|'.join(sorted(ix.mono_key(x, {}) for x in q.t))
                if best is None or k < best[0]:
                    best = (k, flip, q)
            if any(best[1]):
                m, changed = best[2], True
        r = r + m
    return r.canon() if changed else None


def _resolve_guards(d: RX) -> RX:
    """Re-evaluate guards whose truth follows from the current facts."""
    r = RX({})
    for (b, g, f), c in d.t.items():
        keep, dead = [], False
        for x in g:
            y = x
            if x[0] == 'ge':
                y = ix.f_ge(x[1])
            elif x[0] == 'eq':
                y = ix.f_eq0(x[1])
            if y == ix.FALSE:
                dead = True
                break
            if y != ix.TRUE:
                keep.append(y)
        if dead:
            continue
        m = RX({(b, frozenset(), f): c})
        for y in keep:
            m = ix.guard_open(m, y)
        r = r + m
    return r


def prove_equal(a, b):
    """a, b: value terms of one kind."""
    if isinstance(a, RX):
        prove_zero(a - b)
    elif isinstance(a, ix.CX):
        prove_zero(a.re - b.re)
        prove_zero(a.im - b.im)
    elif isinstance(a, IX):
        if a != b:
            f = ix.f_eq(a, b)
            if f != ix.TRUE and not implied(f):
                raise Residual(('int', a, b), CTX.facts)
    else:
        iff = ix.f_or(ix.f_and(a, b), ix.f_and(f_not(a), f_not(b)))
        if a != b and skey(a, {}) != skey(b, {}) and not implied(iff):
            raise Residual(('bool', a, b), CTX.facts)

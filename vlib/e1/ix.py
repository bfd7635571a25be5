"""Integer index terms, guard formulas and real/complex value terms.

The logic of the E1 verifier.  Everything is kept in a normal form:

* ``IX``  integer polynomials over atoms (dimensions, index variables, floor
  division / modulo, entries of integer arrays, ...).
* formulas ("F"): tuples built by the smart constructors f_*.
* ``RX``  real terms: finite sums of  coef * SUM_{bound vars} [guards] * prod atom^exp.
* ``CX``  complex terms: pairs of RX.

Dimensions are symbolic naturals with a known lower bound, i.e. an equality proved
here holds for every size.
"""
from __future__ import annotations

import itertools
import math
from fractions import Fraction

_atom_ids: dict = {}
_atoms: list = []


MAX_TERMS = 30000


class Unsupported(Exception):
    """Construct outside the fragment of the verifier (not a refutation)."""


def atom_id(a) -> int:
    i = _atom_ids.get(a)
    if i is None:
        i = len(_atoms)
        _atom_ids[a] = i
        _atoms.append(a)
    return i


class Ctx:
    """Proof context: lower bounds of dimensions, sizes of variables, path facts."""

    def __init__(self):
        self.dim_lb: dict[str, int] = {}
        self.facts: list = []  # formulas assumed true on this path
        self.var_size: dict[int, IX] = {}
        self.counter = 0
        self.solver_time = 0.0
        self.solver_calls = 0
        self.cache: dict = {}
        self.int_ranges: dict = {}  # name of an integer array -> (lo IX, hi IX) exclusive
        self.syms: dict = {}  # contract size name -> JAX symbol
        self.unroll = 3  # sums over at most this many elements are written out

    def fresh(self, size) -> 'IX':
        self.counter += 1
        n = self.counter
        self.var_size[n] = to_ix(size)
        return IX.atom(('v', n))


CTX = Ctx()


def reset_ctx():
    global CTX
    # keep counter monotone such that variable names never clash
    c = CTX.counter
    CTX.__init__()
    CTX.counter = c
    return CTX


# --------------------------------------------------------------------------- IX


class IX:
    __slots__ = ('t', '_h', '_fv')

    def __init__(self, t: dict):
        self.t = t
        self._h = None
        self._fv = None

    @staticmethod
    def const(c: int) -> 'IX':
        return IX({(): int(c)} if c else {})

    @staticmethod
    def atom(a) -> 'IX':
        return IX({((atom_id(a), 1),): 1})

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def __eq__(self, o):
        return isinstance(o, IX) and self.t == o.t

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def cval(self):
        return self.t.get((), 0)

    def __add__(self, o):
        o = to_ix(o)
        r = dict(self.t)
        for m, c in o.t.items():
            n = r.get(m, 0) + c
            if n:
                r[m] = n
            else:
                r.pop(m, None)
        return IX(r)

    __radd__ = __add__

    def __neg__(self):
        return IX({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-to_ix(o))

    def __rsub__(self, o):
        return to_ix(o) - self

    def __mul__(self, o):
        o = to_ix(o)
        r = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m = _mono_mul(m1, m2)
                n = r.get(m, 0) + c1 * c2
                if n:
                    r[m] = n
                else:
                    r.pop(m, None)
        return IX(r)

    __rmul__ = __mul__

    def atoms(self):
        s = set()
        for m in self.t:
            for a, _ in m:
                s.add(a)
        return s

    def fv(self) -> frozenset:
        if self._fv is None:
            s = set()
            for a in self.atoms():
                s |= atom_fv(a)
            self._fv = frozenset(s)
        return self._fv

    def __repr__(self):
        if not self.t:
            return '0'
        out = []
        for m, c in self.t.items():
            f = '*'.join(
                (show_atom(a) + (f'^{p}' if p != 1 else '')) for a, p in m
            )
            out.append(str(c) if not f else (f if c == 1 else f'{c}*{f}'))
        return ' + '.join(out)


def _mono_mul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, p in m2:
        d[a] = d.get(a, 0) + p
    return tuple(sorted(d.items()))


def to_ix(x) -> IX:
    if isinstance(x, IX):
        return x
    if isinstance(x, bool):
        return IX.const(int(x))
    try:
        import operator

        return IX.const(operator.index(x))
    except TypeError:
        pass
    from .dims import dim_to_ix

    return dim_to_ix(x)


_afv: dict[int, frozenset] = {}


def atom_fv(i: int) -> frozenset:
    r = _afv.get(i)
    if r is None:
        a = _atoms[i]
        if a[0] == 'v':
            r = frozenset([a[1]])
        else:
            r = obj_fv(a)
        _afv[i] = r
    return r


def obj_fv(o) -> frozenset:
    if isinstance(o, (IX, RX)):
        return o.fv()
    if isinstance(o, tuple):
        if len(o) == 2 and o[0] == 'v' and isinstance(o[1], int):
            return frozenset([o[1]])
        if len(o) == 4 and o[0] == 'ex':  # ('ex', var, size, body)
            return (obj_fv(o[2]) | obj_fv(o[3])) - {o[1]}
        if len(o) == 4 and o[0] == 'amax':  # ('amax', var, size, body)
            return (obj_fv(o[2]) | obj_fv(o[3])) - {o[1]}
        if len(o) == 5 and o[0] == 'red':  # ('red', op, vars, sizes, RX)
            return (obj_fv(o[3]) | obj_fv(o[4])) - set(o[2])
        if len(o) == 5 and o[0] == 'isum':
            return (obj_fv(o[3]) | obj_fv(o[4])) - set(o[2])
        s = frozenset()
        for x in o:
            s |= obj_fv(x)
        return s
    if isinstance(o, frozenset):
        s = frozenset()
        for x in o:
            s |= obj_fv(x)
        return s
    if isinstance(o, LamArr):
        return o.fv()
    return frozenset()


def show_atom(i):
    a = _atoms[i]
    return show_obj(a)


def show_obj(a):
    if isinstance(a, tuple):
        if a and a[0] == 'd':
            return a[1]
        if a and a[0] == 'v':
            return f'i{a[1]}'
        if a and a[0] in ('in', 'ia', 'ba'):
            return f'{a[1]}{list(a[2])}'
        return '(' + ' '.join(show_obj(x) for x in a) + ')'
    if isinstance(a, frozenset):
        return '{' + ', '.join(sorted(show_obj(x) for x in a)) + '}'
    return repr(a) if not isinstance(a, str) else a


# ---- substitution ------------------------------------------------------------


def subst(o, s: dict):
    """Substitute index variables (id -> IX) in IX / RX / formula / tuple."""
    if not s:
        return o
    if isinstance(o, IX):
        if not (o.fv() & s.keys()):
            return o
        r = IX({})
        for m, c in o.t.items():
            f = IX.const(c)
            for a, p in m:
                v = subst_atom(a, s)
                for _ in range(p):
                    f = f * v
            r = r + f
        return r
    if isinstance(o, RX):
        return o.subst(s)
    if isinstance(o, LamArr):
        return o.subst(s)
    if isinstance(o, tuple):
        if not (obj_fv(o) & s.keys()):
            return o
        k = o[0] if o and isinstance(o[0], str) else None
        if k in ('T', 'Fa'):
            return o
        if k == 'ge':
            return f_ge(subst(o[1], s))
        if k == 'eq':
            return f_eq0(subst(o[1], s))
        if k == 'not':
            return f_not(subst(o[1], s))
        if k == 'and':
            return f_and(*[subst(x, s) for x in o[1]])
        if k == 'or':
            return f_or(*[subst(x, s) for x in o[1]])
        if k == 'rlt':
            return f_rlt(subst(o[1], s))
        if k == 'req':
            return f_req(subst(o[1], s))
        if k == 'ex':
            s2 = {v: e for v, e in s.items() if v != o[1]}
            return f_exists(IX.atom(('v', o[1])), subst(o[2], s2), subst(o[3], s2))
        return tuple(subst(x, s) for x in o)
    if isinstance(o, frozenset):
        return frozenset(subst(x, s) for x in o)
    return o


def subst_atom(i, s) -> IX:
    a = _atoms[i]
    if not (atom_fv(i) & s.keys()):
        return IX.atom(a)
    k = a[0]
    if k == 'v':
        return s[a[1]]
    if k == 'fd':
        return i_floordiv(subst(a[1], s), subst(a[2], s))
    if k == 'md':
        return i_mod(subst(a[1], s), subst(a[2], s))
    if k == 'ite':
        return i_ite(subst(a[1], s), subst(a[2], s), subst(a[3], s))
    if k == 'ia':
        return i_arr(a[1], tuple(subst(x, s) for x in a[2]))
    if k == 'amax':
        s2 = {v: e for v, e in s.items() if v != a[1]}
        return IX.atom(('amax', a[1], subst(a[2], s2), subst(a[3], s2)))
    if k == 'isum':
        s2 = {v: e for v, e in s.items() if v not in a[2]}
        return IX.atom((a[0], a[1], a[2], subst(a[3], s2), subst(a[4], s2)))
    if k == 'ifn':
        return IX.atom((k, a[1], tuple(subst(x, s) for x in a[2])))
    raise Unsupported(f'subst into {a}')


# ---- bounds --------------------------------------------------------------------


def _nonneg_dims(p: IX) -> bool:
    """All-nonnegative test after shifting every dimension by its lower bound."""
    if p.is_const():
        return p.cval() >= 0
    if all(c >= 0 for c in p.t.values()) and all(
        _atoms[a][0] == 'd' for a in p.atoms()
    ):
        return True
    s = IX({})
    for m, c in p.t.items():
        f = IX.const(c)
        for a, k in m:
            at = _atoms[a]
            if at[0] != 'd':
                return False
            base = IX.atom(at) + CTX.dim_lb.get(at[1], 1)
            for _ in range(k):
                f = f * base
        s = s + f
    return all(c >= 0 for c in s.t.values())


def _atom_bounds(i):
    """(lo, hi) inclusive IX bounds of an atom that is not a dimension, or None."""
    a = _atoms[i]
    k = a[0]
    if k == 'v':
        sz = CTX.var_size.get(a[1])
        if sz is None:
            return None
        return IX.const(0), sz - 1
    if k == 'md':
        return IX.const(0), a[2] - 1
    if k == 'fd':
        num, den = a[1], a[2]
        # num < q*den  =>  num//den <= q-1 ; find q from the upper bound of num
        hi = upper(num)
        if hi is not None:
            q, r = _divide(hi, den)
            if q is not None and ge0(r) and ge0(den - 1 - r):
                return (IX.const(0) if ge0(num) else None), q
            if hi.is_const() and den.is_const():
                return (IX.const(0) if ge0(num) else None), IX.const(
                    hi.cval() // den.cval()
                )
        if ge0(num):
            return IX.const(0), None
        return None
    if k == 'ia':
        r = CTX.int_ranges.get(a[1])
        if r is not None:
            return r[0], r[1] - 1
        return None
    if k == 'amax':
        return IX.const(0), a[2] - 1
    return None


def ge0(p: IX, depth=0) -> bool:
    """Sound, incomplete: p >= 0 for all values of dims/vars."""
    if p.is_const():
        return p.cval() >= 0
    key = ('ge0', p)
    r = CTX.cache.get(key)
    if r is not None:
        return r
    r = _ge0(p, depth)
    if not r:
        for f in CTX.facts:
            if f[0] == 'ge' and f[1] != p:
                d = p - f[1]
                if (d.is_const() and d.cval() >= 0) or (
                    len(d.t) <= len(p.t) and depth < 3 and _ge0(d, depth + 1)
                ):
                    r = True
                    break
            elif f[0] == 'ge':
                r = True
                break
    if depth == 0:
        CTX.cache[key] = r
    return r


def _ge0(p: IX, depth) -> bool:
    if depth > 8:
        return False
    if p.is_const():
        return p.cval() >= 0
    ats = [a for a in p.atoms() if _atoms[a][0] != 'd']
    if not ats:
        return _nonneg_dims(p)
    key = ('_ge0', p)
    r = CTX.cache.get(key)
    if r is True or (r is not None and r <= depth):
        return r is True
    r = _ge0_elim(p, ats, depth)
    CTX.cache[key] = True if r else depth
    return r


def _ge0_elim(p: IX, ats, depth) -> bool:
    # eliminate one bounded atom that occurs linearly
    ats.sort(key=lambda a: (0 if _atoms[a][0] != 'v' else 1, a))
    for a in ats:
        c, r, ok = _linear_in(p, a)
        if not ok:
            continue
        b = _atom_bounds(a)
        if b is None:
            continue
        lo, hi = b
        if lo is not None and _ge0(c, depth + 1):
            b = lo
        elif hi is not None and _ge0(-c, depth + 1):
            b = hi
        else:
            continue
        final = _dims_only(c) and _dims_only(b)  # then the order of elimination is irrelevant
        if _ge0(r + c * b, depth if final else depth + 1):
            return True
        if final:
            return False
    return False


def _dims_only(p: IX) -> bool:
    return all(_atoms[a][0] == 'd' for a in p.atoms())


def _linear_in(p: IX, a: int):
    c, r = {}, {}
    for m, k in p.t.items():
        d = dict(m)
        if a in d:
            if d[a] != 1:
                return None, None, False
            del d[a]
            c[tuple(sorted(d.items()))] = k
        else:
            r[m] = k
    # a must not occur inside other atoms' bounds in a circular way; fine (only bounds)
    return IX(c), IX(r), True


def upper(p: IX):
    """An upper bound (IX over dims) or None."""
    for _ in range(12):
        ats = [a for a in p.atoms() if _atoms[a][0] != 'd']
        if not ats:
            return p
        done = False
        for a in ats:
            c, r, ok = _linear_in(p, a)
            if not ok:
                continue
            b = _atom_bounds(a)
            if b is None:
                continue
            lo, hi = b
            if hi is not None and ge0(c):
                p = r + c * hi
                done = True
                break
            if lo is not None and ge0(-c):
                p = r + c * lo
                done = True
                break
        if not done:
            return None
    return None


def _divide(p: IX, d: IX):
    """p = q*d + r with the monomials divisible by d (d a single monomial) in q."""
    if d.is_const():
        c = d.cval()
        if c == 0:
            return None, None
        q, r = {}, {}
        for m, k in p.t.items():
            qq, rr = divmod(k, c)
            if m == ():
                if qq:
                    q[m] = qq
                if rr:
                    r[m] = rr
            elif rr == 0:
                q[m] = qq
            else:
                r[m] = k
        return IX(q), IX(r)
    if len(d.t) == 1:
        (dm, dc), = d.t.items()
        q, r = {}, {}
        dd = dict(dm)
        for m, k in p.t.items():
            md = dict(m)
            if k % dc == 0 and all(md.get(a, 0) >= n for a, n in dd.items()):
                for a, n in dd.items():
                    md[a] -= n
                    if md[a] == 0:
                        del md[a]
                q[tuple(sorted(md.items()))] = k // dc
            else:
                r[m] = k
        return IX(q), IX(r)
    # polynomial divisor: try exact division by leading monomial
    lead = max(d.t, key=lambda m: (sum(x for _, x in m), m))
    q = IX({})
    r = p
    for _ in range(20):
        # find monomial of r divisible by lead
        hit = None
        for m, k in r.t.items():
            md = dict(m)
            if k % d.t[lead] == 0 and all(md.get(a, 0) >= n for a, n in lead):
                for a, n in lead:
                    md[a] -= n
                    if md[a] == 0:
                        del md[a]
                hit = IX({tuple(sorted(md.items())): k // d.t[lead]})
                break
        if hit is None:
            break
        q = q + hit
        r = r - hit * d
    return q, r


def i_floordiv(n: IX, d: IX) -> IX:
    n, d = to_ix(n), to_ix(d)
    if d.is_const() and d.cval() == 1:
        return n
    if n.is_const() and d.is_const():
        return IX.const(n.cval() // d.cval())
    q, r = _divide(n, d)
    if q is not None:
        if ge0(r) and ge0(d - 1 - r):
            return q
        # negative remainder in (-d, 0)
        if ge0(-r - 1) and ge0(d + r):
            return q - 1
        if q.t and ge0(d - 1):
            n, add = r, q
        else:
            add = None
    else:
        add = None
    sp = _common_factor(n, d)
    out = i_floordiv(sp[1], sp[2]) if sp else IX.atom(('fd', n, d))
    return out if add is None else add + out


def _common_factor(n: IX, d: IX):
    """(g, q, d/g) with n = g*q + r, 0 <= r < g and g a proper monomial factor of d."""
    if len(d.t) != 1:
        return None
    (dm, dc), = d.t.items()
    if len(dm) < 2 and not (len(dm) == 1 and (dc > 1 or dm[0][1] > 1)):
        return None
    facs = [IX.const(dc)] if dc > 1 else []
    for a, k in dm:
        facs += [IX({((a, 1),): 1})] * k
    if len(facs) > 5:
        return None
    for m in range(2 ** len(facs) - 2, 0, -1):
        g = IX.const(1)
        for j, x in enumerate(facs):
            if m >> j & 1:
                g = g * x
        q, r = _divide(n, g)
        if q is None or not q.t:
            continue
        rest, rr = _divide(d, g)
        if rest is None or rr.t:
            continue
        if all(_atoms[a][0] == 'd' for a in q.atoms()):
            continue
        if ge0(g - 1) and ge0(r) and ge0(g - 1 - r):
            return g, q, rest, r
    return None


def i_mod(n: IX, d: IX) -> IX:
    n, d = to_ix(n), to_ix(d)
    if d.is_const() and d.cval() == 1:
        return IX.const(0)
    if n.is_const() and d.is_const():
        return IX.const(n.cval() % d.cval())
    q, r = _divide(n, d)
    if q is not None:
        if ge0(r) and ge0(d - 1 - r):
            return r
        if ge0(-r - 1) and ge0(d + r):
            return r + d
        if q.t and ge0(d - 1):
            n = r
    sp = _common_factor(n, d)
    if sp:
        return sp[0] * i_mod(sp[1], sp[2]) + sp[3]
    return IX.atom(('md', n, d))


def i_ite(c, a: IX, b: IX) -> IX:
    if c == TRUE:
        return a
    if c == FALSE:
        return b
    if a == b:
        return a
    # lift the common part
    return IX.atom(('ite', c, a, b))


CONST_ARRAYS: dict = {}  # name -> numpy array


def i_arr(name, idx: tuple) -> IX:
    arr = CONST_ARRAYS.get(name)
    if arr is not None and all(i.is_const() for i in idx):
        v = arr[tuple(i.cval() for i in idx)]
        return IX.const(int(v))
    return IX.atom(('ia', name, idx))


def norm(p: IX) -> IX:
    """d*(n // d) + n % d = n;  n - d*(n // d) = n % d."""
    for _ in range(6):
        for a in p.atoms():
            at = _atoms[a]
            if at[0] not in ('md', 'fd'):
                continue
            q = atom_id(('fd', at[1], at[2])) if ('fd', at[1], at[2]) in _atom_ids else None
            if q is None:
                continue
            c, r, ok = _linear_in(p, a)
            if not ok:
                continue
            if at[0] == 'md':
                rest = r - c * at[2] * IX.atom(('fd', at[1], at[2]))
                if q not in rest.atoms():
                    p = rest + c * at[1]
                    break
                continue
            k, rem = _divide(-c, at[2])
            if k is None or rem.t or not k.t:
                continue
            rest = r - k * at[1]
            if len(rest.t) < len(r.t):
                p = rest + k * i_mod(at[1], at[2])
                break
        else:
            return p
    return p


# ---- formulas --------------------------------------------------------------------

TRUE = ('T',)
FALSE = ('Fa',)


def f_bool(b) -> tuple:
    return TRUE if b else FALSE


def f_not(f):
    if f == TRUE:
        return FALSE
    if f == FALSE:
        return TRUE
    if f[0] == 'not':
        return f[1]
    if f[0] == 'ge':
        return f_ge(-f[1] - 1)
    if f[0] == 'and':
        return f_or(*[f_not(x) for x in f[1]])
    if f[0] == 'or':
        return f_and(*[f_not(x) for x in f[1]])
    return ('not', f)


def f_and(*fs):
    s = set()
    for f in fs:
        if f == FALSE:
            return FALSE
        if f == TRUE:
            continue
        if f[0] == 'and':
            s |= f[1]
        else:
            s.add(f)
    for f in s:
        if f_not(f) in s:
            return FALSE
    if len(s) > 1 and any(f[0] == 'eq' for f in s):
        s = _fixed_values(s)
        if s is None:
            return FALSE
    if not s:
        return TRUE
    if len(s) == 1:
        return next(iter(s))
    return ('and', frozenset(s))


def _split_const(p: IX):
    c = p.t.get((), 0)
    return frozenset((m, k) for m, k in p.t.items() if m != ()), c


def _fixed_values(s):
    """Decide literals over an expression that another literal fixes; None: contradiction."""
    val = {}
    eqs = [f[1] for f in s if f[0] == 'eq']
    for p in eqs:
        k, c = _split_const(p)
        if val.setdefault(k, c) != c:
            return None
    for i, p in enumerate(eqs):
        for q in eqs[:i]:
            common = [m for m in p.t if m and m in q.t]
            if common:
                d = p - q if p.t[common[0]] == q.t[common[0]] else p + q
                if not d.is_const() and len(d.t) <= 3 and (ge0(d - 1) or ge0(-d - 1)):
                    return None
    out = set()
    for f in s:
        g = f[1] if f[0] == 'not' else f
        if f[0] != 'eq' and g[0] in ('eq', 'ge'):
            k, c = _split_const(g[1])
            n = frozenset((m, -q) for m, q in k)
            d = c - val[k] if k in val else (c + val[n] if n in val else None)
            if d is not None:
                truth = (d == 0) if g[0] == 'eq' else (d >= 0)
                if truth == (f[0] == 'not'):
                    return None
                continue
        out.add(f)
    return out


def f_or(*fs):
    s = set()
    for f in fs:
        if f == TRUE:
            return TRUE
        if f == FALSE:
            continue
        if f[0] == 'or':
            s |= f[1]
        else:
            s.add(f)
    for f in s:
        if f_not(f) in s:
            return TRUE
    if not s:
        return FALSE
    if len(s) == 1:
        return next(iter(s))
    return ('or', frozenset(s))


def _ite_lift(p: IX, mk):
    """Lift an ite atom out of p: mk(p) = (c & mk(p[a])) | (!c & mk(p[b]))."""
    for a in p.atoms():
        at = _atoms[a]
        if at[0] == 'ite':
            pa, pb = IX({}), IX({})
            for m, c in p.t.items():
                fa, fb = IX.const(c), IX.const(c)
                for x, k in m:
                    for _ in range(k):
                        if x == a:
                            fa, fb = fa * at[2], fb * at[3]
                        else:
                            fa, fb = fa * IX.atom(_atoms[x]), fb * IX.atom(_atoms[x])
                pa, pb = pa + fa, pb + fb
            c = at[1]
            return f_or(f_and(c, mk(pa)), f_and(f_not(c), mk(pb)))
    return None


def f_ge(p: IX):
    p = to_ix(p)
    if p.is_const():
        return f_bool(p.cval() >= 0)
    r = _ite_lift(p, f_ge)
    if r is not None:
        return r
    if ge0(p):
        return TRUE
    if ge0(-p - 1):
        return FALSE
    if ge0(-p):
        return f_eq0(p)
    # mixed radix: c*x + r >= 0 with 0<=r<c  <=>  x >= 0
    for d in _radices(p):
        q, r = _divide(p, d)
        if q is not None and q.t and r.t:
            if ge0(r) and ge0(d - 1 - r):
                return f_ge(q)
            if ge0(-r - 1) and ge0(r + d):
                return f_ge(q - 1)
    # n // d >= r  <=>  n >= d*r;   n // d <= r  <=>  n <= d*r + d - 1
    w = _lone_quotient(p)
    if w is not None:
        sign, n, d, r = w
        return f_ge(n + d * r) if sign > 0 else f_ge(d * r + d - 1 - n)
    return ('ge', p)


def _lone_quotient(p: IX):
    """(sign, n, d, r) when p = sign*(n // d) + r and r has no quotients of its own."""
    for a in p.atoms():
        at = _atoms[a]
        if at[0] == 'fd':
            c, r, ok = _linear_in(p, a)
            if ok and c.is_const() and abs(c.cval()) == 1 and not any(_atoms[b][0] in ('fd', 'md') for b in r.atoms()):
                return c.cval(), at[1], at[2], r
    return None


def _radices(p: IX):
    """Candidate radices: monomials (without index variables) that divide some terms."""
    out = []
    for m in p.t:
        dm = tuple((a, k) for a, k in m if _atoms[a][0] == 'd')
        if dm and dm != () :
            d = IX({dm: 1})
            if d not in out:
                out.append(d)
        c = abs(p.t[m])
        if m and c > 1:
            d = IX.const(c)
            if d not in out:
                out.append(d)
    return out


def f_eq0(p: IX):
    p = to_ix(p)
    if p.is_const():
        return f_bool(p.cval() == 0)
    r = _ite_lift(p, f_eq0)
    if r is not None:
        return r
    if ge0(p - 1) or ge0(-p - 1):
        return FALSE
    # mixed radix: d*q + r == 0 with |r| < d  <=>  q == 0 and r == 0
    for d in _radices(p):
        q, r = _divide(p, d)
        if q is not None and q.t and r.t:
            if ge0(d - 1 - r) and ge0(d - 1 + r):
                return f_and(f_eq0(q), f_eq0(r))
    # factor common dims:  d*q == 0 <=> q == 0 (dims are positive)
    for d in _radices(p):
        q, r = _divide(p, d)
        if q is not None and q.t and not r.t and (d.is_const() or not q.is_const()):
            if q != p:
                return f_eq0(q)
    w = _lone_quotient(p)
    if w is not None and not w[3].fv():
        sign, n, d, r = w
        r = -r if sign > 0 else r
        return f_and(f_ge(n - d * r), f_ge(d * r + d - 1 - n))
    # sign normalisation
    lead = max(p.t)
    if p.t[lead] < 0:
        p = -p
    for f in CTX.facts:
        if f == ('eq', p):
            return TRUE
        if f == ('not', ('eq', p)):
            return FALSE
    return ('eq', p)


def f_eq(a, b):
    return f_eq0(to_ix(a) - to_ix(b))


def f_lt(a, b):
    return f_ge(to_ix(b) - to_ix(a) - 1)


def f_exists(v: IX, size: IX, body):
    vid = _var_id(v)
    if body == FALSE:
        return FALSE
    if body == TRUE and ge0(size - 1):
        return TRUE
    if vid not in obj_fv(body):
        if ge0(size - 1):
            return body
        return f_and(f_ge(size - 1), body)
    if size.is_const() and size.cval() <= CTX.unroll:
        return f_or(*[subst(body, {vid: IX.const(i)}) for i in range(size.cval())])
    # one-point rule
    conj = body[1] if body[0] == 'and' else [body]
    for g in conj:
        sol = solve_eq(g, vid)
        if sol is not None:
            rest = f_and(*[x for x in conj if x != g])
            return f_and(
                f_ge(sol), f_lt(sol, size), subst(rest, {vid: sol})
            )
    if body[0] == 'or':
        return f_or(*[f_exists(v, size, b) for b in body[1]])
    # pull out independent conjuncts
    indep = [g for g in conj if vid not in obj_fv(g)]
    if indep:
        dep = f_and(*[g for g in conj if vid in obj_fv(g)])
        return f_and(*indep, f_exists(v, size, dep))
    return ('ex', vid, size, body)


def _var_id(v: IX) -> int:
    ((m, c),) = v.t.items()
    return _atoms[m[0][0]][1]


def solve_eq(g, vid):
    """If formula g is (v == e) for index variable vid and v not in e, return e."""
    if g[0] != 'eq':
        return None
    p = g[1]
    a = atom_id(('v', vid))
    c, r, ok = _linear_in(p, a)
    if not ok or not c.t:
        return None
    if vid in r.fv() or not c.is_const() or abs(c.cval()) != 1:
        return None
    return -r if c.cval() == 1 else r


def f_rlt(d: 'RX'):
    """d < 0 for a real term."""
    c = d.as_const()
    if c is not None:
        return f_bool(c < 0)
    n = _as_int(d)
    if n is not None:
        return f_ge(-n - 1)
    d = d.canon()
    cs = _split_cases(d, f_rlt)
    if cs is not None:
        return cs
    return ('rlt', d)


def f_req(d: 'RX'):
    c = d.as_const()
    if c is not None:
        return f_bool(c == 0)
    n = _as_int(d)
    if n is not None:
        return f_eq0(n)
    d = d.canon()
    if len(d.t) == 1:
        (b, g, f), _ = next(iter(d.t.items()))
        if f and not b and not g and all(_atoms[a][0] == 'base' and (e < 0 or e.denominator != 1) for a, e in f):
            return FALSE  # sqrt(p) = 0 or 1/p = 0: outside the differentiability set
    cs = _split_cases(d, f_req)
    if cs is not None:
        return cs
    e = (-d).canon()
    if e.key() < d.key():
        d = e
    return ('req', d)


def _as_int(d: 'RX'):
    """A positive multiple of d as an index expression, if d is one."""
    out, mul = IX({}), 1
    for (b, g, f), c in d.t.items():
        if b or g or any(_atoms[a][0] != 'i' or e.denominator != 1 or e < 0 for a, e in f):
            return None
        mul = mul * c.denominator // math.gcd(mul, c.denominator)
    for (b, g, f), c in d.t.items():
        x = IX.const(int(c * mul))
        for a, e in f:
            for _ in range(int(e)):
                x = x * IX.atom(_atoms[a][1])
        out = out + x
    return out


def _split_cases(d: 'RX', mk):
    g = d.some_guard()
    if g is None:
        return None
    return f_or(f_and(g, mk(d.assume(g))), f_and(f_not(g), mk(d.assume(f_not(g)))))


# ---- structural keys ---------------------------------------------------------------

_sk_cache: dict = {}


def skey(o, env) -> str:
    """Structural key; env maps variable ids to labels."""
    if isinstance(o, IX):
        if not o.t:
            return '0'
        if not (o.fv()):
            k = _sk_cache.get(o)
            if k is None:
                k = _ix_key(o, {})
                _sk_cache[o] = k
            return k
        return _ix_key(o, env)
    if isinstance(o, RX):
        return o.key(env)
    if isinstance(o, LamArr):
        return o.key(env)
    if isinstance(o, tuple):
        if len(o) == 2 and o[0] == 'v' and isinstance(o[1], int):
            return str(env.get(o[1], f'i{o[1]}'))
        if o and o[0] in ('ex', 'amax') and len(o) == 4:
            e2 = dict(env)
            e2[o[1]] = f'@{len(env)}'
            return f'({o[0]} {skey(o[2], env)} {skey(o[3], e2)})'
        if o and o[0] in ('red', 'isum') and len(o) == 5:
            e2 = dict(env)
            for j, v in enumerate(o[2]):
                e2[v] = f'@{len(env)}.{j}'
            return f'({o[0]} {o[1]} {skey(o[3], env)} {skey(o[4], e2)})'
        if o and o[0] == 'D':  # symmetric derivative indices
            # ('D', F, args, out, derivs)
            ds = sorted(skey(x, env) for x in o[4])
            return f'(D {o[1]} {skey(o[2], env)} {skey(o[3], env)} {ds})'
        return '(' + ' '.join(skey(x, env) for x in o) + ')'
    if isinstance(o, frozenset):
        return '{' + ','.join(sorted(skey(x, env) for x in o)) + '}'
    return str(o)


def _ix_key(o: IX, env) -> str:
    parts = []
    for m, c in o.t.items():
        parts.append(
            '*'.join(sorted(f'{_akey(a, env)}^{p}' for a, p in m)) + f':{c}'
        )
    return '[' + '+'.join(sorted(parts)) + ']'


def _akey(i, env):
    a = _atoms[i]
    if a[0] == 'v':
        return str(env.get(a[1], f'i{a[1]}'))
    if a[0] == 'd':
        return a[1]
    return skey(a, env)


class LamArr:
    """A (curried) array argument of an uninterpreted function: lambda idx. value."""

    __slots__ = ('vars', 'body', '_key', '_fv')

    def __init__(self, vars, body):
        self.vars = tuple(vars)  # var ids
        self.body = body  # RX | IX | formula | tuple of those
        self._key = None
        self._fv = None

    def fv(self):
        if self._fv is None:
            self._fv = obj_fv(self.body) - set(self.vars)
        return self._fv

    def key(self, env=None):
        env = env or {}
        e2 = dict(env)
        for j, v in enumerate(self.vars):
            e2[v] = f'%{len(env)}.{j}'
        if not env:
            if self._key is None:
                self._key = f'(lam {len(self.vars)} {skey(self.body, e2)})'
            return self._key
        return f'(lam {len(self.vars)} {skey(self.body, e2)})'

    def subst(self, s):
        s2 = {v: e for v, e in s.items() if v not in self.vars}
        if not (self.fv() & s2.keys()):
            return self
        return LamArr(self.vars, subst(self.body, s2))

    def __hash__(self):
        return hash(self.key())

    def __eq__(self, o):
        return isinstance(o, LamArr) and self.key() == o.key()

    def __repr__(self):
        return f'(lam {self.vars} {self.body!r})'


# --------------------------------------------------------------------------- RX
# Monomial key: (bound: tuple of (var id, size IX), guards: frozenset, factors: tuple)
# factors: tuple of (atom tuple, Fraction exponent), sorted by atom id


class RX:
    __slots__ = ('t', '_h', '_fv', '_canon', '_key')

    def __init__(self, t: dict):
        self.t = t
        self._h = None
        self._fv = None
        self._canon = None
        self._key = None

    @staticmethod
    def const(c) -> 'RX':
        c = Fraction(c)
        return RX({((), frozenset(), ()): c} if c else {})

    @staticmethod
    def atom(a, e=1) -> 'RX':
        return RX({((), frozenset(), ((atom_id(a), Fraction(e)),)): Fraction(1)})

    @staticmethod
    def indicator(f) -> 'RX':
        if f == TRUE:
            return RX.const(1)
        if f == FALSE:
            return RX({})
        if f[0] == 'and':
            return RX({((), frozenset(f[1]), ()): Fraction(1)})
        if f[0] == 'or':
            # inclusion-exclusion free form: 1 - [not f]
            return RX.const(1) - RX.indicator(f_not(f))
        if f[0] == 'not':
            return RX.const(1) - RX.indicator(f[1])
        return RX({((), frozenset([f]), ()): Fraction(1)})

    @staticmethod
    def from_ix(p: IX) -> 'RX':
        r = RX({})
        for m, c in p.t.items():
            f = RX.const(c)
            for a, k in m:
                at = _atoms[a]
                if at[0] == 'ite':
                    x = RX.indicator(at[1]) * RX.from_ix(at[2]) + RX.indicator(
                        f_not(at[1])
                    ) * RX.from_ix(at[3])
                elif at[0] == 'isum':
                    x = at[4] if False else RX.atom(('i', at))
                else:
                    x = RX.atom(('i', at))
                for _ in range(k):
                    f = f * x
            r = r + f
        return r

    def __hash__(self):
        return hash(self.key())

    def __eq__(self, o):
        return isinstance(o, RX) and self.key() == o.key()

    def fv(self):
        if self._fv is None:
            s = set()
            for b, g, f in self.t:
                ms = set()
                for x in g:
                    ms |= obj_fv(x)
                for a, _ in f:
                    ms |= atom_fv(a)
                for v, sz in b:
                    ms |= sz.fv()
                s |= ms - {v for v, _ in b}
            self._fv = frozenset(s)
        return self._fv

    def is_zero(self):
        return not self.t

    def as_const(self):
        if not self.t:
            return Fraction(0)
        if len(self.t) == 1:
            (k, c), = self.t.items()
            if k == ((), frozenset(), ()):
                return c
        return None

    def __add__(self, o):
        if not o.t:
            return self
        if not self.t:
            return o
        r = dict(self.t)
        for m, c in o.t.items():
            n = r.get(m, 0) + c
            if n:
                r[m] = n
            else:
                r.pop(m, None)
        return RX(r)

    def __neg__(self):
        return RX({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-o)

    def scale(self, c):
        c = Fraction(c)
        if not c:
            return RX({})
        return RX({m: k * c for m, k in self.t.items()})

    def __mul__(self, o):
        r = {}
        for (b1, g1, f1), c1 in self.t.items():
            for (b2, g2, f2), c2 in o.t.items():
                if b1 and b2 and ({v for v, _ in b1} & {v for v, _ in b2}):
                    b2, g2, f2 = _rename(b2, g2, f2)
                g = _conj(g1, g2)
                if g is None:
                    continue
                m = (tuple(b1) + tuple(b2), g, _fmul(f1, f2))
                n = r.get(m, 0) + c1 * c2
                if n:
                    r[m] = n
                else:
                    r.pop(m, None)
            if len(r) > MAX_TERMS:
                raise Unsupported('term too large')
        return RX(r)

    def guard(self, f) -> 'RX':
        if f == TRUE:
            return self
        if f == FALSE:
            return RX({})
        return self * RX.indicator(f)

    def subst(self, s) -> 'RX':
        if not (self.fv() & s.keys()):
            return self
        r = RX({})
        for (b, g, f), c in self.t.items():
            bv = {v for v, _ in b}
            s2 = {v: e for v, e in s.items() if v not in bv}
            cap = set()
            for e in s2.values():
                cap |= e.fv()
            if cap & bv:
                b, g, f = _rename(b, g, f)
            m = RX({(tuple((v, subst(sz, s2)) for v, sz in b), frozenset(), ()): c})
            for x in g:
                m = m.guard(subst(x, s2))
                if not m.t:
                    break
            if not m.t:
                continue
            fac = RX.const(1)
            for a, e in f:
                fac = fac * r_atom_pow(subst_ratom(_atoms[a], s2), e)
            r = r + _mul_under(m, fac)
        return r

    def some_guard(self):
        for (b, g, f) in self.t:
            bv = {v for v, _ in b}
            for x in sorted(g, key=lambda q: skey(q, {})):
                if not (obj_fv(x) & bv):
                    return x
        return None

    def assume(self, f) -> 'RX':
        """Value under the assumption that the formula f holds."""
        nf = f_not(f)
        fs = f[1] if f[0] == 'and' else frozenset([f])
        r = {}
        for (b, g, fa), c in self.t.items():
            if nf in g:
                continue
            g2 = g - fs
            if any(f_not(x) in fs for x in g2):
                continue
            m = (b, g2, fa)
            n = r.get(m, 0) + c
            if n:
                r[m] = n
            else:
                r.pop(m, None)
        return RX(r)

    # canonical form ------------------------------------------------------------
    def key(self, env=None) -> str:
        if not env:
            if self._key is None:
                self._key = self._mk_key({})
            return self._key
        if not (self.fv() & env.keys()):
            return self.key()
        return self._mk_key(env)

    def _mk_key(self, env):
        d = {}
        for m, c in self.t.items():
            k = mono_key(m, env)
            d[k] = d.get(k, 0) + c
        return 'R{' + ';'.join(sorted(f'{c}~{k}' for k, c in d.items() if c)) + '}'

    def canon(self) -> 'RX':
        """Merge alpha-equivalent monomials."""
        if self._canon is None:
            d, rep = {}, {}
            for m, c in self.t.items():
                k = mono_key(m, {})
                d[k] = d.get(k, 0) + c
                rep.setdefault(k, m)
            r = RX({rep[k]: c for k, c in d.items() if c})
            r._canon = r
            self._canon = r
        return self._canon

    def __repr__(self):
        if not self.t:
            return '0'
        out = []
        for (b, g, f), c in list(self.t.items())[:12]:
            s = ''
            if b:
                s += 'SUM_{' + ','.join(f'i{v}<{sz!r}' for v, sz in b) + '}'
            for x in g:
                s += f'[{show_obj(x)}]'
            s += '*'.join(
                show_atom(a) + (f'^{e}' if e != 1 else '') for a, e in f
            )
            out.append((str(c) + '*' if c != 1 or not s else '') + s)
        if len(self.t) > 12:
            out.append(f'... ({len(self.t)} terms)')
        return ' + '.join(out)


def _mul_under(m: RX, fac: RX) -> RX:
    """Multiply monomial m (whose bound variables scope over fac) with fac."""
    r = {}
    for (b1, g1, f1), c1 in m.t.items():
        for (b2, g2, f2), c2 in fac.t.items():
            g = _conj(g1, g2)
            if g is None:
                continue
            k = (tuple(b1) + tuple(b2), g, _fmul(f1, f2))
            n = r.get(k, 0) + c1 * c2
            if n:
                r[k] = n
            else:
                r.pop(k, None)
    return RX(r)


def _conj(g1, g2):
    if not g2:
        return g1
    if not g1:
        return g2
    g = g1 | g2
    f = f_and(*g)
    if f == FALSE:
        return None
    if f == TRUE:
        return frozenset()
    return f[1] if f[0] == 'and' else frozenset([f])


def _fmul(f1, f2):
    if not f1:
        return f2
    if not f2:
        return f1
    d = dict(f1)
    for a, e in f2:
        n = d.get(a, 0) + e
        if n:
            d[a] = n
        else:
            d.pop(a, None)
    return tuple(sorted(d.items()))


def _rename(b, g, f):
    s = {}
    nb = []
    for v, sz in b:
        nv = CTX.fresh(sz)
        s[v] = nv
        nb.append((_var_id(nv), sz))
    nb = [(v, subst(sz, s)) for v, sz in nb]
    g2 = frozenset(subst(x, s) for x in g)
    f2 = []
    for a, e in f:
        na = subst_ratom(_atoms[a], s)
        (k, c), = na.t.items()
        ((ai, ae),) = k[2]
        f2.append((ai, ae * e))
    d = {}
    for a, e in f2:
        d[a] = d.get(a, 0) + e
    return tuple(nb), g2, tuple(sorted((a, e) for a, e in d.items() if e))


def subst_ratom(a, s) -> RX:
    """Substitute inside an atom of a real term; returns RX."""
    if not (obj_fv(a) & s.keys()):
        return RX.atom(a)
    k = a[0]
    if k == 'in':
        return r_in(a[1], tuple(norm(subst(x, s)) for x in a[2]))
    if k == 'i':
        return RX.from_ix(subst_atom(atom_id(a[1]), s))
    if k == 'base':
        return r_base(subst(a[1], s))
    if k == 'fn':
        return r_fn(a[1], *[subst(x, s) for x in a[2]])
    if k == 'D':
        return r_deriv(a[1], subst(a[2], s), subst(a[3], s), [subst(x, s) for x in a[4]])
    if k == 'red':
        s2 = {v: e for v, e in s.items() if v not in a[2]}
        return RX.atom((k, a[1], a[2], subst(a[3], s2), subst(a[4], s2)))
    if k == 'app':
        return RX.atom((k, a[1], subst(a[2], s), subst(a[3], s)))
    raise Unsupported(f'subst into real atom {a[0]}')


def r_deriv(name, args, out, der) -> RX:
    """A partial derivative (der: (argument, index) pairs) of an uninterpreted function."""
    der = [(j, tuple(norm(to_ix(i)) for i in idx)) for j, idx in der]
    return RX.atom(('D', name, args, tuple(norm(to_ix(o)) for o in out), tuple(sorted(der, key=lambda d: skey(d, {})))))


REAL_CONST_ARRAYS: dict = {}


def r_in(name, idx) -> RX:
    arr = REAL_CONST_ARRAYS.get(name)
    if arr is not None and all(i.is_const() for i in idx):
        return RX.const(Fraction(float(arr[tuple(i.cval() for i in idx)])))
    return RX.atom(('in', name, tuple(idx)))


def r_atom_pow(x: RX, e: Fraction) -> RX:
    if e == 1:
        return x
    return r_pow(x, e)


def r_base(x: RX) -> RX:
    """x as an atom raised to powers (for non-monomials)."""
    return r_pow(x, Fraction(1))


def r_pow(x: RX, e: Fraction) -> RX:
    e = Fraction(e)
    if e == 0:
        return RX.const(1)
    if e == 1:
        return x
    if not x.t:
        if e > 0:
            return x
        raise Unsupported('0 ** negative')
    if e.denominator == 1 and 0 < e <= 4:
        r = x
        for _ in range(int(e) - 1):
            r = r * x
        return r
    g = x.some_guard()
    if g is not None:
        # case split
        return r_pow(x.assume(g), e).guard(g) + r_pow(x.assume(f_not(g)), e).guard(
            f_not(g)
        )
    if len(x.t) == 1:
        ((b, gg, f), c), = x.t.items()
        if not b:
            cc = _cpow(c, e)
            # (prod a_i^e_i)^e = prod a_i^(e_i e): valid for integers e, and for even-root
            # cases only when the atoms are positive; keep whole as base otherwise
            if cc is not None and (e.denominator == 1 or len(f) == 1 and f[0][1] == 1 or _pos_factors(f)):
                return RX({((), frozenset(), tuple((a, p * e) for a, p in f)): cc})
    x = x.canon()
    # pull out the numeric content to normalise
    c = next(iter(sorted(x.t.items(), key=lambda kv: mono_key(kv[0], {}))))[1]
    if e.denominator == 1:
        y = x.scale(1 / c)
        return RX({((), frozenset(), ((atom_id(('base', y)), e),)): c ** int(e)})
    return RX({((), frozenset(), ((atom_id(('base', x)), e),)): Fraction(1)})


def _pos_factors(f):
    # atoms exp(..) and dimension atoms are positive; powers with fractional
    # exponents denote positive quantities
    for a, p in f:
        at = _atoms[a]
        if p.denominator != 1:
            continue
        if at[0] == 'fn' and at[1] == 'exp':
            continue
        if at[0] == 'i' and at[1][0] == 'd':
            continue
        return False
    return True


def _cpow(c: Fraction, e: Fraction):
    if e.denominator == 1:
        return c ** int(e)
    if c == 1:
        return Fraction(1)
    if c < 0:
        return None
    import math

    if e.denominator == 2:
        n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
        if n * n == c.numerator and d * d == c.denominator:
            return Fraction(n, d) ** int(e.numerator)
    return None


def r_fn(op: str, *args: RX) -> RX:
    args = tuple(a.canon() for a in args)
    for a in args:
        g = a.some_guard()
        if g is not None:
            return r_fn(op, *[x.assume(g) for x in args]).guard(g) + r_fn(
                op, *[x.assume(f_not(g)) for x in args]
            ).guard(f_not(g))
    c = args[0].as_const() if len(args) == 1 else None
    if c is not None:
        if op in ('exp',) and c == 0:
            return RX.const(1)
        if op in ('log',) and c == 1:
            return RX.const(0)
        if op in ('sin', 'tan', 'tanh', 'asin', 'atan', 'erf', 'sinh') and c == 0:
            return RX.const(0)
        if op in ('cos', 'cosh') and c == 0:
            return RX.const(1)
    return RX.atom(('fn', op, args))


# ---- monomial keys (alpha-canonical) ---------------------------------------------------

_mk_cache: dict = {}


def mono_key(m, env, with_guards=True) -> str:
    b, g, f = m
    if not env:
        kk = (m, with_guards)
        r = _mk_cache.get(kk)
        if r is not None:
            return r
    if not b:
        r = _mono_str(m, env, with_guards, ())
    else:
        order = canon_order(m, env, with_guards)
        r = order[1]
    if not env:
        if len(_mk_cache) > 200000:
            _mk_cache.clear()
        _mk_cache[kk] = r
    return r


def _mono_str(m, env, with_guards, order):
    b, g, f = m
    e2 = env
    sz = dict(b)
    if order:
        e2 = dict(env)
        n0 = len(env)
        for j, v in enumerate(order):
            e2[v] = f'${n0}.{j}'
    fs = ','.join(sorted(f'{skey(_atoms[a], e2)}^{e}' for a, e in f))
    if with_guards:
        gs = ','.join(sorted(skey(x, e2) for x in g))
        bs = ','.join(skey(sz[v], e2) for v in order)
    else:
        gs, bs = '', str(len(order))
    return f'<{bs}|{gs}|{fs}>'


def canon_order(m, env, with_guards=True):
    """Canonical ordering of the bound variables -> (order, key)."""
    b, g, f = m
    vs = [v for v, _ in b]
    sz = dict(b)
    items = [(_atoms[a], str(e), atom_fv(a)) for a, e in f]
    if with_guards:
        items += [(x, 'g', obj_fv(x)) for x in g]
    color = {
        v: (skey(sz[v], {**env, **{u: '?' for u in vs}}) if with_guards else '')
        for v in vs
    }
    for _ in range(3):
        new = {}
        for v in vs:
            occ = []
            for o, tag, ofv in items:
                if v in ofv:
                    e2 = dict(env)
                    for u in vs:
                        e2[u] = '!' if u == v else f'?{color[u]}'
                    occ.append(tag + skey(o, e2))
            new[v] = color[v] + '/' + ';'.join(sorted(occ))
        # compress
        uniq = {c: i for i, c in enumerate(sorted(set(new.values())))}
        new = {v: f'{uniq[c]:03d}' for v, c in new.items()}
        if len(set(new.values())) == len(set(color.values())) and _ > 0:
            color = new
            break
        color = new
    classes = {}
    for v in vs:
        classes.setdefault(color[v], []).append(v)
    groups = [classes[c] for c in sorted(classes)]
    best = None
    count = 1
    for gr in groups:
        for i in range(2, len(gr) + 1):
            count *= i
    if count > 720:
        raise Unsupported('too many symmetric bound variables')
    for perm in itertools.product(*[itertools.permutations(gr) for gr in groups]):
        order = tuple(itertools.chain(*perm))
        k = _mono_str(m, env, with_guards, order)
        if best is None or k < best[1]:
            best = (order, k)
    return best


# ---- sums ---------------------------------------------------------------------------------


def r_sum(v: IX, size: IX, body: RX) -> RX:
    """SUM_{0 <= v < size} body."""
    if size.is_const() and size.cval() <= CTX.unroll:
        r = RX({})
        for i in range(size.cval()):
            r = r + subst(body, {_var_id(v): IX.const(i)})
        return r
    r = RX({})
    for m, c in body.t.items():
        r = r + sum_mono(_var_id(v), size, m, c)
    return r


def sum_mono(v: int, size: IX, m, c, depth=0) -> RX:
    b, g, f = m
    if size.is_const() and size.cval() <= CTX.unroll:
        r = RX({})
        for i in range(size.cval()):
            r = r + subst(RX({m: c}), {v: IX.const(i)})
        return r
    fvs = set()
    for x in g:
        fvs |= obj_fv(x)
    for a, _ in f:
        fvs |= atom_fv(a)
    for _, sz in b:
        fvs |= sz.fv()
    if v not in fvs:
        return RX({m: c}) * RX.from_ix(size)
    # one-point rule
    for x in g:
        sol = solve_eq(x, v)
        if sol is not None:
            bv = {u for u, _ in b}
            rest = RX({(b, g - {x}, f): c})
            if sol.fv() & bv:
                # the solution mentions inner bound variables: substitute below the binders
                rest = subst_open(rest, {v: sol})
                rest = guard_open(rest, f_and(f_ge(sol), f_lt(sol, size)))
                return resimplify(rest)
            rest = subst(rest, {v: sol})
            rest = rest.guard(f_and(f_ge(sol), f_lt(sol, size)))
            return resimplify(rest)
    # a block: L <= v <= L + w - 1 inside the range
    w = _block(v, size, g)
    if w is not None:
        low, width, used = w
        nv = CTX.fresh(width)
        rest = RX({(b, g - used, f): c})
        if low.fv() & {u for u, _ in b}:
            rest = subst_open(rest, {v: low + nv})
        else:
            rest = subst(rest, {v: low + nv})
        out = RX({})
        for m2, c2 in rest.t.items():
            b2, g2, f2 = m2
            out = out + resimplify(RX({(((_var_id(nv), width),) + tuple(b2), g2, f2): c2}))
        return out
    # r - w + 1 <= w*v <= r:  v = r // w
    w = _coef_block(v, g)
    if w is not None:
        sol, used = w
        rest = RX({(b, g - used, f): c})
        rng = f_and(f_ge(sol), f_lt(sol, size))
        if sol.fv() & {u for u, _ in b}:
            return resimplify(guard_open(subst_open(rest, {v: sol}), rng))
        return resimplify(subst(rest, {v: sol}).guard(rng))
    # range restriction guards
    for x in g:
        if x[0] == 'ge':
            cc, r, ok = _linear_in(x[1], atom_id(('v', v)))
            if ok and cc.is_const() and abs(cc.cval()) == 1 and v not in r.fv() and not (
                r.fv() & {u for u, _ in b}
            ):
                if cc.cval() == -1:
                    # v <= r  -> size r+1 (if 0 <= r+1 <= size)
                    if ge0(r + 1) and ge0(size - r - 1):
                        return resum(v, r + 1, (b, g - {x}, f), c, depth)
                else:
                    # v >= -r
                    if ge0(-r) and ge0(size + r):
                        nv = CTX.fresh(size + r)
                        rest = subst(RX({(b, g - {x}, f): c}), {v: nv - r})
                        return r_sum(nv, size + r, rest)
    # mixed radix split
    if depth < 4:
        d = _find_divisor(v, g, f)
        if d is not None:
            q, r = _divide(size, d)
            if q is not None and not r.t:
                v1, v2 = CTX.fresh(q), CTX.fresh(d)
                rest = subst(RX({m: c}), {v: v1 * d + v2})
                return r_sum(v1, q, r_sum(v2, d, rest))
    return RX({(tuple(b) + ((v, size),), g, f): c})


def _coef_block(v, g):
    a = atom_id(('v', v))
    ups, lows = [], []
    for x in g:
        if x[0] != 'ge':
            continue
        cc, r, ok = _linear_in(x[1], a)
        if not ok or v in r.fv() or not cc.t or not _dims_only(cc):
            continue
        if ge0(cc - 1):
            lows.append((cc, r, x))
        elif ge0(-cc - 1):
            ups.append((-cc, r, x))
    for w, r2, x in ups:
        for w2, r1, y in lows:
            if w == w2 and r1 + r2 == w - 1:
                return i_floordiv(r2, w), {x, y}
    return None


def _block(v, size, g):
    a = atom_id(('v', v))
    lows, highs = [], []
    for x in g:
        if x[0] != 'ge':
            continue
        cc, r, ok = _linear_in(x[1], a)
        if not ok or not cc.is_const() or abs(cc.cval()) != 1 or v in r.fv():
            continue
        (lows if cc.cval() == 1 else highs).append((r, x))
    for rl, xl in sorted(lows, key=lambda q: skey(q[1], {})):
        for rh, xh in sorted(highs, key=lambda q: skey(q[1], {})):
            low, width = -rl, rh + rl + 1
            if _dims_only(width) and ge0(low) and ge0(size - 1 - rh) and ge0(width):
                return low, width, {xl, xh}
    return None


def resum(v, size, m, c, depth):
    """SUM over a re-sized variable: needs a fresh variable carrying the new size."""
    nv = CTX.fresh(size)
    rest = subst(RX({m: c}), {v: nv})
    return r_sum(nv, size, rest)


def subst_open(x: RX, s) -> RX:
    """Substitution without renaming bound variables (deliberate capture)."""
    r = RX({})
    for (b, g, f), c in x.t.items():
        m = RX({(tuple((v, subst(sz, s)) for v, sz in b), frozenset(), ()): c})
        for y in g:
            gy = subst(y, s)
            m = guard_open(m, gy)
        fac = RX.const(1)
        for a, e in f:
            fac = fac * r_atom_pow(subst_ratom(_atoms[a], s), e)
        r = r + _mul_under(m, fac)
    return r


def guard_open(x: RX, f) -> RX:
    if f == TRUE:
        return x
    if f == FALSE:
        return RX({})
    return _mul_under_each(x, RX.indicator(f))


def _mul_under_each(x: RX, fac: RX) -> RX:
    return _mul_under(x, fac)


def _linear_key(p: IX, v: int):
    inner = any(_atoms[a][0] != 'v' and v in atom_fv(a) for a in p.atoms())
    return None if inner else (v,)


def _find_divisor(v, g, f):
    """A divisor d such that v//d or v%d occurs."""
    found = []

    def visit(o):
        if isinstance(o, IX):
            for a in o.atoms():
                if v in atom_fv(a):
                    visit(_atoms[a])
        elif isinstance(o, RX):
            if v in o.fv():
                for b2, g2, f2 in o.t:
                    for y in g2:
                        visit(y)
                    for a, _ in f2:
                        visit(_atoms[a])
        elif isinstance(o, LamArr):
            if v in o.fv():
                visit(o.body)
        elif isinstance(o, tuple):
            if o and o[0] in ('fd', 'md') and isinstance(o[1], IX):
                if v in o[1].fv() and v not in o[2].fv():
                    found.append((o[1], o[2]))
            for y in o:
                if not isinstance(y, (str, int)):
                    visit(y)
        elif isinstance(o, frozenset):
            for y in o:
                visit(y)

    for x in g:
        visit(x)
    for a, _ in f:
        if v in atom_fv(a):
            visit(_atoms[a])
    if not found:
        return None
    # innermost divisions first (their argument has v outside further divisions), then the finest
    found = [p for p in found if (v,) in {_linear_key(p[0], v)}] or found
    found.sort(key=lambda p: (len(repr(p[1])), repr(p[1])))
    for num, d in found:
        return d
    return None


def resimplify(x: RX) -> RX:
    """Re-run sum simplification for bound variables (after new equations appeared)."""
    r = RX({})
    for (b, g, f), c in x.t.items():
        if not b:
            r = r + RX({((), g, f): c})
            continue
        cur = RX({((), g, f): c})
        for v, sz in b:
            nxt = RX({})
            for m, cc in cur.t.items():
                nxt = nxt + sum_mono(v, sz, m, cc)
            cur = nxt
        r = r + cur
    return r


# --------------------------------------------------------------------------- CX


class CX:
    __slots__ = ('re', 'im')

    def __init__(self, re: RX, im: RX):
        self.re, self.im = re, im

    def __add__(self, o):
        return CX(self.re + o.re, self.im + o.im)

    def __sub__(self, o):
        return CX(self.re - o.re, self.im - o.im)

    def __neg__(self):
        return CX(-self.re, -self.im)

    def __mul__(self, o):
        return CX(
            self.re * o.re - self.im * o.im, self.re * o.im + self.im * o.re
        )

    def conj(self):
        return CX(self.re, -self.im)

    def inv(self):
        d = r_pow(self.re * self.re + self.im * self.im, Fraction(-1))
        return CX(self.re * d, -(self.im * d))

    def guard(self, f):
        return CX(self.re.guard(f), self.im.guard(f))

    def __repr__(self):
        return f'({self.re!r}) + i({self.im!r})'

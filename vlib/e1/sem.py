"""Denotational semantics of jaxprs as index-notation terms.

Every array is a (lazy) function from index terms to a value term.  One clause per
JAX primitive; the clauses are validated numerically against JAX on every run
(``selfcheck`` of every discharged obligation).
"""
from __future__ import annotations

import hashlib
from fractions import Fraction

import jax
import jax.numpy as jnp
import numpy as np
from jax import core

from . import ix
from .dims import dim_to_ix
from .ix import (
    CTX,
    CX,
    FALSE,
    IX,
    norm,
    RX,
    TRUE,
    Unsupported,
    f_and,
    f_bool,
    f_eq,
    f_eq0,
    f_exists,
    f_ge,
    f_lt,
    f_not,
    f_or,
    f_req,
    f_rlt,
    ge0,
    i_arr,
    i_floordiv,
    i_ite,
    i_mod,
    r_fn,
    r_in,
    r_pow,
    r_sum,
    to_ix,
)

ONE = Fraction(1)
HALF = Fraction(1, 2)


def kind_of(dtype) -> str:
    if dtype == jax.dtypes.float0:
        return 'b'
    if jnp.issubdtype(dtype, jnp.bool_):
        return 'b'
    if jnp.issubdtype(dtype, jnp.integer):
        return 'i'
    if jnp.issubdtype(dtype, jnp.complexfloating):
        return 'c'
    if jnp.issubdtype(dtype, jnp.floating):
        return 'r'
    raise Unsupported(f'dtype {dtype}')


class Arr:
    __slots__ = ('shape', 'kind', 'f', 'memo', 'const')

    def __init__(self, shape, kind, f, const=None):
        self.shape = tuple(to_ix(s) for s in shape)
        self.kind = kind
        self.f = f
        self.memo = {}
        self.const = const  # concrete numpy value if there is one

    def __getitem__(self, idx):
        idx = tuple(norm(to_ix(i)) for i in idx)
        assert len(idx) == len(self.shape), (idx, self.shape)
        r = self.memo.get(idx)
        if r is None:
            r = self.f(*idx)
            self.memo[idx] = r
        return r

    @property
    def ndim(self):
        return len(self.shape)


def zero_of(kind):
    if kind == 'r':
        return RX({})
    if kind == 'c':
        return CX(RX({}), RX({}))
    if kind == 'i':
        return IX({})
    return FALSE


def v_ite(c, a, b):
    if c == TRUE:
        return a
    if c == FALSE:
        return b
    if isinstance(a, RX):
        if a.key() == b.key():
            return a
        return a.guard(c) + b.guard(f_not(c))
    if isinstance(a, CX):
        return CX(v_ite(c, a.re, b.re), v_ite(c, a.im, b.im))
    if isinstance(a, IX):
        return i_ite(c, a, b)
    return f_or(f_and(c, a), f_and(f_not(c), b))


def v_guard(a, f):
    if isinstance(a, IX):
        return i_ite(f, a, IX({}))
    if isinstance(a, (RX, CX)):
        return a.guard(f)
    return f_and(a, f)


def fresh_idx(shape):
    return tuple(IX({}) if s.is_const() and s.cval() == 1 else CTX.fresh(s) for s in shape)


def scalar_const(v, kind):
    if kind == 'r':
        v = float(v)
        if np.isnan(v):
            return RX.atom(('in', 'NaN', ()))
        if np.isinf(v):
            r = RX.atom(('in', 'Inf', ()))
            return r if v > 0 else -r
        return RX.const(Fraction(v))
    if kind == 'c':
        return CX(scalar_const(v.real, 'r'), scalar_const(v.imag, 'r'))
    if kind == 'i':
        return IX.const(int(v))
    return f_bool(bool(v))


def const_arr(v) -> Arr:
    v = np.asarray(v)
    kind = kind_of(v.dtype)
    if v.size == 1 or (v.size and (v == v.reshape(-1)[0]).all()):
        c = scalar_const(v.reshape(-1)[0], kind)
        return Arr(v.shape, kind, lambda *i: c, const=v)
    if v.ndim == 1 and kind == 'i' and v.size and (np.diff(v) == (v[1] - v[0])).all():
        a, b = int(v[0]), int(v[1] - v[0])
        return Arr(v.shape, kind, lambda i: i * b + a, const=v)
    name = 'C' + hashlib.sha1(v.tobytes() + str((v.shape, v.dtype)).encode()).hexdigest()[:10]
    if kind == 'i':
        ix.CONST_ARRAYS[name] = v
        CTX.int_ranges[name] = (to_ix(int(v.min())), to_ix(int(v.max()) + 1))
        return Arr(v.shape, kind, lambda *i: i_arr(name, i), const=v)
    if kind == 'b':
        def fb(*idx):
            hits = []
            for p in np.argwhere(v):
                hits.append(f_and(*[f_eq(a, int(q)) for a, q in zip(idx, p)]))
            return f_or(*hits)
        if v.sum() <= 64:
            return Arr(v.shape, kind, fb, const=v)
        raise Unsupported('large boolean constant')
    if kind == 'r':
        ix.REAL_CONST_ARRAYS[name] = v
        return Arr(v.shape, kind, lambda *i: r_in(name, i), const=v)
    ix.REAL_CONST_ARRAYS[name + 'r'] = v.real
    ix.REAL_CONST_ARRAYS[name + 'i'] = v.imag
    return Arr(v.shape, kind, lambda *i: CX(r_in(name + 'r', i), r_in(name + 'i', i)), const=v)


def input_arr(name, shape, dtype, int_range=None) -> Arr:
    kind = kind_of(dtype)
    if kind == 'r':
        return Arr(shape, kind, lambda *i: r_in(name, i))
    if kind == 'c':
        return Arr(shape, kind, lambda *i: CX(r_in(name + '.re', i), r_in(name + '.im', i)))
    if kind == 'i':
        if int_range is not None:
            CTX.int_ranges[name] = (to_ix(int_range[0]), to_ix(int_range[1]))
        return Arr(shape, kind, lambda *i: i_arr(name, i))
    return Arr(shape, kind, lambda *i: f_not(f_eq0(i_arr('b:' + name, i))))


# ---- real functions --------------------------------------------------------------


def sign_of(x: RX) -> RX:
    c = x.as_const()
    if c is not None:
        return RX.const((c > 0) - (c < 0))
    return r_fn('sign', x)


def abs_of(x: RX) -> RX:
    c = x.as_const()
    if c is not None:
        return RX.const(abs(c))
    return sign_of(x) * x


def pow_of(x: RX, y: RX) -> RX:
    c = y.as_const()
    if c is not None:
        return r_pow(x, c)
    cx = x.as_const()
    if cx == 1:
        return RX.const(1)
    # x^(y + c) = x^y x^c
    k0 = ((), frozenset(), ())
    if k0 in y.t:
        c = y.t[k0]
        rest = RX({k: v for k, v in y.t.items() if k != k0})
        return pow_of(x, rest) * r_pow(x, c)
    return r_fn('pow', x, y)


def r_unary(name):
    return lambda x: r_fn(name, x)


def c_exp(x: CX) -> CX:
    e = r_fn('exp', x.re)
    return CX(e * r_fn('cos', x.im), e * r_fn('sin', x.im))


def c_abs2(x: CX) -> RX:
    return x.re * x.re + x.im * x.im


def c_pow_int(x: CX, n: int) -> CX:
    if n < 0:
        return c_pow_int(x, -n).inv()
    r = CX(RX.const(1), RX({}))
    for _ in range(n):
        r = r * x
    return r


def c_opaque(name, *args: CX) -> CX:
    """An uninterpreted complex function: pair of real atoms."""
    flat = []
    for a in args:
        flat += [a.re, a.im]
    return CX(r_fn(name + '.re', *flat), r_fn(name + '.im', *flat))


# ---- evaluation --------------------------------------------------------------------


class Sem:
    def __init__(self):
        self.rules = RULES
        self.used = set()

    def eval_closed(self, cj: core.ClosedJaxpr, args):
        return self.eval(cj.jaxpr, [const_arr(c) for c in cj.consts], args)

    def eval(self, jaxpr, consts, args):
        env = {}

        def read(v):
            if isinstance(v, core.Literal):
                val = v.val
                if hasattr(val, 'dtype') or not hasattr(v.aval, 'dtype'):
                    return const_arr(val)
                return const_arr(np.asarray(val, dtype=v.aval.dtype))
            return env[v]

        for v, c in zip(jaxpr.constvars, consts):
            env[v] = c
        for v, a in zip(jaxpr.invars, args):
            env[v] = a
        for eqn in jaxpr.eqns:
            rule = self.rules.get(eqn.primitive.name)
            avs = [v.aval for v in eqn.outvars]
            if rule is None:
                # only an error if the value is needed
                name = eqn.primitive.name
                outs = [self._unsupported(av, name) for av in avs]
            else:
                ins = [read(v) for v in eqn.invars]
                outs = rule(self, eqn, ins)
                if not isinstance(outs, list):
                    outs = [outs]
            for v, o in zip(eqn.outvars, outs):
                env[v] = o
        return [read(v) for v in jaxpr.outvars]

    def _unsupported(self, av, name):
        def f(*i):
            raise Unsupported(f'primitive {name}')

        shape = tuple(dim_to_ix(d) for d in av.shape)
        return Arr(shape, kind_of(av.dtype), f)


RULES: dict = {}


def rule(*names):
    def deco(f):
        for n in names:
            RULES[n] = f
        return f

    return deco


def oshape(eqn, k=0):
    return tuple(dim_to_ix(d) for d in eqn.outvars[k].aval.shape)


def okind(eqn, k=0):
    return kind_of(eqn.outvars[k].aval.dtype)


def elementwise(eqn, ins, f):
    """All operands have the output shape or are scalars."""
    shape = oshape(eqn)
    kind = okind(eqn)

    def g(*idx):
        vals = []
        for a in ins:
            if a.ndim == 0:
                vals.append(a[()])
            else:
                vals.append(a[tuple(0 if (s.is_const() and s.cval() == 1) else i for s, i in zip(a.shape, idx))])
        return f(*vals)

    return Arr(shape, kind, g)


def _num(r=None, c=None, i=None):
    def fn(sem, eqn, ins):
        k = ins[0].kind
        f = {'r': r, 'c': c, 'i': i}.get(k)
        if f is None:
            name = eqn.primitive.name
            if k == 'c':
                f = lambda *a: c_opaque(name, *a)
            else:
                raise Unsupported(f'{name} on {k}')
        return elementwise(eqn, ins, f)

    return fn


add = lambda a, b: a + b
RULES['add'] = RULES['add_any'] = _num(add, add, add)
RULES['sub'] = _num(*[lambda a, b: a - b] * 3)
RULES['mul'] = _num(*[lambda a, b: a * b] * 3)
RULES['neg'] = _num(*[lambda a: -a] * 3)


def i_div_trunc(a, b):
    if a.is_const() and b.is_const():
        q = abs(a.cval()) // abs(b.cval())
        return IX.const(q if (a.cval() >= 0) == (b.cval() >= 0) else -q)
    if ge0(a) and ge0(b - 1):
        return i_floordiv(a, b)
    raise Unsupported('truncating division of possibly negative integers')


def i_rem(a, b):
    if a.is_const() and b.is_const():
        import math

        return IX.const(int(math.fmod(a.cval(), b.cval())))
    if ge0(a) and ge0(b - 1):
        return i_mod(a, b)
    raise Unsupported('remainder of possibly negative integers')


RULES['div'] = _num(
    lambda a, b: a * r_pow(b, Fraction(-1)), lambda a, b: a * b.inv(), i_div_trunc
)
RULES['rem'] = _num(lambda a, b: r_fn('rem', a, b), None, i_rem)


@rule('integer_pow')
def _(sem, eqn, ins):
    n = int(eqn.params['y'])

    def fi(a):
        r = IX.const(1)
        for _ in range(n):
            r = r * a
        return r

    return _num(lambda a: r_pow(a, Fraction(n)), lambda a: c_pow_int(a, n), fi)(sem, eqn, ins)


@rule('square')
def _(sem, eqn, ins):
    return _num(*[lambda a: a * a] * 3)(sem, eqn, ins)


@rule('pow')
def _(sem, eqn, ins):
    if ins[0].kind == 'c':
        raise Unsupported('complex pow')
    if ins[1].kind == 'i':
        return elementwise(eqn, ins, lambda a, b: pow_of(a, RX.from_ix(b)))
    return elementwise(eqn, ins, pow_of)


for _n in ('log', 'sin', 'cos', 'tan', 'tanh', 'sinh', 'cosh', 'asin', 'acos', 'atan',
           'asinh', 'acosh', 'atanh', 'erf', 'erfc', 'erf_inv', 'lgamma', 'digamma',
           'cbrt', 'floor', 'ceil', 'round', 'bessel_i0e', 'bessel_i1e', 'polygamma'):
    RULES[_n] = _num(r_unary(_n))

RULES['exp'] = _num(r_unary('exp'), c_exp)
RULES['sqrt'] = _num(lambda a: r_pow(a, HALF))
RULES['rsqrt'] = _num(lambda a: r_pow(a, -HALF))
RULES['expm1'] = _num(lambda a: r_fn('exp', a) - RX.const(1))
RULES['exp2'] = _num(r_unary('exp2'))
RULES['log1p'] = _num(lambda a: r_fn('log', RX.const(1) + a))
RULES['logistic'] = _num(lambda a: r_pow(RX.const(1) + r_fn('exp', -a), Fraction(-1)))
RULES['atan2'] = _num(lambda a, b: r_fn('atan2', a, b))
RULES['nextafter'] = _num(lambda a, b: r_fn('nextafter', a, b))


@rule('sign')
def _(sem, eqn, ins):
    def fi(a):
        return i_ite(f_ge(a - 1), IX.const(1), i_ite(f_eq0(a), IX({}), IX.const(-1)))

    def fc(a):
        n = r_pow(c_abs2(a), -HALF)
        return CX(a.re * n, a.im * n)

    return _num(sign_of, fc, fi)(sem, eqn, ins)


@rule('abs')
def _(sem, eqn, ins):
    return _num(abs_of, lambda a: r_pow(c_abs2(a), HALF), lambda a: i_ite(f_ge(a), a, -a))(sem, eqn, ins)


@rule('max')
def _(sem, eqn, ins):
    if ins[0].kind == 'b':
        return elementwise(eqn, ins, f_or)
    return _num(lambda a, b: v_ite(f_rlt(a - b), b, a), None, lambda a, b: i_ite(f_ge(a - b), a, b))(sem, eqn, ins)


@rule('min')
def _(sem, eqn, ins):
    if ins[0].kind == 'b':
        return elementwise(eqn, ins, f_and)
    return _num(lambda a, b: v_ite(f_rlt(b - a), b, a), None, lambda a, b: i_ite(f_ge(a - b), b, a))(sem, eqn, ins)


@rule('clamp')
def _(sem, eqn, ins):
    if ins[1].kind == 'i':
        f = lambda lo, x, hi: _imin(_imax(x, lo), hi)
    else:
        f = lambda lo, x, hi: v_ite(f_rlt(x - lo), lo, v_ite(f_rlt(hi - x), hi, x))
    return elementwise(eqn, ins, f)


def _imin(a, b):
    a, b = to_ix(a), to_ix(b)
    return i_ite(f_ge(b - a), a, b)


def _imax(a, b):
    a, b = to_ix(a), to_ix(b)
    return i_ite(f_ge(a - b), a, b)


def _cmp(fi, fr, fb=None, fc=None):
    def fn(sem, eqn, ins):
        k = ins[0].kind
        f = {'i': fi, 'r': fr, 'b': fb, 'c': fc}[k]
        if f is None:
            raise Unsupported(f'{eqn.primitive.name} on {k}')
        return elementwise(eqn, ins, f)

    return fn


def _iff(a, b):
    return f_or(f_and(a, b), f_and(f_not(a), f_not(b)))


RULES['lt'] = _cmp(f_lt, lambda a, b: f_rlt(a - b), lambda a, b: f_and(f_not(a), b))
RULES['gt'] = _cmp(lambda a, b: f_lt(b, a), lambda a, b: f_rlt(b - a), lambda a, b: f_and(f_not(b), a))
RULES['ge'] = _cmp(lambda a, b: f_ge(a - b), lambda a, b: f_not(f_rlt(a - b)))
RULES['le'] = _cmp(lambda a, b: f_ge(b - a), lambda a, b: f_not(f_rlt(b - a)))
_ceq = lambda a, b: f_and(f_req(a.re - b.re), f_req(a.im - b.im))
RULES['eq'] = _cmp(f_eq, lambda a, b: f_req(a - b), _iff, _ceq)
RULES['ne'] = _cmp(lambda a, b: f_not(f_eq(a, b)), lambda a, b: f_not(f_req(a - b)), lambda a, b: f_not(_iff(a, b)), lambda a, b: f_not(_ceq(a, b)))


def _bits(name, fb):
    @rule(name)
    def _(sem, eqn, ins):
        if ins[0].kind != 'b':
            raise Unsupported(f'bitwise {name}')
        return elementwise(eqn, ins, fb)


_bits('and', f_and)
_bits('or', f_or)
_bits('not', f_not)
_bits('xor', lambda a, b: f_not(_iff(a, b)))


@rule('is_finite')
def _(sem, eqn, ins):
    return elementwise(eqn, ins, lambda a: TRUE)


@rule('select_n')
def _(sem, eqn, ins):
    p, cases = ins[0], ins[1:]

    def f(c, *vs):
        if p.kind == 'b':
            if len(vs) == 1:
                return vs[0]
            return v_ite(c, vs[1], vs[0])
        r = vs[-1]
        for k in range(len(vs) - 2, -1, -1):
            r = v_ite(f_eq(c, k), vs[k], r)
        return r

    return elementwise(eqn, ins, f)


@rule('convert_element_type')
def _(sem, eqn, ins):
    s, d = ins[0].kind, okind(eqn)
    return elementwise(eqn, ins, lambda a: convert(a, s, d))


def convert(a, s, d):
    if s == d:
        return a
    if s == 'b':
        if d == 'i':
            return i_ite(a, IX.const(1), IX({}))
        if d == 'r':
            return RX.indicator(a)
        return CX(RX.indicator(a), RX({}))
    if s == 'i':
        if d == 'r':
            return RX.from_ix(a)
        if d == 'c':
            return CX(RX.from_ix(a), RX({}))
        return f_not(f_eq0(a))
    if s == 'r':
        if d == 'c':
            return CX(a, RX({}))
        if d == 'b':
            return f_not(f_req(a))
        c = a.as_const()
        if c is not None:
            return IX.const(int(c))
        return IX.atom(('ifn', 'trunc', (a,)))
    if s == 'c':
        if d == 'r':
            return a.re
        if d == 'b':
            return f_not(f_and(f_req(a.re), f_req(a.im)))
    raise Unsupported(f'conversion {s}->{d}')


@rule('copy', 'copy_p', 'stop_gradient', 'reduce_precision', 'optimization_barrier', 'device_put', 'sharding_constraint')
def _(sem, eqn, ins):
    return list(ins) if len(eqn.outvars) > 1 else ins[0]


@rule('real')
def _(sem, eqn, ins):
    return elementwise(eqn, ins, lambda a: a.re)


@rule('imag')
def _(sem, eqn, ins):
    return elementwise(eqn, ins, lambda a: a.im)


@rule('complex')
def _(sem, eqn, ins):
    return elementwise(eqn, ins, CX)


@rule('conj')
def _(sem, eqn, ins):
    if ins[0].kind == 'r':
        return elementwise(eqn, ins, lambda a: CX(a, RX({})))
    return elementwise(eqn, ins, lambda a: a.conj())


# ---- structure ---------------------------------------------------------------------


@rule('broadcast_in_dim')
def _(sem, eqn, ins):
    x = ins[0]
    bd = [int(d) for d in eqn.params['broadcast_dimensions']]
    shape = oshape(eqn)

    def f(*idx):
        return x[tuple(0 if (x.shape[k].is_const() and x.shape[k].cval() == 1) else idx[d] for k, d in enumerate(bd))]

    return Arr(shape, x.kind, f)


def _is1(s):
    return s.is_const() and s.cval() == 1


def unflatten_map(out, inn):
    """Index map of a reshape, grouped into minimal blocks of equal size."""
    out, inn = list(out), list(inn)
    i = j = 0
    groups = []
    while i < len(out) or j < len(inn):
        a, b = [], []
        pa, pb = IX.const(1), IX.const(1)
        # consume ones
        if i < len(out) and _is1(out[i]):
            groups.append(([i], []))
            i += 1
            continue
        if j < len(inn) and _is1(inn[j]):
            groups.append(([], [j]))
            j += 1
            continue
        if i >= len(out) or j >= len(inn):
            raise Unsupported('reshape of unequal sizes')
        a.append(i)
        b.append(j)
        pa, pb = out[i], inn[j]
        i, j = i + 1, j + 1
        while pa != pb:
            # extend the side that divides the other
            q, r = ix._divide(pb, pa)
            if q is not None and not r.t and i < len(out):
                pa = pa * out[i]
                a.append(i)
                i += 1
                continue
            q, r = ix._divide(pa, pb)
            if q is not None and not r.t and j < len(inn):
                pb = pb * inn[j]
                b.append(j)
                j += 1
                continue
            if i < len(out) and len(a) <= len(b):
                pa = pa * out[i]
                a.append(i)
                i += 1
            elif j < len(inn):
                pb = pb * inn[j]
                b.append(j)
                j += 1
            elif i < len(out):
                pa = pa * out[i]
                a.append(i)
                i += 1
            else:
                raise Unsupported(f'reshape {out} <- {inn}')
        groups.append((a, b))

    def f(idx):
        res = [None] * len(inn)
        for a, b in groups:
            if not b:
                continue
            if not a:
                res[b[0]] = IX.const(0)
                continue
            if len(a) == 1 and len(b) == 1:
                res[b[0]] = to_ix(idx[a[0]])
                continue
            flat = IX({})
            for k in a:
                flat = flat * out[k] + idx[k]
            for n, k in enumerate(reversed(b)):
                if n == len(b) - 1:
                    res[k] = flat
                else:
                    res[k] = i_mod(flat, inn[k])
                    flat = i_floordiv(flat, inn[k])
        return tuple(res)

    return f


@rule('reshape')
def _(sem, eqn, ins):
    x = ins[0]
    if eqn.params.get('dimensions') is not None:
        perm = [int(p) for p in eqn.params['dimensions']]
        src = x

        def tr(*idx):
            r = [None] * len(perm)
            for k, p in enumerate(perm):
                r[p] = idx[k]
            return src[tuple(r)]

        x = Arr(tuple(src.shape[p] for p in perm), src.kind, tr)
    shape = oshape(eqn)
    m = unflatten_map(shape, x.shape)
    return Arr(shape, x.kind, lambda *idx: x[m(idx)])


@rule('squeeze')
def _(sem, eqn, ins):
    x = ins[0]
    dims = {int(d) % x.ndim for d in eqn.params['dimensions']}

    def f(*idx):
        it = iter(idx)
        return x[tuple(0 if k in dims else next(it) for k in range(x.ndim))]

    return Arr(oshape(eqn), x.kind, f)


@rule('expand_dims')
def _(sem, eqn, ins):
    x = ins[0]
    shape = oshape(eqn)
    dims = {int(d) % len(shape) for d in eqn.params['dimensions']}
    return Arr(shape, x.kind, lambda *idx: x[tuple(i for k, i in enumerate(idx) if k not in dims)])


@rule('transpose')
def _(sem, eqn, ins):
    x = ins[0]
    perm = [int(p) for p in eqn.params['permutation']]

    def f(*idx):
        r = [None] * len(perm)
        for k, p in enumerate(perm):
            r[p] = idx[k]
        return x[tuple(r)]

    return Arr(oshape(eqn), x.kind, f)


@rule('rev')
def _(sem, eqn, ins):
    x = ins[0]
    dims = {int(d) for d in eqn.params['dimensions']}
    return Arr(x.shape, x.kind, lambda *idx: x[tuple(x.shape[k] - 1 - i if k in dims else i for k, i in enumerate(idx))])


@rule('concatenate')
def _(sem, eqn, ins):
    d = int(eqn.params['dimension'])
    shape = oshape(eqn)
    offs = [IX({})]
    for a in ins:
        offs.append(offs[-1] + a.shape[d])

    def f(*idx):
        r = None
        for k in range(len(ins) - 1, -1, -1):
            i = idx[d]
            sub = lambda k=k: ins[k][tuple(idx[:d]) + (i - offs[k],) + tuple(idx[d + 1:])]
            if r is None:
                if len(ins) > 1 and f_ge(i - offs[k]) == FALSE:
                    r = False
                else:
                    r = sub()
                continue
            c = f_lt(i, offs[k + 1])
            if c == FALSE:
                continue
            if r is False or c == TRUE:
                r = sub()
            else:
                r = v_ite(c, sub(), r)
        return r

    return Arr(shape, ins[0].kind, f)


@rule('pad')
def _(sem, eqn, ins):
    x, pv = ins
    cfg = [tuple(dim_to_ix(c) for c in cc) for cc in eqn.params['padding_config']]

    def f(*idx):
        src, g = [], TRUE
        for i, (lo, hi, it), s in zip(idx, cfg, x.shape):
            if not it.is_const():
                raise Unsupported('symbolic interior padding')
            step = it.cval() + 1
            j = i - lo
            if step > 1:
                g = f_and(g, f_eq0(i_mod(j, IX.const(step))))
                j = i_floordiv(j, IX.const(step))
            g = f_and(g, f_ge(j), f_lt(j, s))
            src.append(j)
        if g == FALSE:
            return pv[()]
        return v_ite(g, x[tuple(src)], pv[()])

    return Arr(oshape(eqn), x.kind, f)


@rule('slice')
def _(sem, eqn, ins):
    x = ins[0]
    st = [dim_to_ix(int(s) if isinstance(s, (int, np.integer)) else s) for s in eqn.params['start_indices']]
    sr = eqn.params['strides'] or [1] * x.ndim
    sr = [dim_to_ix(int(s) if isinstance(s, (int, np.integer)) else s) for s in sr]
    return Arr(oshape(eqn), x.kind, lambda *idx: x[tuple(i * s + a for i, s, a in zip(idx, sr, st))])


@rule('split')
def _(sem, eqn, ins):
    x = ins[0]
    ax = int(eqn.params['axis'])
    off = IX({})
    outs = []
    for k, s in enumerate(eqn.params['sizes']):
        o = off
        outs.append(Arr(oshape(eqn, k), x.kind, lambda *idx, o=o: x[tuple(i + o if n == ax else i for n, i in enumerate(idx))]))
        off = off + dim_to_ix(s)
    return outs


def _clamp_start(s, dim, size):
    return _imin(_imax(s, 0), dim - size)


@rule('dynamic_slice')
def _(sem, eqn, ins):
    x, starts = ins[0], ins[1:]
    shape = oshape(eqn)
    starts = starts[: x.ndim]

    def f(*idx):
        st = [_clamp_start(s[()], d, z) for s, d, z in zip(starts, x.shape, shape)]
        return x[tuple(i + s for i, s in zip(idx, st))]

    return Arr(shape, x.kind, f)


@rule('dynamic_update_slice')
def _(sem, eqn, ins):
    x, u, starts = ins[0], ins[1], ins[2:]

    def f(*idx):
        st = [_clamp_start(s[()], d, z) for s, d, z in zip(starts, x.shape, u.shape)]
        g = f_and(*[f_and(f_ge(i - s), f_lt(i - s, z)) for i, s, z in zip(idx, st, u.shape)])
        if g == FALSE:
            return x[idx]
        return v_ite(g, u[tuple(i - s for i, s in zip(idx, st))], x[idx])

    return Arr(x.shape, x.kind, f)


@rule('iota')
def _(sem, eqn, ins):
    d = int(eqn.params['dimension'])
    kind = okind(eqn)
    return Arr(oshape(eqn), kind, lambda *idx: convert(to_ix(idx[d]), 'i', kind))


@rule('dim_as_value')
def _(sem, eqn, ins):
    v = dim_to_ix(eqn.params['dim'])
    return Arr((), 'i', lambda: v)


@rule('empty', 'broadcast')
def _(sem, eqn, ins):
    raise Unsupported(eqn.primitive.name)


# ---- gather / scatter ------------------------------------------------------------------

from jax.lax import GatherScatterMode as GSM  # noqa: E402


@rule('gather')
def _(sem, eqn, ins):
    x, si = ins
    p = eqn.params
    dn = p['dimension_numbers']
    sizes = [dim_to_ix(s) for s in p['slice_sizes']]
    mode = GSM.from_any(p['mode']) if not isinstance(p['mode'], GSM) else p['mode']
    off = [int(o) for o in dn.offset_dims]
    coll = {int(c) for c in dn.collapsed_slice_dims}
    obd = [int(c) for c in dn.operand_batching_dims]
    sbd = [int(c) for c in dn.start_indices_batching_dims]
    sim = [int(c) for c in dn.start_index_map]
    shape = oshape(eqn)
    fill = p.get('fill_value')
    window_dims = [d for d in range(x.ndim) if d not in coll and d not in obd]

    def f(*idx):
        batch = [idx[k] for k in range(len(shape)) if k not in off]
        full = [IX({})] * x.ndim
        g = TRUE
        for k, d in enumerate(sim):
            s = si[tuple(batch) + (k,)]
            if mode == GSM.CLIP:
                s = _clamp_start(s, x.shape[d], sizes[d])
            elif mode == GSM.FILL_OR_DROP:
                g = f_and(g, f_ge(s), f_ge(x.shape[d] - sizes[d] - s))
            full[d] = s
        for d, b in zip(obd, sbd):
            full[d] = batch[b]
        for d, o in zip(window_dims, off):
            full[d] = full[d] + idx[o]
        if g == FALSE:
            return fillv()
        v = x[tuple(full)]
        if g == TRUE:
            return v
        return v_ite(g, v, fillv())

    def fillv():
        if fill is None:
            return scalar_const(np.nan, 'r') if x.kind == 'r' else zero_of(x.kind)
        return scalar_const(np.asarray(fill).astype(float) if x.kind == 'r' else fill, x.kind)

    return Arr(shape, x.kind, f)


def _distinct(si, n):
    """All index vectors are known constants and pairwise different."""
    shape = si.shape[:-1]
    if not all(s.is_const() for s in shape):
        return False
    seen = set()
    for b in np.ndindex(*[s.cval() for s in shape]):
        t = tuple(si[tuple(IX.const(i) for i in b) + (IX.const(k),)] for k in range(n))
        if not all(isinstance(i, IX) and i.is_const() for i in t):
            return False
        t = tuple(i.cval() for i in t)
        if t in seen:
            return False
        seen.add(t)
    return True


def _scatter(combine):
    def fn(sem, eqn, ins):
        x, si, u = ins
        p = eqn.params
        dn = p['dimension_numbers']
        mode = GSM.from_any(p['mode']) if not isinstance(p['mode'], GSM) else p['mode']
        uwd = [int(c) for c in dn.update_window_dims]
        iwd = {int(c) for c in dn.inserted_window_dims}
        obd = [int(c) for c in dn.operand_batching_dims]
        sbd = [int(c) for c in dn.scatter_indices_batching_dims]
        s2o = [int(c) for c in dn.scatter_dims_to_operand_dims]
        window_dims = [d for d in range(x.ndim) if d not in iwd and d not in obd]
        wsize = [IX.const(1)] * x.ndim
        for d, w in zip(window_dims, uwd):
            wsize[d] = u.shape[w]
        bdims = [k for k in range(u.ndim) if k not in uwd]
        uniq = eqn.params['unique_indices'] or all(_is1(u.shape[k]) for k in bdims) or (
            mode != GSM.CLIP and all(_is1(wsize[d]) for d in s2o) and _distinct(si, len(s2o))
        )

        def f(*idx):
            uv = list(fresh_idx(u.shape))
            batch = [uv[k] for k in bdims]
            full = [IX({})] * x.ndim
            g = TRUE
            for k, d in enumerate(s2o):
                s = si[tuple(batch) + (k,)]
                if mode == GSM.CLIP:
                    s = _clamp_start(s, x.shape[d], wsize[d])
                elif mode == GSM.FILL_OR_DROP:
                    g = f_and(g, f_ge(s), f_ge(x.shape[d] - wsize[d] - s))
                full[d] = s
            for d, b in zip(obd, sbd):
                full[d] = batch[b]
            for d, w in zip(window_dims, uwd):
                full[d] = full[d] + uv[w]
            for a, b in zip(idx, full):
                g = f_and(g, f_eq(a, b))
            return combine(x[tuple(idx)], u, uv, g, uniq, x.kind)

        return Arr(x.shape, x.kind, f)

    return fn


def sum_over(uv, shape, val):
    if isinstance(val, CX):
        return CX(sum_over(uv, shape, val.re), sum_over(uv, shape, val.im))
    for v, s in zip(uv, shape):
        val = val if v.is_const() else r_sum(v, s, val)
    return val


def _sc_add(xv, u, uv, g, uniq, kind):
    if kind not in 'rc':
        raise Unsupported('integer scatter-add')
    if g == FALSE:
        return xv
    return xv + sum_over(uv, u.shape, u[tuple(uv)].guard(g))


def _exists(uv, shape, g):
    for v, s in zip(uv, shape):
        g = g if v.is_const() else f_exists(v, s, g)
    return g


def _sc_set(xv, u, uv, g, uniq, kind):
    if g == FALSE:
        return xv
    if not uniq:
        raise Unsupported('scatter with possibly repeated indices')
    hit = _exists(uv, u.shape, g)
    if kind not in 'rc':
        raise Unsupported('integer scatter')
    val = sum_over(uv, u.shape, u[tuple(uv)].guard(g))
    return v_guard(xv, f_not(hit)) + val


RULES['scatter-add'] = RULES['scatter_add'] = _scatter(_sc_add)
RULES['scatter'] = _scatter(_sc_set)


# ---- reductions -------------------------------------------------------------------------


def _split_axes(eqn, ins):
    x = ins[0]
    axes = [int(a) for a in eqn.params['axes']]
    keep = [k for k in range(x.ndim) if k not in axes]
    return x, axes, keep


def _reduce(eqn, ins, body):
    x, axes, keep = _split_axes(eqn, ins)
    shape = oshape(eqn)
    if not axes:
        return x

    def f(*idx):
        full = [None] * x.ndim
        for k, i in zip(keep, idx):
            full[k] = i
        vs, sizes = [], []
        for a in axes:
            full[a] = CTX.fresh(x.shape[a])
            vs.append(full[a])
            sizes.append(x.shape[a])
        return body(x, tuple(full), vs, sizes)

    return Arr(shape, okind(eqn), f)


@rule('reduce_sum')
def _(sem, eqn, ins):
    def body(x, full, vs, sizes):
        if x.kind == 'i':
            return int_sum(vs, sizes, x[full])
        return sum_over(vs, sizes, x[full])

    return _reduce(eqn, ins, body)


def int_sum(vs, sizes, v: IX):
    fv = v.fv()
    r = v
    if not any(ix._var_id(a) in fv for a in vs):
        for s in sizes:
            r = r * s
        return r
    if all(s.is_const() and s.cval() <= 8 for s in sizes):
        for a, s in zip(vs, sizes):
            acc = IX({})
            for k in range(s.cval()):
                acc = acc + ix.subst(r, {ix._var_id(a): IX.const(k)})
            r = acc
        return r
    return IX.atom(('isum', 'sum', tuple(ix._var_id(a) for a in vs), tuple(sizes), RX.from_ix(v)))


def _red_atom(op):
    def fn(sem, eqn, ins):
        def body(x, full, vs, sizes):
            if x.kind == 'r':
                if all(s.is_const() and s.cval() <= 4 for s in sizes):
                    vals = [x[full]]
                    for a, s in zip(vs, sizes):
                        vals = [ix.subst(v, {ix._var_id(a): IX.const(k)}) for v in vals for k in range(s.cval())]
                    r = vals[0]
                    for v in vals[1:]:
                        if op == 'max':
                            r = v_ite(f_rlt(r - v), v, r)
                        elif op == 'min':
                            r = v_ite(f_rlt(v - r), v, r)
                        else:
                            r = r * v
                    return r
                return RX.atom(('red', op, tuple(ix._var_id(a) for a in vs), tuple(sizes), x[full].canon()))
            if x.kind == 'b' and op in ('or', 'and'):
                g = x[full]
                if op == 'and':
                    return f_not(_exists(vs, sizes, f_not(g)))
                return _exists(vs, sizes, g)
            raise Unsupported(f'reduce_{op} on {x.kind}')

        return _reduce(eqn, ins, body)

    return fn


for _n in ('max', 'min', 'prod', 'or', 'and'):
    RULES['reduce_' + _n] = _red_atom(_n)


@rule('argmax', 'argmin')
def _(sem, eqn, ins):
    op = eqn.primitive.name

    def body(x, full, vs, sizes):
        if x.kind == 'b' and op == 'argmax':
            if sizes[0].is_const() and sizes[0].cval() <= CTX.unroll:
                r = IX({})
                for i in reversed(range(sizes[0].cval())):
                    full2 = tuple(ix.subst(q, {ix._var_id(vs[0]): IX.const(i)}) if isinstance(q, IX) else q for q in full)
                    r = ix.i_ite(x[full2], IX.const(i), r)
                return r
            return IX.atom(('amax', ix._var_id(vs[0]), sizes[0], x[full]))
        raise Unsupported(op)

    return _reduce(eqn, ins, body)


@rule('cumsum')
def _(sem, eqn, ins):
    x = ins[0]
    ax, rev = int(eqn.params['axis']), eqn.params['reverse']
    if x.kind not in 'rc':
        raise Unsupported('integer cumsum')

    def f(*idx):
        v = CTX.fresh(x.shape[ax])
        g = f_ge(v - idx[ax]) if rev else f_ge(to_ix(idx[ax]) - v)
        return sum_over([v], [x.shape[ax]], x[tuple(idx[:ax]) + (v,) + tuple(idx[ax + 1:])].guard(g))

    return Arr(x.shape, x.kind, f)


@rule('dot_general')
def _(sem, eqn, ins):
    a, b = ins
    (lc, rc), (lb, rb) = eqn.params['dimension_numbers']
    lc, rc, lb, rb = ([int(i) for i in q] for q in (lc, rc, lb, rb))
    lf = [k for k in range(a.ndim) if k not in lc and k not in lb]
    rf = [k for k in range(b.ndim) if k not in rc and k not in rb]
    kind = okind(eqn)

    def f(*idx):
        ia, ib = [None] * a.ndim, [None] * b.ndim
        it = iter(idx)
        for k, m in zip(lb, rb):
            ia[k] = ib[m] = next(it)
        for k in lf:
            ia[k] = next(it)
        for k in rf:
            ib[k] = next(it)
        vs, sizes = [], []
        for k, m in zip(lc, rc):
            v = CTX.fresh(a.shape[k])
            vs.append(v)
            sizes.append(a.shape[k])
            ia[k] = ib[m] = v
        x = convert(a[tuple(ia)], a.kind, kind)
        y = convert(b[tuple(ib)], b.kind, kind)
        if kind == 'i':
            return int_sum(vs, sizes, x * y)
        return sum_over(vs, sizes, x * y)

    return Arr(oshape(eqn), kind, f)


# ---- calls ----------------------------------------------------------------------------------


@rule('pjit', 'closed_call', 'core_call', 'remat', 'checkpoint')
def _(sem, eqn, ins):
    j = eqn.params['jaxpr']
    if isinstance(j, core.ClosedJaxpr):
        return list(sem.eval_closed(j, ins))
    return list(sem.eval(j, [], ins))


@rule('custom_jvp_call', 'custom_vjp_call')
def _(sem, eqn, ins):
    return list(sem.eval_closed(eqn.params.get('call_jaxpr') or eqn.params['fun_jaxpr'], ins))


@rule('custom_vjp_call_jaxpr')
def _(sem, eqn, ins):
    return list(sem.eval_closed(eqn.params['fun_jaxpr'], ins))


@rule('custom_lin', 'linear_call')
def _(sem, eqn, ins):
    raise Unsupported(eqn.primitive.name)


def _take(a: Arr, i):
    return Arr(a.shape[1:], a.kind, lambda *idx: a[(i,) + idx])


def _scan_map(sem, eqn, consts, xs):
    """A scan without carry: every step on its own."""
    p = eqn.params
    steps = {}

    def step(i):
        if i not in steps:
            steps[i] = sem.eval_closed(p['jaxpr'], list(consts) + [_take(x, i) for x in xs])
        return steps[i]

    return [
        Arr(oshape(eqn, k), okind(eqn, k), lambda i, *idx, k=k: step(i)[k][idx]) for k in range(len(eqn.outvars))
    ]


ROUNDS = 13


def _scan_symbolic(sem, eqn, length, consts, carry, xs):
    """Loops of arbitrary length.

    Integer carries must be counters (carry + constant in every step): closed form.  Real and
    complex carries become sequences  rec:<name>(t, index), the value before step t, where the
    name identifies the recurrence: two carries get the same name only if their initial values
    and, by induction over the steps, their updates have the same normal form."""
    p = eqn.params
    nk = p['num_carry']
    real = [k for k, c in enumerate(carry) if c.kind in 'rc']
    ints = [k for k, c in enumerate(carry) if c.kind == 'i' and not c.shape]
    if len(real) + len(ints) != nk or len(real) > ROUNDS // 2:
        raise Unsupported('scan of symbolic length')
    t = CTX.fresh(length)
    pos = length - 1 - t if p['reverse'] else t
    names = {k: f'@c{k}' for k in real}

    def placeholder(k, nm):
        kind = carry[k].kind
        if kind == 'r':
            return Arr(carry[k].shape, kind, lambda *i: r_in(nm, i))
        return Arr(carry[k].shape, kind, lambda *i: CX(r_in(nm + '.re', i), r_in(nm + '.im', i)))

    def body(cs):
        return sem.eval_closed(p['jaxpr'], list(consts) + cs + [_take(x, pos) for x in xs])

    # counters
    inc = {}
    if ints:
        vs = {k: CTX.fresh(length) for k in ints}
        out = body([const_ix(vs[k]) if k in vs else placeholder(k, names[k]) for k in range(nk)])
        for k in ints:
            dlt = out[k][()] - vs[k]
            if dlt.fv() or any(_atoms_of(dlt)):
                raise Unsupported('scan of symbolic length')
            inc[k] = dlt

    def counter(k, t):
        return const_ix(carry[k][()] + inc[k] * t)

    def keys(x):
        from . import decide

        idx = list(fresh_idx(x.shape))
        env = {ix._var_id(v): f'#{j}' for j, v in enumerate(idx) if not v.is_const()}
        env[ix._var_id(t)] = '#t'
        v = x[tuple(idx)]
        out = []
        for r in [v.re, v.im] if isinstance(v, CX) else [v]:
            r = decide.rewrite(r.canon()).canon()
            if r.fv() - env.keys():
                raise Unsupported('scan of symbolic length inside a mapped function')
            out.append(r.key(env))
        return '&'.join(out) + repr([str(z) for z in x.shape])

    def h(*parts):
        return hashlib.sha1('|'.join(parts).encode()).hexdigest()[:16]

    color = {k: h('init', keys(carry[k])) for k in real}
    init = dict(color)
    for _ in range(ROUNDS if real else 0):
        out = body([counter(k, t) if k in inc else placeholder(k, '@' + color[k]) for k in range(nk)])
        color = {k: h('step', init[k], str(length), keys(out[k])) for k in real}

    def at(t):
        def seq(k):
            if k in inc:
                return counter(k, t)
            if t.is_const() and t.cval() == 0:
                return carry[k]
            nm = 'rec:' + color[k]
            if carry[k].kind == 'r':
                return Arr(carry[k].shape, 'r', lambda *i: ix.r_deriv(nm, (), (t, *i), ()))
            return Arr(carry[k].shape, 'c', lambda *i: CX(ix.r_deriv(nm + '.re', (), (t, *i), ()), ix.r_deriv(nm + '.im', (), (t, *i), ())))

        return [seq(k) for k in range(nk)]

    steps = {}

    def step(i):
        if i not in steps:
            n = length - 1 - i if p['reverse'] else i
            steps[i] = sem.eval_closed(p['jaxpr'], list(consts) + at(n) + [_take(x, i) for x in xs])
        return steps[i]

    return at(length) + [
        Arr(oshape(eqn, k), okind(eqn, k), lambda i, *idx, k=k: step(i)[k][idx]) for k in range(nk, len(eqn.outvars))
    ]


def _atoms_of(p):
    return [a for a in p.atoms() if ix._atoms[a][0] not in 'dv']


def const_ix(v):
    return Arr((), 'i', lambda: v)


@rule('scan')
def _(sem, eqn, ins):
    p = eqn.params
    length = dim_to_ix(p['length'])
    nc, nk = p['num_consts'], p['num_carry']
    consts, carry, xs = ins[:nc], list(ins[nc:nc + nk]), ins[nc + nk:]
    if nk == 0:
        return _scan_map(sem, eqn, consts, xs)
    if not length.is_const() or length.cval() > 6:
        return _scan_symbolic(sem, eqn, length, consts, carry, xs)
    n = length.cval()
    ys = {}
    order = range(n - 1, -1, -1) if p['reverse'] else range(n)
    for t in order:
        out = sem.eval_closed(p['jaxpr'], list(consts) + carry + [_take(x, IX.const(t)) for x in xs])
        carry, ys[t] = list(out[:nk]), out[nk:]
    outs = carry
    for k in range(len(eqn.outvars) - nk):
        def f(i, *idx, k=k):
            if i.is_const():
                return ys[i.cval()][k][idx]
            r = ys[n - 1][k][idx]
            for t in range(n - 2, -1, -1):
                r = v_ite(f_eq(i, t), ys[t][k][idx], r)
            return r
        outs.append(Arr(oshape(eqn, nk + k), okind(eqn, nk + k), f))
    return outs


@rule('cond')
def _(sem, eqn, ins):
    br = eqn.params['branches']
    c, args = ins[0][()], ins[1:]
    if isinstance(c, IX) and c.is_const():
        return list(sem.eval_closed(br[max(0, min(c.cval(), len(br) - 1))], args))
    outs = [sem.eval_closed(b, args) for b in br]
    res = []
    for k in range(len(eqn.outvars)):
        def f(*idx, k=k):
            r = outs[-1][k][idx]
            for n in range(len(br) - 2, -1, -1):
                cc = f_eq(c, n) if isinstance(c, IX) else (f_not(c) if n == 0 else c)
                r = v_ite(cc, outs[n][k][idx], r)
            return r
        res.append(Arr(oshape(eqn, k), okind(eqn, k), f))
    return res

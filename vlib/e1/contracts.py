"""The contracts, grouped by property."""
from __future__ import annotations

import jax
import jax.numpy as jnp
import numpy as np

from . import uf
from .contract import Contract, I
from .lib import IS, fl, inexact, second_order, triples

L = jax.lax
A = dict(a=2)
AB = dict(a=2, b=2)
ABC = dict(a=2, b=2, c=2)
POS = (0.2, 0.9)

UNARY = dict(
    neg=L.neg, sin=L.sin, cos=L.cos, tan=L.tan, tanh=L.tanh, asin=L.asin, acos=L.acos, atan=L.atan,
    sinh=L.sinh, cosh=L.cosh, asinh=L.asinh, atanh=L.atanh,
    exp=L.exp, expm1=L.expm1, exp2=L.exp2, log=L.log, log1p=L.log1p, sqrt=L.sqrt, rsqrt=L.rsqrt, cbrt=L.cbrt,
    logistic=L.logistic, erf=L.erf, erfc=L.erfc, abs=L.abs, square=L.square,
    pow2=lambda x: L.integer_pow(x, 2), pow3=lambda x: L.integer_pow(x, 3), pow5=lambda x: L.integer_pow(x, 5),
    powm1=lambda x: L.integer_pow(x, -1), powm2=lambda x: L.integer_pow(x, -2),
    sigmoid=jax.nn.sigmoid, silu=jax.nn.silu, softplus=jax.nn.softplus, relu=jax.nn.relu, gelu=jax.nn.gelu,
    elu=jax.nn.elu, log_sigmoid=jax.nn.log_sigmoid, softsign=jax.nn.soft_sign,
    reciprocal=jnp.reciprocal, clip=lambda x: jnp.clip(x, 0.3, 0.6),
    halfpow=lambda x: x ** 0.5, powr=lambda x: x ** 2.7, two_to=lambda x: 2.0 ** x,
)
BINARY = dict(
    add=L.add, sub=L.sub, mul=L.mul, div=L.div, pow=L.pow, atan2=L.atan2, max=L.max, min=L.min,
    logaddexp=jnp.logaddexp, hypot=lambda x, y: jnp.sqrt(x * x + y * y),
)


def c03(tier):
    out = []
    for n, f in UNARY.items():
        out.append(fl(f'E1/unary/{n}', lambda d, x, f=f: f(x), [('a', 'b')], AB, dom=POS, weight=3))
    pats = dict(LR=[True, True], L=[True, False], R=[False, True])
    for n, f in BINARY.items():
        for pn, deps in pats.items():
            out.append(fl(f'E1/binary/{n}/{pn}', lambda d, x, y, f=f: f(x, y), [('a', 'b')] * 2, AB, deps=deps, dom=POS, weight=3))
        out.append(fl(f'E1/binary/{n}/same', lambda d, x, f=f: f(x, x * x + 1.0), [('a',)], A, dom=POS, weight=2))
    # an arbitrary smooth elementwise function, all ranks
    g1, g2, g3 = uf.elementwise('g', 1), uf.elementwise('g', 2), uf.elementwise('g', 3)
    for r, sh in dict(r0=(), r1=('a',), r2=('a', 'b'), r3=('a', 'b', 'c'), r2one=(1, 'b'), r3one=('a', 1, 'c'), ones=(1, 1)).items():
        lbs = {n: 2 for n in sh if isinstance(n, str)}
        out.append(fl(f'E1/any-unary-unregistered/{r}', lambda d, x: g1(x), [sh], lbs, weight=4))
        out.append(fl(f'E1/any-binary-unregistered/{r}', lambda d, x, y: g2(x, y), [sh, sh], lbs, weight=6))
    out.append(fl('E1/any-ternary-unregistered', lambda d, x, y, z: g3(x, y, z), [('a',)] * 3, A, weight=8))
    # the wrapper with elementwise axes, as used by the registry and by user rules
    from folx import wrap_forward_laplacian

    for r, sh in dict(r0=(), r1=('a',), r2=('a', 'b'), r3=('a', 'b', 'c'), r2one=(1, 'b')).items():
        lbs = {n: 2 for n in sh if isinstance(n, str)}
        for pn, deps in dict(LR=[True, True], L=[True, False], R=[False, True]).items():
            out.append(wrapped(f'E1/wrap-elementwise-binary/{r}/{pn}', lambda d: wrap_forward_laplacian(g2, in_axes=()), g2, [sh, sh], lbs, deps, weight=4))
        out.append(wrapped(f'E1/wrap-elementwise-unary/{r}', lambda d: wrap_forward_laplacian(g1, in_axes=()), g1, [sh], lbs, [True], weight=3))
    # rules of functions which broadcast operands of different ranks
    for bn, (s1, s2) in dict(lead=(('a',), (1, 'a')), lead2=(('a', 'b'), (1, 'a', 'b')), more=(('a',), ('b', 'a')), same=(('a', 1), (1, 'b')), scalar=((), ('a',)), ones=((1,), (1, 1))).items():
        lbs = {n: 2 for n in (*s1, *s2) if isinstance(n, str)}
        for pn, deps in dict(LR=[True, True], L=[True, False], R=[False, True]).items():
            out.append(fl(f'E1/rank-broadcast/logaddexp/{bn}/{pn}', lambda d, x, y: jnp.logaddexp(x, y), [s1, s2], lbs, deps=deps, dom=POS, weight=4))
            bg = lambda x, y: g2(*jnp.broadcast_arrays(x, y))  # noqa: E731
            out.append(wrapped(f'E1/rank-broadcast/wrapped/{bn}/{pn}', lambda d: wrap_forward_laplacian(bg, in_axes=()), bg, [s1, s2], lbs, deps, weight=4))
    # operands of different shapes through numpy broadcasting
    for n in ('mul', 'div', 'add', 'pow'):
        f = BINARY[n]
        for bn, (s1, s2) in dict(row=(('a', 'b'), ('b',)), col=(('a', 'b'), ('a', 1)), outer=(('a', 1), (1, 'b')), scalar=(('a', 'b'), ())).items():
            jf = dict(mul=jnp.multiply, div=jnp.divide, add=jnp.add, pow=jnp.power)[n]
            out.append(fl(f'E1/broadcast/{n}/{bn}', lambda d, x, y, jf=jf: jf(x, y), [s1, s2], AB, dom=POS, weight=4))
    return out


def wrapped(id, rule, f, shapes, lbs, deps, kwargs=None, **kw):
    """Contract of a rule object: rule(states, kwargs, threshold 0) for the function f."""
    from .lib import state_inputs, unpack

    lbs = {'k': 1, **lbs}

    def impl(d, *arrs):
        states, _ = unpack(arrs, deps)
        return triples(rule(d)(tuple(states), {}, sparsity_threshold=0), d.k)

    def spec(d, *arrs):
        states, xs = unpack(arrs, deps)
        ix = [i for i, dd in enumerate(deps) if dd]

        def g(*dep):
            full = list(xs)
            for i, v in zip(ix, dep):
                full[i] = v
            return f(*full)

        return second_order(g, tuple(xs[i] for i in ix), tuple(states[i].jacobian.data for i in ix), tuple(states[i].laplacian for i in ix))

    return Contract(id, lbs, state_inputs(shapes, deps), impl, spec, **kw)


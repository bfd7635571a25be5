"""Uninterpreted smooth functions as JAX primitives.

``elementwise(name, n)``   an arbitrary smooth scalar function applied elementwise.
``tensor(name, ...)``      an arbitrary smooth function of whole arrays.

Their derivatives are again uninterpreted (symmetric) tensors, so an equality proved
about a program that uses them holds for every smooth function.  For replays on
concrete numbers they stand for one fixed generic function each.
"""
from __future__ import annotations

import functools
import math
import zlib

import jax
import jax.numpy as jnp
import numpy as np
from jax import core
from jax.interpreters import ad, batching, mlir

from . import ix, sem
from .dims import dim_to_ix
from .ix import CTX, RX, LamArr

# ---- elementwise --------------------------------------------------------------------

ef_p = core.Primitive('ef')


def _coef(name, j):
    return 0.6 + (zlib.crc32(f'{name}{j}'.encode()) % 1000) / 1500.0


def _ef_impl(*xs, name, orders):
    s = 0.3 + sum(orders) * math.pi / 2
    amp = 1.0
    for j, (x, n) in enumerate(zip(xs, orders)):
        s = s + _coef(name, j) * x
        amp = amp * _coef(name, j) ** n
    return amp * jnp.sin(s)


ef_p.def_impl(_ef_impl)
ef_p.def_abstract_eval(lambda *xs, name, orders: core.ShapedArray(xs[0].shape, xs[0].dtype))
mlir.register_lowering(ef_p, mlir.lower_fun(_ef_impl, multiple_results=False))


def _ef_jvp(primals, tangents, *, name, orders):
    y = ef_p.bind(*primals, name=name, orders=orders)
    t = None
    for j, dx in enumerate(tangents):
        if type(dx) is ad.Zero:
            continue
        o = tuple(n + (i == j) for i, n in enumerate(orders))
        c = ef_p.bind(*primals, name=name, orders=o) * dx
        t = c if t is None else ad.add_jaxvals(t, c)
    return y, (ad.Zero.from_primal_value(y) if t is None else t)


ad.primitive_jvps[ef_p] = _ef_jvp


def _ef_batch(args, dims, **params):
    n = next(x.shape[d] for x, d in zip(args, dims) if d is not batching.not_mapped)
    args = [
        batching.bdim_at_front(x, d, n) if d is not batching.not_mapped else jnp.broadcast_to(x, (n, *x.shape))
        for x, d in zip(args, dims)
    ]
    return ef_p.bind(*args, **params), 0


batching.primitive_batchers[ef_p] = _ef_batch


def elementwise(name, n=1):
    def f(*xs):
        xs = jnp.broadcast_arrays(*xs) if len(xs) > 1 else xs
        return ef_p.bind(*xs, name=name, orders=(0,) * n)

    f.__name__ = name
    return f


@sem.rule('ef')
def _(s, eqn, ins):
    nm = f"{eqn.params['name']}@{','.join(map(str, eqn.params['orders']))}"
    return sem.elementwise(eqn, ins, lambda *a: ix.r_fn(nm, *a))


def numeric_ef(nm):
    name, o = nm.split('@')
    orders = tuple(int(i) for i in o.split(','))
    return lambda *xs: float(_ef_impl(*xs, name=name, orders=orders))


# ---- functions of whole arrays ---------------------------------------------------------

uft_p = core.Primitive('uft')


def _uft_shape(xs, nb, out_shape, in_shapes, dargs):
    sh = tuple(xs[0].shape[:nb]) + tuple(out_shape)
    for a in dargs:
        sh += tuple(in_shapes[a])
    return sh


def _lin(shape):
    n = int(np.prod(shape, dtype=int))
    return jnp.arange(n, dtype=jnp.float64)


def _w(o, j, i, seed):
    return 0.5 * jnp.cos(1.0 + seed + 1.3 * o[:, None] + 0.7 * i[None, :] + 2.1 * j)


def _seed(name):
    return (zlib.crc32(name.encode()) % 100) / 10.0


def _uft_impl(*xs, name, nb, out_shape, in_shapes, dargs):
    batch = xs[0].shape[:nb]
    seed = _seed(name)
    o = _lin(out_shape)
    s = 0.4 + len(dargs) * math.pi / 2 + 0.1 * o
    s = jnp.broadcast_to(s, (*batch, o.shape[0]))
    for j, x in enumerate(xs):
        xf = x.reshape(*batch, int(np.prod(in_shapes[j], dtype=int)))
        s = s + jnp.einsum('oi,...i->...o', _w(o, j, _lin(in_shapes[j]), seed), xf)
    r = jnp.sin(s)
    for a in dargs:
        w = _w(o, a, _lin(in_shapes[a]), seed)
        # r: batch, o, ...; multiply by w[o, i]
        k = r.ndim - len(batch) - 1
        r = r[..., None] * w.reshape(*(1,) * len(batch), o.shape[0], *(1,) * k, w.shape[1])
    return r.reshape(_uft_shape(xs, nb, out_shape, in_shapes, dargs))


uft_p.def_impl(_uft_impl)
uft_p.def_abstract_eval(
    lambda *xs, nb, out_shape, in_shapes, dargs, name: core.ShapedArray(
        _uft_shape(xs, nb, out_shape, in_shapes, dargs), xs[0].dtype
    )
)
mlir.register_lowering(uft_p, mlir.lower_fun(_uft_impl, multiple_results=False))


def _uft_jvp(primals, tangents, *, name, nb, out_shape, in_shapes, dargs):
    bind = functools.partial(uft_p.bind, *primals, name=name, nb=nb, out_shape=out_shape, in_shapes=in_shapes)
    y = bind(dargs=dargs)
    t = None
    for j, dx in enumerate(tangents):
        if type(dx) is ad.Zero:
            continue
        T = bind(dargs=dargs + (j,))
        r = len(in_shapes[j])
        c = jax.lax.dot_general(
            T,
            dx,
            (
                (tuple(range(T.ndim - r, T.ndim)), tuple(range(nb, nb + r))),
                (tuple(range(nb)), tuple(range(nb))),
            ),
        )
        t = c if t is None else ad.add_jaxvals(t, c)
    return y, (ad.Zero.from_primal_value(y) if t is None else t)


ad.primitive_jvps[uft_p] = _uft_jvp


def _uft_batch(args, dims, *, nb, **params):
    n = next(x.shape[d] for x, d in zip(args, dims) if d is not batching.not_mapped)
    args = [
        batching.bdim_at_front(x, d, n) if d is not batching.not_mapped else jnp.broadcast_to(x, (n, *x.shape))
        for x, d in zip(args, dims)
    ]
    return uft_p.bind(*args, nb=nb + 1, **params), 0


batching.primitive_batchers[uft_p] = _uft_batch


def tensor(name, out_shape=()):
    def f(*xs):
        return uft_p.bind(
            *xs, name=name, nb=0, out_shape=tuple(out_shape), in_shapes=tuple(tuple(x.shape) for x in xs), dargs=()
        )

    f.__name__ = name
    return f


@sem.rule('uft')
def _(s, eqn, ins):
    p = eqn.params
    nb, no = p['nb'], len(p['out_shape'])
    in_shapes = [tuple(dim_to_ix(d) for d in sh) for sh in p['in_shapes']]

    def f(*idx):
        batch, out, rest = idx[:nb], idx[nb:nb + no], list(idx[nb + no:])
        args = []
        for x, sh in zip(ins, in_shapes):
            vs = [CTX.fresh(z) for z in sh]
            if CTX.unroll > 3 and sh and all(z.is_const() for z in sh) and math.prod(z.cval() for z in sh) <= 64:
                # fixed sizes: the array written out element by element
                body = RX({})
                for q in np.ndindex(*[z.cval() for z in sh]):
                    g = ix.f_and(*[ix.f_eq(v, ix.IX.const(i)) for v, i, z in zip(vs, q, sh) if z.cval() > 1])
                    body = body + x[tuple(batch) + tuple(ix.IX.const(i) for i in q)].guard(g)
                args.append(LamArr([ix._var_id(v) for v in vs], body))
                continue
            args.append(LamArr([ix._var_id(v) for v in vs], x[tuple(batch) + tuple(ix.IX.const(0) if z.is_const() and z.cval() == 1 else v for v, z in zip(vs, sh))]))
        der = []
        for a in p['dargs']:
            r = len(in_shapes[a])
            der.append((str(a), tuple(ix.to_ix(i) for i in rest[:r])))
            rest = rest[r:]
        return ix.r_deriv(p['name'], tuple(args), out, der)

    return sem.Arr(sem.oshape(eqn), 'r', f)

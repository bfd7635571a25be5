"""numpy as seen by the folx modules while they are traced with symbolic sizes.

Every attribute is numpy's own; only calls whose arguments contain a symbolic size
are redirected (products of sizes, aranges, broadcast shapes)."""
from __future__ import annotations

import contextlib
import functools
import operator
import sys

import jax
import jax.numpy as jnp
import numpy as np
import jax._src.export.shape_poly as sp


def symbolic(x) -> bool:
    if isinstance(x, sp._DimExpr):
        return True
    if isinstance(x, (tuple, list)):
        return any(symbolic(i) for i in x)
    if isinstance(x, np.ndarray) and x.dtype == object:
        return any(symbolic(i) for i in x.reshape(-1))
    return False


class NpShim:
    def __getattr__(self, name):
        return getattr(np, name)

    def prod(self, a, *args, **kw):
        if symbolic(a):
            return functools.reduce(operator.mul, a, 1)
        return np.prod(a, *args, **kw)

    def sum(self, a, *args, **kw):
        if symbolic(a):
            return functools.reduce(operator.add, a, 0)
        return np.sum(a, *args, **kw)

    def arange(self, *args, **kw):
        if symbolic(args):
            return jnp.arange(*args, **kw)
        return np.arange(*args, **kw)

    def broadcast_shapes(self, *shapes):
        if symbolic(shapes):
            return jnp.broadcast_shapes(*shapes)
        return np.broadcast_shapes(*shapes)

    def max(self, a, *args, **kw):
        if symbolic(a):
            return functools.reduce(lambda p, q: p if p >= q else q, a)
        return np.max(a, *args, **kw)

    def zeros(self, shape, *args, **kw):
        return (jnp if symbolic(shape) else np).zeros(shape, *args, **kw)

    def ones(self, shape, *args, **kw):
        return (jnp if symbolic(shape) else np).ones(shape, *args, **kw)

    def full(self, shape, *args, **kw):
        return (jnp if symbolic(shape) else np).full(shape, *args, **kw)

    def eye(self, n, *args, **kw):
        return (jnp if symbolic(n) else np).eye(n, *args, **kw)


SHIM = NpShim()


_scan = jax.lax.scan


def scan(f, init, xs=None, length=None, **kw):
    """lax.scan whose explicit length may be symbolic (otherwise an int is required)."""
    if length is not None and symbolic(length):
        leaves = jax.tree_util.tree_leaves(xs)
        if any(x.shape[0] != length for x in leaves):
            raise ValueError('scan got `length` argument which disagrees with leading axis sizes')
        if not leaves:
            dummy = jnp.zeros((length, 0))
            return _scan(lambda c, x: f(c, x[1]), init, (dummy, xs), **kw)
        length = None
    return _scan(f, init, xs, length=length, **kw)


_jit = jax.jit


def no_jit(f=None, **kw):
    """jax.jit does not change what a function computes; inlined, index arrays stay concrete."""
    if f is None:
        return lambda g: no_jit(g, **kw)
    return f


@contextlib.contextmanager
def installed(jit=True):
    saved = []
    jax.lax.scan = scan
    if not jit:
        jax.jit = no_jit
    for name, mod in list(sys.modules.items()):
        if (name == 'folx' or name.startswith('folx.')) and getattr(mod, 'np', None) is np:
            saved.append(mod)
            mod.np = SHIM
    try:
        yield
    finally:
        jax.lax.scan = _scan
        jax.jit = _jit
        for mod in saved:
            mod.np = np

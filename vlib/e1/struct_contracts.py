"""C04: structural and linear operations, for all sizes."""
from __future__ import annotations

import jax
import jax.numpy as jnp

from .contract import I
from .lib import fl

L = jax.lax
A, AB, ABC = dict(a=2), dict(a=2, b=2), dict(a=2, b=2, c=2)
AB3 = dict(a=3, b=3)


def c04(tier):
    out = []

    def add(name, f, shapes, lbs, **kw):
        out.append(fl(f'E1/{name}', f, shapes, lbs, **{'weight': 3, **kw}))

    a, ab, abc = [('a',)], [('a', 'b')], [('a', 'b', 'c')]
    # --- reshapes
    add('reshape/flatten2', lambda d, x: x.reshape(-1), ab, AB)
    add('reshape/flatten3', lambda d, x: x.reshape(-1), abc, ABC)
    add('reshape/merge01', lambda d, x: x.reshape(d.a * d.b, d.c), abc, ABC)
    add('reshape/merge12', lambda d, x: x.reshape(d.a, d.b * d.c), abc, ABC)
    add('reshape/regroup', lambda d, x: x.reshape(d.a * d.b, d.c).reshape(d.a, d.b * d.c), abc, ABC)
    add('reshape/split', lambda d, x: x.reshape(d.a, d.b), [('a*b',)], AB)
    add('reshape/refactor', lambda d, x: x.reshape(d.b, d.a), ab, AB)
    add('reshape/ones', lambda d, x: x.reshape(1, d.a, 1, d.b), ab, AB)
    add('reshape/ravel-scalar', lambda d, x: x.reshape(1), [()], {})
    add('squeeze', lambda d, x: jnp.squeeze(x, 1), [('a', 1, 'b')], AB)
    add('squeeze-all', lambda d, x: jnp.squeeze(x, (0, 2)), [(1, 'a', 1)], A)
    add('expand_dims', lambda d, x: jnp.expand_dims(x, (0, 2)), ab, AB)
    # --- transpositions
    add('transpose/2', lambda d, x: x.T, ab, AB)
    for p in [(0, 2, 1), (1, 0, 2), (1, 2, 0), (2, 0, 1), (2, 1, 0)]:
        add(f'transpose/{p}', lambda d, x, p=p: jnp.transpose(x, p), abc, ABC)
    add('moveaxis', lambda d, x: jnp.moveaxis(x, 0, -1), abc, ABC)
    add('swapaxes', lambda d, x: jnp.swapaxes(x, 0, 2), abc, ABC)
    # --- broadcasting
    add('broadcast/row', lambda d, x: jnp.broadcast_to(x, (d.b, d.a)), a, AB)
    add('broadcast/col', lambda d, x: jnp.broadcast_to(x[:, None], (d.a, d.b)), a, AB)
    add('broadcast/one', lambda d, x: jnp.broadcast_to(x, (d.a, d.b)), [('a', 1)], AB)
    add('broadcast/scalar', lambda d, x: jnp.broadcast_to(x, (d.a, d.b)), [()], AB)
    add('broadcast_in_dim/perm', lambda d, x: L.broadcast_in_dim(x, (d.a, d.c, d.b), (0, 2)), ab, ABC)
    # --- slices
    add('slice/tail', lambda d, x: x[1:], ab, AB)
    add('slice/head', lambda d, x: x[:-1], ab, AB)
    add('slice/both', lambda d, x: x[1:, :-1], ab, AB3)
    add('slice/stride', lambda d, x: x[:: 2], [('2*a', 'b')], AB)
    add('slice/offset-stride', lambda d, x: x[1 :: 2], [('2*a', 'b')], AB)
    add('slice/diff', lambda d, x: x[1:] - x[:-1], ab, AB3)
    add('index/int', lambda d, x: x[0], ab, AB)
    add('index/last', lambda d, x: x[:, -1], ab, AB)
    add('index/mid', lambda d, x: x[:, 1], ab, AB)
    add('index/newaxis', lambda d, x: x[:, None, 0], ab, AB)
    add('dynamic_slice', lambda d, x: L.dynamic_slice(x, (1, 0), (1, d.b)), ab, AB)
    add('dynamic_slice/clamped', lambda d, x: L.dynamic_slice(x, (d.a * 3, 0), (2, d.b)), ab, AB3)
    add('dynamic_slice/at-data', lambda d, x, i: L.dynamic_slice(x, (i, 0), (2, d.b)), [('a', 'b'), ()], AB3, deps=[True, False], dtypes=['f', 'i'])
    add('dynamic_update_slice', lambda d, x, y: L.dynamic_update_slice(x, y, (1, 0)), [('a', 'b'), (1, 'b')], AB3)
    add('dynamic_update_slice/L', lambda d, x, y: L.dynamic_update_slice(x, y, (1, 0)), [('a', 'b'), (1, 'b')], AB3, deps=[True, False])
    add('dynamic_update_slice/R', lambda d, x, y: L.dynamic_update_slice(x, y, (1, 0)), [('a', 'b'), (1, 'b')], AB3, deps=[False, True])
    add('split', lambda d, x: jnp.split(x, 2, axis=1), [('a', '2*b')], AB)
    # --- gather / scatter
    gi = dict(deps=[True, False], dtypes=['f', 'i'])
    add('gather/take0', lambda d, x, i: jnp.take(x, i, axis=0, mode='clip'), [('a', 'b'), ('c',)], ABC, **gi)
    add('gather/take1', lambda d, x, i: jnp.take(x, i, axis=1, mode='clip'), [('a', 'b'), ('c',)], ABC, **gi)
    add('gather/index0', lambda d, x, i: x[i], [('a', 'b'), ('c',)], ABC, **gi)
    add('gather/index1', lambda d, x, i: x[:, i], [('a', 'b'), ('c',)], ABC, **gi)
    add('gather/index2', lambda d, x, i: x[i], [('a',), ('b', 'c')], ABC, **gi)
    add('gather/scalar', lambda d, x, i: x[i], [('a', 'b'), ()], AB, **gi)
    add('gather/pair', lambda d, x, i, j: x[i, j], [('a', 'b'), ('c',), ('c',)], ABC, deps=[True, False, False], dtypes=['f', 'i', 'i'])
    add('gather/fill', lambda d, x, i: x.at[i].get(mode='fill', fill_value=0.0), [('a', 'b'), ('c',)], ABC, **gi)
    add('gather/const-list', lambda d, x: x[jnp.array([1, 0, 1])], ab, AB)
    add('take_along_axis', lambda d, x, i: jnp.take_along_axis(x, i, axis=1, mode='clip'), [('a', 'b'), ('a', 'c')], ABC, **gi)
    for pn, deps in dict(LR=[True, True], L=[True, False], R=[False, True]).items():
        add(f'scatter-add/row/{pn}', lambda d, x, y: x.at[1].add(y), [('a', 'b'), ('b',)], AB, deps=deps)
        add(f'scatter-set/row/{pn}', lambda d, x, y: x.at[1].set(y), [('a', 'b'), ('b',)], AB, deps=deps)
        add(f'scatter-set/col/{pn}', lambda d, x, y: x.at[:, 1].set(y), [('a', 'b'), ('a',)], AB, deps=deps)
        add(f'scatter-add/indexed/{pn}', lambda d, x, y, i: x.at[i].add(y), [('a', 'b'), ('c', 'b'), ('c',)], ABC, deps=[*deps, False], dtypes=['f', 'f', 'i'])
        # --- concatenation, padding, selection
        add(f'concat0/{pn}', lambda d, x, y: jnp.concatenate([x, y], 0), [('a', 'b'), ('c', 'b')], ABC, deps=deps)
        add(f'concat1/{pn}', lambda d, x, y: jnp.concatenate([x, y], 1), [('a', 'b'), ('a', 'c')], ABC, deps=deps)
        add(f'concat0/{pn}/const', lambda d, x, y: jnp.concatenate([x, jnp.ones((1, d.b)), y], 0), [('a', 'b'), ('c', 'b')], ABC, deps=deps)
        add(f'stack/{pn}', lambda d, x, y: jnp.stack([x, y], 1), [('a', 'b')] * 2, AB, deps=deps)
        # (a dependent padding value with a constant operand is rejected by jax.jacrev itself)
        if pn != 'R':
            add(f'pad/{pn}', lambda d, x, v: L.pad(x, v, ((1, 2, 0), (0, 1, 0))), [('a', 'b'), ()], AB, deps=deps)
            add(f'pad-interior/{pn}', lambda d, x, v: L.pad(x, v, ((1, 2, 1), (0, 1, 0))), [('a', 2), ()], A, deps=deps)
            add(f'pad-negative/{pn}', lambda d, x, v: L.pad(x, v, ((-1, 2, 0), (0, -1, 0))), [('a', 'b'), ()], AB3, deps=deps)
        add(f'where-data/{pn}', lambda d, x, y, m: jnp.where(m, x, y), [('a', 'b'), ('a', 'b'), ('a', 'b')], AB, deps=[*deps, False], dtypes=['f', 'f', 'b'])
        add(f'where-value/{pn}', lambda d, x, y: jnp.where(x > y, x, y * 2.0), [('a', 'b'), ('a', 'b')], AB, deps=deps)
        add(f'where-broadcast/{pn}', lambda d, x, y, m: jnp.where(m, x, y), [('a', 'b'), ('b',), ('a', 1)], AB, deps=[*deps, False], dtypes=['f', 'f', 'b'])
        add(f'max/{pn}', lambda d, x, y: jnp.maximum(x, y), [('a', 'b'), ('a', 'b')], AB, deps=deps)
        add(f'add-row/{pn}', lambda d, x, y: x + y, [('a', 'b'), ('b',)], AB, deps=deps)
        add(f'sub-outer/{pn}', lambda d, x, y: x - y, [('a', 1), (1, 'b')], AB, deps=deps)
    add('concat-3', lambda d, x, y, z: jnp.concatenate([x, y, z]), [('a',), ('b',), ('c',)], ABC)
    add('pad/const', lambda d, x: jnp.pad(x, ((1, 1), (0, 2)), constant_values=3.0), ab, AB)
    add('rev', lambda d, x: x[::-1], ab, AB)
    add('rev/both', lambda d, x: jnp.flip(x), ab, AB)
    add('roll', lambda d, x: jnp.roll(x, 1, axis=0), ab, AB)
    add('tile', lambda d, x: jnp.tile(x, (2, 1)), ab, AB)
    add('repeat', lambda d, x: jnp.repeat(x[:, None], 3, axis=1), a, A)
    add('diagonal', lambda d, x: jnp.diagonal(x), [('a', 'a')], A)
    add('trace', lambda d, x: jnp.trace(x), [('a', 'a')], A)
    add('tril', lambda d, x: jnp.tril(x), [('a', 'a')], A)
    add('diag-embed', lambda d, x: x[:, None] * jnp.eye(d.a), a, A)
    # --- sums, cumulative sums, extrema
    for ax in (0, 1, (0, 1), -1):
        add(f'sum/2/{ax}', lambda d, x, ax=ax: x.sum(ax), ab, AB)
    for ax in (0, 1, 2, (0, 1), (0, 2), (1, 2), (0, 1, 2), (-1, 0)):
        add(f'sum/3/{ax}', lambda d, x, ax=ax: x.sum(ax), abc, ABC)
    add('sum/keepdims', lambda d, x: x.sum(1, keepdims=True), abc, ABC)
    add('sum/1', lambda d, x: x.sum(), a, A)
    add('mean/0', lambda d, x: x.mean(0), ab, AB)
    add('mean/all', lambda d, x: x.mean(), ab, AB)
    add('var', lambda d, x: x.var(1), ab, AB)
    for ax in (0, 1):
        add(f'cumsum/{ax}', lambda d, x, ax=ax: jnp.cumsum(x, ax), ab, AB)
        add(f'cumsum/rev/{ax}', lambda d, x, ax=ax: L.cumsum(x, ax, reverse=True), ab, AB)
        add(f'max/{ax}', lambda d, x, ax=ax: x.max(ax), ab, AB)
        add(f'min/{ax}', lambda d, x, ax=ax: x.min(ax), ab, AB)
    add('cumsum/vec', lambda d, x: jnp.cumsum(x), a, A)
    add('cumsum/3', lambda d, x: jnp.cumsum(x, 1), abc, ABC)
    add('max/red-all', lambda d, x: x.max(), ab, AB)
    add('max/3', lambda d, x: x.max((0, 2)), abc, ABC)
    add('min/all', lambda d, x: x.min(), ab, AB)
    add('prod/1', lambda d, x: x.prod(), [(4,)], {}, bounded='axis length 4')
    add('prod/0', lambda d, x: x.prod(0), [(3, 2)], {}, bounded='shape (3, 2)')
    add('prod/2', lambda d, x: x.prod((0, 2)), [(2, 2, 2)], {}, bounded='shape (2, 2, 2)')
    # --- linear combinations and compositions
    add('neg-scale', lambda d, x: -3.0 * x, ab, AB)
    add('outer-diff', lambda d, x: x[:, None] - x[None, :], ab, AB)
    add('mean-sub', lambda d, x: x - x.mean(0, keepdims=True), ab, AB)
    add('pad-of-slice', lambda d, x: jnp.pad(x[1:], ((0, 1), (0, 0))), ab, AB3)
    add('transpose-reshape', lambda d, x: x.T.reshape(-1), ab, AB)
    add('reshape-sum', lambda d, x: x.reshape(d.a, d.b).sum(1), [('a*b',)], AB)
    return out

"""Bounded differential checks of the contracts on concrete inputs.

A *case* evaluates real folx code on one concrete (seeded) input and compares with an
oracle that does not use folx: JAX's own nested forward-mode derivatives.
"""
from __future__ import annotations

import zlib

import jax
import jax.flatten_util as jfu
import jax.numpy as jnp
import jax.tree_util as jtu
import numpy as np

from folx import forward_laplacian
from folx.api import FwdJacobian, FwdLaplArray

IS = lambda z: isinstance(z, FwdLaplArray)  # noqa: E731


class Fail(Exception):
    """The property does not hold on this input."""


class Case:
    def __init__(self, cid, fn, kind='bounded', weight=1.0):
        self.id, self.fn, self.kind, self.weight = cid, fn, kind, weight

    def run(self, seed):
        """Raises Fail with a description when the property is broken."""
        rng = np.random.default_rng([seed, zlib.crc32(self.id.encode())])
        return self.fn(rng)


def need(c, msg):
    if not c:
        raise Fail(msg)


def _show(a):
    a = np.asarray(a)
    s = np.array2string(a, precision=5, threshold=24, edgeitems=3)
    return s.replace('\n', ' ')


def close(got, want, what, rtol=1e-7, atol=1e-8):
    got, want = np.asarray(got), np.asarray(want)
    need(got.shape == want.shape, f'{what}: shape {got.shape}, expected {want.shape}')
    if got.size == 0:
        return
    scale = 1.0
    if np.issubdtype(want.dtype, np.inexact) and np.isfinite(want).any():
        scale = max(1.0, float(np.nanmax(np.abs(np.where(np.isfinite(want), want, 0)))))
    ok = np.allclose(got, want, rtol=rtol, atol=atol * scale, equal_nan=True)
    if not ok:
        d = np.abs(got.astype(complex) - want.astype(complex))
        i = np.unravel_index(np.nanargmax(np.where(np.isnan(d), np.inf, d)), d.shape)
        raise Fail(
            f'{what}: got {_show(got)} expected {_show(want)} '
            f'(largest difference at {tuple(int(j) for j in i)}: {got[i]} vs {want[i]})'
        )


def ref_program(f, args):
    """(value, J (n,*out), L) of every output leaf by nested forward mode."""
    flat, un = jfu.ravel_pytree(args)
    n = flat.size

    def g(z):
        return jtu.tree_leaves(f(*un(z)))

    out = f(*args)
    tree = jtu.tree_structure(out)
    eye = jnp.eye(n, dtype=flat.dtype)

    def second(v):
        d1 = lambda z: jax.jvp(g, (z,), (v,))[1]  # noqa: E731
        return jax.jvp(d1, (flat,), (v,))

    def fix(x, like):
        return x

    j, h = jax.jit(lambda: jax.lax.map(second, eye))() if n else (None, None)
    leaves = jtu.tree_leaves(out)
    res = []
    for a, jj, hh in zip(leaves, j, h):
        a = np.asarray(a)
        jj, hh = np.asarray(jj), np.asarray(hh)
        if jj.dtype == jax.dtypes.float0:
            jj = np.zeros(jj.shape)
        if hh.dtype == jax.dtypes.float0:
            hh = np.zeros(hh.shape)
        res.append((a, jj, hh.sum(0)))
    return tree, res


def dense_of(jac, n):
    """Independent denotation of a (sparse) Jacobian as an (n, *shape) array."""
    d = np.asarray(jac.data)
    if jac.x0_idx is None:
        out = np.zeros((max(n, d.shape[0]), *d.shape[1:]), d.dtype)
        out[: d.shape[0]] = d
        return out
    idx = np.broadcast_to(np.asarray(jac.x0_idx), d.shape)
    need(idx.size == 0 or idx.max() < n, f'index {idx.max() if idx.size else 0} out of range {n}')
    out = np.zeros((n, *d.shape[1:]), d.dtype)
    for k in range(d.shape[0]):
        for pos in np.ndindex(*d.shape[1:]):
            i = idx[(k, *pos)]
            if i >= 0:
                out[(i, *pos)] += d[(k, *pos)]
    return out


def check_leaf(leaf, ref, what, n, exact_width=False, dtypes=True, rtol=1e-7, atol=1e-8):
    a, j, h = ref
    if not IS(leaf):
        close(leaf, a, f'{what} value', rtol, atol)
        need(
            not np.any(np.abs(j) > 1e-9) and not np.any(np.abs(h) > 1e-9),
            f'{what}: plain array returned although its derivatives are not zero',
        )
        if dtypes:
            need(np.asarray(leaf).dtype == a.dtype, f'{what}: dtype {np.asarray(leaf).dtype}, expected {a.dtype}')
        return
    close(leaf.x, a, f'{what} value', rtol, atol)
    jd = leaf.jacobian.dense_array
    if exact_width:
        need(jd.shape[0] == n, f'{what}: Jacobian has {jd.shape[0]} rows for {n} inputs')
    jd = np.asarray(jd)
    need(jd.shape[1:] == a.shape, f'{what} Jacobian: shape {jd.shape}, output shape {a.shape}')
    need(jd.shape[0] <= max(n, 1), f'{what} Jacobian has {jd.shape[0]} rows for {n} inputs')
    full = np.zeros((n, *a.shape), jd.dtype)
    full[: jd.shape[0]] = jd[:n]
    close(full, j, f'{what} Jacobian', rtol, atol)
    if leaf.jacobian.x0_idx is not None:
        close(dense_of(leaf.jacobian, n), j, f'{what} Jacobian denotation', rtol, atol)
    close(leaf.laplacian, h, f'{what} Laplacian', rtol, atol)
    if dtypes:
        for nm, arr in (('value', leaf.x), ('Jacobian', leaf.jacobian.data), ('Laplacian', leaf.laplacian)):
            need(arr.dtype == a.dtype, f'{what} {nm}: dtype {arr.dtype}, expected {a.dtype}')


def check_program(f, args, ths=(0,), jit=(False,), weights=None, kw=None, **opt):
    args = jtu.tree_map(jnp.asarray, args)
    tree, ref = ref_program(f, args)
    n = sum(np.size(x) for x in jtu.tree_leaves(args))
    for t in ths:
        for j in jit:
            what = f'threshold={t} jit={j}'
            try:
                o = forward_laplacian(f, t, disable_jit=not j)(*args, **(kw or {}))
            except Fail:
                raise
            except Exception as e:  # noqa: BLE001
                raise Fail(f'{what}: raised {type(e).__name__}: {str(e)[:300]}') from e
            leaves, otree = jtu.tree_flatten(o, is_leaf=IS)
            need(otree == tree, f'{what}: output structure {otree}, expected {tree}')
            for i, (l, r) in enumerate(zip(leaves, ref)):
                check_leaf(l, r, f'{what} output {i}', n, exact_width=(t == 0), **opt)


# ------------------------------------------------------------------ rule level states


def ref_rule(f, xs, js, ls, n):
    """Second-order chain rule for dependent args xs with dense Jacobians/Laplacians."""
    xs = tuple(jnp.asarray(x) for x in xs)
    js = tuple(jnp.asarray(j) for j in js)
    ls = tuple(jnp.asarray(l) for l in ls)

    def g(*x):
        return jtu.tree_leaves(f(*x))

    def run():
        y = g(*xs)

        def second(v):
            d1 = lambda *z: jax.jvp(g, z, v)[1]  # noqa: E731
            return jax.jvp(d1, xs, v)

        j, h = jax.vmap(second)(js)
        l1 = jax.jvp(g, xs, ls)[1]
        return y, j, h, l1

    y, j, h, l1 = jax.jit(run)()
    res = []
    for a, jj, hh, ll in zip(y, j, h, l1):
        a, jj, hh, ll = map(np.asarray, (a, jj, hh, ll))
        if jj.dtype == jax.dtypes.float0:
            jj = np.zeros(jj.shape)
        if hh.dtype == jax.dtypes.float0:
            hh = np.zeros(hh.shape)
        if ll.dtype == jax.dtypes.float0:
            ll = np.zeros(ll.shape)
        res.append((a, jj, ll + hh.sum(0)))
    return jtu.tree_structure(f(*xs)), res


MASKS = ('perm', 'id', 'bcast', 'rand', 'dup', 'pad', 'block')


def make_mask(rng, style, shape, n):
    size = int(np.prod(shape, dtype=int))
    if style == 'id':
        m = (np.arange(size) % n).reshape(1, *shape)
    elif style == 'perm':
        m = np.stack([(rng.permutation(max(size, 1))[:size] % n).reshape(shape) for _ in range(rng.integers(1, 3))])
    elif style == 'bcast':
        k = int(rng.integers(1, min(n, 3) + 1))
        m = np.broadcast_to(
            rng.choice(n, k, replace=False).reshape(k, *([1] * len(shape))), (k, *shape)
        ).copy()
    elif style == 'rand':
        k = int(rng.integers(1, 4))
        m = rng.integers(-1, n, (k, *shape))
    elif style == 'dup':
        k = int(rng.integers(2, 5))
        m = rng.integers(0, max(1, min(n, 2)), (k, *shape))
    elif style == 'pad':
        k = int(rng.integers(2, 4))
        m = rng.integers(0, n, (k, *shape))
        m[rng.integers(1, k) :] = -1
        m = np.where(rng.random(m.shape) < 0.2, -1, m)
    elif style == 'block':
        k = int(rng.integers(1, min(n, 3) + 1))
        if len(shape):
            base = rng.integers(-1, n, (k, shape[0], *([1] * (len(shape) - 1))))
            m = np.broadcast_to(base, (k, *shape)).copy()
        else:
            m = rng.integers(0, n, (k,))
    else:
        raise ValueError(style)
    m = np.ascontiguousarray(m.astype(np.int32))
    if m.size and m.max() < 0:  # at least one dependency
        m.flat[0] = 0
    return m


def make_state(rng, x, n, style, dtype=None):
    """FwdLaplArray with value x and an arbitrary Jacobian ('dense' or a mask style)."""
    x = np.asarray(x)
    dt = dtype or x.dtype

    def rnd(shape):
        r = rng.standard_normal(shape)
        if np.issubdtype(dt, np.complexfloating):
            r = r + 1j * rng.standard_normal(shape)
        return r.astype(dt)

    lap = rnd(x.shape)
    if style == 'dense':
        jac = FwdJacobian(jnp.asarray(rnd((n, *x.shape))))
    else:
        m = make_mask(rng, style, x.shape, n)
        d = rnd(m.shape)
        d = np.where(m < 0, 0, d)
        jac = FwdJacobian(jnp.asarray(d), m)
    return FwdLaplArray(jnp.asarray(x), jac, jnp.asarray(lap))


def check_rule(f, args, dep, styles, rng, n, ths=(0,), exec_=None, **opt):
    """args: arrays; dep: indices of dependent ones; f(*args) any jax function."""
    states = {i: make_state(rng, args[i], n, s) for i, s in zip(dep, styles)}
    xs = tuple(args[i] for i in dep)
    js = tuple(dense_of(states[i].jacobian, n) for i in dep)
    ls = tuple(states[i].laplacian for i in dep)

    def g(*x):
        a = list(args)
        for i, v in zip(dep, x):
            a[i] = v
        return f(*a)

    tree, ref = ref_rule(g, xs, js, ls, n)
    full = tuple(states.get(i, a) for i, a in enumerate(args))
    for t in ths:
        what = f'dependent={tuple(dep)} jacobians={tuple(styles)} threshold={t}'
        try:
            o = forward_laplacian(f, t, disable_jit=True)(*full)
        except Exception as e:  # noqa: BLE001
            raise Fail(f'{what}: raised {type(e).__name__}: {str(e)[:300]}') from e
        leaves, otree = jtu.tree_flatten(o, is_leaf=IS)
        need(otree == tree, f'{what}: output structure {otree}, expected {tree}')
        for i, (l, r) in enumerate(zip(leaves, ref)):
            check_leaf(l, r, f'{what} output {i}', n, **opt)

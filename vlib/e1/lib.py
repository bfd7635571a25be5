"""Building blocks of the contracts: derivative states and the second-order chain rule."""
from __future__ import annotations

import jax
import jax.numpy as jnp
import jax.tree_util as jtu

from folx import forward_laplacian
from folx.api import FwdJacobian, FwdLaplArray

from .contract import Contract, I

IS = lambda z: isinstance(z, FwdLaplArray)  # noqa: E731


def inexact(y):
    return jnp.issubdtype(y.dtype, jnp.inexact)


def triples(tree, k):
    """Output leaves as (value, Jacobian, Laplacian); plain arrays have zero derivatives."""
    out = []
    for q in jtu.tree_leaves(tree, is_leaf=IS):
        if IS(q):
            out.append((q.x, q.jacobian.dense_array, q.laplacian))
        else:
            q = jnp.asarray(q)
            if inexact(q):
                out.append((q, jnp.zeros((k, *q.shape), q.dtype), jnp.zeros_like(q)))
            else:
                out.append((q,))
    return out


def second_order(f, xs, Js, Ls):
    """The second-order chain rule: what a derivative state of f must be.

    xs: dependent inputs; Js: their Jacobians (k, *shape); Ls: their Laplacians."""
    f_ = lambda *x: [y for y in jtu.tree_leaves(f(*x))]  # noqa: E731
    ys = f_(*xs)
    fl = [inexact(y) for y in ys]
    g = lambda *x: [y for y, d in zip(f_(*x), fl) if d]  # noqa: E731
    if not any(fl):
        return [(y,) for y in ys]

    def first(*t):
        return jax.jvp(g, xs, t)[1]

    def sec(*t):
        return jax.jvp(lambda *x: jax.jvp(g, x, t)[1], xs, t)[1]

    Jy = jax.vmap(first)(*Js)
    Hy = jax.vmap(sec)(*Js)
    Ly = jax.jvp(g, xs, Ls)[1]
    it = iter([(j, l + h.sum(0)) for j, l, h in zip(Jy, Ly, Hy)])
    return [(y, *next(it)) if d else (y,) for y, d in zip(ys, fl)]


def state_inputs(shapes, deps, k='k', doms=None, cdeps=None, dtypes=None):
    ins = []
    for n, s in enumerate(shapes):
        lo, hi = (doms[n] if isinstance(doms, list) else doms) or (None, None)
        dt = dtypes[n] if dtypes else 'f'
        ins.append(I(f'x{n}', *s, lo=lo, hi=hi, dtype=dt))
        if deps[n]:
            ins.append(I(f'J{n}', k if isinstance(k, str) else k[n], *s, dtype=dt))
            ins.append(I(f'L{n}', *s, dtype=dt))
    return ins


def unpack(arrs, deps):
    it = iter(arrs)
    states, xs = [], []
    for d in deps:
        if d:
            x, J, L = next(it), next(it), next(it)
            states.append(FwdLaplArray(x, FwdJacobian(J), L))
        else:
            x = next(it)
            states.append(x)
        xs.append(x)
    return states, xs


def fl(id, f, shapes, lbs, deps=None, dom=None, dtypes=None, plain=None, **kw):
    """{state inputs carry any (x, J, L)}  forward_laplacian(f)  {second-order chain rule}.

    f(d, *xs): the program.  Arguments with deps[n] False are plain arrays (constants)."""
    deps = deps or [True] * len(shapes)
    lbs = {'k': 1, **lbs}

    def call(d, states):
        return forward_laplacian(lambda *x: f(d, *x), disable_jit=True)(*states)

    def impl(d, *arrs):
        states, _ = unpack(arrs, deps)
        out = call(d, states)
        if plain is not None:
            got = [not IS(q) for q in jtu.tree_leaves(out, is_leaf=IS)]
            if got != list(plain):
                raise TypeError(f'plain outputs {got}, expected {list(plain)}')
        return triples(out, d.k)

    def spec(d, *arrs):
        states, xs = unpack(arrs, deps)
        ix = [i for i, dd in enumerate(deps) if dd]

        def g(*dep):
            full = list(xs)
            for i, v in zip(ix, dep):
                full[i] = v
            return f(d, *full)

        return second_order(
            g,
            tuple(xs[i] for i in ix),
            tuple(states[i].jacobian.data for i in ix),
            tuple(states[i].laplacian for i in ix),
        )

    return Contract(id, lbs, state_inputs(shapes, deps, doms=dom, dtypes=dtypes), impl, spec, **kw)


# ---- contracts of forward_laplacian applied to plain inputs -----------------------------


def rows(f, args, ws=None):
    """(value, Jacobian, Laplacian) of every output leaf with respect to all elements of args."""
    ys = jtu.tree_leaves(f(*args))
    inex = [inexact(y) for y in ys]
    leaves, tree = jtu.tree_flatten(args)
    wl = jtu.tree_leaves(ws) if ws is not None else [None] * len(leaves)
    Js, Ls = None, None
    for k, (a, w) in enumerate(zip(leaves, wl)):

        def g(v, k=k, a=a):
            new = list(leaves)
            new[k] = v.reshape(a.shape)
            return [y for y, d in zip(jtu.tree_leaves(f(*jtu.tree_unflatten(tree, new))), inex) if d]

        z = a.reshape(-1)
        e = jnp.eye(z.shape[0], dtype=z.dtype)
        if w is not None:
            e = e * jnp.broadcast_to(w, a.shape).reshape(-1)
        J = jax.vmap(lambda t: jax.jvp(g, (z,), (t,))[1])(e)  # noqa: B023
        H = jax.vmap(lambda t: jax.jvp(lambda u: jax.jvp(g, (u,), (t,))[1], (z,), (t,))[1])(e)  # noqa: B023
        L = [h.sum(0) for h in H]
        Js = [[j] for j in J] if Js is None else [p + [j] for p, j in zip(Js, J)]
        Ls = L if Ls is None else [p + q for p, q in zip(Ls, L)]
    it = iter(zip(Js, Ls))
    out = []
    for y, d in zip(ys, inex):
        if d:
            J, L = next(it)
            out.append((y, jnp.concatenate(J, 0) if len(J) > 1 else J[0], L))
        else:
            out.append((y,))
    return out


def prog(id, f, shapes, lbs, pack=None, threshold=0, weights=None, kwargs=None, jit=False, wfull=None, wins=(), dom=None, dtypes=None, consts=0, struct=True, **kw):
    """{any input values}  forward_laplacian(f)(*args)  {value, full Jacobian, Laplacian}.

    f(d, *args); pack: flat arrays -> argument tuple (pytrees); weights(d, *w arrays) passed to
    the call and wfull(...) the equivalent per-leaf weights; the last `consts` arrays are kwargs."""
    pack = pack or (lambda *a: a)
    nw = len(wins)
    fixed = kw.get('bounded')

    def split(arrs):
        n = len(shapes)
        return arrs[:n], arrs[n:n + nw], arrs[n + nw:]

    def impl(d, *arrs):
        xs, w, _ = split(arrs)
        args = pack(*xs)
        fn = forward_laplacian(lambda *a: f(d, *a), threshold, disable_jit=not jit)
        o = fn(*args, weights=weights(d, *w)) if weights else fn(*args)
        if struct:
            want = jtu.tree_structure(jax.eval_shape(lambda *a: f(d, *a), *args))
            got = jtu.tree_structure(o, is_leaf=IS)
            if want != got:
                raise Structure(f'output tree {got} instead of {want}')
        n = sum(x.size for x in xs)
        res = triples(o, n)
        if threshold:
            res = [(r[0], jnp.pad(r[1], ((0, n - r[1].shape[0]),) + ((0, 0),) * (r[1].ndim - 1)), r[2]) if len(r) == 3 else r for r in res]
        return res

    def spec(d, *arrs):
        xs, w, _ = split(arrs)
        args = pack(*xs)
        return rows(lambda *a: f(d, *a), args, wfull(d, *w) if wfull else None)

    ins = []
    for n, s in enumerate(shapes):
        lo, hi = (dom[n] if isinstance(dom, list) else dom) or (None, None)
        ins.append(I(f'x{n}', *s, lo=lo, hi=hi, dtype=dtypes[n] if dtypes else 'f'))
    ins += [I(f'w{n}', *s) for n, s in enumerate(wins)]
    return Contract(id, lbs, ins, impl, spec, **kw)


class Structure(Exception):
    """The output tree differs from that of the program."""

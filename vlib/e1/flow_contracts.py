"""C09: nested jit, custom derivative rules and scan."""
from __future__ import annotations

import functools

import jax
import jax.numpy as jnp
import jax.tree_util as jtu
import numpy as np

from folx import forward_laplacian

from . import uf
from .contract import Contract, I
from .lib import IS, fl, prog, second_order, state_inputs, triples, unpack

L = jax.lax
JIT = jax.jit
T, EF = uf.tensor, uf.elementwise
g1, h1, g2, h2 = EF('g', 1), EF('h', 1), EF('k', 2), EF('l', 2)
A, AB, ABC = dict(a=1), dict(a=1, b=1), dict(a=1, b=1, c=1)


def scan_c(id, body, carry, deps, xs=(), consts=(), cdeps=(), lbs=None, length=None, reverse=False, post=None, plain=None, n=None, **kw):
    """{carry states, constant states, plain xs}  lax.scan of body  {the loop over second-order steps}.

    body(d, carries, x slices, consts) -> (carries, ys).  The specification's loop applies the
    second-order chain rule of one step to (value, Jacobian, Laplacian)."""
    nc, nx, nk = len(carry), len(xs), len(consts)
    lbs = {'k': 1, **(lbs or {})}

    def run(d, cs, x, ks):
        st = lambda c, w: body(d, c, w, ks)  # noqa: E731
        return L.scan(st, tuple(cs), tuple(x), length=length(d) if length else None, reverse=reverse)

    def split(arrs):
        it = iter(arrs)
        take = lambda dep: (next(it), next(it), next(it)) if dep else (next(it),)  # noqa: E731
        c = [take(q) for q in deps]
        k = [take(q) for q in cdeps]
        return c, k, list(it)

    def st(v):
        return v if len(v) == 3 else v[0]

    def impl(d, *arrs):
        from folx.api import FwdJacobian, FwdLaplArray

        c, k, x = split(arrs)
        mk = lambda v: FwdLaplArray(v[0], FwdJacobian(v[1]), v[2]) if len(v) == 3 else v[0]  # noqa: E731
        args = [mk(v) for v in c] + [mk(v) for v in k]
        o = forward_laplacian(lambda *a: run(d, a[:nc], x, a[nc:]), disable_jit=True)(*args)
        if plain is not None:
            got = [not IS(q) for q in jtu.tree_leaves(o, is_leaf=IS)]
            if got != list(plain):
                raise TypeError(f'plain outputs {got}, expected {list(plain)}')
        return triples(o, d.k)

    def spec(d, *arrs):
        c, k, x = split(arrs)

        def step(state, w):
            vals = [*state, *k]
            dep = [i for i, v in enumerate(vals) if len(v) == 3]

            def f(*z):
                full = [v[0] for v in vals]
                for i, q in zip(dep, z):
                    full[i] = q
                cc, yy = body(d, tuple(full[:nc]), w, tuple(full[nc:]))
                return tuple(cc), tuple(jtu.tree_leaves(yy))

            o = second_order(f, tuple(vals[i][0] for i in dep), tuple(vals[i][1] for i in dep), tuple(vals[i][2] for i in dep))
            cc = tuple(v if len(s) == 3 else (v[0],) for v, s in zip(o[:nc], state))
            return cc, tuple(o[nc:])

        cs, ys = L.scan(step, tuple(c), tuple(x), length=length(d) if length else None, reverse=reverse)
        full = lambda v: v if len(v) == 3 else (v[0], jnp.zeros((d.k, *v[0].shape), v[0].dtype), jnp.zeros_like(v[0]))  # noqa: E731
        return [full(v) for v in cs] + [(v[0], jnp.moveaxis(v[1], 0, 1), v[2]) if len(v) == 3 else full(v) for v in ys]

    ins = []
    for j, (s, q) in enumerate(zip(carry, deps)):
        ins += [I(f'c{j}', *s)] + ([I(f'Jc{j}', 'k', *s), I(f'Lc{j}', *s)] if q else [])
    for j, (s, q) in enumerate(zip(consts, cdeps)):
        ins += [I(f'p{j}', *s)] + ([I(f'Jp{j}', 'k', *s), I(f'Lp{j}', *s)] if q else [])
    ins += [I(f'w{j}', *s) for j, s in enumerate(xs)]
    return Contract(id, lbs, ins, impl, spec, **kw)


def c09(tier):
    out = []
    F = lambda d: T('F', (d.a,))  # noqa: E731
    G = lambda d: T('G', (d.b,))  # noqa: E731
    N = dict(n=1, a=1, b=1)
    # any loop body, any length, both directions
    for rev in (False, True):
        r = 'backward' if rev else 'forward'
        out += [
            scan_c(f'E1/scan any body/{r}', lambda d, c, w, k: ((F(d)(c[0], w[0]),), G(d)(c[0], w[0])), [('a',)], [True], xs=[('n', 'a')], lbs=N, reverse=rev, weight=9),
            scan_c(f'E1/scan carry only/{r}', lambda d, c, w, k: ((F(d)(c[0]),), ()), [('a',)], [True], lbs=N, length=lambda d: d.n, reverse=rev, weight=8),
            scan_c(f'E1/scan dependent constant/{r}', lambda d, c, w, k: ((F(d)(c[0], k[0]),), G(d)(c[0], k[0])), [('a',)], [True], consts=[('b',)], cdeps=[True], lbs=N, length=lambda d: d.n, reverse=rev, weight=9),
            scan_c(f'E1/scan plain constant/{r}', lambda d, c, w, k: ((F(d)(c[0], k[0], w[0]),), c[0]), [('a',)], [True], consts=[('b',)], cdeps=[False], xs=[('n',)], lbs=N, reverse=rev, weight=9),
            scan_c(f'E1/scan constant carry/{r}', lambda d, c, w, k: ((g1(c[0]) * c[1], c[1] + w[0]), c[0] * w[0]), [('a',), ()], [True, False], xs=[('n',)], lbs=dict(n=1, a=1), reverse=rev, weight=8),
            scan_c(f'E1/scan two carries/{r}', lambda d, c, w, k: ((g2(c[0], c[1]), h1(c[0]) * w[0]), c[1]), [('a',), ('a',)], [True, True], xs=[('n',)], lbs=dict(n=1, a=1), reverse=rev, weight=8),
            scan_c(f'E1/scan affine body/{r}', lambda d, c, w, k: ((c[0] * w[0] + w[1],), (c[0], w[1])), [('a',)], [True], xs=[('n', 'a'), ('n', 'a')], lbs=dict(n=1, a=1), reverse=rev, weight=6),
            scan_c(f'E1/scan outputs only/{r}', lambda d, c, w, k: ((), g2(k[0], w[0])), [], [], consts=[('a',)], cdeps=[True], xs=[('n', 'a')], lbs=dict(n=1, a=1), reverse=rev, weight=6),
            scan_c(f'E1/scan matrix outputs/{r}', lambda d, c, w, k: ((h1(c[0]),), c[0][:, None] * w[0]), [('a',)], [True], xs=[('n', 'b')], lbs=N, reverse=rev, weight=6),
            scan_c(f'E1/scan constant outputs/{r}', lambda d, c, w, k: ((g1(c[0]),), (w[0] * 2, c[0])), [('a',)], [True], xs=[('n', 'b')], lbs=N, reverse=rev, weight=6),
        ]
    # unrolled at fixed lengths against the unrolled program
    for ln in (1, 2, 3):
        for rev in (False, True):
            r = 'backward' if rev else 'forward'

            def f(d, x, w, rev=rev):
                return L.scan(lambda c, q: (T('F', (d.a,))(c, q), T('G', ())(c) * q), x, w, reverse=rev)

            def unrolled(d, x, w, rev=rev, ln=ln):
                ys = {}
                for i in reversed(range(ln)) if rev else range(ln):
                    x, ys[i] = T('F', (d.a,))(x, w[i]), T('G', ())(x) * w[i]
                return x, jnp.stack([ys[i] for i in range(ln)])

            out.append(fl2(f'E1/scan against unrolled/{r}/{ln}', f, unrolled, [('a',), (ln,)], A, [True, False], weight=8))
    # nested jit
    nj = dict(
        whole=(lambda j: j(lambda d, x: T('F', (2,))(x)), [('a',)], A),
        part=(lambda j: lambda d, x: j(lambda u: g1(u) * 2)(x).sum() * x, [('a',)], A),
        nested=(lambda j: lambda d, x: j(lambda u: j(lambda v: g1(v))(u) + u)(x), [('a',)], A),
        twice=(lambda j: lambda d, x: (lambda q: q(x) + q(h1(x)))(j(lambda u: g1(u) * u)), [('a',)], A),
        constant=(lambda j: lambda d, x, c: j(lambda u: u @ u)(c) @ x, [('a',), ('a', 'a')], A),
        mixed=(lambda j: lambda d, x, c: j(lambda u, v: (u * v, v * 2))(x, c), [('a',), ('a',)], A),
        outputs=(lambda j: lambda d, x: j(lambda u: (u, g1(u), u))(x), [('a',)], A),
        closure=(lambda j: lambda d, x: j(lambda u: g1(u) * 3.0 + jnp.ones(2).sum())(x), [('a',)], A),
    )
    for n, (mk, sh, lbs) in nj.items():
        deps = [True] + [False] * (len(sh) - 1)
        jf = mk(lambda f: JIT(f) if n != 'whole' else (lambda d, *x: JIT(functools.partial(f, d))(*x)))
        pf = mk(lambda f: f)
        out.append(fl2(f'E1/nested jit/{n}', jf, pf, sh, lbs, deps, weight=5))
    # custom derivative rules: the rule given by the user, not the derivative of the body
    D1, D2 = EF('d', 1), EF('e', 2)

    @jax.custom_jvp
    def cj(x):
        return g1(x)

    cj.defjvp(lambda p, t: (cj(p[0]), D1(p[0]) * t[0]))

    @jax.custom_jvp
    def cj2(x, y):
        return g2(x, y)

    cj2.defjvp(lambda p, t: (cj2(*p), D2(*p) * t[0] + h2(*p) * t[1]))

    @jax.custom_jvp
    def cjm(x):
        return x @ x.T

    cjm.defjvp(lambda p, t: (cjm(p[0]), t[0] @ p[0].T * 3 + p[0] @ t[0].T))

    cu = dict(
        elementwise=(lambda d, x: cj(x), [('a', 'b')], AB, [True]),
        inside=(lambda d, x: (cj(h1(x)) * x).sum(0), [('a', 'b')], AB, [True]),
        two=(lambda d, x, y: cj2(x, y), [('a',)] * 2, A, [True, True]),
        two_left=(lambda d, x, y: cj2(x, y), [('a',)] * 2, A, [True, False]),
        two_right=(lambda d, x, y: cj2(x, y), [('a',)] * 2, A, [False, True]),
        matrix=(lambda d, x: cjm(x), [('a', 'b')], AB, [True]),
        jitted=(lambda d, x: JIT(cj)(x), [('a',)], A, [True]),
        constant=(lambda d, x, y: cj(y) * x, [('a',)] * 2, A, [True, False]),
    )
    for n, (f, sh, lbs, deps) in cu.items():
        out.append(fl(f'E1/custom_jvp/{n}', f, sh, lbs, deps=deps, weight=6))
    for t in (1, 1000):
        out.append(prog(f'E1/sparse({t})/custom_jvp', lambda d, x: cj(x) + cj2(x, x[::-1]), [(3,)], {}, threshold=t, weight=5, bounded='shape (3,)'))
        out.append(prog(f'E1/sparse({t})/nested jit', lambda d, x: JIT(lambda u: g1(u) * 2)(x) + JIT(lambda u: u[::-1])(x), [(3,)], {}, threshold=t, weight=5, bounded='shape (3,)'))
        out.append(prog(f'E1/sparse({t})/scan', lambda d, x: L.scan(lambda c, q: (jnp.sin(c) * q, c * q), x, jnp.array([0.5, 2.0])), [(3,)], {}, threshold=t, weight=5, bounded='shape (3,), length 2'))
    return out


def fl2(id, f, ref, shapes, lbs, deps=None, **kw):
    """{any states}  forward_laplacian(f)  {second-order chain rule of another program ref}."""
    c = fl(id, f, shapes, lbs, deps=deps, **kw)
    c.spec = fl(id, ref, shapes, lbs, deps=deps, **kw).spec
    return c

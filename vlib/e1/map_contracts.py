"""C11: the chunked map, for every mapped size N and batch size m.

N <= m is parametrised as m = N + t; N = n*m + r with 0 < r < m as m = r + s; N = n*m."""
from __future__ import annotations

import jax
import jax.numpy as jnp

from folx import batched_vmap

from . import uf
from .contract import Contract, I

CASES = dict(
    fits=(dict(n=1, t=0), lambda d: (d.n, d.n + d.t)),
    exact=(dict(n=2, m=1), lambda d: (d.n * d.m, d.m)),
    remainder=(dict(n=1, r=1, s=1), lambda d: (d.n * (d.r + d.s) + d.r, d.r + d.s)),
)


def evaluated_at_once(m):
    """No application of the mapped function on more than m elements."""

    def check(d, jaxpr):
        out = []

        def walk(j):
            for e in j.eqns:
                if e.primitive.name == 'uft':
                    size = 1
                    for x in e.invars[0].aval.shape[: e.params['nb']]:
                        size = size * x
                    out.append((f'the function is evaluated on {size} elements at once, more than the maximum batch size', m(d) - size))
                for v in e.params.values():
                    for q in v if isinstance(v, (tuple, list)) else [v]:
                        q = getattr(q, 'jaxpr', q)
                        if hasattr(q, 'eqns'):
                            walk(q)

        walk(jaxpr.jaxpr)
        if not out:
            raise TypeError('the mapped function is not evaluated at all')
        return out

    return check


def c11(tier):
    F = lambda *xs: uf.tensor('F', (2,))(*xs)  # noqa: E731
    G = lambda *xs: uf.tensor('G', ())(*xs)  # noqa: E731

    def mk(name, fn, shapes, in_axes, out_axes, pack=None, lbs=None, dtypes=None):
        pack = pack or (lambda *a: a)
        for cn, (base, nm) in CASES.items():
            N = lambda d, nm=nm: nm(d)[0]  # noqa: E731
            ins = [I(f'x{k}', *[N if q == 'N' else q for q in s], dtype=(dtypes or 'ffff')[k]) for k, s in enumerate(shapes)]

            def impl(d, *a, nm=nm):
                return batched_vmap(fn, nm(d)[1], in_axes=in_axes, out_axes=out_axes)(*pack(*a))

            def spec(d, *a):
                return jax.vmap(fn, in_axes=tuple(in_axes) if isinstance(in_axes, list) else in_axes, out_axes=out_axes)(*pack(*a))

            out.append(Contract(f'E1/{name}/{cn}', {**base, **(lbs or {})}, ins, impl, spec, weight=3, check=evaluated_at_once(lambda d, nm=nm: nm(d)[1])))

    out = []
    A = dict(a=2)
    mk('scalar-elements', G, [('N',)], 0, 0)
    mk('vector-elements', F, [('N', 'a')], 0, 0, lbs=A)
    mk('in-axis-1', F, [('a', 'N')], 1, 0, lbs=A)
    mk('in-axis-last', F, [('a', 'N')], -1, 0, lbs=A)
    mk('out-axis-1', F, [('N', 'a')], 0, 1, lbs=A)
    mk('out-axis-last', F, [('N', 'a')], 0, -1, lbs=A)
    mk('two-args', F, [('N', 'a'), ('N',)], 0, 0, lbs=A)
    mk('two-args-axes', F, [('N', 'a'), (3, 'N')], (0, 1), 0, lbs=A)
    mk('two-args-axes-list', F, [('a', 'N'), ('N',)], [1, 0], 0, lbs=A)
    mk('static-second', F, [('N', 'a'), ('b',)], (0, None), 0, lbs=dict(a=2, b=2))
    mk('static-first', F, [('b',), ('a', 'N')], (None, 1), 0, lbs=dict(a=2, b=2))
    mk('static-middle', F, [('N',), ('b',), ('a', 'N')], (0, None, -1), 1, lbs=dict(a=2, b=2))
    mk('matrix-elements', F, [('a', 'N', 'b')], 1, 0, lbs=dict(a=2, b=2))
    mk('tuple-out', lambda x: (F(x), G(x)), [('N', 'a')], 0, 0, lbs=A)
    mk('dict-out', lambda x: {'p': F(x), 'q': {'r': G(x)}}, [('N', 'a')], 0, 0, lbs=A)
    mk('tuple-out-axes', lambda x: (F(x), G(x)), [('N', 'a')], 0, (1, 0), lbs=A)
    mk('dict-arg', lambda x: F(x['u'], x['v']), [('N', 'a'), ('N',)], 0, 0, pack=lambda u, v: ({'u': u, 'v': v},), lbs=A)
    mk('dict-arg-mixed', lambda x, w: F(x['u'], w, x['v']), [('N', 'a'), ('N',), ('b',)], (0, None), 0, pack=lambda u, v, w: ({'u': u, 'v': v}, w), lbs=dict(a=2, b=2))
    mk('dict-axes', lambda x: F(x['u'], x['v']), [('a', 'N'), ('b',)], ({'u': 1, 'v': None},), 0, pack=lambda u, v: ({'u': u, 'v': v},), lbs=dict(a=2, b=2))
    mk('unmapped-output', lambda x, w: (F(x), w), [('N', 'a'), ('b',)], (0, None), (0, None), lbs=dict(a=2, b=2))
    mk('uses-batch-values', lambda x: F(x) * x.sum() + x[0], [('N', 'a')], 0, 0, lbs=A)
    return out

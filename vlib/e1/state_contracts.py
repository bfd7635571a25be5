"""C16 composition of states, C17 blocked derivatives."""
from __future__ import annotations

import jax
import jax.numpy as jnp
import jax.tree_util as jtu
import numpy as np

from folx import forward_laplacian

from . import uf
from .contract import Contract, I
from .lib import IS, fl, prog, rows, triples

T, EF = uf.tensor, uf.elementwise
g1, h1, g2, h2 = EF('g', 1), EF('h', 1), EF('k', 2), EF('l', 2)
A, AB, ABC = dict(a=1), dict(a=1, b=1), dict(a=1, b=1, c=1)
L = jax.lax


def padrows(res, n):
    return [(r[0], jnp.pad(r[1], ((0, n - r[1].shape[0]),) + ((0, 0),) * (r[1].ndim - 1)), r[2]) if len(r) == 3 else r for r in res]


def compose(id, f, g, shapes, lbs, t1=0, t2=0, consts=(), jit=False, dense=False, swap=False, **kw):
    """{any x}  forward_laplacian(g)(*forward_laplacian(f)(x), plain constants)  {state of g o f}.

    f(d, *x) -> state or tuple; g(d, *leaves, *consts)."""
    n = len(shapes)

    def tup(o):
        return o if isinstance(o, tuple) else (o,)

    def impl(d, *arrs):
        xs, cs = arrs[:n], arrs[n:]
        s = forward_laplacian(lambda *a: f(d, *a), t1, disable_jit=not jit)(*xs)
        ss = jtu.tree_leaves(s, is_leaf=IS)
        if dense:
            ss = [q.dense if IS(q) else q for q in ss]
        args = (*cs, *ss) if swap else (*ss, *cs)
        o = forward_laplacian(lambda *a: g(d, *a), t2, disable_jit=not jit)(*args)
        res = triples(o, sum(x.size for x in xs))
        return padrows(res, sum(x.size for x in xs)) if t1 or t2 else res

    def spec(d, *arrs):
        xs, cs = arrs[:n], arrs[n:]

        def h(*a):
            ys = tuple(jtu.tree_leaves(f(d, *a)))
            return g(d, *cs, *ys) if swap else g(d, *ys, *cs)

        return rows(h, xs)

    ins = [I(f'x{k}', *s) for k, s in enumerate(shapes)] + [I(f'c{k}', *s) for k, s in enumerate(consts)]
    return Contract(id, lbs, ins, impl, spec, **kw)


def c16(tier):
    out = []
    FG = dict(
        any=(lambda d, x: T('F', (d.b,))(x), lambda d, y: T('G', (d.c,))(y), [('a',)], ABC),
        any_to_scalar=(lambda d, x: T('F', (d.b,))(x), lambda d, y: T('G', ())(y), [('a', 2)], AB),
        elementwise=(lambda d, x: g1(x), lambda d, y: h1(y), [('a', 'b')], AB),
        reduce=(lambda d, x: g1(x).sum(0), lambda d, y: h1(y) * y, [('a', 'b')], AB),
        move=(lambda d, x: g1(x).T[::-1], lambda d, y: T('G', ())(y), [('a', 'b')], AB),
        matmul=(lambda d, x: g1(x), lambda d, y: y @ y.T, [('a', 'b')], AB),
        two=(lambda d, x: (g1(x), T('F', ())(x)), lambda d, u, v: u * h1(v) + v, [('a',)], A),
        passthrough=(lambda d, x: (x, g1(x)), lambda d, u, v: (g2(u, v), u, v), [('a',)], A),
        two_inputs=(lambda d, x, y: g2(x[:, None], y), lambda d, z: h1(z).sum(0), [('a',), ('b',)], AB),
        ident=(lambda d, x: x, lambda d, y: y, [('a', 'b')], AB),
        scalar=(lambda d, x: T('F', ())(x), lambda d, y: h1(y), [('a',)], A),
        const_out=(lambda d, x: (g1(x), jnp.ones(3)), lambda d, u, c: (u * c.sum(), c), [('a',)], A),
    )
    for n, (f, g, sh, lbs) in FG.items():
        out.append(compose(f'E1/compose/{n}', f, g, sh, lbs, weight=5))
        if n in ('any', 'two', 'passthrough'):
            out.append(compose(f'E1/compose jitted/{n}', f, g, sh, lbs, jit=True, weight=5))
            out.append(compose(f'E1/compose densified/{n}', f, g, sh, lbs, dense=True, weight=5))
    FC = dict(
        scale=(lambda d, x: g1(x), lambda d, y, c: h1(y * c), [('a', 'b')], [('a', 'b')], AB),
        any=(lambda d, x: T('F', (d.b,))(x), lambda d, y, c: T('G', (2,))(y, c), [('a',)], [('c',)], ABC),
        matmul=(lambda d, x: g1(x), lambda d, y, c: y @ c, [('a', 'b')], [('b', 'c')], ABC),
        concat=(lambda d, x: g1(x), lambda d, y, c: h1(jnp.concatenate([y, c])), [('a',)], [('b',)], AB),
        only_constant=(lambda d, x: g1(x), lambda d, y, c: (h1(c), y), [('a',)], [('b',)], AB),
    )
    for n, (f, g, sh, cs, lbs) in FC.items():
        out.append(compose(f'E1/state and plain/{n}', f, g, sh, lbs, consts=cs, weight=5))
        out.append(compose(f'E1/plain and state/{n}', f, lambda d, c, *y, g=g: g(d, *y, c), sh, lbs, consts=cs, swap=True, weight=5))
    # three-fold chaining
    out.append(compose('E1/compose/wrapped elementwise any', lambda d, x: h1(T('F', (d.b,))(g1(x))), lambda d, y: g2(y, y * y), [('a',)], AB, weight=5))
    # sparse states at fixed shapes
    FS = dict(
        elementwise=(lambda d, x: g1(x), lambda d, y: h1(y), (2, 3)),
        reduce=(lambda d, x: g1(x).sum(0), lambda d, y: h1(y) * y[0], (3, 2)),
        pairs=(lambda d, x: g1(x[:, None] - x), lambda d, y: h1(y).sum(1), (3,)),
        perm=(lambda d, x: g1(x) + x[np.array([2, 0, 1])], lambda d, y: g2(y, y[::-1]), (3,)),
        two=(lambda d, x: (g1(x[:2]) * x[2:], x), lambda d, u, v: (g2(u, v[:2]), v.sum()), (4,)),
        matmul=(lambda d, x: g1(x), lambda d, y: y @ y.T, (2, 2)),
        part=(lambda d, x: g1(x[1:3]), lambda d, y: h1(y * jnp.arange(2.0)), (4,)),
        opaque=(lambda d, x: g1(x), lambda d, y: T('G', ())(y), (3,)),
        concat=(lambda d, x: jnp.concatenate([g1(x), jnp.ones(2)]), lambda d, y: y * y[-1] + y[0], (2,)),
    )
    ths = [(0, 1000), (1000, 0), (1000, 1000), (2, 3)] if tier == 'quick' else [(a, b) for a in (0, 1, 2, 3, 1000) for b in (0, 1, 2, 3, 1000) if a or b]
    for n, (f, g, s) in FS.items():
        for t1, t2 in ths:
            out.append(compose(f'E1/sparse({t1},{t2})/{n}', f, g, [s], {}, t1=t1, t2=t2, weight=4, bounded=f'shape {s}'))
    return out


# ---- C17 ----------------------------------------------------------------------------------

BLOCK = dict(
    stop_gradient=(lambda x: L.stop_gradient(x), [True]),
    sign=(jnp.sign, [True]),
    gt=(lambda x: x > 0.4, [True]),
    ge=(lambda x: x >= 0.4, [True]),
    lt=(lambda x: x < 0.4, [True]),
    le=(lambda x: x <= 0.4, [True]),
    eq=(lambda x: x == x, [True]),
    ne=(lambda x: x != x * 2.0, [True]),
    isfinite=(jnp.isfinite, [True]),
    int32=(lambda x: x.astype(jnp.int32), [True]),
    int64=(lambda x: x.astype(jnp.int64), [True]),
    boolean=(lambda x: x.astype(bool), [True]),
    floor=(jnp.floor, [True]),
    round=(jnp.round, [True]),
    ceil=(jnp.ceil, [True]),
    and_=(lambda x: (x > 0.3) & (x < 0.6), [True]),
    or_=(lambda x: (x > 0.6) | (x < 0.4), [True]),
    not_=(lambda x: ~(x > 0.6), [True]),
    xor_=(lambda x: (x > 0.6) ^ (x < 0.4), [True]),
    any=(lambda x: jnp.any(x > 0.5), [True]),
    all=(lambda x: jnp.all(x > 0.5), [True]),
)
# which of them fold to a floating value that may feed other branches
FEED = {n: (lambda x, f=f: f(x).astype(x.dtype)) for n, (f, _) in BLOCK.items() if n not in ('floor', 'round', 'ceil', 'any', 'all')}


def c17(tier):
    out = []
    for n, (f, plain) in BLOCK.items():
        pl = plain if n not in ('floor', 'round', 'ceil') else None
        out.append(fl(f'E1/blocked/{n}', lambda d, x, f=f: f(x), [('a', 'b')], AB, plain=pl, dom=(0.2, 0.9), weight=2))
        out.append(prog(f'E1/blocked on input/{n}', lambda d, x, f=f: f(x), [('a',)], A, dom=(0.2, 0.9), weight=2))
    for n, f in FEED.items():
        out.append(fl(f'E1/beside another branch/{n}', lambda d, x, f=f: g1(x) * f(x) + h1(x), [('a',)], A, dom=(0.2, 0.9), weight=3))
        out.append(fl(f'E1/fed into any function/{n}', lambda d, x, f=f: g2(x, f(x)), [('a',)], A, dom=(0.2, 0.9), weight=3))
        out.append(prog(f'E1/sparse/{n}', lambda d, x, f=f: g1(x) * f(x[::-1]) + x, [(3,)], {}, threshold=1000, dom=(0.2, 0.9), bounded='shape (3,)', weight=3))
    S = L.stop_gradient
    out.append(fl('E1/stop_gradient of any tensor function', lambda d, x: T('F', (d.b,))(S(T('G', (d.a,))(x))) + T('H', (d.b,))(x), [('a',)], AB, weight=4))
    out.append(fl('E1/value beside stopped value', lambda d, x: (x, S(x), x * S(x)), [('a',)], A, plain=[False, True, False], weight=3))
    out.append(fl('E1/where on comparison', lambda d, x, y: jnp.where(x > y, g1(x), h1(y)), [('a', 'b')] * 2, AB, weight=3, dom=(0.2, 0.9)))
    out.append(fl('E1/where on comparison with constant', lambda d, x: jnp.where(x > 0.5, g1(x), 0.0), [('a', 'b')], AB, weight=3, dom=(0.2, 0.9)))
    out.append(fl('E1/select with blocked branch', lambda d, x: jnp.where(x > 0.5, g1(x), S(h1(x))), [('a',)], A, weight=3, dom=(0.2, 0.9)))
    out.append(fl('E1/normalise by stopped sum', lambda d, x: g1(x) / S(g1(x).sum()), [('a',)], A, weight=3))
    out.append(fl('E1/max shift', lambda d, x: g1(x - S(x.max())), [('a',)], A, weight=3))
    out.append(fl('E1/comparison of both', lambda d, x, y: (x > y, x * y), [('a',)] * 2, A, plain=[True, False], weight=3))
    out.append(fl('E1/comparison with plain', lambda d, x, y: (x > y, y > x, x * y), [('a',)] * 2, A, deps=[True, False], plain=[True, True, False], weight=3))
    out.append(fl('E1/abs by sign', lambda d, x: jnp.sign(x) * x, [('a',)], A, weight=3, dom=(0.2, 0.9)))
    out.append(fl('E1/index by argmax-free mask', lambda d, x: (x * (x > 0.5)).sum(), [('a',)], A, weight=3, dom=(0.2, 0.9)))
    out.append(fl('E1/round trip through int', lambda d, x: x + x.astype(jnp.int32).astype(x.dtype) * g1(x), [('a',)], A, weight=3, dom=(0.2, 0.9)))
    for t in (1, 2, 1000):
        out.append(prog(f'E1/sparse({t})/stopped', lambda d, x: g1(x) * S(h1(x)) + S(x[::-1]) * x, [(2, 2)], {}, threshold=t, bounded='shape (2, 2)', weight=3))
        out.append(prog(f'E1/sparse({t})/where', lambda d, x: jnp.where(x > x[::-1], g1(x), x[::-1]), [(4,)], {}, threshold=t, bounded='shape (4,)', weight=3, dom=(0.2, 0.9)))
        out.append(prog(f'E1/sparse({t})/outputs', lambda d, x: (jnp.sign(x), S(g1(x)), x * x), [(3,)], {}, threshold=t, bounded='shape (3,)', weight=3))
    return out

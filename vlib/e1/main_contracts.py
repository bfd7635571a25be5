"""C01, C08, C16, C17: forward_laplacian on whole programs over uninterpreted functions."""
from __future__ import annotations

import jax
import jax.numpy as jnp

from . import uf
from .lib import prog

T, EF = uf.tensor, uf.elementwise
g1, h1, g2 = EF('g', 1), EF('h', 1), EF('k', 2)
A, AB, ABC = dict(a=1), dict(a=1, b=1), dict(a=1, b=1, c=1)

# name: (f(d, *args), leaf shapes, sizes, pack)
PROGS = dict(
    ident=(lambda d, x: x, [('a', 'b')], AB, None),
    any_vector=(lambda d, x: T('F', (d.b,))(x), [('a',)], AB, None),
    any_matrix=(lambda d, x: T('F', (d.b, d.c))(x), [('a', 2)], ABC, None),
    scalar_in=(lambda d, x: T('F', ())(x), [()], {}, None),
    composed=(lambda d, x: T('G', (d.c,))(T('F', (d.b,))(x)), [('a',)], ABC, None),
    two_args=(lambda d, x, y: T('F', (d.c,))(x, y), [('a',), ('b',)], ABC, None),
    two_args_used_twice=(lambda d, x, y: g2(x, y) * x + y, [('a', 'b')] * 2, AB, None),
    layer=(lambda d, x, y: g1(x @ y), [('a', 'b'), ('b', 'c')], ABC, None),
    mlp=(lambda d, x, w, v: h1(v @ g1(w @ x)), [('a',), ('b', 'a'), ('c', 'b')], ABC, None),
    softmax_like=(lambda d, x: g1(x) / g1(x).sum(-1, keepdims=True), [('a', 'b')], AB, None),
    residual=(lambda d, x: x + T('F', (d.a,))(x) * h1(x).sum(), [('a',)], A, None),
    pair=(lambda d, x: g1(x[:, None] - x[None]).sum(), [('a',)], A, None),
    moves=(lambda d, x: jnp.concatenate([g1(x).T, x.T * 2], 0)[::-1], [('a', 'b')], AB, None),
    tree=(lambda d, t, z: {'u': g1(t['p']) * z, 'v': (T('F', ())(t['q']), t['p'])}, [('a',), ('b',), ()], AB, lambda p, q, z: ({'p': p, 'q': q}, z)),
    constants=(lambda d, x: (jnp.ones(3), g1(x), jnp.arange(4), x), [('a',)], A, None),
    passed_twice=(lambda d, x, y: (x, x, y + 0 * y.sum()), [('a',), ('b',)], AB, None),
    unused_arg=(lambda d, x, y: g1(x), [('a',), ('b',)], AB, None),
    blocked=(lambda d, x: g1(x) * jax.lax.stop_gradient(h1(x)) + jnp.sign(x), [('a',)], A, None),
)


# elementwise functions which broadcast: the result has another shape than the operand
_stop = jax.lax.stop_gradient
for _n, _c in dict(lead=lambda x: _stop(x)[None], lead2=lambda x: _stop(x)[None, None], trail=lambda x: _stop(x)[:, None], one=lambda x: _stop(x)[:1, None], scalar=lambda x: _stop(x).sum()).items():
    PROGS['logaddexp_' + _n] = (lambda d, x, c=_c: jnp.logaddexp(g1(x), c(x)), [('a',)], A, None)
    PROGS['logaddexp_r_' + _n] = (lambda d, x, c=_c: jnp.logaddexp(c(x), g1(x)) * x, [('a',)], A, None)
    PROGS['logaddexp_b_' + _n] = (lambda d, x, c=_c: jnp.logaddexp(g1(x), g1(x).sum() + c(x)), [('a',)], A, None)


def c01(tier):
    out = []
    for n, (f, shapes, lbs, pack) in PROGS.items():
        out.append(prog(f'E1/program/{n}', f, shapes, lbs, pack=pack, weight=6))
    for n in ('any_vector', 'two_args', 'tree', 'constants'):
        f, shapes, lbs, pack = PROGS[n]
        out.append(prog(f'E1/program jitted/{n}', f, shapes, lbs, pack=pack, jit=True, weight=6))
    return out


def c08(tier):
    out = []

    def add(n, f, shapes, lbs, wins, weights, wfull, pack=None, **kw):
        out.append(prog(f'E1/weights/{n}', f, shapes, lbs, pack=pack, wins=wins, weights=weights, wfull=wfull, weight=6, **kw))

    fs = dict(
        ident=(lambda d, x: x, [('a', 'b')], AB),
        any=(lambda d, x: T('F', (d.c,))(x), [('a', 'b')], ABC),
        elementwise=(lambda d, x: g1(x), [('a', 'b')], AB),
        composed=(lambda d, x: T('G', (2,))(g1(x)) * h1(x).sum(), [('a', 'b')], AB),
        attention=(lambda d, x: g1(x @ x.T) @ x, [('a', 'b')], AB),
    )
    for n, (f, shapes, lbs) in fs.items():
        if n == 'attention' and tier == 'quick':
            shapes, lbs = [('a', 2)], A
        s = shapes[0]
        add(f'scalar/{n}', f, shapes, lbs, [()], lambda d, w: w, lambda d, w: (w,))
        add(f'scalar in tuple/{n}', f, shapes, lbs, [()], lambda d, w: (w,), lambda d, w: (w,))
        add(f'per element/{n}', f, shapes, lbs, [s], lambda d, w: (w,), lambda d, w: (w,))
        add(f'per element list/{n}', f, shapes, lbs, [s], lambda d, w: [w], lambda d, w: (w,))
        add(f'per column/{n}', f, shapes, lbs, [(s[1],)], lambda d, w: (w,), lambda d, w: (w,))
    two = dict(
        any=(lambda d, x, y: T('F', (2,))(x, y), [('a',), ('b',)], AB),
        mixed=(lambda d, x, y: g1(x) * T('F', ())(y) + x.sum(), [('a',), ('b',)], AB),
        concat=(lambda d, x, y: g1(jnp.concatenate([y, x])), [('a',), ('b',)], AB),
    )
    for n, (f, shapes, lbs) in two.items():
        add(f'scalar for two/{n}', f, shapes, lbs, [()], lambda d, w: w, lambda d, w: (w, w))
        add(f'per argument/{n}', f, shapes, lbs, [(), ()], lambda d, w, v: (w, v), lambda d, w, v: (w, v))
        add(f'per element of both/{n}', f, shapes, lbs, shapes, lambda d, w, v: (w, v), lambda d, w, v: (w, v))
        add(f'mixed kinds/{n}', f, shapes, lbs, [('a',), ()], lambda d, w, v: [w, v], lambda d, w, v: (w, v))
        add(f'constant weights/{n}', f, shapes, lbs, [], lambda d: (2.0, -0.5), lambda d: (2.0, -0.5))
        add(f'zero weight/{n}', f, shapes, lbs, [], lambda d: (0.0, 1.0), lambda d: (0.0, 1.0))
    ft = lambda d, t, z: {'r': T('F', (2,))(t['p'], t['q']) * z}  # noqa: E731
    pk = lambda p, q, z: ({'p': p, 'q': q}, z)  # noqa: E731
    sh = [('a',), ('b',), ()]
    add('tree scalar', ft, sh, AB, [()], lambda d, w: w, lambda d, w: ({'p': w, 'q': w}, w), pack=pk)
    add('tree per argument', ft, sh, AB, [(), ()], lambda d, w, v: (w, v), lambda d, w, v: ({'p': w, 'q': w}, v), pack=pk)
    add('tree per leaf', ft, sh, AB, [('a',), (), ()], lambda d, w, v, u: ({'p': w, 'q': v}, u), lambda d, w, v, u: ({'p': w, 'q': v}, u), pack=pk)
    # sparse mode at fixed shapes
    f6 = dict(
        elementwise=lambda d, x: g1(x), any=lambda d, x: T('F', (2,))(x), rows=lambda d, x: g1(x).sum(0) * x[0], matmul=lambda d, x: g1(x @ x.T), gather=lambda d, x: g1(x[::-1, :1] - x),
    )
    for n, f in f6.items():
        for t in (2, 1000):
            add(f'sparse({t})/scalar/{n}', f, [(2, 3)], {}, [()], lambda d, w: w, lambda d, w: (w,), threshold=t, bounded='shape (2, 3)')
            add(f'sparse({t})/per element/{n}', f, [(2, 3)], {}, [(2, 3)], lambda d, w: (w,), lambda d, w: (w,), threshold=t, bounded='shape (2, 3)')
    for t in (1, 3, 1000):
        add(f'sparse({t})/two', lambda d, x, y: g2(x[:, None], y).sum(0), [(2,), (3,)], {}, [(2,), ()], lambda d, w, v: (w, v), lambda d, w, v: (w, v), threshold=t, bounded='shapes (2,), (3,)')
    return out

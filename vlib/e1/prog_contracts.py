"""C12 operators, C13 derivative helpers: contracts over uninterpreted functions."""
from __future__ import annotations

import jax
import jax.flatten_util as jfu
import jax.numpy as jnp
import jax.tree_util as jtu

from folx import ForwardLaplacianOperator, LoopLaplacianOperator, ParallelLaplacianOperator

from . import uf
from .contract import Contract, I


def basis(n, dtype=None):
    return jnp.eye(n, dtype=dtype or jnp.float64)


def op_spec(f, x):
    """(sum of the unmixed second derivatives, flat gradient)."""
    v = x.reshape(-1)
    g = lambda z: f(z.reshape(x.shape))  # noqa: E731
    first = lambda t: jax.jvp(g, (v,), (t,))[1]  # noqa: E731
    second = lambda t: jax.jvp(lambda z: jax.jvp(g, (z,), (t,))[1], (v,), (t,))[1]  # noqa: E731
    e = basis(v.shape[0])
    return jax.vmap(second)(e).sum(), jax.vmap(first)(e)


def c12(tier):
    out = []
    F = uf.tensor('F', ())
    G = uf.tensor('G', ('a',))
    g1 = uf.elementwise('g', 1)
    h1 = uf.elementwise('h', 1)
    fs = dict(
        any=lambda x: F(x),
        elementwise_sum=lambda x: g1(x).sum(),
        readout=lambda x: h1(F(g1(x))),
        mixed=lambda x: F(x) * g1(x).sum() + h1(x.sum()),
    )
    ops = dict(forward=lambda: ForwardLaplacianOperator(0), loop=LoopLaplacianOperator, parallel=ParallelLaplacianOperator)
    shapes = dict(scalar=(), vec=('a',), mat=('a', 'b'), one=(1, 'b'), cube=('a', 'b', 'c'))
    for fn, f in fs.items():
        for sn, s in shapes.items():
            for on, op in ops.items():

                def impl(d, x, op=op, f=f):
                    return op()(f)(x)

                out.append(Contract(f'E1/{on}/{fn}/{sn}', {n: 1 for n in s if isinstance(n, str)}, [I('x', *s)], impl, lambda d, x, f=f: op_spec(f, x), weight=3))
    for sn, s in dict(scalar=(), vec=(4,), mat=(2, 3), one=(1, 2)).items():
        for fn, f in fs.items():
            for t in (1, 3, 1000, 0.5):

                def impl(d, x, t=t, f=f):
                    return ForwardLaplacianOperator(t)(f)(x)

                out.append(Contract(f'E1/sparse forward({t})/{fn}/{sn}', {}, [I('x', *s)], impl, lambda d, x, f=f: op_spec(f, x), weight=3, bounded=f'shape {s}'))
    return out


# ---- C13: Jacobian, Hessian and vector-Jacobian helpers -------------------------------


def split_like(mat, args):
    """(..., n) over the concatenated flat arguments -> one (..., *shape) per argument."""
    out, off = [], 0
    for a in args:
        out.append(mat[..., off:off + a.size].reshape(*mat.shape[:-1], *a.shape))
        off = off + a.size
    return out


def flat_out(y):
    return jnp.concatenate([q.reshape(-1) for q in jtu.tree_leaves(y)])


def jac_columns(f, args):
    """(flat output, flat input) array of all first partial derivatives, by forward mode."""
    cols = []
    for k, a in enumerate(args):
        z = a.reshape(-1)

        def one(t, k=k, z=z):
            full = lambda v: flat_out(f(*args[:k], v.reshape(a.shape), *args[k + 1:]))  # noqa: E731, B023
            return jax.jvp(full, (z,), (t,))[1]

        cols.append(jax.vmap(one, out_axes=1)(jnp.eye(z.shape[0], dtype=z.dtype)))
    return jnp.concatenate(cols, 1) if len(cols) > 1 else cols[0]


def c13(tier):
    from folx import ad as fad
    from folx import hessian as fh

    out = []
    T = uf.tensor
    g1, g2 = uf.elementwise('g', 1), uf.elementwise('h', 2)
    A, AB = dict(a=1), dict(a=1, b=1)

    # name: (f(d, *x), argument shapes, sizes, argument dtype)
    fs = {
        'any vector': (lambda d, x: T('F', (d.b,))(x), [('a',)], AB, 'f'),
        'any scalar': (lambda d, x: T('F', ())(x), [('a',)], A, 'f'),
        'any scalar of scalar': (lambda d, x: T('F', ())(x), [()], {}, 'f'),
        'any matrix of matrix': (lambda d, x: T('F', (d.b, 2))(x), [('a', 3)], AB, 'f'),
        'elementwise': (lambda d, x: g1(x), [('a', 'b')], AB, 'f'),
        'any of two': (lambda d, x, y: T('F', (d.c,))(x, y), [('a',), ('b',)], dict(a=1, b=1, c=1), 'f'),
        'elementwise of two': (lambda d, x, y: g2(x, y), [('a', 'b')] * 2, AB, 'f'),
        'any complex': (lambda d, x: T('F', (d.b,))(x) + 1j * T('G', (d.b,))(x), [('a',)], AB, 'f'),
        'any complex scalar': (lambda d, x: T('F', ())(x) + 1j * T('G', ())(x), [('a',)], A, 'f'),
        'any complex of two': (lambda d, x, y: T('F', (2,))(x, y) + 1j * T('G', (2,))(x, y), [('a',), ('b', 2)], AB, 'f'),
        'identity': (lambda d, x: x, [('a', 'b')], AB, 'f'),
        'holomorphic square': (lambda d, z: z * z, [('a',)], A, 'c'),
        'holomorphic sum': (lambda d, z: z * z.sum() + (1 + 2j) * z, [('a',)], A, 'c'),
        'holomorphic two': (lambda d, z, w: z * w * w + 1j * z, [('a',), ('a',)], A, 'c'),
        'holomorphic exp': (lambda d, z: jnp.exp(z) * (3 - 1j), [('a',)], A, 'c'),
        'holomorphic matmul': (lambda d, z, w: z @ w, [('a', 'b'), ('b',)], AB, 'c'),
    }
    trees = {
        'two outputs': (lambda d, x: (T('F', (d.b,))(x), T('G', ())(x)), [('a',)], AB, 'f'),
        'dict of outputs': (lambda d, x, y: {'p': T('F', ())(x, y), 'q': T('G', (2,))(y, x)}, [('a',), ()], A, 'f'),
    }
    for n, (f, shapes, lbs, dt) in {**fs, **trees}.items():
        ins = [I(f'x{k}', *s, dtype=dt) for k, s in enumerate(shapes)]

        def impl(d, *x, f=f):
            r = fad.jacrev(lambda *z: f(d, *z))(*x)
            return r

        def spec(d, *x, f=f):
            r = split_like(jac_columns(lambda *z: f(d, *z), x), x)
            return r[0] if len(x) == 1 else tuple(r)

        out.append(Contract(f'E1/jacrev/{n}', lbs, ins, impl, spec, weight=4))
    for n, (f, shapes, lbs, dt) in fs.items():
        ins = [I(f'x{k}', *s, dtype=dt) for k, s in enumerate(shapes)]

        def impl(d, *x, f=f):
            return fad.jacfwd(lambda *z: f(d, *z))(*x)

        def spec(d, *x, f=f):
            m = jac_columns(lambda *z: f(d, *z), x)
            return m.reshape(*jnp.shape(f(d, *x)), m.shape[-1])

        out.append(Contract(f'E1/jacfwd/{n}', lbs, ins, impl, spec, weight=4))

        cplx = dt == 'c' or 'complex' in n
        vin = ins + [I('ct', lambda d, f=f, s=shapes: 1, dtype='c' if cplx else 'f')]
        oshape = {
            'any vector': ('b',), 'any scalar': (), 'any scalar of scalar': (), 'any matrix of matrix': ('b', 2), 'elementwise': ('a', 'b'), 'any of two': ('c',),
            'elementwise of two': ('a', 'b'), 'any complex': ('b',), 'any complex scalar': (), 'any complex of two': (2,), 'identity': ('a', 'b'),
            'holomorphic square': ('a',), 'holomorphic sum': ('a',), 'holomorphic two': ('a',), 'holomorphic exp': ('a',), 'holomorphic matmul': ('a',),
        }[n]
        vin = ins + [I('ct', *oshape, dtype='c' if cplx else 'f')]

        def vimpl(d, *x, f=f):
            *x, ct = x
            return tuple(fad.vjp(lambda *z: f(d, *z), *x)(ct))

        def vspec(d, *x, f=f):
            *x, ct = x
            m = jac_columns(lambda *z: f(d, *z), x)
            return tuple(split_like(ct.reshape(-1) @ m, x))

        out.append(Contract(f'E1/vjp/{n}', lbs, vin, vimpl, vspec, weight=4))

        def limpl(d, *x, f=f):
            *x, p, q, s, t = x
            v = fad.vjp(lambda *z: f(d, *z), *x)
            return tuple(v(s * p + t * q))

        def lspec(d, *x, f=f):
            *x, p, q, s, t = x
            v = fad.vjp(lambda *z: f(d, *z), *x)
            return tuple(s * a + t * b for a, b in zip(v(p), v(q)))

        dd = 'c' if cplx else 'f'
        out.append(Contract(f'E1/vjp linear/{n}', lbs, ins + [I('p', *oshape, dtype=dd), I('q', *oshape, dtype=dd), I('s', dtype=dd), I('t', dtype=dd)], limpl, lspec, weight=4))

    # functions from complex to real numbers: JAX's convention (conjugate pairing)
    for n, f in {'abs2': lambda z: (z * z.conj()).real, 're*im': lambda z: z.real * z.imag, 'any': lambda z: T('F', (2,))(z.real, z.imag)}.items():

        def vimpl(d, z, ct, f=f):
            return fad.vjp(f, z)(ct)[0]

        def vspec(d, z, ct, f=f):
            e = jnp.eye(z.shape[0], dtype=z.dtype)
            du = jax.vmap(lambda t: jax.jvp(f, (z,), (t,))[1], out_axes=1)(e)
            dv = jax.vmap(lambda t: jax.jvp(f, (z,), (1j * t,))[1], out_axes=1)(e)
            return ct @ (du - 1j * dv)

        out.append(Contract(f'E1/vjp complex to real/{n}', A, [I('z', 'a', dtype='c'), I('ct', *((2,) if n == 'any' else ('a',)))], vimpl, vspec, weight=3))

    # Hessians of functions of one flat array
    hs = {
        'any': (lambda d, x: T('F', (d.b,))(x), AB, 'f'),
        'any complex': (lambda d, x: T('F', (d.b,))(x) + 1j * T('G', (d.b,))(x), AB, 'f'),
        'elementwise times sum': (lambda d, x: g1(x) * x.sum(), A, 'f'),
        'cube': (lambda d, z: z * z * z, A, 'c'),
        'holomorphic': (lambda d, z: z * z * z.sum() + (2 - 1j) * z, A, 'c'),
    }
    for n, (f, lbs, dt) in hs.items():
        def h2(d, x, f=f):
            e = jnp.eye(x.shape[0], dtype=x.dtype)
            g = lambda z: f(d, z)  # noqa: E731
            one = lambda s, t: jax.jvp(lambda z: jax.jvp(g, (z,), (s,))[1], (x,), (t,))[1]  # noqa: E731
            return jax.vmap(lambda s: jax.vmap(lambda t: one(s, t), out_axes=-1)(e), out_axes=-2)(e)

        out.append(Contract(f'E1/hessian/{n}', lbs, [I('x', 'a', dtype=dt)], lambda d, x, f=f: fad.hessian(lambda z: f(d, z))(x), h2, weight=5))
        for nm in ('JHJ_via_hessian', 'JHJ_via_trace', 'JHJ_via_hvp'):

            def himpl(d, x, G, f=f, nm=nm):
                return getattr(fh, nm)(lambda z: f(d, z), x, G)

            def hspec(d, x, G, f=f):
                g = lambda z: f(d, z)  # noqa: E731
                one = lambda s: jax.jvp(lambda z: jax.jvp(g, (z,), (s,))[1], (x,), (s,))[1]  # noqa: E731
                return jax.vmap(one, in_axes=1)(G).sum(0)

            out.append(Contract(f'E1/{nm}/{n}', {**lbs, 'k': 1}, [I('x', 'a', dtype=dt), I('G', 'a', 'k', dtype=dt)], himpl, hspec, weight=6))
    return out

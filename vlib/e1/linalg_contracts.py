"""C06: the sign / log-determinant rule, for every matrix size and batch shape.

Assumed contracts on jax.numpy.linalg (installed only while tracing with symbols):
  inv(A)      an arbitrary function with  d inv = -inv dA inv
  slogdet(A)  arbitrary (s, l) with       dl = Re tr(inv dA),  ds = i s Im tr(inv dA)   (0 for real A)
"""
from __future__ import annotations

import contextlib

import jax
import jax.numpy as jnp

from . import dims, uf
from .lib import fl, prog

T, EF = uf.tensor, uf.elementwise
g1, h1 = EF('g', 1), EF('h', 1)
JIT = jax.jit
L = jax.lax


def _opaque(name, A, out):
    if jnp.iscomplexobj(A):
        return L.complex(T(name + '_re', out)(A.real, A.imag), T(name + '_im', out)(A.real, A.imag))
    return T(name, out)(A)


@jax.custom_jvp
def inv1(A):
    return _opaque('inverse', A, A.shape)


@inv1.defjvp
def _(p, t):
    B = inv1(p[0])
    return B, -(B @ t[0] @ B)


@jax.custom_jvp
def sld1(A):
    l = T('logabsdet', ())(A.real, A.imag) if jnp.iscomplexobj(A) else T('logabsdet', ())(A)
    return _opaque('detsign', A, ()), l


@sld1.defjvp
def _(p, t):
    s, l = sld1(p[0])
    tr = (inv1(p[0]).T * t[0]).sum()
    if jnp.iscomplexobj(p[0]):
        return (s, l), (1j * s * tr.imag, tr.real)
    return (s, l), (jnp.zeros_like(s), tr)


def batched(f):
    def g(a, **kw):
        h = f
        for _ in a.shape[:-2]:
            h = jax.vmap(h)
        return h(a)

    return g


def inv(a):
    return batched(inv1)(a)


def slogdet(a, *, method=None):
    return batched(sld1)(a)


class assumed(contextlib.ContextDecorator):
    """Replace jnp.linalg.inv and slogdet by their assumed contracts (symbolic traces only)."""

    def __enter__(self):
        self.on = bool(dims._active)
        if self.on:
            self.old = jnp.linalg.inv, jnp.linalg.slogdet
            jnp.linalg.inv, jnp.linalg.slogdet = JIT(inv), JIT(slogdet, static_argnames='method')

    def __exit__(self, *a):
        if self.on:
            jnp.linalg.inv, jnp.linalg.slogdet = self.old


def wrap(c):
    impl, spec = c.impl, c.spec

    def i2(d, *a):
        with assumed():
            return impl(d, *a)

    def s2(d, *a):
        with assumed():
            return spec(d, *a)

    c.impl, c.spec = i2, s2
    return c


def c06(tier):
    out = []
    SH = dict(single=(), batch=('b',), batch1=(1,), batch2=('b', 'c'), batch3=(2, 'b', 1))
    sl = lambda x: tuple(jnp.linalg.slogdet(x))  # noqa: E731
    for bn, s in SH.items():
        lbs = {q: 1 for q in (*s, 'n') if isinstance(q, str)}
        for dt in 'fc':
            nm = 'complex' if dt == 'c' else 'real'
            sh = [(*s, 'n', 'n')]
            out.append(wrap(fl(f'E1/slogdet/{nm}/{bn}', lambda d, x: sl(x), sh, lbs, dtypes=[dt], plain=[dt == 'f', False], weight=9, limit=120)))
    one = dict(n=1)
    for dt in 'fc':
        nm = 'complex' if dt == 'c' else 'real'
        sh = [('n', 'n')]
        out.append(wrap(fl(f'E1/logabsdet only/{nm}', lambda d, x: jnp.linalg.slogdet(x)[1], sh, one, dtypes=[dt], plain=[False], weight=6)))
        out.append(wrap(fl(f'E1/sign times log/{nm}', lambda d, x: (lambda o: o[0] * o[1])(sl(x)), sh, one, dtypes=[dt], plain=[False], weight=6)))
        out.append(wrap(fl(f'E1/any function of both/{nm}', lambda d, x: h1(sl(x)[1]) * sl(x)[0], sh, one, dtypes=[dt], weight=6)))
        out.append(wrap(fl(f'E1/batch sum/{nm}', lambda d, x: sl(x)[1].sum(), [('b', 'n', 'n')], dict(b=1, n=1), dtypes=[dt], plain=[False], weight=6)))
        out.append(wrap(fl(f'E1/constant matrix/{nm}', lambda d, x, y: (*sl(y), x * 2), [('b',), ('n', 'n')], dict(b=1, n=1), deps=[True, False], dtypes=['f', dt], plain=[True, True, False], weight=3)))
        out.append(wrap(fl(f'E1/matrix times scale/{nm}', lambda d, x, y: sl(x * y)[1], [('n', 'n'), ()], one, deps=[True, False], dtypes=[dt, 'f'], plain=[False], weight=6)))
    # the matrix as a function of the inputs
    out.append(wrap(prog('E1/program/any matrix of the input', lambda d, x: sl(T('M', (d.n, d.n))(x))[1], [('a',)], dict(a=1, n=1), weight=9)))
    out.append(wrap(prog('E1/program/input is the matrix', lambda d, x: sl(x)[1], [('n', 'n')], one, weight=9)))
    out.append(wrap(prog('E1/program/batch of rows', lambda d, x: sl(g1(x[:, :, None] - x[:, None, :]))[1].sum(), [(2, 'a')], dict(a=1), weight=9)))
    for t in (2, 1000):
        for n, f, s in (
            ('matrix', lambda d, x: sl(x), (2, 2)),
            ('product', lambda d, x: sl(x @ x.T + jnp.eye(2))[1], (2, 2)),
            ('orbitals', lambda d, x: sl(g1(x[:, None] * jnp.arange(1.0, 3.0)))[1], (2,)),
            ('batch', lambda d, x: sl(g1(x))[1].sum(), (2, 2, 2)),
        ):
            out.append(wrap(prog(f'E1/sparse({t})/{n}', f, [s], {}, threshold=t, weight=6, bounded=f'shape {s}')))
    return out

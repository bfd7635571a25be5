"""C07: complex derivative states and conversions between number types."""
from __future__ import annotations

import jax
import jax.numpy as jnp
import numpy as np

from . import uf
from .lib import fl, prog

L = jax.lax
T, EF = uf.tensor, uf.elementwise
g1, h1 = EF('g', 1), EF('h', 1)
A, AB, ABC = dict(a=1), dict(a=1, b=1), dict(a=1, b=1, c=1)

CUN = dict(
    neg=lambda z: -z, real=jnp.real, imag=jnp.imag, conj=jnp.conj, abs=jnp.abs, square=lambda z: z**2, cube=lambda z: z**3,
    recip=lambda z: 1 / z, ipow_m2=lambda z: z**-2, mulc=lambda z: z * (1 + 2j), addc=lambda z: z + 3j, divc=lambda z: z / (1 - 2j),
    exp=jnp.exp, log=jnp.log, sin=jnp.sin, cos=jnp.cos, sqrt=jnp.sqrt, tanh=jnp.tanh, sinh=jnp.sinh, cosh=jnp.cosh,
    sum=lambda z: z.sum(), cumsum=lambda z: jnp.cumsum(z, 0), rev=lambda z: z[::-1], abs2=lambda z: (z * z.conj()).real,
    absabs=lambda z: jnp.abs(z) ** 2 + jnp.abs(z + 1j), conjmul=lambda z: z.conj() * z * z, phase=lambda z: z / jnp.abs(z),
    realimag=lambda z: z.real * z.imag, complex=lambda z: L.complex(z.real, z.imag * z.real), expreal=lambda z: jnp.exp(z).real,
    abs_real=lambda z: jnp.abs(z.real) + jnp.abs(z.imag), prod=lambda z: (1 + z)[0] * z[-1], stopped=lambda z: z * L.stop_gradient(z.conj()),
    swap=lambda z: L.complex(z.imag, z.real), anyreal=lambda z: g1(z.real) + 1j * h1(z.imag), expm1=jnp.expm1, log1p=jnp.log1p,
    where=lambda z: jnp.where(z.real > 0.5, z, z.conj()), reshape=lambda z: z.reshape(1, -1), pad=lambda z: jnp.pad(z, (1, 2)), concat=lambda z: jnp.concatenate([z, z.conj()]),
)
CBIN = dict(
    mul=lambda a, b: a * b, div=lambda a, b: a / b, add=lambda a, b: a + b, sub=lambda a, b: a - b.conj(), vdot=jnp.vdot, dot=jnp.dot,
    conjmul=lambda a, b: a.conj() * b, realpart=lambda a, b: (a * b).real, abs=lambda a, b: jnp.abs(a * b), outer=jnp.outer,
    mixed=lambda a, b: a.real * b, mixed2=lambda a, b: a * b.imag, stack=lambda a, b: jnp.stack([a, b]), select=lambda a, b: jnp.where(a.real > b.real, a, b),
)
DT = {'f': 'float64', 'f4': 'float32', 'c': 'complex128'}


def c07(tier):
    out = []
    for n, f in CUN.items():
        out.append(fl(f'E1/complex unary/{n}', lambda d, z, f=f: f(z), [('a',)], dict(a=2), dtypes=['c'], dom=(0.2, 0.9), weight=3))
        if n not in ('reshape', 'pad', 'concat', 'prod', 'rev'):
            out.append(fl(f'E1/complex unary/{n} matrix', lambda d, z, f=f: f(z), [('a', 'b')], dict(a=2, b=2), dtypes=['c'], dom=(0.2, 0.9), weight=3))
    pats = dict(LR=[True, True], L=[True, False], R=[False, True])
    for n, f in CBIN.items():
        for pn, deps in pats.items():
            for dt in (['c', 'c'], ['f', 'c'], ['c', 'f']):
                out.append(fl(f'E1/complex binary/{n}/{"".join(dt)}/{pn}', lambda d, x, y, f=f: f(x, y), [('a',)] * 2, dict(a=2), deps=deps, dtypes=dt, dom=(0.2, 0.9), weight=3))
    for pn, deps in pats.items():
        for dt in (['c', 'c'], ['f', 'c'], ['c', 'f']):
            out.append(fl(f'E1/complex matmul/{"".join(dt)}/{pn}', lambda d, x, y: x @ y, [('a', 'b'), ('b', 'c')], ABC, deps=deps, dtypes=dt, weight=5))
    # conversions
    for s in ('f', 'f4', 'c'):
        for t in ('float32', 'float64', 'complex64', 'complex128', 'float16', 'bfloat16'):
            if s == 'c' and 'complex' not in t:
                continue
            out.append(fl(f'E1/convert/{DT[s]} to {t}', lambda d, x, t=t: x.astype(t), [('a', 'b')], AB, dtypes=[s], weight=1))
            out.append(fl(f'E1/convert then use/{DT[s]} to {t}', lambda d, x, t=t: x.astype(t) * 2 + x.astype(t), [('a',)], A, dtypes=[s], weight=1))
    out.append(fl('E1/promotion/float32 with float64', lambda d, x, y: x * y + x, [('a',)] * 2, A, dtypes=['f4', 'f'], weight=2))
    out.append(fl('E1/promotion/float32 with complex', lambda d, x, y: x * y + x, [('a',)] * 2, A, dtypes=['f4', 'c'], weight=2))
    out.append(fl('E1/promotion/constant complex', lambda d, x: x * 1j, [('a',)], A, dtypes=['f4'], weight=2))
    # real inputs through complex intermediates
    P = dict(
        wave=(lambda d, x: jnp.exp(1j * x), [('a',)], A),
        wave_abs=(lambda d, x: jnp.abs(jnp.exp(1j * x) * g1(x) + 2j), [('a',)], A),
        weights=(lambda d, x, w: (x @ (w * (1 + 2j))), [('a',), ('a', 'b')], AB),
        weights_abs2=(lambda d, x, w: jnp.abs(x @ (w * (1 + 2j))) ** 2, [('a',), ('a', 'b')], AB),
        parts=(lambda d, x: L.complex(g1(x), h1(x)), [('a',)], A),
        parts_any=(lambda d, x: L.complex(T('F', (d.b,))(x), T('G', (d.b,))(x)) * (1 - 1j), [('a',)], AB),
        product=(lambda d, x: (L.complex(g1(x), h1(x)) * L.complex(h1(x), x)).imag, [('a',)], A),
        conj=(lambda d, x: (L.complex(g1(x), x) * L.complex(g1(x), x).conj()).real.sum(), [('a',)], A),
        logabs=(lambda d, x: jnp.log(jnp.abs(L.complex(g1(x), h1(x)))), [('a',)], A),
        back=(lambda d, x: jnp.real(L.complex(x, x * x)) * g1(x), [('a',)], A),
        real_of_real=(lambda d, x: (jnp.real(x), jnp.imag(x), jnp.conj(x), jnp.abs(x)), [('a',)], A),
        norm=(lambda d, x: jnp.sqrt((jnp.abs(L.complex(x, g1(x))) ** 2).sum()), [('a',)], A),
    )
    for n, (f, s, lbs) in P.items():
        out.append(prog(f'E1/real through complex/{n}', f, s, lbs, dom=(0.2, 0.9), weight=4))
    for n, sh in dict(wave=(3,), wave_abs=(3,), parts=(3,), product=(3,), conj=(3,), real_of_real=(3,)).items():
        for t in (1, 1000):
            out.append(prog(f'E1/sparse({t})/{n}', P[n][0], [sh], {}, threshold=t, dom=(0.2, 0.9), weight=4, bounded=f'shape {sh}'))
    for t in (2, 1000):
        w = np.array([[1 + 2j, 0.5], [2.0, -1j], [0.3j, 1.0]])
        out.append(prog(f'E1/sparse({t})/complex weights', lambda d, x: jnp.abs(x[:, None] * w).sum(0), [(3,)], {}, threshold=t, dom=(0.2, 0.9), weight=4, bounded='shape (3,)'))
        out.append(prog(f'E1/sparse({t})/complex pairs', lambda d, x: (L.complex(x, g1(x))[:, None] * L.complex(x, x)[None].conj()).real.sum(0), [(2,)], {}, threshold=t, weight=4, bounded='shape (2,)'))
    return out

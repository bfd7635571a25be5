"""C15: the Jacobian container against its denotation.

Row n of the denoted array is the sum of the stored entries whose index is n.
Index arrays are symbolic (any integers) wherever the code accepts traced arrays;
where it analyses NumPy masks they are enumerated at fixed shapes (bounded)."""
from __future__ import annotations

import itertools

import jax
import jax.numpy as jnp
import numpy as np

from folx.api import FwdJacobian
from folx.utils import add_jacobians, extend_jacobians, get_reduced_jacobians, jac_jacT, trace_jac_jacT, trace_of_product

from .contract import Contract, I
from .sparse_contracts import mask


def deno(data, m, rows):
    """rows: concrete or traced integer array (k, ...); result (k, *shape)."""
    out = []
    for r in rows:
        out.append(jnp.sum(jnp.where(m == r, data, jnp.zeros_like(data)), 0))
    return jnp.stack(out)


def full(data, m, n):
    return deno(data, m, range(n))


def symbolic():
    cs = []
    shapes = [('scalar', (), {}), ('vector', ('p',), dict(p=1)), ('matrix', ('p', 'q'), dict(p=1, q=1))]
    for nm, s, lbs in shapes:
        for dt in 'fc':
            # any row count, any index array, any number of rows requested up to 3
            for K in (1, 2, 3):
                cs.append(Contract(
                    f'materialize/{nm}/{dt}/rows={K}', dict(lbs, r=1), [I('J', 'r', *s, dtype=dt), I('m', 'r', *s, dtype='i', lo=-1, hi=K)],
                    lambda d, J, m, K=K: FwdJacobian(J, m).materialize_for_idx(m, K),
                    lambda d, J, m, K=K: full(J, m, K)))
        for K in (1, 2, 3):
            # indices of the mask in the list of wanted rows: distinct rows, any mask
            ones = (1,) * len(s)

            def first(m, rows):
                out = jnp.full_like(m, -1)
                for i, q in reversed(list(enumerate(rows))):
                    out = jnp.where(m == q, i, out)
                return out

            cs.append(Contract(
                f'get_index_mask/{nm}/{K}', dict(lbs, r=1), [I('m', 'r', *s, dtype='i', lo=-1, hi=6), I('o', K, *s, dtype='i', lo=-1, hi=6)],
                lambda d, m, o: FwdJacobian(m * 1.0, m).get_index_mask(o),
                lambda d, m, o, first=first: first(m, o)))
            cs.append(Contract(
                f'get_index_mask/{nm}/common {K}', dict(lbs, r=1), [I('m', 'r', *s, dtype='i', lo=-1, hi=6), I('o', K, *ones, dtype='i', lo=-1, hi=6)],
                lambda d, m, o: FwdJacobian(m * 1.0, m).get_index_mask(o),
                lambda d, m, o, first=first: first(m, o)))
            for dt in 'fc':
                cs.append(Contract(
                    f'construct_jac_for/{nm}/{dt}/any rows {K}', dict(lbs, r=1), [I('J', 'r', *s, dtype=dt), I('m', 'r', *s, dtype='i', lo=-1, hi=5), I('a', *s, dtype='i', lo=0, hi=5)],
                    lambda d, J, m, a, K=K: FwdJacobian(J, m).construct_jac_for(jnp.stack([a + i for i in range(K)])),
                    lambda d, J, m, a, K=K: deno(J, m, [a + i for i in range(K)])))
            # any two distinct rows, in any order
        for dt in 'fc':
            cs.append(Contract(
                f'construct_jac_for/{nm}/{dt}/two rows', dict(lbs, r=1), [I('J', 'r', *s, dtype=dt), I('m', 'r', *s, dtype='i', lo=-1, hi=5), I('a', *s, dtype='i', lo=0, hi=5), I('b', *s, dtype='i', lo=1, hi=4)],
                lambda d, J, m, a, b: FwdJacobian(J, m).construct_jac_for(jnp.stack([a, a - b])),
                lambda d, J, m, a, b: jnp.stack([deno(J, m, [a])[0], jnp.sum(jnp.where((m == a - b), J, jnp.zeros_like(J)), 0)]),
                ))
            cs.append(Contract(
                f'dense rows/{nm}/{dt}', dict(lbs, r=1), [I('J', 'r', *s, dtype=dt), I('i', 2, dtype='i', lo=0, hi='r')],
                lambda d, J, i: [FwdJacobian(J).construct_jac_for(i), FwdJacobian(J).construct_jac_for(None), FwdJacobian(J).dense_array, FwdJacobian(J).as_dense.data],
                lambda d, J, i: [jnp.stack([J[i[0]], J[i[1]]]), J, J, J]))
            cs.append(Contract(
                f'no rows/{nm}/{dt}', dict(lbs, r=1), [I('J', 'r', *s, dtype=dt), I('m', 'r', *s, dtype='i', lo=-1, hi=5)],
                lambda d, J, m: [FwdJacobian(J).construct_jac_for(np.zeros(0, int)), FwdJacobian(J, m).construct_jac_for(np.zeros(0, int))],
                lambda d, J, m: [jnp.zeros((1, *J.shape[1:]), J.dtype)] * 2))
            # a larger index only adds zero rows
            for w, wl in (('equal', dict(r=1)), ('first wider', dict(r=1, e=1)), ('second wider', dict(r=1, e=1))):
                ra, rb = dict([('equal', ('r', 'r')), ('first wider', (lambda d: d.r + d.e, 'r')), ('second wider', ('r', lambda d: d.r + d.e))])[w]

                def addw(d, A, B):
                    n = d.r if w == 'equal' else d.r + d.e
                    z = lambda X: jnp.concatenate([X, jnp.zeros((n - X.shape[0], *X.shape[1:]), X.dtype)])  # noqa: E731
                    return z(A) + z(B)

                def addd(d, A, B, w=w):
                    if w == 'equal':
                        return A + B
                    n = d.r
                    if w == 'first wider':
                        return jnp.concatenate([A[:n] + B, A[n:]])
                    return jnp.concatenate([B[:n] + A, B[n:]])

                def pad2(d, A, B, w=w):
                    if w == 'equal':
                        return [A, B]
                    z = jnp.zeros((d.e, *A.shape[1:]), A.dtype)
                    return [A, jnp.concatenate([B, z])] if w == 'first wider' else [jnp.concatenate([A, z]), B]

                ins = [I('A', ra, *s, dtype=dt), I('B', rb, *s, dtype=dt)]
                ll = {**lbs, **wl}
                cs.append(Contract(f'add dense/{nm}/{dt}/{w}', ll, ins, lambda d, A, B: [(FwdJacobian(A) + FwdJacobian(B)).data, add_jacobians(A, B)], lambda d, A, B, f=addd: [f(d, A, B)] * 2))
                cs.append(Contract(f'extend/{nm}/{dt}/{w}', ll, ins, lambda d, A, B: list(extend_jacobians(A, B, axis=0)), pad2))
                flat = lambda X: X.reshape(X.shape[0], -1)  # noqa: E731
                cs.append(Contract(
                    f'pairs dense/{nm}/{dt}/{w}', ll, ins,
                    lambda d, A, B: [trace_jac_jacT(FwdJacobian(A), FwdJacobian(B), None), jac_jacT(FwdJacobian(A), FwdJacobian(B), None), list(get_reduced_jacobians(FwdJacobian(A), FwdJacobian(B), idx=None))],
                    lambda d, A, B, f=pad2, flat=flat: (lambda P: [jnp.sum(P[0] * P[1]), flat(P[0]).T @ flat(P[1]), [flat(P[0]), flat(P[1])]])(f(d, A, B))))
            cs.append(Contract(
                f'parts dense/{nm}/{dt}', dict(lbs, r=1), [I('J', 'r', *s, dtype=dt), I('m', 'r', *s, dtype='i', lo=-1, hi=5)],
                lambda d, J, m: [[getattr(FwdJacobian(J, q), k).data for k in ('real', 'imag')] + [FwdJacobian(J, q).conj().data, FwdJacobian(J, q).astype(complex).data] + [x.x0_idx for x in (FwdJacobian(J, q).real, FwdJacobian(J, q).imag, FwdJacobian(J, q).conj(), FwdJacobian(J, q).astype(complex)) if q is not None or x.x0_idx is not None] for q in (None, m)],
                lambda d, J, m: [[J.real, J.imag, J.conj(), J.astype(complex)], [J.real, J.imag, J.conj(), J.astype(complex), m, m, m, m]]))
    cs.append(Contract(
        'trace_of_product', dict(b=1, p=1, q=1), [I('A', 'b', 'p', 'q'), I('B', 'b', 'p', 'q')], lambda d, A, B: trace_of_product(A, B), lambda d, A, B: jnp.sum(A * B, (1, 2))))
    return cs


SHAPES = [(), (3,), (2, 2), (1, 3), (2, 1, 2)]
KINDS = ('own', 'off', 'uni', 'uni2', 'rows', 'cols', 'hole', 'dup', 'none', 'swap', 'mix', 'mix3', 'full')


def from_masks(id, shape, ms, dt, n, **kw):
    """Every operation on one Jacobian, for any data, on each of the given index arrays."""
    def wide(a):
        return jnp.pad(a, ((0, n - a.shape[0]),) + ((0, 0),) * (a.ndim - 1))

    ones = (1,) * len(shape)
    sel = [np.arange(n + 1), np.array([n, 1, 0]), np.array([2])]
    per = [((np.arange(int(np.prod(shape))).reshape(shape) + i) % (n + 1))[None] for i in range(2)]
    own = np.concatenate(per)  # rows that differ from element to element

    def impl(d, *data):
        out = []
        for m, J in zip(ms, data):
            j = FwdJacobian(J, m)
            out.append([wide(j.dense_array), wide(j.as_dense.data), wide(j.construct_jac_for(None))])
            out.append([j.construct_jac_for(s.reshape(-1, *ones)) for s in sel] + [j.construct_jac_for(jnp.asarray(s.reshape(-1, *ones))) for s in sel])
            out.append([j.construct_jac_for(own), j.construct_jac_for(jnp.asarray(own))])
            out.append([wide(k.dense_array) for k in (j.real, j.imag, j.conj(), j.astype(complex))])
        return out

    def spec(d, *data):
        out = []
        for m, J in zip(ms, data):
            D = full(J, m, n)
            out.append([D] * 3)
            out.append([deno(J, m, s) for s in sel] * 2)
            out.append([deno(J, m, own)] * 2)
            out.append([D.real, D.imag, D.conj(), D.astype(complex)])
        return out

    return Contract(id, {}, [I(f'J{i}', *m.shape, dtype=dt) for i, m in enumerate(ms)], impl, spec, bounded=f'shape {shape}, {len(ms)} index arrays', **kw)


def pairs(id, shape, ma, mb, dts, n, **kw):
    """Sum, aligned rows, trace and outer product of two Jacobians with the given index arrays."""
    k = int(np.prod(shape))

    def wide(a):
        return jnp.pad(a, ((0, n - a.shape[0]),) + ((0, 0),) * (a.ndim - 1))

    def den(J, m):
        return wide(J) if m is None else full(J, m, n)

    rows = np.arange(n)[1:3].reshape(-1, *(1,) * len(shape))

    def impl(d, A, B):
        a, b = FwdJacobian(A, ma), FwdJacobian(B, mb)
        out = [wide((a + b).dense_array), wide((b + a).dense_array)]
        ra, rb = get_reduced_jacobians(a, b, idx=None)
        out += [wide(ra), wide(rb), trace_jac_jacT(a, b, None), jac_jacT(a, b, None)]
        if ma is not None and mb is not None:
            out += list(get_reduced_jacobians(a, b, idx=rows)) + [trace_jac_jacT(a, b, rows), jac_jacT(b, a, rows)]
        return out

    def spec(d, A, B):
        a, b = den(A, ma), den(B, mb)
        fa, fb = a.reshape(n, k), b.reshape(n, k)
        out = [a + b, b + a, fa, fb, jnp.sum(a * b), fa.T @ fb]
        if ma is not None and mb is not None:
            ga, gb = fa[1:3], fb[1:3]
            out += [ga, gb, jnp.sum(ga * gb), gb.T @ ga]
        return out

    sh = lambda m, w: (w, *shape) if m is None else m.shape  # noqa: E731
    return Contract(id, {}, [I('A', *sh(ma, 2), dtype=dts[0]), I('B', *sh(mb, 3), dtype=dts[1])], impl, spec, bounded=f'shape {shape}', **kw)


def by_mask(tier):
    cs, n = [], 4
    for s in SHAPES:
        for dt in 'fc':
            ms = [mask(k, s) for k in KINDS]
            for i in range(0, len(ms), 5):
                cs.append(from_masks(f'masks/{s}/{dt}/{i}', s, ms[i:i + 5], dt, n))
    some = KINDS if tier != 'quick' else ('own', 'uni', 'hole', 'dup', 'mix', 'full')
    for s in SHAPES if tier != 'quick' else SHAPES[:3]:
        for i, k in enumerate(some):
            for j, l in enumerate((*some[:i + 1], None)):
                dts = ('ff', 'fc', 'cf', 'cc')[(i + j) % 4]
                cs.append(pairs(f'pair/{s}/{k}+{l or "dense"}', s, mask(k, s), l and mask(l, s), dts, n))
    # every index array of a small shape
    for s, R, q in (((), 2, 3), ((), 3, 2), ((2,), 1, 3), ((2,), 2, 2)) + ((((2,), 2, 3), ((3,), 2, 2)) if tier != 'quick' else ()):
        size = int(np.prod((R, *s)))
        al = [np.array(v, np.int32).reshape(R, *s) for v in itertools.product(range(-1, q), repeat=size)]
        al = [m for m in al if m.max() >= 0]
        for i in range(0, len(al), 16):
            cs.append(from_masks(f'all masks/{s}/{R}x{q}/{i}', s, al[i:i + 16], 'f', q))
        if tier != 'quick' or size <= 2:
            for i, (a, b) in enumerate(itertools.product(al, al)):
                if i % (1 if tier != 'quick' else 5) == 0 and len(al) <= 80:
                    cs.append(pairs(f'all pairs/{s}/{R}x{q}/{i}', s, a, b, 'ff', q))
    return cs


def c15(tier):
    return symbolic() + by_mask(tier)

"""C02: sparse runs proved equal to the derivatives of the program, at fixed shapes.

``sfl`` is the contract of one forward_laplacian call on sparse states: any values, any
Jacobian entries, an arbitrary fixed dependency mask per argument.  The postcondition is the
second-order chain rule on the Jacobians the masks stand for, written out independently."""
from __future__ import annotations

import jax
import jax.numpy as jnp
import jax.tree_util as jtu
import numpy as np

from folx import forward_laplacian
from folx.api import FwdJacobian, FwdLaplArray

from . import uf
from .contract import Contract, I
from .lib import IS, prog, second_order, triples
from .linalg_contracts import wrap

T, EF = uf.tensor, uf.elementwise
g1, h1, g2 = EF('g', 1), EF('h', 1), EF('k', 2)
L = jax.lax
N = 4  # number of tracked inputs the masks refer to


def dense(data, mask, n):
    """The Jacobian a mask stands for: entry (i, p) collects the rows r with mask[r, p] == i."""
    return jnp.stack([sum(jnp.where(m == i, r, jnp.zeros_like(r)) for r, m in zip(data, mask)) for i in range(n)])


def mask(kind, shape, n=N):
    size = int(np.prod(shape))
    pos = np.arange(size).reshape(shape)
    ax0 = np.arange(shape[0]).reshape((-1,) + (1,) * (len(shape) - 1)) + 0 * pos if shape else pos
    ax1 = np.arange(shape[-1]) + 0 * pos if shape else pos
    rng = np.random.default_rng([size, sum(map(ord, kind))])
    rows = dict(
        own=[pos % n],
        off=[(pos + 2) % n],
        uni=[0 * pos + 1],
        uni2=[0 * pos + 3, 0 * pos],
        rows=[ax0 % n, (ax0 + 2) % n],
        cols=[ax1 % n, (ax1 + 1) % n],
        hole=[np.where(pos % 2, pos % n, -1)],
        dup=[pos % n, pos % n],
        none=[0 * pos - 1, pos % n],
        swap=[np.where(pos % 2, 0, 1), np.where(pos % 2, 1, 0)],
        mix=[rng.integers(-1, n, shape) for _ in range(2)],
        mix3=[rng.integers(-1, n, shape) for _ in range(3)],
        full=[0 * pos + i for i in range(n)],
        # some elements store an input twice, none depends on all inputs
        twin=[pos % n, (pos + 1) % n, np.where(pos % 2, (pos + 2) % n, pos % n)],
        flip=[ax0 % n, (shape[0] - 1 - ax0) % n if shape else pos, (shape[0] - 1 - ax0) % n if shape else pos],
    )[kind]
    return np.stack([np.asarray(r) + 0 * pos for r in rows]).astype(np.int32)


def sfl(id, f, shapes, masks, threshold=1000, n=N, consts=(), jit=False, dtypes=None, dom=None, alias=False, cdtypes=None, **kw):
    """{states with any x, any Jacobian entries on the given masks, any L}
    forward_laplacian(f, threshold)(*states, *plain)  {second-order chain rule}."""
    ms = [None if m == 'dense' else mask(m, s, n) for m, s in zip(masks, shapes)]
    k = len(shapes)

    def states(arrs):
        out = []
        for i, m in enumerate(ms):
            x, J, lap = arrs[3 * i:3 * i + 3]
            if m is not None:  # representation invariant: entries of no input (-1) hold zeros
                J = jnp.where(m >= 0, J, jnp.zeros_like(J))
            out.append(FwdLaplArray(x, FwdJacobian(J, m), lap))
        return out

    def unassigned(o):
        """The entries the representation invariant requires to be zero, per output."""
        out = []
        for q in jtu.tree_leaves(o, is_leaf=IS):
            if IS(q):
                j = q.jacobian
                if j.x0_idx is not None and (j.x0_idx.dtype.kind != 'i' or j.x0_idx.shape != j.data.shape or j.x0_idx.min() < -1 or j.x0_idx.max() >= n):
                    raise TypeError(f'mask {j.x0_idx.dtype}{j.x0_idx.shape} for data {j.data.shape}: {j.x0_idx.tolist()}')
                none = () if j.x0_idx is None else np.argwhere(j.x0_idx == -1)
                out.append(sum((abs(j.data[tuple(p)]) for p in none), jnp.zeros((), j.data.dtype)).real)
        return out

    def impl(d, *arrs):
        ss, cs = states(arrs[:3 * k]), arrs[3 * k:]
        o = forward_laplacian(lambda *a: f(*a), threshold, disable_jit=not jit)(*ss, *cs)
        return [(r[0], jnp.pad(r[1], ((0, n - r[1].shape[0]),) + ((0, 0),) * (r[1].ndim - 1)), r[2]) if len(r) == 3 else r for r in triples(o, n)], unassigned(o)

    def spec(d, *arrs):
        cs = arrs[3 * k:]
        xs = arrs[0:3 * k:3]
        Js = [J if m is None else dense(J, m, n) for J, m in zip(arrs[1:3 * k:3], ms)]
        res = second_order(lambda *a: f(*a, *cs), tuple(xs), tuple(Js), tuple(arrs[2:3 * k:3]))
        return res, [jnp.zeros((), r[0].real.dtype) for r in res if len(r) == 3]

    ins = []
    for i, (s, m) in enumerate(zip(shapes, ms)):
        dt = dtypes[i] if dtypes else 'f'
        lo, hi = dom or (None, None)
        ins += [I(f'x{i}', *s, lo=lo, hi=hi, dtype=dt), I(f'J{i}', n if m is None else m.shape[0], *s, dtype=dt), I(f'L{i}', *s, dtype=dt)]
    ins += [I(f'c{i}', *s, dtype=(cdtypes or 'f' * len(consts))[i], **(dict(lo=dom[0], hi=dom[1]) if dom else {})) for i, s in enumerate(consts)]
    return Contract(id, {}, ins, impl, spec, bounded=f'shapes {list(shapes)}, masks {list(masks)}', **kw)


C0 = 0.5 + 1j
# program, shapes, options
ONE = dict(
    any_elementwise=(g1, [(2, 3)]),
    chain=(lambda x: h1(g1(x) * 2.0 + 1.0), [(4,)]),
    neg_scale=(lambda x: -x * 3.0 + 1.0, [(2, 2)]),
    square=(lambda x: x * x, [(2, 2)]),
    int_pow=(lambda x: x**3, [(4,)]),
    self_binary=(lambda x: g2(x, x), [(3,)]),
    rev_binary=(lambda x: g2(x, x[::-1]), [(3,)]),
    rev_mul=(lambda x: x * x[::-1], [(4,)]),
    rev_add=(lambda x: x + x[::-1], [(4,)]),
    rev_sub=(lambda x: g1(x - x[::-1]), [(4,)]),
    rev_div=(lambda x: x / x[::-1], [(3,)], dict(dom=(0.5, 1.5))),
    rev_max=(lambda x: jnp.maximum(x, x[::-1]), [(4,)]),
    rev_select=(lambda x: jnp.where(np.array([True, False, True]), x, x[::-1]) * x, [(3,)]),
    clip=(lambda x: jnp.clip(x, -0.5, 0.5), [(4,)]),
    abs=(lambda x: jnp.abs(x) * x, [(3,)]),
    pairs=(lambda x: g1(x[:, None] - x[None]), [(3,)]),
    row_bcast=(lambda x: x * x[:1], [(2, 3)]),
    col_bcast=(lambda x: x[:, :1] * x + x[:1], [(2, 2)]),
    sum0=(lambda x: x.sum(0), [(2, 3)]),
    sum1=(lambda x: g1(x).sum(1), [(2, 3)]),
    sum_all=(lambda x: x.sum(), [(2, 2)]),
    sum_all_nl=(lambda x: h1(g1(x).sum()), [(4,)]),
    sum_mid=(lambda x: x.sum(1), [(2, 2, 2)]),
    mean=(lambda x: x.mean(1) ** 2, [(2, 2)]),
    prod=(lambda x: x.prod(), [(3,)]),
    prod_axis=(lambda x: x.prod(0), [(2, 2)]),
    cumsum=(lambda x: jnp.cumsum(x, 1), [(2, 3)]),
    cumsum_rev=(lambda x: L.cumsum(x, 0, True) * x, [(3,)]),
    reshape=(lambda x: x.reshape(3, 2) * 2.0, [(2, 3)]),
    transpose=(lambda x: g1(x.T), [(2, 3)]),
    transpose3=(lambda x: x.transpose(2, 0, 1), [(2, 2, 2)]),
    squeeze=(lambda x: x.squeeze(1), [(3, 1)]),
    expand=(lambda x: x[None, :, None], [(3,)]),
    bcast=(lambda x: jnp.broadcast_to(x[:, None], (3, 2)), [(3,)]),
    bcast0=(lambda x: jnp.broadcast_to(x, (2, 3)), [(3,)]),
    rev=(lambda x: x[::-1, ::-1], [(2, 3)]),
    slice=(lambda x: x[1:3], [(4,)]),
    slice_stride=(lambda x: x[::2, 1:], [(3, 3)]),
    slices=(lambda x: x[:2] * x[2:], [(4,)]),
    split=(lambda x: tuple(jnp.split(x, 2, 1)), [(2, 4)]),
    gather=(lambda x: x[np.array([2, 0, 0])], [(3, 2)]),
    gather2=(lambda x: x[np.array([[0, 1], [1, 1]]), np.array([0, 2])], [(2, 3)]),
    take=(lambda x: jnp.take(x, np.array([1, 0]), axis=1), [(2, 2)]),
    dyn_slice=(lambda x: L.dynamic_slice(x, (1,), (2,)), [(4,)]),
    dyn_update=(lambda x: L.dynamic_update_slice(x, x[:2] * 2.0, (1,)), [(4,)]),
    dyn_update_const=(lambda x: L.dynamic_update_slice(x, np.ones(2), (1,)), [(4,)]),
    at_set=(lambda x: x.at[1].set(x[0]), [(3,)]),
    at_set_const=(lambda x: x.at[1].set(2.0), [(3,)]),
    at_add=(lambda x: x.at[1].add(x[0]), [(3,)]),
    at_add_dup=(lambda x: x.at[np.array([1, 1, 2])].add(x), [(3,)]),
    zeros_at=(lambda x: jnp.zeros(5).at[1:4].set(x), [(3,)]),
    segment=(lambda x: jax.ops.segment_sum(x, np.array([0, 1, 1, 0]), 3), [(4,)]),
    pad=(lambda x: jnp.pad(x, ((1, 0), (0, 2))), [(2, 2)]),
    pad_value=(lambda x: jnp.pad(x, (1, 1), constant_values=2.0) ** 2, [(3,)]),
    pad_neg=(lambda x: L.pad(x, 1.5, ((-1, 1, 1),)), [(3,)]),
    concat=(lambda x: jnp.concatenate([x, g1(x[:1])]), [(2, 2)]),
    concat_const=(lambda x: jnp.concatenate([x, jnp.ones(2)]), [(3,)]),
    concat1=(lambda x: jnp.concatenate([x, x[:, ::-1]], 1), [(2, 2)]),
    stack=(lambda x: jnp.stack([x, x[::-1]], 1), [(3,)]),
    roll=(lambda x: jnp.roll(x, 1, 0), [(3, 2)]),
    tile=(lambda x: jnp.tile(x, 2), [(3,)]),
    diag=(lambda x: jnp.diagonal(x), [(3, 3)]),
    tril=(lambda x: jnp.tril(x), [(3, 3)]),
    matvec=(lambda x: x @ np.array([1.0, -2.0, 0.5]), [(2, 3)]),
    matmul_const=(lambda x: np.arange(6.0).reshape(3, 2) @ x, [(2, 2)]),
    gram=(lambda x: x @ x.T, [(2, 2)]),
    self_dot=(lambda x: x @ x, [(4,)]),
    rev_dot=(lambda x: x @ x[::-1], [(4,)]),
    gram_nl=(lambda x: g1(x) @ x, [(2, 2)]),
    batch_dot=(lambda x: jnp.einsum('bij,bjk->bik', x, x), [(2, 2, 1)] if False else [(2, 2, 2)]),
    einsum=(lambda x: jnp.einsum('ij,ij->j', x, g1(x)), [(2, 2)]),
    outer=(lambda x: x[:, None] * x, [(3,)]),
    opaque=(lambda x: T('F', ())(x), [(3,)]),
    opaque_vec=(lambda x: T('F', (2,))(x), [(2, 2)]),
    opaque_two=(lambda x: T('F', ())(x[:2], g1(x[1:])), [(3,)]),
    passthrough=(lambda x: (x, x), [(3,)]),
    multi=(lambda x: (x[0], g1(x).sum(0), x * 2.0), [(2, 2)]),
    stopped=(lambda x: L.stop_gradient(g1(x)) * x, [(3,)]),
    sign=(lambda x: (jnp.sign(x) * x, x * x), [(3,)]),
    where=(lambda x: jnp.where(x > x[::-1], x * x, x[::-1]), [(4,)]),
    nested_jit=(lambda x: jax.jit(lambda y: g1(y) * y)(x), [(3,)]),
    logsumexp2=(lambda x: jnp.log(jnp.exp(x).sum()), [(2,)]),
    softplus=(lambda x: jax.nn.softplus(x), [(3,)]),
    distance=(lambda x: jnp.sqrt(((x[0] - x[1]) ** 2).sum()), [(2, 2)], dict(dom=(0.2, 1.4))),
    cmul=(lambda x: C0 * x, [(3,)]),
    cabs=(lambda x: jnp.abs(x + C0 * x[::-1]), [(3,)]),
    cparts=(lambda x: (lambda z: z.real * z.imag)(x + C0 * x[::-1]), [(3,)]),
    cconj=(lambda x: (lambda z: z * z.conj())(C0 * x), [(3,)]),
    cout=(lambda x: jnp.exp(1j * x), [(3,)]),
    clinear=(lambda x: L.complex(x, x[::-1]), [(3,)]),
)
TWO = dict(
    any=(g2, [(2, 2)] * 2),
    mul=(lambda x, y: x * y, [(2, 2)] * 2),
    add=(lambda x, y: x + y, [(4,)] * 2),
    sub=(lambda x, y: h1(x - y), [(3,)] * 2),
    div=(lambda x, y: x / y, [(3,)] * 2, dict(dom=(0.5, 1.5))),
    pow=(lambda x, y: x**y, [(2,)] * 2, dict(dom=(0.5, 1.5))),
    atan2=(lambda x, y: jnp.arctan2(x, y), [(2,)] * 2, dict(dom=(0.5, 1.5))),
    max=(lambda x, y: jnp.maximum(x, y), [(3,)] * 2),
    bcast=(lambda x, y: x * y, [(2, 2), (2,)]),
    bcast_any=(lambda x, y: g2(x[:, None], y), [(2,), (3,)]),
    scalar=(lambda x, y: x * y, [(), (3,)]),
    scalar_any=(lambda x, y: g2(x[None], y), [(), (3,)]),
    matmul=(lambda x, y: x @ y, [(2, 2), (2, 2)]),
    dot=(lambda x, y: x @ y, [(3,), (3,)]),
    matvec=(lambda x, y: x @ y, [(2, 3), (3,)]),
    batched=(lambda x, y: jnp.einsum('bi,bi->b', x, y), [(2, 2), (2, 2)]),
    outer=(lambda x, y: jnp.outer(x, y), [(2,), (3,)]),
    concat=(lambda x, y: jnp.concatenate([x, y]), [(2, 2), (1, 2)]),
    concat1=(lambda x, y: jnp.concatenate([x, y, x], 1), [(2, 1), (2, 2)]),
    select=(lambda x, y: jnp.where(np.array([True, False, True]), x, y), [(3,)] * 2),
    where=(lambda x, y: jnp.where(x > 0, x, y), [(3,)] * 2),
    scatter=(lambda x, y: x.at[np.array([2, 0])].add(y), [(3,), (2,)]),
    scatter_set=(lambda x, y: x.at[1:].set(y), [(3,), (2,)]),
    dyn_update=(lambda x, y: L.dynamic_update_slice(x, y, (1,)), [(4,), (2,)]),
    opaque=(lambda x, y: T('F', (2,))(x, y), [(2,), (3,)]),
    complex=(lambda x, y: L.complex(x, y), [(3,)] * 2),
    cmul=(lambda x, y: jnp.abs(L.complex(x, y)), [(2,)] * 2, dict(dom=(0.5, 1.5))),
    unused=(lambda x, y: g1(x), [(3,), (2,)]),
    swap=(lambda x, y: (y, x), [(3,), (2,)]),
)
CONST = dict(
    scale=(lambda x, c: x * c, [(2, 2)], [(2, 2)]),
    shift=(lambda x, c: g1(x + c), [(3,)], [(3,)]),
    any=(lambda x, c: g2(x, c), [(3,)], [(3,)]),
    bcast=(lambda x, c: x * c, [(3,)], [(2, 3)]),
    div=(lambda x, c: c / x, [(3,)], [(3,)], dict(dom=(0.5, 1.5))),
    matmul=(lambda x, c: x @ c, [(2, 2)], [(2, 3)]),
    matmul_l=(lambda x, c: c @ x, [(2, 2)], [(3, 2)]),
    concat=(lambda x, c: jnp.concatenate([c, x]), [(2,)], [(2,)]),
    select=(lambda x, c: jnp.where(c > 0, x, c), [(3,)], [(3,)]),
    scatter=(lambda x, c: x.at[1].set(c), [(3,)], [()]),
    into=(lambda x, c: c.at[1:].add(x), [(2,)], [(3,)]),
    opaque=(lambda x, c: T('F', (2,))(x, c), [(2,)], [(2,)]),
    complex=(lambda x, c: L.complex(x, c) * L.complex(c, x), [(2,)], [(2,)]),
)


def _opts(e, k):
    return e[k] if len(e) > k else {}


def rules(tier):
    out = []
    q = tier == 'quick'
    for n, e in ONE.items():
        f, sh = e[:2]
        kinds = ['own', 'cols', 'mix'] if q else ['own', 'off', 'uni', 'uni2', 'rows', 'cols', 'hole', 'none', 'swap', 'mix', 'mix3', 'dup', 'full']
        for m in kinds:
            for t in (1000,) if q else (1, 2, 3, 1000):
                out.append(sfl(f'E1/sparse rule({t})/{n}/{m}', f, sh, [m], t, weight=2, limit=15, **_opts(e, 2)))
    for n, e in TWO.items():
        f, sh = e[:2]
        pairs = [('own', 'own'), ('own', 'off'), ('mix', 'uni')] if q else [(a, b) for a in ('own', 'uni', 'cols', 'hole', 'mix', 'swap') for b in ('own', 'off', 'uni2', 'rows', 'mix3', 'dense')] + [('dense', 'own')]
        for m in pairs:
            for t in (1000,) if q else (2, 1000):
                out.append(sfl(f'E1/sparse rule({t})/two/{n}/{"+".join(m)}', f, sh, m, t, weight=2, limit=15, **_opts(e, 2)))
    for n, e in CONST.items():
        f, sh, cs = e[:3]
        for m in ('own', 'mix') if q else ('own', 'off', 'uni', 'rows', 'cols', 'hole', 'mix', 'mix3'):
            out.append(sfl(f'E1/sparse rule/const/{n}/{m}', f, sh, [m], 1000, consts=cs, weight=2, limit=15, **_opts(e, 3)))
    return out


SKIP = set()


def library(sel, ths, note='library'):
    """The concrete programs of vlib/e3 with symbolic inputs."""
    from ..e3.programs import P

    out = []
    for n, (f, makers, tags) in P.items():
        if not sel(n, tags) or n in SKIP:
            continue
        rng = np.random.default_rng(7)
        args = [np.asarray(m(rng)) for m in makers]
        if any(a.dtype not in (np.float64, np.float32) for a in args) or sum(a.size for a in args) > 14:
            continue
        doms = [(0.2, 1.4) if (a > 0).all() and a.size > 1 else (None, None) for a in args]
        for t in ths:
            if 'dense' in tags and t:
                continue
            c = prog(f'E1/{note}({t})/{n}', lambda d, *x, f=f: f(*x), [a.shape for a in args], {}, threshold=t, dom=doms, dtypes=['f4' if a.dtype == np.float32 else 'f' for a in args], bounded=f'shapes {[a.shape for a in args]}', weight=4, limit=20)
            out.append(wrap(c) if 'slogdet' in tags else c)
    return out


def elementwise(tier):
    """C03 on sparse and mixed states."""
    from .contracts import BINARY, POS, UNARY

    q = tier == 'quick'
    out = []
    mk = lambda n, f, sh, ms, **k: out.append(sfl(f'E1/sparse/{n}/{"+".join(ms)}', f, sh, ms, 1000, n=5, weight=2, limit=15, dom=POS, **k))  # noqa: E731
    un = dict(UNARY, any=g1)
    for n, f in un.items():
        for m in ('twin',) if q and n != 'any' else ('own', 'twin', 'mix', 'cols', 'hole', 'swap', 'flip'):
            mk(f'unary/{n}', f, [(5,)] if m != 'cols' else [(2, 3)], [m])
    for n, f in dict(BINARY, any=g2).items():
        some = not q or n in ('mul', 'div', 'any')
        for ms in ([('own', 'twin'), ('twin', 'mix'), ('dense', 'twin'), ('flip', 'dense')] if some else [('twin', 'mix'), ('dense', 'own')]):
            mk(f'binary/{n}', f, [(5,)] * 2, ms)
        for m in ('own', 'twin', 'flip') if some else ('twin',):
            mk(f'left/{n}', f, [(5,)], [m], consts=[(5,)])
            mk(f'right/{n}', lambda x, c, f=f: f(c, x), [(5,)], [m], consts=[(5,)])
    for n, f in dict(mul=jnp.multiply, div=jnp.divide, add=jnp.add, any=lambda x, y: g2(*jnp.broadcast_arrays(x, y))).items():
        for sh in ([(2, 2), (2,)], [(2, 1), (1, 3)], [(), (4,)]):
            for ms in [('twin', 'own'), ('own', 'dense')] if q else [('twin', 'own'), ('own', 'dense'), ('dense', 'twin'), ('uni2', 'mix'), ('mix3', 'twin')]:
                mk(f'broadcast/{n}/{sh}', f, sh, ms)
    return out


def c02(tier):
    out = rules(tier)
    if tier != 'quick':
        out += library(lambda n, t: True, (1, 3, 6, 1000))
    return out

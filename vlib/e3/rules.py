"""Rule-level families (C03, C04, C05, C06, C07, C15, C17): arbitrary derivative states."""
from __future__ import annotations

import jax
import jax.numpy as jnp
import numpy as np

from folx import forward_laplacian
from folx.api import FwdJacobian

from .base import IS, MASKS, Case, Fail, check_rule, close, dense_of, make_mask, make_state, need

lax = jax.lax


def pos(r, s):
    return np.exp(0.4 * r.standard_normal(s))


def unit(r, s):
    return np.tanh(0.7 * r.standard_normal(s))


def nrm(r, s):
    return r.standard_normal(s)


def far(r, s):
    return r.choice([-1, 1], s) * (0.5 + r.random(s))


UNARY = {
    'neg': (lax.neg, nrm), 'abs': (lax.abs, far), 'sqrt': (lax.sqrt, pos), 'rsqrt': (lax.rsqrt, pos),
    'log': (lax.log, pos), 'log1p': (lax.log1p, pos), 'exp': (lax.exp, nrm), 'expm1': (lax.expm1, nrm),
    'tanh': (lax.tanh, nrm), 'logistic': (lax.logistic, nrm), 'acos': (lax.acos, unit), 'asin': (lax.asin, unit),
    'atan': (lax.atan, nrm), 'cos': (lax.cos, nrm), 'sin': (lax.sin, nrm), 'tan': (lax.tan, unit),
    'ipow2': (lambda x: lax.integer_pow(x, 2), nrm), 'ipow3': (lambda x: lax.integer_pow(x, 3), nrm),
    'ipow4': (lambda x: lax.integer_pow(x, 4), nrm), 'ipow-1': (lambda x: lax.integer_pow(x, -1), far),
    'ipow-2': (lambda x: lax.integer_pow(x, -2), far), 'ipow-3': (lambda x: lax.integer_pow(x, -3), far),
    'ipow1': (lambda x: lax.integer_pow(x, 1), nrm), 'ipow0': (lambda x: lax.integer_pow(x, 0), nrm),
    'sigmoid': (jax.nn.sigmoid, nrm), 'softplus': (jax.nn.softplus, nrm), 'silu': (jax.nn.silu, nrm),
    'sinh': (lax.sinh, nrm), 'cosh': (lax.cosh, nrm), 'asinh': (lax.asinh, nrm), 'acosh': (lax.acosh, lambda r, s: 1.5 + pos(r, s)),
    'atanh': (lax.atanh, unit), 'erf': (lax.erf, nrm), 'erfc': (lax.erfc, nrm), 'cbrt': (lax.cbrt, pos),
    'exp2': (lax.exp2, nrm), 'square': (lax.square, nrm), 'relu': (jax.nn.relu, far), 'elu': (jax.nn.elu, far),
    'gelu': (jax.nn.gelu, nrm), 'lgamma': (lax.lgamma, pos), 'clamp': (lambda x: lax.clamp(-0.9, x, 0.9), far),
    'copy': (lambda x: jnp.copy(x), nrm), 'log_sigmoid': (jax.nn.log_sigmoid, nrm), 'celu': (jax.nn.celu, far),
}
BINARY = {
    'add': (lax.add, nrm, nrm), 'sub': (lax.sub, nrm, nrm), 'mul': (lax.mul, nrm, nrm), 'div': (lax.div, nrm, far),
    'pow': (lax.pow, pos, nrm), 'pow int': (lambda a, b: lax.pow(a, 3) * lax.pow(b, -2), far, far), 'atan2': (lax.atan2, far, far),
    'max': (lax.max, nrm, nrm), 'min': (lax.min, nrm, nrm), 'logaddexp': (jnp.logaddexp, nrm, nrm),
    'rem': (lax.rem, lambda r, s: 3 * far(r, s), lambda r, s: 0.4 + 0.1 * r.random(s)), 'hypot': (jnp.hypot, far, far),
    'select': (lambda a, b: lax.select_n(np.arange(a.size).reshape(a.shape) % 2 == 0, a, b), nrm, nrm),
    'bmul': (lambda a, b: jnp.multiply(a, b), nrm, nrm), 'bdiv': (lambda a, b: jnp.divide(a, b), nrm, far),
    'xlogy': (jax.scipy.special.xlogy, pos, pos),
}
SHAPES = [(), (3,), (1,), (2, 3), (1, 3), (2, 1), (2, 1, 2), (4, 3)]
THS = (0, 1, 2, 4, 100, 6)


def styles_for(rng, k):
    out = []
    for _ in range(k):
        out.append('dense' if rng.random() < 0.3 else MASKS[rng.integers(len(MASKS))])
    if k == 2 and rng.random() < 0.3:
        out[1] = out[0]
    return out


def unary_case(name, reps):
    f, dom = UNARY[name]

    def run(rng):
        for i in range(reps):
            s = SHAPES[rng.integers(len(SHAPES))]
            st = ['dense'] if i == 0 else [MASKS[rng.integers(len(MASKS))]]
            check_rule(f, (dom(rng, s),), (0,), st, rng, 5, ths=(THS[rng.integers(1, 5)] if i else 0,))

    return run


def binary_case(name, dep, reps):
    f, d1, d2 = BINARY[name]

    def run(rng):
        for i in range(reps):
            s = s2 = SHAPES[rng.integers(len(SHAPES))]
            if name in ('bmul', 'bdiv') and len(s):
                s2 = tuple(d if rng.random() < 0.6 else 1 for d in s)
                s2 = s2[rng.integers(0, len(s2)) :] if rng.random() < 0.4 else s2
                if rng.random() < 0.5:
                    s, s2 = s2, s
            st = ['dense'] * len(dep) if i == 0 else styles_for(rng, len(dep))
            check_rule(f, (d1(rng, s), d2(rng, s2)), dep, st, rng, 5, ths=(THS[rng.integers(0, 5)],))

    return run


def c03(tier):
    k = 4 if tier == 'quick' else 30
    cs = [Case(f'elementwise/{n}', unary_case(n, k)) for n in UNARY]
    for n in BINARY:
        for dep in ((0,), (1,), (0, 1)):
            cs.append(Case(f'elementwise2/{n}/{dep}', binary_case(n, dep, (k + 1) * (2 if len(dep) == 2 else 1))))
    return cs


# ------------------------------------------------------------------ structural (C04)


def _r(rng, a, b):
    return int(rng.integers(a, b))


def shape_of(rng, lo=1, hi=3, mx=3):
    return tuple(_r(rng, 1, mx + 1) for _ in range(_r(rng, lo, hi + 1)))


def st_reshape(r):
    s = shape_of(r)
    n = int(np.prod(s))
    opts = [(n,), (1, n), (n, 1)] + [(d, n // d) for d in range(1, n + 1) if n % d == 0]
    return (lambda x: x.reshape(opts[_r(r, 0, 1)] if 0 else t)) if (t := opts[_r(r, 0, len(opts))]) else None, [s]


def st_transpose(r):
    s = shape_of(r, 1, 4)
    p = tuple(int(i) for i in r.permutation(len(s)))
    return (lambda x: lax.transpose(x, p)), [s]


def st_slice(r):
    s = shape_of(r, 1, 3, 4)
    lo = [_r(r, 0, d) for d in s]
    hi = [_r(r, l + 1, d + 1) for l, d in zip(lo, s)]
    st = [_r(r, 1, 3) for _ in s]
    return (lambda x: lax.slice(x, lo, hi, st)), [s]


def st_dslice(r):
    s = shape_of(r, 1, 3, 4)
    sz = [_r(r, 1, d + 1) for d in s]
    st = [_r(r, -1, d + 1) for d in s]
    return (lambda x: lax.dynamic_slice(x, [jnp.asarray(i) for i in st], sz)), [s]


def st_take(r):
    s = shape_of(r, 1, 3, 4)
    ax = _r(r, 0, len(s))
    ish = [(), (2,), (2, 2), (3,)][_r(r, 0, 4)]
    idx = r.integers(-s[ax], s[ax], ish)
    mode = [None, 'clip', 'wrap'][_r(r, 0, 3)]
    return (lambda x: jnp.take(x, idx, axis=ax, mode=mode)), [s]


def st_gather2(r):
    s = shape_of(r, 2, 3, 3)
    i, j = r.integers(0, s[0], (3,)), r.integers(0, s[1], (3,))
    k = _r(r, 0, 4)
    if k == 0:
        return (lambda x: x[i, j]), [s]
    if k == 1:
        return (lambda x: x[i[:, None], j]), [s]
    if k == 2:
        return (lambda x: x[:, j]), [s]
    return (lambda x: jnp.asarray(x).at[i, j].get(mode='fill', fill_value=0)), [s]


def st_concat(r):
    s = list(shape_of(r, 1, 3, 3))
    ax = _r(r, 0, len(s))
    k = _r(r, 1, 4)
    shs = []
    for _ in range(k):
        t = list(s)
        t[ax] = _r(r, 1, 4)
        shs.append(tuple(t))
    return (lambda *x: lax.concatenate(x, ax)), shs


def st_bcast(r):
    s = shape_of(r, 0, 2, 3)
    m = len(s) + _r(r, 0, 3)
    dims = sorted(int(i) for i in r.choice(m, len(s), replace=False)) if m else []
    out = [_r(r, 1, 4) for _ in range(m)]
    for d, a in zip(dims, s):
        out[d] = a if a != 1 else (_r(r, 1, 4))
    return (lambda x: lax.broadcast_in_dim(x, out, dims)), [s]


def st_rev(r):
    s = shape_of(r, 1, 3)
    ax = tuple(i for i in range(len(s)) if r.random() < 0.6)
    return (lambda x: lax.rev(x, ax)), [s]


def st_select(r):
    s = shape_of(r, 0, 3)
    k = _r(r, 0, 3)
    if k == 0:
        w = r.random(s) < 0.5
        return (lambda a, b: lax.select_n(w, a, b)), [s, s]
    if k == 1:
        w = r.integers(0, 3, s).astype(np.int32)
        return (lambda a, b, c: lax.select_n(w, a, b, c)), [s, s, s]
    w = np.asarray(r.random() < 0.5)
    return (lambda a, b: lax.select_n(w, a, b)), [s, s]


def st_select_dep(r):
    s = shape_of(r, 1, 2)
    return (lambda a, b: jnp.where(a > b, a, b)), [s, s]


def st_sum(r):
    s = shape_of(r, 1, 3)
    ax = tuple(i for i in range(len(s)) if r.random() < 0.6)
    return (lambda x: lax.reduce_sum_p.bind(x, axes=ax)), [s]


def st_max(r):
    s = shape_of(r, 1, 3)
    ax = tuple(i for i in range(len(s)) if r.random() < 0.6) or (0,)
    p = [lax.reduce_max_p, lax.reduce_min_p][_r(r, 0, 2)]
    return (lambda x: p.bind(x, axes=ax)), [s]


def st_cumsum(r):
    s = shape_of(r, 1, 3)
    ax, rv = _r(r, 0, len(s)), bool(r.random() < 0.5)
    return (lambda x: lax.cumsum(x, axis=ax, reverse=rv)), [s]


def st_pad(r):
    s = shape_of(r, 1, 3)
    cfg = [(_r(r, -1, 3), _r(r, 0, 3), _r(r, 0, 2)) for _ in s]
    # (JAX itself cannot differentiate pad in the padding value alone)
    return (lambda x, c: lax.pad(x, c, cfg)), [s, ()], (0,)


def st_scatter(r):
    s = shape_of(r, 1, 3)
    k = _r(r, 1, 4)
    op = ['add', 'set', 'max', 'min'][_r(r, 0, 4)]
    idx = r.integers(0, s[0], k) if op == 'add' else r.permutation(s[0])[:k]
    k = len(idx)
    return (lambda x, u: getattr(jnp.asarray(x).at[idx], op)(u)), [s, (k, *s[1:])]


def st_dus(r):
    s = shape_of(r, 1, 3)
    u = tuple(_r(r, 1, d + 1) for d in s)
    st = [_r(r, 0, d - e + 1) for d, e in zip(s, u)]
    return (lambda x, y: lax.dynamic_update_slice(x, y, st)), [s, u]


def st_squeeze(r):
    s = tuple(1 if r.random() < 0.5 else d for d in shape_of(r, 1, 4))
    ax = tuple(i for i, d in enumerate(s) if d == 1 and r.random() < 0.8)
    return (lambda x: lax.squeeze(x, ax)), [s]


def st_lin(r):
    s = shape_of(r, 0, 3)
    k = _r(r, 0, 6)
    return [(lambda a, b: a + b), (lambda a, b: a - b), (lambda a, b: -a + b), lax.max, lax.min, lambda a, b: b - a][k], [s, s]


def st_segsum(r):
    m, k = _r(r, 1, 6), _r(r, 1, 4)
    tail = shape_of(r, 0, 1)
    seg = r.integers(0, k, m)
    return (lambda x: jax.ops.segment_sum(x, seg, k)), [(m, *tail)]


def st_sort(r):
    s = shape_of(r, 1, 2, 4)
    return (lambda x: jnp.sort(x, axis=-1)), [s]


def st_misc(r):
    s = (3, 3)
    fs = [lambda x: jnp.tril(x), lambda x: jnp.diagonal(x), lambda x: jnp.roll(x, 1, 1), lambda x: jnp.repeat(x, 2, 0), lambda x: jnp.tile(x, (1, 2)), lambda x: jnp.trace(x), lambda x: jnp.stack([x[0], x[2]]), lambda x: x[:, None, 1:], lambda x: jnp.flip(x), lambda x: x.mean(0), lambda x: jnp.moveaxis(x[None], 0, 2), lambda x: jnp.diag(x[0])]
    return fs[_r(r, 0, len(fs))], [s]


STRUCT = {k[3:]: v for k, v in list(globals().items()) if k.startswith('st_')}


def struct_case(gen, reps, complex_=False, tags=()):
    def run(rng):
        for i in range(reps):
            f, shs, *must = gen(rng)
            args = [rng.standard_normal(s) for s in shs]
            if complex_:
                args = [a + 1j * rng.standard_normal(a.shape) for a in args]
            if any(np.size(a) == 0 for a in args):
                continue
            dep = [j for j in range(len(args)) if rng.random() < 0.65 or must and j in must[0]] or [_r(rng, 0, len(args))]
            st = ['dense'] * len(dep) if i == 0 else styles_for(rng, len(dep))
            if i % 2 and i:
                st = [MASKS[rng.integers(len(MASKS))] for _ in dep]
            try:
                out = jax.eval_shape(f, *args)
            except Exception:  # noqa: BLE001  (invalid combination, e.g. negative pad)
                continue
            if any(0 in o.shape for o in jax.tree_util.tree_leaves(out)):
                continue
            if i == 0 or rng.random() < 0.3:
                t = 0
            else:
                t = THS[rng.integers(1, 6)]
            check_rule(f, tuple(args), tuple(dep), st, rng, 5, ths=(t,))

    return run


def c04(tier):
    k = 5 if tier == 'quick' else 30
    m = 2 if tier == 'quick' else 4
    return [Case(f'structural/{n}/{j}', struct_case(g, k)) for n, g in STRUCT.items() for j in range(m)]


# ------------------------------------------------------------------ contractions (C05)


def random_dot(rng, lead=None):
    nb, nc = _r(rng, 0, 3), _r(rng, 0, 3)
    nl, nr = _r(rng, 0, 3), _r(rng, 0, 3)
    if nb + nc + nl > 4:
        nl = 4 - nb - nc
    if nb + nc + nr > 4:
        nr = 4 - nb - nc

    def sz():
        return 1 if rng.random() < 0.2 else _r(rng, 1, 4)

    b = [sz() for _ in range(nb)]
    c = [sz() for _ in range(nc)]
    lf, rf = [sz() for _ in range(nl)], [sz() for _ in range(nr)]

    def lay(free):
        dims = [('b', i) for i in range(nb)] + [('c', i) for i in range(nc)] + [('f', i) for i in range(len(free))]
        style = rng.integers(0, 3)
        if style == 0:
            dims = [dims[i] for i in rng.permutation(len(dims))]
        elif style == 1:
            dims = [d for d in dims if d[0] == 'f'] + [d for d in dims if d[0] == 'b'] + [d for d in dims if d[0] == 'c']
        size = dict(b=b, c=c, f=free)
        shape = tuple(size[k][i] for k, i in dims)
        return shape, [dims.index(('b', i)) for i in range(nb)], [dims.index(('c', i)) for i in range(nc)]

    ls, lb, lc = lay(lf)
    rs, rb, rc = lay(rf)
    pb, pc = rng.permutation(nb), rng.permutation(nc)
    dn = ((tuple(lc[i] for i in pc), tuple(rc[i] for i in pc)), (tuple(lb[i] for i in pb), tuple(rb[i] for i in pb)))
    return ls, rs, dn


def dot_case(reps, dep, complex_=False):
    def run(rng):
        for i in range(reps):
            ls, rs, dn = random_dot(rng)
            while np.prod(ls) * np.prod(rs) > 250:
                ls, rs, dn = random_dot(rng)
            a, b = rng.standard_normal(ls), rng.standard_normal(rs)
            if complex_:
                a = a + 1j * rng.standard_normal(ls)
                if rng.random() < 0.5:
                    b = b + 1j * rng.standard_normal(rs)
                else:
                    b = b.astype(complex)
            prec = [None, lax.Precision.HIGHEST][_r(rng, 0, 2)]

            def f(x, y):
                return lax.dot_general(x, y, dn, precision=prec)

            st = ['dense'] * len(dep) if i % 3 == 0 else styles_for(rng, len(dep))
            if i % 3 == 2:
                st = [MASKS[rng.integers(len(MASKS))] for _ in dep]
            t = 0 if rng.random() < 0.3 else THS[rng.integers(1, 6)]
            try:
                check_rule(f, (a, b), dep, st, rng, 5, ths=(t,))
            except Fail as e:
                raise Fail(f'dot_general {ls} {rs} {dn}: {e}') from e

    return run


def dot_dtype(rng):
    """Precision and element type of the contraction."""
    seen = []
    orig = jax.lax.dot_general_p

    for k in range(6):
        a = rng.standard_normal((3, 2)).astype(np.float32)
        b = rng.standard_normal((2, 3)).astype(np.float32)
        pet = [None, jnp.float64, jnp.float32][k % 3]
        dep = [(0,), (1,), (0, 1)][k % 3 if k < 3 else (k + 1) % 3]
        f = lambda x, y: lax.dot_general(x, y, (((1,), (0,)), ((), ())), preferred_element_type=pet)  # noqa: E731
        for st in ('dense', 'perm', 'rand'):
            for t in (0, 3):
                check_rule(f, (a, b), dep, [st] * len(dep), rng, 4, ths=(t,), rtol=2e-4, atol=2e-5)
    # the precision must reach every contraction that computes the value
    a = rng.standard_normal((3, 2))
    b = rng.standard_normal((2, 3))
    for prec in (lax.Precision.HIGHEST, lax.Precision.DEFAULT):
        f = lambda x, y: lax.dot_general(x, y, (((1,), (0,)), ((), ())), precision=prec)  # noqa: E731
        jx = jax.make_jaxpr(lambda a, b: forward_laplacian(f, 0, disable_jit=True)(a, b).x)(a, b)
        from jax.interpreters import partial_eval as pe

        live = pe.dce_jaxpr(jx.jaxpr, [True])[0]
        pr = set()

        def walk(j):
            for e in j.eqns:
                if e.primitive is orig:
                    pr.add((tuple(e.outvars[0].aval.shape), str(e.params['precision'])))
                for v in e.params.values():
                    for w in v if isinstance(v, (tuple, list)) else (v,):
                        if hasattr(w, 'eqns'):
                            walk(w)
                        elif hasattr(w, 'jaxpr'):
                            walk(w.jaxpr)

        walk(live)
        seen.append(pr)
        vals = {p for s, p in pr if s == (3, 3)}
        want = str((prec, prec))
        need(not vals or vals == {want}, f'requested precision {want} but the value contraction uses {vals}')


def c05(tier):
    k, m = (5, 8) if tier == 'quick' else (25, 40)
    cs = [Case('contraction/precision and dtype', dot_dtype)]
    for dep in ((0, 1), (0,), (1,)):
        for j in range(m if len(dep) == 2 else m // 3 + 1):
            cs.append(Case(f'contraction/{dep}/{j}', dot_case(k, dep)))
    for j in range(m // 4 + 1):
        cs.append(Case(f'contraction/complex/{j}', dot_case(k, (0, 1), True)))
    es = ['ij,jk->ik', 'ij,kj->ik', 'bij,bjk->bik', 'bij,bkj->bik', 'i,i->', 'ij,ij->', 'ij,ij->i', 'bi,bi->b', 'ij,j->i', 'j,ij->i', 'ijk,jk->i', 'ijk,k->ij', 'i,j->ij', 'bij,bj->bi', 'abij,abj->abi', 'ij,ji->', 'i,ji->j', 'bij,bij->b', 'aij,ij->a', 'ij,aij->a', 'ij,aji->a', 'bi,aij->abj']

    def ein(e):
        def run(rng):
            l, r = e.split('->')[0].split(',')
            size = {c: _r(rng, 1, 4) if rng.random() < 0.4 else _r(rng, 2, 4) for c in 'abijk'}
            for i in range(k // 2 + 1):
                a = rng.standard_normal([size[c] for c in l])
                b = rng.standard_normal([size[c] for c in r])
                for dep in ((0, 1),) if i else ((0, 1), (0,), (1,)):
                    t = 0 if i == 0 else THS[rng.integers(1, 6)]
                    st = ['dense'] * len(dep) if i == 0 else [MASKS[rng.integers(len(MASKS))] for _ in dep]
                    check_rule(lambda x, y: jnp.einsum(e, x, y), (a, b), dep, st, rng, 5, ths=(t,))

        return run

    return cs + [Case(f'contraction/{e}', ein(e)) for e in es]


# ------------------------------------------------------------------ slogdet (C06)


def slogdet_case(n, batch, cplx, reps):
    def run(rng):
        for i in range(reps):
            a = rng.standard_normal((*batch, n, n)) + 0.5 * np.eye(n)
            if cplx:
                a = a + 1j * rng.standard_normal(a.shape)
            st = 'dense' if i == 0 else MASKS[rng.integers(len(MASKS))]
            t = 0 if i == 0 else THS[rng.integers(0, 6)]
            dep = (0,)
            states = make_state(rng, a, 6, st)
            what = f'n={n} batch={batch} complex={cplx} jacobian={st} threshold={t}'
            try:
                s, l = forward_laplacian(jnp.linalg.slogdet, t, disable_jit=True)(states)
            except Exception as e:  # noqa: BLE001
                raise Fail(f'{what}: raised {type(e).__name__}: {str(e)[:300]}') from e
            J = np.moveaxis(dense_of(states.jacobian, 6), 0, -1)
            L = np.asarray(states.laplacian)
            inv = np.linalg.inv(a)
            tr1 = np.einsum('...ij,...jik->...k', inv, J)
            trL = np.einsum('...ij,...ji->...', inv, L)
            B = np.einsum('...ij,...jdk->...idk', inv, J)
            tr2 = -np.einsum('...ijk,...jik->...', B, B)
            z, zj, zl = np.linalg.slogdet(a), tr1, trL + tr2
            close(l.x, z[1], f'{what} logdet value')
            close(dense_of(l.jacobian, 6), np.moveaxis(zj.real, -1, 0), f'{what} logdet Jacobian')
            close(l.laplacian, zl.real, f'{what} logdet Laplacian')
            if cplx:
                close(s.x, z[0], f'{what} sign value')
                sj = z[0][..., None] * 1j * zj.imag
                sl = z[0] * (1j * zl.imag - (zj.imag**2).sum(-1))
                close(dense_of(s.jacobian, 6), np.moveaxis(sj, -1, 0), f'{what} sign Jacobian')
                close(s.laplacian, sl, f'{what} sign Laplacian')
            else:
                need(not IS(s), f'{what}: the sign of a real matrix carries derivatives')
                close(s, z[0], f'{what} sign value')

    return run


def c06(tier):
    from . import progs

    r = 4 if tier == 'quick' else 20
    cs = []
    for n in (1, 2, 3, 4, 5):
        for b in ((), (1,), (3,), (2, 2), (1, 3), (2, 1, 2)):
            for c in (False, True):
                if tier == 'quick' and n in (4, 5) and len(b) > 1:
                    continue
                cs.append(Case(f'slogdet/{n}/{b}/{"complex" if c else "real"}', slogdet_case(n, b, c, r)))
    ths = (0, 3, 1000) if tier == 'quick' else (0, 1, 2, 3, 6, 12, 1000, 0.4)
    return cs + progs.programs(lambda n, t: 'slogdet' in t or 'det' in n, ths, (True,))


# ------------------------------------------------------------------ complex and dtype (C07)

CUNARY = {
    'exp': lambda z: jnp.exp(z), 'sin': jnp.sin, 'tanh': lambda z: jnp.tanh(0.4 * z), 'square': lambda z: z**2, 'inv': lambda z: 1 / (3 + z),
    'sqrt': lambda z: jnp.sqrt(4 + z), 'log': lambda z: jnp.log(4 + z), 'abs': lambda z: jnp.abs(z), 'real': jnp.real, 'imag': jnp.imag,
    'conj': jnp.conj, 'abs2': lambda z: (z * z.conj()).real, 'neg': lambda z: -z, 'mulc': lambda z: z * (1 + 2j), 'ipow-2': lambda z: (3 + z) ** -2,
    'cube': lambda z: z**3, 'sum': lambda z: z.sum(), 'absabs': lambda z: jnp.abs(z) ** 2 + jnp.abs(z + 1j), 'conjmul': lambda z: z.conj() * z * z,
    'prod': lambda z: jnp.prod(1 + 0.3 * z), 'phase': lambda z: z / jnp.abs(z), 'realimag': lambda z: z.real * z.imag, 'rev': lambda z: z[..., ::-1] if z.ndim else z,
    'cumsum': lambda z: jnp.cumsum(z, axis=0) if z.ndim else z, 'complex': lambda z: lax.complex(z.real, z.imag**2), 'exp real': lambda z: jnp.exp(z).real,
    'cos': jnp.cos, 'logistic': lambda z: jax.nn.sigmoid(0.3 * z), 'expm1': jnp.expm1, 'log1p': lambda z: jnp.log1p(0.2 * z),
    'absreal': lambda z: jnp.abs(z.real) + jnp.abs(z.imag) * z.real,
}
CBINARY = {
    'mul': lambda a, b: a * b, 'div': lambda a, b: a / (3 + b), 'add': lambda a, b: a + b, 'sub': lambda a, b: a - b.conj(), 'vdot': lambda a, b: jnp.vdot(a, b),
    'conjmul': lambda a, b: a.conj() * b, 'realpart': lambda a, b: (a * b).real, 'abs': lambda a, b: jnp.abs(a * b), 'outer': lambda a, b: jnp.outer(a, b), 'pow': lambda a, b: (4 + a) ** (0.2 * b),
    'mixed': lambda a, b: a.real * b, 'mixed2': lambda a, b: a * b.imag, 'stack': lambda a, b: jnp.concatenate([a.ravel(), b.ravel()]),
}


def complex_state_case(f, nargs, reps):
    def run(rng):
        for i in range(reps):
            s = [(), (3,), (2, 3), (1, 2)][rng.integers(4)]
            args = tuple(rng.standard_normal(s) + 1j * rng.standard_normal(s) for _ in range(nargs))
            dep = tuple(range(nargs)) if nargs == 1 or rng.random() < 0.6 else (_r(rng, 0, 2),)
            st = ['dense'] * len(dep) if i == 0 else styles_for(rng, len(dep))
            if i % 2:
                st = [MASKS[rng.integers(len(MASKS))] for _ in dep]
            t = 0 if i == 0 else THS[rng.integers(0, 6)]
            check_rule(f, args, dep, st, rng, 5, ths=(t,))

    return run


def dtype_state_case(rng):
    for src, dst in [('float64', 'float32'), ('float32', 'float64'), ('float64', 'complex128'), ('float32', 'complex64'), ('float64', 'complex64'), ('complex128', 'complex64'), ('complex64', 'complex128'), ('float64', 'float16'), ('float32', 'bfloat16')]:
        for st in ('dense', 'perm', 'rand', 'dup'):
            x = rng.standard_normal((2, 3))
            if 'complex' in src:
                x = x + 1j * rng.standard_normal((2, 3))
            a = make_state(rng, x.astype(src), 5, st, dtype=np.dtype(src))
            for f in (lambda z: z.astype(dst), lambda z: lax.convert_element_type(z, dst)):
                for t in (0, 3):
                    o = forward_laplacian(f, t, disable_jit=True)(a)
                    what = f'{src}->{dst} {st} threshold={t}'
                    need(IS(o), f'{what}: derivatives lost')
                    for nm, got, want in (('value', o.x, a.x), ('Laplacian', o.laplacian, a.laplacian)):
                        need(got.dtype == jnp.dtype(dst), f'{what} {nm}: dtype {got.dtype}')
                        close(got.astype(complex), want.astype(dst).astype(complex), f'{what} {nm}')
                    need(o.jacobian.data.dtype == jnp.dtype(dst), f'{what} Jacobian: dtype {o.jacobian.data.dtype}')
                    want = np.asarray(jnp.asarray(dense_of(a.jacobian, 5)).astype(dst).astype(complex))
                    got = dense_of(FwdJacobian(np.asarray(o.jacobian.data.astype(complex)), o.jacobian.x0_idx), 5)
                    close(got, want, f'{what} Jacobian', rtol=2e-2, atol=2e-2)


def c07(tier):
    from . import progs

    r = 5 if tier == 'quick' else 25
    cs = [Case('dtype conversion of states', dtype_state_case)]
    cs += [Case(f'complex/{n}', complex_state_case(f, 1, r)) for n, f in CUNARY.items()]
    cs += [Case(f'complex2/{n}', complex_state_case(f, 2, r + 1)) for n, f in CBINARY.items()]
    ths = (0, 2, 1000) if tier == 'quick' else (0, 1, 2, 3, 6, 1000, 0.4)
    return cs + progs.programs(lambda n, t: 'complex' in t or 'dtype' in t, ths, (True,))


# ------------------------------------------------------------------ FwdJacobian (C15)


def rand_jac(rng, shape, n, style, cplx=False, garbage=False, dtype=None):
    dt = np.complex128 if cplx else (dtype or np.float64)
    r = lambda s: (rng.standard_normal(s) + (1j * rng.standard_normal(s) if cplx else 0)).astype(dt)  # noqa: E731
    if style == 'dense':
        return FwdJacobian(jnp.asarray(r((int(rng.integers(1, n + 1)), *shape))))
    m = make_mask(rng, style, shape, n)
    d = r(m.shape)
    if not garbage:
        d = np.where(m < 0, 0, d)
    return FwdJacobian(jnp.asarray(d), m)


def widen(a, n):
    out = np.zeros((n, *a.shape[1:]), a.dtype)
    out[: a.shape[0]] = a
    return out


def jac_case(op, reps):
    def run(rng):
        for i in range(reps):
            shape = [(), (3,), (2, 3), (1, 2), (2, 1, 2), (4, 2)][rng.integers(6)]
            n = _r(rng, 1, 7)
            sty = lambda: MASKS[rng.integers(len(MASKS))]  # noqa: E731
            cplx = rng.random() < 0.3
            if op == 'dense':
                j = rand_jac(rng, shape, n, sty(), cplx, garbage=True)
                d = dense_of(j, n)
                what = f'mask {j.x0_idx.tolist()}'
                for nm, got in (('dense_array', j.dense_array), ('as_dense', j.as_dense.data), ('construct_jac_for(None)', j.construct_jac_for(None))):
                    need(got.shape[0] == j.x0_idx.max() + 1, f'{nm} {what}: {got.shape[0]} rows')
                    close(widen(np.asarray(got), n), d, f'{nm} {what}')
                need(j.as_dense.x0_idx is None and not j.as_dense.weak and j.weak, 'as_dense is not dense')
                need(j.max_n == j.x0_idx.max(), f'max_n {j.max_n}')
                close(np.asarray(j.unique_idx), np.unique(j.x0_idx), 'unique_idx')
            elif op == 'select':
                k = _r(rng, 1, 5)
                kind = _r(rng, 0, 3)
                # (the value of unused request slots is only fixed when padding entries hold zero)
                j = rand_jac(rng, shape, n, sty(), cplx, garbage=kind == 0)
                d = dense_of(j, n)
                if kind == 0:
                    idx = np.sort(rng.choice(n + 3, min(k, n + 3), replace=False)) if rng.random() < 0.5 else rng.permutation(n + 3)[:k]
                    idx = idx.reshape(-1, *([1] * len(shape)))
                else:
                    # distinct requests per element, -1 marks unused slots
                    k = min(k, n + 2)
                    idx = np.stack([rng.permutation(np.arange(-1, n + 2))[:k] for _ in range(int(np.prod(shape, dtype=int)))], -1).reshape(k, *shape)
                want = np.zeros((len(idx), *shape), d.dtype)
                full = np.broadcast_to(idx, want.shape)
                for p in np.ndindex(*want.shape):
                    q = full[p]
                    if 0 <= q < n:
                        want[p] = d[(q, *p[1:])]
                for arr in (idx, jnp.asarray(idx)):
                    got = j.construct_jac_for(arr)
                    close(got, want, f'construct_jac_for({idx.tolist()}) of mask {j.x0_idx.tolist()} as {type(arr).__name__}')
                e = j.construct_jac_for(np.zeros((0, *([1] * len(shape))), int))
                need(e.shape == (1, *shape) and not np.any(np.asarray(e)), 'construct_jac_for of no rows')
                dj = rand_jac(rng, shape, n, 'dense')
                ii = rng.integers(0, dj.data.shape[0], 3)
                close(dj.construct_jac_for(ii), np.asarray(dj.data)[ii], 'construct_jac_for on a dense Jacobian')
            elif op == 'index':
                j = rand_jac(rng, shape, n, sty(), cplx)
                k = _r(rng, 1, n + 2)
                out = np.stack([rng.permutation(n + 2)[:k] for _ in range(int(np.prod(shape, dtype=int)))], -1).reshape(k, *shape)
                got = np.asarray(j.get_index_mask(out))
                need(got.shape == j.x0_idx.shape, f'get_index_mask shape {got.shape}')
                for p in np.ndindex(*got.shape):
                    hit = [q for q in range(k) if out[(q, *p[1:])] == j.x0_idx[p]]
                    need(got[p] == (hit[0] if hit else -1), f'get_index_mask {p}: {got[p]} for {hit}')
                mz = j.materialize_for_idx(got, k)
                want = np.zeros((k, *shape), j.data.dtype)
                for p in np.ndindex(*got.shape):
                    if got[p] >= 0:
                        want[(got[p], *p[1:])] += np.asarray(j.data)[p]
                close(mz, want, f'materialize_for_idx of {j.x0_idx.tolist()}')
                close(j.materialize_for_idx(jnp.asarray(got), k), want, 'materialize_for_idx with a traced mask')
            elif op == 'add':
                s1, s2 = (('dense' if rng.random() < 0.25 else sty()) for _ in range(2))
                a = rand_jac(rng, shape, n, s1, cplx, garbage=True)
                if s1 != 'dense' and rng.random() < 0.4:
                    b = FwdJacobian(jnp.asarray(rng.standard_normal(a.data.shape)), a.x0_idx.copy())
                    if rng.random() < 0.5:
                        x = b.x0_idx.copy()
                        x.flat[rng.integers(x.size)] = rng.integers(-1, n)
                        if x.max() >= 0:
                            b = FwdJacobian(b.data, x)
                else:
                    b = rand_jac(rng, shape, _r(rng, 1, 7), s2, rng.random() < 0.3, garbage=True)
                m = 8
                got = a + b
                close(dense_of(got, m), dense_of(a, m) + dense_of(b, m), f'sum of {None if a.x0_idx is None else a.x0_idx.tolist()} and {None if b.x0_idx is None else b.x0_idx.tolist()}')
            elif op == 'convert':
                j = rand_jac(rng, shape, n, sty() if rng.random() < 0.7 else 'dense', cplx, garbage=True)
                d = dense_of(j, n)
                for nm, got, want in (('real', j.real, d.real), ('imag', j.imag, d.imag), ('conj', j.conj(), d.conj()), ('complex', j.astype(complex), d.astype(complex))):
                    need((got.x0_idx is None) == (j.x0_idx is None), f'{nm}: sparsity changed')
                    close(dense_of(got, n), want, f'{nm} of {None if j.x0_idx is None else j.x0_idx.tolist()}')
                if not cplx:
                    need(j.astype(np.float32).data.dtype == np.float32, 'astype float32')
                    close(dense_of(j.astype(np.float32), n), d, 'astype float32', rtol=1e-5, atol=1e-5)
                dj = rand_jac(rng, shape, n, 'dense')
                close(dense_of(FwdJacobian(dj.data, dj.mask), n), dense_of(dj, n), 'mask of a dense Jacobian')
            else:  # pairs aligned on shared rows
                from folx.utils import get_reduced_jacobians, jac_jacT, trace_jac_jacT

                js = [rand_jac(rng, shape, n, sty() if rng.random() < 0.7 else 'dense') for _ in range(2)]
                ds = [dense_of(j, n) for j in js]
                tr = np.sum(ds[0] * ds[1])
                close(trace_jac_jacT(*js, None), tr, 'trace of the product of two Jacobians')
                fl = [x.reshape(n, -1) for x in ds]
                rr = [widen(np.asarray(x), n) for x in get_reduced_jacobians(*js, idx=None)]
                close(rr[0], fl[0], 'aligned Jacobian')
                close(rr[1], fl[1], 'aligned Jacobian')
                o = np.asarray(jac_jacT(*js, None))
                close(o, fl[0].T @ fl[1], 'outer product of two Jacobians')

    return run


def c15(tier):
    k, m = (8, 7) if tier == 'quick' else (40, 24)
    return [Case(f'jacobian/{op}/{j}', jac_case(op, k)) for op in ('dense', 'select', 'index', 'add', 'convert', 'pairs') for j in range(m)]


# ------------------------------------------------------------------ non-differentiable (C17)

ND = {
    'sign': lambda x, y: jnp.sign(x), 'stop': lambda x, y: lax.stop_gradient(x * y), 'eq': lambda x, y: lax.eq(x, y), 'lt': lambda x, y: x < y, 'le': lambda x, y: x <= y,
    'gt': lambda x, y: x > y, 'ge': lambda x, y: x >= y, 'ne': lambda x, y: x != y, 'xor': lambda x, y: (x > 0) ^ (y > 0), 'not': lambda x, y: ~(x > y), 'and': lambda x, y: (x > 0) & (y > 0),
    'or': lambda x, y: (x > 0) | (y > 0), 'isfinite': lambda x, y: jnp.isfinite(x / y), 'int32': lambda x, y: (3 * x).astype(jnp.int32), 'int8': lambda x, y: (3 * x).astype(jnp.int8), 'bool': lambda x, y: x.astype(bool), 'uint8': lambda x, y: jnp.abs(3 * x).astype(jnp.uint8),
    'jsign': jax.jit(lambda x, y: jnp.sign(x - y)), 'lsign': lambda x, y: lax.sign(x), 'isnan': lambda x, y: jnp.isnan(x), 'count': lambda x, y: (x > y).sum(), 'any': lambda x, y: (x > y).any(0), 'all': lambda x, y: (x > y).all(),
}


def nd_case(name, reps):
    f = ND[name]

    def run(rng):
        for i in range(reps):
            s = [(3,), (2, 3), (1, 2)][rng.integers(3)]
            a, b = rng.standard_normal(s), rng.standard_normal(s)
            b.flat[0] = a.flat[0]
            for dep in ((0,), (1,), (0, 1)):
                st = ['dense' if i == 0 else MASKS[rng.integers(len(MASKS))] for _ in dep]
                states = {j: make_state(rng, (a, b)[j], 5, s_) for j, s_ in zip(dep, st)}
                t = 0 if i == 0 else THS[rng.integers(0, 6)]
                full = [states.get(j, (a, b)[j]) for j in range(2)]
                what = f'{name} dependent={dep} jacobians={st} threshold={t}'
                try:
                    o = forward_laplacian(f, t, disable_jit=True)(*full)
                except Exception as e:  # noqa: BLE001
                    raise Fail(f'{what}: raised {type(e).__name__}: {str(e)[:300]}') from e
                need(not IS(o), f'{what}: derivatives attached')
                w = f(a, b)
                need(np.asarray(o).dtype == w.dtype, f'{what}: dtype {np.asarray(o).dtype}')
                need(np.array_equal(np.asarray(o), np.asarray(w)), f'{what}: value {o} expected {w}')

            def g(x, y):
                return f(x, y).astype(jnp.float64) * x.sum() + x * y**2

            dep = ((0,), (1,), (0, 1))[i % 3]
            st = ['dense' if i == 0 else MASKS[rng.integers(len(MASKS))] for _ in dep]

            def ref(x, y):
                return lax.stop_gradient(f(a, b)).astype(jnp.float64) * x.sum() + x * y**2

            check_two(g, ref, (a, b), dep, st, rng, THS[rng.integers(0, 6)])

    return run


def check_two(g, ref, args, dep, styles, rng, t, n=5):
    """g under folx against the derivatives of ref."""
    from .base import check_leaf, ref_rule

    states = {i: make_state(rng, args[i], n, s) for i, s in zip(dep, styles)}

    def h(*x):
        a = list(args)
        for i, v in zip(dep, x):
            a[i] = v
        return ref(*a)

    _, r = ref_rule(h, tuple(args[i] for i in dep), tuple(dense_of(states[i].jacobian, n) for i in dep), tuple(states[i].laplacian for i in dep), n)
    what = f'dependent={dep} jacobians={styles} threshold={t}'
    try:
        o = forward_laplacian(g, t, disable_jit=True)(*[states.get(i, a) for i, a in enumerate(args)])
    except Exception as e:  # noqa: BLE001
        raise Fail(f'{what}: raised {type(e).__name__}: {str(e)[:300]}') from e
    check_leaf(o, r[0], what, n)


def c17(tier):
    from . import progs

    r = 3 if tier == 'quick' else 15
    ths = (0, 2, 1000) if tier == 'quick' else (0, 1, 2, 3, 6, 1000, 0.4)
    return [Case(f'nondiff/{n}', nd_case(n, r)) for n in ND] + progs.programs(lambda n, t: 'nondiff' in t, ths, (True, False))

"""Program-level families (C01, C02, C08, C09, C10, C12, C13, C14, C16)."""
from __future__ import annotations

import functools

import jax
import jax.numpy as jnp
import jax.tree_util as jtu
import numpy as np

from folx import (
    ForwardLaplacianOperator,
    LoopLaplacianOperator,
    ParallelLaplacianOperator,
    deregister_function,
    forward_laplacian,
    register_function,
    wrap_forward_laplacian,
)
from folx.api import FwdJacobian, FwdLaplArray, FunctionFlags
from folx.wrapped_functions import get_laplacian, is_registered

from .base import IS, Case, Fail, check_leaf, check_program, close, dense_of, make_state, need, ref_program, ref_rule
from .programs import P, A, W3, cj, cj_scaled, random_program

lax = jax.lax
LOOSE = dict(rtol=3e-4, atol=3e-5)


def _args(makers, rng):
    return tuple(m(rng) for m in makers)


def prog_case(f, makers, tags, ths, jit):
    def run(rng):
        args = _args(makers, rng)
        use = [t for t in ths if not ('dense' in tags and t)]
        check_program(f, args, ths=use, jit=jit, **(LOOSE if 'loose' in tags else {}))

    return run


def programs(sel, ths, jit, prefix='program'):
    return [Case(f'{prefix}/{n}', prog_case(f, a, t, ths, jit), weight=len(ths) * len(jit)) for n, (f, a, t) in P.items() if sel(n, t)]


def randoms(lo, hi, ths, jit):
    def mk(i):
        f, a = random_program(i, 6 + i % 6)
        return prog_case(f, a, (), ths, jit)

    return [Case(f'random program/{i}', mk(i), weight=3 * len(ths) * len(jit)) for i in range(lo, hi)]


def inputs_case(rng):
    """Trees of inputs, several positional arguments, keyword constants."""
    x, y, z = rng.standard_normal((2, 3)), rng.standard_normal(3), rng.standard_normal(())

    def f(d, l, s, *, scale=1.0, shift=None):
        r = jnp.tanh(d['a'] @ d['b']) * l[0].sum() * s + l[1][0] * scale
        return {'o': (r, r.sum()), 'p': d if shift is None else shift}

    args = ({'a': x, 'b': y}, [y, (x[:, 0],)], z)
    check_program(f, args, ths=(0, 2, 0.5), jit=(True, False))
    for kw in (dict(scale=2.5), dict(scale=np.ones(2), shift=jnp.ones(3))):
        g = functools.partial(f, **kw)
        tree, ref = ref_program(g, jtu.tree_map(jnp.asarray, args))
        for j in (False, True):
            o = forward_laplacian(f, 0, disable_jit=not j)(*args, **kw)
            lv, ot = jtu.tree_flatten(o, is_leaf=IS)
            need(ot == tree, f'structure {ot} expected {tree}')
            for i, (a, b) in enumerate(zip(lv, ref)):
                check_leaf(a, b, f'keyword arguments {sorted(kw)} jit={j} output {i}', 15)


def sizes_case(rng):
    f = lambda x: (jnp.tanh(x @ x.T).sum(0) * x.sum(-1), x.prod())  # noqa: E731
    for s in ((1, 1), (1, 4), (5, 1), (2, 2), (7, 2)):
        check_program(f, (rng.standard_normal(s),), ths=(0,), jit=(True,))
    for s in ((1,), (2,), (9,)):
        check_program(lambda x: jnp.outer(jnp.sin(x), x).sum(0) / (1 + x**2), (rng.standard_normal(s),), ths=(0,), jit=(True,))
    check_program(lambda a, b: a * b, (rng.standard_normal(()), rng.standard_normal(())), ths=(0, 1), jit=(True, False))


def c01(tier):
    cs = [Case('input trees', inputs_case), Case('input sizes', sizes_case)]
    if tier == 'quick':
        return cs + programs(lambda n, t: True, (0,), (True,)) + programs(lambda n, t: hash_(n) % 5 == 0, (0,), (False,), 'eager program') + randoms(0, 40, (0,), (True,))
    return cs + programs(lambda n, t: True, (0,), (True, False)) + randoms(0, 600, (0,), (True,))


def hash_(s):
    import zlib

    return zlib.crc32(s.encode())


def c02(tier):
    if tier == 'quick':
        return (
            programs(lambda n, t: hash_(n) % 2 == 0, (1, 6, 1.0), (True,))
            + programs(lambda n, t: hash_(n) % 2 == 1, (2, 1000, 0.4), (True,))
            + randoms(1000, 1020, (2, 6, 1000), (True,))
            + [Case('thresholds', thresholds_case)]
        )
    return programs(lambda n, t: True, (1, 2, 3, 4, 6, 12, 1000, 1.0, 0.3, 0.6), (True,)) + randoms(1000, 1500, (1, 2, 4, 6, 12, 1000, 0.5), (True,)) + [Case('thresholds', thresholds_case)]


def thresholds_case(rng):
    """Absolute and fractional thresholds mean what they say; results agree for all of them."""
    x, y = rng.standard_normal((4, 3)), rng.standard_normal(5)
    f = lambda a, b: (jnp.tanh(a[:2]).sum(0) * b[:3] + (a[1:] * a[:-1]).sum(), b)  # noqa: E731
    check_program(f, (x, y), ths=(0, 0.01, 0.05, 0.06, 0.2, 0.5, 0.99, 1, 1.0, 2, 3.0, 7.5, 17, 18, 10**6), jit=(True,))


# ------------------------------------------------------------------ weights (C08)


def weights_case(f, args, ws, ths):
    """ws: (weights passed, per-argument element weights)."""

    def run(rng):
        a = jtu.tree_map(jnp.asarray, args(rng))
        for passed, full in ws(rng, a):
            fw = jtu.tree_map(lambda w, x: jnp.broadcast_to(jnp.asarray(w, x.dtype), x.shape), full, a)

            def g(*z):
                return f(*jtu.tree_map(lambda x, w, s: x + w * s, a, fw, z))

            zero = jtu.tree_map(jnp.zeros_like, a)
            tree, ref = ref_program(g, zero)
            n = sum(x.size for x in jtu.tree_leaves(a))
            for t in ths:
                for j in (False, True):
                    what = f'weights={jtu.tree_map(lambda w: np.shape(w) or float(w), passed)} threshold={t} jit={j}'
                    try:
                        o = forward_laplacian(f, t, disable_jit=not j)(*a, weights=passed)
                    except Exception as e:  # noqa: BLE001
                        raise Fail(f'{what}: raised {type(e).__name__}: {str(e)[:200]}') from e
                    lv, ot = jtu.tree_flatten(o, is_leaf=IS)
                    need(ot == tree, f'{what}: structure')
                    for i, (l, r) in enumerate(zip(lv, ref)):
                        check_leaf(l, r, f'{what} output {i}', n, exact_width=t == 0)

    return run


def c08(tier):
    ths = (0, 2, 1000) if tier == 'quick' else (0, 1, 2, 4, 6, 12, 1000, 0.4)
    one = lambda f: dict(f=f, args=lambda r: (r.standard_normal((4, 3)),))  # noqa: E731

    def w1(r, a):
        e = r.standard_normal((4, 3))
        c = r.standard_normal(3)
        s = float(r.standard_normal())
        yield s, (s,)
        yield 2, (2,)
        yield (s,), (s,)
        yield (e,), (e,)
        yield (jnp.asarray(c),), (c,)
        yield [e], (e,)
        yield jnp.asarray(s), (s,)
        yield (0.0,), (0.0,)

    def w2(r, a):
        e, s, q = r.standard_normal(a[0].shape), float(r.standard_normal()), r.standard_normal(a[1].shape)
        yield s, (s, s)
        yield (s, q), (s, q)
        yield (e, 2.0), (e, 2.0)
        yield [e, q], (e, q)
        yield (1.0, 0.0), (1.0, 0.0)
        yield (-1.5, s), (-1.5, s)

    def wt(r, a):
        s, u = float(r.standard_normal()), float(r.standard_normal())
        e = r.standard_normal((4, 3))
        yield (s, u), ({'a': s, 'b': s}, u)
        yield ({'a': e, 'b': s}, u), ({'a': e, 'b': s}, u)
        yield s, ({'a': s, 'b': s}, s)

    tree_args = lambda r: ({'a': r.standard_normal((4, 3)), 'b': r.standard_normal(3)}, r.standard_normal(()))  # noqa: E731
    fs = {
        'mlp': lambda x: jnp.tanh(x @ np.linspace(-1, 1, 15).reshape(3, 5)).sum(0),
        'ident': lambda x: x, 'sq': lambda x: (x**2).sum(), 'mix': lambda x: (x[:, None] * x[None]).sum(-1) / (1 + (x**2).sum()),
        'slogdet': lambda x: jnp.linalg.slogdet(x[:3] + 2 * jnp.eye(3))[1], 'dot': lambda x: x @ x.T, 'norm': lambda x: jnp.linalg.norm(x[:, None] - 2 * x[None], axis=-1), 'attn': lambda x: jax.nn.softmax(x @ x.T) @ x,
    }
    cs = [Case(f'weights/{n}', weights_case(**one(f), ws=w1, ths=ths)) for n, f in fs.items()]
    two = {'mul': lambda a, b: a * b, 'sum': lambda a, b: (jnp.sin(a) * b).sum(), 'mm': lambda a, b: jnp.tanh(a) @ b, 'cat': lambda a, b: jnp.concatenate([a.ravel(), b.ravel()]) ** 2}
    for n, f in two.items():
        cs.append(Case(f'weights2/{n}', weights_case(f, lambda r: (r.standard_normal((4, 3)), r.standard_normal(3)), w2, ths)))
    cs.append(Case('weights/tree', weights_case(lambda d, s: jnp.tanh(d['a'] @ d['b']) * s, tree_args, wt, ths)))
    cs.append(Case('weights/scalars', weights_case(lambda a, b: a * jnp.sin(b), lambda r: (r.standard_normal(()), r.standard_normal(())), lambda r, a: [(2.0, (2.0, 2.0)), ((2.0, 3.0), (2.0, 3.0))], ths)))
    return cs


# ------------------------------------------------------------------ jit / custom / loops (C09)


def same_state(a, b, what, n):
    la, ta = jtu.tree_flatten(a, is_leaf=IS)
    lb, tb = jtu.tree_flatten(b, is_leaf=IS)
    need(ta == tb, f'{what}: structure {ta} and {tb}')
    for i, (x, y) in enumerate(zip(la, lb)):
        w = f'{what} output {i}'
        if IS(x) != IS(y):
            z = x if IS(x) else y
            need(not np.any(np.abs(np.asarray(z.laplacian)) > 1e-9) and not np.any(np.abs(dense_of(z.jacobian, n)) > 1e-9), f'{w}: only one carries derivatives')
            continue
        if not IS(x):
            close(x, y, w)
            continue
        close(x.x, y.x, f'{w} value')
        close(dense_of(x.jacobian, n), dense_of(y.jacobian, n), f'{w} Jacobian')
        close(x.laplacian, y.laplacian, f'{w} Laplacian')


def jit_case(name):
    f, makers, tags = P[name]

    def run(rng):
        args = jtu.tree_map(jnp.asarray, _args(makers, rng))
        n = sum(x.size for x in jtu.tree_leaves(args))
        opaque = jax.jit(f)
        for t in (0, 3):
            if t and 'dense' in tags:
                continue
            a = forward_laplacian(f, t)(*args)
            b = forward_laplacian(lambda *z: opaque(*z), t)(*args)
            same_state(a, b, f'nested jit threshold={t}', n)

    return run


def scan_case(rng):
    k = int(rng.integers(0, 7))
    length = int(rng.integers(1, 5))
    rev = bool(rng.random() < 0.5)
    unroll = int(rng.integers(1, 3))
    xs = rng.standard_normal((length, 2))
    bodies = [
        lambda c, w: (jnp.tanh(c * w[0]) + c, c.sum()),
        lambda c, w: (c * w[1], (c * w[0], w[1], c[0])),
        lambda c, w: (jnp.sin(c) * w[0] + 0.1 * c, jnp.outer(c, c)),
        lambda c, w: ((c + w[0]) ** 2 * 0.3, {'a': c, 'b': {'c': w}}),
        lambda c, w: (c @ np.linspace(-1, 1, 9).reshape(3, 3) * w[0], jnp.stack([c, c * 2])),
        lambda c, w: (jnp.where(w[0] > 0, c, c**2), c.prod()),
        lambda c, w: (c / (2 + jnp.cos(c) * w[0]), None),
    ]

    def f(x):
        return lax.scan(bodies[k], x, xs, reverse=rev, unroll=min(unroll, length))

    def g(x):
        c, ys = x, []
        for i in range(length)[:: -1 if rev else 1]:
            c, y = bodies[k](c, jnp.asarray(xs[i]))
            ys.append(y)
        if rev:
            ys = ys[::-1]
        return c, jtu.tree_map(lambda *a: jnp.stack(a), *ys)

    x = rng.standard_normal(3)
    # elementwise bodies keep the sparsity pattern and may run sparse
    ths = (0, 3) if k in (0, 1, 3, 5, 6) else (0,)
    tree, ref = ref_program(g, (jnp.asarray(x),))
    for t in ths:
        try:
            o = forward_laplacian(f, t)(x)
        except (ValueError, TypeError):
            if t == 0:
                raise
            continue  # the documented refusal: the sparsity pattern of the carry changes
        lv, ot = jtu.tree_flatten(o, is_leaf=IS)
        need(ot == tree, f'scan body {k}: structure')
        for i, (l, r) in enumerate(zip(lv, ref)):
            check_leaf(l, r, f'scan body {k} length {length} reverse={rev} unroll={unroll} threshold={t} output {i}', 3)


def scan_reject(rng):
    x = rng.standard_normal((3, 2))
    for t in (0, 4):
        for f in (lambda x: lax.scan(lambda c, w: (c + w, c), jnp.zeros(2), x), lambda x: lax.scan(lambda c, w: (c + w.sum(), c), x.sum(), x), lambda x: lax.scan(lambda c, w: (c, w * 2), 0.0, x)[1]):
            ref = ref_program(f, (jnp.asarray(x),))
            try:
                o = forward_laplacian(f, t)(x)
            except Exception:  # noqa: BLE001  (rejected, as documented)
                continue
            for i, (l, r) in enumerate(zip(jtu.tree_leaves(o, is_leaf=IS), ref[1])):
                check_leaf(l, r, f'scan over dependent inputs output {i}', 6)


def custom_states(rng):
    from .base import check_rule

    for t in (0, 2, 1000):
        for st in ('dense', 'perm', 'rand', 'dup'):
            check_rule(cj, (rng.standard_normal((2, 3)),), (0,), [st], rng, 5, ths=(t,))
            for dep in ((0,), (1,), (0, 1)):
                check_rule(cj_scaled, (rng.standard_normal((2, 3)), rng.standard_normal((2, 3))), dep, [st] * len(dep), rng, 5, ths=(t,))


def c09(tier):
    ths = (0, 3, 1000) if tier == 'quick' else (0, 1, 2, 3, 6, 12, 1000, 0.4)
    cs = programs(lambda n, t: t & {'jit', 'custom', 'loop'}, ths, (True,) if tier == 'quick' else (True, False))
    names = [n for n, (_, _, t) in P.items() if not t & {'slogdet', 'jit'}]
    names = [n for n in names if tier != 'quick' or hash_(n) % 6 == 0]
    cs += [Case(f'nested jit/{n}', jit_case(n)) for n in names]
    cs += [Case(f'scan/{i}', scan_case) for i in range(24 if tier == 'quick' else 300)]
    return cs + [Case('scan refusal', scan_reject), Case('custom rules on states', custom_states)]


# ------------------------------------------------------------------ registry (C10)


class scratch_registry:
    """Restores the registry whatever the checked code does to it."""

    def __enter__(self):
        import folx.wrapped_functions as w

        self.reg, self.copy = w._LAPLACE_FN_REGISTRY, dict(w._LAPLACE_FN_REGISTRY)

    def __exit__(self, *a):
        self.reg.clear()
        self.reg.update(self.copy)


def mark(tag):
    calls = []

    def rule(args, kwargs, sparsity_threshold):
        calls.append((tag, len(args), sparsity_threshold))
        x = next(a for a in args if IS(a))
        return FwdLaplArray(x.x * 0 + tag, FwdJacobian(x.jacobian.data * 0 + 2 * tag, x.jacobian.x0_idx), x.laplacian * 0 + 3 * tag)

    return rule, calls


def registry_case(prim, f, others):
    def run(rng):
        x = jnp.asarray(rng.standard_normal((2, 3)) * 0.3 + 1.5)
        _, ref = ref_program(f, (x,))
        for t in (0, 2):
            with scratch_registry():
                had = is_registered(prim)
                base = [forward_laplacian(g, t)(x) for g in others]
                before = get_laplacian(prim)
                rule, calls = mark(7.0)
                register_function(prim, rule)
                need(is_registered(prim) and get_laplacian(prim) is rule, 'registered rule is not looked up')
                need(get_laplacian(prim, True) is rule if not isinstance(prim, str) else True, 'registered rule is not used')
                for jit in (True, False):
                    calls.clear()
                    o = forward_laplacian(f, t, disable_jit=not jit)(x)
                    need(len(calls) == 1, f'registered rule called {len(calls)} times for {prim}')
                    need(calls[0][2] == t, f'rule received threshold {calls[0][2]} instead of {t}')
                    close(o.x, np.full(o.x.shape, 7.0), 'value of the registered rule')
                    close(o.jacobian.data, np.full(o.jacobian.data.shape, 14.0), 'Jacobian of the registered rule')
                    close(o.laplacian, np.full(o.x.shape, 21.0), 'Laplacian of the registered rule')
                for g, b in zip(others, base):
                    calls.clear()
                    same_state(forward_laplacian(g, t)(x), b, 'rule of another function', 6)
                    need(not calls, 'rule used for another function')
                r2, c2 = mark(5.0)
                register_function(prim, r2)
                calls.clear()
                forward_laplacian(f, t)(x)
                need(len(c2) == 1 and not calls, 'registering again does not replace the rule')
                deregister_function(prim)
                need(not is_registered(prim) and get_laplacian(prim) is None, 'still registered after deregistering')
                c2.clear()
                o = forward_laplacian(f, t)(x)
                need(not c2 and not calls, 'rule used after deregistering')
                check_leaf(o, ref[0], f'default treatment of {prim} after deregistering, threshold={t}', 6)
                try:
                    deregister_function(prim)
                    raise Fail('deregistering twice is silently accepted')
                except KeyError:
                    pass
                if had:
                    register_function(prim, before)
                    check_leaf(forward_laplacian(f, t)(x), ref[0], f'rule of {prim} registered again', 6)

    return run


@jax.jit
def my_named_fn(x):
    return jnp.sin(x) * x.sum()


def reg_default_case(prim_name):
    """Every registered elementwise/linear rule removed in turn: the default treatment is exact."""
    prims = {str(k).replace('-', '_'): k for k in __import__('folx.wrapped_functions', fromlist=['x'])._LAPLACE_FN_REGISTRY if not isinstance(k, str)}

    fs = {
        'sin': jnp.sin, 'mul': lambda x: x * x[::-1], 'add': lambda x: x + x[::-1] ** 2, 'div': lambda x: 1.3 / x, 'exp': jnp.exp, 'log': jnp.log, 'tanh': jnp.tanh, 'reduce_sum': lambda x: (x**2).sum(0), 'dot_general': lambda x: x @ x.T,
        'transpose': lambda x: x.T**2, 'concatenate': lambda x: jnp.concatenate([x, x**2]), 'integer_pow': lambda x: x**3, 'reshape': lambda x: x.reshape(-1) ** 2, 'broadcast_in_dim': lambda x: x[:, None] * x, 'reduce_prod': lambda x: x.prod(0), 'cumsum': lambda x: jnp.cumsum(x, 0) ** 2,
        'gather': lambda x: x[np.array([1, 0, 1])] ** 2, 'max': lambda x: jnp.maximum(x, x[::-1]) ** 2, 'select_n': lambda x: jnp.where(np.arange(3) > 1, x, x**2), 'neg': lambda x: -(x**2), 'reduce_max': lambda x: x.max(0) ** 2, 'slice': lambda x: x[:1] ** 2, 'rev': lambda x: x[::-1] * x, 'squeeze': lambda x: jnp.squeeze(x[:1], 0) ** 2,
        'abs': lambda x: jnp.abs(x) ** 3, 'sqrt': jnp.sqrt, 'rsqrt': lax.rsqrt, 'pow': lambda x: x**2.5, 'sub': lambda x: x - x[::-1] ** 2, 'scatter_add': lambda x: x.at[0].add(x[1] ** 2),
    }

    def run(rng):
        x = jnp.asarray(rng.standard_normal((2, 3)) * 0.2 + 1.5)
        f = fs[prim_name]
        _, ref = ref_program(f, (x,))
        with scratch_registry():
            deregister_function(prims[prim_name])
            for t in (0, 2, 1000):
                try:
                    o = forward_laplacian(f, t)(x)
                except Exception as e:  # noqa: BLE001
                    raise Fail(f'without the rule of {prim_name}, threshold={t}: raised {type(e).__name__}: {str(e)[:200]}') from e
                check_leaf(o, ref[0], f'without the rule of {prim_name}, threshold={t}', 6)

    run.names = list(fs)
    return run


REG_DEFAULT = ['sin', 'mul', 'add', 'div', 'exp', 'log', 'tanh', 'reduce_sum', 'dot_general', 'transpose', 'concatenate', 'integer_pow', 'reshape', 'broadcast_in_dim', 'reduce_prod', 'cumsum', 'gather', 'max', 'select_n', 'neg', 'reduce_max', 'slice', 'rev', 'squeeze', 'abs', 'sqrt', 'rsqrt', 'pow', 'sub', 'scatter_add']


def custom_jhj_case(kind):
    """A user-supplied second-order rule replaces only the trace term."""

    def run(rng):
        seen = []

        def rule(args, extra, merge, idx):
            seen.append((len(args.arrays), len(extra)))
            need(all(IS(a) for a in args.arrays), 'rule did not receive derivative states')
            full = merge(args.x, extra)
            need(len(full) == len(args.arrays) + len(extra), 'merge does not rebuild the operands')
            y = f(*full)
            return jnp.zeros_like(y) + 0.125 + 0 * y

        if kind == 'elementwise':
            f, axes, shapes = (lambda x: jnp.sin(x)), (), [(2, 3)]
        elif kind == 'elementwise2':
            f, axes, shapes = (lambda x, y: jnp.sin(x) * y), (), [(2, 3), (2, 3)]
        elif kind == 'bcast':
            f, axes, shapes = (lambda x, y: jnp.sin(x) * y), (), [(2, 3), (1, 3)]
        elif kind == 'last':
            f, axes, shapes = (lambda x: (x**2).sum(-1)), -1, [(2, 3)]
        else:
            f, axes, shapes = (lambda x: (x @ x.T).sum(0)), None, [(2, 3)]
        args = [rng.standard_normal(s) for s in shapes]
        # (primitives never broadcast; a narrower dependent operand next to a wider constant is not supported)
        for dep in ((0,),) if len(args) == 1 else ((0,), (0, 1)) if kind == 'bcast' else ((0,), (1,), (0, 1)):
            for st in ('dense', 'perm', 'rand') if kind.startswith('elem') else ('dense', 'perm'):
                for t in (0, 3, 1000):
                    for flags in (FunctionFlags.GENERAL, FunctionFlags.JOIN_JVP):
                        fn = wrap_forward_laplacian(f, in_axes=axes, custom_jac_hessian_jac=rule, flags=flags)
                        states = {i: make_state(rng, args[i], 5, st) for i in dep}
                        full = tuple(states.get(i, jnp.asarray(a)) for i, a in enumerate(args))
                        seen.clear()
                        what = f'{kind} dependent={dep} jacobians={st} threshold={t}'
                        try:
                            o = fn(full, {}, sparsity_threshold=t)
                        except Fail:
                            raise
                        except Exception as e:  # noqa: BLE001
                            raise Fail(f'{what}: raised {type(e).__name__}: {str(e)[:200]}') from e
                        need(seen and seen[0][0] == len(dep), f'{what}: rule not called with the dependent operands')

                        def h(*z):
                            a = list(args)
                            for i, v in zip(dep, z):
                                a[i] = v
                            return f(*a)

                        xs = tuple(jnp.asarray(args[i]) for i in dep)
                        js = tuple(dense_of(states[i].jacobian, 5) for i in dep)
                        j = jax.vmap(lambda *v: jax.jvp(h, xs, v)[1])(*map(jnp.asarray, js))
                        l = jax.jvp(h, xs, tuple(states[i].laplacian for i in dep))[1]
                        close(o.x, h(*xs), f'{what} value')
                        close(dense_of(o.jacobian, 5), j, f'{what} Jacobian')
                        close(o.laplacian, l + 0.125, f'{what} Laplacian')

    return run


def user_flags_case(rng):
    """Rules built by the user with every truthful flag give the derivatives of the function."""
    from .base import check_leaf as cl

    F = FunctionFlags
    W = np.linspace(-1, 1, 3)
    table = [
        (lambda x: jnp.sin(x) * x, (), F.GENERAL, [(2, 3)]),
        (lambda x: 3 * x, (), F.LINEAR, [(2, 3)]),
        (lambda x, y: x * y, (), F.MULTIPLICATION, [(2, 3), (2, 3)]),
        (lambda x, y: x * jnp.sin(y), (), F.LINEAR_IN_FIRST, [(2, 3), (2, 3)]),
        (lambda x, y: x * y * 2.0, (), F.LINEAR_IN_ONE, [(2, 3), (2, 3)]),
        (lambda x: (x**2).sum(-1), -1, F.GENERAL, [(2, 3)]),
        (lambda x: (x**2).sum(-1), -1, F.REDUCTION, [(2, 3)]),
        (lambda x: jnp.tanh(x @ W), -1, F.JOIN_JVP, [(2, 3)]),
        (lambda x, y: jnp.einsum('...i,...i->...', x, y), -1, F.DOT_PRODUCT, [(2, 3), (2, 3)]),
        (lambda x, y: jnp.einsum('...i,...i->...', x, y), -1, F.DOT_PRODUCT | F.SPARSE_JHJ | F.JOIN_JVP, [(2, 3), (1, 3)]),
        (lambda x: x.reshape(-1)[::-1], None, F.INDEXING, [(2, 3)]),
        (lambda x: (jnp.sin(x), x**2), None, F.GENERAL, [(2, 3)]),
        (lambda x, y: jnp.tanh(x @ y), None, F.GENERAL, [(2, 3), (3,)]),
    ]
    for i, (f, axes, flags, shapes) in enumerate(table):
        fn = wrap_forward_laplacian(f, in_axes=axes, flags=flags)
        args = [rng.standard_normal(s) for s in shapes]
        deps = ((0,),) if len(args) == 1 else ((0,), (1,), (0, 1))
        for dep in deps:
            for st in ('dense', 'perm', 'rand', 'dup'):
                for t in (0, 2, 1000):
                    states = {k: make_state(rng, args[k], 5, st) for k in dep}
                    full = tuple(states.get(k, jnp.asarray(a)) for k, a in enumerate(args))

                    def h(*z):
                        a = [jnp.asarray(b) for b in args]
                        for k, v in zip(dep, z):
                            a[k] = v
                        return f(*a)

                    _, ref = ref_rule(h, tuple(args[k] for k in dep), tuple(dense_of(states[k].jacobian, 5) for k in dep), tuple(states[k].laplacian for k in dep), 5)
                    what = f'user rule {i} flags={flags} dependent={dep} jacobians={st} threshold={t}'
                    try:
                        o = fn(full, {}, sparsity_threshold=t)
                    except Exception as e:  # noqa: BLE001
                        raise Fail(f'{what}: raised {type(e).__name__}: {str(e)[:200]}') from e
                    for q, (l, r) in enumerate(zip(jtu.tree_leaves(o, is_leaf=IS), ref)):
                        cl(l, r, f'{what} output {q}', 5)


def c10(tier):
    cs = [
        Case('registry/sin', registry_case(lax.sin_p, jnp.sin, [jnp.cos, lambda x: x**2, jnp.tanh])),
        Case('registry/erf', registry_case(lax.erf_p, lax.erf, [jnp.cos, lambda x: x**2])),
        Case('registry/tanh', registry_case(lax.tanh_p, jnp.tanh, [jnp.sin, lambda x: x.sum(0)])),
        Case('registry/reduce_sum', registry_case(lax.reduce_sum_p, lambda x: x.sum(0), [jnp.sin, lambda x: x.max(0)])),
        Case('registry/named', registry_case('my_named_fn', my_named_fn, [jnp.sin, lambda x: jax.jit(lambda y: y * 2)(x)])),
        Case('registry/silu', registry_case('silu', jax.nn.silu, [jax.nn.softplus, jax.nn.sigmoid])),
        Case('registry/logaddexp', registry_case('logaddexp', lambda x: jnp.logaddexp(x, x[::-1] * 2), [jnp.sin])),
        Case('user flags', user_flags_case),
    ]
    cs += [Case(f'default treatment/{n}', reg_default_case(n)) for n in REG_DEFAULT]
    cs += [Case(f'second-order rule/{k}', custom_jhj_case(k)) for k in ('elementwise', 'elementwise2', 'bcast', 'last', 'general')]
    unreg = {'erf', 'cummax', 'cumprod', 'sort', 'cholesky', 'eigvalsh', 'mod', 'clip', 'reduce prod', 'conv', 'cumlogsumexp', 'at mul', 'dyn upd slice', 'pad', 'sortflat', 'sort2', 'gelu', 'prod axes', 'custom mat'}
    return cs + programs(lambda n, t: n in unreg, (0, 3) if tier == 'quick' else (0, 1, 2, 3, 6, 1000), (True,))


# ------------------------------------------------------------------ operators (C12)

OPF = {
    'mlp': lambda x: jnp.tanh(x.reshape(-1) * jnp.arange(1.0, x.size + 1)).sum() ** 2,
    'quad': lambda x: (x**2).sum(), 'lin': lambda x: x.sum(), 'first': lambda x: x.reshape(-1)[0] ** 3, 'half': lambda x: (x.reshape(-1)[: (x.size + 1) // 2] ** 3).sum(),
    'prod': lambda x: jnp.prod(x), 'lse': lambda x: jax.nn.logsumexp(x), 'pair': lambda x: (jnp.sin(x.reshape(-1)[:, None] - x.reshape(-1)) ** 2).sum() * x.reshape(-1)[-1], 'nested': lambda x: jax.jit(lambda y: (y**3).sum())(x) * cj(x).sum(),
}


def op_case(name, reps):
    f = OPF[name]

    def run(rng):
        shapes = [(1,), (5,), (2, 3), (1, 1), (3, 1, 2), (), (4,), (1, 4)]
        for i in range(reps):
            s = shapes[(i + hash_(name)) % len(shapes)]
            dt = np.float32 if rng.random() < 0.25 else np.float64
            x = jnp.asarray(rng.standard_normal(s).astype(dt))
            xf = jnp.asarray(np.asarray(x), jnp.float64)
            tol = dict(rtol=2e-4, atol=2e-4) if dt == np.float32 else {}
            g = np.asarray(jax.grad(f)(xf)).reshape(-1)
            h = np.trace(np.asarray(jax.hessian(f)(xf)).reshape(x.size, x.size))
            ops = {'loop': LoopLaplacianOperator(), 'parallel': ParallelLaplacianOperator()}
            for t in (0, 1, 3, 1000, 0.5):
                ops[f'forward({t})'] = ForwardLaplacianOperator(t)
            for nm, op in ops.items():
                try:
                    l, j = op(f)(x)
                except Exception as e:  # noqa: BLE001
                    raise Fail(f'{nm} operator, shape {s}: raised {type(e).__name__}: {str(e)[:200]}') from e
                close(np.asarray(j), g, f'{nm} operator gradient, shape {s}', **tol)
                close(np.asarray(l), h, f'{nm} operator Laplacian, shape {s}', **tol)

    return run


def c12(tier):
    m, r = (2, 4) if tier == 'quick' else (8, 8)
    return [Case(f'operators/{n}/{j}', op_case(n, r)) for n in OPF for j in range(m)]

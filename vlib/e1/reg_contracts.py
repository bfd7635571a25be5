"""C10: user rules and the default treatment of unregistered functions."""
from __future__ import annotations

import jax
import jax.numpy as jnp

from folx import deregister_function, forward_laplacian, register_function, wrap_forward_laplacian
from folx.api import FunctionFlags, FwdJacobian, FwdLaplArray
from folx.wrapped_functions import is_registered

from . import uf
from .contract import Contract
from .lib import fl, second_order, state_inputs, triples, unpack

JIT = jax.jit
L = jax.lax
T, EF = uf.tensor, uf.elementwise
g1, h1, g2 = EF('g', 1), EF('h', 1), EF('k', 2)
A, AB, ABC = dict(a=1), dict(a=1, b=1), dict(a=1, b=1, c=1)


@JIT
def vfx_named(x):
    return T('N', x.shape)(x)


@JIT
def vfx_other(x):
    return T('O', x.shape)(x)


class scratch:
    def __enter__(self):
        import folx.wrapped_functions as w

        self.reg, self.copy = w._LAPLACE_FN_REGISTRY, dict(w._LAPLACE_FN_REGISTRY)

    def __exit__(self, *a):
        self.reg.clear()
        self.reg.update(self.copy)


def trace_rule(id, f, in_axes, rule, spec_trace, shapes, lbs, deps=None, flags=FunctionFlags.GENERAL, **kw):
    """{any states} wrap_forward_laplacian(f, in_axes, custom_jac_hessian_jac=rule)
    {value and Jacobian of f; Laplacian = transported Laplacian + exactly the rule's trace}."""
    deps = deps or [True] * len(shapes)
    lbs = {'k': 1, **lbs}

    def impl(d, *arrs):
        states, _ = unpack(arrs, deps)
        r = wrap_forward_laplacian(lambda *x: f(d, *x), in_axes=in_axes(d) if callable(in_axes) else in_axes, custom_jac_hessian_jac=lambda *a: rule(d, *a), name='vfx', flags=flags)
        return triples(r(tuple(states), {}, sparsity_threshold=0), d.k)

    def spec(d, *arrs):
        states, xs = unpack(arrs, deps)
        ix = [i for i, q in enumerate(deps) if q]

        def g(*dep):
            full = list(xs)
            for i, v in zip(ix, dep):
                full[i] = v
            return f(d, *full)

        x = tuple(xs[i] for i in ix)
        J = tuple(states[i].jacobian.data for i in ix)
        y = g(*x)
        Jy = jax.vmap(lambda *t: jax.jvp(g, x, t)[1])(*J)
        Ly = jax.jvp(g, x, tuple(states[i].laplacian for i in ix))[1]
        return [(y, Jy, Ly + spec_trace(d, xs, J))]

    return Contract(id, lbs, state_inputs(shapes, deps), impl, spec, **kw)


def _el(J):
    """Jacobian with the tracked inputs last, as the rule sees one element."""
    return jnp.moveaxis(J, 0, -1)


def vm(f, n):
    for _ in range(n):
        f = jax.vmap(f)
    return f


def arbitrary_rule(name):
    """A user rule returning an arbitrary state that depends on all parts of its argument."""

    def rule(args, kwargs, sparsity_threshold):
        (s,) = [a for a in args if isinstance(a, FwdLaplArray)]
        return FwdLaplArray(*state_of(name, s.x, s.jacobian.data, s.laplacian))

    return rule


def state_of(name, x, J, lap, jac=FwdJacobian):
    return T(name + 'v', x.shape)(x), jac(T(name + 'j', J.shape)(x, J)), T(name + 'l', x.shape)(x, J, lap)


def history(id, steps, shapes, lbs, **kw):
    """Steps: (operation, key, rule name) or ('eval', program, spec); the specs say what every
    evaluation in between must give."""
    lbs = {'k': 1, **lbs}

    def impl(d, *arrs):
        out = []
        with scratch():
            states, _ = unpack(arrs, [True] * len(shapes))
            for s in steps:
                if s[0] == 'register':
                    register_function(s[1], arbitrary_rule(s[2]))
                elif s[0] == 'deregister':
                    deregister_function(s[1])
                    if is_registered(s[1]):
                        raise TypeError('still registered')
                else:
                    out += triples(forward_laplacian(lambda *x, s=s: s[1](d, *x), disable_jit=True)(*states), d.k)
        return out

    def spec(d, *arrs):
        states, xs = unpack(arrs, [True] * len(shapes))
        out = []
        for s in steps:
            if s[0] == 'eval':
                out += s[2](d, xs, [q.jacobian.data for q in states], [q.laplacian for q in states])
        return out

    return Contract(id, lbs, state_inputs(shapes, [True] * len(shapes)), impl, spec, **kw)


def ex(f):
    return lambda d, xs, Js, Ls: second_order(lambda *x: f(d, *x), tuple(xs), tuple(Js), tuple(Ls))


def via(name, before, after):
    """before, then the registered rule, then after."""

    def sp(d, xs, Js, Ls):
        ((y, J, lap),) = second_order(lambda *x: before(d, *x), tuple(xs), tuple(Js), tuple(Ls))
        y, J, lap = state_of(name, y, J, lap, jac=lambda q: q)
        return second_order(lambda z: after(d, z), (y,), (J,), (lap,))

    return sp


def c10(tier):
    out = []
    R = T('R', ())
    for r, sh in dict(r0=(), r1=('a',), r2=('a', 'b'), r3=('a', 'b', 'c'), r2one=(1, 'b'), r2oneb=('a', 1)).items():
        lbs = {n: 2 for n in sh if isinstance(n, str)}
        out.append(trace_rule(
            f'E1/second-order rule/elementwise/{r}', lambda d, x: g1(x), (), lambda d, args, extra, merge, idx: R(args.x[0], args.jacobian[0].construct_jac_for(idx)),
            lambda d, xs, J, n=len(sh): vm(lambda x, j: R(x, j), n)(xs[0], _el(J[0])), [sh], lbs, weight=4))
    sh = ('a', 'b')
    out.append(trace_rule(
        'E1/second-order rule/elementwise two', lambda d, x, y: g2(x, y), (), lambda d, args, extra, merge, idx: R(*args.x, *[j.construct_jac_for(idx) for j in args.jacobian]),
        lambda d, xs, J: vm(R, 2)(xs[0], xs[1], _el(J[0]), _el(J[1])), [sh, sh], AB, weight=4))
    out.append(trace_rule(
        'E1/second-order rule/elementwise with constant', lambda d, x, y: g2(x, y), (), lambda d, args, extra, merge, idx: R(*merge(args.x, extra), args.jacobian[0].construct_jac_for(idx)),
        lambda d, xs, J: vm(R, 2)(xs[0], xs[1], _el(J[0])), [sh, sh], AB, deps=[True, False], weight=4))
    out.append(trace_rule(
        'E1/second-order rule/constant first', lambda d, x, y: g2(x, y), (), lambda d, args, extra, merge, idx: R(*merge(args.x, extra), args.jacobian[0].construct_jac_for(idx)),
        lambda d, xs, J: vm(R, 2)(xs[0], xs[1], _el(J[0])), [sh, sh], AB, deps=[False, True], weight=4))
    out.append(trace_rule(
        'E1/second-order rule/whole array', lambda d, x: T('F', (d.b,))(x), None, lambda d, args, extra, merge, idx: T('R', (d.b,))(args.x[0], args.jacobian[0].construct_jac_for(idx)),
        lambda d, xs, J: T('R', (d.b,))(xs[0], J[0]), [('a',)], AB, weight=4))
    out.append(trace_rule(
        'E1/second-order rule/whole array to scalar', lambda d, x: T('F', ())(x), None, lambda d, args, extra, merge, idx: R(args.x[0], args.jacobian[0].construct_jac_for(idx)),
        lambda d, xs, J: R(xs[0], J[0]), [('a', 'b')], AB, weight=4))
    out.append(trace_rule(
        'E1/second-order rule/whole arrays', lambda d, x, y: T('F', (d.b,))(x, y), None, lambda d, args, extra, merge, idx: T('R', (d.b,))(*args.x, *[j.construct_jac_for(idx) for j in args.jacobian]),
        lambda d, xs, J: T('R', (d.b,))(xs[0], xs[1], J[0], J[1]), [('a',), ('c',)], ABC, weight=4))
    out.append(trace_rule(
        'E1/second-order rule/last axis', lambda d, x: vm(T('F', ()), 1)(x), -1, lambda d, args, extra, merge, idx: R(args.x[0], args.jacobian[0].construct_jac_for(idx)),
        lambda d, xs, J: vm(R, 1)(xs[0], jnp.moveaxis(J[0], 0, 1)), [('a', 'b')], dict(a=2, b=2), weight=4))

    # ... whatever the function is declared to be
    F = FunctionFlags
    for fn, fl_, f in (
        ('multiplication', F.MULTIPLICATION, lambda d, x, y: x * y), ('linear in one', F.LINEAR_IN_ONE, lambda d, x, y: x * y), ('linear in first', F.LINEAR_IN_FIRST, lambda d, x, y: x * g1(y)),
        ('joint', F.JOIN_JVP, lambda d, x, y: g2(x, y)), ('joint multiplication', F.JOIN_JVP | F.MULTIPLICATION | F.SPARSE_JHJ, lambda d, x, y: x * y), ('sparse', F.SPARSE_JHJ, lambda d, x, y: g2(x, y)),
    ):
        out.append(trace_rule(
            f'E1/second-order rule/declared {fn}', f, (), lambda d, args, extra, merge, idx: R(*args.x, *[j.construct_jac_for(idx) for j in args.jacobian]),
            lambda d, xs, J: vm(R, 2)(xs[0], xs[1], _el(J[0]), _el(J[1])), [sh, sh], AB, flags=fl_, weight=4))
    for fn, fl_ in (('reduction', F.REDUCTION), ('dot product', F.DOT_PRODUCT), ('joint dot product', F.DOT_PRODUCT | F.JOIN_JVP | F.SPARSE_JHJ)):
        out.append(trace_rule(
            f'E1/second-order rule/declared {fn}', lambda d, x, y: (x * y).sum(-1), -1, lambda d, args, extra, merge, idx: R(*args.x, *[j.construct_jac_for(idx) for j in args.jacobian]),
            lambda d, xs, J: vm(R, 1)(xs[0], xs[1], jnp.moveaxis(J[0], 0, 1), jnp.moveaxis(J[1], 0, 1)), [sh, sh], dict(a=2, b=2), flags=fl_, weight=4))
    out.append(trace_rule(
        'E1/second-order rule/declared reduction of one', lambda d, x: vm(T('F', ()), 1)(x), -1, lambda d, args, extra, merge, idx: R(args.x[0], args.jacobian[0].construct_jac_for(idx)),
        lambda d, xs, J: vm(R, 1)(xs[0], jnp.moveaxis(J[0], 0, 1)), [('a', 'b')], dict(a=2, b=2), flags=F.REDUCTION, weight=4))
    out.append(trace_rule(
        'E1/second-order rule/declared linear in first, constant first', lambda d, x, y: x * g1(y), (), lambda d, args, extra, merge, idx: R(*merge(args.x, extra), args.jacobian[0].construct_jac_for(idx)),
        lambda d, xs, J: vm(R, 2)(xs[0], xs[1], _el(J[0])), [sh, sh], AB, deps=[False, True], flags=F.LINEAR_IN_FIRST, weight=4))

    # registered functions are used exactly between register and deregister
    for key, call, default in (
        ('vfx_named', vfx_named, lambda y: T('N', y.shape)(y)),
        (L.erf_p, L.erf, L.erf),
        (L.tanh_p, None, L.tanh),
    ):
        call = call or L.tanh
        nm = key if isinstance(key, str) else key.name
        before = lambda d, x: h1(x)  # noqa: E731
        after = lambda d, z: g1(z) * z  # noqa: E731
        prog = lambda d, x, c=call: after(d, c(before(d, x)))  # noqa: E731
        plain = lambda d, x, c=default: after(d, c(before(d, x)))  # noqa: E731
        other = lambda d, x: vfx_other(h1(x)) * x  # noqa: E731
        plain_o = lambda d, x: T('O', x.shape)(h1(x)) * x  # noqa: E731
        ev, evd, evo = ('eval', prog, via('R', before, after)), ('eval', prog, ex(plain)), ('eval', other, ex(plain_o))
        ev2 = ('eval', prog, via('S', before, after))
        reg, reg2, de = ('register', key, 'R'), ('register', key, 'S'), ('deregister', key)
        for hn, h in dict(
            use=[reg, ev, evo], forget=[reg, de, evd, evo], around=[evd, reg, ev, de, evd], replace=[reg, ev, reg2, ev2], again=[reg, de, reg2, ev2, de, evd],
        ).items():
            out.append(history(f'E1/history/{nm}/{hn}', h, [('a',)], A, weight=5))
    # a rule on part of the operands, nested in another function
    out.append(history('E1/history/nested', [('register', 'vfx_named', 'R'), ('eval', lambda d, x: JIT(lambda y: vfx_named(h1(y)))(x), via('R', lambda d, x: h1(x), lambda d, z: z)), ('eval', lambda d, x: JIT(lambda y: vfx_other(h1(y)))(x), ex(lambda d, x: T('O', x.shape)(h1(x))))], [('a',)], A, weight=5))
    # primitives without a rule
    for n, f in dict(erf=L.erf, erfc=L.erfc, sinh=L.sinh, cosh=L.cosh, asinh=L.asinh, atanh=L.atanh, exp2=L.exp2, cbrt=L.cbrt, square=L.square).items():
        out.append(fl(f'E1/unregistered/{n}', lambda d, x, f=f: f(x), [('a', 'b')], AB, dom=(0.2, 0.9), weight=3))
    out.append(fl('E1/unregistered/any', lambda d, x: T('F', (d.b,))(x), [('a',)], AB, weight=3))
    out.append(fl('E1/unregistered/any of two', lambda d, x, y: T('F', (d.b,))(x, y), [('a',), ('c',)], ABC, weight=3))
    out.append(fl('E1/unregistered/any of two, one constant', lambda d, x, y: T('F', (d.b,))(x, y), [('a',), ('c',)], ABC, deps=[True, False], weight=3))
    out.append(fl('E1/unregistered/clamp', lambda d, x: L.clamp(0.3, x, 0.6), [('a', 'b')], AB, dom=(0.2, 0.9), weight=3))
    return out

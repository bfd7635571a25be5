"""Families for batching, derivative helpers, the interpreter, composition, memory."""
from __future__ import annotations

import collections
import functools

import jax
import jax.numpy as jnp
import jax.tree_util as jtu
import numpy as np
from jax import core

from folx import batched_vmap, forward_laplacian
from folx.api import FwdJacobian, FwdLaplArray
from folx import ad as fad
from folx import interpreter as fi
from folx.experimental import memory as fm
from folx.experimental import vmap as fv

from . import small_programs
from .base import IS, Case, Fail, check_leaf, close, dense_of, make_state, need, ref_program
from .programs import P, W3, random_program
from .progs import hash_, programs, same_state, _args

lax = jax.lax


def same_tree(got, want, what, exact=True):
    lg, tg = jtu.tree_flatten(got)
    lw, tw = jtu.tree_flatten(want)
    need(tg == tw, f'{what}: structure {tg}, expected {tw}')
    for i, (a, b) in enumerate(zip(lg, lw)):
        need(np.asarray(a).dtype == np.asarray(b).dtype, f'{what} leaf {i}: dtype {np.asarray(a).dtype}, expected {np.asarray(b).dtype}')
        close(a, b, f'{what} leaf {i}')


# ------------------------------------------------------------------ batched vmap (C11)

VM = {
    'double': (lambda a: a * 2, 1, {}),
    'sin sum': (lambda a: (jnp.sin(a).sum(), a), 1, {}),
    'neg axes': (lambda a: a * 2 + a[0], 1, dict(in_axes=-1, out_axes=-2)),
    'unmapped': (lambda a, b: a @ b, 2, dict(in_axes=(0, None))),
    'unmapped 2': (lambda a, b: a @ b, 2, dict(in_axes=(None, 1), out_axes=1)),
    'none out': (lambda a, b: b * 2, 2, dict(in_axes=(0, None), out_axes=None)),
    'none out 2': (lambda a, b: (a, b * 2), 2, dict(in_axes=(0, None), out_axes=(1, None))),
    'dict': (lambda d: d['a'] @ d['b'], 'dict', dict(in_axes=({'a': 1, 'b': None},))),
    'dict 2': (lambda d, c: {'z': d['a'] @ d['b'], 'w': c}, 'dict2', dict(in_axes=({'a': 1, 'b': None}, 2), out_axes={'z': 1, 'w': -1})),
    'nested': (lambda d, c: d[0]['a'] @ c, 'nested', dict(in_axes=((({'a': 1}), None), 2))),
    'prefix': (lambda d, c: (d[0] @ c, (d[1], c)), 'pair', dict(in_axes=(1, None), out_axes=(0, (1, 0)))),
    'prefix 2': (lambda d, c: (d[0] @ c, (d[1], c)), 'pair', dict(in_axes=(1, None), out_axes=(0, 1))),
    'list axes': (lambda d, c: d @ c, 2, dict(in_axes=[0, 1])),
    'one for all': (lambda d, c: d @ c, 2, dict(in_axes=1, out_axes=1)),
    'out list': (lambda d, c: [d, c], 2, dict(in_axes=1, out_axes=[1, 0])),
    'out same': (lambda d, c: (d, c), 2, dict(in_axes=1, out_axes=1)),
    'two axes': (lambda a, b: a - b.T, 2, dict(in_axes=(2, 0), out_axes=-1)),
    'empty arg': (lambda e, d: d, 'empty', dict(in_axes=(0, 0))),
    'none arg': (lambda e, d: d, 'none', dict(in_axes=(None, 0))),
    'none result': (lambda d: (d, None), 1, {}),
    'zero size': (lambda d: d[:0], 1, {}),
    'constant out': (lambda d: (d, jnp.ones(3)), 1, {}),
    'nested list': (lambda d: d[0] + d[1][0], 'lst', dict(in_axes=([0, None],))),
    'int out': (lambda d: (d > 0).sum(), 1, {}),
    'argmax': (lambda d: jnp.argmax(d, 0), 1, {}),
    'scan inside': (lambda d: lax.scan(lambda c, w: (c + w, c * w), jnp.zeros(d.shape[1]), d), 1, {}),
    'kwargs': (lambda a, *, s=1.0: a * s, 1, dict(kw=dict(s=3.0))),
    'cumsum': (lambda a: jnp.cumsum(a, 0), 1, dict(out_axes=2)),
}


def vm_args(kind, rng, n):
    x = lambda: rng.standard_normal((n, n, n))  # noqa: E731
    if isinstance(kind, int):
        return tuple(x() for _ in range(kind))
    return {
        'dict': lambda: (dict(a=x(), b=rng.standard_normal((n, 2))),),
        'dict2': lambda: (dict(a=x(), b=rng.standard_normal((n, n))), x()),
        'nested': lambda: (({'a': x()}, x()), x()),
        'pair': lambda: ((x(), x()), rng.standard_normal((n, n))),
        'empty': lambda: ((), x()),
        'none': lambda: (None, x()),
        'lst': lambda: ([x(), [rng.standard_normal((n, n))]],),
    }[kind]()


def vm_case(name, ns, ms):
    f, kind, kw = VM[name]
    kw = dict(kw)
    kwargs = kw.pop('kw', {})

    def run(rng):
        for n in ns:
            args = vm_args(kind, rng, n)
            want = jax.vmap(lambda *a: f(*a, **kwargs), **kw)(*args)
            for m in ms:
                for jit in (False, True):
                    if jit and (m + n + hash_(name)) % 4:
                        continue
                    g = batched_vmap(f, m, **kw)
                    g = jax.jit(g) if jit else g
                    what = f'batch size {n}, at most {m}'
                    try:
                        o = g(*args, **kwargs)
                    except Exception as e:  # noqa: BLE001
                        raise Fail(f'{what}: raised {type(e).__name__}: {str(e)[:200]}') from e
                    same_tree(o, want, what)

    return run


def vm_width(rng):
    """The function is never evaluated on more than the requested number of elements."""
    for n in (1, 2, 3, 5, 7, 8):
        for m in (1, 2, 3, 4, 7, 8, 9):
            for axes in (0, 1):
                x = jnp.asarray(rng.standard_normal((n, n)))
                jx = jax.make_jaxpr(batched_vmap(lambda a: jnp.exp(a).sum(), m, in_axes=axes))(x)
                widths, total = [], []

                def walk(j, mult):
                    for e in j.eqns:
                        k = mult
                        if e.primitive.name == 'scan':
                            k = mult * e.params['length']
                        if e.primitive.name == 'exp':
                            widths.append(e.outvars[0].aval.size // n)
                            total.append(mult * (e.outvars[0].aval.size // n))
                        for v in e.params.values():
                            if hasattr(v, 'eqns'):
                                walk(v, k)
                            elif hasattr(v, 'jaxpr'):
                                walk(v.jaxpr, k)

                walk(jx.jaxpr, 1)
                need(widths and max(widths) <= m, f'batch size {n}, at most {m}: evaluated on {widths} elements at once')
                need(sum(total) == n, f'batch size {n}, at most {m}: {sum(total)} evaluations')


def vm_order(rng):
    """Element i of the output belongs to element i of the input, for random specifications."""
    for _ in range(6):
        n, m = int(rng.integers(1, 12)), int(rng.integers(1, 7))
        k = int(rng.integers(1, 4))
        in_axes, args = [], []
        for i in range(k):
            nd = int(rng.integers(1, 4))
            sh = [int(v) for v in rng.integers(1, 4, nd)]
            if i == 0 or rng.random() < 0.7:
                ax = int(rng.integers(-nd, nd))
                sh[ax] = n
                in_axes.append(ax)
            else:
                in_axes.append(None)
            args.append(rng.standard_normal(sh))
        outs = [int(rng.integers(0, 2)) for _ in range(k)]

        def f(*a):
            return [jnp.sin(z).reshape(-1) * a[0].sum() for z in a]

        want = jax.vmap(f, in_axes=tuple(in_axes), out_axes=outs)(*args)
        got = batched_vmap(f, m, in_axes=tuple(in_axes), out_axes=outs)(*args)
        same_tree(got, want, f'shapes {[a.shape for a in args]} in_axes={in_axes} out_axes={outs} at most {m}')


def c11(tier):
    ns, ms = ((3, 5), (1, 2, 3, 4, 7)) if tier == 'quick' else ((1, 2, 3, 4, 5, 7, 8), (1, 2, 3, 4, 5, 6, 7, 8, 9, 100))
    cs = [Case(f'batched map/{n}', vm_case(n, ns if n != 'neg axes' else ns + (1,), ms)) for n in VM]
    cs += [Case('evaluation width', vm_width)]
    return cs + [Case(f'batched map order/{i}', vm_order) for i in range(12 if tier == 'quick' else 120)]


# ------------------------------------------------------------------ derivative helpers (C13)

AD = {
    # name: (f, number of arguments, which arguments are complex)
    'r2r': (lambda x: jnp.tanh(x @ np.arange(6.0).reshape(3, 2)), 1, False),
    'r2r scalar': (lambda x: (x**3).sum(), 1, False),
    'r2r 2': (lambda x, y: (x * jnp.sin(y)).sum(0), 2, False),
    'r2r tree': (lambda x, y: (x.sum(0), y**2), 2, False),
    'r2c': (lambda x: jnp.exp(1j * x) * x.sum(), 1, False),
    'r2c 2': (lambda x, y: jnp.exp((1 + 2j) * x) * y + 1j * y**2, 2, False),
    'c2c': (lambda z: z**3 + jnp.exp(z) * z.sum(), 1, True),
    'c2c 2': (lambda z, w: jnp.sin(z) * w, 2, True),
    'id': (lambda x: x, 1, False),
    'c2c lin': (lambda z: (1 + 2j) * z, 1, True),
}
AD2 = {
    'r2r': lambda v: jnp.concatenate([jnp.sin(v) * v.sum(), v[:1] ** 3]), 'r2c': lambda v: jnp.exp(1j * v) * v[0], 'r2r1': lambda v: (v**3).sum()[None], 'mix': lambda v: jnp.outer(v, jnp.tanh(v)).ravel(),
    'c2c': lambda z: z**3 * z[0], 'c2c2': lambda z: jnp.exp(z) + z.sum(),
}


def ad_case(name, reps):
    f, k, cplx = AD[name]

    def run(rng):
        for i in range(reps):
            s = [(2, 3), (1, 3), (4, 3)][i % 3]
            args = tuple(jnp.asarray(rng.standard_normal(s) + (1j * rng.standard_normal(s) if cplx else 0)) for _ in range(k))
            flat, un = jax.flatten_util.ravel_pytree(args)

            def g(v):
                return jax.flatten_util.ravel_pytree(f(*un(v)))[0]

            jac = np.stack([np.asarray(jax.jvp(g, (flat,), (e,))[1]) for e in jnp.eye(flat.size, dtype=flat.dtype)], -1)
            got = fad.jacrev(f)(*args)
            got = (got,) if k == 1 else got
            need(len(got) == k, f'jacrev returned {len(got)} arrays')
            off = 0
            for a, j in zip(args, got):
                want = jac[:, off : off + a.size].reshape(-1, *a.shape)
                off += a.size
                close(j, want, f'jacrev {s}')
            if not isinstance(f(*args), tuple):
                o = f(*args)
                jf = fad.jacfwd(f)(*args)
                close(np.asarray(jf).reshape(-1, flat.size), jac, f'jacfwd {s}')
                need(jf.shape == (*o.shape, flat.size), f'jacfwd shape {jf.shape}')
                ct = jnp.asarray(rng.standard_normal(o.shape) + (1j * rng.standard_normal(o.shape) if jnp.iscomplexobj(o) else 0))
                ct2 = jnp.asarray(rng.standard_normal(o.shape) + (1j * rng.standard_normal(o.shape) if jnp.iscomplexobj(o) else 0))
                v = fad.vjp(f, *args)
                r1, r2, r3 = v(ct), v(ct2), v(2.0 * ct + 3.0 * ct2)
                want = np.asarray(ct).reshape(-1) @ jac
                off = 0
                for q, (a, r) in enumerate(zip(args, r1)):
                    close(np.asarray(r).reshape(-1), want[off : off + a.size], f'vjp argument {q}')
                    off += a.size
                for a, b, c in zip(r1, r2, r3):
                    close(2.0 * np.asarray(a) + 3.0 * np.asarray(b), c, 'linearity of the vjp')
                if jnp.iscomplexobj(o):
                    r4 = v(1j * ct)
                    for a, c in zip(r1, r4):
                        close(1j * np.asarray(a), c, 'linearity of the vjp over complex cotangents')

    return run


def hess_case(name, reps):
    f = AD2[name]
    cplx = name.startswith('c2c')

    def run(rng):
        for i in range(reps):
            n = 1 + i
            v = jnp.asarray(rng.standard_normal(n) + (1j * rng.standard_normal(n) if cplx else 0))
            eye = jnp.eye(n, dtype=v.dtype)
            want = np.stack([np.stack([np.asarray(jax.jvp(lambda z: jax.jvp(f, (z,), (a,))[1], (v,), (b,))[1]) for b in eye], -1) for a in eye], -2)
            close(fad.hessian(f)(v), want, f'hessian of {name}, {n} inputs')
            J = np.stack([np.asarray(jax.jvp(f, (v,), (a,))[1]) for a in eye], -1)
            close(fad.jacrev(f)(v), J, f'jacrev of {name}')
            close(fad.jacfwd(f)(v), J, f'jacfwd of {name}')
            from folx import hessian as fh

            for K in (1, 2, 5):
                G = jnp.asarray(rng.standard_normal((n, K)) + (1j * rng.standard_normal((n, K)) if cplx else 0))
                tr = np.einsum('oij,ik,jk->o', want, G, G)
                for nm in ('JHJ_via_hessian', 'JHJ_via_trace', 'JHJ_via_hvp'):
                    close(getattr(fh, nm)(f, v, G), tr, f'{nm} of {name}, {n} inputs, {K} directions')

    return run


def c2r_case(rng):
    """Functions from complex to real numbers: the vector-Jacobian product in JAX's convention."""
    z = jnp.asarray(rng.standard_normal(3) + 1j * rng.standard_normal(3))
    for f in (lambda z: jnp.abs(z) ** 2, lambda z: z.real * z.imag, lambda z: (z * z.conj()).real.sum(keepdims=True)):
        o = f(z)
        ct = jnp.asarray(rng.standard_normal(o.shape))
        (r,) = fad.vjp(f, z)(ct)
        du = np.stack([np.asarray(jax.jvp(f, (z,), (e,))[1]) for e in jnp.eye(3, dtype=z.dtype)], -1)
        dv = np.stack([np.asarray(jax.jvp(f, (z,), (1j * e,))[1]) for e in jnp.eye(3, dtype=z.dtype)], -1)
        close(r, ct @ (du - 1j * dv), 'vjp of a function from complex to real numbers')


def trees_case(rng):
    need(fad.is_tree_complex({'a': np.ones(2), 'b': [np.ones(1) * 1j]}) is True or fad.is_tree_complex({'a': np.ones(2), 'b': [np.ones(1) * 1j]}), 'complex leaf missed')
    need(not fad.is_tree_complex((np.ones(2), np.ones(1))), 'real tree reported as complex')
    need(not fad.is_tree_complex(()), 'empty tree')


def c13(tier):
    r = 4 if tier == 'quick' else 10
    m = 1 if tier == 'quick' else 5
    return (
        [Case(f'jacobian helpers/{n}/{j}', ad_case(n, r)) for n in AD for j in range(m)]
        + [Case(f'hessian helpers/{n}/{j}', hess_case(n, r)) for n in AD2 for j in range(m)]
        + [Case('vjp complex to real', c2r_case), Case('complex trees', trees_case)]
    )


# ------------------------------------------------------------------ interpreter (C14)


def random_jaxpr(rng, n_eqns):
    """A random well-formed straight-line jaxpr over scalars with reuse and odd outputs."""
    x = jnp.zeros(())
    base = jax.make_jaxpr(lambda a, b: (a + b, a * b, jnp.sin(a)))(x, x)
    addp, mulp, sinp = (e.primitive for e in base.jaxpr.eqns)
    params = {e.primitive: e for e in base.jaxpr.eqns}
    aval = base.jaxpr.invars[0].aval
    gensym = core.gensym()
    n_in, n_const = int(rng.integers(1, 4)), int(rng.integers(0, 3))
    invars = [gensym(aval) for _ in range(n_in)]
    constvars = [gensym(aval) for _ in range(n_const)]
    pool = invars + constvars
    eqns = []

    def atom():
        if rng.random() < 0.12:
            return core.Literal(float(rng.integers(1, 4)), aval)
        return pool[int(rng.integers(max(0, len(pool) - 6), len(pool)))] if rng.random() < 0.7 else pool[int(rng.integers(len(pool)))]

    for _ in range(n_eqns):
        p = (addp, mulp, sinp)[rng.integers(3)]
        ins = [atom()] if p is sinp else [atom(), atom()]
        if all(isinstance(i, core.Literal) for i in ins):
            ins[0] = pool[-1]
        out = gensym(aval)
        drop = rng.random() < 0.08
        eqns.append(params[p].replace(invars=ins, outvars=[core.DropVar(aval) if drop else out]))
        if not drop:
            pool.append(out)
    outs = [pool[int(rng.integers(len(pool)))] for _ in range(int(rng.integers(1, 5)))]
    outs += [invars[0]] if rng.random() < 0.4 else []
    outs += [outs[0]] if rng.random() < 0.4 else []
    outs += [core.Literal(2.0, aval)] if rng.random() < 0.3 else []
    jaxpr = core.Jaxpr(constvars, invars, outs, eqns)
    return jaxpr, n_in, n_const


def interp_case(rng):
    for _ in range(6):
        jaxpr, n_in, n_const = random_jaxpr(rng, int(rng.integers(1, 14)))
        cs = [jnp.asarray(v) for v in rng.standard_normal(n_const)]
        xs = [jnp.asarray(v) for v in rng.standard_normal(n_in)]
        dep = [i for i in range(n_in) if rng.random() < 0.6]
        n = max(len(dep), 1)

        def g(*v):
            a = list(xs)
            for i, w in zip(dep, v):
                a[i] = w
            return core.eval_jaxpr(jaxpr, cs, *a)

        want = core.eval_jaxpr(jaxpr, cs, *xs)
        for t in (0, 4):
            full = list(xs)
            for k, i in enumerate(dep):
                if t:
                    jac = FwdJacobian(jnp.ones((1,)), np.full((1,), k))
                else:
                    jac = FwdJacobian(jnp.eye(n)[k])
                full[i] = FwdLaplArray(xs[i], jac, jnp.zeros(()))
            # watch the environment
            envs = []
            orig = getattr(fi, 'JaxExprEnvironment', None)
            if orig is not None:

                class Env(orig):
                    def __init__(self, *a):
                        envs.append(self)
                        super().__init__(*a)

                fi.JaxExprEnvironment = Env
            try:
                got = fi.eval_jaxpr_with_forward_laplacian(jaxpr, cs, *full, sparsity_threshold=t)
            except Exception as e:  # noqa: BLE001
                raise Fail(f'raised {type(e).__name__}: {str(e)[:200]} for {jaxpr}') from e
            finally:
                if orig is not None:
                    fi.JaxExprEnvironment = orig
            need(len(got) == len(jaxpr.outvars), f'{len(got)} outputs instead of {len(jaxpr.outvars)}')
            if dep:
                _, ref = ref_program(lambda *v: tuple(g(*v)), tuple(xs[i] for i in dep))
            else:
                ref = [(np.asarray(w), np.zeros((1, *np.shape(w))), np.zeros(np.shape(w))) for w in want]
            for i, (o, r) in enumerate(zip(got, ref)):
                check_leaf(o, r, f'output {i} of {jaxpr} with dependent inputs {dep} threshold={t}', n, dtypes=False)
            # every non-output intermediate was released, every output was kept
            outs = {v for v in jaxpr.outvars if isinstance(v, core.Var)}
            used = {v for e in jaxpr.eqns for v in e.invars if isinstance(v, core.Var)}
            io = set(jaxpr.invars) | set(jaxpr.constvars)
            for env in envs[:1]:
                store = getattr(env, 'env', None)
                if isinstance(store, dict):
                    left = {v for v in store if v not in io and v not in outs}
                    need(not left, f'{len(left)} intermediate values were never released in {jaxpr}')


def plain_case(rng):
    """Operations on constants are ordinary operations giving plain arrays."""
    x = jnp.asarray(rng.standard_normal(3))
    c = rng.standard_normal(3)

    def f(x):
        a = jnp.sin(c) * 2
        b = jnp.cumsum(a)
        i = jnp.arange(3)[::-1]
        s = lax.scan(lambda q, w: (q + w, q * w), jnp.zeros(()), jnp.asarray(c))
        return (x * a)[i], a, b, i, s, jax.jit(lambda z: z * 2)(b), jnp.linalg.slogdet(jnp.diag(a) + jnp.eye(3))[1]

    want = f(x)
    for t in (0, 2):
        for j in (False, True):
            o = forward_laplacian(f, t, disable_jit=not j)(x)
            lv = jtu.tree_leaves(o, is_leaf=IS)
            lw = jtu.tree_leaves(want)
            need(IS(lv[0]), 'derivatives of the dependent output lost')
            for k, (a, b) in enumerate(zip(lv[1:], lw[1:])):
                need(not IS(a), f'constant output {k} carries derivatives')
                close(a, b, f'constant output {k}')
                need(np.asarray(a).dtype == np.asarray(b).dtype, f'constant output {k}: dtype')


def live_case(rng):
    """No value is held after its last use: deep chains run in constant live memory."""
    import gc
    import weakref

    def f(x):
        for _ in range(12):
            x = jnp.sin(x)
        return x

    x = jnp.ones(7)
    jx = jax.make_jaxpr(f)(x)
    alive = []
    peak = [0]
    orig = getattr(fi, 'get_laplacian', None)
    if orig is None:
        return

    def spy(p, *a):
        r = orig(p, *a)

        def g(args, kw, sparsity_threshold):
            out = r(args, kw, sparsity_threshold=sparsity_threshold)
            alive.append(weakref.ref(out.x))
            del args
            gc.collect()
            peak[0] = max(peak[0], sum(w() is not None for w in alive))
            return out

        return g

    fi.get_laplacian = spy
    try:
        st = FwdLaplArray(x, FwdJacobian(jnp.eye(7)), jnp.zeros(7))
        fi.eval_jaxpr_with_forward_laplacian(jx.jaxpr, jx.literals, st, sparsity_threshold=0)
    finally:
        fi.get_laplacian = orig
    need(peak[0] <= 5, f'{peak[0]} intermediate values alive at once in a chain')


def c14(tier):
    k = 40 if tier == 'quick' else 400
    cs = [Case(f'random straight-line program/{i}', interp_case) for i in range(k)]
    cs += [Case('constants', plain_case), Case('release', live_case)]
    parts = 8
    cs += [Case(f'all programs of three equations/{i}', lambda rng, i=i: small_programs.all_programs(3, i, parts)) for i in range(parts)]
    cs += [Case('all programs of two equations with 0-2 results', lambda rng: small_programs.all_programs(2, widths=(0, 1, 2))), Case('all programs of two equations with three operands', lambda rng: small_programs.all_programs(2, arity=3))]
    cs += [Case(f'random recorded programs/{i}', lambda rng: small_programs.random_programs(rng, 300 if tier == 'quick' else 5000, 12)) for i in range(8)]
    names = {'dup out', 'ident', 'const out', 'multi', 'jit multi', 'jit const', 'jit mixed', 'scan const in', 'scan mixed', 'mlp params', 'attn', 'jit closure', 'scan ys3', 'backflow', 'three args', 'stopgrad2'}
    return cs + programs(lambda n, t: n in names, (0,) if tier == 'quick' else (0, 3), (True, False))


# ------------------------------------------------------------------ composition (C16)

FG = {
    'mlp': (lambda x: jnp.tanh(x @ np.linspace(-1, 1, 6).reshape(3, 2)), lambda y: (y**2).sum(0) * y[0]),
    'sum': (lambda x: x.sum(0), lambda y: jnp.sin(y) * y.prod()),
    'outer': (lambda x: x[:, None] * x[None], lambda y: jnp.exp(-y).sum((0, 2))),
    'slice': (lambda x: x[1:3], lambda y: y @ y.T),
    'two': (lambda x: (x**2, jnp.sin(x).sum(0)), lambda a, b: jnp.tanh(a @ b) + a.sum()),
    'perm': (lambda x: x[:3] + 0.5 * x[np.array([2, 0, 1])], lambda y: 1 / (2 + y**2)),
    'det': (lambda x: x[:3] * 2 + jnp.eye(3), lambda y: jnp.linalg.slogdet(y)[1]),
    'part': (lambda x: (x[:2] * x[2:], x), lambda a, b: (a * b[:2]).sum(-1)),
    'cat': (lambda x: jnp.concatenate([x, jnp.ones((1, 3))]), lambda y: y * y[-1] + y[0]),
    'scalar': (lambda x: (x**2).sum(), lambda y: jnp.log(1 + y)),
    'cplx': (lambda x: jnp.exp(1j * x) * x, lambda y: jnp.abs(y + 1) ** 2),
}


def compose_case(name, ths):
    f, g = FG[name]

    def run(rng):
        x = jnp.asarray(rng.standard_normal((4, 3)))
        tup = isinstance(f(x), tuple)

        def h(z):
            return g(*f(z)) if tup else g(f(z))

        _, ref = ref_program(h, (x,))
        for t1 in ths:
            s = forward_laplacian(f, t1)(x)
            ss = s if tup else (s,)
            dense = not any(IS(a) and a.jacobian.weak for a in ss)
            for t2 in ths:
                for j in ((False, True) if dense else (False,)):
                    what = f'thresholds {t1} then {t2} jit={j}'
                    try:
                        o = forward_laplacian(g, t2, disable_jit=not j)(*ss)
                    except Exception as e:  # noqa: BLE001
                        raise Fail(f'{what}: raised {type(e).__name__}: {str(e)[:200]}') from e
                    check_leaf(o, ref[0], what, 12)
        # densified states and constants next to a state
        ds = tuple(a.dense if IS(a) else a for a in ss)
        check_leaf(forward_laplacian(g, 0)(*ds), ref[0], 'densified state', 12)
        k = rng.standard_normal(3)

        def g2(c, *a):
            return g(*a) * c[0] + c.sum()

        _, ref2 = ref_program(lambda z: g2(k, *(f(z) if tup else (f(z),))), (x,))
        for t1 in ths:
            s = forward_laplacian(f, t1)(x)
            ss = s if tup else (s,)
            for c in (k, jnp.asarray(k)):
                check_leaf(forward_laplacian(g2, t1, disable_jit=True)(c, *ss), ref2[0], f'constant next to a state, threshold {t1}', 12)

    return run


def compose_random(i):
    def run(rng):
        f, mk = random_program(5000 + i, 5)
        args = jtu.tree_map(jnp.asarray, _args(mk, rng))
        y = f(*args)
        ys = y if isinstance(y, tuple) else (y,)

        def g(*a):
            r = [jnp.tanh(z) * (1 + z**2) for z in a]
            return sum(q.sum() for q in r) * r[0], r[-1] ** 2

        def h(*z):
            o = f(*z)
            return g(*(o if isinstance(o, tuple) else (o,)))

        tree, ref = ref_program(h, args)
        n = sum(a.size for a in args)
        for t in (0, 3, 100):
            s = forward_laplacian(f, t)(*args)
            ss = s if isinstance(y, tuple) else (s,)
            if not any(IS(a) for a in ss):
                return
            o = forward_laplacian(g, t, disable_jit=True)(*ss)
            for k, (l, r) in enumerate(zip(jtu.tree_leaves(o, is_leaf=IS), ref)):
                check_leaf(l, r, f'threshold {t} output {k}', n)

    return run


def c16(tier):
    ths = (0, 2, 1000) if tier == 'quick' else (0, 1, 2, 4, 6, 1000)
    return [Case(f'composition/{n}', compose_case(n, ths)) for n in FG] + [Case(f'random composition/{i}', compose_random(i)) for i in range(8 if tier == 'quick' else 80)]


# ------------------------------------------------------------------ automatic batching (C18)


class FakeDevice:
    def __init__(self, limit):
        self.limit = limit

    def memory_stats(self):
        return {'bytes_limit': self.limit}


class patched:
    def __init__(self, **kw):
        self.kw = kw

    def __enter__(self):
        self.old = {}
        for k, v in self.kw.items():
            self.old[k] = getattr(fv, k)
            setattr(fv, k, v)

    def __exit__(self, *a):
        for k, v in self.old.items():
            setattr(fv, k, v)


class FakeJax:
    """jax with a fake device list, for the module under test only."""

    def __init__(self, limit):
        self.limit = limit

    def devices(self, *a, **k):
        return [FakeDevice(self.limit)]

    def local_devices(self, *a, **k):
        return self.devices()

    def __getattr__(self, k):
        return getattr(jax, k)


def auto_case(rng):
    n = int(rng.integers(1, 9))
    x = jnp.asarray(rng.standard_normal((n, 3)))
    fs = [lambda a: jnp.sin(a).sum(), lambda a: (jnp.outer(a, a), a), lambda a: jnp.zeros(2)]
    f = fs[rng.integers(3)]
    f.__name__ = 'f'
    want = jax.vmap(f)(x)
    sizes = []
    real = batched_vmap

    def spy(fn, max_batch_size, in_axes=0, out_axes=0):
        sizes.append(max_batch_size)
        return real(fn, max_batch_size, in_axes=in_axes, out_axes=out_axes)

    for limit in (0, 1, 7, 1000, 10**4, 10**6, 10**10, 16 * 1024**3):
        for frac in (1.0, 0.5, 0.0, 0.001):
            if rng.random() < 0.5:
                continue
            sizes.clear()
            with patched(jax=FakeJax(limit), batched_vmap=spy):
                try:
                    o = fv.auto_batched_vmap(f, max_fraction=frac)(x)
                except Exception as e:  # noqa: BLE001
                    raise Fail(f'limit {limit} fraction {frac}: raised {type(e).__name__}: {str(e)[:200]}') from e
            same_tree(o, want, f'limit {limit} fraction {frac}')
            need(sizes and min(sizes) >= 1 and all(isinstance(s, (int, np.integer)) for s in sizes), f'limit {limit} fraction {frac}: batch sizes {sizes}')
    # arbitrary estimates, failing estimates
    for single, pair in ((10, 10), (10, 20), (0, 0), (100, 50), (5, 6), (1, 10**12), (-3, 4), (10, 19)):
        for limit in (0, 5, 100, 10**9):
            sizes.clear()
            k = [0]

            def cost(*a, **kw):
                k[0] += 1
                if single is None:
                    raise RuntimeError('estimation failed')
                return (single, pair)[(k[0] - 1) % 2]

            if rng.random() < 0.4:
                continue

            with patched(jax=FakeJax(limit), batched_vmap=spy, compute_memory=cost):
                try:
                    o = fv.auto_batched_vmap(f, max_fraction=1.0)(x)
                except Exception as e:  # noqa: BLE001
                    raise Fail(f'estimates {single}, {pair} limit {limit}: raised {type(e).__name__}: {str(e)[:200]}') from e
            same_tree(o, want, f'estimates {single}, {pair} limit {limit}')
            need(min(sizes) >= 1, f'estimates {single}, {pair} limit {limit}: batch sizes {sizes}')
            e = pair - single if single is not None else None
            if e and e > 0:
                m = max(1, int((limit - (single - e)) // e))
                need(sizes[-1] <= m, f'estimates {single}, {pair} limit {limit}: batch size {sizes[-1]} does not fit (at most {m})')




def auto_fail(rng):
    """A failing estimation falls back to single elements."""
    x = jnp.asarray(rng.standard_normal((5, 3)))

    def f(a):
        return jnp.cos(a) * a.sum()

    def bad(*a, **k):
        raise RuntimeError('estimation failed')

    want = jax.vmap(f)(x)
    with patched(jax=FakeJax(10**6), compute_memory=bad):
        for h in (f, functools.partial(f)):
            try:
                o = fv.auto_batched_vmap(h)(x)
            except Exception as e:  # noqa: BLE001
                raise Fail(f'failing estimation of {type(h).__name__}: raised {type(e).__name__}: {e}') from e
            same_tree(o, want, 'failing estimation')
    with patched(jax=FakeJax(10**6)):
        y = jnp.asarray(rng.standard_normal((3, 5)))
        same_tree(fv.auto_batched_vmap(lambda a, b: a @ b, in_axes=(0, None), out_axes=0)(x, y), jax.vmap(lambda a, b: a @ b, (0, None))(x, y), 'unmapped argument')
        same_tree(fv.auto_batched_vmap(f, in_axes=1, out_axes=1)(x), jax.vmap(f, 1, 1)(x), 'other axes')

        def g(a, s=2.0):
            return a * s

        same_tree(fv.auto_batched_vmap(g)(x, s=3.0), jax.vmap(functools.partial(g, s=3.0))(x), 'keyword argument')


def nbytes(a):
    return int(a.size) * np.dtype(a.dtype).itemsize


def ref_memory(jaxpr, consts, args):
    """Independent liveness analysis: peak bytes over all equations."""
    last = collections.defaultdict(lambda: -1)
    for i, e in enumerate(jaxpr.eqns):
        for v in e.invars:
            if isinstance(v, core.Var):
                last[v] = i
    keep = {v for v in jaxpr.outvars if isinstance(v, core.Var)}
    keep |= set(jaxpr.invars) | set(jaxpr.constvars)
    size = lambda v: v.aval.size * np.dtype(v.aval.dtype).itemsize  # noqa: E731
    used = {v for e in jaxpr.eqns for v in e.invars if isinstance(v, core.Var)} | keep
    mem = sum(size(v) for v in list(jaxpr.constvars) + list(jaxpr.invars))
    peak = 0
    for i, e in enumerate(jaxpr.eqns):
        mem += sum(size(v) for v in e.outvars if v in used)
        peak = max(peak, mem)
        for v in {v for v in e.invars if isinstance(v, core.Var)}:
            if last[v] == i and v not in keep:
                mem -= size(v)
    return peak


def nested_peak(closed):
    """Bounds of the peak of nested programs: their inputs are counted once or twice."""
    jaxpr = closed.jaxpr
    size = lambda v: v.aval.size * np.dtype(v.aval.dtype).itemsize  # noqa: E731
    isv = lambda v: isinstance(v, core.Var)  # noqa: E731
    last = {v: i for i, e in enumerate(jaxpr.eqns) for v in e.invars if isv(v)}
    keep = {v for v in jaxpr.outvars if isv(v)} | set(jaxpr.invars) | set(jaxpr.constvars)
    mem, lo, hi = sum(size(v) for v in list(jaxpr.constvars) + list(jaxpr.invars)), 0, 0
    for i, e in enumerate(jaxpr.eqns):
        mem += sum(size(v) for v in e.outvars if v in last or v in keep)
        a = b = 0
        if e.primitive.name in ('pjit', 'scan'):
            a, b = nested_peak(e.params['jaxpr'])
            a -= sum(size(v) for v in {v for v in e.invars if isv(v)})
        lo, hi = max(lo, mem + a), max(hi, mem + b)
        mem -= sum(size(v) for v in {v for v in e.invars if isv(v)} if last[v] == i and v not in keep)
    return lo, hi


def memory_case(rng):
    sizes = {jnp.float32: 4, jnp.float64: 8, jnp.int8: 1, jnp.bool_: 1, jnp.complex128: 16, jnp.bfloat16: 2, jnp.int32: 4, jnp.uint16: 2, jnp.complex64: 8}
    for d, b in sizes.items() if hasattr(fm, '_bytes_from_dtype') else ():
        need(fm._bytes_from_dtype(jnp.dtype(d)) == b, f'{jnp.dtype(d)}: {fm._bytes_from_dtype(jnp.dtype(d))} bytes')
    x = jnp.asarray(rng.standard_normal((4, 3)))
    y = jnp.asarray(rng.standard_normal((3, 5)))
    fs = [
        (lambda a: jnp.sin(jnp.cos(a)) * 2, (x,)),
        (lambda a, b: (a @ b).sum(0), (x, y)),
        (lambda a: (a * a, a), (x,)),
        (lambda a: jnp.exp(a) * jnp.exp(a), (x,)),
        (lambda a, b: jnp.tanh(a)[:, :, None] * b, (x, y)),
        (lambda a: jnp.broadcast_to(a[None], (20, 4, 3)).sum(), (x,)),
        (lambda a: a.astype(jnp.float32).astype(jnp.int8), (x,)),
        (lambda a: lax.concatenate([lax.sin(a), lax.cos(a), lax.sin(a)], 0), (x,)),
    ]
    for i, (f, args) in enumerate(fs):
        got = fm.compute_memory(f, *args)
        need(isinstance(got, int), f'estimate is {type(got).__name__}')
        jx = jax.make_jaxpr(f)(*args)
        if any(e.primitive.name in ('pjit', 'scan') for e in jx.jaxpr.eqns):
            need(got > 0, f'estimate {got}')
            continue
        want = ref_memory(jx.jaxpr, jx.literals, args)
        need(got == want, f'program {i}: estimate {got} bytes, liveness gives {want}')
    big = lambda z: jnp.broadcast_to(jnp.sin(z)[None], (20, 4, 3)).sum()  # noqa: E731
    for i, f in enumerate((lambda a: jax.jit(big)(a), lambda a: jax.jit(big)(a * (jnp.broadcast_to(a[None], (9, 4, 3)) * 2).sum()), lambda a: jax.jit(big)(a[:1]) + (jnp.broadcast_to(a[None], (40, 4, 3)) * 2).sum(), lambda a: jnp.cos(jax.jit(lambda b: big(b) * b)(jnp.exp(a))), lambda a: jax.jit(lambda b: jax.jit(big)(b * 2))(a), lambda a: lax.scan(lambda c, w: (c + big(a), w), 0.0, a), lambda a: lax.scan(lambda c, w: (c + big(w[None] + a), w), 0.0, a)[0])):
        got, (lo, hi) = fm.compute_memory(f, x), nested_peak(jax.make_jaxpr(f)(x))
        need(lo <= got <= hi, f'nested program {i}: estimate {got} bytes, liveness gives {lo} to {hi}')
    for f, args in (
        (lambda a: lax.scan(lambda c, w: (c + w, c * w), jnp.zeros(3), a), (x,)),
        (lambda a: jax.jit(lambda z: jnp.sin(z) * 2)(a).sum(), (x,)),
        (lambda d: d['a'] @ d['b'], (dict(a=x, b=y),)),
    ):
        got = fm.compute_memory(f, *args)
        need(isinstance(got, int) and got >= sum(nbytes(a) for a in jtu.tree_leaves(args)), f'estimate {got}')
    scan = lambda f, c, xs, **k: (lambda a: lax.scan(f, c(a), xs(a), **k))  # noqa: E731
    for what, want, call in (
        ('static argument', 192, lambda: fm.compute_memory(lambda a, k: a * k, x, 3, static_argnums=1)),
        ('negative static argument', 192, lambda: fm.compute_memory(lambda a, k: a * k, x, 3, static_argnums=-1)),
        ('keyword arguments', None, lambda: fm.compute_memory(lambda a, *, s, t: a * s + t['u'], x, s=3.0, t=dict(u=x))),
        ('scan without inputs', None, lambda: fm.compute_memory(scan(lambda c, _: (c * 2, c.sum()), lambda a: a, lambda a: None, length=5), x)),
        ('scan without steps', None, lambda: fm.compute_memory(scan(lambda c, w: (c * 2, w), lambda a: 1.0, lambda a: a), x[:0])),
        ('scan over a tree', None, lambda: fm.compute_memory(scan(lambda c, w: (c * 2, w), lambda a: a, lambda a: (a, a[:, 0])), x)),
        ('random keys', None, lambda: fm.compute_memory(lambda k: jax.random.normal(k, (3,)), jax.random.PRNGKey(0))),
        ('nested literal', None, lambda: fm.compute_memory(lambda a: jax.jit(lambda b: (b * 2, 3.0))(a), x)),
        ('scanned literal', None, lambda: fm.compute_memory(scan(lambda c, w: (c, 1.0), lambda a: 0.0, lambda a: a), x)),
    ):
        try:
            got = call()
        except Exception as e:  # noqa: BLE001
            raise Fail(f'{what}: the estimate raised {type(e).__name__}: {str(e)[:200]}') from e
        need(isinstance(got, int) and got >= 0 and want in (None, got), f'{what}: estimate {got}, expected {want}')


def memory_random(rng):
    for _ in range(4):
        jaxpr, n_in, n_const = random_jaxpr(rng, int(rng.integers(1, 14)))
        closed = core.ClosedJaxpr(jaxpr, [jnp.asarray(v) for v in rng.standard_normal(n_const)])
        xs = [jnp.asarray(v) for v in rng.standard_normal(n_in)]
        with fm.Capturing() as out:
            fm._compute_jaxpr_memory(jaxpr, closed.consts, *xs)
        got = int(float(out[-1]))
        want = ref_memory(jaxpr, closed.consts, xs)
        need(got == want, f'estimate {got} bytes, liveness gives {want} for {jaxpr}')
        res, peak, tensors = fm._compute_jaxpr_memory(jaxpr, closed.consts, *xs, return_result=True)
        for a, b in zip(res, core.eval_jaxpr(jaxpr, closed.consts, *xs)):
            close(a, b, 'values during the estimation')


def c18(tier):
    k = 12 if tier == 'quick' else 120
    return [Case(f'automatic batching/{i}', auto_case) for i in range(k)] + [Case('failing estimation', auto_fail), Case('memory estimate', memory_case)] + [Case(f'memory of random programs/{i}', memory_random) for i in range(k)] + [Case(f'memory of small programs/{i}', lambda rng, i=i: small_programs.all_memory(*((3, i, 8) if i < 8 else (2, 0, 1, (0, 1, 2))))) for i in range(9)] + [Case(f'memory of random small programs/{i}', lambda rng: small_programs.random_memory(rng, 500, 12)) for i in range(4)]

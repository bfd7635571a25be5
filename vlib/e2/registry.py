"""C10: the rule registry under contract, for any registry contents and any keys.

Per operation: the postcondition fixes the result and the complete new registry (for every
key).  Histories of several operations are compared with the abstract map as well, so that
state outside the dictionary (caches) is noticed."""
from __future__ import annotations

import itertools

import z3

from ..e3.base import Fail
from .engine import Outside, Refuted, Run, Stop, SymMap, explore

Key = z3.DeclareSort('Key')
Rule = z3.DeclareSort('Rule')
default_rule = z3.Function('default_rule', Key, Rule)


class SymRule:
    def __init__(self, t):
        self.t = t

    def __call__(self, *a, **k):
        raise Outside('a symbolic rule was called')


def keys():
    """Proxy primitives and proxy names; equality is decided by the solver."""
    from jax import core

    class K:
        def __hash__(self):
            return 987654321987

        def __eq__(self, o):
            if not isinstance(o, K):
                return False
            return Run.current.branch(self.t == o.t)

        def __ne__(self, o):
            return not self == o

    class Prim(K, core.Primitive):
        def __init__(self, t):
            core.Primitive.__init__(self, f'symbolic_{t}')
            self.t = t

        __hash__ = K.__hash__

    class Name(K, str):
        def __new__(cls, t):
            return str.__new__(cls, f'symbolic_{t}')

        def __init__(self, t):
            self.t = t

        __hash__ = K.__hash__

    return Prim, Name, K


OPS = ('register', 'deregister', 'is_registered', 'get', 'get_wrap')


class RegistryContract:
    kind = 'proof'
    weight = 2.0

    def __init__(self, ops, kinds):
        self.ops, self.kinds = ops, kinds
        self.id = f'E2/registry/{" ; ".join(f"{o} {k}" for o, k in zip(ops, kinds))}'

    # symbolic -------------------------------------------------------------------------
    def body(self, run):
        import folx.wrapped_functions as w

        Prim, Name, K = keys()
        has = run.fresh('has', z3.ArraySort(Key, z3.BoolSort()))
        val = run.fresh('val', z3.ArraySort(Key, Rule))

        def key(o):
            if not isinstance(o, K):
                raise Outside('a concrete key')
            return o.t

        def unwrap(v):
            if not isinstance(v, SymRule):
                raise Outside('a concrete rule stored')
            return v.t

        m = SymMap(has, val, key, SymRule, unwrap)
        ghost = (has, val)
        if not isinstance(getattr(w, '_LAPLACE_FN_REGISTRY', None), dict):
            raise Outside('the registry is not a module-level dictionary')
        old, oldw = w._LAPLACE_FN_REGISTRY, w.wrap_forward_laplacian
        ks = []
        run.trace = []

        def fake_wrap(fn, *a, **kw):
            owner = getattr(fn, '__self__', None)
            if a or kw or not isinstance(owner, K):
                raise Outside('default wrapper called differently')
            return SymRule(default_rule(owner.t))

        w._LAPLACE_FN_REGISTRY, w.wrap_forward_laplacian = m, fake_wrap
        try:
            for n, (op, kind) in enumerate(zip(self.ops, self.kinds)):
                t = run.fresh('k', Key)
                for k2, kind2 in ks:
                    if kind2 != kind:  # a name is never a primitive
                        run.assume(k2 != t)
                ks.append((t, kind))
                k = (Prim if kind == 'primitive' else Name)(t)
                r = SymRule(run.fresh('r', Rule))
                run.trace.append((op, t, kind))
                err = res = None
                try:
                    if op == 'register':
                        w.register_function(k, r)
                    elif op == 'deregister':
                        w.deregister_function(k)
                    elif op == 'is_registered':
                        res = w.is_registered(k)
                    else:
                        res = w.get_laplacian(k, op == 'get_wrap')
                except (KeyError, TypeError) as e:
                    err = e
                present = z3.Select(ghost[0], t)
                what = f'step {n}: {op}({kind})'
                if op == 'register':
                    run.prove(z3.BoolVal(err is None), f'{what} must not fail')
                    ghost = (z3.Store(ghost[0], t, z3.BoolVal(True)), z3.Store(ghost[1], t, r.t))
                elif op == 'deregister':
                    run.prove(z3.Or(z3.Not(present), z3.BoolVal(err is None)), f'{what} must succeed when the key is registered')
                    ghost = (z3.Store(ghost[0], t, z3.BoolVal(False)), ghost[1])
                elif op == 'is_registered':
                    if err is not None:
                        run.prove(z3.BoolVal(False), f'{what} raised {err}')
                    b = res.t if hasattr(res, 't') else z3.BoolVal(bool(res))
                    run.prove(b == present, f'{what} reports whether the key is registered')
                else:
                    wrap_ok = op == 'get_wrap' and kind == 'primitive'
                    if isinstance(err, TypeError) and op == 'get_wrap' and kind == 'name':
                        run.prove(z3.Not(present), f'{what} fails although the name is registered')
                    elif err is not None:
                        run.prove(z3.BoolVal(False), f'{what} raised {err}')
                    elif res is None:
                        run.prove(z3.And(z3.Not(present), z3.BoolVal(op == 'get')), f'{what} returned nothing')
                    elif isinstance(res, SymRule):
                        exp = z3.If(present, z3.Select(ghost[1], t), default_rule(t))
                        run.prove(res.t == exp, f'{what} returned another rule')
                        if not wrap_ok:
                            run.prove(present, f'{what} returned a rule for an unregistered key')
                    else:
                        raise Outside('get_laplacian returned something else')
                q = run.fresh('any', Key)  # the frame: every key
                run.prove(
                    z3.And(z3.Select(m.has, q) == z3.Select(ghost[0], q), z3.Implies(z3.Select(ghost[0], q), z3.Select(m.val, q) == z3.Select(ghost[1], q))),
                    f'{what}: the registry afterwards',
                )
        finally:
            w._LAPLACE_FN_REGISTRY, w.wrap_forward_laplacian = old, oldw

    # concrete -------------------------------------------------------------------------
    def concrete(self, part, initial):
        """Runs the history on the real registry; keys with equal numbers coincide."""
        import folx.wrapped_functions as w
        from jax import core

        reg = w._LAPLACE_FN_REGISTRY
        saved = dict(reg)
        objs, model = {}, {}
        try:
            for c, kind in zip(part, self.kinds):
                if c not in objs:
                    objs[c] = core.Primitive(f'vk{c}') if kind == 'primitive' else f'vname{c}'
            for c in initial:
                model[c] = lambda *a, c=c: ('initial', c)
                reg[objs[c]] = model[c]
            base = {k: v for k, v in reg.items() if k not in list(objs.values())}
            for n, (op, kind, c) in enumerate(zip(self.ops, self.kinds, part)):
                k = objs[c]
                err = res = None
                r = lambda *a, n=n: n  # noqa: E731
                try:
                    if op == 'register':
                        w.register_function(k, r)
                    elif op == 'deregister':
                        w.deregister_function(k)
                    elif op == 'is_registered':
                        res = w.is_registered(k)
                    else:
                        res = w.get_laplacian(k, op == 'get_wrap')
                except Exception as e:  # noqa: BLE001
                    err = e
                had = c in model
                bad = None
                if op == 'register':
                    model[c] = r
                    bad = err
                elif op == 'deregister':
                    if had:
                        bad = err
                    model.pop(c, None)
                elif err is not None and not (op == 'get_wrap' and kind == 'name' and not had):
                    bad = err
                elif op == 'is_registered' and bool(res) != had:
                    bad = f'is_registered gave {res}'
                elif op in ('get', 'get_wrap') and err is None and had and res is not model[c]:
                    bad = 'get_laplacian did not return the registered rule'
                elif op == 'get' and not had and res is not None:
                    bad = 'get_laplacian returned a rule for an unregistered key'
                elif op == 'get_wrap' and not had and err is None and res is None:
                    bad = 'get_laplacian returned nothing'
                if bad is None and any(reg.get(k2) is not v for k2, v in base.items()):
                    bad = 'the rule of another function changed'
                if bad is not None:
                    raise Fail(f'{self.id}\nfailing input: initially registered {sorted(initial)}; history {[(o, objs[q]) for o, q in zip(self.ops, part)]}\nstep {n}: {bad}')
        finally:
            reg.clear()
            reg.update(saved)

    def all_concrete(self):
        n = len(self.ops)

        def parts(i, p):
            if i == n:
                yield tuple(p)
                return
            for c in range(max(p, default=-1) + 2):
                if all(self.kinds[j] == self.kinds[i] for j in range(i) if p[j] == c):
                    yield from parts(i + 1, p + [c])

        for p in parts(0, []):
            cs = sorted(set(p))
            for ini in itertools.chain.from_iterable(itertools.combinations(cs, k) for k in range(len(cs) + 1)):
                self.concrete(p, ini)

    def run(self, seed):
        self.all_concrete()
        fns = ['wrapped_functions.register_function', 'wrapped_functions.deregister_function', 'wrapped_functions.is_registered', 'wrapped_functions.get_laplacian']
        base = dict(backend='E2 symbolic execution + z3', functions=fns)
        try:
            s = explore(self.body)
        except Outside as e:
            return dict(base, goals=1, discharged=False, note=f'NOT DISCHARGED: {e}; all key coincidences and initial contents were run concretely')
        except Refuted as e:
            raise Fail(f'{self.id}: obligation not discharged: {e.what}; history {e.run.trace}; countermodel {e.model}') from e
        except (AttributeError, TypeError, Stop) as e:
            return dict(base, goals=1, discharged=False, note=f'NOT DISCHARGED: {type(e).__name__}: {e}')
        return dict(base, goals=s['goals'], solver_s=s['solver'], discharged=True, note=f"{s['paths']} paths")


def contracts(tier):
    out = []
    for op in OPS:
        for k in ('primitive', 'name'):
            out.append(RegistryContract([op], [k]))
    for a, b in itertools.product(OPS, OPS):
        for ka, kb in itertools.product(('primitive', 'name'), repeat=2):
            if a in ('get', 'get_wrap') or b in ('get', 'get_wrap') or tier != 'quick':
                out.append(RegistryContract([a, b], [ka, kb]))
    hist = [('register', 'get', 'deregister', 'get_wrap'), ('get_wrap', 'register', 'get', 'get_wrap'), ('get', 'register', 'register', 'get'), ('register', 'register', 'deregister', 'get'), ('register', 'get_wrap', 'register', 'get_wrap'), ('deregister', 'get_wrap', 'register', 'get')]
    for h in hist:
        for k in ('primitive', 'name'):
            out.append(RegistryContract(list(h), [k] * len(h)))
    return out

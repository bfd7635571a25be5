"""Symbolic array sizes: JAX dimension expressions <-> IX, and path forking.

The real code is traced with symbolic dimensions.  Where it compares sizes
(``if inp_dim > jac_dim``) and the outcome is not determined by the facts known so
far, the trace is forked: the code is traced once per feasible outcome and every
path has to satisfy the contract under its path condition.
"""
from __future__ import annotations

import operator
import sys
import time

import jax  # noqa: F401
import jax._src.export.shape_poly as sp
import jax._src.export.shape_poly_decision  # noqa: F401

from . import ix
from .ix import CTX, IX, Unsupported, f_ge, i_floordiv, i_ite, i_mod

_serial = [0]
# JAX variable name -> contract-level dimension name
_names: dict[str, str] = {}


def dim_to_ix(x) -> IX:
    if not isinstance(x, sp._DimExpr) and hasattr(x, '__index__'):
        return IX.const(operator.index(x))
    if not isinstance(x, sp._DimExpr):
        raise Unsupported(f'size {x!r}')
    r = IX({})
    for term, c in x._sorted_terms:
        m = IX.const(c)
        for fac, e in term._factors:
            f = _factor(fac)
            for _ in range(e):
                m = m * f
        r = r + m
    return r


def _factor(fac) -> IX:
    if fac.var is not None:
        return IX.atom(('d', _names[fac.var]))
    op, args = fac.operation, [dim_to_ix(a) for a in fac.operands]
    if op == 'floordiv':
        return i_floordiv(*args)
    if op == 'mod':
        return i_mod(*args)
    if op == 'max':
        return i_ite(f_ge(args[0] - args[1]), args[0], args[1])
    if op == 'min':
        return i_ite(f_ge(args[0] - args[1]), args[1], args[0])
    raise Unsupported(f'dimension operation {op}')


def fresh_dims(lbs: dict[str, int]):
    """New JAX symbols (fresh names, hence no cache hits) for contract dimensions."""
    _serial[0] += 1
    names = {f'{n}{_serial[0]}q': n for n in lbs}
    if not names:
        return {}
    syms = sp.symbolic_shape(
        ','.join(names),
        constraints=[f'{v} >= {lbs[n]}' for v, n in names.items()],
    )
    _names.update(names)
    for n, lb in lbs.items():
        CTX.dim_lb[n] = lb
    CTX.syms = {n: s for n, s in zip(lbs, syms)}
    return dict(CTX.syms)


# ---- feasibility of path conditions ---------------------------------------------


def _z3_ix(p: IX, env):
    import z3

    s = z3.IntVal(0)
    for m, c in p.t.items():
        t = z3.IntVal(c)
        for a, e in m:
            at = ix._atoms[a]
            for _ in range(e):
                t = t * _z3_atom(at, env)
        s = s + t
    return s


def _z3_atom(at, env):
    import z3

    k = at[0]
    if k == 'd':
        v = z3.Int('d_' + at[1])
        env.setdefault('side', {})[at] = v >= CTX.dim_lb.get(at[1], 1)
        return v
    if k == 'v':
        v = z3.Int(f'v_{at[1]}')
        sz = CTX.var_size.get(at[1])
        if at not in env.setdefault('side', {}):
            env['side'][at] = v >= 0
            if sz is not None:
                env['side'][at] = z3.And(v >= 0, v < _z3_ix(sz, env))
        return v
    if k in ('fd', 'md'):
        n, d = _z3_ix(at[1], env), _z3_ix(at[2], env)
        return n / d if k == 'fd' else n % d
    if k == 'ite':
        return z3.If(z3_formula(at[1], env), _z3_ix(at[2], env), _z3_ix(at[3], env))
    key = ix.skey(at, {})
    v = z3.Int('o_' + key)
    if k == 'ia' and at not in env.setdefault('side', {}):
        r = CTX.int_ranges.get(at[1])
        env['side'][at] = z3.BoolVal(True)
        if r is not None:
            env['side'][at] = z3.And(v >= _z3_ix(r[0], env), v < _z3_ix(r[1], env))
    if k == 'amax' and at not in env.setdefault('side', {}):
        env['side'][at] = z3.And(v >= 0, v < _z3_ix(at[2], env))
    return v


def z3_formula(f, env):
    import z3

    k = f[0]
    if k == 'T':
        return z3.BoolVal(True)
    if k == 'Fa':
        return z3.BoolVal(False)
    if k == 'ge':
        return _z3_ix(f[1], env) >= 0
    if k == 'eq':
        return _z3_ix(f[1], env) == 0
    if k == 'not':
        return z3.Not(z3_formula(f[1], env))
    if k == 'and':
        return z3.And([z3_formula(x, env) for x in f[1]])
    if k == 'or':
        return z3.Or([z3_formula(x, env) for x in f[1]])
    # real comparisons, existential guards: opaque propositions
    return z3.Bool('p_' + ix.skey(f, {}))


def consistent(fs) -> bool:
    """False only if the conjunction of the formulas (and the facts) is refuted."""
    import z3

    t0 = time.perf_counter()
    env = {}
    s = z3.Solver()
    s.set('timeout', 2000)
    for f in list(fs) + list(CTX.facts):
        s.add(z3_formula(f, env))
    for c in list(env.get('side', {}).values()):
        s.add(c)
    r = s.check()
    CTX.solver_time += time.perf_counter() - t0
    CTX.solver_calls += 1
    return r != z3.unsat


def implied(f) -> bool:
    return not consistent([ix.f_not(f)])


def model_dims(facts, names, avoid=(), small=True):
    """Concrete sizes satisfying the path facts (None if the solver finds none)."""
    import z3

    env = {}
    s = z3.Optimize() if small else z3.Solver()
    s.set('timeout', 3000)
    vs = {n: z3.Int('d_' + n) for n in names}
    for n, v in vs.items():
        s.add(v >= CTX.dim_lb.get(n, 1))
    for f in facts:
        s.add(z3_formula(f, env))
    for c in env.get('side', {}).values():
        s.add(c)
    for m in avoid:
        s.add(z3.Or([vs[n] != m[n] for n in names]))
    if small and vs:
        s.minimize(z3.Sum(list(vs.values())))
    if s.check() != z3.sat:
        return None
    m = s.model()
    return {n: m.eval(v, model_completion=True).as_long() for n, v in vs.items()}


# ---- forking ----------------------------------------------------------------------


class Fork:
    """Decides inconclusive size comparisons along one path; records alternatives."""

    def __init__(self, decisions):
        self.decisions = list(decisions)
        self.pos = 0
        self.alternatives: list[list[bool]] = []
        self.eqs: set = set()

    def decide(self, e1, e2) -> bool:
        d = dim_to_ix(e1) - dim_to_ix(e2)
        f = f_ge(d)
        if f == ix.TRUE:
            return True
        if f == ix.FALSE:
            return False
        if self.pos < len(self.decisions):
            r = self.decisions[self.pos]
        else:
            can_t, can_f = consistent([f]), consistent([ix.f_not(f)])
            if can_t and can_f:
                self.alternatives.append(self.decisions + [False])
                r = True
            else:
                r = can_t
            self.decisions.append(r)
        self.pos += 1
        CTX.facts.append(f if r else ix.f_not(f))
        CTX.cache.clear()
        return r

    def decide_eq(self, d: IX) -> bool | None:
        """Equality asked by folx itself: None = undetermined (treated as different)."""
        self.eqs.add(d)
        return None


_active: list[Fork] = []
_orig_geq = sp._geq_decision
_orig_eq = sp._DimExpr.__eq__
_in_eq = [False]


def _geq(e1, e2, cmp_str):
    try:
        return _orig_geq(e1, e2, cmp_str)
    except sp.InconclusiveDimensionOperation:
        if not _active:
            raise
        return _active[-1].decide(e1, e2)


def _eq(self, other):
    r = _orig_eq(self, other)
    if r or not _active or _in_eq[0]:
        return r
    fn = sys._getframe(1).f_code.co_filename
    if '/folx/' in fn or '/vlib/' in fn:
        _in_eq[0] = True
        try:
            _active[-1].decide_eq(dim_to_ix(self) - dim_to_ix(other))
        except Unsupported:
            pass
        finally:
            _in_eq[0] = False
    return r


# -- division of sizes, with the facts of the path ------------------------------------


def ix_to_dim(p: IX):
    """The JAX dimension expression of an index expression over sizes, or None."""
    r = 0
    for m, c in p.t.items():
        t = c
        for a, e in m:
            at = ix._atoms[a]
            if at[0] != 'd' or at[1] not in CTX.syms:
                return None
            t = t * CTX.syms[at[1]] ** e
        r = r + t
    return r


_orig_floordiv, _orig_mod, _orig_divmod = sp._DimExpr.__floordiv__, sp._DimExpr.__mod__, sp._DimExpr.__divmod__


def _div(orig, mine):
    def f(self, other):
        if _active:
            try:
                a, b = dim_to_ix(self), dim_to_ix(other)
                if ix.ge0(b - 1):
                    r = ix_to_dim(mine(a, b))
                    if r is not None:
                        return r
            except Unsupported:
                pass
        return orig(self, other)

    return f


_my_fd, _my_md = _div(_orig_floordiv, i_floordiv), _div(_orig_mod, i_mod)


def install():
    sp._geq_decision = _geq
    sp._DimExpr.__floordiv__ = _my_fd
    sp._DimExpr.__mod__ = _my_md
    sp._DimExpr.__divmod__ = lambda a, b: (_my_fd(a, b), _my_md(a, b))
    h = sp._DimExpr.__hash__
    sp._DimExpr.__eq__ = _eq
    sp._DimExpr.__hash__ = h


install()

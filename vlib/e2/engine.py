"""Symbolic execution of the real Python code with z3-backed proxy objects.

The code under contract runs unmodified; integers, maps, keys and opaque values it handles are
proxies.  A branch on a symbolic condition forks the run: ``explore`` repeats it for every
feasible outcome.  ``Run.prove`` discharges an obligation under the path condition."""
from __future__ import annotations

import time

import z3


class Outside(BaseException):
    """The code left the part of Python the proxies model."""


class Stop(BaseException):
    """End of a path (assume false)."""


class Refuted(BaseException):
    def __init__(self, what, model, run):
        super().__init__(what)
        self.what, self.model, self.run = what, model, run


class Run:
    current = None

    def __init__(self, decisions, stats):
        self.pc, self.decisions, self.taken, self.stats = [], list(decisions), [], stats
        self.alternatives = []
        self.n = 0
        self.known = {}
        self.solver, self.added = None, 0

    def fresh(self, name, sort):
        self.n += 1
        return z3.Const(f'{name}!{self.n}', sort)

    def _check(self, *extra):
        t = time.perf_counter()
        if self.solver is None:
            self.solver = z3.Solver()
            self.solver.set('timeout', 20000)
            self.solver.add(*self.stats['axioms'])
        s = self.solver
        s.add(*self.pc[self.added:])
        self.added = len(self.pc)
        s.push()
        s.add(*extra)
        r = s.check()
        m = s.model() if r == z3.sat else None
        s.pop()
        self.stats['solver'] += time.perf_counter() - t
        self.stats['queries'] += 1
        if r == z3.unknown:
            raise Outside('solver gave up')
        return m

    def feasible(self, *extra):
        return self._check(*extra) is not None

    def assume(self, c):
        self.pc.append(c)

    def branch(self, c):
        c = z3.simplify(c)
        if z3.is_true(c) or z3.is_false(c):
            return z3.is_true(c)
        key = c.get_id()
        if key in self.known:
            return self.known[key][0]
        t = self.feasible(c)
        f = self.feasible(z3.Not(c)) if t else True
        if not (t and f):
            self.known[key] = (t, c)
            return t
        i = len(self.taken)
        if i < len(self.decisions):
            v = self.decisions[i]
        else:
            v = True
            self.alternatives.append(self.taken + [False])
        self.taken.append(v)
        self.pc.append(c if v else z3.Not(c))
        self.known[key] = (v, c)
        return v

    def prove(self, c, what):
        self.stats['goals'] += 1
        m = self._check(z3.Not(c))
        if m is not None:
            raise Refuted(what, m, self)


def explore(fn, axioms=(), max_paths=400):
    """Runs fn(run) on every feasible path; returns statistics."""
    stats = dict(goals=0, solver=0.0, queries=0, paths=0, axioms=list(axioms))
    todo = [[]]
    while todo:
        run = Run(todo.pop(), stats)
        old, Run.current = Run.current, run
        try:
            fn(run)
        except Stop:
            pass
        finally:
            Run.current = old
        stats['paths'] += 1
        if stats['paths'] > max_paths:
            raise Outside('too many paths')
        todo += run.alternatives
    return stats


def cur():
    if Run.current is None:
        raise Outside('proxy used outside a run')
    return Run.current


class SymBool:
    __hash__ = None

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return cur().branch(self.t)

    def __invert__(self):
        return SymBool(z3.Not(self.t))

    def __and__(self, o):
        return SymBool(z3.And(self.t, _b(o)))

    def __or__(self, o):
        return SymBool(z3.Or(self.t, _b(o)))

    __rand__, __ror__ = __and__, __or__

    def __eq__(self, o):
        return SymBool(self.t == _b(o))


def _b(o):
    return o.t if isinstance(o, SymBool) else z3.BoolVal(bool(o))


def _i(o):
    if isinstance(o, SymInt):
        return o.t
    if isinstance(o, SymBool):
        return z3.If(o.t, z3.IntVal(1), z3.IntVal(0))
    try:
        if int(o) == o:
            return z3.IntVal(int(o))
    except (TypeError, ValueError):
        pass
    raise Outside(f'integer arithmetic with {type(o).__name__}')


def _arith(f):
    def g(self, o):
        return NotImplemented if hasattr(o, 'symbolic_real') else f(self, o)

    return g


class SymInt:
    """A mathematical integer (Python integers are unbounded)."""

    __hash__ = None

    def __init__(self, t):
        self.t = t

    @_arith
    def __add__(self, o):
        return SymInt(self.t + _i(o))

    __radd__ = __add__

    @_arith
    def __sub__(self, o):
        return SymInt(self.t - _i(o))

    @_arith
    def __rsub__(self, o):
        return SymInt(_i(o) - self.t)

    @_arith
    def __mul__(self, o):
        return SymInt(self.t * _i(o))

    __rmul__ = __mul__

    def __neg__(self):
        return SymInt(-self.t)

    def __abs__(self):
        return SymInt(z3.If(self.t < 0, -self.t, self.t))

    def _div(self, a, b):
        run = cur()
        if run.branch(b == 0):
            raise ZeroDivisionError('integer division or modulo by zero')
        q = run.fresh('q', z3.IntSort())
        r = run.fresh('r', z3.IntSort())
        # Python floor division
        run.assume(z3.And(a == b * q + r, z3.If(b > 0, z3.And(r >= 0, r < b), z3.And(r <= 0, r > b))))
        return q, r

    @_arith
    def __floordiv__(self, o):
        return SymInt(self._div(self.t, _i(o))[0])

    @_arith
    def __rfloordiv__(self, o):
        return SymInt(self._div(_i(o), self.t)[0])

    @_arith
    def __mod__(self, o):
        return SymInt(self._div(self.t, _i(o))[1])

    def __int__(self):
        raise Outside('int() of a symbolic integer')

    def __index__(self):
        raise Outside('symbolic integer used as an index')

    def __bool__(self):
        return cur().branch(self.t != 0)

    @_arith
    def __eq__(self, o):
        return SymBool(self.t == _i(o))

    @_arith
    def __ne__(self, o):
        return SymBool(self.t != _i(o))

    @_arith
    def __lt__(self, o):
        return SymBool(self.t < _i(o))

    @_arith
    def __le__(self, o):
        return SymBool(self.t <= _i(o))

    @_arith
    def __gt__(self, o):
        return SymBool(self.t > _i(o))

    @_arith
    def __ge__(self, o):
        return SymBool(self.t >= _i(o))


class SymMap:
    """A Python dictionary with symbolic contents: presence and values are z3 arrays.

    key(obj) -> z3 key term, wrap(term) -> proxy, unwrap(proxy) -> term."""

    def __init__(self, has, val, key, wrap, unwrap, default=None):
        self.has, self.val, self.key, self.wrap, self.unwrap, self.default = has, val, key, wrap, unwrap, default

    def state(self):
        return self.has, self.val

    def __contains__(self, k):
        return cur().branch(self.has[self.key(k)])

    def _get(self, k):
        return self.wrap(z3.Select(self.val, self.key(k)))

    def __getitem__(self, k):
        if k in self:
            return self._get(k)
        if self.default is None:
            raise KeyError(k)
        d = self.default()
        self[k] = d
        return self._get(k)

    def __setitem__(self, k, v):
        self.val = z3.Store(self.val, self.key(k), self.unwrap(v))
        self.has = z3.Store(self.has, self.key(k), z3.BoolVal(True))

    def __delitem__(self, k):
        if k not in self:
            raise KeyError(k)
        self.has = z3.Store(self.has, self.key(k), z3.BoolVal(False))

    def get(self, k, default=None):
        return self._get(k) if k in self else default

    def pop(self, k, *default):
        if k in self:
            v = self._get(k)
            del self[k]
            return v
        if default:
            return default[0]
        raise KeyError(k)

    def setdefault(self, k, default=None):
        if k not in self:
            self[k] = default
        return self[k]

    def __len__(self):
        raise Outside('len of a symbolic map')

    def __iter__(self):
        raise Outside('iteration over a symbolic map')

    def __getattr__(self, name):
        raise Outside(f'dictionary method {name}')

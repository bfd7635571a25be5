"""C18: the memory estimate and the choice of the batch size under contract.

The estimate walks an arbitrary program with the loop invariant of C14, extended by: the
counted memory is the number of bytes of the values held, and the peak is the largest amount
seen.  Sizes and element sizes are symbolic."""
from __future__ import annotations

import numpy as np
import z3

from ..e3.base import Fail
from . import interp
from .engine import Outside, Run, SymBool, SymInt, SymMap, _i
from .interp import B, EnvInit, I, Loop, ProgramContract, Record, V, X, cnt, count_inv, counter_map, def_at, eff, env_inv, fake_primitive, isin, isout, kinds, literal, n, occ, program_facts, value, var_proxy

size = z3.Function('size', X, I)
item = z3.Function('itemsize', X, I)
nbytes = z3.Function('nbytes', X, I)  # = size * itemsize
row = z3.Function('row', X, X)
stacked = z3.Function('stacked', X, X)


class SymDtype:
    def __init__(self, t):
        self.t = t

    @property
    def itemsize(self):
        return SymFactor('item', self.t)

    def __getattr__(self, k):
        raise Outside(f'dtype.{k}')

    def __str__(self):
        raise Outside('the name of an element type')

    __repr__ = __str__
    __hash__ = None

    def __eq__(self, o):
        raise Outside('element types compared')


class SymFactor(SymInt):
    """size or itemsize of a value; their product is its number of bytes."""

    def __init__(self, kind, x):
        super().__init__({'size': size, 'item': item}[kind](x))
        self.kind, self.x = kind, x

    def __mul__(self, o):
        if isinstance(o, SymFactor) and o.kind != self.kind and z3.eq(o.x, self.x):
            return SymInt(nbytes(self.x))
        return super().__mul__(o)

    __rmul__ = __mul__


class MemVal:
    """An array of unknown size and element type."""

    def __init__(self, t, steps=None):
        self.t, self.steps = t, steps

    @property
    def size(self):
        return SymFactor('size', self.t)

    @property
    def itemsize(self):
        return SymFactor('item', self.t)

    @property
    def nbytes(self):
        return SymInt(nbytes(self.t))

    @property
    def dtype(self):
        return SymDtype(self.t)

    def __len__(self):
        if self.steps is None:
            raise Outside('the length of an operand')
        return self.steps

    @property
    def shape(self):
        if self.steps is None:
            raise Outside('the shape of an operand')
        return (self.steps, Outside)

    def __getitem__(self, i):
        if i is None:
            return Expanded(self.t)
        if self.steps and isinstance(i, int) and 0 <= i < self.steps:
            return MemVal(row(self.t))
        raise Outside('an operand was indexed')

    def __array__(self, *a, **k):
        raise Outside('the value of an operand was inspected')

    def __getattr__(self, k):
        raise Outside(f'attribute {k} of an operand')

    __hash__ = None

    def __eq__(self, o):
        raise Outside('operands compared')


class Expanded:
    def __init__(self, t):
        self.t = t


class Numpy:
    """jax.numpy of the module under contract: arrays pass through, everything concrete goes to
    the real one."""

    def __init__(self, real, steps):
        self.real, self.steps = real, steps

    def asarray(self, x, *a, **k):
        return x if isinstance(x, MemVal) else self.real.asarray(x, *a, **k)

    def repeat(self, x, k, axis=None, **kw):
        if isinstance(x, Expanded):
            if axis != 0 or kw:
                raise Outside('repeat')
            Run.current.prove(z3.BoolVal(k == self.steps), 'results of a scan are repeated once per step')
            return MemVal(stacked(x.t))
        return self.real.repeat(x, k, axis=axis, **kw)

    def __getattr__(self, k):
        f = getattr(self.real, k)
        if not callable(f) or isinstance(f, type):
            return f

        def g(*a, **kw):
            if any(isinstance(x, (MemVal, SymInt, Expanded, SymDtype)) for x in list(a) + list(kw.values())):
                raise Outside(f'jnp.{k}')
            return f(*a, **kw)

        return g


def unordered(xs, key=None, reverse=False):
    """sorted() of symbolic sizes: the order is only used for printing."""
    xs = list(xs)
    if any(isinstance(key(x) if key else x, SymInt) for x in xs):
        return xs
    return sorted(xs, key=key, reverse=reverse)


class Patched:
    def __init__(self, mod, **kw):
        self.mod, self.kw = mod, kw

    def __enter__(self):
        self.old = {k: getattr(self.mod, k) for k in self.kw if hasattr(self.mod, k)}
        self.new = [k for k in self.kw if k not in self.old and k == 'sorted']
        for k in list(self.old) + self.new:
            setattr(self.mod, k, self.kw[k])

    def __exit__(self, *a):
        for k, v in self.old.items():
            setattr(self.mod, k, v)
        for k in self.new:
            delattr(self.mod, k)


def patches(mod, steps=None, **kw):
    real = getattr(mod, '_bytes_from_dtype', None)

    def bytes_from_dtype(d):
        # contract of the real one (ElementBytes)
        return SymFactor('item', d.t) if isinstance(d, SymDtype) else real(d)

    return Patched(mod, jnp=Numpy(mod.jnp, steps), _bytes_from_dtype=bytes_from_dtype, sorted=unordered, **kw)


def unwrap(o):
    if not isinstance(o, MemVal):
        raise Outside('a concrete value was stored')
    return o.t


def env_map(run, name, steps=None):
    return SymMap(run.fresh(name + '_has', z3.ArraySort(V, B)), run.fresh(name + '_val', z3.ArraySort(V, X)), lambda v: v.t, lambda t: MemVal(t, steps), unwrap)


def total(ts, when=None):
    return z3.Sum([z3.IntVal(0)] + [z3.If(z3.BoolVal(True) if when is None else when(t), nbytes(value(t)), 0) for t in ts])


def sizes(run, ts):
    for t in ts:
        run.assume(z3.And(nbytes(value(t)) >= 0, size(value(t)) >= 0, item(value(t)) >= 1))


class ElementBytes(ProgramContract):
    """The number of bytes of an element, for every element type of JAX (a finite domain)."""

    functions = ('experimental.memory._bytes_from_dtype',)
    id = 'E2/bytes per element of every element type'
    weight = 1.0

    def body(self, run):
        import jax
        import jax.numpy as jnp

        import folx.experimental.memory as m

        names = 'bool_ int8 int16 int32 int64 uint8 uint16 uint32 uint64 float16 bfloat16 float32 float64 complex64 complex128 float8_e4m3fn float8_e5m2 float8_e4m3b11fnuz float8_e4m3fnuz float8_e5m2fnuz'.split()
        for d in [jnp.dtype(getattr(jnp, k)) for k in names if hasattr(jnp, k)] + [jax.random.key(0).dtype]:
            got = m._bytes_from_dtype(d)
            if not isinstance(got, int) or got != d.itemsize:
                self.bad = f'{d}: {got} bytes, an element has {d.itemsize}'
            run.prove(z3.BoolVal(isinstance(got, int) and got == d.itemsize), f'bytes of {d}')

    def replay(self, e):
        raise Fail(self.bad)


class MemoryReplay:
    def replay(self, e):
        from ..e3 import misc, small_programs

        rng = np.random.default_rng(1)
        misc.memory_case(rng)
        small_programs.all_memory(2)
        for _ in range(100):
            misc.memory_random(rng)


class MemInit(MemoryReplay, EnvInit):
    """{any program}  MemoryExprEnvironment(jaxpr, consts, *args)  {the invariants before the
    first equation, and the counted memory is that of the inputs and constants}."""

    functions = ('experimental.memory.MemoryExprEnvironment.__init__', 'experimental.memory.MemoryExprEnvironment.write', 'experimental.memory.MemoryExprEnvironment.write_many')
    module = 'folx.experimental.memory'
    cls = 'MemoryExprEnvironment'
    names = {'env', 'reference_counter', 'memory'}

    def values(self, run, ts):
        sizes(run, ts)
        return [MemVal(value(t)) for t in ts]

    def body(self, run):
        import folx.experimental.memory as m

        with patches(m):
            super().body(run)

    def post(self, run, env, made, terms, q, ins, cons):
        if not set(vars(env)) <= self.names or env.reference_counter is not made[0] or not isinstance(env.env, dict):
            raise Outside('the environment has other state')
        c, z = made[0], z3.IntVal(0)
        for t in terms:
            run.assume(z3.And(cnt(n, t) >= 0, cnt(n, t) + occ(t) < interp.MAXN, def_at(t) >= -1, def_at(t) < n + 1, isin(t) == (def_at(t) == -1), occ(t) >= 0, isout(t) == (occ(t) > 0), cnt(0, t) == 0))
        run.prove(mem_count_inv(c, z, q), 'the counter at the start covers all uses of a variable')
        m = SymMap(z3.K(V, z3.BoolVal(False)), run.fresh('none', z3.ArraySort(V, X)), lambda v: v.t, MemVal, unwrap)
        for k, v in env.env.items():
            m[k] = v
        run.prove(env_inv(m, c, z, q), 'the environment at the start holds the inputs and constants')
        for t in ins + cons:
            run.prove(z3.And(z3.Select(m.has, t), z3.Select(m.val, t) == value(t)), 'an input holds its value')
        run.prove(_i(env.memory) == total(ins + cons), 'the memory at the start is that of the inputs and constants')


def mem_count_inv(c, k, v):
    """As count_inv; inputs and constants are never released (the caller owns them)."""
    return z3.And(count_inv(c, k, v), z3.Implies(isin(v), eff(c, v) > cnt(n, v) - cnt(k, v)))


class MemLoop(MemoryReplay, ProgramContract):
    """{environment invariant before equation k, peak p}  one equation  {the counted memory
    grew by the bytes of the results held and shrank by those of every value released, each
    once; the peak is max(p, memory
    with the results + peak of the nested program, whose inputs may be counted once or twice)}."""

    functions = ('experimental.memory._compute_jaxpr_memory', 'experimental.memory.MemoryExprEnvironment.read', 'experimental.memory.MemoryExprEnvironment.write', 'experimental.memory.MemoryExprEnvironment.free_memory', 'experimental.memory.MemoryExprEnvironment._free_memory')

    def __init__(self, operands, n_out, multiple, outs, name='operation', split=(0, 0), steps=3):
        self.operands, self.n_out, self.multiple, self.outs, self.name, self.split, self.steps = operands, n_out, multiple, outs, name, split, steps
        self.weight, self.limit = 5.0 * 4 ** operands.count('v') * 3**n_out / 12, 200.0
        extra = f', {split[0]} constants, {split[1]} carries, {steps} steps' if name == 'scan' else ''
        self.id = f'E2/memory loop/{name}, operands {operands or "none"}, {n_out} results{"" if multiple else " (single)"}, outputs {outs or "none"}{extra}'

    def body(self, run):
        import folx.experimental.memory as mod
        from jax._src import source_info_util

        SymVar = var_proxy()
        q = run.fresh('any', V)
        outs = [run.fresh('out', V) if k == 'v' else None for k in self.outs]
        oset = [o for o in outs if o is not None]
        st = dict(terms=[q] + oset)
        calls, envs, tag = [], [], object()
        run.assume(n >= 0)
        steps = self.steps if self.name == 'scan' else None

        def terms():
            return st['terms']

        class Env(mod.MemoryExprEnvironment):
            def __init__(self, jaxpr, consts, *args):
                # the contract of __init__ (proved separately)
                self.env, self.reference_counter, self.memory = env_map(run, 'env', steps), counter_map(run, 'count'), SymInt(run.fresh('mem', I))
                envs.append(self)
                st['init'] = [SymMap(m.has, m.val, m.key, m.wrap, m.unwrap, m.default) for m in (self.env, self.reference_counter)] + [self.memory.t]

        def inv(e, k, t):
            return z3.And(mem_count_inv(e.reference_counter, k, t), env_inv(e.env, e.reference_counter, k, t))

        def entry():
            if len(envs) != 1 or set(vars(envs[0])) != {'env', 'reference_counter', 'memory'}:
                raise Outside('no environment')
            e, (m0, c0, b0), z = envs[0], st['init'], z3.IntVal(0)
            run.assume(z3.And(mem_count_inv(c0, z, q), env_inv(m0, c0, z, q)))
            run.prove(z3.And(inv(e, z, q), _i(e.memory) == b0), 'the environment before the first equation')

        def havoc(k):
            e = envs[0]
            e.env.has, e.env.val = run.fresh('env_has', z3.ArraySort(V, B)), run.fresh('env_val', z3.ArraySort(V, X))
            e.reference_counter.has, e.reference_counter.val = run.fresh('c_has', z3.ArraySort(V, B)), run.fresh('c_val', z3.ArraySort(V, I))
            st['before'] = run.fresh('mem', I)
            e.memory = SymInt(st['before'])
            st['has'] = e.env.has
            if k is n:
                for t in terms():
                    run.assume(z3.And(cnt(n, t) >= 0, def_at(t) < n, def_at(t) >= -1, isin(t) == (def_at(t) == -1), occ(t) >= 0, isout(t) == (occ(t) > 0), occ(t) == z3.Sum([z3.IntVal(0)] + [z3.If(o == t, 1, 0) for o in oset])))
            for t in terms():
                run.assume(inv(e, k, t))

        def got(i, a, x, what):
            if a is None:
                ok = not isinstance(x, MemVal) and np.asarray(x).shape == () and float(np.asarray(x)) == 2.5
                run.prove(z3.BoolVal(ok), f'{what} {i} is the literal')
            elif isinstance(x, MemVal):
                run.prove(x.t == a, f'{what} {i} is the current value of its variable')
            else:
                raise Outside('an operand was converted')

        def check_args(args, what):
            args = list(args)
            run.prove(z3.BoolVal(len(args) == len(st['ops'])), f'{what} received every operand')
            for i, a in enumerate(st['ops']):
                t = None if a is None else value(a)
                if a is not None and self.name == 'scan' and i >= sum(self.split):
                    t = row(t)
                got(i, t, args[i], 'operand')

        def results():
            out = []
            for i, r in enumerate(st['results']):
                x = value(r)
                if self.name == 'scan' and i >= self.split[1]:
                    x = run.fresh('y', X)
                    run.assume(stacked(x) == value(r))
                out.append(MemVal(x))
            return out

        def on_bind(args, params):
            if st['warm'] is not None:
                return MemVal(value(st['warm']))
            calls.append('bind')
            check_args(args, 'the operation')
            run.prove(z3.BoolVal(params.get('tag') is tag), 'the operation received its parameters')
            r = results()
            return r if self.multiple else r[0]

        def nested(jaxpr, consts, *args, return_result=False, **kw):
            calls.append('nested')
            check_args(args, 'the nested program')
            run.prove(z3.BoolVal(jaxpr is tag and return_result is True), 'the nested program is walked')
            if self.name == 'pjit':
                run.prove(z3.BoolVal(consts is tag), 'the nested program has its constants')
            return results(), SymInt(st['sub']), []

        prim = fake_primitive(self.name, self.multiple, on_bind)
        warm_prim = fake_primitive('operation', False, on_bind)
        info = source_info_util.new_source_info()

        def warm(k):
            """An equation before k, so that the peak so far is arbitrary."""
            r = run.fresh('w', V)
            st.update(warm=r, terms=[q] + oset + [r])
            # a value in use; its size does not matter as the memory before it is arbitrary
            run.assume(z3.And(def_at(r) == k, program_facts(r, k, [], [r]), cnt(n, r) > 0, nbytes(value(r)) == 0))
            for t in terms():
                run.assume(program_facts(t, k, [], [r]))
            sizes(run, [r])
            return Record(invars=[], outvars=[SymVar(r)], primitive=warm_prim, params={}, source_info=info, effects=set())

        def equation(k):
            st['warm'] = None
            ops = []
            for c in self.operands:
                a = run.fresh('a', V) if c == 'v' else None
                ops.append(a)
            same = {}
            proxies = []
            for i, a in enumerate(ops):
                if a is None:
                    proxies.append(literal())
                    continue
                for j in range(i):
                    if ops[j] is not None and run.branch(ops[j] == a):
                        ops[i] = ops[j]
                        proxies.append(proxies[j])
                        break
                else:
                    proxies.append(SymVar(a))
                    same[i] = a
            res = [run.fresh('r', V) for _ in range(self.n_out)]
            if len(res) > 1:
                run.assume(z3.Distinct(*res))
            avars = [o for o in ops if o is not None]
            st.update(ops=ops, results=res, distinct=list(same.values()), terms=[q] + oset + avars + res, sub=run.fresh('nested_peak', I))
            for t in terms():
                run.assume(program_facts(t, k, avars, res))
            for a in avars:
                run.assume(def_at(a) < k)
            for r in res:
                run.assume(def_at(r) == k)
            sizes(run, avars + res)
            run.assume(st['sub'] >= 0)
            if self.name not in ('pjit', 'scan'):
                run.assume(st['sub'] == 0)
            params = dict(tag=tag)
            if self.name == 'pjit':
                params = dict(tag=tag, name='nested', jaxpr=Record(jaxpr=tag, literals=tag, consts=tag))
            if self.name == 'scan':
                params = dict(num_consts=self.split[0], num_carry=self.split[1], length=self.steps, jaxpr=Record(jaxpr=tag, literals=(), consts=()))
            return Record(invars=proxies, outvars=[SymVar(r) for r in res], primitive=prim, params=params, source_info=info, effects=set())

        def preserved(k):
            e = envs[0]
            run.prove(z3.BoolVal(len(calls) == 1), 'the operation is evaluated once')
            if set(vars(e)) != {'env', 'reference_counter', 'memory'}:
                raise Outside('the environment has other state')
            for t in terms():
                run.assume(z3.Implies(def_at(t) > k, cnt(k + 1, t) == 0))
            run.prove(inv(e, k + 1, q), 'after an equation exactly the values still needed are held')
            has0, has1 = st['has'], e.env.has
            run.prove(z3.Implies(z3.And(z3.Select(has0, q), cnt(n, q) > cnt(k + 1, q)), z3.Select(has1, q)), 'no value is discarded before its last use')
            for a in st['distinct']:
                run.prove(z3.Select(has0, a), 'operands are held before the equation')
            grown = total(st['results'], lambda r: z3.Select(has1, r))
            freed = total(st['distinct'], lambda a: z3.Not(z3.Select(has1, a)))
            run.prove(z3.Implies(z3.And([q != t for t in st['distinct'] + st['results']]), z3.Select(has0, q) == z3.Select(has1, q)), 'other values are neither added nor released')
            run.prove(_i(e.memory) == st['before'] + grown - freed, 'the memory counts the results held and every value released once')
            st['with_results'] = st['before'] + grown + st['sub']
            # the inputs of a nested program are held by both
            st['at_least'] = st['with_results'] - (total(st['distinct']) if self.name in ('pjit', 'scan') else 0)

        class TwoEquations(Loop):
            def __iter__(self):
                self.used += 1
                if self.used > 1:
                    raise Outside('the equations are visited twice')
                entry()
                st['peak'] = st['low'] = z3.IntVal(0)
                if run.branch(run.fresh('more', B)):
                    j, k = run.fresh('j', I), run.fresh('k', I)
                    run.assume(z3.And(j >= 0, j < k, k < n))
                    it = warm(j)
                    havoc(j)
                    yield it
                    w = st['warm']
                    m1 = st['before'] + z3.If(z3.Select(envs[0].env.has, w), nbytes(value(w)), 0)
                    p = z3.If(m1 > 0, m1, 0)
                    # any peak is possible here: the memory before equation j is arbitrary
                    run.prove(_i(envs[0].memory) == m1, 'memory after an equation without operands')
                    it = equation(k)
                    havoc(k)
                    yield it
                    preserved(k)
                    st['peak'] = z3.If(st['with_results'] > p, st['with_results'], p)
                    st['low'] = z3.If(st['at_least'] > p, st['at_least'], p)
                    st['terms'] = [q] + oset
                havoc(n)

        st['warm'] = None
        loop = TwoEquations(run, entry, havoc, None, preserved)
        jaxpr = Record(invars=[], constvars=[], outvars=[SymVar(o) if o is not None else literal() for o in outs], eqns=loop)
        real = mod._compute_jaxpr_memory
        with patches(mod, steps, MemoryExprEnvironment=Env, _compute_jaxpr_memory=nested):
            out = real(jaxpr, [], return_result=True)
        if loop.used != 1:
            raise Outside('the equations were not visited by iteration')
        vals, peak = out[0], out[1]
        run.prove(z3.And(_i(peak) <= st['peak'], _i(peak) >= st['low']), 'the peak is the largest amount of memory held with the results of an equation')
        vals = list(vals)
        run.prove(z3.BoolVal(len(vals) == len(outs)), 'as many values are returned as the program has outputs')
        for i, (o, x) in enumerate(zip(outs, vals)):
            got(i, None if o is None else value(o), x, 'output')


# ------------------------------------------------------------------ choice of the batch size


class SymReal:
    """A float, treated as a real number."""

    __hash__ = None
    symbolic_real = True

    def __init__(self, t):
        self.t = t

    def _op(self, o, f):
        return SymReal(f(self.t, _r(o)))

    def __add__(self, o):
        return self._op(o, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        return self._op(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._op(o, lambda a, b: b - a)

    def __mul__(self, o):
        return self._op(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __neg__(self):
        return SymReal(-self.t)

    def __truediv__(self, o):
        return _divide(self.t, _r(o))

    def __rtruediv__(self, o):
        return _divide(_r(o), self.t)

    def __floordiv__(self, o):
        return _floor(_divide(self.t, _r(o)))

    def __rfloordiv__(self, o):
        return _floor(_divide(_r(o), self.t))

    def __bool__(self):
        return Run.current.branch(self.t != 0)

    def __int__(self):
        raise Outside('int() of a symbolic number')

    def __float__(self):
        raise Outside('float() of a symbolic number')

    def __eq__(self, o):
        return SymBool(self.t == _r(o))

    def __ne__(self, o):
        return SymBool(self.t != _r(o))

    def __lt__(self, o):
        return SymBool(self.t < _r(o))

    def __le__(self, o):
        return SymBool(self.t <= _r(o))

    def __gt__(self, o):
        return SymBool(self.t > _r(o))

    def __ge__(self, o):
        return SymBool(self.t >= _r(o))


def _r(o):
    if isinstance(o, SymReal):
        return o.t
    if isinstance(o, (SymInt, SymBool)):
        return z3.ToReal(_i(o))
    if isinstance(o, (int, float)):
        return z3.RealVal(repr(o))
    raise Outside(f'arithmetic with {type(o).__name__}')


def _divide(a, b):
    run = Run.current
    if run.branch(b == 0):
        raise ZeroDivisionError('float floor division by zero')
    q = run.fresh('quotient', z3.RealSort())
    run.assume(q * b == a)
    return SymReal(q)


def _floor(x):
    run = Run.current
    k = run.fresh('floor', I)
    run.assume(z3.And(z3.ToReal(k) <= x.t, x.t < z3.ToReal(k) + 1))
    return SymReal(z3.ToReal(k))


def sym_int(x=0, *a):
    if isinstance(x, SymReal):
        run = Run.current
        k = run.fresh('int', I)
        run.assume(z3.If(x.t >= 0, z3.And(z3.ToReal(k) <= x.t, x.t < z3.ToReal(k) + 1), z3.And(z3.ToReal(k) >= x.t, x.t > z3.ToReal(k) - 1)))
        return SymInt(k)
    if isinstance(x, SymInt):
        return x
    return int(x, *a)


def sym_float(x=0.0):
    return SymReal(_r(x)) if isinstance(x, (SymReal, SymInt, SymBool)) else float(x)


class AutoBatch(ProgramContract):
    """{any memory limit, fraction and estimates; any of the estimations may fail}
    auto_batched_vmap(fn, ...)(*args)  {returns the result of batched_vmap of the same function,
    axes and arguments with a batch size >= 1 which fits into the memory if more than one
    element is evaluated at once; never raises where batched_vmap with batch size 1 does not}."""

    functions = ('experimental.vmap.auto_batched_vmap',)
    weight = 3.0

    def __init__(self, estimates, large_fails, named=True):
        self.estimates, self.large_fails, self.named = estimates, large_fails, named
        self.id = f'E2/batch size/estimates {"symbolic" if estimates == "ok" else estimates}{", the large batch fails" if large_fails else ""}{"" if named else ", function without a name"}'

    def body(self, run):
        import folx.experimental.vmap as mod

        limit, single, pair = (run.fresh(k, I) for k in ('limit', 'single', 'pair'))
        fraction = run.fresh('fraction', z3.RealSort())
        run.assume(limit >= 0)
        sizes_, ran = [], []
        tag_in, tag_out, args, kwargs = object(), object(), (object(), object()), dict(option=object())
        answer = object()

        class Fn:
            def __call__(self, *a, **k):
                raise Outside('the function itself was called')

        fn = Fn()
        if self.named:
            fn.__name__ = 'f'

        def batched(f, max_batch_size=None, in_axes=0, out_axes=0):
            run.prove(z3.BoolVal(f is fn and in_axes is tag_in and out_axes is tag_out), 'the function is batched over its axes')
            sizes_.append(max_batch_size)
            run.prove(_i(max_batch_size) >= 1, 'the batch size is at least one')

            def call(*a, **k):
                run.prove(z3.BoolVal(len(a) == len(args) and all(x is y for x, y in zip(a, args)) and k == kwargs), 'the batched function receives the arguments')
                ran.append(max_batch_size)
                if self.large_fails and len(ran) == 1:
                    raise RuntimeError('out of memory')
                return answer

            call.batch = max_batch_size
            return call

        def estimate(f, *a, **k):
            if not hasattr(f, 'batch'):
                raise Outside('another function was estimated')
            k = {x: y for x, y in k.items() if x != 'static_argnums'}
            run.prove(z3.BoolVal(len(a) == len(args) and all(x is y for x, y in zip(a, args)) and k == kwargs), 'the estimate is for the arguments')
            b = f.batch
            if isinstance(b, SymInt):
                raise Outside('another batch size was estimated')
            if self.estimates == f'of {b} fails' or self.estimates == 'fail':
                raise RuntimeError('estimation failed')
            if b not in (1, 2):
                raise Outside('another batch size was estimated')
            return SymInt(single if b == 1 else pair)

        class Device:
            def memory_stats(self):
                return {'bytes_limit': SymInt(limit)}

        class Jax:
            def devices(self, *a, **k):
                return [Device()]

            local_devices = devices

            def __getattr__(self, k):
                import jax

                return getattr(jax, k)

        extra = dict(int=sym_int, float=sym_float)
        have = {k: mod.__dict__[k] for k in extra if k in mod.__dict__}
        with Patched(mod, jax=Jax(), batched_vmap=batched, compute_memory=estimate):
            mod.__dict__.update(extra)
            try:
                try:
                    out = mod.auto_batched_vmap(fn, in_axes=tag_in, out_axes=tag_out, max_fraction=SymReal(fraction))(*args, **kwargs)
                except Exception as e:  # noqa: BLE001
                    run.prove(z3.BoolVal(False), f'no exception is raised ({type(e).__name__}: {e})')
            finally:
                for k in extra:
                    mod.__dict__.pop(k, None)
                mod.__dict__.update(have)
        run.prove(z3.BoolVal(out is answer), 'the result of the batched function is returned')
        b = _i(ran[-1])
        run.prove(b >= 1, 'the batch size is at least one')
        if self.estimates != 'ok' or self.large_fails:
            run.prove(b == 1, 'after a failure single elements are evaluated')
        else:
            cost = pair - single
            base = single - cost
            fits = fraction * z3.ToReal(limit) >= z3.ToReal(base) + z3.ToReal(b * cost)
            run.prove(z3.Or(b == 1, cost <= 0, fits), 'a batch of several elements fits into the memory')

    def replay(self, e):
        from ..e3 import misc

        rng = np.random.default_rng(1)
        misc.auto_fail(rng)
        for _ in range(4):
            misc.auto_case(rng)


def contracts(tier):
    q = tier == 'quick'
    out = [ElementBytes()]
    for a, b in ((0, 0), (1, 0), (0, 1), (2, 1)) + (() if q else ((3, 2),)):
        for o in ('', 'v', 'vl', 'vv'):
            for ops in ('', 'v', 'vv', 'vvv') if not q else (('vv',) if o != 'v' else ('', 'v', 'vv')):
                if len(o) + a + b <= 5:
                    out.append(MemInit(a, b, o, ops))
    for ops in kinds(1, 3 if q else 4):
        for r in (1, 2) if q else (0, 1, 2, 3):
            if ops.count('v') + r <= (4 if q else 6):
                out.append(MemLoop(ops, r, True, ''))
        out.append(MemLoop(ops, 1, False, ''))
    for o in ('v', 'l', 'vv', 'vl', 'lv', 'vvv'):
        out.append(MemLoop('l', 1, False, o))
    out.append(MemLoop('v', 1, False, 'v'))
    out.append(MemLoop('', 1, False, ''))
    out.append(MemLoop('v', 0, True, ''))
    for ops in kinds(1, 2):
        out.append(MemLoop(ops, 1, True, '', 'pjit'))
        out.append(MemLoop(ops, 2, True, '', 'pjit'))
    for ops, r, split, steps in (('vvv', 2, (1, 1), 3), ('vv', 2, (0, 1), 3), ('vv', 1, (1, 0), 2), ('vv', 3, (0, 1), 3), ('v', 1, (0, 0), 1), ('vv', 2, (0, 2), 4), ('v', 2, (0, 1), 3), ('lv', 2, (0, 1), 3), ('vlv', 2, (1, 1), 2)):
        out.append(MemLoop(ops, r, True, '', 'scan', split, steps))
    for est in ('ok', 'of 1 fails', 'of 2 fails', 'fail'):
        for lf in (False, True):
            if est == 'ok' or not lf:
                for named in (True, False):
                    out.append(AutoBatch(est, lf, named))
    return out


"""C14: the evaluation environment and the equation loop under contract.

A program is an arbitrary sequence of n equations.  Variables, values and use counts are
symbolic; the loops over the equations are verified with an invariant, injected through the
iterator the real code runs over: the state is replaced by an arbitrary state satisfying the
invariant before equation k, the loop body runs once, and the invariant before equation k+1
is proved; a second path leaves the loop with the invariant at n.

Use counts: cnt(k, v) = occurrences of v among the operands of the equations before k."""
from __future__ import annotations

import itertools
import logging

import numpy as np
import z3

from ..e1.contract import time_limit
from ..e1.ix import Unsupported
from ..e3.base import Fail
from .engine import Outside, Refuted, Run, Stop, SymInt, SymMap, _i, explore

V = z3.DeclareSort('Variable')
X = z3.DeclareSort('Value')
I, B = z3.IntSort(), z3.BoolSort()
value = z3.Function('value', V, X)
def_at = z3.Function('defined_at', V, I)
isin = z3.Function('is_input', V, B)
isout = z3.Function('is_output', V, B)
occ = z3.Function('output_occurrences', V, I)
cnt = z3.Function('uses_before', I, V, I)
dep = z3.Function('depends', X, B)
n = z3.Int('n')
MAXN = np.iinfo(np.int32).max


def var_proxy():
    from jax import core

    class SymVar(core.Var):
        def __init__(self, t):  # no Var.__init__: there is no abstract value to look at
            self.t = t

        def __getattr__(self, k):
            raise Outside(f'attribute {k} of a variable')

        def __hash__(self):
            return 918273645

        def __eq__(self, o):
            return self is o or (isinstance(o, SymVar) and Run.current.branch(self.t == o.t))

        def __ne__(self, o):
            return not self == o

        def __lt__(self, o):
            raise Outside('order of variables')

        def __repr__(self):
            return str(self.t)

    return SymVar


class SymVal:
    """An opaque array."""

    def __init__(self, t):
        self.t = t

    def __array__(self, *a, **k):
        raise Outside('the value of an operand was inspected')

    def __getattr__(self, k):
        raise Outside(f'attribute {k} of an operand')

    __hash__ = None

    def __eq__(self, o):
        raise Outside('operands compared')


def wrap(t):
    from folx.api import FwdLaplArray

    if Run.current.branch(dep(t)):
        return FwdLaplArray(SymVal(t), SymVal(t), SymVal(t))
    return SymVal(t)


def unwrap(o):
    from folx.api import FwdLaplArray

    if isinstance(o, FwdLaplArray):
        o = o.x
    if not isinstance(o, SymVal):
        raise Outside('a concrete value was stored')
    return o.t


def counter_map(run, name):
    has, val = run.fresh(name + '_has', z3.ArraySort(V, B)), run.fresh(name + '_val', z3.ArraySort(V, I))
    return SymMap(has, val, lambda v: v.t, SymInt, _i, default=lambda: SymInt(z3.IntVal(0)))


def env_map(run, name):
    has, val = run.fresh(name + '_has', z3.ArraySort(V, B)), run.fresh(name + '_val', z3.ArraySort(V, X))
    return SymMap(has, val, lambda v: v.t, wrap, unwrap)


def eff(c, v):
    return z3.If(z3.Select(c.has, v), z3.Select(c.val, v), z3.IntVal(0))


def program_facts(v, k, operands, outs):
    """Well-formedness of the program, instantiated at variable v and equation k."""
    uses = z3.Sum([z3.IntVal(0)] + [z3.If(a == v, 1, 0) for a in operands])
    return z3.And(
        cnt(0, v) == 0, cnt(k, v) >= 0, cnt(k + 1, v) == cnt(k, v) + uses, z3.Implies(k < n, cnt(n, v) >= cnt(k + 1, v)),
        cnt(n, v) >= cnt(k, v), cnt(n, v) + occ(v) < MAXN,
        def_at(v) >= -1, isin(v) == (def_at(v) == -1), def_at(v) < n,
        z3.Implies(def_at(v) >= k, cnt(k + 1, v) == uses), z3.Implies(def_at(v) >= k, cnt(k, v) == 0), z3.Implies(def_at(v) >= k, uses == 0),
        occ(v) >= 0, isout(v) == (occ(v) > 0),
        z3.Implies(def_at(v) == k, z3.Or([z3.BoolVal(False)] + [o == v for o in outs])),
    )


def count_inv(c, k, v):
    """The reference counter before equation k."""
    left = cnt(n, v) - cnt(k, v)
    e = eff(c, v)
    return z3.And(
        z3.Implies(isout(v), e >= left + occ(v)),
        z3.Implies(z3.And(isin(v), z3.Not(isout(v))), e >= left),
        z3.Implies(z3.And(z3.Not(isin(v)), z3.Not(isout(v))), e == left),
    )


def env_inv(m, c, k, v):
    """Which values are held before equation k."""
    e = eff(c, v)
    h = z3.Select(m.has, v)
    return z3.And(
        z3.Implies(h, z3.And(def_at(v) < k, z3.Select(m.val, v) == value(v))),
        z3.Implies(z3.And(def_at(v) < k, e > 0), h),
        z3.Implies(z3.And(z3.Not(isin(v)), z3.Not(isout(v)), e == 0), z3.Not(h)),
    )


class Loop:
    """Iterator for a loop under an invariant."""

    def __init__(self, run, entry, havoc, item, preserved):
        self.run, self.entry, self.havoc, self.item, self.preserved, self.used = run, entry, havoc, item, preserved, 0

    def __iter__(self):
        self.used += 1
        if self.used > 1:
            raise Outside('the equations are visited twice')
        self.entry()
        if self.run.branch(self.run.fresh('more', B)):
            k = self.run.fresh('k', I)
            self.run.assume(z3.And(k >= 0, k < n))
            it = self.item(k)
            self.havoc(k)
            yield it
            self.preserved(k)
            raise Stop
        self.havoc(n)

    def __len__(self):
        raise Outside('number of equations')

    def __getattr__(self, k):
        raise Outside(f'equations.{k}')


class Record:
    """Attributes given, everything else outside."""

    def __init__(self, **kw):
        self.__dict__.update(kw)

    def __getattr__(self, k):
        raise Outside(f'attribute {k}')


def aval():
    from jax import core

    return core.ShapedArray((), np.float32)


def literal(x=2.5):
    from jax import core

    return core.Literal(x, aval())


class ProgramContract:
    kind = 'proof'
    weight = 20.0
    limit = 150.0
    functions = ()

    def prepare(self, run):
        pass

    def run(self, seed):
        base = dict(backend='E2 symbolic execution, loop invariants, z3', functions=list(self.functions))
        logging.disable(logging.CRITICAL)
        try:
            with time_limit(self.limit):
                s = explore(self.body, max_paths=4000)
        except Unsupported as e:
            return dict(base, goals=1, discharged=False, note=f'NOT DISCHARGED: {e}')
        except Outside as e:
            return dict(base, goals=1, discharged=False, note=f'NOT DISCHARGED: {e}')
        except Refuted as e:
            head = f'{self.id}: obligation not discharged: {e.what}; countermodel {str(e.model)[:1500]}'
            try:
                self.replay(e)
            except Fail as f:
                raise Fail(f'{head}\nfailing input: {f}') from None
            raise Fail(f'{head}\nno failing program found by the replay') from None
        except (AttributeError, ImportError) as e:
            return dict(base, goals=1, discharged=False, note=f'NOT DISCHARGED: {type(e).__name__}: {e}')
        finally:
            logging.disable(logging.NOTSET)
        return dict(base, goals=s['goals'], solver_s=s['solver'], discharged=True, note=f"{s['paths']} paths")

    def replay(self, e):
        from ..e3 import small_programs

        small_programs.all_programs(3)
        small_programs.all_programs(2, widths=(0, 1, 2))
        small_programs.random_programs(np.random.default_rng(1), 2000, 10)


class EnvInit(ProgramContract):
    """{any program}  JaxExprEnvironment(jaxpr, consts, *args)  {the counter and environment
    invariants before the first equation}."""

    functions = ('interpreter.JaxExprEnvironment.__init__', 'interpreter.JaxExprEnvironment.write', 'interpreter.JaxExprEnvironment.write_many')
    module = 'folx.interpreter'
    cls = 'JaxExprEnvironment'

    def __init__(self, n_in, n_const, outs, operands):
        self.n_in, self.n_const, self.outs, self.operands = n_in, n_const, outs, operands
        self.id = f'E2/{self.cls}.init/{n_in} inputs, {n_const} constants, outputs {outs or "none"}, operands {operands or "none"}'

    def values(self, run, ts):
        from folx.api import FwdLaplArray

        out = []
        for i, t in enumerate(ts):
            run.assume(dep(value(t)) == z3.BoolVal(i % 2 == 0))
            x = SymVal(value(t))
            out.append(FwdLaplArray(x, x, x) if i % 2 == 0 else x)
        return out

    def body(self, run):
        import importlib

        mod = importlib.import_module(self.module)
        SymVar = var_proxy()
        ins = [run.fresh('in', V) for _ in range(self.n_in)]
        cons = [run.fresh('const', V) for _ in range(self.n_const)]
        if len(ins + cons) > 1:
            run.assume(z3.Distinct(*ins, *cons))
        outs = [run.fresh('out', V) if k == 'v' else None for k in self.outs]
        q = run.fresh('any', V)
        oset = [o for o in outs if o is not None]
        terms = ins + cons + oset + [q]
        for t in terms:
            run.assume(occ(t) == z3.Sum([z3.IntVal(0)] + [z3.If(o == t, 1, 0) for o in oset]))
            run.assume(isin(t) == z3.Or([z3.BoolVal(False)] + [t == v for v in ins + cons]))
            run.assume(n >= 0)
        made = []

        def symbolic_defaultdict(factory=None, *a, **k):
            if a or k or factory is None or factory() != 0:
                raise Outside('another default dictionary')
            m = SymMap(z3.K(V, z3.BoolVal(False)), z3.K(V, z3.IntVal(0)), lambda v: v.t, SymInt, _i, default=lambda: SymInt(z3.IntVal(0)))
            made.append(m)
            return m

        state = {}

        def snapshot(m):
            return SymMap(m.has, m.val, m.key, m.wrap, m.unwrap, m.default)

        def entry():
            if len(made) != 1:
                raise Outside('no single counter')
            state['start'] = snapshot(made[0])
            for t in terms:
                run.assume(cnt(0, t) == 0)

        def havoc(k):
            m, s = made[0], state['start']
            m.has, m.val = run.fresh('has', z3.ArraySort(V, B)), run.fresh('val', z3.ArraySort(V, I))
            for t in terms + state.get('ops', []):
                run.assume(eff(m, t) == eff(s, t) + cnt(k, t))

        def item(k):
            ops = [run.fresh('a', V) if c == 'v' else None for c in self.operands]
            state['ops'] = [o for o in ops if o is not None]
            for t in terms + state['ops']:
                run.assume(cnt(k + 1, t) == cnt(k, t) + z3.Sum([z3.IntVal(0)] + [z3.If(a == t, 1, 0) for a in state['ops']]))
            return Record(invars=[SymVar(o) if o is not None else literal() for o in ops])

        def preserved(k):
            m, s = made[0], state['start']
            for t in [q] + state['ops']:
                run.prove(eff(m, t) == eff(s, t) + cnt(k + 1, t), 'the counter counts every operand of an equation once')

        loop = Loop(run, entry, havoc, item, preserved)
        jaxpr = Record(invars=[SymVar(t) for t in ins], constvars=[SymVar(t) for t in cons], outvars=[SymVar(o) if o is not None else literal() for o in outs], eqns=loop)
        old = mod.defaultdict
        mod.defaultdict = symbolic_defaultdict
        try:
            env = getattr(mod, self.cls)(jaxpr, self.values(run, cons), *self.values(run, ins))
        finally:
            mod.defaultdict = old
        if loop.used != 1:
            raise Outside('the equations were not visited by iteration')
        self.post(run, env, made, terms, q, ins, cons)

    names = {'env', 'reference_counter'}

    def post(self, run, env, made, terms, q, ins, cons):
        if set(vars(env)) != self.names or env.reference_counter is not made[0] or not isinstance(env.env, dict):
            raise Outside('the environment has other state')
        c = made[0]
        z = z3.IntVal(0)
        for t in terms:
            run.assume(z3.And(cnt(n, t) >= 0, cnt(n, t) + occ(t) < MAXN, def_at(t) >= -1, def_at(t) < n + 1, isin(t) == (def_at(t) == -1), occ(t) >= 0, isout(t) == (occ(t) > 0), cnt(0, t) == 0))
        run.prove(count_inv(c, z, q), 'the counter at the start covers all uses of a variable')
        m = SymMap(z3.K(V, z3.BoolVal(False)), run.fresh('none', z3.ArraySort(V, X)), lambda v: v.t, wrap, unwrap)
        for k, v in env.env.items():
            m[k] = v
        run.prove(env_inv(m, c, z, q), 'the environment at the start holds the inputs and constants')
        for t in ins + cons:
            run.prove(z3.Implies(z3.Or(cnt(n, t) > 0, isout(t)), z3.And(z3.Select(m.has, t), z3.Select(m.val, t) == value(t))), 'an input which is used holds its value')


def fake_primitive(name, multiple, on_bind):
    from jax import core

    class FakePrimitive(core.Primitive):
        def bind(self, *args, **params):
            return on_bind(args, params)

        def get_bind_params(self, params):
            return [], dict(params)

    p = FakePrimitive(name)
    p.multiple_results = multiple
    return p


class LoopContract(ProgramContract):
    """{environment invariant before equation k}  one equation  {the operation received the
    values of its operands; the invariant before equation k + 1}; after the loop the values of
    the output variables are returned."""

    functions = ('interpreter.eval_jaxpr_with_forward_laplacian', 'interpreter.JaxExprEnvironment.read', 'interpreter.JaxExprEnvironment.write', 'interpreter.JaxExprEnvironment.read_many', 'interpreter.JaxExprEnvironment.write_many')

    def __init__(self, operands, n_out, multiple, outs, threshold=0, name='operation', eager_fails=False):
        self.operands, self.n_out, self.multiple, self.outs, self.threshold, self.name, self.eager_fails = operands, n_out, multiple, outs, threshold, name, eager_fails
        self.weight, self.limit = 5.0 * 4 ** operands.count('v') * 3**n_out / 12, 150.0 if operands.count('v') < 4 else 900.0
        self.id = f'E2/equation loop/{name}, operands {operands or "none"}, {n_out} results{"" if multiple else " (single)"}, outputs {outs or "none"}, threshold {threshold}{", eager evaluation fails" if eager_fails else ""}'

    def body(self, run):
        import folx.interpreter as mod
        from folx.api import FwdLaplArray
        from jax._src import source_info_util

        SymVar = var_proxy()
        q = run.fresh('any', V)
        outs = [run.fresh('out', V) if k == 'v' else None for k in self.outs]
        oset = [o for o in outs if o is not None]
        calls = []
        st = dict(terms=[q] + oset)
        envs = []
        run.assume(n >= 0)
        tag = object()

        def terms():
            return st['terms']

        class Env(mod.JaxExprEnvironment):
            def __init__(self, jaxpr, consts, *args):
                # the contract of __init__ (proved separately)
                self.env, self.reference_counter = env_map(run, 'env'), counter_map(run, 'count')
                envs.append(self)
                st['init'] = [SymMap(m.has, m.val, m.key, m.wrap, m.unwrap, m.default) for m in (self.env, self.reference_counter)]

        def assume_inv(e, k):
            for t in terms():
                run.assume(z3.And(count_inv(e.reference_counter, k, t), env_inv(e.env, e.reference_counter, k, t)))

        def entry():
            if len(envs) != 1 or set(vars(envs[0])) != {'env', 'reference_counter'}:
                raise Outside('no environment')
            # I(0) is the postcondition of the constructor; it must still hold here
            e, (m0, c0), z = envs[0], st['init'], z3.IntVal(0)
            run.assume(z3.And(count_inv(c0, z, q), env_inv(m0, c0, z, q)))
            run.prove(z3.And(count_inv(e.reference_counter, z, q), env_inv(e.env, e.reference_counter, z, q)), 'the environment before the first equation')

        def havoc(k):
            e = envs[0]
            e.env.has, e.env.val = run.fresh('env_has', z3.ArraySort(V, B)), run.fresh('env_val', z3.ArraySort(V, X))
            e.reference_counter.has, e.reference_counter.val = run.fresh('c_has', z3.ArraySort(V, B)), run.fresh('c_val', z3.ArraySort(V, I))
            if k is n:
                for t in terms():
                    run.assume(z3.And(cnt(n, t) >= 0, def_at(t) < n, def_at(t) >= -1, isin(t) == (def_at(t) == -1), occ(t) >= 0, isout(t) == (occ(t) > 0), occ(t) == z3.Sum([z3.IntVal(0)] + [z3.If(o == t, 1, 0) for o in oset])))
            assume_inv(e, k)

        def got(i, a, args):
            """argument i is operand a"""
            x = args[i]
            if a is None:
                ok = not isinstance(x, (SymVal, FwdLaplArray)) and np.asarray(x).shape == () and np.asarray(x).dtype == np.float32 and float(np.asarray(x)) == 2.5
                run.prove(z3.BoolVal(ok), f'operand {i} is the literal')
            elif isinstance(x, (SymVal, FwdLaplArray)):
                run.prove(unwrap(x) == value(a), f'operand {i} is the current value of its variable')
                run.prove(dep(value(a)) == z3.BoolVal(isinstance(x, FwdLaplArray)), f'operand {i} keeps its derivatives')
            else:
                raise Outside('an operand was converted')

        def results(depends):
            vs = []
            for o in st['results']:
                run.assume(dep(value(o)) == z3.BoolVal(depends))
                vs.append(FwdLaplArray(SymVal(value(o)), SymVal(value(o)), SymVal(value(o))) if depends else SymVal(value(o)))
            return vs if self.multiple else vs[0]

        def check_args(args, what):
            run.prove(z3.BoolVal(len(args) == len(st['ops'])), f'{what} received every operand')
            for i, a in enumerate(st['ops']):
                got(i, a, args)

        def any_dep():
            return z3.Or([z3.BoolVal(False)] + [dep(value(a)) for a in st['ops'] if a is not None])

        def on_bind(args, params):
            if self.eager_fails and 'failed' not in st:
                st['failed'] = True
                raise ValueError('not available at compile time')
            calls.append('bind')
            check_args(args, 'the operation')
            run.prove(z3.BoolVal(params.get('tag') is tag and len(params) == len(st['params'])), 'the operation received its parameters')
            run.prove(z3.Not(any_dep()), 'an operation on dependent operands is not evaluated as an ordinary operation')
            return results(False)

        def rule(args, kwargs, sparsity_threshold):
            calls.append('rule')
            check_args(args, 'the rule')
            run.prove(z3.BoolVal(kwargs.get('tag') is tag and sparsity_threshold == self.threshold), 'the rule received its parameters and threshold')
            run.prove(any_dep(), 'an operation on constants is evaluated as an ordinary operation')
            return results(True)

        def nested(jaxpr, consts, *args, sparsity_threshold):
            calls.append('nested')
            check_args(args, 'the nested program')
            run.prove(z3.BoolVal(jaxpr is tag and consts is tag and sparsity_threshold == self.threshold), 'the nested program is evaluated with its constants and threshold')
            return results(True)

        prim = fake_primitive(self.name, self.multiple, on_bind)

        def item(k):
            ops = [run.fresh('a', V) if c == 'v' else None for c in self.operands]
            res = [run.fresh('r', V) for _ in range(self.n_out)]
            if len(res) > 1:
                run.assume(z3.Distinct(*res))
            avars = [o for o in ops if o is not None]
            st.update(ops=ops, results=res, terms=[q] + oset + avars + res)
            for t in terms():
                run.assume(program_facts(t, k, avars, res))
            for a in avars:
                run.assume(def_at(a) < k)
            for r in res:
                run.assume(def_at(r) == k)
            st['params'] = dict(tag=tag)
            if self.name == 'pjit':
                st['params'] = dict(tag=tag, name='a nested function', jaxpr=Record(jaxpr=tag, literals=tag, consts=tag))
            return Record(invars=[SymVar(a) if a is not None else literal() for a in ops], outvars=[SymVar(r) for r in res], primitive=prim, params=st['params'], source_info=source_info_util.new_source_info(), effects=set())

        def preserved(k):
            e = envs[0]
            run.prove(z3.BoolVal(len(calls) == 1), 'the operation is evaluated once')
            if len(vars(e)) != 2:
                raise Outside('the environment has other state')
            for t in terms():
                run.assume(z3.Implies(def_at(t) > k, cnt(k + 1, t) == 0))
            run.prove(count_inv(e.reference_counter, k + 1, q), 'after an equation the counter is the number of remaining uses')
            run.prove(env_inv(e.env, e.reference_counter, k + 1, q), 'after an equation exactly the values still needed are held, each with its own value')
            run.prove(z3.Implies(z3.And(def_at(q) <= k, z3.Or(cnt(n, q) > cnt(k + 1, q), isout(q))), z3.And(z3.Select(e.env.has, q), z3.Select(e.env.val, q) == value(q))), 'no value is discarded before its last use')
            run.prove(z3.Implies(z3.And(cnt(n, q) == cnt(k + 1, q), z3.Not(isout(q)), z3.Not(isin(q))), z3.Not(z3.Select(e.env.has, q))), 'a value is released after its last use')

        loop = Loop(run, entry, havoc, item, preserved)
        jaxpr = Record(invars=[], constvars=[], outvars=[SymVar(o) if o is not None else literal() for o in outs], eqns=loop)
        import folx

        real = mod.eval_jaxpr_with_forward_laplacian
        saved = mod.JaxExprEnvironment
        mod.JaxExprEnvironment = Env
        mod.eval_jaxpr_with_forward_laplacian = nested
        folx.register_function(prim, rule)
        try:
            out = real(jaxpr, [], sparsity_threshold=self.threshold)
        finally:
            mod.JaxExprEnvironment, mod.eval_jaxpr_with_forward_laplacian = saved, real
            folx.deregister_function(prim)
        if loop.used != 1:
            raise Outside('the equations were not visited by iteration')
        out = list(out)
        run.prove(z3.BoolVal(len(out) == len(outs)), 'as many values are returned as the program has outputs')
        for i, (o, x) in enumerate(zip(outs, out)):
            if o is None:
                run.prove(z3.BoolVal(not isinstance(x, (SymVal, FwdLaplArray)) and float(np.asarray(x)) == 2.5), f'output {i} is the literal')
            elif isinstance(x, (SymVal, FwdLaplArray)):
                run.prove(unwrap(x) == value(o), f'output {i} is the value of its variable')
                run.prove(dep(value(o)) == z3.BoolVal(isinstance(x, FwdLaplArray)), f'output {i} keeps its derivatives')
            else:
                raise Outside('an output was converted')


def kinds(lo, hi):
    """v: variable, l: literal."""
    return [''.join(p) for k in range(lo, hi + 1) for p in itertools.product('vl', repeat=k)]


def contracts(tier):
    q = tier == 'quick'
    out = []
    for a, b in ((0, 0), (1, 0), (0, 1), (2, 1)) + (() if q else ((3, 2),)):
        for o in ('', 'v', 'vl', 'vv', 'vvv'):
            for ops in ('', 'v', 'vv', 'lv', 'vvv') if not q else (('vv', 'lv') if o != 'v' else ('', 'v', 'vv', 'vvv')):
                if len(o) + a + b <= 6:
                    out.append(EnvInit(a, b, o, ops))
    for ops in kinds(1, 3 if q else 4):
        big = ops.count('v')
        if big < 3 or not q:
            for r in (1, 2) if q else (0, 1, 2, 3):
                out.append(LoopContract(ops, r, True, 'v', threshold=0 if r == 1 else 6))
        out.append(LoopContract(ops, 1, False, 'v', threshold=6))
    for ops in ('v', 'vv', 'lv'):
        for t in (0, 6):
            out.append(LoopContract(ops, 1, True, 'v', t, 'pjit'))
            out.append(LoopContract(ops, 2, True, 'v', t, 'pjit'))
    for ops in ('v', 'vv'):
        out.append(LoopContract(ops, 1, False, 'v', 6, eager_fails=True))
    for o in ['', 'l', 'vv', 'vl', 'lv', 'vvv', 'vlv']:
        out.append(LoopContract('vv', 1, False, o))
    out.append(LoopContract('', 1, False, 'v'))
    out.append(LoopContract('v', 0, True, 'v'))
    return out

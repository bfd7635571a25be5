"""All programs of a few equations, run on the real interpreter with recording operations."""
from __future__ import annotations

import itertools
import weakref

import numpy as np
from jax import core
from jax._src import source_info_util

import folx
import folx.interpreter as fi
from folx.api import FwdJacobian, FwdLaplArray

from .base import Fail

AVAL = core.ShapedArray((), np.float64)


class Recorder:
    def __init__(self):
        self.prims = {}

    def primitive(self, k, multiple):
        if (k, multiple) not in self.prims:
            rec = self

            class P(core.Primitive):
                def bind(self, *args, **params):
                    return rec.called(k, 'ordinary', args, params)

                def get_bind_params(self, params):
                    return [], dict(params)

            p = P(f'vf_op{k}_{multiple}')
            p.multiple_results = multiple
            folx.register_function(p, lambda args, kw, sparsity_threshold: rec.called(k, 'rule', args, kw))
            self.prims[k, multiple] = p
        return self.prims[k, multiple]

    def close(self):
        for p in self.prims.values():
            folx.deregister_function(p)

    def called(self, k, how, args, params):
        prog = self.prog
        want = prog.operands[k]
        if k in self.seen:
            raise Fail(f'equation {k} is evaluated twice')
        self.seen.append(k)
        if len(args) != len(want):
            raise Fail(f'equation {k} received {len(args)} operands')
        for i, (x, w) in enumerate(zip(args, want)):
            d = isinstance(x, FwdLaplArray)
            if float(np.asarray(x.x if d else x)) != prog.number(w):
                raise Fail(f'equation {k}: operand {i} ({w}) has the value of another variable')
            if d != prog.dependent(w):
                raise Fail(f'equation {k}: operand {i} ({w}) {"carries" if d else "lost its"} derivatives')
        dep = any(prog.dependent(w) for w in want)
        if (how == 'rule') != dep:
            raise Fail(f'equation {k} with {"" if dep else "no "}dependent operands was evaluated by {how}')
        if params.get('number') != k:
            raise Fail(f'equation {k} did not receive its parameters')
        del args
        x = None
        # values which were used up by the previous equations are gone
        for name, ref in self.refs.items():
            last = max([j for j, o in enumerate(prog.operands) if name in o], default=int(name[1:].split('.')[0]))
            if last < k - 1 and name not in prog.outs and ref() is not None:
                raise Fail(f'equation {k}: the value of {name}, last used by equation {last}, is still held')
        res = [self.make(f'e{k}.{j}', dep) for j in range(prog.results[k])]
        return res if prog.multiple(k) else res[0]

    def make(self, name, dep):
        a = np.array(self.prog.number(name))
        if name[0] == 'e':
            self.refs[name] = weakref.ref(a)
        return FwdLaplArray(a, FwdJacobian(np.ones((1,))), np.zeros(())) if dep else a


class Program:
    """operands: per equation a tuple of names (x0, x1 dependent/plain inputs, c0 constant,
    ek.j result j of equation k, 'lit')."""

    def __init__(self, operands, results, outs, dep_inputs=('x0',)):
        self.operands, self.results, self.outs, self.dep_inputs = operands, results, outs, dep_inputs
        self._dep = {}

    def multiple(self, k):
        return self.results[k] != 1

    def number(self, name):
        if name == 'lit':
            return 2.5
        if name[0] in 'xc':
            return {'x': 100.0, 'c': 200.0}[name[0]] + int(name[1:])
        k, j = name[1:].split('.')
        return 1000.0 + 10 * int(k) + int(j)

    def dependent(self, name):
        if name == 'lit' or name[0] == 'c':
            return False
        if name[0] == 'x':
            return name in self.dep_inputs
        return any(self.dependent(o) for o in self.operands[int(name[1:].split('.')[0])])

    def __str__(self):
        eq = '; '.join(f'{", ".join(f"e{k}.{j}" for j in range(r))} = op{k}({", ".join(o)})' for k, (o, r) in enumerate(zip(self.operands, self.results)))
        return f'{{ x0, x1 (dependent: {", ".join(self.dep_inputs) or "none"}), constant c0 . {eq} in ({", ".join(self.outs)}) }}'

    def run(self, rec, threshold):
        var = {}

        def v(name):
            if name == 'lit':
                return core.Literal(2.5, AVAL)
            if name not in var:
                var[name] = core.Var('', AVAL)
            return var[name]

        used = {o for ops in self.operands for o in ops} | set(self.outs)
        eqns = []
        for k, (o, r) in enumerate(zip(self.operands, self.results)):
            outs = [v(f'e{k}.{j}') if f'e{k}.{j}' in used or j == 0 and k % 2 else core.DropVar(AVAL) for j in range(r)]
            eqns.append(core.new_jaxpr_eqn([v(x) for x in o], outs, rec.primitive(k, self.multiple(k)), dict(number=k), set(), source_info_util.new_source_info()))
        jaxpr = core.Jaxpr([v('c0')], [v('x0'), v('x1')], [v(x) for x in self.outs], eqns)
        rec.prog, rec.seen, rec.refs = self, [], {}
        try:
            got = fi.eval_jaxpr_with_forward_laplacian(jaxpr, [rec.make('c0', False)], *[rec.make(x, x in self.dep_inputs) for x in ('x0', 'x1')], sparsity_threshold=threshold)
            if rec.seen != list(range(len(eqns))):
                raise Fail(f'equations evaluated: {rec.seen}')
            if len(got) != len(self.outs):
                raise Fail(f'{len(got)} outputs')
            for i, (x, w) in enumerate(zip(got, self.outs)):
                d = isinstance(x, FwdLaplArray)
                if float(np.asarray(x.x if d else x)) != self.number(w):
                    raise Fail(f'output {i} ({w}) is the value of another variable')
                if d != self.dependent(w):
                    raise Fail(f'output {i} ({w}) {"carries" if d else "lost its"} derivatives')
        except Fail as e:
            raise Fail(f'program {self}: {e}') from None
        except Exception as e:  # noqa: BLE001
            raise Fail(f'program {self}: raised {type(e).__name__}: {e}') from e


def programs(n, widths=(1,), arity=2):
    """All programs of n equations over two inputs and one constant."""
    def rec(k, avail, ops, res):
        if k == n:
            yield ops, res, avail
            return
        for o in itertools.product(avail + ['lit'], repeat=arity):
            for r in widths:
                yield from rec(k + 1, avail + [f'e{k}.{j}' for j in range(r)], ops + [o], res + [r])

    yield from rec(0, ['x0', 'x1', 'c0'], [], [])


def outputs(avail, i):
    last = avail[-1]
    pats = [[last], [last, last], [avail[i % len(avail)], last], [avail[i % len(avail)]], [last, 'lit', avail[0]], [avail[i % len(avail)]] * 2 + ['c0'], [], [avail[(i // 7) % len(avail)], avail[i % len(avail)], last]]
    return pats[i % len(pats)]


def all_programs(n, part=0, parts=1, widths=(1,), arity=2):
    logging_off()
    rec = Recorder()
    try:
        i = 0
        for m in range(1, n + 1):
            for ops, res, avail in programs(m, widths, arity):
                i += 1
                if i % parts != part:
                    continue
                for z in (0, 1, 2, 3, 4, 5, 6, 7) if m == 1 else (0, 3):
                    outs = outputs(avail, i + z)
                    dep = (('x0',), ('x0', 'x1'), ('x1',), ())[(i + z) % 4]
                    Program(ops, res, outs, dep).run(rec, (0, 6)[(i // 2 + z) % 2])
        return dict(cases=i // parts)
    finally:
        rec.close()


def random_programs(rng, count, size):
    rec = Recorder()
    try:
        for _ in range(count):
            avail, ops, res = ['x0', 'x1', 'c0'], [], []
            for k in range(int(rng.integers(2, size + 1))):
                near = avail[-4:] if rng.random() < 0.6 else avail
                ops.append(tuple((near + ['lit'])[int(rng.integers(len(near) + 1))] for _ in range(int(rng.integers(0, 5)))))
                res.append(int(rng.integers(0, 4)))
                avail += [f'e{k}.{j}' for j in range(res[-1])]
            outs = [(avail + ['lit'])[int(rng.integers(len(avail) + 1))] for _ in range(int(rng.integers(0, 5)))]
            Program(ops, res, outs, [x for x in ('x0', 'x1') if rng.random() < 0.6]).run(rec, int(rng.integers(0, 2)) * 6)
    finally:
        rec.close()


def logging_off():
    import logging

    logging.disable(logging.CRITICAL)


# ------------------------------------------------------------------ memory estimate


class MemoryProgram(Program):
    """The same programs; every value has its own size and element type."""

    dtypes = (np.float32, np.int8, np.bool_, np.complex64)

    def array(self, name):
        i = int(self.number(name))
        return np.full((1 + i * 7919 % 13,), 1, self.dtypes[i % 4])

    def bytes(self, name):
        return self.array(name).nbytes

    def called(self, k, args):
        want = self.operands[k]
        if len(args) != len(want):
            raise Fail(f'equation {k} received {len(args)} operands')
        for i, (x, w) in enumerate(zip(args, want)):
            if w != 'lit' and x is not self.values[w]:
                raise Fail(f'equation {k}: operand {i} ({w}) is the value of another variable')
        for j in range(self.results[k]):
            self.values[f'e{k}.{j}'] = self.array(f'e{k}.{j}')
        r = [self.values[f'e{k}.{j}'] for j in range(self.results[k])]
        return r if self.multiple(k) else r[0]

    def expected(self):
        """Peak by liveness analysis."""
        keep = {'x0', 'x1', 'c0'} | set(self.outs)
        used = {o for ops in self.operands for o in ops} | keep
        last = {o: i for i, ops in enumerate(self.operands) for o in ops if o != 'lit'}
        mem, peak = sum(self.bytes(v) for v in ('x0', 'x1', 'c0')), 0
        for k, ops in enumerate(self.operands):
            mem += sum(self.bytes(f'e{k}.{j}') for j in range(self.results[k]) if f'e{k}.{j}' in used)
            peak = max(peak, mem)
            mem -= sum(self.bytes(v) for v in set(ops) if v != 'lit' and last[v] == k and v not in keep)
        return peak

    def run(self, prims):
        import folx.experimental.memory as fm

        var = {}

        def v(name):
            if name == 'lit':
                return core.Literal(2.5, AVAL)
            if name not in var:
                var[name] = core.Var('', AVAL)
            return var[name]

        used = {o for ops in self.operands for o in ops} | set(self.outs)
        eqns = []
        for k, (o, r) in enumerate(zip(self.operands, self.results)):
            outs = [v(f'e{k}.{j}') if f'e{k}.{j}' in used or j == 0 and k % 2 else core.DropVar(AVAL) for j in range(r)]
            eqns.append(core.new_jaxpr_eqn([v(x) for x in o], outs, prims(self, self.multiple(k)), dict(number=k), set(), source_info_util.new_source_info()))
        jaxpr = core.Jaxpr([v('c0')], [v('x0'), v('x1')], [v(x) for x in self.outs], eqns)
        self.values = {n: self.array(n) for n in ('x0', 'x1', 'c0')}
        try:
            out, peak, _ = fm._compute_jaxpr_memory(jaxpr, [self.values['c0']], self.values['x0'], self.values['x1'], return_result=True)
            if peak != self.expected():
                raise Fail(f'estimate {peak} bytes, liveness gives {self.expected()}')
            for i, (x, w) in enumerate(zip(out, self.outs)):
                if w != 'lit' and x is not self.values[w]:
                    raise Fail(f'output {i} ({w}) is the value of another variable')
        except Fail as e:
            raise Fail(f'program {self}: {e}') from None
        except Exception as e:  # noqa: BLE001
            raise Fail(f'program {self}: raised {type(e).__name__}: {e}') from e


def memory_primitives():
    made = {}

    def get(prog, multiple):
        if multiple not in made:

            class P(core.Primitive):
                def bind(self, *args, **params):
                    return made['program'].called(params['number'], args)

                def get_bind_params(self, params):
                    return [], dict(params)

            p = P(f'vf_memory_{multiple}')
            p.multiple_results = multiple
            made[multiple] = p
        made['program'] = prog
        return made[multiple]

    return get


def all_memory(n, part=0, parts=1, widths=(1,), arity=2):
    import folx.experimental.memory as fm

    if not hasattr(fm, '_compute_jaxpr_memory'):
        return dict(cases=0)
    logging_off()
    prims, i = memory_primitives(), 0
    for m in range(1, n + 1):
        for ops, res, avail in programs(m, widths, arity):
            i += 1
            if i % parts == part:
                for z in range(8) if m == 1 else (0, 3):
                    MemoryProgram(ops, res, outputs(avail, i + z), ()).run(prims)
    return dict(cases=i // parts)


def random_memory(rng, count, size):
    import folx.experimental.memory as fm

    if not hasattr(fm, '_compute_jaxpr_memory'):
        return dict(cases=0)
    prims = memory_primitives()
    for _ in range(count):
        avail, ops, res = ['x0', 'x1', 'c0'], [], []
        for k in range(int(rng.integers(2, size + 1))):
            near = avail[-4:] if rng.random() < 0.6 else avail
            ops.append(tuple((near + ['lit'])[int(rng.integers(len(near) + 1))] for _ in range(int(rng.integers(0, 5)))))
            res.append(int(rng.integers(0, 4)))
            avail += [f'e{k}.{j}' for j in range(res[-1])]
        outs = [(avail + ['lit'])[int(rng.integers(len(avail) + 1))] for _ in range(int(rng.integers(0, 5)))]
        MemoryProgram(ops, res, outs, ()).run(prims)
    return dict(cases=count)

"""Contracts on the real folx code and their verification.

``Contract``: symbolic sizes, input arrays, ``impl`` (calls the real code) and ``spec``
(the postcondition, written with plain JAX).  Verification traces both with symbolic
sizes (forking where the code compares sizes), converts the traces to terms and proves
every output element equal.  A failed proof is replayed on concrete sizes and inputs.
"""
from __future__ import annotations

import contextlib
import os
import signal
import sys
import threading
import time
import types
import zlib

import jax
import jax.numpy as jnp
import numpy as np

from .. import env as venv
from ..e3.base import Fail
from . import decide, dims, evalnum, ix, npshim, sem
from .ix import CTX, Unsupported, to_ix

FOLX = venv.REPO + '/folx/'


DEBUG = bool(os.environ.get('E1_DEBUG'))


@contextlib.contextmanager
def time_limit(seconds):
    """Give up a proof attempt after some seconds; the rest of the check goes on."""

    def stop(*_):
        raise Unsupported('time limit')

    if threading.current_thread() is not threading.main_thread():
        yield
        return
    old = signal.signal(signal.SIGALRM, stop)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


class Input:
    def __init__(self, name, shape, dtype='f', lo=None, hi=None):
        self.name, self.shape, self.dtype, self.lo, self.hi = name, shape, dtype, lo, hi

    @property
    def np_dtype(self):
        return {'f': np.float64, 'f4': np.float32, 'c': np.complex128, 'i': np.int64, 'b': np.bool_}[self.dtype]


def I(name, *shape, dtype='f', lo=None, hi=None):
    return Input(name, shape, dtype, lo, hi)


class Contract:
    kind = 'proof'
    known = None

    def __init__(self, id, dims, inputs, impl, spec, note='', weight=1.0, bounded=None, dom=None, max_paths=24, uf=None, limit=60.0, check=None):
        self.id, self.lbs, self.inputs, self.impl, self.spec = id, dims, inputs, impl, spec
        self.note, self.weight, self.dom, self.max_paths = note, weight, dom, max_paths
        self.bounded = bounded  # text: what is fixed (e.g. a concrete axis length)
        self.uf = uf or {}
        self.limit = limit
        self.check = check  # check(d, jaxpr) -> [(what, size expression that must be >= 0)]

    def run(self, seed):
        v = Verifier(self, seed)
        try:
            with time_limit(self.limit):
                return v.run()
        except Unsupported as e:  # time limit outside a partition
            v.alias = {n: n for n in self.lbs}
            v.replay([], dict(self.lbs), f'outside the verifier ({e}); bounded stand-in')
            return v.outcome(False, f'NOT DISCHARGED: {e}')


def _shape(shape, d):
    out = []
    for s in shape:
        if isinstance(s, str):
            v = 1
            for part in s.split('*'):
                v = v * (getattr(d, part) if not part.isdigit() else int(part))
            out.append(v)
        elif callable(s):
            out.append(s(d))
        else:
            out.append(s)
    return tuple(out)


class Profile:
    """Names of the folx functions executed."""

    def __init__(self):
        self.names = set()

    def _cb(self, frame, event, arg):
        if event == 'call':
            fn = frame.f_code.co_filename
            if fn.startswith(FOLX):
                self.names.add(fn[len(FOLX):-3].replace('/', '.') + '.' + frame.f_code.co_qualname)

    def __enter__(self):
        sys.setprofile(self._cb)
        return self

    def __exit__(self, *a):
        sys.setprofile(None)


class Verifier:
    def __init__(self, c: Contract, seed):
        self.c, self.seed = c, seed
        self.goals = 0
        self.functions = set()
        self.solver = 0.0
        self.paths = 0
        self.checked = 0
        self.notes = []

    # -- concrete runs -----------------------------------------------------------
    def concrete_inputs(self, dvals, rng):
        d = types.SimpleNamespace(**dvals)
        arrs = []
        for i in self.c.inputs:
            shp = _shape(i.shape, d)
            if i.dtype == 'i':
                lo = i.lo if i.lo is not None else 0
                hi = i.hi
                lo = _shape((lo,), d)[0]
                hi = _shape((hi,), d)[0] if hi is not None else 5
                a = rng.integers(lo, hi, size=shp)
            elif i.dtype == 'b':
                a = rng.integers(0, 2, size=shp).astype(bool)
            else:
                lo = i.lo if i.lo is not None else -1.5
                hi = i.hi if i.hi is not None else 1.5
                a = rng.uniform(lo, hi, size=shp)
                if i.dtype == 'c':
                    a = a + 1j * rng.uniform(lo, hi, size=shp)
            arrs.append(np.asarray(a, dtype=i.np_dtype))
        return d, arrs

    def concrete(self, dvals, rng):
        """(max difference, description) on concrete inputs; None when they agree."""
        d, arrs = self.concrete_inputs(dvals, rng)
        spec = jax.tree_util.tree_leaves(self.c.spec(d, *[jnp.asarray(a) for a in arrs]))
        try:
            impl = jax.tree_util.tree_leaves(self.c.impl(d, *[jnp.asarray(a) for a in arrs]))
        except Exception as e:  # the code refuses an input the contract admits
            return f'{type(e).__name__}: {e}'[:600], arrs, None
        if len(spec) != len(impl):
            return f'{len(impl)} outputs instead of {len(spec)}', arrs, impl
        for k, (a, b) in enumerate(zip(impl, spec)):
            a, b = np.asarray(a), np.asarray(b)
            if a.shape != b.shape or a.dtype != b.dtype:
                return f'output {k}: {a.dtype}{a.shape} instead of {b.dtype}{b.shape}', arrs, impl
            if a.dtype.kind in 'fc':
                tol = 1e-9 if a.dtype.itemsize >= 8 else 1e-3
                err = np.abs(a - b)
                ok = np.isclose(a, b, rtol=tol * 100, atol=tol * (1 + float(np.max(np.nan_to_num(np.abs(b)), initial=0))), equal_nan=True)
            else:
                ok = a == b
                err = None
            if not np.all(ok):
                w = tuple(int(i) for i in np.argwhere(~ok)[0])
                return f'output {k}{list(w)}: {a[w]!r} instead of {b[w]!r}', arrs, impl
        return None, arrs, impl

    def replay(self, facts, lbs, why, extra=()):
        """Look for concrete sizes and inputs on which the code breaks the contract."""
        names = list(lbs)
        rng = np.random.default_rng([self.seed, zlib.crc32(self.c.id.encode())])
        tried, avoid = [], []
        for n in range(12):
            dv = dims.model_dims(facts, names, avoid, small=n < 8) if names else ({} if n == 0 else None)
            if dv is None:
                if names:
                    break
                dv = {}
            avoid.append(dv)
            total = 1
            for v in dv.values():
                total *= max(v, 1)
            if total > 20000:
                continue
            full = self.expand(dv)
            msg, arrs, _ = self.concrete(full, rng)
            tried.append(full)
            if msg is not None:
                desc = ', '.join(f'{i.name}={np.array2string(a, precision=4, threshold=12)}' for i, a in zip(self.c.inputs, arrs))
                raise Fail(f'{self.c.id}: {why}\nfailing input: sizes {full}; {desc[:1500]}\n{msg}')
        return tried

    def expand(self, dv):
        return {n: (dv[m] if isinstance(m, str) else m) for n, m in self.alias.items()}

    # -- symbolic run --------------------------------------------------------------
    def run(self):
        t0 = time.perf_counter()
        base = {n: n for n in self.c.lbs}
        seen, todo = set(), [base]
        discharged, unsup = True, []
        while todo:
            alias = todo.pop(0)
            key = tuple(sorted(alias.items(), key=str))
            if key in seen:
                continue
            seen.add(key)
            if len(seen) > 40:
                discharged = False
                unsup.append('too many size partitions')
                break
            try:
                for nxt in self.instance(alias):
                    todo.append(nxt)
            except Fail:
                raise
            except Exception as e:  # noqa: BLE001 - outside the verifier or an engine limit
                discharged = False
                what = str(e) if isinstance(e, Unsupported) else f'{type(e).__name__}: {e}'
                if DEBUG:
                    import traceback

                    traceback.print_exc()
                e = what[:400]
                unsup.append(f'{alias}: {e}')
                self.alias = alias
                lbs = {m: self.c.lbs[m] for m in alias.values() if isinstance(m, str)}
                self.replay([], lbs, f'outside the verifier ({e}); bounded stand-in')
        note = f'{self.paths} paths, {len(seen)} size partitions; ' + self.c.note
        if unsup:
            note += ' NOT DISCHARGED: ' + '; '.join(unsup)[:600]
        return self.outcome(discharged, note)

    def outcome(self, discharged, note):
        return dict(
            goals=max(self.goals, 1), backend='E1 index-notation normal form + z3',
            functions=sorted(self.functions), solver_s=self.solver, note=note,
            discharged=discharged, fixed=self.c.bounded, selfchecks=self.checked,
        )

    def instance(self, alias):
        """Verify all paths of one size partition; returns further partitions to verify."""
        self.alias = alias
        todo = [[]]
        more = []
        while todo:
            dec = todo.pop()
            if self.paths > self.c.max_paths * 8:
                raise Unsupported('too many paths')
            fork, eqs, pinned = self.path(alias, dec)
            self.paths += 1
            if pinned:
                more.append(pinned)
            todo += fork.alternatives
            for d in fork.eqs:
                nx = self.split(alias, d)
                if nx:
                    more.append(nx)
        return more

    def split(self, alias, d):
        """Partition in which two sizes that folx compared for equality coincide."""
        if len(d.t) == 2 and all(len(m) <= 1 and (not m or m[0][1] == 1) for m in d.t):
            items = [(ix._atoms[m[0][0]][1] if m else None, c) for m, c in d.t.items()]
            names = [n for n, _ in items if n is not None]
            if len(names) == 2 and items[0][1] == -items[1][1] and abs(items[0][1]) == 1:
                a, b = sorted(names)
                return {n: (a if m == b else m) for n, m in alias.items()}
            if len(names) == 1:
                c = d.t.get((), 0)
                n0, k = next((n, k) for n, k in items if n is not None)
                if abs(k) == 1:
                    v = -c * k
                    if v >= self.c.lbs[n0]:
                        return {n: (v if m == n0 else m) for n, m in alias.items()}
                return None
        self.notes.append(f'{d!r} assumed nonzero')
        return None

    def pinned(self, alias, facts):
        """Partition equivalent to an equality among the path facts, if there is one."""
        for f in facts:
            if f[0] != 'eq':
                continue
            p = f[1]
            c = p.t.get((), 0)
            ms = [m for m in p.t if m]
            if len(ms) == 1 and abs(p.t[ms[0]]) == 1 and -c * p.t[ms[0]] == 1 and all(ix._atoms[a][0] == 'd' for a, _ in ms[0]):
                one = {ix._atoms[a][1] for a, _ in ms[0]}
                return {n: (1 if m in one else m) for n, m in alias.items()}
            nx = self.split(alias, p) if all(ix._atoms[a][0] == 'd' for m in ms for a, _ in m) else None
            if nx is not None:
                return nx
        return None

    def path(self, alias, decisions):
        c = self.c
        ix.reset_ctx()
        if not alias:  # fixed sizes: everything is written out
            CTX.unroll = 4096
        lbs = {}
        for n, m in alias.items():
            if isinstance(m, str):
                lbs[m] = max(lbs.get(m, 0), c.lbs[n])
        syms = dims.fresh_dims(lbs)
        d = types.SimpleNamespace(**{n: (syms[m] if isinstance(m, str) else m) for n, m in alias.items()})
        shapes = [_shape(i.shape, d) for i in c.inputs]
        avals = [jax.ShapeDtypeStruct(s, i.np_dtype) for s, i in zip(shapes, c.inputs)]
        fork = dims.Fork(decisions)
        prof = Profile()
        dims._active.append(fork)
        try:
            with npshim.installed(jit=bool(alias)):
                spec, spec_out = jax.make_jaxpr(lambda *a: c.spec(d, *a), return_shape=True)(*avals)
                try:
                    with prof:
                        impl, impl_out = jax.make_jaxpr(lambda *a: c.impl(d, *a), return_shape=True)(*avals)
                except dims.sp.InconclusiveDimensionOperation as e:
                    raise Unsupported(f'symbolic trace: {str(e)[:160]}')
                except Unsupported:
                    raise
                except (TypeError, ValueError, AssertionError, NotImplementedError, IndexError, AttributeError, KeyError) as e:
                    import traceback
                    tb = traceback.extract_tb(e.__traceback__)
                    loc = [f'{t.filename[-24:]}:{t.lineno}' for t in tb if FOLX in t.filename][-1:]
                    raise Unsupported(f'symbolic trace: {type(e).__name__}: {str(e)[:160]} {loc}')
        finally:
            dims._active.pop()
        self.functions |= prof.names
        facts = list(CTX.facts)
        nx = self.pinned(alias, facts)
        if nx is not None:  # the path condition fixes sizes: verify that partition instead
            return fork, fork.eqs, nx
        if c.check:
            for what, e in c.check(d, impl):
                self.goals += 1
                if not dims.implied(ix.f_ge(dims.dim_to_ix(e))):
                    self.refuted_check(facts + [ix.f_not(ix.f_ge(dims.dim_to_ix(e)))], lbs, what)
        a_leaves = jax.tree_util.tree_leaves(impl_out)
        b_leaves = jax.tree_util.tree_leaves(spec_out)
        if len(a_leaves) != len(b_leaves):
            self.refuted(facts, lbs, f'{len(a_leaves)} outputs instead of {len(b_leaves)}')
        S = sem.Sem()
        ins = []
        for i, s in zip(c.inputs, shapes):
            rng_ = None
            if i.dtype == 'i':
                lo = dims.dim_to_ix(_shape((i.lo or 0,), d)[0])
                hi = dims.dim_to_ix(_shape((i.hi if i.hi is not None else 5,), d)[0])
                rng_ = (lo, hi)
            ins.append(sem.input_arr(i.name, tuple(dims.dim_to_ix(x) for x in s), i.np_dtype, rng_))
        try:
            oa = S.eval_closed(impl, ins)
            ob = S.eval_closed(spec, ins)
            vals = []
            for k, (x, y, sx, sy) in enumerate(zip(oa, ob, a_leaves, b_leaves)):
                if len(x.shape) != len(y.shape) or any(p != q and not dims.implied(ix.f_eq(p, q)) for p, q in zip(x.shape, y.shape)):
                    self.refuted(facts, lbs, f'output {k}: shape {x.shape} instead of {y.shape}')
                if sx.dtype != sy.dtype:
                    self.refuted(facts, lbs, f'output {k}: dtype {sx.dtype} instead of {sy.dtype}')
                for idx in self.indices(y.shape):
                    self.goals += 1
                    a, b = x[idx], y[idx]
                    vals.append((k, idx, a, b))
                    try:
                        decide.prove_equal(a, b)
                    except decide.Residual as r:
                        self.refuted(facts, lbs, ('(loops: rec:) ' if 'rec:' in repr(r.d) else '') + f'output {k}: not equal to the contract; remaining difference {str(r.d)[:int(os.environ.get("E1_LEN", 700))]}' + (f' under {[ix.show_obj(f) for f in r.facts]}' if r.facts else ''))
        finally:
            self.solver += CTX.solver_time
        self.selfcheck(facts, lbs, vals)
        return fork, fork.eqs, None

    def indices(self, shape):
        if CTX.unroll > 3 and all(n.is_const() for n in shape):
            return [tuple(ix.IX.const(i) for i in p) for p in np.ndindex(*[n.cval() for n in shape])]
        return [sem.fresh_idx(shape)]

    def refuted(self, facts, lbs, why):
        tried = self.replay(facts, lbs, why)
        if 'rec:' in why:  # sequences are only compared by name: undecided, not refuted
            raise Unsupported('two loops could not be identified')
        raise Fail(f'{self.c.id}: obligation not discharged: {why}\npath condition {[ix.show_obj(f) for f in facts]}; the concrete runs at sizes {tried[:4]} agree')

    def refuted_check(self, facts, lbs, what):
        avoid = []
        for n in range(6):
            dv = dims.model_dims(facts, list(lbs), avoid, small=n < 3)
            if dv is None:
                break
            avoid.append(dv)
            full = self.expand(dv)
            d = types.SimpleNamespace(**full)
            if np.prod([max(v, 1) for v in full.values()]) > 1e6:
                continue
            avals = [jax.ShapeDtypeStruct(_shape(i.shape, d), i.np_dtype) for i in self.c.inputs]
            for w, e in self.c.check(d, jax.make_jaxpr(lambda *a: self.c.impl(d, *a))(*avals)):
                if e < 0:
                    raise Fail(f'{self.c.id}: {w}: violated\nfailing input: sizes {full} (any values): {e} < 0')
        raise Fail(f'{self.c.id}: obligation not discharged: {what}; path condition {[ix.show_obj(f) for f in facts]}')

    def selfcheck(self, facts, lbs, vals):
        """The terms must evaluate to what JAX computes (guards the semantics)."""
        names = list(lbs)
        dv = dims.model_dims(facts, names) if names else {}
        if dv is None:
            return
        full = self.expand(dv)
        total = 1
        for v in full.values():
            total *= v
        if total > 3000:
            return
        rng = np.random.default_rng([self.seed, 77, zlib.crc32(self.c.id.encode())])
        msg, arrs, impl = self.concrete(full, rng)
        if msg is not None:
            raise Fail(f'{self.c.id}: concrete run disagrees with the contract although the terms are equal\nfailing input: sizes {full}\n{msg}')
        num = evalnum.Num(dv, {i.name: a for i, a in zip(self.c.inputs, arrs)}, self.c.uf)
        for n, (k, idx, a, b) in enumerate(vals):
            out = np.asarray(impl[k])
            if not out.size or n > 40:
                continue
            tol = {2: 5e-2, 4: 1e-4}.get(np.dtype(out.dtype).itemsize // (2 if out.dtype.kind == 'c' else 1), 1e-6)
            for _ in range(2 if lbs else 1):
                p = tuple(v.cval() if v.is_const() else int(rng.integers(n)) for v, n in zip(idx, out.shape))
                e = {ix._var_id(v): q for v, q in zip(idx, p) if not v.is_const()}
                try:
                    got = num.value(a, e)
                except (evalnum.OutOfRange, Unsupported, ZeroDivisionError, ValueError):
                    continue
                if not np.isclose(got, complex(out[p]) if out.dtype.kind == 'c' else float(out[p]), rtol=tol, atol=tol / 100, equal_nan=True):
                    raise AssertionError(f'{self.c.id}: term semantics differs from JAX at {full} {p}: {got} vs {out[p]}')
                self.checked += 1

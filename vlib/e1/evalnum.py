"""Numeric evaluation of terms: cross-check of the semantics against JAX."""
from __future__ import annotations

import itertools
import math

import numpy as np
import scipy.special as ss

from . import ix
from .ix import CX, IX, RX, Unsupported

FN = dict(
    exp=math.exp, log=math.log, sin=math.sin, cos=math.cos, tan=math.tan, tanh=math.tanh,
    sinh=math.sinh, cosh=math.cosh, asin=math.asin, acos=math.acos, atan=math.atan,
    asinh=math.asinh, acosh=math.acosh, atanh=math.atanh, erf=math.erf, erfc=math.erfc,
    sign=lambda x: (x > 0) - (x < 0), atan2=math.atan2, lgamma=math.lgamma,
    digamma=lambda x: float(ss.digamma(x)), cbrt=lambda x: float(np.cbrt(x)),
    erf_inv=lambda x: float(ss.erfinv(x)), floor=math.floor, ceil=math.ceil,
    exp2=lambda x: 2.0 ** x, pow=lambda x, y: x ** y,
    bessel_i0e=lambda x: float(ss.i0e(x)), bessel_i1e=lambda x: float(ss.i1e(x)),
)


class Num:
    def __init__(self, dims, inputs, uf=None):
        self.dims, self.inputs, self.uf = dims, inputs, uf or {}
        self.memo = {}

    def ix(self, p: IX, env) -> int:
        s = 0
        for m, c in p.t.items():
            for a, e in m:
                c = c * self.iatom(ix._atoms[a], env) ** e
            s += c
        return s

    def iatom(self, a, env):
        k = a[0]
        if k == 'd':
            return self.dims[a[1]]
        if k == 'v':
            return env[a[1]]
        if k == 'fd':
            return self.ix(a[1], env) // self.ix(a[2], env)
        if k == 'md':
            return self.ix(a[1], env) % self.ix(a[2], env)
        if k == 'ite':
            return self.ix(a[2] if self.f(a[1], env) else a[3], env)
        if k == 'ia':
            name = a[1]
            arr = ix.CONST_ARRAYS.get(name)
            if arr is None:
                arr = self.inputs[name[2:] if name.startswith('b:') else name]
            return int(arr[self.at(arr, tuple(self.ix(i, env) for i in a[2]))])
        if k == 'amax':
            for v in range(self.ix(a[2], env)):
                if self.f(a[3], {**env, a[1]: v}):
                    return v
            return 0
        if k == 'isum':
            return int(round(self.bsum(a[2], a[3], lambda e: self.r(a[4], e), env)))
        if k == 'ifn' and a[1] == 'trunc':
            return int(self.r(a[2][0], env))
        raise Unsupported(f'numeric {k}')

    def at(self, arr, idx):
        for i, n in zip(idx, arr.shape):
            if not 0 <= i < n:
                raise OutOfRange
        return idx

    def bsum(self, vs, sizes, f, env):
        t = 0.0
        for p in itertools.product(*[range(self.ix(s, env)) for s in sizes]):
            t += f({**env, **dict(zip(vs, p))})
        return t

    def f(self, g, env) -> bool:
        k = g[0]
        if k == 'T':
            return True
        if k == 'Fa':
            return False
        if k == 'ge':
            return self.ix(g[1], env) >= 0
        if k == 'eq':
            return self.ix(g[1], env) == 0
        if k == 'not':
            return not self.f(g[1], env)
        if k == 'and':
            # index conditions first
            return all(self.f(x, env) for x in sorted(g[1], key=lambda x: x[0] in ('rlt', 'req', 'ex')))
        if k == 'or':
            return any(self.f(x, env) for x in g[1])
        if k == 'rlt':
            return self.r(g[1], env) < 0
        if k == 'req':
            return self.r(g[1], env) == 0
        if k == 'ex':
            return any(self.f(g[3], {**env, g[1]: v}) for v in range(self.ix(g[2], env)))
        raise Unsupported(f'numeric guard {k}')

    def r(self, x: RX, env) -> float:
        t = 0.0
        for (b, g, f), c in x.t.items():
            t += float(c) * self.mono(list(b), g, f, env)
        return t

    def mono(self, b, g, f, env):
        if b:
            # bind a variable whose size is closed
            for n, (v, sz) in enumerate(b):
                if not (sz.fv() - env.keys()):
                    break
            rest = b[:n] + b[n + 1:]
            return sum(
                self.mono(rest, g, f, {**env, v: i}) for i in range(self.ix(sz, env))
            )
        gs = sorted(g, key=lambda x: x[0] in ('rlt', 'req', 'ex'))
        for x in gs:
            if not self.f(x, env):
                return 0.0
        p = 1.0
        for a, e in f:
            v = self.ratom(a, env)
            if e.denominator != 1 and v < 0:
                return math.nan
            p *= v ** (int(e) if e.denominator == 1 else float(e))
        return p

    def ratom(self, i, env):
        fv = ix.atom_fv(i)
        key = (i, tuple(sorted((v, env[v]) for v in fv if v in env)))
        r = self.memo.get(key)
        if r is None:
            r = self._ratom(ix._atoms[i], env)
            self.memo[key] = r
        return r

    def _ratom(self, a, env):
        k = a[0]
        if k == 'in':
            name, idx = a[1], tuple(self.ix(i, env) for i in a[2])
            if name in ('NaN', 'Inf'):
                return float(name)
            arr = ix.REAL_CONST_ARRAYS.get(name)
            if arr is not None:
                return float(arr[self.at(arr, idx)])
            if name.endswith('.re'):
                return float(self.inputs[name[:-3]][idx].real)
            if name.endswith('.im'):
                return float(self.inputs[name[:-3]][idx].imag)
            arr = self.inputs[name]
            return float(arr[self.at(arr, idx)])
        if k == 'i':
            return float(self.iatom(a[1], env))
        if k == 'base':
            return self.r(a[1], env)
        if k == 'fn':
            fn = FN.get(a[1]) or self.uf.get(a[1])
            if fn is None and '@' in a[1]:
                from . import uf

                fn = uf.numeric_ef(a[1])
            if fn is None:
                raise Unsupported(f'numeric function {a[1]}')
            v = fn(*[self.r(x, env) for x in a[2]])
            return math.nan if isinstance(v, complex) else float(v)
        if k == 'red':
            vals = [
                self.r(a[4], {**env, **dict(zip(a[2], p))})
                for p in itertools.product(*[range(self.ix(s, env)) for s in a[3]])
            ]
            return float({'max': max, 'min': min, 'prod': math.prod}[a[1]](vals))
        raise Unsupported(f'numeric atom {k}')

    def value(self, v, env):
        if isinstance(v, RX):
            return self.r(v, env)
        if isinstance(v, CX):
            return complex(self.r(v.re, env), self.r(v.im, env))
        if isinstance(v, IX):
            return self.ix(v, env)
        return self.f(v, env)


class OutOfRange(Exception):
    pass

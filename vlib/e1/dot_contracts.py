"""C05: general tensor contractions, every assignment of axes, for all sizes."""
from __future__ import annotations

import itertools

import jax
import jax.numpy as jnp

from .lib import fl

L = jax.lax


def patterns(rl, rr, max_contract=2, max_batch=2):
    """All dimension numbers of operands with rl and rr axes (up to naming of sizes)."""
    out = []
    for nc in range(min(max_contract, rl, rr) + 1):
        for nb in range(min(max_batch, rl - nc, rr - nc) + 1):
            for ll in itertools.permutations(range(rl), nc + nb):
                # the order of the pairs is irrelevant up to a joint permutation: sort lhs
                if list(ll[:nc]) != sorted(ll[:nc]) or list(ll[nc:]) != sorted(ll[nc:]):
                    continue
                for rr_ in itertools.permutations(range(rr), nc + nb):
                    out.append(((ll[:nc], rr_[:nc]), (ll[nc:], rr_[nc:])))
    return out


def shapes_of(rl, rr, dn):
    names = iter('abcdefg')
    ls, rs = [None] * rl, [None] * rr
    (lc, rc), (lb, rb) = dn
    for i, j in zip(lc + lb, rc + rb):
        n = next(names)
        ls[i] = rs[j] = n
    for v in (ls, rs):
        for i, x in enumerate(v):
            if x is None:
                v[i] = next(names)
    return tuple(ls), tuple(rs)


def dn_name(dn):
    (lc, rc), (lb, rb) = dn
    return f'c{"".join(map(str, lc))}-{"".join(map(str, rc))}.b{"".join(map(str, lb))}-{"".join(map(str, rb))}'


def reversed_pairs(dn):
    (lc, rc), (lb, rb) = dn
    return (lc[::-1], rc[::-1]), (lb[::-1], rb[::-1])


PATS = dict(LR=[True, True], L=[True, False], R=[False, True])


def c05(tier):
    out = []

    def dot(rl, rr, dn, pn, tag=''):
        ls, rs = shapes_of(rl, rr, dn)
        lbs = {n: 2 for n in set(ls + rs)}
        out.append(fl(f'E1/dot{tag}/{rl}x{rr}/{dn_name(dn)}/{pn}', lambda d, x, y: L.dot_general(x, y, dn), [ls, rs], lbs, deps=PATS[pn], weight=2))

    deep = tier == 'thorough'
    ranks = [(1, 1), (1, 2), (2, 1), (2, 2), (1, 3), (3, 1), (2, 3), (3, 2), (3, 3)]
    for rl, rr in ranks:
        ps = patterns(rl, rr)
        for i, dn in enumerate(ps):
            small = rl * rr <= 4
            if deep or small:
                for pn in PATS:
                    dot(rl, rr, dn, pn)
            else:
                # every dimension number for operands up to rank (2, 3); samples beyond
                if rl * rr <= 6 or i % 5 == 0:
                    dot(rl, rr, dn, 'LR')
                if i % 3 == 0:
                    dot(rl, rr, dn, 'L' if i % 2 else 'R')
            if len(dn[0][0]) == 2 or len(dn[1][0]) == 2:
                if deep or i % 4 == 0:
                    dot(rl, rr, reversed_pairs(dn), 'LR', '-reversed')
    if deep:
        for i, dn in enumerate(patterns(4, 3)):
            if i % 10 == 0:
                dot(4, 3, dn, 'LR')
        for i, dn in enumerate(patterns(3, 4)):
            if i % 10 == 0:
                dot(3, 4, dn, 'LR')
    # the same operand on both sides, and the front ends
    ab, abc = dict(a=2, b=2), dict(a=2, b=2, c=2)

    def add(name, f, shapes, lbs, **kw):
        out.append(fl(f'E1/{name}', f, shapes, lbs, **{'weight': 3, **kw}))

    add('self/gram', lambda d, x: x @ x.T, [('a', 'b')], ab)
    add('self/gramT', lambda d, x: x.T @ x, [('a', 'b')], ab)
    add('self/quadratic', lambda d, x, w: x @ w @ x, [('a',), ('a', 'a')], dict(a=2), deps=[True, False])
    add('self/square', lambda d, x: x @ x, [('a', 'a')], dict(a=2))
    add('self/dot', lambda d, x: jnp.dot(x, x), [('a',)], dict(a=2))
    for pn, deps in PATS.items():
        for n, (f, s1, s2) in dict(
            matmul=(jnp.matmul, ('a', 'b'), ('b', 'c')), batched=(jnp.matmul, ('a', 'b', 'c'), ('a', 'c', 'b')),
            matvec=(jnp.matmul, ('a', 'b'), ('b',)), vecmat=(jnp.matmul, ('a',), ('a', 'b')), outer=(jnp.outer, ('a',), ('b',)),
            inner=(jnp.inner, ('a', 'b'), ('c', 'b')), vdot=(jnp.vdot, ('a', 'b'), ('a', 'b')),
            tensordot=(lambda x, y: jnp.tensordot(x, y, ((0, 2), (1, 0))), ('a', 'b', 'c'), ('c', 'a')),
            einsum_ij_kj=(lambda x, y: jnp.einsum('ij,kj->ik', x, y), ('a', 'b'), ('c', 'b')),
            einsum_sum=(lambda x, y: jnp.einsum('ij,jk->k', x, y), ('a', 'b'), ('b', 'c')),
            einsum_batch=(lambda x, y: jnp.einsum('bij,bj->bi', x, y), ('a', 'b', 'c'), ('a', 'c')),
            einsum_bcast=(lambda x, y: jnp.einsum('...i,ij->...j', x, y), ('a', 'b', 'c'), ('c', 'b')),
            einsum_diag=(lambda x, y: jnp.einsum('ii,i->i', x, y), ('a', 'a'), ('a',)),
        ).items():
            lbs = {m: 2 for m in set(s1 + s2)}
            add(f'front/{n}/{pn}', lambda d, x, y, f=f: f(x, y), [s1, s2], lbs, deps=deps)
    add('three', lambda d, x, y, z: x @ y @ z, [('a', 'b'), ('b', 'c'), ('c', 'a')], abc)
    add('three-einsum', lambda d, x, y, z: jnp.einsum('ij,jk,kl->il', x, y, z), [('a', 'b'), ('b', 'c'), ('c', 'a')], abc, deps=[True, False, True])
    return out

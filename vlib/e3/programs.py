"""Program families: fixed idioms and random DAGs of supported operations."""
from __future__ import annotations

import jax
import jax.numpy as jnp
import numpy as np

S = jax.lax.scan
W3 = np.array([0.3, 0.5, 0.7])


def A(*shape):
    """Argument maker: a normal array of the given shape."""
    return lambda rng: rng.standard_normal(shape)


X43 = (A(4, 3),)
P: dict = {}


def prog(name, f, args=X43, tags=()):
    assert name not in P, name
    P[name] = (f, args, frozenset(tags))


@jax.custom_jvp
def cj(x):
    return jnp.sin(x) * x


@cj.defjvp
def _cj(p, t):
    (x,), (v,) = p, t
    return cj(x), (jnp.cos(x) * x + jnp.sin(x)) * v


@jax.custom_jvp
def cj_scaled(x, y):
    return x * y


@cj_scaled.defjvp
def _cj_scaled(p, t):
    # deliberately not the derivative of the primal: the user's rule counts
    (x, y), (v, w) = p, t
    return cj_scaled(x, y), 2.0 * y * v + 3.0 * x * w


@jax.custom_jvp
def cj_mat(x):
    return x @ x.T


@cj_mat.defjvp
def _cj_mat(p, t):
    (x,), (v,) = p, t
    return cj_mat(x), 2.0 * (v @ x.T)


@jax.custom_jvp
def cj_cut(x):
    """Clipping whose user-defined rule has zero slope (a stop-gradient idiom)."""
    return jnp.round(x * 4) / 4


@cj_cut.defjvp
def _cj_cut(p, t):
    (x,), (v,) = p, t
    return cj_cut(x), v


jit_f = jax.jit(lambda x: jnp.tanh(x) * x.sum())
jit_g = jax.jit(lambda x, y: (x * y, jnp.ones(2), x.sum(0)))


def _layer(p, x):
    return jnp.tanh(x @ p['w'] + p['b'])


# ---- general -------------------------------------------------------------------
prog('multi', lambda a, b: {'s': (a * b).sum(), 't': (jnp.sin(a) @ b.T, b[0]), 'c': jnp.ones(3)}, (A(4, 3), A(4, 3)))
prog('tree', lambda d: d['a'] @ d['b'][0], (lambda r: dict(a=r.standard_normal((4, 3)), b=[r.standard_normal(3)]),))
prog('scalar in', lambda s: jnp.sin(s) * s, (A(),))
prog('scalar mix', lambda s, x: s * x @ x.T, (A(), A(4, 3)))
prog('three args', lambda a, b, c: (a * b).sum(0) * c + jnp.outer(c, a[0]).sum(0), (A(4, 3), A(4, 1), A(3)))
prog('dims1', lambda x: (x[:, :1] * x[:1] + x[:1, :1]) ** 2)
prog('dims1b', lambda x: jnp.tanh(x) * jnp.tanh(x.sum(0, keepdims=True)), (A(1, 3),))
prog('dims1c', lambda x: x @ x.T @ x, (A(1, 3),))
prog('dims1d', lambda x: x @ x.T @ x, (A(4, 1),))
prog('dims1e', lambda x: jnp.exp(x) * x.prod(), (A(1, 1),))
prog('size1', lambda x: x**3 * jnp.sin(x), (A(1),))
prog('ident', lambda x: x)
prog('const out', lambda x: (x * 0 + 1, 3.0))
prog('dup out', lambda x: (x, x, jnp.sin(x)))
prog('sum2', lambda x: x.sum() * x[0, 0])
prog('sumsum', lambda x: x.sum(0).sum() ** 2 + (x.sum(1) * x[:, 0]).sum())
prog('mean axis', lambda x: (x.mean(1) ** 2, x.mean((0, 1))))
prog('mlp', lambda x: jnp.tanh(jnp.tanh(x @ np.linspace(-1, 1, 15).reshape(3, 5)) @ np.linspace(0.3, -1, 10).reshape(5, 2)).sum())
prog('mlp params', _layer, (lambda r: dict(w=r.standard_normal((3, 2)), b=r.standard_normal(2)), A(4, 3)))
prog('attn', lambda x: jax.nn.softmax(x @ x.T) @ x)
prog('layernorm', lambda x: (x - x.mean(-1, keepdims=True)) / jnp.sqrt(x.var(-1, keepdims=True) + 1e-3))
prog('dist', lambda x: jnp.linalg.norm(x[:, None] - x[None] + jnp.eye(4)[..., None], axis=-1))
prog('coulomb', lambda x: (1 / jnp.linalg.norm(x[np.triu_indices(4, 1)[0]] - x[np.triu_indices(4, 1)[1]], axis=-1)).sum())
prog('norm', lambda x: jnp.linalg.norm(x[:, None] - 2 * x[None], axis=-1).sum())
prog('logsumexp', lambda x: jax.nn.logsumexp(x, axis=1))
prog('log_softmax', lambda x: jax.nn.log_softmax(x, axis=0))
prog('bmm', lambda x: jnp.einsum('bij,bjk->bik', x.reshape(2, 2, 3), jnp.sin(x).reshape(2, 3, 2)))
prog('bmm2', lambda x: jnp.einsum('bij,kjb->ki', x.reshape(2, 2, 3), jnp.sin(x).reshape(2, 3, 2)))
prog('mixdot', lambda x: jnp.einsum('ij,kj->ik', x, jnp.tanh(x + x[::-1])))
prog('mixdot2', lambda x: jnp.dot(x.sum(0), x[0]))
prog('dot const', lambda x: np.arange(12.0).reshape(3, 4) @ x @ np.ones((3, 2)))
prog('outer', lambda x: x[:, None, :] * x[None])
prog('partial', lambda x: (x[:2] ** 2).sum())
prog('partial2', lambda x: x[1:3, :2].sum() * jnp.sin(x[2, 2]))
prog('partial3', lambda x, y: (x[:2] ** 2).sum() + 0 * y, (A(4, 3), A()))
prog('vmap inner', lambda x: jax.vmap(lambda r: jnp.outer(r, r) @ r)(x))
prog('grad inner', lambda x: jax.grad(lambda z: (jnp.sin(z) @ z.T).sum())(x))
prog('jacfwd inner', lambda x: jax.jacfwd(lambda z: jnp.sin(z) * z.sum())(x[0]))
prog('perm add', lambda x: (x[:5] + 0.5 * x[np.array([0, 2, 1, 4, 3])]) ** 3, (A(8),))
prog('perm add sum', lambda x: ((x[:5] + 0.5 * x[np.array([0, 2, 1, 4, 3])]) * x[:5]).sum(), (A(8),))
prog('perm div', lambda x: 1 / (3 + (x[:5] + 0.5 * x[np.array([0, 2, 1, 4, 3])]) ** 2), (A(8),))
prog('overlap mul', lambda x: (x[:-2] + x[2:]) * (x[1:-1] + x[2:]), (A(8),))
prog('overlap sum', lambda x: ((x[:-2] + x[2:]) * (x[1:-1] + x[2:])).sum(), (A(8),))
prog('overlap div', lambda x: (x[:-2] + x[2:]) / (4 + jnp.tanh(x[1:-1] + x[2:])), (A(8),))
prog('overlap pow', lambda x: (4 + jnp.tanh(x[:-2] + x[2:])) ** (x[1:-1] * x[2:]), (A(8),))
prog('overlap atan2', lambda x: jnp.arctan2(x[:-2] + x[2:], 4 + jnp.tanh(x[1:-1] + x[2:])), (A(8),))
prog('disjoint mul', lambda x: x[:4] * x[4:], (A(8),))
prog('disjoint dot', lambda x: x[:4] @ x[4:] + x[::2] @ x[1::2], (A(8),))
prog('disjoint mm', lambda x: x[:4].reshape(2, 2) @ x[4:].reshape(2, 2), (A(8),))
prog('indep args', lambda a, b: jnp.sin(a) * jnp.cos(b), (A(5), A(5)))
prog('indep outer', lambda a, b: jnp.exp(a[:, None] * b) @ b, (A(3), A(4)))
prog('const branch', lambda x: (x * np.array([0.0, 1.0, 2.0])).sum(-1) * jnp.concatenate([jnp.ones(2), x[2:, 0]]))
prog('half const', lambda x: jnp.concatenate([x[:2] ** 2, jnp.ones((2, 3)), x[2:]], 0).sum(0) ** 2)
prog('backflow', lambda x: (lambda d: x + (jnp.tanh(d) / (1 + (d**2).sum(-1, keepdims=True))).sum(1))(x[:, None] - x[None]))
prog('jastrow', lambda x: (lambda r: -(0.5 / (1 + r)).sum())(jnp.sqrt(((x[:, None] - x[None] + 3 * jnp.eye(4)[..., None]) ** 2).sum(-1))))
prog('orbital det', lambda x: jnp.linalg.slogdet(jnp.tanh(x @ np.linspace(-1, 2, 12).reshape(3, 4)) + jnp.eye(4))[1])
# ---- elementwise ---------------------------------------------------------------------
prog('integerpow', lambda x: x**-3 + x**3 + x**2 + x**1)
prog('pow c', lambda x: jnp.abs(x) ** 2.5 + 2.0**x)
prog('pow xy', lambda x: jnp.abs(x) ** (x[::-1]))
prog('atan2', lambda x: jnp.arctan2(x, x[::-1] * 2))
prog('logaddexp', lambda x: jnp.logaddexp(x, x[::-1]))
prog('logaddexp b', lambda x: jnp.logaddexp(x, x[:1]))
prog('silu', lambda x: jax.nn.silu(x) * jax.nn.softplus(x) * jax.nn.sigmoid(x))
prog('gelu', lambda x: jax.nn.gelu(x) ** 2)
prog('relu', lambda x: jax.nn.relu(x) ** 2 + jax.nn.elu(x) + jax.nn.leaky_relu(x) ** 2)
prog('erf', lambda x: jax.lax.erf(x) * jnp.sinh(x) + jnp.cosh(x) + jnp.exp2(x))
prog('trig', lambda x: jnp.tan(0.3 * x) + jnp.arcsin(jnp.tanh(x)) * jnp.arccos(0.5 * jnp.sin(x)) + jnp.arctan(x))
prog('logs', lambda x: jnp.log(2 + jnp.cos(x)) * jnp.log1p(x**2) + jnp.expm1(0.1 * x) + jnp.sqrt(1 + x**2) * jax.lax.rsqrt(2 + x**2))
prog('mod', lambda x: (x % 0.7) ** 2)
prog('maximum', lambda x: jnp.maximum(x**2, x[::-1]))
prog('minimum c', lambda x: jnp.minimum(x, 0.2) ** 2 + jnp.maximum(0.1, x))
prog('clip', lambda x: jnp.clip(x, -0.5, 0.5) ** 2)
prog('abs', lambda x: jnp.abs(x) ** 3 + jnp.abs(x))
# ---- structural -----------------------------------------------------------------------
prog('roll', lambda x: jnp.roll(x, 1, 0) * x)
prog('pad', lambda x: jnp.pad(x, ((1, 2), (0, 1))) ** 2)
prog('pad const', lambda x: jnp.pad(x, ((1, 2), (0, 1)), constant_values=2.0) ** 2)
prog('pad neg', lambda x: jax.lax.pad(x, 1.5, ((-1, 1, 0), (0, 0, 1))) ** 2)
prog('dyn slice', lambda x: jax.lax.dynamic_slice(x, (1, 1), (2, 2)) ** 2)
prog('dyn upd slice', lambda x: jax.lax.dynamic_update_slice(x, x[:2, :2] ** 2, (1, 1)) ** 2)
prog('dyn upd const', lambda x: jax.lax.dynamic_update_slice(x, np.ones((2, 2)), (1, 1)) ** 2)
prog('at add', lambda x: x.at[1].add(x[0]) ** 2)
prog('at set', lambda x: x.at[1].set(x[0]) ** 2)
prog('at set const', lambda x: x.at[1].set(2.0) ** 2)
prog('at add const', lambda x: x.at[1].add(2.0) ** 2)
prog('at add dup', lambda x: x.at[np.array([1, 1, 3])].add(x[:3] ** 2) ** 2)
prog('at mul', lambda x: x.at[1].multiply(x[0]) ** 2)
prog('at max', lambda x: x.at[1].max(x[0]) ** 2)
prog('at min', lambda x: x.at[:2].min(x[2:]) * x)
prog('zeros set', lambda x: jnp.zeros((6, 3)).at[1:5].set(x).sum(0) * x[0])
prog('zeros add', lambda x: jnp.zeros((2, 3)).at[np.array([0, 1, 1, 0])].add(x**2) ** 2)
prog('segsum', lambda x: jax.ops.segment_sum(x, np.array([0, 1, 1, 0]), 3) ** 2)
prog('select const', lambda x: jnp.where(np.arange(4)[:, None] > 1, x, x[::-1] ** 2) ** 2)
prog('select one', lambda x: jnp.where(np.arange(4)[:, None] > 1, x, 1.0) ** 2)
prog('select data', lambda x: jnp.where(x.sum(0) > 0, x, x**2))
prog('gather', lambda x: x[np.array([[0, 1], [3, 3]]), np.array([0, 2])] ** 2)
prog('take', lambda x: jnp.take(x, np.array([2, 0, 0]), axis=1) * x)
prog('tri', lambda x: x[np.tril_indices(3)] ** 2)
prog('diag', lambda x: jnp.diag(x[0]) @ x.T + jnp.diagonal(x @ x.T)[:3, None])
prog('tril', lambda x: jnp.tril(x @ x.T).sum(0) ** 2)
prog('stack', lambda x: jnp.stack([x, x**2, x[::-1]], 1).prod(1))
prog('concat', lambda x: jnp.concatenate([x, x[:1] ** 2, jnp.ones((1, 3))]).sum(0) ** 2)
prog('split', lambda x: (lambda a, b, c: a * b + c**2)(*jnp.split(x, 3, axis=1)))
prog('reshape', lambda x: (x.reshape(2, 6).T.reshape(3, 4) @ x) ** 2)
prog('transpose', lambda x: x.reshape(2, 2, 3).transpose(2, 0, 1) ** 2)
prog('squeeze', lambda x: jnp.squeeze(x[:, :1], 1) ** 2 * x[None, :, 1, None].squeeze((0, 2)))
prog('rev', lambda x: x[::-1, ::-1] * x)
prog('tile', lambda x: jnp.tile(x, (2, 1)) ** 2)
prog('repeat', lambda x: jnp.repeat(x, 2, axis=1) ** 2)
prog('cumsum', lambda x: jnp.cumsum(x, axis=1) ** 2)
prog('cumsum rev', lambda x: jax.lax.cumsum(x, axis=0, reverse=True) ** 2)
prog('cumprod', lambda x: jnp.cumprod(x, axis=0))
prog('cummax', lambda x: jax.lax.cummax(x, axis=0) ** 2)
prog('cumlogsumexp', lambda x: jax.lax.cumlogsumexp(x, axis=0))
prog('sort', lambda x: jnp.sort(x, axis=1) ** 2)
prog('sortflat', lambda x: jnp.sort(x, axis=None) * 2)
prog('sort2', lambda x: jax.lax.sort((x, jnp.sin(x[::-1])), num_keys=1))
prog('reduce max', lambda x: jnp.max(x, axis=0) * jnp.min(x))
prog('reduce prod', lambda x: jnp.prod(x) * x[0, 0] + jnp.prod(x, axis=1).sum())
prog('prod axes', lambda x: jnp.prod(x.reshape(2, 2, 3), axis=(0, 2)))
prog('conv', lambda x: jnp.convolve(x[:, 0], x[:, 1]))
prog('bcast', lambda x: jnp.broadcast_to(x[:, None, :], (4, 2, 3)) * x[:2])
prog('expand', lambda x: jnp.expand_dims(x, 0) * jnp.expand_dims(x.sum(1), (0, 2)))
# ---- linear algebra ----------------------------------------------------------------------
prog('cholesky', lambda x: jnp.linalg.cholesky(x.T @ x + jnp.eye(3)))
prog('eigvalsh', lambda x: jnp.linalg.eigvalsh(x.T @ x))
prog('slogdet', lambda x: jnp.linalg.slogdet(x[:3] + 2 * jnp.eye(3)), tags=['slogdet'])
prog('slogdet b', lambda x: jnp.linalg.slogdet(jnp.stack([x[:3], x[1:]]))[1], tags=['slogdet'])
prog('slogdet bb', lambda x: jnp.linalg.slogdet(jnp.stack([x[:3], x[1:]])[:, None] + np.arange(2.0)[:, None, None] * np.eye(3)), tags=['slogdet'])
prog('slogdet sq', lambda x: jnp.linalg.slogdet(jnp.tanh(x[:3] @ x[:3].T) + 3 * jnp.eye(3))[1], tags=['slogdet'])
prog('slogdet 1', lambda x: jnp.linalg.slogdet(x[:1, :1])[1] * x, tags=['slogdet'])
prog('slogdet 2', lambda x: jnp.linalg.slogdet(x.reshape(3, 2, 2))[1].sum() ** 2, tags=['slogdet'])
prog('slogdet sign', lambda x: (lambda s: s[0] * jnp.exp(s[1]))(jnp.linalg.slogdet(x[:3])), tags=['slogdet'])
prog('slogdet part', lambda x: jnp.linalg.slogdet(jnp.concatenate([x[:1], np.ones((2, 3)) + np.diag([1.0, 2.0, 3.0])[1:]]))[1], tags=['slogdet'])
prog('multi det', lambda x: (lambda s, l: jax.nn.logsumexp(l, b=s))(*jnp.linalg.slogdet(jnp.stack([x[:3], x[1:], jnp.sin(x[:3])]))), tags=['slogdet'])
prog('slogdet c', lambda x: (lambda s: (s[0].real, s[0].imag, s[1]))(jnp.linalg.slogdet(x[:3] + 1j * x[1:])), tags=['slogdet', 'complex'])
prog('slogdet cb', lambda x: (lambda s: (s[0].real * s[1], s[0].imag))(jnp.linalg.slogdet(jnp.stack([x[:3] + 1j * x[1:], x[1:] * np.exp(1j * x[0, 0].shape.__len__()) + 2 * np.eye(3)]))), tags=['slogdet', 'complex'])
prog('slogdet cphase', lambda x: (lambda s: jnp.abs(s[0] + 2.0) + s[1])(jnp.linalg.slogdet(jnp.exp(1j * x[:3]) + np.eye(3))), tags=['slogdet', 'complex'])
# ---- complex -----------------------------------------------------------------------------------
C1 = 0.5 + 1j
prog('cabs perm', lambda x: jnp.abs(x + C1 * x[np.array([0, 2, 1])]), (A(3),), ['complex'])
prog('cabs perm2', lambda x: jnp.abs(x[:5] + C1 * x[np.array([0, 2, 1, 4, 3])]), (A(8),), ['complex'])
prog('cabs', lambda x: jnp.abs(x * (1 + 2j) + 1j * x[::-1] ** 2).sum(), tags=['complex'])
prog('cabs2', lambda x: jnp.abs(jnp.exp(1j * x) + 0.3 * x), tags=['complex'])
prog('creal', lambda x: (lambda z: z.real * z.imag + jnp.conj(z).imag)(jnp.exp(1j * x) * x[::-1]), tags=['complex'])
prog('cconj', lambda x: (lambda z: (z * z.conj()).real)(x * (1 + 2j) + 1j * x[::-1]), tags=['complex'])
prog('cmm', lambda x: (lambda z: (z @ z.conj().T).real)(x * (1 + 2j) + 1j * jnp.sin(x)), tags=['complex'])
prog('cmm2', lambda x: (lambda z: (z @ z.T).imag)(x * (1 + 2j) + 1j * jnp.sin(x[::-1])), tags=['complex'])
prog('cweights', lambda x: jnp.abs(x @ (np.arange(6.0).reshape(3, 2) + 1j)) ** 2, tags=['complex'])
prog('cprod', lambda x: jnp.prod(1 + 1j * x, axis=0).real, tags=['complex'])
prog('cdiv', lambda x: (1j * x / (2 + 1j * x[::-1])).imag, tags=['complex'])
prog('cdiv2', lambda x: (x / (2 + 1j * x)).real + (1 / (1 + 1j * x)).imag, tags=['complex'])
prog('cexp', lambda x: jnp.log(jnp.exp((1 + 0.3j) * x).sum(0)).real, tags=['complex'])
prog('cphase', lambda x: jnp.arctan2(*(lambda z: (z.imag, z.real + 5))(jnp.exp(1j * x))), tags=['complex'])
prog('cout', lambda x: jnp.exp(1j * x) * x.sum(), tags=['complex'])
prog('cout2', lambda x: (x + 1j * x[::-1] ** 2).sum(0), tags=['complex'])
prog('csum', lambda x: jnp.abs((x * np.exp(1j * np.arange(3.0))).sum(-1)), tags=['complex'])
prog('clinear', lambda x: jax.lax.complex(x, x[::-1]) * 2j, tags=['complex'])
prog('cpow', lambda x: ((2 + 1j * x) ** 3).real + ((2 + 1j * x) ** -2).imag + jnp.sqrt(3 + 1j * x).real, tags=['complex'])
prog('ctanh', lambda x: jnp.tanh(0.3 * x + 0.2j * x[::-1]).real, tags=['complex'])
prog('cgather', lambda x: (lambda z: jnp.abs(z[np.array([0, 2])] + z[1]) ** 2)(x + 1j * x[::-1]), tags=['complex'])
prog('astype c', lambda x: (x.astype(jnp.complex128) * 1j * x).imag, tags=['complex', 'dtype'])
prog('f32', lambda x: jnp.sin(x.astype(jnp.float32)).astype(jnp.float64), tags=['dtype', 'loose'])
prog('f32 out', lambda x: jnp.sin(x).astype(jnp.float32), tags=['dtype', 'loose'])
prog('c64 out', lambda x: (x + 1j * x).astype(jnp.complex64), tags=['dtype', 'loose', 'complex'])
prog('f32 in', lambda x: (jnp.tanh(x) @ x.T).sum(0), (lambda r: r.standard_normal((4, 3)).astype(np.float32),), ['dtype', 'loose'])
prog('mixed in', lambda x, y: x * y, (lambda r: r.standard_normal((4, 3)).astype(np.float32), lambda r: r.standard_normal(3).astype(np.float32)), ['dtype', 'loose'])
# ---- non-differentiable ---------------------------------------------------------------------------
nd = ['nondiff']
prog('argsort', lambda x: (x.ravel()[jnp.argsort(x.ravel())] * x.ravel()) ** 2, tags=nd)
prog('argmax index', lambda x: x[jnp.argmax(x[:, 0])] ** 2, tags=nd)
prog('argmin value', lambda x: (jnp.argmin(x, 1), x.sum(0) ** 2), tags=nd)
prog('top_k', lambda x: (jax.lax.top_k(x, 2)[0] ** 2, jax.lax.top_k(x * 2, 2)[1]), tags=nd)
prog('interp', lambda x: jnp.interp(x, jnp.linspace(-2, 2, 5), jnp.array([1.0, 2, 0, 4, 1])) * x, tags=nd)
prog('sort by key', lambda x: jax.lax.sort((x, x**2, jax.lax.broadcasted_iota(jnp.int32, (4, 3), 1)), num_keys=1), tags=nd)
prog('median', lambda x: jnp.median(x, axis=0) * x[0], tags=nd)
prog('stopgrad', lambda x: jax.lax.stop_gradient(x) * x, tags=nd)
prog('stopgrad2', lambda x: jax.lax.stop_gradient(x**2).sum() * jnp.sin(x) + jax.lax.stop_gradient(x), tags=nd)
prog('sign', lambda x: jnp.sign(x) * x**2, tags=nd)
prog('sign only', lambda x: (jnp.sign(x), x**2), tags=nd)
prog('cmp', lambda x: ((x > 0).sum() * x**2, (x >= x[::-1]).astype(float) * x, x == x[0]), tags=nd)
prog('cmp2', lambda x: jnp.where((x < 0) & ~(x[::-1] <= 0.2) | (x != x), x**2, jnp.sin(x)), tags=nd)
prog('logic', lambda x: jnp.logical_xor(x > 0, x[::-1] > 0) * x**2, tags=nd)
prog('isfinite', lambda x: jnp.where(jnp.isfinite(x), x, 0.0) ** 2, tags=nd)
prog('int', lambda x: ((3 * x).astype(int) * x, (3 * x).astype(jnp.int32), (x > 0).astype(jnp.float64)), tags=nd)
prog('int2', lambda x: (3 * x).astype(int).sum() + x**2, tags=nd)
prog('bool conv', lambda x: x.astype(bool) * x**2, tags=nd)
prog('round', lambda x: jnp.round(x) * x**2 + jnp.floor(x) + jnp.ceil(x) * x, tags=nd)
prog('floordiv', lambda x: (x // 0.3) * x, tags=nd)
prog('argmax', lambda x: x[jnp.argmax(jax.lax.stop_gradient(x[:, 0]))] ** 2, tags=nd)
prog('int branch', lambda x: (x**3).sum(0) * (x > 0).sum(0) + jnp.sign(x[0]), tags=nd)
prog('stopgrad mask', lambda x: jnp.where(jax.lax.stop_gradient(x) > 0, x**2, x), tags=nd)
prog('sg matmul', lambda x: jax.lax.stop_gradient(x @ x.T) @ x, tags=nd)
# ---- nested jit / custom rules / loops --------------------------------------------------------------
lp = ['loop']
prog('nested jit', lambda x: jit_f(x) * jax.jit(jit_f)(x), tags=['jit'])
prog('jit multi', lambda x: (lambda a, b, c: a * c + b[0])(*jit_g(x, jnp.sin(x))), tags=['jit'])
prog('jit const', lambda x: jit_g(np.ones((4, 3)), np.ones((4, 3)))[2] * x, tags=['jit'])
prog('jit mixed', lambda x: jit_g(np.ones((4, 3)), x)[0] ** 2 + jit_g(x, 2 * np.ones((4, 3)))[2], tags=['jit'])
prog('jit closure', lambda x: jax.jit(lambda y: y * x.sum())(x**2), tags=['jit'])
prog('custom jvp', lambda x: cj(x) * x, tags=['custom'])
prog('custom scaled', lambda x: cj_scaled(x, jnp.sin(x)) ** 2, tags=['custom'])
prog('custom scaled c', lambda x: cj_scaled(x, 2.0 * np.ones((4, 3))) ** 2 + cj_scaled(np.ones(3), x[0]), tags=['custom'])
prog('custom mat', lambda x: cj_mat(x) @ x, tags=['custom'])
prog('custom round', lambda x: cj_cut(x) * x**2, tags=['custom'])
prog('custom in jit', lambda x: jax.jit(lambda y: cj(y).sum(0))(x) ** 2, tags=['custom', 'jit'])
prog('scan carry', lambda x: S(lambda c, w: (jnp.tanh(c * w), None), x, W3)[0], tags=lp)
prog('scan ys', lambda x: S(lambda c, w: (jnp.tanh(c * w), (c * w).sum(-1)), x, W3)[1], tags=lp)
prog('scan both rev', lambda x: S(lambda c, w: (jnp.tanh(c * w), (c * w).sum(-1)), x, W3, reverse=True), tags=lp)
prog('scan ys2', lambda x: S(lambda c, w: (jnp.tanh(c * w), (c @ c.T, w * 2)), x, W3)[1][0] ** 2, tags=lp)
prog('scan ys3', lambda x: S(lambda c, w: (jnp.tanh(c * w), (c, w * 2)), x, jnp.asarray(W3), reverse=True), tags=lp)
prog('scan idx', lambda x: S(lambda c, i: (c * 0.5, (c[i], W3 * 2)), x, jnp.arange(3)), tags=lp)
prog('scan idx2', lambda x: S(lambda c, i: (c, c[i]), x, jnp.arange(4))[1].sum(1), tags=lp)
prog('scan const in', lambda x: S(lambda c, w: (jnp.tanh(c * w + x[0]), None), x**2, W3)[0], tags=lp + ['dense'])
prog('scan const sum', lambda x: S(lambda c, w: (jnp.tanh(c * w + x.sum(0)), None), x**2, W3)[0], tags=lp + ['dense'])
prog('fori', lambda x: jax.lax.fori_loop(0, 3, lambda i, c: jnp.sin(c) * i, x), tags=lp)
prog('scan mixed', lambda x: S(lambda c, w: ((c[0] * w, c[1] + 1, c[2] * 2), c[1]), (x, 0, 1.0), W3), tags=lp)
prog('scan nested', lambda x: S(lambda c, w: S(lambda d, v: (jnp.sin(d) * v + w, d * v), c, w * jnp.ones(2)), x, W3), tags=lp)
prog('scan len1', lambda x: S(lambda c, w: (c * w, c), x, W3[:1]), tags=lp)
prog('scan unroll', lambda x: S(lambda c, w: (jnp.sin(c) * w, c.sum()), x, W3, unroll=2), tags=lp)
prog('scan two carries', lambda x: S(lambda c, w: ((c[1] * w, c[0]), c[0] * c[1]), (x, jnp.sin(x)), W3), tags=lp)
prog('scan rev idx', lambda x: S(lambda c, i: (c * (i + 1), c[i] * x[0]), x**2, jnp.arange(4), reverse=True), tags=lp + ['dense'])
prog('scan len0', lambda x: S(lambda c, w: (c * w, c), x, W3[:0])[0] ** 2, tags=lp)


# ---- random DAGs ------------------------------------------------------------------------------------------

UN = [jnp.tanh, jnp.sin, lambda x: jnp.exp(-x * x), lambda x: x * x, lambda x: jax.nn.softplus(x), lambda x: jax.nn.silu(x), lambda x: jnp.sqrt(1 + x * x), lambda x: -x, lambda x: 0.5 * x + 1.0, lambda x: jnp.abs(x), lambda x: jnp.log1p(x * x), lambda x: jax.lax.rsqrt(2 + jnp.cos(x)), lambda x: x**3, lambda x: 1 / (2 + jnp.sin(x)), cj, jax.jit(lambda x: jnp.cos(x) * 0.7), lambda x: jnp.where(x > 0, x, jnp.sin(x)), lambda x: jax.lax.stop_gradient(x) * x]
BIN = [lambda a, b: a * b, lambda a, b: a + b, lambda a, b: a - 2 * b, lambda a, b: a / (2 + b * b), lambda a, b: jnp.maximum(a, b), lambda a, b: jnp.arctan2(a, 2 + jnp.tanh(b)), lambda a, b: (1.5 + jnp.tanh(a)) ** b, lambda a, b: jnp.logaddexp(a, b), lambda a, b: jnp.where(np.arange(np.broadcast_shapes(a.shape, b.shape)[-1]) % 2 == 0, a, b) if max(a.ndim, b.ndim) else a]


def random_program(pseed, n_ops=7):
    def f(*args):
        rng = np.random.default_rng(pseed)
        pool = list(args)

        def pick():
            # favour recent values
            i = len(pool) - 1 - min(int(rng.geometric(0.35)) - 1, len(pool) - 1)
            return pool[i]

        for _ in range(n_ops):
            x = pick()
            k = rng.integers(0, 12)
            if k <= 1:
                y = UN[rng.integers(len(UN))](x)
            elif k <= 4:
                y = None
                for _ in range(6):
                    b = pool[rng.integers(len(pool))]
                    try:
                        s = np.broadcast_shapes(x.shape, b.shape)
                    except ValueError:
                        continue
                    if np.prod(s, dtype=int) <= 60:
                        y = BIN[rng.integers(len(BIN))](x, b)
                        break
                if y is None:
                    y = jnp.sin(x)
            elif k == 5:  # reductions
                if x.ndim == 0:
                    y = jnp.cos(x)
                else:
                    ax = int(rng.integers(x.ndim))
                    r = rng.integers(0, 6)
                    if r == 0:
                        y = x.sum(ax)
                    elif r == 1:
                        y = x.sum()
                    elif r == 2:
                        y = x.mean(ax, keepdims=True)
                    elif r == 3:
                        y = jax.nn.logsumexp(x, axis=ax)
                    elif r == 4:
                        y = jnp.prod(jnp.tanh(x), axis=ax)
                    else:
                        y = x.max(ax)
            elif k == 6:  # contraction
                b = pool[rng.integers(len(pool))]
                y = None
                for ai in range(x.ndim):
                    for bi in range(b.ndim):
                        if x.shape[ai] == b.shape[bi] and x.size * b.size / x.shape[ai] <= 80 and rng.random() < 0.7:
                            y = jnp.tensordot(jnp.tanh(x), b, (ai, bi))
                            break
                    if y is not None:
                        break
                if y is None:
                    y = x * 1.3
            elif k == 7:  # indexing
                if x.ndim == 0:
                    y = jnp.stack([x, x * x])
                else:
                    ax = int(rng.integers(x.ndim))
                    m = x.shape[ax]
                    r = rng.integers(0, 5)
                    if r == 0:
                        y = jnp.take(x, rng.integers(0, m, int(rng.integers(1, 4))), axis=ax)
                    elif r == 1:
                        y = jax.lax.rev(x, (ax,))
                    elif r == 2:
                        lo = int(rng.integers(0, m))
                        y = jax.lax.slice_in_dim(x, lo, m, axis=ax)
                    elif r == 3:
                        y = jnp.roll(x, 1, ax)
                    else:
                        y = jnp.take(x, rng.permutation(m), axis=ax)
            elif k == 8:  # shape
                r = rng.integers(0, 4)
                if r == 0:
                    y = x.T
                elif r == 1:
                    y = x.reshape(-1)
                elif r == 2 and x.ndim < 3:
                    y = x[:, None] if x.ndim else x[None]
                else:
                    y = x.reshape(-1, 2) if x.size % 2 == 0 and x.size else x.reshape(-1, 1)
            elif k == 9:  # concat/pad/cumsum
                r = rng.integers(0, 4)
                if x.ndim == 0:
                    y = x * 2
                elif r == 0 and x.size <= 20:
                    y = jnp.concatenate([x, jnp.sin(x)], int(rng.integers(x.ndim)))
                elif r == 1 and x.size <= 20:
                    y = jnp.concatenate([x, np.ones(x.shape)], int(rng.integers(x.ndim)))
                elif r == 2:
                    y = jnp.cumsum(x, int(rng.integers(x.ndim)))
                else:
                    y = jnp.pad(x[:1], [(1, 0)] + [(0, 0)] * (x.ndim - 1))
            elif k == 10:  # scatter / const mix
                if x.ndim == 0:
                    y = x + 1
                else:
                    r = rng.integers(0, 3)
                    m = x.shape[0]
                    i = int(rng.integers(m))
                    if r == 0:
                        y = x.at[i].add(jnp.tanh(x[(i + 1) % m]))
                    elif r == 1:
                        y = x.at[i].set(0.3)
                    else:
                        y = x * rng.integers(0, 3, x.shape)
            else:
                y = jax.jit(lambda z: jnp.tanh(z))(x)
            if y.size > 60:
                y = y.sum(0)
            y = jnp.where(jnp.abs(y) < 20, y, jnp.tanh(y)) if rng.random() < 0.1 else y
            pool.append(y)
        outs = [jnp.tanh(pool[-1]), pool[-2] * 0.1]
        return outs[0] if rng.random() < 0.5 else tuple(outs)

    rng = np.random.default_rng([pseed, 1])
    shapes = [(4, 3), (3, 3), (6,), (2, 3), (5,), (2, 2, 2), (1, 3), ()]
    nargs = int(rng.integers(1, 3))
    args = tuple(A(*shapes[rng.integers(len(shapes) - (1 if i == 0 else 0))]) for i in range(nargs))
    return f, args

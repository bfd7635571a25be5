From 399b51be593a5331d0b46f61b50e533b4a9ea914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:33 +0000
Subject: [PATCH 01/24] fix: do not compare sparsity masks of different length
 when adding Jacobians

---
 folx/api.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/folx/api.py b/folx/api.py
index fd677d2..924aefe 100644
--- a/folx/api.py
+++ b/folx/api.py
@@ -213,7 +213,11 @@ class FwdJacobian(NamedTuple):
 
             return FwdJacobian(add_jacobians(self.as_dense.data, other.as_dense.data))
         # If both are weak, we can keep them sparse
-        if (other.x0_idx == self.x0_idx).all():
+        # (masks of different length can never be identical)
+        if (
+            other.x0_idx.shape[JAC_DIM] == self.x0_idx.shape[JAC_DIM]  # type: ignore
+            and (other.x0_idx == self.x0_idx).all()
+        ):
             return FwdJacobian(
                 self.data + other.data,
                 np.broadcast_arrays(self.x0_idx, other.x0_idx)[0],
-- 
2.43.0


From 7eb159037ff49a2cb339bd3e456050d303ffac25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:09 +0000
Subject: [PATCH 02/24] fix: allow traced masks with static outputs in
 get_index_mask

---
 folx/api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/folx/api.py b/folx/api.py
index 924aefe..48b3524 100644
--- a/folx/api.py
+++ b/folx/api.py
@@ -129,7 +129,7 @@ class FwdJacobian(NamedTuple):
             indices = jnp.where(jnp.any(matching, axis=-1), indices, -1)
             return indices
 
-        if isinstance(outputs, np.ndarray):
+        if isinstance(outputs, np.ndarray) and isinstance(mask, np.ndarray):
             with jax.ensure_compile_time_eval():
                 result = np.asarray(get_indices(flat_mask, flat_outputs), dtype=int).T
         else:
-- 
2.43.0


From 19edcdf2ed1dd75e6404163820e19489d8149509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:27 +0000
Subject: [PATCH 03/24] fix: support operations with several outputs when
 propagating sparsity

---
 folx/jvp.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/folx/jvp.py b/folx/jvp.py
index 6b638ab..3048049 100644
--- a/folx/jvp.py
+++ b/folx/jvp.py
@@ -1,5 +1,6 @@
 import functools
 import logging
+import operator
 from typing import Sequence, TypeVar
 
 import jax
@@ -180,9 +181,10 @@ def sparse_jvp(
     grad_y = tree_take(y_tangent, slice(None, -1), axis=JAC_DIM)
     lapl_y = tree_take(y_tangent, -1, axis=JAC_DIM)
 
-    new_masks = broadcast_mask_to_jacobian(out_mask, grad_y)
-    assert grad_y.shape == new_masks.shape, f'{grad_y.shape} != {new_masks.shape}'
-
+    # If there are multiple outputs they all depend on the same inputs.
+    new_masks = jtu.tree_map(
+        functools.partial(broadcast_mask_to_jacobian, out_mask), grad_y
+    )
     grad_y = jtu.tree_map(FwdJacobian, grad_y, new_masks)
     return y, grad_y, lapl_y
 
@@ -560,8 +562,14 @@ def get_jvp_function(
             if y is None:
                 y, grad, lapl = y_, grad_, lapl_
             else:
-                grad += grad_  # type: ignore
-                lapl += lapl_
+                # There may be multiple outputs.
+                grad = jtu.tree_map(
+                    operator.add,
+                    grad,
+                    grad_,
+                    is_leaf=lambda x: isinstance(x, FwdJacobian),
+                )
+                lapl = jtu.tree_map(operator.add, lapl, lapl_)
         return y, grad, lapl  # type: ignore
 
     def jvp(args: FwdLaplArgs, kwargs) -> tuple[Array, FwdJacobian, Array]:
-- 
2.43.0


From 44444c6533d1c4afa2984361cf215fd0a9b5d5cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:53 +0000
Subject: [PATCH 04/24] fix: stack scan outputs behind the Jacobian axis and
 accept constant carries

---
 folx/interpreter.py | 50 +++++++++++++++++++++++++++++++--------------
 1 file changed, 35 insertions(+), 15 deletions(-)

diff --git a/folx/interpreter.py b/folx/interpreter.py
index 6678e4a..e3f555d 100644
--- a/folx/interpreter.py
+++ b/folx/interpreter.py
@@ -15,6 +15,7 @@ from jax.util import safe_map
 from .api import (
     IS_LEAF,
     IS_LPL_ARR,
+    JAC_DIM,
     Array,
     ArrayOrFwdLaplArray,
     FwdJacobian,
@@ -90,10 +91,18 @@ def eval_jaxpr_with_forward_laplacian(
             invals[n_const : n_carry + n_const],
             invals[n_const + n_carry :],
         )
-        carry_merge = extract_jacobian_mask(in_carry)
-        assert all(
-            isinstance(x, Array) for x in in_inp
+        assert not any(
+            isinstance(x, FwdLaplArray) for x in in_inp
         ), 'Scan does not support scanning over input depenedent tensors.\nPlease unroll the loop.'
+        # Constants may be literals or numpy arrays rather than jax arrays.
+        in_carry = [
+            x if isinstance(x, FwdLaplArray) else jnp.asarray(x, dtype=v.aval.dtype)
+            for x, v in zip(in_carry, eqn.invars[n_const:])
+        ]
+        in_inp = [jnp.asarray(x) for x in in_inp]
+        carry_merge = extract_jacobian_mask(in_carry)
+        # The sparsity masks are static. So, we collect them while tracing the body.
+        out_idx = []
 
         def wrapped(carry, x):
             result = eval_jaxpr_with_forward_laplacian(
@@ -104,16 +113,19 @@ def eval_jaxpr_with_forward_laplacian(
                 *x,
                 sparsity_threshold=sparsity_threshold,
             )
+            # Check whether jacobian sparsity matches
+            for a, b in zip(in_carry, result[:n_carry]):
+                if isinstance(a, FwdLaplArray) != isinstance(b, FwdLaplArray):
+                    raise TypeError(f'Type mismatch in scan: {type(a)} != {type(b)}')
+                if isinstance(a, FwdLaplArray):
+                    if not np.array_equal(a.jacobian.x0_idx, b.jacobian.x0_idx):  # type: ignore
+                        raise ValueError('Jacobian sparsity mismatch in scan.')
+            out_idx[:] = [
+                r.jacobian.x0_idx if isinstance(r, FwdLaplArray) else None
+                for r in result
+            ]
             return result[:n_carry], result[n_carry:]
 
-        first_carry, first_y = wrapped(in_carry, jtu.tree_map(lambda x: x[0], in_inp))
-        # Check whether jacobian sparsity matches
-        for a, b in zip(in_carry, first_carry):
-            if not isinstance(a, type(b)):
-                raise TypeError(f'Type mismatch in scan: {type(a)} != {type(b)}')
-            if isinstance(a, FwdLaplArray):
-                if not np.all(a.jacobian.x0_idx == b.jacobian.x0_idx):  # type: ignore
-                    raise ValueError('Jacobian sparsity mismatch in scan.')
         carry, y = jax.lax.scan(
             wrapped,  # type: ignore
             in_carry,
@@ -123,16 +135,24 @@ def eval_jaxpr_with_forward_laplacian(
             unroll=eqn.params['unroll'],
         )
         carry = [
-            a._replace(jacobian=a.jacobian._replace(x0_idx=b.jacobian.x0_idx))  # type: ignore
+            a._replace(jacobian=a.jacobian._replace(x0_idx=idx))
             if isinstance(a, FwdLaplArray)
             else a
-            for a, b in zip(carry, first_carry)
+            for a, idx in zip(carry, out_idx)
         ]
+
+        def stack_jacobian(jac: FwdJacobian, idx):
+            # The loop axis belongs to the output and must not precede JAC_DIM.
+            data = jnp.moveaxis(jac.data, 0, JAC_DIM + 1)
+            if idx is not None:
+                idx = np.broadcast_to(np.expand_dims(idx, JAC_DIM + 1), data.shape)
+            return FwdJacobian(data, idx)
+
         y = [
-            a._replace(jacobian=a.jacobian._replace(x0_idx=b.jacobian.x0_idx))  # type: ignore
+            a._replace(jacobian=stack_jacobian(a.jacobian, idx))
             if isinstance(a, FwdLaplArray)
             else a
-            for a, b in zip(y, first_y)
+            for a, idx in zip(y, out_idx[n_carry:])
         ]
         return *carry, *y
 
-- 
2.43.0


From 17cb5c2923bc25ce3059f0f62ccd790c4e41a43a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:53 +0000
Subject: [PATCH 05/24] fix: return full gradients from all Laplacian operators
 for any input shape

---
 folx/operators.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/folx/operators.py b/folx/operators.py
index 290033b..f192bea 100644
--- a/folx/operators.py
+++ b/folx/operators.py
@@ -33,7 +33,10 @@ class ForwardLaplacianOperator(LaplacianOperator):
 
         def lap(x: Array):
             result = fwd_lapl(x)
-            return result.laplacian, result.jacobian.dense_array
+            jacobian = result.jacobian.dense_array
+            # Sparse Jacobians omit trailing inputs that do not affect the output.
+            jacobian = jnp.pad(jacobian, (0, x.size - jacobian.shape[0]))
+            return result.laplacian, jacobian
 
         return lap
 
@@ -67,10 +70,15 @@ class ParallelLaplacianOperator(LaplacianOperator):
     def __call__(f):
         @jax.jit
         def laplacian(x: jax.Array):
+            x_shape = x.shape
             x = x.reshape(-1)
             n = x.shape[0]
             eye = jnp.eye(n, dtype=x.dtype)
-            grad_f = jax.grad(f)
+
+            def f_(x):
+                return f(x.reshape(x_shape))
+
+            grad_f = jax.grad(f_)
             jacobian, dgrad_f = jax.linearize(grad_f, x)
 
             laplacian = jnp.diagonal(jax.vmap(dgrad_f)(eye))
-- 
2.43.0


From a83181d712d0713587b266fca604c7968dd29606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:39 +0000
Subject: [PATCH 06/24] fix: match weights against the argument tree as
 documented

---
 folx/interpreter.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/folx/interpreter.py b/folx/interpreter.py
index e3f555d..016be51 100644
--- a/folx/interpreter.py
+++ b/folx/interpreter.py
@@ -305,6 +305,14 @@ def forward_laplacian(
         )
         closed_jaxpr = jax.make_jaxpr(fn)(*args_arr, **kwargs)
         flat_args = jtu.tree_leaves(args, is_leaf=IS_LEAF)
+        if isinstance(weights, (tuple, list)):
+            # The weights are a prefix of the arguments (like in_axes in vmap).
+            weights = jtu.tree_map(
+                lambda w, arg: [w] * len(jtu.tree_leaves(arg, is_leaf=IS_LEAF)),
+                tuple(weights),
+                args,
+            )
+            weights = tuple(jtu.tree_leaves(weights))
         if 0 < sparsity_threshold < 1:
             threshold = int(sparsity_threshold * sum(x.size for x in flat_args))
         else:
-- 
2.43.0


From 01c7471f18d6154932f167290d9f31318f65b739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:53 +0000
Subject: [PATCH 07/24] fix: accept keyword arguments in forward_laplacian

---
 folx/interpreter.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/folx/interpreter.py b/folx/interpreter.py
index 016be51..e51f26a 100644
--- a/folx/interpreter.py
+++ b/folx/interpreter.py
@@ -303,7 +303,9 @@ def forward_laplacian(
         args_arr = jtu.tree_map(
             lambda x: x.x if IS_LPL_ARR(x) else x, args, is_leaf=IS_LEAF
         )
-        closed_jaxpr = jax.make_jaxpr(fn)(*args_arr, **kwargs)
+        # Keyword arguments are constants.
+        kwargs_fn = functools.partial(fn, **kwargs)
+        closed_jaxpr = jax.make_jaxpr(kwargs_fn)(*args_arr)
         flat_args = jtu.tree_leaves(args, is_leaf=IS_LEAF)
         if isinstance(weights, (tuple, list)):
             # The weights are a prefix of the arguments (like in_axes in vmap).
@@ -326,7 +328,7 @@ def forward_laplacian(
             *lapl_args,
             sparsity_threshold=threshold,
         )
-        out_structure = jtu.tree_structure(jax.eval_shape(fn, *args_arr, **kwargs))
+        out_structure = jtu.tree_structure(jax.eval_shape(kwargs_fn, *args_arr))
         return out_structure.unflatten(out)
 
     if disable_jit:
-- 
2.43.0


From 1736e8c41830818f86d4ff3150067f5982af59d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:18 +0000
Subject: [PATCH 08/24] fix: sum entries of the same input in the Laplacian of
 complex absolute values

---
 folx/custom_hessian.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/folx/custom_hessian.py b/folx/custom_hessian.py
index f1d0db6..52ec3fd 100644
--- a/folx/custom_hessian.py
+++ b/folx/custom_hessian.py
@@ -70,7 +70,8 @@ def complex_abs_jac_hessian_jac(
     if not is_tree_complex(args.x):
         return jnp.zeros(())
 
-    x, J = args.x[0], args.jacobian[0].data
+    # A sparse Jacobian may hold several entries for the same input.
+    x, J = args.x[0], args.jacobian[0].construct_jac_for(materialize_idx)
     y, J_abs = jnp.abs(x), jnp.abs(J)
 
     x_J = x.real * J.real + x.imag * J.imag
-- 
2.43.0


From 1d102ba43fc2bb78a36633cc4d5b09436c9c5bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:02 +0000
Subject: [PATCH 09/24] fix: allow empty mapped arguments in batched_vmap

---
 folx/vmap.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/folx/vmap.py b/folx/vmap.py
index 74a45a3..4f33375 100644
--- a/folx/vmap.py
+++ b/folx/vmap.py
@@ -36,7 +36,12 @@ def batched_vmap(
             y_iter = iter(static_args)
             return tuple(next(x_iter) if m else next(y_iter) for m in mask)
 
-        batch_size = jtu.tree_leaves(mapped_args[0])[0].shape[mapped_axes[0]]
+        # Arguments may be empty trees.
+        batch_size = next(
+            x.shape[ax]
+            for arg, ax in zip(mapped_args, mapped_axes)
+            for x in jtu.tree_leaves(arg)
+        )
         assert (
             batch_size == x.shape[ax]
             for arg, ax in zip(mapped_args, mapped_axes)
-- 
2.43.0


From 600d542bb3ea519167e2456c0c2851cb4599b93b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:02 +0000
Subject: [PATCH 10/24] fix: support zero-sized outputs in batched_vmap

---
 folx/vmap.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/folx/vmap.py b/folx/vmap.py
index 4f33375..b742298 100644
--- a/folx/vmap.py
+++ b/folx/vmap.py
@@ -70,7 +70,10 @@ def batched_vmap(
             return carry, vmapped_fn(x)
 
         result = jax.lax.scan(inner, None, loop_args, length=num_batches)[1]
-        result = jtu.tree_map(lambda x: x.reshape(-1, *x.shape[2:]), result)
+        # Arrays may be empty, so we cannot infer the leading dimension.
+        result = jtu.tree_map(
+            lambda x: x.reshape(num_batches * max_batch_size, *x.shape[2:]), result
+        )
         if remainder > 0:
             remainder_args = jtu.tree_map(lambda x: x[:remainder], leading_args)
             remainder_result = vmapped_fn(remainder_args)
-- 
2.43.0


From e993ccd565d3597bc5c974a476461d6a91ef6c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:16 +0000
Subject: [PATCH 11/24] fix: support unmapped outputs in batched_vmap

---
 folx/vmap.py | 37 ++++++++++++++++++++++++++-----------
 1 file changed, 26 insertions(+), 11 deletions(-)

diff --git a/folx/vmap.py b/folx/vmap.py
index b742298..d5c3b0b 100644
--- a/folx/vmap.py
+++ b/folx/vmap.py
@@ -62,29 +62,44 @@ def batched_vmap(
             leading_args,
         )
 
+        out_axes_flat, out_tree = jtu.tree_flatten(out_axes, lambda x: x is None)
+        # Outputs may be unmapped, these are identical in all batches.
         vmapped_fn = jax.vmap(
-            lambda x: wrapped_fn(*in_tree.unflatten(merge(x))), in_axes=0, out_axes=0
+            lambda x: wrapped_fn(*in_tree.unflatten(merge(x))),
+            in_axes=0,
+            out_axes=out_tree.unflatten(
+                [None if ax is None else 0 for ax in out_axes_flat]
+            ),
         )
 
         def inner(carry, x):
             return carry, vmapped_fn(x)
 
         result = jax.lax.scan(inner, None, loop_args, length=num_batches)[1]
+        result = out_tree.flatten_up_to(result)
         # Arrays may be empty, so we cannot infer the leading dimension.
-        result = jtu.tree_map(
-            lambda x: x.reshape(num_batches * max_batch_size, *x.shape[2:]), result
-        )
+        result = [
+            jtu.tree_map(
+                (lambda x: x[0])
+                if ax is None
+                else (lambda x: x.reshape(num_batches * max_batch_size, *x.shape[2:])),
+                r,
+            )
+            for r, ax in zip(result, out_axes_flat)
+        ]
         if remainder > 0:
             remainder_args = jtu.tree_map(lambda x: x[:remainder], leading_args)
-            remainder_result = vmapped_fn(remainder_args)
-            result = jtu.tree_map(
-                lambda x, r: jnp.concatenate([r, x], axis=0), result, remainder_result
-            )
+            remainder_result = out_tree.flatten_up_to(vmapped_fn(remainder_args))
+            result = [
+                x
+                if ax is None
+                else jtu.tree_map(lambda x, r: jnp.concatenate([r, x], axis=0), x, r)
+                for x, r, ax in zip(result, remainder_result, out_axes_flat)
+            ]
 
-        out_axes_flat, out_tree = jtu.tree_flatten(out_axes)
         result = tuple(
-            jtu.tree_map(lambda x: jnp.moveaxis(x, 0, ax), r)
-            for r, ax in zip(out_tree.flatten_up_to(result), out_axes_flat)
+            r if ax is None else jtu.tree_map(lambda x: jnp.moveaxis(x, 0, ax), r)
+            for r, ax in zip(result, out_axes_flat)
         )
         return out_tree.unflatten(result)
 
-- 
2.43.0


From ba8b07445f5e0a9c965abfff494126f328fde37e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:16 +0000
Subject: [PATCH 12/24] fix: contract the right axes in sparse dot products of
 different ranks

---
 folx/wrapped_functions.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/folx/wrapped_functions.py b/folx/wrapped_functions.py
index 3cb7902..a55e16e 100644
--- a/folx/wrapped_functions.py
+++ b/folx/wrapped_functions.py
@@ -147,14 +147,18 @@ def dot_general(
             and rh_brdcast_dims == tuple(range(len(rh_brdcast_dims)))
             and lh_batch_dims == tuple(sorted(lh_batch_dims))
             and rh_batch_dims == tuple(sorted(rh_batch_dims))
+            and not (lh_brdcast_dims and rh_brdcast_dims)
+            and not (lh_batch_dims and (lh_brdcast_dims or rh_brdcast_dims))
         ):
             # The checks above do the following:
             # * check that batch dims are identical in both
             # * check that contract dim are identical in both
             # * check that all brdcast dims are at the beginning
             # * check that no transpositions are needed
+            # * check that the result already has the axes (batch, lhs, rhs)
             # Special case where we can skip the transpositions
-            return fwd_lapl_mul_sum(lhs, rhs, lh_contract)  # type: ignore
+            # The arguments may have different ranks, so we index from the back.
+            return fwd_lapl_mul_sum(lhs, rhs, neg_lh_contract)  # type: ignore
         return fwd_lapl_mul_sum(left_inp, right_inp, -1)
 
     # ====================================================================================
-- 
2.43.0


From 2298bfe89a044aeb2d0a948c47edbcdf6f9c2431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:16 +0000
Subject: [PATCH 13/24] fix: read literals as arrays

---
 folx/interpreter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/folx/interpreter.py b/folx/interpreter.py
index e51f26a..f49b19b 100644
--- a/folx/interpreter.py
+++ b/folx/interpreter.py
@@ -59,7 +59,8 @@ class JaxExprEnvironment:
 
     def read(self, var: core.Atom) -> ArrayOrFwdLaplArray:
         if isinstance(var, core.Literal):
-            return var.val
+            # Literals may be Python scalars rather than arrays.
+            return np.asarray(var.val, dtype=var.aval.dtype)
         self.reference_counter[var] -= 1
         result = self.env[var]
         if self.reference_counter[var] == 0:
-- 
2.43.0


From 3a7d6dca5435dc516971d09bdb9ee681ddf0cadc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:16 +0000
Subject: [PATCH 14/24] fix: support scalar functions with several outputs when
 propagating sparsity

---
 folx/jvp.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/folx/jvp.py b/folx/jvp.py
index 3048049..7da8c74 100644
--- a/folx/jvp.py
+++ b/folx/jvp.py
@@ -241,16 +241,20 @@ def sparse_diag_jvp(
         # Aggergate the corresponding jacobian results. Unfortunately,
         # segment_sum can only be applied over the leading axis. So, we have to
         # do some rearranging here.
-        grad_y = jax.ops.segment_sum(
-            grad_y, inv, num_segments=result_mask.shape[JAC_DIM]
+        grad_y = jtu.tree_map(
+            lambda g: jax.ops.segment_sum(
+                g, inv, num_segments=result_mask.shape[JAC_DIM]
+            ),
+            grad_y,
         )
 
     # We need to broadcast the output mask to the shape of the gradient in case the operation
     # included some broadcasting, e.g., (10, 1) * (5,) -> (10, 5)
-    result_mask = broadcast_mask_to_jacobian(result_mask, grad_y)
-    assert grad_y.shape == result_mask.shape, f'{grad_y.shape} != {result_mask.shape}'
-
-    grad_y = jtu.tree_map(FwdJacobian, grad_y, result_mask)
+    # There may be multiple outputs.
+    result_masks = jtu.tree_map(
+        functools.partial(broadcast_mask_to_jacobian, result_mask), grad_y
+    )
+    grad_y = jtu.tree_map(FwdJacobian, grad_y, result_masks)
     return y, grad_y, lapl_y
 
 
-- 
2.43.0


From fbbfde729cea278a2770a70a7123da42fd6bd51e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:49 +0000
Subject: [PATCH 15/24] fix: sum the second derivatives in the loop and
 parallel Laplacian operators

---
 folx/operators.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/folx/operators.py b/folx/operators.py
index f192bea..7561556 100644
--- a/folx/operators.py
+++ b/folx/operators.py
@@ -57,10 +57,10 @@ class LoopLaplacianOperator(LaplacianOperator):
             grad_f = jax.grad(f_)
             jacobian, dgrad_f = jax.linearize(grad_f, x)
 
-            _, laplacian = jax.lax.scan(
+            _, diagonal = jax.lax.scan(
                 lambda i, _: (i + 1, dgrad_f(eye[i])[i]), 0, None, length=n
             )
-            return laplacian, jacobian
+            return jnp.sum(diagonal), jacobian
 
         return laplacian
 
@@ -81,7 +81,7 @@ class ParallelLaplacianOperator(LaplacianOperator):
             grad_f = jax.grad(f_)
             jacobian, dgrad_f = jax.linearize(grad_f, x)
 
-            laplacian = jnp.diagonal(jax.vmap(dgrad_f)(eye))
+            laplacian = jnp.trace(jax.vmap(dgrad_f)(eye))
             return laplacian, jacobian
 
         return laplacian
-- 
2.43.0


From b429ba9c92203d95d80a838e20f03814ea2abb7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:41 +0000
Subject: [PATCH 16/24] fix: handle axes of size one when dropping zero entries
 of sparse dot products

---
 folx/hessian.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/folx/hessian.py b/folx/hessian.py
index 02cbd45..d62d4d2 100644
--- a/folx/hessian.py
+++ b/folx/hessian.py
@@ -259,14 +259,20 @@ def remove_zero_entries(
     if dense_out:
         return lapl_args, out_idx, None
 
-    mask = (out_idx != -1).any(0)
+    # out_idx lacks the axes that are of size one in all arguments.
+    out_shape = np.broadcast_shapes(*[arg.x.shape[:-1] for arg in lapl_args.arrays])
+    full_out_idx = out_idx.reshape(-1, *out_shape)
+
+    mask = (full_out_idx != -1).any(0)
     if mask.sum() > 0.5 * mask.size:
         # this is a heuristic to avoid having unnecessary indexing overhead for
         # insufficiently sparse masks.
         return lapl_args, out_idx, None
 
     indices = np.where(mask)
-    new_mat_idx = out_idx[(slice(None), *indices)]
+    new_mat_idx = full_out_idx[(slice(None), *indices)]
+    if new_mat_idx.shape[1] == 1:
+        new_mat_idx = new_mat_idx[:, 0]
     new_arrs = []
     for arg in lapl_args.arrays:
         brdcast_dims = np.where(np.array(arg.x.shape) == 1)[0]
-- 
2.43.0


From 7e5768ccc204ec03507594b0d845363dab1a697b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:28 +0000
Subject: [PATCH 17/24] fix: sum over the Jacobian axis for bilinear functions

---
 folx/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/folx/utils.py b/folx/utils.py
index aece6c0..8ca553d 100644
--- a/folx/utils.py
+++ b/folx/utils.py
@@ -83,7 +83,8 @@ def jac_jacT(first: FwdJacobian, other: FwdJacobian, idx: Array | np.ndarray | N
     Computes outer product of the given jacobians.
     """
     x, y = get_reduced_jacobians(first, other, idx=idx)
-    return x @ y.T
+    # The leading axis is the Jacobian axis, which we sum over.
+    return x.T @ y
 
 
 def flat_wrap(fn: ForwardFn, *x: Array):
-- 
2.43.0


From de495aa6bc47c4ffabb47c583808fedd15c2cd7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:28 +0000
Subject: [PATCH 18/24] fix: free operands that appear repeatedly only once in
 the memory estimate

---
 folx/experimental/memory.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/folx/experimental/memory.py b/folx/experimental/memory.py
index 0f00a3b..2f8d122 100644
--- a/folx/experimental/memory.py
+++ b/folx/experimental/memory.py
@@ -78,7 +78,10 @@ class MemoryExprEnvironment:
             self.memory -= v.size * _bytes_from_dtype(v.dtype)
 
     def free_memory(self, vars: Sequence[core.Atom], vals: Sequence[Array]):
-        safe_map(self._free_memory, vars, vals)
+        # An operand may appear several times but can only be freed once.
+        unique = {id(var): (var, val) for var, val in zip(vars, vals)}
+        for var, val in unique.values():
+            self._free_memory(var, val)
 
 
 def _compute_jaxpr_memory(
-- 
2.43.0


From 7981d92c9b2156a41a674d6983e2f1473ec4f4bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:40 +0000
Subject: [PATCH 19/24] fix: integer and boolean outputs carry no derivatives

---
 folx/wrapper.py | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/folx/wrapper.py b/folx/wrapper.py
index 0bf9490..ed5f3ef 100644
--- a/folx/wrapper.py
+++ b/folx/wrapper.py
@@ -3,6 +3,8 @@ import warnings
 from typing import Any, ParamSpec, TypeVar
 
 import jax
+import jax.numpy as jnp
+import jax.tree_util as jtu
 from jax.numpy import ComplexWarning
 
 from .api import (
@@ -119,6 +121,35 @@ def wrap_forward_laplacian(
 
         # Actually update Laplacian state
         laplace_args = FwdLaplArgs(lapl_args)
+
+        # Integer and boolean outputs carry no derivatives.
+        out_shapes = jtu.tree_leaves(
+            jax.eval_shape(lambda *x: partial_fn(*merge(x, extra)), *laplace_args.x)
+        )
+        differentiable = [jnp.issubdtype(x.dtype, jnp.inexact) for x in out_shapes]
+        if not all(differentiable):
+            out, structure = jtu.tree_flatten(
+                lapl_fns.forward(*merge(laplace_args.x, extra))
+            )
+            if any(differentiable):
+
+                def differentiable_fn(*args, **kwargs):
+                    out = jtu.tree_leaves(fn(*args, **kwargs))
+                    return tuple(o for o, d in zip(out, differentiable) if d)
+
+                lapl_out = iter(
+                    wrap_forward_laplacian(
+                        differentiable_fn,
+                        in_axes,
+                        flags,
+                        name or getattr(fn, '__name__', 'partial'),
+                        index_static_args,
+                        custom_jac_hessian_jac,
+                    )(args, kwargs, sparsity_threshold)
+                )
+                out = [next(lapl_out) if d else o for o, d in zip(out, differentiable)]
+            return structure.unflatten(out)
+
         y, grad_y, lapl_y = lapl_fns.jvp(laplace_args, kwargs)
         lapl_y = tree_add(
             lapl_y, lapl_fns.jac_hessian_jac_trace(laplace_args, sparsity_threshold)
-- 
2.43.0


From 3a65e083380bcd548944b793c5e9db27eda7b272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:43 +0000
Subject: [PATCH 20/24] fix: pass keyword arguments and drop negative static
 arguments in the memory estimate

---
 folx/experimental/memory.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/folx/experimental/memory.py b/folx/experimental/memory.py
index 2f8d122..0b9c8bd 100644
--- a/folx/experimental/memory.py
+++ b/folx/experimental/memory.py
@@ -208,11 +208,12 @@ def compute_memory(
         print_top_tensors=print_top_tensors,
     )
     # remove statics
+    static_argnums = [i % len(args) for i in static_argnums]
     args = tuple(args[i] for i in range(len(args)) if i not in static_argnums)
     # Here we abuse the eval_shape function to avoid actually computing something.
     # Instead the function prints to correct usage
     with Capturing() as output:
-        jax.eval_shape(fn, *jtu.tree_leaves(args))
+        jax.eval_shape(fn, *jtu.tree_leaves((args, kwargs)))
 
     # Print everything except the last line
     if len(output) > 1:
-- 
2.43.0


From ea2dd4c76c41aa62913f2a53fb063e4fea77789a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:43 +0000
Subject: [PATCH 21/24] fix: estimate the memory of scans without inputs or
 steps

---
 folx/experimental/memory.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/folx/experimental/memory.py b/folx/experimental/memory.py
index 0b9c8bd..630faae 100644
--- a/folx/experimental/memory.py
+++ b/folx/experimental/memory.py
@@ -117,12 +117,15 @@ def _compute_jaxpr_memory(
                 (),
                 *in_const,
                 *in_carry,
-                *jtu.tree_map(lambda x: x[0], in_inp),
+                *jtu.tree_map(
+                    lambda x: x[0] if len(x) else jnp.zeros(x.shape[1:], x.dtype),
+                    in_inp,
+                ),
                 return_result=True,
             )
             # populate the results by the loop size
             ans[n_carry:] = jtu.tree_map(
-                lambda x: jnp.repeat(x[None], in_inp[0].shape[0], axis=0),
+                lambda x: jnp.repeat(x[None], eqn.params['length'], axis=0),
                 ans[n_carry:],
             )
             all_tensors += sub_tensors
-- 
2.43.0


From 0486cf8607a4d551370dc0eaeb106ff3a488a3bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:43 +0000
Subject: [PATCH 22/24] fix: read literals as arrays in the memory estimate

---
 folx/experimental/memory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/folx/experimental/memory.py b/folx/experimental/memory.py
index 630faae..a5483e0 100644
--- a/folx/experimental/memory.py
+++ b/folx/experimental/memory.py
@@ -50,7 +50,7 @@ class MemoryExprEnvironment:
 
     def read(self, var: core.Atom) -> Array:
         if isinstance(var, core.Literal):
-            return var.val
+            return jnp.asarray(var.val, dtype=var.aval.dtype)
         self.reference_counter[var] -= 1
         result = self.env[var]
         if self.reference_counter[var] == 0:
-- 
2.43.0


From bfd4414b3868e076de7cef209d5d173bb888013f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:43 +0000
Subject: [PATCH 23/24] fix: estimate the memory of random keys

---
 folx/experimental/memory.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/folx/experimental/memory.py b/folx/experimental/memory.py
index a5483e0..932b18f 100644
--- a/folx/experimental/memory.py
+++ b/folx/experimental/memory.py
@@ -18,6 +18,8 @@ def _bytes_from_dtype(dtype):
 
     if str(dtype) == 'bool':
         return 1
+    if jnp.issubdtype(dtype, jax.dtypes.extended):
+        return dtype.itemsize
     return int(re.findall(r'\d+', str(dtype))[0]) // 8
 
 
-- 
2.43.0


From bf1aee80eae661d58000ca902442fad885c27aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:43 +0000
Subject: [PATCH 24/24] fix: fall back to single elements for functions without
 a name

---
 folx/experimental/vmap.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/folx/experimental/vmap.py b/folx/experimental/vmap.py
index bb02b6c..75614c1 100644
--- a/folx/experimental/vmap.py
+++ b/folx/experimental/vmap.py
@@ -66,7 +66,8 @@ def auto_batched_vmap(
                 max_samples = max(max_samples, 1)
             return vmapped_fn(max_samples)(*args, **kwargs)
         except Exception as e:
-            logging.warn(f'Failed to auto batch {fn.__name__}: {e}')
+            name = getattr(fn, '__name__', repr(fn))
+            logging.warn(f'Failed to auto batch {name}: {e}')
             logging.warn('Defaulting to batch size 1.')
             return vmapped_fn(max_batch_size=1)(*args, **kwargs)
 
-- 
2.43.0


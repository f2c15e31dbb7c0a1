From 8ecd1cc19a838ed841e401108ef51c29f541c79f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:35 +0000
Subject: [PATCH 01/36] fix: adding two sparse Jacobians with different numbers
 of entries per element

---
 folx/api.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/folx/api.py b/folx/api.py
index fd677d2..229c243 100644
--- a/folx/api.py
+++ b/folx/api.py
@@ -213,7 +213,10 @@ class FwdJacobian(NamedTuple):
 
             return FwdJacobian(add_jacobians(self.as_dense.data, other.as_dense.data))
         # If both are weak, we can keep them sparse
-        if (other.x0_idx == self.x0_idx).all():
+        if (
+            other.x0_idx.shape[JAC_DIM] == self.x0_idx.shape[JAC_DIM]  # type: ignore
+            and (other.x0_idx == self.x0_idx).all()
+        ):
             return FwdJacobian(
                 self.data + other.data,
                 np.broadcast_arrays(self.x0_idx, other.x0_idx)[0],
-- 
2.43.0


From 67b972ea6a7422b5ae06b3695bbc4e072d9b70c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:45 +0000
Subject: [PATCH 02/36] fix: sparse propagation through functions with several
 outputs

---
 folx/jvp.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/folx/jvp.py b/folx/jvp.py
index 6b638ab..41de0f2 100644
--- a/folx/jvp.py
+++ b/folx/jvp.py
@@ -21,7 +21,7 @@ from .api import (
     MergeFn,
     PyTree,
 )
-from .tree_utils import tree_concat, tree_expand, tree_take
+from .tree_utils import tree_add, tree_concat, tree_expand, tree_take
 from .utils import (
     broadcast_dim,
     broadcast_except,
@@ -180,9 +180,10 @@ def sparse_jvp(
     grad_y = tree_take(y_tangent, slice(None, -1), axis=JAC_DIM)
     lapl_y = tree_take(y_tangent, -1, axis=JAC_DIM)
 
-    new_masks = broadcast_mask_to_jacobian(out_mask, grad_y)
-    assert grad_y.shape == new_masks.shape, f'{grad_y.shape} != {new_masks.shape}'
-
+    # The function may have several outputs, they all share the same mask.
+    new_masks = jtu.tree_map(
+        lambda g: broadcast_mask_to_jacobian(out_mask, g), grad_y
+    )
     grad_y = jtu.tree_map(FwdJacobian, grad_y, new_masks)
     return y, grad_y, lapl_y
 
@@ -560,8 +561,13 @@ def get_jvp_function(
             if y is None:
                 y, grad, lapl = y_, grad_, lapl_
             else:
-                grad += grad_  # type: ignore
-                lapl += lapl_
+                grad = jtu.tree_map(
+                    lambda a, b: a + b,
+                    grad,
+                    grad_,
+                    is_leaf=lambda x: isinstance(x, FwdJacobian),
+                )
+                lapl = tree_add(lapl, lapl_)
         return y, grad, lapl  # type: ignore
 
     def jvp(args: FwdLaplArgs, kwargs) -> tuple[Array, FwdJacobian, Array]:
-- 
2.43.0


From 312f30a5dde95a198ef9055d254ef5926f3dcd20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:28 +0000
Subject: [PATCH 03/36] fix: sparse products under jit whose outputs share the
 same input dependencies

---
 folx/api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/folx/api.py b/folx/api.py
index 229c243..de5f0ea 100644
--- a/folx/api.py
+++ b/folx/api.py
@@ -129,7 +129,7 @@ class FwdJacobian(NamedTuple):
             indices = jnp.where(jnp.any(matching, axis=-1), indices, -1)
             return indices
 
-        if isinstance(outputs, np.ndarray):
+        if isinstance(outputs, np.ndarray) and isinstance(mask, np.ndarray):
             with jax.ensure_compile_time_eval():
                 result = np.asarray(get_indices(flat_mask, flat_outputs), dtype=int).T
         else:
-- 
2.43.0


From 641bae34242b2cd161ba9ee1e2bc896f70218c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:47 +0000
Subject: [PATCH 04/36] fix: scans over constants, with integer carries and
 with stacked input-dependent outputs

---
 folx/interpreter.py | 65 ++++++++++++++++++++++++++++-----------------
 1 file changed, 41 insertions(+), 24 deletions(-)

diff --git a/folx/interpreter.py b/folx/interpreter.py
index 6678e4a..0c1109f 100644
--- a/folx/interpreter.py
+++ b/folx/interpreter.py
@@ -15,6 +15,7 @@ from jax.util import safe_map
 from .api import (
     IS_LEAF,
     IS_LPL_ARR,
+    JAC_DIM,
     Array,
     ArrayOrFwdLaplArray,
     FwdJacobian,
@@ -91,9 +92,21 @@ def eval_jaxpr_with_forward_laplacian(
             invals[n_const + n_carry :],
         )
         carry_merge = extract_jacobian_mask(in_carry)
-        assert all(
-            isinstance(x, Array) for x in in_inp
+        assert not any(
+            isinstance(x, FwdLaplArray) for x in in_inp
         ), 'Scan does not support scanning over input depenedent tensors.\nPlease unroll the loop.'
+        # Literals are passed as Python scalars
+        in_inp = [jnp.asarray(x) for x in in_inp]
+        y_idx: list[np.ndarray | None] = []
+
+        def check_carry(out_carry):
+            # Check whether jacobian sparsity matches
+            for a, b in zip(in_carry, out_carry):
+                if IS_LPL_ARR(a) != IS_LPL_ARR(b):
+                    raise TypeError(f'Type mismatch in scan: {type(a)} != {type(b)}')
+                if isinstance(a, FwdLaplArray):
+                    if not np.array_equal(a.jacobian.x0_idx, b.jacobian.x0_idx):  # type: ignore
+                        raise ValueError('Jacobian sparsity mismatch in scan.')
 
         def wrapped(carry, x):
             result = eval_jaxpr_with_forward_laplacian(
@@ -104,37 +117,41 @@ def eval_jaxpr_with_forward_laplacian(
                 *x,
                 sparsity_threshold=sparsity_threshold,
             )
-            return result[:n_carry], result[n_carry:]
+            out_carry, out_y = result[:n_carry], result[n_carry:]
+            check_carry(out_carry)
+            # The sparsity patterns are static, so we keep them out of the loop.
+            y_idx[:] = [
+                y.jacobian.x0_idx if isinstance(y, FwdLaplArray) else None
+                for y in out_y
+            ]
+            return jtu.tree_map(strip_mask, (out_carry, out_y), is_leaf=IS_LEAF)
 
-        first_carry, first_y = wrapped(in_carry, jtu.tree_map(lambda x: x[0], in_inp))
-        # Check whether jacobian sparsity matches
-        for a, b in zip(in_carry, first_carry):
-            if not isinstance(a, type(b)):
-                raise TypeError(f'Type mismatch in scan: {type(a)} != {type(b)}')
+        def strip_mask(a):
             if isinstance(a, FwdLaplArray):
-                if not np.all(a.jacobian.x0_idx == b.jacobian.x0_idx):  # type: ignore
-                    raise ValueError('Jacobian sparsity mismatch in scan.')
+                return a._replace(jacobian=a.jacobian._replace(x0_idx=None))
+            return a
+
+        def stack_jacobian(a, x0_idx):
+            if not isinstance(a, FwdLaplArray):
+                return a
+            # The loop is stacked in front of the Jacobian dimension
+            data = jnp.moveaxis(a.jacobian.data, JAC_DIM + 1, JAC_DIM)
+            if x0_idx is not None:
+                x0_idx = np.broadcast_to(
+                    np.expand_dims(x0_idx, JAC_DIM + 1), data.shape
+                )
+            return a._replace(jacobian=FwdJacobian(data, x0_idx))
+
         carry, y = jax.lax.scan(
             wrapped,  # type: ignore
-            in_carry,
+            jtu.tree_map(strip_mask, in_carry, is_leaf=IS_LEAF),
             in_inp,
             length=eqn.params['length'],
             reverse=eqn.params['reverse'],
             unroll=eqn.params['unroll'],
         )
-        carry = [
-            a._replace(jacobian=a.jacobian._replace(x0_idx=b.jacobian.x0_idx))  # type: ignore
-            if isinstance(a, FwdLaplArray)
-            else a
-            for a, b in zip(carry, first_carry)
-        ]
-        y = [
-            a._replace(jacobian=a.jacobian._replace(x0_idx=b.jacobian.x0_idx))  # type: ignore
-            if isinstance(a, FwdLaplArray)
-            else a
-            for a, b in zip(y, first_y)
-        ]
-        return *carry, *y
+        y = [stack_jacobian(a, idx) for a, idx in zip(y, y_idx)]
+        return *carry_merge(carry), *y
 
     def eval_pjit(eqn: core.JaxprEqn, invals):
         name = eqn.params['name']
-- 
2.43.0


From ba74870d9d425fdcd3c7e83965067c56abba6906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:47 +0000
Subject: [PATCH 05/36] fix: Laplacian of the complex absolute value for sparse
 Jacobians with repeated indices

---
 folx/custom_hessian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/folx/custom_hessian.py b/folx/custom_hessian.py
index f1d0db6..0cfbeeb 100644
--- a/folx/custom_hessian.py
+++ b/folx/custom_hessian.py
@@ -70,7 +70,7 @@ def complex_abs_jac_hessian_jac(
     if not is_tree_complex(args.x):
         return jnp.zeros(())
 
-    x, J = args.x[0], args.jacobian[0].data
+    x, J = args.x[0], args.jacobian[0].construct_jac_for(materialize_idx)
     y, J_abs = jnp.abs(x), jnp.abs(J)
 
     x_J = x.real * J.real + x.imag * J.imag
-- 
2.43.0


From 7e6f9872536cabd0f84c3ef249b8998f3338b0f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:04 +0000
Subject: [PATCH 06/36] fix: keyword arguments of functions passed to
 forward_laplacian

---
 folx/interpreter.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/folx/interpreter.py b/folx/interpreter.py
index 0c1109f..dd19fcf 100644
--- a/folx/interpreter.py
+++ b/folx/interpreter.py
@@ -300,7 +300,9 @@ def forward_laplacian(
         args_arr = jtu.tree_map(
             lambda x: x.x if IS_LPL_ARR(x) else x, args, is_leaf=IS_LEAF
         )
-        closed_jaxpr = jax.make_jaxpr(fn)(*args_arr, **kwargs)
+        # We only differentiate with respect to the positional arguments.
+        kwargs_fn = functools.partial(fn, **kwargs)
+        closed_jaxpr = jax.make_jaxpr(kwargs_fn)(*args_arr)
         flat_args = jtu.tree_leaves(args, is_leaf=IS_LEAF)
         if 0 < sparsity_threshold < 1:
             threshold = int(sparsity_threshold * sum(x.size for x in flat_args))
@@ -315,7 +317,7 @@ def forward_laplacian(
             *lapl_args,
             sparsity_threshold=threshold,
         )
-        out_structure = jtu.tree_structure(jax.eval_shape(fn, *args_arr, **kwargs))
+        out_structure = jtu.tree_structure(jax.eval_shape(kwargs_fn, *args_arr))
         return out_structure.unflatten(out)
 
     if disable_jit:
-- 
2.43.0


From ced61e271163d01656324d5c9d4e148bbc6bc1c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:57 +0000
Subject: [PATCH 07/36] fix: weights given as a tree prefix of nested arguments

---
 folx/interpreter.py | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/folx/interpreter.py b/folx/interpreter.py
index dd19fcf..18be776 100644
--- a/folx/interpreter.py
+++ b/folx/interpreter.py
@@ -270,6 +270,26 @@ def init_forward_laplacian_state(
     return jtu.tree_map(FwdLaplArray, x, jacobian, lapl_x)
 
 
+def broadcast_weights(
+    weights: PyTree[ArrayLike], args: tuple[PyTree[ArrayOrFwdLaplArray], ...]
+) -> tuple[ArrayLike, ...]:
+    """
+    Broadcasts the weights (a tree prefix of the arguments, like in_axes in vmap)
+    to the flattened arguments.
+    """
+    if weights is None:
+        weights = 1.0
+    if isinstance(weights, list):
+        weights = tuple(weights)
+    flat_weights = []
+
+    def broadcast(weight, tree):
+        flat_weights.extend([weight] * len(jtu.tree_leaves(tree, is_leaf=IS_LEAF)))
+
+    jtu.tree_map(broadcast, weights, args)
+    return tuple(flat_weights)
+
+
 def forward_laplacian(
     fn: Callable[P, PyTree[Array]],
     sparsity_threshold: int | float = 0,
@@ -309,7 +329,9 @@ def forward_laplacian(
         else:
             threshold = int(sparsity_threshold)
         lapl_args = init_forward_laplacian_state(
-            *flat_args, sparsity=threshold > 0, weights=weights
+            *flat_args,
+            sparsity=threshold > 0,
+            weights=broadcast_weights(weights, args),
         )
         out = eval_jaxpr_with_forward_laplacian(
             closed_jaxpr.jaxpr,
-- 
2.43.0


From f30ba4344386b31d05739d34712ce7f38d330860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:57 +0000
Subject: [PATCH 08/36] fix: loop and parallel Laplacian operators return the
 Laplacian of functions of any input shape

---
 folx/operators.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/folx/operators.py b/folx/operators.py
index 290033b..c34a171 100644
--- a/folx/operators.py
+++ b/folx/operators.py
@@ -57,7 +57,7 @@ class LoopLaplacianOperator(LaplacianOperator):
             _, laplacian = jax.lax.scan(
                 lambda i, _: (i + 1, dgrad_f(eye[i])[i]), 0, None, length=n
             )
-            return laplacian, jacobian
+            return jnp.sum(laplacian), jacobian
 
         return laplacian
 
@@ -67,13 +67,18 @@ class ParallelLaplacianOperator(LaplacianOperator):
     def __call__(f):
         @jax.jit
         def laplacian(x: jax.Array):
+            x_shape = x.shape
             x = x.reshape(-1)
             n = x.shape[0]
             eye = jnp.eye(n, dtype=x.dtype)
-            grad_f = jax.grad(f)
+
+            def f_(x):
+                return f(x.reshape(x_shape))
+
+            grad_f = jax.grad(f_)
             jacobian, dgrad_f = jax.linearize(grad_f, x)
 
-            laplacian = jnp.diagonal(jax.vmap(dgrad_f)(eye))
+            laplacian = jnp.trace(jax.vmap(dgrad_f)(eye))
             return laplacian, jacobian
 
         return laplacian
-- 
2.43.0


From 2e70471299365eb5724bb3311ac3a5253b82de22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:57 +0000
Subject: [PATCH 09/36] fix: gradient of the forward Laplacian operator when
 the last inputs have no influence

---
 folx/operators.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/folx/operators.py b/folx/operators.py
index c34a171..9bd2e88 100644
--- a/folx/operators.py
+++ b/folx/operators.py
@@ -4,7 +4,7 @@ from typing import Callable, Protocol
 import jax
 import jax.numpy as jnp
 
-from .api import Array
+from .api import JAC_DIM, Array
 from .interpreter import forward_laplacian
 
 __all__ = [
@@ -33,7 +33,11 @@ class ForwardLaplacianOperator(LaplacianOperator):
 
         def lap(x: Array):
             result = fwd_lapl(x)
-            return result.laplacian, result.jacobian.dense_array
+            jacobian = result.jacobian.dense_array
+            # With sparsity, trailing inputs without influence may be missing
+            n_missing = x.size - jacobian.shape[JAC_DIM]
+            padding = jnp.zeros((n_missing, *jacobian.shape[1:]), jacobian.dtype)
+            return result.laplacian, jnp.concatenate([jacobian, padding], axis=JAC_DIM)
 
         return lap
 
-- 
2.43.0


From 2b815398d19eb26727307546ee8e5682ab6b8192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:50 +0000
Subject: [PATCH 10/36] fix: restore the log handlers when several threads log
 concurrently

---
 folx/utils.py | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/folx/utils.py b/folx/utils.py
index aece6c0..9c28d9e 100644
--- a/folx/utils.py
+++ b/folx/utils.py
@@ -1,5 +1,6 @@
 import functools
 import logging
+import threading
 from typing import Sequence, Type, TypeVar
 
 import jax
@@ -566,7 +567,11 @@ def broadcast_mask_to_jacobian(mask: PyTree[np.ndarray], jacobian: PyTree[Array]
 
 class LoggingPrefix(logging.Formatter):
     prefix: str
-    _old_handlers = None
+    # The root logger is shared between threads, so the original handlers may only
+    # be restored once the last active prefix is left.
+    _lock = threading.RLock()
+    _active: list[tuple['LoggingPrefix', logging.Handler]] = []
+    _old_handlers: list[logging.Handler] = []
 
     def __init__(self, prefix: str):
         self.prefix = prefix
@@ -577,16 +582,26 @@ class LoggingPrefix(logging.Formatter):
         return super().format(record)
 
     def __enter__(self):
+        cls = type(self)
         logger = logging.getLogger()
-        self._old_handlers = logger.handlers
         myHandler = logging.StreamHandler()
         myHandler.setFormatter(self)
-        logger.handlers = [myHandler]
+        with cls._lock:
+            if len(cls._active) == 0:
+                cls._old_handlers = logger.handlers
+            cls._active.append((self, myHandler))
+            logger.handlers = [myHandler]
 
     def __exit__(self, exc_type, exc_value, traceback):
         if exc_type is not None:
             logging.error(
                 'Exception occurred', exc_info=(exc_type, exc_value, traceback)
             )
+        cls = type(self)
         logger = logging.getLogger()
-        logger.handlers = self._old_handlers
+        with cls._lock:
+            cls._active[:] = [a for a in cls._active if a[0] is not self]
+            if len(cls._active) == 0:
+                logger.handlers = cls._old_handlers
+            else:
+                logger.handlers = [cls._active[-1][1]]
-- 
2.43.0


From 952119d519842798a7ee38c97bd670eca23dc4ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:57 +0000
Subject: [PATCH 11/36] fix: compute_memory no longer communicates through the
 global stdout

---
 folx/experimental/memory.py | 49 ++++++++++++-------------------------
 1 file changed, 15 insertions(+), 34 deletions(-)

diff --git a/folx/experimental/memory.py b/folx/experimental/memory.py
index 0f00a3b..8337bca 100644
--- a/folx/experimental/memory.py
+++ b/folx/experimental/memory.py
@@ -1,7 +1,4 @@
-import functools
-import sys
 from collections import defaultdict
-from io import StringIO
 from typing import Sequence
 
 import jax
@@ -156,20 +153,7 @@ def _compute_jaxpr_memory(
 
     if return_result:
         return env.read_many(jaxpr.outvars), peak_memory, all_tensors
-    print(peak_memory)
-    return None
-
-
-class Capturing(list):  # Utility that captured the stdout of a function
-    def __enter__(self):
-        self._stdout = sys.stdout
-        sys.stdout = self._stringio = StringIO()
-        return self
-
-    def __exit__(self, *args):
-        self.extend(self._stringio.getvalue().splitlines())
-        del self._stringio  # free up some memory
-        sys.stdout = self._stdout
+    return peak_memory
 
 
 def compute_memory(
@@ -197,23 +181,20 @@ def compute_memory(
     if isinstance(static_argnums, int):
         static_argnums = (static_argnums,)
     closed_jaxpr = jax.make_jaxpr(f, static_argnums=static_argnums)(*args, **kwargs)
-    # enclose function
-    fn = functools.partial(
-        _compute_jaxpr_memory,
-        closed_jaxpr.jaxpr,
-        closed_jaxpr.literals,
-        print_top_tensors=print_top_tensors,
-    )
     # remove statics
     args = tuple(args[i] for i in range(len(args)) if i not in static_argnums)
-    # Here we abuse the eval_shape function to avoid actually computing something.
-    # Instead the function prints to correct usage
-    with Capturing() as output:
-        jax.eval_shape(fn, *jtu.tree_leaves(args))
-
-    # Print everything except the last line
-    if len(output) > 1:
-        print('\n'.join(output[:-1]))
+    peak_memory = []
+
+    def fn(*args):
+        peak_memory.append(
+            _compute_jaxpr_memory(
+                closed_jaxpr.jaxpr,
+                closed_jaxpr.literals,
+                *args,
+                print_top_tensors=print_top_tensors,
+            )
+        )
 
-    # Return the last line
-    return int(output[-1])
+    # Here we abuse the eval_shape function to avoid actually computing something.
+    jax.eval_shape(fn, *jtu.tree_leaves(args))
+    return int(peak_memory[0])
-- 
2.43.0


From dacff5ecd6c757cfe098c1c13651b828cb15537e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:03 +0000
Subject: [PATCH 12/36] fix: memory estimates of functions with keyword
 arguments or loops without inputs

---
 folx/experimental/memory.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/folx/experimental/memory.py b/folx/experimental/memory.py
index 8337bca..536ae5b 100644
--- a/folx/experimental/memory.py
+++ b/folx/experimental/memory.py
@@ -116,7 +116,7 @@ def _compute_jaxpr_memory(
             )
             # populate the results by the loop size
             ans[n_carry:] = jtu.tree_map(
-                lambda x: jnp.repeat(x[None], in_inp[0].shape[0], axis=0),
+                lambda x: jnp.repeat(x[None], eqn.params['length'], axis=0),
                 ans[n_carry:],
             )
             all_tensors += sub_tensors
@@ -196,5 +196,5 @@ def compute_memory(
         )
 
     # Here we abuse the eval_shape function to avoid actually computing something.
-    jax.eval_shape(fn, *jtu.tree_leaves(args))
+    jax.eval_shape(fn, *jtu.tree_leaves((args, kwargs)))
     return int(peak_memory[0])
-- 
2.43.0


From d933c92efecc0b0aa9c97710fdcb86f1e82e524d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:57 +0000
Subject: [PATCH 13/36] fix: sparse contractions whose fast path summed the
 wrong axis or misordered the output

---
 folx/wrapped_functions.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/folx/wrapped_functions.py b/folx/wrapped_functions.py
index 3cb7902..6791064 100644
--- a/folx/wrapped_functions.py
+++ b/folx/wrapped_functions.py
@@ -147,14 +147,17 @@ def dot_general(
             and rh_brdcast_dims == tuple(range(len(rh_brdcast_dims)))
             and lh_batch_dims == tuple(sorted(lh_batch_dims))
             and rh_batch_dims == tuple(sorted(rh_batch_dims))
+            and sum(map(bool, (lh_brdcast_dims, rh_brdcast_dims, lh_batch_dims))) <= 1
         ):
             # The checks above do the following:
             # * check that batch dims are identical in both
             # * check that contract dim are identical in both
             # * check that all brdcast dims are at the beginning
             # * check that no transpositions are needed
+            # * check that the output only consists of batch dims or of the brdcast
+            #   dims of one of the two
             # Special case where we can skip the transpositions
-            return fwd_lapl_mul_sum(lhs, rhs, lh_contract)  # type: ignore
+            return fwd_lapl_mul_sum(lhs, rhs, neg_lh_contract)  # type: ignore
         return fwd_lapl_mul_sum(left_inp, right_inp, -1)
 
     # ====================================================================================
-- 
2.43.0


From 9a66fce432bef0622e40a796e9a50316efcb0e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:50 +0000
Subject: [PATCH 14/36] fix: Hessian traces of sparse functions broadcast
 against constants or with axes of size one

---
 folx/hessian.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/folx/hessian.py b/folx/hessian.py
index 02cbd45..b05f2a7 100644
--- a/folx/hessian.py
+++ b/folx/hessian.py
@@ -255,18 +255,21 @@ def remove_zero_entries(
     lapl_args: FwdLaplArgs,
     out_idx: np.ndarray,
     dense_out: bool,
+    out_shape: tuple[int, ...],
 ):
     if dense_out:
         return lapl_args, out_idx, None
 
-    mask = (out_idx != -1).any(0)
+    # out_idx has no axes of size 1
+    full_idx = out_idx.reshape(out_idx.shape[JAC_DIM], *out_shape)
+    mask = (full_idx != -1).any(0)
     if mask.sum() > 0.5 * mask.size:
         # this is a heuristic to avoid having unnecessary indexing overhead for
         # insufficiently sparse masks.
         return lapl_args, out_idx, None
 
     indices = np.where(mask)
-    new_mat_idx = out_idx[(slice(None), *indices)]
+    new_mat_idx = full_idx[(slice(None), *indices)]
     new_arrs = []
     for arg in lapl_args.arrays:
         brdcast_dims = np.where(np.array(arg.x.shape) == 1)[0]
@@ -318,7 +321,9 @@ def vmapped_jac_hessian_jac(
 
     # If we do a dot product (not a hadamard product) we can check for empty hessian entries
     if FunctionFlags.DOT_PRODUCT in flags and all(len(a) == 1 for a in in_axes):
-        lapl_args, out_idx, mask = remove_zero_entries(lapl_args, out_idx, dense_out)
+        lapl_args, out_idx, mask = remove_zero_entries(
+            lapl_args, out_idx, dense_out, out.shape
+        )
         in_axes = jtu.tree_map(lambda _: -1, in_axes)
     else:
         mask = None
@@ -353,9 +358,13 @@ def vmapped_jac_hessian_jac(
     if out_idx is not None:
         # By compressing out_idx we can reduce the number of non-coalesced memory accesses.
         out_idx, compressed_axes = compact_repeated_dims_except(out_idx, JAC_DIM)
-        out_idx_seq: list[int | None] = [1] * len(vmap_seq)
+        # Axes that only exist in the extra arguments do not appear in out_idx.
+        idx_axes = [i for i, a in enumerate(vmap_seq) if len(jtu.tree_leaves(a[0])) > 0]
+        out_idx_seq: list[int | None] = [
+            1 if i in idx_axes else None for i in range(len(vmap_seq))
+        ]
         for c in compressed_axes[::-1]:
-            out_idx_seq[c - 1] = None
+            out_idx_seq[idx_axes[c - 1]] = None
             out_idx = jnp.take(out_idx, 0, axis=c)
     else:
         out_idx_seq = [None] * len(vmap_seq)
-- 
2.43.0


From daf3234a68ef13119abf534fcc5df6c069ee9631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:05 +0000
Subject: [PATCH 15/36] fix: Python scalar arguments of functions with a
 registered rule

---
 folx/hessian.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/folx/hessian.py b/folx/hessian.py
index b05f2a7..032b74f 100644
--- a/folx/hessian.py
+++ b/folx/hessian.py
@@ -301,6 +301,12 @@ def vmapped_jac_hessian_jac(
     sparsity_threshold: int,
     lapl_args: FwdLaplArgs,
 ) -> PyTree[Array]:
+    # Python scalars have neither a shape nor axes to map over.
+    extra_args = tuple(
+        jnp.asarray(x) if isinstance(x, (bool, int, float, complex)) else x
+        for x in extra_args
+    )
+
     # Determine output structure
     def merged_fn(*x: Array):
         return fwd(*merge(x, extra_args))
-- 
2.43.0


From 3d415540e313429fd9a618acd6e154327ee47e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:05 +0000
Subject: [PATCH 16/36] fix: sparse elementwise functions with several outputs

---
 folx/jvp.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/folx/jvp.py b/folx/jvp.py
index 41de0f2..f295dbf 100644
--- a/folx/jvp.py
+++ b/folx/jvp.py
@@ -240,16 +240,22 @@ def sparse_diag_jvp(
         # Aggergate the corresponding jacobian results. Unfortunately,
         # segment_sum can only be applied over the leading axis. So, we have to
         # do some rearranging here.
-        grad_y = jax.ops.segment_sum(
-            grad_y, inv, num_segments=result_mask.shape[JAC_DIM]
+        grad_y = jtu.tree_map(
+            lambda g: jax.ops.segment_sum(
+                g, inv, num_segments=result_mask.shape[JAC_DIM]
+            ),
+            grad_y,
         )
 
     # We need to broadcast the output mask to the shape of the gradient in case the operation
     # included some broadcasting, e.g., (10, 1) * (5,) -> (10, 5)
-    result_mask = broadcast_mask_to_jacobian(result_mask, grad_y)
-    assert grad_y.shape == result_mask.shape, f'{grad_y.shape} != {result_mask.shape}'
+    # The function may have several outputs, they all share the same mask.
+    def to_jacobian(g: Array):
+        mask = broadcast_mask_to_jacobian(result_mask, g)
+        assert g.shape == mask.shape, f'{g.shape} != {mask.shape}'
+        return FwdJacobian(g, mask)
 
-    grad_y = jtu.tree_map(FwdJacobian, grad_y, result_mask)
+    grad_y = jtu.tree_map(to_jacobian, grad_y)
     return y, grad_y, lapl_y
 
 
-- 
2.43.0


From 6d4faeee3daa3a9271d85f71829e580ef11e9f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:05 +0000
Subject: [PATCH 17/36] fix: Hessian traces of sparse products with a single
 non-zero entry

---
 folx/hessian.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/folx/hessian.py b/folx/hessian.py
index 032b74f..59e95fd 100644
--- a/folx/hessian.py
+++ b/folx/hessian.py
@@ -270,6 +270,8 @@ def remove_zero_entries(
 
     indices = np.where(mask)
     new_mat_idx = full_idx[(slice(None), *indices)]
+    if new_mat_idx.shape[1] == 1:
+        new_mat_idx = new_mat_idx[:, 0]
     new_arrs = []
     for arg in lapl_args.arrays:
         brdcast_dims = np.where(np.array(arg.x.shape) == 1)[0]
-- 
2.43.0


From 65889bda15399ce2f30a859d1a79cd161528ef4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:36 +0000
Subject: [PATCH 18/36] fix: sparse Jacobians of scatters that overwrite or mix
 dependent entries

---
 folx/jvp.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/folx/jvp.py b/folx/jvp.py
index f295dbf..e1d4b6d 100644
--- a/folx/jvp.py
+++ b/folx/jvp.py
@@ -353,10 +353,13 @@ def sparse_scatter_jvp(
         return dense_jvp(fwd, laplace_args, flags=flags, in_axes=in_axes)
     if not isinstance(updates, FwdLaplArray) and FunctionFlags.LINEAR in flags:
         # operand must be a fwdlapl array by exclusion since at least one has to be.
+        # The operation is linear in the operand and does not move its entries. So, the
+        # masks stay the same but the overwritten entries lose their derivatives.
         y: Array = fwd(*laplace_args.x)  # type: ignore
-        grad_y: FwdJacobian = operand.jacobian  # type: ignore
-        lapl_y: Array = operand.laplacian  # type: ignore
-        return y, grad_y, lapl_y
+        push = functools.partial(jax.jvp, fwd, laplace_args.x)
+        grad_data = jax.vmap(lambda t: push((t,))[1])(operand.jacobian.data)
+        lapl_y: Array = push((operand.laplacian,))[1]
+        return y, FwdJacobian(grad_data, operand.jacobian.x0_idx), lapl_y  # type: ignore
     if isinstance(operand, FwdLaplArray):
         logging.info(
             'Scatter: operation on operand not supported. At the moment only segment sums are supported.'
@@ -379,11 +382,15 @@ def sparse_scatter_jvp(
         one_hot_mask = jax.nn.one_hot(
             updates.jacobian.x0_idx, n, axis=-1, dtype=jnp.int32
         ).sum(0)
-        out_mask = np.array(jax.ops.segment_sum(one_hot_mask, scatter_indices[:, 0]))
-        max_out = np.sum(out_mask.astype(bool), axis=-1).max()
-        out_mask = np.where(
-            out_mask > 0, out_mask * jnp.arange(n), np.iinfo(np.int32).max
+        out_mask = np.array(
+            jax.ops.segment_sum(
+                one_hot_mask.reshape(-1, n),
+                scatter_indices.reshape(-1),
+                num_segments=operand.shape[0],
+            )
         )
+        max_out = np.sum(out_mask.astype(bool), axis=-1).max()
+        out_mask = np.where(out_mask > 0, jnp.arange(n), np.iinfo(np.int32).max)
         unique_fn = jax.vmap(functools.partial(jnp.unique, size=max_out, fill_value=-1))
         out_mask = unique_fn(out_mask.reshape(-1, n)).T.reshape(
             max_out, *out_mask.shape[:-1]
@@ -397,7 +404,7 @@ def sparse_scatter_jvp(
 
     grad_tan = updates.jacobian.materialize_for_idx(
         updates.jacobian.get_index_mask(
-            jnp.take(out_mask, scatter_indices[:, 0], axis=1)
+            jnp.take(out_mask, scatter_indices[..., 0], axis=1)
         ),
         max_idx=max_out,
     )
-- 
2.43.0


From a24f81a6fb523362b3aa55805fa3596fc7ba75e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:40 +0000
Subject: [PATCH 19/36] fix: sparse Jacobians of arrays without elements

---
 folx/api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/folx/api.py b/folx/api.py
index de5f0ea..3ce0805 100644
--- a/folx/api.py
+++ b/folx/api.py
@@ -170,7 +170,7 @@ class FwdJacobian(NamedTuple):
     @property
     def max_n(self) -> int:
         if self.x0_idx is not None:
-            return int(np.max(self.x0_idx))
+            return int(np.max(self.x0_idx, initial=-1))
         return self.data.shape[JAC_DIM]
 
     @property
-- 
2.43.0


From 1902bfcbee82e1c8c7c7a41776b16513add2c1bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:45 +0000
Subject: [PATCH 20/36] fix: derivatives of the complex absolute value of
 constant zeros

---
 folx/custom_hessian.py    | 2 ++
 folx/wrapped_functions.py | 4 +++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/folx/custom_hessian.py b/folx/custom_hessian.py
index 0cfbeeb..5202d5a 100644
--- a/folx/custom_hessian.py
+++ b/folx/custom_hessian.py
@@ -72,6 +72,8 @@ def complex_abs_jac_hessian_jac(
 
     x, J = args.x[0], args.jacobian[0].construct_jac_for(materialize_idx)
     y, J_abs = jnp.abs(x), jnp.abs(J)
+    # Like JAX, we define all derivatives to be zero at zero.
+    y = jnp.where(y == 0, jnp.inf, y)
 
     x_J = x.real * J.real + x.imag * J.imag
 
diff --git a/folx/wrapped_functions.py b/folx/wrapped_functions.py
index 6791064..ac3120e 100644
--- a/folx/wrapped_functions.py
+++ b/folx/wrapped_functions.py
@@ -276,7 +276,9 @@ def complex_abs_jvp(primals, tangents):
     y = complex_abs(primals)
     if not is_tree_complex(primals):
         return y, jnp.sign(primals) * tangents
-    y_tangent = (primals.real * tangents.real + primals.imag * tangents.imag) / y
+    # Like JAX, we define the derivative to be zero at zero.
+    y_safe = jnp.where(y == 0, jnp.inf, y)
+    y_tangent = (primals.real * tangents.real + primals.imag * tangents.imag) / y_safe
     return y, y_tangent
 
 
-- 
2.43.0


From ff70694fc7ecbea5aebba45e614bb7c08038d8a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:16 +0000
Subject: [PATCH 21/36] fix: keep the preferred element type of dot products in
 their sparse fast path

---
 folx/wrapped_functions.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/folx/wrapped_functions.py b/folx/wrapped_functions.py
index ac3120e..3ae0386 100644
--- a/folx/wrapped_functions.py
+++ b/folx/wrapped_functions.py
@@ -129,8 +129,14 @@ def dot_general(
         # lazy import to avoid circular imports
         from .interpreter import forward_laplacian
 
+        def mul_sum(x: Array, y: Array) -> Array:
+            if preferred_element_type is not None:
+                x = x.astype(preferred_element_type)
+                y = y.astype(preferred_element_type)
+            return (x * y).sum(dims)
+
         return forward_laplacian(
-            lambda x, y: (x * y).sum(dims),
+            mul_sum,
             disable_jit=True,
             sparsity_threshold=sparsity_threshold,
         )(lhs, rhs)
-- 
2.43.0


From eed53cf28789c5e23a45985a63efe4c39dd54536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:16 +0000
Subject: [PATCH 22/36] fix: dtype of dense initial Jacobians for arguments of
 different dtypes

---
 folx/interpreter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/folx/interpreter.py b/folx/interpreter.py
index 18be776..fe7671b 100644
--- a/folx/interpreter.py
+++ b/folx/interpreter.py
@@ -265,6 +265,8 @@ def init_forward_laplacian_state(
         jacobian = jtu.tree_map(lambda x: x[None], jacobian)
     else:
         jacobian = jax.vmap(unravel)(jnp.diag(ravel(jac)[0]))
+        # ravel promotes all arguments to a common dtype
+        jacobian = jtu.tree_map(lambda j, x_: j.astype(x_.dtype), jacobian, x)
         jacobian = jtu.tree_map(FwdJacobian.from_dense, jacobian)
     lapl_x = jtu.tree_map(jnp.zeros_like, x)
     return jtu.tree_map(FwdLaplArray, x, jacobian, lapl_x)
-- 
2.43.0


From 25b5f3ac033d423a620d19573427ecaf06f432cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:56 +0000
Subject: [PATCH 23/36] fix: compile sparse Laplacian operators as a whole

---
 folx/operators.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/folx/operators.py b/folx/operators.py
index 9bd2e88..d0f53d7 100644
--- a/folx/operators.py
+++ b/folx/operators.py
@@ -29,8 +29,10 @@ class ForwardLaplacianOperator(LaplacianOperator):
     sparsity_threshold: float | int
 
     def __call__(self, f):
-        fwd_lapl = forward_laplacian(f, self.sparsity_threshold)
+        # The sparsity pattern is only static within a single compilation
+        fwd_lapl = forward_laplacian(f, self.sparsity_threshold, disable_jit=True)
 
+        @jax.jit
         def lap(x: Array):
             result = fwd_lapl(x)
             jacobian = result.jacobian.dense_array
-- 
2.43.0


From e64685d8c060d8a7b486d52422fc5ae5c3479483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:29 +0000
Subject: [PATCH 24/36] fix: batched vmap of functions returning arrays without
 elements

---
 folx/vmap.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/folx/vmap.py b/folx/vmap.py
index 74a45a3..2c6fcd6 100644
--- a/folx/vmap.py
+++ b/folx/vmap.py
@@ -65,7 +65,9 @@ def batched_vmap(
             return carry, vmapped_fn(x)
 
         result = jax.lax.scan(inner, None, loop_args, length=num_batches)[1]
-        result = jtu.tree_map(lambda x: x.reshape(-1, *x.shape[2:]), result)
+        result = jtu.tree_map(
+            lambda x: x.reshape(num_batches * max_batch_size, *x.shape[2:]), result
+        )
         if remainder > 0:
             remainder_args = jtu.tree_map(lambda x: x[:remainder], leading_args)
             remainder_result = vmapped_fn(remainder_args)
-- 
2.43.0


From 591fa0518e78afa11ef2913112ebcb9cecbfb56f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:07 +0000
Subject: [PATCH 25/36] fix: automatic batching on devices without memory
 statistics

---
 folx/experimental/vmap.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/folx/experimental/vmap.py b/folx/experimental/vmap.py
index bb02b6c..2e5eb67 100644
--- a/folx/experimental/vmap.py
+++ b/folx/experimental/vmap.py
@@ -33,14 +33,15 @@ def auto_batched_vmap(
     Returns:
         The batched function.
     """
-    mem = jax.devices()[0].memory_stats()['bytes_limit']  # type: ignore
-    target_mem = mem * max_fraction
+    # Not all devices provide memory statistics
+    memory_stats = jax.devices()[0].memory_stats()
 
     vmapped_fn = functools.partial(batched_vmap, fn, in_axes=in_axes, out_axes=out_axes)
 
     @functools.wraps(fn)
     def result(*args, **kwargs):
         try:
+            target_mem = memory_stats['bytes_limit'] * max_fraction  # type: ignore
             single_fn = vmapped_fn(max_batch_size=1)
             pair_fn = vmapped_fn(max_batch_size=2)
             with jax.ensure_compile_time_eval():
-- 
2.43.0


From 1786568923f15a571eecd758766c356b0ef07a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:07 +0000
Subject: [PATCH 26/36] fix: memory estimate of functions using random keys

---
 folx/experimental/memory.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/folx/experimental/memory.py b/folx/experimental/memory.py
index 536ae5b..6a4c12a 100644
--- a/folx/experimental/memory.py
+++ b/folx/experimental/memory.py
@@ -11,11 +11,8 @@ from jax.util import safe_map
 
 
 def _bytes_from_dtype(dtype):
-    import re
-
-    if str(dtype) == 'bool':
-        return 1
-    return int(re.findall(r'\d+', str(dtype))[0]) // 8
+    # Extended dtypes, e.g., those of random keys, also provide an itemsize.
+    return dtype.itemsize
 
 
 class MemoryExprEnvironment:
-- 
2.43.0


From 78cb45807157eb8c7fc0cc39a93f844b5084237d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:55 +0000
Subject: [PATCH 27/36] fix: memory estimate freed repeated operands several
 times

---
 folx/experimental/memory.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/folx/experimental/memory.py b/folx/experimental/memory.py
index 6a4c12a..0201704 100644
--- a/folx/experimental/memory.py
+++ b/folx/experimental/memory.py
@@ -72,7 +72,10 @@ class MemoryExprEnvironment:
             self.memory -= v.size * _bytes_from_dtype(v.dtype)
 
     def free_memory(self, vars: Sequence[core.Atom], vals: Sequence[Array]):
-        safe_map(self._free_memory, vars, vals)
+        # Operands may appear several times but their memory is only freed once.
+        unique = {id(var): (var, val) for var, val in zip(vars, vals)}
+        for var, val in unique.values():
+            self._free_memory(var, val)
 
 
 def _compute_jaxpr_memory(
-- 
2.43.0


From e8d58feda6864a7f995023634be4c7e313ac362e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:56 +0000
Subject: [PATCH 28/36] fix: rows of dense Jacobians for fill values and
 missing rows

---
 folx/api.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/folx/api.py b/folx/api.py
index 3ce0805..4180d55 100644
--- a/folx/api.py
+++ b/folx/api.py
@@ -154,7 +154,10 @@ class FwdJacobian(NamedTuple):
                 jnp.zeros(self.data_shape, dtype=self.data.dtype), JAC_DIM
             )
         if self.x0_idx is None:
-            return self.data[idx]
+            # Negative indices are fill values and rows that do not exist are zero.
+            n = self.data.shape[JAC_DIM]
+            idx = jnp.where((idx < 0) | (idx >= n), n, idx)
+            return jnp.take(self.data, idx, axis=JAC_DIM, mode='fill', fill_value=0)
         return self.materialize_for_idx(self.get_index_mask(idx), len(idx))
 
     @property
-- 
2.43.0


From 801b2d7ac648ba0b4f9575256f5ed2d82db06777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:56 +0000
Subject: [PATCH 29/36] fix: Hessian traces of functions annotated as linear in
 each argument

---
 folx/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/folx/utils.py b/folx/utils.py
index 9c28d9e..6fe7f06 100644
--- a/folx/utils.py
+++ b/folx/utils.py
@@ -83,8 +83,9 @@ def jac_jacT(first: FwdJacobian, other: FwdJacobian, idx: Array | np.ndarray | N
     """
     Computes outer product of the given jacobians.
     """
+    # The leading dimension of the reduced jacobians is the jacobian dimension.
     x, y = get_reduced_jacobians(first, other, idx=idx)
-    return x @ y.T
+    return x.T @ y
 
 
 def flat_wrap(fn: ForwardFn, *x: Array):
-- 
2.43.0


From 820efa9b589649d766d1d37b502d24a3e4549cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:56 +0000
Subject: [PATCH 30/36] fix: pass operands of named functions to their rules as
 a tuple

---
 folx/interpreter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/folx/interpreter.py b/folx/interpreter.py
index fe7671b..c0916ea 100644
--- a/folx/interpreter.py
+++ b/folx/interpreter.py
@@ -157,7 +157,7 @@ def eval_jaxpr_with_forward_laplacian(
         name = eqn.params['name']
         if fn := get_laplacian(name):
             # TODO: this is a bit incomplete, e.g., kwargs?
-            outvals = fn(invals, {}, sparsity_threshold=sparsity_threshold)
+            outvals = fn(tuple(invals), {}, sparsity_threshold=sparsity_threshold)
             if isinstance(outvals, (FwdLaplArray, Array)):
                 outvals = [outvals]  # TODO: Figure out how to properly handle outvals
             return outvals
-- 
2.43.0


From 789d3bcba060b82a6aa78d77c305c82c22f5371a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:02 +0000
Subject: [PATCH 31/36] fix: negative axes of functions annotated as summation

---
 folx/jvp.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/folx/jvp.py b/folx/jvp.py
index e1d4b6d..98f6f15 100644
--- a/folx/jvp.py
+++ b/folx/jvp.py
@@ -49,6 +49,7 @@ def sparse_sum_jvp(
         axes = kwargs.get('axes')
     if axes is None:
         axes = tuple(range(x.ndim))
+    axes = tuple(i + x.ndim if i < 0 else i for i in axes)
 
     # these are fairly easy to compute
     y = x.sum(axes)
-- 
2.43.0


From 2666a3b27b5cf88889797589e822233808121f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:46 +0000
Subject: [PATCH 32/36] fix: elementwise functions with several outputs

---
 folx/jvp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/folx/jvp.py b/folx/jvp.py
index 98f6f15..4622091 100644
--- a/folx/jvp.py
+++ b/folx/jvp.py
@@ -469,7 +469,7 @@ def dense_elementwise_jvp(
     fwd: ForwardFn, laplace_args: FwdLaplArgs
 ) -> tuple[Array, FwdJacobian, Array]:
     y: Array = fwd(laplace_args.x[0])  # type: ignore
-    if y.shape != laplace_args.x[0].shape:
+    if not isinstance(y, Array) or y.shape != laplace_args.x[0].shape:
         return dense_split_jvp(fwd, laplace_args)
 
     jac = vjp(fwd, laplace_args.x[0])(jnp.ones_like(y))[0]
-- 
2.43.0


From 348ad4d48379f8673558f831cf8e2a14ed7991bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:46 +0000
Subject: [PATCH 33/36] fix: sparse Jacobians of functions with axes per
 argument or dimensions after the batch

---
 folx/jvp.py     | 36 +++++++++++++++++++++++++++++-------
 folx/wrapper.py | 14 ++++++++++++++
 2 files changed, 43 insertions(+), 7 deletions(-)

diff --git a/folx/jvp.py b/folx/jvp.py
index 4622091..21be7f9 100644
--- a/folx/jvp.py
+++ b/folx/jvp.py
@@ -124,6 +124,7 @@ def sparse_jvp(
     sparsity_threshold: int,
     flags: FunctionFlags,
     in_axes: Axes,
+    batch_ndim: int,
 ) -> tuple[Array, FwdJacobian, Array]:
     if not laplace_args.all_jacobian_weak:
         return dense_jvp(fwd, laplace_args, flags=flags, in_axes=in_axes)
@@ -182,9 +183,16 @@ def sparse_jvp(
     lapl_y = tree_take(y_tangent, -1, axis=JAC_DIM)
 
     # The function may have several outputs, they all share the same mask.
-    new_masks = jtu.tree_map(
-        lambda g: broadcast_mask_to_jacobian(out_mask, g), grad_y
-    )
+    # Dimensions that are created by the function follow after the batch dimensions.
+    kept_ndim = out_mask.ndim - 1
+
+    def to_mask(g: Array):
+        new_dims = (1,) * (g.ndim - 1 - max(batch_ndim, kept_ndim))
+        return broadcast_mask_to_jacobian(
+            out_mask.reshape(*out_mask.shape, *new_dims), g
+        )
+
+    new_masks = jtu.tree_map(to_mask, grad_y)
     grad_y = jtu.tree_map(FwdJacobian, grad_y, new_masks)
     return y, grad_y, lapl_y
 
@@ -499,17 +507,28 @@ def get_jvp_function(
     fwd: ForwardFn,
     flags: FunctionFlags,
     in_axes: Axes,
+    arg_axes: Axes,
+    batch_ndim: int,
     extra_args: ExtraArgs,
     merge: MergeFn,
     index_static_args: tuple | slice | None,
     sparsity_threshold: int,
 ):
+    # If every argument has its own axes, we have to pick those of the argument.
+    has_arg_axes = isinstance(in_axes, (tuple, list)) and not all(
+        isinstance(a, int) for a in in_axes
+    )
+
+    def get_axes(i: int):
+        return arg_axes[i] if has_arg_axes else in_axes
+
     def merged_fwd(*args: Array):
         return fwd(*merge(args, extra_args))
 
     merged_fwd.__name__ = fwd.__name__
 
     def parallel_jvp(args: FwdLaplArgs, kwargs):
+        axes = get_axes(0) if len(args) == 1 else in_axes
         if not args.all_jacobian_weak:
             return dense_jvp(merged_fwd, args, flags, in_axes)
         if FunctionFlags.INDEXING in flags:
@@ -528,16 +547,18 @@ def get_jvp_function(
             args,
             extra_args,
             merge,
-            axes=in_axes,
+            axes=axes,
             kwargs=kwargs,
             sparsity_threshold=sparsity_threshold,
             flags=flags,
-            in_axes=in_axes,
+            in_axes=axes,
+            batch_ndim=batch_ndim,
         )
 
     def one_by_one_jvp(args: FwdLaplArgs, kwargs) -> tuple[Array, FwdJacobian, Array]:
         y, grad, lapl = None, None, None
         for i, x in enumerate(args.arrays):
+            axes = get_axes(i)
             static_args = tuple(args.x)
             n_static = len(static_args) - 1
             new_extra = extra_args + static_args[:i] + static_args[i + 1 :]
@@ -564,11 +585,12 @@ def get_jvp_function(
                     args,
                     new_extra,
                     new_merge,
-                    axes=in_axes,
+                    axes=axes,
                     kwargs=kwargs,
                     sparsity_threshold=sparsity_threshold,
                     flags=flags,
-                    in_axes=in_axes,
+                    in_axes=axes,
+                    batch_ndim=batch_ndim,
                 )
 
             y_, grad_, lapl_ = _jvp(FwdLaplArgs((x,)), kwargs)
diff --git a/folx/wrapper.py b/folx/wrapper.py
index 0bf9490..a9c28f5 100644
--- a/folx/wrapper.py
+++ b/folx/wrapper.py
@@ -3,6 +3,7 @@ import warnings
 from typing import Any, ParamSpec, TypeVar
 
 import jax
+import jax.numpy as jnp
 from jax.numpy import ComplexWarning
 
 from .api import (
@@ -38,6 +39,7 @@ def construct_fwd_laplacian_functions(
     extra_args: ExtraArgs,
     arg_axes: Axes,
     extra_in_axes: Axes,
+    batch_ndim: int,
     merge: MergeFn,
     index_static_args: tuple | slice | None,
     sparsity_threshold: int,
@@ -53,6 +55,8 @@ def construct_fwd_laplacian_functions(
             fwd=fwd,
             flags=flags,
             in_axes=in_axes,
+            arg_axes=arg_axes,
+            batch_ndim=batch_ndim,
             extra_args=extra_args,
             merge=merge,
             index_static_args=index_static_args,
@@ -97,6 +101,15 @@ def wrap_forward_laplacian(
     ) -> PyTree[ArrayOrFwdLaplArray]:
         # split arguments into ForwardLaplacianArrays and other arrays
         lapl_args, lapl_axes, extra, extra_axes, merge = split_args(args, in_axes)
+        # Number of dimensions that are broadcast rather than used by the function.
+        batch_ndim = max(
+            (
+                jnp.ndim(x) - len(axes)
+                for x, axes in zip((*lapl_args, *extra), (*lapl_axes, *extra_axes))
+                if axes is not None
+            ),
+            default=0,
+        )
 
         # construct operation
         partial_fn = functools.partial(fn, **kwargs)
@@ -108,6 +121,7 @@ def wrap_forward_laplacian(
             extra_args=extra,
             arg_axes=lapl_axes,
             extra_in_axes=extra_axes,
+            batch_ndim=batch_ndim,
             merge=merge,
             index_static_args=index_static_args,
             sparsity_threshold=sparsity_threshold,
-- 
2.43.0


From d3d660e423e5d53bd5c5f09340ab608a60cb0310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:20 +0000
Subject: [PATCH 34/36] fix: compute_memory failed if literals are passed
 through loops

---
 folx/experimental/memory.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/folx/experimental/memory.py b/folx/experimental/memory.py
index 0201704..f01ad84 100644
--- a/folx/experimental/memory.py
+++ b/folx/experimental/memory.py
@@ -44,7 +44,8 @@ class MemoryExprEnvironment:
 
     def read(self, var: core.Atom) -> Array:
         if isinstance(var, core.Literal):
-            return var.val
+            # Literals may be Python scalars that have neither a shape nor a dtype.
+            return jnp.asarray(var.val, dtype=var.aval.dtype)
         self.reference_counter[var] -= 1
         result = self.env[var]
         if self.reference_counter[var] == 0:
-- 
2.43.0


From 2c0aa5d4c89844be92f28e4a9b4cf8e8440c3fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:13 +0000
Subject: [PATCH 35/36] fix: out of bounds gathers filled the sparsity pattern
 with the fill value of the data

---
 folx/wrapped_functions.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/folx/wrapped_functions.py b/folx/wrapped_functions.py
index 3ae0386..1230b3b 100644
--- a/folx/wrapped_functions.py
+++ b/folx/wrapped_functions.py
@@ -192,6 +192,14 @@ def dot_general(
     return result
 
 
+def gather(operand: Array, indices: Array, *, fill_value, **kwargs) -> Array:
+    # Sparsity patterns are gathered like the values they belong to. Values that are
+    # filled in because they are out of bounds do not depend on any input.
+    if jnp.issubdtype(operand.dtype, jnp.integer):
+        fill_value = -1
+    return jax.lax.gather_p.bind(operand, indices, fill_value=fill_value, **kwargs)
+
+
 def dtype_conversion(
     args: tuple[ArrayOrFwdLaplArray],
     kwargs: dict[str, Any],
@@ -392,9 +400,7 @@ _LAPLACE_FN_REGISTRY: dict[Primitive | str, ForwardLaplacian] = {
     jax.lax.select_n_p: wrap_forward_laplacian(
         jax.lax.select_n, flags=FunctionFlags.INDEXING, index_static_args=(0,)
     ),
-    jax.lax.gather_p: wrap_forward_laplacian(
-        jax.lax.gather_p.bind, flags=FunctionFlags.INDEXING, name='gather'
-    ),
+    jax.lax.gather_p: wrap_forward_laplacian(gather, flags=FunctionFlags.INDEXING),
     jax.lax.transpose_p: wrap_forward_laplacian(
         jax.lax.transpose, flags=FunctionFlags.INDEXING
     ),
-- 
2.43.0


From 23aaa1032798a00ff946127f324d2914f29f9ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:36 +0000
Subject: [PATCH 36/36] fix: reductions of sparse Jacobians none of whose
 entries depends on an input

---
 folx/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/folx/utils.py b/folx/utils.py
index 6fe7f06..65daa2d 100644
--- a/folx/utils.py
+++ b/folx/utils.py
@@ -487,7 +487,8 @@ def get_jacobian_for_reduction(jacs: Sequence[FwdJacobian], axes):
     mask = np.concatenate(masks, axis=-1)
     out_mask_list = [np.unique(m) for m in mask]
     out_mask_list = [m[m != -1] for m in out_mask_list]
-    max_unique = max([m.size for m in out_mask_list])
+    # There is one row even if no element depends on any input.
+    max_unique = max([1, *[m.size for m in out_mask_list]])
 
     # Here we extend each mask to the same size by appending -1.
     out_mask = np.stack(
-- 
2.43.0


From fc4c99a0a03d9c957ceaf0dc11ca7a93deac77cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:13 +0000
Subject: [PATCH 01/32] fix: AbstractSRK used the wrong sign for the drift when
 t1 < t0

---
 diffrax/_solver/srk.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/diffrax/_solver/srk.py b/diffrax/_solver/srk.py
index ddb0309..ef86a4d 100644
--- a/diffrax/_solver/srk.py
+++ b/diffrax/_solver/srk.py
@@ -362,6 +362,8 @@ class AbstractSRK(AbstractSolver[_SolverState]):
 
         # time increment
         h = t1 - t0
+        # control for the drift (which is `-h` when integrating backwards in time)
+        h_contr = drift.contr(t0, t1)
 
         # First the drift related stuff
         a = self._embed_a_lower(self.tableau.a, dtype)
@@ -545,7 +547,7 @@ class AbstractSRK(AbstractSolver[_SolverState]):
             z_j = (y0**ω + _drift_result**ω + _diffusion_result**ω).ω
 
             def compute_and_insert_kf_j(_h_kfs_in):
-                h_kf_j = drift.vf_prod(t0 + c_j * h, z_j, args, h)
+                h_kf_j = drift.vf_prod(t0 + c_j * h, z_j, args, h_contr)
                 return insert_jth_stage(_h_kfs_in, h_kf_j, j)
 
             if ignore_stage_f is None:
-- 
2.43.0


From 0defda95874e8e1a181c17f1abee8f99437326f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:58 +0000
Subject: [PATCH 02/32] fix: space-time Levy area had the wrong sign when t1 <
 t0

---
 diffrax/_term.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/diffrax/_term.py b/diffrax/_term.py
index 9b0c031..a056687 100644
--- a/diffrax/_term.py
+++ b/diffrax/_term.py
@@ -17,6 +17,7 @@ from jaxtyping import Array, ArrayLike, PyTree, Shaped
 from ._brownian import AbstractBrownianPath
 from ._custom_types import (
     AbstractBrownianIncrement,
+    AbstractSpaceTimeLevyArea,
     Args,
     Control,
     IntScalarLike,
@@ -742,7 +743,12 @@ class WrapTerm(AbstractTerm[_VF, _Control]):
     def contr(self, t0: RealScalarLike, t1: RealScalarLike, **kwargs) -> _Control:
         _t0 = jnp.where(self.direction == 1, t0, -t1)
         _t1 = jnp.where(self.direction == 1, t1, -t0)
-        return (self.direction * self.term.contr(_t0, _t1, **kwargs) ** ω).ω
+        contr = self.term.contr(_t0, _t1, **kwargs)
+        out = (self.direction * contr**ω).ω
+        if isinstance(contr, AbstractSpaceTimeLevyArea):
+            # Space-time Lévy area is invariant under time reversal.
+            out = eqx.tree_at(lambda x: x.H, out, contr.H)
+        return out
 
     def prod(self, vf: _VF, control: _Control) -> Y:
         with jax.numpy_dtype_promotion("standard"):
-- 
2.43.0


From 3ffb307ecd15814ba2fe6c9e8154a9d0b93fcd31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:58 +0000
Subject: [PATCH 03/32] fix: VirtualBrownianTree returned the wrong dt for
 PyTree-valued Brownian motion

---
 diffrax/_brownian/tree.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/diffrax/_brownian/tree.py b/diffrax/_brownian/tree.py
index 8a43066..4efd500 100644
--- a/diffrax/_brownian/tree.py
+++ b/diffrax/_brownian/tree.py
@@ -314,13 +314,9 @@ class VirtualBrownianTree(AbstractBrownianPath):
             dtype = jnp.result_type(z)
             return jnp.astype(sqrt_len, dtype) * z
 
-        def is_dt(z):
-            return z is x.dt
-
-        dt, other = eqx.partition(x, is_dt)
-        dt_normalized = jtu.tree_map(mult, dt)
-        other_normalized = jtu.tree_map(sqrt_mult, other)
-        return eqx.combine(dt_normalized, other_normalized)
+        # `x.dt` may be a PyTree.
+        out = jtu.tree_map(sqrt_mult, x)
+        return eqx.tree_at(lambda z: z.dt, out, jtu.tree_map(mult, x.dt))
 
     @eqx.filter_jit
     def evaluate(
-- 
2.43.0


From 8712f706e43c0704e21d032d12cb21e2d1656dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:47 +0000
Subject: [PATCH 04/32] fix: increments evaluate(t0, t1) of interpolations
 failed on PyTree-valued paths

---
 diffrax/_global_interpolation.py | 12 +++++++++---
 diffrax/_local_interpolation.py  |  4 ++--
 diffrax/_solver/dopri8.py        |  2 +-
 diffrax/_solver/kencarp3.py      |  2 +-
 diffrax/_solver/tsit5.py         |  2 +-
 5 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/diffrax/_global_interpolation.py b/diffrax/_global_interpolation.py
index 278d7c5..c0fb44b 100644
--- a/diffrax/_global_interpolation.py
+++ b/diffrax/_global_interpolation.py
@@ -131,7 +131,9 @@ class LinearInterpolation(AbstractGlobalInterpolation):
         """
 
         if t1 is not None:
-            return self.evaluate(t1, left=left) - self.evaluate(t0, left=left)
+            return (
+                self.evaluate(t1, left=left) ** ω - self.evaluate(t0, left=left) ** ω
+            ).ω
         index, fractional_part = self._interpret_t(t0, left)
 
         def _index(_ys):
@@ -253,7 +255,9 @@ class CubicInterpolation(AbstractGlobalInterpolation):
         """
 
         if t1 is not None:
-            return self.evaluate(t1, left=left) - self.evaluate(t0, left=left)
+            return (
+                self.evaluate(t1, left=left) ** ω - self.evaluate(t0, left=left) ** ω
+            ).ω
         index, frac = self._interpret_t(t0, left)
 
         d, c, b, a = self.coeffs
@@ -344,7 +348,9 @@ class DenseInterpolation(AbstractGlobalInterpolation):
         self, t0: RealScalarLike, t1: RealScalarLike | None = None, left: bool = True
     ) -> PyTree[Shaped[Array, "?*shape"], "Y"]:
         if t1 is not None:
-            return self.evaluate(t1, left=left) - self.evaluate(t0, left=left)
+            return (
+                self.evaluate(t1, left=left) ** ω - self.evaluate(t0, left=left) ** ω
+            ).ω
         t = t0 * self.direction
         t_bounded = self._nan_if_out_of_bounds(t)
         out = self._get_local_interpolation(t_bounded, left).evaluate(
diff --git a/diffrax/_local_interpolation.py b/diffrax/_local_interpolation.py
index 1f35d1d..70219c2 100644
--- a/diffrax/_local_interpolation.py
+++ b/diffrax/_local_interpolation.py
@@ -81,7 +81,7 @@ class ThirdOrderHermitePolynomialInterpolation(AbstractLocalInterpolation):
     ) -> PyTree[Array]:
         del left
         if t1 is not None:
-            return self.evaluate(t1) - self.evaluate(t0)
+            return (self.evaluate(t1) ** ω - self.evaluate(t0) ** ω).ω
 
         t = linear_rescale(self.t0, t0, self.t1)
 
@@ -128,7 +128,7 @@ class FourthOrderPolynomialInterpolation(AbstractLocalInterpolation):
     ) -> PyTree[Array]:
         del left
         if t1 is not None:
-            return self.evaluate(t1) - self.evaluate(t0)
+            return (self.evaluate(t1) ** ω - self.evaluate(t0) ** ω).ω
 
         t = linear_rescale(self.t0, t0, self.t1)
 
diff --git a/diffrax/_solver/dopri8.py b/diffrax/_solver/dopri8.py
index 958d881..0f38e7a 100644
--- a/diffrax/_solver/dopri8.py
+++ b/diffrax/_solver/dopri8.py
@@ -296,7 +296,7 @@ class _Dopri8Interpolation(AbstractLocalInterpolation):
     ) -> Y:
         del left
         if t1 is not None:
-            return self.evaluate(t1) - self.evaluate(t0)
+            return (self.evaluate(t1) ** ω - self.evaluate(t0) ** ω).ω
         t = linear_rescale(self.t0, t0, self.t1)
         coeffs = _vmap_polyval(jnp.asarray(self.eval_coeffs, dtype=t.dtype), t) * t
         with jax.numpy_dtype_promotion("standard"):
diff --git a/diffrax/_solver/kencarp3.py b/diffrax/_solver/kencarp3.py
index cda0448..6bcb8d4 100644
--- a/diffrax/_solver/kencarp3.py
+++ b/diffrax/_solver/kencarp3.py
@@ -112,7 +112,7 @@ class KenCarpInterpolation(AbstractLocalInterpolation):
     ) -> PyTree:
         del left
         if t1 is not None:
-            return self.evaluate(t1) - self.evaluate(t0)
+            return (self.evaluate(t1) ** ω - self.evaluate(t0) ** ω).ω
 
         t = linear_rescale(self.t0, t0, self.t1)
         explicit_k, implicit_k = self.k
diff --git a/diffrax/_solver/tsit5.py b/diffrax/_solver/tsit5.py
index 7dc7a14..789e9ce 100644
--- a/diffrax/_solver/tsit5.py
+++ b/diffrax/_solver/tsit5.py
@@ -118,7 +118,7 @@ class _Tsit5Interpolation(AbstractLocalInterpolation):
     ) -> Y:
         del left
         if t1 is not None:
-            return self.evaluate(t1) - self.evaluate(t0)
+            return (self.evaluate(t1) ** ω - self.evaluate(t0) ** ω).ω
 
         t = linear_rescale(self.t0, t0, self.t1)
 
-- 
2.43.0


From a530d212821af630f308cd1669faac48bd889579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:16 +0000
Subject: [PATCH 05/32] fix: an event no longer hides a failure of the solver
 or controller on the same step

---
 diffrax/_integrate.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/diffrax/_integrate.py b/diffrax/_integrate.py
index 8241fa9..63daae6 100644
--- a/diffrax/_integrate.py
+++ b/diffrax/_integrate.py
@@ -626,8 +626,9 @@ def loop(
                 event_mask_leaves.append(event_mask_i & jnp.invert(had_event))
                 had_event = event_mask_i | had_event
             event_mask = jtu.tree_unflatten(event_structure, event_mask_leaves)
+            # Do not let an event hide a failure on this step.
             result = RESULTS.where(
-                had_event,
+                had_event & is_okay(result),
                 RESULTS.event_occurred,
                 result,
             )
-- 
2.43.0


From c58c459b49d8e2915a846a89d4511ee8933157b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:43 +0000
Subject: [PATCH 06/32] fix: unused entries of ts were padded with -inf after
 an event with t1 < t0

---
 diffrax/_integrate.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/diffrax/_integrate.py b/diffrax/_integrate.py
index 63daae6..ef36e67 100644
--- a/diffrax/_integrate.py
+++ b/diffrax/_integrate.py
@@ -1479,7 +1479,10 @@ def diffeqsolve(
     progress_meter.close(final_state.progress_meter_state)
     is_save_state = lambda x: isinstance(x, SaveState)
     ts = jtu.tree_map(
-        lambda s: s.ts * direction, final_state.save_state, is_leaf=is_save_state
+        # Unused entries are always padded with `+inf`.
+        lambda s: jnp.where(jnp.isinf(s.ts), jnp.inf, s.ts * direction),
+        final_state.save_state,
+        is_leaf=is_save_state,
     )
     ys = jtu.tree_map(lambda s: s.ys, final_state.save_state, is_leaf=is_save_state)
 
-- 
2.43.0


From 02d388492d2f13b5b78405f702071749d5c38959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:57 +0000
Subject: [PATCH 07/32] fix: events received negated times when t1 < t0

---
 diffrax/_integrate.py | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/diffrax/_integrate.py b/diffrax/_integrate.py
index ef36e67..9c1e682 100644
--- a/diffrax/_integrate.py
+++ b/diffrax/_integrate.py
@@ -275,6 +275,29 @@ def _save(
     )
 
 
+class _DirectionCondFn(eqx.Module):
+    # Calls an event's `cond_fn` with the times and terms as passed by the user, rather
+    # than those normalised to have `t0 < t1`.
+    cond_fn: Callable
+    direction: IntScalarLike
+
+    def __call__(self, t, y, args, *, terms, t0, t1, dt0, **kwargs):
+        is_wrap = lambda x: isinstance(x, WrapTerm)
+        terms = jtu.tree_map(
+            lambda x: x.term if is_wrap(x) else x, terms, is_leaf=is_wrap
+        )
+        return self.cond_fn(
+            t * self.direction,
+            y,
+            args,
+            terms=terms,
+            t0=t0 * self.direction,
+            t1=t1 * self.direction,
+            dt0=None if dt0 is None else dt0 * self.direction,
+            **kwargs,
+        )
+
+
 def _clip_to_end(tprev, tnext, t1, t1_clip_floor, keep_step):
     # The tolerance of ~100 ULP's means that we don't end up with too-small intervals
     # for dense output, which then gives numerically unstable answers due to floating
@@ -1164,6 +1187,16 @@ def diffeqsolve(
         _get_subsaveat_ts, saveat, replace_fn=lambda ts: ts * direction
     )
     stepsize_controller = stepsize_controller.wrap(direction)
+    if event is not None:
+        event = Event(
+            cond_fn=jtu.tree_map(
+                lambda f: _DirectionCondFn(f, direction),
+                event.cond_fn,
+                is_leaf=callable,
+            ),
+            root_finder=event.root_finder,
+            direction=event.direction,
+        )
 
     def _wrap(term):
         assert isinstance(term, AbstractTerm)
-- 
2.43.0


From f053ee5aa030b5dc886c06bc83969d073ac5f524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:50 +0000
Subject: [PATCH 08/32] fix: SaveAt(steps=...) saved the final step twice when
 using an event with a root finder

---
 diffrax/_integrate.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/diffrax/_integrate.py b/diffrax/_integrate.py
index 9c1e682..eed329a 100644
--- a/diffrax/_integrate.py
+++ b/diffrax/_integrate.py
@@ -892,6 +892,14 @@ def loop(
             # then we need to write the final value here because we deleted the
             # last value after the event time above.
             pred = subsaveat.t1 | t1_saved_via_steps
+            if t1_saved_via_steps is not False:
+                # ...except if it wasn't deleted, because the event occurred at the
+                # very end of the step (or did not occur at all).
+                pred = pred & jnp.invert(
+                    t1_saved_via_steps
+                    & (final_state.num_accepted_steps > 0)
+                    & (final_state.tprev <= tfinal)
+                )
         if pred is not False:
             save_state = _save(
                 tfinal, yfinal, args, subsaveat.fn, save_state, repeat=1, pred=pred
-- 
2.43.0


From 3ecc72bd3fa69d9a2413d7afe069e7cf64634368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:15 +0000
Subject: [PATCH 09/32] fix: SaveAt(t1=True, steps=...) did not save the final
 value if no steps were made

---
 diffrax/_integrate.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/diffrax/_integrate.py b/diffrax/_integrate.py
index eed329a..0c1dc55 100644
--- a/diffrax/_integrate.py
+++ b/diffrax/_integrate.py
@@ -881,6 +881,11 @@ def loop(
             # We might be saving the final value via `steps`,
             # so we might need to save it via `t1`.
             t1_saved_via_steps = final_state.num_accepted_steps % subsaveat.steps == 0
+        if subsaveat.t1 and subsaveat.steps != 0:
+            # If no steps were made then nothing was saved via `steps`.
+            t1_saved_via_steps = t1_saved_via_steps & (
+                final_state.num_accepted_steps > 0
+            )
         if event is None or event.root_finder is None:
             if type(t1_saved_via_steps) is bool:
                 t1_not_saved_via_steps = not t1_saved_via_steps
-- 
2.43.0


From 5afad72e8079e20ae459b7bd1ba06174f56fdaa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:12 +0000
Subject: [PATCH 10/32] fix: ConstantStepSize did not use dt0 for every step if
 it does not divide t1 - t0

---
 diffrax/_step_size_controller/constant.py | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/diffrax/_step_size_controller/constant.py b/diffrax/_step_size_controller/constant.py
index 0225286..e1d93e3 100644
--- a/diffrax/_step_size_controller/constant.py
+++ b/diffrax/_step_size_controller/constant.py
@@ -11,9 +11,9 @@ from .._term import AbstractTerm
 from .base import AbstractStepSizeController
 
 
-# ConstantStepSizeState = (steps_completed, num_steps, t0_sim, t1_sim_or_dt0)
+# ConstantStepSizeState = (steps_completed, num_steps, t0_sim, t1_sim_or_dt0, dt0)
 _ConstantStepSizeState = tuple[
-    IntScalarLike, IntScalarLike, RealScalarLike, RealScalarLike
+    IntScalarLike, IntScalarLike, RealScalarLike, RealScalarLike, RealScalarLike
 ]
 
 
@@ -52,7 +52,7 @@ class ConstantStepSize(
         # infinite.
         num_steps = jnp.where(jnp.isfinite(t1), num_steps, -1)
         t1_sim_or_dt0 = jnp.where(jnp.isfinite(t1), t1, dt0)
-        return t0 + dt0, (steps_completed, num_steps, t0, t1_sim_or_dt0)
+        return t0 + dt0, (steps_completed, num_steps, t0, t1_sim_or_dt0, dt0)
 
     def adapt_step_size(
         self,
@@ -73,17 +73,14 @@ class ConstantStepSize(
         RESULTS,
     ]:
         del t0, y0, y1_candidate, args, y_error, error_order
-        steps_already_completed, num_steps, t0_sim, t1_sim_or_dt0 = controller_state
+        steps_already_completed, num_steps, t0_sim, t1_sim_or_dt0, dt0 = controller_state
         # Number of steps that will be completed when this function returns.
         steps_completed = steps_already_completed + 1
 
-        # Calculate step size by calculating fraction of `t1 - t0` -- rather than just
-        # adding up `dt0` multiple times -- to avoid compounding of truncation/rounding
-        # errors.
-        time_dtype = jnp.result_type(t0_sim, t1_sim_or_dt0)
-        t1_next = t0_sim + (t1_sim_or_dt0 - t0_sim) * (
-            jnp.astype(steps_completed, time_dtype) / jnp.astype(num_steps, time_dtype)
-        )
+        # Calculate step size by multiplying `dt0` -- rather than just adding up `dt0`
+        # multiple times -- to avoid compounding of truncation/rounding errors.
+        time_dtype = jnp.result_type(t0_sim, dt0)
+        t1_next = t0_sim + dt0 * jnp.astype(steps_completed, time_dtype)
 
         # If we're on the final step then use `t1` directly, this time to avoid
         # floating-point weirdness in the above. (Not sure if necessary?)
@@ -99,7 +96,7 @@ class ConstantStepSize(
             t1,
             t1_next,
             False,
-            (steps_completed, num_steps, t0_sim, t1_sim_or_dt0),
+            (steps_completed, num_steps, t0_sim, t1_sim_or_dt0, dt0),
             RESULTS.successful,
         )
 
-- 
2.43.0


From be7560c919741e25595a1b8661d12134ed19d8f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:11 +0000
Subject: [PATCH 11/32] fix: resuming a fixed-step solve with controller_state
 used the previous solve's grid

---
 diffrax/_integrate.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/diffrax/_integrate.py b/diffrax/_integrate.py
index 0c1dc55..004d802 100644
--- a/diffrax/_integrate.py
+++ b/diffrax/_integrate.py
@@ -1303,7 +1303,13 @@ def diffeqsolve(
         )
     else:
         passed_controller_state = True
-        if dt0 is None:
+        if isinstance(stepsize_controller, (ConstantStepSize, StepTo)):
+            # Fixed step sizes: the state describes the grid of a single solve, so that
+            # of a previous solve must not be reused.
+            (tnext, controller_state) = stepsize_controller.init(
+                terms, t0, t1, y0, dt0, args, solver.func, error_order
+            )
+        elif dt0 is None:
             (tnext, _) = stepsize_controller.init(
                 terms, t0, t1, y0, dt0, args, solver.func, error_order
             )
-- 
2.43.0


From 8b4c97f56f7ec8046851e143999bb0483c8c8872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:05 +0000
Subject: [PATCH 12/32] fix: HalfSolver could not wrap implicit solvers, nor
 Runge-Kutta solvers with DirectAdjoint or ForwardMode

---
 diffrax/_solver/base.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/diffrax/_solver/base.py b/diffrax/_solver/base.py
index d4a476e..25c5d77 100644
--- a/diffrax/_solver/base.py
+++ b/diffrax/_solver/base.py
@@ -283,6 +283,21 @@ class HalfSolver(
     def term_compatible_contr_kwargs(self):
         return self.solver.term_compatible_contr_kwargs
 
+    # `isinstance(..., AbstractImplicitSolver)` and `isinstance(..., AbstractRungeKutta)`
+    # are forwarded on to the wrapped solver, so their attributes must be as well.
+
+    @property
+    def root_finder(self):
+        return self.solver.root_finder  # pyright: ignore
+
+    @property
+    def root_find_max_steps(self):
+        return self.solver.root_find_max_steps  # pyright: ignore
+
+    @property
+    def scan_kind(self):
+        return self.solver.scan_kind  # pyright: ignore
+
     def order(self, terms: PyTree[AbstractTerm]) -> int | None:
         return self.solver.order(terms)
 
-- 
2.43.0


From bb27fac8f455a2fad18ee16e603cc1d6bc2f86e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:32 +0000
Subject: [PATCH 13/32] fix: ItoMilstein failed on PyTree-valued noise with
 leaves of different shapes

---
 diffrax/_solver/milstein.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/diffrax/_solver/milstein.py b/diffrax/_solver/milstein.py
index 897bc9c..93b17be 100644
--- a/diffrax/_solver/milstein.py
+++ b/diffrax/_solver/milstein.py
@@ -233,6 +233,9 @@ class ItoMilstein(AbstractItoSolver):
         # We denote this quantity v0 in the code below.
         #
 
+        # `Δw` may be any PyTree, so check its leaves.
+        holomorphic = any(jnp.iscomplexobj(x) for x in leaves_Δw)
+
         def _to_vjp(_y0):
             # _y0 has structure (tree(y0), leaf(y0))
             _out = diffusion.vf(t0, _y0, args)
@@ -244,7 +247,7 @@ class ItoMilstein(AbstractItoSolver):
             _, _jvp = jax.jvp(_to_vjp, (y0,), (_g0,))
             # jvp has structure (tree(g0), leaf(g0))
             _jvp_matrix = jax.jacfwd(
-                lambda _Δw: diffusion.prod(_jvp, _Δw), holomorphic=jnp.iscomplexobj(Δw)
+                lambda _Δw: diffusion.prod(_jvp, _Δw), holomorphic=holomorphic
             )(Δw)
             # _jvp_matrix has structure (tree(y0), tree(Δw), leaf(y0), leaf(Δw))
             return _jvp_matrix
@@ -292,7 +295,7 @@ class ItoMilstein(AbstractItoSolver):
         # g0 has structure (tree(g0), leaf(g0))
         # Which we now transform into its isomorphic matrix form, as above.
         g0_matrix = jax.jacfwd(
-            lambda _Δw: diffusion.prod(g0, _Δw), holomorphic=jnp.iscomplexobj(Δw)
+            lambda _Δw: diffusion.prod(g0, _Δw), holomorphic=holomorphic
         )(Δw)
         # g0_matrix has structure (tree(y0), tree(Δw), leaf(y0), leaf(Δw))
         g0_matrix = jtu.tree_transpose(y_treedef, Δw_treedef, g0_matrix)
-- 
2.43.0


From 9464013fb6bfe2610ede53fe02af457c8c995a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:41 +0000
Subject: [PATCH 14/32] fix: batch element without an event finished at a
 rejected step if another element had an event

---
 diffrax/_integrate.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/diffrax/_integrate.py b/diffrax/_integrate.py
index 004d802..06f31df 100644
--- a/diffrax/_integrate.py
+++ b/diffrax/_integrate.py
@@ -806,6 +806,13 @@ def loop(
                 result,
                 RESULTS.promote(_event_root_find.result),
             )
+            # A batch element without an event finishes where its last accepted step
+            # did. (Which need not be `event_tnext`, if its last step was rejected.)
+            _tfinal = jnp.where(event_happened, _tfinal, final_state.tprev)
+            _yfinal = jtu.tree_map(
+                lambda x, y: jnp.where(event_happened, x, y), _yfinal, final_state.y
+            )
+            _result = RESULTS.where(event_happened, _result, result)
             return _tfinal, _yfinal, _result
 
         # Fastpath: if no event happened anywhere at all, then skip the root-find
-- 
2.43.0


From c2dcd54bbd262dbb057d2ea4a50d2d913fee4639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:09:58 +0000
Subject: [PATCH 15/32] fix: float32 event conditions with a root finder failed
 in 64-bit mode

---
 diffrax/_integrate.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/diffrax/_integrate.py b/diffrax/_integrate.py
index 06f31df..96ab96a 100644
--- a/diffrax/_integrate.py
+++ b/diffrax/_integrate.py
@@ -768,7 +768,12 @@ def loop(
                     # We allow this `lax.cond` to be inefficiently transformed into a
                     # `lax.select` when `_event_mask_i` is batched. There isn't any way
                     # to avoid this, I think.
-                    _value = lax.cond(_event_mask_i, _call_real_impl, lambda: 0.0)
+                    _struct = jax.eval_shape(_call_real_impl)
+                    _value = lax.cond(
+                        _event_mask_i,
+                        _call_real_impl,
+                        lambda: jnp.zeros(_struct.shape, _struct.dtype),
+                    )
 
                     # Third: if no events triggered at all, then have the root occur at
                     # the end of the last step (which will be the `t1` of the overall
-- 
2.43.0


From c76ae487eb23e04846843237f213a1224de7bebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:23 +0000
Subject: [PATCH 16/32] fix: bracketing root finders failed for boolean events
 and for batch elements without an event

---
 diffrax/_integrate.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/diffrax/_integrate.py b/diffrax/_integrate.py
index 96ab96a..0b10914 100644
--- a/diffrax/_integrate.py
+++ b/diffrax/_integrate.py
@@ -732,7 +732,8 @@ def loop(
             )
 
             def _to_root_find(_t, _):
-                _distance_from_t_end = final_state.event_tnext - _t
+                # Negative inside the step, so that bracketing root finders can be used.
+                _distance_from_t_end = _t - final_state.event_tnext
 
                 def _call_real(_event_mask_i, _cond_fn_i):
                     def _call_real_impl():
-- 
2.43.0


From 0a806fbe761d9ef5a8231b6afc4e0d460ff81cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:10 +0000
Subject: [PATCH 17/32] fix: event with a root finder at the start of a solve
 saved a spurious step

---
 diffrax/_integrate.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/diffrax/_integrate.py b/diffrax/_integrate.py
index 0b10914..ede8b3f 100644
--- a/diffrax/_integrate.py
+++ b/diffrax/_integrate.py
@@ -894,12 +894,13 @@ def loop(
             # We might be saving the final value via `steps`,
             # so we might need to save it via `t1`.
             t1_saved_via_steps = final_state.num_accepted_steps % subsaveat.steps == 0
-        if subsaveat.t1 and subsaveat.steps != 0:
+        root_find_event = event is not None and event.root_finder is not None
+        if (subsaveat.t1 or root_find_event) and subsaveat.steps != 0:
             # If no steps were made then nothing was saved via `steps`.
             t1_saved_via_steps = t1_saved_via_steps & (
                 final_state.num_accepted_steps > 0
             )
-        if event is None or event.root_finder is None:
+        if not root_find_event:
             if type(t1_saved_via_steps) is bool:
                 t1_not_saved_via_steps = not t1_saved_via_steps
             else:
@@ -914,9 +915,7 @@ def loop(
                 # ...except if it wasn't deleted, because the event occurred at the
                 # very end of the step (or did not occur at all).
                 pred = pred & jnp.invert(
-                    t1_saved_via_steps
-                    & (final_state.num_accepted_steps > 0)
-                    & (final_state.tprev <= tfinal)
+                    t1_saved_via_steps & (final_state.tprev <= tfinal)
                 )
         if pred is not False:
             save_state = _save(
-- 
2.43.0


From b1dddd5a81e982ea82cfd0d2e563611b7df5612e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:55 +0000
Subject: [PATCH 18/32] fix: backward Hermite replace_nans_at_start overwrote
 an observed first value

---
 diffrax/_global_interpolation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diffrax/_global_interpolation.py b/diffrax/_global_interpolation.py
index c0fb44b..4d81c35 100644
--- a/diffrax/_global_interpolation.py
+++ b/diffrax/_global_interpolation.py
@@ -697,7 +697,7 @@ def _backward_hermite_coefficients(
     if replace_nans_at_start is None:
         y0 = ys[0]
     else:
-        y0 = jnp.broadcast_to(replace_nans_at_start, ys[0].shape)
+        y0 = jnp.where(jnp.isnan(ys[0]), replace_nans_at_start, ys[0])
     if deriv0 is None:
         with jax.numpy_dtype_promotion("standard"):
             deriv0 = (next_ys[0] - y0) / (next_ts[0] - t0)
-- 
2.43.0


From c1049e373b6aa8b80bb2476422faf9f73c86be74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:55 +0000
Subject: [PATCH 19/32] fix: backward Hermite splines over missing data are the
 cubic between the observations

---
 diffrax/_global_interpolation.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/diffrax/_global_interpolation.py b/diffrax/_global_interpolation.py
index 4d81c35..90d9888 100644
--- a/diffrax/_global_interpolation.py
+++ b/diffrax/_global_interpolation.py
@@ -663,13 +663,14 @@ def _hermite_coeffs(t0, y0, deriv0, t1, y1):
 
 def _hermite_impl(prev_ti, prev_yi, prev_deriv_i, ti, next_ti, next_yi):
     d, c, b, a = _hermite_coeffs(prev_ti, prev_yi, prev_deriv_i, next_ti, next_yi)
-    ts = jnp.stack([prev_ti, next_ti])
-    interpolation = CubicInterpolation(
-        ts=ts, coeffs=(d[None], c[None], b[None], a[None])
-    )
-    interp_yi = interpolation.evaluate(ti)
-    interp_deriv_i = interpolation.derivative(ti)
-    return _hermite_coeffs(ti, interp_yi, interp_deriv_i, next_ti, next_yi)
+    # Missing data does not change the spline: this is the cubic between the previous
+    # and next observations, re-expanded around `ti`.
+    x = ti - prev_ti
+    with jax.numpy_dtype_promotion("standard"):
+        new_a = a + x * (b + x * (c + x * d))
+        new_b = b + x * (2 * c + x * 3 * d)
+        new_c = c + x * 3 * d
+    return d, new_c, new_b, new_a
 
 
 def _backward_hermite_coefficients(
-- 
2.43.0


From e6c6b433539996db0a34a00122253d6f14277eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:55 +0000
Subject: [PATCH 20/32] fix: backward Hermite fill_forward_nans_at_end fills
 before fitting the spline

---
 diffrax/_global_interpolation.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/diffrax/_global_interpolation.py b/diffrax/_global_interpolation.py
index 90d9888..d97fe96 100644
--- a/diffrax/_global_interpolation.py
+++ b/diffrax/_global_interpolation.py
@@ -687,13 +687,15 @@ def _backward_hermite_coefficients(
 ]:
     ts = left_broadcast_to(ts, ys.shape)
 
+    if fill_forward_nans_at_end:
+        # Those `NaN`s with no observation after them.
+        at_end = lax.cummin(jnp.isnan(ys).astype(int), axis=0, reverse=True) == 1
+        ys = jnp.where(at_end, fill_forward(ys), ys)
+
     _, (next_ts, next_ys) = lax.scan(
         _interpolation_reverse, (ts[-1], ys[-1]), (ts[1:], ys[1:]), reverse=True
     )
 
-    if fill_forward_nans_at_end:
-        next_ys = fill_forward(next_ys)
-
     t0 = ts[0]
     if replace_nans_at_start is None:
         y0 = ys[0]
-- 
2.43.0


From 8993e8044fc08606dd08e6a0675c35ad6428b74b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:55 +0000
Subject: [PATCH 21/32] fix: interpolation routines reject NaN times

---
 diffrax/_global_interpolation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diffrax/_global_interpolation.py b/diffrax/_global_interpolation.py
index d97fe96..e788837 100644
--- a/diffrax/_global_interpolation.py
+++ b/diffrax/_global_interpolation.py
@@ -411,7 +411,7 @@ def _check_ts(ts: Real[Array, " times"]) -> Real[Array, " times"]:
         raise ValueError(f"`ts` must be of length at least 2; got {ts.shape[0]}")
     # Also catches any NaN times.
     ts = eqxi.error_if(
-        ts, ts[:-1] >= ts[1:], "`ts` must be monotonically strictly increasing."
+        ts, ~(ts[:-1] < ts[1:]), "`ts` must be monotonically strictly increasing."
     )
     return ts
 
-- 
2.43.0


From 8019b5ac2a2493fa01b46ad4030a4e5bacf5d69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:57 +0000
Subject: [PATCH 22/32] fix: FSAL stages of a batch element were recomputed
 because of its neighbours

---
 diffrax/_solver/runge_kutta.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/diffrax/_solver/runge_kutta.py b/diffrax/_solver/runge_kutta.py
index 9473ab4..6e32790 100644
--- a/diffrax/_solver/runge_kutta.py
+++ b/diffrax/_solver/runge_kutta.py
@@ -685,6 +685,10 @@ class AbstractRungeKutta(AbstractAdaptiveSolver[_SolverState]):
             assert solver_state is not None
             first_step, f0 = solver_state
             eval_first_stage = eqxi.unvmap_any(first_step | made_jump)
+            # If `vmap`'d then our stored value may be valid, even though some other
+            # batch element is making us evaluate the first stage.
+            keep_fsal = jnp.invert(first_step | made_jump)
+            f0_fsal = f0
             init_stage_index = jnp.where(eval_first_stage, 0, 1)
             # We do `fs.at[0].set(f0)` below. If we're actually going to evaluate the
             # first stage, then zero out `f0` so that that is a no-op.
@@ -1025,6 +1029,12 @@ class AbstractRungeKutta(AbstractAdaptiveSolver[_SolverState]):
                 assert not vf_expensive
                 assert implicit_fi is not _unused
                 fi = vf(ti, yi, implicit_val=implicit_fi)
+                if fsal:
+                    if_keep_fsal = ft.partial(
+                        jnp.where,
+                        (stage_index == 0) & keep_fsal,  # pyright: ignore
+                    )
+                    fi = f_map(if_keep_fsal, f0_fsal, fi)  # pyright: ignore
                 if store_fs:
                     ki = _unused
                 else:
-- 
2.43.0


From b9abd6e43a82f6b1017904a4dcfc1cfce069ae75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:58 +0000
Subject: [PATCH 23/32] fix: VeryChord reported divergence when its updates
 were only rounding error

---
 diffrax/_root_finder/_verychord.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/diffrax/_root_finder/_verychord.py b/diffrax/_root_finder/_verychord.py
index 385a2cb..776767c 100644
--- a/diffrax/_root_finder/_verychord.py
+++ b/diffrax/_root_finder/_verychord.py
@@ -152,12 +152,17 @@ class VeryChord(optx.AbstractRootFinder):
         state: _VeryChordState,
         tags: frozenset[object],
     ):
-        del fn, y, args, options, tags
+        del fn, args, options, tags
+        with jax.numpy_dtype_promotion("standard"):
+            scale = (self.atol + self.rtol * ω(y).call(jnp.abs)).ω
+            ysize = self.norm((y**ω / scale**ω).ω)
         # TODO(kidger): perform only one iteration when solving a linear system!
         at_least_two = state.step >= 2
         rate = state.diffsize / state.diffsize_prev
         factor = state.diffsize * rate / (1 - rate)
-        small = _small(state.diffsize)
+        # Once `diff` is no more than the rounding error of `y` then its rate of change
+        # is meaningless.
+        small = _small(state.diffsize / jnp.maximum(ysize, 1))
         diverged = _diverged(rate)
         converged = _converged(factor, self.kappa)
         terminate = at_least_two & (small | diverged | converged)
-- 
2.43.0


From dea66d525c613ad3e3563d4127ebdf981fd16c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:41 +0000
Subject: [PATCH 24/32] fix: an infinite candidate made the step size NaN

---
 diffrax/_step_size_controller/pid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/diffrax/_step_size_controller/pid.py b/diffrax/_step_size_controller/pid.py
index 752b9be..ef99b10 100644
--- a/diffrax/_step_size_controller/pid.py
+++ b/diffrax/_step_size_controller/pid.py
@@ -483,8 +483,8 @@ class PIDController(
         def _scale(_y0, _y1_candidate, _y_error):
             # In case the solver steps into a region for which the vector field isn't
             # defined.
-            _nan = jnp.isnan(_y1_candidate).any()
-            _y1_candidate = jnp.where(_nan, _y0, _y1_candidate)
+            _bad = jnp.logical_not(jnp.isfinite(_y1_candidate).all())
+            _y1_candidate = jnp.where(_bad, _y0, _y1_candidate)
             _y = jnp.maximum(jnp.abs(_y0), jnp.abs(_y1_candidate))
             with jax.numpy_dtype_promotion("standard"):
                 return _y_error / (self.atol + _y * self.rtol)
-- 
2.43.0


From 5215dcd282625cebc78d69af70125cf2d1395c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:19 +0000
Subject: [PATCH 25/32] fix: NaN save times and step times were accepted

---
 diffrax/_integrate.py                     | 4 ++--
 diffrax/_step_size_controller/constant.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/diffrax/_integrate.py b/diffrax/_integrate.py
index ede8b3f..eaff42e 100644
--- a/diffrax/_integrate.py
+++ b/diffrax/_integrate.py
@@ -1281,12 +1281,12 @@ def diffeqsolve(
     def _check_subsaveat_ts(ts):
         ts = eqxi.error_if(
             ts,
-            ts[1:] < ts[:-1],
+            ~(ts[1:] >= ts[:-1]),
             "saveat.ts must be increasing or decreasing.",
         )
         ts = eqxi.error_if(
             ts,
-            (ts > t1) | (ts < t0),
+            ~((ts >= t0) & (ts <= t1)),
             "saveat.ts must lie between t0 and t1.",
         )
         return ts
diff --git a/diffrax/_step_size_controller/constant.py b/diffrax/_step_size_controller/constant.py
index e1d93e3..27ea224 100644
--- a/diffrax/_step_size_controller/constant.py
+++ b/diffrax/_step_size_controller/constant.py
@@ -123,7 +123,7 @@ class StepTo(AbstractStepSizeController[IntScalarLike, None]):
         # Only tested after we've set the direction.
         ts = eqxi.error_if(
             ts,
-            ts[1:] <= ts[:-1],
+            ~(ts[1:] > ts[:-1]),
             "`StepTo(ts=...)` must be strictly increasing (or strictly decreasing if "
             "t0 > t1).",
         )
-- 
2.43.0


From 08d7001a09b3f64862f99a08cb456edb78292d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:19 +0000
Subject: [PATCH 26/32] fix: Langevin coefficients were stale for very small
 time units

---
 diffrax/_solver/foster_langevin_srk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diffrax/_solver/foster_langevin_srk.py b/diffrax/_solver/foster_langevin_srk.py
index ea1026f..7295f5b 100644
--- a/diffrax/_solver/foster_langevin_srk.py
+++ b/diffrax/_solver/foster_langevin_srk.py
@@ -388,7 +388,7 @@ class AbstractFosterLangevinSRK(
         # If h changed, recompute coefficients
         # Even when using constant step sizes, h can fluctuate by small amounts,
         # so we use `jnp.isclose` for comparison
-        cond = jnp.isclose(h_prev, h, rtol=1e-10, atol=1e-12)
+        cond = jnp.isclose(h_prev, h, rtol=1e-10, atol=0)
         coeffs = lax.cond(
             eqxi.unvmap_all(cond),
             lambda: old_coeffs,
-- 
2.43.0


From 269438b2c413c54c936fca0764d17bbc40a42a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:19 +0000
Subject: [PATCH 27/32] fix: QUICSORT crashed with a traced made_jump

---
 diffrax/_solver/foster_langevin_srk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diffrax/_solver/foster_langevin_srk.py b/diffrax/_solver/foster_langevin_srk.py
index 7295f5b..0569bfa 100644
--- a/diffrax/_solver/foster_langevin_srk.py
+++ b/diffrax/_solver/foster_langevin_srk.py
@@ -404,7 +404,7 @@ class AbstractFosterLangevinSRK(
             )
 
         x0, v0 = y0
-        if made_jump is False:
+        if made_jump is False or not self._is_fsal:
             prev_f = st.prev_f
         else:
             prev_f = lax.cond(
-- 
2.43.0


From dac695e7beff39f851ec0cb08bfcb8acb296dc24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:19 +0000
Subject: [PATCH 28/32] fix: VeryChord reported divergence when its updates
 were far below tolerance

---
 diffrax/_root_finder/_verychord.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/diffrax/_root_finder/_verychord.py b/diffrax/_root_finder/_verychord.py
index 776767c..b1fbc90 100644
--- a/diffrax/_root_finder/_verychord.py
+++ b/diffrax/_root_finder/_verychord.py
@@ -160,9 +160,10 @@ class VeryChord(optx.AbstractRootFinder):
         at_least_two = state.step >= 2
         rate = state.diffsize / state.diffsize_prev
         factor = state.diffsize * rate / (1 - rate)
-        # Once `diff` is no more than the rounding error of `y` then its rate of change
-        # is meaningless.
-        small = _small(state.diffsize / jnp.maximum(ysize, 1))
+        # Once `diff` is no more than the rounding error of `y`, or is far below the
+        # tolerance twice in a row, then its rate of change is meaningless.
+        negligible = jnp.maximum(state.diffsize, state.diffsize_prev) < 0.1 * self.kappa
+        small = _small(state.diffsize / jnp.maximum(ysize, 1)) | negligible
         diverged = _diverged(rate)
         converged = _converged(factor, self.kappa)
         terminate = at_least_two & (small | diverged | converged)
-- 
2.43.0


From 48da008bd5f62f80c9c71b4e57bcb64bbbefef1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:19 +0000
Subject: [PATCH 29/32] fix: gradients with respect to times failed with a
 progress meter

---
 diffrax/_integrate.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/diffrax/_integrate.py b/diffrax/_integrate.py
index eaff42e..efb9f87 100644
--- a/diffrax/_integrate.py
+++ b/diffrax/_integrate.py
@@ -435,9 +435,9 @@ def loop(
         tprev = jnp.minimum(tprev, t1)
         tnext = _clip_to_end(tprev, tnext, t1, t1_clip_floor, keep_step)
 
-        progress_meter_state = progress_meter.step(
-            state.progress_meter_state, linear_rescale(t0, tprev, t1)
-        )
+        # Only for display, and the callbacks of the meters cannot be differentiated.
+        progress = lax.stop_gradient(linear_rescale(t0, tprev, t1))
+        progress_meter_state = progress_meter.step(state.progress_meter_state, progress)
 
         # The other parts of the mutable state are kept/not-kept (based on whether the
         # step was accepted) by the stepsize controller. But it doesn't get access to
-- 
2.43.0


From 2d9576033ef7a9a346f3a377ec880ef135303606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:19 +0000
Subject: [PATCH 30/32] fix: TextProgressMeter failed for float32 times under
 x64

---
 diffrax/_progress_meter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/diffrax/_progress_meter.py b/diffrax/_progress_meter.py
index 9282303..461928d 100644
--- a/diffrax/_progress_meter.py
+++ b/diffrax/_progress_meter.py
@@ -132,6 +132,9 @@ class TextProgressMeter(AbstractProgressMeter):
     def step(
         self, state: _TextProgressMeterState, progress: FloatScalarLike
     ) -> _TextProgressMeterState:
+        # The dtype of `progress` is that of the times of the solve.
+        progress = jnp.asarray(progress, dtype=jnp.result_type(state.progress))
+
         # When `diffeqsolve(..., t0=..., t1=...)` are batched, then both
         # `state.progress` and `progress` will pick up a batch tracer.
         # (For the former, because the condition for the while-loop-over-steps becomes
-- 
2.43.0


From 16af1860245583764d57d3a2ec88a8804a2170fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:48 +0000
Subject: [PATCH 31/32] fix: dt0=None always started with a step of 0.01

The starting-step algorithm of PIDController is skipped unless the terms are
an ODETerm, but diffeqsolve passes them wrapped in a WrapTerm.
---
 diffrax/_step_size_controller/pid.py | 33 ++++++++++++++++++----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/diffrax/_step_size_controller/pid.py b/diffrax/_step_size_controller/pid.py
index ef99b10..90934d2 100644
--- a/diffrax/_step_size_controller/pid.py
+++ b/diffrax/_step_size_controller/pid.py
@@ -22,7 +22,7 @@ from .._custom_types import (
     Y,
 )
 from .._solution import RESULTS
-from .._term import AbstractTerm, ODETerm
+from .._term import AbstractTerm, ODETerm, WrapTerm
 from .base import AbstractAdaptiveStepSizeController
 from .clip import ClipStepSizeController
 
@@ -44,9 +44,17 @@ def _select_initial_step(
     atol: RealScalarLike,
     norm: Callable[[PyTree], RealScalarLike],
 ) -> RealScalarLike:
+    # `diffeqsolve` wraps its terms, so as to normalise the direction of time.
+    if isinstance(terms, WrapTerm):
+        is_ode = isinstance(terms.term, ODETerm)
+        direction = terms.direction
+    else:
+        is_ode = isinstance(terms, ODETerm)
+        direction = 1
     # TODO: someone needs to figure out an initial step size algorithm for SDEs.
-    if not isinstance(terms, ODETerm):
+    if not is_ode:
         return 0.01
+    t_dtype = jnp.result_type(t0)
 
     def fn(carry):
         t, y, _h0, _d1, _f, _ = carry
@@ -55,13 +63,14 @@ def _select_initial_step(
 
     def intermediate(carry):
         _, _, _, _, _, f0 = carry
-        d0 = norm((y0**ω / scale**ω).ω)
-        d1 = norm((f0**ω / scale**ω).ω)
-        _cond = (d0 < 1e-5) | (d1 < 1e-5)
-        _d1 = jnp.where(_cond, 1, d1)
-        h0 = jnp.where(_cond, 1e-6, 0.01 * (d0 / _d1))
-        t1 = t0 + h0
-        y1 = (y0**ω + h0 * f0**ω).ω
+        with jax.numpy_dtype_promotion("standard"):
+            d0 = norm((y0**ω / scale**ω).ω)
+            d1 = norm((f0**ω / scale**ω).ω)
+            _cond = (d0 < 1e-5) | (d1 < 1e-5)
+            _d1 = jnp.where(_cond, 1, d1)
+            h0 = jnp.where(_cond, 1e-6, 0.01 * (d0 / _d1)).astype(t_dtype)
+            t1 = t0 + h0
+            y1 = (y0**ω + direction * h0 * f0**ω).ω
         return t1, y1, h0, d1, f0, f0
 
     scale = (atol + ω(y0).call(jnp.abs) * rtol).ω
@@ -71,14 +80,16 @@ def _select_initial_step(
     _, _, h0, d1, f0, f1 = eqxi.scan_trick(
         fn, [intermediate], (t0, y0, dummy_h, dummy_d, dummy_f, dummy_f)
     )
-    d2 = norm(((f1**ω - f0**ω) / scale**ω).ω) / h0
+    with jax.numpy_dtype_promotion("standard"):
+        d2 = norm(((f1**ω - f0**ω) / scale**ω).ω) / h0
     max_d = jnp.maximum(d1, d2)
     h1 = jnp.where(
         max_d <= 1e-15,
         jnp.maximum(1e-6, h0 * 1e-3),
         (0.01 / max_d) ** (1 / error_order),
     )
-    return jnp.minimum(100 * h0, h1)
+    dt0 = jnp.minimum(100 * h0, h1).astype(t_dtype)
+    return jnp.where(jnp.isfinite(dt0), dt0, 0.01)
 
 
 # _PidState = (prev_inv_scaled_error, prev_prev_inv_scaled_error, at_dtmin)
-- 
2.43.0


From 9a2446bd0cf8572799b586a90fb44611be09069f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:46 +0000
Subject: [PATCH 32/32] fix: the deprecated tuple spelling of drift and
 diffusion was always rejected

The backward-compatible branch checked the tuple of terms against y0, whose
structure can only match by accident, so EulerHeun and the Milstein solvers
raised TermAndSolverIncompatible instead of warning and converting.
---
 diffrax/_integrate.py | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/diffrax/_integrate.py b/diffrax/_integrate.py
index efb9f87..3120a60 100644
--- a/diffrax/_integrate.py
+++ b/diffrax/_integrate.py
@@ -1150,18 +1150,12 @@ def diffeqsolve(
 
     # Backward compatibility
     if isinstance(solver, (EulerHeun, ItoMilstein, StratonovichMilstein)):
-        try:
-            _assert_term_compatible(
-                t0,
-                y0,
-                args,
-                terms,
-                (ODETerm, AbstractTerm),
-                solver.term_compatible_contr_kwargs,
-            )
-        except Exception as _:
-            pass
-        else:
+        if (
+            type(terms) is tuple
+            and len(terms) == 2
+            and isinstance(terms[0], ODETerm)
+            and isinstance(terms[1], AbstractTerm)
+        ):
             warnings.warn(
                 "Passing `terms=(ODETerm(...), SomeOtherTerm(...))` to "
                 f"{solver.__class__.__name__} is deprecated in favour of "
-- 
2.43.0


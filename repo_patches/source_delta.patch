From 009e8dac976a680202192e2c44bce1bd96e5d70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:01 +0000
Subject: [PATCH 01/22] fix: an event triggering on a failed step no longer
 hides the failure

If the solver or the step size controller reported an error on a step, and an
event triggered at the end of that same step, then the error was overwritten
with `RESULTS.event_occurred`, which counts as a success.
---
 diffrax/_integrate.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/diffrax/_integrate.py b/diffrax/_integrate.py
index 8241fa9..74d7ffb 100644
--- a/diffrax/_integrate.py
+++ b/diffrax/_integrate.py
@@ -623,6 +623,8 @@ def loop(
             had_event = False
             event_mask_leaves = []
             for event_mask_i in jtu.tree_leaves(event_mask):
+                # An event must not hide the fact that this step failed.
+                event_mask_i = event_mask_i & is_okay(result)
                 event_mask_leaves.append(event_mask_i & jnp.invert(had_event))
                 had_event = event_mask_i | had_event
             event_mask = jtu.tree_unflatten(event_structure, event_mask_leaves)
-- 
2.43.0


From 8ce9d95adb2f55aa3ccf515bd5bafa79fc5835d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:01 +0000
Subject: [PATCH 02/22] fix: do not negate space-time Levy area when solving
 backwards in time

Under time reversal the Brownian increment W and the space-time-time Levy area K
change sign, but the space-time Levy area H does not. Negating it made the areas
used on neighbouring steps inconsistent with a single Brownian path, which
degraded the strong order of e.g. ShARK from 1.5 to less than 1.
---
 diffrax/_term.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/diffrax/_term.py b/diffrax/_term.py
index 9b0c031..07315db 100644
--- a/diffrax/_term.py
+++ b/diffrax/_term.py
@@ -17,6 +17,7 @@ from jaxtyping import Array, ArrayLike, PyTree, Shaped
 from ._brownian import AbstractBrownianPath
 from ._custom_types import (
     AbstractBrownianIncrement,
+    AbstractSpaceTimeLevyArea,
     Args,
     Control,
     IntScalarLike,
@@ -742,7 +743,13 @@ class WrapTerm(AbstractTerm[_VF, _Control]):
     def contr(self, t0: RealScalarLike, t1: RealScalarLike, **kwargs) -> _Control:
         _t0 = jnp.where(self.direction == 1, t0, -t1)
         _t1 = jnp.where(self.direction == 1, t1, -t0)
-        return (self.direction * self.term.contr(_t0, _t1, **kwargs) ** ω).ω
+        control = self.term.contr(_t0, _t1, **kwargs)
+        out = (self.direction * control**ω).ω
+        if isinstance(control, AbstractSpaceTimeLevyArea):
+            # Reversing time negates the increment W and the space-time-time Lévy area
+            # K, but leaves the space-time Lévy area H unchanged.
+            out = eqx.tree_at(lambda c: c.H, out, control.H)
+        return out
 
     def prod(self, vf: _VF, control: _Control) -> Y:
         with jax.numpy_dtype_promotion("standard"):
-- 
2.43.0


From 9c6bfadb3d1c5807a8b38a519ed0bc72e0065cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:01 +0000
Subject: [PATCH 03/22] fix: batch elements without an event are not affected
 by those with one

When `vmap`ing a solve using an event with a root finder, then as soon as any
batch element had an event then every batch element took its final value from
interpolating its most recent step. If that step was rejected (e.g. we ran out of
`max_steps`) then the final time and value of a rejected step were returned.
---
 diffrax/_integrate.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/diffrax/_integrate.py b/diffrax/_integrate.py
index 74d7ffb..b36cb32 100644
--- a/diffrax/_integrate.py
+++ b/diffrax/_integrate.py
@@ -779,6 +779,12 @@ def loop(
                 lambda: final_state.y,
                 lambda: _interpolator.evaluate(_tfinal),
             )
+            # Batch elements without an event must not be affected by those with one.
+            # (In particular the most recent step may have been rejected.)
+            _tfinal = jnp.where(event_happened, _tfinal, final_state.tprev)
+            _yfinal = jtu.tree_map(
+                lambda a, b: jnp.where(event_happened, a, b), _yfinal, final_state.y
+            )
             _result = RESULTS.where(
                 _event_root_find.result == optx.RESULTS.successful,
                 result,
-- 
2.43.0


From f025fc1a678fc9f0b883e23561d761f1610c330e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:01 +0000
Subject: [PATCH 04/22] fix: pad `ts` with +inf after an event when solving
 backwards in time

Entries of `SaveAt(ts=...)` beyond the time of an event were filled with -inf when
solving backwards in time, instead of the +inf used for all other unused entries.
---
 diffrax/_integrate.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/diffrax/_integrate.py b/diffrax/_integrate.py
index b36cb32..3da6325 100644
--- a/diffrax/_integrate.py
+++ b/diffrax/_integrate.py
@@ -1301,7 +1301,7 @@ def diffeqsolve(
             out_size += 1
         saveat_ts_index = 0
         save_index = 0
-        ts = jnp.full(out_size, direction * jnp.inf, dtype=time_dtype)
+        ts = jnp.full(out_size, jnp.inf, dtype=time_dtype)
         struct = eqx.filter_eval_shape(subsaveat.fn, t0, y0, args)
         ys = jtu.tree_map(
             lambda y: jnp.full((out_size,) + y.shape, jnp.inf, dtype=y.dtype), struct
@@ -1485,8 +1485,11 @@ def diffeqsolve(
 
     progress_meter.close(final_state.progress_meter_state)
     is_save_state = lambda x: isinstance(x, SaveState)
+    # Unused entries are always padded with +inf, whatever the direction of time.
     ts = jtu.tree_map(
-        lambda s: s.ts * direction, final_state.save_state, is_leaf=is_save_state
+        lambda s: jnp.where(s.ts == jnp.inf, s.ts, s.ts * direction),
+        final_state.save_state,
+        is_leaf=is_save_state,
     )
     ys = jtu.tree_map(lambda s: s.ys, final_state.save_state, is_leaf=is_save_state)
 
-- 
2.43.0


From 330cae5971018c400e724ae8bdcf808d3db84d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:01 +0000
Subject: [PATCH 05/22] fix: save the final value exactly once with
 `SaveAt(steps=...)`

- Using an event with a root finder, and having the event not trigger (or trigger
  exactly at the end of a step), saved the final value twice.
- Using `SaveAt(steps=..., t1=True)` and not making any steps (`t0 == t1`, or an
  event that is true from the start) never saved the final value.
---
 diffrax/_integrate.py | 33 +++++++++++++++------------------
 1 file changed, 15 insertions(+), 18 deletions(-)

diff --git a/diffrax/_integrate.py b/diffrax/_integrate.py
index 3da6325..87858b7 100644
--- a/diffrax/_integrate.py
+++ b/diffrax/_integrate.py
@@ -856,26 +856,22 @@ def loop(
         if subsaveat.steps == 0:
             # We're not saving the final value via `steps`,
             # so we might need to save it via `t1`.
-            t1_saved_via_steps = False
-        elif subsaveat.steps == 1:
-            # We're definitely saving the final value via `steps`,
-            # so we can skip saving it via `t1`.
-            t1_saved_via_steps = True
+            pred = subsaveat.t1
         else:
-            # We might be saving the final value via `steps`,
-            # so we might need to save it via `t1`.
-            t1_saved_via_steps = final_state.num_accepted_steps % subsaveat.steps == 0
-        if event is None or event.root_finder is None:
-            if type(t1_saved_via_steps) is bool:
-                t1_not_saved_via_steps = not t1_saved_via_steps
+            # We might have saved the final value via `steps`. (But not if we didn't
+            # make any steps at all, e.g. `t0 == t1`.)
+            saved_via_steps = (final_state.num_accepted_steps > 0) & (
+                final_state.num_accepted_steps % subsaveat.steps == 0
+            )
+            if subsaveat.t1:
+                pred = jnp.logical_not(saved_via_steps)
             else:
-                t1_not_saved_via_steps = jnp.logical_not(t1_saved_via_steps)
-            pred = subsaveat.t1 & t1_not_saved_via_steps
-        else:
-            # If we're using an event with a root finder, and are saving steps,
-            # then we need to write the final value here because we deleted the
-            # last value after the event time above.
-            pred = subsaveat.t1 | t1_saved_via_steps
+                pred = False
+            if event is not None and event.root_finder is not None:
+                # If we're using an event with a root finder, and are saving steps,
+                # then we need to write the final value here if we deleted the last
+                # value after the event time above.
+                pred = pred | (saved_via_steps & (final_state.tprev > tfinal))
         if pred is not False:
             save_state = _save(
                 tfinal, yfinal, args, subsaveat.fn, save_state, repeat=1, pred=pred
@@ -1297,6 +1293,7 @@ def diffeqsolve(
             (max_steps is None)
             or (subsaveat.steps == 0)
             or (max_steps % subsaveat.steps != 0)
+            or (max_steps == 0)
         ):
             out_size += 1
         saveat_ts_index = 0
-- 
2.43.0


From afb84f9d2b28775b1708b07e5a3653fac06f54e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:14 +0000
Subject: [PATCH 06/22] fix: event condition functions see the user's time when
 solving backwards in time

When solving with t1 < t0, `Event(cond_fn)` was called with `-t` (and `-t0`, `-t1`,
`-dt0`, together with terms defined in negated time) instead of the times that were
passed to `diffeqsolve`. This matches what is already done for `SaveAt(fn=...)`.
---
 diffrax/_integrate.py | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/diffrax/_integrate.py b/diffrax/_integrate.py
index 87858b7..a13bd2c 100644
--- a/diffrax/_integrate.py
+++ b/diffrax/_integrate.py
@@ -118,6 +118,27 @@ class TermAndSolverIncompatible(ValueError):
     pass
 
 
+class _DirectionCondFn(eqx.Module):
+    # `cond_fn` should see the same times and terms as the user passed to
+    # `diffeqsolve`, and not those normalised to have `t0 < t1`.
+    cond_fn: Callable
+    direction: IntScalarLike
+
+    def __call__(self, t, y, args, *, terms, t0, t1, dt0, **kwargs):
+        return self.cond_fn(
+            t * self.direction,
+            y,
+            args,
+            terms=jtu.tree_map(
+                lambda x: x.term, terms, is_leaf=lambda x: isinstance(x, WrapTerm)
+            ),
+            t0=t0 * self.direction,
+            t1=t1 * self.direction,
+            dt0=None if dt0 is None else dt0 * self.direction,
+            **kwargs,
+        )
+
+
 def _assert_term_compatible(
     t: FloatScalarLike,
     y: PyTree[ArrayLike],
@@ -1250,6 +1271,15 @@ def diffeqsolve(
 
     saveat = jtu.tree_map(_subsaveat_direction_fn, saveat, is_leaf=_is_subsaveat)
 
+    if event is not None:
+        event = eqx.tree_at(
+            lambda e: e.cond_fn,
+            event,
+            jtu.tree_map(
+                lambda c: _DirectionCondFn(c, direction), event.cond_fn, is_leaf=callable
+            ),
+        )
+
     # Initialise states
     tprev = t0
     error_order = solver.error_order(terms)
-- 
2.43.0


From 5bf000894c157f0c99ec527e395d10915d6452c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:36 +0000
Subject: [PATCH 07/22] fix: DirectAdjoint and ForwardMode support wrapped
 solvers such as HalfSolver

---
 diffrax/_adjoint.py | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/diffrax/_adjoint.py b/diffrax/_adjoint.py
index 7bc081b..de6adc7 100644
--- a/diffrax/_adjoint.py
+++ b/diffrax/_adjoint.py
@@ -21,6 +21,7 @@ from ._solver import (
     AbstractRungeKutta,
     AbstractSRK,
     AbstractStratonovichSolver,
+    AbstractWrappedSolver,
 )
 from ._term import AbstractTerm, AdjointTerm
 
@@ -32,6 +33,21 @@ def _is_none(x):
     return x is None
 
 
+def _set_scan_kind(solver, scan_kind):
+    # `isinstance` checks are forwarded on to the wrapped solver, but attribute access is
+    # not, so wrapped solvers must be checked for first.
+    if isinstance(solver, AbstractWrappedSolver):
+        wrapped = _set_scan_kind(solver.solver, scan_kind)
+        if wrapped is not solver.solver:
+            solver = eqx.tree_at(lambda s: s.solver, solver, wrapped)
+    elif (
+        isinstance(solver, (AbstractRungeKutta, AbstractSRK))
+        and solver.scan_kind is None
+    ):
+        solver = eqx.tree_at(lambda s: s.scan_kind, solver, scan_kind, is_leaf=_is_none)
+    return solver
+
+
 def _is_subsaveat(x: Any) -> bool:
     return isinstance(x, SubSaveAt)
 
@@ -380,13 +396,7 @@ class DirectAdjoint(AbstractAdjoint):
             msg = None
         # Support forward-mode autodiff.
         # TODO: remove this hack once we can JVP through custom_vjps.
-        if (
-            isinstance(solver, (AbstractRungeKutta, AbstractSRK))
-            and solver.scan_kind is None
-        ):
-            solver = eqx.tree_at(
-                lambda s: s.scan_kind, solver, "bounded", is_leaf=_is_none
-            )
+        solver = _set_scan_kind(solver, "bounded")
         inner_while_loop = ft.partial(_inner_loop, kind=kind)
         outer_while_loop = ft.partial(_outer_loop, kind=kind)
         final_state = self._loop(
@@ -903,11 +913,7 @@ class ForwardMode(AbstractAdjoint):
         outer_while_loop = eqx.Partial(_outer_loop, kind="lax")
         # Support forward-mode autodiff.
         # TODO: remove this hack once we can JVP through custom_vjps.
-        if (
-            isinstance(solver, (AbstractRungeKutta, AbstractSRK))
-            and solver.scan_kind is None
-        ):
-            solver = eqx.tree_at(lambda s: s.scan_kind, solver, "lax", is_leaf=_is_none)
+        solver = _set_scan_kind(solver, "lax")
         final_state = self._loop(
             solver=solver,
             inner_while_loop=inner_while_loop,
-- 
2.43.0


From a2283991331e65c66d589d174e6485e2a5901a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:03 +0000
Subject: [PATCH 08/22] fix: the first step of a resumed solve respects step_ts
 and jump_ts

---
 diffrax/_integrate.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/diffrax/_integrate.py b/diffrax/_integrate.py
index a13bd2c..e89bc19 100644
--- a/diffrax/_integrate.py
+++ b/diffrax/_integrate.py
@@ -1283,19 +1283,16 @@ def diffeqsolve(
     # Initialise states
     tprev = t0
     error_order = solver.error_order(terms)
+    # Even when resuming (`controller_state is not None`), the controller decides on the
+    # end of the first step, e.g. `ClipStepSizeController` must not step over `jump_ts`.
+    (tnext, init_controller_state) = stepsize_controller.init(
+        terms, t0, t1, y0, dt0, args, solver.func, error_order
+    )
     if controller_state is None:
         passed_controller_state = False
-        (tnext, controller_state) = stepsize_controller.init(
-            terms, t0, t1, y0, dt0, args, solver.func, error_order
-        )
+        controller_state = init_controller_state
     else:
         passed_controller_state = True
-        if dt0 is None:
-            (tnext, _) = stepsize_controller.init(
-                terms, t0, t1, y0, dt0, args, solver.func, error_order
-            )
-        else:
-            tnext = t0 + dt0
     tnext = jnp.minimum(tnext, t1)
     if solver_state is None:
         passed_solver_state = False
-- 
2.43.0


From 250cd70bb9a277e2a8c9f3ae381b574c9bc12c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:13 +0000
Subject: [PATCH 09/22] fix: SRK solvers integrate the drift in the right
 direction when solving backwards in time

---
 diffrax/_solver/srk.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/diffrax/_solver/srk.py b/diffrax/_solver/srk.py
index ddb0309..5c7073b 100644
--- a/diffrax/_solver/srk.py
+++ b/diffrax/_solver/srk.py
@@ -362,6 +362,8 @@ class AbstractSRK(AbstractSolver[_SolverState]):
 
         # time increment
         h = t1 - t0
+        # Not necessarily equal to `h`, e.g. when solving backwards in time.
+        dt = drift.contr(t0, t1)
 
         # First the drift related stuff
         a = self._embed_a_lower(self.tableau.a, dtype)
@@ -509,7 +511,7 @@ class AbstractSRK(AbstractSolver[_SolverState]):
             if self.tableau.is_additive_noise():
                 # carry = (_h_kfs, None, None) where
                 # _h_kfs = Array[h_kf_1, h_kf_2, ..., hk_{j-1}, 0, 0, ..., 0]
-                # h_kf_i = drift.vf_prod(t0 + c_i*h, y_i, args, h)
+                # h_kf_i = drift.vf_prod(t0 + c_i*h, y_i, args, dt)
                 assert _w_kgs is None and _levylist_kgs is None
                 assert isinstance(levylist_kgs, list)
                 _diffusion_result = jtu.tree_map(
@@ -524,7 +526,7 @@ class AbstractSRK(AbstractSolver[_SolverState]):
                 # _levylist_kgs = [H_gs, K_gs] (if those entries exist) where
                 # H_gs = Array[Hg1, Hg2, ..., Hg{j-1}, 0, 0, ..., 0]
                 # K_gs = Array[Kg1, Kg2, ..., Kg{j-1}, 0, 0, ..., 0]
-                # h_kf_i = drift.vf_prod(t0 + c_i*h, y_i, args, h)
+                # h_kf_i = drift.vf_prod(t0 + c_i*h, y_i, args, dt)
                 # w_kg_i = diffusion.vf_prod(t0 + c_i*h, y_i, args, w)
                 w_kg_sum = sum_prev_stages(_w_kgs, a_w_j)
                 levy_sum_list = [
@@ -545,7 +547,7 @@ class AbstractSRK(AbstractSolver[_SolverState]):
             z_j = (y0**ω + _drift_result**ω + _diffusion_result**ω).ω
 
             def compute_and_insert_kf_j(_h_kfs_in):
-                h_kf_j = drift.vf_prod(t0 + c_j * h, z_j, args, h)
+                h_kf_j = drift.vf_prod(t0 + c_j * h, z_j, args, dt)
                 return insert_jth_stage(_h_kfs_in, h_kf_j, j)
 
             if ignore_stage_f is None:
-- 
2.43.0


From 9ae3089ec3a8f5914d79f9af19df8db5aafaceeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:47 +0000
Subject: [PATCH 10/22] fix: Langevin solvers pick the Taylor expansion by |h *
 gamma|, also backwards in time

---
 diffrax/_solver/foster_langevin_srk.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/diffrax/_solver/foster_langevin_srk.py b/diffrax/_solver/foster_langevin_srk.py
index ea1026f..100f815 100644
--- a/diffrax/_solver/foster_langevin_srk.py
+++ b/diffrax/_solver/foster_langevin_srk.py
@@ -197,7 +197,8 @@ class AbstractFosterLangevinSRK(
             # c is a leaf of gamma
             # Depending on the size of h*gamma choose whether the Taylor expansion or
             # direct computation is more accurate.
-            cond = h * c < self.taylor_threshold
+            # (`h` is negative when solving backwards in time.)
+            cond = jnp.abs(h * c) < self.taylor_threshold
             tay_out = self._eval_taylor(h, _tay_coeffs)
             if cond.ndim < jtu.tree_leaves(tay_out)[0].ndim:
                 # This happens when c is a scalar
-- 
2.43.0


From 73fd59e89132801378a1b23c9435217a7bf53202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:24 +0000
Subject: [PATCH 11/22] fix: QUICSORT can be used with a step size controller
 that makes jumps

---
 diffrax/_solver/foster_langevin_srk.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/diffrax/_solver/foster_langevin_srk.py b/diffrax/_solver/foster_langevin_srk.py
index 100f815..02d9b23 100644
--- a/diffrax/_solver/foster_langevin_srk.py
+++ b/diffrax/_solver/foster_langevin_srk.py
@@ -405,7 +405,8 @@ class AbstractFosterLangevinSRK(
             )
 
         x0, v0 = y0
-        if made_jump is False:
+        if made_jump is False or not self._is_fsal:
+            # (`prev_f` is `None` for those solvers that are not FSAL.)
             prev_f = st.prev_f
         else:
             prev_f = lax.cond(
-- 
2.43.0


From 8c1b4ed2878d9f8cae590f9014620bf98151ac36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:25 +0000
Subject: [PATCH 12/22] fix: ItoMilstein supports Brownian motion with PyTree
 structure

---
 diffrax/_solver/milstein.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/diffrax/_solver/milstein.py b/diffrax/_solver/milstein.py
index 897bc9c..dfe26be 100644
--- a/diffrax/_solver/milstein.py
+++ b/diffrax/_solver/milstein.py
@@ -214,6 +214,7 @@ class ItoMilstein(AbstractItoSolver):
         # We're going to use this notation extensively.
         #
         leaves_Δw, tree_Δw = jtu.tree_flatten(Δw)
+        holomorphic = any(jnp.iscomplexobj(leaf) for leaf in leaves_Δw)
         leaves_ΔwΔw = []
         for i1, l1 in enumerate(leaves_Δw):
             for i2, l2 in enumerate(leaves_Δw):
@@ -244,7 +245,7 @@ class ItoMilstein(AbstractItoSolver):
             _, _jvp = jax.jvp(_to_vjp, (y0,), (_g0,))
             # jvp has structure (tree(g0), leaf(g0))
             _jvp_matrix = jax.jacfwd(
-                lambda _Δw: diffusion.prod(_jvp, _Δw), holomorphic=jnp.iscomplexobj(Δw)
+                lambda _Δw: diffusion.prod(_jvp, _Δw), holomorphic=holomorphic
             )(Δw)
             # _jvp_matrix has structure (tree(y0), tree(Δw), leaf(y0), leaf(Δw))
             return _jvp_matrix
@@ -292,7 +293,7 @@ class ItoMilstein(AbstractItoSolver):
         # g0 has structure (tree(g0), leaf(g0))
         # Which we now transform into its isomorphic matrix form, as above.
         g0_matrix = jax.jacfwd(
-            lambda _Δw: diffusion.prod(g0, _Δw), holomorphic=jnp.iscomplexobj(Δw)
+            lambda _Δw: diffusion.prod(g0, _Δw), holomorphic=holomorphic
         )(Δw)
         # g0_matrix has structure (tree(y0), tree(Δw), leaf(y0), leaf(Δw))
         g0_matrix = jtu.tree_transpose(y_treedef, Δw_treedef, g0_matrix)
-- 
2.43.0


From d091b94d24fd41c41b5c1205965b6cf26a839561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:41 +0000
Subject: [PATCH 13/22] fix: wrapped implicit solvers such as
 HalfSolver(Kvaerno3()) can be used

---
 diffrax/_integrate.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/diffrax/_integrate.py b/diffrax/_integrate.py
index e89bc19..fd3d573 100644
--- a/diffrax/_integrate.py
+++ b/diffrax/_integrate.py
@@ -50,6 +50,7 @@ from ._solver import (
     AbstractItoSolver,
     AbstractSolver,
     AbstractStratonovichSolver,
+    AbstractWrappedSolver,
     Euler,
     EulerHeun,
     ItoMilstein,
@@ -1202,24 +1203,28 @@ def diffeqsolve(
 
     if isinstance(solver, AbstractImplicitSolver):
 
+        def _get_root_finder(s):
+            while isinstance(s, AbstractWrappedSolver):  # e.g. `HalfSolver`
+                s = s.solver
+            return cast(AbstractImplicitSolver, s).root_finder
+
+        root_finder = _get_root_finder(solver)
+
         def _get_tols(x):
             outs = []
             for attr in ("rtol", "atol", "norm"):
-                if (
-                    getattr(cast(AbstractImplicitSolver, solver).root_finder, attr)
-                    is use_stepsize_tol
-                ):
+                if getattr(root_finder, attr) is use_stepsize_tol:
                     outs.append(getattr(x, attr))
             return tuple(outs)
 
         if isinstance(stepsize_controller, AbstractAdaptiveStepSizeController):
             solver = eqx.tree_at(
-                lambda s: _get_tols(s.root_finder),
+                lambda s: _get_tols(_get_root_finder(s)),
                 solver,
                 _get_tols(stepsize_controller),
             )
         else:
-            if len(_get_tols(solver.root_finder)) > 0:
+            if len(_get_tols(root_finder)) > 0:
                 raise ValueError(
                     "A fixed step size controller is being used alongside an implicit "
                     "solver, but the tolerances for the implicit solver have not been "
-- 
2.43.0


From 3dd8fb1d9d03b81a6c6812e56afa9a54bc690682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:21 +0000
Subject: [PATCH 14/22] fix: PIDController recovers from steps that overflow to
 infinity

---
 diffrax/_step_size_controller/pid.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/diffrax/_step_size_controller/pid.py b/diffrax/_step_size_controller/pid.py
index 752b9be..0a4884b 100644
--- a/diffrax/_step_size_controller/pid.py
+++ b/diffrax/_step_size_controller/pid.py
@@ -482,9 +482,10 @@ class PIDController(
 
         def _scale(_y0, _y1_candidate, _y_error):
             # In case the solver steps into a region for which the vector field isn't
-            # defined.
-            _nan = jnp.isnan(_y1_candidate).any()
-            _y1_candidate = jnp.where(_nan, _y0, _y1_candidate)
+            # defined, or overflows. (In particular `inf` must not be used here: the
+            # error is then `inf` as well, and we would compute `inf / inf = nan`.)
+            _nonfinite = ~jnp.isfinite(_y1_candidate).all()
+            _y1_candidate = jnp.where(_nonfinite, _y0, _y1_candidate)
             _y = jnp.maximum(jnp.abs(_y0), jnp.abs(_y1_candidate))
             with jax.numpy_dtype_promotion("standard"):
                 return _y_error / (self.atol + _y * self.rtol)
-- 
2.43.0


From 699a4c21ad2f02dd9b5728cd7e112afcff25dfae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:58 +0000
Subject: [PATCH 15/22] fix: dt_min_reached is not reported after accepting a
 step that was clipped to less than dtmin

---
 diffrax/_step_size_controller/pid.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/diffrax/_step_size_controller/pid.py b/diffrax/_step_size_controller/pid.py
index 0a4884b..bbe70a6 100644
--- a/diffrax/_step_size_controller/pid.py
+++ b/diffrax/_step_size_controller/pid.py
@@ -547,12 +547,19 @@ class PIDController(
             dt = jnp.minimum(dt, self.dtmax)
         if self.dtmin is not None:
             if not self.force_dtmin:
-                result = RESULTS.where(dt < self.dtmin, RESULTS.dt_min_reached, result)
+                # Only a rejected step calls for a smaller step size. (After an accepted
+                # step we may still have `dt < dtmin`, if that step was shorter than
+                # `dtmin` because it was clipped to `t1` or to some `step_ts`.)
+                result = RESULTS.where(
+                    jnp.invert(keep_step) & (dt < self.dtmin),
+                    RESULTS.dt_min_reached,
+                    result,
+                )
             # if we are already at dtmin and dt is unchanged (factor == 1),
             # reset dt to dtmin to avoid accumulating float precision errors
             dt = jnp.where(at_dtmin & (factor == 1), self.dtmin, dt)
             # this flags the next loop to accept step
-            at_dtmin = dt <= self.dtmin
+            at_dtmin = (dt <= self.dtmin) & self.force_dtmin
             dt = jnp.maximum(dt, self.dtmin)
 
         next_t0 = jnp.where(keep_step, t1, t0)
-- 
2.43.0


From 9b9f897c772e94f940dee1829e475d696454ae58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:41 +0000
Subject: [PATCH 16/22] fix: bracketing root finders can be used for events in
 a vmapped solve

---
 diffrax/_integrate.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/diffrax/_integrate.py b/diffrax/_integrate.py
index fd3d573..46412f9 100644
--- a/diffrax/_integrate.py
+++ b/diffrax/_integrate.py
@@ -782,9 +782,15 @@ def loop(
                     event.cond_fn,
                 )
 
+            # Without an event, `_to_root_find` has its root at `event_tnext`. Bracket it,
+            # as e.g. `optx.Bisection` raises an error if there is no sign change.
             _options = {
-                "lower": final_state.event_tprev,
-                "upper": final_state.event_tnext,
+                "lower": jnp.where(
+                    event_happened, final_state.event_tprev, final_state.event_tnext - 1
+                ),
+                "upper": jnp.where(
+                    event_happened, final_state.event_tnext, final_state.event_tnext + 1
+                ),
             }
             _event_root_find = optx.root_find(
                 _to_root_find,
-- 
2.43.0


From 74bbec5b58caff2c72a54a0345628fe67e1a0f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:05 +0000
Subject: [PATCH 17/22] fix: steady_state_event uses the sum of the vector
 fields of a MultiTerm of ODETerms

---
 diffrax/_event.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/diffrax/_event.py b/diffrax/_event.py
index 7752973..dec61bd 100644
--- a/diffrax/_event.py
+++ b/diffrax/_event.py
@@ -8,6 +8,7 @@ from jaxtyping import Array, PyTree
 
 from ._custom_types import BoolScalarLike, FloatScalarLike, RealScalarLike
 from ._step_size_controller import AbstractAdaptiveStepSizeController
+from ._term import MultiTerm, ODETerm
 
 
 class Event(eqx.Module):
@@ -172,6 +173,11 @@ def steady_state_event(
         # TODO: this makes an additional function evaluation that in practice has
         # probably already been made by the solver.
         vf = solver.func(terms, t, y, args)
+        if isinstance(terms, MultiTerm) and all(
+            isinstance(term, ODETerm) for term in terms.terms
+        ):
+            # E.g. IMEX methods: `f` is the sum of the vector fields.
+            vf = jtu.tree_map(lambda *x: sum(x), *vf)
         return _norm(vf) < _atol + _rtol * _norm(y)
 
     return _cond_fn
-- 
2.43.0


From fb6ca196a6856cb39dbe5aa8586411f3fbb92552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:04 +0000
Subject: [PATCH 18/22] fix: VirtualBrownianTree returns the right dt for
 PyTree-shaped noise

---
 diffrax/_brownian/tree.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/diffrax/_brownian/tree.py b/diffrax/_brownian/tree.py
index 8a43066..af81e9a 100644
--- a/diffrax/_brownian/tree.py
+++ b/diffrax/_brownian/tree.py
@@ -314,13 +314,10 @@ class VirtualBrownianTree(AbstractBrownianPath):
             dtype = jnp.result_type(z)
             return jnp.astype(sqrt_len, dtype) * z
 
-        def is_dt(z):
-            return z is x.dt
-
-        dt, other = eqx.partition(x, is_dt)
-        dt_normalized = jtu.tree_map(mult, dt)
-        other_normalized = jtu.tree_map(sqrt_mult, other)
-        return eqx.combine(dt_normalized, other_normalized)
+        # `x.dt` may be a PyTree.
+        dt_normalized = jtu.tree_map(mult, x.dt)
+        other_normalized = jtu.tree_map(sqrt_mult, x)
+        return eqx.tree_at(lambda y: y.dt, other_normalized, dt_normalized)
 
     @eqx.filter_jit
     def evaluate(
-- 
2.43.0


From 276352be8c2ece8deb6a4ba3e53d27c387c603e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:26 +0000
Subject: [PATCH 19/22] fix: allow differentiating with respect to t0/t1 when
 using a progress meter

The progress passed to the meter depends on the integration times; without a
stop_gradient, differentiating a solve with respect to t0 or t1 tried to
differentiate the host callback and raised NotImplementedError.
---
 diffrax/_integrate.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/diffrax/_integrate.py b/diffrax/_integrate.py
index 46412f9..3139b6b 100644
--- a/diffrax/_integrate.py
+++ b/diffrax/_integrate.py
@@ -434,8 +434,10 @@ def loop(
         tprev = jnp.minimum(tprev, t1)
         tnext = _clip_to_end(tprev, tnext, t1, t1_clip_floor, keep_step)
 
+        # The meter is a side effect on the host, which cannot be differentiated.
+        progress = lax.stop_gradient(linear_rescale(t0, tprev, t1))
         progress_meter_state = progress_meter.step(
-            state.progress_meter_state, linear_rescale(t0, tprev, t1)
+            state.progress_meter_state, progress
         )
 
         # The other parts of the mutable state are kept/not-kept (based on whether the
-- 
2.43.0


From ecbbcf17467a748d8bba4e96aa3db1d01f7ce6e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:48 +0000
Subject: [PATCH 20/22] fix: increments of PyTree-valued interpolations

evaluate(t0, t1) subtracted the values with '-', which raised a TypeError for
any solution (or data) that is a PyTree other than a single array.
---
 diffrax/_global_interpolation.py | 12 +++++++++---
 diffrax/_local_interpolation.py  |  4 ++--
 diffrax/_solver/dopri8.py        |  2 +-
 diffrax/_solver/kencarp3.py      |  2 +-
 diffrax/_solver/tsit5.py         |  2 +-
 5 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/diffrax/_global_interpolation.py b/diffrax/_global_interpolation.py
index 278d7c5..c0fb44b 100644
--- a/diffrax/_global_interpolation.py
+++ b/diffrax/_global_interpolation.py
@@ -131,7 +131,9 @@ class LinearInterpolation(AbstractGlobalInterpolation):
         """
 
         if t1 is not None:
-            return self.evaluate(t1, left=left) - self.evaluate(t0, left=left)
+            return (
+                self.evaluate(t1, left=left) ** ω - self.evaluate(t0, left=left) ** ω
+            ).ω
         index, fractional_part = self._interpret_t(t0, left)
 
         def _index(_ys):
@@ -253,7 +255,9 @@ class CubicInterpolation(AbstractGlobalInterpolation):
         """
 
         if t1 is not None:
-            return self.evaluate(t1, left=left) - self.evaluate(t0, left=left)
+            return (
+                self.evaluate(t1, left=left) ** ω - self.evaluate(t0, left=left) ** ω
+            ).ω
         index, frac = self._interpret_t(t0, left)
 
         d, c, b, a = self.coeffs
@@ -344,7 +348,9 @@ class DenseInterpolation(AbstractGlobalInterpolation):
         self, t0: RealScalarLike, t1: RealScalarLike | None = None, left: bool = True
     ) -> PyTree[Shaped[Array, "?*shape"], "Y"]:
         if t1 is not None:
-            return self.evaluate(t1, left=left) - self.evaluate(t0, left=left)
+            return (
+                self.evaluate(t1, left=left) ** ω - self.evaluate(t0, left=left) ** ω
+            ).ω
         t = t0 * self.direction
         t_bounded = self._nan_if_out_of_bounds(t)
         out = self._get_local_interpolation(t_bounded, left).evaluate(
diff --git a/diffrax/_local_interpolation.py b/diffrax/_local_interpolation.py
index 1f35d1d..70219c2 100644
--- a/diffrax/_local_interpolation.py
+++ b/diffrax/_local_interpolation.py
@@ -81,7 +81,7 @@ class ThirdOrderHermitePolynomialInterpolation(AbstractLocalInterpolation):
     ) -> PyTree[Array]:
         del left
         if t1 is not None:
-            return self.evaluate(t1) - self.evaluate(t0)
+            return (self.evaluate(t1) ** ω - self.evaluate(t0) ** ω).ω
 
         t = linear_rescale(self.t0, t0, self.t1)
 
@@ -128,7 +128,7 @@ class FourthOrderPolynomialInterpolation(AbstractLocalInterpolation):
     ) -> PyTree[Array]:
         del left
         if t1 is not None:
-            return self.evaluate(t1) - self.evaluate(t0)
+            return (self.evaluate(t1) ** ω - self.evaluate(t0) ** ω).ω
 
         t = linear_rescale(self.t0, t0, self.t1)
 
diff --git a/diffrax/_solver/dopri8.py b/diffrax/_solver/dopri8.py
index 958d881..0f38e7a 100644
--- a/diffrax/_solver/dopri8.py
+++ b/diffrax/_solver/dopri8.py
@@ -296,7 +296,7 @@ class _Dopri8Interpolation(AbstractLocalInterpolation):
     ) -> Y:
         del left
         if t1 is not None:
-            return self.evaluate(t1) - self.evaluate(t0)
+            return (self.evaluate(t1) ** ω - self.evaluate(t0) ** ω).ω
         t = linear_rescale(self.t0, t0, self.t1)
         coeffs = _vmap_polyval(jnp.asarray(self.eval_coeffs, dtype=t.dtype), t) * t
         with jax.numpy_dtype_promotion("standard"):
diff --git a/diffrax/_solver/kencarp3.py b/diffrax/_solver/kencarp3.py
index cda0448..6bcb8d4 100644
--- a/diffrax/_solver/kencarp3.py
+++ b/diffrax/_solver/kencarp3.py
@@ -112,7 +112,7 @@ class KenCarpInterpolation(AbstractLocalInterpolation):
     ) -> PyTree:
         del left
         if t1 is not None:
-            return self.evaluate(t1) - self.evaluate(t0)
+            return (self.evaluate(t1) ** ω - self.evaluate(t0) ** ω).ω
 
         t = linear_rescale(self.t0, t0, self.t1)
         explicit_k, implicit_k = self.k
diff --git a/diffrax/_solver/tsit5.py b/diffrax/_solver/tsit5.py
index 7dc7a14..789e9ce 100644
--- a/diffrax/_solver/tsit5.py
+++ b/diffrax/_solver/tsit5.py
@@ -118,7 +118,7 @@ class _Tsit5Interpolation(AbstractLocalInterpolation):
     ) -> Y:
         del left
         if t1 is not None:
-            return self.evaluate(t1) - self.evaluate(t0)
+            return (self.evaluate(t1) ** ω - self.evaluate(t0) ** ω).ω
 
         t = linear_rescale(self.t0, t0, self.t1)
 
-- 
2.43.0


From 69e52d0b793b132705ad2e6da50100437fb13f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:48 +0000
Subject: [PATCH 21/22] fix: the derivative of a dense solution is NaN outside
 of its span

For methods with linear dense output the derivative extrapolated the last step
(or unused memory), as the NaN time does not propagate through it.
---
 diffrax/_global_interpolation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/diffrax/_global_interpolation.py b/diffrax/_global_interpolation.py
index c0fb44b..8f3a426 100644
--- a/diffrax/_global_interpolation.py
+++ b/diffrax/_global_interpolation.py
@@ -366,7 +366,9 @@ class DenseInterpolation(AbstractGlobalInterpolation):
         t = t * self.direction
         t = self._nan_if_out_of_bounds(t)
         out = self._get_local_interpolation(t, left).derivative(t, left=left)
-        return (self.direction * out**ω).ω
+        # The derivative of e.g. a linear interpolation does not propagate a NaN `t`.
+        nan_if = lambda x: jnp.where(jnp.isnan(t), jnp.nan, x)
+        return (self.direction * ω(out).call(nan_if)).ω
 
     def _nan_if_out_of_bounds(self, t):
         # Note that len(self.ts) == max_steps + 1 > 0 so the indexing is always valid,
-- 
2.43.0


From d76fa9ef342470e75d551fc2e55f868c20a817ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:48 +0000
Subject: [PATCH 22/22] fix: left and right limits of the dense solution of a
 solve backwards in time

Internally time is negated, which exchanges left and right; 'left=True' returned
the limit from the right at the end of each step.
---
 diffrax/_global_interpolation.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/diffrax/_global_interpolation.py b/diffrax/_global_interpolation.py
index 8f3a426..909cc49 100644
--- a/diffrax/_global_interpolation.py
+++ b/diffrax/_global_interpolation.py
@@ -337,7 +337,11 @@ class DenseInterpolation(AbstractGlobalInterpolation):
         jtu.tree_map(_check, self.infos)
 
     def _get_local_interpolation(self, t: RealScalarLike, left: bool):
-        index, _ = self._interpret_t(t, left)
+        # `t` and `self.ts` have been multiplied by `self.direction`, which for a solve
+        # backwards in time exchanges what is to the left and what is to the right.
+        index_forward, _ = self._interpret_t(t, left)
+        index_backward, _ = self._interpret_t(t, not left)
+        index = jnp.where(self.direction == 1, index_forward, index_backward)
         prev_t = self.ts[index]
         next_t = self.ts[index + 1]
         infos = ω(self.infos)[index].ω
-- 
2.43.0


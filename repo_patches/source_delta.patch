From 52ece2b8b8a58da2275c81773c4a9f20af830be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:46 +0000
Subject: [PATCH 01/31] fix: use the transposed solve in reverse mode of
 KapsComponent2

---
 src/rkopenmdao/odes/kaps.py | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/src/rkopenmdao/odes/kaps.py b/src/rkopenmdao/odes/kaps.py
index dec5493..be98204 100644
--- a/src/rkopenmdao/odes/kaps.py
+++ b/src/rkopenmdao/odes/kaps.py
@@ -276,12 +276,8 @@ class KapsComponent2(ImplicitUnsteadyComponent):
                 -butcher_diagonal_element * delta_t * d_outputs["y_2"]
                 - d_outputs["y_2_stage"]
             ) / (
-                2
-                * butcher_diagonal_element
-                * delta_t
-                * self.y_2
-                * butcher_diagonal_element
-                * delta_t
+                2 * butcher_diagonal_element * delta_t * self.y_2
+                + butcher_diagonal_element * delta_t
                 + 1
             )
             d_residuals["y_2"] = (
@@ -289,12 +285,8 @@ class KapsComponent2(ImplicitUnsteadyComponent):
                 + d_outputs["y_2_stage"]
                 - d_outputs["y_2"]
             ) / (
-                2
-                * butcher_diagonal_element
-                * delta_t
-                * self.y_2
-                * butcher_diagonal_element
-                * delta_t
+                2 * butcher_diagonal_element * delta_t * self.y_2
+                + butcher_diagonal_element * delta_t
                 + 1
             )
 
-- 
2.43.0


From f17eb3c598c98385875cfa0b3f70a06508c09d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:46 +0000
Subject: [PATCH 02/31] fix: make the dict round trip of time integration
 states complete

---
 .../runge_kutta_discretization_state.py       | 25 +++++++++++--------
 src/rkopenmdao/time_integration_state.py      | 17 ++++++++-----
 2 files changed, 25 insertions(+), 17 deletions(-)

diff --git a/src/rkopenmdao/time_discretization/runge_kutta_discretization_state.py b/src/rkopenmdao/time_discretization/runge_kutta_discretization_state.py
index f9ed9ee..31281c2 100644
--- a/src/rkopenmdao/time_discretization/runge_kutta_discretization_state.py
+++ b/src/rkopenmdao/time_discretization/runge_kutta_discretization_state.py
@@ -124,6 +124,7 @@ class RungeKuttaDiscretizationState(TimeDiscretizationStateInterface):
         time_step_dict["independent_input"] = self.independent_inputs
         time_step_dict["final_independent_output"] = self.final_independent_outputs
         time_step_dict["final_time"] = self.final_time
+        time_step_dict["step_size"] = self.step_size
         time_step_dict["linearization_points"] = self.linearization_points
 
         return time_step_dict
@@ -133,25 +134,26 @@ class RungeKuttaDiscretizationState(TimeDiscretizationStateInterface):
         number_of_stages = len(state_dict["linearization_points"])
         state = cls(
             ode_state_size=state_dict["final_state"].size,
-            independent_input_size=state_dict["independent_input"],
+            independent_input_size=state_dict["independent_input"].size,
             independent_output_size=state_dict["stage_0"]["independent_output"].size,
             number_of_stages=number_of_stages,
             linearization_point_size=state_dict["linearization_points"].shape[1],
         )
-        state.start_state = state_dict["start_state"]
-        state.start_time = state_dict["start_time"]
-        state.stage_times = state_dict["stage_times"]
+        state.start_state[:] = state_dict["start_state"]
+        state.start_time[:] = state_dict["start_time"]
+        state.stage_times[:] = state_dict["stage_times"]
         for i in range(number_of_stages):
             state.stage_states[i, :] = state_dict[f"stage_{i}"]["state"]
             state.stage_updates[i, :] = state_dict[f"stage_{i}"]["update"]
             state.stage_independent_outputs[i, :] = state_dict[f"stage_{i}"][
                 "independent_output"
             ]
-        state.final_state = state_dict["final_state"]
-        state.independent_inputs = state_dict["independent_input"]
-        state.final_independent_outputs = state_dict["final_independent_output"]
-        state.final_time = state_dict["final_time"]
-        state.linearization_points = state_dict["linearization_points"]
+        state.final_state[:] = state_dict["final_state"]
+        state.independent_inputs[:] = state_dict["independent_input"]
+        state.final_independent_outputs[:] = state_dict["final_independent_output"]
+        state.final_time[:] = state_dict["final_time"]
+        state.step_size[:] = state_dict["step_size"]
+        state.linearization_points[:] = state_dict["linearization_points"]
         return state
 
 
@@ -225,5 +227,6 @@ class EmbeddedRungeKuttaDiscretizationState(RungeKuttaDiscretizationState):
     @classmethod
     def from_dict(cls, state_dict: dict):
         state = super().from_dict(state_dict)
-        state.embedded_state = state_dict["embedded_dict"]
-        state.error_estimate = state_dict["error_estimate"]
+        state.embedded_state[:] = state_dict["embedded_state"]
+        state.error_estimate[:] = state_dict["error_estimate"]
+        return state
diff --git a/src/rkopenmdao/time_integration_state.py b/src/rkopenmdao/time_integration_state.py
index 0f57e60..2e21a35 100644
--- a/src/rkopenmdao/time_integration_state.py
+++ b/src/rkopenmdao/time_integration_state.py
@@ -7,6 +7,7 @@ from dataclasses import dataclass
 import numpy as np
 
 from rkopenmdao.time_discretization.runge_kutta_discretization_state import (
+    EmbeddedRungeKuttaDiscretizationState,
     RungeKuttaDiscretizationState,
 )
 
@@ -81,11 +82,15 @@ class TimeIntegrationState:
         state_dict: dict
             Dictionary from which a time integration state is created.
         """
+        discretization_dict = time_state_dict["discretization_state"]
+        discretization_state_type = (
+            EmbeddedRungeKuttaDiscretizationState
+            if "embedded_state" in discretization_dict
+            else RungeKuttaDiscretizationState
+        )
         return cls(
-            RungeKuttaDiscretizationState.from_dict(
-                time_state_dict["discretization_state"]
-            ),
-            time_state_dict["step_size_suggestion"][0],
-            time_state_dict["step_size_history"],
-            time_state_dict["error_history"],
+            discretization_state_type.from_dict(discretization_dict),
+            np.array(time_state_dict["step_size_suggestion"]),
+            np.array(time_state_dict["step_size_history"]),
+            np.array(time_state_dict["error_history"]),
         )
-- 
2.43.0


From ce2a69bdf95690dfd19ab0e023b09b0ed34ac729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:46 +0000
Subject: [PATCH 03/31] fix: copy embedded state and error estimate in
 EmbeddedRungeKuttaDiscretizationState.set

---
 .../time_discretization/runge_kutta_discretization_state.py  | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/rkopenmdao/time_discretization/runge_kutta_discretization_state.py b/src/rkopenmdao/time_discretization/runge_kutta_discretization_state.py
index 31281c2..1110726 100644
--- a/src/rkopenmdao/time_discretization/runge_kutta_discretization_state.py
+++ b/src/rkopenmdao/time_discretization/runge_kutta_discretization_state.py
@@ -218,6 +218,11 @@ class EmbeddedRungeKuttaDiscretizationState(RungeKuttaDiscretizationState):
         self.embedded_state = np.zeros_like(self.start_state)
         self.error_estimate = np.zeros_like(self.start_state)
 
+    def set(self, other: EmbeddedRungeKuttaDiscretizationState):
+        super().set(other)
+        self.embedded_state[:] = other.embedded_state[:]
+        self.error_estimate[:] = other.error_estimate[:]
+
     def to_dict(self) -> dict:
         time_step_dict = super().to_dict()
         time_step_dict["embedded_state"] = self.embedded_state
-- 
2.43.0


From 1fb01424c5a6fd39cb4244bcb2911206c0757a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:46 +0000
Subject: [PATCH 04/31] fix: shift the step size history for non-adaptive steps

---
 src/rkopenmdao/runge_kutta_integrator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rkopenmdao/runge_kutta_integrator.py b/src/rkopenmdao/runge_kutta_integrator.py
index 38285d6..70c4cd0 100644
--- a/src/rkopenmdao/runge_kutta_integrator.py
+++ b/src/rkopenmdao/runge_kutta_integrator.py
@@ -630,7 +630,9 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
 
         else:
             time_integration_state.discretization_state.set(temp_discretization_state)
-            np.roll(time_integration_state.step_size_history, 1)
+            time_integration_state.step_size_history[:] = np.roll(
+                time_integration_state.step_size_history, 1
+            )
             time_integration_state.step_size_history[0] = (
                 time_integration_state.step_size_suggestion[0]
             )
-- 
2.43.0


From 0f1f54ef46e8bb42e8139079a7b4e421c2e39934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:46 +0000
Subject: [PATCH 05/31] fix: warn whenever a row sum of the Butcher matrix
 differs from its time stage

---
 src/rkopenmdao/butcher_tableau.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rkopenmdao/butcher_tableau.py b/src/rkopenmdao/butcher_tableau.py
index 057603e..ca228a4 100644
--- a/src/rkopenmdao/butcher_tableau.py
+++ b/src/rkopenmdao/butcher_tableau.py
@@ -71,7 +71,9 @@ class ButcherTableau:
             self.butcher_time_stages = np.sum(self.butcher_matrix, 1)
         else:
             self.butcher_time_stages = butcher_time_stages
-            if np.all(np.sum(self.butcher_matrix, 1) - butcher_time_stages) >= 1e-5:
+            if np.any(
+                np.abs(np.sum(self.butcher_matrix, 1) - butcher_time_stages) >= 1e-5
+            ):
                 warnings.warn(
                     "Spatial shift matrix (A) rows do not "
                     "sum up to the temporal shift vector (c) indices value"
-- 
2.43.0


From fc8e892c782d1759c46f1ae77f086f0cf601231a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:46 +0000
Subject: [PATCH 06/31] fix: only reuse checkpoints in reverse mode when they
 belong to the current inputs

---
 src/rkopenmdao/runge_kutta_integrator.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/rkopenmdao/runge_kutta_integrator.py b/src/rkopenmdao/runge_kutta_integrator.py
index 70c4cd0..9905130 100644
--- a/src/rkopenmdao/runge_kutta_integrator.py
+++ b/src/rkopenmdao/runge_kutta_integrator.py
@@ -256,6 +256,7 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
             )
         else:
             self._remaining_time_func = lambda x: np.inf
+        self._cached_input = None
         self._setup_ode()
         self._setup_wrt_and_of_vars()
         self._add_inputs_and_outputs()
@@ -438,11 +439,15 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
     def compute(self, inputs, outputs, discrete_inputs=None, discrete_outputs=None):
         if self.comm.rank == 0:
             print("\n" + "=" * 32 + " compute starts " + "=" * 32 + "\n\n")
+        # Checkpoints only become valid once the forward iteration is complete.
+        self._cached_input = None
         self._compute_preparation_phase(inputs, self._time_integration_state)
+        cached_input = deepcopy(self._time_integration_state.discretization_state)
         self._checkpointer.create_checkpointer()
         self._time_integration_state.set(
             self._checkpointer.iterate_forward(self._time_integration_state)
         )
+        self._cached_input = cached_input
         self._from_numpy_array_time_integration(
             self._time_integration_state.discretization_state.final_state, outputs
         )
@@ -462,7 +467,6 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
             inputs, integration_state.discretization_state.independent_inputs
         )
         integration_state.discretization_state.final_time[0] = inputs["time_initial"][0]
-        self._cached_input = deepcopy(integration_state.discretization_state)
 
         self._reset_error_control(integration_state)
         integration_state.discretization_state.linearization_points.fill(0.0)
@@ -662,6 +666,8 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
             print(
                 "\n" + "=" * 24 + " fwd-mode jacvec product starts " + "=" * 24 + "\n\n"
             )
+        # The forward mode works on the state shared with the checkpointer.
+        self._cached_input = None
         self._compute_jacvec_fwd_preparation_phase(
             inputs,
             d_inputs,
@@ -774,6 +780,8 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
             d_outputs,
             integration_state_perturbations,
         )
+        # using the checkpoints invalidates the checkpointer in general
+        self._cached_input = None
         self._time_integration_state_perturbations.set(
             self._checkpointer.iterate_reverse(integration_state_perturbations)
         )
@@ -790,9 +798,6 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
             "time_initial"
         ] += integration_state_perturbations.discretization_state.final_time[0]
 
-        # using the checkpoints invalidates the checkpointer in general
-        self._cached_input = None
-
         if self.comm.rank == 0:
             print(
                 "\n\n" + "=" * 25 + " fwd-mode jacvec product ends " + "=" * 25 + "\n"
@@ -830,6 +835,10 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
                 self._cached_input.independent_inputs,
                 temporary_integration_state.discretization_state.independent_inputs,
             )
+            and np.array_equal(
+                self._cached_input.final_time,
+                temporary_integration_state.discretization_state.final_time,
+            )
         ):
             if self.comm.rank == 0:
                 print("Preparing checkpoints by calling compute()")
-- 
2.43.0


From 171006c313d3fd84683bcdb1cbff785b6bb354c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:46 +0000
Subject: [PATCH 07/31] fix: number forward steps from 1 with the pyRevolve
 checkpointer

---
 .../runge_kutta_integrator_pyrevolve_classes.py               | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rkopenmdao/checkpoint_interface/runge_kutta_integrator_pyrevolve_classes.py b/src/rkopenmdao/checkpoint_interface/runge_kutta_integrator_pyrevolve_classes.py
index 4cade07..7cb270e 100644
--- a/src/rkopenmdao/checkpoint_interface/runge_kutta_integrator_pyrevolve_classes.py
+++ b/src/rkopenmdao/checkpoint_interface/runge_kutta_integrator_pyrevolve_classes.py
@@ -169,7 +169,7 @@ class RungeKuttaForwardOperator(pr.Operator):
         # PyRevolve only ever uses t_start and t_end as arguments, but the interface is
         # how it is.
         """
-        Does forward (primal) integration from step `t_start` + 1 to `t_end` + 1.
+        Does forward (primal) integration from step `t_start` + 2 to `t_end` + 1.
 
         Parameters
         ----------
@@ -178,7 +178,7 @@ class RungeKuttaForwardOperator(pr.Operator):
         t_end: int
             Last integration time step shifted by one.
         """
-        for step in range(kwargs["t_start"] + 1, kwargs["t_end"] + 1):
+        for step in range(kwargs["t_start"] + 2, kwargs["t_end"] + 2):
             # TODO?: Add iteration to fwd_op
             self.time_integration_state.set(
                 self.fwd_operation(step, self.time_integration_state)
-- 
2.43.0


From 69f366a1cc4c9cef6ebbb226562cc3c42611baf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:46 +0000
Subject: [PATCH 08/31] fix: do not change the revolver options passed by the
 user

---
 src/rkopenmdao/checkpoint_interface/pyrevolve_checkpointer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rkopenmdao/checkpoint_interface/pyrevolve_checkpointer.py b/src/rkopenmdao/checkpoint_interface/pyrevolve_checkpointer.py
index 344d818..aa007c5 100644
--- a/src/rkopenmdao/checkpoint_interface/pyrevolve_checkpointer.py
+++ b/src/rkopenmdao/checkpoint_interface/pyrevolve_checkpointer.py
@@ -61,6 +61,8 @@ class PyrevolveCheckpointer(CheckpointInterface):
 
     def __post_init__(self):
         """Sets up all permanent data derived from initialization arguments."""
+        # The passed options belong to the caller and must not be changed.
+        self.revolver_options = dict(self.revolver_options)
         self._first_complete_state = deepcopy(self.state)
         checkpoint = RungeKuttaCheckpoint(self.state)
 
-- 
2.43.0


From 0fa2b364fd57b35be7a8fb715d0f211ca6474425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:46 +0000
Subject: [PATCH 09/31] fix: accept steps only within tolerance or at the lower
 bound

---
 src/rkopenmdao/error_controller.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/rkopenmdao/error_controller.py b/src/rkopenmdao/error_controller.py
index 3c7d1d7..29c261f 100644
--- a/src/rkopenmdao/error_controller.py
+++ b/src/rkopenmdao/error_controller.py
@@ -189,8 +189,7 @@ class ErrorController:
         """
         success = False
         if (
-            np.abs(delta_t - self.config.lower_bound) < 1e-10
-            or np.abs(delta_t - remaining_time) < 1e-10
+            delta_t - self.config.lower_bound < 1e-10
             or error_measure <= self.config.tol
         ):
             success = True
-- 
2.43.0


From 678cd03d0c63b3bd097625e6ca030b4b81808cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:46 +0000
Subject: [PATCH 10/31] fix: do not retry a rejected step with the same step
 size

---
 src/rkopenmdao/error_controller.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/rkopenmdao/error_controller.py b/src/rkopenmdao/error_controller.py
index 29c261f..dd67aa5 100644
--- a/src/rkopenmdao/error_controller.py
+++ b/src/rkopenmdao/error_controller.py
@@ -148,9 +148,9 @@ class ErrorController:
             step_size_history=step_size_history,
         )
         if not status.acceptance:
-            if status.step_size_suggestion > delta_t and self._inner_most:
+            if status.step_size_suggestion >= delta_t and self._inner_most:
                 raise OuterErrorControllerError(
-                    f"""Suggested delta T {status.step_size_suggestion} is larger than 
+                    f"""Suggested delta T {status.step_size_suggestion} is not smaller than 
                     delta t {delta_t} on failure."""
                 )
         return status
@@ -360,7 +360,7 @@ class ErrorControllerDecorator(ErrorController):
                     ):
                         raise OuterErrorControllerError(
                             f"""Suggested delta T {status.step_size_suggestion} is 
-                            larger than delta t {delta_t} on failure."""
+                            not smaller than delta t {delta_t} on failure."""
                         )
                 self._outer_counter = 0
                 return status
@@ -407,9 +407,9 @@ class ErrorControllerDecorator(ErrorController):
         )
         if not status.acceptance:
             self._is_not_inner = False
-            if status.step_size_suggestion > delta_t and self._inner_most:
+            if status.step_size_suggestion >= delta_t and self._inner_most:
                 raise InnerErrorControllerError(
-                    f"""Suggested delta T {status.step_size_suggestion} is larger than 
+                    f"""Suggested delta T {status.step_size_suggestion} is not smaller than 
                     delta t {delta_t} on failure."""
                 )
         return status
-- 
2.43.0


From 47fc782f3a3990a06f70b09bd38e33652516cae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:46 +0000
Subject: [PATCH 11/31] fix: count the retries of the outer error controller
 over the whole step

---
 src/rkopenmdao/error_controller.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rkopenmdao/error_controller.py b/src/rkopenmdao/error_controller.py
index dd67aa5..6b42fbc 100644
--- a/src/rkopenmdao/error_controller.py
+++ b/src/rkopenmdao/error_controller.py
@@ -362,9 +362,11 @@ class ErrorControllerDecorator(ErrorController):
                             f"""Suggested delta T {status.step_size_suggestion} is 
                             not smaller than delta t {delta_t} on failure."""
                         )
-                self._outer_counter = 0
+                else:
+                    self._outer_counter = 0
                 return status
             except OuterErrorControllerError:
+                self._outer_counter = 0
                 return self._run(
                     error_measure=error_measure,
                     delta_t=delta_t,
-- 
2.43.0


From 7b988d7efdaa11f50de96deaec1426fb62590493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:46 +0000
Subject: [PATCH 12/31] fix: start each time integration with a fresh error
 controller

---
 src/rkopenmdao/error_controller.py       | 8 ++++++++
 src/rkopenmdao/runge_kutta_integrator.py | 1 +
 2 files changed, 9 insertions(+)

diff --git a/src/rkopenmdao/error_controller.py b/src/rkopenmdao/error_controller.py
index 6b42fbc..76c8c28 100644
--- a/src/rkopenmdao/error_controller.py
+++ b/src/rkopenmdao/error_controller.py
@@ -155,6 +155,9 @@ class ErrorController:
                 )
         return status
 
+    def reset(self):
+        """Forgets everything about previous steps."""
+
     def _run(
         self,
         *,
@@ -383,6 +386,11 @@ class ErrorControllerDecorator(ErrorController):
                 step_size_history=step_size_history,
             )
 
+    def reset(self):
+        self._is_not_inner = True
+        self._outer_counter = 0
+        self.error_controller.reset()
+
     def __str__(self):
         """Prints the class data."""
         current_str = super().__str__()
diff --git a/src/rkopenmdao/runge_kutta_integrator.py b/src/rkopenmdao/runge_kutta_integrator.py
index 9905130..107786b 100644
--- a/src/rkopenmdao/runge_kutta_integrator.py
+++ b/src/rkopenmdao/runge_kutta_integrator.py
@@ -556,6 +556,7 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
         return time_integration_state
 
     def _reset_error_control(self, integration_state: TimeIntegrationState):
+        self._error_controller.reset()
         integration_state.step_size_history.fill(0.0)
         integration_state.error_history.fill(self._error_controller.config.tol)
         integration_state.step_size_suggestion[0] = (
-- 
2.43.0


From 5b509acc9fab2f99efc7729b2f4c1040f71fc2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:46 +0000
Subject: [PATCH 13/31] fix: correct the first exponent of the H0_321
 controller

---
 src/rkopenmdao/error_controllers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rkopenmdao/error_controllers.py b/src/rkopenmdao/error_controllers.py
index 2c7e906..edd215e 100644
--- a/src/rkopenmdao/error_controllers.py
+++ b/src/rkopenmdao/error_controllers.py
@@ -346,7 +346,7 @@ def h0_321(
     name="H0_321",
     base: ErrorController = None,
 ):
-    alpha = 1 / (3 * p)
+    alpha = 5 / (4 * p)
     beta = -1 / (2 * p)
     gamma = -3 / (4 * p)
     a = 1 / 4
-- 
2.43.0


From e473fd67964859e82305321a0989b26ef250a4c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:46 +0000
Subject: [PATCH 14/31] fix: refuse fully implicit Butcher tableaux in setup

---
 src/rkopenmdao/runge_kutta_integrator.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/rkopenmdao/runge_kutta_integrator.py b/src/rkopenmdao/runge_kutta_integrator.py
index 107786b..5f25d01 100644
--- a/src/rkopenmdao/runge_kutta_integrator.py
+++ b/src/rkopenmdao/runge_kutta_integrator.py
@@ -13,6 +13,7 @@ from openmdao.vectors.vector import Vector as OMVector
 from rkopenmdao.callback import Callback, IterationLogging, WallClockMeasurement
 from rkopenmdao.discretized_ode.discretized_ode import DiscretizedODEResultState
 from rkopenmdao.error_measurer import ErrorMeasurer, SimpleErrorMeasurer
+from rkopenmdao.errors import SetupError
 from rkopenmdao.time_discretization.stage_ordered_runge_kutta_discretization import (
     StageOrderedRungeKuttaDiscretization,
     StageOrderedEmbeddedRungeKuttaDiscretization,
@@ -380,6 +381,10 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
 
     def _setup_runge_kutta_discretization(self):
         butcher_tableau: ButcherTableau = self.options["butcher_tableau"]
+        if butcher_tableau.is_implicit():
+            raise SetupError(
+                "The Butcher tableau needs to be explicit or diagonally implicit."
+            )
         if butcher_tableau.is_embedded:
             self._runge_kutta_discretization = (
                 StageOrderedEmbeddedRungeKuttaDiscretization(butcher_tableau)
-- 
2.43.0


From c13033d1accf60b1c339964c9bf76815d6a6a55b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:23 +0000
Subject: [PATCH 15/31] fix: start the minimum norm from its neutral element

---
 src/rkopenmdao/discretized_ode/openmdao_ode.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/rkopenmdao/discretized_ode/openmdao_ode.py b/src/rkopenmdao/discretized_ode/openmdao_ode.py
index 208a0c3..3150c97 100644
--- a/src/rkopenmdao/discretized_ode/openmdao_ode.py
+++ b/src/rkopenmdao/discretized_ode/openmdao_ode.py
@@ -379,8 +379,10 @@ class OpenMDAOODE(DiscretizedODE):
 
     def compute_state_norm(self, state: DiscretizedODEResultState) -> float:
         stage_state = state.stage_state
-        non_distributed_intermediate = 0.0
-        distributed_intermediate = 0.0
+        # neutral element of how the partial norms are combined
+        neutral = np.inf if self._norm_order == -np.inf else 0.0
+        non_distributed_intermediate = neutral
+        distributed_intermediate = neutral
         for quantity in self.time_integration_metadata.time_integration_quantity_list:
             if quantity.name not in self._norm_exclusions:
                 norm_intermediate = self._partial_norm_intermediate(
-- 
2.43.0


From d30e7cc591bd0262be53f71383c5d003130bb16f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:23 +0000
Subject: [PATCH 16/31] fix: report requested quantities without a variable in
 the stage problem

---
 src/rkopenmdao/metadata_extractor.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/rkopenmdao/metadata_extractor.py b/src/rkopenmdao/metadata_extractor.py
index 1039eaf..be846d2 100644
--- a/src/rkopenmdao/metadata_extractor.py
+++ b/src/rkopenmdao/metadata_extractor.py
@@ -137,6 +137,7 @@ def extract_time_integration_metadata(
                 translation_metadata=TimeIntegrationTranslationMetadata(),
             )
         quantity_list.append(quantity)
+    _check_all_quantities_found(time_integration_quantity_list, quantity_list)
     runge_kutta_metadata = TimeIntegrationMetadata(
         time_variable=_search_for_time_variable(stage_problem),
         time_integration_array_size=array_size,
@@ -145,6 +146,17 @@ def extract_time_integration_metadata(
     return runge_kutta_metadata
 
 
+def _check_all_quantities_found(
+    requested_quantities: list, found_quantities: list[Quantity]
+) -> None:
+    missing = set(requested_quantities) - {q.name for q in found_quantities}
+    if missing:
+        raise SetupError(
+            f"No variables were found in the stage problem for the requested quantities"
+            f" {sorted(missing)}."
+        )
+
+
 def _search_for_time_variable(stage_problem: om.Problem) -> str | None:
     local_quantities = stage_problem.model.get_io_metadata(
         iotypes="input",
@@ -332,6 +344,10 @@ def add_time_independent_input_metadata(
                 translation_metadata=TimeIndependentInputTranslationMetadata(),
             )
         runge_kutta_metadata.time_independent_input_quantity_list.append(quantity)
+    _check_all_quantities_found(
+        time_independent_input_quantity_list,
+        runge_kutta_metadata.time_independent_input_quantity_list,
+    )
 
 
 def _extract_time_independent_quantity(
-- 
2.43.0


From 4f19a3b9a56a7b1a8e330f3f52fe566def36db04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:23 +0000
Subject: [PATCH 17/31] fix: compare multiple quantities with the solution for
 their own initial values

---
 src/rkopenmdao/file_writer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rkopenmdao/file_writer.py b/src/rkopenmdao/file_writer.py
index 2a4ee28..6d9041a 100644
--- a/src/rkopenmdao/file_writer.py
+++ b/src/rkopenmdao/file_writer.py
@@ -210,6 +210,7 @@ def read_hdf5_file(
         for key, group in f.items():
             time[int(key)] = group["time"][0]
         # Extract solution and compute Error wrt. analytical solution
+        initial_values = [f["0"][quantity][:] for quantity in quantities]
         for i, quantity in enumerate(quantities):
             error_data[quantity] = {}  # initialize error data for each quantity
             result[quantity] = {}
@@ -220,11 +221,10 @@ def read_hdf5_file(
                     result[quantity][int(key)][row] = group[quantity][row]
 
                 if len(quantities) > 1:
-                    quan_result = [result[quantity][0]] * len(quantities)
                     error_data[quantity][int(key)] = np.abs(
                         solution(
                             time[int(key)],
-                            quan_result,
+                            initial_values,
                             time[0],
                         )[i]
                         - result[quantity][int(key)]
-- 
2.43.0


From 1da1bfa80febb126b5cc86d8ce46d29f7756c7ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:23 +0000
Subject: [PATCH 18/31] fix: do not seed the adjoint step with leftover stage
 state perturbations

---
 .../stage_ordered_runge_kutta_discretization.py                 | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rkopenmdao/time_discretization/stage_ordered_runge_kutta_discretization.py b/src/rkopenmdao/time_discretization/stage_ordered_runge_kutta_discretization.py
index 2faf35d..bdd3100 100644
--- a/src/rkopenmdao/time_discretization/stage_ordered_runge_kutta_discretization.py
+++ b/src/rkopenmdao/time_discretization/stage_ordered_runge_kutta_discretization.py
@@ -148,6 +148,8 @@ class StageOrderedRungeKuttaDiscretization(TimeDiscretizationSchemeInterface):
             stage_independent_output_perturbations
         )
         time_discretization_state_perturbation.final_time += final_time_perturbations
+        # Nothing downstream of the step depends on the stage states.
+        time_discretization_state_perturbation.stage_states.fill(0.0)
 
         time_discretization_state_perturbation.start_state[:] = (
             time_discretization_state_perturbation.final_state
-- 
2.43.0


From 3ecdc04c54ac4b94489b7aeac54db98a302f0d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:23 +0000
Subject: [PATCH 19/31] fix: limit the first adaptive step to the remaining
 time

---
 src/rkopenmdao/runge_kutta_integrator.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/rkopenmdao/runge_kutta_integrator.py b/src/rkopenmdao/runge_kutta_integrator.py
index 5f25d01..22543a9 100644
--- a/src/rkopenmdao/runge_kutta_integrator.py
+++ b/src/rkopenmdao/runge_kutta_integrator.py
@@ -567,6 +567,13 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
         integration_state.step_size_suggestion[0] = (
             self._integration_config.initial_step_size
         )
+        if self._integration_config.use_adaptive_time_stepping:
+            integration_state.step_size_suggestion[0] = min(
+                integration_state.step_size_suggestion[0],
+                self._remaining_time_func(
+                    integration_state.discretization_state.final_time[0]
+                ),
+            )
 
     def _iterate_on_step(
         self, time_integration_state: TimeIntegrationState, i: int = 0
-- 
2.43.0


From d707f1b5a0fe1913d8669dd1244bf3dbb4f003e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:06:38 +0000
Subject: [PATCH 20/31] fix: support independent inputs that are not local to
 every process

---
 src/rkopenmdao/runge_kutta_integrator.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/rkopenmdao/runge_kutta_integrator.py b/src/rkopenmdao/runge_kutta_integrator.py
index 22543a9..8a1ae5c 100644
--- a/src/rkopenmdao/runge_kutta_integrator.py
+++ b/src/rkopenmdao/runge_kutta_integrator.py
@@ -347,14 +347,21 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
         for (
             quantity
         ) in self._ode.time_integration_metadata.time_independent_input_quantity_list:
-            self.add_input(
-                quantity.name,
-                shape=quantity.array_metadata.shape,
-                val=time_stage_problem.get_val(
-                    quantity.translation_metadata.time_independent_input_var
-                ),
-                distributed=quantity.array_metadata.distributed,
-            )
+            if quantity.array_metadata.local:
+                self.add_input(
+                    quantity.name,
+                    shape=quantity.array_metadata.shape,
+                    val=time_stage_problem.get_val(
+                        quantity.translation_metadata.time_independent_input_var
+                    ).reshape(quantity.array_metadata.shape),
+                    distributed=quantity.array_metadata.distributed,
+                )
+            else:
+                self.add_input(
+                    quantity.name,
+                    shape=quantity.array_metadata.shape,
+                    distributed=quantity.array_metadata.distributed,
+                )
 
     def _setup_wrt_and_of_vars(self):
         self._add_time_integration_derivative_info()
-- 
2.43.0


From a301de3b434e1835d6d92f86b53594c27d2fdf19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:06:38 +0000
Subject: [PATCH 21/31] fix: use the sizes of inputs for the global indices of
 independent inputs

---
 src/rkopenmdao/metadata_extractor.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/rkopenmdao/metadata_extractor.py b/src/rkopenmdao/metadata_extractor.py
index be846d2..8fd21d1 100644
--- a/src/rkopenmdao/metadata_extractor.py
+++ b/src/rkopenmdao/metadata_extractor.py
@@ -189,15 +189,16 @@ def _create_local_array_metadata(
     end_index: int,
     detailed_var: str,
     detailed_data: dict,
+    iotype: str,
 ) -> ArrayMetadata:
     if detailed_data["shape"] != detailed_data["global_shape"]:
         try:
-            sizes = stage_problem.model._var_sizes["output"][
+            sizes = stage_problem.model._var_sizes[iotype][
                 :,
                 stage_problem.model._var_allprocs_abs2idx[detailed_var],
             ]
         except KeyError:  # Have to deal with an older openMDAO version
-            sizes = stage_problem.model._var_sizes["nonlinear"]["output"][
+            sizes = stage_problem.model._var_sizes["nonlinear"][iotype][
                 :,
                 stage_problem.model._var_allprocs_abs2idx["nonlinear"][detailed_var],
             ]
@@ -244,6 +245,7 @@ def _extract_time_integration_quantity(
                 end_index=end_index,
                 detailed_var=detailed_var,
                 detailed_data=detailed_data,
+                iotype="output",
             )
         elif "step_input_var" in detailed_data["tags"]:
             found_step_input_var += 1
@@ -375,6 +377,7 @@ def _extract_time_independent_quantity(
                 end_index=end_index,
                 detailed_var=detailed_var,
                 detailed_data=detailed_data,
+                iotype="input",
             )
 
     if found_time_independent_input_var > 1:
-- 
2.43.0


From b8df1edd9f37e21ae0c66d72362152a55f42e3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:47 +0000
Subject: [PATCH 22/31] fix: compute maximum and minimum norms with quantities
 that are empty on a process

---
 src/rkopenmdao/discretized_ode/openmdao_ode.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rkopenmdao/discretized_ode/openmdao_ode.py b/src/rkopenmdao/discretized_ode/openmdao_ode.py
index 3150c97..e1c8e7d 100644
--- a/src/rkopenmdao/discretized_ode/openmdao_ode.py
+++ b/src/rkopenmdao/discretized_ode/openmdao_ode.py
@@ -411,6 +411,8 @@ class OpenMDAOODE(DiscretizedODE):
     ) -> float:
         start = quantity.array_metadata.start_index
         end = quantity.array_metadata.end_index
+        if start == end:  # no part of the quantity on this process
+            return np.inf if order == -np.inf else 0.0
         exponent = 1.0 if order in [np.inf, -np.inf, 0.0] else order
         return np.linalg.norm(state[start:end], order) ** exponent
 
-- 
2.43.0


From 9da54dc63c8ec0a1a28b3c6c3857d440469088cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:24 +0000
Subject: [PATCH 23/31] fix: decide alike on all processes whether checkpoints
 can be reused

---
 src/rkopenmdao/runge_kutta_integrator.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/rkopenmdao/runge_kutta_integrator.py b/src/rkopenmdao/runge_kutta_integrator.py
index 8a1ae5c..c1f70ca 100644
--- a/src/rkopenmdao/runge_kutta_integrator.py
+++ b/src/rkopenmdao/runge_kutta_integrator.py
@@ -6,6 +6,7 @@ from __future__ import annotations
 from collections.abc import Callable
 from copy import deepcopy
 
+from mpi4py import MPI
 import numpy as np
 import openmdao.api as om
 from openmdao.vectors.vector import Vector as OMVector
@@ -846,7 +847,7 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
         temporary_integration_state.discretization_state.final_time[0] = inputs[
             "time_initial"
         ][0]
-        if self._cached_input is None or not (
+        checkpoints_usable = self._cached_input is not None and (
             np.array_equal(
                 self._cached_input.final_state,
                 temporary_integration_state.discretization_state.final_state,
@@ -859,7 +860,9 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
                 self._cached_input.final_time,
                 temporary_integration_state.discretization_state.final_time,
             )
-        ):
+        )
+        # Inputs may have changed on some processes only, but all need to recompute.
+        if not self.comm.allreduce(checkpoints_usable, MPI.LAND):
             if self.comm.rank == 0:
                 print("Preparing checkpoints by calling compute()")
             outputs = self._vector_class("nonlinear", "output", self)
-- 
2.43.0


From 4930de7dd352b638c04ffc346b401a9e9f277092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:18 +0000
Subject: [PATCH 24/31] fix: refuse unknown storage types for multi level
 checkpointing

---
 .../checkpoint_interface/pyrevolve_checkpointer.py           | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/rkopenmdao/checkpoint_interface/pyrevolve_checkpointer.py b/src/rkopenmdao/checkpoint_interface/pyrevolve_checkpointer.py
index aa007c5..2b5527e 100644
--- a/src/rkopenmdao/checkpoint_interface/pyrevolve_checkpointer.py
+++ b/src/rkopenmdao/checkpoint_interface/pyrevolve_checkpointer.py
@@ -86,6 +86,11 @@ class PyrevolveCheckpointer(CheckpointInterface):
                         storage_list.append(pr.DiskStorage(checkpoint.size, **options))
                     elif storage_type == "Bytes":
                         storage_list.append(pr.BytesStorage(checkpoint.size, **options))
+                    else:
+                        raise TypeError(
+                            "Given storage type is invalid. Options are 'Numpy', "
+                            f"'Disk' and 'Bytes'. Given was '{storage_type}'."
+                        )
                 self.revolver_options[key] = storage_list
             else:
                 self.revolver_options[key] = value
-- 
2.43.0


From cd1334bcdf401fe7fc1a0fb24cffeb27971f4004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:48 +0000
Subject: [PATCH 25/31] fix: the reference solution of Kaps' problem ignored
 the initial time and did not start at the initial values

The first component used initial_values[1] instead of its square, and neither
component used initial_time.
---
 src/rkopenmdao/odes/kaps.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/rkopenmdao/odes/kaps.py b/src/rkopenmdao/odes/kaps.py
index be98204..e67a1a6 100644
--- a/src/rkopenmdao/odes/kaps.py
+++ b/src/rkopenmdao/odes/kaps.py
@@ -340,13 +340,14 @@ class KapsGroup(om.Group):
         Analytical solution to Kaps problem (using Homotopy Perturbation Method) to
         compare with the components above.
         """
+        elapsed = time - initial_time
         return np.array(
             [
-                initial_values[1] * np.exp(-2 * time)
-                + (initial_values[0] - initial_values[1] ** 2) * np.exp(-2 * time),
+                initial_values[1] ** 2 * np.exp(-2 * elapsed)
+                + (initial_values[0] - initial_values[1] ** 2) * np.exp(-2 * elapsed),
                 (initial_values[1] - initial_values[0] + initial_values[1] ** 2)
-                * np.exp(-time)
-                + initial_values[0] * np.exp(-2 * time)
-                - initial_values[1] ** 2 * np.exp(-2 * time),
+                * np.exp(-elapsed)
+                + initial_values[0] * np.exp(-2 * elapsed)
+                - initial_values[1] ** 2 * np.exp(-2 * elapsed),
             ]
         )
-- 
2.43.0


From 8aaa6bb206a7cacb02396d7a3622a1b42a815b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:58 +0000
Subject: [PATCH 26/31] fix: generate_path failed for output files without a
 directory part

---
 src/rkopenmdao/utils/problems.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rkopenmdao/utils/problems.py b/src/rkopenmdao/utils/problems.py
index d5ad166..7a3848d 100644
--- a/src/rkopenmdao/utils/problems.py
+++ b/src/rkopenmdao/utils/problems.py
@@ -29,7 +29,7 @@ def generate_path(path: str):
     if path[-3::] == ".h5" or path[-4::] == ".png":
         idx = path.rfind("/")
         directory_path = path[: idx + 1]
-        if not os.path.exists(directory_path):
+        if directory_path and not os.path.exists(directory_path):
             os.makedirs(directory_path)
             print(f"The path to {directory_path} has been paved.")
     return path
-- 
2.43.0


From 424fd7d6d795c4d2f50afba9a1fb8dc397cb6b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:59 +0000
Subject: [PATCH 27/31] fix: file writer accepts steps that checkpointing
 computes again

---
 src/rkopenmdao/file_writer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rkopenmdao/file_writer.py b/src/rkopenmdao/file_writer.py
index 6d9041a..42e9b54 100644
--- a/src/rkopenmdao/file_writer.py
+++ b/src/rkopenmdao/file_writer.py
@@ -80,6 +80,9 @@ class OpenMDAOHDF5Callback(Callback):
             iter_strs.append(f"{iteration}")
         with h5py.File(self.filename, mode=mode, driver="mpio", comm=self.comm) as hf:
             for iter_str in iter_strs:
+                if iter_str in hf:
+                    # Checkpointing may compute an iteration repeatedly.
+                    continue
                 hf.create_group(iter_str)
                 hf[iter_str].create_dataset("time", shape=(1,), dtype=np.float64)
                 for (
-- 
2.43.0


From 964692f840c237645c299e386a1417d1684ac230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:59 +0000
Subject: [PATCH 28/31] fix: non-finite values of one linear solve do not stay
 in the linear vectors

---
 src/rkopenmdao/discretized_ode/openmdao_ode.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rkopenmdao/discretized_ode/openmdao_ode.py b/src/rkopenmdao/discretized_ode/openmdao_ode.py
index e1c8e7d..33e06a4 100644
--- a/src/rkopenmdao/discretized_ode/openmdao_ode.py
+++ b/src/rkopenmdao/discretized_ode/openmdao_ode.py
@@ -160,7 +160,7 @@ class OpenMDAOODE(DiscretizedODE):
         self._om_data_exchange.stage_factor = stage_factor
         self._time_stage_problem.model.run_linearize()
         _, d_outputs, d_residuals = self._time_stage_problem.model.get_linear_vectors()
-        d_residuals.asarray()[:] *= 0.0
+        d_residuals.asarray()[:] = 0.0
         self._input_state_to_om_vector(
             np.array([ode_input_perturbation.time]),
             ode_input_perturbation.step_input,
@@ -196,7 +196,7 @@ class OpenMDAOODE(DiscretizedODE):
         self._om_data_exchange.stage_factor = stage_factor
         self._time_stage_problem.model.run_linearize()
         _, d_outputs, d_residuals = self._time_stage_problem.model.get_linear_vectors()
-        d_outputs.asarray()[:] *= 0.0
+        d_outputs.asarray()[:] = 0.0
         self._output_state_to_om_vector(
             ode_result_perturbation.stage_update,
             ode_result_perturbation.stage_state,
-- 
2.43.0


From 20d853833129928c7563f1d803490272a579f290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:59 +0000
Subject: [PATCH 29/31] fix: matrix-free products are added to the perturbation
 vectors

---
 src/rkopenmdao/runge_kutta_integrator.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/rkopenmdao/runge_kutta_integrator.py b/src/rkopenmdao/runge_kutta_integrator.py
index c1f70ca..b6ed5af 100644
--- a/src/rkopenmdao/runge_kutta_integrator.py
+++ b/src/rkopenmdao/runge_kutta_integrator.py
@@ -516,7 +516,7 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
                 np_array[start:end] = om_vector[quantity.name].flatten()
 
     def _from_numpy_array_time_integration(
-        self, np_array: np.ndarray, om_vector: OMVector
+        self, np_array: np.ndarray, om_vector: OMVector, accumulate: bool = False
     ):
         if om_vector._kind == "input":
             name_suffix = "_initial"
@@ -527,9 +527,11 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
         ) in self._ode.time_integration_metadata.time_integration_quantity_list:
             start = quantity.array_metadata.start_index
             end = quantity.array_metadata.end_index
-            om_vector[quantity.name + name_suffix] = np_array[start:end].reshape(
-                quantity.array_metadata.shape
-            )
+            values = np_array[start:end].reshape(quantity.array_metadata.shape)
+            if accumulate:
+                om_vector[quantity.name + name_suffix] += values
+            else:
+                om_vector[quantity.name + name_suffix] = values
 
     def _from_numpy_array_independent_input(
         self, np_array: np.ndarray, om_vector: OMVector
@@ -544,7 +546,7 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
             ):
                 start = quantity.array_metadata.start_index
                 end = quantity.array_metadata.end_index
-                om_vector[quantity.name] = np_array[start:end].reshape(
+                om_vector[quantity.name] += np_array[start:end].reshape(
                     quantity.array_metadata.shape
                 )
 
@@ -703,6 +705,7 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
         self._from_numpy_array_time_integration(
             self._time_integration_state_perturbations.discretization_state.final_state,
             d_outputs,
+            accumulate=True,
         )
         d_outputs[
             "time_final"
@@ -810,6 +813,7 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
         self._from_numpy_array_time_integration(
             integration_state_perturbations.discretization_state.final_state,
             d_inputs,
+            accumulate=True,
         )
         self._from_numpy_array_independent_input(
             integration_state_perturbations.discretization_state.independent_inputs,
-- 
2.43.0


From 3becc99813b10851081fc9602b8a0b55cb4c5fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:59 +0000
Subject: [PATCH 30/31] fix: products use exactly the variables the linear
 vectors contain

---
 src/rkopenmdao/runge_kutta_integrator.py | 28 +++++++++++++++++-------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/rkopenmdao/runge_kutta_integrator.py b/src/rkopenmdao/runge_kutta_integrator.py
index b6ed5af..7e8a762 100644
--- a/src/rkopenmdao/runge_kutta_integrator.py
+++ b/src/rkopenmdao/runge_kutta_integrator.py
@@ -496,7 +496,11 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
         ) in self._ode.time_integration_metadata.time_integration_quantity_list:
             start = quantity.array_metadata.start_index
             end = quantity.array_metadata.end_index
-            np_array[start:end] = om_vector[quantity.name + name_suffix].flatten()
+            # Linear vectors may be restricted to a part of their variables.
+            if quantity.name + name_suffix in om_vector:
+                np_array[start:end] = om_vector[quantity.name + name_suffix].flatten()
+            else:
+                np_array[start:end] = 0.0
 
     def _to_numpy_array_independent_inputs(
         self, om_vector: OMVector, np_array: np.ndarray
@@ -513,7 +517,10 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
             ):
                 start = quantity.array_metadata.start_index
                 end = quantity.array_metadata.end_index
-                np_array[start:end] = om_vector[quantity.name].flatten()
+                if quantity.name in om_vector:
+                    np_array[start:end] = om_vector[quantity.name].flatten()
+                else:
+                    np_array[start:end] = 0.0
 
     def _from_numpy_array_time_integration(
         self, np_array: np.ndarray, om_vector: OMVector, accumulate: bool = False
@@ -525,6 +532,8 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
         for (
             quantity
         ) in self._ode.time_integration_metadata.time_integration_quantity_list:
+            if quantity.name + name_suffix not in om_vector:
+                continue
             start = quantity.array_metadata.start_index
             end = quantity.array_metadata.end_index
             values = np_array[start:end].reshape(quantity.array_metadata.shape)
@@ -544,6 +553,8 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
             ) in (
                 self._ode.time_integration_metadata.time_independent_input_quantity_list
             ):
+                if quantity.name not in om_vector:
+                    continue
                 start = quantity.array_metadata.start_index
                 end = quantity.array_metadata.end_index
                 om_vector[quantity.name] += np_array[start:end].reshape(
@@ -738,9 +749,9 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
             integration_state_perturbations.discretization_state.independent_inputs,
         )
         integration_state.discretization_state.final_time[0] = inputs["time_initial"][0]
-        integration_state_perturbations.discretization_state.final_time[0] = d_inputs[
-            "time_initial"
-        ][0]
+        integration_state_perturbations.discretization_state.final_time[0] = (
+            d_inputs["time_initial"][0] if "time_initial" in d_inputs else 0.0
+        )
         self._reset_error_control(integration_state)
 
     def _compute_jacvec_fwd_run_steps(
@@ -819,9 +830,10 @@ class RungeKuttaIntegrator(om.ExplicitComponent):
             integration_state_perturbations.discretization_state.independent_inputs,
             d_inputs,
         )
-        d_inputs[
-            "time_initial"
-        ] += integration_state_perturbations.discretization_state.final_time[0]
+        if "time_initial" in d_inputs:
+            d_inputs[
+                "time_initial"
+            ] += integration_state_perturbations.discretization_state.final_time[0]
 
         if self.comm.rank == 0:
             print(
-- 
2.43.0


From c20d11deeb7cbf5705e05e34ad10e9fe66a9b759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:59 +0000
Subject: [PATCH 31/31] fix: simple linear ODE uses only inputs that are part
 of the linear vectors

---
 src/rkopenmdao/odes/simple_linear_ode.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/rkopenmdao/odes/simple_linear_ode.py b/src/rkopenmdao/odes/simple_linear_ode.py
index 0f586db..30fc6b9 100644
--- a/src/rkopenmdao/odes/simple_linear_ode.py
+++ b/src/rkopenmdao/odes/simple_linear_ode.py
@@ -41,11 +41,19 @@ class SimpleLinearODE(ExplicitUnsteadyComponent):
         butcher_diagonal_element = self.om_data_exchange.stage_factor
         factor = (1 + delta_t * butcher_diagonal_element) ** -1
         if mode == "fwd":
-            d_outputs["y_stage"] -= factor * d_inputs["y_old"]
-            d_outputs["y_stage"] -= delta_t * factor * d_inputs["y_accumulated_stages"]
+            if "y_old" in d_inputs:
+                d_outputs["y_stage"] -= factor * d_inputs["y_old"]
+            if "y_accumulated_stages" in d_inputs:
+                d_outputs["y_stage"] -= (
+                    delta_t * factor * d_inputs["y_accumulated_stages"]
+                )
         elif mode == "rev":
-            d_inputs["y_old"] -= factor * d_outputs["y_stage"]
-            d_inputs["y_accumulated_stages"] -= delta_t * factor * d_outputs["y_stage"]
+            if "y_old" in d_inputs:
+                d_inputs["y_old"] -= factor * d_outputs["y_stage"]
+            if "y_accumulated_stages" in d_inputs:
+                d_inputs["y_accumulated_stages"] -= (
+                    delta_t * factor * d_outputs["y_stage"]
+                )
 
     @staticmethod
     def simple_linear_solution(
-- 
2.43.0


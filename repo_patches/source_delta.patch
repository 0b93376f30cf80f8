From 2e13068e64e9817ce9d897ff532c0d59b10339c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:31 +0000
Subject: [PATCH 01/27] fix: give point mass integrators the orientation
 property so they can be instantiated

---
 safe_autonomy_dynamics/integrators.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/safe_autonomy_dynamics/integrators.py b/safe_autonomy_dynamics/integrators.py
index bf36e6c..8d75855 100644
--- a/safe_autonomy_dynamics/integrators.py
+++ b/safe_autonomy_dynamics/integrators.py
@@ -16,6 +16,7 @@ import abc
 from typing import Tuple
 
 import numpy as np
+from scipy.spatial.transform import Rotation
 
 from safe_autonomy_dynamics.base_models import BaseEntity, BaseEntityValidator, BaseLinearODESolverDynamics
 
@@ -85,6 +86,11 @@ class BaseIntegrator(BaseEntity):
         """Get velocity vector"""
         raise NotImplementedError
 
+    @property
+    def orientation(self):
+        """Get orientation, which is always an identity rotation as a point mass model doesn't rotate."""
+        return Rotation.from_quat([0, 0, 0, 1])
+
 
 class Integrator1d(BaseIntegrator):
     """
-- 
2.43.0


From a6f6e327b54a1226fe0bfa70cbc5179713957111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:32 +0000
Subject: [PATCH 02/27] fix: map integrator thrust_y and thrust_z to their own
 control channels

---
 safe_autonomy_dynamics/integrators.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/safe_autonomy_dynamics/integrators.py b/safe_autonomy_dynamics/integrators.py
index 8d75855..dc82c2c 100644
--- a/safe_autonomy_dynamics/integrators.py
+++ b/safe_autonomy_dynamics/integrators.py
@@ -217,7 +217,7 @@ class Integrator2d(BaseIntegrator):
 
         control_map = {
             'thrust_x': 0,
-            'thrust_y': 0,
+            'thrust_y': 1,
         }
 
         super().__init__(dynamics, control_default=np.zeros((2, )), control_min=-1, control_max=1, control_map=control_map, **kwargs)
@@ -315,8 +315,8 @@ class Integrator3d(BaseIntegrator):
 
         control_map = {
             'thrust_x': 0,
-            'thrust_y': 0,
-            'thrust_z': 0,
+            'thrust_y': 1,
+            'thrust_z': 2,
         }
 
         super().__init__(dynamics, control_default=np.zeros((3, )), control_min=-1, control_max=1, control_map=control_map, **kwargs)
-- 
2.43.0


From 992a0b8e0ed9bb6b99fc7c6d676abf9083af0920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:32 +0000
Subject: [PATCH 03/27] fix: compare 2d and 3d integrators with their own type
 in __eq__

---
 safe_autonomy_dynamics/integrators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/safe_autonomy_dynamics/integrators.py b/safe_autonomy_dynamics/integrators.py
index dc82c2c..e1fc60b 100644
--- a/safe_autonomy_dynamics/integrators.py
+++ b/safe_autonomy_dynamics/integrators.py
@@ -223,7 +223,7 @@ class Integrator2d(BaseIntegrator):
         super().__init__(dynamics, control_default=np.zeros((2, )), control_min=-1, control_max=1, control_map=control_map, **kwargs)
 
     def __eq__(self, other):
-        if isinstance(other, Integrator1d):
+        if isinstance(other, Integrator2d):
             eq = (self.velocity == other.velocity).all()
             eq = eq and (self.position == other.position).all()
             return eq
@@ -322,7 +322,7 @@ class Integrator3d(BaseIntegrator):
         super().__init__(dynamics, control_default=np.zeros((3, )), control_min=-1, control_max=1, control_map=control_map, **kwargs)
 
     def __eq__(self, other):
-        if isinstance(other, Integrator1d):
+        if isinstance(other, Integrator3d):
             eq = (self.velocity == other.velocity).all()
             eq = eq and (self.position == other.position).all()
             return eq
-- 
2.43.0


From f906c5ac87cc3a5e241722974bab34a5f81f2775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:49 +0000
Subject: [PATCH 04/27] fix: convert list inputs to arrays of their values in
 number_list_to_np

---
 safe_autonomy_dynamics/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/safe_autonomy_dynamics/utils.py b/safe_autonomy_dynamics/utils.py
index 9b4828d..d5a17e1 100644
--- a/safe_autonomy_dynamics/utils.py
+++ b/safe_autonomy_dynamics/utils.py
@@ -39,7 +39,7 @@ def number_list_to_np(input_val: Union[float, int, list, np.ndarray], shape: Tup
     if isinstance(input_val, np.ndarray):
         output = input_val
     elif isinstance(input_val, list):
-        output = np.ndarray(input_val, dtype=dtype)
+        output = np.array(input_val, dtype=dtype)
     elif isinstance(input_val, (float, int)):
         output = float(input_val) * np.ones(shape, dtype=dtype)
     else:
-- 
2.43.0


From 81f12e645f4e262f9b54dc0380ad4e6394957c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:49 +0000
Subject: [PATCH 05/27] fix: wrap angles to the equivalent angle about a
 nonzero wrap center

---
 safe_autonomy_dynamics/base_models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/safe_autonomy_dynamics/base_models.py b/safe_autonomy_dynamics/base_models.py
index 2e804c2..1f24fe5 100644
--- a/safe_autonomy_dynamics/base_models.py
+++ b/safe_autonomy_dynamics/base_models.py
@@ -458,7 +458,7 @@ class BaseDynamics(abc.ABC):
         if self.angle_wrap_centers is not None:
             needs_wrap = self.np.logical_not(self.np.isnan(self.angle_wrap_centers))
 
-            wrapped_state = ((state + np.pi) % (2 * np.pi)) - np.pi + self.angle_wrap_centers
+            wrapped_state = ((state - self.angle_wrap_centers + np.pi) % (2 * np.pi)) - np.pi + self.angle_wrap_centers
 
             output_state = self.np.where(needs_wrap, wrapped_state, state)
         else:
-- 
2.43.0


From 4eae090876263bfe7ede178895b494fe1e659141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:49 +0000
Subject: [PATCH 06/27] fix: raise when the RK45 solver fails before the end of
 the step

---
 safe_autonomy_dynamics/base_models.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/safe_autonomy_dynamics/base_models.py b/safe_autonomy_dynamics/base_models.py
index 1f24fe5..69335bd 100644
--- a/safe_autonomy_dynamics/base_models.py
+++ b/safe_autonomy_dynamics/base_models.py
@@ -571,6 +571,8 @@ class BaseODESolverDynamics(BaseDynamics):
                 t_eval = np.linspace(0, step_size, self.trajectory_samples + 1)[1:]
 
             sol = scipy.integrate.solve_ivp(self.compute_state_dot, (0, step_size), state, args=(control, ), t_eval=t_eval)
+            if not sol.success:
+                raise RuntimeError(f"integration failed before the end of the step: {sol.message}")
 
             self.trajectory = sol.y.T
             self.trajectory_t = sol.t
-- 
2.43.0


From 6c32710fae98e951d6c2fe5fad7a9444bff70d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:49 +0000
Subject: [PATCH 07/27] fix: report the end of step state derivative with Euler
 integration

---
 safe_autonomy_dynamics/base_models.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/safe_autonomy_dynamics/base_models.py b/safe_autonomy_dynamics/base_models.py
index 69335bd..a836a54 100644
--- a/safe_autonomy_dynamics/base_models.py
+++ b/safe_autonomy_dynamics/base_models.py
@@ -592,8 +592,8 @@ class BaseODESolverDynamics(BaseDynamics):
             state_dot = self.compute_state_dot(step_size, next_state, control)
         elif self.integration_method == "Euler":
             assert self.trajectory_samples <= 0, "trajectory sampling not currently supported with euler integration"
-            state_dot = self.compute_state_dot(0, state, control)
-            next_state = state + step_size * state_dot
+            next_state = state + step_size * self.compute_state_dot(0, state, control)
+            state_dot = self.compute_state_dot(step_size, next_state, control)
         else:
             raise ValueError(f"invalid integration method '{self.integration_method}'")
 
-- 
2.43.0


From 5b7ac079fb9a9e64b17fdf1c041e4b75a8c56f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:49 +0000
Subject: [PATCH 08/27] fix: enforce state and state derivative limits in
 RK45_JAX integration

---
 safe_autonomy_dynamics/base_models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/safe_autonomy_dynamics/base_models.py b/safe_autonomy_dynamics/base_models.py
index a836a54..ac5b723 100644
--- a/safe_autonomy_dynamics/base_models.py
+++ b/safe_autonomy_dynamics/base_models.py
@@ -602,7 +602,7 @@ class BaseODESolverDynamics(BaseDynamics):
     def compute_state_dot_jax(self, state, t, control):
         """Compute state dot for jax odeint
         """
-        return self._compute_state_dot(t, state, control)
+        return self.compute_state_dot(t, state, control)
 
 
 class BaseControlAffineODESolverDynamics(BaseODESolverDynamics):
-- 
2.43.0


From 1ca86b90756b1d1568fa7335a0176f128c37d66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:49 +0000
Subject: [PATCH 09/27] fix: default SixDOFSpacecraft quaternion to the
 identity rotation

---
 safe_autonomy_dynamics/cwh/sixdof_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/safe_autonomy_dynamics/cwh/sixdof_model.py b/safe_autonomy_dynamics/cwh/sixdof_model.py
index f4cae7c..1fceec4 100644
--- a/safe_autonomy_dynamics/cwh/sixdof_model.py
+++ b/safe_autonomy_dynamics/cwh/sixdof_model.py
@@ -90,7 +90,7 @@ class SixDOFSpacecraftValidator(BaseEntityValidator):
     q1: float = 0
     q2: float = 0
     q3: float = 0
-    q4: float = 0
+    q4: float = 1
     wx: Annotated[Union[float, pint.Quantity], AfterValidator(build_unit_conversion_validator_fn('radians/second'))] = 0
     wy: Annotated[Union[float, pint.Quantity], AfterValidator(build_unit_conversion_validator_fn('radians/second'))] = 0
     wz: Annotated[Union[float, pint.Quantity], AfterValidator(build_unit_conversion_validator_fn('radians/second'))] = 0
-- 
2.43.0


From 906483c4fd908189df9ee3e78d51c1803f784b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:42 +0000
Subject: [PATCH 10/27] fix: convert list actions to control vectors without
 losing precision

---
 safe_autonomy_dynamics/base_models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/safe_autonomy_dynamics/base_models.py b/safe_autonomy_dynamics/base_models.py
index ac5b723..a988b73 100644
--- a/safe_autonomy_dynamics/base_models.py
+++ b/safe_autonomy_dynamics/base_models.py
@@ -180,7 +180,7 @@ class BaseEntity(abc.ABC):
 
                     control[self.control_map[action_name]] = action_value
             elif isinstance(action, list):
-                control = np.array(action, dtype=np.float32)
+                control = np.array(action, dtype=np.float64)
             elif isinstance(action, np.ndarray):
                 control = action.copy()
             elif jnp is not None and isinstance(action, jnp.ndarray):  # pylint: disable=used-before-assignment
-- 
2.43.0


From f202c1973717b40ae6df133fc8a7a15e015794c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:42 +0000
Subject: [PATCH 11/27] fix: reject NaN control values instead of integrating
 them

---
 safe_autonomy_dynamics/base_models.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/safe_autonomy_dynamics/base_models.py b/safe_autonomy_dynamics/base_models.py
index a988b73..b7add9c 100644
--- a/safe_autonomy_dynamics/base_models.py
+++ b/safe_autonomy_dynamics/base_models.py
@@ -161,7 +161,7 @@ class BaseEntity(abc.ABC):
         KeyError
             Raised when action dict key not found in control map
         ValueError
-            Raised when action is not one of the required types
+            Raised when action is not one of the required types or contains NaN values
         """
 
         if action is None:
@@ -188,6 +188,9 @@ class BaseEntity(abc.ABC):
             else:
                 raise ValueError("action must be type dict, list, np.ndarray or jnp.ndarray")
 
+        if np.any(np.isnan(control)):
+            raise ValueError("action must not contain NaN values")
+
         # enforce control bounds
         if (np.any(control < self.control_min) or np.any(control > self.control_max)):
             warnings.warn(f"Control input exceeded limits. Clipping to range ({self.control_min}, {self.control_max})")
-- 
2.43.0


From cc0dd8f792c620480ef67d1bbc526d9271e23307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:42 +0000
Subject: [PATCH 12/27] fix: clip sampled trajectory states to the state limits

---
 safe_autonomy_dynamics/base_models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/safe_autonomy_dynamics/base_models.py b/safe_autonomy_dynamics/base_models.py
index b7add9c..23159d9 100644
--- a/safe_autonomy_dynamics/base_models.py
+++ b/safe_autonomy_dynamics/base_models.py
@@ -577,7 +577,7 @@ class BaseODESolverDynamics(BaseDynamics):
             if not sol.success:
                 raise RuntimeError(f"integration failed before the end of the step: {sol.message}")
 
-            self.trajectory = sol.y.T
+            self.trajectory = np.clip(sol.y.T, self.state_min, self.state_max)
             self.trajectory_t = sol.t
 
             next_state = sol.y[:, -1]  # save last timestep of integration solution
-- 
2.43.0


From 063f8b39180826aa489027a67d15016ca0fb61f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:42 +0000
Subject: [PATCH 13/27] fix: compute Dubins acceleration direction from
 orientation so it is defined at zero speed

---
 safe_autonomy_dynamics/dubins.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/safe_autonomy_dynamics/dubins.py b/safe_autonomy_dynamics/dubins.py
index 8f8b0d1..4ece2b5 100644
--- a/safe_autonomy_dynamics/dubins.py
+++ b/safe_autonomy_dynamics/dubins.py
@@ -212,6 +212,17 @@ class BaseDubinsAircraft(BaseEntity):
         )
         return velocity
 
+    def _unit_velocity(self):
+        """Get direction of the velocity vector, defined for any speed including zero"""
+        return np.array(
+            [
+                np.cos(self.heading) * np.cos(self.gamma),
+                np.sin(self.heading) * np.cos(self.gamma),
+                -1 * np.sin(self.gamma),
+            ],
+            dtype=np.float32,
+        )
+
     @property
     def orientation(self):
         """
@@ -391,7 +402,7 @@ class Dubins2dAircraft(BaseDubinsAircraft):
     @property
     def acceleration(self):
         acc = self.state_dot[3]
-        acc = acc * (self.velocity / self.v)  # acc * unit velocity
+        acc = acc * self._unit_velocity()
         return acc
 
 
@@ -641,7 +652,7 @@ class Dubins3dAircraft(BaseDubinsAircraft):
     @property
     def acceleration(self):
         acc = self.state_dot[6]
-        acc = acc * (self.velocity / self.v)  # acc * unit velocity
+        acc = acc * self._unit_velocity()
         return acc
 
 
-- 
2.43.0


From aaf36aed08ae32c85ab672354ac4e08a3c5fb695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:42 +0000
Subject: [PATCH 14/27] fix: freeze the interval of a fixed step Euler dense
 output when it is created

---
 safe_autonomy_dynamics/external/aerobench/util.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/safe_autonomy_dynamics/external/aerobench/util.py b/safe_autonomy_dynamics/external/aerobench/util.py
index c91631b..8c5c241 100644
--- a/safe_autonomy_dynamics/external/aerobench/util.py
+++ b/safe_autonomy_dynamics/external/aerobench/util.py
@@ -111,17 +111,20 @@ class Euler(Freezable):
 
         assert self.tprev is not None
 
-        dy = self.y - self.yprev
-        dt = self.t - self.tprev
+        yprev = self.yprev
+        tprev = self.tprev
+
+        dy = self.y - yprev
+        dt = self.t - tprev
 
         dydt = dy / dt
 
         def fun(t):
             """return state at time t (linear interpolation)"""
 
-            deltat = t - self.tprev
+            deltat = t - tprev
 
-            return self.yprev + dydt * deltat
+            return yprev + dydt * deltat
 
         return fun
 
-- 
2.43.0


From a49ee623164653348d7b586857aa95f2579aee19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:42 +0000
Subject: [PATCH 15/27] fix: verify safety of results without low level
 controller states

---
 safe_autonomy_dynamics/external/aerobench/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/safe_autonomy_dynamics/external/aerobench/util.py b/safe_autonomy_dynamics/external/aerobench/util.py
index 8c5c241..81e8625 100644
--- a/safe_autonomy_dynamics/external/aerobench/util.py
+++ b/safe_autonomy_dynamics/external/aerobench/util.py
@@ -297,7 +297,7 @@ class SafetyLimitsVerifier(Freezable):
             _vt, alpha, beta, _phi, \
                 _theta, _psi, _p, _q, \
                 _r, _pos_n, _pos_e, alt, \
-                _, _, _, _ = results['states'][i]
+                _ = results['states'][i][:len(get_state_names())]
             nz = results['Nz_list'][i]
             ps = results['ps_list'][i]
 
-- 
2.43.0


From 0e9ab3ee295739b98c3326249ae7c73bb01c1261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:42 +0000
Subject: [PATCH 16/27] fix: verify the airspeed safety limit

---
 safe_autonomy_dynamics/external/aerobench/util.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/safe_autonomy_dynamics/external/aerobench/util.py b/safe_autonomy_dynamics/external/aerobench/util.py
index 81e8625..3359e56 100644
--- a/safe_autonomy_dynamics/external/aerobench/util.py
+++ b/safe_autonomy_dynamics/external/aerobench/util.py
@@ -294,7 +294,7 @@ class SafetyLimitsVerifier(Freezable):
         # Go through each tick of the simulation and determine whether
         # the object(s) was (were) in a safe state.
         for i in range(results['states'].size // num_state_vars):
-            _vt, alpha, beta, _phi, \
+            vt, alpha, beta, _phi, \
                 _theta, _psi, _p, _q, \
                 _r, _pos_n, _pos_e, alt, \
                 _ = results['states'][i][:len(get_state_names())]
@@ -311,6 +311,11 @@ class SafetyLimitsVerifier(Freezable):
                     f"Nz ({nz}) is not within the specified limits \
                         ({self.safety_limits.Nz[0]}, {self.safety_limits.Nz[1]})."
 
+            if self.safety_limits.v is not None:
+                assert self.safety_limits.v[0] <= vt <= self.safety_limits.v[1], \
+                    f"Airspeed ({vt}) is not within the specified limits \
+                        ({self.safety_limits.v[0]}, {self.safety_limits.v[1]})."
+
             if self.safety_limits.alpha is not None:
                 assert self.safety_limits.alpha[0] <= alpha <= self.safety_limits.alpha[1], \
                     f"alpha ({nz}) is not within the specified limits \
-- 
2.43.0


From c2de75aa1ba093091d93e5781a66fb35d507989e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:42 +0000
Subject: [PATCH 17/27] fix: verify the sideslip safety limit in degrees and in
 both directions

---
 safe_autonomy_dynamics/external/aerobench/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/safe_autonomy_dynamics/external/aerobench/util.py b/safe_autonomy_dynamics/external/aerobench/util.py
index 3359e56..9d1aae6 100644
--- a/safe_autonomy_dynamics/external/aerobench/util.py
+++ b/safe_autonomy_dynamics/external/aerobench/util.py
@@ -325,4 +325,4 @@ class SafetyLimitsVerifier(Freezable):
                 assert ps <= self.safety_limits.psMaxAccelDeg, "Ps is not less than the specified max."
 
             if self.safety_limits.betaMaxDeg is not None:
-                assert beta <= self.safety_limits.betaMaxDeg, "Beta is not less than the specified max."
+                assert abs(np.rad2deg(beta)) <= self.safety_limits.betaMaxDeg, "Beta is not less than the specified max."
-- 
2.43.0


From 7401ef58e5f9069a30795ec8746541dc20e6d567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:42 +0000
Subject: [PATCH 18/27] fix: print the label given to printmat

---
 safe_autonomy_dynamics/external/aerobench/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/safe_autonomy_dynamics/external/aerobench/util.py b/safe_autonomy_dynamics/external/aerobench/util.py
index 9d1aae6..3f1cedb 100644
--- a/safe_autonomy_dynamics/external/aerobench/util.py
+++ b/safe_autonomy_dynamics/external/aerobench/util.py
@@ -149,7 +149,7 @@ def printmat(mat, main_label, row_label_str, col_label_str):
     if len(mat.shape) == 1:
         mat.shape = (1, mat.shape[0])  # one-row matrix
 
-    print("{main_label} =")
+    print(f"{main_label} =")
 
     row_labels = None if row_label_str is None else row_label_str.split(' ')
     col_labels = col_label_str.split(' ')
-- 
2.43.0


From ef52225397b7d535e2e35669e2e7a02ff0dcd3dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:29 +0000
Subject: [PATCH 19/27] fix: report the state derivative at the limited end of
 step state

---
 safe_autonomy_dynamics/base_models.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/safe_autonomy_dynamics/base_models.py b/safe_autonomy_dynamics/base_models.py
index 23159d9..36a01b5 100644
--- a/safe_autonomy_dynamics/base_models.py
+++ b/safe_autonomy_dynamics/base_models.py
@@ -581,7 +581,6 @@ class BaseODESolverDynamics(BaseDynamics):
             self.trajectory_t = sol.t
 
             next_state = sol.y[:, -1]  # save last timestep of integration solution
-            state_dot = self.compute_state_dot(step_size, next_state, control)
         elif self.integration_method == "RK45_JAX":
             if not self.use_jax:
                 raise ValueError("use_jax must be set to True if using RK45_JAX")
@@ -592,14 +591,15 @@ class BaseODESolverDynamics(BaseDynamics):
                 self.compute_state_dot_jax, state, jnp.linspace(0., step_size, 11), control
             )
             next_state = sol[-1, :]  # save last timestep of integration solution
-            state_dot = self.compute_state_dot(step_size, next_state, control)
         elif self.integration_method == "Euler":
             assert self.trajectory_samples <= 0, "trajectory sampling not currently supported with euler integration"
             next_state = state + step_size * self.compute_state_dot(0, state, control)
-            state_dot = self.compute_state_dot(step_size, next_state, control)
         else:
             raise ValueError(f"invalid integration method '{self.integration_method}'")
 
+        # the end of the step is the state within the state limits, not where the integration left them
+        state_dot = self.compute_state_dot(step_size, self.np.clip(next_state, self.state_min, self.state_max), control)
+
         return next_state, state_dot
 
     def compute_state_dot_jax(self, state, t, control):
-- 
2.43.0


From f8b5bd96d7addca5ca3a1ebdbac67d5c02f5ba1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:42 +0000
Subject: [PATCH 20/27] fix: hold a state whose limits are equal in both
 directions

---
 safe_autonomy_dynamics/base_models.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/safe_autonomy_dynamics/base_models.py b/safe_autonomy_dynamics/base_models.py
index 36a01b5..dddc6fe 100644
--- a/safe_autonomy_dynamics/base_models.py
+++ b/safe_autonomy_dynamics/base_models.py
@@ -558,9 +558,10 @@ class BaseODESolverDynamics(BaseDynamics):
         upper_bounded_states = state >= self.state_max
 
         lower_bounded_clipped = self.np.clip(state_dot, 0, np.inf)
-        upper_bounded_clipped = self.np.clip(state_dot, -np.inf, 0)
-
         state_dot = self.np.where(lower_bounded_states, lower_bounded_clipped, state_dot)
+
+        # a state at both of its limits (equal limits) must not move in either direction
+        upper_bounded_clipped = self.np.clip(state_dot, -np.inf, 0)
         state_dot = self.np.where(upper_bounded_states, upper_bounded_clipped, state_dot)
 
         return state_dot
-- 
2.43.0


From 21e4c8f492b952d7a2749f1c5a5d734121eac0d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:02 +0000
Subject: [PATCH 21/27] fix: reject RK45 steps with a duration or initial
 derivative the solver cannot size

---
 safe_autonomy_dynamics/base_models.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/safe_autonomy_dynamics/base_models.py b/safe_autonomy_dynamics/base_models.py
index dddc6fe..8f4e901 100644
--- a/safe_autonomy_dynamics/base_models.py
+++ b/safe_autonomy_dynamics/base_models.py
@@ -570,6 +570,12 @@ class BaseODESolverDynamics(BaseDynamics):
 
         if self.integration_method == "RK45":
 
+            # the solver never returns from a step it cannot size
+            if not np.isfinite(step_size):
+                raise ValueError(f"step_size must be finite, instead got {step_size}")
+            if np.any(np.isnan(self.compute_state_dot(0, state, control))):
+                raise ValueError("the state derivative at the start of the step is NaN")
+
             t_eval = None
             if self.trajectory_samples > 0:
                 t_eval = np.linspace(0, step_size, self.trajectory_samples + 1)[1:]
-- 
2.43.0


From 8e0ddcf9b248e45abc50f8e547234f7537b3446b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:11 +0000
Subject: [PATCH 22/27] fix: copy the inertia matrix given to the six degree of
 freedom model

---
 safe_autonomy_dynamics/cwh/sixdof_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/safe_autonomy_dynamics/cwh/sixdof_model.py b/safe_autonomy_dynamics/cwh/sixdof_model.py
index 1fceec4..1ad149a 100644
--- a/safe_autonomy_dynamics/cwh/sixdof_model.py
+++ b/safe_autonomy_dynamics/cwh/sixdof_model.py
@@ -447,7 +447,7 @@ class SixDOFDynamics(BaseControlAffineODESolverDynamics):
         **kwargs
     ):
         self.m = m  # kg
-        self.inertia_matrix = inertia_matrix  # kg*m^2
+        self.inertia_matrix = np.copy(inertia_matrix)  # kg*m^2
         self.n = n  # rads/s
         self.body_frame_thrust = body_frame_thrust
         self.control_thrust_Hill = np.zeros(3, )
-- 
2.43.0


From 93e1d3cd6c9361b7cdc5e7a33f5d22a227150b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:31 +0000
Subject: [PATCH 23/27] fix: leave the state alone in a jax integration step of
 zero duration

---
 safe_autonomy_dynamics/base_models.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/safe_autonomy_dynamics/base_models.py b/safe_autonomy_dynamics/base_models.py
index 8f4e901..21064de 100644
--- a/safe_autonomy_dynamics/base_models.py
+++ b/safe_autonomy_dynamics/base_models.py
@@ -594,10 +594,14 @@ class BaseODESolverDynamics(BaseDynamics):
 
             assert self.trajectory_samples <= 0, "trajectory sampling not currently supported with rk45 jax integration"
 
-            sol = odeint(  # pylint: disable=used-before-assignment
-                self.compute_state_dot_jax, state, jnp.linspace(0., step_size, 11), control
-            )
-            next_state = sol[-1, :]  # save last timestep of integration solution
+            if step_size == 0:
+                # the solver yields NaN over an interval of no length
+                next_state = self.np.array(state)
+            else:
+                sol = odeint(  # pylint: disable=used-before-assignment
+                    self.compute_state_dot_jax, state, jnp.linspace(0., step_size, 11), control
+                )
+                next_state = sol[-1, :]  # save last timestep of integration solution
         elif self.integration_method == "Euler":
             assert self.trajectory_samples <= 0, "trajectory sampling not currently supported with euler integration"
             next_state = state + step_size * self.compute_state_dot(0, state, control)
-- 
2.43.0


From 7acbf1f221394650a00510ded367832c10e0fc01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:09 +0000
Subject: [PATCH 24/27] fix: compare the speed of 2d Dubins aircraft in __eq__

---
 safe_autonomy_dynamics/dubins.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/safe_autonomy_dynamics/dubins.py b/safe_autonomy_dynamics/dubins.py
index 4ece2b5..c29398a 100644
--- a/safe_autonomy_dynamics/dubins.py
+++ b/safe_autonomy_dynamics/dubins.py
@@ -335,6 +335,7 @@ class Dubins2dAircraft(BaseDubinsAircraft):
             eq = eq and self.heading == other.heading
             eq = eq and self.roll == other.roll
             eq = eq and self.gamma == other.gamma
+            eq = eq and self.v == other.v
             return eq
         return False
 
-- 
2.43.0


From 9133ae1e48ace05a2336eca1e366a9878cee2bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:35 +0000
Subject: [PATCH 25/27] fix: store integer states as floats so component
 setters keep fractions

---
 safe_autonomy_dynamics/base_models.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/safe_autonomy_dynamics/base_models.py b/safe_autonomy_dynamics/base_models.py
index 21064de..dd1d2fb 100644
--- a/safe_autonomy_dynamics/base_models.py
+++ b/safe_autonomy_dynamics/base_models.py
@@ -213,7 +213,8 @@ class BaseEntity(abc.ABC):
 
     @state.setter
     def state(self, value: np.ndarray):
-        self._state = value.copy()
+        # component setters could not store fractions in an integer array
+        self._state = value.astype(np.float64) if np.issubdtype(value.dtype, np.integer) else value.copy()
 
     @property
     @abc.abstractmethod
-- 
2.43.0


From 3c238f3c1452d4d0acefa638aa33f843e5c24ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:45 +0000
Subject: [PATCH 26/27] fix: keep fractions of named actions when the default
 control is an integer array

---
 safe_autonomy_dynamics/base_models.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/safe_autonomy_dynamics/base_models.py b/safe_autonomy_dynamics/base_models.py
index dd1d2fb..92b66f3 100644
--- a/safe_autonomy_dynamics/base_models.py
+++ b/safe_autonomy_dynamics/base_models.py
@@ -170,7 +170,8 @@ class BaseEntity(abc.ABC):
             if isinstance(action, dict):
                 assert self.control_map is not None, "Cannot use dict-type action without a control_map " \
                                                      "(see BaseEntity __init__())"
-                control = self.control_default.copy()
+                # an integer default must not truncate the named values
+                control = np.array(self.control_default, dtype=np.float64)
                 for action_name, action_value in action.items():
                     if action_name not in self.control_map:
                         raise KeyError(
-- 
2.43.0


From bd5ad6b7f70bdd6b5a724191ce2282e0187d74ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:26 +0000
Subject: [PATCH 27/27] fix: integer states truncated the derivative of the
 F-16 model

---
 .../external/aerobench/lowlevel/subf16_model.py              | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/safe_autonomy_dynamics/external/aerobench/lowlevel/subf16_model.py b/safe_autonomy_dynamics/external/aerobench/lowlevel/subf16_model.py
index 7762822..0a8a9be 100644
--- a/safe_autonomy_dynamics/external/aerobench/lowlevel/subf16_model.py
+++ b/safe_autonomy_dynamics/external/aerobench/lowlevel/subf16_model.py
@@ -35,6 +35,8 @@ outputs aircraft state vector derivative
 
 from math import cos, pi, sin
 
+import numpy as np
+
 from safe_autonomy_dynamics.external.aerobench.lowlevel.adc import adc
 from safe_autonomy_dynamics.external.aerobench.lowlevel.cl import cl
 from safe_autonomy_dynamics.external.aerobench.lowlevel.cm import cm
@@ -87,7 +89,8 @@ def subf16_model(x, u, model, adjust_cy=True):
     rtod = 57.29578
     g = 32.17
 
-    xd = x.copy()
+    # an integer state must not truncate its derivative
+    xd = np.zeros(len(x))
     vt = x[0]
     alpha = x[1] * rtod
     beta = x[2] * rtod
-- 
2.43.0


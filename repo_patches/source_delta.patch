From fbaba6d68786a6a52dedf58e65f403a4b1094d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:05 +0000
Subject: [PATCH 01/35] fix: shrink the stepsize only once (and never grow it)
 when the solver diverges

Stepsize.adapt() divided dt by the change ratio on divergence and then also
applied the iteration-count rule: with fewer than 5 iterations the retry used
the very same dt (endless retries), otherwise dt was divided twice and could
end below dt_min unnoticed.
---
 festim/stepsize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/festim/stepsize.py b/festim/stepsize.py
index f601069..1d65393 100644
--- a/festim/stepsize.py
+++ b/festim/stepsize.py
@@ -102,7 +102,7 @@ class Stepsize:
                 self.value.assign(float(self.value) / change_ratio)
                 if float(self.value) < dt_min:
                     raise ValueError("stepsize reached minimal value")
-            if nb_it < 5:
+            elif nb_it < 5:
                 self.value.assign(float(self.value) * change_ratio)
             else:
                 self.value.assign(float(self.value) / change_ratio)
-- 
2.43.0


From 8fa813a79aa4201e5c568cf559ce0f1e62d17026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:05 +0000
Subject: [PATCH 02/35] fix: a milestone that has just been reached is not the
 next milestone

With round-off t may end up slightly below the milestone it was clipped to;
next_milestone() then returned that same milestone, adapt() did not clip, and
the step could jump over the following one.
---
 festim/stepsize.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/festim/stepsize.py b/festim/stepsize.py
index 1d65393..282bb18 100644
--- a/festim/stepsize.py
+++ b/festim/stepsize.py
@@ -134,6 +134,8 @@ class Stepsize:
         if self.milestones is None:
             return None
         for milestone in self.milestones:
-            if current_time < milestone:
+            if current_time < milestone and not np.isclose(
+                current_time, milestone, atol=0
+            ):
                 return milestone
         return None
-- 
2.43.0


From 0045f343beaab3adcb9934acf3329a2f9be141b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:05 +0000
Subject: [PATCH 03/35] fix: do not let the first step overshoot a milestone or
 final_time

initial_value was used as is for the first step.
---
 festim/generic_simulation.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/festim/generic_simulation.py b/festim/generic_simulation.py
index beb556f..58e8086 100644
--- a/festim/generic_simulation.py
+++ b/festim/generic_simulation.py
@@ -475,6 +475,14 @@ class Simulation:
         if not self.settings.update_jacobian:
             self.h_transport_problem.compute_jacobian()
 
+        # the first step must not overshoot the first milestone nor final_time
+        first_stop = self.settings.final_time
+        next_milestone = self.dt.next_milestone(self.t)
+        if next_milestone is not None:
+            first_stop = min(first_stop, next_milestone)
+        if self.t + float(self.dt.value) > first_stop:
+            self.dt.value.assign(first_stop - self.t)
+
         #  Time-stepping
         festim.festim_print("Time stepping...")
         while self.t < self.settings.final_time and not np.isclose(
-- 
2.43.0


From 470936bb58a95f123d5654c5cc98ee7107e55a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:05 +0000
Subject: [PATCH 04/35] fix: raise an error when the solver diverges with a
 constant stepsize

HTransportProblem.update() retried the same problem for ever.
---
 festim/h_transport_problem.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/festim/h_transport_problem.py b/festim/h_transport_problem.py
index 24cc3f5..6366559 100644
--- a/festim/h_transport_problem.py
+++ b/festim/h_transport_problem.py
@@ -339,6 +339,8 @@ class HTransportProblem:
         while converged is False:
             self.u.assign(u_)
             nb_it, converged = self.solve_once()
+            if not converged and dt.adaptive_stepsize is None:
+                raise ValueError("Solver diverged and the stepsize is not adaptive.")
             if dt.adaptive_stepsize is not None or dt.milestones is not None:
                 dt.adapt(t, nb_it, converged)
 
-- 
2.43.0


From bd5939bc519e2afed4ecd31569f31aeee8bdb408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:08 +0000
Subject: [PATCH 05/35] fix: retry a failed step from the last accepted time

When the solver diverged, dt was reduced but t (already advanced by the old
dt), the temperature and the time-dependent expressions were not taken back:
the accepted solution was integrated over the reduced dt, evaluated and
exported at t + old dt, possibly past milestones.
---
 festim/generic_simulation.py  |  2 +-
 festim/h_transport_problem.py | 15 ++++++++++++++-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/festim/generic_simulation.py b/festim/generic_simulation.py
index 58e8086..b7d816d 100644
--- a/festim/generic_simulation.py
+++ b/festim/generic_simulation.py
@@ -516,7 +516,7 @@ class Simulation:
         # update temperature
         self.T.update(self.t)
         # update H problem
-        self.h_transport_problem.update(self.t, self.dt)
+        self.t = self.h_transport_problem.update(self.t, self.dt)
 
         # Display time
         self.display_time()
diff --git a/festim/h_transport_problem.py b/festim/h_transport_problem.py
index 6366559..02a34c3 100644
--- a/festim/h_transport_problem.py
+++ b/festim/h_transport_problem.py
@@ -330,9 +330,14 @@ class HTransportProblem:
         Args:
             t (float): the current time (s)
             dt (festim.Stepsize): the stepsize
+
+        Returns:
+            float: the time of the accepted solution (s). Smaller than the
+                argument t if the stepsize had to be reduced.
         """
         festim.update_expressions(self.expressions, t)
 
+        t_n = t - float(dt.value)  # time of the last accepted solution
         converged = False
         u_ = Function(self.u.function_space())
         u_.assign(self.u)
@@ -342,7 +347,13 @@ class HTransportProblem:
             if not converged and dt.adaptive_stepsize is None:
                 raise ValueError("Solver diverged and the stepsize is not adaptive.")
             if dt.adaptive_stepsize is not None or dt.milestones is not None:
-                dt.adapt(t, nb_it, converged)
+                dt.adapt(t if converged else t_n, nb_it, converged)
+            if not converged:
+                # the reduced step starts from the last accepted solution
+                t = t_n + float(dt.value)
+                self.T.T.assign(self.T.T_n)
+                self.T.update(t)
+                festim.update_expressions(self.expressions, t)
 
         # Update previous solutions
         self.update_previous_solutions()
@@ -350,6 +361,8 @@ class HTransportProblem:
         # Solve extrinsic traps formulation
         self.traps.solve_extrinsic_traps()
 
+        return t
+
     def solve_once(self):
         """Solves non linear problem
 
-- 
2.43.0


From b8751452d9b1e92b1e7b2dd089ef53873ac4d062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:04:28 +0000
Subject: [PATCH 06/35] fix: treat a boundary condition field given as a digit
 string like the integer

---
 festim/boundary_conditions/boundary_condition.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/festim/boundary_conditions/boundary_condition.py b/festim/boundary_conditions/boundary_condition.py
index 2f23ebc..eff8bbd 100644
--- a/festim/boundary_conditions/boundary_condition.py
+++ b/festim/boundary_conditions/boundary_condition.py
@@ -15,6 +15,8 @@ class BoundaryCondition:
 
         if field == "solute":
             self.field = 0
+        elif isinstance(field, str) and field.isdigit():
+            self.field = int(field)  # "0" and 0 are the same field
         else:
             self.field = field
         self.expression = None
-- 
2.43.0


From ed50f4903a4ff90e9b5c6e17ddb23512cdfd4273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:04:28 +0000
Subject: [PATCH 07/35] fix: CustomDirichlet with conservation of chemical
 potential

---
 festim/boundary_conditions/dirichlets/custom_dc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/festim/boundary_conditions/dirichlets/custom_dc.py b/festim/boundary_conditions/dirichlets/custom_dc.py
index fa84daf..5481c60 100644
--- a/festim/boundary_conditions/dirichlets/custom_dc.py
+++ b/festim/boundary_conditions/dirichlets/custom_dc.py
@@ -39,7 +39,7 @@ class CustomDirichlet(DirichletBC):
             **self.prms,
         )
         self.expression = value_BC
-        self.sub_expressions = self.prms.values()
+        self.sub_expressions = list(self.prms.values())
 
     def convert_prms(self):
         """Creates Expressions or Constant for all parameters"""
-- 
2.43.0


From a0f23f58f20d80f437fdf01df708afe1b2d32d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:11 +0000
Subject: [PATCH 08/35] fix: transient heat transfer starts from its initial
 condition and keeps T_n at the previous time

---
 festim/temperature/temperature_solver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/festim/temperature/temperature_solver.py b/festim/temperature/temperature_solver.py
index c520463..a0f18a0 100644
--- a/festim/temperature/temperature_solver.py
+++ b/festim/temperature/temperature_solver.py
@@ -125,6 +125,7 @@ class HeatTransferProblem(festim.Temperature):
                 ccode_T_ini = sp.printing.ccode(self.initial_condition.value)
                 self.initial_condition.value = f.Expression(ccode_T_ini, degree=2, t=0)
                 self.T_n.assign(f.interpolate(self.initial_condition.value, V))
+            self.T.assign(self.T_n)
 
         self.define_variational_problem(materials, mesh, dt)
         self.create_dirichlet_bcs(mesh.surface_markers)
@@ -260,6 +261,7 @@ class HeatTransferProblem(festim.Temperature):
             t (float): the time
         """
         if self.transient:
+            self.T_n.assign(self.T)
             festim.update_expressions(self.sub_expressions, t)
             # Solve heat transfers
             dT = f.TrialFunction(self.T.function_space())
@@ -272,7 +274,5 @@ class HeatTransferProblem(festim.Temperature):
             self.newton_solver.solve(problem, self.T.vector())
             f.end()
 
-            self.T_n.assign(self.T)
-
     def is_steady_state(self):
         return not self.transient
-- 
2.43.0


From 2902c98f5825a8b08af59f406b28971fb4677091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:02 +0000
Subject: [PATCH 09/35] fix: materials and sources defined on several
 subdomains

---
 festim/__init__.py                  |  1 +
 festim/concentration/mobile.py      |  5 +++--
 festim/concentration/theta.py       | 12 ++++++------
 festim/concentration/traps/trap.py  | 25 ++++++++++++++++++++-----
 festim/exports/trap_density_xdmf.py |  3 ++-
 festim/helpers.py                   | 15 +++++++++++++++
 festim/materials/materials.py       |  9 +++++++--
 7 files changed, 54 insertions(+), 16 deletions(-)

diff --git a/festim/__init__.py b/festim/__init__.py
index b22e350..9b98b34 100644
--- a/festim/__init__.py
+++ b/festim/__init__.py
@@ -26,6 +26,7 @@ from .helpers import (
     extract_xdmf_times,
     as_constant,
     as_expression,
+    as_subdomain_id,
     as_constant_or_expression,
     festim_print,
 )
diff --git a/festim/concentration/mobile.py b/festim/concentration/mobile.py
index af57b0d..c0e59b9 100644
--- a/festim/concentration/mobile.py
+++ b/festim/concentration/mobile.py
@@ -4,6 +4,7 @@ from festim import (
     k_B,
     RadioactiveDecay,
     SurfaceKinetics,
+    as_subdomain_id,
     festim_print,
 )
 from fenics import *
@@ -162,14 +163,14 @@ class Mobile(Concentration):
                         * c_m
                         * (density - trap.solution)
                         * self.test_function
-                        * dx(mat.id)
+                        * dx(as_subdomain_id(mat.id))
                     )
                     F_trapping += (
                         p_0
                         * exp(-E_p / k_B / T.T)
                         * trap.solution
                         * self.test_function
-                        * dx(mat.id)
+                        * dx(as_subdomain_id(mat.id))
                     )
         F += -F_trapping
 
diff --git a/festim/concentration/theta.py b/festim/concentration/theta.py
index 51fb816..5daab70 100644
--- a/festim/concentration/theta.py
+++ b/festim/concentration/theta.py
@@ -1,4 +1,4 @@
-from festim import Mobile, k_B
+from festim import Mobile, k_B, as_subdomain_id
 import fenics as f
 
 
@@ -32,11 +32,11 @@ class Theta(Mobile):
         F = 0
         for mat in self.materials:
             S = mat.S_0 * f.exp(-mat.E_S / k_B / self.T.T)
-            F += -prev_sol * v * dx(mat.id)
+            F += -prev_sol * v * dx(as_subdomain_id(mat.id))
             if mat.solubility_law == "sievert":
-                F += comp / S * v * dx(mat.id)
+                F += comp / S * v * dx(as_subdomain_id(mat.id))
             elif mat.solubility_law == "henry":
-                F += (comp / S) ** 0.5 * v * dx(mat.id)
+                F += (comp / S) ** 0.5 * v * dx(as_subdomain_id(mat.id))
         f.solve(F == 0, prev_sol, bcs=[])
 
         f.assign(self.previous_solution, prev_sol)
@@ -113,10 +113,10 @@ class Theta(Mobile):
         for mat in materials:
             if mat.solubility_law == "sievert":
                 # for sievert materials c = theta * S
-                F += self.solution * self.S * v * dx(mat.id)
+                F += self.solution * self.S * v * dx(as_subdomain_id(mat.id))
             elif mat.solubility_law == "henry":
                 # for henry materials c = theta**2 * S
-                F += self.solution**2 * self.S * v * dx(mat.id)
+                F += self.solution**2 * self.S * v * dx(as_subdomain_id(mat.id))
 
         self.form_post_processing = F
         self.post_processing_solution = f.Function(V)
diff --git a/festim/concentration/traps/trap.py b/festim/concentration/traps/trap.py
index 1fef133..4d1e390 100644
--- a/festim/concentration/traps/trap.py
+++ b/festim/concentration/traps/trap.py
@@ -1,4 +1,11 @@
-from festim import Concentration, k_B, Material, Theta, RadioactiveDecay
+from festim import (
+    Concentration,
+    k_B,
+    Material,
+    Theta,
+    RadioactiveDecay,
+    as_subdomain_id,
+)
 from fenics import *
 import sympy as sp
 
@@ -152,7 +159,7 @@ class Trap(Concentration):
             # add c_t = 0 to the form in this subdomain
             for mat in materials:
                 if mat not in self.materials:
-                    F_trapping += solution * test_function * dx(mat.id)
+                    F_trapping += solution * test_function * dx(as_subdomain_id(mat.id))
 
         for i, mat in enumerate(self.materials):
             if type(self.k_0) is list:
@@ -186,10 +193,14 @@ class Trap(Concentration):
                 * c_0
                 * (density - solution)
                 * test_function
-                * dx(mat.id)
+                * dx(as_subdomain_id(mat.id))
             )
             F_trapping += (
-                p_0 * exp(-E_p / k_B / T.T) * solution * test_function * dx(mat.id)
+                p_0
+                * exp(-E_p / k_B / T.T)
+                * solution
+                * test_function
+                * dx(as_subdomain_id(mat.id))
             )
 
         self.F_trapping = F_trapping
@@ -205,7 +216,11 @@ class Trap(Concentration):
         for source in self.sources:
             if isinstance(source, RadioactiveDecay):
                 source.value = source.form(self.solution)
-            self.F_source = -source.value * self.test_function * dx(source.volume)
+            self.F_source = (
+                -source.value
+                * self.test_function
+                * dx(as_subdomain_id(source.volume))
+            )
             self.F += self.F_source
             if isinstance(source.value, (Expression, UserExpression)):
                 self.sub_expressions.append(source.value)
diff --git a/festim/exports/trap_density_xdmf.py b/festim/exports/trap_density_xdmf.py
index 2da2463..492917c 100644
--- a/festim/exports/trap_density_xdmf.py
+++ b/festim/exports/trap_density_xdmf.py
@@ -1,3 +1,4 @@
+from festim.helpers import as_subdomain_id
 from festim.exports.xdmf_export import XDMFExport
 import fenics as f
 
@@ -29,7 +30,7 @@ class TrapDensityXDMF(XDMFExport):
         F = f.inner(u, v) * dx
 
         for mat in self.trap.materials:
-            F -= f.inner(self.trap.density[0], v) * dx(mat.id)
+            F -= f.inner(self.trap.density[0], v) * dx(as_subdomain_id(mat.id))
 
         f.solve(F == 0, u, bcs=[])
         self.function = u
diff --git a/festim/helpers.py b/festim/helpers.py
index f790050..c1a22b4 100644
--- a/festim/helpers.py
+++ b/festim/helpers.py
@@ -17,6 +17,21 @@ def update_expressions(expressions, t):
     return expressions
 
 
+def as_subdomain_id(id):
+    """Makes a (list of) subdomain id(s) a valid subdomain id for a
+    fenics.Measure
+
+    Args:
+        id (int or list): the id(s)
+
+    Returns:
+        int or tuple: the id(s), as a tuple if several
+    """
+    if isinstance(id, list):
+        return tuple(id)
+    return id
+
+
 def as_expression(expr):
     # if expr is already a fenics Expression, use it as is
     if isinstance(expr, (Expression, UserExpression)):
diff --git a/festim/materials/materials.py b/festim/materials/materials.py
index c88c7be..8394027 100644
--- a/festim/materials/materials.py
+++ b/festim/materials/materials.py
@@ -299,8 +299,13 @@ class Materials(list):
         dx = mesh.dx
         F = 0
         for mat in self:
-            F += -S * vS * dx(mat.id)
-            F += mat.S_0 * f.exp(-mat.E_S / k_B / T) * vS * dx(mat.id)
+            F += -S * vS * dx(festim.as_subdomain_id(mat.id))
+            F += (
+                mat.S_0
+                * f.exp(-mat.E_S / k_B / T)
+                * vS
+                * dx(festim.as_subdomain_id(mat.id))
+            )
         f.solve(F == 0, S, bcs=[])
 
         self.S = S
-- 
2.43.0


From 83d807696707c3ac7210c221ffbc11d8970a6eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:30 +0000
Subject: [PATCH 10/35] fix: SurfaceKinetics with conservation of chemical
 potential uses the previous concentration

---
 festim/concentration/mobile.py |  5 ++++-
 festim/concentration/theta.py  | 22 ++++++++++++++++++++++
 2 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/festim/concentration/mobile.py b/festim/concentration/mobile.py
index c0e59b9..bfda759 100644
--- a/festim/concentration/mobile.py
+++ b/festim/concentration/mobile.py
@@ -220,7 +220,7 @@ class Mobile(Concentration):
                     if isinstance(bc, SurfaceKinetics):
                         bc.create_form(
                             solute,
-                            self.previous_solution,
+                            self.previous_mobile_concentration(T),
                             self.test_function,
                             T,
                             ds,
@@ -243,3 +243,6 @@ class Mobile(Concentration):
 
     def mobile_concentration(self):
         return self.solution
+
+    def previous_mobile_concentration(self, T):
+        return self.previous_solution
diff --git a/festim/concentration/theta.py b/festim/concentration/theta.py
index 5daab70..f2fcae1 100644
--- a/festim/concentration/theta.py
+++ b/festim/concentration/theta.py
@@ -1,4 +1,5 @@
 from festim import Mobile, k_B, as_subdomain_id
+from festim.materials.materials import ArheniusCoeff
 import fenics as f
 
 
@@ -81,6 +82,27 @@ class Theta(Mobile):
             + self.materials.sievert_marker * sieverts_to_concentration
         )
 
+    def previous_mobile_concentration(self, T):
+        """Returns the hydrogen concentration of the previous timestep.
+        This is needed by SurfaceKinetics.
+
+        Args:
+            T (festim.Temperature): the temperature with attribute T_n
+
+        Returns:
+            ufl.algebra.Sum: the previous hydrogen mobile concentration
+        """
+        if T.is_steady_state():
+            S_n = self.S
+        else:
+            S_n = ArheniusCoeff(
+                self.materials, self.volume_markers, T.T_n, "S_0", "E_S", degree=2
+            )
+        return (
+            self.materials.henry_marker * self.previous_solution**2 * S_n
+            + self.materials.sievert_marker * self.previous_solution * S_n
+        )
+
     def post_processing_solution_to_concentration(self):
         """Converts the post_processing_solution from theta to mobile
         concentration.
-- 
2.43.0


From e38c724b2e359a57cb72508dfe555afac491acb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:49 +0000
Subject: [PATCH 11/35] fix: advance extrinsic trap densities with the stepsize
 of the accepted step

---
 festim/h_transport_problem.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/festim/h_transport_problem.py b/festim/h_transport_problem.py
index 02a34c3..04a79b2 100644
--- a/festim/h_transport_problem.py
+++ b/festim/h_transport_problem.py
@@ -344,6 +344,13 @@ class HTransportProblem:
         while converged is False:
             self.u.assign(u_)
             nb_it, converged = self.solve_once()
+            if converged:
+                # Update previous solutions
+                self.update_previous_solutions()
+
+                # Solve extrinsic traps formulation (with the stepsize of this
+                # step, hence before it is adapted)
+                self.traps.solve_extrinsic_traps()
             if not converged and dt.adaptive_stepsize is None:
                 raise ValueError("Solver diverged and the stepsize is not adaptive.")
             if dt.adaptive_stepsize is not None or dt.milestones is not None:
@@ -355,12 +362,6 @@ class HTransportProblem:
                 self.T.update(t)
                 festim.update_expressions(self.expressions, t)
 
-        # Update previous solutions
-        self.update_previous_solutions()
-
-        # Solve extrinsic traps formulation
-        self.traps.solve_extrinsic_traps()
-
         return t
 
     def solve_once(self):
-- 
2.43.0


From 9e9416e5e6a86bec3bfb14b26c446508d19cb9d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:14 +0000
Subject: [PATCH 12/35] fix: update time-dependent parameters of extrinsic
 traps

---
 festim/concentration/traps/extrinsic_trap.py | 1 +
 festim/concentration/traps/traps.py          | 7 +++++--
 festim/h_transport_problem.py                | 1 +
 3 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/festim/concentration/traps/extrinsic_trap.py b/festim/concentration/traps/extrinsic_trap.py
index 8eeef4d..9743c53 100644
--- a/festim/concentration/traps/extrinsic_trap.py
+++ b/festim/concentration/traps/extrinsic_trap.py
@@ -50,6 +50,7 @@ class ExtrinsicTrapBase(Trap):
         self.preconditioner = preconditioner
 
         self.newton_solver = None
+        self.density_parameters = list(kwargs)
         for name, val in kwargs.items():
             setattr(self, name, as_constant_or_expression(val))
         self.density_previous_solution = None
diff --git a/festim/concentration/traps/traps.py b/festim/concentration/traps/traps.py
index f99cec5..708dea4 100644
--- a/festim/concentration/traps/traps.py
+++ b/festim/concentration/traps/traps.py
@@ -18,6 +18,7 @@ class Traps(list):
 
         self.F = None
         self.extrinsic_formulations = []
+        self.expressions_extrinsic = []
         self.sub_expressions = []
 
     def __setitem__(self, index, item):
@@ -80,12 +81,14 @@ class Traps(list):
             T (festim.Temperature): the temperature of the simulation
         """
         self.extrinsic_formulations = []
-        expressions_extrinsic = []
+        self.expressions_extrinsic = []
         for trap in self:
             if isinstance(trap, festim.ExtrinsicTrapBase):
                 trap.create_form_density(dx, dt, T)
                 self.extrinsic_formulations.append(trap.form_density)
-        self.sub_expressions.extend(expressions_extrinsic)
+                self.expressions_extrinsic += [
+                    getattr(trap, name) for name in trap.density_parameters
+                ]
 
     def define_newton_solver_extrinsic_traps(self):
         for trap in self:
diff --git a/festim/h_transport_problem.py b/festim/h_transport_problem.py
index 04a79b2..bb4996c 100644
--- a/festim/h_transport_problem.py
+++ b/festim/h_transport_problem.py
@@ -109,6 +109,7 @@ class HTransportProblem:
         if self.settings.transient:
             self.traps.define_variational_problem_extrinsic_traps(mesh.dx, dt, self.T)
             self.traps.define_newton_solver_extrinsic_traps()
+            self.expressions += self.traps.expressions_extrinsic
 
     def define_function_space(self, mesh):
         """Creates a suitable function space for H transport problem
-- 
2.43.0


From 56b45d0d482205716d24f9d92f9c3030b3c65330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:29 +0000
Subject: [PATCH 13/35] fix: set the non-zero initial guess also when there are
 several fields

---
 festim/h_transport_problem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/festim/h_transport_problem.py b/festim/h_transport_problem.py
index bb4996c..a4dccf7 100644
--- a/festim/h_transport_problem.py
+++ b/festim/h_transport_problem.py
@@ -229,7 +229,7 @@ class HTransportProblem:
             initial_guess = project(
                 self.mobile.previous_solution + Constant(DOLFIN_EPS), functionspace
             )
-            self.mobile.solution.assign(initial_guess)
+            assign(self.mobile.solution, initial_guess)
         # this is needed to correctly create the formulation
         # TODO: write a test for this?
         if self.V.num_sub_spaces() != 0:
-- 
2.43.0


From a29fafdbd5299e1837182f5ca212dfd9e697f7f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:56 +0000
Subject: [PATCH 14/35] fix: compute MaximumSurface and MinimumSurface in a
 simulation

---
 .../derived_quantities/derived_quantities.py  |  5 +++
 .../derived_quantities/maximum_surface.py     | 17 +++-------
 .../derived_quantities/minimum_surface.py     | 17 +++-------
 festim/helpers.py                             | 33 +++++++++++++++++++
 4 files changed, 46 insertions(+), 26 deletions(-)

diff --git a/festim/exports/derived_quantities/derived_quantities.py b/festim/exports/derived_quantities/derived_quantities.py
index dec5644..547909d 100644
--- a/festim/exports/derived_quantities/derived_quantities.py
+++ b/festim/exports/derived_quantities/derived_quantities.py
@@ -1,6 +1,8 @@
 from festim import (
     MinimumVolume,
     MaximumVolume,
+    MinimumSurface,
+    MaximumSurface,
     DerivedQuantity,
 )
 import fenics as f
@@ -106,6 +108,7 @@ class DerivedQuantities(list):
 
     def assign_measures_to_quantities(self, dx, ds):
         self.volume_markers = dx.subdomain_data()
+        self.surface_markers = ds.subdomain_data()
         for quantity in self:
             quantity.dx = dx
             quantity.ds = ds
@@ -129,6 +132,8 @@ class DerivedQuantities(list):
         for quantity in self:
             if isinstance(quantity, (MaximumVolume, MinimumVolume)):
                 value = quantity.compute(self.volume_markers)
+            elif isinstance(quantity, (MaximumSurface, MinimumSurface)):
+                value = quantity.compute(self.surface_markers)
             else:
                 value = quantity.compute()
 
diff --git a/festim/exports/derived_quantities/maximum_surface.py b/festim/exports/derived_quantities/maximum_surface.py
index e83bc0e..55f874d 100644
--- a/festim/exports/derived_quantities/maximum_surface.py
+++ b/festim/exports/derived_quantities/maximum_surface.py
@@ -1,5 +1,5 @@
 from festim import SurfaceQuantity
-import fenics as f
+from festim.helpers import surface_dofs
 import numpy as np
 
 
@@ -45,17 +45,8 @@ class MaximumSurface(SurfaceQuantity):
 
     def compute(self, surface_markers):
         """Maximum of f over subdomains facets marked with self.surface"""
-        V = self.function.function_space()
-
-        dm = V.dofmap()
-
-        subd_dofs = np.unique(
-            np.hstack(
-                [
-                    dm.cell_dofs(c.index())
-                    for c in f.SubsetIterator(surface_markers, self.surface)
-                ]
-            )
+        dofs = surface_dofs(
+            self.function.function_space(), surface_markers, self.surface
         )
 
-        return np.max(self.function.vector().get_local()[subd_dofs])
+        return np.max(self.function.vector().get_local()[dofs])
diff --git a/festim/exports/derived_quantities/minimum_surface.py b/festim/exports/derived_quantities/minimum_surface.py
index ec81482..40d808b 100644
--- a/festim/exports/derived_quantities/minimum_surface.py
+++ b/festim/exports/derived_quantities/minimum_surface.py
@@ -1,5 +1,5 @@
 from festim import SurfaceQuantity
-import fenics as f
+from festim.helpers import surface_dofs
 import numpy as np
 
 
@@ -45,17 +45,8 @@ class MinimumSurface(SurfaceQuantity):
 
     def compute(self, surface_markers):
         """Minimum of f over subdomains facets marked with self.surface"""
-        V = self.function.function_space()
-
-        dm = V.dofmap()
-
-        subd_dofs = np.unique(
-            np.hstack(
-                [
-                    dm.cell_dofs(c.index())
-                    for c in f.SubsetIterator(surface_markers, self.surface)
-                ]
-            )
+        dofs = surface_dofs(
+            self.function.function_space(), surface_markers, self.surface
         )
 
-        return np.min(self.function.vector().get_local()[subd_dofs])
+        return np.min(self.function.vector().get_local()[dofs])
diff --git a/festim/helpers.py b/festim/helpers.py
index c1a22b4..99a7b4f 100644
--- a/festim/helpers.py
+++ b/festim/helpers.py
@@ -1,6 +1,8 @@
 import festim
 import xml.etree.ElementTree as ET
+import fenics as f
 from fenics import Expression, UserExpression, Constant, MPI
+import numpy as np
 import sympy as sp
 
 
@@ -32,6 +34,37 @@ def as_subdomain_id(id):
     return id
 
 
+def surface_dofs(V, surface_markers, surface):
+    """Finds the degrees of freedom located on a surface
+
+    Args:
+        V (fenics.FunctionSpace): the function space
+        surface_markers (fenics.MeshFunction): the surface markers
+        surface (int): the surface id
+
+    Returns:
+        numpy.ndarray: the indices of the degrees of freedom
+    """
+    mesh = V.mesh()
+    tdim = mesh.topology().dim()
+    gdim = mesh.geometry().dim()
+    mesh.init(surface_markers.dim(), tdim)
+
+    dofs = set()
+    for entity in f.SubsetIterator(surface_markers, surface):
+        if surface_markers.dim() == tdim:
+            dofs.update(V.dofmap().cell_dofs(entity.index()))
+            continue
+        vertices = [v.point().array()[:gdim] for v in f.vertices(entity)]
+        for cell_index in entity.entities(tdim):
+            cell = f.Cell(mesh, cell_index)
+            coordinates = V.element().tabulate_dof_coordinates(cell)
+            for dof, x in zip(V.dofmap().cell_dofs(cell_index), coordinates):
+                if min(np.linalg.norm(x - v) for v in vertices) < 1e-8 * cell.h():
+                    dofs.add(dof)
+    return np.array(sorted(dofs))
+
+
 def as_expression(expr):
     # if expr is already a fenics Expression, use it as is
     if isinstance(expr, (Expression, UserExpression)):
-- 
2.43.0


From f47dd71ac5963b2ae66196d7301e8a79405cb7ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:13 +0000
Subject: [PATCH 15/35] fix: a second run starts its exports afresh

---
 festim/exports/exports.py    | 9 +++++++++
 festim/generic_simulation.py | 1 +
 2 files changed, 10 insertions(+)

diff --git a/festim/exports/exports.py b/festim/exports/exports.py
index 989a4ae..12cc7d2 100644
--- a/festim/exports/exports.py
+++ b/festim/exports/exports.py
@@ -43,6 +43,15 @@ class Exports(list):
             return value
         raise TypeError("festim.Exports must be a list of festim.Export")
 
+    def reset(self):
+        """Forgets the steps exported by a previous run"""
+        self.final_time = None
+        self.nb_iterations = 0
+        for export in self:
+            if isinstance(export, festim.XDMFExport):
+                export.define_xdmf_file()
+                export.append = False
+
     def write(self, label_to_function, dx):
         """writes to file
 
diff --git a/festim/generic_simulation.py b/festim/generic_simulation.py
index b7d816d..8ee5ebb 100644
--- a/festim/generic_simulation.py
+++ b/festim/generic_simulation.py
@@ -362,6 +362,7 @@ class Simulation:
 
         self.V_DG1 = FunctionSpace(self.mesh.mesh, "DG", 1)
         self.exports.V_DG1 = self.V_DG1
+        self.exports.reset()
 
         # Define temperature
         if isinstance(self.T, festim.HeatTransferProblem):
-- 
2.43.0


From 75cbb1f9c438238f7b18b3dd6b2030cf58eadea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:54 +0000
Subject: [PATCH 16/35] fix: retention with traps in cylindrical and spherical
 derived quantities and point values

---
 festim/exports/exports.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/festim/exports/exports.py b/festim/exports/exports.py
index 12cc7d2..8671fae 100644
--- a/festim/exports/exports.py
+++ b/festim/exports/exports.py
@@ -63,17 +63,7 @@ class Exports(list):
             if isinstance(export, festim.DerivedQuantities):
                 # compute derived quantities
                 if export.is_compute(self.nb_iterations):
-                    # check if function has to be projected
                     for quantity in export:
-                        if isinstance(
-                            quantity, (festim.MaximumVolume, festim.MinimumVolume)
-                        ):
-                            if not isinstance(
-                                label_to_function[quantity.field], f.Function
-                            ):
-                                label_to_function[quantity.field] = f.project(
-                                    label_to_function[quantity.field], self.V_DG1
-                                )
                         if isinstance(quantity, festim.AdsorbedHydrogen):
                             for surf_funcs in label_to_function[quantity.field]:
                                 if quantity.surface in surf_funcs["surfaces"]:
@@ -82,6 +72,13 @@ class Exports(list):
                                         "post_processing_solutions"
                                     ][ind]
                         else:
+                            # if not a Function, project it onto V_DG1
+                            if not isinstance(
+                                label_to_function[quantity.field], f.Function
+                            ):
+                                label_to_function[quantity.field] = f.project(
+                                    label_to_function[quantity.field], self.V_DG1
+                                )
                             quantity.function = label_to_function[quantity.field]
                     export.compute(self.t)
                 # export derived quantities
-- 
2.43.0


From 2dd0a9cb4bc2d677f0f72c9ec4ff3a2a1439d5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:54 +0000
Subject: [PATCH 17/35] fix: export to a file in the current directory

---
 festim/exports/derived_quantities/derived_quantities.py | 2 +-
 festim/exports/txt_export.py                            | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/festim/exports/derived_quantities/derived_quantities.py b/festim/exports/derived_quantities/derived_quantities.py
index 547909d..605db28 100644
--- a/festim/exports/derived_quantities/derived_quantities.py
+++ b/festim/exports/derived_quantities/derived_quantities.py
@@ -152,7 +152,7 @@ class DerivedQuantities(list):
             # if the directory doesn't exist
             # create it
             dirname = os.path.dirname(self.filename)
-            if not os.path.exists(dirname):
+            if dirname and not os.path.exists(dirname):
                 os.makedirs(dirname, exist_ok=True)
 
             # save the data to csv
diff --git a/festim/exports/txt_export.py b/festim/exports/txt_export.py
index 6137b8b..283fa79 100644
--- a/festim/exports/txt_export.py
+++ b/festim/exports/txt_export.py
@@ -201,7 +201,7 @@ class TXTExport(festim.Export):
             # if the directory doesn't exist
             # create it
             dirname = os.path.dirname(self.filename)
-            if not os.path.exists(dirname):
+            if dirname and not os.path.exists(dirname):
                 os.makedirs(dirname, exist_ok=True)
 
             # if steady, add the corresponding label
-- 
2.43.0


From ac00be6bd222a9754925b01303786c95961d9ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:54 +0000
Subject: [PATCH 18/35] fix: XDMFExport with mode "last" in a steady-state
 simulation

---
 festim/exports/xdmf_export.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/festim/exports/xdmf_export.py b/festim/exports/xdmf_export.py
index 14383fa..75538e4 100644
--- a/festim/exports/xdmf_export.py
+++ b/festim/exports/xdmf_export.py
@@ -146,13 +146,16 @@ class XDMFExport(Export):
 
         Args:
             t (float): the current time
-            final_time (float): the final time of the simulation
+            final_time (float): the final time of the simulation (None if
+                steady state)
             nb_iterations (int): the current number of time steps
 
         Returns:
             bool: True if export should be exported, else False
         """
-        if self.mode == "last" and np.isclose(t, final_time, atol=0):
+        if self.mode == "last" and (
+            final_time is None or np.isclose(t, final_time, atol=0)
+        ):
             return True
         elif isinstance(self.mode, int):
             if nb_iterations % self.mode == 0:
-- 
2.43.0


From 77e7ded5c60106e848de12e4a4d2e1a61a1bb32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:54 +0000
Subject: [PATCH 19/35] fix: a HeatTransferProblem with an initial condition
 can be initialised again

---
 festim/temperature/temperature_solver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/festim/temperature/temperature_solver.py b/festim/temperature/temperature_solver.py
index a0f18a0..ca966fb 100644
--- a/festim/temperature/temperature_solver.py
+++ b/festim/temperature/temperature_solver.py
@@ -123,8 +123,8 @@ class HeatTransferProblem(festim.Temperature):
                         )
             else:
                 ccode_T_ini = sp.printing.ccode(self.initial_condition.value)
-                self.initial_condition.value = f.Expression(ccode_T_ini, degree=2, t=0)
-                self.T_n.assign(f.interpolate(self.initial_condition.value, V))
+                T_ini = f.Expression(ccode_T_ini, degree=2, t=0)
+                self.T_n.assign(f.interpolate(T_ini, V))
             self.T.assign(self.T_n)
 
         self.define_variational_problem(materials, mesh, dt)
-- 
2.43.0


From 862b86ca891044756dfe229311ed0a4fbe05bd6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:58 +0000
Subject: [PATCH 20/35] fix: TrapDensityXDMF exports the density of each
 material

---
 festim/exports/trap_density_xdmf.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/festim/exports/trap_density_xdmf.py b/festim/exports/trap_density_xdmf.py
index 492917c..16524c0 100644
--- a/festim/exports/trap_density_xdmf.py
+++ b/festim/exports/trap_density_xdmf.py
@@ -29,8 +29,12 @@ class TrapDensityXDMF(XDMFExport):
         v = f.TestFunction(functionspace)
         F = f.inner(u, v) * dx
 
-        for mat in self.trap.materials:
-            F -= f.inner(self.trap.density[0], v) * dx(as_subdomain_id(mat.id))
+        for i, mat in enumerate(self.trap.materials):
+            if len(self.trap.density) > 1:
+                density = self.trap.density[i]
+            else:
+                density = self.trap.density[0]
+            F -= f.inner(density, v) * dx(as_subdomain_id(mat.id))
 
         f.solve(F == 0, u, bcs=[])
         self.function = u
-- 
2.43.0


From 297c6d5475da8cea844b0ee5424514acaff53e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:58 +0000
Subject: [PATCH 21/35] fix: simulations do not share their default sources,
 boundary and initial conditions

---
 festim/generic_simulation.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/festim/generic_simulation.py b/festim/generic_simulation.py
index 8ee5ebb..0f7110f 100644
--- a/festim/generic_simulation.py
+++ b/festim/generic_simulation.py
@@ -16,7 +16,7 @@ class Simulation:
         materials (festim.Materials or list or festim.Material, optional):
             The model materials. Defaults to None.
         sources (list of festim.Source, optional): Volumetric sources
-            (particle or heat sources). Defaults to [].
+            (particle or heat sources). Defaults to None.
         boundary_conditions (list of festim.BoundaryCondition, optional):
             The model's boundary conditions (temperature of H
             concentration). Defaults to None.
@@ -30,7 +30,7 @@ class Simulation:
             temperature. Can be an expression or a heat transfer model.
             Defaults to None.
         initial_conditions (list of festim.InitialCondition, optional):
-            The model's initial conditions (H or T). Defaults to [].
+            The model's initial conditions (H or T). Defaults to None.
         exports (festim.Exports or list or festim.Export, optional): The model's exports
             (derived quantities, XDMF exports, txt exports...). Defaults
             to None.
@@ -78,13 +78,13 @@ class Simulation:
         self,
         mesh=None,
         materials=None,
-        sources=[],
-        boundary_conditions=[],
+        sources=None,
+        boundary_conditions=None,
         traps=None,
         dt=None,
         settings=None,
         temperature=None,
-        initial_conditions=[],
+        initial_conditions=None,
         exports=None,
         log_level=40,
     ):
@@ -96,12 +96,12 @@ class Simulation:
         self.traps = traps
         self.materials = materials
 
-        self.boundary_conditions = boundary_conditions
-        self.initial_conditions = initial_conditions
+        self.boundary_conditions = [] if boundary_conditions is None else boundary_conditions
+        self.initial_conditions = [] if initial_conditions is None else initial_conditions
         self.T = temperature
         self.exports = exports
         self.mesh = mesh
-        self.sources = sources
+        self.sources = [] if sources is None else sources
 
         # internal attributes
         self.h_transport_problem = None
-- 
2.43.0


From 88de1f2228aea50af6d6dd73dabf87b47609b9fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:58 +0000
Subject: [PATCH 22/35] fix: cylindrical and spherical quantities follow a
 change of mesh

---
 festim/exports/exports.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/festim/exports/exports.py b/festim/exports/exports.py
index 8671fae..ad79aae 100644
--- a/festim/exports/exports.py
+++ b/festim/exports/exports.py
@@ -127,5 +127,8 @@ class Exports(list):
                 for quantity in export:
                     quantity.t = []
                     quantity.data = []
+                    if hasattr(quantity, "r"):
+                        # the coordinate of a previous mesh
+                        quantity.r = None
                 export.assign_measures_to_quantities(dx, ds)
                 export.assign_properties_to_quantities(materials)
-- 
2.43.0


From 88faf6e1dc1a0f7b24b6a531afd9a1a683726160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:11 +0000
Subject: [PATCH 23/35] fix: let TXTExport filter with one-piece and
 several-piece borders together

---
 festim/exports/txt_export.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/festim/exports/txt_export.py b/festim/exports/txt_export.py
index 283fa79..7aaa060 100644
--- a/festim/exports/txt_export.py
+++ b/festim/exports/txt_export.py
@@ -154,8 +154,7 @@ class TXTExport(festim.Export):
             borders = []
             for material in materials:
                 if material.borders:
-                    for border in material.borders:
-                        borders.append(border)
+                    borders += np.ravel(material.borders).tolist()
             borders = np.unique(borders)
 
             # Find indices of the closest duplicates to interfaces
-- 
2.43.0


From b340c0c5689615e0e94efed3415f6b81244cad59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:11 +0000
Subject: [PATCH 24/35] fix: start every run with the time-dependent
 expressions at time zero

---
 festim/h_transport_problem.py            | 3 +++
 festim/temperature/temperature_solver.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/festim/h_transport_problem.py b/festim/h_transport_problem.py
index a4dccf7..feb72ce 100644
--- a/festim/h_transport_problem.py
+++ b/festim/h_transport_problem.py
@@ -111,6 +111,9 @@ class HTransportProblem:
             self.traps.define_newton_solver_extrinsic_traps()
             self.expressions += self.traps.expressions_extrinsic
 
+        # a previous run may have left some expressions at its last time
+        festim.update_expressions(self.expressions, 0)
+
     def define_function_space(self, mesh):
         """Creates a suitable function space for H transport problem
 
diff --git a/festim/temperature/temperature_solver.py b/festim/temperature/temperature_solver.py
index ca966fb..23db717 100644
--- a/festim/temperature/temperature_solver.py
+++ b/festim/temperature/temperature_solver.py
@@ -127,8 +127,11 @@ class HeatTransferProblem(festim.Temperature):
                 self.T_n.assign(f.interpolate(T_ini, V))
             self.T.assign(self.T_n)
 
+        self.sub_expressions = []
         self.define_variational_problem(materials, mesh, dt)
         self.create_dirichlet_bcs(mesh.surface_markers)
+        # a previous run may have left some expressions at its last time
+        festim.update_expressions(self.sub_expressions, 0)
 
         if not self.newton_solver:
             self.define_newton_solver()
-- 
2.43.0


From 672db909576358e896a5f9f315b37e51dbb26791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:24 +0000
Subject: [PATCH 25/35] fix: accept the borders of a material as a nested list
 of one piece

---
 festim/materials/materials.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/festim/materials/materials.py b/festim/materials/materials.py
index 8394027..6d312ec 100644
--- a/festim/materials/materials.py
+++ b/festim/materials/materials.py
@@ -256,7 +256,7 @@ class Materials(list):
                 return material.id
             # else find the correct material
             else:
-                if isinstance(material.borders[0], list) and len(material.borders) > 1:
+                if isinstance(material.borders[0], list):
                     list_of_borders = material.borders
                 else:
                     list_of_borders = [material.borders]
-- 
2.43.0


From 05bf055500404a9c7e7699225795c40ef6137c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:37 +0000
Subject: [PATCH 26/35] fix: check the materials before solving the heat
 equation with them

---
 festim/temperature/temperature_solver.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/festim/temperature/temperature_solver.py b/festim/temperature/temperature_solver.py
index 23db717..5801268 100644
--- a/festim/temperature/temperature_solver.py
+++ b/festim/temperature/temperature_solver.py
@@ -112,6 +112,8 @@ class HeatTransferProblem(festim.Temperature):
             raise AttributeError(
                 "Initial condition is required for transient heat transfer simulations"
             )
+        # the form below needs the thermal properties of all materials
+        materials.check_materials(self)
         if self.transient and self.initial_condition:
             if isinstance(self.initial_condition.value, str):
                 if self.initial_condition.value.endswith(".xdmf"):
-- 
2.43.0


From 37cf012b9b25e33a1eb640a303ad8d065037ea04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:48 +0000
Subject: [PATCH 27/35] fix: write checkpoints of the components of a mixed
 solution correctly

---
 festim/exports/xdmf_export.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/festim/exports/xdmf_export.py b/festim/exports/xdmf_export.py
index 75538e4..ce1b2db 100644
--- a/festim/exports/xdmf_export.py
+++ b/festim/exports/xdmf_export.py
@@ -131,8 +131,15 @@ class XDMFExport(Export):
                 msg += "https://github.com/festim-dev/festim/issues/134)"
                 warnings.warn(msg)
 
+            # write_checkpoint misplaces values of a component of a mixed
+            # function, so it is given a function of the collapsed space
+            function = self.function
+            V = function.function_space()
+            if len(V.component()) > 0:
+                function = f.interpolate(function, V.collapse())
+
             self.file.write_checkpoint(
-                self.function,
+                function,
                 self.label,
                 t,
                 f.XDMFFile.Encoding.HDF5,
-- 
2.43.0


From 2d5a979a34a22dc1ef474847847237a28f6f8fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:58 +0000
Subject: [PATCH 28/35] fix: read the mobile concentration of a checkpoint in
 DG1 with chemical_pot

With chemical_pot=True the mobile concentration is exported as a DG1 function
but was read back in a CG1 space: the values at interfaces were lost and a
restarted simulation did not start from the exported concentration.
---
 festim/concentration/theta.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/festim/concentration/theta.py b/festim/concentration/theta.py
index f2fcae1..fd0d4a5 100644
--- a/festim/concentration/theta.py
+++ b/festim/concentration/theta.py
@@ -42,6 +42,12 @@ class Theta(Mobile):
 
         f.assign(self.previous_solution, prev_sol)
 
+    def get_comp(self, V, value, label=None, time_step=None):
+        # the concentration is discontinuous at interfaces, it is exported and
+        # has to be read in a discontinuous space
+        V_DG1 = f.FunctionSpace(V.mesh(), "DG", 1)
+        return super().get_comp(V_DG1, value, label=label, time_step=time_step)
+
     def get_concentration_for_a_given_material(self, material, T):
         """Returns the concentration (and previous concentration) for a given
         material
-- 
2.43.0


From b3fc46a4fa550104db59e0863888f1ed2f089b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:59 +0000
Subject: [PATCH 29/35] fix: reassign the trap ids at each initialisation

A Trap without an id kept the id it got from its position in the list of an
earlier initialisation. When the same Trap objects were then used in another
order, or some were removed, two fields could have the same id or the fields
expected from the positions did not exist.
---
 festim/concentration/traps/trap.py  | 1 +
 festim/concentration/traps/traps.py | 5 ++++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/festim/concentration/traps/trap.py b/festim/concentration/traps/trap.py
index 4d1e390..60b2857 100644
--- a/festim/concentration/traps/trap.py
+++ b/festim/concentration/traps/trap.py
@@ -47,6 +47,7 @@ class Trap(Concentration):
     def __init__(self, k_0, E_k, p_0, E_p, materials, density, id=None):
         super().__init__()
         self.id = id
+        self.assigned_id = None
         self.k_0 = k_0
         self.E_k = E_k
         self.p_0 = p_0
diff --git a/festim/concentration/traps/traps.py b/festim/concentration/traps/traps.py
index 708dea4..4f3723a 100644
--- a/festim/concentration/traps/traps.py
+++ b/festim/concentration/traps/traps.py
@@ -47,8 +47,11 @@ class Traps(list):
 
     def assign_traps_ids(self):
         for i, trap in enumerate(self, 1):
-            if trap.id is None:
+            # ids given by the user are kept, ids assigned by a previous
+            # initialisation are not: the position in the list may have changed
+            if trap.id is None or trap.id == trap.assigned_id:
                 trap.id = i
+                trap.assigned_id = i
 
     def create_forms(self, mobile, materials, T, dx, dt=None):
         self.F = 0
-- 
2.43.0


From 399da93b896bb3760aa8a571a1cafe73c72bf3c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:59 +0000
Subject: [PATCH 30/35] fix: validate the items added to the typed lists with
 +=

list.__iadd__ does not call extend: Materials, Traps, Exports and
DerivedQuantities accepted anything added with +=.
---
 festim/concentration/traps/traps.py                     | 4 ++++
 festim/exports/derived_quantities/derived_quantities.py | 4 ++++
 festim/exports/exports.py                               | 4 ++++
 festim/materials/materials.py                           | 4 ++++
 4 files changed, 16 insertions(+)

diff --git a/festim/concentration/traps/traps.py b/festim/concentration/traps/traps.py
index 4f3723a..b78467d 100644
--- a/festim/concentration/traps/traps.py
+++ b/festim/concentration/traps/traps.py
@@ -36,6 +36,10 @@ class Traps(list):
         else:
             super().extend(self._validate_trap(item) for item in other)
 
+    def __iadd__(self, other):
+        self.extend(other)
+        return self
+
     def _validate_trap(self, value):
         if isinstance(value, festim.Trap):
             return value
diff --git a/festim/exports/derived_quantities/derived_quantities.py b/festim/exports/derived_quantities/derived_quantities.py
index 605db28..5dda2d0 100644
--- a/festim/exports/derived_quantities/derived_quantities.py
+++ b/festim/exports/derived_quantities/derived_quantities.py
@@ -79,6 +79,10 @@ class DerivedQuantities(list):
         else:
             super().extend(self._validate_derived_quantity(item) for item in other)
 
+    def __iadd__(self, other):
+        self.extend(other)
+        return self
+
     def _validate_derived_quantity(self, value):
         if isinstance(value, DerivedQuantity):
             return value
diff --git a/festim/exports/exports.py b/festim/exports/exports.py
index ad79aae..0de791b 100644
--- a/festim/exports/exports.py
+++ b/festim/exports/exports.py
@@ -36,6 +36,10 @@ class Exports(list):
         else:
             super().extend(self._validate_export(item) for item in other)
 
+    def __iadd__(self, other):
+        self.extend(other)
+        return self
+
     def _validate_export(self, value):
         if isinstance(value, festim.Export) or isinstance(
             value, festim.DerivedQuantities
diff --git a/festim/materials/materials.py b/festim/materials/materials.py
index 6d312ec..039b084 100644
--- a/festim/materials/materials.py
+++ b/festim/materials/materials.py
@@ -43,6 +43,10 @@ class Materials(list):
         else:
             super().extend(self._validate_material(item) for item in other)
 
+    def __iadd__(self, other):
+        self.extend(other)
+        return self
+
     def _validate_material(self, value):
         if isinstance(value, festim.Material):
             return value
-- 
2.43.0


From 08113435a37ff3b3e06f1e835907ef10e1f4ed8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:11 +0000
Subject: [PATCH 31/35] fix: use the solver parameters in force for the heat
 transfer problem

The Newton solver of a HeatTransferProblem was created once and kept: changes of
its tolerances, maximum_iterations, linear_solver or preconditioner were ignored
by later initialisations.
---
 festim/temperature/temperature_solver.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/festim/temperature/temperature_solver.py b/festim/temperature/temperature_solver.py
index 5801268..b6c0aee 100644
--- a/festim/temperature/temperature_solver.py
+++ b/festim/temperature/temperature_solver.py
@@ -62,6 +62,7 @@ class HeatTransferProblem(festim.Temperature):
         self.boundary_conditions = []
         self.sub_expressions = []
         self.newton_solver = None
+        self._built_in_newton_solver = None
 
     @property
     def newton_solver(self):
@@ -135,8 +136,13 @@ class HeatTransferProblem(festim.Temperature):
         # a previous run may have left some expressions at its last time
         festim.update_expressions(self.sub_expressions, 0)
 
+        # a solver given by the user is kept, the one made by a previous
+        # initialisation may have outdated parameters
+        if self.newton_solver is self._built_in_newton_solver:
+            self.newton_solver = None
         if not self.newton_solver:
             self.define_newton_solver()
+            self._built_in_newton_solver = self.newton_solver
 
         if not self.transient:
             festim.festim_print("Solving stationary heat equation")
-- 
2.43.0


From f3e09d5e4cd04b361d105dc4f34c187c6784bcde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:57 +0000
Subject: [PATCH 32/35] fix: quote the titles of the derived quantities file
 that contain a comma

The title of a PointValue in 2D and 3D contains a comma, the header of the csv
file had more columns than its rows.
---
 festim/exports/derived_quantities/derived_quantities.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/festim/exports/derived_quantities/derived_quantities.py b/festim/exports/derived_quantities/derived_quantities.py
index 5dda2d0..06e636b 100644
--- a/festim/exports/derived_quantities/derived_quantities.py
+++ b/festim/exports/derived_quantities/derived_quantities.py
@@ -6,6 +6,7 @@ from festim import (
     DerivedQuantity,
 )
 import fenics as f
+import csv
 import os
 import numpy as np
 from typing import Union
@@ -159,8 +160,10 @@ class DerivedQuantities(list):
             if dirname and not os.path.exists(dirname):
                 os.makedirs(dirname, exist_ok=True)
 
-            # save the data to csv
-            np.savetxt(self.filename, np.array(self.data), fmt="%s", delimiter=",")
+            # save the data to csv, titles containing a comma (eg. PointValue in
+            # 2D) are quoted
+            with open(self.filename, "w", newline="") as file:
+                csv.writer(file, lineterminator="\n").writerows(self.data)
         return True
 
     def is_export(self, t, final_time, nb_iterations):
-- 
2.43.0


From 5102b2864a9883806e25e02ebaca0e24b5335483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:55 +0000
Subject: [PATCH 33/35] fix: export times added to the milestones by an earlier
 initialisation no longer persist

---
 festim/generic_simulation.py | 2 ++
 festim/stepsize.py           | 9 +++++++++
 2 files changed, 11 insertions(+)

diff --git a/festim/generic_simulation.py b/festim/generic_simulation.py
index 0f7110f..13c6e60 100644
--- a/festim/generic_simulation.py
+++ b/festim/generic_simulation.py
@@ -344,6 +344,7 @@ class Simulation:
         # initialise dt
         if self.settings.transient:
             self.dt.initialise_value()
+            self.dt.remove_export_times()
 
         self.h_transport_problem = HTransportProblem(
             self.mobile, self.traps, self.T, self.settings, self.initial_conditions
@@ -439,6 +440,7 @@ class Simulation:
                             msg += "TXTExport.times are added to milestones"
                             warnings.warn(msg)
                             self.dt.milestones.append(time)
+                            self.dt.export_times.append(time)
                     self.dt.milestones.sort()
 
         self.exports.initialise_derived_quantities(
diff --git a/festim/stepsize.py b/festim/stepsize.py
index 282bb18..d38481d 100644
--- a/festim/stepsize.py
+++ b/festim/stepsize.py
@@ -72,6 +72,7 @@ class Stepsize:
 
     @milestones.setter
     def milestones(self, value):
+        self.export_times = []  # milestones added for exports
         if value:
             self._milestones = sorted(value)
         else:
@@ -82,6 +83,14 @@ class Stepsize:
         and stores it in self.value"""
         self.value = f.Constant(self.initial_value, name="dt")
 
+    def remove_export_times(self):
+        """Removes the milestones that were added for the exports of an earlier
+        initialisation"""
+        for time in self.export_times:
+            if time in self.milestones:
+                self.milestones.remove(time)
+        self.export_times = []
+
     def adapt(self, t, nb_it, converged):
         """Changes the stepsize based on convergence.
 
-- 
2.43.0


From 4b6c98fcb7cb46f2b5dc23504c59db91005fa4fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:55 +0000
Subject: [PATCH 34/35] fix: look up the materials named by a trap at each
 initialisation

---
 festim/concentration/traps/trap.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/festim/concentration/traps/trap.py b/festim/concentration/traps/trap.py
index 60b2857..9fa30c0 100644
--- a/festim/concentration/traps/trap.py
+++ b/festim/concentration/traps/trap.py
@@ -53,6 +53,7 @@ class Trap(Concentration):
         self.p_0 = p_0
         self.E_p = E_p
         self.materials = materials
+        self._found_materials = None
 
         self.density = []
         self.make_density(density)
@@ -82,12 +83,17 @@ class Trap(Concentration):
         Raises:
             ValueError: if some duplicates are found
         """
+        # the names are looked up again at each initialisation
+        if self.materials != self._found_materials:
+            self._given_materials = self.materials
+
         new_materials = []
 
-        for material in self.materials:
+        for material in self._given_materials:
             new_materials.append(materials.find_material(material))
 
         self.materials = new_materials
+        self._found_materials = list(new_materials)
 
         if len(self.materials) != len(list(set(self.materials))):
             raise ValueError("Duplicate materials in trap")
-- 
2.43.0


From ce0c67d166de773f4405eb4b0066eee89dadd51f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:23 +0000
Subject: [PATCH 35/35] fix: initial conditions, sources, boundary conditions
 and trap density exports of traps with given ids act on the trap with that id

---
 .../dirichlets/dirichlet_bc.py                |  7 ++++++-
 festim/exports/exports.py                     |  3 ++-
 festim/generic_simulation.py                  | 12 ++++++-----
 festim/h_transport_problem.py                 | 21 +++++++++++--------
 4 files changed, 27 insertions(+), 16 deletions(-)

diff --git a/festim/boundary_conditions/dirichlets/dirichlet_bc.py b/festim/boundary_conditions/dirichlets/dirichlet_bc.py
index 3bc72c5..e945617 100644
--- a/festim/boundary_conditions/dirichlets/dirichlet_bc.py
+++ b/festim/boundary_conditions/dirichlets/dirichlet_bc.py
@@ -59,6 +59,7 @@ class DirichletBC(BoundaryCondition):
         chemical_pot=False,
         materials=None,
         volume_markers=None,
+        component=None,
     ):
         """creates a list of fenics.DirichletBC and stores it in
         self.dirichlet_bc
@@ -74,6 +75,8 @@ class DirichletBC(BoundaryCondition):
                 chemical_pot is True. Defaults to None.
             volume_markers (fenics.MeshFunction, optional): the volume markers,
                 only needed when chemical_pot is True. Defaults to None.
+            component (int, optional): the position of the field in V. If
+                None, it is the field itself. Defaults to None.
         """
         self.dirichlet_bc = []
         self.create_expression(T)
@@ -86,7 +89,9 @@ class DirichletBC(BoundaryCondition):
         if V.num_sub_spaces() == 0:
             funspace = V
         else:  # if only one field, use subspace
-            funspace = V.sub(self.field)
+            if component is None:
+                component = self.field
+            funspace = V.sub(component)
         for surface in self.surfaces:
             bci = f.DirichletBC(funspace, self.expression, surface_markers, surface)
             self.dirichlet_bc.append(bci)
diff --git a/festim/exports/exports.py b/festim/exports/exports.py
index 0de791b..54760d3 100644
--- a/festim/exports/exports.py
+++ b/festim/exports/exports.py
@@ -97,10 +97,11 @@ class Exports(list):
                             label_to_function["retention"] = f.project(
                                 label_to_function["retention"], self.V_DG1
                             )
-                    export.function = label_to_function[export.field]
                     if isinstance(export, festim.TrapDensityXDMF):
+                        export.function = export.trap.post_processing_solution
                         export.write(self.t, dx)
                     else:
+                        export.function = label_to_function[export.field]
                         export.write(self.t)
                     export.append = True
 
diff --git a/festim/generic_simulation.py b/festim/generic_simulation.py
index 13c6e60..42fd063 100644
--- a/festim/generic_simulation.py
+++ b/festim/generic_simulation.py
@@ -215,9 +215,10 @@ class Simulation:
             "mobile": self.mobile,
             "T": self.T,
         }
-        for i, trap in enumerate(self.traps, 1):
-            field_to_object[i] = trap
-            field_to_object[str(i)] = trap
+        self.traps.assign_traps_ids()
+        for trap in self.traps:
+            field_to_object[trap.id] = trap
+            field_to_object[str(trap.id)] = trap
 
         # set sources
         for source in self.sources:
@@ -239,10 +240,11 @@ class Simulation:
     def check_boundary_conditions(self):
         """Runs a series of checks on the BCs and raise errors accordingly"""
 
+        self.traps.assign_traps_ids()
         valid_fields = (
             ["T", 0, "0"]  # temperature and mobile concentration
-            + [str(i + 1) for i, _ in enumerate(self.traps)]
-            + [i + 1 for i, _ in enumerate(self.traps)]
+            + [str(trap.id) for trap in self.traps]
+            + [trap.id for trap in self.traps]
         )
 
         # collect all DirichletBCs and SurfaceKinetics objects
diff --git a/festim/h_transport_problem.py b/festim/h_transport_problem.py
index feb72ce..f09b110 100644
--- a/festim/h_transport_problem.py
+++ b/festim/h_transport_problem.py
@@ -144,6 +144,14 @@ class HTransportProblem:
         self.V_CG1 = FunctionSpace(mesh.mesh, "CG", 1)
         self.V_DG1 = FunctionSpace(mesh.mesh, "DG", 1)
 
+    def field_to_component(self):
+        """Maps the fields (see Trap.id) to their position in self.u"""
+        components = {"solute": 0, "0": 0, 0: 0}
+        for i, trap in enumerate(self.traps, 1):
+            components[trap.id] = i
+            components[str(trap.id)] = i
+        return components
+
     def initialise_concentrations(self):
         """Creates the main fenics.Function (holding all the concentrations),
         eventually split it and assign it to Trap and Mobile.
@@ -185,14 +193,7 @@ class HTransportProblem:
 
         festim.festim_print("Defining initial values")
 
-        field_to_component = {
-            "solute": 0,
-            "0": 0,
-            0: 0,
-        }
-        for i, trap in enumerate(self.traps, 1):
-            field_to_component[trap.id] = i
-            field_to_component[str(trap.id)] = i
+        field_to_component = self.field_to_component()
         # TODO refactore this, attach the initial conditions to the objects directly
         for ini in self.initial_conditions:
             value = ini.value
@@ -208,7 +209,7 @@ class HTransportProblem:
                     functionspace, value, label=ini.label, time_step=ini.time_step
                 )
             else:
-                trap = self.traps.get_trap(component)
+                trap = self.traps[component - 1]
                 trap.initialise(
                     functionspace, value, label=ini.label, time_step=ini.time_step
                 )
@@ -310,6 +311,7 @@ class HTransportProblem:
         problem and add them to self.bcs
         """
         self.bcs = []
+        components = self.field_to_component()
         for bc in self.boundary_conditions:
             if bc.field != "T" and isinstance(bc, festim.DirichletBC):
                 bc.create_dirichletbc(
@@ -319,6 +321,7 @@ class HTransportProblem:
                     chemical_pot=self.settings.chemical_pot,
                     materials=materials,
                     volume_markers=mesh.volume_markers,
+                    component=components[bc.field],
                 )
                 self.bcs += bc.dirichlet_bc
                 self.expressions += bc.sub_expressions
-- 
2.43.0


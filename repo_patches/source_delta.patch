From 6c82b2f53ce71589014d602cab65ad878bfb3273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:41 +0000
Subject: [PATCH 01/35] fix: SearchRwithSPDOptions.extract_params reads
 attributes that do not exist

---
 neural_network_lyapunov/r_options.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neural_network_lyapunov/r_options.py b/neural_network_lyapunov/r_options.py
index fcb3d7c..a2f7ff4 100644
--- a/neural_network_lyapunov/r_options.py
+++ b/neural_network_lyapunov/r_options.py
@@ -111,8 +111,8 @@ class SearchRwithSPDOptions(ROptions):
     def extract_params(self):
         return {
             "R_size": self.R_size,
-            "R_epsilon": self.R_epsilon,
-            "R_variables": self.R_variables()
+            "R_epsilon": self.epsilon,
+            "R_variables": self.variables()
         }
 
 
-- 
2.43.0


From b9716b804c81ffbcb78c60757ae75cc9c04ac41b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:02 +0000
Subject: [PATCH 02/35] fix: joint-space samples with more than one joint read
 the wrong simulator fields

---
 neural_network_lyapunov/pybullet_data_generation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neural_network_lyapunov/pybullet_data_generation.py b/neural_network_lyapunov/pybullet_data_generation.py
index 6b1be58..0c68386 100644
--- a/neural_network_lyapunov/pybullet_data_generation.py
+++ b/neural_network_lyapunov/pybullet_data_generation.py
@@ -225,8 +225,8 @@ class PybulletSampleGenerator:
             pb.stepSimulation()
         if self.joint_space:
             state = pb.getJointStates(self.robot_id, list(range(len(q0))))
-            q1 = state[0][:len(q0)]
-            v1 = state[0][len(q0):len(q0) + len(v0)]
+            q1 = [joint_state[0] for joint_state in state]
+            v1 = [joint_state[1] for joint_state in state]
             q1 = torch.tensor(q1, dtype=self.dtype)
             v1 = torch.tensor(v1, dtype=self.dtype)
             x1 = torch.cat((q1, v1))
-- 
2.43.0


From f7a4aa435db0ab082a5289bf21bb96a087ec3521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:19 +0000
Subject: [PATCH 03/35] fix: AccelerationCar.dynamics concatenates 0-d tensors,
 which torch refuses

---
 neural_network_lyapunov/examples/car/acceleration_car.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_network_lyapunov/examples/car/acceleration_car.py b/neural_network_lyapunov/examples/car/acceleration_car.py
index 0e3fd64..cfe5f69 100644
--- a/neural_network_lyapunov/examples/car/acceleration_car.py
+++ b/neural_network_lyapunov/examples/car/acceleration_car.py
@@ -30,7 +30,7 @@ class AccelerationCar:
             pos_dot = np.array([np.cos(theta) * vel, np.sin(theta) * vel])
             return np.array([pos_dot[0], pos_dot[1], u[0], u[1]])
         elif isinstance(x, torch.Tensor):
-            return torch.cat(
+            return torch.stack(
                 (torch.cos(theta) * vel, torch.sin(theta) * vel, u[0], u[1]))
 
     def next_pose(self, x, u, dt):
-- 
2.43.0


From 00bc7b2523ec42de8484fc275449f5ce39d3100d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:19 +0000
Subject: [PATCH 04/35] fix: Pole.dynamics has the wrong sign on the Coriolis
 cross term of the vertical equation

---
 neural_network_lyapunov/examples/pole/pole.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neural_network_lyapunov/examples/pole/pole.py b/neural_network_lyapunov/examples/pole/pole.py
index 7c07dbe..79c19a7 100644
--- a/neural_network_lyapunov/examples/pole/pole.py
+++ b/neural_network_lyapunov/examples/pole/pole.py
@@ -61,7 +61,7 @@ class Pole:
                 0, 0,
                 (self.m_ee + self.m_sphere) * self.gravity - self.m_sphere *
                 (xd_AB**2 * (self.length**2 - y_AB**2) / z_AB**3 + yd_AB**2 *
-                 (self.length**2 - x_AB**2) / z_AB**3 -
+                 (self.length**2 - x_AB**2) / z_AB**3 +
                  2 * x_AB * y_AB * xd_AB * yd_AB / z_AB**3),
                 -self.m_sphere * self.gravity * x_AB / z_AB +
                 self.m_sphere * x_AB *
@@ -97,7 +97,7 @@ class Pole:
                     self.m_ee) * self.gravity - self.m_sphere * (
                         xd_AB**2 *
                         (self.length**2 - y_AB**2) / z_AB**3 + yd_AB**2 *
-                        (self.length**2 - x_AB**2) / z_AB**3 -
+                        (self.length**2 - x_AB**2) / z_AB**3 +
                         2 * x_AB * y_AB * xd_AB * yd_AB / z_AB**3)
             C[3] = -self.m_sphere * self.gravity * x_AB / z_AB + \
                 self.m_sphere * x_AB * (
-- 
2.43.0


From 3c5686f1321091f7de76158160a37992d5dcf581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:00 +0000
Subject: [PATCH 05/35] fix: max_as_mixed_integer_constraint fails when exactly
 one input cannot be the maximum

---
 neural_network_lyapunov/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_network_lyapunov/utils.py b/neural_network_lyapunov/utils.py
index da34766..e41bbfb 100644
--- a/neural_network_lyapunov/utils.py
+++ b/neural_network_lyapunov/utils.py
@@ -104,7 +104,7 @@ def max_as_mixed_integer_constraint(
     non_maximal_idx = torch.nonzero(
         torch.any(x_up.unsqueeze(1).repeat(1, nx) -
                   x_lo.unsqueeze(1).T.repeat(nx, 1) < 0,
-                  dim=1)).squeeze().tolist()
+                  dim=1)).squeeze(1).tolist()
     if (len(non_maximal_idx) > 0):
         Aeq_binary_non_maximal = torch.zeros((len(non_maximal_idx), nx),
                                              dtype=dtype)
-- 
2.43.0


From 48877ac0493fb24e9ce52ddc45c52564b727238d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:07 +0000
Subject: [PATCH 06/35] fix: uniform_sample_on_box_boundary indexes past the
 last face when the generator returns zero

---
 neural_network_lyapunov/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/neural_network_lyapunov/utils.py b/neural_network_lyapunov/utils.py
index e41bbfb..79c02b3 100644
--- a/neural_network_lyapunov/utils.py
+++ b/neural_network_lyapunov/utils.py
@@ -1345,8 +1345,9 @@ def uniform_sample_on_box_boundary(lo: torch.Tensor, hi: torch.Tensor,
     x_dim = lo.numel()
     boundary_face_rand = torch.rand((num_samples, )) * 2 - 1
     for i in range(num_samples):
-        boundary_face_index = int(
-            (torch.abs(boundary_face_rand[i]) * x_dim).item())
+        # boundary_face_rand[i] is -1 when torch.rand returns 0.
+        boundary_face_index = min(
+            int((torch.abs(boundary_face_rand[i]) * x_dim).item()), x_dim - 1)
         samples_in_box[i, boundary_face_index] = lo[
             boundary_face_index] if boundary_face_rand[i] < 0 else hi[
                 boundary_face_index]
-- 
2.43.0


From e7d0edf8bc30175ea1f770ee4ffc6ce6e7b67d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:32 +0000
Subject: [PATCH 07/35] fix: l1_gradient misses subgradients at entries within
 zero_tol of zero

---
 neural_network_lyapunov/utils.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/neural_network_lyapunov/utils.py b/neural_network_lyapunov/utils.py
index 79c02b3..c250a63 100644
--- a/neural_network_lyapunov/utils.py
+++ b/neural_network_lyapunov/utils.py
@@ -1438,20 +1438,20 @@ def l1_gradient(x: torch.Tensor,
 
     if not torch.any(torch.abs(x) <= zero_tol):
         return torch.sign(x).reshape((1, -1))
-    elif torch.sum(torch.abs(x) < zero_tol) == 1:
+    elif torch.sum(torch.abs(x) <= zero_tol) == 1:
         s = torch.sign(x)
+        is_zero = torch.abs(x) <= zero_tol
         s_plus = s.clone()
-        s_plus[torch.abs(s_plus) <= zero_tol] = 1
+        s_plus[is_zero] = 1
         s_minus = s.clone()
-        s_minus[torch.abs(s_minus) <= zero_tol] = -1
+        s_minus[is_zero] = -1
         if subgradient_samples is None:
             return torch.vstack((s_plus, s_minus))
         else:
             s_list = [s_plus, s_minus]
             for i in range(subgradient_samples.size):
                 s_subgradient = s.clone()
-                s_subgradient[torch.abs(s_subgradient) <=
-                              zero_tol] = subgradient_samples[i]
+                s_subgradient[is_zero] = subgradient_samples[i]
                 s_list.append(s_subgradient)
             return torch.vstack(s_list)
     else:
-- 
2.43.0


From dba4eddb0c664d895e29887b15a1e516ff0a5441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:27 +0000
Subject: [PATCH 08/35] fix: concatenate_mixed_integer_constraints sizes the
 second operand's binary bounds by its own binaries

---
 neural_network_lyapunov/gurobi_torch_mip.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_network_lyapunov/gurobi_torch_mip.py b/neural_network_lyapunov/gurobi_torch_mip.py
index 038fc3e..5a1e30c 100644
--- a/neural_network_lyapunov/gurobi_torch_mip.py
+++ b/neural_network_lyapunov/gurobi_torch_mip.py
@@ -341,7 +341,7 @@ def concatenate_mixed_integer_constraints(
         ret.binary_up = take_minimum(cnstr1.binary_up, cnstr2.binary_up)
     else:
         num_binary1 = cnstr1.num_binary()
-        num_binary2 = cnstr1.num_binary()
+        num_binary2 = cnstr2.num_binary()
         ret.binary_lo = stack_bounds(cnstr1.binary_lo, cnstr2.binary_lo,
                                      num_binary1, num_binary2, False)
         ret.binary_up = stack_bounds(cnstr1.binary_up, cnstr2.binary_up,
-- 
2.43.0


From af1760b702159a1f79d534141a485275aeb6f863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:27 +0000
Subject: [PATCH 09/35] fix: transform_input rejects bounds it cannot map and
 leaves shared tensors alone

---
 neural_network_lyapunov/gurobi_torch_mip.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/neural_network_lyapunov/gurobi_torch_mip.py b/neural_network_lyapunov/gurobi_torch_mip.py
index 5a1e30c..bd05633 100644
--- a/neural_network_lyapunov/gurobi_torch_mip.py
+++ b/neural_network_lyapunov/gurobi_torch_mip.py
@@ -118,7 +118,7 @@ class MixedIntegerConstraintsReturn:
             elif isinstance(self.__dict__[item], torch.Tensor):
                 other.__dict__[item] = torch.clone(self.__dict__[item])
             else:
-                assert ("clone(): unknown type.")
+                raise Exception("clone(): unknown type.")
         return other
 
     def transform_input(self, A: torch.Tensor, b: torch.Tensor):
@@ -136,21 +136,22 @@ class MixedIntegerConstraintsReturn:
         Aout_input * A * x + Aout_slack * s + Aout_binary * binary +
             Aout_input * b + Cout.
         """
+        if self.input_lo is not None or self.input_up is not None:
+            raise Exception(
+                "transform_input(): cannot handle non-empty input_lo or " +
+                "input_up")
         if self.Ain_input is not None:
-            self.rhs_in -= self.Ain_input @ b
+            self.rhs_in = self.rhs_in - self.Ain_input @ b
             self.Ain_input = self.Ain_input @ A
         if self.Aeq_input is not None:
-            self.rhs_eq -= self.Aeq_input @ b
+            self.rhs_eq = self.rhs_eq - self.Aeq_input @ b
             self.Aeq_input = self.Aeq_input @ A
         if self.Aout_input is not None:
             if self.Cout is not None:
-                self.Cout += self.Aout_input @ b
+                self.Cout = self.Cout + self.Aout_input @ b
             else:
                 self.Cout = self.Aout_input @ b
             self.Aout_input = self.Aout_input @ A
-        if self.input_lo is not None or self.input_up is not None:
-            assert ("transform_input(): cannot handle non-empty input_lo or " +
-                    "input_up")
 
 
 def concatenate_mixed_integer_constraints(
-- 
2.43.0


From 5e955fc49348b093fe9c99243652f13f187f64d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:27 +0000
Subject: [PATCH 10/35] fix: create the slack and binary variables that only
 the output refers to

---
 neural_network_lyapunov/gurobi_torch_mip.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/neural_network_lyapunov/gurobi_torch_mip.py b/neural_network_lyapunov/gurobi_torch_mip.py
index bd05633..48614a0 100644
--- a/neural_network_lyapunov/gurobi_torch_mip.py
+++ b/neural_network_lyapunov/gurobi_torch_mip.py
@@ -737,6 +737,8 @@ class GurobiTorchMIP:
             slack_size = mip_cnstr_return.Ain_slack.shape[1]
         elif mip_cnstr_return.Aeq_slack is not None:
             slack_size = mip_cnstr_return.Aeq_slack.shape[1]
+        elif mip_cnstr_return.Aout_slack is not None:
+            slack_size = mip_cnstr_return.Aout_slack.shape[1]
         elif mip_cnstr_return.slack_lo is not None:
             slack_size = mip_cnstr_return.slack_lo.numel()
         elif mip_cnstr_return.slack_up is not None:
@@ -757,6 +759,8 @@ class GurobiTorchMIP:
             binary_size = mip_cnstr_return.Ain_binary.shape[1]
         elif mip_cnstr_return.Aeq_binary is not None:
             binary_size = mip_cnstr_return.Aeq_binary.shape[1]
+        elif mip_cnstr_return.Aout_binary is not None:
+            binary_size = mip_cnstr_return.Aout_binary.shape[1]
         elif mip_cnstr_return.binary_lo is not None:
             binary_size = mip_cnstr_return.binary_lo.numel()
         elif mip_cnstr_return.binary_up is not None:
-- 
2.43.0


From 61074e4228452896588a02e0e5ffc1083c2bd59e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:41 +0000
Subject: [PATCH 11/35] fix: MIQP objective from active constraints ignored the
 continuous-binary cross term and asymmetric quadratic terms

---
 neural_network_lyapunov/gurobi_torch_mip.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/neural_network_lyapunov/gurobi_torch_mip.py b/neural_network_lyapunov/gurobi_torch_mip.py
index 48614a0..b22c9de 100644
--- a/neural_network_lyapunov/gurobi_torch_mip.py
+++ b/neural_network_lyapunov/gurobi_torch_mip.py
@@ -1310,17 +1310,17 @@ class GurobiTorchMIQP(GurobiTorchMIP):
         If we fix the binary variable ζ, and take out the active linear
         constraints as A_act * r = b_act, then the optimal solution and cost of
         the QP can be computed from the KKT condition
-        [2*Qᵣ, A_actᵀ] * [r] = [ -cᵣ ]
-        [ A_act,   0 ]   [λ]   [b_act]
+        [Qᵣ+Qᵣᵀ, A_actᵀ] * [r] = [ -cᵣ - Q_rzeta * ζ]
+        [ A_act,     0 ]   [λ]   [      b_act       ]
         where λ is the dual variable. We could compare the pair of primal/dual
         variable (r, λ) as
-        [r] = [2*Qᵣ, A_actᵀ]⁻¹ * [ -cᵣ ]
-        [λ]   [ A_act,   0 ]     [b_act]
+        [r] = [Qᵣ+Qᵣᵀ, A_actᵀ]⁻¹ * [ -cᵣ - Q_rzeta * ζ]
+        [λ]   [ A_act,     0 ]     [      b_act       ]
         since the matrix is not invertible (it is psd but not positive
         definite), so we add a small identity matrix to make sure it is
         invertible
-        [r] = [2*Qᵣ + εI, A_actᵀ]⁻¹ * [ -cᵣ ]
-        [λ]   [ A_act,       εI ]     [b_act]
+        [r] = [Qᵣ+Qᵣᵀ + εI, A_actᵀ]⁻¹ * [ -cᵣ - Q_rzeta * ζ]
+        [λ]   [ A_act,         εI ]     [      b_act       ]
         We can then compute the optimal cost
         rᵀQᵣr + ζᵀ*Q_zeta*ζ + rᵀ*Q_rzeta*ζ+cᵣᵀr+c_zetaᵀζ + c_constant as a
         function of the MIQP data.
@@ -1335,13 +1335,15 @@ class GurobiTorchMIQP(GurobiTorchMIP):
         M = torch.zeros((len(self.r) + len(b_act), len(self.r) + len(b_act)),
                         dtype=self.dtype)
         M[:len(self.r), :len(self.r)] =\
-            2 * self.Q_r + penalty * torch.eye(len(self.r), dtype=self.dtype)
+            self.Q_r + self.Q_r.T +\
+            penalty * torch.eye(len(self.r), dtype=self.dtype)
         M[:len(self.r), len(self.r):] = A_act.T
         M[len(self.r):, :len(self.r)] = A_act
         M[len(self.r):, len(self.r):] =\
             penalty * torch.eye(len(b_act), dtype=self.dtype)
 
-        primal_dual = torch.inverse(M) @ torch.cat((-self.c_r, b_act), axis=0)
+        primal_dual = torch.inverse(M) @ torch.cat(
+            (-self.c_r - self.Q_rzeta @ zeta_sol, b_act), axis=0)
         r = primal_dual[:len(self.r)]
         return r @ (self.Q_r @ r) + zeta_sol @ (self.Q_zeta @ zeta_sol) +\
             r @ (self.Q_rzeta @ zeta_sol) + self.c_r @ r +\
-- 
2.43.0


From a58511e8bf7b352bcced159088dadd4044b49a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:53 +0000
Subject: [PATCH 12/35] Revert "fix: Pole.dynamics has the wrong sign on the
 Coriolis cross term of the vertical equation"

This reverts commit 00bc7b2523ec42de8484fc275449f5ce39d3100d.
---
 neural_network_lyapunov/examples/pole/pole.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neural_network_lyapunov/examples/pole/pole.py b/neural_network_lyapunov/examples/pole/pole.py
index 79c19a7..7c07dbe 100644
--- a/neural_network_lyapunov/examples/pole/pole.py
+++ b/neural_network_lyapunov/examples/pole/pole.py
@@ -61,7 +61,7 @@ class Pole:
                 0, 0,
                 (self.m_ee + self.m_sphere) * self.gravity - self.m_sphere *
                 (xd_AB**2 * (self.length**2 - y_AB**2) / z_AB**3 + yd_AB**2 *
-                 (self.length**2 - x_AB**2) / z_AB**3 +
+                 (self.length**2 - x_AB**2) / z_AB**3 -
                  2 * x_AB * y_AB * xd_AB * yd_AB / z_AB**3),
                 -self.m_sphere * self.gravity * x_AB / z_AB +
                 self.m_sphere * x_AB *
@@ -97,7 +97,7 @@ class Pole:
                     self.m_ee) * self.gravity - self.m_sphere * (
                         xd_AB**2 *
                         (self.length**2 - y_AB**2) / z_AB**3 + yd_AB**2 *
-                        (self.length**2 - x_AB**2) / z_AB**3 +
+                        (self.length**2 - x_AB**2) / z_AB**3 -
                         2 * x_AB * y_AB * xd_AB * yd_AB / z_AB**3)
             C[3] = -self.m_sphere * self.gravity * x_AB / z_AB + \
                 self.m_sphere * x_AB * (
-- 
2.43.0


From 3625ae7e94a50ed9a68251ad7bf5f5105188a936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:53 +0000
Subject: [PATCH 13/35] Revert "fix: AccelerationCar.dynamics concatenates 0-d
 tensors, which torch refuses"

This reverts commit f7a4aa435db0ab082a5289bf21bb96a087ec3521.
---
 neural_network_lyapunov/examples/car/acceleration_car.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_network_lyapunov/examples/car/acceleration_car.py b/neural_network_lyapunov/examples/car/acceleration_car.py
index cfe5f69..0e3fd64 100644
--- a/neural_network_lyapunov/examples/car/acceleration_car.py
+++ b/neural_network_lyapunov/examples/car/acceleration_car.py
@@ -30,7 +30,7 @@ class AccelerationCar:
             pos_dot = np.array([np.cos(theta) * vel, np.sin(theta) * vel])
             return np.array([pos_dot[0], pos_dot[1], u[0], u[1]])
         elif isinstance(x, torch.Tensor):
-            return torch.stack(
+            return torch.cat(
                 (torch.cos(theta) * vel, torch.sin(theta) * vel, u[0], u[1]))
 
     def next_pose(self, x, u, dt):
-- 
2.43.0


From 2a4b957008586cc5429fc7d9ade09157bb26378e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:04 +0000
Subject: [PATCH 14/35] fix: project_gradient yields NaN when one loss has zero
 gradient

---
 neural_network_lyapunov/train_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_network_lyapunov/train_utils.py b/neural_network_lyapunov/train_utils.py
index 9a54b5b..c7fbaae 100644
--- a/neural_network_lyapunov/train_utils.py
+++ b/neural_network_lyapunov/train_utils.py
@@ -53,7 +53,7 @@ def project_gradient(network, loss1, loss2, mode, retain_graph=False):
     loss2.backward(retain_graph=retain_graph)
     n2 = torch.cat([p.grad.reshape((-1, )) for p in network.parameters()])
     with torch.no_grad():
-        if n1 @ n2 > 0:
+        if n1 @ n2 >= 0:
             grad = n1 + n2
             need_projection = False
         else:
-- 
2.43.0


From c44fe278fab2291b52ee1250ade19dbbb95a6e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:46 +0000
Subject: [PATCH 15/35] fix: cost-to-go samples crash instead of skipping a
 discrete-time run that leaves the modes

---
 neural_network_lyapunov/hybrid_linear_system.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/neural_network_lyapunov/hybrid_linear_system.py b/neural_network_lyapunov/hybrid_linear_system.py
index d4f63d5..5b50922 100644
--- a/neural_network_lyapunov/hybrid_linear_system.py
+++ b/neural_network_lyapunov/hybrid_linear_system.py
@@ -698,7 +698,10 @@ def compute_discrete_time_system_cost_to_go(system,
                 mode = j
                 x_steps[i + 1] = system.A[j] @ x_steps[i] + system.g[j]
                 break
-        assert (mode is not None)
+        if mode is None:
+            raise AutonomousHybridLinearSystem.StepForwardException(
+                "compute_discrete_time_system_cost_to_go(): x is not in any "
+                "mode.")
         cost_steps[i + 1] = instantaneous_cost_fun(x_steps[i + 1])
         total_cost += cost_steps[i + 1]
         costs_from_start[i + 1] = costs_from_start[i] + cost_steps[i + 1]
-- 
2.43.0


From b3f8c3442214c31e2c961ae2071a6eb215573915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:46 +0000
Subject: [PATCH 16/35] fix: discrete-time cost-to-go accumulates into the
 tensor the cost function returned

---
 neural_network_lyapunov/hybrid_linear_system.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_network_lyapunov/hybrid_linear_system.py b/neural_network_lyapunov/hybrid_linear_system.py
index 5b50922..bb5b485 100644
--- a/neural_network_lyapunov/hybrid_linear_system.py
+++ b/neural_network_lyapunov/hybrid_linear_system.py
@@ -703,7 +703,7 @@ def compute_discrete_time_system_cost_to_go(system,
                 "compute_discrete_time_system_cost_to_go(): x is not in any "
                 "mode.")
         cost_steps[i + 1] = instantaneous_cost_fun(x_steps[i + 1])
-        total_cost += cost_steps[i + 1]
+        total_cost = total_cost + cost_steps[i + 1]
         costs_from_start[i + 1] = costs_from_start[i] + cost_steps[i + 1]
     x_steps = torch.stack(x_steps[:terminal_step + 1], axis=1)
     costs = torch.stack([
-- 
2.43.0


From 0ec51d9ad8cc0347dfaa970fbfa766df639ca0ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:46 +0000
Subject: [PATCH 17/35] fix: partition_state_input_space rounds cells to
 float32, leaving gaps in float64 partitions

---
 neural_network_lyapunov/hybrid_linear_system.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/neural_network_lyapunov/hybrid_linear_system.py b/neural_network_lyapunov/hybrid_linear_system.py
index bb5b485..f0289ec 100644
--- a/neural_network_lyapunov/hybrid_linear_system.py
+++ b/neural_network_lyapunov/hybrid_linear_system.py
@@ -912,14 +912,14 @@ def partition_state_input_space(x_lo, x_up, u_lo, u_up, num_breaks_x,
     states_u_up = torch.Tensor(0, u_dim).type(dtype)
     for k in range(indices_cart_product.shape[0]):
         indices = indices_cart_product[k, :]
-        sample = torch.Tensor([
-            grid_samples[i][indices[i]] for i in range(x_dim + u_dim)
-        ]).type(dtype)
+        sample = torch.tensor(
+            [grid_samples[i][indices[i]] for i in range(x_dim + u_dim)],
+            dtype=dtype)
         x_sample = sample[:x_dim]
         u_sample = sample[x_dim:x_dim + u_dim]
-        sample_limits = torch.Tensor([
-            grid_limits[i][indices[i]] for i in range(x_dim + u_dim)
-        ]).type(dtype)
+        sample_limits = torch.tensor(
+            [grid_limits[i][indices[i]] for i in range(x_dim + u_dim)],
+            dtype=dtype)
         sample_lo = sample_limits[:, 0]
         sample_up = sample_limits[:, 1]
         x_sample_lo = sample_lo[:x_dim] - x_delta_scaled
-- 
2.43.0


From 92d387314468e9688216f2037c2934f1f67408d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:47 +0000
Subject: [PATCH 18/35] fix: second-order systems pad the input matrix's linear
 term to the wrong width

---
 neural_network_lyapunov/control_affine_system.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_network_lyapunov/control_affine_system.py b/neural_network_lyapunov/control_affine_system.py
index 79382d9..5354582 100644
--- a/neural_network_lyapunov/control_affine_system.py
+++ b/neural_network_lyapunov/control_affine_system.py
@@ -215,7 +215,7 @@ class SecondOrderControlAffineSystem(ControlPiecewiseAffineSystem):
                     field]
         if mip_cnstr_b_flat.Aout_input is not None:
             ret.mip_cnstr_G.Aout_input = torch.vstack(
-                (torch.zeros((self.nq * self.u_dim, self.nq),
+                (torch.zeros((self.nq * self.u_dim, self.x_dim),
                              dtype=self.dtype), mip_cnstr_b_flat.Aout_input))
         if mip_cnstr_b_flat.Aout_slack is not None:
             ret.mip_cnstr_G.Aout_slack = torch.vstack((torch.zeros(
-- 
2.43.0


From 17c9a8d104fa47529387dbaf80c7668cb0a2fbda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:38 +0000
Subject: [PATCH 19/35] fix: Lyapunov programs crash for a network with a
 single hidden unit

---
 neural_network_lyapunov/lyapunov.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/neural_network_lyapunov/lyapunov.py b/neural_network_lyapunov/lyapunov.py
index e4b480f..384d726 100644
--- a/neural_network_lyapunov/lyapunov.py
+++ b/neural_network_lyapunov/lyapunov.py
@@ -86,7 +86,7 @@ class LyapunovHybridLinearSystem:
         relu_z, relu_beta = milp.add_mixed_integer_linear_constraints(
             mip_constr_return, x, None, slack_name, binary_var_name,
             "milp_relu_ineq", "milp_relu_eq", "", binary_var_type)
-        return (relu_z, relu_beta, mip_constr_return.Aout_slack.squeeze(),
+        return (relu_z, relu_beta, mip_constr_return.Aout_slack.squeeze(0),
                 mip_constr_return.Cout.squeeze(), mip_constr_return)
 
     def add_state_error_l1_constraint(self,
@@ -213,7 +213,7 @@ class LyapunovHybridLinearSystem:
         # = a_out * z + b_out - ϕ(x*) + λ * s
         relu_at_equilibrium = self.lyapunov_relu.forward(x_equilibrium)
         V_coeff = [
-            a_out.squeeze(0), V_lambda * torch.ones(
+            a_out, V_lambda * torch.ones(
                 (len(s), ), dtype=self.system.dtype)
         ]
         V_vars = [z, s]
@@ -294,7 +294,7 @@ class LyapunovHybridLinearSystem:
         # Now set the objective as -ϕ(x) + ϕ(x*) + (ε-λ)*|R(x−x*)|₁
         # = -a_out * z - b_out +  ϕ(x*) + (ε-λ) * s
         milp.setObjective([
-            -a_out.squeeze(), (V_epsilon - V_lambda) * torch.ones(
+            -a_out, (V_epsilon - V_lambda) * torch.ones(
                 (len(s), ), dtype=dtype)
         ], [z, s],
                           constant=-b_out + relu_at_equilibrium.squeeze(),
@@ -473,7 +473,7 @@ class LyapunovHybridLinearSystem:
         # = ϕ(x) − ϕ(x*) + λ|R(x−x*)|₁
         # = a_out * z + b_out + λ * s - ϕ(x*)
         milp.setObjective(
-            [a_out.squeeze(), V_lambda * torch.ones(
+            [a_out, V_lambda * torch.ones(
                 (len(s), ), dtype=dtype)], [z, s],
             constant=b_out - relu_at_equilibrium.squeeze(),
             sense=gurobipy.GRB.MINIMIZE)
@@ -1252,7 +1252,7 @@ class LyapunovDiscreteTimeHybridSystem(LyapunovHybridLinearSystem):
         # = ϕ(x) − ϕ(x*) + λ|R(x−x*)|₁
         # = a_out * z + b_out + λ * s - ϕ(x*)
         milp.setObjective(
-            [a_out.squeeze(), V_lambda * torch.ones(
+            [a_out, V_lambda * torch.ones(
                 (len(s), ), dtype=dtype)], [z, s],
             constant=b_out - relu_at_equilibrium.squeeze(),
             sense=gurobipy.GRB.MINIMIZE)
-- 
2.43.0


From b8d49792e5df4e5f548745fe9340fbc360d11c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:20 +0000
Subject: [PATCH 20/35] fix: continuous-time Lyapunov gradient treats R=None as
 the identity

---
 neural_network_lyapunov/lyapunov.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/neural_network_lyapunov/lyapunov.py b/neural_network_lyapunov/lyapunov.py
index 384d726..7ce8d3c 100644
--- a/neural_network_lyapunov/lyapunov.py
+++ b/neural_network_lyapunov/lyapunov.py
@@ -499,6 +499,7 @@ class LyapunovHybridLinearSystem:
         dphidx = utils.relu_network_gradient(self.lyapunov_relu,
                                              x,
                                              zero_tol=zero_tol).squeeze(1)
+        R = _get_R(R, self.system.x_dim, x_equilibrium.device)
         dl1dx = V_lambda * utils.l1_gradient(R @ (x - x_equilibrium),
                                              zero_tol=zero_tol) @ R
         dVdx = utils.minkowski_sum(dphidx, dl1dx)
-- 
2.43.0


From adf13f07f89654fd98903310c712dbf365cbdd72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:20 +0000
Subject: [PATCH 21/35] fix: Lyapunov derivative of a continuous-time hybrid
 system with one state

---
 neural_network_lyapunov/continuous_time_lyapunov.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neural_network_lyapunov/continuous_time_lyapunov.py b/neural_network_lyapunov/continuous_time_lyapunov.py
index 992ccb3..8869949 100644
--- a/neural_network_lyapunov/continuous_time_lyapunov.py
+++ b/neural_network_lyapunov/continuous_time_lyapunov.py
@@ -390,8 +390,8 @@ class LyapunovContinuousTimeHybridSystem(lyapunov.LyapunovHybridLinearSystem):
         for i in range(len(dReLU_dx_all)):
             for j in range(len(state_error_grad)):
                 dV_dx[i * len(state_error_grad) + j] = \
-                    dReLU_dx_all[i].squeeze() + \
-                    V_lambda * state_error_grad[j].squeeze()
+                    dReLU_dx_all[i].squeeze(1) + \
+                    V_lambda * state_error_grad[j]
         Vdot_all = [None] * (len(dV_dx) * len(xdot_all))
         for i in range(len(dV_dx)):
             for j in range(len(xdot_all)):
-- 
2.43.0


From 62e5dd493300bd0df4b058eb76c5b8d1ff726648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:20 +0000
Subject: [PATCH 22/35] fix: relax the Lyapunov network in the continuous-time
 derivative program when asked to

---
 neural_network_lyapunov/continuous_time_lyapunov.py | 2 +-
 neural_network_lyapunov/gurobi_torch_mip.py         | 8 +++++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/neural_network_lyapunov/continuous_time_lyapunov.py b/neural_network_lyapunov/continuous_time_lyapunov.py
index 8869949..2ec3dc3 100644
--- a/neural_network_lyapunov/continuous_time_lyapunov.py
+++ b/neural_network_lyapunov/continuous_time_lyapunov.py
@@ -99,7 +99,7 @@ class LyapunovContinuousTimeSystem(lyapunov.LyapunovHybridLinearSystem):
         # Adds the mixed-integer constraints to compute V(x).
         relu_slack, relu_binary, relu_a_out, relu_b_out,\
             relu_output_mip_cnstr_ret = self.add_lyap_relu_output_constraint(
-                milp, x)
+                milp, x, binary_var_type=binary_var_type)
 
         l1_slack, l1_binary = self.add_state_error_l1_constraint(
             milp,
diff --git a/neural_network_lyapunov/gurobi_torch_mip.py b/neural_network_lyapunov/gurobi_torch_mip.py
index b22c9de..e63a690 100644
--- a/neural_network_lyapunov/gurobi_torch_mip.py
+++ b/neural_network_lyapunov/gurobi_torch_mip.py
@@ -778,7 +778,13 @@ class GurobiTorchMIP:
                     (isinstance(v, gurobipy.Var) for v in binary_var_name)):
                 binary = binary_var_name
                 assert (len(binary) == binary_size)
-                assert (all((v.vtype == binary_var_type for v in binary)))
+                if binary_var_type == BINARYRELAX:
+                    # The relaxed binary variables are registered as
+                    # continuous variables in gurobi.
+                    assert (all((v.vtype == gurobipy.GRB.CONTINUOUS
+                                 and v in self.zeta_indices for v in binary)))
+                else:
+                    assert (all((v.vtype == binary_var_type for v in binary)))
         else:
             binary = []
 
-- 
2.43.0


From b88e98133667e1591ddb5306c4e4969b031bf7c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:54 +0000
Subject: [PATCH 23/35] fix: region-of-attraction program misses states outside
 the box in several coordinates

---
 neural_network_lyapunov/lyapunov.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/neural_network_lyapunov/lyapunov.py b/neural_network_lyapunov/lyapunov.py
index 7ce8d3c..23183ee 100644
--- a/neural_network_lyapunov/lyapunov.py
+++ b/neural_network_lyapunov/lyapunov.py
@@ -1179,9 +1179,9 @@ class LyapunovDiscreteTimeHybridSystem(LyapunovHybridLinearSystem):
         # x_lo_larger <= x <= x_up_larger.
         # This region could be written as the union of boxes
         # box i: x_up(i) <= x(i) <= x_up_larger(i)
-        #        x_lo(j) <= x(j) <= x_up(j) ∀ j≠ i
+        #        x_lo_larger(j) <= x(j) <= x_up_larger(j) ∀ j≠ i
         # box x_dim + i: x_lo_larger(i) <= x(i) <= x_lo(i)
-        #                       x_lo(j) <= x(j) <= x_up(j) ∀ j≠ i
+        #                x_lo_larger(j) <= x(j) <= x_up_larger(j) ∀ j≠ i
         # If we denote the bounds for the i'th box as
         # x_box_lo_i <= x <= x_box_up_i
         # We need to introduce 2 * x_dim binary variables ζ to determine in
@@ -1205,14 +1205,11 @@ class LyapunovDiscreteTimeHybridSystem(LyapunovHybridLinearSystem):
                                       lb=-gurobipy.GRB.INFINITY,
                                       vtype=gurobipy.GRB.CONTINUOUS,
                                       name=f"t_slack[{i}]")
-            x_box_lo_i = torch.from_numpy(self.system.x_lo_all).clone()
-            x_box_up_i = torch.from_numpy(self.system.x_up_all).clone()
+            x_box_lo_i = torch.as_tensor(x_lo_larger, dtype=dtype).clone()
+            x_box_up_i = torch.as_tensor(x_up_larger, dtype=dtype).clone()
             if i < self.system.x_dim:
                 x_box_lo_i[i] = self.system.x_up_all[i]
-                x_box_up_i[i] = x_up_larger[i]
             else:
-                x_box_lo_i[i - self.system.x_dim] = \
-                    x_lo_larger[i-self.system.x_dim]
                 x_box_up_i[i-self.system.x_dim] = \
                     self.system.x_lo_all[i-self.system.x_dim]
             # Now add the constraint
-- 
2.43.0


From 28f9d15c75464bd4126767dd6c6d627b8bd7833d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:11 +0000
Subject: [PATCH 24/35] fix: piecewise-linear Lyapunov continuity constraint
 needs one offset per common vertex, not per state

---
 neural_network_lyapunov/simple_pwl_lyapunov.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_network_lyapunov/simple_pwl_lyapunov.py b/neural_network_lyapunov/simple_pwl_lyapunov.py
index f38258d..239cf29 100644
--- a/neural_network_lyapunov/simple_pwl_lyapunov.py
+++ b/neural_network_lyapunov/simple_pwl_lyapunov.py
@@ -147,7 +147,7 @@ class SimplePWLLyapunov:
         self.constraints.append(
             common_vertices @ (self.c[:, mode_i] - self.c[:, mode_j]) +
             (self.d[mode_i] - self.d[mode_j]) *
-            np.ones(common_vertices.shape[1]) == 0)
+            np.ones(common_vertices.shape[0]) == 0)
 
     def solve(self, weight):
         """
-- 
2.43.0


From dd6a5b0b5c62fb158781441c2db39b46dc045806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:50 +0000
Subject: [PATCH 25/35] fix: barrier derivative program without counterexamples
 crashed

---
 neural_network_lyapunov/train_lyapunov_barrier.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/neural_network_lyapunov/train_lyapunov_barrier.py b/neural_network_lyapunov/train_lyapunov_barrier.py
index 788c9af..e3a8907 100644
--- a/neural_network_lyapunov/train_lyapunov_barrier.py
+++ b/neural_network_lyapunov/train_lyapunov_barrier.py
@@ -583,7 +583,11 @@ class Trainer:
                 mip_adversarial.append(
                     torch.tensor([v.xn for v in barrier_deriv_return.x],
                                  dtype=dtype))
-        mip_adversarial = torch.stack(mip_adversarial)
+        if len(mip_adversarial) > 0:
+            mip_adversarial = torch.stack(mip_adversarial)
+        else:
+            mip_adversarial = torch.empty(
+                (0, self.barrier_system.system.x_dim), dtype=dtype)
         return barrier_deriv_return.milp, barrier_deriv_mip_obj,\
             mip_adversarial
 
-- 
2.43.0


From 3bbca1a282a880c5e2a800374fe0279c8e81df79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:19 +0000
Subject: [PATCH 26/35] fix: restoring the best parameters detached R from the
 optimizer

---
 neural_network_lyapunov/train_lyapunov_barrier.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/neural_network_lyapunov/train_lyapunov_barrier.py b/neural_network_lyapunov/train_lyapunov_barrier.py
index e3a8907..1c1bb82 100644
--- a/neural_network_lyapunov/train_lyapunov_barrier.py
+++ b/neural_network_lyapunov/train_lyapunov_barrier.py
@@ -1116,7 +1116,9 @@ class Trainer:
         params["lyap_relu_params"] = copy.deepcopy(
             self.lyapunov_hybrid_system.lyapunov_relu.state_dict())
         if not self.R_options.fixed_R:
-            params["R_params"] = self.R_options._variables.clone()
+            params["R_params"] = [
+                v.detach().clone() for v in self.R_options.variables()
+            ]
         if isinstance(self.lyapunov_hybrid_system.system,
                       feedback_system.FeedbackSystem):
             params["controller_params"] = copy.deepcopy(
@@ -1131,7 +1133,12 @@ class Trainer:
         self.lyapunov_hybrid_system.lyapunov_relu.load_state_dict(
             params["lyap_relu_params"])
         if not self.R_options.fixed_R:
-            self.R_options._variables = params["R_params"].clone()
+            # Copy the value in place, so that the variables of R remain the
+            # leaf tensors registered to the optimizer.
+            with torch.no_grad():
+                for v, val in zip(self.R_options.variables(),
+                                  params["R_params"]):
+                    v.copy_(val)
         if isinstance(self.lyapunov_hybrid_system.system,
                       feedback_system.FeedbackSystem):
             self.lyapunov_hybrid_system.system.controller_network.\
-- 
2.43.0


From e12ec4e2a79376826a90034b3c8e6cf5bbcab88c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:19 +0000
Subject: [PATCH 27/35] fix: training on samples did not restore R of the best
 network

---
 neural_network_lyapunov/train_lyapunov_barrier.py | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/neural_network_lyapunov/train_lyapunov_barrier.py b/neural_network_lyapunov/train_lyapunov_barrier.py
index 1c1bb82..c56cc6b 100644
--- a/neural_network_lyapunov/train_lyapunov_barrier.py
+++ b/neural_network_lyapunov/train_lyapunov_barrier.py
@@ -1068,20 +1068,10 @@ class Trainer:
                   f"{test_loss.item()}")
             if test_loss.item() < best_loss:
                 best_loss = test_loss.item()
-                best_lyapunov_relu = copy.deepcopy(
-                    self.lyapunov_hybrid_system.lyapunov_relu)
-                if isinstance(self.lyapunov_hybrid_system.system,
-                              feedback_system.FeedbackSystem):
-                    best_controller_relu = copy.deepcopy(
-                        self.lyapunov_hybrid_system.system.controller_network)
+                best_training_params = self._get_current_training_params()
 
         print(f"best loss {best_loss}")
-        self.lyapunov_hybrid_system.lyapunov_relu.load_state_dict(
-            best_lyapunov_relu.state_dict())
-        if isinstance(self.lyapunov_hybrid_system.system,
-                      feedback_system.FeedbackSystem):
-            self.lyapunov_hybrid_system.system.controller_network.\
-                load_state_dict(best_controller_relu.state_dict())
+        self._set_training_params(best_training_params)
 
     class AdversarialTrainingOptions:
         def __init__(self):
-- 
2.43.0


From aa9ecc0a0965b4df624e5e980381eb1432fef2d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:19 +0000
Subject: [PATCH 28/35] fix: repetitions of two clusters of adversarial states

---
 neural_network_lyapunov/train_lyapunov_barrier.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/neural_network_lyapunov/train_lyapunov_barrier.py b/neural_network_lyapunov/train_lyapunov_barrier.py
index c56cc6b..5348551 100644
--- a/neural_network_lyapunov/train_lyapunov_barrier.py
+++ b/neural_network_lyapunov/train_lyapunov_barrier.py
@@ -1477,8 +1477,9 @@ def _cluster_adversarial_states(adversarial_states, cluster_radius):
             1)[states_distance_squared > cluster_radius**2] + 1
         repeatition = new_adversarial_state_index[1:] - \
             new_adversarial_state_index[:-1]
-        if repeatition.shape == (0, ):
-            repeatition = torch.tensor([adversarial_states.shape[0]])
+        if new_adversarial_state_index.shape == (0, ):
+            repeatition = torch.tensor([adversarial_states.shape[0]],
+                                       dtype=adversarial_states.dtype)
         else:
             repeatition = torch.cat(
                 (torch.tensor([new_adversarial_state_index[0]],
-- 
2.43.0


From 160c72425ae94015e7c8c48b20ad490a1f0e6d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:19 +0000
Subject: [PATCH 29/35] fix: train_adversarial dropped the repetitions on
 convergence

---
 neural_network_lyapunov/train_lyapunov_barrier.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/neural_network_lyapunov/train_lyapunov_barrier.py b/neural_network_lyapunov/train_lyapunov_barrier.py
index 5348551..5b66f54 100644
--- a/neural_network_lyapunov/train_lyapunov_barrier.py
+++ b/neural_network_lyapunov/train_lyapunov_barrier.py
@@ -1342,7 +1342,9 @@ class Trainer:
                 lyapunov_derivative_mip_obj < \
                     self.lyapunov_derivative_convergence_tol:
                 return True, positivity_state_samples_all,\
-                    derivative_state_samples_all
+                    derivative_state_samples_all,\
+                    positivity_state_repeatition,\
+                    derivative_state_repeatition
             # Now do gradient descent on the adversarial states.
             if self.optimizer == "Adam":
                 optimizer = torch.optim.Adam(training_params,
-- 
2.43.0


From 67b51a61acb5fa5375e4a2b9a019a7f274b65abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:03 +0000
Subject: [PATCH 30/35] fix: adversarial samples crashed when no program is
 violated

---
 neural_network_lyapunov/dynamics_learning.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/neural_network_lyapunov/dynamics_learning.py b/neural_network_lyapunov/dynamics_learning.py
index 0ea8ba9..e1e499d 100644
--- a/neural_network_lyapunov/dynamics_learning.py
+++ b/neural_network_lyapunov/dynamics_learning.py
@@ -132,6 +132,8 @@ class DynamicsLearning:
                                  dtype=self.opt.dtype).unsqueeze(0))
         if len(z_adv_pos) > 0:
             z_adv_pos = torch.cat(z_adv_pos, dim=0)
+        else:
+            z_adv_pos = torch.empty((0, len(x_var)), dtype=self.opt.dtype)
 
         lyap_der_mip_ = self.lyap.lyapunov_derivative_as_milp(
             self.lyap.system.x_equilibrium,
@@ -160,6 +162,8 @@ class DynamicsLearning:
                                  dtype=self.opt.dtype).unsqueeze(0))
         if len(z_adv_der) > 0:
             z_adv_der_lo = torch.cat(z_adv_der, dim=0)
+        else:
+            z_adv_der_lo = torch.empty((0, len(x_var)), dtype=self.opt.dtype)
 
         lyap_der_mip_ = self.lyap.lyapunov_derivative_as_milp(
             self.lyap.system.x_equilibrium,
@@ -188,6 +192,8 @@ class DynamicsLearning:
                                  dtype=self.opt.dtype).unsqueeze(0))
         if len(z_adv_der) > 0:
             z_adv_der_up = torch.cat(z_adv_der, dim=0)
+        else:
+            z_adv_der_up = torch.empty((0, len(x_var)), dtype=self.opt.dtype)
 
         return z_adv_pos, z_adv_der_lo, z_adv_der_up
 
-- 
2.43.0


From b1b4ae793750f62cc174cc291097937d702cba81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:03 +0000
Subject: [PATCH 31/35] fix: image reconstruction loss used only the first
 sample of the batch

---
 neural_network_lyapunov/dynamics_learning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_network_lyapunov/dynamics_learning.py b/neural_network_lyapunov/dynamics_learning.py
index e1e499d..319fd04 100644
--- a/neural_network_lyapunov/dynamics_learning.py
+++ b/neural_network_lyapunov/dynamics_learning.py
@@ -784,7 +784,7 @@ class LatentSpaceDynamicsLearning(DynamicsLearning):
         if self.opt.use_bce:
             loss = self.bce_loss(x_decoded, x)
         else:
-            loss = (x - x_decoded).pow(2).mean(dim=[1, 2, 3])[0]
+            loss = (x - x_decoded).pow(2).mean()
         return loss
 
     def dynamics_loss(self, x, x_next):
-- 
2.43.0


From f1e65a9d5c87c494d03e384740d551c4e556dcdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:03 +0000
Subject: [PATCH 32/35] fix: cross-entropy rollout loss had prediction and
 target exchanged

---
 neural_network_lyapunov/dynamics_learning.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neural_network_lyapunov/dynamics_learning.py b/neural_network_lyapunov/dynamics_learning.py
index 319fd04..751aff9 100644
--- a/neural_network_lyapunov/dynamics_learning.py
+++ b/neural_network_lyapunov/dynamics_learning.py
@@ -889,8 +889,8 @@ class LatentSpaceDynamicsLearning(DynamicsLearning):
             rollout_expected.shape[0] - 2,
             decode_intermediate=decode_intermediate)
         if self.opt.use_bce:
-            loss = self.bce_loss_none(rollout_expected,
-                                      rollout_pred).mean(dim=[1, 2, 3])
+            loss = self.bce_loss_none(rollout_pred,
+                                      rollout_expected).mean(dim=[1, 2, 3])
         else:
             loss = (rollout_expected - rollout_pred).pow(2).mean(dim=[1, 2, 3])
         return loss
-- 
2.43.0


From 72baac6dac015b5f33ff5245561a13829b92ca47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:03 +0000
Subject: [PATCH 33/35] fix: rollout validation returned the sum rather than
 the mean of the rollouts

---
 neural_network_lyapunov/dynamics_learning.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/neural_network_lyapunov/dynamics_learning.py b/neural_network_lyapunov/dynamics_learning.py
index 751aff9..aa52209 100644
--- a/neural_network_lyapunov/dynamics_learning.py
+++ b/neural_network_lyapunov/dynamics_learning.py
@@ -385,6 +385,7 @@ class DynamicsLearning:
             for rollout_expected in rollouts:
                 rollout_expected = rollout_expected.to(device)
                 validation_loss += self.rollout_loss(rollout_expected)
+        validation_loss /= len(rollouts)
         self.all_to_device('cpu')
         validation_loss = validation_loss.to('cpu')
         return validation_loss
-- 
2.43.0


From 843d411d547f3badade0549fe29b640b547692fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:03 +0000
Subject: [PATCH 34/35] fix: latent rollout crashed with a one-dimensional
 latent state

---
 neural_network_lyapunov/dynamics_learning.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/neural_network_lyapunov/dynamics_learning.py b/neural_network_lyapunov/dynamics_learning.py
index aa52209..6bd8641 100644
--- a/neural_network_lyapunov/dynamics_learning.py
+++ b/neural_network_lyapunov/dynamics_learning.py
@@ -842,7 +842,7 @@ class LatentSpaceDynamicsLearning(DynamicsLearning):
         V_traj = []
         z_traj.append(self.encoder(x_init.unsqueeze(0))[0])
         V_traj.append(
-            self.lyap.lyapunov_value(z_traj[-1].squeeze(),
+            self.lyap.lyapunov_value(z_traj[-1].squeeze(0),
                                      self.lyap.system.x_equilibrium,
                                      self.opt.V_lambda,
                                      R=self.opt.R).item())
@@ -854,7 +854,7 @@ class LatentSpaceDynamicsLearning(DynamicsLearning):
                     z_traj.append(z)
                     V_traj.append(
                         self.lyap.lyapunov_value(
-                            z.squeeze(),
+                            z.squeeze(0),
                             self.lyap.system.x_equilibrium,
                             self.opt.V_lambda,
                             R=self.opt.R).item())
@@ -869,7 +869,7 @@ class LatentSpaceDynamicsLearning(DynamicsLearning):
                     z_traj.append(z_next)
                     V_traj.append(
                         self.lyap.lyapunov_value(
-                            z_next.squeeze(),
+                            z_next.squeeze(0),
                             self.lyap.system.x_equilibrium,
                             self.opt.V_lambda,
                             R=self.opt.R).item())
-- 
2.43.0


From d36ffa212d45ea597c5d63a5323f508a6575a030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:14 +0000
Subject: [PATCH 35/35] fix: linear_program_cost crashed when two or more
 inequalities were active

---
 neural_network_lyapunov/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_network_lyapunov/utils.py b/neural_network_lyapunov/utils.py
index c250a63..e1672eb 100644
--- a/neural_network_lyapunov/utils.py
+++ b/neural_network_lyapunov/utils.py
@@ -888,7 +888,7 @@ def linear_program_cost(c, d, A_in, b_in, A_eq, b_eq):
     b_act = torch.empty((num_act, ), dtype=torch.float64)
     A_act[:num_eq, :] = A_eq
     b_act[:num_eq] = b_eq
-    active_in_indices = np.nonzero(active_in_flag)
+    active_in_indices = np.nonzero(active_in_flag)[0]
     for i in range(num_act - num_eq):
         A_act[i + num_eq] = A_in[active_in_indices[i]]
         b_act[i + num_eq] = b_in[active_in_indices[i]]
-- 
2.43.0


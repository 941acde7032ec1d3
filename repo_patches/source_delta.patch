From 1331b0bb379d14031faa3f72599cad3e1190ef28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:52:42 +0000
Subject: [PATCH 01/83] fix: recover both symmetric components when Kelvin
 notation is off

get_tensor_from_mf only filled the mirrored component of a symmetric tensor
(or the minor symmetric ones of a fourth-order tensor) under Kelvin notation,
so that storing and recovering a symmetric tensor with
is_kelvin_notation=False returned a tensor with zeroed components.
---
 .../simulators/fetorch/math/matrixops.py       | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/hookeai/simulators/fetorch/math/matrixops.py b/src/hookeai/simulators/fetorch/math/matrixops.py
index a3ada03..173ef0a 100644
--- a/src/hookeai/simulators/fetorch/math/matrixops.py
+++ b/src/hookeai/simulators/fetorch/math/matrixops.py
@@ -378,6 +378,8 @@ def get_tensor_from_mf(tensor_mf, n_dim, comp_order, is_kelvin_notation=True,
         raise RuntimeError('Duplicated component in strain/stress components '
                            'order.')
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
+    # Set tensor symmetry flag
+    is_symmetric = len(comp_order) != n_dim**2
     # Set Kelvin notation flag
     if len(comp_order) == n_dim**2:
         is_kelvin_notation = False
@@ -407,8 +409,8 @@ def get_tensor_from_mf(tensor_mf, n_dim, comp_order, is_kelvin_notation=True,
             mf_idx = mf_indexes[i]
             so_idx = tuple(so_indexes[i])
             factor = 1.0
-            if is_kelvin_notation and not so_idx[0] == so_idx[1]:
-                factor = math.sqrt(2)
+            if is_symmetric and not so_idx[0] == so_idx[1]:
+                factor = math.sqrt(2) if is_kelvin_notation else 1.0
                 tensor[so_idx[::-1]] = (1.0/factor)*tensor_mf[mf_idx]
             tensor[so_idx] = (1.0/factor)*tensor_mf[mf_idx]
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
@@ -435,12 +437,12 @@ def get_tensor_from_mf(tensor_mf, n_dim, comp_order, is_kelvin_notation=True,
             mf_idx = tuple(mf_indexes[i])
             fo_idx = tuple(fo_indexes[i])
             factor = 1.0
-            if is_kelvin_notation and not (fo_idx[0] == fo_idx[1]
-                                           and fo_idx[2] == fo_idx[3]):
-                factor = \
-                    factor*math.sqrt(2) if fo_idx[0] != fo_idx[1] else factor
-                factor = \
-                    factor*math.sqrt(2) if fo_idx[2] != fo_idx[3] else factor
+            if is_symmetric and not (fo_idx[0] == fo_idx[1]
+                                     and fo_idx[2] == fo_idx[3]):
+                if is_kelvin_notation and fo_idx[0] != fo_idx[1]:
+                    factor = factor*math.sqrt(2)
+                if is_kelvin_notation and fo_idx[2] != fo_idx[3]:
+                    factor = factor*math.sqrt(2)
                 if fo_idx[0] != fo_idx[1] and fo_idx[2] != fo_idx[3]:
                     tensor[tuple(fo_idx[1::-1]+fo_idx[2:])] = \
                         (1.0/factor)*tensor_mf[mf_idx]
-- 
2.43.0


From 49d3728ff052b089830cc5e222da882821809805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:15 +0000
Subject: [PATCH 02/83] fix: convert nested dictionaries to tensors

convert_dict_to_tensor recursed with an unknown keyword (in_place), so that
every constitutive model with nested hardening parameters failed to build,
and its copying version dropped the entries it should keep unchanged. The
copying versions of the precision conversions converted nested dictionaries
of the input in place.
---
 src/hookeai/utilities/type_conversion.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/hookeai/utilities/type_conversion.py b/src/hookeai/utilities/type_conversion.py
index 2a93412..bf14ad8 100644
--- a/src/hookeai/utilities/type_conversion.py
+++ b/src/hookeai/utilities/type_conversion.py
@@ -55,7 +55,7 @@ def convert_dict_to_tensor(data_dict, is_inplace=True):
             # Perform type conversion
             if isinstance(value, dict):
                 # Process nested dictionary recursively
-                data_dict[key] = convert_dict_to_tensor(value, in_place=True)
+                data_dict[key] = convert_dict_to_tensor(value, is_inplace=True)
             elif (isinstance(value, (int, float, bool))
                 and not isinstance(value, torch.Tensor)):
                 # Convert to torch tensor
@@ -69,11 +69,14 @@ def convert_dict_to_tensor(data_dict, is_inplace=True):
             if isinstance(value, dict):
                 # Process nested dictionary recursively
                 local_data_dict[key] = \
-                    convert_dict_to_tensor(value, in_place=False)
+                    convert_dict_to_tensor(value, is_inplace=False)
             elif (isinstance(value, (int, float, bool))
                 and not isinstance(value, torch.Tensor)):
                 # Convert to torch tensor
                 local_data_dict[key] = torch.tensor(value)
+            else:
+                # Keep value unchanged
+                local_data_dict[key] = value
         # Assign pointer
         data_dict = local_data_dict
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
@@ -142,7 +145,8 @@ def convert_dict_to_float32(tensor_dict, is_inplace=True):
             # Perform type conversion
             if isinstance(value, dict):
                 # Process nested dictionary recursively
-                local_tensor_dict[key] = convert_dict_to_float32(value)
+                local_tensor_dict[key] = \
+                    convert_dict_to_float32(value, is_inplace=False)
             elif (isinstance(value, torch.Tensor)
                 and torch.is_floating_point(value)):
                 # Convert torch tensor to torch.float32
@@ -218,7 +222,8 @@ def convert_dict_to_float64(tensor_dict, is_inplace=True):
             # Perform type conversion
             if isinstance(value, dict):
                 # Process nested dictionary recursively
-                local_tensor_dict[key] = convert_dict_to_float64(value)
+                local_tensor_dict[key] = \
+                    convert_dict_to_float64(value, is_inplace=False)
             elif (isinstance(value, torch.Tensor)
                 and torch.is_floating_point(value)):
                 # Convert torch tensor to torch.float64
-- 
2.43.0


From da14833ef53449167bd60379132b4a255ddb68fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:34 +0000
Subject: [PATCH 03/83] fix: shift the Nadai-Ludwik plastic strain by ep0 only
 once

The law s0 + a*(acc_p_strain + ep0)**b, which its own comparison script
discretises, was evaluated with 2*ep0.
---
 .../simulators/fetorch/material/models/standard/hardening.py    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hookeai/simulators/fetorch/material/models/standard/hardening.py b/src/hookeai/simulators/fetorch/material/models/standard/hardening.py
index 62aec5c..21bd989 100644
--- a/src/hookeai/simulators/fetorch/material/models/standard/hardening.py
+++ b/src/hookeai/simulators/fetorch/material/models/standard/hardening.py
@@ -367,7 +367,7 @@ class NadaiLudwikIHL(IsotropicHardeningLaw):
                                f'strain but got {acc_p_strain}.')
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Enforce non-negative accumulate plastic strain
-        acc_p_strain = torch.relu(acc_p_strain) + ep0
+        acc_p_strain = torch.relu(acc_p_strain)
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Compute yield stress
         yield_stress = yield_stress_init + a*((acc_p_strain + ep0)**b)
-- 
2.43.0


From 00e3f5008faa4e09047b90753c706028533332ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:34 +0000
Subject: [PATCH 04/83] fix: piecewise linear hardening slope at the first
 point

The slope at the first data point (no plastic strain yet) was masked to zero
as if it were an extrapolation, although the law hardens from there on.
---
 .../simulators/fetorch/material/models/standard/hardening.py    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hookeai/simulators/fetorch/material/models/standard/hardening.py b/src/hookeai/simulators/fetorch/material/models/standard/hardening.py
index 21bd989..798cf90 100644
--- a/src/hookeai/simulators/fetorch/material/models/standard/hardening.py
+++ b/src/hookeai/simulators/fetorch/material/models/standard/hardening.py
@@ -274,7 +274,7 @@ class PiecewiseLinearIHL(IsotropicHardeningLaw):
         hard_slope = (y1 - y0)/(x1 - x0)
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Enforce null hardening slope when extrapolating
-        lower_mask = torch.relu(acc_p_strain - a[0]).sign()
+        lower_mask = torch.ge(acc_p_strain, a[0]).to(hard_slope.dtype)
         upper_mask = torch.relu(a[-1] - acc_p_strain).sign()
         mask = lower_mask*upper_mask
         # Enforce extrapolation masking
-- 
2.43.0


From 56c0b9e6d586cd6052c94652832fba935da989d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:46 +0000
Subject: [PATCH 05/83] fix: mixed hardening back-stress update satisfies the
 yield condition

The return mapping reduces the relative equivalent stress by the increment of
kinematic hardening stress, but the back-stress was moved by 3/2 of it along
the flow vector, leaving converged plastic states inside the yield surface.
---
 .../fetorch/material/models/standard/von_mises_mixed.py        | 3 ++-
 .../simulators/fetorch/material/models/vmap/von_mises_mixed.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/hookeai/simulators/fetorch/material/models/standard/von_mises_mixed.py b/src/hookeai/simulators/fetorch/material/models/standard/von_mises_mixed.py
index 6991d07..989fa7a 100644
--- a/src/hookeai/simulators/fetorch/material/models/standard/von_mises_mixed.py
+++ b/src/hookeai/simulators/fetorch/material/models/standard/von_mises_mixed.py
@@ -461,7 +461,8 @@ class VonMisesMixed(ConstitutiveModel):
             acc_p_strain = acc_p_strain_old + inc_p_mult
             # Update back-stress
             back_stress_mf = back_stress_old_mf \
-                + (kin_hard_stress - kin_hard_stress_old)*flow_vector_mf
+                + (2.0/3.0)*(kin_hard_stress
+                           - kin_hard_stress_old)*flow_vector_mf
             # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
             # Set state variables to NaN if state update fails
             if is_su_fail:
diff --git a/src/hookeai/simulators/fetorch/material/models/vmap/von_mises_mixed.py b/src/hookeai/simulators/fetorch/material/models/vmap/von_mises_mixed.py
index ea49b0e..37ecd0f 100644
--- a/src/hookeai/simulators/fetorch/material/models/vmap/von_mises_mixed.py
+++ b/src/hookeai/simulators/fetorch/material/models/vmap/von_mises_mixed.py
@@ -711,7 +711,8 @@ class VonMisesMixedVMAP(ConstitutiveModel):
         acc_p_strain = acc_p_strain_old + inc_p_mult
         # Update back-stress
         back_stress_mf = back_stress_old_mf \
-            + (kin_hard_stress - kin_hard_stress_old)*flow_vector_mf
+            + (2.0/3.0)*(kin_hard_stress
+                       - kin_hard_stress_old)*flow_vector_mf
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Build concatenated plastic step output
         plastic_step_output = \
-- 
2.43.0


From 82a0c9a01f1d62a5c1a1b20e5798242ac6698c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:08 +0000
Subject: [PATCH 06/83] fix: account for kinematic hardening in the vectorised
 mixed tangent

---
 .../fetorch/material/models/vmap/von_mises_mixed.py           | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/hookeai/simulators/fetorch/material/models/vmap/von_mises_mixed.py b/src/hookeai/simulators/fetorch/material/models/vmap/von_mises_mixed.py
index 37ecd0f..b21d698 100644
--- a/src/hookeai/simulators/fetorch/material/models/vmap/von_mises_mixed.py
+++ b/src/hookeai/simulators/fetorch/material/models/vmap/von_mises_mixed.py
@@ -522,9 +522,11 @@ class VonMisesMixedVMAP(ConstitutiveModel):
         #
         # Compute plastic consistent tangent modulus
         _, H = hardening_law(hardening_parameters, acc_p_strain)
+        _, kin_hard_slope = kinematic_hardening_law(
+            kinematic_hardening_parameters, acc_p_strain)
         factor_1 = ((inc_p_mult*6.0*G**2)/relative_eq_trial_stress)
         factor_2 = (6.0*G**2)*((inc_p_mult/relative_eq_trial_stress)
-                                - (1.0/(3.0*G + H)))
+                                - (1.0/(3.0*G + kin_hard_slope + H)))
         unit_flow_vector = math.sqrt(2.0/3.0)*vget_tensor_from_mf(
             flow_vector_mf, n_dim, comp_order_sym, device=self._device)
         p_consistent_tangent = e_consistent_tangent \
-- 
2.43.0


From 6511c3a5596cbd8d80c4a0434563eb8f0a511512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:08 +0000
Subject: [PATCH 07/83] fix: normalise the Drucker-Prager tangent by the
 deviatoric trial strain

The flow direction of the consistent tangent was divided by the norm of the
whole trial strain, so that the tangent was not the derivative of the stress
update whenever the trial strain had a volumetric part.
---
 .../fetorch/material/models/standard/drucker_prager.py        | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hookeai/simulators/fetorch/material/models/standard/drucker_prager.py b/src/hookeai/simulators/fetorch/material/models/standard/drucker_prager.py
index a9846f0..01ccee7 100644
--- a/src/hookeai/simulators/fetorch/material/models/standard/drucker_prager.py
+++ b/src/hookeai/simulators/fetorch/material/models/standard/drucker_prager.py
@@ -612,8 +612,8 @@ class DruckerPrager(ConstitutiveModel):
                     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
                     # Compute deviatoric elastic trial strain norm divison
                     # factor
-                    if torch.norm(e_trial_strain_mf) > small:
-                        norm_div_factor = 1.0/torch.norm(e_trial_strain_mf)
+                    if torch.norm(dev_trial_e_strain) > small:
+                        norm_div_factor = 1.0/torch.norm(dev_trial_e_strain)
                     else:
                         norm_div_factor = torch.zeros(1, device=self._device)
                     # Compute deviatoric elastic strain unit vector
-- 
2.43.0


From e3f7a9e938c065fd622064df4ff67322b00f2d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:59:26 +0000
Subject: [PATCH 08/83] fix: piecewise linear hardening returns scalars for
 scalar input

The yield stress and slope of a scalar plastic strain were one-element
vectors: plastic steps of the vectorised models failed on them, and the
standard models turned the accumulated plastic strain into a vector.
---
 .../simulators/fetorch/material/models/standard/hardening.py  | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hookeai/simulators/fetorch/material/models/standard/hardening.py b/src/hookeai/simulators/fetorch/material/models/standard/hardening.py
index 798cf90..db3a99e 100644
--- a/src/hookeai/simulators/fetorch/material/models/standard/hardening.py
+++ b/src/hookeai/simulators/fetorch/material/models/standard/hardening.py
@@ -271,7 +271,7 @@ class PiecewiseLinearIHL(IsotropicHardeningLaw):
         x1 = a[idx + 1]
         y1 = b[idx + 1]
         # Compute hardening slope
-        hard_slope = (y1 - y0)/(x1 - x0)
+        hard_slope = ((y1 - y0)/(x1 - x0)).reshape(acc_p_strain.shape)
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Enforce null hardening slope when extrapolating
         lower_mask = torch.ge(acc_p_strain, a[0]).to(hard_slope.dtype)
@@ -428,7 +428,7 @@ def torch_interp(x, xp, fp, left=None, right=None, is_check_data=False):
     idxs = torch.clamp(idxs, min=0, max=len(m) - 1)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Compute interpolated data points
-    y = m[idxs]*x + b[idxs]
+    y = m[idxs].reshape(x.shape)*x + b[idxs].reshape(x.shape)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Set out-of-bounds values
     if left is None:
-- 
2.43.0


From d04cd6ddc5476f3d652f62f3bc153a83a00e9ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:39 +0000
Subject: [PATCH 09/83] fix: Lou-Zhang-Yoon invariant derivatives for singular
 deviatoric stress

---
 .../fetorch/material/models/standard/lou.py   | 24 +++++++------------
 .../fetorch/material/models/vmap/lou.py       | 24 +++++++------------
 2 files changed, 18 insertions(+), 30 deletions(-)

diff --git a/src/hookeai/simulators/fetorch/material/models/standard/lou.py b/src/hookeai/simulators/fetorch/material/models/standard/lou.py
index 4127a6e..a0a6692 100644
--- a/src/hookeai/simulators/fetorch/material/models/standard/lou.py
+++ b/src/hookeai/simulators/fetorch/material/models/standard/lou.py
@@ -30,7 +30,7 @@ from simulators.fetorch.math.matrixops import get_problem_type_parameters, \
     vget_tensor_mf, vget_tensor_from_mf, vget_state_3Dmf_from_2Dmf, \
     vget_state_2Dmf_from_3Dmf
 from simulators.fetorch.math.tensorops import get_id_operators, dyad22_1, \
-    ddot42_1, ddot24_1, ddot22_1, ddot44_1, fo_dinv_sym
+    dyad22_2, dyad22_3, ddot42_1, ddot24_1, ddot22_1, ddot44_1
 from utilities.type_conversion import convert_dict_to_tensor, \
     convert_tensor_to_float64, convert_dict_to_float64, \
     convert_dict_to_float32
@@ -897,28 +897,22 @@ class LouZhangYoon(ConstitutiveModel):
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Compute deviatoric stress tensor
         dev_stress = ddot42_1(fodevprojsym, stress)
-        # Compute determinant of deviatoric stress tensor
-        dev_stress_det = torch.det(dev_stress)
-        # Compute inverse of deviatoric stress tensor
-        dev_stress_inv = torch.inverse(dev_stress)
-        # Compute derivative of inverse of deviatoric strss tensor w.r.t itself
-        ddsinv_ddsinv = fo_dinv_sym(dev_stress_inv)
-        # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
-        # Compute auxiliary term
-        w6 = ddot24_1(dev_stress_inv, fodevprojsym)
-        # Compute auxiliary term derivative
-        dw6_dstress = ddot44_1(ddot44_1(fodevprojsym, ddsinv_ddsinv),
-                               fodevprojsym)
+        # Compute derivative of squared deviatoric stress tensor w.r.t. itself
+        ddssq_dds = 0.5*(dyad22_2(soid, dev_stress)
+                         + dyad22_3(soid, dev_stress)
+                         + dyad22_2(dev_stress, soid)
+                         + dyad22_3(dev_stress, soid))
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Compute stress invariants
         i1, i2, i3, j1, j2, j3 = self.get_stress_invariants(stress)
         # Compute derivatives w.r.t. stress
         di1_dstress = soid
         dj2_dstress = dev_stress
-        dj3_dstress = dev_stress_det*w6
+        dj3_dstress = torch.matmul(dev_stress, dev_stress) - (2/3)*j2*soid
         # Compute second-order derivatives w.r.t. stress
         d2j2_dstress2 = fodevprojsym
-        d2j3_dstress2 = dyad22_1(w6, dj3_dstress) + dev_stress_det*dw6_dstress
+        d2j3_dstress2 = ddot44_1(ddot44_1(fodevprojsym, ddssq_dds),
+                                 fodevprojsym)
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         return i1, i2, i3, j1, j2, j3, di1_dstress, dj2_dstress, dj3_dstress, \
             d2j2_dstress2, d2j3_dstress2
diff --git a/src/hookeai/simulators/fetorch/material/models/vmap/lou.py b/src/hookeai/simulators/fetorch/material/models/vmap/lou.py
index d7f3dcd..c4b632b 100644
--- a/src/hookeai/simulators/fetorch/material/models/vmap/lou.py
+++ b/src/hookeai/simulators/fetorch/material/models/vmap/lou.py
@@ -51,7 +51,7 @@ from simulators.fetorch.math.matrixops import get_problem_type_parameters, \
     vget_tensor_mf, vget_tensor_from_mf, vget_state_3Dmf_from_2Dmf, \
     vget_state_2Dmf_from_3Dmf
 from simulators.fetorch.math.tensorops import get_id_operators, dyad22_1, \
-    ddot42_1, ddot24_1, ddot22_1, ddot44_1, fo_dinv_sym
+    dyad22_2, dyad22_3, ddot42_1, ddot24_1, ddot22_1, ddot44_1
 from utilities.type_conversion import convert_dict_to_tensor, \
     convert_tensor_to_float64, convert_dict_to_float64, \
     convert_dict_to_float32
@@ -690,28 +690,22 @@ class LouZhangYoonVMAP(ConstitutiveModel):
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Compute deviatoric stress tensor
         dev_stress = ddot42_1(fodevprojsym, stress)
-        # Compute determinant of deviatoric stress tensor
-        dev_stress_det = torch.det(dev_stress)
-        # Compute inverse of deviatoric stress tensor
-        dev_stress_inv = torch.inverse(dev_stress)
-        # Compute derivative of inverse of deviatoric strss tensor w.r.t itself
-        ddsinv_ddsinv = fo_dinv_sym(dev_stress_inv)
-        # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
-        # Compute auxiliary term
-        w6 = ddot24_1(dev_stress_inv, fodevprojsym)
-        # Compute auxiliary term derivative
-        dw6_dstress = ddot44_1(ddot44_1(fodevprojsym, ddsinv_ddsinv),
-                               fodevprojsym)
+        # Compute derivative of squared deviatoric stress tensor w.r.t. itself
+        ddssq_dds = 0.5*(dyad22_2(soid, dev_stress)
+                         + dyad22_3(soid, dev_stress)
+                         + dyad22_2(dev_stress, soid)
+                         + dyad22_3(dev_stress, soid))
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Compute stress invariants
         i1, i2, i3, j1, j2, j3 = cls.get_stress_invariants(stress)
         # Compute derivatives w.r.t. stress
         di1_dstress = soid
         dj2_dstress = dev_stress
-        dj3_dstress = dev_stress_det*w6
+        dj3_dstress = torch.matmul(dev_stress, dev_stress) - (2/3)*j2*soid
         # Compute second-order derivatives w.r.t. stress
         d2j2_dstress2 = fodevprojsym
-        d2j3_dstress2 = dyad22_1(w6, dj3_dstress) + dev_stress_det*dw6_dstress
+        d2j3_dstress2 = ddot44_1(ddot44_1(fodevprojsym, ddssq_dds),
+                                 fodevprojsym)
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         return i1, i2, i3, j1, j2, j3, di1_dstress, dj2_dstress, dj3_dstress, \
             d2j2_dstress2, d2j3_dstress2
-- 
2.43.0


From 34a6aa8f4e0a68609cd35c902461dcf59f47196a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:03 +0000
Subject: [PATCH 10/83] fix: accept elastic moduli given by their
 major-symmetric name

---
 .../fetorch/material/models/standard/elastic.py           | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/hookeai/simulators/fetorch/material/models/standard/elastic.py b/src/hookeai/simulators/fetorch/material/models/standard/elastic.py
index 4b52215..2bdf0c2 100644
--- a/src/hookeai/simulators/fetorch/material/models/standard/elastic.py
+++ b/src/hookeai/simulators/fetorch/material/models/standard/elastic.py
@@ -431,7 +431,9 @@ class Elastic(ConstitutiveModel):
             elastic_moduli = {}
             # Extract elastic moduli from elastic properties
             for param in elastic_properties.keys():
-                if param in elastic_symmetries['triclinic']:
+                sym_param = 'E' + param[3:5] + param[1:3]
+                if (param in elastic_symmetries['triclinic']
+                        or sym_param in elastic_symmetries['triclinic']):
                     elastic_moduli[param] = elastic_properties[param]
             # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
             # Initialize independent elastic moduli
@@ -440,7 +442,7 @@ class Elastic(ConstitutiveModel):
             # Loop over required elastic moduli
             for modulus in required_moduli:
                 # Set symmetric modulus
-                sym_modulus = modulus[3:5] + modulus[1:3]
+                sym_modulus = 'E' + modulus[3:5] + modulus[1:3]
                 # Check if requires elastic modulus has been provided
                 if modulus in elastic_moduli.keys():
                     ind_moduli[modulus] = elastic_moduli[modulus]
@@ -572,7 +574,7 @@ class Elastic(ConstitutiveModel):
                 # Loop over required elastic moduli
                 for modulus in required_moduli:
                     # Set symmetric modulus
-                    sym_modulus = modulus[3:5] + modulus[1:3]
+                    sym_modulus = 'E' + modulus[3:5] + modulus[1:3]
                     # Check if requires elastic modulus has been provided
                     if modulus in elastic_properties.keys():
                         ind_moduli[modulus] = elastic_properties[modulus]
-- 
2.43.0


From 08f3625776a17d0fd1a5bd9c72f6038239fa761e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:03 +0000
Subject: [PATCH 11/83] fix: get_device returns the device that was set

---
 src/hookeai/material_model_finder/model/material_discovery.py | 2 +-
 .../hybrid_base_model/model/hybrid_model.py                   | 2 +-
 .../hybrid_base_model/model/hybridized_layers.py              | 4 ++--
 .../hybrid_base_model/model/transfer_learning.py              | 4 ++--
 .../rc_base_model/model/recurrent_model.py                    | 2 +-
 .../model_architectures/rnn_base_model/model/gru_model.py     | 2 +-
 src/hookeai/simulators/fetorch/element/type/interface.py      | 2 +-
 src/hookeai/simulators/fetorch/material/models/interface.py   | 2 +-
 8 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/hookeai/material_model_finder/model/material_discovery.py b/src/hookeai/material_model_finder/model/material_discovery.py
index 0cdf45e..78e0b28 100644
--- a/src/hookeai/material_model_finder/model/material_discovery.py
+++ b/src/hookeai/material_model_finder/model/material_discovery.py
@@ -826,7 +826,7 @@ class MaterialModelFinder(torch.nn.Module):
         device : torch.device
             Device on which torch.Tensor is allocated.
         """
-        return self.device_type, self.device
+        return self._device_type, self._device
     # -------------------------------------------------------------------------
     def forward(self, sequential_mode='sequential_element'):
         """Forward propagation.
diff --git a/src/hookeai/model_architectures/hybrid_base_model/model/hybrid_model.py b/src/hookeai/model_architectures/hybrid_base_model/model/hybrid_model.py
index f483e64..f354128 100644
--- a/src/hookeai/model_architectures/hybrid_base_model/model/hybrid_model.py
+++ b/src/hookeai/model_architectures/hybrid_base_model/model/hybrid_model.py
@@ -491,7 +491,7 @@ class HybridModel(torch.nn.Module):
         device : torch.device
             Device on which torch.Tensor is allocated.
         """
-        return self.device_type, self.device
+        return self._device_type, self._device
     # -------------------------------------------------------------------------
     def get_detached_model_parameters(self, is_normalized_out=False):
         """Get model parameters detached of gradients.
diff --git a/src/hookeai/model_architectures/hybrid_base_model/model/hybridized_layers.py b/src/hookeai/model_architectures/hybrid_base_model/model/hybridized_layers.py
index 8dca2c3..418a3ed 100644
--- a/src/hookeai/model_architectures/hybrid_base_model/model/hybridized_layers.py
+++ b/src/hookeai/model_architectures/hybrid_base_model/model/hybridized_layers.py
@@ -170,7 +170,7 @@ class BatchedElasticModel(torch.nn.Module):
         device : torch.device
             Device on which torch.Tensor is allocated.
         """
-        return self.device_type, self.device
+        return self._device_type, self._device
     # -------------------------------------------------------------------------
     def forward(self, features_in):
         """Forward propagation.
@@ -331,7 +331,7 @@ class VolDevCompositionModel(torch.nn.Module):
         device : torch.device
             Device on which torch.Tensor is allocated.
         """
-        return self.device_type, self.device
+        return self._device_type, self._device
     # -------------------------------------------------------------------------
     def forward(self, features_in):
         """Forward propagation.
diff --git a/src/hookeai/model_architectures/hybrid_base_model/model/transfer_learning.py b/src/hookeai/model_architectures/hybrid_base_model/model/transfer_learning.py
index 4665e59..124e0a0 100644
--- a/src/hookeai/model_architectures/hybrid_base_model/model/transfer_learning.py
+++ b/src/hookeai/model_architectures/hybrid_base_model/model/transfer_learning.py
@@ -174,7 +174,7 @@ class PolynomialLinearRegressor(torch.nn.Module):
         device : torch.device
             Device on which torch.Tensor is allocated.
         """
-        return self.device_type, self.device
+        return self._device_type, self._device
     # -------------------------------------------------------------------------
     def forward(self, features_in):
         """Forward propagation.
@@ -521,7 +521,7 @@ class BatchedElasticModel(torch.nn.Module):
         device : torch.device
             Device on which torch.Tensor is allocated.
         """
-        return self.device_type, self.device
+        return self._device_type, self._device
     # -------------------------------------------------------------------------
     def forward(self, features_in):
         """Forward propagation.
diff --git a/src/hookeai/model_architectures/rc_base_model/model/recurrent_model.py b/src/hookeai/model_architectures/rc_base_model/model/recurrent_model.py
index 903ac9f..ca695a2 100644
--- a/src/hookeai/model_architectures/rc_base_model/model/recurrent_model.py
+++ b/src/hookeai/model_architectures/rc_base_model/model/recurrent_model.py
@@ -483,7 +483,7 @@ class RecurrentConstitutiveModel(torch.nn.Module):
         device : torch.device
             Device on which torch.Tensor is allocated.
         """
-        return self.device_type, self.device
+        return self._device_type, self._device
     # -------------------------------------------------------------------------
     def _set_model_parameters(self, learnable_parameters):
         """Set recurrent constitutive model learnable parameters.
diff --git a/src/hookeai/model_architectures/rnn_base_model/model/gru_model.py b/src/hookeai/model_architectures/rnn_base_model/model/gru_model.py
index db460be..3dc46d3 100644
--- a/src/hookeai/model_architectures/rnn_base_model/model/gru_model.py
+++ b/src/hookeai/model_architectures/rnn_base_model/model/gru_model.py
@@ -319,7 +319,7 @@ class GRURNNModel(torch.nn.Module):
         device : torch.device
             Device on which torch.Tensor is allocated.
         """
-        return self.device_type, self.device
+        return self._device_type, self._device
     # -------------------------------------------------------------------------
     def forward(self, features_in, hidden_features_in=None):
         """Forward propagation.
diff --git a/src/hookeai/simulators/fetorch/element/type/interface.py b/src/hookeai/simulators/fetorch/element/type/interface.py
index fe2905d..09252ef 100644
--- a/src/hookeai/simulators/fetorch/element/type/interface.py
+++ b/src/hookeai/simulators/fetorch/element/type/interface.py
@@ -251,7 +251,7 @@ class ElementType(ABC):
         device : torch.device
             Device on which torch.Tensor is allocated.
         """
-        return self.device_type, self.device
+        return self._device_type, self._device
     # -------------------------------------------------------------------------
     def check_shape_functions_properties(self):
         """Check if element shape functions satisfy known properties."""
diff --git a/src/hookeai/simulators/fetorch/material/models/interface.py b/src/hookeai/simulators/fetorch/material/models/interface.py
index 211945d..00ae410 100644
--- a/src/hookeai/simulators/fetorch/material/models/interface.py
+++ b/src/hookeai/simulators/fetorch/material/models/interface.py
@@ -184,4 +184,4 @@ class ConstitutiveModel(ABC):
         device : torch.device
             Device on which torch.Tensor is allocated.
         """
-        return self.device_type, self.device
\ No newline at end of file
+        return self._device_type, self._device
\ No newline at end of file
-- 
2.43.0


From 5b29ac071a08ccced6ce5a29596d57c877aa146d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:59 +0000
Subject: [PATCH 12/83] fix: strain state features of vectorised recurrent
 constitutive models

---
 .../model_architectures/rc_base_model/model/recurrent_model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hookeai/model_architectures/rc_base_model/model/recurrent_model.py b/src/hookeai/model_architectures/rc_base_model/model/recurrent_model.py
index ca695a2..238e8e6 100644
--- a/src/hookeai/model_architectures/rc_base_model/model/recurrent_model.py
+++ b/src/hookeai/model_architectures/rc_base_model/model/recurrent_model.py
@@ -1519,7 +1519,8 @@ class RecurrentConstitutiveModel(torch.nn.Module):
                             raise RuntimeError('Not implemented.')
                         # Get strain components
                         state_comps = self.vstore_tensor_comps(
-                            strain_comps_order, strain, device=self._device)
+                            strain_comps_order, strain,
+                            device=self._device).reshape(1, n_features)
                     else:
                         # Get generic state variable components
                         state_comps = \
-- 
2.43.0


From 348d3127df22e1817ff2b971c5d1a64ff71c817d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:24 +0000
Subject: [PATCH 13/83] fix: finite Lou-Zhang-Yoon gradients for steps with
 null deviatoric stress

---
 .../simulators/fetorch/material/models/vmap/lou.py        | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/hookeai/simulators/fetorch/material/models/vmap/lou.py b/src/hookeai/simulators/fetorch/material/models/vmap/lou.py
index c4b632b..92b5ef4 100644
--- a/src/hookeai/simulators/fetorch/material/models/vmap/lou.py
+++ b/src/hookeai/simulators/fetorch/material/models/vmap/lou.py
@@ -1041,6 +1041,14 @@ class LouZhangYoonVMAP(ConstitutiveModel):
         init_yield_stress, _ = hardening_law(
             hardening_parameters,
             acc_p_strain=torch.tensor(0.0, device=device))
+        # Replace elastic trial strain by pure shear strain if return-mapping is
+        # avoided (yield function is not differentiable for null deviatoric
+        # stress, which leads to non-admissible gradients)
+        shear_strain = torch.zeros_like(e_trial_strain)
+        shear_strain[0, 1] = 1.0
+        shear_strain[1, 0] = 1.0
+        e_trial_strain = torch.where(is_avoid_return_mapping, shear_strain,
+                                     e_trial_strain)
         # Set unknowns initial iterative guess
         e_strain = e_trial_strain
         acc_p_strain = acc_p_strain_old
-- 
2.43.0


From 8c1b83e54030f37a27d619437928547ac137da95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:29:49 +0000
Subject: [PATCH 14/83] fix: finite Drucker-Prager gradients for steps with
 null deviatoric stress

---
 .../fetorch/material/models/vmap/drucker_prager.py        | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/hookeai/simulators/fetorch/material/models/vmap/drucker_prager.py b/src/hookeai/simulators/fetorch/material/models/vmap/drucker_prager.py
index 51bc516..c454756 100644
--- a/src/hookeai/simulators/fetorch/material/models/vmap/drucker_prager.py
+++ b/src/hookeai/simulators/fetorch/material/models/vmap/drucker_prager.py
@@ -696,6 +696,10 @@ class DruckerPragerVMAP(ConstitutiveModel):
         is_plast = torch.tensor([True], device=device)
         # Set incremental plastic multiplier initial iterative guess
         inc_p_mult = torch.tensor(0.0, device=device)
+        # Compute square root of second invariant of deviatoric trial stress
+        # (finite gradient for null deviatoric trial stress)
+        sqrt_j2_dev_trial_stress = \
+            math.sqrt(1.0/2.0)*torch.norm(dev_trial_stress_mf)
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Newton-Raphson iterative loop
         for nr_iter in range(su_max_n_iterations + 1):
@@ -703,7 +707,7 @@ class DruckerPragerVMAP(ConstitutiveModel):
             cohesion, H = hardening_law(hardening_parameters,
                                         acc_p_strain_old + xi*inc_p_mult)
             # Compute return-mapping residual (cone surface)
-            residual = (torch.sqrt(j2_dev_trial_stress) - G*inc_p_mult
+            residual = (sqrt_j2_dev_trial_stress - G*inc_p_mult
                         + etay*(trial_pressure - K*etaf*inc_p_mult)
                         - xi*cohesion)
             # Compute residual convergence norm
@@ -730,7 +734,7 @@ class DruckerPragerVMAP(ConstitutiveModel):
         # Set return-mapping to apex flag
         is_apex_return = torch.where(
             is_converged,
-            (torch.sqrt(j2_dev_trial_stress) - G*inc_p_mult) < 0,
+            (sqrt_j2_dev_trial_stress - G*inc_p_mult) < 0,
             is_converged)
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Set incremental plastic multiplier to NaN if state update fails
-- 
2.43.0


From 4a4d112d2725c6537b1471dd2980a809c5a269d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:42 +0000
Subject: [PATCH 15/83] fix: deviatoric gradient operator of 2D elements uses
 the 3D projection

---
 src/hookeai/material_model_finder/model/material_discovery.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hookeai/material_model_finder/model/material_discovery.py b/src/hookeai/material_model_finder/model/material_discovery.py
index 78e0b28..b119cd2 100644
--- a/src/hookeai/material_model_finder/model/material_discovery.py
+++ b/src/hookeai/material_model_finder/model/material_discovery.py
@@ -2444,7 +2444,7 @@ class MaterialModelFinder(torch.nn.Module):
         _, comp_order_sym, _ = get_problem_type_parameters(4)
         # Get volumetric and deviatoric projection tensors
         _, dev_proj_vmf = \
-            get_projection_tensors_vmf(n_dim, comp_order_sym, device=device)
+            get_projection_tensors_vmf(3, comp_order_sym, device=device)
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Compute discrete deviatoric symmetric gradient operator
         dev_grad_operator_sym = torch.matmul(dev_proj_vmf, grad_operator_sym)
-- 
2.43.0


From 4ffa5772700bc89ca07dee01f1729d3d7d47e5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:42 +0000
Subject: [PATCH 16/83] fix: normalised force equilibrium loss vanishes at
 equilibrium

---
 .../model/material_discovery.py               | 22 ++++++++++++-------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/hookeai/material_model_finder/model/material_discovery.py b/src/hookeai/material_model_finder/model/material_discovery.py
index b119cd2..7ab6136 100644
--- a/src/hookeai/material_model_finder/model/material_discovery.py
+++ b/src/hookeai/material_model_finder/model/material_discovery.py
@@ -1477,15 +1477,18 @@ class MaterialModelFinder(torch.nn.Module):
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Normalize forces
         if self._is_force_normalization:
+            # Collect reaction forces of constrained degrees of freedom together
+            # with external forces (forces normalization includes an offset
+            # that only cancels between both sides of force equilibrium)
+            external_forces_mesh = external_forces_mesh + torch.where(
+                dirichlet_bool_mesh == 1, reaction_forces_mesh, 0.0)
+            reaction_forces_mesh = torch.zeros_like(reaction_forces_mesh)
             # Normalize internal forces
             internal_forces_mesh = data_scaler_transform(self,
                 internal_forces_mesh, features_type='forces', mode='normalize')
-            # Normalize external forces
+            # Normalize external and reaction forces
             external_forces_mesh = data_scaler_transform(self,
                 external_forces_mesh, features_type='forces', mode='normalize')
-            # Normalize reaction forces
-            reaction_forces_mesh = data_scaler_transform(self,
-                reaction_forces_mesh, features_type='forces', mode='normalize')
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Get number of nodes of finite element mesh
         n_node_mesh = internal_forces_mesh.shape[0]
@@ -2716,15 +2719,18 @@ class MaterialModelFinder(torch.nn.Module):
         """
         # Normalize forces
         if self._is_force_normalization:
+            # Collect reaction forces of constrained degrees of freedom together
+            # with external forces (forces normalization includes an offset
+            # that only cancels between both sides of force equilibrium)
+            external_forces_mesh = external_forces_mesh + torch.where(
+                dirichlet_bc_mesh > 0, reaction_forces_mesh, 0.0)
+            reaction_forces_mesh = torch.zeros_like(reaction_forces_mesh)
             # Normalize internal forces
             internal_forces_mesh = data_scaler_transform(self,
                 internal_forces_mesh, features_type='forces', mode='normalize')
-            # Normalize external forces
+            # Normalize external and reaction forces
             external_forces_mesh = data_scaler_transform(self,
                 external_forces_mesh, features_type='forces', mode='normalize')
-            # Normalize reaction forces
-            reaction_forces_mesh = data_scaler_transform(self,
-                reaction_forces_mesh, features_type='forces', mode='normalize')
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Compute force equilibrium loss
         if self._force_equilibrium_loss_type == 'pointwise':
-- 
2.43.0


From 7d1a6f49c33691618552721d772e19edb9a40634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:42 +0000
Subject: [PATCH 17/83] fix: loss components history normalises forces as the
 loss does

---
 .../model/material_discovery.py               | 36 +++++++++----------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/src/hookeai/material_model_finder/model/material_discovery.py b/src/hookeai/material_model_finder/model/material_discovery.py
index 7ab6136..d80bac5 100644
--- a/src/hookeai/material_model_finder/model/material_discovery.py
+++ b/src/hookeai/material_model_finder/model/material_discovery.py
@@ -2866,21 +2866,6 @@ class MaterialModelFinder(torch.nn.Module):
         # Get history length
         n_time = internal_forces_mesh_hist.shape[2]
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
-        # Normalize forces
-        if self._is_force_normalization:
-            # Normalize internal forces
-            internal_forces_mesh = data_scaler_transform(
-                self, internal_forces_mesh_hist, features_type='forces',
-                mode='normalize')
-            # Normalize external forces
-            external_forces_mesh = data_scaler_transform(
-                self, external_forces_mesh_hist, features_type='forces',
-                mode='normalize')
-            # Normalize reaction forces
-            reaction_forces_mesh = data_scaler_transform(
-                self, reaction_forces_mesh_hist, features_type='forces',
-                mode='normalize')
-        # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Initialize force equilibrium loss components history
         force_equilibrium_loss_components_hist = \
             torch.zeros(1 + n_loss_comp, n_time,
@@ -2896,6 +2881,21 @@ class MaterialModelFinder(torch.nn.Module):
             reaction_forces_mesh = reaction_forces_mesh_hist[:, :, i]
             # Get Dirichlet boundary constraints at time step
             dirichlet_bc_mesh = dirichlet_bc_mesh_hist[:, :, i]
+            # Normalize forces
+            if self._is_force_normalization:
+                # Collect reaction forces of constrained degrees of freedom
+                # together with external forces
+                external_forces_mesh = external_forces_mesh + torch.where(
+                    dirichlet_bc_mesh > 0, reaction_forces_mesh, 0.0)
+                reaction_forces_mesh = torch.zeros_like(reaction_forces_mesh)
+                # Normalize internal forces
+                internal_forces_mesh = data_scaler_transform(
+                    self, internal_forces_mesh, features_type='forces',
+                    mode='normalize')
+                # Normalize external and reaction forces
+                external_forces_mesh = data_scaler_transform(
+                    self, external_forces_mesh, features_type='forces',
+                    mode='normalize')
             # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
             # Compute force equilibrium loss components
             if self._force_equilibrium_loss_type == 'pointwise':
@@ -2912,9 +2912,9 @@ class MaterialModelFinder(torch.nn.Module):
             # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
             elif self._force_equilibrium_loss_type == 'dirichlet_sets':
                 # Flatten mesh data
-                internal_forces_mesh_flat = internal_forces_mesh.view(-1)
-                external_forces_mesh_flat = external_forces_mesh.view(-1)
-                reaction_forces_mesh_flat = reaction_forces_mesh.view(-1)
+                internal_forces_mesh_flat = internal_forces_mesh.reshape(-1)
+                external_forces_mesh_flat = external_forces_mesh.reshape(-1)
+                reaction_forces_mesh_flat = reaction_forces_mesh.reshape(-1)
                 # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
                 # Flatten mesh sets
                 dirichlet_bc_mesh_flat = dirichlet_bc_mesh.view(-1).long()
-- 
2.43.0


From 1886abb531d16154871795a17db56176a6737cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:42 +0000
Subject: [PATCH 18/83] fix: Dirichlet sets loss when all degrees of freedom
 are constrained

---
 .../model/material_discovery.py                    | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/hookeai/material_model_finder/model/material_discovery.py b/src/hookeai/material_model_finder/model/material_discovery.py
index d80bac5..5dda6a3 100644
--- a/src/hookeai/material_model_finder/model/material_discovery.py
+++ b/src/hookeai/material_model_finder/model/material_discovery.py
@@ -2748,8 +2748,11 @@ class MaterialModelFinder(torch.nn.Module):
             # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
             # Flatten mesh sets
             dirichlet_bc_mesh_flat = dirichlet_bc_mesh.view(-1).long()
-            # Get unique set labels
-            unique_labels = torch.unique(dirichlet_bc_mesh_flat)
+            # Get unique set labels (including non-Dirichlet set, even if
+            # empty)
+            unique_labels = torch.unique(torch.cat(
+                (dirichlet_bc_mesh_flat.new_zeros(1),
+                 dirichlet_bc_mesh_flat)))
             # Set contiguous set labels
             dense_indices = \
                 torch.bucketize(dirichlet_bc_mesh_flat, unique_labels)
@@ -2918,8 +2921,11 @@ class MaterialModelFinder(torch.nn.Module):
                 # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
                 # Flatten mesh sets
                 dirichlet_bc_mesh_flat = dirichlet_bc_mesh.view(-1).long()
-                # Get unique set labels
-                unique_labels = torch.unique(dirichlet_bc_mesh_flat)
+                # Get unique set labels (including non-Dirichlet set, even if
+                # empty)
+                unique_labels = torch.unique(torch.cat(
+                    (dirichlet_bc_mesh_flat.new_zeros(1),
+                     dirichlet_bc_mesh_flat)))
                 # Set contiguous set labels
                 dense_indices = \
                     torch.bucketize(dirichlet_bc_mesh_flat, unique_labels)
-- 
2.43.0


From 8ae0f008cffb2d716ec004d108b019adbda8814a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:21 +0000
Subject: [PATCH 19/83] fix: refuse vectorised forward propagation with
 different materials

---
 src/hookeai/material_model_finder/model/material_discovery.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hookeai/material_model_finder/model/material_discovery.py b/src/hookeai/material_model_finder/model/material_discovery.py
index 5dda6a3..97f1164 100644
--- a/src/hookeai/material_model_finder/model/material_discovery.py
+++ b/src/hookeai/material_model_finder/model/material_discovery.py
@@ -1717,7 +1717,7 @@ class MaterialModelFinder(torch.nn.Module):
         # Get elements material
         elements_material = specimen_material_state.get_elements_material()
         # Get element constitutive material model
-        if specimen_material_state.get_n_element_material_type() > 1:
+        if len({id(x) for x in elements_material.values()}) > 1:
             raise RuntimeError('Vectorized forward propagation requires that '
                                'all the elements share the same material.')  
         else:
-- 
2.43.0


From d00e47ff896a25166e81bbf4a5c7b8966e9669e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:21 +0000
Subject: [PATCH 20/83] fix: set fitted data scalers of a model

---
 .../model_architectures/procedures/model_data_scaling.py    | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hookeai/model_architectures/procedures/model_data_scaling.py b/src/hookeai/model_architectures/procedures/model_data_scaling.py
index 31361a2..7c62246 100644
--- a/src/hookeai/model_architectures/procedures/model_data_scaling.py
+++ b/src/hookeai/model_architectures/procedures/model_data_scaling.py
@@ -91,7 +91,7 @@ def set_fitted_data_scalers(model, scaling_type, scaling_parameters):
         features normalization tensors.
     """
     # Initialize data scalers
-    model._init_data_scalers()
+    init_data_scalers(model)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Get input and output features scaling parameters
     scaling_parameters_in = scaling_parameters['features_in']
@@ -102,11 +102,11 @@ def set_fitted_data_scalers(model, scaling_type, scaling_parameters):
         # Instantiate data scalers
         scaler_features_in = TorchMinMaxScaler(
             model._n_features_in,
-            device_type=model._device_type
+            device_type=model._device_type,
             **scaling_parameters_in)
         scaler_features_out = TorchMinMaxScaler(
             model._n_features_out,
-            device_type=model._device_type
+            device_type=model._device_type,
             **scaling_parameters_out)
     elif scaling_type == 'mean-std':
         scaler_features_in = TorchStandardScaler(
-- 
2.43.0


From 28e73bf205974b6690b67afa38b620cb04f566c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:36 +0000
Subject: [PATCH 21/83] fix: GRU material models can be assigned to elements

---
 src/hookeai/simulators/fetorch/structure/structure_state.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/hookeai/simulators/fetorch/structure/structure_state.py b/src/hookeai/simulators/fetorch/structure/structure_state.py
index 40e1a39..1989171 100644
--- a/src/hookeai/simulators/fetorch/structure/structure_state.py
+++ b/src/hookeai/simulators/fetorch/structure/structure_state.py
@@ -26,6 +26,8 @@ from model_architectures.rc_base_model.model.recurrent_model import \
     RecurrentConstitutiveModel
 from model_architectures.hybrid_base_model.model.hybrid_model import \
     HybridModel
+from model_architectures.procedures.model_data_scaling import \
+    set_fitted_data_scalers
 #
 #                                                          Authorship & Credits
 # =============================================================================
@@ -298,8 +300,8 @@ class StructureMaterialState(torch.nn.Module):
             # Get data scaling parameters
             scaling_parameters = model_kwargs['scaling_parameters']
             # Set fitted model data scalers
-            constitutive_model.set_fitted_data_scalers(scaling_type,
-                                                       scaling_parameters)
+            set_fitted_data_scalers(constitutive_model, scaling_type,
+                                    scaling_parameters)
             # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
             # Set recurrency structure
             is_recurrent_model = True
-- 
2.43.0


From 022c0ef5b89ed874179edd32274fe130e27c1c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:36 +0000
Subject: [PATCH 22/83] fix: scale features of normalised models in sequential
 element mode

---
 .../model/material_discovery.py                     | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/hookeai/material_model_finder/model/material_discovery.py b/src/hookeai/material_model_finder/model/material_discovery.py
index 97f1164..98240e4 100644
--- a/src/hookeai/material_model_finder/model/material_discovery.py
+++ b/src/hookeai/material_model_finder/model/material_discovery.py
@@ -1411,10 +1411,21 @@ class MaterialModelFinder(torch.nn.Module):
             else:
                 raise RuntimeError('Not implemented.')
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
+        # Normalize input features
+        model_features_in = features_in
+        if self.check_model_in_normalized(constitutive_model):
+            model_features_in = data_scaler_transform(
+                constitutive_model, features_in, 'features_in',
+                mode='normalize')
         # Compute output features
-        features_out = constitutive_model(features_in)
+        features_out = constitutive_model(model_features_in)
         # Extract output features
         features_out = self.features_out_extractor(features_out)
+        # Denormalize output features
+        if self.check_model_out_normalized(constitutive_model):
+            features_out = data_scaler_transform(
+                constitutive_model, features_out, 'features_out',
+                mode='denormalize')
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Loop over discrete time
         for time_idx in range(n_time):
-- 
2.43.0


From 124898bf46a95994d44e4d309060b846ec23a9e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:54:00 +0000
Subject: [PATCH 23/83] fix: local response paths of normalised models store
 physical strains

---
 .../material_model_finder/model/material_discovery.py        | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/hookeai/material_model_finder/model/material_discovery.py b/src/hookeai/material_model_finder/model/material_discovery.py
index 98240e4..4ac876a 100644
--- a/src/hookeai/material_model_finder/model/material_discovery.py
+++ b/src/hookeai/material_model_finder/model/material_discovery.py
@@ -2515,13 +2515,14 @@ class MaterialModelFinder(torch.nn.Module):
         features_in = torch.stack(features_in_data, dim=0)
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Normalize input features tensor
+        model_features_in = features_in
         if self.check_model_in_normalized(constitutive_model):
             # Normalize input features
-            features_in = data_scaler_transform(constitutive_model,
+            model_features_in = data_scaler_transform(constitutive_model,
                 features_in, 'features_in', mode='normalize')
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Compute output features
-        features_out = constitutive_model(features_in)
+        features_out = constitutive_model(model_features_in)
         # Extract output features
         features_out = self.features_out_extractor(features_out)
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
-- 
2.43.0


From c13b0ca829a15fdb66f3af9393c5f280455b7f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:41 +0000
Subject: [PATCH 24/83] fix: scale features of hybridised models

---
 .../hybrid_base_model/model/hybrid_model.py            | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/hookeai/model_architectures/hybrid_base_model/model/hybrid_model.py b/src/hookeai/model_architectures/hybrid_base_model/model/hybrid_model.py
index f354128..621ce8a 100644
--- a/src/hookeai/model_architectures/hybrid_base_model/model/hybrid_model.py
+++ b/src/hookeai/model_architectures/hybrid_base_model/model/hybrid_model.py
@@ -627,8 +627,9 @@ class HybridModel(torch.nn.Module):
                 # Get hybridized model input features
                 if self.check_model_in_normalized(hyb_model):
                     # Normalize hybridized model input features
-                    hyb_model_features_in = hyb_model.data_scaler_transform(
-                        features_out, 'features_in', mode='normalize')
+                    hyb_model_features_in = data_scaler_transform(
+                        hyb_model, features_out, 'features_in',
+                        mode='normalize')
                 else:
                     hyb_model_features_in = features_out
                 # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
@@ -639,8 +640,9 @@ class HybridModel(torch.nn.Module):
                 # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
                 # Get hybridized model output features
                 if self.check_model_out_normalized(hyb_model):
-                    features_out = hyb_model.data_scaler_transform(
-                        features_out, 'features_out', mode='denormalize')
+                    features_out = data_scaler_transform(
+                        hyb_model, features_out, 'features_out',
+                        mode='denormalize')
             # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
             # Store hybridization channel output features
             list_features_out.append(features_out)
-- 
2.43.0


From edff7b5a9b113afa3c753b445ddb5ba47b412f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:41 +0000
Subject: [PATCH 25/83] fix: batched elastic model uses its elastic symmetry

---
 .../hybrid_base_model/model/hybridized_layers.py                | 2 +-
 .../hybrid_base_model/model/transfer_learning.py                | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hookeai/model_architectures/hybrid_base_model/model/hybridized_layers.py b/src/hookeai/model_architectures/hybrid_base_model/model/hybridized_layers.py
index 418a3ed..5a77591 100644
--- a/src/hookeai/model_architectures/hybrid_base_model/model/hybridized_layers.py
+++ b/src/hookeai/model_architectures/hybrid_base_model/model/hybridized_layers.py
@@ -127,7 +127,7 @@ class BatchedElasticModel(torch.nn.Module):
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Compute 3D elasticity tensor
         self._elastic_tangent_mf = Elastic.elastic_tangent_modulus(
-            elastic_properties, elastic_symmetry='isotropic',
+            elastic_properties, elastic_symmetry=elastic_symmetry,
             device=self._device)
         # Extract 2D elasticity tensor
         if self._n_dim == 2:
diff --git a/src/hookeai/model_architectures/hybrid_base_model/model/transfer_learning.py b/src/hookeai/model_architectures/hybrid_base_model/model/transfer_learning.py
index 124e0a0..df0c4d1 100644
--- a/src/hookeai/model_architectures/hybrid_base_model/model/transfer_learning.py
+++ b/src/hookeai/model_architectures/hybrid_base_model/model/transfer_learning.py
@@ -478,7 +478,7 @@ class BatchedElasticModel(torch.nn.Module):
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Compute 3D elasticity tensor
         self._elastic_tangent_mf = Elastic.elastic_tangent_modulus(
-            elastic_properties, elastic_symmetry='isotropic',
+            elastic_properties, elastic_symmetry=elastic_symmetry,
             device=self._device)
         # Extract 2D elasticity tensor
         if self._n_dim == 2:
-- 
2.43.0


From 3d704f73de907e96922cf8f39367cc6ee36a8c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:41 +0000
Subject: [PATCH 26/83] fix: volumetric/deviatoric composition keeps its input

---
 .../hybrid_base_model/model/hybridized_layers.py                | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hookeai/model_architectures/hybrid_base_model/model/hybridized_layers.py b/src/hookeai/model_architectures/hybrid_base_model/model/hybridized_layers.py
index 5a77591..973e528 100644
--- a/src/hookeai/model_architectures/hybrid_base_model/model/hybridized_layers.py
+++ b/src/hookeai/model_architectures/hybrid_base_model/model/hybridized_layers.py
@@ -390,7 +390,7 @@ class VolDevCompositionModel(torch.nn.Module):
         features_in = features_in.view(-1, n_features_in)
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Initialize output features (input deviatoric components)
-        features_out = features_in[:, 1:]
+        features_out = features_in[:, 1:].clone()
         # Get volumetric component
         vol_comp = features_in[:, 0]
         # Loop over components
-- 
2.43.0


From 57afc759f45c52de6d634d1179264d1b48169de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:41 +0000
Subject: [PATCH 27/83] fix: min-max scaling of constant features

---
 src/hookeai/utilities/data_scalers.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/hookeai/utilities/data_scalers.py b/src/hookeai/utilities/data_scalers.py
index df5cfba..2bd7735 100644
--- a/src/hookeai/utilities/data_scalers.py
+++ b/src/hookeai/utilities/data_scalers.py
@@ -243,11 +243,16 @@ class TorchMinMaxScaler:
         # Get normalization bounds
         norm_minimum = self._norm_minimum
         norm_maximum = self._norm_maximum
+        # Get features range (avoid null division for constant features)
+        features_range = maximum - minimum
+        features_range = torch.where(features_range == 0,
+                                     torch.ones_like(features_range),
+                                     features_range)
         # Normalization features tensor
         transformed_tensor = \
             norm_minimum*torch.ones_like(tensor, device=input_device) \
             + torch.div((norm_maximum - norm_minimum)*torch.ones_like(
-                tensor, device=input_device), maximum - minimum)*(
+                tensor, device=input_device), features_range)*(
                     tensor - minimum)
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Revert concatenation of sequential data
-- 
2.43.0


From 774267f231d2f596f2db1c8feabf3379ed430100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:41 +0000
Subject: [PATCH 28/83] fix: model initialization file keeps recurrent
 constitutive model options

---
 .../model_architectures/rc_base_model/model/recurrent_model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/hookeai/model_architectures/rc_base_model/model/recurrent_model.py b/src/hookeai/model_architectures/rc_base_model/model/recurrent_model.py
index 238e8e6..697b6b8 100644
--- a/src/hookeai/model_architectures/rc_base_model/model/recurrent_model.py
+++ b/src/hookeai/model_architectures/rc_base_model/model/recurrent_model.py
@@ -1667,6 +1667,9 @@ class RecurrentConstitutiveModel(torch.nn.Module):
             self._material_model_parameters
         model_init_args['model_directory'] = self.model_directory
         model_init_args['model_name'] = self.model_name
+        model_init_args['is_auto_sync_parameters'] = \
+            self._is_auto_sync_parameters
+        model_init_args['is_check_su_fail'] = self._is_check_su_fail
         model_init_args['state_features_out'] = self._state_features_out
         model_init_args['is_normalized_parameters'] = \
             self.is_normalized_parameters
-- 
2.43.0


From db101ed20fef593e06e7ef5cace80c61834c0f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:45 +0000
Subject: [PATCH 29/83] fix: change features labels of in-memory data sets, all
 labels at once

---
 src/hookeai/time_series_data/time_dataset.py | 33 +++++++++-----------
 1 file changed, 15 insertions(+), 18 deletions(-)

diff --git a/src/hookeai/time_series_data/time_dataset.py b/src/hookeai/time_series_data/time_dataset.py
index 5191dc2..1d185ca 100644
--- a/src/hookeai/time_series_data/time_dataset.py
+++ b/src/hookeai/time_series_data/time_dataset.py
@@ -215,25 +215,22 @@ def change_dataset_features_labels(dataset, features_label_map):
         each feature (key, str) data is a torch.Tensor(2d) of shape
         (sequence_length, n_features).
     """
-    # Loop over features
-    for old_label, new_label in features_label_map.items():        
-        # Probe feature existence
-        if old_label not in tuple(dataset[0].keys()):
-            continue
+    # Loop over samples
+    for i in range(len(dataset)):
+        # Get sample
+        sample = dataset[i]
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
-        # Loop over samples
-        for i in range(len(dataset)):
-            # Get sample
-            sample = dataset[i]
-            # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
-            # Change feature label
-            sample[new_label] = sample.pop(old_label)
-            # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
-            # Update data set sample
-            if isinstance(dataset, TimeSeriesDataset):
-                dataset.update_dataset_sample(i, sample)
-            else:
-                dataset[i] = sample      
+        # Collect original features
+        features = {old_label: sample.pop(old_label)
+                    for old_label in features_label_map.keys()
+                    if old_label in sample.keys()}
+        # Change features labels
+        for old_label, feature in features.items():
+            sample[features_label_map[old_label]] = feature
+        # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
+        # Update data set sample
+        if isinstance(dataset, TimeSeriesDataset):
+            dataset.update_dataset_sample(i, sample)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     return dataset
 # =============================================================================
-- 
2.43.0


From c0f825b47445ac24c546939f9e5347cfd886e4e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:45 +0000
Subject: [PATCH 30/83] fix: default weights in sum of data set features

---
 src/hookeai/time_series_data/time_dataset.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hookeai/time_series_data/time_dataset.py b/src/hookeai/time_series_data/time_dataset.py
index 1d185ca..78c9662 100644
--- a/src/hookeai/time_series_data/time_dataset.py
+++ b/src/hookeai/time_series_data/time_dataset.py
@@ -391,7 +391,8 @@ def sum_dataset_features(dataset, new_feature_label, sum_features_labels,
     sum_weights = {}
     # Set sum weights
     for feature_label in sum_features_labels:
-        if feature_label in features_weights.keys():
+        if (features_weights is not None
+                and feature_label in features_weights.keys()):
             sum_weights[feature_label] = float(features_weights[feature_label])
         else:
             sum_weights[feature_label] = 1.0
-- 
2.43.0


From 6901b265b28a27221ddf9d9852af94ded20ef159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:45 +0000
Subject: [PATCH 31/83] fix: removal of processed features keeps the new
 feature

---
 src/hookeai/time_series_data/time_dataset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hookeai/time_series_data/time_dataset.py b/src/hookeai/time_series_data/time_dataset.py
index 78c9662..fef851c 100644
--- a/src/hookeai/time_series_data/time_dataset.py
+++ b/src/hookeai/time_series_data/time_dataset.py
@@ -338,7 +338,7 @@ def concatenate_dataset_features(dataset, new_feature_label,
         # Remove concatenated features (in-memory data set only)
         if is_remove_features and is_in_memory_dataset:
             # Loop over concatenated features
-            for label in cat_features_labels:
+            for label in set(cat_features_labels) - {str(new_feature_label)}:
                 sample.pop(label)
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Update data set sample
@@ -424,7 +424,7 @@ def sum_dataset_features(dataset, new_feature_label, sum_features_labels,
         # Remove summed features (in-memory data set only)
         if is_remove_features and is_in_memory_dataset:
             # Loop over summed features
-            for label in sum_features_labels:
+            for label in set(sum_features_labels) - {str(new_feature_label)}:
                 sample.pop(label)
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Update data set sample
-- 
2.43.0


From c9109c4d5741a6d98d91589062aec2ca8d575105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:45 +0000
Subject: [PATCH 32/83] fix: update of internal directory of stored data sets

---
 src/hookeai/time_series_data/time_dataset.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/hookeai/time_series_data/time_dataset.py b/src/hookeai/time_series_data/time_dataset.py
index fef851c..6f80980 100644
--- a/src/hookeai/time_series_data/time_dataset.py
+++ b/src/hookeai/time_series_data/time_dataset.py
@@ -807,14 +807,12 @@ class TimeSeriesDataset(torch.utils.data.Dataset):
         # Load PyTorch data set
         loaded_dataset = load_dataset(dataset_file_path)
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
+        # Get (parent) data set
+        dataset = loaded_dataset
+        while isinstance(dataset, torch.utils.data.Subset):
+            dataset = dataset.dataset
         # Check data set type
-        if isinstance(loaded_dataset, torch.utils.data.Subset):
-            # Get parent data set
-            dataset = loaded_dataset.dataset
-        elif isinstance(loaded_dataset, TimeSeriesDataset):
-            # Get data set
-            dataset = loaded_dataset
-        else:
+        if not isinstance(dataset, TimeSeriesDataset):
             raise RuntimeError('The data set must be either '
                                'torch.utils.data.Subset (extracted from '
                                'TimeSeriesDataset data set) or '
@@ -827,8 +825,7 @@ class TimeSeriesDataset(torch.utils.data.Dataset):
         # internal directory of the loaded data set
         if stored_directory != new_directory:
             # Update directory of PyTorch data set
-            dataset._update_dataset_directory(
-                new_directory, is_reload_data=is_reload_data)
+            dataset._update_dataset_directory(new_directory)
             # Save updated PyTorch data set (overwrite existing data set file)
             with open(dataset_file_path, 'wb') as dataset_file:
                 pickle.dump(loaded_dataset, dataset_file)
-- 
2.43.0


From d286f1c7be5a842c8b13c7a735c72b2ae304e22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:03 +0000
Subject: [PATCH 33/83] fix: features operations on subsets of file-based data
 sets

---
 src/hookeai/time_series_data/time_dataset.py | 52 ++++++++++++++------
 1 file changed, 36 insertions(+), 16 deletions(-)

diff --git a/src/hookeai/time_series_data/time_dataset.py b/src/hookeai/time_series_data/time_dataset.py
index 6f80980..180d40b 100644
--- a/src/hookeai/time_series_data/time_dataset.py
+++ b/src/hookeai/time_series_data/time_dataset.py
@@ -194,6 +194,30 @@ def load_dataset(dataset_file_path):
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     return dataset
 # =============================================================================
+def _update_sample(dataset, index, sample):
+    """Update sample of time series data set stored in sample files.
+    
+    In-memory data set samples are updated in place by the caller.
+    
+    Parameters
+    ----------
+    dataset : torch.utils.data.Dataset
+        Time series data set. Each sample is stored as a dictionary where
+        each feature (key, str) data is a torch.Tensor(2d) of shape
+        (sequence_length, n_features).
+    index : int
+        Index of data set sample.
+    sample : dict
+        Data set sample.
+    """
+    # Get parent data set and corresponding index
+    while isinstance(dataset, torch.utils.data.Subset):
+        dataset, index = dataset.dataset, dataset.indices[index]
+    # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
+    # Update data set sample file
+    if isinstance(dataset, TimeSeriesDataset):
+        dataset.update_dataset_sample(index, sample)
+# =============================================================================
 def change_dataset_features_labels(dataset, features_label_map):
     """Change time series data set features labels.
     
@@ -229,8 +253,7 @@ def change_dataset_features_labels(dataset, features_label_map):
             sample[features_label_map[old_label]] = feature
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Update data set sample
-        if isinstance(dataset, TimeSeriesDataset):
-            dataset.update_dataset_sample(i, sample)
+        _update_sample(dataset, i, sample)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     return dataset
 # =============================================================================
@@ -273,8 +296,7 @@ def add_dataset_feature_init(dataset, feature_label, feature_init):
         sample[str(feature_label)] = feature_init
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Update data set sample
-        if isinstance(dataset, TimeSeriesDataset):
-            dataset.update_dataset_sample(i, sample)
+        _update_sample(dataset, i, sample)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     return dataset
 # =============================================================================
@@ -317,10 +339,10 @@ def concatenate_dataset_features(dataset, new_feature_label,
                                f'because it does not exist in the data set.')
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Set data set storage type
-    if isinstance(dataset, TimeSeriesDataset):
-        is_in_memory_dataset = False
-    else:
-        is_in_memory_dataset = True
+    parent_dataset = dataset
+    while isinstance(parent_dataset, torch.utils.data.Subset):
+        parent_dataset = parent_dataset.dataset
+    is_in_memory_dataset = not isinstance(parent_dataset, TimeSeriesDataset)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Loop over samples
     for i in range(len(dataset)):
@@ -342,8 +364,7 @@ def concatenate_dataset_features(dataset, new_feature_label,
                 sample.pop(label)
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Update data set sample
-        if isinstance(dataset, TimeSeriesDataset):
-            dataset.update_dataset_sample(i, sample)
+        _update_sample(dataset, i, sample)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     return dataset
 # =============================================================================
@@ -398,10 +419,10 @@ def sum_dataset_features(dataset, new_feature_label, sum_features_labels,
             sum_weights[feature_label] = 1.0
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Set data set storage type
-    if isinstance(dataset, TimeSeriesDataset):
-        is_in_memory_dataset = False
-    else:
-        is_in_memory_dataset = True
+    parent_dataset = dataset
+    while isinstance(parent_dataset, torch.utils.data.Subset):
+        parent_dataset = parent_dataset.dataset
+    is_in_memory_dataset = not isinstance(parent_dataset, TimeSeriesDataset)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Loop over samples
     for i in range(len(dataset)):
@@ -428,8 +449,7 @@ def sum_dataset_features(dataset, new_feature_label, sum_features_labels,
                 sample.pop(label)
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Update data set sample
-        if isinstance(dataset, TimeSeriesDataset):
-            dataset.update_dataset_sample(i, sample)
+        _update_sample(dataset, i, sample)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     return dataset
 # =============================================================================
-- 
2.43.0


From a8dd93984894e11d6f322fe21c3efa02dd5f1a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:32:50 +0000
Subject: [PATCH 34/83] fix: data set split sizes whose floating-point sum
 exceeds one

---
 src/hookeai/time_series_data/time_dataset.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/hookeai/time_series_data/time_dataset.py b/src/hookeai/time_series_data/time_dataset.py
index 180d40b..4c31d5c 100644
--- a/src/hookeai/time_series_data/time_dataset.py
+++ b/src/hookeai/time_series_data/time_dataset.py
@@ -940,8 +940,13 @@ def split_dataset(dataset, split_sizes, is_copy_dataset=False,
     if is_copy_dataset:
         dataset = copy.deepcopy(dataset)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
+    # Set number of samples of each subset (remainder is distributed in
+    # round-robin fashion)
+    subsets_n_sample = [int(np.floor(len(dataset)*x)) for x in subsets_sizes]
+    for i in range(len(dataset) - sum(subsets_n_sample)):
+        subsets_n_sample[i % len(subsets_n_sample)] += 1
     # Randomly split data set into non-overlapping subsets
-    subsets_list = torch.utils.data.random_split(dataset, subsets_sizes,
+    subsets_list = torch.utils.data.random_split(dataset, subsets_n_sample,
                                                  generator=generator)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Build data subsets
-- 
2.43.0


From c887945131517685bfd66d8ab3defa20988ec152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:17 +0000
Subject: [PATCH 35/83] fix: seeded data loaders in training and prediction

---
 .../model_architectures/hybrid_base_model/predict/prediction.py | 2 +-
 .../model_architectures/hybrid_base_model/train/training.py     | 2 +-
 .../model_architectures/rc_base_model/predict/prediction.py     | 2 +-
 src/hookeai/model_architectures/rc_base_model/train/training.py | 2 +-
 .../model_architectures/rnn_base_model/predict/prediction.py    | 2 +-
 .../model_architectures/rnn_base_model/train/training.py        | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/hookeai/model_architectures/hybrid_base_model/predict/prediction.py b/src/hookeai/model_architectures/hybrid_base_model/predict/prediction.py
index 407b301..1a32126 100644
--- a/src/hookeai/model_architectures/hybrid_base_model/predict/prediction.py
+++ b/src/hookeai/model_architectures/hybrid_base_model/predict/prediction.py
@@ -170,7 +170,7 @@ def predict(dataset, model_directory, model=None, predict_directory=None,
     if isinstance(seed, int):
         data_loader = get_time_series_data_loader(
             dataset=dataset, batch_size=batch_size,
-            kwargs={'worker_init_fn': seed_worker, 'generator': generator})
+            worker_init_fn=seed_worker, generator=generator)
     else:
         data_loader = get_time_series_data_loader(
             dataset=dataset, batch_size=batch_size)
diff --git a/src/hookeai/model_architectures/hybrid_base_model/train/training.py b/src/hookeai/model_architectures/hybrid_base_model/train/training.py
index a4fd28c..1fc9fd5 100644
--- a/src/hookeai/model_architectures/hybrid_base_model/train/training.py
+++ b/src/hookeai/model_architectures/hybrid_base_model/train/training.py
@@ -290,7 +290,7 @@ def train_model(n_max_epochs, dataset, model_init_args, lr_init,
         data_loader = get_time_series_data_loader(
             dataset=dataset, batch_size=batch_size,
             is_shuffle=is_sampler_shuffle,
-            kwargs={'worker_init_fn': seed_worker, 'generator': generator})
+            worker_init_fn=seed_worker, generator=generator)
     else:
         data_loader = get_time_series_data_loader(
             dataset=dataset, batch_size=batch_size,
diff --git a/src/hookeai/model_architectures/rc_base_model/predict/prediction.py b/src/hookeai/model_architectures/rc_base_model/predict/prediction.py
index dd3ad18..4896622 100644
--- a/src/hookeai/model_architectures/rc_base_model/predict/prediction.py
+++ b/src/hookeai/model_architectures/rc_base_model/predict/prediction.py
@@ -171,7 +171,7 @@ def predict(dataset, model_directory, model=None, predict_directory=None,
     if isinstance(seed, int):
         data_loader = get_time_series_data_loader(
             dataset=dataset, batch_size=batch_size,
-            kwargs={'worker_init_fn': seed_worker, 'generator': generator})
+            worker_init_fn=seed_worker, generator=generator)
     else:
         data_loader = get_time_series_data_loader(
             dataset=dataset, batch_size=batch_size)
diff --git a/src/hookeai/model_architectures/rc_base_model/train/training.py b/src/hookeai/model_architectures/rc_base_model/train/training.py
index 73ac351..4e40787 100644
--- a/src/hookeai/model_architectures/rc_base_model/train/training.py
+++ b/src/hookeai/model_architectures/rc_base_model/train/training.py
@@ -333,7 +333,7 @@ def train_model(n_max_epochs, dataset, model_init_args, lr_init,
         data_loader = get_time_series_data_loader(
             dataset=dataset, batch_size=batch_size,
             is_shuffle=is_sampler_shuffle,
-            kwargs={'worker_init_fn': seed_worker, 'generator': generator})
+            worker_init_fn=seed_worker, generator=generator)
     else:
         data_loader = get_time_series_data_loader(
             dataset=dataset, batch_size=batch_size,
diff --git a/src/hookeai/model_architectures/rnn_base_model/predict/prediction.py b/src/hookeai/model_architectures/rnn_base_model/predict/prediction.py
index e142019..9a79bf3 100644
--- a/src/hookeai/model_architectures/rnn_base_model/predict/prediction.py
+++ b/src/hookeai/model_architectures/rnn_base_model/predict/prediction.py
@@ -170,7 +170,7 @@ def predict(dataset, model_directory, model=None, predict_directory=None,
     if isinstance(seed, int):
         data_loader = get_time_series_data_loader(
             dataset=dataset, batch_size=batch_size,
-            kwargs={'worker_init_fn': seed_worker, 'generator': generator})
+            worker_init_fn=seed_worker, generator=generator)
     else:
         data_loader = get_time_series_data_loader(
             dataset=dataset, batch_size=batch_size)
diff --git a/src/hookeai/model_architectures/rnn_base_model/train/training.py b/src/hookeai/model_architectures/rnn_base_model/train/training.py
index a857373..47a6ccc 100644
--- a/src/hookeai/model_architectures/rnn_base_model/train/training.py
+++ b/src/hookeai/model_architectures/rnn_base_model/train/training.py
@@ -285,7 +285,7 @@ def train_model(n_max_epochs, dataset, model_init_args, lr_init,
         data_loader = get_time_series_data_loader(
             dataset=dataset, batch_size=batch_size,
             is_shuffle=is_sampler_shuffle,
-            kwargs={'worker_init_fn': seed_worker, 'generator': generator})
+            worker_init_fn=seed_worker, generator=generator)
     else:
         data_loader = get_time_series_data_loader(
             dataset=dataset, batch_size=batch_size,
-- 
2.43.0


From 4eb5105cc6ac37acde5784e5e57d52c7010b57bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:43 +0000
Subject: [PATCH 36/83] fix: validation of models under early stopping

---
 .../model_architectures/hybrid_base_model/train/training.py    | 3 ++-
 .../model_architectures/rc_base_model/train/training.py        | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/hookeai/model_architectures/hybrid_base_model/train/training.py b/src/hookeai/model_architectures/hybrid_base_model/train/training.py
index 1fc9fd5..81a6144 100644
--- a/src/hookeai/model_architectures/hybrid_base_model/train/training.py
+++ b/src/hookeai/model_architectures/hybrid_base_model/train/training.py
@@ -961,7 +961,8 @@ class EarlyStopper:
             # Update temporary state files flag
             is_state_file_temp = True
             # Save state files
-            save_training_state(model=model, optimizer=optimizer, epoch=epoch)
+            save_training_state(model=model, optimizer=optimizer,
+                                state_type='epoch', epoch=epoch)
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Prediction with model
         _, avg_valid_loss_sample = predict(
diff --git a/src/hookeai/model_architectures/rc_base_model/train/training.py b/src/hookeai/model_architectures/rc_base_model/train/training.py
index 4e40787..780ec00 100644
--- a/src/hookeai/model_architectures/rc_base_model/train/training.py
+++ b/src/hookeai/model_architectures/rc_base_model/train/training.py
@@ -1170,7 +1170,8 @@ class EarlyStopper:
             # Update temporary state files flag
             is_state_file_temp = True
             # Save state files
-            save_training_state(model=model, optimizer=optimizer, epoch=epoch)
+            save_training_state(model=model, optimizer=optimizer,
+                                state_type='epoch', epoch=epoch)
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Set prediction loss normalization
         if is_normalized_loss or model.is_model_out_normalized:
-- 
2.43.0


From 5cf32daba88e1410fc8ce7ef530a3f9ee3d26b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:43 +0000
Subject: [PATCH 37/83] fix: parameters convergence criterion does not override
 early stopping

---
 .../model_architectures/rc_base_model/train/training.py     | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hookeai/model_architectures/rc_base_model/train/training.py b/src/hookeai/model_architectures/rc_base_model/train/training.py
index 780ec00..449d875 100644
--- a/src/hookeai/model_architectures/rc_base_model/train/training.py
+++ b/src/hookeai/model_architectures/rc_base_model/train/training.py
@@ -530,7 +530,7 @@ def train_model(n_max_epochs, dataset, model_init_args, lr_init,
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Check model parameters convergence
         if is_params_stopping:
-            is_stop_training, parameters_status = \
+            is_params_converged, parameters_status = \
                 check_model_parameters_convergence(
                     model_parameters_history_epochs, is_verbose=is_verbose,
                     **params_stopping_kwargs)
@@ -540,7 +540,7 @@ def train_model(n_max_epochs, dataset, model_init_args, lr_init,
             # Completed maximum number of epochs
             is_keep_training = False
             break
-        elif is_params_stopping and is_stop_training:
+        elif is_params_stopping and is_params_converged:
             # Parameters convergence criterion triggered
             is_keep_training = False
             break
@@ -556,7 +556,7 @@ def train_model(n_max_epochs, dataset, model_init_args, lr_init,
         if is_early_stopping and is_stop_training:
             print('\n\n> Early stopping has been triggered!',
                   '\n\n> Finished training process!')
-        elif is_params_stopping and is_stop_training:
+        elif is_params_stopping and is_params_converged:
             print('\n\n> Parameters convergence has been triggered!',
                   '\n\n> Finished training process!')
         else:
-- 
2.43.0


From 3a16550293ab67266d4e96ef6df0d3f5d0fc118b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:43 +0000
Subject: [PATCH 38/83] fix: k-fold cross-validation of recurrent neural
 network model

---
 .../rnn_base_model/train/cross_validation.py    | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/hookeai/model_architectures/rnn_base_model/train/cross_validation.py b/src/hookeai/model_architectures/rnn_base_model/train/cross_validation.py
index f9a50da..fd7635d 100644
--- a/src/hookeai/model_architectures/rnn_base_model/train/cross_validation.py
+++ b/src/hookeai/model_architectures/rnn_base_model/train/cross_validation.py
@@ -35,7 +35,7 @@ def kfold_cross_validation(cross_validation_dir, n_fold, n_max_epochs,
                            dataset, model_init_args, lr_init,
                            opt_algorithm='adam', lr_scheduler_type='steplr',
                            lr_scheduler_kwargs={},
-                           loss_nature='node_features_out',
+                           loss_nature='features_out',
                            loss_type='mse', loss_kwargs={}, batch_size=1,
                            is_sampler_shuffle=False,
                            is_early_stopping=False, early_stopping_kwargs={},
@@ -84,13 +84,10 @@ def kfold_cross_validation(cross_validation_dir, n_fold, n_max_epochs,
 
     lr_scheduler_kwargs : dict, default={}
         Arguments of torch.optim.lr_scheduler.LRScheduler initializer.
-    loss_nature : {'node_features_out', 'global_features_out'}, \
-                  default='node_features_out'
+    loss_nature : {'features_out',}, default='features_out'
         Loss nature:
         
-        'node_features_out' : Based on node output features
-
-        'global_features_out' : Based on global output features
+        'features_out' : Based on output features
 
     loss_type : {'mse',}, default='mse'
         Loss function type:
@@ -124,10 +121,10 @@ def kfold_cross_validation(cross_validation_dir, n_fold, n_max_epochs,
         data_array[i, 0] stores the best training loss and data_array[i, 1]
         stores the average prediction loss per sample.
     """
+    start_time_sec = time.time()
     if is_verbose:
         print('\nRecurrent Neural Network model: k-fold cross-validation'
               '\n-------------------------------------------------------')
-        start_time_sec = time.time()
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Check cross-validation directory
     if not os.path.isdir(cross_validation_dir):
@@ -154,8 +151,10 @@ def kfold_cross_validation(cross_validation_dir, n_fold, n_max_epochs,
     folds_validation_losses = []
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Get model input and output features normalization
-    is_model_in_normalized = model.is_model_in_normalized
-    is_model_out_normalized = model.is_model_out_normalized
+    is_model_in_normalized = \
+        model_init_args.get('is_model_in_normalized', False)
+    is_model_out_normalized = \
+        model_init_args.get('is_model_out_normalized', False)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     if is_verbose:
         print('\n\n> Starting k-fold cross-validation process...')
-- 
2.43.0


From 577404825d611731c87505847b4d84285c703b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:43 +0000
Subject: [PATCH 39/83] fix: gradient of mean relative error loss for null
 targets

---
 src/hookeai/utilities/loss_functions.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/hookeai/utilities/loss_functions.py b/src/hookeai/utilities/loss_functions.py
index 79b2fca..a739e5b 100644
--- a/src/hookeai/utilities/loss_functions.py
+++ b/src/hookeai/utilities/loss_functions.py
@@ -130,12 +130,12 @@ class MeanRelativeErrorLoss(torch.nn.Module):
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Compute relative error
         if zero_handling == 'absolute':
-            # Compute relative error
-            relative_error = absolute_error/target.abs()
             # Assign absolute error to target values below minimum threshold
-            relative_error = \
-                torch.where(target.abs() < small, absolute_error,
-                            relative_error)
+            # (unit denominator)
+            denominator = torch.where(target.abs() < small,
+                                      torch.ones_like(target), target.abs())
+            # Compute relative error
+            relative_error = absolute_error/denominator
         elif zero_handling == 'clip':
             # Clip target values below minimum threshold
             clipped_target = torch.maximum(
-- 
2.43.0


From 31e48bd9dcaf5fe9accccb2ea2209cdca0e8df8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:43 +0000
Subject: [PATCH 40/83] fix: average training time of a single training epoch

---
 src/hookeai/material_model_finder/train/training.py             | 2 +-
 .../model_architectures/hybrid_base_model/train/training.py     | 2 +-
 src/hookeai/model_architectures/rc_base_model/train/training.py | 2 +-
 .../model_architectures/rnn_base_model/train/training.py        | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/hookeai/material_model_finder/train/training.py b/src/hookeai/material_model_finder/train/training.py
index 599adc0..c5a4f7a 100644
--- a/src/hookeai/material_model_finder/train/training.py
+++ b/src/hookeai/material_model_finder/train/training.py
@@ -388,7 +388,7 @@ def train_model(n_max_epochs, specimen_data, specimen_material_state,
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Compute total training time and average training time per epoch
     total_time_sec = time.time() - start_time_sec
-    avg_time_epoch = total_time_sec/epoch
+    avg_time_epoch = total_time_sec/(epoch + 1)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     if is_verbose:
         print(f'\n> Model directory: {model.model_directory}')
diff --git a/src/hookeai/model_architectures/hybrid_base_model/train/training.py b/src/hookeai/model_architectures/hybrid_base_model/train/training.py
index 81a6144..c3f98ae 100644
--- a/src/hookeai/model_architectures/hybrid_base_model/train/training.py
+++ b/src/hookeai/model_architectures/hybrid_base_model/train/training.py
@@ -528,7 +528,7 @@ def train_model(n_max_epochs, dataset, model_init_args, lr_init,
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Compute total training time and average training time per epoch
     total_time_sec = time.time() - start_time_sec
-    avg_time_epoch = total_time_sec/epoch
+    avg_time_epoch = total_time_sec/(epoch + 1)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     if is_verbose:
         print(f'\n> Model directory: {model.model_directory}')
diff --git a/src/hookeai/model_architectures/rc_base_model/train/training.py b/src/hookeai/model_architectures/rc_base_model/train/training.py
index 449d875..1a3d8fc 100644
--- a/src/hookeai/model_architectures/rc_base_model/train/training.py
+++ b/src/hookeai/model_architectures/rc_base_model/train/training.py
@@ -597,7 +597,7 @@ def train_model(n_max_epochs, dataset, model_init_args, lr_init,
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Compute total training time and average training time per epoch
     total_time_sec = time.time() - start_time_sec
-    avg_time_epoch = total_time_sec/epoch
+    avg_time_epoch = total_time_sec/(epoch + 1)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     if is_verbose:
         print(f'\n> Model directory: {model.model_directory}')
diff --git a/src/hookeai/model_architectures/rnn_base_model/train/training.py b/src/hookeai/model_architectures/rnn_base_model/train/training.py
index 47a6ccc..50d472e 100644
--- a/src/hookeai/model_architectures/rnn_base_model/train/training.py
+++ b/src/hookeai/model_architectures/rnn_base_model/train/training.py
@@ -482,7 +482,7 @@ def train_model(n_max_epochs, dataset, model_init_args, lr_init,
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Compute total training time and average training time per epoch
     total_time_sec = time.time() - start_time_sec
-    avg_time_epoch = total_time_sec/epoch
+    avg_time_epoch = total_time_sec/(epoch + 1)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     if is_verbose:
         print(f'\n> Model directory: {model.model_directory}')
-- 
2.43.0


From f3b790a9c4903b23368b8041822395707b253431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:43 +0000
Subject: [PATCH 41/83] fix: prediction without ground-truth output features

---
 .../model_architectures/hybrid_base_model/predict/prediction.py | 2 +-
 .../model_architectures/rc_base_model/predict/prediction.py     | 2 +-
 .../model_architectures/rnn_base_model/predict/prediction.py    | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hookeai/model_architectures/hybrid_base_model/predict/prediction.py b/src/hookeai/model_architectures/hybrid_base_model/predict/prediction.py
index 1a32126..a153757 100644
--- a/src/hookeai/model_architectures/hybrid_base_model/predict/prediction.py
+++ b/src/hookeai/model_architectures/hybrid_base_model/predict/prediction.py
@@ -207,7 +207,7 @@ def predict(dataset, model_directory, model=None, predict_directory=None,
                 features_in = batch['features_in']
             # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
             # Get output features ground-truth (None if not available)
-            targets = batch['features_out']
+            targets = batch.get('features_out')
             # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
             # Get number of batched samples
             batch_n_sample = batch['features_in'].shape[1]
diff --git a/src/hookeai/model_architectures/rc_base_model/predict/prediction.py b/src/hookeai/model_architectures/rc_base_model/predict/prediction.py
index 4896622..af10574 100644
--- a/src/hookeai/model_architectures/rc_base_model/predict/prediction.py
+++ b/src/hookeai/model_architectures/rc_base_model/predict/prediction.py
@@ -208,7 +208,7 @@ def predict(dataset, model_directory, model=None, predict_directory=None,
                 features_in = batch['features_in']
             # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
             # Get output features ground-truth (None if not available)
-            targets = batch['features_out']
+            targets = batch.get('features_out')
             # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
             # Get number of batched samples
             batch_n_sample = batch['features_in'].shape[1]
diff --git a/src/hookeai/model_architectures/rnn_base_model/predict/prediction.py b/src/hookeai/model_architectures/rnn_base_model/predict/prediction.py
index 9a79bf3..ec71e92 100644
--- a/src/hookeai/model_architectures/rnn_base_model/predict/prediction.py
+++ b/src/hookeai/model_architectures/rnn_base_model/predict/prediction.py
@@ -212,7 +212,7 @@ def predict(dataset, model_directory, model=None, predict_directory=None,
                 hidden_features_in = None
             # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
             # Get output features ground-truth (None if not available)
-            targets = batch['features_out']
+            targets = batch.get('features_out')
             # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
             # Get number of batched samples
             batch_n_sample = batch['features_in'].shape[1]
-- 
2.43.0


From 330df0884e0986615f6c96ca722693dc4dfc3373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:43 +0000
Subject: [PATCH 42/83] fix: report of null prediction loss

---
 .../model_architectures/hybrid_base_model/predict/prediction.py | 2 +-
 src/hookeai/model_architectures/procedures/model_prediction.py  | 2 +-
 .../model_architectures/rc_base_model/predict/prediction.py     | 2 +-
 .../model_architectures/rnn_base_model/predict/prediction.py    | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/hookeai/model_architectures/hybrid_base_model/predict/prediction.py b/src/hookeai/model_architectures/hybrid_base_model/predict/prediction.py
index a153757..318a292 100644
--- a/src/hookeai/model_architectures/hybrid_base_model/predict/prediction.py
+++ b/src/hookeai/model_architectures/hybrid_base_model/predict/prediction.py
@@ -278,7 +278,7 @@ def predict(dataset, model_directory, model=None, predict_directory=None,
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     if is_verbose:
         # Set average prediction loss output format
-        if avg_predict_loss:
+        if avg_predict_loss is not None:
             loss_str = (f'{avg_predict_loss:.8e} | {loss_type}')
             if is_normalized_loss:
                 loss_str += ', normalized'
diff --git a/src/hookeai/model_architectures/procedures/model_prediction.py b/src/hookeai/model_architectures/procedures/model_prediction.py
index 0760016..a88aa3f 100644
--- a/src/hookeai/model_architectures/procedures/model_prediction.py
+++ b/src/hookeai/model_architectures/procedures/model_prediction.py
@@ -168,7 +168,7 @@ def write_prediction_summary_file(
         dataset_file_path if dataset_file_path else None
     summary_data['Prediction data set size'] = len(dataset)
     summary_data['Avg. prediction loss per sample'] = \
-        f'{avg_predict_loss:.8e}' if avg_predict_loss else None
+        f'{avg_predict_loss:.8e}' if avg_predict_loss is not None else None
     summary_data['Total prediction time'] = \
         str(datetime.timedelta(seconds=int(total_time_sec)))
     summary_data['Avg. prediction time per sample'] = \
diff --git a/src/hookeai/model_architectures/rc_base_model/predict/prediction.py b/src/hookeai/model_architectures/rc_base_model/predict/prediction.py
index af10574..ae263bb 100644
--- a/src/hookeai/model_architectures/rc_base_model/predict/prediction.py
+++ b/src/hookeai/model_architectures/rc_base_model/predict/prediction.py
@@ -279,7 +279,7 @@ def predict(dataset, model_directory, model=None, predict_directory=None,
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     if is_verbose:
         # Set average prediction loss output format
-        if avg_predict_loss:
+        if avg_predict_loss is not None:
             loss_str = (f'{avg_predict_loss:.8e} | {loss_type}')
             if is_normalized_loss:
                 loss_str += ', normalized'
diff --git a/src/hookeai/model_architectures/rnn_base_model/predict/prediction.py b/src/hookeai/model_architectures/rnn_base_model/predict/prediction.py
index ec71e92..385bf36 100644
--- a/src/hookeai/model_architectures/rnn_base_model/predict/prediction.py
+++ b/src/hookeai/model_architectures/rnn_base_model/predict/prediction.py
@@ -283,7 +283,7 @@ def predict(dataset, model_directory, model=None, predict_directory=None,
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     if is_verbose:
         # Set average prediction loss output format
-        if avg_predict_loss:
+        if avg_predict_loss is not None:
             loss_str = (f'{avg_predict_loss:.8e} | {loss_type}')
             if is_normalized_loss:
                 loss_str += ', normalized'
-- 
2.43.0


From 9bc480ca013be75ecbd11b4b49c6a20d5e0289e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:15 +0000
Subject: [PATCH 43/83] fix: failed load of model state keeps posterior state
 files

---
 .../procedures/model_state_files.py              | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/src/hookeai/model_architectures/procedures/model_state_files.py b/src/hookeai/model_architectures/procedures/model_state_files.py
index adb7b72..38dfc58 100644
--- a/src/hookeai/model_architectures/procedures/model_state_files.py
+++ b/src/hookeai/model_architectures/procedures/model_state_files.py
@@ -176,20 +176,12 @@ def load_model_state(model, model_load_state=None, is_remove_posterior=True):
         model_state_file += '-init'
         # Set epoch
         epoch = 0
-        # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
-        # Delete model epoch state files posterior to loaded epoch
-        if is_remove_posterior:
-            remove_posterior_state_files(model, epoch)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     elif isinstance(model_load_state, int):
         # Get epoch
         epoch = model_load_state
         # Set model state filename with epoch
         model_state_file += '-' + str(int(epoch))
-        # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
-        # Delete model epoch state files posterior to loaded epoch
-        if is_remove_posterior:
-            remove_posterior_state_files(model, epoch)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     elif model_load_state == 'best':
         # Get state files in model directory
@@ -222,10 +214,6 @@ def load_model_state(model, model_load_state=None, is_remove_posterior=True):
             if isinstance(epoch, int):
                 model_state_file += '-' + str(epoch)
             model_state_file += '-' + 'best'
-        # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
-        # Delete model epoch state files posterior to loaded epoch
-        if isinstance(epoch, int) and is_remove_posterior:
-            remove_posterior_state_files(model, epoch)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     elif model_load_state == 'last':
         # Get state files in model directory
@@ -269,6 +257,10 @@ def load_model_state(model, model_load_state=None, is_remove_posterior=True):
     model.load_state_dict(torch.load(model_path,
                                      map_location=torch.device('cpu')))
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
+    # Delete model epoch state files posterior to loaded epoch
+    if isinstance(epoch, int) and is_remove_posterior:
+        remove_posterior_state_files(model, epoch)
+    # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     return epoch
 # =============================================================================
 def check_state_file(model, filename):
-- 
2.43.0


From 3d997fd187afaddc5c307db46be9e9c974ae41ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:15 +0000
Subject: [PATCH 44/83] fix: match of model and optimizer state files

---
 .../procedures/model_state_files.py             | 17 +++++++++--------
 .../procedures/model_training.py                | 11 ++++++-----
 2 files changed, 15 insertions(+), 13 deletions(-)

diff --git a/src/hookeai/model_architectures/procedures/model_state_files.py b/src/hookeai/model_architectures/procedures/model_state_files.py
index 38dfc58..7afb1a2 100644
--- a/src/hookeai/model_architectures/procedures/model_state_files.py
+++ b/src/hookeai/model_architectures/procedures/model_state_files.py
@@ -285,13 +285,14 @@ def check_state_file(model, filename):
         is_state_file=True, None otherwise.
     """
     # Check if file is model epoch state file
-    is_state_file = bool(re.search(r'^' + model.model_name + r'-[0-9]+'
-                                   + r'\.pt', filename))
+    match = re.fullmatch(re.escape(model.model_name) + r'-([0-9]+)\.pt',
+                         filename)
+    is_state_file = match is not None
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     epoch = None
     if is_state_file:
         # Get model state epoch
-        epoch = int(os.path.splitext(filename)[0].split('-')[-1])
+        epoch = int(match.group(1))
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     return is_state_file, epoch
 # =============================================================================
@@ -319,14 +320,14 @@ def check_best_state_file(model, filename):
         otherwise.
     """
     # Check if file is model epoch best state file
-    is_best_state_file = bool(re.search(r'^' + model.model_name
-                                        + r'-?[0-9]*' + r'-best' + r'\.pt',
-                                        filename))
+    match = re.fullmatch(re.escape(model.model_name)
+                         + r'(-([0-9]+))?-best\.pt', filename)
+    is_best_state_file = match is not None
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     epoch = None
-    if is_best_state_file:
+    if is_best_state_file and match.group(2) is not None:
         # Get model state epoch
-        epoch = int(os.path.splitext(filename)[0].split('-')[-2])
+        epoch = int(match.group(2))
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     return is_best_state_file, epoch
 # =============================================================================
diff --git a/src/hookeai/model_architectures/procedures/model_training.py b/src/hookeai/model_architectures/procedures/model_training.py
index 0c3ac12..37498e5 100644
--- a/src/hookeai/model_architectures/procedures/model_training.py
+++ b/src/hookeai/model_architectures/procedures/model_training.py
@@ -115,9 +115,9 @@ def save_training_state(model, optimizer, state_type, epoch=None,
             for filename in directory_list:
                 # Check if file is optimizer epoch best state file
                 is_best_state_file = \
-                    bool(re.search(r'^' + model.model_name + r'_optim'
-                                   + r'-?[0-9]*' + r'-best' + r'\.pt',
-                                   filename))
+                    bool(re.fullmatch(re.escape(model.model_name) + r'_optim'
+                                      + r'(-[0-9]+)?' + r'-best' + r'\.pt',
+                                      filename))
                 # Delete state file
                 if is_best_state_file:
                     os.remove(os.path.join(model.model_directory, filename))
@@ -148,8 +148,9 @@ def remove_posterior_optim_state_files(model, epoch):
     # Loop over files in material patch model directory
     for filename in directory_list:
         # Check if file is optimizer epoch state file
-        is_state_file = bool(re.search(r'^' + model.model_name + r'_optim'
-                             + r'-[0-9]+' + r'\.pt', filename))
+        is_state_file = bool(re.fullmatch(
+            re.escape(model.model_name) + r'_optim' + r'-[0-9]+' + r'\.pt',
+            filename))
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Delete optimizer epoch state file posterior to given epoch
         if is_state_file:
-- 
2.43.0


From 1018e23811aae06e0d6a2275fd322e3eeca6e93b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:45 +0000
Subject: [PATCH 45/83] fix: prediction data arrays without ground-truth

---
 .../model_architectures/materials/process_predictions.py  | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/hookeai/model_architectures/materials/process_predictions.py b/src/hookeai/model_architectures/materials/process_predictions.py
index ee9f022..61a82c1 100644
--- a/src/hookeai/model_architectures/materials/process_predictions.py
+++ b/src/hookeai/model_architectures/materials/process_predictions.py
@@ -132,6 +132,10 @@ def build_prediction_data_arrays(predictions_dir, prediction_type,
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Load sample predictions
         sample_results = load_sample_predictions(sample_prediction_path)
+        # Check availability of ground-truth
+        if sample_results['targets'] is None:
+            raise RuntimeError(f'Ground-truth is not available for sample '
+                               f'{sample_id}.')
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Loop over prediction components
         for i in range(n_data_arrays):
@@ -402,6 +406,10 @@ def build_time_series_predictions_data(dataset_file_path, predictions_dir,
             # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
             # Assemble sample predictions
             models_sample_results.append(sample_results)
+        # Check availability of ground-truth
+        if any(x['targets'] is None for x in models_sample_results):
+            raise RuntimeError(f'Ground-truth is not available for sample '
+                               f'{sample_id}.')
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Loop over prediction components
         for i in range(n_pred_comps):
-- 
2.43.0


From bfcfee76cf5c6e5cb08e01d4703da5f43674f504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:09 +0000
Subject: [PATCH 46/83] fix: read mean prediction metrics of null ground-truth
 features

---
 src/hookeai/utilities/output_prediction_metrics.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/hookeai/utilities/output_prediction_metrics.py b/src/hookeai/utilities/output_prediction_metrics.py
index 2df140d..6205faf 100644
--- a/src/hookeai/utilities/output_prediction_metrics.py
+++ b/src/hookeai/utilities/output_prediction_metrics.py
@@ -375,9 +375,10 @@ def read_mean_metrics_results_file(file_path, n_sample=None):
             # Collect metric data (assumes values are formatted in scientific
             # notation)
             prefix_pattern = r'^\s*>\s*(\w+):\s*'
+            number_pattern = r'(?:-?\d*\.?\d*(?:e[-+]?\d+)?|-?inf|nan)'
             number_list_pattern = (r'\[\s*'
-                                   r'((?:-?\d*\.?\d*(?:e[-+]?\d+)'
-                                   r'?(?:\s*,\s*-?\d*\.?\d*(?:e[-+]?\d+)?)*))'
+                                   r'(' + number_pattern
+                                   + r'(?:\s*,\s*' + number_pattern + r')*)'
                                    r'\s*\]')
             metric_data = \
                 re.search(prefix_pattern + number_list_pattern, line)
-- 
2.43.0


From 0dab65d4c4419a20c9fdb1ef4bb85f959ad6b3a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:04:31 +0000
Subject: [PATCH 47/83] fix: random strain paths satisfy asymmetric sampling
 bounds

---
 .../strain_paths/random_path.py               | 24 +++++++------------
 1 file changed, 8 insertions(+), 16 deletions(-)

diff --git a/src/hookeai/data_generation/strain_paths/random_path.py b/src/hookeai/data_generation/strain_paths/random_path.py
index 702ca5d..d204261 100644
--- a/src/hookeai/data_generation/strain_paths/random_path.py
+++ b/src/hookeai/data_generation/strain_paths/random_path.py
@@ -245,23 +245,15 @@ class RandomStrainPathGenerator(StrainPathGenerator):
                 max_strain = np.max(strain_comp_hist)
                 # Check if bounds are satisfied
                 if min_strain < lbound or max_strain > ubound:
-                    # Compute maximum deviation to lower bound
-                    if min_strain < lbound:
-                        l_dist = np.abs(lbound - min_strain)
-                    else:
-                        l_dist = 0
-                    # Compute maximum deviation to upper bound
-                    if max_strain > ubound:
-                        u_dist = np.abs(ubound - max_strain)
-                    else:
-                        u_dist = 0
-                    # Compute linear scale factor
-                    if l_dist > u_dist:
-                        scale_factor = np.abs(lbound/min_strain)
-                    else:
-                        scale_factor = np.abs(ubound/max_strain)
+                    # Compute linear scale factor (satisfies both bounds)
+                    scale_factor = 1.0
+                    if min_strain < lbound < 0:
+                        scale_factor = min(scale_factor, lbound/min_strain)
+                    if max_strain > ubound > 0:
+                        scale_factor = min(scale_factor, ubound/max_strain)
                     # Scale strain component history
-                    strain_comp_hist = scale_factor*strain_comp_hist
+                    strain_comp_hist = np.clip(scale_factor*strain_comp_hist,
+                                               lbound, ubound)
             # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
             # Assemble strain component path
             strain_path_trial[:, j] = strain_comp_hist
-- 
2.43.0


From 6efbccc5de41a71a5e370cedfb4e0900c73f3244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:04:31 +0000
Subject: [PATCH 48/83] fix: base name of response data set generated from .csv
 files

---
 .../user_scripts/synthetic_data/gen_response_dataset.py        | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hookeai/user_scripts/synthetic_data/gen_response_dataset.py b/src/hookeai/user_scripts/synthetic_data/gen_response_dataset.py
index 4c38d00..008a064 100644
--- a/src/hookeai/user_scripts/synthetic_data/gen_response_dataset.py
+++ b/src/hookeai/user_scripts/synthetic_data/gen_response_dataset.py
@@ -576,7 +576,8 @@ class MaterialResponseDatasetGenerator():
     # -------------------------------------------------------------------------
     def gen_response_dataset_from_csv(self, response_file_paths,
                                       is_in_memory_dataset=True,
-                                      dataset_directory=None, save_dir=None,
+                                      dataset_directory=None,
+                                      dataset_basename=None, save_dir=None,
                                       is_save_fig=False, is_verbose=False):
         """Generate strain-stress path data set from set of .csv files.
         
-- 
2.43.0


From d9f2e3ab8ba696a8d736c42eeb2411ebb9707c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:04:31 +0000
Subject: [PATCH 49/83] fix: import of noisy response data set generator

---
 .../user_scripts/synthetic_data/gen_noisy_response_dataset.py  | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hookeai/user_scripts/synthetic_data/gen_noisy_response_dataset.py b/src/hookeai/user_scripts/synthetic_data/gen_noisy_response_dataset.py
index ab06980..d5d3652 100644
--- a/src/hookeai/user_scripts/synthetic_data/gen_noisy_response_dataset.py
+++ b/src/hookeai/user_scripts/synthetic_data/gen_noisy_response_dataset.py
@@ -33,7 +33,8 @@ from time_series_data.time_dataset import TimeSeriesDatasetInMemory, \
 from data_generation.strain_paths.random_path import RandomStrainPathGenerator
 from data_generation.strain_paths.proportional_path import \
     ProportionalStrainPathGenerator
-from synthetic_data.gen_response_dataset import generate_dataset_plots
+from user_scripts.synthetic_data.gen_response_dataset import \
+    generate_dataset_plots
 from simulators.fetorch.math.matrixops import get_problem_type_parameters, \
     get_tensor_from_mf
 from simulators.fetorch.material.material_su import material_state_update
-- 
2.43.0


From f0c0f69a4ee00c1a96b94270bb1bc6bfd974efce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:07 +0000
Subject: [PATCH 50/83] fix: heteroscedastic noise weights of each strain path

---
 .../synthetic_data/gen_noisy_response_dataset.py   | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/hookeai/user_scripts/synthetic_data/gen_noisy_response_dataset.py b/src/hookeai/user_scripts/synthetic_data/gen_noisy_response_dataset.py
index d5d3652..315ca4f 100644
--- a/src/hookeai/user_scripts/synthetic_data/gen_noisy_response_dataset.py
+++ b/src/hookeai/user_scripts/synthetic_data/gen_noisy_response_dataset.py
@@ -403,16 +403,18 @@ class NoisyMaterialResponseDatasetGenerator:
                 if noise_variability == 'heteroscedastic':
                     # Compute noiseless strain norm path
                     noiseless_strain_norm_path = \
-                        dataset_generator.compute_norm_path(
-                            noiseless_strain_path, n_dim, strain_comps_order,
-                            is_symmetric=strain_formulation == 'infinitesimal')
+                        self.compute_norm_path(
+                            noiseless_strain_path, self._n_dim,
+                            strain_comps_order, is_symmetric=(
+                                self._strain_formulation == 'infinitesimal'))
                     # Set heteroscedastic normalization
                     if heteroscedastic_normalizer is None:
-                        heteroscedastic_normalizer = \
-                            np.max(noiseless_strain_norm_path)
+                        normalizer = np.max(noiseless_strain_norm_path)
+                    else:
+                        normalizer = heteroscedastic_normalizer
                     # Compute heteroscedastic noise weights
                     heteroscedastic_weights = \
-                        noiseless_strain_norm_path/heteroscedastic_normalizer
+                        noiseless_strain_norm_path/normalizer
                 else:
                     heteroscedastic_weights = None
                 # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
-- 
2.43.0


From 7608e91a762061c034de0e0deae10290581b67f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:07 +0000
Subject: [PATCH 51/83] fix: initial strain of denoised strain paths

---
 .../user_scripts/synthetic_data/gen_noisy_response_dataset.py  | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hookeai/user_scripts/synthetic_data/gen_noisy_response_dataset.py b/src/hookeai/user_scripts/synthetic_data/gen_noisy_response_dataset.py
index 315ca4f..22e3a64 100644
--- a/src/hookeai/user_scripts/synthetic_data/gen_noisy_response_dataset.py
+++ b/src/hookeai/user_scripts/synthetic_data/gen_noisy_response_dataset.py
@@ -454,7 +454,8 @@ class NoisyMaterialResponseDatasetGenerator:
                         denoise_method, denoise_parameters=denoise_parameters,
                         n_denoise_cycle=n_denoise_cycle).numpy()
                     # Enforce null initial noise
-                    strain_path[0, :] = noiseless_strain_path[0, :]
+                    strain_path[0, :] = \
+                        noiseless_response_path['strain_path'][0, :].numpy()
                 # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
                 # Compute material response
                 stress_comps_order, stress_path, state_path, \
-- 
2.43.0


From 0abc03d83e7e9623ab34d02c895607a7d4801e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:07 +0000
Subject: [PATCH 52/83] fix: ignore unavailable state variables of noisy
 response data sets

---
 .../user_scripts/synthetic_data/gen_noisy_response_dataset.py   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hookeai/user_scripts/synthetic_data/gen_noisy_response_dataset.py b/src/hookeai/user_scripts/synthetic_data/gen_noisy_response_dataset.py
index 22e3a64..ae183ea 100644
--- a/src/hookeai/user_scripts/synthetic_data/gen_noisy_response_dataset.py
+++ b/src/hookeai/user_scripts/synthetic_data/gen_noisy_response_dataset.py
@@ -610,7 +610,7 @@ class NoisyMaterialResponseDatasetGenerator:
             for state_var in state_features.keys():
                 # Skip if state variable is not available
                 if state_var not in state_variables.keys():
-                    state_path.pop(state_var)
+                    state_path.pop(state_var, None)
                     continue
                 # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
                 # Store state variable
-- 
2.43.0


From 8911f6db8f2233e2d5e7a488682bb711b5bfbd3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:24 +0000
Subject: [PATCH 53/83] fix: precision of denoising convolution kernels

---
 src/hookeai/utilities/data_denoisers.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/hookeai/utilities/data_denoisers.py b/src/hookeai/utilities/data_denoisers.py
index b2ffa81..1b194a5 100644
--- a/src/hookeai/utilities/data_denoisers.py
+++ b/src/hookeai/utilities/data_denoisers.py
@@ -124,7 +124,8 @@ class Denoiser:
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Set convolution kernel of shape (n_features, 1, window_size)
         # (set independent kernel for each feature)
-        kernel = torch.ones(n_features, 1, window_size)/window_size
+        kernel = torch.ones(n_features, 1, window_size, dtype=tensor.dtype,
+                            device=tensor.device)/window_size
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Compute moving average (independent convolution of each feature)
         denoised_tensor = \
@@ -194,7 +195,8 @@ class Denoiser:
                            for _ in range(n_features)])
         # Set convolution kernel of shape (n_features, 1, window_size)
         # (set independent kernel for each feature)
-        kernel = torch.tensor(coeffs).view(n_features, 1, window_size)
+        kernel = torch.tensor(coeffs, dtype=tensor.dtype, device=tensor.device
+                              ).view(n_features, 1, window_size)
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Compute moving average (independent convolution of each feature)
         denoised_tensor = \
-- 
2.43.0


From 49cf49a81fc688e3ecb7934c36fb50bd338b84ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:14:13 +0000
Subject: [PATCH 54/83] fix: error of missing symmetric strain components

---
 src/hookeai/data_generation/strain_paths/interface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hookeai/data_generation/strain_paths/interface.py b/src/hookeai/data_generation/strain_paths/interface.py
index 3130c53..77cf92d 100644
--- a/src/hookeai/data_generation/strain_paths/interface.py
+++ b/src/hookeai/data_generation/strain_paths/interface.py
@@ -137,7 +137,7 @@ class StrainPathGenerator(ABC):
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Check strain components completeness
         if is_symmetric and len(strain_comp_order) != 0.5*n_dim*(n_dim + 1):
-            raise RuntimeError(f'Expecting {0.5*n_dim(n_dim + 1)} independent '
+            raise RuntimeError(f'Expecting {0.5*n_dim*(n_dim + 1)} independent '
                                f'strain components under symmetry, but '
                                f'{len(strain_comp_order)} were provided.')
         elif not is_symmetric and len(strain_comp_order) != n_dim**2:
-- 
2.43.0


From d9c9f816e28741fa20cb82e60d12ff29dcd42278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:57 +0000
Subject: [PATCH 55/83] fix: null increments of strain paths with enforced
 increment norm

---
 .../data_generation/strain_paths/proportional_path.py       | 6 ++++--
 src/hookeai/data_generation/strain_paths/random_path.py     | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/hookeai/data_generation/strain_paths/proportional_path.py b/src/hookeai/data_generation/strain_paths/proportional_path.py
index ef542a4..7e449de 100644
--- a/src/hookeai/data_generation/strain_paths/proportional_path.py
+++ b/src/hookeai/data_generation/strain_paths/proportional_path.py
@@ -190,8 +190,10 @@ class ProportionalStrainPathGenerator(StrainPathGenerator):
                     inc_strain = strain - strain_old
                 else:
                     raise RuntimeError('Not implemented.')
-                # Compute strain increment unit vector
-                inc_strain_direction = inc_strain/np.linalg.norm(inc_strain)
+                # Compute strain increment unit vector (null strain increment
+                # has no direction and is preserved)
+                inc_strain_direction = inc_strain/(
+                    np.linalg.norm(inc_strain) or 1.0)
                 # Enforce strain increment norm
                 strain = strain_old + inc_strain_norm*inc_strain_direction
                 # Update strain path
diff --git a/src/hookeai/data_generation/strain_paths/random_path.py b/src/hookeai/data_generation/strain_paths/random_path.py
index d204261..6d6d564 100644
--- a/src/hookeai/data_generation/strain_paths/random_path.py
+++ b/src/hookeai/data_generation/strain_paths/random_path.py
@@ -281,8 +281,10 @@ class RandomStrainPathGenerator(StrainPathGenerator):
                     inc_strain = strain - strain_old
                 else:
                     raise RuntimeError('Not implemented.')
-                # Compute strain increment unit vector
-                inc_strain_direction = inc_strain/np.linalg.norm(inc_strain)
+                # Compute strain increment unit vector (null strain increment
+                # has no direction and is preserved)
+                inc_strain_direction = inc_strain/(
+                    np.linalg.norm(inc_strain) or 1.0)
                 # Enforce strain increment norm
                 strain = strain_old + inc_strain_norm*inc_strain_direction
                 # Update strain path
-- 
2.43.0


From 12c3d94810478dee695cebb2db376149caab5382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:18 +0000
Subject: [PATCH 56/83] fix: material patch without rigid body motions

---
 src/hookeai/data_generation/spdg/patch_generator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hookeai/data_generation/spdg/patch_generator.py b/src/hookeai/data_generation/spdg/patch_generator.py
index 43326a3..e38d79a 100644
--- a/src/hookeai/data_generation/spdg/patch_generator.py
+++ b/src/hookeai/data_generation/spdg/patch_generator.py
@@ -407,7 +407,7 @@ class FiniteElementPatchGenerator:
                     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
                     # Rigid body rotation (around deformed configuration
                     # centroid)
-                    if centroid_def is not None and rotation is not None:
+                    if centroid_def is not None and rbm_rotation is not None:
                         # Build centroid tile array (local)
                         centroid_def_tile = np.tile(centroid_def, (n_nodes, 1))
                         # Superimpose rigid body rotation around centroid
@@ -417,7 +417,7 @@ class FiniteElementPatchGenerator:
                                 coords_array - centroid_def_tile, rbm_rotation)
                     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
                     # Rigid body translation
-                    if translation is not None:
+                    if rbm_translation is not None:
                         # Build translation tile array (local)
                         translation_tile = \
                             np.tile(rbm_translation, (n_nodes, 1))
-- 
2.43.0


From 24b91719cf67099943ac7e25091d18ea68d474be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:18 +0000
Subject: [PATCH 57/83] fix: displacement of corners with touching ranges

---
 src/hookeai/data_generation/spdg/patch_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hookeai/data_generation/spdg/patch_generator.py b/src/hookeai/data_generation/spdg/patch_generator.py
index e38d79a..f568824 100644
--- a/src/hookeai/data_generation/spdg/patch_generator.py
+++ b/src/hookeai/data_generation/spdg/patch_generator.py
@@ -947,7 +947,7 @@ class FiniteElementPatchGenerator:
                             # Check displacement range intersection
                             min_max = np.min((range_l[1], range_r[1]))
                             max_min = np.max((range_l[0], range_r[0]))
-                            if min_max > max_min:
+                            if min_max >= max_min:
                                 # If non-null intersection range, then sample
                                 # random displacement along dimension on that
                                 # range: uniform distribution
-- 
2.43.0


From 43ba86a4d45e985ee0dce35e937e8dcf9c0d90a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:18 +0000
Subject: [PATCH 58/83] fix: interpolation of face nodes displacements

---
 src/hookeai/data_generation/spdg/patch_generator.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/hookeai/data_generation/spdg/patch_generator.py b/src/hookeai/data_generation/spdg/patch_generator.py
index f568824..9d09c0f 100644
--- a/src/hookeai/data_generation/spdg/patch_generator.py
+++ b/src/hookeai/data_generation/spdg/patch_generator.py
@@ -1970,15 +1970,15 @@ class FiniteElementPatchGenerator:
                             # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
                             # Interpolate displacement along first dimension
                             disp_1 = (
-                                (1.0 - i/n_node_1)*mesh_boundary_nodes_disps[
+                                (1.0 - i/(n_node_1 - 1))*mesh_boundary_nodes_disps[
                                     str(face_nodes[0, j])]
-                                + (i/n_node_1)*mesh_boundary_nodes_disps[
+                                + (i/(n_node_1 - 1))*mesh_boundary_nodes_disps[
                                     str(face_nodes[-1, j])])
                             # Interpolate displacement along second dimension
                             disp_2 = (
-                                (1.0 - j/n_node_2)*mesh_boundary_nodes_disps[
+                                (1.0 - j/(n_node_2 - 1))*mesh_boundary_nodes_disps[
                                     str(face_nodes[i, 0])]
-                                + (j/n_node_2)*mesh_boundary_nodes_disps[
+                                + (j/(n_node_2 - 1))*mesh_boundary_nodes_disps[
                                     str(face_nodes[i, -1])])
                             # Compute node displacement
                             disp = np.mean((disp_1, disp_2), axis=0)
-- 
2.43.0


From aa0c7e84f505eab8d2e66995db1d7a2701a03515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:09 +0000
Subject: [PATCH 59/83] fix: free degrees of freedom in Links input data file

A free degree of freedom (None displacement) got a null prescription code
but failed to be written.
---
 src/hookeai/simulators/links/links.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hookeai/simulators/links/links.py b/src/hookeai/simulators/links/links.py
index 57e6790..bbf61e6 100644
--- a/src/hookeai/simulators/links/links.py
+++ b/src/hookeai/simulators/links/links.py
@@ -622,7 +622,8 @@ class LinksSimulator:
             write_lines += \
                 [' ' + '{:>3s}'.format(str(node)) + ' ' \
                  + ''.join(['{:^1d}'.format(i) for i in code]) \
-                 + ' '.join(['{:16.8e}'.format(val) for val in disp]) + '\n']         
+                 + ' '.join(['{:16.8e}'.format(0.0 if val is None else val)
+                             for val in disp]) + '\n']
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~       
         # Write Links input data file
         links_file.writelines(write_lines)
-- 
2.43.0


From afbea40369de374e37e57b2f888502fc92f394d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:09 +0000
Subject: [PATCH 60/83] fix: separation of displacements in Dirichlet boundary
 conditions file

A negative displacement was glued to the previous one, and displacements
were truncated to five digits.
---
 .../simulators/links/utilities/links_specimen_dirichlet.py      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hookeai/simulators/links/utilities/links_specimen_dirichlet.py b/src/hookeai/simulators/links/utilities/links_specimen_dirichlet.py
index 0d90783..b1b645e 100644
--- a/src/hookeai/simulators/links/utilities/links_specimen_dirichlet.py
+++ b/src/hookeai/simulators/links/utilities/links_specimen_dirichlet.py
@@ -239,7 +239,7 @@ def write_links_dirichlet_bc_file(dbc_file_dir, dbc_array,
         node_dbc_code = \
             ''.join(['{:>1d}'.format(int(x)) for x in dbc_array[i, 1:4]])
         node_dbc_disps = \
-            ''.join(['{:11.4e}'.format(x) for x in dbc_array[i, 4:7]])
+            ' '.join(['{:16.8e}'.format(x) for x in dbc_array[i, 4:7]])
         # Append node to file data
         write_lines += \
             [f'  {node_label} {node_dbc_code} {node_dbc_disps}' + '\n']
-- 
2.43.0


From c8af914f412e12c5fc440492fed77f6a71224d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:09 +0000
Subject: [PATCH 61/83] fix: reaction node group of negative prescribed
 displacements

---
 .../simulators/links/utilities/links_specimen_dirichlet.py      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hookeai/simulators/links/utilities/links_specimen_dirichlet.py b/src/hookeai/simulators/links/utilities/links_specimen_dirichlet.py
index b1b645e..07f20d4 100644
--- a/src/hookeai/simulators/links/utilities/links_specimen_dirichlet.py
+++ b/src/hookeai/simulators/links/utilities/links_specimen_dirichlet.py
@@ -255,7 +255,7 @@ def write_links_dirichlet_bc_file(dbc_file_dir, dbc_array,
         # Loop over Dirichlet boundary conditions nodes
         for i in range(n_node_dbc):
             # Collect node label if non-null Dirichlet boundary condition
-            if np.any(dbc_array[i, 4:7] > small):
+            if np.any(np.abs(dbc_array[i, 4:7]) > small):
                 reaction_nodes.append(int(dbc_array[i, 0]))
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Append reaction node group to file data
-- 
2.43.0


From e347a375b638b85555477048dd67653bb3036bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:30 +0000
Subject: [PATCH 62/83] fix: node data files of material patch local paths data
 set

The node data files lacked the Dirichlet boundary conditions columns that are
required to get the specimen numerical data, so no data set could be built.
---
 .../synthetic_data/build_local_paths_dataset.py     | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/hookeai/user_scripts/synthetic_data/build_local_paths_dataset.py b/src/hookeai/user_scripts/synthetic_data/build_local_paths_dataset.py
index 8952798..cc575a1 100644
--- a/src/hookeai/user_scripts/synthetic_data/build_local_paths_dataset.py
+++ b/src/hookeai/user_scripts/synthetic_data/build_local_paths_dataset.py
@@ -46,9 +46,8 @@ from user_scripts.global_model_update.material_finder. \
     gen_specimen_local_paths import gen_specimen_local_dataset
 from user_scripts.synthetic_data.gen_response_dataset import \
     generate_dataset_plots
-from simulators.links.utilities.links_dat_to_inp import links_dat_to_abaqus_inp
-from simulators.links.utilities.links_nodedata_to_csv import \
-    links_node_output_to_csv
+from simulators.links.utilities.links_data_to_adimu import \
+    gen_adimu_data_from_links
 from ioput.iostandard import make_directory
 #
 #                                                          Authorship & Credits
@@ -249,10 +248,10 @@ def gen_patch_formatted_data(patch_data_dir, patch_name):
     links_output_dir = \
         os.path.join(os.path.normpath(simulations_dir), f'{patch_name}')
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
-    # Convert Links input data file to Abaqus input data file    
-    abaqus_inp_file_path = links_dat_to_abaqus_inp(links_input_file_path)
-    # Convert Links node output data files to '.csv' files
-    node_data_csv_dir = links_node_output_to_csv(links_output_dir)
+    # Convert Links input data file to Abaqus input data file and Links node
+    # output data files to '.csv' files
+    abaqus_inp_file_path, node_data_csv_dir = gen_adimu_data_from_links(
+        links_input_file_path, links_output_dir, simulations_dir)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     return abaqus_inp_file_path, node_data_csv_dir
 # =============================================================================
-- 
2.43.0


From a139f5fe31b3022f12af66bc4d8d0b167b018373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:30 +0000
Subject: [PATCH 63/83] fix: generate specimen data without saving all data
 files

---
 .../global_model_update/material_finder/gen_specimen_data.py  | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/hookeai/user_scripts/global_model_update/material_finder/gen_specimen_data.py b/src/hookeai/user_scripts/global_model_update/material_finder/gen_specimen_data.py
index 93d84c3..0a177c4 100644
--- a/src/hookeai/user_scripts/global_model_update/material_finder/gen_specimen_data.py
+++ b/src/hookeai/user_scripts/global_model_update/material_finder/gen_specimen_data.py
@@ -134,6 +134,10 @@ def gen_specimen_dataset(specimen_name, specimen_raw_dir, specimen_inp_path,
         nodes_disps_mesh_hist, reaction_forces_mesh_hist,
         dirichlet_bc_mesh_hist, time_hist)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
+    # Initialize data files paths
+    specimen_data_path = None
+    specimen_material_state_path = None
+    # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Save specimen data
     if is_save_specimen_data:
         # Set specimen numerical data file path
-- 
2.43.0


From 79767df0623bf5e026cb076155c9c36c47cef1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:06 +0000
Subject: [PATCH 64/83] fix: loss type of material patch local paths data set

The Dirichlet boundary constraints of a material patch are stored pointwise
but were processed as sets, and rejected.
---
 .../material_finder/gen_specimen_local_paths.py          | 9 ++++++---
 .../synthetic_data/build_local_paths_dataset.py          | 3 ++-
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/hookeai/user_scripts/global_model_update/material_finder/gen_specimen_local_paths.py b/src/hookeai/user_scripts/global_model_update/material_finder/gen_specimen_local_paths.py
index ed74588..5bc7c5f 100644
--- a/src/hookeai/user_scripts/global_model_update/material_finder/gen_specimen_local_paths.py
+++ b/src/hookeai/user_scripts/global_model_update/material_finder/gen_specimen_local_paths.py
@@ -40,7 +40,8 @@ __status__ = 'Stable'
 def gen_specimen_local_dataset(specimen_data_path,
                                specimen_material_state_path,
                                model_directory, is_plot_dataset=False,
-                               device_type='cpu', is_verbose=False):
+                               device_type='cpu', is_verbose=False,
+                               force_equilibrium_loss_type='dirichlet_sets'):
     """Generate specimen local strain-stress paths data set.
     
     Parameters
@@ -59,6 +60,10 @@ def gen_specimen_local_dataset(specimen_data_path,
         Type of device on which torch.Tensor is allocated.
     is_verbose : bool, default=False
         If True, enable verbose output.
+    force_equilibrium_loss_type : {'pointwise', 'dirichlet_sets'}, \
+                                  default='dirichlet_sets'
+        Type of force equilibrium loss, which must be consistent with the
+        specimen Dirichlet boundary constraints data.
         
     Returns
     -------
@@ -78,8 +83,6 @@ def gen_specimen_local_dataset(specimen_data_path,
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Set material model finder name
     model_finder_name = 'material_model_finder'
-    # Set force equilibrium loss type
-    force_equilibrium_loss_type = 'dirichlet_sets'
     # Set force normalization
     is_force_normalization = False
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
diff --git a/src/hookeai/user_scripts/synthetic_data/build_local_paths_dataset.py b/src/hookeai/user_scripts/synthetic_data/build_local_paths_dataset.py
index cc575a1..fd460ce 100644
--- a/src/hookeai/user_scripts/synthetic_data/build_local_paths_dataset.py
+++ b/src/hookeai/user_scripts/synthetic_data/build_local_paths_dataset.py
@@ -459,7 +459,8 @@ def gen_patch_local_dataset(model_finder_dir, patch_data_path,
     # Generate material patch local strain-stress paths data set
     local_dataset, _ = gen_specimen_local_dataset(
         patch_data_path, patch_material_state_path, model_directory,
-        device_type=device_type, is_verbose=is_verbose)
+        device_type=device_type, is_verbose=is_verbose,
+        force_equilibrium_loss_type='pointwise')
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     return local_dataset
 # =============================================================================
-- 
2.43.0


From e32f125f494f6e84f15910b96f17c4ec630633bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:15 +0000
Subject: [PATCH 65/83] fix: match of specimen history time step files

Files that only start as a time step file (backups) were taken as time steps.
---
 .../global_model_update/material_finder/gen_specimen_data.py    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hookeai/user_scripts/global_model_update/material_finder/gen_specimen_data.py b/src/hookeai/user_scripts/global_model_update/material_finder/gen_specimen_data.py
index 0a177c4..b469684 100644
--- a/src/hookeai/user_scripts/global_model_update/material_finder/gen_specimen_data.py
+++ b/src/hookeai/user_scripts/global_model_update/material_finder/gen_specimen_data.py
@@ -374,7 +374,7 @@ def get_specimen_history_paths(specimen_history_dir, specimen_name):
     for filename in directory_list:
         # Check if file is specimen history time step file
         is_time_step_file = bool(
-            re.search(r'^' + specimen_name + r'_tstep_[0-9]+' + r'\.csv',
+            re.search(r'^' + specimen_name + r'_tstep_[0-9]+' + r'\.csv$',
                       filename))
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Append specimen history time step file
-- 
2.43.0


From cc3726a6027fa1e5c91ac709c942a24df91d16ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:59 +0000
Subject: [PATCH 66/83] fix: volumetric stress and deviatoric stress features

---
 src/hookeai/model_architectures/materials/stress_features.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hookeai/model_architectures/materials/stress_features.py b/src/hookeai/model_architectures/materials/stress_features.py
index 88fc97b..7e22103 100644
--- a/src/hookeai/model_architectures/materials/stress_features.py
+++ b/src/hookeai/model_architectures/materials/stress_features.py
@@ -153,7 +153,7 @@ def compute_stress_feature(stress_comps_array, stress_feature_label, n_dim,
                                'be computed from three-dimensional stress '
                                'tensor.')
         # Compute volumetric (or hydrostatic) stress
-        stress_feature = torch.trace(stress)
+        stress_feature = torch.trace(stress)/3.0
     elif stress_feature_label == 'dev_stress':
         # Check number of spatial dimensions
         if n_dim != 3:
@@ -161,7 +161,7 @@ def compute_stress_feature(stress_comps_array, stress_feature_label, n_dim,
                                'computed from three-dimensional stress '
                                'tensor.')
         # Compute volumetric (or hydrostatic) stress
-        vol_stress = torch.trace(stress)
+        vol_stress = torch.trace(stress)/3.0
         # Compute deviatoric stress
         dev_stress = stress - vol_stress*torch.eye(n_dim)
         # Store deviatoric stress components
-- 
2.43.0


From 69090914b0f162e30a8ca49d62442e0f17d6cde1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:59 +0000
Subject: [PATCH 67/83] fix: strain and stress features of subset of data set
 stored in files

---
 src/hookeai/model_architectures/materials/strain_features.py | 5 ++---
 src/hookeai/model_architectures/materials/stress_features.py | 5 ++---
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/hookeai/model_architectures/materials/strain_features.py b/src/hookeai/model_architectures/materials/strain_features.py
index eae414e..7519b42 100644
--- a/src/hookeai/model_architectures/materials/strain_features.py
+++ b/src/hookeai/model_architectures/materials/strain_features.py
@@ -19,7 +19,7 @@ import itertools
 # Third-party
 import torch
 # Local
-from time_series_data.time_dataset import TimeSeriesDataset, load_dataset
+from time_series_data.time_dataset import _update_sample, load_dataset
 #
 #                                                          Authorship & Credits
 # =============================================================================
@@ -109,8 +109,7 @@ def add_strain_features(dataset, strain_feature_label):
         sample[strain_feature_label] = strain_feature_path
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Update data set sample
-        if isinstance(dataset, TimeSeriesDataset):
-            dataset.update_dataset_sample(i, sample)
+        _update_sample(dataset, i, sample)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     return dataset
 # =============================================================================
diff --git a/src/hookeai/model_architectures/materials/stress_features.py b/src/hookeai/model_architectures/materials/stress_features.py
index 7e22103..430d754 100644
--- a/src/hookeai/model_architectures/materials/stress_features.py
+++ b/src/hookeai/model_architectures/materials/stress_features.py
@@ -19,7 +19,7 @@ import itertools
 # Third-party
 import torch
 # Local
-from time_series_data.time_dataset import TimeSeriesDataset, load_dataset
+from time_series_data.time_dataset import _update_sample, load_dataset
 #
 #                                                          Authorship & Credits
 # =============================================================================
@@ -109,8 +109,7 @@ def add_stress_features(dataset, stress_feature_label):
         sample[stress_feature_label] = stress_feature_path
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Update data set sample
-        if isinstance(dataset, TimeSeriesDataset):
-            dataset.update_dataset_sample(i, sample)
+        _update_sample(dataset, i, sample)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     return dataset
 # =============================================================================
-- 
2.43.0


From dfa1fa8301f99695b6517e67bc2d6d96a580325c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:10 +0000
Subject: [PATCH 68/83] fix: precision of deviatoric stress feature

---
 src/hookeai/model_architectures/materials/stress_features.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hookeai/model_architectures/materials/stress_features.py b/src/hookeai/model_architectures/materials/stress_features.py
index 430d754..df4984e 100644
--- a/src/hookeai/model_architectures/materials/stress_features.py
+++ b/src/hookeai/model_architectures/materials/stress_features.py
@@ -162,7 +162,8 @@ def compute_stress_feature(stress_comps_array, stress_feature_label, n_dim,
         # Compute volumetric (or hydrostatic) stress
         vol_stress = torch.trace(stress)/3.0
         # Compute deviatoric stress
-        dev_stress = stress - vol_stress*torch.eye(n_dim)
+        dev_stress = stress - vol_stress*torch.eye(n_dim, dtype=stress.dtype,
+                                                   device=stress.device)
         # Store deviatoric stress components
         stress_feature = store_stress_comps(stress_comps_order, dev_stress)
     else:
-- 
2.43.0


From 4de19a5b3cefaa1d7091c739ed25b71c0daa626a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:07 +0000
Subject: [PATCH 69/83] fix: colormap of surface plot

---
 src/hookeai/ioput/plots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hookeai/ioput/plots.py b/src/hookeai/ioput/plots.py
index 101a42d..da01d32 100644
--- a/src/hookeai/ioput/plots.py
+++ b/src/hookeai/ioput/plots.py
@@ -1001,7 +1001,7 @@ def plot_surface_xyz_data(x_mesh, y_mesh, z_mesh, colormap='viridis',
               color='0.5', zorder=-20)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Plot surface data
-    axes.plot_surface(x_mesh, y_mesh, z_mesh, cmap='viridis',
+    axes.plot_surface(x_mesh, y_mesh, z_mesh, cmap=colormap,
                       edgecolor='k', linewidth=0.5, shade=True)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Overlay mesh grid points
-- 
2.43.0


From 10c35e369b8531fffa5b7d7036d8979d00c6c289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:07 +0000
Subject: [PATCH 70/83] fix: data sets labels of histogram plot

---
 src/hookeai/ioput/plots.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/hookeai/ioput/plots.py b/src/hookeai/ioput/plots.py
index da01d32..3e593de 100644
--- a/src/hookeai/ioput/plots.py
+++ b/src/hookeai/ioput/plots.py
@@ -2094,7 +2094,9 @@ def plot_histogram(data, data_labels=None, bins=None, bins_range=None,
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Plot histogram
     bins_vals, bins_edges, _ = axes.hist(data, bins=bins, range=bins_range,
-                                         density=density, zorder=10)
+                                         density=density, zorder=10,
+                                         label=[tex_str(x, is_latex)
+                                                for x in data_labels])
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Set legend
     if not all([x is None for x in data_labels]):
-- 
2.43.0


From 85ed6e9c7ed42be5d682816d8d02597ace7c7aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:07 +0000
Subject: [PATCH 71/83] fix: normalization of time series predictions with
 different lengths

---
 .../model_architectures/procedures/model_prediction.py    | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/hookeai/model_architectures/procedures/model_prediction.py b/src/hookeai/model_architectures/procedures/model_prediction.py
index a88aa3f..da9d092 100644
--- a/src/hookeai/model_architectures/procedures/model_prediction.py
+++ b/src/hookeai/model_architectures/procedures/model_prediction.py
@@ -285,17 +285,17 @@ def plot_time_series_prediction(prediction_sets, is_reference_data=False,
         # Normalize prediction data
         if is_normalize_data:
             # Get minimum and maximum prediction values
-            min_pred = np.min(data_xy[:, 1::2])
-            max_pred = np.max(data_xy[:, 1::2])
+            min_pred = min([np.min(x[:, 1]) for x in prediction_sets.values()])
+            max_pred = max([np.max(x[:, 1]) for x in prediction_sets.values()])
             # Normalize data array
-            for i in range(n_processes):
+            for i, val in enumerate(prediction_sets.values()):
                 # Get prediction process sequence length
                 n_time = val.shape[0]
                 # Normalize time
                 data_xy[:n_time, 2*i] = np.linspace(0, 1.0, num=n_time)
                 # Normalize predictions
                 data_xy[:n_time, 2*i+1] = \
-                    (data_xy[:, 2*i+1] - min_pred)/(max_pred - min_pred)
+                    (val[:, 1] - min_pred)/(max_pred - min_pred)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Set axes limits
     if is_normalize_data:
-- 
2.43.0


From 34d472e511580a09dc49e7de896baf621af5eb0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:07 +0000
Subject: [PATCH 72/83] fix: deviatoric tensors of equivalent strain and stress
 plot

---
 .../user_scripts/synthetic_data/gen_response_dataset.py       | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hookeai/user_scripts/synthetic_data/gen_response_dataset.py b/src/hookeai/user_scripts/synthetic_data/gen_response_dataset.py
index 008a064..98a6bdf 100644
--- a/src/hookeai/user_scripts/synthetic_data/gen_response_dataset.py
+++ b/src/hookeai/user_scripts/synthetic_data/gen_response_dataset.py
@@ -1093,9 +1093,9 @@ class MaterialResponseDatasetGenerator():
                 # Compute equivalent strain and stress
                 if strain_formulation == 'infinitesimal':
                     eq_strain[i, 0] = np.sqrt(2.0/3.0)*np.linalg.norm(
-                        strain - (1.0/3.0)*np.trace(strain))
+                        strain - (1.0/3.0)*np.trace(strain)*np.eye(n_dim))
                     eq_stress[i, 0] = np.sqrt(3.0/2.0)*np.linalg.norm(
-                        stress - (1.0/3.0)*np.trace(stress))
+                        stress - (1.0/3.0)*np.trace(stress)*np.eye(n_dim))
             # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
             # Store equivalent strain and stress path
             eq_strain_paths.append(eq_strain)
-- 
2.43.0


From 0f54308c4b7a0a71903337124817aeb5684791b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:07 +0000
Subject: [PATCH 73/83] fix: material response plots of paths with different
 lengths

---
 .../synthetic_data/gen_response_dataset.py    | 20 +++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/hookeai/user_scripts/synthetic_data/gen_response_dataset.py b/src/hookeai/user_scripts/synthetic_data/gen_response_dataset.py
index 98a6bdf..cc7d95b 100644
--- a/src/hookeai/user_scripts/synthetic_data/gen_response_dataset.py
+++ b/src/hookeai/user_scripts/synthetic_data/gen_response_dataset.py
@@ -1077,8 +1077,8 @@ class MaterialResponseDatasetGenerator():
         # Loop over strain-stress paths
         for k in range(n_path):
             # Initialize equivalent strain and stress path
-            eq_strain = np.zeros((n_time_max, 1))
-            eq_stress = np.zeros((n_time_max, 1))
+            eq_strain = np.full((n_time_max, 1), fill_value=np.nan)
+            eq_stress = np.full((n_time_max, 1), fill_value=np.nan)
             # Loop over discrete time
             for i in range(len(time_hist[k])):
                 # Get strain tensor
@@ -1239,7 +1239,7 @@ class MaterialResponseDatasetGenerator():
         # Compute stress invariants
         for k in range(n_path):
             # Initialize principal stresses
-            stress_eigen = np.zeros((n_time_max, n_dim))
+            stress_eigen = np.zeros((len(time_hist[k]), n_dim))
             # Loop over discrete time
             for i in range(len(time_hist[k])):
                 # Get stress tensor
@@ -1303,7 +1303,7 @@ class MaterialResponseDatasetGenerator():
                     stress_paths_principal[k][:, np.random.permutation(3)]
                 # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
                 # Initialize stresses in pi-stress space
-                stress_pi = np.zeros((n_time_max, n_dim))
+                stress_pi = np.zeros((len(time_hist[k]), n_dim))
                 # Loop over discrete time
                 for i in range(len(time_hist[k])):
                     # Get principal stresses
@@ -1352,8 +1352,8 @@ class MaterialResponseDatasetGenerator():
         # Compute stress invariants
         for k in range(n_path):
             # Initialize stress invariants
-            stress_invar = np.zeros((n_time_max, 3))
-            stress_invar_dev = np.zeros((n_time_max, 3))
+            stress_invar = np.zeros((len(time_hist[k]), 3))
+            stress_invar_dev = np.zeros((len(time_hist[k]), 3))
             # Loop over discrete time
             for i in range(len(time_hist[k])):
                 # Get stress tensor
@@ -1414,8 +1414,8 @@ class MaterialResponseDatasetGenerator():
         # Compute triaxiality and Lode parameter
         for k in range(n_path):
             # Initialize stress invariants
-            stress_triax = np.zeros((n_time_max, 1))
-            stress_lode = np.zeros((n_time_max, 1))
+            stress_triax = np.zeros((len(time_hist[k]), 1))
+            stress_lode = np.zeros((len(time_hist[k]), 1))
             # Get stress path stress invariants
             stress_invar = stress_paths_invar[k]
             stress_invar_dev = stress_paths_invar_dev[k]
@@ -1440,7 +1440,7 @@ class MaterialResponseDatasetGenerator():
         # Plot stress triaxiality and Lode parameter paths
         if is_plot_stress_path_triax_lode:
             # Set stress triaxiality data array
-            triax_data_xy = np.zeros((n_time_max, 2*n_path))
+            triax_data_xy = np.full((n_time_max, 2*n_path), fill_value=np.nan)
             for k in range(n_path):
                 triax_data_xy[:len(time_hist[k]), 2*k] = time_hist[k]
                 triax_data_xy[:len(time_hist[k]), 2*k+1] = \
@@ -1458,7 +1458,7 @@ class MaterialResponseDatasetGenerator():
                             save_dir=save_dir)
             # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
             # Set stress Lode parameter data array
-            lode_data_xy = np.zeros((n_time_max, 2*n_path))
+            lode_data_xy = np.full((n_time_max, 2*n_path), fill_value=np.nan)
             for k in range(n_path):
                 lode_data_xy[:len(time_hist[k]), 2*k] = time_hist[k]
                 lode_data_xy[:len(time_hist[k]), 2*k+1] = \
-- 
2.43.0


From 4bdcadc7936973609084c1ad98b4ef1168aa06a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:07 +0000
Subject: [PATCH 74/83] fix: strain path plots of paths with different lengths

---
 .../data_generation/strain_paths/interface.py     | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/hookeai/data_generation/strain_paths/interface.py b/src/hookeai/data_generation/strain_paths/interface.py
index 77cf92d..a8ad11a 100644
--- a/src/hookeai/data_generation/strain_paths/interface.py
+++ b/src/hookeai/data_generation/strain_paths/interface.py
@@ -275,7 +275,7 @@ class StrainPathGenerator(ABC):
             for k in range(min(n_path, 5)):
                 # Set strain data array
                 strain_data_xy = \
-                    np.zeros((n_time_max, 2*len(strain_comps_order)))
+                    np.zeros((len(time_hist[k]), 2*len(strain_comps_order)))
                 for j in range(len(strain_comps_order)):
                     strain_data_xy[:, 2*j] = time_hist[k].reshape(-1)
                     strain_data_xy[:, 2*j+1] = strain_path[k][:, j]
@@ -381,8 +381,9 @@ class StrainPathGenerator(ABC):
             # Plot strain norm distribution
             if is_plot_strain_norm_hist:
                 # Set strain data array
-                strain_paths_norm = tuple([strain_norm_data_xy[:, 2*k+1]
-                                           for k in range(n_path)])
+                strain_paths_norm = tuple(
+                    [strain_norm_data_xy[:len(time_hist[k]), 2*k+1]
+                     for k in range(n_path)])
                 # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
                 # Concatenate strain paths
                 strain_paths_norm = \
@@ -409,9 +410,13 @@ class StrainPathGenerator(ABC):
         # Plot strain increment norm (path and distribution)
         if (is_plot_inc_strain_norm or is_plot_inc_strain_norm_hist):
             # Initialize strain increment norm data array
-            inc_strain_norm_data_xy = np.zeros((n_time_max, 2*n_path))
+            inc_strain_norm_data_xy = np.full((n_time_max, 2*n_path),
+                                              fill_value=np.nan)
             # Loop over strain paths
-            for k in range(n_path):     
+            for k in range(n_path):
+                # Assemble initial discrete time
+                inc_strain_norm_data_xy[0, 2*k] = time_hist[k][0]
+                inc_strain_norm_data_xy[0, 2*k+1] = 0.0
                 # Loop over time steps
                 for i in range(1, len(time_hist[k])):
                     # Assemble discrete time history
-- 
2.43.0


From 12a5de5e8c61eaaa47b778dcfefd44c5e74c64ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:03:44 +0000
Subject: [PATCH 75/83] fix: finite element mesh keeps its own copy of the data
 it is built from

---
 .../simulators/fetorch/structure/structure_mesh.py        | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/hookeai/simulators/fetorch/structure/structure_mesh.py b/src/hookeai/simulators/fetorch/structure/structure_mesh.py
index 4160a8b..9dbf1f5 100644
--- a/src/hookeai/simulators/fetorch/structure/structure_mesh.py
+++ b/src/hookeai/simulators/fetorch/structure/structure_mesh.py
@@ -131,13 +131,13 @@ class StructureMesh:
                                         connectivities)
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Set nodes initial coordinates
-        self._nodes_coords_mesh_init = nodes_coords_mesh_init
+        self._nodes_coords_mesh_init = nodes_coords_mesh_init.clone()
         # Set elements types
-        self._elements_type = elements_type
+        self._elements_type = copy.deepcopy(elements_type)
         # Set elements connectivities
-        self._connectivities = connectivities
+        self._connectivities = copy.deepcopy(connectivities)
         # Set Dirichlet boundary conditions (boolean)
-        self._dirichlet_bool_mesh = dirichlet_bool_mesh
+        self._dirichlet_bool_mesh = dirichlet_bool_mesh.clone()
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Set number of nodes
         self._n_node_mesh = nodes_coords_mesh_init.shape[0]
-- 
2.43.0


From 2e6832004351bde57e43f8353c564f8d93f0fbc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:38 +0000
Subject: [PATCH 76/83] fix: pruning step testing data set does not overwrite
 validation data set

---
 src/hookeai/miscellaneous/pruning/pruning_dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hookeai/miscellaneous/pruning/pruning_dataset.py b/src/hookeai/miscellaneous/pruning/pruning_dataset.py
index 9fe8312..47b269f 100644
--- a/src/hookeai/miscellaneous/pruning/pruning_dataset.py
+++ b/src/hookeai/miscellaneous/pruning/pruning_dataset.py
@@ -844,7 +844,7 @@ def set_pruning_step_dir(prun_datasets_dir, train_dataset, val_dataset,
     make_directory(test_dataset_dir, is_overwrite=True)
     # Save pruning testing data set
     test_dataset_file_path = \
-        save_dataset(test_dataset, dataset_basename, val_dataset_dir,
+        save_dataset(test_dataset, dataset_basename, test_dataset_dir,
                      is_append_n_sample=True)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Set pruning predictions directory
-- 
2.43.0


From ecebed39edbd43e3d085c52d10bfa700eb90978b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:38 +0000
Subject: [PATCH 77/83] fix: pruning stops at the minimum testing data set size

---
 src/hookeai/miscellaneous/pruning/pruning_dataset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hookeai/miscellaneous/pruning/pruning_dataset.py b/src/hookeai/miscellaneous/pruning/pruning_dataset.py
index 47b269f..b4c7e44 100644
--- a/src/hookeai/miscellaneous/pruning/pruning_dataset.py
+++ b/src/hookeai/miscellaneous/pruning/pruning_dataset.py
@@ -709,8 +709,8 @@ def perform_pruning_step(prun_datasets_dir, pruning_params, dev_dataset,
     if n_dev <= n_dev_min:
         step_status = 'Minimum development data set size reached.'
     elif n_dev/n_full < ratio_dev_min:
-        step_status = 'Minimum pruning testing data set size ratio reached.'
-    elif n_dev < n_prun_test_min:
+        step_status = 'Minimum development data set size ratio reached.'
+    elif len(test_dataset) < n_prun_test_min:
         step_status = 'Minimum pruning testing data set size reached.'
     elif n_prun_sample/len(test_dataset) > prun_test_ratio_max:
         step_status = 'Maximum pruned samples testing ratio reached.'
-- 
2.43.0


From 328be5423ce3ba6707fb295ce7eb36a378ba8000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:18 +0000
Subject: [PATCH 78/83] fix: time series convergence of all samples and several
 prediction types

---
 .../model_architectures/procedures/convergence_plots.py       | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hookeai/model_architectures/procedures/convergence_plots.py b/src/hookeai/model_architectures/procedures/convergence_plots.py
index 9b97d50..88e70e1 100644
--- a/src/hookeai/model_architectures/procedures/convergence_plots.py
+++ b/src/hookeai/model_architectures/procedures/convergence_plots.py
@@ -430,7 +430,7 @@ def plot_time_series_convergence(models_base_dirs, training_dirs, testing_dirs,
             elif plot_type == 'time_series_path':
                 # Set all available samples
                 if samples_ids == 'all':
-                    samples_ids = range(testing_size)
+                    samples_ids = list(range(testing_size))
                 # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
                 # Loop over samples
                 for sample_id in samples_ids:
@@ -920,7 +920,7 @@ def plot_time_series_convergence_uq(models_base_dirs, training_dirs,
             elif plot_type == 'time_series_path':
                 # Set all available samples
                 if samples_ids == 'all':
-                    samples_ids = range(testing_size)
+                    samples_ids = list(range(testing_size))
                 # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
                 # Loop over samples
                 for sample_id in samples_ids:
-- 
2.43.0


From 5a7b79bc34a16ba54b5788ac9bf979e580f28b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:05 +0000
Subject: [PATCH 79/83] fix: save comparison of hardening laws without
 displaying it

---
 .../miscellaneous/materials/compare_hardening_laws.py        | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/hookeai/miscellaneous/materials/compare_hardening_laws.py b/src/hookeai/miscellaneous/materials/compare_hardening_laws.py
index 6dfa71a..fd65e9b 100644
--- a/src/hookeai/miscellaneous/materials/compare_hardening_laws.py
+++ b/src/hookeai/miscellaneous/materials/compare_hardening_laws.py
@@ -88,7 +88,7 @@ def compare_hardening_laws(hardening_laws, save_dir=None, is_save_fig=False,
     print(comparison_data[:10, :])
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Plot hardening laws
-    if is_stdout_display:
+    if is_stdout_display or is_save_fig:
         # Get labels
         data_labels = list(hardening_laws.keys())
         # Set data array
@@ -102,7 +102,8 @@ def compare_hardening_laws(hardening_laws, save_dir=None, is_save_fig=False,
             x_lims=(acc_p_strain_min, acc_p_strain_max),
             y_lims=(None, None), is_latex=True)
         # Display figure
-        plt.show()
+        if is_stdout_display:
+            plt.show()
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Save figure
     if is_save_fig:
-- 
2.43.0


From 0c4ff838dbbfd8319dd781a3fc327908d5318e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:05 +0000
Subject: [PATCH 80/83] fix: optimization history plot shows the history of
 each process

---
 .../rnn_base_model/optimization/hydra_optimization_plots.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hookeai/model_architectures/rnn_base_model/optimization/hydra_optimization_plots.py b/src/hookeai/model_architectures/rnn_base_model/optimization/hydra_optimization_plots.py
index f4f6899..3c6cbe9 100644
--- a/src/hookeai/model_architectures/rnn_base_model/optimization/hydra_optimization_plots.py
+++ b/src/hookeai/model_architectures/rnn_base_model/optimization/hydra_optimization_plots.py
@@ -193,7 +193,7 @@ def plot_optimization_history(optim_history, optim_metric, is_log_metric=False,
         print(f'\n> Generating optimization processes plot...')    
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Initialize data array and data labels
-    data_xy = np.full((max_n_jobs, 2*n_optim_history), fill_value=None)
+    data_xy = np.full((max_n_jobs, 2*n_optim_history), fill_value=np.nan)
     # Build data array
     for i, (label, data_hist) in enumerate(optim_data.items()):
         # Get optimization process number of jobs
@@ -201,9 +201,9 @@ def plot_optimization_history(optim_history, optim_metric, is_log_metric=False,
         # Assemble optimization process history to data array
         data_xy[:n_jobs, 2*i] = tuple([*range(0, n_jobs)])
         if is_log_metric:
-            data_xy[:n_jobs, 2*i + 1] = tuple(np.log(metric_hist))
+            data_xy[:n_jobs, 2*i + 1] = tuple(np.log(data_hist))
         else:
-            data_xy[:n_jobs, 2*i + 1] = tuple(metric_hist)
+            data_xy[:n_jobs, 2*i + 1] = tuple(data_hist)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Set axes limits and scale
     x_lims = (0, max_n_jobs)
-- 
2.43.0


From 606c6728baa487498e1502cf763d6573b472c8a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:17 +0000
Subject: [PATCH 81/83] fix: yield function of hydrostatic stress states

---
 src/hookeai/miscellaneous/materials/plot_yield_surface.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/hookeai/miscellaneous/materials/plot_yield_surface.py b/src/hookeai/miscellaneous/materials/plot_yield_surface.py
index 3e1571a..9e46049 100644
--- a/src/hookeai/miscellaneous/materials/plot_yield_surface.py
+++ b/src/hookeai/miscellaneous/materials/plot_yield_surface.py
@@ -269,10 +269,12 @@ def get_stress_invariants(stress):
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Compute first invariant of deviatoric stress tensor
     j1 = i1
+    # Compute deviatoric stress tensor
+    dev_stress = stress - (1/3)*i1*np.eye(3)
     # Compute second invariant of deviatoric stress tensor
-    j2 = (1/3)*(i1**2) - i2
+    j2 = 0.5*np.trace(np.matmul(dev_stress, dev_stress))
     # Compute third invariant of deviatoric stress tensor
-    j3 = (2/27)*(i1**3) - (1/3)*i1*i2 + i3
+    j3 = np.linalg.det(dev_stress)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     return i1, i2, i3, j1, j2, j3
 # =============================================================================
-- 
2.43.0


From e5f633cf61073ecd5c2b2d6258bf04f43a566f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:49:08 +0000
Subject: [PATCH 82/83] fix: target directory of material data of given
 temperature and composition

---
 .../user_scripts/complete_pipelines/local_model_update.py       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hookeai/user_scripts/complete_pipelines/local_model_update.py b/src/hookeai/user_scripts/complete_pipelines/local_model_update.py
index 1f74d83..b0930bc 100644
--- a/src/hookeai/user_scripts/complete_pipelines/local_model_update.py
+++ b/src/hookeai/user_scripts/complete_pipelines/local_model_update.py
@@ -679,7 +679,7 @@ def set_dependencies_dir(target_dir, temperature, composition):
         Directory for given values of dependency parameters.
     """
     # Check target directory
-    if not os.path.isdir(base_dir):
+    if not os.path.isdir(target_dir):
         raise RuntimeError('The target directory has not been found:\n\n'
                            + target_dir)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
-- 
2.43.0


From 6c371bc5140e5db77f9b66f0339d006630ac05ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:49:08 +0000
Subject: [PATCH 83/83] fix: missing module imported by recurrent constitutive
 model prediction

---
 .../local_model_update/rc_material_model/predict.py          | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/hookeai/user_scripts/local_model_update/rc_material_model/predict.py b/src/hookeai/user_scripts/local_model_update/rc_material_model/predict.py
index 3b099b7..5b83ff4 100644
--- a/src/hookeai/user_scripts/local_model_update/rc_material_model/predict.py
+++ b/src/hookeai/user_scripts/local_model_update/rc_material_model/predict.py
@@ -32,9 +32,8 @@ from time_series_data.time_dataset import load_dataset, \
 from model_architectures.rc_base_model.predict.prediction import predict
 from model_architectures.procedures.model_prediction import \
     plot_time_series_prediction, plot_truth_vs_prediction
-from projects.darpa_metals.rnn_material_model.rnn_model_tools. \
-    process_predictions import build_prediction_data_arrays, \
-        build_time_series_predictions_data
+from model_architectures.materials.process_predictions import \
+    build_prediction_data_arrays, build_time_series_predictions_data
 from ioput.iostandard import make_directory, find_unique_file_with_regex
 from utilities.output_prediction_metrics import \
     compute_directory_prediction_metrics
-- 
2.43.0


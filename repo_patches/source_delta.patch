From 9e9d6c2ee5b3f1b22b9c31226c4fb747d2283223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:36 +0000
Subject: [PATCH 01/39] fix: pressure ratio derivative of components with
 several pr parameters

pr_deriv addressed self.pr (AttributeError for pr1/pr2 = 'var') and used the
inlet index for the outlet connection.
---
 src/tespy/components/component.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tespy/components/component.py b/src/tespy/components/component.py
index f72daae..90ec2f3 100644
--- a/src/tespy/components/component.py
+++ b/src/tespy/components/component.py
@@ -1081,13 +1081,13 @@ class Component:
         """
         pr = self.get_attr(pr)
         i = self.inl[inconn]
-        o = self.outl[inconn]
+        o = self.outl[outconn]
         if i.p.is_var:
             self.jacobian[k, i.p.J_col] = pr.val
         if o.p.is_var:
             self.jacobian[k, o.p.J_col] = -1
         if pr.is_var:
-            self.jacobian[k, self.pr.J_col] = i.p.val_SI
+            self.jacobian[k, pr.J_col] = i.p.val_SI
 
     def calc_zeta(self, i, o):
         if abs(i.m.val_SI) <= 1e-4:
-- 
2.43.0


From 712ef56b39e37f21840bc8b3f1aa17a37447c8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:36 +0000
Subject: [PATCH 02/39] fix: compressor equations must not modify the
 characteristic map

At the edges of the map evaluate_x returns rows of the map itself; scaling
them in place with the inlet guide vane angle changed the map on every
evaluation.
---
 src/tespy/components/turbomachinery/compressor.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/tespy/components/turbomachinery/compressor.py b/src/tespy/components/turbomachinery/compressor.py
index 5bce0f5..380835d 100644
--- a/src/tespy/components/turbomachinery/compressor.py
+++ b/src/tespy/components/turbomachinery/compressor.py
@@ -381,8 +381,8 @@ class Compressor(Turbomachine):
 
         yarr, zarr = self.char_map_pr.char_func.evaluate_x(x)
         # value manipulation with igva
-        yarr *= (1 - self.igva.val / 100)
-        zarr *= (1 - self.igva.val / 100)
+        yarr = yarr * (1 - self.igva.val / 100)
+        zarr = zarr * (1 - self.igva.val / 100)
         pr = self.char_map_pr.char_func.evaluate_y(y, yarr, zarr)
 
         return (o.p.val_SI / i.p.val_SI) - pr * self.pr.design
@@ -484,8 +484,8 @@ class Compressor(Turbomachine):
 
         yarr, zarr = self.char_map_eta_s.char_func.evaluate_x(x)
         # value manipulation with igva
-        yarr *= (1 - self.igva.val / 100)
-        zarr *= (1 - self.igva.val ** 2 / 10000)
+        yarr = yarr * (1 - self.igva.val / 100)
+        zarr = zarr * (1 - self.igva.val ** 2 / 10000)
         eta = self.char_map_eta_s.char_func.evaluate_y(y, yarr, zarr)
 
         return (
@@ -674,7 +674,7 @@ class Compressor(Turbomachine):
                 y = (self.inl[0].m.val_SI * self.inl[0].p.design) / (
                     self.inl[0].m.design * self.inl[0].p.val_SI * x)
                 yarr = data.char_func.get_domain_errors_x(x, self.label)
-                yarr *= (1 - self.igva.val / 100)
+                yarr = yarr * (1 - self.igva.val / 100)
                 data.char_func.get_domain_errors_y(y, yarr, self.label)
 
     def exergy_balance(self, T0):
-- 
2.43.0


From 95547f3c950eff7754082561da121eb93ea98226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:34 +0000
Subject: [PATCH 03/39] fix: volumetric flow derivatives for mixtures

The derivatives of a specified volumetric flow did not pass the mixing rule
(KeyError for every mixture) and used a specific volume as the starting value
of the temperature iteration.
---
 src/tespy/connections/connection.py           | 18 ++++++++++++++----
 src/tespy/tools/fluid_properties/functions.py |  4 ++--
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/tespy/connections/connection.py b/src/tespy/connections/connection.py
index 9e41375..749540c 100644
--- a/src/tespy/connections/connection.py
+++ b/src/tespy/connections/connection.py
@@ -801,9 +801,13 @@ class Connection:
         if self.m.is_var:
             self.jacobian[k, self.m.J_col] = self.calc_vol(T0=self.T.val_SI)
         if self.p.is_var:
-            self.jacobian[k, self.p.J_col] = dv_mix_dph(self.p.val_SI, self.h.val_SI, self.fluid_data) * self.m.val_SI
+            self.jacobian[k, self.p.J_col] = dv_mix_dph(
+                self.p.val_SI, self.h.val_SI, self.fluid_data, self.mixing_rule, self.T.val_SI
+            ) * self.m.val_SI
         if self.h.is_var:
-            self.jacobian[k, self.h.J_col] = dv_mix_pdh(self.p.val_SI, self.h.val_SI, self.fluid_data) * self.m.val_SI
+            self.jacobian[k, self.h.J_col] = dv_mix_pdh(
+                self.p.val_SI, self.h.val_SI, self.fluid_data, self.mixing_rule, self.T.val_SI
+            ) * self.m.val_SI
 
     def v_ref_func(self, k, **kwargs):
         ref = self.v_ref.ref
@@ -823,12 +827,18 @@ class Connection:
             )
         if ref.obj.p.is_var:
             self.jacobian[k, ref.obj.p.J_col] = -(
-                dv_mix_dph(ref.obj.p.val_SI, ref.obj.h.val_SI, ref.obj.fluid_data)
+                dv_mix_dph(
+                    ref.obj.p.val_SI, ref.obj.h.val_SI, ref.obj.fluid_data,
+                    ref.obj.mixing_rule, ref.obj.T.val_SI
+                )
                 * ref.obj.m.val_SI * ref.factor
             )
         if ref.obj.h.is_var:
             self.jacobian[k, ref.obj.h.J_col] = -(
-                dv_mix_pdh(ref.obj.p.val_SI, ref.obj.h.val_SI, ref.obj.fluid_data)
+                dv_mix_pdh(
+                    ref.obj.p.val_SI, ref.obj.h.val_SI, ref.obj.fluid_data,
+                    ref.obj.mixing_rule, ref.obj.T.val_SI
+                )
                 * ref.obj.m.val_SI * ref.factor
             )
 
diff --git a/src/tespy/tools/fluid_properties/functions.py b/src/tespy/tools/fluid_properties/functions.py
index 0ef9d58..dfa0f92 100644
--- a/src/tespy/tools/fluid_properties/functions.py
+++ b/src/tespy/tools/fluid_properties/functions.py
@@ -233,14 +233,14 @@ def v_mix_ph(p, h, fluid_data, mixing_rule=None, T0=None):
 def dv_mix_dph(p, h, fluid_data, mixing_rule=None, T0=None):
     d = 1e-1
     upper = v_mix_ph(p + d, h, fluid_data, mixing_rule=mixing_rule, T0=T0)
-    lower = v_mix_ph(p - d, h, fluid_data, mixing_rule=mixing_rule, T0=upper)
+    lower = v_mix_ph(p - d, h, fluid_data, mixing_rule=mixing_rule, T0=T0)
     return (upper - lower) / (2 * d)
 
 
 def dv_mix_pdh(p, h, fluid_data, mixing_rule=None, T0=None):
     d = 1e-1
     upper = v_mix_ph(p, h + d, fluid_data, mixing_rule=mixing_rule, T0=T0)
-    lower = v_mix_ph(p, h - d, fluid_data, mixing_rule=mixing_rule, T0=upper)
+    lower = v_mix_ph(p, h - d, fluid_data, mixing_rule=mixing_rule, T0=T0)
     return (upper - lower) / (2 * d)
 
 
-- 
2.43.0


From b8e594c1b7abe19961dff54ee5824cb2cc6ce5a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:34 +0000
Subject: [PATCH 04/39] fix: derivative of the fluid balance equation

The residual is 1 - sum(x), its derivative with respect to every x is -1.
---
 src/tespy/connections/connection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tespy/connections/connection.py b/src/tespy/connections/connection.py
index 749540c..83c2694 100644
--- a/src/tespy/connections/connection.py
+++ b/src/tespy/connections/connection.py
@@ -892,7 +892,7 @@ class Connection:
 
     def fluid_balance_deriv(self, k, **kwargs):
         for f in self.fluid.is_var:
-            self.jacobian[k, self.fluid.J_col[f]] = -self.fluid.val[f]
+            self.jacobian[k, self.fluid.J_col[f]] = -1
 
     def calc_s(self):
         try:
-- 
2.43.0


From 46eba6672aafeb090eae766546e10fc1738a325a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:49 +0000
Subject: [PATCH 05/39] fix: derivatives of referenced values that share a
 variable

Connections of one branch share mass flow and composition. The derivative of
a referenced volumetric flow or temperature overwrote the derivative of the
own value, and the composition derivative missed the reference factor.
---
 src/tespy/connections/connection.py | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/src/tespy/connections/connection.py b/src/tespy/connections/connection.py
index 83c2694..7009ebf 100644
--- a/src/tespy/connections/connection.py
+++ b/src/tespy/connections/connection.py
@@ -733,7 +733,18 @@ class Connection:
             self.jacobian[k, self.get_attr(variable).J_col] = 1
 
         if ref.obj.get_attr(variable).is_var:
-            self.jacobian[k, ref.obj.get_attr(variable).J_col] = -ref.factor
+            self._add_ref_deriv(
+                k, self.get_attr(variable), ref.obj.get_attr(variable),
+                -ref.factor
+            )
+
+    def _add_ref_deriv(self, k, own, ref, value):
+        # connections of the same branch share their variables, the referred
+        # value then adds to the derivative of the own value
+        if own is ref:
+            self.jacobian[k, ref.J_col] += value
+        else:
+            self.jacobian[k, ref.J_col] = value
 
     def calc_T(self, T0=None):
         if T0 is None:
@@ -776,10 +787,13 @@ class Connection:
                 dT_mix_pdh(ref.obj.p.val_SI, ref.obj.h.val_SI, ref.obj.fluid_data, ref.obj.mixing_rule)
             ) * ref.factor
         for fluid in ref.obj.fluid.is_var:
-            if not self._increment_filter[ref.obj.fluid.J_col[fluid]]:
-                self.jacobian[k, ref.obj.fluid.J_col[fluid]] = -dT_mix_ph_dfluid(
-                    ref.obj.p.val_SI, ref.obj.h.val_SI, fluid, ref.obj.fluid_data, ref.obj.mixing_rule
-                )
+            value = -dT_mix_ph_dfluid(
+                ref.obj.p.val_SI, ref.obj.h.val_SI, fluid, ref.obj.fluid_data, ref.obj.mixing_rule
+            ) * ref.factor
+            if self.fluid is ref.obj.fluid:
+                self.jacobian[k, ref.obj.fluid.J_col[fluid]] += value
+            else:
+                self.jacobian[k, ref.obj.fluid.J_col[fluid]] = value
 
     def calc_viscosity(self, T0=None):
         try:
@@ -822,8 +836,9 @@ class Connection:
 
         ref = self.v_ref.ref
         if ref.obj.m.is_var:
-            self.jacobian[k, ref.obj.m.J_col] = -(
-                ref.obj.calc_vol(T0=ref.obj.T.val_SI) * ref.factor
+            self._add_ref_deriv(
+                k, self.m, ref.obj.m,
+                -ref.obj.calc_vol(T0=ref.obj.T.val_SI) * ref.factor
             )
         if ref.obj.p.is_var:
             self.jacobian[k, ref.obj.p.J_col] = -(
-- 
2.43.0


From c7e3305cc69a3534e9f3fc3127d8d953df0fbb2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:32 +0000
Subject: [PATCH 06/39] fix: heat bus derivatives of the water electrolyzer

The derivative with respect to the outlet enthalpy was applied twice, the one
with respect to the inlet enthalpy never.
---
 src/tespy/components/reactors/water_electrolyzer.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/tespy/components/reactors/water_electrolyzer.py b/src/tespy/components/reactors/water_electrolyzer.py
index d1299a0..8f17301 100644
--- a/src/tespy/components/reactors/water_electrolyzer.py
+++ b/src/tespy/components/reactors/water_electrolyzer.py
@@ -1012,10 +1012,10 @@ class WaterElectrolyzer(Component):
                     bus.jacobian[i.m.J_col] = 0
                 bus.jacobian[i.m.J_col] -= self.numeric_deriv(f, 'm', i, bus=bus)
 
-            if o.h.is_var:
-                if o.h.J_col not in bus.jacobian:
-                    bus.jacobian[o.h.J_col] = 0
-                bus.jacobian[o.h.J_col] -= self.numeric_deriv(f, 'h', o, bus=bus)
+            if i.h.is_var:
+                if i.h.J_col not in bus.jacobian:
+                    bus.jacobian[i.h.J_col] = 0
+                bus.jacobian[i.h.J_col] -= self.numeric_deriv(f, 'h', i, bus=bus)
 
             if o.h.is_var:
                 if o.h.J_col not in bus.jacobian:
-- 
2.43.0


From d403609aa2c6f3d9f1f8a522ef66f9e719362739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:15 +0000
Subject: [PATCH 07/39] fix: number of mass flow equations of the fuel cell

The count referred to a third outlet, which does not exist: specifying the
oxygen mass flow raised an IndexError.
---
 src/tespy/components/reactors/fuel_cell.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tespy/components/reactors/fuel_cell.py b/src/tespy/components/reactors/fuel_cell.py
index 403f39b..ab40e1d 100644
--- a/src/tespy/components/reactors/fuel_cell.py
+++ b/src/tespy/components/reactors/fuel_cell.py
@@ -185,7 +185,7 @@ class FuelCell(Component):
     def get_mandatory_constraints(self):
         num_mass_eq = (
             (self.inl[1].m.is_var or self.outl[1].m.is_var)
-            + (self.inl[1].m.is_var or self.outl[2].m.is_var)
+            + (self.inl[2].m.is_var or self.outl[1].m.is_var)
         )
         return {
             'mass_flow_constraints': {
-- 
2.43.0


From 1657127dd1780c71c4bfb16bcfbac00fa19e92da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:38 +0000
Subject: [PATCH 08/39] fix: element balance of combustion with excess fuel

With less oxygen than required the unburnt carbon and the unburnt hydrogen
were each calculated as if all of the missing oxygen was theirs. Carbon,
hydrogen and oxygen were not conserved for hydrocarbons. The unburnt share of
both elements is the unburnt share of the fuel.
---
 src/tespy/components/combustion/base.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/tespy/components/combustion/base.py b/src/tespy/components/combustion/base.py
index baf43a8..960cbec 100644
--- a/src/tespy/components/combustion/base.py
+++ b/src/tespy/components/combustion/base.py
@@ -530,13 +530,12 @@ class CombustionChamber(Component):
 
            \dot{m}_{H_{exc,m}} = \begin{cases}
            0 & \lambda \geq 1\\
-           4 \cdot \left( \dot{m}_{O_2,m,stoich} -
-           \dot{m}_{O_2,m}\right) & \lambda < 1
+           \left(1 - \lambda\right) \cdot \dot{m}_{H_m} & \lambda < 1
             \end{cases}
 
            \dot{m}_{C_{exc,m}} = \begin{cases}
            0 & \lambda \geq 1\\
-           \dot{m}_{O_2,m,stoich} - \dot{m}_{O_2,m} & \lambda < 1
+           \left(1 - \lambda\right) \cdot \dot{m}_{C_m} & \lambda < 1
             \end{cases}
 
         Equation for fuels
@@ -632,8 +631,9 @@ class CombustionChamber(Component):
         ###################################################################
         # calculate excess fuel if lambda is lower than 1
         if self.lamb.val < 1:
-            n_h_exc = (n_oxygen_stoich - n_oxygen) * 4
-            n_c_exc = (n_oxygen_stoich - n_oxygen)
+            unburnt = 1 - n_oxygen / n_oxygen_stoich
+            n_h_exc = n_h * unburnt
+            n_c_exc = n_c * unburnt
         else:
             n_h_exc = 0
             n_c_exc = 0
-- 
2.43.0


From 592a502740b6e16647ace18d86d183e1c9eb59ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:03 +0000
Subject: [PATCH 09/39] fix: minimum terminal temperature difference of the
 condenser

The upper terminal temperature difference of the condenser refers to the
saturation temperature at its hot inlet, the equation for ttd_min used the
inlet temperature. With superheated steam the specified value was not met.
---
 .../components/heat_exchangers/condenser.py   | 27 ++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/src/tespy/components/heat_exchangers/condenser.py b/src/tespy/components/heat_exchangers/condenser.py
index e417621..d103b74 100644
--- a/src/tespy/components/heat_exchangers/condenser.py
+++ b/src/tespy/components/heat_exchangers/condenser.py
@@ -49,7 +49,7 @@ class Condenser(HeatExchanger):
     - :py:meth:`tespy.components.heat_exchangers.condenser.Condenser.kA_char_func`
     - :py:meth:`tespy.components.heat_exchangers.condenser.Condenser.ttd_u_func`
     - :py:meth:`tespy.components.heat_exchangers.base.HeatExchanger.ttd_l_func`
-    - :py:meth:`tespy.components.heat_exchangers.base.HeatExchanger.ttd_min_func`
+    - :py:meth:`tespy.components.heat_exchangers.condenser.Condenser.ttd_min_func`
     - :py:meth:`tespy.components.heat_exchangers.base.HeatExchanger.eff_cold_func`
     - :py:meth:`tespy.components.heat_exchangers.base.HeatExchanger.eff_hot_func`
     - :py:meth:`tespy.components.heat_exchangers.base.HeatExchanger.eff_max_func`
@@ -468,6 +468,31 @@ class Condenser(HeatExchanger):
             r' + T_\mathrm{out,2}')
         return generate_latex_eq(self, latex, label)
 
+    def ttd_min_func(self):
+        r"""
+        Equation for minimum terminal temperature difference.
+
+        Returns
+        -------
+        residual : float
+            Residual value of equation.
+
+            .. math::
+
+                ttd_{l} = T_{out,1} - T_{in,2}
+                ttd_{u} = T_{sat} \left(p_{in,1}\right) - T_{out,2}
+                0 = ttd_{min} - \text{min}\left(ttd_{u}, ttd_{l}\right)
+
+        Note
+        ----
+        The upper terminal temperature difference ttd_u refers to boiling
+        temperature at hot side inlet.
+        """
+        ttd_l = self.outl[0].calc_T() - self.inl[1].calc_T()
+        ttd_u = self.inl[0].calc_T_sat() - self.outl[1].calc_T()
+
+        return self.ttd_min.val - min(ttd_l, ttd_u)
+
     def calc_parameters(self):
         r"""Postprocessing parameter calculation."""
         self.Q.val = self.inl[0].m.val_SI * (
-- 
2.43.0


From 4fe3895c26ace42db01fd151c6668315eabd1ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:56 +0000
Subject: [PATCH 10/39] fix: sign of the pressure drop in the Hazen-Williams
 equation

copysign takes the magnitude of its first argument only, the sign of the
pressure difference was lost and a pressure rise satisfied the equation.
---
 src/tespy/components/heat_exchangers/simple.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tespy/components/heat_exchangers/simple.py b/src/tespy/components/heat_exchangers/simple.py
index 18b6b24..9b7a80a 100644
--- a/src/tespy/components/heat_exchangers/simple.py
+++ b/src/tespy/components/heat_exchangers/simple.py
@@ -451,7 +451,7 @@ class SimpleHeatExchanger(Component):
         v_o = o.calc_vol(T0=o.T.val_SI)
 
         return (
-            math.copysign(i.p.val_SI - o.p.val_SI, i.m.val_SI)
+            math.copysign(1, i.m.val_SI) * (i.p.val_SI - o.p.val_SI)
             - (
                 10.67 * abs(i.m.val_SI) ** 1.852 * self.L.val /
                 (self.ks_HW.val ** 1.852 * self.D.val ** 4.871)
-- 
2.43.0


From 3055411878d54afb8529518bbda3d770b0966160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:35 +0000
Subject: [PATCH 11/39] fix: reported zeta value with reversed flow

The equation uses the signed square of the mass flow, the result the square,
so a specified value was reported with the opposite sign.
---
 src/tespy/components/component.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/tespy/components/component.py b/src/tespy/components/component.py
index 90ec2f3..c051137 100644
--- a/src/tespy/components/component.py
+++ b/src/tespy/components/component.py
@@ -1095,7 +1095,10 @@ class Component:
         else:
             return (
                 (i.p.val_SI - o.p.val_SI) * math.pi ** 2
-                / (4 * i.m.val_SI ** 2 * (i.vol.val_SI + o.vol.val_SI))
+                / (
+                    4 * abs(i.m.val_SI) * i.m.val_SI
+                    * (i.vol.val_SI + o.vol.val_SI)
+                )
             )
 
     def zeta_func(self, zeta='', inconn=0, outconn=0):
-- 
2.43.0


From 6f1cc3e69afaa9bff463f18f29a766e577be4fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:26 +0000
Subject: [PATCH 12/39] fix: heat exchanger results with a vanishing terminal
 temperature difference

A terminal temperature difference of exactly zero raised a math domain (or
zero division) error in the postprocessing, the logarithmic difference is not
defined there.
---
 src/tespy/components/heat_exchangers/base.py      | 2 +-
 src/tespy/components/heat_exchangers/condenser.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tespy/components/heat_exchangers/base.py b/src/tespy/components/heat_exchangers/base.py
index 446e83d..eec5420 100644
--- a/src/tespy/components/heat_exchangers/base.py
+++ b/src/tespy/components/heat_exchangers/base.py
@@ -1138,7 +1138,7 @@ class HeatExchanger(Component):
             )
 
         # kA and logarithmic temperature difference
-        if self.ttd_u.val < 0 or self.ttd_l.val < 0:
+        if self.ttd_u.val <= 0 or self.ttd_l.val <= 0:
             self.td_log.val = np.nan
         elif self.ttd_l.val == self.ttd_u.val:
             self.td_log.val = self.ttd_l.val
diff --git a/src/tespy/components/heat_exchangers/condenser.py b/src/tespy/components/heat_exchangers/condenser.py
index d103b74..6e70768 100644
--- a/src/tespy/components/heat_exchangers/condenser.py
+++ b/src/tespy/components/heat_exchangers/condenser.py
@@ -517,7 +517,7 @@ class Condenser(HeatExchanger):
             )
 
         # kA and logarithmic temperature difference
-        if self.ttd_u.val < 0 or self.ttd_l.val < 0:
+        if self.ttd_u.val <= 0 or self.ttd_l.val <= 0:
             self.td_log.val = np.nan
         elif self.ttd_l.val == self.ttd_u.val:
             self.td_log.val = self.ttd_l.val
-- 
2.43.0


From b952b47ac3303518a4d4c6bd3c8ed601d2ba8de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:26 +0000
Subject: [PATCH 13/39] fix: results of simple heat exchanger crossing the
 ambient temperature

The branch for temperature differences of different sign fell through to the
logarithm, which raised a math domain error.
---
 src/tespy/components/heat_exchangers/simple.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tespy/components/heat_exchangers/simple.py b/src/tespy/components/heat_exchangers/simple.py
index 9b7a80a..3dfe972 100644
--- a/src/tespy/components/heat_exchangers/simple.py
+++ b/src/tespy/components/heat_exchangers/simple.py
@@ -897,7 +897,7 @@ class SimpleHeatExchanger(Component):
 
             if (ttd_1 / ttd_2) < 0:
                 td_log = np.nan
-            if ttd_1 > ttd_2:
+            elif ttd_1 > ttd_2:
                 td_log = (ttd_1 - ttd_2) / math.log(ttd_1 / ttd_2)
             elif ttd_1 < ttd_2:
                 td_log = (ttd_2 - ttd_1) / math.log(ttd_2 / ttd_1)
-- 
2.43.0


From f0f7c84fa6e6ff69d7fa89ed90397f5ba5a99569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:47 +0000
Subject: [PATCH 14/39] fix: subcooling/superheating specification in
 Fahrenheit or Rankine

The presolver used the value in the unit of the user instead of the SI value.
---
 src/tespy/connections/connection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tespy/connections/connection.py b/src/tespy/connections/connection.py
index 7009ebf..1256b25 100644
--- a/src/tespy/connections/connection.py
+++ b/src/tespy/connections/connection.py
@@ -653,7 +653,7 @@ class Connection:
                 self.T._solved = True
             elif self.Td_bp.is_set:
                 T_sat = T_sat_p(self.p.val_SI, self.fluid_data)
-                self.h.val_SI = h_mix_pT(self.p.val_SI, T_sat + self.Td_bp.val, self.fluid_data)
+                self.h.val_SI = h_mix_pT(self.p.val_SI, T_sat + self.Td_bp.val_SI, self.fluid_data)
                 self.h._solved = True
                 self.Td_bp._solved = True
             elif self.x.is_set:
-- 
2.43.0


From 4e9f4c0702ebe81245b1757504fcc35ba531e6d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:59 +0000
Subject: [PATCH 15/39] fix: derivative of the bus efficiency equation

The derivative did not account for the energy transfer of the component.
---
 src/tespy/tools/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tespy/tools/helpers.py b/src/tespy/tools/helpers.py
index 4ea3a9b..734f5ff 100644
--- a/src/tespy/tools/helpers.py
+++ b/src/tespy/tools/helpers.py
@@ -504,7 +504,7 @@ def bus_char_evaluation(component_value, char_func, reference_value, bus_value,
 def bus_char_derivative(component_value, char_func, reference_value, bus_value, **kwargs):
     """Calculate derivative for bus char evaluation."""
     d = 1e-3
-    return (1 - (
+    return (1 - component_value * (
         1 / char_func.evaluate((bus_value + d) / reference_value) -
         1 / char_func.evaluate((bus_value - d) / reference_value)
     ) / (2 * d))
-- 
2.43.0


From ef001f3094c9fa4f0b19e91989a0bc74d3328ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:59 +0000
Subject: [PATCH 16/39] fix: numerical derivative to mass fractions at the
 limits 0 and 1

The step is shorter than 2 d there.
---
 src/tespy/tools/helpers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tespy/tools/helpers.py b/src/tespy/tools/helpers.py
index 734f5ff..d97f360 100644
--- a/src/tespy/tools/helpers.py
+++ b/src/tespy/tools/helpers.py
@@ -430,6 +430,7 @@ def _numeric_deriv(obj, func, dx, conn=None, **kwargs):
 
         conn.build_fluid_data()
         exp = func(**kwargs)
+        upper = conn.fluid.val[dx]
 
         if conn.fluid.val[dx] - 2 * d >= 0:
             conn.fluid.val[dx] -= 2 * d
@@ -438,11 +439,12 @@ def _numeric_deriv(obj, func, dx, conn=None, **kwargs):
 
         conn.build_fluid_data()
         exp -= func(**kwargs)
+        lower = conn.fluid.val[dx]
 
         conn.fluid.val[dx] = val
         conn.build_fluid_data()
 
-        deriv = exp / (2 * d)
+        deriv = exp / (upper - lower)
 
     elif dx in ['m', 'p', 'h']:
 
-- 
2.43.0


From edf31e0d1d35028aa85c30a9bd29020c6c92aa9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:17 +0000
Subject: [PATCH 17/39] fix: specific volume of partially condensed mixtures

The densities of liquid and gas phase were weighted with the mass fractions,
specific volumes have to be.
---
 src/tespy/tools/fluid_properties/mixtures.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/tespy/tools/fluid_properties/mixtures.py b/src/tespy/tools/fluid_properties/mixtures.py
index 50eb7cf..69078b0 100644
--- a/src/tespy/tools/fluid_properties/mixtures.py
+++ b/src/tespy/tools/fluid_properties/mixtures.py
@@ -153,16 +153,16 @@ def v_mix_pT_ideal_cond(p=None, T=None, fluid_data=None, **kwargs):
         mass_fractions_gas, molar_fraction_gas, mass_liquid, molar_liquid = cond_check(p, T, fluid_data, water_alias)
         if mass_liquid == 0:
             return v_mix_pT_ideal(p, T, fluid_data, **kwargs)
-        d = 0
+        d_gas = 0
         for fluid, data in fluid_data.items():
             if _is_larger_than_precision(data["mass_fraction"]):
                 if fluid == water_alias:
-                    d += fluid_data[water_alias]["wrapper"].d_QT(0, T) * mass_liquid
-                    d += fluid_data[water_alias]["wrapper"].d_QT(1, T) * (1 - mass_liquid)
+                    d_liquid = data["wrapper"].d_QT(0, T)
+                    d_gas += data["wrapper"].d_QT(1, T)
                 else:
                     pp = p * molar_fraction_gas[fluid]
-                    d += data["wrapper"].d_pT(pp, T) * (1 - mass_liquid)
-        return 1 / d
+                    d_gas += data["wrapper"].d_pT(pp, T)
+        return mass_liquid / d_liquid + (1 - mass_liquid) / d_gas
     else:
         return v_mix_pT_ideal(p, T, fluid_data, **kwargs)
 
-- 
2.43.0


From 4b8de2ecff50fe26b9b74b4ae0edf944aba48493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:32 +0000
Subject: [PATCH 18/39] fix: reference enthalpy of water vapour for all names
 of water

In combustion the water of the flue gas is considered gaseous at the reference
state, this only worked if the fluid was called 'H2O'.
---
 src/tespy/tools/fluid_properties/mixtures.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tespy/tools/fluid_properties/mixtures.py b/src/tespy/tools/fluid_properties/mixtures.py
index 69078b0..64be607 100644
--- a/src/tespy/tools/fluid_properties/mixtures.py
+++ b/src/tespy/tools/fluid_properties/mixtures.py
@@ -59,13 +59,14 @@ def h_mix_pT_ideal_cond(p=None, T=None, fluid_data=None, **kwargs):
 
 def h_mix_pT_forced_gas(p, T, fluid_data, **kwargs):
     molar_fractions = get_molar_fractions(fluid_data)
+    water_alias = _water_in_mixture(fluid_data)
 
     h = 0
     for fluid, data in fluid_data.items():
 
         if _is_larger_than_precision(data["mass_fraction"]):
             pp = p * molar_fractions[fluid]
-            if fluid == "H2O" and pp >= data["wrapper"]._p_min:
+            if fluid in water_alias and pp >= data["wrapper"]._p_min:
                 if T <= data["wrapper"].T_sat(pp):
                     h += data["wrapper"].h_QT(1, T) * data["mass_fraction"]
                 else:
-- 
2.43.0


From 0c4756b83cdeed0008f35d3192c943b79cb2ebc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:59 +0000
Subject: [PATCH 19/39] fix: lower limit in the warning of characteristic lines

---
 src/tespy/tools/characteristics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tespy/tools/characteristics.py b/src/tespy/tools/characteristics.py
index 99d9440..3a4bfab 100644
--- a/src/tespy/tools/characteristics.py
+++ b/src/tespy/tools/characteristics.py
@@ -143,7 +143,7 @@ class CharLine:
         elif x < self.x[0]:
             msg = (
                 "Operating point belpw characteristic line range: X="
-                f"{round(x, 3)} with minimum of {self.x[1]} at component {c}."
+                f"{round(x, 3)} with minimum of {self.x[0]} at component {c}."
             )
             logger.warning(msg)
 
-- 
2.43.0


From d8a3deeb94f5fce1c8e95d21bcb6f6a833130c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:51 +0000
Subject: [PATCH 20/39] fix: bus exergy of the adiabatic combustion chamber

---
 src/tespy/components/combustion/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tespy/components/combustion/base.py b/src/tespy/components/combustion/base.py
index 960cbec..661a3d4 100644
--- a/src/tespy/components/combustion/base.py
+++ b/src/tespy/components/combustion/base.py
@@ -1401,4 +1401,4 @@ class CombustionChamber(Component):
 
         self.E_D = self.E_F - self.E_P
         self.epsilon = self._calc_epsilon()
-        self.E_bus = np.nan
+        self.E_bus = {"chemical": np.nan, "physical": np.nan, "massless": np.nan}
-- 
2.43.0


From c8f161fe35376c14f69e28f36ead3165f1f0ca67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:51 +0000
Subject: [PATCH 21/39] fix: exergy balance of the combustion engine

---
 src/tespy/components/combustion/engine.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tespy/components/combustion/engine.py b/src/tespy/components/combustion/engine.py
index 238daa6..65c7ceb 100644
--- a/src/tespy/components/combustion/engine.py
+++ b/src/tespy/components/combustion/engine.py
@@ -1486,7 +1486,9 @@ class CombustionEngine(CombustionChamber):
 
         self.E_P = (
             self.outl[2].Ex_physical - (self.inl[3].Ex_physical + self.inl[2].Ex_physical)
-            - self.P.val + (self.outl[1] - self.inl[1]) + (self.outl[0] - self.inl[0])
+            - self.P.val
+            + self.outl[1].Ex_physical - self.inl[1].Ex_physical
+            + self.outl[0].Ex_physical - self.inl[0].Ex_physical
         )
         self.E_F = (
             self.inl[3].Ex_chemical + self.inl[2].Ex_chemical
-- 
2.43.0


From 7dd830cc0c71b9b56d82a08f87df9f2558dddcb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:51 +0000
Subject: [PATCH 22/39] fix: exergy balance of the water electrolyzer

---
 src/tespy/components/reactors/water_electrolyzer.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/tespy/components/reactors/water_electrolyzer.py b/src/tespy/components/reactors/water_electrolyzer.py
index 8f17301..804e319 100644
--- a/src/tespy/components/reactors/water_electrolyzer.py
+++ b/src/tespy/components/reactors/water_electrolyzer.py
@@ -1171,11 +1171,14 @@ class WaterElectrolyzer(Component):
     def exergy_balance(self, T0):
         self.E_P = (
             self.outl[1].Ex_chemical + self.outl[2].Ex_chemical
-            - self.inl[1].Ex_chemical + self.outl[0].Ex_physical
-            + self.inl[0].Ex_physical
+            - self.inl[1].Ex_chemical
+            + sum(c.Ex_physical for c in self.outl)
+            - sum(c.Ex_physical for c in self.inl)
         )
         self.E_F = self.P.val
 
         self.E_D = self.E_F - self.E_P
         self.epsilon = self._calc_epsilon()
-        self.E_bus = self.P.val
+        self.E_bus = {
+            "chemical": 0, "physical": 0, "massless": self.P.val
+        }
-- 
2.43.0


From e606367fee79e0af264aa50d53f6beb640487cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:04 +0000
Subject: [PATCH 23/39] fix: fuel exergy of simple heat exchangers cooling
 below ambient temperature

---
 src/tespy/components/heat_exchangers/simple.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tespy/components/heat_exchangers/simple.py b/src/tespy/components/heat_exchangers/simple.py
index 3dfe972..1e070c9 100644
--- a/src/tespy/components/heat_exchangers/simple.py
+++ b/src/tespy/components/heat_exchangers/simple.py
@@ -1073,7 +1073,7 @@ class SimpleHeatExchanger(Component):
                 }
             elif self.inl[0].T.val_SI <= T0 and self.outl[0].T.val_SI <= T0:
                 self.E_P = self.outl[0].Ex_therm - self.inl[0].Ex_therm
-                self.E_F = self.outl[0].Ex_therm - self.outl[0].Ex_therm + (
+                self.E_F = self.outl[0].Ex_therm - self.inl[0].Ex_therm + (
                     self.inl[0].Ex_mech - self.outl[0].Ex_mech)
                 self.E_bus = {
                     "chemical": 0, "physical": 0, "massless": self.E_P
-- 
2.43.0


From a8491dac5e40f76591bb882e125bb671245f3353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:08:52 +0000
Subject: [PATCH 24/39] fix: exergy input of groups receiving several kinds of
 streams

---
 src/tespy/tools/analyses.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tespy/tools/analyses.py b/src/tespy/tools/analyses.py
index 5a246c9..3145a55 100644
--- a/src/tespy/tools/analyses.py
+++ b/src/tespy/tools/analyses.py
@@ -663,7 +663,7 @@ class ExergyAnalysis:
         )
         for fkt_group, data in self.sankey_data.items():
             if group_label in data.index:
-                value += data.loc[idx[group_label, :], self.exergy_cats].values
+                value += data.loc[idx[group_label, :], self.exergy_cats].sum()
         return value
 
     def single_group_input(self, group_label, group_data):
-- 
2.43.0


From 72b7c6e22f15c827dedb6932b2272a20cc2118b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:08:52 +0000
Subject: [PATCH 25/39] fix: bus exergy of the combustion engine

---
 src/tespy/components/combustion/engine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tespy/components/combustion/engine.py b/src/tespy/components/combustion/engine.py
index 65c7ceb..ad55ee6 100644
--- a/src/tespy/components/combustion/engine.py
+++ b/src/tespy/components/combustion/engine.py
@@ -1497,5 +1497,5 @@ class CombustionEngine(CombustionChamber):
         self.E_D = self.E_F - self.E_P
         self.epsilon = self._calc_epsilon()
         self.E_bus = {
-            "chemical": np.nan, "physical": np.nan, "massless": -self.P.val
+            "chemical": 0, "physical": 0, "massless": -self.P.val
         }
-- 
2.43.0


From 6e10b5bb502123922483a663c5343faa3a411108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:44:49 +0000
Subject: [PATCH 26/39] fix: specifications of a network after an aborted
 calculation

---
 src/tespy/networks/network.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/tespy/networks/network.py b/src/tespy/networks/network.py
index c57adc9..238a1e3 100644
--- a/src/tespy/networks/network.py
+++ b/src/tespy/networks/network.py
@@ -1962,18 +1962,25 @@ class Network:
         )
         logger.debug(msg)
 
-        self.initialise()
+        try:
+            self.initialise()
 
-        if init_only:
-            self.reset_topology_reduction_specifications()
-            return
+            if init_only:
+                self.reset_topology_reduction_specifications()
+                return
 
-        msg = 'Starting solver.'
-        logger.info(msg)
+            msg = 'Starting solver.'
+            logger.info(msg)
+
+            self.solve_determination()
 
-        self.solve_determination()
+            self.solve_loop(print_results=print_results)
 
-        self.solve_loop(print_results=print_results)
+        except Exception:
+            # the connections must not share specifications after an aborted
+            # calculation
+            self.reset_topology_reduction_specifications()
+            raise
 
         if not prepare_fast_lane:
             self.reset_topology_reduction_specifications()
-- 
2.43.0


From a575b968f520a777c7ad71f8f6cc3cce92fa7505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:00 +0000
Subject: [PATCH 27/39] fix: local design data of components with numeric
 labels

---
 src/tespy/networks/network.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tespy/networks/network.py b/src/tespy/networks/network.py
index 238a1e3..ed1d816 100644
--- a/src/tespy/networks/network.py
+++ b/src/tespy/networks/network.py
@@ -1319,6 +1319,9 @@ class Network:
                         _local_design_paths[path] = pd.read_csv(
                             path, sep=';', decimal='.', index_col=0
                         )
+                        _local_design_paths[path].index = (
+                            _local_design_paths[path].index.astype(str)
+                        )
                     data = _local_design_paths[path].loc[cp.label]
                     # write data
                     self.init_comp_design_params(cp, data)
-- 
2.43.0


From ab50385ec6d00061320454a9a17b127bbf502dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:00 +0000
Subject: [PATCH 28/39] fix: switch connection specifications to off-design
 mode before presolving

---
 src/tespy/connections/connection.py |   1 +
 src/tespy/networks/network.py       | 100 ++++++++++++++++++----------
 2 files changed, 64 insertions(+), 37 deletions(-)

diff --git a/src/tespy/connections/connection.py b/src/tespy/connections/connection.py
index 1256b25..5117fed 100644
--- a/src/tespy/connections/connection.py
+++ b/src/tespy/connections/connection.py
@@ -258,6 +258,7 @@ class Connection:
         self.offdesign = []
         self.local_design = False
         self.local_offdesign = False
+        self._design_refs = set()
         self.printout = True
 
         # set default values for kwargs
diff --git a/src/tespy/networks/network.py b/src/tespy/networks/network.py
index ed1d816..1c9ca36 100644
--- a/src/tespy/networks/network.py
+++ b/src/tespy/networks/network.py
@@ -875,10 +875,6 @@ class Network:
             self.create_fluid_wrapper_branches()
 
         self.propagate_fluid_wrappers()
-        self.presolve_massflow_topology()
-        self.presolve_fluid_topology()
-
-        self.init_set_properties()
 
         if self.mode == 'offdesign':
             self.redesign = True
@@ -892,6 +888,16 @@ class Network:
             if self.new_design:
                 self.init_offdesign_params()
 
+        # the specifications have to be switched prior to the presolving steps
+        # since connections share their mass flow data afterwards
+        self.switch_connection_specifications()
+
+        self.presolve_massflow_topology()
+        self.presolve_fluid_topology()
+
+        self.init_set_properties()
+
+        if self.mode == 'offdesign':
             self.init_offdesign()
 
         else:
@@ -1224,6 +1230,43 @@ class Network:
             elif variable.is_set:
                 variable.is_var = False
 
+    def switch_connection_specifications(self):
+        r"""
+        Switch connection specifications between design and offdesign mode.
+
+        All parameters given in the connection's attribute :code:`c.design`
+        will be unset and all parameters stated in the connections's attribute
+        :code:`c.offdesign` will be set for connections in offdesign mode.
+        This does also affect referenced values! For connections switched back
+        to design mode it is the other way around.
+        """
+        for c in self.conns['object']:
+            if self.mode == 'offdesign':
+                offdesign = not c.local_design
+            else:
+                offdesign = c.local_offdesign
+
+            if offdesign:
+                for var in c.design:
+                    c.get_attr(var).is_set = False
+                    ref = f"{var}_ref"
+                    if ref in c.property_data and c.get_attr(ref).is_set:
+                        c.get_attr(ref).is_set = False
+                        c._design_refs.add(ref)
+                for var in c.offdesign:
+                    c.get_attr(var).is_set = True
+
+            elif self.mode == 'design' and self.redesign:
+                for var in c.design:
+                    ref = f"{var}_ref"
+                    if ref in c._design_refs and not c.get_attr(var).is_set:
+                        c.get_attr(ref).is_set = True
+                    elif ref not in c.property_data or not c.get_attr(ref).is_set:
+                        c.get_attr(var).is_set = True
+                c._design_refs = set()
+                for var in c.offdesign:
+                    c.get_attr(var).is_set = False
+
     def init_design(self):
         r"""
         Initialise a design calculation.
@@ -1237,6 +1280,17 @@ class Network:
         # connections
         self._conn_variables = []
         _local_designs = {}
+        # unset all design values, do this first, because connections with
+        # local_offdesign share the mass flow data with their branch
+        for c in self.conns['object']:
+            if not c.local_offdesign:
+                c.m.design = np.nan
+                c.p.design = np.nan
+                c.h.design = np.nan
+                c.fluid.design = {}
+
+                c.new_design = True
+
         for c in self.conns['object']:
             # read design point information of connections with
             # local_offdesign activated from their respective design path
@@ -1250,13 +1304,6 @@ class Network:
                     logger.error(msg)
                     raise hlp.TESPyNetworkError(msg)
 
-                # unset design parameters
-                for var in c.design:
-                    c.get_attr(var).is_set = False
-                # set offdesign parameters
-                for var in c.offdesign:
-                    c.get_attr(var).is_set = True
-
                 # read design point information
                 msg = (
                     "Reading individual design point information for "
@@ -1271,22 +1318,10 @@ class Network:
                 # write data to connections
                 self.init_conn_design_params(c, df)
 
-            else:
-                # unset all design values
-                c.m.design = np.nan
-                c.p.design = np.nan
-                c.h.design = np.nan
-                c.fluid.design = {}
-
-                c.new_design = True
-
-                # switch connections to design mode
-                if self.redesign:
-                    for var in c.design:
-                        c.get_attr(var).is_set = True
-
-                    for var in c.offdesign:
-                        c.get_attr(var).is_set = False
+                # take values of offdesign parameters from design point
+                for var in c.offdesign:
+                    param = c.get_attr(var)
+                    param.val_SI = param.design
 
             if not c.fluid.is_var:
                 c.simplify_specifications()
@@ -1589,18 +1624,9 @@ class Network:
         self._conn_variables = []
         for c in self.conns['object']:
             if not c.local_design:
-                # switch connections to offdesign mode
-                for var in c.design:
-                    param = c.get_attr(var)
-                    param.is_set = False
-                    param.is_var = True
-                    if f"{var}_ref" in c.property_data:
-                        c.get_attr(f"{var}_ref").is_set = False
-
+                # take values of offdesign parameters from design point
                 for var in c.offdesign:
                     param = c.get_attr(var)
-                    param.is_set = True
-                    param.is_var = False
                     param.val_SI = param.design
 
                 c.new_design = False
-- 
2.43.0


From 59d3ffad209079edbba0c153c0af417421a92bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:18:06 +0000
Subject: [PATCH 29/39] fix: export and load specifications of connections
 completely

---
 src/tespy/connections/connection.py  | 3 ++-
 src/tespy/networks/network_reader.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/tespy/connections/connection.py b/src/tespy/connections/connection.py
index 5117fed..eeb5cf4 100644
--- a/src/tespy/connections/connection.py
+++ b/src/tespy/connections/connection.py
@@ -590,7 +590,8 @@ class Connection:
     def _serializable():
         return [
             "source_id", "target_id",
-            "design_path", "design", "offdesign", "local_design", "local_design",
+            "design_path", "design", "offdesign", "local_design",
+            "local_offdesign",
             "printout", "mixing_rule"
         ]
 
diff --git a/src/tespy/networks/network_reader.py b/src/tespy/networks/network_reader.py
index f75ee03..da69e6c 100644
--- a/src/tespy/networks/network_reader.py
+++ b/src/tespy/networks/network_reader.py
@@ -369,12 +369,13 @@ def _construct_connections(data, comps):
         for f, engine in conn["fluid"]["engine"].items():
             conn["fluid"]["engine"][f] = wrapper_registry.items[engine]
 
+        conn["fluid"]["is_set"] = set(conn["fluid"]["is_set"])
         conns[label].fluid.set_attr(**conn["fluid"])
         conns[label]._create_fluid_wrapper()
 
     for label, conn in data.items():
         for arg in arglist_ref:
-            if len(conn[arg]) > 0:
+            if len(conn[arg]) > 0 and conn[arg]["is_set"]:
                 param = arg.replace("_ref", "")
                 ref = Ref(
                     conns[conn[arg]["conn"]],
-- 
2.43.0


From 6b49aa2adfcb29f0182bf3c3bb90f8f93e54769c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:53 +0000
Subject: [PATCH 30/39] fix: starting values read from files do not change the
 units of the results

---
 src/tespy/networks/network.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/tespy/networks/network.py b/src/tespy/networks/network.py
index 1c9ca36..2b8b128 100644
--- a/src/tespy/networks/network.py
+++ b/src/tespy/networks/network.py
@@ -1590,8 +1590,13 @@ class Network:
 
         for prop in ['m', 'p', 'h']:
             data = c.get_attr(prop)
-            data.val0 = float(conn[prop])
-            data.unit = conn[prop + '_unit']
+            data.val0 = hlp.convert_from_SI(
+                prop,
+                hlp.convert_to_SI(
+                    prop, float(conn[prop]), conn[f"{prop}_unit"]
+                ),
+                data.unit
+            )
 
         for fluid in c.fluid.is_var:
             c.fluid.val[fluid] = float(conn[fluid])
-- 
2.43.0


From cbab9a8e879ab8161e8baa870a955ee536f3d028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:13 +0000
Subject: [PATCH 31/39] fix: molar mass of the IAPWS wrapper in kg/mol

---
 src/tespy/tools/fluid_properties/wrappers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tespy/tools/fluid_properties/wrappers.py b/src/tespy/tools/fluid_properties/wrappers.py
index fd1d727..a3421fd 100644
--- a/src/tespy/tools/fluid_properties/wrappers.py
+++ b/src/tespy/tools/fluid_properties/wrappers.py
@@ -332,7 +332,7 @@ class IAPWSWrapper(FluidPropertyWrapper):
         self._p_max = 100e6
         self._p_crit = iapws._iapws.Pc * 1e6
         self._T_crit = iapws._iapws.Tc
-        self._molar_mass = iapws._iapws.M
+        self._molar_mass = iapws._iapws.M / 1e3
 
     def _is_below_T_critical(self, T):
         return T < self._T_crit
-- 
2.43.0


From 2d40569bfbbdf23eb0b23117eda9c2a735128137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:13 +0000
Subject: [PATCH 32/39] fix: saturation pressure of the IAPWS wrapper

---
 src/tespy/tools/fluid_properties/wrappers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tespy/tools/fluid_properties/wrappers.py b/src/tespy/tools/fluid_properties/wrappers.py
index a3421fd..ae7854c 100644
--- a/src/tespy/tools/fluid_properties/wrappers.py
+++ b/src/tespy/tools/fluid_properties/wrappers.py
@@ -374,7 +374,7 @@ class IAPWSWrapper(FluidPropertyWrapper):
         if T > self._T_crit:
             T = self._T_crit * 0.99
 
-        return self.AS(T=T / 1e6, x=0).P * 1e6
+        return self.AS(T=T, x=0).P * 1e6
 
     def Q_ph(self, p, h):
         p = self._make_p_subcritical(p)
-- 
2.43.0


From c4080c34aa1f2169346d31c2a9c7beb807e81599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:25 +0000
Subject: [PATCH 33/39] fix: starting values of previous calculations keep
 their value when units change

---
 src/tespy/networks/network.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/tespy/networks/network.py b/src/tespy/networks/network.py
index 2b8b128..4e8de43 100644
--- a/src/tespy/networks/network.py
+++ b/src/tespy/networks/network.py
@@ -277,6 +277,8 @@ class Network:
             unit = f'{prop}_unit'
             if unit in kwargs:
                 if kwargs[unit] in fpd[prop]['units']:
+                    if prop in ['m', 'p', 'h']:
+                        self._convert_starting_values(prop, kwargs[unit])
                     self.__dict__.update({unit: kwargs[unit]})
                     msg = f'Setting {fpd[prop]["text"]} unit: {kwargs[unit]}.'
                     logger.debug(msg)
@@ -325,6 +327,16 @@ class Network:
             logger.error(msg)
             raise TypeError(msg)
 
+    def _convert_starting_values(self, prop, unit):
+        """Convert the starting values of previous calculations to new unit."""
+        for c in self.conns['object']:
+            data = c.get_attr(prop)
+            if data.unit is not None:
+                data.val0 = hlp.convert_from_SI(
+                    prop, hlp.convert_to_SI(prop, data.val0, data.unit), unit
+                )
+                data.unit = unit
+
     def get_attr(self, key):
         r"""
         Get the value of a network attribute.
-- 
2.43.0


From 9c0a186b1a31fb09fa7748618c02359d6c5181fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:25 +0000
Subject: [PATCH 34/39] fix: export the unit of specific volume

---
 src/tespy/networks/network.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tespy/networks/network.py b/src/tespy/networks/network.py
index 4e8de43..1347e28 100644
--- a/src/tespy/networks/network.py
+++ b/src/tespy/networks/network.py
@@ -160,6 +160,7 @@ class Network:
             "T_unit": self.T_unit,
             "x_unit": self.x_unit,
             "v_unit": self.v_unit,
+            "vol_unit": self.vol_unit,
             "s_unit": self.s_unit,
         }
 
-- 
2.43.0


From bb7e74e7b132847603063ac1efa71941d31ed41e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:51 +0000
Subject: [PATCH 35/39] fix: delete connections of a network that has not been
 checked yet

---
 src/tespy/networks/network.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/tespy/networks/network.py b/src/tespy/networks/network.py
index 1347e28..aeb8eea 100644
--- a/src/tespy/networks/network.py
+++ b/src/tespy/networks/network.py
@@ -573,9 +573,11 @@ class Network:
                 comp not in self.conns["target"].values
             ):
                 self.comps.drop(comp.label, inplace=True)
-                self.results[comp.__class__.__name__].drop(
-                    comp.label, inplace=True, errors="ignore"
-                )
+                comp_type = comp.__class__.__name__
+                if comp_type in self.results:
+                    self.results[comp_type].drop(
+                        comp.label, inplace=True, errors="ignore"
+                    )
                 msg = f"Deleted component {comp.label} from network."
                 logger.debug(msg)
 
-- 
2.43.0


From 1fe9e7a68113ea10dc555cab8caea3e67e09d609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:35:45 +0000
Subject: [PATCH 36/39] fix: refuse connections with conflicting components
 before adding them

---
 src/tespy/networks/network.py | 37 ++++++++++++++++++++---------------
 1 file changed, 21 insertions(+), 16 deletions(-)

diff --git a/src/tespy/networks/network.py b/src/tespy/networks/network.py
index aeb8eea..277b07f 100644
--- a/src/tespy/networks/network.py
+++ b/src/tespy/networks/network.py
@@ -442,6 +442,9 @@ class Network:
                 logger.error(msg)
                 raise ValueError(msg)
 
+            # the connection is not added if its components are refused
+            self._add_comps(c)
+
             c.good_starting_values = False
 
             self.conns.loc[c.label] = [
@@ -452,7 +455,6 @@ class Network:
             logger.debug(msg)
             # set status "checked" to false, if connection is added to network.
             self.checked = False
-        self._add_comps(*args)
 
     def del_conns(self, *args):
         """
@@ -532,24 +534,27 @@ class Network:
         """
         # get unique components in new connections
         comps = list({cp for c in args for cp in [c.source, c.target]})
-        # add to the dataframe of components
+        new_comps = {}
         for comp in comps:
             if comp.label in self.comps.index:
-                if self.comps.loc[comp.label, 'object'] == comp:
-                    continue
-                else:
-                    comp_type = comp.__class__.__name__
-                    other_obj = self.comps.loc[comp.label, "object"]
-                    other_comp_type = other_obj.__class__.__name__
-                    msg = (
-                        f"The component with the label {comp.label} of type "
-                        f"{comp_type} cannot be added to the network as a "
-                        f"different component of type {other_comp_type} with "
-                        "the same label has already been added. All "
-                        "components must have unique values!"
-                    )
-                    raise hlp.TESPyNetworkError(msg)
+                other_obj = self.comps.loc[comp.label, "object"]
+            else:
+                other_obj = new_comps.setdefault(comp.label, comp)
 
+            if other_obj != comp:
+                comp_type = comp.__class__.__name__
+                other_comp_type = other_obj.__class__.__name__
+                msg = (
+                    f"The component with the label {comp.label} of type "
+                    f"{comp_type} cannot be added to the network as a "
+                    f"different component of type {other_comp_type} with "
+                    "the same label has already been added. All "
+                    "components must have unique values!"
+                )
+                raise hlp.TESPyNetworkError(msg)
+
+        # add to the dataframe of components
+        for comp in new_comps.values():
             comp_type = comp.__class__.__name__
             self.comps.loc[comp.label, 'comp_type'] = comp_type
             self.comps.loc[comp.label, 'object'] = comp
-- 
2.43.0


From 330fb4feed29d6eb088157dd9050a2b46ffe17a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:09:09 +0000
Subject: [PATCH 37/39] fix: combustion engine counts fluids of the combustion
 only

The number of equations of the combustion included fluids of the cooling
circuits, so that a cooling fluid that is not part of the flue gas made the
problem overdetermined.
---
 src/tespy/components/combustion/base.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/tespy/components/combustion/base.py b/src/tespy/components/combustion/base.py
index 661a3d4..d77659c 100644
--- a/src/tespy/components/combustion/base.py
+++ b/src/tespy/components/combustion/base.py
@@ -170,9 +170,10 @@ class CombustionChamber(Component):
         }
 
     def get_mandatory_constraints(self):
+        inl, outl = self._get_combustion_connections()
         self.fluid_eqs = set(
             [
-                f for c in self.inl + self.outl
+                f for c in inl + outl
                 for f in c.fluid.val
             ]
         )
@@ -251,7 +252,8 @@ class CombustionChamber(Component):
     def setup_reaction_parameters(self):
         r"""Setup parameters for reaction (gas name aliases and LHV)."""
         self.fuel_list = []
-        all_fluids = [f for c in self.inl + self.outl for f in c.fluid.val]
+        inl, outl = self._get_combustion_connections()
+        all_fluids = [f for c in inl + outl for f in c.fluid.val]
         for f in all_fluids:
             if fluidalias_in_list(f, combustion_gases):
                 self.fuel_list += [f]
-- 
2.43.0


From c0087ad3d2159b94999b7654a481384935004ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:30:23 +0000
Subject: [PATCH 38/39] fix: mark individuals as valid if a constraint is met
 with equality

---
 src/tespy/tools/optimization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tespy/tools/optimization.py b/src/tespy/tools/optimization.py
index 4154d1a..4f79ac6 100644
--- a/src/tespy/tools/optimization.py
+++ b/src/tespy/tools/optimization.py
@@ -228,7 +228,7 @@ class OptimizationProblem:
             individual += 1
 
         self.individuals['valid'] = (
-            self.individuals[self.constraint_list] < 0
+            self.individuals[self.constraint_list] <= 0
         ).all(axis='columns')
 
     def run(self, algo, pop, num_ind, num_gen):
-- 
2.43.0


From b9729f66ffbce695071bd07341707746c27b1f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:33:56 +0000
Subject: [PATCH 39/39] fix: do not report vapour quality, boiling point
 distance and phase of an earlier calculation

---
 src/tespy/connections/connection.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/tespy/connections/connection.py b/src/tespy/connections/connection.py
index eeb5cf4..27410e3 100644
--- a/src/tespy/connections/connection.py
+++ b/src/tespy/connections/connection.py
@@ -932,6 +932,10 @@ class Connection:
         number_fluids = get_number_of_fluids(self.fluid_data)
         _converged = True
         if number_fluids > 1:
+            # these are available for pure fluids only
+            self.x.val_SI = np.nan
+            self.Td_bp.val_SI = np.nan
+            self.phase.val = np.nan
             h_from_T = h_mix_pT(self.p.val_SI, self.T.val_SI, self.fluid_data, self.mixing_rule)
             if abs(h_from_T - self.h.val_SI) > ERR ** .5 and abs((h_from_T - self.h.val_SI) / self.h.val_SI) > ERR ** .5:
                 self.T.val_SI = np.nan
@@ -972,7 +976,7 @@ class Connection:
                 if not self.Td_bp.is_set:
                     self.Td_bp.val_SI = self.calc_Td_bp()
             except ValueError:
-                self.x.val_SI = np.nan
+                self.Td_bp.val_SI = np.nan
 
         if _converged:
             self.vol.val_SI = self.calc_vol()
-- 
2.43.0


From 03e3546b5d6183e02df422738b013bfb65efd3b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:40 +0000
Subject: [PATCH 01/37] fix: weigh network outlet mixing by the flow rate of
 each outlet's own circuit

---
 pygfunction/networks.py | 41 +++++++++++++++--------------------------
 1 file changed, 15 insertions(+), 26 deletions(-)

diff --git a/pygfunction/networks.py b/pygfunction/networks.py
index 8b5eb0b..386dc8c 100644
--- a/pygfunction/networks.py
+++ b/pygfunction/networks.py
@@ -848,6 +848,10 @@ class Network(object):
                 m_flow_network, cp_f, nSegments, segment_ratios=segment_ratios)
             # Coefficient matrices for network outlet temperature:
             # [T_{f,n,out}] = [a_in]*[T_{f,n,in}] + [a_b]*[T_{b}]
+            # The outlet coefficients may have been retrieved from memory: update
+            # input variables to the current flow rates and flow direction
+            self._format_inputs(
+                m_flow_network, cp_f, nSegments, segment_ratios)
             mix_out = self._coefficients_mixing(m_flow_network)
             a_in = mix_out @ b_in
             a_b = mix_out @ b_b
@@ -1106,12 +1110,11 @@ class Network(object):
             boreholes.
 
         """
-        if not self._check_mixing_coefficients(m_flow_network):
-            self._mix_out = np.zeros((1, self.nBoreholes))
-            self._mix_out[0, self.iOutlets] = \
-                np.abs(self._m_flow_in) / np.sum(np.abs(self._m_flow_in))
-            self._mixing_m_flow = m_flow_network
-        return self._mix_out
+        # The mass flow rate at each outlet is that of the circuit it belongs to
+        m_flow_out = np.abs(self._m_flow_borehole[self.iOutlets])
+        mix_out = np.zeros((1, self.nBoreholes))
+        mix_out[0, self.iOutlets] = m_flow_out / np.sum(m_flow_out)
+        return mix_out
 
     def _initialize_coefficients_connectivity(self):
         """
@@ -1154,9 +1157,6 @@ class Network(object):
         self._m_flow_cp_model_variables = np.empty(self.nInlets)*np.nan
         self._nSegments_model_variables = np.nan
         self._segment_ratios_model_variables = np.nan
-        self._mixing_m_flow = np.empty(self.nInlets)*np.nan*np.nan
-        self._mixing_m_flow[:] = np.nan
-        self._mix_out = np.empty((1, self.nBoreholes))*np.nan
 
         # If m_flow, cp_f, and nSegments are specified, evaluate and store all
         # matrix coefficients.
@@ -1193,15 +1193,6 @@ class Network(object):
 
         return coefficients
 
-    def _check_mixing_coefficients(self, m_flow_network, tol=1e-6):
-        mixing_m_flow = self._mixing_m_flow
-        if np.all(np.abs(m_flow_network - mixing_m_flow) < np.abs(mixing_m_flow)*tol):
-            check = True
-        else:
-            check = False
-
-        return check
-
     def _check_coefficients(
             self, m_flow_network, cp_f, nSegments, segment_ratios, method_id,
             tol=1e-6):
@@ -1578,14 +1569,12 @@ class _EquivalentNetwork(Network):
             boreholes.
 
         """
-        if not self._check_mixing_coefficients(m_flow_network):
-            self._mix_out = np.zeros((1, self.nBoreholes))
-            m_flow_in = np.abs(self._m_flow_in)
-            wBoreholes = self.wBoreholes.flatten()
-            self._mix_out[0, self.iOutlets] = \
-                m_flow_in * wBoreholes / np.sum(m_flow_in * wBoreholes)
-            self._mixing_m_flow = m_flow_network
-        return self._mix_out
+        m_flow_in = np.abs(self._m_flow_in)
+        wBoreholes = self.wBoreholes.flatten()
+        mix_out = np.zeros((1, self.nBoreholes))
+        mix_out[0, self.iOutlets] = \
+            m_flow_in * wBoreholes / np.sum(m_flow_in * wBoreholes)
+        return mix_out
 
     def _format_inputs(self, m_flow_network, cp_f, nSegments, segment_ratios):
         """
-- 
2.43.0


From cb5430c29edff72656bf846c69e3b3f085d16c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:08 +0000
Subject: [PATCH 02/37] fix: do not confuse total and per-circuit flow rates in
 stored network coefficients

---
 pygfunction/networks.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/pygfunction/networks.py b/pygfunction/networks.py
index 386dc8c..7732f3f 100644
--- a/pygfunction/networks.py
+++ b/pygfunction/networks.py
@@ -1,4 +1,5 @@
 # -*- coding: utf-8 -*-
+from copy import deepcopy
 from typing import Union, List
 
 import numpy as np
@@ -1183,8 +1184,9 @@ class Network(object):
             coefficients, method_id):
         self._stored_coefficients[method_id] = coefficients
         self._stored_m_flow_cp[method_id] = m_flow_network*cp_f
-        self._stored_nSegments[method_id] = nSegments
-        self._stored_segment_ratios[method_id] = segment_ratios
+        # Keep copies since the arguments may later be modified by the caller
+        self._stored_nSegments[method_id] = deepcopy(nSegments)
+        self._stored_segment_ratios[method_id] = deepcopy(segment_ratios)
 
         return
 
@@ -1206,8 +1208,11 @@ class Network(object):
                             np.all([np.all(np.abs(segment_ratios[i] - stored_segment_ratios[i]) < np.abs(stored_segment_ratios[i])*tol) for i in range(len(segment_ratios))]))
         else:
             check_ratios = False
-        if (np.all(np.abs(m_flow_network*cp_f - stored_m_flow_cp) < np.abs(stored_m_flow_cp)*tol)
-            and nSegments == stored_nSegments and check_ratios):
+        # A total mass flow rate (float) and a vector of mass flow rates are not
+        # interchangeable
+        if (np.size(m_flow_network*cp_f) == np.size(stored_m_flow_cp)
+            and np.all(np.abs(m_flow_network*cp_f - stored_m_flow_cp) < np.abs(stored_m_flow_cp)*tol)
+            and np.array_equal(nSegments, stored_nSegments) and check_ratios):
             check = True
         else:
             check = False
-- 
2.43.0


From 5c111537c25f60ab603e0ad5822239a2d385acd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:16 +0000
Subject: [PATCH 03/37] fix: use the absolute flow rate in pipes that do not
 reverse the flow direction

---
 pygfunction/pipes.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pygfunction/pipes.py b/pygfunction/pipes.py
index c5ceb5e..be050a0 100644
--- a/pygfunction/pipes.py
+++ b/pygfunction/pipes.py
@@ -1623,6 +1623,10 @@ class SingleUTube(_BasePipe):
             equal lengths are considered.
         """
 
+        # The absolute value of the mass flow rate is used if the flow direction
+        # is not reversible
+        if not self.reversible_flow:
+            m_flow_borehole = np.abs(m_flow_borehole)
         # Format mass flow rate inputs
         if np.isscalar(m_flow_borehole):
             # Mass flow rate in each fluid circuit
@@ -2193,6 +2197,10 @@ class MultipleUTube(_BasePipe):
         """
 
         nPipes = self.nPipes
+        # The absolute value of the mass flow rate is used if the flow direction
+        # is not reversible
+        if not self.reversible_flow:
+            m_flow_borehole = np.abs(m_flow_borehole)
         # Format mass flow rate inputs
         # Mass flow rate in pipes
         if self.config.lower() == 'parallel':
@@ -2473,6 +2481,10 @@ class IndependentMultipleUTube(MultipleUTube):
         """
         Format mass flow rate and heat capacity inputs.
         """
+        # The absolute value of the mass flow rate is used if the flow direction
+        # is not reversible
+        if not self.reversible_flow:
+            m_flow_borehole = np.abs(m_flow_borehole)
         # Format mass flow rate inputs
         # Mass flow rate in each fluid circuit
         m_flow_in = np.atleast_1d(m_flow_borehole)
-- 
2.43.0


From c5ad9655dc8dc02b5a89501c4e79332fa2b49173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:46 +0000
Subject: [PATCH 04/37] fix: store copies of segment ratios with the
 coefficients of pipes

---
 pygfunction/pipes.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pygfunction/pipes.py b/pygfunction/pipes.py
index be050a0..46869e3 100644
--- a/pygfunction/pipes.py
+++ b/pygfunction/pipes.py
@@ -1,5 +1,6 @@
 # -*- coding: utf-8 -*-
 import warnings
+from copy import deepcopy
 from typing import Union
 
 import numpy as np
@@ -824,7 +825,8 @@ class _BasePipe(object):
         self._stored_coefficients[method_id] = coefficients
         self._stored_m_flow_cp[method_id] = m_flow_borehole*cp_f
         self._stored_nSegments[method_id] = nSegments
-        self._stored_segment_ratios[method_id] = segment_ratios
+        # Keep a copy since the array may later be modified by the caller
+        self._stored_segment_ratios[method_id] = deepcopy(segment_ratios)
 
     def _get_stored_coefficients(self, method_id):
         coefficients = self._stored_coefficients[method_id]
@@ -851,7 +853,8 @@ class _BasePipe(object):
                 m_flow_borehole, cp_f, nSegments, segment_ratios)
             self._m_flow_cp_model_variables = m_flow_borehole*cp_f
             self._nSegments_model_variables = nSegments
-            self._segment_ratios_model_variables = segment_ratios
+            # Keep a copy since the array may later be modified by the caller
+            self._segment_ratios_model_variables = deepcopy(segment_ratios)
             check = False
 
         return check
-- 
2.43.0


From 7a034f8133257d58ea57646ff0cfa1e9942f8219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:16 +0000
Subject: [PATCH 05/37] fix: isolate the memorized thermal resistances from the
 arrays of the caller

---
 pygfunction/pipes.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/pygfunction/pipes.py b/pygfunction/pipes.py
index 46869e3..c24c57b 100644
--- a/pygfunction/pipes.py
+++ b/pygfunction/pipes.py
@@ -2932,7 +2932,8 @@ def thermal_resistances(pos, r_out, r_b, k_s, k_g, R_fp, J=2):
         R_fp = np.ones(n_p)*R_fp
     # Return saved outputs if inputs are the same as last call
     if _compare_thermal_resistances_inputs(pos, r_out, r_b, k_s, k_g, R_fp, J):
-        return _thermal_resistances_dict['R'], _thermal_resistances_dict['Rd']
+        return (_thermal_resistances_dict['R'].copy(),
+                _thermal_resistances_dict['Rd'].copy())
 
     R = np.zeros((n_p, n_p))
     if J == 0:
@@ -2975,16 +2976,17 @@ def thermal_resistances(pos, r_out, r_b, k_s, k_g, R_fp, J=2):
                     sum([K[i, j] for j in range(n_p) if not i == j]))
     Rd = 1.0/K
 
-    # Save outputs into dictionary
-    _thermal_resistances_dict['pos'] = pos
-    _thermal_resistances_dict['r_out'] = r_out
+    # Save copies of inputs and outputs into dictionary, since arrays may later
+    # be modified by the caller
+    _thermal_resistances_dict['pos'] = [(x, y) for (x, y) in pos]
+    _thermal_resistances_dict['r_out'] = np.array(r_out)
     _thermal_resistances_dict['r_b'] = r_b
     _thermal_resistances_dict['k_s'] = k_s
     _thermal_resistances_dict['k_g'] = k_g
-    _thermal_resistances_dict['R_fp'] = R_fp
+    _thermal_resistances_dict['R_fp'] = np.array(R_fp)
     _thermal_resistances_dict['J'] = J
-    _thermal_resistances_dict['R'] = R
-    _thermal_resistances_dict['Rd'] = Rd
+    _thermal_resistances_dict['R'] = R.copy()
+    _thermal_resistances_dict['Rd'] = Rd.copy()
     return R, Rd
 
 
-- 
2.43.0


From e60285be2d765a6e3a821c8aeda8517856bb7755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:37 +0000
Subject: [PATCH 06/37] fix: reject coaxial pipes with negative properties or
 outside of the borehole

---
 pygfunction/pipes.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pygfunction/pipes.py b/pygfunction/pipes.py
index c24c57b..b61250c 100644
--- a/pygfunction/pipes.py
+++ b/pygfunction/pipes.py
@@ -2742,18 +2742,18 @@ class Coaxial(SingleUTube):
             raise ValueError(
                 f'The grout thermal conductivity must be greater than zero. '
                 f'A value of {self.k_g} was provided.')
-        if not np.all(self.R_ff) >= 0.:
+        if not np.all(np.greater_equal(self.R_ff, 0.)):
             raise ValueError(
                 f'The fluid to fluid thermal resistance must be'
                 f'greater or equal to zero. '
                 f'A value of {self.R_ff} was provided.')
-        if not np.all(self.R_fp) > 0.:
+        if not np.all(np.greater(self.R_fp, 0.)):
             raise ValueError(
                 f'The fluid to outer pipe wall thermal resistance must be'
                 f'greater than zero. A value of {self.R_fp} was provided.')
 
         # Verify that the pipe radius is greater than zero.
-        if not np.all(self.r_in) > 0.:
+        if not np.all(np.greater(self.r_in, 0.)):
             raise ValueError(
                 f'The pipe inner radius must be greater than zero. '
                 f'A value of {self.r_in} was provided.')
@@ -2782,7 +2782,7 @@ class Coaxial(SingleUTube):
         for i in range(len(self.pos)):
             r_pipe = np.sqrt(self.pos[i][0]**2 + self.pos[i][1]**2)
             radii = r_pipe + self.r_out
-            if not np.any(np.greater_equal(self.b.r_b, radii)):
+            if not np.all(np.greater_equal(self.b.r_b, radii)):
                 raise ValueError(
                     f'Pipes must be entirely contained within the borehole. '
                     f'Pipe {i} is partly or entirely outside the '
-- 
2.43.0


From 84ab08681527c05ae69a00a1258a7b7da60476d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:21 +0000
Subject: [PATCH 07/37] fix: evaluate the heat capacity at the fluid
 temperature in gFunction.from_static_params

---
 pygfunction/gfunction.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pygfunction/gfunction.py b/pygfunction/gfunction.py
index 0edad34..05d23d2 100644
--- a/pygfunction/gfunction.py
+++ b/pygfunction/gfunction.py
@@ -425,7 +425,8 @@ class gFunction(object):
 
         if boundary_condition.upper() == 'MIFT':
             boreholes = borefield.to_boreholes()
-            cp_f = Fluid(fluid_str, fluid_concentration_pct).cp
+            cp_f = Fluid(
+                fluid_str, fluid_concentration_pct, fluid_temperature).cp
             boreholes_or_network= Network.from_static_params(
                 boreholes,
                 pipe_type_str,
-- 
2.43.0


From b843e8c3cf568e3eeae3e8956a78a320d58e2227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:40 +0000
Subject: [PATCH 08/37] fix: treat a single inclined borehole as inclined in
 the similarities solver

---
 pygfunction/solvers/similarities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygfunction/solvers/similarities.py b/pygfunction/solvers/similarities.py
index 887d144..afae56a 100644
--- a/pygfunction/solvers/similarities.py
+++ b/pygfunction/solvers/similarities.py
@@ -921,7 +921,7 @@ class Similarities(_BaseSolver):
 
         else:
             # Outputs for a single borehole
-            if boreholes[0].is_vertical:
+            if boreholes[0].is_vertical():
                 borehole_to_self_vertical = [[0]]
                 borehole_to_self_inclined = []
             else:
-- 
2.43.0


From 39098fc687ac2682725bee2bbf5039ebb6f6f1e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:56 +0000
Subject: [PATCH 09/37] fix: offset of thermal response factors of similar
 inclined segments

---
 pygfunction/solvers/similarities.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygfunction/solvers/similarities.py b/pygfunction/solvers/similarities.py
index afae56a..1ca06c0 100644
--- a/pygfunction/solvers/similarities.py
+++ b/pygfunction/solvers/similarities.py
@@ -369,7 +369,7 @@ class Similarities(_BaseSolver):
             i_segment = np.append(i_segment, i_segment_i)
             j_segment = np.append(j_segment, j_segment_i)
             k_segment = np.append(k_segment, k_segment_i + k0)
-            k0 += len(k_pair)
+            k0 += np.max(k_pair) + 1
         # Evaluate FLS at all time steps
         h = finite_line_source_inclined_vectorized(
             time, alpha, rb1, x1, y1, H1, D1, tilt1, orientation1,
@@ -448,7 +448,7 @@ class Similarities(_BaseSolver):
             i_segment = np.append(i_segment, i_segment_i)
             j_segment = np.append(j_segment, j_segment_i)
             k_segment = np.append(k_segment, k_segment_i + k0)
-            k0 += len(k_pair)
+            k0 += np.max(k_pair) + 1
         # Evaluate FLS at all time steps
         h = finite_line_source_inclined_vectorized(
             time, alpha, rb1, x1, y1, H1, D1, tilt1, orientation1,
-- 
2.43.0


From 062a33d498ca2415a144b99a36b5c157e4fb1854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:13 +0000
Subject: [PATCH 10/37] fix: compare relative orientations of boreholes in
 similarities of inclined pairs

---
 pygfunction/solvers/similarities.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pygfunction/solvers/similarities.py b/pygfunction/solvers/similarities.py
index 1ca06c0..5e7afa7 100644
--- a/pygfunction/solvers/similarities.py
+++ b/pygfunction/solvers/similarities.py
@@ -814,6 +814,13 @@ class Similarities(_BaseSolver):
         cond_theta = (
             abs(sin_b1_cos_dt1_1 - sin_b1_cos_dt1_2) / (abs(sin_b1_cos_dt1_1) + 1e-30) < self.tol
             and abs(sin_b2_cos_dt2_1 - sin_b2_cos_dt2_2) / (abs(sin_b2_cos_dt2_1) + 1e-30) < self.tol)
+        # Equality of orientations of the boreholes with regards to each other
+        cos_dt12_1 = np.cos(pair1[0].orientation - pair1[1].orientation)
+        cos_dt12_2 = np.cos(pair2[0].orientation - pair2[1].orientation)
+        cond_theta = (
+            cond_theta
+            and abs(np.sin(pair1[0].tilt) * np.sin(pair1[1].tilt) * cos_dt12_1
+                    - np.sin(pair2[0].tilt) * np.sin(pair2[1].tilt) * cos_dt12_2) < self.tol)
         if cond_H and cond_D and cond_dis and cond_beta and cond_theta:
             similarity = True
         else:
-- 
2.43.0


From ca29e1f8e10995747e38af113fb5fdd06ec9dfce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:33 +0000
Subject: [PATCH 11/37] fix: associate equivalent borehole clusters to
 boreholes in the right order

---
 pygfunction/solvers/equivalent.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pygfunction/solvers/equivalent.py b/pygfunction/solvers/equivalent.py
index f23943c..31a1581 100644
--- a/pygfunction/solvers/equivalent.py
+++ b/pygfunction/solvers/equivalent.py
@@ -349,8 +349,8 @@ class Equivalent(_BaseSolver):
             data = np.sum(finite_line_source(np.inf, 1., self.boreholes, self.boreholes), axis=1).reshape(-1,1)
             # Split boreholes into groups of same dimensions
             unique_boreholes = self._find_unique_boreholes(self.boreholes)
-            # Initialize empty list of clusters
-            self.clusters = []
+            # Initialize list of clusters (in the order of the boreholes)
+            self.clusters = [0] * self.nBoreholes
             self.nEqBoreholes = 0
             for group in unique_boreholes:
                 if len(group) > 1:
@@ -381,11 +381,11 @@ class Equivalent(_BaseSolver):
                     # Cut the tree to find the borehole groups
                     clusters = cut_tree(
                         clusterization, n_clusters=nClusters)
-                    self.clusters = self.clusters + \
-                        [label + self.nEqBoreholes for label in clusters]
+                    for index, label in zip(group, clusters.flatten()):
+                        self.clusters[index] = label + self.nEqBoreholes
                 else:
                     nClusters = 1
-                    self.clusters.append(self.nEqBoreholes)
+                    self.clusters[group[0]] = self.nEqBoreholes
                 self.nEqBoreholes += nClusters
         else:
             self.nEqBoreholes = self.nBoreholes
-- 
2.43.0


From 7db07846143b5553be56e8d9ccd7bf49df7ee12a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:51 +0000
Subject: [PATCH 12/37] fix: per-borehole mass flow rates in the equivalent
 solver

---
 pygfunction/gfunction.py          | 2 +-
 pygfunction/solvers/equivalent.py | 9 +++------
 2 files changed, 4 insertions(+), 7 deletions(-)

diff --git a/pygfunction/gfunction.py b/pygfunction/gfunction.py
index 05d23d2..f65505d 100644
--- a/pygfunction/gfunction.py
+++ b/pygfunction/gfunction.py
@@ -1445,7 +1445,7 @@ class gFunction(object):
             elif not (self.m_flow_borehole is None
                       or np.allclose(
                           self.m_flow_borehole,
-                          self.m_flow_borehole[0])):
+                          self.m_flow_borehole[..., :1])):
                 warnings.warn(
                     "\nSolver 'equivalent' is only valid for equal mass flow "
                     "rates into the boreholes. Calculations will use the "
diff --git a/pygfunction/solvers/equivalent.py b/pygfunction/solvers/equivalent.py
index 31a1581..ca72c8d 100644
--- a/pygfunction/solvers/equivalent.py
+++ b/pygfunction/solvers/equivalent.py
@@ -828,15 +828,12 @@ class Equivalent(_BaseSolver):
                 "Solver 'equivalent' is only valid for parallel-connected " \
                 "boreholes."
             assert (self.m_flow_borehole is None
-                    or (self.m_flow_borehole.ndim==1 and np.allclose(self.m_flow_borehole, self.m_flow_borehole[0]))
-                    or (self.m_flow_borehole.ndim==2 and np.all([np.allclose(self.m_flow_borehole[:, i], self.m_flow_borehole[0, i]) for i in range(self.nBoreholes)]))), \
+                    or np.allclose(self.m_flow_borehole, self.m_flow_borehole[:, :1])), \
                 "Mass flow rates into the network must be equal for all " \
                 "boreholes."
             # Use the total network mass flow rate.
-            if (type(self.network.m_flow_network) is np.ndarray and \
-                len(self.network.m_flow_network)==len(self.network.b)):
-                self.network.m_flow_network = \
-                    self.network.m_flow_network[0]*len(self.network.b)
+            if self.m_flow_borehole is not None:
+                self.m_flow = np.sum(self.m_flow_borehole, axis=1)
             # Verify that all boreholes have the same piping configuration
             # This is best done by comparing the matrix of thermal resistances.
             assert np.all(
-- 
2.43.0


From b13a8659b5f0e0b2634575d673790c8dd8d47034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:08 +0000
Subject: [PATCH 13/37] fix: linearization of variable mass flow rate
 g-functions below the threshold time

---
 pygfunction/solvers/_base_solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygfunction/solvers/_base_solver.py b/pygfunction/solvers/_base_solver.py
index e73eb2f..250bb3c 100644
--- a/pygfunction/solvers/_base_solver.py
+++ b/pygfunction/solvers/_base_solver.py
@@ -444,7 +444,7 @@ class _BaseSolver:
 
             # Linearize g-function for times under threshold
             if p_long > 0:
-                gFunc[:,:,:p_long] = gFunc[:,:,p_long-1] * self.time[:p_long] / time_threshold
+                gFunc[:,:,:p_long] = gFunc[:,:,p_long-1:p_long] * self.time[:p_long] / time_threshold
                 Q_b[:,:,:p_long] = 1 + (Q_b[:,:,p_long-1:p_long] - 1) * self.time[:p_long] / time_threshold
                 T_b[:,:,:p_long] = T_b[:,:,p_long-1:p_long] * self.time[:p_long] / time_threshold
             if self.nMassFlow == 0:
-- 
2.43.0


From 37a48958a94dc94cdc8283b651a6b446b1ae350b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:51 +0000
Subject: [PATCH 14/37] fix: temperature and heat extraction rate profiles of
 gFunction

np.asscalar no longer exists, profiles at a given time used the wrong axis
with variable mass flow rates, and temperature profiles did not use the
equivalent boreholes of the equivalent solver.
---
 pygfunction/gfunction.py | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/pygfunction/gfunction.py b/pygfunction/gfunction.py
index f65505d..1cb1681 100644
--- a/pygfunction/gfunction.py
+++ b/pygfunction/gfunction.py
@@ -1022,7 +1022,7 @@ class gFunction(object):
 
         # If iBoreholes is None, then plot all boreholes
         if iBoreholes is None:
-            iBoreholes = range(len(self.boreholes))
+            iBoreholes = range(len(self.solver.boreholes))
         # Import temperature profiles
         z, T_b = self._temperature_profiles(time, iBoreholes)
 
@@ -1235,7 +1235,7 @@ class gFunction(object):
                     else:
                         Q_bi = interp1d(
                             self.time,
-                            self.solver.Q_b[i0:i1,:],
+                            self.solver.Q_b[:,i0:i1,:],
                             kind='linear',
                             copy=False,
                             axis=2)(time)
@@ -1338,14 +1338,13 @@ class gFunction(object):
                 if time is None:
                     # If time is None, temperatures are extracted at the last
                     # time step.
-                    T_bi = np.asscalar(self.solver.T_b[-1])
+                    T_bi = self.solver.T_b[-1].item()
                 else:
                     # Otherwise, temperatures are interpolated.
-                    T_bi = np.asscalar(
-                        interp1d(self.time,
-                                 self.solver.T_b[:],
-                                 kind='linear',
-                                 copy=False)(time))
+                    T_bi = interp1d(self.time,
+                                    self.solver.T_b[:],
+                                    kind='linear',
+                                    copy=False)(time).item()
                 T_b.append(np.array(2*[T_bi]))
             else:
                 i0 = self.solver._i0Segments[i]
@@ -1359,11 +1358,6 @@ class gFunction(object):
                         T_bi = self.solver.T_b[:, i0:i1, -1]
                 else:
                     # Otherwise, temperatures are interpolated.
-                    T_bi = interp1d(self.time,
-                                    self.solver.T_b[i0:i1, :],
-                                    kind='linear',
-                                    copy=False,
-                                    axis=1)(time)
                     if self.solver.nMassFlow == 0:
                         T_bi = interp1d(
                             self.time,
@@ -1374,7 +1368,7 @@ class gFunction(object):
                     else:
                         T_bi = interp1d(
                             self.time,
-                            self.solver.T_b[i0:i1,:],
+                            self.solver.T_b[:,i0:i1,:],
                             kind='linear',
                             copy=False,
                             axis=2)(time)
-- 
2.43.0


From 901e33d2e54857fdd6f310bc68b7c952f7afe2eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:08 +0000
Subject: [PATCH 15/37] fix: default origin of
 boreholes.staggered_rectangle_field

The default origin is the center of the rectangle that contains the
boreholes, as documented and as in Borefield.staggered_rectangle_field.
---
 pygfunction/boreholes.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pygfunction/boreholes.py b/pygfunction/boreholes.py
index 330ed4b..98a2fab 100644
--- a/pygfunction/boreholes.py
+++ b/pygfunction/boreholes.py
@@ -853,11 +853,11 @@ def staggered_rectangle_field(
         # When no origin is supplied, compute the origin to be at the center of
         # the rectangle
         if include_last_borehole:
-            x0 = (N_1 - 1) / 2 * B_1
+            x0 = (N_1 - 0.5) / 2 * B_1
             y0 = (N_2 - 1) / 2 * B_2
         else:
-            x0 = (N_1 - 0.5) / 2 * B_1
-            y0 = (N_2 - 0.5) / 2 * B_2
+            x0 = (N_1 - 1) / 2 * B_1
+            y0 = (N_2 - 1) / 2 * B_2
     else:
         x0, y0 = origin
 
-- 
2.43.0


From ddbb7fd6424eac9df0965f842104f68f05863fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:58 +0000
Subject: [PATCH 16/37] fix: do not reuse stored network coefficients after
 pipes are updated

The coefficients stored by a network were still returned after the thermal
resistances of one of its pipes were updated.
---
 pygfunction/networks.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pygfunction/networks.py b/pygfunction/networks.py
index 7732f3f..ceb1d45 100644
--- a/pygfunction/networks.py
+++ b/pygfunction/networks.py
@@ -1155,6 +1155,7 @@ class Network(object):
                                   for _ in range(nMethods)]
         self._stored_nSegments = [np.nan for _ in range(nMethods)]
         self._stored_segment_ratios = [np.nan for _ in range(nMethods)]
+        self._stored_Rd = [[] for _ in range(nMethods)]
         self._m_flow_cp_model_variables = np.empty(self.nInlets)*np.nan
         self._nSegments_model_variables = np.nan
         self._segment_ratios_model_variables = np.nan
@@ -1187,6 +1188,8 @@ class Network(object):
         # Keep copies since the arguments may later be modified by the caller
         self._stored_nSegments[method_id] = deepcopy(nSegments)
         self._stored_segment_ratios[method_id] = deepcopy(segment_ratios)
+        # Thermal resistances of the pipes, replaced when they are updated
+        self._stored_Rd[method_id] = [pipe._Rd for pipe in self.p]
 
         return
 
@@ -1208,11 +1211,17 @@ class Network(object):
                             np.all([np.all(np.abs(segment_ratios[i] - stored_segment_ratios[i]) < np.abs(stored_segment_ratios[i])*tol) for i in range(len(segment_ratios))]))
         else:
             check_ratios = False
+        # The thermal resistances of the pipes may have been updated
+        stored_Rd = self._stored_Rd[method_id]
+        check_Rd = (
+            len(stored_Rd) == len(self.p)
+            and all([pipe._Rd is Rd for pipe, Rd in zip(self.p, stored_Rd)]))
         # A total mass flow rate (float) and a vector of mass flow rates are not
         # interchangeable
         if (np.size(m_flow_network*cp_f) == np.size(stored_m_flow_cp)
             and np.all(np.abs(m_flow_network*cp_f - stored_m_flow_cp) < np.abs(stored_m_flow_cp)*tol)
-            and np.array_equal(nSegments, stored_nSegments) and check_ratios):
+            and np.array_equal(nSegments, stored_nSegments) and check_ratios
+            and check_Rd):
             check = True
         else:
             check = False
-- 
2.43.0


From cb03b63aee52d5178fbf2c0121dd8eb3662dc052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:18 +0000
Subject: [PATCH 17/37] fix: find_duplicates fails when a field has duplicate
 boreholes

argwhere returns an array of shape (k, 1), whose rows are not converted to
int by recent versions of numpy.
---
 pygfunction/boreholes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygfunction/boreholes.py b/pygfunction/boreholes.py
index 98a2fab..05132b5 100644
--- a/pygfunction/boreholes.py
+++ b/pygfunction/boreholes.py
@@ -645,7 +645,7 @@ def find_duplicates(boreField, disp=False):
     # Find distance between each pair of boreholes
     distances = pdist(coordinates, 'euclidean')
     # Find duplicate boreholes
-    duplicate_index = np.argwhere(distances < r_b)
+    duplicate_index = np.flatnonzero(distances < r_b)
     i = n - 2 - np.floor(
         np.sqrt(-8 * duplicate_index + 4 * n * (n - 1) - 7) / 2 - 0.5)
     j = duplicate_index + i + 1 - n * (n - 1) / 2 + (n - i) * ((n - i) - 1) / 2
-- 
2.43.0


From 22b4c4eb4ae20d1ca86b28b184bc83ff1deb6043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:48 +0000
Subject: [PATCH 18/37] fix: keep the order of buried depths when merging
 similar pairs of boreholes

---
 pygfunction/solvers/similarities.py | 33 ++++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/pygfunction/solvers/similarities.py b/pygfunction/solvers/similarities.py
index 5e7afa7..b712969 100644
--- a/pygfunction/solvers/similarities.py
+++ b/pygfunction/solvers/similarities.py
@@ -669,6 +669,37 @@ class Similarities(_BaseSolver):
             similarity = False
         return similarity
 
+    def _compare_borehole_pairs_vertical(self, pair1, pair2):
+        """
+        Compare two pairs of vertical boreholes and return True if all of their
+        segments have the same FLS solution for both real and mirror sources.
+
+        Contrary to pairs of segments, boreholes of the two pairs need to have
+        the same buried depths in the same order.
+
+        Parameters
+        ----------
+        pair1 : Tuple of Borehole objects
+            First pair of boreholes.
+        pair2 : Tuple of Borehole objects
+            Second pair of boreholes.
+
+        Returns
+        -------
+        similarity : bool
+            True if the two pairs have the same FLS solution.
+
+        """
+        # Equality of buried depths
+        cond_D = (
+            abs(pair1[0].D - pair2[0].D)/(abs(pair1[0].D) + 1e-30) < self.tol
+            and abs(pair1[1].D - pair2[1].D)/(abs(pair1[1].D) + 1e-30) < self.tol)
+        if cond_D and self._compare_realandimage_pairs_vertical(pair1, pair2):
+            similarity = True
+        else:
+            similarity = False
+        return similarity
+
     def _compare_real_pairs_inclined(self, pair1, pair2):
         """
         Compare two pairs of inclined boreholes or segments and return True if
@@ -889,7 +920,7 @@ class Similarities(_BaseSolver):
                     # Compare pairs of boreholes to known unique pairs
                     if borehole_i.is_vertical() and borehole_j.is_vertical():
                         borehole_to_borehole = borehole_to_borehole_vertical
-                        compare_pairs = self._compare_realandimage_pairs_vertical
+                        compare_pairs = self._compare_borehole_pairs_vertical
                     else:
                         borehole_to_borehole = borehole_to_borehole_inclined
                         compare_pairs = self._compare_realandimage_pairs_inclined
-- 
2.43.0


From 1bb12b899755229fc9c94118579e1a97b3792b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:31 +0000
Subject: [PATCH 19/37] fix: profiles of a solution with a single time value

---
 pygfunction/gfunction.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/pygfunction/gfunction.py b/pygfunction/gfunction.py
index 1cb1681..0cb0470 100644
--- a/pygfunction/gfunction.py
+++ b/pygfunction/gfunction.py
@@ -1200,6 +1200,8 @@ class gFunction(object):
             Heat extraction rates (dimensionless).
 
         """
+        # A single value cannot be interpolated linearly
+        kind = 'linear' if len(self.time) > 1 else 'nearest'
         # Initialize lists
         z = []
         Q_b = []
@@ -1229,14 +1231,14 @@ class gFunction(object):
                         Q_bi = interp1d(
                             self.time,
                             self.solver.Q_b[i0:i1,:],
-                            kind='linear',
+                            kind=kind,
                             copy=False,
                             axis=1)(time)
                     else:
                         Q_bi = interp1d(
                             self.time,
                             self.solver.Q_b[:,i0:i1,:],
-                            kind='linear',
+                            kind=kind,
                             copy=False,
                             axis=2)(time)
                 if self.solver.nBoreSegments[i] > 1:
@@ -1323,6 +1325,8 @@ class gFunction(object):
             Borehole wall temperatures (dimensionless).
 
         """
+        # A single value cannot be interpolated linearly
+        kind = 'linear' if len(self.time) > 1 else 'nearest'
         # Initialize lists
         z = []
         T_b = []
@@ -1343,7 +1347,7 @@ class gFunction(object):
                     # Otherwise, temperatures are interpolated.
                     T_bi = interp1d(self.time,
                                     self.solver.T_b[:],
-                                    kind='linear',
+                                    kind=kind,
                                     copy=False)(time).item()
                 T_b.append(np.array(2*[T_bi]))
             else:
@@ -1362,14 +1366,14 @@ class gFunction(object):
                         T_bi = interp1d(
                             self.time,
                             self.solver.T_b[i0:i1,:],
-                            kind='linear',
+                            kind=kind,
                             copy=False,
                             axis=1)(time)
                     else:
                         T_bi = interp1d(
                             self.time,
                             self.solver.T_b[:,i0:i1,:],
-                            kind='linear',
+                            kind=kind,
                             copy=False,
                             axis=2)(time)
                 if self.solver.nBoreSegments[i] > 1:
-- 
2.43.0


From 168690e33e2f7cfc56d9cb330f22d6222dd24b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:03 +0000
Subject: [PATCH 20/37] fix: use scalar flow rates and heat capacities of a
 network of any numeric type

---
 pygfunction/gfunction.py            | 6 ++++--
 pygfunction/solvers/_base_solver.py | 2 +-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/pygfunction/gfunction.py b/pygfunction/gfunction.py
index 0cb0470..0d1c0a7 100644
--- a/pygfunction/gfunction.py
+++ b/pygfunction/gfunction.py
@@ -1418,11 +1418,13 @@ class gFunction(object):
             # Extract mass flow rate from Network object if provided in the object
             # and none of m_flow_borehole and m_flow_network are provided
             if self.m_flow_borehole is None and self.m_flow_network is None:
-                if type(self.network.m_flow_network) is float:
+                if (self.network.m_flow_network is not None
+                        and np.ndim(self.network.m_flow_network) == 0):
                      self.m_flow_network = self.network.m_flow_network
                 elif type(self.network.m_flow_network) is np.ndarray:
                      self.m_flow_borehole = self.network.m_flow_network
-            if self.cp_f is None and type(self.network.cp_f) is float:
+            if (self.cp_f is None and self.network.cp_f is not None
+                    and np.ndim(self.network.cp_f) == 0):
                 self.cp_f = self.network.cp_f
         else:
             self.network = None
diff --git a/pygfunction/solvers/_base_solver.py b/pygfunction/solvers/_base_solver.py
index 250bb3c..78a8258 100644
--- a/pygfunction/solvers/_base_solver.py
+++ b/pygfunction/solvers/_base_solver.py
@@ -161,7 +161,7 @@ class _BaseSolver:
             self.m_flow = self.m_flow_borehole
         self.m_flow_network = m_flow_network
         if self.m_flow_network is not None:
-            if not isinstance(self.m_flow_network, (np.floating, float)):
+            if np.ndim(self.m_flow_network) > 0:
                 self.nMassFlow = len(self.m_flow_network)
             self.m_flow_network = np.atleast_1d(self.m_flow_network)
             self.m_flow = self.m_flow_network
-- 
2.43.0


From d473c016be99d8e75ee168124d370e929a316754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:24 +0000
Subject: [PATCH 21/37] fix: use the mass flow rate and heat capacity given to
 mixed_inlet_temperature

---
 pygfunction/gfunction.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pygfunction/gfunction.py b/pygfunction/gfunction.py
index 0d1c0a7..301f7ae 100644
--- a/pygfunction/gfunction.py
+++ b/pygfunction/gfunction.py
@@ -1930,9 +1930,15 @@ def mixed_inlet_temperature(
         method='similarities'
     else:
         method='detailed'
+    # Total mass flow rate or inlet mass flow rates into each circuit
+    if np.ndim(m_flow_network) == 0:
+        m_flow = {'m_flow_network':m_flow_network}
+    else:
+        m_flow = {'m_flow_borehole':np.asarray(m_flow_network)}
     # Evaluate g-function
     gFunc = gFunction(
         network, alpha, time=time, method=method,
-        boundary_condition=boundary_condition, options=options)
+        boundary_condition=boundary_condition, cp_f=cp_f, options=options,
+        **m_flow)
 
     return gFunc.gFunc
-- 
2.43.0


From 8644bddb57ef5ab42cd76a4fc886abe66ef4f3ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:44 +0000
Subject: [PATCH 22/37] fix: do not multiply mass flow rates given per borehole
 by the number of boreholes

---
 pygfunction/gfunction.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pygfunction/gfunction.py b/pygfunction/gfunction.py
index 301f7ae..12e1946 100644
--- a/pygfunction/gfunction.py
+++ b/pygfunction/gfunction.py
@@ -1786,8 +1786,13 @@ def equal_inlet_temperature(
                   "Use the `pygfunction.gfunction.gFunction` class instead.",
                   DeprecationWarning)
 
+    # A single mass flow rate applies to every borehole
+    if np.ndim(m_flow_borehole) == 0:
+        m_flow_network = m_flow_borehole*len(boreholes)
+    else:
+        m_flow_network = np.asarray(m_flow_borehole)
     network = Network(
-        boreholes, UTubes, m_flow_network=m_flow_borehole*len(boreholes),
+        boreholes, UTubes, m_flow_network=m_flow_network,
         cp_f=cp_f, nSegments=nSegments)
     boundary_condition = 'MIFT'
     # Build options dict
-- 
2.43.0


From 4d498c4f9dece757e3de0cd968be9dbce958b3bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:22 +0000
Subject: [PATCH 23/37] fix: equivalent solver used the pipe of the first
 borehole for boreholes with other types or connections of pipes

---
 pygfunction/gfunction.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/pygfunction/gfunction.py b/pygfunction/gfunction.py
index 12e1946..b6a37aa 100644
--- a/pygfunction/gfunction.py
+++ b/pygfunction/gfunction.py
@@ -1452,7 +1452,7 @@ class gFunction(object):
                     "'similarities' solver instead.")
                 self.method = 'similarities'
             elif not np.all(
-                    [np.allclose(self.network.p[0]._Rd, pipe._Rd)
+                    [self._equal_pipes(self.network.p[0], pipe)
                      for pipe in self.network.p]):
                 warnings.warn(
                     "\nSolver 'equivalent' is only valid for boreholes with "
@@ -1461,6 +1461,20 @@ class gFunction(object):
                 self.method = 'similarities'
         return
 
+    @staticmethod
+    def _equal_pipes(pipe, other_pipe):
+        """
+        Return True if two pipes have the same type, connections and delta-
+        circuit of thermal resistances.
+
+        """
+        return (type(pipe) is type(other_pipe)
+                and getattr(pipe, 'config', None)
+                == getattr(other_pipe, 'config', None)
+                and pipe.reversible_flow == other_pipe.reversible_flow
+                and pipe._Rd.shape == other_pipe._Rd.shape
+                and np.allclose(pipe._Rd, other_pipe._Rd))
+
     def _check_inputs(self):
         """
         This method ensures that the instances filled in the gFunction object
-- 
2.43.0


From d4ba8a3d3b2680e97be1108990071f9d533a09a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:56 +0000
Subject: [PATCH 24/37] fix: reject numbers of segments and segment ratios that
 are not given for each borehole

---
 pygfunction/solvers/_base_solver.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pygfunction/solvers/_base_solver.py b/pygfunction/solvers/_base_solver.py
index 78a8258..e4ca4c4 100644
--- a/pygfunction/solvers/_base_solver.py
+++ b/pygfunction/solvers/_base_solver.py
@@ -604,7 +604,7 @@ class _BaseSolver:
             "Time should be a float or an array."
         # self.nSegments can now be an int or list
         assert type(self.nBoreSegments) is list and len(self.nBoreSegments) == \
-               len(self.nBoreSegments) and min(self.nBoreSegments) >= 1, \
+               len(self.boreholes) and min(self.nBoreSegments) >= 1, \
             "The argument for number of segments `nSegments` should be " \
             "of type int or a list of integers. If passed as a list, the " \
             "length of the list should be equal to the number of boreholes" \
@@ -632,6 +632,9 @@ class _BaseSolver:
             f"Data type '{self.dtype}' is not an acceptable data type. \n" \
             f"Please provide one of the following inputs : {acceptable_dtypes}"
         # Check segment ratios
+        assert len(self.segment_ratios) == len(self.boreholes), \
+            "If segment ratios are passed as a list, the length of the list " \
+            "should be equal to the number of boreholes in the borefield."
         for j, (ratios, nSegments) in enumerate(
                 zip(self.segment_ratios, self.nBoreSegments)):
             assert len(ratios) == nSegments, \
-- 
2.43.0


From c96d03db4ce027ebe11d658a155c8d2a74c064ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:38 +0000
Subject: [PATCH 25/37] fix: solve repeated time values of a g-function only
 once

---
 pygfunction/gfunction.py            | 32 ++++++++++++++++-------------
 pygfunction/solvers/_base_solver.py | 11 +++++++++-
 2 files changed, 28 insertions(+), 15 deletions(-)

diff --git a/pygfunction/gfunction.py b/pygfunction/gfunction.py
index b6a37aa..b6146ce 100644
--- a/pygfunction/gfunction.py
+++ b/pygfunction/gfunction.py
@@ -1200,8 +1200,10 @@ class gFunction(object):
             Heat extraction rates (dimensionless).
 
         """
-        # A single value cannot be interpolated linearly
-        kind = 'linear' if len(self.time) > 1 else 'nearest'
+        # Repeated values cannot be interpolated, and a single value cannot be
+        # interpolated linearly
+        t, iTime = np.unique(self.time, return_index=True)
+        kind = 'linear' if len(t) > 1 else 'nearest'
         # Initialize lists
         z = []
         Q_b = []
@@ -1229,15 +1231,15 @@ class gFunction(object):
                     # Otherwise, heat extraction rates are interpolated.
                     if self.solver.nMassFlow == 0:
                         Q_bi = interp1d(
-                            self.time,
-                            self.solver.Q_b[i0:i1,:],
+                            t,
+                            self.solver.Q_b[i0:i1,iTime],
                             kind=kind,
                             copy=False,
                             axis=1)(time)
                     else:
                         Q_bi = interp1d(
-                            self.time,
-                            self.solver.Q_b[:,i0:i1,:],
+                            t,
+                            self.solver.Q_b[:,i0:i1,iTime],
                             kind=kind,
                             copy=False,
                             axis=2)(time)
@@ -1325,8 +1327,10 @@ class gFunction(object):
             Borehole wall temperatures (dimensionless).
 
         """
-        # A single value cannot be interpolated linearly
-        kind = 'linear' if len(self.time) > 1 else 'nearest'
+        # Repeated values cannot be interpolated, and a single value cannot be
+        # interpolated linearly
+        t, iTime = np.unique(self.time, return_index=True)
+        kind = 'linear' if len(t) > 1 else 'nearest'
         # Initialize lists
         z = []
         T_b = []
@@ -1345,8 +1349,8 @@ class gFunction(object):
                     T_bi = self.solver.T_b[-1].item()
                 else:
                     # Otherwise, temperatures are interpolated.
-                    T_bi = interp1d(self.time,
-                                    self.solver.T_b[:],
+                    T_bi = interp1d(t,
+                                    self.solver.T_b[iTime],
                                     kind=kind,
                                     copy=False)(time).item()
                 T_b.append(np.array(2*[T_bi]))
@@ -1364,15 +1368,15 @@ class gFunction(object):
                     # Otherwise, temperatures are interpolated.
                     if self.solver.nMassFlow == 0:
                         T_bi = interp1d(
-                            self.time,
-                            self.solver.T_b[i0:i1,:],
+                            t,
+                            self.solver.T_b[i0:i1,iTime],
                             kind=kind,
                             copy=False,
                             axis=1)(time)
                     else:
                         T_bi = interp1d(
-                            self.time,
-                            self.solver.T_b[:,i0:i1,:],
+                            t,
+                            self.solver.T_b[:,i0:i1,iTime],
                             kind=kind,
                             copy=False,
                             axis=2)(time)
diff --git a/pygfunction/solvers/_base_solver.py b/pygfunction/solvers/_base_solver.py
index e4ca4c4..4dd6c35 100644
--- a/pygfunction/solvers/_base_solver.py
+++ b/pygfunction/solvers/_base_solver.py
@@ -221,8 +221,10 @@ class _BaseSolver:
             Values of the g-function
 
         """
+        # Repeated time values are only solved once (time steps of zero
+        # duration lead to singular systems of equations)
+        self.time, iTime = np.unique(time, return_inverse=True)
         # Number of time values
-        self.time = time
         nt = len(self.time)
         # Evaluate threshold time for g-function linearization
         if self.linear_threshold is None:
@@ -452,6 +454,13 @@ class _BaseSolver:
                 Q_b = Q_b[0,:,:]
                 T_b = T_b[0,:,:]
 
+        # Assign the results to all of the requested time values
+        self.time = time
+        gFunc = gFunc[..., iTime]
+        T_b = T_b[..., iTime]
+        if not self.boundary_condition == 'UHTR':
+            Q_b = Q_b[..., iTime]
+
         # Store temperature and heat extraction rate profiles
         if self.profiles:
             self.Q_b = Q_b
-- 
2.43.0


From 19adc7a7c29a91aea4ac31e7f643d843bf7031ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:02 +0000
Subject: [PATCH 26/37] fix: equivalent boreholes given by five values were
 left without inclination

---
 pygfunction/boreholes.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pygfunction/boreholes.py b/pygfunction/boreholes.py
index 05132b5..bf45593 100644
--- a/pygfunction/boreholes.py
+++ b/pygfunction/boreholes.py
@@ -363,6 +363,9 @@ class _EquivalentBorehole(object):
             self.y = np.atleast_1d(self.y)
             if len(boreholes)==7:
                 self.tilt, self.orientation = boreholes[5:]
+            else:
+                # Boreholes are vertical by default
+                self.tilt, self.orientation = 0., np.zeros(len(self.x))
 
         self.nBoreholes = len(self.x)
         # Check if borehole is inclined
-- 
2.43.0


From 272fae85b17aa75348724ab2166ad5c841ba0ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:17 +0000
Subject: [PATCH 27/37] fix: append_to_dict of fluids failed on items that are
 not numbers

---
 pygfunction/media.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pygfunction/media.py b/pygfunction/media.py
index a24036e..16527d4 100644
--- a/pygfunction/media.py
+++ b/pygfunction/media.py
@@ -1,4 +1,6 @@
 # -*- coding: utf-8 -*-
+from numbers import Real
+
 from scp.ethyl_alcohol import EthylAlcohol
 from scp.ethylene_glycol import EthyleneGlycol
 from scp.methyl_alcohol import MethylAlcohol
@@ -108,7 +110,10 @@ class Fluid:
             for item in sorted(self.__dict__):
                 dnary[item] = []
         for item in sorted(self.__dict__):
-            dnary[item].append(f'{self.__dict__[item]:.5E}')
+            value = self.__dict__[item]
+            # Items that are not numbers (e.g. the name) have no precision
+            dnary[item].append(
+                f'{value:.5E}' if isinstance(value, Real) else f'{value!s}')
 
     def density(self):
         """
-- 
2.43.0


From 64fcb44a90586342554da85a665aaa6be3340dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:27 +0000
Subject: [PATCH 28/37] fix: a flow rate given as one number to an independent
 U-tube failed

---
 pygfunction/pipes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygfunction/pipes.py b/pygfunction/pipes.py
index b61250c..bdbd00c 100644
--- a/pygfunction/pipes.py
+++ b/pygfunction/pipes.py
@@ -2499,7 +2499,7 @@ class IndependentMultipleUTube(MultipleUTube):
         self._m_flow_pipe = np.concatenate((m_flow_in, -m_flow_in))
         # Flow direction
         self._is_reversed = np.logical_and(
-            m_flow_borehole < 0.,
+            m_flow_in < 0.,
             self.reversible_flow)
 
         # Format heat capacity inputs
-- 
2.43.0


From 5aa8f9f5637db83a3f11f49999e498ecc9fe4852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:27 +0000
Subject: [PATCH 29/37] fix: heat extraction rate of a wall temperature given
 as one number was an array

---
 pygfunction/pipes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pygfunction/pipes.py b/pygfunction/pipes.py
index bdbd00c..ec54c4d 100644
--- a/pygfunction/pipes.py
+++ b/pygfunction/pipes.py
@@ -205,13 +205,14 @@ class _BasePipe(object):
             returned type corresponds to the type of the parameter `T_b`.
 
         """
+        is_scalar = np.isscalar(T_b)
         T_b = np.atleast_1d(T_b)
         nSegments = len(T_b)
         a_in, a_b = self.coefficients_borehole_heat_extraction_rate(
             m_flow_borehole, cp_f, nSegments, segment_ratios=segment_ratios)
         Q_b = a_in @ np.atleast_1d(T_f_in) + a_b @ T_b
         # Return float if Tb was supplied as scalar
-        if np.isscalar(T_b) and not np.isscalar(Q_b):
+        if is_scalar and not np.isscalar(Q_b):
             Q_b = Q_b.item()
         return Q_b
 
-- 
2.43.0


From 1009918ba7da8752cf4d299d124a8f80c65dab3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:21 +0000
Subject: [PATCH 30/37] fix: coefficients modified in place by the caller
 changed later results

---
 pygfunction/networks.py | 5 +++--
 pygfunction/pipes.py    | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/pygfunction/networks.py b/pygfunction/networks.py
index ceb1d45..03bf630 100644
--- a/pygfunction/networks.py
+++ b/pygfunction/networks.py
@@ -1183,7 +1183,8 @@ class Network(object):
     def _set_stored_coefficients(
             self, m_flow_network, cp_f, nSegments, segment_ratios,
             coefficients, method_id):
-        self._stored_coefficients[method_id] = coefficients
+        # Keep copies since the arrays may later be modified by the caller
+        self._stored_coefficients[method_id] = deepcopy(coefficients)
         self._stored_m_flow_cp[method_id] = m_flow_network*cp_f
         # Keep copies since the arguments may later be modified by the caller
         self._stored_nSegments[method_id] = deepcopy(nSegments)
@@ -1194,7 +1195,7 @@ class Network(object):
         return
 
     def _get_stored_coefficients(self, method_id):
-        coefficients = self._stored_coefficients[method_id]
+        coefficients = deepcopy(self._stored_coefficients[method_id])
 
         return coefficients
 
diff --git a/pygfunction/pipes.py b/pygfunction/pipes.py
index ec54c4d..530e23b 100644
--- a/pygfunction/pipes.py
+++ b/pygfunction/pipes.py
@@ -823,14 +823,15 @@ class _BasePipe(object):
 
     def _set_stored_coefficients(
             self, m_flow_borehole, cp_f, nSegments, segment_ratios, coefficients, method_id):
-        self._stored_coefficients[method_id] = coefficients
+        # Keep copies since the arrays may later be modified by the caller
+        self._stored_coefficients[method_id] = deepcopy(coefficients)
         self._stored_m_flow_cp[method_id] = m_flow_borehole*cp_f
         self._stored_nSegments[method_id] = nSegments
         # Keep a copy since the array may later be modified by the caller
         self._stored_segment_ratios[method_id] = deepcopy(segment_ratios)
 
     def _get_stored_coefficients(self, method_id):
-        coefficients = self._stored_coefficients[method_id]
+        coefficients = deepcopy(self._stored_coefficients[method_id])
         return coefficients
 
     def _check_model_variables(
-- 
2.43.0


From 048a596588b0de9c522f6843a4ffb4dcdd61feac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:21 +0000
Subject: [PATCH 31/37] fix: response factors modified in place by the caller
 changed simulations

---
 pygfunction/load_aggregation.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pygfunction/load_aggregation.py b/pygfunction/load_aggregation.py
index b95a8fb..af3415c 100644
--- a/pygfunction/load_aggregation.py
+++ b/pygfunction/load_aggregation.py
@@ -136,7 +136,7 @@ class ClaessonJaved(_LoadAggregation):
         if self.nSources == 1:
             dg = self.dg.flatten()
         else:
-            dg = self.dg
+            dg = self.dg.copy()
         return dg
 
     def get_times_for_simulation(self):
@@ -288,7 +288,8 @@ class MLAA(_LoadAggregation):
         """
         if self.nSources==1:
             g_d = g_d.reshape(1, 1, -1)
-        self.g_d = g_d
+        # Keep a copy since the array may later be modified by the caller
+        self.g_d = g_d.copy()
 
     def next_time_step(self, time):
         """
@@ -540,7 +541,8 @@ class Liu(_LoadAggregation):
         """
         if self.nSources==1:
             g_d = g_d.reshape(1, 1, -1)
-        self.g_d = g_d
+        # Keep a copy since the array may later be modified by the caller
+        self.g_d = g_d.copy()
 
     def next_time_step(self, time):
         """
-- 
2.43.0


From a9da6ccba2f56e525ee986f42896a70616716dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:47 +0000
Subject: [PATCH 32/37] fix: a borefield changed with the arrays it was created
 from

---
 pygfunction/borefield.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pygfunction/borefield.py b/pygfunction/borefield.py
index 3a92b88..e870298 100644
--- a/pygfunction/borefield.py
+++ b/pygfunction/borefield.py
@@ -43,6 +43,9 @@ class Borefield:
             self, H: npt.ArrayLike, D: npt.ArrayLike, r_b: npt.ArrayLike,
             x: npt.ArrayLike, y: npt.ArrayLike, tilt: npt.ArrayLike = 0.,
             orientation: npt.ArrayLike = 0.):
+        # Keep copies since the arrays may later be modified by the caller
+        H, D, r_b, x, y, tilt, orientation = [
+            np.array(p) for p in (H, D, r_b, x, y, tilt, orientation)]
         # Convert x and y coordinates to arrays
         x = np.atleast_1d(x)
         y = np.atleast_1d(y)
-- 
2.43.0


From b1360fad63e11b958633c0bc01e4f631c45968b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:08:34 +0000
Subject: [PATCH 33/37] fix: line source solutions failed for scalar times that
 are not floats

---
 pygfunction/heat_transfer.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pygfunction/heat_transfer.py b/pygfunction/heat_transfer.py
index 55f3cf9..f6243e3 100644
--- a/pygfunction/heat_transfer.py
+++ b/pygfunction/heat_transfer.py
@@ -221,7 +221,7 @@ def finite_line_source(
                 f = _finite_line_source_integrand(
                     dis, H1, D1, H2, D2, reaSource, imgSource)
                 # Evaluate integral
-                if isinstance(time, (np.floating, float)):
+                if np.ndim(time) == 0:
                     # Lower bound of integration
                     a = 1.0 / np.sqrt(4.0*alpha*time)
                     h = 0.5 / H2 * quad(f, a, np.inf)[0]
@@ -264,7 +264,7 @@ def finite_line_source(
                     reaSource, imgSource, M)
 
                 # Evaluate integral
-                if isinstance(time, (np.floating, float)):
+                if np.ndim(time) == 0:
                     # Lower bound of integration
                     a = 1.0 / np.sqrt(4.0*alpha*time)
                     h = 0.5 / H2 * quad(f, a, np.inf)[0]
@@ -758,7 +758,7 @@ def finite_line_source_vectorized(
             dis, H1, D1, H2, D2, reaSource, imgSource)
 
         # Evaluate integral
-        if isinstance(time, (np.floating, float)):
+        if np.ndim(time) == 0:
             # Lower bound of integration
             a = 1.0 / np.sqrt(4.0*alpha*time)
             h = 0.5 / H2 * quad_vec(f, a, np.inf)[0]
@@ -872,7 +872,7 @@ def finite_line_source_equivalent_boreholes_vectorized(
         dis, wDis, H1, D1, H2, D2, N2, reaSource, imgSource)
 
     # Evaluate integral
-    if isinstance(time, (np.floating, float)):
+    if np.ndim(time) == 0:
         # Lower bound of integration
         a = 1.0 / np.sqrt(4.0*alpha*time)
         h = 0.5 / (N2*H2) * quad_vec(f, a, np.inf)[0]
@@ -1051,7 +1051,7 @@ def finite_line_source_inclined_vectorized(
             reaSource, imgSource, M)
 
         # Evaluate integral
-        if isinstance(time, (np.floating, float)):
+        if np.ndim(time) == 0:
             # Lower bound of integration
             a = 1.0 / np.sqrt(4.0*alpha*time)
             h = 0.5 / H2 * quad_vec(f, a, np.inf, epsabs=1e-4, epsrel=1e-6)[0]
-- 
2.43.0


From 75420482b6695e3cd78f40754f577babe53df5f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:44 +0000
Subject: [PATCH 34/37] fix: steady-state line source recognized for any
 infinite time

Only the object np.inf was; with the approximation, any other infinite float gave NaN.
---
 pygfunction/heat_transfer.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pygfunction/heat_transfer.py b/pygfunction/heat_transfer.py
index f6243e3..54d7a61 100644
--- a/pygfunction/heat_transfer.py
+++ b/pygfunction/heat_transfer.py
@@ -207,7 +207,7 @@ def finite_line_source(
         if borehole1.is_vertical() and borehole2.is_vertical():
             # Boreholes are vertical
             dis = borehole1.distance(borehole2)
-            if time is np.inf:
+            if np.ndim(time) == 0 and np.isinf(time):
                 # Steady-state solution
                 h = _finite_line_source_steady_state(
                     dis, H1, D1, H2, D2, reaSource, imgSource)
@@ -244,7 +244,7 @@ def finite_line_source(
             x2, y2 = borehole2.position()
             tilt2 = borehole2.tilt
             orientation2 = borehole2.orientation
-            if time is np.inf:
+            if np.ndim(time) == 0 and np.isinf(time):
                 # Steady-state solution
                 h = _finite_line_source_inclined_steady_state(
                     rb1, x1, y1, H1, D1, tilt1, orientation1,
@@ -298,7 +298,7 @@ def finite_line_source(
         if (np.all([b.is_vertical() for b in borehole1])
             and np.all([b.is_vertical() for b in borehole2])):
             # All boreholes are vertical
-            if time is np.inf:
+            if np.ndim(time) == 0 and np.isinf(time):
                 # Steady-state solution
                 h = _finite_line_source_steady_state(
                     dis, H1, D1, H2, D2, reaSource, imgSource)
@@ -324,7 +324,7 @@ def finite_line_source(
             tilt2 = np.array([b.tilt for b in borehole2]).reshape(-1, 1)
             orientation2 = np.array([b.orientation for b in borehole2]).reshape(-1, 1)
             r_b = r_b.reshape(1, -1)
-            if time is np.inf:
+            if np.ndim(time) == 0 and np.isinf(time):
                 # Steady-state solution
                 h = _finite_line_source_inclined_steady_state(
                     r_b, x1, y1, H1, D1, tilt1, orientation1,
-- 
2.43.0


From 1034ee432b2b755bc280a381e9b15977f80d8456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:44 +0000
Subject: [PATCH 35/37] fix: expansion rate of geometric time grids close to
 uniform

The fixed-point iterations stopped before convergence, and the last
time steps were shorter than the others or even negative.
---
 pygfunction/utilities.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/pygfunction/utilities.py b/pygfunction/utilities.py
index 953f802..640c4cf 100644
--- a/pygfunction/utilities.py
+++ b/pygfunction/utilities.py
@@ -3,6 +3,7 @@ import warnings
 
 import numpy as np
 import numpy.polynomial.polynomial as poly
+from scipy.optimize import brentq
 from scipy.special import erf
 
 
@@ -344,13 +345,16 @@ def time_geometric(dt, tmax, Nt):
 
     """
     if tmax > Nt*dt:
-        # Identify expansion rate (r)
-        dr = 1.0e99
-        r = 2.
-        while np.abs(dr) > 1.0e-10:
-            dr = (1+tmax/dt*(r-1))**(1/Nt) - r
-            r += dr
-        time = np.array([dt*(1-r**(j+1))/(1-r) for j in range(Nt)])
+        # Identify expansion rate (r), such that the sum of the cell widths
+        # is equal to tmax
+        steps = np.arange(Nt)
+        if Nt > 1:
+            r = brentq(
+                lambda r: np.sum(r**steps) - tmax/dt,
+                1., (tmax/dt)**(1/(Nt - 1)), xtol=1e-15, maxiter=1000)
+        else:
+            r = 1.
+        time = dt*np.cumsum(r**steps)
         time[-1] = tmax
     else:
         time = np.array([dt*(j+1) for j in range(Nt)])
-- 
2.43.0


From 31db108d629ff93002e59417cad90ccee8218465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:44 +0000
Subject: [PATCH 36/37] fix: pipes updated with positions later modified by the
 caller

---
 pygfunction/pipes.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/pygfunction/pipes.py b/pygfunction/pipes.py
index 530e23b..e3f5215 100644
--- a/pygfunction/pipes.py
+++ b/pygfunction/pipes.py
@@ -1078,7 +1078,8 @@ class SingleUTube(_BasePipe):
     def __init__(
             self, pos, r_in, r_out, borehole, k_s, k_g, R_fp, J=2,
             reversible_flow=True):
-        self.pos = pos
+        # Keep a copy since the positions may later be modified by the caller
+        self.pos = deepcopy(pos)
         self.r_in = r_in
         self.r_out = r_out
         self.b = borehole
@@ -1852,7 +1853,8 @@ class MultipleUTube(_BasePipe):
     """
     def __init__(self, pos, r_in, r_out, borehole, k_s, k_g, R_fp, nPipes,
                  config='parallel', J=2, reversible_flow=True):
-        self.pos = pos
+        # Keep a copy since the positions may later be modified by the caller
+        self.pos = deepcopy(pos)
         self.r_in = r_in
         self.r_out = r_out
         self.b = borehole
@@ -2301,7 +2303,8 @@ class IndependentMultipleUTube(MultipleUTube):
     """
     def __init__(self, pos, r_in, r_out, borehole, k_s, k_g, R_fp, nPipes,
                  J=2, reversible_flow=True):
-        self.pos = pos
+        # Keep a copy since the positions may later be modified by the caller
+        self.pos = deepcopy(pos)
         self.r_in = r_in
         self.r_out = r_out
         self.b = borehole
@@ -2598,9 +2601,10 @@ class Coaxial(SingleUTube):
                  reversible_flow=True):
         if isinstance(pos, tuple):
             pos = [pos]
-        self.pos = pos
-        self.r_in = r_in
-        self.r_out = r_out
+        # Keep copies since the arguments may later be modified by the caller
+        self.pos = deepcopy(pos)
+        self.r_in = deepcopy(r_in)
+        self.r_out = deepcopy(r_out)
         self.b = borehole
         self.k_s = k_s
         self.k_g = k_g
-- 
2.43.0


From 49b2de8959f4ece1fb09f2afe6d79fe396a953ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:14:14 +0000
Subject: [PATCH 37/37] fix: accept lengths of line sources of other shapes
 than their depths

---
 pygfunction/heat_transfer.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pygfunction/heat_transfer.py b/pygfunction/heat_transfer.py
index 54d7a61..3089968 100644
--- a/pygfunction/heat_transfer.py
+++ b/pygfunction/heat_transfer.py
@@ -398,6 +398,8 @@ def finite_line_source_approximation(
 
     """
 
+    # Broadcast the dimensions, since a stack needs terms of the same shape
+    H1, D1, H2, D2 = np.broadcast_arrays(H1, D1, H2, D2)
     dis = np.divide.outer(dis, np.sqrt(4*alpha*time))
     H1 = np.divide.outer(H1, np.sqrt(4*alpha*time))
     D1 = np.divide.outer(D1, np.sqrt(4*alpha*time))
@@ -1107,6 +1109,8 @@ def _finite_line_source_integrand(dis, H1, D1, H2, D2, reaSource, imgSource):
     rules.
 
     """
+    # Broadcast the dimensions, since a stack needs terms of the same shape
+    H1, D1, H2, D2 = np.broadcast_arrays(H1, D1, H2, D2)
     if reaSource and imgSource:
         # Full (real + image) FLS solution
         p = np.array([1, -1, 1, -1, 1, -1, 1, -1])
@@ -1292,6 +1296,8 @@ def _finite_line_source_equivalent_boreholes_integrand(dis, wDis, H1, D1, H2, D2
     rules.
 
     """
+    # Broadcast the dimensions, since a stack needs terms of the same shape
+    H1, D1, H2, D2 = np.broadcast_arrays(H1, D1, H2, D2)
     if reaSource and imgSource:
         # Full (real + image) FLS solution
         p = np.array([1, -1, 1, -1, 1, -1, 1, -1])
@@ -1361,6 +1367,8 @@ def _finite_line_source_steady_state(dis, H1, D1, H2, D2, reaSource, imgSource):
     rules.
 
     """
+    # Broadcast the dimensions, since a stack needs terms of the same shape
+    H1, D1, H2, D2 = np.broadcast_arrays(H1, D1, H2, D2)
     # Steady-state solution
     if reaSource and imgSource:
         # Full (real + image) FLS solution
-- 
2.43.0


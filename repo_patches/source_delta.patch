From 974218456f8e6ed2e0fee7c033d8eb0be39d10ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:25 +0000
Subject: [PATCH 01/35] fix: make_complex_matrix slices with integers (it
 raised TypeError on every input)

---
 src/models/gpu_matrix_operations.py | 2 +-
 src/models/matrix_operations.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/models/gpu_matrix_operations.py b/src/models/gpu_matrix_operations.py
index 9183c68..3280446 100644
--- a/src/models/gpu_matrix_operations.py
+++ b/src/models/gpu_matrix_operations.py
@@ -93,4 +93,4 @@ def make_complex_matrix(m):
     :param m: block 2x2 real matrix as numpy/scipy array
     :return: complex matrix as numpy/scipy array
     """
-    return m[:m.shape[0]/2, :m.shape[1]/2] + 1j * m[m.shape[0]/2:, :m.shape[1]/2]
+    return m[:m.shape[0]//2, :m.shape[1]//2] + 1j * m[m.shape[0]//2:, :m.shape[1]//2]
diff --git a/src/models/matrix_operations.py b/src/models/matrix_operations.py
index c9c93e9..63c9bb0 100644
--- a/src/models/matrix_operations.py
+++ b/src/models/matrix_operations.py
@@ -93,7 +93,7 @@ def make_complex_matrix(m):
     :param m: block 2x2 real matrix as numpy/scipy array
     :return: complex matrix as numpy/scipy array
     """
-    return m[:m.shape[0]/2, :m.shape[1]/2] + 1j * m[m.shape[0]/2:, :m.shape[1]/2]
+    return m[:m.shape[0]//2, :m.shape[1]//2] + 1j * m[m.shape[0]//2:, :m.shape[1]//2]
 
 
 def duplication_matrix(n):
-- 
2.43.0


From 25f8af34b245cf56dd15296c41f025560e5a6b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:56 +0000
Subject: [PATCH 02/35] fix: SparseSmoothPrior.log_distribution with a single
 term (scalar operand in a sparse product)

---
 src/models/smooth_prior.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/models/smooth_prior.py b/src/models/smooth_prior.py
index c9a3c2c..b197edd 100644
--- a/src/models/smooth_prior.py
+++ b/src/models/smooth_prior.py
@@ -143,7 +143,7 @@ class SparseSmoothPrior(SmoothPrior):
         W = sparse.diags(np.divide(1, w), format='csr')
 
         A = self.L.T @ W @ self.L
-        b = self.L.T @ W @ self.mu.squeeze()
+        b = self.L.T @ W @ self.mu
 
         return A, b, np.sum(w)
 
-- 
2.43.0


From d7106bdc45aec25debae30d0219c955f53202b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:44 +0000
Subject: [PATCH 03/35] fix: fisher_info assigns each sample its own weight
 (the Kronecker factors were swapped)

---
 src/models/error_in_variable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/models/error_in_variable.py b/src/models/error_in_variable.py
index 345a477..02d85aa 100644
--- a/src/models/error_in_variable.py
+++ b/src/models/error_in_variable.py
@@ -106,7 +106,7 @@ class TotalLeastSquares(GridIdentificationModel, UnweightedModel):
 
         bigy = sp.kron(sp.eye(samples, dtype=cp.float64), y[:, None], format='csr')
         Ws = bigy.T @ sp.kron(perm @ x_cov @ perm.T, sp.eye(n, dtype=cp.float64)) @ bigy
-        Ws = (perm.T @ sp.kron(sp.eye(2*n, dtype=cp.float64), Ws) @ perm) + z_cov
+        Ws = (perm.T @ sp.kron(Ws, sp.eye(2*n, dtype=cp.float64)) @ perm) + z_cov
 
         #inverse of W
         w1 = Ws[:, n*samples:][n*samples:, :].diagonal()
-- 
2.43.0


From 86fcc493e396b7c213abc40a1ecdf1fcd30e62e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:18 +0000
Subject: [PATCH 04/35] fix: BayesianRegression default parameter builders
 (sparse.eye cannot be converted by fit)

---
 src/models/regression.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/models/regression.py b/src/models/regression.py
index 9b576fa..da4cfc3 100644
--- a/src/models/regression.py
+++ b/src/models/regression.py
@@ -53,7 +53,7 @@ class BayesianRegression(GridIdentificationModel):
     """
 
     def __init__(self, prior, lambda_value=10e-2, abs_tol=10e-6, rel_tol=10e-6, max_iterations=50, verbose=True,
-                 dt_matrix_builder=lambda n: sparse.eye(n*n), e_matrix_builder=lambda n: sparse.eye(n*n)):
+                 dt_matrix_builder=lambda n: np.eye(n*n), e_matrix_builder=lambda n: np.eye(n*n)):
         """
         :param prior: Bayesian prior for the estimation
         :param lambda_value: initial or fixed sparsity parameter
-- 
2.43.0


From f6186d0baa1a1c25c0a933b24af059fa886eb8fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:18 +0000
Subject: [PATCH 05/35] fix: fit starts with an empty iteration history (stale
 iterations of an earlier fit decided when to stop)

---
 src/models/error_in_variable.py | 1 +
 src/models/regression.py        | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/models/error_in_variable.py b/src/models/error_in_variable.py
index 02d85aa..d60f66d 100644
--- a/src/models/error_in_variable.py
+++ b/src/models/error_in_variable.py
@@ -210,6 +210,7 @@ class BayesianEIVRegression(GridIdentificationModel, MisfitWeightedModel):
             z_weight = sp.csr_matrix(x_weight, dtype=cp.float32)
 
         y_mat = y_init
+        self._iterations = []
         M, mu, penalty = self.prior.log_distribution(y.get() if conf.GPU_AVAILABLE else y)
 
         # start iterating
diff --git a/src/models/regression.py b/src/models/regression.py
index da4cfc3..1bb0b0a 100644
--- a/src/models/regression.py
+++ b/src/models/regression.py
@@ -120,6 +120,7 @@ class BayesianRegression(GridIdentificationModel):
         b = make_real_vector(vectorize_matrix(z))
 
         y_mat = y_init
+        self._iterations = []
         M, mu, penalty = self.prior.log_distribution(y.get() if conf.GPU_AVAILABLE else y)
 
         # start iterating
-- 
2.43.0


From 52af03edb2523d39e423b28fd39cbe119bd13d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:18 +0000
Subject: [PATCH 06/35] fix: BayesianEIVRegression.fit uses the current weights
 it is given (it used the voltage weights twice)

---
 src/models/error_in_variable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/models/error_in_variable.py b/src/models/error_in_variable.py
index d60f66d..52cb36f 100644
--- a/src/models/error_in_variable.py
+++ b/src/models/error_in_variable.py
@@ -207,7 +207,7 @@ class BayesianEIVRegression(GridIdentificationModel, MisfitWeightedModel):
         if x_weight is not None:
             x_weight = sp.csr_matrix(x_weight, dtype=cp.float32)
         if z_weight is not None:
-            z_weight = sp.csr_matrix(x_weight, dtype=cp.float32)
+            z_weight = sp.csr_matrix(z_weight, dtype=cp.float32)
 
         y_mat = y_init
         self._iterations = []
-- 
2.43.0


From b48e1e6c3ee25b14a89be4b938cb7411da03ab5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:59 +0000
Subject: [PATCH 07/35] fix: regression module imports scipy.sparse.linalg
 (BayesianRegression.fit raised AttributeError when used alone)

---
 src/models/regression.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/models/regression.py b/src/models/regression.py
index 1bb0b0a..ca2f3d3 100644
--- a/src/models/regression.py
+++ b/src/models/regression.py
@@ -3,6 +3,7 @@ from typing import Tuple
 import numpy as np
 from scipy import sparse
 from scipy.linalg import pinv
+from scipy.sparse.linalg import spsolve
 from tqdm import tqdm
 
 from conf import conf
-- 
2.43.0


From 073cf6314e19cfe890cc4ee4684834387688bf08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:16 +0000
Subject: [PATCH 08/35] fix: weighted voltage correction uses the transpose of
 the admittance in vec(V Y) (wrong for a non-symmetric estimate)

---
 src/models/error_in_variable.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/models/error_in_variable.py b/src/models/error_in_variable.py
index 52cb36f..41317d3 100644
--- a/src/models/error_in_variable.py
+++ b/src/models/error_in_variable.py
@@ -217,8 +217,8 @@ class BayesianEIVRegression(GridIdentificationModel, MisfitWeightedModel):
         for it in (tqdm(range(self._max_iterations)) if self._verbose else range(self._max_iterations)):
             if z_weight is not None and x_weight is not None:
                 # Create \bar Y from y
-                real_beta_kron = sp.kron(cp.real(y_mat), sp.eye(samples), format='csr')
-                imag_beta_kron = sp.kron(cp.imag(y_mat), sp.eye(samples), format='csr')
+                real_beta_kron = sp.kron(cp.real(y_mat).T, sp.eye(samples), format='csr')
+                imag_beta_kron = sp.kron(cp.imag(y_mat).T, sp.eye(samples), format='csr')
                 underline_y = sp.bmat([[real_beta_kron, -imag_beta_kron],
                                            [imag_beta_kron, real_beta_kron]], format='csr')
 
-- 
2.43.0


From 849803442534aae32f7fba195685a96531d439ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:36 +0000
Subject: [PATCH 09/35] fix: three-phase make_y_bus builds the sequence
 matrices of the lines (runpp_3ph does not provide them; it always raised)

---
 src/simulation/network_3ph.py | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/src/simulation/network_3ph.py b/src/simulation/network_3ph.py
index f6abec3..202f2a5 100644
--- a/src/simulation/network_3ph.py
+++ b/src/simulation/network_3ph.py
@@ -2,6 +2,8 @@ import numpy as np
 import pandapower as pp
 import pandas as pd
 from pandapower.control import ConstControl
+from pandapower.pypower.idx_bus import GS, BS
+from pandapower.pypower.makeYbus import makeYbus
 from pandapower.timeseries import DFData
 from src.simulation.abstract_network import Net, ext_sc_carac
 from src.simulation.lines import admittance_sequence_to_phase
@@ -106,20 +108,15 @@ class NetData3P(Net):
         run_net = self.deepcopy()
         pp.runpp_3ph(run_net, numba=False)
 
-        if type(run_net['_ppc0']['internal']['Ybus']) is not np.ndarray:
-            y_bus0 = run_net['_ppc0']['internal']['Ybus'].todense()
-        else:
-            y_bus0 = run_net['_ppc0']['internal']['Ybus']
-
-        if type(run_net['_ppc1']['internal']['Ybus']) is not np.ndarray:
-            y_bus1 = run_net['_ppc1']['internal']['Ybus'].todense()
-        else:
-            y_bus1 = run_net['_ppc1']['internal']['Ybus']
-
-        if type(run_net['_ppc2']['internal']['Ybus']) is not np.ndarray:
-            y_bus2 = run_net['_ppc2']['internal']['Ybus'].todense()
-        else:
-            y_bus2 = run_net['_ppc2']['internal']['Ybus']
+        # runpp_3ph does not keep the zero and negative sequence matrices, and those it uses contain the
+        # short-circuit impedance of the external grid, which is no part of the lines.
+        y_bus = []
+        for ppc in (run_net['_ppc0'], run_net['_ppc1'], run_net['_ppc2']):
+            bus = np.array(ppc['bus'])
+            pcc = run_net['_pd2ppc_lookups']['bus'][run_net.ext_grid.bus.values]
+            bus[np.ix_(pcc, [GS, BS])] = 0
+            y_bus.append(makeYbus(ppc['baseMVA'], bus, ppc['branch'])[0].todense())
+        y_bus0, y_bus1, y_bus2 = y_bus
 
         y_012 = np.kron(y_bus0, np.diag([1, 0, 0])) + np.kron(y_bus1, np.diag([0, 1, 0])) \
                 + np.kron(y_bus2, np.diag([0, 0, 1]))
-- 
2.43.0


From 54bccc912d2f0dce3820a5f6fcda2154c1e46f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:52 +0000
Subject: [PATCH 10/35] fix: remove_lines drops the lines (it dropped the buses
 of the same indices)

---
 src/simulation/abstract_network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simulation/abstract_network.py b/src/simulation/abstract_network.py
index 5b1f7c9..d043669 100644
--- a/src/simulation/abstract_network.py
+++ b/src/simulation/abstract_network.py
@@ -56,7 +56,7 @@ class Net(pp.pandapowerNet, ABC):
         pp.drop_lines(self, line)
 
     def remove_lines(self, lines):
-        pp.drop_buses(self, lines)
+        pp.drop_lines(self, lines)
 
     def give_passive_nodes(self):
         """
-- 
2.43.0


From 6d8aa6f0623df55ae555d511037668352a15c4e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:52 +0000
Subject: [PATCH 11/35] fix: remove_line accepts the index of a line like
 remove_bus (drop_lines needs a list)

---
 src/simulation/abstract_network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simulation/abstract_network.py b/src/simulation/abstract_network.py
index d043669..4ee5e4a 100644
--- a/src/simulation/abstract_network.py
+++ b/src/simulation/abstract_network.py
@@ -53,7 +53,7 @@ class Net(pp.pandapowerNet, ABC):
         pp.drop_buses(self, bus)
 
     def remove_line(self, line):
-        pp.drop_lines(self, line)
+        pp.drop_lines(self, [line])
 
     def remove_lines(self, lines):
         pp.drop_lines(self, lines)
-- 
2.43.0


From a5e0616d8f6ce9a2e82afd64b6cc0ec171131614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:52 +0000
Subject: [PATCH 12/35] fix: NetData without a list of lines (the default
 checked the list of buses)

---
 src/simulation/network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simulation/network.py b/src/simulation/network.py
index 25eb560..1b239b6 100644
--- a/src/simulation/network.py
+++ b/src/simulation/network.py
@@ -18,7 +18,7 @@ class NetData(Net):
     def __init__(self, ns: list=None, ls: list=None, other=None):
         Net.__init__(self, other)
         ns = [] if ns is None else ns
-        ls = [] if ns is None else ls
+        ls = [] if ls is None else ls
 
         self.create_buses(ns)
         self.create_lines(ls)
-- 
2.43.0


From 165900ef677a4337f98d75647aa2d54d7dd4b26a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:52 +0000
Subject: [PATCH 13/35] fix: NetData.create_line looks buses up by their name
 (names are strings, it never found one)

---
 src/simulation/network.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/simulation/network.py b/src/simulation/network.py
index 1b239b6..e31b1b4 100644
--- a/src/simulation/network.py
+++ b/src/simulation/network.py
@@ -58,8 +58,8 @@ class NetData(Net):
         """
         if f > t:
             f, t = t, f
-        pp.create_line_from_parameters(self, pp.get_element_index(self, "bus", f),
-                                       pp.get_element_index(self, "bus", t),
+        pp.create_line_from_parameters(self, pp.get_element_index(self, "bus", str(f)),
+                                       pp.get_element_index(self, "bus", str(t)),
                                        l, r / l, x / l, 0, 1e10, "(" + str(f) + "," + str(t) + ")")
         return self
 
-- 
2.43.0


From 8e3a6b1df0390ad59ede53dd440a0ab38b405d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:52 +0000
Subject: [PATCH 14/35] fix: create_lines_from_ybus reads the voltage by
 position like the rest (bus ids need not start from 0)

---
 src/simulation/network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simulation/network.py b/src/simulation/network.py
index e31b1b4..242e4cd 100644
--- a/src/simulation/network.py
+++ b/src/simulation/network.py
@@ -92,7 +92,7 @@ class NetData(Net):
         for i in range(y_bus.shape[0]):
             for j in range(i):
                 if np.abs(y_bus[i, j]) > 0:
-                    y = -y_bus[i, j]/(self.bus.vn_kv[i]*self.bus.vn_kv[i])*self.sn_mva
+                    y = -y_bus[i, j]/(self.bus.vn_kv.values[i]*self.bus.vn_kv.values[i])*self.sn_mva
                     pp.create_line_from_parameters(self, pp.get_element_index(self, "bus", str(self.bus.index[i])),
                                                    pp.get_element_index(self, "bus", str(self.bus.index[j])),
                                                    1.0, np.real(1.0/y), np.imag(1.0/y), 0, 1e10,
-- 
2.43.0


From 86de7ba8195dc7f45ec479b0548c8e0896af683b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:55 +0000
Subject: [PATCH 15/35] fix: give_passive_nodes looks at the buses of all loads
 (it looked buses up in the load index, and only at one load)

---
 src/simulation/abstract_network.py | 23 ++++++++---------------
 1 file changed, 8 insertions(+), 15 deletions(-)

diff --git a/src/simulation/abstract_network.py b/src/simulation/abstract_network.py
index 4ee5e4a..e23ecb2 100644
--- a/src/simulation/abstract_network.py
+++ b/src/simulation/abstract_network.py
@@ -73,21 +73,14 @@ class Net(pp.pandapowerNet, ABC):
             else:
                 passive = (True, True, True)
 
-                if idx in self.load.bus:
-                    passive = passive if self.load.p_mw[self.load.bus[self.load.bus == idx].index.values[0]] == 0 \
-                                           and self.load.q_mvar[
-                                               self.load.bus[self.load.bus == idx].index.values[0]] == 0 else (
-                    False, False, False)
-
-                if idx in self.asymmetric_load.bus:
-                    idxload = self.asymmetric_load.bus[self.asymmetric_load.bus == idx].index.values[0]
-                    passive = passive[0] if \
-                        self.asymmetric_load.p_a_mw[idxload] == 0 and self.asymmetric_load.q_a_mvar[idxload] == 0 \
-                        else False, passive[1] if \
-                        self.asymmetric_load.p_b_mw[idxload] == 0 and self.asymmetric_load.q_b_mvar[idxload] == 0 \
-                        else False, passive[2] if \
-                        self.asymmetric_load.p_c_mw[idxload] == 0 and self.asymmetric_load.q_c_mvar[idxload] == 0 \
-                        else False
+                loads = self.load[self.load.bus == idx]
+                if (loads.p_mw != 0).any() or (loads.q_mvar != 0).any():
+                    passive = (False, False, False)
+
+                loads = self.asymmetric_load[self.asymmetric_load.bus == idx]
+                passive = (passive[0] and not ((loads.p_a_mw != 0).any() or (loads.q_a_mvar != 0).any()),
+                           passive[1] and not ((loads.p_b_mw != 0).any() or (loads.q_b_mvar != 0).any()),
+                           passive[2] and not ((loads.p_c_mw != 0).any() or (loads.q_c_mvar != 0).any()))
 
             for i in range(3):
                 if passive[i]:
-- 
2.43.0


From 859cc1610a0e6352095896ca6c1ac01ad92c3001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:30 +0000
Subject: [PATCH 16/35] fix: three-phase generate_loads with Gaussian loads
 (missing import, wrong phase order, wrong shape of the symmetric loads)

---
 src/simulation/run3ph.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/simulation/run3ph.py b/src/simulation/run3ph.py
index e362fda..4fe1f0a 100644
--- a/src/simulation/run3ph.py
+++ b/src/simulation/run3ph.py
@@ -2,7 +2,7 @@ import numpy as np
 
 from conf import conf, simulation
 from src.simulation.simulation_3ph import SimulatedNet3P
-from src.simulation.load_profile import load_profile_from_numpy
+from src.simulation.load_profile import load_profile_from_numpy, generate_gaussian_load
 from src.simulation.noise import filter_and_resample_measurement, add_polar_noise_to_measurement
 from src.simulation import net_templates_3ph
 from src.simulation.net_templates_3ph import ieee123_types
@@ -119,7 +119,14 @@ def generate_loads(net, load_params=None, verbose=True):
                                                    [net.asymmetric_load.q_c_mvar[net.asymmetric_load.q_c_mvar.index[i]]
                                                     for i in range(len(net.asymmetric_load.q_c_mvar))]))
 
-            load_p, load_q = np.zeros_like(load_asym[0]), np.zeros_like(load_asym[0])
+            # phases a, b, c of the active powers, then of the reactive ones, as for the profiles
+            load_asym = tuple(load_asym[i] for i in [0, 2, 4, 1, 3, 5])
+
+            load_p, load_q = generate_gaussian_load(load_std, len(times),
+                                                    load_p_reference=np.array([net.load.p_mw[net.load.p_mw.index[i]]
+                                                                               for i in range(len(net.load.p_mw))]),
+                                                    load_q_reference=np.array([net.load.q_mvar[net.load.q_mvar.index[i]]
+                                                                               for i in range(len(net.load.q_mvar))]))
             pprint("Done!")
 
         a = simulation.load_constantness
-- 
2.43.0


From a6fe6795d00b1723a169fb161311a3e15ce3d3a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:03 +0000
Subject: [PATCH 17/35] fix: three-phase sensor ratings follow the columns of
 the measurements (they were ordered by phase, and the grid connection looked
 up in the loads)

---
 src/simulation/run3ph.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/simulation/run3ph.py b/src/simulation/run3ph.py
index 4fe1f0a..110f993 100644
--- a/src/simulation/run3ph.py
+++ b/src/simulation/run3ph.py
@@ -253,13 +253,14 @@ def add_noise_and_filter(net, voltage, current, times, fmeas, steps, noise_param
     pmu_ratings = np.tile(pmu_safety_factor, (1, len(net.bus.index))) * total_loads
 
     # External grid connections provide power for all loads
-    for i in range(len(net.load.bus)):
-        if net.load.bus.iloc[i] in net.ext_grid.bus.values:
+    for i in range(len(net.bus.index)):
+        if net.bus.index[i] in net.ext_grid.bus.values:
             pmu_ratings[0, i] = np.sum(pmu_ratings[0, :])
             pmu_ratings[1, i] = np.sum(pmu_ratings[1, :])
             pmu_ratings[2, i] = np.sum(pmu_ratings[2, :])
 
-    pmu_ratings = pmu_ratings.reshape((3 * len(net.bus.index),))
+    # One rating per column of the measurements, which are ordered by bus first and then by phase
+    pmu_ratings = pmu_ratings.T.reshape((3 * len(net.bus.index),))
 
     ts = np.linspace(0, np.max(times), round(np.max(times) * fmeas))
     fparam = int(np.floor(ts.size / steps))
-- 
2.43.0


From 3b9f52dd4a00f637914028827e92a74bdb11db6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:03 +0000
Subject: [PATCH 18/35] fix: three-phase add_noise_and_filter returns the block
 length with equivalent noise too (identification scales the noise with it)

---
 src/simulation/run3ph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/simulation/run3ph.py b/src/simulation/run3ph.py
index 110f993..b9906f9 100644
--- a/src/simulation/run3ph.py
+++ b/src/simulation/run3ph.py
@@ -264,6 +264,7 @@ def add_noise_and_filter(net, voltage, current, times, fmeas, steps, noise_param
 
     ts = np.linspace(0, np.max(times), round(np.max(times) * fmeas))
     fparam = int(np.floor(ts.size / steps))
+    fparam_ret = fparam
 
     if noise_params is not None:
         # Noise Generation
@@ -324,7 +325,7 @@ def add_noise_and_filter(net, voltage, current, times, fmeas, steps, noise_param
         noisy_voltage, noisy_current, voltage, current = sim_IV["v"], sim_IV["i"], sim_IV["w"], sim_IV["j"]
         pprint("Done!")
 
-    return noisy_voltage, noisy_current, voltage, current, pmu_ratings, fparam
+    return noisy_voltage, noisy_current, voltage, current, pmu_ratings, fparam_ret
 
 
 def reduce_network(net, voltage, current, hidden_nodes, laplacian=False, reduce_single=True, verbose=True):
-- 
2.43.0


From 257cc7e0f82608029f33db0deb2d8c5d65ca9657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:50 +0000
Subject: [PATCH 19/35] fix: reduce_network with hidden nodes (sign of their
 loads, indices shifted by the grid connection)

---
 src/simulation/run.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/simulation/run.py b/src/simulation/run.py
index e0f3961..6b64af1 100644
--- a/src/simulation/run.py
+++ b/src/simulation/run.py
@@ -272,23 +272,24 @@ def reduce_network(net, voltage, current, hidden_nodes, laplacian=False, verbose
     passive_idx = [net.bus.index.tolist().index(idx) for idx in net.give_passive_nodes()[0]]
     hidden_idx = [net.bus.index.tolist().index(idx) for idx in hidden_nodes]
     pcc_idx = [net.bus.index.tolist().index(idx) for idx in net.ext_grid.bus.values]
-    idx_todel = list(set(hidden_idx).union(passive_idx))
     hidden_idx = [idx for idx in hidden_idx if idx not in pcc_idx]
+    idx_tored = list(set(hidden_idx).union(passive_idx))
+    idx_todel = idx_tored if laplacian else list(set(idx_tored).union(pcc_idx))
+
+    # Loads of hidden nodes, such that current = shunts * voltage
+    shunts = np.zeros(y_bus.shape[0], dtype=y_bus.dtype)
+    shunts[hidden_idx] = np.divide(np.mean(current[:, hidden_idx], axis=0), np.mean(voltage[:, hidden_idx], axis=0))
+    y_bus = y_bus - np.diag(shunts)
 
     # subKron reducing the ext_grid
     if not laplacian:
         y_bus = np.delete(np.delete(y_bus, pcc_idx, axis=1), pcc_idx, axis=0)
 
         # Shift larger indices because y_bus gets smaller
-        for i in pcc_idx:
-            hidden_idx = [(idx - 1 if idx > i else idx) for idx in hidden_idx]
-            passive_idx = [(idx - 1 if idx > i else idx) for idx in passive_idx]
+        idx_tored = [idx - sum(i < idx for i in pcc_idx) for idx in idx_tored]
 
     # Kron reduction of passive and hidden nodes
-    shunts = np.zeros(y_bus.shape[0], dtype=y_bus.dtype)
-    shunts[hidden_idx] = np.divide(np.mean(current[:, hidden_idx], axis=0), np.mean(voltage[:, hidden_idx], axis=0))
-    y_bus = net.kron_reduction(list(set(hidden_idx).union(passive_idx).difference(pcc_idx)),
-                               y_bus + np.diag(shunts))
+    y_bus = net.kron_reduction(idx_tored, y_bus)
     pprint("Done!")
     pprint("reduced nodes: " + str(np.array(idx_todel) + 1))
 
-- 
2.43.0


From 9f7c9be7867549181c857aad615e7afdd15b4a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:05 +0000
Subject: [PATCH 20/35] fix: three-phase reduce_network (float indices, sign of
 the hidden loads, grid connection not first or kept, partly passive nodes)

---
 src/simulation/run3ph.py | 35 +++++++++++++++++++----------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/src/simulation/run3ph.py b/src/simulation/run3ph.py
index b9906f9..8cbc7cb 100644
--- a/src/simulation/run3ph.py
+++ b/src/simulation/run3ph.py
@@ -355,12 +355,7 @@ def reduce_network(net, voltage, current, hidden_nodes, laplacian=False, reduce_
     y_bus = net.make_y_bus()
 
     pprint("Kron reducing loads with no current...")
-    idx_todel = []
-    # subKron reducing the ext_grid
-    for idx in net.ext_grid.bus.values:
-        i = 3 * net.bus.index.tolist().index(idx)
-        idx_todel.extend([i, i + 1, i + 2])
-        y_bus = np.delete(np.delete(y_bus, [i, i + 1, i + 2], axis=1), [i, i + 1, i + 2], axis=0)
+    pcc_idx = [3 * net.bus.index.tolist().index(idx) + ph for idx in net.ext_grid.bus.values for ph in range(3)]
 
     passive_nodes = net.give_passive_nodes()
     if not reduce_single:
@@ -375,16 +370,24 @@ def reduce_network(net, voltage, current, hidden_nodes, laplacian=False, reduce_
             idx_tored.append(3 * net.bus.index.tolist().index(idx) + ph)
         for idx in hidden_nodes:
             i = 3 * net.bus.index.tolist().index(idx) + ph
-            idx_tored.append(i)
-            shunts[i] = np.divide(np.mean(current[:, i], axis=0), np.mean(voltage[:, i], axis=0))
-
-    idx_tored = np.array(idx_tored)
-    y_bus = admittance_phase_to_sequence(y_bus + np.diag(shunts))
-    y_bus = np.kron(net.kron_reduction(idx_tored[idx_tored % 3 == 0]/3, y_bus[::3,::3]), np.diag([1, 0, 0])) \
-            + np.kron(net.kron_reduction((idx_tored[idx_tored % 3 == 1] - 1)/3, y_bus[1::3,1::3]), np.diag([0, 1, 0])) \
-            + np.kron(net.kron_reduction((idx_tored[idx_tored % 3 == 2] - 2)/3, y_bus[2::3,2::3]), np.diag([0, 0, 1]))
-    y_bus = admittance_sequence_to_phase(y_bus)
-    idx_todel.extend(idx_tored.tolist())
+            if i not in pcc_idx:
+                idx_tored.append(i)
+                # Loads of hidden nodes, such that current = shunts * voltage
+                shunts[i] = np.divide(np.mean(current[:, i], axis=0), np.mean(voltage[:, i], axis=0))
+
+    idx_tored = list(set(idx_tored))
+    idx_todel = idx_tored if laplacian else list(set(idx_tored).union(pcc_idx))
+    y_bus = y_bus - np.diag(shunts)
+
+    # subKron reducing the ext_grid
+    if not laplacian:
+        y_bus = np.delete(np.delete(y_bus, pcc_idx, axis=1), pcc_idx, axis=0)
+
+        # Shift larger indices because y_bus gets smaller
+        idx_tored = [idx - sum(i < idx for i in pcc_idx) for idx in idx_tored]
+
+    # Reducing in phase values, because a node may be reduced on some of its phases only
+    y_bus = net.kron_reduction(idx_tored, y_bus)
 
     pprint("Done!")
     pprint("reduced elements: " + str(np.array(idx_todel) + 1))
-- 
2.43.0


From f00e72eb52f7aae18e4ca10930a5972b23dcf447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:18 +0000
Subject: [PATCH 21/35] fix: identify_network --uncertainty (undefined
 variable)

---
 identify_network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/identify_network.py b/identify_network.py
index 9055694..d18ddef 100644
--- a/identify_network.py
+++ b/identify_network.py
@@ -107,7 +107,7 @@ def identify(network, max_iterations, standard, bayesian_eiv, continue_id, phase
         pprint("Done!")
 
     # Error covariance analysis
-    if uncertainty and not three_phases and not unsynchronized:
+    if uncertainty and not three_phased and not unsynchronized:
         fim_wtls, cov_wtls, expected_max_rrms = run_fcns.eiv_fim(name, voltage, current,
                                                                  voltage_magnitude_sd + 1j * voltage_phase_sd,
                                                                  current_magnitude_sd + 1j * current_phase_sd,
-- 
2.43.0


From 913c2cf834859d423f0a91349777548d0a7f1b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:18 +0000
Subject: [PATCH 22/35] fix: identify_network --continue-id appends the
 iterations (arrays cannot be extended, and extend returns None)

---
 identify_network.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/identify_network.py b/identify_network.py
index d18ddef..c2cc02d 100644
--- a/identify_network.py
+++ b/identify_network.py
@@ -84,7 +84,7 @@ def identify(network, max_iterations, standard, bayesian_eiv, continue_id, phase
         sim_STLS = np.load(conf.conf.DATA_DIR / ("simulations_output/bayesian_results_" + name + ".npz"),
                            allow_pickle=True)
         y_init = sim_STLS["y"]
-        sparse_tls_cov_old_iterations = sim_STLS["i"]
+        sparse_tls_cov_old_iterations = sim_STLS["i"].tolist()
         pprint("Done!")
     else:
         y_init = (y_tls + y_tls.T).copy()/2
@@ -98,8 +98,8 @@ def identify(network, max_iterations, standard, bayesian_eiv, continue_id, phase
                                                                         weighted, max_iterations if redo_STLS else 0,
                                                                         not unsynchronized, verbose)
 
-    if continue_id:
-        sparse_tls_cov_iterations = sparse_tls_cov_old_iterations.extend(sparse_tls_cov_iterations)
+    if continue_id and redo_STLS:
+        sparse_tls_cov_iterations = sparse_tls_cov_old_iterations + list(sparse_tls_cov_iterations)
 
         pprint("Saving updated result...")
         sim_STLS = {'y': y_sparse_tls_cov, 'i': sparse_tls_cov_iterations}
-- 
2.43.0


From 9e4fc25e60df0c302c820d870135bacdf4210aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:18 +0000
Subject: [PATCH 23/35] fix: contrast prior on all parameters is centred on
 their sum (it was centred on -2 times the sum)

---
 src/identification/run.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/identification/run.py b/src/identification/run.py
index 955a7cb..11a8535 100644
--- a/src/identification/run.py
+++ b/src/identification/run.py
@@ -136,7 +136,8 @@ def build_complex_prior(nodes, lambdaprime, y_tls, laplacian=False,
 
     else:
         prior.add_contrast_prior(indices=np.vstack(tuple(np.split(idx_offdiag, 2))),
-                                 values=-np.sum(np.vstack(tuple(np.split(values_contrast, 2))), axis=1).squeeze(),
+                                 # every off-diagonal element is in two rows
+                                 values=0.5 * np.sum(np.vstack(tuple(np.split(values_contrast, 2))), axis=1).squeeze(),
                                  weights=lambdaprime*np.array([1, -1]),
                                  orders=SmoothPrior.LAPLACE)
 
-- 
2.43.0


From e739fb2a2f7997d4e159d8a31722e522ad8942dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:18 +0000
Subject: [PATCH 24/35] fix: three-phase bayesian_eiv without iterations loads
 the stored result (the result of all sequences was read for each of them)

---
 src/identification/run3ph.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/identification/run3ph.py b/src/identification/run3ph.py
index cb0e983..c11bcb9 100644
--- a/src/identification/run3ph.py
+++ b/src/identification/run3ph.py
@@ -243,6 +243,12 @@ def bayesian_eiv(name, voltage, current, phases_ids, voltage_sd_polar, current_s
     else:
         pprint = lambda a: None
 
+    if max_iterations <= 0:
+        pprint("Loading STLS result...")
+        sim_STLS = np.load(DATA_DIR / ("simulations_output/bayesian_results_" + name + ".npz"), allow_pickle=True)
+        pprint("Done!")
+        return sim_STLS["y"], sim_STLS["i"]
+
     y_fin = np.zeros_like(y_init)
 
     if np.any(phases_ids == 0):
-- 
2.43.0


From 5fdb060b181353ad303b159c0d42517fbca701aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:19 +0000
Subject: [PATCH 25/35] fix: prior with regularize_diag and a Laplacian (values
 without indices, log_distribution raised)

---
 src/identification/run.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/identification/run.py b/src/identification/run.py
index 11a8535..93329d7 100644
--- a/src/identification/run.py
+++ b/src/identification/run.py
@@ -126,7 +126,8 @@ def build_complex_prior(nodes, lambdaprime, y_tls, laplacian=False,
                                  weights=lambdaprime * np.concatenate((-np.ones(nodes), np.ones(nodes))),
                                  orders=SmoothPrior.LAPLACE)
 
-        if regularize_diag:
+        # Diagonal elements are not parameters of a Laplacian
+        if regularize_diag and not laplacian:
             idx_diag = np.where(np.abs(make_real_vector((1+1j)*E @ vectorize_matrix(np.eye(nodes)))) > 0)[0]
 
             prior.add_exact_adaptive_prior(indices=idx_diag,
-- 
2.43.0


From 1384d3095299b558f0b2a7d5e58d8c2bdb88a4ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:10 +0000
Subject: [PATCH 26/35] fix: add_known_lines with the suboptimal lines
 ("suboptimal" contains "optimal", that branch was never reached)

---
 src/identification/run.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/identification/run.py b/src/identification/run.py
index 93329d7..beef80f 100644
--- a/src/identification/run.py
+++ b/src/identification/run.py
@@ -172,7 +172,7 @@ def add_known_lines(nodes, prior, lambdaprime, y_bus, laplacian=False, prior_typ
     tls_bus_weights = np.zeros_like(y_bus)
     tls_bus_centers = np.zeros_like(y_bus)
 
-    if "optimal" in prior_type:
+    if "optimal" in prior_type and "suboptimal" not in prior_type:
         # Node 2
         tls_bus_weights[0, :], tls_bus_weights[:, 0] = (1+1j), (1+1j)
         tls_bus_weights[0, 0] = 0
-- 
2.43.0


From d2e393fa2c3f5356b0a875cfa122e2172c3bb9d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:05 +0000
Subject: [PATCH 27/35] fix: bolognani21 template connects bus 20 to bus 19 as
 in the full network (it was connected to the grid connection)

---
 src/simulation/net_templates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simulation/net_templates.py b/src/simulation/net_templates.py
index e525738..444eee6 100644
--- a/src/simulation/net_templates.py
+++ b/src/simulation/net_templates.py
@@ -253,7 +253,7 @@ bolognani21_net = \
      LineData(16, 17, 150, None, 0.0005024484*17.3, 0.0010294060*17.3, 1.13538851848272E-008, 100, 100, 100, 0, 0, 1, -360, 360),
      LineData(16, 18, 250, None, 0.0008374139*17.3, 0.0017156767*17.3, 1.89231419747120E-008, 100, 100, 100, 0, 0, 1, -360, 360),
      LineData(18, 19, 250, None, 0.0008374139*17.3, 0.0017156767*17.3, 1.89231419747120E-008, 100, 100, 100, 0, 0, 1, -360, 360),
-     LineData(20, 21, 250, None, 0.0008374139*17.3, 0.0017156767*17.3, 1.89231419747120E-008, 100, 100, 100, 0, 0, 1, -360, 360)]
+     LineData(19, 20, 250, None, 0.0008374139*17.3, 0.0017156767*17.3, 1.89231419747120E-008, 100, 100, 100, 0, 0, 1, -360, 360)]
 
 
 cigre_mv_feeder1_bus = \
-- 
2.43.0


From 16476b1af60ee1a477cf62fc1729d8e8e01700f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:29 +0000
Subject: [PATCH 28/35] fix: plot_series with labels (typo in the name of the
 plot function, it always raised)

---
 src/identification/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/identification/utils.py b/src/identification/utils.py
index c7a38e8..39b5fcc 100644
--- a/src/identification/utils.py
+++ b/src/identification/utils.py
@@ -131,8 +131,8 @@ def plot_series(m: np.array, name: str, labels=None, s=10, colormap='hsv', ar=No
         if labels is None or len(labels) != m.shape[1]:
             ax1.plot(np.arange(m.shape[0]), m[:, i], linewidth=s, linestyle='solid', color=cmap[i])
         else:
-            ax1.scaplottter(np.arange(m.shape[0]), m[:, i], linewidth=s,
-                            linestyle='solid', color=cmap[i], label=labels[i])
+            ax1.plot(np.arange(m.shape[0]), m[:, i], linewidth=s,
+                     linestyle='solid', color=cmap[i], label=labels[i])
             plt.legend(loc='upper right')
     with open(DATA_DIR / ("tikz/" + name + ".tex"), 'w') as f:
         print(tikzplotlib.get_tikz_code(), file=f)
-- 
2.43.0


From 202b253d57164aa10ec1ab345e65d38a6d0c6a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:30 +0000
Subject: [PATCH 29/35] fix: plot_results keeps the voltages of the identified
 phase or sequence (it always kept those of phase 1)

---
 plot_results.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/plot_results.py b/plot_results.py
index 2a18995..dcd3f24 100644
--- a/plot_results.py
+++ b/plot_results.py
@@ -42,8 +42,9 @@ def plot_results(network, max_plot_y, max_plot_err, color_scale, sequence, verbo
 
     correct_component = lambda x: x
     if phases != "012" and phases != "123":
-        idx_todel = (phases_ids != 1).nonzero()
-        voltage = np.delete(voltage, idx_todel, axis=1)
+        if np.any(phases_ids != 1):
+            idx_todel = (phases_ids != int(str(phases))).nonzero()
+            voltage = np.delete(voltage, idx_todel, axis=1)
     elif phases == "012" and not sequence:
         correct_component = admittance_sequence_to_phase
         voltage = measurement_sequence_to_phase(voltage)
-- 
2.43.0


From f8cfe33e61be1c1868db2741bb0559383c399b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:48 +0000
Subject: [PATCH 30/35] fix: error_metrics of empty parameters (plot_results
 raised on a network without missing lines)

---
 src/models/error_metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/models/error_metrics.py b/src/models/error_metrics.py
index 05546b2..24c5170 100644
--- a/src/models/error_metrics.py
+++ b/src/models/error_metrics.py
@@ -28,7 +28,7 @@ def max_error(y: np.array, y_hat: np.array) -> float:
     :param y_hat: estimated parameters as numpy array
     :return: infinity norm of the estimation error
     """
-    return np.max(np.abs(y - y_hat))
+    return np.max(np.abs(y - y_hat), initial=0)
 
 
 def rrms_error(y: np.array, y_hat: np.array) -> float:
-- 
2.43.0


From 0cb44b5c003f5e78fd761422b0f23dac2964f2e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:42 +0000
Subject: [PATCH 31/35] fix: weight the rotated currents of unsynchronized
 measurements with their own covariance

The weights were computed from the currents before their phase was made
relative to the voltages, so the result depended on the sensor clocks.
---
 src/identification/run.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/identification/run.py b/src/identification/run.py
index beef80f..a73b809 100644
--- a/src/identification/run.py
+++ b/src/identification/run.py
@@ -419,7 +419,7 @@ def bayesian_eiv(name, voltage, current, phases_ids, voltage_sd_polar, current_s
             pprint("Calculating covariance matrices...")
             inv_sigma_voltage = naive_noise_covariance(centered_voltage, np.real(voltage_sd_polar),
                                                           np.imag(voltage_sd_polar) * 100, False)
-            inv_sigma_current = naive_noise_covariance(current, np.real(current_sd_polar) * pmu_ratings,
+            inv_sigma_current = naive_noise_covariance(centered_current, np.real(current_sd_polar) * pmu_ratings,
                                                        np.imag(current_sd_polar), True)
             # invert only diagonal elements (off diagonal is zero)
             inv_sigma_voltage.data = 1.0 / inv_sigma_voltage.data
-- 
2.43.0


From 68fd5574fa63e270fbbeaf3228802947e663104e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:38 +0000
Subject: [PATCH 32/35] fix: the recorded target of unweighted
 error-in-variables fits is the data misfit

It added the plain square of the complex corrected voltages instead of the
squared norm of the correction.
---
 src/models/error_in_variable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/models/error_in_variable.py b/src/models/error_in_variable.py
index 41317d3..ec3c0b6 100644
--- a/src/models/error_in_variable.py
+++ b/src/models/error_in_variable.py
@@ -255,7 +255,7 @@ class BayesianEIVRegression(GridIdentificationModel, MisfitWeightedModel):
 
                 # Solve the Delta V sub-problem using projection
                 e_qp = (cp.hstack((x, z)) @ projor)[:, :n]
-                da = vectorize_matrix(e_qp)
+                da = make_real_vector(vectorize_matrix(x - e_qp))
                 AmdA = make_real_matrix(sp.kron(sp.eye(n), e_qp, format='csr') @ DT)
 
                 # Update y equation
-- 
2.43.0


From 25c50187922a409006cbb8466224a64fc0148bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:41 +0000
Subject: [PATCH 33/35] fix: bayesian_eiv adds known lines of a Laplacian
 system with its parameters (index error)

---
 src/identification/run.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/identification/run.py b/src/identification/run.py
index a73b809..972e528 100644
--- a/src/identification/run.py
+++ b/src/identification/run.py
@@ -386,7 +386,7 @@ def bayesian_eiv(name, voltage, current, phases_ids, voltage_sd_polar, current_s
                             identification.contrast_each_row, identification.regularize_diag)
 
     if y_exact is not None:
-        prior = add_known_lines(nodes, prior, identification.lambdaprime, y_exact, laplacian=False, prior_type="optimal")
+        prior = add_known_lines(nodes, prior, identification.lambdaprime, y_exact, laplacian=laplacian, prior_type="optimal")
         #prior = build_loads_id_prior(nodes, y_exact)  # Not working!
 
     if laplacian:
-- 
2.43.0


From 09f11ed9f7517a1792f9e4db64c42a52c9f719aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:03 +0000
Subject: [PATCH 34/35] fix: match the voltage noise with the admittances of
 its own node in the Fisher information

---
 src/models/error_in_variable.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/models/error_in_variable.py b/src/models/error_in_variable.py
index ec3c0b6..7c26aca 100644
--- a/src/models/error_in_variable.py
+++ b/src/models/error_in_variable.py
@@ -89,7 +89,8 @@ class TotalLeastSquares(GridIdentificationModel, UnweightedModel):
         # Copy data
         #A = np.hstack((cp.real(x), cp.imag(x)))
         A = make_real_matrix(sp.kron(sp.eye(n, dtype=cp.float64), x, format='csr'))
-        y = make_real_vector(vectorize_matrix(y_mat))
+        # Vectorized by rows, so that the noise of each voltage meets the admittances of its own node
+        y = make_real_vector(vectorize_matrix(y_mat.T))
 
         # Use covariances if provided but transform them into sparse
         if x_cov is not None:
-- 
2.43.0


From 4996eb0839db5cf4c4ce8b172a184d76b45113dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:48 +0000
Subject: [PATCH 35/35] fix: rate every external grid connection with the loads
 of the network only

---
 src/simulation/run.py    | 3 ++-
 src/simulation/run3ph.py | 5 ++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/simulation/run.py b/src/simulation/run.py
index 6b64af1..788b6f5 100644
--- a/src/simulation/run.py
+++ b/src/simulation/run.py
@@ -174,9 +174,10 @@ def add_noise_and_filter(net, voltage, current, times, fmeas, steps, noise_param
 
     pmu_ratings = pmu_safety_factor * np.array([np.sum(i*i) for i in net.load[["p_mw","q_mvar"]].values])
     # External grid connections provide power for all loads
+    total_rating = np.sum(pmu_ratings)
     for i in range(len(net.load.bus)):
         if net.load.bus.iloc[i] in net.ext_grid.bus.values:
-            pmu_ratings[i] = np.sum(pmu_ratings)
+            pmu_ratings[i] = total_rating
 
     ts = np.linspace(0, np.max(times), round(np.max(times) * fmeas))
     fparam = int(np.floor(ts.size / steps))
diff --git a/src/simulation/run3ph.py b/src/simulation/run3ph.py
index 8cbc7cb..eba065e 100644
--- a/src/simulation/run3ph.py
+++ b/src/simulation/run3ph.py
@@ -253,11 +253,10 @@ def add_noise_and_filter(net, voltage, current, times, fmeas, steps, noise_param
     pmu_ratings = np.tile(pmu_safety_factor, (1, len(net.bus.index))) * total_loads
 
     # External grid connections provide power for all loads
+    total_ratings = np.sum(pmu_ratings, axis=1)
     for i in range(len(net.bus.index)):
         if net.bus.index[i] in net.ext_grid.bus.values:
-            pmu_ratings[0, i] = np.sum(pmu_ratings[0, :])
-            pmu_ratings[1, i] = np.sum(pmu_ratings[1, :])
-            pmu_ratings[2, i] = np.sum(pmu_ratings[2, :])
+            pmu_ratings[:, i] = total_ratings
 
     # One rating per column of the measurements, which are ordered by bus first and then by phase
     pmu_ratings = pmu_ratings.T.reshape((3 * len(net.bus.index),))
-- 
2.43.0


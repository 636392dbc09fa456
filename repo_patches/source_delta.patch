From 9bb0460b0ee1a6d1558511895fb2650f142d5709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:42 +0000
Subject: [PATCH 01/94] fix: do not reshape the user's yend/q arrays in place

---
 spreg/user_output.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spreg/user_output.py b/spreg/user_output.py
index 097dace..0e31e61 100755
--- a/spreg/user_output.py
+++ b/spreg/user_output.py
@@ -542,7 +542,7 @@ def check_endog(arrays, names):
         if arrays[i] is None:
             pass
         elif len(arrays[i].shape) == 1:
-            arrays[i].shape = (arrays[i].shape[0], 1)
+            arrays[i] = arrays[i].reshape(-1, 1)
         check_numeric_bool(arrays[i])
     return (*arrays, *names)
 
-- 
2.43.0


From a4c559a66d73a833fea0a70be7713acc65afb729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:01 +0000
Subject: [PATCH 02/94] fix: power_expansion rejected convergent series (large
 data, transient growth)

---
 spreg/utils.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/spreg/utils.py b/spreg/utils.py
index 3fbf27a..aaef51c 100755
--- a/spreg/utils.py
+++ b/spreg/utils.py
@@ -658,7 +658,10 @@ def power_expansion(
     running_total = copy.copy(data)
     increment = copy.copy(data)
     count = 1
-    test = 10000000
+    test = np.inf
+    # powers of a convergent (e.g. row-standardized) matrix can grow for a while
+    # before they vanish, but not past this bound
+    bound = np.sqrt(max(ws.shape)) * la.norm(data)
     if max_iterations == None:
         max_iterations = 10000000
     while test > threshold and count <= max_iterations:
@@ -669,7 +672,7 @@ def power_expansion(
         running_total += increment
         test_old = test
         test = la.norm(increment)
-        if test > test_old:
+        if not np.isfinite(test) or (test > test_old and test > bound):
             raise Exception(
                 "power expansion will not converge, check model specification and that weight are less than 1"
             )
-- 
2.43.0


From 78d38d4287a738ad85c8034b3d08ffd517685a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:19 +0000
Subject: [PATCH 03/94] fix: breusch_pagan/koenker_bassett crashed on a
 user-supplied z array

---
 spreg/diagnostics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spreg/diagnostics.py b/spreg/diagnostics.py
index 2811c17..f2802a3 100755
--- a/spreg/diagnostics.py
+++ b/spreg/diagnostics.py
@@ -800,7 +800,7 @@ def breusch_pagan(reg, z=None):
     den = ete / n
     g = e2 / den - 1.0
 
-    if z == None:
+    if z is None:
         x = reg.x
         # constant = constant_check(x)
         # if constant == False:
@@ -1112,7 +1112,7 @@ def koenker_bassett(reg, z=None):
     g = u - ubari
     v = (1.0 / n) * np.sum((u - ubar) ** 2)
 
-    if z == None:
+    if z is None:
         x = reg.x
         # constant = constant_check(x)
         # if constant == False:
-- 
2.43.0


From b3bc3f8e1896a34af5471abdaaf67b2d69dc2688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:28 +0000
Subject: [PATCH 04/94] fix: inverse_prod truncated the power expansion (after
 minutes) for a coefficient next to +-1

---
 spreg/utils.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/spreg/utils.py b/spreg/utils.py
index aaef51c..01515ac 100755
--- a/spreg/utils.py
+++ b/spreg/utils.py
@@ -608,7 +608,13 @@ def inverse_prod(
     True
 
     """
-    if inv_method == "power_exp":
+    if inv_method == "power_exp" and max_iterations is None and 0.999 < abs(scalar) < 1:
+        # next to the boundary the power expansion needs more terms than its
+        # iteration limit allows (and minutes to compute them)
+        ws = w.sparse if hasattr(w, "sparse") else w
+        matrix = np.eye(ws.shape[0]) - scalar * ws.toarray()
+        inv_prod = la.solve(matrix.T, data).T if post_multiply else la.solve(matrix, data)
+    elif inv_method == "power_exp":
         inv_prod = power_expansion(
             w,
             data,
-- 
2.43.0


From a7ee8a5f30304b99bac2cb6c9df1c724eccc8734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:42 +0000
Subject: [PATCH 05/94] fix: spatial lag 2SLS with SLX terms skipped a lag of x
 among its instruments and misnamed them

---
 spreg/error_sp.py     | 13 ++-----------
 spreg/error_sp_het.py | 13 ++-----------
 spreg/error_sp_hom.py | 16 ++--------------
 spreg/twosls_sp.py    | 13 ++-----------
 spreg/user_output.py  |  6 +++++-
 spreg/utils.py        |  6 ++++--
 6 files changed, 17 insertions(+), 50 deletions(-)

diff --git a/spreg/error_sp.py b/spreg/error_sp.py
index 18cc550..2d04a5a 100644
--- a/spreg/error_sp.py
+++ b/spreg/error_sp.py
@@ -1041,17 +1041,8 @@ class GM_Combo(BaseGM_Endog_Error):
         if slx_lags > 0:  # need to remove all but last SLX variables from name_x
             self.name_x0 = []
             self.name_x0.append(self.name_x[0])  # constant
-            if (isinstance(slx_vars,list)):   # boolean list passed
-                # x variables that were not lagged
-                self.name_x0.extend(list(compress(self.name_x[1:],[not i for i in slx_vars])))
-                # last wkx variables
-                self.name_x0.extend(self.name_x[-wkx:])
-
-
-            else:
-                okx = int((self.k - self.yend.shape[1] - 1) / (slx_lags + 1))  # number of original exogenous vars
-
-                self.name_x0.extend(self.name_x[-okx:])
+            # last SLX lag of all x variables, as used in set_endog
+            self.name_x0.extend(USER.set_name_spatial_lags(self.name_x[1:kx + 1], slx_lags)[-kx:])
 
             self.name_q.extend(USER.set_name_q_sp(self.name_x0, w_lags, self.name_q, lag_q))
 
diff --git a/spreg/error_sp_het.py b/spreg/error_sp_het.py
index a03d423..9a44e9f 100755
--- a/spreg/error_sp_het.py
+++ b/spreg/error_sp_het.py
@@ -1496,17 +1496,8 @@ class GM_Combo_Het(BaseGM_Combo_Het):
         if slx_lags > 0:  # need to remove all but last SLX variables from name_x
             self.name_x0 = []
             self.name_x0.append(self.name_x[0])  # constant
-            if (isinstance(slx_vars,list)):   # boolean list passed
-                # x variables that were not lagged
-                self.name_x0.extend(list(compress(self.name_x[1:],[not i for i in slx_vars])))
-                # last wkx variables
-                self.name_x0.extend(self.name_x[-wkx:])
-
-
-            else:
-                okx = int((self.k - self.yend.shape[1] - 1) / (slx_lags + 1))  # number of original exogenous vars
-
-                self.name_x0.extend(self.name_x[-okx:])
+            # last SLX lag of all x variables, as used in set_endog
+            self.name_x0.extend(USER.set_name_spatial_lags(self.name_x[1:kx + 1], slx_lags)[-kx:])
 
             self.name_q.extend(USER.set_name_q_sp(self.name_x0, w_lags, self.name_q, lag_q))
 
diff --git a/spreg/error_sp_hom.py b/spreg/error_sp_hom.py
index e7210ff..03b8bf9 100644
--- a/spreg/error_sp_hom.py
+++ b/spreg/error_sp_hom.py
@@ -1448,20 +1448,8 @@ class GM_Combo_Hom(BaseGM_Combo_Hom):
         if slx_lags > 0:  # need to remove all but last SLX variables from name_x
             self.name_x0 = []
             self.name_x0.append(self.name_x[0])  # constant
-            if isinstance(slx_vars, list):  # boolean list passed
-                # x variables that were not lagged
-                self.name_x0.extend(
-                    list(compress(self.name_x[1:], [not i for i in slx_vars]))
-                )
-                # last wkx variables
-                self.name_x0.extend(self.name_x[-wkx:])
-
-            else:
-                okx = int(
-                    (self.k - self.yend.shape[1] - 1) / (slx_lags + 1)
-                )  # number of original exogenous vars
-
-                self.name_x0.extend(self.name_x[-okx:])
+            # last SLX lag of all x variables, as used in set_endog
+            self.name_x0.extend(USER.set_name_spatial_lags(self.name_x[1:kx + 1], slx_lags)[-kx:])
 
             self.name_q.extend(
                 USER.set_name_q_sp(self.name_x0, w_lags, self.name_q, lag_q)
diff --git a/spreg/twosls_sp.py b/spreg/twosls_sp.py
index 8efc6e6..99b8b2d 100755
--- a/spreg/twosls_sp.py
+++ b/spreg/twosls_sp.py
@@ -631,17 +631,8 @@ class GM_Lag(BaseGM_Lag):
             if slx_lags > 0:  # need to remove all but last SLX variables from name_x
                 self.name_x0 = []
                 self.name_x0.append(self.name_x[0])  # constant
-                if (isinstance(slx_vars,list)):   # boolean list passed
-                    # x variables that were not lagged
-                    self.name_x0.extend(list(compress(self.name_x[1:],[not i for i in slx_vars])))
-                    # last wkx variables
-                    self.name_x0.extend(self.name_x[-wkx:])
-
-
-                else:
-                    okx = int((self.k - self.kstar - 1) / (slx_lags + 1))  # number of original exogenous vars
-
-                    self.name_x0.extend(self.name_x[-okx:])
+                # last SLX lag of all x variables, as used in set_endog
+                self.name_x0.extend(USER.set_name_spatial_lags(self.name_x[1:kx + 1], slx_lags)[-kx:])
 
                 self.name_q.extend(USER.set_name_q_sp(self.name_x0, w_lags, self.name_q, lag_q))
 
diff --git a/spreg/user_output.py b/spreg/user_output.py
index 0e31e61..daf5da2 100755
--- a/spreg/user_output.py
+++ b/spreg/user_output.py
@@ -11,6 +11,7 @@ import numpy as np
 import pandas as pd
 import geopandas as gpd     
 import copy as COPY
+import re
 from . import sputils as spu
 from libpysal import weights
 from libpysal import graph
@@ -228,7 +229,10 @@ def set_name_q_sp(name_x, w_lags, name_q, lag_q, force_all=False):
 
     for i in range(w_lags):
         for name in names:
-            if name.startswith("W_"):
+            order = re.match(r"W(\d+)_", name)
+            if order:  # higher order lag: continue from its order
+                lag_name = f"W{int(order.group(1)) + i + 1}_{name[order.end():]}"
+            elif name.startswith("W_"):
                 lag_name = f"W{name_count[name[2:]]}_{name[2:]}"
                 name_count[name[2:]] += 1
             else:
diff --git a/spreg/utils.py b/spreg/utils.py
index 01515ac..0d5331d 100755
--- a/spreg/utils.py
+++ b/spreg/utils.py
@@ -692,7 +692,9 @@ def set_endog(y, x, w, yend, q, w_lags, lag_q, slx_lags=0, slx_vars="all"):
     # spatial and non-spatial instruments
     if issubclass(type(yend), np.ndarray):
         if slx_lags > 0:
-            lag_x, lag_xq = get_lags_split(w, x, slx_lags+1, slx_lags)
+            # instruments are the lags that follow the last SLX lag
+            lag_x = get_lags(w, x, slx_lags)
+            lag_xq = lag_x[:, -x.shape[1]:]
         else:
             lag_xq = x
         if lag_q:
@@ -725,7 +727,7 @@ def set_endog(y, x, w, yend, q, w_lags, lag_q, slx_lags=0, slx_vars="all"):
             if slx_vars.shape[0] != x.shape[1]:
                 raise Exception("slx_vars incompatible with x column dimensions")
             
-            lag_x = lag_x[:, slx_vars]
+            lag_x = lag_x[:, np.tile(slx_vars, slx_lags)]
             return yend, q, lag_x
 
 
-- 
2.43.0


From e89d7e8f89e4c441dfb35af5d4b51d6bbc271dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:39 +0000
Subject: [PATCH 06/94] fix: GM error estimators returned a wrong lambda when y
 was measured in small or large units

---
 spreg/utils.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/spreg/utils.py b/spreg/utils.py
index 0d5331d..f6d5b89 100755
--- a/spreg/utils.py
+++ b/spreg/utils.py
@@ -362,6 +362,7 @@ def optim_moments(moments_in, vcX=np.array([0]), all_par=False, start=None, hard
         moments[1] = np.dot(Ec, moments_in[1])
     scale = np.min([[np.min(moments[0]), np.min(moments[1])]])
     moments[0], moments[1] = moments[0] / scale, moments[1] / scale
+    units = [1.0] + [abs(scale)] * (moments[0].shape[1] - 2)
     if moments[0].shape[0] == 2:
         optim_par = lambda par: foptim_par(
             np.array([[float(par[0]), float(par[0]) ** 2.0]]).T, moments
@@ -381,10 +382,24 @@ def optim_moments(moments_in, vcX=np.array([0]), all_par=False, start=None, hard
             ).T,
             moments,
         )
-        if not start:
+        if start:
+            units = [1.0] + [abs(i) or 1.0 for i in start[1:]]
+        else:
             start = [0.0, 1.0, 1.0]
         bounds = [(-0.99, 0.99), (0.0, None), (0.0, None)]
     lambdaX = op.fmin_l_bfgs_b(optim_par, start, approx_grad=True, bounds=bounds)
+    if len(start) > 1:
+        # the solver stops short of the minimum when the variances are of a very
+        # different magnitude than lambda: retry with variances in data units
+        units = np.array(units)
+        retry = op.fmin_l_bfgs_b(
+            lambda par: optim_par(par * units),
+            [start[0]] + [1.0] * (len(start) - 1),
+            approx_grad=True,
+            bounds=bounds,
+        )
+        if retry[1] < lambdaX[1] * (1 - 1e-6):
+            lambdaX = (retry[0] * units,) + retry[1:]
 
     if hard_bound:
         if abs(lambdaX[0][0]) >= 0.99:
-- 
2.43.0


From e581554dec15c1cf7305432ad76925235a015cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:04 +0000
Subject: [PATCH 07/94] fix: ord method used the wrong eigenvalues for
 non-binary or not row-standardized weights and changed w's transform

---
 spreg/ml_error.py | 10 ++++------
 spreg/ml_lag.py   | 12 +++++-------
 spreg/panel_re.py |  6 +++---
 spreg/w_utils.py  | 40 ++++++++++++++++++++++++++--------------
 4 files changed, 38 insertions(+), 30 deletions(-)

diff --git a/spreg/ml_error.py b/spreg/ml_error.py
index e12fe7f..a02dfb2 100755
--- a/spreg/ml_error.py
+++ b/spreg/ml_error.py
@@ -14,7 +14,7 @@ from .utils import RegressionPropsY, RegressionPropsVM, set_warn, get_lags
 from . import diagnostics as DIAG
 from . import user_output as USER
 from . import regimes as REGI
-from .w_utils import symmetrize
+from .w_utils import symmetrize, symmetrizable
 import pandas as pd
 from .output import output, _nonspat_top
 
@@ -203,11 +203,9 @@ class BaseML_Error(RegressionPropsY, RegressionPropsVM, REGI.Regimes_Frame):
                 W = Wsp
             elif methodML == "ORD":
                 # check on symmetry structure
-                if w.asymmetry(intrinsic=False) == []:
-                    ww = symmetrize(w)
-                    WW = np.array(ww.todense())
-                    evals = la.eigvalsh(WW)
-                    W = WW
+                if symmetrizable(w):
+                    W = symmetrize(w).toarray()
+                    evals = la.eigvalsh(W)
                 else:
                     W = w.full()[0]  # need dense here
                     evals = la.eigvals(W)
diff --git a/spreg/ml_lag.py b/spreg/ml_lag.py
index 41cbba2..8a728f5 100755
--- a/spreg/ml_lag.py
+++ b/spreg/ml_lag.py
@@ -17,7 +17,7 @@ from . import diagnostics as DIAG
 from . import user_output as USER
 import pandas as pd
 from .output import output, _nonspat_top, _spat_diag_out, _spat_pseudo_r2, _summary_impacts
-from .w_utils import symmetrize
+from .w_utils import symmetrize, symmetrizable
 from libpysal import weights
 
 try:
@@ -235,13 +235,11 @@ class BaseML_Lag(RegressionPropsY, RegressionPropsVM):
                 )
             elif methodML == "ORD":
                 # check on symmetry structure
-                if w.asymmetry(intrinsic=False) == []:
-                    ww = symmetrize(w)
-                    WW = np.array(ww.todense())
-                    evals = la.eigvalsh(WW)
-                    W = WW
+                if symmetrizable(w):
+                    W = symmetrize(w).toarray()
+                    evals = la.eigvalsh(W)
                 else:
-                    W = w.full()[0]  # moved here
+                    W = w.full()[0]  # need dense here
                     evals = la.eigvals(W)
                 res = minimize_scalar(
                     lag_c_loglik_ord,
diff --git a/spreg/panel_re.py b/spreg/panel_re.py
index a55e9b9..04a60cc 100755
--- a/spreg/panel_re.py
+++ b/spreg/panel_re.py
@@ -20,7 +20,7 @@ from scipy import sparse as sp
 from scipy.sparse.linalg import splu as SuperLU
 from .utils import RegressionPropsY, RegressionPropsVM, inverse_prod, set_warn
 from .sputils import spdot, spfill_diagonal, spinv
-from spreg.w_utils import symmetrize
+from spreg.w_utils import symmetrize, symmetrizable
 from . import diagnostics as DIAG
 from . import user_output as USER
 from . import summary_output as SUMMARY
@@ -486,9 +486,9 @@ class BasePanel_RE_Error(RegressionPropsY, RegressionPropsVM):
 
         # concentrated Log Likelihood
         I = np.identity(self.n)
-        if w.asymmetry(intrinsic=False) == []:
+        if symmetrizable(w):
             ww = symmetrize(w)
-            WW = np.array(ww.todense())
+            WW = ww.toarray()
             evals, evecs = la.eigh(WW)
             W = WW
         else:  # need dense here
diff --git a/spreg/w_utils.py b/spreg/w_utils.py
index 657a498..169df68 100644
--- a/spreg/w_utils.py
+++ b/spreg/w_utils.py
@@ -1,26 +1,38 @@
-import numpy as np
-import scipy.sparse as SPARSE
-
-
 def symmetrize(w):
     """Generate symmetric matrix that has same eigenvalues as an asymmetric row
     standardized matrix w
 
     Parameters
     ----------
-    w: weights object that has been row standardized
+    w: weights object that has been row standardized (or rescaled otherwise),
+       based on symmetric original weights
 
     Returns
     -------
     a sparse symmetric matrix with same eigenvalues as w
 
     """
-    current = w.transform
-    w.transform = "B"
-    d = w.sparse.sum(axis=1)  # row sum
-    d.shape = (w.n,)
-    d = np.sqrt(d)
-    Di12 = SPARSE.dia_matrix((1.0 / d, [0]), shape=(w.n, w.n))
-    D12 = SPARSE.dia_matrix((d, [0]), shape=(w.n, w.n))
-    w.transform = "r"
-    return D12 @ w.sparse @ Di12
+    wsp = w.sparse
+    return wsp.sign().multiply(wsp.multiply(wsp.T).sqrt())
+
+
+def symmetrizable(w):
+    """Check whether the weights w came from (before any transformation) are
+    symmetric, such that symmetrize(w) has the same eigenvalues as w
+
+    Parameters
+    ----------
+    w: weights object
+
+    Returns
+    -------
+    True if the original weights of w are symmetric, False otherwise
+
+    """
+    original = w.transformations["O"]
+    wij = {i: dict(zip(w.neighbors[i], original[i])) for i in w.id_order}
+    return all(
+        abs(wij[j].get(i, 0) - v) <= 1e-12 * abs(v)
+        for i in w.id_order
+        for j, v in wij[i].items()
+    )
-- 
2.43.0


From a3e691b7819c555480da4ca3f2d16d9432a8e2ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:02 +0000
Subject: [PATCH 08/94] fix: separate regimes turned the weights within each
 regime into binary ones

---
 spreg/regimes.py | 39 +++++++++++++++++++++++++--------------
 1 file changed, 25 insertions(+), 14 deletions(-)

diff --git a/spreg/regimes.py b/spreg/regimes.py
index 10d17f9..c811197 100755
--- a/spreg/regimes.py
+++ b/spreg/regimes.py
@@ -497,6 +497,23 @@ def set_name_x_regimes(name_x, constant_regi, cols2regi, regimes_set, xtype, rli
         return name_x_regi, xtype_full
 
 
+def _w_subset(w, ids):
+    """
+    Returns the subset of W for the given ids, keeping its original weights
+    (set_operations.w_subset returns binary weights)
+    """
+    original = w.transformations["O"]
+    ids_set = set(ids)
+    neighbors, weights_i = {}, {}
+    for i in ids:
+        keep = [
+            (j, wij) for j, wij in zip(w.neighbors[i], original[i]) if j in ids_set
+        ]
+        neighbors[i] = [j for j, wij in keep]
+        weights_i[i] = [wij for j, wij in keep]
+    return weights.W(neighbors, weights_i, id_order=list(ids), silence_warnings=True)
+
+
 def w_regime(w, regi_ids, regi_i, transform=True, min_n=None):
     """
     Returns the subset of W matrix according to a given regime ID
@@ -517,7 +534,7 @@ def w_regime(w, regi_ids, regi_i, transform=True, min_n=None):
     """
     w_ids = list(map(w.id_order.__getitem__, regi_ids))
     warn = None
-    w_regi_i = weights.set_operations.w_subset(w, w_ids, silence_warnings=True)
+    w_regi_i = _w_subset(w, w_ids)
     if min_n:
         if w_regi_i.n < min_n:
             raise Exception(
@@ -557,9 +574,7 @@ def w_regimes(w, regimes, regimes_set, transform=True, get_ids=None, min_n=None)
     w_regi_i = {}
     warn = None
     for r in regimes_set:
-        w_regi_i[r] = weights.set_operations.w_subset(
-            w, w_ids[r], silence_warnings=True
-        )
+        w_regi_i[r] = _w_subset(w, w_ids[r])
         if min_n:
             if w_regi_i[r].n < min_n:
                 raise Exception(
@@ -592,16 +607,12 @@ def w_regimes_union(w, w_regi_i, regimes_set):
     w_regi      : pysal W object
                   Spatial weights object containing the union of the subsets of W
     """
-    w_regi = weights.set_operations.w_union(
-        w_regi_i[regimes_set[0]], w_regi_i[regimes_set[1]], silence_warnings=True
-    )
-    if len(regimes_set) > 2:
-        for i in range(len(regimes_set))[2:]:
-            w_regi = weights.set_operations.w_union(
-                w_regi, w_regi_i[regimes_set[i]], silence_warnings=True
-            )
-    w_regi = weights.util.remap_ids(
-        w_regi, dict((i, i) for i in w_regi.id_order), w.id_order
+    neighbors, weights_i = {}, {}
+    for r in regimes_set:
+        neighbors.update(w_regi_i[r].neighbors)
+        weights_i.update(w_regi_i[r].transformations["O"])
+    w_regi = weights.W(
+        neighbors, weights_i, id_order=list(w.id_order), silence_warnings=True
     )
     w_regi.transform = w.get_transform()
     return w_regi
-- 
2.43.0


From c35f4f216de635782560ad6e855163881f1eef5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:48 +0000
Subject: [PATCH 09/94] fix: power method for impacts stopped at the first zero
 or negative term of the series

---
 spreg/sputils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spreg/sputils.py b/spreg/sputils.py
index 993ff9a..1bf2213 100755
--- a/spreg/sputils.py
+++ b/spreg/sputils.py
@@ -319,7 +319,8 @@ def spmultiplier(w, rho, method="simple", mtol=0.00000001):
         adi = 1.0
         adidiff = 100.00
 
-        while adidiff > mtol:
+        # a single term can be zero or negative well before the series has converged
+        while max(abs(rhop), abs(adidiff)) > mtol:
             pow = pow + 1
             ww = SP.csr_matrix.dot(ww, ws3)
             trw = ww.diagonal().sum()
-- 
2.43.0


From 21b99d135d27f3f957e3ea29bf668165002ad632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:02 +0000
Subject: [PATCH 10/94] fix: iterations of the HOM/HET regimes error models
 kept filtering by the first-step lambda

---
 spreg/error_sp_het_regimes.py |  2 +-
 spreg/error_sp_hom_regimes.py | 10 +++++-----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/spreg/error_sp_het_regimes.py b/spreg/error_sp_het_regimes.py
index d149d9e..6c45d0a 100644
--- a/spreg/error_sp_het_regimes.py
+++ b/spreg/error_sp_het_regimes.py
@@ -1095,7 +1095,7 @@ class GM_Endog_Error_Het_Regimes(RegressionPropsY, REGI.Regimes_Frame):
                 moments_i = UTILS._moments2eqs(wA1, w.sparse, self.u)
                 lambda3 = UTILS.optim_moments(moments_i, vc2, hard_bound=hard_bound)
                 eps = abs(lambda3 - lambda_old)
-                lambda_old = lambda3
+                lambda1 = lambda_old = lambda3
                 self.iteration += 1
 
             self.iter_stop = UTILS.iter_msg(self.iteration, max_iter)
diff --git a/spreg/error_sp_hom_regimes.py b/spreg/error_sp_hom_regimes.py
index 46262e5..d987810 100644
--- a/spreg/error_sp_hom_regimes.py
+++ b/spreg/error_sp_hom_regimes.py
@@ -427,8 +427,8 @@ class GM_Error_Hom_Regimes(RegressionPropsY, REGI.Regimes_Frame):
             self.iteration, eps = 0, 1
             while self.iteration < max_iter and eps > epsilon:
                 # 2a. SWLS --> \hat{\delta}
-                xs = get_spFilter(w, lambda1, x_constant1)
-                ys = get_spFilter(w, lambda1, y)
+                xs = get_spFilter(w, lambda_old, x_constant1)
+                ys = get_spFilter(w, lambda_old, y)
                 xs = REGI.Regimes_Frame.__init__(
                     self, xs, regimes, constant_regi=None, cols2regi=cols2regi
                 )[0]
@@ -1069,12 +1069,12 @@ class GM_Endog_Error_Hom_Regimes(RegressionPropsY, REGI.Regimes_Frame):
             self.iteration, eps = 0, 1
             while self.iteration < max_iter and eps > epsilon:
                 # 2a. GS2SLS --> \hat{\delta}
-                xs = get_spFilter(w, lambda1, x_constant1)
+                xs = get_spFilter(w, lambda_old, x_constant1)
                 xs = REGI.Regimes_Frame.__init__(
                     self, xs, regimes, constant_regi=None, cols2regi=cols2regi
                 )[0]
-                ys = get_spFilter(w, lambda1, y)
-                yend_s = get_spFilter(w, lambda1, yend)
+                ys = get_spFilter(w, lambda_old, y)
+                yend_s = get_spFilter(w, lambda_old, yend)
                 yend_s = REGI.Regimes_Frame.__init__(
                     self,
                     yend_s,
-- 
2.43.0


From b9bb53eefeddf2070ec2f501945fe0cdf6db5013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:49 +0000
Subject: [PATCH 11/94] fix: GM error estimators could stop the search for
 lambda before a minimum of the moments

---
 spreg/utils.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/spreg/utils.py b/spreg/utils.py
index f6d5b89..f3b3c6f 100755
--- a/spreg/utils.py
+++ b/spreg/utils.py
@@ -390,16 +390,19 @@ def optim_moments(moments_in, vcX=np.array([0]), all_par=False, start=None, hard
     lambdaX = op.fmin_l_bfgs_b(optim_par, start, approx_grad=True, bounds=bounds)
     if len(start) > 1:
         # the solver stops short of the minimum when the variances are of a very
-        # different magnitude than lambda: retry with variances in data units
+        # different magnitude than lambda, and can give up on the way: retry with
+        # variances in data units, as long as that gets closer to the minimum
         units = np.array(units)
-        retry = op.fmin_l_bfgs_b(
-            lambda par: optim_par(par * units),
-            [start[0]] + [1.0] * (len(start) - 1),
-            approx_grad=True,
-            bounds=bounds,
-        )
-        if retry[1] < lambdaX[1] * (1 - 1e-6):
-            lambdaX = (retry[0] * units,) + retry[1:]
+        point = [start[0]] + [1.0] * (len(start) - 1)
+        for _ in range(20):
+            retry = op.fmin_l_bfgs_b(
+                lambda par: optim_par(par * units), point, approx_grad=True, bounds=bounds
+            )
+            if retry[1] < lambdaX[1] * (1 - 1e-6):
+                lambdaX = (retry[0] * units,) + retry[1:]
+            elif point[0] != start[0]:
+                break
+            point = lambdaX[0] / units
 
     if hard_bound:
         if abs(lambdaX[0][0]) >= 0.99:
-- 
2.43.0


From 46406f287323749b4546ee8cbafda7332a12e40d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:52 +0000
Subject: [PATCH 12/94] fix: regimes= and GMM_Error forward slx_vars (and
 hard_bound) to the regimes estimator

---
 spreg/error_sp.py | 6 +++++-
 spreg/ml_error.py | 1 +
 spreg/ols.py      | 1 +
 spreg/twosls.py   | 1 +
 4 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/spreg/error_sp.py b/spreg/error_sp.py
index 2d04a5a..dfd1cd6 100644
--- a/spreg/error_sp.py
+++ b/spreg/error_sp.py
@@ -1314,6 +1314,10 @@ class GMM_Error(GM_Error, GM_Endog_Error, GM_Combo, GM_Error_Het, GM_Endog_Error
 
         if regimes is not None:
             from .error_sp_regimes import GMM_Error_Regimes
+            if isinstance(slx_vars, list):
+                kwargs["slx_vars"] = slx_vars
+            if hard_bound:
+                kwargs["hard_bound"] = hard_bound
             self.__class__ = GMM_Error_Regimes
             self.__init__(
                 y=y, x=x, regimes=regimes, w=w, yend=yend, q=q, estimator=estimator, add_wy=add_wy, 
@@ -1364,7 +1368,7 @@ class GMM_Error(GM_Error, GM_Endog_Error, GM_Combo, GM_Error_Het, GM_Endog_Error
                                         name_w=name_w, name_ds=name_ds, latex=latex, hard_bound=hard_bound)
             else:
                 set_warn(self, 'Combination of arguments passed to GMM_Error not allowed. Using default arguments instead.')
-                GM_Error_Het.__init__(self, y=y, x=x, w=w, slx_lags=slx_lags, vm=vm, name_y=name_y, name_x=name_x, 
+                GM_Error_Het.__init__(self, y=y, x=x, w=w, slx_lags=slx_lags, slx_vars=slx_vars, vm=vm, name_y=name_y, name_x=name_x, 
                                         name_w=name_w, name_ds=name_ds, latex=latex, hard_bound=hard_bound)
 
 
diff --git a/spreg/ml_error.py b/spreg/ml_error.py
index a02dfb2..0d4db8c 100755
--- a/spreg/ml_error.py
+++ b/spreg/ml_error.py
@@ -497,6 +497,7 @@ class ML_Error(BaseML_Error):
                 regimes=regimes,
                 w=w,
                 slx_lags=slx_lags,
+                slx_vars=slx_vars,
                 method=method,
                 epsilon=epsilon,
                 vm=vm,
diff --git a/spreg/ols.py b/spreg/ols.py
index 9b1da1d..a4b411f 100755
--- a/spreg/ols.py
+++ b/spreg/ols.py
@@ -474,6 +474,7 @@ class OLS(BaseOLS):
                 robust=robust,
                 gwk=gwk,
                 slx_lags=slx_lags,
+                slx_vars=slx_vars,
                 sig2n_k=sig2n_k,
                 nonspat_diag=nonspat_diag,
                 spat_diag=spat_diag,
diff --git a/spreg/twosls.py b/spreg/twosls.py
index 0c59bb6..5b07aba 100644
--- a/spreg/twosls.py
+++ b/spreg/twosls.py
@@ -492,6 +492,7 @@ class TSLS(BaseTSLS):
                 robust=robust,
                 gwk=gwk,
                 slx_lags=slx_lags,
+                slx_vars=slx_vars,
                 sig2n_k=sig2n_k,
                 spat_diag=spat_diag,
                 vm=vm,
-- 
2.43.0


From fbbc5ead2243e6c41cb5c50c20a1ea59affc4cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:11 +0000
Subject: [PATCH 13/94] fix: TSLS_Regimes with separate errors scrambled the
 variable names of its output table

---
 spreg/twosls_regimes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spreg/twosls_regimes.py b/spreg/twosls_regimes.py
index 9f408bc..e4200a1 100644
--- a/spreg/twosls_regimes.py
+++ b/spreg/twosls_regimes.py
@@ -625,7 +625,7 @@ class TSLS_Regimes(BaseTSLS, REGI.Regimes_Frame):
         else:
             diag_out = None
         if summ:
-            self.output.sort_values(by='regime', inplace=True)
+            self.output.sort_values(by='regime', inplace=True, kind='stable')
             output(reg=self, vm=vm, robust=robust, other_end=diag_out, latex=latex)
 
     def _get_spat_diag_props(self, results, regi_ids, x, yend, q):
-- 
2.43.0


From 716ee05c0524c5c1f199093b578d934cb6ab1d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:47 +0000
Subject: [PATCH 14/94] fix: fractional regime codes were truncated to integers

---
 spreg/regimes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spreg/regimes.py b/spreg/regimes.py
index c811197..5fa788d 100755
--- a/spreg/regimes.py
+++ b/spreg/regimes.py
@@ -704,7 +704,7 @@ def check_const_regi(reg, x, name_x, regi_ids):
 def _get_regimes_set(regimes):
     """Creates a list with regimes in alphabetical order."""
     regimes_set = list(set(regimes))
-    if isinstance(regimes_set[0], float):
+    if isinstance(regimes_set[0], float) and all(r == int(r) for r in regimes_set):
         regimes_set1 = list(set(map(int, regimes_set)))
         if len(regimes_set1) == len(regimes_set):
             regimes_set = regimes_set1
-- 
2.43.0


From 0de40805b7ef72672c29a8f395c6ae6a64e2fcd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:20 +0000
Subject: [PATCH 15/94] fix: spatial diagnostics dropped the variance matrix of
 separate regimes models

---
 spreg/ols_regimes.py    | 2 +-
 spreg/twosls_regimes.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/spreg/ols_regimes.py b/spreg/ols_regimes.py
index 4ebfd1b..6678853 100755
--- a/spreg/ols_regimes.py
+++ b/spreg/ols_regimes.py
@@ -682,7 +682,7 @@ class OLS_Regimes(BaseOLS, REGI.Regimes_Frame, RegressionPropsY):
 
     def _get_spat_diag_props(self, x, sig2n_k):
         self.k = self.kr
-        self._cache = {}
+        self._cache = {"vm": self.vm}
         self.x = REGI.regimeX_setup(
             x, self.regimes, [True] * x.shape[1], self.regimes_set
         )
diff --git a/spreg/twosls_regimes.py b/spreg/twosls_regimes.py
index e4200a1..049cb06 100644
--- a/spreg/twosls_regimes.py
+++ b/spreg/twosls_regimes.py
@@ -629,7 +629,7 @@ class TSLS_Regimes(BaseTSLS, REGI.Regimes_Frame):
             output(reg=self, vm=vm, robust=robust, other_end=diag_out, latex=latex)
 
     def _get_spat_diag_props(self, results, regi_ids, x, yend, q):
-        self._cache = {}
+        self._cache = {"vm": self.vm}
         x = REGI.regimeX_setup(x, self.regimes, [True] * x.shape[1], self.regimes_set)
         self.z = sphstack(
             x,
-- 
2.43.0


From 8f20878dfcb4ea5ba02253360279cadb875a42e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:38 +0000
Subject: [PATCH 16/94] fix: Moran's I of residuals of separate regimes used
 the number of coefficients of one regime

---
 spreg/ols_regimes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spreg/ols_regimes.py b/spreg/ols_regimes.py
index 6678853..ac0125b 100755
--- a/spreg/ols_regimes.py
+++ b/spreg/ols_regimes.py
@@ -681,7 +681,7 @@ class OLS_Regimes(BaseOLS, REGI.Regimes_Frame, RegressionPropsY):
         output(reg=self, vm=vm, robust=robust, other_end=other_end, latex=latex)
 
     def _get_spat_diag_props(self, x, sig2n_k):
-        self.k = self.kr
+        self.k = self.kr * self.nr
         self._cache = {"vm": self.vm}
         self.x = REGI.regimeX_setup(
             x, self.regimes, [True] * x.shape[1], self.regimes_set
-- 
2.43.0


From b0aad64c7a7244cfeb169b9c533bdac2deabac5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:09 +0000
Subject: [PATCH 17/94] fix: instruments of separate regimes spatial lag models
 repeated lags of x for w_lags > 2

---
 spreg/utils.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/spreg/utils.py b/spreg/utils.py
index f3b3c6f..362ebdd 100755
--- a/spreg/utils.py
+++ b/spreg/utils.py
@@ -760,15 +760,19 @@ def set_endog_sparse(y, x, w, yend, q, w_lags, lag_q):
             lag_vars = sphstack(x, q)
         else:
             lag_vars = x
-        spatial_inst = w @ lag_vars
+        lag_i = w @ lag_vars
+        spatial_inst = lag_i
         for i in range(w_lags - 1):
-            spatial_inst = sphstack(spatial_inst, w @ spatial_inst)
+            lag_i = w @ lag_i
+            spatial_inst = sphstack(spatial_inst, lag_i)
         q = sphstack(q, spatial_inst)
         yend = sphstack(yend, yl)
     elif yend == None:  # spatial instruments only
-        q = w @ x
+        lag_i = w @ x
+        q = lag_i
         for i in range(w_lags - 1):
-            q = sphstack(q, w @ q)
+            lag_i = w @ lag_i
+            q = sphstack(q, lag_i)
         yend = yl
     else:
         raise Exception("invalid value passed to yend")
-- 
2.43.0


From 81264d60ebc47f1554ec4ab89786af8606b8f4ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:17 +0000
Subject: [PATCH 18/94] fix: separate regimes models crashed when a variable
 constant within a regime was removed

---
 spreg/error_sp_het_regimes.py | 4 ++--
 spreg/error_sp_hom_regimes.py | 4 ++--
 spreg/error_sp_regimes.py     | 4 ++--
 spreg/ml_error_regimes.py     | 2 +-
 spreg/ml_lag_regimes.py       | 2 +-
 spreg/twosls_sp_regimes.py    | 2 +-
 6 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/spreg/error_sp_het_regimes.py b/spreg/error_sp_het_regimes.py
index 6c45d0a..16c9880 100644
--- a/spreg/error_sp_het_regimes.py
+++ b/spreg/error_sp_het_regimes.py
@@ -521,7 +521,7 @@ class GM_Error_Het_Regimes(RegressionPropsY, REGI.Regimes_Frame):
                 )
 
         self.kryd = 0
-        self.kr = len(cols2regi) + 1
+        self.kr = x_constant.shape[1] + 1
         self.kf = 0
         self.nr = len(self.regimes_set)
         self.vm = np.zeros((self.nr * self.kr, self.nr * self.kr), float)
@@ -1232,7 +1232,7 @@ class GM_Endog_Error_Het_Regimes(RegressionPropsY, REGI.Regimes_Frame):
                 )
 
         self.kryd, self.kf = 0, 0
-        self.kr = len(cols2regi) + 1
+        self.kr = x_constant.shape[1] + len(name_yend) + 1
         self.nr = len(self.regimes_set)
         self.vm = np.zeros((self.nr * self.kr, self.nr * self.kr), float)
         self.betas = np.zeros((self.nr * self.kr, 1), float)
diff --git a/spreg/error_sp_hom_regimes.py b/spreg/error_sp_hom_regimes.py
index d987810..69bb78f 100644
--- a/spreg/error_sp_hom_regimes.py
+++ b/spreg/error_sp_hom_regimes.py
@@ -533,7 +533,7 @@ class GM_Error_Hom_Regimes(RegressionPropsY, REGI.Regimes_Frame):
                 )
 
         self.kryd = 0
-        self.kr = len(cols2regi) + 1
+        self.kr = x_constant.shape[1] + 1
         self.kf = 0
         self.nr = len(self.regimes_set)
         self.vm = np.zeros((self.nr * self.kr, self.nr * self.kr), float)
@@ -1225,7 +1225,7 @@ class GM_Endog_Error_Hom_Regimes(RegressionPropsY, REGI.Regimes_Frame):
                 )
 
         self.kryd, self.kf = 0, 0
-        self.kr = len(cols2regi) + 1
+        self.kr = x_constant.shape[1] + len(name_yend) + 1
         self.nr = len(self.regimes_set)
         self.vm = np.zeros((self.nr * self.kr, self.nr * self.kr), float)
         self.betas = np.zeros((self.nr * self.kr, 1), float)
diff --git a/spreg/error_sp_regimes.py b/spreg/error_sp_regimes.py
index e5c1a2f..71e03e4 100644
--- a/spreg/error_sp_regimes.py
+++ b/spreg/error_sp_regimes.py
@@ -436,7 +436,7 @@ class GM_Error_Regimes(RegressionPropsY, REGI.Regimes_Frame):
                 )
 
         self.kryd = 0
-        self.kr = len(cols2regi)
+        self.kr = x_constant.shape[1]
         self.kf = 0
         self.nr = len(self.regimes_set)
         self.vm = np.zeros((self.nr * self.kr, self.nr * self.kr), float)
@@ -1045,7 +1045,7 @@ class GM_Endog_Error_Regimes(RegressionPropsY, REGI.Regimes_Frame):
                 )
 
         self.kryd, self.kf = 0, 0
-        self.kr = len(cols2regi)
+        self.kr = x_constant.shape[1] + len(name_yend)
         self.nr = len(self.regimes_set)
         self.vm = np.zeros((self.nr * self.kr, self.nr * self.kr), float)
         self.betas = np.zeros((self.nr * (self.kr + 1), 1), float)
diff --git a/spreg/ml_error_regimes.py b/spreg/ml_error_regimes.py
index 12af71a..18064b0 100644
--- a/spreg/ml_error_regimes.py
+++ b/spreg/ml_error_regimes.py
@@ -457,7 +457,7 @@ class ML_Error_Regimes(BaseML_Error, REGI.Regimes_Frame):
                 )
 
         self.kryd = 0
-        self.kr = len(cols2regi) + 1
+        self.kr = x_constant.shape[1] + 1
         self.kf = 0
         self.nr = len(self.regimes_set)
         self.vm = np.zeros((self.nr * self.kr, self.nr * self.kr), float)
diff --git a/spreg/ml_lag_regimes.py b/spreg/ml_lag_regimes.py
index 060da2c..bc679e2 100644
--- a/spreg/ml_lag_regimes.py
+++ b/spreg/ml_lag_regimes.py
@@ -546,7 +546,7 @@ class ML_Lag_Regimes(BaseML_Lag, REGI.Regimes_Frame):
                 )
 
         self.kryd = 0
-        self.kr = len(cols2regi) + 1
+        self.kr = x_constant.shape[1] + 1
         self.kf = 0
         self.nr = len(self.regimes_set)
         self.name_x_r = name_x
diff --git a/spreg/twosls_sp_regimes.py b/spreg/twosls_sp_regimes.py
index b698967..3434016 100644
--- a/spreg/twosls_sp_regimes.py
+++ b/spreg/twosls_sp_regimes.py
@@ -766,7 +766,7 @@ class GM_Lag_Regimes(TSLS_Regimes, REGI.Regimes_Frame):
                 )
 
         self.kryd = 0
-        self.kr = len(cols2regi) + 1
+        self.kr = x_constant.shape[1] + len(name_yend)
         self.kf = 0
         self.nr = len(self.regimes_set)
         self.name_x_r = name_x + name_yend
-- 
2.43.0


From c0d63d40b9578d8bd948c78cc468bd855558a827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:26 +0000
Subject: [PATCH 19/94] fix: SLX options of the spatial lag regimes models
 (slx_vars, cols2regi, impacts, instrument names)

---
 spreg/ml_lag_regimes.py    | 25 ++++++++++++-------------
 spreg/output.py            | 14 ++++++++++----
 spreg/sputils.py           | 30 ++++++++++++++++++++++--------
 spreg/twosls_sp_regimes.py | 28 ++++++++++++++--------------
 spreg/user_output.py       |  2 +-
 5 files changed, 59 insertions(+), 40 deletions(-)

diff --git a/spreg/ml_lag_regimes.py b/spreg/ml_lag_regimes.py
index bc679e2..911c8cf 100644
--- a/spreg/ml_lag_regimes.py
+++ b/spreg/ml_lag_regimes.py
@@ -351,7 +351,9 @@ class ML_Lag_Regimes(BaseML_Lag, REGI.Regimes_Frame):
             x_constant,name_x = USER.flex_wx(w,x=x_constant,name_x=name_x,constant=False,
                                                 slx_lags=slx_lags,slx_vars=slx_vars)
             set_warn(self,"WX is computed using the complete W, i.e. not trimmed by regimes.")
-            kwx = x_constant.shape[1] - size_x
+            name_slx = name_x[size_x:]
+        else:
+            name_slx = []
 
         self.name_x_r = USER.set_name_x(name_x, x_constant) + [USER.set_name_yend_sp(name_y)]
         self.method = method
@@ -401,6 +403,8 @@ class ML_Lag_Regimes(BaseML_Lag, REGI.Regimes_Frame):
                 w,
                 regi_ids,
                 slx_lags=slx_lags,
+                slx_vars=slx_vars,
+                name_slx=name_slx,
                 cores=cores,
                 cols2regi=cols2regi,
                 method=method,
@@ -445,16 +449,9 @@ class ML_Lag_Regimes(BaseML_Lag, REGI.Regimes_Frame):
             diag_out = None
             if slx_lags > 0:
                 self.title = ("MAXIMUM LIKELIHOOD SPATIAL DURBIN - REGIMES"+ " (METHOD = "+ method+ ")")
-                fixed_wx = cols2regi[-(kwx+1):-1].count(False)
-                kwx = kwx - fixed_wx
-                if kwx > 0:
-                    for m in self.regimes_set:
-                        r_output = self.output[(self.output['regime'] == str(m)) & (self.output['var_type'].isin(['x', 'o']))]
-                        wx_index = r_output.index[-kwx:]
-                        self.output.loc[wx_index, 'var_type'] = 'wx'
-                if fixed_wx > 0:
-                    f_wx_index = self.output.index[-(fixed_wx+1):-1]
-                    self.output.loc[f_wx_index, 'var_type'] = 'wx'
+                wx_names = ["%s_%s" % (r, i) for r in [*self.regimes_set, "_Global"] for i in name_slx]
+                self.output.loc[self.output['var_names'].isin(wx_names), 'var_type'] = 'wx'
+                self.slx_vars = slx_vars
                 if spat_diag and slx_lags == 1:
                     diag_out = _spat_diag_out(self, w, 'yend', ml=True)
             else:
@@ -478,6 +475,8 @@ class ML_Lag_Regimes(BaseML_Lag, REGI.Regimes_Frame):
         w,
         regi_ids,
         slx_lags,
+        slx_vars,
+        name_slx,
         cores,
         cols2regi,
         method,
@@ -606,8 +605,8 @@ class ML_Lag_Regimes(BaseML_Lag, REGI.Regimes_Frame):
             results[r].other_top += _nonspat_top(results[r], ml=True)
             results[r].other_mid = ""
             if slx_lags > 0:
-                kx = (len(results[r].name_x) - 1) // (slx_lags + 1)
-                var_types = ['o']+['x']*kx + ['wx'] * kx * slx_lags + ['rho']
+                var_types = ['o'] + ['wx' if i in name_slx else 'x' for i in name_x[1:-1]] + ['rho']
+                results[r].slx_vars = slx_vars
             else:
                 var_types = ['o']+['x'] * (len(results[r].name_x) - 2) + ['rho']
             results[r].output = pd.DataFrame({'var_names': results[r].name_x,
diff --git a/spreg/output.py b/spreg/output.py
index 3fcdd0a..15680cd 100755
--- a/spreg/output.py
+++ b/spreg/output.py
@@ -286,11 +286,17 @@ def _spat_diag_out(reg, w, type, moran=False, ml=False):
             # no common factor test if slx_vars is not "All"
             if reg.slx_lags == 1 and not any(reg.output['var_type'] == 'yend'):
                 if not hasattr(reg, 'slx_vars') or not isinstance(reg.slx_vars, list):
-                    wx_indices = reg.output[(reg.output['var_type'] == 'wx') & (reg.output['regime'] != '_Global')].index
-                    x_indices = []
+                    x_indices, wx_indices = [], []
                     for m in reg.output['regime'].unique():
-                        x_indices.extend(reg.output[(reg.output['regime'] == m) & (reg.output['var_type'] == 'x')].index)
-                    vm_indices = x_indices + wx_indices.tolist() + reg.output[reg.output['var_type'] == 'rho'].index.tolist()
+                        x_m = reg.output[(reg.output['regime'] == m) & (reg.output['var_type'] == 'x')]
+                        wx_m = reg.output[(reg.output['regime'] == m) & (reg.output['var_type'] == 'wx')]
+                        x_indices.extend(x_m.index)
+                        wx_indices.extend(wx_m.index)
+                        pref = "%s_" % m if hasattr(reg, 'name_regimes') else ""
+                        if [pref + "W_" + i[len(pref):] for i in x_m['var_names']] != list(wx_m['var_names']):
+                            # x and WX do not vary by regime alike
+                            return strSummary
+                    vm_indices = x_indices + wx_indices + reg.output[reg.output['var_type'] == 'rho'].index.tolist()
                     cft, cft_p = diagnostics_sp.comfac_test(reg.rho,
                                                         reg.betas[x_indices],
                                                         reg.betas[wx_indices],
diff --git a/spreg/sputils.py b/spreg/sputils.py
index 1bf2213..da863ef 100755
--- a/spreg/sputils.py
+++ b/spreg/sputils.py
@@ -1,6 +1,7 @@
 import numpy as np
 import numpy.linalg as la
 import scipy.sparse as SP
+import re
 import pandas as pd
 import geopandas as gpd
 from scipy.sparse import linalg as SPla
@@ -362,14 +363,13 @@ def _sp_effects(reg, variables, spmult, slx_lags=0,slx_vars="All"):
     bdir = m2 * reg.betas[variables_x_index]
     # Assumes all SLX effects are indirect effects. 
     if slx_lags > 0:
-        if reg.output.regime.nunique() > 1:
-            btot_idx = pd.Series(btot.flatten(), index=variables_x_index)   
-            wchunk_size = len(variables.query("regime == @reg.output.regime.iloc[0]")) #Number of exogenous variables in each regime
-            for i in range(slx_lags):
-                chunk_indices = variables_x_index + (i+1) * wchunk_size
-                bmult = m1 * reg.betas[chunk_indices]
-                btot_idx[variables_x_index] += bmult.flatten()
-                btot = btot_idx.to_numpy().reshape(btot.shape)
+        if hasattr(reg, 'name_regimes'):
+            for i, idx in enumerate(variables_x_index):
+                wx_index = _regimes_wx_index(reg.output, idx)
+                if wx_index is None:
+                    btot[i] = np.nan
+                else:
+                    btot[i] += m1 * reg.betas[wx_index].sum()
 
         else:
             variables_wx = reg.output.query("var_type == 'wx'")
@@ -397,6 +397,20 @@ def _sp_effects(reg, variables, spmult, slx_lags=0,slx_vars="All"):
 
     return btot, bdir, bind
 
+def _regimes_wx_index(output, idx):
+    """
+    Rows of the SLX terms of the variable in row idx of the output of a regimes
+    model. Returns None for a global variable with SLX terms that vary by regime.
+    """
+    regime, wx = str(output.regime[idx]), output[output.var_type == 'wx']
+    name = re.escape(output.var_names[idx][len(regime) + 1:])
+    rows = [i for i in wx.index
+            if re.fullmatch("W[0-9]*_" + name, wx.var_names[i][len(str(wx.regime[i])) + 1:])]
+    same = [i for i in rows if str(wx.regime[i]) in (regime, '_Global')]
+    if regime == '_Global' and len(same) < len(rows):
+        return None
+    return same
+
 def i_multipliers(w,coef=0.0,model='lag',id=None):
     '''
     Creates pandas DataFrame with spatial multipliers with direct effects
diff --git a/spreg/twosls_sp_regimes.py b/spreg/twosls_sp_regimes.py
index 3434016..c3ab221 100644
--- a/spreg/twosls_sp_regimes.py
+++ b/spreg/twosls_sp_regimes.py
@@ -517,17 +517,14 @@ class GM_Lag_Regimes(TSLS_Regimes, REGI.Regimes_Frame):
             set_warn(self,"WX is computed using the complete W, i.e. not trimmed by regimes.")
             x_constant = np.hstack((x_constant, wx))
             name_slx = USER.set_name_spatial_lags(name_x, slx_lags, slx_vars=slx_vars)
-            iter_slx = iter(name_slx) 
-            name_q_temp = [next(iter_slx) if keep else name for name, keep in zip(name_x, slx_vars)]
+            # instruments are lags of the last SLX lag of all x variables
+            name_q_temp = USER.set_name_spatial_lags(name_x, slx_lags)[-len(name_x):]
             name_q.extend(USER.set_name_q_sp(name_q_temp, w_lags, name_q, lag_q, force_all=True))
             name_x += name_slx
-            if cols2regi == 'all':
-                cols2regi = REGI.check_cols2regi(
-                    constant_regi, cols2regi, x_constant, yend=yend2, add_cons=False)[0:-1]
-            else:
-                cols2regi = REGI.check_cols2regi(
-                    constant_regi, cols2regi, x_constant, yend=yend2, add_cons=False)
+            cols2regi = REGI.check_cols2regi(
+                constant_regi, cols2regi, x_constant, yend=yend, add_cons=False)
         else:
+            name_slx = []
             name_q.extend(USER.set_name_q_sp(name_x, w_lags, name_q, lag_q, force_all=True))
             yend2, q2 = yend, q
             cols2regi = REGI.check_cols2regi(
@@ -588,6 +585,8 @@ class GM_Lag_Regimes(TSLS_Regimes, REGI.Regimes_Frame):
                 vm=vm,
                 name_y=name_y,
                 name_x=name_x,
+                name_slx=name_slx,
+                slx_vars=slx_vars,
                 name_yend=name_yend,
                 name_q=name_q,
                 name_regimes=self.name_regimes,
@@ -641,10 +640,9 @@ class GM_Lag_Regimes(TSLS_Regimes, REGI.Regimes_Frame):
             self.regime_lag_sep = regime_lag_sep
             self.title = "SPATIAL " + self.title
             if slx_lags > 0:
-                for m in self.regimes_set:
-                    r_output = self.output[(self.output['regime'] == str(m)) & (self.output['var_type'].isin(['x', 'o']))]
-                    wx_index = r_output.index[-((len(r_output)-1)//(slx_lags+1)) * slx_lags:]
-                    self.output.loc[wx_index, 'var_type'] = 'wx'
+                wx_names = ["%s_%s" % (r, i) for r in [*self.regimes_set, "_Global"] for i in name_slx]
+                self.output.loc[self.output['var_names'].isin(wx_names), 'var_type'] = 'wx'
+                self.slx_vars = slx_vars
                 self.title = " SPATIAL 2SLS WITH SLX (SPATIAL DURBIN MODEL) - REGIMES"
             top_diag = _spat_pseudo_r2(self)
             try:
@@ -685,6 +683,8 @@ class GM_Lag_Regimes(TSLS_Regimes, REGI.Regimes_Frame):
         vm=False,
         name_y=None,
         name_x=None,
+        name_slx=None,
+        slx_vars="all",
         name_yend=None,
         name_q=None,
         name_regimes=None,
@@ -853,8 +853,8 @@ class GM_Lag_Regimes(TSLS_Regimes, REGI.Regimes_Frame):
             results[r].other_top += _spat_pseudo_r2(results[r])
             results[r].other_mid = ""
             if slx_lags > 0:
-                kx = (results[r].k - results[r].kstar - 1) // (slx_lags + 1)
-                var_types = ['o'] + ['x']*kx + ['wx'] * kx * slx_lags + ['yend'] * (len(results[r].name_yend) - 1) + ['rho']
+                var_types = ['o'] + ['wx' if i in name_slx else 'x' for i in name_x[1:]] + ['yend'] * (len(results[r].name_yend) - 1) + ['rho']
+                results[r].slx_vars = slx_vars
             else:
                 var_types = ['o'] + ['x'] * (len(results[r].name_x)-1) + ['yend'] * (len(results[r].name_yend)-1) + ['rho']
             results[r].output = pd.DataFrame({'var_names': results[r].name_x + results[r].name_yend,
diff --git a/spreg/user_output.py b/spreg/user_output.py
index daf5da2..bd647de 100755
--- a/spreg/user_output.py
+++ b/spreg/user_output.py
@@ -179,7 +179,7 @@ def set_name_spatial_lags(names, w_lags, slx_vars="all", additional=0):
     lag_names2 : string, only returned if additional > 0
 
     """
-    if slx_vars != "all":
+    if not (isinstance(slx_vars, str) and slx_vars.lower() == "all"):
         names = list(compress(names,slx_vars))
     lag_names = ["W_" + s for s in names]
     n_i = 1
-- 
2.43.0


From 13d8e5093aea4edafe1c7fb973709f07b814556c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:00 +0000
Subject: [PATCH 20/94] fix: spatial lag by regimes with SLX terms used
 neighbors of other regimes for the lag of y

---
 spreg/error_sp_het_regimes.py |  1 +
 spreg/error_sp_hom_regimes.py |  1 +
 spreg/error_sp_regimes.py     |  1 +
 spreg/regimes.py              | 28 ++++++++++++++++++++++++++++
 spreg/twosls_sp_regimes.py    |  2 ++
 5 files changed, 33 insertions(+)

diff --git a/spreg/error_sp_het_regimes.py b/spreg/error_sp_het_regimes.py
index 16c9880..94ad1b5 100644
--- a/spreg/error_sp_het_regimes.py
+++ b/spreg/error_sp_het_regimes.py
@@ -1760,6 +1760,7 @@ class GM_Combo_Het_Regimes(GM_Endog_Error_Het_Regimes):
             if slx_lags == 0:
                 add_lag = [w_lags, lag_q]
             else:
+                yend2[:, -1:] = REGI.lag_regimes(w, y, regimes, self.regimes_set)
                 cols2regi += [True]
                 add_lag = False
         else:
diff --git a/spreg/error_sp_hom_regimes.py b/spreg/error_sp_hom_regimes.py
index 69bb78f..3672dbc 100644
--- a/spreg/error_sp_hom_regimes.py
+++ b/spreg/error_sp_hom_regimes.py
@@ -1759,6 +1759,7 @@ class GM_Combo_Hom_Regimes(GM_Endog_Error_Hom_Regimes):
             if slx_lags == 0:
                 add_lag = [w_lags, lag_q]
             else:
+                yend2[:, -1:] = REGI.lag_regimes(w, y, regimes, self.regimes_set)
                 add_lag = False
                 cols2regi += [True]
         else:
diff --git a/spreg/error_sp_regimes.py b/spreg/error_sp_regimes.py
index 71e03e4..5ade716 100644
--- a/spreg/error_sp_regimes.py
+++ b/spreg/error_sp_regimes.py
@@ -1540,6 +1540,7 @@ class GM_Combo_Regimes(GM_Endog_Error_Regimes, REGI.Regimes_Frame):
             if slx_lags == 0:
                 add_lag = [w_lags, lag_q]
             else:
+                yend2[:, -1:] = REGI.lag_regimes(w, y, regimes, self.regimes_set)
                 add_lag = False
                 cols2regi += [True]
 
diff --git a/spreg/regimes.py b/spreg/regimes.py
index 5fa788d..c59db9a 100755
--- a/spreg/regimes.py
+++ b/spreg/regimes.py
@@ -618,6 +618,34 @@ def w_regimes_union(w, w_regi_i, regimes_set):
     return w_regi
 
 
+def lag_regimes(w, y, regimes, regimes_set):
+    """
+    Spatial lag of y that uses only the neighbors within the same regime
+
+    Parameters
+    ----------
+    w           : pysal W object
+                  Spatial weights object
+    y           : array
+                  nx1 array of the variable to be lagged
+    regimes     : list
+                  list of n values with the mapping of each observation to a
+                  regime. Assumed to be aligned with 'y'.
+    regimes_set : list
+                  List of ordered regimes tags
+
+    Returns
+    -------
+    wy          : array
+                  nx1 array with the within regimes spatial lag of y
+    """
+    w_i, regi_ids, warn = w_regimes(w, regimes, regimes_set, get_ids=True)
+    wy = np.zeros(y.shape, float)
+    for r in regimes_set:
+        wy[regi_ids[r]] = w_i[r].sparse @ y[regi_ids[r]]
+    return wy
+
+
 def x2xsp(x, regimes, regimes_set):
     """
     Convert X matrix with regimes into a sparse X matrix that accounts for the
diff --git a/spreg/twosls_sp_regimes.py b/spreg/twosls_sp_regimes.py
index c3ab221..c1ec480 100644
--- a/spreg/twosls_sp_regimes.py
+++ b/spreg/twosls_sp_regimes.py
@@ -555,6 +555,8 @@ class GM_Lag_Regimes(TSLS_Regimes, REGI.Regimes_Frame):
                 min_n=len(cols2regi) + 1,
             )
             set_warn(self, warn)
+            if slx_lags > 0:
+                yend2[:, -1:] = REGI.lag_regimes(w, y, regimes, self.regimes_set)
         else:
             cols2regi += [False]
 
-- 
2.43.0


From 0d61e2c116bed5a20f337d32e4d7b62cc14333f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:54 +0000
Subject: [PATCH 21/94] fix: GM_Lag and ML_Lag forward slx_vars to the regimes
 estimator

---
 spreg/ml_lag.py    | 1 +
 spreg/twosls_sp.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/spreg/ml_lag.py b/spreg/ml_lag.py
index 8a728f5..c1ee4e6 100755
--- a/spreg/ml_lag.py
+++ b/spreg/ml_lag.py
@@ -624,6 +624,7 @@ class ML_Lag(BaseML_Lag):
                 regimes=regimes,
                 w=w,
                 slx_lags=slx_lags,
+                slx_vars=slx_vars,
                 method=method,
                 epsilon=epsilon,
                 spat_impacts=spat_impacts,
diff --git a/spreg/twosls_sp.py b/spreg/twosls_sp.py
index 99b8b2d..46b6e70 100755
--- a/spreg/twosls_sp.py
+++ b/spreg/twosls_sp.py
@@ -548,6 +548,7 @@ class GM_Lag(BaseGM_Lag):
                 w=w,
                 w_lags=w_lags,
                 slx_lags=slx_lags,
+                slx_vars=slx_vars,
                 lag_q=lag_q,
                 robust=robust,
                 gwk=gwk,
-- 
2.43.0


From 2dcdde0dd12718fb4adc885a955de7e1c443ce72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:33 +0000
Subject: [PATCH 22/94] fix: instrument names of separate spatial lag models
 kept variables removed for being constant

---
 spreg/twosls_sp_regimes.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/spreg/twosls_sp_regimes.py b/spreg/twosls_sp_regimes.py
index c1ec480..e67c29b 100644
--- a/spreg/twosls_sp_regimes.py
+++ b/spreg/twosls_sp_regimes.py
@@ -714,6 +714,10 @@ class GM_Lag_Regimes(TSLS_Regimes, REGI.Regimes_Frame):
         """
         x_constant, name_x = REGI.check_const_regi(self, x, name_x, regi_ids)
         self.name_x_r = name_x
+        if slx_lags == 0:
+            # instruments without the lags of the variables removed above
+            name_q = name_q[:q.shape[1]] if q is not None else []
+            name_q = name_q + USER.set_name_q_sp(name_x, w_lags, name_q, lag_q)
         for r in self.regimes_set:
             w_r = w_i[r].sparse
             if cores:
-- 
2.43.0


From c550a6a97f850fb33d2a27d27baaeb13721334aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:05 +0000
Subject: [PATCH 23/94] fix: GM_Combo regimes models with SLX and separate lags
 lacked rho, predictions and their labels

---
 spreg/error_sp_het_regimes.py | 11 ++++++-----
 spreg/error_sp_hom_regimes.py | 11 ++++++-----
 spreg/error_sp_regimes.py     | 11 ++++++-----
 3 files changed, 18 insertions(+), 15 deletions(-)

diff --git a/spreg/error_sp_het_regimes.py b/spreg/error_sp_het_regimes.py
index 94ad1b5..3824486 100644
--- a/spreg/error_sp_het_regimes.py
+++ b/spreg/error_sp_het_regimes.py
@@ -1158,8 +1158,9 @@ class GM_Endog_Error_Het_Regimes(RegressionPropsY, REGI.Regimes_Frame):
             (r, list(np.where(np.array(regimes) == r)[0])) for r in self.regimes_set
         )
         if add_lag != False:
-            self.cols2regi += [True]
-            cols2regi += [True]
+            if add_lag is not True:
+                self.cols2regi += [True]
+                cols2regi += [True]
             self.predy_e = np.zeros((self.n, 1), float)
             self.e_pred = np.zeros((self.n, 1), float)
         results_p = {}
@@ -1762,7 +1763,7 @@ class GM_Combo_Het_Regimes(GM_Endog_Error_Het_Regimes):
             else:
                 yend2[:, -1:] = REGI.lag_regimes(w, y, regimes, self.regimes_set)
                 cols2regi += [True]
-                add_lag = False
+                add_lag = True  # already in yend2
         else:
             add_lag = False
             cols2regi += [False]
@@ -1886,7 +1887,7 @@ def _work_endog_error(
         q_r = q[regi_ids[r]]
     else:
         yend_r, q_r = None, None
-    if add_lag != False:
+    if add_lag != False and add_lag is not True:
         yend_r, q_r = set_endog(
             y_r, x_r[:, 1:], w_r, yend_r, q_r, add_lag[0], add_lag[1]
         )
@@ -1910,7 +1911,7 @@ def _work_endog_error(
         )
         set_warn(model, warn)
         
-    if slx_lags == 0:
+    if slx_lags == 0 and add_lag is not True:
         if add_lag != False:
             model.title = "GM SPATIALLY WEIGHTED 2SLS-COMBO MODEL (HET)- REGIME %s" % r            
         else:
diff --git a/spreg/error_sp_hom_regimes.py b/spreg/error_sp_hom_regimes.py
index 3672dbc..719c61b 100644
--- a/spreg/error_sp_hom_regimes.py
+++ b/spreg/error_sp_hom_regimes.py
@@ -1153,8 +1153,9 @@ class GM_Endog_Error_Hom_Regimes(RegressionPropsY, REGI.Regimes_Frame):
             (r, list(np.where(np.array(regimes) == r)[0])) for r in self.regimes_set
         )
         if add_lag != False:
-            self.cols2regi += [True]
-            cols2regi += [True]
+            if add_lag is not True:
+                self.cols2regi += [True]
+                cols2regi += [True]
             self.predy_e = np.zeros((self.n, 1), float)
             self.e_pred = np.zeros((self.n, 1), float)
         results_p = {}
@@ -1760,7 +1761,7 @@ class GM_Combo_Hom_Regimes(GM_Endog_Error_Hom_Regimes):
                 add_lag = [w_lags, lag_q]
             else:
                 yend2[:, -1:] = REGI.lag_regimes(w, y, regimes, self.regimes_set)
-                add_lag = False
+                add_lag = True  # already in yend2
                 cols2regi += [True]
         else:
             add_lag = False
@@ -1884,7 +1885,7 @@ def _work_endog_error(
         q_r = q[regi_ids[r]]
     else:
         yend_r, q_r = None, None
-    if add_lag != False:
+    if add_lag != False and add_lag is not True:
         yend_r, q_r = set_endog(
             y_r, x_r[:, 1:], w_r, yend_r, q_r, add_lag[0], add_lag[1]
         )
@@ -1899,7 +1900,7 @@ def _work_endog_error(
             w_r, model.y, model.predy, model.yend[:, -1].reshape(model.n, 1), model.rho
         )
         set_warn(model, warn)
-    if slx_lags == 0:
+    if slx_lags == 0 and add_lag is not True:
         if add_lag != False:
             model.title = "GM SPATIALLY WEIGHTED 2SLS-COMBO MODEL (HOM)- REGIME %s" % r            
         else:
diff --git a/spreg/error_sp_regimes.py b/spreg/error_sp_regimes.py
index 5ade716..223d621 100644
--- a/spreg/error_sp_regimes.py
+++ b/spreg/error_sp_regimes.py
@@ -981,8 +981,9 @@ class GM_Endog_Error_Regimes(RegressionPropsY, REGI.Regimes_Frame):
             (r, list(np.where(np.array(regimes) == r)[0])) for r in self.regimes_set
         )
         if add_lag != False:
-            self.cols2regi += [True]
-            cols2regi += [True]
+            if add_lag is not True:
+                self.cols2regi += [True]
+                cols2regi += [True]
             self.predy_e = np.zeros((self.n, 1), float)
             self.e_pred = np.zeros((self.n, 1), float)
         results_p = {}
@@ -1541,7 +1542,7 @@ class GM_Combo_Regimes(GM_Endog_Error_Regimes, REGI.Regimes_Frame):
                 add_lag = [w_lags, lag_q]
             else:
                 yend2[:, -1:] = REGI.lag_regimes(w, y, regimes, self.regimes_set)
-                add_lag = False
+                add_lag = True  # already in yend2
                 cols2regi += [True]
 
         else:
@@ -2013,7 +2014,7 @@ def _work_endog_error(
         q_r = q[regi_ids[r]]
     else:
         yend_r, q_r = None, None
-    if add_lag != False:
+    if add_lag != False and add_lag is not True:
         yend_r, q_r = set_endog(
             y_r, x_r[:, 1:], w_r, yend_r, q_r, add_lag[0], add_lag[1]
         )
@@ -2027,7 +2028,7 @@ def _work_endog_error(
         )
         set_warn(model, warn)
     model.w = w_r
-    if slx_lags == 0:
+    if slx_lags == 0 and add_lag is not True:
         if add_lag != False:
             model.title = "SPATIALLY WEIGHTED 2SLS - GM-COMBO MODEL - REGIME %s" % r            
         else:
-- 
2.43.0


From bdb9d134e15f7fe5ecf0618b963945ffd13f5086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:09 +0000
Subject: [PATCH 24/94] fix: instrument names of separate GM_Combo regimes
 models kept variables removed for being constant

---
 spreg/error_sp_het_regimes.py | 4 ++++
 spreg/error_sp_hom_regimes.py | 4 ++++
 spreg/error_sp_regimes.py     | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/spreg/error_sp_het_regimes.py b/spreg/error_sp_het_regimes.py
index 3824486..707bef7 100644
--- a/spreg/error_sp_het_regimes.py
+++ b/spreg/error_sp_het_regimes.py
@@ -1176,6 +1176,10 @@ class GM_Endog_Error_Het_Regimes(RegressionPropsY, REGI.Regimes_Frame):
         """
         x_constant, name_x = REGI.check_const_regi(self, x, name_x, regi_ids)
         self.name_x_r = name_x + name_yend
+        if isinstance(add_lag, list):
+            # instruments without the lags of the variables removed above
+            name_q = name_q[:q.shape[1]] if q is not None else []
+            name_q = name_q + USER.set_name_q_sp(name_x, add_lag[0], name_q, add_lag[1])
         for r in self.regimes_set:
             if cores:
                 pool = mp.Pool(None)
diff --git a/spreg/error_sp_hom_regimes.py b/spreg/error_sp_hom_regimes.py
index 719c61b..ea6f72d 100644
--- a/spreg/error_sp_hom_regimes.py
+++ b/spreg/error_sp_hom_regimes.py
@@ -1171,6 +1171,10 @@ class GM_Endog_Error_Hom_Regimes(RegressionPropsY, REGI.Regimes_Frame):
         """
         x_constant, name_x = REGI.check_const_regi(self, x, name_x, regi_ids)
         self.name_x_r = name_x + name_yend
+        if isinstance(add_lag, list):
+            # instruments without the lags of the variables removed above
+            name_q = name_q[:q.shape[1]] if q is not None else []
+            name_q = name_q + USER.set_name_q_sp(name_x, add_lag[0], name_q, add_lag[1])
         for r in self.regimes_set:
             if cores:
                 pool = mp.Pool(None)
diff --git a/spreg/error_sp_regimes.py b/spreg/error_sp_regimes.py
index 223d621..ec57a60 100644
--- a/spreg/error_sp_regimes.py
+++ b/spreg/error_sp_regimes.py
@@ -999,6 +999,10 @@ class GM_Endog_Error_Regimes(RegressionPropsY, REGI.Regimes_Frame):
         """
         x_constant, name_x = REGI.check_const_regi(self, x, name_x, regi_ids)
         self.name_x_r = name_x + name_yend
+        if isinstance(add_lag, list):
+            # instruments without the lags of the variables removed above
+            name_q = name_q[:q.shape[1]] if q is not None else []
+            name_q = name_q + USER.set_name_q_sp(name_x, add_lag[0], name_q, add_lag[1])
         for r in self.regimes_set:
             if cores:
                 pool = mp.Pool(None)
-- 
2.43.0


From 55b695e148f42b4e91ade98a5b9b7bf851fee867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:30 +0000
Subject: [PATCH 25/94] fix: lambda name of separate heteroskedastic regimes
 models lacked the separator

---
 spreg/error_sp_het_regimes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spreg/error_sp_het_regimes.py b/spreg/error_sp_het_regimes.py
index 707bef7..5d3e5c7 100644
--- a/spreg/error_sp_het_regimes.py
+++ b/spreg/error_sp_het_regimes.py
@@ -1929,7 +1929,7 @@ def _work_endog_error(
     model.name_y = "%s_%s" % (str(r), name_y)
     model.name_x = ["%s_%s" % (str(r), i) for i in name_x]
     model.name_yend = ["%s_%s" % (str(r), i) for i in name_yend]
-    model.name_z = model.name_x + model.name_yend + [str(r)+"lambda"]
+    model.name_z = model.name_x + model.name_yend + [str(r)+"_lambda"]
     model.name_q = ["%s_%s" % (str(r), i) for i in name_q]
     model.name_h = model.name_x + model.name_q
     model.name_w = name_w
-- 
2.43.0


From ac19f969aed76e35d63e494e112faf2a1d4160d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:13 +0000
Subject: [PATCH 26/94] fix: Wald accepts an array of right-hand-side values

---
 spreg/regimes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spreg/regimes.py b/spreg/regimes.py
index c59db9a..9ec2ab6 100755
--- a/spreg/regimes.py
+++ b/spreg/regimes.py
@@ -143,7 +143,7 @@ class Wald:
     """
 
     def __init__(self, reg, r, q=None):
-        if not q:
+        if q is None:
             q = np.zeros((r.shape[0], 1))
         self.w, self.pvalue = wald_test(reg.betas, r, q, reg.vm)
 
-- 
2.43.0


From 94dd30fcb36e6d657d95e19b37eddae04d921321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:54 +0000
Subject: [PATCH 27/94] fix: wide panels lost their layout when a variable is
 constant within one period

---
 spreg/panel_fe.py    | 8 ++++----
 spreg/panel_utils.py | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/spreg/panel_fe.py b/spreg/panel_fe.py
index 703d351..f4e4fb1 100755
--- a/spreg/panel_fe.py
+++ b/spreg/panel_fe.py
@@ -333,9 +333,9 @@ class Panel_FE_Lag(BasePanel_FE_Lag):
     ):
         set_warn(self, "This function is deprecated and was superseded by spreg.ML_LagFE in panel.py")
         n_rows = USER.check_arrays(y, x)
-        x_constant, name_x, warn = USER.check_constant(x, name_x, just_rem=True)
+        bigy, bigx, name_y, name_x, T, warn = check_panel(y, x, w, name_y, name_x)
         set_warn(self, warn)
-        bigy, bigx, name_y, name_x, T, warn = check_panel(y, x_constant, w, name_y, name_x)
+        bigx, name_x, warn = USER.check_constant(bigx, name_x, just_rem=True)
         set_warn(self, warn)
         w = USER.check_weights(w, bigy, w_required=True, time=True)
 
@@ -623,9 +623,9 @@ class Panel_FE_Error(BasePanel_FE_Error):
     ):
         set_warn(self, "This function is deprecated and was superseded by spreg.ML_ErrorFE in panel.py")
         n_rows = USER.check_arrays(y, x)
-        x_constant, name_x, warn = USER.check_constant(x, name_x, True)
+        bigy, bigx, name_y, name_x, T, warn = check_panel(y, x, w, name_y, name_x)
         set_warn(self, warn)
-        bigy, bigx, name_y, name_x, T, warn = check_panel(y, x_constant, w, name_y, name_x)
+        bigx, name_x, warn = USER.check_constant(bigx, name_x, just_rem=True)
         set_warn(self, warn)
         w = USER.check_weights(w, bigy, w_required=True, time=True)
 
diff --git a/spreg/panel_utils.py b/spreg/panel_utils.py
index e4bbb47..d91d12d 100755
--- a/spreg/panel_utils.py
+++ b/spreg/panel_utils.py
@@ -21,9 +21,9 @@ def prepare_panel(y, x, w, name_y, name_x, slx_lags, slx_vars, title, add_consta
     """
     warn = []
     n_rows = USER.check_arrays(y, x)
-    x_constant, name_x, warn_add = USER.check_constant(x, name_x, just_rem=True)
+    bigy, bigx, name_y, name_x, T, warn_add = check_panel(y, x, w, name_y, name_x)
     warn.append(warn_add)
-    bigy, bigx, name_y, name_x, T, warn_add = check_panel(y, x_constant, w, name_y, name_x)
+    bigx, name_x, warn_add = USER.check_constant(bigx, name_x, just_rem=True)
     warn.append(warn_add)
     if add_constant:
         bigx, name_x, warn_add = USER.check_constant(bigx, name_x)
-- 
2.43.0


From b67fa322b7aab6247c6f6bf01c15ca52026252a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:54 +0000
Subject: [PATCH 28/94] fix: panel models accept Series in the long layout

---
 spreg/panel_utils.py | 6 +++++-
 spreg/sp_panels.py   | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/spreg/panel_utils.py b/spreg/panel_utils.py
index d91d12d..b198072 100755
--- a/spreg/panel_utils.py
+++ b/spreg/panel_utils.py
@@ -66,14 +66,18 @@ def check_panel(y, x, w, name_y, name_x):
             except AttributeError:
                 name_y = y.name
         y = y.to_numpy()
+        if y.ndim == 1:
+            y = y.reshape(-1, 1)
         
     if isinstance(x, (pd.Series, pd.DataFrame)):
         if name_x is None:
             try:
                 name_x = x.columns.to_list()
             except AttributeError:
-                name_x = x.name
+                name_x = [x.name]
         x = x.to_numpy()
+        if x.ndim == 1:
+            x = x.reshape(-1, 1)
 
     # Check if 'y' is a balanced panel with respect to 'W'
     if y.shape[0] / w.n != y.shape[0] // w.n:
diff --git a/spreg/sp_panels.py b/spreg/sp_panels.py
index 7a27a5e..22fcb5e 100755
--- a/spreg/sp_panels.py
+++ b/spreg/sp_panels.py
@@ -500,14 +500,18 @@ def _get_panel_data(y, x, w, name_y, name_x):
             except AttributeError:
                 name_y = y.name
         y = y.to_numpy()
+        if y.ndim == 1:
+            y = y.reshape(-1, 1)
         
     if isinstance(x, (pd.Series, pd.DataFrame)):
         if name_x is None:
             try:
                 name_x = x.columns.to_list()
             except AttributeError:
-                name_x = x.name
+                name_x = [x.name]
         x = x.to_numpy()
+        if x.ndim == 1:
+            x = x.reshape(-1, 1)
 
     if y.shape[0] / w.n != y.shape[0] // w.n:
         raise Exception("y must be ntx1 or nxt, and w must be an nxn PySAL W object.")
-- 
2.43.0


From cce1e38eaed396e8f758063ce84155968d7da7ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:54 +0000
Subject: [PATCH 29/94] fix: marginal BSK tests alone and on models other than
 PooledOLS

---
 spreg/diagnostics_panel.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/spreg/diagnostics_panel.py b/spreg/diagnostics_panel.py
index 8222809..a2c5ccc 100755
--- a/spreg/diagnostics_panel.py
+++ b/spreg/diagnostics_panel.py
@@ -273,16 +273,17 @@ def BSK_tests(reg, w, which="all", GM_BSK=False):
 
     if any(test in which for test in ["LMJ", "LM1", "LM2"]):
         if reg.__class__.__name__ != 'PooledOLS':
-            pooled_mod = PooledOLS(reg.y, reg.x)
+            pooled_mod = PooledOLS(reg.y, reg.x, w, spat_diag=False)
         else:
             pooled_mod = reg
 
+        u = pooled_mod.u 
+        u_mat = u.reshape((T, N))
+        u_sq_sum = np.sum(u**2)
+
         if any(test in which for test in ["LMJ", "LM1"]):
             # G term (Random Effects) - Eq 2.11
-            u = pooled_mod.u 
-            u_mat = u.reshape((T, N))
             u_sum_sq = np.sum(np.sum(u_mat, axis=0)**2) 
-            u_sq_sum = np.sum(u**2)
             G = (u_sum_sq / u_sq_sum) - 1
 
             # LM1: Marginal RE (Eq 2.12)
-- 
2.43.0


From 1dac6ade3a229f261822cbcc2d36fea0dcfa9b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:54 +0000
Subject: [PATCH 30/94] fix: panel_Hausman counts the compared coefficients and
 takes ML_ErrorRE

---
 spreg/diagnostics_panel.py | 2 +-
 spreg/panel.py             | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/spreg/diagnostics_panel.py b/spreg/diagnostics_panel.py
index a2c5ccc..230992c 100755
--- a/spreg/diagnostics_panel.py
+++ b/spreg/diagnostics_panel.py
@@ -218,7 +218,7 @@ def panel_Hausman(panel_fe, panel_re, sp_lag=True):
     vard = panel_re.varb[1:, 1:] - panel_fe.varb
     vardi = la.inv(vard)
     h = spdot(d.T, spdot(vardi, d))
-    pval = chisqprob(h, panel_re.k)
+    pval = chisqprob(h, d.shape[0])
     return (h[0][0], pval[0][0])
 
 def BSK_tests(reg, w, which="all", GM_BSK=False):
diff --git a/spreg/panel.py b/spreg/panel.py
index 57902d3..df93a3c 100755
--- a/spreg/panel.py
+++ b/spreg/panel.py
@@ -2072,6 +2072,7 @@ class BaseML_ErrorRE(RegressionPropsY, RegressionPropsVM):
         vv1 = np.hstack((np.zeros((2, self.k)), vm1[:2, :2]))
 
         self.vm = np.vstack((vv, vv1))
+        self.varb = varb
         self.n = NT
 
     def err_c_loglik_ord(self, 
-- 
2.43.0


From bf5e39d247115ecb790a9daca88aedf9fb002cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:45 +0000
Subject: [PATCH 31/94] fix: GM_KKP repeats regimes given as an array or Series
 for every period

---
 spreg/sp_panels.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spreg/sp_panels.py b/spreg/sp_panels.py
index 22fcb5e..e59adab 100755
--- a/spreg/sp_panels.py
+++ b/spreg/sp_panels.py
@@ -378,7 +378,7 @@ class GM_KKP(BaseGM_KKP, REGI.Regimes_Frame):
         self.regime_err_sep = False
         self.regimes_set = REGI._get_regimes_set(self.regimes)
         if len(self.regimes) == w.n:
-            regimes_l = self.regimes * (n_rows // w.n)
+            regimes_l = list(self.regimes) * (n_rows // w.n)
         elif len(self.regimes) == n_rows:
             regimes_l = self.regimes
         else:
-- 
2.43.0


From 656717b42f7f52ce4962bd044ecc210f187ba77f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:45 +0000
Subject: [PATCH 32/94] fix: dependent variable name of ML_ErrorPooled and
 variable types of ML_ErrorFE

---
 spreg/panel.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/spreg/panel.py b/spreg/panel.py
index df93a3c..4ddba38 100755
--- a/spreg/panel.py
+++ b/spreg/panel.py
@@ -1053,7 +1053,6 @@ class ML_ErrorPooled(BaseML_ErrorPooled):
         BaseML_ErrorPooled.__init__(self, bigy, bigx, w, method=method, epsilon=epsilon)
         
         self.name_ds = USER.set_name_ds(name_ds)
-        self.name_y = USER.set_name_y(name_y)
         self.slx_lags = slx_lags
         self.name_w = USER.set_name_w(name_w, w)
         
@@ -1844,7 +1843,7 @@ class ML_ErrorFE(BaseML_ErrorFE):
         self.name_w = USER.set_name_w(name_w, w)
 
         self.output = pd.DataFrame(self.name_x, columns=['var_names'])
-        self.output['var_type'] = ['o'] + ['x'] * (kx-1) + ['wx'] * kwx + ["lambda"]
+        self.output['var_type'] = ['x'] * kx + ['wx'] * kwx + ["lambda"]
         self.output['regime'], self.output['equation'] = (0, 0)
 
         self.aic = DIAG.akaike(reg=self)
-- 
2.43.0


From 7ccf10a8ec214afcd19b12fdca7a4c9d8f9575c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:45 +0000
Subject: [PATCH 33/94] fix: wide panels with more columns than rows were
 rejected

---
 spreg/panel_fe.py    | 4 ++--
 spreg/panel_re.py    | 4 ++--
 spreg/panel_utils.py | 5 ++++-
 spreg/sp_panels.py   | 2 +-
 4 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/spreg/panel_fe.py b/spreg/panel_fe.py
index f4e4fb1..cded9d8 100755
--- a/spreg/panel_fe.py
+++ b/spreg/panel_fe.py
@@ -332,8 +332,8 @@ class Panel_FE_Lag(BasePanel_FE_Lag):
         name_ds=None,
     ):
         set_warn(self, "This function is deprecated and was superseded by spreg.ML_LagFE in panel.py")
-        n_rows = USER.check_arrays(y, x)
         bigy, bigx, name_y, name_x, T, warn = check_panel(y, x, w, name_y, name_x)
+        n_rows = USER.check_arrays(bigy, bigx)
         set_warn(self, warn)
         bigx, name_x, warn = USER.check_constant(bigx, name_x, just_rem=True)
         set_warn(self, warn)
@@ -622,8 +622,8 @@ class Panel_FE_Error(BasePanel_FE_Error):
         name_ds=None,
     ):
         set_warn(self, "This function is deprecated and was superseded by spreg.ML_ErrorFE in panel.py")
-        n_rows = USER.check_arrays(y, x)
         bigy, bigx, name_y, name_x, T, warn = check_panel(y, x, w, name_y, name_x)
+        n_rows = USER.check_arrays(bigy, bigx)
         set_warn(self, warn)
         bigx, name_x, warn = USER.check_constant(bigx, name_x, just_rem=True)
         set_warn(self, warn)
diff --git a/spreg/panel_re.py b/spreg/panel_re.py
index 04a60cc..e01eccf 100755
--- a/spreg/panel_re.py
+++ b/spreg/panel_re.py
@@ -386,8 +386,8 @@ class Panel_RE_Lag(BasePanel_RE_Lag):
         name_ds=None,
     ):
         set_warn(self, "This function is deprecated and was superseded by spreg.ML_LagRE in panel.py")
-        n_rows = USER.check_arrays(y, x)
         bigy, bigx, name_y, name_x, T, warn = check_panel(y, x, w, name_y, name_x)
+        n_rows = USER.check_arrays(bigy, bigx)
         set_warn(self, warn)
         bigx, name_x, warn = USER.check_constant(bigx, name_x)
         set_warn(self, warn)
@@ -754,8 +754,8 @@ class Panel_RE_Error(BasePanel_RE_Error):
         name_ds=None,
     ):
         set_warn(self, "This function is deprecated and was superseded by spreg.ML_ErrorRE in panel.py")
-        n_rows = USER.check_arrays(y, x)
         bigy, bigx, name_y, name_x, T, warn = check_panel(y, x, w, name_y, name_x)
+        n_rows = USER.check_arrays(bigy, bigx)
         set_warn(self, warn)
         bigx, name_x, warn = USER.check_constant(bigx, name_x)
         set_warn(self, warn)
diff --git a/spreg/panel_utils.py b/spreg/panel_utils.py
index b198072..9a85e50 100755
--- a/spreg/panel_utils.py
+++ b/spreg/panel_utils.py
@@ -20,8 +20,8 @@ def prepare_panel(y, x, w, name_y, name_x, slx_lags, slx_vars, title, add_consta
                    Whether to add a constant term to the data. Default is True.
     """
     warn = []
-    n_rows = USER.check_arrays(y, x)
     bigy, bigx, name_y, name_x, T, warn_add = check_panel(y, x, w, name_y, name_x)
+    n_rows = USER.check_arrays(bigy, bigx)
     warn.append(warn_add)
     bigx, name_x, warn_add = USER.check_constant(bigx, name_x, just_rem=True)
     warn.append(warn_add)
@@ -79,6 +79,9 @@ def check_panel(y, x, w, name_y, name_x):
         if x.ndim == 1:
             x = x.reshape(-1, 1)
 
+    if not isinstance(y, np.ndarray) or not isinstance(x, np.ndarray):
+        raise Exception("y and x must be numpy arrays, Series or DataFrames.")
+
     # Check if 'y' is a balanced panel with respect to 'W'
     if y.shape[0] / w.n != y.shape[0] // w.n:
         raise Exception("y must be ntx1 or nxt, and w must be an nxn PySAL W" "object.")
diff --git a/spreg/sp_panels.py b/spreg/sp_panels.py
index e59adab..8fabd57 100755
--- a/spreg/sp_panels.py
+++ b/spreg/sp_panels.py
@@ -338,8 +338,8 @@ class GM_KKP(BaseGM_KKP, REGI.Regimes_Frame):
         name_regimes=None,
     ):
         set_warn(self, "This function is deprecated and was superseded by spreg.GM_ErrorRE in panel.py")
-        n_rows = USER.check_arrays(y, x)
         bigy, bigx, name_y, name_x = _get_panel_data(y, x, w, name_y, name_x)
+        n_rows = USER.check_arrays(bigy, bigx)
         w = USER.check_weights(w, bigy, w_required=True, time=True)
         x_constant, name_x, warn = USER.check_constant(bigx, name_x)
         set_warn(self, warn)
-- 
2.43.0


From 316c9e6f9c099d016201e6db1362bf079ca686f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:54 +0000
Subject: [PATCH 34/94] fix: wide panel regressors with an incomplete last
 variable are rejected, not truncated

---
 spreg/panel_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spreg/panel_utils.py b/spreg/panel_utils.py
index 9a85e50..8065f8d 100755
--- a/spreg/panel_utils.py
+++ b/spreg/panel_utils.py
@@ -94,6 +94,8 @@ def check_panel(y, x, w, name_y, name_x):
             "to k2, etc."
         )
         N, T = y.shape[0], y.shape[1]
+        if x.shape[1] % T:
+            raise Exception("x in wide format must have k*t columns.")
         k = x.shape[1] // T
         bigy = y.reshape((y.size, 1), order="F")
         bigx = x[:, 0:T].reshape((N * T, 1), order="F")
-- 
2.43.0


From b650a3b0d409b0bafefc2abf3080024aa10165ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:55 +0000
Subject: [PATCH 35/94] fix: pooled panel error models with nonspat_diag=False
 raised UnboundLocalError

---
 spreg/panel.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spreg/panel.py b/spreg/panel.py
index 4ddba38..ccdb9b6 100755
--- a/spreg/panel.py
+++ b/spreg/panel.py
@@ -854,6 +854,7 @@ class GM_ErrorPooled(BaseGM_ErrorPooled):
         self.output['regime'], self.output['equation'] = (0, 0)
         self.other_top = _summary_iteration(self)
 
+        other_end = ""
         if nonspat_diag:
             self.bsk = BSK_tests(self, w, which=['LMC_RE'])
             other_end = "\nDIAGNOSTIC TESTS\n"
@@ -1066,6 +1067,7 @@ class ML_ErrorPooled(BaseML_ErrorPooled):
         self.schwarz = DIAG.schwarz(reg=self)
         self.other_top = _nonspat_top(self, ml=True)     
 
+        other_end = ""
         if nonspat_diag:
             self.bsk = BSK_tests(self, w, which=['LMC_RE'])
             other_end = "\nDIAGNOSTIC TESTS\n"
-- 
2.43.0


From 0f84e1b006d964638ad950fe1bfb963948189b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:58 +0000
Subject: [PATCH 36/94] fix: impacts of panel lag models with selected SLX
 variables raised a shape error

---
 spreg/sputils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spreg/sputils.py b/spreg/sputils.py
index da863ef..a4b7ead 100755
--- a/spreg/sputils.py
+++ b/spreg/sputils.py
@@ -374,7 +374,7 @@ def _sp_effects(reg, variables, spmult, slx_lags=0,slx_vars="All"):
         else:
             variables_wx = reg.output.query("var_type == 'wx'")
             variables_wx_index = variables_wx.index
-            if hasattr(reg, 'slx_vars') and isinstance(slx_vars,list):
+            if isinstance(slx_vars, list):
                 flexwx_indices = list(compress(variables_x_index,slx_vars))   # indices of x variables in wx
             else:
                 flexwx_indices = variables_x_index    # all x variables
-- 
2.43.0


From 724176ecf7b4a217061e141fbd9a1fc067ea6889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:46 +0000
Subject: [PATCH 37/94] fix: sur_dictxy and sur_dictZ used dict.has_key,
 removed in Python 3, for long tables

---
 spreg/sur_utils.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/spreg/sur_utils.py b/spreg/sur_utils.py
index 3041e41..0457234 100644
--- a/spreg/sur_utils.py
+++ b/spreg/sur_utils.py
@@ -121,11 +121,11 @@ def sur_dictxy(db, y_vars, x_vars, space_id=None, time_id=None):
         for i in range(bign):
             sval = ss[i][0]  # e.g. FIPSNO 27077
             tval = tt[i][0]  # e.g. TIME 1960
-            if tmpy.has_key(tval):
+            if tval in tmpy:
                 tmpy[tval][sval] = y[i]
-            if tmpX.has_key(tval):
+            if tval in tmpX:
                 tmpX[tval][sval] = longxc[i]
-            if not sdict.has_key(sval):
+            if sval not in sdict:
                 skeys.append(sval)
                 sdict[sval] = True
 
@@ -226,9 +226,9 @@ def sur_dictZ(db, z_vars, form="spreg", const=False, space_id=None, time_id=None
         for i in range(bign):
             sval = ss[i][0]  # e.g. 27077
             tval = tt[i][0]  # e.g. 1960
-            if tmpz.has_key(tval):
+            if tval in tmpz:
                 tmpz[tval][sval] = longz[i]
-            if not sdict.has_key(sval):
+            if sval not in sdict:
                 skeys.append(sval)
                 sdict[sval] = True
 
-- 
2.43.0


From 4d659ed23cccd36529e574dbf992d11842840cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:09 +0000
Subject: [PATCH 38/94] fix: score of the LM lag test in SUR models weighted by
 matrix instead of element-wise product

---
 spreg/diagnostics_sur.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spreg/diagnostics_sur.py b/spreg/diagnostics_sur.py
index cc6a032..eff8b7a 100644
--- a/spreg/diagnostics_sur.py
+++ b/spreg/diagnostics_sur.py
@@ -225,7 +225,7 @@ def surLMlag(n_eq, WS, bigy, bigX, bigE, bigYP, sig, varb):
     WY = WS @ Y
     EWY = np.dot(bigE.T, WY)
     sigi = la.inv(sig)
-    SEWE = sigi @ EWY
+    SEWE = sigi * EWY
     score = SEWE.sum(axis=0)  # column sums
     score.resize(1, n_eq)  # score as a row vector
 
-- 
2.43.0


From 42a9125ad70ce54ccdb78edfbd3610c2e8192f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:20 +0000
Subject: [PATCH 39/94] fix: summary of 3SLS systems whose equations split the
 same number of coefficients differently raised IndexError

---
 spreg/summary_output.py | 51 +++++++++++++++++------------------------
 1 file changed, 21 insertions(+), 30 deletions(-)

diff --git a/spreg/summary_output.py b/spreg/summary_output.py
index 33145e8..15086d5 100755
--- a/spreg/summary_output.py
+++ b/spreg/summary_output.py
@@ -1900,37 +1900,28 @@ def summary_diag_sur(
                 if tsls:
                     kend = len(reg.name_bigyend[list(reg.name_bigyend.keys())[0]])
                     kx += -kend
-                names_chow = {}
-                reg_counter = 1
-                for k in range(len(reg.surchow)):
-                    names_chow[k] = ""
-                    if k < ((kx + kend) * reg_counter - kend) / regK:
-                        kxadj = int(k - (reg_counter - 1) * kend / regK)
-                        for i in reg.name_bigX:
-                            names_chow[k] += reg.name_bigX[i][kxadj] + ", "
-                    else:
-                        for j in reg.name_bigyend:
-                            kxadj = int(k - kx * reg_counter / regK)
-                            names_chow[k] += reg.name_bigyend[j][kxadj] + ", "
-                    if k + 1 == (kx + kend) * reg_counter / regK:
-                        reg_counter += 1
-                    if len(names_chow[k]) > 42:
-                        names_chow[k] = names_chow[k][0:38] + "..."
-                    else:
-                        names_chow[k] = names_chow[k][:-2]
-                reg_counter = 1
-                for k in range(len(reg.surchow)):
-                    if k < ((kx + kend) * reg_counter - kend) / regK:
-                        kadj = int(k - (reg_counter - 1) * kend / regK)
-                    else:
-                        kadj = int(kx + k - kx * reg_counter / regK)
-                    if k + 1 == (kx + kend) * reg_counter / regK:
-                        reg_counter += 1
+                # coefficients are listed by regime: exogenous, then endogenous
+                order = []
+                for r in range(regK):
+                    order += range(r * (kx // regK), (r + 1) * (kx // regK))
+                    order += range(
+                        kx + r * (kend // regK), kx + (r + 1) * (kend // regK)
+                    )
+                order += range(kx + regK * (kend // regK), kx + kend)
+                names = {}
+                for i in reg.name_bigX:
+                    names[i] = list(reg.name_bigX[i])
+                    if tsls:
+                        names[i] += list(reg.name_bigyend[i])
+                for k in order:
+                    name_chow = ", ".join(names[i][k] for i in names)
+                    if len(name_chow) > 40:
+                        name_chow = name_chow[0:38] + "..."
                     strChow += "%41s        %2d   %10.3f           %6.4f\n" % (
-                        names_chow[k],
-                        reg.surchow[kadj][1],
-                        reg.surchow[kadj][0],
-                        reg.surchow[kadj][2],
+                        name_chow,
+                        reg.surchow[k][1],
+                        reg.surchow[k][0],
+                        reg.surchow[k][2],
                     )
             if spat_diag and chow_lamb:
                 strChow += "%41s        %2d   %10.3f           %6.4f\n" % (
-- 
2.43.0


From fdb938a2250402061eefe65ec9f118776a24936d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:43 +0000
Subject: [PATCH 40/94] fix: Chow tests by regime of 3SLS contrasted the wrong
 coefficients when there are endogenous variables

---
 spreg/sur.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spreg/sur.py b/spreg/sur.py
index fbe4352..a02042a 100755
--- a/spreg/sur.py
+++ b/spreg/sur.py
@@ -941,7 +941,7 @@ class ThreeSLS(BaseThreeSLS, REGI.Regimes_Frame):
                 self.chow_regimes[r] = REGI._chow_run(
                     len(cols2regi_dic[r]),
                     0,
-                    0,
+                    bigyend[r].shape[1] // len(self.regimes_set),
                     len(self.regimes_set),
                     self.b3SLS[r],
                     self.varb[varb_counter:counter_end, varb_counter:counter_end],
-- 
2.43.0


From d9ecfa964ff1930b747fcea26e305851a97aefff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:43 +0000
Subject: [PATCH 41/94] fix: SUR models with regimes or a spatial lag replaced
 the entries of the caller's dictionaries and lists

---
 spreg/sur.py       |  3 +++
 spreg/sur_error.py |  2 ++
 spreg/sur_lag.py   | 12 ++++++++++++
 3 files changed, 17 insertions(+)

diff --git a/spreg/sur.py b/spreg/sur.py
index a02042a..05840a1 100755
--- a/spreg/sur.py
+++ b/spreg/sur.py
@@ -459,6 +459,7 @@ class SUR(BaseSUR, REGI.Regimes_Frame):
             self.name_x_r = name_bigX
             cols2regi_dic = {}
             self.name_bigX = {}
+            bigX = dict(bigX)  # leave the argument unchanged
             for r in range(self.n_eq):
                 cols2regi_dic[r] = REGI.check_cols2regi(
                     self.constant_regi, self.cols2regi, bigX[r], add_cons=False
@@ -876,6 +877,8 @@ class ThreeSLS(BaseThreeSLS, REGI.Regimes_Frame):
                 {},
                 {},
             )
+            # leave the arguments unchanged
+            bigX, bigyend, bigq = dict(bigX), dict(bigyend), dict(bigq)
 
             for r in range(self.n_eq):
                 self.name_x_r[r] = name_bigX[r] + name_bigyend[r]
diff --git a/spreg/sur_error.py b/spreg/sur_error.py
index 9a1585c..c582ff4 100644
--- a/spreg/sur_error.py
+++ b/spreg/sur_error.py
@@ -358,6 +358,7 @@ class SURerrorGM(BaseSURerrorGM, REGI.Regimes_Frame):
             cols2regi_dic = {}
             self.name_bigX = {}
             self.name_x_r = name_bigX
+            bigX = dict(bigX)  # leave the argument unchanged
 
             for r in range(self.n_eq):
                 cols2regi_dic[r] = REGI.check_cols2regi(
@@ -805,6 +806,7 @@ class SURerrorML(BaseSURerrorML, REGI.Regimes_Frame):
             self.name_x_r = name_bigX
             cols2regi_dic = {}
             self.name_bigX = {}
+            bigX = dict(bigX)  # leave the argument unchanged
             for r in range(self.n_eq):
                 cols2regi_dic[r] = REGI.check_cols2regi(
                     self.constant_regi, self.cols2regi, bigX[r], add_cons=False
diff --git a/spreg/sur_lag.py b/spreg/sur_lag.py
index 6eab0ac..d179c91 100644
--- a/spreg/sur_lag.py
+++ b/spreg/sur_lag.py
@@ -255,6 +255,18 @@ class SURlagIV(BaseThreeSLS, REGI.Regimes_Frame):
         self.name_w = USER.set_name_w(name_w, w)
         if bigyend and not (bigq):
             raise Exception("Instruments needed when endogenous variables")
+        # variables and names are added below, not to the arguments
+        bigX = dict(bigX)
+        if bigyend is not None:
+            bigyend = dict(bigyend)
+        if bigq is not None:
+            bigq = dict(bigq)
+        if name_bigX is not None:
+            name_bigX = {r: list(name_bigX[r]) for r in name_bigX}
+        if name_bigyend is not None:
+            name_bigyend = {r: list(name_bigyend[r]) for r in name_bigyend}
+        if name_bigq is not None:
+            name_bigq = {r: list(name_bigq[r]) for r in name_bigq}
         # initialize
         self.bigy = bigy
         self.n_eq = len(self.bigy.keys())
-- 
2.43.0


From a9f4e5c553a90385b5d7dc050abdace0462eccf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:51 +0000
Subject: [PATCH 42/94] fix: SURlagIV ignored the names given for endogenous
 variables and instruments

---
 spreg/sur_lag.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/spreg/sur_lag.py b/spreg/sur_lag.py
index d179c91..3c5138c 100644
--- a/spreg/sur_lag.py
+++ b/spreg/sur_lag.py
@@ -286,19 +286,19 @@ class SURlagIV(BaseThreeSLS, REGI.Regimes_Frame):
                 ct = "Constant_" + str(r + 1)  # NOTE: constant always included in X
                 name_x.insert(0, ct)
                 name_bigX[r] = name_x
-        if name_bigyend is None:
-            name_bigyend = {}
         if bigyend is not None:  # check on other endogenous
             self.bigyend = bigyend
-            for r in range(self.n_eq):
+        if bigyend is None or name_bigyend is None:
+            name_bigyend = {}
+            for r in bigyend or {}:
                 ky = bigyend[r].shape[1]
                 name_ye = ["end_" + str(i + 1) + "_" + str(r + 1) for i in range(ky)]
                 name_bigyend[r] = name_ye
-        if name_bigq is None:
-            name_bigq = {}
         if bigq is not None:  # check on instruments
             self.bigq = bigq
-            for r in range(self.n_eq):
+        if bigq is None or name_bigq is None:
+            name_bigq = {}
+            for r in bigq or {}:
                 ki = bigq[r].shape[1]
                 name_i = ["inst_" + str(i + 1) + "_" + str(r + 1) for i in range(ki)]
                 name_bigq[r] = name_i
-- 
2.43.0


From 6a7e6bbdf29790474a8a0dab17a68d5f3f01b8c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:01 +0000
Subject: [PATCH 43/94] fix: SURlagIV with regimes and endogenous variables,
 instruments or higher lags stacked sparse matrices with np.hstack

---
 spreg/sur_lag.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/spreg/sur_lag.py b/spreg/sur_lag.py
index 3c5138c..920a56c 100644
--- a/spreg/sur_lag.py
+++ b/spreg/sur_lag.py
@@ -13,6 +13,7 @@ from . import regimes as REGI
 from .sur import BaseThreeSLS
 from .diagnostics_sur import sur_setp, sur_chow, sur_joinrho
 from .sur_utils import check_k, sur_dictxy, sur_dictZ
+from .sputils import sphstack
 
 __all__ = ["SURlagIV"]
 
@@ -386,13 +387,13 @@ class SURlagIV(BaseThreeSLS, REGI.Regimes_Frame):
                     bigwq = {}
                     for r in range(self.n_eq):
                         bigwq = WS @ bigq[r]
-                        bigq[r] = np.hstack((bigq[r], bigwx[r], bigwq))
+                        bigq[r] = sphstack(sphstack(bigq[r], bigwx[r]), bigwq)
                         wqnames = ["W_" + i for i in self.name_bigq[r]]
                         wxnames[r] = wxnames[r] + wqnames
                         self.name_bigq[r] = self.name_bigq[r] + wxnames[r]
                 else:  # no lags for other instruments
                     for r in range(self.n_eq):
-                        bigq[r] = np.hstack((bigq[r], bigwx[r]))
+                        bigq[r] = sphstack(bigq[r], bigwx[r])
                         self.name_bigq[r] = self.name_bigq[r] + wxnames[r]
             else:  # no other instruments only wx
                 bigq = {}
@@ -407,7 +408,7 @@ class SURlagIV(BaseThreeSLS, REGI.Regimes_Frame):
                 wxnames[r] = nameswork
                 for i in range(1, w_lags):
                     bigwxwork = WS @ bigwxwork
-                    bigwx[r] = np.hstack((bigwx[r], bigwxwork))
+                    bigwx[r] = sphstack(bigwx[r], bigwxwork)
                     nameswork = ["W" + i for i in nameswork]
                     wxnames[r] = wxnames[r] + nameswork
             if bigq:  # other instruments
@@ -421,15 +422,15 @@ class SURlagIV(BaseThreeSLS, REGI.Regimes_Frame):
                         wq[r] = bigwq
                         for i in range(1, w_lags):
                             bigwq = WS @ bigwq
-                            wq[r] = np.hstack((wq[r], bigwq))
+                            wq[r] = sphstack(wq[r], bigwq)
                             wqnameswork = ["W" + i for i in wqnameswork]
                             wqnames[r] = wqnames[r] + wqnameswork
-                        bigq[r] = np.hstack((bigq[r], bigwx[r], wq[r]))
+                        bigq[r] = sphstack(sphstack(bigq[r], bigwx[r]), wq[r])
                         self.name_bigq[r] = self.name_bigq[r] + wxnames[r] + wqnames[r]
 
                 else:  # no lags for other instruments
                     for r in range(self.n_eq):
-                        bigq[r] = np.hstack((bigq[r], bigwx[r]))
+                        bigq[r] = sphstack(bigq[r], bigwx[r])
                         self.name_bigq[r] = self.name_bigq[r] + wxnames[r]
             else:  # no other instruments only wx
                 bigq = {}
@@ -496,7 +497,7 @@ def _get_spatial_lag(reg, bigyend, WS, name_bigyend):
         bigylag[r] = WS @ reg.bigy[r]
     if bigyend is not None:
         for r in range(reg.n_eq):
-            bigyend[r] = np.hstack((bigyend[r], bigylag[r]))
+            bigyend[r] = sphstack(bigyend[r], bigylag[r])
         # adjust variable names
         for r in range(reg.n_eq):
             wyname = "W_" + reg.name_bigy[r]
-- 
2.43.0


From 69b5bcb9e1427b30d4761faf918fb57e1152480b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:11 +0000
Subject: [PATCH 44/94] fix: SURlagIV with regimes and a common lag reported
 the endogenous variables without their regimes

---
 spreg/sur_lag.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spreg/sur_lag.py b/spreg/sur_lag.py
index 920a56c..9118792 100644
--- a/spreg/sur_lag.py
+++ b/spreg/sur_lag.py
@@ -373,7 +373,7 @@ class SURlagIV(BaseThreeSLS, REGI.Regimes_Frame):
         # spatial lag dependent variable fixed across regimes or no regimes
         if regimes is None or regime_lag_sep == False:
             bigyend, self.name_bigyend = _get_spatial_lag(
-                self, bigyend, WS, name_bigyend
+                self, bigyend, WS, self.name_bigyend
             )
         # spatially lagged exogenous variables
         bigwx = {}
-- 
2.43.0


From 10dd35b94e3a85d90d2b177a551567d2e6b8584a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:40 +0000
Subject: [PATCH 45/94] fix: Chow tests by regime of SURlagIV contrasted the
 wrong coefficients when endogenous variables vary by regime

---
 spreg/sur_lag.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spreg/sur_lag.py b/spreg/sur_lag.py
index 9118792..1ba960d 100644
--- a/spreg/sur_lag.py
+++ b/spreg/sur_lag.py
@@ -471,10 +471,11 @@ class SURlagIV(BaseThreeSLS, REGI.Regimes_Frame):
                 fixed_lag += -1
             for r in range(self.n_eq):
                 counter_end = varb_counter + self.b3SLS[r].shape[0]
+                kryd = (bigyend[r].shape[1] - fixed_lag) // len(self.regimes_set)
                 self.chow_regimes[r] = REGI._chow_run(
                     len(cols2regi_dic[r]),
                     fixed_lag,
-                    0,
+                    kryd,
                     len(self.regimes_set),
                     self.b3SLS[r],
                     self.varb[varb_counter:counter_end, varb_counter:counter_end],
-- 
2.43.0


From c8f959d29719c5f2e532caccfddf534172ad8396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:06 +0000
Subject: [PATCH 46/94] fix: joint test of the spatial lags of SURlagIV left
 out those of all regimes but the last

---
 spreg/diagnostics_sur.py | 23 +++++++++++++++++------
 spreg/sur_lag.py         | 13 ++++++++++++-
 2 files changed, 29 insertions(+), 7 deletions(-)

diff --git a/spreg/diagnostics_sur.py b/spreg/diagnostics_sur.py
index eff8b7a..a8223dc 100644
--- a/spreg/diagnostics_sur.py
+++ b/spreg/diagnostics_sur.py
@@ -308,7 +308,7 @@ def sur_chow(n_eq, bigK, bSUR, varb):
     return test
 
 
-def sur_joinrho(n_eq, bigK, bSUR, varb):
+def sur_joinrho(n_eq, bigK, bSUR, varb, lagpos=None):
     """
     Test on joint significance of spatial autoregressive coefficient in SUR
 
@@ -325,6 +325,10 @@ def sur_joinrho(n_eq, bigK, bSUR, varb):
                  the spatial autoregressive term as last
     varb       : array
                  variance-covariance matrix for regression coefficients
+    lagpos     : dictionary
+                 with the positions of the spatial autoregressive coefficients
+                 of each equation, counted back from its last coefficient
+                 (default: only the last one; several if they vary by regime)
 
     Returns
     -------
@@ -332,12 +336,19 @@ def sur_joinrho(n_eq, bigK, bSUR, varb):
                  with test statistic, degrees of freedom, p-value
 
     """
+    if lagpos is None:
+        lagpos = {i: [0] for i in range(n_eq)}
     bb = sur_dict2mat(bSUR)
-    R = np.zeros((n_eq, varb.shape[0]))
-    q = np.zeros((n_eq, 1))
+    R = []
     kc = -1
     for i in range(n_eq):
-        kc = kc + bigK[i]
-        R[i, kc] = 1
+        kc = kc + int(bigK[i, 0])
+        for pos in lagpos[i]:
+            row = np.zeros(varb.shape[0])
+            row[kc - pos] = 1
+            R.append(row)
+    R = np.array(R)
+    df = R.shape[0]
+    q = np.zeros((df, 1))
     w, p = wald_test(bb, R, q, varb)
-    return (w, n_eq, p)
+    return (w, df, p)
diff --git a/spreg/sur_lag.py b/spreg/sur_lag.py
index 1ba960d..f6f9e8a 100644
--- a/spreg/sur_lag.py
+++ b/spreg/sur_lag.py
@@ -450,7 +450,18 @@ class SURlagIV(BaseThreeSLS, REGI.Regimes_Frame):
 
         # test on joint significance of spatial coefficients
         if spat_diag:
-            self.joinrho = sur_joinrho(self.n_eq, self.bigK, self.b3SLS, self.varb)
+            lagpos = None
+            if regimes is not None and regime_lag_sep == True:
+                # one spatial coefficient per regime, the last among the
+                # endogenous variables of the regime
+                nr = len(self.regimes_set)
+                lagpos = {
+                    r: [j * (bigyend[r].shape[1] // nr) for j in range(nr)]
+                    for r in range(self.n_eq)
+                }
+            self.joinrho = sur_joinrho(
+                self.n_eq, self.bigK, self.b3SLS, self.varb, lagpos
+            )
         else:
             self.joinrho = None
 
-- 
2.43.0


From 119fc204434fb872beb4f127b88e3d1d91e0b733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:58 +0000
Subject: [PATCH 47/94] fix: SURerrorML with regimes evaluated the
 single-equation likelihoods on sparse matrices as infinite

---
 spreg/ml_error.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/spreg/ml_error.py b/spreg/ml_error.py
index 0d4db8c..c69e2f0 100755
--- a/spreg/ml_error.py
+++ b/spreg/ml_error.py
@@ -576,8 +576,8 @@ def err_c_loglik_sp(lam, n, y, ylag, x, xlag, I, Wsp):
 
     # 2. OLS residuals (using solve instead of inv)
     # Equivalent to: B = (X'X)^-1 X'y
-    xsxs = np.dot(xs.T, xs)
-    xsys = np.dot(xs.T, ys)
+    xsxs = spdot(xs.T, xs)
+    xsys = spdot(xs.T, ys)
     
     try:
         # Solves Ax = B for x. stable and faster than inv
@@ -586,7 +586,7 @@ def err_c_loglik_sp(lam, n, y, ylag, x, xlag, I, Wsp):
         return np.inf # Return infinity if singular to steer optimizer away
 
     # Calculate residuals
-    xb = np.dot(xs, betas)
+    xb = spdot(xs, betas)
     e = ys - xb
     
     # Calculate sigma^2
-- 
2.43.0


From daa848d156686db7b763f2fbb9074f6d3df5b8b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:42 +0000
Subject: [PATCH 48/94] fix: SURerrorML raised when its search touched a
 spatial parameter of one in absolute value

---
 spreg/sur_error.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/spreg/sur_error.py b/spreg/sur_error.py
index c582ff4..c13e23c 100644
--- a/spreg/sur_error.py
+++ b/spreg/sur_error.py
@@ -540,7 +540,9 @@ class BaseSURerrorML:
         self.llik = reg0.llik  # as is, includes constant
 
         # iteration
-        lambdabounds = [(-1.0, +1.0) for i in range(self.n_eq)]
+        # inside the open interval: I - lambda W may be singular at its ends
+        lambound = 1.0 - 1e-7
+        lambdabounds = [(-lambound, lambound) for i in range(self.n_eq)]
         while abs(fun0 - fun1) > epsilon:
             fun0 = fun1
             sply = filter_dict(lam, self.bigy, self.bigylag)
-- 
2.43.0


From 06202fde044938b92d7e9928472ee61d2afe5194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:24 +0000
Subject: [PATCH 49/94] fix: LR test of Probit counted the constant among its
 degrees of freedom

---
 spreg/diagnostics_probit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spreg/diagnostics_probit.py b/spreg/diagnostics_probit.py
index 40c3edd..bf1428a 100644
--- a/spreg/diagnostics_probit.py
+++ b/spreg/diagnostics_probit.py
@@ -135,8 +135,8 @@ def probit_lrtest(regprob):
     likratio["L0"] = L0
     LR = -2.0 * (L0 - regprob.logl)
     likratio["likr"] = LR
-    likratio["df"] = regprob.k
-    pval = stats.chisqprob(LR, regprob.k)
+    likratio["df"] = regprob.k - 1
+    pval = stats.chisqprob(LR, regprob.k - 1)
     likratio["p-value"] = pval
 
     return likratio
-- 
2.43.0


From 01d312d3bc1794f5866efa8bf657d632eaf1bbbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:36 +0000
Subject: [PATCH 50/94] fix: Probit never printed the confusion matrix
 requested with predflag

---
 spreg/probit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spreg/probit.py b/spreg/probit.py
index 7b786d5..90d526e 100755
--- a/spreg/probit.py
+++ b/spreg/probit.py
@@ -514,7 +514,7 @@ class Probit(BaseProbit):
         self.output = pd.DataFrame(self.name_x, columns=['var_names'])
         self.output['var_type'] = ['o'] + ['x'] * (len(self.name_x)-1)
         self.output['regime'], self.output['equation'] = (0, 0)
-        self.other_top, self.other_mid, other_end = _probit_out(reg=self, spat_diag=spat_diag)
+        self.other_top, self.other_mid, other_end = _probit_out(reg=self, spat_diag=spat_diag, predflag=predflag)
         output(reg=self, vm=vm, robust=None, other_end=other_end, latex=latex)
 
 
-- 
2.43.0


From 1752e7f250294769161ffb01d0b3af23bb5e4c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:46 +0000
Subject: [PATCH 51/94] fix: NSLX with var_flag=0 halved the covariance matrix,
 taking the Hessian of the sum of squares for that of half of it

---
 spreg/nslx.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/spreg/nslx.py b/spreg/nslx.py
index b2aa5d7..36c93cb 100755
--- a/spreg/nslx.py
+++ b/spreg/nslx.py
@@ -138,7 +138,9 @@ class BaseNSLX(RegressionPropsY):
             self.vm = vb * self.sig2
         elif var_flag == 0:
             self.ihess = ssmin.hess_inv            
-            self.vm = self.ihess * self.sig2
+            # Hessian of the sum of squared residuals, twice the cross-product
+            # of the gradients
+            self.vm = 2.0 * self.ihess * self.sig2
         
 
 
-- 
2.43.0


From 5c6659068d38b72f428c56eb26549ab75fd7e205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:09 +0000
Subject: [PATCH 52/94] fix: NSLX failed when the last point is nobody's
 neighbor, its weights lacking a column

---
 spreg/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spreg/utils.py b/spreg/utils.py
index 362ebdd..a38d911 100755
--- a/spreg/utils.py
+++ b/spreg/utils.py
@@ -978,7 +978,7 @@ def make_wnslx(coords,params,leafsize=30,distance_metric='Euclidean'):
         colids = nbrs[pickgd].flatten()
         fdis = fdis[pickgd].flatten()
     
-    spdis = coo_array((fdis,(rowids,colids)))
+    spdis = coo_array((fdis,(rowids,colids)),shape=(n,n))
     spdis = spdis.tocsr(copy=True)
     
     return spdis
-- 
2.43.0


From 833a7972933d74ff2a0b22114be8bb1a42fca22b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:17 +0000
Subject: [PATCH 53/94] fix: NSLX with power decay reported nan variances,
 taking the logarithm of the zero weight of the furthest neighbor

---
 spreg/nslx.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/spreg/nslx.py b/spreg/nslx.py
index 36c93cb..4f8a06d 100755
--- a/spreg/nslx.py
+++ b/spreg/nslx.py
@@ -543,7 +543,9 @@ def _nltransform(a,w,transform,gradflag=0):
         elif gradflag == 1:
             walpha = walpha.power(a)
             ww = w.copy()
-            np.log(ww.data, out = ww.data)
+            # w^a ln(w) goes to 0 with w: the furthest neighbor has zero weight
+            pos = ww.data > 0
+            ww.data[pos] = np.log(ww.data[pos])
             wgrad = walpha.multiply(ww)
             walpha = wgrad
             
-- 
2.43.0


From 0c857e0a9ccab48949f55ec258462417b39a2f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:25 +0000
Subject: [PATCH 54/94] fix: NSLX with parameters for every variable and one
 selected reported its spatial lag under the name of the variable

---
 spreg/nslx.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/spreg/nslx.py b/spreg/nslx.py
index 4f8a06d..75f90ba 100755
--- a/spreg/nslx.py
+++ b/spreg/nslx.py
@@ -345,6 +345,7 @@ class NSLX(BaseNSLX):
                 if g == len(slx_vars):  # params does not have correct form
                     params = list(compress(params,slx_vars))
                     transform = list(compress(transform,slx_vars))
+                    g = len(params)
                 elif g != len(xw_name):
                     raise Exception("Mismatch dimension params and slx_vars")
 
-- 
2.43.0


From c6d85ed289618d546ffd54b7eb5b8cee9f42511d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:38 +0000
Subject: [PATCH 55/94] fix: NSLX looked up point coordinates by label 0
 instead of position

---
 spreg/user_output.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spreg/user_output.py b/spreg/user_output.py
index bd647de..be9d006 100755
--- a/spreg/user_output.py
+++ b/spreg/user_output.py
@@ -1044,7 +1044,7 @@ def check_coords(data,name_coords):
                     name_coords = data.columns.to_list()
 
         elif (isinstance(data,gpd.geoseries.GeoSeries)):   # geometry column
-            if data[0].geom_type == 'Point':
+            if data.iloc[0].geom_type == 'Point':
                 xy = data.get_coordinates()
                 xy = np.array(xy)
 
-- 
2.43.0


From 3df11dfe398e079a489ee09881ca330c45ea168f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:44 +0000
Subject: [PATCH 56/94] fix: dgp_spdurbin and dgp_gns raised instead of
 returning nothing after reporting mismatched weights

---
 spreg/dgp.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spreg/dgp.py b/spreg/dgp.py
index a61b7f7..f60932d 100644
--- a/spreg/dgp.py
+++ b/spreg/dgp.py
@@ -659,6 +659,7 @@ def dgp_spdurbin(u,xb,wxg,w,rho=0.5,imethod='power_exp',ybin=False):
         return None
     if w.n != n1:
         print("Error: incompatible weights dimensions")
+        return None
     y1 = xb + wxg + u
     y = inverse_prod(w,y1,rho,inv_method=imethod)
     if ybin:
@@ -784,6 +785,7 @@ def dgp_gns(u,xb,wxg,w,rho=0.5,lam=0.2,model='sar',imethod='power_exp',ybin=Fals
         return None
     if w.n != n1:
         print("Error: incompatible weights dimensions")
+        return None
     if model == 'sar':
         u1 = inverse_prod(w,u,lam,inv_method=imethod)
     elif model == 'ma':
-- 
2.43.0


From 906a110fcfb8d70d4433b42b6c1c4e8c0eec75b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:56 +0000
Subject: [PATCH 57/94] fix: the power expansion failed on integer data

---
 spreg/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spreg/utils.py b/spreg/utils.py
index a38d911..6b5316b 100755
--- a/spreg/utils.py
+++ b/spreg/utils.py
@@ -679,7 +679,7 @@ def power_expansion(
         ws = w
     if post_multiply:
         data = data.T
-    running_total = copy.copy(data)
+    running_total = data * 1.0  # a copy, as floats
     increment = copy.copy(data)
     count = 1
     test = np.inf
-- 
2.43.0


From 5aaa589383f765f9de46072bf085399b5cd72b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:15 +0000
Subject: [PATCH 58/94] fix: i_multipliers failed with the id as a pandas
 Series and misaligned ids with another index

---
 spreg/sputils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spreg/sputils.py b/spreg/sputils.py
index a4b7ead..23c55ea 100755
--- a/spreg/sputils.py
+++ b/spreg/sputils.py
@@ -485,8 +485,8 @@ def i_multipliers(w,coef=0.0,model='lag',id=None):
     eofNbrs = ww.sum(axis=1).reshape(-1,1)
     eonNbrs = ww.sum(axis=0).reshape(-1,1) 
 
-    if (isinstance(id,pd.core.frame.DataFrame)) or (isinstance(id,gpd.geoseries.GeoSeries)):
-        pdid = id   # already a data frame
+    if isinstance(id,(pd.DataFrame,pd.Series)):   # includes GeoSeries
+        pdid = id.reset_index(drop=True)   # aligned by position with the impacts
     elif isinstance(id,np.ndarray):
         pdid = pd.DataFrame(id,columns=["ID"])
     elif id == None:
-- 
2.43.0


From 918765923365946063d7f8a0908c7b00ab45f7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:23 +0000
Subject: [PATCH 59/94] fix: impacts with the power method never finished next
 to the boundary of the spatial parameter

---
 spreg/sputils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spreg/sputils.py b/spreg/sputils.py
index 23c55ea..f62bafa 100755
--- a/spreg/sputils.py
+++ b/spreg/sputils.py
@@ -305,7 +305,8 @@ def spmultiplier(w, rho, method="simple", mtol=0.00000001):
     n = w.n
     if method == "simple":
         pass
-    elif method == "full":
+    elif method == "full" or (method == "power" and 0.999 < abs(rho) < 1):
+        # next to the boundary the power series would take (nearly) forever
         wf = w.full()[0]
         id0 = np.identity(n)
         irw0 = (id0 - rho * wf)
-- 
2.43.0


From f85d57ff135bfb159f67840803c766f9496b42a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:46 +0000
Subject: [PATCH 60/94] fix: power expansion truncated small values by an
 absolute stopping rule

---
 spreg/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/spreg/utils.py b/spreg/utils.py
index 6b5316b..d2fba5e 100755
--- a/spreg/utils.py
+++ b/spreg/utils.py
@@ -685,7 +685,10 @@ def power_expansion(
     test = np.inf
     # powers of a convergent (e.g. row-standardized) matrix can grow for a while
     # before they vanish, but not past this bound
-    bound = np.sqrt(max(ws.shape)) * la.norm(data)
+    size = la.norm(data)
+    bound = np.sqrt(max(ws.shape)) * size
+    # small values need a test that is relative to them
+    threshold = threshold * min(1.0, size)
     if max_iterations == None:
         max_iterations = 10000000
     while test > threshold and count <= max_iterations:
-- 
2.43.0


From 87f8537d7b67728dc09b5d00fb8f2485ac53f41e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:27 +0000
Subject: [PATCH 61/94] fix: panel models asked the weights for their size
 before converting graphs and matrices

---
 spreg/panel_fe.py    | 4 ++--
 spreg/panel_re.py    | 4 ++--
 spreg/panel_utils.py | 2 +-
 spreg/sp_panels.py   | 2 +-
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/spreg/panel_fe.py b/spreg/panel_fe.py
index cded9d8..2159417 100755
--- a/spreg/panel_fe.py
+++ b/spreg/panel_fe.py
@@ -332,12 +332,12 @@ class Panel_FE_Lag(BasePanel_FE_Lag):
         name_ds=None,
     ):
         set_warn(self, "This function is deprecated and was superseded by spreg.ML_LagFE in panel.py")
+        w = USER.check_weights(w, y, w_required=True, time=True)
         bigy, bigx, name_y, name_x, T, warn = check_panel(y, x, w, name_y, name_x)
         n_rows = USER.check_arrays(bigy, bigx)
         set_warn(self, warn)
         bigx, name_x, warn = USER.check_constant(bigx, name_x, just_rem=True)
         set_warn(self, warn)
-        w = USER.check_weights(w, bigy, w_required=True, time=True)
 
         BasePanel_FE_Lag.__init__(self, bigy, bigx, w, epsilon=epsilon)
         # increase by 1 to have correct aic and sc, include rho in count
@@ -622,12 +622,12 @@ class Panel_FE_Error(BasePanel_FE_Error):
         name_ds=None,
     ):
         set_warn(self, "This function is deprecated and was superseded by spreg.ML_ErrorFE in panel.py")
+        w = USER.check_weights(w, y, w_required=True, time=True)
         bigy, bigx, name_y, name_x, T, warn = check_panel(y, x, w, name_y, name_x)
         n_rows = USER.check_arrays(bigy, bigx)
         set_warn(self, warn)
         bigx, name_x, warn = USER.check_constant(bigx, name_x, just_rem=True)
         set_warn(self, warn)
-        w = USER.check_weights(w, bigy, w_required=True, time=True)
 
         BasePanel_FE_Error.__init__(self, bigy, bigx, w, epsilon=epsilon)
         self.title = "MAXIMUM LIKELIHOOD SPATIAL ERROR PANEL" + " - FIXED EFFECTS"
diff --git a/spreg/panel_re.py b/spreg/panel_re.py
index e01eccf..e1d7776 100755
--- a/spreg/panel_re.py
+++ b/spreg/panel_re.py
@@ -386,12 +386,12 @@ class Panel_RE_Lag(BasePanel_RE_Lag):
         name_ds=None,
     ):
         set_warn(self, "This function is deprecated and was superseded by spreg.ML_LagRE in panel.py")
+        w = USER.check_weights(w, y, w_required=True, time=True)
         bigy, bigx, name_y, name_x, T, warn = check_panel(y, x, w, name_y, name_x)
         n_rows = USER.check_arrays(bigy, bigx)
         set_warn(self, warn)
         bigx, name_x, warn = USER.check_constant(bigx, name_x)
         set_warn(self, warn)
-        w = USER.check_weights(w, bigy, w_required=True, time=True)
 
         BasePanel_RE_Lag.__init__(self, bigy, bigx, w, epsilon=epsilon)
         # increase by 1 to have correct aic and sc, include rho in count
@@ -754,12 +754,12 @@ class Panel_RE_Error(BasePanel_RE_Error):
         name_ds=None,
     ):
         set_warn(self, "This function is deprecated and was superseded by spreg.ML_ErrorRE in panel.py")
+        w = USER.check_weights(w, y, w_required=True, time=True)
         bigy, bigx, name_y, name_x, T, warn = check_panel(y, x, w, name_y, name_x)
         n_rows = USER.check_arrays(bigy, bigx)
         set_warn(self, warn)
         bigx, name_x, warn = USER.check_constant(bigx, name_x)
         set_warn(self, warn)
-        w = USER.check_weights(w, bigy, w_required=True, time=True)
 
         BasePanel_RE_Error.__init__(self, bigy, bigx, w, epsilon=epsilon)
         self.title = "MAXIMUM LIKELIHOOD SPATIAL ERROR PANEL" + " - RANDOM EFFECTS"
diff --git a/spreg/panel_utils.py b/spreg/panel_utils.py
index 8065f8d..71e697f 100755
--- a/spreg/panel_utils.py
+++ b/spreg/panel_utils.py
@@ -20,6 +20,7 @@ def prepare_panel(y, x, w, name_y, name_x, slx_lags, slx_vars, title, add_consta
                    Whether to add a constant term to the data. Default is True.
     """
     warn = []
+    w = USER.check_weights(w, y, w_required=True, time=True, slx_lags=slx_lags)
     bigy, bigx, name_y, name_x, T, warn_add = check_panel(y, x, w, name_y, name_x)
     n_rows = USER.check_arrays(bigy, bigx)
     warn.append(warn_add)
@@ -31,7 +32,6 @@ def prepare_panel(y, x, w, name_y, name_x, slx_lags, slx_vars, title, add_consta
     name_x = USER.set_name_x(name_x, bigx, constant=not add_constant)
     name_y = USER.set_name_y(name_y)
 
-    w = USER.check_weights(w, bigy, w_required=True, time=True, slx_lags=slx_lags)
     kx = bigx.shape[1]
 
     if slx_lags >0:
diff --git a/spreg/sp_panels.py b/spreg/sp_panels.py
index 8fabd57..934a354 100755
--- a/spreg/sp_panels.py
+++ b/spreg/sp_panels.py
@@ -338,9 +338,9 @@ class GM_KKP(BaseGM_KKP, REGI.Regimes_Frame):
         name_regimes=None,
     ):
         set_warn(self, "This function is deprecated and was superseded by spreg.GM_ErrorRE in panel.py")
+        w = USER.check_weights(w, y, w_required=True, time=True)
         bigy, bigx, name_y, name_x = _get_panel_data(y, x, w, name_y, name_x)
         n_rows = USER.check_arrays(bigy, bigx)
-        w = USER.check_weights(w, bigy, w_required=True, time=True)
         x_constant, name_x, warn = USER.check_constant(bigx, name_x)
         set_warn(self, warn)
         self.title = "GM SPATIAL ERROR PANEL MODEL - RANDOM EFFECTS (KKP)"
-- 
2.43.0


From 0455a2f48443de18807449988d770addf51c6dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:36 +0000
Subject: [PATCH 62/94] fix: endogenous variables and instruments of the wrong
 length or with missing values were accepted by some models

---
 spreg/error_sp_het_regimes.py | 2 +-
 spreg/error_sp_hom_regimes.py | 2 +-
 spreg/error_sp_regimes.py     | 2 +-
 spreg/twosls_regimes.py       | 4 ++--
 spreg/twosls_sp.py            | 2 +-
 spreg/twosls_sp_regimes.py    | 2 +-
 6 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/spreg/error_sp_het_regimes.py b/spreg/error_sp_het_regimes.py
index 5d3e5c7..7f84767 100644
--- a/spreg/error_sp_het_regimes.py
+++ b/spreg/error_sp_het_regimes.py
@@ -1725,7 +1725,7 @@ class GM_Combo_Het_Regimes(GM_Endog_Error_Het_Regimes):
         if regime_err_sep and not regime_lag_sep:
             set_warn(self, "regime_err_sep set to False when regime_lag_sep=False.")                
             regime_err_sep = False
-        n = USER.check_arrays(y, x)
+        n = USER.check_arrays(y, x, yend, q)
         self.step1c = step1c
         y, name_y = USER.check_y(y, n, name_y)
         w = USER.check_weights(w, y, w_required=True, slx_lags=slx_lags)
diff --git a/spreg/error_sp_hom_regimes.py b/spreg/error_sp_hom_regimes.py
index ea6f72d..c200675 100644
--- a/spreg/error_sp_hom_regimes.py
+++ b/spreg/error_sp_hom_regimes.py
@@ -1725,7 +1725,7 @@ class GM_Combo_Hom_Regimes(GM_Endog_Error_Hom_Regimes):
         if regime_err_sep and not regime_lag_sep:
             set_warn(self, "regime_err_sep set to False when regime_lag_sep=False.")                
             regime_err_sep = False
-        n = USER.check_arrays(y, x)
+        n = USER.check_arrays(y, x, yend, q)
         y, name_y = USER.check_y(y, n, name_y)
         w = USER.check_weights(w, y, w_required=True, slx_lags=slx_lags)
         yend, q, name_yend, name_q = USER.check_endog([yend, q], [name_yend, name_q])
diff --git a/spreg/error_sp_regimes.py b/spreg/error_sp_regimes.py
index ec57a60..c81464a 100644
--- a/spreg/error_sp_regimes.py
+++ b/spreg/error_sp_regimes.py
@@ -1506,7 +1506,7 @@ class GM_Combo_Regimes(GM_Endog_Error_Regimes, REGI.Regimes_Frame):
         if regime_err_sep and not regime_lag_sep:
             set_warn(self, "regime_err_sep set to False when regime_lag_sep=False.")                
             regime_err_sep = False
-        n = USER.check_arrays(y, x)
+        n = USER.check_arrays(y, x, yend, q)
         y, name_y = USER.check_y(y, n, name_y)
         w = USER.check_weights(w, y, w_required=True, slx_lags=slx_lags)
         yend, q, name_yend, name_q = USER.check_endog([yend, q], [name_yend, name_q])
diff --git a/spreg/twosls_regimes.py b/spreg/twosls_regimes.py
index 049cb06..884bfbd 100644
--- a/spreg/twosls_regimes.py
+++ b/spreg/twosls_regimes.py
@@ -342,7 +342,7 @@ class TSLS_Regimes(BaseTSLS, REGI.Regimes_Frame):
         latex=False,
     ):
 
-        n = USER.check_arrays(y, x)
+        n = USER.check_arrays(y, x, yend, q)
         y, name_y = USER.check_y(y, n, name_y)
         USER.check_robust(robust, gwk)
         yend, q, name_yend, name_q = USER.check_endog([yend, q], [name_yend, name_q])
@@ -1063,7 +1063,7 @@ class TSLS_Endog_Regimes(TSLS_Regimes):
         self, y, x, yend, q, w=None, n_clusters=None, quorum=-1, trace=True, name_y=None, name_x=None, name_yend=None, name_q=None, 
         constant_regi='many', cols2regi='all', regime_err_sep=True, **kwargs):
 
-        n = USER.check_arrays(y, x)
+        n = USER.check_arrays(y, x, yend, q)
         y, name_y = USER.check_y(y, n, name_y)
         yend, q, name_yend, name_q = USER.check_endog([yend, q], [name_yend, name_q])
         w = USER.check_weights(w, y, w_required=True)
diff --git a/spreg/twosls_sp.py b/spreg/twosls_sp.py
index 46b6e70..7bc41d1 100755
--- a/spreg/twosls_sp.py
+++ b/spreg/twosls_sp.py
@@ -568,7 +568,7 @@ class GM_Lag(BaseGM_Lag):
                 **kwargs,
             )
         else:            
-            n = USER.check_arrays(x, yend, q)
+            n = USER.check_arrays(y, x, yend, q)
             y, name_y = USER.check_y(y, n, name_y)
             w = USER.check_weights(w, y, w_required=True, slx_lags=slx_lags)
             USER.check_robust(robust, gwk)
diff --git a/spreg/twosls_sp_regimes.py b/spreg/twosls_sp_regimes.py
index e67c29b..a790867 100644
--- a/spreg/twosls_sp_regimes.py
+++ b/spreg/twosls_sp_regimes.py
@@ -482,7 +482,7 @@ class GM_Lag_Regimes(TSLS_Regimes, REGI.Regimes_Frame):
         hard_bound=False,
     ):
 
-        n = USER.check_arrays(y, x)
+        n = USER.check_arrays(y, x, yend, q)
         y, name_y = USER.check_y(y, n, name_y)
         yend, q, name_yend, name_q = USER.check_endog([yend, q], [name_yend, name_q])
         w = USER.check_weights(w, y, w_required=True, slx_lags=slx_lags)
-- 
2.43.0


From c7beb1178ba0fc832ee418b7e1f0d8b277c92697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:36 +0000
Subject: [PATCH 63/94] fix: Chow tests were missing from the summaries of all
 regimes models

---
 spreg/output.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spreg/output.py b/spreg/output.py
index 15680cd..92af98a 100755
--- a/spreg/output.py
+++ b/spreg/output.py
@@ -227,7 +227,7 @@ def _summary_chow(reg):
     try:
         tot_SSR = reg.score
     except:
-        tot_SSR = np.dot(reg.u.T, reg.u)
+        tot_SSR = np.sum(reg.u ** 2)
     try:
         n_clust = reg.nr
     except:
-- 
2.43.0


From 1ca944f34280dc87573f7b6ead5293f0c08b2082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:36 +0000
Subject: [PATCH 64/94] fix: every model fit printed its class name to standard
 output

---
 spreg/output.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/spreg/output.py b/spreg/output.py
index 92af98a..8add2f4 100755
--- a/spreg/output.py
+++ b/spreg/output.py
@@ -92,7 +92,6 @@ def out_part_top(strSummary, reg, m):
     else:
         _reg.z_stat = diagnostics.t_stat(_reg, z_stat=True)
         if _reg.__class__.__name__ not in ('NSLX','PSM','LagPSM') and not _reg.__class__.__name__.endswith('Probit'):
-            print(_reg.__class__.__name__)
             _reg.pr2 = diagnostics_tsls.pr2_aspatial(_reg)
             strSummary += "%-20s:%12.4f\n" % ("Pseudo R-squared", _reg.pr2)
         _reg.__summary["summary_zt"] = "z"
-- 
2.43.0


From 50fdf3d5c657481dded556776563caaedb03cf31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:31 +0000
Subject: [PATCH 65/94] fix: Probit summary did not warn that a constant
 variable was dropped

---
 spreg/probit.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/spreg/probit.py b/spreg/probit.py
index 90d526e..c5fbb58 100755
--- a/spreg/probit.py
+++ b/spreg/probit.py
@@ -458,7 +458,6 @@ class Probit(BaseProbit):
         n = USER.check_arrays(y, x)
         y, name_y = USER.check_y(y, n, name_y)
         x_constant, name_x, warn = USER.check_constant(x, name_x)
-        set_warn(self, warn)
         self.name_x = USER.set_name_x(name_x, x_constant)
 
         w_required=False
@@ -515,6 +514,9 @@ class Probit(BaseProbit):
         self.output['var_type'] = ['o'] + ['x'] * (len(self.name_x)-1)
         self.output['regime'], self.output['equation'] = (0, 0)
         self.other_top, self.other_mid, other_end = _probit_out(reg=self, spat_diag=spat_diag, predflag=predflag)
+        if warn:
+            # self.warning is the convergence flag of BaseProbit
+            self.other_mid = "Warning: " + warn + "\n" + self.other_mid
         output(reg=self, vm=vm, robust=None, other_end=other_end, latex=latex)
 
 
-- 
2.43.0


From be07684d20cb67a930b11ce4fdedc54d6a49631a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:13 +0000
Subject: [PATCH 66/94] fix: White test was garbage for regimes models, whose
 dummies and interactions are collinear in the auxiliary regression

---
 spreg/diagnostics.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/spreg/diagnostics.py b/spreg/diagnostics.py
index f2802a3..4bfcba8 100755
--- a/spreg/diagnostics.py
+++ b/spreg/diagnostics.py
@@ -1000,6 +1000,11 @@ def white(reg):
     else:
         raise Exception("unknown A type, %s" % type(X).__name__)
     A = sphstack(np.ones((A.shape[0], 1)), A)  # add a constant back in
+    # drop the columns that are linear combinations of the previous ones, such as
+    # the last of the regime dummies
+    dense_A = A.toarray() if SP.issparse(A) else A
+    R = la.qr(dense_A / la.norm(dense_A, axis=0), mode="r")
+    A = A[:, np.nonzero(np.abs(np.diag(R)) > 1e-10)[0]]
     n, k = A.shape
 
     # Conduct the auxiliary regression and calculate the statistic
-- 
2.43.0


From c24b6c86c4aed30b00f2fdb2f4fb86f563c9e660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:03 +0000
Subject: [PATCH 67/94] fix: ML_ErrorRE reported a complex log likelihood and
 left the fit measures out of its summary

---
 spreg/panel.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spreg/panel.py b/spreg/panel.py
index ccdb9b6..62f0f23 100755
--- a/spreg/panel.py
+++ b/spreg/panel.py
@@ -1971,7 +1971,7 @@ class BaseML_ErrorRE(RegressionPropsY, RegressionPropsVM):
 
         ln2pi = np.log(2.0 * np.pi)
         self.logll = (
-            -res.fun - NT / 2.0 * ln2pi - NT / 2.0
+            -np.real(res.fun) - NT / 2.0 * ln2pi - NT / 2.0
         )
 
         I = np.identity(N)
@@ -2299,6 +2299,7 @@ class ML_ErrorRE(BaseML_ErrorRE):
         self.output = pd.DataFrame(self.name_x, columns=['var_names'])
         self.output['var_type'] = ['o'] + ['x'] * (kx-1) + ['wx'] * kwx + ["lambda", "sigma2_u"]
         self.output['regime'], self.output['equation'] = (0, 0)
+        self.other_top = _nonspat_top(self, ml=True)
         output(reg=self, vm=vm, robust=False, other_end=False, latex=latex)
 
 class BaseML_LagFE(RegressionPropsY, RegressionPropsVM):
-- 
2.43.0


From 3e2ffed560e9c38e16e718b680a00774c6bcd989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:30 +0000
Subject: [PATCH 68/94] fix: within-equation Chow tests printed the degrees of
 freedom of the last equation

---
 spreg/summary_output.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/spreg/summary_output.py b/spreg/summary_output.py
index 15086d5..664d60b 100755
--- a/spreg/summary_output.py
+++ b/spreg/summary_output.py
@@ -1558,10 +1558,12 @@ def summary_chow(reg, lambd=False, sur=False):
         eq = list(reg.name_bigy.keys())[sur - 1]
         name_x_r = reg.name_x_r[eq]
         joint, regi = reg.chow_regimes[eq]
+        kr = len(regi)  # reg.kr is that of the last equation
         sum_text += " WITHIN EQUATION"
     else:
         name_x_r = reg.name_x_r
         joint, regi = reg.chow.joint, reg.chow.regi
+        kr = reg.kr
     sum_text += "\n                 VARIABLE        DF        VALUE           PROB\n"
     if reg.cols2regi == "all":
         names_chow = name_x_r[1:]
@@ -1584,7 +1586,7 @@ def summary_chow(reg, lambd=False, sur=False):
         )
     sum_text += "%25s        %2d    %12.3f        %9.4f\n" % (
         "Global test",
-        reg.kr * (reg.nr - 1),
+        kr * (reg.nr - 1),
         joint[0],
         joint[1],
     )
-- 
2.43.0


From a376fe4d0d1f5390a3d9f40874cbd4b20d1e75dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:00 +0000
Subject: [PATCH 69/94] fix: Chow table of models that do not test lambda
 listed it with nan

---
 spreg/output.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spreg/output.py b/spreg/output.py
index 8add2f4..403ac67 100755
--- a/spreg/output.py
+++ b/spreg/output.py
@@ -245,7 +245,8 @@ def _summary_chow(reg):
         names_chow = ["CONSTANT"] + names_chow
 
     if 'lambda' in reg.output.var_type.values:
-        if reg.output.var_type.value_counts()['lambda'] > 1:
+        # only the models with a covariance matrix for lambda test it
+        if reg.output.var_type.value_counts()['lambda'] > 1 and len(regi) > len(names_chow):
             names_chow += ["lambda"]
 
     reg.output_chow = pd.DataFrame()
-- 
2.43.0


From cb1f080700229584f07025709cccf0491059e0ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:13 +0000
Subject: [PATCH 70/94] fix: Skater_reg.fit left the user's weights binary, so
 endogenous regimes models were estimated with binary weights

---
 spreg/skater_reg.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/spreg/skater_reg.py b/spreg/skater_reg.py
index c563597..61c6806 100755
--- a/spreg/skater_reg.py
+++ b/spreg/skater_reg.py
@@ -222,8 +222,11 @@ class Skater_reg(object):
         if data.shape[0] <= n_clusters*quorum:
             raise ValueError("The number of observations is less than the number of clusters times the quorum.")
         
+        transform = W.transform
         W.transform = "b"
-        W = W.sparse
+        W_bin = W.sparse
+        W.transform = transform  # the weights belong to the user
+        W = W_bin
         start = time.time()
 
         super_verbose = verbose > 1
-- 
2.43.0


From 01d05414b58fe05ccc3747dc6161221c923b3a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:26 +0000
Subject: [PATCH 71/94] fix: Skater_reg dropped the first variable from the
 instruments of spatial lag models and wrote into the user's dictionary

---
 spreg/skater_reg.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/spreg/skater_reg.py b/spreg/skater_reg.py
index 61c6806..c97578d 100755
--- a/spreg/skater_reg.py
+++ b/spreg/skater_reg.py
@@ -540,7 +540,9 @@ class Skater_reg(object):
 
     def _prep_lag(self, data_reg):
         # if the model is a spatial lag, add the lagged dependent variable to the model
-        data_reg['yend'], data_reg['q'] = set_endog(data_reg["y"], data_reg["x"][:, 1:], data_reg["w"], yend=None,
+        # x does not include a constant, and the dictionary belongs to the user
+        data_reg = dict(data_reg)
+        data_reg['yend'], data_reg['q'] = set_endog(data_reg["y"], data_reg["x"], data_reg["w"], yend=None,
             q=None, w_lags=1, lag_q=True)
         return data_reg
 
-- 
2.43.0


From 863f0fcb4518d2dd161e1bbaef642605f92c6e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:34 +0000
Subject: [PATCH 72/94] fix: Skater_reg lost the regions found when the quorum
 allows no further cut

---
 spreg/skater_reg.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/spreg/skater_reg.py b/spreg/skater_reg.py
index c97578d..5974961 100755
--- a/spreg/skater_reg.py
+++ b/spreg/skater_reg.py
@@ -321,7 +321,9 @@ class Skater_reg(object):
                 prev_score = best_deletion.score
                 MSF = new_MSF
             else:  # otherwise, it means the MSF admits no further cuts
-                prev_n_subtrees, _ = cg.connected_components(MSF, directed=False)
+                prev_n_subtrees, current_labels = cg.connected_components(
+                    MSF, directed=False
+                )
                 warn(
                     "MSF contains no valid moves after finding {} subtrees. "
                     "Decrease the size of your quorum to find the remaining {} subtrees.".format(
@@ -330,6 +332,7 @@ class Skater_reg(object):
                     OptimizeWarning,
                     stacklevel=2,
                 )
+                break
             if trace:
                 self._trace.append((current_labels, best_deletion))
 
-- 
2.43.0


From 2fd83ea50647810a786d9c7ec1d1f3be793567d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:48 +0000
Subject: [PATCH 73/94] fix: Skater_reg scores of given or fitted labels failed
 without a current tree

---
 spreg/skater_reg.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/spreg/skater_reg.py b/spreg/skater_reg.py
index 5974961..83cd466 100755
--- a/spreg/skater_reg.py
+++ b/spreg/skater_reg.py
@@ -372,7 +372,9 @@ class Skater_reg(object):
         current_tree: integer indicating the tree's label currently being considered for division
         """
 
-        labels, subtree_quorums = self._prep_score(all_labels, current_tree, current_labels)
+        labels, subtree_quorums, all_labels = self._prep_score(
+            all_labels, current_tree, current_labels
+        )
         if (subtree_quorums < quorum).any():
             return np.inf, None
 
@@ -382,6 +384,8 @@ class Skater_reg(object):
             trees_scores = {}
 
             if data_reg["reg"].__name__ in {"GM_Lag", "BaseGM_Lag"}:
+                if "yend" not in data_reg:
+                    data_reg = self._prep_lag(data_reg)
                 try:
                     x = np.hstack((np.ones((data_reg["x"].shape[0], 1)), data_reg["x"]))
                 except np.linalg.LinAlgError:
@@ -470,7 +474,7 @@ class Skater_reg(object):
         NOTE: Optimization occurs with respect to a *dissimilarity* metric, so the problem *minimizes*
               the map dissimilarity. So, lower scores are better.
         """
-        labels, subtree_quorums = self._prep_score(
+        labels, subtree_quorums, all_labels = self._prep_score(
             all_labels, current_tree, current_labels
         )
         if (subtree_quorums < quorum).any():
@@ -509,9 +513,10 @@ class Skater_reg(object):
         return score, trees_scores
 
     def _prep_score(self, all_labels, current_tree, current_labels):
+        labels = all_labels
         if all_labels is None:
             try:
-                labels = self.current_labels_
+                labels = all_labels = self.current_labels_
             except AttributeError:
                 raise ValueError(
                     "Labels not provided and MSF_Prune object has not been fit to data yet."
@@ -519,7 +524,7 @@ class Skater_reg(object):
         if current_tree is not None:
             labels = all_labels[current_labels == current_tree]
         _, subtree_quorums = np.unique(labels, return_counts=True)
-        return labels, subtree_quorums
+        return labels, subtree_quorums, all_labels
 
     def _data_reg_none(self, data, all_labels, set_labels):
         assert data.shape[0] == len(
-- 
2.43.0


From 3237a393f27049e925b7b3f3a35ee50d2a0a1b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:59 +0000
Subject: [PATCH 74/94] fix: Skater_reg did not score the components of a
 disconnected map before the first cut

---
 spreg/skater_reg.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/spreg/skater_reg.py b/spreg/skater_reg.py
index 83cd466..6cfb648 100755
--- a/spreg/skater_reg.py
+++ b/spreg/skater_reg.py
@@ -286,6 +286,11 @@ class Skater_reg(object):
             if super_verbose:
                 print(self._trace[-1])
         trees_scores = None
+        if current_n_subtrees > 1:  # each component has a score to start from
+            score_fit = (
+                self.score_spreg if model_family == "spreg" else self.score_stats
+            )
+            _, trees_scores = score_fit(data, data_reg, current_labels)
         prev_score = np.inf
         while current_n_subtrees < n_clusters:  # while we don't have enough regions
             (
-- 
2.43.0


From 3d41ac4c632104dd5425433b16ab360f6eec9232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:08 +0000
Subject: [PATCH 75/94] fix: Skater_reg disconnected neighbors with equal
 attributes

---
 spreg/skater_reg.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/spreg/skater_reg.py b/spreg/skater_reg.py
index 6cfb648..5791d86 100755
--- a/spreg/skater_reg.py
+++ b/spreg/skater_reg.py
@@ -231,8 +231,9 @@ class Skater_reg(object):
 
         super_verbose = verbose > 1
         start_W = time.time()
-        dissim = W.multiply(attribute_kernel)
-        dissim.eliminate_zeros()
+        dissim = W.multiply(attribute_kernel).tocsr()
+        # neighbors with equal attributes are at distance zero, but connected
+        dissim.data[dissim.data == 0] = np.finfo(float).tiny
         end_W = time.time() - start_W
 
         if super_verbose:
-- 
2.43.0


From e73c81b4dc4189bd73b8a58f575084f84e9fe327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:19 +0000
Subject: [PATCH 76/94] fix: endogenous regimes models hid errors of the search
 behind an unbound variable

---
 spreg/ols_regimes.py       | 2 +-
 spreg/twosls_regimes.py    | 2 +-
 spreg/twosls_sp_regimes.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/spreg/ols_regimes.py b/spreg/ols_regimes.py
index ac0125b..50d3439 100755
--- a/spreg/ols_regimes.py
+++ b/spreg/ols_regimes.py
@@ -1077,7 +1077,7 @@ class OLS_Endog_Regimes(OLS_Regimes):
                 if str(e) == "one or more input arrays have more columns than rows":
                     raise ValueError("One or more input ended up with more variables than observations. Please check your setting for `quorum`.")
                 else:
-                    print("An error occurred:", e)
+                    raise
 
         self._trace = sk_reg_results._trace
         self.SSR = [self._trace[i][1][2] for i in range(1, len(self._trace))]
diff --git a/spreg/twosls_regimes.py b/spreg/twosls_regimes.py
index 884bfbd..6b8bfbc 100644
--- a/spreg/twosls_regimes.py
+++ b/spreg/twosls_regimes.py
@@ -1096,7 +1096,7 @@ class TSLS_Endog_Regimes(TSLS_Regimes):
                 if str(e) == "one or more input arrays have more columns than rows":
                     raise ValueError("One or more input ended up with more variables than observations. Please check your setting for `quorum`.")
                 else:
-                    print("An error occurred:", e)
+                    raise
 
         self._trace = sk_reg_results._trace
         self.SSR = [self._trace[i][1][2] for i in range(1, len(self._trace))]
diff --git a/spreg/twosls_sp_regimes.py b/spreg/twosls_sp_regimes.py
index a790867..99e558d 100644
--- a/spreg/twosls_sp_regimes.py
+++ b/spreg/twosls_sp_regimes.py
@@ -1354,7 +1354,7 @@ class GM_Lag_Endog_Regimes(GM_Lag_Regimes):
                 if str(e) == "one or more input arrays have more columns than rows":
                     raise ValueError("One or more input ended up with more variables than observations. Please check your setting for `quorum`.")
                 else:
-                    print("An error occurred:", e)
+                    raise
 
         self._trace = sk_reg_results._trace
         self.SSR = [self._trace[i][1][2] for i in range(1, len(self._trace))]
-- 
2.43.0


From 65de55814c464c9f79458143bcbce5346dfcfa34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:30 +0000
Subject: [PATCH 77/94] fix: endogenous regimes models failed when only one
 partition had been compared

---
 spreg/ols_regimes.py       | 2 +-
 spreg/twosls_regimes.py    | 2 +-
 spreg/twosls_sp_regimes.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/spreg/ols_regimes.py b/spreg/ols_regimes.py
index 50d3439..39e19e8 100755
--- a/spreg/ols_regimes.py
+++ b/spreg/ols_regimes.py
@@ -1064,7 +1064,7 @@ class OLS_Endog_Regimes(OLS_Regimes):
                 raise ValueError(
                     "The combination of the values of `N` and `quorum` is not compatible with regimes estimation.")
             sk_reg_results = Skater_reg().fit(n_clusters_opt, w, x_std, {'reg':BaseOLS,'y':y,'x':x_constant}, quorum=quorum, trace=True)
-            n_clusters = optim_k([sk_reg_results._trace[i][1][2] for i in range(1, len(sk_reg_results._trace))])
+            n_clusters = max(2, optim_k([sk_reg_results._trace[i][1][2] for i in range(1, len(sk_reg_results._trace))]))
             self.clusters = sk_reg_results._trace[n_clusters-1][0]
             self.score = sk_reg_results._trace[n_clusters-1][1][2]
         else:
diff --git a/spreg/twosls_regimes.py b/spreg/twosls_regimes.py
index 6b8bfbc..b62def6 100644
--- a/spreg/twosls_regimes.py
+++ b/spreg/twosls_regimes.py
@@ -1084,7 +1084,7 @@ class TSLS_Endog_Regimes(TSLS_Regimes):
                 raise ValueError(
                     "The combination of the values of `N` and `quorum` is not compatible with regimes estimation.")
             sk_reg_results = Skater_reg().fit(n_clusters_opt, w, x_std, {'reg':BaseTSLS,'y':y,'x':x_constant,'yend':yend,'q':q}, quorum=quorum, trace=True)
-            n_clusters = optim_k([sk_reg_results._trace[i][1][2] for i in range(1, len(sk_reg_results._trace))])
+            n_clusters = max(2, optim_k([sk_reg_results._trace[i][1][2] for i in range(1, len(sk_reg_results._trace))]))
             self.clusters = sk_reg_results._trace[n_clusters-1][0]
             self.score = sk_reg_results._trace[n_clusters-1][1][2]
         else:
diff --git a/spreg/twosls_sp_regimes.py b/spreg/twosls_sp_regimes.py
index 99e558d..8be65b6 100644
--- a/spreg/twosls_sp_regimes.py
+++ b/spreg/twosls_sp_regimes.py
@@ -1341,7 +1341,7 @@ class GM_Lag_Endog_Regimes(GM_Lag_Regimes):
                 raise ValueError(
                     "The combination of the values of `N` and `quorum` is not compatible with regimes estimation.")
             sk_reg_results = Skater_reg().fit(n_clusters_opt, w, x_std, {'reg':BaseGM_Lag,'y':y,'x':x_constant,'w':w}, quorum=quorum, trace=True)
-            n_clusters = optim_k([sk_reg_results._trace[i][1][2] for i in range(1, len(sk_reg_results._trace))])
+            n_clusters = max(2, optim_k([sk_reg_results._trace[i][1][2] for i in range(1, len(sk_reg_results._trace))]))
             self.clusters = sk_reg_results._trace[n_clusters-1][0]
             self.score = sk_reg_results._trace[n_clusters-1][1][2]
         else:
-- 
2.43.0


From b0b0850c9d00a4ca7f5dd6aab9c60586d3fe5f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:42 +0000
Subject: [PATCH 78/94] fix: endogenous regimes models failed with trace=False

---
 spreg/ols_regimes.py       | 8 +++++---
 spreg/twosls_regimes.py    | 8 +++++---
 spreg/twosls_sp_regimes.py | 8 +++++---
 3 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/spreg/ols_regimes.py b/spreg/ols_regimes.py
index 39e19e8..0aaac80 100755
--- a/spreg/ols_regimes.py
+++ b/spreg/ols_regimes.py
@@ -1059,6 +1059,7 @@ class OLS_Endog_Regimes(OLS_Regimes):
             quorum = np.max([(x_constant.shape[1]+1)*10, 30])
 
         if not n_clusters:
+            trace = True
             n_clusters_opt = x_constant.shape[0]*0.70//quorum
             if n_clusters_opt < 2:
                 raise ValueError(
@@ -1070,7 +1071,7 @@ class OLS_Endog_Regimes(OLS_Regimes):
         else:
             try:
                 # Call the Skater_reg method based on OLS
-                sk_reg_results = Skater_reg().fit(n_clusters, w, x_std, {'reg':BaseOLS,'y':y,'x':x_constant}, quorum=quorum, trace=trace)
+                sk_reg_results = Skater_reg().fit(n_clusters, w, x_std, {'reg':BaseOLS,'y':y,'x':x_constant}, quorum=quorum, trace=True)
                 self.clusters = sk_reg_results.current_labels_
                 self.score = sk_reg_results._trace[-1][1][2]
             except Exception as e:
@@ -1079,8 +1080,9 @@ class OLS_Endog_Regimes(OLS_Regimes):
                 else:
                     raise
 
-        self._trace = sk_reg_results._trace
-        self.SSR = [self._trace[i][1][2] for i in range(1, len(self._trace))]
+        self.SSR = [cut[1][2] for cut in sk_reg_results._trace[1:]]
+        if trace:
+            self._trace = sk_reg_results._trace
         OLS_Regimes.__init__(self, y, x_constant, regimes=self.clusters, w=w, name_regimes='Skater_reg', name_y=name_y, name_x=name_x,
                                      constant_regi='many', cols2regi='all', regime_err_sep=True, **kwargs)
 
diff --git a/spreg/twosls_regimes.py b/spreg/twosls_regimes.py
index b62def6..62464fd 100644
--- a/spreg/twosls_regimes.py
+++ b/spreg/twosls_regimes.py
@@ -1079,6 +1079,7 @@ class TSLS_Endog_Regimes(TSLS_Regimes):
             quorum = np.max([(x_constant.shape[1]+1)*10, 30])
         
         if not n_clusters:
+            trace = True
             n_clusters_opt = x_constant.shape[0]*0.70//quorum
             if n_clusters_opt < 2:
                 raise ValueError(
@@ -1089,7 +1090,7 @@ class TSLS_Endog_Regimes(TSLS_Regimes):
             self.score = sk_reg_results._trace[n_clusters-1][1][2]
         else:
             try:
-                sk_reg_results = Skater_reg().fit(n_clusters, w, x_std, {'reg':BaseTSLS,'y':y,'x':x_constant,'yend':yend,'q':q}, quorum=quorum, trace=trace)
+                sk_reg_results = Skater_reg().fit(n_clusters, w, x_std, {'reg':BaseTSLS,'y':y,'x':x_constant,'yend':yend,'q':q}, quorum=quorum, trace=True)
                 self.clusters = sk_reg_results.current_labels_
                 self.score = sk_reg_results._trace[-1][1][2]
             except Exception as e:
@@ -1098,8 +1099,9 @@ class TSLS_Endog_Regimes(TSLS_Regimes):
                 else:
                     raise
 
-        self._trace = sk_reg_results._trace
-        self.SSR = [self._trace[i][1][2] for i in range(1, len(self._trace))]
+        self.SSR = [cut[1][2] for cut in sk_reg_results._trace[1:]]
+        if trace:
+            self._trace = sk_reg_results._trace
         TSLS_Regimes.__init__(self, y, x_constant, yend, q, regimes=self.clusters, w=w, name_y=name_y, name_x=name_x, name_yend=name_yend, 
                               name_q=name_q, name_regimes='Skater_reg', constant_regi='many', cols2regi='all', regime_err_sep=True, **kwargs)
 
diff --git a/spreg/twosls_sp_regimes.py b/spreg/twosls_sp_regimes.py
index 8be65b6..dd7a8d8 100644
--- a/spreg/twosls_sp_regimes.py
+++ b/spreg/twosls_sp_regimes.py
@@ -1336,6 +1336,7 @@ class GM_Lag_Endog_Regimes(GM_Lag_Regimes):
             quorum = np.max([(x.shape[1]+1)*10, 30])
         
         if not n_clusters:
+            trace = True
             n_clusters_opt = x_constant.shape[0]*0.70//quorum
             if n_clusters_opt < 2:
                 raise ValueError(
@@ -1347,7 +1348,7 @@ class GM_Lag_Endog_Regimes(GM_Lag_Regimes):
         else:
             try:
                 # Call the Skater_reg method based on GM_Lag
-                sk_reg_results = Skater_reg().fit(n_clusters, w, x_std, {'reg':BaseGM_Lag,'y':y,'x':x_constant,'w':w}, quorum=quorum, trace=trace)
+                sk_reg_results = Skater_reg().fit(n_clusters, w, x_std, {'reg':BaseGM_Lag,'y':y,'x':x_constant,'w':w}, quorum=quorum, trace=True)
                 self.clusters = sk_reg_results.current_labels_
                 self.score = sk_reg_results._trace[-1][1][2]
             except Exception as e:
@@ -1356,8 +1357,9 @@ class GM_Lag_Endog_Regimes(GM_Lag_Regimes):
                 else:
                     raise
 
-        self._trace = sk_reg_results._trace
-        self.SSR = [self._trace[i][1][2] for i in range(1, len(self._trace))]
+        self.SSR = [cut[1][2] for cut in sk_reg_results._trace[1:]]
+        if trace:
+            self._trace = sk_reg_results._trace
         GM_Lag_Regimes.__init__(self, y, x, regimes=self.clusters, w=w, name_y=name_y, name_x=name_x, name_regimes='Skater_reg',
                                 constant_regi='many', cols2regi='all', regime_err_sep=False, **kwargs)
 
-- 
2.43.0


From 6036eb9e4a493f2bd6ec47724e9fc93302d5c38c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:52 +0000
Subject: [PATCH 79/94] fix: GM_Lag_Endog_Regimes passed on a constant column
 without its name

---
 spreg/twosls_sp_regimes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spreg/twosls_sp_regimes.py b/spreg/twosls_sp_regimes.py
index dd7a8d8..c3ebb1c 100644
--- a/spreg/twosls_sp_regimes.py
+++ b/spreg/twosls_sp_regimes.py
@@ -1333,7 +1333,7 @@ class GM_Lag_Endog_Regimes(GM_Lag_Regimes):
         x_std = (x_constant - np.mean(x_constant, axis=0)) / np.std(x_constant, axis=0)
 
         if quorum < 0:
-            quorum = np.max([(x.shape[1]+1)*10, 30])
+            quorum = np.max([(x_constant.shape[1]+1)*10, 30])
         
         if not n_clusters:
             trace = True
@@ -1360,7 +1360,7 @@ class GM_Lag_Endog_Regimes(GM_Lag_Regimes):
         self.SSR = [cut[1][2] for cut in sk_reg_results._trace[1:]]
         if trace:
             self._trace = sk_reg_results._trace
-        GM_Lag_Regimes.__init__(self, y, x, regimes=self.clusters, w=w, name_y=name_y, name_x=name_x, name_regimes='Skater_reg',
+        GM_Lag_Regimes.__init__(self, y, x_constant, regimes=self.clusters, w=w, name_y=name_y, name_x=name_x, name_regimes='Skater_reg',
                                 constant_regi='many', cols2regi='all', regime_err_sep=False, **kwargs)
 
 
-- 
2.43.0


From 59880ecf8555c1f3c347397b2c8c3bc81d37b656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:11 +0000
Subject: [PATCH 80/94] fix: ML_Error_Regimes labelled its Chow tests with the
 wrong variables

---
 spreg/ml_error_regimes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spreg/ml_error_regimes.py b/spreg/ml_error_regimes.py
index 18064b0..725d677 100644
--- a/spreg/ml_error_regimes.py
+++ b/spreg/ml_error_regimes.py
@@ -328,7 +328,7 @@ class ML_Error_Regimes(BaseML_Error, REGI.Regimes_Frame):
         self.name_x_r = USER.set_name_x(name_x, x_constant)
 
         cols2regi = REGI.check_cols2regi(constant_regi, cols2regi, x_constant)
-        self.cols2regi = cols2regi        
+        self.cols2regi = cols2regi[1:]  # without the constant, as in name_x_r[1:]
         self.regimes_set = REGI._get_regimes_set(regimes)
         self.regimes = regimes
         USER.check_regimes(self.regimes_set, self.n, x.shape[1])
-- 
2.43.0


From 1c85cf5abed06db1e8978d2301889b772e592989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:40 +0000
Subject: [PATCH 81/94] fix: summaries showed False as the name of the weights
 when name_w=False

---
 spreg/user_output.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spreg/user_output.py b/spreg/user_output.py
index be9d006..96d2988 100755
--- a/spreg/user_output.py
+++ b/spreg/user_output.py
@@ -303,7 +303,7 @@ def set_name_w(name_w, w):
 
     """
     if w != None:
-        if name_w != None:
+        if name_w:
             return name_w
         else:
             return "unknown"
-- 
2.43.0


From 520248049c49e1840b38401229c5297bc066f19f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:40 +0000
Subject: [PATCH 82/94] fix: stge_pre labelled a spatial Durbin model LAG when
 the lag model behind the AK test is out of bounds

---
 spreg/spsearch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spreg/spsearch.py b/spreg/spsearch.py
index be59729..9f021e3 100755
--- a/spreg/spsearch.py
+++ b/spreg/spsearch.py
@@ -697,7 +697,7 @@ def stge_pre(
                 except:  # ignore lag model
                     if p_rlag <= p_rerror:
                         k = idv + 1
-                        result = models[1]
+                        result = models[k]
 
                     else:
                         k = idv + 2
-- 
2.43.0


From d6e16d0c2c781c680118f32f9eb1c75855158c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:40 +0000
Subject: [PATCH 83/94] fix: gets_sdm computed tests that are singular for an
 SLX model

---
 spreg/spsearch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spreg/spsearch.py b/spreg/spsearch.py
index 9f021e3..23b3ebb 100755
--- a/spreg/spsearch.py
+++ b/spreg/spsearch.py
@@ -1295,7 +1295,7 @@ def gets_sdm(
                 latex=latex,
             )
 
-            errtest = LMtests(model_slx, w)
+            errtest = LMtests(model_slx, w, tests=["lme"])
             if errtest.lme[1] < p:  # SLX-ERROR
                 result = "SLX-Err"
 
-- 
2.43.0


From 1f9b6769314b0a7e2c3a3ba1080aa1e6917a0879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:40 +0000
Subject: [PATCH 84/94] fix: specification searches lost partial names and
 miscounted regressors when x holds a constant

---
 spreg/spsearch.py | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/spreg/spsearch.py b/spreg/spsearch.py
index 23b3ebb..202cc67 100755
--- a/spreg/spsearch.py
+++ b/spreg/spsearch.py
@@ -138,13 +138,15 @@ def stge_classic(
             w=w,
             slx_lags=0,
             spat_diag=True,
+            name_y=name_y or None,
+            name_x=name_x or None,
             name_w=name_w,
             name_ds=name_ds,
             latex=latex,
         )
 
-        name_y = model_ols_1.name_y
-        name_x = model_ols_1.name_x[1:]
+        name_y = name_y or None
+        name_x = name_x or None
 
     else:
         model_ols_1 = OLS.OLS(
@@ -384,13 +386,15 @@ def stge_kb(
             w=w,
             slx_lags=0,
             spat_diag=True,
+            name_y=name_y or None,
+            name_x=name_x or None,
             name_w=name_w,
             name_ds=name_ds,
             latex=latex,
         )
 
-        name_y = model_ols_1.name_y
-        name_x = model_ols_1.name_x[1:]
+        name_y = name_y or None
+        name_x = name_x or None
 
     else:
         model_ols_1 = OLS.OLS(
@@ -582,13 +586,15 @@ def stge_pre(
             w=w,
             slx_lags=0,
             spat_diag=True,
+            name_y=name_y or None,
+            name_x=name_x or None,
             name_w=name_w,
             name_ds=name_ds,
             latex=latex,
         )
 
-        name_y = model_ols_1.name_y
-        name_x = model_ols_1.name_x[1:]
+        name_y = name_y or None
+        name_x = name_x or None
 
     else:
         model_ols_1 = OLS.OLS(
@@ -870,6 +876,8 @@ def gets_gns(
                 add_wy=True,
                 w_lags=w_lags,
                 hard_bound=True,
+                name_y=name_y or None,
+                name_x=name_x or None,
                 name_w=name_w,
                 name_ds=name_ds,
                 latex=latex,
@@ -879,8 +887,8 @@ def gets_gns(
             print(result)
             return (result, finreg)
 
-        name_y = model_gns.name_y
-        name_x = model_gns.name_x[1 : k + 1]
+        name_y = name_y or None
+        name_x = name_x or None
 
     else:
         try:
@@ -903,6 +911,7 @@ def gets_gns(
             print(result)
             return (result, finreg)
 
+    k = (model_gns.x.shape[1] - 1) // 2  # without constants in x
     pstats = np.array(model_gns.z_stat)[1 + k :, 1]  # t statistics p-values
     pk = len(
         pstats
@@ -1205,6 +1214,8 @@ def gets_sdm(
                 slx_lags=1,
                 w_lags=w_lags,
                 hard_bound=True,
+                name_y=name_y or None,
+                name_x=name_x or None,
                 name_w=name_w,
                 name_ds=name_ds,
                 latex=latex,
@@ -1214,8 +1225,8 @@ def gets_sdm(
             print(result)
             return (result, finreg)
 
-        name_y = model_sdm.name_y
-        name_x = model_sdm.name_x[1 : k + 1]
+        name_y = name_y or None
+        name_x = name_x or None
 
     else:
         try:
@@ -1237,6 +1248,7 @@ def gets_sdm(
             print(result)
             return (result, finreg)
 
+    k = (model_sdm.x.shape[1] - 1) // 2  # without constants in x
     pstats = np.array(model_sdm.z_stat)[1 + k :, 1]  # spatial parameters
     pk = len(pstats)
 
-- 
2.43.0


From 013f702c34d4a20b256bbf1b9449266c6246ee74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:51 +0000
Subject: [PATCH 85/94] fix: log-determinant of ML lag/error (method='full')
 underflowed in larger samples, moving the estimate

---
 spreg/ml_error.py | 2 +-
 spreg/ml_lag.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/spreg/ml_error.py b/spreg/ml_error.py
index c69e2f0..b19da5a 100755
--- a/spreg/ml_error.py
+++ b/spreg/ml_error.py
@@ -559,7 +559,7 @@ def err_c_loglik(lam, n, y, ylag, x, xlag, W):
     nlsig2 = (n / 2.0) * np.log(sig2)
     a = -lam * W
     np.fill_diagonal(a, 1.0)
-    jacob = np.log(np.linalg.det(a))
+    jacob = np.linalg.slogdet(a)[1]
     # this is the negative of the concentrated log lik for minimization
     clik = nlsig2 - jacob
     return clik
diff --git a/spreg/ml_lag.py b/spreg/ml_lag.py
index c1ee4e6..d8ab0ed 100755
--- a/spreg/ml_lag.py
+++ b/spreg/ml_lag.py
@@ -706,7 +706,7 @@ def lag_c_loglik(rho, n, e0, e1, W):
     nlsig2 = (n / 2.0) * np.log(sig2)
     a = -rho * W
     spfill_diagonal(a, 1.0)
-    jacob = np.log(np.linalg.det(a))
+    jacob = np.linalg.slogdet(a)[1]
     # this is the negative of the concentrated log lik for minimization
     clik = nlsig2 - jacob
     return clik
-- 
2.43.0


From 177d03502a8098caaf5586c6a9bcf09db2238a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:32 +0000
Subject: [PATCH 86/94] fix: name_y of separated regimes models was split into
 single characters

---
 spreg/error_sp_het_regimes.py | 4 ++--
 spreg/error_sp_hom_regimes.py | 4 ++--
 spreg/error_sp_regimes.py     | 4 ++--
 spreg/ml_error_regimes.py     | 2 +-
 spreg/ml_lag_regimes.py       | 2 +-
 spreg/ols_regimes.py          | 2 +-
 spreg/twosls_regimes.py       | 2 +-
 spreg/twosls_sp_regimes.py    | 2 +-
 8 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/spreg/error_sp_het_regimes.py b/spreg/error_sp_het_regimes.py
index 7f84767..539ab0b 100644
--- a/spreg/error_sp_het_regimes.py
+++ b/spreg/error_sp_het_regimes.py
@@ -570,7 +570,7 @@ class GM_Error_Het_Regimes(RegressionPropsY, REGI.Regimes_Frame):
             self.e_filtered[
                 regi_ids[r],
             ] = results[r].e_filtered
-            self.name_y += results[r].name_y
+            self.name_y += [results[r].name_y]
             results[r].name_x = [str(r) + '_lambda' if value == 'lambda' else value for value in results[r].name_x]
             self.name_x += results[r].name_x
             results[r].other_top = _summary_iteration(results[r])
@@ -1292,7 +1292,7 @@ class GM_Endog_Error_Het_Regimes(RegressionPropsY, REGI.Regimes_Frame):
             self.e_filtered[
                 regi_ids[r],
             ] = results[r].e_filtered
-            self.name_y += results[r].name_y
+            self.name_y += [results[r].name_y]
             self.name_x += results[r].name_x
             self.name_yend += results[r].name_yend
             self.name_q += results[r].name_q
diff --git a/spreg/error_sp_hom_regimes.py b/spreg/error_sp_hom_regimes.py
index c200675..f5dee67 100644
--- a/spreg/error_sp_hom_regimes.py
+++ b/spreg/error_sp_hom_regimes.py
@@ -582,7 +582,7 @@ class GM_Error_Hom_Regimes(RegressionPropsY, REGI.Regimes_Frame):
             self.e_filtered[
                 regi_ids[r],
             ] = results[r].e_filtered
-            self.name_y += results[r].name_y
+            self.name_y += [results[r].name_y]
             self.name_x += results[r].name_x
             results[r].A1 = A1
             results[r].other_top = _summary_iteration(results[r])
@@ -1285,7 +1285,7 @@ class GM_Endog_Error_Hom_Regimes(RegressionPropsY, REGI.Regimes_Frame):
             self.e_filtered[
                 regi_ids[r],
             ] = results[r].e_filtered
-            self.name_y += results[r].name_y
+            self.name_y += [results[r].name_y]
             self.name_x += results[r].name_x
             self.name_yend += results[r].name_yend
             self.name_q += results[r].name_q
diff --git a/spreg/error_sp_regimes.py b/spreg/error_sp_regimes.py
index c81464a..34dd140 100644
--- a/spreg/error_sp_regimes.py
+++ b/spreg/error_sp_regimes.py
@@ -486,7 +486,7 @@ class GM_Error_Regimes(RegressionPropsY, REGI.Regimes_Frame):
             self.e_filtered[
                 regi_ids[r],
             ] = results[r].e_filtered
-            self.name_y += results[r].name_y
+            self.name_y += [results[r].name_y]
             self.name_x += results[r].name_x
             self.output = pd.concat([self.output, pd.DataFrame({'var_names': results[r].name_x,
                                                                 'var_type': ['x'] * (len(results[r].name_x) - 1) +
@@ -1106,7 +1106,7 @@ class GM_Endog_Error_Regimes(RegressionPropsY, REGI.Regimes_Frame):
             self.e_filtered[
                 regi_ids[r],
             ] = results[r].e_filtered
-            self.name_y += results[r].name_y
+            self.name_y += [results[r].name_y]
             self.name_x += results[r].name_x
             self.name_yend += results[r].name_yend
             self.name_q += results[r].name_q
diff --git a/spreg/ml_error_regimes.py b/spreg/ml_error_regimes.py
index 725d677..7b6563d 100644
--- a/spreg/ml_error_regimes.py
+++ b/spreg/ml_error_regimes.py
@@ -506,7 +506,7 @@ class ML_Error_Regimes(BaseML_Error, REGI.Regimes_Frame):
             self.e_filtered[
                 regi_ids[r],
             ] = results[r].e_filtered
-            self.name_y += results[r].name_y
+            self.name_y += [results[r].name_y]
             self.name_x += results[r].name_x
             results[r].other_top = _nonspat_top(results[r], ml=True)
             self.output = pd.concat([self.output, pd.DataFrame({'var_names': results[r].name_x,
diff --git a/spreg/ml_lag_regimes.py b/spreg/ml_lag_regimes.py
index 911c8cf..520da13 100644
--- a/spreg/ml_lag_regimes.py
+++ b/spreg/ml_lag_regimes.py
@@ -599,7 +599,7 @@ class ML_Lag_Regimes(BaseML_Lag, REGI.Regimes_Frame):
             self.e_pred[
                 regi_ids[r],
             ] = results[r].e_pred
-            self.name_y += results[r].name_y
+            self.name_y += [results[r].name_y]
             self.name_x += results[r].name_x
             results[r].other_top = _spat_pseudo_r2(results[r])
             results[r].other_top += _nonspat_top(results[r], ml=True)
diff --git a/spreg/ols_regimes.py b/spreg/ols_regimes.py
index 0aaac80..353e392 100755
--- a/spreg/ols_regimes.py
+++ b/spreg/ols_regimes.py
@@ -655,7 +655,7 @@ class OLS_Regimes(BaseOLS, REGI.Regimes_Frame, RegressionPropsY):
             self.predy[
                 regi_ids[r],
             ] = results[r].predy
-            self.name_y += results[r].name_y
+            self.name_y += [results[r].name_y]
             self.name_x += results[r].name_x
             self.output = pd.concat([self.output, pd.DataFrame({'var_names': results[r].name_x,
                                                        'var_type': ['o']+['x']*(len(results[r].name_x)-1),
diff --git a/spreg/twosls_regimes.py b/spreg/twosls_regimes.py
index 62464fd..49372b5 100644
--- a/spreg/twosls_regimes.py
+++ b/spreg/twosls_regimes.py
@@ -597,7 +597,7 @@ class TSLS_Regimes(BaseTSLS, REGI.Regimes_Frame):
             self.predy[
                 regi_ids[r],
             ] = results[r].predy
-            self.name_y += results[r].name_y
+            self.name_y += [results[r].name_y]
             self.name_x += results[r].name_x
             self.name_yend += results[r].name_yend
             self.name_q += results[r].name_q
diff --git a/spreg/twosls_sp_regimes.py b/spreg/twosls_sp_regimes.py
index c3ebb1c..7982df6 100644
--- a/spreg/twosls_sp_regimes.py
+++ b/spreg/twosls_sp_regimes.py
@@ -841,7 +841,7 @@ class GM_Lag_Regimes(TSLS_Regimes, REGI.Regimes_Frame):
             self.e_pred[
                 regi_ids[r],
             ] = results[r].e_pred
-            self.name_y += results[r].name_y
+            self.name_y += [results[r].name_y]
             self.name_x += results[r].name_x
             self.name_yend += results[r].name_yend
             self.name_q += results[r].name_q
-- 
2.43.0


From ee5dc12a92c36edbc4cf024c401c4ff6839159ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:45 +0000
Subject: [PATCH 87/94] fix: GM_Error_Regimes with separate errors did not
 mention SLX in the regimes' titles

---
 spreg/error_sp_regimes.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/spreg/error_sp_regimes.py b/spreg/error_sp_regimes.py
index 34dd140..8b85ba2 100644
--- a/spreg/error_sp_regimes.py
+++ b/spreg/error_sp_regimes.py
@@ -415,7 +415,7 @@ class GM_Error_Regimes(RegressionPropsY, REGI.Regimes_Frame):
                         name_x + ["lambda"],
                         self.name_w,
                         self.name_regimes,
-                        #slx_lags,
+                        slx_lags,
                     ),
                 )
             else:
@@ -431,7 +431,7 @@ class GM_Error_Regimes(RegressionPropsY, REGI.Regimes_Frame):
                         name_x + ["lambda"],
                         self.name_w,
                         self.name_regimes,
-                        #slx_lags,
+                        slx_lags,
                     )
                 )
 
@@ -1976,14 +1976,17 @@ class GMM_Error_Regimes(GM_Error_Regimes, GM_Combo_Regimes, GM_Endog_Error_Regim
                                             constant_regi=constant_regi, cols2regi=cols2regi, regime_err_sep=regime_err_sep,
                                             name_w=name_w, name_regimes=name_regimes, name_ds=name_ds, latex=latex)
 
-def _work_error(y, x, regi_ids, r, w, name_ds, name_y, name_x, name_w, name_regimes):
+def _work_error(y, x, regi_ids, r, w, name_ds, name_y, name_x, name_w, name_regimes, slx_lags):
     w_r, warn = REGI.w_regime(w, regi_ids[r], r, transform=True)
     y_r = y[regi_ids[r]]
     x_r = x[regi_ids[r]]
     model = BaseGM_Error(y_r, x_r, w_r.sparse)
     set_warn(model, warn)
     model.w = w_r
-    model.title = "GM SPATIALLY WEIGHTED LEAST SQUARES ESTIMATION - REGIME %s" % r
+    if slx_lags == 0:
+        model.title = "GM SPATIALLY WEIGHTED LEAST SQUARES ESTIMATION - REGIME %s" % r
+    else:
+        model.title = "GM SPATIALLY WEIGHTED LEAST SQUARES + SLX (SLX-Error) - REGIME %s" % r
     model.name_ds = name_ds
     model.name_y = "%s_%s" % (str(r), name_y)
     model.name_x = ["%s_%s" % (str(r), i) for i in name_x]
-- 
2.43.0


From e5a6953eb3d60965f7b68198df8349f75efe3eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:14 +0000
Subject: [PATCH 88/94] fix: Probit failed for a binary dependent variable of
 unsigned integer type

---
 spreg/probit.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/spreg/probit.py b/spreg/probit.py
index c5fbb58..06ae212 100755
--- a/spreg/probit.py
+++ b/spreg/probit.py
@@ -105,7 +105,7 @@ class BaseProbit():
 
     def __init__(self, y, x, optim="newton",bstart=False,maxiter=100):
         self.y = y
-        self.q = 2* self.y - 1
+        self.q = 2.0 * self.y - 1
         self.x = x
         self.xmean =  np.mean(self.x,axis=0).reshape(-1,1)
         self.n, self.k = x.shape
@@ -170,14 +170,14 @@ class BaseProbit():
 
     def ll(self, par):
         beta = np.reshape(np.array(par), (self.k, 1))
-        q = 2 * self.y - 1
+        q = 2.0 * self.y - 1
         qxb = q * spdot(self.x, beta)
         ll = sum(np.log(norm.cdf(qxb)))
         return ll
 
     def gradient(self, par):
         beta = np.reshape(np.array(par), (self.k, 1))
-        q = 2 * self.y - 1
+        q = 2.0 * self.y - 1
         qxb = q * spdot(self.x, beta)
         lamb = q * norm.pdf(qxb) / norm.cdf(qxb)
         gradient = spdot(lamb.T, self.x)[0]
@@ -185,7 +185,7 @@ class BaseProbit():
 
     def hessian(self, par):
         beta = np.reshape(np.array(par), (self.k, 1))
-        q = 2 * self.y - 1
+        q = 2.0 * self.y - 1
         xb = spdot(self.x, beta)
         qxb = q * xb
         lamb = q * norm.pdf(qxb) / norm.cdf(qxb)
-- 
2.43.0


From 1b0e2284a5ec1bf73fd767a6cffaa5534f9ee19f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:59 +0000
Subject: [PATCH 89/94] fix: PanelFE truncated the demeaned values of integer
 regressors

---
 spreg/panel.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/spreg/panel.py b/spreg/panel.py
index 62f0f23..bef82d3 100755
--- a/spreg/panel.py
+++ b/spreg/panel.py
@@ -342,6 +342,7 @@ class PanelFE(RegressionPropsY, RegressionPropsVM):
             y, x, w, name_y, name_x, slx_lags, slx_vars, self.title, add_constant=False)
         any(set_warn(self, i) for i in warn)
   
+        bigx = np.asarray(bigx, dtype=float)  # integers would truncate demeaned values
         self.k = bigx.shape[1]
 
         # Demean
-- 
2.43.0


From c2a70c9cfe848d9d0a379e72f40b333ab934bc74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:38:50 +0000
Subject: [PATCH 90/94] fix: cross-products of systems of equations overflowed
 for variables of narrow integer types

---
 spreg/sur.py       | 8 +++++---
 spreg/sur_error.py | 9 +++++----
 spreg/sur_utils.py | 5 +++++
 3 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/spreg/sur.py b/spreg/sur.py
index 05840a1..4dec569 100755
--- a/spreg/sur.py
+++ b/spreg/sur.py
@@ -16,6 +16,7 @@ from .sur_utils import (
     sur_dictZ,
     sur_corr,
     sur_crossprod,
+    _sur_float,
     sur_est,
     sur_resids,
     sur_predict,
@@ -110,8 +111,8 @@ class BaseSUR:
         self, bigy, bigX, iter=False, maxiter=5, epsilon=0.00001, verbose=False
     ):
         # setting up the cross-products
-        self.bigy = bigy
-        self.bigX = bigX
+        self.bigy = _sur_float(bigy)
+        self.bigX = _sur_float(bigX)
         self.n_eq = len(bigy.keys())
         self.n = bigy[0].shape[0]
         self.bigK = np.zeros((self.n_eq, 1), dtype=np.int_)
@@ -609,7 +610,8 @@ class BaseThreeSLS:
 
     def __init__(self, bigy, bigX, bigyend, bigq):
         # setting up the cross-products
-        self.bigy = bigy
+        bigX, bigyend, bigq = map(_sur_float, (bigX, bigyend, bigq))
+        self.bigy = _sur_float(bigy)
         self.n_eq = len(bigy.keys())
         self.n = bigy[0].shape[0]
         # dictionary with exog and endog, Z
diff --git a/spreg/sur_error.py b/spreg/sur_error.py
index c13e23c..f6e2c6c 100644
--- a/spreg/sur_error.py
+++ b/spreg/sur_error.py
@@ -25,6 +25,7 @@ from .sur_utils import (
     sur_corr,
     sur_dict2mat,
     sur_crossprod,
+    _sur_float,
     sur_est,
     sur_resids,
     filter_dict,
@@ -89,8 +90,8 @@ class BaseSURerrorGM:
         WS = w.sparse
         I = sp.identity(self.n)
         # variables
-        self.bigy = bigy
-        self.bigX = bigX
+        self.bigy = _sur_float(bigy)
+        self.bigX = _sur_float(bigX)
         # number of variables by equation
         self.bigK = np.zeros((self.n_eq, 1), dtype=np.int_)
         for r in range(self.n_eq):
@@ -492,8 +493,8 @@ class BaseSURerrorML:
         WS = w.sparse
         I = sp.identity(self.n)
         # variables
-        self.bigy = bigy
-        self.bigX = bigX
+        self.bigy = _sur_float(bigy)
+        self.bigX = _sur_float(bigX)
         # number of variables by equation
         self.bigK = np.zeros((self.n_eq, 1), dtype=np.int_)
         for r in range(self.n_eq):
diff --git a/spreg/sur_utils.py b/spreg/sur_utils.py
index 0457234..c137fd9 100644
--- a/spreg/sur_utils.py
+++ b/spreg/sur_utils.py
@@ -324,6 +324,11 @@ def sur_corr(sig):
     return corr
 
 
+def _sur_float(bigD):
+    """Variables as floats: cross-products of narrow integers overflow"""
+    return {r: bigD[r] * 1.0 for r in bigD}
+
+
 def sur_crossprod(bigZ, bigy):
     """
     Creates dictionaries of cross products by time period for both SUR and 3SLS
-- 
2.43.0


From 173163ecabc0dd554f470cf0b2e32db3f4569648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:15:17 +0000
Subject: [PATCH 91/94] fix: boolean and narrow integer weights matrices gave
 wrong results

---
 spreg/user_output.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/spreg/user_output.py b/spreg/user_output.py
index 96d2988..6996ce3 100755
--- a/spreg/user_output.py
+++ b/spreg/user_output.py
@@ -607,6 +607,10 @@ def check_weights(w, y, w_required=False, time=False, slx_lags=0, allow_wk=False
         if isinstance(w, scipy.sparse.spmatrix):        
             w = weights.WSP(w).to_W()
 
+        # products of boolean or narrow integer weights saturate or overflow
+        if isinstance(w, weights.W) and not np.can_cast(np.int32, w.sparse.dtype):
+            w = weights.WSP(w.sparse.astype(float), id_order=w.id_order).to_W()
+
         if w == None:
             raise Exception("A weights matrix w must be provided to run this method.")
         
-- 
2.43.0


From bb11fabab2b83b59eac194985c21feaf455bf729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:15:34 +0000
Subject: [PATCH 92/94] fix: missing or non-string names of pandas objects made
 estimators fail

---
 spreg/panel_utils.py | 14 ++++--------
 spreg/sp_panels.py   | 15 +++++--------
 spreg/user_output.py | 51 +++++++++++++++++++++++---------------------
 3 files changed, 36 insertions(+), 44 deletions(-)

diff --git a/spreg/panel_utils.py b/spreg/panel_utils.py
index 71e697f..37ad6fd 100755
--- a/spreg/panel_utils.py
+++ b/spreg/panel_utils.py
@@ -61,20 +61,14 @@ def check_panel(y, x, w, name_y, name_x):
 
     if isinstance(y, (pd.Series, pd.DataFrame)):
         if name_y is None:
-            try:
-                name_y = y.columns.to_list()
-            except AttributeError:
-                name_y = y.name
+            name_y = USER.get_names(y)
         y = y.to_numpy()
         if y.ndim == 1:
             y = y.reshape(-1, 1)
         
     if isinstance(x, (pd.Series, pd.DataFrame)):
         if name_x is None:
-            try:
-                name_x = x.columns.to_list()
-            except AttributeError:
-                name_x = [x.name]
+            name_x = USER.get_names(x)
         x = x.to_numpy()
         if x.ndim == 1:
             x = x.reshape(-1, 1)
@@ -119,7 +113,7 @@ def check_panel(y, x, w, name_y, name_x):
         if not isinstance(name_y, str) and not isinstance(name_y, list):
             raise Exception("name_y must either be strings or a list of" "strings.")
         if len(name_y) > 1 and isinstance(name_y, list):
-            name_y = "".join([i for i in name_y[0] if not i.isdigit()])
+            name_y = "".join([i for i in name_y[0] if not i.isdigit()]) or name_y[0]
         if len(name_y) == 1 and isinstance(name_y, list):
             name_y = name_y[0]
     if name_x:
@@ -131,7 +125,7 @@ def check_panel(y, x, w, name_y, name_x):
             name_bigx = []
             for i in range(k):
                 namek = "".join([j for j in name_x[i * T] if not j.isdigit()])
-                name_bigx.append(namek)
+                name_bigx.append(namek or name_x[i * T])
             name_x = name_bigx
 
     return bigy, bigx, name_y, name_x, T, warn
diff --git a/spreg/sp_panels.py b/spreg/sp_panels.py
index 934a354..565a110 100755
--- a/spreg/sp_panels.py
+++ b/spreg/sp_panels.py
@@ -495,20 +495,14 @@ def _get_panel_data(y, x, w, name_y, name_x):
 
     if isinstance(y, (pd.Series, pd.DataFrame)):
         if name_y is None:
-            try:
-                name_y = y.columns.to_list()
-            except AttributeError:
-                name_y = y.name
+            name_y = USER.get_names(y)
         y = y.to_numpy()
         if y.ndim == 1:
             y = y.reshape(-1, 1)
         
     if isinstance(x, (pd.Series, pd.DataFrame)):
         if name_x is None:
-            try:
-                name_x = x.columns.to_list()
-            except AttributeError:
-                name_x = [x.name]
+            name_x = USER.get_names(x)
         x = x.to_numpy()
         if x.ndim == 1:
             x = x.reshape(-1, 1)
@@ -552,7 +546,7 @@ def _get_panel_data(y, x, w, name_y, name_x):
         if not isinstance(name_y, str) and not isinstance(name_y, list):
             raise Exception("name_y must either be strings or a list of strings.")
         if len(name_y) > 1 and isinstance(name_y, list):
-            name_y = "".join([i for i in name_y[0] if not i.isdigit()])
+            name_y = "".join([i for i in name_y[0] if not i.isdigit()]) or name_y[0]
         if len(name_y) == 1 and isinstance(name_y, list):
             name_y = name_y[0]
     if name_x:
@@ -563,7 +557,8 @@ def _get_panel_data(y, x, w, name_y, name_x):
         if len(name_x) > k:
             name_bigx = []
             for i in range(k):
-                name_bigx.append("".join([j for j in name_x[i * T] if not j.isdigit()]))
+                namek = "".join([j for j in name_x[i * T] if not j.isdigit()])
+                name_bigx.append(namek or name_x[i * T])
             name_x = name_bigx
 
     return bigy, bigx, name_y, name_x
diff --git a/spreg/user_output.py b/spreg/user_output.py
index 6996ce3..8fb9942 100755
--- a/spreg/user_output.py
+++ b/spreg/user_output.py
@@ -493,12 +493,9 @@ def check_y(y, n, name_y=None):
     """
     if isinstance(y, (pd.Series, pd.DataFrame)):
         if not name_y:
-            try:
-                name_y = y.name
-            except AttributeError:
-                name_y = y.columns.to_list()
-                if len(name_y) == 1:
-                    name_y = name_y[0]
+            name_y = get_names(y)
+            if name_y is not None and len(name_y) == 1:
+                name_y = name_y[0]
                     
         y = y.to_numpy()
     if not isinstance(y, np.ndarray):
@@ -523,6 +520,24 @@ def check_y(y, n, name_y=None):
 
     return y, name_y
 
+def get_names(data):
+    """Names of the variables in a pandas object, as strings.
+
+    Parameters
+    ----------
+    data   : pd.Series or pd.DataFrame
+
+    Returns
+    -------
+    names  : list of strings
+             None for a series without a name
+    """
+    if isinstance(data, pd.DataFrame):
+        return [str(i) for i in data.columns]
+    if data.name is None:
+        return None
+    return [str(data.name)]
+
 def check_endog(arrays, names):
     """Check if each of the endogenous arrays passed by a user to a regression class are
     pandas objects. In this case, the function converts them to numpy arrays and collects their names.
@@ -537,10 +552,7 @@ def check_endog(arrays, names):
     for i in range(len(arrays)):
         if isinstance(arrays[i], (pd.Series, pd.DataFrame)):
             if not names[i]:
-                try:
-                    names[i] = [arrays[i].name]
-                except AttributeError:
-                    names[i] = arrays[i].columns.to_list()
+                names[i] = get_names(arrays[i])
             arrays[i] = arrays[i].to_numpy()
 
         if arrays[i] is None:
@@ -809,8 +821,8 @@ def check_reg_list(regimes, name_regimes, n):
     if isinstance(regimes, list):
         pass
     elif isinstance(regimes, pd.Series):
-        if not name_regimes:
-            name_regimes = regimes.name
+        if not name_regimes and regimes.name is not None:
+            name_regimes = str(regimes.name)
         regimes = regimes.tolist()
     elif isinstance(regimes, np.ndarray):
         regimes = regimes.tolist()
@@ -908,10 +920,7 @@ def check_constant(x, name_x=None, just_rem=False):
     """
     if isinstance(x, (pd.Series, pd.DataFrame)):
         if name_x is None:
-            try:
-                name_x = x.columns.to_list()
-            except AttributeError:
-                name_x = [x.name]
+            name_x = get_names(x)
         x = x.to_numpy()
 
     check_numeric_bool(x) 
@@ -1042,10 +1051,7 @@ def check_coords(data,name_coords):
             xy = np.array(data)
 
             if not name_coords:
-                try:
-                    name_coords = data.name
-                except AttributeError:
-                    name_coords = data.columns.to_list()
+                name_coords = get_names(data)
 
         elif (isinstance(data,gpd.geoseries.GeoSeries)):   # geometry column
             if data.iloc[0].geom_type == 'Point':
@@ -1053,10 +1059,7 @@ def check_coords(data,name_coords):
                 xy = np.array(xy)
 
                 if not name_coords:
-                    try:
-                        name_coords = data.name
-                    except AttributeError:
-                        name_coords = data.columns.to_list()
+                    name_coords = "unknown" if data.name is None else str(data.name)
 
             else:
                 raise Exception("Data type not supported")
-- 
2.43.0


From 97e76f8f86c5c8bbe3958a0b6b0addf2484f6f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:44:14 +0000
Subject: [PATCH 93/94] fix: PanelRE dropped regressors measured in small units
 from its within estimates

---
 spreg/panel.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spreg/panel.py b/spreg/panel.py
index bef82d3..6a34948 100755
--- a/spreg/panel.py
+++ b/spreg/panel.py
@@ -554,7 +554,8 @@ class PanelRE(RegressionPropsY, RegressionPropsVM):
         x_dem = bigx - x_mean_long
         
         var_check = np.var(x_dem, axis=0)
-        valid_cols = var_check > 1e-12 
+        # relative to the scale of the variables: a change of units must not drop them
+        valid_cols = var_check > 1e-20 * np.mean(bigx**2, axis=0)
         
         beta_fe = None
         xtx_inv_fe = None
-- 
2.43.0


From 813d1d85767f6e7a2557fd546f89dc7a2eac2892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:44:23 +0000
Subject: [PATCH 94/94] fix: fixed effects panels returned arbitrary
 coefficients for regressors that do not vary over time

---
 spreg/panel.py       |  5 ++++-
 spreg/panel_fe.py    |  4 +++-
 spreg/panel_utils.py | 19 +++++++++++++++++++
 3 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/spreg/panel.py b/spreg/panel.py
index 6a34948..701910e 100755
--- a/spreg/panel.py
+++ b/spreg/panel.py
@@ -11,7 +11,7 @@ from .diagnostics_panel import BSK_tests
 from .utils import RegressionPropsY, RegressionPropsVM, set_warn, optim_moments, get_spFilter, spdot, inverse_prod
 from .sputils import spdot, spfill_diagonal, spinv
 from .ols import BaseOLS
-from .panel_utils import prepare_panel, demean_panel
+from .panel_utils import prepare_panel, demean_panel, check_time_varying
 from .output import output, _nonspat_mid, _nonspat_top, _summary_iteration, _summary_impacts
 from . import regimes as REGI
 from . import user_output as USER
@@ -364,6 +364,7 @@ class PanelFE(RegressionPropsY, RegressionPropsVM):
             col_vals = bigx[:, i] 
             dem_x[:, i] = col_vals - np.tile(col_mean, T)
 
+        check_time_varying(bigx, dem_x)
         reg_ols = BaseOLS(dem_y, dem_x, sig2n_k=False)
         self.y, self.x = bigy, bigx
         self.betas = reg_ols.betas
@@ -1569,6 +1570,7 @@ class BaseML_ErrorFE(RegressionPropsY, RegressionPropsVM):
         # Demeaned variables
         self.y = demean_panel(y, N, self.t)
         self.x = demean_panel(x, N, self.t)
+        check_time_varying(x, self.x)
         # Big W matrix
         W = w.full()[0]
         Wsp = w.sparse
@@ -2374,6 +2376,7 @@ class BaseML_LagFE(RegressionPropsY, RegressionPropsVM):
         # Demeaned variables
         self.y = demean_panel(y, N, self.t)
         self.x = demean_panel(x, N, self.t)
+        check_time_varying(x, self.x)
         # Big W matrix
         W = w.full()[0]
         Wsp = w.sparse
diff --git a/spreg/panel_fe.py b/spreg/panel_fe.py
index 2159417..c6d40a5 100755
--- a/spreg/panel_fe.py
+++ b/spreg/panel_fe.py
@@ -31,7 +31,7 @@ try:
 except ImportError:
     minimize_scalar_available = False
 
-from .panel_utils import check_panel, demean_panel
+from .panel_utils import check_panel, demean_panel, check_time_varying
 
 __all__ = ["Panel_FE_Lag", "Panel_FE_Error"]
 
@@ -105,6 +105,7 @@ class BasePanel_FE_Lag(RegressionPropsY, RegressionPropsVM):
         # Demeaned variables
         self.y = demean_panel(y, self.n, self.t)
         self.x = demean_panel(x, self.n, self.t)
+        check_time_varying(x, self.x)
         # Big W matrix
         W = w.full()[0]
         Wsp = w.sparse
@@ -419,6 +420,7 @@ class BasePanel_FE_Error(RegressionPropsY, RegressionPropsVM):
         # Demeaned variables
         self.y = demean_panel(y, self.n, self.t)
         self.x = demean_panel(x, self.n, self.t)
+        check_time_varying(x, self.x)
         # Big W matrix
         W = w.full()[0]
         Wsp = w.sparse
diff --git a/spreg/panel_utils.py b/spreg/panel_utils.py
index 37ad6fd..bf95289 100755
--- a/spreg/panel_utils.py
+++ b/spreg/panel_utils.py
@@ -160,3 +160,22 @@ def demean_panel(arr, n, t, phi=0):
     arr_dm = spdot(Q, arr)
 
     return arr_dm
+
+
+def check_time_varying(x, x_dm):
+    """
+    Raises an exception when a regressor does not vary over time, as its
+    coefficient is not identified by the within transformation.
+
+    Parameters
+    ----------
+    x           : array
+                  n*txk array with the regressors
+    x_dm        : array
+                  n*txk array with the demeaned regressors
+    """
+
+    if (np.mean(x_dm**2, axis=0) <= 1e-20 * np.mean(np.square(x, dtype=float), axis=0)).any():
+        raise Exception(
+            "Regressors that do not vary over time are not identified in fixed effects panels."
+        )
-- 
2.43.0


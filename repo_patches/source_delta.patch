From 1e4feb3454b84b08205a95034026f39709222586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:21 +0000
Subject: [PATCH 01/37] fix: eigenvalue sorting never selects the same
 eigenvalue twice

---
 bicycleparameters/bicycle.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/bicycleparameters/bicycle.py b/bicycleparameters/bicycle.py
index 55f516a..e334176 100644
--- a/bicycleparameters/bicycle.py
+++ b/bicycleparameters/bicycle.py
@@ -246,11 +246,8 @@ def sort_eigenmodes(evals, evecs):
                 xn, yn = np.real(eignext), np.imag(eignext)
                 # distance between points in the real/imag plane
                 dist[k] = np.abs(((xn - x)**2 + (yn - y)**2)**0.5)
-            if np.argmin(dist) in used:
-                # set the already used indice higher
-                dist[np.argmin(dist)] = np.max(dist) + 1.
-            else:
-                pass
+            # never select an eigenvalue that has already been used
+            dist[used] = np.inf
             evalsorg[i + 1, j] = evals[i + 1, np.argmin(dist)]
             evecsorg[i + 1, :, j] = evecs[i + 1, :, np.argmin(dist)]
             # keep track of the indices we've used
@@ -319,11 +316,8 @@ def sort_modes(evals, evecs):
                     xn, yn = np.real(eignext), np.imag(eignext)
                 # distance between points in the real/imag plane
                 dist[k] = np.abs(((xn - x)**2 + (yn - y)**2)**0.5)
-            if np.argmin(dist) in used:
-                # set the already used indice higher
-                dist[np.argmin(dist)] = np.max(dist) + 1.
-            else:
-                pass
+            # never select an eigenvalue that has already been used
+            dist[used] = np.inf
             evalsorg[i + 1, j] = evals[i + 1, np.argmin(dist)]
             evecsorg[i + 1, :, j] = evecs[i + 1, :, np.argmin(dist)]
             # keep track of the indices we've used
-- 
2.43.0


From e967323f85bd5fe40c597435ab96607177630349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:21 +0000
Subject: [PATCH 02/37] fix: modal controllability works for scalar parameters

---
 bicycleparameters/models.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bicycleparameters/models.py b/bicycleparameters/models.py
index fa104f3..052bf49 100644
--- a/bicycleparameters/models.py
+++ b/bicycleparameters/models.py
@@ -895,7 +895,8 @@ class Meijaard2007Model(_Model):
 
         _, B = self.form_state_space_matrices(**parameter_overrides)
         evals, evecs = self.calc_eigen(left=True, **parameter_overrides)
-        evals, evecs = sort_eigenmodes(evals, evecs)
+        if evals.ndim > 1:
+            evals, evecs = sort_eigenmodes(evals, evecs)
 
         def mod_cont(q, b, acute=True):
             """Returns the modal controllability value of the eigenvector q and
-- 
2.43.0


From f04aa6bcbb584f9c66422106265b99a668194015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:21 +0000
Subject: [PATCH 03/37] fix: plot_eigenvectors pairs each eigenvalue with its
 own eigenvector

---
 bicycleparameters/models.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/bicycleparameters/models.py b/bicycleparameters/models.py
index 052bf49..7f38fe3 100644
--- a/bicycleparameters/models.py
+++ b/bicycleparameters/models.py
@@ -294,7 +294,8 @@ class _Model(abc.ABC):
             **parameter_overrides)
 
         eval_seq, evec_seq = self.calc_eigen(**parameter_overrides)
-        eval_seq, evec_seq = np.atleast_2d(eval_seq), np.atleast_3d(evec_seq)
+        if eval_seq.ndim == 1:
+            eval_seq, evec_seq = eval_seq[np.newaxis], evec_seq[np.newaxis]
 
         # TODO : This assumes that the eigenvalues are in the same order.
         plot = np.ones(len(eval_seq[-1]), dtype=int)
@@ -333,7 +334,7 @@ class _Model(abc.ABC):
         else:
             par_vals = [0.0]
 
-        for k, (evals, evecs, par_val) in enumerate(zip(eval_seq, evec_seq.T,
+        for k, (evals, evecs, par_val) in enumerate(zip(eval_seq, evec_seq,
                                                         par_vals)):
 
             if arr_keys:
@@ -342,7 +343,7 @@ class _Model(abc.ABC):
                                       labelpad=30)
 
             i = 0
-            for eigenval, eigenvec, pl in zip(evals, evecs, plot):
+            for eigenval, eigenvec, pl in zip(evals, evecs.T, plot):
 
                 if pl:
                     max_com = np.abs(eigenvec).max()
-- 
2.43.0


From 8716cd52ea3326e7e3030a9728ca9e19678cfe0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:21 +0000
Subject: [PATCH 04/37] fix: rider lean model has a unit for each of its twelve
 states

---
 bicycleparameters/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bicycleparameters/models.py b/bicycleparameters/models.py
index 7f38fe3..73b6e41 100644
--- a/bicycleparameters/models.py
+++ b/bicycleparameters/models.py
@@ -1275,7 +1275,7 @@ class MooreRiderLean2012Model(_Model):
                   'u4', 'u6', 'u7', 'u9']
     input_units = ['N-m', 'N-m', 'N-m']
     state_units = ['m', 'm', 'rad', 'rad', 'rad', 'rad', 'rad', 'rad',
-                   'rad/s', 'rad/s', 'rad/s', ]
+                   'rad/s', 'rad/s', 'rad/s', 'rad/s']
     input_vars_latex = ['T_4', 'T_7', 'T_9']
     state_vars_latex = ['q_1', 'q_2', 'q_3', 'q_4', 'q_6', 'q_7', 'q_8', 'q_9',
                         'u_4', 'u_6', 'u_7', 'u_9']
-- 
2.43.0


From d8cef33bcbea9ccc1888aca2584e0e84aefa0344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:29 +0000
Subject: [PATCH 05/37] fix: rider lean simulation leaves the caller's initial
 conditions alone

---
 bicycleparameters/models.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/bicycleparameters/models.py b/bicycleparameters/models.py
index 73b6e41..6861bf1 100644
--- a/bicycleparameters/models.py
+++ b/bicycleparameters/models.py
@@ -1460,6 +1460,7 @@ class MooreRiderLean2012Model(_Model):
             **parameter_overrides)
 
         # u6 has to be consistent with v
+        initial_conditions = np.array(initial_conditions, dtype=float)
         initial_conditions[9] = -par['v']/par['rr']
 
         return super().simulate(times, initial_conditions,
@@ -1514,9 +1515,6 @@ class MooreRiderLean2012Model(_Model):
         par, array_keys, array_len = self._parse_parameter_overrides(
             **parameter_overrides)
 
-        # u6 has to be consistent with v
-        initial_conditions[9] = -par['v']/par['rr']
-
         res, inputs = self.simulate(times, initial_conditions,
                                     input_func=input_func,
                                     **parameter_overrides)
-- 
2.43.0


From 0276ee3385f30c2b0c1abdb6c84527f2cc938cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:49 +0000
Subject: [PATCH 06/37] fix: computing the canonical matrices leaves the
 parameter dictionary alone

---
 bicycleparameters/bicycle.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bicycleparameters/bicycle.py b/bicycleparameters/bicycle.py
index e334176..9cd25f1 100644
--- a/bicycleparameters/bicycle.py
+++ b/bicycleparameters/bicycle.py
@@ -112,9 +112,9 @@ def benchmark_par_to_canonical(p):
             p['mF']*p['rF']**2)
     ITxz = (p['IBxz'] + p['IHxz'] - p['mB']*p['xB']*p['zB'] -
             p['mH']*p['xH']*p['zH'] + p['mF']*p['w']*p['rF'])
-    p['IRzz'] = p['IRxx']
-    p['IFzz'] = p['IFxx']
-    ITzz = (p['IRzz'] + p['IBzz'] + p['IHzz'] + p['IFzz'] +
+    IRzz = p['IRxx']
+    IFzz = p['IFxx']
+    ITzz = (IRzz + p['IBzz'] + p['IHzz'] + IFzz +
             p['mB']*p['xB']**2 + p['mH']*p['xH']**2 + p['mF']*p['w']**2)
 
     mA = p['mH'] + p['mF']
@@ -125,7 +125,7 @@ def benchmark_par_to_canonical(p):
             p['mF']*(p['rF'] + zA)**2)
     IAxz = (p['IHxz'] - p['mH']*(p['xH'] - xA)*(p['zH'] - zA) + p['mF'] *
             (p['w'] - xA)*(p['rF'] + zA))
-    IAzz = (p['IHzz'] + p['IFzz'] + p['mH']*(p['xH'] - xA)**2 + p['mF'] *
+    IAzz = (p['IHzz'] + IFzz + p['mH']*(p['xH'] - xA)**2 + p['mF'] *
             (p['w'] - xA)**2)
     uA = (xA - p['w'] - p['c'])*umath.cos(p['lam']) - zA*umath.sin(p['lam'])
     IAll = (mA*uA**2 + IAxx*umath.sin(p['lam'])**2 +
-- 
2.43.0


From ae3799d9ced2a8d70f8b0582d25529d89396e3be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:36 +0000
Subject: [PATCH 07/37] fix: every valid Moore2019 set converts to the
 Meijaard2007 parameterizations

---
 bicycleparameters/parameter_sets.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bicycleparameters/parameter_sets.py b/bicycleparameters/parameter_sets.py
index 7f2d7f9..965b091 100644
--- a/bicycleparameters/parameter_sets.py
+++ b/bicycleparameters/parameter_sets.py
@@ -1134,13 +1134,13 @@ class Moore2019ParameterSet(ParameterSet):
         if name == self.parameterization:
             return self
         elif name == 'Meijaard2007':
-            b = _convert_principal_to_benchmark(self.parameters)
+            par = self.parameters.copy()
+            par.update(self._calc_derived_params())
+            b = _convert_principal_to_benchmark(par)
             # Moore2019 always includes the rider
             return Meijaard2007ParameterSet(b, True)
         elif name == 'Meijaard2007WithFeedback':
-            b = _convert_principal_to_benchmark(self.parameters)
-            # Moore2019 always includes the rider
-            par_set = Meijaard2007WithFeedbackParameterSet(b, True)
+            par_set = self.to_parameterization('Meijaard2007')
             return par_set.to_parameterization(name)
         else:
             msg = '{} is not an available parameter set'
-- 
2.43.0


From b751ba856c5dc5b374c7a0f0f756beed4e946948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:36 +0000
Subject: [PATCH 08/37] fix: inertia ellipses are drawn with their full axis
 lengths

---
 bicycleparameters/parameter_sets.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/bicycleparameters/parameter_sets.py b/bicycleparameters/parameter_sets.py
index 965b091..912ef6b 100644
--- a/bicycleparameters/parameter_sets.py
+++ b/bicycleparameters/parameter_sets.py
@@ -781,8 +781,10 @@ class Meijaard2007ParameterSet(ParameterSet):
 
         kaa, kbb, kyy, alpha = self._planar_principal_radii_of_gyration(body)
 
-        width = np.sqrt(5/2*(-kaa**2 + kyy**2 + kbb**2))
-        height = np.sqrt(5/2*(kaa**2 + kyy**2 - kbb**2))
+        # NOTE : an ellipse's width and height are its full axis lengths, i.e.
+        # twice the semi-axes
+        width = 2*np.sqrt(5/2*(-kaa**2 + kyy**2 + kbb**2))
+        height = 2*np.sqrt(5/2*(kaa**2 + kyy**2 - kbb**2))
 
         ellipse = patches.Ellipse((p['x{}'.format(body)], p['z{}'.format(body)]),
                                   width, height,
@@ -1466,8 +1468,10 @@ class Moore2019ParameterSet(ParameterSet):
         kyy = p['k{}yy'.format(body)]
         alpha = p['alpha{}'.format(body)]
 
-        width = np.sqrt(5/2*(-kaa**2 + kyy**2 + kbb**2))
-        height = np.sqrt(5/2*(kaa**2 + kyy**2 - kbb**2))
+        # NOTE : an ellipse's width and height are its full axis lengths, i.e.
+        # twice the semi-axes
+        width = 2*np.sqrt(5/2*(-kaa**2 + kyy**2 + kbb**2))
+        height = 2*np.sqrt(5/2*(kaa**2 + kyy**2 - kbb**2))
 
         ellipse = patches.Ellipse((p['x{}'.format(body)],
                                    p['z{}'.format(body)]), width, height,
-- 
2.43.0


From 2f8c27c0368c18007dace03a60b43f7b81e99145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:24 +0000
Subject: [PATCH 09/37] fix: steer axis tilt from offsets accepts plain floats

---
 bicycleparameters/bicycle.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/bicycleparameters/bicycle.py b/bicycleparameters/bicycle.py
index 9cd25f1..334b1fe 100644
--- a/bicycleparameters/bicycle.py
+++ b/bicycleparameters/bicycle.py
@@ -2,7 +2,7 @@
 
 import numpy as np
 from scipy.optimize import newton
-from uncertainties import umath, ufloat
+from uncertainties import UFloat, umath, ufloat
 
 
 def ab_matrix(M, C1, K0, K2, v, g):
@@ -202,11 +202,14 @@ def lambda_from_abc(rF, rR, a, b, c):
     # that needs to be figured out. I guess I could use least squares and do it
     # the same way as get_period.
 
-    args = (rF.nominal_value, rR.nominal_value, a.nominal_value,
-            b.nominal_value, c.nominal_value)
+    args = tuple(x.nominal_value if isinstance(x, UFloat) else x
+                 for x in (rF, rR, a, b, c))
 
-    lam = newton(lam_equality, guess.nominal_value, args=args)
-    return ufloat(lam, guess.std_dev)
+    if isinstance(guess, UFloat):
+        lam = newton(lam_equality, guess.nominal_value, args=args)
+        return ufloat(lam, guess.std_dev)
+    else:
+        return newton(lam_equality, guess, args=args)
 
 
 def sort_eigenmodes(evals, evecs):
-- 
2.43.0


From 5596a8c877a240143d8d670b33fc725370de7045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:17 +0000
Subject: [PATCH 10/37] fix: riders without the optional yB can be added

---
 bicycleparameters/inertia.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bicycleparameters/inertia.py b/bicycleparameters/inertia.py
index d172c09..df5c881 100644
--- a/bicycleparameters/inertia.py
+++ b/bicycleparameters/inertia.py
@@ -29,11 +29,13 @@ def combine_bike_rider(bicyclePar, riderPar):
 
     """
 
+    # the lateral offset is optional, a symmetric rider has none
+    yRider = riderPar.get('yB', 0.0)
     # list the masses of the rider and bicycle
     masses = np.array([riderPar['mB'], bicyclePar['mB']])
     # list the centers of mass of the rider and bicycle
     coordinates = np.array([[riderPar['xB'], bicyclePar['xB']],
-                            [riderPar['yB'], 0.],
+                            [yRider, 0.],
                             [riderPar['zB'], bicyclePar['zB']]])
     # calculate the new mass and center of mass
     mT, cT = total_com(coordinates, masses)
@@ -43,7 +45,7 @@ def combine_bike_rider(bicyclePar, riderPar):
     # calculate the distance from the center of mass of each body to the
     # center of mass of the combined body
     dRider = np.array([riderPar['xB'] - cT[0],
-                       riderPar['yB'] - cT[1],
+                       yRider - cT[1],
                        riderPar['zB'] - cT[2]])
     dBicycle = np.array([bicyclePar['xB'] - cT[0],
                          0.,
-- 
2.43.0


From 855e833fe919ff14b899ab1ba661fdf5ae93bb23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:01 +0000
Subject: [PATCH 11/37] fix: parameter files may contain blank lines and
 indented comments

---
 bicycleparameters/io.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/bicycleparameters/io.py b/bicycleparameters/io.py
index dcb3b80..31118cc 100644
--- a/bicycleparameters/io.py
+++ b/bicycleparameters/io.py
@@ -56,11 +56,12 @@ def load_parameter_text_file(pathToFile):
     # parse the text file
     with open(pathToFile, 'r') as f:
         for line in f:
-            # ignore lines that start with a hash
-            if line[0] != '#':
-                # remove any whitespace characters and comments at the end of
-                # the line, then split the right and left side of the equality
-                equality = line.strip().split('#')[0].split('=')
+            # remove any comment and whitespace characters
+            line = line.split('#')[0].strip()
+            # ignore lines that are empty or only have a comment
+            if line:
+                # split the right and left side of the equality
+                equality = line.split('=')
                 # ['a ', ' 0.1 +/- 0.05 , 0.09 +/- 0.05']
                 valList = equality[1].strip().split(',')
                 # ['0.1 +/- 0.05 ', ' 0.09 +/- 0.05']
-- 
2.43.0


From fddcfe602541e1aac065797cae01976b15243da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:01 +0000
Subject: [PATCH 12/37] fix: periods written after an unterminated last line
 get their own line

---
 bicycleparameters/io.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bicycleparameters/io.py b/bicycleparameters/io.py
index 31118cc..dd527c0 100644
--- a/bicycleparameters/io.py
+++ b/bicycleparameters/io.py
@@ -207,6 +207,9 @@ def write_periods_to_file(pathToRawFile, mp):
         if not line.startswith('T'):
             baseData += line
     f.close()
+    # the last line may lack its line ending
+    if baseData and not baseData.endswith('\n'):
+        baseData += '\n'
     # add the periods to the base data
     periodKeys = [x for x in mp.keys() if x.startswith('T')]
     periodKeys.sort()
-- 
2.43.0


From bc3460c49252cc2ca9ea86ffabbbb2b11b462f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:01 +0000
Subject: [PATCH 13/37] fix: recalculating periods keeps the hand entered ones
 in the file

---
 bicycleparameters/main.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bicycleparameters/main.py b/bicycleparameters/main.py
index 9e6f175..a4daf93 100644
--- a/bicycleparameters/main.py
+++ b/bicycleparameters/main.py
@@ -405,7 +405,10 @@ class Bicycle(object):
             # add the periods to the measured parameters
             self.parameters['Measured'].update(periods)
 
-            io.write_periods_to_file(pathToRawFile, periods)
+            # all periods in the file are replaced, so write the ones that were
+            # not calculated from the mat files too
+            io.write_periods_to_file(pathToRawFile,
+                                     self.parameters['Measured'])
 
         return calculate_benchmark_from_measured(self.parameters['Measured'])
 
-- 
2.43.0


From 91dd8934f38d958356d707dcbda447bd52190560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:01 +0000
Subject: [PATCH 14/37] fix: uncertainties can be removed from sequences of
 plain numbers

---
 bicycleparameters/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bicycleparameters/io.py b/bicycleparameters/io.py
index dd527c0..2d2884e 100644
--- a/bicycleparameters/io.py
+++ b/bicycleparameters/io.py
@@ -110,7 +110,7 @@ def remove_uncertainties(dictionary):
         except AttributeError:
             # this is the case if the value is an array of ufloats
             try:
-                noUncert[k] = [x.nominal_value for x in v]
+                noUncert[k] = [getattr(x, 'nominal_value', x) for x in v]
             except TypeError:
                 # this is the case if the value is a float
                 noUncert[k] = v
-- 
2.43.0


From b71ce5d75c5b445a2cdb6cf581c2d145d3261372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:01 +0000
Subject: [PATCH 15/37] fix: periods are calculated when any of the needed ones
 is missing

---
 bicycleparameters/period.py | 26 +++++++-------------------
 1 file changed, 7 insertions(+), 19 deletions(-)

diff --git a/bicycleparameters/period.py b/bicycleparameters/period.py
index f37fddc..c76b0ee 100644
--- a/bicycleparameters/period.py
+++ b/bicycleparameters/period.py
@@ -151,27 +151,15 @@ def check_for_period(mp, forkIsSplit):
         fork and handlebar was measured together.
 
     '''
-    forcePeriodCalc = False
-    # Check to see if mp contains at enough periods to not need
-    # recalculation
-    ncTSum = 0
-    ntTSum = 0
-    for key in mp.keys():
-        # check for any periods in the keys
-        if key[:2] == 'Tc':
-            ncTSum += 1
-        elif key[:2] == 'Tt':
-            ntTSum += 1
+    # one compound pendulum period per part and one torsional pendulum period
+    # for the rod, the wheels and each orientation of the other parts
+    parts = 'BFRSG' if forkIsSplit else 'BFRH'
+    needed = ['Tc' + part + '1' for part in parts]
+    needed += ['TtP1', 'TtF1', 'TtR1']
+    needed += ['Tt' + key[5:] for key in mp.keys() if key.startswith('alpha')]
 
     # if there isn't enough data then force the period cals again
-    if forkIsSplit:
-        if ncTSum < 5 or ntTSum < 11:
-            forcePeriodCalc = True
-    else:
-        if ncTSum < 4 or ntTSum < 8:
-            forcePeriodCalc = True
-
-    return forcePeriodCalc
+    return any(key not in mp for key in needed)
 
 
 def fit_goodness(ym, yp):
-- 
2.43.0


From 7aaa80886bfce241d9b6a1c783ffe6fa1b092d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:00 +0000
Subject: [PATCH 16/37] fix: pendulum file names may have trial numbers of
 several digits

---
 bicycleparameters/io.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bicycleparameters/io.py b/bicycleparameters/io.py
index 2d2884e..643f920 100644
--- a/bicycleparameters/io.py
+++ b/bicycleparameters/io.py
@@ -12,9 +12,9 @@ def filename_to_dict(filename):
 
     '''
     o = space_out_camel_case(os.path.splitext(filename)[0], output='list')
-    # this only accounts for single digit trial numbers
-    trial = o[-1][-1]
-    o[-1] = o[-1][:-1]
+    # the last word ends with the trial number
+    trial = re.search(r'\d*$', o[-1]).group()
+    o[-1] = o[-1][:len(o[-1]) - len(trial)]
     o.append(trial)
     breakdown = ['bicycle', 'part', 'pendulum', 'angleOrder', 'trial']
     dat = {}
-- 
2.43.0


From 6218715b198f368f720d0ce84e63bef3ecb191c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:45 +0000
Subject: [PATCH 17/37] fix: parameter sets written to YAML keep whether the
 rider is included

---
 bicycleparameters/parameter_sets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bicycleparameters/parameter_sets.py b/bicycleparameters/parameter_sets.py
index 912ef6b..c002912 100644
--- a/bicycleparameters/parameter_sets.py
+++ b/bicycleparameters/parameter_sets.py
@@ -185,7 +185,7 @@ class ParameterSet(ABC):
             'description': '',
             'parameterization': self.parameterization,
             'parameters': '',
-            'rider': None,
+            'rider': getattr(self, 'includes_rider', None),
             'values': self.parameters,
         }
         with open(fname, 'w') as f:
-- 
2.43.0


From e159bbeddf8a73144341bb5c328fd98c4a797a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:55 +0000
Subject: [PATCH 18/37] fix: parameter sets with NumPy floats are written as
 plain YAML numbers

---
 bicycleparameters/parameter_sets.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bicycleparameters/parameter_sets.py b/bicycleparameters/parameter_sets.py
index c002912..d7824cf 100644
--- a/bicycleparameters/parameter_sets.py
+++ b/bicycleparameters/parameter_sets.py
@@ -186,7 +186,8 @@ class ParameterSet(ABC):
             'parameterization': self.parameterization,
             'parameters': '',
             'rider': getattr(self, 'includes_rider', None),
-            'values': self.parameters,
+            # NumPy scalars would be written as Python objects
+            'values': {k: float(v) for k, v in self.parameters.items()},
         }
         with open(fname, 'w') as f:
             yaml.dump(data, f)
-- 
2.43.0


From 2cb3579061b0370efee1976ec56f8ab9b12f91bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:11 +0000
Subject: [PATCH 19/37] fix: each saved parameter set gets its own file name

---
 bicycleparameters/main.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bicycleparameters/main.py b/bicycleparameters/main.py
index a4daf93..ad7c0d7 100644
--- a/bicycleparameters/main.py
+++ b/bicycleparameters/main.py
@@ -203,11 +203,11 @@ class Bicycle(object):
 
         if filetype == 'text':
             for pset in psets:
-                fileName = fileName + pset + '.txt'
-                pathToTxtFile = os.path.join(pathToParDir, fileName)
+                psetFileName = fileName + pset + '.txt'
+                pathToTxtFile = os.path.join(pathToParDir, psetFileName)
                 io.write_parameter_text_file(pathToTxtFile, parameters[pset])
                 if self.hasRider:
-                    pathToCombFile = os.path.join(pathToCombDir, fileName)
+                    pathToCombFile = os.path.join(pathToCombDir, psetFileName)
                     io.write_parameter_text_file(pathToCombFile,
                                                  self.parameters[pset])
 
-- 
2.43.0


From 6236103efc904a5d2ad2b07b8390d521b75be6dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:11 +0000
Subject: [PATCH 20/37] fix: eigenvalues can be computed at an integer speed

---
 bicycleparameters/main.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/bicycleparameters/main.py b/bicycleparameters/main.py
index ad7c0d7..81d6f15 100644
--- a/bicycleparameters/main.py
+++ b/bicycleparameters/main.py
@@ -1181,10 +1181,7 @@ class Bicycle(object):
         model.
 
         '''
-        if isinstance(speeds, float):
-            speeds = np.array([speeds])
-        else:
-            speeds = np.asarray(speeds)
+        speeds = np.atleast_1d(speeds)
 
         par = io.remove_uncertainties(self.parameters['Benchmark'])
 
-- 
2.43.0


From 4c1c39e84388b2b736451f2b75d2782be211ecc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:59 +0000
Subject: [PATCH 21/37] fix: two link angles are right when the far angle is
 obtuse

---
 bicycleparameters/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bicycleparameters/geometry.py b/bicycleparameters/geometry.py
index 2846326..30f7799 100644
--- a/bicycleparameters/geometry.py
+++ b/bicycleparameters/geometry.py
@@ -154,7 +154,7 @@ def calc_two_link_angles(L1, L2, D):
     '''
 
     theta1 = np.arccos((L1**2 + D**2 - L2**2) / (2.0 * L1 * D))
-    theta2 = theta1 + np.arcsin(L1 / L2 * np.sin(theta1))
+    theta2 = theta1 + np.arccos((L2**2 + D**2 - L1**2) / (2.0 * L2 * D))
 
     return theta1, theta2
 
-- 
2.43.0


From 1ed62429d75f0c4277c693d7bea149df1c9506ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:59 +0000
Subject: [PATCH 22/37] fix: vectors are projected into the plane of any
 direction

---
 bicycleparameters/geometry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bicycleparameters/geometry.py b/bicycleparameters/geometry.py
index 30f7799..0587fd9 100644
--- a/bicycleparameters/geometry.py
+++ b/bicycleparameters/geometry.py
@@ -343,7 +343,7 @@ def vec_project(vec, direction):
     if type(direction) == int:
         unitdir = np.zeros(3)
         unitdir[direction] = 1
-    elif type(direction) == np.array:
+    elif isinstance(direction, np.ndarray):
         unitdir = direction / np.linalg.norm(direction)
-    proj = vec - np.dot(vec, unitdir)
+    proj = vec - np.dot(vec, unitdir) * unitdir
     return proj.reshape((3, 1))
-- 
2.43.0


From d07256613066cee692aa5c6e2772c5beb3f59d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:06 +0000
Subject: [PATCH 23/37] fix: the angle between column vectors works with
 current NumPy

---
 bicycleparameters/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bicycleparameters/geometry.py b/bicycleparameters/geometry.py
index 0587fd9..39496cb 100644
--- a/bicycleparameters/geometry.py
+++ b/bicycleparameters/geometry.py
@@ -315,7 +315,7 @@ def vec_angle(v1, v2):
     angle : float
         (radians) interior angle between v1 and v2.
     '''
-    return np.arccos(float(np.dot(v1.T, v2)) / (np.linalg.norm(v1) *
+    return np.arccos(np.dot(v1.T, v2).item() / (np.linalg.norm(v1) *
                                                 np.linalg.norm(v2)))
 
 
-- 
2.43.0


From f47c4a9b97e97095ecdb4d63265a71d1901eba14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:06 +0000
Subject: [PATCH 24/37] fix: inertia ellipses of a bicycle are drawn with their
 own tilt and size

---
 bicycleparameters/main.py | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/bicycleparameters/main.py b/bicycleparameters/main.py
index 81d6f15..2ba4253 100644
--- a/bicycleparameters/main.py
+++ b/bicycleparameters/main.py
@@ -558,10 +558,7 @@ class Bicycle(object):
                 else:
                     center = np.array([par['x' + part], -par['z' + part]])
                 # which row in C is the y vector
-                uy = np.array([0., 1., 0.])
-                for i, row in enumerate(C):
-                    if np.abs(np.sum(row - uy)) < 1E-10:
-                        yrow = i
+                yrow = np.argmax(np.abs(C[:, 1]))
                 # remove the row for the y vector
                 Ip2D = np.delete(Ip, yrow, 0)
                 # remove the column and row associated with the y
@@ -577,7 +574,7 @@ class Bicycle(object):
                 # principal moment of inertia
                 width = Imax * unitWidth
                 height = Imax * unitHeight
-                angle = -np.degrees(np.arccos(C2D[0, 0]))
+                angle = -np.degrees(np.arctan2(C2D[0, 1], C2D[0, 0]))
                 ellipse = Ellipse((center[0], center[1]), width, height,
                                   angle=angle, fill=False,
                                   color=partColors[part], alpha=0.25)
@@ -787,12 +784,9 @@ class Bicycle(object):
                     center = np.array([par['w'], par['rF']])
                 else:
                     center = np.array([par['x' + part], -par['z' + part]])
-                    # which row in C is the y vector
-                uy = np.array([0., 1., 0.])
-                for i, row in enumerate(C):
-                    if np.abs(np.sum(row - uy)) < 1E-10:
-                        yrow = i
-                    # remove the row for the y vector
+                # which row in C is the y vector
+                yrow = np.argmax(np.abs(C[:, 1]))
+                # remove the row for the y vector
                 Ip2D = np.delete(Ip, yrow, 0)
                 # remove the column and row associated with the y
                 C2D = np.delete(np.delete(C, yrow, 0), 1, 1)
@@ -807,14 +801,14 @@ class Bicycle(object):
                 # the maximum principal moment of inertia
                 width = Imax * unitWidth
                 height = Imax * unitHeight
-                angle = -np.degrees(np.arccos(C2D[0, 0]))
+                angle = -np.arctan2(C2D[0, 1], C2D[0, 0])
                 x_center = center[0]
                 y_center = center[1]
                 x_ep, y_ep = plot._generate_ellipse_plot_data(
                     x_center=x_center, y_center=y_center,
                     ax1=[np.cos(angle), np.sin(angle)],
                     ax2=[-np.sin(angle), np.cos(angle)],
-                    a=height, b=width, N=100)
+                    a=width / 2., b=height / 2., N=100)
 
                 fig1.add_scatter(x=x_ep, y=y_ep, mode='lines',
                                  name='Inertia of ' + part,
-- 
2.43.0


From 655949f1877b43d9020f81889f2e7f82261c0ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:38 +0000
Subject: [PATCH 25/37] fix: the plotly eigenvalue figure can be added to, show
 the largest, and have no stable region

---
 bicycleparameters/main.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/bicycleparameters/main.py b/bicycleparameters/main.py
index 2ba4253..492e694 100644
--- a/bicycleparameters/main.py
+++ b/bicycleparameters/main.py
@@ -1339,11 +1339,15 @@ class Bicycle(object):
         speeds = np.sort(speeds)
         if fig is None:
             fig = go.Figure(layout_yaxis_range=[-10, 10])
-            evals, evecs = self.eig(speeds)
+
+        evals, evecs = self.eig(speeds)
 
         if largest:
-            fig.add_trace(go.Scatter(x=speeds, y=np.max(evals)))
-            fig.show()
+            maxEval = np.max(np.real(evals), axis=1)
+            fig.add_trace(go.Scatter(x=speeds, y=maxEval))
+            if show:
+                fig.show()
+            return fig
         else:
             w, cap, cas = bicycle.sort_modes(evals, evecs)
             colors_eig = px.colors.qualitative.Pastel
@@ -1404,10 +1408,9 @@ class Bicycle(object):
                                   max(speeds[np.real(cas['evals']) < 0]),
                                   max(speeds[np.real(cap['evals']) < 0]),
                                   max(speeds[np.real(wea1) < 0])])
-            except:  # TODO : Add explicit exception
-                fig.add_annotation(x=0.5*max(speeds), y=9,
-                                   text="No stability region",
-                                   showarrow=False)
+            except (ValueError, TypeError):
+                # at least one mode isn't stable at any speed
+                v_start_stab = v_end_stab = 0.0
             if (v_start_stab > v_end_stab):
                 fig.add_annotation(x=0.5*max(speeds), y=9,
                                    text="No stability region",
-- 
2.43.0


From 8a34334d010def820b4180ad7afd6ea4bc116040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:13 +0000
Subject: [PATCH 26/37] fix: Bode plots of several speeds or bicycles can be
 compared again

---
 bicycleparameters/main.py | 4 ++--
 bicycleparameters/plot.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/bicycleparameters/main.py b/bicycleparameters/main.py
index 492e694..97b3d90 100644
--- a/bicycleparameters/main.py
+++ b/bicycleparameters/main.py
@@ -1512,13 +1512,13 @@ class Bicycle(object):
         """
 
         if fig is None:
-            fig = plt.figure()
+            fig, _ = plt.subplots(2, 1, sharex=True, layout="constrained")
 
         for speed in speeds:
             self.plot_bode(speed, u, y, label=str(speed) + ' m/s', fig=fig)
 
         # take care of phase misalignment
-        phaseLines = fig.ax2.lines
+        phaseLines = fig.axes[1].lines
         for line in phaseLines:
             firstValue = line.get_ydata()[0]
             n = np.ceil(np.floor(abs(firstValue / 180.)) / 2.)
diff --git a/bicycleparameters/plot.py b/bicycleparameters/plot.py
index 2fa25cf..001d946 100644
--- a/bicycleparameters/plot.py
+++ b/bicycleparameters/plot.py
@@ -33,13 +33,13 @@ def compare_bode_bicycles(bikes, speed, u, y, fig=None):
     """
 
     if fig is None:
-        fig = plt.figure()
+        fig, _ = plt.subplots(2, 1, sharex=True, layout="constrained")
 
     for bike in bikes:
         bike.plot_bode(speed, u, y, label=bike.bicycleName, fig=fig)
 
     # take care of phase misalignment
-    phaseLines = fig.ax2.lines
+    phaseLines = fig.axes[1].lines
     for line in phaseLines:
         firstValue = line.get_ydata()[0]
         n = np.ceil(np.floor(abs(firstValue / 180.)) / 2.)
-- 
2.43.0


From 1cec1665f1f1cf1531ee39486c9606beb5436fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:45 +0000
Subject: [PATCH 27/37] fix: table values with large, zero or tiny
 uncertainties are rounded

---
 bicycleparameters/tables.py | 30 +++++++++---------------------
 1 file changed, 9 insertions(+), 21 deletions(-)

diff --git a/bicycleparameters/tables.py b/bicycleparameters/tables.py
index aa0c4d6..767f3a4 100644
--- a/bicycleparameters/tables.py
+++ b/bicycleparameters/tables.py
@@ -222,7 +222,7 @@ def uround(value):
 
     2.4564+/-0.0004
 
-    This probably doesn't work for weird cases like large uncertainties.
+    Uncertainties of one and larger are rounded to the nearest integer.
 
     '''
     try:
@@ -232,25 +232,13 @@ def uround(value):
         s = str(value)
     else:
         uncert = value.std_dev
-        if abs(nom) < 1e-15:
-            s = '0.0+/-0.0'
+        if uncert == 0.0:
+            s = '{}+/-0.0'.format(nom)
         else:
-            # convert the uncertainty to a string
-            s = '%.14f' % uncert
-            # find the first non-zero character
-            for j, number in enumerate(s):
-                if number == '0' or number == '.':
-                    pass
-                else:
-                    digit = j
-                    break
-            newUncert = round(uncert, digit - 1)
-            newUncertStr = ('%.' + str(digit - 1) + 'f') % newUncert
-            newNom = round(nom, len(newUncertStr) - 2)
-            newNomStr = ('%.' + str(digit - 1) + 'f') % newNom
-            diff = len(newUncertStr) - len(newNomStr)
-            if diff > 0:
-                s = newNomStr + int(diff) * '0' + '+/-' + newUncertStr
-            else:
-                s = newNomStr + '+/-' + newUncertStr
+            # number of decimals that shows the first non-zero digit of the
+            # uncertainty
+            decimals = 0
+            while uncert * 10**decimals < 1.0:
+                decimals += 1
+            s = '{:.{d}f}+/-{:.{d}f}'.format(nom, uncert, d=decimals)
     return s
-- 
2.43.0


From cf33e18f5f6dbc414e09669e2c405b2c7a8caf9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:45 +0000
Subject: [PATCH 28/37] fix: a table can be created more than once

---
 bicycleparameters/tables.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/bicycleparameters/tables.py b/bicycleparameters/tables.py
index 767f3a4..6f7dc7b 100644
--- a/bicycleparameters/tables.py
+++ b/bicycleparameters/tables.py
@@ -81,12 +81,13 @@ class Table():
 
         """
 
-        table = self.tableData
+        # the table data itself is left as is
+        table = [list(row) for row in self.tableData]
 
         # add the math directive if using latex
         if self.latex:
-            for i, row in enumerate(table):
-                self.tableData[i][0] = ':math:`' + row[0] + '`'
+            for row in table:
+                row[0] = ':math:`' + row[0] + '`'
 
         # add a sub header
         table.insert(0, ['Variable'])
-- 
2.43.0


From 6e91542699d8ff4448b18194520395d24bd195fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:14 +0000
Subject: [PATCH 29/37] fix: the app shows the steer axis tilt in full instead
 of whole degrees

---
 bicycleparameters/app.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bicycleparameters/app.py b/bicycleparameters/app.py
index ed1611e..f605498 100644
--- a/bicycleparameters/app.py
+++ b/bicycleparameters/app.py
@@ -314,7 +314,7 @@ def populate_wheel_data(value, n_clicks):
     lamD = data[2]
     radians = lamD.get('data')
     degrees = np.rad2deg(radians)
-    data[2] = {'data': int(degrees)}
+    data[2] = {'data': float(degrees)}
 
     for c, d in zip(genLabels, data):
         zipped = {}
-- 
2.43.0


From 26192bccf255785f367661720ef875555f05e399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:23 +0000
Subject: [PATCH 30/37] fix: the app can show a single speed

---
 bicycleparameters/app.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bicycleparameters/app.py b/bicycleparameters/app.py
index f605498..2677cf7 100644
--- a/bicycleparameters/app.py
+++ b/bicycleparameters/app.py
@@ -355,7 +355,7 @@ def plot_update(value, wheel, frame, general, options, slider):
     minBound = rangeSliderData[0]
     maxBound = rangeSliderData[1]
     steps = (maxBound-minBound)/0.1
-    speeds = np.linspace(minBound, maxBound, num=int(steps))
+    speeds = np.linspace(minBound, maxBound, num=max(int(steps), 2))
 
     # create Bike using default data based on dropdown menu value
     Bike = bp.Bicycle(value, pathToData=PATH_TO_APP_DATA)
-- 
2.43.0


From 322ff34ad09ae161d3f2e0c8b57d097d83ae09b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:37 +0000
Subject: [PATCH 31/37] fix: write_parameter_text_file accepts a file name
 without a folder

---
 bicycleparameters/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bicycleparameters/io.py b/bicycleparameters/io.py
index 643f920..2a3ed1e 100644
--- a/bicycleparameters/io.py
+++ b/bicycleparameters/io.py
@@ -136,7 +136,7 @@ def write_parameter_text_file(pathToTxtFile, parDict):
 
     # make the Parameters directory if it doesn't exist
     head, tail = os.path.split(pathToTxtFile)
-    if not os.path.isdir(head):
+    if head and not os.path.isdir(head):
         print("Created direcotry %s" % head)
         os.makedirs(head)
 
-- 
2.43.0


From 0d501fc26f0f375e921c0be2affad7bfeafa0a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:37 +0000
Subject: [PATCH 32/37] fix: inertia tensors of parts whose numbers only partly
 have uncertainties

---
 bicycleparameters/inertia.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bicycleparameters/inertia.py b/bicycleparameters/inertia.py
index df5c881..e8ffa4d 100644
--- a/bicycleparameters/inertia.py
+++ b/bicycleparameters/inertia.py
@@ -174,7 +174,7 @@ def part_inertia_tensor(par, part):
     documentation.
 
     '''
-    if isinstance(par['IBxx'], UFloat):
+    if any(isinstance(v, UFloat) for v in par.values()):
         dtype = object
     else:
         dtype = 'float64'
-- 
2.43.0


From 5a4e2eb614dde3f0cf9586f8038f0033c8f06072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:23 +0000
Subject: [PATCH 33/37] fix: pendulum orientations are taken in the order of
 their numbers

---
 bicycleparameters/com.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bicycleparameters/com.py b/bicycleparameters/com.py
index 6eba9f4..da6a285 100644
--- a/bicycleparameters/com.py
+++ b/bicycleparameters/com.py
@@ -195,9 +195,10 @@ def part_com_lines(mp, par, forkIsSplit):
         intercepts = {'B': [], 'H': []}
         betas = {'B': [], 'H': []}
 
-    # get the alpha keys and put them in order
+    # get the alpha keys and put them in order of the orientation number, i.e.
+    # alphaB2 comes before alphaB10
     listOfAlphaKeys = [x for x in mp.keys() if x.startswith('alpha')]
-    listOfAlphaKeys.sort()
+    listOfAlphaKeys.sort(key=lambda x: (len(x), x))
 
     # caluclate m, b and beta for each orientation
     for key in listOfAlphaKeys:
-- 
2.43.0


From 6d913e390577ba2e60fab56804f1b3ff74bfb18f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:23 +0000
Subject: [PATCH 34/37] fix: LaTeX names keep the part of orientations of
 several digits

---
 bicycleparameters/tables.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bicycleparameters/tables.py b/bicycleparameters/tables.py
index 6f7dc7b..44c64d0 100644
--- a/bicycleparameters/tables.py
+++ b/bicycleparameters/tables.py
@@ -188,11 +188,11 @@ def to_latex(var):
         latex = latexMap[var]
     except KeyError:
         if var.startswith('alpha'):
-            latex = r'\alpha_{' + var[-2:] + '}'
-        elif var.startswith('a') and len(var) == 3:
-            latex = 'a_{' + var[-2:] + '}'
+            latex = r'\alpha_{' + var[5:] + '}'
+        elif var.startswith('a') and len(var) >= 3:
+            latex = 'a_{' + var[1:] + '}'
         elif var.startswith('T'):
-            latex = 'T^' + var[1] + '_{' + var[-2:] + '}'
+            latex = 'T^' + var[1] + '_{' + var[2:] + '}'
         elif len(var) == 2:
             latex = var[0] + '_' + var[1]
         elif var.startswith('I'):
-- 
2.43.0


From f0a4ac5b35ad535f0514d540848b6123dbf31178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:31 +0000
Subject: [PATCH 35/37] fix: combined inertia with a rider beside the plane of
 symmetry

The bicycle's distance to the joint center of mass has a lateral part when the
rider's center of mass has one.
---
 bicycleparameters/inertia.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bicycleparameters/inertia.py b/bicycleparameters/inertia.py
index e8ffa4d..356b24d 100644
--- a/bicycleparameters/inertia.py
+++ b/bicycleparameters/inertia.py
@@ -48,7 +48,7 @@ def combine_bike_rider(bicyclePar, riderPar):
                        yRider - cT[1],
                        riderPar['zB'] - cT[2]])
     dBicycle = np.array([bicyclePar['xB'] - cT[0],
-                         0.,
+                         0. - cT[1],
                          bicyclePar['zB'] - cT[2]])
     # calculate the total inertia about the total body center of mass
     I = (parallel_axis(IRider, riderPar['mB'], dRider) +
-- 
2.43.0


From ef760456b2a9dec782526db182d0b3957abba945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:20 +0000
Subject: [PATCH 36/37] fix: symbols of parameters shown with another
 parameter's symbol

---
 bicycleparameters/parameter_sets.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bicycleparameters/parameter_sets.py b/bicycleparameters/parameter_sets.py
index d7824cf..e169909 100644
--- a/bicycleparameters/parameter_sets.py
+++ b/bicycleparameters/parameter_sets.py
@@ -1060,7 +1060,7 @@ class Moore2019ParameterSet(ParameterSet):
         'mD': r'm_D',
         'mF': r'm_F',
         'mH': r'm_H',
-        'mP': r'm_B',
+        'mP': r'm_P',
         'mR': r'm_R',
         'rF': r'r_F',
         'rR': r'r_R',
@@ -1071,7 +1071,7 @@ class Moore2019ParameterSet(ParameterSet):
         'xH': r'x_H',
         'xP': r'x_P',
         'zD': r'z_D',
-        'zH': r'z-H',
+        'zH': r'z_H',
         'zP': r'z_P',
     }
 
@@ -1686,7 +1686,7 @@ class Moore2012ParameterSet(ParameterSet):
         'ic33': r'I_{C33}',
         'id11': r'I_{D11}',
         'id22': r'I_{D22}',
-        'ie11': r'I_{D11}',
+        'ie11': r'I_{E11}',
         'ie22': r'I_{E22}',
         'ie31': r'I_{E31}',
         'ie33': r'I_{E33}',
@@ -1790,7 +1790,7 @@ class MooreRiderLean2012ParameterSet(ParameterSet):
         'ic33': r'I_{C33}',
         'id11': r'I_{D11}',
         'id22': r'I_{D22}',
-        'ie11': r'I_{D11}',
+        'ie11': r'I_{E11}',
         'ie22': r'I_{E22}',
         'ie31': r'I_{E31}',
         'ie33': r'I_{E33}',
-- 
2.43.0


From 07665f2fbc02a837c9d51319127ffdd79f2d3acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:20 +0000
Subject: [PATCH 37/37] fix: Moore2012 parameter sets could not be loaded from
 YAML files

---
 bicycleparameters/parameter_sets.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/bicycleparameters/parameter_sets.py b/bicycleparameters/parameter_sets.py
index e169909..825cc85 100644
--- a/bicycleparameters/parameter_sets.py
+++ b/bicycleparameters/parameter_sets.py
@@ -1713,6 +1713,14 @@ class Moore2012ParameterSet(ParameterSet):
         self.includes_rider = includes_rider
         self._generate_body_colors()
 
+    @classmethod
+    def _from_yaml(cls, path_to_file):
+
+        with open(os.path.join(path_to_file), 'r') as f:
+            yaml_data = yaml.load(f, Loader=yaml.FullLoader)
+
+        return cls(yaml_data['values'], yaml_data['rider'])
+
 
 class MooreRiderLean2012ParameterSet(ParameterSet):
     """Represents the parameters of the Carvallo-Whipple model with a leaning
-- 
2.43.0


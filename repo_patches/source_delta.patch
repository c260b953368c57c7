From 7da685add877c3bdc7a61f7d6f2be6639916486f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:46 +0000
Subject: [PATCH 01/24] fix: harmonic_balance no longer modifies the circuit's
 Thevenin voltages

---
 qmix/harmonic_balance.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/qmix/harmonic_balance.py b/qmix/harmonic_balance.py
index bb4937f..712ebf6 100644
--- a/qmix/harmonic_balance.py
+++ b/qmix/harmonic_balance.py
@@ -79,7 +79,7 @@ def harmonic_balance(cct, resp, num_b=15, max_it=10, stop_rerror=0.001, vj_initi
     num_n = cct.num_n
     npts = cct.vb_npts
 
-    vt = cct.vt
+    vt = cct.vt.copy()  # don't modify the circuit
     zt = cct.zt
 
     # Harmonic balance isn't required if all zt are equal to zero
@@ -260,9 +260,13 @@ def check_hb_error(vj_check, cct, resp, num_b=15, stop_rerror=0.001):
     # Tunnelling current for all tones/harmonics (see below)
     ij_all = _qtcurrent_all_freq(vj_check, cct, resp, num_b)
 
+    # Same minimum Thevenin voltage as in the harmonic balance function
+    vt = cct.vt.copy()
+    vt[np.abs(vt) < MIN_VT] = MIN_VT
+
     for f in range(1, cct.num_f + 1):
         for p in range(1, cct.num_p + 1):
-            error_fp = cct.vt[f, p] - \
+            error_fp = vt[f, p] - \
                        cct.zt[f, p] * ij_all[f, p, :] - \
                        vj_check[f, p, :]
             max_rel_error = np.max(np.abs(error_fp) /
-- 
2.43.0


From aa07a2ba358d016d73c9ba01dff56c9519732638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:46 +0000
Subject: [PATCH 02/24] fix: harmonic_balance no longer updates the caller's
 vj_initial in place

---
 qmix/harmonic_balance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmix/harmonic_balance.py b/qmix/harmonic_balance.py
index 712ebf6..11869ef 100644
--- a/qmix/harmonic_balance.py
+++ b/qmix/harmonic_balance.py
@@ -112,7 +112,7 @@ def harmonic_balance(cct, resp, num_b=15, max_it=10, stop_rerror=0.001, vj_initi
     # voltage) will be transformed into a matrix with shape 6 x npts.
 
     # Change format of data from [f, p] to [p] (reduce by one dimension)
-    vj_2d = vj_initial[1:, 1:, :].reshape((num_n, npts))
+    vj_2d = vj_initial[1:, 1:, :].reshape((num_n, npts)).copy()
     vt_2d = vt[1:, 1:].reshape(num_n)
     zt_2d = zt[1:, 1:].reshape(num_n)
 
-- 
2.43.0


From 5fea610323231ff9ffae91d74740e0d9852b9d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:46 +0000
Subject: [PATCH 03/24] fix: harmonic_balance reports convergence from the
 error, not from the iteration count

---
 qmix/harmonic_balance.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/qmix/harmonic_balance.py b/qmix/harmonic_balance.py
index 11869ef..335166f 100644
--- a/qmix/harmonic_balance.py
+++ b/qmix/harmonic_balance.py
@@ -159,7 +159,7 @@ def harmonic_balance(cct, resp, num_b=15, max_it=10, stop_rerror=0.001, vj_initi
                 # Check relative error at k
                 abs_error = np.abs(err_all[k, :])
                 rel_error = abs_error / np.abs(vj_2d[k, :])
-                max_rel_error = max(np.max(rel_error), max_rel_error)
+                max_rel_error = np.maximum(np.max(rel_error), max_rel_error)
                 med_rel_error = np.median(abs_error / np.abs(vj_2d[k, :]))
                 good_points = rel_error < stop_rerror
                 finished_points = finished_points & good_points
@@ -188,7 +188,7 @@ def harmonic_balance(cct, resp, num_b=15, max_it=10, stop_rerror=0.001, vj_initi
             break
 
         # Exit if this is the last iteration
-        if max_rel_error > stop_rerror and iteration == max_it:
+        if iteration == max_it:
             print("*** DID NOT ACHIEVE TARGET ERROR VALUE ***\n")
             break
 
@@ -222,8 +222,8 @@ def harmonic_balance(cct, resp, num_b=15, max_it=10, stop_rerror=0.001, vj_initi
     if mode == "o":  # return vj
         return vj_out
     elif mode == "x":  # return vj, number of iterations, and if converged
-        did_not_hit_max_it = iteration != max_it
-        return vj_out, iteration, did_not_hit_max_it
+        converged = bool(max_rel_error <= stop_rerror)
+        return vj_out, iteration, converged
     elif mode == "m":  # return vj and mask
         return vj_out, finished_points
 
-- 
2.43.0


From 8ad9adf413b1676f46f7b92df69dbc024f2e5d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:46 +0000
Subject: [PATCH 04/24] fix: harmonic_balance honours the output mode on every
 path and rejects unknown modes

---
 qmix/harmonic_balance.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/qmix/harmonic_balance.py b/qmix/harmonic_balance.py
index 335166f..72b58a6 100644
--- a/qmix/harmonic_balance.py
+++ b/qmix/harmonic_balance.py
@@ -57,8 +57,9 @@ def harmonic_balance(cct, resp, num_b=15, max_it=10, stop_rerror=0.001, vj_initi
             (vj), default is None
         damp_coeff (float, optional): Dampening coefficient for correction
             factor (0-1), default is 1
-        mode (string, optional): output vj ('o'), print ('p'), output extra
-            data ('x'), default is "o"
+        mode (string, optional): output vj ('o'), output vj and extra data
+            ('x'), output vj and a mask of the finished points ('m'), default
+            is "o"
         verbose (bool, optional): print info to terminal if true, default is
             True
 
@@ -67,6 +68,9 @@ def harmonic_balance(cct, resp, num_b=15, max_it=10, stop_rerror=0.001, vj_initi
 
     """
 
+    if mode not in ("o", "x", "m"):
+        raise ValueError("Output mode not recognized.")
+
     if verbose:
         print("Running harmonic balance:")
 
@@ -86,7 +90,12 @@ def harmonic_balance(cct, resp, num_b=15, max_it=10, stop_rerror=0.001, vj_initi
     if (zt == 0).all():
         if verbose:
             print("Done.\n")
-        return vt[:, :, None] * np.ones(npts, dtype=complex)
+        vj_out = vt[:, :, None] * np.ones(npts, dtype=complex)
+        if mode == "x":
+            return vj_out, 0, True
+        if mode == "m":
+            return vj_out, np.ones(npts, dtype=bool)
+        return vj_out
 
     # Check whether any Thevenin voltages are zero (prevents div0 errors) ----
 
-- 
2.43.0


From 741918aa5ba6f3bb91774d2db814a3cabdef7702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:38 +0000
Subject: [PATCH 05/24] fix: EmbeddingCircuit sets igap when the junction is
 given by fgap and rn

---
 qmix/circuit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qmix/circuit.py b/qmix/circuit.py
index fb83274..ab076f6 100644
--- a/qmix/circuit.py
+++ b/qmix/circuit.py
@@ -231,8 +231,8 @@ class EmbeddingCircuit(object):
         # Normal-state resistance
         if rn is not None:
             self.rn = float(rn)
-        if vgap is not None and rn is not None:
-            self.igap = vgap / rn
+        if self.vgap is not None and self.rn is not None:
+            self.igap = self.vgap / self.rn
 
         # Initialize embedding circuit
         self.freq = np.zeros((num_f + 1), dtype=float)
-- 
2.43.0


From 2535d936512d8b4c521928b30d347c82b5a550f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:38 +0000
Subject: [PATCH 06/24] fix: EmbeddingCircuit.vph returns the normalized photon
 voltage instead of raising

---
 qmix/circuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmix/circuit.py b/qmix/circuit.py
index ab076f6..00fc90d 100644
--- a/qmix/circuit.py
+++ b/qmix/circuit.py
@@ -575,7 +575,7 @@ class EmbeddingCircuit(object):
 
         """
 
-        return self.cct
+        return self.freq
 
 
 def read_circuit(filename):
-- 
2.43.0


From 3aa0880aa00ddffa9f59c6654dc1aee4327650d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:38 +0000
Subject: [PATCH 07/24] fix: set_freq accepts normalized units on a circuit
 without gap frequency

---
 qmix/circuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmix/circuit.py b/qmix/circuit.py
index 00fc90d..7d1f86b 100644
--- a/qmix/circuit.py
+++ b/qmix/circuit.py
@@ -439,7 +439,7 @@ class EmbeddingCircuit(object):
 
         """
 
-        if units.lower != 'norm':
+        if units.lower() != 'norm':
             assert self.fgap is not None, 'Gap frequency must be defined!'
 
         if units.lower() == 'hz':
-- 
2.43.0


From d1d440470653a9d52340cbed59398bb629a6fcac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:38 +0000
Subject: [PATCH 08/24] fix: perfect and perfect_kk return a value for every
 scalar type

---
 qmix/mathfn/ivcurve_models.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/qmix/mathfn/ivcurve_models.py b/qmix/mathfn/ivcurve_models.py
index a9ed2b1..9e85bc2 100644
--- a/qmix/mathfn/ivcurve_models.py
+++ b/qmix/mathfn/ivcurve_models.py
@@ -35,7 +35,7 @@ def perfect(voltage):
         current[voltage == -1.] = -0.5
         current[np.abs(voltage) < 1] = 0
         return current
-    elif isinstance(voltage, float) or isinstance(voltage, int):
+    else:
         if np.abs(voltage) < 1:
             return 0
         if np.abs(voltage) > 1:
@@ -44,6 +44,7 @@ def perfect(voltage):
             return 0.5
         if voltage == -1.:
             return -0.5
+        return voltage
 
 
 def perfect_kk(voltage, max_kk=100.):
@@ -74,7 +75,7 @@ def perfect_kk(voltage, max_kk=100.):
 
         return kk
 
-    elif isinstance(voltage, float) or isinstance(voltage, int):
+    else:
 
         if abs(voltage) == 1.:
             return max_kk
-- 
2.43.0


From 471911695adc6559cb0a070d3434b94b5a24ab1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:38 +0000
Subject: [PATCH 09/24] fix: perfect keeps the half step at the gap for integer
 arrays

---
 qmix/mathfn/ivcurve_models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmix/mathfn/ivcurve_models.py b/qmix/mathfn/ivcurve_models.py
index 9e85bc2..5cbeb08 100644
--- a/qmix/mathfn/ivcurve_models.py
+++ b/qmix/mathfn/ivcurve_models.py
@@ -30,7 +30,7 @@ def perfect(voltage):
     """
 
     if isinstance(voltage, np.ndarray):
-        current = np.copy(voltage)
+        current = np.array(voltage, dtype=float)
         current[voltage == 1.] = 0.5
         current[voltage == -1.] = -0.5
         current[np.abs(voltage) < 1] = 0
-- 
2.43.0


From 1a960e1292c34b51d90f004a21fe956a34bd4819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:15 +0000
Subject: [PATCH 10/24] fix: I-V models no longer change NumPy's global error
 settings

---
 qmix/mathfn/ivcurve_models.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/qmix/mathfn/ivcurve_models.py b/qmix/mathfn/ivcurve_models.py
index 5cbeb08..5834397 100644
--- a/qmix/mathfn/ivcurve_models.py
+++ b/qmix/mathfn/ivcurve_models.py
@@ -102,6 +102,7 @@ def polynomial(voltage, order=50):
     return current
 
 
+@np.errstate(over='ignore')
 def exponential(voltage, vgap=2.8e-3, rn=14., rsg=300., agap=4e4, model='fixed'):
     """The exponential I-V curve model that is used in some papers from
     Chalmers.
@@ -139,7 +140,6 @@ def exponential(voltage, vgap=2.8e-3, rn=14., rsg=300., agap=4e4, model='fixed')
     v_v = voltage * vgap  # voltage in units [V]
 
     if model.lower() == 'fixed' or model.lower() == 'corrected':
-        np.seterr(over='ignore')
         i_a = (
                # Sub-gap resistance
                v_v / (rsg * 2) * (1 / (1 + np.exp(-agap * (v_v + vgap)))) -
@@ -151,7 +151,6 @@ def exponential(voltage, vgap=2.8e-3, rn=14., rsg=300., agap=4e4, model='fixed')
                v_v / rn * (1 / (1 + np.exp(-agap * (v_v - vgap)))))
         return i_a / igap
     elif model.lower() == 'original':
-        np.seterr(over='ignore')
         i_a = (
                # Sub-gap resistance
                v_v / rsg * (1 / (1 + np.exp(-agap * (v_v + vgap)))) +
@@ -164,6 +163,7 @@ def exponential(voltage, vgap=2.8e-3, rn=14., rsg=300., agap=4e4, model='fixed')
         raise ValueError("Model not recognized.")
 
 
+@np.errstate(over='ignore')
 def expanded(voltage, vgap=2.8e-3, rn=14., rsg=5e2, agap=4e4, a0=1e4,
              ileak=5e-6, vnot=2.85e-3, inot=1e-5, anot=2e4, ioff=1e-5):
     """My "expanded" I-V curve model.
@@ -200,7 +200,6 @@ def expanded(voltage, vgap=2.8e-3, rn=14., rsg=5e2, agap=4e4, a0=1e4,
     v_v = voltage * vgap
     igap = vgap / rn
 
-    np.seterr(over='ignore')
     i_a = (
         # Leakage current
         ileak * 2 * (1 / (1 + np.exp(-a0 * v_v))) -
-- 
2.43.0


From cdace21d842908c3e82bcc0b6f993186055c2945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:40 +0000
Subject: [PATCH 11/24] fix: impedance recovery and IF analysis respect
 verbose=False

---
 qmix/exp/exp_data.py | 27 ++++++++++++++++-----------
 qmix/exp/if_data.py  |  5 +++--
 2 files changed, 19 insertions(+), 13 deletions(-)

diff --git a/qmix/exp/exp_data.py b/qmix/exp/exp_data.py
index 00f21c0..5f228b9 100644
--- a/qmix/exp/exp_data.py
+++ b/qmix/exp/exp_data.py
@@ -724,7 +724,9 @@ class PumpedData(object):
         # Force certain value
         zemb = self.kwargs.get('zemb', PARAMS['zemb'])
 
-        cprint(" -> Impedance recovery:")
+        verbose = self.kwargs.get('verbose', PARAMS['verbose'])
+        if verbose:
+            cprint(" -> Impedance recovery:")
 
         # Unpack
         vgap = self.vgap  # mV
@@ -773,22 +775,25 @@ class PumpedData(object):
         good_fit = err_best <= _good_error
 
         # Print to terminal
-        if good_fit:
+        if verbose and good_fit:
             cprint('\t- good fit', 'OKGREEN')
-        else:
+        elif verbose:
             cprint('\t- bad fit', 'WARNING')
-        print("\t- embedding circuit:")
-        print("\t\t- voltage:     \t{:+6.2f}\t\t* Vgap".format(vt_best))
-        print("\t\t- impedance:   \t{:+12.2f}\t* Rn".format(zt_best))
+        if verbose:
+            print("\t- embedding circuit:")
+            print("\t\t- voltage:     \t{:+6.2f}\t\t* Vgap".format(vt_best))
+            print("\t\t- impedance:   \t{:+12.2f}\t* Rn".format(zt_best))
         with np.errstate(divide='ignore', invalid='ignore'):
             power_avail = np.abs(vt_best * vgap)**2 / 8 / np.real(zt_best * rn)
-        print("\t\t- avail. power:\t{:+7.2f}\t\tnW".format(power_avail / 1e-9))
-        print("\t- junction:")
-        print("\t\t- drive level:\t{:+6.2f}".format(alpha[idx_middle]))
-        print("\t\t- impedance:\t{:+12.2f}\t* Rn".format(zw))
+        if verbose:
+            print("\t\t- avail. power:\t{:+7.2f}\t\tnW".format(power_avail / 1e-9))
+            print("\t- junction:")
+            print("\t\t- drive level:\t{:+6.2f}".format(alpha[idx_middle]))
+            print("\t\t- impedance:\t{:+12.2f}\t* Rn".format(zw))
         with np.errstate(divide='ignore', invalid='ignore'):
             power_delivered = np.abs(ac_voltage[idx_middle] * vgap)**2 / 2 / np.real(zw * rn)
-        print("\t\t- deliv. power:\t{:+7.2f}\t\tnW".format(power_delivered / 1e-9))
+        if verbose:
+            print("\t\t- deliv. power:\t{:+7.2f}\t\tnW".format(power_delivered / 1e-9))
 
         # Save values as attributes
         self.zt       = zt_best
diff --git a/qmix/exp/if_data.py b/qmix/exp/if_data.py
index 2488ebf..ecd83b4 100644
--- a/qmix/exp/if_data.py
+++ b/qmix/exp/if_data.py
@@ -128,11 +128,12 @@ def if_data(if_hot, if_cold, dc, **kwargs):
 
     """
 
-    print("\033[95m -> Analyze IF data:\033[0m")
-
     verbose = kwargs.get('verbose', PARAMS['verbose'])
     dcif = kwargs.get('dcif', None)
 
+    if verbose:
+        print("\033[95m -> Analyze IF data:\033[0m")
+
     # Load IF data
     if_hot = _load_if(if_hot, dc, **kwargs)
     if_cold = _load_if(if_cold, dc, **kwargs)
-- 
2.43.0


From 268628908a273cb0f345789d3efa5adab83652ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:40 +0000
Subject: [PATCH 12/24] fix: impedance recovery falls back to the default fit
 range

---
 qmix/exp/exp_data.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qmix/exp/exp_data.py b/qmix/exp/exp_data.py
index 5f228b9..5a53eec 100644
--- a/qmix/exp/exp_data.py
+++ b/qmix/exp/exp_data.py
@@ -711,7 +711,9 @@ class PumpedData(object):
             fit_high = fit_range[1]
         else:
             fit_low  = self.kwargs.get('cut_low', None)
-            fit_high = 1 - self.kwargs.get('cut_high', None)
+            fit_high = self.kwargs.get('cut_high', None)
+            if fit_high is not None:
+                fit_high = 1 - fit_high
             if fit_low is None or fit_high is None:
                 fit_low = PARAMS['fit_range'][0]
                 fit_high = PARAMS['fit_range'][1]
-- 
2.43.0


From 675178cea8e1e4bf64b1ebf57a53e0a4a3e103be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:52 +0000
Subject: [PATCH 13/24] fix: PumpedData defines every result attribute when an
 analysis is skipped

---
 qmix/exp/exp_data.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/qmix/exp/exp_data.py b/qmix/exp/exp_data.py
index 5a53eec..722e3c6 100644
--- a/qmix/exp/exp_data.py
+++ b/qmix/exp/exp_data.py
@@ -631,6 +631,7 @@ class PumpedData(object):
             self.fit_good = None
             self.zw       = None
             self.alpha    = None
+            self.err_surf = None
 
         # Import and analyze IF data from hot/cold loads
         self.good_if_noise_fit = True
@@ -673,6 +674,10 @@ class PumpedData(object):
             self.shot_slope = None
             self.tn_best = None
             self.g_db = None
+            self.gain_best = None
+            self.v_best = None
+            self.corr = None
+            self.zj_if = None
 
         if verbose:
             print("")
-- 
2.43.0


From 98e55ef0dad92d1288125123f5ea265f6c1461a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:52 +0000
Subject: [PATCH 14/24] fix: the interpolation error check bounds the magnitude
 of the error

---
 qmix/respfn.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qmix/respfn.py b/qmix/respfn.py
index 59db44f..d7e33e7 100644
--- a/qmix/respfn.py
+++ b/qmix/respfn.py
@@ -809,9 +809,9 @@ def _setup_interpolation(voltage, current, current_kk, **params):
 
     # Check error
     if check_error:
-        assert err_dc.max() < interp_error, \
+        assert np.abs(err_dc).max() < interp_error, \
             "Interpolation error too high. Please increase max_npts_dc"
-        assert err_kk.max() < interp_error, \
+        assert np.abs(err_kk).max() < interp_error, \
             "Interpolation error too high. Please increase max_npts_kk"
 
     return f_dc, f_kk, f_ddc, f_dkk
-- 
2.43.0


From e07e91479ab03bb7b961ff77db48a77862c4c5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:07 +0000
Subject: [PATCH 15/24] fix: kk_trans_trapz rejects every unevenly spaced
 voltage array

---
 qmix/mathfn/kktrans.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmix/mathfn/kktrans.py b/qmix/mathfn/kktrans.py
index 234bdaa..2480123 100644
--- a/qmix/mathfn/kktrans.py
+++ b/qmix/mathfn/kktrans.py
@@ -64,7 +64,7 @@ def kk_trans_trapz(v, i):
     """
 
     # Ensure v has even spacing
-    assert ((v[1:] - v[:-1]) - (v[1] - v[0])).max() < 1e-5
+    assert np.abs((v[1:] - v[:-1]) - (v[1] - v[0])).max() < 1e-5
 
     # very crude integration
     ikk = []
-- 
2.43.0


From b870447b890cf6a75867f30116c9d8aa220fbe3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:07 +0000
Subject: [PATCH 16/24] fix: remove_doubles_matrix checks the sorting of the
 column it removes doubles from

---
 qmix/exp/clean_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmix/exp/clean_data.py b/qmix/exp/clean_data.py
index 87bcbc4..6f2be3c 100644
--- a/qmix/exp/clean_data.py
+++ b/qmix/exp/clean_data.py
@@ -161,7 +161,7 @@ def remove_doubles_matrix(matrix, col=0, check=True):
 
     if check:
         # Check to see if x is sorted
-        assert (matrix[1:, 0] - matrix[:-1, 0]).min() >= 0
+        assert (matrix[1:, col] - matrix[:-1, col]).min() >= 0
 
     column = matrix[:, col]
     mask = np.ones_like(column, dtype=bool)
-- 
2.43.0


From b9cfbbfd86112aaf3ede57d0201cc5380a7e61a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:07 +0000
Subject: [PATCH 17/24] fix: initialize_dir creates the folders inside the
 given directory

---
 qmix/exp/exp_data.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/qmix/exp/exp_data.py b/qmix/exp/exp_data.py
index 722e3c6..e7db647 100644
--- a/qmix/exp/exp_data.py
+++ b/qmix/exp/exp_data.py
@@ -1960,7 +1960,8 @@ def initialize_dir(fig_folder):  # pragma: no cover
     folder_list += list(_file_structure.values())
 
     for folder in folder_list:
-        if not os.path.exists(fig_folder + folder):
-            os.makedirs(fig_folder + folder)
+        path = os.path.join(fig_folder, folder)
+        if not os.path.exists(path):
+            os.makedirs(path)
             print('   - Created: ' + folder)
     print(" ")
-- 
2.43.0


From 6fe3d35fb5ec7495ec760e31812343d6551519a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:35 +0000
Subject: [PATCH 18/24] fix: DC data uses the I/V offsets as given when both
 are known

With bipolar data the given voffset and ioffset were only the starting
point of the search, although they are documented to replace it (and
pumped data is corrected by exactly the given values).
---
 qmix/exp/iv_data.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/qmix/exp/iv_data.py b/qmix/exp/iv_data.py
index ac0b56e..dc04b7f 100644
--- a/qmix/exp/iv_data.py
+++ b/qmix/exp/iv_data.py
@@ -518,6 +518,12 @@ def _correct_offset(volt_v, curr_a, **kw):
     voffset = kw.get('voffset', PARAMS['voffset'])
     ioffset = kw.get('ioffset', PARAMS['ioffset'])
 
+    # No need to search for the offset if it is known
+    if voffset is not None and ioffset is not None:
+        volt_v -= voffset
+        curr_a -= ioffset
+        return volt_v, curr_a, (voffset, ioffset)
+
     if isinstance(voffset_range, float) or isinstance(voffset_range, int):
         voffset_range = [-voffset_range, voffset_range]
 
-- 
2.43.0


From 77e708a6f46061035fbde07666b4cf0c6d2fe1e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:46 +0000
Subject: [PATCH 19/24] fix: documented defaults of vrn, voffset_range and the
 response-function point counts

---
 qmix/exp/parameters.py | 4 ++--
 qmix/respfn.py         | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/qmix/exp/parameters.py b/qmix/exp/parameters.py
index 22884ff..8f2f910 100644
--- a/qmix/exp/parameters.py
+++ b/qmix/exp/parameters.py
@@ -46,7 +46,7 @@ values.
           units [A].
         - ``voffset = None`` : Offset of the DC bias voltage data in units
           [V].
-        - ``voffset_range = (-5e-4, 5e-4)`` : Voltage range over which to look
+        - ``voffset_range = (-1e-3, 1e-3)`` : Voltage range over which to look
           for the voltage offset in units [V]. The ``DCData`` class will
           look from ``voffset_range[0]`` to ``+voffset_range[1]`` for the
           voltage offset.
@@ -70,7 +70,7 @@ values.
         - ``filter_nwind = 21`` : Width of the Savitzky-Golay filter.
         - ``filter_npoly = 3`` : Order of the Savitzky-Golay filter.
     - Analyzing the DC I-V curve:
-        - ``vrn = (3.5e-3, 4.5e-3)`` : Voltage range over which to calculate
+        - ``vrn = (3.5e-3, 5e3)`` : Voltage range over which to calculate
           the normal-state resistance, in units [V].
         - ``vrsg = 2e-3`` : Voltage at which to measure the subgap resistance,
           in units [V].
diff --git a/qmix/respfn.py b/qmix/respfn.py
index d7e33e7..05a8c91 100644
--- a/qmix/respfn.py
+++ b/qmix/respfn.py
@@ -505,9 +505,9 @@ class RespFnFromIVData(RespFn):
 
     Keyword Args:
         verbose (bool, default is True): print info to terminal?
-        max_npts_dc (int, default is 101): maximum number of points in DC I-V
+        max_npts_dc (int, default is 81): maximum number of points in DC I-V
             curve
-        max_npts_kk (int, default is 151): maximum number of points in KK
+        max_npts_kk (int, default is 101): maximum number of points in KK
             transform
         max_interp_error (float, default is 0.001): maximum interpolation error
             (in units of normalized current)
@@ -609,7 +609,7 @@ class RespFnExponential(RespFn):
         verbose (bool, default is True): print info to terminal?
         max_npts_dc (int, default is 101): maximum number of points in DC I-V
             curve
-        max_npts_kk (int, default is 151): maximum number of points in KK
+        max_npts_kk (int, default is 251): maximum number of points in KK
             transform
         max_interp_error (float, default is 0.001): maximum interpolation error
             (in units of normalized current)
-- 
2.43.0


From 2e2e35de5fcd5dc99be10e7f52213eb1dce9efa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:41 +0000
Subject: [PATCH 20/24] fix: keep the smoothing window of gauss_conv centered

The window started at -ext_x * sigma even when this was not an integer, so
that it was not symmetric about zero and the filter shifted the data by up
to one sample.
---
 qmix/mathfn/filters.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/qmix/mathfn/filters.py b/qmix/mathfn/filters.py
index 487c97d..10ee9b3 100644
--- a/qmix/mathfn/filters.py
+++ b/qmix/mathfn/filters.py
@@ -48,8 +48,9 @@ def _gauss(sigma, n_sigma=3):
 
     """
 
-    x_range = n_sigma * sigma
-    x = np.arange(-x_range, x_range + 1e-5, 1, dtype=float)
+    # Keep the window centered on zero, otherwise it would shift the data
+    x_range = int(n_sigma * sigma + 1e-5)
+    x = np.arange(-x_range, x_range + 1, dtype=float)
 
     y = 1 / (sigma * np.sqrt(2 * np.pi)) * np.exp(-0.5 * (x / sigma)**2)
 
-- 
2.43.0


From c9e2b22f9033808c0c7e1557503d6e325bc044a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:15 +0000
Subject: [PATCH 21/24] fix: drop points without current when a series
 resistance is removed from I-V data

---
 qmix/exp/iv_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmix/exp/iv_data.py b/qmix/exp/iv_data.py
index dc04b7f..28892a1 100644
--- a/qmix/exp/iv_data.py
+++ b/qmix/exp/iv_data.py
@@ -721,7 +721,7 @@ def _correct_series_resistance(vmeas, imeas, **kw):
 
     rstatic = vmeas / imeas
     rstatic[rstatic < 0] = 0.
-    mask = np.invert(np.isnan(rstatic))
+    mask = imeas != 0  # undefined where there is no current
     rj = rstatic - rseries
     v0 = imeas[mask] * rj[mask]
 
-- 
2.43.0


From b9301e3c5e7cecbe1837c354e48775be2528af3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:15 +0000
Subject: [PATCH 22/24] fix: skip DC points without current when a series
 resistance is removed from IF data

---
 qmix/exp/if_data.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qmix/exp/if_data.py b/qmix/exp/if_data.py
index ecd83b4..dbb1ab2 100644
--- a/qmix/exp/if_data.py
+++ b/qmix/exp/if_data.py
@@ -419,7 +419,8 @@ def _load_if(ifdata, dc, **kwargs):
         v = ifdata[:, 0]
         rstatic = dc.vraw / dc.iraw
         rstatic[rstatic < 0] = 0.
-        rstatic = np.interp(v, dc.vraw, rstatic)
+        mask = dc.iraw != 0  # undefined where there is no current
+        rstatic = np.interp(v, dc.vraw[mask], rstatic[mask])
         iraw = np.interp(v, dc.vraw, dc.iraw)
         rj = rstatic - rseries
         v0 = iraw * rj
-- 
2.43.0


From 63b5cbf7c707117b79a680bbbf3acba9a05c928f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:30:06 +0000
Subject: [PATCH 23/24] fix: plot_dciv marked the leakage current at 2 mV
 instead of at vleak

---
 qmix/exp/exp_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmix/exp/exp_data.py b/qmix/exp/exp_data.py
index e7db647..d8327d3 100644
--- a/qmix/exp/exp_data.py
+++ b/qmix/exp/exp_data.py
@@ -304,7 +304,7 @@ class DCData(object):
                 marker='o', ls='None', color='r', mfc='None', ms=8,
                 markeredgewidth=1, label=lgd_str3)
         # Label leakage current
-        ax.plot(2, i_leak * ua,
+        ax.plot(self.vleak * 1e3, i_leak * ua,
                 marker='o', ls='None', color='g', mfc='None', ms=8,
                 markeredgewidth=1, label=lgd_str4)
         # Fit line to normal resistance slope
-- 
2.43.0


From dca3ea0d796e01e468245880593f5766651f0171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:30:06 +0000
Subject: [PATCH 24/24] fix: plot_simulated marked the wrong end of the fit
 interval for cut_high

---
 qmix/exp/exp_data.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qmix/exp/exp_data.py b/qmix/exp/exp_data.py
index d8327d3..5571f58 100644
--- a/qmix/exp/exp_data.py
+++ b/qmix/exp/exp_data.py
@@ -1332,6 +1332,8 @@ class PumpedData(object):
         else:
             fit_low  = self.kwargs.get('cut_low', None)
             fit_high = self.kwargs.get('cut_high', None)
+            if fit_high is not None:
+                fit_high = 1 - fit_high
             if fit_low is None or fit_high is None:
                 fit_low = PARAMS['fit_range'][0]
                 fit_high = PARAMS['fit_range'][1]
-- 
2.43.0


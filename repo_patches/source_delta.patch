From b8fa0d0fcba2604e7d442c3757d0bc1bafeca446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:35 +0000
Subject: [PATCH 01/55] fix: S20, N0 and sigma2 must not share storage when one
 value per sos element is given

---
 pymcmcstat/settings/ModelSettings.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pymcmcstat/settings/ModelSettings.py b/pymcmcstat/settings/ModelSettings.py
index e71aa46..968f88e 100644
--- a/pymcmcstat/settings/ModelSettings.py
+++ b/pymcmcstat/settings/ModelSettings.py
@@ -181,6 +181,8 @@ class ModelSettings:
             sys.exit('SOS function returns nsos = {} elements.  \
                      Length of S20, N0, or sigma2 is {}.\
                      These settings must have one element or nsos elements.'.format(nsos, len(x)))
+        else:  # independent floating point array - do not share storage with other settings or user's array
+            x = np.ones(nsos)*x
         return x
 
     @classmethod
-- 
2.43.0


From 1b9f12f42bb0af91f476ae292c38c1f99b03691f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:35 +0000
Subject: [PATCH 02/55] fix: default sigma2 is S20 when S20 is specified

---
 pymcmcstat/settings/ModelSettings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymcmcstat/settings/ModelSettings.py b/pymcmcstat/settings/ModelSettings.py
index 968f88e..df9f10c 100644
--- a/pymcmcstat/settings/ModelSettings.py
+++ b/pymcmcstat/settings/ModelSettings.py
@@ -106,7 +106,7 @@ class ModelSettings:
         # set default value for sigma2
         # default for sigma2 is S20 or 1
         if self.sigma2 is None:
-            if not(np.isnan(self.S20)).any:
+            if not np.isnan(self.S20).any():
                 self.sigma2 = self.S20
             else:
                 self.sigma2 = np.ones(self.nbatch)
-- 
2.43.0


From 1d329db95a451977b636f0ea9a86ee8c7f938c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:35 +0000
Subject: [PATCH 03/55] fix: accept total number of observations for multiple
 data sets, so a simulation can be rerun

---
 pymcmcstat/settings/ModelSettings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymcmcstat/settings/ModelSettings.py b/pymcmcstat/settings/ModelSettings.py
index df9f10c..3e45b11 100644
--- a/pymcmcstat/settings/ModelSettings.py
+++ b/pymcmcstat/settings/ModelSettings.py
@@ -119,7 +119,7 @@ class ModelSettings:
         if np.array_equal(udN, dsN):
             N = dsN
         elif dsN.size > udN.size and udN.size == 1:
-            if np.all(dsN == udN[0]):
+            if np.all(dsN == udN[0]) or udN[0] == np.sum(dsN):
                 N = dsN
             else:
                 sys.exit('User defined N = {}.  Estimate based on data structure is N = {}.\
-- 
2.43.0


From 87c3aa3e4fc499077518b5cbd42c2e2189ccc44e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:02 +0000
Subject: [PATCH 04/55] fix: default value of N0 must not turn on updatesigma
 when simulation is rerun or continued

---
 pymcmcstat/settings/ModelSettings.py     | 2 ++
 pymcmcstat/settings/SimulationOptions.py | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/pymcmcstat/settings/ModelSettings.py b/pymcmcstat/settings/ModelSettings.py
index 3e45b11..341d8e2 100644
--- a/pymcmcstat/settings/ModelSettings.py
+++ b/pymcmcstat/settings/ModelSettings.py
@@ -57,6 +57,7 @@ class ModelSettings:
         self.N = self._array_type(N)
         # check value of N0 - prior accuracy for S20
         self.N0 = self._array_type(N0)
+        self._N0_is_default = False
         # check nbatch - number of data sets
         self.nbatch = self._array_type(nbatch)
         # S20 - prior for sigma2
@@ -98,6 +99,7 @@ class ModelSettings:
         # This is for backward compatibility
         # if sigma2 given then default N0=1, else default N0=0
         if self.N0 is None:
+            self._N0_is_default = True
             if self.sigma2 is None:
                 self.sigma2 = np.ones([1])
                 self.N0 = np.zeros([1])
diff --git a/pymcmcstat/settings/SimulationOptions.py b/pymcmcstat/settings/SimulationOptions.py
index aeb35c3..d4f3b5f 100644
--- a/pymcmcstat/settings/SimulationOptions.py
+++ b/pymcmcstat/settings/SimulationOptions.py
@@ -194,7 +194,7 @@ class SimulationOptions:
         if self.printint is None:
             self.printint = max(100, min(1000, self.adaptint))
         # if N0 given, then also turn on updatesigma
-        if model.N0 is not None:
+        if model.N0 is not None and not getattr(model, '_N0_is_default', False):
             self.updatesigma = True
 
     def display_simulation_options(self, print_these=None):
-- 
2.43.0


From 907f8da336b7d762f0a0eed92a29dd6c1b70951e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:02 +0000
Subject: [PATCH 05/55] fix: continued simulations must not count chain
 elements twice in covariance adaptation

---
 pymcmcstat/samplers/Adaptation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymcmcstat/samplers/Adaptation.py b/pymcmcstat/samplers/Adaptation.py
index 27b9890..5ae9255 100644
--- a/pymcmcstat/samplers/Adaptation.py
+++ b/pymcmcstat/samplers/Adaptation.py
@@ -74,7 +74,7 @@ class Adaptation:
             # UPDATE COVARIANCE MATRIX - CHOLESKY, MEAN, SUM
             covchain, meanchain, wsum = update_covariance_mean_sum(
                     chain[last_index_since_adaptation:chainind, :], np.ones(1), oldcovchain, oldmeanchain, oldwsum)
-            last_index_since_adaptation = isimu
+            last_index_since_adaptation = chainind
             # ram
             if doram:
                 upcov = update_cov_via_ram(u=u, isimu=isimu, etaparam=etaparam,
-- 
2.43.0


From 6e70bc413cc04785f870257c1296b395a72d5b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:02 +0000
Subject: [PATCH 06/55] fix: delayed rejection must work when adaptation
 interval ends during burn-in

---
 pymcmcstat/samplers/Adaptation.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pymcmcstat/samplers/Adaptation.py b/pymcmcstat/samplers/Adaptation.py
index 5ae9255..95e2013 100644
--- a/pymcmcstat/samplers/Adaptation.py
+++ b/pymcmcstat/samplers/Adaptation.py
@@ -65,8 +65,6 @@ class Adaptation:
             covchain = oldcovchain
             meanchain = oldmeanchain
             wsum = oldwsum
-            RDR = None
-            invR = None
         else:
             message(verbosity, 3, str('i:{} adapting ({}, {}, {})'.format(
                     isimu, rejected['total']*(isimu**(-1))*100, rejected['in_adaptation_interval']*(iiadapt**(-1))*100,
@@ -86,8 +84,8 @@ class Adaptation:
             R = check_for_singular_cov_matrix(upcov=upcov, R=R, npar=npar,
                                               qcov_adjust=qcov_adjust, qcov_scale=qcov_scale,
                                               rejected=rejected, iiadapt=iiadapt, verbosity=verbosity)
-            # update dram covariance matrix
-            RDR, invR = update_delayed_rejection(R=R, npar=npar, ntry=ntry, drscale=drscale)
+        # update dram covariance matrix
+        RDR, invR = update_delayed_rejection(R=R, npar=npar, ntry=ntry, drscale=drscale)
 
         covariance._update_covariance_from_adaptation(R, covchain, meanchain, wsum,
                                                       last_index_since_adaptation, iiadapt)
-- 
2.43.0


From f7e1c73a34a69cdd642edd59187ec8efc2e5811a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:02 +0000
Subject: [PATCH 07/55] fix: honour lastadapt option

---
 pymcmcstat/MCMC.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pymcmcstat/MCMC.py b/pymcmcstat/MCMC.py
index 8a52ba9..5fd48ca 100644
--- a/pymcmcstat/MCMC.py
+++ b/pymcmcstat/MCMC.py
@@ -342,7 +342,8 @@ class MCMC:
                 iiprint = 0  # reset print counter
 
             # ADAPTATION
-            if self.simulation_options.adaptint > 0 and iiadapt == self.simulation_options.adaptint:
+            if (self.simulation_options.adaptint > 0 and iiadapt == self.simulation_options.adaptint
+                    and isimu <= self.simulation_options.lastadapt):
                 self._covariance = self._sampling_methods.adaptation.run_adaptation(
                         covariance=self._covariance,
                         options=self.simulation_options,
-- 
2.43.0


From 2164897742320973df547d64667c480be651f0f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:02 +0000
Subject: [PATCH 08/55] fix: ntry greater than 1 turns on delayed rejection for
 every method

---
 pymcmcstat/procedures/CovarianceProcedures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymcmcstat/procedures/CovarianceProcedures.py b/pymcmcstat/procedures/CovarianceProcedures.py
index 82bf6cc..87ffda2 100644
--- a/pymcmcstat/procedures/CovarianceProcedures.py
+++ b/pymcmcstat/procedures/CovarianceProcedures.py
@@ -56,7 +56,7 @@ class CovarianceProcedures:
         self.__setup_R_matrix(parameters._parind)
         # ----------------
         # setup RDR matrix (RDR used in DR)
-        if options.method == 'dram' or options.method == 'dr':
+        if options.method == 'dram' or options.method == 'dr' or options.ntry > 1:
             self._invR = []
             self.__setup_RDR_matrix(npar=parameters.npar,
                                     drscale=options.drscale, ntry=options.ntry,
-- 
2.43.0


From 98c878953097c619b38201716beef6c0e838cfc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:33 +0000
Subject: [PATCH 09/55] fix: a simulation with nsimu = 1 returns the initial
 parameter set

---
 pymcmcstat/MCMC.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pymcmcstat/MCMC.py b/pymcmcstat/MCMC.py
index 5fd48ca..14820fb 100644
--- a/pymcmcstat/MCMC.py
+++ b/pymcmcstat/MCMC.py
@@ -290,6 +290,7 @@ class MCMC:
         savecount = 0  # save counter
         lastbin = 0  # initialize bin counter
         nsimu = self.simulation_options.nsimu
+        isimu = 0  # initial parameter set
 
         self.__rejected = {'total': 0, 'in_adaptation_interval': 0, 'outside_bounds': 0}
         self.__old_set = self.__initial_set
-- 
2.43.0


From df0dc05d32f136ff6e3a8e60234f6f888f5b429f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:35 +0000
Subject: [PATCH 10/55] fix: continued simulations extend the log files with
 the new part of the chains

---
 pymcmcstat/MCMC.py | 53 ++++++++++++++++++++++++++++++----------------
 1 file changed, 35 insertions(+), 18 deletions(-)

diff --git a/pymcmcstat/MCMC.py b/pymcmcstat/MCMC.py
index 14820fb..52b4a60 100644
--- a/pymcmcstat/MCMC.py
+++ b/pymcmcstat/MCMC.py
@@ -242,17 +242,28 @@ class MCMC:
         # Save initialized values to chain, s2chain, sschain
         self.__chain[chainind, :] = self.__initial_set.theta
         self.__sschain[chainind, :] = self.__initial_set.ss
-
-        self.__chains = []
-        self.__chains.append(dict(file=self.simulation_options.chainfile, mtx=self.__chain))
-        self.__chains.append(dict(file=self.simulation_options.sschainfile, mtx=self.__sschain))
+        self.__lastbin = 0  # nothing saved to log files yet
 
         if updatesigma:
             self.__s2chain = np.zeros([nsimu, nsos])
             self.__s2chain[chainind, :] = sigma2
-            self.__chains.append(dict(file=self.simulation_options.s2chainfile, mtx=self.__s2chain))
         else:
             self.__s2chain = None
+        self.__setup_chain_log(updatesigma)
+
+    # --------------------------------------------------------
+    def __setup_chain_log(self, updatesigma):
+        '''
+        Define which chains are saved to log files
+
+        Args:
+            * **updatesigma** (:py:class:`bool`): Flag for updating measurement error variance.
+        '''
+        self.__chains = []
+        self.__chains.append(dict(file=self.simulation_options.chainfile, mtx=self.__chain))
+        self.__chains.append(dict(file=self.simulation_options.sschainfile, mtx=self.__sschain))
+        if updatesigma:
+            self.__chains.append(dict(file=self.simulation_options.s2chainfile, mtx=self.__s2chain))
 
     # --------------------------------------------------------
     def __expand_chains(self, nsimu, npar, nsos, updatesigma):
@@ -266,6 +277,8 @@ class MCMC:
             * **updatesigma** (:py:class:`bool`): Flag for updating measurement error variance. \
             Default is 0 -> off (1 -> on).
         '''
+        # elements from previous simulation were already saved to log files
+        self.__lastbin = self.__chain.shape[0]
         # continuing simulation, so we must expand storage arrays
         zero_chain = np.zeros([nsimu-1, npar])
         zero_sschain = np.zeros([nsimu-1, nsos])
@@ -277,6 +290,8 @@ class MCMC:
             self.__s2chain = np.concatenate((self.__s2chain, zero_s2chain), axis=0)
         else:
             self.__s2chain = None
+        # log files are extended with the new part of the chains
+        self.__setup_chain_log(updatesigma)
 
     # --------------------------------------------------------
     def __execute_simulator(self):
@@ -288,7 +303,7 @@ class MCMC:
         iiadapt = 0  # adaptation counter
         iiprint = 0  # print counter
         savecount = 0  # save counter
-        lastbin = 0  # initialize bin counter
+        lastbin = self.__lastbin  # initialize bin counter
         nsimu = self.simulation_options.nsimu
         isimu = 0  # initial parameter set
 
@@ -377,14 +392,15 @@ class MCMC:
 
             # SAVE TO LOG FILE
             if savecount == self.simulation_options.savesize:
+                start = lastbin
                 savecount, lastbin = self.__save_to_log_file(
                         chains=self.__chains,
-                        start=isimu - self.simulation_options.savesize,
-                        end=isimu)
+                        start=start,
+                        end=start + self.simulation_options.savesize)
                 self.__save_to_log_file(
                         chains=[dict(mtx=np.dot(self._covariance._R.transpose(), self._covariance._R))],
-                        start=isimu - self.simulation_options.savesize,
-                        end=isimu,
+                        start=start,
+                        end=start + self.simulation_options.savesize,
                         append_to_log=False,
                         covmtx=True)
                 # add custom chains is applicable
@@ -397,17 +413,18 @@ class MCMC:
                                 append_to_log=False)
 
         # SAVE REMAINING ELEMENTS TO BIN FILE
-        self.__save_to_log_file(chains=self.__chains, start=lastbin, end=isimu + 1)
-        self.__save_to_log_file(
-                chains=[dict(mtx=np.dot(self._covariance._R.transpose(), self._covariance._R))],
-                start=lastbin,
-                end=isimu,
-                append_to_log=False,
-                covmtx=True)
+        if lastbin <= self.__chain_index:
+            self.__save_to_log_file(chains=self.__chains, start=lastbin, end=self.__chain_index + 1)
+            self.__save_to_log_file(
+                    chains=[dict(mtx=np.dot(self._covariance._R.transpose(), self._covariance._R))],
+                    start=lastbin,
+                    end=self.__chain_index,
+                    append_to_log=False,
+                    covmtx=True)
         # add custom chains is applicable
         for cs in self.custom_samplers:
             if (hasattr(cs, 'save_chain') is True) and (cs.save_chain is True):
-                self.__save_to_log_file(cs.chains, start=lastbin, end=isimu + 1, append_to_log=False)
+                self.__save_to_log_file(cs.chains, start=isimu - savecount, end=isimu + 1, append_to_log=False)
 
         # update value to end value
         self.parameters._value[self.parameters._parind] = self.__old_set.theta
-- 
2.43.0


From 966df59db04fe85ec3137d635153dc56b8f8331e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:35 +0000
Subject: [PATCH 11/55] fix: read segments of binary log files in the order
 they were saved

---
 pymcmcstat/chain/ChainProcessing.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/pymcmcstat/chain/ChainProcessing.py b/pymcmcstat/chain/ChainProcessing.py
index 6caa254..1ec7313 100644
--- a/pymcmcstat/chain/ChainProcessing.py
+++ b/pymcmcstat/chain/ChainProcessing.py
@@ -9,6 +9,7 @@ import json
 import h5py
 import numpy as np
 import os
+import re
 import warnings
 
 
@@ -246,6 +247,19 @@ def check_parallel_directory_contents(parallel_dir, cf_orig):
     return chainfolders
 
 
+def _numeric_order(name):
+    '''
+    Key for sorting names by the integers they contain: 'chain_2' < 'chain_10'
+
+    Args:
+        * **name** (:py:class:`str`): Name of data set or folder.
+
+    Returns:
+        * (:py:class:`tuple`): Integers found in name, followed by the name.
+    '''
+    return [int(num) for num in re.findall(r'[0-9]+', name)], name
+
+
 def read_in_bin_file(filename):
     '''
     Read in information from file containing binary data.
@@ -261,7 +275,7 @@ def read_in_bin_file(filename):
     '''
     try:
         hf = h5py.File(filename, 'r')
-        ds = list(hf.keys())  # data sets
+        ds = sorted(hf.keys(), key=_numeric_order)  # data sets in order saved: nsimu_<start>_<end>
         # check size of each set
         sh = np.zeros([len(ds), 2], dtype=int)
         for ii, dsii in enumerate(ds):
-- 
2.43.0


From 8d1fd63a0d2c79e79d86ecdaf64b2e05ad65d785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:35 +0000
Subject: [PATCH 12/55] fix: parallel chains are read in order of chain number

---
 pymcmcstat/chain/ChainProcessing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymcmcstat/chain/ChainProcessing.py b/pymcmcstat/chain/ChainProcessing.py
index 1ec7313..f877155 100644
--- a/pymcmcstat/chain/ChainProcessing.py
+++ b/pymcmcstat/chain/ChainProcessing.py
@@ -243,7 +243,7 @@ def check_parallel_directory_contents(parallel_dir, cf_orig):
         if (os.path.isdir(parallel_dir + os.sep + cf) is True) and ('chain_' in cf):
             chainfolders.append(cf)
 
-    chainfolders.sort()  # sort elements
+    chainfolders.sort(key=_numeric_order)  # sort elements by chain number
     return chainfolders
 
 
-- 
2.43.0


From c579a1d3b6dab2a1da42718da9c330cc7819b07f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:35 +0000
Subject: [PATCH 13/55] fix: check for missing chains in log files must work
 for all array shapes

---
 pymcmcstat/ParallelMCMC.py          | 2 +-
 pymcmcstat/chain/ChainProcessing.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pymcmcstat/ParallelMCMC.py b/pymcmcstat/ParallelMCMC.py
index 1237dce..6006747 100644
--- a/pymcmcstat/ParallelMCMC.py
+++ b/pymcmcstat/ParallelMCMC.py
@@ -399,7 +399,7 @@ def load_parallel_simulation_results(
                 savedir, extension=extension, chainfile=chainfile,
                 sschainfile=sschainfile, s2chainfile=s2chainfile,
                 covchainfile=covchainfile)
-        if out[0]['chain'] == []:
+        if len(out[0]['chain']) == 0:
             warnings.warn('WARNING: No chains found in saved results.', UserWarning)
     for ii, pr in enumerate(pres):
         pr['chain'] = out[ii]['chain']
diff --git a/pymcmcstat/chain/ChainProcessing.py b/pymcmcstat/chain/ChainProcessing.py
index f877155..d4df1c2 100644
--- a/pymcmcstat/chain/ChainProcessing.py
+++ b/pymcmcstat/chain/ChainProcessing.py
@@ -88,7 +88,7 @@ def load_serial_simulation_results(
                 savedir, extension=extension, chainfile=chainfile,
                 sschainfile=sschainfile, s2chainfile=s2chainfile,
                 covchainfile=covchainfile)
-        if out['chain'] == []:
+        if len(out['chain']) == 0:
             warnings.warn('WARNING: No chains found in saved results.', UserWarning)
         results['chain'] = out['chain']
         results['sschain'] = out['sschain']
@@ -124,7 +124,7 @@ def load_parallel_simulation_results(
                 savedir, extension=extension, chainfile=chainfile,
                 sschainfile=sschainfile, s2chainfile=s2chainfile,
                 covchainfile=covchainfile)
-        if out[0]['chain'] == []:
+        if len(out[0]['chain']) == 0:
             warnings.warn('WARNING: No chains found in saved results.', UserWarning)
     for ii, pr in enumerate(pres):
         pr['chain'] = out[ii]['chain']
-- 
2.43.0


From 563a887f2afc34007352fe4699214484c327dc58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:35 +0000
Subject: [PATCH 14/55] fix: load parallel results when the chains are stored
 in the json files

---
 pymcmcstat/ParallelMCMC.py          | 10 +++++-----
 pymcmcstat/chain/ChainProcessing.py | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/pymcmcstat/ParallelMCMC.py b/pymcmcstat/ParallelMCMC.py
index 6006747..c02e620 100644
--- a/pymcmcstat/ParallelMCMC.py
+++ b/pymcmcstat/ParallelMCMC.py
@@ -401,11 +401,11 @@ def load_parallel_simulation_results(
                 covchainfile=covchainfile)
         if len(out[0]['chain']) == 0:
             warnings.warn('WARNING: No chains found in saved results.', UserWarning)
-    for ii, pr in enumerate(pres):
-        pr['chain'] = out[ii]['chain']
-        pr['sschain'] = out[ii]['sschain']
-        pr['s2chain'] = out[ii]['s2chain']
-        pr['covchain'] = out[ii]['covchain']
+        for ii, pr in enumerate(pres):
+            pr['chain'] = out[ii]['chain']
+            pr['sschain'] = out[ii]['sschain']
+            pr['s2chain'] = out[ii]['s2chain']
+            pr['covchain'] = out[ii]['covchain']
     return pres
 
 
diff --git a/pymcmcstat/chain/ChainProcessing.py b/pymcmcstat/chain/ChainProcessing.py
index d4df1c2..b04ed34 100644
--- a/pymcmcstat/chain/ChainProcessing.py
+++ b/pymcmcstat/chain/ChainProcessing.py
@@ -126,11 +126,11 @@ def load_parallel_simulation_results(
                 covchainfile=covchainfile)
         if len(out[0]['chain']) == 0:
             warnings.warn('WARNING: No chains found in saved results.', UserWarning)
-    for ii, pr in enumerate(pres):
-        pr['chain'] = out[ii]['chain']
-        pr['sschain'] = out[ii]['sschain']
-        pr['s2chain'] = out[ii]['s2chain']
-        pr['covchain'] = out[ii]['covchain']
+        for ii, pr in enumerate(pres):
+            pr['chain'] = out[ii]['chain']
+            pr['sschain'] = out[ii]['sschain']
+            pr['s2chain'] = out[ii]['s2chain']
+            pr['covchain'] = out[ii]['covchain']
     return pres
 
 
-- 
2.43.0


From 737e6c546d5197bdd561816045c5788627f06af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:35 +0000
Subject: [PATCH 15/55] fix: text log files with one row or one column are read
 in as 2-d arrays

---
 pymcmcstat/chain/ChainProcessing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymcmcstat/chain/ChainProcessing.py b/pymcmcstat/chain/ChainProcessing.py
index b04ed34..315f409 100644
--- a/pymcmcstat/chain/ChainProcessing.py
+++ b/pymcmcstat/chain/ChainProcessing.py
@@ -318,7 +318,7 @@ def read_in_txt_file(filename):
         * **out** (:class:`~numpy.ndarray`): Array of chain elements.
     '''
     try:
-        out = np.loadtxt(filename)
+        out = np.loadtxt(filename, ndmin=2)
     except Exception as ex:
         template = "An exception of type {0} occurred. Arguments:\n{1!r}"
         message = template.format(type(ex).__name__, ex.args)
-- 
2.43.0


From 13e3243e8d5847d0f6d277d546b0ce94dee0c0cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:51 +0000
Subject: [PATCH 16/55] fix: restart from json file when some parameters are
 not sampled

---
 pymcmcstat/MCMC.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pymcmcstat/MCMC.py b/pymcmcstat/MCMC.py
index 52b4a60..a9fd005 100644
--- a/pymcmcstat/MCMC.py
+++ b/pymcmcstat/MCMC.py
@@ -156,7 +156,8 @@ class MCMC:
                 RS = ResultsStructure()
                 res = RS.load_json_object(self.simulation_options.json_restart_file)
                 self.parameters._results_to_params(res, 1)
-                self.simulation_options.qcov = np.array(res['qcov'])
+                # covariance matrix of all parameters, if available, including those which are not sampled
+                self.simulation_options.qcov = np.array(res.get('qcovorig', res['qcov']))
 
             self.__chain_index = 0  # start index at zero
             self._initialize_simulation()
-- 
2.43.0


From f6275b87cd3e8253c4b2b78e8ea4d40378eaf088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:34 +0000
Subject: [PATCH 17/55] fix: parallel chains must not share the same sequence
 of random numbers

---
 pymcmcstat/ParallelMCMC.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pymcmcstat/ParallelMCMC.py b/pymcmcstat/ParallelMCMC.py
index c02e620..968f50e 100644
--- a/pymcmcstat/ParallelMCMC.py
+++ b/pymcmcstat/ParallelMCMC.py
@@ -349,6 +349,8 @@ def run_serial_simulation(mcstat):
         * **results** (:py:class:`dict`): Results dictionary for serial simulation.
     '''
     print('Processing: {}'.format(mcstat.simulation_options.savedir))
+    # worker processes start with a copy of the same random state - chains must be independent
+    np.random.seed()
     mcstat.run_simulation()
     return mcstat.simulation_results
 
-- 
2.43.0


From f359ece96775e4e9ec08b91b994686b208da015f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:34 +0000
Subject: [PATCH 18/55] fix: propagate randomly sampled chain elements and
 leave results unchanged

---
 pymcmcstat/propagation.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pymcmcstat/propagation.py b/pymcmcstat/propagation.py
index 7dfeb24..f0511c0 100644
--- a/pymcmcstat/propagation.py
+++ b/pymcmcstat/propagation.py
@@ -50,7 +50,7 @@ def calculate_intervals(chain, results, data, model, s2chain=None,
         * :py:class:`dict` with two elements: 1) `credible` and 2) `prediction`
     '''
     parind = results['parind']
-    q = results['theta']
+    q = np.array(results['theta'])  # copy - do not change results
     nsimu, npar = chain.shape
     s2chain = check_s2chain(s2chain, nsimu)
     iisample, nsample = define_sample_points(nsample, nsimu)
@@ -65,7 +65,7 @@ def calculate_intervals(chain, results, data, model, s2chain=None,
         if waitbar is True:
             __wbarstatus.update(kk)
         # extract chain set
-        q[parind] = chain[kk, :]
+        q[parind] = chain[isa, :]
         # evaluate model
         y = model(q, data)
         # check model output
@@ -80,7 +80,7 @@ def calculate_intervals(chain, results, data, model, s2chain=None,
                 continue
             else:
                 # estimate prediction intervals
-                s2 = s2chain[kk]
+                s2 = s2chain[isa]
                 obs = observation_sample(s2, y, sstype)
                 pi.append(obs.reshape(obs.size,))
         else:
@@ -101,11 +101,11 @@ def calculate_intervals(chain, results, data, model, s2chain=None,
                     # estimate prediction intervals
                     if s2chain.ndim == 2:
                         if s2chain.shape[1] == ncol:
-                            s2 = s2chain[kk, jj]
+                            s2 = s2chain[isa, jj]
                         else:
-                            s2 = s2chain[kk]
+                            s2 = s2chain[isa]
                     else:
-                        s2 = s2chain[kk]
+                        s2 = s2chain[isa]
                     obs = observation_sample(s2, y[:, jj], sstype)
                     pis[jj].append(obs.reshape(obs.size,))
 
-- 
2.43.0


From 476d7054d40d8cd4cbed716cfeffb5b7d15b562a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:34 +0000
Subject: [PATCH 19/55] fix: generating prediction intervals must not change
 results

---
 pymcmcstat/plotting/PredictionIntervals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymcmcstat/plotting/PredictionIntervals.py b/pymcmcstat/plotting/PredictionIntervals.py
index c82f7b0..7f57898 100644
--- a/pymcmcstat/plotting/PredictionIntervals.py
+++ b/pymcmcstat/plotting/PredictionIntervals.py
@@ -120,7 +120,7 @@ class PredictionIntervals:
             self.__nbatch = results['model'].nbatch
         else:
             self.__nbatch = results['model_settings']['nbatch']
-        self.__theta = results['theta']
+        self.__theta = np.array(results['theta'])  # copy - do not change results
         if 'sstype' in results:
             self.__sstype = results['sstype']
         else:
-- 
2.43.0


From fd4a1315f45137c25fe359218594109f9446af85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:34 +0000
Subject: [PATCH 20/55] fix: plot prediction intervals with recent versions of
 numpy

---
 pymcmcstat/plotting/PredictionIntervals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymcmcstat/plotting/PredictionIntervals.py b/pymcmcstat/plotting/PredictionIntervals.py
index 7f57898..260b37b 100644
--- a/pymcmcstat/plotting/PredictionIntervals.py
+++ b/pymcmcstat/plotting/PredictionIntervals.py
@@ -823,6 +823,6 @@ class PredictionIntervals:
         nbatch = len(credible_intervals)
         # define counting metrics
         nlines = len(credible_intervals[0][0])  # number of lines
-        nn = np.int((nlines + 1)/2)  # median
+        nn = int((nlines + 1)/2)  # median
         nlines = nn - 1
         return nbatch, nn, nlines
-- 
2.43.0


From 27def2fb1b2ad5c86ebdcb60b9f27a5186a20c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:34 +0000
Subject: [PATCH 21/55] fix: keep user defined number of data points

---
 pymcmcstat/settings/DataStructure.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pymcmcstat/settings/DataStructure.py b/pymcmcstat/settings/DataStructure.py
index 78c80ea..e4fc9fd 100644
--- a/pymcmcstat/settings/DataStructure.py
+++ b/pymcmcstat/settings/DataStructure.py
@@ -93,6 +93,8 @@ class DataStructure:
                 self.n.append(y.size)
             else:  # should
                 self.n.append(y.shape[0])  # assume y is a numpy array - nrows is n
+        else:
+            self.n.append(n)
         self.shape.append(y.shape)
         self.weight.append(weight)
         # add user defined objects option
-- 
2.43.0


From 60cd2e36bb9584a789f76380edc6affb6dafc660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:02 +0000
Subject: [PATCH 22/55] fix: load the results file specified by the user

---
 pymcmcstat/chain/ChainProcessing.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pymcmcstat/chain/ChainProcessing.py b/pymcmcstat/chain/ChainProcessing.py
index 315f409..d2cd040 100644
--- a/pymcmcstat/chain/ChainProcessing.py
+++ b/pymcmcstat/chain/ChainProcessing.py
@@ -69,11 +69,12 @@ def load_serial_simulation_results(
     Returns:
         * **results** (:py:class:`dict`): Each element of list is an MCMC result dictionary.
     '''
-    items = os.listdir(savedir)
-    for item in items:
-        if item.endswith('.json'):
-            json_file = item
-            break
+    if json_file is None:
+        items = os.listdir(savedir)
+        for item in items:
+            if item.endswith('.json'):
+                json_file = item
+                break
     if json_file is not None:
         results = load_json_object(savedir + os.sep + json_file)
     else:
-- 
2.43.0


From 303265ebd03e17a1d8fc4a1aa3b65192210ed894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:01 +0000
Subject: [PATCH 23/55] fix: settings display (verbosity) raised for methods
 without delayed rejection

---
 pymcmcstat/procedures/CovarianceProcedures.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pymcmcstat/procedures/CovarianceProcedures.py b/pymcmcstat/procedures/CovarianceProcedures.py
index 87ffda2..ef67978 100644
--- a/pymcmcstat/procedures/CovarianceProcedures.py
+++ b/pymcmcstat/procedures/CovarianceProcedures.py
@@ -37,6 +37,7 @@ class CovarianceProcedures:
         self._qcov_scale = None
         self._R = None
         self._qcov_original = None
+        self._RDR = None
         self._invR = None
         self._iacce = None
         self._covchain = None
-- 
2.43.0


From b60deb36927bef7c4fbfecdda0375117150f1304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:32 +0000
Subject: [PATCH 24/55] fix: default sigma2 with N0 and several data sets
 refused a scalar sum of squares

---
 pymcmcstat/settings/ModelSettings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymcmcstat/settings/ModelSettings.py b/pymcmcstat/settings/ModelSettings.py
index 341d8e2..91845f1 100644
--- a/pymcmcstat/settings/ModelSettings.py
+++ b/pymcmcstat/settings/ModelSettings.py
@@ -111,7 +111,7 @@ class ModelSettings:
             if not np.isnan(self.S20).any():
                 self.sigma2 = self.S20
             else:
-                self.sigma2 = np.ones(self.nbatch)
+                self.sigma2 = np.ones([1])
         if np.isnan(self.S20).any():
             self.S20 = self.sigma2  # prior parameters for the error variance
 
-- 
2.43.0


From a71bc421c933661b2487673022550ccd0d22b861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:14:22 +0000
Subject: [PATCH 25/55] fix: default sum of squares of data sets with several
 columns

---
 pymcmcstat/procedures/SumOfSquares.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymcmcstat/procedures/SumOfSquares.py b/pymcmcstat/procedures/SumOfSquares.py
index c949368..5aa938f 100644
--- a/pymcmcstat/procedures/SumOfSquares.py
+++ b/pymcmcstat/procedures/SumOfSquares.py
@@ -101,5 +101,5 @@ class SumOfSquares:
             # evaluate model
             ymodel = model_function(xdata, theta)
             # calculate sum-of-squares error
-            ss[ibatch] += sum(weight*(ydata-ymodel)**2)
+            ss[ibatch] += np.sum(weight*(ydata-ymodel)**2)
         return ss
-- 
2.43.0


From 1a25ab145a9d85c8e04fc02ef3f9b7cfa0167ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:15:08 +0000
Subject: [PATCH 26/55] fix: data sets given as lists are column vectors

---
 pymcmcstat/settings/DataStructure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymcmcstat/settings/DataStructure.py b/pymcmcstat/settings/DataStructure.py
index e4fc9fd..d6ae5be 100644
--- a/pymcmcstat/settings/DataStructure.py
+++ b/pymcmcstat/settings/DataStructure.py
@@ -112,7 +112,7 @@ class DataStructure:
             * **xy** (:class:`~numpy.ndarray`): Variable as numpy array
         '''
         if isinstance(xy, np.ndarray) is False:
-            xy = np.array([xy])
+            xy = np.array(xy)
         return xy
 
     @classmethod
-- 
2.43.0


From 99327ef1cfe878dd0713d61c1d4beab6d428d2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:16:57 +0000
Subject: [PATCH 27/55] fix: restart from json file matches the proposal
 covariance to the parameters by name

---
 pymcmcstat/MCMC.py | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/pymcmcstat/MCMC.py b/pymcmcstat/MCMC.py
index a9fd005..420844a 100644
--- a/pymcmcstat/MCMC.py
+++ b/pymcmcstat/MCMC.py
@@ -156,8 +156,7 @@ class MCMC:
                 RS = ResultsStructure()
                 res = RS.load_json_object(self.simulation_options.json_restart_file)
                 self.parameters._results_to_params(res, 1)
-                # covariance matrix of all parameters, if available, including those which are not sampled
-                self.simulation_options.qcov = np.array(res.get('qcovorig', res['qcov']))
+                self.simulation_options.qcov = self.__restart_covariance(res)
 
             self.__chain_index = 0  # start index at zero
             self._initialize_simulation()
@@ -169,6 +168,26 @@ class MCMC:
                     updatesigma=self.simulation_options.updatesigma,
                     sigma2=self.model_settings.sigma2)
 
+    # --------------------------------------------------------
+    def __restart_covariance(self, res):
+        '''
+        Proposal covariance of saved results, in the order the parameters were added to this simulation.
+
+        Args:
+            * **res** (:py:class:`dict`): Results of previous simulation
+
+        Returns:
+            * **qcov** (:class:`~numpy.ndarray`): Covariance matrix
+        '''
+        # covariance matrix of all parameters, if available, including those which are not sampled
+        qcov = np.array(res.get('qcovorig', res['qcov']))
+        saved = list(res.get('allnames', []))
+        names = [par['name'] for par in self.parameters.parameters]
+        if len(set(saved)) == qcov.shape[0] and sorted(saved) == sorted(names):
+            order = [saved.index(name) for name in names]
+            qcov = qcov[np.ix_(order, order)]
+        return qcov
+
     # --------------------------------------------------------
     def _initialize_simulation(self):
         '''
-- 
2.43.0


From 7d53da517e37fdc26f8d2d137a3b5a6b035c9784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:29 +0000
Subject: [PATCH 28/55] fix: read binary log files with segments of different
 sizes

---
 pymcmcstat/chain/ChainProcessing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymcmcstat/chain/ChainProcessing.py b/pymcmcstat/chain/ChainProcessing.py
index d2cd040..c64dfb4 100644
--- a/pymcmcstat/chain/ChainProcessing.py
+++ b/pymcmcstat/chain/ChainProcessing.py
@@ -292,7 +292,7 @@ def read_in_bin_file(filename):
                 b = sh[ii, 0]
             else:
                 a = a + sh[ii-1, 0]
-                b = b + sh[ii-1, 0]
+                b = a + sh[ii, 0]
             out[a:b, :] = np.array(hf.get(dsii))
         hf.close()
     except Exception as ex:
-- 
2.43.0


From 4cc4cfaa106dbde15b69838b2224388953ae57ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:02 +0000
Subject: [PATCH 29/55] fix: custom chains of continued simulations are saved
 with the same segments as the chain

---
 pymcmcstat/MCMC.py | 38 +++++++++++++++++++++++++-------------
 1 file changed, 25 insertions(+), 13 deletions(-)

diff --git a/pymcmcstat/MCMC.py b/pymcmcstat/MCMC.py
index 420844a..7adb49c 100644
--- a/pymcmcstat/MCMC.py
+++ b/pymcmcstat/MCMC.py
@@ -428,9 +428,10 @@ class MCMC:
                     if (hasattr(cs, 'save_chain') is True) and (cs.save_chain is True):
                         self.__save_to_log_file(
                                 chains=cs.chains,
-                                start=isimu - self.simulation_options.savesize,
-                                end=isimu,
-                                append_to_log=False)
+                                start=start,
+                                end=start + self.simulation_options.savesize,
+                                append_to_log=False,
+                                offset=self.__chain_index - isimu)
 
         # SAVE REMAINING ELEMENTS TO BIN FILE
         if lastbin <= self.__chain_index:
@@ -441,10 +442,15 @@ class MCMC:
                     end=self.__chain_index,
                     append_to_log=False,
                     covmtx=True)
-        # add custom chains is applicable
-        for cs in self.custom_samplers:
-            if (hasattr(cs, 'save_chain') is True) and (cs.save_chain is True):
-                self.__save_to_log_file(cs.chains, start=isimu - savecount, end=isimu + 1, append_to_log=False)
+            # add custom chains is applicable
+            for cs in self.custom_samplers:
+                if (hasattr(cs, 'save_chain') is True) and (cs.save_chain is True):
+                    self.__save_to_log_file(
+                            chains=cs.chains,
+                            start=lastbin,
+                            end=self.__chain_index + 1,
+                            append_to_log=False,
+                            offset=self.__chain_index - isimu)
 
         # update value to end value
         self.parameters._value[self.parameters._parind] = self.__old_set.theta
@@ -494,13 +500,15 @@ class MCMC:
         self.simulation_results.add_sschain(sschain=self.__sschain)
 
     # ------------------------------------------------
-    def __save_to_log_file(self, chains, start, end, append_to_log=True, covmtx=False):
+    def __save_to_log_file(self, chains, start, end, append_to_log=True, covmtx=False, offset=0):
         '''
         Save to log files
 
         Args:
             * **start** (:py:class:`int`): Start index of chain block to save
             * **end** (:py:class:`int`): End index of chain block to save
+            * **offset** (:py:class:`int`): Chain index of first row in chain arrays (custom chains of \
+            continued simulations)
 
         Returns:
             * **savecount** (:py:class:`int`): Reset save counter
@@ -517,7 +525,8 @@ class MCMC:
             if covmtx is True:
                 self.__save_covmtx_chain(chain=chains[0], start=start, end=end, extension='h5')
             else:
-                self.__save_chains(chains=chains, savedir=savedir, start=start, end=end, extension='h5')
+                self.__save_chains(
+                        chains=chains, savedir=savedir, start=start, end=end, extension='h5', offset=offset)
 
         if self.simulation_options.save_to_txt is True:
             savedir = self.simulation_options.savedir
@@ -529,7 +538,8 @@ class MCMC:
             if covmtx is True:
                 self.__save_covmtx_chain(chain=chains[0], start=start, end=end, extension='txt')
             else:
-                self.__save_chains(chains=chains, savedir=savedir, start=start, end=end, extension='txt')
+                self.__save_chains(
+                        chains=chains, savedir=savedir, start=start, end=end, extension='txt', offset=offset)
 
         # reset counter
         savecount = 0
@@ -537,7 +547,7 @@ class MCMC:
         return savecount, lastbin
 
     # --------------------------------------------------------
-    def __save_chains(self, chains, savedir, start, end, extension):
+    def __save_chains(self, chains, savedir, start, end, extension, offset=0):
         '''
         Save custom chain segment
 
@@ -547,6 +557,7 @@ class MCMC:
             * **start** (:py:class:`int`): Starting index of chain to save to file
             * **end** (:py:class:`int`): Ending index of chain to save to file
             * **extension** (:py:class:`str`): File extension - 'h5' or 'txt'
+            * **offset** (:py:class:`int`): Chain index of first row in chain arrays
 
         If you specify a `savesize` of 100, then every 100 simulations the last 100
         chain sets will be appended to the file.  That is to say, if you are on
@@ -555,13 +566,14 @@ class MCMC:
 
         for ii, chain in enumerate(chains):
             # add extension
+            mtx = chain['mtx'][start-offset:end-offset, :]
             chainfile = ChainProcessing._create_path_with_extension(savedir, chain['file'], extension=extension)
             if extension.lower() == 'h5':
                 # define set name based in start/end
                 datasetname = str('{}_{}_{}'.format('nsimu', start, end-1))
-                ChainProcessing._save_to_bin_file(chainfile, datasetname=datasetname, mtx=chain['mtx'][start:end, :])
+                ChainProcessing._save_to_bin_file(chainfile, datasetname=datasetname, mtx=mtx)
             else:
-                ChainProcessing._save_to_txt_file(chainfile, mtx=chain['mtx'][start:end, :])
+                ChainProcessing._save_to_txt_file(chainfile, mtx=mtx)
 
     # --------------------------------------------------------
     def __save_covmtx_chain(self, chain, start, end, extension):
-- 
2.43.0


From 0133936c33b23660c64d68204d067e06a9fd030f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:07 +0000
Subject: [PATCH 30/55] fix: a fresh run starts from the initial error
 variance, not the last one of an earlier run

---
 pymcmcstat/MCMC.py                              | 2 ++
 pymcmcstat/procedures/ErrorVarianceEstimator.py | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/pymcmcstat/MCMC.py b/pymcmcstat/MCMC.py
index 7adb49c..4a3043e 100644
--- a/pymcmcstat/MCMC.py
+++ b/pymcmcstat/MCMC.py
@@ -144,6 +144,8 @@ class MCMC:
             if self._mcmc_status is True:
                 self.parameters._results_to_params(self.simulation_results.results, 1)
                 self._initialize_simulation()
+                if self.__s2chain is not None:  # continue with last error variance
+                    self.__initial_set.sigma2 = np.array(self.__s2chain[-1, :])
                 self.__expand_chains(
                         nsimu=self.simulation_options.nsimu,
                         npar=self.parameters.npar,
diff --git a/pymcmcstat/procedures/ErrorVarianceEstimator.py b/pymcmcstat/procedures/ErrorVarianceEstimator.py
index 9a38634..ebd7fa1 100644
--- a/pymcmcstat/procedures/ErrorVarianceEstimator.py
+++ b/pymcmcstat/procedures/ErrorVarianceEstimator.py
@@ -54,7 +54,7 @@ class ErrorVarianceEstimator:
         N0 = model.N0
         S20 = model.S20
         N = model.N
-        sigma2 = model.sigma2  # initializes it as array
+        sigma2 = np.array(model.sigma2)  # initializes it as array - keep initial value in model settings
         nsos = len(sos)
 
         for jj in range(0, nsos):
-- 
2.43.0


From 0b999d3447f9ca9c5fcebd244777f9ea31261cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:18 +0000
Subject: [PATCH 31/55] fix: extending parameter names leaves the list of names
 of the user or results unchanged

---
 pymcmcstat/plotting/utilities.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pymcmcstat/plotting/utilities.py b/pymcmcstat/plotting/utilities.py
index afabd8b..4a52e79 100644
--- a/pymcmcstat/plotting/utilities.py
+++ b/pymcmcstat/plotting/utilities.py
@@ -114,8 +114,7 @@ def extend_names_to_match_nparam(names, nparam):
     Returns:
         * **names** (:py:class:`list`): List of strings - extended list of parameter names
     '''
-    if names is None:
-        names = []
+    names = [] if names is None else names[:]  # copy - do not change list of user
     n0 = len(names)
     for ii in range(n0, nparam):
         names.append(str('$p_{{{}}}$'.format(ii)))
-- 
2.43.0


From 574ef978834d38837b1b60699f987100d72a802c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:24 +0000
Subject: [PATCH 32/55] fix: plotting intervals leaves the user's list of
 limits in its order

---
 pymcmcstat/propagation.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pymcmcstat/propagation.py b/pymcmcstat/propagation.py
index f0511c0..1149b9c 100644
--- a/pymcmcstat/propagation.py
+++ b/pymcmcstat/propagation.py
@@ -635,8 +635,7 @@ def _setup_labels(limits, inttype='CI'):
 def _check_limits(limits, default_limits):
     if limits is None:
         limits = default_limits
-    limits.sort(reverse=True)
-    return limits
+    return sorted(limits, reverse=True)  # new list - do not change list of user
 
 
 def _convert_limits(limits):
-- 
2.43.0


From c9cd2de332b2d684bb80154be27d12822c9d95e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:31 +0000
Subject: [PATCH 33/55] fix: parallel setup leaves the simulation options of
 the serial setup unchanged

---
 pymcmcstat/ParallelMCMC.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymcmcstat/ParallelMCMC.py b/pymcmcstat/ParallelMCMC.py
index 968f50e..e62192d 100644
--- a/pymcmcstat/ParallelMCMC.py
+++ b/pymcmcstat/ParallelMCMC.py
@@ -47,7 +47,7 @@ class ParallelMCMC:
         # extract settings from mcset
         data, options, model, parameters = unpack_mcmc_set(mcset=mcset)
         npar, low_lim, upp_lim = get_parameter_features(parameters.parameters)
-        options = check_options_output(options)
+        options = check_options_output(copy.deepcopy(options))  # copy - do not change mcset
         # number of CPUs
         self.num_cores = assign_number_of_cores(num_cores)
         # check initial values and number of chains to be generated
-- 
2.43.0


From aa867163b7bfad0bf5e2fcff4f47b0e59d6f6dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:37 +0000
Subject: [PATCH 34/55] fix: interquantile range leaves its input unchanged

---
 pymcmcstat/plotting/utilities.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymcmcstat/plotting/utilities.py b/pymcmcstat/plotting/utilities.py
index 4a52e79..20c4d63 100644
--- a/pymcmcstat/plotting/utilities.py
+++ b/pymcmcstat/plotting/utilities.py
@@ -166,8 +166,8 @@ def iqrange(x):
         x = x.reshape(nc, nr)
         nr = nc
         nc = 1
-    # sort
-    x.sort()
+    # sort (copy - do not change input)
+    x = np.sort(x)
     i1 = math.floor((nr + 1)/4)
     i3 = math.floor(3/4*(nr+1))
     f1 = (nr+1)/4-i1
-- 
2.43.0


From 049bd5a59156720265b90896a5181a60558e1cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:32 +0000
Subject: [PATCH 35/55] fix: random initial values of parallel chains leave
 parameters that are not sampled at their value

---
 pymcmcstat/ParallelMCMC.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pymcmcstat/ParallelMCMC.py b/pymcmcstat/ParallelMCMC.py
index e62192d..ced4ad5 100644
--- a/pymcmcstat/ParallelMCMC.py
+++ b/pymcmcstat/ParallelMCMC.py
@@ -57,6 +57,11 @@ class ParallelMCMC:
                 npar=npar,
                 low_lim=low_lim,
                 upp_lim=upp_lim)
+        # parameters that are not sampled keep their value
+        if initial_values is None:
+            for jj, par in enumerate(parameters.parameters):
+                if not par['sample']:
+                    self.initial_values[:, jj] = par['theta0']
         # assign parallel log file directory
         parallel_dir = options.savedir
         check_directory(parallel_dir)
-- 
2.43.0


From 22f38fc91b2726afcc384c4fc66481f37bd46ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:40 +0000
Subject: [PATCH 36/55] fix: only directories named chain_<number> are read as
 parallel chains

---
 pymcmcstat/chain/ChainProcessing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymcmcstat/chain/ChainProcessing.py b/pymcmcstat/chain/ChainProcessing.py
index c64dfb4..9e5299b 100644
--- a/pymcmcstat/chain/ChainProcessing.py
+++ b/pymcmcstat/chain/ChainProcessing.py
@@ -241,7 +241,7 @@ def check_parallel_directory_contents(parallel_dir, cf_orig):
     '''
     chainfolders = []
     for cf in cf_orig:
-        if (os.path.isdir(parallel_dir + os.sep + cf) is True) and ('chain_' in cf):
+        if (os.path.isdir(parallel_dir + os.sep + cf) is True) and re.match(r'chain_[0-9]+$', cf):
             chainfolders.append(cf)
 
     chainfolders.sort(key=_numeric_order)  # sort elements by chain number
-- 
2.43.0


From eb48bd023d84d66aa1a3850fe8178794f0c1106f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:45 +0000
Subject: [PATCH 37/55] fix: each parallel result gets its own chains, from the
 results file or from its log files

---
 pymcmcstat/ParallelMCMC.py          | 6 ++++--
 pymcmcstat/chain/ChainProcessing.py | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/pymcmcstat/ParallelMCMC.py b/pymcmcstat/ParallelMCMC.py
index ced4ad5..79de833 100644
--- a/pymcmcstat/ParallelMCMC.py
+++ b/pymcmcstat/ParallelMCMC.py
@@ -400,8 +400,8 @@ def load_parallel_simulation_results(
         for key in pr.keys():
             if isinstance(pres[ii][key], list):
                 pres[ii][key] = np.array(pres[ii][key])
-    # check whether chains included in json file
-    if 'chain' not in pr.keys():
+    # check whether chains included in json files
+    if any('chain' not in pr for pr in pres):
         out = CP.read_in_parallel_savedir_files(
                 savedir, extension=extension, chainfile=chainfile,
                 sschainfile=sschainfile, s2chainfile=s2chainfile,
@@ -409,6 +409,8 @@ def load_parallel_simulation_results(
         if len(out[0]['chain']) == 0:
             warnings.warn('WARNING: No chains found in saved results.', UserWarning)
         for ii, pr in enumerate(pres):
+            if 'chain' in pr:
+                continue
             pr['chain'] = out[ii]['chain']
             pr['sschain'] = out[ii]['sschain']
             pr['s2chain'] = out[ii]['s2chain']
diff --git a/pymcmcstat/chain/ChainProcessing.py b/pymcmcstat/chain/ChainProcessing.py
index 9e5299b..8ea2595 100644
--- a/pymcmcstat/chain/ChainProcessing.py
+++ b/pymcmcstat/chain/ChainProcessing.py
@@ -119,8 +119,8 @@ def load_parallel_simulation_results(
         for key in pr.keys():
             if isinstance(pres[ii][key], list):
                 pres[ii][key] = np.array(pres[ii][key])
-    # check whether chains included in json file
-    if 'chain' not in pr.keys():
+    # check whether chains included in json files
+    if any('chain' not in pr for pr in pres):
         out = read_in_parallel_savedir_files(
                 savedir, extension=extension, chainfile=chainfile,
                 sschainfile=sschainfile, s2chainfile=s2chainfile,
@@ -128,6 +128,8 @@ def load_parallel_simulation_results(
         if len(out[0]['chain']) == 0:
             warnings.warn('WARNING: No chains found in saved results.', UserWarning)
         for ii, pr in enumerate(pres):
+            if 'chain' in pr:
+                continue
             pr['chain'] = out[ii]['chain']
             pr['sschain'] = out[ii]['sschain']
             pr['s2chain'] = out[ii]['s2chain']
-- 
2.43.0


From 27ddc2051c5a91ad669506bf5aebf5ec6f16266d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:03 +0000
Subject: [PATCH 38/55] fix: parallel chains keep the prior mean of the
 template when it defaults to its initial value

---
 pymcmcstat/ParallelMCMC.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pymcmcstat/ParallelMCMC.py b/pymcmcstat/ParallelMCMC.py
index 79de833..4be24bb 100644
--- a/pymcmcstat/ParallelMCMC.py
+++ b/pymcmcstat/ParallelMCMC.py
@@ -85,7 +85,10 @@ class ParallelMCMC:
             # replicate parameter settings and assign distributed initial values
             self.parmc[ii].parameters = copy.deepcopy(parameters)
             for jj in range(npar):
-                self.parmc[ii].parameters.parameters[jj]['theta0'] = self.initial_values[ii, jj]
+                par = self.parmc[ii].parameters.parameters[jj]
+                if np.isnan(par['prior_mu']):
+                    par['prior_mu'] = par['theta0']  # all chains have the same prior
+                par['theta0'] = self.initial_values[ii, jj]
 
     def run_parallel_simulation(self):
         '''
-- 
2.43.0


From 321b2ace6736d623f6c9a46707c52ec53793405b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:16 +0000
Subject: [PATCH 39/55] fix: a chain that is refused ends the parallel
 simulation instead of leaving it waiting forever

---
 pymcmcstat/ParallelMCMC.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pymcmcstat/ParallelMCMC.py b/pymcmcstat/ParallelMCMC.py
index 4be24bb..8923dd3 100644
--- a/pymcmcstat/ParallelMCMC.py
+++ b/pymcmcstat/ParallelMCMC.py
@@ -359,7 +359,11 @@ def run_serial_simulation(mcstat):
     print('Processing: {}'.format(mcstat.simulation_options.savedir))
     # worker processes start with a copy of the same random state - chains must be independent
     np.random.seed()
-    mcstat.run_simulation()
+    try:
+        mcstat.run_simulation()
+    except SystemExit as ex:
+        # would end the worker process without a result for the pool waiting for it
+        raise RuntimeError(str(ex))
     return mcstat.simulation_results
 
 
-- 
2.43.0


From 56c5b218096159f643e6723b5f72273b1af20667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:50:03 +0000
Subject: [PATCH 40/55] fix: initial values of parallel chains are checked with
 respect to the limits of the parameters

---
 pymcmcstat/ParallelMCMC.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pymcmcstat/ParallelMCMC.py b/pymcmcstat/ParallelMCMC.py
index 8923dd3..33242d1 100644
--- a/pymcmcstat/ParallelMCMC.py
+++ b/pymcmcstat/ParallelMCMC.py
@@ -50,6 +50,9 @@ class ParallelMCMC:
         options = check_options_output(copy.deepcopy(options))  # copy - do not change mcset
         # number of CPUs
         self.num_cores = assign_number_of_cores(num_cores)
+        if initial_values is not None:  # finite limits are only required to generate initial values
+            low_lim = np.array([par['minimum'] for par in parameters.parameters], dtype=float)
+            upp_lim = np.array([par['maximum'] for par in parameters.parameters], dtype=float)
         # check initial values and number of chains to be generated
         self.initial_values, self.num_chain = check_initial_values(
                 initial_values=initial_values,
-- 
2.43.0


From 60dc44711bc1ca10afedffc30364f297fa3ed14e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:39 +0000
Subject: [PATCH 41/55] fix: an undefined posterior counts as zero in delayed
 rejection

min(1, nan) is 1: a try whose sum of squares is NaN entered the acceptance
probabilities of later tries as if it had been accepted with certainty, so
that from the third try on candidates were accepted without any test.
---
 pymcmcstat/samplers/DelayedRejection.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pymcmcstat/samplers/DelayedRejection.py b/pymcmcstat/samplers/DelayedRejection.py
index 1817a2e..542d511 100644
--- a/pymcmcstat/samplers/DelayedRejection.py
+++ b/pymcmcstat/samplers/DelayedRejection.py
@@ -147,6 +147,8 @@ class DelayedRejection:
                 logprior=-0.5*x1.prior)
         for kk in range(stage):
             y = y + nth_stage_log_proposal_ratio(kk, trypath, invR)
+        if np.isnan(y):  # undefined posterior - never accept
+            return np.zeros(1)
         alpha = min(np.ones(1), np.exp(y)*a2*(a1**(-1)))
 #        alpha =  y + np.log(a2) + np.log((a1**(-1)))
         return alpha
-- 
2.43.0


From 966a32d0b876050b828cfeb94921c7f1a7f8486f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:34:03 +0000
Subject: [PATCH 42/55] fix: the interquartile range is that of the sorted
 values

---
 pymcmcstat/plotting/utilities.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pymcmcstat/plotting/utilities.py b/pymcmcstat/plotting/utilities.py
index 20c4d63..cc36880 100644
--- a/pymcmcstat/plotting/utilities.py
+++ b/pymcmcstat/plotting/utilities.py
@@ -167,13 +167,14 @@ def iqrange(x):
         nr = nc
         nc = 1
     # sort (copy - do not change input)
-    x = np.sort(x)
+    x = np.sort(x, axis=0)
     i1 = math.floor((nr + 1)/4)
     i3 = math.floor(3/4*(nr+1))
     f1 = (nr+1)/4-i1
     f3 = 3/4*(nr+1)-i3
-    q1 = (1-f1)*x[int(i1), :] + f1*x[int(i1)+1, :]
-    q3 = (1-f3)*x[int(i3), :] + f3*x[int(i3)+1, :]
+    # quantiles are numbered from one
+    q1 = (1-f1)*x[max(i1 - 1, 0), :] + f1*x[i1, :]
+    q3 = (1-f3)*x[i3 - 1, :] + f3*x[min(i3, nr - 1), :]
     return q3-q1
 
 
-- 
2.43.0


From 20a906a33b2d48c03a4116e856225c7050f8a907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:34:11 +0000
Subject: [PATCH 43/55] fix: plot 3-D intervals with the installed matplotlib

---
 pymcmcstat/propagation.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pymcmcstat/propagation.py b/pymcmcstat/propagation.py
index 1149b9c..bd36e8f 100644
--- a/pymcmcstat/propagation.py
+++ b/pymcmcstat/propagation.py
@@ -382,7 +382,7 @@ def plot_3d_intervals(intervals, time, ydata=None, xdata=None,
     piset['labels'] = _setup_labels(piset['limits'], inttype='PI')
     if fig is None:
         fig = plt.figure(figsize=figsize)
-        ax = Axes3D(fig)
+        fig.add_subplot(111, projection=Axes3D.name)
     ax = fig.gca()
     time1 = time[:, 0]
     time2 = time[:, 1]
@@ -400,8 +400,9 @@ def plot_3d_intervals(intervals, time, ydata=None, xdata=None,
                                     color=piset['colors'][ii],
                                     label=piset['labels'][ii])
             # Add fix for legend compatibility
-            surf._facecolors2d = surf._facecolors3d
-            surf._edgecolors2d = surf._edgecolors3d
+            if hasattr(surf, '_facecolors3d'):
+                surf._facecolors2d = surf._facecolors3d
+                surf._edgecolors2d = surf._edgecolors3d
             ax.add_collection3d(surf)
     # add credible intervals
     if addcredible is True:
@@ -417,8 +418,9 @@ def plot_3d_intervals(intervals, time, ydata=None, xdata=None,
                                     color=ciset['colors'][ii],
                                     label=ciset['labels'][ii])
             # Add fix for legend compatibility
-            surf._facecolors2d = surf._facecolors3d
-            surf._edgecolors2d = surf._edgecolors3d
+            if hasattr(surf, '_facecolors3d'):
+                surf._facecolors2d = surf._facecolors3d
+                surf._edgecolors2d = surf._edgecolors3d
             ax.add_collection3d(surf)
     # add model (median model response)
     if addmodel is True:
-- 
2.43.0


From f194495611a247df0a67726cc3659e46c904cb54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:15 +0000
Subject: [PATCH 44/55] fix: results holding numpy scalars can be exported to
 json

---
 pymcmcstat/utilities/NumpyEncoder.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pymcmcstat/utilities/NumpyEncoder.py b/pymcmcstat/utilities/NumpyEncoder.py
index dac317e..18ee2a9 100644
--- a/pymcmcstat/utilities/NumpyEncoder.py
+++ b/pymcmcstat/utilities/NumpyEncoder.py
@@ -17,4 +17,6 @@ class NumpyEncoder(json.JSONEncoder):
     def default(self, obj):
         if isinstance(obj, np.ndarray):
             return obj.tolist()
+        if isinstance(obj, np.generic):
+            return obj.item()
         return json.JSONEncoder.default(self, obj)
-- 
2.43.0


From d2e5de8a99f277dc968d9f14ea5509e9875e7398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:20 +0000
Subject: [PATCH 45/55] fix: continue from the last completed run after a
 refused or interrupted one

---
 pymcmcstat/MCMC.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pymcmcstat/MCMC.py b/pymcmcstat/MCMC.py
index 4a3043e..d57e2a7 100644
--- a/pymcmcstat/MCMC.py
+++ b/pymcmcstat/MCMC.py
@@ -144,6 +144,11 @@ class MCMC:
             if self._mcmc_status is True:
                 self.parameters._results_to_params(self.simulation_results.results, 1)
                 self._initialize_simulation()
+                # chains of last completed simulation
+                self.__chain = self.simulation_results.results['chain']
+                self.__sschain = self.simulation_results.results['sschain']
+                self.__s2chain = self.simulation_results.results['s2chain']
+                self.__chain_index = self.__chain.shape[0] - 1
                 if self.__s2chain is not None:  # continue with last error variance
                     self.__initial_set.sigma2 = np.array(self.__s2chain[-1, :])
                 self.__expand_chains(
-- 
2.43.0


From 77c83392cb6783a1d65b886c2a1502ad7e93cea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:10 +0000
Subject: [PATCH 46/55] fix: a continued run does not change the declared
 initial values

---
 pymcmcstat/MCMC.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pymcmcstat/MCMC.py b/pymcmcstat/MCMC.py
index d57e2a7..a144cc8 100644
--- a/pymcmcstat/MCMC.py
+++ b/pymcmcstat/MCMC.py
@@ -142,8 +142,12 @@ class MCMC:
         '''
         if use_previous_results is True:
             if self._mcmc_status is True:
-                self.parameters._results_to_params(self.simulation_results.results, 1)
-                self._initialize_simulation()
+                declared = [dict(par) for par in self.parameters.parameters]
+                try:
+                    self.parameters._results_to_params(self.simulation_results.results, 1)
+                    self._initialize_simulation()
+                finally:  # later simulations start from values defined by user
+                    self.parameters.parameters = declared
                 # chains of last completed simulation
                 self.__chain = self.simulation_results.results['chain']
                 self.__sschain = self.simulation_results.results['sschain']
-- 
2.43.0


From 25d154fc19f1fe37fbd15d97518ff97142fd0a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:59 +0000
Subject: [PATCH 47/55] fix: one-dimensional model output is compared with the
 data element by element

---
 pymcmcstat/procedures/SumOfSquares.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pymcmcstat/procedures/SumOfSquares.py b/pymcmcstat/procedures/SumOfSquares.py
index 5aa938f..a75c40a 100644
--- a/pymcmcstat/procedures/SumOfSquares.py
+++ b/pymcmcstat/procedures/SumOfSquares.py
@@ -99,7 +99,9 @@ class SumOfSquares:
             ydata = data.ydata[ibatch]
             weight = data.weight[ibatch]
             # evaluate model
-            ymodel = model_function(xdata, theta)
+            ymodel = np.asarray(model_function(xdata, theta))
+            if ymodel.ndim == 1 and ymodel.size == ydata.size:
+                ymodel = ymodel.reshape(ydata.shape)
             # calculate sum-of-squares error
             ss[ibatch] += np.sum(weight*(ydata-ymodel)**2)
         return ss
-- 
2.43.0


From 01053bde141792848f294f2cbf99a52c29f36698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:04 +0000
Subject: [PATCH 48/55] fix: results do not share number and shape of
 observations with the data structure

---
 pymcmcstat/settings/ModelSettings.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymcmcstat/settings/ModelSettings.py b/pymcmcstat/settings/ModelSettings.py
index 91845f1..f3b165d 100644
--- a/pymcmcstat/settings/ModelSettings.py
+++ b/pymcmcstat/settings/ModelSettings.py
@@ -94,8 +94,8 @@ class ModelSettings:
             self.N = self._check_number_of_observations(udN=self.N, dsN=self._array_type(data.n))
         else:
             # self.N = data.get_number_of_observations()
-            self.N = data.n
-        self.Nshape = data.shape
+            self.N = list(data.n)
+        self.Nshape = list(data.shape)
         # This is for backward compatibility
         # if sigma2 given then default N0=1, else default N0=0
         if self.N0 is None:
-- 
2.43.0


From 86c717f43b0fe678910f7d90ca8e84a4973da47f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:08 +0000
Subject: [PATCH 49/55] fix: resolve model settings from the declared ones in
 every run

---
 pymcmcstat/settings/ModelSettings.py      | 15 +++++++++++++++
 pymcmcstat/structures/ResultsStructure.py |  2 +-
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/pymcmcstat/settings/ModelSettings.py b/pymcmcstat/settings/ModelSettings.py
index f3b165d..a968e33 100644
--- a/pymcmcstat/settings/ModelSettings.py
+++ b/pymcmcstat/settings/ModelSettings.py
@@ -80,6 +80,18 @@ class ModelSettings:
             else:
                 sys.exit('Unknown data type - Please use int, ndarray, or list')
 
+    def _restore_defined_settings(self):
+        '''
+        Undo defaults and expansions of a previous simulation, as data may have been added since.
+        '''
+        for key, resolved in getattr(self, '_resolved', {}).items():
+            if getattr(self, key) is resolved:
+                setattr(self, key, self._defined[key])
+        self._defined = dict((key, getattr(self, key)) for key in ['nbatch', 'N', 'N0', 'sigma2', 'S20'])
+
+    def _store_resolved_settings(self):
+        self._resolved = dict((key, getattr(self, key)) for key in getattr(self, '_defined', []))
+
     def _check_dependent_model_settings(self, data, options):
         '''
         Check dependent parameters.
@@ -88,6 +100,7 @@ class ModelSettings:
             * **data** (:class:`~.DataStructure`): MCMC data structure
             * **options** (:class:`.SimulationOptions`): MCMC simulation options
         '''
+        self._restore_defined_settings()
         if self.nbatch is None:
             self.nbatch = data.get_number_of_batches()
         if self.N is not None:
@@ -114,6 +127,7 @@ class ModelSettings:
                 self.sigma2 = np.ones([1])
         if np.isnan(self.S20).any():
             self.S20 = self.sigma2  # prior parameters for the error variance
+        self._store_resolved_settings()
 
     @classmethod
     def _check_number_of_observations(cls, udN, dsN):
@@ -158,6 +172,7 @@ class ModelSettings:
 #        if len(self.N) == nsos + 1:
 #            self.N = self.N[1:] # remove first column
         self.nsos = nsos
+        self._store_resolved_settings()
 
     @classmethod
     def __check_size_of_setting_wrt_nsos(cls, x, nsos):
diff --git a/pymcmcstat/structures/ResultsStructure.py b/pymcmcstat/structures/ResultsStructure.py
index 7c1ae9e..e7ee6a9 100644
--- a/pymcmcstat/structures/ResultsStructure.py
+++ b/pymcmcstat/structures/ResultsStructure.py
@@ -280,7 +280,7 @@ class ResultsStructure:
         for keyii in do_not_save_these_keys:
             mod = removekey(mod, keyii)
         # must convert 'model' object to a dictionary
-        self.results['model_settings'] = mod
+        self.results['model_settings'] = dict((key, val) for key, val in mod.items() if not key.startswith('_'))
 
     def add_chain(self, chain=None):
         '''
-- 
2.43.0


From 8e2c6744e867e96f5040a5c2eef3e2c7ad3a21ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:31 +0000
Subject: [PATCH 50/55] fix: update of the error variance does not stay on when
 N0 is no longer specified

---
 pymcmcstat/settings/SimulationOptions.py  | 6 ++++++
 pymcmcstat/structures/ResultsStructure.py | 3 ++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/pymcmcstat/settings/SimulationOptions.py b/pymcmcstat/settings/SimulationOptions.py
index d4f3b5f..9d2aa5d 100644
--- a/pymcmcstat/settings/SimulationOptions.py
+++ b/pymcmcstat/settings/SimulationOptions.py
@@ -23,6 +23,7 @@ class SimulationOptions:
         # self.options = BaseSimulationOptions()
         self.description = 'simulation_options'
         self.__options_set = False
+        self.__updatesigma_by_N0 = False
 
     def define_simulation_options(self, nsimu=int(1e4), adaptint=None, ntry=None, method='dram',
                                   printint=None, adaptend=0, lastadapt=0, burnintime=0,
@@ -132,6 +133,7 @@ class SimulationOptions:
         self.qcov = qcov  # proposal covariance
         self.initqcovn = initqcovn  # proposal covariance weight in update
         self.updatesigma = bool(updatesigma)  #
+        self.__updatesigma_by_N0 = False
         self.priorupdatestart = priorupdatestart
         self.qcov_adjust = qcov_adjust  # eps adjustment
         self.burnin_scale = burnin_scale
@@ -195,7 +197,11 @@ class SimulationOptions:
             self.printint = max(100, min(1000, self.adaptint))
         # if N0 given, then also turn on updatesigma
         if model.N0 is not None and not getattr(model, '_N0_is_default', False):
+            self.__updatesigma_by_N0 = self.__updatesigma_by_N0 or not self.updatesigma
             self.updatesigma = True
+        elif self.__updatesigma_by_N0:
+            self.__updatesigma_by_N0 = False
+            self.updatesigma = False
 
     def display_simulation_options(self, print_these=None):
         '''
diff --git a/pymcmcstat/structures/ResultsStructure.py b/pymcmcstat/structures/ResultsStructure.py
index e7ee6a9..f9ec0fb 100644
--- a/pymcmcstat/structures/ResultsStructure.py
+++ b/pymcmcstat/structures/ResultsStructure.py
@@ -259,7 +259,8 @@ class ResultsStructure:
         # define list of keywords to NOT add to results structure
         do_not_save_these_keys = ['doram', 'waitbar', 'debug', 'dodram', 'maxmem',
                                   'verbosity', 'RDR', 'stats', 'initqcovn', 'drscale',
-                                  'maxiter', '_SimulationOptions__options_set', 'skip']
+                                  'maxiter', '_SimulationOptions__options_set', 'skip',
+                                  '_SimulationOptions__updatesigma_by_N0']
         for keyii in do_not_save_these_keys:
             opt = removekey(opt, keyii)
         # must convert 'options' object to a dictionary
-- 
2.43.0


From f1238658b06cfc4aa0f2577e58cefa9a34f34ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:36 +0000
Subject: [PATCH 51/55] fix: continue a run without error variance chain with
 updates of the error variance

---
 pymcmcstat/MCMC.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pymcmcstat/MCMC.py b/pymcmcstat/MCMC.py
index a144cc8..29b8676 100644
--- a/pymcmcstat/MCMC.py
+++ b/pymcmcstat/MCMC.py
@@ -153,6 +153,9 @@ class MCMC:
                 self.__sschain = self.simulation_results.results['sschain']
                 self.__s2chain = self.simulation_results.results['s2chain']
                 self.__chain_index = self.__chain.shape[0] - 1
+                if self.__s2chain is None and self.simulation_options.updatesigma:  # was not updated so far
+                    sigma2 = self.simulation_results.results['model_settings']['sigma2']
+                    self.__s2chain = np.ones([self.__chain.shape[0], 1])*sigma2
                 if self.__s2chain is not None:  # continue with last error variance
                     self.__initial_set.sigma2 = np.array(self.__s2chain[-1, :])
                 self.__expand_chains(
-- 
2.43.0


From 6b17a7709fcbe92b65c282ae498a795b1ff70823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:23:13 +0000
Subject: [PATCH 52/55] fix: parallel chains are run with the custom samplers
 of the template

---
 pymcmcstat/ParallelMCMC.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pymcmcstat/ParallelMCMC.py b/pymcmcstat/ParallelMCMC.py
index 33242d1..c811a76 100644
--- a/pymcmcstat/ParallelMCMC.py
+++ b/pymcmcstat/ParallelMCMC.py
@@ -75,6 +75,8 @@ class ParallelMCMC:
             self.parmc.append(MCMC())
             # replicate data
             self.parmc[ii].data = copy.deepcopy(data)
+            # replicate custom samplers
+            self.parmc[ii].custom_samplers = copy.deepcopy(getattr(mcset, 'custom_samplers', []))
             # replicate model settings
             self.parmc[ii].model_settings = copy.deepcopy(model)
             # replicate simulation options and create log files for each
-- 
2.43.0


From 12bbf225308bc6197e8572ed681104b698ec332d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:23:18 +0000
Subject: [PATCH 53/55] fix: observations plotted with 3-D intervals may differ
 in number from the evaluation points

---
 pymcmcstat/propagation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymcmcstat/propagation.py b/pymcmcstat/propagation.py
index bd36e8f..8eaa38b 100644
--- a/pymcmcstat/propagation.py
+++ b/pymcmcstat/propagation.py
@@ -434,7 +434,7 @@ def plot_3d_intervals(intervals, time, ydata=None, xdata=None,
             ax.plot(time1, time2, ydata.reshape(time1.shape), **data_display)
         else:  # User provided xdata array for observation points
             ax.plot(xdata[:, 0], xdata[:, 1],
-                    ydata.reshape(time1.shape), **data_display)
+                    ydata.reshape(ydata.size,), **data_display)
     # add legend
     if addlegend is True:
         handles, labels = ax.get_legend_handles_labels()
-- 
2.43.0


From 0d900ac6f79c208d6201d35e085be51e2894054e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:23:22 +0000
Subject: [PATCH 54/55] fix: intervals without error variance can be plotted
 with default settings

---
 pymcmcstat/propagation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pymcmcstat/propagation.py b/pymcmcstat/propagation.py
index 8eaa38b..b90a2af 100644
--- a/pymcmcstat/propagation.py
+++ b/pymcmcstat/propagation.py
@@ -210,6 +210,8 @@ def plot_intervals(intervals, time, ydata=None, xdata=None,
     # unpack dictionary
     credible = intervals['credible']
     prediction = intervals['prediction']
+    if prediction is None:  # no error variance - only credible intervals available
+        addprediction = False
     # Check user-defined settings
     ciset = __setup_iset(ciset,
                          default_iset=dict(
@@ -354,6 +356,8 @@ def plot_3d_intervals(intervals, time, ydata=None, xdata=None,
     # unpack dictionary
     credible = intervals['credible']
     prediction = intervals['prediction']
+    if prediction is None:  # no error variance - only credible intervals available
+        addprediction = False
     # Check user-defined settings
     ciset = __setup_iset(ciset,
                          default_iset=dict(
-- 
2.43.0


From 164b251e38f7f88714eff037550fd87fdaf2f0ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:05:09 +0000
Subject: [PATCH 55/55] fix: runs after a restarted one start from the values
 defined by the user again

---
 pymcmcstat/MCMC.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pymcmcstat/MCMC.py b/pymcmcstat/MCMC.py
index 29b8676..79aee0f 100644
--- a/pymcmcstat/MCMC.py
+++ b/pymcmcstat/MCMC.py
@@ -95,7 +95,11 @@ class MCMC:
             * **use_previous_results** (:py:class:`bool`): Flag to indicate whether simulation is being restarted.
         '''
         start_time = time.time()
-        self.__setup_simulator(use_previous_results=use_previous_results)
+        declared = [dict(par) for par in self.parameters.parameters]
+        try:
+            self.__setup_simulator(use_previous_results=use_previous_results)
+        finally:  # later simulations start from values defined by user
+            self.parameters.parameters = declared
         # ---------------------
         # setup progress bar
         if self.simulation_options.waitbar:
-- 
2.43.0


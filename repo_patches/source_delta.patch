From 08bcebd333f1a013701ad51d21d07522cbe49e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:37 +0000
Subject: [PATCH 01/46] fix: base_repr digits I and J were swapped for bases
 above 18

---
 coniii/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/coniii/utils.py b/coniii/utils.py
index 1fb5315..070ac38 100755
--- a/coniii/utils.py
+++ b/coniii/utils.py
@@ -10,7 +10,7 @@ from scipy.spatial.distance import squareform
 from scipy.special import binom
 from warnings import warn
 NUMERALS = '0123456789'
-ALPHNUM = '0123456789ABCDEFGHJIKLMNOPQRSTUVWXYZ'
+ALPHNUM = '0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ'
 
 
 @njit(cache=True)
@@ -353,7 +353,7 @@ def _small_base(i, base):
   
 @njit
 def _large_base(i, base):
-    ALPHANUM = '0123456789ABCDEFGHJIKLMNOPQRSTUVWXYZ'
+    ALPHANUM = '0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ'
     rep = []
     exponent = int(np.log(i)/np.log(base))
     term = int(i/base**exponent)
-- 
2.43.0


From cdd44336ef4114fb08bc5c51d8b2c909231331b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:37 +0000
Subject: [PATCH 02/46] fix: base_repr rounds the leading digits of large
 integers

---
 coniii/utils.py | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/coniii/utils.py b/coniii/utils.py
index 070ac38..481d33b 100755
--- a/coniii/utils.py
+++ b/coniii/utils.py
@@ -330,12 +330,11 @@ def base_repr(i, base):
 @njit
 def _small_base(i, base):
     rep = []
-    exponent = int(np.log(i)/np.log(base))
-    term = int(i/base**exponent)
-    # handle problematically rounded cases
-    if term==base:
+    # integer arithmetic only, logs and float division round for large i
+    exponent = 0
+    while i//base**exponent>=base:
         exponent += 1
-        term = 1
+    term = i//base**exponent
     rep.append(NUMERALS[term])
     i -= term*base**exponent
     
@@ -345,7 +344,7 @@ def _small_base(i, base):
         if baseToExp>i:
             rep.append('0')
         else:
-            term = int(i/baseToExp)
+            term = i//baseToExp
             rep.append(NUMERALS[term])
             i -= term*baseToExp
         exponent -= 1
@@ -355,12 +354,11 @@ def _small_base(i, base):
 def _large_base(i, base):
     ALPHANUM = '0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ'
     rep = []
-    exponent = int(np.log(i)/np.log(base))
-    term = int(i/base**exponent)
-    # handle problematically rounded cases
-    if term==base:
+    # integer arithmetic only, logs and float division round for large i
+    exponent = 0
+    while i//base**exponent>=base:
         exponent += 1
-        term = 1
+    term = i//base**exponent
     rep.append(ALPHANUM[term])
     i -= term*base**exponent
     
@@ -370,7 +368,7 @@ def _large_base(i, base):
         if baseToExp>i:
             rep.append('0')
         else:
-            term = int(i/baseToExp)
+            term = i//baseToExp
             rep.append(ALPHANUM[term])
             i -= term*baseToExp
         exponent -= 1
-- 
2.43.0


From 757ea9496f9794699fd66e64751e254d3d6f7812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:37 +0000
Subject: [PATCH 03/46] fix: k_corr overwrote the exclude_empty result with the
 plain average

---
 coniii/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/coniii/utils.py b/coniii/utils.py
index 481d33b..168be49 100755
--- a/coniii/utils.py
+++ b/coniii/utils.py
@@ -243,6 +243,7 @@ def k_corr(X, k,
         for counter,ijk in enumerate(combinations(range(N), k)):
             p = np.prod(X[:,ijk], axis=1)
             kcorr[counter] = p[p!=0].mean()
+        return kcorr
     
     if weights is None:
         weights = np.ones(S)/S
-- 
2.43.0


From af80a4aa3353369349923d8fa44916b87954aef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:37 +0000
Subject: [PATCH 04/46] fix: convert_corr convertTo keyword raised NameError

---
 coniii/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coniii/utils.py b/coniii/utils.py
index 168be49..1313949 100755
--- a/coniii/utils.py
+++ b/coniii/utils.py
@@ -587,7 +587,7 @@ def convert_corr(si, sisj, convert_to, concat=False, **kwargs):
     if 'convertTo' in kwargs.keys():
         from warnings import warn
         warn("convertTo kwarg is deprecated as of v1.1.2. Use convert_to instead.")
-        convert_to = convertTo
+        convert_to = kwargs['convertTo']
     elif len(kwargs.keys())>0:
         raise TypeError("Unexpected keyword argument.")
 
-- 
2.43.0


From b9b4e745a06bebe151ef804114d8be08db04e40a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:37 +0000
Subject: [PATCH 05/46] fix: coarse_grain_with_func paired a column with itself
 when all similarities are negative

---
 coniii/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/coniii/utils.py b/coniii/utils.py
index 1313949..66125d0 100755
--- a/coniii/utils.py
+++ b/coniii/utils.py
@@ -1328,8 +1328,9 @@ def coarse_grain_with_func(X, n_times, sim_func, coarse_func):
     # Combine sets of spins with the largest pairwise correlations
     for coarseix in range(n_times):
         n = coarseX.shape[1]
-        cij = squareform(sim_func(coarseX))
+        cij = squareform(sim_func(coarseX)).astype(float)
         assert cij.shape==(n,n)
+        np.fill_diagonal(cij, -np.inf)  # a column is never paired with itself
         ix = list(range(coarseX.shape[1]))
         
         newClusters = []
-- 
2.43.0


From da62d89ada678761280a0f05bd064456ece896a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:37 +0000
Subject: [PATCH 06/46] fix: define_ising_helper_functions_sym compiled
 fast_sum for the wrong types

---
 coniii/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coniii/utils.py b/coniii/utils.py
index 66125d0..6e2ecc4 100755
--- a/coniii/utils.py
+++ b/coniii/utils.py
@@ -1000,7 +1000,7 @@ def define_ising_helper_functions_sym():
         mch_approximation
     """
 
-    @njit("float64[:](int64[:],float64[:,:])", cache=True)
+    @njit("float64[:](float64[:],int64[:,:])", cache=True)
     def fast_sum(J,s):
         """Helper function for calculating energy in calc_e(). Iterates couplings J."""
         e = np.zeros((s.shape[0]))
-- 
2.43.0


From c9d73f12254c8baf14320d278f2e3a727137244a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:37 +0000
Subject: [PATCH 07/46] fix: pair_corr with exclude_empty and calc_overlap
 overflowed for small integer types

---
 coniii/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/coniii/utils.py b/coniii/utils.py
index 6e2ecc4..5c0a5ab 100755
--- a/coniii/utils.py
+++ b/coniii/utils.py
@@ -107,7 +107,7 @@ def calc_overlap(sample,ignore_zeros=False):
         Instead of normalizing by the number of spins, normalize by the minimum number of
         nonzero spins.
     """
-    overlap = sample.dot(sample.T)
+    overlap = sample.dot(sample.T.astype(float))  # sums of small integer types would overflow
     if ignore_zeros:
         countZeros = np.zeros((len(sample),len(sample),2))
         countZeros[:,:,0] = (sample==0).sum(1)[:,None]
@@ -172,7 +172,8 @@ def pair_corr(X,
     # Calculate pairwise correlations depending on whether or not exclude_empty was set or not.
     if type(weights) is tuple:
         si = X.sum(0) * weights[0]
-        sisj = (X.T.dot(X))[np.triu_indices(X.shape[1],k=1)] * weights[1]
+        # float product since sums of small integer types would overflow
+        sisj = (X.T.dot(X.astype(float)))[np.triu_indices(X.shape[1],k=1)] * weights[1]
     else:
         si = (X*weights[:,None]).sum(0)
         sisj = (X.T.dot(X*weights[:,None]))[np.triu_indices(X.shape[1],k=1)]
-- 
2.43.0


From 3636fc4adf46ac48199b4728865f6bf38c67077c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:01 +0000
Subject: [PATCH 08/46] fix: vec2mat accepted impossible lengths when fields
 are returned separately

---
 coniii/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coniii/utils.py b/coniii/utils.py
index 5c0a5ab..98d39e7 100755
--- a/coniii/utils.py
+++ b/coniii/utils.py
@@ -1388,7 +1388,7 @@ def vec2mat(multipliers, separate_fields=False):
         Fields if separate_fields keyword argument is True.
     """
 
-    n = (np.sqrt(1+8*multipliers.size)-1)//2
+    n = (np.sqrt(1+8*multipliers.size)-1)/2
     assert (n%1)==0, "Must be n fields and (n choose 2) couplings."
     n = int(n)
 
-- 
2.43.0


From 935bee2e4ef46b60ed6b4e4624f9a8035f6117bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:15 +0000
Subject: [PATCH 09/46] fix: models.Ising rejected the matrix of a two spin
 system

---
 coniii/models.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/coniii/models.py b/coniii/models.py
index 3109061..d8f8030 100644
--- a/coniii/models.py
+++ b/coniii/models.py
@@ -149,8 +149,8 @@ class Ising(Model):
             assert multipliers>1, "System size must be greater than 1."
             self.n = multipliers
             multipliers = np.zeros(self.n+self.n*(self.n-1)//2)
-        if len(multipliers)==2:
-            # case where two vectors are given
+        if len(multipliers)==2 and getattr(multipliers, 'shape', None)!=(2,2):
+            # case where two vectors are given (a 2x2 array is a matrix)
             self.n = len(multipliers[0])
             assert self.n*(self.n-1)/2==len(multipliers[1]), "Must be n fields and (n choose 2) couplings."
             multipliers = np.concatenate(multipliers)
-- 
2.43.0


From 9b7b27a54d805abf7b27fbf78e2dc0886dd8242b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:59 +0000
Subject: [PATCH 10/46] fix: Potts equation generator failed for more than ten
 states

---
 coniii/enumerate_potts.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/coniii/enumerate_potts.py b/coniii/enumerate_potts.py
index a51e035..324f69b 100644
--- a/coniii/enumerate_potts.py
+++ b/coniii/enumerate_potts.py
@@ -146,7 +146,7 @@ class PythonFileWriterBase():
             for i in range(self.n):
                 siCoeffs = []
                 for s in allStates:
-                    if s[i]==str(k):
+                    if int(s[i], 36)==k:
                         siCoeffs.append('1')
                     else:
                         siCoeffs.append('0')
@@ -216,7 +216,7 @@ class SpecificFieldGenericCouplings(PythonFileWriterBase):
             for s in xpotts_states(n, k):
                 term = ''
                 for i in range(n):
-                    term += 'h[%d]+'%(int(s[i])*n+i)
+                    term += 'h[%d]+'%(int(s[i], 36)*n+i)
 
                 for counter,(i,j) in enumerate(combinations(range(n),2)):
                     if s[i]==s[j]:
-- 
2.43.0


From 8fdec0b60071b81e20d716dd41a32e659a5e7949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:23 +0000
Subject: [PATCH 11/46] fix: get_nidx used bin_states without importing it

---
 coniii/enumerate.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/coniii/enumerate.py b/coniii/enumerate.py
index 82e2220..eda34b3 100755
--- a/coniii/enumerate.py
+++ b/coniii/enumerate.py
@@ -396,6 +396,7 @@ def get_nidx(k, n):
     if k==n:
         return np.reshape(list(range(n)),(n,1))
     elif k<n:
+        from .utils import bin_states
         allStates = bin_states(n)
         statesix = np.sum(allStates,1)==k
         ix = []
-- 
2.43.0


From 77346c0b74e0fbe1d065162b33ee04343735fc18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:21 +0000
Subject: [PATCH 12/46] fix: C++ samplers read strided or non-double
 multipliers as if they were contiguous doubles

---
 cpp/samplers.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cpp/samplers.cpp b/cpp/samplers.cpp
index 8787239..4ea42fe 100644
--- a/cpp/samplers.cpp
+++ b/cpp/samplers.cpp
@@ -306,7 +306,9 @@ Ising::Ising(int n, np::ndarray new_multipliers, int seed)
 void Ising::readin_multipliers(np::ndarray new_multipliers) {
     int input_size = new_multipliers.shape(0);
     assert (input_size==(n+n*(n-1)/2));
-    double* input_ptr = reinterpret_cast<double*>(new_multipliers.get_data());
+    // contiguous double copy, the given array may have any layout or type
+    np::ndarray input = new_multipliers.astype(np::dtype::get_builtin<double>());
+    double* input_ptr = reinterpret_cast<double*>(input.get_data());
     multipliers = std::vector<double>(input_size);
     for (int i = 0; i < input_size; ++i) {
         multipliers[i] = *(input_ptr + i);
@@ -396,7 +398,9 @@ Potts3::Potts3(int n, np::ndarray new_multipliers, int seed)
 void Potts3::readin_multipliers(np::ndarray new_multipliers) {
     int input_size = new_multipliers.shape(0);
     assert (input_size==(n*3+n*(n-1)/2));
-    double* input_ptr = reinterpret_cast<double*>(new_multipliers.get_data());
+    // contiguous double copy, the given array may have any layout or type
+    np::ndarray input = new_multipliers.astype(np::dtype::get_builtin<double>());
+    double* input_ptr = reinterpret_cast<double*>(input.get_data());
     multipliers = std::vector<double>(input_size);
     for (int i = 0; i < input_size; ++i) {
         multipliers[i] = *(input_ptr + i);
-- 
2.43.0


From d03e17b7682f3a47d851c7d83e3a23baa82d74aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:21 +0000
Subject: [PATCH 13/46] fix: samplers replaced burn_in=0 by n_iters

---
 coniii/samplers.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/coniii/samplers.py b/coniii/samplers.py
index a8c6258..ef90479 100644
--- a/coniii/samplers.py
+++ b/coniii/samplers.py
@@ -1214,7 +1214,7 @@ class Metropolis(Sampler):
             Saved array of energies at each sampling step.
         """
         
-        burn_in = burn_in or n_iters
+        burn_in = n_iters if burn_in is None else burn_in
         assert sample_size>0 and n_iters>-1 and burn_in>-1
         
         bsampler = BoostIsing(self.n, self.theta, int(self.rng.randint(0, 2**31-1)))
@@ -1255,7 +1255,7 @@ class Metropolis(Sampler):
             Saved array of energies at each sampling step.
         """
         
-        burn_in = burn_in or n_iters
+        burn_in = n_iters if burn_in is None else burn_in
         if (initial_sample is None and
             (self._samples is None or len(self._samples)!=sample_size)):
             self._samples = self.random_sample(1)
@@ -1346,7 +1346,7 @@ class Metropolis(Sampler):
             randomly.
         """
         
-        burn_in = burn_in or n_iters
+        burn_in = n_iters if burn_in is None else burn_in
 
         # Parallel sample. Each thread needs to return sample_size/n_cpus samples.
         def f(args, n=self.n, multipliers=self.theta):
@@ -1390,7 +1390,7 @@ class Metropolis(Sampler):
             randomly.
         """
         
-        burn_in = burn_in or n_iters
+        burn_in = n_iters if burn_in is None else burn_in
         n_cpus = mp.cpu_count()
         if (initial_sample is None and
             (self._samples is None or len(self._samples)!=n_cpus)):
@@ -1480,7 +1480,7 @@ class Metropolis(Sampler):
             Energy of each sample.
         """
         
-        burn_in = burn_in or n_iters
+        burn_in = n_iters if burn_in is None else burn_in
         assert sample_size>0 and n_iters>-1 and burn_in>-1
         fixed_subset_ = list(zip(*fixed_subset))
         assert (np.diff(fixed_subset_[0]) > 0).all()
@@ -1840,7 +1840,7 @@ class Potts3(Metropolis):
             randomly.
         """
         
-        burn_in = burn_in or n_iters
+        burn_in = n_iters if burn_in is None else burn_in
         n_cpus = self.nCpus  # alias
         assert n_cpus>=2, "Sampler is not set up for multiprocessing, nCpus<=1."
         assert sample_size>n_cpus, "Parallelization only helps if many samples are generated per thread."
-- 
2.43.0


From 9d03ad45442f525bb9fd117ff1e2c246f7a733fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:21 +0000
Subject: [PATCH 14/46] fix: sequential sampling after parallel sampling took
 the replicas as one state

---
 coniii/samplers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coniii/samplers.py b/coniii/samplers.py
index ef90479..2caa563 100644
--- a/coniii/samplers.py
+++ b/coniii/samplers.py
@@ -1257,7 +1257,7 @@ class Metropolis(Sampler):
         
         burn_in = n_iters if burn_in is None else burn_in
         if (initial_sample is None and
-            (self._samples is None or len(self._samples)!=sample_size)):
+            (self._samples is None or len(self._samples)!=1)):
             self._samples = self.random_sample(1)
         elif not initial_sample is None:
             msg = "Initial sample can only be one state for sequential sampling."
-- 
2.43.0


From 4b158af63b3a28fd5a41b2fe5cad0a2185733513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:21 +0000
Subject: [PATCH 15/46] fix: conditional sampling ignored and overwrote the
 initial sample

---
 coniii/samplers.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/coniii/samplers.py b/coniii/samplers.py
index 2caa563..95aaf65 100644
--- a/coniii/samplers.py
+++ b/coniii/samplers.py
@@ -1568,7 +1568,7 @@ class Metropolis(Sampler):
         if initial_sample is None:
             self.sample = self.rng.choice([-1,1], size=(sample_size, nSubset))
         else:
-            self.sample = initial_sample
+            self.sample = np.array(initial_sample, dtype=int)
         
         # Redefine calc_e to calculate energy and putting back in the fixed spins.
         def cond_calc_e(state, theta):
@@ -1623,7 +1623,7 @@ class Metropolis(Sampler):
         else:
             if not systematic_iter:
                 def loop():
-                    s = self.rng.choice([-1,1], size=nSubset)
+                    s = self.sample[0].copy()
                     E = cond_calc_e(s[None,:], self.theta)
  
                     for j in range(burn_in):
@@ -1640,7 +1640,7 @@ class Metropolis(Sampler):
                         self.E[i] = E
             else:
                 def loop():
-                    s = self.rng.choice([-1,1], size=nSubset)
+                    s = self.sample[0].copy()
                     E = cond_calc_e(s[None,:], self.theta)
  
                     for j in range(burn_in):
-- 
2.43.0


From 1f63acc83a09880dd4fedc9aeec76962d81ffa0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:21 +0000
Subject: [PATCH 16/46] fix: energy history ended with an entry that was never
 filled in

---
 coniii/samplers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coniii/samplers.py b/coniii/samplers.py
index 95aaf65..80700a4 100644
--- a/coniii/samplers.py
+++ b/coniii/samplers.py
@@ -1279,7 +1279,7 @@ class Metropolis(Sampler):
                 E += de
         
         if saveHistory:
-            history = np.zeros(sample_size*n_iters+1)
+            history = np.zeros(sample_size*n_iters)
 
             if systematic_iter:
                 counter = 0
-- 
2.43.0


From 84d026b3a65f7d024487a92df3e67c52e4385b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:21 +0000
Subject: [PATCH 17/46] fix: WolffIsing used the removed alias np.bool

---
 coniii/samplers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coniii/samplers.py b/coniii/samplers.py
index 80700a4..af7ea96 100644
--- a/coniii/samplers.py
+++ b/coniii/samplers.py
@@ -367,7 +367,7 @@ class WolffIsing(Sampler):
         # (1-exp(-2*J))
 
         # Find neighbors but keep only neighbors that have not already been visited.
-        ix = np.zeros((self.n),dtype=np.bool)
+        ix = np.zeros((self.n),dtype=bool)
         ix[alreadyMarked] = True
         ix[site] = True
         neighbors = iterate_neighbors(self.n,ix,self.expdJ[:,site],self.rng.rand(self.n)).tolist()
-- 
2.43.0


From a3c0a68f24099e269eca487657bc558f40b2b054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:39 +0000
Subject: [PATCH 18/46] fix: sequential C++ sampling of the Potts model ran the
 Ising sampler

---
 coniii/samplers.py | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/coniii/samplers.py b/coniii/samplers.py
index af7ea96..f5c4b40 100644
--- a/coniii/samplers.py
+++ b/coniii/samplers.py
@@ -1816,6 +1816,35 @@ class Potts3(Metropolis):
             self.generate_sample = self.generate_sample_py
             self.generate_sample_parallel = self.generate_sample_parallel_py
 
+    def generate_sample_boost(self,
+                               sample_size,
+                               n_iters=1000,
+                               burn_in=None,
+                               systematic_iter=False):
+        """Generate Metropolis samples using C++ and boost.
+
+        Parameters
+        ----------
+        sample_size : int
+            Number of samples.
+        n_iters : int, 1000
+            Number of Metropolis iterations between samples.
+        burn_in : int, None
+            If not set, will be the same value as n_iters.
+        systematic_iter : bool, False
+            If True, iterate through each element of system by increment index by one. 
+        """
+        
+        burn_in = n_iters if burn_in is None else burn_in
+        assert sample_size>0 and n_iters>-1 and burn_in>-1
+        
+        bsampler = BoostPotts3(self.n, self.theta, int(self.rng.randint(0, 2**31-1)))
+        bsampler.generate_sample(sample_size,
+                                 burn_in,
+                                 n_iters,
+                                 systematic_iter)
+        self.sample = bsampler.fetch_sample().astype(int)
+
     def generate_sample_parallel_boost(self,
                                         sample_size,
                                         n_iters=1000,
-- 
2.43.0


From 5c25ac53e22b21efe2c12b8b22853184f7d1264a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:52 +0000
Subject: [PATCH 19/46] fix: compiled helper of WolffIsing used a type numba
 does not accept

---
 coniii/samplers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coniii/samplers.py b/coniii/samplers.py
index f5c4b40..07ae092 100644
--- a/coniii/samplers.py
+++ b/coniii/samplers.py
@@ -395,7 +395,7 @@ def iterate_neighbors(n,ix,expdJ,r):
     """
 
     counter=0
-    neighbors=np.zeros((n), dtype=int)
+    neighbors=np.zeros((n), dtype=np.int64)
     for i in range(n):
         # Don't include neighbors that are already marked.
         # Check against probability as specified in Wolff's paper for forming link.
-- 
2.43.0


From 8226bf818337d35e51d81e3bc67a0e5eb8876228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:51 +0000
Subject: [PATCH 20/46] fix: Pseudo starts each conditional problem of the
 Ising model from the given initial guess

The rows of the guess for spins after the second were permuted: the coupling to
spin 0 sat at the position of the spin itself.
---
 coniii/solvers.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/coniii/solvers.py b/coniii/solvers.py
index dbd407f..d830932 100755
--- a/coniii/solvers.py
+++ b/coniii/solvers.py
@@ -1751,12 +1751,6 @@ class Pseudo(Solver):
         if initial_guess is None:
             initial_guess = np.zeros(self.calc_observables(self.sample[0][None,:]).size)
             
-        # reformat initial_guess for easy looping later
-        initial_guessAsMat = replace_diag(squareform(initial_guess[self.n:]), initial_guess[:self.n])
-        for i in range(1,self.n):
-            tmp = initial_guessAsMat[i,i]
-            initial_guessAsMat[i,i] = initial_guessAsMat[i,0]
-            initial_guessAsMat[i,0] = tmp
         # initialize variables that will be used later 
         obs = [self.calc_observables_r(r, self.sample) for r in range(self.n)]
         soln = []  # list of output from scipy.optimize.minimize for each spin
@@ -1765,7 +1759,7 @@ class Pseudo(Solver):
         # iterate through each spin and solve for parameters for each one
         for r in range(self.n):
             # to use below...
-            multipliersrix = self.get_multipliers_r(r, initial_guess)[1]
+            initial_guessr, multipliersrix = self.get_multipliers_r(r, initial_guess)
             guess = initial_guess.copy()
 
             # params only change the terms relevant to the particular spin being considered
@@ -1777,7 +1771,7 @@ class Pseudo(Solver):
                 dloglikelihood = ( -(1/(1+np.exp(2*E)) * np.exp(2*E))[:,None] * 2*obs[r] ).sum(0)
                 return -loglikelihood, dloglikelihood
         
-            soln.append(minimize(f, initial_guessAsMat[r], jac=True, **solver_kwargs))
+            soln.append(minimize(f, initial_guessr, jac=True, **solver_kwargs))
             thisMultipliers = soln[-1]['x']
             Jmat[r,r] = thisMultipliers[0]
             Jmat[r,np.delete(np.arange(self.n),r)] = thisMultipliers[1:]
-- 
2.43.0


From 4b51f94a32c22b231965060d1f7aa0a0ecc56cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:51 +0000
Subject: [PATCH 21/46] fix: deprecated Ising pseudolikelihood passes the
 Hessian of its objective

The conditional likelihood uses doubled spins; the precomputed products did not.
---
 coniii/solvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coniii/solvers.py b/coniii/solvers.py
index d830932..7f6660f 100755
--- a/coniii/solvers.py
+++ b/coniii/solvers.py
@@ -1993,7 +1993,7 @@ class Pseudo(Solver):
             Jr0 = np.zeros(self.n)
             Jr0[r] = hList[r]
             
-            XRhat = X.copy()
+            XRhat = 2.*X.copy()
             XRhat[:,r] = np.ones(len(X))
             # calculate once and pass to hessian algorithm for speed
             pairCoocRhat = self.pair_cooc_mat(XRhat)
-- 
2.43.0


From 84aa1378cea1d1641804fbbc2d8417c06be12b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:07 +0000
Subject: [PATCH 22/46] fix: pseudoInverseIsing passes the Hessian of its
 objective

The conditional likelihood uses doubled spins; the precomputed products did not.
---
 coniii/pseudo_inverse_ising.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coniii/pseudo_inverse_ising.py b/coniii/pseudo_inverse_ising.py
index 42d72bd..33c4cd9 100755
--- a/coniii/pseudo_inverse_ising.py
+++ b/coniii/pseudo_inverse_ising.py
@@ -61,7 +61,7 @@ def pseudoInverseIsing(samples,minSize=0):
         Jr0[r] = hList[r]
         
         # 12.10.2013
-        samplesRhat = data.copy()
+        samplesRhat = 2.*data.copy()
         samplesRhat[:,r] = scipy.ones(len(data))
         # calculate once and pass to hessian algorithm for speed
         pairCoocRhat = pairCoocMat(samplesRhat)
-- 
2.43.0


From 2ffb727089a4277fbb5750d0140c87db1df253c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:07 +0000
Subject: [PATCH 23/46] fix: pseudo_log_likelihood uses the conditional
 likelihoods of the class

It called an undefined name and gave each conditional likelihood the whole matrix.
---
 coniii/solvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coniii/solvers.py b/coniii/solvers.py
index 7f6660f..663250a 100755
--- a/coniii/solvers.py
+++ b/coniii/solvers.py
@@ -2123,7 +2123,7 @@ class Pseudo(Solver):
             J should be symmetric
         """
 
-        return np.sum([ cond_log_likelihood(r,X,J) for r in range(len(J)) ])
+        return np.sum([ self.cond_log_likelihood(r,X,J[r]) for r in range(len(J)) ])
 #end Pseudo
 
 
-- 
2.43.0


From 782d3b29a2234c7f93cdf438f8472ccdf0cff4aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:33 +0000
Subject: [PATCH 24/46] fix: pseudoLogLikelihood gives each conditional
 likelihood its own row of couplings

---
 coniii/pseudo_inverse_ising.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coniii/pseudo_inverse_ising.py b/coniii/pseudo_inverse_ising.py
index 33c4cd9..4ab0748 100755
--- a/coniii/pseudo_inverse_ising.py
+++ b/coniii/pseudo_inverse_ising.py
@@ -217,7 +217,7 @@ def pseudoLogLikelihood(samples,J,minSize=0):
                 
     (Could probably be made more efficient.)
     """
-    return scipy.sum([ conditionalLogLikelihood(r,samples,J,minSize) \
+    return scipy.sum([ conditionalLogLikelihood(r,samples,J[r],minSize) \
                        for r in range(len(J)) ])
 
 
-- 
2.43.0


From 37a02947ddbcbdaf50e9738495842895541b857c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:52 +0000
Subject: [PATCH 25/46] fix: mch_approximation of the Ising and Potts models
 overflowed for large energy changes

---
 coniii/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/coniii/utils.py b/coniii/utils.py
index 98d39e7..d865e02 100755
--- a/coniii/utils.py
+++ b/coniii/utils.py
@@ -965,6 +965,7 @@ def define_ising_helper_functions():
     def mch_approximation(samples, dlamda):
         """Function for making MCH approximation step for Ising model."""
         dE = calc_e(samples, dlamda)
+        dE -= dE.min()  # weights would overflow for large energy changes
         ZFraction = len(dE) / np.exp(logsumexp(-dE))
         predsisj = pair_corr(samples, weights=np.exp(-dE)/len(dE), concat=True) * ZFraction  
         assert not (np.any(predsisj < -1.00000001) or
@@ -1201,6 +1202,7 @@ def define_potts_helper_functions(k):
         """
 
         dE = calc_e(sample, dlamda)
+        dE -= dE.min()  # weights would overflow for large energy changes
         ZFraction = len(dE) / np.exp(logsumexp(-dE))
         predsisj = (np.exp(-dE[:,None]) / len(dE) * calc_observables(sample)).sum(0) * ZFraction  
         assert not ((predsisj<0).any() or
-- 
2.43.0


From 490b13f04042f0accb218ca5e4dcbe1a00fc4cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:19 +0000
Subject: [PATCH 26/46] fix: sparse solvers failed for a single constrained
 parameter

---
 coniii/solvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coniii/solvers.py b/coniii/solvers.py
index 663250a..01d221f 100755
--- a/coniii/solvers.py
+++ b/coniii/solvers.py
@@ -120,7 +120,7 @@ class Solver():
         for i, ix in enumerate(self.parameterIx[1:]):
             insertionIx.extend([i+1] * (ix-self.parameterIx[i]-1))
         if self.parameterIx[-1]<(nParams - 1):
-            insertionIx.extend([i+2] * (nParams - self.parameterIx[-1] - 1))
+            insertionIx.extend([self.parameterIx.size] * (nParams - self.parameterIx[-1] - 1))
 
         #assert np.insert(initial_guess, insertionIx, 0).size==nParams
         self.insertionIx = insertionIx
-- 
2.43.0


From 31af1f96553b14bc6374334c6a6d23f980e15905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:52 +0000
Subject: [PATCH 27/46] fix: sparse solvers could not take their constraints
 from the sample

---
 coniii/solvers.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/coniii/solvers.py b/coniii/solvers.py
index 01d221f..50da318 100755
--- a/coniii/solvers.py
+++ b/coniii/solvers.py
@@ -402,8 +402,8 @@ class SparseEnumerate(Solver):
             assert initial_guess.size==self.parameterIx.size
         else: initial_guess = np.zeros(self.parameterIx.size)
         if constraints is None:
-            constraints = self.constraints
-            assert not constraints is None and constraints.size==self.parameterIx.size
+            assert not self.constraints is None
+            constraints = self.constraints[self.parameterIx]
         
         # default solver routine
         if use_root:
@@ -1189,8 +1189,8 @@ class SparseMCH(Solver):
             assert initial_guess.size==self.parameterIx.size
         else: initial_guess = np.zeros(self.parameterIx.size)
         if constraints is None:
-            constraints = self.constraints
-            assert not constraints is None and constraints.size==self.parameterIx.size
+            assert not self.constraints is None
+            constraints = self.constraints[self.parameterIx]
 
 
         # set up for solution
-- 
2.43.0


From 6f0f71f8f5c5d5f23295edcb24c764d927e43e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:52 +0000
Subject: [PATCH 28/46] fix: Enumerate.solve needed a sample even when given
 constraints

---
 coniii/solvers.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/coniii/solvers.py b/coniii/solvers.py
index 50da318..5e87753 100755
--- a/coniii/solvers.py
+++ b/coniii/solvers.py
@@ -262,12 +262,12 @@ class Enumerate(Solver):
             Output from scipy.optimize.root.
         """
         
-        if not initial_guess is None:
-            assert initial_guess.size==self.constraints.size
-        else: initial_guess = np.zeros(self.constraints.size)
         if constraints is None:
             constraints = self.constraints
             assert not constraints is None
+        if not initial_guess is None:
+            assert initial_guess.size==constraints.size
+        else: initial_guess = np.zeros(constraints.size)
         
         # default solver routine
         if use_root:
-- 
2.43.0


From 7095fa11cd6af802bf14ce5f0180acdbcaf13afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:52 +0000
Subject: [PATCH 29/46] fix: logp of a single state raised UnboundLocalError

---
 coniii/solvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coniii/solvers.py b/coniii/solvers.py
index 5e87753..8c2fdf5 100755
--- a/coniii/solvers.py
+++ b/coniii/solvers.py
@@ -162,7 +162,7 @@ class Solver():
             assert isinstance(sample, np.ndarray)
             assert set(np.unique(sample)) <= frozenset((-1,0,1))
         if sample.ndim==1:
-            sample = s[None,:]
+            sample = sample[None,:]
 
         # only iterate over unique states in sample
         us, uix = np.unique(sample, axis=0, return_inverse=True)
-- 
2.43.0


From b7a22ca1c81acb86a807c8cabed080e5a2e256f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:20 +0000
Subject: [PATCH 30/46] fix: MPF discarded the adj and calc_de functions it was
 given

---
 coniii/solvers.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/coniii/solvers.py b/coniii/solvers.py
index 8c2fdf5..3804318 100755
--- a/coniii/solvers.py
+++ b/coniii/solvers.py
@@ -491,9 +491,8 @@ class MPF(Solver):
         self.basic_setup(sample, model, calc_observables, iprint, model_kwargs=default_model_kwargs)
         if adj is None:
             from .utils import adj
-            self.adj = adj
-        if calc_de is None:
-            self.calc_de = calc_de  # imported from utils.py
+        self.adj = adj
+        self.calc_de = calc_de
         
     @staticmethod
     def worker_objective_task( s, Xcount, adjacentStates, params, calc_e ):
-- 
2.43.0


From f4a8e608a3bd19b22002a13458c5fb2422fca5ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:20 +0000
Subject: [PATCH 31/46] fix: MPF.list_adjacent_states with all_connected=False
 used an undefined name

---
 coniii/solvers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/coniii/solvers.py b/coniii/solvers.py
index 3804318..da129dc 100755
--- a/coniii/solvers.py
+++ b/coniii/solvers.py
@@ -639,11 +639,11 @@ class MPF(Solver):
             adjacentStates.append( self.adj(s).astype(int) )
             # Remove states already in data
             if not all_connected:
-                ix = np.zeros((s.size))==0
+                ix = np.zeros((len(adjacentStates[-1])))==0
                 for i,t in enumerate(adjacentStates[-1]):
                     if np.any(np.all(t[None,:]==Xuniq,1)):
                         ix[i] = False
-                if np.sum(ix)==X.shape[1]:
+                if not ix.any():
                     raise Exception("This data set does not satisfy MPF assumption that each \
                                     state be connected to at least one non-data state (?)")
                 adjacentStates[-1] = adjacentStates[-1][ix]
-- 
2.43.0


From 0867a5ca0348da693202af46ff6f7f39555a7dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:34 +0000
Subject: [PATCH 32/46] fix: gradient of MPF.logK was shifted by the log of the
 number of samples

---
 coniii/solvers.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/coniii/solvers.py b/coniii/solvers.py
index da129dc..2eba26d 100755
--- a/coniii/solvers.py
+++ b/coniii/solvers.py
@@ -615,10 +615,7 @@ class MPF(Solver):
             power -= power.max()
             objGrad[i] = ((gradcoef*np.exp(power)*Xcount[:,None]).sum() /
                           (np.exp(power)*Xcount[:,None]).sum())
-        objGrad -= np.log(Xcount.sum())
         
-        if objGrad.size==1:
-            raise Exception("")
         return obj, objGrad
 
     def list_adjacent_states(self, Xuniq, all_connected):
-- 
2.43.0


From 30fd5fe55b0da684c714b922768d566b8dd02e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:34 +0000
Subject: [PATCH 33/46] fix: MPF.logK could not handle states with different
 numbers of neighbors

---
 coniii/solvers.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/coniii/solvers.py b/coniii/solvers.py
index 2eba26d..5a39d5b 100755
--- a/coniii/solvers.py
+++ b/coniii/solvers.py
@@ -597,9 +597,10 @@ class MPF(Solver):
 
         obj = 0.
         objGrad = np.zeros((params.size))
-        power = np.zeros((len(Xuniq), len(adjacentStates[0])))  # energy differences
+        # energy differences, -inf where a state has fewer neighbors than others
+        power = np.full((len(Xuniq), max(map(len, adjacentStates))), -np.inf)
         for i,s in enumerate(Xuniq):
-            power[i,:] = .5*( self.model.calc_e(s[None,:], params) -
+            power[i,:len(adjacentStates[i])] = .5*( self.model.calc_e(s[None,:], params) -
                               self.model.calc_e(adjacentStates[i], params) )
             
         obj = logsumexp( power + np.log(Xcount)[:,None] -np.log(Xcount.sum()) )
@@ -609,9 +610,9 @@ class MPF(Solver):
 
         # coefficients that come out from taking derivative of exp
         for i in range(params.size):
-            gradcoef = np.zeros((len(Xuniq), len(adjacentStates[0])))  
+            gradcoef = np.zeros(power.shape)
             for j,s in enumerate(Xuniq): 
-                gradcoef[j,:] = .5 * ( self.calc_de(s[None,:],i) - self.calc_de(adjacentStates[j],i) )
+                gradcoef[j,:len(adjacentStates[j])] = .5 * ( self.calc_de(s[None,:],i) - self.calc_de(adjacentStates[j],i) )
             power -= power.max()
             objGrad[i] = ((gradcoef*np.exp(power)*Xcount[:,None]).sum() /
                           (np.exp(power)*Xcount[:,None]).sum())
-- 
2.43.0


From 11ffe1a6efd0f5d3a2f5380ba6bfbd0dfa06aee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:35 +0000
Subject: [PATCH 34/46] fix: entropies of clusters whose indices are not sorted
 ignored the correlations

---
 coniii/mean_field_ising.py | 3 +--
 coniii/solvers.py          | 4 +++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/coniii/mean_field_ising.py b/coniii/mean_field_ising.py
index 11e3c4a..baa7513 100755
--- a/coniii/mean_field_ising.py
+++ b/coniii/mean_field_ising.py
@@ -160,9 +160,8 @@ def SmeanField(cluster,coocMat,meanFieldPriorLmbda=0.,
                               even when meanFieldPriorLmbda = 0.
     """
     
-    coocMatCluster = coocCluster(coocMat,cluster)
     # in case we're given an upper-triangular coocMat:
-    coocMatCluster = symmetrizeUsingUpper(coocMatCluster)
+    coocMatCluster = coocCluster(symmetrizeUsingUpper(coocMat),cluster)
     
     outer = scipy.outer
     N = len(cluster)
diff --git a/coniii/solvers.py b/coniii/solvers.py
index 5a39d5b..4f00e1f 100755
--- a/coniii/solvers.py
+++ b/coniii/solvers.py
@@ -2211,7 +2211,9 @@ class ClusterExpansion(Solver):
                 - log( 1.-pi-pj+pij )
             J = np.array( [ [ Jii, 0.5*Jij ], [ 0.5*Jij, Jjj ] ] )
         else:
-            coocMatCluster = mean_field_ising.coocCluster(coocMat,cluster)
+            # in case we're given an upper-triangular coocMat:
+            coocMatCluster = mean_field_ising.coocCluster(
+                mean_field_ising.symmetrizeUsingUpper(coocMat), cluster)
             Jinit = None # <--- potential for speed-up here
             J = mean_field_ising.findJmatrixAnalytic_CoocMat(coocMatCluster,
                                                              Jinit=Jinit,
-- 
2.43.0


From 57c97fac76b9357503c19d0a11b61b8010039d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:35 +0000
Subject: [PATCH 35/46] fix: analytic cluster entropies used an undefined name
 and swapped unsorted pairs

---
 coniii/solvers.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/coniii/solvers.py b/coniii/solvers.py
index 4f00e1f..b556f6b 100755
--- a/coniii/solvers.py
+++ b/coniii/solvers.py
@@ -2196,19 +2196,16 @@ class ClusterExpansion(Solver):
             raise Exception
         elif (len(cluster) == 1) and useAnalyticResults:
             p = coocMat[cluster[0],cluster[0]]
-            J = np.array( [ [ -log( p / (1.-p) ) ] ] )
+            J = np.array( [ [ -np.log( p / (1.-p) ) ] ] )
         elif (len(cluster) == 2) and useAnalyticResults:
-            i = min(cluster[0],cluster[1])
-            j = max(cluster[0],cluster[1])
+            i, j = cluster
             pi = coocMat[i,i]
             pj = coocMat[j,j]
-            pij = coocMat[i,j]
-            Jii1 = -log( pi / (1.-pi) )
-            Jjj1 = -log( pj / (1.-pj) )
-            Jii = -log( (pi - pij)/(1.-pi-pj+pij) )
-            Jjj = -log( (pj - pij)/(1.-pi-pj+pij) )
-            Jij = - log( pij ) + log( pi - pij ) + log( pj - pij )    \
-                - log( 1.-pi-pj+pij )
+            pij = coocMat[min(i,j),max(i,j)]
+            Jii = -np.log( (pi - pij)/(1.-pi-pj+pij) )
+            Jjj = -np.log( (pj - pij)/(1.-pi-pj+pij) )
+            Jij = - np.log( pij ) + np.log( pi - pij ) + np.log( pj - pij )    \
+                - np.log( 1.-pi-pj+pij )
             J = np.array( [ [ Jii, 0.5*Jij ], [ 0.5*Jij, Jjj ] ] )
         else:
             # in case we're given an upper-triangular coocMat:
-- 
2.43.0


From 2276007bf4cc60e667572b799d7b24d0c2acd290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:35 +0000
Subject: [PATCH 36/46] fix: ClusterExpansion with meanFieldRef used an
 undefined name

---
 coniii/solvers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/coniii/solvers.py b/coniii/solvers.py
index b556f6b..0a0ec42 100755
--- a/coniii/solvers.py
+++ b/coniii/solvers.py
@@ -2326,7 +2326,7 @@ class ClusterExpansion(Solver):
             deltaJcluster -= J0cluster
         elif meanFieldRef:
             # subtract mean field reference entropy
-            S0cluster,J0cluster = SmeanField(cluster,coocMat,
+            S0cluster,J0cluster = mean_field_ising.SmeanField(cluster,coocMat,
                 meanFieldPriorLmbda,numSamples)
             deltaScluster -= S0cluster
             deltaJcluster -= J0cluster
@@ -2484,7 +2484,7 @@ class ClusterExpansion(Solver):
         if independentRef:
             ent, J0 = self.Sindependent(cluster, coocMat)
         elif meanFieldRef:
-            ent, J0 = SmeanField(cluster, coocMat, meanFieldPriorLmbda, numSamples)
+            ent, J0 = mean_field_ising.SmeanField(cluster, coocMat, meanFieldPriorLmbda, numSamples)
         else:
             ent = 0.
             J0 = np.zeros((N,N))
-- 
2.43.0


From 69522340a082dd599529ae941c0bfe7ba07e7cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:35 +0000
Subject: [PATCH 37/46] fix: SmeanField was wrong for correlations with
 degenerate eigenvalues

---
 coniii/mean_field_ising.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coniii/mean_field_ising.py b/coniii/mean_field_ising.py
index baa7513..173cc68 100755
--- a/coniii/mean_field_ising.py
+++ b/coniii/mean_field_ising.py
@@ -186,7 +186,7 @@ def SmeanField(cluster,coocMat,meanFieldPriorLmbda=0.,
             gamma = meanFieldPriorLmbda / numSamples
         else:
             gamma = 0.
-        mq,vq = scipy.linalg.eig(M)
+        mq,vq = scipy.linalg.eigh(M)
         mqhat = 0.5*( mq-gamma +                        \
                 scipy.sqrt((mq-gamma)**2 + 4.*gamma) )
         jq = 1./mqhat #1. - 1./mqhat
-- 
2.43.0


From 79db444cda80ae17a70ba339f97a6f06f83db285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:35 +0000
Subject: [PATCH 38/46] fix: RegularizedMeanField sampled from and returned
 other parameters than those of its mean field

---
 coniii/solvers.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/coniii/solvers.py b/coniii/solvers.py
index 0a0ec42..f4bba07 100755
--- a/coniii/solvers.py
+++ b/coniii/solvers.py
@@ -2652,16 +2652,19 @@ class RegularizedMeanField(Solver):
         freqsList = np.diag(coocMatData)
         pmean = np.mean(freqsList)
         
+        # convert J to {-1,1} basis
+        def to_multipliers(J):
+            return convert_params( -J.diagonal(), squareform(-zero_diag(J))*2, '11', concat=True )
+
         # Generate samples from model (need to translate parameters)
         def samples(J):
            self.model.set_rng(get_rng())
            if min_covariance:
                J = tildeJ2normalJ(J, empiricalFreqs)
            burninDefault = 100*self.n
-           J = J + J.T
-           self.model.set_multipliers(np.concatenate([J.diagonal(), squareform(zero_diag(-J))]))
+           self.model.set_multipliers(to_multipliers(J))
            self.model.generate_sample(burninDefault, 1)
-           return self.model.sample
+           return (self.model.sample+1)/2
 
         # adapted from findJMatrixBruteForce_CoocMat
         def func(meanFieldGammaPrime):
@@ -2711,12 +2714,7 @@ class RegularizedMeanField(Solver):
         J = mean_field_ising.JmeanField(coocMatData,
                                         meanFieldPriorLmbda=meanFieldPriorLmbdaMin,
                                         numSamples=numDataSamples)
-        J = J + J.T
-
-        # convert J to {-1,1} basis
-        h = -J.diagonal()
-        J = -zero_diag(J)
-        self.multipliers = convert_params( h, squareform(J)*2, '11', concat=True )
+        self.multipliers = to_multipliers(J)
 
         return self.multipliers
 
-- 
2.43.0


From 306970c77c61fa5bf1055b7abe777d248580a81b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:01 +0000
Subject: [PATCH 39/46] fix: mean field couplings were symmetric only up to
 rounding, which squareform rejects

---
 coniii/mean_field_ising.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coniii/mean_field_ising.py b/coniii/mean_field_ising.py
index 173cc68..c4361d1 100755
--- a/coniii/mean_field_ising.py
+++ b/coniii/mean_field_ising.py
@@ -214,7 +214,7 @@ def SmeanField(cluster,coocMat,meanFieldPriorLmbda=0.,
     if indTerm:
         hMF -= scipy.log(freqs/(1.-freqs))
     
-    J = replaceDiag( 0.5*JMF, hMF )
+    J = replaceDiag( 0.25*(JMF+JMF.T), hMF )  # exactly symmetric
     
     if alternateEnt:
         ent = analyticEntropy(J)
-- 
2.43.0


From d4b8a0e555fe0d7a328384520bc87de7c17ec1df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:59 +0000
Subject: [PATCH 40/46] fix: temperature and field derivatives of the mean
 field did not belong to its own equation

---
 coniii/mean_field_ising.py | 21 ++++++---------------
 1 file changed, 6 insertions(+), 15 deletions(-)

diff --git a/coniii/mean_field_ising.py b/coniii/mean_field_ising.py
index c4361d1..eea2b45 100755
--- a/coniii/mean_field_ising.py
+++ b/coniii/mean_field_ising.py
@@ -88,34 +88,25 @@ def m(h,J,ell,T):
     
 def avgE(h,J,ell,T):
     mr = m(h,J,ell,T)
-    hloc = (ell-1)*mr*J - h
     
-    return -mr*hloc
+    return mr*(h + (ell-1)*mr*J)
     
 def dmdT(h,J,ell,T):
     mr = m(h,J,ell,T)
-    hloc = (ell-1)*mr*J - h
+    hloc = h + 2*(ell-1)*mr*J
     
-    return hloc/(4.*T**2) / cosh(-hloc/(2.*T))**2 / (1.+(ell-1)*J/(4.*T)*cosh(-hloc/(2.*T))**-2)
+    return hloc/(4.*T**2) / cosh(hloc/(2.*T))**2 / (1.+2*(ell-1)*J/(4.*T)*cosh(hloc/(2.*T))**-2)
     
 def specificHeat(h,J,ell,T):
     mr = m(h,J,ell,T)
-    hloc = (ell-1)*mr*J - h
-    denomFactor = 4.*T/(ell-1)/J * cosh(-hloc/(2.*T))**2
     
-    return hloc*(2*(ell-1)*mr*J - h)
-    """
-      /                      \
-        ( T*(ell-1)*J*                                      \
-             ( 1. + denomFactor ) * \
-             ( 1. + 1./denomFactor ) )
-    """
+    return (h + 2*(ell-1)*mr*J) * dmdT(h,J,ell,T)
 
 def susc(h,J,ell,T):
     mr = m(h,J,ell,T)
-    hloc = (ell-1)*mr*J - h
+    hloc = h + 2*(ell-1)*mr*J
 
-    return 1./(T**2 * (exp(-hloc) + exp(+hloc) + 2.))
+    return 1./(T * (exp(-hloc/T) + exp(+hloc/T) + 2.) + 2*(ell-1)*J)
 
 def coocCluster(coocMat, cluster):
     """Sort coocMat by the cluster indices"""
-- 
2.43.0


From b2a55bb95c1467dd88f0cab38449e2494ef36ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:59 +0000
Subject: [PATCH 41/46] fix: cooccurrence_matrix overflowed for small integer
 types

---
 coniii/mean_field_ising.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coniii/mean_field_ising.py b/coniii/mean_field_ising.py
index eea2b45..dc774c8 100755
--- a/coniii/mean_field_ising.py
+++ b/coniii/mean_field_ising.py
@@ -444,7 +444,7 @@ def cooccurrence_matrix(samples, keep_diag=True):
     ndarray
     """
 
-    mat = samples.T.dot(samples)
+    mat = samples.T.dot(samples.astype(float))  # no overflow of small integer types
     mat = mat*(1 - np.tri(len(mat), k=keep_diag*-1))  # only modify entries above diagonal
     mat /= len(samples)  # mat /= np.sum(mat)
     return mat
-- 
2.43.0


From 7b12c83c2f4b4c2548c626929a4b57a5544e65fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:59 +0000
Subject: [PATCH 42/46] fix: Ising2D failed for fields given as an array or an
 integer

---
 coniii/ising/automaton.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/coniii/ising/automaton.py b/coniii/ising/automaton.py
index 2f959e1..b94f78d 100644
--- a/coniii/ising/automaton.py
+++ b/coniii/ising/automaton.py
@@ -28,10 +28,7 @@ class Ising2D():
         self.dim = dim
         self.lattice = ((np.random.rand(*dim)<.5)*2.-1).astype(np.int8)
         self.J = J
-        if type(h) is float or type(h) is type(int):
-            self.h = np.zeros(dim)+h
-        else:
-            self.h = h or np.zeros(dim)
+        self.h = np.zeros(dim)+h
         self.rng = rng or np.random.RandomState()
 
     def iterate(self, n_iters, systematic=True):
-- 
2.43.0


From 4986759f06292f45761708bf046ba2947e4fd667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:59 +0000
Subject: [PATCH 43/46] fix: coarse_grain failed for lattices that are not
 square

---
 coniii/ising/automaton.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coniii/ising/automaton.py b/coniii/ising/automaton.py
index b94f78d..8ac6bab 100644
--- a/coniii/ising/automaton.py
+++ b/coniii/ising/automaton.py
@@ -126,7 +126,7 @@ def coarse_grain(lattice, factor):
 
     for i in range(factor):
         for j in range(factor):
-            reLattice+=lattice[i::factor,j::factor][:reL,:reL]
+            reLattice+=lattice[i::factor,j::factor][:reL,:reLattice.shape[1]]
     reLattice=np.sign(reLattice)
     # when there is a tie, randomly choose a direction
     reLattice[reLattice==0]=np.random.choice([-1,1], size=(reLattice==0).sum())
-- 
2.43.0


From 79baa4afa0d06387ecec27284f3fd2cc60b9a753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:59 +0000
Subject: [PATCH 44/46] fix: ising.utils.Ising failed for fields and couplings
 given as lists

---
 coniii/ising/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/coniii/ising/utils.py b/coniii/ising/utils.py
index 8bc36c9..1c60b83 100644
--- a/coniii/ising/utils.py
+++ b/coniii/ising/utils.py
@@ -55,12 +55,14 @@ class Ising():
             h = np.zeros(n)+h
         else:
             assert len(h)==n, "Number of fields should be equal to n."
+            h = np.asarray(h)
         if J is None:
             J = np.zeros(n*(n-1)//2)
         elif not hasattr(J, '__len__'):
             J = np.zeros(n*(n-1)//2)+J
         else:
             assert len(J)==(n*(n-1)//2), "Number of couplings should be equal to n choose 2."
+            J = np.asarray(J)
         assert h.ndim==1 and J.ndim==1, "Both h and J must be provided as vectors."
         
         self.n = n
-- 
2.43.0


From 9b7867ad9dc006deacc6b8f2118e03f6ded3740f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:56 +0000
Subject: [PATCH 45/46] fix: check_e_logp imported unique_rows from a package
 that is not a dependency

---
 coniii/samplers.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/coniii/samplers.py b/coniii/samplers.py
index 07ae092..8bfbc71 100644
--- a/coniii/samplers.py
+++ b/coniii/samplers.py
@@ -2427,9 +2427,6 @@ def check_e_logp(sample, calc_e):
     sample
     calc_e
     """
-
-    from misc.utils import unique_rows
-
     uniqueix = unique_rows(sample,return_inverse=True)
     uniqStates = sample[unique_rows(sample)]
 
-- 
2.43.0


From 54db1d266c7387f60e41ce3de8a927344dc1e3bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:42 +0000
Subject: [PATCH 46/46] fix: a Wolff step started at a random site when asked
 to start at site 0

---
 coniii/samplers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/coniii/samplers.py b/coniii/samplers.py
index 8bfbc71..1a45e92 100644
--- a/coniii/samplers.py
+++ b/coniii/samplers.py
@@ -322,7 +322,8 @@ class WolffIsing(Sampler):
         self.expdJ = np.exp(-2*state[:,None]*J*state[None,:])
 
         # Choose random site.
-        initialsite = initialsite or self.rng.randint(n)
+        if initialsite is None:
+            initialsite = self.rng.randint(n)
         cluster = self.build_cluster(state,initialsite)
         
         # Flip cluster?
-- 
2.43.0


From cc976ab3b53c44ad80a8ec82d5a51013db87e68f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:31 +0000
Subject: [PATCH 01/37] fix: HPELM.project wrote rows at the wrong offset when
 istart > 0

---
 hpelm/hp_elm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hpelm/hp_elm.py b/hpelm/hp_elm.py
index 43471b6..d8c8cd6 100755
--- a/hpelm/hp_elm.py
+++ b/hpelm/hp_elm.py
@@ -282,7 +282,7 @@ class HPELM(ELM):
             # process data
             Hb = self.nnet._project(Xb)
             # write data
-            H[start:stop-istart] = Hb
+            H[start-istart:stop-istart] = Hb
 
             # report time
             eta = int(((time()-t0) / (b+1)) * (nb-b-1))
-- 
2.43.0


From 93d7451742f6329da262a057142847729aec7c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:00 +0000
Subject: [PATCH 02/37] fix: SLFNPython symmetrises only the upper triangle of
 HH

A full HH (set by set_corr, read from files or returned by get_corr) had its
upper triangle counted twice below the diagonal, in get_corr and in the
fallback for rank-deficient matrices.
---
 hpelm/nnets/slfn_python.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hpelm/nnets/slfn_python.py b/hpelm/nnets/slfn_python.py
index 8bfdcd0..2e3264e 100644
--- a/hpelm/nnets/slfn_python.py
+++ b/hpelm/nnets/slfn_python.py
@@ -61,7 +61,7 @@ class SLFNPython(SLFN):
         if info > 0:
             print("Covariance matrix is not full rank; solving with SVD (slow)")
             print("This happened because you have duplicated or too many neurons")
-            HH = HH + np.triu(HH, k=1).T
+            HH = np.triu(HH) + np.triu(HH, k=1).T
             B = np.linalg.lstsq(HH, HT)[0]
         return B
 
@@ -69,5 +69,5 @@ class SLFNPython(SLFN):
     def get_corr(self):
         """Return current correlation matrices.
         """
-        HH = self.HH + np.triu(self.HH, k=1).T
+        HH = np.triu(self.HH) + np.triu(self.HH, k=1).T
         return HH, self.HT
-- 
2.43.0


From 978a716ecc3c95e2173df389118d314378f01f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:14 +0000
Subject: [PATCH 03/37] fix: SLFNPython.get_corr returns (None, None) before
 any data, as other solvers do

---
 hpelm/nnets/slfn_python.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hpelm/nnets/slfn_python.py b/hpelm/nnets/slfn_python.py
index 2e3264e..b0ae1c4 100644
--- a/hpelm/nnets/slfn_python.py
+++ b/hpelm/nnets/slfn_python.py
@@ -69,5 +69,7 @@ class SLFNPython(SLFN):
     def get_corr(self):
         """Return current correlation matrices.
         """
+        if self.HH is None:  # no data yet
+            return None, None
         HH = np.triu(self.HH) + np.triu(self.HH, k=1).T
         return HH, self.HT
-- 
2.43.0


From a33e9349a08fc5b1fb68aac5b4819659f4ca24a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:24 +0000
Subject: [PATCH 04/37] fix: add_data with files does not remove the norm from
 the model's own HH

The basic solver returns its internal matrix from get_corr, which lost its
regularisation term when the part was written to a file.
---
 hpelm/hp_elm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hpelm/hp_elm.py b/hpelm/hp_elm.py
index d8c8cd6..0ac7080 100755
--- a/hpelm/hp_elm.py
+++ b/hpelm/hp_elm.py
@@ -166,6 +166,7 @@ class HPELM(ELM):
         # if storing output to disk
         if fHH is not None and fHT is not None:
             HH, HT = self.nnet.get_corr()
+            HH = np.array(HH)  # do not modify matrix of the solver
             HH[np.diag_indices_from(HH)] -= self.nnet.norm  # norm is already included
             _write_fHH(fHH, fHT, HH, HT)
 
@@ -553,6 +554,7 @@ class HPELM(ELM):
         # if storing output to disk
         if fHH is not None and fHT is not None:
             HH, HT = self.nnet.get_corr()
+            HH = np.array(HH)  # do not modify matrix of the solver
             HH[np.diag_indices_from(HH)] -= self.nnet.norm  # norm is already included
             _write_fHH(fHH, fHT, HH, HT)
 
-- 
2.43.0


From f713c4b8d66a3fcea82668b0d564ca46762b6d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:47 +0000
Subject: [PATCH 05/37] fix: make_hdf5 opens text files in a mode that still
 exists

Mode "rU" was removed in Python 3.11, so .txt/.csv files could not be read.
---
 hpelm/modules/hdf5_tools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hpelm/modules/hdf5_tools.py b/hpelm/modules/hdf5_tools.py
index e63152e..6258ee0 100644
--- a/hpelm/modules/hdf5_tools.py
+++ b/hpelm/modules/hdf5_tools.py
@@ -184,7 +184,7 @@ def make_hdf5(data, h5file, dtype=np.float64, delimiter=" ", skiprows=0, comp_le
         # iterative out-of-memory loader for huge .csv/.txt files
         fill = "iter"
         # check data dimensionality
-        with open(data, "rU") as f:
+        with open(data, "r") as f:
             for _ in range(skiprows):
                 f.readline()
             reader = csv.reader(f, delimiter=delimiter)
@@ -211,7 +211,7 @@ def make_hdf5(data, h5file, dtype=np.float64, delimiter=" ", skiprows=0, comp_le
     # write data to hdf5 file
     if fill == "iter":  # iteratively fill the data
         h5data = h5.create_earray(h5.root, "data", a, (0, X.shape[0]), filters=flt)
-        with open(data, "rU") as f:
+        with open(data, "r") as f:
             for _ in range(skiprows):
                 f.readline()
             reader = csv.reader(f, delimiter=delimiter)
-- 
2.43.0


From f92691203895f896ac01dc55f2037fef3dd19fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:58 +0000
Subject: [PATCH 06/37] fix: mrsr fallback for singular matrices uses
 np.linalg.LinAlgError

np.linalg.linalg does not exist in current Numpy, the handler itself failed.
---
 hpelm/modules/mrsr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hpelm/modules/mrsr.py b/hpelm/modules/mrsr.py
index ab3547b..77cc3a8 100755
--- a/hpelm/modules/mrsr.py
+++ b/hpelm/modules/mrsr.py
@@ -97,7 +97,7 @@ def mrsr(X, T, kmax):
         #v3 = XX[i1, :][:, i1]
         try:
             invXX = np.linalg.inv(v3)	   
-        except np.linalg.linalg.LinAlgError:
+        except np.linalg.LinAlgError:
             invXX = np.linalg.pinv(v3)
 
         Wols = np.dot(invXX, XT.take(i1,axis=0))
-- 
2.43.0


From 9504e210c934d1ff940c4ddc1742a19a2686d183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:08 +0000
Subject: [PATCH 07/37] fix: rbf_param takes the scalar out of the 1x1 distance
 matrix

Assigning a 1x1 matrix to a vector element is an error in current Numpy.
---
 hpelm/modules/rbf_param.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hpelm/modules/rbf_param.py b/hpelm/modules/rbf_param.py
index 2124194..c4148d3 100644
--- a/hpelm/modules/rbf_param.py
+++ b/hpelm/modules/rbf_param.py
@@ -39,7 +39,7 @@ def rbf_param(data, k, kind="sqeuclidean"):
         j = ix[i]
         if i == j:
             j += 1
-        dist[i] = cdist(X[i][None, :], X[j][None, :], kind)
+        dist[i] = cdist(X[i][None, :], X[j][None, :], kind)[0, 0]
     m = dist.mean()
     s = dist.std()
 
-- 
2.43.0


From 085b72e03d0c529929f98710870d2e8b3fbe10ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:38 +0000
Subject: [PATCH 08/37] fix: normalize_hdf5 applies the statistics it has
 computed

Without given mean and std the function recorded the statistics, marked the
file as normalised and returned before normalising anything; a second call read
attributes of a closed node. The std given by a caller was modified in place,
and a list was silently damaged.
---
 hpelm/modules/hdf5_tools.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/hpelm/modules/hdf5_tools.py b/hpelm/modules/hdf5_tools.py
index 6258ee0..e7c1c1c 100644
--- a/hpelm/modules/hdf5_tools.py
+++ b/hpelm/modules/hdf5_tools.py
@@ -129,23 +129,23 @@ def normalize_hdf5(h5file, mean=None, std=None, batch=None):
             mean = E_x
             E2_x = E_x**2
             std = (E_x2 - E2_x)**0.5
-            node.attrs.mean = mean
-            node.attrs.std = std
-            h5.close()
-            return mean, std
         else:  # data is already normalized
             print("data was already normalized, returning 'mean', 'std' parameters")
             print("if you want to run normalization anyway, call the function with 'mean' and 'std' params")
+            mean = node.attrs.mean
+            std = node.attrs.std
             h5.close()
-            return node.attrs.mean, node.attrs.std
+            return mean, std
     else:
         msg1 = "Incorrect lenght of a vector of means: %d expected, %d found" % (d, len(mean))
         assert len(mean) == d, msg1
         msg2 = "Incorrect lenght of a vector of standard deviations: %d expected, %d found" % (d, len(std))
         assert len(std) == d, msg2
-        node.attrs.mean = mean
-        node.attrs.std = std
+        mean = np.array(mean)
+        std = np.array(std)  # a copy, it is changed below
     std[std == 0] = 1  # prevent division by zero for std=0
+    node.attrs.mean = mean
+    node.attrs.std = std
 
     print("applying normalization")
     for b in range(nb):
-- 
2.43.0


From 2cedbe6ff9fa975a7a706484f3888f467f485160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:01 +0000
Subject: [PATCH 09/37] fix: check and create shared fHH, fHT files under their
 locks

A process that started while another was creating the file (or after another had
created and filled it) could read an incomplete file or overwrite it with an
empty one, losing the part already merged.
---
 hpelm/modules/hdf5_tools.py | 66 +++++++++++++++++++------------------
 1 file changed, 34 insertions(+), 32 deletions(-)

diff --git a/hpelm/modules/hdf5_tools.py b/hpelm/modules/hdf5_tools.py
index e7c1c1c..6e79a27 100644
--- a/hpelm/modules/hdf5_tools.py
+++ b/hpelm/modules/hdf5_tools.py
@@ -33,40 +33,42 @@ def _prepare_fHH(fHH, fHT, nnet, precision):
         outputs = nnet.outputs
         norm = nnet.norm
 
-        # process fHH
-        if os.path.isfile(fHH):
-            h5 = open_file(fHH, 'r')
-            node = None
-            for node in h5.walk_nodes():
-                pass  # find a node with whatever name
-            try:
-                assert node is not None, f"Matrix in {fHH} does not exist"
-                s0 = node.shape[0]
-                msg = f"Matrix in {fHH} has a wrong shape: ({L}, {L}) expected, ({s0}, {s0}) found"
-                assert node is not None and node.shape[0] == L and node.shape[1] == L, msg
-            except AssertionError:
-                raise  # re-raise same error
-            finally:
-                h5.close()
-        else:
-            make_hdf5(np.eye(L, L, dtype=precision)*norm, fHH, precision)
+        # process fHH, under the lock because another process may be creating or updating it
+        with fasteners.InterProcessLock(fHH + ".lock"):
+            if os.path.isfile(fHH):
+                h5 = open_file(fHH, 'r')
+                node = None
+                for node in h5.walk_nodes():
+                    pass  # find a node with whatever name
+                try:
+                    assert node is not None, f"Matrix in {fHH} does not exist"
+                    s0 = node.shape[0]
+                    msg = f"Matrix in {fHH} has a wrong shape: ({L}, {L}) expected, ({s0}, {s0}) found"
+                    assert node is not None and node.shape[0] == L and node.shape[1] == L, msg
+                except AssertionError:
+                    raise  # re-raise same error
+                finally:
+                    h5.close()
+            else:
+                make_hdf5(np.eye(L, L, dtype=precision)*norm, fHH, precision)
 
         # process fHT
-        if os.path.isfile(fHT):
-            h5 = open_file(fHT, 'r')
-            node = None
-            for node in h5.walk_nodes():
-                pass  # find a node with whatever name
-            try:
-                assert node is not None, f"Matrix in {fHT} does not exist"
-                msg = f"Matrix in {fHT} has a wrong shape: ({L}, {outputs}) expected, ({node.shape[0]}, {node.shape[1]}) found"
-                assert node is not None and node.shape[0] == L and node.shape[1] == outputs, msg
-            except AssertionError:
-                raise  # re-raise same error
-            finally:
-                h5.close()
-        else:
-            make_hdf5((L, outputs), fHT, precision)
+        with fasteners.InterProcessLock(fHT + ".lock"):
+            if os.path.isfile(fHT):
+                h5 = open_file(fHT, 'r')
+                node = None
+                for node in h5.walk_nodes():
+                    pass  # find a node with whatever name
+                try:
+                    assert node is not None, f"Matrix in {fHT} does not exist"
+                    msg = f"Matrix in {fHT} has a wrong shape: ({L}, {outputs}) expected, ({node.shape[0]}, {node.shape[1]}) found"
+                    assert node is not None and node.shape[0] == L and node.shape[1] == outputs, msg
+                except AssertionError:
+                    raise  # re-raise same error
+                finally:
+                    h5.close()
+            else:
+                make_hdf5((L, outputs), fHT, precision)
 
 
 def _write_fHH(fHH, fHT, HH, HT):
-- 
2.43.0


From 9e15a180be09f140e2c5a289c2f15a63532cdcf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:31 +0000
Subject: [PATCH 10/37] fix: compare accelerator names by value

Identity comparison of strings silently chose the default solver for names that
were not the interned literal.
---
 hpelm/elm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hpelm/elm.py b/hpelm/elm.py
index 734df2d..db2e8ac 100755
--- a/hpelm/elm.py
+++ b/hpelm/elm.py
@@ -72,11 +72,11 @@ class ELM(object):
 
         # create SLFN solver to do actual computations
         self.accelerator = accelerator
-        if accelerator is "GPU":
+        if accelerator == "GPU":
             print("Using CUDA GPU acceleration with Scikit-CUDA")
             from .nnets.slfn_skcuda import SLFNSkCUDA
             self.nnet = SLFNSkCUDA(inputs, outputs, precision=self.precision, norm=norm)
-        elif accelerator is "basic":
+        elif accelerator == "basic":
             print("Using slower basic Python solver")
             self.nnet = SLFN(inputs, outputs, precision=self.precision, norm=norm)
         else: # double precision Numpy solver
-- 
2.43.0


From 04bd0ae30ddaf5a86deb154800cfdfe18016661c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:44 +0000
Subject: [PATCH 11/37] fix: loading a model replaces the solver for every
 accelerator

With the "basic" and "GPU" accelerators the loaded neurons were merged into those
the model already had (or did not fit); without an accelerator the model was
loaded into a basic solver instead of the default one.
---
 hpelm/elm.py | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/hpelm/elm.py b/hpelm/elm.py
index db2e8ac..30a6d30 100755
--- a/hpelm/elm.py
+++ b/hpelm/elm.py
@@ -72,15 +72,7 @@ class ELM(object):
 
         # create SLFN solver to do actual computations
         self.accelerator = accelerator
-        if accelerator == "GPU":
-            print("Using CUDA GPU acceleration with Scikit-CUDA")
-            from .nnets.slfn_skcuda import SLFNSkCUDA
-            self.nnet = SLFNSkCUDA(inputs, outputs, precision=self.precision, norm=norm)
-        elif accelerator == "basic":
-            print("Using slower basic Python solver")
-            self.nnet = SLFN(inputs, outputs, precision=self.precision, norm=norm)
-        else: # double precision Numpy solver
-            self.nnet = SLFNPython(inputs, outputs, precision=self.precision, norm=norm)
+        self.nnet = self._create_nnet(inputs, outputs, norm)
 
         # init other stuff
         self.classification = None  # train ELM for classification
@@ -97,6 +89,18 @@ class ELM(object):
         self.tprint = tprint  # time intervals in seconds to report ETA
         self.flist = ("lin", "sigm", "tanh", "rbf_l1", "rbf_l2", "rbf_linf")  # supported neuron types
 
+    def _create_nnet(self, inputs, outputs, norm=None):
+        """Create an empty solver of the kind given by the accelerator."""
+        if self.accelerator == "GPU":
+            print("Using CUDA GPU acceleration with Scikit-CUDA")
+            from .nnets.slfn_skcuda import SLFNSkCUDA
+            return SLFNSkCUDA(inputs, outputs, precision=self.precision, norm=norm)
+        elif self.accelerator == "basic":
+            print("Using slower basic Python solver")
+            return SLFN(inputs, outputs, precision=self.precision, norm=norm)
+        else:  # double precision Numpy solver
+            return SLFNPython(inputs, outputs, precision=self.precision, norm=norm)
+
     def __str__(self):
         s = "ELM with %d inputs and %d outputs\n" % (self.nnet.inputs, self.nnet.outputs)
         s += "Hidden layer neurons: "
@@ -459,8 +463,7 @@ class ELM(object):
         self.wc = m["Weights_WC"]
 
         # create a new solver and load neurons / Beta into it with correct precision
-        if self.accelerator is None:
-            self.nnet = SLFN(inputs, outputs, precision=self.precision)
+        self.nnet = self._create_nnet(inputs, outputs)
         for number, func, W, B in m["neurons"]:
             self.nnet.add_neurons(number, func, W.astype(self.precision), B.astype(self.precision))
         self.nnet.norm = m["norm"]
-- 
2.43.0


From e67d23427d2437a70f24e62ec2da6d04c2214c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:26 +0000
Subject: [PATCH 12/37] fix: weighted classification keeps its weights in model
 structure selection

The selected model was retrained without class weights, cross-validation also
trained its candidates without them and failed if no weights were given.
---
 hpelm/elm.py     | 12 +++++++-----
 hpelm/mss_cv.py  |  6 ++++--
 hpelm/mss_loo.py |  2 +-
 hpelm/mss_v.py   |  2 +-
 4 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/hpelm/elm.py b/hpelm/elm.py
index 30a6d30..ef5cf0e 100755
--- a/hpelm/elm.py
+++ b/hpelm/elm.py
@@ -208,6 +208,12 @@ class ELM(object):
             self.nnet.solve()
         # TODO: Adaptive ELM model for timeseries (someday)
 
+    def _init_wc(self, T):
+        """Find automatic weights of classes from training outputs, if none are given."""
+        if self.classification == "wc" and self.wc is None:
+            ns = T.sum(axis=0).astype(self.precision)  # number of samples in classes
+            self.wc = ns.sum() / ns  # weights of classes
+
     def add_data(self, X, T):
         """Feed new training data (X,T) to ELM model in batches; does not solve ELM itself.
 
@@ -224,11 +230,7 @@ class ELM(object):
         # initialize batch size
         nb = int(np.ceil(float(X.shape[0]) / self.batch))
         wc_vector = None
-
-        # find automatic weights if none are given
-        if self.classification == "wc" and self.wc is None:
-            ns = T.sum(axis=0).astype(self.precision)  # number of samples in classes
-            self.wc = ns.sum() / ns  # weights of classes
+        self._init_wc(T)
 
         for X0, T0 in zip(np.array_split(X, nb, axis=0),
                           np.array_split(T, nb, axis=0)):
diff --git a/hpelm/mss_cv.py b/hpelm/mss_cv.py
index 35f349c..b2bcc80 100644
--- a/hpelm/mss_cv.py
+++ b/hpelm/mss_cv.py
@@ -29,6 +29,8 @@ def train_cv(self, X, T, k):
     L = self.nnet.L
     c = self.nnet.outputs
 
+    self._init_wc(T)  # weights of classes from all data, not from a part of it
+
     idxk = []
     for i in range(k):
         idxk.append(np.arange(N)[i::k])
@@ -46,7 +48,7 @@ def train_cv(self, X, T, k):
         Xts = X[idx_ts]
         Tts = T[idx_ts]
         self.nnet.reset()
-        self.nnet.add_batch(Xtr, Ttr)
+        self.add_data(Xtr, Ttr)
         HH, HT = self.nnet.get_corr()
         Hvl = self.nnet._project(Xvl)
         Hts = self.nnet._project(Xts)
@@ -118,7 +120,7 @@ def train_cv(self, X, T, k):
         err_t += self._error(Tts, Yts) / k
 
     self.nnet._prune(best_L)
-    self.nnet.add_batch(X, T)
+    self.add_data(X, T)  # with class weights
     self.nnet.solve()
 #    print "%d of %d neurons selected with a Cross-Validation" % (len(best_nn), nn)
 #    print "the Cross-Validation test error is %f" % err_ts
diff --git a/hpelm/mss_loo.py b/hpelm/mss_loo.py
index 94c6dfd..102b2ff 100644
--- a/hpelm/mss_loo.py
+++ b/hpelm/mss_loo.py
@@ -89,7 +89,7 @@ def train_loo(self, X, T):
     best_L = rank[:k_opt]
 
     self.nnet._prune(best_L)
-    self.nnet.add_batch(X, T)
+    self.add_data(X, T)  # with class weights
     self.nnet.solve()
 #    print "%d of %d neurons selected with a LOO validation" % (len(best_nn), nn)
 #    if len(best_nn) > nn*0.9:
diff --git a/hpelm/mss_v.py b/hpelm/mss_v.py
index 33b5829..5eec603 100644
--- a/hpelm/mss_v.py
+++ b/hpelm/mss_v.py
@@ -78,7 +78,7 @@ def train_v(self, X, T, Xv, Tv):
     best_L = rank[:k_opt]
 
     self.nnet._prune(best_L)
-    self.nnet.add_batch(X, T)
+    self.add_data(X, T)  # with class weights
     self.nnet.solve()
 #    print "%d of %d neurons selected with a validation set" % (len(best_nn), nn)
 #    if len(best_nn) > nn*0.9:
-- 
2.43.0


From c42297e205698ba9bbbd952a256b28979f5fd824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:38 +0000
Subject: [PATCH 13/37] fix: cross-validation works with fewer than three
 neurons

---
 hpelm/mss_cv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hpelm/mss_cv.py b/hpelm/mss_cv.py
index b2bcc80..b09c6a6 100644
--- a/hpelm/mss_cv.py
+++ b/hpelm/mss_cv.py
@@ -70,7 +70,7 @@ def train_cv(self, X, T, k):
     # halve the interval each time
 
     # initialize intervals
-    iA = 3
+    iA = min(3, L)
     iE = L
     l = iE - iA
     iB = iA + l//4
-- 
2.43.0


From 096629f6c4898f9c189fa8e0554e2e95d982c504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:49 +0000
Subject: [PATCH 14/37] fix: cross-validation returns the test error of the
 selected models

It was computed with all neurons, although the documentation promises the error
of the optimal model.
---
 hpelm/mss_cv.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/hpelm/mss_cv.py b/hpelm/mss_cv.py
index b09c6a6..53dd0f4 100644
--- a/hpelm/mss_cv.py
+++ b/hpelm/mss_cv.py
@@ -112,11 +112,12 @@ def train_cv(self, X, T, k):
     k_opt = [n1 for n1 in [iA, iB, iC, iD, iE] if e[n1] == m][0]  # find minimum index
     best_L = rank[:k_opt]
 
-    # get test error
+    # get test error of the selected models
     err_t = 0
-    for HH, HT, _, _, Hts, Tts, _ in datak:
-        B = self.nnet.solve_corr(HH, HT)
-        Yts = np.dot(Hts, B)
+    for HH, HT, _, _, Hts, Tts, rank in datak:
+        rank1 = rank[:k_opt]
+        B = self.nnet.solve_corr(HH[rank1, :][:, rank1], HT[rank1, :])
+        Yts = np.dot(Hts[:, rank1], B)
         err_t += self._error(Tts, Yts) / k
 
     self.nnet._prune(best_L)
-- 
2.43.0


From f14c8e99923b438476eebf6acb9b9bfb56090f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:03 +0000
Subject: [PATCH 15/37] fix: HPELM weighted classification error with a class
 without samples

The error was NaN because of a division by the zero count of that class.
---
 hpelm/hp_elm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hpelm/hp_elm.py b/hpelm/hp_elm.py
index 0ac7080..128ab94 100755
--- a/hpelm/hp_elm.py
+++ b/hpelm/hp_elm.py
@@ -364,7 +364,7 @@ class HPELM(ELM):
                         err1 = np.not_equal(Yb[idx].argmax(1), i)
                         errc[i] += err1.sum()
                         countc[i] += len(idx)
-            errc = errc / countc  # get mean value
+            errc = errc / np.maximum(countc, 1)  # get mean value, zero for classes without samples
             err = np.sum(errc * self.wc) / np.sum(self.wc)
 
         elif self.classification == "ml":
-- 
2.43.0


From 64cc0f3e9d1e207597de9c99981b8185bf2dba4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:15 +0000
Subject: [PATCH 16/37] fix: neurons with a custom numpy ufunc can be projected

add_neurons accepts and documents them, but every projection failed with a KeyError.
---
 hpelm/nnets/slfn.py        | 9 ++++++++-
 hpelm/nnets/slfn_skcuda.py | 9 ++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/hpelm/nnets/slfn.py b/hpelm/nnets/slfn.py
index 176c2c4..03910c1 100644
--- a/hpelm/nnets/slfn.py
+++ b/hpelm/nnets/slfn.py
@@ -104,6 +104,13 @@ class SLFN(object):
         self.HH = None
         self.HT = None
 
+    def _transform(self, ftype):
+        """Transformation function for a type of neurons, that is a name or a custom <numpy.ufunc>.
+        """
+        if isinstance(ftype, np.ufunc):
+            return lambda X, W, B: ftype(np.dot(X, W) + B)
+        return self.func[ftype]
+
     def _project(self, X):
         """Projects X to H, an auxiliary function that implements a particular projection.
 
@@ -116,7 +123,7 @@ class SLFN(object):
             H (matrix): an SLFN hidden layer representation, size (N * `L`) where 'L' is number of neurons
         """
         assert self.neurons is not None, "ELM has no neurons"
-        return np.hstack([self.func[ftype](X, W, B) for _, ftype, W, B in self.neurons])
+        return np.hstack([self._transform(ftype)(X, W, B) for _, ftype, W, B in self.neurons])
 
     def _predict(self, X):
         """Predict a batch of data. Auxiliary function that implements a particular prediction.
diff --git a/hpelm/nnets/slfn_skcuda.py b/hpelm/nnets/slfn_skcuda.py
index 8f8e267..6e5ac33 100644
--- a/hpelm/nnets/slfn_skcuda.py
+++ b/hpelm/nnets/slfn_skcuda.py
@@ -167,6 +167,13 @@ class SLFNSkCUDA(SLFN):
         self.HH = None
         self.HT = None
 
+    def _transform(self, ftype):
+        """Transformation function for a type of neurons, a custom <numpy.ufunc> is computed on CPU.
+        """
+        if isinstance(ftype, np.ufunc):
+            return lambda devX, devW, devB: gpuarray.to_gpu(ftype(np.dot(devX.get(), devW.get()) + devB.get()))
+        return self.func[ftype]
+
     def _project(self, X, dev=False):
         """Projects X to H, an auxiliary function that implements a particular projection.
 
@@ -185,7 +192,7 @@ class SLFNSkCUDA(SLFN):
         devH = gpuarray.empty((X.shape[0], self.L), dtype=self.precision)
         i = 0
         for nn, ftype, devW, devB in self.neurons:
-            devH[:, i:i+nn] = self.func[ftype](devX, devW, devB)
+            devH[:, i:i+nn] = self._transform(ftype)(devX, devW, devB)
             i += nn
 
         H = devH if dev else devH.get()
-- 
2.43.0


From 01f81edea9eaf1f574bbab67041db0549f9878d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:28 +0000
Subject: [PATCH 17/37] fix: model structure selection options work in lower
 case

"v", "cv" and "loo" were accepted and checked, but silently trained a basic ELM.
---
 hpelm/elm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hpelm/elm.py b/hpelm/elm.py
index ef5cf0e..37e68dd 100755
--- a/hpelm/elm.py
+++ b/hpelm/elm.py
@@ -185,8 +185,8 @@ class ELM(object):
         """
         X, T = self._checkdata(X, T)
         self._train_parse_args(args, kwargs)
+        args = [a.upper() for a in args]  # options are given in any case
 
-        # TODO: test upper case and lower case 'V', ...
         # train ELM with desired model structure selection
         if "V" in args:  # use validation set
             assert "Xv" in kwargs.keys(), "Provide validation dataset (Xv)"
-- 
2.43.0


From faa183f65ca8c50e9e27668de6216910bef173a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:38 +0000
Subject: [PATCH 18/37] fix: upper case classification parameter of ELM

It passed the check but was stored as given, and the model worked as a regression.
---
 hpelm/elm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hpelm/elm.py b/hpelm/elm.py
index 37e68dd..b89d3b0 100755
--- a/hpelm/elm.py
+++ b/hpelm/elm.py
@@ -77,7 +77,7 @@ class ELM(object):
         # init other stuff
         self.classification = None  # train ELM for classification
         if classification.lower() in ("c", "wc", "ml", "mc"):  # allow 'mc'=='ml' for compatibility
-            self.classification = classification.replace("mc", "ml")
+            self.classification = classification.lower().replace("mc", "ml")
         self.wc = None  # weighted classification weights
         if w is not None:
             w = np.array(w)
-- 
2.43.0


From 95fa6c5cc057146bd9f1d5ffbdec1214fb3b6221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:50 +0000
Subject: [PATCH 19/37] fix: numbers of neurons in validation_corr

They could include L+1 because of rounding (e.g. for L=10), which then failed or
selected a model that does not exist; the documented vector of numbers failed.
---
 hpelm/hp_elm.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/hpelm/hp_elm.py b/hpelm/hp_elm.py
index 128ab94..e2996d9 100755
--- a/hpelm/hp_elm.py
+++ b/hpelm/hp_elm.py
@@ -418,8 +418,12 @@ class HPELM(ELM):
         L = self.nnet.L
         classification = self.classification is not None
 
-        Ls = np.logspace(np.log(3), np.log(L), steps, base=np.e, endpoint=True)
-        Ls = np.ceil(Ls).astype(int)
+        if np.ndim(steps) == 0:
+            Ls = np.logspace(np.log(3), np.log(L), steps, base=np.e, endpoint=True)
+            Ls = np.minimum(np.ceil(Ls).astype(int), L)  # rounding errors can give L+1
+        else:
+            Ls = np.array(steps, dtype=int)
+            assert Ls.min() > 0 and Ls.max() <= L, "Numbers of neurons must be between 1 and %d" % L
         Ls = np.unique(Ls)  # numbers of neurons to check
         k = Ls.shape[0]
         errs = np.zeros((k,))  # errors for these numbers of neurons
-- 
2.43.0


From ee2c3f0d3d61cc11786cde1576b8e9a2995987fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:00 +0000
Subject: [PATCH 20/37] fix: predict_async stores predictions in the precision
 of the model, as predict does

---
 hpelm/hp_elm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hpelm/hp_elm.py b/hpelm/hp_elm.py
index e2996d9..df5e38d 100755
--- a/hpelm/hp_elm.py
+++ b/hpelm/hp_elm.py
@@ -575,7 +575,7 @@ class HPELM(ELM):
         icount = min(icount, N - istart)
         nb = int(np.ceil(float(icount) / self.batch))  # number of batches
         # make file to store results
-        make_hdf5((icount, self.nnet.outputs), fY)
+        make_hdf5((icount, self.nnet.outputs), fY, dtype=self.precision)
 
         # start async reader and writer for HDF5 files
         qr_in = mp.Queue()
-- 
2.43.0


From 3afee9b06905cf9df6828604f6c12b854e6613dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:11 +0000
Subject: [PATCH 21/37] fix: asyncronous methods refuse Numpy arrays instead of
 hanging

The reader process failed on its own check, and the parent waited for its data
forever; add_data_async closed unrelated files (or failed) before that.
---
 hpelm/hp_elm.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hpelm/hp_elm.py b/hpelm/hp_elm.py
index df5e38d..d1f0cae 100755
--- a/hpelm/hp_elm.py
+++ b/hpelm/hp_elm.py
@@ -489,6 +489,8 @@ class HPELM(ELM):
         Spawns new processes using Python's `multiprocessing` module, and requires more memory than non-async version.
         """
         # initialize
+        msg = "Asyncronous I/O only supported with HDF5 data files"
+        assert isinstance(fX, string_types) and isinstance(fT, string_types), msg
         assert len(self.nnet.neurons) > 0, "Add neurons to ELM before using it"
         X, T = self._checkdata(fX, fT)
         N = X.shape[0]
@@ -569,6 +571,8 @@ class HPELM(ELM):
         """
         assert len(self.nnet.neurons) > 0, "Add neurons to ELM and train it before using"
         assert self.nnet.B is not None, "Train ELM before predicting"
+        msg = "Asyncronous I/O only supported with HDF5 data files"
+        assert isinstance(fX, string_types) and isinstance(fY, string_types), msg
         X, _ = self._checkdata(fX, None)
         N = X.shape[0]
         # custom range adjustments
-- 
2.43.0


From 1e1b728d5a934fed07cd87a8587a93b22993b639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:22 +0000
Subject: [PATCH 22/37] fix: asyncronous training with istart beyond the data
 does not hang

With a negative number of batches the readers were never told to stop.
---
 hpelm/hp_elm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hpelm/hp_elm.py b/hpelm/hp_elm.py
index d1f0cae..8872dce 100755
--- a/hpelm/hp_elm.py
+++ b/hpelm/hp_elm.py
@@ -497,7 +497,7 @@ class HPELM(ELM):
         # TODO: adapt for GPU solver
         _prepare_fHH(fHH, fHT, self.nnet, self.precision)
         # custom range adjustments
-        icount = min(icount, N - istart)
+        icount = max(0, min(icount, N - istart))
         nb = int(np.ceil(float(icount) / self.batch))
 
         # weighted classification initialization
@@ -576,7 +576,7 @@ class HPELM(ELM):
         X, _ = self._checkdata(fX, None)
         N = X.shape[0]
         # custom range adjustments
-        icount = min(icount, N - istart)
+        icount = max(0, min(icount, N - istart))
         nb = int(np.ceil(float(icount) / self.batch))  # number of batches
         # make file to store results
         make_hdf5((icount, self.nnet.outputs), fY, dtype=self.precision)
-- 
2.43.0


From 1598dc60f65ae3dadb5277ade3e63c25e2f86f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:32 +0000
Subject: [PATCH 23/37] fix: weighted classification errors in validation_corr
 do not depend on the batch

An average of batch errors is not the error of the whole validation set.
---
 hpelm/hp_elm.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/hpelm/hp_elm.py b/hpelm/hp_elm.py
index 8872dce..874d4da 100755
--- a/hpelm/hp_elm.py
+++ b/hpelm/hp_elm.py
@@ -454,6 +454,12 @@ class HPELM(ELM):
                 print("processing batch %d/%d, eta %d:%02d:%02d" % (b+1, nb, eta/3600, (eta % 3600)/60, eta % 60))
                 t = time()
 
+        if self.classification == "wc":  # errors per class cannot be averaged over batches
+            for i in xrange(k):
+                countc = confs[i].sum(axis=1)
+                errc = (countc - np.diag(confs[i])) / np.maximum(countc, 1)
+                errs[i] = np.sum(errc * self.wc) / np.sum(self.wc)
+
         k_opt = np.argmin(errs)
         best_L = Ls[k_opt]
         self.nnet._prune(np.arange(best_L))
-- 
2.43.0


From ae0fa82ea6204e98c61ae2e9c6d9280fddfe29a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:42 +0000
Subject: [PATCH 24/37] fix: batch size given to train() must be positive, as
 in the constructor

A fraction below one passed the check in the constructor and became zero.
---
 hpelm/elm.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/hpelm/elm.py b/hpelm/elm.py
index b89d3b0..1b4ec05 100755
--- a/hpelm/elm.py
+++ b/hpelm/elm.py
@@ -56,9 +56,9 @@ class ELM(object):
                  precision='double', norm=None, tprint=5):
         assert isinstance(inputs, integer_types), "Number of inputs must be integer"
         assert isinstance(outputs, integer_types), "Number of outputs must be integer"
-        assert batch > 0, "Batch should be positive"
-
         self.batch = int(batch)
+        assert self.batch > 0, "Batch should be positive"
+
         self.precision = np.float64
 
         if precision in (np.float32, np.float64):
@@ -149,7 +149,9 @@ class ELM(object):
                 self.classification = None  # reset to regression
 
         if "batch" in kwargs.keys():
-            self.batch = int(kwargs["batch"])
+            batch = int(kwargs["batch"])
+            assert batch > 0, "Batch should be positive"
+            self.batch = batch
 
     def train(self, X, T, *args, **kwargs):
         """Universal training interface for ELM model with model structure selection.
-- 
2.43.0


From b8ad58f53f57c3464efd322d42185480043c2aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:51 +0000
Subject: [PATCH 25/37] fix: no error in the destructor of a model that failed
 to initialize

---
 hpelm/elm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hpelm/elm.py b/hpelm/elm.py
index 1b4ec05..7b6819e 100755
--- a/hpelm/elm.py
+++ b/hpelm/elm.py
@@ -476,7 +476,7 @@ class ELM(object):
 
     def __del__(self):
         # Closes any HDF5 files opened during HPELM usage.
-        for h5 in self.opened_hdf5:
+        for h5 in getattr(self, "opened_hdf5", []):  # may be missing after a failed initialization
             h5.close()
 
     def _error(self, T, Y, R=None):
-- 
2.43.0


From b626f284da9be0201fa9576924dcabf8f72000e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:01 +0000
Subject: [PATCH 26/37] fix: close model files in save and load

---
 hpelm/elm.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hpelm/elm.py b/hpelm/elm.py
index 7b6819e..cc6ae68 100755
--- a/hpelm/elm.py
+++ b/hpelm/elm.py
@@ -405,7 +405,8 @@ class ELM(object):
         assert isinstance(fname, string_types), "Model file name must be a string"
         m = self._get_output_format()
         try:
-            cPickle.dump(m, open(fname, "wb"), -1)
+            with open(fname, "wb") as f:
+                cPickle.dump(m, f, -1)
         except IOError:
             raise IOError("Cannot create a model file at: %s" % fname)
 
@@ -444,7 +445,8 @@ class ELM(object):
         """
         assert isinstance(fname, string_types), "Model file name must be a string"
         try:
-            m = cPickle.load(open(fname, "rb"))
+            with open(fname, "rb") as f:
+                m = cPickle.load(f)
         except IOError:
             raise IOError("Model file not found: %s" % fname)
         self._update_from_output(m)
-- 
2.43.0


From 263a10e3e6b1288411f610e524ebf4b3dc05ecaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:11 +0000
Subject: [PATCH 27/37] fix: model of kmax neurons is scored with its own error

With optimal pruning limited by kmax, the error of the model with all neurons was
taken for the error of the model with kmax best neurons.
---
 hpelm/mss_cv.py  | 3 ++-
 hpelm/mss_loo.py | 3 ++-
 hpelm/mss_v.py   | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/hpelm/mss_cv.py b/hpelm/mss_cv.py
index 53dd0f4..ba2b99f 100644
--- a/hpelm/mss_cv.py
+++ b/hpelm/mss_cv.py
@@ -63,7 +63,8 @@ def train_cv(self, X, T, k):
         Yvl = np.dot(Hvl, B)
         err += self._error(Tvl, Yvl) / k
     penalty = err * 0.01 / L  # penalty is 1% of error at max(L)
-    e[L] = err + L * penalty
+    if len(rank) == self.nnet.L:  # ranking of all neurons, not limited by kmax
+        e[L] = err + L * penalty
 
     # MYOPT function
     # [iA  iB  iC  iD  iE] interval points,
diff --git a/hpelm/mss_loo.py b/hpelm/mss_loo.py
index 102b2ff..b74219a 100644
--- a/hpelm/mss_loo.py
+++ b/hpelm/mss_loo.py
@@ -37,7 +37,8 @@ def train_loo(self, X, T):
     err = self._error(T, Y, R)
 
     penalty = err * 0.01 / L  # penalty is 1% of error at max(L)
-    e[L] = err + L * penalty
+    if len(rank) == self.nnet.L:  # ranking of all neurons, not limited by kmax
+        e[L] = err + L * penalty
 
     # MYOPT function
     # [iA  iB  iC  iD  iE] interval points,
diff --git a/hpelm/mss_v.py b/hpelm/mss_v.py
index 5eec603..86f4b1e 100644
--- a/hpelm/mss_v.py
+++ b/hpelm/mss_v.py
@@ -32,7 +32,8 @@ def train_v(self, X, T, Xv, Tv):
     err = self._error(Tv, Yv)
     # TODO: replace penalty by Akaike-BIC criterion
     penalty = err*0.01 / L  # penalty is 1% of error at max(L)
-    e[L] = err + L*penalty
+    if len(rank) == self.nnet.L:  # ranking of all neurons, not limited by kmax
+        e[L] = err + L*penalty
 
     # MYOPT function
     # [iA  iB  iC  iD  iE] interval points,
-- 
2.43.0


From afeddbe04584138bbf7789937d629a0acc5bf745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:21 +0000
Subject: [PATCH 28/37] fix: mrsr ranks a single regressor

It failed on a minimum of an empty matrix.
---
 hpelm/modules/mrsr.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hpelm/modules/mrsr.py b/hpelm/modules/mrsr.py
index 77cc3a8..3fe3245 100755
--- a/hpelm/modules/mrsr.py
+++ b/hpelm/modules/mrsr.py
@@ -63,6 +63,8 @@ def mrsr(X, T, kmax):
     Xi2   = X.copy(order='F')  # column-contiguous copy of X
     Xi2[:, cind:-1] = Xi2[:, cind+1:];  Xi2   = Xi2[:,:-1]  # delete <cind> col
     Xi1   = X[:,ind].reshape((n,1))  # add 1 column at a time
+    if i2.size == 0:  # a single regressor
+        return i1
 
     XX[np.ix_([ind], [ind])] = np.dot(X[:,ind], X[:,ind])
     
-- 
2.43.0


From ba0d878a37c5593352ec6d8f430848fb186dee82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:31 +0000
Subject: [PATCH 29/37] fix: predict refuses an output matrix with not enough
 rows, as project does

With a batch of one row the extra predictions were silently lost.
---
 hpelm/hp_elm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hpelm/hp_elm.py b/hpelm/hp_elm.py
index 874d4da..8c3475f 100755
--- a/hpelm/hp_elm.py
+++ b/hpelm/hp_elm.py
@@ -213,6 +213,7 @@ class HPELM(ELM):
             Y = np.zeros((icount, self.nnet.outputs), dtype=self.precision)
         else:  # fY is Numpy array
             _, Y = self._checkdata(None, fY)
+            assert Y.shape[0] >= icount, "Numpy matrix fY has not enough rows to store predictions"
 
         t = time()
         t0 = time()
-- 
2.43.0


From 030ef89a012b5c9a0c7e4ed9f867a07dd05b3e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:00 +0000
Subject: [PATCH 30/37] fix: make_hdf5 keeps the row of a compressed text file
 with a single row

---
 hpelm/modules/hdf5_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hpelm/modules/hdf5_tools.py b/hpelm/modules/hdf5_tools.py
index 6e79a27..52263c5 100644
--- a/hpelm/modules/hdf5_tools.py
+++ b/hpelm/modules/hdf5_tools.py
@@ -181,7 +181,7 @@ def make_hdf5(data, h5file, dtype=np.float64, delimiter=" ", skiprows=0, comp_le
     elif isinstance(data, string_types) and data[-3:] in ['npy']:
         X = np.load(data)
     elif isinstance(data, string_types) and data[-3:] in ['.gz', 'bz2']:
-        X = np.loadtxt(data, dtype=dtype, delimiter=delimiter, skiprows=skiprows)
+        X = np.loadtxt(data, dtype=dtype, delimiter=delimiter, skiprows=skiprows, ndmin=2)
     elif isinstance(data, string_types) and data[-3:] in ['txt', 'csv']:
         # iterative out-of-memory loader for huge .csv/.txt files
         fill = "iter"
-- 
2.43.0


From f540b32196e7ac1cf0b33c477e416950c4eb7899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:09 +0000
Subject: [PATCH 31/37] fix: normalize_hdf5 gives constant columns zero
 deviation instead of nan

---
 hpelm/modules/hdf5_tools.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/hpelm/modules/hdf5_tools.py b/hpelm/modules/hdf5_tools.py
index 52263c5..1902a32 100644
--- a/hpelm/modules/hdf5_tools.py
+++ b/hpelm/modules/hdf5_tools.py
@@ -120,17 +120,18 @@ def normalize_hdf5(h5file, mean=None, std=None, batch=None):
     if mean is None or std is None:
         if node.attrs.mean is None:  # data was not normalized before
             print("calculating mean and standard deviation of data")
+            x0 = node[:1].astype(np.float64).sum(axis=0)  # shift, so constant columns have exactly zero deviation
             E_x = np.zeros((d,), dtype=np.float64)
             E_x2 = np.zeros((d,), dtype=np.float64)
             for b in range(nb):
                 start = b*batch
                 step = min(batch, N-start)
-                X1 = node[start: start+step, :].astype(np.float64)
+                X1 = node[start: start+step, :].astype(np.float64) - x0
                 E_x += np.mean(X1, 0) * (1.0*step/N)
                 E_x2 += np.mean(X1**2, 0) * (1.0*step/N)
-            mean = E_x
+            mean = x0 + E_x
             E2_x = E_x**2
-            std = (E_x2 - E2_x)**0.5
+            std = np.maximum(E_x2 - E2_x, 0)**0.5
         else:  # data is already normalized
             print("data was already normalized, returning 'mean', 'std' parameters")
             print("if you want to run normalization anyway, call the function with 'mean' and 'std' params")
-- 
2.43.0


From 7707a1532ca2ab42bbc15dcd5f6482ab03e1228f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:33 +0000
Subject: [PATCH 32/37] fix: ELM.add_data checks data before using it

---
 hpelm/elm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hpelm/elm.py b/hpelm/elm.py
index cc6ae68..c7e6532 100755
--- a/hpelm/elm.py
+++ b/hpelm/elm.py
@@ -229,6 +229,7 @@ class ELM(object):
             X (matrix): input training data
             T (matrix): output training data
         """
+        X, T = self._checkdata(X, T)
         # initialize batch size
         nb = int(np.ceil(float(X.shape[0]) / self.batch))
         wc_vector = None
-- 
2.43.0


From 1ec1a8f525c841fd4fd1ff204c09bd5e70ccaf12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:46 +0000
Subject: [PATCH 33/37] fix: data in HDF5 files must be numerical, as in arrays

---
 hpelm/elm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hpelm/elm.py b/hpelm/elm.py
index c7e6532..c0121f4 100755
--- a/hpelm/elm.py
+++ b/hpelm/elm.py
@@ -568,9 +568,9 @@ class ELM(object):
                     raise IOError("Empty HDF5 file at %s" % X)
             else:
                 # assert isinstance(X, np.ndarray) and
-                assert X.dtype.kind not in "OSU", "X must be a numerical numpy array"
                 if len(X.shape) == 1:
                     X = X.reshape(-1, 1)
+            assert X.dtype.kind not in "OSU", "X must be a numerical numpy array"
             assert len(X.shape) == 2, "X must have 2 dimensions"
             assert X.shape[1] == self.nnet.inputs, "X has wrong dimensionality: expected %d, found %d" % \
                                                    (self.nnet.inputs, X.shape[1])
@@ -591,9 +591,9 @@ class ELM(object):
                     raise IOError("Empty HDF5 file at %s" % X)
             else:
                 # assert isinstance(T, np.ndarray) and
-                assert T.dtype.kind not in "OSU", "T must be a numerical numpy array"
                 if len(T.shape) == 1:
                     T = T.reshape(-1, 1)
+            assert T.dtype.kind not in "OSU", "T must be a numerical numpy array"
             assert len(T.shape) == 2, "T must have 2 dimensions"
 
             assert T.shape[1] == self.nnet.outputs, "T has wrong dimensionality: expected %d, found %d" % \
-- 
2.43.0


From 1849b14924e89edc4f37bc5456d337d5baa68497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:01 +0000
Subject: [PATCH 34/37] fix: class weights must be a vector

---
 hpelm/elm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hpelm/elm.py b/hpelm/elm.py
index c0121f4..7b28242 100755
--- a/hpelm/elm.py
+++ b/hpelm/elm.py
@@ -81,7 +81,7 @@ class ELM(object):
         self.wc = None  # weighted classification weights
         if w is not None:
             w = np.array(w)
-            assert len(w) == outputs, "Number of class weights must be equal to the number of classes"
+            assert w.shape == (outputs,), "Number of class weights must be equal to the number of classes"
             self.wc = w
         self.opened_hdf5 = []  # list of opened HDF5 files, they are closed in ELM descructor
         self.ranking = None
@@ -140,7 +140,7 @@ class ELM(object):
                 self.classification = "wc"
                 if 'w' in kwargs.keys():
                     w = np.array(kwargs['w'])
-                    assert len(w) == self.nnet.outputs, "Number of class weights must be equal to the number of classes"
+                    assert w.shape == (self.nnet.outputs,), "Number of class weights must be equal to the number of classes"
                     self.wc = w
             if a == "ML" or a == "MC":
                 assert self.nnet.outputs > 1, "Classification outputs must have 1 output per class"
-- 
2.43.0


From e084b8f48b67406bd2aa9603a40d5d5c03352187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:12 +0000
Subject: [PATCH 35/37] fix: output weights with more than two dimensions are
 refused

---
 hpelm/nnets/slfn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hpelm/nnets/slfn.py b/hpelm/nnets/slfn.py
index 03910c1..ebd30db 100644
--- a/hpelm/nnets/slfn.py
+++ b/hpelm/nnets/slfn.py
@@ -217,7 +217,7 @@ class SLFN(object):
             B (matrix): output layer weights matrix, size (`L` * `outputs`)
         """
         assert isinstance(B, np.ndarray), "B should be a Numpy ndarray"
-        assert len(B.shape) > 0, "Cannot set empty B"
+        assert len(B.shape) == 2, "B must have 2 dimensions"
         assert B.shape[0] == self.L, "Incorrect first dimension: %d expected, %d found" % (self.L, B.shape[0])
         assert B.shape[1] == self.outputs, "Incorrect output dimension: %d expected, %d found" % (self.outputs, B.shape[1])
         self.B = B.astype(self.precision)
-- 
2.43.0


From db02f050ab0a289398eb5d2607e1f487bb973142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:03 +0000
Subject: [PATCH 36/37] fix: the GPU solver refuses output weights with more
 than two dimensions too

---
 hpelm/nnets/slfn_skcuda.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hpelm/nnets/slfn_skcuda.py b/hpelm/nnets/slfn_skcuda.py
index 6e5ac33..e9fb623 100644
--- a/hpelm/nnets/slfn_skcuda.py
+++ b/hpelm/nnets/slfn_skcuda.py
@@ -311,6 +311,7 @@ class SLFNSkCUDA(SLFN):
         Args:
             B (matrix): output layer weights matrix, size (`L` * `outputs`)
         """
+        assert len(B.shape) == 2, "B must have 2 dimensions"
         assert B.shape[0] == self.L, "Incorrect first dimension: %d expected, %d found" % (self.L, B.shape[0])
         assert B.shape[1] == self.outputs, "Incorrect output dimension: %d expected, %d found" % (self.outputs, B.shape[1])
         self.B = gpuarray.to_gpu(B.astype(self.precision))
-- 
2.43.0


From 9a43b0cb61130db02f1db549d8905d8e8186d71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:34 +0000
Subject: [PATCH 37/37] fix: ELM.error works with HDF5 files, which its data
 check opens

---
 hpelm/elm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hpelm/elm.py b/hpelm/elm.py
index 7b28242..5d7de1f 100755
--- a/hpelm/elm.py
+++ b/hpelm/elm.py
@@ -320,7 +320,7 @@ class ELM(object):
         """
         _, T = self._checkdata(None, T)
         _, Y = self._checkdata(None, Y)
-        return self._error(T, Y)
+        return self._error(T[:], Y[:])  # read HDF5 data to memory
 
     def confusion(self, T, Y):
         """Computes confusion matrix for classification.
-- 
2.43.0


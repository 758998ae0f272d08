From 92e7443c5a31aaee243cfa4cb177e5b9262cc6ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:37 +0000
Subject: [PATCH 01/89] fix: accept float ignore_rows (row count or fraction)
 when making samples from arrays

Chains.ignore_lines is a float, so Chains().loadChains(None, arrays) failed slicing
with a float, and the documented fractional ignore_rows was not supported.
---
 python/getdist/chains.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/python/getdist/chains.py b/python/getdist/chains.py
index 1a8507c..ab0f93b 100644
--- a/python/getdist/chains.py
+++ b/python/getdist/chains.py
@@ -228,6 +228,8 @@ class WeightedSamples:
 
         self.precision = '%.8e'
         self.min_weight_ratio = min_weight_ratio
+        ignore_frac = ignore_rows if 0 < ignore_rows < 1 else 0
+        ignore_rows = int(ignore_rows)
         if filename:
             cols = loadNumpyTxt(filename, skiprows=ignore_rows)
             if not len(cols):
@@ -242,6 +244,8 @@ class WeightedSamples:
             if samples is not None and int(ignore_rows):
                 if print_load_details:
                     print('Removed %s lines as burn in' % ignore_rows)
+        if ignore_frac and self.samples is not None:
+            self.removeBurn(ignore_frac)
         self.label = label
         self.needs_update = True
 
@@ -1374,9 +1378,13 @@ class Chains(WeightedSamples):
             dim = array_dimension(files_or_samples)
             if dim in [1, 2]:
                 self.chains = None
+                ignore_frac = ignore_lines if 0 < ignore_lines < 1 else 0
+                ignore_lines = int(ignore_lines)
                 self.setSamples(slice_or_none(files_or_samples, ignore_lines),
                                 slice_or_none(weights, ignore_lines),
                                 slice_or_none(loglikes, ignore_lines), self.min_weight_ratio)
+                if ignore_frac:
+                    self.removeBurn(ignore_frac)
                 if self.paramNames is None:
                     self.paramNames = ParamNames(default=self.n)
                 nchains = 1
-- 
2.43.0


From 7b146ef681f08b5b2dd7c61211fefba9b804348b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:28:16 +0000
Subject: [PATCH 02/89] fix: only delete parameters that are fixed in all
 chains

Chains.deleteFixedParams looked at the first chain only, so a parameter constant in
the first chain (e.g. one with a single row) but varying in others was dropped.
---
 python/getdist/chains.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/getdist/chains.py b/python/getdist/chains.py
index ab0f93b..20ac00c 100644
--- a/python/getdist/chains.py
+++ b/python/getdist/chains.py
@@ -1502,8 +1502,10 @@ class Chains(WeightedSamples):
             fixed, values = super().deleteFixedParams()
             self.chains = None
         else:
-            fixed, values = self.chains[0].deleteFixedParams()
-            for chain in self.chains[1:]:
+            combined = WeightedSamples(samples=np.vstack([chain.samples for chain in self.chains]),
+                                       min_weight_ratio=-1)
+            fixed, values = combined.deleteFixedParams()
+            for chain in self.chains:
                 chain.changeSamples(np.delete(chain.samples, fixed, 1))
         if hasattr(self, 'ranges'):
             for ix, value in zip(fixed, values):
-- 
2.43.0


From 2bc9920f7e86b7687d47ea1b67943e452e3a7b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:28:16 +0000
Subject: [PATCH 03/89] fix: do not modify caller's weight and loglike arrays
 when reweighting or cooling

---
 python/getdist/chains.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/python/getdist/chains.py b/python/getdist/chains.py
index 20ac00c..26411fa 100644
--- a/python/getdist/chains.py
+++ b/python/getdist/chains.py
@@ -965,9 +965,8 @@ class WeightedSamples:
         """
         scale = np.min(logLikes)
         if self.loglikes is not None:
-            self.loglikes += logLikes
-        self.weights = np.asarray(self.weights, dtype=np.float64)
-        self.weights *= np.exp(-(logLikes - scale))
+            self.loglikes = self.loglikes + logLikes
+        self.weights = self.weights * np.exp(-(logLikes - scale))
         self._weightsChanged()
 
     def cool(self, cool):
@@ -978,8 +977,7 @@ class WeightedSamples:
         """
         MaxL = np.max(self.loglikes)
         newL = self.loglikes * cool
-        self.weights = np.asarray(self.weights, dtype=np.float64)
-        self.weights *= np.exp(-(newL - self.loglikes) - (MaxL * (1 - cool)))
+        self.weights = self.weights * np.exp(-(newL - self.loglikes) - (MaxL * (1 - cool)))
         self.loglikes = newL
         self._weightsChanged()
 
-- 
2.43.0


From 2437b1d203bf65b4608a0305f54bfa556123f859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:28:44 +0000
Subject: [PATCH 04/89] fix: avoid overflow of weights when cooling by a factor
 larger than one

---
 python/getdist/chains.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/getdist/chains.py b/python/getdist/chains.py
index 26411fa..6bdc929 100644
--- a/python/getdist/chains.py
+++ b/python/getdist/chains.py
@@ -975,9 +975,9 @@ class WeightedSamples:
 
         :param cool: cool factor
         """
-        MaxL = np.max(self.loglikes)
         newL = self.loglikes * cool
-        self.weights = self.weights * np.exp(-(newL - self.loglikes) - (MaxL * (1 - cool)))
+        diff = newL - self.loglikes
+        self.weights = self.weights * np.exp(-(diff - np.min(diff)))
         self.loglikes = newL
         self._weightsChanged()
 
-- 
2.43.0


From 76391ba78336f74bcdbf8925c890f6000025c114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:29:40 +0000
Subject: [PATCH 05/89] fix: keep separate chains consistent when combined
 samples are filtered, thinned or trimmed

Chains.filter with an index list, thin and removeBurn left stale chain offsets, and
getSeparateChains failed without log likelihoods, for emptied chains, and dropped
zero weight rows.
---
 python/getdist/chains.py | 48 +++++++++++++++++++++++++++++++++-------
 1 file changed, 40 insertions(+), 8 deletions(-)

diff --git a/python/getdist/chains.py b/python/getdist/chains.py
index 6bdc929..d73513a 100644
--- a/python/getdist/chains.py
+++ b/python/getdist/chains.py
@@ -994,7 +994,7 @@ class WeightedSamples:
 
         :param min_weight_ratio: minimum ratio to max to exclude
         """
-        if self.weights is not None and min_weight_ratio >= 0:
+        if self.weights is not None and len(self.weights) and min_weight_ratio >= 0:
             max_weight = np.max(self.weights)
             min_weight = np.min(self.weights)
             if min_weight < max_weight * min_weight_ratio:
@@ -1140,16 +1140,47 @@ class Chains(WeightedSamples):
         """
 
         if self.chains is None:
-            if self.chain_offsets is not None:
+            if self.chain_offsets is None:
+                super().filter(where)
+            else:
                 # must update chain_offsets to be able to correctly split back into separate filtered chains if needed
-                lens = [0]
-                for off1, off2 in zip(self.chain_offsets[:-1], self.chain_offsets[1:]):
-                    lens.append(np.count_nonzero(where[off1:off2]))
-                self.chain_offsets = np.cumsum(np.array(lens))
-            super().filter(where)
+                indices = np.arange(self.samples.shape[0])[where]
+                super().filter(where)
+                self._updateChainOffsets(indices)
         else:
             raise ValueError('chains are separated, makeSingle first or call filter on individual chains')
 
+    def _updateChainOffsets(self, indices):
+        # update offsets of separate chains when only rows with (sorted) indices are kept
+        if self.chain_offsets is not None:
+            if np.any(np.diff(indices) < 0):
+                self.chain_offsets = None
+            else:
+                self.chain_offsets = np.searchsorted(indices, self.chain_offsets)
+
+    def thin(self, factor: int):
+        """
+        Thin the (combined) samples by the given factor, giving set of samples with unit weight
+
+        :param factor: The factor to thin by
+        """
+        indices = None if self.chain_offsets is None else self.thin_indices(factor)
+        super().thin(factor)
+        if indices is not None:
+            self._updateChainOffsets(indices)
+
+    def removeBurn(self, remove=0.3):
+        """
+        removes burn in from the start of the (combined) samples
+
+        :param remove: fraction of samples to remove, or if int >1, the number of sample rows to remove
+        """
+        if self.chain_offsets is not None:
+            numrows = self.numrows
+            ix = int(remove) if remove >= 1 else int(round(numrows * remove))
+            self._updateChainOffsets(np.arange(min(ix, numrows), numrows))
+        super().removeBurn(remove)
+
     def weighted_thin(self, factor: int):
         """
         Thin the samples by the given factor, giving (in general) non-unit integer weights.
@@ -1474,7 +1505,8 @@ class Chains(WeightedSamples):
         else:
             for off1, off2 in zip(self.chain_offsets[:-1], self.chain_offsets[1:]):
                 chainlist.append(WeightedSamples(samples=self.samples[off1:off2], weights=self.weights[off1:off2],
-                                                 loglikes=self.loglikes[off1:off2]))
+                                                 loglikes=slice_or_none(self.loglikes, off1, off2),
+                                                 min_weight_ratio=-1))
         return chainlist
 
     def removeBurnFraction(self, ignore_frac):
-- 
2.43.0


From 9018ee2642582db91497ccaf39fcf974eea7d190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:33 +0000
Subject: [PATCH 06/89] fix: likelihood statistics when the best-fit sample has
 most of the weight

The ND confidence region was then empty, so that taking its minimum raised ValueError
(already on creating an MCSamples instance).
---
 python/getdist/mcsamples.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/getdist/mcsamples.py b/python/getdist/mcsamples.py
index 78da13a..ec8f7fb 100644
--- a/python/getdist/mcsamples.py
+++ b/python/getdist/mcsamples.py
@@ -2025,7 +2025,8 @@ class MCSamples(Chains):
         # get N-dimensional confidence region
         indexes = self.loglikes.argsort()
         cumsum = np.cumsum(self.weights[indexes])
-        m.ND_cont1, m.ND_cont2 = np.searchsorted(cumsum, self.norm * self.contours[0:2])
+        # always include at least the best-fit sample (which may itself have most of the weight)
+        m.ND_cont1, m.ND_cont2 = np.maximum(1, np.searchsorted(cumsum, self.norm * self.contours[0:2]))
         for j, par in enumerate(self.paramNames.names):
             region1 = self.samples[indexes[:m.ND_cont1], j]
             region2 = self.samples[indexes[:m.ND_cont2], j]
-- 
2.43.0


From db157510242ebbef7464bf5ba72fd9362e27dfee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:35:41 +0000
Subject: [PATCH 07/89] fix: update statistics before reporting them if samples
 or ranges have changed

getMargeStats, getLikeStats, getCovMat, getConvergeTests etc. returned results for the
old samples (or failed) after filter, reweighting, adding parameters or setRanges.
---
 python/getdist/mcsamples.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/python/getdist/mcsamples.py b/python/getdist/mcsamples.py
index ec8f7fb..3dcad48 100644
--- a/python/getdist/mcsamples.py
+++ b/python/getdist/mcsamples.py
@@ -524,6 +524,8 @@ class MCSamples(Chains):
         :param random_state: random seed or Generator
         :return: numpy array of selected weight-1 samples if no filename
         """
+        if self.needs_update:
+            self.updateBaseStatistics()
         if single_thin is None:
             single_thin = max(1, self.norm / self.max_mult / self.max_scatter_points)
         random_state = np.random.default_rng(random_state)
@@ -579,7 +581,7 @@ class MCSamples(Chains):
         :return: A :class:`~.covmat.CovMat` object holding the covariance
         """
         nparamNonDerived = self.paramNames.numNonDerived()
-        return covmat.CovMat(matrix=self.fullcov[:nparamNonDerived, :nparamNonDerived],
+        return covmat.CovMat(matrix=self.getCov(nparamNonDerived),
                              paramNames=self.paramNames.list()[:nparamNonDerived])
 
     def writeCovMatrix(self, filename=None):
@@ -633,6 +635,8 @@ class MCSamples(Chains):
         :param n_best_only: return just the short summary constraint for the tightest n_best_only constraints
         :return: a string description of the output of the PCA
         """
+        if self.needs_update:
+            self.updateBaseStatistics()
         logging.info('Doing PCA for %s parameters', len(params))
         if len(conditional_params):
             logging.info('conditional %u fixed parameters', len(conditional_params))
@@ -816,6 +820,8 @@ class MCSamples(Chains):
 
         :return: The summary text as a string.
         """
+        if self.needs_update:
+            self.updateBaseStatistics()
         lines = 'using %s rows, %s parameters; mean weight %s, tot weight %s\n' % (
             self.numrows, self.paramNames.numParams(), self.mean_mult, self.norm)
         if self.indep_thin != 0:
@@ -845,6 +851,8 @@ class MCSamples(Chains):
         :param feedback: If set to True, Prints the output as well as returning it.
         :return: text giving the output of the tests
         """
+        if self.needs_update:
+            self.updateBaseStatistics()
         lines = ''
         nparam = self.n
 
@@ -2075,6 +2083,8 @@ class MCSamples(Chains):
         :param name: parameter name
         :return: The upper limit if name exists, None otherwise.
         """
+        if self.needs_update and self.samples is not None:
+            self.updateBaseStatistics()
         par = self.paramNames.parWithName(name)
         if par:
             return getattr(par, 'limmax', None)
@@ -2087,6 +2097,8 @@ class MCSamples(Chains):
         :param name: parameter name
         :return: The lower limit if name exists, None otherwise.
         """
+        if self.needs_update and self.samples is not None:
+            self.updateBaseStatistics()
         par = self.paramNames.parWithName(name)
         if par:
             return getattr(par, 'limmin', None)
@@ -2132,6 +2144,8 @@ class MCSamples(Chains):
                  result.names[i].ND_limit_top, result.names[i].ND_limit_bot, and best-fit sample value
                  in result.names[i].bestfit_sample
         """
+        if self.needs_update:
+            self.updateBaseStatistics()
         return self.likeStats or self._setLikeStats()
 
     def getTable(self, columns=1, include_bestfit=False, **kwargs):
@@ -2204,6 +2218,8 @@ class MCSamples(Chains):
         :param max_frac_twotail: optional override for self.max_frac_twotail
         :param meanlikes: include mean likelihoods
         """
+        if self.needs_update:
+            self.updateBaseStatistics()
         if self.done_1Dbins:
             return
 
@@ -2294,7 +2310,7 @@ class MCSamples(Chains):
         try_t = 1e5
         x, y = 0, 0
         cust2DPlots = []
-        correlationMatrix = self.correlationMatrix
+        correlationMatrix = self.getCorrelationMatrix()
         for _ in range(num_plots):
             try_b = -1e5
             for ix1 in range(nparam):
-- 
2.43.0


From dd77d53bbfa995c33ac54b3455fc6413f44393da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:43:19 +0000
Subject: [PATCH 08/89] fix: leave samples unchanged if one of several chains
 cannot be thinned by weight

---
 python/getdist/chains.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/python/getdist/chains.py b/python/getdist/chains.py
index d73513a..ecb7c54 100644
--- a/python/getdist/chains.py
+++ b/python/getdist/chains.py
@@ -1192,8 +1192,11 @@ class Chains(WeightedSamples):
             return super().weighted_thin(factor)
         has_chains = self.chains
         chains = self.getSeparateChains()
-        for chain in chains:
-            chain.weighted_thin(factor)
+        # get all the thinned points first, so nothing is changed if one of the chains cannot be thinned
+        thinned = [self.thin_indices_and_weights(factor, chain.weights) for chain in chains]
+        for chain, (unique, counts) in zip(chains, thinned):
+            chain.setSamples(chain.samples[unique, :], loglikes=None if chain.loglikes is None else chain.loglikes[unique],
+                             weights=counts, min_weight_ratio=-1)
         self.chains = chains
         if not has_chains:
             self.makeSingle()
-- 
2.43.0


From df7684e0e5510b6bc9f43ded34e263a2b3d96193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:03 +0000
Subject: [PATCH 09/89] fix: find chain files in current directory, in chain
 order, and search roots with leading directories

---
 python/getdist/chains.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/python/getdist/chains.py b/python/getdist/chains.py
index ecb7c54..cd98750 100644
--- a/python/getdist/chains.py
+++ b/python/getdist/chains.py
@@ -98,18 +98,20 @@ def chainFiles(root, chain_indices=None, ext='.txt', separator="_",
         basename = os.path.basename(root)
         reg_exp = re.compile(re.escape(basename) + '(' + re.escape(separator) + '(?P<num>[0-9]+))?' + re.escape(ext))
     files = []
-    for f in os.listdir(folder):
+    for f in os.listdir(folder or os.curdir):
         match = reg_exp.fullmatch(f)
         if match:
             index = int(match.group("num") or 0)
             if (chain_indices is None or index in chain_indices) \
                     and (chain_exclude is None or index not in chain_exclude) \
                     and index >= first_chain and (last_chain < 0 or index <= last_chain):
-                files.append(os.path.join(folder, f))
-    return files
+                files.append((index, os.path.join(folder, f)))
+    return [f for _, f in sorted(files)]
 
 
 def hasChainFiles(file_root, ext='.txt'):
+    if not os.path.isdir(os.path.dirname(file_root) or os.curdir):
+        return False
     return any(chainFiles(file_root, ext=ext, separator=sep, last_chain=1) for sep in ['_', '.'])
 
 
-- 
2.43.0


From 4d408daef3dcfd3521b992955049e3b3d09065af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:03 +0000
Subject: [PATCH 10/89] fix: list chains of relative directories, and give all
 chains of same name in a directory tree unique names

---
 python/getdist/chain_grid.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/python/getdist/chain_grid.py b/python/getdist/chain_grid.py
index cba5cd1..e06773a 100644
--- a/python/getdist/chain_grid.py
+++ b/python/getdist/chain_grid.py
@@ -16,12 +16,12 @@ def get_chain_root_files(rootdir):
     :return:  The root names
     """
     from getdist.chains import hasChainFiles
-    pattern = os.path.join(rootdir, '*.paramnames')
+    pattern = os.path.join(glob.escape(rootdir), '*.paramnames')
     files = [os.path.splitext(f)[0] for f in glob.glob(pattern)]
     ending = 'updated.yaml'
-    pattern = os.path.join(rootdir, "*" + ending)
+    pattern = os.path.join(glob.escape(rootdir), "*" + ending)
     files += [f[:-len(ending)].rstrip("_.") for f in glob.glob(pattern)]
-    files = [f for f in files if hasChainFiles(os.path.join(rootdir, f))]
+    files = [f for f in files if hasChainFiles(f)]
     files.sort()
     return files
 
@@ -100,7 +100,7 @@ class ChainDirGrid:
             if len(self.roots[root]) > 1:
                 paths = [item.chainRoot.split(os.sep) for item in self.roots[root]]
                 i = -2
-                while all(s[i] == paths[0][i] for s in paths[1:]):
+                while len({tuple(s[i:]) for s in paths}) < len(paths):
                     i -= 1
                 for parts, item in zip(paths, self.roots[root]):
                     item.name = '/'.join(parts[i:])
-- 
2.43.0


From c98daf091eb14f12a5870bf9c72e8b549fea88ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:58 +0000
Subject: [PATCH 11/89] fix: name chains in directory tree relative to its
 base, and agree with their path

---
 python/getdist/chain_grid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/getdist/chain_grid.py b/python/getdist/chain_grid.py
index e06773a..d0752bd 100644
--- a/python/getdist/chain_grid.py
+++ b/python/getdist/chain_grid.py
@@ -98,13 +98,13 @@ class ChainDirGrid:
             normed_name = self.normed_name(root)
             self._sorted_names[normed_name] = self._sorted_names.get(normed_name, []) + self.roots[root]
             if len(self.roots[root]) > 1:
-                paths = [item.chainRoot.split(os.sep) for item in self.roots[root]]
+                paths = [os.path.relpath(item.chainRoot, self.batchPath).split(os.sep) for item in self.roots[root]]
                 i = -2
                 while len({tuple(s[i:]) for s in paths}) < len(paths):
                     i -= 1
                 for parts, item in zip(paths, self.roots[root]):
                     item.name = '/'.join(parts[i:])
-                    item.chainPath = os.sep.join(parts[:i])
+                    item.chainPath = item.chainRoot[:-len(item.name) - 1]
                     self.roots[item.name] = item
                 self.roots.pop(root)
             else:
-- 
2.43.0


From e3c51e94df8079ede7e7afd5b39f40efc50b9aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:16 +0000
Subject: [PATCH 12/89] fix: use cached samples only if made from the same
 files, settings and burn-in status

---
 python/getdist/mcsamples.py | 40 +++++++++++++++++++------------------
 1 file changed, 21 insertions(+), 19 deletions(-)

diff --git a/python/getdist/mcsamples.py b/python/getdist/mcsamples.py
index 3dcad48..e8dfdf3 100644
--- a/python/getdist/mcsamples.py
+++ b/python/getdist/mcsamples.py
@@ -18,7 +18,7 @@ from getdist.cobaya_interface import MCSamplesFromCobaya
 import getdist.kde_bandwidth as kde
 from getdist.parampriors import ParamBounds
 
-pickle_version = 22
+pickle_version = 23
 
 
 class MCSamplesError(WeightedSampleError):
@@ -70,28 +70,29 @@ def loadMCSamples(file_root: str, ini: Union[None, str, IniFile] = None,
         path = cache_dir
     else:
         cache_name = name
-    if not os.path.exists(path):
+    if path and not os.path.exists(path):
         os.mkdir(path)
     cachefile = os.path.join(path, cache_name) + '.py_mcsamples'
-    samples = MCSamples(file_root, jobItem=jobItem, ini=ini, settings=settings)
-    if os.path.isfile(file_root + '.paramnames'):
-        allfiles = files + [file_root + '.ranges', file_root + '.paramnames', file_root + '.properties.ini']
-    else:  # Cobaya
+    allfiles = files + [file_root + '.ranges', file_root + '.paramnames', file_root + '.properties.ini']
+    if not os.path.isfile(file_root + '.paramnames'):  # Cobaya
         folder = os.path.dirname(file_root)
         prefix = os.path.basename(file_root)
-        allfiles = files + [
-            os.path.join(folder, f) for f in os.listdir(folder) if (
+        allfiles += [
+            os.path.join(folder, f) for f in os.listdir(folder or '.') if (
                     f.startswith(prefix) and
                     any(f.lower().endswith(end) for end in ['updated.yaml', 'full.yaml']))]
-    if not no_cache and os.path.exists(cachefile) and last_modified(allfiles) < os.path.getmtime(cachefile):
+    # record state of the files before anything is read, so cache is only used if they are all unchanged
+    file_stamps = {f: (os.stat(f).st_mtime_ns, os.stat(f).st_size) for f in allfiles if os.path.exists(f)}
+    samples = MCSamples(file_root, jobItem=jobItem, ini=ini, settings=settings)
+    samples.file_stamps = file_stamps
+    if not no_cache and os.path.exists(cachefile):
         try:
             with open(cachefile, 'rb') as inp:
                 cache = pickle.load(inp)
-            if cache.version == pickle_version and samples.ignore_rows == cache.ignore_rows \
-                    and samples.min_weight_ratio == cache.min_weight_ratio:
-                changed = len(samples.contours) != len(cache.contours) or \
-                          np.any(np.array(samples.contours) != np.array(cache.contours))
-                cache.updateSettings(ini=ini, settings=settings, doUpdate=changed)
+            if cache.version == pickle_version and cache.file_stamps == file_stamps \
+                    and cache.ini.params == samples.ini.params and cache._jobBurnRemoved() == samples._jobBurnRemoved():
+                cache.jobItem = samples.jobItem
+                cache.batch_path = samples.batch_path
                 return cache
         except Exception:
             pass
@@ -211,9 +212,7 @@ class MCSamples(Chains):
         self.rootdirname = ""
         self.indep_thin = 0
         if 'ignore_rows' in kwargs:
-            if settings is None:
-                settings = {}
-            settings['ignore_rows'] = kwargs['ignore_rows']
+            settings = dict(settings or {}, ignore_rows=kwargs['ignore_rows'])
         self.ignore_rows = float(kwargs.get('ignore_rows', 0))
         # Do not remove burn-in for nested sampler samples
         if self.sampler == "nested" and not np.isclose(self.ignore_rows, 0):
@@ -455,6 +454,10 @@ class MCSamples(Chains):
         if doUpdate and self.samples is not None:
             self.updateBaseStatistics()
 
+    def _jobBurnRemoved(self):
+        return bool(self.jobItem and hasattr(self.jobItem, "isImportanceJob")
+                    and (self.jobItem.isImportanceJob or self.jobItem.isBurnRemoved()))
+
     def readChains(self, files_or_samples, weights=None, loglikes=None):
         """
         Loads samples from a list of files or array(s), removing burn in,
@@ -467,8 +470,7 @@ class MCSamples(Chains):
         """
         self.loadChains(self.root, files_or_samples, weights=weights, loglikes=loglikes)
 
-        if self.ignore_frac and (not self.jobItem or not hasattr(self.jobItem, "isImportanceJob")
-                                 or (not self.jobItem.isImportanceJob and not self.jobItem.isBurnRemoved())):
+        if self.ignore_frac and not self._jobBurnRemoved():
             self.removeBurnFraction(self.ignore_frac)
             chains.print_load_line('Removed %s as burn in' % self.ignore_frac)
         elif not int(self.ignore_rows):
-- 
2.43.0


From 70f2657e8805a65add3f70bc9217916e23c8bc63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:10:02 +0000
Subject: [PATCH 13/89] fix: ignore_rows counts samples not header lines, and
 empty or too short chain files are ignored

---
 python/getdist/chains.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/python/getdist/chains.py b/python/getdist/chains.py
index cd98750..f7823bd 100644
--- a/python/getdist/chains.py
+++ b/python/getdist/chains.py
@@ -129,14 +129,17 @@ def loadNumpyTxt(fname, skiprows=None):
     """
     try:
         if pandas:
-            return pandas.read_csv(fname, delim_whitespace=True, header=None, dtype=np.float64,
-                                   skiprows=skiprows, comment='#').values
+            try:
+                return pandas.read_csv(fname, delim_whitespace=True, header=None, dtype=np.float64,
+                                       skiprows=skiprows, comment='#').values
+            except pandas.errors.EmptyDataError:
+                return np.empty((0, 0))
         else:
             global _pandas_suggestion
             if _pandas_suggestion:
                 _pandas_suggestion = False
                 logging.warning('Install pandas for faster reading from text files')
-            return np.atleast_2d(np.loadtxt(fname, skiprows=skiprows or 0))
+            return np.loadtxt(fname, skiprows=skiprows or 0, ndmin=2)
     except ValueError:
         print('Error reading %s' % fname)
         raise
@@ -233,7 +236,8 @@ class WeightedSamples:
         ignore_frac = ignore_rows if 0 < ignore_rows < 1 else 0
         ignore_rows = int(ignore_rows)
         if filename:
-            cols = loadNumpyTxt(filename, skiprows=ignore_rows)
+            # skip samples, not counting any comment lines
+            cols = loadNumpyTxt(filename)[ignore_rows:]
             if not len(cols):
                 raise WeightedSampleError('Empty chain: %s' % filename)
             self.setColData(cols, are_chains=files_are_chains)
-- 
2.43.0


From 503a650f92968ff05bbaab0ddfa8d62e6bfcbe44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:10:02 +0000
Subject: [PATCH 14/89] fix: saveAsText to a root ending .txt or with no
 directory

---
 python/getdist/chains.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/getdist/chains.py b/python/getdist/chains.py
index f7823bd..2dc1927 100644
--- a/python/getdist/chains.py
+++ b/python/getdist/chains.py
@@ -1052,10 +1052,10 @@ class WeightedSamples:
             loglikes = self.loglikes
         else:
             loglikes = np.zeros(self.numrows)
-        if make_dirs and not os.path.exists(os.path.dirname(root)):
+        if make_dirs and os.path.dirname(root) and not os.path.exists(os.path.dirname(root)):
             os.makedirs(os.path.dirname(root))
         if root.endswith('.txt'):
-            root = root[:-3]
+            root = root[:-4]
         # noinspection PyTypeChecker
         np.savetxt(root + ('' if chain_index is None else '_' + str(chain_index + 1)) + '.txt',
                    np.hstack((self.weights.reshape(-1, 1), loglikes.reshape(-1, 1), self.samples)),
@@ -1561,6 +1561,8 @@ class Chains(WeightedSamples):
                             of multiple chains
         :param make_dirs: True if this should (recursively) create the directory if it doesn't exist
         """
+        if root.endswith('.txt'):
+            root = root[:-4]
         super().saveAsText(root, chain_index, make_dirs)
         if not chain_index:
             self.saveTextMetadata(root)
-- 
2.43.0


From c25d9390e8dafee8a052761a011b241c2b7a7de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:10:02 +0000
Subject: [PATCH 15/89] fix: remove burn-in rows once in getdist script, not if
 marked as removed

---
 python/getdist/command_line.py | 12 ++++++------
 python/getdist/mcsamples.py    |  3 ++-
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/python/getdist/command_line.py b/python/getdist/command_line.py
index df61b80..a071771 100644
--- a/python/getdist/command_line.py
+++ b/python/getdist/command_line.py
@@ -67,9 +67,7 @@ def getdist_script(args, exit_on_error=True):
     rootname = os.path.basename(in_root)
 
     if args.ignore_rows is not None:
-        ignorerows = args.ignore_rows
-    else:
-        ignorerows = ini.float('ignore_rows', 0.0)
+        ini.params['ignore_rows'] = args.ignore_rows
 
     samples_are_chains = ini.bool('samples_are_chains', True)
 
@@ -145,10 +143,12 @@ def getdist_script(args, exit_on_error=True):
 
     mc.loadChains(in_root, chain_files)
 
-    mc.removeBurnFraction(ignorerows)
+    # integer number of rows (ignore_lines) already removed when loading
+    if mc.ignore_frac:
+        mc.removeBurnFraction(mc.ignore_frac)
     if chains.print_load_details:
-        if ignorerows:
-            doprint('Removed %s as burn in' % ignorerows)
+        if mc.ignore_frac or mc.ignore_lines:
+            doprint('Removed %s as burn in' % mc.ignore_rows)
         else:
             doprint('Removed no burn in')
 
diff --git a/python/getdist/mcsamples.py b/python/getdist/mcsamples.py
index e8dfdf3..44c9237 100644
--- a/python/getdist/mcsamples.py
+++ b/python/getdist/mcsamples.py
@@ -468,7 +468,8 @@ class MCSamples(Chains):
         :param loglikes: array of -2 log(likelihood) if setting from arrays
         :return: self.
         """
-        self.loadChains(self.root, files_or_samples, weights=weights, loglikes=loglikes)
+        self.loadChains(self.root, files_or_samples, weights=weights, loglikes=loglikes,
+                        ignore_lines=0 if self._jobBurnRemoved() else None)
 
         if self.ignore_frac and not self._jobBurnRemoved():
             self.removeBurnFraction(self.ignore_frac)
-- 
2.43.0


From 06a1eed9532eb838a96c58d7622eb5fcd59667ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:10:02 +0000
Subject: [PATCH 16/89] fix: detect burn-in removal of Cobaya post-processed
 chains

---
 python/getdist/cobaya_interface.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/getdist/cobaya_interface.py b/python/getdist/cobaya_interface.py
index 7cb5f02..0795c57 100644
--- a/python/getdist/cobaya_interface.py
+++ b/python/getdist/cobaya_interface.py
@@ -260,6 +260,6 @@ def get_sample_label(filename_or_info):
 
 
 def get_burn_removed(filename_or_info):
-    info = get_info_params(filename_or_info)
+    info = yaml_file_or_dict(filename_or_info)
     # if skip burn in *has already been done*
-    return info.get(_post, {}).get("skip", 0)
+    return (info.get(_post) or {}).get("skip", 0)
-- 
2.43.0


From 931e61ef64c33e284f0aaf5435d94260dada720d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:10:02 +0000
Subject: [PATCH 17/89] fix: never copy untrimmed chain when all rows removed,
 or trim burn-removed chains again

---
 python/copyGridFiles.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/python/copyGridFiles.py b/python/copyGridFiles.py
index 909466d..2e2c51c 100644
--- a/python/copyGridFiles.py
+++ b/python/copyGridFiles.py
@@ -72,13 +72,13 @@ def doCopy(source, dest, f, hasBurn=False):
             lines = None
         destf = dest + f
         if args.zip:
-            if lines:
+            if lines is not None:
                 zipper.writestr(destf, "".join(lines))
 
             else:
                 zipper.write(source + f, destf)
         else:
-            if lines:
+            if lines is not None:
                 open(target_dir + destf, 'w').writelines(lines)
             else:
                 if args.sym_link:
@@ -115,13 +115,14 @@ for jobItem in Opts.filteredBatchItems():
         outdir = jobItem.relativePath
         if not args.zip: batchjob.makePath(target_dir + outdir)
         if args.chains and jobItem.chainExists() and (not args.max_age_days or datetime.fromtimestamp(jobItem.chainFileDate()) > max_age):
+            hasBurn = not jobItem.isImportanceJob and not jobItem.isBurnRemoved()
             i = 1
             while os.path.exists(jobItem.chainRoot + '_%d.txt' % i):
                 f = jobItem.name + '_%d.txt' % i
                 chainfiles += 1
-                doCopy(jobItem.chainPath, outdir, f, not jobItem.isImportanceJob)
+                doCopy(jobItem.chainPath, outdir, f, hasBurn)
                 i += 1
-            if not jobItem.isImportanceJob and args.remove_burn_fraction:
+            if hasBurn and args.remove_burn_fraction:
                 props = jobItem.propertiesIni()
                 props.params['burn_removed'] = True
                 writeIni(jobItem.name + '.properties.ini', props)
-- 
2.43.0


From 987a4a5ccdbb38f97a16739e0f3ff3dbf1ddf9a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:39 +0000
Subject: [PATCH 18/89] fix: settings read with included or default files keep
 the name of the main file

---
 python/getdist/inifile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/inifile.py b/python/getdist/inifile.py
index 7d38a7e..f35d467 100644
--- a/python/getdist/inifile.py
+++ b/python/getdist/inifile.py
@@ -70,7 +70,6 @@ class IniFile:
         try:
             fileincludes = []
             filedefaults = []
-            self.original_filename = filename
             comments = []
             with open(filename, encoding='utf-8-sig') as textFileHandle:
                 # Remove blank lines and comment lines from the python list of lists.
@@ -118,6 +117,7 @@ class IniFile:
                     else:
                         self.readFile(os.path.join(os.path.dirname(filename), ffile), if_not_defined=True)
 
+            self.original_filename = filename
             return self.params
         except:
             print('Error in ' + filename)
-- 
2.43.0


From 757b0f33b6260c5caf2064d2d211bf7f1fd522ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:39 +0000
Subject: [PATCH 19/89] fix: boolean lists in settings files convert F to False

---
 python/getdist/inifile.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/python/getdist/inifile.py b/python/getdist/inifile.py
index f35d467..31ec85b 100644
--- a/python/getdist/inifile.py
+++ b/python/getdist/inifile.py
@@ -231,6 +231,16 @@ class IniFile:
         if comment:
             self.comments[name] = comment
 
+    @staticmethod
+    def _as_bool(s, name):
+        if isinstance(s, (bool, np.bool_)):
+            return bool(s)
+        if str(s)[0] == 'T':
+            return True
+        elif str(s)[0] == 'F':
+            return False
+        raise IniError('parameter does not have valid T(rue) or F(alse) boolean value: ' + name)
+
     def bool(self, name, default=False):
         """
         Get boolean value
@@ -239,14 +249,7 @@ class IniFile:
         :param default: default value if not set
         """
         if self.isSet(name):
-            s = self.params[name]
-            if isinstance(s, bool):
-                return s
-            if s[0] == 'T':
-                return True
-            elif s[0] == 'F':
-                return False
-            raise IniError('parameter does not have valid T(rue) or F(alse) boolean value: ' + name)
+            return self._as_bool(self.params[name], name)
         elif default is not None:
             return default
         else:
@@ -338,6 +341,10 @@ class IniFile:
         :param default: default value
         :param tp: type for each list member
         """
+        if tp is bool:
+            def tp(x):
+                return self._as_bool(x, name)
+
         if name in self.params and isinstance(self.params[name], (list, tuple)):
             if tp is None:
                 return self.params[name]
-- 
2.43.0


From 6601afad517670c0a45d52ae34a992bf7f191153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:39 +0000
Subject: [PATCH 20/89] fix: save list settings in the form they are read

---
 python/getdist/inifile.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/getdist/inifile.py b/python/getdist/inifile.py
index 31ec85b..53a80e6 100644
--- a/python/getdist/inifile.py
+++ b/python/getdist/inifile.py
@@ -147,6 +147,8 @@ class IniFile:
                 return value
             if type(value) == bool:
                 return str(value)[0]
+            if isinstance(value, (list, tuple, np.ndarray)):
+                return " ".join(asIniText(x) for x in value)
             return str(value)
 
         parameterLines = []
-- 
2.43.0


From 3d1f7ed616e673fe89ad39f1f09a60060cc8300a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:39 +0000
Subject: [PATCH 21/89] fix: replace tags in settings that also have values
 that are not text

---
 python/getdist/inifile.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/getdist/inifile.py b/python/getdist/inifile.py
index 53a80e6..7f9ae73 100644
--- a/python/getdist/inifile.py
+++ b/python/getdist/inifile.py
@@ -171,7 +171,8 @@ class IniFile:
 
     def replaceTags(self, placeholder, text):
         for key in self.params:
-            self.params[key] = self.params[key].replace(placeholder, text)
+            if isinstance(self.params[key], str):
+                self.params[key] = self.params[key].replace(placeholder, text)
         return self.params
 
     def delete_keys(self, keys):
-- 
2.43.0


From 35344ff4befeaf9dbfc6a3a2842224e47ac3432f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:23:05 +0000
Subject: [PATCH 22/89] fix: samples with latex labels like $(w_0,w_a)$ reload

---
 python/getdist/inifile.py   | 22 +++++++++++-----------
 python/getdist/mcsamples.py |  4 ++++
 2 files changed, 15 insertions(+), 11 deletions(-)

diff --git a/python/getdist/inifile.py b/python/getdist/inifile.py
index 7f9ae73..ca6cc95 100644
--- a/python/getdist/inifile.py
+++ b/python/getdist/inifile.py
@@ -50,17 +50,17 @@ class IniFile:
         pathlen = len(s)
         while index < pathlen:
             c = s[index]
-            if c == '$':
-                if s[index + 1] == '$':
-                    res = res + c
-                    index += 1
-                elif s[index + 1] == '(':
-                    s = s[index + 2:]
-                    pathlen = len(s)
-                    index = s.index(')')
-                    var = s[:index]
-                    if var in os.environ:
-                        res += os.environ[var]
+            next_c = s[index + 1:index + 2]
+            if c == '$' and next_c == '$':
+                res = res + c
+                index += 1
+            elif c == '$' and next_c == '(':
+                s = s[index + 2:]
+                pathlen = len(s)
+                index = s.index(')')
+                var = s[:index]
+                if var in os.environ:
+                    res += os.environ[var]
             else:
                 res = res + c
             index += 1
diff --git a/python/getdist/mcsamples.py b/python/getdist/mcsamples.py
index 44c9237..d23267e 100644
--- a/python/getdist/mcsamples.py
+++ b/python/getdist/mcsamples.py
@@ -2437,6 +2437,10 @@ class MCSamples(Chains):
             if self.label:
                 ini.params.update({'label': self.label})
             ini.params.update(properties or {})
+            for key, value in ini.params.items():
+                if isinstance(value, str) and '$(' in value:
+                    # not placeholders, e.g. latex label; $$ is read as $
+                    ini.params[key] = value.replace('$', '$$')
             ini.saveFile(ini_name)
         elif os.path.exists(ini_name):
             os.remove(ini_name)
-- 
2.43.0


From 518471840699c58144be76bfb6ff90e9e04139be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:36:08 +0000
Subject: [PATCH 23/89] fix: look-up of a parameter prefers exact name to alias
 of another parameter

---
 python/getdist/paramnames.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/getdist/paramnames.py b/python/getdist/paramnames.py
index b25ba5e..bc9f26e 100644
--- a/python/getdist/paramnames.py
+++ b/python/getdist/paramnames.py
@@ -232,6 +232,9 @@ class ParamList:
                         to the stored names
         """
         self._check_name_str(name)
+        for par in self.names:
+            if par.name == name:
+                return par
         given_names = {name}
         if renames:
             given_names.update(makeList(renames.get(name, [])))
-- 
2.43.0


From d709ee0b4bfab08f5c9efc2c54b04bacc530d7b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:36:08 +0000
Subject: [PATCH 24/89] fix: allow tuples of renames, and merge renames
 independently of hash order

---
 python/getdist/paramnames.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/python/getdist/paramnames.py b/python/getdist/paramnames.py
index bc9f26e..67d608c 100644
--- a/python/getdist/paramnames.py
+++ b/python/getdist/paramnames.py
@@ -38,7 +38,7 @@ def mergeRenames(*dicts, **kwargs):
     keep_names_1st = kwargs.pop("keep_names_1st", False)
     if kwargs:
         raise ValueError("kwargs not recognized: %r" % kwargs)
-    sets = list(chain(*[[set([k] + (makeList(v or [])))
+    sets = list(chain(*[[{k}.union(makeList(v or []))
                          for k, v in dic.items()] for dic in dicts]))
     # If two sets have elements in common, join them.
     something_changed = True
@@ -59,7 +59,7 @@ def mergeRenames(*dicts, **kwargs):
         for dic in dicts:
             p = set(dic).intersection(params)
             if p and (params != p or keep_names_1st):
-                key = p.pop()
+                key = next(k for k in dic if k in p)
                 params.remove(key)
                 merged[key] = list(params)
                 break
@@ -239,8 +239,8 @@ class ParamList:
         if renames:
             given_names.update(makeList(renames.get(name, [])))
         for par in self.names:
-            known_names = set([par.name] + makeList(getattr(par, 'renames', [])) +
-                              (makeList(renames.get(par.name, [])) if renames else []))
+            known_names = {par.name}.union(makeList(getattr(par, 'renames', [])),
+                                           makeList(renames.get(par.name, [])) if renames else [])
             if known_names.intersection(given_names):
                 return par
         if error:
-- 
2.43.0


From 18b80978e1c37dcbf974f3fae8a62a17c0672fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:36:08 +0000
Subject: [PATCH 25/89] fix: changes of a filtered copy of parameter names do
 not change the original

---
 python/getdist/paramnames.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/getdist/paramnames.py b/python/getdist/paramnames.py
index 67d608c..e247e38 100644
--- a/python/getdist/paramnames.py
+++ b/python/getdist/paramnames.py
@@ -1,5 +1,6 @@
 import os
 import fnmatch
+from copy import copy
 from itertools import chain
 
 
@@ -349,7 +350,7 @@ class ParamList:
             else:
                 p = params.parWithName(name.name)
             if p:
-                usedNames.names.append(name)
+                usedNames.names.append(copy(name))
         return usedNames
 
     def addDerived(self, name, **kwargs):
-- 
2.43.0


From f854feedee11c27e8ee954370e6e8825b427edf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:36:08 +0000
Subject: [PATCH 26/89] fix: ParamInfo.nameEquals

---
 python/getdist/paramnames.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/getdist/paramnames.py b/python/getdist/paramnames.py
index e247e38..590a195 100644
--- a/python/getdist/paramnames.py
+++ b/python/getdist/paramnames.py
@@ -91,9 +91,9 @@ class ParamInfo:
 
     def nameEquals(self, name):
         if isinstance(name, ParamInfo):
-            return name.name == name
+            return self.name == name.name
         else:
-            return name == name
+            return self.name == name
 
     def setFromString(self, line):
         items = line.split(None, 1)
-- 
2.43.0


From f3dbc263bc2ef45072704092b4bbb98b373304eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:50:32 +0000
Subject: [PATCH 27/89] fix: a rejected derived parameter leaves the ranges of
 the existing one unchanged

---
 python/getdist/mcsamples.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/getdist/mcsamples.py b/python/getdist/mcsamples.py
index d23267e..eaf48ee 100644
--- a/python/getdist/mcsamples.py
+++ b/python/getdist/mcsamples.py
@@ -2342,9 +2342,10 @@ class MCSamples(Chains):
         :return: The added parameter's :class:`~.paramnames.ParamInfo` object
         """
 
+        par = super().addDerived(paramVec, name, label=label, comment=comment)
         if range is not None:
             self.ranges.setRange(name, range)
-        return super().addDerived(paramVec, name, label=label, comment=comment)
+        return par
 
     def getParamBestFitDict(self, best_sample=False, want_derived=True, want_fixed=True, max_posterior=True):
         """
-- 
2.43.0


From ff67063d78b734dd4dd1120c576fcf11856d3d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:50:32 +0000
Subject: [PATCH 28/89] fix: getBounds gives the bounds of the current ranges
 and parameters

---
 python/getdist/mcsamples.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/getdist/mcsamples.py b/python/getdist/mcsamples.py
index eaf48ee..fada5dd 100644
--- a/python/getdist/mcsamples.py
+++ b/python/getdist/mcsamples.py
@@ -2070,6 +2070,8 @@ class MCSamples(Chains):
 
         :return: a :class:`~.parampriors.ParamBounds` instance
         """
+        if self.needs_update and self.samples is not None:
+            self.updateBaseStatistics()
         bounds = ParamBounds()
         bounds.names = self.paramNames.list()
         for par in self.paramNames.names:
-- 
2.43.0


From 8f4629c16f3740f85bf1a6af7b42cd296a8d8669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:50:46 +0000
Subject: [PATCH 29/89] fix: reading parameter ranges does not change the given
 Cobaya info, and allows priors with default location and scale

---
 python/getdist/cobaya_interface.py | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/python/getdist/cobaya_interface.py b/python/getdist/cobaya_interface.py
index 0795c57..4f97130 100644
--- a/python/getdist/cobaya_interface.py
+++ b/python/getdist/cobaya_interface.py
@@ -163,21 +163,20 @@ def get_info_params(info):
 def get_range(param_info):
     # Sampled
     if is_sampled_param(param_info):
-        if isinstance(param_info[_prior], Sequence) and len(param_info[_prior]) == 2:
-            param_info[_prior] = \
-                {lim: n for lim, n in zip(["min", "max"], param_info[_prior])}
-        elif not isinstance(param_info[_prior], Mapping):
+        prior = param_info[_prior]
+        if isinstance(prior, Sequence) and len(prior) == 2:
+            prior = {lim: n for lim, n in zip(["min", "max"], prior)}
+        elif not isinstance(prior, Mapping):
             raise ValueError(
-                "Format of prior not recognised: %r. " % param_info[_prior] +
+                "Format of prior not recognised: %r. " % prior +
                 "Use '[min, max]' or a dictionary following Cobaya's documentation.")
-        info_lims = dict((tag, param_info[_prior].get(tag))
-                         for tag in ["min", "max", "loc", "scale"])
-        if info_lims["min"] is not None or info_lims["max"] is not None:
-            lims = [param_info[_prior].get("min"), param_info[_prior].get("max")]
-        elif info_lims["loc"] is not None or info_lims["scale"] is not None:
-            dist = param_info[_prior].pop(_p_dist, "uniform")
+        if prior.get("min") is not None or prior.get("max") is not None:
+            lims = [prior.get("min"), prior.get("max")]
+        else:
+            kwargs = dict(prior)
+            dist = kwargs.pop(_p_dist, "uniform")
             pdf_dist = getattr(import_module("scipy.stats", dist), dist)
-            lims = pdf_dist.interval(1, **param_info[_prior])
+            lims = pdf_dist.interval(1, **kwargs)
     # Derived
     elif is_derived_param(param_info):
         lims = (lambda i: [i.get("min", -np.inf), i.get("max", np.inf)])(param_info or {})
-- 
2.43.0


From 5205b48414cb3acde3cc81f39ec43ae6ba4a1b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:50:46 +0000
Subject: [PATCH 30/89] fix: parameters added in Cobaya post-processing may
 have no or constant info, and do not change the given info

---
 python/getdist/cobaya_interface.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/python/getdist/cobaya_interface.py b/python/getdist/cobaya_interface.py
index 4f97130..9b43d0e 100644
--- a/python/getdist/cobaya_interface.py
+++ b/python/getdist/cobaya_interface.py
@@ -141,10 +141,11 @@ def get_info_params(info):
         priors.remove(prior)
     add = info.get(_post, {}).get("add", {})
     # Adding derived params and updating 1d priors
-    for param, pinfo in add.get(_params, {}).items():
-        pinfo_old = info_params_full.get(param, {})
-        pinfo_old.update(pinfo)
-        info_params_full[param] = pinfo_old
+    for param, pinfo in (add.get(_params) or {}).items():
+        pinfo_old = info_params_full.get(param)
+        if isinstance(pinfo_old, Mapping) and (pinfo is None or isinstance(pinfo, Mapping)):
+            pinfo = dict(pinfo_old, **(pinfo or {}))
+        info_params_full[param] = pinfo
     likes += list(add.get(_likelihood, []))
     priors += list(add.get(_prior, []))
     # Add the prior and the likelihood as derived parameters
-- 
2.43.0


From e9288dade7d0c218fbc830c2fe9619adbcc8a317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:02:29 +0000
Subject: [PATCH 31/89] fix: load covariance matrices of a single parameter

---
 python/getdist/covmat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/covmat.py b/python/getdist/covmat.py
index d4a4e99..926a3cd 100644
--- a/python/getdist/covmat.py
+++ b/python/getdist/covmat.py
@@ -36,7 +36,7 @@ class CovMat:
             else:
                 raise Exception('.covmat must now have parameter names header')
             # noinspection PyTypeChecker
-            self.matrix = np.loadtxt(f)
+            self.matrix = np.loadtxt(f, ndmin=2)
 
     def saveToFile(self, filename):
         """
-- 
2.43.0


From 73e9bdb4c2e864a2c002007f754eca2a6d6983b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:02:29 +0000
Subject: [PATCH 32/89] fix: merged covariance matrices have a size, so that
 their correlation can be calculated

---
 python/getdist/covmat.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/getdist/covmat.py b/python/getdist/covmat.py
index 926a3cd..7edb536 100644
--- a/python/getdist/covmat.py
+++ b/python/getdist/covmat.py
@@ -80,6 +80,7 @@ class CovMat:
         map2 = dict(list(zip(params2, list(range(0, l2)))))
         covmap = dict(list(zip(list(range(0, length)), C.paramNames)))
 
+        C.size = length
         C.matrix = np.zeros((length, length))
         for i in range(0, length):
             for j in range(0, length):
-- 
2.43.0


From cece74df44e11fbad21bcd4045d01dfc2c9c834d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:02:29 +0000
Subject: [PATCH 33/89] fix: getCovMat gives the non-derived parameters
 wherever they are in the list, and is independent of the samples' own matrix

---
 python/getdist/mcsamples.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/getdist/mcsamples.py b/python/getdist/mcsamples.py
index fada5dd..a320c58 100644
--- a/python/getdist/mcsamples.py
+++ b/python/getdist/mcsamples.py
@@ -583,9 +583,9 @@ class MCSamples(Chains):
 
         :return: A :class:`~.covmat.CovMat` object holding the covariance
         """
-        nparamNonDerived = self.paramNames.numNonDerived()
-        return covmat.CovMat(matrix=self.getCov(nparamNonDerived),
-                             paramNames=self.paramNames.list()[:nparamNonDerived])
+        pars = [i for i, par in enumerate(self.paramNames.names) if not par.isDerived]
+        return covmat.CovMat(matrix=self.getCov(pars=pars),
+                             paramNames=[self.paramNames.names[i].name for i in pars])
 
     def writeCovMatrix(self, filename=None):
         """
-- 
2.43.0


From b0ec970afdc1b280f9c12d869ce793cd39f99c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:19:15 +0000
Subject: [PATCH 34/89] fix: read output of batch system commands as text, so
 that job ids are right and queued jobs are found

---
 python/paramgrid/jobqueue.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/python/paramgrid/jobqueue.py b/python/paramgrid/jobqueue.py
index 6d316be..6ecb13e 100644
--- a/python/paramgrid/jobqueue.py
+++ b/python/paramgrid/jobqueue.py
@@ -36,6 +36,10 @@ def addArguments(parser, combinedJobs=False):
     parser.add_argument('--no_sub', action='store_true')
 
 
+def commandOutput(command):
+    return subprocess.check_output(command, shell=True, universal_newlines=True).strip()
+
+
 def replacePlaceholders(txt, vals):
     txt = txt.replace('\r', '')
     for name, value in six.iteritems(vals):
@@ -72,7 +76,7 @@ class jobSettings(object):
             grid_engine = 'MOAB'
         else:
             try:
-                help_info = str(subprocess.check_output('qstat -help', shell=True)).strip()
+                help_info = commandOutput('qstat -help')
                 if 'OGS/GE' in help_info: grid_engine = 'OGS'  # Open Grid Scheduler, as on StarCluster
             except:
                 pass
@@ -307,7 +311,7 @@ def submitJob(jobName, paramFiles, sequential=False, msg=False, **kwargs):
         if len(paramFiles) > 1:
             open(scriptRoot + '.batch', 'w').write("\n".join(paramFiles))
         if not kwargs.get('no_sub', False):
-            res = str(subprocess.check_output(replacePlaceholders(j.qsub, vals) + ' ' + scriptName, shell=True)).strip()
+            res = commandOutput(replacePlaceholders(j.qsub, vals) + ' ' + scriptName)
             if not res:
                 print('No qsub output')
             else:
@@ -330,11 +334,11 @@ def queue_job_details(batchPath=None, running=True, queued=True, warnNotBatch=Tr
         print('No existing job index found')
         return []
     if spawn.find_executable("showq") is not None:
-        res = str(subprocess.check_output('showq -U $USER', shell=True)).strip()
+        res = commandOutput('showq -U $USER')
         runningTxt = ' Running '
     else:
         # e.g. Sun Grid Engine/OGS
-        res = str(subprocess.check_output('qstat -u $USER', shell=True)).strip()
+        res = commandOutput('qstat -u $USER')
         runningTxt = ' r '
     res = res.split("\n")
     names = []
-- 
2.43.0


From b570713b2840eeff6a6cc26811621887b0d83f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:19:15 +0000
Subject: [PATCH 35/89] fix: replace the job index file atomically

---
 python/paramgrid/jobqueue.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/python/paramgrid/jobqueue.py b/python/paramgrid/jobqueue.py
index 6ecb13e..ff63704 100644
--- a/python/paramgrid/jobqueue.py
+++ b/python/paramgrid/jobqueue.py
@@ -6,7 +6,6 @@ import numpy as np
 import re
 import pickle
 import time
-import shutil
 import multiprocessing
 
 from distutils import spawn
@@ -178,8 +177,7 @@ def saveJobIndex(obj, batchPath=None):
     with open(fname + '_tmp', 'wb') as output:
         pickle.dump(obj, output, pickle.HIGHEST_PROTOCOL)
     # try to prevent corruption from error mid-write
-    if os.path.exists(fname): os.remove(fname)
-    shutil.move(fname + '_tmp', fname)
+    getattr(os, 'replace', os.rename)(fname + '_tmp', fname)
 
 
 def addJobIndex(batchPath, j):
-- 
2.43.0


From 6c7b0045c713decdc2250b660b0fae988bf1b0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:19:15 +0000
Subject: [PATCH 36/89] fix: deleting one of several jobs of the same run from
 the job index keeps the others

---
 python/paramgrid/jobqueue.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/python/paramgrid/jobqueue.py b/python/paramgrid/jobqueue.py
index ff63704..7816ec2 100644
--- a/python/paramgrid/jobqueue.py
+++ b/python/paramgrid/jobqueue.py
@@ -153,11 +153,16 @@ class jobIndex(object):
         if jobId is not None:
             j = self.jobSettings.get(jobId)
             if j is not None:
-                for rootname in j.names:
-                    del (self.rootNames[rootname])
                 del (self.jobSettings[jobId])
-                del (self.jobNames[j.jobName])
                 self.jobSequence = [s for s in self.jobSequence if s != jobId]
+                # names may also be those of other jobs, if submitted more than once
+                self.jobNames = dict()
+                self.rootNames = dict()
+                for s in self.jobSequence:
+                    other = self.jobSettings[s]
+                    self.jobNames[other.jobName] = s
+                    for name in other.names:
+                        self.rootNames[name] = s
 
 
 def loadJobIndex(batchPath, must_exist=False):
-- 
2.43.0


From ad86d2b7e99ce184d7c6691506b51c16350ac759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:19:15 +0000
Subject: [PATCH 37/89] fix: deleting only running or only queued jobs keeps
 the others in the job index

---
 python/paramgrid/jobqueue.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/python/paramgrid/jobqueue.py b/python/paramgrid/jobqueue.py
index 7816ec2..3ffc1b2 100644
--- a/python/paramgrid/jobqueue.py
+++ b/python/paramgrid/jobqueue.py
@@ -216,16 +216,17 @@ def deleteJobs(batchPath, jobIds=None, rootNames=None, jobNames=None, jobId_minm
         raise Exception('No existing job index found')
     if jobIds is None: jobIds = []
     if isinstance(jobIds, six.string_types): jobIds = [jobIds]
+    jobIds = list(jobIds)
     if rootNames is not None:
         if isinstance(rootNames, six.string_types): rootNames = [rootNames]
         for name in rootNames:
             jobId = index.rootNames.get(name)
-            if not jobId in jobIds: jobIds.append(jobId)
+            if jobId is not None and not jobId in jobIds: jobIds.append(jobId)
     if jobNames is not None:
         if isinstance(jobNames, six.string_types): jobNames = [jobNames]
         for name in jobNames:
             jobId = index.jobNames.get(name)
-            if not jobId in jobIds: jobIds.append(jobId)
+            if jobId is not None and not jobId in jobIds: jobIds.append(jobId)
     if jobId_minmax is not None or jobId_min is not None:
         for jobIdStr, j in list(index.jobSettings.items()):
             parts = jobIdStr.split('.')
@@ -238,6 +239,7 @@ def deleteJobs(batchPath, jobIds=None, rootNames=None, jobNames=None, jobId_minm
                 jobIds.append(jobIdStr)
 
     validIds = queue_job_details(batchPath, running=not queued, queued=not running)[0]
+    activeIds = queue_job_details(batchPath)[0] if queued or running else validIds
     for jobId in jobIds:
         j = index.jobSettings.get(jobId)
         if j is not None:
@@ -249,6 +251,8 @@ def deleteJobs(batchPath, jobIds=None, rootNames=None, jobNames=None, jobId_minm
                     else:
                         qdel = 'qdel'
                     subprocess.check_output(qdel + ' ' + str(jobId), shell=True)
+                elif jobId in activeIds:
+                    continue
                 index.delId(jobId)
             elif jobId in validIds:
                 print('...', j.jobName, jobId)
-- 
2.43.0


From a97113e74ee9b5380e36ecbac490507cd88ccff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:19:15 +0000
Subject: [PATCH 38/89] fix: submit the right files if .ini also occurs
 elsewhere in their path

---
 python/paramgrid/jobqueue.py | 2 +-
 python/runMPI.py             | 2 +-
 python/runbatch.py           | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/paramgrid/jobqueue.py b/python/paramgrid/jobqueue.py
index 3ffc1b2..725e9d5 100644
--- a/python/paramgrid/jobqueue.py
+++ b/python/paramgrid/jobqueue.py
@@ -266,7 +266,7 @@ def submitJob(jobName, paramFiles, sequential=False, msg=False, **kwargs):
     if kwargs.get('dryrun', False) or paramFiles is None: return
 
     if isinstance(paramFiles, six.string_types): paramFiles = [paramFiles]
-    paramFiles = [ini.replace('.ini', '') for ini in paramFiles]
+    paramFiles = [re.sub(r'\.ini$', '', ini) for ini in paramFiles]
 
     j.runsPerJob = (len(paramFiles), 1)[sequential]
     # adjust omp for the actual number (may not be equal to input runsPerJob because of non-integer multiple)
diff --git a/python/runMPI.py b/python/runMPI.py
index 51ea967..7de32f8 100644
--- a/python/runMPI.py
+++ b/python/runMPI.py
@@ -12,6 +12,6 @@ jobqueue.addArguments(parser)
 
 args = parser.parse_args()
 
-ini = [ini.replace('.ini', '') for ini in args.iniFile]
+ini = [ini[:-4] if ini.endswith('.ini') else ini for ini in args.iniFile]
 
 jobqueue.submitJob(os.path.basename(ini[0]), ini, msg=True, **args.__dict__)
diff --git a/python/runbatch.py b/python/runbatch.py
index 6b2213d..3dadf67 100644
--- a/python/runbatch.py
+++ b/python/runbatch.py
@@ -79,7 +79,7 @@ def jobName():
 
 def submitJob(ini):
     global iniFiles
-    ini = ini.replace('.ini', '')
+    if ini.endswith('.ini'): ini = ini[:-4]
     if not args.dryrun:
         print('Submitting...' + ini)
     else:
-- 
2.43.0


From 833e6f6bc8077eb5cdfd085a088dc49b1f3dcb91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:19:15 +0000
Subject: [PATCH 39/89] fix: submitting several runs with long names in one job

---
 python/runbatch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/runbatch.py b/python/runbatch.py
index 3dadf67..0f65fa9 100644
--- a/python/runbatch.py
+++ b/python/runbatch.py
@@ -74,7 +74,7 @@ def jobName():
     if len(iniFiles) < 2 or len(s) < 70: return s
     base = os.path.basename(iniFiles[0])
     if len(base) > 70: base = base[:70]
-    return base + '__' + hashlib.md5(s).hexdigest()[:16]
+    return base + '__' + hashlib.md5(s.encode('utf-8')).hexdigest()[:16]
 
 
 def submitJob(ini):
-- 
2.43.0


From 5bf47d0526aa705b4f4651190ee3cf332ba1c1af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:19:15 +0000
Subject: [PATCH 40/89] fix: deleteJobs.py deletes only the jobs asked for: by
 id, in an id range, running or queued

---
 python/deleteJobs.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/python/deleteJobs.py b/python/deleteJobs.py
index 4629ade..dfceada 100644
--- a/python/deleteJobs.py
+++ b/python/deleteJobs.py
@@ -18,16 +18,18 @@ Opts.parser.add_argument('--confirm', action='store_true')
 
 
 if batch:
+    which = dict(confirm=args.confirm, running=args.running, queued=args.queued)
     if args.delete_id_range is not None:
-        jobqueue.deleteJobs(args.batchPath, jobId_minmax=args.delete_id_range, confirm=args.confirm)
-    if args.delete_id_min is not None:
-        jobqueue.deleteJobs(args.batchPath, jobId_min=args.delete_id_min, confirm=args.confirm)
+        jobqueue.deleteJobs(args.batchPath, jobId_minmax=args.delete_id_range, **which)
+    elif args.delete_id_min is not None:
+        jobqueue.deleteJobs(args.batchPath, jobId_min=args.delete_id_min, **which)
     elif args.delete_ids is not None:
-        jobqueue.deleteJobs(args.batchPath, args.delete_ids, confirm=args.confirm)
+        for jobId in args.delete_ids:
+            jobqueue.deleteJobs(args.batchPath, jobId_minmax=(jobId, jobId), **which)
     else:
         items = [jobItem for jobItem in Opts.filteredBatchItems()]
         batchNames = set([jobItem.name for jobItem in items] + [jobItem.name + '_minimize' for jobItem in items])
-        jobqueue.deleteJobs(args.batchPath, rootNames=batchNames, confirm=args.confirm)
+        jobqueue.deleteJobs(args.batchPath, rootNames=batchNames, **which)
 
     if not args.confirm: print('jobs not actually deleted: add --confirm to really cancel them')
 
-- 
2.43.0


From 04f460c1e4ce571a5f26818f22d4ed02beb5b99c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:19:15 +0000
Subject: [PATCH 41/89] fix: runningJobs.py without grid lists the jobs

---
 python/runningJobs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/runningJobs.py b/python/runningJobs.py
index d7d6709..de15488 100644
--- a/python/runningJobs.py
+++ b/python/runningJobs.py
@@ -21,7 +21,7 @@ else:
 ids, jobNames, nameslist, infos = jobqueue.queue_job_details(args.batchPath, running=not args.queued,
                                                              queued=not args.running)
 for jobId, jobName, names, info in zip(ids, jobNames, nameslist, infos):
-    if batchNames.intersection(set(names)):
+    if not batch or batchNames.intersection(set(names)):
         stats = dict()
         if batch:
             for name in names:
-- 
2.43.0


From e7a4b44ed2ab599a5393aa3e5cbbef176ff74421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:29:44 +0000
Subject: [PATCH 42/89] fix: make the cache directory before saving a grid in
 it

---
 python/paramgrid/batchjob.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/paramgrid/batchjob.py b/python/paramgrid/batchjob.py
index d36129f..132481e 100644
--- a/python/paramgrid/batchjob.py
+++ b/python/paramgrid/batchjob.py
@@ -545,6 +545,7 @@ class batchJob(propertiesItem):
         return self.normed_name_item(root, True, True)
 
     def save(self, filename=''):
+        getdist.make_cache_dir()
         saveobject(self, (grid_cache_file(self.batchPath), filename)[filename != ''])
 
     def makeDirectories(self, setting_file=None):
-- 
2.43.0


From 116dfb810aa91d152383f9d99652275575658820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:29:44 +0000
Subject: [PATCH 43/89] fix: not_queued also recognises queued minimizations of
 importance sampled runs

---
 python/runbatch.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/python/runbatch.py b/python/runbatch.py
index 0f65fa9..7340863 100644
--- a/python/runbatch.py
+++ b/python/runbatch.py
@@ -37,8 +37,7 @@ if args.not_queued:
 
 
 def notQueued(name):
-    if args.minimize: name += '_minimize'
-    return not name in queued
+    return not name + variant in queued
 
 
 variant = ''
-- 
2.43.0


From 50cb0fd7a931044667752962791dd6ed81f24d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:12 +0000
Subject: [PATCH 44/89] fix: importance runs keep the base of their parent

---
 python/paramgrid/batchjob.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/paramgrid/batchjob.py b/python/paramgrid/batchjob.py
index 132481e..c0e00c6 100644
--- a/python/paramgrid/batchjob.py
+++ b/python/paramgrid/batchjob.py
@@ -258,7 +258,7 @@ class jobItem(propertiesItem):
                 print('importance job duplicating parent data set: %s with %s' % (self.name, impRun.names))
                 continue
             data = self.data_set.extendForImportance(impRun.names, impRun.inis)
-            job = jobItem(self.batchPath, self.param_set, data, minimize=impRun.want_minimize)
+            job = jobItem(self.batchPath, self.param_set, data, base=self.base, minimize=impRun.want_minimize)
             job.importanceTag = "_".join(impRun.names)
             job.importanceSettings = impRun.inis
             if not '_post_' in self.name:
-- 
2.43.0


From ac6bdfc374b5290ca65cc9d6a6894651ed623a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:12 +0000
Subject: [PATCH 45/89] fix: groups of runs can be given their datasets when
 made

---
 python/paramgrid/batchjob.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/python/paramgrid/batchjob.py b/python/paramgrid/batchjob.py
index c0e00c6..29b6a9a 100644
--- a/python/paramgrid/batchjob.py
+++ b/python/paramgrid/batchjob.py
@@ -181,10 +181,10 @@ class jobGroup(object):
             params = [[]]
         if datasets is None:
             datasets = []
-            self.params = params
-            self.groupName = name
-            self.importanceRuns = importanceRuns
-            self.datasets = datasets
+        self.params = params
+        self.groupName = name
+        self.importanceRuns = importanceRuns
+        self.datasets = datasets
         self.extra_options = {}
 
 
-- 
2.43.0


From 307fc3c0f261bab1fb1eba53267064a354063c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:54 +0000
Subject: [PATCH 46/89] fix: find runs by data tag if data names contain
 underscores

---
 python/paramgrid/batchjob.py      | 9 ++++++---
 python/paramgrid/batchjob_args.py | 3 ++-
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/python/paramgrid/batchjob.py b/python/paramgrid/batchjob.py
index 29b6a9a..8402381 100644
--- a/python/paramgrid/batchjob.py
+++ b/python/paramgrid/batchjob.py
@@ -531,9 +531,12 @@ class batchJob(propertiesItem):
         else:
             paramtag = [base]
             paramtags = [base]
-        name = "_".join(paramtags) + '_' + self.normalizeDataTag(datatag)
-        jobItem = self.normed_name_item(name, wantSubItems, wantImportance)
-        if jobItem is not None: return (jobItem.name, jobItem)[returnJobItem]
+        normed_params, normed_data = "_".join(paramtags[1:]), self.normalizeDataTag(datatag)
+        for jobItem in self.items(wantSubItems, wantImportance):
+            # data names may themselves contain underscores
+            if jobItem.base == base and jobItem.normed_params == normed_params and \
+                    self.normalizeDataTag(jobItem.normed_data) == normed_data:
+                return (jobItem.name, jobItem)[returnJobItem]
         if raiseError:
             raise Exception('No match for paramtag, datatag... ' + "_".join(paramtag) + ', ' + datatag)
         else:
diff --git a/python/paramgrid/batchjob_args.py b/python/paramgrid/batchjob_args.py
index 6e15be5..2df54c3 100644
--- a/python/paramgrid/batchjob_args.py
+++ b/python/paramgrid/batchjob_args.py
@@ -151,6 +151,7 @@ class batchArgs(object):
     def filterForDataCompare(self, batch, datatags, getDistExists=False):
         items = []
         for tag, data in zip([self.batch.normalizeDataTag(data) for data in datatags], datatags):
-            items += [jobItem for jobItem in batch if (jobItem.datatag == data or jobItem.normed_data == tag)
+            items += [jobItem for jobItem in batch if (jobItem.datatag == data or
+                                                           self.batch.normalizeDataTag(jobItem.normed_data) == tag)
                       and (not getDistExists or jobItem.getDistExists())]
         return items
-- 
2.43.0


From 13641627d583bdd8a29ddcc10e3f5dca1dd5572f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:54 +0000
Subject: [PATCH 47/89] fix: adding to a data set does not change the lists it
 was made from

---
 python/paramgrid/batchjob.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/python/paramgrid/batchjob.py b/python/paramgrid/batchjob.py
index 8402381..daf7ac0 100644
--- a/python/paramgrid/batchjob.py
+++ b/python/paramgrid/batchjob.py
@@ -93,10 +93,10 @@ class dataSet(object):
         else:
             params = self.standardizeParams(params)
         if covmat is not None: self.covmat = covmat
-        self.names = names
+        self.names = list(names)
         self.params = params  # can be an array of items, either ini file name or dictionaries of parameters
         self.tag = "_".join(self.names)
-        self.dist_settings = dist_settings
+        self.dist_settings = dict(dist_settings)
 
     def add(self, name, params=None, overrideExisting=True, dist_settings=None):
         if params is None: params = [name]
@@ -133,6 +133,7 @@ class dataSet(object):
 
     def standardizeParams(self, params):
         if isinstance(params, dict) or isinstance(params, six.string_types): params = [params]
+        params = list(params)
         for i in range(len(params)):
             if isinstance(params[i], six.string_types) and not '.ini' in params[i]: params[i] += '.ini'
         return params
-- 
2.43.0


From 16e7e22f185fdc210cda7064c107e2597dae6cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:54 +0000
Subject: [PATCH 48/89] fix: a run requested by more than one group is in the
 grid once

---
 python/paramgrid/batchjob.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/python/paramgrid/batchjob.py b/python/paramgrid/batchjob.py
index daf7ac0..bef5d58 100644
--- a/python/paramgrid/batchjob.py
+++ b/python/paramgrid/batchjob.py
@@ -473,6 +473,11 @@ class batchJob(propertiesItem):
                     if hasattr(group, 'extra_opts'): item.extra_opts = group.extra_opts
                     if hasattr(group, 'param_extra_opts'): item.param_extra_opts = group.param_extra_opts
                     if not item.name in self.skip:
+                        existing = [x for x in self.jobItems if x.name == item.name]
+                        if existing:
+                            if messages: print('run requested more than once: ' + item.name)
+                            existing[0].makeImportance(group.importanceRuns)
+                            continue
                         item.makeImportance(group.importanceRuns)
                         item.makeImportance(allImportance)
                         self.jobItems.append(item)
-- 
2.43.0


From 662b830eaedfe495e2641adf6419f748d8ff4c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:54 +0000
Subject: [PATCH 49/89] fix: read settings of a grid from its own configuration
 if another grid's settings file has the same name

---
 python/paramgrid/gridconfig.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/python/paramgrid/gridconfig.py b/python/paramgrid/gridconfig.py
index a76490b..81ddc15 100644
--- a/python/paramgrid/gridconfig.py
+++ b/python/paramgrid/gridconfig.py
@@ -84,7 +84,12 @@ def makeGrid(batchPath, settingName=None, settings=None, readOnly=False, interac
             readOnly = True
             sys.path.insert(0, batchPath + 'config')
             sys.modules['batchJob'] = batchjob  # old name
-            settings = __import__(IniFile(batchPath + 'config/config.ini').params['setting_file'].replace('.py', ''))
+            setting_module = IniFile(batchPath + 'config/config.ini').params['setting_file'].replace('.py', '')
+            loaded = getattr(sys.modules.get(setting_module), '__file__', None)
+            if loaded and os.path.dirname(os.path.abspath(loaded)) != batchPath + 'config':
+                # settings of the same name from another grid
+                del sys.modules[setting_module]
+            settings = __import__(setting_module)
         else:
             settings = __import__(settingName, fromlist=['dummy'])
 
-- 
2.43.0


From c221fdf7da6ac6cb519038dfb402b35fbb9ec458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:52 +0000
Subject: [PATCH 50/89] fix: param, data and skip criteria also apply with a
 paramtag or datatag

---
 python/paramgrid/batchjob_args.py | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/python/paramgrid/batchjob_args.py b/python/paramgrid/batchjob_args.py
index 2df54c3..ff44f1e 100644
--- a/python/paramgrid/batchjob_args.py
+++ b/python/paramgrid/batchjob_args.py
@@ -116,22 +116,18 @@ class batchArgs(object):
 
     def dataMatches(self, jobItem):
         if self.args.musthave_data is not None and not jobItem.data_set.hasAll(self.args.musthave_data): return False
-        if self.args.datatag is None:
-            if self.args.skip_data is not None and jobItem.data_set.hasName(self.args.skip_data): return False
-            return self.args.data is None or jobItem.data_set.hasName(self.args.data)
-        else:
-            return jobItem.datatag in self.args.datatag
+        if self.args.skip_data is not None and jobItem.data_set.hasName(self.args.skip_data): return False
+        if self.args.datatag is not None and not jobItem.datatag in self.args.datatag: return False
+        return self.args.data is None or jobItem.data_set.hasName(self.args.data)
 
     def paramsMatch(self, jobItem):
-        if self.args.paramtag is None:
-            if self.args.param is None:
-                return not self.args.skip_param or not jobItem.hasParam(self.args.skip_param)
-            for pat in self.args.param:
-                if pat in jobItem.param_set: return not self.args.skip_param or not jobItem.hasParam(
-                    self.args.skip_param)
-            return False
-        else:
-            return jobItem.paramtag in self.args.paramtag
+        if self.args.paramtag is not None and not jobItem.paramtag in self.args.paramtag: return False
+        if self.args.param is None:
+            return not self.args.skip_param or not jobItem.hasParam(self.args.skip_param)
+        for pat in self.args.param:
+            if pat in jobItem.param_set: return not self.args.skip_param or not jobItem.hasParam(
+                self.args.skip_param)
+        return False
 
     def filteredBatchItems(self, wantSubItems=True, chainExist=False):
         for jobItem in self.batch.items(wantImportance=not self.args.noimportance, wantSubItems=wantSubItems):
-- 
2.43.0


From 810dd4775849b898c405991aca49083c0849532e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:52 +0000
Subject: [PATCH 51/89] fix: listGrid applies its notexist and converge options

---
 python/listGrid.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/listGrid.py b/python/listGrid.py
index 34ea87f..4624789 100644
--- a/python/listGrid.py
+++ b/python/listGrid.py
@@ -12,6 +12,8 @@ items = Opts.sortedParamtagDict(chainExist=args.exists)
 
 for paramtag, parambatch in items:
     for jobItem in parambatch:
+        if args.notexist and jobItem.chainExists() or \
+                args.converge and not jobItem.hasConvergeBetterThan(args.converge): continue
         if hasattr(jobItem, 'group'):
             tag = '(%s)' % jobItem.group
         else:
-- 
2.43.0


From 9fe1b48f980c1e2fd3cd6f5b95fab39d5047e6b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:52 +0000
Subject: [PATCH 52/89] fix: importance runs of parents without chains are not
 ready

---
 python/paramgrid/batchjob.py | 3 ++-
 python/runbatch.py           | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/python/paramgrid/batchjob.py b/python/paramgrid/batchjob.py
index bef5d58..ba8cca6 100644
--- a/python/paramgrid/batchjob.py
+++ b/python/paramgrid/batchjob.py
@@ -411,7 +411,8 @@ class jobItem(propertiesItem):
                 not self.getDistExists() or self.chainFileDate() > os.path.getmtime(self.distRoot + '.margestats'))
 
     def parentChanged(self):
-        return not self.chainExists() or self.chainFileDate() < self.parent.chainFileDate()
+        return not self.chainExists() or not self.parent.chainExists() or \
+               self.chainFileDate() < self.parent.chainFileDate()
 
     def R(self):
         if self.result_converge is None:
diff --git a/python/runbatch.py b/python/runbatch.py
index 7340863..4c7d53b 100644
--- a/python/runbatch.py
+++ b/python/runbatch.py
@@ -103,8 +103,8 @@ for jobItem in Opts.filteredBatchItems(wantSubItems=args.subitems):
                 if args.checkpoint_run is None or jobItem.wantCheckpointContinue(
                         args.checkpoint_run) and jobItem.notRunning():
                     if (not jobItem.isImportanceJob or isMinimize
-                        or (args.importance_ready and jobItem.parent.chainFinished()
-                            or not args.importance_ready and (args.filters or jobItem.parent.chainExists()))
+                        or (args.filters or jobItem.parent.chainExists())
+                        and (not args.importance_ready or jobItem.parent.chainFinished())
                         and (not args.importance_changed or jobItem.parentChanged())
                         and (not args.parent_stopped or jobItem.parent.notRunning())) \
                             and (not args.chain_exists or jobItem.chainExists()):
-- 
2.43.0


From 7b1656f97ba6f9ddcada86a3b9529d56f090cbf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:33 +0000
Subject: [PATCH 53/89] fix: clean-up of a run does not delete files of runs
 importance sampled from it

---
 python/cleanup.py            | 1 +
 python/paramgrid/batchjob.py | 7 +++++++
 2 files changed, 8 insertions(+)

diff --git a/python/cleanup.py b/python/cleanup.py
index d5af6a4..8331dc5 100644
--- a/python/cleanup.py
+++ b/python/cleanup.py
@@ -37,6 +37,7 @@ for jobItem in Opts.filteredBatchItems():
         for adir in dirs:
             files = sorted(os.listdir(adir))
             for f in files:
+                if not jobItem.ownsFile(f): continue
                 for ext in args.ext:
                     if fnmatch.fnmatch(f, jobItem.name + ext):
                         fname = adir + f
diff --git a/python/paramgrid/batchjob.py b/python/paramgrid/batchjob.py
index ba8cca6..5d19dba 100644
--- a/python/paramgrid/batchjob.py
+++ b/python/paramgrid/batchjob.py
@@ -319,6 +319,13 @@ class jobItem(propertiesItem):
             for j in self.importanceItems:
                 j.removeImportance(job)
 
+    def ownsFile(self, fname):
+        # files of importance sampled runs are in the same directories as those of the run they start from
+        main = self
+        while main.isImportanceJob: main = main.parent
+        names = [x.name for x in [main] + main.importanceJobsRecursive() if fname.startswith((x.name + '.', x.name + '_'))]
+        return self.name in names and self.name == max(names, key=len)
+
     def makeChainPath(self):
         makePath(self.chainPath)
         return self.chainPath
-- 
2.43.0


From 357cd7cf098a852d0e94ff216fb91bf3d9f210ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:33 +0000
Subject: [PATCH 54/89] fix: extracted files of one run do not replace each
 other with normalized names

---
 python/extractDistFiles.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/extractDistFiles.py b/python/extractDistFiles.py
index 3c54c6a..212f854 100644
--- a/python/extractDistFiles.py
+++ b/python/extractDistFiles.py
@@ -31,10 +31,10 @@ for ext in args.file_extension:
     for jobItem in Opts.filteredBatchItems():
         if os.path.exists(jobItem.distPath) and (args.converge == 0 or jobItem.hasConvergeBetterThan(args.converge)):
             for f in os.listdir(jobItem.distPath):
-                if fnmatch.fnmatch(f, jobItem.name + pattern):
+                if fnmatch.fnmatch(f, jobItem.name + pattern) and jobItem.ownsFile(f):
                     print(jobItem.distPath + f)
                     if args.normalize_names:
-                        fout = jobItem.makeNormedName(replacements)[0] + os.path.splitext(f)[1]
+                        fout = jobItem.makeNormedName(replacements)[0] + f[len(jobItem.name):]
                     else:
                         fout = f
                     shutil.copyfile(jobItem.distPath + f, target_dir + fout)
-- 
2.43.0


From f7f30a3cb5d235318768bd05310dc98be1c73dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:33 +0000
Subject: [PATCH 55/89] fix: copying a grid does not write to the source
 through links made before

---
 python/copyGridFiles.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/copyGridFiles.py b/python/copyGridFiles.py
index 2e2c51c..05fbf08 100644
--- a/python/copyGridFiles.py
+++ b/python/copyGridFiles.py
@@ -45,6 +45,7 @@ if args.zip:
 else:
     zipper = None
     target_dir = os.path.abspath(args.target_dir) + os.sep
+    if os.path.realpath(target_dir) == os.path.realpath(batch.batchPath): raise Exception('target_dir is the grid itself')
     batchjob.makePath(target_dir)
 
 if args.sym_link and (args.remove_burn_fraction or args.zip): raise Exception('option not compatible with --sym_link')
@@ -71,6 +72,7 @@ def doCopy(source, dest, f, hasBurn=False):
         else:
             lines = None
         destf = dest + f
+        if not args.zip and os.path.islink(target_dir + destf): os.unlink(target_dir + destf)
         if args.zip:
             if lines is not None:
                 zipper.writestr(destf, "".join(lines))
@@ -82,7 +84,6 @@ def doCopy(source, dest, f, hasBurn=False):
                 open(target_dir + destf, 'w').writelines(lines)
             else:
                 if args.sym_link:
-                    if os.path.islink(target_dir + destf): os.unlink(target_dir + destf)
                     os.symlink(os.path.realpath(source + f), target_dir + destf)
                 else:
                     shutil.copyfile(source + f, target_dir + destf)
@@ -96,6 +97,7 @@ def writeIni(iniName, props):
     if args.zip:
         zipper.writestr(outdir + iniName, "\n".join(props.fileLines()))
     else:
+        if os.path.islink(target_dir + outdir + iniName): os.unlink(target_dir + outdir + iniName)
         props.saveFile(target_dir + outdir + iniName)
 
 
-- 
2.43.0


From bef594a19458d6099f6b9a1be3cfb81d4fad7efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:33 +0000
Subject: [PATCH 56/89] fix: copy grids whose config directory contains
 directories

---
 python/copyGridFiles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/copyGridFiles.py b/python/copyGridFiles.py
index 05fbf08..118d937 100644
--- a/python/copyGridFiles.py
+++ b/python/copyGridFiles.py
@@ -105,7 +105,7 @@ if not args.no_config:
     config_path = os.path.join(batch.batchPath, 'config/')
     if not args.dryrun and not args.zip: batchjob.makePath(target_dir + 'config')
     for f in os.listdir(config_path):
-        doCopy(config_path, 'config/', f)
+        if os.path.isfile(config_path + f): doCopy(config_path, 'config/', f)
 
 for jobItem in Opts.filteredBatchItems():
     if args.converge == 0 or jobItem.hasConvergeBetterThan(args.converge):
-- 
2.43.0


From b2e69b9b771f18e6a362677ae00ab6c3824bbfb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:33 +0000
Subject: [PATCH 57/89] fix: copying a run does not copy files of runs
 importance sampled from it

---
 python/copyGridFiles.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/python/copyGridFiles.py b/python/copyGridFiles.py
index 118d937..68a96bc 100644
--- a/python/copyGridFiles.py
+++ b/python/copyGridFiles.py
@@ -51,11 +51,11 @@ else:
 if args.sym_link and (args.remove_burn_fraction or args.zip): raise Exception('option not compatible with --sym_link')
 
 
-def fileMatches(f, name):
+def fileMatches(f, jobItem):
     for ext in args.file_extensions:
-        if fnmatch.fnmatch(f, name + ext):
+        if fnmatch.fnmatch(f, jobItem.name + ext) and jobItem.ownsFile(f):
             for ext2 in args.skip_extensions:
-                if fnmatch.fnmatch(f, name + ext2): return False
+                if fnmatch.fnmatch(f, jobItem.name + ext2): return False
             return True
     return False
 
@@ -131,7 +131,7 @@ for jobItem in Opts.filteredBatchItems():
                 doneProperties = True
 
         for f in os.listdir(jobItem.chainPath):
-            if fileMatches(f, jobItem.name):
+            if fileMatches(f, jobItem):
                 if doneProperties and '.properties.ini' in f: continue
                 if not args.max_age_days or datetime.fromtimestamp(os.path.getmtime(jobItem.chainPath + f)) > max_age:
                     infofiles += 1
@@ -141,7 +141,7 @@ for jobItem in Opts.filteredBatchItems():
             outdir += 'dist' + os.sep
             if not args.zip: batchjob.makePath(target_dir + outdir)
             for f in os.listdir(jobItem.distPath):
-                if fileMatches(f, jobItem.name) and (not args.max_age_days or
+                if fileMatches(f, jobItem) and (not args.max_age_days or
                                                      datetime.fromtimestamp(
                                                          os.path.getmtime(jobItem.distPath + f)) > max_age):
                     distfiles += 1
-- 
2.43.0


From 2b1ec0dd5daa17b20bcebb6ffcdc7e2dd2b72f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:33 +0000
Subject: [PATCH 58/89] fix: renaming parameters in best-fit files

---
 python/renameParam.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/python/renameParam.py b/python/renameParam.py
index 6214da6..3ebf834 100644
--- a/python/renameParam.py
+++ b/python/renameParam.py
@@ -61,7 +61,7 @@ for jobItem in Opts.filteredBatchItems():
             has = False
             for i, line in enumerate(lines):
                 line = line.rstrip()
-                if i < 3: continue
+                if i < 2: continue
                 items = re.split(r'(\S+)', line, maxsplit=4)
                 if len(items) > 1 and items[1] == '-log(Like)': break
                 if len(items) < 6: continue
@@ -71,10 +71,10 @@ for jobItem in Opts.filteredBatchItems():
                 if new:
                     newname, lab = new
                     items[5] = newname
-                    items[6] = ' ' * (len(items[6]) + len(name) - len(newname))
+                    items[6] = ' ' * max(1, len(items[6]) + len(name) - len(newname))
                     has = has or newname != name
                 if labels:
-                    plab = labels.parWithName(name)
+                    plab = labels.parWithName(items[5])
                     if plab: lab = plab.label
                 if lab is not None:
                     if len(items) < 7:
@@ -87,7 +87,7 @@ for jobItem in Opts.filteredBatchItems():
                 lines[i] = "".join(items) + "\n"
             if has:
                 print(bestfit)
-                if args.confirm: open(bestfit).write("".join(lines))
+                if args.confirm: open(bestfit, 'w').write("".join(lines))
 
 if args.confirm:
     print('Done. Re-run getdist to update getdist outputs.')
-- 
2.43.0


From 293e94709fd2be2be9b784b0dd38330b6b5b4c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:21 +0000
Subject: [PATCH 59/89] fix: likelihood statistics with a single contour level
 raised an error

---
 python/getdist/gui/mainwindow.py |  2 +-
 python/getdist/mcsamples.py      | 11 ++++++-----
 python/getdist/types.py          | 12 ++++++++----
 3 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/python/getdist/gui/mainwindow.py b/python/getdist/gui/mainwindow.py
index 6d1ca59..2234425 100644
--- a/python/getdist/gui/mainwindow.py
+++ b/python/getdist/gui/mainwindow.py
@@ -2027,7 +2027,7 @@ class DialogLikeStats(DialogTextOutput):
             self.table.setRowCount(stats.numParams())
             for irow, par in enumerate(stats.names):
                 vals = [par.name, "%5g" % par.bestfit_sample]
-                for lim in [0, 1]:
+                for lim in range(len(par.ND_limit_bot)):
                     vals += ["%5g" % par.ND_limit_bot[lim], "%5g" % par.ND_limit_top[lim]]
                 vals += [par.label]
                 for icol, value in enumerate(vals):
diff --git a/python/getdist/mcsamples.py b/python/getdist/mcsamples.py
index a320c58..313b3ea 100644
--- a/python/getdist/mcsamples.py
+++ b/python/getdist/mcsamples.py
@@ -2037,12 +2037,13 @@ class MCSamples(Chains):
         indexes = self.loglikes.argsort()
         cumsum = np.cumsum(self.weights[indexes])
         # always include at least the best-fit sample (which may itself have most of the weight)
-        m.ND_cont1, m.ND_cont2 = np.maximum(1, np.searchsorted(cumsum, self.norm * self.contours[0:2]))
+        # (for the first two contours, or the only one)
+        ND_conts = np.maximum(1, np.searchsorted(cumsum, self.norm * np.asarray(self.contours[0:2])))
+        m.ND_cont1, m.ND_cont2 = ND_conts[0], ND_conts[-1]
         for j, par in enumerate(self.paramNames.names):
-            region1 = self.samples[indexes[:m.ND_cont1], j]
-            region2 = self.samples[indexes[:m.ND_cont2], j]
-            par.ND_limit_bot = np.array([np.min(region1), np.min(region2)])
-            par.ND_limit_top = np.array([np.max(region1), np.max(region2)])
+            regions = [self.samples[indexes[:ND_cont], j] for ND_cont in ND_conts]
+            par.ND_limit_bot = np.array([np.min(region) for region in regions])
+            par.ND_limit_top = np.array([np.max(region) for region in regions])
             par.bestfit_sample = self.samples[bestfit_ix][j]
 
         self.likeStats = m
diff --git a/python/getdist/types.py b/python/getdist/types.py
index c777e18..61cdd43 100644
--- a/python/getdist/types.py
+++ b/python/getdist/types.py
@@ -862,7 +862,10 @@ class LikeStats(ParamResults):
         return text
 
     def headerLine(self):
-        return self.parFormat() % "parameter" + '  bestfit        lower1         upper1         lower2         upper2\n'
+        text = self.parFormat() % "parameter" + '  bestfit        lower1         upper1'
+        if len(self.names[0].ND_limit_bot) > 1:
+            text += '         lower2         upper2'
+        return text + '\n'
 
     def __str__(self):
         text = self.likeSummary()
@@ -872,9 +875,10 @@ class LikeStats(ParamResults):
             text += self.headerLine()
             for j, par in enumerate(self.names):
                 text += parForm % (self.name(j, True))
-                text += '%15.7E%15.7E%15.7E%15.7E%15.7E   %s\n' % (par.bestfit_sample,
-                                                                   par.ND_limit_bot[0], par.ND_limit_top[0],
-                                                                   par.ND_limit_bot[1], par.ND_limit_top[1], par.label)
+                text += '%15.7E' % par.bestfit_sample
+                for bot, top in zip(par.ND_limit_bot, par.ND_limit_top):
+                    text += '%15.7E%15.7E' % (bot, top)
+                text += '   %s\n' % par.label
         return text
 
 
-- 
2.43.0


From f39b7a066cbdb9ad47f0425451154b4bba72d6ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:13 +0000
Subject: [PATCH 60/89] fix: values of five or more digits rounded by more than
 their error in tables

---
 python/getdist/types.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/python/getdist/types.py b/python/getdist/types.py
index 61cdd43..4191af5 100644
--- a/python/getdist/types.py
+++ b/python/getdist/types.py
@@ -129,6 +129,11 @@ class NumberFormatter:
         while self.decimal_places(plus_str) > self.decimal_places(res):
             sf += 1
             res = self.formatNumber(value, sf)
+        if not self.decimal_places(plus_str):
+            # large values have at least the digits down to the last significant figure of the error
+            min_sf = len(str(int(abs(value)))) - max(0, len(plus_str.lstrip('+-')) - err_sf)
+            if 0 < sf < min_sf:
+                res = self.formatNumber(value, min_sf)
         if sci:
             return res, plus_str, minus_str, exponent
         else:
-- 
2.43.0


From 7d7dfdc609b89ac7bc229538fb4d5a0c5cfaa0d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:13 +0000
Subject: [PATCH 61/89] fix: number formatter given for a results table was not
 used

---
 python/getdist/types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/types.py b/python/getdist/types.py
index 4191af5..01bcd91 100644
--- a/python/getdist/types.py
+++ b/python/getdist/types.py
@@ -301,7 +301,7 @@ class ResultTable:
         if paramList is not None:
             self.tableParamNames = self.tableParamNames.filteredCopy(paramList)
         if numFormatter is not None:
-            self.format.numFormatter = numFormatter
+            self.format.numberFormatter = numFormatter
 
         self.results = results
         self.boldBaseParameters = True
-- 
2.43.0


From c7f976ad4975d77f0e40d005b4d5cab2894f44ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:13 +0000
Subject: [PATCH 62/89] fix: table rows with a parameter missing in results
 with best fits lacked column separators

---
 python/getdist/types.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/getdist/types.py b/python/getdist/types.py
index 01bcd91..4c10f0c 100644
--- a/python/getdist/types.py
+++ b/python/getdist/types.py
@@ -382,7 +382,8 @@ class ResultTable:
             txt += self.format.textAsColumn(values[0], values[0] != self.format.noConstraint)
             return txt
         else:
-            return self.format.textAsColumn('') * len(result.getColumnLabels(self.limit))
+            return self.format.colSeparator.join(
+                [self.format.textAsColumn('')] * len(result.getColumnLabels(self.limit)))
 
     def paramLabelColumn(self, param):
         return self.format.textAsColumn(param.getLabel(), True, separator=True, bold=not param.isDerived)
-- 
2.43.0


From d871e8d2486b7c6b9ea139928971ab824b9dd673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:13 +0000
Subject: [PATCH 63/89] fix: shifts in tables contained a latex line break, or
 started with a comma

---
 python/getdist/types.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/getdist/types.py b/python/getdist/types.py
index 4c10f0c..69c74b9 100644
--- a/python/getdist/types.py
+++ b/python/getdist/types.py
@@ -818,10 +818,12 @@ class MargeStats(ParamResults):
                         if shiftSigma_indep:
                             # give mean shift in sigma units for independent data
                             indep_sigma = np.sqrt(param.err ** 2 + refVal.err ** 2)
-                            res += ', %+.1f \\sigma_i' % (delta / indep_sigma)
+                            if shiftSigma_subset:
+                                res += ', '
+                            res += '%+.1f \\sigma_i' % (delta / indep_sigma)
                         res += ')'
                     else:
-                        res += r'\quad(%+.1f \\sigma)' % (delta / refVal.err)
+                        res += r'\quad(%+.1f \sigma)' % (delta / refVal.err)
             if self.hasBestFit:  # add best fit too
                 rangew = (lim.upper - lim.lower) / 10
                 bestfit, _, _, exponent = formatter.numberFormatter.namesigFigs(param.best_fit, rangew, -rangew,
-- 
2.43.0


From 4ccc2057247f0425125a0f98819b908e352c69bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:13 +0000
Subject: [PATCH 64/89] fix: tables of best fits, or of results not in a list,
 raised an error

---
 python/getdist/types.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/getdist/types.py b/python/getdist/types.py
index 69c74b9..7634456 100644
--- a/python/getdist/types.py
+++ b/python/getdist/types.py
@@ -288,6 +288,8 @@ class ResultTable:
         :param shiftSigma_subset: show parameter shifts in sigma assuming data are a subset of each other
         """
         # results is a margeStats or bestFit table
+        if isinstance(results, ParamResults):
+            results = [results]
         self.lines = []
         if formatter is None:
             self.format = NoLineTableFormatter()
@@ -503,7 +505,7 @@ class BestFit(ParamResults):
         if setParamNameFile is not None:
             self.setLabelsFromParamNames(setParamNameFile)
 
-    def getColumnLabels(self, **kwargs):
+    def getColumnLabels(self, limit=None, **kwargs):
         return ['Best fit']
 
     def loadFromFile(self, filename, want_fixed=False):
@@ -571,7 +573,7 @@ class BestFit(ParamResults):
                 return val.chisq
         return None
 
-    def texValues(self, formatter, p, **kwargs):
+    def texValues(self, formatter, p, limit=None, refResults=None, **kwargs):
         param = self.parWithName(p.name)
         if param is not None:
             return [formatter.numberFormatter.formatNumber(param.best_fit)]
-- 
2.43.0


From 37e688b25d5e772a513fc3cff09fe1c02003a216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:13 +0000
Subject: [PATCH 65/89] fix: formatting limits with one equal to the mean
 raised an error

---
 python/getdist/types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/types.py b/python/getdist/types.py
index 7634456..dffec8e 100644
--- a/python/getdist/types.py
+++ b/python/getdist/types.py
@@ -165,7 +165,7 @@ class NumberFormatter:
         return 0
 
     def plusMinusLimit(self, limit, upper, lower):
-        return limit != 1 or abs(abs(upper / lower) - 1) > self.separate_limit_tol
+        return limit != 1 or abs(abs(upper) - abs(lower)) > self.separate_limit_tol * abs(lower)
 
 
 class TableFormatter:
-- 
2.43.0


From 43fab3a68aee1d3129f5d88416cb448a5176ed0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:55 +0000
Subject: [PATCH 66/89] fix: values with more decimals than their error when
 rounding carries to a new digit

---
 python/getdist/types.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/getdist/types.py b/python/getdist/types.py
index dffec8e..dabd63d 100644
--- a/python/getdist/types.py
+++ b/python/getdist/types.py
@@ -129,6 +129,9 @@ class NumberFormatter:
         while self.decimal_places(plus_str) > self.decimal_places(res):
             sf += 1
             res = self.formatNumber(value, sf)
+        if self.decimal_places(res) > maxdp:
+            # when rounding up carries over to a new digit (e.g. 0.0996 to two figures)
+            res = ('%.' + str(maxdp) + 'f') % value
         if not self.decimal_places(plus_str):
             # large values have at least the digits down to the last significant figure of the error
             min_sf = len(str(int(abs(value)))) - max(0, len(plus_str.lstrip('+-')) - err_sf)
-- 
2.43.0


From 30d99ede142be770e23ac003f5364324b281b8cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:37:03 +0000
Subject: [PATCH 67/89] fix: formatting values with a zero error

---
 python/getdist/types.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/getdist/types.py b/python/getdist/types.py
index dabd63d..b9ee7fe 100644
--- a/python/getdist/types.py
+++ b/python/getdist/types.py
@@ -49,6 +49,8 @@ def numberFigs(number, sigfig, sci=False):
         d = decimal.Decimal(number)
     except TypeError:
         d = float_to_decimal(float(number))
+    if not d:
+        d = decimal.Decimal(0)  # whatever its exponent
     if sci:
         exponent = d.adjusted()
         if abs(exponent) > _sci_tolerance:
@@ -95,7 +97,7 @@ class NumberFormatter:
 
     # noinspection PyUnboundLocalVariable
     def namesigFigs(self, value, limplus, limminus, wantSign=True, sci=False):
-        frac = limplus / (abs(value) + limplus)
+        frac = limplus / ((abs(value) + limplus) or 1)
         sf = self.sig_figs
         if frac > 0.1 and 100 > value >= 20:
             sf = 2
-- 
2.43.0


From 90ee97ba11876aae9fde2f446897d0a3ba5968f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:47:54 +0000
Subject: [PATCH 68/89] fix: the limit type was read as the label of parameters
 without label in margestats files

---
 python/getdist/types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/types.py b/python/getdist/types.py
index b9ee7fe..330ce24 100644
--- a/python/getdist/types.py
+++ b/python/getdist/types.py
@@ -703,7 +703,7 @@ class MargeStats(ParamResults):
                 param.name = param.name[:-1]
             param.mean = float(items[1])
             param.err = float(items[2])
-            param.label = items[-1]
+            param.label = items[-1] if len(items) > len(self.limits) * 3 + 3 else ''
             param.limits = []
             for i in range(len(self.limits)):
                 param.limits.append(ParamLimit([float(s) for s in items[3 + i * 3:5 + i * 3]], items[5 + i * 3]))
-- 
2.43.0


From cf536c0140e96d42a3242ba4a408a1389cfb4be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:47:54 +0000
Subject: [PATCH 69/89] fix: a mean inverse likelihood of zero was not written
 to likestats files

---
 python/getdist/types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/types.py b/python/getdist/types.py
index 330ce24..f156514 100644
--- a/python/getdist/types.py
+++ b/python/getdist/types.py
@@ -868,7 +868,7 @@ class LikeStats(ParamResults):
 
     def likeSummary(self):
         text = "Best fit sample -log(Like) = %f\n" % self.logLike_sample
-        if self.logMeanInvLike:
+        if self.logMeanInvLike is not None:
             text += "Ln(mean 1/like) = %f\n" % self.logMeanInvLike
         text += "mean(-Ln(like)) = %f\n" % self.meanLogLike
         text += "-Ln(mean like)  = %f\n" % self.logMeanLike
-- 
2.43.0


From 802ffe6e8d4c6c22717fa2e94279b34d10d18932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:48:11 +0000
Subject: [PATCH 70/89] fix: best-fit files with parameters without label
 raised an error

---
 python/getdist/types.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/python/getdist/types.py b/python/getdist/types.py
index f156514..5d2b79d 100644
--- a/python/getdist/types.py
+++ b/python/getdist/types.py
@@ -559,9 +559,11 @@ class BestFit(ParamResults):
                 param = ParamInfo()
                 param.isFixed = isFixed
                 param.isDerived = isDerived
-                (param.number, param.best_fit, param.name, param.label) = [s.strip() for s in line.split(None, 3)]
-                param.number = int(param.number)
-                param.best_fit = float(param.best_fit)
+                items = [s.strip() for s in line.split(None, 3)]
+                param.number = int(items[0])
+                param.best_fit = float(items[1])
+                param.name = items[2]
+                param.label = items[3] if len(items) > 3 else ''
                 self.names.append(param)
 
     def sortedChiSquareds(self):
-- 
2.43.0


From 20b59f872a2b8d8f39fef180e013e68408d7fb29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:48:11 +0000
Subject: [PATCH 71/89] fix: parameters of a sample of samples without
 likelihoods raised an error

---
 python/getdist/chains.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/getdist/chains.py b/python/getdist/chains.py
index 2dc1927..cd79db5 100644
--- a/python/getdist/chains.py
+++ b/python/getdist/chains.py
@@ -1309,7 +1309,8 @@ class Chains(WeightedSamples):
         """
         res = dict()
         res['weight'] = self.weights[ix]
-        res['loglike'] = self.loglikes[ix]
+        if self.loglikes is not None:
+            res['loglike'] = self.loglikes[ix]
         for i, name in enumerate(self.paramNames.names):
             if want_derived or not name.isDerived:
                 res[name.name] = self.samples[ix, i]
-- 
2.43.0


From 940d9c8762e2867b51831eee2572ac3c7dc2b27f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:48:11 +0000
Subject: [PATCH 72/89] fix: convergence files with no auto-correlations, or
 parameters without label, were not read correctly

---
 python/getdist/types.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/getdist/types.py b/python/getdist/types.py
index 5d2b79d..a1d6afd 100644
--- a/python/getdist/types.py
+++ b/python/getdist/types.py
@@ -914,15 +914,17 @@ class ConvergeStats(ParamResults):
                         except Exception:
                             self.R_eigs.append('1e30')
                 elif 'Parameter auto-correlations' in textFileLines[i]:
-                    self.auto_correlation_steps = [int(s) for s in textFileLines[i + 2].split()]
                     self.auto_correlations = []
                     self.auto_correlation_pars = []
+                    # (nothing is written if there are not enough samples)
+                    self.auto_correlation_steps = [int(s) for s in ''.join(textFileLines[i + 2:i + 3]).split()]
                     for line in textFileLines[i + 3:]:
                         if len(line.strip()) == 0:
                             break
                         items = line.split(None, len(self.auto_correlation_steps) + 1)
                         self.auto_correlation_pars.append(items[0])
-                        self.auto_correlations.append([float(s) for s in items[1:-1]])
+                        self.auto_correlations.append(
+                            [float(s) for s in items[1:len(self.auto_correlation_steps) + 1]])
         except:
             print('Error reading: ' + filename)
             raise
-- 
2.43.0


From 6bfeb94a950f4d9d8050a70fbcbe15fb41b19fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:48:11 +0000
Subject: [PATCH 73/89] fix: parameters of the best-fit sample ignored
 want_derived and want_fixed

---
 python/getdist/mcsamples.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/mcsamples.py b/python/getdist/mcsamples.py
index 313b3ea..ba0fe04 100644
--- a/python/getdist/mcsamples.py
+++ b/python/getdist/mcsamples.py
@@ -2369,7 +2369,7 @@ class MCSamples(Chains):
         if best_sample:
             if not max_posterior:
                 raise ValueError('best_fit_sample is only maximum posterior')
-            return self.getParamSampleDict(np.argmin(self.loglikes))
+            return self.getParamSampleDict(np.argmin(self.loglikes), want_derived=want_derived, want_fixed=want_fixed)
         else:
             res = self.getBestFit(max_posterior=max_posterior).getParamDict(include_derived=want_derived)
         if want_fixed:
-- 
2.43.0


From f25019893e8cbd609b3d1851b6907776fc3ecb80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:57:27 +0000
Subject: [PATCH 74/89] fix: names of likelihoods without a kind in best-fit
 files read as lists

---
 python/getdist/types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/types.py b/python/getdist/types.py
index a1d6afd..aedc8a9 100644
--- a/python/getdist/types.py
+++ b/python/getdist/types.py
@@ -545,7 +545,7 @@ class BestFit(ParamResults):
                             if len(name) > 1:
                                 (kind, name) = name
                             else:
-                                kind = ''
+                                kind, name = '', name[0]
                             chi2 = LikelihoodChi2()
                             if '=' in name:
                                 chi2.tag, chi2.name = [s.strip() for s in name.split('=')]
-- 
2.43.0


From 05a4151b6498767eb7b2526856e812362f60642a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:58:23 +0000
Subject: [PATCH 75/89] fix: likelihood statistics read from a file could not
 be written

---
 python/getdist/types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/types.py b/python/getdist/types.py
index aedc8a9..380e627 100644
--- a/python/getdist/types.py
+++ b/python/getdist/types.py
@@ -886,8 +886,8 @@ class LikeStats(ParamResults):
 
     def __str__(self):
         text = self.likeSummary()
-        parForm = self.parFormat()
         if len(self.names):
+            parForm = self.parFormat()
             text += "\n"
             text += self.headerLine()
             for j, par in enumerate(self.names):
-- 
2.43.0


From aa474e20ae2a9077238f716ff3701956bb52463d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:16:00 +0000
Subject: [PATCH 76/89] fix: contour levels through edge bins were taken from
 half of the density

---
 python/getdist/densities.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/python/getdist/densities.py b/python/getdist/densities.py
index 3dd213a..b7d287b 100644
--- a/python/getdist/densities.py
+++ b/python/getdist/densities.py
@@ -43,8 +43,9 @@ def getContourLevels(inbins, contours=defaultContours, missing_norm=0, half_edge
     targets = (1 - np.array(contours)) * norm - missing_norm
     bins = abins.reshape(-1)
     indexes = inbins.reshape(-1).argsort()
-    sortgrid = bins[indexes]
-    cumsum = np.cumsum(sortgrid)
+    # levels are densities, also of edge bins that count half
+    sortgrid = inbins.reshape(-1)[indexes]
+    cumsum = np.cumsum(bins[indexes])
     ixs = np.searchsorted(cumsum, targets)
     for i, ix in enumerate(ixs):
         if ix == 0:
-- 
2.43.0


From 8012db07e9e88d80719fa7bb7a1a082817433225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:16:00 +0000
Subject: [PATCH 77/89] fix: Density2D.Prob returned nothing

---
 python/getdist/densities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/densities.py b/python/getdist/densities.py
index b7d287b..0acc67f 100644
--- a/python/getdist/densities.py
+++ b/python/getdist/densities.py
@@ -288,7 +288,7 @@ class Density2D(GridDensity):
         :param y: y value or array
         :param grid: whether to make a grid, see :class:`~scipy:scipy.interpolate.RectBivariateSpline`. Default False.
         """
-        self.__call__(x, y, grid=grid)
+        return self.__call__(x, y, grid=grid)
 
     def __call__(self, *args, **kwargs):
         if self.spl is None:
-- 
2.43.0


From afc1668ee89c357b32168bf1567f43d0442f6104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:41:49 +0000
Subject: [PATCH 78/89] fix: thinned output wrote the first samples instead of
 the thinned ones, all on one line

---
 python/getdist/mcsamples.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/python/getdist/mcsamples.py b/python/getdist/mcsamples.py
index ba0fe04..15c0939 100644
--- a/python/getdist/mcsamples.py
+++ b/python/getdist/mcsamples.py
@@ -559,21 +559,18 @@ class MCSamples(Chains):
             logging.info('Cooled thinned output with temp: %s', cool)
         MaxL = np.max(self.loglikes)
         with open(fname, 'w', encoding='utf-8') as f:
-            i = 0
             for thin in thin_ix:
                 if cool != 1:
                     newL = self.loglikes[thin] * cool
                     f.write("%16.7E" % (
                         np.exp(-(newL - self.loglikes[thin]) - MaxL * (1 - cool))))
                     f.write("%16.7E" % newL)
-                    for j in range(nparams):
-                        f.write("%16.7E" % (self.samples[i][j]))
                 else:
-                    f.write("%f" % 1.)
-                    f.write("%f" % (self.loglikes[thin]))
-                    for j in range(nparams):
-                        f.write("%16.7E" % (self.samples[i][j]))
-                i += 1
+                    f.write("%16.7E" % 1.)
+                    f.write("%16.7E" % (self.loglikes[thin]))
+                for j in range(nparams):
+                    f.write("%16.7E" % (self.samples[thin][j]))
+                f.write("\n")
         print('Wrote ', len(thin_ix), ' thinned samples')
 
     def getCovMat(self):
-- 
2.43.0


From 7ddae73aa2edea90b9ca4ed1d1ea65ad190ccf65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:41:49 +0000
Subject: [PATCH 79/89] fix: samples with dotted parameter names could not be
 combined with other samples

---
 python/getdist/mcsamples.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/python/getdist/mcsamples.py b/python/getdist/mcsamples.py
index 15c0939..465420a 100644
--- a/python/getdist/mcsamples.py
+++ b/python/getdist/mcsamples.py
@@ -2411,9 +2411,7 @@ class MCSamples(Chains):
         else:
             fac = np.sum(self.weights) / np.sum(samps2.weights)
         weights = np.concatenate([self.weights * sample_weights[0], samps2.weights * sample_weights[1] * fac])
-        p1 = self.getParams()
-        p2 = samps2.getParams()
-        samples = np.array([np.concatenate([getattr(p1, name), getattr(p2, name)]) for name in params.list()]).T
+        samples = np.array([np.concatenate([self[name], samps2[name]]) for name in params.list()]).T
         samps = MCSamples(samples=samples, weights=weights, loglikes=loglikes, paramNamesFile=params, ignore_rows=0,
                           ranges=self.ranges, settings=copy.deepcopy(self.ini.params))
         return samps
-- 
2.43.0


From c74cf933d50605980ff835b10bc8ea2d4996746f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:41:49 +0000
Subject: [PATCH 80/89] fix: chainNames gave the names of chains 0..n-1 instead
 of 1..n

---
 python/paramgrid/batchjob.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/paramgrid/batchjob.py b/python/paramgrid/batchjob.py
index 5d19dba..661a969 100644
--- a/python/paramgrid/batchjob.py
+++ b/python/paramgrid/batchjob.py
@@ -344,7 +344,7 @@ class jobItem(propertiesItem):
 
     def chainNames(self, num_chains=None):
         if num_chains:
-            return [self.chainName(i) for i in range(num_chains)]
+            return [self.chainName(i + 1) for i in range(num_chains)]
         else:
             i = 1
             chains = []
-- 
2.43.0


From 244084da80a34c9685650bac164fbf65d6cb49b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:01:06 +0000
Subject: [PATCH 81/89] fix: a normalized 1D plot changed the density of later
 plots and of the samples

---
 python/getdist/plots.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/getdist/plots.py b/python/getdist/plots.py
index 60b0ec0..10794eb 100644
--- a/python/getdist/plots.py
+++ b/python/getdist/plots.py
@@ -973,6 +973,7 @@ class GetDistPlotter(_BaseObject):
 
         title_limit = title_limit if title_limit is not None else self.settings.title_limit
         if normalized:
+            density = copy.copy(density)  # the original is cached
             density.normalize()
 
         kwargs = self._get_line_styles(plotno, **kwargs)
-- 
2.43.0


From 92755b83d7826b9a0ca6fc9f16ce0ac6d57987d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:01:06 +0000
Subject: [PATCH 82/89] fix: plot_args setting collected the colour and style
 of lines already drawn

---
 python/getdist/plots.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/getdist/plots.py b/python/getdist/plots.py
index 10794eb..231bfba 100644
--- a/python/getdist/plots.py
+++ b/python/getdist/plots.py
@@ -783,6 +783,7 @@ class GetDistPlotter(_BaseObject):
         else:
             raise GetDistPlotError(
                 'plot_args must be list of dictionaries or dictionary: %s' % self.settings.plot_args)
+        args = dict(args)
         args.update(kwargs)
         return args
 
-- 
2.43.0


From d053a7fc57f5e4d7b2a0870bfdab51455fdf427d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:01:06 +0000
Subject: [PATCH 83/89] fix: line_args and contour_args lists of the caller
 were modified

---
 python/getdist/plots.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/getdist/plots.py b/python/getdist/plots.py
index 231bfba..f93f77b 100644
--- a/python/getdist/plots.py
+++ b/python/getdist/plots.py
@@ -1367,6 +1367,8 @@ class GetDistPlotter(_BaseObject):
             line_args = [{}] * nroots
         elif isinstance(line_args, Mapping):
             line_args = [line_args] * nroots
+        else:
+            line_args = list(line_args)
         if len(line_args) < nroots:
             line_args += [{}] * (nroots - len(line_args))
         colors = self._get_color_at_index(kwargs.get('colors'))
-- 
2.43.0


From cc435ec8a979f3721b176a8d15364d4a9188b543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:10:37 +0000
Subject: [PATCH 84/89] fix: legend of 2D plots lost samples when several were
 missing from the first panel

---
 python/getdist/plots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/plots.py b/python/getdist/plots.py
index f93f77b..93c02a5 100644
--- a/python/getdist/plots.py
+++ b/python/getdist/plots.py
@@ -1074,7 +1074,7 @@ class GetDistPlotter(_BaseObject):
         if add_legend_proxy:
             proxy_ix = len(self.contours_added)
             self.contours_added.append(None)
-        elif None in self.contours_added and self.contours_added.index(None) == plotno:
+        elif 0 <= plotno < len(self.contours_added) and self.contours_added[plotno] is None:
             proxy_ix = plotno
         else:
             proxy_ix = -1
-- 
2.43.0


From f3b9c309b6ff82edaf0716f8af035b4c6cc4f127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:11:12 +0000
Subject: [PATCH 85/89] fix: legend of triangle plots with upper_roots gave
 samples the colour of others

---
 python/getdist/plots.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/python/getdist/plots.py b/python/getdist/plots.py
index 93c02a5..0ee1d65 100644
--- a/python/getdist/plots.py
+++ b/python/getdist/plots.py
@@ -1020,7 +1020,8 @@ class GetDistPlotter(_BaseObject):
         return self.add_2d_contours(None, density=density, **kwargs)
 
     def add_2d_contours(self, root, param1=None, param2=None, plotno=0, of=None, cols=None, contour_levels=None,
-                        add_legend_proxy=True, param_pair=None, density=None, alpha=None, ax=None, **kwargs):
+                        add_legend_proxy=True, param_pair=None, density=None, alpha=None, ax=None, legend_ix=None,
+                        **kwargs):
         """
         Low-level function to add 2D contours to plot for samples with given root name and parameters
 
@@ -1039,6 +1040,7 @@ class GetDistPlotter(_BaseObject):
         :param alpha: alpha for the contours added
         :param ax: optional :class:`~matplotlib:matplotlib.axes.Axes` instance (or y,x subplot coordinate)
                    to add to (defaults to current plot or the first/main plot if none)
+        :param legend_ix: position in the legend of samples already listed there (default: plotno)
         :param kwargs: optional keyword arguments:
 
                - **filled**: True to make filled contours
@@ -1074,10 +1076,10 @@ class GetDistPlotter(_BaseObject):
         if add_legend_proxy:
             proxy_ix = len(self.contours_added)
             self.contours_added.append(None)
-        elif 0 <= plotno < len(self.contours_added) and self.contours_added[plotno] is None:
-            proxy_ix = plotno
         else:
-            proxy_ix = -1
+            proxy_ix = plotno if legend_ix is None else legend_ix
+            if not 0 <= proxy_ix < len(self.contours_added) or self.contours_added[proxy_ix] is not None:
+                proxy_ix = -1
 
         def clean_args(_args):  # prevent unused argument warnings
             _args = dict(_args)
@@ -1676,6 +1678,7 @@ class GetDistPlotter(_BaseObject):
             param_pair = param1
             param1 = None
         _no_finish = kwargs.pop('_no_finish', False)
+        legend_roots = kwargs.pop('_legend_roots', None)
         param_pair = self.get_param_array(roots[0], param_pair or [param1, param2])
         ax = self.get_axes(ax, pars=param_pair)
         if self.settings.progress:
@@ -1687,6 +1690,7 @@ class GetDistPlotter(_BaseObject):
         for i, root in enumerate(roots):
             res = self.add_2d_contours(root, param_pair[0], param_pair[1], line_offset + i, of=len(roots), ax=ax,
                                        add_legend_proxy=add_legend_proxy and root not in proxy_root_exclude,
+                                       legend_ix=legend_roots.index(root) if legend_roots else None,
                                        **contour_args[i])
             xbounds, ybounds = self._update_limits(res, xbounds, ybounds)
         if xbounds is None:
@@ -2513,6 +2517,7 @@ class GetDistPlotter(_BaseObject):
                                      no_label_no_numbers=self.settings.no_triangle_axis_labels, shaded=shaded,
                                      add_legend_proxy=i == 0 and i2 == 1, ax=ax,
                                      proxy_root_exclude=[root for root in upper_roots if root in roots],
+                                     _legend_roots=roots + [root for root in upper_roots if root not in roots],
                                      contour_args=upper_contour_args)
                     if marker is not None:
                         self.add_y_marker(marker, ax=ax, **marker_args)
-- 
2.43.0


From 76040b3136787714bb5c2fa1a4b5accb93dd2562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:02 +0000
Subject: [PATCH 86/89] fix: densities of short correlated chains raised an
 error

---
 python/getdist/chains.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/chains.py b/python/getdist/chains.py
index cd79db5..5eda1b9 100644
--- a/python/getdist/chains.py
+++ b/python/getdist/chains.py
@@ -527,7 +527,7 @@ class WeightedSamples:
             uncorr_term += np.dot(np.exp(-diff2 / 4) * self.weights[:-k], self.weights[k:])
         uncorr_term /= nav
 
-        corr = np.zeros(maxoff + 1)
+        corr = np.zeros(max(maxoff, 2) + 1)
         corr[0] = np.dot(self.weights, self.weights)
         n = float(self.numrows)
 
-- 
2.43.0


From 5361a2a59bd7adccd258425d9ceccf33d1bb8bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:02 +0000
Subject: [PATCH 87/89] fix: settings of directories without the chain were
 used when loading samples by name

---
 python/getdist/plots.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/getdist/plots.py b/python/getdist/plots.py
index 0ee1d65..bd4fc2e 100644
--- a/python/getdist/plots.py
+++ b/python/getdist/plots.py
@@ -512,10 +512,10 @@ class MCSampleAnalysis(_BaseObject):
                         break
                 else:
                     file_root = findChainFileRoot(chain_dir, root)
-                    dir_ini = os.path.join(chain_dir, 'getdist.ini')
-                    if os.path.exists(dir_ini):
-                        dist_settings.update(IniFile(dir_ini).params)
                     if file_root:
+                        dir_ini = os.path.join(chain_dir, 'getdist.ini')
+                        if os.path.exists(dir_ini):
+                            dist_settings.update(IniFile(dir_ini).params)
                         break
 
         if not file_root:
-- 
2.43.0


From b397906d47d9253a842f699854d40364cbd9e6b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:06 +0000
Subject: [PATCH 88/89] fix: samples loaded again were plotted with the
 densities of those loaded before

---
 python/getdist/plots.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/getdist/plots.py b/python/getdist/plots.py
index bd4fc2e..0383f0f 100644
--- a/python/getdist/plots.py
+++ b/python/getdist/plots.py
@@ -524,7 +524,9 @@ class MCSampleAnalysis(_BaseObject):
             dist_settings.update(self.ini.params)
             if settings:
                 dist_settings.update(settings)
-        self.mcsamples[root] = loadMCSamples(file_root, self.ini, job_item, settings=dist_settings)
+        samples = loadMCSamples(file_root, self.ini, job_item, settings=dist_settings)
+        self.remove_root(root)  # densities in memory are of samples loaded before
+        self.mcsamples[root] = samples
         return self.mcsamples[root]
 
     def add_roots(self, roots):
-- 
2.43.0


From ffac67d2cd5b3fa33a8ccd4cb35364217e8fcca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:48 +0000
Subject: [PATCH 89/89] fix: plot scripts of analyses with another output name
 did not find the chains

---
 python/getdist/mcsamples.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/mcsamples.py b/python/getdist/mcsamples.py
index 465420a..b882c67 100644
--- a/python/getdist/mcsamples.py
+++ b/python/getdist/mcsamples.py
@@ -2548,7 +2548,7 @@ class MCSamples(Chains):
             f.write("g=plots.GetDistPlotter(chain_dir=r'%s')\n" % (self.batch_path or os.path.dirname(self.root)))
 
             f.write("g.settings.set_with_subplot_size(%s)\n" % subplot_size)
-            f.write("roots = ['%s']\n" % self.rootname)
+            f.write("roots = ['%s']\n" % os.path.basename(self.root))
             f.write(text + '\n')
             ext = ext or self.plot_output
             fname = self.rootname + tag + '.' + ext
-- 
2.43.0


From cbd1f57de39895781b445098f857241cc770652d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:56 +0000
Subject: [PATCH 01/31] fix: merge_clusters_2d discards the sorted list and
 refuses clusters in another order

---
 spta/region/partition.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spta/region/partition.py b/spta/region/partition.py
index 7db158a..7ee36d3 100644
--- a/spta/region/partition.py
+++ b/spta/region/partition.py
@@ -302,7 +302,7 @@ class PartitionRegionCrisp(PartitionRegion):
             assert cluster.y_len == self.y_len
 
         # order clusters by their index
-        sorted(spatial_clusters, key=lambda cluster: cluster.cluster_index)
+        spatial_clusters = sorted(spatial_clusters, key=lambda cluster: cluster.cluster_index)
 
         # sanity checks: there are k clusters, and all indices are present
         indices = [
-- 
2.43.0


From 0da692d316befa00133d9893ed618818975787d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:56 +0000
Subject: [PATCH 02/31] fix: PartitionRegion.cluster_len counts no member

---
 spta/region/partition.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spta/region/partition.py b/spta/region/partition.py
index 7ee36d3..9df9900 100644
--- a/spta/region/partition.py
+++ b/spta/region/partition.py
@@ -109,7 +109,7 @@ class PartitionRegion(BaseRegion):
         members = 0
         for point in self:
             if self.is_member(point, cluster_index):
-                members += 0
+                members += 1
         return members
 
     def clone(self):
-- 
2.43.0


From a4a593aadd8829deb5fca9fc4c1a4ee66261382b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:56 +0000
Subject: [PATCH 03/31] fix: create_all_spt_clusters fails for arrays of
 centroid indices or medoids

---
 spta/region/partition.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spta/region/partition.py b/spta/region/partition.py
index 9df9900..7048468 100644
--- a/spta/region/partition.py
+++ b/spta/region/partition.py
@@ -182,7 +182,7 @@ class PartitionRegion(BaseRegion):
             cluster_i.name = 'cluster{}'.format(i)
 
             # centroids available?
-            if centroid_indices:
+            if centroid_indices is not None:
                 centroid_index = centroid_indices[i]
                 ci = int(centroid_index / self.y_len)
                 cj = centroid_index % self.y_len
@@ -190,7 +190,7 @@ class PartitionRegion(BaseRegion):
                 cluster_i.centroid = centroid_i
 
             # medoids available?
-            if medoids:
+            if medoids is not None:
                 cluster_i.centroid = medoids[i]
 
             clusters.append(cluster_i)
-- 
2.43.0


From 2d9420a2cf7a2ca6cb1817c30c05c0ba49dbd4f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:56 +0000
Subject: [PATCH 04/31] fix: SpatioTemporalScaled.save asks the metadata for
 attributes it does not have

---
 spta/region/scaling.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spta/region/scaling.py b/spta/region/scaling.py
index b815b9b..c967c43 100644
--- a/spta/region/scaling.py
+++ b/spta/region/scaling.py
@@ -209,12 +209,12 @@ class SpatioTemporalScaled(SpatioTemporalDecorator):
         super(SpatioTemporalScaled, self).save()
 
         # save min
-        min_filename = self.region_metadata.scale_min_filename
+        min_filename = self.region_metadata.scaled_min_filename
         np.save(min_filename, self.scale_min.numpy_dataset)
         self.logger.info('Saved scale_min to {}'.format(min_filename))
 
         # save max
-        max_filename = self.region_metadata.scale_max_filename
+        max_filename = self.region_metadata.scaled_max_filename
         np.save(max_filename, self.scale_max.numpy_dataset)
         self.logger.info('Saved scale_max to {}'.format(max_filename))
 
-- 
2.43.0


From 957a23832d4bcc69ced3fed74e56805a501174e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:56 +0000
Subject: [PATCH 05/31] fix: get_centroid calls a method that does not exist

---
 spta/region/temporal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spta/region/temporal.py b/spta/region/temporal.py
index c98e948..658dfa1 100644
--- a/spta/region/temporal.py
+++ b/spta/region/temporal.py
@@ -109,7 +109,7 @@ class SpatioTemporalRegion(DomainRegion):
             # calculate the centroid, ugly but works...
             from . import centroid
             centroid_calc = centroid.CalculateCentroid(distance_measure)
-            self.centroid, _ = centroid_calc.find_centroid_and_cost(self)
+            self.centroid, _ = centroid_calc.find_centroid_and_distances(self)
             return self.centroid
 
     def has_centroid(self):
-- 
2.43.0


From d9f43fc0dfb90cb7aada3117e4b455adbd9a37d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:21 +0000
Subject: [PATCH 06/31] fix: a scaled region cannot be saved when only the
 scaled region has the metadata

---
 spta/region/scaling.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/spta/region/scaling.py b/spta/region/scaling.py
index c967c43..be492f8 100644
--- a/spta/region/scaling.py
+++ b/spta/region/scaling.py
@@ -5,7 +5,7 @@ This module handles scale and descale of spatio-temporal regions.
 import numpy as np
 
 from .function import FunctionRegionScalarSame, FunctionRegionSeries, FunctionRegionSeriesSame
-from .temporal import SpatioTemporalDecorator
+from .temporal import SpatioTemporalDecorator, SpatioTemporalRegion
 
 
 class ScaleFunction(FunctionRegionSeriesSame):
@@ -205,8 +205,8 @@ class SpatioTemporalScaled(SpatioTemporalDecorator):
         Requires the metadata!
         '''
 
-        # save dataset
-        super(SpatioTemporalScaled, self).save()
+        # save dataset: this region has the metadata, the decorated region may not have it
+        SpatioTemporalRegion.save(self)
 
         # save min
         min_filename = self.region_metadata.scaled_min_filename
-- 
2.43.0


From 6875c599141f50edc6c868e11299e6eb1e978ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:21 +0000
Subject: [PATCH 07/31] fix: a region and time subset of a scaled region keeps
 the scaling data of the whole region

---
 spta/region/scaling.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/spta/region/scaling.py b/spta/region/scaling.py
index be492f8..e38fd1d 100644
--- a/spta/region/scaling.py
+++ b/spta/region/scaling.py
@@ -150,6 +150,12 @@ class SpatioTemporalScaled(SpatioTemporalDecorator):
                                     scale_min=scale_min_subset,
                                     scale_max=scale_max_subset)
 
+    def subset(self, region, ti):
+        '''
+        The scaling data must match the rectangle of the subset, see region_subset.
+        '''
+        return self.region_subset(region).interval_subset(ti)
+
     def has_scaling(self):
         '''
         Flag to indicate that the region can be descaled (yes here!)
-- 
2.43.0


From f6ee67a5ea8cb169a849defe91e81b77059e67c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:21 +0000
Subject: [PATCH 08/31] fix: repeat_point fails for scaled regions and
 spatio-temporal clusters

---
 spta/region/temporal.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/spta/region/temporal.py b/spta/region/temporal.py
index 658dfa1..3ae8ca6 100644
--- a/spta/region/temporal.py
+++ b/spta/region/temporal.py
@@ -237,6 +237,10 @@ class SpatioTemporalDecorator(SpatialDecorator, SpatioTemporalRegion):
     def series_at(self, point):
         return self.decorated_region.series_at(point)
 
+    def repeat_point(self, point):
+        # the decorator would inherit this from SpatialRegion, which has no series
+        return SpatioTemporalRegion.repeat_point(self, point)
+
     def has_centroid(self):
         # if a centroid has been set at parent, honor it
         # TODO we should avoid this?
-- 
2.43.0


From 8d193523e69e2739cebfb677d56cd9362eb7099c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:59 +0000
Subject: [PATCH 09/31] fix: the spatial weight is not added when the distance
 matrix is loaded again

---
 spta/distance/dtw.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/spta/distance/dtw.py b/spta/distance/dtw.py
index 81908a7..08a2e69 100644
--- a/spta/distance/dtw.py
+++ b/spta/distance/dtw.py
@@ -194,7 +194,11 @@ class DistanceBySpatialDTW(DistanceByDTW):
         '''
 
         # read normally
-        super(DistanceBySpatialDTW, self).load_distance_matrix_2d(filename, expected_region)
+        loaded_matrix = super(DistanceBySpatialDTW, self).load_distance_matrix_2d(filename, expected_region)
+
+        # a matrix that was just loaded has no weight yet, even if a previous matrix had it
+        if loaded_matrix is not None:
+            self.weighted = False
 
         # add the weight
         return self.weight_distance_matrix(expected_region)
-- 
2.43.0


From 16d5eb693217cb96439bf431f23c18bcedf8eeee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:59 +0000
Subject: [PATCH 10/31] fix: DistanceBySpatialDTW shares the stored results of
 DistanceByDTW

---
 spta/distance/dtw.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/spta/distance/dtw.py b/spta/distance/dtw.py
index 08a2e69..e706545 100644
--- a/spta/distance/dtw.py
+++ b/spta/distance/dtw.py
@@ -203,6 +203,12 @@ class DistanceBySpatialDTW(DistanceByDTW):
         # add the weight
         return self.weight_distance_matrix(expected_region)
 
+    def __repr__(self):
+        '''
+        Different to DistanceByDTW, because the results are different and cannot share files.
+        '''
+        return 'dtw_spatial_w{}'.format(self.weight)
+
 
 if __name__ == '__main__':
     from spta.util import log as log_util
-- 
2.43.0


From 00ec249f1a55629ad76682fefe6fc86696c143ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:16 +0000
Subject: [PATCH 11/31] fix: distances_to_point stops on an assertion when the
 matrix file is missing

---
 spta/distance/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spta/distance/__init__.py b/spta/distance/__init__.py
index 24c33c5..516b350 100644
--- a/spta/distance/__init__.py
+++ b/spta/distance/__init__.py
@@ -122,7 +122,8 @@ class DistanceBetweenSeries(log_util.LoggerMixin):
             try:
                 # can we load a saved distance matrix?
                 # this requires the metadata of the region
-                self.load_distance_matrix_md(spt_region.region_metadata)
+                if self.load_distance_matrix_md(spt_region.region_metadata) is None:
+                    raise ValueError('Distance matrix file not found')
 
             except Exception as err:
 
-- 
2.43.0


From d732898f66a9259180a9b87389d463ca61dcdab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:34 +0000
Subject: [PATCH 12/31] fix: a cluster takes the centroid of the whole region
 for its own

---
 spta/region/temporal.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/spta/region/temporal.py b/spta/region/temporal.py
index 3ae8ca6..0870351 100644
--- a/spta/region/temporal.py
+++ b/spta/region/temporal.py
@@ -337,6 +337,13 @@ class SpatioTemporalCluster(SpatialCluster, SpatioTemporalDecorator):
                                      cluster_index=self.cluster_index,
                                      region_metadata=self.region_metadata)
 
+    def has_centroid(self):
+        # the centroid of the decorated region is not the centroid of this cluster
+        return SpatioTemporalRegion.has_centroid(self)
+
+    def get_centroid(self, distance_measure=None):
+        return SpatioTemporalRegion.get_centroid(self, distance_measure)
+
     def region_subset(self, region):
         # not allowed for now!
         raise NotImplementedError
-- 
2.43.0


From b9312404c6be258858820f775cba51dd0ad2ed7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:51 +0000
Subject: [PATCH 13/31] fix: k-medoids report fails when a cluster has no
 members

---
 spta/kmedoids/kmedoids.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spta/kmedoids/kmedoids.py b/spta/kmedoids/kmedoids.py
index 13d4198..c4a920c 100644
--- a/spta/kmedoids/kmedoids.py
+++ b/spta/kmedoids/kmedoids.py
@@ -224,7 +224,8 @@ def show_report(result, elapsed_time):
     logger.info('Elapsed time: {:.2f}s'.format(elapsed_time))
 
     # calculate size of each cluster: count the number of members for each label
-    _, points_per_cluster = np.unique(result.labels, return_counts=True)
+    # a cluster has no members if another medoid is at no distance of its own medoid
+    points_per_cluster = np.bincount(result.labels, minlength=result.k)
     total_points = len(result.labels)
 
     for i in range(0, result.k):
-- 
2.43.0


From 8af066ede6cbf484d74bb561d75df612d81b7c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:51 +0000
Subject: [PATCH 14/31] fix: fuzzy k-medoids has no memberships when the first
 medoids are the best

---
 spta/kmedoids/kmedoids_fuzzy.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/spta/kmedoids/kmedoids_fuzzy.py b/spta/kmedoids/kmedoids_fuzzy.py
index 4249091..e2f9803 100644
--- a/spta/kmedoids/kmedoids_fuzzy.py
+++ b/spta/kmedoids/kmedoids_fuzzy.py
@@ -167,8 +167,7 @@ def run_kmedoids_fuzzy(X, k, m, distance_measure, initial_medoids=None, random_s
     medoids = choose_initial_medoids(X, k, random_seed, initial_medoids)
 
     # assign initial members
-    labels, costs, tot_cost, dist_mat = compute_membership_fcm(X, m, medoids, distance_measure,
-                                                               tol)
+    uij, costs, tot_cost, dist_mat = compute_membership_fcm(X, m, medoids, distance_measure, tol)
     cc, SWAPPED = 0, True
 
     while True:
-- 
2.43.0


From e7d11c0301995332431c6c3222605bc85320d44b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:26 +0000
Subject: [PATCH 15/31] fix: clustering descriptions that differ in seed, mode
 or initial medoids compare equal

---
 spta/clustering/__init__.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/spta/clustering/__init__.py b/spta/clustering/__init__.py
index 243fa1a..fbe5358 100644
--- a/spta/clustering/__init__.py
+++ b/spta/clustering/__init__.py
@@ -60,10 +60,11 @@ class ClusteringMetadata():
         return '{}: k={}'.format(self.name.capitalize(), self.k)
 
     def __eq__(self, other):
-        return self.name == other.name and self.k == other.k
+        # the representation holds every parameter that changes the result
+        return repr(self) == repr(other)
 
     def __hash__(self):
-        return hash((self.name, self.k))
+        return hash(repr(self))
 
 
 class ClusteringAlgorithm(log_util.LoggerMixin):
-- 
2.43.0


From c56c4ec468115b32191c37cff127a183e5b2679a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:26 +0000
Subject: [PATCH 16/31] fix: k-medoids descriptions with different max_iter or
 tol have the same text

---
 spta/clustering/kmedoids.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/spta/clustering/kmedoids.py b/spta/clustering/kmedoids.py
index 672db74..cacc4ec 100644
--- a/spta/clustering/kmedoids.py
+++ b/spta/clustering/kmedoids.py
@@ -7,13 +7,17 @@ from spta.kmedoids.kmedoids import run_kmedoids
 from . import ClusteringMetadata, ClusteringAlgorithm
 
 
+DEFAULT_MAX_ITER = 1000
+DEFAULT_TOL = 0.001
+
+
 class KmedoidsClusteringMetadata(ClusteringMetadata):
     '''
     Stores metadata for k-medoids clustering algorithm.
     '''
 
-    def __init__(self, k, random_seed=1, mode='lite', initial_medoids=None, max_iter=1000,
-                 tol=0.001, verbose=True):
+    def __init__(self, k, random_seed=1, mode='lite', initial_medoids=None,
+                 max_iter=DEFAULT_MAX_ITER, tol=DEFAULT_TOL, verbose=True):
         '''
         Sets up the k-medoids metadata with default values. The value of k is still required.
         '''
@@ -44,6 +48,12 @@ class KmedoidsClusteringMetadata(ClusteringMetadata):
             indices_str = '-'.join(indices_str)
             r = '{}_im{}'.format(r, indices_str)
 
+        # these also change the result, the default values are not mentioned
+        if self.max_iter != DEFAULT_MAX_ITER:
+            r = '{}_maxiter{}'.format(r, self.max_iter)
+        if self.tol != DEFAULT_TOL:
+            r = '{}_tol{}'.format(r, float(self.tol))
+
         return r
 
     def __str__(self):
-- 
2.43.0


From eebcffa7adfacd2e92955f0a5c408a1f2af9bb36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:26 +0000
Subject: [PATCH 17/31] fix: k-medoids descriptions lose the initial medoids,
 max_iter and tol when parsed

---
 spta/clustering/kmedoids.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/spta/clustering/kmedoids.py b/spta/clustering/kmedoids.py
index cacc4ec..f73cb02 100644
--- a/spta/clustering/kmedoids.py
+++ b/spta/clustering/kmedoids.py
@@ -67,7 +67,6 @@ class KmedoidsClusteringMetadata(ClusteringMetadata):
     def from_repr(cls, repr_string):
         '''
         Given the representation, recover the instance.
-        NOTE: This implementation assumes that initial_medoids has not been set!
         '''
         parts = repr_string.split('_')
         assert parts[0] == 'kmedoids'
@@ -82,7 +81,20 @@ class KmedoidsClusteringMetadata(ClusteringMetadata):
 
         # 3. mode
         mode = parts[3]   # e.g. lite
-        return KmedoidsClusteringMetadata(k, random_seed=random_seed, mode=mode)
+
+        # 4. optional parameters, only mentioned when they differ from the default
+        optional = {}
+        for part in parts[4:]:
+            if part.startswith('im'):   # e.g. im1-2-3
+                optional['initial_medoids'] = [int(index) for index in part[2:].split('-')]
+            elif part.startswith('maxiter'):   # e.g. maxiter100
+                optional['max_iter'] = int(part[7:])
+            elif part.startswith('tol'):   # e.g. tol0.1
+                optional['tol'] = float(part[3:])
+            else:
+                raise ValueError('Invalid representation of k-medoids: {}'.format(repr_string))
+
+        return KmedoidsClusteringMetadata(k, random_seed=random_seed, mode=mode, **optional)
 
     @classmethod
     def from_classifier_label(cls, classifier_label, mode='lite'):
-- 
2.43.0


From 1582b18bc169dba09ebbb55e8ad68142cc184e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:26 +0000
Subject: [PATCH 18/31] fix: the elbow of one seed asks for the costs of all
 seeds

---
 spta/clustering/suite.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spta/clustering/suite.py b/spta/clustering/suite.py
index 777eab8..ae26cef 100644
--- a/spta/clustering/suite.py
+++ b/spta/clustering/suite.py
@@ -394,7 +394,8 @@ class FindSuiteElbow(log_util.LoggerMixin):
             for metadata in ordered_metadata_instances:
                 costs_by_metadata_for_this_seed[metadata] = costs_by_metadata[metadata]
 
-            elbow_for_this_seed = self.find_cost_elbow_given_order(costs_by_metadata, ordered_metadata_instances)
+            elbow_for_this_seed = self.find_cost_elbow_given_order(costs_by_metadata_for_this_seed,
+                                                                   ordered_metadata_instances)
             elbows_by_seed[seed] = elbow_for_this_seed
 
         return elbows_by_seed
-- 
2.43.0


From c5152a6d13772afeb0e71e0be275a4fb4afb63f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:26 +0000
Subject: [PATCH 19/31] fix: a clustering suite cannot be created for a single
 value of k

---
 spta/clustering/suite.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/spta/clustering/suite.py b/spta/clustering/suite.py
index ae26cef..ae6f0dc 100644
--- a/spta/clustering/suite.py
+++ b/spta/clustering/suite.py
@@ -72,6 +72,9 @@ class ClusteringSuite(log_util.LoggerMixin):
 
         # required
         ks = parameter_combinations.pop('k')
+        if isinstance(ks, int):
+            # single value, convert to list
+            ks = (ks,)
 
         # optional
         random_seeds = (1,)   # ugly but need to iterate in regular...
-- 
2.43.0


From ad2aface57627f2207129f1fbf244886d4b35baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:26 +0000
Subject: [PATCH 20/31] fix: partitions are stored in and loaded from the
 default place, not the one asked for

---
 spta/clustering/__init__.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/spta/clustering/__init__.py b/spta/clustering/__init__.py
index fbe5358..bae545c 100644
--- a/spta/clustering/__init__.py
+++ b/spta/clustering/__init__.py
@@ -211,7 +211,7 @@ class ClusteringAlgorithm(log_util.LoggerMixin):
         Saves a partition as a pickle objct, using its to_pickle(path) method. The path is
         calculated by the clustering metadata.
         '''
-        pickle_full_path = self.pickle_full_path(region_metadata)
+        pickle_full_path = self.pickle_full_path(region_metadata, pickle_home)
 
         # the partition can save itself
         partition.to_pickle(pickle_full_path)
@@ -242,19 +242,19 @@ class ClusteringAlgorithm(log_util.LoggerMixin):
         Should be successful if save_partition() was called before, will raise an exception
         if no saved partition is found.
         '''
-        pickle_full_path = self.pickle_full_path(region_metadata)
+        pickle_full_path = self.pickle_full_path(region_metadata, pickle_home)
         partition = PartitionRegion.try_from_pickle(pickle_full_path)
 
         self.logger.info('Loaded previously calculated partition from {}'.format(pickle_full_path))
         return partition
 
-    def pickle_full_path(self, region_metadata):
+    def pickle_full_path(self, region_metadata, pickle_home='pickle'):
         '''
         Calculates the path for persisting partition objects via pickle. The path is calculated by
         the clustering metadata.
         '''
         # path to store/load pickle objects given metadata
-        pickle_dir = self.metadata.pickle_dir(region_metadata, self.distance_measure)
+        pickle_dir = self.metadata.pickle_dir(region_metadata, self.distance_measure, pickle_home)
 
         # use a fixed name, assuming that the metadata uniquely identifies the created partition...
         return os.path.join(pickle_dir, self.partition_pickle_filename)
-- 
2.43.0


From 6621b9f167525f91967a606ab6ad2b172b84deea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:26 +0000
Subject: [PATCH 21/31] fix: partition_2d asks a spatial region for metadata it
 does not have

---
 spta/clustering/regular.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spta/clustering/regular.py b/spta/clustering/regular.py
index 4b2037e..2276e52 100644
--- a/spta/clustering/regular.py
+++ b/spta/clustering/regular.py
@@ -53,7 +53,7 @@ class RegularClusteringAlgorithm(ClusteringAlgorithm):
         Create a regular partition for a spatial region, no medoids.
         '''
         # The partition method also works for spatial regions, notice how the shape is extracted.
-        return self.partition(spatial_region, with_medoids=False)
+        return self.partition_impl(spatial_region, with_medoids=False)
 
     def partition_impl(self, spt_region, with_medoids=True, save_csv_at=None):
         '''
-- 
2.43.0


From e6ba14f7abc7525f7457f4b8d255baf733c64b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:15 +0000
Subject: [PATCH 22/31] fix: errors of scaled data ask for a training region
 that may be omitted

---
 spta/model/error.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/spta/model/error.py b/spta/model/error.py
index ffed9b7..22962a8 100644
--- a/spta/model/error.py
+++ b/spta/model/error.py
@@ -104,7 +104,9 @@ class MeasureForecastingError(FunctionRegionScalar):
         if observation_region.has_scaling():
             self.logger.debug('About to descale observation and training regions')
             self.observation_region = observation_region.descale()
-            self.training_region = training_region.descale()
+            self.training_region = None
+            if training_region is not None:
+                self.training_region = training_region.descale()
         else:
             self.logger.debug('MeasureForecastingError - No scaling detected')
             self.observation_region = observation_region
-- 
2.43.0


From 774d10898909bc1f12a04b9c75aeb1dde3657cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:01 +0000
Subject: [PATCH 23/31] fix: forecasts of earlier models are reused after
 training again

---
 spta/model/forecast.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/spta/model/forecast.py b/spta/model/forecast.py
index 2748630..56d6cb9 100644
--- a/spta/model/forecast.py
+++ b/spta/model/forecast.py
@@ -61,6 +61,9 @@ class ForecastAnalysis(log_util.LoggerMixin):
         self.logger.info('Training models using: {}'.format(self.trainer.__class__.__name__))
         self.model_region = self.trainer.apply_to(self.training_region)
 
+        # forecasts made with previously trained models are no longer valid
+        self.forecast_region_each = None
+
         return self.model_region
 
     def forecast_at_each_point(self, forecast_len, error_type):
-- 
2.43.0


From 4065875c6da0bb752d99c2315dea6650915c330f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:14 +0000
Subject: [PATCH 24/31] fix: whole-series models of solvers with different test
 lengths overwrite each other

---
 spta/solver/model.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/spta/solver/model.py b/spta/solver/model.py
index 9c7f6d3..8f499d9 100644
--- a/spta/solver/model.py
+++ b/spta/solver/model.py
@@ -237,8 +237,8 @@ class SolverPickler(log_util.LoggerMixin):
                 |- <clustering>
                     |- errors__<model_params>__tp<tp>__<error>.pkl
                     |- partition_<clustering_metadata>.pkl
-                    |- models-at-medoids-<model_params>__tp<tp>.pkl
-                    |- models-at-medoids-<model_params>__whole.pkl
+                    |- models-at-medoids__<model_params>__tp<tp>.pkl
+                    |- models-at-medoids-tp<tp>__<model_params>__whole.pkl
     '''
 
     def __init__(self, solver_metadata):
@@ -369,11 +369,13 @@ class SolverPickler(log_util.LoggerMixin):
     def model_whole_pickle_path(self):
         '''
         Full path of the pickle object of the model region based on the whole dataset
-        (as opposed to just the training dataset); given by the region, clustering, distance and
-        model parameters.
+        (as opposed to just the training dataset); given by the region, clustering, distance,
+        model parameters and number of test samples used: these models are refitted from the ones
+        based on the training dataset, so they also depend on the test samples.
         '''
         solver_pickle_dir = self.metadata.pickle_dir()
-        model_filename = self.metadata.trained_model_region_filename('models-at-medoids',
+        name_prefix = 'models-at-medoids-tp{}'.format(self.test_len)
+        model_filename = self.metadata.trained_model_region_filename(name_prefix,
                                                                      with_test_samples=False)
         return os.path.join(solver_pickle_dir, model_filename)
 
-- 
2.43.0


From d8d05d301b086169c2f5681d9a18026e69cb3a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:14 +0000
Subject: [PATCH 25/31] fix: names of k-NN solvers do not mention the distance
 measure

---
 spta/distance/rmse.py | 9 +++++++++
 spta/model/knn.py     | 6 +++---
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/spta/distance/rmse.py b/spta/distance/rmse.py
index 242e007..a01fb4b 100644
--- a/spta/distance/rmse.py
+++ b/spta/distance/rmse.py
@@ -29,3 +29,12 @@ class DistanceByRMSE(DistanceBetweenSeries):
         Note that the errors of each series can be added using Root Mean Squared.
         '''
         return arrays_util.root_mean_squared(distances_for_point)
+
+    def __repr__(self):
+        '''
+        Useful to identify this distance_measure
+        '''
+        return 'rmse'
+
+    def __str__(self):
+        return repr(self)
diff --git a/spta/model/knn.py b/spta/model/knn.py
index 4cb5f04..4ac395a 100644
--- a/spta/model/knn.py
+++ b/spta/model/knn.py
@@ -24,9 +24,9 @@ class KNNParams(namedtuple('KNNParams', 'k distance_measure')):
         # https://stackoverflow.com/a/7914212/3175179
         '''
 
-        # assuming DTW, could be RMSE or some other euclidean distance
-        as_str = 'knn-k{}-dtw'
-        return as_str.format(self.k)
+        # DTW, could be RMSE or some other euclidean distance
+        as_str = 'knn-k{}-{!r}'
+        return as_str.format(self.k, self.distance_measure)
 
     def __str__(self):
         return super(KNNParams, self).__repr__()
-- 
2.43.0


From ab1331ab81aa668f0223d1e76f11e4e42988ac2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:15 +0000
Subject: [PATCH 26/31] fix: medoids are not excluded from the random points of
 a region with an offset

---
 spta/classifier/train_input.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/spta/classifier/train_input.py b/spta/classifier/train_input.py
index 621ea99..b4d23ec 100644
--- a/spta/classifier/train_input.py
+++ b/spta/classifier/train_input.py
@@ -621,10 +621,16 @@ def extract_all_medoid_indices_from_suite_result(suite_result, spt_region):
     for clustering_repr, medoids in suite_result.items():
         unique_medoid_points.update(medoids)
 
+    # the medoids are in absolute coordinates, but the indices are relative to the region:
+    # remove the offset of the region (if its metadata is known)
+    x_offset, y_offset = 0, 0
+    if spt_region.region_metadata is not None:
+        x_offset, y_offset = spt_region.region_metadata.region.x1, spt_region.region_metadata.region.y1
+
     # to get the indices, we need the region
     y_len = spt_region.y_len
     unique_medoid_indices = [
-        unique_medoid_point.x * y_len + unique_medoid_point.y
+        (unique_medoid_point.x - x_offset) * y_len + (unique_medoid_point.y - y_offset)
         for unique_medoid_point in unique_medoid_points
     ]
 
-- 
2.43.0


From 927e5266f08232491de5aa0a04647109fec06d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:09 +0000
Subject: [PATCH 27/31] fix: a distance matrix computed after a weighted one
 never gets its spatial weight

---
 spta/distance/dtw.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/spta/distance/dtw.py b/spta/distance/dtw.py
index e706545..965bb56 100644
--- a/spta/distance/dtw.py
+++ b/spta/distance/dtw.py
@@ -186,6 +186,14 @@ class DistanceBySpatialDTW(DistanceByDTW):
 
         return self.distance_matrix
 
+    def compute_distance_matrix(self, temporal_data):
+        '''
+        Computes the matrix without weights, see weight_distance_matrix.
+        '''
+        # a matrix that was just computed has no weight yet, even if a previous matrix had it
+        self.weighted = False
+        return super(DistanceBySpatialDTW, self).compute_distance_matrix(temporal_data)
+
     def load_distance_matrix_2d(self, filename, expected_region):
         '''
         Loads a pre-computed DTW distance matrix from a file for a 2d region.
-- 
2.43.0


From aaa2a420eaa23f62d1e8f024e860c0aead5a15b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:58 +0000
Subject: [PATCH 28/31] fix: a later query of a classifier solver ignores its
 own out-of-sample region

---
 spta/classifier/model.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/spta/classifier/model.py b/spta/classifier/model.py
index 99bacaf..477448b 100644
--- a/spta/classifier/model.py
+++ b/spta/classifier/model.py
@@ -77,10 +77,9 @@ class SolverFromClassifier(log_util.LoggerMixin):
         # cache solvers so that we don't reconstruct them every single time
         self.solvers = {}
 
-    def prepare(self, out_of_sample_region):
+    def prepare(self):
         '''
         Here we make sure that the classifier is loaded so that it can answer with a label.
-        The target_spt_region is used to extract the series used on the classifier to retrieve a label.
         '''
         # need actual code...
         # self.classifier = RandomClassifier()
@@ -89,13 +88,6 @@ class SolverFromClassifier(log_util.LoggerMixin):
 
         self.spt_region = self.region_metadata.create_instance()
 
-        if out_of_sample_region is None:
-            # no out-of-sample target specified, us the same region
-            self.target_spt_region = self.spt_region
-        else:
-            # use a different, 'out-of-sample' region
-            self.target_spt_region = out_of_sample_region.create_instance()
-
         metadata_builder = SolverMetadataBuilder(region_metadata=self.region_metadata,
                                                  model_params=self.model_params,
                                                  test_len=self.test_len,
@@ -117,9 +109,17 @@ class SolverFromClassifier(log_util.LoggerMixin):
         '''
 
         if self.classifier is None:
-            self.prepare(out_of_sample_region)
+            self.prepare()
         assert self.classifier is not None
-        assert self.target_spt_region is not None
+
+        # The target_spt_region is used to extract the series used on the classifier to retrieve a label.
+        # It depends on the query, unlike the classifier.
+        if out_of_sample_region is None:
+            # no out-of-sample target specified, us the same region
+            self.target_spt_region = self.spt_region
+        else:
+            # use a different, 'out-of-sample' region
+            self.target_spt_region = out_of_sample_region.create_instance()
 
         # get d(point, medoid labels)
         classifier_labels_by_point = self.get_labels_from_classifier(prediction_region, tp)
-- 
2.43.0


From 63c7e34df5746223c9ec346a379002fcbb3b0905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:58 +0000
Subject: [PATCH 29/31] fix: a classifier solver writes its tables below the
 wrong directory

---
 spta/classifier/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spta/classifier/model.py b/spta/classifier/model.py
index 477448b..71e6e25 100644
--- a/spta/classifier/model.py
+++ b/spta/classifier/model.py
@@ -261,7 +261,7 @@ class SolverFromClassifier(log_util.LoggerMixin):
                                                       error_subregion=error_region_each,
                                                       prediction_region=prediction_region,
                                                       spt_region=self.spt_region,
-                                                      output_home='outputs',
+                                                      output_home=output_home,
                                                       is_out_of_sample=False)
         prediction_result = result_builder.from_classifier(self.clustering_suite, classifier_labels_by_point).build()
         return prediction_result
-- 
2.43.0


From 344e0b8c903b4b55222b42c67b604ec9df6d0a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:36 +0000
Subject: [PATCH 30/31] fix: histogram of a cluster with a single point fails
 when writing its statistics

---
 spta/distance/variance.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/spta/distance/variance.py b/spta/distance/variance.py
index 21ef80a..1d9bc0d 100644
--- a/spta/distance/variance.py
+++ b/spta/distance/variance.py
@@ -80,7 +80,9 @@ class DistanceHistogram(log_util.LoggerMixin):
         # min is the minimum distance after removing the mandatory 0 value from the point of
         # interest, this idiom puts the second-lowest distance at the right place
         # https://stackoverflow.com/a/22546769
-        min_distance_not_zero = np.partition(distances, 1)[1]
+        # a cluster with a single point only has its own distance
+        second_lowest = min(1, len(distances) - 1)
+        min_distance_not_zero = np.partition(distances, second_lowest)[second_lowest]
         max_distance = np.max(distances)
 
         mean = np.mean(distances)
-- 
2.43.0


From cf6c07824a7c9d2d5cf4dcf73a650feec73b208e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:26 +0000
Subject: [PATCH 31/31] fix: an interval of a scaled region does not keep the
 metadata of the whole

---
 spta/region/scaling.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/spta/region/scaling.py b/spta/region/scaling.py
index e38fd1d..02db212 100644
--- a/spta/region/scaling.py
+++ b/spta/region/scaling.py
@@ -156,6 +156,15 @@ class SpatioTemporalScaled(SpatioTemporalDecorator):
         '''
         return self.region_subset(region).interval_subset(ti)
 
+    def interval_subset(self, ti):
+        '''
+        The metadata describes the whole interval, so drop it from the subset (as the region and
+        the cluster do): otherwise storing the subset would replace what is stored for this region.
+        '''
+        interval_subset = super(SpatioTemporalScaled, self).interval_subset(ti)
+        interval_subset.region_metadata = None
+        return interval_subset
+
     def has_scaling(self):
         '''
         Flag to indicate that the region can be descaled (yes here!)
-- 
2.43.0


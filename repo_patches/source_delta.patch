From 911a4d9ddcd90b64f714cb519cfc46c765524b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:19 +0000
Subject: [PATCH 01/39] fix: keep the scaling data aligned when taking a
 combined subset of a scaled region

---
 spta/region/scaling.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/spta/region/scaling.py b/spta/region/scaling.py
index b815b9b..11edd84 100644
--- a/spta/region/scaling.py
+++ b/spta/region/scaling.py
@@ -150,6 +150,13 @@ class SpatioTemporalScaled(SpatioTemporalDecorator):
                                     scale_min=scale_min_subset,
                                     scale_max=scale_max_subset)
 
+    def subset(self, region, ti):
+        '''
+        If asked for a subset, then also subset the scaling data.
+        '''
+        # region_subset takes care of the scaling data
+        return self.region_subset(region).interval_subset(ti)
+
     def has_scaling(self):
         '''
         Flag to indicate that the region can be descaled (yes here!)
-- 
2.43.0


From 2478b9520650c6f1850b73fc3237123ab8d52931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:19 +0000
Subject: [PATCH 02/39] fix: descaling a cluster of a scaled region gives a
 cluster that is not scaled

---
 spta/region/temporal.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/spta/region/temporal.py b/spta/region/temporal.py
index c98e948..630ac0a 100644
--- a/spta/region/temporal.py
+++ b/spta/region/temporal.py
@@ -333,6 +333,16 @@ class SpatioTemporalCluster(SpatialCluster, SpatioTemporalDecorator):
                                      cluster_index=self.cluster_index,
                                      region_metadata=self.region_metadata)
 
+    def descale(self):
+        '''
+        Let the decorated region handle the descaling, and make the result a cluster again.
+        The decorated region cannot be asked for a new instance here: it would be scaled again.
+        '''
+        return SpatioTemporalCluster(decorated_region=self.decorated_region.descale(),
+                                     partition=self.partition,
+                                     cluster_index=self.cluster_index,
+                                     region_metadata=self.region_metadata)
+
     def region_subset(self, region):
         # not allowed for now!
         raise NotImplementedError
-- 
2.43.0


From 40ff06dc1c93392ba6ad16a3a5b0e322144f7bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:30 +0000
Subject: [PATCH 03/39] fix: repeat_point of decorated spatio-temporal regions
 repeats the series

---
 spta/region/temporal.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/spta/region/temporal.py b/spta/region/temporal.py
index 630ac0a..5f46a5f 100644
--- a/spta/region/temporal.py
+++ b/spta/region/temporal.py
@@ -237,6 +237,11 @@ class SpatioTemporalDecorator(SpatialDecorator, SpatioTemporalRegion):
     def series_at(self, point):
         return self.decorated_region.series_at(point)
 
+    def repeat_point(self, point):
+        # diamond problem! without this, the implementation of SpatialRegion would be used,
+        # which only works for values
+        return SpatioTemporalRegion.repeat_point(self, point)
+
     def has_centroid(self):
         # if a centroid has been set at parent, honor it
         # TODO we should avoid this?
-- 
2.43.0


From d0b8cf51353a0f8415e068270281d05796395141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:27 +0000
Subject: [PATCH 04/39] fix: region_with_zeroes uses the dimensions of the
 given region

---
 spta/region/spatial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spta/region/spatial.py b/spta/region/spatial.py
index f17654a..d6903c8 100644
--- a/spta/region/spatial.py
+++ b/spta/region/spatial.py
@@ -206,7 +206,7 @@ class SpatialRegion(DomainRegion):
         Creates a spatial region filled with zeroes, with the dimensions given by the region.
         Notice that indices will start at (0, 0)
         '''
-        (x_len, y_len) = (Region.x2 - Region.x1, Region.y2 - Region.y1)
+        (x_len, y_len) = (region.x2 - region.x1, region.y2 - region.y1)
         zero_array = np.zeros((x_len, y_len))
         return SpatialRegion(zero_array)
 
-- 
2.43.0


From f7203240488bb15607ee6db8f9d559bc121e19fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:47 +0000
Subject: [PATCH 05/39] fix: saving a scaled region stores its dataset and
 scaling data

---
 spta/region/scaling.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/spta/region/scaling.py b/spta/region/scaling.py
index 11edd84..7a17085 100644
--- a/spta/region/scaling.py
+++ b/spta/region/scaling.py
@@ -212,16 +212,19 @@ class SpatioTemporalScaled(SpatioTemporalDecorator):
         Requires the metadata!
         '''
 
-        # save dataset
-        super(SpatioTemporalScaled, self).save()
+        if self.region_metadata is None:
+            raise ValueError('Need metadata to save this sptr!')
+
+        # save dataset, the metadata is kept here and not in the decorated region
+        self.save_to(self.region_metadata.dataset_filename)
 
         # save min
-        min_filename = self.region_metadata.scale_min_filename
+        min_filename = self.region_metadata.scaled_min_filename
         np.save(min_filename, self.scale_min.numpy_dataset)
         self.logger.info('Saved scale_min to {}'.format(min_filename))
 
         # save max
-        max_filename = self.region_metadata.scale_max_filename
+        max_filename = self.region_metadata.scaled_max_filename
         np.save(max_filename, self.scale_max.numpy_dataset)
         self.logger.info('Saved scale_max to {}'.format(max_filename))
 
-- 
2.43.0


From 2bb92d68acdd3d5a57cea7dcda25ab5d33c563fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:42 +0000
Subject: [PATCH 06/39] fix: merge_clusters_2d accepts the clusters in any
 order

---
 spta/region/partition.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spta/region/partition.py b/spta/region/partition.py
index 7db158a..7ee36d3 100644
--- a/spta/region/partition.py
+++ b/spta/region/partition.py
@@ -302,7 +302,7 @@ class PartitionRegionCrisp(PartitionRegion):
             assert cluster.y_len == self.y_len
 
         # order clusters by their index
-        sorted(spatial_clusters, key=lambda cluster: cluster.cluster_index)
+        spatial_clusters = sorted(spatial_clusters, key=lambda cluster: cluster.cluster_index)
 
         # sanity checks: there are k clusters, and all indices are present
         indices = [
-- 
2.43.0


From 905f74d567970444f119823e8ba0fa9224c6e4db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:38 +0000
Subject: [PATCH 07/39] fix: partitions are saved and looked up under the
 requested pickle_home

---
 spta/clustering/__init__.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/spta/clustering/__init__.py b/spta/clustering/__init__.py
index 243fa1a..9be71cb 100644
--- a/spta/clustering/__init__.py
+++ b/spta/clustering/__init__.py
@@ -210,7 +210,7 @@ class ClusteringAlgorithm(log_util.LoggerMixin):
         Saves a partition as a pickle objct, using its to_pickle(path) method. The path is
         calculated by the clustering metadata.
         '''
-        pickle_full_path = self.pickle_full_path(region_metadata)
+        pickle_full_path = self.pickle_full_path(region_metadata, pickle_home)
 
         # the partition can save itself
         partition.to_pickle(pickle_full_path)
@@ -241,19 +241,19 @@ class ClusteringAlgorithm(log_util.LoggerMixin):
         Should be successful if save_partition() was called before, will raise an exception
         if no saved partition is found.
         '''
-        pickle_full_path = self.pickle_full_path(region_metadata)
+        pickle_full_path = self.pickle_full_path(region_metadata, pickle_home)
         partition = PartitionRegion.try_from_pickle(pickle_full_path)
 
         self.logger.info('Loaded previously calculated partition from {}'.format(pickle_full_path))
         return partition
 
-    def pickle_full_path(self, region_metadata):
+    def pickle_full_path(self, region_metadata, pickle_home='pickle'):
         '''
         Calculates the path for persisting partition objects via pickle. The path is calculated by
         the clustering metadata.
         '''
         # path to store/load pickle objects given metadata
-        pickle_dir = self.metadata.pickle_dir(region_metadata, self.distance_measure)
+        pickle_dir = self.metadata.pickle_dir(region_metadata, self.distance_measure, pickle_home)
 
         # use a fixed name, assuming that the metadata uniquely identifies the created partition...
         return os.path.join(pickle_dir, self.partition_pickle_filename)
-- 
2.43.0


From 1fbb5da6ba758f163090579f5dffd26517fd5b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:39 +0000
Subject: [PATCH 08/39] fix: DistanceBySpatialDTW weights every matrix it
 loads, and tolerates a missing one

---
 spta/distance/dtw.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/spta/distance/dtw.py b/spta/distance/dtw.py
index 81908a7..907497b 100644
--- a/spta/distance/dtw.py
+++ b/spta/distance/dtw.py
@@ -194,9 +194,14 @@ class DistanceBySpatialDTW(DistanceByDTW):
         '''
 
         # read normally
-        super(DistanceBySpatialDTW, self).load_distance_matrix_2d(filename, expected_region)
+        loaded = super(DistanceBySpatialDTW, self).load_distance_matrix_2d(filename,
+                                                                           expected_region)
+        if loaded is None:
+            # not available
+            return None
 
-        # add the weight
+        # add the weight to the matrix that was just loaded
+        self.weighted = False
         return self.weight_distance_matrix(expected_region)
 
 
-- 
2.43.0


From 1564fa2238ee1a39c626d6a0e398113584af6898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:39 +0000
Subject: [PATCH 09/39] fix: DistanceBySpatialDTW identifies itself with its
 weight

---
 spta/distance/dtw.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/spta/distance/dtw.py b/spta/distance/dtw.py
index 907497b..a1d3111 100644
--- a/spta/distance/dtw.py
+++ b/spta/distance/dtw.py
@@ -204,6 +204,12 @@ class DistanceBySpatialDTW(DistanceByDTW):
         self.weighted = False
         return self.weight_distance_matrix(expected_region)
 
+    def __repr__(self):
+        '''
+        Distances depend on the weight, so results should not be mixed with those of other weights
+        '''
+        return 'dtw_spatial{}'.format(self.weight)
+
 
 if __name__ == '__main__':
     from spta.util import log as log_util
-- 
2.43.0


From 43daded3102e03623930f5fef7d4f5039a75b0e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:05 +0000
Subject: [PATCH 10/39] fix: k-medoids report copes with clusters that have no
 members

---
 spta/kmedoids/kmedoids.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spta/kmedoids/kmedoids.py b/spta/kmedoids/kmedoids.py
index 13d4198..bccff36 100644
--- a/spta/kmedoids/kmedoids.py
+++ b/spta/kmedoids/kmedoids.py
@@ -224,7 +224,8 @@ def show_report(result, elapsed_time):
     logger.info('Elapsed time: {:.2f}s'.format(elapsed_time))
 
     # calculate size of each cluster: count the number of members for each label
-    _, points_per_cluster = np.unique(result.labels, return_counts=True)
+    # (a cluster may have no members, if its medoid is identical to the medoid of another cluster)
+    points_per_cluster = np.bincount(result.labels, minlength=result.k)
     total_points = len(result.labels)
 
     for i in range(0, result.k):
-- 
2.43.0


From 5f8dcfda094a48df5c9a7d49daf94d48789c95b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:06 +0000
Subject: [PATCH 11/39] fix: fuzzy k-medoids returns its memberships when the
 initial medoids are already optimal

---
 spta/kmedoids/kmedoids_fuzzy.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/spta/kmedoids/kmedoids_fuzzy.py b/spta/kmedoids/kmedoids_fuzzy.py
index 4249091..e268712 100644
--- a/spta/kmedoids/kmedoids_fuzzy.py
+++ b/spta/kmedoids/kmedoids_fuzzy.py
@@ -167,8 +167,7 @@ def run_kmedoids_fuzzy(X, k, m, distance_measure, initial_medoids=None, random_s
     medoids = choose_initial_medoids(X, k, random_seed, initial_medoids)
 
     # assign initial members
-    labels, costs, tot_cost, dist_mat = compute_membership_fcm(X, m, medoids, distance_measure,
-                                                               tol)
+    uij, costs, tot_cost, _ = compute_membership_fcm(X, m, medoids, distance_measure, tol)
     cc, SWAPPED = 0, True
 
     while True:
-- 
2.43.0


From d3f2b4205dd4be2473022849bb77a49e13dc7601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:07 +0000
Subject: [PATCH 12/39] fix: get_centroid calculates the centroid of a region

---
 spta/region/temporal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spta/region/temporal.py b/spta/region/temporal.py
index 5f46a5f..8a267a0 100644
--- a/spta/region/temporal.py
+++ b/spta/region/temporal.py
@@ -109,7 +109,7 @@ class SpatioTemporalRegion(DomainRegion):
             # calculate the centroid, ugly but works...
             from . import centroid
             centroid_calc = centroid.CalculateCentroid(distance_measure)
-            self.centroid, _ = centroid_calc.find_centroid_and_cost(self)
+            self.centroid, _ = centroid_calc.find_centroid_and_distances(self)
             return self.centroid
 
     def has_centroid(self):
-- 
2.43.0


From f7306adfafef033a6e99d94c6013ee23884a13ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:34 +0000
Subject: [PATCH 13/39] fix: a cluster does not take the centroid of its region
 for its own

---
 spta/region/temporal.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/spta/region/temporal.py b/spta/region/temporal.py
index 8a267a0..eeb0679 100644
--- a/spta/region/temporal.py
+++ b/spta/region/temporal.py
@@ -383,6 +383,14 @@ class SpatioTemporalCluster(SpatialCluster, SpatioTemporalDecorator):
         else:
             raise ValueError('Point not in cluster: {}'.format(point))
 
+    def has_centroid(self):
+        # the centroid of the decorated region is not the centroid of this cluster
+        return self.centroid is not None
+
+    def get_centroid(self, distance_measure=None):
+        # calculated over the points of this cluster if necessary
+        return SpatioTemporalRegion.get_centroid(self, distance_measure)
+
     @property
     def all_point_indices(self):
         '''
-- 
2.43.0


From 636c0510b9f526a3ab99c67cc64162891d76271c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:14 +0000
Subject: [PATCH 14/39] fix: clustering metadata with different seeds, modes or
 initial medoids are not equal

---
 spta/clustering/__init__.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/spta/clustering/__init__.py b/spta/clustering/__init__.py
index 9be71cb..cc3dbf2 100644
--- a/spta/clustering/__init__.py
+++ b/spta/clustering/__init__.py
@@ -60,10 +60,11 @@ class ClusteringMetadata():
         return '{}: k={}'.format(self.name.capitalize(), self.k)
 
     def __eq__(self, other):
-        return self.name == other.name and self.k == other.k
+        # the representation has all the parameters that identify a clustering, subclasses extend it
+        return isinstance(other, ClusteringMetadata) and repr(self) == repr(other)
 
     def __hash__(self):
-        return hash((self.name, self.k))
+        return hash(repr(self))
 
 
 class ClusteringAlgorithm(log_util.LoggerMixin):
-- 
2.43.0


From aee52a80cd8e11007c8f7e43c07c708b0e0d6903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:14 +0000
Subject: [PATCH 15/39] fix: the elbow of each seed uses the costs of that seed

---
 spta/clustering/suite.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spta/clustering/suite.py b/spta/clustering/suite.py
index 777eab8..ae26cef 100644
--- a/spta/clustering/suite.py
+++ b/spta/clustering/suite.py
@@ -394,7 +394,8 @@ class FindSuiteElbow(log_util.LoggerMixin):
             for metadata in ordered_metadata_instances:
                 costs_by_metadata_for_this_seed[metadata] = costs_by_metadata[metadata]
 
-            elbow_for_this_seed = self.find_cost_elbow_given_order(costs_by_metadata, ordered_metadata_instances)
+            elbow_for_this_seed = self.find_cost_elbow_given_order(costs_by_metadata_for_this_seed,
+                                                                   ordered_metadata_instances)
             elbows_by_seed[seed] = elbow_for_this_seed
 
         return elbows_by_seed
-- 
2.43.0


From d2917c40b84c2c6e9ed0dc4fb95b59c2c8860991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:42 +0000
Subject: [PATCH 16/39] fix: forecast errors of scaled observations without a
 training region

---
 spta/model/error.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spta/model/error.py b/spta/model/error.py
index ffed9b7..b973072 100644
--- a/spta/model/error.py
+++ b/spta/model/error.py
@@ -104,7 +104,8 @@ class MeasureForecastingError(FunctionRegionScalar):
         if observation_region.has_scaling():
             self.logger.debug('About to descale observation and training regions')
             self.observation_region = observation_region.descale()
-            self.training_region = training_region.descale()
+            # the training region may be omitted
+            self.training_region = None if training_region is None else training_region.descale()
         else:
             self.logger.debug('MeasureForecastingError - No scaling detected')
             self.observation_region = observation_region
-- 
2.43.0


From 230aed9b2c69bcea7e101357c1a07e08812741f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:43 +0000
Subject: [PATCH 17/39] fix: retraining a forecast analysis discards the
 forecast of the previous models

---
 spta/model/forecast.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/spta/model/forecast.py b/spta/model/forecast.py
index 2748630..9032851 100644
--- a/spta/model/forecast.py
+++ b/spta/model/forecast.py
@@ -61,6 +61,9 @@ class ForecastAnalysis(log_util.LoggerMixin):
         self.logger.info('Training models using: {}'.format(self.trainer.__class__.__name__))
         self.model_region = self.trainer.apply_to(self.training_region)
 
+        # a forecast of previously trained models cannot be reused
+        self.forecast_region_each = None
+
         return self.model_region
 
     def forecast_at_each_point(self, forecast_len, error_type):
-- 
2.43.0


From 5dd73ed0ff8a646e48bb38d206b027deb7de3c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:23 +0000
Subject: [PATCH 18/39] fix: error analysis uses the centroid only if the
 region has one

---
 spta/model/forecast.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/spta/model/forecast.py b/spta/model/forecast.py
index 9032851..c5e543c 100644
--- a/spta/model/forecast.py
+++ b/spta/model/forecast.py
@@ -218,9 +218,9 @@ class ForecastAnalysis(log_util.LoggerMixin):
         log_msg = 'Combined {} error from all models: {}'
         self.logger.info(log_msg.format(error_type, overall_error_each))
 
-        if spt_region.has_centroid:
+        if spt_region.has_centroid():
             # show the local error at the centroid
-            centroid = spt_region.centroid
+            centroid = spt_region.get_centroid()
             local_error_centroid = error_region_each.value_at(centroid)
             log_msg = 'Local error of model at the medoid {}: {}'
             self.logger.debug(log_msg.format(centroid, local_error_centroid))
@@ -256,8 +256,8 @@ class ForecastAnalysis(log_util.LoggerMixin):
         # Use the model at the centroid
         # ask the region for its centroid. If not available, the error is np.nan
         #
-        if spt_region.has_centroid:
-            centroid = spt_region.centroid
+        if spt_region.has_centroid():
+            centroid = spt_region.get_centroid()
             overall_error_centroid = overall_error_region.value_at(centroid)
         else:
             centroid = None
-- 
2.43.0


From 590040ae8f1c7bfe53a83e1b26dd72be0ed06223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:51 +0000
Subject: [PATCH 19/39] fix: auto ARIMA gives no model for a missing series

---
 spta/arima/train.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spta/arima/train.py b/spta/arima/train.py
index d864606..707f875 100644
--- a/spta/arima/train.py
+++ b/spta/arima/train.py
@@ -127,13 +127,13 @@ class TrainerAutoArima(ModelTrainer):
         run pyramid.arima.auto_arima to discover "optimal" p, d, q for a training_series, and fit the
         resulting model with the same training data.
         '''
-        self.logger.debug('Running auto_arima with training size {}'.format(len(training_series)))
-
         # sanity check: no parameters means no model, no data means no model
         # useful for sparse datasets or when refitting
         if auto_arima_params is None or training_series is None:
             return None
 
+        self.logger.debug('Running auto_arima with training size {}'.format(len(training_series)))
+
         try:
             # find p, d, q with auto_arima, get a model
             sarimax_model = auto_arima(training_series,
-- 
2.43.0


From c9e617b4af7d15c3a14ef0650c96705ef1d4b342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:13 +0000
Subject: [PATCH 20/39] fix: nearest-neighbour parameters identify themselves
 with their distance

---
 spta/distance/rmse.py | 9 +++++++++
 spta/model/knn.py     | 6 +++---
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/spta/distance/rmse.py b/spta/distance/rmse.py
index 242e007..a01fb4b 100644
--- a/spta/distance/rmse.py
+++ b/spta/distance/rmse.py
@@ -29,3 +29,12 @@ class DistanceByRMSE(DistanceBetweenSeries):
         Note that the errors of each series can be added using Root Mean Squared.
         '''
         return arrays_util.root_mean_squared(distances_for_point)
+
+    def __repr__(self):
+        '''
+        Useful to identify this distance_measure
+        '''
+        return 'rmse'
+
+    def __str__(self):
+        return repr(self)
diff --git a/spta/model/knn.py b/spta/model/knn.py
index 4cb5f04..8db5c5d 100644
--- a/spta/model/knn.py
+++ b/spta/model/knn.py
@@ -24,9 +24,9 @@ class KNNParams(namedtuple('KNNParams', 'k distance_measure')):
         # https://stackoverflow.com/a/7914212/3175179
         '''
 
-        # assuming DTW, could be RMSE or some other euclidean distance
-        as_str = 'knn-k{}-dtw'
-        return as_str.format(self.k)
+        # the distance is part of the identity: DTW, RMSE or some other euclidean distance
+        as_str = 'knn-k{}-{!r}'
+        return as_str.format(self.k, self.distance_measure)
 
     def __str__(self):
         return super(KNNParams, self).__repr__()
-- 
2.43.0


From 6a715c47838966c635896cfb46f3c47396efb22e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:44 +0000
Subject: [PATCH 21/39] fix: solvers with different test lengths keep their
 refitted models apart

---
 spta/solver/metadata.py | 7 ++++---
 spta/solver/model.py    | 6 +++---
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/spta/solver/metadata.py b/spta/solver/metadata.py
index eb922f4..14bdbfa 100644
--- a/spta/solver/metadata.py
+++ b/spta/solver/metadata.py
@@ -54,13 +54,14 @@ class SolverMetadataBasic(object):
         given by test_len, this is reflected in the filename. If a model region is later retrieved,
         for forecasting, an adequate test_len has to be specified by the user.
 
-        If a model region was trained with the full dataset, then use with_test_samples=False,
-        the filename will not include test_len.
+        If a model region was trained with the full dataset, then use with_test_samples=False.
+        The filename still includes test_len: a refitted model can have hyper-parameters that were
+        found without the test samples (e.g. auto ARIMA).
         '''
         test_len_str = 'tp{}'.format(self.test_len)
         if not with_test_samples:
             # assume that the models are using the whole dataset (no test subset)
-            test_len_str = 'whole'
+            test_len_str = 'tp{}__whole'.format(self.test_len)
 
         return '{}__{!r}__{}.pkl'.format(name_prefix, self.model_params, test_len_str)
 
diff --git a/spta/solver/model.py b/spta/solver/model.py
index 9c7f6d3..9793410 100644
--- a/spta/solver/model.py
+++ b/spta/solver/model.py
@@ -238,7 +238,7 @@ class SolverPickler(log_util.LoggerMixin):
                     |- errors__<model_params>__tp<tp>__<error>.pkl
                     |- partition_<clustering_metadata>.pkl
                     |- models-at-medoids-<model_params>__tp<tp>.pkl
-                    |- models-at-medoids-<model_params>__whole.pkl
+                    |- models-at-medoids-<model_params>__tp<tp>__whole.pkl
     '''
 
     def __init__(self, solver_metadata):
@@ -369,8 +369,8 @@ class SolverPickler(log_util.LoggerMixin):
     def model_whole_pickle_path(self):
         '''
         Full path of the pickle object of the model region based on the whole dataset
-        (as opposed to just the training dataset); given by the region, clustering, distance and
-        model parameters.
+        (as opposed to just the training dataset); given by the region, clustering, distance, model
+        parameters and number of test samples used (the hyper-parameters can depend on them).
         '''
         solver_pickle_dir = self.metadata.pickle_dir()
         model_filename = self.metadata.trained_model_region_filename('models-at-medoids',
-- 
2.43.0


From 9203903dbc63dd1fdbe2e08a4df2ee4d908d3e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:48 +0000
Subject: [PATCH 22/39] fix: classifier solver writes its results under the
 requested output folder

---
 spta/classifier/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spta/classifier/model.py b/spta/classifier/model.py
index 99bacaf..5ea257d 100644
--- a/spta/classifier/model.py
+++ b/spta/classifier/model.py
@@ -261,7 +261,7 @@ class SolverFromClassifier(log_util.LoggerMixin):
                                                       error_subregion=error_region_each,
                                                       prediction_region=prediction_region,
                                                       spt_region=self.spt_region,
-                                                      output_home='outputs',
+                                                      output_home=output_home,
                                                       is_out_of_sample=False)
         prediction_result = result_builder.from_classifier(self.clustering_suite, classifier_labels_by_point).build()
         return prediction_result
-- 
2.43.0


From 7ae267133153c1d577dae9f94ef8b6dcac324bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:35 +0000
Subject: [PATCH 23/39] fix: each query of a classifier solver uses the
 out-of-sample region it was given

---
 spta/classifier/model.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/spta/classifier/model.py b/spta/classifier/model.py
index 5ea257d..7f23b29 100644
--- a/spta/classifier/model.py
+++ b/spta/classifier/model.py
@@ -77,10 +77,9 @@ class SolverFromClassifier(log_util.LoggerMixin):
         # cache solvers so that we don't reconstruct them every single time
         self.solvers = {}
 
-    def prepare(self, out_of_sample_region):
+    def prepare(self):
         '''
         Here we make sure that the classifier is loaded so that it can answer with a label.
-        The target_spt_region is used to extract the series used on the classifier to retrieve a label.
         '''
         # need actual code...
         # self.classifier = RandomClassifier()
@@ -89,6 +88,17 @@ class SolverFromClassifier(log_util.LoggerMixin):
 
         self.spt_region = self.region_metadata.create_instance()
 
+        metadata_builder = SolverMetadataBuilder(region_metadata=self.region_metadata,
+                                                 model_params=self.model_params,
+                                                 test_len=self.test_len,
+                                                 error_type=self.error_type)
+        self.solver_metadata = metadata_builder.for_suite(self.clustering_suite, self.distance_measure).build()
+
+    def prepare_target(self, out_of_sample_region):
+        '''
+        The target_spt_region is used to extract the series used on the classifier to retrieve a label.
+        Each query can have a different target.
+        '''
         if out_of_sample_region is None:
             # no out-of-sample target specified, us the same region
             self.target_spt_region = self.spt_region
@@ -96,12 +106,6 @@ class SolverFromClassifier(log_util.LoggerMixin):
             # use a different, 'out-of-sample' region
             self.target_spt_region = out_of_sample_region.create_instance()
 
-        metadata_builder = SolverMetadataBuilder(region_metadata=self.region_metadata,
-                                                 model_params=self.model_params,
-                                                 test_len=self.test_len,
-                                                 error_type=self.error_type)
-        self.solver_metadata = metadata_builder.for_suite(self.clustering_suite, self.distance_measure).build()
-
     def predict(self, prediction_region, tp, out_of_sample_region=None, output_home='outputs'):
         '''
         Ask the solver to create a forecast for the specified region using the specified number
@@ -117,8 +121,10 @@ class SolverFromClassifier(log_util.LoggerMixin):
         '''
 
         if self.classifier is None:
-            self.prepare(out_of_sample_region)
+            self.prepare()
         assert self.classifier is not None
+
+        self.prepare_target(out_of_sample_region)
         assert self.target_spt_region is not None
 
         # get d(point, medoid labels)
-- 
2.43.0


From 3da72b1cac2be9160e67fdf7423b1f0e57550034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:52 +0000
Subject: [PATCH 24/39] fix: random points for training data avoid the medoids
 of offset regions

---
 spta/classifier/train_input.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/spta/classifier/train_input.py b/spta/classifier/train_input.py
index 621ea99..87c044e 100644
--- a/spta/classifier/train_input.py
+++ b/spta/classifier/train_input.py
@@ -621,10 +621,14 @@ def extract_all_medoid_indices_from_suite_result(suite_result, spt_region):
     for clustering_repr, medoids in suite_result.items():
         unique_medoid_points.update(medoids)
 
+    # the medoids are in absolute coordinates, the indices are relative to the region
+    region = spt_region.region_metadata.region
+    x_offset, y_offset = region.x1, region.y1
+
     # to get the indices, we need the region
     y_len = spt_region.y_len
     unique_medoid_indices = [
-        unique_medoid_point.x * y_len + unique_medoid_point.y
+        (unique_medoid_point.x - x_offset) * y_len + (unique_medoid_point.y - y_offset)
         for unique_medoid_point in unique_medoid_points
     ]
 
-- 
2.43.0


From 376609ae79cd6197ccf5476ae68171351a0b796d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:18 +0000
Subject: [PATCH 25/39] fix: merged clusters keep the values of clusters with
 different types

---
 spta/region/partition.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spta/region/partition.py b/spta/region/partition.py
index 7ee36d3..c0caa84 100644
--- a/spta/region/partition.py
+++ b/spta/region/partition.py
@@ -314,8 +314,8 @@ class PartitionRegionCrisp(PartitionRegion):
             error_msg = 'Bad cluster merge: expected {}, got {}'
             raise ValueError(error_msg.format(list(range(0, self.k)), indices))
 
-        # assuming 2d dataset
-        dtype = spatial_clusters[0].as_numpy.dtype
+        # assuming 2d dataset, the type of the merged values must be able to hold the values of all clusters
+        dtype = np.result_type(*[cluster.as_numpy.dtype for cluster in spatial_clusters])
         merged_dataset = np.empty((self.x_len, self.y_len), dtype=dtype)
 
         # this will iterate all the points in the region (not over clusters)!
-- 
2.43.0


From cb323fdb3055d7f167dc006fd61253d551cdbaef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:42 +0000
Subject: [PATCH 26/39] fix: distance statistics of a cluster with a single
 point

---
 spta/distance/variance.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/spta/distance/variance.py b/spta/distance/variance.py
index 21ef80a..b1be984 100644
--- a/spta/distance/variance.py
+++ b/spta/distance/variance.py
@@ -80,7 +80,9 @@ class DistanceHistogram(log_util.LoggerMixin):
         # min is the minimum distance after removing the mandatory 0 value from the point of
         # interest, this idiom puts the second-lowest distance at the right place
         # https://stackoverflow.com/a/22546769
-        min_distance_not_zero = np.partition(distances, 1)[1]
+        # if the point of interest is the only point, then there is no other distance
+        second = min(1, len(distances) - 1)
+        min_distance_not_zero = np.partition(distances, second)[second]
         max_distance = np.max(distances)
 
         mean = np.mean(distances)
-- 
2.43.0


From 3be733160a016d03848c76ed0e0de8e92c557d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:36 +0000
Subject: [PATCH 27/39] fix: classifier solver results name the suite they were
 asked for

---
 experiments/classifier/solver_dnn.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/experiments/classifier/solver_dnn.py b/experiments/classifier/solver_dnn.py
index b94a646..ef3f67f 100644
--- a/experiments/classifier/solver_dnn.py
+++ b/experiments/classifier/solver_dnn.py
@@ -140,6 +140,7 @@ def metadata_from_args(args):
 
     clustering_suite = get_clustering_suite(experiment.clustering_type,
                                             experiment.clustering_suite_id)
+    clustering_suite.identifier = experiment.clustering_suite_id
 
     auto_arima_params = predefined_auto_arima()[experiment.auto_arima_id]
     classifier_params = classifier_experiments()[args.classifier]
-- 
2.43.0


From 04d1da9080f30c2a1d6aaa83d8181edf5e679a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:05 +0000
Subject: [PATCH 28/39] fix: DBSCAN clustering uses the distances of its own
 distance measure

---
 spta/clustering/dbscan.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/spta/clustering/dbscan.py b/spta/clustering/dbscan.py
index 9931547..c5bcdf4 100644
--- a/spta/clustering/dbscan.py
+++ b/spta/clustering/dbscan.py
@@ -70,8 +70,13 @@ class DbscanClusteringAlgorithm(ClusteringAlgorithm):
         '''
         self.logger.info('Clustering algorithm {}'.format(self.metadata))
 
+        # the distances between all points, computed here unless they are available
+        distance_matrix = self.distance_measure.distance_matrix
+        if distance_matrix is None:
+            distance_matrix = self.distance_measure.compute_distance_matrix(spt_region)
+
         db = DBSCAN(eps=0.7, min_samples=5, metric='precomputed',
-                    algorithm='auto', leaf_size=30, p=None, n_jobs=None).fit(distance_dtw.distance_matrix)
+                    algorithm='auto', leaf_size=30, p=None, n_jobs=None).fit(distance_matrix)
 
         core_samples_mask = np.zeros_like(db.labels_, dtype=bool)
         core_samples_mask[db.core_sample_indices_] = True
-- 
2.43.0


From bd133d7f0847ed8d7f3b6432377eda7e60343e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:14 +0000
Subject: [PATCH 29/39] fix: regular and DBSCAN partitions of a spatial region

---
 spta/clustering/dbscan.py  | 7 ++++---
 spta/clustering/regular.py | 5 +++--
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/spta/clustering/dbscan.py b/spta/clustering/dbscan.py
index c5bcdf4..68c887b 100644
--- a/spta/clustering/dbscan.py
+++ b/spta/clustering/dbscan.py
@@ -57,8 +57,9 @@ class DbscanClusteringAlgorithm(ClusteringAlgorithm):
         '''
         Create a dbscan partition for a spatial region, no medoids.
         '''
-        # The partition method also works for spatial regions, notice how the shape is extracted.
-        return self.partition(spatial_region, with_medoids=False)
+        # The implementation also works for spatial regions, notice how the shape is extracted.
+        # A spatial region has no metadata, so there are no saved distances or partitions to load.
+        return self.partition_impl(spatial_region, with_medoids=False)
 
     def partition_impl(self, spt_region, with_medoids=True, save_csv_at=None):
         '''
@@ -102,7 +103,7 @@ class DbscanClusteringAlgorithm(ClusteringAlgorithm):
         #       % metrics.adjusted_mutual_info_score(labels_true, labels))
         # print("Silhouette Coefficient: %0.3f" % metrics.silhouette_score(spt_region.as_2d, labels))
 
-        _, x_len, y_len = spt_region.shape
+        x_len, y_len = spt_region.x_len, spt_region.y_len
         partition = PartitionRegionCrisp.from_membership_array(labels_with_noise,
                                                                x_len, y_len)
         return partition
diff --git a/spta/clustering/regular.py b/spta/clustering/regular.py
index 4b2037e..b47dd75 100644
--- a/spta/clustering/regular.py
+++ b/spta/clustering/regular.py
@@ -52,8 +52,9 @@ class RegularClusteringAlgorithm(ClusteringAlgorithm):
         '''
         Create a regular partition for a spatial region, no medoids.
         '''
-        # The partition method also works for spatial regions, notice how the shape is extracted.
-        return self.partition(spatial_region, with_medoids=False)
+        # The implementation also works for spatial regions, notice how the shape is extracted.
+        # A spatial region has no metadata, so there are no saved distances or partitions to load.
+        return self.partition_impl(spatial_region, with_medoids=False)
 
     def partition_impl(self, spt_region, with_medoids=True, save_csv_at=None):
         '''
-- 
2.43.0


From 4eae4ed3987f66be0364737b7fd23ff87a4b33e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:36 +0000
Subject: [PATCH 30/39] fix: the noise of synthetic series follows the random
 seed

---
 spta/classifier/synthetic.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/spta/classifier/synthetic.py b/spta/classifier/synthetic.py
index 5dd5546..5dbc0e8 100644
--- a/spta/classifier/synthetic.py
+++ b/spta/classifier/synthetic.py
@@ -1,4 +1,5 @@
 import csv
+import numpy as np
 import random
 
 from spta.dataset import synthetic_temporal
@@ -12,7 +13,9 @@ def generate_synthetic_series(available_ks, clustering_seeds, num_medoids, num_e
     Creates synthetic data similar to the one generated by spta.clustering.min_distance.
     '''
     logger = log_util.logger_for_me(generate_synthetic_series)
+    # choices are made with the first generator, noise with the second
     random.seed(random_seed)
+    np.random.seed(random_seed)
 
     output = []
 
-- 
2.43.0


From 83e85b68d5571151c65b8a224f4e4cc5226a9ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:24 +0000
Subject: [PATCH 31/39] fix: partition plots with a rectangle in a figure of
 their own

---
 spta/util/plot.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/spta/util/plot.py b/spta/util/plot.py
index 3de5b4f..8c86dc3 100644
--- a/spta/util/plot.py
+++ b/spta/util/plot.py
@@ -130,12 +130,13 @@ def plot_partition(partition, title='', subplot=None, rectangle_region=None, mar
     If rectangle_region is provided, it will also draw a red rectangle representing a region of
     interest within the partition plot. Useful for prediction regions in solvers.
     '''
-    fig = plot_discrete_spatial_region(partition, title, True, subplot, mark_points)
+    fig = None
+    had_subplot = subplot is not None
+    if not had_subplot:
+        # need our own subplot, the figure can only be shown after drawing the rectangle
+        fig, subplot = plt.subplots(1, 1)
 
-    plot_here = fig
-    if subplot is not None:
-        # if subplot is provided, then we draw in the subplot
-        plot_here = subplot
+    plot_discrete_spatial_region(partition, title, True, subplot, mark_points)
 
     if rectangle_region is not None:
 
@@ -150,8 +151,11 @@ def plot_partition(partition, title='', subplot=None, rectangle_region=None, mar
         height = rectangle_region.x2 - rectangle_region.x1
 
         # https://stackoverflow.com/questions/52056475/python-plot-rectangles-of-known-size-at-scatter-points
-        plot_here.add_patch(Rectangle(xy=xy, width=width, height=height, linewidth=1,
-                                      color='red', fill=False))
+        subplot.add_patch(Rectangle(xy=xy, width=width, height=height, linewidth=1,
+                                    color='red', fill=False))
+
+    if not had_subplot:
+        plt.show()
 
     return fig
 
-- 
2.43.0


From f7213fc65dd8849ab32584fcf33194b47658de3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:27 +0000
Subject: [PATCH 32/39] fix: centroid of a region without saved distances, or
 after another region

---
 spta/region/centroid.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/spta/region/centroid.py b/spta/region/centroid.py
index e305ef6..0d0d05c 100644
--- a/spta/region/centroid.py
+++ b/spta/region/centroid.py
@@ -70,7 +70,11 @@ class CalculateCentroid(log_util.LoggerMixin):
         '''
         spt_region = spt_region_metadata.create_instance()
 
-        # calculate centroid, should reuse a saved distance matrix if it is available
+        # should reuse a saved distance matrix of this region if it is available
+        if distance_measure.try_load_distance_matrix(spt_region) is None:
+            distance_measure.compute_distance_matrix(spt_region)
+
+        # calculate centroid
         centroid_calc = CalculateCentroid(distance_measure)
         centroid, _ = centroid_calc.find_centroid_and_distances(spt_region)
         return centroid
-- 
2.43.0


From de7a79df9d7862d76a6d4203e378c1e9e5b3c83a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:37 +0000
Subject: [PATCH 33/39] fix: count the members of a cluster in the default
 cluster_len

PartitionRegion.cluster_len added 0 for every member, so every cluster of a
partition that does not override it was empty.
---
 spta/region/partition.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spta/region/partition.py b/spta/region/partition.py
index c0caa84..c26eb18 100644
--- a/spta/region/partition.py
+++ b/spta/region/partition.py
@@ -109,7 +109,7 @@ class PartitionRegion(BaseRegion):
         members = 0
         for point in self:
             if self.is_member(point, cluster_index):
-                members += 0
+                members += 1
         return members
 
     def clone(self):
-- 
2.43.0


From 716097b4a14619474641ad5109deee0daad0c783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:01 +0000
Subject: [PATCH 34/39] fix: the series of no point is missing values

series_at(None) built the missing series without returning it, and then failed
with an AttributeError.
---
 spta/region/temporal.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spta/region/temporal.py b/spta/region/temporal.py
index eeb0679..6643613 100644
--- a/spta/region/temporal.py
+++ b/spta/region/temporal.py
@@ -53,7 +53,7 @@ class SpatioTemporalRegion(DomainRegion):
     def series_at(self, point):
         # sanity check
         if point is None:
-            np.repeat(np.nan, repeats=self.series_len)
+            return np.repeat(np.nan, repeats=self.series_len)
 
         return self.numpy_dataset[:, point.x, point.y]
 
@@ -375,7 +375,7 @@ class SpatioTemporalCluster(SpatialCluster, SpatioTemporalDecorator):
         '''
         # sanity check
         if point is None:
-            np.repeat(np.nan, repeats=self.series_len)
+            return np.repeat(np.nan, repeats=self.series_len)
 
         # self.logger.debug('SpatioTemporalCluster {} series_at {}'.format(self.label, point))
         if self.partition.is_member(point, self.cluster_index):
-- 
2.43.0


From c392fe6d28b54d55cbf2906314afb6b0ab7975f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:13 +0000
Subject: [PATCH 35/39] fix: a forecast without trained models is refused as
 such

The check of the forecast length came first and failed with an AttributeError,
since the test length is only known after training.
---
 spta/model/forecast.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spta/model/forecast.py b/spta/model/forecast.py
index c5e543c..fd929ae 100644
--- a/spta/model/forecast.py
+++ b/spta/model/forecast.py
@@ -352,10 +352,10 @@ class ForecastAnalysis(log_util.LoggerMixin):
         Also checks that the forecast length is equal to the test length that was used during
         training...
         '''
-        assert forecast_len == self.test_len
-
         if self.model_region is None:
             raise ValueError('Forecast requested but models not trained!')
 
         if self.error_analysis is None:
             raise ValueError('ErrorAnalysis not available!')
+
+        assert forecast_len == self.test_len
-- 
2.43.0


From 2a3db4f46c3be6773f1b61d7f179e9da4dc12ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:27 +0000
Subject: [PATCH 36/39] fix: iterating a region again starts at its first point
 when an earlier iteration was left early

---
 spta/model/error.py    | 3 +++
 spta/region/base.py    | 4 +++-
 spta/region/scaling.py | 3 +++
 3 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/spta/model/error.py b/spta/model/error.py
index b973072..a218e74 100644
--- a/spta/model/error.py
+++ b/spta/model/error.py
@@ -67,6 +67,9 @@ class ErrorRegion(SpatialDecorator):
         # return arrays_util.root_mean_squared(error_list)
         return self.error_combine_func(error_list)
 
+    def __iter__(self):
+        return iter(self.decorated_region)
+
     def __next__(self):
         '''
         Use the decorated iteration, which may be more interesting than the default iteration
diff --git a/spta/region/base.py b/spta/region/base.py
index 91c1112..27ff111 100644
--- a/spta/region/base.py
+++ b/spta/region/base.py
@@ -75,8 +75,10 @@ class BaseRegion(log_util.LoggerMixin):
 
     def __iter__(self):
         '''
-        Used for iterating over points
+        Used for iterating over points, always from the first one: an earlier iteration may have
+        been left before its end (e.g. by an error at some point).
         '''
+        self.point_index = 0
         return self
 
     def __next__(self):
diff --git a/spta/region/scaling.py b/spta/region/scaling.py
index 7a17085..755d6e4 100644
--- a/spta/region/scaling.py
+++ b/spta/region/scaling.py
@@ -228,6 +228,9 @@ class SpatioTemporalScaled(SpatioTemporalDecorator):
         np.save(max_filename, self.scale_max.numpy_dataset)
         self.logger.info('Saved scale_max to {}'.format(max_filename))
 
+    def __iter__(self):
+        return iter(self.decorated_region)
+
     def __next__(self):
         '''
         Don't use the default iterator here, which comes from SpatialDecorator.
-- 
2.43.0


From 7021278275d58d37904141fb822b33576344ba51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:27 +0000
Subject: [PATCH 37/39] fix: centroid indices can also be given as an array
 when creating the clusters of a partition

---
 spta/region/partition.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spta/region/partition.py b/spta/region/partition.py
index c26eb18..969c5d6 100644
--- a/spta/region/partition.py
+++ b/spta/region/partition.py
@@ -182,7 +182,7 @@ class PartitionRegion(BaseRegion):
             cluster_i.name = 'cluster{}'.format(i)
 
             # centroids available?
-            if centroid_indices:
+            if centroid_indices is not None:
                 centroid_index = centroid_indices[i]
                 ci = int(centroid_index / self.y_len)
                 cj = centroid_index % self.y_len
-- 
2.43.0


From bd8316fc93c3a117c5d8fc82c3fa8c5eb3b09710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:27 +0000
Subject: [PATCH 38/39] fix: scaling keeps the missing samples of an otherwise
 constant series

---
 spta/region/scaling.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spta/region/scaling.py b/spta/region/scaling.py
index 755d6e4..13d9c59 100644
--- a/spta/region/scaling.py
+++ b/spta/region/scaling.py
@@ -45,7 +45,8 @@ class ScaleFunction(FunctionRegionSeriesSame):
                 return np.repeat(np.nan, repeats=self.series_len)
 
             if series_min == series_max:
-                return np.zeros(self.series_len)
+                # a constant series, missing samples are kept
+                return series - series_min
 
             # scale here
             return (series - series_min) / (series_max - series_min)
-- 
2.43.0


From 00edfea47734d2b9d8908b4989751e11f6e1914e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:27 +0000
Subject: [PATCH 39/39] fix: the CSV of a prediction writes all the samples of
 long series

---
 spta/solver/result.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/spta/solver/result.py b/spta/solver/result.py
index a03d269..cd30d21 100644
--- a/spta/solver/result.py
+++ b/spta/solver/result.py
@@ -1,6 +1,7 @@
 import csv
 import numpy as np
 import os
+import sys
 
 from spta.region import Point
 from spta.region.base import BaseRegion
@@ -190,8 +191,10 @@ class PredictionQueryResult(BaseRegion):
 
         np.set_printoptions(formatter={'float': '{: 0.3f}'.format})
 
-        self.write_prediction_results(csv_dir)
-        self.write_prediction_summary(csv_dir)
+        # write all the samples, numpy abbreviates long series by default
+        with np.printoptions(threshold=sys.maxsize):
+            self.write_prediction_results(csv_dir)
+            self.write_prediction_summary(csv_dir)
 
     def write_prediction_results(self, csv_dir):
 
-- 
2.43.0


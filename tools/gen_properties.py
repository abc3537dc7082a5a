'''Source of /verif/properties.jsonl: run it to rewrite that file.'''
import json, os

P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files,
                          mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=None))
    if state:
        d['anchors']['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append(d)


R = 'spta/region/'

# ------------------------------------------------------------------ regions
prop('R01', 'Region subsets contain exactly the requested cells and instants',
     'Taking a rectangular, temporal or combined subset of a spatial or spatio-temporal region yields '
     'exactly the parent\'s values at those coordinates and instants, re-indexed from the origin, for half-open '
     'bounds. Subsets compose (a subset of a subset equals the translated subset of the parent), keep the kind of '
     'region they were taken from (a scaled region stays scaled with the scaling data of the kept points, a time '
     'subset of a cluster stays that cluster), and leave the parent unchanged.',
     ['inputs', 'histories'],
     'all datasets (any shape, duplicated and NaN values), all in-bounds rectangles and intervals, chains of subsets, '
     'plain / scaled / clustered regions',
     'The existing tests take two or three fixed rectangles of one small stub region; an offset, bound or scaling-data '
     'mix-up on other shapes or on a second subset is not reached.',
     [R + 'spatial.py', R + 'temporal.py', R + 'scaling.py'],
     [('spatial subset slicing', R + 'spatial.py:SpatialRegion.region_subset'),
      ('spatio-temporal subset slicing', R + 'temporal.py:SpatioTemporalRegion.region_subset/interval_subset/subset'),
      ('scaling data follows the subset', R + 'scaling.py:SpatioTemporalScaled.region_subset')],
     ['value_at / series_at of the subset', 'as_numpy of the subset and of the parent'])

prop('R02', 'Iterating a region visits every point once, in row-major order',
     'Iterating any region yields each of its points exactly once in row-major order, paired with that point\'s own '
     'value or series; iterating again yields the same sequence, also after a pass that was left early. The list, matrix and '
     'index-array views of a region list the same series in the same order as iteration. No point (None) has a missing '
     'value, or a series of missing values.',
     ['inputs', 'histories'],
     'all shapes and datasets; plain, decorated, scaled, subset and clustered regions; repeated passes, complete and abandoned, '
     'interleaved with other whole-region operations',
     'Existing tests iterate one or two fixed 2x3-like stubs; a wrong row length, a lost reset or a broken order only '
     'shows on non-square shapes, on one-row regions or on the second pass.',
     [R + 'base.py', R + 'spatial.py', R + 'temporal.py', R + 'scaling.py'],
     [('point iterator', R + 'base.py:BaseRegion.__next__'),
      ('value/series pairing', R + 'spatial.py:SpatialRegion.__next__, temporal.py:SpatioTemporalRegion.__next__'),
      ('list and matrix views', R + 'temporal.py:as_list, as_2d, all_point_indices')],
     ['the sequence of (point, value) pairs', 'as_list, as_2d, as_array, all_point_indices'],
     [('iterator index', 'position of the running iteration, reset at its end', R + 'base.py:point_index')])

prop('R03', 'A cluster exposes exactly its own members',
     'A cluster of a region iterates exactly the points its partition assigns to it (row-major, with the underlying '
     'values), reports their number, and refuses to give the value or series of any other point. '
     'Regions derived from a cluster (time subsets, repeated values or series, function results) are '
     'clusters over the same members, and a function applied to a cluster is evaluated at member points only.',
     ['inputs', 'histories'],
     'all partitions of all small regions into 1..n clusters, scaled or not, and sequences of derivations',
     'Existing tests use two or three stub partitions; membership mistakes on other label layouts, and members lost by '
     'a chain of derivations, are not sampled.',
     [R + 'spatial.py', R + 'temporal.py', R + 'partition.py'],
     [('member-only iterator', R + 'spatial.py:SpatialCluster.__next__, temporal.py:SpatioTemporalCluster.__next__'),
      ('member-only access', R + 'spatial.py:SpatialCluster.value_at, temporal.py:SpatioTemporalCluster.series_at'),
      ('derived regions keep the cluster', R + 'spatial.py:SpatialCluster.new_spatial_region/new_spatio_temporal_region')],
     ['iteration of the cluster', 'value_at / series_at on members and non-members', 'cluster_len, all_point_indices'])

prop('R04', 'Applying a function region evaluates each point with its own function',
     'Applying a grid of functions to a spatial or spatio-temporal region yields a region of the same '
     'shape whose value (or series of the requested length) at every point is that point\'s own function '
     'applied to that point\'s own value or series, evaluated once. The input region is not modified and the result '
     'keeps the kind of the input (cluster, scaled).',
     ['inputs', 'programs'],
     'all shapes, datasets, grids of distinct or identical functions, output lengths and numeric or object results; '
     'plain, clustered and scaled domains',
     'Existing tests apply a handful of identical functions (mean, zeros) to one stub, so swapping axes, reusing one '
     'point\'s function or evaluating twice passes them.',
     [R + 'function.py', R + 'spatial.py'],
     [('scalar application', R + 'spatial.py:DomainRegion.apply_function_scalar'),
      ('series application', R + 'spatial.py:DomainRegion.apply_function_series'),
      ('function lookup', R + 'function.py:FunctionRegion.function_at')],
     ['the result region, its dtype and class', 'the calls each function received'])

prop('R05', 'Scaling is a per-point [0,1] normalisation that can be undone',
     'Scaling a region maps every point\'s series affinely onto [0,1] (its minimum to 0 and maximum to 1, a constant '
     'series to 0, a missing sample stays missing) and records that point\'s minimum and maximum. Descaling recovers the '
     'original values, also after taking time or rectangle subsets, after clustering, and after applying '
     'functions that keep the scaled region; regions never scaled refuse to descale.',
     ['inputs', 'histories'],
     'all finite datasets with constant, partially and fully missing series; chains of time/space subsets and cluster '
     'decoration between scaling and descaling',
     'Existing tests scale one arange-like stub; different min/max per point combined with offsets and decoration order '
     'is not covered.',
     [R + 'scaling.py', R + 'temporal.py'],
     [('scaling function', R + 'scaling.py:ScaleFunction'),
      ('descaling', R + 'scaling.py:SpatioTemporalScaled.descale'),
      ('descaling through decorators', R + 'temporal.py:SpatioTemporalDecorator.descale, has_scaling')],
     ['series of the scaled region', 'series after descale()', 'scale_min and scale_max'])

prop('R06', 'Extremes and replication over regions are exact',
     'The minimum and maximum search of a spatial region returns the extreme value among its own points '
     '(members only for clusters, missing values ignored) and the first point in row-major order that attains it. Repeating a value, a '
     'series or a point over a region gives a region of the same kind in which every point holds exactly that '
     'value or series, and building a spatial region from a flat list places items in row-major order.',
     ['inputs'],
     'all value grids with ties, missing values and negative numbers; clusters; records used as values; all shapes',
     'Existing tests use one increasing grid where ties and missing values never occur.',
     [R + 'spatial.py', R + 'temporal.py', 'spta/util/arrays.py'],
     [('extreme search', R + 'spatial.py:find_minimum/find_maximum'),
      ('replication', R + 'spatial.py:repeat_value/repeat_point, temporal.py:repeat_series/repeat_point'),
      ('replication arrays', 'spta/util/arrays.py:copy_array_as_matrix_elements/copy_value_as_matrix_elements')],
     ['(point, value) returned', 'values at all points of the repeated region'])

prop('R07', 'Saved regions reload unchanged and from their own files',
     'Saving or pickling a region and loading it back yields identical values, shape, iteration and description, '
     'including a scaled region\'s minimum and maximum. Descriptions that differ in name, years, sampling rate or scaling use '
     'different files, and saving a region does not touch the file of another.',
     ['inputs', 'histories'],
     'all datasets and region descriptions, plain and scaled, sequences of saves of several regions in one folder',
     'Existing tests never save a scaled region and check one round trip of one stub.',
     [R + 'base.py', R + 'temporal.py', R + 'scaling.py', R + 'metadata.py'],
     [('dataset save', R + 'base.py:save_to, temporal.py:save, scaling.py:save'),
      ('pickle', R + 'base.py:pickle_to/from_pickle, temporal.py:pickle'),
      ('file naming', R + 'metadata.py:dataset_filename and siblings')],
     ['arrays read back from the files', 'the unpickled region'])

prop('R08', 'Relative and absolute coordinates convert exactly',
     'For any region description, converting a point, a point index or a rectangle relative to the region into '
     'coordinates of the whole dataset adds the region\'s offset, so that the value found in the whole dataset at the '
     'converted coordinates is the value found in the region at the relative ones. Medoid indices are reported in those coordinates, in their order.',
     ['inputs', 'configurations'],
     'all region rectangles (non-square, non-zero offsets) and all relative points, indices and sub-rectangles',
     'Existing tests convert one or two points of one stub region.',
     [R + 'metadata.py'],
     [('offset', R + 'metadata.py:absolute_position_of_point'),
      ('index to point', R + 'metadata.py:index_to_absolute_point'),
      ('rectangles', R + 'metadata.py:absolute_coordinates_of_region')],
     ['converted coordinates', 'dataset values at those coordinates'])

prop('R09', 'A region description always loads the described slice of the dataset',
     'Creating a region from its description returns the dataset restricted to the described years (whole years, leap '
     'years included), sampled at the described rate (daily values are the mean of that day\'s four samples), cut '
     'to the described rectangle and scaled only if asked for. '
     'Loading again from the cached copy gives the same region, and years outside the dataset are rejected. '
     'A predefined region is the one its identifier describes.',
     ['inputs', 'configurations', 'histories'],
     'all year intervals, both sampling rates, rectangles, scaled or not; first (raw) and later (cached) loads in any order',
     'The raw dataset is not shipped, so every test that loads a real region fails or is skipped; nothing covers leap '
     'years, averaging and caching together.',
     ['spta/dataset/temp_brazil.py', 'spta/util/maths.py', R + 'metadata.py'],
     [('calendar', 'spta/util/maths.py:years_to_series_interval'),
      ('daily mean', 'spta/dataset/temp_brazil.py:average_4spd_to_1spd'),
      ('cache', 'spta/dataset/temp_brazil.py:retrieve_dataset_interval'),
      ('slice', R + 'metadata.py:create_instance'),
      ('predefined regions', 'experiments/metadata/region.py:predefined_regions')],
     ['values of the created region', 'files of the cache'])

# ------------------------------------------------------------------ partitions
prop('P01', 'A partition assigns every point to exactly one cluster, consistently',
     'Every point of a partitioned region belongs to exactly one cluster with index in 0..k-1, and all the ways of '
     'asking (membership test, membership of points, membership of point indices, cluster sizes, clusters built from '
     'the partition) agree. Splitting a region into its clusters loses and duplicates no point, every '
     'cluster carries the medoid given for it, and a cloned, saved and reloaded partition answers the same.',
     ['inputs', 'histories'],
     'all label layouts (also unbalanced or with empty clusters), all k, all ways of querying',
     'Existing tests check fixed stub partitions with k of 2 or 3.',
     [R + 'partition.py'],
     [('membership', R + 'partition.py:is_member, membership_of_points, membership_of_point_indices'),
      ('sizes', R + 'partition.py:cluster_len'),
      ('cluster creation', R + 'partition.py:create_all_spatial_clusters/create_all_spt_clusters'),
      ('building from labels', R + 'partition.py:from_membership_array')],
     ['answers of the queries', 'points and centroids of the created clusters'])

prop('P02', 'Merging clusters reconstructs the region, whatever their order',
     'Merging the clusters of a partition yields a region where every point has the value of the cluster it belongs to; '
     'the order in which clusters are supplied does not matter, and a missing, repeated or foreign cluster is rejected. Merging with '
     'representatives gives every point the value found at the representative of its cluster and rejects '
     'a representative outside its cluster.',
     ['inputs'],
     'all partitions, value grids (numbers and model objects), permutations of the cluster list, representatives',
     'Existing tests merge already ordered clusters of one stub.',
     [R + 'partition.py'],
     [('merge', R + 'partition.py:merge_clusters_2d'),
      ('representatives', R + 'partition.py:merge_with_representatives_2d')],
     ['values of the merged region', 'rejections'])

prop('P03', 'Regular partitioning tiles the region into k balanced rectangles',
     'Whenever a region is large enough for the most balanced factorisation of k, regular partitioning assigns to every point one of k '
     'labels so that each label is a non-empty full rectangle, labels are numbered row by row, the rectangles form a '
     'grid with the factor counts along each axis (larger factor on the longer axis), all but the last row '
     'and column of rectangles have equal extents, and along an axis at least as long as the square of its factor no '
     'extent is off the even share by more than half of it. Otherwise it is rejected.',
     ['inputs'],
     'all (rows, columns, k), including prime k, squares, exact and inexact divisions',
     'A dozen (x, y, k) combinations are tested; the residue handling has corner cases on other combinations.',
     ['spta/util/arrays.py', 'spta/util/maths.py', R + 'partition.py', 'spta/clustering/regular.py'],
     [('tiling', 'spta/util/arrays.py:regular_partitioning'),
      ('factorisation', 'spta/util/maths.py:find_two_balanced_divisors, two_balanced_divisors_order_x_y'),
      ('partition', R + 'partition.py:with_regular_partition')],
     ['the label matrix'])

prop('P04', 'Clusters and medoids intersecting a rectangle are found exactly',
     'Asking a partition which clusters (or whose medoids) intersect a rectangle returns exactly those '
     'clusters owning at least one point inside the rectangle, each once, with the medoid of each such cluster.',
     ['inputs'],
     'all partitions and in-bounds rectangles, including one-point rectangles and the whole region',
     'One stub partition and two rectangles are tested.',
     [R + 'partition.py'],
     [('intersection', R + 'partition.py:find_indices_of_clusters_intersecting_with'),
      ('medoids', R + 'partition.py:find_medoids_of_clusters_intersecting_with')],
     ['returned cluster indices and medoids'])

prop('P05', 'Saved partitions are reused only for the same clustering request',
     'Partitioning with persistence returns the same partition, labels and medoids whether it was computed or reloaded, '
     'writes only under the folder given for persistence, and does not recompute when a saved one is there. Requests '
     'that differ in region, distance, number of clusters, seed, mode or folder never share a saved partition, and a '
     'damaged or missing file leads to recomputation.',
     ['inputs', 'histories', 'configurations'],
     'sequences of partition requests over several regions, distances, algorithms, parameters and folders, with saved '
     'files deleted or corrupted in between',
     'No existing test exercises the partition cache.',
     ['spta/clustering/__init__.py', R + 'partition.py'],
     [('cache lookup', 'spta/clustering/__init__.py:ClusteringAlgorithm.partition, try_load_previous_partition'),
      ('path', 'spta/clustering/__init__.py:pickle_full_path, ClusteringMetadata.pickle_dir'),
      ('serialisation', R + 'partition.py:to_pickle, try_from_pickle')],
     ['returned partitions', 'files on disk', 'number of clustering runs'])

prop('P06', 'Fuzzy masks contain exactly the points within the threshold',
     'A fuzzy cluster mask contains exactly the points whose best membership exceeds their membership in that cluster by '
     'no more than the threshold, for memberships given either as a grid or as a point list. With '
     'threshold 0 only best clusters own a point, enlarging the threshold never removes a point, and with threshold 1 every point is in every mask.',
     ['inputs'],
     'all membership matrices, shapes, thresholds in [0,1] and cluster indices',
     'Existing tests use one stub membership matrix with three thresholds.',
     [R + 'mask.py'],
     [('membership rule', R + 'mask.py:MaskRegionFuzzy.is_member'),
      ('reordering', R + 'mask.py:from_uij_and_region')],
     ['points iterated by the mask', 'cluster_len'])

# ------------------------------------------------------------------ distances
prop('D01', 'Series distances satisfy their definitions and laws',
     'The dynamic-time-warping distance of two series is the square root of the minimal sum of squared differences over all '
     'monotone alignments, and the root-mean-square distance its closed form; both are symmetric, non-negative and zero on identical series, and a '
     'missing series yields a missing distance rather than a number. Measuring many series against one '
     'agrees with measuring them one by one; combining distances adds them for dynamic time warping and otherwise takes the root mean square of those that are not missing.',
     ['inputs'],
     'all pairs of finite series (including length 1 and constants), all lists of series, series containing missing values',
     'Existing tests measure two or three fixed series.',
     ['spta/distance/__init__.py', 'spta/distance/dtw.py', 'spta/distance/rmse.py'],
     [('DTW', 'spta/distance/dtw.py:DistanceByDTW.measure'),
      ('batch', 'spta/distance/__init__.py:compute_distances_to_a_series'),
      ('combine', 'spta/distance/dtw.py:combine')],
     ['distances returned'])

prop('D02', 'The distance matrix is the pairwise distances, however it is computed',
     'The distance matrix of a region has, at row i and column j, the distance between the series of the i-th and j-th '
     'points in row-major order; it is symmetric with a zero diagonal. The parallel computation gives the same '
     'matrix as the serial one for every number of workers, and distances looked up in the matrix for a point and any '
     'set of points (a cluster included) equal those measured directly.',
     ['inputs', 'schedules', 'configurations'],
     'all region shapes and datasets, numbers of workers, OS schedules of the workers, subsets of points and clusters',
     'One small matrix is compared in the tests; the parallel path has no test at all.',
     ['spta/distance/dtw.py', 'spta/distance/dtw_parallel.py', 'spta/util/parallel.py', 'spta/distance/__init__.py'],
     [('serial matrix', 'spta/distance/dtw.py:compute_distance_matrix'),
      ('parallel matrix', 'spta/distance/dtw_parallel.py, spta/util/parallel.py:InterPointsOperation'),
      ('lookup', 'spta/distance/__init__.py:distances_to_point, distances_to_point_with_matrix')],
     ['the matrix', 'distances to a point'])

prop('D03', 'Precomputed distance matrices are accepted only when they fit',
     'A stored distance matrix is loaded unchanged when its size matches the region and rejected otherwise; when no '
     'stored matrix exists the automatic load leaves the measure usable without one. The spatially weighted '
     'distance is, after loading, the stored distance plus the weight times the Euclidean distance of the two points '
     'in the region, counted exactly once however often a matrix is loaded or requested.',
     ['inputs', 'histories'],
     'all matrices, region shapes (matching and not), weights, and sequences of loads by one measure object',
     'Existing tests load one matrix once with one weight.',
     ['spta/distance/__init__.py', 'spta/distance/dtw.py'],
     [('size check', 'spta/distance/__init__.py:load_distance_matrix_2d'),
      ('automatic load', 'spta/distance/__init__.py:try_load_distance_matrix'),
      ('spatial weight', 'spta/distance/dtw.py:DistanceBySpatialDTW')],
     ['the matrix held by the measure', 'rejections'],
     [('weighted flag', 'whether the spatial term was already added', 'spta/distance/dtw.py')])

prop('D04', 'The centroid minimises the total distance to its own region or cluster',
     'The centroid found for a region or for a cluster is one of its own points, no other of its points has a smaller sum '
     'of distances to all of its points, ties go to the first in row-major order, and the distances reported with it '
     'are those from the centroid to all of its points. A region asked for its centroid gives the centroid '
     'already known for it, or else this one. The medoids of a regular partition are the centroids of its clusters.',
     ['inputs'],
     'all datasets and distance matrices with ties, all partitions',
     'One stub region with hand-made distances is tested.',
     [R + 'centroid.py', R + 'temporal.py', 'spta/clustering/__init__.py'],
     [('search', R + 'centroid.py:find_centroid_and_distances'),
      ('cluster medoids', 'spta/clustering/__init__.py:find_medoids_for_partition'),
      ('cached centroid', R + 'temporal.py:get_centroid/has_centroid')],
     ['the centroid and its distances'])

prop('D05', 'Cluster distance statistics describe exactly the distances to the medoid',
     'The distance-to-medoid statistics of a cluster are computed from the distances between the medoid and every '
     'member once (plus, when asked for, the requested number of distinct points outside the cluster): counts, mean, and maxima '
     'and the common histogram range match those distances, and so do the bars of the histogram figures. The total intra-cluster cost of a partition is the sum over '
     'all points of the squared distance to the medoid of their own cluster.',
     ['inputs'],
     'all partitions, medoids, distance matrices and numbers of outside points',
     'No existing test covers the variance statistics; cost is tested on one stub.',
     ['spta/distance/variance.py', R + 'partition.py'],
     [('distances of a cluster', 'spta/distance/variance.py'),
      ('cost', R + 'partition.py:intra_cluster_cost')],
     ['statistics returned', 'cost returned', 'figures'])

# ------------------------------------------------------------------ clustering
prop('C01', 'K-medoids returns a valid, locally consistent clustering',
     'K-medoids returns k distinct medoids that are sample indices, labels each sample with its nearest medoid (lowest index on ties), '
     'reports costs that are exactly the distances of the samples to their medoids, and never ends worse than '
     'it started. In its final state no single exchange considered by the chosen search mode improves the total cost beyond the '
     'tolerance, unless the iteration limit was hit, and the search always ends.',
     ['inputs', 'configurations'],
     'all sample sets and symmetric distance matrices, k from 1 to n, seeds, initial medoids, modes, tolerances and '
     'iteration limits',
     'Existing tests compare the outcome for one stub and one or two seeds with a recorded result.',
     ['spta/kmedoids/kmedoids.py', 'spta/kmedoids/__init__.py'],
     [('assignment', 'spta/kmedoids/kmedoids.py:get_cluster_costs / labels'),
      ('exchange loop', 'spta/kmedoids/kmedoids.py:run_kmedoids')],
     ['medoids, labels, costs, total cost'])

prop('C02', 'Clustering is reproducible and independent of how distances are obtained',
     'With the same data, seed and parameters k-medoids gives the same result every time, whatever ran before, and gives the '
     'same result with a precomputed distance matrix as when measuring on the fly; given initial medoids are '
     'the ones it starts from. Partitioning a region yields labels and medoids that match the k-medoids run on '
     'its series in row-major order.',
     ['inputs', 'histories', 'configurations'],
     'all datasets, parameters and seeds; interleaved runs and consumers of the global random generator',
     'Existing tests run one configuration once.',
     ['spta/kmedoids/kmedoids.py', 'spta/clustering/kmedoids.py'],
     [('seeding', 'spta/kmedoids/kmedoids.py:choose_initial_medoids'),
      ('matrix reuse', 'spta/kmedoids/kmedoids.py'),
      ('region adapter', 'spta/clustering/kmedoids.py:partition_impl')],
     ['results of repeated and alternative runs'])

prop('C03', 'Fuzzy k-medoids gives probabilistic memberships at a local optimum',
     'Fuzzy k-medoids returns k distinct medoids and memberships in [0,1] that add to one for every sample, follow the fuzzifier '
     'formula for the distances to the medoids, and are one for a medoid in its own cluster; the reported costs are the membership-weighted distances. '
     'No replacement of a single medoid by another sample lowers the total cost beyond the tolerance, '
     'and this holds also when the initial medoids are already optimal.',
     ['inputs', 'configurations'],
     'all sets of pairwise different samples, k from 1 to n, fuzzifiers above 1, seeds, initial medoids',
     'There is no test of the fuzzy algorithm besides the mask.',
     ['spta/kmedoids/kmedoids_fuzzy.py'],
     [('membership', 'spta/kmedoids/kmedoids_fuzzy.py:compute_membership_fcm'),
      ('search', 'spta/kmedoids/kmedoids_fuzzy.py:run_kmedoids_fuzzy')],
     ['medoids, memberships, costs'])

prop('C04', 'Clustering descriptions identify the clustering they describe',
     'The textual form of a clustering description determines the description: parsing it gives back an equal one with the same '
     'parameters (for descriptions without explicitly given initial medoids). Two descriptions are equal (and interchangeable as dictionary keys) exactly when all of the parameters in '
     'their textual form coincide, and different descriptions, distances or regions use different output and '
     'persistence folders.',
     ['inputs', 'configurations'],
     'all algorithms, k, seeds and modes; all pairs of descriptions; region and distance combinations',
     'A couple of fixed strings are parsed in the tests; equality of descriptions that differ in the seed is not looked at.',
     ['spta/clustering/__init__.py', 'spta/clustering/kmedoids.py', 'spta/clustering/regular.py',
      'spta/clustering/factory.py'],
     [('repr and parsing', 'spta/clustering/kmedoids.py:__repr__/from_repr, regular.py, factory.py:from_repr'),
      ('equality', 'spta/clustering/__init__.py:__eq__/__hash__'),
      ('folders', 'spta/clustering/__init__.py:output_dir/pickle_dir')],
     ['parsed descriptions', 'equality and hashes', 'paths'])

prop('C05', 'Clustering suites enumerate all combinations and read back their results',
     'A clustering suite contains exactly one description per combination of its cluster counts and seeds, '
     'with the common parameters applied, in a stable order, and organising it by seed keeps every description once, under its seed, in '
     'increasing cluster count. The result table written by analysing a suite is read back with one '
     'entry per description and its medoids in dataset coordinates, in order.',
     ['inputs', 'configurations'],
     'all k ranges (not only increasing), seed lists or single seeds, extra parameters, region offsets',
     'Existing tests cover one suite of each type.',
     ['spta/clustering/suite.py', 'experiments/clustering/partition_analysis.py', 'experiments/metadata/clustering.py'],
     [('enumeration', 'spta/clustering/suite.py:ClusteringSuite'),
      ('grouping', 'spta/clustering/suite.py:OrganizeClusteringSuite'),
      ('CSV reading', 'spta/clustering/suite.py:retrieve_suite_result_csv'),
      ('CSV writing', 'experiments/clustering/partition_analysis.py:analyze_suite')],
     ['descriptions in the suite', 'rows of the CSV and what is read back'])

prop('C06', 'The elbow is the point of greatest cost curvature, per seed',
     'Given the intra-cluster costs of a sequence of cluster counts (evenly spaced or not), the elbow is the interior '
     'count with the greatest discrete second derivative of the cost, the first one on ties. For a suite with several '
     'seeds the elbow of each seed is computed from the partitions and costs of that seed alone.',
     ['inputs', 'configurations'],
     'all cost sequences and increasing cluster counts, all numbers of seeds',
     'One cost sequence is tested; a suite with several seeds is never run end to end.',
     ['spta/clustering/suite.py'],
     [('second derivative', 'spta/clustering/suite.py:find_cost_elbow_given_order'),
      ('per seed', 'spta/clustering/suite.py:find_cost_elbow_for_each_kmedoids_seed, get_all_partitions')],
     ['elbow returned per seed'])

prop('C07', 'Silhouette scores and the chosen clustering follow the silhouette definition',
     'The silhouette score reported for a clustering is the mean over all points of (b-a)/max(a,b), with a the mean '
     'distance to the other points of the own cluster, b the smallest mean distance to another cluster, and zero for a singleton. '
     'The analysis of several clusterings visits each combination and reports the parameters, medoids and labels of the one '
     'with the highest score, the first on ties.',
     ['inputs', 'configurations'],
     'all symmetric distance matrices, labelings, k values and seeds',
     'No existing test checks a silhouette value.',
     ['spta/kmedoids/silhouette.py', 'spta/util/plot.py', 'spta/clustering/silhouette.py'],
     [('score', 'spta/util/plot.py:plot_clustering_silhouette'),
      ('selection', 'spta/kmedoids/silhouette.py:do_silhouette_analysis'),
      ('suite analysis', 'spta/clustering/silhouette.py')],
     ['scores and selection returned', 'files written'])

prop('C08', 'Cluster reports list true sizes, coverages, costs and medoid distances',
     'The cluster report of a partition has one row per cluster with its true number of points and its percentage of '
     'the region, so that points add up to the region size. The suite analysis reports, per clustering, the sum of all distances of points to '
     'their medoid and the medoids in dataset coordinates; the medoid distance report is the symmetric table of distances between medoids.',
     ['inputs', 'configurations'],
     'all regions with offsets, partitions, suites and distance matrices',
     'No existing test reads the reports.',
     ['spta/clustering/__init__.py', 'experiments/clustering/partition_analysis.py',
      'experiments/clustering/medoid_distances.py'],
     [('cluster CSV', 'spta/clustering/__init__.py:save_to_csv'),
      ('suite CSV', 'experiments/clustering/partition_analysis.py:analyze_partition'),
      ('medoid CSV', 'experiments/clustering/medoid_distances.py:compute_and_save_medoid_distances')],
     ['rows of the files'])

prop('C09', 'DBSCAN puts density-connected points, and only those, in a cluster',
     'A point is a core point when at least five points, itself included, are within distance 0.7 of it by the distance matrix of the distance measure (available, '
     'found next to the dataset or computed). Core points within 0.7 of each other are in the same cluster and unconnected ones in different clusters; a point near a core point '
     'is in the cluster of one of those; group 0 holds exactly the remaining points and the clusters are numbered from 1. The same holds for a spatial '
     'region; a stored result is returned again. The textual form of a DBSCAN description identifies it and can be parsed.',
     ['inputs', 'configurations'],
     'all regions and distance matrices: clusters, border points, stragglers, everything or nothing clustered',
     'Nothing tests this algorithm.',
     ['spta/clustering/dbscan.py'],
     [('clustering', 'spta/clustering/dbscan.py:partition_impl'), ('description', 'spta/clustering/dbscan.py:DbscanClusteringMetadata')],
     ['labels of the partition'])

# ------------------------------------------------------------------ models
prop('M01', 'Training and test data split the series without overlap or loss',
     'Splitting a region for training puts the last requested samples of every series in the test region and all earlier '
     'samples in the training region, in order, so that joining both gives the original series at each '
     'point. The kind of region (cluster, scaled) is kept and the original is not modified.',
     ['inputs'],
     'all series lengths and test lengths, plain, scaled and clustered regions',
     'One split of one stub is tested.',
     ['spta/model/train.py'],
     [('split', 'spta/model/train.py:SplitTrainingAndTestLast.split')],
     ['training and test regions'])

prop('M02', 'Each point is modelled from its own series; missing models stay missing',
     'Training over a region builds at every point the model of that point\'s own training series and parameters; training at '
     'representatives only builds models at exactly those points. The number of missing models '
     'reported is the number of points without a model, and such points forecast only missing values of the requested length while all others '
     'forecast with their own model.',
     ['inputs', 'fault_sequences'],
     'all regions and clusters, parameter grids, sets of representatives and of points whose training fails',
     'Only one test trains ARIMA at a fixed stub without failures.',
     ['spta/model/train.py', 'spta/model/base.py'],
     [('per-point training', 'spta/model/train.py:ModelTrainer'),
      ('representatives', 'spta/model/train.py:TrainAtRepresentatives'),
      ('forecasting', 'spta/model/base.py:ModelRegion')],
     ['models and forecasts per point', 'missing_count'])

prop('M03', 'Baseline forecasts equal their definitions',
     'The k-nearest-neighbour model forecasts with the mean of the k windows of its training series that are closest to its last window, '
     'and rejects parameters that do not fit the series; the past-mean model repeats the mean of '
     'the last requested samples. Forecasts have the requested length and every point of a region uses its own series.',
     ['inputs', 'configurations'],
     'all series, window lengths, k, numbers of past samples and forecast lengths without distance ties',
     'Existing tests check one or two series for each model.',
     ['spta/model/knn.py', 'spta/model/mean.py'],
     [('kNN', 'spta/model/knn.py'), ('mean', 'spta/model/mean.py')],
     ['forecast values and lengths', 'rejections'])

prop('M04', 'ARIMA models keep their orders, and failures become missing models',
     'A suite of ARIMA orders yields every combination of its p, d and q values once. Training over a region gives at each '
     'point a model of the order found or requested for that point, refitting on other data keeps each point\'s order, '
     'reported orders and criteria are those of the models, and a point whose training fails has a missing model, missing forecasts and no influence on other points.',
     ['inputs', 'fault_sequences', 'configurations'],
     'all order lists, model-fitting outcomes (success, failure per point) and series',
     'One auto-ARIMA training of one stub is tested.',
     ['spta/arima/__init__.py', 'spta/arima/train.py', 'spta/arima/model.py'],
     [('suite', 'spta/arima/__init__.py:ArimaSuiteParams'),
      ('training', 'spta/arima/train.py'),
      ('extraction', 'spta/arima/train.py:extract_pdq / extract_aic')],
     ['orders, criteria and forecasts per point'])

prop('M05', 'Forecast error measures equal their formulas',
     'The scaled, symmetric percentage and squared error of a forecast equal their published formulas for that '
     'observation and training series, are zero for a perfect forecast, and are missing when the forecast is missing. Applied '
     'to regions, the error at each point uses that point\'s forecast, observation and training series, in original units when the '
     'regions are scaled.',
     ['inputs'],
     'all finite series (training with some variation), regions, clusters, scaled regions and missing forecasts',
     'Existing tests check few fixed series, never a scaled region with different ranges per point.',
     ['spta/util/error.py', 'spta/model/error.py'],
     [('formulas', 'spta/util/error.py'),
      ('region errors', 'spta/model/error.py:MeasureForecastingError')],
     ['error values per point'])

prop('M06', 'The overall error is the root mean square of the point errors',
     'The overall error of an error region is the root mean square of the errors of its own points, ignoring missing ones. '
     'The overall error of using one point\'s forecast everywhere equals the overall error of that forecast '
     'repeated over the region, is missing where there is no forecast, and the parallel computation gives the same values as the '
     'serial one for any number of workers.',
     ['inputs', 'schedules', 'configurations'],
     'all error grids, forecasts, clusters, error types and worker counts, OS schedules of the workers',
     'One stub is tested serially; the parallel path has no test.',
     ['spta/model/error.py', 'spta/model/error_parallel.py'],
     [('overall', 'spta/model/error.py:ErrorRegion.overall_error'),
      ('each forecast', 'spta/model/error.py:OverallErrorForEachForecast'),
      ('parallel', 'spta/model/error_parallel.py')],
     ['overall errors'])

prop('M07', 'Forecast analysis reports the true best, worst and local errors',
     'A forecast analysis forecasts every point with its own trained model, and reports as combined error the overall error of those '
     'forecasts, as minimum, maximum and centroid the overall errors of the models at the best, worst and centroid points used for the whole region, and as '
     'local minimum the model with the best forecast of its own point. When the region has no centroid the centroid error is absent. '
     'A forecast before training, or for another length than the test data, is refused.',
     ['inputs', 'configurations'],
     'all regions with and without centroid, trainers, error types and test lengths',
     'One stub region with a centroid is tested.',
     ['spta/model/forecast.py'],
     [('training', 'spta/model/forecast.py:train_models'),
      ('analysis', 'spta/model/forecast.py:analyze_errors and helpers')],
     ['the reported errors'])

# ------------------------------------------------------------------ solvers
prop('S01', 'A trained solver models every point with its cluster medoid\'s model',
     'After training a solver with a clustering, models are trained only at the medoids, and the model, and the '
     'generalisation error, used for each point are those of the medoid of its own cluster: the error is that of the medoid\'s training-time forecast on the point\'s '
     'test samples. Models used for future forecasts are refitted on the complete series of the same medoids.',
     ['inputs', 'configurations'],
     'all regions, partitions and medoids, test lengths, error types, trainers',
     'No existing test trains a solver.',
     ['spta/solver/train.py', R + 'partition.py'],
     [('training', 'spta/solver/train.py:SolverTrainer.train'),
      ('replication', R + 'partition.py:merge_with_representatives_2d')],
     ['models and errors per point'])

prop('S02', 'Answering a query for a rectangle equals restricting the whole answer',
     'A prediction query for any rectangle gives at each point the forecast and error that a query for the whole '
     'region gives at the same place. Without a future length the forecast covers the test samples with the '
     'training-time models, with one it has that length and uses the refitted models; values are in original units when the region was scaled.',
     ['inputs', 'configurations', 'histories'],
     'all trained solvers, rectangles, future lengths and sequences of queries',
     'No existing test queries a solver.',
     ['spta/solver/model.py', 'spta/solver/result.py'],
     [('query', 'spta/solver/model.py:predict'),
      ('results', 'spta/solver/result.py')],
     ['forecast and error at each point'])

prop('S03', 'A saved solver reloads to the same answers, under its own name',
     'Saving a solver and loading it from its description gives the same answers to every query and the same description. Solvers '
     'that differ in region, model parameters, clustering, distance, test length or error type are stored in different '
     'files and never replace each other; loading one never saved fails.',
     ['inputs', 'histories', 'configurations'],
     'all solver descriptions, pairs of descriptions, save/load sequences',
     'No existing test saves a solver.',
     ['spta/solver/model.py', 'spta/solver/metadata.py'],
     [('persistence', 'spta/solver/model.py:SolverPickler'),
      ('naming', 'spta/solver/metadata.py')],
     ['answers of the reloaded solver', 'files written'])

prop('S04', 'Query results report the right point, forecast, observation and error',
     'Every point reported in the text and tables of a query result carries the dataset coordinates, cluster '
     '(or label), forecast, observed test series (when in-sample) and error of that very point, listed once in row-major order. '
     'The summary gives the clustering, the number of clusters involved, the root mean square over their medoids of the summed '
     'distances between the observed test series, the test length and the mean squared error; tables are written under the given output folder '
     'in files that differ between rectangles, between in-sample and future queries, and between the solvers asked (region, scaling, model parameters, clustering or suite, test length, error type).',
     ['inputs', 'configurations'],
     'all regions with offsets, rectangles, partitions, in-sample and future queries',
     'No existing test reads a query result.',
     ['spta/solver/result.py'],
     [('coordinates', 'spta/solver/result.py:PredictionQueryResult.to_domain_coordinates and siblings'),
      ('rows', 'spta/solver/result.py:result_tuple_for_point, summary_tuple'),
      ('clusters', 'spta/solver/result.py:ResultWithPartition')],
     ['text lines, CSV rows, file names'])

prop('S05', 'A classifier solver forecasts each point with the model of its label',
     'A classifier-based solver labels each queried point from its own series and forecasts it with the model '
     'trained at the medoid that the label denotes (clustering, and position among its medoids). '
     'Labels are converted to the medoid and back without confusion between clusterings, and results report each point with its own label.',
     ['inputs', 'configurations'],
     'all suites, medoid sets, classifiers (label assignments), rectangles and future lengths',
     'Existing tests cover the label strings of one stub.',
     ['spta/classifier/model.py', 'spta/clustering/__init__.py', 'spta/solver/result.py'],
     [('label to model', 'spta/classifier/model.py'),
      ('label parsing', 'spta/clustering/kmedoids.py:from_classifier_label')],
     ['forecasts, labels and reports per point'])

prop('S06', 'Classifier training data pairs random non-medoid points with their best medoid',
     'Training data for a classifier draws the requested number of distinct points of the region that are not '
     'medoids of the suite, and labels each with the medoid of the suite having the smallest distance (or prediction error) '
     'to it, the first on ties. The drawn points depend only on the seed, and the tables '
     'written give the coordinates, series, clustering, medoid and distance of those same points and medoids, and requests for '
     'other suites, counts, seeds, criteria, models, test lengths or error types write other files.',
     ['inputs', 'configurations'],
     'all regions with offsets, suites, counts, seeds, distance matrices',
     'The five tests of this module fail for lack of the raw dataset.',
     ['spta/classifier/train_input.py', 'spta/util/maths.py'],
     [('drawing', 'spta/classifier/train_input.py:TrainDataWithRandomPoints, maths.py:random_integers_with_blacklist'),
      ('choice', 'spta/classifier/train_input.py:MedoidsChoiceMinDistance, MedoidsChoiceMinPredictionError'),
      ('tables', 'spta/classifier/train_input.py:csv writers')],
     ['rows of the tables', 'drawn points'])

prop('S07', 'Sliding windows cover a series completely, in order, with their labels',
     'Cutting a series into windows gives every window of the requested length that starts at a multiple of the stride and fits in '
     'the series, in order, each equal to that stretch of the series. Cutting labelled series yields, for every row, exactly its windows, each '
     'followed by the label of its own row.',
     ['inputs'],
     'all series lengths, window lengths, strides, numbers of rows and labels',
     'Two fixed arrays are tested.',
     ['spta/util/arrays.py', 'spta/classifier/sliding_window.py'],
     [('windows', 'spta/util/arrays.py:sliding_window'),
      ('labelled windows', 'spta/classifier/sliding_window.py')],
     ['windows returned or written'])

# ------------------------------------------------------------------ utilities
prop('U01', 'Numeric helpers agree with their mathematical definitions',
     'Divisors, balanced factor pairs, extreme-value search, root-mean-square and related reductions (missing values not counted), '
     'point lists and distances over a grid equal their mathematical definitions for every '
     'valid input. Random draws with exclusions return the requested number of distinct allowed integers, within bounds, and fail '
     'when there are not enough.',
     ['inputs'],
     'all integers, arrays with ties and missing values, grids, ranges and exclusion lists',
     'A few constants are tested.',
     ['spta/util/maths.py', 'spta/util/arrays.py'],
     [('divisors', 'spta/util/maths.py:divisors, find_two_balanced_divisors'),
      ('reductions', 'spta/util/arrays.py'),
      ('draws', 'spta/util/maths.py:random_integers_with_blacklist')],
     ['returned values'])

prop('U02', 'Barycentre averaging of series never increases the total warping cost',
     'The squared warping distance used for averaging equals the minimal sum of squared differences over monotone alignments, '
     'for series of equal or different length. Each averaging step keeps the length of the centre, each of its values is the mean of the samples '
     'aligned to it, and the sum of squared warping distances to the averaged series never increases from step to step.',
     ['inputs'],
     'all sets of finite series of possibly different lengths, numbers of iterations',
     'There is no test of averaging.',
     ['spta/dba/dba.py'],
     [('distance', 'spta/dba/dba.py:squared_DTW'),
      ('update', 'spta/dba/dba.py:DBA_update')],
     ['the average series', 'sums of squared distances'])

# ------------------------------------------------------------------ commands
E = 'experiments/'
prop('U03', 'Figures show the data they are drawn from',
     'The figure of a partition gives each point, at its row and column, the colour of its cluster, different clusters different colours, marks exactly the given points '
     'visibly and encloses exactly the points of the given rectangle; the figure of values shows each value at its place. A silhouette figure shows every silhouette of '
     'each cluster, in its colour on the map, and their mean. Series, distances against errors and heat maps show each number at its place. Given subplots are '
     'used and nothing else, and a query of a solver saves the figure of its own rectangle.',
     ['inputs'],
     'all shapes, partitions, marks and rectangles; labels with distances; groups of series; tiles in any order',
     'Nothing looks at what is drawn.',
     ['spta/util/plot.py', 'spta/solver/model.py'],
     [('maps', 'spta/util/plot.py:plot_discrete_spatial_region, plot_partition'), ('silhouettes', 'spta/util/plot.py:plot_clustering_silhouette'),
      ('query figure', 'spta/solver/model.py:plot_regions')],
     ['parts of the figure when it is saved or shown'])

prop('S08', 'Synthetic training data follow their parameters and random seed',
     'Each generated entry has one of the given counts and seeds, a cluster index below its count and one of the requested number of medoids inside the region; its series '
     'is the line with slope (count - index) times the weight, rising for odd and falling for even seeds, from one of the twelve even steps of the intercept interval, plus noise '
     'of the requested size. The same random seed gives the same entries. The CSV has one row per entry in the layout of the training data. A delayed profile is the profile '
     'over the unpadded length, shifted by less than the padding (15 % of the length, at most 30) between zeros, plus small noise.',
     ['inputs', 'configurations', 'histories'],
     'all parameters, lengths and random seeds, whatever random numbers were drawn before',
     'Nothing tests the synthetic data.',
     ['spta/classifier/synthetic.py', 'spta/dataset/synthetic_temporal.py'],
     [('entries', 'spta/classifier/synthetic.py:generate_synthetic_series'), ('table', 'spta/classifier/synthetic.py:generate_synthetic_csv'),
      ('line and profiles', 'spta/dataset/synthetic_temporal.py')],
     ['entries', 'rows of the CSV file'])

prop('X01', 'The forecasting commands answer like the solver they describe',
     'A predict command answers with the solver that was trained with the same region, model, clustering, seed, test length and error (arguments left out '
     'have their documented defaults) and no other, and fails when that solver was never trained. For every point of the rectangle it prints, and writes under outputs, '
     'the dataset coordinates, cluster or label, forecast, observation and error that follow from the data. The commands that model each point by itself, and the '
     'classifier command (own or other region as the source of the past, summary naming the suite asked for), likewise.',
     ['inputs', 'histories', 'configurations'],
     'all regions, arguments given or left out, sequences of training and queries',
     'No test runs a command.',
     [E + 'baseline/', E + 'auto_arima/', E + 'classifier/', 'spta/solver/', 'spta/model/'],
     [('baselines', E + 'baseline/*.py'), ('automatic models', E + 'auto_arima/solver.py, solver_each.py'),
      ('labels', E + 'classifier/solver_dnn.py')],
     ['printed lines', 'CSV tables', 'failure'])

prop('X02', 'The clustering commands report what they say about the region',
     'For a described region and suite the distance command saves the exact distance matrix for any number of workers; the analysis command writes for every '
     'clustering, once, its total cost and its medoids in dataset coordinates; the medoid distance command writes the distances between the medoids of each '
     'clustering; the elbow command prints for each seed the counts in order and the elbow of their costs; and the extraction command writes the requested '
     'number of distinct non-medoid points with their best medoid by either criterion. Results stored by an earlier run do not change the answer.',
     ['inputs', 'histories', 'configurations', 'schedules'],
     'all regions at any place of the dataset, suites of both kinds, criteria, seeds, workers and repeated runs',
     'No test runs a command.',
     [E + 'region/', E + 'clustering/', 'spta/clustering/', 'spta/distance/', 'spta/classifier/train_input.py'],
     [('distances', E + 'region/distance.py'), ('analyses', E + 'clustering/partition_analysis.py, medoid_distances.py, find_elbows.py'),
      ('training data', E + 'clustering/extraction_lstm.py')],
     ['CSV tables', 'saved matrix', 'printed elbows'])

prop('X03', 'The error analysis commands report the errors of the models they describe',
     'For every clustering of a suite, and every model order, the analysis commands write one row per cluster with its size, order, criterion, number of failed '
     'models and the combined, best, locally best, medoid and worst errors of its models; the medoid error command writes the error of the model of each '
     'medoid at each medoid; the distance command writes for each point of each cluster its dataset position, its distance to the medoid and the error there of the medoid\'s '
     'model; and the forecast command prints the errors over the whole region with its centroid. Errors are of forecasts of the last samples, of the length and type asked for, in original units. '
     'Requests for different types of error write different files. Their plots show, for every point of a cluster, its distance to the medoid against the error there of the model of the medoid.',
     ['inputs', 'faults', 'configurations', 'histories'],
     'all regions, suites, orders, error types, forecast lengths, training failures and workers',
     'No test runs a command.',
     [E + 'arima/', E + 'auto_arima/', 'spta/model/forecast.py', 'spta/model/error.py', 'spta/arima/train.py'],
     [('rows per cluster', E + 'arima/training_error_analysis.py, ' + E + 'auto_arima/training_error_analysis.py'),
      ('medoids', E + 'auto_arima/error_between_medoids.py, distance_errors.py'), ('region', E + 'arima/forecast.py')],
     ['CSV tables', 'printed lines', 'figures'])

prop('X04', 'The region and silhouette commands save, choose and draw what the data implies',
     'The centroid command reports the first point with the smallest sum of distances to all points, and that sum, from the stored distances or, without any, from the series; so does a lookup of centroids by region name, whatever regions the distance measure was used on before. The distance figures of both '
     'commands show the distances to the first and to the center point at each place. The silhouette command saves the dataset of the described region and '
     'its exact distances; clusters with the stored distances for every count and seed of the analysis, saving the map and the score of each under its own name; and reports and shows the '
     'clustering with the best score.',
     ['inputs', 'configurations'],
     'all regions at any place of the dataset, plain or scaled, distances stored or missing',
     'No test runs a command.',
     [E + 'region/', E + 'clustering/silhouette.py', 'spta/kmedoids/silhouette.py', 'spta/region/centroid.py'],
     [('centroid', E + 'region/centroid.py'), ('lookup', E + 'metadata/centroid.py'), ('distances', E + 'region/distance.py:show_distances'),
      ('silhouettes', 'spta/kmedoids/silhouette.py:KmedoidsWithSilhouette')],
     ['saved arrays', 'figures when they are saved', 'logged results'])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(out, 'w') as f:
        for d in P:
            assert len(d['title']) <= 80, (d['id'], len(d['title']))
            f.write(json.dumps(d) + '\n')
    print(len(P), 'properties')

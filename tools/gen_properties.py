#!/usr/bin/env python3
"""Source of properties.jsonl (regenerate with: python3 tools/gen_properties.py)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=None)))

prop('C01', 'Iterating a region visits every point once, in row-major order',
 "A complete iteration over any 2-d or 3-d region, partition or mask yields every point of its grid exactly once in row-major order, paired with that point's own value or series. Iterating a cluster (spatial or spatio-temporal) or a mask yields exactly its member points, in the same order, each with its own value or series. After an iteration has run to its end, a new iteration of the same object starts again from the first point.",
 ['inputs', 'histories'], 'every grid size >= 1 x 1, every data content, every membership, every number of earlier complete iterations',
 'The tests iterate a few fixed small grids; the claim is over all grid sizes and every membership, where row/column confusion or an off-by-one at the boundary of a non-square grid shows.',
 ['spta/region/base.py', 'spta/region/spatial.py', 'spta/region/temporal.py', 'spta/region/scaling.py', 'spta/region/mask.py'],
 [('grid iterator', 'spta/region/base.py:BaseRegion.__next__'), ('value/series pairing', 'spta/region/spatial.py:SpatialRegion.__next__, spta/region/temporal.py:SpatioTemporalRegion.__next__'),
  ('member filter', 'spta/region/spatial.py:SpatialCluster.__next__, spta/region/temporal.py:SpatioTemporalCluster.__next__, spta/region/mask.py:MaskRegion.__next__')],
 ['for loops over regions and clusters', 'as_list / as_2d / as_array'])

prop('C02', 'The clusters of a crisp partition split the region consistently',
 "In a partition built from a label per point, every point belongs to exactly one cluster, and point membership, membership of points, membership of point indices, cluster size, a cluster's point indices and iteration of the cluster all describe that same set. Reading a cluster at a member point gives the region's own value or series there, and at a non-member point raises ValueError; constructing all the clusters of a partition gives one per label, in label order, each with the centroid that was asked for. The clusters reported as intersecting a rectangle are exactly those owning a point of it.",
 ['inputs'], 'every grid size, every labelling whose largest label is k-1, every cluster index, point and rectangle inside the grid',
 'Tests use a handful of hand-written label matrices; agreement between six different views of membership has to hold for all labelings and non-square shapes.',
 ['spta/region/partition.py', 'spta/region/spatial.py', 'spta/region/temporal.py'],
 [('membership queries', 'spta/region/partition.py:PartitionRegionCrisp.is_member, membership_of_points, membership_of_point_indices, cluster_len'),
  ('cluster construction', 'spta/region/partition.py:create_all_spt_clusters, create_all_spatial_clusters'),
  ('guarded access', 'spta/region/spatial.py:SpatialCluster.value_at, spta/region/temporal.py:SpatioTemporalCluster.series_at, all_point_indices')],
 ['partition and cluster public methods'])

prop('C03', 'Applying a function region acts point by point and keeps the region kind',
 "Applying a scalar or series function region to a region gives, at every point, the result of that point's own function on that point's own value or series; applied to a cluster it does so at the member points and leaves zero elsewhere. The result has the region's grid (and the requested series length), does not alter its input, and is again a cluster of the same partition and index when the input was a cluster. Regions of different grid sizes are refused.",
 ['inputs'], 'every grid size, data, per-point function assignment, series length, output length, and partition',
 'Tests apply one or two fixed functions on tiny regions; that point (x,y) gets exactly its own function and data must hold for all shapes and for decorated/clustered regions.',
 ['spta/region/spatial.py', 'spta/region/function.py', 'spta/region/temporal.py'],
 [('scalar application', 'spta/region/spatial.py:DomainRegion.apply_function_scalar'), ('series application', 'spta/region/spatial.py:DomainRegion.apply_function_series'),
  ('same function everywhere', 'spta/region/function.py:FunctionRegionScalarSame, FunctionRegionSeriesSame'), ('kind preservation', 'new_spatial_region / new_spatio_temporal_region overrides')],
 ['apply_to of function regions'])

prop('C04', 'Merging clusters gives each point the value of its own cluster',
 "Merging the clusters of a partition yields a region in which every point has the value that the cluster owning the point has there, in whatever order the clusters are given. Merging with representatives gives every point the value found at the representative of its own cluster, and fails if a representative is not in its cluster. A list that does not contain each cluster of the partition exactly once is refused with ValueError.",
 ['inputs'], 'every grid size, partition, cluster contents, order of the cluster list and choice of representatives',
 'Tests merge two or three clusters given in order; the quantifier ranges over all label matrices and all orders of the list.',
 ['spta/region/partition.py', 'spta/region/spatial.py', 'spta/util/arrays.py'],
 [('merge', 'spta/region/partition.py:PartitionRegionCrisp.merge_clusters_2d'), ('representatives', 'spta/region/partition.py:PartitionRegionCrisp.merge_with_representatives_2d'), ('value repetition', 'spta/util/arrays.py:copy_value_as_matrix_elements')],
 ['merge results'])

prop('C05', 'Subsets and train/test splits select exactly the requested data',
 "A region, interval or combined subset contains exactly the samples of the requested rectangle and half-open time interval, re-indexed from zero, and leaves the original unchanged. Splitting off the last samples of a region puts exactly the requested number of final samples in the test part and all earlier ones in the training part, so that the two concatenated in time are the original region. Interval subsets and splits of a cluster are clusters of the same partition and index.",
 ['inputs'], 'every shape, data, rectangle and interval within bounds, and split length between 1 and the series length - 1',
 'Boundary off-by-ones only show for particular interval/rectangle positions; tests use few of them.',
 ['spta/region/spatial.py', 'spta/region/temporal.py', 'spta/model/train.py'],
 [('subsets', 'spta/region/temporal.py:region_subset, interval_subset, subset; spta/region/spatial.py:region_subset'), ('cluster subset', 'spta/region/temporal.py:SpatioTemporalCluster.interval_subset'), ('split', 'spta/model/train.py:SplitTrainingAndTestLast')],
 ['subset and split results'])

prop('C06', 'Scaling maps each series to [0,1] and descaling restores it',
 "Scaling a region maps each series independently and order-preservingly onto [0,1] with its minimum at 0 and maximum at 1, maps constant series to zero and leaves an all-missing series missing. Descaling returns the original data (up to floating-point rounding) at every point, also after taking a rectangle of the scaled region, after wrapping it in a cluster (at the member points), and after storing and reloading the scaled region and its extremes.",
 ['inputs', 'histories'], 'every shape and data (including constant series and all-missing series), every rectangle, every partition',
 'Tests check a couple of fixed series; the round trip must hold for every data set, every subset offset and combination of decorators.',
 ['spta/region/scaling.py', 'spta/region/temporal.py', 'spta/region/metadata.py'],
 [('scale', 'spta/region/scaling.py:ScaleFunction'), ('descale', 'spta/region/scaling.py:SpatioTemporalScaled.descale'), ('subset keeps own extremes', 'spta/region/scaling.py:SpatioTemporalScaled.region_subset'), ('decorated descale', 'spta/region/temporal.py:SpatioTemporalDecorator.descale')],
 ['scaled datasets, descale() results, saved extremes'])

prop('C07', 'Point indices and absolute coordinates identify points one to one',
 "The flat index of a point is x times the grid height plus y everywhere it is used, and converting an index to an absolute point, or a point or rectangle to absolute coordinates, adds exactly the offset of the region's corner, so that different indices give different points and the offset can be undone. Medoid and centroid indices turn into the points they denote, and the domain/relative conversions of prediction results invert each other.",
 ['inputs'], 'every region offset and size, every index and point in the grid, every rectangle in it',
 'Tests check one or two indices on one region; swapping height and width is invisible on square grids and at small indices.',
 ['spta/region/metadata.py', 'spta/clustering/kmedoids.py', 'spta/region/partition.py', 'spta/solver/result.py'],
 [('index to point', 'spta/region/metadata.py:index_to_absolute_point'), ('offsets', 'spta/region/metadata.py:absolute_position_of_point, absolute_coordinates_of_region'), ('medoid conversion', 'spta/clustering/kmedoids.py'), ('result coordinates', 'spta/solver/result.py')],
 ['returned points and regions'])

prop('C08', 'Regular partitioning tiles the region with k non-empty rectangles',
 "Regular partitioning of a grid into k clusters either raises ValueError because the balanced factors of k do not fit, or labels every point with exactly the labels 0..k-1, each label forming one non-empty contiguous rectangle, laid out row by row in the balanced factor grid. The balanced factors multiply to k with no factor pair closer together, the larger one along the longer side, and the divisors of a number are all its divisors in increasing order.",
 ['inputs'], 'every grid size and every k >= 1',
 'Tests try a few sizes; uneven residues make particular combinations of size and k produce empty or overlapping tiles.',
 ['spta/util/arrays.py', 'spta/util/maths.py', 'spta/region/partition.py', 'spta/clustering/regular.py'],
 [('tiling', 'spta/util/arrays.py:regular_partitioning'), ('factors', 'spta/util/maths.py:divisors, find_two_balanced_divisors, two_balanced_divisors_order_x_y'), ('partition', 'spta/region/partition.py:with_regular_partition')],
 ['label matrix'])

prop('C09', 'Years map to the right samples and daily averages average each day',
 "The sample interval of a span of years starts right after all days of the earlier years (leap years included) and has as many samples as the span has days times the samples per day, so that consecutive spans are adjacent and never overlap. Averaging four samples per day to one gives, for every day and point, the mean of exactly that day's four samples.",
 ['inputs'], 'every first year, start year, end year and sampling rate; every series made of whole days and every grid',
 'Tests sample a few years; century leap-year rules and spans crossing several leap years are not reached.',
 ['spta/util/maths.py', 'spta/dataset/temp_brazil.py'],
 [('interval', 'spta/util/maths.py:years_to_series_interval'), ('daily mean', 'spta/dataset/temp_brazil.py:average_4spd_to_1spd')],
 ['returned intervals and averaged arrays'])

prop('C10', 'Sliding windows are exactly the contiguous windows of the series',
 "A sliding window over a series yields, in order, every contiguous window of the given length whose start is a multiple of the stride and which fits in the series, and nothing else. The labelled windows used for training are these windows, each paired with the label of the series it came from.",
 ['inputs'], 'every series length and content, every window length and stride >= 1, every list of labelled series',
 'Tests check fixed lengths; the last window at the boundary depends on length, window and stride together.',
 ['spta/util/arrays.py', 'spta/classifier/sliding_window.py'],
 [('windows', 'spta/util/arrays.py:sliding_window'), ('labelled windows', 'spta/classifier/sliding_window.py')],
 ['window arrays and labels'])

prop('C11', 'Distances match the measure for exactly the requested pairs',
 "The computed distance matrix of a region holds at row i, column j the measure between the series of points i and j, with zero diagonal and symmetric, whether it is computed serially or in parallel. The distances to a point are, in order, the distances between that point's series and the series of each requested index, whether read from a matrix or measured anew. A stored matrix whose size does not match the region is refused, and weighting by spatial proximity is applied to the matrix in use exactly once per load.",
 ['inputs', 'histories', 'configurations'], 'every region size and data, every measure, point, index list, number of processes, and order of load/compute/query calls',
 'Tests use one region and one measure; row/column mix-ups and stale state need non-square grids, index subsets and repeated loads.',
 ['spta/distance/__init__.py', 'spta/distance/dtw.py', 'spta/distance/dtw_parallel.py', 'spta/distance/rmse.py', 'spta/util/parallel.py'],
 [('distances to point', 'spta/distance/__init__.py:distances_to_point'), ('matrix', 'spta/distance/__init__.py:compute_distance_matrix'), ('parallel', 'spta/util/parallel.py, spta/distance/dtw_parallel.py'), ('weighting', 'spta/distance/dtw.py:DistanceBySpatialDTW')],
 ['distance matrices and lists'])

prop('C12', 'Centroids minimise total distance and costs add up',
 "The centroid found for a region or a cluster is a point of it whose summed distance to all points of it is smallest, the first such point in row-major order, and the distances returned with it are that point's. The intra-cluster cost of a partition is the sum over all points of the squared distance to the medoid of the point's own cluster.",
 ['inputs'], 'every region, cluster, partition with medoids and distance matrix',
 'Tests compute one centroid; minimality over all points and per-cluster sums is a claim on all inputs.',
 ['spta/region/centroid.py', 'spta/region/partition.py', 'spta/distance/__init__.py'],
 [('centroid search', 'spta/region/centroid.py:find_centroid_and_distances'), ('cost', 'spta/region/partition.py:intra_cluster_cost')],
 ['centroid, distances, cost'])

prop('C13', 'k-medoids returns a consistent clustering never worse than its start',
 "A k-medoids run returns k distinct medoids and labels such that every item is labelled with a nearest medoid, each reported per-cluster cost is the sum of its members' distances to their medoid and the total is the sum of those. The total cost is never above that of the initial medoids of the same seed, and when the run ends before its iteration limit no single swap of a medoid with another item (robust mode), or with another member of its cluster (lite mode), lowers the cost by more than the tolerance. Running on a precomputed distance matrix gives the same as measuring distances, and the region-level algorithm reports the same medoids as points and the same labels.",
 ['inputs', 'histories'], 'every number of items, distance, k, seed, initial medoids, iteration limit and tolerance',
 'Tests run a couple of fixed data sets and seeds; the claims are invariants over all iterations of a randomised search.',
 ['spta/kmedoids/kmedoids.py', 'spta/kmedoids/__init__.py', 'spta/clustering/kmedoids.py', 'spta/clustering/__init__.py'],
 [('search loop', 'spta/kmedoids/kmedoids.py:run_kmedoids'), ('cost and labels', 'spta/kmedoids/kmedoids.py:_get_cost'), ('region algorithm', 'spta/clustering/kmedoids.py')],
 ['k-medoids result, partition and its medoids'])

prop('C14', 'Fuzzy memberships are a distribution and fuzzy masks apply the threshold',
 "Fuzzy k-medoids memberships of every item lie in [0,1] and sum to one over the clusters, and a medoid has membership one in its own cluster and zero in the others; the search ends no costlier than its starting medoids and, unless its iterations are used up, at medoids no single replacement of which lowers the total cost by more than the tolerance. A fuzzy mask contains a point exactly when the point's best membership exceeds its membership in the mask's cluster by at most the threshold, so threshold zero keeps only best clusters, a larger threshold never loses members, and the reported size equals the number of members.",
 ['inputs'], 'every distance data without coinciding distinct items, every k, fuzziness > 1, membership array and threshold in [0,1]',
 'Tests check a few membership rows; normalisation and monotonicity hold for all inputs or not at all.',
 ['spta/kmedoids/kmedoids_fuzzy.py', 'spta/region/mask.py'],
 [('membership', 'spta/kmedoids/kmedoids_fuzzy.py'), ('threshold', 'spta/region/mask.py:MaskRegionFuzzy.is_member'), ('size', 'spta/region/mask.py:MaskRegionFuzzy.cluster_len')],
 ['membership matrix, mask queries'])

prop('C15', 'Clustering descriptions round-trip and name different results differently',
 "The text form of a clustering description parses back to an equal description with the same parameters, and two descriptions that differ in any parameter that changes the result have different text, different file paths and compare unequal. A clustering suite contains exactly one description per combination of its parameter values, groups them by seed in increasing order of k, and reports as elbow the k with the largest discrete second difference of cost. The medoids retrieved from a stored suite are those that were stored for the description asked for.",
 ['inputs', 'configurations'], 'every k, seed, mode and other parameter, every parameter grid, every cost curve',
 'Tests round-trip single examples; collisions between descriptions and the elbow position depend on combinations not sampled.',
 ['spta/clustering/kmedoids.py', 'spta/clustering/regular.py', 'spta/clustering/__init__.py', 'spta/clustering/factory.py', 'spta/clustering/suite.py'],
 [('text form', 'spta/clustering/*: __repr__, from_repr'), ('factory', 'spta/clustering/factory.py'), ('suite', 'spta/clustering/suite.py')],
 ['repr/from_repr, filenames, equality, suite results'])

prop('C16', 'Stored regions and partitions reload unchanged and are reused only when right',
 "Saving a partition or region and loading it again gives equal labels, data, k and medoids, and asking the clustering algorithm again for the same region, distance and parameters returns the stored partition, in the storage location the caller named. Different regions, distance measures or clustering parameters never share a stored file.",
 ['inputs', 'histories', 'configurations'], 'every partition and region content, every sequence of save, load and partition requests over several regions, distances, parameters and storage locations',
 'Tests save and load one partition in the default place; sharing between configurations needs sequences over several.',
 ['spta/region/partition.py', 'spta/region/base.py', 'spta/clustering/__init__.py', 'spta/region/metadata.py', 'spta/region/temporal.py'],
 [('pickle', 'spta/region/partition.py:to_pickle, try_from_pickle'), ('cache', 'spta/clustering/__init__.py:partition, save_partition, load_previous_partition'), ('names', 'spta/region/metadata.py')],
 ['files and reloaded objects'])

prop('C17', 'Error measures equal their definitions, per point and overall',
 "The mean squared, symmetric percentage (the mean of 200 |f - o| / (f + o), as documented) and scaled (MASE) forecast errors equal their definitions on every forecast and observation pair, and an error region holds at each point the error of that point's own forecast against its own observation (and training series), computed on descaled data when the data was scaled. The overall error of an error region is the root mean square of its values, ignoring missing ones; the overall error of each point's forecast repeated over the region, computed in parallel, equals the serial one, and an unknown error name is refused with ValueError.",
 ['inputs', 'configurations'], 'every series, region shape, data, error kind, scaled or not, number of processes and clusters',
 'Tests compare a few numbers; formulas and the per-point pairing must hold for all data, sizes and missing values.',
 ['spta/util/error.py', 'spta/model/error.py', 'spta/model/error_parallel.py', 'spta/util/arrays.py'],
 [('formulas', 'spta/util/error.py'), ('region errors', 'spta/model/error.py'), ('parallel', 'spta/model/error_parallel.py')],
 ['error regions and overall errors'])

prop('C18', 'Every point gets the model and forecast of its own series',
 "Training a region gives each point a model fitted to that point's own training series and parameters (or, when training at representatives, only at those points and no model elsewhere), counts the points where fitting failed, and forecasting gives each point its own model's forecast of the requested length, all missing where there is no model, always with the models of the last training. The mean-of-past model forecasts the mean of the last samples of its own series at every step.",
 ['inputs', 'fault_sequences'], 'every region, clusters, parameters, pattern of points where fitting fails, forecast length and number of past samples',
 'Tests train one small region where all fits succeed; pairing of series, parameters and failures over all points is not sampled.',
 ['spta/model/train.py', 'spta/model/base.py', 'spta/model/mean.py', 'spta/arima/train.py', 'spta/arima/model.py', 'spta/model/forecast.py'],
 [('training', 'spta/model/train.py'), ('forecast', 'spta/model/base.py'), ('mean model', 'spta/model/mean.py'), ('arima', 'spta/arima/train.py')],
 ['model regions and forecast regions'])

prop('C19', 'k nearest neighbours are nearest, and the forecast is their mean',
 "The neighbours found for a query are k distinct stored instances, none of which is farther from the query than any instance left out, and the forecast of a series is the pointwise mean of the nearest earlier windows of the forecast's length to its last window (as documented). Instances of another length than the query, or more neighbours than there are instances, are refused.",
 ['inputs'], 'every training set, distance, k and query',
 'Tests use one small data set; optimality against all excluded instances is for all inputs.',
 ['spta/model/knn.py'],
 [('search and mean', 'spta/model/knn.py')],
 ['neighbour indices and forecasts'])

prop('C20', "A solver forecasts each point with the model of its own cluster",
 "For a requested region the solver forecasts every point with the model trained at the medoid of the cluster that owns the point, at its correct position in the full domain, choosing the in-sample or out-of-sample model as asked and descaling scaled data; nothing outside the request affects it. A solver guided by a classifier forecasts each point with the stored model of the medoid that the label of the point's own latest samples names, for every query anew, and writes its tables below the directory asked for. A solver that is stored and reloaded gives the same forecasts, and solvers with different settings are stored in different files.",
 ['inputs', 'configurations'], 'every domain region, partition, medoids, request rectangle, forecast length, in- or out-of-sample, scaled or not',
 'Tests ask for one or two rectangles; offset mistakes only show for rectangles away from the origin crossing several clusters.',
 ['spta/solver/train.py', 'spta/solver/model.py', 'spta/solver/metadata.py', 'spta/classifier/model.py', 'spta/region/partition.py'],
 [('training', 'spta/solver/train.py'), ('prediction', 'spta/solver/model.py'), ('guided by a classifier', 'spta/classifier/model.py:SolverFromClassifier'), ('names', 'spta/solver/metadata.py')],
 ['forecast regions, stored solvers'])

prop('C21', 'Prediction results report the right coordinates, errors and clusters',
 "For every point of a prediction, the reported relative and absolute coordinates, cluster, medoid, forecast, observation and error belong to that same point, in the listing, the text lines and the stored table alike. The clusters and medoids listed are exactly those owning points of the predicted rectangle, and the summary error is the mean of the squares of the points' errors (the MSE documented).",
 ['inputs'], 'every domain offset, prediction rectangle, partition, forecast and error content',
 'Tests check one rectangle on one domain; an offset error or a transposition is hidden on symmetric examples.',
 ['spta/solver/result.py', 'spta/region/partition.py'],
 [('results', 'spta/solver/result.py'), ('intersecting clusters', 'spta/region/partition.py:find_indices_of_clusters_intersecting_with')],
 ['prediction tuples, lines and CSV'])

prop('C22', 'Classifier training input picks the best medoid and respects its limits',
 "For a given point the chosen medoid is the one with the smallest penalty over all medoids considered, the count kept per medoid is exactly the number of points that chose it, and with a limit no medoid is given more than the limit. Random points and integers drawn are distinct, within the allowed range and never among the excluded ones (for random points: the indices of all medoids of the suite, relative to the region), and exactly as many as asked. The tables written list, for each drawn point, the chosen medoid and the point's own series, and for each medoid of the suite its coordinates and its own series.",
 ['inputs', 'histories'], 'every distance data, list of medoids, threshold, number of points, seed and exclusion list',
 'Tests fix a seed and a small list; the limit and the exclusion must hold for all sequences of draws.',
 ['spta/classifier/train_input.py', 'spta/util/maths.py'],
 [('choice', 'spta/classifier/train_input.py'), ('draws', 'spta/util/maths.py:random_integers_with_blacklist')],
 ['chosen medoids, counts, drawn points'])

prop('C23', 'Extremes are found at the right place and repetition copies exactly',
 "The minimum or maximum of a region or array is reported with its value and the first position holding it, ignoring missing values, for regions and for the members of a cluster. Repeating a value, a series or a point over a region puts exactly that value or series at every point, in a region of the same grid and kind.",
 ['inputs'], 'every array shape and content with at least one value present, every region, cluster, point and series',
 'Tests look at fixed arrays; ties, missing values, negative values and non-square shapes vary.',
 ['spta/util/arrays.py', 'spta/region/spatial.py', 'spta/region/temporal.py'],
 [('extremes', 'spta/util/arrays.py:minimum_value_and_index, maximum_value_and_index; spta/region/spatial.py:find_minimum, find_maximum'), ('repetition', 'spta/util/arrays.py:copy_array_as_matrix_elements, copy_value_as_matrix_elements; repeat_series, repeat_value, repeat_point')],
 ['returned pairs and regions'])

prop('C24', 'Silhouette and distance analyses report what the distances say',
 "The distances shown for a region or a cluster are the measured ones from the point asked (its medoid, in the grid of clusters) to each of its points, in order, once each; random points put beside a cluster are as many as asked (as many as it has members by default, at most all others), pairwise different and never its members. The largest distance shown is the largest of all, and the figures written (number, second lowest, largest, mean, deviation, median, random points nearer than the farthest member) are those of the distances, for clusters of any size. A silhouette analysis scores each clustering on its own labels and the measured distances as silhouettes are defined, and reports the highest score with the clustering (number of clusters, seed, medoids, labels) that has it, the first of equal ones; each clustering runs with the settings asked.",
 ['inputs', 'configurations'], 'every region, partition, cluster, distance matrix, number of random points, suite of clusterings and settings',
 'No test covers these analyses; the pairing of distances, labels and clusterings must hold for all of them.',
 ['spta/distance/variance.py', 'spta/clustering/silhouette.py', 'spta/kmedoids/silhouette.py', 'spta/util/plot.py'],
 [('distances', 'spta/distance/variance.py'), ('silhouettes of a suite', 'spta/clustering/silhouette.py'), ('silhouettes of k-medoids', 'spta/kmedoids/silhouette.py'), ('score', 'spta/util/plot.py:plot_clustering_silhouette')],
 ['distances, drawn points, figures and reported clusterings'])

prop('C25', "The experiments' tables pair clusters, medoids, distances and errors rightly",
 "The tables that the scripts of the experiments write say what they name. Distances between medoids: a row and a column per medoid in order, each cell the measured distance of the two. Errors between medoids: row i has the errors of the forecast of the model at medoid i against the observations at each medoid in order. Distances against errors: for every cluster a table with a row per member in row-major order, with its absolute coordinates, its distance to the medoid of the cluster and the error there of the forecast of the model at the medoid, trained without the samples that are forecast. Analysis of clusterings: a row per clustering of the suite with its description, the total of the distances of the points to their own medoids and the absolute coordinates of the medoids in order. Analyses of training errors: a row per cluster and parameters, with its size, order, failures and errors. One table per clustering (and cluster), none of them replacing another.",
 ['inputs', 'configurations'], 'every region, partition, medoids, distances, forecasts and observations, clustering suite, forecast length and error function',
 'No test runs these scripts; which row and column a number belongs to must be right for every partition and order of medoids.',
 ['experiments/clustering/medoid_distances.py', 'experiments/clustering/partition_analysis.py', 'experiments/auto_arima/error_between_medoids.py', 'experiments/auto_arima/distance_errors.py', 'experiments/auto_arima/training_error_analysis.py', 'experiments/arima/training_error_analysis.py'],
 [('distances between medoids', 'experiments/clustering/medoid_distances.py'), ('analysis of clusterings', 'experiments/clustering/partition_analysis.py'), ('errors between medoids', 'experiments/auto_arima/error_between_medoids.py'), ('distances against errors', 'experiments/auto_arima/distance_errors.py'), ('training errors', 'experiments/auto_arima/training_error_analysis.py')],
 ['cells of the tables written'])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p) + '\n')
print(len(P))

#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that every line stays valid JSON)."""
import json, os
I='include/ffcl/'
P=[]
def p(id,title,st,over,text,why,files,mech,obs):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=[I+f for f in files],mechanism=[dict(name=n,where=I+w) for n,w in mech],observe_at=obs,hook_needed=None)))
p('P01','Distance functions return the mathematical distance',
 "For two feature vectors of equal length the squared Euclidean, Euclidean, Manhattan and unnormalised cosine functions return the value of their defining sum over all features (the Euclidean one its square root; with a single argument, the distance from the origin), and the Levenshtein function returns the minimum number of insertions, deletions and substitutions between two sequences of any lengths. The geometric distances are non-negative, symmetric, zero exactly on equal vectors, and independent of whether features are signed or unsigned integers or floating point.",
 ['inputs'],'all vector lengths, all feature values whose distance is representable, all supported element types',
 'The tests compare a few random vectors with the same formula; they do not reach unequal sequence lengths, unsigned features or empty vectors systematically.',
 ['common/math/heuristics/Distances.hpp'],
 [('fold over the zipped ranges','common/math/heuristics/Distances.hpp:squared_euclidean_distance, manhattan_distance, cosine_similarity'),('two-row dynamic program','common/math/heuristics/Distances.hpp:levenshtein_distance')],
 ['ffcl::common::math::heuristics::*_distance'])
p('P02','Partition, selection and sorting permute the indices and order them by the key',
 "Partitioning around a pivot, quickselect and quicksort of a sequence of sample indices by one feature always leave a permutation of that sequence (each index present as often as before), and median-of-three selection returns the position of the median of the first, middle and last keys. Afterwards every element before the returned or requested position has a key no larger than the one at it and every element after has a key no smaller (for a full sort: keys are non-decreasing), whatever duplicates, near-equal values or pivot choices occur; data addressed through an index sequence is never modified.",
 ['inputs'],'all datasets, feature counts, key features, pivots and requested positions, including ties and values closer than machine epsilon',
 'Tests sample random arrays; partition correctness with repeated keys and every pivot is an inductive fact over all arrays.',
 ['common/algorithms/Sorting.hpp'],
 [('Hoare-style partition around a pivot','common/algorithms/Sorting.hpp:partition_around_pivot_index'),('quickselect/quicksort recursion','common/algorithms/Sorting.hpp:quickselect, quicksort'),('median of three','common/algorithms/Sorting.hpp:median_index_of_three')],
 ['ffcl::common::algorithms::*'])
p('P03','A kd-tree partitions all samples and every cut separates its children',
 "For every dataset and every combination of bucket size, maximum depth, axis selection and splitting options, the samples stored in the nodes of a kd-tree are exactly the input samples, each once, and the input data is left untouched. At each internal node every sample on the left has a cut-feature value at most the pivot value and every sample on the right at least it, the bounding box stored with each node encloses all samples below it, and the depth and bucket limits are respected.",
 ['inputs','configurations'],'all datasets (duplicates included), all option combinations',
 'Tests build trees from a few datasets and only look at a handful of queries; the structural invariant must hold at every node for every dataset.',
 ['datastruct/tree/kdtree/KDTree.hpp','datastruct/tree/kdtree/KDNodeView.hpp','datastruct/tree/kdtree/KDTreeAlgorithms.hpp','datastruct/tree/kdtree/policy/SplittingRulePolicy.hpp','datastruct/tree/kdtree/policy/AxisSelectionPolicy.hpp'],
 [('recursive build','datastruct/tree/kdtree/KDTree.hpp:build'),('quickselect median split with shift','datastruct/tree/kdtree/KDTreeAlgorithms.hpp:quickselect_median_range, shift_median'),('box update per child','datastruct/tree/kdtree/KDTree.hpp:build')],
 ['ffcl::datastruct::KDTree','serialized tree'])
p('P04','k-nearest-neighbour search on a kd-tree is exact',
 "For every tree and every query position, single-tree k-nearest-neighbour search returns exactly min(k, number of searchable samples) distinct sample indices whose distances are the true distances to the query and equal, as a multiset, the k smallest distances of an exhaustive scan. The result does not depend on bucket size, axis policy, splitting rule, or the order of samples.",
 ['inputs','configurations'],'all datasets, queries inside or outside the data, all k and tree options',
 'Pruning errors only show for particular geometry (query far from the data, ties across a cut); tests sample random points and check few configurations.',
 ['search/Search.hpp','search/TreeTraverser.hpp','search/buffer/StaticBuffer.hpp','datastruct/tree/kdtree/KDNodeView.hpp'],
 [('descent to a leaf then backtracking over siblings','search/TreeTraverser.hpp:operator(), get_parent_node_after_sibling_traversal'),('prune by distance to the cut','datastruct/tree/kdtree/KDNodeView.hpp:select_sibling_node'),('k-best buffer','search/buffer/StaticBuffer.hpp:update')],
 ['ffcl::search::Searcher'])
p('P05','Radius and box range searches return exactly the samples in range',
 "A search with a ball returns every sample whose distance to the centre is below the radius and no other, and a search with an axis-aligned box returns every sample inside the box and no other, when the buffer is unlimited; with a limit k it returns the min(k, count) ones nearest to the centre. Indices are distinct and reported distances are the true distances to the centre, for boxes given by bounds or by lower bound and length and for integral and floating-point features.",
 ['inputs','configurations'],'all datasets, centres, radii, boxes and limits',
 'Range boundaries, empty results and integral features hit special code paths that the tests do not sample.',
 ['search/TreeTraverser.hpp','search/buffer/StaticBuffer.hpp','search/buffer/Unsorted.hpp','datastruct/bounds/Ball.hpp','datastruct/bounds/AABBWithCentroid.hpp'],
 [('bound membership test before insertion','search/buffer/StaticBuffer.hpp:partial_search; search/buffer/Unsorted.hpp:partial_search'),('prune by distance to the cut','search/TreeTraverser.hpp')],
 ['ffcl::search::Searcher with Ball/AABBWithCentroid'])
p('P06','Searches with exclusions return the best of the remaining samples',
 "A search that excludes a caller-given set of indices, or every sample in the same component as the query, returns exactly the nearest samples among those not excluded (as many as requested or all that remain) and never an excluded one. The exclusions may be referred to, handed over or given as a range, and copying or moving such a buffer keeps them.",
 ['inputs','histories'],'all datasets, exclusion sets, component partitions and sequences of searches',
 'Tests exercise one exclusion pattern on a random dataset; interaction of exclusion with pruning needs every history.',
 ['search/buffer/WithMemory.hpp','search/buffer/WithUnionFind.hpp','search/TreeTraverser.hpp'],
 [('visited set consulted at insertion','search/buffer/WithMemory.hpp:partial_search'),('component test','search/buffer/WithUnionFind.hpp:partial_search')],
 ['ffcl::search::buffer::WithMemory, WithUnionFind'])
p('P07','A bounded search buffer holds exactly the k best candidates offered',
 "After any sequence of offers and partial searches a search buffer of capacity k (unlimited when none, or common::infinity, is given) holds the min(k, offered) candidates with the smallest distances, its reported furthest distance is the largest held one, and its remaining capacity and emptiness agree with what it holds. A candidate is accepted exactly when the buffer is not full or it is strictly closer than the furthest held one.",
 ['inputs','histories'],'all sequences of candidate offers, with ties, and all capacities from 1',
 'Tests feed the buffer through one search; the invariant is over every sequence of updates.',
 ['search/buffer/StaticBuffer.hpp','search/buffer/Unsorted.hpp'],
 [('replacement of the furthest entry','search/buffer/StaticBuffer.hpp:update_furthest_index_with_closer_index')],
 ['furthest_distance, closest_distance, indices, distances, n_free_slots, empty'])
p('P08','Bounds enclose their samples and their distances are exact bounds',
 "The tight box or segment of a set of samples has the exact per-feature minimum and maximum; membership tests accept exactly the points within the bounds (for balls: strictly closer than the radius), and the centre lies inside. The distance between two boxes or balls is the smallest distance between any two of their points, so it never exceeds the distance of any contained pair, and the diameter and centre-to-bound distances are never exceeded by contained points.",
 ['inputs'],'all sample sets, boxes, balls and points, integral (negative included) and floating point',
 'Lower-bound soundness is a for-all over pairs of points; tests compare a few fixed boxes.',
 ['datastruct/bounds/AABB.hpp','datastruct/bounds/AABBWithCentroid.hpp','datastruct/bounds/Ball.hpp','datastruct/bounds/UnboundedBall.hpp','datastruct/bounds/distances/MinDistance.hpp','datastruct/bounds/segment/LowerBoundAndUpperBound.hpp','datastruct/bounds/segment/LowerBoundAndLength.hpp','datastruct/bounds/segment/distances/MinDistance.hpp','datastruct/tree/kdtree/KDTreeAlgorithms.hpp'],
 [('interval gap','datastruct/bounds/segment/distances/MinDistance.hpp:min_distance'),('per-feature aggregation','datastruct/bounds/distances/MinDistance.hpp'),('tight bounds scan','datastruct/tree/kdtree/KDTreeAlgorithms.hpp:make_tight_segment, make_tight_bound')],
 ['make_tight_bound, is_in_bounds, min_distance, diameter'])
p('P09','Closest-pair searches return a true shortest edge between two sets',
 "The dual-tree search for the k-th shortest edge between two trees, and the direct search between two index sets, return an edge whose endpoints belong to the first and second set respectively, whose length is the true distance of those endpoints, and whose length equals the k-th smallest over all cross pairs (for the direct search: the smallest of those at a distance above zero). This holds for disjoint and overlapping sets of floating-point samples (a sample in both sets pairs with itself at distance 0) and all tree options.",
 ['inputs','configurations'],'all pairs of sample sets, k and tree options',
 'Dual-tree pruning is unsound only for particular geometry; tests check one random layout.',
 ['search/DualTreeTraverser.hpp','search/ClosestPairOfSamples.hpp','search/TreeTraverser.hpp','search/Search.hpp','search/buffer/IndicesToBuffersMap.hpp'],
 [('node-pair pruning by box distance','search/TreeTraverser.hpp; search/buffer/IndicesToBuffersMap.hpp'),('nested scan','search/ClosestPairOfSamples.hpp:simple_dual_set_shortest_edge')],
 ['Searcher::dual_tree_shortest_edge, simple_dual_set_shortest_edge'])
p('P10','Union-find tracks exactly the merged components',
 "After any sequence of merges two elements have the same representative exactly when they are connected by the merged pairs; the representative is a member of the component, a merge returns the representative of the joined component and changes no other one, and looking up a representative never changes the partition.",
 ['histories'],'all sequences of merges and finds over any number of elements',
 'Tests run a handful of merges; equivalence closure must hold after every history.',
 ['datastruct/UnionFind.hpp'],
 [('union by rank','datastruct/UnionFind.hpp:merge'),('path compression','datastruct/UnionFind.hpp:find')],
 ['UnionFind::find, merge'])
p('P11',"Boruvka's algorithm returns a minimum spanning tree",
 "For every dataset of n samples and every k, the edges returned form a spanning tree of the samples (n-1 edges, connected, no cycle), each weighted by the true distance (k at most 1) or mutual reachability distance (larger k) of its endpoints, and the total weight is the minimum possible.",
 ['inputs','configurations'],'all datasets including ties and duplicates, all k and tree options',
 'Tie handling decides between a tree and a cycle; tests compare total weight on small random data.',
 ['datastruct/graph/spanning_tree/BoruvkasAlgorithm.hpp','datastruct/graph/spanning_tree/CoreDistances.hpp','datastruct/graph/spanning_tree/MinimumSpanningTree.hpp','datastruct/UnionFind.hpp'],
 [('per-component minimum edge then merge','datastruct/graph/spanning_tree/BoruvkasAlgorithm.hpp:make_tree, Forest::merge_components'),('mutual reachability','datastruct/graph/spanning_tree/BoruvkasAlgorithm.hpp')],
 ['BoruvkasAlgorithm::make_tree'])
p('P12','The single-linkage tree matches the spanning tree and its cuts are components',
 "The single-linkage hierarchy built from a spanning tree has one leaf per sample and merges components in order of non-decreasing edge weight, each merge node having the edge weight as level and the combined size of its children. Cutting it at a level labels two samples alike exactly when they are connected by tree edges strictly below that level, and samples in clusters smaller than the minimum size are noise.",
 ['inputs'],'all weighted spanning trees, cut levels and minimum sizes',
 'Tests check printed structures for a few trees; the equivalence must hold at every level of every tree.',
 ['datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterTree.hpp','datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterNode.hpp','datastruct/UnionFind.hpp'],
 [('bottom-up merge in sorted order','datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterTree.hpp:build'),('cut traversal','datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterTree.hpp:extract_flat_cut')],
 ['SingleLinkageClusterTree'])
p('P13','HDBSCAN selects a most stable set of clusters of its hierarchy',
 "HDBSCAN labels every sample with 0 (noise) or consecutive cluster labels from 1, each cluster being a cluster of the condensed hierarchy with at least the minimum cluster size (except the root), and no two chosen clusters nested. The chosen clusters maximise total stability (the sum over members of the inverse level at which they leave minus that at which the cluster appears), or are exactly the leaves in leaf mode, and the root is chosen only when a single cluster is allowed or nothing else exists.",
 ['inputs','configurations'],'all datasets with distinct merge levels, minimum sizes and selection options',
 'Optimality over all antichains of the hierarchy cannot be sampled by tests, which only print labels.',
 ['hdbscan/HDBSCAN.hpp','datastruct/tree/condensed_cluster_tree/CondensedClusterTree.hpp','datastruct/tree/condensed_cluster_tree/CondensedClusterNode.hpp'],
 [('condensation','datastruct/tree/condensed_cluster_tree/CondensedClusterTree.hpp:build'),('excess of mass','datastruct/tree/condensed_cluster_tree/CondensedClusterTree.hpp')],
 ['HDBSCAN::predict'])
p('P14','DBSCAN labels are the density-connected components',
 "DBSCAN gives two core samples (more samples than the configured minimum lie strictly within the radius, itself included) the same positive label exactly when they are connected by a chain of core samples each within the radius of the next. A non-core sample within the radius of a core sample gets the label of one such core sample and every other sample is labelled 0.",
 ['inputs','configurations'],'all datasets, radii, minimum counts and tree options',
 'Visit-order bugs need specific orders of border and core samples; tests print labels.',
 ['dbscan/DBSCAN.hpp'],
 [('cluster expansion queue','dbscan/DBSCAN.hpp:predict')],
 ['DBSCAN::predict'])
p('P15','K-means assigns to nearest centroids, moves them to means, keeps best attempts',
 "For floating-point data every prediction is the index of a nearest centroid, and each step of the Lloyd or Hamerly solver moves every centroid to the mean of the samples assigned to it under some nearest-centroid assignment, leaving the centroid of an empty cluster in place; the reported total deviation is the sum of the distances of the samples to their nearest centroid for the current centroids. Both solvers therefore agree when assignments have no ties, fitting returns the centroids of the attempt with the lowest deviation, and k-means++ starts from rows of the dataset.",
 ['inputs','histories'],'all floating-point datasets, initial centroids and numbers of steps',
 'The Hamerly bounds must stay valid over every sequence of steps; tests look at a few runs with loose assertions.',
 ['kmeans/KMeans.hpp','kmeans/KMeansUtils.hpp','kmeans/Lloyd.hpp','kmeans/Hamerly.hpp','kmeans/KMeansPlusPlus.hpp'],
 [('assignment','kmeans/KMeansUtils.hpp:samples_to_nearest_centroid_indices'),('upper/lower bounds','kmeans/Hamerly.hpp:step, update_centroid_velocities'),('mean update','kmeans/Lloyd.hpp:step')],
 ['KMeans::fit/predict/step, Lloyd, Hamerly'])
p('P16','K-medoids keeps valid medoids, true losses and only improving swaps',
 "The medoids are always distinct sample indices, every sample is assigned to a nearest medoid, and the reported total deviation is the sum of distances to the nearest medoid. Each FasterPAM step that swaps lowers the total deviation, the deviation never increases, and on convergence no exchange of one medoid with one non-medoid would lower it; using a precomputed distance matrix gives the same result as using the samples.",
 ['inputs','histories'],'all floating-point datasets, at least two medoids, any initial medoids and number of steps',
 'Incremental second/third-nearest bookkeeping must stay right after every swap history; tests check only that it runs.',
 ['kmedoids/FasterPAM.hpp','kmedoids/PAMUtils.hpp','kmedoids/KMedoids.hpp'],
 [('swap gain','kmedoids/FasterPAM.hpp:find_best_swap'),('incremental buffers','kmedoids/FasterPAM.hpp:swap_buffers')],
 ['KMedoids::fit/predict, FasterPAM'])
p('P17','Feature statistics equal their definitions on the selected samples',
 "Means, variances, minima and maxima computed over all samples, an index subset or masked features equal their definitions on exactly those samples and features, and the axis with largest variance or spread is a maximiser among the features asked for. Extremum, second-largest and n-th smallest look-ups return a position holding the value they report, and inputs are not modified.",
 ['inputs'],'all datasets, subsets, masks and element types (signed, unsigned, floating)',
 'Subset, mask and element type combinations multiply; tests use full floating-point data.',
 ['common/math/statistics/Statistics.hpp','datastruct/tree/kdtree/policy/AxisSelectionPolicy.hpp'],
 [('scans and folds','common/math/statistics/Statistics.hpp')],
 ['ffcl::common::math::statistics::*'])
p('P18','Pairwise matrices, transposition and translation are index-exact',
 "A pairwise distance matrix, stored or computed on demand, returns for every pair (i, j) in either order the distance between samples i and j, and zero on the diagonal. The transpose of a matrix of any shape, sequential or parallel, has element (j, i) equal to element (i, j) and transposing twice restores the input; moving a point to an origin subtracts the origin from it feature by feature.",
 ['inputs'],'all sample counts, feature counts, matrix shapes and index pairs',
 'Triangular indexing must be injective and symmetric for every size; tests use one size.',
 ['datastruct/matrix/PairwiseDistanceMatrix.hpp','datastruct/matrix/PairwiseDistanceMatrixDynamic.hpp','common/math/linear_algebra/Transpose.hpp','common/math/linear_algebra/Translation.hpp'],
 [('lower triangle indexing','datastruct/matrix/PairwiseDistanceMatrix.hpp:operator()'),('blocked transpose','common/math/linear_algebra/Transpose.hpp')],
 ['PairwiseDistanceMatrix::operator()','transpose'])
p('P19','Random sampling respects its ranges, distinctness and weights',
 "Sampling without replacement returns the requested number of distinct elements or rows of the input, every element of the input can be returned and sampled positions stay in their bounding box. Weighted sampling returns index i with probability proportional to weight i, never an index of zero weight, and selecting n of n returns all.",
 ['inputs'],'all inputs, counts and weights, over the distribution of the generator',
 'Reachability and probability need the alias-table invariant rather than a few draws.',
 ['common/math/random/Sampling.hpp','common/math/random/VosesAliasMethod.hpp','common/math/random/Distributions.hpp'],
 [('alias table','common/math/random/VosesAliasMethod.hpp'),('partial shuffle','common/math/random/Sampling.hpp')],
 ['select_n_elements, select_n_random_samples, VosesAliasMethod'])
p('P20','Silhouette values equal their definition',
 "For floating-point samples with labels 0 to c-1, every label used, the silhouette of each sample equals (b - a) / max(a, b), with a the mean distance to the other members of its cluster and b the smallest mean distance to another cluster, and 0 for the only member of a cluster. Every value lies in [-1, 1] and the mean silhouette is their average.",
 ['inputs'],'all labelled floating-point datasets with at least two clusters',
 'Tests only check the call for one dataset.',
 ['common/math/heuristics/SilhouetteMethod.hpp'],
 [('cohesion and separation','common/math/heuristics/SilhouetteMethod.hpp:cohesion, separation, silhouette')],
 ['ffcl::common::math::heuristics::silhouette'])
p('P21','Utility functions obey their definitions for all inputs',
 "Reordering rows or elements by a permutation puts element p(i) of the input at position i and refuses sizes that do not match; counting, matching, membership, container-equality and conversion helpers equal their definitions over every element, and the inputs are not modified. The rounded-down centre of two bounds is the floor of their midpoint for all integers, so it lies between them, division by zero yields the given default, absolute values are exact, and floating-point equality holds exactly within the tolerance.",
 ['inputs'],'all values and element types accepted, all lengths including empty',
 'Edge values (negative, unsigned, zero, empty) are not sampled by the tests.',
 ['common/Utils.hpp'],
 [('helpers','common/Utils.hpp')],
 ['ffcl::common::*'])
open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w').write(''.join(json.dumps(x)+'\n' for x in P))

#include <algorithm>
#include <cassert>
#include <cmath>
#include <cstddef>
#include <functional>
#include <iostream>
#include <limits>
#include <memory>
#include <numeric>
#include <random>
#include <stdexcept>
#include <vector>
#include "ffcl/kmedoids/PAMUtils.hpp"
using namespace ffcl;
using D = std::vector<double>; using I = D::iterator; using M = std::vector<std::size_t>;
void use(D d, std::size_t n, const M& m) {
    auto a = d.begin(), b = d.end();
    datastruct::PairwiseDistanceMatrix<I> p(a, b, n);
    pam::utils::samples_to_nearest_medoid_indices(a, b, n, m); pam::utils::samples_to_nearest_medoid_indices(p, m);
    pam::utils::samples_to_second_nearest_medoid_indices(a, b, n, m); pam::utils::samples_to_second_nearest_medoid_indices(p, m);
    pam::utils::samples_to_third_nearest_medoid_indices(a, b, n, m); pam::utils::samples_to_third_nearest_medoid_indices(p, m);
    pam::utils::samples_to_nth_nearest_medoid_indices(a, b, n, m, 1); pam::utils::samples_to_nth_nearest_medoid_indices(p, m, 1);
    pam::utils::samples_to_nearest_medoid_distances(a, b, n, m); pam::utils::samples_to_nearest_medoid_distances(p, m);
    pam::utils::samples_to_second_nearest_medoid_distances(a, b, n, m); pam::utils::samples_to_second_nearest_medoid_distances(p, m);
    pam::utils::samples_to_third_nearest_medoid_distances(a, b, n, m); pam::utils::samples_to_third_nearest_medoid_distances(p, m);
    pam::utils::samples_to_nth_nearest_medoid_distances(a, b, n, m, 1); pam::utils::samples_to_nth_nearest_medoid_distances(p, m, 1);
    pam::utils::compute_losses_with_closest_medoid_removal<double>(m, d, d, n);
    pam::utils::first_medoid_td_index_pair(a, b, n); pam::utils::first_medoid_td_index_pair(p);
    pam::utils::medoids_to_centroids(a, b, n, m);
}

#include <algorithm>
#include <cassert>
#include <cmath>
#include <cstddef>
#include <functional>
#include <iostream>
#include <limits>
#include <memory>
#include <numeric>
#include <random>
#include <stdexcept>
#include <vector>
#include "ffcl/kmeans/KMeans.hpp"
using namespace ffcl;
using D = std::vector<double>; using S = std::vector<std::size_t>; using I = D::iterator;
template class ffcl::Lloyd<I>;
template class ffcl::Hamerly<I>;
void use(D d, S s, std::size_t n, const D& c, KMeans<double>& km) {
    auto a = d.begin(), b = d.end(); auto i = s.begin(), j = s.end();
    kmeans::utils::samples_to_nearest_centroid_indices(a, b, n, c); kmeans::utils::samples_to_nearest_centroid_distances(a, b, n, c); kmeans::utils::samples_to_second_nearest_centroid_distances(a, b, n, c);
    kmeans::utils::compute_cluster_sizes(i, j, n); kmeans::utils::compute_cluster_positions_sum(a, b, n, i, n); kmeans::utils::nearest_neighbor_distances(a, b, n);
    Lloyd<I> l(std::make_tuple(a, b, n), c); l.step(); l.total_deviation();
    Hamerly<I> h(std::make_tuple(a, b, n), c); h.step(); h.total_deviation();
    km.predict(a, b, n); km.forward(a, b, n);
}

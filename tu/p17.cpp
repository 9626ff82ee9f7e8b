#include <algorithm>
#include <cassert>
#include <cmath>
#include <cstddef>
#include <iostream>
#include <limits>
#include <memory>
#include <numeric>
#include <stdexcept>
#include <vector>
#include "ffcl/common/math/statistics/Statistics.hpp"
using namespace ffcl::common::math::statistics;
using D = std::vector<double>; using S = std::vector<std::size_t>;
void use(D d, D d2, S s, std::size_t n, const S& mask) {
    auto a = d.begin(), b = d.end(); auto i = s.begin(), j = s.end(); const D& cd2 = d2;
    normalize_min_max(a, b); normalize(a, b); min_container_inplace_left(d, cd2); argmin(a, b); argmax(a, b); get_min_index_value_pair(a, b); get_max_index_value_pair(a, b);
    get_second_max_index_value_pair(a, b); find_nth_smallest_index_and_element(a, b, n);
    compute_mean_per_feature(a, b, n); compute_mean_per_feature(i, j, a, b, n); compute_mean_per_feature(i, j, a, b, n, mask);
    compute_variance_per_feature(a, b, n); compute_variance_per_feature(i, j, a, b, n); compute_variance_per_feature(i, j, a, b, n, mask);
    argmax_variance_per_feature(a, b, n); argmax_variance_per_feature(i, j, a, b, n); argmax_variance_per_feature(i, j, a, b, n, mask);
    compute_variance(a, b);
}

#include <algorithm>
#include <cassert>
#include <cmath>
#include <cstddef>
#include <functional>
#include <iostream>
#include <limits>
#include <memory>
#include <numeric>
#include <vector>
#include "ffcl/common/math/heuristics/Distances.hpp"
#include "ffcl/common/math/heuristics/SilhouetteMethod.hpp"
namespace S = ffcl::common::math::heuristics;
void use(std::vector<double> d, std::size_t n, std::vector<std::size_t> l) {
    S::get_cluster_sizes(l.begin(), l.end());
    S::cohesion(d.begin(), d.end(), n, l.begin(), l.end()); S::separation(d.begin(), d.end(), n, l.begin(), l.end());
    auto r = S::silhouette(d.begin(), d.end(), n, l.begin(), l.end()); S::get_average_silhouette(r.begin(), r.end());
}

#include <algorithm>
#include <cassert>
#include <cmath>
#include <cstddef>
#include <functional>
#include <iostream>
#include <limits>
#include <memory>
#include <numeric>
#include <random>
#include <stdexcept>
#include <vector>
#include "ffcl/common/math/random/Sampling.hpp"
#include "ffcl/common/math/random/VosesAliasMethod.hpp"
using namespace ffcl::common::math::random;
using D = std::vector<double>; using I = D::iterator; using M = std::vector<std::size_t>;
template class ffcl::common::math::random::uniform_distribution<double>;
template class ffcl::common::math::random::uniform_distribution<std::size_t>;
template class ffcl::common::math::random::VosesAliasMethod<double>;
void use(D d, std::size_t n, M m) {
    auto a = d.begin(), b = d.end();
    select_n_elements(m.begin(), m.end(), n);
    make_n_elements_from_interval<std::size_t>(n, {n, n});
    select_random_sample(a, b, n); select_n_random_samples(a, b, n, n);
    init_spatial_uniform(a, b, n, n); init_uniform(a, b, n, n);
    VosesAliasMethod<double> v(d); v(); v.sample();
}

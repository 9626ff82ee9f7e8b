#include <algorithm>
#include <cassert>
#include <cmath>
#include <cstddef>
#include <functional>
#include <iostream>
#include <limits>
#include <memory>
#include <numeric>
#include <random>
#include <stdexcept>
#include <vector>
#include "ffcl/kmeans/Hamerly.hpp"
using namespace ffcl;
using D = std::vector<double>; using I = D::iterator;
template class ffcl::Hamerly<I>;
void use(D d, std::size_t n, const D& c) {
    auto a = d.begin(), b = d.end();
    Hamerly<I> l(std::make_tuple(a, b, n), c); l.step(); l.total_deviation();
}

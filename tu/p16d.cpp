#include <algorithm>
#include <cassert>
#include <cmath>
#include <cstddef>
#include <functional>
#include <iostream>
#include <limits>
#include <memory>
#include <numeric>
#include <random>
#include <stdexcept>
#include <vector>
#include "ffcl/kmedoids/FasterPAM.hpp"
using namespace ffcl;
using D = std::vector<double>; using I = D::iterator; using M = std::vector<std::size_t>;
template class ffcl::FasterPAM<I>;
void use(D d, std::size_t n, const M& m) {
    auto a = d.begin(), b = d.end();
    FasterPAM<I> l(std::make_tuple(a, b, n), m); l.step(); l.total_deviation();
    datastruct::PairwiseDistanceMatrix<I> p(a, b, n);
    FasterPAM<I> q(p, m); q.step(); q.total_deviation();
}

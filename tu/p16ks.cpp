#include <algorithm>
#include <cassert>
#include <cmath>
#include <cstddef>
#include <functional>
#include <iostream>
#include <limits>
#include <memory>
#include <numeric>
#include <random>
#include <stdexcept>
#include <vector>
#include "ffcl/kmedoids/KMedoids.hpp"
using namespace ffcl;
using D = std::vector<double>; using I = D::iterator; using M = std::vector<std::size_t>;
template class ffcl::FasterPAM<I>;
void use(D d, std::size_t n, const M& m) {
    auto a = d.begin(), b = d.end();
    KMedoids<double, false> k(n);
    k.fit<FasterPAM>(a, b, n); k.fit(a, b, n); k.predict(a, b, n); k.forward(a, b, n); }

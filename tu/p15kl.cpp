#include <algorithm>
#include <cassert>
#include <cmath>
#include <cstddef>
#include <functional>
#include <iostream>
#include <limits>
#include <memory>
#include <numeric>
#include <random>
#include <stdexcept>
#include <vector>
#include "ffcl/kmeans/KMeans.hpp"
using namespace ffcl;
using D = std::vector<double>;
void use(D d, std::size_t n, KMeans<double>& km) { km.fit<Lloyd>(d.begin(), d.end(), n); }

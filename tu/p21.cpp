#include <algorithm>
#include <cassert>
#include <cmath>
#include <cstddef>
#include <iostream>
#include <limits>
#include <memory>
#include <stdexcept>
#include <vector>
#include "ffcl/common/Utils.hpp"
using namespace ffcl::common;
using D = std::vector<double>; using I = std::vector<int>; using S = std::vector<std::size_t>; using P = std::vector<std::pair<std::size_t, double>>;
void use(double x, double y, int i, int j, std::size_t n, D d, D d2, I v, I w, S s, P p) {
    ffcl::common::abs(x); ffcl::common::abs(i); equality(x, y); equality(i, j); inequality(x, y); inequality(i, j); division(x, y, y);
    compute_center_with_left_rounding(x, y); compute_center_with_left_rounding(i, j); compute_size_from_center_with_left_rounding(x, y); compute_size_from_center_with_left_rounding(i, j);
    to_type<double>(d.begin(), d.end()); to_type<double>(v.begin(), v.end()); to_type<int>(d.begin(), d.end());
    are_containers_equal(d.begin(), d.end(), d2.begin(), x); are_containers_equal(v.begin(), v.end(), w.begin(), i);
    const D &cd = d, &cd2 = d2; const I &cv = v, &cw = w; const S& cs = s;
    are_containers_equal(cd, cd2, x); are_containers_equal(cv, cw, i);
    count_matches(v.begin(), v.end(), w.begin()); count_matches_for_value(v.begin(), v.end(), w.begin(), i);
    permutation_from_indices(cs, cd); remap_ranges_from_indices(cs, cd, n);
    get_n_samples(d.begin(), d.end(), n);
    is_element_in(v.begin(), v.end(), i); is_element_not_in(v.begin(), v.end(), i); is_element_in_first(p.begin(), p.end(), n); is_element_not_in_first(p.begin(), p.end(), n);
}

#include "ffcl/search/buffer/Unsorted.hpp"
#include "ffcl/search/buffer/WithMemory.hpp"
#include "ffcl/search/buffer/WithUnionFind.hpp"
#include <vector>
using It = std::vector<double>::iterator;
void use(It a, It b, std::vector<std::size_t>& i) {
    ffcl::search::buffer::Unsorted<It> u(a, b, 3); u.update(1, 2.0); u.size(); u.empty(); u.remaining_capacity(); u.furthest_distance(); u.furthest_distance(1); u.furthest_index(); u.closest_distance(); u.indices(); u.distances(); u.max_capacity();
    u.indices_const_ref(); u.distances_const_ref();
}

#include "ffcl/common/algorithms/Sorting.hpp"
#include <vector>
using It = std::vector<double>::iterator; using Ix = std::vector<std::size_t>::iterator;
void use(It a, It b, Ix i, Ix j) {
    ffcl::common::algorithms::median_index_of_three(i, j, a, b, 3, 1);
    ffcl::common::algorithms::partition_around_pivot_index(i, j, a, b, 3, 1, 1);
    ffcl::common::algorithms::quickselect(i, j, a, b, 3, 5, 2);
    ffcl::common::algorithms::quicksort(i, j, a, b, 3, 1, 1);
}

#include "ffcl/common/math/linear_algebra/Translation.hpp"
#include "ffcl/common/math/linear_algebra/Transpose.hpp"
#include "ffcl/datastruct/matrix/PairwiseDistanceMatrix.hpp"
#include "ffcl/datastruct/matrix/PairwiseDistanceMatrixDynamic.hpp"
#include <vector>
using It = std::vector<double>::iterator;
void use(It a, It b, It c, It d) {
    ffcl::common::math::linear_algebra::transpose_sequential(a, b, 3);
    ffcl::common::math::linear_algebra::transpose_parallel_openmp(a, b, 3);
    ffcl::common::math::linear_algebra::transpose(a, b, 3);
    ffcl::common::math::linear_algebra::translate_right_range_to_origin(a, b, c, d);
    ffcl::datastruct::PairwiseDistanceMatrix<It> m(a, b, 3); m(1, 2); m.compute_pairwise_distances_parallel(a, b, 3);
    ffcl::datastruct::PairwiseDistanceMatrix<It> m2(std::make_tuple(a, b, std::size_t(3)));
    ffcl::datastruct::PairwiseDistanceMatrixDynamic<It> y(a, b, 3); y(1, 2);
}

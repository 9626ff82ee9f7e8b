#include "common.hpp"
#include "ffcl/common/math/linear_algebra/Translation.hpp"
#include "ffcl/common/math/linear_algebra/Transpose.hpp"
#include "ffcl/datastruct/matrix/PairwiseDistanceMatrix.hpp"
#include "ffcl/datastruct/matrix/PairwiseDistanceMatrixDynamic.hpp"
using namespace H;
template <typename T> void matrix(Rng& r) {
    size_t f = r.range(1, 4), n = r.range(1, 30); auto d = any_dataset<T>(r, n, f); dump("n_features=" + str(f) + " data=" + str(d), n > 1); using It = typename std::vector<T>::iterator;
    ffcl::datastruct::PairwiseDistanceMatrix<It> a(d.begin(), d.end(), f), b(std::make_tuple(d.begin(), d.end(), f)); ffcl::datastruct::PairwiseDistanceMatrixDynamic<It> c(d.begin(), d.end(), f), e(std::make_tuple(d.begin(), d.end(), f));
    auto chk = [&](const char* w, const auto& m) { EXPECT(m.n_rows() == n && m.n_columns() == n, w << ": size"); for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) { double want = dist(d, i, j, f); EXPECT(close((double)m(i, j), want, tol<T>(), tol<T>()), w << ": distance between samples " << i << " and " << j << " is " << +m(i, j) << ", want " << want); } };
    chk("stored", a); chk("stored from descriptor", b); chk("dynamic", c); chk("dynamic from descriptor", e);
}
template <typename T> void transpose(Rng& r) {
    namespace L = ffcl::common::math::linear_algebra; size_t f = r.chance(0.3) ? r.pick(std::vector<int>{63, 64, 65, 100, 128, 130}) : r.range(1, 12), n = r.chance(0.3) ? r.pick(std::vector<int>{63, 64, 65, 127, 128, 129}) : r.range(0, 20); std::vector<T> d(n * f); for (size_t i = 0; i < d.size(); ++i) d[i] = (T)i; dump("n=" + str(n) + " n_features=" + str(f), n > 1 && f > 1);
    auto chk = [&](const char* w, const auto& t) { auto& [v, rows, cols] = t; EXPECT(rows == f && cols == n && v.size() == n * f, w << ": shape"); for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < f; ++j) EXPECT(v[j * n + i] == d[i * f + j], w << ": entry (" << j << "," << i << ") of the transpose"); };
    auto t = L::transpose(d.begin(), d.end(), f); chk("transpose", t); chk("sequential", L::transpose_sequential(d.begin(), d.end(), f)); chk("blocked", L::transpose_parallel_openmp(d.begin(), d.end(), f));
    if (n) { auto& v = std::get<0>(t); auto u = L::transpose(v.begin(), v.end(), n); EXPECT(std::get<0>(u) == d, "transposing twice gives back the input"); }
}
void translate(Rng& r) {
    size_t f = r.range(1, 6); auto a = any_dataset<double>(r, 1, f), b = any_dataset<double>(r, 1, f); dump("origin=" + str(a) + " point=" + str(b)); auto c = ffcl::common::math::linear_algebra::translate_right_range_to_origin(a.begin(), a.end(), b.begin(), b.end());
    EXPECT(c.size() == f, "size"); for (size_t j = 0; j < f; ++j) EXPECT(c[j] == b[j] - a[j], "translated coordinate " << j);
}
int main(int c, char** v) { return run_main(c, v, {{"matrix_double", 3, matrix<double>}, {"matrix_float", 1, matrix<float>}, {"matrix_int", 1, matrix<int>}, {"transpose", 2, transpose<int>}, {"translate", 1, translate}}); }

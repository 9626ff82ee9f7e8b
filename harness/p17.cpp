#include "common.hpp"
#include "ffcl/common/Utils.hpp"
#include "ffcl/common/math/statistics/Statistics.hpp"
using namespace H; namespace S = ffcl::common::math::statistics;
template <typename T> void extrema(Rng& r) {
    size_t n = r.chance(0.1) ? r.range(200, 400) : r.range(1, 30); std::vector<T> v(n); int w = r.pick(std::vector<int>{1, 3, 20, 100}); for (auto& x : v) x = (T)(std::is_signed_v<T> ? r.range(-w, w) : r.range(0, w)); if (r.chance(0.2)) std::sort(v.begin(), v.end()); dump("values=" + str(v), n > 1);
    T mn = *std::min_element(v.begin(), v.end()), mx = *std::max_element(v.begin(), v.end()); auto o = v;
    size_t ai = (size_t)S::argmin(v.begin(), v.end()), aj = (size_t)S::argmax(v.begin(), v.end());
    EXPECT(ai < n && v[ai] == mn, "argmin is " << ai << ", the smallest is " << +mn); for (size_t i = 0; i < ai; ++i) EXPECT(v[i] > mn, "argmin is not the first smallest");
    EXPECT(aj < n && v[aj] == mx, "argmax is " << aj << ", the largest is " << +mx);
    auto [i1, v1] = S::get_min_index_value_pair(v.begin(), v.end()); EXPECT(i1 < n && v1 == mn && v[i1] == mn, "smallest element pair");
    auto [i2, v2] = S::get_max_index_value_pair(v.begin(), v.end()); EXPECT(i2 < n && v2 == mx && v[i2] == mx, "largest element pair");
    auto s = v; std::sort(s.begin(), s.end());
    if (n > 1) { auto [i3, v3] = S::get_second_max_index_value_pair(v.begin(), v.end()); EXPECT(v == o, "the second largest changed its input"); EXPECT(i3 < n && i3 != i2 && v3 == s[n - 2] && v[i3] == v3, "second largest is (" << i3 << "," << +v3 << "), want value " << +s[n - 2] << " at another place than the largest"); }
    size_t k = r.range(1, n); auto [i4, v4] = S::find_nth_smallest_index_and_element(v.begin(), v.end(), k); EXPECT(v4 == s[k - 1] && i4 < n && v[i4] == v4, k << "-th smallest is " << +v4 << " at " << i4 << ", want " << +s[k - 1]); EXPECT(v == o, "the n-th smallest changed its input");
    std::vector<T> w2(n); for (auto& x : w2) x = (T)(std::is_signed_v<T> ? r.range(-w, w) : r.range(0, w)); auto l = v; S::min_container_inplace_left(l, w2); for (size_t i = 0; i < n; ++i) EXPECT(l[i] == std::min(v[i], w2[i]), "element-wise minimum");
}
template <typename T> void features(Rng& r) {
    const bool fl = std::is_floating_point_v<T>; size_t f = r.range(1, 6), n = r.range(2, 40); auto d = any_dataset<T>(r, n, f); size_t m = r.range(2, n); auto ix = subset(r, n, m); std::vector<size_t> mask = subset(r, f, r.range(1, f)); dump("n_features=" + str(f) + " indices=" + str(ix) + " mask=" + str(mask) + " data=" + str(d), true);
    auto mean = [&](const std::vector<size_t>& rows, size_t j) { long double s = 0; for (auto i : rows) s += d[i * f + j]; s /= rows.size(); return fl ? (double)s : (double)(long long)s; };
    auto ss = [&](const std::vector<size_t>& rows, size_t j) { double mu = mean(rows, j); if (fl) { long double s = 0; for (auto i : rows) s += d[i * f + j]; mu = s / rows.size(); } long double s = 0; for (auto i : rows) s += ((long double)d[i * f + j] - mu) * ((long double)d[i * f + j] - mu); return (double)s; };
    auto var = [&](const std::vector<size_t>& rows, size_t j) { double v = ss(rows, j) / (rows.size() - 1); return fl ? v : std::floor(v + 1e-9); };
    auto all = iota(n), allf = iota(f); double sc = 1; for (auto x : d) sc = std::max(sc, std::fabs((double)x)); double e = tol<T>() * 100 * sc, e2 = e * sc * (1 + n);
    auto check = [&](const char* w, const auto& mu, const auto& va, size_t am, const std::vector<size_t>& rows, const std::vector<size_t>& feats) {
        EXPECT(mu.size() == feats.size() && va.size() == feats.size(), w << ": one value per feature"); double best = -1;
        for (size_t q = 0; q < feats.size(); ++q) { size_t j = feats[q]; EXPECT(std::fabs((double)mu[q] - mean(rows, j)) <= e, w << ": mean of feature " << j << " is " << +mu[q] << ", want " << mean(rows, j)); EXPECT(std::fabs((double)va[q] - var(rows, j)) <= e2, w << ": variance of feature " << j << " is " << +va[q] << ", want " << var(rows, j)); best = std::max(best, ss(rows, j)); }
        EXPECT(std::find(feats.begin(), feats.end(), am) != feats.end(), w << ": feature of largest variance " << am << " was not asked for"); EXPECT(ss(rows, am) >= best - e2 * (1 + n), w << ": feature " << am << " is not the one of largest variance");
    };
    check("all samples", S::compute_mean_per_feature(d.begin(), d.end(), f), S::compute_variance_per_feature(d.begin(), d.end(), f), S::argmax_variance_per_feature(d.begin(), d.end(), f), all, allf);
    check("subset", S::compute_mean_per_feature(ix.begin(), ix.end(), d.begin(), d.end(), f), S::compute_variance_per_feature(ix.begin(), ix.end(), d.begin(), d.end(), f), S::argmax_variance_per_feature(ix.begin(), ix.end(), d.begin(), d.end(), f), ix, allf);
    check("subset and mask", S::compute_mean_per_feature(ix.begin(), ix.end(), d.begin(), d.end(), f, mask), S::compute_variance_per_feature(ix.begin(), ix.end(), d.begin(), d.end(), f, mask), S::argmax_variance_per_feature(ix.begin(), ix.end(), d.begin(), d.end(), f, mask), ix, mask);
}
void vectors(Rng& r) {
    size_t n = r.range(2, 30); auto v = any_dataset<double>(r, n, 1); dump("values=" + str(v), true); double mn = *std::min_element(v.begin(), v.end()), mx = *std::max_element(v.begin(), v.end()), sc = 1; for (auto x : v) sc = std::max(sc, std::fabs(x));
    auto nm = S::normalize_min_max(v.begin(), v.end()); EXPECT(nm.size() == n, "size"); for (size_t i = 0; i < n; ++i) EXPECT(close(nm[i], mn == mx ? 1.0 / n : 1 - (v[i] - mn) / (mx - mn)), "scaled value " << i << " is " << nm[i]);
    double sum = std::accumulate(v.begin(), v.end(), 0.0); if (std::fabs(sum) > 1e-6) { auto w = S::normalize(v.begin(), v.end()); for (size_t i = 0; i < n; ++i) EXPECT(close(w[i], v[i] / sum, 1e-6, 1e-6), "share of value " << i); }
    double mu = sum / n, s = 0; for (auto x : v) s += (x - mu) * (x - mu); EXPECT(close(S::compute_variance(v.begin(), v.end()), s / (n - 1), 1e-7, 1e-9 * sc * sc * n), "variance is " << S::compute_variance(v.begin(), v.end()) << ", want " << s / (n - 1));
}
int main(int c, char** v) { return run_main(c, v, {{"extrema_double", 2, extrema<double>}, {"extrema_int", 1, extrema<int>}, {"extrema_int8", 1, extrema<signed char>}, {"extrema_unsigned", 1, extrema<unsigned>}, {"features_double", 4, features<double>}, {"features_float", 1, features<float>}, {"features_int", 2, features<int>}, {"vectors", 2, vectors}}); }

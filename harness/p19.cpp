#include "common.hpp"
#include "ffcl/common/Utils.hpp"
#include "ffcl/common/math/random/Distributions.hpp"
#include "ffcl/common/math/random/Sampling.hpp"
#include "ffcl/common/math/random/VosesAliasMethod.hpp"
using namespace H; namespace R = ffcl::common::math::random;
void elements(Rng& r) {
    size_t n = r.range(1, 25), k = r.range(0, n); std::vector<long> v(n); for (size_t i = 0; i < n; ++i) v[i] = 1000 + (long)i * 7; dump("values=" + str(v) + " wanted=" + str(k), n > 1 && k > 0);
    auto s = R::select_n_elements(v.begin(), v.end(), k); EXPECT(s.size() == k, "number of elements drawn"); std::set<long> u; for (auto x : s) { EXPECT(std::count(v.begin(), v.end(), x) == 1, "drew " << x << " which is not in the range"); EXPECT(u.insert(x).second, "drew " << x << " twice"); }
    size_t lo = r.range(0, 50); auto m = R::make_n_elements_from_interval<size_t>(k, {lo, lo + n}); EXPECT(m.size() == k, "number of integers drawn"); std::set<size_t> w; for (auto x : m) { EXPECT(x >= lo && x < lo + n, "drew " << x << " outside the interval"); EXPECT(w.insert(x).second, "drew " << x << " twice"); }
}
// every element of the pool must be reachable, and every draw roughly equally likely (false alarm odds < 1e-12)
void coverage(Rng& r) {
    size_t n = r.range(2, 9), k = r.range(1, n - 1); std::vector<int> v(n); std::iota(v.begin(), v.end(), 0); dump("coverage n=" + str(n) + " wanted=" + str(k)); std::vector<size_t> hit(n, 0); size_t t = 4000; for (size_t i = 0; i < t; ++i) for (auto x : R::select_n_elements(v.begin(), v.end(), k)) ++hit[x];
    double p = (double)k / n, sd = std::sqrt(t * p * (1 - p)); for (size_t i = 0; i < n; ++i) EXPECT(std::fabs(hit[i] - t * p) < 8 * sd + 1, "element " << i << " of the pool was drawn " << hit[i] << " times out of " << t << ", expected about " << t * p);
}
template <typename T> void samples(Rng& r) {
    size_t f = r.range(1, 4), n = r.range(1, 20), k = r.range(1, n + 3); auto d = any_dataset<T>(r, n, f); dump("n_features=" + str(f) + " wanted=" + str(k) + " data=" + str(d), n > 1); std::multiset<std::vector<T>> rows; for (size_t i = 0; i < n; ++i) rows.insert(std::vector<T>(d.begin() + i * f, d.begin() + i * f + f));
    auto one = R::select_random_sample(d.begin(), d.end(), f); EXPECT(rows.count(one), "random sample is not in the data set");
    auto chk = [&](const char* w, const std::vector<T>& v, size_t want) { EXPECT(v.size() == want * f, w << ": returned " << v.size() << " values, want " << want * f); auto left = rows; for (size_t i = 0; i < want; ++i) { auto it = left.find(std::vector<T>(v.begin() + i * f, v.begin() + i * f + f)); EXPECT(it != left.end(), w << ": row " << i << " is not a sample of the data set, or was drawn too often"); left.erase(it); } };
    chk("random samples", R::select_n_random_samples(d.begin(), d.end(), f, k), std::min(k, n)); if (k <= n) chk("uniform initialization", R::init_uniform(d.begin(), d.end(), f, k), k);
    auto c = R::init_spatial_uniform(d.begin(), d.end(), f, k); EXPECT(c.size() == k * f, "number of coordinates"); for (size_t j = 0; j < f; ++j) { T lo = d[j], hi = d[j]; for (size_t i = 0; i < n; ++i) { lo = std::min(lo, d[i * f + j]); hi = std::max(hi, d[i * f + j]); } for (size_t q = 0; q < k; ++q) EXPECT(c[q * f + j] >= lo && c[q * f + j] <= hi, "coordinate " << j << " of position " << q << " is " << +c[q * f + j] << ", outside [" << +lo << "," << +hi << "]"); }
}
template <typename T> void vose(Rng& r) {
    size_t n = r.range(1, 12); std::vector<T> w(n); int sty = r.range(0, 3); for (auto& x : w) x = sty == 0 ? (T)r.range(0, 3) : sty == 1 ? (T)r.real(0, 10) : sty == 2 ? (r.chance(0.6) ? (T)0 : (T)r.range(1, 50)) : (T)(std::is_floating_point_v<T> ? r.real(1e-6, 1e-4) : 1); double sum = 0; for (auto x : w) sum += x; dump("weights=" + str(w), n > 1);
    R::VosesAliasMethod<T> a(w); size_t t = 3000; std::vector<size_t> hit(n, 0); for (size_t i = 0; i < t; ++i) { size_t q = i % 2 ? a() : a.sample(); EXPECT(q < n, "drew index " << q << " out of " << n << " weights"); ++hit[q]; if (sum > 0) EXPECT(w[q] > 0, "drew index " << q << " of weight zero"); }
    for (size_t i = 0; i < n; ++i) { double p = sum > 0 ? (double)w[i] / sum : 1.0 / n, sd = std::sqrt(t * p * (1 - p)); EXPECT(std::fabs(hit[i] - t * p) < 8 * sd + 8, "index " << i << " was drawn " << hit[i] << " times out of " << t << ", expected about " << t * p); }
}
template <typename T> void dist_range(Rng& r) { T lo = (T)r.range(-50, 50), hi = lo + (T)r.range(0, 30) + (std::is_floating_point_v<T> ? (T)1 : (T)0); dump("interval=" + str(lo) + ".." + str(hi)); R::uniform_distribution<T> u(lo, hi); for (int i = 0; i < 50; ++i) { T x = u(); EXPECT(x >= lo && x <= hi, "uniform value " << x << " outside the interval"); } }
int main(int c, char** v) { return run_main(c, v, {{"elements", 4, elements}, {"coverage", 1, coverage}, {"samples_double", 3, samples<double>}, {"samples_int", 1, samples<int>}, {"vose_double", 2, vose<double>}, {"vose_float", 1, vose<float>}, {"vose_int", 1, vose<int>}, {"uniform_int", 1, dist_range<int>}, {"uniform_double", 1, dist_range<double>}}); }

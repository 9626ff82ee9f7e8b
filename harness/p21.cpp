#include "common.hpp"
#include "ffcl/common/Utils.hpp"
using namespace H; namespace C = ffcl::common;
void remap(Rng& r) {
    size_t f = r.range(1, 4), n = r.range(1, 15); auto d = any_dataset<double>(r, n, f); auto p = subset(r, n, n); dump("n_features=" + str(f) + " permutation=" + str(p) + " data=" + str(d), n > 1); auto o = d; auto m = C::remap_ranges_from_indices(p, d, f); EXPECT(d == o && m.size() == d.size(), "size");
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < f; ++j) EXPECT(m[i * f + j] == d[p[i] * f + j], "row " << i << " is not row " << p[i] << " of the input");
    std::vector<double> one(d.begin(), d.begin() + n); auto q = C::permutation_from_indices(p, one); for (size_t i = 0; i < n; ++i) EXPECT(q[i] == one[p[i]], "element " << i << " is not element " << p[i] << " of the input");
    std::vector<size_t> bad(p.begin(), p.end() - 1); for (int w = 0; w < 2; ++w) { bool threw = false; try { if (w) C::permutation_from_indices(bad, one); else C::remap_ranges_from_indices(bad, d, f); } catch (const std::invalid_argument&) { threw = true; } EXPECT(threw, "sizes that do not match are refused"); }
    EXPECT(C::get_n_samples(d.begin(), d.end(), f) == n, "number of samples");
}
template <typename T> void counts(Rng& r) {
    size_t n = r.range(0, 25); std::vector<T> a(n), b(n); for (auto& x : a) x = (T)r.range(0, 3); for (auto& x : b) x = (T)r.range(0, 3); T v = (T)r.range(0, 4); if (r.chance(0.3)) b = a; if (n && r.chance(0.3)) b[r.range(0, n - 1)] += 1; dump("left=" + str(a) + " right=" + str(b) + " value=" + str(v), n > 1); size_t m = 0, mv = 0; bool eq = true; for (size_t i = 0; i < n; ++i) { m += a[i] == b[i]; mv += a[i] == b[i] && a[i] == v; eq &= a[i] == b[i]; }
    EXPECT(C::count_matches(a.begin(), a.end(), b.begin()) == m, "number of matches is " << C::count_matches(a.begin(), a.end(), b.begin()) << ", want " << m); EXPECT(C::count_matches_for_value(a.begin(), a.end(), b.begin(), v) == mv, "number of matches of a value"); EXPECT(C::are_containers_equal(a, b) == eq, "equality of containers"); EXPECT(C::are_containers_equal(a.begin(), a.end(), b.begin()) == eq, "equality of ranges");
    auto longer = a; longer.push_back((T)0); EXPECT(!C::are_containers_equal(a, longer) && !C::are_containers_equal(longer, a), "containers of different sizes are not equal");
    if constexpr (std::is_floating_point_v<T>) { T t = (T)r.range(0, 3); bool w = true; for (size_t i = 0; i < n; ++i) w &= std::fabs(a[i] - b[i]) <= t; EXPECT(C::are_containers_equal(a, b, t) == w, "equality within a tolerance"); }
    bool in = std::count(a.begin(), a.end(), v) > 0; EXPECT(C::is_element_in(a.begin(), a.end(), v) == in && C::is_element_not_in(a.begin(), a.end(), v) == !in, "membership"); std::vector<std::pair<T, int>> pr; for (auto x : a) pr.push_back({x, (int)r.range(0, 4)}); EXPECT(C::is_element_in_first(pr.begin(), pr.end(), v) == in && C::is_element_not_in_first(pr.begin(), pr.end(), v) == !in, "membership among first members");
    auto c = C::to_type<double>(a.begin(), a.end()); EXPECT(c.size() == n, "size"); for (size_t i = 0; i < n; ++i) EXPECT(c[i] == (double)a[i], "converted element"); auto k = C::to_type<int>(a.begin(), a.end()); for (size_t i = 0; i < n; ++i) EXPECT(k[i] == (int)a[i], "converted element");
}
void scalars(Rng& r) {
    long a = r.range(-40, 40), b = r.range(-40, 40); double x = r.real(-9, 9), y = r.chance(0.2) ? x : r.real(-9, 9); dump("a=" + str(a) + " b=" + str(b) + " x=" + str(x) + " y=" + str(y));
    EXPECT(C::abs(a) == (a < 0 ? -a : a) && C::abs((int)a) == std::abs((int)a) && C::abs(x) == std::fabs(x), "absolute value"); EXPECT(C::equality(a, b) == (a == b) && C::inequality(a, b) == (a != b), "integral equality"); EXPECT(C::equality(x, y) == (std::fabs(x - y) <= std::numeric_limits<double>::epsilon()) && C::inequality(x, y) != C::equality(x, y), "floating point equality");
    EXPECT(C::division(x, 0.0) == 0 && C::division(x, 0.0, 7.0) == 7 && C::division(a, 0L) == 0, "division by zero gives the default"); if (std::fabs(y) > 1e-9) EXPECT(C::division(x, y) == x / y, "division"); if (b) EXPECT(C::division(a, b) == a / b, "integral division");
    long lo = std::min(a, b), hi = std::max(a, b); long c = C::compute_center_with_left_rounding(lo, hi), s = C::compute_size_from_center_with_left_rounding(lo, hi); EXPECT(c == (long)std::floor((lo + hi) / 2.0), "center of " << lo << " and " << hi << " is " << c); EXPECT(s == hi - c + 1, "size"); EXPECT(c >= lo && c <= hi, "center within the bounds");
    double l = std::min(x, y), h = std::max(x, y); EXPECT(close(C::compute_center_with_left_rounding(l, h), (l + h) / 2) && close(C::compute_size_from_center_with_left_rounding(l, h), (h - l) / 2), "center and half length");
}
int main(int c, char** v) { return run_main(c, v, {{"remap", 2, remap}, {"counts_int", 2, counts<int>}, {"counts_double", 2, counts<double>}, {"scalars", 2, scalars}}); }

#include "common.hpp"
#include "ffcl/kmedoids/KMedoids.hpp"
using namespace H;
template <typename T> using It = typename std::vector<T>::iterator;
template <typename T> double total(const std::vector<T>& d, size_t f, const std::vector<size_t>& m) { double s = 0; for (size_t i = 0; i < d.size() / f; ++i) { double b = 1e300; for (auto q : m) b = std::min(b, dist(d, i, q, f)); s += b; } return s; }
// integers along one axis: every distance and sum is exact, so no rounding error can pass for an improvement
template <typename T> std::vector<T> exact_dataset(Rng& r, size_t n, size_t f) { std::vector<T> d(n * f, (T)r.range(-3, 3)); size_t ax = r.range(0, f - 1); int w = r.pick(std::vector<int>{4, 12, 60, 1000}); for (size_t i = 0; i < n; ++i) d[i * f + ax] = (T)r.range(-w, w); return d; }
template <typename T> void run(Rng& r) {
    size_t f = r.range(1, 3), n = r.range(3, 28), k = r.range(2, std::min<size_t>(n, 5)); bool exact = r.chance(0.6); auto d = exact ? exact_dataset<T>(r, n, f) : any_dataset<T>(r, n, f); auto m = subset(r, n, k); bool pre = r.chance(0.5);
    dump("n_features=" + str(f) + " medoids=" + str(m) + " precomputed=" + str(pre) + " data=" + str(d), n > k);
    double sc = 1; for (auto x : d) sc = std::max(sc, std::fabs((double)x)); double eps = 10 * tol<T>() * sc * n;
    auto descr = std::make_tuple(d.begin(), d.end(), f); ffcl::datastruct::PairwiseDistanceMatrix<It<T>> pm(descr);
    std::unique_ptr<ffcl::FasterPAM<It<T>>> a; if (pre) a = std::make_unique<ffcl::FasterPAM<It<T>>>(pm, m); else a = std::make_unique<ffcl::FasterPAM<It<T>>>(descr, m);
    auto dev = [&](const char* w) { double t = total(d, f, m); EXPECT(std::fabs((double)a->total_deviation() - t) <= eps, w << ": reported total deviation " << a->total_deviation() << " but medoids " << str(m) << " have " << t); };
    dev("initially"); bool done = false;
    for (int s = 0; s < 60 && !done; ++s) {
        auto prev = m; m = a->step(); EXPECT(m.size() == k, "number of medoids changed"); std::set<size_t> u; for (auto q : m) { EXPECT(q < n, "medoid out of range"); EXPECT(u.insert(q).second, "medoid " << q << " selected twice"); }
        dev("after a step"); EXPECT(total(d, f, m) <= total(d, f, prev) + eps, "a step made the clustering worse"); done = m == prev;
    }
    if (exact) EXPECT(done, "no convergence after 60 steps");
    double t = total(d, f, m); if (exact) for (size_t s = 0; s < k; ++s) for (size_t c = 0; c < n; ++c) { auto q = m; q[s] = c; EXPECT(total(d, f, q) >= t - eps, "converged medoids " << str(m) << " (" << t << ") improved by replacing slot " << s << " with sample " << c << " (" << total(d, f, q) << ")"); }
}
template <typename T, bool Pre> void fit(Rng& r) {
    size_t f = r.range(1, 3), n = r.range(4, 28), k = r.range(2, std::min<size_t>(n, 5)); bool exact = r.chance(0.6); auto d = exact ? exact_dataset<T>(r, n, f) : any_dataset<T>(r, n, f); auto m0 = subset(r, n, k); bool given = r.chance(0.6), viam = r.chance(0.4); size_t tries = r.range(1, 4);
    dump("n_features=" + str(f) + " initial=" + (given ? str(m0) : std::string("random")) + " via_matrix=" + str(viam) + " data=" + str(d), n > k);
    double sc = 1; for (auto x : d) sc = std::max(sc, std::fabs((double)x)); double eps = 10 * tol<T>() * sc * n;
    using K = ffcl::KMedoids<T, Pre>; auto opt = typename K::Options().max_iter(200).early_stopping(true).n_init(tries);
    std::unique_ptr<K> km = given ? std::make_unique<K>(k, m0, opt) : std::make_unique<K>(k, opt); ffcl::datastruct::PairwiseDistanceMatrix<It<T>> pm(std::make_tuple(d.begin(), d.end(), f));
    std::vector<size_t> m = viam ? km->fit(pm) : km->fit(d.begin(), d.end(), f);
    EXPECT(m.size() == k, "number of medoids"); std::set<size_t> u; for (auto q : m) { EXPECT(q < n, "medoid out of range"); EXPECT(u.insert(q).second, "medoid selected twice"); }
    double t = total(d, f, m); if (given) EXPECT(t <= total(d, f, m0) + eps, "fit is worse than the medoids it started from");
    if (exact) for (size_t s = 0; s < k; ++s) for (size_t c = 0; c < n; ++c) { auto q = m; q[s] = c; EXPECT(total(d, f, q) >= t - eps, "fitted medoids " << str(m) << " (" << t << ") improved by replacing slot " << s << " with sample " << c << " (" << total(d, f, q) << ")"); }
    for (int w = 0; w < 2; ++w) {
        auto p = w ? km->predict(pm) : km->predict(d.begin(), d.end(), f); auto fw = w ? km->forward(pm) : km->forward(d.begin(), d.end(), f); EXPECT(p.size() == n && fw.size() == n, "one result per sample");
        for (size_t i = 0; i < n; ++i) { double b = 1e300; for (auto q : m) b = std::min(b, dist(d, i, q, f)); EXPECT(p[i] < k && close(dist(d, i, m[p[i]], f), b, tol<T>(), tol<T>()), "sample " << i << " predicted in cluster " << p[i] << ", not its nearest medoid"); EXPECT(close(fw[i], b, tol<T>(), tol<T>()), "distance of sample " << i << " is " << fw[i] << ", want " << b); }
    }
}
template <typename T> void utils(Rng& r) {
    size_t f = r.range(1, 3), n = r.range(3, 30), k = r.range(3, std::min<size_t>(n, 7)); auto d = any_dataset<T>(r, n, f); auto m = subset(r, n, k); dump("n_features=" + str(f) + " medoids=" + str(m) + " data=" + str(d), n > k);
    ffcl::datastruct::PairwiseDistanceMatrix<It<T>> pm(std::make_tuple(d.begin(), d.end(), f));
    for (size_t nth = 1; nth <= 3; ++nth) for (int w = 0; w < 2; ++w) {
        auto ix = w ? pam::utils::samples_to_nth_nearest_medoid_indices(pm, m, nth) : pam::utils::samples_to_nth_nearest_medoid_indices(d.begin(), d.end(), f, m, nth);
        auto ds = w ? pam::utils::samples_to_nth_nearest_medoid_distances(pm, m, nth) : pam::utils::samples_to_nth_nearest_medoid_distances(d.begin(), d.end(), f, m, nth);
        for (size_t i = 0; i < n; ++i) { std::vector<double> all; for (auto q : m) all.push_back(dist(d, i, q, f)); auto s = all; std::sort(s.begin(), s.end()); EXPECT(close(ds[i], s[nth - 1], tol<T>(), tol<T>()), nth << "-th nearest medoid distance of sample " << i << " is " << ds[i] << ", want " << s[nth - 1]); EXPECT(ix[i] < k && close(all[ix[i]], s[nth - 1], tol<T>(), tol<T>()), nth << "-th nearest medoid of sample " << i << " is slot " << ix[i]); }
    }
    auto i1 = pam::utils::samples_to_nth_nearest_medoid_indices(d.begin(), d.end(), f, m, 1), i2 = pam::utils::samples_to_nth_nearest_medoid_indices(d.begin(), d.end(), f, m, 2), i3 = pam::utils::samples_to_nth_nearest_medoid_indices(d.begin(), d.end(), f, m, 3);
    for (size_t i = 0; i < n; ++i) EXPECT(i1[i] != i2[i] && i1[i] != i3[i] && i2[i] != i3[i], "the nearest medoids of sample " << i << " are not distinct");
    auto d1 = pam::utils::samples_to_nth_nearest_medoid_distances(d.begin(), d.end(), f, m, 1), d2 = pam::utils::samples_to_nth_nearest_medoid_distances(d.begin(), d.end(), f, m, 2); auto los = pam::utils::compute_losses_with_closest_medoid_removal<T>(i1, d1, d2, k);
    for (size_t s = 0; s < k; ++s) { auto q = m; q.erase(q.begin() + s); EXPECT(close(los[s], total(d, f, q) - total(d, f, m), 10 * tol<T>(), 100 * n * tol<T>() * (1 + total(d, f, q))), "loss of removing medoid " << s << " is " << los[s] << ", want " << total(d, f, q) - total(d, f, m)); }
    auto [td, first] = pam::utils::first_medoid_td_index_pair(d.begin(), d.end(), f); auto [td2, first2] = pam::utils::first_medoid_td_index_pair(pm); double best = 1e300; for (size_t c = 0; c < n; ++c) best = std::min(best, total(d, f, {c}));
    EXPECT(close(td, best, n * tol<T>(), n * tol<T>()) && close(td2, best, n * tol<T>(), n * tol<T>()) && close(total(d, f, {first}), best, n * tol<T>(), n * tol<T>()) && close(total(d, f, {first2}), best, n * tol<T>(), n * tol<T>()), "the most central sample");
    auto cen = pam::utils::medoids_to_centroids(d.begin(), d.end(), f, m); for (size_t s = 0; s < k; ++s) for (size_t j = 0; j < f; ++j) EXPECT(cen[s * f + j] == d[m[s] * f + j], "positions of the medoids");
}
int main(int c, char** v) { return run_main(c, v, {{"faster_pam", 4, run<double>}, {"fit", 2, fit<double, false>}, {"fit_precomputed", 1, fit<double, true>}, {"utils", 3, utils<double>}, {"utils_float", 1, utils<float>}}); }

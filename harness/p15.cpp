#include "common.hpp"
#include "ffcl/kmeans/KMeans.hpp"
using namespace H;
template <typename T> using It = typename std::vector<T>::iterator;
// is `next` the means of some assignment of every sample to one of its nearest rows of `cent` (empty clusters stay where they are)?
template <typename T> bool valid_step(const std::vector<T>& d, size_t f, const std::vector<T>& cent, const std::vector<T>& next, bool& decided) {
    size_t n = d.size() / f, k = cent.size() / f; std::vector<std::vector<size_t>> opt(n); double scale = 1; for (auto x : d) scale = std::max(scale, std::fabs((double)x)); for (auto x : cent) scale = std::max(scale, std::fabs((double)x));
    double eps = tol<T>() * scale; decided = true;
    for (size_t i = 0; i < n; ++i) { double best = 1e300; for (size_t c = 0; c < k; ++c) best = std::min(best, euclid(&d[i * f], &cent[c * f], f)); for (size_t c = 0; c < k; ++c) if (euclid(&d[i * f], &cent[c * f], f) <= best + eps) opt[i].push_back(c); }
    size_t combos = 1; for (auto& o : opt) { combos *= o.size(); if (combos > 4096) { decided = false; return true; } }
    for (size_t m = 0; m < combos; ++m) {
        std::vector<double> s(k * f, 0); std::vector<size_t> cnt(k, 0); size_t mm = m;
        for (size_t i = 0; i < n; ++i) { size_t c = opt[i][mm % opt[i].size()]; mm /= opt[i].size(); ++cnt[c]; for (size_t j = 0; j < f; ++j) s[c * f + j] += d[i * f + j]; }
        bool ok = true; for (size_t c = 0; c < k && ok; ++c) for (size_t j = 0; j < f && ok; ++j) { double want = cnt[c] ? s[c * f + j] / cnt[c] : (double)cent[c * f + j]; if (std::fabs(want - next[c * f + j]) > 4 * eps) ok = false; }
        if (ok) return true;
    }
    return false;
}
template <typename T> double total(const std::vector<T>& d, size_t f, const std::vector<T>& cent) { double s = 0; for (size_t i = 0; i < d.size() / f; ++i) { double b = 1e300; for (size_t c = 0; c < cent.size() / f; ++c) b = std::min(b, euclid(&d[i * f], &cent[c * f], f)); s += b; } return s; }
template <typename T> std::vector<T> centroids(Rng& r, const std::vector<T>& d, size_t f, size_t k) {
    size_t n = d.size() / f; std::vector<T> c(k * f); int sty = r.range(0, 3);
    for (size_t i = 0; i < k; ++i) { size_t s = r.range(0, n - 1); for (size_t j = 0; j < f; ++j) c[i * f + j] = sty == 0 ? (T)r.range(-60, 60) : sty == 1 ? d[s * f + j] : sty == 2 ? (T)(d[s * f + j] + r.range(-3, 3)) : (T)r.real(-300, 300); }
    if (k > 1 && r.chance(0.15)) std::copy(c.begin(), c.begin() + f, c.begin() + f);
    return c;
}
template <typename T, template <typename> class A> void step(Rng& r) {
    size_t f = r.range(1, 4), n = r.range(1, 40), k = r.range(1, 6); auto d = any_dataset<T>(r, n, f); auto c = centroids(r, d, f, k); int steps = r.range(1, 12);
    dump("n_features=" + str(f) + " centroids=" + str(c) + " data=" + str(d) + " steps=" + str(steps), n > 1 && k > 1);
    A<It<T>> a(std::make_tuple(d.begin(), d.end(), f), c); double sc = 1; for (auto x : d) sc = std::max(sc, std::fabs((double)x)); for (auto x : c) sc = std::max(sc, std::fabs((double)x));
    auto dev = [&](const char* w) { EXPECT(close(a.total_deviation(), total(d, f, c), 10 * tol<T>(), 10 * tol<T>() * sc * n), w << ": total deviation " << a.total_deviation() << " but the samples are " << total(d, f, c) << " from their nearest centroids in total"); };
    dev("before the first step");
    for (int s = 0; s < steps; ++s) {
        auto prev = c; c = a.step(); EXPECT(c.size() == k * f, "number of centroids changed"); for (auto x : c) EXPECT(std::isfinite((double)x), "centroid not finite");
        bool dec; EXPECT((valid_step<T>(d, f, prev, c, dec)), "step " << s << " from " << str(prev) << " gives " << str(c) << ", not the means of the nearest-centroid clusters");
        dev("after a step");
    }
}
template <typename T> void predict(Rng& r) {
    size_t f = r.range(1, 5), n = r.range(1, 60), k = r.range(1, 8); auto d = any_dataset<T>(r, n, f); auto c = centroids(r, d, f, k);
    dump("n_features=" + str(f) + " centroids=" + str(c) + " data=" + str(d), n > 1 && k > 1);
    ffcl::KMeans<T> km(k, c); auto p = km.predict(d.begin(), d.end(), f); auto fw = km.forward(d.begin(), d.end(), f); auto sec = kmeans::utils::samples_to_second_nearest_centroid_distances(d.begin(), d.end(), f, c);
    EXPECT(p.size() == n && fw.size() == n && sec.size() == n, "one result per sample");
    for (size_t i = 0; i < n; ++i) {
        std::vector<double> ds; for (size_t q = 0; q < k; ++q) ds.push_back(euclid(&d[i * f], &c[q * f], f)); double b = *std::min_element(ds.begin(), ds.end());
        EXPECT(p[i] < k && close(ds[p[i]], b, tol<T>(), tol<T>()), "sample " << i << " predicted in cluster " << p[i] << " at " << ds[p[i]] << " but the nearest is at " << b);
        EXPECT(close(fw[i], b, tol<T>(), tol<T>()), "distance of sample " << i << " is " << fw[i] << ", want " << b);
        if (k > 1) { std::sort(ds.begin(), ds.end()); EXPECT(close(sec[i], ds[1], tol<T>(), tol<T>()), "second nearest of " << i << " is " << sec[i] << ", want " << ds[1]); }
    }
    auto sz = kmeans::utils::compute_cluster_sizes(p.begin(), p.end(), k); auto sum = kmeans::utils::compute_cluster_positions_sum(d.begin(), d.end(), f, p.begin(), k); auto nn = kmeans::utils::nearest_neighbor_distances(c.begin(), c.end(), f);
    for (size_t q = 0; q < k; ++q) {
        size_t cnt = 0; std::vector<double> s(f, 0), a(f, 0); for (size_t i = 0; i < n; ++i) if (p[i] == q) { ++cnt; for (size_t j = 0; j < f; ++j) { s[j] += d[i * f + j]; a[j] += std::fabs(d[i * f + j]); } }
        EXPECT(sz[q] == cnt, "cluster size"); for (size_t j = 0; j < f; ++j) EXPECT(close(sum[q * f + j], s[j], tol<T>(), tol<T>() * (1 + a[j])), "cluster sum");
        if (k > 1) { double b = 1e300; for (size_t o = 0; o < k; ++o) if (o != q) b = std::min(b, euclid(&c[q * f], &c[o * f], f)); EXPECT(close(nn[q], b, tol<T>(), tol<T>()), "distance to the nearest other centroid"); }
    }
}
template <template <typename> class A> void fit(Rng& r) {
    using T = double; size_t f = r.range(1, 3), n = r.range(2, 40), k = r.range(1, 5); int tries = r.range(1, 5); auto d = any_dataset<T>(r, n, f); int iters = r.range(1, 60); bool early = r.chance(0.5); int pat = r.range(0, 3);
    std::vector<std::vector<T>> starts; for (int t = 0; t < tries; ++t) starts.push_back(centroids(r, d, f, k)); std::string ds = "n_features=" + str(f) + " data=" + str(d) + " max_iter=" + str(iters) + " early=" + str(early) + " starts="; for (auto& s : starts) ds += str(s) + ";"; dump(ds, n > k);
    // what every attempt ends with, replayed one by one
    auto run = [&](std::vector<T> c) { A<It<T>> a(std::make_tuple(d.begin(), d.end(), f), c); std::vector<T> prev; int patience = 0; for (int i = 0; i < iters; ++i) { c = a.step(); if (early && c.size() == prev.size() && c == prev) { if (patience == pat) break; ++patience; } else patience = 0; prev = c; } return c; };
    double best = 1e300; std::vector<std::vector<T>> ends; for (auto& s : starts) { ends.push_back(run(s)); best = std::min(best, total(d, f, ends.back())); }
    size_t next = 0; auto init = [&](const auto&, const auto&, size_t, size_t kk) { if (kk != k) fail_exit("initializer called for another number of centroids"); return starts[next++]; };
    auto opt = typename ffcl::KMeans<T>::Options().max_iter(iters).early_stopping(early).patience(pat).n_init(tries);
    ffcl::KMeans<T> km(k, opt); auto c = km.template fit<A>(d.begin(), d.end(), f, init);
    EXPECT(next == (size_t)tries, "number of initial attempts is " << next << ", want " << tries);
    EXPECT(close(total(d, f, c), best, 1e-7, 1e-7), "fit returned centroids with total deviation " << total(d, f, c) << " but an attempt reached " << best);
    auto p = km.predict(d.begin(), d.end(), f); for (size_t i = 0; i < n; ++i) { double b = 1e300; for (size_t q = 0; q < k; ++q) b = std::min(b, euclid(&d[i * f], &c[q * f], f)); EXPECT(close(euclid(&d[i * f], &c[p[i] * f], f), b), "predict does not use the fitted centroids"); }
    // enough iterations: fitted centroids are the means of their clusters
    ffcl::KMeans<T> km2(k, starts[0], typename ffcl::KMeans<T>::Options().max_iter(400)); auto c2 = km2.template fit<A>(d.begin(), d.end(), f); bool dec; EXPECT((valid_step<T>(d, f, c2, c2, dec)), "after 400 iterations the centroids " << str(c2) << " are not the means of their clusters");
}
template <typename T> void plusplus(Rng& r) {
    size_t f = r.range(1, 3), n = r.range(1, 25), k = r.range(1, n); auto d = any_dataset<T>(r, n, f); std::set<std::vector<T>> rows; for (size_t i = 0; i < n; ++i) rows.insert(std::vector<T>(d.begin() + i * f, d.begin() + i * f + f));
    bool prevv = r.chance(0.3); dump("n_features=" + str(f) + " k=" + str(k) + " from_previous=" + str(prevv) + " data=" + str(d), n > 2);
    auto c = prevv ? ffcl::kmeansplusplus::make_centroids_from_previous_centroid(d.begin(), d.end(), f, k) : ffcl::kmeansplusplus::make_centroids(d.begin(), d.end(), f, k);
    EXPECT(c.size() == k * f, "k-means++ returned " << c.size() << " values"); std::set<std::vector<T>> got; for (size_t q = 0; q < k; ++q) { std::vector<T> row(c.begin() + q * f, c.begin() + q * f + f); EXPECT(rows.count(row), "initial centroid " << q << " is not a sample"); got.insert(row); }
    // exact duplicates have zero weight: while an uncovered sample remains, every draw is a new location
    if (!prevv) EXPECT(got.size() == std::min(k, rows.size()), "k-means++ drew a location twice although others had positive weight: " << got.size() << " of " << std::min(k, rows.size()));
}
int main(int c, char** v) { return run_main(c, v, {{"lloyd_double", 3, step<double, ffcl::Lloyd>}, {"hamerly_double", 4, step<double, ffcl::Hamerly>}, {"lloyd_float", 1, step<float, ffcl::Lloyd>}, {"predict_double", 3, predict<double>}, {"predict_float", 1, predict<float>}, {"fit_lloyd", 2, fit<ffcl::Lloyd>}, {"fit_hamerly", 2, fit<ffcl::Hamerly>}, {"plusplus", 2, plusplus<double>}}); }

#define KD_LIB
#include "kd.hpp"
#include "hc.hpp"
#include "ffcl/dbscan/DBSCAN.hpp"
using namespace H;
template <typename T> void db(Rng& r) {
    size_t n = r.range(1, r.chance(0.4) ? 110 : 14), f = r.range(1, 3); auto s = any_dataset<T>(r, n, f); auto idx = iota(n); if (r.chance(0.5)) r.shuffle(idx); size_t bk, dp; std::vector<size_t> mk; auto o = options<T>(r, f, bk, dp, mk);
    size_t ms = r.range(0, r.chance(0.7) ? 4 : 12); T rad; if (r.chance(0.5)) rad = (T)dist(s, r.range(0, n - 1), r.range(0, n - 1), f); else rad = (T)(std::is_integral_v<T> ? r.range(0, 30) : r.real(0, 30)); if (r.chance(0.3)) rad = rad / 2;
    dump("samples=" + str(s) + " n_features=" + str(f) + " indices=" + str(idx) + " min_samples=" + str(ms) + " radius=" + str(rad) + " bucket=" + str(bk), n > 3);
    std::vector<std::vector<size_t>> nb(n); for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) { double d = dist(s, i, j, f); if (std::is_floating_point_v<T> && i != j && close(d, rad, tol<T>(), tol<T>()) && (d != std::floor(d) || std::is_same_v<T, float> || d != (double)rad)) return; if (d < (double)rad) nb[i].push_back(j); }
    Tree<T> tree(idx.begin(), idx.end(), s.begin(), s.end(), f, o); using DB = ffcl::DBSCAN<Tree<T>>; DB db(typename DB::Options().min_samples(ms).radius(rad)); auto lab = db.predict(std::move(tree));
    EXPECT(lab.size() == n, "one label per sample"); std::vector<bool> core(n); Dsu d(n); for (size_t i = 0; i < n; ++i) core[i] = nb[i].size() > ms; for (size_t i = 0; i < n; ++i) if (core[i]) for (auto j : nb[i]) if (core[j]) d.u(i, j);
    std::map<size_t, size_t> l2c, c2l; size_t mx = 0;
    for (size_t i = 0; i < n; ++i) { mx = std::max<size_t>(mx, lab[i]); if (!core[i]) continue; EXPECT(lab[i] != 0, "dense sample " << i << " labelled as noise"); size_t c = d.f(i); EXPECT(!c2l.count(c) || c2l[c] == (size_t)lab[i], "density connected samples with different labels, sample " << i << " labels " << str(lab)); EXPECT(!l2c.count(lab[i]) || l2c[lab[i]] == c, "one label for two unconnected clusters, sample " << i); c2l[c] = lab[i]; l2c[lab[i]] = c; }
    EXPECT(mx == c2l.size(), "labels are not 1..number of clusters");
    for (size_t i = 0; i < n; ++i) if (!core[i]) { std::set<size_t> ok; for (auto j : nb[i]) if (core[j]) ok.insert(lab[j]); if (ok.empty()) EXPECT(lab[i] == 0, "isolated sample " << i << " got label " << lab[i]); else EXPECT(ok.count(lab[i]), "border sample " << i << " has label " << lab[i] << " of no adjacent dense sample"); }
}
int main(int c, char** v) { return run_main(c, v, {{"double", 4, db<double>}, {"float", 1, db<float>}, {"int", 2, db<int>}}); }

#include "common.hpp"
#include "ffcl/common/math/heuristics/Distances.hpp"
#include "ffcl/common/math/heuristics/SilhouetteMethod.hpp"
using namespace H; namespace S = ffcl::common::math::heuristics;
template <typename T, typename L> void sil(Rng& r) {
    size_t f = r.range(1, 4), n = r.range(2, 30), k = r.range(1, 6); auto d = any_dataset<T>(r, n, f); std::vector<L> lab(n); for (auto& l : lab) l = (L)r.range(0, k - 1); if (r.chance(0.2)) for (auto& l : lab) if (l == 1) l = 0; dump("n_features=" + str(f) + " labels=" + str(lab) + " data=" + str(d), k > 1);
    std::map<size_t, std::vector<size_t>> cl; for (size_t i = 0; i < n; ++i) cl[(size_t)lab[i]].push_back(i); size_t mx = cl.rbegin()->first;
    auto sz = S::get_cluster_sizes(lab.begin(), lab.end()); EXPECT(sz.size() == mx + 1, "one size per label up to the largest"); for (size_t q = 0; q <= mx; ++q) EXPECT((size_t)sz[q] == (cl.count(q) ? cl[q].size() : 0), "size of cluster " << q);
    auto coh = S::cohesion(d.begin(), d.end(), f, lab.begin(), lab.end()), sep = S::separation(d.begin(), d.end(), f, lab.begin(), lab.end()), si = S::silhouette(d.begin(), d.end(), f, lab.begin(), lab.end()); EXPECT(coh.size() == n && sep.size() == n && si.size() == n, "one score per sample"); double tot = 0, e = tol<T>() * 10;
    for (size_t i = 0; i < n; ++i) {
        double a = 0, b = std::numeric_limits<double>::infinity(); for (auto& [q, m] : cl) { double s = 0; for (auto j : m) s += dist(d, i, j, f); if (q == (size_t)lab[i]) a = m.size() > 1 ? s / (m.size() - 1) : 0; else b = std::min(b, s / m.size()); }
        EXPECT(close(coh[i], a, e, e), "mean distance of sample " << i << " to its own cluster is " << coh[i] << ", want " << a); EXPECT(close(sep[i], b, e, e), "mean distance of sample " << i << " to the nearest other cluster is " << sep[i] << ", want " << b);
        if (cl.size() > 1) { double want = cl[(size_t)lab[i]].size() == 1 ? 0 : (std::max(a, b) < 1e-7 ? 0 : (b - a) / std::max(a, b)); if (std::max(a, b) >= 1e-7) EXPECT(close(si[i], want, 100 * e, 100 * e), "silhouette of sample " << i << " is " << si[i] << ", want " << want); EXPECT(si[i] >= -1 && si[i] <= 1, "silhouette outside [-1,1]"); tot += si[i]; }
    }
    if (cl.size() > 1) EXPECT(close(S::get_average_silhouette(si.begin(), si.end()), tot / n, 1e-5, 1e-5), "average silhouette");
}
int main(int c, char** v) { return run_main(c, v, {{"double", 3, sil<double, size_t>}, {"double_int_labels", 1, sil<double, int>}, {"float", 1, sil<float, size_t>}}); }

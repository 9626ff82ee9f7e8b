#define KD_LIB
#include <filesystem>
#include <rapidjson/document.h>
#include <rapidjson/ostreamwrapper.h>
#include <rapidjson/writer.h>
#include "kd.hpp"
#include "hc.hpp"
#include "ffcl/hdbscan/HDBSCAN.hpp"
using namespace H;
namespace D = ffcl::datastruct;
using SL = D::SingleLinkageClusterTree<size_t, double>; using CT = D::CondensedClusterTree<size_t, double>;
// the dendrogram of the tree under test, in the oracle's own representation
template <typename P> int conv(const P& nd, std::vector<Nd>& v) { Nd x; if (nd->is_leaf()) x.m = {(size_t)nd->representative_}; else { x.l = conv(nd->left_, v); x.r = conv(nd->right_, v); x.lev = nd->level_; x.m = v[x.l].m; x.m.insert(x.m.end(), v[x.r].m.begin(), v[x.r].m.end()); } v.push_back(x); return (int)v.size() - 1; }
template <typename P> void unlink(const P& nd) { if (!nd) return; nd->parent_ = nullptr; unlink(nd->left_); unlink(nd->right_); }
void condensed(Rng& r) {
    size_t n = r.range(1, r.chance(0.3) ? 80 : 16); D::mst::EdgesList<size_t, double> m; auto p = subset(r, n, n); int sty = r.range(0, 2), ws = r.range(0, 2); std::string d = "n=" + str(n) + " edges=";
    for (size_t i = 1; i < n; ++i) { size_t j = sty == 0 ? r.range(0, i - 1) : sty == 1 ? i - 1 : 0; double w = ws == 0 ? r.range(1, 6) : ws == 1 ? r.real(0.1, 50) : r.chance(0.8) ? r.real(0.01, 1) : r.real(1, 10); m.push_back({p[i], p[j], w}); d += str(p[i]) + "-" + str(p[j]) + ":" + str(w) + " "; }
    size_t mcs = r.range(1, r.chance(0.7) ? 4 : 10); bool lf = r.chance(0.25), sg = r.chance(0.5); dump(d + " min_cluster_size=" + str(mcs) + " leaves=" + str(lf) + " single=" + str(sg), n > 3);
    SL t(m); auto root = t.root(); std::vector<Nd> v; conv(root, v);
    CT c(root, CT::Options().min_cluster_size(mcs).return_leaf_nodes(lf).allow_single_cluster(sg)); check_labels(c.predict(), v, mcs, lf, sg, 1e-9); unlink(root);
}
template <typename T> void hdb(Rng& r) {
    size_t n = r.range(1, r.chance(0.4) ? 90 : 16), f = r.range(1, 3); auto s = dataset<T>(r, n, f, r.chance(0.5) ? 1 : 2); auto idx = iota(n); r.shuffle(idx); size_t bk, dp; std::vector<size_t> mk; auto o = options<T>(r, f, bk, dp, mk);
    size_t mcs = r.range(1, 6); bool lf = r.chance(0.25), sg = r.chance(0.5); dump("samples=" + str(s) + " n_features=" + str(f) + " min_cluster_size=" + str(mcs) + " leaves=" + str(lf) + " single=" + str(sg), n > 3);
    std::vector<E3> all; for (size_t i = 0; i < n; ++i) for (size_t j = i + 1; j < n; ++j) all.push_back({i, j, dist(s, i, j, f)});
    std::vector<double> w; for (auto& e : all) w.push_back(e.w); std::sort(w.begin(), w.end()); for (size_t i = 1; i < w.size(); ++i) if (w[i] - w[i - 1] < 1e-4 * (w[i] + 1e-3) * (std::is_same_v<T, float> ? 1 : 1e-6) ) return;  // ties: the hierarchy is not unique
    if (!w.empty() && w[0] < 1e-9) return;
    Tree<T> tree(idx.begin(), idx.end(), s.begin(), s.end(), f, o); using HD = ffcl::HDBSCAN<Tree<T>>; HD h(typename HD::Options().k_nearest_neighbors(1).min_cluster_size(mcs).return_leaf_nodes(lf).allow_single_cluster(sg));
    auto lab = h.predict(std::move(tree)); std::vector<size_t> l2(lab.begin(), lab.end()); EXPECT(l2.size() == n, "labels"); check_labels(l2, dendrogram(n, kruskal(n, all)), mcs, lf, sg, std::is_same_v<T, float> ? 5e-3 : 1e-7);
}
int main(int c, char** v) { return run_main(c, v, {{"condensed", 3, condensed}, {"hdbscan-double", 2, hdb<double>}, {"hdbscan-float", 1, hdb<float>}}); }

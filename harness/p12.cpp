#include "common.hpp"
#include "hc.hpp"
#include <filesystem>
#include <rapidjson/document.h>
#include <rapidjson/ostreamwrapper.h>
#include <rapidjson/writer.h>
#include "ffcl/datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterTree.hpp"
using namespace H;
using T = double; using SL = ffcl::datastruct::SingleLinkageClusterTree<size_t, T>;
// random tree over n samples
inline std::vector<E3> rtree(Rng& r, size_t n, bool positive) { std::vector<E3> e; auto p = subset(r, n, n); int sty = r.range(0, 2), ws = r.range(0, 3); for (size_t i = 1; i < n; ++i) { size_t j = sty == 0 ? r.range(0, i - 1) : sty == 1 ? i - 1 : 0; double w = ws == 0 ? r.range(positive ? 1 : 0, 6) : ws == 1 ? r.real(0.1, 50) : ws == 2 ? (double)(1 + i % 9) : 1 + 1e-9 * r.range(0, 30); size_t a = p[i], b = p[j]; if (r.chance(0.5)) std::swap(a, b); e.push_back({a, b, w}); } r.shuffle(e); return e; }
struct Walk { std::vector<std::pair<std::set<size_t>, double>> nodes; };
template <typename P> std::set<size_t> walk(const P& nd, size_t n, Walk& w, const P& parent) {
    EXPECT(nd != nullptr, "null node"); EXPECT(nd->parent_ == parent, "parent link"); std::set<size_t> m;
    if (nd->is_leaf()) { EXPECT(nd->size() == 1 && nd->level_ == 0 && nd->representative_ < n, "leaf"); m.insert(nd->representative_); }
    else { auto a = walk(nd->left_, n, w, nd), b = walk(nd->right_, n, w, nd); EXPECT(nd->left_->level_ <= nd->level_ && nd->right_->level_ <= nd->level_, "levels decrease towards the leaves"); m = a; for (auto x : b) EXPECT(m.insert(x).second, "sample under both children"); EXPECT(nd->size() == m.size(), "cluster size " << nd->size() << " expected " << m.size()); EXPECT(m.count(nd->representative_), "representative is not a member"); w.nodes.push_back({m, nd->level_}); }
    return m;
}
template <typename P> void unlink(const P& nd) { if (!nd) return; nd->parent_ = nullptr; unlink(nd->left_); unlink(nd->right_); }
void slink(Rng& r) {
    size_t n = r.range(1, r.chance(0.3) ? 80 : 12); auto e = rtree(r, n, false); std::string d = "n=" + str(n) + " edges="; ffcl::datastruct::mst::EdgesList<size_t, T> m; for (auto& x : e) { m.push_back({x.a, x.b, x.w}); d += str(x.a) + "-" + str(x.b) + ":" + str(x.w) + " "; }
    std::vector<double> cuts{0.0, std::numeric_limits<double>::infinity()}; for (int i = 0; i < 4; ++i) cuts.push_back(e.empty() ? 1.0 : r.pick(e).w + (r.chance(0.3) ? 0.25 : 0)); size_t mcs = r.chance(0.5) ? 1 : r.range(1, 6);
    dump(d + "min_cluster_size=" + str(mcs), n > 2);
    auto mm = m; SL t = r.chance(0.5) ? SL(m) : SL(std::move(mm));
    Walk w; auto root = t.root(); auto all = walk(root, n, w, decltype(root)(nullptr)); EXPECT(all.size() == n, "the root covers every sample"); EXPECT(w.nodes.size() == n - 1, "number of merges");
    std::sort(e.begin(), e.end(), [](auto& a, auto& b) { return a.w < b.w; });
    std::vector<double> lv; for (auto& x : w.nodes) lv.push_back(x.second); std::sort(lv.begin(), lv.end()); for (size_t i = 0; i < lv.size(); ++i) EXPECT(lv[i] == e[i].w, "levels are the edge weights");
    // a node at level L is a component of the edges of weight at most L (or, under ties, part of one and more than one below L)
    for (auto& [s, L] : w.nodes) { Dsu du(n), lo(n); for (auto& x : e) { if (x.w <= L) du.u(x.a, x.b); if (x.w < L) lo.u(x.a, x.b); } size_t c = du.f(*s.begin()); std::set<size_t> lows; for (auto x : s) { EXPECT(du.f(x) == c, "node at level " << L << " joins samples that are not connected at that level"); lows.insert(lo.f(x)); } for (size_t i = 0; i < n; ++i) if (lows.count(lo.f(i))) EXPECT(s.count(i), "node at level " << L << " splits a component"); EXPECT(lows.size() >= 2 , "node at level " << L << " does not merge two components"); }
    for (double c : cuts) {
        t.set_options(SL::Options().cut_level(c).min_cluster_size(mcs)); g_dump += " cut=" + str(c); auto lab = t.predict(); EXPECT(lab.size() == n, "labels"); if (c > 1e300) { for (auto x : lab) EXPECT(x == lab[0], "no cut: a single cluster"); continue; }
        Dsu du(n); for (auto& x : e) if (x.w < c) du.u(x.a, x.b); std::map<size_t, size_t> sz; for (size_t i = 0; i < n; ++i) ++sz[du.f(i)];
        for (size_t i = 0; i < n; ++i) { if (n > 1 && sz[du.f(i)] < mcs) { EXPECT(lab[i] == 0 || sz[du.f(i)] == n, "sample " << i << " of a too small cluster is not noise"); continue; } for (size_t j = 0; j < i; ++j) if (sz[du.f(j)] >= mcs) EXPECT((lab[i] == lab[j]) == (du.f(i) == du.f(j)), "samples " << i << "," << j << " cut at " << c << " labels " << str(lab)); }
    }
    unlink(root);
}
int main(int c, char** v) { return run_main(c, v, {{"slink", 1, slink}}); }

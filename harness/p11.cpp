#define KD_LIB
#include "kd.hpp"
#include "hc.hpp"
#include "ffcl/datastruct/graph/spanning_tree/BoruvkasAlgorithm.hpp"
using namespace H;
template <typename T, int Mode> void mst(Rng& r) {  // Mode 0: plain, 1: dual tree, 2: mutual reachability
    size_t n = r.range(1, r.chance(0.3) ? 120 : 14), f = r.range(1, 4); auto s = any_dataset<T>(r, n, f); auto idx = subset(r, n, n); if (r.chance(0.5)) idx = iota(n);
    size_t k = Mode == 2 ? r.range(2, 8) : r.range(0, 1), bk, dp; if (Mode == 1) k = 1; std::vector<size_t> mk; auto o = options<T>(r, f, bk, dp, mk);
    dump("samples=" + str(s) + " n_features=" + str(f) + " indices=" + str(idx) + " k=" + str(k) + " bucket=" + str(bk), n > 2);
    Tree<T> tree(idx.begin(), idx.end(), s.begin(), s.end(), f, o); using B = ffcl::BoruvkasAlgorithm<Tree<T>>; B algo{typename B::Options().k_nearest_neighbors(k)};
    using EL = decltype(algo.make_tree(std::move(tree))); EL out; if constexpr (Mode == 1) out = algo.make_tree_2(std::move(tree)); else out = algo.make_tree(std::move(tree));
    EXPECT(out.size() == n - 1, "number of edges " << out.size()); Dsu d(n); double sum = 0, t = tol<T>(); std::vector<double> core(n, 0), ws;
    if (Mode == 2) for (size_t i = 0; i < n; ++i) { std::vector<double> x; for (size_t j = 0; j < n; ++j) x.push_back(dist(s, i, j, f)); std::sort(x.begin(), x.end()); core[i] = x[std::min(k, n) - 1]; }
    auto w = [&](size_t i, size_t j) { return Mode == 2 ? std::max({core[i], core[j], dist(s, i, j, f)}) : dist(s, i, j, f); };
    for (auto& e : out) { size_t a = std::get<0>(e), b = std::get<1>(e); EXPECT(a < n && b < n, "edge out of range"); EXPECT(d.u(a, b), "edge " << a << "-" << b << " closes a cycle"); EXPECT(close(std::get<2>(e), w(a, b), t, t), "weight of edge " << a << "-" << b << " is " << std::get<2>(e) << " expected " << w(a, b)); sum += std::get<2>(e); ws.push_back(std::get<2>(e)); }
    std::vector<E3> all; for (size_t i = 0; i < n; ++i) for (size_t j = i + 1; j < n; ++j) all.push_back({i, j, w(i, j)});
    auto ref = kruskal(n, all); std::sort(ws.begin(), ws.end()); for (size_t i = 0; i < ref.size(); ++i) EXPECT(close(ws[i], ref[i].w, t, t), "sorted edge weight " << i << " is " << ws[i] << ", a minimum spanning tree has " << ref[i].w);
}
void sorts(Rng& r) { size_t n = r.range(0, 20); ffcl::datastruct::mst::EdgesList<size_t, double> e; for (size_t i = 0; i < n; ++i) e.push_back({r.range(0, 9), r.range(0, 9), (double)r.range(0, 6)}); dump("edges=" + str(n), n > 2);
    auto c = ffcl::datastruct::mst::sort_copy(e); auto e2 = e; auto m = ffcl::datastruct::mst::sort(std::move(e2)); auto a = e; std::sort(a.begin(), a.end());
    for (auto* x : {&c, &m}) { for (size_t i = 1; i < n; ++i) EXPECT(std::get<2>((*x)[i - 1]) <= std::get<2>((*x)[i]), "edges sorted"); auto y = *x; std::sort(y.begin(), y.end()); EXPECT(y == a, "same edges"); } }
int main(int c, char** v) { return run_main(c, v, {{"mst-double", 3, mst<double, 0>}, {"mst-float", 1, mst<float, 0>}, {"dual-double", 2, mst<double, 1>}, {"mutual-double", 2, mst<double, 2>}, {"mutual-float", 1, mst<float, 2>}, {"sort", 1, sorts}}); }

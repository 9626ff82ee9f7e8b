#define KD_LIB
#include "kd.hpp"
#include "ffcl/search/ClosestPairOfSamples.hpp"
using namespace H;
namespace A = ffcl::search::algorithms;
template <typename T> struct In { std::vector<T> s; size_t N, f; std::vector<size_t> a, b; };
template <typename T> void make(Rng& r, In<T>& in, bool overlap) {
    in.N = r.range(2, r.chance(0.4) ? 120 : 14); in.f = r.range(1, 4); in.s = any_dataset<T>(r, in.N, in.f);
    auto p = subset(r, in.N, in.N); size_t na = r.range(1, in.N - 1), nb = r.chance(0.5) ? in.N - na : (size_t)r.range(1, in.N - na);
    in.a.assign(p.begin(), p.begin() + na); in.b.assign(p.begin() + na, p.begin() + na + nb);
    if (overlap && r.chance(0.5)) { in.b = subset(r, in.N, r.range(1, in.N)); }
    dump("samples=" + str(in.s) + " n_features=" + str(in.f) + " A=" + str(in.a) + " B=" + str(in.b));
}
template <typename T> std::vector<double> all(const In<T>& in) { std::vector<double> d; for (auto i : in.a) for (auto j : in.b) d.push_back(dist(in.s, i, j, in.f)); std::sort(d.begin(), d.end()); return d; }
template <typename T, typename E> void verify(const In<T>& in, const E& e, double want, const char* w) {
    EXPECT(std::count(in.a.begin(), in.a.end(), std::get<0>(e)) && std::count(in.b.begin(), in.b.end(), std::get<1>(e)), w << ": edge endpoints not in the sets " << std::get<0>(e) << "," << std::get<1>(e) << " expected distance " << want << " got " << std::get<2>(e));
    EXPECT(close(std::get<2>(e), dist(in.s, std::get<0>(e), std::get<1>(e), in.f), tol<T>(), tol<T>()), w << ": edge length is not the distance of its endpoints");
    EXPECT(close(std::get<2>(e), want, tol<T>(), tol<T>()), w << ": got " << std::get<2>(e) << " expected " << want);
}
template <typename T> void trees(Rng& r) {
    In<T> in; make(r, in, true); auto a = in.a, b = in.b; size_t bk, dp; std::vector<size_t> mk;
    Tree<T> q(a.begin(), a.end(), in.s.begin(), in.s.end(), in.f, options<T>(r, in.f, bk, dp, mk)), ref(b.begin(), b.end(), in.s.begin(), in.s.end(), in.f, options<T>(r, in.f, bk, dp, mk));
    auto d = all(in);
    ffcl::search::Searcher searcher(std::move(ref));
    size_t k = r.chance(0.5) ? 1 : (size_t)r.range(1, (long long)(r.chance(0.7) ? in.b.size() : std::min<size_t>(d.size(), 3 * in.b.size()))); g_dump += " k=" + str(k);
    verify(in, searcher.dual_tree_shortest_edge(q, (size_t)k), d[k - 1], "dual tree");
}
template <typename T> void sets(Rng& r) {
    In<T> in; make(r, in, false); auto d = all(in); double pos = -1; for (auto x : d) if (x > 0) { pos = x; break; }
    if (pos >= 0) { auto a = in.a, b = in.b; verify(in, A::simple_dual_set_shortest_edge(a.begin(), a.end(), in.s.begin(), in.s.end(), in.f, b.begin(), b.end(), in.s.begin(), in.s.end(), in.f), pos, "brute force"); }
    ffcl::datastruct::UnionFind<size_t> uf(in.N);
    for (size_t i = 1; i < in.a.size(); ++i) uf.merge(in.a[0], in.a[i]);
    // the whole data set is the reference; only samples of other components qualify
    auto idx = iota(in.N); auto bb = in.b; in.b.clear(); for (size_t i = 0; i < in.N; ++i) if (!std::count(in.a.begin(), in.a.end(), i)) in.b.push_back(i);
    auto d2 = all(in); auto a = in.a;
    { Tree<T> ref(idx.begin(), idx.end(), in.s.begin(), in.s.end(), in.f, typename Tree<T>::Options().bucket_size(r.range(1, 20))); auto a2 = in.a; Tree<T> q(a2.begin(), a2.end(), in.s.begin(), in.s.end(), in.f, typename Tree<T>::Options().bucket_size(r.range(1, 20)));
      ffcl::search::Searcher se(std::move(ref)); verify(in, se.dual_tree_shortest_edge(q, uf, uf.find(in.a[0]), (size_t)1), d2[0], "dual tree across components"); }
}
int main(int c, char** v) { return run_main(c, v, {{"trees-double", 4, trees<double>}, {"trees-float", 1, trees<float>}, {"sets-double", 3, sets<double>}, {"sets-float", 1, sets<float>}}); }

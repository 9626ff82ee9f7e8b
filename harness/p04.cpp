#include "kd.hpp"
using namespace H;
namespace B = ffcl::search::buffer;
template <typename T> std::vector<double> brute(const KdIn<T>& in, const std::vector<T>& q, const std::set<size_t>& excl = {}) {
    std::vector<double> d;
    for (auto i : in.idx0) if (!excl.count(i)) d.push_back(metric(&in.s[i * in.f], q.data(), in.f));
    std::sort(d.begin(), d.end());
    return d;
}
template <typename T, typename Buf> void check(const KdIn<T>& in, const std::vector<T>& q, size_t k, Buf& b, const std::set<size_t>& excl = {}) {
    auto idx = b.indices(); auto dis = b.distances();
    auto ref = brute(in, q, excl);
    EXPECT(idx.size() == dis.size(), "sizes");
    EXPECT(idx.size() == std::min(k, ref.size()), "returned " << idx.size() << " of " << std::min(k, ref.size()));
    std::set<size_t> u(idx.begin(), idx.end()), all(in.idx0.begin(), in.idx0.end());
    EXPECT(u.size() == idx.size(), "duplicated neighbor " << str(idx));
    double t = tol<T>();
    for (size_t i = 0; i < idx.size(); ++i) {
        EXPECT(all.count(idx[i]) && !excl.count(idx[i]), "foreign index " << idx[i]);
        EXPECT(close(dis[i], metric(&in.s[idx[i] * in.f], q.data(), in.f), t, t), "wrong distance for " << idx[i] << ": " << dis[i]);
    }
    auto sd = std::vector<double>(dis.begin(), dis.end()); std::sort(sd.begin(), sd.end());
    for (size_t i = 0; i < sd.size(); ++i) EXPECT(close(sd[i], ref[i], t, t), "neighbor " << i << " at " << sd[i] << " but the true one is at " << ref[i]);
    if (!sd.empty()) {
        EXPECT(close(b.closest_distance(), sd.front(), t, t), "closest_distance");
        EXPECT(close(b.furthest_distance(), sd.back(), t, t), "furthest_distance");
        EXPECT(close(metric(&in.s[b.closest_index() * in.f], q.data(), in.f), sd.front(), t, t), "closest_index");
        EXPECT(close(metric(&in.s[b.furthest_index() * in.f], q.data(), in.f), sd.back(), t, t), "furthest_index");
    }
}
template <typename T> void knn(Rng& r) {
    KdIn<T> in; kd_make(r, in);
    ffcl::search::Searcher searcher(*in.tree);
    for (int rep = 0; rep < 4; ++rep) {
        std::vector<T> q(in.f);
        if (r.chance(0.5)) { size_t i = r.range(0, in.N - 1); std::copy_n(&in.s[i * in.f], in.f, q.begin()); }
        else { q = any_dataset<T>(r, 1, in.f); }
        size_t k = r.chance(0.1) ? in.N + 3 : r.range(1, std::min<size_t>(in.N, 8));
        g_dump += " | query=" + str(q) + " k=" + str(k);
        auto b = searcher(B::Unsorted(q.begin(), q.end(), k));
        check(in, q, k, b);
        if (r.chance(0.3)) { auto u = searcher(B::Unsorted(q.begin(), q.end())); check(in, q, in.N + 1, u); }
    }
}
template <typename T> void batch(Rng& r) {
    KdIn<T> in; kd_make(r, in, 60);
    ffcl::search::Searcher searcher(*in.tree);
    size_t k = r.range(1, 5), nq = r.range(1, in.N);
    g_dump += " | batch k=" + str(k) + " nq=" + str(nq);
    using Buf = B::Unsorted<SmpIt<T>>;
    std::vector<Buf> v;
    for (size_t i = 0; i < nq; ++i) v.emplace_back(in.s.begin() + i * in.f, in.s.begin() + (i + 1) * in.f, k);
    auto res = searcher(std::move(v));
    EXPECT(res.size() == nq, "batch size");
    for (size_t i = 0; i < nq; ++i) { std::vector<T> q(in.s.begin() + i * in.f, in.s.begin() + (i + 1) * in.f); check(in, q, k, res[i]); }
}
#ifndef KD_LIB
int main(int c, char** v) { return run_main(c, v, {{"knn-double", 4, knn<double>}, {"knn-float", 1, knn<float>}, {"knn-int", 3, knn<int>}, {"knn-unsigned", 1, knn<unsigned>}, {"batch-double", 1, batch<double>}}); }
#endif

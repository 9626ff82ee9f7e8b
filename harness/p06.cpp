#define KD_LIB
#include "kd.hpp"
#include "p04.cpp"
#include "ffcl/datastruct/UnionFind.hpp"
template <typename T> void memory(Rng& r) {
    KdIn<T> in; kd_make(r, in);
    ffcl::search::Searcher searcher(*in.tree);
    for (int rep = 0; rep < 3; ++rep) {
        std::vector<T> q(in.f);
        size_t qi = r.range(0, in.N - 1);
        if (r.chance(0.7)) std::copy_n(&in.s[qi * in.f], in.f, q.begin()); else q = any_dataset<T>(r, 1, in.f);
        size_t k = r.range(1, std::min<size_t>(in.N, 8));
        std::unordered_set<size_t> ex;
        if (r.chance(0.5)) ex.insert(qi);
        size_t m = r.range(0, in.N / 2); for (size_t i = 0; i < m; ++i) ex.insert(r.range(0, in.N - 1));
        std::set<size_t> exs(ex.begin(), ex.end());
        g_dump += " | query=" + str(q) + " k=" + str(k) + " excluded=" + str(std::vector<size_t>(exs.begin(), exs.end()));
        { using Buf = B::WithMemory<SmpIt<T>>; Buf b(q.begin(), q.end(), ex, k); auto res = searcher(std::move(b)); check(in, q, k, res, exs); }
        { auto copy = ex; using Buf = B::WithMemory<SmpIt<T>>; auto res = searcher(Buf(q.begin(), q.end(), std::move(copy), k)); check(in, q, k, res, exs); }
        { using Buf = B::WithMemory<SmpIt<T>>; auto res = searcher(Buf(q.begin(), q.end(), ex.begin(), ex.end(), k)); check(in, q, k, res, exs); }
        { using Buf = B::WithMemory<SmpIt<T>>; auto res = searcher(Buf(q.begin(), q.end(), k)); check(in, q, k, res); }
    }
}
template <typename T> void unionfind(Rng& r) {
    KdIn<T> in; kd_make(r, in);
    ffcl::search::Searcher searcher(*in.tree);
    ffcl::datastruct::UnionFind<size_t> uf(in.N);
    std::vector<size_t> lab = iota(in.N);
    size_t merges = r.range(0, in.N); std::ostringstream os;
    for (size_t i = 0; i < merges; ++i) { size_t a = r.range(0, in.N - 1), b = r.range(0, in.N - 1); uf.merge(a, b); os << a << "-" << b << ","; size_t la = lab[a], lb = lab[b]; for (auto& x : lab) if (x == lb) x = la; }
    g_dump += " | merges=" + os.str();
    for (int rep = 0; rep < 3; ++rep) {
        size_t qi = r.range(0, in.N - 1);
        std::vector<T> q(&in.s[qi * in.f], &in.s[qi * in.f] + in.f);
        size_t k = r.range(1, std::min<size_t>(in.N, 6));
        std::set<size_t> ex; for (size_t i = 0; i < in.N; ++i) if (lab[i] == lab[qi]) ex.insert(i);
        g_dump += " | query index=" + str(qi) + " k=" + str(k);
        using Buf = B::WithUnionFind<SmpIt<T>>;
        auto res = searcher(Buf(q.begin(), q.end(), uf, r.chance(0.5) ? uf.find(qi) : qi, k));
        check(in, q, k, res, ex);
    }
}
int main(int c, char** v) { return run_main(c, v, {{"memory-double", 3, memory<double>}, {"memory-int", 2, memory<int>}, {"unionfind-double", 3, unionfind<double>}, {"unionfind-float", 1, unionfind<float>}}); }

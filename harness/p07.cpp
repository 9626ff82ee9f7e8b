#include "kd.hpp"
using namespace H;
namespace B = ffcl::search::buffer;
template <typename T> void updates(Rng& r) {
    std::vector<T> q(2, T(0));
    size_t cap = r.chance(0.15) ? std::numeric_limits<size_t>::max() : r.range(1, 7), n = r.range(0, 40);
    if (r.chance(0.02)) { cap = r.range(33, 150); n = r.range(0, 400); }
    using Buf = B::Unsorted<SmpIt<T>>;
    Buf b = cap == std::numeric_limits<size_t>::max() ? Buf(q.begin(), q.end()) : Buf(q.begin(), q.end(), cap);
    std::vector<std::pair<T, size_t>> offered; std::ostringstream os;
    int style = r.range(0, 3);
    EXPECT(b.empty() && b.size() == 0, "fresh buffer is not empty");
    for (size_t i = 0; i < n; ++i) {
        T d = style == 0 ? (T)r.range(0, 4) : style == 1 ? (T)r.real(0, 100) : style == 2 ? (T)(n - i) : (T)i;
        os << +d << ",";
        b.update(i, d);
        offered.push_back({d, i});
        g_dump = "capacity=" + str(cap) + " offered distances=" + os.str();
        auto s = offered; std::stable_sort(s.begin(), s.end(), [](auto& x, auto& y) { return x.first < y.first; });
        size_t m = std::min(cap, s.size());
        auto idx = b.indices(); auto dis = b.distances();
        EXPECT(idx.size() == m && dis.size() == m && b.size() == m, "size " << idx.size() << " expected " << m);
        EXPECT(b.remaining_capacity() == cap - m, "remaining capacity");
        std::set<size_t> u(idx.begin(), idx.end()); EXPECT(u.size() == m, "duplicate index");
        std::vector<T> sd = dis; std::sort(sd.begin(), sd.end());
        for (size_t j = 0; j < m; ++j) EXPECT(sd[j] == s[j].first, "kept distances are not the smallest offered");
        for (size_t j = 0; j < m; ++j) EXPECT(offered[idx[j]].first == dis[j], "index and distance do not belong together");
        EXPECT(b.closest_distance() == s[0].first && offered[b.closest_index()].first == s[0].first && u.count(b.closest_index()), "closest");
        EXPECT(b.furthest_distance() == s[m - 1].first && offered[b.furthest_index()].first == s[m - 1].first && u.count(b.furthest_index()), "furthest");
        EXPECT(std::equal(idx.begin(), idx.end(), b.indices_const_ref().begin()) && std::equal(dis.begin(), dis.end(), b.distances_const_ref().begin()), "const ref");
    }
    dump(g_dump, n > 2);
}
int main(int c, char** v) { return run_main(c, v, {{"double", 2, updates<double>}, {"float", 1, updates<float>}, {"int", 2, updates<int>}}); }

#include "common.hpp"
#include "ffcl/common/algorithms/Sorting.hpp"
using namespace H;
namespace A = ffcl::common::algorithms;

template <typename T> struct In { std::vector<T> s; std::vector<size_t> idx; size_t n, f, feat; };
template <typename T> In<T> make(Rng& r, size_t lo) {
    In<T> in;
    size_t m = (size_t)r.range(std::max<size_t>(lo, 1), r.chance(0.25) ? 120 : 9);
    size_t N = r.chance(0.5) ? m : m + r.range(0, 10);
    in.f    = r.range(1, 4);
    in.feat = r.range(0, in.f - 1);
    in.s    = any_dataset<T>(r, N, in.f);
    if (std::is_floating_point_v<T> && r.chance(0.08)) for (auto& x : in.s) x *= (T)1e-20;
    in.idx  = r.chance(0.3) ? iota(m) : subset(r, N, m);
    in.n    = m;
    dump("samples=" + str(in.s) + " n_features=" + str(in.f) + " feature=" + str(in.feat) + " indices=" + str(in.idx), m > 2);
    return in;
}
template <typename T> T key(const In<T>& in, size_t i) { return in.s[i * in.f + in.feat]; }
template <typename T> void perm(const In<T>& in, const std::vector<size_t>& out, const std::vector<size_t>& guard) {
    auto a = in.idx, b = out;
    std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
    EXPECT(a == b, "indices are not a permutation of the input: " << str(out));
    (void)guard;
}
template <typename T> void med3(Rng& r) {
    auto   in = make<T>(r, 1);
    auto   o  = in.idx;
    size_t m  = A::median_index_of_three(o.begin(), o.end(), in.s.begin(), in.s.end(), in.f, in.feat);
    EXPECT(o == in.idx, "median of three modified its input");
    EXPECT(m < in.n, m);
    if (in.n >= 3) {
        size_t c[3] = {0, (in.n - 1) / 2, in.n - 1};
        T k[3] = {key(in, o[c[0]]), key(in, o[c[1]]), key(in, o[c[2]])};
        std::sort(k, k + 3);
        EXPECT(m == c[0] || m == c[1] || m == c[2], "not one of the three candidates: " << m);
        EXPECT(key(in, o[m]) == k[1], "not the median value: position " << m);
    }
}
template <typename T> void part(Rng& r) {
    auto   in = make<T>(r, 1);
    auto   o  = in.idx;
    size_t p  = r.range(0, in.n - 1);
    g_dump += " pivot=" + str(p);
    size_t pid = o[p];
    size_t q  = A::partition_around_pivot_index(o.begin(), o.end(), in.s.begin(), in.s.end(), in.f, p, in.feat);
    perm(in, o, o);
    EXPECT(q < in.n, q);
    EXPECT(o[q] == pid, "returned position does not hold the pivot: " << q);
    for (size_t i = 0; i < q; ++i) EXPECT(!(key(in, o[q]) < key(in, o[i])), "left element " << i << " above pivot at " << q << " out=" << str(o));
    for (size_t i = q + 1; i < in.n; ++i) EXPECT(!(key(in, o[i]) < key(in, o[q])), "right element " << i << " below pivot at " << q << " out=" << str(o));
}
template <typename T> void qsel(Rng& r) {
    auto   in = make<T>(r, 1);
    auto   o  = in.idx;
    size_t k  = r.range(0, in.n - 1);
    g_dump += " k=" + str(k);
    auto [b, e] = A::quickselect(o.begin(), o.end(), in.s.begin(), in.s.end(), in.f, k, in.feat);
    perm(in, o, o);
    EXPECT(b == o.begin() + k && e == b + 1, "range does not denote position k: " << (b - o.begin()) << "," << (e - o.begin()));
    std::vector<T> ks; for (auto i : in.idx) ks.push_back(key(in, i));
    std::sort(ks.begin(), ks.end());
    EXPECT(key(in, o[k]) == ks[k], "not the kth smallest");
    for (size_t i = 0; i < k; ++i) EXPECT(!(key(in, o[k]) < key(in, o[i])), i);
    for (size_t i = k + 1; i < in.n; ++i) EXPECT(!(key(in, o[i]) < key(in, o[k])), i);
}
template <typename T> void qsort_(Rng& r) {
    auto   in = make<T>(r, 1);
    auto   o  = in.idx;
    size_t p  = r.range(0, in.n - 1);
    if (r.chance(0.03)) { std::vector<size_t> e; EXPECT(A::quicksort(e.begin(), e.end(), in.s.begin(), in.s.end(), in.f, 0, in.feat) == 0, "empty"); }
    g_dump += " pivot=" + str(p);
    size_t pid = o[p];
    size_t q = A::quicksort(o.begin(), o.end(), in.s.begin(), in.s.end(), in.f, p, in.feat);
    perm(in, o, o);
    for (size_t i = 1; i < in.n; ++i) EXPECT(!(key(in, o[i]) < key(in, o[i - 1])), "not sorted at " << i << " out=" << str(o));
    EXPECT(q < in.n && o[q] == pid, "returned position is not where the pivot ended: " << q);
}
int main(int c, char** v) {
    return run_main(c, v, {{"median3-double", 1, med3<double>}, {"median3-int", 1, med3<int>}, {"partition-double", 3, part<double>}, {"partition-int", 3, part<int>}, {"partition-float", 1, part<float>}, {"partition-unsigned", 1, part<unsigned>},
                           {"quickselect-double", 2, qsel<double>}, {"quickselect-int", 2, qsel<int>}, {"quickselect-float", 1, qsel<float>}, {"quicksort-double", 2, qsort_<double>}, {"quicksort-int", 2, qsort_<int>}, {"quicksort-unsigned", 1, qsort_<unsigned>}});
}

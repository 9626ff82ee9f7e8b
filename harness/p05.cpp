#define KD_LIB
#include "kd.hpp"
#include "ffcl/datastruct/bounds/Ball.hpp"
#include "ffcl/datastruct/bounds/AABBWithCentroid.hpp"
#include "ffcl/datastruct/bounds/segment/LowerBoundAndLength.hpp"
using namespace H;
namespace B = ffcl::search::buffer;
namespace BD = ffcl::datastruct::bounds;
template <typename T, typename Buf> void verify(const KdIn<T>& in, Buf& b, const std::vector<std::pair<double, size_t>>& inside, size_t cap, const std::vector<std::pair<double, size_t>>& maybe = {}) {
    auto idx = b.indices(); auto dis = b.distances();
    double t = tol<T>();
    EXPECT(idx.size() == dis.size(), "sizes");
    std::set<size_t> u(idx.begin(), idx.end()), in_set, may_set;
    for (auto& p : inside) in_set.insert(p.second);
    for (auto& p : maybe) may_set.insert(p.second);
    EXPECT(u.size() == idx.size(), "duplicates " << str(idx));
    std::map<size_t, double> dd; for (auto& p : inside) dd[p.second] = p.first; for (auto& p : maybe) dd[p.second] = p.first;
    for (size_t i = 0; i < idx.size(); ++i) {
        EXPECT(in_set.count(idx[i]) || may_set.count(idx[i]), "sample " << idx[i] << " is outside of the range");
        EXPECT(close(dis[i], dd[idx[i]], t, t), "distance of " << idx[i]);
    }
    if (cap >= inside.size() + maybe.size()) for (auto& p : inside) EXPECT(u.count(p.second), "sample " << p.second << " within the range is missing");
    else if (maybe.empty()) {
        auto s = inside; std::sort(s.begin(), s.end());
        EXPECT(idx.size() == std::min(cap, s.size()), "size " << idx.size());
        std::vector<double> sd(dis.begin(), dis.end()); std::sort(sd.begin(), sd.end());
        for (size_t i = 0; i < sd.size(); ++i) EXPECT(close(sd[i], s[i].first, t, t), "not the closest ones");
    }
}
template <typename T> void ball(Rng& r) {
    KdIn<T> in; kd_make(r, in);
    ffcl::search::Searcher searcher(*in.tree);
    for (int rep = 0; rep < 4; ++rep) {
        std::vector<T> q(in.f);
        if (r.chance(0.5)) { size_t i = r.range(0, in.N - 1); std::copy_n(&in.s[i * in.f], in.f, q.begin()); } else q = any_dataset<T>(r, 1, in.f);
        T rad;
        if (r.chance(0.5)) { size_t i = r.pick(in.idx0); rad = (T)metric(&in.s[i * in.f], q.data(), in.f); if (r.chance(0.5)) rad = rad + (T)1; } else rad = (T)r.range(0, 60);
        bool bounded = r.chance(0.3); size_t cap = bounded ? r.range(1, 6) : std::numeric_limits<size_t>::max();
        g_dump += " | center=" + str(q) + " radius=" + str(rad) + " cap=" + str(cap);
        std::vector<std::pair<double, size_t>> inside, maybe;
        for (auto i : in.idx0) {
            double d = metric(&in.s[i * in.f], q.data(), in.f);
            // an open ball; a distance that rounds to the radius may fall on either side for floating point features
            if (std::is_floating_point_v<T> && close(d, rad, tol<T>(), tol<T>()) && (d != std::floor(d) || std::is_same_v<T, float>)) maybe.push_back({d, i});
            else if (d < (double)rad) inside.push_back({d, i});
        }
        auto view = BD::BallView(q.begin(), q.end(), rad);
        if (bounded) { auto b = searcher(B::Unsorted(BD::BallView(view), cap)); verify(in, b, inside, cap, maybe); }
        else { auto b = searcher(B::Unsorted(BD::BallView(view))); verify(in, b, inside, cap, maybe); }
        if (bounded) { auto b = searcher(B::Unsorted(BD::Ball<T>(q, rad), cap)); verify(in, b, inside, cap, maybe); }
        else { auto b = searcher(B::Unsorted(BD::Ball<T>(q, rad))); verify(in, b, inside, cap, maybe); }
    }
}
template <typename T, typename Seg, bool Len> void box_(Rng& r) {
    KdIn<T> in; kd_make(r, in);
    ffcl::search::Searcher searcher(*in.tree);
    for (int rep = 0; rep < 4; ++rep) {
        std::vector<Seg> segs; std::vector<T> lo(in.f), hi(in.f);
        for (size_t k = 0; k < in.f; ++k) {
            size_t i = r.pick(in.idx0);
            T a = in.s[i * in.f + k], b = r.chance(0.5) ? in.s[r.pick(in.idx0) * in.f + k] : (T)(a + (T)r.range(0, 40));
            lo[k] = std::min(a, b); hi[k] = std::max(a, b);
            if constexpr (Len) { T len = hi[k] - lo[k]; if (std::is_integral_v<T>) len = len + 1; segs.push_back(Seg(lo[k], len)); if (std::is_floating_point_v<T>) hi[k] = lo[k] + len; }
            else segs.push_back(Seg(lo[k], hi[k]));
        }
        BD::AABBWithCentroid<Seg> box{ffcl::datastruct::FeaturesVector<Seg, 0>(segs)};
        std::vector<T> c(box.centroid_begin(), box.centroid_end());
        bool bounded = r.chance(0.3); size_t cap = bounded ? r.range(1, 6) : std::numeric_limits<size_t>::max();
        g_dump += " | box lo=" + str(lo) + " hi=" + str(hi) + " cap=" + str(cap);
        for (size_t k = 0; k < in.f; ++k) EXPECT(lo[k] <= c[k] && c[k] <= hi[k], "box center outside the box");
        std::vector<std::pair<double, size_t>> inside;
        for (auto i : in.idx0) {
            bool ok = true;
            for (size_t k = 0; k < in.f; ++k) ok = ok && lo[k] <= in.s[i * in.f + k] && in.s[i * in.f + k] <= hi[k];
            if (ok) inside.push_back({metric(&in.s[i * in.f], c.data(), in.f), i});
        }
        if (bounded) { auto b = searcher(B::Unsorted(BD::AABBWithCentroid<Seg>(box), cap)); verify(in, b, inside, cap); }
        else { auto b = searcher(B::Unsorted(BD::AABBWithCentroid<Seg>(box))); verify(in, b, inside, cap); }
    }
}
template <typename T> void box_u(Rng& r) { box_<T, BD::segment::LowerBoundAndUpperBound<T>, false>(r); }
template <typename T> void box_l(Rng& r) { box_<T, BD::segment::LowerBoundAndLength<T>, true>(r); }
int main(int c, char** v) { return run_main(c, v, {{"ball-double", 4, ball<double>}, {"ball-float", 1, ball<float>}, {"ball-int", 3, ball<int>}, {"box-double", 3, box_u<double>}, {"box-int", 2, box_u<int>}, {"box-length-double", 1, box_l<double>}, {"box-length-int", 1, box_l<int>}, {"box-float", 1, box_u<float>}}); }

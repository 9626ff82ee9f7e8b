#include "common.hpp"
#include "ffcl/datastruct/Interval.hpp"
#include "ffcl/datastruct/bounds/AABB.hpp"
#include "ffcl/datastruct/bounds/AABBWithCentroid.hpp"
#include "ffcl/datastruct/bounds/Ball.hpp"
#include "ffcl/datastruct/bounds/UnboundedBall.hpp"
#include "ffcl/datastruct/bounds/distances/MinDistance.hpp"
#include "ffcl/datastruct/bounds/segment/LowerBoundAndLength.hpp"
#include "ffcl/datastruct/bounds/segment/LowerBoundAndUpperBound.hpp"
#include "ffcl/datastruct/bounds/segment/distances/MinDistance.hpp"
using namespace H;
namespace D = ffcl::datastruct; namespace B = D::bounds;
template <typename T> using Seg = B::segment::LowerBoundAndUpperBound<T>;
template <typename T> std::vector<Seg<T>> rsegs(Rng& r, size_t f, std::vector<T>& lo, std::vector<T>& hi) {
    std::vector<Seg<T>> v;
    auto a = any_dataset<T>(r, 1, f), b = any_dataset<T>(r, 1, f);
    for (size_t k = 0; k < f; ++k) { T x = std::min(a[k], b[k]), y = std::max(a[k], b[k]); if (r.chance(0.2)) y = x; lo.push_back(x); hi.push_back(y); v.push_back(Seg<T>(x, y)); }
    return v;
}
template <typename T> std::vector<T> inside(Rng& r, const std::vector<T>& lo, const std::vector<T>& hi) {
    std::vector<T> p(lo.size());
    for (size_t k = 0; k < p.size(); ++k) { if (r.chance(0.3)) p[k] = lo[k]; else if (r.chance(0.4)) p[k] = hi[k]; else p[k] = std::is_integral_v<T> ? (T)r.range((long long)lo[k], (long long)hi[k]) : std::min(hi[k], std::max(lo[k], (T)r.real(lo[k], hi[k]))); }
    return p;
}
template <typename T> void tight(Rng& r) {
    size_t N = r.range(1, 30), f = r.range(1, 5); auto s = any_dataset<T>(r, N, f);
    auto ix = subset(r, N, r.range(1, N));
    dump("samples=" + str(s) + " n_features=" + str(f) + " indices=" + str(ix));
    auto all = D::make_tight_bound(s.begin(), s.end(), f);
    auto sub = D::make_tight_bound(ix.begin(), ix.end(), s.begin(), s.end(), f);
    EXPECT(all.n_features() == f && sub.n_features() == f, "n_features");
    for (size_t k = 0; k < f; ++k) {
        T lo = s[k], hi = s[k], l2 = s[ix[0] * f + k], h2 = l2;
        for (size_t i = 0; i < N; ++i) { lo = std::min(lo, s[i * f + k]); hi = std::max(hi, s[i * f + k]); }
        for (auto i : ix) { l2 = std::min(l2, s[i * f + k]); h2 = std::max(h2, s[i * f + k]); }
        EXPECT(all.segment_at(k).lower_bound() == lo && all.segment_at(k).upper_bound() == hi, "tight box, feature " << k);
        EXPECT(sub.segment_at(k).lower_bound() == l2 && sub.segment_at(k).upper_bound() == h2, "tight box of the subset, feature " << k);
        auto s1 = D::make_tight_segment(s.begin(), s.end(), f, k); auto s2 = D::make_tight_segment(ix.begin(), ix.end(), s.begin(), s.end(), f, k);
        EXPECT(s1.lower_bound() == lo && s1.upper_bound() == hi, "tight segment");
        EXPECT(s2.lower_bound() == l2 && s2.upper_bound() == h2, "tight segment of the subset");
        EXPECT(lo <= all.centroid_at(k) && all.centroid_at(k) <= hi, "center outside of the box: " << +all.centroid_at(k));
    }
    for (size_t i = 0; i < N; ++i) EXPECT(all.is_in_bounds(s.begin() + i * f, s.begin() + i * f + f), "sample outside of its tight box");
    for (auto i : ix) EXPECT(sub.is_in_bounds(s.begin() + i * f, s.begin() + i * f + f), "sample outside of its tight box");
}
template <typename T, typename Box> void box1(Rng& r, const Box& A, const Box& C, const std::vector<T>& lo, const std::vector<T>& hi, const std::vector<T>& l2, const std::vector<T>& h2) {
    size_t f = lo.size(); double t = tol<T>();
    double md = 0, di = 0; for (size_t k = 0; k < f; ++k) { double g = 0; if (hi[k] < l2[k]) g = (double)l2[k] - (double)hi[k]; else if (h2[k] < lo[k]) g = (double)lo[k] - (double)h2[k]; md += g * g; di += ((double)hi[k] - lo[k]) * ((double)hi[k] - lo[k]); }
    md = std::sqrt(md); di = std::sqrt(di);
    double got = B::min_distance(A, C), got2 = B::min_distance(C, A);
    EXPECT(close(got, md, t, t) && close(got2, md, t, t), "distance between boxes " << got << " expected " << md);
    EXPECT(close((double)A.diameter(), di, t, t), "diameter " << (double)A.diameter() << " expected " << di);
    for (int rep = 0; rep < 4; ++rep) {
        auto p = inside(r, lo, hi), q = inside(r, l2, h2), p2 = inside(r, lo, hi);
        EXPECT(A.is_in_bounds(p.begin(), p.end()), "inside point rejected " << str(p));
        EXPECT(got <= euclid(p.data(), q.data(), f) * (1 + t) + t, "min distance is not a lower bound");
        EXPECT(euclid(p.data(), p2.data(), f) <= (double)A.diameter() * (1 + t) + t, "diameter is not an upper bound");
        auto o = any_dataset<T>(r, 1, f); bool in = true; for (size_t k = 0; k < f; ++k) in = in && lo[k] <= o[k] && o[k] <= hi[k];
        EXPECT(A.is_in_bounds(o.begin(), o.end()) == in, "membership of " << str(o));
    }
}
template <typename T> void box(Rng& r) {
    size_t f = r.range(1, 4); std::vector<T> lo, hi, l2, h2; auto a = rsegs(r, f, lo, hi), c = rsegs(r, f, l2, h2);
    dump("A.lo=" + str(lo) + " A.hi=" + str(hi) + " B.lo=" + str(l2) + " B.hi=" + str(h2));
    using V = D::FeaturesVector<Seg<T>, 0>;
    B::AABBWithCentroid<Seg<T>> A{V(a)}, C{V(c)}; B::AABB<Seg<T>> A0{V(a)}, C0{V(c)};
    box1<T>(r, A, C, lo, hi, l2, h2); box1<T>(r, A0, C0, lo, hi, l2, h2);
    double fu = 0;
    std::vector<T> ce(A.centroid_begin(), A.centroid_end());
    for (size_t k = 0; k < f; ++k) {
        EXPECT(lo[k] <= ce[k] && ce[k] <= hi[k], "center outside of the box");
        double need = std::max((double)ce[k] - (double)lo[k], (double)hi[k] - (double)ce[k]); fu = std::max(fu, need);
        EXPECT((double)A.centroid_to_bound_distance(k) * (1 + tol<T>()) + tol<T>() >= need, "bound distance along " << k << " is " << (double)A.centroid_to_bound_distance(k) << " < " << need);
    }
    EXPECT((double)A.centroid_to_furthest_bound_distance() * (1 + tol<T>()) + tol<T>() >= fu, "furthest bound distance " << (double)A.centroid_to_furthest_bound_distance() << " < " << fu);
    for (int rep = 0; rep < 4; ++rep) {
        auto p = r.chance(0.6) ? inside(r, lo, hi) : any_dataset<T>(r, 1, f); bool in = A.is_in_bounds(p.begin(), p.end());
        auto d = A.compute_distance_to_centroid_if_within_bounds(p.begin(), p.end());
        EXPECT(d.has_value() == in, "distance offered iff inside"); double w = metric(p.data(), ce.data(), f);
        if (d) EXPECT(close((double)*d, w, tol<T>(), tol<T>()), "distance to the center");
        EXPECT(close((double)A.distance_to_centroid(p.begin(), p.end()), w, tol<T>(), tol<T>()), "distance to the center");
    }
}
template <typename T> void ball(Rng& r) {
    size_t f = r.range(1, 4); auto c = any_dataset<T>(r, 1, f), c2 = any_dataset<T>(r, 1, f); T R = (T)r.range(0, 60), R2 = (T)r.range(0, 60);
    dump("center=" + str(c) + " radius=" + str(R) + " center2=" + str(c2) + " radius2=" + str(R2));
    B::Ball<T> b(c, R), b2(c2, R2); B::BallView v(c.begin(), c.end(), R), v2(c2.begin(), c2.end(), R2);
    EXPECT(close((double)b.diameter(), 2.0 * R) && close((double)v.diameter(), 2.0 * R), "diameter");
    EXPECT((double)b.centroid_to_furthest_bound_distance() == (double)R && (double)v.centroid_to_furthest_bound_distance() == (double)R, "radius");
    EXPECT(b.n_features() == f && v.n_features() == f, "n_features");
    double md = std::max(0.0, metric(c.data(), c2.data(), f) - (double)R - (double)R2), t = tol<T>();
    double g = B::min_distance(b, b2), gv = B::min_distance(v, v2);
    EXPECT(close(g, md, t, 10 * t) && close(gv, md, t, 10 * t), "ball distance " << g << " expected " << md);
    B::UnboundedBall<T> u{D::FeaturesVector<T, 0>(c)}; B::UnboundedBallView uv(c.begin(), c.end());
    for (int rep = 0; rep < 6; ++rep) {
        std::vector<T> p = r.chance(0.5) ? any_dataset<T>(r, 1, f) : c; if (r.chance(0.5)) for (auto& x : p) x = x + (T)r.range(0, 30);
        double d = metric(p.data(), c.data(), f); bool edge = std::is_floating_point_v<T> && close(d, R, t, t) && (d != std::floor(d) || std::is_same_v<T, float>);
        auto o = b.compute_distance_to_centroid_if_within_bounds(p.begin(), p.end()), ov = v.compute_distance_to_centroid_if_within_bounds(p.begin(), p.end());
        if (!edge) { EXPECT(b.is_in_bounds(p.begin(), p.end()) == (d < (double)R), "ball membership d=" << d); EXPECT(v.is_in_bounds(p.begin(), p.end()) == (d < (double)R), "ball membership d=" << d);
            EXPECT(o.has_value() == (d < (double)R) && ov.has_value() == (d < (double)R), "distance offered iff inside"); }
        if (o) EXPECT(close((double)*o, d, t, t), "distance"); if (ov) EXPECT(close((double)*ov, d, t, t), "distance");
        auto ou = u.compute_distance_to_centroid_if_within_bounds(p.begin(), p.end()), ouv = uv.compute_distance_to_centroid_if_within_bounds(p.begin(), p.end());
        EXPECT(ou && ouv && close((double)*ou, d, t, t) && close((double)*ouv, d, t, t), "unbounded ball distance");
        EXPECT(u.is_in_bounds(p.begin(), p.end()) && uv.is_in_bounds(p.begin(), p.end()), "unbounded");
    }
}
template <typename T> void len(Rng& r) {
    T lo = (T)r.range(-50, 50), L = (T)r.range(std::is_integral_v<T> ? 1 : 0, 60);
    dump("lower=" + str(lo) + " length=" + str(L)); B::segment::LowerBoundAndLength<T> s(lo, L);
    T hi = std::is_integral_v<T> ? (T)(lo + L - 1) : (T)(lo + L);
    EXPECT(s.lower_bound() == lo && s.upper_bound() == (T)(lo + L), "bounds");
    for (T x = lo - 2; x <= hi + 2; x = x + (T)1) EXPECT(s.contains_value(x) == (lo <= x && x <= hi), "contains " << +x);
    EXPECT(lo <= s.centroid() && s.centroid() <= hi, "center"); EXPECT((double)s.centroid_to_bound_distance() + 1e-9 >= std::max((double)(s.centroid() - lo), (double)(hi - s.centroid())), "center to bound");
}
int main(int c, char** v) { return run_main(c, v, {{"tight-double", 3, tight<double>}, {"tight-float", 1, tight<float>}, {"tight-int", 2, tight<int>}, {"tight-unsigned", 1, tight<unsigned>}, {"box-double", 3, box<double>}, {"box-float", 1, box<float>}, {"box-int", 2, box<int>}, {"ball-double", 3, ball<double>}, {"ball-int", 2, ball<int>}, {"ball-float", 1, ball<float>}, {"length-int", 1, len<int>}, {"length-double", 1, len<double>}}); }

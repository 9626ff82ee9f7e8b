// Instantiations of the bounds for one segment type Seg over the value type V (defined by the including file).
#include "ffcl/datastruct/Interval.hpp"
#include "ffcl/datastruct/bounds/AABB.hpp"
#include "ffcl/datastruct/bounds/AABBWithCentroid.hpp"
#include "ffcl/datastruct/bounds/Ball.hpp"
#include "ffcl/datastruct/bounds/UnboundedBall.hpp"
#include "ffcl/datastruct/bounds/distances/MinDistance.hpp"
#include <vector>
namespace bd = ffcl::datastruct::bounds;
using It = std::vector<V>::iterator;
using Ix = std::vector<std::size_t>::iterator;
template <typename B> auto use_box(const B& b, const B& c, It p0, It p1) { return b.is_in_bounds(p0, p1) ? b.diameter() : min_distance(b, c) + b.n_features(); }
template <typename B> auto use_c(const B& b, It p0, It p1) {
    auto o = b.compute_distance_to_centroid_if_within_bounds(p0, p1);
    return b.centroid_to_furthest_bound_distance() + b.centroid_to_bound_distance(0) + b.distance_to_centroid(p0, p1) + *o;
}
void use(Seg s, Seg t, ffcl::datastruct::FeaturesVector<Seg, 0> v, ffcl::datastruct::FeaturesVector<V, 0> f, It p0, It p1, Ix i0, Ix i1, V r) {
    s.update_lower_bound(r); s.update_upper_bound(r); s.centroid(); s.centroid_to_bound_distance(); s.contains_value(r);
    bd::min_distance(s, t);
    const auto& cv = v; const auto& cf = f;
    bd::AABB<Seg> a(cv), a2(std::move(v)); use_box(a, a2, p0, p1); a.centroid_at(0);
    bd::AABBWithCentroid<Seg> b(cv), b2(std::move(v)); use_box(b, b2, p0, p1); use_c(b, p0, p1);
    bd::Ball<V> l(cf, r), l2(std::move(f), r); use_box(l, l2, p0, p1); use_c(l, p0, p1);
    bd::BallView<It> w(p0, p1, r), w2(w); use_box(w, w2, p0, p1); use_c(w, p0, p1);
    bd::UnboundedBall<V> u(cf), u2(std::move(f)); use_box(u, u2, p0, p1); use_c(u, p0, p1);
    bd::UnboundedBallView<It> x(p0, p1), x2(x); use_c(x, p0, p1); x.is_in_bounds(p0, p1); bd::min_distance(x, x2);
    ffcl::datastruct::make_tight_segment<It, Seg>(p0, p1, 3, 1);
    ffcl::datastruct::make_tight_segment<Ix, It, Seg>(i0, i1, p0, p1, 3, 1);
    ffcl::datastruct::make_tight_bound<It, bd::AABBWithCentroid<Seg>>(p0, p1, 3);
    ffcl::datastruct::make_tight_bound<Ix, It, bd::AABBWithCentroid<Seg>>(i0, i1, p0, p1, 3);
}

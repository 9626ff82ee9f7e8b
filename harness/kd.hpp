// Shared helpers for kd-tree based harnesses.
#pragma once
#include "common.hpp"
#define private public
#define protected public
#include "ffcl/datastruct/tree/kdtree/KDTree.hpp"
#include "ffcl/search/Search.hpp"
#include "ffcl/search/buffer/Unsorted.hpp"
#include "ffcl/search/buffer/WithMemory.hpp"
#include "ffcl/search/buffer/WithUnionFind.hpp"
#undef private
#undef protected
namespace H {
template <typename T> using IdxIt = std::vector<size_t>::iterator;
template <typename T> using SmpIt = typename std::vector<T>::iterator;
template <typename T> using Tree = ffcl::datastruct::KDTree<std::vector<size_t>::iterator, SmpIt<T>>;
template <typename T> typename Tree<T>::Options options(Rng& r, size_t f, size_t& bucket, size_t& depth, std::vector<size_t>& mask) {
    namespace P = ffcl::datastruct::kdtree::policy;
    using I = std::vector<size_t>::iterator; using S = SmpIt<T>;
    typename Tree<T>::Options o;
    bucket = r.chance(0.6) ? r.range(0, 4) : r.range(1, 40);
    depth  = r.chance(0.85) ? std::numeric_limits<size_t>::max() : r.range(0, 4);
    o.bucket_size(bucket);
    if (depth != std::numeric_limits<size_t>::max() ) o.max_depth(depth);
    mask.clear();
    if (r.chance(0.25)) { mask = subset(r, f, r.range(1, f)); }
    switch (r.range(0, 3)) {
        case 0: break;
        case 1: o.axis_selection_policy(P::CycleThroughAxesBuild<I, S>().feature_mask(mask)); break;
        case 2: o.axis_selection_policy(P::HighestVarianceBuild<I, S>().sampling_rate(r.chance(0.5) ? 1.0 : 0.3).feature_mask(mask)); break;
        default: o.axis_selection_policy(P::MaximumSpreadBuild<I, S>().feature_mask(mask)); break;
    }
    if (r.chance(0.5)) o.splitting_rule_policy(P::QuickselectMedianRange<I, S>());
    return o;
}
template <typename T> struct KdIn {
    std::vector<T> s; size_t N, f; std::vector<size_t> idx0, idx; size_t bucket, depth; std::vector<size_t> mask; std::unique_ptr<Tree<T>> tree;
};
template <typename T> void kd_make(Rng& r, KdIn<T>& in, size_t maxn = 150) {
    in.N = r.range(1, r.chance(0.4) ? (long long)maxn : 14);
    in.f = r.range(1, 4);
    int st = any_style(r);
    in.s = dataset<T>(r, in.N, in.f, st);
    size_t m = r.chance(0.6) ? in.N : (size_t)r.range(1, in.N);
    in.idx0 = r.chance(0.5) && m == in.N ? iota(in.N) : subset(r, in.N, m);
    in.idx  = in.idx0;
    auto o  = options<T>(r, in.f, in.bucket, in.depth, in.mask);
    dump("samples=" + str(in.s, 1200) + " n_features=" + str(in.f) + " indices=" + str(in.idx0) + " bucket=" + str(in.bucket) + " max_depth=" + str(in.depth) + " mask=" + str(in.mask), m > 2);
    in.tree = std::make_unique<Tree<T>>(in.idx.begin(), in.idx.end(), in.s.begin(), in.s.end(), in.f, o);
}
}  // namespace H

#include "kd.hpp"
using namespace H;
template <typename T> struct Walk {
    KdIn<T>& in; std::vector<int> seen; size_t maxd = 0;
    using NP = typename Tree<T>::NodePtr;
    // returns indices in the subtree
    std::vector<size_t> go(const NP& n, const NP& parent, size_t depth) {
        EXPECT(n != nullptr, "null node");
        EXPECT(n->parent_.lock() == parent, "wrong parent link at depth " << depth);
        std::vector<size_t> mine(n->indices_range_.first, n->indices_range_.second), all = mine;
        if (n->is_leaf()) {
            EXPECT(n->cut_axis_feature_index_ == -1, "leaf with a cut axis");
            EXPECT(mine.size() <= in.bucket || depth >= in.depth, "leaf of size " << mine.size() << " at depth " << depth);
        } else {
            EXPECT(n->left_ && n->right_, "one child only");
            EXPECT(mine.size() == 1, "inner node holds " << mine.size());
            EXPECT(depth < in.depth, "deeper than the limit");
            size_t ax = (size_t)n->cut_axis_feature_index_;
            EXPECT(ax < in.f, "axis " << ax);
            if (!in.mask.empty()) {}
            auto l = go(n->left_, n, depth + 1), r = go(n->right_, n, depth + 1);
            T c = in.s[mine[0] * in.f + ax];
            for (auto i : l) EXPECT(in.s[i * in.f + ax] <= c, "left sample " << i << " above the cut at depth " << depth);
            for (auto i : r) EXPECT(in.s[i * in.f + ax] >= c, "right sample " << i << " below the cut at depth " << depth);
            EXPECT(1 + l.size() + r.size() > in.bucket, "split although the bucket is large enough");
            for (size_t k = 0; k < in.f; ++k) {
                auto& b = n->bound_; auto& bl = n->left_->bound_; auto& br = n->right_->bound_;
                EXPECT(bl.segment_at(k).lower_bound() >= b.segment_at(k).lower_bound() && bl.segment_at(k).upper_bound() <= b.segment_at(k).upper_bound(), "left box not nested");
                EXPECT(br.segment_at(k).lower_bound() >= b.segment_at(k).lower_bound() && br.segment_at(k).upper_bound() <= b.segment_at(k).upper_bound(), "right box not nested");
            }
            all.insert(all.end(), l.begin(), l.end()); all.insert(all.end(), r.begin(), r.end());
        }
        for (auto i : all)
            for (size_t k = 0; k < in.f; ++k) {
                T v = in.s[i * in.f + k];
                EXPECT(n->bound_.segment_at(k).lower_bound() <= v && v <= n->bound_.segment_at(k).upper_bound(), "sample " << i << " feature " << k << " outside its node's box at depth " << depth);
            }
        return all;
    }
};
template <typename T> void tree_case(Rng& r) {
    KdIn<T> in; kd_make(r, in);
    auto before = in.s;
    Walk<T> w{in};
    auto all = w.go(in.tree->root(), nullptr, 0);
    auto a = in.idx0; std::sort(a.begin(), a.end()); std::sort(all.begin(), all.end());
    EXPECT(a == all, "tree indices are not exactly the input indices: " << str(all));
    auto b = in.idx; std::sort(b.begin(), b.end());
    EXPECT(a == b, "index buffer is no longer a permutation");
    EXPECT(in.s == before, "samples changed");
    EXPECT(in.tree->n_features() == in.f && in.tree->n_samples() == in.N, "sizes");
    // tight root box
    for (size_t k = 0; k < in.f; ++k) {
        T lo = in.s[in.idx0[0] * in.f + k], hi = lo;
        for (auto i : in.idx0) { lo = std::min(lo, in.s[i * in.f + k]); hi = std::max(hi, in.s[i * in.f + k]); }
        EXPECT(in.tree->root()->bound_.segment_at(k).lower_bound() == lo && in.tree->root()->bound_.segment_at(k).upper_bound() == hi, "root box not tight");
    }
    for (size_t i = 0; i < in.N; ++i) EXPECT(std::equal((*in.tree)[i], (*in.tree)[i] + in.f, in.s.begin() + i * in.f), "features of sample " << i);
    // copies and moves describe the same tree
    Tree<T> c(*in.tree); Tree<T> m(std::move(c));
    EXPECT(m.root() == in.tree->root() && m.n_features() == in.f && m.n_samples() == in.N && m.n_samples_ == in.tree->n_samples_, "copy/move");
}
int main(int c, char** v) { return run_main(c, v, {{"kdtree-double", 3, tree_case<double>}, {"kdtree-float", 2, tree_case<float>}, {"kdtree-int", 2, tree_case<int>}, {"kdtree-unsigned", 1, tree_case<unsigned>}}); }

#include "ffcl/datastruct/tree/kdtree/KDTree.hpp"
#include <vector>
using It = std::vector<double>::iterator;
using Ix = std::vector<std::size_t>::iterator;
using Tree = ffcl::datastruct::KDTree<Ix, It>;
namespace pol = ffcl::datastruct::kdtree::policy;
void use(Ix i0, Ix i1, It s0, It s1, std::vector<std::size_t> mask) {
    pol::CycleThroughAxesBuild<Ix, It> c;
    pol::MaximumSpreadBuild<Ix, It> m;
    pol::HighestVarianceBuild<Ix, It> h;
    pol::QuickselectMedianRange<Ix, It> q;
    c.feature_mask(mask);
    Tree::Options o;
    Tree tree(i0, i1, s0, s1, 2, o);
    ffcl::datastruct::kdtree::algorithms::quickselect_median(i0, i1, s0, s1, 2, 1);
}

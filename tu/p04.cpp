#include "ffcl/datastruct/tree/kdtree/KDTree.hpp"
#include "ffcl/search/Search.hpp"
#include "ffcl/search/buffer/Unsorted.hpp"
#include <vector>
using It = std::vector<double>::iterator;
using Ix = std::vector<std::size_t>::iterator;
using Tree = ffcl::datastruct::KDTree<Ix, It>;
void use(Ix i0, Ix i1, It s0, It s1, It a, It b, const Tree& tree) {
    ffcl::search::TreeTraverser<Tree> t(tree);
    auto u = t(ffcl::search::buffer::Unsorted<It>(a, b, 3));
    ffcl::search::Searcher<Tree> w(tree);
    auto v = w(ffcl::search::buffer::Unsorted<It>(a, b, 3));
    u.partial_search(i0, i1, s0, s1, 2);
}

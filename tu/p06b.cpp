#include "ffcl/datastruct/tree/kdtree/KDTree.hpp"
#include "ffcl/search/Search.hpp"
#include "ffcl/search/buffer/WithUnionFind.hpp"
#include <vector>
using It = std::vector<double>::iterator;
using Ix = std::vector<std::size_t>::iterator;
using Tree = ffcl::datastruct::KDTree<Ix, It>;
using Buf = ffcl::search::buffer::WithUnionFind<It>;
void use(Ix i0, Ix i1, It s0, It s1, Buf b, Buf c, const Tree& tree) {
    ffcl::search::TreeTraverser<Tree> t(tree);
    auto u = t(std::move(b));
    ffcl::search::Searcher<Tree> w(tree);
    auto v = w(std::move(c));
    u.partial_search(i0, i1, s0, s1, 2);
    u.update(1, 2.0);
}
void make(It a, It b, const ffcl::datastruct::UnionFind<std::size_t>& u) {
    Buf x(a, b, u, 1, 3), y(Buf::BoundType(a, b), u, 1, 3);
}

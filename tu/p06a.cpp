#include "ffcl/datastruct/tree/kdtree/KDTree.hpp"
#include "ffcl/search/Search.hpp"
#include "ffcl/search/buffer/WithMemory.hpp"
#include <vector>
using It = std::vector<double>::iterator;
using Ix = std::vector<std::size_t>::iterator;
using Tree = ffcl::datastruct::KDTree<Ix, It>;
using Buf = ffcl::search::buffer::WithMemory<It>;
void use(Ix i0, Ix i1, It s0, It s1, Buf b, Buf c, const Tree& tree) {
    ffcl::search::TreeTraverser<Tree> t(tree);
    auto u = t(std::move(b));
    ffcl::search::Searcher<Tree> w(tree);
    auto v = w(std::move(c));
    u.partial_search(i0, i1, s0, s1, 2);
    u.update(1, 2.0);
}
void make(It a, It b, const std::unordered_set<std::size_t>& v, std::unordered_set<std::size_t>& w) {
    Buf x0(a, b, 3), x1(a, b, v, 3), x2(a, b, std::unordered_set<std::size_t>(v), 3), x3(a, b, w.begin(), w.end(), 3);
    using B = Buf::BoundType;
    Buf y0(B(a, b), 3), y1(B(a, b), v, 3), y2(B(a, b), std::unordered_set<std::size_t>(v), 3), y3(B(a, b), w.begin(), w.end(), 3);
}

#include "ffcl/datastruct/tree/kdtree/KDTree.hpp"
#include "ffcl/search/Search.hpp"
#include "ffcl/search/ClosestPairOfSamples.hpp"
#include "ffcl/search/buffer/Unsorted.hpp"
#include <vector>
using It = std::vector<double>::iterator;
using Ix = std::vector<std::size_t>::iterator;
using Tree = ffcl::datastruct::KDTree<Ix, It>;
auto use(Ix i0, Ix i1, It s0, It s1, Ix j0, Ix j1, It t0, It t1) { return ffcl::search::algorithms::simple_dual_set_shortest_edge(i0, i1, s0, s1, 2, j0, j1, t0, t1, 2); }
auto use2(const Tree& a, const Tree& b) { ffcl::search::Searcher<Tree> w(a); return w.dual_tree_shortest_edge(b, std::size_t(1)); }

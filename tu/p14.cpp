#include "ffcl/datastruct/tree/kdtree/KDTree.hpp"
#include "ffcl/dbscan/DBSCAN.hpp"
#include <vector>
using It = std::vector<double>::iterator;
using Ix = std::vector<std::size_t>::iterator;
using Tree = ffcl::datastruct::KDTree<Ix, It>;
std::vector<std::size_t> use(Tree& tree) {
    ffcl::DBSCAN<Tree> d(ffcl::DBSCAN<Tree>::Options().min_samples(3).radius(1.0));
    return d.predict(std::move(tree));
}

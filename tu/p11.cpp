#include <filesystem>
#include <fstream>
#include <iostream>
#include <cassert>
#include "rapidjson/document.h"
#include "rapidjson/ostreamwrapper.h"
#include "ffcl/datastruct/tree/kdtree/KDTree.hpp"
#include "ffcl/datastruct/graph/spanning_tree/BoruvkasAlgorithm.hpp"
using I = std::vector<std::size_t>::iterator; using S = std::vector<double>::iterator;
using K = ffcl::datastruct::KDTree<I, S>; using B = ffcl::BoruvkasAlgorithm<K>;
void use(K k, const B::Options& o) {
    B b(o); B g; g.set_options(B::Options().k_nearest_neighbors(1)); b.make_tree(std::move(k));
}

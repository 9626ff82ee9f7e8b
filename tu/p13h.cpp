#include <filesystem>
#include <fstream>
#include <cassert>
#include "rapidjson/document.h"
#include "rapidjson/ostreamwrapper.h"
#include "ffcl/hdbscan/HDBSCAN.hpp"
#include "ffcl/datastruct/tree/kdtree/KDTree.hpp"
#include "ffcl/datastruct/tree/kdtree/policy/AxisSelectionPolicy.hpp"
#include "ffcl/datastruct/tree/kdtree/policy/SplittingRulePolicy.hpp"
using I = std::vector<std::size_t>::iterator; using S = std::vector<double>::iterator;
using K = ffcl::datastruct::KDTree<I, S>; using Hd = ffcl::HDBSCAN<K>;
void use(K k, const Hd::Options& o) {
    Hd h(o); Hd g; g.set_options(Hd::Options().k_nearest_neighbors(1).min_cluster_size(2).return_leaf_nodes(false).allow_single_cluster(true));
    h.predict(std::move(k));
}

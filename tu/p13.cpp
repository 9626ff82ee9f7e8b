#include <filesystem>
#include <fstream>
#include <cassert>
#include "rapidjson/document.h"
#include "rapidjson/ostreamwrapper.h"
#include "ffcl/datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterTree.hpp"
#include "ffcl/datastruct/tree/condensed_cluster_tree/CondensedClusterTree.hpp"
using T = ffcl::datastruct::CondensedClusterTree<std::size_t, double>;
void use(T::SingleLinkageClusterNodePtr p) {
    T::Options o; o = T::Options().min_cluster_size(2).allow_single_cluster(true).return_leaf_nodes(false);
    T a(p), b(p, o);
    a.predict(); a.extract_flat_clusters();
}

#include <filesystem>
#include <fstream>
#include "rapidjson/document.h"
#include "rapidjson/ostreamwrapper.h"
#include "ffcl/datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterTree.hpp"
using T = ffcl::datastruct::SingleLinkageClusterTree<std::size_t, double>;
void use(T::MinimumSpanningTreeType m, const T::MinimumSpanningTreeType& c) {
    T a(c), b(c, T::Options().cut_level(1.).min_cluster_size(2)), d(std::move(m));
    T::Options o = T::Options().cut_level(1.); T e(std::move(m), o);
    a.set_options(o); a.predict(); a.root(); a.extract_flat_clusters(); a.root()->has_parent();
}

#include "ffcl/datastruct/UnionFind.hpp"
void use(ffcl::datastruct::UnionFind<std::size_t>& u) { ffcl::datastruct::UnionFind<std::size_t> v(3); v.find(1); v.merge(1, 2); }

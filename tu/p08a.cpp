#include "ffcl/datastruct/bounds/AABB.hpp"
#include <vector>
#include "ffcl/datastruct/bounds/segment/LowerBoundAndUpperBound.hpp"
using V = double;
using Seg = ffcl::datastruct::bounds::segment::LowerBoundAndUpperBound<V>;
#include "p08.inc"

#include "ffcl/datastruct/bounds/AABB.hpp"
#include <vector>
#include "ffcl/datastruct/bounds/segment/LowerBoundAndLength.hpp"
using V = double;
using Seg = ffcl::datastruct::bounds::segment::LowerBoundAndLength<V>;
#include "p08.inc"

// P15: native arrays of XY coordinates.
#define P15_INSTANTIATE
#include "hppcheck.h"
namespace p15 {
P15_ONE(au::PolygonArray<CXY>)
P15_ONE(au::MultiLinestringArray<CXY>)
P15_ONE(au::MultiPolygonArray<CXY>)
P15_XY(au::PolygonArray<CXY>)
P15_XY(au::MultiLinestringArray<CXY>)
P15_XY(au::MultiPolygonArray<CXY>)
}  // namespace p15

// P15: native arrays of XYZ coordinates.
#define P15_INSTANTIATE
#include "hppcheck.h"
namespace p15 {
P15_ONE(au::PolygonArray<CXYZ>)
P15_ONE(au::MultiLinestringArray<CXYZ>)
P15_ONE(au::MultiPolygonArray<CXYZ>)
}  // namespace p15

// P15: native arrays of XYZM coordinates.
#define P15_INSTANTIATE
#include "hppcheck.h"
namespace p15 {
P15_ONE(au::PolygonArray<CXYZM>)
P15_ONE(au::MultiLinestringArray<CXYZM>)
P15_ONE(au::MultiPolygonArray<CXYZM>)
}  // namespace p15

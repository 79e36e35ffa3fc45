// P15: native arrays of XYM coordinates.
#define P15_INSTANTIATE
#include "hppcheck.h"
namespace p15 {
P15_ONE(au::PolygonArray<CXYM>)
P15_ONE(au::MultiLinestringArray<CXYM>)
P15_ONE(au::MultiPolygonArray<CXYM>)
}  // namespace p15

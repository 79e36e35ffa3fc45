// P15: native arrays of XY coordinates.
#define P15_INSTANTIATE
#include "hppcheck.h"
namespace p15 {
P15_ONE(au::PointArray<CXY>)
P15_ONE(au::LinestringArray<CXY>)
P15_ONE(au::MultipointArray<CXY>)
P15_XY(au::PointArray<CXY>)
P15_XY(au::LinestringArray<CXY>)
P15_XY(au::MultipointArray<CXY>)
}  // namespace p15

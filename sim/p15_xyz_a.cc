// P15: native arrays of XYZ coordinates.
#define P15_INSTANTIATE
#include "hppcheck.h"
namespace p15 {
P15_ONE(au::PointArray<CXYZ>)
P15_ONE(au::LinestringArray<CXYZ>)
P15_ONE(au::MultipointArray<CXYZ>)
}  // namespace p15

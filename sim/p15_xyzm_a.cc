// P15: native arrays of XYZM coordinates.
#define P15_INSTANTIATE
#include "hppcheck.h"
namespace p15 {
P15_ONE(au::PointArray<CXYZM>)
P15_ONE(au::LinestringArray<CXYZM>)
P15_ONE(au::MultipointArray<CXYZM>)
}  // namespace p15

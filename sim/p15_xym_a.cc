// P15: native arrays of XYM coordinates.
#define P15_INSTANTIATE
#include "hppcheck.h"
namespace p15 {
P15_ONE(au::PointArray<CXYM>)
P15_ONE(au::LinestringArray<CXYM>)
P15_ONE(au::MultipointArray<CXYM>)
}  // namespace p15

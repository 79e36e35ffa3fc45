#include "p16.h"
#include <cstdlib>
#include <cstring>
#include "geoarrow/geoarrow.hpp"
namespace {
struct Both {
  geoarrow::wkb_util::WKBParser parser;
  geoarrow::wkb_util::WKBGeometry g;
};
}  // namespace
WkbHpp::WkbHpp() : p(new Both) {}
WkbHpp::~WkbHpp() { delete (Both*)p; }
bool WkbHpp::Parse(const uint8_t* data, size_t n) {
  Both* b = (Both*)p;
  struct GeoArrowBufferView v;
  v.data = data;
  v.size_bytes = (int64_t)n;
  return b->parser.Parse(v, &b->g) == geoarrow::wkb_util::WKBParser::OK;
}

// Decodes what the C++ WKB parser produced into the model.
#pragma once
#include "geoarrow/hpp/wkb_util.hpp"
#include "flow.h"
namespace flow {
inline Geom HppSeq(const geoarrow::wkb_util::WKBSequence& s, int type, int dims) {
  namespace au = geoarrow::array_util;
  Geom g;
  g.type = type;
  g.dims = dims;
  switch (s.dimensions) {
    case GEOARROW_DIMENSIONS_XY:
      s.VisitVertices<au::XY<double>>([&](au::XY<double> p) { for (double v : p) g.c.push_back(v); });
      break;
    case GEOARROW_DIMENSIONS_XYZ:
      s.VisitVertices<au::XYZ<double>>([&](au::XYZ<double> p) { for (double v : p) g.c.push_back(v); });
      break;
    case GEOARROW_DIMENSIONS_XYM:
      s.VisitVertices<au::XYM<double>>([&](au::XYM<double> p) { for (double v : p) g.c.push_back(v); });
      break;
    default:
      s.VisitVertices<au::XYZM<double>>([&](au::XYZM<double> p) { for (double v : p) g.c.push_back(v); });
  }
  return g;
}
inline Geom HppGeom(const geoarrow::wkb_util::WKBGeometry& w) {
  Geom g;
  g.type = (int)w.geometry_type;
  g.dims = (int)w.dimensions;
  if (g.type == PT || g.type == LS) {
    SIM_CHECK(w.NumSequences() == 1 && w.NumGeometries() == 0, "hpp-structure", "%u sequences, %u geometries in a %s", w.NumSequences(),
              w.NumGeometries(), TypeName(g.type));
    SIM_CHECK((int)w.Sequence(0).dimensions == g.dims, "hpp-structure", "dimensions differ");
    return HppSeq(w.Sequence(0), g.type, g.dims);
  }
  if (g.type == PG) {
    SIM_CHECK(w.NumGeometries() == 0, "hpp-structure", "polygon with child geometries");
    for (uint32_t i = 0; i < w.NumSequences(); i++) g.kids.push_back(HppSeq(w.Sequence(i), RING, g.dims));
    return g;
  }
  SIM_CHECK(w.NumSequences() == 0, "hpp-structure", "collection with sequences");
  for (uint32_t i = 0; i < w.NumGeometries(); i++) g.kids.push_back(HppGeom(w.Geometry(i)));
  return g;
}
}  // namespace flow

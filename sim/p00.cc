#include "model.h"
using namespace model;
static void r(){
  // self-check of the model: encode/decode round trips
  GenOpts o = SwarmOpts();
  Feature f = GenFeature(o);
  if (f.null) return;
  std::string w = Wkb(f.g, GenWkbStyle());
  Geom g; size_t used;
  SIM_CHECK(ParseWkb((const uint8_t*)w.data(), w.size(), &g, &used)==0 && used==w.size(), "wkb","%s", Show(f).c_str());
  SIM_CHECK(Key(g)==Key(f.g),"wkb","%s / %s", Show(f).c_str(), Show(g).c_str());
  std::string t = Wkt(f.g, GenWktStyle());
  SIM_CHECK(ParseWkt(t,&g), "wkt","%s",t.c_str());
  SIM_CHECK(Key(g)==Key(f.g),"wkt","%s / %s / %s", Show(f).c_str(), Show(g).c_str(), t.c_str());
  ViewBuilder vb; vb.Build(f.g, true);
  SIM_CHECK(ReadView(vb.view,&g) && Key(g)==Key(f.g),"view","%s / %s", Show(f).c_str(), Show(g).c_str());
  Recorder rec; EmitFeature(f,&rec.v,true);
  ExpectFeatures({f}, rec.out, "emit","emit");
}
SIM_PROPERTY("P00", r, 100, 100, "x")

// P05: arbitrary WKB bytes are handled safely and exactly.
#include "flow.h"
#include "hppread.h"
using namespace flow;

static uint32_t WildCount() {
  static const uint32_t w[] = {0u,          1u,          2u,          3u,          5u,         255u,
                               0x7fffffffu, 0x80000000u, 0xffffffffu, 0x10000000u, 0x20000000u, 0x08000000u,
                               0x0aaaaaabu, 0x15555556u, 0x04000000u, 0x40000000u, 1000u,      1001u,
                               2003u,       3007u,       4001u,       0x80000001u, 0x40000002u, 0xE0000003u,
                               0x20000001u, 0x00010001u, 8u,          17u,         0x10000001u, 0x20000001u};
  return D(8) == 7 ? (uint32_t)sim::U64() : w[D(sizeof w / sizeof *w)];
}
static void Put(std::string& s, size_t at, uint32_t v) {
  bool le = D(4) != 3;
  for (int i = 0; i < 4 && at + i < s.size(); i++) s[at + i] = (char)(v >> (8 * (le ? i : 3 - i)));
}
static std::string Deep() {
  std::string s;
  uint32_t n = W({3, 3, 1}) == 0 ? 240 + D(30) : D(3) == 2 ? 2000 + D(30000) : 1 + D(300);
  int t = D(2) ? 7 : 4 + (int)D(4);
  GenOpts o = SwarmOpts();
  o.budget = 20;
  auto any = [&]() {  // the geometry at the bottom or next to the chain
    if (D(3) == 0) {
      Geom g;
      g.type = PT;
      g.c = {1, 2};
      return Wkb(g);
    }
    return Wkb(GenGeom(o), GenWkbStyle());
  };
  uint32_t beside = t == 7 && D(3) == 2 ? D(n) : n;  // the level of a sibling
  for (uint32_t i = 0; i < n; i++) {
    s += (char)1;
    s += (char)t;
    s += std::string("\0\0\0", 3);
    s += (char)(i == beside ? 2 : 1);
    s += std::string("\0\0\0", 3);
    if (i == beside) s += any();
  }
  if (D(3)) s += any();
  return s;
}
static std::string Input(const char** kind) {
  GenOpts o = SwarmOpts(600);
  o.null_den = 0;
  auto valid = [&]() { return Wkb(GenGeom(o), GenWkbStyle()); };
  std::string s;
  switch (W({4, 3, 1, 5, 4, 1, 1, 1})) {
    case 0:
      *kind = "valid";
      return valid();
    case 1:
      *kind = "truncated";
      s = valid();
      s.resize(D((uint32_t)s.size()));
      return s;
    case 2: {
      *kind = "trailing";
      s = valid();
      uint32_t n = 1 + D(12);
      for (uint32_t i = 0; i < n; i++) s += (char)D(256);
      return s;
    }
    case 3: {
      *kind = "field";
      s = valid();
      uint32_t n = 1 + D(2);
      for (uint32_t i = 0; i < n; i++) Put(s, D(2) ? 1 + 4 * D(3) : D((uint32_t)s.size()), WildCount());
      if (D(4) == 3) s.resize(D((uint32_t)s.size() + 1));
      return s;
    }
    case 4: {
      *kind = "bytes";
      s = valid();
      uint32_t n = 1 + D(4);
      for (uint32_t i = 0; i < n && !s.empty(); i++) {
        size_t at = D((uint32_t)s.size());
        switch (D(4)) {
          case 0:
            s[at] ^= (char)(1u << D(8));
            break;
          case 1:
            s[at] = (char)D(256);
            break;
          case 2:
            s.erase(at, 1 + D(9));
            break;
          default:
            s.insert(at, std::string(1 + D(9), (char)D(256)));
        }
      }
      return s;
    }
    case 5: {
      *kind = "splice";
      std::string a = valid(), b = valid();
      return a.substr(0, D((uint32_t)a.size() + 1)) + b.substr(D((uint32_t)b.size() + 1));
    }
    case 6: {
      *kind = "random";
      uint32_t n = D(60);
      for (uint32_t i = 0; i < n; i++) s += (char)D(256);
      if (n > 5 && D(2)) {
        s[0] = (char)D(2);
        Put(s, 1, 1 + D(7));
      }
      return s;
    }
    default:
      *kind = "deep";
      return Deep();
  }
}

static void Run() {
  uint32_t n = 1 + D(5);
  GeoArrowWKBReader rd;
  SIM_CHECK(GeoArrowWKBReaderInit(&rd) == 0, "init", "reader");
  geoarrow::wkb_util::WKBParser parser;
  geoarrow::wkb_util::WKBGeometry hg;
  bool reuse_parser = D(2);
  for (uint32_t k = 0; k < n; k++) {
    const char* kind;
    std::string s = Input(&kind);
    Count((std::string("fault.wkb_") + kind).c_str());
    Geom want;
    size_t used = 0;
    int ref = ParseWkb((const uint8_t*)s.data(), s.size(), &want, &used);
    bool whole = used == s.size();
    sim::Note("input %s ref=%d used=%zu of %zu: %s", kind, ref, used, s.size(),
              sim::Hex(s.data(), s.size(), 300).c_str());
    std::unique_ptr<uint8_t[]> copy(new uint8_t[s.size()]);
    memcpy(copy.get(), s.data(), s.size());
    GeoArrowBufferView bv;
    bv.data = copy.get();
    bv.size_bytes = (int64_t)s.size();
    GeoArrowError err;
    err.message[0] = 0;
    uint64_t steps0 = sim::Steps();
    // ---- visitor reading
    {
      Recorder rec(&err);
      rec.check = ref == 0;
      int rc = GeoArrowWKBReaderVisit(&rd, bv, &rec.v);
      Log("%s %zu bytes -> visit %d, ref %d", kind, s.size(), rc, ref);
      SIM_CHECK(strnlen(err.message, sizeof err.message) < sizeof err.message, "error-text", "unterminated");
      if (ref == 1)
        SIM_CHECK(rc != 0, "accepted-malformed", "reader accepted %s input %s", kind,
                  sim::Hex(s.data(), s.size(), 400).c_str());
      if (ref == 0 && whole) {
        SIM_CHECK(rc == 0, "rejected-valid", "reader returned %d (%s) for %s", rc, err.message, Show(want).c_str());
      }
      if (ref == 0 && rc == 0) {
        SIM_CHECK(rec.out.size() == 1 && !rec.in_feature(), "events", "%zu features", rec.out.size());
        Feature f;
        f.null = false;
        f.g = want;
        ExpectFeature(f, rec.out[0], "wrong-geometry", kind, 0);
      }
      if (rc != 0) SIM_CHECK(err.message[0] != 0, "no-message", "error %d without a message", rc);
      sim::State(sim::Mix(sim::HashBytes(err.message, std::min<size_t>(strlen(err.message), 20)), ref * 8 + want.type));
    }
    // ---- geometry view
    {
      GeoArrowGeometryView view;
      int rc = GeoArrowWKBReaderRead(&rd, bv, &view, &err);
      if (ref == 1) SIM_CHECK(rc != 0, "accepted-malformed", "read accepted %s", kind);
      if (ref == 0 && whole) SIM_CHECK(rc == 0, "rejected-valid", "read returned %d", rc);
      if (rc == 0) {
        Geom g;
        bool ok = ReadView(view, &g);
        if (ref == 0) {
          SIM_CHECK(ok, "bad-view", "the view is not well formed");
          SIM_CHECK(Key(g) == Key(want), "wrong-geometry", "view holds %s, should be %s", Show(g).c_str(),
                    Show(want).c_str());
        }
      }
    }
    // ---- C++ parser
    {
      geoarrow::wkb_util::WKBParser p2;
      geoarrow::wkb_util::WKBGeometry g2;
      auto& p = reuse_parser ? parser : p2;
      auto& g = reuse_parser ? hg : g2;
      const uint8_t* cursor = nullptr;
      auto st = D(2) ? p.Parse(bv, &g, &cursor) : p.Parse(bv.data, s.size(), &g, &cursor);
      Log("hpp %d", (int)st);
      using P = geoarrow::wkb_util::WKBParser;
      if (ref == 1)
        SIM_CHECK(st != P::OK && st != P::TOO_MANY_BYTES, "hpp-accepted-malformed", "C++ parser: %d for %s %s",
                  (int)st, kind, sim::Hex(s.data(), s.size(), 400).c_str());
      if (ref == 0) {
        SIM_CHECK(st == (whole ? P::OK : P::TOO_MANY_BYTES), "hpp-status", "C++ parser: %d for %s, %zu of %zu bytes",
                  (int)st, Show(want).c_str(), used, s.size());
        SIM_CHECK(cursor == bv.data + used, "hpp-cursor", "cursor is not at the end of the geometry");
        Geom h = HppGeom(g);
        SIM_CHECK(Key(h) == Key(want), "hpp-wrong-geometry", "%s should be %s", Show(h).c_str(), Show(want).c_str());
      }
    }
    uint64_t steps = sim::Steps() - steps0;
    SIM_CHECK(steps < 20000 + 200 * (uint64_t)s.size(), "work", "%llu steps for %zu bytes", (unsigned long long)steps,
              s.size());
    if (ref != 0 || want.nodes() > 1) sim::NonTrivial();
  }
  GeoArrowWKBReaderReset(&rd);
}
SIM_PROPERTY("P05", Run, 400000, 10000000,
             "one run reads 1..6 byte strings (valid, truncated, mutated fields, spliced, deep, random) through one "
             "reader and the C++ parser and compares with a reference decoder; non-trivial: malformed or nested input")

// P06: arbitrary WKT text is handled safely and exactly.
#include "flow.h"
using namespace flow;

static std::string NumberSpelling() {
  std::string s;
  if (B(3)) s += '-';
  uint32_t a = Small(24), b = Small(24);
  if (a + b == 0) a = 1;
  for (uint32_t i = 0; i < a; i++) s += (char)('0' + D(10));
  if (b || D(2)) s += '.';
  for (uint32_t i = 0; i < b; i++) s += (char)('0' + D(10));
  if (D(3) == 2) {
    s += D(2) ? 'e' : 'E';
    if (D(2)) s += D(2) ? '-' : '+';
    s += std::to_string(D(D(2) ? 20 : 330));
  }
  return s;
}
static const char* const kTokens[] = {
    "(", ")", ",", " ", "\t", "\n", "EMPTY", "POINT", "LINESTRING", "POLYGON", "MULTIPOINT", "MULTILINESTRING",
    "MULTIPOLYGON", "GEOMETRYCOLLECTION", "Z", "M", "ZM", "1", "-2.5", "3e2", "nan", "inf", "-inf", "1x", "x", "-",
    ".", "e5", "1e", "--1", "1.2.3", "EMPT", "EMPTYY", "POINTS", "Zm", "point", "1 2", "(1 2)", "((1 2))", "\0", "+1",
    "0x10", "1e400", "1e-400", "nan(x)", ";", "SRID=4326;", "  ", "1,2", "MULTIPOINTZ", "POINT Z"};

static std::string Tokens(uint32_t n) {
  std::string s;
  for (uint32_t i = 0; i < n; i++) {
    uint32_t k = D(sizeof kTokens / sizeof *kTokens);
    if (std::string(kTokens[k]).empty())
      s += '\0';
    else
      s += kTokens[k];
    if (D(3) == 2) s += ' ';
  }
  return s;
}
static std::string Deep() {
  std::string s;
  uint32_t n = D(3) == 2 ? (D(16) == 15 ? 200000 : 1000 + D(20000)) : 1 + D(300);
  const char* open = D(8) == 7 ? "GEOMETRYCOLLECTION(POINT EMPTY," : "GEOMETRYCOLLECTION (";
  uint32_t beside = D(3) == 2 ? D(n) : n;  // the level of a sibling
  GenOpts o = SwarmOpts();
  o.budget = 20;
  auto any = [&]() { return D(3) == 0 ? std::string("POINT (1 2)") : Wkt(GenGeom(o), GenWktStyle()); };
  for (uint32_t i = 0; i < n; i++) {
    s += open;
    if (i == beside) s += any() + ",";
  }
  if (D(4)) {
    s += any();
    if (D(4)) s += std::string(n, ')');
  }
  return s;
}
static std::string Input(const char** kind) {
  GenOpts o = SwarmOpts(600);
  o.null_den = 0;
  auto valid = [&]() { return Wkt(GenGeom(o), GenWktStyle()); };
  std::string s;
  switch (W({4, 2, 4, 4, 2, 3, 1, 1, 2, 1})) {
    case 0:
      *kind = "valid";
      return valid();
    case 1:
      *kind = "truncated";
      s = valid();
      s.resize(D((uint32_t)s.size()));
      return s;
    case 2: {  // one token inserted, replaced or removed
      *kind = "token";
      s = valid();
      uint32_t n = 1 + Small(2);
      for (uint32_t i = 0; i < n; i++) {
        size_t at = D((uint32_t)s.size() + 1);
        if (D(2)) {  // align to a separator
          while (at < s.size() && !strchr(" (),", s[at])) at++;
        }
        switch (D(3)) {
          case 0:
            s.insert(at, Tokens(1));
            break;
          case 1:
            if (at < s.size()) s.erase(at, 1);
            break;
          default: {
            size_t e = at < s.size() ? at + 1 : at;
            while (e < s.size() && !strchr(" (),", s[e])) e++;
            s.replace(at, e - at, Tokens(1));
          }
        }
      }
      return s;
    }
    case 3: {
      *kind = "bytes";
      s = valid();
      uint32_t n = 1 + D(3);
      for (uint32_t i = 0; i < n && !s.empty(); i++) {
        size_t at = D((uint32_t)s.size());
        switch (D(5)) {
          case 0:
            s[at] ^= (char)(1u << D(8));
            break;
          case 1:
            s[at] = (char)D(256);
            break;
          case 2:
            s.erase(at, 1 + D(4));
            break;
          case 3:
            s[at] = '\0';
            break;
          default:
            s.insert(at, 1, (char)D(128));
        }
      }
      return s;
    }
    case 4:
      *kind = "trailing";
      return valid() + (D(3) ? Tokens(1 + D(2)) : std::string(1, '\0') + Tokens(D(3)));
    case 5: {  // numbers
      *kind = "numbers";
      int nd = 2 + (int)D(3);
      s = nd == 2 ? "LINESTRING (" : nd == 4 ? "LINESTRING ZM (" : D(2) ? "LINESTRING Z (" : "LINESTRING M (";
      uint32_t n = 1 + D(4);
      int want = nd;
      if (B(6)) want += D(2) ? 1 : -1;  // a missing or an extra ordinate
      for (uint32_t i = 0; i < n; i++) {
        if (i) s += ", ";
        for (int j = 0; j < want; j++) s += (j ? " " : "") + NumberSpelling();
      }
      return s + ")";
    }
    case 6:
      *kind = "splice";
      s = valid();
      s.resize(D((uint32_t)s.size() + 1));
      {
        std::string b = valid();
        return s + b.substr(D((uint32_t)b.size() + 1));
      }
    case 7: {
      *kind = "random";
      uint32_t n = D(40);
      for (uint32_t i = 0; i < n; i++) s += (char)D(256);
      return s;
    }
    case 8:
      *kind = "tokens";
      return Tokens(1 + D(16));
    default:
      *kind = "deep";
      return Deep();
  }
}

static void Run() {
  uint32_t n = 1 + D(6);
  GeoArrowWKTReader rd;
  SIM_CHECK(GeoArrowWKTReaderInit(&rd) == 0, "init", "reader");
  std::vector<std::optional<std::string>> all;
  std::vector<int> codes;
  for (uint32_t k = 0; k < n; k++) {
    const char* kind;
    std::string s = Input(&kind);
    Count((std::string("fault.wkt_") + kind).c_str());
    Geom want;
    int ref = ParseWkt3(s, &want);
    sim::Note("input %s ref=%d: %.300s", kind, ref, s.c_str());
    std::unique_ptr<char[]> copy(new char[s.size()]);
    memcpy(copy.get(), s.data(), s.size());
    GeoArrowStringView sv;
    sv.data = copy.get();
    sv.size_bytes = (int64_t)s.size();
    GeoArrowError err;
    err.message[0] = 0;
    uint64_t steps0 = sim::Steps();
    Recorder rec(&err);
    int rc = GeoArrowWKTReaderVisit(&rd, sv, &rec.v);
    uint64_t steps = sim::Steps() - steps0;
    Log("%s %zu bytes -> visit %d, ref %d", kind, s.size(), rc, ref);
    codes.push_back(rc);
    if (ref == 1) {
      SIM_CHECK(rc != 0, "accepted-malformed", "reader accepted %s text \"%.400s\" (%zu bytes: %s)", kind, s.c_str(), s.size(),
                sim::Hex(s.data(), s.size(), 100).c_str());
      SIM_CHECK(rec.out.empty() || rec.in_feature(), "feature-from-malformed", "a rejected text still delivered a whole feature: %.400s", s.c_str());
    }
    if (ref == 0) {
      SIM_CHECK(rc == 0, "rejected-valid", "reader returned %d (%s) for \"%.400s\"", rc, err.message, s.c_str());
      SIM_CHECK(rec.out.size() == 1 && !rec.in_feature(), "events", "%zu features", rec.out.size());
      Feature f;
      f.null = false;
      f.g = want;
      if (Key(f) != Key(rec.out[0]))
        Fail("wrong-geometry", "\"%.500s\" was read as %.500s", s.c_str(), Show(rec.out[0]).c_str());
    }
    if (rc != 0) SIM_CHECK(err.message[0] != 0, "no-message", "error %d without a message", rc);
    SIM_CHECK(steps < 20000 + 300 * (uint64_t)s.size(), "work", "%llu steps for %zu bytes", (unsigned long long)steps, s.size());
    sim::State(sim::Mix(sim::HashBytes(err.message, std::min<size_t>(strlen(err.message), 12)), ref * 8 + want.type));
    if (ref != 0 || want.coords() > 1) sim::NonTrivial();
    all.push_back(s);
  }
  GeoArrowWKTReaderReset(&rd);
  // The same items in an array give the same outcomes, wherever the array reader stops.
  if (D(3) == 2) {
    enum GeoArrowType t = D(3) == 0 ? GEOARROW_TYPE_WKT : D(2) ? GEOARROW_TYPE_LARGE_WKT : GEOARROW_TYPE_WKT_VIEW;
    int kind = t == GEOARROW_TYPE_WKT ? BK_I32 : t == GEOARROW_TYPE_LARGE_WKT ? BK_I64 : BK_VIEW;
    Arr a(MakeBinary(all, kind, GenArrOpts()));
    Reader r;
    SIM_CHECK(r.Init(t, (int)D(2)) == 0, "init", "array reader");
    SIM_CHECK(r.SetArray(&a.a, all) == 0, "set-array", "%s", r.err.message);
    for (uint32_t k = 0; k < n; k++) {
      Recorder rec(&r.err);
      int rc = r.Visit(k, 1, &rec.v);
      SIM_CHECK((rc == 0) == (codes[k] == 0), "array-differs", "item %u: %d alone, %d in an array", k, codes[k], rc);
    }
  }
}
SIM_PROPERTY("P06", Run, 180000, 10000000,
             "one run reads 1..7 texts (valid in drawn styles, truncated, token and byte mutations, number spellings, "
             "deep, random) through one reader and compares with a reference parser; non-trivial: malformed or more "
             "than one coordinate")

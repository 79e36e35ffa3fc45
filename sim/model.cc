#include "model.h"

#include <algorithm>
#include <cmath>
#include <cstdlib>

namespace model {
using sim::Fail;
using sim::Range;
using sim::Small;
using sim::W;

int Nd(int dims) {
  switch (dims) {
    case XY:
      return 2;
    case XYZ:
    case XYM:
      return 3;
    case XYZM:
      return 4;
  }
  return 0;
}
const char* TypeName(int t) {
  static const char* n[] = {"?",          "POINT",           "LINESTRING",
                            "POLYGON",    "MULTIPOINT",      "MULTILINESTRING",
                            "MULTIPOLYGON", "GEOMETRYCOLLECTION", "RING"};
  return n[t];
}
const char* DimsName(int d) {
  static const char* n[] = {"?", "", "Z", "M", "ZM"};
  return n[d];
}
size_t Geom::coords() const {
  size_t s = n();
  for (auto& k : kids) s += k.coords();
  return s;
}
size_t Geom::nodes() const {
  size_t s = 1;
  for (auto& k : kids) s += k.nodes();
  return s;
}

static std::string DoubleKey(double v) {
  char b[32];
  if (std::isnan(v)) return "nan";
  uint64_t u;
  memcpy(&u, &v, 8);
  snprintf(b, sizeof b, "%llx", (unsigned long long)u);
  return b;
}
static std::string DoubleText(double v) {
  char b[40];
  snprintf(b, sizeof b, "%.17g", v);
  return b;
}
static bool AllNan(const Geom& g) {
  for (double v : g.c)
    if (!std::isnan(v)) return false;
  return true;
}
static void KeyTo(const Geom& g, bool bits, std::string& s) {
  s += TypeName(g.type);
  s += DimsName(g.dims);
  s += '(';
  if (g.leaf()) {
    if (!(g.type == PT && AllNan(g))) {
      for (size_t i = 0; i < g.c.size(); i++) {
        if (i) s += i % Nd(g.dims) == 0 ? ',' : ' ';
        s += bits ? DoubleKey(g.c[i]) : DoubleText(g.c[i]);
      }
    }
  } else {
    for (size_t i = 0; i < g.kids.size(); i++) {
      if (i) s += ',';
      KeyTo(g.kids[i], bits, s);
    }
  }
  s += ')';
}
std::string Key(const Geom& g, bool bits) {
  std::string s;
  KeyTo(g, bits, s);
  return s;
}
std::string Key(const Feature& f, bool bits) { return f.null ? "NULL" : Key(f.g, bits); }
std::string Show(const Geom& g) {
  std::string s = Key(g, false);
  if (s.size() > 600) s = s.substr(0, 600) + "...";
  return s;
}
std::string Show(const Feature& f) { return f.null ? "NULL" : Show(f.g); }

// ---------------------------------------------------------------- generation
double GenCoord(int style) {
  switch (style) {
    case 0:
      return (double)(int)(D(41)) - (D(2) ? 20 : 0);
    case 1: {
      int64_t m = (int64_t)D(1 << 24) - (D(2) ? (1 << 23) : 0);
      return (double)m / 4;
    }
    case 2: {
      double mant = (double)sim::U64() / 18446744073709551616.0;
      double v = std::ldexp(mant, (int)D(40) - 20);
      return D(2) ? -v : v;
    }
    default:
      switch (D(14)) {
        case 0:
          return 0;
        case 1:
          return -0.0;
        case 2:
          return INFINITY;
        case 3:
          return -INFINITY;
        case 4:
          return NAN;
        case 5:
          return 1e300;
        case 6:
          return -1e300;
        case 7:
          return 4.9e-324;
        case 8:
          return 1.0e17;
        case 9:
          return 123456789012345678.0;
        case 10:
          return 0.1;
        case 11:
          return -99999999999999990.0;
        case 12:
          return 1.7976931348623157e308;
        default: {
          uint64_t u = sim::U64();
          double v;
          memcpy(&v, &u, 8);
          return std::isnan(v) ? 1.5 : v;
        }
      }
  }
}

static uint32_t SeqLen(const GenOpts& o, bool allow_zero) {
  uint32_t n;
  if (o.budget && B(4)) {
    n = std::min(o.budget, sim::Range(386, 6000));
    o.budget -= n;
  } else if (o.big_den && B(o.big_den)) {
    static const uint32_t big[] = {63, 64, 65, 96, 127, 128, 129, 192, 193, 256, 300, 385};
    n = big[D(12)];
  } else {
    n = Small(o.max_coords);
  }
  if (!allow_zero && n == 0) n = 1;
  return n;
}

Geom GenGeom(const GenOpts& o, int type, int dims, uint32_t depth) {
  Geom g;
  g.type = type;
  g.dims = dims;
  int style = o.coord_style >= 0 ? o.coord_style : (int)W({6, 3, 2, 2});
  switch (type) {
    case PT: {
      bool empty = o.empties && B(8) && !(depth > 0 && !o.empty_points_in_multi);
      if (!empty)
        for (int i = 0; i < Nd(dims); i++) g.c.push_back(GenCoord(style));
      break;
    }
    case LS:
    case RING: {
      uint32_t n = SeqLen(o, o.empties);
      if (n >= 386) {  // one draw decides all of them
        uint64_t x = sim::U64();
        for (uint32_t i = 0; i < n * Nd(dims); i++) {
          x = x * 6364136223846793005ull + 1442695040888963407ull;
          double v = (double)((int64_t)x >> 40);
          g.c.push_back(style == 0 ? v : v / 1024);
        }
        break;
      }
      for (uint32_t i = 0; i < n * Nd(dims); i++) g.c.push_back(GenCoord(style));
      break;
    }
    default: {
      uint32_t n = Small(o.max_kids);
      if (type == MPT && o.big_den && B(o.big_den)) n = 60 + D(80);
      if (o.budget && B(3)) {
        n = std::min(o.budget, sim::Range(6, 300));
        o.budget -= n;
      }
      if (!o.empties && n == 0) n = 1;
      for (uint32_t i = 0; i < n; i++) {
        int kt = type == PG ? RING : type == MPT ? PT : type == MLS ? LS : type == MPG ? PG : 0;
        int kd = dims;
        if (kt == 0) {
          kt = 1 + D(depth + 1 < o.max_depth ? 7 : 6);
          if (B(6)) kd = 1 + D(4);
        }
        g.kids.push_back(GenGeom(o, kt, kd, depth + 1));
      }
    }
  }
  return g;
}
Geom GenGeom(const GenOpts& o) {
  int t = o.only_type ? o.only_type : 1 + (int)D(o.collections ? 7 : 6);
  int d = o.only_dims ? o.only_dims : 1 + (int)W({5, 2, 2, 2});
  return GenGeom(o, t, d);
}
Feature GenFeature(const GenOpts& o) {
  Feature f;
  f.null = o.null_den ? B(o.null_den) : false;
  if (!f.null) f.g = GenGeom(o);
  return f;
}
Features GenFeatures(const GenOpts& o, uint32_t n) {
  Features fs;
  for (uint32_t i = 0; i < n; i++) fs.push_back(GenFeature(o));
  return fs;
}
uint32_t DrawRows(const GenOpts& o, uint32_t max) {
  if (o.budget && D(2)) return sim::Range(50, 500);
  return Small(max);
}
GenOpts SwarmOpts(uint32_t large_den) {
  GenOpts o;
  o.max_coords = 1 + D(10);
  o.max_kids = 1 + D(5);
  o.max_depth = 1 + D(4);
  if (D(3) == 2) o.only_type = 1 + D(7);
  if (D(2) == 1) o.only_dims = 1 + D(4);
  o.coord_style = (int)D(5) - 1;
  o.empties = D(4) != 3;
  o.null_den = D(4) == 3 ? 0 : 2 + D(8);
  o.big_den = D(3) == 2 ? 12 : 60;
  if (large_den && B(large_den)) {
    o.budget = 4000;
    o.max_coords = 1 + D(3);
    o.max_kids = 1 + D(2);
    if (D(3) == 2) o.max_depth = 5 + D(20);
    sim::Count("large_features");
  }
  return o;
}

// ---------------------------------------------------------------- transformations
Geom MapDims(const Geom& g, int dims) {
  Geom r;
  r.type = g.type;
  r.dims = dims;
  int sz = g.dims == XYZ || g.dims == XYZM ? 2 : -1;
  int sm = g.dims == XYM ? 2 : g.dims == XYZM ? 3 : -1;
  size_t n = g.n();
  int nd = Nd(g.dims);
  for (size_t i = 0; i < n; i++) {
    const double* c = g.c.data() + i * nd;
    r.c.push_back(c[0]);
    r.c.push_back(c[1]);
    if (dims == XYZ || dims == XYZM) r.c.push_back(sz < 0 ? NAN : c[sz]);
    if (dims == XYM || dims == XYZM) r.c.push_back(sm < 0 ? NAN : c[sm]);
  }
  for (auto& k : g.kids) r.kids.push_back(MapDims(k, dims));
  return r;
}
void DropEmptyParts(Geom& g) {
  for (auto& k : g.kids) DropEmptyParts(k);
  g.kids.erase(std::remove_if(g.kids.begin(), g.kids.end(),
                              [](const Geom& k) { return k.leaf() ? k.c.empty() : k.kids.empty(); }),
               g.kids.end());
}
Geom StripEmptyPointCoords(Geom g) {
  if (g.type == PT && AllNan(g)) g.c.clear();
  for (auto& k : g.kids) k = StripEmptyPointCoords(k);
  return g;
}
size_t Sequences(const Geom& g) {
  if (g.type == LS || g.type == RING || g.type == MPT) return 1;
  size_t s = 0;
  for (auto& k : g.kids) s += Sequences(k);
  return s;
}

// ---------------------------------------------------------------- WKB
WkbStyle GenWkbStyle() {
  WkbStyle s;
  s.endian = (int)((1 + D(3)) % 3);
  s.flavour = (int)D(3);
  s.srid = s.flavour && B(3);
  return s;
}
static void Put32(std::string& o, uint32_t v, bool le) {
  for (int i = 0; i < 4; i++) o += (char)(v >> (8 * (le ? i : 3 - i)));
}
static void PutDouble(std::string& o, double d, bool le) {
  uint64_t v;
  memcpy(&v, &d, 8);
  for (int i = 0; i < 8; i++) o += (char)(v >> (8 * (le ? i : 7 - i)));
}
static void PutSeq(std::string& o, const Geom& g, bool le) {
  for (double v : g.c) PutDouble(o, v, le);
}
static void PutGeom(std::string& o, const Geom& g, const WkbStyle& s, bool root) {
  bool le = s.endian == 2 ? D(2) == 0 : s.endian == 1;
  bool ewkb = s.flavour == 2 ? D(2) == 1 : s.flavour == 1;
  bool srid = ewkb && s.srid && root;
  o += (char)(le ? 1 : 0);
  uint32_t t = g.type;
  if (ewkb) {
    if (g.dims == XYZ || g.dims == XYZM) t |= 0x80000000u;
    if (g.dims == XYM || g.dims == XYZM) t |= 0x40000000u;
    if (srid) t |= 0x20000000u;
  } else {
    t += 1000u * (g.dims - 1);
  }
  Put32(o, t, le);
  if (srid) Put32(o, 4326, le);
  if (g.type == PT) {
    if (g.c.empty())
      for (int i = 0; i < Nd(g.dims); i++) PutDouble(o, NAN, le);
    else
      PutSeq(o, g, le);
    return;
  }
  if (g.type == LS) {
    Put32(o, (uint32_t)g.n(), le);
    PutSeq(o, g, le);
    return;
  }
  Put32(o, (uint32_t)g.kids.size(), le);
  for (auto& k : g.kids) {
    if (g.type == PG) {
      Put32(o, (uint32_t)k.n(), le);
      PutSeq(o, k, le);
    } else {
      PutGeom(o, k, s, false);
    }
  }
}
std::string Wkb(const Geom& g, const WkbStyle& s) {
  std::string o;
  PutGeom(o, g, s, true);
  return o;
}

namespace {
struct WkbIn {
  const uint8_t* p;
  size_t n, pos = 0;
  bool odd = false;
  bool u32(bool le, uint32_t* v) {
    if (n - pos < 4) return false;
    *v = 0;
    for (int i = 0; i < 4; i++) *v |= (uint32_t)p[pos + i] << (8 * (le ? i : 3 - i));
    pos += 4;
    return true;
  }
  bool seq(bool le, uint64_t cnt, Geom* g) {
    uint64_t need = cnt * Nd(g->dims) * 8;
    if (n - pos < need) return false;
    for (uint64_t k = 0; k < cnt * Nd(g->dims); k++) {
      uint64_t v = 0;
      for (int i = 0; i < 8; i++) v |= (uint64_t)p[pos + i] << (8 * (le ? i : 7 - i));
      pos += 8;
      double d;
      memcpy(&d, &v, 8);
      g->c.push_back(d);
    }
    return true;
  }
  // 0 ok, 1 malformed
  int geom(Geom* g, int depth, int parent, int pdims) {
    if (depth > 4000) return 2;
    if (depth > 250) odd = true;
    if (pos >= n) return 1;
    uint8_t e = p[pos++];
    if (e > 1) return 1;
    bool le = e == 1;
    uint32_t t;
    if (!u32(le, &t)) return 1;
    bool z = false, m = false;
    if (t & 0x80000000u) z = true;
    if (t & 0x40000000u) m = true;
    bool srid = t & 0x20000000u;
    t &= 0x1fffffffu;
    if (t > 0xffff) odd = true;
    t &= 0xffff;
    if ((z || m) && t >= 1000) odd = true;
    if (srid) {
      uint32_t x;
      if (!u32(le, &x)) return 1;
    }
    if (t / 1000 > 3) return 1;
    switch (t / 1000) {
      case 1:
        z = true;
        break;
      case 2:
        m = true;
        break;
      case 3:
        z = m = true;
        break;
    }
    t %= 1000;
    if (t < 1 || t > 7) return 1;
    if (parent == MPT && t != PT) odd = true;
    if (parent == MLS && t != LS) odd = true;
    if (parent == MPG && t != PG) odd = true;
    g->type = (int)t;
    g->dims = z && m ? XYZM : m ? XYM : z ? XYZ : XY;
    if (parent != 0 && parent != GC && g->dims != pdims) odd = true;
    if (t == PT) return seq(le, 1, g) ? 0 : 1;
    uint32_t cnt;
    if (!u32(le, &cnt)) return 1;
    if (t == LS) return seq(le, cnt, g) ? 0 : 1;
    for (uint32_t i = 0; i < cnt; i++) {
      g->kids.emplace_back();
      Geom& k = g->kids.back();
      if (t == PG) {
        k.type = RING;
        k.dims = g->dims;
        uint32_t c;
        if (!u32(le, &c)) return 1;
        if (!seq(le, c, &k)) return 1;
      } else if (int rc = geom(&k, depth + 1, (int)t, g->dims)) {
        return rc;
      }
    }
    return 0;
  }
};
}  // namespace
int ParseWkb(const uint8_t* p, size_t n, Geom* out, size_t* used) {
  WkbIn in{p, n};
  *out = Geom();
  int rc = in.geom(out, 0, 0, 0);
  *used = in.pos;
  return rc ? rc : in.odd ? 2 : 0;
}

// ---------------------------------------------------------------- WKT
WktStyle GenWktStyle() {
  WktStyle s;
  s.space = (int)D(3);
  s.flat_multipoint = (int)((D(2) + 1) % 2);
  s.number = (int)D(2);
  return s;
}
std::string NumText(double v, int style) {
  char b[400];
  if (std::isnan(v)) return style && D(2) ? "NaN" : "nan";
  if (std::isinf(v)) {
    std::string s = v < 0 ? "-" : "";
    return s + (style && D(2) ? "Infinity" : "inf");
  }
  if (style == 0) {
    snprintf(b, sizeof b, "%.17g", v);
    for (int p = 1; p < 17; p++) {
      char c[64];
      snprintf(c, sizeof c, "%.*g", p, v);
      if (strtod(c, nullptr) == v) return c;
    }
    return b;
  }
  switch (D(5)) {
    case 0:
      snprintf(b, sizeof b, "%.17g", v);
      break;
    case 1:
      snprintf(b, sizeof b, "%.17e", v);
      break;
    case 2:
      snprintf(b, sizeof b, "%.20E", v);
      break;
    case 3: {
      std::string s = NumText(v, 0);
      if (s.find_first_of(".en") == std::string::npos) s += D(2) ? ".000" : ".";
      return s;
    }
    default: {
      std::string s = NumText(v, 0);  // leading zeros
      if (s[0] == '-') return "-00" + s.substr(1);
      return "00" + s;
    }
  }
  return b;
}
static void Ws(std::string& o, const WktStyle& s, bool must, bool canonical) {
  switch (s.space) {
    case 0:
      if (must || canonical) o += ' ';
      return;
    case 1:
      if (must) o += ' ';
      return;
    default: {
      uint32_t n = must ? 1 + D(2) : D(3);
      static const char w[] = {' ', '\t', '\n', '\r'};
      for (uint32_t i = 0; i < n; i++) o += w[D(4)];
    }
  }
}
static void WktSeq(std::string& o, const Geom& g, const WktStyle& s, bool parens) {
  if (parens) {
    o += '(';
    Ws(o, s, false, false);
  }
  int nd = Nd(g.dims);
  for (size_t i = 0; i < g.n(); i++) {
    if (i) {
      Ws(o, s, false, false);
      o += ',';
      Ws(o, s, false, true);
    }
    for (int j = 0; j < nd; j++) {
      if (j) Ws(o, s, true, true);
      o += NumText(g.c[i * nd + j], s.number);
    }
  }
  if (parens) {
    Ws(o, s, false, false);
    o += ')';
  }
}
static void WktBody(std::string& o, const Geom& g, const WktStyle& s, bool flat);
static void WktTagged(std::string& o, const Geom& g, const WktStyle& s) {
  o += TypeName(g.type);
  if (g.dims != XY) {
    Ws(o, s, true, true);
    o += DimsName(g.dims);
  }
  bool empty = g.leaf() ? g.c.empty() : g.kids.empty();
  Ws(o, s, empty, true);
  bool flat = false;
  if (g.type == MPT) {
    flat = s.flat_multipoint;
    for (auto& k : g.kids)
      if (k.c.empty() && s.flat_multipoint != 2) flat = false;
  }
  WktBody(o, g, s, flat);
}
static void WktBody(std::string& o, const Geom& g, const WktStyle& s, bool flat) {
  if (g.leaf() ? g.c.empty() : g.kids.empty()) {
    o += "EMPTY";
    return;
  }
  if (g.leaf()) {
    WktSeq(o, g, s, true);
    return;
  }
  o += '(';
  Ws(o, s, false, false);
  for (size_t i = 0; i < g.kids.size(); i++) {
    if (i) {
      Ws(o, s, false, false);
      o += ',';
      Ws(o, s, false, true);
    }
    const Geom& k = g.kids[i];
    if (g.type == GC)
      WktTagged(o, k, s);
    else if (flat && !k.c.empty())
      WktSeq(o, k, s, false);
    else
      WktBody(o, k, s, false);
  }
  Ws(o, s, false, false);
  o += ')';
}
std::string Wkt(const Geom& g, const WktStyle& s) {
  std::string o;
  if (s.space == 2) Ws(o, s, false, false);
  WktTagged(o, g, s);
  if (s.space == 2) Ws(o, s, false, false);
  return o;
}

// Reference parser: recursive descent over the documented grammar (upper-case
// keywords, optional Z/M/ZM, EMPTY anywhere, flat or nested multipoints which may
// be mixed), any whitespace between tokens.
namespace {
struct WktIn {
  const std::string& s;
  size_t p = 0;
  bool odd = false;
  void ws() {
    while (p < s.size() && (s[p] == ' ' || s[p] == '\t' || s[p] == '\n' || s[p] == '\r')) p++;
  }
  char peek() { return p < s.size() ? s[p] : '\0'; }
  bool is(char c) { return p < s.size() && s[p] == c; }
  std::string word() {
    size_t q = p;
    while (q < s.size() && !strchr(" \t\n\r,()", s[q]) && s[q] != '\0') q++;
    return s.substr(p, q - p);
  }
  bool number(double* out) {
    std::string w = word();
    if (w.empty()) return false;
    // accepted spellings
    size_t i = 0;
    if (w[i] == '-') i++;
    std::string body = w.substr(i), low;
    for (char ch : body) low += (char)tolower((unsigned char)ch);
    if (low == "nan" || low == "inf" || low == "infinity") {
      *out = low == "nan" ? NAN : (i ? -INFINITY : INFINITY);
      p += w.size();
      return true;
    }
    if (w.size() > 60 || w[0] == '\v' || w[0] == '\f') odd = true;
    if (body.find_first_of("+xXpP_") != std::string::npos && w[0] != '-' && body[0] == '+') odd = true;
    if (low.find_first_of("xp") != std::string::npos || low.compare(0, 3, "nan") == 0) odd = true;
    size_t digits = 0, k = 0;
    while (k < body.size() && isdigit((unsigned char)body[k])) k++, digits++;
    if (k < body.size() && body[k] == '.') {
      k++;
      while (k < body.size() && isdigit((unsigned char)body[k])) k++, digits++;
    }
    if (!digits) return false;
    if (k < body.size() && (body[k] == 'e' || body[k] == 'E')) {
      k++;
      if (k < body.size() && (body[k] == '+' || body[k] == '-')) k++;
      size_t ed = 0;
      while (k < body.size() && isdigit((unsigned char)body[k])) k++, ed++;
      if (!ed) return false;
    }
    if (k != body.size()) return false;
    *out = strtod(w.c_str(), nullptr);
    if (std::isinf(*out)) odd = true;
    if (std::fabs(*out) < 2.3e-308 && body.find_first_of("123456789") < body.find_first_of("eE")) odd |= *out == 0;
    p += w.size();
    return true;
  }
  bool empty() {
    if (word() == "EMPTY") {
      p += 5;
      return true;
    }
    return false;
  }
  bool coord(Geom* g) {
    for (int i = 0; i < Nd(g->dims); i++) {
      if (i) {
        size_t q = p;
        ws();
        if (p == q) return false;
      }
      double v;
      if (!number(&v)) return false;
      g->c.push_back(v);
    }
    return true;
  }
  bool body(Geom* g, int depth) {
    ws();
    if (!is('(')) return empty();
    p++;
    if (g->leaf()) {
      ws();
      if (!coord(g)) return false;
      ws();
      while (!is(')')) {
        if (g->type == PT) return false;
        if (!is(',')) return false;
        p++;
        ws();
        if (!coord(g)) return false;
        ws();
      }
      p++;
      return true;
    }
    for (;;) {
      ws();
      Geom k;
      k.dims = g->dims;
      k.type = g->type == PG ? RING : g->type == MPT ? PT : g->type == MLS ? LS : g->type == MPG ? PG : 0;
      if (g->type == GC) {
        if (!tagged(&k, depth + 1)) return false;
      } else if (g->type == MPT && !is('(') && word() != "EMPTY") {
        if (!coord(&k)) return false;
      } else if (!body(&k, depth + 1)) {
        return false;
      }
      g->kids.push_back(std::move(k));
      ws();
      if (is(')')) break;
      if (!is(',')) return false;
      p++;
    }
    p++;
    return true;
  }
  bool tagged(Geom* g, int depth) {
    if (depth > 200) odd = true;
    if (depth > 4000) return false;
    ws();
    std::string w = word();
    g->type = 0;
    for (int t = 1; t <= 7; t++)
      if (w == TypeName(t)) g->type = t;
    if (!g->type) return false;
    p += w.size();
    ws();
    g->dims = XY;
    w = word();
    if (w == "Z") g->dims = XYZ;
    if (w == "M") g->dims = XYM;
    if (w == "ZM") g->dims = XYZM;
    if (g->dims != XY) p += w.size();
    return body(g, depth);
  }
};
}  // namespace
int ParseWkt3(const std::string& s, Geom* out) {
  WktIn in{s};
  *out = Geom();
  bool ok = in.tagged(out, 0);
  if (ok) {
    in.ws();
    ok = in.p == s.size();
  }
  return in.odd ? 2 : ok ? 0 : 1;
}
std::string CanonicalNumber(double v) {
  char b[64];
  snprintf(b, sizeof b, "%.2f", v);
  std::string s = b;
  while (s.back() == '0') s.pop_back();
  if (s.back() == '.') s.pop_back();
  return s;
}
static void CanonSeq(std::string& o, const Geom& g) {
  int nd = Nd(g.dims);
  for (size_t i = 0; i < g.n(); i++) {
    if (i) o += ", ";
    for (int j = 0; j < nd; j++) {
      if (j) o += ' ';
      o += CanonicalNumber(g.c[i * nd + j]);
    }
  }
}
static void Canon(std::string& o, const Geom& g, bool flat, bool tag) {
  if (tag) {
    o += TypeName(g.type);
    if (g.dims != XY) {
      o += ' ';
      o += DimsName(g.dims);
    }
    o += ' ';
  }
  if (g.leaf() ? g.c.empty() : g.kids.empty()) {
    o += "EMPTY";
    return;
  }
  o += '(';
  if (g.leaf()) {
    CanonSeq(o, g);
  } else {
    for (size_t i = 0; i < g.kids.size(); i++) {
      if (i) o += ", ";
      if (g.type == MPT && flat && !g.kids[i].c.empty())
        CanonSeq(o, g.kids[i]);
      else
        Canon(o, g.kids[i], flat, g.type == GC);
    }
  }
  o += ')';
}
std::string CanonicalWkt(const Geom& g, bool flat) {
  std::string o;
  Canon(o, g, flat, true);
  return o;
}

// ---------------------------------------------------------------- arrays
int64_t g_arrays_live = 0, g_array_releases = 0;
namespace {
struct HPriv {
  std::vector<std::pair<void*, size_t>> bufs;
  std::vector<const void*> ptrs;
  std::vector<ArrowArray*> kids;
  bool top = false;
};
void HRelease(ArrowArray* a) {
  HPriv* p = (HPriv*)a->private_data;
  for (auto k : p->kids) {
    if (k->release) k->release(k);
    delete k;
  }
  for (auto& b : p->bufs) {
    memset(b.first, 0xDB, b.second);
    free(b.first);
  }
  if (p->top) {
    g_arrays_live--;
    g_array_releases++;
  }
  delete p;
  a->release = nullptr;
}
struct Builder {
  ArrowArray a;
  HPriv* p;
  Builder(int64_t len, int64_t off, int64_t nulls) {
    memset(&a, 0, sizeof a);
    p = new HPriv();
    a.length = len;
    a.offset = off;
    a.null_count = nulls;
    a.release = &HRelease;
    a.private_data = p;
  }
  void Null() { p->ptrs.push_back(nullptr); }
  void Buf(const void* d, size_t n) {
    void* m = malloc(n);  // exact size: ASan guards both ends
    memcpy(m, d, n);
    p->bufs.push_back({m, n});
    p->ptrs.push_back(m);
  }
  template <class T>
  void Vec(const std::vector<T>& v) {
    if (v.empty()) {
      T z{};
      Buf(&z, 0);
    } else {
      Buf(v.data(), v.size() * sizeof(T));
    }
  }
  void Kid(ArrowArray k) { p->kids.push_back(new ArrowArray(k)); }
  ArrowArray Done() {
    a.n_buffers = (int64_t)p->ptrs.size();
    a.buffers = p->ptrs.data();
    a.n_children = (int64_t)p->kids.size();
    a.children = p->kids.empty() ? nullptr : p->kids.data();
    return a;
  }
};
ArrowArray Top(ArrowArray a) {
  ((HPriv*)a.private_data)->top = true;
  g_arrays_live++;
  return a;
}
struct Rows {  // logical row -> physical slot, -1: garbage row
  std::vector<int> src;
  int64_t offset, length;
};
Rows Layout(size_t n, const ArrOpts& o) {
  Rows r;
  uint32_t pre = 0, post = 0;
  if (o.slice) {
    pre = W({2, 2, 1}) == 0 ? 0 : D(11);
    post = D(3) == 0 ? 0 : D(4);
  }
  for (uint32_t i = 0; i < pre; i++) r.src.push_back(-1);
  for (size_t i = 0; i < n; i++) r.src.push_back((int)i);
  for (uint32_t i = 0; i < post; i++) r.src.push_back(-1);
  r.offset = pre;
  r.length = (int64_t)n;
  return r;
}
template <class F>
void Validity(Builder& b, const Rows& r, const ArrOpts& o, F is_null) {
  bool any = false;
  for (int s : r.src)
    if (s >= 0 && is_null(s)) any = true;
  if (!any && !o.validity) {
    b.Null();
    if (!any) b.a.null_count = 0;
    return;
  }
  std::vector<uint8_t> bits((r.src.size() + 7) / 8, 0);
  int64_t nulls = 0;
  for (size_t i = 0; i < r.src.size(); i++) {
    bool valid = r.src[i] >= 0 ? !is_null(r.src[i]) : (i % 2 == 0);
    if (r.src[i] >= 0 && !valid) nulls++;
    if (valid) bits[i / 8] |= 1 << (i % 8);
  }
  b.Vec(bits);
  b.a.null_count = D(4) == 3 ? -1 : nulls;
}
}  // namespace
ArrOpts GenArrOpts() {
  ArrOpts o;
  o.slice = D(3) != 0;
  o.garbage = D(2) == 1;
  o.validity = D(3) == 2;
  return o;
}

ArrowArray MakeBinary(const std::vector<std::optional<std::string>>& v, int kind,
                      const ArrOpts& o) {
  Rows r = Layout(v.size(), o);
  Builder b(r.length, r.offset, 0);
  Validity(b, r, o, [&](int s) { return !v[s].has_value(); });
  std::vector<std::string> cells;
  for (int s : r.src) {
    if (s < 0)
      cells.push_back(std::string("\xff\xfe\xfd garbage", o.garbage ? 5 + D(7) : 0));
    else if (!v[s])
      cells.push_back(o.garbage ? "POINT (garbage" : "");
    else
      cells.push_back(*v[s]);
  }
  if (kind == BK_VIEW) {
    std::vector<ArrowBinaryView> views;
    uint32_t nvar = 1 + D(3);
    std::vector<std::string> var(nvar);
    for (auto& c : cells) {
      ArrowBinaryView w;
      memset(&w, 0, sizeof w);
      if (c.size() <= 12) {
        w.inlined.size = (int32_t)c.size();
        memcpy(w.inlined.data, c.data(), c.size());
      } else {
        uint32_t k = D(nvar);
        w.ref.size = (int32_t)c.size();
        memcpy(w.ref.prefix, c.data(), 4);
        w.ref.buffer_index = (int32_t)k;
        w.ref.offset = (int32_t)var[k].size();
        var[k] += c;
      }
      views.push_back(w);
    }
    b.Vec(views);
    std::vector<int64_t> sizes;
    for (auto& x : var) {
      b.Buf(x.data(), x.size());
      sizes.push_back((int64_t)x.size());
    }
    b.Vec(sizes);
    return Top(b.Done());
  }
  std::string data;
  std::vector<int32_t> o32;
  std::vector<int64_t> o64;
  uint32_t lead = o.slice && D(3) == 2 ? D(5) : 0;  // first offset need not be zero
  data.append(lead, 'x');
  o32.push_back((int32_t)lead);
  o64.push_back(lead);
  for (auto& c : cells) {
    data += c;
    o32.push_back((int32_t)data.size());
    o64.push_back((int64_t)data.size());
  }
  if (kind == BK_I32)
    b.Vec(o32);
  else
    b.Vec(o64);
  b.Buf(data.data(), data.size());
  return Top(b.Done());
}

namespace {
// Coordinates as an array with its own random offset.
ArrowArray Coords(const std::vector<double>& c, int nd, int coord_type, const ArrOpts& o,
                  bool top_level, const Rows* rows, const Features* f) {
  // `rows`/`f` are given for point arrays (validity lives on this array).
  size_t n = c.size() / nd;
  uint32_t off = !top_level && o.slice && D(3) == 2 ? 1 + D(5) : 0;
  Builder b(top_level ? rows->length : (int64_t)n, top_level ? rows->offset : off, 0);
  if (top_level)
    Validity(b, *rows, o, [&](int s) { return (*f)[s].null; });
  else
    b.Null();
  size_t tail = !top_level && o.slice ? D(3) : 0;
  if (coord_type == GEOARROW_COORD_TYPE_INTERLEAVED) {
    uint32_t koff = o.slice && D(4) == 3 ? 1 + D(5) : 0;
    std::vector<double> d(koff + (size_t)off * nd, 7777);
    d.insert(d.end(), c.begin(), c.end());
    d.insert(d.end(), tail * nd, 8888);
    Builder k((int64_t)d.size() - koff, koff, 0);
    k.Null();
    k.Vec(d);
    b.Kid(k.Done());
  } else {
    for (int j = 0; j < nd; j++) {
      uint32_t koff = o.slice && D(4) == 3 ? 1 + D(5) : 0;
      std::vector<double> d(koff + off, 7777);
      for (size_t i = 0; i < n; i++) d.push_back(c[i * nd + j]);
      d.insert(d.end(), tail, 8888);
      Builder k((int64_t)d.size() - koff, koff, 0);
      k.Null();
      k.Vec(d);
      b.Kid(k.Done());
    }
  }
  return b.Done();
}
// One nesting level: lists of the child's elements.
ArrowArray ListOf(ArrowArray child, std::vector<int32_t> offs, int64_t len, int64_t off,
                  Builder* top) {
  if (top) {
    top->Vec(offs);
    top->Kid(child);
    return top->Done();
  }
  Builder b(len, off, 0);
  b.Null();
  b.Vec(offs);
  b.Kid(child);
  return b.Done();
}
}  // namespace

ArrowArray MakeNative(int gtype, int dims, int coord_type, const Features& f,
                      const ArrOpts& o) {
  Rows r = Layout(f.size(), o);
  int nd = Nd(dims);
  // physical rows
  std::vector<Geom> rows;
  Geom junk;
  junk.type = gtype;
  junk.dims = dims;
  {
    Geom leaf;
    leaf.dims = dims;
    leaf.type = gtype == PG || gtype == MPG ? RING : gtype == MPT || gtype == PT ? PT : LS;
    for (int i = 0; i < nd; i++) leaf.c.push_back(5555 + i);
    if (gtype == PT || gtype == LS)
      junk = leaf;
    else if (gtype == MPG) {
      Geom pg;
      pg.type = PG;
      pg.dims = dims;
      pg.kids.push_back(leaf);
      junk.kids.push_back(pg);
    } else
      junk.kids.push_back(leaf);
    junk.type = gtype;
  }
  Geom empty;
  empty.type = gtype;
  empty.dims = dims;
  for (int s : r.src) {
    if (s < 0)
      rows.push_back(o.garbage ? junk : empty);
    else if (f[s].null)
      rows.push_back(o.garbage && D(2) ? junk : empty);
    else
      rows.push_back(f[s].g);
  }
  auto put = [&](std::vector<double>& c, const Geom& g) {
    if (g.type == PT && g.c.empty())
      for (int i = 0; i < nd; i++) c.push_back(NAN);
    else
      c.insert(c.end(), g.c.begin(), g.c.end());
  };
  if (gtype == PT) {
    std::vector<double> c;
    for (auto& g : rows) put(c, g);
    return Top(Coords(c, nd, coord_type, o, true, &r, &f));
  }
  Builder top(r.length, r.offset, 0);
  Validity(top, r, o, [&](int s) { return f[s].null; });
  std::vector<double> c;
  auto lead = [&]() -> uint32_t { return o.slice && D(3) == 2 ? 1 + D(4) : 0; };
  int depth = gtype == LS || gtype == MPT ? 1 : gtype == MPG ? 3 : 2;
  // offsets per level, with leading garbage elements
  std::vector<int32_t> o0, o1, o2;
  uint32_t lc = lead();
  for (uint32_t i = 0; i < lc * nd; i++) c.push_back(4444);
  if (depth == 1) {
    o0.push_back((int32_t)lc);
    for (auto& g : rows) {
      if (gtype == MPT)
        for (auto& k : g.kids) put(c, k);
      else
        put(c, g);
      o0.push_back((int32_t)(c.size() / nd));
    }
    return Top(ListOf(Coords(c, nd, coord_type, o, false, nullptr, nullptr), o0, 0, 0, &top));
  }
  uint32_t l1 = lead();
  if (depth == 2) {
    // level 1 lists (rings / linestrings)
    o1.push_back(0);
    for (uint32_t i = 0; i < l1; i++) o1.push_back((int32_t)(i + 1 == l1 ? lc : 0));
    if (l1 == 0) o1[0] = (int32_t)lc;
    uint32_t off1 = o.slice && l1 && D(2) ? 1 + D(l1) : 0;  // child array offset
    o0.push_back((int32_t)(l1 - off1));
    int32_t cnt = (int32_t)(l1 - off1);
    for (auto& g : rows) {
      for (auto& k : g.kids) {
        put(c, k);
        o1.push_back((int32_t)(c.size() / nd));
        cnt++;
      }
      o0.push_back(cnt);
    }
    ArrowArray coords = Coords(c, nd, coord_type, o, false, nullptr, nullptr);
    ArrowArray mid = ListOf(coords, o1, (int64_t)o1.size() - 1 - off1, off1, nullptr);
    return Top(ListOf(mid, o0, 0, 0, &top));
  }
  uint32_t l2 = lead();
  o2.push_back(0);
  for (uint32_t i = 0; i < l2; i++) o2.push_back((int32_t)(i + 1 == l2 ? lc : 0));
  if (l2 == 0) o2[0] = (int32_t)lc;
  uint32_t off2 = o.slice && l2 && D(2) ? 1 + D(l2) : 0;
  int32_t rings = (int32_t)(l2 - off2);
  o1.push_back(0);
  for (uint32_t i = 0; i < l1; i++) o1.push_back(i + 1 == l1 ? rings : 0);
  if (l1 == 0) o1[0] = rings;
  uint32_t off1 = o.slice && l1 && D(2) ? 1 + D(l1) : 0;
  int32_t polys = (int32_t)(l1 - off1);
  o0.push_back(polys);
  for (auto& g : rows) {
    for (auto& pg : g.kids) {
      for (auto& rg : pg.kids) {
        put(c, rg);
        o2.push_back((int32_t)(c.size() / nd));
        rings++;
      }
      o1.push_back(rings);
      polys++;
    }
    o0.push_back(polys);
  }
  ArrowArray coords = Coords(c, nd, coord_type, o, false, nullptr, nullptr);
  ArrowArray a2 = ListOf(coords, o2, (int64_t)o2.size() - 1 - off2, off2, nullptr);
  ArrowArray a1 = ListOf(a2, o1, (int64_t)o1.size() - 1 - off1, off1, nullptr);
  return Top(ListOf(a1, o0, 0, 0, &top));
}

ArrowArray MakeBox(int dims, const std::vector<std::optional<std::vector<double>>>& v,
                   const ArrOpts& o) {
  Rows r = Layout(v.size(), o);
  Builder b(r.length, r.offset, 0);
  Validity(b, r, o, [&](int s) { return !v[s].has_value(); });
  int nd = Nd(dims) * 2;
  for (int j = 0; j < nd; j++) {
    std::vector<double> d;
    for (int s : r.src) d.push_back(s >= 0 && v[s] ? (*v[s])[j] : 3333 + j);
    uint32_t koff = o.slice && D(4) == 3 ? 1 + D(5) : 0;
    d.insert(d.begin(), koff, 2222);
    Builder k((int64_t)d.size() - koff, koff, 0);
    k.Null();
    k.Vec(d);
    b.Kid(k.Done());
  }
  return Top(b.Done());
}

bool IsNative(enum GeoArrowType t) {
  return t >= GEOARROW_TYPE_POINT && t <= GEOARROW_TYPE_INTERLEAVED_MULTIPOLYGON_ZM;
}
bool IsSerialized(enum GeoArrowType t) {
  switch (t) {
    case GEOARROW_TYPE_WKB:
    case GEOARROW_TYPE_LARGE_WKB:
    case GEOARROW_TYPE_WKB_VIEW:
    case GEOARROW_TYPE_WKT:
    case GEOARROW_TYPE_LARGE_WKT:
    case GEOARROW_TYPE_WKT_VIEW:
      return true;
    default:
      return false;
  }
}
bool IsWkt(enum GeoArrowType t) {
  return t == GEOARROW_TYPE_WKT || t == GEOARROW_TYPE_LARGE_WKT || t == GEOARROW_TYPE_WKT_VIEW;
}
// The layout of the enumeration is public ABI: 1..6 (+1000 Z, +2000 M, +3000 ZM),
// +10000 for interleaved coordinates.
enum GeoArrowType NativeType(int gtype, int dims, int coord_type) {
  return (enum GeoArrowType)(gtype + 1000 * (dims - 1) +
                             (coord_type == GEOARROW_COORD_TYPE_INTERLEAVED ? 10000 : 0));
}
TypeParts Parts(enum GeoArrowType t) {
  TypeParts p;
  int v = (int)t;
  p.coord_type = v >= 10000 ? GEOARROW_COORD_TYPE_INTERLEAVED : GEOARROW_COORD_TYPE_SEPARATE;
  v %= 10000;
  p.dims = v / 1000 + 1;
  p.gtype = v % 1000;
  return p;
}
std::string TypeText(enum GeoArrowType t) {
  switch (t) {
    case GEOARROW_TYPE_WKB:
      return "wkb";
    case GEOARROW_TYPE_LARGE_WKB:
      return "large_wkb";
    case GEOARROW_TYPE_WKB_VIEW:
      return "wkb_view";
    case GEOARROW_TYPE_WKT:
      return "wkt";
    case GEOARROW_TYPE_LARGE_WKT:
      return "large_wkt";
    case GEOARROW_TYPE_WKT_VIEW:
      return "wkt_view";
    case GEOARROW_TYPE_BOX:
    case GEOARROW_TYPE_BOX_Z:
    case GEOARROW_TYPE_BOX_M:
    case GEOARROW_TYPE_BOX_ZM:
      return "box";
    default: {
      TypeParts p = Parts(t);
      if (p.gtype < 1 || p.gtype > 6) return std::to_string((int)t);
      return std::string(p.coord_type == GEOARROW_COORD_TYPE_INTERLEAVED ? "interleaved_" : "") +
             TypeName(p.gtype) + "_" + DimsName(p.dims);
    }
  }
}
ArrowArray MakeSource(enum GeoArrowType t, const Features& f, const ArrOpts& o,
                      std::vector<std::optional<std::string>>* enc) {
  if (IsSerialized(t)) {
    std::vector<std::optional<std::string>> v;
    for (auto& x : f) {
      if (x.null)
        v.push_back(std::nullopt);
      else if (IsWkt(t))
        v.push_back(Wkt(x.g, GenWktStyle()));
      else
        v.push_back(Wkb(x.g, GenWkbStyle()));
    }
    if (enc) *enc = v;
    int kind = t == GEOARROW_TYPE_WKB || t == GEOARROW_TYPE_WKT ? BK_I32
               : t == GEOARROW_TYPE_LARGE_WKB || t == GEOARROW_TYPE_LARGE_WKT ? BK_I64
                                                                             : BK_VIEW;
    return MakeBinary(v, kind, o);
  }
  TypeParts p = Parts(t);
  return MakeNative(p.gtype, p.dims, p.coord_type, f, o);
}

// ---------------------------------------------------------------- decoding
static void Need(const void* p, size_t bytes, const char* what, const char* buf) {
  if (bytes == 0) return;
  SIM_CHECK(p != nullptr, "inconsistent-array", "%s: %s buffer is NULL but %zu bytes are needed",
            what, buf, bytes);
  size_t have;
  if (sim::IsLive(p, &have))
    SIM_CHECK(have >= bytes, "inconsistent-array",
              "%s: %s buffer has %zu bytes but %zu are needed", what, buf, have, bytes);
}
void CheckArrayShape(const ArrowArray* a, int64_t len, const char* what) {
  SIM_CHECK(a->release != nullptr, "inconsistent-array", "%s: array is released", what);
  SIM_CHECK(a->length >= 0 && a->offset >= 0, "inconsistent-array", "%s: negative length", what);
  if (len >= 0)
    SIM_CHECK(a->length == len, "row-count", "%s: %lld rows where %lld were expected", what,
              (long long)a->length, (long long)len);
  if (a->n_buffers > 0 && a->buffers[0]) {
    const uint8_t* bits = (const uint8_t*)a->buffers[0];
    Need(bits, (size_t)((a->offset + a->length + 7) / 8), what, "validity");
    int64_t nulls = 0;
    for (int64_t i = a->offset; i < a->offset + a->length; i++)
      nulls += !((bits[i / 8] >> (i % 8)) & 1);
    SIM_CHECK(a->null_count == nulls || a->null_count == -1, "inconsistent-array",
              "%s: null_count is %lld but %lld rows are null", what, (long long)a->null_count,
              (long long)nulls);
  } else if (a->n_buffers > 0) {
    SIM_CHECK(a->null_count <= 0, "inconsistent-array",
              "%s: null_count is %lld without a validity buffer", what,
              (long long)a->null_count);
  }
}
static bool RowNull(const ArrowArray* a, int64_t i) {
  if (!a->buffers[0]) return false;
  i += a->offset;
  return !((((const uint8_t*)a->buffers[0])[i / 8] >> (i % 8)) & 1);
}
static void CheckOffsets(const ArrowArray* a, const char* what) {
  const int32_t* o = (const int32_t*)a->buffers[1];
  if (a->length == 0 && !o) return;
  Need(o, (size_t)(a->offset + a->length + 1) * 4, what, "offset");
  for (int64_t i = a->offset; i < a->offset + a->length; i++)
    SIM_CHECK(o[i] >= 0 && o[i] <= o[i + 1], "inconsistent-array",
              "%s: offsets decrease at row %lld (%d, %d)", what, (long long)i, o[i], o[i + 1]);
}
std::vector<std::optional<std::string>> DecodeBinary(const ArrowArray* a, const char* what) {
  CheckArrayShape(a, -1, what);
  SIM_CHECK(a->n_buffers == 3 && a->n_children == 0, "inconsistent-array",
            "%s: %lld buffers, %lld children", what, (long long)a->n_buffers,
            (long long)a->n_children);
  CheckOffsets(a, what);
  std::vector<std::optional<std::string>> v;
  if (a->length == 0) return v;
  const int32_t* o = (const int32_t*)a->buffers[1] + a->offset;
  const char* d = (const char*)a->buffers[2];
  Need(d, (size_t)o[a->length], what, "data");
  for (int64_t i = 0; i < a->length; i++) {
    if (RowNull(a, i))
      v.push_back(std::nullopt);
    else
      v.push_back(std::string(d ? d + o[i] : "", (size_t)(o[i + 1] - o[i])));
  }
  return v;
}

namespace {
struct NativeIn {
  int dims, nd;
  bool inter;
  const char* what;
  const ArrowArray* coords = nullptr;
  void SetCoords(const ArrowArray* a, int64_t need) {
    coords = a;
    SIM_CHECK(a->length >= need, "inconsistent-array",
              "%s: coordinate array has %lld elements but offsets reach %lld", what,
              (long long)a->length, (long long)need);
    if (inter) {
      SIM_CHECK(a->n_children == 1 && a->n_buffers == 1, "inconsistent-array",
                "%s: interleaved coordinates have %lld children", what,
                (long long)a->n_children);
      const ArrowArray* k = a->children[0];
      SIM_CHECK(k->n_buffers == 2 && k->length >= (a->offset + a->length) * nd,
                "inconsistent-array", "%s: ordinate child has length %lld for %lld coordinates",
                what, (long long)k->length, (long long)a->length);
      Need(k->buffers[1], (size_t)(k->offset + k->length) * 8, what, "ordinate");
    } else {
      SIM_CHECK(a->n_children == nd && a->n_buffers == 1, "inconsistent-array",
                "%s: struct coordinates have %lld children", what, (long long)a->n_children);
      for (int j = 0; j < nd; j++) {
        const ArrowArray* k = a->children[j];
        SIM_CHECK(k->n_buffers == 2 && k->length >= a->offset + a->length,
                  "inconsistent-array", "%s: ordinate child %d has length %lld for %lld", what,
                  j, (long long)k->length, (long long)a->length);
        Need(k->buffers[1], (size_t)(k->offset + k->length) * 8, what, "ordinate");
      }
    }
  }
  void Get(int64_t i, std::vector<double>* out) {
    i += coords->offset;
    for (int j = 0; j < nd; j++) {
      const ArrowArray* k = coords->children[inter ? 0 : j];
      const double* d = (const double*)k->buffers[1] + k->offset;
      out->push_back(inter ? d[i * nd + j] : d[i]);
    }
  }
};
const ArrowArray* List(const ArrowArray* a, int64_t need, const char* what) {
  SIM_CHECK(a->n_buffers == 2 && a->n_children == 1, "inconsistent-array",
            "%s: list has %lld buffers and %lld children", what, (long long)a->n_buffers,
            (long long)a->n_children);
  SIM_CHECK(a->length >= need, "inconsistent-array",
            "%s: list child has %lld elements but offsets reach %lld", what,
            (long long)a->length, (long long)need);
  CheckOffsets(a, what);
  return a->children[0];
}
int64_t LastOffset(const ArrowArray* a) {
  if (a->length == 0) return 0;
  return ((const int32_t*)a->buffers[1])[a->offset + a->length];
}
int32_t Off(const ArrowArray* a, int64_t i) {
  return ((const int32_t*)a->buffers[1])[a->offset + i];
}
}  // namespace

Features DecodeNative(enum GeoArrowType t, const ArrowArray* a, const char* what) {
  TypeParts p = Parts(t);
  CheckArrayShape(a, -1, what);
  NativeIn in;
  in.dims = p.dims;
  in.nd = Nd(p.dims);
  in.inter = p.coord_type == GEOARROW_COORD_TYPE_INTERLEAVED;
  in.what = what;
  Features f;
  const ArrowArray *l0 = a, *l1 = nullptr, *l2 = nullptr;
  switch (p.gtype) {
    case PT:
      in.SetCoords(a, a->length);
      break;
    case LS:
    case MPT:
      in.SetCoords(List(l0, 0, what), LastOffset(l0));
      break;
    case PG:
    case MLS:
      l1 = List(l0, 0, what);
      in.SetCoords(List(l1, LastOffset(l0), what), LastOffset(l1));
      break;
    default:
      l1 = List(l0, 0, what);
      l2 = List(l1, LastOffset(l0), what);
      in.SetCoords(List(l2, LastOffset(l1), what), LastOffset(l2));
  }
  auto seq = [&](int type, int64_t b, int64_t e) {
    Geom g;
    g.type = type;
    g.dims = p.dims;
    for (int64_t i = b; i < e; i++) in.Get(i, &g.c);
    return g;
  };
  for (int64_t i = 0; i < a->length; i++) {
    Feature x;
    x.null = RowNull(a, i);
    x.g.type = p.gtype;
    x.g.dims = p.dims;
    if (!x.null) {
      switch (p.gtype) {
        case PT:
          // SetCoords' array is `a` itself: element i
          in.Get(i, &x.g.c);
          break;
        case LS:
          x.g = seq(LS, Off(l0, i), Off(l0, i + 1));
          break;
        case MPT:
          for (int64_t k = Off(l0, i); k < Off(l0, i + 1); k++)
            x.g.kids.push_back(seq(PT, k, k + 1));
          break;
        case PG:
        case MLS:
          for (int64_t k = Off(l0, i); k < Off(l0, i + 1); k++)
            x.g.kids.push_back(seq(p.gtype == PG ? RING : LS, Off(l1, k), Off(l1, k + 1)));
          break;
        default:
          for (int64_t k = Off(l0, i); k < Off(l0, i + 1); k++) {
            Geom pg;
            pg.type = PG;
            pg.dims = p.dims;
            for (int64_t m = Off(l1, k); m < Off(l1, k + 1); m++)
              pg.kids.push_back(seq(RING, Off(l2, m), Off(l2, m + 1)));
            x.g.kids.push_back(pg);
          }
      }
    }
    f.push_back(x);
  }
  return f;
}
Features DecodeArray(enum GeoArrowType t, const ArrowArray* a, const char* what) {
  if (!IsSerialized(t)) return DecodeNative(t, a, what);
  Features f;
  size_t row = 0;
  for (auto& s : DecodeBinary(a, what)) {
    Feature x;
    x.null = !s.has_value();
    if (s) {
      if (IsWkt(t)) {
        SIM_CHECK(ParseWkt(*s, &x.g), "bad-output", "%s: row %zu is not well-known text: %s",
                  what, row, s->c_str());
      } else {
        size_t used;
        int rc = ParseWkb((const uint8_t*)s->data(), s->size(), &x.g, &used);
        SIM_CHECK(rc == 0 && used == s->size(), "bad-output",
                  "%s: row %zu is not well-known binary: %s", what, row,
                  sim::Hex(s->data(), s->size(), 200).c_str());
      }
    }
    f.push_back(x);
    row++;
  }
  return f;
}
void HashArray(const char* what, const ArrowArray* a, enum GeoArrowType t) {
  if (IsSerialized(t)) {
    for (auto& s : DecodeBinary(a, what)) {
      if (s)
        sim::LogBytes(what, s->data(), s->size());
      else
        Log("%s null", what);
    }
    return;
  }
  for (auto& f : DecodeNative(t, a, what)) {
    std::string k = Key(f);
    if (sim::Tracing())
      Log("%s %s", what, Show(f).c_str());
    else
      Log("%s", what);
    sim::State(0);
    Log("%llx", (unsigned long long)sim::HashBytes(k.data(), k.size()));
  }
}

// ---------------------------------------------------------------- recorder
namespace {
Recorder* R(GeoArrowVisitor* v) { return (Recorder*)v->private_data; }
#define GRAMMAR(cond, ...)                                   \
  do {                                                       \
    if (r->check && !(cond)) Fail("event-grammar", __VA_ARGS__); \
  } while (0)
int rc_done(Recorder* r, int rc) { return rc; }
int RFeatStart(GeoArrowVisitor* v) {
  Recorder* r = R(v);
  if (int rc = r->Enter("feat_start")) return rc;
  GRAMMAR(!r->in_feat, "feature started inside a feature");
  r->in_feat = true;
  r->have_geom = r->is_null = false;
  r->stack.clear();
  if (r->keep) r->out.emplace_back();
  return r->forward ? r->forward->feat_start(r->forward) : 0;
}
int RNull(GeoArrowVisitor* v) {
  Recorder* r = R(v);
  if (int rc = r->Enter("null_feat")) return rc;
  GRAMMAR(r->in_feat && !r->have_geom && !r->is_null && r->stack.empty(),
          "null feature event outside an empty feature");
  r->is_null = true;
  if (r->keep) r->out.back().null = true;
  return r->forward ? r->forward->null_feat(r->forward) : 0;
}
int RGeomStart(GeoArrowVisitor* v, enum GeoArrowGeometryType t, enum GeoArrowDimensions d) {
  Recorder* r = R(v);
  if (int rc = r->Enter("geom_start")) return rc;
  GRAMMAR(r->in_feat && !r->is_null, "geometry started outside a feature");
  GRAMMAR((int)t >= 1 && (int)t <= 7, "geometry type %d", (int)t);
  GRAMMAR((int)d >= 1 && (int)d <= 4, "dimensions %d", (int)d);
  if (r->stack.empty()) {
    GRAMMAR(!r->have_geom, "second geometry in one feature");
    r->have_geom = true;
  } else {
    Recorder::Level& p = r->stack.back();
    int pt = p.g.type;
    GRAMMAR(!p.ring && pt >= MPT, "geometry started inside a %s", TypeName(pt));
    GRAMMAR(pt == GC || (int)t == pt - 3, "%s started inside a %s", TypeName(t), TypeName(pt));
    GRAMMAR(pt == GC || (int)d == p.g.dims, "child dimensions differ from their parent's");
  }
  Recorder::Level l;
  l.g.type = t;
  l.g.dims = d;
  r->stack.push_back(std::move(l));
  return r->forward ? r->forward->geom_start(r->forward, t, d) : 0;
}
int RRingStart(GeoArrowVisitor* v) {
  Recorder* r = R(v);
  if (int rc = r->Enter("ring_start")) return rc;
  GRAMMAR(!r->stack.empty() && r->stack.back().g.type == PG, "ring started outside a polygon");
  Recorder::Level l;
  l.ring = true;
  l.g.type = RING;
  l.g.dims = r->stack.empty() ? 1 : r->stack.back().g.dims;
  r->stack.push_back(std::move(l));
  return r->forward ? r->forward->ring_start(r->forward) : 0;
}
int RCoords(GeoArrowVisitor* v, const GeoArrowCoordView* c) {
  Recorder* r = R(v);
  if (int rc = r->Enter("coords")) return rc;
  GRAMMAR(!r->stack.empty() && r->stack.back().g.leaf(), "coordinates outside a sequence");
  GRAMMAR(c->n_coords >= 0, "negative coordinate count");
  if (!r->stack.empty()) {
    Geom& g = r->stack.back().g;
    GRAMMAR(c->n_values == Nd(g.dims), "coordinates with %d ordinates in a %s geometry",
            (int)c->n_values, DimsName(g.dims));
    r->n_coords += c->n_coords;
    for (int64_t i = 0; i < c->n_coords; i++)
      for (int j = 0; j < c->n_values; j++) {
        double x;
        memcpy(&x, (const uint8_t*)(c->values[j]) + i * (int64_t)c->coords_stride * 8, 8);
        if (r->keep) g.c.push_back(x);
      }
    GRAMMAR(!(g.type == PT && g.n() > 1), "point with %zu coordinates", g.n());
  }
  return r->forward ? r->forward->coords(r->forward, c) : 0;
}
void Pop(Recorder* r) {
  Geom g = std::move(r->stack.back().g);
  r->stack.pop_back();
  if (!r->keep) return;
  if (r->stack.empty()) {
    r->out.back().null = false;
    r->out.back().g = std::move(g);
  } else {
    r->stack.back().g.kids.push_back(std::move(g));
  }
}
int RRingEnd(GeoArrowVisitor* v) {
  Recorder* r = R(v);
  if (int rc = r->Enter("ring_end")) return rc;
  GRAMMAR(!r->stack.empty() && r->stack.back().ring, "ring end without ring");
  if (!r->stack.empty()) Pop(r);
  return r->forward ? r->forward->ring_end(r->forward) : 0;
}
int RGeomEnd(GeoArrowVisitor* v) {
  Recorder* r = R(v);
  if (int rc = r->Enter("geom_end")) return rc;
  GRAMMAR(!r->stack.empty() && !r->stack.back().ring, "geometry end without geometry");
  if (!r->stack.empty()) Pop(r);
  return r->forward ? r->forward->geom_end(r->forward) : 0;
}
int RFeatEnd(GeoArrowVisitor* v) {
  Recorder* r = R(v);
  if (int rc = r->Enter("feat_end")) return rc;
  GRAMMAR(r->in_feat && r->stack.empty() && (r->have_geom || r->is_null),
          "feature ended while incomplete");
  r->in_feat = false;
  return r->forward ? r->forward->feat_end(r->forward) : 0;
}
}  // namespace
Recorder::Recorder(GeoArrowError* error) {
  GeoArrowVisitorInitVoid(&v);
  v.error = error;
  v.private_data = this;
  v.feat_start = &RFeatStart;
  v.null_feat = &RNull;
  v.geom_start = &RGeomStart;
  v.ring_start = &RRingStart;
  v.coords = &RCoords;
  v.ring_end = &RRingEnd;
  v.geom_end = &RGeomEnd;
  v.feat_end = &RFeatEnd;
}
void Recorder::Reset() {
  out.clear();
  stack.clear();
  events.clear();
  in_feat = have_geom = is_null = failed = false;
  n_calls = calls_after_fail = n_coords = 0;
  first_after_fail.clear();
}
int Recorder::Enter(const char* name) {
  if (failed) {
    if (!calls_after_fail++) first_after_fail = name;
  }
  if (trace) events.push_back(name);
  int64_t k = n_calls++;
  if (k == fail_at && !failed) {
    failed = true;
    return fail_code;
  }
  return 0;
}

// ---------------------------------------------------------------- emitters
void CoordChunk::Set(const double* x, size_t n, int nd, int layout) {
  memset(&view, 0, sizeof view);
  view.n_coords = (int64_t)n;
  view.n_values = nd;
  size_t total = n * nd;
  switch (layout) {
    case 0:  // interleaved
      buf.reset(new double[total ? total : 1]);
      std::copy(x, x + total, buf.get());
      for (int j = 0; j < nd; j++) view.values[j] = buf.get() + j;
      view.coords_stride = nd;
      break;
    case 1:  // separate
      buf.reset(new double[total ? total : 1]);
      for (size_t i = 0; i < n; i++)
        for (int j = 0; j < nd; j++) buf[j * n + i] = x[i * nd + j];
      for (int j = 0; j < nd; j++) view.values[j] = buf.get() + j * n;
      view.coords_stride = 1;
      break;
    default: {  // strided records of nd + 2 doubles
      size_t st = nd + 2;
      size_t m = n ? (n - 1) * st + nd : 1;
      buf.reset(new double[m]);
      std::fill(buf.get(), buf.get() + m, 1234.5);
      for (size_t i = 0; i < n; i++)
        for (int j = 0; j < nd; j++) buf[i * st + j] = x[i * nd + j];
      for (int j = 0; j < nd; j++) view.values[j] = buf.get() + j;
      view.coords_stride = (int32_t)st;
    }
  }
}
static int EmitSeq(const Geom& g, GeoArrowVisitor* v, bool chunk) {
  size_t n = g.n(), i = 0;
  int nd = Nd(g.dims);
  if (n == 0 && (!chunk || D(2))) return 0;
  do {
    size_t k = n - i;
    if (chunk && k > 1 && D(3)) k = 1 + D((uint32_t)k);
    if (chunk && k > 0 && B(12)) k = 0;  // an empty chunk
    CoordChunk c;
    c.Set(g.c.data() + i * nd, k, nd, chunk ? (int)D(3) : 0);
    if (int rc = v->coords(v, &c.view)) return rc;
    i += k;
  } while (i < n);
  return 0;
}
int EmitGeom(const Geom& g, GeoArrowVisitor* v, bool chunk) {
  int rc;
  if (g.type == RING) {
    if ((rc = v->ring_start(v))) return rc;
    if ((rc = EmitSeq(g, v, chunk))) return rc;
    return v->ring_end(v);
  }
  if ((rc = v->geom_start(v, (enum GeoArrowGeometryType)g.type, (enum GeoArrowDimensions)g.dims)))
    return rc;
  if (g.leaf()) {
    if ((rc = EmitSeq(g, v, chunk))) return rc;
  } else {
    for (auto& k : g.kids)
      if ((rc = EmitGeom(k, v, chunk))) return rc;
  }
  return v->geom_end(v);
}
int EmitFeature(const Feature& f, GeoArrowVisitor* v, bool chunk) {
  int rc;
  if ((rc = v->feat_start(v))) return rc;
  if (f.null) {
    if ((rc = v->null_feat(v))) return rc;
  } else if ((rc = EmitGeom(f.g, v, chunk))) {
    return rc;
  }
  return v->feat_end(v);
}

// ---------------------------------------------------------------- geometry views
static const double kNan = NAN;
void ViewBuilder::Add(const Geom& g, int level, bool vary) {
  GeoArrowGeometryNode n;
  memset(&n, 0, sizeof n);
  n.geometry_type = (uint8_t)(g.type == RING ? LS : g.type);
  n.dimensions = (uint8_t)g.dims;
  n.level = (uint8_t)level;
  for (int j = 0; j < 4; j++) n.coords[j] = (const uint8_t*)&kNan;
  if (g.leaf()) {
    n.size = (uint32_t)g.n();
    int nd = Nd(g.dims);
    size_t cnt = g.n();
    if (cnt) {
      int layout = vary ? (int)D(4) : 0;
      bool swap = vary && D(3) == 2;
      // layouts: interleaved, separate, padded+unaligned, reversed
      size_t st = layout == 1 ? 8 : layout == 2 ? nd * 8 + 3 : nd * 8;
      size_t bytes = cnt * nd * 8 + (layout == 2 ? cnt * 3 + 1 : 0);
      std::unique_ptr<uint8_t[]> b(new uint8_t[bytes]);
      memset(b.get(), 0x77, bytes);
      for (size_t i = 0; i < cnt; i++)
        for (int j = 0; j < nd; j++) {
          uint8_t raw[8];
          memcpy(raw, &g.c[i * nd + j], 8);
          if (swap) std::reverse(raw, raw + 8);
          size_t pos;
          if (layout == 1)
            pos = (j * cnt + i) * 8;
          else if (layout == 2)
            pos = 1 + i * st + j * 8;
          else if (layout == 3)
            pos = ((cnt - 1 - i) * nd + j) * 8;
          else
            pos = (i * nd + j) * 8;
          memcpy(b.get() + pos, raw, 8);
          if (i == 0) n.coords[j] = b.get() + pos;
        }
      for (int j = 0; j < nd; j++) n.coord_stride[j] = layout == 3 ? -(int32_t)st : (int32_t)st;
      if (swap) n.flags |= GEOARROW_GEOMETRY_NODE_FLAG_SWAP_ENDIAN;
      if (swap)
        for (int j = nd; j < 4; j++) n.coords[j] = (const uint8_t*)&kNan;
      bufs.push_back(std::move(b));
    }
  } else {
    n.size = (uint32_t)g.kids.size();
  }
  nodes.push_back(n);
  for (auto& k : g.kids) Add(k, level + 1, vary);
}
void ViewBuilder::Build(const Geom& g, bool vary) {
  nodes.clear();
  bufs.clear();
  Add(g, 0, vary);
  // exact-size node storage
  nodes.shrink_to_fit();
  view.root = nodes.data();
  view.size_nodes = (int64_t)nodes.size();
}
static bool ReadNode(const GeoArrowGeometryView& v, int64_t* i, Geom* out, int level, bool ring) {
  if (*i >= v.size_nodes) return false;
  const GeoArrowGeometryNode* n = v.root + (*i)++;
  if (n->geometry_type < 1 || n->geometry_type > 7) return false;
  if (n->dimensions < 1 || n->dimensions > 4) return false;
  if (n->level != level) return false;
  out->type = ring ? RING : n->geometry_type;
  if (ring && n->geometry_type != LS) return false;
  out->dims = n->dimensions;
  int nd = Nd(out->dims);
  if (n->geometry_type == PT || n->geometry_type == LS) {
    for (uint32_t k = 0; k < n->size; k++)
      for (int j = 0; j < nd; j++) {
        uint8_t raw[8];
        memcpy(raw, n->coords[j] + (int64_t)k * n->coord_stride[j], 8);
        if (n->flags & GEOARROW_GEOMETRY_NODE_FLAG_SWAP_ENDIAN) std::reverse(raw, raw + 8);
        double d;
        memcpy(&d, raw, 8);
        out->c.push_back(d);
      }
    return true;
  }
  for (uint32_t k = 0; k < n->size; k++) {
    out->kids.emplace_back();
    if (!ReadNode(v, i, &out->kids.back(), level + 1, n->geometry_type == PG)) return false;
  }
  return true;
}
bool ReadView(GeoArrowGeometryView v, Geom* out) {
  int64_t i = 0;
  *out = Geom();
  return ReadNode(v, &i, out, 0, false) && i == v.size_nodes;
}

// ---------------------------------------------------------------- comparison
void ExpectFeature(const Feature& want, const Feature& got, const char* sig, const char* what,
                   size_t row) {
  if (Key(want) != Key(got))
    Fail(sig, "%s: row %zu is %s but should be %s", what, row, Show(got).c_str(),
         Show(want).c_str());
}
void ExpectFeatures(const Features& want, const Features& got, const char* sig,
                    const char* what) {
  SIM_CHECK(want.size() == got.size(), sig, "%s: %zu rows but should be %zu", what, got.size(),
            want.size());
  for (size_t i = 0; i < want.size(); i++) ExpectFeature(want[i], got[i], sig, what, i);
}
static bool CloseNum(double a, double b, int precision) {
  if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
  if (std::isinf(a) || std::isinf(b)) return a == b;
  double tol = 0.5 * std::pow(10.0, -precision) * (1 + 1e-9) +
               4 * 2.3e-16 * std::max(std::fabs(a), std::fabs(b));
  return std::fabs(a - b) <= tol;
}
bool CloseGeom(const Geom& a, const Geom& b, int precision) {
  if (a.type != b.type || a.dims != b.dims || a.kids.size() != b.kids.size()) return false;
  bool ea = a.type == PT && AllNan(a), eb = b.type == PT && AllNan(b);
  if (ea || eb) return ea && eb;
  if (a.c.size() != b.c.size()) return false;
  for (size_t i = 0; i < a.c.size(); i++)
    if (!CloseNum(a.c[i], b.c[i], precision)) return false;
  for (size_t i = 0; i < a.kids.size(); i++)
    if (!CloseGeom(a.kids[i], b.kids[i], precision)) return false;
  return true;
}
}  // namespace model

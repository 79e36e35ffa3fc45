// P16: steps and memory are bounded by what goes in and what comes out.
#include <stdlib.h>
#include "huge.h"
#include "kern.h"
#include "p16.h"
using namespace kern;

static const bool g_stat = getenv("P16STAT") != nullptr;

// One measured operation. `vol` is the bytes given and produced, `calls` the number of
// calls made to the library; both may grow until Check().
struct Meter {
  const char* op;
  struct Row;
  const Row& row;
  double vol = 0;
  uint64_t calls = 0;
  uint64_t s0, t0, b0, live0;
  // Steps, bytes moved, bytes allocated in total and at once: a constant and a slope per
  // byte, each five times what the operation was seen to need at most.
  struct Row {
    const char* op;
    double base[4], slope[4];
  };
  static const Row& Bounds(const char* op) {
    static const Row rows[] = {
        {"append", {5000, 51000, 41000, 41000}, {5, 20, 20, 20}},
        {"builder", {5000, 41000, 41000, 41000}, {5, 20, 20, 20}},
        {"convert", {8700, 160000, 56000, 41000}, {16, 140, 47, 20}},
        {"geometry", {5000, 41000, 41000, 41000}, {5, 20, 20, 20}},
        {"kernel", {5000, 45000, 41000, 41000}, {20, 180, 63, 20}},
        {"metadata", {5000, 41000, 41000, 41000}, {30, 26, 20, 20}},
        {"options", {5000, 41000, 41000, 41000}, {5, 20, 20, 20}},
        {"parse", {5000, 41000, 41000, 41000}, {19, 20, 20, 20}},
        {"read", {5000, 41000, 41000, 41000}, {18, 160, 130, 97}},
        {"rows", {5000, 66000, 41000, 41000}, {5, 20, 20, 20}},
        {"schema", {5000, 41000, 41000, 41000}, {5, 20, 21, 20}},
        {"visit", {5000, 41000, 41000, 41000}, {86, 150, 150, 110}},
    };
    for (auto& r : rows)
      if (!strcmp(r.op, op)) return r;
    sim::Fail("internal", "no bounds for %s", op);
  }
  explicit Meter(const char* o, double at_most, uint64_t calls_at_most) : op(o), row(Bounds(o)) {
    s0 = sim::Steps();
    t0 = sim::Touched();
    sim::ResetPeak();
    auto a = sim::GetAllocStats();
    b0 = a.bytes;
    live0 = a.live_bytes;
    // ends runaway work early; the exact bound is checked at the end
    Limit(at_most, calls_at_most);
  }
  double Max(int i, double v, uint64_t c) const { return row.base[i] + row.slope[i] * (v + 40.0 * (double)c); }
  void Limit(double v, uint64_t c) { sim::SetStepBudget((uint64_t)Max(0, v, c), "steps"); }
  void Check(const std::string& what) {
    double steps = (double)(sim::Steps() - s0), moved = (double)(sim::Touched() - t0);
    auto a = sim::GetAllocStats();
    double total = (double)(a.bytes - b0), peak = (double)(a.peak_bytes - live0);
    sim::ClearStepBudget();
    Log("%s: %s: %.0f bytes, %llu calls: %.0f steps, %.0f moved, %.0f allocated, %.0f at once", op, what.c_str(), vol, (unsigned long long)calls, steps, moved, total, peak);
    if (g_stat) fprintf(stderr, "STAT %s %f %f %f %f vol %.0f calls %llu\n", op, steps, moved, total, peak, vol, (unsigned long long)calls);
    static const char* const sigs[] = {"steps", "moved", "allocated", "peak"};
    static const char* const units[] = {"steps", "bytes moved or scanned", "bytes allocated", "bytes at once"};
    const double got[] = {steps, moved, total, peak};
    for (int i = 0; i < 4; i++)
      SIM_CHECK(got[i] <= Max(i, vol, calls), sigs[i], "%s: %s: %.0f %s for %.0f bytes in %llu calls (at most %.0f)", op, what.c_str(), got[i], units[i], vol, (unsigned long long)calls,
                Max(i, vol, calls));
    Count(("check." + std::string(op)).c_str());
    sim::State(sim::Mix(sim::HashBytes(op, strlen(op)), (uint64_t)(vol > 1 ? 64 - __builtin_clzll((uint64_t)vol) : 0)));
    if (vol > 2000) sim::NonTrivial();
  }
};
static double Vol(const Geom& g) {
  double v = 32 + 8.0 * (double)g.c.size();
  for (auto& k : g.kids) v += Vol(k);
  return v;
}
static double Vol(const Features& f) {
  double v = 0;
  for (auto& x : f) v += x.null ? 16 : 16 + Vol(x.g);
  return v;
}
static uint32_t Size() {
  uint32_t top = sim::Tier() ? 16 : 13;
  uint32_t b = D(top + 1);
  return (1u << b) + D(1u << b);
}

// ---- rows: one large feature, many small ones, or both
static Geom Shaped(int gtype, int dims, uint32_t n) {
  static const int shapes[][3] = {{0, 0, 0}, {0, 0, 0}, {0, 0, 0}, {2, 7, 2}, {1, 1, 1}, {3, 4, 3}, {5, 5, 5}, {6, 6, 6}};
  if (gtype == PT) return [&] {
    Geom g;
    g.type = PT;
    g.dims = dims;
    for (int j = 0; j < Nd(dims); j++) g.c.push_back(j);
    return g;
  }();
  if (gtype == 0) return Shaped(1 + (int)D(7), dims, n);
  return Huge(shapes[gtype][D(3)], dims, n);
}
static Features Rows(int gtype, int dims, uint32_t n) {
  Features f;
  auto add = [&](uint32_t k) {
    Feature x;
    x.null = B(12);
    if (!x.null) x.g = Shaped(gtype, dims, k);
    f.push_back(x);
  };
  uint32_t how = D(3);
  if (how != 1) add(n);
  if (how != 0)
    for (uint32_t i = 0; i < n / 4 + 1; i++) add(D(6));
  if (how == 2 && D(2)) add(n);
  return f;
}

// ---- bytes that claim more than they hold
static void Put32(std::string* s, size_t at, uint32_t v) {
  if (at + 4 <= s->size()) memcpy(&(*s)[at], &v, 4);
}
static std::string Chain(uint32_t n, bool wkt) {
  std::string s;
  for (uint32_t i = 0; i < n; i++) s += wkt ? std::string("GEOMETRYCOLLECTION (") : std::string("\x01\x07\0\0\0\x01\0\0\0", 9);
  if (wkt) {
    s += "POINT (0 1)";
    if (D(2)) s.append(n, ')');
  } else if (D(2)) {
    s += std::string("\x01\x01\0\0\0", 5) + std::string(16, '\0');
  }
  return s;
}
static std::string DamageWkb(std::string s, uint32_t n) {
  static const uint32_t claims[] = {0xffffffffu, 0x7fffffffu, 0x10000000u, 0x00ffffffu, 0x80000000u};
  uint32_t how = D(6);
  static const char* const names[] = {"count", "inner_count", "any_field", "truncated_count", "many_members", "chain"};
  Count((std::string("fault.wkb_") + names[how]).c_str());
  switch (how) {
    case 0:
      Put32(&s, 5, claims[D(5)]);
      break;
    case 1:
      Put32(&s, 9 + D(40), claims[D(5)]);
      break;
    case 2:
      Put32(&s, D((uint32_t)s.size() + 1), claims[D(5)]);
      break;
    case 3:
      s.resize(D((uint32_t)s.size() + 1));
      Put32(&s, 5, claims[D(5)]);
      break;
    case 4: {  // a collection of any kind that claims many members and has some small ones
      std::string x("\x01", 1);
      uint32_t code = 4 + D(4), count = claims[D(5)];
      x.append((char*)&code, 4).append((char*)&count, 4);
      for (uint32_t i = 0; i < n; i++) {
        x += std::string("\x01", 1) + std::string(1, (char)(D(3) ? 2 : 1 + D(7))) + std::string("\0\0\0\0\0\0\0", 7);
      }
      return x;
    }
    default:
      return Chain(n, false);
  }
  return s;
}
static std::string DamageWkt(std::string s, uint32_t n) {
  static const char* const bits[] = {"(", " ", "0", "POINT", "(((", ",", "\n", "1e", "EMPTY", ")", "POINT (", "-", ".", "9", "\"", "\xff", "Z", "1 1,"};
  static const char* const heads[] = {"", "POINT (", "LINESTRING (", "POLYGON ((", "MULTIPOINT (", "GEOMETRYCOLLECTION (", "LINESTRING Z (1 2 3, ", "POINT (0."};
  uint32_t how = D(4);
  static const char* const names[] = {"truncated", "repeated", "bytes", "chain"};
  Count((std::string("fault.wkt_") + names[how]).c_str());
  switch (how) {
    case 0:
      s.resize(D((uint32_t)s.size() + 1));
      break;
    case 1: {
      std::string x = heads[D(8)];
      const char* b = bits[D(18)];
      for (uint32_t i = 0; i < n; i++) x += b;
      if (D(2)) x += " 1)";
      return x;
    }
    case 2:
      for (uint32_t i = 0; i < 1 + D(4) && !s.empty(); i++) s[D((uint32_t)s.size())] = bits[D(18)][0];
      break;
    default:
      return Chain(n, true);
  }
  return s;
}

// ---- reading text and binary, valid or not, with one reader
static void Read() {
  enum GeoArrowType t = SerializedType(D(6));
  bool wkt = IsWkt(t);
  uint32_t n = Size();
  Features f = Rows(0, D4(), n);
  std::vector<std::optional<std::string>> enc;
  bool damage = D(3) > 0, all = D(3) == 0;
  WkbStyle ws = GenWkbStyle();
  uint32_t damaged = 0;
  double vol = 0;
  for (auto& x : f) {
    if (x.null) {
      enc.push_back(std::nullopt);
      vol += 16;
      continue;
    }
    std::string s = wkt ? Wkt(x.g) : Wkb(x.g, ws);
    if (damage && (all || damaged == 0)) {
      uint32_t k = damaged++ == 0 ? n : D(8);
      s = wkt ? DamageWkt(s, k) : DamageWkb(s, k);
    }
    vol += 16 + (double)s.size();
    enc.push_back(s);
  }
  int kind = t == GEOARROW_TYPE_WKB || t == GEOARROW_TYPE_WKT ? BK_I32 : t == GEOARROW_TYPE_LARGE_WKB || t == GEOARROW_TYPE_LARGE_WKT ? BK_I64 : BK_VIEW;
  Arr a(MakeBinary(enc, kind, ArrOpts()));
  Reader r;
  SIM_CHECK(r.Init(t, (int)D(3)) == 0, "init", "reader");
  bool hpp = !wkt && B(4), view = !wkt && !hpp && B(4);
  std::string what = TypeText(t) + (damage ? " damaged" : "");
  Meter m(hpp ? "parse" : view ? "read" : "visit", vol, 1 + enc.size());
  m.vol = vol;
  if (hpp || view) {
    WkbHpp h;
    GeoArrowWKBReader wr;
    SIM_CHECK(GeoArrowWKBReaderInit(&wr) == 0, "init", "reader");
    for (auto& e : enc) {
      if (!e) continue;
      m.calls++;
      std::unique_ptr<char[]> copy(new char[e->size()]);
      memcpy(copy.get(), e->data(), e->size());
      if (hpp) {
        h.Parse((const uint8_t*)copy.get(), e->size());
        continue;
      }
      GeoArrowBufferView b;
      b.data = (const uint8_t*)copy.get();
      b.size_bytes = (int64_t)e->size();
      GeoArrowGeometryView v;
      if (GeoArrowWKBReaderRead(&wr, b, &v, nullptr) == 0) {
        GeoArrowVisitor nothing;
        GeoArrowVisitorInitVoid(&nothing);
        SIM_CHECK(GeoArrowGeometryViewVisit(v, &nothing) == 0, "visit", "geometry");
      }
    }
    m.Check(what);
    GeoArrowWKBReaderReset(&wr);
    return;
  }
  GeoArrowVisitor v;
  GeoArrowError err;
  GeoArrowVisitorInitVoid(&v);
  v.error = &err;
  SIM_CHECK(r.SetArray(&a.a, enc) == 0, "set-array", "%s", r.err.message);
  m.calls++;
  if (!damage && D(2)) {
    m.calls++;
    int rc = r.Visit(0, (int64_t)enc.size(), &v);
    SIM_CHECK(rc == 0, "visit", "%d %s", rc, err.message);
  } else {
    for (size_t i = 0; i < enc.size(); i++) {
      m.calls++;
      int rc = r.Visit((int64_t)i, 1, &v);
      SIM_CHECK(rc == 0 || damaged, "visit", "row %zu: %d %s", i, rc, err.message);
    }
  }
  m.Check(what);
}

// ---- converting, in one piece or in many
static ArrowArray View(const ArrowArray& a, int64_t off, int64_t len) {
  ArrowArray r = a;
  r.offset += off;
  r.length = len;
  r.null_count = a.buffers[0] ? -1 : 0;
  r.release = [](ArrowArray*) {};
  return r;
}
static void Convert() {
  int gtype = (int)D(7), dims = D4();
  uint32_t n = Size();
  Features f = Rows(gtype, dims, n);
  enum GeoArrowType from = gtype && D(2) ? NativeType(gtype, dims, DrawCoordType()) : SerializedType(D(6));
  enum GeoArrowType to = gtype && D(2) ? NativeType(gtype <= 3 && D(2) ? gtype + 3 : gtype, D4(), DrawCoordType()) : D(2) ? GEOARROW_TYPE_WKT : GEOARROW_TYPE_WKB;
  std::vector<std::optional<std::string>> enc;
  Arr a(MakeSource(from, f, ArrOpts(), &enc));
  double vol = 5 * Vol(f);  // the source, and the result as text
  for (auto& e : enc)
    if (e) vol += (double)e->size();
  int64_t rows = (int64_t)f.size(), step = 1 + (int64_t)D((uint32_t)rows + 1);
  if (D(2)) step = 1 + D(3);
  uint64_t batches = (uint64_t)((rows + step - 1) / step);
  uint32_t how = W({3, 2, 2, 3});
  std::string what = TypeText(from) + " to " + TypeText(to) + " way " + std::to_string(how) + " step " + std::to_string(step);
  if (how == 3) {
    GeoArrowKernel k;
    Kind kind = (Kind)D(N_KINDS);
    std::vector<std::pair<std::string, std::string>> kv;
    if (kind == AS) kv.push_back({"type", std::to_string((int)to)});
    std::string opts = KeyValues(kv);
    what = std::string(Name(kind)) + " " + what;
    Schema in, out;
    SIM_CHECK(GeoArrowSchemaInitExtension(&in.s, from) == 0, "init", "schema");
    GeoArrowError err;
    err.message[0] = 0;
    SIM_CHECK(GeoArrowKernelInit(&k, Name(kind), nullptr) == 0, "init", "kernel");
    int rc = k.start(&k, &in.s, opts.data(), &out.s, &err);
    SIM_CHECK(rc == 0, "start", "%s: %d %s", what.c_str(), rc, err.message);
    Meter m("kernel", vol, 3 + batches);
    m.vol = vol;
    for (int64_t i = 0; i < rows; i += step) {
      ArrowArray s = View(a.a, i, std::min(step, rows - i));
      Arr res;
      m.calls++;
      rc = k.push_batch(&k, &s, IsAgg(kind) ? nullptr : &res.a, &err);
      SIM_CHECK(rc == 0, "push", "%s: %d %s", what.c_str(), rc, err.message);
    }
    Arr res;
    m.calls++;
    rc = k.finish(&k, IsAgg(kind) ? &res.a : nullptr, &err);
    SIM_CHECK(rc == 0, "finish", "%s: %d %s", what.c_str(), rc, err.message);
    m.Check(what);
    k.release(&k);
    return;
  }
  Reader r;
  SIM_CHECK(r.Init(from, (int)D(3)) == 0, "init", "reader");
  Writer w;
  SIM_CHECK(w.Init(to, (int)D(3)) == 0, "init", "writer");
  SIM_CHECK(w.InitVisitor() == 0, "init", "visitor");
  if (how != 0 && IsSerialized(from) && r.api == 2) how = 0;
  Meter m("convert", vol, 4 + 4 * batches);
  m.vol = vol;
  if (how == 0) SIM_CHECK(r.SetArray(&a.a, enc) == 0, "set-array", "%s", r.err.message);
  for (int64_t i = 0; i < rows; i += step) {
    int64_t len = std::min(step, rows - i);
    int rc;
    ArrowArray s = View(a.a, i, len);
    if (how == 0) {  // ranges of one array
      rc = r.Visit(i, len, &w.v);
    } else {  // slices
      SIM_CHECK(r.SetArray(&s, enc) == 0, "set-array", "%s", r.err.message);
      rc = r.Visit(0, len, &w.v);
    }
    m.calls += 2;
    SIM_CHECK(rc == 0, "visit", "%s: %d %s", what.c_str(), rc, w.err.message);
    if (how == 2) {  // an array each
      Arr res;
      m.calls += 2;
      SIM_CHECK(w.Finish(&res.a) == 0, "finish", "%s", w.err.message);
    }
  }
  Arr res;
  m.calls++;
  SIM_CHECK(w.Finish(&res.a) == 0, "finish", "%s", w.err.message);
  m.Check(what);
}

// ---- growing results in the smallest steps
static void OneByOne() {
  uint32_t n = Size(), how = D(5);
  int dims = D4(), nd = Nd(dims);
  double c[4] = {1, 2, 3, 4};
  GeoArrowCoordView cv;
  memset(&cv, 0, sizeof cv);
  cv.n_coords = 1;
  cv.n_values = nd;
  cv.coords_stride = nd;
  for (int j = 0; j < nd; j++) cv.values[j] = c + j;
  double vol = 200.0 * (double)n;
  if (how == 0) {  // coordinates into a builder's buffers
    enum GeoArrowType t = NativeType(1 + (int)D(6), dims, DrawCoordType());
    GeoArrowBuilder b;
    SIM_CHECK(GeoArrowBuilderInitFromType(&b, t) == 0, "init", "builder");
    bool inter = Parts(t).coord_type == GEOARROW_COORD_TYPE_INTERLEAVED;
    int64_t nb = b.view.n_buffers, first = nb - (inter ? 1 : nd);
    uint32_t kind = D(4);
    Meter m("builder", vol, 0);
    m.vol = vol;
    for (uint32_t i = 0; i < n; i++) {
      int rc = 0;
      if (kind == 0) {
        rc = GeoArrowBuilderCoordsAppend(&b, &cv, (enum GeoArrowDimensions)dims, 0, 1);
      } else if (kind == 1) {
        for (int64_t k = first; k < nb && !rc; k++) rc = GeoArrowBuilderAppendBuffer(&b, k, {(const uint8_t*)c, inter ? 8 * nd : 8});
      } else if (kind == 2) {
        for (int64_t k = first; k < nb && !rc; k++) rc = GeoArrowBuilderReserveBuffer(&b, k, 8 * nd);
        for (int64_t k = first; k < nb && !rc; k++) GeoArrowBuilderAppendBufferUnsafe(&b, k, {(const uint8_t*)c, inter ? 8 * nd : 8});
      } else if (first > 1) {
        int32_t z = 0;
        rc = GeoArrowBuilderOffsetAppend(&b, (int32_t)D((uint32_t)first - 1), &z, 1);
      } else {
        rc = GeoArrowBuilderAppendBuffer(&b, 0, {(const uint8_t*)c, 1});
      }
      SIM_CHECK(rc == 0, "append", "%d", rc);
    }
    m.Check(TypeText(t) + " by " + std::to_string(kind));
    GeoArrowBuilderReset(&b);
  } else if (how == 1) {  // one sequence, coordinate by coordinate
    enum GeoArrowType t = D(3) ? NativeType(D(2) ? LS : MPT, dims, DrawCoordType()) : D(2) ? GEOARROW_TYPE_WKT : GEOARROW_TYPE_WKB;
    Writer w;
    SIM_CHECK(w.Init(t, (int)D(3)) == 0 && w.InitVisitor() == 0, "init", "writer");
    Meter m("append", vol, 2);
    m.vol = vol;
    m.calls = 2;
    int rc = w.v.feat_start(&w.v);
    if (!rc) rc = w.v.geom_start(&w.v, GEOARROW_GEOMETRY_TYPE_LINESTRING, (enum GeoArrowDimensions)dims);
    for (uint32_t i = 0; i < n && !rc; i++) rc = w.v.coords(&w.v, &cv);
    if (!rc) rc = w.v.geom_end(&w.v);
    if (!rc) rc = w.v.feat_end(&w.v);
    SIM_CHECK(rc == 0, "append", "%d %s", rc, w.err.message);
    Arr a;
    SIM_CHECK(w.Finish(&a.a) == 0, "finish", "%s", w.err.message);
    m.Check(TypeText(t));
  } else if (how == 2) {  // a geometry object, node by node or through a visitor
    GeoArrowGeometry g;
    SIM_CHECK(GeoArrowGeometryInit(&g) == 0, "init", "geometry");
    uint32_t kind = D(3);
    Meter m("geometry", vol, 4);
    m.vol = vol;
    m.calls = 4;
    if (kind == 0) {
      for (uint32_t i = 0; i < n; i++) {
        GeoArrowGeometryNode* node;
        int rc = D(2) ? GeoArrowGeometryAppendNode(&g, &node) : GeoArrowGeometryAppendNodeInline(&g, &node);
        SIM_CHECK(rc == 0, "append", "%d", rc);
        node->geometry_type = i ? GEOARROW_GEOMETRY_TYPE_POINT : GEOARROW_GEOMETRY_TYPE_MULTIPOINT;
        node->dimensions = (uint8_t)dims;
        node->level = i ? 1 : 0;
        if (!i) node->size = n - 1;
      }
    } else {
      GeoArrowVisitor v;
      GeoArrowGeometryInitVisitor(&g, &v);
      Feature x;
      x.null = false;
      x.g = Shaped(kind == 1 ? 2 : 0, dims, n);
      m.vol += 40 * Vol(x.g);
      m.Limit(m.vol, 4);
      SIM_CHECK(EmitFeature(x, &v, true) == 0, "emit", "geometry");
    }
    GeoArrowGeometry copies[2];
    GeoArrowGeometryInit(&copies[0]);
    GeoArrowGeometryInit(&copies[1]);
    SIM_CHECK(GeoArrowGeometryShallowCopy(GeoArrowGeometryAsView(&g), &copies[0]) == 0, "copy", "shallow");
    SIM_CHECK(GeoArrowGeometryDeepCopy(GeoArrowGeometryAsView(&g), &copies[1]) == 0, "copy", "deep");
    GeoArrowVisitor nothing;
    GeoArrowVisitorInitVoid(&nothing);
    if (kind) SIM_CHECK(GeoArrowGeometryVisit(&copies[D(2)], &nothing) == 0, "visit", "geometry");
    m.Check("kind " + std::to_string(kind));
    GeoArrowGeometryReset(&copies[0]);
    GeoArrowGeometryReset(&copies[1]);
    GeoArrowGeometryReset(&g);
  } else {  // rows: nulls, empty ones, small ones
    int gt = 1 + (int)D(7);
    enum GeoArrowType t = gt < 7 && D(2) ? NativeType(gt, dims, DrawCoordType()) : D(2) ? GEOARROW_TYPE_WKT : GEOARROW_TYPE_WKB;
    Writer w;
    SIM_CHECK(w.Init(t, (int)D(3)) == 0 && w.InitVisitor() == 0, "init", "writer");
    uint32_t kind = D(3);
    Feature x;
    x.null = kind == 0;
    x.g = Shaped(gt, dims, kind == 1 ? 0 : 4);
    vol += (double)n * 5 * Vol(x.g);
    uint32_t late = kind && D(2) ? D(n) : n;  // the first null comes late
    Feature null;
    Meter m("rows", vol, 2);
    m.vol = vol;
    m.calls = 2;
    for (uint32_t i = 0; i < n; i++) SIM_CHECK(EmitFeature(i == late ? null : x, &w.v, false) == 0, "emit", "%s", w.err.message);
    Arr a;
    SIM_CHECK(w.Finish(&a.a) == 0, "finish", "%s", w.err.message);
    m.Check(TypeText(t) + " kind " + std::to_string(kind));
  }
}

// ---- text and key/value lists of the caller
static void Text() {
  uint32_t n = Size();
  std::string s;
  uint32_t how = D(9);
  auto rep = [&](const char* x) {
    for (uint32_t i = 0; i < n; i++) s += x;
  };
  switch (how) {
    case 0:
      s = "{\"crs\":\"";
      rep(D(2) ? "a" : D(2) ? "\\\"" : "\\u00e9");
      s += D(4) ? "\"}" : "";
      break;
    case 1:
      s = "{\"crs\":{\"a\":";
      rep("[");
      if (D(2)) s += "1", rep("]"), s += "}}";
      break;
    case 2:
      s = "{";
      for (uint32_t i = 0; i < n; i++) s += (i ? ",\"k" : "\"k") + std::to_string(i) + "\":\"v\"";
      s += D(4) ? "}" : "";
      break;
    case 3:
      s = "{\"crs\":{";
      for (uint32_t i = 0; i < n; i++) s += (i ? ",\"k" : "\"k") + std::to_string(i) + "\":{\"z\":[1,2,{}]}";
      s += D(4) ? "}}" : "}";
      break;
    case 4:
      rep(" ");
      s += "{}";
      break;
    case 5:
      s = "{\"edges\":\"planar\"";
      rep(" ");
      s += D(2) ? "}" : ",}";
      break;
    case 6:
      s = "{\"";
      rep("crs");
      s += D(2) ? "\":\"x\"}" : "";
      break;
    case 7:
      s = "{\"x\":";
      rep("{\"x\":");
      break;
    default:
      rep("\"");
  }
  uint32_t op = D(4);
  Log("text %u of %zu bytes, op %u", how, s.size(), op);
  std::unique_ptr<char[]> copy(new char[s.size()]);
  memcpy(copy.get(), s.data(), s.size());
  GeoArrowStringView sv;
  sv.data = copy.get();
  sv.size_bytes = (int64_t)s.size();
  double vol = (double)s.size();
  if (op == 3) {  // many entries in a schema's metadata and in a kernel's options
    std::vector<std::pair<std::string, std::string>> kv;
    size_t at = D(3) ? 0 : D(n + 1);
    bool kernel = D(2);
    for (uint32_t i = 0; i < n; i++) {
      if (i == at) {
        if (kernel)
          kv.push_back({"precision", "3"});
        else
          kv.push_back({"ARROW:extension:name", "geoarrow.wkb"});
      }
      kv.push_back({"key" + std::to_string(i), B(100) ? s : "v"});
    }
    std::string enc = KeyValues(kv);
    Schema in, out;
    SIM_CHECK(GeoArrowSchemaInitExtension(&in.s, GEOARROW_TYPE_WKB) == 0, "init", "schema");
    if (kernel) {
      GeoArrowKernel k;
      GeoArrowError err;
      SIM_CHECK(GeoArrowKernelInit(&k, "format_wkt", nullptr) == 0, "init", "kernel");
      Meter m("options", (double)enc.size(), 2);
      m.vol = (double)enc.size();
      m.calls = 2;
      SIM_CHECK(k.start(&k, &in.s, enc.data(), &out.s, &err) == 0, "start", "%s", err.message);
      m.Check("format_wkt");
      k.release(&k);
    } else {
      SIM_CHECK(ArrowSchemaSetMetadata(&in.s, enc.data()) == 0, "init", "metadata");
      Meter m("schema", (double)enc.size(), 6);
      m.vol = (double)enc.size();
      m.calls = 6;
      GeoArrowSchemaView v;
      GeoArrowError err;
      int rc = GeoArrowSchemaViewInit(&v, &in.s, &err);
      rc |= GeoArrowSchemaSetMetadata(&in.s, [] {
        static GeoArrowMetadataView mv;
        memset(&mv, 0, sizeof mv);
        return &mv;
      }());
      (void)rc;
      m.Check("view and set");
    }
    return;
  }
  GeoArrowMetadataView mv;
  GeoArrowError err;
  Meter m("metadata", vol, 6);
  m.vol = vol;
  m.calls = 6;
  if (op == 0) {
    std::string out(s.size() * 2 + 16, 0);
    GeoArrowUnescapeCrs(sv, &out[0], (int64_t)out.size());
  } else if (GeoArrowMetadataViewInit(&mv, sv, &err) == 0) {
    Count("check.metadata_accepted");
    std::string out(s.size() * 2 + 64, 0);
    GeoArrowMetadataSerialize(&mv, &out[0], (int64_t)out.size());
    GeoArrowMetadataSerialize(&mv, nullptr, 0);
    GeoArrowUnescapeCrs(mv.crs, &out[0], (int64_t)out.size());
    Schema sc;
    SIM_CHECK(GeoArrowSchemaInitExtension(&sc.s, GEOARROW_TYPE_WKT) == 0, "init", "schema");
    SIM_CHECK(GeoArrowSchemaSetMetadata(&sc.s, &mv) == 0, "init", "metadata");
    GeoArrowSchemaView v;
    SIM_CHECK(GeoArrowSchemaViewInit(&v, &sc.s, &err) == 0, "init", "%s", err.message);
  }
  m.Check("text " + std::to_string(how) + " op " + std::to_string(op));
}

static void Run() {
  switch (W({4, 4, 3, 2})) {
    case 0:
      Read();
      break;
    case 1:
      Convert();
      break;
    case 2:
      OneByOne();
      break;
    default:
      Text();
  }
  sim::CheckNoLeaks("leak");
}
SIM_PROPERTY("P16", Run, 20000, 1000000,
             "one run measures one operation on drawn input of up to 10^4 coordinates (10^5 in the thorough tier) and compares steps, bytes moved and bytes allocated with a linear "
             "bound; non-trivial: more than 2000 bytes were handled")

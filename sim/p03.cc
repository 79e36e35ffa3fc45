// P03: a failing allocation never crashes, leaks or half-writes a result.
#include "kern.h"
using namespace kern;

namespace {
// One play of a scenario. The first play has no faults and is the reference.
struct Ctx {
  bool ref = true;
  bool failed = false;
  std::vector<std::pair<std::string, int>> ops, expect;
  uint64_t hash = 0x1234;
  std::vector<std::string> rows;      // written rows of the reference
  bool Op(const char* name, int rc) {
    if (!ref && !failed) {
      size_t i = ops.size();
      SIM_CHECK(i < expect.size() && expect[i].first == name, "other-path", "operation %zu is %s", i, name);
      if (rc != 0 && expect[i].second == 0)
        SIM_CHECK(sim::AllocFired() > 0, "failed-without-fault", "%s returned %d although no allocation failed", name, rc);
      if (rc == 0 && expect[i].second != 0) Fail("succeeded", "%s succeeds only when an allocation fails", name);
    }
    ops.push_back({name, rc});
    if (rc) {
      failed = true;
      if (!ref) Count("check.failed_op");
    }
    return rc == 0;
  }
  void Val(uint64_t v) { hash = sim::Mix(hash, v); }
  void Val(const std::string& s) { Val(sim::HashBytes(s.data(), s.size())); }
};
struct OutArray {
  ArrowArray a;
  OutArray() {
    memset(&a, 0x5a, sizeof a);
    a.release = nullptr;
  }
  ~OutArray() {
    if (a.release) a.release(&a);
  }
  void Untouched(const char* what) {
    SIM_CHECK(a.release == nullptr, "half-written", "%s failed but its output array is marked as valid", what);
  }
};
struct OutSchema {
  ArrowSchema s;
  OutSchema() {
    memset(&s, 0x5a, sizeof s);
    s.release = nullptr;
  }
  ~OutSchema() {
    if (s.release) s.release(&s);
  }
  void Untouched(const char* what) {
    SIM_CHECK(s.release == nullptr, "half-written", "%s failed but its output schema is marked as valid", what);
  }
};
std::vector<std::string> RowKeys(enum GeoArrowType t, const ArrowArray* a, const char* what) {
  std::vector<std::string> r;
  CheckArrayShape(a, a->length, what);
  if (IsSerialized(t)) {
    for (auto& x : DecodeBinary(a, what)) r.push_back(x ? "=" + *x : "null");
  } else {
    for (auto& x : DecodeNative(t, a, what)) r.push_back(Key(x));
  }
  return r;
}
struct Scenario {
  virtual ~Scenario() {}
  virtual void Play(Ctx& c) = 0;
  std::string what;
};

// Finishing after a failure delivers the rows before it or an error.
void Salvage(Ctx& c, Writer& w, const char* what) {
  sim::DisarmAlloc();
  OutArray o;
  int rc = w.Finish(&o.a);
  Count(rc ? "check.finish_refused" : "check.finish_after_failure");
  if (rc) {
    o.Untouched("finish after a failure");
    return;
  }
  auto rows = RowKeys(w.type, &o.a, what);
  SIM_CHECK(rows.size() <= c.rows.size(), "half-present", "%s: %zu rows were finished after a failure but only %zu were given", what,
            rows.size(), c.rows.size());
  for (size_t i = 0; i < rows.size(); i++)
    SIM_CHECK(rows[i] == c.rows[i], "half-present", "%s: row %zu finished after a failure differs from the row given", what, i);
}

// ---- reader to writer
struct Convert : Scenario {
  Source src;
  enum GeoArrowType to;
  int rapi, wapi, precision, flat;
  bool by_row, twice;
  Convert() {
    GenOpts o = SwarmOpts();
    o.max_depth = std::min<uint32_t>(o.max_depth, 3);
    uint32_t n = Small(7);
    int fixed = 0;
    uint32_t k = W({4, 4, 1});
    if (k == 0) {
      if (D(2)) fixed = o.only_type = 1 + (int)D(6);
      MakeArrays(src, SerializedType(D(6)), GenFeatures(o, n), 2);
    } else if (k == 1) {
      fixed = o.only_type = 1 + (int)D(6);
      o.only_dims = D4();
      MakeArrays(src, NativeType(fixed, o.only_dims, DrawCoordType()), GenFeatures(o, n), 2);
    } else {
      fixed = PG;
      MakeBoxes(src, n, 2);
    }
    uint32_t tk = fixed ? W({2, 2, 5}) : W({1, 1});
    to = tk == 0 ? GEOARROW_TYPE_WKT : tk == 1 ? GEOARROW_TYPE_WKB : NativeType(fixed <= 3 && D(2) ? fixed + 3 : fixed, D4(), DrawCoordType());
    rapi = (int)D(3);
    if (rapi == 1 && IsBox(src.type)) rapi = 0;
    wapi = (int)D(3);
    precision = (int)D(17);
    flat = (int)D(2);
    by_row = D(2);
    twice = D(2);
    what = TypeText(src.type) + "." + std::to_string(rapi) + "->" + TypeText(to) + "." + std::to_string(wapi);
  }
  void Play(Ctx& c) override {
    Reader r;
    Writer w;
    if (!c.Op("reader.init", r.Init(src.type, rapi))) return;
    if (!c.Op("writer.init", w.Init(to, wapi))) return;
    if (to == GEOARROW_TYPE_WKT) w.SetText(precision, flat, -1);
    for (int round = 0; round < (twice ? 2 : 1); round++) {
      if (!c.Op("writer.visitor", w.InitVisitor())) return;
      for (size_t a = 0; a < src.arrays.size(); a++) {
        if (!c.Op("reader.set_array", r.SetArray(&src.arrays[a]->a, src.enc[a]))) return;
        int64_t n = (int64_t)src.parts[a].size();
        for (int64_t i = 0; i < n; i += by_row ? 1 : n) {
          if (!c.Op("visit", r.Visit(i, by_row ? 1 : n, &w.v))) {
            Salvage(c, w, what.c_str());
            return;
          }
        }
      }
      OutArray o;
      if (!c.Op("writer.finish", w.Finish(&o.a))) {
        o.Untouched("finish");
        return;
      }
      auto rows = RowKeys(to, &o.a, what.c_str());
      for (auto& x : rows) c.Val(x);
      if (c.ref && round == 0) c.rows = rows;
    }
  }
};

// ---- features given directly to a visitor, or appended as views
struct Append : Scenario {
  Features f;
  enum GeoArrowType to;
  int wapi;
  bool views;
  std::vector<std::unique_ptr<ViewBuilder>> vb;
  Append() {
    GenOpts o = SwarmOpts();
    o.max_depth = std::min<uint32_t>(o.max_depth, 3);
    views = D(2);
    uint32_t tk = W({views ? 0u : 2u, 3, 5});
    if (tk == 2) o.only_type = 1 + (int)D(6);
    to = tk == 0 ? GEOARROW_TYPE_WKT : tk == 1 ? GEOARROW_TYPE_WKB : NativeType(o.only_type, D4(), DrawCoordType());
    wapi = views ? 2 : (int)D(3);
    f = GenFeatures(o, 1 + Small(7));
    for (auto& x : f) {
      vb.emplace_back(new ViewBuilder());
      if (!x.null) vb.back()->Build(x.g, true);
    }
    what = std::string(views ? "views" : "events") + "->" + TypeText(to) + "." + std::to_string(wapi);
  }
  int One(Writer& w, size_t i) {
    if (!views) return EmitFeature(f[i], &w.v, false);
    if (to == GEOARROW_TYPE_WKB)
      return f[i].null ? GeoArrowWKBWriterAppendNull(&w.wkb) : GeoArrowWKBWriterAppend(&w.wkb, vb[i]->view);
    return f[i].null ? GeoArrowNativeWriterAppendNull(&w.nat) : GeoArrowNativeWriterAppend(&w.nat, vb[i]->view, &w.err);
  }
  void Play(Ctx& c) override {
    Writer w;
    if (!c.Op("writer.init", w.Init(to, wapi))) return;
    if (!views && !c.Op("writer.visitor", w.InitVisitor())) return;
    for (int round = 0; round < 2; round++) {
      for (size_t i = 0; i < f.size(); i++)
        if (!c.Op("append", One(w, i))) {
          Salvage(c, w, what.c_str());
          return;
        }
      OutArray o;
      if (!c.Op("writer.finish", w.Finish(&o.a))) {
        o.Untouched("finish");
        return;
      }
      auto rows = RowKeys(to, &o.a, what.c_str());
      for (auto& x : rows) c.Val(x);
      if (c.ref && round == 0) c.rows = rows;
    }
  }
};

// ---- kernels
struct Kernels : Scenario {
  Case k;
  bool unknown;
  Kernels() {
    k.DrawSource(7, 3);
    k.DrawKind((Kind)W({1, 1, 2, 5, 7, 4, 5, 5}));
    unknown = B(20);
    what = std::string(k.name()) + "(" + TypeText(k.src.type) + ")";
  }
  void Play(Ctx& c) override {
    GeoArrowKernel g;
    memset(&g, 0x5a, sizeof g);
    g.release = nullptr;
    if (!c.Op("kernel.init", GeoArrowKernelInit(&g, unknown ? "no_such_kernel" : k.name(), nullptr))) {
      SIM_CHECK(g.release == nullptr, "half-written", "a kernel that failed to initialise is marked as valid");
      return;
    }
    GeoArrowError err;
    err.message[0] = 0;
    OutSchema s;
    Features all;
    bool ok = c.Op("kernel.start", g.start(&g, &k.in.s, k.Opts(), &s.s, &err));
    if (!ok) s.Untouched("kernel start");
    if (ok) {
      sim::FaultPlan keep;
      for (size_t i = 0; ok && i < k.src.arrays.size(); i++) {
        OutArray o;
        ok = c.Op("kernel.push", g.push_batch(&g, &k.src.arrays[i]->a, IsAgg(k.kind) ? nullptr : &o.a, &err));
        if (!ok)
          o.Untouched("kernel push");
        else if (!IsAgg(k.kind))
          Rows(k.src.parts[i], &o.a, i);
        all.insert(all.end(), k.src.parts[i].begin(), k.src.parts[i].end());
      }
      if (ok) {
        OutArray o;
        ok = c.Op("kernel.finish", g.finish(&g, IsAgg(k.kind) ? &o.a : nullptr, &err));
        if (!ok)
          o.Untouched("kernel finish");
        else if (IsAgg(k.kind))
          k.CheckAgg(all, &o.a, what.c_str());
      } else if (IsAgg(k.kind)) {
        sim::DisarmAlloc();
        OutArray o;
        if (g.finish(&g, &o.a, &err) == 0)
          CheckArrayShape(&o.a, o.a.length, what.c_str());
        else
          o.Untouched("kernel finish");
      }
    }
    g.release(&g);
    SIM_CHECK(g.release == nullptr, "release", "kernel still marked as valid");
  }
  // The expected texts come from the library itself and must not meet faults; they
  // are computed once.
  std::vector<std::vector<std::string>> rows;
  void Rows(const Features& in, const ArrowArray* a, size_t i) {
    if (k.kind != FORMAT) {
      k.CheckRows(in, a, what.c_str());
      return;
    }
    if (rows.size() <= i) {
      SIM_CHECK(rows.size() == i, "other-path", "batch %zu", i);
      rows.push_back(RowKeys(GEOARROW_TYPE_WKT, a, what.c_str()));
      return;
    }
    SIM_CHECK(RowKeys(GEOARROW_TYPE_WKT, a, what.c_str()) == rows[i], "different-result", "batch %zu", i);
  }
};

// ---- geometry objects
struct Geometry : Scenario {
  Features f;
  std::vector<std::unique_ptr<ViewBuilder>> vb;
  std::vector<std::string> wkb;
  Geometry() {
    GenOpts o = SwarmOpts();
    o.null_den = 0;
    f = GenFeatures(o, 1 + D(4));
    for (auto& x : f) {
      vb.emplace_back(new ViewBuilder());
      vb.back()->Build(x.g, true);
      wkb.push_back(Wkb(x.g, GenWkbStyle()));
    }
    what = "geometry";
  }
  void See(Ctx& c, GeoArrowGeometryView v) {
    Geom g;
    SIM_CHECK(ReadView(v, &g), "inconsistent", "geometry of a successful operation is not well-formed");
    c.Val(Key(g));
  }
  void Play(Ctx& c) override {
    GeoArrowGeometry a, b;
    memset(&a, 0x5a, sizeof a);
    if (!c.Op("geometry.init", GeoArrowGeometryInit(&a))) return;
    if (!c.Op("geometry.init", GeoArrowGeometryInit(&b))) {
      GeoArrowGeometryReset(&a);
      return;
    }
    Body(c, &a, &b);
    GeoArrowGeometryReset(&a);
    GeoArrowGeometryReset(&b);
  }
  void Body(Ctx& c, GeoArrowGeometry* a, GeoArrowGeometry* b) {
    GeoArrowVisitor v;
    GeoArrowVisitorInitVoid(&v);
    GeoArrowGeometryInitVisitor(a, &v);
    for (size_t i = 0; i < f.size(); i++) {
      if (!c.Op("geometry.events", EmitFeature(f[i], &v, false))) {
        // the same object can be built again
        sim::DisarmAlloc();
        SIM_CHECK(EmitFeature(f[i], &v, false) == 0, "unusable", "a geometry cannot be built again after a failed allocation");
        Geom g;
        SIM_CHECK(ReadView(GeoArrowGeometryAsView(a), &g) && Key(g) == Key(StripFor(f[i].g)), "unusable",
                  "a geometry built after a failed allocation differs");
        return;
      }
      See(c, GeoArrowGeometryAsView(a));
      if (!c.Op("geometry.deep", GeoArrowGeometryDeepCopy(vb[i]->view, b))) return;
      See(c, GeoArrowGeometryAsView(b));
      if (!c.Op("geometry.shallow", GeoArrowGeometryShallowCopy(vb[i]->view, b))) return;
      See(c, GeoArrowGeometryAsView(b));
      if (!c.Op("geometry.deep", GeoArrowGeometryDeepCopy(GeoArrowGeometryAsView(b), a))) return;
      See(c, GeoArrowGeometryAsView(a));
    }
    GeoArrowWKBReader r;
    if (!c.Op("wkb.init", GeoArrowWKBReaderInit(&r))) return;
    for (size_t i = 0; i < f.size(); i++) {
      GeoArrowBufferView bv;
      bv.data = (const uint8_t*)wkb[i].data();
      bv.size_bytes = (int64_t)wkb[i].size();
      GeoArrowGeometryView gv;
      GeoArrowError err;
      if (!c.Op("wkb.read", GeoArrowWKBReaderRead(&r, bv, &gv, &err))) break;
      See(c, gv);
      if (!c.Op("wkb.shallow", GeoArrowGeometryShallowCopy(gv, a))) break;
      See(c, GeoArrowGeometryAsView(a));
      if (!c.Op("geometry.resize", GeoArrowGeometryResizeNodes(a, 0))) break;
      GeoArrowGeometryNode* node = nullptr;
      if (!c.Op("geometry.append", GeoArrowGeometryAppendNode(a, &node))) break;
      SIM_CHECK(node != nullptr, "half-written", "no node");
    }
    GeoArrowWKBReaderReset(&r);
  }
  static Geom StripFor(const Geom& g) { return g; }
};

// ---- schemas and metadata
struct Schemas : Scenario {
  enum GeoArrowType t, t2;
  std::string crs;
  GeoArrowEdgeType edges;
  GeoArrowCrsType crs_type;
  Schemas() {
    t = Any();
    t2 = Any();
    static const char* const c[] = {"", "EPSG:4326", "{\"a\":\"b\\\"c\"}", "quo\"ted", "x"};
    crs = c[D(5)];
    if (B(4)) crs = std::string(1 + D(3000), 'k');
    edges = (GeoArrowEdgeType)D(3);
    crs_type = crs.empty() ? GEOARROW_CRS_TYPE_NONE : crs[0] == '{' ? GEOARROW_CRS_TYPE_PROJJSON : GEOARROW_CRS_TYPE_UNKNOWN;
    what = "schema " + TypeText(t);
  }
  static enum GeoArrowType Any() {
    switch (W({3, 5, 1})) {
      case 0:
        return SerializedType(D(6));
      case 1:
        return NativeType(1 + (int)D(6), D4(), DrawCoordType());
      default:
        return GeoArrowMakeType(GEOARROW_GEOMETRY_TYPE_BOX, (enum GeoArrowDimensions)D4(), GEOARROW_COORD_TYPE_SEPARATE);
    }
  }
  static void Describe(Ctx& c, const ArrowSchema* s) {
    SIM_CHECK(s->release && s->format, "inconsistent", "schema of a successful operation");
    c.Val(std::string(s->format) + "|" + (s->name ? s->name : "-") + "|" + ExtMetadata(s, "ARROW:extension:name") + "|" + ExtMetadata(s));
    for (int64_t i = 0; i < s->n_children; i++) Describe(c, s->children[i]);
  }
  void Play(Ctx& c) override {
    {
      OutSchema s;
      if (!c.Op("schema.init", GeoArrowSchemaInit(&s.s, t2))) {
        s.Untouched("schema init");
        return;
      }
      Describe(c, &s.s);
    }
    OutSchema s, from;
    if (!c.Op("schema.init_extension", GeoArrowSchemaInitExtension(&s.s, t))) {
      s.Untouched("schema init");
      return;
    }
    Describe(c, &s.s);
    GeoArrowMetadataView m;
    memset(&m, 0, sizeof m);
    m.edge_type = edges;
    m.crs_type = crs_type;
    m.crs.data = crs.data();
    m.crs.size_bytes = (int64_t)crs.size();
    auto before = [](const ArrowSchema* x) { return ExtMetadata(x, "ARROW:extension:name") + "\n" + ExtMetadata(x); };
    std::string was = before(&s.s);
    if (!c.Op("schema.set_metadata", GeoArrowSchemaSetMetadata(&s.s, &m))) {
      SIM_CHECK(before(&s.s) == was, "half-written", "failed SetMetadata changed the metadata from %s to %s", was.c_str(), before(&s.s).c_str());
      return;
    }
    Describe(c, &s.s);
    if (!c.Op("schema.init_extension", GeoArrowSchemaInitExtension(&from.s, t2))) {
      from.Untouched("schema init");
      return;
    }
    was = before(&from.s);
    if (!c.Op("schema.metadata_from", GeoArrowSchemaSetMetadataFrom(&from.s, &s.s))) {
      SIM_CHECK(before(&from.s) == was, "half-written", "failed SetMetadataFrom changed the metadata from %s to %s", was.c_str(), before(&from.s).c_str());
      return;
    }
    Describe(c, &from.s);
    GeoArrowSchemaView v;
    GeoArrowError err;
    if (!c.Op("schema.view", GeoArrowSchemaViewInit(&v, &from.s, &err))) return;
    c.Val(v.type);
    GeoArrowArrayView av;
    if (!c.Op("view.init", GeoArrowArrayViewInitFromSchema(&av, &from.s, &err))) return;
    GeoArrowArrayReader r;
    if (!c.Op("reader.init", GeoArrowArrayReaderInitFromSchema(&r, &from.s, &err))) return;
    GeoArrowArrayReaderReset(&r);
  }
};

// ---- builders, filled by parts
struct Builders : Scenario {
  int gt, dims, ct;
  Features f;
  NativeBufs nb;
  bool own, reserve;
  struct Own {
    std::unique_ptr<uint8_t[]> p;
    int freed = 0;
  };
  static void Free(uint8_t* p, int64_t, void* x) {
    (void)p;
    ((Own*)x)->freed++;
  }
  Builders() {
    gt = 1 + (int)D(6);
    dims = D4();
    ct = DrawCoordType();
    GenOpts o = SwarmOpts();
    o.only_type = gt;
    o.only_dims = dims;
    f = GenFeatures(o, Small(8));
    own = D(2);
    reserve = D(2);
    nb = EncodeNative(gt, dims, f, D(2));
    what = "builder " + TypeText(NativeType(gt, dims, ct));
  }
  void Play(Ctx& c) override {
    GeoArrowBuilder b;
    if (!c.Op("builder.init", GeoArrowBuilderInitFromType(&b, NativeType(gt, dims, ct)))) return;
    std::vector<std::unique_ptr<Own>> owned;
    Body(c, &b, owned);
    GeoArrowBuilderReset(&b);
    for (auto& o : owned) SIM_CHECK(o->freed == 1, "owned-buffer", "released %d times", o->freed);
  }
  void Body(Ctx& c, GeoArrowBuilder* b, std::vector<std::unique_ptr<Own>>& owned) {
    for (int round = 0; round < 2; round++) {
      if (!nb.validity.empty()) {
        GeoArrowBufferView v;
        v.data = (const uint8_t*)nb.validity.data();
        v.size_bytes = (int64_t)nb.validity.size();
        if (own) {
          owned.emplace_back(new Own());
          Own* o = owned.back().get();
          o->p.reset(new uint8_t[nb.validity.size()]);
          memcpy(o->p.get(), nb.validity.data(), nb.validity.size());
          v.data = o->p.get();
          if (!c.Op("builder.set_owned", GeoArrowBuilderSetOwnedBuffer(b, 0, v, &Free, o))) {
            SIM_CHECK(o->freed == 0, "owned-buffer", "a buffer that was not taken was released");
            owned.pop_back();  // still the caller's
            return;
          }
        } else if (!c.Op("builder.buffer", GeoArrowBuilderAppendBuffer(b, 0, v))) {
          return;
        }
      }
      for (size_t k = 0; k < nb.offs.size(); k++) {
        if (reserve && !c.Op("builder.reserve", GeoArrowBuilderOffsetReserve(b, (int32_t)k, (int64_t)nb.offs[k].size()))) return;
        if (!c.Op("builder.offsets", GeoArrowBuilderOffsetAppend(b, (int32_t)k, nb.offs[k].data(), (int64_t)nb.offs[k].size()))) return;
      }
      int64_t n = (int64_t)nb.coords.size() / Nd(dims);
      CoordChunk ch;
      ch.Set(nb.coords.data(), (size_t)n, Nd(dims), round);
      if (reserve && !c.Op("builder.reserve", GeoArrowBuilderCoordsReserve(b, n))) return;
      if (!c.Op("builder.coords", GeoArrowBuilderCoordsAppend(b, &ch.view, (enum GeoArrowDimensions)dims, 0, n))) return;
      OutArray o;
      GeoArrowError err;
      if (!c.Op("builder.finish", GeoArrowBuilderFinish(b, &o.a, &err))) {
        o.Untouched("finish");
        // everything was appended: finishing again delivers it, or refuses
        sim::DisarmAlloc();
        if (GeoArrowBuilderFinish(b, &o.a, &err) == 0) RowKeys(NativeType(gt, dims, ct), &o.a, what.c_str());
        return;
      }
      for (auto& x : RowKeys(NativeType(gt, dims, ct), &o.a, what.c_str())) c.Val(x);
    }
  }
};

// ---- types an object may not support
struct Refused : Scenario {
  enum GeoArrowType t;
  std::vector<int> rc;
  Refused() {
    switch (D(4)) {
      case 0:
        t = Schemas::Any();
        break;
      case 1:
        t = SerializedType(D(6));
        break;
      case 2:
        t = (enum GeoArrowType)(D(2) ? D(60) + 10000 * D(3) + 1000 * D(5) : 100000 + D(40));
        break;
      default:
        t = GeoArrowMakeType((enum GeoArrowGeometryType)(D(8) == 7 ? GEOARROW_GEOMETRY_TYPE_BOX : D(8)), (enum GeoArrowDimensions)D(6),
                             (enum GeoArrowCoordType)D(4));
    }
    what = "inits for type " + std::to_string((int)t);
  }
  void Play(Ctx& c) override {
    GeoArrowError err;
    std::vector<int> got;
    auto one = [&](int r, auto reset) {
      if (r == 0) reset();
      got.push_back(r);
    };
    GeoArrowArrayWriter aw;
    one(GeoArrowArrayWriterInitFromType(&aw, t), [&] { GeoArrowArrayWriterReset(&aw); });
    GeoArrowNativeWriter nw;
    one(GeoArrowNativeWriterInit(&nw, t), [&] { GeoArrowNativeWriterReset(&nw); });
    GeoArrowBuilder b;
    one(GeoArrowBuilderInitFromType(&b, t), [&] { GeoArrowBuilderReset(&b); });
    GeoArrowArrayReader ar;
    one(GeoArrowArrayReaderInitFromType(&ar, t), [&] { GeoArrowArrayReaderReset(&ar); });
    GeoArrowArrayView v;
    one(GeoArrowArrayViewInitFromType(&v, t), [&] {});
    OutSchema s, x;
    one(GeoArrowSchemaInit(&s.s, t), [&] {});
    int r = GeoArrowSchemaInitExtension(&x.s, t);
    one(r, [&] {});
    if (r == 0) {
      one(GeoArrowArrayWriterInitFromSchema(&aw, &x.s), [&] { GeoArrowArrayWriterReset(&aw); });
      one(GeoArrowBuilderInitFromSchema(&b, &x.s, &err), [&] { GeoArrowBuilderReset(&b); });
      one(GeoArrowArrayReaderInitFromSchema(&ar, &x.s, &err), [&] { GeoArrowArrayReaderReset(&ar); });
    } else {
      x.Untouched("schema init");
    }
    if (got[5]) s.Untouched("schema init");
    if (c.ref) {
      rc = got;
      for (int g : rc) Count(g ? "check.refused_type" : "check.supported_type");
    } else {
      for (size_t i = 0; i < got.size() && i < rc.size(); i++)
        SIM_CHECK(got[i] == rc[i] || (got[i] != 0 && sim::AllocFired()), "other-path", "init %zu returned %d instead of %d", i, got[i], rc[i]);
    }
  }
};

// ---- views, scalar functions
struct Others : Scenario {
  Source src;
  Others() {
    GenOpts o = SwarmOpts();
    if (D(2)) {
      MakeArrays(src, SerializedType(D(6)), GenFeatures(o, Small(6)), 2);
    } else {
      o.only_type = 1 + (int)D(6);
      o.only_dims = D4();
      MakeArrays(src, NativeType(o.only_type, o.only_dims, DrawCoordType()), GenFeatures(o, Small(6)), 2);
    }
    what = "view and function " + TypeText(src.type);
  }
  void Play(Ctx& c) override {
    GeoArrowError err;
    GeoArrowArrayReader r;
    if (!c.Op("reader.init", GeoArrowArrayReaderInitFromType(&r, src.type))) return;
    bool ok = true;
    for (size_t i = 0; ok && i < src.arrays.size(); i++) {
      ok = c.Op("reader.set_array", GeoArrowArrayReaderSetArray(&r, &src.arrays[i]->a, &err));
      const GeoArrowArrayView* v = nullptr;
      if (ok && GeoArrowArrayReaderArrayView(&r, &v) == 0) { c.Val((uint64_t)v->length[0]); }
    }
    GeoArrowArrayReaderReset(&r);
    if (!ok) return;
    GeoArrowScalarUdfFactory fac;
    if (!c.Op("udf.factory", GeoArrowScalarUdfFactoryInit(&fac, "void", nullptr, &err))) return;
    GeoArrowScalarUdf u;
    fac.new_scalar_udf_impl(&fac, &u);
    OutSchema s;
    OutArray o;
    if (c.Op("udf.init", u.init(&u, nullptr, nullptr, 0, &s.s))) {
      c.Val(std::string(s.s.format));
      if (c.Op("udf.execute", u.execute(&u, nullptr, 0, 5, &o.a)))
        c.Val((uint64_t)o.a.length);
      else
        o.Untouched("execute");
    } else {
      s.Untouched("udf init");
    }
    u.release(&u);
    fac.release(&fac);
  }
};
}  // namespace

static void PlayWith(Scenario& s, const Ctx& ref, const sim::FaultPlan& p, const char* how) {
  Ctx c;
  c.ref = false;
  c.expect = ref.ops;
  c.rows = ref.rows;
  size_t live = sim::LiveAllocs();
  sim::StackFill();
  sim::SetStepBudget(30000000);
  sim::ArmAlloc(p);
  s.Play(c);
  sim::DisarmAlloc();
  uint64_t fired = sim::AllocFired();
  SIM_CHECK(sim::LiveAllocs() == live, "leak", "%s, %s %llu: %zu allocations are still live after everything was released (last operation: %s -> %d)",
            s.what.c_str(), how, (unsigned long long)p.first, sim::LiveAllocs() - live, c.ops.empty() ? "-" : c.ops.back().first.c_str(),
            c.ops.empty() ? 0 : c.ops.back().second);
  if (!c.failed)
    SIM_CHECK(c.hash == ref.hash, "different-result", "%s, %s %llu: every operation succeeded but the result differs (%llu faults)", s.what.c_str(), how,
              (unsigned long long)p.first, (unsigned long long)fired);
  if (fired) {
    Count(c.failed ? "check.fault_reported" : "check.fault_survived");
    uint64_t h = sim::HashBytes(s.what.data(), s.what.size());
    h = sim::Mix(h, c.ops.empty() ? 0 : sim::HashBytes(c.ops.back().first.data(), c.ops.back().first.size()));
    sim::State(sim::Mix(h, p.first * 2 + c.failed));
  }
  Log("%s %s %llu: %llu faults, %zu operations, %s", s.what.c_str(), how, (unsigned long long)p.first, (unsigned long long)fired, c.ops.size(),
      c.failed ? "reported" : "succeeded");
}

// Sizes no allocation can serve must be refused before anything is written.
static void Huge() {
  bool wkb = D(2);
  int dims = D4(), nd = Nd(dims);
  uint32_t sizes[] = {1u << 30, 0x7fffffff, 0x80000000u, 0xffffffffu, 0x20000000u, 0x10000000u + D(64), 0x40000001u, (1u << 28) - 1};
  uint32_t n = sizes[D(8)];
  double xyzm[4] = {1, 2, 3, 4};
  GeoArrowGeometryNode node[2];
  memset(node, 0, sizeof node);
  bool ring = D(2);
  GeoArrowGeometryNode* leaf = ring ? node + 1 : node;
  leaf->geometry_type = GEOARROW_GEOMETRY_TYPE_LINESTRING;
  leaf->dimensions = (uint8_t)dims;
  leaf->size = n;
  leaf->level = ring;
  for (int i = 0; i < 4; i++) leaf->coords[i] = (const uint8_t*)(xyzm + (i < nd ? i : 0));
  if (ring) {
    node[0].geometry_type = GEOARROW_GEOMETRY_TYPE_POLYGON;
    node[0].dimensions = (uint8_t)dims;
    node[0].size = 1;
  }
  GeoArrowGeometryView v;
  v.root = node;
  v.size_nodes = ring ? 2 : 1;
  Writer w;
  SIM_CHECK(w.Init(wkb ? GEOARROW_TYPE_WKB : NativeType(ring ? PG : LS, dims, DrawCoordType()), 2) == 0, "init", "writer");
  Feature small;
  small.null = false;
  small.g.type = ring ? PG : LS;
  small.g.dims = dims;
  ViewBuilder sv;
  sv.Build(small.g, false);
  auto one = [&](GeoArrowGeometryView x) { return wkb ? GeoArrowWKBWriterAppend(&w.wkb, x) : GeoArrowNativeWriterAppend(&w.nat, x, &w.err); };
  uint32_t before = D(3);
  for (uint32_t i = 0; i < before; i++) SIM_CHECK(one(sv.view) == 0, "append", "small");
  sim::FaultPlan p;
  p.max_size = 1 << 20;
  sim::ArmAlloc(p);
  int rc;
  GeoArrowGeometry g;
  bool copy = B(4);
  if (copy) {
    SIM_CHECK(GeoArrowGeometryInit(&g) == 0, "init", "geometry");
    rc = GeoArrowGeometryDeepCopy(v, &g);
    GeoArrowGeometryReset(&g);
  } else {
    rc = one(v);
  }
  uint64_t fired = sim::DisarmAlloc();
  Log("%s %s of %u coordinates: %d, %llu refused allocations", copy ? "copy" : wkb ? "wkb" : "native", ring ? "ring" : "linestring", n, rc,
      (unsigned long long)fired);
  SIM_CHECK(rc != 0, "huge-accepted", "%u coordinates were stored although no allocation above 1 MiB succeeds", n);
  if (!copy) {
    OutArray o;
    rc = w.Finish(&o.a);
    if (rc == 0) {
      auto rows = RowKeys(w.type, &o.a, "after a refused feature");
      SIM_CHECK(rows.size() == before, "half-present", "%zu rows after %u were appended", rows.size(), before);
    }
  }
  Count("fault.alloc_too_large");
  sim::NonTrivial();
}

static void Run() {
  std::unique_ptr<Scenario> s;
  switch (W({7, 5, 6, 3, 4, 3, 1, 1, 2})) {
    case 0:
      s.reset(new Convert());
      break;
    case 1:
      s.reset(new Append());
      break;
    case 2:
      s.reset(new Kernels());
      break;
    case 3:
      s.reset(new Geometry());
      break;
    case 4:
      s.reset(new Schemas());
      break;
    case 5:
      s.reset(new Builders());
      break;
    case 6:
      s.reset(new Others());
      break;
    case 7:
      Huge();
      return;
    default:
      s.reset(new Refused());
  }
  Ctx ref;
  size_t live = sim::LiveAllocs();
  sim::ArmAlloc(sim::FaultPlan());
  s->Play(ref);
  sim::DisarmAlloc();
  uint64_t k = sim::AllocSeen();
  SIM_CHECK(sim::LiveAllocs() == live, "leak", "%s without faults: %zu allocations are still live", s->what.c_str(), sim::LiveAllocs() - live);
  Log("%s: %llu allocations, %zu operations, last %s -> %d", s->what.c_str(), (unsigned long long)k, ref.ops.size(),
      ref.ops.empty() ? "-" : ref.ops.back().first.c_str(), ref.ops.empty() ? 0 : ref.ops.back().second);
  // every allocation fails once, alone; with many, a drawn stretch of them
  uint64_t cap = sim::Tier() ? 400 : 80, lo = 1, hi = k;
  if (k > cap) {
    lo = 1 + D((uint32_t)(k - cap) + 1);
    hi = lo + cap - 1;
  }
  for (uint64_t i = lo; i <= hi; i++) {
    sim::FaultPlan p;
    p.first = i;
    PlayWith(*s, ref, p, "allocation");
    Count("fault.alloc_single");
  }
  if (k) {
    uint32_t more = 1 + D(4);
    for (uint32_t i = 0; i < more; i++) {
      sim::FaultPlan p;
      switch (D(3)) {
        case 0:
          p.first = 1 + D((uint32_t)k);
          p.burst = UINT64_MAX / 2;
          PlayWith(*s, ref, p, "all from allocation");
          Count("fault.alloc_exhausted");
          break;
        case 1:
          p.first = 1 + D((uint32_t)k);
          p.burst = 2 + D(4);
          PlayWith(*s, ref, p, "burst from allocation");
          Count("fault.alloc_burst");
          break;
        default:
          p.mod = 2 + D(20);
          p.salt = sim::U64();
          PlayWith(*s, ref, p, "random allocations");
          Count("fault.alloc_random");
      }
    }
    sim::NonTrivial();
  }
}
SIM_PROPERTY("P03", Run, 30000, 800000,
             "one run plays one drawn operation history without faults and then again once per allocation with exactly that "
             "allocation failing, plus bursts, exhaustion and random failures; non-trivial: the history allocates")

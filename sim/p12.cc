// P12: memory handed over has one owner and is released exactly once.
//
// A run is a history over a pool of library objects, the arrays, schemas and buffers the
// caller hands them, and the arrays and schemas they export.  The tape picks which object
// acts, what it does, which exported object is checked, moved, taken apart or released,
// and which allocation fails.
#include <cstdlib>
#include <list>
#include "schematree.h"
extern "C" void* sim_malloc(size_t);
extern "C" void sim_free(void*);
#define malloc sim_malloc
#define free sim_free
#include "geoarrow/geoarrow.hpp"
#undef malloc
#undef free
using namespace st;

// ---- caller-owned buffers with a custom deallocator
struct Own {
  std::unique_ptr<uint8_t[]> p;
  std::string copy;
  int64_t size = 0;
  int freed = 0;
  bool mine = true;  // the caller's
  uint8_t* addr = nullptr;
};
static std::list<Own>* g_owned;
static int64_t g_payloads;
static int64_t g_inputs;  // harness arrays that should be alive

static void FreeOwn(uint8_t* ptr, int64_t size, void* data) {
  Own* o = (Own*)data;
  o->freed++;
  SIM_CHECK(o->freed == 1, "deallocator-twice", "a buffer of %lld bytes was released %d times", (long long)o->size, o->freed);
  SIM_CHECK(!o->mine, "deallocator-early", "a buffer of %lld bytes that was not taken was released", (long long)o->size);
  SIM_CHECK(ptr == o->addr && size == o->size, "deallocator-arguments", "a buffer of %lld bytes was released with %lld bytes%s", (long long)o->size,
            (long long)size, ptr == o->addr ? "" : " at another address");
  SIM_CHECK(o->size == 0 || memcmp(o->p.get(), o->copy.data(), (size_t)o->size) == 0, "buffer-changed", "a buffer of %lld bytes", (long long)o->size);
  o->p.reset();
  Count("release.deallocator");
}
// A container for the C++ builder.
struct Payload {
  typedef double value_type;
  std::unique_ptr<double[]> d;
  size_t n = 0;
  bool full = false;
  explicit Payload(const std::vector<double>& v) : d(v.empty() ? nullptr : new double[v.size()]), n(v.size()), full(true) {
    if (n) memcpy(d.get(), v.data(), n * 8);
    g_payloads++;
  }
  Payload(Payload&& o) : d(std::move(o.d)), n(o.n), full(o.full) {
    o.n = 0;
    o.full = false;
  }
  Payload& operator=(Payload&&) = delete;
  ~Payload() {
    if (full) g_payloads--;
  }
  const double* data() const { return d.get(); }
  size_t size() const { return n; }
};

// ---- what an exported object looks like
static void SnapArray(const ArrowArray* a, std::string* out) {
  auto num = [&](int64_t v) { out->append((const char*)&v, 8); };
  SIM_CHECK(a->release != nullptr, "released-inside", "part of a live array is marked released");
  num(a->length), num(a->null_count), num(a->offset), num(a->n_buffers), num(a->n_children);
  for (int64_t i = 0; i < a->n_buffers; i++) {
    const void* p = a->buffers[i];
    num((int64_t)(intptr_t)p);
    size_t n = 0;
    if (p && sim::IsLive(p, &n)) {
      out->append((const char*)p, n);
      continue;
    }
    for (auto& o : *g_owned)
      if (o.addr == p && o.size) {
        SIM_CHECK(!o.freed, "buffer-released", "a live array shows a released buffer");
        out->append((const char*)p, (size_t)o.size);
      }
  }
  for (int64_t i = 0; i < a->n_children; i++) SnapArray(a->children[i], out);
}
static std::string AllMetadata(const char* m) {
  if (!m) return "";
  const char* p = m;
  auto get = [&]() {
    int32_t v;
    memcpy(&v, p, 4);
    p += 4;
    return v;
  };
  int32_t n = get();
  for (int32_t i = 0; i < 2 * n; i++) {
    int32_t len = get();
    p += len;
  }
  return std::string(m, (size_t)(p - m));
}
static void SnapSchema(const ArrowSchema* s, std::string* out) {
  SIM_CHECK(s->release != nullptr, "released-inside", "part of a live schema is marked released");
  auto str = [&](const char* c) {
    *out += c ? "+" : "-";
    if (c) *out += c;
    *out += '\0';
  };
  str(s->format), str(s->name);
  *out += std::to_string(s->flags) + "/" + std::to_string(s->n_children);
  *out += AllMetadata(s->metadata);
  for (int64_t i = 0; i < s->n_children; i++) SnapSchema(s->children[i], out);
}
struct Held {
  bool schema = false;
  ArrowArray* a = nullptr;
  ArrowSchema* s = nullptr;
  std::string snap;
  std::string what;
  enum GeoArrowType type = GEOARROW_TYPE_UNINITIALIZED;  // decodable as this
  std::string rows;
};
struct Obj;
struct World {
  std::vector<std::unique_ptr<Held>> held;
  std::vector<std::unique_ptr<Obj>> objs;
  void Keep(ArrowArray* a, const std::string& what, enum GeoArrowType type);
  void KeepSchema(ArrowSchema* s, const std::string& what);
};
static World* w;
static std::string Rows(enum GeoArrowType t, const ArrowArray* a, const char* what) {
  std::string r;
  for (auto& f : DecodeArray(t, a, what)) r += Key(f) + "\n";
  return r;
}
void World::Keep(ArrowArray* a, const std::string& what, enum GeoArrowType type) {
  SIM_CHECK(a->release != nullptr, "no-result", "%s succeeded without a result", what.c_str());
  std::unique_ptr<Held> h(new Held());
  h->a = new ArrowArray;
  if (D(2))
    ArrowArrayMove(a, h->a);
  else {
    memcpy(h->a, a, sizeof *a);
    a->release = nullptr;
  }
  SIM_CHECK(a->release == nullptr, "move", "the source of a move is not marked released");
  h->what = what;
  h->type = type;
  SnapArray(h->a, &h->snap);
  if (type != GEOARROW_TYPE_UNINITIALIZED) h->rows = Rows(type, h->a, what.c_str());
  held.push_back(std::move(h));
  Count("export.array");
}
void World::KeepSchema(ArrowSchema* s, const std::string& what) {
  SIM_CHECK(s->release != nullptr, "no-result", "%s succeeded without a result", what.c_str());
  std::unique_ptr<Held> h(new Held());
  h->schema = true;
  h->s = new ArrowSchema;
  if (D(2))
    ArrowSchemaMove(s, h->s);
  else {
    memcpy(h->s, s, sizeof *s);
    s->release = nullptr;
  }
  SIM_CHECK(s->release == nullptr, "move", "the source of a move is not marked released");
  h->what = what;
  SnapSchema(h->s, &h->snap);
  held.push_back(std::move(h));
  Count("export.schema");
}
static void Verify(const Held& h) {
  std::string now;
  if (h.schema)
    SnapSchema(h.s, &now);
  else
    SnapArray(h.a, &now);
  SIM_CHECK(now == h.snap, "export-changed", "what %s delivered has changed since", h.what.c_str());
  if (h.type != GEOARROW_TYPE_UNINITIALIZED)
    SIM_CHECK(Rows(h.type, h.a, h.what.c_str()) == h.rows, "export-changed", "the rows %s delivered have changed since", h.what.c_str());
  Count("check.export");
}
static void ReleaseHeld(Held& h) {
  if (h.schema) {
    h.s->release(h.s);
    SIM_CHECK(h.s->release == nullptr, "not-marked", "%s: a released schema is not marked", h.what.c_str());
    delete h.s;
  } else {
    h.a->release(h.a);
    SIM_CHECK(h.a->release == nullptr, "not-marked", "%s: a released array is not marked", h.what.c_str());
    delete h.a;
  }
  Count("release.export");
}

// ---- caller's arrays and faults
struct Input {
  ArrowArray a;
  Features f;
  Input() { a.release = nullptr; }
  ~Input() { Drop(); }
  void Drop() {
    if (!a.release) return;
    g_inputs--;
    a.release(&a);
  }
};
static GenOpts Opts(int gt = 0, int dims = 0) {
  GenOpts o = SwarmOpts();
  o.only_type = gt;
  o.only_dims = dims;
  o.big_den = 200;
  return o;
}
static std::unique_ptr<Input> NewInput(enum GeoArrowType t) {
  std::unique_ptr<Input> in(new Input());
  if (IsBox(t)) {
    Source s;
    MakeBoxes(s, Small(5), 1);
    in->a = s.arrays[0]->a;
    s.arrays[0]->a.release = nullptr;
    in->f = s.parts[0];
  } else {
    GenOpts o = Opts();
    if (IsNative(t)) {
      TypeParts p = Parts(t);
      o = Opts(p.gtype, p.dims);
    }
    in->f = GenFeatures(o, Small(6));
    in->a = MakeSource(t, in->f, GenArrOpts());
  }
  g_inputs++;
  return in;
}
static enum GeoArrowType AnyType() {
  if (D(3) == 0) return SerializedType(D(6));
  return NativeType(1 + (int)D(6), D4(), DrawCoordType());
}
// A type whose arrays have another number of children: a reader must refuse them.
static enum GeoArrowType OtherType(enum GeoArrowType t) {
  return IsSerialized(t) ? NativeType(1 + (int)D(6), D4(), DrawCoordType()) : SerializedType(D(6));
}
// A library call that may meet a failing allocation.
struct Try {
  bool fired = false;
  template <class F>
  int operator()(const char* what, F f) {
    sim::FaultPlan p;
    bool arm = B(5);
    if (arm) {
      p.first = 1 + Small(12);
      p.burst = D(3) ? 1 : 1 + D(4);
      sim::ArmAlloc(p);
    }
    int rc = f();
    fired = arm && sim::DisarmAlloc() > 0;
    if (fired) Count("fault.alloc");
    Log("%s -> %d%s", what, rc, fired ? " (fault)" : "");
    return rc;
  }
};
static void MustNot(int rc, const Try& t, const char* what) {
  SIM_CHECK(rc == 0 || t.fired, "refused", "%s failed with %d although nothing was wrong", what, rc);
}
// An output argument the callee may only fill on success.
struct Out {
  ArrowArray a;
  Out() {
    memset(&a, 0xA5, sizeof a);
    a.release = nullptr;
  }
  void Failed(const char* what) { SIM_CHECK(a.release == nullptr, "output-after-failure", "%s failed and left an array behind", what); }
};
struct OutS {
  ArrowSchema s;
  OutS() {
    memset(&s, 0xA5, sizeof s);
    s.release = nullptr;
  }
  void Failed(const char* what) { SIM_CHECK(s.release == nullptr, "output-after-failure", "%s failed and left a schema behind", what); }
};

struct Obj {
  virtual ~Obj() {}
  virtual void Step() = 0;
  virtual const char* Name() const = 0;
  std::vector<std::unique_ptr<Input>> in;
  Try t;
};

// ---- C builder
struct BuilderObj : Obj {
  GeoArrowBuilder b;
  enum GeoArrowType type;
  bool live = false, clean = true, full = false;
  const char* Name() const override { return "builder"; }
  BuilderObj() { Init(); }
  ~BuilderObj() override { Reset(); }
  void Init() {
    type = NativeType(1 + (int)D(6), D4(), DrawCoordType());
    int rc;
    if (D(2)) {
      rc = t("builder.init", [&] { return GeoArrowBuilderInitFromType(&b, type); });
    } else {
      Schema s;
      SIM_CHECK(GeoArrowSchemaInitExtension(&s.s, type) == 0, "init", "schema");
      GeoArrowError e;
      rc = t("builder.init_schema", [&] { return GeoArrowBuilderInitFromSchema(&b, &s.s, &e); });
      SIM_CHECK(s.s.release != nullptr, "argument-released", "builder init released its schema");
    }
    MustNot(rc, t, "builder init");
    live = rc == 0;
    clean = true;
    full = false;
  }
  void Reset() {
    if (live) GeoArrowBuilderReset(&b);
    live = false;
  }
  bool Own1(int64_t i, const void* p, size_t n, const char* what) {
    g_owned->emplace_back();
    Own* o = &g_owned->back();
    o->p.reset(new uint8_t[n ? n : 1]);
    o->copy.assign((const char*)p, n);
    memcpy(o->p.get(), p, n);
    bool null = n == 0 && D(2);
    o->addr = null ? nullptr : o->p.get();
    o->size = (int64_t)n;
    GeoArrowBufferView v;
    v.data = o->addr;
    v.size_bytes = o->size;
    o->mine = false;
    int64_t at = B(12) ? (D(2) ? -1 - (int64_t)D(3) : b.view.n_buffers + (int64_t)D(3)) : i;
    if (at != i) o->mine = true;
    int rc = t(what, [&] { return GeoArrowBuilderSetOwnedBuffer(&b, at, v, &FreeOwn, o); });
    if (at != i) {
      SIM_CHECK(rc != 0, "accepted", "buffer %lld of %lld was set", (long long)at, (long long)b.view.n_buffers);
    } else {
      MustNot(rc, t, what);
    }
    if (rc) {
      SIM_CHECK(o->freed == 0, "deallocator-early", "a refused buffer was released");
      o->mine = true;
      return false;
    }
    Count("hand.buffer");
    return true;
  }
  void Fill() {
    TypeParts p = Parts(type);
    Features f = GenFeatures(Opts(p.gtype, p.dims), Small(5));
    NativeBufs nb = EncodeNative(p.gtype, p.dims, f, D(2));
    bool own_all = D(2);
    bool ok = true;
    auto put = [&](int64_t i, const void* d, size_t n) {
      if (!ok) return;
      if (own_all ? D(5) != 0 : D(4) == 0) {
        int times = B(4) ? 2 : 1;  // replacing a buffer releases the one that was there
        for (int k = 0; k < times && ok; k++) ok = Own1(i, d, n, "builder.set_owned");
        return;
      }
      std::unique_ptr<uint8_t[]> copy(new uint8_t[n]);
      memcpy(copy.get(), d, n);
      GeoArrowBufferView v;
      v.data = copy.get();
      v.size_bytes = (int64_t)n;
      int rc = t("builder.append", [&] { return GeoArrowBuilderAppendBuffer(&b, i, v); });
      MustNot(rc, t, "append");
      ok = rc == 0;
    };
    // in any order
    std::vector<std::function<void()>> parts;
    if (!nb.validity.empty()) parts.push_back([&] { put(0, nb.validity.data(), nb.validity.size()); });
    for (size_t k = 0; k < nb.offs.size(); k++)
      parts.push_back([&, k] { put(1 + (int64_t)k, nb.offs[k].data(), nb.offs[k].size() * 4); });
    int nd = Nd(p.dims);
    int64_t first = 1 + (int64_t)nb.offs.size();
    size_t n = nb.coords.size() / nd;
    std::vector<std::vector<double>> sep(nd);
    for (size_t i = 0; i < nb.coords.size(); i++) sep[i % nd].push_back(nb.coords[i]);
    // "Replace a buffer": appended coordinates give way to whole buffers
    auto replaced = [&] {
      if (!B(5) || !ok) return;
      Features g = GenFeatures(Opts(p.gtype, p.dims), Small(6));
      NativeBufs x = EncodeNative(p.gtype, p.dims, g, false);
      Coords(x, x.coords.size() / nd, nd, p.dims, &ok);
      Count("op.replace_appended");
    };
    auto own = [&](int64_t i, const void* d, size_t k) {
      if (ok) ok = Own1(i, d, k, "builder.set_owned");
    };
    if (p.coord_type == GEOARROW_COORD_TYPE_INTERLEAVED) {
      if (B(4))
        parts.push_back([&] { replaced(), own(first, nb.coords.data(), nb.coords.size() * 8); });
      else if (D(3) == 0)
        parts.push_back([&] { put(first, nb.coords.data(), nb.coords.size() * 8); });
      else
        parts.push_back([&] { Coords(nb, n, nd, p.dims, &ok); });
    } else if (B(4)) {
      parts.push_back([&] {
        replaced();
        for (int k = 0; k < nd; k++) own(first + k, sep[k].data(), sep[k].size() * 8);
      });
    } else if (D(3)) {
      for (int k = 0; k < nd; k++) parts.push_back([&, k] { put(first + k, sep[k].data(), sep[k].size() * 8); });
    } else {
      parts.push_back([&] { Coords(nb, n, nd, p.dims, &ok); });
    }
    while (!parts.empty()) {
      size_t i = D((uint32_t)parts.size());
      parts[i]();
      parts.erase(parts.begin() + (long)i);
    }
    if (!ok) clean = false;
    full = true;
  }
  void Coords(const NativeBufs& nb, size_t n, int nd, int dims, bool* ok) {
    if (!*ok) return;
    CoordChunk ch;
    ch.Set(nb.coords.data(), n, nd, (int)D(3));
    int rc = t("builder.coords", [&] { return GeoArrowBuilderCoordsAppend(&b, &ch.view, (enum GeoArrowDimensions)dims, 0, (int64_t)n); });
    MustNot(rc, t, "coords");
    *ok = rc == 0;
  }
  void Step() override {
    if (!live) return Init();
    switch (W({6, 5, 1})) {
      case 0:
        if (!full && clean) Fill();
        break;
      case 1: {
        Out o;
        GeoArrowError e;
        int rc = t("builder.finish", [&] { return GeoArrowBuilderFinish(&b, &o.a, &e); });
        if (rc) {
          o.Failed("builder finish");
          if (full && clean) MustNot(rc, t, "builder finish");
          if (!t.fired) clean = false;
        } else {
          w->Keep(&o.a, "builder " + TypeText(type), full && clean ? type : GEOARROW_TYPE_UNINITIALIZED);
          full = false;
          clean = clean && true;
        }
        if (!clean && D(2)) Reset();
        break;
      }
      default:
        Reset();
    }
  }
};

// ---- C++ builder
struct HppBuilderObj : Obj {
  std::unique_ptr<geoarrow::ArrayBuilder> b;
  enum GeoArrowType type;
  bool bad = false;
  const char* Name() const override { return "hpp builder"; }
  HppBuilderObj() { Init(); }
  void Init() {
    type = NativeType(1 + (int)D(6), D4(), DrawCoordType());
    int rc = t("hpp.builder", [&] {
      try {
        b.reset(new geoarrow::ArrayBuilder(type));
        return 0;
      } catch (std::exception& ex) {
          sim::Note("%s", ex.what());
        return 1;
      }
    });
    MustNot(rc, t, "hpp builder");
    if (rc) b.reset();
    bad = false;
  }
  void Step() override {
    if (!b) return Init();
    TypeParts p = Parts(type);
    switch (W({5, 1})) {
      case 0: {
        Features f = GenFeatures(Opts(p.gtype, p.dims), Small(5));
        NativeBufs nb = EncodeNative(p.gtype, p.dims, f, D(2));
        int nd = Nd(p.dims);
        int64_t first = 1 + (int64_t)nb.offs.size();
        std::vector<std::vector<double>> sep(nd);
        for (size_t i = 0; i < nb.coords.size(); i++) sep[i % nd].push_back(nb.coords[i]);
        bool inter = p.coord_type == GEOARROW_COORD_TYPE_INTERLEAVED;
        Out o;
        int rc = 0;
        auto step = [&](const char* what, std::function<void()> g) {
          if (rc) return;
          rc = t(what, [&] {
            try {
              g();
              return 0;
            } catch (std::exception& ex) {
          sim::Note("%s", ex.what());
              return 1;
            }
          });
          MustNot(rc, t, what);
        };
        auto coords = [&](int64_t i, const std::vector<double>& v) {
          Payload pay(v);
          bool three = D(2);
          int64_t before = g_payloads;
          step("hpp.wrapped", [&] {
            if (three) {
              GeoArrowBufferView bv;
              bv.data = (const uint8_t*)pay.data();
              bv.size_bytes = (int64_t)pay.size() * 8;
              b->SetBufferWrapped(i, std::move(pay), bv);
            } else {
              b->SetBufferWrapped(i, std::move(pay));
            }
          });
          SIM_CHECK(g_payloads <= before, "payload", "wrapping a buffer made a second owner");
          if (rc == 0) Count("hand.wrapped");
        };
        for (size_t k = 0; k < nb.offs.size(); k++) {
          if (D(2))
            step("hpp.offsets", [&] { b->AppendToOffsetBuffer((int64_t)k, nb.offs[k]); });
          else
            step("hpp.offsets", [&] { b->AppendToBuffer(1 + (int64_t)k, nb.offs[k]); });
        }
        if (!nb.validity.empty()) step("hpp.validity", [&] { b->AppendToBuffer(0, nb.validity); });
        if (inter) {
          if (B(6)) coords(first, nb.coords);  // replaced by the next one
          coords(first, nb.coords);
        } else {
          for (int k = 0; k < nd; k++) coords(first + k, sep[k]);
        }
        step("hpp.finish", [&] { b->Finish(&o.a); });
        if (rc) {
          o.Failed("hpp builder");
          b.reset();
        } else {
          w->Keep(&o.a, "hpp builder " + TypeText(type), type);
        }
        break;
      }
      default:
        b.reset();
    }
  }
};

// ---- writers
struct WriterObj : Obj {
  std::unique_ptr<Writer> wr;
  bool clean = true;
  bool inited = false;
  const char* Name() const override { return "writer"; }
  WriterObj() { Init(); }
  void Init() {
    wr.reset(new Writer());
    inited = false;
    clean = true;
    static const enum GeoArrowType text[] = {GEOARROW_TYPE_WKT, GEOARROW_TYPE_WKB};
    enum GeoArrowType ty = D(2) ? text[D(2)] : NativeType(1 + (int)D(6), D4(), DrawCoordType());
    int which = (int)D(3);
    int rc = t("writer.init", [&] { return wr->Init(ty, which); });
    MustNot(rc, t, "writer init");
    if (rc) wr.reset();
  }
  void Step() override {
    if (!wr) return Init();
    if (!inited) {
      int rc = t("writer.visitor", [&] { return wr->InitVisitor(); });
      MustNot(rc, t, "writer visitor");
      if (rc)
        wr.reset();
      else
        inited = true;
      return;
    }
    switch (W({8, 4, 1})) {
      case 0: {
        GenOpts o = Opts();
        if (IsNative(wr->type)) {
          TypeParts p = Parts(wr->type);
          o = Opts(p.gtype, D4());
        }
        Feature f = GenFeature(o);
        int rc = t("writer.feature", [&] { return EmitFeature(f, &wr->v, true); });
        MustNot(rc, t, "writer feature");
        if (rc) {
          clean = false;
          if (D(2)) wr->v.feat_end(&wr->v);
        }
        break;
      }
      case 1: {
        Out o;
        int rc = t("writer.finish", [&] { return wr->Finish(&o.a); });
        if (rc) {
          if (clean) MustNot(rc, t, "writer finish");
          o.Failed("writer finish");
          clean = false;
        } else {
          w->Keep(&o.a, "writer " + TypeText(wr->type), clean ? wr->type : GEOARROW_TYPE_UNINITIALIZED);
        }
        if (!clean) wr.reset();
        break;
      }
      default:
        wr.reset();
    }
  }
};

// ---- C readers: the arrays stay the caller's
struct ReaderObj : Obj {
  std::unique_ptr<Reader> r;
  enum GeoArrowType type;
  Input* cur = nullptr;
  const char* Name() const override { return "reader"; }
  ReaderObj() { Init(); }
  ~ReaderObj() override {
    if (D(2)) in.clear();  // the arrays may be gone before the reader
    r.reset();
  }
  void Init() {
    cur = nullptr;
    type = B(8) ? GEOARROW_TYPE_BOX : AnyType();
    r.reset(new Reader());
    int which = (int)D(2);
    int rc = t("reader.init", [&] { return r->Init(type, which); });
    MustNot(rc, t, "reader init");
    if (rc) r.reset();
  }
  void Step() override {
    if (!r) return Init();
    switch (W({4, 6, 2, 1})) {
      case 0: {
        bool wrong = B(6);
        in.push_back(NewInput(wrong ? OtherType(type) : type));
        Input* x = in.back().get();
        ArrowArray before = x->a;
        int rc = t("reader.set", [&] { return r->SetArray(&x->a, {}); });
        if (wrong)
          SIM_CHECK(rc != 0, "accepted", "%s array read as %s", TypeText(OtherType(type)).c_str(), TypeText(type).c_str());
        else
          MustNot(rc, t, "reader set array");
        SIM_CHECK(memcmp(&before, &x->a, sizeof before) == 0, "argument-changed", "set array changed the caller's array");
        cur = rc == 0 && !wrong ? x : nullptr;
        Count("hand.array_nonowning");
        break;
      }
      case 1: {
        if (!cur) break;
        Recorder rec;
        int rc = t("reader.visit", [&] { return r->Visit(0, (int64_t)cur->f.size(), &rec.v); });
        MustNot(rc, t, "visit");
        SIM_CHECK(cur->a.release != nullptr, "argument-released", "visiting released the caller's array");
        break;
      }
      case 2:  // a caller may release an array it does not read from any more
        if (!in.empty()) {
          size_t i = D((uint32_t)in.size());
          if (in[i].get() == cur) cur = nullptr;
          in.erase(in.begin() + (long)i);
        }
        break;
      default:
        r.reset();
        cur = nullptr;
    }
  }
};

// ---- the C++ reader, which can take over an array
struct HppReaderObj : Obj {
  std::unique_ptr<geoarrow::ArrayReader> r;
  enum GeoArrowType type;
  Features* cur = nullptr;
  Features own_f;
  Input* borrowed = nullptr;
  bool owns = false;
  const char* Name() const override { return "hpp reader"; }
  HppReaderObj() { Init(); }
  ~HppReaderObj() override { Drop(); }
  void Drop() {
    if (owns) g_inputs--;
    owns = false;
    cur = nullptr;
    borrowed = nullptr;
    if (D(2)) in.clear();
    r.reset();
  }
  void Init() {
    type = AnyType();
    Schema s;
    SIM_CHECK(GeoArrowSchemaInitExtension(&s.s, type) == 0, "init", "schema");
    bool by_schema = D(2);
    int rc = t("hpp.reader", [&] {
      try {
        r.reset(by_schema ? new geoarrow::ArrayReader(&s.s) : new geoarrow::ArrayReader(type));
        return 0;
      } catch (std::exception& ex) {
          sim::Note("%s", ex.what());
        return 1;
      }
    });
    MustNot(rc, t, "hpp reader");
    if (rc) r.reset();
  }
  void Step() override {
    if (!r) return Init();
    switch (W({5, 2, 6, 2, 1})) {
      case 0: {
        bool wrong = B(5);
        auto x = NewInput(wrong ? OtherType(type) : type);
        ArrowArray before = x->a;
        int64_t live = g_arrays_live;
        int rc = t("hpp.set_array", [&] {
          try {
            r->SetArray(&x->a);
            return 0;
          } catch (std::exception& ex) {
          sim::Note("%s", ex.what());
            return 1;
          }
        });
        if (!wrong) MustNot(rc, t, "hpp set array");
        if (rc == 0) {
          SIM_CHECK(x->a.release == nullptr, "not-taken", "the array was taken but the caller's copy is not marked");
          int64_t want = live - (owns ? 1 : 0);
          SIM_CHECK(g_arrays_live == want, "array-count", "%lld arrays live instead of %lld", (long long)g_arrays_live, (long long)want);
          if (owns) g_inputs--;
          owns = true;
          own_f = x->f;
          cur = wrong ? nullptr : &own_f;
          borrowed = nullptr;
          Count("hand.array_owning");
        } else {
          SIM_CHECK(g_arrays_live == live, "array-count", "a refused array or its predecessor was released");
          SIM_CHECK(memcmp(&before, &x->a, sizeof before) == 0, "argument-changed", "a refused array was changed");
          cur = nullptr;
          borrowed = nullptr;
          Count("hand.array_refused");
        }
        break;
      }
      case 1: {
        in.push_back(NewInput(type));
        Input* x = in.back().get();
        int rc = t("hpp.set_nonowning", [&] {
          try {
            r->SetArrayNonOwning(&x->a);
            return 0;
          } catch (std::exception& ex) {
          sim::Note("%s", ex.what());
            return 1;
          }
        });
        MustNot(rc, t, "hpp set array");
        SIM_CHECK(x->a.release != nullptr, "argument-released", "a lent array was taken");
        cur = rc == 0 ? &x->f : nullptr;
        borrowed = rc == 0 ? x : nullptr;
        break;
      }
      case 2: {
        if (!cur) break;
        Recorder rec;
        GeoArrowError e;
        int rc = t("hpp.visit", [&] { return r->Visit(&rec.v, 0, (int64_t)cur->size(), &e); });
        MustNot(rc, t, "hpp visit");
        if (rc == 0) ExpectFeatures(NormalAll(*cur), NormalAll(rec.out), "read", "hpp reader");
        break;
      }
      case 3:
        if (!in.empty()) {
          size_t i = D((uint32_t)in.size());
          if (in[i].get() == borrowed) {
            cur = nullptr;
            borrowed = nullptr;
          }
          in.erase(in.begin() + (long)i);
        }
        break;
      default:
        Drop();
    }
  }
};

// ---- kernels
struct KernelObj : Obj {
  GeoArrowKernel k;
  std::unique_ptr<kern::Case> cp;
  int phase = 0;  // 0 none, 1 init, 2 started, 3 finished or failed
  size_t batch = 0;
  const char* Name() const override { return "kernel"; }
  KernelObj() { Init(); }
  ~KernelObj() override {
    bool first = D(2);
    if (first) DropInputs();
    Drop();
    if (!first) DropInputs();
  }
  void Drop() {
    if (phase) {
      k.release(&k);
      SIM_CHECK(k.release == nullptr, "not-marked", "a released kernel is not marked");
    }
    phase = 0;
  }
  void Init() {
    cp.reset(new kern::Case());
    kern::Case& c = *cp;
    int64_t live = g_arrays_live;
    c.DrawSource(5, 3);
    g_inputs += g_arrays_live - live;
    c.DrawKind((kern::Kind)D(8));
    int rc = t("kernel.init", [&] { return GeoArrowKernelInit(&k, c.name(), nullptr); });
    MustNot(rc, t, "kernel init");
    phase = rc == 0;
    batch = 0;
    if (!phase) DropInputs();
  }
  void DropInputs() {
    kern::Case& c = *cp;
    int64_t live = g_arrays_live;
    c.src.arrays.clear();
    g_inputs -= live - g_arrays_live;
  }
  void Step() override {
    GeoArrowError e;
    kern::Case& c = *cp;
    if (!phase) {
      DropInputs();
      return Init();
    }
    if (B(9)) {
      Drop();
      DropInputs();
      return;
    }
    if (phase == 1) {
      OutS o;
      ArrowSchema before = c.in.s;
      int rc = t("kernel.start", [&] { return k.start(&k, &c.in.s, c.Opts(), &o.s, &e); });
      MustNot(rc, t, "kernel start");
      SIM_CHECK(memcmp(&before, &c.in.s, sizeof before) == 0, "argument-changed", "start changed the caller's schema");
      if (rc) {
        o.Failed("kernel start");
        phase = 3;
        return;
      }
      w->KeepSchema(&o.s, std::string(c.name()) + " start");
      if (D(2)) {  // the schema was only lent for the call
        c.in.s.release(&c.in.s);
        c.in.s.release = nullptr;
      }
      phase = 2;
      return;
    }
    if (phase == 2 && batch < c.src.arrays.size()) {
      Out o;
      ArrowArray& a = c.src.arrays[batch]->a;
      ArrowArray before = a;
      int rc = t("kernel.push", [&] { return k.push_batch(&k, &a, kern::IsAgg(c.kind) ? nullptr : &o.a, &e); });
      SIM_CHECK(memcmp(&before, &a, sizeof a) == 0, "argument-changed", "push changed the caller's array");
      if (rc) sim::Note("%s (%s): %s", c.name(), TypeText(c.src.type).c_str(), e.message);
      MustNot(rc, t, "kernel push");
      if (rc) {
        o.Failed("kernel push");
        phase = 3;
        return;
      }
      if (!kern::IsAgg(c.kind)) {
        w->Keep(&o.a, std::string(c.name()) + " push",
                c.kind == kern::AS       ? c.out
                : c.kind == kern::FORMAT && c.max < 0 ? GEOARROW_TYPE_WKT
                                         : GEOARROW_TYPE_UNINITIALIZED);
      } else {
        SIM_CHECK(o.a.release == nullptr, "output", "an aggregate delivered an array for a batch");
      }
      if (D(2)) {
        c.src.arrays[batch].reset(new Arr());
        g_inputs--;
      }
      batch++;
      Count("hand.batch");
      return;
    }
    if (phase == 2) {
      Out o;
      int rc = t("kernel.finish", [&] { return k.finish(&k, kern::IsAgg(c.kind) ? &o.a : nullptr, &e); });
      MustNot(rc, t, "kernel finish");
      if (rc)
        o.Failed("kernel finish");
      else if (kern::IsAgg(c.kind))
        w->Keep(&o.a, std::string(c.name()) + " finish", GEOARROW_TYPE_UNINITIALIZED);
      phase = 3;
      return;
    }
    Drop();
    DropInputs();
  }
};

// ---- scalar functions
struct UdfObj : Obj {
  GeoArrowScalarUdfFactory fac;
  std::vector<GeoArrowScalarUdf> impl;
  bool live = false;
  const char* Name() const override { return "scalar udf"; }
  ~UdfObj() override {
    bool first = D(2);
    if (first) DropFactory();
    for (auto& u : impl) Drop(u);
    if (!first) DropFactory();
  }
  void DropFactory() {
    if (!live) return;
    fac.release(&fac);
    SIM_CHECK(fac.release == nullptr, "not-marked", "a released factory is not marked");
    live = false;
  }
  static void Drop(GeoArrowScalarUdf& u) {
    if (!u.release) return;
    u.release(&u);
    SIM_CHECK(u.release == nullptr, "not-marked", "a released function is not marked");
  }
  void Step() override {
    GeoArrowError e;
    if (!live) {
      int rc = t("udf.factory", [&] { return GeoArrowScalarUdfFactoryInit(&fac, "void", nullptr, &e); });
      MustNot(rc, t, "udf factory");
      live = rc == 0;
      return;
    }
    switch (W({2, 5, 1, 1})) {
      case 0:
        impl.emplace_back();
        fac.new_scalar_udf_impl(&fac, &impl.back());
        break;
      case 1: {
        if (impl.empty()) break;
        GeoArrowScalarUdf& u = impl[D((uint32_t)impl.size())];
        if (!u.release) break;
        enum GeoArrowType ty = AnyType();
        Schema s;
        SIM_CHECK(GeoArrowSchemaInitExtension(&s.s, ty) == 0, "init", "schema");
        auto x = NewInput(ty);
        const ArrowSchema* types[1] = {&s.s};
        ArrowArray* args[1] = {&x->a};
        ArrowArray* scalars[1] = {D(2) ? &x->a : nullptr};
        OutS os;
        int rc = t("udf.init", [&] { return u.init(&u, types, scalars, 1, &os.s); });
        MustNot(rc, t, "udf init");
        if (rc) {
          os.Failed("udf init");
          break;
        }
        w->KeepSchema(&os.s, "udf init");
        Out o;
        ArrowArray before = x->a;
        int64_t n = (int64_t)x->f.size();
        rc = t("udf.execute", [&] { return u.execute(&u, args, 1, n, &o.a); });
        MustNot(rc, t, "udf execute");
        SIM_CHECK(memcmp(&before, &x->a, sizeof before) == 0 && s.s.release, "argument-changed", "execute changed its arguments");
        if (rc) {
          o.Failed("udf execute");
          break;
        }
        SIM_CHECK(o.a.length == n && o.a.null_count == n, "udf", "%lld rows, %lld nulls", (long long)o.a.length, (long long)o.a.null_count);
        w->Keep(&o.a, "udf execute", GEOARROW_TYPE_UNINITIALIZED);
        break;
      }
      case 2:
        if (!impl.empty()) Drop(impl[D((uint32_t)impl.size())]);
        break;
      default:
        DropFactory();
    }
  }
};

// ---- schemas and types
struct SchemaObj : Obj {
  std::vector<geoarrow::GeometryDataType> types;
  const char* Name() const override { return "schemas"; }
  void Step() override {
    GeoArrowError e;
    enum GeoArrowType ty = AnyType();
    switch (W({2, 2, 2, 2, 2, 1})) {
      case 0: {
        OutS o;
        bool ext = D(2);
        int rc = t("schema.init", [&] { return ext ? GeoArrowSchemaInitExtension(&o.s, ty) : GeoArrowSchemaInit(&o.s, ty); });
        MustNot(rc, t, "schema init");
        if (rc)
          o.Failed("schema init");
        else
          w->KeepSchema(&o.s, "schema init");
        break;
      }
      case 1: {  // metadata taken from another schema
        Schema src;
        SIM_CHECK(GeoArrowSchemaInitExtension(&src.s, ty) == 0, "init", "schema");
        OutS o;
        SIM_CHECK(GeoArrowSchemaInitExtension(&o.s, ty) == 0, "init", "schema");
        GeoArrowMetadataView v;
        memset(&v, 0, sizeof v);
        char crs[] = "EPSG:4326";
        v.edge_type = GEOARROW_EDGE_TYPE_SPHERICAL;
        v.crs_type = GEOARROW_CRS_TYPE_UNKNOWN;
        v.crs.data = crs;
        v.crs.size_bytes = 9;
        int rc = t("schema.set_metadata", [&] { return GeoArrowSchemaSetMetadata(&src.s, &v); });
        memset(crs, 'x', 9);  // it was only lent for the call
        MustNot(rc, t, "set metadata");
        if (rc == 0) {
          rc = t("schema.set_metadata_from", [&] { return GeoArrowSchemaSetMetadataFrom(&o.s, &src.s); });
          MustNot(rc, t, "set metadata from");
        }
        SIM_CHECK(o.s.release && src.s.release, "argument-released", "setting metadata released a schema");
        w->KeepSchema(&o.s, "set metadata from");
        break;
      }
      case 2: {  // a tree exported by someone else
        std::string ext;
        Tree tr = Layout(ty, &ext);
        tr.md.push_back({"ARROW:extension:name", ext});
        if (D(2)) tr.md.push_back({"ARROW:extension:metadata", "{\"crs\":\"EPSG:4326\"}"});
        Schema s;
        ToSchema(tr, &s.s);
        int64_t live = g_live;
        int which = (int)D(2);
        int rc = t("hpp.type_make", [&] {
          try {
            types.push_back(which ? geoarrow::GeometryDataType::Make(&s.s) : geoarrow::GeometryDataType::Make(ty, "{}"));
            return 0;
          } catch (std::exception& ex) {
          sim::Note("%s", ex.what());
            return 1;
          }
        });
        MustNot(rc, t, "type make");
        SIM_CHECK(s.s.release && g_live == live, "argument-released", "reading a schema released it");
        break;
      }
      case 3: {  // and exported again after its source is gone
        if (types.empty()) break;
        size_t i = D((uint32_t)types.size());
        OutS o;
        bool storage = D(2);
        int rc = t("hpp.type_export", [&] {
          try {
            if (storage)
              types[i].InitStorageSchema(&o.s);
            else
              types[i].InitSchema(&o.s);
            return 0;
          } catch (std::exception& ex) {
          sim::Note("%s", ex.what());
            return 1;
          }
        });
        MustNot(rc, t, "type export");
        if (rc)
          o.Failed("type export");
        else
          w->KeepSchema(&o.s, "type export");
        break;
      }
      case 4: {  // copies, moves and assignments of types
        if (types.empty()) break;
        size_t i = D((uint32_t)types.size()), j = D((uint32_t)types.size());
        std::string want = types[i].ToString();
        switch (D(4)) {
          case 0: {
            geoarrow::GeometryDataType c(types[i]);
            types.push_back(c);
            break;
          }
          case 1: {
            geoarrow::GeometryDataType c(std::move(types[i]));
            SIM_CHECK(c.ToString() == want, "move", "a moved type is %s", c.ToString().c_str());
            types[i] = std::move(c);
            break;
          }
          case 2:
            types[j] = types[i];
            SIM_CHECK(types[j].ToString() == want, "copy", "an assigned type is %s", types[j].ToString().c_str());
            break;
          default:
            types.erase(types.begin() + (long)i);
            return;
        }
        SIM_CHECK(types[i].ToString() == want, "copy", "%s became %s", want.c_str(), types[i].ToString().c_str());
        break;
      }
      default:
        types.clear();
    }
    (void)e;
  }
};

// ---- geometries
struct GeometryObj : Obj {
  struct G {
    GeoArrowGeometry g;
    bool live = false, own = true;
    Geom want;
  };
  std::vector<std::unique_ptr<G>> gs;
  const char* Name() const override { return "geometries"; }
  ~GeometryObj() override {
    while (!gs.empty()) Drop(D((uint32_t)gs.size()));
  }
  void Drop(size_t i) {
    if (gs[i]->live) GeoArrowGeometryReset(&gs[i]->g);
    gs.erase(gs.begin() + (long)i);
  }
  void Check(G& x) {
    Geom got;
    SIM_CHECK(ReadView(GeoArrowGeometryAsView(&x.g), &got), "geometry", "not readable");
    Feature a, b;
    a.null = b.null = false;
    a.g = x.want;
    b.g = got;
    ExpectFeature(a, b, "geometry-changed", "geometry", 0);
  }
  void Step() override {
    switch (W({3, 4, 4, 2})) {
      case 0: {
        gs.emplace_back(new G());
        G* x = gs.back().get();
        int rc = t("geometry.init", [&] { return GeoArrowGeometryInit(&x->g); });
        MustNot(rc, t, "geometry init");
        x->live = rc == 0;
        if (rc) {
          gs.pop_back();
          break;
        }
        ViewBuilder vb;
        x->want = GenGeom(Opts());
        vb.Build(x->want, true);
        rc = t("geometry.deep", [&] { return GeoArrowGeometryDeepCopy(vb.view, &x->g); });
        MustNot(rc, t, "deep copy");
        if (rc) Drop(gs.size() - 1);
        break;
      }
      case 1: {  // a copy that must not depend on its source
        if (gs.empty()) break;
        size_t i = D((uint32_t)gs.size());
        size_t j = D((uint32_t)gs.size());
        if (i == j) break;
        int rc = t("geometry.copy", [&] { return GeoArrowGeometryDeepCopy(GeoArrowGeometryAsView(&gs[i]->g), &gs[j]->g); });
        MustNot(rc, t, "deep copy");
        if (rc)
          Drop(j);
        else
          gs[j]->want = gs[i]->want;
        break;
      }
      case 2:
        if (!gs.empty()) Check(*gs[D((uint32_t)gs.size())]);
        break;
      default:
        if (!gs.empty()) Drop(D((uint32_t)gs.size()));
    }
  }
};

static std::unique_ptr<Obj> NewObj() {
  switch (D(9)) {
    case 0:
    case 1:
      return std::unique_ptr<Obj>(new BuilderObj());
    case 2:
      return std::unique_ptr<Obj>(new HppBuilderObj());
    case 3:
      return std::unique_ptr<Obj>(new WriterObj());
    case 4:
      return std::unique_ptr<Obj>(new ReaderObj());
    case 5:
      return std::unique_ptr<Obj>(new HppReaderObj());
    case 6:
      return std::unique_ptr<Obj>(new KernelObj());
    case 7:
      return std::unique_ptr<Obj>(D(3) ? (Obj*)new SchemaObj() : (Obj*)new UdfObj());
    default:
      return std::unique_ptr<Obj>(new GeometryObj());
  }
}
static void HeldStep() {
  if (w->held.empty()) return;
  size_t i = D((uint32_t)w->held.size());
  Held& h = *w->held[i];
  switch (W({4, 3, 2, 2})) {
    case 0:
      Verify(h);
      break;
    case 1:
      Verify(h);
      ReleaseHeld(h);
      w->held.erase(w->held.begin() + (long)i);
      break;
    case 2: {  // to another address
      if (h.schema) {
        ArrowSchema* n = new ArrowSchema;
        ArrowSchemaMove(h.s, n);
        SIM_CHECK(h.s->release == nullptr, "move", "the source of a move is not marked released");
        delete h.s;
        h.s = n;
      } else {
        ArrowArray* n = new ArrowArray;
        ArrowArrayMove(h.a, n);
        SIM_CHECK(h.a->release == nullptr, "move", "the source of a move is not marked released");
        delete h.a;
        h.a = n;
      }
      Verify(h);
      Count("op.move");
      break;
    }
    default: {  // a child taken out of its parent outlives it
      int64_t n = h.schema ? h.s->n_children : h.a->n_children;
      if (!n) break;
      int64_t k = (int64_t)D((uint32_t)n);
      Verify(h);
      std::string what = h.what + ", a child";
      if (h.schema) {
        ArrowSchema c = *h.s->children[k];
        h.s->children[k]->release = nullptr;
        ReleaseHeld(h);
        w->held.erase(w->held.begin() + (long)i);
        w->KeepSchema(&c, what);
      } else {
        ArrowArray c = *h.a->children[k];
        h.a->children[k]->release = nullptr;
        std::string before, after;
        SnapArray(&c, &before);
        ReleaseHeld(h);
        w->held.erase(w->held.begin() + (long)i);
        SnapArray(&c, &after);
        SIM_CHECK(before == after, "export-changed", "%s changed when its parent was released", what.c_str());
        w->Keep(&c, what, GEOARROW_TYPE_UNINITIALIZED);
      }
      Count("op.take_child");
    }
  }
}
static void Audit(const char* what) {
  SIM_CHECK(g_arrays_live == g_inputs, "array-count", "after %s: %lld of the caller's arrays live instead of %lld", what, (long long)g_arrays_live,
            (long long)g_inputs);
}

static void Run() {
  std::list<Own> owned;
  g_owned = &owned;
  g_payloads = 0;
  g_inputs = g_arrays_live;
  int64_t base = g_arrays_live;
  World world;
  w = &world;
  uint32_t steps = 4 + D(sim::Tier() ? 60 : 30);
  uint32_t maxobj = 1 + D(4);
  for (uint32_t i = 0; i < steps; i++) {
    uint32_t k = W({6, 3, 1});
    const char* what = "a check";
    if (world.objs.empty() || (k == 2 && world.objs.size() < maxobj && D(2))) {
      world.objs.push_back(NewObj());
      what = world.objs.back()->Name();
      sim::Note("new %s", what);
    } else if (k == 0) {
      Obj& o = *world.objs[D((uint32_t)world.objs.size())];
      what = o.Name();
      sim::Note("step %s", what);
      o.Step();
    } else if (k == 2) {
      size_t j = D((uint32_t)world.objs.size());
      what = world.objs[j]->Name();
      Log("drop %s", what);
      world.objs.erase(world.objs.begin() + (long)j);
    } else {
      HeldStep();
    }
    // lent arrays may only be released by their owner; objects drop theirs in `in`
    Audit(what);
  }
  {
    uint64_t h = sim::Mix(world.objs.size(), world.held.size());
    for (auto& o : world.objs) h = sim::Mix(h, sim::HashBytes(o->Name(), strlen(o->Name())));
    for (auto& x : world.held) h = sim::Mix(h, (uint64_t)x->type + x->schema);
    sim::State(h);
    if (world.objs.size() + world.held.size() > 1) sim::NonTrivial();
  }
  // the end, in any order
  while (!world.objs.empty() || !world.held.empty()) {
    size_t n = world.objs.size(), j = D((uint32_t)(n + world.held.size()));
    if (j < n) {
      world.objs.erase(world.objs.begin() + (long)j);
    } else {
      j -= n;
      Verify(*world.held[j]);
      ReleaseHeld(*world.held[j]);
      world.held.erase(world.held.begin() + (long)j);
    }
  }
  g_inputs = base;
  Audit("everything was dropped");
  SIM_CHECK(g_live == 0, "schema-count", "%lld of the caller's schemas are still live", (long long)g_live);
  SIM_CHECK(g_payloads == 0, "payload", "%lld wrapped containers are still live", (long long)g_payloads);
  for (auto& o : owned) {
    if (o.mine) {
      SIM_CHECK(o.freed == 0, "deallocator-early", "a refused buffer was released");
    } else {
      SIM_CHECK(o.freed == 1, "deallocator-never", "a buffer of %lld bytes was released %d times", (long long)o.size, o.freed);
    }
  }
  sim::CheckNoLeaks("leak");
}
SIM_PROPERTY("P12", Run, 300000, 6000000, "several objects or exports were alive when the final releases, in a drawn order, began")

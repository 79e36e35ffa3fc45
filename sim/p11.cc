// P11: objects used by one thread each do not notice the other threads.
#include <cstdlib>
#include "kern.h"
extern "C" void* sim_malloc(size_t);
extern "C" void sim_free(void*);
#define malloc sim_malloc
#define free sim_free
#include "geoarrow/geoarrow.hpp"
#undef malloc
#undef free
using namespace kern;
namespace wu = geoarrow::wkb_util;

// What one thread does: a list of steps over objects of its own, all of it drawn before
// anything runs. A step appends what it observed to the transcript.
struct Transcript {
  std::vector<std::string> lines;
  const Transcript* solo = nullptr;  // compared line by line while the threads run
  int id = 0;
  bool faulty = false;  // checks that need the library themselves are left out
  void Add(const std::string& s) {
    size_t i = lines.size();
    lines.push_back(s);
    if (!solo) return;
    SIM_CHECK(i < solo->lines.size() && solo->lines[i] == s, "differs", "thread %d, observation %zu: \"%.300s\" instead of \"%.300s\"", id, i, s.c_str(),
              i < solo->lines.size() ? solo->lines[i].c_str() : "(nothing)");
    Count("check.observation");
  }
  void Code(const char* what, int rc, const char* msg = "") { Add(std::string(what) + " -> " + std::to_string(rc) + (rc ? std::string(" ") + msg : "")); }
};
typedef std::function<void(Transcript*)> Step;

static std::string Rows(enum GeoArrowType t, const ArrowArray* a) {
  std::string s;
  if (IsWkt(t)) {
    for (auto& x : DecodeBinary(a, "thread")) s += x ? *x + "|" : "null|";
    return s;
  }
  for (auto& f : DecodeArray(t, a, "thread")) s += Key(f) + "|";
  return s;
}
static std::string Events(const Recorder& r) {
  std::string s;
  for (auto& f : r.out) s += Key(f) + "|";
  return s;
}

// Reading arrays of any kind, sometimes damaged, into a writer of any kind.
static Step Convert() {
  auto src = std::make_shared<Source>();
  GenOpts o = SwarmOpts();
  int gt = (int)D(8);
  if (gt == 7) gt = 0;
  int dims = D4();
  if (gt) o.only_type = gt, o.only_dims = dims;
  enum GeoArrowType from = gt && D(2) ? NativeType(gt, dims, DrawCoordType()) : SerializedType(D(6));
  enum GeoArrowType to = gt && D(2) ? NativeType(gt <= 3 && D(2) ? gt + 3 : gt, D4(), DrawCoordType()) : D(3) ? GEOARROW_TYPE_WKT : GEOARROW_TYPE_WKB;
  bool box = B(5);
  if (box) {
    MakeBoxes(*src, 1 + Small(8), 2);
    from = src->type;
    if (gt && to < 100000 && D(2)) to = NativeType(D(2) ? 3 : 6, D4(), DrawCoordType());
  } else {
    MakeArrays(*src, from, GenFeatures(o, 1 + Small(8)), 2);
  }
  if (IsSerialized(from) && D(3) == 0 && !src->enc[0].empty()) {
    size_t i = D((uint32_t)src->enc[0].size());
    static const char* const junk[] = {"POINT (1", "LINESTRING (1 2, 3 4", "nonsense", "POINT (1 2) junk", "POINT (a b)", "", "\x01\x01", "\x07 x", "\x01\xff\xff\xff\xff\x01\x01\x01\x01"};
    src->enc[0][i] = std::string(junk[D(9)]);
    int kind = from == GEOARROW_TYPE_WKB || from == GEOARROW_TYPE_WKT ? BK_I32 : from == GEOARROW_TYPE_LARGE_WKB || from == GEOARROW_TYPE_LARGE_WKT ? BK_I64 : BK_VIEW;
    src->arrays[0].reset(new Arr(MakeBinary(src->enc[0], kind, GenArrOpts())));
  }
  int rapi = box ? (D(2) ? 0 : 2) : (int)D(3), wapi = (int)D(3), precision = (int)D(18), flat = (int)D(2);
  Log("  convert %s to %s", TypeText(from).c_str(), TypeText(to).c_str());
  return [=](Transcript* t) {
    Reader r;
    Writer w;
    int rc = r.Init(from, rapi);
    t->Code("reader", rc, r.err.message);
    if (rc) return;
    rc = w.Init(to, wapi);
    t->Code("writer", rc);
    if (rc) return;
    if (to == GEOARROW_TYPE_WKT && wapi == 2) w.SetText(precision, flat, -1);
    rc = w.InitVisitor();
    t->Code("visitor", rc);
    if (rc) return;
    for (size_t k = 0; k < src->arrays.size(); k++) {
      rc = r.SetArray(&src->arrays[k]->a, src->enc[k]);
      t->Code("set", rc, r.err.message);
      if (rc) return;
      rc = r.Visit(0, src->arrays[k]->a.length, &w.v);
      t->Code("visit", rc, w.err.message);
      if (rc) return;
      Arr out;
      rc = w.Finish(&out.a);
      t->Code("finish", rc, w.err.message);
      if (rc) return;
      t->Add(Rows(to, &out.a));
    }
  };
}
static Step Kernel() {
  auto c = std::make_shared<Case>();
  c->DrawSource(8, 3);
  c->DrawKind((Kind)D(N_KINDS));
  uint32_t bad = B(6) ? 1 + D(2) : 0;  // unusable names or options: the messages count too
  Log("  kernel %s", c->name());
  return [=](Transcript* t) {
    GeoArrowKernel k;
    GeoArrowError err;
    err.message[0] = 0;
    int rc = GeoArrowKernelInit(&k, bad == 1 ? "no_such_kernel" : c->name(), nullptr);
    t->Code("kernel", rc);
    if (rc) return;
    Schema out;
    Schema other;
    int rc2 = GeoArrowSchemaInit(&other.s, GEOARROW_TYPE_WKB);
    t->Code("schema", rc2);
    rc = rc2 ? rc2 : k.start(&k, bad == 2 ? &other.s : &c->in.s, c->Opts(), &out.s, &err);
    t->Code("start", rc, err.message);
    if (!rc && bad != 2) {
      for (size_t i = 0; i < c->src.arrays.size() && !rc; i++) {
        Arr a;
        rc = k.push_batch(&k, &c->src.arrays[i]->a, IsAgg(c->kind) ? nullptr : &a.a, &err);
        t->Code("push", rc, err.message);
        if (!rc && c->kind == AS) t->Add(Rows(c->out, &a.a));
        if (!rc && !IsAgg(c->kind) && !t->faulty) c->CheckRows(c->src.parts[i], &a.a, "thread");
        if (!rc && c->kind == FORMAT) t->Add(Rows(GEOARROW_TYPE_WKT, &a.a));
      }
      if (!rc) {
        Arr a;
        rc = k.finish(&k, IsAgg(c->kind) ? &a.a : nullptr, &err);
        t->Code("finish", rc, err.message);
        if (!rc && IsAgg(c->kind) && !t->faulty) c->CheckAgg(c->src.All(), &a.a, "thread");
      }
    }
    k.release(&k);
  };
}
// Geometry objects: read, copied, visited, and turned into text.
static Step Geometry() {
  Geom g = GenGeom(SwarmOpts());
  std::string wkb = Wkb(g, GenWkbStyle());
  uint32_t cut = B(5) ? D((uint32_t)wkb.size() + 1) : (uint32_t)wkb.size();
  wkb.resize(cut);
  bool hpp = D(2);
  Log("  geometry %u bytes", cut);
  return [=](Transcript* t) {
    GeoArrowWKBReader r;
    GeoArrowError err;
    err.message[0] = 0;
    int rc = GeoArrowWKBReaderInit(&r);
    t->Code("reader", rc);
    if (rc) return;
    GeoArrowBufferView b;
    b.data = (const uint8_t*)wkb.data();
    b.size_bytes = (int64_t)wkb.size();
    GeoArrowGeometryView v;
    rc = GeoArrowWKBReaderRead(&r, b, &v, &err);
    t->Code("read", rc, err.message);
    if (!rc) {
      Geom got;
      t->Add(ReadView(v, &got) ? Key(got) : "broken");
      GeoArrowGeometry copy;
      rc = GeoArrowGeometryInit(&copy);
      t->Code("init", rc);
      if (!rc) {
        rc = GeoArrowGeometryDeepCopy(v, &copy);
        t->Code("copy", rc);
        if (!rc) {
          Recorder rec;
          rc = GeoArrowGeometryVisit(&copy, &rec.v);
          t->Code("visit", rc);
          t->Add(Events(rec));
          t->Add(std::to_string(GeoArrowGeometryViewNumCoords(GeoArrowGeometryAsView(&copy))));
        }
        GeoArrowGeometryReset(&copy);
      }
    }
    GeoArrowWKBReaderReset(&r);
    if (hpp) {
      wu::WKBParser parser;
      wu::WKBGeometry hg;
      auto s = parser.Parse(b, &hg);
      t->Add("parser " + std::to_string((int)s) + " " + parser.ErrorToString(s));
      if (s == wu::WKBParser::OK) {
        std::string x;
        hg.VisitVertices<geoarrow::array_util::XYZM<double>>([&](geoarrow::array_util::XYZM<double> p) {
          for (double d : p) x.append((char*)&d, 8);
        });
        t->Add(sim::Hex(x.data(), x.size(), 4096));
      }
    }
  };
}
// Types, schemas and metadata.
static Step Describe() {
  static const char* const metas[] = {"{}", "", "{\"crs\":\"EPSG:4326\"}", "{\"crs\":{\"a\":[1,2,{\"b\":null}]},\"edges\":\"spherical\"}", "{\"crs\":\"a\\\"b\\u00e9\"}", "{\"edges\":\"vincenty\",\"crs_type\":\"srid\",\"crs\":\"1\"}",
                                      "{\"edges\":\"round\"}", "[1]", "{\"crs\":", "{\"crs_type\":\"x\"}"};
  std::string meta = metas[D(10)];
  enum GeoArrowType ty = D(2) ? NativeType(1 + (int)D(6), D4(), DrawCoordType()) : SerializedType(D(6));
  bool spoil = B(4);
  Log("  describe %s %s", TypeText(ty).c_str(), meta.c_str());
  return [=](Transcript* t) {
    Schema s;
    GeoArrowError err;
    err.message[0] = 0;
    int rc = GeoArrowSchemaInitExtension(&s.s, ty);
    t->Code("schema", rc);
    if (rc) return;
    if (spoil) {
      std::string kv = KeyValues({{"ARROW:extension:name", "geoarrow.point"}, {"ARROW:extension:metadata", meta}});
      rc = ArrowSchemaSetMetadata(&s.s, kv.data());
      t->Code("set", rc);
      if (rc) return;
    }
    GeoArrowSchemaView v;
    rc = GeoArrowSchemaViewInit(&v, &s.s, &err);
    t->Code("view", rc, err.message);
    if (!rc) t->Add(std::to_string((int)v.type) + " " + std::string(v.extension_name.data, (size_t)v.extension_name.size_bytes));
    GeoArrowStringView sv;
    sv.data = meta.data();
    sv.size_bytes = (int64_t)meta.size();
    GeoArrowMetadataView mv;
    err.message[0] = 0;
    rc = GeoArrowMetadataViewInit(&mv, sv, &err);
    t->Code("metadata", rc, err.message);
    if (rc) return;
    char out[256];
    int64_t n = GeoArrowMetadataSerialize(&mv, out, sizeof out);
    t->Add(std::string(out, (size_t)n));
    n = GeoArrowUnescapeCrs(mv.crs, out, sizeof out);
    t->Add(std::string(out, (size_t)n));
    rc = GeoArrowSchemaSetMetadata(&s.s, &mv);
    t->Code("set", rc);
    if (!rc) t->Add(ExtMetadata(&s.s));
    try {
      auto d = geoarrow::GeometryDataType::Make(ty, meta);
      t->Add(d.ToString() + " " + d.extension_metadata() + " " + d.crs());
    } catch (geoarrow::Exception& e) {
      t->Add(std::string("exception ") + e.what());
    }
  };
}
// Numbers as text and back.
static Step Numbers() {
  std::vector<double> v;
  for (uint32_t i = 0; i < 1 + Small(12); i++) v.push_back(GenCoord(2 + (int)D(2)));
  std::vector<std::string> text;
  for (double d : v) text.push_back(NumText(d, (int)D(6)));
  uint32_t precision = D(17);
  Log("  %zu numbers", v.size());
  return [=](Transcript* t) {
    for (double d : v) {
      char buf[400];
      int64_t n = GeoArrowPrintDouble(d, precision, buf);
      t->Add(std::string(buf, (size_t)n));
    }
    for (auto& s : text) {
      double d = 0;
      int rc = GeoArrowFromChars(s.data(), s.data() + s.size(), &d);
      char bits[32];
      snprintf(bits, sizeof bits, "%a", d);
      t->Add(std::to_string(rc) + " " + (rc ? "" : bits));
    }
  };
}
// Implementations of a scalar function asked of a factory all threads share.
static Step Scalar(struct GeoArrowScalarUdfFactory* shared) {
  int64_t rows = (int64_t)Small(50);
  uint32_t times = 1 + D(3);
  bool bad = B(4);
  Log("  scalar function, %lld rows", (long long)rows);
  return [=](Transcript* t) {
    if (bad) {
      struct GeoArrowScalarUdfFactory f;
      GeoArrowError err;
      err.message[0] = 0;
      std::string name = "none" + std::to_string(rows);
      int rc = GeoArrowScalarUdfFactoryInit(&f, name.c_str(), "", &err);
      t->Code("factory", rc, err.message);
      if (!rc) f.release(&f);
    }
    for (uint32_t i = 0; i < times; i++) {
      struct GeoArrowScalarUdf u;
      shared->new_scalar_udf_impl(shared, &u);
      Schema s;
      int rc = u.init(&u, nullptr, nullptr, 0, &s.s);
      t->Code("init", rc);
      if (!rc) {
        t->Add(s.s.format);
        Arr a;
        rc = u.execute(&u, nullptr, 0, rows, &a.a);
        t->Code("execute", rc);
        if (!rc) t->Add(std::to_string(a.a.length) + " " + std::to_string(a.a.null_count));
      }
      t->Add(u.get_last_error(&u) ? u.get_last_error(&u) : "no error");
      u.release(&u);
    }
  };
}
// A builder filled by hand.
static Step Build() {
  int gt = 1 + (int)D(6), dims = D4();
  enum GeoArrowType ty = NativeType(gt, dims, DrawCoordType());
  GenOpts o = SwarmOpts();
  o.only_type = gt;
  o.only_dims = dims;
  Features f = GenFeatures(o, Small(8));
  NativeBufs nb = EncodeNative(gt, dims, f, true);
  int nd = Nd(dims);
  auto ch = std::make_shared<CoordChunk>();
  auto coords = std::make_shared<std::vector<double>>(nb.coords);
  ch->Set(coords->data(), coords->size() / (size_t)nd, nd, (int)D(3));
  Log("  build %s, %zu rows", TypeText(ty).c_str(), f.size());
  return [=](Transcript* t) {
    (void)coords;
    GeoArrowBuilder b;
    int rc = GeoArrowBuilderInitFromType(&b, ty);
    t->Code("builder", rc);
    if (rc) return;
    if (!nb.validity.empty()) rc = GeoArrowBuilderAppendBuffer(&b, 0, {(const uint8_t*)nb.validity.data(), (int64_t)nb.validity.size()});
    for (size_t k = 0; k < nb.offs.size() && !rc; k++) rc = GeoArrowBuilderOffsetAppend(&b, (int32_t)k, nb.offs[k].data(), (int64_t)nb.offs[k].size());
    for (int64_t i = 0; i < ch->view.n_coords && !rc; i++) rc = GeoArrowBuilderCoordsAppend(&b, &ch->view, (enum GeoArrowDimensions)dims, i, 1);
    t->Code("append", rc);
    GeoArrowError err;
    err.message[0] = 0;
    if (!rc) {
      Arr a;
      rc = GeoArrowBuilderFinish(&b, &a.a, &err);
      t->Code("finish", rc, err.message);
      if (!rc) t->Add(Rows(ty, &a.a));
    }
    GeoArrowBuilderReset(&b);
  };
}

static void Play(const std::vector<Step>& steps, const sim::FaultPlan* fault, Transcript* t) {
  t->faulty = fault != nullptr;
  if (fault) sim::ArmAlloc(*fault);
  for (auto& s : steps) s(t);
  if (fault) t->Add("faults " + std::to_string(sim::DisarmAlloc()));
}
static void Run() {
  struct GeoArrowScalarUdfFactory shared;
  SIM_CHECK(GeoArrowScalarUdfFactoryInit(&shared, "void", "", nullptr) == 0, "init", "factory");
  uint32_t n = 2 + D(3);
  struct Thread {
    std::vector<Step> steps;
    bool faulty = false;
    sim::FaultPlan plan;
    Transcript solo, seen;
  };
  {
    std::vector<Thread> th(n);
    for (uint32_t i = 0; i < n; i++) {
      Log("thread %u", i);
      bool twin = i && B(4);  // the same kind of work in every thread shares the most code
      if (twin) {
        th[i].steps = th[i - 1].steps;
      } else {
        uint32_t same = D(3) ? 8 : D(7);
        for (uint32_t k = 1 + D(4); k > 0; k--) {
          switch (same < 7 ? same : W({5, 3, 3, 3, 2, 1, 2})) {
            case 0:
              th[i].steps.push_back(Convert());
              break;
            case 1:
              th[i].steps.push_back(Kernel());
              break;
            case 2:
              th[i].steps.push_back(Geometry());
              break;
            case 3:
              th[i].steps.push_back(Describe());
              break;
            case 4:
              th[i].steps.push_back(Numbers());
              break;
            case 5:
              th[i].steps.push_back(Scalar(&shared));
              break;
            default:
              th[i].steps.push_back(Build());
          }
        }
      }
      if (B(5)) {  // memory runs out in this thread only
        th[i].faulty = true;
        th[i].plan.first = 1 + D(40);
        th[i].plan.burst = 1 + D(4);
      }
    }
    for (uint32_t i = 0; i < n; i++) Play(th[i].steps, th[i].faulty ? &th[i].plan : nullptr, &th[i].solo);
    static const uint32_t quanta[] = {3, 16, 64, 400, 5000};
    uint32_t q = quanta[D(5)];
    std::vector<std::function<void()>> tasks;
    for (uint32_t i = 0; i < n; i++) {
      th[i].seen.solo = &th[i].solo;
      th[i].seen.id = (int)i;
      Thread* t = &th[i];
      tasks.push_back([t] { Play(t->steps, t->faulty ? &t->plan : nullptr, &t->seen); });
    }
    uint64_t before = sim::Switches();
    sim::RunTasks(tasks, q);
    uint64_t switches = sim::Switches() - before;
    Count("fault.preemption", switches);
    for (uint32_t i = 0; i < n; i++)
      SIM_CHECK(th[i].seen.lines.size() == th[i].solo.lines.size(), "differs", "thread %u made %zu observations instead of %zu", i, th[i].seen.lines.size(), th[i].solo.lines.size());
    if (switches > 4) sim::NonTrivial();
    sim::State(sim::Mix(n, sim::Mix(q, switches > 0 ? 64 - __builtin_clzll(switches) : 0)));
  }
  shared.release(&shared);
  sim::CheckNoLeaks("leak");
  SIM_CHECK(g_arrays_live == 0, "leak", "%lld arrays are still live", (long long)g_arrays_live);
}
SIM_PROPERTY("P11", Run, 25000, 4000000,
             "one run plays 2 to 4 drawn histories on threads whose interleaving at library edges is drawn, and compares every observation with the history played alone; "
             "non-trivial: more than 4 preemptions")

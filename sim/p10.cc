// P10: bounded text output is a prefix of the unlimited text and stops reading early.
#include "huge.h"
#include "kern.h"
using namespace kern;

static std::string Prefix(const std::string& s, int64_t max) {
  return max < 0 || (int64_t)s.size() <= max ? s : s.substr(0, (size_t)max);
}

// One writer with one limit and one reader, feature by feature.
static void ByFeature(Source& src, int64_t max, int precision, int flat) {
  Reader rd;
  SIM_CHECK(rd.Init(src.type, IsBox(src.type) ? 0 : (int)D(3)) == 0, "init", "reader");
  Writer w;
  SIM_CHECK(w.Init(GEOARROW_TYPE_WKT, 2) == 0, "init", "writer");
  w.SetText(precision, flat, max);
  SIM_CHECK(w.InitVisitor() == 0, "init", "visitor");
  Writer full;
  SIM_CHECK(full.Init(GEOARROW_TYPE_WKT, 2) == 0, "init", "writer");
  full.SetText(precision, flat, -1);
  SIM_CHECK(full.InitVisitor() == 0, "init", "visitor");
  Features rows;
  uint64_t cuts = 0;
  for (size_t a = 0; a < src.arrays.size(); a++) {
    SIM_CHECK(rd.SetArray(&src.arrays[a]->a, src.enc[a]) == 0, "set-array", "%s", rd.err.message);
    for (int64_t i = 0; i < (int64_t)src.parts[a].size(); i++) {
      SIM_CHECK(rd.Visit(i, 1, &full.v) == 0, "visit", "without limit: %s", full.err.message);
      int rc = rd.Visit(i, 1, &w.v);
      if (rc == EAGAIN) {
        SIM_CHECK(max >= 0, "eagain", "EAGAIN without a limit");
        cuts++;
        rc = w.v.feat_end(&w.v);
        SIM_CHECK(rc == 0, "feat-end", "feat_end after EAGAIN: %d", rc);
      }
      SIM_CHECK(rc == 0, "visit", "limit %lld, row %lld: %d %s", (long long)max, (long long)i, rc, w.err.message);
      rows.push_back(src.parts[a][i]);
    }
  }
  Arr cut, whole;
  SIM_CHECK(w.Finish(&cut.a) == 0 && full.Finish(&whole.a) == 0, "finish", "writers");
  CheckArrayShape(&cut.a, (int64_t)rows.size(), "bounded text");
  auto c = DecodeBinary(&cut.a, "bounded"), f = DecodeBinary(&whole.a, "unbounded");
  for (size_t i = 0; i < rows.size(); i++) {
    SIM_CHECK(c[i].has_value() == !rows[i].null && f[i].has_value() == !rows[i].null, "null", "row %zu", i);
    if (rows[i].null) continue;
    std::string want = Prefix(*f[i], max);
    SIM_CHECK(*c[i] == want, "not-a-prefix", "limit %lld %s row %zu: \"%.300s\" but the whole text is \"%.300s\"", (long long)max,
              TypeText(src.type).c_str(), i, c[i]->c_str(), f[i]->c_str());
    if (max >= 0) SIM_CHECK((int64_t)c[i]->size() <= max, "too-long", "row %zu has %zu bytes", i, c[i]->size());
  }
  Log("%s limit %lld precision %d flat %d: %zu rows, %llu stopped early", TypeText(src.type).c_str(), (long long)max, precision, flat,
      rows.size(), (unsigned long long)cuts);
  Count("check.stopped_early", cuts);
  if (cuts) sim::NonTrivial();
  sim::State(sim::Mix(sim::Mix(src.type, (uint64_t)max), sim::Mix(rows.size(), cuts)));
}

// Passes callbacks on and measures from the first one (a WKB reader may index the
// parts of a feature before it visits them).
namespace {
struct Meter {
  GeoArrowVisitor v;
  GeoArrowVisitor* to;
  uint64_t calls = 0, s0 = 0, base = 0, allowed;
  Meter(GeoArrowVisitor* w, uint64_t steps) : to(w), allowed(steps) {
    GeoArrowVisitorInitVoid(&v);
    v.private_data = this;
    v.error = w->error;
#define PASS(cb, params, ...)                                     \
  v.cb = +[] params {                                             \
    Meter* m = (Meter*)x->private_data;                           \
    m->calls++;                                                   \
    return m->to->cb(m->to __VA_ARGS__);                          \
  }
    v.feat_start = +[](GeoArrowVisitor* x) {
      Meter* m = (Meter*)x->private_data;
      m->s0 = sim::Steps();
      sim::ResetPeak();
      m->base = sim::GetAllocStats().live_bytes;
      sim::SetStepBudget(m->allowed, "reads-on");
      return m->to->feat_start(m->to);
    };
    PASS(null_feat, (GeoArrowVisitor * x));
    PASS(geom_start, (GeoArrowVisitor * x, enum GeoArrowGeometryType t, enum GeoArrowDimensions d), , t, d);
    PASS(ring_start, (GeoArrowVisitor * x));
    PASS(coords, (GeoArrowVisitor * x, const GeoArrowCoordView* c), , c);
    PASS(ring_end, (GeoArrowVisitor * x));
    PASS(geom_end, (GeoArrowVisitor * x));
    PASS(feat_end, (GeoArrowVisitor * x));
  }
};
}  // namespace

// The work and memory a bounded feature needs do not grow with the feature.
static void Bounded() {
  int shape = (int)D(8), dims = D4();
  uint32_t n = 2000 + D(sim::Tier() ? 60000 : 4000);
  int64_t max = (int64_t)Small(600);
  int precision = (int)D(17);
  static const int kTypes[] = {LS, MPT, PG, MLS, MLS, MPG, 0, PG};
  enum GeoArrowType t = kTypes[shape] && D(2) ? NativeType(kTypes[shape], dims, DrawCoordType()) : SerializedType(D(6));
  Feature x;
  x.null = false;
  x.g = Huge(shape, dims, n);
  Features f;
  uint32_t before = D(3);
  Feature small;
  small.null = false;
  small.g = Huge(shape, dims, 4);
  for (uint32_t i = 0; i < before; i++) f.push_back(small);
  f.push_back(x);
  Source src;
  MakeArrays(src, t, f, 1);
  Reader rd;
  int api = (int)D(3);
  if (api == 2 && IsSerialized(t)) api = 0;  // the item reader here copies
  SIM_CHECK(rd.Init(t, api) == 0, "init", "reader");
  SIM_CHECK(rd.SetArray(&src.arrays[0]->a, src.enc[0]) == 0, "set-array", "%s", rd.err.message);
  Writer w;
  SIM_CHECK(w.Init(GEOARROW_TYPE_WKT, 2) == 0, "init", "writer");
  w.SetText(precision, (int)D(2), max);
  SIM_CHECK(w.InitVisitor() == 0, "init", "visitor");
  for (uint32_t i = 0; i < before; i++) {
    int rc = rd.Visit(i, 1, &w.v);
    if (rc == EAGAIN) rc = w.v.feat_end(&w.v);
    SIM_CHECK(rc == 0, "visit", "%d", rc);
  }
  // A chunk of input (384 values or 64 coordinates of text) may be read ahead; a
  // part costs a bounded number of steps and yields at least one byte of output.
  uint64_t steps_allowed = 60000 + 600 * (uint64_t)max, mem_allowed = 4096 + 8 * ((uint64_t)max + 256);
  Meter m(&w.v, steps_allowed);
  int rc = rd.Visit(before, 1, &m.v);
  uint64_t steps = sim::Steps() - m.s0;
  sim::ClearStepBudget();
  SIM_CHECK(rc == EAGAIN, "reads-on", "%s shape %d: visiting %u coordinates with limit %lld returned %d %s", TypeText(t).c_str(), shape, n,
            (long long)max, rc, w.err.message);
  rc = w.v.feat_end(&w.v);
  SIM_CHECK(rc == 0, "feat-end", "%d %s", rc, w.err.message);
  uint64_t mem = sim::GetAllocStats().peak_bytes - m.base;
  SIM_CHECK(m.calls <= 16 + 4 * (uint64_t)max, "reads-on", "%s shape %d: %llu callbacks for limit %lld", TypeText(t).c_str(), shape,
            (unsigned long long)m.calls, (long long)max);
  Log("%s shape %d n %u limit %lld: %llu steps, %llu bytes", TypeText(t).c_str(), shape, n, (long long)max, (unsigned long long)steps,
      (unsigned long long)mem);
  SIM_CHECK(mem <= mem_allowed, "memory", "%s shape %d: %u coordinates with limit %lld needed %llu bytes (allowed %llu)",
            TypeText(t).c_str(), shape, n, (long long)max, (unsigned long long)mem, (unsigned long long)mem_allowed);
  Count("check.bounded_work");
  sim::State(sim::Mix(sim::Mix(t, shape), (uint64_t)max));
  sim::NonTrivial();
}

// The kernel with the same options.
static void ByKernel() {
  Case c;
  c.DrawSource(16, 4, true, 600);
  c.DrawKind(FORMAT);
  if (c.max < 0) {
    c.max = (int64_t)Small(150);
    c.opts = KeyValues({{"max_element_size_bytes", std::to_string(c.max)}, {"precision", std::to_string(c.precision)}});
    c.has_opts = true;
  }
  GeoArrowKernel k;
  GeoArrowError err;
  err.message[0] = 0;
  SIM_CHECK(GeoArrowKernelInit(&k, "format_wkt", nullptr) == 0, "init", "kernel");
  Schema out;
  int rc = k.start(&k, &c.in.s, c.Opts(), &out.s, &err);
  SIM_CHECK(rc == 0, "start", "%d %s", rc, err.message);
  for (size_t i = 0; i < c.src.arrays.size(); i++) {
    Arr a;
    rc = k.push_batch(&k, &c.src.arrays[i]->a, &a.a, &err);
    SIM_CHECK(rc == 0, "push", "%d %s", rc, err.message);
    c.CheckRows(c.src.parts[i], &a.a, c.What(i).c_str());
  }
  k.release(&k);
  Log("kernel %s limit %lld", TypeText(c.src.type).c_str(), (long long)c.max);
  sim::NonTrivial();
}

static void Run() {
  uint32_t what = W({9, 4, 1});
  if (what == 1) {
    ByKernel();
    return;
  }
  if (what == 2) {
    Bounded();
    return;
  }
  GenOpts o = SwarmOpts();
  Source src;
  uint32_t n = 1 + Small(10);
  switch (W({6, 5, 1})) {
    case 0:
      MakeArrays(src, SerializedType(D(6)), GenFeatures(o, n), 2);
      break;
    case 1:
      o.only_type = 1 + (int)D(6);
      o.only_dims = D4();
      MakeArrays(src, NativeType(o.only_type, o.only_dims, DrawCoordType()), GenFeatures(o, n), 2);
      break;
    default:
      MakeBoxes(src, n, 2);
  }
  int64_t max = B(12) ? -1 : B(10) ? (int64_t)D(5000) : (int64_t)Small(200);
  int precision = (int)D(18), flat = (int)D(2);
  ByFeature(src, max, precision, flat);
}
SIM_PROPERTY("P10", Run, 120000, 4000000,
             "one run writes drawn features with a drawn byte limit through a drawn reader and compares with the unlimited text, "
             "or measures steps and memory of a large feature under a limit; non-trivial: reading was stopped early or measured")

// P02: kernel results do not depend on how the input is batched.
#include "kern.h"
using namespace kern;

namespace {
struct Out {
  ArrowArray a;
  Out() {
    memset(&a, 0x5a, sizeof a);
    a.release = nullptr;
  }
  ~Out() {
    if (a.release) a.release(&a);
  }
};
struct Kernel {
  GeoArrowKernel k;
  GeoArrowError err;
  Kernel(const char* name) {
    err.message[0] = 0;
    int rc = GeoArrowKernelInit(&k, name, nullptr);
    SIM_CHECK(rc == 0 && k.release, "init", "%s: %d", name, rc);
  }
  ~Kernel() {
    if (k.release) {
      k.release(&k);
      SIM_CHECK(k.release == nullptr, "release", "kernel still marked as live");
    }
  }
};
}  // namespace

// Operations out of phase: they fail or do nothing; nothing else may change.
static void WrongPhase(Kernel& k, const Case& c, bool started) {
  if (!started && !IsAgg(c.kind) && c.kind != VOID && !c.src.arrays.empty()) {
    Out o;
    int rc = k.k.push_batch(&k.k, &c.src.arrays[0]->a, &o.a, &k.err);
    SIM_CHECK(rc != 0, "out-of-phase", "%s: push before start succeeded", c.name());
    SIM_CHECK(o.a.release == nullptr, "out-of-phase", "%s: push before start failed but delivered an array", c.name());
    Count("fault.push_before_start");
  }
  if (!IsAgg(c.kind)) {
    Out o;
    int rc = k.k.finish(&k.k, &o.a, &k.err);
    SIM_CHECK(rc != 0 && o.a.release == nullptr, "out-of-phase", "%s: finish of a scalar kernel delivered a result (%d)", c.name(), rc);
    Count("fault.finish_scalar");
  }
}

// Options and inputs that cannot be used are refused at start.
static void BadStart(Kernel& k, const Case& c) {
  std::vector<std::pair<std::string, std::string>> kv;
  Schema s;
  const ArrowSchema* in = &c.in.s;
  switch (D(5)) {
    case 0: {
      static const char* const bad[] = {"", "x", "12x", "--3", " ", "1e3", "99999999999999999999", "0x10", "4294967297"};
      const char* v = bad[D(9)];
      if (c.kind == FORMAT)
        kv.push_back({D(2) ? "precision" : "max_element_size_bytes", v});
      else if (c.kind == AS)
        kv.push_back({"type", v});
      else
        return;
      break;
    }
    case 1: {
      if (c.kind != AS) return;
      static const int bad[] = {0, 8, 10, -1, 100005, 99999, (int)GEOARROW_TYPE_BOX, 10008, 7};
      if (D(4)) kv.push_back({"type", std::to_string(bad[D(9)])});  // or missing
      break;
    }
    case 2:
      SIM_CHECK(ArrowSchemaInitFromType(&s.s, NANOARROW_TYPE_INT32) == 0, "init", "schema");
      in = &s.s;
      if (c.kind == VOID || c.kind == VOID_AGG) return;
      if (c.kind == AS) kv.push_back({"type", "100001"});
      break;
    case 3: {
      // a schema that declares the extension but has another storage
      SIM_CHECK(ArrowSchemaInitFromType(&s.s, NANOARROW_TYPE_INT64) == 0, "init", "schema");
      std::string m = KeyValues({{"ARROW:extension:name", ExtMetadata(&c.in.s, "ARROW:extension:name")}});
      SIM_CHECK(ArrowSchemaSetMetadata(&s.s, m.data()) == 0, "init", "schema");
      in = &s.s;
      if (c.kind == VOID || c.kind == VOID_AGG) return;
      if (c.kind == AS) kv.push_back({"type", "100001"});
      break;
    }
    default: {
      if (c.kind != BOX && c.kind != BOX_AGG) return;
      SIM_CHECK(GeoArrowSchemaInitExtension(&s.s, c.src.type) == 0, "init", "schema");
      std::string m = KeyValues({{"ARROW:extension:name", ExtMetadata(&s.s, "ARROW:extension:name")},
                                 {"ARROW:extension:metadata", "{\"edges\":\"spherical\"}"}});
      SIM_CHECK(ArrowSchemaSetMetadata(&s.s, m.data()) == 0, "init", "schema");
      in = &s.s;
    }
  }
  std::string opts = KeyValues(kv);
  Schema out;
  int rc = k.k.start(&k.k, const_cast<ArrowSchema*>(in), opts.data(), &out.s, &k.err);
  std::string shown;
  for (auto& p : kv) shown += p.first + "='" + p.second + "' ";
  Log("%s: bad start (%s%s) -> %d", c.name(), shown.c_str(), in->format, rc);
  SIM_CHECK(rc != 0, "accepted-invalid", "%s: start accepted %sfor input %s", c.name(), shown.c_str(), in->format);
  SIM_CHECK(out.s.release == nullptr, "accepted-invalid", "%s: failed start delivered a schema", c.name());
  Count("fault.bad_start");
}

static void RunKernel(Case& c, const char* when) {
  Kernel k(c.name());
  if (B(4)) WrongPhase(k, c, false);
  if (B(4)) BadStart(k, c);
  Schema out;
  int rc = k.k.start(&k.k, &c.in.s, c.Opts(), &out.s, &k.err);
  SIM_CHECK(rc == 0, "start", "%s(%s) %s: %d %s", c.name(), TypeText(c.src.type).c_str(), when, rc, k.err.message);
  c.CheckSchema(&out.s);
  if (B(4) && c.kind != AS) {  // a second start begins afresh
    Schema again;
    rc = k.k.start(&k.k, &c.in.s, c.Opts(), &again.s, &k.err);
    SIM_CHECK(rc == 0, "start", "%s second start: %d", c.name(), rc);
    c.CheckSchema(&again.s);
    Count("op.restart");
  }
  Features seen;
  std::vector<std::unique_ptr<Out>> kept;
  std::vector<size_t> kept_from;
  uint32_t rounds = IsAgg(c.kind) ? 1 : 1 + B(4);
  for (uint32_t r = 0; r < rounds; r++)
    for (size_t i = 0; i < c.src.arrays.size(); i++) {
      std::string what = c.What(i);
      if (B(12)) WrongPhase(k, c, true);
      if (IsAgg(c.kind)) {
        rc = k.k.push_batch(&k.k, &c.src.arrays[i]->a, nullptr, &k.err);
        SIM_CHECK(rc == 0, "push", "%s: %d %s", what.c_str(), rc, k.err.message);
        seen.insert(seen.end(), c.src.parts[i].begin(), c.src.parts[i].end());
      } else {
        std::unique_ptr<Out> o(new Out());
        rc = k.k.push_batch(&k.k, &c.src.arrays[i]->a, &o->a, &k.err);
        SIM_CHECK(rc == 0, "push", "%s: %d %s", what.c_str(), rc, k.err.message);
        c.CheckRows(c.src.parts[i], &o->a, what.c_str());
        kept.push_back(std::move(o));
        kept_from.push_back(i);
        seen.insert(seen.end(), c.src.parts[i].begin(), c.src.parts[i].end());
      }
      Count("op.push");
    }
  Log("%s(%s) %s: %zu batches, %zu rows", c.name(), TypeText(c.src.type).c_str(), when, c.src.arrays.size(), seen.size());
  std::string all = std::string(c.name()) + "(" + TypeText(c.src.type) + ") " + when;
  std::unique_ptr<Out> agg;
  if (IsAgg(c.kind)) {
    agg.reset(new Out());
    rc = k.k.finish(&k.k, &agg->a, &k.err);
    SIM_CHECK(rc == 0, "finish", "%s: %d %s", all.c_str(), rc, k.err.message);
    c.CheckAgg(seen, &agg->a, all.c_str());
  } else {
    rc = k.k.finish(&k.k, nullptr, &k.err);
    SIM_CHECK(rc == 0, "finish", "%s: %d %s", all.c_str(), rc, k.err.message);
  }
  k.k.release(&k.k);
  SIM_CHECK(k.k.release == nullptr, "release", "%s: kernel still marked as live", all.c_str());
  // results stay what they were
  for (size_t i = 0; i < kept.size(); i++) c.CheckRows(c.src.parts[kept_from[i]], &kept[i]->a, "after the kernel was released");
  if (agg) c.CheckAgg(seen, &agg->a, "after the kernel was released");
}

// The same rows in another partition, each batch a slice of one array.
static void Slices(Case& c) {
  Features all = c.src.All();
  size_t n = all.size();
  Source one;
  one.type = c.src.type;
  if (IsBox(c.src.type)) return;
  MakeArrays(one, c.src.type, all, 1);
  const ArrowArray& base = one.arrays[0]->a;
  std::vector<std::unique_ptr<ArrowArray>> batches;
  Source sliced;
  sliced.type = c.src.type;
  size_t at = 0;
  uint32_t max = 1 + D(4);
  while (at < n || batches.empty()) {
    size_t take = D((uint32_t)std::min<size_t>(n - at, max) + 1);
    if (at < n && take == 0 && D(3)) take = 1;
    ArrowArray a = base;
    a.offset += (int64_t)at;
    a.length = (int64_t)take;
    if (a.null_count) a.null_count = -1;
    a.release = nullptr;
    sliced.arrays.emplace_back(new Arr(a));
    sliced.parts.emplace_back(all.begin() + at, all.begin() + at + take);
    at += take;
    batches.emplace_back(new ArrowArray(a));
    if (batches.size() > 4 * n + 8) break;
  }
  if (at < n) return;
  // borrowed arrays need a release that does nothing to be live
  for (auto& a : sliced.arrays) a->a.release = +[](ArrowArray* x) { x->release = nullptr; };
  std::swap(c.src, sliced);
  RunKernel(c, "slices");
  std::swap(c.src, sliced);
  Count("op.sliced");
}

static void Run() {
  Case c;
  c.DrawSource(24, 5, true, 600);
  c.DrawKind((Kind)W({1, 1, 2, 5, 7, 5, 5, 5}));
  if (sim::Tracing()) sim::Note("%s on %s: precision %d max %lld out %d", c.name(), TypeText(c.src.type).c_str(), c.precision, (long long)c.max, (int)c.out);
  RunKernel(c, "first");
  size_t rows = c.src.All().size();
  sim::State(sim::Mix(sim::Mix(c.kind, c.src.type), sim::Mix(c.src.arrays.size(), rows * 64 + (uint64_t)c.out)));
  if (rows && c.src.arrays.size() > 1) sim::NonTrivial();
  if (D(2)) {
    Slices(c);
    if (rows) sim::NonTrivial();
  }
}
SIM_PROPERTY("P02", Run, 300000, 8000000,
             "one run drives one kernel over drawn batches (also as slices of one array), with operations out of phase and "
             "unusable starts injected, and compares every result with the model; non-trivial: more than one batch or slices")

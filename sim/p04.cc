// P04: a failed operation does not disturb later ones.
#include <set>

#include "kern.h"
using namespace kern;

namespace {
struct OutArray {
  ArrowArray a;
  OutArray() {
    memset(&a, 0x5a, sizeof a);
    a.release = nullptr;
  }
  ~OutArray() {
    if (a.release) a.release(&a);
  }
};
// What one appended row may have become.
struct Row {
  Feature f;
  bool must = true;   // appended successfully: exactly one row
  bool any = false;   // its content is not specified (does not fit the target)
};
sim::FaultPlan DrawPlan(uint32_t around) {
  sim::FaultPlan p;
  switch (D(3)) {
    case 0:
      p.first = 1 + D(around);
      break;
    case 1:
      p.first = 1 + D(around);
      p.burst = 1 + D(5);
      break;
    default:
      p.mod = 2 + D(12);
      p.salt = sim::U64();
  }
  return p;
}
// Keys under which a decoded row may match a given one.
std::string RowKey(enum GeoArrowType t, const Feature& f) {
  if (f.null) return "null";
  if (IsNative(t)) return Key(Normal(f.g));
  return Key(f.g);
}
std::string WantKey(enum GeoArrowType t, const Feature& f) {
  if (f.null) return "null";
  if (!IsNative(t)) return Key(f.g);
  TypeParts p = Parts(t);
  return Key(Normal(ToNative(f.g, p.gtype, p.dims)));
}
// Every must-row appears once, in order; a row that failed is absent, null or whole.
void MatchRows(enum GeoArrowType t, const std::vector<Row>& rows, const Features& got, const char* what) {
  size_t n = rows.size(), m = got.size();
  std::vector<std::string> gk, wk;
  for (auto& g : got) gk.push_back(RowKey(t, g));
  for (auto& r : rows) wk.push_back(WantKey(t, r.f));
  auto same = [&](size_t i, size_t j) {
    if (rows[i].any) return true;
    if (t == GEOARROW_TYPE_WKT) {
      if (rows[i].f.null || got[j].null) return rows[i].f.null == got[j].null;
      return CloseGeom(rows[i].f.g, got[j].g, 16);
    }
    return wk[i] == gk[j];
  };
  std::vector<std::vector<char>> ok(n + 1, std::vector<char>(m + 1, 0));
  ok[n][m] = 1;
  size_t best = 0;
  for (size_t i = n; i-- > 0;)
    for (size_t j = m + 1; j-- > 0;) {
      bool r = false;
      if (!rows[i].must && ok[i + 1][j]) r = true;
      if (!r && j < m && ok[i + 1][j + 1] && (same(i, j) || (!rows[i].must && got[j].null))) r = true;
      ok[i][j] = r;
    }
  (void)best;
  if (ok[0][0]) return;
  std::string s;
  for (size_t i = 0; i < n && s.size() < 1500; i++) s += std::string(rows[i].must ? " +" : " -") + Show(rows[i].f).substr(0, 150);
  std::string g;
  for (auto& x : got) g += " " + Show(x).substr(0, 150);
  size_t must = 0;
  for (auto& r : rows) must += r.must;
  Fail(m < must || m > n ? "row-count" : "half-present", "%s: given (+ succeeded, - failed)%s; finished %zu rows:%.1500s", what, s.c_str(), m, g.c_str());
}
// Corrupts some rows of a serialised source; bad[a][i] marks those that must fail.
void Corrupt(Source& src, std::vector<std::vector<char>>& bad, uint32_t den) {
  bad.clear();
  for (size_t a = 0; a < src.parts.size(); a++) {
    bad.emplace_back(src.parts[a].size(), 0);
    if (!IsSerialized(src.type)) continue;
    auto& enc = src.enc[a];
    bool any = false;
    for (size_t i = 0; i < src.parts[a].size(); i++) {
      if (src.parts[a][i].null || !enc[i] || !B(den)) continue;
      std::string s = *enc[i];
      switch (D(3)) {
        case 0:
          s.resize(D((uint32_t)s.size() + 1));
          break;
        case 1:
          if (!s.empty()) s[D((uint32_t)s.size())] = (char)D(256);
          break;
        default:
          s += "(";
          if (!IsWkt(src.type)) s[0] = 7;
      }
      Geom g;
      size_t used;
      int ref = IsWkt(src.type) ? ParseWkt3(s, &g) : ParseWkb((const uint8_t*)s.data(), s.size(), &g, &used);
      if (ref != 1) continue;
      enc[i] = s;
      bad[a][i] = 1;
      any = true;
      sim::Note("array %zu row %zu made malformed", a, i);
      Count("fault.malformed_row");
    }
    if (!any) continue;
    int bk = src.type == GEOARROW_TYPE_WKB || src.type == GEOARROW_TYPE_WKT           ? BK_I32
             : src.type == GEOARROW_TYPE_LARGE_WKB || src.type == GEOARROW_TYPE_LARGE_WKT ? BK_I64
                                                                                        : BK_VIEW;
    src.arrays[a]->Release();
    src.arrays[a]->a = MakeBinary(enc, bk, GenArrOpts());
  }
}
}  // namespace

// ---- a kernel keeps delivering exact batches around failed ones
static void KernelRun() {
  Case c;
  c.DrawSource(8, 1, false);
  Source base = std::move(c.src);
  // several batches
  enum GeoArrowType t = base.type;
  Features f = base.All();
  c.src = Source();
  MakeArrays(c.src, t, f, 6);
  c.DrawKind((Kind)W({0, 0, 2, 4, 6, 4, 3, 3}));
  std::vector<std::vector<char>> bad;
  Corrupt(c.src, bad, 3);
  GeoArrowKernel k;
  GeoArrowError err;
  err.message[0] = 0;
  SIM_CHECK(GeoArrowKernelInit(&k, c.name(), nullptr) == 0, "init", "kernel");
  Schema out;
  if (B(3)) {  // a start that fails
    sim::ArmAlloc(DrawPlan(20));
    Schema tmp;
    int rc = k.start(&k, &c.in.s, c.Opts(), &tmp.s, &err);
    uint64_t fired = sim::DisarmAlloc();
    if (fired) Count("fault.alloc");
    SIM_CHECK(rc == 0 || fired, "start", "%d %s", rc, err.message);
    Log("%s: start with %llu faults -> %d", c.name(), (unsigned long long)fired, rc);
    if (rc != 0 && D(2)) {  // pushing now is refused or has no effect
      OutArray o;
      rc = k.push_batch(&k, &c.src.arrays[0]->a, IsAgg(c.kind) ? nullptr : &o.a, &err);
      SIM_CHECK(IsAgg(c.kind) || rc != 0, "push-after-failed-start", "%s accepted a batch after its start failed", c.name());
    }
    if (rc == 0 && c.kind == AS) {
      k.release(&k);
      return;  // may only be started once
    }
  }
  int rc = k.start(&k, &c.in.s, c.Opts(), &out.s, &err);
  if (rc != 0) {
    // refusing further use is allowed once something failed
    Count("check.refused_after_failure");
    k.release(&k);
    return;
  }
  Features sure, maybe;  // rows of batches that succeeded; of all batches
  std::vector<std::pair<size_t, std::unique_ptr<OutArray>>> kept;
  uint32_t fails = 0, steps = (uint32_t)c.src.arrays.size() + D(6);
  for (uint32_t s = 0; s < steps; s++) {
    size_t i = s < c.src.arrays.size() ? s : D((uint32_t)c.src.arrays.size());
    bool is_bad = false;
    for (char b : bad[i]) is_bad |= b;
    bool faults = B(4);
    std::unique_ptr<OutArray> o(new OutArray());
    if (faults) sim::ArmAlloc(DrawPlan(12));
    rc = k.push_batch(&k, &c.src.arrays[i]->a, IsAgg(c.kind) ? nullptr : &o->a, &err);
    uint64_t fired = faults ? sim::DisarmAlloc() : 0;
    if (fired) Count("fault.alloc");
    Log("%s batch %zu (%zu rows%s) -> %d, %llu faults", c.name(), i, c.src.parts[i].size(), is_bad ? ", malformed" : "", rc, (unsigned long long)fired);
    if (rc == 0 && is_bad && c.kind != FORMAT && c.kind != UNIQUE)
      Fail("accepted-malformed", "%s: a batch with a malformed row succeeded", c.What(i).c_str());
    if (rc != 0) {
      SIM_CHECK(is_bad || fired || fails, "push", "%s: %d %s", c.What(i).c_str(), rc, err.message);
      SIM_CHECK(o->a.release == nullptr, "half-written", "%s failed but delivered an array", c.What(i).c_str());
      if (!is_bad && !fired) Count("check.refused_after_failure");
      fails++;
      maybe.insert(maybe.end(), c.src.parts[i].begin(), c.src.parts[i].end());
      continue;
    }
    if (fails) Count("check.batch_after_failure");
    if (!is_bad) {
      sure.insert(sure.end(), c.src.parts[i].begin(), c.src.parts[i].end());
      maybe.insert(maybe.end(), c.src.parts[i].begin(), c.src.parts[i].end());
    } else {
      maybe.insert(maybe.end(), c.src.parts[i].begin(), c.src.parts[i].end());
      if (!IsAgg(c.kind)) {
        CheckArrayShape(&o->a, (int64_t)c.src.parts[i].size(), c.What(i).c_str());
        continue;
      }
    }
    if (!IsAgg(c.kind)) {
      c.CheckRows(c.src.parts[i], &o->a, c.What(i).c_str());
      kept.emplace_back(i, std::move(o));
    }
  }
  if (IsAgg(c.kind)) {
    if (B(3)) {
      OutArray o;
      sim::ArmAlloc(DrawPlan(12));
      rc = k.finish(&k, &o.a, &err);
      uint64_t fired = sim::DisarmAlloc();
      if (fired) Count("fault.alloc");
      if (rc != 0) fails++;
      SIM_CHECK(rc == 0 || fired, "finish", "%d", rc);
      SIM_CHECK(rc == 0 || o.a.release == nullptr, "half-written", "%s: failed finish delivered an array", c.name());
      if (rc == 0 && !fails && sure.size() == maybe.size()) c.CheckAgg(sure, &o.a, c.name());
      if (rc == 0) {
        k.release(&k);
        return;
      }
    }
    OutArray o;
    rc = k.finish(&k, &o.a, &err);
    Log("%s finish -> %d after %u failures", c.name(), rc, fails);
    SIM_CHECK(rc == 0 || fails, "finish", "%s: %d %s", c.name(), rc, err.message);
    if (rc == 0) {
      if (!fails && sure.size() == maybe.size()) {
        c.CheckAgg(sure, &o.a, c.name());
      } else if (c.kind == UNIQUE) {
        CheckArrayShape(&o.a, o.a.length, c.name());
        std::set<int32_t> got, low;
        for (int64_t i = 0; i < o.a.length; i++) {
          int32_t v = ((const int32_t*)o.a.buffers[1])[i];
          SIM_CHECK(got.empty() || *got.rbegin() < v, "unique", "types not sorted");
          got.insert(v);
        }
        for (auto& x : sure)
          if (!x.null && HasCoords(x.g, c.src.type)) low.insert((x.g.dims - 1) * 1000 + x.g.type);
        for (int32_t v : low) SIM_CHECK(got.count(v), "lost-rows", "type %d of a batch that succeeded is missing", v);
      } else if (c.kind == BOX_AGG) {
        CheckArrayShape(&o.a, 1, c.name());
        Bounds lo;
        for (auto& x : sure)
          if (!x.null) lo.Add(x.g);
        for (int i = 0; i < 4; i++) {
          double v = ((const double*)o.a.children[i]->buffers[1])[0];
          SIM_CHECK(i < 2 ? v <= lo.b[i] : v >= lo.b[i], "lost-rows", "bound %d is %.17g but batches that succeeded reach %.17g", i, v, lo.b[i]);
        }
      }
    }
  } else {
    for (auto& x : kept) c.CheckRows(c.src.parts[x.first], &x.second->a, "kept batch");
  }
  k.release(&k);
  if (fails) sim::NonTrivial();
  sim::State(sim::Mix(sim::Mix(c.kind, c.src.type), sim::Mix(fails, steps)));
}

// ---- a writer keeps whole rows only
static void WriterRun() {
  GenOpts o = SwarmOpts(600);
  o.max_depth = std::min<uint32_t>(o.max_depth, 3);
  uint32_t n = 1 + Small(10);
  Source src;
  int fixed = 0;
  bool native_src = D(3) == 2;
  if (native_src) {
    fixed = o.only_type = 1 + (int)D(6);
    o.only_dims = D4();
    MakeArrays(src, NativeType(fixed, o.only_dims, DrawCoordType()), GenFeatures(o, n), 2);
  } else {
    if (D(2)) fixed = o.only_type = 1 + (int)D(6);
    MakeArrays(src, SerializedType(D(6)), GenFeatures(o, n), 2);
  }
  std::vector<std::vector<char>> bad;
  Corrupt(src, bad, 4);
  uint32_t tk = W({3, 3, 6});
  enum GeoArrowType t = tk == 0 ? GEOARROW_TYPE_WKT : tk == 1 ? GEOARROW_TYPE_WKB : NativeType(fixed && D(3) ? fixed : 1 + (int)D(6), D4(), DrawCoordType());
  int target = IsNative(t) ? Parts(t).gtype : 0;
  Reader r;
  SIM_CHECK(r.Init(src.type, (int)D(3)) == 0, "init", "reader");
  Writer w;
  int api = (int)D(3);
  SIM_CHECK(w.Init(t, api) == 0, "init", "writer");
  if (B(6)) {
    sim::ArmAlloc(DrawPlan(4));
    int rc = w.InitVisitor();
    uint64_t fired = sim::DisarmAlloc();
    SIM_CHECK(rc == 0 || fired, "init", "visitor %d", rc);
  }
  SIM_CHECK(w.InitVisitor() == 0, "init", "visitor");
  std::vector<Row> rows;
  uint32_t fails = 0;
  std::vector<std::unique_ptr<OutArray>> kept;
  auto finish = [&](bool last) {
    std::unique_ptr<OutArray> out(new OutArray());
    uint64_t fired = 0;
    if (B(4)) {
      sim::ArmAlloc(DrawPlan(14));
      int rc = w.Finish(&out->a);
      fired = sim::DisarmAlloc();
      if (fired) Count("fault.alloc");
      Log("finish with %llu faults -> %d", (unsigned long long)fired, rc);
      if (rc != 0) {
        SIM_CHECK(fired || fails, "finish", "%d %s", rc, w.err.message);
        SIM_CHECK(out->a.release == nullptr, "half-written", "a failed finish delivered an array");
        fails++;
        // what was appended before may still be delivered, or not
        for (auto& x : rows) x.must = false;
        if (D(2)) return;
        if (D(2)) SIM_CHECK(w.InitVisitor() == 0, "init", "visitor");
      }
    }
    if (!out->a.release) {
      int rc = w.Finish(&out->a);
      Log("finish -> %d, %zu rows given", rc, rows.size());
      SIM_CHECK(rc == 0 || fails, "finish", "%d %s", rc, w.err.message);
      if (rc != 0) {
        SIM_CHECK(out->a.release == nullptr, "half-written", "a failed finish delivered an array");
        Count("check.refused_after_failure");
        for (auto& x : rows) x.must = false;
        if (!last) SIM_CHECK(w.InitVisitor() == 0, "init", "visitor");
        return;
      }
    }
    std::string what = TypeText(src.type) + "->" + TypeText(t) + "." + std::to_string(api);
    CheckArrayShape(&out->a, out->a.length, what.c_str());
    MatchRows(t, rows, DecodeArray(t, &out->a, what.c_str()), what.c_str());
    if (fails) Count("check.finish_after_failure");
    rows.clear();
    kept.push_back(std::move(out));
    if (!last && D(2)) SIM_CHECK(w.InitVisitor() == 0, "init", "visitor");
  };
  uint32_t rounds = 1 + D(2);
  for (uint32_t round = 0; round < rounds; round++)
    for (size_t a = 0; a < src.arrays.size(); a++) {
      SIM_CHECK(r.SetArray(&src.arrays[a]->a, src.enc[a]) == 0, "set-array", "%s", r.err.message);
      for (size_t i = 0; i < src.parts[a].size(); i++) {
        bool faults = B(5);
        if (faults) sim::ArmAlloc(DrawPlan(6));
        int rc = r.Visit((int64_t)i, 1, &w.v);
        uint64_t fired = faults ? sim::DisarmAlloc() : 0;
        if (fired) Count("fault.alloc");
        Row x;
        x.f = src.parts[a][i];
        bool fits = x.f.null || !target || Fits(x.f.g.type, target);
        SIM_CHECK(!(rc == 0 && bad[a][i]), "accepted-malformed", "row %zu", i);
        SIM_CHECK(rc == 0 || bad[a][i] || fired || !fits || fails, "append", "row %zu: %d %s", i, rc, w.err.message);
        Log("row %zu%s%s -> %d (%llu faults)", i, bad[a][i] ? " malformed" : "", fits ? "" : " does not fit", rc, (unsigned long long)fired);
        if (!fits) Count("fault.not_representable");
        x.must = rc == 0;
        x.any = !fits || (bad[a][i] && rc == 0);
        if (rc != 0) fails++;
        if (rc != 0 && bad[a][i]) {
          // nothing of a malformed feature may remain, not even a null
          if (target && D(3) == 0) {
            // some callers end the feature that failed themselves
            if (w.v.feat_end(&w.v) == 0) {
              x.any = true;
              x.must = false;
              Count("op.ended_failed_feature");
            }
          } else if (D(4) == 0) {
            SIM_CHECK(w.InitVisitor() == 0, "init", "visitor");
            // a fresh visitor may or may not keep the rows so far
          }
        }
        rows.push_back(x);
        if (B(10)) finish(false);
      }
    }
  finish(true);
  if (fails) sim::NonTrivial();
  sim::State(sim::Mix(sim::Mix(src.type, t), sim::Mix(fails, api)));
}

// ---- a reader after an array it could not use
static void ReaderRun() {
  GenOpts o = SwarmOpts();
  Source src;
  uint32_t n = 1 + Small(8);
  switch (W({4, 5, 2})) {
    case 0:
      MakeArrays(src, SerializedType(D(6)), GenFeatures(o, n), 3);
      break;
    case 1:
      o.only_type = 1 + (int)D(6);
      o.only_dims = D4();
      MakeArrays(src, NativeType(o.only_type, o.only_dims, DrawCoordType()), GenFeatures(o, n), 3);
      break;
    default:
      MakeBoxes(src, n, 3);
  }
  GeoArrowArrayReader ar;
  GeoArrowArrayView av;
  GeoArrowError err;
  err.message[0] = 0;
  bool view = !IsSerialized(src.type) && D(3) == 0;
  if (view)
    SIM_CHECK(GeoArrowArrayViewInitFromType(&av, src.type) == 0, "init", "view");
  else
    SIM_CHECK(GeoArrowArrayReaderInitFromType(&ar, src.type) == 0, "init", "reader");
  auto set = [&](const ArrowArray* a) { return view ? GeoArrowArrayViewSetArray(&av, a, &err) : GeoArrowArrayReaderSetArray(&ar, a, &err); };
  auto visit = [&](int64_t off, int64_t len, GeoArrowVisitor* v) {
    return view ? GeoArrowArrayViewVisitNative(&av, off, len, v) : GeoArrowArrayReaderVisit(&ar, off, len, v);
  };
  auto check = [&](size_t i, const char* when) {
    Recorder rec(&err);
    int rc = visit(0, (int64_t)src.parts[i].size(), &rec.v);
    SIM_CHECK(rc == 0, "visit", "%s: %d %s", when, rc, err.message);
    ExpectFeatures(src.parts[i], rec.out, "other-rows", when);
  };
  size_t cur = src.arrays.size();
  uint32_t steps = 2 + D(8), fails = 0;
  for (uint32_t s = 0; s < steps; s++) {
    size_t i = D((uint32_t)src.arrays.size());
    if (D(2)) {
      // a copy of a good array with one count wrong; nothing behind it is freed
      ArrowArray bad = src.arrays[i]->a;
      bad.release = nullptr;
      ArrowArray* at = &bad;
      std::vector<std::unique_ptr<ArrowArray>> copies;
      std::vector<std::unique_ptr<ArrowArray*[]>> lists;
      while (at->n_children > 0 && D(3)) {
        lists.emplace_back(new ArrowArray*[at->n_children]);
        memcpy(lists.back().get(), at->children, sizeof(ArrowArray*) * at->n_children);
        size_t k = D((uint32_t)at->n_children);
        copies.emplace_back(new ArrowArray(*at->children[k]));
        lists.back()[k] = copies.back().get();
        at->children = lists.back().get();
        at = copies.back().get();
      }
      // the buffer and child lists are cut to the count they claim
      std::unique_ptr<const void*[]> bufs;
      bool expect_fail = true;
      if (at->n_children > 0 && D(2)) {
        int64_t had = at->n_children;
        at->n_children = D(2) ? D((uint32_t)had) : had + 1 + D(2);
        lists.emplace_back(new ArrowArray*[at->n_children]);
        for (int64_t k = 0; k < at->n_children; k++) lists.back()[k] = at->children == nullptr ? nullptr : at->children[k < had ? k : 0];
        at->children = lists.back().get();
      } else {
        int64_t had = at->n_buffers;
        at->n_buffers = D(2) ? D((uint32_t)had) : had + 1 + D(2);
        // the struct of separate coordinates has no buffer whose count matters
        if (!IsSerialized(src.type) && at->n_children > 0 && (at->n_buffers >= 1 || !copies.empty())) expect_fail = false;
        // (the list keeps room for what the type needs: the vendored nanoarrow
        // reads the pointers, not what they point to, before it counts them)
        bufs.reset(new const void*[at->n_buffers + 4]);
        for (int64_t k = 0; k < at->n_buffers + 4; k++) bufs[k] = k < had && k < at->n_buffers ? at->buffers[k] : nullptr;
        at->buffers = bufs.get();
        if (src.type == GEOARROW_TYPE_WKB_VIEW || src.type == GEOARROW_TYPE_WKT_VIEW) expect_fail = at->n_buffers < 3;  // more are data buffers
        if (expect_fail == false && IsSerialized(src.type)) continue;
      }
      int rc = set(&bad);
      Log("set malformed array (%lld buffers, %lld children) -> %d", (long long)at->n_buffers, (long long)at->n_children, rc);
      if (rc == 0) {
        SIM_CHECK(!expect_fail, "accepted-malformed", "%s: array with %lld buffers and %lld children at depth %zu was accepted", TypeText(src.type).c_str(),
                  (long long)at->n_buffers, (long long)at->n_children, copies.size());
        cur = src.arrays.size();
        continue;
      }
      fails++;
      Count("fault.malformed_array");
      // the view describes the array set before, or none: not some of each
      if (view && cur < src.arrays.size())
        SIM_CHECK(av.length[0] == (int64_t)src.parts[cur].size() || av.length[0] == 0, "view-length", "%lld rows in view after a failed set, %zu in the array set before",
                  (long long)av.length[0], src.parts[cur].size());
      if (cur < src.arrays.size() && D(2)) {
        // what was set before is still there, or refused
        Recorder rec(&err);
        int64_t len = (int64_t)src.parts[cur].size();
        rc = visit(0, len, &rec.v);
        if (rc == 0) {
          ExpectFeatures(src.parts[cur], rec.out, "other-rows", "the array set before the failure");
          Count("check.array_kept");
        }
      }
    } else {
      int rc = set(&src.arrays[i]->a);
      SIM_CHECK(rc == 0, "set-array", "after %u failures: %d %s", fails, rc, err.message);
      cur = i;
      check(i, "a good array");
      if (fails) Count("check.array_after_failure");
    }
  }
  if (!view) GeoArrowArrayReaderReset(&ar);
  if (fails) sim::NonTrivial();
  sim::State(sim::Mix(src.type, fails));
}

// ---- a builder retrying what failed
static void BuilderRun() {
  int gt = 1 + (int)D(6), dims = D4(), ct = DrawCoordType();
  GenOpts o = SwarmOpts();
  o.only_type = gt;
  o.only_dims = dims;
  GeoArrowBuilder b;
  SIM_CHECK(GeoArrowBuilderInitFromType(&b, NativeType(gt, dims, ct)) == 0, "init", "builder");
  GeoArrowError err;
  uint32_t fails = 0;
  auto retry = [&](const char* what, auto op) {
    for (int k = 0; k < 3; k++) {
      sim::ArmAlloc(DrawPlan(3));
      int rc = op();
      uint64_t fired = sim::DisarmAlloc();
      if (fired) Count("fault.alloc");
      SIM_CHECK(rc == 0 || fired, "append", "%s: %d", what, rc);
      if (rc == 0) return;
      fails++;
      Count("op.retried");
    }
    SIM_CHECK(op() == 0, "append", "%s without faults", what);
  };
  uint32_t rounds = 1 + D(3);
  for (uint32_t r = 0; r < rounds; r++) {
    Features f = GenFeatures(o, Small(6));
    NativeBufs nb = EncodeNative(gt, dims, f, D(2));
    if (!nb.validity.empty()) {
      GeoArrowBufferView v;
      v.data = (const uint8_t*)nb.validity.data();
      v.size_bytes = (int64_t)nb.validity.size();
      retry("validity", [&] { return GeoArrowBuilderAppendBuffer(&b, 0, v); });
    }
    for (size_t k = 0; k < nb.offs.size(); k++)
      retry("offsets", [&] { return GeoArrowBuilderOffsetAppend(&b, (int32_t)k, nb.offs[k].data(), (int64_t)nb.offs[k].size()); });
    int64_t n = (int64_t)nb.coords.size() / Nd(dims), at = 0;
    while (at < n) {
      int64_t k = 1 + D((uint32_t)(n - at));
      CoordChunk ch;
      ch.Set(nb.coords.data() + at * Nd(dims), (size_t)k, Nd(dims), (int)D(3));
      retry("coords", [&] { return GeoArrowBuilderCoordsAppend(&b, &ch.view, (enum GeoArrowDimensions)dims, 0, k); });
      at += k;
    }
    OutArray out;
    sim::ArmAlloc(DrawPlan(30));
    int rc = GeoArrowBuilderFinish(&b, &out.a, &err);
    uint64_t fired = sim::DisarmAlloc();
    if (fired) Count("fault.alloc");
    SIM_CHECK(rc == 0 || fired, "finish", "%d", rc);
    if (rc != 0) {
      fails++;
      SIM_CHECK(out.a.release == nullptr, "half-written", "a failed finish delivered an array");
      rc = GeoArrowBuilderFinish(&b, &out.a, &err);
      Log("finish again -> %d", rc);
      if (rc != 0) {
        Count("check.refused_after_failure");
        break;
      }
    }
    const char* what = "builder";
    CheckArrayShape(&out.a, (int64_t)f.size(), what);
    Features got = DecodeNative(NativeType(gt, dims, ct), &out.a, what);
    ExpectFeatures(f, got, "different-result", "builder whose failed operations were retried");
    Log("round %u: %zu rows, %u failures so far", r, f.size(), fails);
  }
  GeoArrowBuilderReset(&b);
  if (fails) sim::NonTrivial();
  sim::State(sim::Mix(sim::Mix(gt, dims), sim::Mix(ct, fails)));
}

static void Run() {
  switch (W({5, 6, 3, 2})) {
    case 0:
      KernelRun();
      break;
    case 1:
      WriterRun();
      break;
    case 2:
      ReaderRun();
      break;
    default:
      BuilderRun();
  }
}
SIM_PROPERTY("P04", Run, 250000, 8000000,
             "one run uses one kernel, writer, reader or builder over a drawn history in which malformed rows or arrays, features that "
             "do not fit and failing allocations are injected, and keeps using it; non-trivial: at least one operation failed")

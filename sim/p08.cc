// P08: readers emit well-nested events and stop at the first error.
#include "flow.h"
using namespace flow;

static const int kCodes[] = {EINVAL, ENOMEM, EAGAIN, ENOTSUP, EOVERFLOW, EIO, 12345, -1, 1};

namespace {
// Anything that presents rows to a visitor.
struct Rows {
  Features want;
  std::vector<char> bad;  // rows whose bytes are malformed
  std::function<int(int64_t, int64_t, GeoArrowVisitor*)> visit;
  std::string what;
};
}  // namespace

static void SameFeatures(const Rows& r, int64_t off, const Recorder& rec, size_t n, const char* when) {
  for (size_t i = 0; i < n; i++)
    if (Key(r.want[off + i]) != Key(rec.out[i]))
      Fail("wrong-events", "%s %s: row %lld was presented as %.500s but is %.500s", r.what.c_str(), when,
           (long long)(off + i), Show(rec.out[i]).c_str(), Show(r.want[off + i]).c_str());
}
// Clean visit of a range; returns the events.
static std::vector<std::string> Clean(const Rows& r, int64_t off, int64_t len, const char* when, GeoArrowError* err) {
  Recorder rec(err);
  rec.trace = true;
  int64_t bad = -1;
  for (int64_t i = off; i < off + len && bad < 0; i++)
    if (r.bad[i]) bad = i;
  int rc = r.visit(off, len, &rec.v);
  size_t whole = rec.out.size() - (rec.in_feature() ? 1 : 0);
  if (bad < 0) {
    SIM_CHECK(rc == 0, "visit", "%s %s: visiting %lld+%lld returned %d", r.what.c_str(), when, (long long)off, (long long)len, rc);
    SIM_CHECK(!rec.in_feature() && (int64_t)rec.out.size() == len, "wrong-events", "%s %s: %zu features from %lld rows",
              r.what.c_str(), when, rec.out.size(), (long long)len);
  } else {
    Count("fault.malformed_row");
    SIM_CHECK(rc != 0, "accepted-malformed", "%s %s: row %lld is malformed but the visit succeeded", r.what.c_str(), when, (long long)bad);
    SIM_CHECK((int64_t)whole == bad - off, "wrong-events", "%s %s: %zu whole features before malformed row %lld of a visit from %lld",
              r.what.c_str(), when, whole, (long long)bad, (long long)off);
  }
  SameFeatures(r, off, rec, whole, when);
  return rec.events;
}

static void Episodes(const Rows& r) {
  int64_t n = (int64_t)r.want.size();
  GeoArrowError err;
  err.message[0] = 0;
  auto all = Clean(r, 0, n, "first visit", &err);
  uint32_t eps = 1 + D(5);
  for (uint32_t e = 0; e < eps; e++) {
    int64_t off = D((uint32_t)n + 1), len = D((uint32_t)(n - off) + 1);
    if (D(3) == 0) off = 0, len = n;
    GeoArrowError* ep = B(4) ? nullptr : &err;
    auto events = Clean(r, off, len, "clean visit", ep);
    if (events.empty()) continue;
    int64_t k = D((uint32_t)events.size());
    int code = kCodes[D(sizeof kCodes / sizeof *kCodes)];
    Recorder rec(ep);
    rec.trace = true;
    rec.fail_at = k;
    rec.fail_code = code;
    int rc = r.visit(off, len, &rec.v);
    Log("%s rows %lld+%lld: callback %lld of %zu (%s) returns %d -> %d, %lld callbacks", r.what.c_str(), (long long)off,
        (long long)len, (long long)k, events.size(), events[k].c_str(), code, rc, (long long)rec.n_calls);
    Count(("fault.visitor_" + events[k]).c_str());
    sim::State(sim::Mix(sim::HashBytes(events[k].data(), events[k].size()), sim::HashBytes(r.what.data(), r.what.size())));
    SIM_CHECK(rc == code, "code-lost", "%s: %s returned %d but the visit returned %d", r.what.c_str(), events[k].c_str(), code, rc);
    SIM_CHECK(rec.calls_after_fail == 0, "called-after-error", "%s: %lld callbacks (first: %s) after %s returned %d",
              r.what.c_str(), (long long)rec.calls_after_fail, rec.first_after_fail.c_str(), events[k].c_str(), code);
    SIM_CHECK(rec.n_calls == k + 1 && std::equal(rec.events.begin(), rec.events.end(), events.begin()), "events-differ",
              "%s: %lld callbacks before the fault, not the same as without", r.what.c_str(), (long long)rec.n_calls);
    sim::NonTrivial();
    if (code == EAGAIN && len > 0 && D(2)) {
      // the caller ends the feature itself and carries on with the rows behind it
      int64_t done = (int64_t)rec.out.size();
      if (events[k] == "feat_start") done++;
      if (done < len) Clean(r, off + done, len - done, "continuing", ep);
    }
  }
  auto again = Clean(r, 0, n, "last visit", &err);
  SIM_CHECK(all == again, "events-differ", "%s: the last visit differs from the first", r.what.c_str());
}

static void Views(const Features& f) {
  // features as geometry views over the harness's own storage, or parsed from WKB
  Rows r;
  std::vector<std::unique_ptr<ViewBuilder>> vb;
  std::vector<std::unique_ptr<char[]>> bytes;
  std::vector<std::unique_ptr<GeoArrowGeometry, void (*)(GeoArrowGeometry*)>> geoms;
  std::vector<GeoArrowGeometryView> views;
  auto freer = +[](GeoArrowGeometry* g) {
    GeoArrowGeometryReset(g);
    delete g;
  };
  uint32_t how = D(3);
  bool whole = D(2);
  GeoArrowWKBReader rd;
  SIM_CHECK(GeoArrowWKBReaderInit(&rd) == 0, "init", "reader");
  for (auto& x : f) {
    if (x.null) continue;
    r.want.push_back(x);
    GeoArrowGeometryView view;
    if (how == 2) {
      std::string w = Wkb(x.g, GenWkbStyle());
      bytes.emplace_back(new char[w.size()]);
      memcpy(bytes.back().get(), w.data(), w.size());
      GeoArrowBufferView bv;
      bv.data = (const uint8_t*)bytes.back().get();
      bv.size_bytes = (int64_t)w.size();
      GeoArrowError err;
      SIM_CHECK(GeoArrowWKBReaderRead(&rd, bv, &view, &err) == 0, "read", "%s", err.message);
    } else {
      vb.emplace_back(new ViewBuilder());
      vb.back()->Build(x.g, true);
      view = vb.back()->view;
    }
    geoms.emplace_back(new GeoArrowGeometry(), freer);
    SIM_CHECK(GeoArrowGeometryInit(geoms.back().get()) == 0, "init", "geometry");
    int rc = how == 1 ? GeoArrowGeometryDeepCopy(view, geoms.back().get()) : GeoArrowGeometryShallowCopy(view, geoms.back().get());
    SIM_CHECK(rc == 0, "copy", "%d", rc);
  }
  for (auto& g : geoms) views.push_back(GeoArrowGeometryAsView(g.get()));
  r.bad.assign(r.want.size(), 0);
  r.what = how == 2 ? "view of WKB" : how == 1 ? "deep copy" : "view";
  r.visit = [&](int64_t off, int64_t len, GeoArrowVisitor* v) {
    for (int64_t i = off; i < off + len; i++) {
      int rc = whole ? GeoArrowGeometryVisit(geoms[i].get(), v) : GeoArrowGeometryViewVisit(views[i], v);
      if (rc) return rc;
    }
    return 0;
  };
  Episodes(r);
  GeoArrowWKBReaderReset(&rd);
}

static void Run() {
  GenOpts o = SwarmOpts(600);
  o.budget = std::min<uint32_t>(o.budget, 800);  // read again for every episode
  uint32_t n = DrawRows(o, 10);
  Source src;
  uint32_t kind = W({6, 5, 1, 2});
  if (kind == 0) {
    MakeArrays(src, SerializedType(D(6)), GenFeatures(o, n), 2);
  } else if (kind == 1) {
    o.only_type = 1 + D(6);
    o.only_dims = D4();
    MakeArrays(src, NativeType(o.only_type, o.only_dims, DrawCoordType()), GenFeatures(o, n), 2);
  } else if (kind == 2) {
    MakeBoxes(src, n, 2);
  } else {
    o.max_depth = std::min<uint32_t>(o.max_depth, 3);
    Views(GenFeatures(o, n));
    return;
  }
  Reader rd;
  int api = (int)D(3);
  if (api == 1 && IsBox(src.type)) api = 0;
  SIM_CHECK(rd.Init(src.type, api) == 0, "init", "reader: %s", rd.err.message);
  for (size_t a = 0; a < src.arrays.size(); a++) {
    Rows r;
    r.want = src.parts[a];
    r.bad.assign(r.want.size(), 0);
    r.what = TypeText(src.type) + "." + std::to_string(api);
    if (IsSerialized(src.type) && !r.want.empty() && B(2)) {  // malformed rows
      uint32_t m = 1 + D(2);
      auto& enc = src.enc[a];
      for (uint32_t k = 0; k < m; k++) {
        size_t i = D((uint32_t)r.want.size());
        if (r.want[i].null || !enc[i] || r.bad[i]) continue;
        std::string s = *enc[i];
        if (s.empty()) continue;
        if (D(2)) {
          s.resize(D((uint32_t)s.size()));
        } else if (IsWkt(src.type)) {
          s[D((uint32_t)s.size())] = "(),x9"[D(5)];
        } else {
          s[D(2) ? 0 : 1] = (char)(2 + D(250));
        }
        Geom g;
        size_t used;
        int ref = IsWkt(src.type) ? ParseWkt3(s, &g) : ParseWkb((const uint8_t*)s.data(), s.size(), &g, &used);
        if (ref != 1) continue;
        enc[i] = s;
        r.bad[i] = 1;
        sim::Note("row %zu made malformed: %.200s", i, IsWkt(src.type) ? s.c_str() : sim::Hex(s.data(), s.size()).c_str());
      }
      int bk = src.type == GEOARROW_TYPE_WKB || src.type == GEOARROW_TYPE_WKT ? BK_I32
               : src.type == GEOARROW_TYPE_LARGE_WKB || src.type == GEOARROW_TYPE_LARGE_WKT ? BK_I64 : BK_VIEW;
      src.arrays[a]->Release();
      src.arrays[a]->a = MakeBinary(enc, bk, GenArrOpts());
    }
    SIM_CHECK(rd.SetArray(&src.arrays[a]->a, src.enc[a]) == 0, "set-array", "%s", rd.err.message);
    r.visit = [&](int64_t off, int64_t len, GeoArrowVisitor* v) { return rd.Visit(off, len, v); };
    Episodes(r);
  }
}
SIM_PROPERTY("P08", Run, 250000, 8000000,
             "one run visits drawn rows through a drawn reader, injecting malformed rows and a visitor that returns a drawn "
             "code at a drawn callback, and compares every event stream with the model; non-trivial: a callback failed")

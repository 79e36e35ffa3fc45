// P09: writers survive any order of visitor callbacks.
#include "flow.h"
using namespace flow;

namespace {
enum Ev { FEAT_START, NULL_FEAT, GEOM_START, RING_START, COORDS, RING_END, GEOM_END, FEAT_END };
const char* kNames[] = {"feat_start", "null_feat", "geom_start", "ring_start", "coords", "ring_end", "geom_end", "feat_end"};
struct Call {
  int ev = 0, type = 0, dims = 0;
  std::vector<double> c;  // interleaved
  int nd = 2;
  int layout = 0;
};
struct Script {  // collects the callbacks of a well-formed feature
  GeoArrowVisitor v;
  std::vector<Call> calls;
  static Script* S(GeoArrowVisitor* v) { return (Script*)v->private_data; }
  static int Push(GeoArrowVisitor* v, int ev, int t = 0, int d = 0) {
    Call c;
    c.ev = ev;
    c.type = t;
    c.dims = d;
    S(v)->calls.push_back(c);
    return 0;
  }
  Script() {
    GeoArrowVisitorInitVoid(&v);
    v.private_data = this;
    v.feat_start = [](GeoArrowVisitor* v) { return Push(v, FEAT_START); };
    v.null_feat = [](GeoArrowVisitor* v) { return Push(v, NULL_FEAT); };
    v.geom_start = [](GeoArrowVisitor* v, GeoArrowGeometryType t, GeoArrowDimensions d) { return Push(v, GEOM_START, t, d); };
    v.ring_start = [](GeoArrowVisitor* v) { return Push(v, RING_START); };
    v.coords = [](GeoArrowVisitor* v, const GeoArrowCoordView* c) {
      Call k;
      k.ev = COORDS;
      k.nd = c->n_values;
      for (int64_t i = 0; i < c->n_coords; i++)
        for (int j = 0; j < c->n_values; j++) k.c.push_back(GEOARROW_COORD_VIEW_VALUE(c, i, j));
      S(v)->calls.push_back(k);
      return 0;
    };
    v.ring_end = [](GeoArrowVisitor* v) { return Push(v, RING_END); };
    v.geom_end = [](GeoArrowVisitor* v) { return Push(v, GEOM_END); };
    v.feat_end = [](GeoArrowVisitor* v) { return Push(v, FEAT_END); };
  }
};
int Send(const Call& c, GeoArrowVisitor* v) {
  switch (c.ev) {
    case FEAT_START: return v->feat_start(v);
    case NULL_FEAT: return v->null_feat(v);
    case GEOM_START: return v->geom_start(v, (enum GeoArrowGeometryType)c.type, (enum GeoArrowDimensions)c.dims);
    case RING_START: return v->ring_start(v);
    case RING_END: return v->ring_end(v);
    case GEOM_END: return v->geom_end(v);
    case FEAT_END: return v->feat_end(v);
    default: {
      CoordChunk ch;
      ch.Set(c.c.data(), c.c.size() / c.nd, c.nd, c.layout);
      return v->coords(v, &ch.view);
    }
  }
}
// A callback with arguments that need not agree with anything said before.
Call Chaos(int dims_hint) {
  Call c;
  c.ev = (int)W({3, 1, 6, 3, 6, 3, 5, 3});
  if (c.ev == GEOM_START) {
    c.type = 1 + (int)D(7);
    if (B(16)) c.type = GEOARROW_GEOMETRY_TYPE_GEOMETRY;
    if (B(24)) c.type = GEOARROW_GEOMETRY_TYPE_BOX;
    c.dims = D(3) ? dims_hint : D4();
    if (B(16)) c.dims = GEOARROW_DIMENSIONS_UNKNOWN;
  } else if (c.ev == COORDS) {
    c.nd = Nd(D(4) ? dims_hint : D4());
    uint32_t n = B(12) ? 60 + D(40) : Small(6);
    for (uint32_t i = 0; i < n * c.nd; i++) c.c.push_back(GenCoord(0));
    c.layout = (int)D(3);
  }
  return c;
}
struct Row {
  bool known = false;
  Feature f;
};

struct Target {
  Writer w;
  GeoArrowGeometry geom;
  bool is_geom = false;
  int gtype = 0, dims = XY;
  std::vector<Row> rows;
  bool open = false;       // a feature was started and not ended
  bool direct = false;     // rows were appended without the visitor
  std::string what;

  GeoArrowVisitor* V() { return &w.v; }

  int Step(const Call& c) {
    int rc = Send(c, V());
    Log("  %s %d/%d n=%zu -> %d", kNames[c.ev], c.type, c.dims, c.c.size() / c.nd, rc);
    Count((std::string("ev.") + kNames[c.ev] + (rc ? ".refused" : ".ok")).c_str());
    if (is_geom) return rc;
    if (c.ev == FEAT_START) open = rc == 0;
    if (c.ev == FEAT_END) {
      if (rc == 0) {
        SIM_CHECK(open, "row-from-nothing", "%s: feat_end without a started feature was accepted", what.c_str());
        rows.emplace_back();
        open = false;
      }
    }
    return rc;
  }
  bool Fitting(const Geom& g) {
    if (is_geom || !IsNative(w.type)) return true;
    return Fits(g.type, gtype);
  }
  void CheckRow(size_t i, const Feature& got, const std::optional<std::string>& text) {
    const Row& r = rows[i];
    if (!r.known) return;
    SIM_CHECK(got.null == r.f.null, "wrong-row", "%s: row %zu null=%d", what.c_str(), i, (int)got.null);
    if (got.null) return;
    bool same;
    Feature want = r.f;
    if (IsWkt(w.type)) {
      same = CloseGeom(want.g, got.g, w.precision);
    } else if (w.type == GEOARROW_TYPE_WKB) {
      same = Key(want) == Key(got);
    } else {
      want.g = Normal(ToNative(want.g, gtype, dims));
      Feature g2 = got;
      g2.g = Normal(g2.g);
      same = Key(want) == Key(g2);
    }
    SIM_CHECK(same, "wrong-row", "%s: row %zu is %.400s (%.200s), wrote %.400s", what.c_str(), i, Show(got).c_str(),
              text ? text->c_str() : "", Show(want).c_str());
  }
  void Finish() {
    Arr out;
    int rc = w.Finish(&out.a);
    Log("finish -> %d, %zu rows", rc, rows.size());
    Count(rc ? "op.finish_refused" : "op.finish");
    SIM_CHECK(rc == 0, "finish", "%s: finish after %zu rows returned %d", what.c_str(), rows.size(), rc);
    CheckArrayShape(&out.a, (int64_t)rows.size(), what.c_str());
    if (IsNative(w.type)) {
      Features f = DecodeNative(w.type, &out.a, what.c_str());
      for (size_t i = 0; i < rows.size(); i++) CheckRow(i, f[i], std::nullopt);
    } else {
      auto b = DecodeBinary(&out.a, what.c_str());
      for (size_t i = 0; i < rows.size(); i++) {
        if (!rows[i].known) continue;
        Feature f;
        f.null = !b[i];
        if (b[i]) {
          size_t used = 0;
          bool ok = IsWkt(w.type) ? ParseWkt(*b[i], &f.g)
                                  : ParseWkb((const uint8_t*)b[i]->data(), b[i]->size(), &f.g, &used) == 0 && used == b[i]->size();
          SIM_CHECK(ok, "wrong-row", "%s: row %zu is not well-formed: %.400s", what.c_str(), i,
                    IsWkt(w.type) ? b[i]->c_str() : sim::Hex(b[i]->data(), b[i]->size(), 200).c_str());
        }
        CheckRow(i, f, b[i]);
      }
    }
    rows.clear();
    open = false;
  }
  // A geometry object that ended a feature must be readable as a whole.
  void CheckGeom(const Feature* want) {
    GeoArrowGeometryView view = GeoArrowGeometryAsView(&geom);
    Recorder rec;
    rec.check = false;
    rec.keep = want != nullptr;
    int rc = GeoArrowGeometryVisit(&geom, &rec.v);
    GeoArrowGeometry copy;
    SIM_CHECK(GeoArrowGeometryInit(&copy) == 0, "init", "geometry");
    int crc = GeoArrowGeometryDeepCopy(view, &copy);
    GeoArrowGeometryReset(&copy);
    if (want) {
      SIM_CHECK(rc == 0 && crc == 0, "wrong-row", "%s: visiting the object returned %d, copying it %d", what.c_str(), rc, crc);
      SIM_CHECK(rec.out.size() == 1, "wrong-row", "%s: %zu features", what.c_str(), rec.out.size());
      ExpectFeature(*want, rec.out[0], "wrong-row", what.c_str(), 0);
    }
  }
};

std::vector<Call> Calls(const Feature& f) {
  Script s;
  EmitFeature(f, &s.v, true);
  for (auto& c : s.calls) c.layout = (int)D(3);
  return s.calls;
}
void Mutate(std::vector<Call>& c, int dims) {
  uint32_t n = 1 + D(3);
  for (uint32_t k = 0; k < n && !c.empty(); k++) {
    uint32_t i = D((uint32_t)c.size());
    switch (D(6)) {
      case 0: c.erase(c.begin() + i); break;
      case 1: c.insert(c.begin() + i, Call(c[i])); break;
      case 2: c.insert(c.begin() + i, Chaos(dims)); break;
      case 3: std::swap(c[i], c[D((uint32_t)c.size())]); break;
      case 4: c.resize(i); break;
      default: {
        uint32_t reps = 1 + D(40);  // deep nesting or many copies of one callback
        Call x = c[i];
        c.insert(c.begin() + i, reps, x);
      }
    }
  }
}
}  // namespace

static void Run() {
  Target t;
  uint32_t kind = W({3, 3, 6, 3});
  int which = (int)D(3);
  int dims_hint = D4();
  GenOpts o = SwarmOpts(600);
  o.max_depth = 3;
  if (kind == 3) {
    t.is_geom = true;
    memset(&t.geom, sim::Fill(), sizeof t.geom);
    SIM_CHECK(GeoArrowGeometryInit(&t.geom) == 0, "init", "geometry");
    memset(&t.w.v, 0, sizeof t.w.v);
    GeoArrowVisitorInitVoid(&t.w.v);
    t.w.v.error = &t.w.err;
    t.w.err.message[0] = 0;
    GeoArrowGeometryInitVisitor(&t.geom, &t.w.v);
    t.what = "geometry object";
  } else {
    enum GeoArrowType ty = kind == 0 ? GEOARROW_TYPE_WKT : GEOARROW_TYPE_WKB;
    if (kind == 2) {
      t.gtype = 1 + (int)D(6);
      t.dims = dims_hint;
      ty = NativeType(t.gtype, dims_hint, DrawCoordType());
    }
    SIM_CHECK(t.w.Init(ty, which) == 0, "init", "writer");
    if (kind == 0 && D(2)) t.w.SetText((int)D(17), (int)D(2), -1);
    SIM_CHECK(t.w.InitVisitor() == 0, "init", "visitor");
    t.what = TypeText(ty) + " writer";
  }
  Log("%s", t.what.c_str());
  uint32_t moves = 1 + Small(20);
  bool chaos = false;
  for (uint32_t m = 0; m < moves; m++) {
    switch (W({4, 4, 4, 3, t.is_geom ? 0u : 2u, t.is_geom || kind == 0 ? 0u : 2u})) {
      case 0: {  // arbitrary callbacks
        uint32_t n = 1 + Small(30);
        for (uint32_t i = 0; i < n; i++) {
          Call c = Chaos(dims_hint);
          int rc = t.Step(c);
          if (t.is_geom && c.ev == FEAT_END && rc == 0) t.CheckGeom(nullptr);
          if (rc && D(4) == 0) break;
        }
        chaos = true;
        Count("fault.chaos");
        break;
      }
      case 1: {  // a well-formed feature that fits
        Feature f;
        if (t.gtype) {
          GenOpts p = o;
          static const int fit[] = {0, 1, 2, 3, 1, 2, 3};
          p.only_type = D(3) || t.gtype < MPT ? t.gtype : fit[t.gtype];
          p.collections = false;
          f = GenFeature(p);
        } else {
          f = GenFeature(o);
        }
        if (t.is_geom && f.null) break;
        Log("feature %s", Show(f).c_str());
        auto calls = Calls(f);
        bool ok = true;
        for (auto& c : calls) {
          int rc = t.Step(c);
          if (rc != 0)
            Fail("refused", "%s: %s of the well-formed feature %.500s was refused with %d (%s)", t.what.c_str(), kNames[c.ev],
                 Show(f).c_str(), rc, t.w.err.message);
          ok &= rc == 0;
        }
        if (t.is_geom)
          t.CheckGeom(&f);
        else if (ok && !t.rows.empty())
          t.rows.back().known = true, t.rows.back().f = f;
        if (chaos) sim::NonTrivial();
        break;
      }
      case 2: {  // a well-formed feature with callbacks dropped, repeated, swapped
        Feature f = GenFeature(o);
        auto calls = Calls(f);
        Mutate(calls, dims_hint);
        bool stop = D(2);
        for (auto& c : calls) {
          int rc = t.Step(c);
          if (t.is_geom && c.ev == FEAT_END && rc == 0) t.CheckGeom(nullptr);
          if (rc && stop) break;
        }
        chaos = true;
        Count("fault.mutated");
        break;
      }
      case 3: {  // a well-formed feature of any type; stops at the first error
        GenOpts p;
        Feature f = GenFeature(p);
        if (t.is_geom && f.null) break;
        Log("any feature %s", Show(f).c_str());
        auto calls = Calls(f);
        for (auto& c : calls)
          if (t.Step(c)) {
            Count("fault.not_representable");
            break;
          }
        break;
      }
      case 4:
        t.Finish();
        if (D(2)) SIM_CHECK(t.w.InitVisitor() == 0, "init", "visitor");
        break;
      default: {  // rows appended directly between visited ones
        if (which != 2) break;
        GenOpts p = o;
        p.empties = false;
        p.empty_points_in_multi = false;
        if (t.gtype) p.only_type = t.gtype, p.collections = false;
        Feature f = GenFeature(p);
        if (f.null && !D(2)) break;
        int rc;
        if (f.null) {
          rc = kind == 1 ? GeoArrowWKBWriterAppendNull(&t.w.wkb) : GeoArrowNativeWriterAppendNull(&t.w.nat);
        } else {
          ViewBuilder vb;
          vb.Build(f.g, true);
          rc = kind == 1 ? GeoArrowWKBWriterAppend(&t.w.wkb, vb.view) : GeoArrowNativeWriterAppend(&t.w.nat, vb.view, &t.w.err);
        }
        Log("append %s -> %d", Show(f).c_str(), rc);
        SIM_CHECK(rc == 0, "refused", "%s: appending %.400s returned %d", t.what.c_str(), Show(f).c_str(), rc);
        t.open = false;
        t.rows.emplace_back();
        t.rows.back().known = true;
        t.rows.back().f = f;
        Count("op.direct_append");
      }
    }
    sim::State(sim::Mix(kind * 8 + t.gtype, sim::Mix(t.rows.size(), t.open)));
  }
  if (t.is_geom) {
    GeoArrowGeometryReset(&t.geom);
  } else {
    if (D(4)) t.Finish();
    t.w.Reset();
  }
}
SIM_PROPERTY("P09", Run, 700000, 4000000,
             "A run counts when a well-formed feature followed callbacks in a drawn illegal order");

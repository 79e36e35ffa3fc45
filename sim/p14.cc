// P14: geometry objects copy, assign and visit faithfully.
#include "flow.h"
using namespace flow;

namespace {
struct Slot {
  GeoArrowGeometry g;
  bool known = false;          // content predicted
  bool blank = true;           // initialised, holds nothing
  Feature f;
  std::shared_ptr<ViewBuilder> keep;     // storage a shallow copy points into
  std::shared_ptr<std::string> bytes;
  int on = -1;                 // shallow copy of that slot
};
int Levels(const Geom& g) {
  int m = 0;
  for (auto& k : g.kids) m = std::max(m, Levels(k));
  return m + 1;
}
struct World {
  static const int N = 3;
  Slot s[N];
  GeoArrowError err;
  std::string Name(int i) { return std::string("slot ") + (char)('0' + i); }
  // everything that points into i is unknown from now on
  void Touch(int i) {
    for (int j = 0; j < N; j++)
      if (j != i && s[j].known && s[j].on == i) s[j].known = false;
    s[i].known = s[i].blank = false;
    s[i].on = -1;
  }
  void Check(int i, const char* when) {
    Slot& x = s[i];
    GeoArrowGeometryView view = GeoArrowGeometryAsView(&x.g);
    if (x.blank) {
      SIM_CHECK(view.size_nodes == 0, "not-empty", "%s: %s has %lld nodes", when, Name(i).c_str(), (long long)view.size_nodes);
      if (D(2)) {
        Recorder rec(&err);
        SIM_CHECK(GeoArrowGeometryVisit(&x.g, &rec.v) != 0 && rec.n_calls <= 1, "visit", "%s: visiting an object without nodes succeeded", when);
      }
      return;
    }
    if (!x.known) return;
    Recorder rec(&err);
    err.message[0] = 0;
    int rc = D(2) ? GeoArrowGeometryVisit(&x.g, &rec.v) : GeoArrowGeometryViewVisit(view, &rec.v);
    SIM_CHECK(rc == 0, "visit", "%s: visiting %s: %d %s; holds %s", when, Name(i).c_str(), rc, err.message, Show(x.f).c_str());
    SIM_CHECK(rec.out.size() == 1 && Key(rec.out[0]) == Key(x.f), "wrong-geometry", "%s: %s was visited as %.600s but holds %.600s", when,
              Name(i).c_str(), rec.out.empty() ? "nothing" : Show(rec.out[0]).c_str(), Show(x.f).c_str());
    if (x.f.null) return;
    Geom got;
    SIM_CHECK(ReadView(view, &got), "bad-view", "%s: nodes of %s are not well-formed (%lld nodes); holds %s", when, Name(i).c_str(),
              (long long)view.size_nodes, Show(x.f).c_str());
    SIM_CHECK(Key(got) == Key(x.f.g), "wrong-geometry", "%s: nodes of %s hold %.600s but should hold %.600s", when, Name(i).c_str(),
              Show(got).c_str(), Show(x.f).c_str());
    SIM_CHECK(GeoArrowGeometryViewNumCoords(view) == x.f.g.coords(), "num-coords", "%s: %u coordinates in %s", when,
              GeoArrowGeometryViewNumCoords(view), Show(x.f).c_str());
    for (int64_t k = 0; k < view.size_nodes; k++)
      for (int j = 0; j < 4; j++) {
        double d;  // documented: always safe to access one value
        memcpy(&d, view.root[k].coords[j], sizeof d);
      }
  }
  void CheckAll(const char* when) {
    for (int i = 0; i < N; i++) Check(i, when);
  }
};
void Flatten(const Geom& g, std::vector<double>* out, int dims) {
  if (g.leaf()) {
    Geom m = MapDims(g, dims);
    out->insert(out->end(), m.c.begin(), m.c.end());
  }
  for (auto& k : g.kids) Flatten(k, out, dims);
}
bool BitEq(double a, double b) { return memcmp(&a, &b, 8) == 0 || (std::isnan(a) && std::isnan(b)); }
}  // namespace

static void Run() {
  World w;
  GenOpts o = SwarmOpts(600);
  for (auto& x : w.s) SIM_CHECK(GeoArrowGeometryInit(&x.g) == 0, "init", "geometry");
  GeoArrowWKBReader wkbr;
  GeoArrowWKTReader wktr;
  SIM_CHECK(GeoArrowWKBReaderInit(&wkbr) == 0 && GeoArrowWKTReaderInit(&wktr) == 0, "init", "reader");
  auto draw = [&]() {
    Feature f = GenFeature(o);
    if (!f.null && B(12)) {  // deep
      uint32_t n = 20 + D(16);
      Geom g = f.g;
      for (uint32_t i = 0; i < n; i++) {
        Geom c;
        c.type = GC;
        c.dims = g.dims;
        c.kids.push_back(g);
        if (B(4)) {
          Geom p;
          p.dims = g.dims;
          c.kids.push_back(p);
        }
        g = c;
      }
      f.g = g;
    }
    return f;
  };
  uint32_t ops = 2 + D(14);
  for (uint32_t op = 0; op < ops; op++) {
    int i = (int)D(World::N);
    Slot& x = w.s[i];
    const char* what = "";
    switch (W({5, 2, 3, 3, 2, 2, 2, 2, 1})) {
      case 0: {
        what = "build by events";
        Feature f = draw();
        w.Touch(i);
        GeoArrowVisitor v;
        GeoArrowVisitorInitVoid(&v);
        GeoArrowGeometryInitVisitor(&x.g, &v);
        v.error = &w.err;
        w.err.message[0] = 0;
        if (B(5)) {  // an abandoned build first
          Feature part = draw();
          Recorder rec;
          rec.forward = &v;
          rec.check = false;
          rec.fail_at = D(12);
          rec.fail_code = EINVAL;
          EmitFeature(part, &rec.v, true);
          Count("fault.abandoned_build");
        }
        int rc = EmitFeature(f, &v, true);
        int lv = f.null ? 1 : Levels(f.g);
        Log("%u: %s %s: %d levels -> %d", op, w.Name(i).c_str(), what, lv, rc);
        sim::Note("%s", Show(f).c_str());
        if (lv > 31) {
          SIM_CHECK(rc == EINVAL && w.err.message[0], "depth", "%d levels: %d %s", lv, rc, w.err.message);
          break;
        }
        SIM_CHECK(rc == 0, "build", "building %s: %d %s", Show(f).c_str(), rc, w.err.message);
        x.f = f;
        x.known = true;
        break;
      }
      case 1: {
        what = "build by reading";
        Feature f = draw();
        if (f.null) break;
        int lv = Levels(f.g);
        w.Touch(i);
        GeoArrowVisitor v;
        GeoArrowVisitorInitVoid(&v);
        GeoArrowGeometryInitVisitor(&x.g, &v);
        v.error = &w.err;
        int rc;
        if (D(2)) {
          std::string s = Wkb(f.g, GenWkbStyle());
          GeoArrowBufferView bv;
          bv.data = (const uint8_t*)s.data();
          bv.size_bytes = (int64_t)s.size();
          rc = GeoArrowWKBReaderVisit(&wkbr, bv, &v);
          size_t used;
          ParseWkb((const uint8_t*)s.data(), s.size(), &f.g, &used);
        } else {
          std::string s = Wkt(f.g, WktStyle());
          if (!ParseWkt(s, &f.g)) lv = Levels(f.g);
          GeoArrowStringView sv;
          sv.data = s.data();
          sv.size_bytes = (int64_t)s.size();
          rc = GeoArrowWKTReaderVisit(&wktr, sv, &v);
        }
        Log("%u: %s %s: %d levels -> %d", op, w.Name(i).c_str(), what, lv, rc);
        if (lv > 31) {
          SIM_CHECK(rc == EINVAL, "depth", "%d levels: %d", lv, rc);
          break;
        }
        SIM_CHECK(rc == 0, "build", "reading %s: %d %s", Show(f).c_str(), rc, w.err.message);
        x.f = f;
        x.known = true;
        break;
      }
      case 2: {  // copy of foreign storage
        Feature f = draw();
        if (f.null || Levels(f.g) > 200) break;
        bool deep = D(3) != 2;
        what = deep ? "deep copy of a view" : "shallow copy of a view";
        auto vb = std::make_shared<ViewBuilder>();
        std::shared_ptr<std::string> bytes;
        GeoArrowGeometryView view;
        if (D(3) == 2) {
          bytes = std::make_shared<std::string>(Wkb(f.g, GenWkbStyle()));
          GeoArrowBufferView bv;
          bv.data = (const uint8_t*)bytes->data();
          bv.size_bytes = (int64_t)bytes->size();
          size_t used;
          ParseWkb((const uint8_t*)bytes->data(), bytes->size(), &f.g, &used);
          SIM_CHECK(GeoArrowWKBReaderRead(&wkbr, bv, &view, &w.err) == 0, "read", "%s", w.err.message);
        } else {
          vb->Build(f.g, true);
          view = vb->view;
        }
        w.Touch(i);
        int rc = deep ? GeoArrowGeometryDeepCopy(view, &x.g) : GeoArrowGeometryShallowCopy(view, &x.g);
        Log("%u: %s %s %d nodes -> %d", op, w.Name(i).c_str(), what, (int)view.size_nodes, rc);
        SIM_CHECK(rc == 0, "copy", "%s: %d", what, rc);
        sim::Note("%s", Show(f).c_str());
        x.f = f;
        x.known = true;
        if (deep) {
          if (bytes) {
            memset(&(*bytes)[0], 0xEE, bytes->size());
          } else {
            for (size_t k = 0; k < vb->bufs.size(); k++) vb->bufs[k].reset();
            memset((void*)vb->nodes.data(), 0xEE, vb->nodes.size() * sizeof vb->nodes[0]);
          }
          Count("fault.source_gone_after_deep_copy");
        } else {
          x.keep = vb;
          x.bytes = bytes;
        }
        break;
      }
      case 3: {  // copy between objects
        int j = (int)D(World::N);
        if (j == i) break;
        bool deep = D(3) != 2;
        if (!w.s[j].known && !w.s[j].blank) break;
        Feature f = w.s[j].f;
        bool was_blank = w.s[j].blank;
        GeoArrowGeometryView view = GeoArrowGeometryAsView(&w.s[j].g);
        what = deep ? "deep copy" : "shallow copy";
        // a shallow copy of i held by j would be lost
        if (w.s[j].on == i) break;
        w.Touch(i);
        int rc = deep ? GeoArrowGeometryDeepCopy(view, &x.g) : GeoArrowGeometryShallowCopy(view, &x.g);
        Log("%u: %s of slot %d to slot %d -> %d", op, what, j, i, rc);
        SIM_CHECK(rc == 0, "copy", "%s: %d", what, rc);
        x.known = !was_blank;
        x.blank = was_blank;
        x.f = f;
        if (!deep) {
          x.on = w.s[j].on >= 0 ? w.s[j].on : j;
          x.keep = w.s[j].keep;
          x.bytes = w.s[j].bytes;
        }
        break;
      }
      case 4: {
        what = "reset and init";
        w.Touch(i);
        GeoArrowGeometryReset(&x.g);
        memset(&x.g, sim::Fill(), sizeof x.g);
        SIM_CHECK(GeoArrowGeometryInit(&x.g) == 0, "init", "geometry");
        x.blank = true;
        Log("%u: reset %d", op, i);
        break;
      }
      case 5: {  // appended to a WKB writer
        if (!x.known || x.f.null) break;
        what = "append to WKB";
        GeoArrowWKBWriter wr;
        SIM_CHECK(GeoArrowWKBWriterInit(&wr) == 0, "init", "writer");
        uint32_t before = D(3);
        for (uint32_t k = 0; k < before; k++) SIM_CHECK(GeoArrowWKBWriterAppendNull(&wr) == 0, "append", "null");
        SIM_CHECK(GeoArrowWKBWriterAppend(&wr, GeoArrowGeometryAsView(&x.g)) == 0, "append", "%s", Show(x.f).c_str());
        if (D(2)) {
          SIM_CHECK(GeoArrowWKBWriterAppendNull(&wr) == 0, "append", "null");
        }
        Arr a;
        SIM_CHECK(GeoArrowWKBWriterFinish(&wr, &a.a, &w.err) == 0, "finish", "%s", w.err.message);
        GeoArrowWKBWriterReset(&wr);
        Features want(before);
        want.push_back(x.f);
        if (a.a.length > (int64_t)want.size()) want.emplace_back();
        CheckArrayShape(&a.a, (int64_t)want.size(), "WKB");
        auto enc = DecodeBinary(&a.a, "WKB");
        for (size_t k = 0; k < want.size(); k++) {
          SIM_CHECK(want[k].null == !enc[k], "append", "null of row %zu", k);
          if (want[k].null) continue;
          Geom g;
          size_t used = 0;
          int ref = ParseWkb((const uint8_t*)enc[k]->data(), enc[k]->size(), &g, &used);
          SIM_CHECK(ref != 1 && used == enc[k]->size() && Key(g) == Key(x.f.g), "append", "%s was written as %s (%s)", Show(x.f).c_str(),
                    Show(g).c_str(), sim::Hex(enc[k]->data(), enc[k]->size(), 200).c_str());
        }
        Log("%u: %s %d", op, what, i);
        break;
      }
      case 6: {  // appended to a native writer
        if (!x.known || x.f.null || x.f.g.type == GC) break;
        int t = x.f.g.type;
        if (t <= 3 && D(2)) t += 3;
        int dims = D4();
        enum GeoArrowType ty = NativeType(t, dims, DrawCoordType());
        what = "append to native";
        GeoArrowNativeWriter wr;
        SIM_CHECK(GeoArrowNativeWriterInit(&wr, ty) == 0, "init", "writer");
        uint32_t before = D(3);
        for (uint32_t k = 0; k < before; k++) SIM_CHECK(GeoArrowNativeWriterAppendNull(&wr) == 0, "append", "null");
        uint32_t times = 1 + D(2);
        Features want(before);
        for (uint32_t k = 0; k < times; k++) {
          SIM_CHECK(GeoArrowNativeWriterAppend(&wr, GeoArrowGeometryAsView(&x.g), &w.err) == 0, "append", "%s to %s: %s", Show(x.f).c_str(),
                    TypeText(ty).c_str(), w.err.message);
          Feature f = x.f;
          f.g = ToNative(f.g, t, dims);
          want.push_back(f);
        }
        Arr a;
        SIM_CHECK(GeoArrowNativeWriterFinish(&wr, &a.a, &w.err) == 0, "finish", "%s", w.err.message);
        GeoArrowNativeWriterReset(&wr);
        CheckArrayShape(&a.a, (int64_t)want.size(), "native");
        ExpectFeatures(NormalAll(want), NormalAll(DecodeArray(ty, &a.a, "native")), "append", TypeText(ty).c_str());
        Log("%u: %s %s %d", op, what, TypeText(ty).c_str(), i);
        break;
      }
      case 7: {  // coordinates copied out
        if (!x.known || x.f.null) break;
        what = "copy coordinates";
        int dims = D4(), nd = Nd(dims);
        std::vector<double> want;
        Flatten(x.f.g, &want, dims);
        size_t n = want.size() / nd;
        std::unique_ptr<double[]> out(new double[want.size()]);
        uint8_t* p[4];
        int32_t st[4];
        bool inter = D(2);
        for (int j = 0; j < nd; j++) {
          p[j] = (uint8_t*)(out.get() + (inter ? j : j * n));
          st[j] = inter ? nd * 8 : 8;
        }
        GeoArrowGeometryViewCopyCoordsGeneric(GeoArrowGeometryAsView(&x.g), p, st, (enum GeoArrowDimensions)dims);
        for (size_t k = 0; k < n; k++)
          for (int j = 0; j < nd; j++) {
            double got = out[inter ? k * nd + j : j * n + k];
            SIM_CHECK(BitEq(got, want[k * nd + j]), "coords", "ordinate %d of coordinate %zu is %g instead of %g in %s as %s", j, k, got,
                      want[k * nd + j], Show(x.f).c_str(), DimsName(dims));
          }
        Log("%u: %s %d", op, what, i);
        break;
      }
      default: {  // assembled by hand, sharing the harness's coordinates
        Feature f = draw();
        if (f.null) break;
        what = "assemble";
        auto vb = std::make_shared<ViewBuilder>();
        vb->Build(f.g, true);
        w.Touch(i);
        SIM_CHECK(GeoArrowGeometryResizeNodes(&x.g, 0) == 0, "assemble", "resize");
        for (auto& n : vb->nodes) {
          GeoArrowGeometryNode* out = nullptr;
          int rc = D(2) ? GeoArrowGeometryAppendNode(&x.g, &out) : GeoArrowGeometryAppendNodeInline(&x.g, &out);
          SIM_CHECK(rc == 0 && out == x.g.root + x.g.size_nodes - 1, "assemble", "append node: %d", rc);
          for (int j = 0; j < 4; j++) {
            double d;
            memcpy(&d, out->coords[j], 8);
            SIM_CHECK(std::isnan(d), "assemble", "a fresh node's ordinate %d is %g", j, d);
          }
          SIM_CHECK(out->size == 0 && out->geometry_type == 0 && out->flags == 0, "assemble", "a fresh node is not blank");
          *out = n;
        }
        Log("%u: assemble %d with %zu nodes", op, i, vb->nodes.size());
        x.keep = vb;
        x.f = f;
        x.known = true;
      }
    }
    if (*what) Count((std::string("op.") + what).c_str());
    w.Check(i, what);
    if (B(3)) w.CheckAll(what);
    sim::State(sim::Mix(sim::HashBytes(what, strlen(what)), x.f.g.type * 8 + x.known * 2 + x.blank));
  }
  w.CheckAll("at the end");
  sim::NonTrivial();
  for (auto& x : w.s) GeoArrowGeometryReset(&x.g);
  GeoArrowWKBReaderReset(&wkbr);
  GeoArrowWKTReaderReset(&wktr);
}
SIM_PROPERTY("P14", Run, 120000, 8000000,
             "one run drives a drawn history of building, copying, resetting, appending and visiting over three geometry objects "
             "and compares every object with the model after each operation")

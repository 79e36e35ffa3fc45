// P15: the C++ interface agrees with the C interface.
#include <new>
#include "hppcheck.h"
using namespace p15;
static void Dispatch(const GeoArrowArrayView* view, const Features* f, enum GeoArrowType type) {
  GEOARROW_DISPATCH_NATIVE_ARRAY_CALL(type, NativeCase, view, f, type);
}
static enum GeoArrowType AnyNative() { return NativeType(1 + (int)D(6), D4(), DrawCoordType()); }
static GenOpts Opts(int gt, int dims) {
  GenOpts o = SwarmOpts(600);
  o.only_type = gt;
  o.only_dims = dims;
  return o;
}
static void Native() {
  enum GeoArrowType type = AnyNative();
  TypeParts p = Parts(type);
  Features f = GenFeatures(Opts(p.gtype, p.dims), Small(10));
  Arr a(MakeSource(type, f, GenArrOpts()));
  Log("%s, %zu rows", TypeText(type).c_str(), f.size());
  for (auto& x : f) sim::Note("%s", Show(x).c_str());
  // through the reader wrapper or the C view
  GeoArrowArrayView cview;
  std::unique_ptr<geoarrow::ArrayReader> r;
  const GeoArrowArrayView* view = &cview;
  if (D(2)) {
    SIM_CHECK(GeoArrowArrayViewInitFromType(&cview, type) == 0, "init", "view");
    SIM_CHECK(GeoArrowArrayViewSetArray(&cview, &a.a, nullptr) == 0, "init", "set array");
  } else {
    r.reset(new geoarrow::ArrayReader(type));
    bool before = D(2);
    if (before) r->View();
    if (D(2))
      r->SetArrayNonOwning(&a.a);
    else
      r->SetArray(&a.a);
    SIM_CHECK(r->View().is_valid(), "view", "an initialised view is not valid");
    view = r->View().array_view();
  }
  Dispatch(view, &f, type);
  int levels = p.gtype == PT ? 0 : p.gtype == LS || p.gtype == MPT ? 1 : p.gtype == MPG ? 3 : 2;
  switch (D(6)) {
    case 0:
      TryXY<au::PointArray<CXY>>(view, f, p, levels, 0);
      break;
    case 1:
      TryXY<au::LinestringArray<CXY>>(view, f, p, levels, 1);
      break;
    case 2:
      TryXY<au::PolygonArray<CXY>>(view, f, p, levels, 2);
      break;
    case 3:
      TryXY<au::MultipointArray<CXY>>(view, f, p, levels, 1);
      break;
    case 4:
      TryXY<au::MultiLinestringArray<CXY>>(view, f, p, levels, 2);
      break;
    default:
      TryXY<au::MultiPolygonArray<CXY>>(view, f, p, levels, 3);
  }
  sim::State(sim::Mix((uint64_t)type, sim::Mix(f.size(), levels)));
  if (f.size() > 1) sim::NonTrivial();
}

// ---- boxes
template <class C>
static void BoxCheck(au::BoxArray<C>& a, const std::vector<std::optional<std::vector<double>>>& v, const char* what) {
  size_t nd = C().size(), n = v.size();
  auto low = a.LowerBound(), up = a.UpperBound();
  SIM_CHECK(a.value.size() == (int64_t)n && low.value.size() == (int64_t)n && up.value.size() == (int64_t)n, "size", "%s", what);
  for (size_t i = 0; i < n; i++) {
    SIM_CHECK(a.is_null((int64_t)i) == !v[i] && low.is_null((int64_t)i) == !v[i] && up.is_valid((int64_t)i) == !!v[i], "null", "%s: row %zu", what, i);
    if (!v[i]) continue;
    auto b = a.value.coord((int64_t)i);
    C lo = low.value.coord((int64_t)i), hi = up.value.coord((int64_t)i), lo2 = b.lower_bound(), hi2 = b.upper_bound();
    for (size_t j = 0; j < nd; j++) {
      SIM_CHECK(Bits(lo[j]) == Bits((*v[i])[j]) && Bits(lo2[j]) == Bits(lo[j]), "box", "%s: lower bound %zu of row %zu is %.17g/%.17g instead of %.17g", what, j,
                i, lo[j], lo2[j], (*v[i])[j]);
      SIM_CHECK(Bits(hi[j]) == Bits((*v[i])[nd + j]) && Bits(hi2[j]) == Bits(hi[j]), "box", "%s: upper bound %zu of row %zu is %.17g/%.17g instead of %.17g",
                what, j, i, hi[j], hi2[j], (*v[i])[nd + j]);
    }
    bool z = C::dimensions == GEOARROW_DIMENSIONS_XYZ || C::dimensions == GEOARROW_DIMENSIONS_XYZM;
    bool m = C::dimensions == GEOARROW_DIMENSIONS_XYM || C::dimensions == GEOARROW_DIMENSIONS_XYZM;
    double inf = INFINITY;
    SIM_CHECK(Bits(b.xmin()) == Bits(lo.x()) && Bits(b.ymin()) == Bits(lo.y()) && Bits(b.xmax()) == Bits(hi.x()) && Bits(b.ymax()) == Bits(hi.y()) &&
                  Bits(b.zmin()) == Bits(z ? lo.z() : inf) && Bits(b.mmin()) == Bits(m ? lo.m() : inf) && Bits(b.zmax()) == Bits(z ? hi.z() : -inf) &&
                  Bits(b.mmax()) == Bits(m ? hi.m() : -inf),
              "box", "%s: accessors of row %zu", what, i);
  }
  auto e = C::box_type::Empty();
  for (size_t j = 0; j < nd; j++)
    SIM_CHECK(e[j] == INFINITY && e[nd + j] == -INFINITY, "box", "the empty box of %zu dimensions has bounds %g and %g", nd, e[j], e[nd + j]);
  // vertices of the bounds skip the null rows
  Verts want, got;
  for (auto& x : v)
    if (x) {
      std::array<double, 4> r = {NAN, NAN, NAN, NAN};
      for (size_t j = 0; j < nd; j++) r[j] = (*x)[nd + j];
      want.push_back(r);
    }
  up.template VisitVertices<C>([&](C c) { got.push_back(SeenCoord(c)); });
  Same(want, got, "box", what);
  Count("check.box");
}
template <class C>
static void Box(int dims) {
  size_t n = Small(8), nd = C().size();
  std::vector<std::optional<std::vector<double>>> v;
  bool nulls = D(2);
  for (size_t i = 0; i < n; i++) {
    if (nulls && D(4) == 0) {
      v.push_back(std::nullopt);
      continue;
    }
    std::vector<double> b;
    for (size_t j = 0; j < 2 * nd; j++) b.push_back(GenCoord((int)D(3)));
    v.push_back(b);
  }
  static const enum GeoArrowType t[] = {GEOARROW_TYPE_UNINITIALIZED, GEOARROW_TYPE_BOX, GEOARROW_TYPE_BOX_Z, GEOARROW_TYPE_BOX_M, GEOARROW_TYPE_BOX_ZM};
  Arr arr(MakeBox(dims, v, GenArrOpts()));
  GeoArrowArrayView view;
  SIM_CHECK(GeoArrowArrayViewInitFromType(&view, t[dims]) == 0, "init", "box view");
  SIM_CHECK(GeoArrowArrayViewSetArray(&view, &arr.a, nullptr) == 0, "init", "set array");
  au::BoxArray<C> a;
  SIM_CHECK(a.Init(&view) == 0, "init", "box array");
  Log("box %d, %zu rows", dims, n);
  BoxCheck(a, v, "box");
  for (uint32_t k = D(3); k > 0; k--) {
    size_t o = D((uint32_t)v.size() + 1), l = D((uint32_t)(v.size() - o) + 1);
    a = a.Slice((int64_t)o, (int64_t)l);
    v = {v.begin() + (long)o, v.begin() + (long)(o + l)};
    BoxCheck(a, v, "slice of boxes");
  }
}
static void Boxes() {
  switch (D(4)) {
    case 0:
      return Box<CXY>(XY);
    case 1:
      return Box<CXYZ>(XYZ);
    case 2:
      return Box<CXYM>(XYM);
    default:
      return Box<CXYZM>(XYZM);
  }
}

// ---- WKB arrays
static void CheckWkb(wu::WKBArray<int32_t>& a, const Features& f, const std::vector<std::optional<std::string>>& enc, const char* what) {
  size_t n = f.size();
  SIM_CHECK(a.value.end() - a.value.begin() == (int64_t)n, "size", "%s", what);
  auto it = a.value.begin();
  for (size_t i = 0; i < n; i++) {
    SIM_CHECK(a.is_null((int64_t)i) == f[i].null && a.is_valid((int64_t)i) == !f[i].null, "null", "%s: row %zu", what, i);
    if (!f[i].null) {
      GeoArrowBufferView b = a.value.blob((int64_t)i);
      SIM_CHECK(std::string((const char*)b.data, (size_t)b.size_bytes) == *enc[i], "blob", "%s: row %zu", what, i);
      Compare(f[i], Filled(HppGeom(*it)), what, i);
    }
    ++it;
  }
  Verts v, e;
  for (auto& x : f)
    if (!x.null) {
      ModelVerts(x.g, 0, &v);
      ModelEdges(x.g, 0, &e);
    }
  AllVisits(a, v, e, what);
  Count("check.wkb_array");
}
static void Wkb() {
  GenOpts o = SwarmOpts(600);
  Features f = GenFeatures(o, DrawRows(o, 8));
  std::vector<std::optional<std::string>> enc;
  Arr arr(MakeSource(GEOARROW_TYPE_WKB, f, GenArrOpts(), &enc));
  for (auto& x : f) sim::Note("%s", Show(x).c_str());
  GeoArrowArrayView view;
  SIM_CHECK(GeoArrowArrayViewInitFromType(&view, GEOARROW_TYPE_WKB) == 0, "init", "view");
  SIM_CHECK(GeoArrowArrayViewSetArray(&view, &arr.a, nullptr) == 0, "init", "set array");
  wu::WKBArray<int32_t> a;
  SIM_CHECK(a.Init(&view) == 0, "init", "wkb array");
  Log("wkb, %zu rows", f.size());
  CheckWkb(a, f, enc, "wkb array");
  for (uint32_t k = D(3); k > 0; k--) {
    size_t s = D((uint32_t)f.size() + 1), l = D((uint32_t)(f.size() - s) + 1);
    a = a.Slice((int64_t)s, (int64_t)l);
    f = Features(f.begin() + (long)s, f.begin() + (long)(s + l));
    enc = {enc.begin() + (long)s, enc.begin() + (long)(s + l)};
    CheckWkb(a, f, enc, "slice of wkb");
  }
  {  // a geometry nothing was parsed into, in memory that was used before
    alignas(wu::WKBGeometry) unsigned char room[sizeof(wu::WKBGeometry)];
    memset(room, sim::Fill(), sizeof(room));
    wu::WKBGeometry* g = new (room) wu::WKBGeometry;
    SIM_CHECK(g->NumSequences() == 0 && g->NumGeometries() == 0 && g->geometry_type == GEOARROW_GEOMETRY_TYPE_GEOMETRY, "fresh", "a new geometry has %u sequences and %u geometries", g->NumSequences(),
              g->NumGeometries());
    g->~WKBGeometry();
  }
  // single sequences
  for (size_t i = 0; i < f.size(); i++) {
    if (f[i].null) continue;
    wu::WKBParser parser;
    wu::WKBGeometry g;
    GeoArrowBufferView b;
    std::unique_ptr<uint8_t[]> copy(new uint8_t[enc[i]->size()]);
    memcpy(copy.get(), enc[i]->data(), enc[i]->size());
    b.data = copy.get();
    b.size_bytes = (int64_t)enc[i]->size();
    SIM_CHECK(parser.Parse(b, &g) == wu::WKBParser::OK, "parse", "%s", Show(f[i]).c_str());
    Verts v, e;
    ModelVerts(f[i].g, 0, &v);
    ModelEdges(f[i].g, 0, &e);
    AllVisits(g, v, e, "wkb geometry");
    if ((f[i].g.type == LS || f[i].g.type == PT) && copy[0] == 1) {
      Verts c, got;
      for (auto& x : v) c.push_back({x[0], x[1], NAN, NAN});
      auto s = g.Sequence(0).ViewAsNativeXY();
      CheckSeq(s, c, "native xy view");
    }
  }
  // malformed rows are reported when they are reached, and not before
  if (!f.empty() && D(2)) {
    std::vector<std::optional<std::string>> bad;
    std::vector<char> is_bad;
    for (auto& x : f) {
      std::string w = x.null ? std::string() : model::Wkb(x.g);
      char broken = !x.null && D(3) == 0;
      if (broken) {
        switch (D(3)) {
          case 0:
            w.resize(D((uint32_t)w.size()));
            break;
          case 1:
            w[0] = (char)(2 + D(250));
            break;
          default:
            w[1] = (char)(8 + D(90));
        }
      }
      is_bad.push_back(broken);
      bad.push_back(x.null ? std::optional<std::string>() : std::optional<std::string>(w));
    }
    Arr arr2(MakeBinary(bad, BK_I32, GenArrOpts()));
    GeoArrowArrayView v2;
    SIM_CHECK(GeoArrowArrayViewInitFromType(&v2, GEOARROW_TYPE_WKB) == 0, "init", "view");
    SIM_CHECK(GeoArrowArrayViewSetArray(&v2, &arr2.a, nullptr) == 0, "init", "set array");
    wu::WKBArray<int32_t> b;
    SIM_CHECK(b.Init(&v2) == 0, "init", "wkb array");
    Verts want, got;
    bool any = false;
    for (size_t i = 0; i < f.size() && !any; i++) {
      if (is_bad[i])
        any = true;
      else if (!f[i].null)
        ModelVerts(f[i].g, 0, &want);
    }
    bool threw = false;
    try {
      b.VisitVertices<CXYZM>([&](CXYZM c) { got.push_back(Seen(c)); });
    } catch (geoarrow::Exception&) {
      threw = true;
    }
    SIM_CHECK(threw == any, "malformed", "%s", any ? "accepted" : "refused");
    if (!any || D(2)) Same(want, got, "malformed", "rows before the malformed one");
    Count("check.malformed");
  }
  if (f.size() > 1) sim::NonTrivial();
}

// ---- wrappers of readers, writers and builders
template <class T>
static void CopyAndMove(T& t) {
  // Only wrappers that offer it: nothing may be released twice or lost.
  if constexpr (std::is_copy_constructible<T>::value) {
    T c(t);
    (void)c;
  }
  if constexpr (std::is_move_constructible<T>::value) {
    T c(std::move(t));
    if constexpr (std::is_move_assignable<T>::value) t = std::move(c);
  }
}
template <class T>
static std::unique_ptr<T> MakeWrapper(enum GeoArrowType type) {
  Schema s;
  std::unique_ptr<T> w;
  switch (D(3)) {
    case 0:
      w.reset(new T(type));
      break;
    case 1:
      w.reset(new T(geoarrow::GeometryDataType::Make(type)));
      break;
    default:
      SIM_CHECK(GeoArrowSchemaInitExtension(&s.s, type) == 0, "init", "schema");
      w.reset(new T(&s.s));
  }
  if (B(6)) {
    CopyAndMove(*w);
    if constexpr (std::is_move_constructible<T>::value && !std::is_move_assignable<T>::value) w.reset(new T(type));
  }
  return w;
}
static void Writers() {
  static const enum GeoArrowType text[] = {GEOARROW_TYPE_WKT, GEOARROW_TYPE_WKB};
  enum GeoArrowType type = D(2) ? text[D(2)] : AnyNative();
  auto w = MakeWrapper<geoarrow::ArrayWriter>(type);
  int precision = 16, flat = 1;
  if (type == GEOARROW_TYPE_WKT) {
    if (D(2)) w->SetPrecision(precision = (int)D(17));
    if (D(2)) w->SetFlatMultipoint(flat = D(2));
  }
  Writer c;  // the C interface on the same data
  SIM_CHECK(c.Init(type, 0) == 0, "init", "C writer");
  if (type == GEOARROW_TYPE_WKT) c.SetText(precision, flat, -1);
  SIM_CHECK(c.InitVisitor() == 0, "init", "C writer");
  for (uint32_t batch = 1 + D(3); batch > 0; batch--) {
    GenOpts o = Opts(0, 0);
    if (IsNative(type)) o = Opts(Parts(type).gtype, D(2) ? Parts(type).dims : 0);
    Features f = GenFeatures(o, Small(8));
    Log("%s batch of %zu", TypeText(type).c_str(), f.size());
    for (auto& x : f) {
      SIM_CHECK(EmitFeature(x, w->visitor(), true) == 0, "emit", "%s", Show(x).c_str());
      SIM_CHECK(EmitFeature(x, &c.v, false) == 0, "emit", "%s", Show(x).c_str());
    }
    Arr a, b;
    w->Finish(&a.a);
    SIM_CHECK(c.Finish(&b.a) == 0, "finish", "C writer");
    CheckOutput(type, &a.a, f, precision, flat, "hpp writer");
    if (type == GEOARROW_TYPE_WKT) {
      auto x = DecodeBinary(&a.a, "hpp writer"), y = DecodeBinary(&b.a, "C writer");
      for (size_t i = 0; i < x.size(); i++)
        SIM_CHECK(x[i] == y[i], "writer", "row %zu is \"%.300s\" but \"%.300s\" through the C interface (precision %d, flat %d)", i, x[i] ? x[i]->c_str() : "",
                  y[i] ? y[i]->c_str() : "", precision, flat);
    }
    Count("check.writer");
  }
}
static void Readers() {
  enum GeoArrowType type = D(2) ? SerializedType(D(6)) : AnyNative();
  auto r = MakeWrapper<geoarrow::ArrayReader>(type);
  Reader c;
  SIM_CHECK(c.Init(type, 0) == 0, "init", "C reader");
  for (uint32_t batch = 1 + D(3); batch > 0; batch--) {
    GenOpts o = Opts(0, 0);
    if (IsNative(type)) o = Opts(Parts(type).gtype, Parts(type).dims);
    Features f = GenFeatures(o, Small(8));
    std::vector<std::optional<std::string>> enc;
    ArrowArray a = MakeSource(type, f, ArrOpts(), &enc);
    bool broken = IsSerialized(type) && !f.empty() && D(4) == 0;
    if (broken) {
      size_t i = D((uint32_t)enc.size());
      enc[i] = IsWkt(type) ? std::string(D(2) ? "POINT (1" : "nonsense") : std::string("\x07\x01");
      a.release(&a);
      int kind = type == GEOARROW_TYPE_WKB || type == GEOARROW_TYPE_WKT               ? BK_I32
                 : type == GEOARROW_TYPE_LARGE_WKB || type == GEOARROW_TYPE_LARGE_WKT ? BK_I64
                                                                                      : BK_VIEW;
      a = MakeBinary(enc, kind, GenArrOpts());
    }
    Arr owner;
    ArrowArray keep = a;
    (void)keep;
    bool own = D(2);
    Arr second(own ? MakeSource(type, Features(), ArrOpts()) : ArrowArray());
    if (!own) second.a.release = nullptr;
    // the C reader looks at the same array
    int64_t n = (int64_t)f.size();
    int64_t off = (int64_t)D((uint32_t)n + 1), len = (int64_t)D((uint32_t)(n - off) + 1);
    if (D(2)) off = 0, len = n;
    Recorder x, y;
    GeoArrowError ex, ey;
    ex.message[0] = ey.message[0] = 0;
    SIM_CHECK(c.SetArray(&a, enc) == 0, "init", "C reader: %s", c.err.message);
    y.v.error = &ey;
    int rc2 = c.Visit(off, len, &y.v);
    if (own) {
      r->SetArray(&a);
      SIM_CHECK(a.release == nullptr, "owner", "the array was taken but the caller's copy is not marked");
    } else {
      owner.a = a;
      r->SetArrayNonOwning(&owner.a);
    }
    int rc = r->Visit(&x.v, off, len, &ex);
    Log("%s %lld+%lld -> %d", TypeText(type).c_str(), (long long)off, (long long)len, rc);
    SIM_CHECK(rc == rc2 && std::string(ex.message) == ey.message, "reader", "%d '%s' but %d '%s' through the C interface", rc, ex.message, rc2, ey.message);
    if (rc == 0) {
      ExpectFeatures(y.out, x.out, "reader", "hpp reader");
      if (!broken) ExpectFeatures(NormalAll(Features(f.begin() + (long)off, f.begin() + (long)(off + len))), NormalAll(x.out), "reader", "hpp reader");
    } else {
      SIM_CHECK(broken, "reader", "refused: %s", ex.message);
    }
    Count("check.reader");
    if (!own) {  // lent: another array, then this one is released
      Arr empty(MakeSource(type, Features(), ArrOpts()));
      r->SetArray(&empty.a);
    }
  }
}
static void Builders() {
  enum GeoArrowType type = AnyNative();
  TypeParts p = Parts(type);
  auto b = MakeWrapper<geoarrow::ArrayBuilder>(type);
  for (uint32_t batch = 1 + D(3); batch > 0; batch--) {
    Features f = GenFeatures(Opts(p.gtype, p.dims), Small(8));
    NativeBufs nb = EncodeNative(p.gtype, p.dims, f, D(2));
    int nd = Nd(p.dims);
    if (!nb.validity.empty()) {
      if (D(2))
        b->AppendToBuffer(0, nb.validity);
      else
        b->SetBufferWrapped(0, std::vector<uint8_t>(nb.validity.begin(), nb.validity.end()));
    }
    for (size_t k = 0; k < nb.offs.size(); k++) {
      size_t cut = D((uint32_t)nb.offs[k].size() + 1);
      std::vector<int32_t> one(nb.offs[k].begin(), nb.offs[k].begin() + (long)cut), two(nb.offs[k].begin() + (long)cut, nb.offs[k].end());
      switch (D(3)) {
        case 0:
          b->AppendToOffsetBuffer((int64_t)k, one);
          b->AppendToOffsetBuffer((int64_t)k, two);
          break;
        case 1:
          b->AppendToBuffer(1 + (int64_t)k, one);
          b->AppendToBuffer(1 + (int64_t)k, two);
          break;
        default:
          b->SetBufferWrapped(1 + (int64_t)k, nb.offs[k]);
      }
    }
    size_t n = nb.coords.size() / nd;
    int64_t first = 1 + (int64_t)nb.offs.size();
    std::vector<std::vector<double>> sep(nd);
    for (size_t i = 0; i < nb.coords.size(); i++) sep[i % nd].push_back(nb.coords[i]);
    uint32_t how = D(3);
    if (how == 0) {
      CoordChunk ch;
      ch.Set(nb.coords.data(), n, nd, (int)D(3));
      int64_t cut = (int64_t)D((uint32_t)n + 1);
      b->AppendCoords(&ch.view, (enum GeoArrowDimensions)p.dims, 0, cut);
      b->AppendCoords(&ch.view, (enum GeoArrowDimensions)p.dims, cut, (int64_t)n - cut);
    } else {
      bool inter = p.coord_type == GEOARROW_COORD_TYPE_INTERLEAVED;
      for (int k = 0; k < (inter ? 1 : nd); k++) {
        const std::vector<double>& v = inter ? nb.coords : sep[k];
        if (how == 1)
          b->AppendToBuffer(first + k, v);
        else
          b->SetBufferWrapped(first + k, v);
      }
    }
    bool refused = false;
    int64_t bad = D(2) ? -1 - (int64_t)D(4) : first + (p.coord_type == GEOARROW_COORD_TYPE_INTERLEAVED ? 1 : nd) + (int64_t)D(4);
    try {
      b->SetBufferWrapped(bad, std::vector<double>{1});
    } catch (geoarrow::ErrnoException& e) {
      refused = true;
    }
    SIM_CHECK(refused, "builder", "buffer %lld of %lld was set", (long long)bad, (long long)b->builder()->view.n_buffers);
    Arr a;
    b->Finish(&a.a);
    Log("%s batch of %zu", TypeText(type).c_str(), f.size());
    CheckArrayShape(&a.a, (int64_t)f.size(), "hpp builder");
    Features got = DecodeArray(type, &a.a, "hpp builder");
    Features want = f;
    for (auto& x : want)
      if (!x.null) x.g = Filled(x.g);
    ExpectFeatures(want, got, "builder", "hpp builder");
    Count("check.builder");
  }
}
template <class W, class C, class F, class R>
static void Refusal(const char* what, int type, F init, R reset) {
  C c;
  memset(&c, 0, sizeof(c));
  int rc = init(&c);
  if (rc == 0) reset(&c);
  int threw = 0;
  try {
    W x((enum GeoArrowType)type);
  } catch (geoarrow::ErrnoException& e) {
    threw = 1;
    SIM_CHECK(rc == 0 || e.code == rc, "error-code", "%s: type %d: %d, the C interface returns %d", what, type, e.code, rc);
    SIM_CHECK(e.what()[0] != 0 && e.message == e.what(), "error-text", "%s: type %d: '%s'", what, type, e.what());
  } catch (geoarrow::Exception&) {
    threw = 1;
  }
  SIM_CHECK(threw == (rc != 0), "accepted", "%s: type %d: %s, and the C interface returns %d", what, type, threw ? "thrown" : "accepted", rc);
  Count(rc ? "check.refused" : "check.accepted");
}
static void Bad() {  // the constructors report what the C interface refuses, and only that
  static const int no[] = {GEOARROW_TYPE_UNINITIALIZED, 7777, 7, 8, 999, 1007, 3999, 10007, 100004, 100005, 100006, -1};
  int t = D(2) ? no[D(12)] : (int)NativeType(1 + (int)D(6), D4(), DrawCoordType());
  enum GeoArrowType ty = (enum GeoArrowType)t;
  Refusal<geoarrow::ArrayReader, struct GeoArrowArrayReader>(
      "ArrayReader", t, [&](struct GeoArrowArrayReader* r) { return GeoArrowArrayReaderInitFromType(r, ty); }, GeoArrowArrayReaderReset);
  Refusal<geoarrow::ArrayWriter, struct GeoArrowArrayWriter>(
      "ArrayWriter", t, [&](struct GeoArrowArrayWriter* r) { return GeoArrowArrayWriterInitFromType(r, ty); }, GeoArrowArrayWriterReset);
  Refusal<geoarrow::ArrayBuilder, struct GeoArrowBuilder>(
      "ArrayBuilder", t, [&](struct GeoArrowBuilder* r) { return GeoArrowBuilderInitFromType(r, ty); }, GeoArrowBuilderReset);
}

// What C++ throws where the C interface returns rc and a text
template <class F>
static void SameError(const char* what, int rc, const struct GeoArrowError* err, F f) {
  bool threw = false;
  try {
    f();
  } catch (geoarrow::ErrnoException& e) {
    threw = true;
    SIM_CHECK(rc == 0 || e.code == rc, "error-code", "%s: %d, the C interface returns %d", what, e.code, rc);
    SIM_CHECK(rc == 0 || !err || std::string(e.what()).find(err->message) != std::string::npos, "error-text", "%s: '%s' without '%s'", what, e.what(), err->message);
  } catch (geoarrow::Exception& e) {
    threw = true;
  }
  SIM_CHECK(threw == (rc != 0), "accepted", "%s: %s, and the C interface returns %d", what, threw ? "thrown" : "accepted", rc);
  Count(rc ? "check.refused" : "check.accepted");
}
static void BadSchema() {
  int t = D(3) ? (int)NativeType(1 + (int)D(6), D4(), DrawCoordType()) : (int)SerializedType(D(6));
  Schema s;
  SIM_CHECK(GeoArrowSchemaInitExtension(&s.s, (enum GeoArrowType)t) == 0, "init", "schema");
  ArrowSchema* leaf = &s.s;
  while (leaf->n_children) leaf = leaf->children[D((uint32_t)leaf->n_children)];
  uint32_t how = D(4);
  if (how == 0) SIM_CHECK(ArrowSchemaSetFormat(leaf, D(2) ? "i" : "?") == 0, "init", "format");
  if (how == 1) SIM_CHECK(ArrowSchemaSetName(leaf, "q") == 0, "init", "name");
  if (how == 2) {
    std::string kv = kern::KeyValues({{"ARROW:extension:name", D(2) ? "geoarrow.pont" : "x"}});
    SIM_CHECK(ArrowSchemaSetMetadata(&s.s, kv.data()) == 0, "init", "metadata");
  }
  struct GeoArrowError err;
  auto clear = [&]() { memset(&err, 0, sizeof(err)); };
  clear();
  {
    struct GeoArrowArrayReader r;
    memset(&r, 0, sizeof(r));
    int rc = GeoArrowArrayReaderInitFromSchema(&r, &s.s, &err);
    if (rc == 0) GeoArrowArrayReaderReset(&r);
    SameError("ArrayReader(schema)", rc, &err, [&]() { geoarrow::ArrayReader x(&s.s); });
  }
  clear();
  {
    struct GeoArrowBuilder b;
    memset(&b, 0, sizeof(b));
    int rc = GeoArrowBuilderInitFromSchema(&b, &s.s, &err);
    if (rc == 0) GeoArrowBuilderReset(&b);
    SameError("ArrayBuilder(schema)", rc, &err, [&]() { geoarrow::ArrayBuilder x(&s.s); });
  }
  {
    struct GeoArrowArrayWriter w;
    memset(&w, 0, sizeof(w));
    int rc = GeoArrowArrayWriterInitFromSchema(&w, &s.s);
    if (rc == 0) GeoArrowArrayWriterReset(&w);
    SameError("ArrayWriter(schema)", rc, nullptr, [&]() { geoarrow::ArrayWriter x(&s.s); });
  }
  clear();
  {
    struct GeoArrowSchemaView v;
    int rc = GeoArrowSchemaViewInit(&v, &s.s, &err);
    SameError("GeometryDataType(schema)", rc, &err, [&]() { (void)geoarrow::GeometryDataType::Make(&s.s); });
  }
  clear();
  if (how == 3) {  // an array of another type
    int t2 = D(2) ? (int)NativeType(1 + (int)D(6), D4(), DrawCoordType()) : (int)SerializedType(D(6));
    // (the structure of an array does not show the width of its offsets or of its ordinates)
    if (!IsNative((enum GeoArrowType)t) && !IsNative((enum GeoArrowType)t2)) t2 = t;
    if (t > 10000 && t2 > 10000 && IsNative((enum GeoArrowType)t)) t2 = t;
    Features f = GenFeatures(Opts(IsNative((enum GeoArrowType)t2) ? Parts((enum GeoArrowType)t2).gtype : 0,
                                  IsNative((enum GeoArrowType)t2) ? Parts((enum GeoArrowType)t2).dims : 0), Small(3));
    Arr a(MakeSource((enum GeoArrowType)t2, f, GenArrOpts()));
    struct GeoArrowArrayReader r;
    SIM_CHECK(GeoArrowArrayReaderInitFromType(&r, (enum GeoArrowType)t) == 0, "init", "reader");
    int rc = GeoArrowArrayReaderSetArray(&r, &a.a, &err);
    GeoArrowArrayReaderReset(&r);
    geoarrow::ArrayReader x((enum GeoArrowType)t);
    SameError("SetArrayNonOwning()", rc, &err, [&]() { x.SetArrayNonOwning(&a.a); });
    SameError("SetArray()", rc, &err, [&]() { x.SetArray(&a.a); });
    SIM_CHECK((a.a.release == nullptr) == (rc == 0), "owner", "SetArray() of type %d with %d: %d", t, t2, rc);
  }
}
template <int G, int D_, int C>
static void TraitsOf() {
  constexpr enum GeoArrowType id = geoarrow::type_traits::GeometryTypeTraits<(enum GeoArrowGeometryType)G, (enum GeoArrowDimensions)D_>::type_id((enum GeoArrowCoordType)C);
  using T = geoarrow::type_traits::TypeTraits<id>;
  SIM_CHECK(id == GeoArrowMakeType((enum GeoArrowGeometryType)G, (enum GeoArrowDimensions)D_, (enum GeoArrowCoordType)C) &&
                T::geometry_type == G && T::dimensions == D_ && T::coord_type_id == C,
            "traits", "geometry type %d, dimensions %d, coordinate type %d: %d", G, D_, C, (int)id);
}
template <int G>
static void TraitsOfType() {
  TraitsOf<G, 1, 1>(), TraitsOf<G, 2, 1>(), TraitsOf<G, 3, 1>(), TraitsOf<G, 4, 1>();
  TraitsOf<G, 1, 2>(), TraitsOf<G, 2, 2>(), TraitsOf<G, 3, 2>(), TraitsOf<G, 4, 2>();
}
static void Traits() {
  TraitsOfType<1>(), TraitsOfType<2>(), TraitsOfType<3>(), TraitsOfType<4>(), TraitsOfType<5>(), TraitsOfType<6>();
}

// The wrappers under failing allocations: an exception or the full result, nothing
// leaked, and everything lent or given released exactly once.
static sim::FaultPlan DrawPlan() {
  sim::FaultPlan fp;
  if (D(4)) {
    fp.first = 1 + D(D(2) ? 4 : 24);
    fp.burst = 1 + D(3);
  } else {
    fp.mod = 2 + D(6);
    fp.salt = sim::U64();
  }
  return fp;
}
static void Faults() {
  uint32_t kind = D(3);
  enum GeoArrowType type = kind == 2 ? AnyNative() : kind == 1 && D(2) ? SerializedType(D(6)) : D(2) ? GEOARROW_TYPE_WKB : AnyNative();
  TypeParts p = Parts(type);
  GenOpts o = Opts(0, 0);
  if (IsNative(type)) o = Opts(p.gtype, p.dims);
  Features f = GenFeatures(o, Small(6));
  Log("%s under faults, wrapper %u, %zu rows", TypeText(type).c_str(), kind, f.size());
  ArrowArray src = {};
  std::vector<std::optional<std::string>> enc;
  NativeBufs nb;
  if (kind == 1) src = MakeSource(type, f, ArrOpts(), &enc);
  if (kind == 2) nb = EncodeNative(p.gtype, p.dims, f, true);
  bool own = D(2), ok = false;
  Arr out;
  Recorder rec;
  bool threw = false;
  int rc = 0;
  sim::ArmAlloc(DrawPlan());
  try {
    if (kind == 0) {
      geoarrow::ArrayWriter w(type);
      for (auto& x : f) {
        if (rc == 0) rc = EmitFeature(x, w.visitor(), false);
      }
      if (rc == 0) {
        w.Finish(&out.a);
        ok = true;
      }
    } else if (kind == 1) {
      geoarrow::ArrayReader r(type);
      if (own)
        r.SetArray(&src);
      else
        r.SetArrayNonOwning(&src);
      rc = r.Visit(&rec.v, 0, (int64_t)f.size());
      ok = rc == 0;
    } else {
      geoarrow::ArrayBuilder b(type);
      bool wrap = own;
      int64_t first = 1 + (int64_t)nb.offs.size();
      int nd = Nd(p.dims);
      if (!nb.validity.empty()) {
        if (wrap)
          b.SetBufferWrapped(0, std::vector<uint8_t>(nb.validity.begin(), nb.validity.end()));
        else
          b.AppendToBuffer(0, nb.validity);
      }
      for (size_t k = 0; k < nb.offs.size(); k++) {
        if (wrap)
          b.SetBufferWrapped(1 + (int64_t)k, nb.offs[k]);
        else
          b.AppendToOffsetBuffer((int64_t)k, nb.offs[k]);
      }
      bool inter = p.coord_type == GEOARROW_COORD_TYPE_INTERLEAVED;
      std::vector<std::vector<double>> sep(nd);
      for (size_t i = 0; i < nb.coords.size(); i++) sep[i % nd].push_back(nb.coords[i]);
      for (int k = 0; k < (inter ? 1 : nd); k++) {
        const std::vector<double>& v = inter ? nb.coords : sep[k];
        if (wrap)
          b.SetBufferWrapped(first + k, v);
        else
          b.AppendToBuffer(first + k, v);
      }
      b.Finish(&out.a);
      ok = true;
    }
  } catch (geoarrow::Exception& e) {
    threw = true;
  }
  uint64_t fired = sim::DisarmAlloc();
  if (fired) Count("fault.alloc", fired);
  if (src.release) src.release(&src);
  Log("fired %llu threw %d rc %d", (unsigned long long)fired, threw, rc);
  SIM_CHECK(fired || (!threw && rc == 0), "refused", "%s: wrapper %u failed without a fault (%d)", TypeText(type).c_str(), kind, rc);
  if (threw || rc) {
    Count("check.fault_reported");
    SIM_CHECK(!threw || out.a.release == nullptr, "owner", "an exception and an array");
    return;
  }
  Features want = f;
  if (kind == 1) {
    ExpectFeatures(NormalAll(want), NormalAll(rec.out), "fault", "hpp reader");
  } else {
    if (kind == 0) {
      CheckOutput(type, &out.a, f, 16, 1, "hpp writer");
    } else {
      for (auto& x : want)
        if (!x.null) x.g = Filled(x.g);
      CheckArrayShape(&out.a, (int64_t)f.size(), "hpp builder");
      ExpectFeatures(want, DecodeArray(type, &out.a, "hpp builder"), "fault", "hpp builder");
    }
  }
  if (fired) Count("check.fault_survived");
}

static void Run() {
  uint32_t k = W({8, 3, 2, 4, 3, 3, 3, 3});
  Count(("case." + std::to_string(k)).c_str());
  switch (k) {
    case 0:
      Native();
      break;
    case 1:
      Sequences();
      sim::NonTrivial();
      break;
    case 2:
      Boxes();
      break;
    case 3:
      Wkb();
      break;
    case 4:
      Writers();
      sim::NonTrivial();
      break;
    case 5:
      Readers();
      sim::NonTrivial();
      break;
    case 7:
      Faults();
      sim::NonTrivial();
      break;
    default:
      if (B(10)) {
        D(2) ? Bad() : BadSchema();
        if (B(8)) Traits();
        break;
      }
      Builders();
      sim::NonTrivial();
  }
  sim::State(k);
  sim::CheckNoLeaks("leak");
  SIM_CHECK(g_arrays_live == 0, "owner", "%lld arrays are still live", (long long)g_arrays_live);
}
SIM_PROPERTY("P15", Run, 100000, 6000000, "more than one row, or a wrapper used through a history")

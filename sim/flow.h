// Readers and writers as seams: every way the library offers to read an array into a
// visitor and to write an array from a visitor, chosen by the tape.
#pragma once
#include <algorithm>
#include <cmath>
#include <memory>

#include "model.h"

namespace flow {
using namespace model;
using sim::Count;
using sim::Fail;
using sim::Range;
using sim::Small;
using sim::W;

inline int D4() { return 1 + (int)D(4); }
inline enum GeoArrowType SerializedType(uint32_t i) {
  static const enum GeoArrowType t[] = {GEOARROW_TYPE_WKB,       GEOARROW_TYPE_WKT,
                                        GEOARROW_TYPE_LARGE_WKB, GEOARROW_TYPE_LARGE_WKT,
                                        GEOARROW_TYPE_WKB_VIEW,  GEOARROW_TYPE_WKT_VIEW};
  return t[i % 6];
}
inline int DrawCoordType() {
  return D(2) ? GEOARROW_COORD_TYPE_INTERLEAVED : GEOARROW_COORD_TYPE_SEPARATE;
}
inline bool IsBox(enum GeoArrowType t) {
  return t == GEOARROW_TYPE_BOX || t == GEOARROW_TYPE_BOX_Z || t == GEOARROW_TYPE_BOX_M ||
         t == GEOARROW_TYPE_BOX_ZM;
}

// A writer of any kind.
struct Writer {
  enum GeoArrowType type;
  int api;  // 0 ArrayWriter from type, 1 ArrayWriter from schema, 2 the specific writer
  GeoArrowArrayWriter aw;
  GeoArrowWKTWriter wkt;
  GeoArrowWKBWriter wkb;
  GeoArrowNativeWriter nat;
  GeoArrowVisitor v;
  GeoArrowError err;
  int precision = 16, flat = 1;
  int64_t max_size = -1;
  bool live = false;
  // Returns the library's code.
  int Init(enum GeoArrowType t, int which) {
    type = t;
    api = which;
    err.message[0] = 0;
    memset(&v, 0, sizeof v);
    GeoArrowVisitorInitVoid(&v);
    v.error = &err;
    int rc;
    if (api == 0) {
      rc = GeoArrowArrayWriterInitFromType(&aw, t);
    } else if (api == 1) {
      Schema s;
      rc = GeoArrowSchemaInitExtension(&s.s, t);
      if (rc) return rc;
      rc = GeoArrowArrayWriterInitFromSchema(&aw, &s.s);
    } else if (t == GEOARROW_TYPE_WKT) {
      rc = GeoArrowWKTWriterInit(&wkt);
    } else if (t == GEOARROW_TYPE_WKB) {
      rc = GeoArrowWKBWriterInit(&wkb);
    } else {
      rc = GeoArrowNativeWriterInit(&nat, t);
    }
    live = rc == 0;
    return rc;
  }
  void SetText(int prec, int fl, int64_t max) {
    precision = prec;
    flat = fl;
    max_size = max;
    if (api == 2) {
      wkt.precision = prec;
      wkt.use_flat_multipoint = fl;
      wkt.max_element_size_bytes = max;
    } else {
      SIM_CHECK(GeoArrowArrayWriterSetPrecision(&aw, prec) == 0, "set-option", "precision");
      SIM_CHECK(GeoArrowArrayWriterSetFlatMultipoint(&aw, fl) == 0, "set-option", "flat");
    }
  }
  int InitVisitor() {
    GeoArrowVisitorInitVoid(&v);
    v.error = &err;
    int rc = 0;
    if (api < 2)
      rc = GeoArrowArrayWriterInitVisitor(&aw, &v);
    else if (type == GEOARROW_TYPE_WKT)
      GeoArrowWKTWriterInitVisitor(&wkt, &v);
    else if (type == GEOARROW_TYPE_WKB)
      GeoArrowWKBWriterInitVisitor(&wkb, &v);
    else
      rc = GeoArrowNativeWriterInitVisitor(&nat, &v);
    v.error = &err;
    return rc;
  }
  int Finish(ArrowArray* out) {
    if (api < 2) return GeoArrowArrayWriterFinish(&aw, out, &err);
    if (type == GEOARROW_TYPE_WKT) return GeoArrowWKTWriterFinish(&wkt, out, &err);
    if (type == GEOARROW_TYPE_WKB) return GeoArrowWKBWriterFinish(&wkb, out, &err);
    return GeoArrowNativeWriterFinish(&nat, out, &err);
  }
  void Reset() {
    if (!live) return;
    live = false;
    if (api < 2)
      GeoArrowArrayWriterReset(&aw);
    else if (type == GEOARROW_TYPE_WKT)
      GeoArrowWKTWriterReset(&wkt);
    else if (type == GEOARROW_TYPE_WKB)
      GeoArrowWKBWriterReset(&wkb);
    else
      GeoArrowNativeWriterReset(&nat);
  }
  ~Writer() { Reset(); }
};

// A reader of any kind, reusable over several arrays of the same type.
struct Reader {
  enum GeoArrowType type;
  int api;  // 0 ArrayReader from type, 1 from schema, 2 item reader / array view
  GeoArrowArrayReader ar;
  GeoArrowWKTReader wkt;
  GeoArrowWKBReader wkb;
  GeoArrowArrayView view;
  GeoArrowError err;
  bool live = false;
  const ArrowArray* cur = nullptr;
  std::vector<std::optional<std::string>> items;  // api 2, serialised

  int Init(enum GeoArrowType t, int which) {
    type = t;
    api = which;
    err.message[0] = 0;
    int rc;
    if (api < 2) {
      if (api == 0) {
        rc = GeoArrowArrayReaderInitFromType(&ar, t);
      } else {
        Schema s;
        rc = GeoArrowSchemaInitExtension(&s.s, t);
        if (rc) return rc;
        rc = GeoArrowArrayReaderInitFromSchema(&ar, &s.s, &err);
      }
    } else if (IsWkt(t)) {
      rc = GeoArrowWKTReaderInit(&wkt);
    } else if (IsSerialized(t)) {
      rc = GeoArrowWKBReaderInit(&wkb);
    } else {
      rc = GeoArrowArrayViewInitFromType(&view, t);
      return rc;
    }
    live = rc == 0;
    return rc;
  }
  int SetArray(const ArrowArray* a, const std::vector<std::optional<std::string>>& enc) {
    cur = a;
    if (api < 2) return GeoArrowArrayReaderSetArray(&ar, a, &err);
    if (IsSerialized(type)) {
      items = enc;
      return 0;
    }
    int rc = GeoArrowArrayViewSetArray(&view, a, &err);
    if (rc == 0 && view.n_offsets <= 1) {
      // the coordinates of the rows of this array, which may be a slice
      int64_t want = a->length;
      const int32_t* offs = view.n_offsets == 1 ? (const int32_t*)a->buffers[1] : nullptr;
      if (view.n_offsets == 1 && want > 0) want = offs[a->offset + a->length] - offs[a->offset];
      SIM_CHECK(view.coords.n_coords == want, "view-coords", "view of %s at offset %lld, length %lld counts %lld coordinates, not %lld", TypeText(type).c_str(),
                (long long)a->offset, (long long)a->length, (long long)view.coords.n_coords, (long long)want);
    }
    return rc;
  }
  int VisitItem(const std::string& s, GeoArrowVisitor* v) {
    // exact-size heap copy: reading one byte past the end is caught
    std::unique_ptr<char[]> copy(new char[s.size()]);
    memcpy(copy.get(), s.data(), s.size());
    if (IsWkt(type)) {
      GeoArrowStringView sv;
      sv.data = copy.get();
      sv.size_bytes = (int64_t)s.size();
      return GeoArrowWKTReaderVisit(&wkt, sv, v);
    }
    GeoArrowBufferView bv;
    bv.data = (const uint8_t*)copy.get();
    bv.size_bytes = (int64_t)s.size();
    return GeoArrowWKBReaderVisit(&wkb, bv, v);
  }
  int Visit(int64_t off, int64_t len, GeoArrowVisitor* v) {
    if (api < 2) return GeoArrowArrayReaderVisit(&ar, off, len, v);
    if (!IsSerialized(type)) return GeoArrowArrayViewVisitNative(&view, off, len, v);
    for (int64_t i = off; i < off + len; i++) {
      int rc;
      if (items[i]) {
        rc = VisitItem(*items[i], v);
      } else {
        rc = v->feat_start(v);
        if (!rc) rc = v->null_feat(v);
        if (!rc) rc = v->feat_end(v);
      }
      if (rc) return rc;
    }
    return 0;
  }
  void Reset() {
    if (!live) return;
    live = false;
    if (api < 2)
      GeoArrowArrayReaderReset(&ar);
    else if (IsWkt(type))
      GeoArrowWKTReaderReset(&wkt);
    else if (IsSerialized(type))
      GeoArrowWKBReaderReset(&wkb);
  }
  ~Reader() { Reset(); }
};

// Source data split into arrays.
struct Source {
  enum GeoArrowType type;
  std::vector<Features> parts;
  std::vector<std::unique_ptr<Arr>> arrays;
  std::vector<std::vector<std::optional<std::string>>> enc;
  Features All() const {
    Features f;
    for (auto& p : parts) f.insert(f.end(), p.begin(), p.end());
    return f;
  }
};
inline std::vector<Features> Split(const Features& f, uint32_t max_parts) {
  std::vector<Features> r;
  uint32_t n = 1 + D(max_parts);
  size_t i = 0;
  for (uint32_t k = 0; k < n; k++) {
    size_t left = f.size() - i;
    size_t take = k + 1 == n ? left : D((uint32_t)left + 1);
    r.emplace_back(f.begin() + i, f.begin() + i + take);
    i += take;
  }
  return r;
}
inline void MakeArrays(Source& s, enum GeoArrowType t, const Features& f, uint32_t max_parts) {
  s.type = t;
  s.parts = Split(f, max_parts);
  for (auto& p : s.parts) {
    std::vector<std::optional<std::string>> e;
    s.arrays.emplace_back(new Arr(MakeSource(t, p, GenArrOpts(), &e)));
    s.enc.push_back(e);
    if (sim::Tracing())
      for (size_t i = 0; i < p.size(); i++) {
        sim::Note("row %zu: %s", i, Show(p[i]).c_str());
        if (i < e.size() && e[i])
          sim::Note("  %s", IsWkt(t) ? e[i]->c_str() : sim::Hex(e[i]->data(), e[i]->size(), 400).c_str());
      }
  }
}
// Boxes are read as closed five-coordinate polygons.
inline Feature BoxFeature(const std::vector<double>& b) {
  Feature f;
  f.null = false;
  f.g.type = PG;
  if (b[0] > b[2] || b[1] > b[3]) return f;
  Geom r;
  r.type = RING;
  r.c = {b[0], b[1], b[2], b[1], b[2], b[3], b[0], b[3], b[0], b[1]};
  f.g.kids.push_back(r);
  return f;
}
inline void MakeBoxes(Source& s, uint32_t n, uint32_t max_parts) {
  s.type = GEOARROW_TYPE_BOX;
  Features f;
  std::vector<std::optional<std::vector<double>>> v;
  for (uint32_t i = 0; i < n; i++) {
    if (B(5)) {
      v.push_back(std::nullopt);
      f.push_back(Feature());
      continue;
    }
    int style = (int)D(3);
    double a = GenCoord(style), b = GenCoord(style), c = GenCoord(style), d = GenCoord(style);
    std::vector<double> x = {std::min(a, c), std::min(b, d), std::max(a, c), std::max(b, d)};
    if (B(6)) std::swap(x[0], x[2]);
    if (B(8)) x = {INFINITY, INFINITY, -INFINITY, -INFINITY};
    v.push_back(x);
    f.push_back(BoxFeature(x));
  }
  size_t at = 0;
  s.parts = Split(f, max_parts);
  for (auto& p : s.parts) {
    std::vector<std::optional<std::vector<double>>> w(v.begin() + at, v.begin() + at + p.size());
    at += p.size();
    s.arrays.emplace_back(new Arr(MakeBox(XY, w, GenArrOpts())));
    s.enc.emplace_back();
  }
}

inline bool Fits(int from, int to) {
  return from == to || (from == PT && to == MPT) || (from == LS && to == MLS) ||
         (from == PG && to == MPG);
}
// The feature a native target of this type holds after being given g.
inline Geom ToNative(const Geom& g, int gtype, int dims) {
  Geom m = MapDims(g, dims);
  if (m.type == gtype) return m;
  Geom r;
  r.type = gtype;
  r.dims = dims;
  r.kids.push_back(m);
  return r;
}
// What can be compared when empty parts may be dropped.
inline Geom Normal(Geom g) {
  g = StripEmptyPointCoords(g);
  DropEmptyParts(g);
  return g;
}
inline Features NormalAll(Features f) {
  for (auto& x : f)
    if (!x.null) x.g = Normal(x.g);
  return f;
}

// The most decimals any number in the text is written with (numbers in scientific
// notation are written with all their digits whatever was requested).
inline int MostDecimals(const std::string& text) {
  int most = 0, decimals = -1;
  bool exponent = false;
  for (size_t i = 0; i <= text.size(); i++) {
    char c = i < text.size() ? text[i] : ' ';
    if (strchr(" (),", c)) {
      if (!exponent) most = std::max(most, decimals);
      decimals = -1;
      exponent = false;
    } else if (c == '.') {
      decimals = 0;
    } else if (c == 'e' || c == 'E') {
      exponent = true;
    } else if (decimals >= 0) {
      decimals++;
    }
  }
  return most;
}

// Checks one finished array against the features it should hold; returns what it
// holds (decoded independently).
inline Features CheckOutput(enum GeoArrowType t, const ArrowArray* a, const Features& in,
                            int precision, int flat, const char* what) {
  CheckArrayShape(a, (int64_t)in.size(), what);
  Features got = DecodeArray(t, a, what);
  SIM_CHECK(got.size() == in.size(), "row-count", "%s: %zu rows from %zu features", what,
            got.size(), in.size());
  if (IsWkt(t)) {
    auto text = DecodeBinary(a, what);
    for (size_t i = 0; i < in.size(); i++) {
      SIM_CHECK(in[i].null == got[i].null, "conversion", "%s: row %zu null=%d", what, i,
                (int)got[i].null);
      if (in[i].null) continue;
      SIM_CHECK(CloseGeom(in[i].g, got[i].g, precision), "conversion",
                "%s: row %zu is \"%.600s\" but should be %s (precision %d)", what, i,
                text[i]->c_str(), Show(in[i]).c_str(), precision);
      SIM_CHECK(MostDecimals(*text[i]) <= (precision < 0 || precision > 16 ? 16 : precision), "decimals",
                "%s: row %zu is \"%.600s\" (precision %d)", what, i, text[i]->c_str(), precision);
    }
  } else if (t == GEOARROW_TYPE_WKB) {
    ExpectFeatures(in, got, "conversion", what);
  } else {
    TypeParts p = Parts(t);
    Features want = in;
    for (auto& f : want)
      if (!f.null) f.g = ToNative(f.g, p.gtype, p.dims);
    ExpectFeatures(NormalAll(want), NormalAll(got), "conversion", what);
  }
  return got;
}

// The buffers of a native array holding these features, computed independently.
struct NativeBufs {
  std::string validity;                      // empty: not present
  std::vector<std::vector<int32_t>> offs;    // outer to inner
  std::vector<double> coords;                // interleaved, in the features' own dims
  int dims = XY;
};
inline NativeBufs EncodeNative(int gtype, int dims, const Features& f, bool validity) {
  NativeBufs b;
  b.dims = dims;
  int nd = Nd(dims);
  int levels = gtype == PT ? 0 : gtype == LS || gtype == MPT ? 1 : gtype == MPG ? 3 : 2;
  b.offs.assign(levels, std::vector<int32_t>(1, 0));
  auto put = [&](const Geom& g) {
    if (g.type == PT && g.c.empty())
      b.coords.insert(b.coords.end(), nd, NAN);
    else
      b.coords.insert(b.coords.end(), g.c.begin(), g.c.end());
  };
  auto count = [&](int level) {  // close one list at this level
    int32_t n = level + 1 < levels ? (int32_t)b.offs[level + 1].size() - 1 : (int32_t)(b.coords.size() / nd);
    b.offs[level].push_back(n);
  };
  bool any = validity;
  for (auto& x : f) {
    any |= x.null;
    Geom g;
    g.type = gtype;
    g.dims = dims;
    if (!x.null) g = x.g;
    switch (gtype) {
      case PT:
      case LS:
        put(g);
        break;
      case MPG:
        for (auto& p : g.kids) {
          for (auto& r : p.kids) {
            put(r);
            count(2);
          }
          count(1);
        }
        break;
      default:
        for (auto& k : g.kids) {
          put(k);
          if (levels == 2) count(1);
        }
    }
    if (levels) count(0);
  }
  if (any) {
    b.validity.assign((f.size() + 7) / 8, 0);
    for (size_t i = 0; i < f.size(); i++)
      if (!f[i].null) b.validity[i / 8] |= (char)(1 << (i % 8));
  }
  return b;
}
}  // namespace flow

// Kernels: drawn cases (kernel, input, options) with their expected results.
#pragma once
#include <set>

#include "flow.h"

namespace kern {
using namespace flow;

// Arrow key/value metadata, encoded independently of the library.
inline std::string KeyValues(const std::vector<std::pair<std::string, std::string>>& kv) {
  std::string s;
  auto put = [&](int32_t n) { s.append((const char*)&n, 4); };
  put((int32_t)kv.size());
  for (auto& p : kv) {
    put((int32_t)p.first.size());
    s += p.first;
    put((int32_t)p.second.size());
    s += p.second;
  }
  return s;
}
inline std::string ExtMetadata(const ArrowSchema* s, const char* key = "ARROW:extension:metadata") {
  ArrowStringView v;
  v.data = nullptr;
  v.size_bytes = 0;
  if (!s->metadata || ArrowMetadataGetValue(s->metadata, ArrowCharView(key), &v) != 0 || !v.data) return "";
  return std::string(v.data, (size_t)v.size_bytes);
}

// Does a feature encoded as this type present coordinates?
inline bool HasCoords(const Geom& g, enum GeoArrowType t) {
  if (g.type == PT && g.kids.empty() && g.c.empty()) return !IsWkt(t);
  if (!g.c.empty()) return true;
  for (auto& k : g.kids)
    if (HasCoords(k, t)) return true;
  return false;
}
struct Bounds {
  double b[4] = {INFINITY, INFINITY, -INFINITY, -INFINITY};
  void Add(const Geom& g) {
    int nd = Nd(g.dims);
    for (size_t i = 0; i + nd <= g.c.size() && nd; i += nd)
      for (int k = 0; k < 2; k++) {
        double v = g.c[i + k];
        if (v < b[k]) b[k] = v;
        if (v > b[k + 2]) b[k + 2] = v;
      }
    for (auto& x : g.kids) Add(x);
  }
};

enum Kind { VOID, VOID_AGG, VISIT_VOID, FORMAT, AS, UNIQUE, BOX, BOX_AGG, N_KINDS };
static const char* const kNames[] = {"void",        "void_agg", "visit_void_agg",            "format_wkt",
                                     "as_geoarrow", "box",      "unique_geometry_types_agg", "box_agg"};
inline const char* Name(Kind k) {
  switch (k) {
    case UNIQUE:
      return "unique_geometry_types_agg";
    case BOX:
      return "box";
    default:
      return kNames[k];
  }
}
inline bool IsAgg(Kind k) { return k == VOID_AGG || k == VISIT_VOID || k == UNIQUE || k == BOX_AGG; }

// Texts without a size limit, as the library itself writes them (P01 checks those).
// Encodings other than text have no point without coordinates.
inline void NanPoints(Geom& g) {
  if (g.type == PT && g.c.empty()) g.c.assign(Nd(g.dims), NAN);
  for (auto& k : g.kids) NanPoints(k);
}
inline std::vector<std::string> FullText(Features f, int precision, bool nan_points) {
  if (nan_points)
    for (auto& x : f)
      if (!x.null) NanPoints(x.g);
  std::vector<std::string> r;
  GeoArrowWKTWriter w;
  SIM_CHECK(GeoArrowWKTWriterInit(&w) == 0, "init", "wkt writer");
  w.precision = precision;
  GeoArrowVisitor v;
  GeoArrowWKTWriterInitVisitor(&w, &v);
  for (auto& x : f) SIM_CHECK(EmitFeature(x, &v, false) == 0, "emit", "%s", Show(x).c_str());
  Arr a;
  SIM_CHECK(GeoArrowWKTWriterFinish(&w, &a.a, nullptr) == 0, "finish", "wkt writer");
  GeoArrowWKTWriterReset(&w);
  for (auto& t : DecodeBinary(&a.a, "full text")) r.push_back(t ? *t : "");
  return r;
}

struct Case {
  Kind kind;
  Source src;
  std::string opts;       // encoded
  bool has_opts = false;  // NULL otherwise
  int precision = 16;
  int64_t max = -1;
  enum GeoArrowType out = GEOARROW_TYPE_UNINITIALIZED;
  Schema in;
  std::string in_meta;    // extension metadata of the input
  const char* name() const { return Name(kind); }

  void DrawSource(uint32_t max_rows, uint32_t max_parts, bool boxes = true, uint32_t large_den = 0) {
    GenOpts o = SwarmOpts(large_den);
    uint32_t n = DrawRows(o, max_rows);
    fixed = 0;
    switch (W({5, 5, boxes ? 1u : 0u})) {
      case 0: {
        if (D(2)) o.only_type = 1 + (int)D(6);
        fixed = o.only_type <= 6 ? o.only_type : 0;
        MakeArrays(src, SerializedType(D(6)), GenFeatures(o, n), max_parts);
        break;
      }
      case 1:
        fixed = o.only_type = 1 + (int)D(6);
        o.only_dims = D4();
        MakeArrays(src, NativeType(o.only_type, o.only_dims, DrawCoordType()), GenFeatures(o, n), max_parts);
        break;
      default:
        fixed = PG;
        MakeBoxes(src, n, max_parts);
    }
    SIM_CHECK(GeoArrowSchemaInitExtension(&in.s, src.type) == 0, "init", "schema");
    if (D(3) == 0) {
      static const char* const metas[] = {"{\"crs\":\"EPSG:4326\"}", "{\"crs\":{\"a\":[1,\"}\"]},\"crs_type\":\"projjson\"}",
                                          "{\"edges\":\"planar\"}", "{}"};
      in_meta = metas[D(4)];
      SetMeta(in_meta);
    }
  }
  void SetMeta(const std::string& m) {
    std::string kv = KeyValues({{"ARROW:extension:name", ExtMetadata(&in.s, "ARROW:extension:name")}, {"ARROW:extension:metadata", m}});
    SIM_CHECK(ArrowSchemaSetMetadata(&in.s, kv.data()) == 0, "init", "metadata");
  }
  void DrawKind(Kind k) {
    kind = k;
    std::vector<std::pair<std::string, std::string>> kv;
    if (D(4) == 0) kv.push_back({"unrelated", "x"});
    if (k == FORMAT) {
      if (D(2)) {
        precision = (int)D(17);
        kv.push_back({"precision", std::to_string(precision)});
      }
      if (D(2)) {
        max = D(3) ? (int64_t)Small(120) : (int64_t)D(2000);
        if (B(8)) max = 2147483647;
        kv.push_back({"max_element_size_bytes", std::to_string(max)});
      }
    } else if (k == AS) {
      uint32_t tk = fixed ? W({3, 3, 5}) : W({1, 1});
      if (tk == 0)
        out = GEOARROW_TYPE_WKB;
      else if (tk == 1)
        out = GEOARROW_TYPE_WKT;
      else
        out = NativeType(fixed <= 3 && D(2) ? fixed + 3 : fixed, D4(), DrawCoordType());
      kv.push_back({"type", std::to_string((int)out)});
    }
    if (B(6)) kv.push_back({"zzz", ""});
    has_opts = !kv.empty() || D(2);
    opts = KeyValues(kv);
  }
  const char* Opts() const { return has_opts ? opts.data() : nullptr; }
  std::string What(size_t i) const {
    return std::string(name()) + "(" + TypeText(src.type) + ") batch " + std::to_string(i);
  }
  // ---- expectations
  void CheckSchema(const ArrowSchema* s) const {
    SIM_CHECK(s->release != nullptr, "out-schema", "%s: start delivered no schema", name());
    std::string format = s->format;
    switch (kind) {
      case VOID:
      case VOID_AGG:
      case VISIT_VOID:
        SIM_CHECK(format == "n", "out-schema", "%s: schema %s", name(), s->format);
        break;
      case FORMAT:
        SIM_CHECK(format == "u", "out-schema", "%s: schema %s", name(), s->format);
        break;
      case UNIQUE:
        SIM_CHECK(format == "i", "out-schema", "%s: schema %s", name(), s->format);
        break;
      default: {
        GeoArrowSchemaView v;
        SIM_CHECK(GeoArrowSchemaViewInit(&v, s, nullptr) == 0, "out-schema", "%s: not a geoarrow schema", name());
        enum GeoArrowType want = kind == AS ? out : GEOARROW_TYPE_BOX;
        SIM_CHECK(v.type == want, "out-schema", "%s: type %d instead of %d", name(), (int)v.type, (int)want);
        GeoArrowMetadataView a, b;
        std::string got = ExtMetadata(s);
        GeoArrowStringView sv;
        sv.data = got.data(), sv.size_bytes = (int64_t)got.size();
        SIM_CHECK(GeoArrowMetadataViewInit(&a, sv, nullptr) == 0, "out-schema", "%s: metadata %s", name(), got.c_str());
        sv.data = in_meta.data(), sv.size_bytes = (int64_t)in_meta.size();
        SIM_CHECK(GeoArrowMetadataViewInit(&b, sv, nullptr) == 0, "out-schema", "%s: input metadata %s", name(), in_meta.c_str());
        SIM_CHECK(a.edge_type == b.edge_type && a.crs_type == b.crs_type &&
                      std::string(a.crs.data ? a.crs.data : "", (size_t)a.crs.size_bytes) ==
                          std::string(b.crs.data ? b.crs.data : "", (size_t)b.crs.size_bytes),
                  "out-schema", "%s: metadata '%s' from '%s'", name(), got.c_str(), in_meta.c_str());
      }
    }
  }
  // The result of a scalar kernel for these rows.
  void CheckRows(const Features& in_rows, const ArrowArray* a, const char* what) const {
    int64_t n = (int64_t)in_rows.size();
    SIM_CHECK(a->release != nullptr, "no-result", "%s: no array", what);
    SIM_CHECK(a->length == n, "row-count", "%s: %lld rows from %lld", what, (long long)a->length, (long long)n);
    switch (kind) {
      case VOID:
        SIM_CHECK(a->null_count == n, "void", "%s: %lld nulls", what, (long long)a->null_count);
        break;
      case FORMAT: {
        CheckArrayShape(a, n, what);
        auto text = DecodeBinary(a, what);
        auto full = FullText(in_rows, precision, !IsWkt(src.type));
        for (int64_t i = 0; i < n; i++) {
          SIM_CHECK(text[i].has_value() != in_rows[i].null, "null", "%s: row %lld", what, (long long)i);
          if (in_rows[i].null) continue;
          std::string want = full[i];
          SIM_CHECK(MostDecimals(want) <= precision, "decimals", "%s: row %lld is \"%.400s\" (precision %d)", what, (long long)i,
                    want.c_str(), precision);
          if (max >= 0 && (int64_t)want.size() > max) {
            want.resize((size_t)max);
            Count("check.cut_text");
          }
          SIM_CHECK(*text[i] == want, "text", "%s: row %lld is \"%.400s\" but should be \"%.400s\" (precision %d, limit %lld)", what,
                    (long long)i, text[i]->c_str(), want.c_str(), precision, (long long)max);
        }
        break;
      }
      case AS:
        CheckOutput(out, a, in_rows, 16, 1, what);
        break;
      case BOX: {
        CheckArrayShape(a, n, what);
        SIM_CHECK(a->n_children == 4, "box", "%s: %lld columns", what, (long long)a->n_children);
        for (int64_t i = 0; i < n; i++) {
          bool null = a->buffers[0] && !((((const uint8_t*)a->buffers[0])[(a->offset + i) / 8] >> ((a->offset + i) % 8)) & 1);
          SIM_CHECK(null == in_rows[i].null, "null", "%s: row %lld null=%d", what, (long long)i, (int)null);
          if (null) continue;
          Bounds b;
          b.Add(in_rows[i].g);
          CheckBox(a, i, b, what);
        }
        break;
      }
      default:
        break;
    }
  }
  void CheckBox(const ArrowArray* a, int64_t i, const Bounds& b, const char* what) const {
    for (int k = 0; k < 4; k++) {
      const ArrowArray* c = a->children[k];
      double v = ((const double*)c->buffers[1])[c->offset + a->offset + i];
      SIM_CHECK(v == b.b[k], "box", "%s: row %lld column %d is %.17g but should be %.17g", what, (long long)i, k, v, b.b[k]);
    }
  }
  // The result of an aggregate for all rows.
  void CheckAgg(const Features& all, const ArrowArray* a, const char* what) const {
    SIM_CHECK(a->release != nullptr, "no-result", "%s: no array", what);
    switch (kind) {
      case VOID_AGG:
      case VISIT_VOID:
        SIM_CHECK(a->length == 1 && a->null_count == 1, "void", "%s: %lld rows", what, (long long)a->length);
        break;
      case UNIQUE: {
        std::set<int32_t> want;
        for (auto& f : all)
          if (!f.null && HasCoords(f.g, src.type)) want.insert((f.g.dims - 1) * 1000 + f.g.type);
        CheckArrayShape(a, (int64_t)want.size(), what);
        const int32_t* v = (const int32_t*)a->buffers[1];
        size_t i = 0;
        for (int32_t x : want) {
          SIM_CHECK(v[i] == x, "unique", "%s: type %zu is %d but should be %d", what, i, v[i], x);
          i++;
        }
        break;
      }
      case BOX_AGG: {
        CheckArrayShape(a, 1, what);
        SIM_CHECK(a->n_children == 4 && a->null_count == 0, "box", "%s", what);
        Bounds b;
        for (auto& f : all)
          if (!f.null) b.Add(f.g);
        CheckBox(a, 0, b, what);
        break;
      }
      default:
        break;
    }
  }
  int fixed = 0;
};
}  // namespace kern

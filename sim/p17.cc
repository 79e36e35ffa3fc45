// P17: types, metadata and schemas describe each other losslessly.
#include <cstdlib>
#include <string>
#include <vector>
#include "jsonref.h"
#include "schematree.h"
// The C++ header's own allocations go through the simulated allocator.
extern "C" void* sim_malloc(size_t);
extern "C" void sim_free(void*);
#define malloc sim_malloc
#define free sim_free
#include "geoarrow/hpp/geometry_data_type.hpp"
#undef malloc
#undef free
using namespace st;
using geoarrow::GeometryDataType;

// What a type says besides its layout.
struct Meta {
  int edge = 0, kind = 0;
  std::string text;  // the CRS, as its user sees it
  bool operator==(const Meta& o) const { return edge == o.edge && kind == o.kind && text == o.text; }
};
static std::string ShowMeta(const Meta& m) {
  return "edge " + std::to_string(m.edge) + " crs type " + std::to_string(m.kind) + " '" + m.text.substr(0, 120) + "'";
}
struct Slot {
  Schema s;
  bool live = false;
  int type = 0;
  std::vector<std::pair<std::string, std::string>> others;  // unrelated entries, in order
  bool has_ext = false, has_meta = false;
  Meta m;
};
struct Value {
  bool live = false;
  GeometryDataType t;
  int type = 0;
  Meta m;
};

static std::string CrsText(int* form) {
  static const char* const p[] = {"EPSG:4326", "OGC:CRS84", "GEOGCRS[\"WGS 84\",DATUM[\"x\"]]", "\\", "\"", "a\\b", "\n", "\t", "\x01", "\x1f", "\x7f",
                                  "\xc3\xa9", "\xf0\x9f\x98\x80", "{", "}", "[1]", " ", "null", "4326", "'", "\\n", "\\u0041", "/", "\r\n", "\xff", ","};
  *form = (int)W({5, 2, 2});
  std::string s;
  uint32_t n = Small(5);
  if (*form == 0) {  // plain text
    for (uint32_t i = 0; i < n; i++) s += p[D(sizeof p / sizeof *p)];
    if (B(12)) s.insert(D((uint32_t)s.size() + 1), 1, '\0');
    if (B(10))
      for (uint32_t i = D(3000); i > 0; i--) s += (char)(32 + i * 7 % 90);
    while (!s.empty() && (s[0] == '{' || s[0] == '"')) s.erase(0, 1);
    return s;
  }
  if (*form == 1) {  // a JSON object, taken as it is
    s = "{\"type\":\"GeographicCRS\",\"name\":\"";
    for (uint32_t i = 0; i < n; i++) s += "WGS \\\"\\\\ {[";
    s += "\",\"id\":{\"authority\":\"EPSG\",\"code\":4326},\"l\":[1,[],{\"a\":[]}, null]}";
    return s;
  }
  s = "\"";  // a JSON string, taken as it is
  static const char* const q[] = {"EPSG:4326", "\\\"", "\\\\", "\\n", "\\u00e9", "\\ud83d\\ude00", "x", "{", "\\/", "\\t", "\\u0000"};
  for (uint32_t i = 0; i < n; i++) s += q[D(11)];
  return s + "\"";
}
// A view of drawn metadata; *store keeps the text alive.
static Meta DrawMeta(std::unique_ptr<char[]>* store, GeoArrowMetadataView* v) {
  Meta m;
  memset(v, 0, sizeof *v);
  m.edge = D(2) ? (int)D(6) : 0;
  m.kind = D(3) ? 1 + (int)D(5) : 0;
  v->edge_type = (enum GeoArrowEdgeType)m.edge;
  v->crs_type = (enum GeoArrowCrsType)m.kind;
  if (m.kind) {
    int form;
    std::string raw = CrsText(&form);
    store->reset(new char[raw.size()]);
    memcpy(store->get(), raw.data(), raw.size());
    v->crs.data = store->get();
    v->crs.size_bytes = (int64_t)raw.size();
    m.text = raw;
    if (form == 2) {
      jsonref::Reader r(raw);
      bool exact;
      m.text.clear();
      r.Str(&m.text, &exact);
    }
  }
  return m;
}
static Meta MetaOf(const GeoArrowMetadataView& v) {
  Meta m;
  m.edge = (int)v.edge_type;
  m.kind = (int)v.crs_type;
  int64_t n = GeoArrowUnescapeCrs(v.crs, nullptr, 0);
  SIM_CHECK(n >= 0, "unescape", "%lld", (long long)n);
  std::unique_ptr<char[]> out(new char[(size_t)n]);
  GeoArrowUnescapeCrs(v.crs, out.get(), n);
  m.text.assign(out.get(), (size_t)n);
  return m;
}
static void ParseInto(const std::string& json, Meta* m, const char* where) {
  std::unique_ptr<char[]> in(new char[json.size()]);
  memcpy(in.get(), json.data(), json.size());
  GeoArrowStringView sv;
  sv.data = in.get();
  sv.size_bytes = (int64_t)json.size();
  GeoArrowMetadataView v;
  GeoArrowError err;
  err.message[0] = 0;
  int rc = GeoArrowMetadataViewInit(&v, sv, &err);
  SIM_CHECK(rc == 0, "reparse", "%s: %d (%s) for %.400s", where, rc, err.message, json.c_str());
  *m = MetaOf(v);
}
// The JSON text itself, seen by the reference.
static void CheckJson(const std::string& json, const Meta& m, const char* where) {
  jsonref::Meta r = jsonref::Parse(json);
  bool utf8 = true;
  SIM_CHECK(r.verdict == jsonref::ACCEPT, "not-json", "%s: wrote %.400s for %s", where, json.c_str(), ShowMeta(m).c_str());
  SIM_CHECK(r.edge == m.edge && r.kind == m.kind, "json-meaning", "%s: wrote %.400s for %s", where, json.c_str(), ShowMeta(m).c_str());
  if (utf8 && r.text_spec) SIM_CHECK(r.text == m.text, "json-text", "%s: wrote %.400s for %s", where, json.c_str(), ShowMeta(m).c_str());
  Meta got;
  ParseInto(json, &got, where);
  SIM_CHECK(got == m, "round-trip", "%s: %s became %s", where, ShowMeta(m).c_str(), ShowMeta(got).c_str());
}

static std::vector<std::pair<std::string, std::string>> Entries(const char* md) {
  std::vector<std::pair<std::string, std::string>> kv;
  if (!md) return kv;
  int32_t n;
  auto get = [&]() {
    int32_t v;
    memcpy(&v, md, 4);
    md += 4;
    return v;
  };
  n = get();
  for (int32_t i = 0; i < n; i++) {
    std::string s[2];
    for (auto& x : s) {
      int32_t l = get();
      x.assign(md, (size_t)l);
      md += l;
    }
    kv.push_back({s[0], s[1]});
  }
  return kv;
}
static Tree FromSchema(const ArrowSchema* s) {
  Tree t;
  t.format = s->format;
  t.has_name = s->name != nullptr;
  if (s->name) t.name = s->name;
  t.flags = s->flags;
  for (int64_t i = 0; i < s->n_children; i++) t.kids.push_back(FromSchema(s->children[i]));
  return t;
}
// The library writes the documented layout with the documented names, and only the outermost
// level may hold nulls.
static std::string Shape(const Tree& t, bool top) {
  std::string s = t.format + (top ? "" : ":" + t.name) + (t.flags & ARROW_FLAG_NULLABLE ? "?" : "") + "(";
  for (auto& k : t.kids) s += Shape(k, false);
  return s + ")";
}
static std::string WantShape(int type) {
  std::string ext;
  Tree t = Layout((enum GeoArrowType)type, &ext);
  int gt = type % 10000 % 1000;
  static const std::vector<const char*> names[] = {{}, {}, {"vertices"}, {"rings", "vertices"}, {"points"}, {"linestrings", "vertices"}, {"polygons", "rings", "vertices"}};
  Tree* x = &t;
  if (type < 100000 && gt <= 6)
    for (auto n : names[gt]) {
      x = &x->kids[0];
      x->name = n;
    }
  std::function<void(Tree&)> fix = [&](Tree& k) {
    for (auto& c : k.kids) {
      c.flags = 0;
      fix(c);
    }
  };
  fix(t);
  return Shape(t, true);
}
static void CheckSlot(const Slot& x, const char* where) {
  if (!x.live) return;
  const ArrowSchema* s = &x.s.s;
  SIM_CHECK(s->release != nullptr, "released", "%s: the schema was released", where);
  // storage
  std::string ext;
  Layout((enum GeoArrowType)x.type, &ext);
  int t = 0;
  int ref = Recognise(FromSchema(s), ext, &t);
  SIM_CHECK(ref == 1 && t == x.type, "storage", "%s: the storage for type %d is recognised as %d (%d)", where, x.type, t, ref);
  SIM_CHECK(Shape(FromSchema(s), true) == WantShape(x.type), "layout", "%s: type %d is written as %s, not %s", where, x.type, Shape(FromSchema(s), true).c_str(),
            WantShape(x.type).c_str());
  // metadata entries
  std::vector<std::pair<std::string, std::string>> rest;
  std::string name, meta;
  int n_name = 0, n_meta = 0;
  for (auto& p : Entries(s->metadata)) {
    if (p.first == "ARROW:extension:name") {
      name = p.second;
      n_name++;
    } else if (p.first == "ARROW:extension:metadata") {
      meta = p.second;
      n_meta++;
    } else {
      rest.push_back(p);
    }
  }
  SIM_CHECK(rest == x.others, "unrelated", "%s: unrelated metadata entries changed (%zu, expected %zu)", where, rest.size(), x.others.size());
  SIM_CHECK(n_name == (x.has_ext ? 1 : 0) && (!x.has_ext || name == ext), "extension-name", "%s: %d extension names (%s), type %d", where, n_name, name.c_str(), x.type);
  SIM_CHECK(n_meta <= 1 && (n_meta == 1 || !x.has_meta || x.m == Meta()), "extension-metadata", "%s: %d extension metadata entries", where, n_meta);
  if (n_meta) {
    if (!meta.empty()) CheckJson(meta, x.m, where);
    else SIM_CHECK(x.m == Meta(), "extension-metadata", "%s: empty metadata for %s", where, ShowMeta(x.m).c_str());
  } else {
    SIM_CHECK(x.m == Meta(), "extension-metadata", "%s: no metadata for %s", where, ShowMeta(x.m).c_str());
  }
  // through the library
  GeoArrowSchemaView v;
  GeoArrowError err;
  err.message[0] = 0;
  if (x.has_ext) {
    int rc = GeoArrowSchemaViewInit(&v, s, &err);
    SIM_CHECK(rc == 0, "view", "%s: %d %s", where, rc, err.message);
    Meta m;
    GeoArrowMetadataView mv;
    SIM_CHECK(GeoArrowMetadataViewInit(&mv, v.extension_metadata, &err) == 0, "view", "%s: %s", where, err.message);
    m = MetaOf(mv);
    SIM_CHECK(m == x.m, "view-meta", "%s: %s, not %s", where, ShowMeta(m).c_str(), ShowMeta(x.m).c_str());
  } else {
    SIM_CHECK(GeoArrowSchemaViewInit(&v, s, &err) != 0, "view", "%s: a schema without an extension name is an extension type", where);
    GeoArrowStringView e;
    e.data = ext.data();
    e.size_bytes = (int64_t)ext.size();
    SIM_CHECK(GeoArrowSchemaViewInitFromStorage(&v, s, e, &err) == 0, "view", "%s: %s", where, err.message);
  }
  SIM_CHECK((int)v.type == x.type, "view-type", "%s: type %d, not %d", where, (int)v.type, x.type);
  GeoArrowSchemaView w;
  SIM_CHECK(GeoArrowSchemaViewInitFromType(&w, (enum GeoArrowType)x.type) == 0, "view-from-type", "%d", x.type);
  SIM_CHECK(w.type == v.type && w.geometry_type == v.geometry_type && w.dimensions == v.dimensions && w.coord_type == v.coord_type, "view-parts",
            "type %d is %d/%d/%d from its schema and %d/%d/%d from its id", x.type, (int)v.geometry_type, (int)v.dimensions, (int)v.coord_type,
            (int)w.geometry_type, (int)w.dimensions, (int)w.coord_type);
  SIM_CHECK(std::string(w.extension_name.data, (size_t)w.extension_name.size_bytes) == ext, "view-name", "%d", x.type);
}
static void CheckValue(const Value& v, const char* where) {
  if (!v.live) return;
  int w = v.type % 10000;
  bool ser = v.type >= 100000;
  std::string ext;
  Layout((enum GeoArrowType)v.type, &ext);
  SIM_CHECK((int)v.t.id() == v.type, "hpp-type", "%s: %d, not %d", where, (int)v.t.id(), v.type);
  SIM_CHECK((int)v.t.geometry_type() == (ser ? 0 : w % 1000) && (int)v.t.dimensions() == (ser ? 0 : w / 1000 + 1) &&
                (int)v.t.coord_type() == (ser ? 0 : v.type >= 10000 ? 2 : 1),
            "hpp-parts", "%s: type %d", where, v.type);
  SIM_CHECK(v.t.num_dimensions() == (ser ? -1 : (int)strlen(DimStr(w / 1000 + 1))), "hpp-parts", "%s: type %d has %d dimensions", where, v.type, v.t.num_dimensions());
  SIM_CHECK(v.t.extension_name() == ext, "hpp-ext", "%s: %s", where, v.t.extension_name().c_str());
  Meta m;
  m.edge = (int)v.t.edge_type();
  m.kind = (int)v.t.crs_type();
  m.text = v.t.crs();
  SIM_CHECK(m == v.m, "hpp-meta", "%s: %s, not %s", where, ShowMeta(m).c_str(), ShowMeta(v.m).c_str());
  CheckJson(v.t.extension_metadata(), v.m, where);
}

static bool ValidType(int t) {
  if (t > 100000 && t <= 100006) return true;
  if (t < 1 || t >= 20000) return false;
  int n = t % 10000;
  return n / 1000 < 4 && ((n % 1000 >= 1 && n % 1000 <= 6) || (t < 10000 && n % 1000 == 990));
}
static void Algebra() {
  static const char* const gname[] = {"", "POINT", "LINESTRING", "POLYGON", "MULTIPOINT", "MULTILINESTRING", "MULTIPOLYGON"};
  uint32_t k = D(9);
  int g = k == 8 ? 990 : (int)k, d = (int)D(5), c = (int)D(3);
  enum GeoArrowType t = GeoArrowMakeType((enum GeoArrowGeometryType)g, (enum GeoArrowDimensions)d, (enum GeoArrowCoordType)c);
  bool ok = ((g >= 1 && g <= 6) || (g == 990 && c == 1)) && d && c;
  int want = ok ? (d - 1) * 1000 + (c - 1) * 10000 + g : 0;
  if (g != 7 || !d || !c) SIM_CHECK((int)t == want, "make-type", "%d/%d/%d is %d, not %d", g, d, c, (int)t, want);
  if (ok) {
    SIM_CHECK((int)GeoArrowGeometryTypeFromType(t) == g && (int)GeoArrowDimensionsFromType(t) == d && (int)GeoArrowCoordTypeFromType(t) == c, "type-parts",
              "%d is %d/%d/%d", (int)t, (int)GeoArrowGeometryTypeFromType(t), (int)GeoArrowDimensionsFromType(t), (int)GeoArrowCoordTypeFromType(t));
    std::string ext;
    Layout(t, &ext);
    SIM_CHECK(ext == GeoArrowExtensionNameFromType(t), "type-name", "%d is %s", (int)t, GeoArrowExtensionNameFromType(t));
    if (g != 990) SIM_CHECK(!strcmp(GeoArrowGeometryTypeString((enum GeoArrowGeometryType)g), gname[g]), "type-string", "%d", g);
    SIM_CHECK(!strcmp(GeoArrowDimensionsString((enum GeoArrowDimensions)d), DimStr(d)), "dims-string", "%d", d);
  }
  static const char* const edges[] = {"planar", "spherical", "vincenty", "thomas", "andoyer", "karney"};
  static const char* const kinds[] = {"projjson", "wkt2:2019", "authority_code", "srid"};
  int e = (int)D(6), q = (int)D(4);
  SIM_CHECK(!strcmp(GeoArrowEdgeTypeString((enum GeoArrowEdgeType)e), edges[e]), "edge-string", "%d", e);
  SIM_CHECK(!strcmp(GeoArrowCrsTypeString((enum GeoArrowCrsType)(q + 2)), kinds[q]), "crs-string", "%d", q + 2);
}

static void Run() {
  Slot s[3];
  Value v[3];
  uint32_t ops = 3 + Small(20);
  bool faults = D(2);
  uint64_t fired_total = 0;
  for (uint32_t o = 0; o < ops; o++) {
    sim::FaultPlan plan;
    bool arm = faults && D(3) == 0;
    if (arm) {
      plan.first = 1 + Small(16);
      plan.burst = D(4) ? 1 : 1000;
    }
    uint64_t fired = 0;
    const char* what = "";
    int rc = 0;
    uint32_t i = D(3), j = D(3);
    GeoArrowError err;
    err.message[0] = 0;
    sim::StackFill();
    auto begin = [&]() {
      if (arm) sim::ArmAlloc(plan);
    };
    auto end = [&]() {
      if (arm) fired = sim::DisarmAlloc();
      arm = false;
      fired_total += fired;
    };
    auto outcome = [&](bool expect_ok) {
      if (expect_ok)
        SIM_CHECK(rc == 0 || fired, "op-failed", "%s returned %d (%s)", what, rc, err.message);
      else
        SIM_CHECK(rc != 0, "op-succeeded", "%s succeeded", what);
    };
    uint32_t op = W({4, 4, 4, 3, 2, 2, 2, 2, 3, 3, 3, 2});
    if ((op == 1 || op == 2 || op == 3) && !s[i].live) op = 0;
    if ((op == 2 || op == 4) && !s[j].live) {
      op = 0;
      i = j;
    }
    if ((op == 9 || op == 10) && !v[j].live) {
      op = 8;
      i = j;
    }
    switch (op) {
      case 0: {  // a fresh schema
        bool ext = D(4) != 0;
        what = ext ? "init-extension" : "init";
        int t = (int)DrawType();
        if (B(8)) {
          static const int odd[] = {0, 7, 989, 991, 4001, 10990, 20001, 100000, 100007, -1, -5, -1000, 5990, 14001, 9999, 1000, 10000, 99999, 2147483647};
          t = odd[D(19)];
        }
        Slot n;
        n.s.s.release = (void (*)(ArrowSchema*))1;
        begin();
        rc = ext ? GeoArrowSchemaInitExtension(&n.s.s, (enum GeoArrowType)t) : GeoArrowSchemaInit(&n.s.s, (enum GeoArrowType)t);
        end();
        if (n.s.s.release == (void (*)(ArrowSchema*))1) n.s.s.release = nullptr;  // not touched
        outcome(ValidType(t));
        if (rc) {
          SIM_CHECK(n.s.s.release == nullptr, "failed-init", "%s of type %d returned %d with a live schema", what, t, rc);
          break;
        }
        if (s[i].s.s.release) s[i].s.s.release(&s[i].s.s);
        memcpy(&s[i].s.s, &n.s.s, sizeof(ArrowSchema));
        n.s.s.release = nullptr;
        s[i].live = true;
        s[i].type = t;
        s[i].has_ext = ext;
        s[i].has_meta = false;
        s[i].others.clear();
        s[i].m = Meta();
        break;
      }
      case 1: {  // set metadata
        what = "set-metadata";
        if (!s[i].live) break;
        std::unique_ptr<char[]> store;
        GeoArrowMetadataView mv;
        Meta m = DrawMeta(&store, &mv);
        sim::Note("  set %s", ShowMeta(m).c_str());
        begin();
        rc = GeoArrowSchemaSetMetadata(&s[i].s.s, &mv);
        end();
        outcome(true);
        if (!rc) {
          s[i].m = m;
          s[i].has_meta = true;
        }
        break;
      }
      case 2: {  // from another schema (or itself)
        what = "set-metadata-from";
        if (!s[i].live || !s[j].live) break;
        begin();
        rc = GeoArrowSchemaSetMetadataFrom(&s[i].s.s, &s[j].s.s);
        end();
        outcome(true);
        if (!rc) {
          s[i].m = s[j].m;
          s[i].has_meta = s[j].has_meta;
        }
        break;
      }
      case 3: {  // somebody else's entries
        what = "unrelated";
        if (!s[i].live) break;
        static const char* const keys[] = {"k", "ARROW:extension:nam", "ARROW:extension:metadata2", "", "PARQUET:field_id", "comment"};
        std::string key = keys[D(6)], val(Small(20), 'v');
        ArrowBuffer b;
        SIM_CHECK(ArrowMetadataBuilderInit(&b, s[i].s.s.metadata) == 0, "setup", "builder");
        ArrowStringView kv, vv;
        kv.data = key.data();
        kv.size_bytes = (int64_t)key.size();
        vv.data = val.data();
        vv.size_bytes = (int64_t)val.size();
        bool have = false;
        for (auto& p : s[i].others) have |= p.first == key;
        if (!have) {
          SIM_CHECK(ArrowMetadataBuilderAppend(&b, kv, vv) == 0, "setup", "builder");
          SIM_CHECK(ArrowSchemaSetMetadata(&s[i].s.s, (const char*)b.data) == 0, "setup", "set");
          s[i].others.push_back({key, val});
        }
        ArrowBufferReset(&b);
        break;
      }
      case 4: {  // copy
        what = "copy";
        if (!s[j].live || i == j) break;
        Schema n;
        SIM_CHECK(ArrowSchemaDeepCopy(&s[j].s.s, &n.s) == 0, "setup", "copy");
        if (s[i].s.s.release) s[i].s.s.release(&s[i].s.s);
        memcpy(&s[i].s.s, &n.s, sizeof(ArrowSchema));
        n.s.release = nullptr;
        s[i].live = true;
        s[i].type = s[j].type;
        s[i].has_ext = s[j].has_ext;
        s[i].has_meta = s[j].has_meta;
        s[i].others = s[j].others;
        s[i].m = s[j].m;
        break;
      }
      case 5: {  // release or move away
        what = "release";
        if (!s[i].live) break;
        s[i].s.s.release(&s[i].s.s);
        s[i].live = false;
        break;
      }
      case 6:
        what = "algebra";
        Algebra();
        break;
      case 7: {  // serialise, parse, serialise ...
        what = "serialise";
        std::unique_ptr<char[]> store;
        GeoArrowMetadataView mv;
        Meta m;
        if (B(6)) {
          memset(&mv, 0, sizeof mv);
          GeoArrowMetadataSetLonLat(&mv);
          m = MetaOf(mv);
          SIM_CHECK(m.kind == jsonref::PROJJSON && m.text.find("CRS84") != std::string::npos && m.edge == 0, "lonlat", "%s", ShowMeta(m).c_str());
        } else {
          m = DrawMeta(&store, &mv);
        }
        std::string text, prev;
        uint32_t rounds = 1 + D(4);
        std::unique_ptr<char[]> keep;
        for (uint32_t r = 0; r < rounds; r++) {
          int64_t n = GeoArrowMetadataSerialize(&mv, nullptr, 0);
          size_t cap = (size_t)n + D(2);
          std::unique_ptr<char[]> out(new char[cap]);
          memset(out.get(), sim::Fill(), cap);
          SIM_CHECK(GeoArrowMetadataSerialize(&mv, out.get(), (int64_t)cap) == n, "serialise-size", "size changed");
          if (cap > (size_t)n) SIM_CHECK(out[(size_t)n] == 0, "serialise-nul", "no terminator");
          text.assign(out.get(), (size_t)n);
          CheckJson(text, m, what);
          if (r) SIM_CHECK(text == prev, "serialise-stable", "%.300s became %.300s", prev.c_str(), text.c_str());
          prev = text;
          keep = std::move(out);
          GeoArrowStringView sv;
          sv.data = keep.get();
          sv.size_bytes = n;
          SIM_CHECK(GeoArrowMetadataViewInit(&mv, sv, &err) == 0, "reparse", "%s", err.message);
          if (r == 0) prev.clear();
          if (r == 0) {  // plain text becomes a JSON string once
            int64_t n2 = GeoArrowMetadataSerialize(&mv, nullptr, 0);
            prev.resize((size_t)n2);
            GeoArrowMetadataSerialize(&mv, &prev[0], n2);
          }
        }
        break;
      }
      case 8: {  // C++ value from a schema, a type or parts
        what = "make-value";
        try {
          if (D(2) && s[j].live) {
            if (s[j].has_ext) {
              v[i].t = GeometryDataType::Make(&s[j].s.s);
              v[i].m = s[j].m;
            } else {
              std::string ext, json;
              Layout((enum GeoArrowType)s[j].type, &ext);
              std::unique_ptr<char[]> store;
              GeoArrowMetadataView mv;
              Meta m = DrawMeta(&store, &mv);
              json.resize((size_t)GeoArrowMetadataSerialize(&mv, nullptr, 0));
              GeoArrowMetadataSerialize(&mv, &json[0], (int64_t)json.size());
              v[i].t = GeometryDataType::Make(&s[j].s.s, ext, json);
              v[i].m = m;
            }
            v[i].type = s[j].type;
          } else {
            int t = (int)DrawType();
            std::string json;
            Meta m;
            if (D(2)) {
              std::unique_ptr<char[]> store;
              GeoArrowMetadataView mv;
              m = DrawMeta(&store, &mv);
              json.resize((size_t)GeoArrowMetadataSerialize(&mv, nullptr, 0));
              GeoArrowMetadataSerialize(&mv, &json[0], (int64_t)json.size());
            }
            int w = t % 10000;
            if (t < 100000 && D(2))
              v[i].t = GeometryDataType::Make((enum GeoArrowGeometryType)(w % 1000), (enum GeoArrowDimensions)(w / 1000 + 1),
                                              t >= 10000 ? GEOARROW_COORD_TYPE_INTERLEAVED : GEOARROW_COORD_TYPE_SEPARATE, json);
            else
              v[i].t = GeometryDataType::Make((enum GeoArrowType)t, json);
            v[i].m = m;
            v[i].type = t;
          }
          v[i].live = true;
        } catch (const geoarrow::Exception& e) {
          Fail("hpp-throw", "making a value: %s", e.what());
        }
        break;
      }
      case 9: {  // change one field of a C++ value
        what = "with";
        if (!v[j].live) break;
        int t = v[j].type, w = t % 10000, g = w % 1000, d = w / 1000 + 1, c = t >= 10000 ? 2 : 1;
        bool ser = t >= 100000;
        Value r;
        r.live = true;
        r.m = v[j].m;
        r.type = t;
        bool ok = true;
        uint32_t k = D(9);
        try {
          switch (k) {
            case 0:
              r.m.edge = (int)D(6);
              r.t = v[j].t.WithEdgeType((enum GeoArrowEdgeType)r.m.edge);
              break;
            case 1: {
              int form;
              std::string raw = CrsText(&form);
              r.m.kind = 1 + (int)D(5);
              r.m.text = raw;
              if (form == 2) {
                jsonref::Reader rd(raw);
                bool exact;
                r.m.text.clear();
                rd.Str(&r.m.text, &exact);
              }
              r.t = r.m.kind == 1 && D(2) ? v[j].t.WithCrs(raw) : v[j].t.WithCrs(raw, (enum GeoArrowCrsType)r.m.kind);
              break;
            }
            case 2: {
              GeoArrowMetadataView mv;
              memset(&mv, 0, sizeof mv);
              GeoArrowMetadataSetLonLat(&mv);
              r.m.kind = jsonref::PROJJSON;
              r.m.text.assign(mv.crs.data, (size_t)mv.crs.size_bytes);
              r.t = v[j].t.WithCrsLonLat();
              break;
            }
            case 3: {
              int nd = (int)D(5);
              ok = !ser && nd > 0;
              r.type = t - (d - 1) * 1000 + (nd - 1) * 1000;
              r.t = nd == 1 && D(2) ? v[j].t.XY() : nd == 2 && D(2) ? v[j].t.XYZ() : nd == 3 && D(2) ? v[j].t.XYM() : nd == 4 && D(2) ? v[j].t.XYZM()
                                                                                               : v[j].t.WithDimensions((enum GeoArrowDimensions)nd);
              break;
            }
            case 4: {
              int nc = (int)D(3);
              ok = !ser && nc > 0 && !(g == 990 && nc == 2);
              r.type = w + (nc - 1) * 10000;
              r.t = v[j].t.WithCoordType((enum GeoArrowCoordType)nc);
              break;
            }
            case 5: {
              int ng = (int)D(7);
              ok = !ser && ng > 0;
              r.type = t - g + ng;
              r.t = v[j].t.WithGeometryType((enum GeoArrowGeometryType)ng);
              break;
            }
            case 6:
              ok = !ser && g != 990;
              r.type = t - g + (g > 3 ? g - 3 : g);
              r.t = v[j].t.Simple();
              break;
            case 7:
              ok = !ser && g != 990;
              r.type = t - g + (g <= 3 ? g + 3 : g);
              r.t = v[j].t.Multi();
              break;
            default: {  // copies and moves
              GeometryDataType a(v[j].t), b;
              b = a;
              GeometryDataType c2(std::move(a));
              b = std::move(c2);
              r.t = b;
            }
          }
          SIM_CHECK(ok, "hpp-accepted", "change %u of type %d was accepted", k, t);
          v[i].t = D(2) ? r.t : std::move(r.t);
          v[i].live = true;
          v[i].m = r.m;
          v[i].type = r.type;
        } catch (const geoarrow::Exception& e) {
          SIM_CHECK(!ok, "hpp-throw", "change %u of type %d: %s", k, t, e.what());
        }
        break;
      }
      case 10: {  // C++ value to a schema
        what = "value-to-schema";
        if (!v[j].live) break;
        bool storage = D(4) == 0;
        Schema n;
        try {
          begin();
          if (storage)
            v[j].t.InitStorageSchema(&n.s);
          else
            v[j].t.InitSchema(&n.s);
          end();
        } catch (const geoarrow::Exception& e) {
          end();
          SIM_CHECK(fired, "hpp-throw", "to schema: %s", e.what());
          break;
        }
        SIM_CHECK(n.s.release != nullptr, "hpp-schema", "nothing was exported");
        if (s[i].s.s.release) s[i].s.s.release(&s[i].s.s);
        memcpy(&s[i].s.s, &n.s, sizeof(ArrowSchema));
        n.s.release = nullptr;
        s[i].live = true;
        s[i].type = v[j].type;
        s[i].has_ext = !storage;
        s[i].has_meta = !storage;
        s[i].others.clear();
        s[i].m = storage ? Meta() : v[j].m;
        break;
      }
      default:
        what = "to-string";
        if (v[i].live && arm) {
          std::string text, json;
          bool threw = false;
          try {
            begin();
            if (D(2))
              text = v[i].t.crs();
            else
              json = v[i].t.extension_metadata();
            end();
          } catch (const std::exception& e) {
            end();
            threw = true;
            SIM_CHECK(fired, "hpp-throw", "%s", e.what());
          }
          if (!threw && !json.empty()) CheckJson(json, v[i].m, what);
          if (!threw && json.empty()) SIM_CHECK(text == v[i].m.text, "hpp-crs", "crs() was %.200s", text.c_str());
        } else if (v[i].live) {
          std::string t = v[i].t.ToString(D(2) ? 40 : 10 + D(100));
          SIM_CHECK(t.find(v[i].t.extension_name()) != std::string::npos, "hpp-string", "%s", t.c_str());
        }
    }
    Log("%s %u %u -> %d%s", what, i, j, rc, fired ? " fault" : "");
    if (fired) Count("fault.alloc", fired);
    for (auto& x : s) CheckSlot(x, what);
    for (auto& x : v) CheckValue(x, what);
    uint64_t h = 0;
    for (auto& x : s) h = sim::Mix(h, x.live ? (uint64_t)x.type * 64 + (uint64_t)x.m.edge * 8 + (uint64_t)x.m.kind : 1);
    sim::State(h);
    if (o > 1 && (s[0].live || s[1].live || s[2].live)) sim::NonTrivial();
  }
  for (auto& x : s)
    if (x.s.s.release) x.s.s.release(&x.s.s);
  for (auto& x : v) x.t = GeometryDataType();
  sim::CheckNoLeaks("leak");
}
SIM_PROPERTY("P17", Run, 400000, 20000000,
             "histories of creating, describing, copying and changing schemas, metadata views and C++ data types, some under allocation failures");

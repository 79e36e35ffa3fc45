// P07: schemas, extension metadata and kernel options from another party.
#include "jsonref.h"
#include "schematree.h"
using namespace st;

// ---- JSON --------------------------------------------------------------------------------
static std::string JStr(const std::string& raw) { return "\"" + raw + "\""; }
static std::string StrBody() {
  static const char* const p[] = {"a", "EPSG:4326", "OGC:CRS84", " ", "\\\"", "\\\\", "\\n", "\\t", "\\/", "\\u00e9", "\\u0041",
                                  "\\ud83d\\ude00", "{", "}", "[", "]", ",", ":", "'", "GEOGCRS[", "\xc3\xa9", "\x7f", "4326", "null",
                                  "\\u0000", "\\b", "\\r", "\\f", "\\uFFFD", "\\u20aC"};
  std::string s;
  uint32_t n = Small(6);
  for (uint32_t i = 0; i < n; i++) s += p[D(sizeof p / sizeof *p)];
  return s;
}
static std::string Sp() {
  static const char* const p[] = {"", " ", "\n", "\t", "  ", "\r\n", " \t "};
  return p[D(3) == 2 ? D(7) : 0];
}
static std::string JValue(uint32_t depth) {
  switch (W({3, 1, 1, 1, 1, 3, 3})) {
    case 0:
      return JStr(StrBody());
    case 1:
      return "null";
    case 2:
      return "true";
    case 3:
      return "false";
    case 4: {
      static const char* const n[] = {"0", "-1", "4326", "298.257223563", "1e9", "-0.5E-3", "6378137"};
      return n[D(7)];
    }
    case 5: {
      if (depth == 0) return "[]";
      std::string s = "[";
      uint32_t n = Small(3);
      for (uint32_t i = 0; i < n; i++) s += (i ? "," : "") + Sp() + JValue(depth - 1) + Sp();
      return s + "]";
    }
    default: {
      if (depth == 0) return "{}";
      std::string s = "{";
      uint32_t n = Small(3);
      for (uint32_t i = 0; i < n; i++)
        s += (i ? "," : "") + Sp() + JStr(StrBody()) + Sp() + ":" + Sp() + JValue(depth - 1) + Sp();
      return s + "}";
    }
  }
}
static std::string JObject(uint32_t depth) {
  std::string s = "{";
  uint32_t n = Small(3);
  for (uint32_t i = 0; i < n; i++) s += (i ? "," : "") + Sp() + JStr(StrBody()) + Sp() + ":" + Sp() + JValue(depth);
  return s + Sp() + "}";
}
static std::string Document() {
  static const char* const edges[] = {"planar", "spherical", "vincenty", "thomas", "andoyer", "karney"};
  static const char* const kinds[] = {"projjson", "wkt2:2019", "authority_code", "srid"};
  static const char* const near[] = {"Planar",   "planarr",  "plana",    "sphericaL", "spherica", "karneyx", "wkt2_2019", "wkt2:2018", "projjsn",
                                     "projjsonx", "authority:code", "authority_codes", "srids", "epsg", "geodesic", "12345678", "123456789", "abcd",
                                     "abcdefghijklmn", "wkt2:201", ""};
  std::string s = Sp() + "{";
  std::vector<std::string> m;
  auto add = [&](const char* k, const std::string& v) { m.push_back(JStr(k) + Sp() + ":" + Sp() + v); };
  auto nearv = [&]() { return JStr(near[D(sizeof near / sizeof *near)]); };
  if (D(2)) add("edges", B(8) ? (D(2) ? nearv() : JValue(1)) : B(8) ? "null" : JStr(edges[D(6)]));
  if (D(3))
    add("crs", D(2) ? JStr(StrBody()) : D(4) ? JObject(Small(4)) : D(2) ? "null" : JValue(1));
  if (D(2)) add("crs_type", B(6) ? (D(4) ? nearv() : JValue(1)) : JStr(kinds[D(4)]));
  uint32_t extra = D(3) == 2 ? 1 + Small(3) : 0;
  for (uint32_t i = 0; i < extra; i++) {
    static const char* const keys[] = {"", "other", "crs2", "edge", "crs_typ", "Edges", "CRS", "crs_types", "edgess", "cr", "{", "x"};
    std::string v = JValue(Small(3));
    if (D(8) && (v[0] != '"' && v[0] != '{' && v[0] != '[' && v[0] != 'n')) v = JStr(v);
    add(keys[D(sizeof keys / sizeof *keys)], v);
  }
  if (B(24) && !m.empty()) m.push_back(m[D((uint32_t)m.size())]);
  for (size_t i = m.size(); i > 1; i--) std::swap(m[i - 1], m[D((uint32_t)i)]);
  for (size_t i = 0; i < m.size(); i++) s += (i ? "," : "") + Sp() + m[i] + Sp();
  return s + "}" + Sp();
}
static std::string Metadata(const char** kind) {
  static const char* const tok[] = {"{", "}", "[", "]", ",", ":", "\"", "\\", "null", "\"edges\"", "\"crs\"", "\"crs_type\"", "\"spherical\"",
                                    " ", "\n", "nul", "true", "1", "\\u", "x", "\"a\"", "\"projjson\"", "{}", "[]", "nullnull"};
  std::string s;
  auto token = [&]() { return B(12) ? std::string(1, '\0') : std::string(tok[D(sizeof tok / sizeof *tok)]); };
  switch (W({6, 3, 6, 3, 2, 1, 2, 2, 1})) {
    case 0:
      *kind = "valid";
      return Document();
    case 1:
      *kind = "truncated";
      s = Document();
      s.resize(D((uint32_t)s.size()));
      return s;
    case 2: {
      *kind = "token";
      s = Document();
      uint32_t n = 1 + Small(2);
      for (uint32_t i = 0; i < n; i++) {
        size_t at = D((uint32_t)s.size() + 1);
        if (D(2))
          while (at < s.size() && !strchr("{}[],:\"", s[at])) at++;
        switch (D(3)) {
          case 0:
            s.insert(at, token());
            break;
          case 1:
            if (at < s.size()) s.erase(at, 1);
            break;
          default:
            if (at < s.size()) s.replace(at, 1, token());
        }
      }
      return s;
    }
    case 3: {
      *kind = "bytes";
      s = Document();
      uint32_t n = 1 + D(3);
      for (uint32_t i = 0; i < n && !s.empty(); i++) {
        size_t at = D((uint32_t)s.size());
        switch (D(4)) {
          case 0:
            s[at] ^= (char)(1u << D(8));
            break;
          case 1:
            s[at] = (char)D(256);
            break;
          case 2:
            s[at] = '\0';
            break;
          default:
            s.erase(at, 1 + D(4));
        }
      }
      return s;
    }
    case 4:
      *kind = "trailing";
      return Document() + token() + (D(2) ? Document() : "");
    case 5: {
      *kind = "random";
      uint32_t n = D(30);
      for (uint32_t i = 0; i < n; i++) s += (char)D(256);
      return D(2) ? "{" + s : s;
    }
    case 6: {
      *kind = "tokens";
      uint32_t n = 1 + D(14);
      if (D(2)) s = "{";
      for (uint32_t i = 0; i < n; i++) s += token();
      return s;
    }
    case 7: {
      *kind = "splice";
      s = Document();
      s.resize(D((uint32_t)s.size() + 1));
      std::string b = Document();
      return s + b.substr(D((uint32_t)b.size() + 1));
    }
    default: {
      *kind = "deep";
      uint32_t n = D(2) ? 1 + D(400) : D(8) ? 1 + D(5000) : 150000;
      bool obj = D(2), mixed = B(4);
      s = std::string("{\"") + (D(2) ? "crs" : "other") + "\":" + (obj ? "" : "{\"p\":");
      for (uint32_t i = 0; i < n; i++) s += obj || (mixed && D(2)) ? "{\"k\":" : "[";
      if (mixed || D(4) == 0) return s;
      s += "null";
      s += std::string(n, obj ? '}' : ']');
      return s + (obj ? "" : "}") + "}";
    }
  }
}

static void CheckUnescape(const std::string& raw, const std::string* want) {
  std::unique_ptr<char[]> in(new char[raw.size()]);
  memcpy(in.get(), raw.data(), raw.size());
  GeoArrowStringView sv;
  sv.data = in.get();
  sv.size_bytes = (int64_t)raw.size();
  int64_t n = GeoArrowUnescapeCrs(sv, nullptr, 0);
  SIM_CHECK(n >= 0 && n <= (int64_t)raw.size(), "unescape-size", "%lld for %zu bytes", (long long)n, raw.size());
  size_t cap = D(4) == 0 ? D((uint32_t)n + 1) : (size_t)n + D(3);
  std::unique_ptr<char[]> out(new char[cap]);
  memset(out.get(), 0x7e, cap);
  int64_t n2 = GeoArrowUnescapeCrs(sv, out.get(), (int64_t)cap);
  SIM_CHECK(n2 == n, "unescape-size", "%lld then %lld", (long long)n, (long long)n2);
  size_t got = std::min<size_t>(cap, (size_t)n);
  if (cap > (size_t)n) SIM_CHECK(out[(size_t)n] == 0, "unescape-nul", "no terminator after %lld bytes of %zu", (long long)n, cap);
  if (want) {
    SIM_CHECK((size_t)n == want->size(), "unescape", "%s has %lld bytes, not %zu", raw.c_str(), (long long)n, want->size());
    SIM_CHECK(memcmp(out.get(), want->data(), got) == 0, "unescape", "%.200s was read as %.*s", raw.c_str(), (int)got, out.get());
  }
}

static void RunJson() {
  const char* kind;
  std::string s = Metadata(&kind);
  Count((std::string("fault.metadata_") + kind).c_str());
  jsonref::Meta want = jsonref::Parse(s);
  static const char* const vs[] = {"accept", "reject", "unspecified"};
  sim::Note("metadata %s ref=%s: %.400s", kind, vs[want.verdict], s.c_str());
  std::unique_ptr<char[]> in(new char[s.size()]);
  memcpy(in.get(), s.data(), s.size());
  GeoArrowStringView sv;
  sv.data = in.get();
  sv.size_bytes = (int64_t)s.size();
  GeoArrowError err;
  err.message[0] = 0;
  GeoArrowMetadataView mv;
  memset(&mv, 0x5a, sizeof mv);
  sim::StackFill();
  sim::SetStepBudget(20000 + 100 * (uint64_t)s.size());
  int rc = GeoArrowMetadataViewInit(&mv, sv, B(8) ? nullptr : &err);
  sim::ClearStepBudget();
  Log("%s %zu bytes -> %d, ref %s", kind, s.size(), rc, vs[want.verdict]);
  sim::State(sim::Mix(sim::HashBytes(kind, 3), rc * 8 + want.verdict * 64 + want.edge * 1024 + want.kind));
  if (want.verdict != jsonref::ACCEPT || s.size() > 12) sim::NonTrivial();
  if (want.verdict == jsonref::REJECT) SIM_CHECK(rc != 0, "accepted-malformed", "accepted %.600s", s.c_str());
  if (want.verdict == jsonref::ACCEPT) {
    SIM_CHECK(rc == 0, "rejected-valid", "%d (%s) for %.600s", rc, err.message, s.c_str());
    SIM_CHECK((int)mv.edge_type == want.edge, "edges", "edge type %d, not %d for %.400s", (int)mv.edge_type, want.edge, s.c_str());
    SIM_CHECK((int)mv.crs_type == want.kind, "crs-kind", "crs type %d, not %d for %.400s", (int)mv.crs_type, want.kind, s.c_str());
    SIM_CHECK(mv.metadata.data == sv.data && mv.metadata.size_bytes == sv.size_bytes, "metadata-view", "moved");
    if (want.kind == jsonref::NONE) {
      SIM_CHECK(mv.crs.size_bytes == 0, "crs-text", "%lld bytes of CRS for none", (long long)mv.crs.size_bytes);
    } else {
      SIM_CHECK(mv.crs.size_bytes == (int64_t)want.crs.size() && memcmp(mv.crs.data, want.crs.data(), want.crs.size()) == 0, "crs-text",
                "crs %.*s, not %s", (int)mv.crs.size_bytes, mv.crs.data, want.crs.c_str());
      SIM_CHECK(mv.crs.data >= sv.data && mv.crs.data + mv.crs.size_bytes <= sv.data + sv.size_bytes, "crs-text", "not a view of the input");
    }
  }
  if (rc == 0) {
    // Whatever was accepted: the view lies within the text and can be unescaped and written.
    if (mv.crs.size_bytes) {
      SIM_CHECK(mv.crs.data >= sv.data && mv.crs.data + mv.crs.size_bytes <= sv.data + sv.size_bytes, "crs-view", "outside the text");
      std::string raw(mv.crs.data, (size_t)mv.crs.size_bytes);
      CheckUnescape(raw, want.verdict == jsonref::ACCEPT && want.text_spec ? &want.text : nullptr);
    }
    int64_t n = GeoArrowMetadataSerialize(&mv, nullptr, 0);
    size_t cap = (size_t)n + D(2);
    if (B(3)) cap = D((uint32_t)n);
    std::unique_ptr<char[]> out(new char[cap]);
    memset(out.get(), sim::Fill(), cap);
    SIM_CHECK(GeoArrowMetadataSerialize(&mv, out.get(), (int64_t)cap) == n, "serialize-size", "changed");
    if ((int64_t)cap >= n && want.verdict == jsonref::ACCEPT) {
      std::string t(out.get(), (size_t)n);
      jsonref::Meta again = jsonref::Parse(t);
      SIM_CHECK(again.verdict == jsonref::ACCEPT && again.edge == want.edge && again.kind == want.kind && again.crs == want.crs, "rewrite",
                "%.300s was rewritten as %.300s", s.c_str(), t.c_str());
    }
  }
  if (!want.crs.empty() && B(4)) {  // any bytes, also when they are no JSON
    std::string raw = want.crs;
    raw.resize(D((uint32_t)raw.size() + 1));
    CheckUnescape(raw, nullptr);
  }
}

// ---- schema trees ------------------------------------------------------------------------
static void RunSchema() {
  std::string ext;
  Tree t = Layout(DrawType(), &ext);
  uint32_t n = D(4) ? D(4) : 0;
  std::string kinds;
  for (uint32_t i = 0; i < n; i++) {
    const char* k = Damage(&t);
    Count((std::string("fault.schema_") + k).c_str());
    kinds += std::string(k) + " ";
  }
  bool has_ext = true;
  if (B(5)) {
    static const char* const names[] = {"geoarrow.point", "geoarrow.linestring", "geoarrow.polygon", "geoarrow.multipoint", "geoarrow.multilinestring",
                                        "geoarrow.multipolygon", "geoarrow.box", "geoarrow.wkt", "geoarrow.wkb", "geoarrow.wk", "geoarrow.wkbx",
                                        "geoarrow.wktx", "geoarrow.pointz", "geoarrow.boxx", "ogc.wkb", "", "geoarrow.geometry", "GEOARROW.WKB",
                                        "geoarrow.polygon ", "geoarrow.multipolygon2", "arrow.json"};
    if (D(2)) {
      // one character away from the name that this storage has
      size_t at = D((uint32_t)ext.size());
      static const char more[] = "tsgnzmxy2 _.\0";
      switch (D(6)) {
        case 0:
          ext += more[D(13)];
          break;
        case 1:
          ext += "z_xyzm" + D(6);
          break;
        case 2:
          ext.pop_back();
          break;
        case 3:
          ext.erase(at, 1);
          break;
        case 4:
          ext.insert(at, 1, more[D(13)]);
          break;
        default:
          ext[at] = ext[at] >= 'a' && D(2) ? (char)(ext[at] - 32) : (char)(ext[at] ^ (1 << D(7)));
      }
    } else {
      ext = names[D(sizeof names / sizeof *names)];
    }
    if (B(6) && !ext.empty()) ext[D((uint32_t)ext.size())] = (char)D(2);
    Count("fault.schema_extension");
    kinds += "extension ";
  }
  std::string meta = D(2) ? "{}" : D(2) ? Document() : "";
  bool has_meta = D(4) != 0;
  if (B(12)) has_ext = false;
  bool storage = D(3) == 2;
  auto other = [&]() {
    static const char* const keys[] = {"ARROW:extension:nam", "ARROW:extension:name2", "ARROW:extension:metadat", "k", "", "ARROW:extension", "PARQUET:field_id"};
    if (D(3) == 2) t.md.push_back({keys[D(7)], D(2) ? "geoarrow.wkb" : ""});
  };
  other();
  if (has_ext && D(2)) t.md.push_back({"ARROW:extension:name", ext});
  bool put = !t.md.empty() && t.md.back().first == "ARROW:extension:name";
  if (has_meta) t.md.push_back({"ARROW:extension:metadata", meta});
  if (has_ext && !put) t.md.push_back({"ARROW:extension:name", ext});
  other();
  Schema s;
  ToSchema(t, &s.s);
  int want_type = 0;
  int ref = storage || has_ext ? Recognise(t, ext, &want_type) : 0;
  if (!storage && has_ext && ext.empty()) ref = 0;
  const char* state = "live";
  ArrowSchema saved = s.s;
  if (B(40)) {
    s.s.release = nullptr;
    ref = 0;
    state = "released";
    Count("fault.schema_released");
  } else if (B(40)) {
    s.s.format = nullptr;
    ref = 0;
    state = "no format";
    Count("fault.schema_no_format");
  }
  sim::Note("schema ext=%s (%s) damage=%s%s", ext.c_str(), storage ? "storage" : "extension", kinds.c_str(), state);
  GeoArrowError err;
  err.message[0] = 0;
  GeoArrowSchemaView v;
  memset(&v, sim::Fill(), sizeof v);
  std::unique_ptr<char[]> name(new char[ext.size()]);
  memcpy(name.get(), ext.data(), ext.size());
  GeoArrowStringView nv;
  nv.data = name.get();
  nv.size_bytes = (int64_t)ext.size();
  sim::StackFill();
  sim::SetStepBudget(200000);
  int rc = storage ? GeoArrowSchemaViewInitFromStorage(&v, &s.s, nv, &err) : GeoArrowSchemaViewInit(&v, &s.s, &err);
  sim::ClearStepBudget();
  Log("schema %s -> %d, ref %d type %d", kinds.c_str(), rc, ref, want_type);
  sim::State(sim::Mix(sim::HashBytes(err.message, std::min<size_t>(strlen(err.message), 24)), (uint64_t)ref * 100000 + (uint64_t)want_type));
  if (n || ref != 1) sim::NonTrivial();
  if (ref == 1) {
    SIM_CHECK(rc == 0, "schema-rejected", "%d (%s) for a documented layout of %d", rc, err.message, want_type);
    SIM_CHECK((int)v.type == want_type, "schema-type", "%s storage was taken as %d, not %d", ext.c_str(), (int)v.type, want_type);
    if (want_type < 100000) {
      int w = want_type % 10000;
      SIM_CHECK((int)v.dimensions == w / 1000 + 1 && (int)v.coord_type == (want_type >= 10000 ? 2 : 1) && (int)v.geometry_type == w % 1000, "schema-parts",
                "type %d is described as %d/%d/%d", want_type, (int)v.geometry_type, (int)v.dimensions, (int)v.coord_type);
    }
    SIM_CHECK(v.extension_name.size_bytes == (int64_t)ext.size() && memcmp(v.extension_name.data, ext.data(), ext.size()) == 0, "schema-ext", "%.*s",
              (int)v.extension_name.size_bytes, v.extension_name.data);
    std::string got = v.extension_metadata.size_bytes ? std::string(v.extension_metadata.data, (size_t)v.extension_metadata.size_bytes) : "";
    SIM_CHECK(got == (has_meta ? meta : ""), "schema-metadata", "%s instead of %s", got.c_str(), meta.c_str());
    SIM_CHECK(v.schema == nullptr || v.schema == &s.s, "schema-pointer", "the view refers to another schema");
  }
  if (ref == 0) {
    SIM_CHECK(rc != 0, "schema-accepted", "%s storage that is no documented layout was taken as %d (damage: %s%s)", ext.c_str(), (int)v.type, kinds.c_str(), state);
    SIM_CHECK(err.message[0] != 0, "no-message", "error %d without a message", rc);
  }
  if (!storage && saved.release == s.s.release && s.s.format) {
    // every entry point that takes a schema agrees
    GeoArrowArrayView av;
    int rc2 = GeoArrowArrayViewInitFromSchema(&av, &s.s, &err);
    SIM_CHECK((rc2 == 0) == (rc == 0) && (rc2 || av.schema_view.type == v.type), "schema-array-view", "%d instead of %d", rc2, rc);
    GeoArrowArrayReader r;
    rc2 = GeoArrowArrayReaderInitFromSchema(&r, &s.s, &err);
    if (rc) SIM_CHECK(rc2 != 0, "schema-reader", "accepted by the reader");
    if (ref == 1 && want_type != 990 && want_type % 1000 != 990) SIM_CHECK(rc2 == 0, "schema-reader", "%d %s", rc2, err.message);
    if (rc2 == 0) GeoArrowArrayReaderReset(&r);
    GeoArrowArrayWriter w;
    rc2 = GeoArrowArrayWriterInitFromSchema(&w, &s.s);
    if (rc) SIM_CHECK(rc2 != 0, "schema-writer", "accepted by the writer");
    if (rc2 == 0) GeoArrowArrayWriterReset(&w);
  }
  s.s = saved;
}

// ---- kernel options ----------------------------------------------------------------------
static std::string IntText(bool* valid, long* value) {
  static const char* const bad[] = {"", "x", "1x", "--1", "1.5", "1e3", "0x10", "NaN", "99999999999", "-99999999999", "9223372036854775808", "2147483648",
                                    "-2147483649", "1 ", "1\n", "00000000000000000000000000000000000000000001x"};
  *valid = true;
  *value = 0;
  std::string s;
  switch (D(4)) {
    case 0:
      *value = (long)D(20);
      return std::to_string(*value);
    case 1:
      *value = B(2) ? -(long)D(20) : (long)D(2) ? 2147483647l : -2147483647l - 1;
      return std::to_string(*value);
    case 2:
      *valid = false;
      return bad[D(sizeof bad / sizeof *bad)];
    default:
      *value = (long)D(25000);
      s = std::to_string(*value);
      if (B(4)) {
        s += '\0';
        if (D(2)) s += "1";
        *valid = false;
      }
      return s;
  }
}
static bool TypeExists(long t) {
  if (t == GEOARROW_TYPE_WKB || t == GEOARROW_TYPE_WKT) return true;
  if (t < 1 || t >= 20000) return false;
  long n = t % 10000;
  return n / 1000 < 4 && n % 1000 >= 1 && n % 1000 <= 6;
}
static void RunOptions() {
  struct Opt {
    bool on = false, valid = true;
    long value = 0;
    std::string text;
  } prec, max, type, other;
  auto draw = [&](Opt* o, const char* key, std::vector<std::pair<std::string, std::string>>* kv) {
    o->on = true;
    o->text = IntText(&o->valid, &o->value);
    kv->push_back({key, o->text});
  };
  bool fmt = D(2);
  std::vector<std::pair<std::string, std::string>> kv;
  if (D(3)) draw(fmt ? &prec : &type, fmt ? "precision" : "type", &kv);
  if (D(2)) draw(fmt ? &max : &other, fmt ? "max_element_size_bytes" : "typ", &kv);
  if (D(3) == 2) kv.push_back({D(2) ? "" : "precisio", "x"});
  if (kv.size() > 1 && D(2)) std::swap(kv[0], kv[1]);
  std::string enc = kern::KeyValues(kv);
  std::unique_ptr<char[]> opts(new char[enc.size()]);
  memcpy(opts.get(), enc.data(), enc.size());
  GeoArrowKernel k;
  GeoArrowError err;
  err.message[0] = 0;
  SIM_CHECK(GeoArrowKernelInit(&k, fmt ? "format_wkt" : "as_geoarrow", nullptr) == 0, "init", "kernel");
  Schema in, out;
  SIM_CHECK(GeoArrowSchemaInitExtension(&in.s, GEOARROW_TYPE_WKT) == 0, "init", "schema");
  bool null_opts = kv.empty() && D(2);
  int rc = k.start(&k, &in.s, null_opts ? nullptr : opts.get(), &out.s, &err);
  Log("options %s %zu -> %d", fmt ? "format" : "as", kv.size(), rc);
  for (auto& p : kv) sim::Note("  %s=%s", p.first.c_str(), p.second.c_str());
  if (kv.size()) sim::NonTrivial();
  Count("fault.option_values", kv.size());
  bool ok = fmt ? prec.valid && max.valid : type.on && type.valid && TypeExists(type.value);
  bool open = !fmt && type.on && type.valid && !TypeExists(type.value) &&
              (type.value >= 100000 || (type.value > 0 && type.value < 20000 && type.value % 1000 == 990));
  sim::State(sim::Mix(rc + 2, sim::HashBytes(err.message, strlen(err.message)) + fmt));
  if (!open) SIM_CHECK((rc == 0) == ok, "options", "start of %s returned %d (%s) for %s", fmt ? "format_wkt" : "as_geoarrow", rc, err.message,
            kv.empty() ? "no options" : (kv[0].first + "=" + kv[0].second + (kv.size() > 1 ? " " + kv[1].first + "=" + kv[1].second : "")).c_str());
  if (rc == 0 && !fmt && !open) {
    GeoArrowSchemaView v;
    SIM_CHECK(GeoArrowSchemaViewInit(&v, &out.s, nullptr) == 0 && (long)v.type == type.value, "options-type", "output type is not %ld", type.value);
  }
  k.release(&k);
}

static void Run() {
  uint32_t n = 1 + D(4);
  for (uint32_t i = 0; i < n; i++) switch (W({5, 4, 2})) {
      case 0:
        RunJson();
        break;
      case 1:
        RunSchema();
        break;
      default:
        RunOptions();
    }
  SIM_CHECK(g_live == 0, "schema-release", "%lld schema nodes were not released", (long long)g_live);
}
SIM_PROPERTY("P07", Run, 400000, 20000000,
             "metadata texts, schema trees and kernel options that are valid or damaged (truncation, tokens, bytes, splices, nesting, layout changes)");

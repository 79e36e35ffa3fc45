// Drawn Arrow schema trees exported through a release callback of the simulator, with the
// documented recognition rules as a reference.
#pragma once
#include "kern.h"

namespace st {
using namespace flow;

struct Tree {
  std::string format = "n";
  bool has_name = true;
  std::string name;
  int64_t flags = ARROW_FLAG_NULLABLE;
  std::vector<std::pair<std::string, std::string>> md;
  std::vector<Tree> kids;
};
struct Export {
  std::string format, name, md;
  std::vector<ArrowSchema> kids;
  std::vector<ArrowSchema*> ptrs;
};
inline int64_t g_live = 0;
inline void ReleaseExport(ArrowSchema* s) {
  Export* e = (Export*)s->private_data;
  for (auto& k : e->kids)
    if (k.release) k.release(&k);
  delete e;
  g_live--;
  s->release = nullptr;
}
inline void ToSchema(const Tree& t, ArrowSchema* out) {
  Export* e = new Export();
  g_live++;
  e->format = t.format;
  e->name = t.name;
  if (!t.md.empty()) e->md = kern::KeyValues(t.md);
  e->kids.resize(t.kids.size());
  for (size_t i = 0; i < t.kids.size(); i++) {
    ToSchema(t.kids[i], &e->kids[i]);
    e->ptrs.push_back(&e->kids[i]);
  }
  memset(out, 0, sizeof *out);
  out->format = e->format.c_str();
  out->name = t.has_name ? e->name.c_str() : nullptr;
  out->metadata = t.md.empty() ? nullptr : e->md.data();
  out->flags = t.flags;
  out->n_children = (int64_t)e->ptrs.size();
  out->children = e->ptrs.empty() ? nullptr : e->ptrs.data();
  out->private_data = e;
  out->release = &ReleaseExport;
}
inline Tree Leaf(const char* fmt, const std::string& name) {
  Tree t;
  t.format = fmt;
  t.name = name;
  return t;
}
inline const char* DimStr(int dims) {
  static const char* const s[] = {"", "xy", "xyz", "xym", "xyzm"};
  return s[dims];
}
inline const char* ExtName(int gtype) {
  static const char* const s[] = {"", "geoarrow.point", "geoarrow.linestring", "geoarrow.polygon", "geoarrow.multipoint",
                                  "geoarrow.multilinestring", "geoarrow.multipolygon"};
  return s[gtype];
}
inline int Levels(int gtype) {
  static const int l[] = {0, 0, 1, 2, 1, 2, 3};
  return l[gtype];
}
// A documented layout for `type`.
inline Tree Layout(enum GeoArrowType type, std::string* ext) {
  switch (type) {
    case GEOARROW_TYPE_WKT:
      *ext = "geoarrow.wkt";
      return Leaf("u", "");
    case GEOARROW_TYPE_LARGE_WKT:
      *ext = "geoarrow.wkt";
      return Leaf("U", "");
    case GEOARROW_TYPE_WKT_VIEW:
      *ext = "geoarrow.wkt";
      return Leaf("vu", "");
    case GEOARROW_TYPE_WKB:
      *ext = "geoarrow.wkb";
      return Leaf("z", "");
    case GEOARROW_TYPE_LARGE_WKB:
      *ext = "geoarrow.wkb";
      return Leaf("Z", "");
    case GEOARROW_TYPE_WKB_VIEW:
      *ext = "geoarrow.wkb";
      return Leaf("vz", "");
    default:
      break;
  }
  int n = (int)type, inter = n >= 10000;
  n %= 10000;
  int dims = n / 1000 + 1, gt = n % 1000;
  std::string d = DimStr(dims);
  Tree t;
  if (gt == 990) {
    *ext = "geoarrow.box";
    t.format = "+s";
    for (const char* mm : {"min", "max"})
      for (char c : d) t.kids.push_back(Leaf("g", std::string(1, c) + mm));
    return t;
  }
  *ext = ExtName(gt);
  if (inter) {
    t.format = "+w:" + std::to_string(d.size());
    t.kids.push_back(Leaf("g", d));
  } else {
    t.format = "+s";
    for (char c : d) t.kids.push_back(Leaf("g", std::string(1, c)));
  }
  for (int l = 0; l < Levels(gt); l++) {
    Tree up = Leaf("+l", "");
    t.name = "item";
    up.kids.push_back(t);
    t = up;
  }
  return t;
}
inline enum GeoArrowType DrawType(bool serialized = true, bool box = true) {
  uint32_t k = D(serialized ? 4 : 3);
  if (k == 3) {
    static const enum GeoArrowType s[] = {GEOARROW_TYPE_WKT,       GEOARROW_TYPE_WKB,      GEOARROW_TYPE_LARGE_WKT,
                                          GEOARROW_TYPE_LARGE_WKB, GEOARROW_TYPE_WKT_VIEW, GEOARROW_TYPE_WKB_VIEW};
    return s[D(6)];
  }
  if (box && k == 2 && D(3) == 2) return (enum GeoArrowType)((int)D(4) * 1000 + 990);
  return (enum GeoArrowType)(D(2) * 10000 + D(4) * 1000 + 1 + D(6));
}

// 1: recognised as *type; 0: not a documented layout; -1: left open (e.g. children of a leaf)
inline bool LeafDouble(const Tree& t, bool* open) {
  if (!t.kids.empty()) *open = true;
  return t.format == "g";
}
inline int DimsOf(const std::string& s) {
  for (int d = 1; d <= 4; d++)
    if (s == DimStr(d)) return d;
  return 0;
}
inline int Recognise(const Tree& t, const std::string& ext, int* type) {
  bool open = false;
  auto done = [&](int v) {
    *type = v;
    return open ? -1 : 1;
  };
  if (ext == "geoarrow.wkt" || ext == "geoarrow.wkb") {
    bool txt = ext == "geoarrow.wkt";
    if (!t.kids.empty()) open = true;
    if (t.format == (txt ? "u" : "z")) return done(txt ? GEOARROW_TYPE_WKT : GEOARROW_TYPE_WKB);
    if (t.format == (txt ? "U" : "Z")) return done(txt ? GEOARROW_TYPE_LARGE_WKT : GEOARROW_TYPE_LARGE_WKB);
    if (t.format == (txt ? "vu" : "vz")) return done(txt ? GEOARROW_TYPE_WKT_VIEW : GEOARROW_TYPE_WKB_VIEW);
    return 0;
  }
  if (ext == "geoarrow.box") {
    size_t n = t.kids.size();
    if (t.format != "+s" || (n != 4 && n != 6 && n != 8)) return 0;
    std::string d[2];
    for (size_t i = 0; i < n; i++) {
      const Tree& k = t.kids[i];
      bool hi = i >= n / 2;
      if (!k.has_name || k.name.size() != 4 || k.name.substr(1) != (hi ? "max" : "min")) return 0;
      if (!LeafDouble(k, &open)) return 0;
      d[hi] += k.name[0];
    }
    int dims = DimsOf(d[0]);
    if (!dims || d[0] != d[1]) return 0;
    return done((dims - 1) * 1000 + 990);
  }
  int gt = 0;
  for (int g = 1; g <= 6; g++)
    if (ext == ExtName(g)) gt = g;
  if (!gt) return 0;
  const Tree* c = &t;
  for (int l = 0; l < Levels(gt); l++) {
    if (c->format != "+l" || c->kids.size() != 1) return 0;
    c = &c->kids[0];
  }
  if (c->format == "+s") {
    std::string d;
    for (auto& k : c->kids) {
      if (!k.has_name || k.name.size() != 1 || !LeafDouble(k, &open)) return 0;
      d += k.name;
    }
    int dims = DimsOf(d);
    if (!dims) return 0;
    return done((dims - 1) * 1000 + gt);
  }
  if (c->format.compare(0, 3, "+w:") == 0) {
    if (c->kids.size() != 1 || !LeafDouble(c->kids[0], &open)) return 0;
    std::string w = c->format.substr(3);
    int size = 0;
    if (w.size() == 1 && w[0] >= '0' && w[0] <= '9')
      size = w[0] - '0';
    else if (w.empty() || w.size() > 9 || w.find_first_not_of("0123456789") != std::string::npos)
      open = true;  // the spelling of the width is Arrow's business
    else
      size = atoi(w.c_str());
    int dims = c->kids[0].has_name ? DimsOf(c->kids[0].name) : 0;
    if (dims) {
      if ((int)strlen(DimStr(dims)) != size && !open) return 0;
    } else {
      dims = size == 2 ? 1 : size == 3 ? 2 : size == 4 ? 4 : 0;
      if (!dims && !open) return 0;
    }
    return done((dims - 1) * 1000 + 10000 + gt);
  }
  return 0;
}
inline Tree* AnyNode(Tree* t) {
  while (!t->kids.empty() && D(3)) t = &t->kids[D((uint32_t)t->kids.size())];
  return t;
}
inline const char* Damage(Tree* root) {
  static const char* const fmts[] = {"g", "+s", "+l", "+w:2", "+w:3", "+w:4", "+w:1", "+w:5", "f", "u", "z", "U", "Z", "vu",
                                     "vz", "+L", "n", "i", "+w:02", "l", "b", "+w:10", "+w:0", "d:10,2", "+m", "tsu:UTC", "+vl"};
  static const char* const names[] = {"x", "y", "z", "m", "xy", "xyz", "xym", "xyzm", "", "xx", "X", "xmin", "ymin", "zmin", "mmin",
                                      "xmax", "ymax", "zmax", "mmax", "item", "xmi", "xminn", "yx"};
  Tree* t = AnyNode(root);
  switch (D(8)) {
    case 0:
      t->format = fmts[D(sizeof fmts / sizeof *fmts)];
      return "format";
    case 1:
      t->name = names[D(sizeof names / sizeof *names)];
      return "name";
    case 2:
      t->has_name = false;
      return "no_name";
    case 3:
      if (!t->kids.empty()) t->kids.erase(t->kids.begin() + D((uint32_t)t->kids.size()));
      return "drop_child";
    case 4:
      t->kids.insert(t->kids.begin() + D((uint32_t)t->kids.size() + 1), Leaf("g", names[D(19)]));
      return "add_child";
    case 5:
      if (t->kids.size() > 1) std::swap(t->kids[D((uint32_t)t->kids.size())], t->kids[D((uint32_t)t->kids.size())]);
      return "swap_children";
    case 6: {  // one level more
      Tree inner = *t;
      Tree up = Leaf("+l", t->name);
      up.md = inner.md;
      inner.md.clear();
      up.kids.push_back(inner);
      *t = up;
      return "add_level";
    }
    default:  // one level less
      if (t->kids.size() == 1) {
        Tree inner = t->kids[0];
        inner.md = t->md;
        *t = inner;
      }
      return "drop_level";
  }
}
}  // namespace st

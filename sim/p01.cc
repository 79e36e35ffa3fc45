// P01: conversion between encodings preserves every feature.
#include "flow.h"
using namespace flow;

static bool CanonText(const Geom& g) {
  if (g.type == PT && Key(g) == Key(StripEmptyPointCoords(g)) && g.c.empty()) return false;
  for (double v : g.c) {
    if (std::isnan(v) || std::isinf(v) || std::fabs(v) > 1e9 || v * 4 != std::floor(v * 4))
      return false;
    if (v == 0 && std::signbit(v)) return false;
  }
  for (auto& k : g.kids)
    if (!CanonText(k)) return false;
  return true;
}

// ---- native targets of another geometry type
struct Seqs {
  std::vector<Geom> polys;  // each with its sequences as kids
  size_t total = 0, full = 0, coords = 0;
  bool collection = false;
};
// An empty point may be read as one of not-a-number ordinates
static bool EmptyMember(const Geom& g) {
  for (auto& k : g.kids)
    if ((k.type == PT && StripEmptyPointCoords(k).c.empty()) || EmptyMember(k)) return true;
  return false;
}
static void CollectPoints(const Geom& g, std::vector<double>* c) {
  c->insert(c->end(), g.c.begin(), g.c.end());
  for (auto& k : g.kids) CollectPoints(k, c);
}
static Seqs FindSeqs(const Geom& g) {
  Seqs s;
  auto seq = [&](std::vector<double> c) {
    Geom r;
    r.dims = g.dims;
    r.type = LS;
    r.c = std::move(c);
    s.total++;
    if (r.n()) {
      s.full++;
      s.polys.back().kids.push_back(r);
    }
  };
  auto poly = [&]() {
    if (!s.polys.empty() && s.polys.back().kids.empty()) return;
    s.polys.emplace_back();
    s.polys.back().type = PG;
    s.polys.back().dims = g.dims;
  };
  s.coords = g.coords();
  poly();
  switch (g.type) {
    case PT:
    case LS:
      seq(g.c);
      break;
    case MPT: {
      std::vector<double> c;
      CollectPoints(g, &c);
      seq(c);
      break;
    }
    case PG:
    case MLS:
      for (auto& k : g.kids) seq(k.c);
      break;
    case MPG:
      for (auto& p : g.kids) {
        poly();
        for (auto& k : p.kids) seq(k.c);
      }
      break;
    default:
      s.collection = true;
  }
  if (s.polys.back().kids.empty()) s.polys.pop_back();
  return s;
}
// 1: has to be refused, 0: has to be stored as *want, -1: unspecified
static int CrossTarget(const Geom& g, int gtype, int dims, bool direct, Geom* want) {
  Seqs s = FindSeqs(StripEmptyPointCoords(g));
  want->type = gtype;
  want->dims = dims;
  want->c.clear();
  want->kids.clear();
  if (EmptyMember(g) || (g.type == PT && s.coords == 0 && gtype != PT)) return -1;
  if (s.coords == 0) return (gtype == LS || gtype == MPT) && (s.total > 1 || s.collection) && !direct ? -1 : 0;
  if (gtype == PT && s.coords > 1) return 1;
  if ((gtype == LS || gtype == MPT) && !s.collection && s.full > 1) return 1;
  if (s.collection) return -1;
  // points of a multipoint have no place of their own in sequences of sequences
  if (g.type == MPT && gtype != PT && gtype != LS && gtype != MPT) return -1;
  Geom m = MapDims(g, dims);
  s = FindSeqs(m);
  if (direct && !Fits(g.type, gtype) && gtype != PT) {
    if (g.type != gtype + 3) return -1;
    if (g.kids.size() > 1) return gtype == LS ? 1 : -1;
  }
  switch (gtype) {
    case PT:
      if (s.polys.empty()) return -1;
      want->c = s.polys[0].kids[0].c;
      return 0;
    case LS:
    case MPT:
      if (s.total != 1) return -1;
      if (gtype == LS) {
        want->c = s.polys[0].kids[0].c;
      } else {
        Geom& q = s.polys[0].kids[0];
        int nd = Nd(dims);
        for (size_t i = 0; i < q.n(); i++) {
          Geom p;
          p.type = PT;
          p.dims = dims;
          p.c.assign(q.c.begin() + i * nd, q.c.begin() + (i + 1) * nd);
          want->kids.push_back(p);
        }
      }
      return 0;
    case PG:
    case MLS:
      for (auto& p : s.polys)
        for (auto& k : p.kids) {
          want->kids.push_back(k);
          want->kids.back().type = gtype == PG ? RING : LS;
        }
      return 0;
    default:
      for (auto& p : s.polys) {
        want->kids.push_back(p);
        for (auto& k : want->kids.back().kids) k.type = RING;
      }
      return 0;
  }
}
static void Cross() {
  GenOpts o = SwarmOpts(600);
  Source src;
  uint32_t n = 1 + DrawRows(o, 12);
  switch (W({5, 4, 1})) {
    case 0:
      MakeArrays(src, SerializedType(D(6)), GenFeatures(o, n), 2);
      break;
    case 1:
      o.only_type = 1 + D(6);
      o.only_dims = D4();
      MakeArrays(src, NativeType(o.only_type, o.only_dims, DrawCoordType()), GenFeatures(o, n), 2);
      break;
    default:
      MakeBoxes(src, n, 2);
  }
  int gtype = 1 + D(6), dims = D4();
  enum GeoArrowType t = NativeType(gtype, dims, DrawCoordType());
  Writer w;
  bool direct = B(4);
  SIM_CHECK(w.Init(t, direct ? 2 : (int)D(3)) == 0 && w.InitVisitor() == 0, "init", "writer for %s", TypeText(t).c_str());
  Reader r;
  int rapi = (int)D(3);
  if (rapi == 1 && IsBox(src.type)) rapi = 0;
  SIM_CHECK(r.Init(src.type, rapi) == 0, "init", "reader for %s", TypeText(src.type).c_str());
  std::string what = TypeText(src.type) + "->" + TypeText(t) + (direct ? " (appended)" : "");
  Log("%s", what.c_str());
  Features want;
  std::vector<bool> any;
  bool failed = false;
  for (size_t a = 0; a < src.arrays.size() && !failed; a++) {
    SIM_CHECK(r.SetArray(&src.arrays[a]->a, src.enc[a]) == 0, "set-array", "%s", r.err.message);
    for (size_t i = 0; i < src.parts[a].size() && !failed; i++) {
      const Feature& f = src.parts[a][i];
      Feature x;
      x.null = f.null;
      int must = f.null ? 0 : CrossTarget(f.g, gtype, dims, direct, &x.g);
      int rc;
      if (direct) {
        if (f.null) {
          rc = GeoArrowNativeWriterAppendNull(&w.nat);
        } else {
          ViewBuilder vb;
          vb.Build(f.g, true);
          rc = GeoArrowNativeWriterAppend(&w.nat, vb.view, &w.err);
        }
      } else {
        rc = r.Visit((int64_t)i, 1, &w.v);
      }
      Log("row %zu -> %d (expected %d)", i, rc, must);
      SIM_CHECK(must != 1 || rc != 0, "accepted-several", "%s: %.400s was accepted", what.c_str(), Show(f).c_str());
      SIM_CHECK(must != 0 || rc == 0, "refused", "%s: %.400s was refused with %d %s", what.c_str(), Show(f).c_str(), rc, w.err.message);
      if (must == 1) Count("fault.not_representable");
      if (rc != 0) {
        failed = true;
      } else {
        want.push_back(x);
        any.push_back(must < 0);
        if (must < 0) want.back().g = f.g;
        // an empty point may be read as not-a-number ordinates
        if (must < 0 && (EmptyMember(f.g) || f.g.coords() == 0)) failed = true;
      }
    }
  }
  auto out = std::unique_ptr<Arr>(new Arr());
  int rc = w.Finish(&out->a);
  SIM_CHECK(rc == 0 || failed, "finish", "%s: %d %s", what.c_str(), rc, w.err.message);
  if (rc == 0) {
    // a feature that failed is absent or null (what happens to it is P04)
    int64_t rows = out->a.length, most = (int64_t)want.size() + (failed ? 1 : 0);
    SIM_CHECK(rows >= (int64_t)want.size() && rows <= most, "row-count", "%s: %lld rows from %zu features", what.c_str(), (long long)rows, want.size());
    CheckArrayShape(&out->a, rows, what.c_str());
    Features got = DecodeArray(t, &out->a, what.c_str());
    for (size_t i = 0; i < want.size(); i++) {
      if (any[i] && failed && i + 1 == want.size()) continue;
      if (any[i]) {
        // however its parts are arranged, its coordinates are all there in order
        std::vector<double> c0, c1;
        CollectPoints(MapDims(want[i].g, dims), &c0);
        CollectPoints(got[i].g, &c1);
        SIM_CHECK(c0.size() == c1.size() && (c0.empty() || memcmp(c0.data(), c1.data(), c0.size() * 8) == 0), "conversion", "%s: row %zu is %.400s, from %.400s", what.c_str(),
                  i, Show(got[i]).c_str(), Show(want[i]).c_str());
        continue;
      }
      if (!want[i].null) got[i].g = Normal(got[i].g), want[i].g = Normal(want[i].g);
      SIM_CHECK(Key(want[i]) == Key(got[i]), "conversion", "%s: row %zu is %.400s, expected %.400s", what.c_str(), i, Show(got[i]).c_str(), Show(want[i]).c_str());
      Count("check.cross_row");
    }
    HashArray(what.c_str(), &out->a, t);
  }
  sim::State(sim::Mix(sim::HashBytes("cross", 5), (int)src.type * 1000 + (int)t));
  w.Reset();
  r.Reset();
  if (n >= 2) sim::NonTrivial();
}

static void Run() {
  if (B(7)) {
    Cross();
    return;
  }
  // ---- the features and the source
  GenOpts o = SwarmOpts(600);
  uint32_t n = DrawRows(o, D(6) == 5 ? 70 : 12);
  Source src;
  int fixed = 0;  // geometry type all features share, 0 if mixed
  switch (W({5, 5, 1})) {
    case 0: {  // serialised
      fixed = o.only_type <= 6 ? o.only_type : 0;
      Features f = GenFeatures(o, n);
      MakeArrays(src, SerializedType(D(6)), f, 3);
      break;
    }
    case 1: {
      fixed = o.only_type = 1 + D(6);
      o.only_dims = D4();
      Features f = GenFeatures(o, n);
      MakeArrays(src, NativeType(o.only_type, o.only_dims, DrawCoordType()), f, 3);
      break;
    }
    default:
      fixed = PG;
      MakeBoxes(src, n, 3);
  }
  uint32_t hops = 1 + D(3);
  for (uint32_t hop = 0; hop < hops; hop++) {
    // ---- the target
    enum GeoArrowType t;
    uint32_t tk = W({3, 3, 5});
    if (tk == 2 && fixed == 0) tk = D(2);
    int next_fixed = fixed;
    if (tk == 0) {
      t = GEOARROW_TYPE_WKB;
    } else if (tk == 1) {
      t = GEOARROW_TYPE_WKT;
    } else {
      int g = fixed;
      if (fixed <= 3 && D(2)) g = fixed + 3;
      t = NativeType(g, D4(), DrawCoordType());
      next_fixed = g;
    }
    Writer w;
    Log("hop %u: %s (%zu arrays) -> %s", hop, TypeText(src.type).c_str(), src.arrays.size(),
        TypeText(t).c_str());
    SIM_CHECK(w.Init(t, (int)D(3)) == 0, "init", "writer for %s", TypeText(t).c_str());
    int precision = 16, flat = 1;
    if (t == GEOARROW_TYPE_WKT && D(2)) {
      precision = (int)D(17);
      flat = (int)D(2);
      w.SetText(precision, flat, -1);
    }
    SIM_CHECK(w.InitVisitor() == 0, "init", "visitor for %s", TypeText(t).c_str());
    Reader r;
    int rapi = (int)D(3);
    if (rapi == 1 && IsBox(src.type)) rapi = 0;
    SIM_CHECK(r.Init(src.type, rapi) == 0, "init", "reader for %s: %s",
              TypeText(src.type).c_str(), r.err.message);
    Count(("read." + TypeText(src.type) + "." + std::to_string(rapi)).c_str());
    Count(("write." + TypeText(t) + "." + std::to_string(w.api)).c_str());
    // ---- read, in ranges; finish whenever the tape says so
    Features pending;
    Source next;
    next.type = t;
    auto finish = [&](bool last) {
      auto out = std::unique_ptr<Arr>(new Arr());
      int rc = w.Finish(&out->a);
      SIM_CHECK(rc == 0, "finish", "finish of %s: %d %s", TypeText(t).c_str(), rc,
                w.err.message);
      std::string what = "hop " + std::to_string(hop) + " " + TypeText(src.type) + "->" +
                         TypeText(t) + " batch " + std::to_string(next.arrays.size());
      Features got = CheckOutput(t, &out->a, pending, precision, flat, what.c_str());
      if (t == GEOARROW_TYPE_WKT && precision >= 2) {
        auto text = DecodeBinary(&out->a, what.c_str());
        for (size_t i = 0; i < pending.size(); i++)
          if (!pending[i].null && CanonText(pending[i].g)) {
            std::string want = CanonicalWkt(pending[i].g, flat);
            Count("check.canonical_text");
            SIM_CHECK(*text[i] == want, "text", "%s: row %zu is \"%.500s\" but should be \"%.500s\"",
                      what.c_str(), i, text[i]->c_str(), want.c_str());
          }
      }
      HashArray(what.c_str(), &out->a, t);
      sim::State(sim::Mix(sim::HashBytes(what.data(), 5), pending.size() * 64 + (int)src.type * 7 + (int)t));
      next.enc.emplace_back();
      if (IsSerialized(t)) next.enc.back() = DecodeBinary(&out->a, what.c_str());
      next.arrays.push_back(std::move(out));
      next.parts.push_back(got);
      pending.clear();
      if (!last && B(3)) SIM_CHECK(w.InitVisitor() == 0, "init", "visitor again");
    };
    for (size_t a = 0; a < src.arrays.size(); a++) {
      int rc = r.SetArray(&src.arrays[a]->a, src.enc[a]);
      SIM_CHECK(rc == 0, "set-array", "%s: %d %s", TypeText(src.type).c_str(), rc, r.err.message);
      size_t rows = src.parts[a].size(), i = 0;
      while (i < rows || (i == rows && rows == 0)) {
        size_t k = rows - i;
        if (k > 1 && D(3)) k = 1 + D((uint32_t)k);
        rc = r.Visit((int64_t)i, (int64_t)k, &w.v);
        Log("visit array %zu rows %zu+%zu -> %d", a, i, k, rc);
        SIM_CHECK(rc == 0, "visit", "%s -> %s rows %zu+%zu of array %zu: %d %s", TypeText(src.type).c_str(),
                  TypeText(t).c_str(), i, k, a, rc, w.err.message);
        for (size_t j = i; j < i + k; j++) pending.push_back(src.parts[a][j]);
        i += k;
        if (rows == 0) break;
        if (B(6)) finish(false);
      }
    }
    finish(true);
    if (n >= 2) sim::NonTrivial();
    // ---- what the library exported must survive its producer; it is the next source
    w.Reset();
    r.Reset();
    src = std::move(next);
    fixed = next_fixed;
    if (t == GEOARROW_TYPE_WKT && fixed == 0) {
    }
  }
  // arrays exported earlier are still what they were
  for (size_t a = 0; a < src.arrays.size(); a++)
    ExpectFeatures(src.parts[a], DecodeArray(src.type, &src.arrays[a]->a, "kept"), "exported-changed",
                   "array kept after its writer was reset");
}
SIM_PROPERTY("P01", Run, 200000, 6000000,
             "one run converts a drawn feature sequence through 1..3 drawn encodings with drawn readers, "
             "writers, splits, slices and ranges and compares each result with the model; "
             "non-trivial: at least two features; distinct by event-log hash")

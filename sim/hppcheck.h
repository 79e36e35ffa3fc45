// Comparison of the C++ array views with the model (P15); one unit per group of array types.
#pragma once
#include <cstdlib>
#include <limits>
#include <type_traits>
#include "kern.h"
extern "C" void* sim_malloc(size_t);
extern "C" void sim_free(void*);
#define malloc sim_malloc
#define free sim_free
#include "geoarrow/geoarrow.hpp"
#include "hppread.h"
#undef malloc
#undef free
using namespace flow;
namespace au = geoarrow::array_util;
namespace wu = geoarrow::wkb_util;
typedef au::XY<double> CXY;
typedef au::XYZ<double> CXYZ;
typedef au::XYM<double> CXYM;
typedef au::XYZM<double> CXYZM;
namespace p15 {

// ---- vertices, as bits
typedef std::vector<std::array<double, 4>> Verts;  // x y z m, NaN where there is none
inline std::string Bits(double v) {
  if (v != v) return "nan,";
  return sim::Hex(&v, 8, 8) + ",";
}
inline std::string Str(const Verts& v) {
  std::string s;
  for (auto& x : v) {
    for (double d : x) s += Bits(d);
    s += ";";
  }
  return s;
}
inline std::string Read(const Verts& v) {
  std::string s;
  char b[160];
  for (auto& x : v) {
    snprintf(b, sizeof b, "(%.17g %.17g %.17g %.17g) ", x[0], x[1], x[2], x[3]);
    s += b;
    if (s.size() > 600) break;
  }
  return s;
}
inline void Same(const Verts& want, const Verts& got, const char* sig, const char* what) {
  SIM_CHECK(want.size() == got.size() && Str(want) == Str(got), sig, "%s: %zu values %s but should be %zu: %s", what, got.size(), Read(got).c_str(),
            want.size(), Read(want).c_str());
}
// One ordinate tuple of the model, by name.
inline std::array<double, 4> Named(const double* p, int dims) {
  double n = NAN;
  switch (dims) {
    case XY:
      return {p[0], p[1], n, n};
    case XYZ:
      return {p[0], p[1], p[2], n};
    case XYM:
      return {p[0], p[1], n, p[2]};
    default:
      return {p[0], p[1], p[2], p[3]};
  }
}
// What a destination without z or m keeps.
template <class Dst>
inline std::array<double, 4> Keep(std::array<double, 4> v) {
  typedef typename Dst::value_type T;
  if (Dst::dimensions == GEOARROW_DIMENSIONS_XY || Dst::dimensions == GEOARROW_DIMENSIONS_XYM) v[2] = NAN;
  if (Dst::dimensions == GEOARROW_DIMENSIONS_XY || Dst::dimensions == GEOARROW_DIMENSIONS_XYZ) v[3] = NAN;
  for (auto& d : v) d = (double)(T)d;
  return v;
}
template <class Dst>
inline std::array<double, 4> Seen(const Dst& c) {
  return {(double)c.x(), (double)c.y(), (double)c.z(), (double)c.m()};
}
inline void ModelVerts(const Geom& g, int dims, Verts* out) {
  bool own = !dims;
  if (own) dims = g.dims;  // each member has its own
  int nd = Nd(dims);
  if (g.leaf()) {
    if (g.type == PT && g.c.empty()) {
      out->push_back({NAN, NAN, NAN, NAN});
      return;
    }
    for (size_t i = 0; i < g.c.size(); i += nd) out->push_back(Named(&g.c[i], dims));
    return;
  }
  for (auto& k : g.kids) ModelVerts(k, own ? 0 : dims, out);
}
// Pairs, as twice as many vertices. Every point is an edge from itself to itself.
inline void ModelEdges(const Geom& g, int dims, Verts* out) {
  if (g.leaf()) {
    Verts v;
    ModelVerts(g, dims, &v);
    if (g.type == PT)
      for (auto& x : v) out->push_back(x), out->push_back(x);
    else
      for (size_t i = 1; i < v.size(); i++) out->push_back(v[i - 1]), out->push_back(v[i]);
    return;
  }
  for (auto& k : g.kids) ModelEdges(k, dims, out);
}
template <class Dst, class A>
inline void Visits(const A& a, const Verts& v, const Verts& e, const char* what) {
  Verts want, got;
  for (auto& x : v) want.push_back(Keep<Dst>(x));
  a.template VisitVertices<Dst>([&](Dst c) { got.push_back(Seen(c)); });
  Same(want, got, "vertices", what);
  want.clear(), got.clear();
  for (auto& x : e) want.push_back(Keep<Dst>(x));
  a.template VisitEdges<Dst>([&](Dst p, Dst q) {
    got.push_back(Seen(p));
    got.push_back(Seen(q));
  });
  Same(want, got, "edges", what);
  Count("check.visit");
}
template <class A>
inline void AllVisits(const A& a, const Verts& v, const Verts& e, const char* what) {
  switch (D(5)) {
    case 0:
      return Visits<CXY>(a, v, e, what);
    case 1:
      return Visits<CXYZ>(a, v, e, what);
    case 2:
      return Visits<CXYM>(a, v, e, what);
    case 3:
      return Visits<CXYZM>(a, v, e, what);
    default:
      return Visits<au::XYZM<float>>(a, v, e, what);
  }
}

// ---- iterators: a walk against a position
template <class It, class F>
inline void Walk(It it, It begin, It end, int64_t n, F at, const char* what) {
  SIM_CHECK(end - begin == n, "iterator", "%s: %lld elements between begin and end instead of %lld", what, (long long)(end - begin), (long long)n);
  int64_t pos = 0;
  for (uint32_t k = D(10); k > 0; k--) {
    switch (D(6)) {
      case 0:
        if (pos < n) {
          ++it;
          pos++;
        }
        break;
      case 1:
        if (pos > 0) {
          --it;
          pos--;
        }
        break;
      case 2: {
        int64_t to = (int64_t)D((uint32_t)n + 1);
        it += to - pos;
        pos = to;
        break;
      }
      case 3: {
        int64_t to = (int64_t)D((uint32_t)n + 1);
        it -= pos - to;
        pos = to;
        break;
      }
      case 4:
        SIM_CHECK((it == end) == (pos == n) && (it != end) == (pos != n) && (it < end) == (pos < n) && (it <= begin) == (pos <= 0) &&
                      (it > begin) == (pos > 0) && (it >= end) == (pos >= n),
                  "iterator", "%s: comparing at %lld of %lld", what, (long long)pos, (long long)n);
        break;
      default:
        break;
    }
    SIM_CHECK(it - begin == pos && end - it == n - pos, "iterator", "%s: distance at %lld of %lld", what, (long long)pos, (long long)n);
    if (pos < n) at(it, pos, n);
  }
}

// ---- coordinate sequences
template <class C>
inline std::array<double, 4> SeenCoord(const C& c) {
  std::array<double, 4> r = {NAN, NAN, NAN, NAN};
  for (size_t j = 0; j < c.size() && j < 4; j++) r[j] = (double)c[j];
  return r;
}
// Rows of `want` are ordinates in order of appearance.
template <class Seq>
inline void CheckSeq(const Seq& s, const Verts& want, const char* what) {
  typedef typename Seq::value_type C;
  size_t nd = C().size();
  int64_t n = (int64_t)want.size();
  SIM_CHECK(s.size() == n, "size", "%s: %lld coordinates instead of %lld", what, (long long)s.size(), (long long)n);
  Verts a, b;
  for (int64_t i = 0; i < n; i++) a.push_back(SeenCoord(s.coord(i)));
  for (const auto c : s) b.push_back(SeenCoord(c));
  Same(want, a, "random-access", what);
  Same(want, b, "range", what);
  for (uint32_t j = 0; j < nd; j++) {
    int64_t i = 0;
    bool post = D(2);
    auto it = s.dbegin(j);
    while (it != s.dend(j)) {
      double v;
      if (post) {
        v = (double)it++;
      } else {
        v = (double)*it;
        ++it;
      }
      SIM_CHECK(i < n && Bits(v) == Bits(want[i][j]), "dimension", "%s: ordinate %u of coordinate %lld is %.17g", what, j, (long long)i, v);
      i++;
    }
    SIM_CHECK(i == n, "dimension", "%s: %lld values of ordinate %u instead of %lld", what, (long long)i, j, (long long)n);
    Walk(s.dbegin(j), s.dbegin(j), s.dend(j), n,
         [&](decltype(it)& x, int64_t pos, int64_t len) {
           SIM_CHECK(Bits((double)*x) == Bits(want[pos][j]), "dimension", "%s: ordinate %u at %lld", what, j, (long long)pos);
           int64_t to = (int64_t)D((uint32_t)len);
           SIM_CHECK(Bits((double)x[to - pos]) == Bits(want[to][j]), "dimension", "%s: ordinate %u at %lld from %lld", what, j, (long long)to, (long long)pos);
         },
         what);
  }
  Walk(s.begin(), s.begin(), s.end(), n,
       [&](typename Seq::const_iterator& x, int64_t pos, int64_t len) {
         Same({want[pos]}, {SeenCoord(*x)}, "iterator", what);
         int64_t to = (int64_t)D((uint32_t)len);
         Same({want[to]}, {SeenCoord(x[to - pos])}, "iterator", what);
       },
       what);
  Count("check.sequence");
}
template <class Seq>
inline void CheckSlices(const Seq& s, Verts want, const char* what) {
  CheckSeq(s, want, what);
  Seq x = s;
  for (uint32_t k = D(3); k > 0; k--) {
    size_t o = D((uint32_t)want.size() + 1), l = D((uint32_t)(want.size() - o) + 1);
    x = x.Slice((int64_t)o, (int64_t)l);
    want = Verts(want.begin() + (long)o, want.begin() + (long)(o + l));
    CheckSeq(x, want, "slice");
  }
}
template <class Seq>
inline void SeqVisits(const Seq& s, const Verts& rows, int dims) {
  Geom g;
  g.type = LS;
  g.dims = dims;
  for (auto& r : rows) g.c.insert(g.c.end(), r.begin(), r.begin() + Nd(dims));
  Verts v, e;
  ModelVerts(g, dims, &v);
  ModelEdges(g, dims, &e);
  AllVisits(s, v, e, "coordinate sequence");
}
template <class C>
inline void ReadSeq(const au::CoordSequence<C>& s, Geom* g) {
  bool range = D(2);
  g->c.clear();
  if (range) {
    for (const auto c : s)
      for (double v : c) g->c.push_back(v);
  } else {
    for (int64_t i = 0; i < s.size(); i++)
      for (double v : s.coord(i)) g->c.push_back(v);
  }
}
template <class L>
inline void EachChild(const L& s, const std::function<void(const typename L::child_type&)>& f) {
  typename L::child_type child;
  switch (D(3)) {
    case 0:
      for (const auto& c : s) f(c);
      break;
    case 1:
      s.InitChild(&child);
      for (int64_t i = 0; i < s.size(); i++) {
        s.UpdateChild(&child, i);
        f(child);
      }
      break;
    default: {
      auto it = s.begin();
      for (int64_t i = 0; i < s.size(); i++) {
        f(*it);
        it += 1;
      }
    }
  }
}
// The kinds of children of each type.
inline int KidType(int type) { return type == PG ? RING : type - 3; }
template <class C>
inline void ReadList(const au::CoordSequence<C>& s, Geom* g) {
  if (g->type == MPT) {  // one coordinate per member
    Geom all;
    ReadSeq(s, &all);
    size_t nd = C().size();
    for (size_t i = 0; i < all.c.size(); i += nd) {
      Geom k;
      k.type = PT;
      k.dims = g->dims;
      k.c.assign(all.c.begin() + (long)i, all.c.begin() + (long)(i + nd));
      g->kids.push_back(k);
    }
    return;
  }
  ReadSeq(s, g);
}
template <class T>
inline void ReadList(const au::ListSequence<T>& s, Geom* g) {
  EachChild(s, [&](const T& c) {
    Geom k;
    k.type = KidType(g->type);
    k.dims = g->dims;
    ReadList(c, &k);
    g->kids.push_back(k);
  });
}
inline Geom Filled(Geom g) {
  kern::NanPoints(g);
  return g;
}
template <class A>
inline void Row(const A& a, int64_t i, int type, int dims, Geom* g) {
  g->type = type;
  g->dims = dims;
  if constexpr (std::is_same<typename A::sequence_type, au::CoordSequence<typename A::sequence_type::value_type>>::value) {
    for (double v : a.value.coord(i)) g->c.push_back(v);
  } else {
    typename A::sequence_type::child_type c;
    a.value.InitChild(&c);
    a.value.UpdateChild(&c, i);
    ReadList(c, g);
  }
}
inline void Compare(const Feature& want, const Geom& got, const char* what, size_t i) {
  Feature a, b;
  a.null = b.null = false;
  a.g = Filled(want.g);
  b.g = got;
  ExpectFeature(a, b, "row", what, i);
}
template <class A>
inline void CheckNative(A& a, const Features& f, int type, int dims, const char* what, bool walk = true) {
  int64_t n = (int64_t)f.size();
  SIM_CHECK(a.value.size() == n, "size", "%s: %lld rows instead of %lld", what, (long long)a.value.size(), (long long)n);
  bool nulls = false;
  for (int64_t i = 0; i < n; i++) {
    SIM_CHECK(a.is_null(i) == f[i].null && a.is_valid(i) == !f[i].null, "null", "%s: row %lld null=%d", what, (long long)i, (int)a.is_null(i));
    nulls |= f[i].null;
    if (f[i].null) continue;
    Geom g;
    Row(a, i, type, dims, &g);
    Compare(f[i], g, what, (size_t)i);
  }
  {  // by range
    size_t i = 0;
    for (const auto& item : a.value) {
      SIM_CHECK(i < f.size(), "range", "%s: more than %zu rows", what, f.size());
      if (!f[i].null) {
        Geom g;
        g.type = type;
        g.dims = dims;
        if constexpr (A::geometry_type == GEOARROW_GEOMETRY_TYPE_POINT) {
          for (double v : item) g.c.push_back(v);
        } else {
          ReadList(item, &g);
        }
        Compare(f[i], g, what, i);
      }
      i++;
    }
    SIM_CHECK(i == f.size(), "range", "%s: %zu rows instead of %zu", what, i, f.size());
  }
  Verts v, e;
  for (auto& x : f)
    if (!x.null) {
      ModelVerts(x.g, dims, &v);
      ModelEdges(x.g, dims, &e);
    }
  AllVisits(a, v, e, what);
  if (!nulls) {  // Coords() also spans what null rows hide
    auto s = a.Coords();
    Verts c;
    for (auto& x : v) {
      std::array<double, 4> r = {NAN, NAN, NAN, NAN};
      if (dims == XYM)
        r = {x[0], x[1], x[3], NAN};
      else
        for (int j = 0; j < Nd(dims); j++) r[j] = x[j];
      c.push_back(r);
    }
    CheckSeq(s, c, "Coords()");
  }
  if (walk)
    Walk(a.value.begin(), a.value.begin(), a.value.end(), n,
         [&](typename A::sequence_type::const_iterator& it, int64_t pos, int64_t) {
           if (f[pos].null) return;
           Geom g;
           g.type = type;
           g.dims = dims;
           const auto& item = *it;
           if constexpr (A::geometry_type == GEOARROW_GEOMETRY_TYPE_POINT) {
             for (double v : item) g.c.push_back(v);
           } else {
             ReadList(item, &g);
           }
           Compare(f[pos], g, what, (size_t)pos);
         },
         what);
  Count("check.native");
}
template <class A>
void NativeCase(A& a, const GeoArrowArrayView* view, const Features* fp, enum GeoArrowType type);
template <class A>
void TryXY(const GeoArrowArrayView* view, const Features& f, const TypeParts& p, int levels, int want);
void Sequences();
#ifdef P15_INSTANTIATE
template <class A>
void NativeCase(A& a, const GeoArrowArrayView* view, const Features* fp, enum GeoArrowType type) {
  TypeParts p = Parts(type);
  Features f = *fp;
  SIM_CHECK((int)A::geometry_type == p.gtype && (int)A::dimensions == p.dims, "dispatch", "%s dispatched to another type", TypeText(type).c_str());
  int rc = a.Init(view);
  SIM_CHECK(rc == 0, "init", "%s: %d", TypeText(type).c_str(), rc);
  std::string what = TypeText(type);
  CheckNative(a, f, p.gtype, p.dims, what.c_str());
  A s = a;
  for (uint32_t k = D(3); k > 0; k--) {
    size_t o = D((uint32_t)f.size() + 1), l = D((uint32_t)(f.size() - o) + 1);
    s = s.Slice((int64_t)o, (int64_t)l);
    f = Features(f.begin() + (long)o, f.begin() + (long)(o + l));
    Log("slice %zu %zu", o, l);
    CheckNative(s, f, p.gtype, p.dims, "slice");
    Count("op.slice");
  }
}
template <class A>
void TryXY(const GeoArrowArrayView* view, const Features& f, const TypeParts& p, int levels, int want) {
  A a;
  int rc = a.Init(view);
  SIM_CHECK((rc == 0) == (levels == want), "init", "an array of %d levels taken for one of %d: %d", levels, want, rc);
  if (rc || A::geometry_type != p.gtype) return;
  // the first two ordinates of an array of any dimensions
  Features g = f;
  for (auto& x : g)
    if (!x.null) x.g = MapDims(x.g, XY);
  CheckNative(a, g, p.gtype, XY, "as xy", false);
  Count("check.as_xy");
}
#define P15_XY(A) \
  template void TryXY<A>(const GeoArrowArrayView*, const Features&, const TypeParts&, int, int);
#define P15_ONE(A) \
  template void NativeCase<A>(A&, const GeoArrowArrayView*, const Features*, enum GeoArrowType);
#endif
}  // namespace p15

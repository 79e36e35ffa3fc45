// P15: coordinate sequences over all element types.
#include "hppcheck.h"
namespace p15 {
template <class T>
static T DrawT() {
  if (std::is_floating_point<T>::value) return (T)GenCoord((int)D(4));
  return (T)(int)(D(2000) - 1000);
}
template <class C>
static void Sequence(int dims) {
  typedef typename C::value_type T;
  const int nd = (int)C().size();
  size_t n = D(3) ? Small(8) : D(80);
  int64_t stride = D(2) ? nd + (int64_t)D(3) : nd;
  Verts rows(n, {NAN, NAN, NAN, NAN});
  size_t total = n ? (n - 1) * stride + nd : 0;
  bool sep = D(2);
  int64_t ss = D(2) ? 1 : 1 + (int64_t)D(4);
  if (sep) total = n ? (n - 1) * ss + 1 : 0;
  std::vector<std::unique_ptr<T[]>> bufs;
  for (int j = 0; j < (sep ? nd : 1); j++) {
    bufs.emplace_back(new T[total]);
    for (size_t i = 0; i < total; i++) bufs.back()[i] = DrawT<T>();
  }
  for (size_t i = 0; i < n; i++)
    for (int j = 0; j < nd; j++) {
      T v = DrawT<T>();
      rows[i][j] = (double)v;
      if (sep)
        bufs[j][i * ss] = v;
      else
        bufs[0][i * stride + j] = v;
    }
  // aligned
  au::CoordSequence<C> s;
  if (sep) {
    std::array<const T*, std::tuple_size<typename C::array>::value> p;
    for (int j = 0; j < nd; j++) p[j] = bufs[j].get();
    SIM_CHECK(s.InitSeparated((int64_t)n, p, ss) == 0, "init", "separated");
  } else {
    SIM_CHECK(s.InitInterleaved((int64_t)n, bufs[0].get(), stride) == 0, "init", "interleaved");
  }
  CheckSlices(s, rows, "coordinate sequence");
  SeqVisits(s, rows, dims);
  // unaligned, native and swapped
  size_t bytes = total * sizeof(T);
  std::vector<std::unique_ptr<uint8_t[]>> raw, swp;
  size_t shift = D(9);
  for (auto& b : bufs) {
    raw.emplace_back(new uint8_t[bytes + shift]);
    swp.emplace_back(new uint8_t[bytes + shift]);
    memcpy(raw.back().get() + shift, b.get(), bytes);
    memcpy(swp.back().get() + shift, b.get(), bytes);
    for (size_t i = 0; i < total; i++) std::reverse(swp.back().get() + shift + i * sizeof(T), swp.back().get() + shift + (i + 1) * sizeof(T));
  }
  au::UnalignedCoordSequence<C> u;
  au::UnalignedCoordSequence<C, au::internal::LoadSwapped<T>> w;
  if (sep) {
    std::array<const void*, std::tuple_size<typename C::array>::value> p, q;
    for (int j = 0; j < nd; j++) p[j] = raw[j].get() + shift, q[j] = swp[j].get() + shift;
    SIM_CHECK(u.InitSeparated((int64_t)n, p, ss) == 0 && w.InitSeparated((int64_t)n, q, ss) == 0, "init", "separated");
  } else {
    SIM_CHECK(u.InitInterleaved((int64_t)n, raw[0].get() + shift, stride) == 0 && w.InitInterleaved((int64_t)n, swp[0].get() + shift, stride) == 0, "init",
              "interleaved");
  }
  CheckSlices(u, rows, "unaligned sequence");
  SeqVisits(u, rows, dims);
  CheckSlices(w, rows, "swapped sequence");
  SeqVisits(w, rows, dims);
  // refused
  au::CoordSequence<C> x;
  SIM_CHECK(x.InitInterleaved(0, nullptr) == 0 && x.size() == 0, "init", "an empty sequence without an address");
  SIM_CHECK(x.InitInterleaved(1 + D(3), nullptr) != 0, "init", "accepted coordinates without an address");
  // a C coordinate view
  if constexpr (std::is_same<T, double>::value) {
    CoordChunk ch;
    std::vector<double> flat;
    for (auto& r : rows) flat.insert(flat.end(), r.begin(), r.begin() + nd);
    ch.Set(flat.data(), n, nd, (int)D(3));
    SIM_CHECK(x.InitFrom(&ch.view) == 0, "init", "a coordinate view");
    CheckSlices(x, rows, "coordinate view");
    SIM_CHECK(u.InitFrom(&ch.view) == 0, "init", "a coordinate view");
    CheckSlices(u, rows, "unaligned coordinate view");
    au::CoordSequence<CXYZM> big;
    SIM_CHECK((big.InitFrom(&ch.view) == 0) == (nd == 4), "init", "%d ordinates as four", nd);
  }
}
void Sequences() {
  switch (D(7)) {
    case 0:
      return Sequence<CXY>(XY);
    case 1:
      return Sequence<CXYZ>(XYZ);
    case 2:
      return Sequence<CXYM>(XYM);
    case 3:
      return Sequence<CXYZM>(XYZM);
    case 4:
      return Sequence<au::XY<float>>(XY);
    case 5:
      return Sequence<au::XYZ<float>>(XYZ);
    default:
      return Sequence<au::XYM<float>>(XYM);
  }
}

// ---- native arrays
}  // namespace p15

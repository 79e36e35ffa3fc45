// P13: a builder's arrays equal what was appended.
#include "flow.h"
using namespace flow;

namespace {
struct Owned {
  std::unique_ptr<uint8_t[]> data;
  size_t size;
  int freed = 0;
  uint8_t* got_ptr = nullptr;
  int64_t got_size = -1;
};
void FreeOwned(uint8_t* ptr, int64_t size, void* p) {
  Owned* o = (Owned*)p;
  o->freed++;
  o->got_ptr = ptr;
  o->got_size = size;
}
struct World {
  GeoArrowBuilder b;
  GeoArrowError err;
  std::vector<std::unique_ptr<Owned>> owned;

  void AppendBytes(int64_t i, const void* data, size_t n) {  // in drawn pieces
    const uint8_t* p = (const uint8_t*)data;
    while (n) {
      size_t k = n > 1 && D(3) ? 1 + D((uint32_t)n) : n;
      GeoArrowBufferView v;
      std::unique_ptr<uint8_t[]> copy(new uint8_t[k]);
      memcpy(copy.get(), p, k);
      v.data = copy.get();
      v.size_bytes = (int64_t)k;
      if (D(4) == 3) {
        int64_t extra = D(3) ? 0 : D(200);
        SIM_CHECK(GeoArrowBuilderReserveBuffer(&b, i, (int64_t)k + extra) == 0, "append", "reserve");
        SIM_CHECK(GeoArrowBuilderBufferCheck(&b, i, (int64_t)k), "append", "no room after reserving");
        GeoArrowBuilderAppendBufferUnsafe(&b, i, v);
      } else {
        SIM_CHECK(GeoArrowBuilderAppendBuffer(&b, i, v) == 0, "append", "buffer %lld", (long long)i);
      }
      p += k;
      n -= k;
    }
  }
  void SetOwned(int64_t i, const void* data, size_t n) {
    owned.emplace_back(new Owned());
    Owned* o = owned.back().get();
    o->data.reset(new uint8_t[n ? n : 1]);
    memcpy(o->data.get(), data, n);
    o->size = n;
    GeoArrowBufferView v;
    v.data = o->data.get();
    v.size_bytes = (int64_t)n;
    SIM_CHECK(GeoArrowBuilderSetOwnedBuffer(&b, i, v, &FreeOwned, o) == 0, "set-owned", "buffer %lld", (long long)i);
    Count("op.set_owned");
  }
  void Put(int64_t i, const void* data, size_t n, bool own) {
    if (own)
      SetOwned(i, data, n);
    else
      AppendBytes(i, data, n);
  }
  void PutOffsets(int level, const std::vector<int32_t>& o, int how) {
    if (how != 0) {
      Put(1 + level, o.data(), o.size() * 4, how == 2);
      return;
    }
    size_t at = 0;
    while (at < o.size()) {
      size_t k = o.size() - at;
      if (k > 1 && D(3)) k = 1 + D((uint32_t)k);
      if (D(4) == 3) {
        SIM_CHECK(GeoArrowBuilderOffsetReserve(&b, level, (int64_t)k) == 0, "append", "reserve offsets");
        GeoArrowBuilderOffsetAppendUnsafe(&b, level, o.data() + at, (int64_t)k);
      } else {
        SIM_CHECK(GeoArrowBuilderOffsetAppend(&b, level, o.data() + at, (int64_t)k) == 0, "append", "offsets");
      }
      at += k;
    }
  }
  // coords: interleaved with dims sd
  void PutCoords(const std::vector<double>& c, int sd) {
    int nd = Nd(sd);
    size_t n = c.size() / nd, at = 0;
    while (at < n) {
      size_t k = n - at;
      if (k > 1 && D(3)) k = 1 + D((uint32_t)k);
      size_t lead = D(3) == 2 ? D(3) : 0;  // coordinates of the view that are not wanted
      std::vector<double> x(lead * nd, 777.0);
      x.insert(x.end(), c.begin() + at * nd, c.begin() + (at + k) * nd);
      CoordChunk ch;
      ch.Set(x.data(), lead + k, nd, (int)D(3));
      if (D(4) == 3) {
        SIM_CHECK(GeoArrowBuilderCoordsReserve(&b, (int64_t)k + (D(2) ? D(50) : 0)) == 0, "append", "reserve coords");
        SIM_CHECK(GeoArrowBuilderCoordsCheck(&b, (int64_t)k), "append", "no room for coordinates after reserving");
        GeoArrowBuilderCoordsAppendUnsafe(&b, &ch.view, (enum GeoArrowDimensions)sd, (int64_t)lead, (int64_t)k);
      } else {
        SIM_CHECK(GeoArrowBuilderCoordsAppend(&b, &ch.view, (enum GeoArrowDimensions)sd, (int64_t)lead, (int64_t)k) == 0, "append", "coords");
      }
      at += k;
    }
  }
};
}  // namespace

static std::vector<double> MapFlat(const std::vector<double>& c, int from, int to) {
  Geom g;
  g.type = LS;
  g.dims = from;
  g.c = c;
  return MapDims(g, to).c;
}

static void Run() {
  World w;
  uint32_t kind = W({8, 2, 1});
  int gt = 1 + (int)D(6), dims = D4(), ct = DrawCoordType();
  enum GeoArrowType t = NativeType(gt, dims, (int)ct);
  if (kind == 1) {
    static const enum GeoArrowType ser[] = {GEOARROW_TYPE_WKB, GEOARROW_TYPE_WKT, GEOARROW_TYPE_LARGE_WKB, GEOARROW_TYPE_LARGE_WKT};
    t = ser[D(4)];
  } else if (kind == 2) {
    t = GeoArrowMakeType(GEOARROW_GEOMETRY_TYPE_BOX, (enum GeoArrowDimensions)dims, GEOARROW_COORD_TYPE_SEPARATE);
  }
  memset(&w.b, sim::Fill(), sizeof w.b);
  int rc;
  if (D(2)) {
    rc = GeoArrowBuilderInitFromType(&w.b, t);
  } else {
    Schema s;
    SIM_CHECK(GeoArrowSchemaInitExtension(&s.s, t) == 0, "init", "schema");
    rc = GeoArrowBuilderInitFromSchema(&w.b, &s.s, &w.err);
  }
  Log("init %s -> %d", TypeText(t).c_str(), rc);
  if (rc != 0 && kind == 1 && (t == GEOARROW_TYPE_LARGE_WKB || t == GEOARROW_TYPE_LARGE_WKT)) return;
  SIM_CHECK(rc == 0, "init", "builder for %s: %d", TypeText(t).c_str(), rc);

  struct Kept {
    Arr a;
    Features f;
    std::vector<Owned*> owns;
    std::vector<std::optional<std::string>> bin;
    std::vector<std::optional<std::vector<double>>> box;
  };
  std::vector<std::unique_ptr<Kept>> kept;
  auto check = [&](Kept& k, const char* what) {
    if (kind == 0) {
      CheckArrayShape(&k.a.a, (int64_t)k.f.size(), what);
      ExpectFeatures(k.f, DecodeArray(t, &k.a.a, what), "wrong-array", what);
    } else if (kind == 1) {
      SIM_CHECK(k.a.a.length == (int64_t)k.bin.size(), "wrong-array", "%s: length %lld", what, (long long)k.a.a.length);
      bool large = t == GEOARROW_TYPE_LARGE_WKB || t == GEOARROW_TYPE_LARGE_WKT;
      const uint8_t* v = (const uint8_t*)k.a.a.buffers[0];
      const char* d = (const char*)k.a.a.buffers[2];
      for (size_t i = 0; i < k.bin.size(); i++) {
        bool null = v && !(v[i / 8] >> (i % 8) & 1);
        SIM_CHECK(null == !k.bin[i], "wrong-array", "%s: null of row %zu", what, i);
        if (null) continue;
        int64_t a = large ? ((const int64_t*)k.a.a.buffers[1])[i] : ((const int32_t*)k.a.a.buffers[1])[i];
        int64_t b = large ? ((const int64_t*)k.a.a.buffers[1])[i + 1] : ((const int32_t*)k.a.a.buffers[1])[i + 1];
        SIM_CHECK(std::string(d + a, (size_t)(b - a)) == *k.bin[i], "wrong-array", "%s: row %zu", what, i);
      }
    } else {
      CheckArrayShape(&k.a.a, (int64_t)k.box.size(), what);
      const uint8_t* v = (const uint8_t*)k.a.a.buffers[0];
      for (size_t i = 0; i < k.box.size(); i++) {
        bool null = v && !(v[i / 8] >> (i % 8) & 1);
        SIM_CHECK(null == !k.box[i], "wrong-array", "%s: null of row %zu", what, i);
        for (int j = 0; j < 2 * Nd(dims) && !null; j++) {
          const ArrowArray* c = k.a.a.children[j];
          double got = ((const double*)c->buffers[1])[i + c->offset];
          SIM_CHECK(memcmp(&got, &(*k.box[i])[j], 8) == 0, "wrong-array", "%s: box %zu ordinate %d", what, i, j);
        }
      }
    }
    SIM_CHECK(k.a.a.null_count <= 0 || k.a.a.null_count == (int64_t)std::count_if(k.f.begin(), k.f.end(), [](const Feature& f) { return f.null; }),
              "null-count", "%s: %lld", what, (long long)k.a.a.null_count);
    for (auto* o : k.owns) SIM_CHECK(o->freed == 0, "freed-early", "%s: an owned buffer was freed while its array lives", what);
  };
  uint32_t rounds = 1 + D(4);
  for (uint32_t r = 0; r < rounds; r++) {
    auto k = std::make_unique<Kept>();
    uint32_t n = Small(14);
    size_t first_owned = w.owned.size();
    bool own_all = D(5) == 4;
    auto own = [&]() { return own_all || D(8) == 7; };
    bool retry = false;
    std::vector<double> held;  // coordinates kept back until after a failed finish
    int held_dims = dims;
    if (kind == 0) {
      GenOpts o = SwarmOpts(600);
      if (o.budget) n = DrawRows(o, 14);
      o.only_type = gt;
      int sd = D(2) ? dims : D4();
      o.only_dims = sd;
      Features f = GenFeatures(o, n);
      NativeBufs nb = EncodeNative(gt, sd, f, B(4));
      for (auto& x : f)
        if (!x.null) x.g = MapDims(x.g, dims);
      for (auto& x : f)
        if (gt == PT && !x.null && x.g.c.empty()) x.g.c.assign(Nd(dims), NAN);
      k->f = f;
      std::vector<double> mapped = MapFlat(nb.coords, sd, dims);
      // pieces in a drawn order
      std::vector<int> order;
      for (int i = 0; i < 2 + (int)nb.offs.size(); i++) order.push_back(i);
      for (size_t i = order.size(); i > 1; i--) std::swap(order[i - 1], order[D((uint32_t)i)]);
      for (int piece : order) {
        if (piece == 0) {
          if (!nb.validity.empty()) w.Put(0, nb.validity.data(), nb.validity.size(), own());
        } else if (piece == 1) {
          int nd = Nd(dims);
          uint32_t how = own_all ? 2 : W({4, 2, 1});
          if (how == 0) {
            std::vector<double> c = nb.coords;
            if (!nb.offs.empty() && !c.empty() && B(8)) {
              size_t keep = D((uint32_t)(c.size() / Nd(sd))) * Nd(sd);
              held.assign(c.begin() + keep, c.end());
              held_dims = sd;
              c.resize(keep);
              retry = true;
            }
            w.PutCoords(c, sd);
          } else if (ct == GEOARROW_COORD_TYPE_INTERLEAVED) {
            w.Put(1 + (int64_t)nb.offs.size(), mapped.data(), mapped.size() * 8, how == 2);
          } else {
            for (int j = 0; j < nd; j++) {
              std::vector<double> x;
              for (size_t i = j; i < mapped.size(); i += nd) x.push_back(mapped[i]);
              w.Put(1 + (int64_t)nb.offs.size() + j, x.data(), x.size() * 8, how == 2);
            }
          }
        } else {
          w.PutOffsets(piece - 2, nb.offs[piece - 2], own_all ? 2 : (int)W({4, 2, 1}));
        }
      }
      Log("round %u: %zu features of %s, %zu ordinates%s%s", r, f.size(), TypeText(t).c_str(), mapped.size(), own_all ? ", owned" : "",
          retry ? ", some kept back" : "");
    } else if (kind == 1) {
      bool large = t == GEOARROW_TYPE_LARGE_WKB || t == GEOARROW_TYPE_LARGE_WKT;
      std::string data, valid((n + 7) / 8, 0);
      std::vector<int32_t> o4(1, 0);
      std::vector<int64_t> o8(1, 0);
      bool nulls = false;
      for (uint32_t i = 0; i < n; i++) {
        if (B(5)) {
          k->bin.push_back(std::nullopt);
          nulls = true;
        } else {
          std::string x;
          uint32_t len = Small(40);
          for (uint32_t j = 0; j < len; j++) x += (char)D(256);
          k->bin.push_back(x);
          data += x;
          valid[i / 8] |= (char)(1 << (i % 8));
        }
        o4.push_back((int32_t)data.size());
        o8.push_back((int64_t)data.size());
      }
      if (nulls) w.Put(0, valid.data(), valid.size(), own());
      if (large)
        w.Put(1, o8.data(), o8.size() * 8, own());
      else
        w.PutOffsets(0, o4, own() ? 2 : (int)D(2));
      w.Put(2, data.data(), data.size(), own());
      Log("round %u: %u items, %zu bytes", r, n, data.size());
    } else {
      std::string valid((n + 7) / 8, 0);
      bool nulls = false;
      int nd = 2 * Nd(dims);
      std::vector<std::vector<double>> cols(nd);
      for (uint32_t i = 0; i < n; i++) {
        std::vector<double> x;
        for (int j = 0; j < nd; j++) x.push_back(GenCoord((int)D(4)));
        for (int j = 0; j < nd; j++) cols[j].push_back(x[j]);
        if (B(5)) {
          k->box.push_back(std::nullopt);
          nulls = true;
        } else {
          k->box.push_back(x);
          valid[i / 8] |= (char)(1 << (i % 8));
        }
      }
      if (nulls) w.Put(0, valid.data(), valid.size(), own());
      for (int j = 0; j < nd; j++) w.Put(1 + j, cols[j].data(), cols[j].size() * 8, own());
      Log("round %u: %u boxes", r, n);
    }
    // buffers that do not exist
    if (B(6)) {
      Owned bad;
      bad.data.reset(new uint8_t[8]);
      GeoArrowBufferView v;
      v.data = bad.data.get();
      v.size_bytes = 8;
      int64_t i = D(2) ? -1 - (int64_t)D(3) : w.b.view.n_buffers + D(3);
      int e = GeoArrowBuilderSetOwnedBuffer(&w.b, i, v, &FreeOwned, &bad);
      SIM_CHECK(e == EINVAL && bad.freed == 0, "bad-index", "buffer %lld of %lld: %d, freed %d times", (long long)i, (long long)w.b.view.n_buffers, e, bad.freed);
    }
    if (retry) {
      Arr a;
      w.err.message[0] = 0;
      int e = GeoArrowBuilderFinish(&w.b, &a.a, &w.err);
      Log("finish with missing coordinates -> %d", e);
      SIM_CHECK(e != 0 && a.a.release == nullptr, "inconsistent-array", "finish delivered an array whose offsets exceed its coordinates");
      Count("fault.finish_with_missing_coords");
      w.PutCoords(held, held_dims);
    }
    if (r + 1 == rounds && B(5)) break;  // never finished
    rc = GeoArrowBuilderFinish(&w.b, &k->a.a, &w.err);
    Log("finish -> %d", rc);
    SIM_CHECK(rc == 0, "finish", "%s: %d %s", TypeText(t).c_str(), rc, w.err.message);
    for (size_t i = first_owned; i < w.owned.size(); i++) k->owns.push_back(w.owned[i].get());
    check(*k, ("round " + std::to_string(r)).c_str());
    if (kind == 0) HashArray("array", &k->a.a, t);
    sim::State(sim::Mix((uint64_t)t, n * 4 + own_all * 2 + retry));
    if (n > 1) sim::NonTrivial();
    kept.push_back(std::move(k));
    if (B(4)) {  // release one, in any order
      size_t i = D((uint32_t)kept.size());
      kept[i]->a.Release();
      for (auto* o : kept[i]->owns)
        SIM_CHECK(o->freed == 1 && o->got_ptr == o->data.get() && o->got_size == (int64_t)o->size, "custom-free",
                  "owned buffer freed %d times with %p (%p) size %lld (%zu)", o->freed, o->got_ptr, o->data.get(), (long long)o->got_size, o->size);
      kept.erase(kept.begin() + i);
    }
  }
  if (D(2)) {
    GeoArrowBuilderReset(&w.b);
    for (auto& k : kept) check(*k, "after the builder was reset");
    kept.clear();
  } else {
    for (auto& k : kept) check(*k, "at the end");
    kept.clear();
    GeoArrowBuilderReset(&w.b);
  }
  SIM_CHECK(w.b.private_data == nullptr, "reset", "builder not marked as reset");
  for (auto& o : w.owned)
    SIM_CHECK(o->freed == 1 && o->got_ptr == o->data.get() && o->got_size == (int64_t)o->size, "custom-free",
              "owned buffer of %zu bytes freed %d times with the %s pointer and size %lld", o->size, o->freed,
              o->got_ptr == o->data.get() ? "right" : "wrong", (long long)o->got_size);
}
SIM_PROPERTY("P13", Run, 300000, 10000000,
             "one run builds 1..4 arrays with one builder from pieces appended in a drawn order, chunking and API (including owned buffers, "
             "other dimensions, premature finishes) and compares each with the model; non-trivial: an array with two rows")

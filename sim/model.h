// Reference model: geometries, encoders, decoders, Arrow array builders and
// visitors that belong to the harness and share no code with the library.
#pragma once
#include <array>
#include <memory>
#include <optional>
#include <string>
#include <vector>

#include "core.h"
#include "nanoarrow/nanoarrow.h"

#include "geoarrow/geoarrow.h"

namespace model {
using sim::B;
using sim::D;
using sim::Log;

enum { PT = 1, LS = 2, PG = 3, MPT = 4, MLS = 5, MPG = 6, GC = 7, RING = 8 };
enum { XY = 1, XYZ = 2, XYM = 3, XYZM = 4 };
int Nd(int dims);
const char* TypeName(int t);   // upper case WKT name
const char* DimsName(int d);   // "", "Z", "M", "ZM"

struct Geom {
  int type = PT, dims = XY;
  std::vector<double> c;   // interleaved ordinates (PT, LS, RING)
  std::vector<Geom> kids;  // rings of a PG, members of the others
  size_t n() const { return c.size() / Nd(dims); }
  bool leaf() const { return type == PT || type == LS || type == RING; }
  size_t coords() const;   // total, recursively
  size_t nodes() const;
};
struct Feature {
  bool null = true;
  Geom g;
};
using Features = std::vector<Feature>;

// Canonical text with bit-exact ordinates; a point without coordinates and a point
// whose ordinates are all NaN are the same thing (WKB has no other spelling).
std::string Key(const Geom& g, bool bits = true);
std::string Key(const Feature& f, bool bits = true);
std::string Show(const Feature& f);  // readable
std::string Show(const Geom& g);

// ---- generation
struct GenOpts {
  uint32_t max_coords = 6, max_kids = 4, max_depth = 3;
  int only_type = 0, only_dims = 0;
  int coord_style = -1;        // -1: drawn per call; 0 ints, 1 quarters, 2 doubles, 3 special
  bool empties = true, collections = true;
  bool empty_points_in_multi = true;
  uint32_t null_den = 6;       // 0: never null
  uint32_t big_den = 24;       // one in n sequences is long (crosses reader chunks)
  mutable uint32_t budget = 0;  // when not zero: what is left for very long sequences and very many parts
};
double GenCoord(int style);
Geom GenGeom(const GenOpts& o, int type, int dims, uint32_t depth = 0);
Geom GenGeom(const GenOpts& o);
Feature GenFeature(const GenOpts& o);
Features GenFeatures(const GenOpts& o, uint32_t n);
GenOpts SwarmOpts(uint32_t large_den = 0);  // drawn options; one in large_den (if any) draws very large features
uint32_t DrawRows(const GenOpts& o, uint32_t max);  // a number of rows, usually small

// ---- transformations of the model
Geom MapDims(const Geom& g, int dims);  // by ordinate name, missing = NaN
void DropEmptyParts(Geom& g);
Geom StripEmptyPointCoords(Geom g);
size_t Sequences(const Geom& g);        // linestrings, rings and multipoints

// ---- WKB
struct WkbStyle {
  int endian = 1;      // 1 LE, 0 BE, 2 drawn per node
  int flavour = 0;     // 0 ISO, 1 EWKB, 2 drawn per node
  bool srid = false;   // (EWKB only) SRID on the root
};
WkbStyle GenWkbStyle();
std::string Wkb(const Geom& g, const WkbStyle& s = WkbStyle());
// Full-grammar decoder. Returns 0 ok, 1 malformed, 2 decodable but outside what the
// documents say (members of another type in a multi-geometry, undefined flag bits, EWKB
// flags on an ISO dimension code, nesting beyond 250 levels); `used` is what it consumed.
int ParseWkb(const uint8_t* p, size_t n, Geom* out, size_t* used);

// ---- WKT
struct WktStyle {
  int space = 0;       // 0 canonical, 1 minimal, 2 drawn whitespace everywhere
  int word_case = 0;   // 0 upper, 1 lower, 2 mixed
  int flat_multipoint = 1;
  int number = 0;      // 0 shortest %.17g-like, 1 varied spellings
};
WktStyle GenWktStyle();
std::string Wkt(const Geom& g, const WktStyle& s = WktStyle());
std::string NumText(double v, int style);
// Reference grammar: 0 ok, 1 malformed, 2 not decided by the documents (number
// spellings only some parsers know or that overflow, nesting beyond 200 levels).
int ParseWkt3(const std::string& s, Geom* out);
inline bool ParseWkt(const std::string& s, Geom* out) { return ParseWkt3(s, out) == 0; }
// Text as the library should print it: shortest fixed notation, `precision` decimals.
std::string CanonicalNumber(double v);  // for values that are multiples of 1/4, |v|<1e9
std::string CanonicalWkt(const Geom& g, bool flat_multipoint);

// ---- Arrow arrays owned by the harness
extern int64_t g_arrays_live;   // not yet released (top level arrays)
extern int64_t g_array_releases;
struct ArrOpts {
  bool slice = true;        // random offset, garbage rows around
  bool garbage = true;      // garbage behind null slots
  bool validity = false;    // validity buffer even without nulls
};
ArrOpts GenArrOpts();
enum { BK_I32, BK_I64, BK_VIEW };
ArrowArray MakeBinary(const std::vector<std::optional<std::string>>& v, int kind,
                      const ArrOpts& o);
ArrowArray MakeNative(int gtype, int dims, int coord_type, const Features& f,
                      const ArrOpts& o);
ArrowArray MakeBox(int dims, const std::vector<std::optional<std::vector<double>>>& v,
                   const ArrOpts& o);
// Encodes features as `type`; serialised styles are drawn. `enc` receives the
// per-row bytes when the type is serialised.
ArrowArray MakeSource(enum GeoArrowType type, const Features& f, const ArrOpts& o,
                      std::vector<std::optional<std::string>>* enc = nullptr);
bool IsNative(enum GeoArrowType t);
bool IsSerialized(enum GeoArrowType t);
bool IsWkt(enum GeoArrowType t);
enum GeoArrowType NativeType(int gtype, int dims, int coord_type);
struct TypeParts {
  int gtype, dims, coord_type;
};
TypeParts Parts(enum GeoArrowType t);
std::string TypeText(enum GeoArrowType t);

// ---- decoding of arrays the library produced (fails the run when inconsistent)
void CheckArrayShape(const ArrowArray* a, int64_t expect_len, const char* what);
std::vector<std::optional<std::string>> DecodeBinary(const ArrowArray* a,
                                                     const char* what);
Features DecodeNative(enum GeoArrowType t, const ArrowArray* a, const char* what);
Features DecodeArray(enum GeoArrowType t, const ArrowArray* a, const char* what);
void HashArray(const char* what, const ArrowArray* a, enum GeoArrowType t);

// ---- visitors
// Builds features from events and checks the grammar of the event stream. Can
// return an error at a chosen callback and can forward to another visitor.
struct Recorder {
  GeoArrowVisitor v;
  Features out;
  // fault
  int64_t fail_at = -1;   // index of the callback that fails
  int fail_code = 0;
  int64_t n_calls = 0;
  int64_t calls_after_fail = 0;
  std::string first_after_fail;
  bool failed = false;
  int64_t n_coords = 0;
  GeoArrowVisitor* forward = nullptr;
  bool check = true;      // grammar violations fail the run
  bool keep = true;       // build features
  bool trace = false;
  std::vector<std::string> events;
  explicit Recorder(GeoArrowError* error = nullptr);
  bool in_feature() const { return in_feat; }
  void Reset();

  bool in_feat = false, have_geom = false, is_null = false;
  struct Level {
    Geom g;
    bool ring = false;
  };
  std::vector<Level> stack;
  int Enter(const char* name);
};

// Drives a visitor from the model. Coordinates are cut into drawn chunks and
// presented in drawn layouts (separate, interleaved, strided).
int EmitGeom(const Geom& g, GeoArrowVisitor* v, bool chunk);
int EmitFeature(const Feature& f, GeoArrowVisitor* v, bool chunk);

// Harness-owned storage for one coordinate chunk in a drawn layout.
struct CoordChunk {
  std::unique_ptr<double[]> buf;
  GeoArrowCoordView view;
  void Set(const double* interleaved, size_t n, int nd, int layout);
};

// ---- geometry views built by the harness
struct ViewBuilder {
  std::vector<GeoArrowGeometryNode> nodes;
  std::vector<std::unique_ptr<uint8_t[]>> bufs;
  GeoArrowGeometryView view;
  void Build(const Geom& g, bool vary);  // vary: foreign endian, strides
 private:
  void Add(const Geom& g, int level, bool vary);
};
bool ReadView(GeoArrowGeometryView v, Geom* out);  // full structural decode

// ---- comparisons
void ExpectFeature(const Feature& want, const Feature& got, const char* sig,
                   const char* what, size_t row);
void ExpectFeatures(const Features& want, const Features& got, const char* sig,
                    const char* what);
// Compares with numbers rounded to `precision` decimals.
bool CloseGeom(const Geom& a, const Geom& b, int precision);

// ---- small RAII holders for library objects
struct Arr {
  ArrowArray a;
  Arr() { a.release = nullptr; }
  explicit Arr(ArrowArray x) : a(x) {}
  Arr(const Arr&) = delete;
  ~Arr() { Release(); }
  void Release() {
    if (a.release) a.release(&a);
  }
};
struct Schema {
  ArrowSchema s;
  Schema() { s.release = nullptr; }
  Schema(const Schema&) = delete;
  ~Schema() {
    if (s.release) s.release(&s);
  }
};
}  // namespace model

// Reference reader for GeoArrow extension metadata, written from the JSON grammar and the
// documented keys. Decides for any byte string: accepted with what, rejected, or not specified.
#pragma once
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <string>

namespace jsonref {
enum Verdict { ACCEPT, REJECT, UNSPEC };
enum Edge { PLANAR, SPHERICAL, VINCENTY, THOMAS, ANDOYER, KARNEY };
enum CrsKind { NONE, UNKNOWN, PROJJSON, WKT2, AUTH, SRID };
struct Meta {
  Verdict verdict = ACCEPT;
  int edge = PLANAR, kind = NONE;
  std::string crs;  // raw JSON of the value
  std::string text; // decoded
  bool text_spec = true;
};

inline void Utf8(uint32_t c, std::string* o) {
  if (c < 0x80) {
    *o += (char)c;
  } else if (c < 0x800) {
    *o += (char)(0xC0 | c >> 6);
    *o += (char)(0x80 | (c & 63));
  } else if (c < 0x10000) {
    *o += (char)(0xE0 | c >> 12);
    *o += (char)(0x80 | (c >> 6 & 63));
    *o += (char)(0x80 | (c & 63));
  } else {
    *o += (char)(0xF0 | c >> 18);
    *o += (char)(0x80 | (c >> 12 & 63));
    *o += (char)(0x80 | (c >> 6 & 63));
    *o += (char)(0x80 | (c & 63));
  }
}

struct Reader {
  const std::string& s;
  size_t i = 0;
  bool end = false;      // ran into the end of the text
  bool sloppy = false;   // something JSON forbids or the documentation leaves open
  int max_depth = 0;
  explicit Reader(const std::string& t) : s(t) {}
  void Ws() {
    while (i < s.size() && (s[i] == ' ' || s[i] == '\t' || s[i] == '\n' || s[i] == '\r')) i++;
  }
  bool More() {
    if (i < s.size()) return true;
    end = true;
    return false;
  }
  int Hex4(size_t p) {
    int v = 0;
    for (size_t k = p; k < p + 4; k++) {
      if (k >= s.size() || !isxdigit((unsigned char)s[k])) return -1;
      v = v * 16 + (s[k] <= '9' ? s[k] - '0' : (s[k] | 32) - 'a' + 10);
    }
    return v;
  }
  // A string from its opening quote; *out decoded. False if it does not end.
  bool Str(std::string* out, bool* exact) {
    *exact = true;
    i++;
    while (More()) {
      unsigned char c = (unsigned char)s[i];
      if (c == '"') {
        i++;
        return true;
      }
      if (c < 0x20) sloppy = true;
      if (c != '\\') {
        *out += (char)c;
        i++;
        continue;
      }
      i++;
      if (!More()) return false;
      char e = s[i++];
      static const char from[] = "\"\\/bfnrt", to[] = "\"\\/\b\f\n\r\t";
      const char* p = e ? strchr(from, e) : nullptr;
      if (p) {
        *out += to[p - from];
      } else if (e == 'u' && Hex4(i) >= 0) {
        uint32_t v = (uint32_t)Hex4(i);
        i += 4;
        if (v >= 0xD800 && v < 0xDC00 && i + 6 <= s.size() && s[i] == '\\' && s[i + 1] == 'u' && Hex4(i + 2) >= 0xDC00 &&
            Hex4(i + 2) < 0xE000) {
          v = 0x10000 + ((v - 0xD800) << 10) + ((uint32_t)Hex4(i + 2) - 0xDC00);
          i += 6;
        } else if (v >= 0xD800 && v < 0xE000) {
          *exact = false;
        }
        Utf8(v, out);
      } else {
        *exact = false;
        sloppy = true;
      }
    }
    return false;
  }
  bool Literal(const char* w) {
    for (; *w; w++, i++) {
      if (!More()) return false;
      if (s[i] != *w) return false;
    }
    return true;
  }
  bool Number() {
    if (More() && s[i] == '-') i++;
    size_t d = i;
    while (i < s.size() && isdigit((unsigned char)s[i])) i++;
    if (i == d) return More() && false;
    if (s[d] == '0' && i - d > 1) return false;
    if (i < s.size() && s[i] == '.') {
      d = ++i;
      while (i < s.size() && isdigit((unsigned char)s[i])) i++;
      if (i == d) return More() && false;
    }
    if (i < s.size() && (s[i] | 32) == 'e') {
      i++;
      if (i < s.size() && (s[i] == '+' || s[i] == '-')) i++;
      d = i;
      while (i < s.size() && isdigit((unsigned char)s[i])) i++;
      if (i == d) return More() && false;
    }
    return true;
  }
  // Any JSON value, strictly; iterative so that depth costs no stack.
  bool Value() {
    std::string open;
    bool want_value = true;
    while (true) {
      Ws();
      if (!More()) return false;
      char c = s[i];
      if (want_value) {
        if (c == '{' || c == '[') {
          open += c;
          if ((int)open.size() > max_depth) max_depth = (int)open.size();
          i++;
          Ws();
          if (!More()) return false;
          if (s[i] == (c == '{' ? '}' : ']')) {
            i++;
            open.pop_back();
            want_value = false;
          } else if (c == '{' && !Key()) {
            return false;
          }
        } else {
          std::string t;
          bool x;
          bool ok = c == '"'   ? Str(&t, &x)
                    : c == 't' ? Literal("true")
                    : c == 'f' ? Literal("false")
                    : c == 'n' ? Literal("null")
                               : Number();
          if (!ok) return false;
          want_value = false;
        }
      } else {
        if (open.empty()) return true;
        if (c == ',') {
          i++;
          Ws();
          if (!More()) return false;
          if (open.back() == '{' && !Key()) return false;
          want_value = true;
          continue;
        }
        if (c != (open.back() == '{' ? '}' : ']')) return false;
        i++;
        open.pop_back();
      }
      if (open.empty() && !want_value) return true;
    }
  }
  bool Key() {
    std::string t;
    bool x;
    if (s[i] != '"') return false;
    if (!Str(&t, &x)) return false;
    Ws();
    if (!More() || s[i] != ':') return false;
    i++;
    return true;
  }
};

inline Meta Parse(const std::string& s) {
  Meta m;
  if (s.empty()) return m;
  Reader r(s);
  bool has_edge = false, has_crs = false, has_kind = false;
  int kind = UNKNOWN;
  auto reject = [&]() {
    m.verdict = REJECT;
    return m;
  };
  auto unspec = [&]() {
    m.verdict = UNSPEC;
    return m;
  };
  r.Ws();
  if (!r.More() || s[r.i] != '{') return reject();
  r.i++;
  r.Ws();
  if (!r.More()) return reject();
  if (s[r.i] == '}') {
    r.i++;
  } else {
    while (true) {
      r.Ws();
      if (!r.More() || s[r.i] != '"') return reject();
      std::string key, raw, text;
      bool exact, vexact = true;
      size_t k0 = r.i;
      if (!r.Str(&key, &exact)) return reject();
      if (s.substr(k0, r.i - k0).find('\\') != std::string::npos) {
        r.sloppy = true;
        key.clear();
      }
      r.Ws();
      if (!r.More() || s[r.i] != ':') return reject();
      r.i++;
      r.Ws();
      if (!r.More()) return reject();
      size_t v0 = r.i;
      char c = s[v0];
      bool known = key == "edges" || key == "crs" || key == "crs_type";
      if (c == '"') {
        if (!r.Str(&text, &vexact)) return reject();
      } else if (c == 'n') {
        if (!r.Literal("null")) return reject();
      } else if (c == '{' || c == '[') {
        if (!r.Value()) {
          if (r.end) return reject();
          return unspec();
        }
        if (r.max_depth > 500) return unspec();
      } else {
        bool ok = c == 't' ? r.Literal("true") : c == 'f' ? r.Literal("false") : r.Number();
        if (!ok || known) return reject();
        r.sloppy = true;
      }
      raw = s.substr(v0, r.i - v0);
      if (key == "edges") {
        static const char* const e[] = {"planar", "spherical", "vincenty", "thomas", "andoyer", "karney"};
        if (has_edge) r.sloppy = true;
        has_edge = true;
        int f = -1;
        for (int k = 0; k < 6; k++)
          if (c == '"' && text == e[k]) f = k;
        if (c == 'n') f = PLANAR;
        if (c == '"' && raw.find('\\') != std::string::npos)
          r.sloppy = true;
        else if (f < 0)
          return reject();
        m.edge = f;
      } else if (key == "crs") {
        if (has_crs) r.sloppy = true;
        has_crs = true;
        if (c == '[') return reject();
        if (c != 'n') {
          m.crs = raw;
          m.text = c == '"' ? text : raw;
          m.text_spec = vexact;
        }
      } else if (key == "crs_type") {
        static const char* const e[] = {"projjson", "wkt2:2019", "authority_code", "srid"};
        if (has_kind) r.sloppy = true;
        has_kind = true;
        if (c == '{' || c == '[') return reject();
        if (c == 'n') r.sloppy = true;
        if (c == '"' && raw.find('\\') != std::string::npos) r.sloppy = true;
        kind = UNKNOWN;
        for (int k = 0; k < 4; k++)
          if (c == '"' && text == e[k]) kind = PROJJSON + k;
      }
      r.Ws();
      if (!r.More()) return reject();
      if (s[r.i] == '}') {
        r.i++;
        break;
      }
      if (s[r.i] != ',') return reject();
      r.i++;
    }
  }
  r.Ws();
  if (r.i != s.size()) return reject();
  if (r.sloppy) return unspec();
  m.kind = m.crs.empty() ? (int)NONE : kind;
  return m;
}
}  // namespace jsonref

// Common parts of the harnesses: event output (one JSON object per line), seeded random numbers, exact projections.
#ifndef VT_H
#define VT_H
#include <cstdio>
#include <cmath>
#include <cstring>
#include <cstdint>
#include <string>
#include <vector>
#include <sstream>
#include <fstream>
#include <iostream>
#include <random>
#include <stdexcept>

namespace vt {
static FILE* out_ = nullptr;
static const long BAD = 2000000001L;      // "not an exact integer in range"

inline void open(const char* path) { out_ = fopen(path, "w"); if (!out_) { perror(path); exit(3); } }

// exact value * scale, or BAD
inline long exact(double v, double scale = 1.0) {
  double x = v * scale;
  if (!(x == x) || std::fabs(x) > 1.0e9 || x != std::floor(x)) return BAD;
  return (long)x;
}
// rounded value * scale, or BAD
inline long fixed(double v, double scale) {
  double x = v * scale;
  if (!(x == x) || std::fabs(x) > 1.0e9) return BAD;
  return (long)std::floor(x + 0.5);
}
inline uint32_t bits(float f) { uint32_t u; memcpy(&u, &f, 4); return u; }

struct J {                                 // tiny JSON builder
  std::string s; bool first = true; char close;
  explicit J(bool obj = true) : s(obj ? "{" : "["), close(obj ? '}' : ']') {}
  void sep() { if (!first) s += ","; first = false; }
  static std::string esc(const std::string& x) {
    std::string r = "\"";
    for (unsigned char c : x) {
      if (c == '"' || c == '\\') { r += '\\'; r += c; }
      else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
      else r += c;
    }
    return r + "\"";
  }
  J& k(const char* key) { sep(); s += std::string("\"") + key + "\":"; return *this; }
  J& raw(const char* key, const std::string& v) { k(key); s += v; return *this; }
  J& i(const char* key, long v) { k(key); s += std::to_string(v); return *this; }
  J& b(const char* key, bool v) { k(key); s += v ? "true" : "false"; return *this; }
  J& t(const char* key, const std::string& v) { k(key); s += esc(v); return *this; }
  J& add(long v) { sep(); s += std::to_string(v); return *this; }
  J& addraw(const std::string& v) { sep(); s += v; return *this; }
  J& addt(const std::string& v) { sep(); s += esc(v); return *this; }
  template <class V> J& arr(const char* key, const V& v) {
    k(key); s += "["; bool f = true;
    for (auto x : v) { if (!f) s += ","; f = false; s += std::to_string((long)x); }
    s += "]"; return *this;
  }
  std::string str() const { return s + close; }
};
inline J ev(const char* name) { J j; j.t("e", name); return j; }
inline void emit(const J& j) { std::string x = j.str(); x += "\n"; fwrite(x.data(), 1, x.size(), out_); fflush(out_); }

struct R {                                  // seeded random choices
  std::mt19937_64 g;
  explicit R(uint64_t seed) : g(seed * 1000003ULL + 17) {}
  long in(long lo, long hi) { return lo + (long)(g() % (uint64_t)(hi - lo + 1)); }
  bool chance(int pct) { return in(0, 99) < pct; }
  template <class V> typename V::value_type pick(const V& v) { return v[in(0, (long)v.size() - 1)]; }
};

// scenario files: whitespace separated words, one scenario per line
inline std::vector<std::vector<std::string>> scenario_lines(const char* path) {
  std::vector<std::vector<std::string>> r; std::ifstream f(path); std::string line;
  while (std::getline(f, line)) { std::istringstream is(line); std::vector<std::string> w; std::string x; while (is >> x) w.push_back(x); if (w.size()) r.push_back(w); }
  return r;
}
// characters of a string as a JSON array of codes (TLC strings are opaque)
inline std::vector<long> codes(const std::string& s) { std::vector<long> v; for (unsigned char c : s) v.push_back(c); return v; }
}
#ifdef CONV_TENSOR_H
namespace vt {
inline std::vector<long> vals(const Conv::Tensor& t, double scale = 1.0) {
  std::vector<long> v; v.reserve(t.elements());
  for (std::size_t e = 0; e < t.elements(); e++) v.push_back(exact(t.data_ptr_const()[e], scale));
  return v;
}
inline std::vector<long> dims(const Conv::Tensor& t) { return {(long)t.samples(), (long)t.width(), (long)t.height(), (long)t.maps()}; }
}
#endif
#endif

// Recorder: writes what the library answered as one JSON object per line.
// Contains no expectation about any answer.
#ifndef VERIF_REC_HH
#define VERIF_REC_HH
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <functional>
#include <iostream>
#include <limits>
#include <random>
#include <sstream>
#include <string>
#include <vector>

namespace rec {

// floor part and nine decimals; anything not representable gets a marker
template<class T>
inline std::string num(T v0)
{
  long double v = static_cast<long double>(v0);
  if (!(std::fabs(v) < 1.9e9L))
    return "[2000000000,0]";
  long double fl = std::floor(v);
  long double fr = std::floor((v - fl) * 1e9L + 0.5L);
  long long I = (long long)fl, F = (long long)fr;
  if (F >= 1000000000LL) { I += 1; F -= 1000000000LL; }
  char buf[64];
  std::snprintf(buf, sizeof buf, "[%lld,%lld]", I, F);
  return buf;
}

// integers, clamped to what the checker can read
inline std::string integer(long long v)
{
  if (v > 2000000000LL) v = 2000000000LL;
  if (v < -2000000000LL) v = -2000000000LL;
  return std::to_string(v);
}

inline std::string quote(const std::string& s)
{
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += char(c); }
    else if (c < 32 || c > 126) r += '?';
    else r += char(c);
  }
  return r + "\"";
}

template<class V>
inline std::string nums(const V& v, int n)
{
  std::string r = "[";
  for (int i = 0; i < n; ++i) { if (i) r += ","; r += num(v[i]); }
  return r + "]";
}
template<class V> inline std::string nums(const V& v) { return nums(v, int(v.size())); }

template<class M>
inline std::string mat(const M& m, int rows, int cols)
{
  std::string r = "[";
  for (int i = 0; i < rows; ++i) {
    if (i) r += ",";
    r += "[";
    for (int j = 0; j < cols; ++j) { if (j) r += ","; r += num(m[i][j]); }
    r += "]";
  }
  return r + "]";
}

template<class V>
inline std::string ints(const V& v)
{
  std::string r = "[";
  bool first = true;
  for (auto x : v) { if (!first) r += ","; first = false; r += integer((long long)x); }
  return r + "]";
}

inline std::string list(const std::vector<std::string>& v)
{
  std::string r = "[";
  for (std::size_t i = 0; i < v.size(); ++i) { if (i) r += ","; r += v[i]; }
  return r + "]";
}

inline std::string boolean(bool b) { return b ? "true" : "false"; }

class Event
{
  std::string s;
public:
  explicit Event(const std::string& op) : s("{\"op\":" + quote(op)) {}
  Event& raw(const char* k, const std::string& v) { s += ",\""; s += k; s += "\":"; s += v; return *this; }
  Event& i(const char* k, long long v) { return raw(k, integer(v)); }
  Event& b(const char* k, bool v) { return raw(k, boolean(v)); }
  Event& str(const char* k, const std::string& v) { return raw(k, quote(v)); }
  template<class T> Event& x(const char* k, T v) { return raw(k, num(v)); }
  template<class V> Event& ints(const char* k, const V& v) { return raw(k, rec::ints(v)); }
  template<class V> Event& nums(const char* k, const V& v, int n) { return raw(k, rec::nums(v, n)); }
  template<class M> Event& mat(const char* k, const M& m, int r, int c) { return raw(k, rec::mat(m, r, c)); }
  std::string done() const { return s + "}"; }
};

class Trace
{
  std::FILE* f;
  std::size_t n = 0;
public:
  explicit Trace(const std::string& path)
  {
    f = std::fopen(path.c_str(), "w");
    if (!f) { std::perror(path.c_str()); std::exit(3); }
  }
  Trace(const Trace&) = delete;
  ~Trace() { close(); }
  void close() { if (f) { std::fclose(f); f = nullptr; } }
  void put(const Event& e)
  {
    std::string s = e.done();
    s += "\n";
    std::fwrite(s.data(), 1, s.size(), f);
    ++n;
  }
  std::size_t size() const { return n; }
};

struct Options
{
  std::string out;       // output directory
  unsigned seed = 1;
  bool thorough = false;
};

inline Options options(int argc, char** argv)
{
  Options o;
  if (argc < 4) { std::fprintf(stderr, "usage: %s OUTDIR SEED quick|thorough\n", argv[0]); std::exit(3); }
  o.out = argv[1];
  o.seed = unsigned(std::strtoul(argv[2], nullptr, 10));
  o.thorough = std::string(argv[3]) == "thorough";
  return o;
}

// small deterministic generator, independent of the standard library's distributions
struct Rng
{
  std::uint64_t s;
  explicit Rng(std::uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
  std::uint64_t next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s; }
  int in(int lo, int hi) { return lo + int(next() % std::uint64_t(hi - lo + 1)); }
};

template<std::size_t... I, class F>
void forEachStatic(std::index_sequence<I...>, F&& f)
{ (f(std::integral_constant<std::size_t, I>{}), ...); }

} // namespace rec
#endif

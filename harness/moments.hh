// Integrals of monomials by a quadrature rule, along walks that raise one exponent at a time.
#ifndef VERIF_MOMENTS_HH
#define VERIF_MOMENTS_HH
#include <algorithm>
#include "rec.hh"
using rec::Rng;

template<class ct> const char* ctName() 
{
  return std::is_same<ct, float>::value ? "float" : std::is_same<ct, double>::value ? "double" : "long double";
}

// sign, decimal exponent and sixteen digits in groups of four, lowest first
inline std::string sci(long double v)
{
  if (!(std::fabs(v) < 1e300L)) return "[9,0,0,0,0,0]";
  if (v == 0) return "[0,0,0,0,0,0]";
  const int s = v < 0 ? -1 : 1;
  v = std::fabs(v);
  int e = int(std::floor(std::log10(v))) - 15;
  auto digits = [&] { return (unsigned long long) std::floor(v / std::pow(10.0L, (long double) e) + 0.5L); };
  unsigned long long m = digits();
  if (m >= 10000000000000000ULL) { ++e; m = digits(); }
  if (m < 1000000000000000ULL) { --e; m = digits(); }
  std::string r = "[" + std::to_string(s) + "," + std::to_string(e);
  for (int k = 0; k < 4; ++k) { r += "," + std::to_string(m % 10000); m /= 10000; }
  return r + "]";
}

// the integrals along a walk that raises one exponent at a time
template<class Rule>
std::string walk(const Rule& rule, const std::vector<int>& dirs)
{
  constexpr int d = Rule::d;
  std::vector<long double> v(rule.size());
  for (std::size_t i = 0; i < v.size(); ++i) v[i] = rule[i].weight();
  std::string r = "[";
  for (std::size_t k = 0; ; ++k) {
    long double q = 0;
    for (auto x : v) q += x;
    if (k) r += ",";
    r += sci(q);
    if (k == dirs.size()) break;
    if constexpr (d > 0)
      for (std::size_t i = 0; i < v.size(); ++i) v[i] *= (long double) rule[i].position()[dirs[k]];
  }
  return r + "]";
}

// walks to monomials of the given degree: every one of them if that is not too many
template<int d>
std::vector<std::vector<int>> walks(int degree, int many, Rng& rng)
{
  std::vector<std::vector<int>> r;
  if (d == 0) { r.push_back({}); return r; }
  std::vector<std::vector<int>> ends;
  std::vector<int> a(d, 0);
  std::function<void(int, int)> all = [&](int k, int left) {
    if (int(ends.size()) > 4 * many) return;
    if (k == d - 1) { a[k] = left; ends.push_back(a); return; }
    for (int v = 0; v <= left; ++v) { a[k] = v; all(k + 1, left - v); }
  };
  all(0, degree);
  if (int(ends.size()) > many) {
    ends.clear();
    for (int k = 0; k < d; ++k) { std::vector<int> e(d, 0); e[k] = degree; ends.push_back(e); }
    while (int(ends.size()) < std::max(many, d + 1)) {
      std::vector<int> e(d, 0);
      int left = degree;
      for (int k = d - 1; k > 0; --k) { e[k] = rng.in(0, left); left -= e[k]; }
      e[0] = left;
      std::rotate(e.begin(), e.begin() + rng.in(0, d - 1), e.end());
      ends.push_back(e);
    }
  }
  for (auto& e : ends) {
    std::vector<int> dirs;
    for (int k = 0; k < d; ++k) for (int i = 0; i < e[k]; ++i) dirs.push_back(k);
    for (int i = int(dirs.size()) - 1; i > 0; --i) std::swap(dirs[i], dirs[rng.in(0, i)]);
    r.push_back(dirs);
  }
  return r;
}
#endif

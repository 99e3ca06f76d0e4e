// A number type of many digits, as a user might supply it; to be included before everything else.
#ifndef VERIF_REAL_HH
#define VERIF_REAL_HH
#include <cmath>
#include <compare>
#include <complex>
#include <cstdint>
#include <iostream>
#include <limits>
#include <string>
#include <type_traits>
#include <vector>
#include <gmpxx.h>

namespace rec {

class Real
{
  mpf_class v_;
  static constexpr int bits = 448;
public:
  Real() : v_(0, bits) {}
  template<class T, std::enable_if_t<std::is_arithmetic_v<T>, int> = 0>
  Real(T x) : v_(0, bits)
  {
    if constexpr (std::is_same_v<T, long double>) {
      const double hi = double(x);
      v_ = hi;
      v_ += double(x - hi);
    }
    else if constexpr (std::is_floating_point_v<T>) v_ = double(x);
    else if constexpr (std::is_signed_v<T>) v_ = long(x);
    else v_ = (unsigned long)(x);
  }
  explicit Real(const char* s) : v_(s, bits) {}
  explicit Real(const std::string& s) : v_(s, bits) {}
  template<class T, class U> explicit Real(const __gmp_expr<T, U>& e) : v_(e, bits) {}
  const mpf_class& gmp() const { return v_; }
  template<class T, std::enable_if_t<std::is_arithmetic_v<T>, int> = 0>
  explicit operator T() const
  {
    if constexpr (std::is_same_v<T, bool>) return v_ != 0;
    else if constexpr (std::is_same_v<T, long double>) {
      const double hi = v_.get_d();
      mpf_class r(v_ - hi, bits);
      return (long double) hi + r.get_d();
    }
    else if constexpr (std::is_floating_point_v<T>) return T(v_.get_d());
    else return T(v_.get_si());
  }
  Real operator-() const { return Real(-v_); }
  Real operator+() const { return *this; }
  Real& operator+=(const Real& o) { v_ += o.v_; return *this; }
  Real& operator-=(const Real& o) { v_ -= o.v_; return *this; }
  Real& operator*=(const Real& o) { v_ *= o.v_; return *this; }
  Real& operator/=(const Real& o) { v_ /= o.v_; return *this; }
  Real& operator++() { v_ += 1; return *this; }
  Real& operator--() { v_ -= 1; return *this; }
  Real operator++(int) { Real r(*this); v_ += 1; return r; }
  Real operator--(int) { Real r(*this); v_ -= 1; return r; }
  friend Real operator+(const Real& a, const Real& b) { return Real(a.v_ + b.v_); }
  friend Real operator-(const Real& a, const Real& b) { return Real(a.v_ - b.v_); }
  friend Real operator*(const Real& a, const Real& b) { return Real(a.v_ * b.v_); }
  friend Real operator/(const Real& a, const Real& b) { return Real(a.v_ / b.v_); }
  friend bool operator==(const Real& a, const Real& b) { return a.v_ == b.v_; }
  friend std::partial_ordering operator<=>(const Real& a, const Real& b) { return cmp(a.v_, b.v_) <=> 0; }
  friend std::ostream& operator<<(std::ostream& o, const Real& x) { return o << x.v_.get_d(); }
  friend std::istream& operator>>(std::istream& i, Real& x) { std::string s; if (i >> s) x = Real(s); return i; }
};

inline Real abs(const Real& x) { return x < 0 ? -x : x; }
inline Real fabs(const Real& x) { return abs(x); }
inline Real sqrt(const Real& x) { return Real(::sqrt(x.gmp())); }
inline Real floor(const Real& x) { return Real(::floor(x.gmp())); }
inline Real ceil(const Real& x) { return Real(::ceil(x.gmp())); }
inline Real trunc(const Real& x) { return Real(::trunc(x.gmp())); }
inline Real round(const Real& x) { return x < 0 ? -floor(-x + Real(0.5)) : floor(x + Real(0.5)); }
inline Real hypot(const Real& x, const Real& y) { return sqrt(x * x + y * y); }
inline Real fmax(const Real& x, const Real& y) { return x < y ? y : x; }
inline Real fmin(const Real& x, const Real& y) { return y < x ? y : x; }
inline Real fma(const Real& x, const Real& y, const Real& z) { return x * y + z; }
inline Real copysign(const Real& x, const Real& y) { return y < 0 ? -abs(x) : abs(x); }
inline Real real(const Real& x) { return x; }
inline Real conj(const Real& x) { return x; }
inline Real imag(const Real&) { return 0; }
inline Real norm(const Real& x) { return x * x; }
inline Real pow(const Real& x, int k)
{
  Real r = 1;
  for (int i = 0; i < (k < 0 ? -k : k); ++i) r *= x;
  return k < 0 ? Real(1) / r : r;
}
inline bool isfinite(const Real&) { return true; }
inline bool isnan(const Real&) { return false; }
inline bool isinf(const Real&) { return false; }
inline bool signbit(const Real& x) { return x < 0; }

// sign and digits, eighty behind the point, four at a time, lowest first
inline std::string num(const Real& v)
{
  static const mpf_class scale("1e80", 600);
  mpf_class s(v.gmp(), 900);
  const int sign = s < 0 ? -1 : 1;
  s = ::abs(s) * scale + 0.5;
  mpz_class z(::floor(s));
  std::string r = sign < 0 ? "[-1" : "[1";
  while (z > 0) { mpz_class d = z % 10000; r += "," + std::to_string(d.get_si()); z /= 10000; }
  return r + "]";
}

} // namespace rec

template<>
class std::numeric_limits<rec::Real>
{
public:
  static constexpr bool is_specialized = true, is_signed = true, is_integer = false, is_exact = false;
  static constexpr bool has_infinity = false, has_quiet_NaN = false, has_signaling_NaN = false, is_bounded = true, is_modulo = false, is_iec559 = false;
  static constexpr int radix = 2, digits = 381, digits10 = 114, max_digits10 = 116;
  static rec::Real epsilon() { static const rec::Real e = rec::pow(rec::Real(0.5), 380); return e; }
  static rec::Real round_error() { return rec::Real(0.5); }
  static rec::Real min() { return rec::pow(rec::Real(0.5), 100000); }
  static rec::Real denorm_min() { return min(); }
  static rec::Real max() { static const rec::Real m = rec::pow(rec::Real(2), 100000); return m; }
  static rec::Real lowest() { return -max(); }
  static rec::Real infinity() { return max(); }
  static rec::Real quiet_NaN() { return 0; }
};

// for code that names the functions with their namespace
namespace std {
using rec::abs; using rec::fabs; using rec::sqrt; using rec::floor; using rec::ceil; using rec::trunc; using rec::round;
using rec::hypot; using rec::fmax; using rec::fmin; using rec::fma; using rec::copysign; using rec::pow; using rec::isfinite; using rec::isnan;
using rec::isinf; using rec::signbit;
}

namespace Dune {
template<class T> struct IsNumber;
template<> struct IsNumber<rec::Real> : std::true_type {};
}
#endif

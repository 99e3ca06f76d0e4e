// Records the answers of one geometry at a list of points; used for every kind of geometry.
#ifndef VERIF_GEO_HH
#define VERIF_GEO_HH
#include <config.h>
#include <array>
#include <dune/common/diagonalmatrix.hh>
#include <dune/common/fmatrix.hh>
#include <dune/common/fvector.hh>
#include <dune/geometry/referenceelements.hh>
#include <dune/geometry/type.hh>
#include "rec.hh"

namespace geo {

using rec::Event;
using rec::Trace;
using rec::Rng;
using Dune::GeometryType;
using Ints = std::vector<int>;
using Points = std::vector<Ints>;

inline std::string typeOf(const GeometryType& t)
{ return "[" + rec::integer(t.dim()) + "," + rec::integer(t.id()) + "," + rec::boolean(t.isNone()) + "]"; }

inline std::string intsOf(const Points& p)
{
  std::vector<std::string> r;
  for (const auto& x : p) r.push_back(rec::ints(x));
  return rec::list(r);
}

template<class T> const char* ctName();
template<> inline const char* ctName<double>() { return "double"; }
template<> inline const char* ctName<float>() { return "float"; }
template<> inline const char* ctName<long double>() { return "long double"; }

template<class M, class T = void>
struct Dense
{
  static std::string of(const M& m, int rows, int cols) { return rec::mat(m, rows, cols); }
};
template<class K, int n>
struct Dense<Dune::DiagonalMatrix<K, n>>
{
  static std::string of(const Dune::DiagonalMatrix<K, n>& m, int rows, int cols)
  {
    Dune::FieldMatrix<K, n, n> f(0);
    for (int j = 0; j < n; ++j) {
      Dune::FieldVector<K, n> e(0), y(0);
      e[j] = 1;
      m.mv(e, y);
      for (int i = 0; i < n; ++i) f[i][j] = y[i];
    }
    return rec::mat(f, rows, cols);
  }
};
template<class M> std::string dense(const M& m, int rows, int cols) { return Dense<std::decay_t<M>>::of(m, rows, cols); }

template<int m, class ct>
Dune::FieldVector<ct, m> point(const Ints& x, int den)
{
  Dune::FieldVector<ct, m> r;
  for (int i = 0; i < m; ++i) r[i] = ct(x[i]) / ct(den);
  return r;
}

struct What { bool jac = true, ie = true, inv = true, loc = true, vol = true; };

// everything a geometry answers; e already says how it was built
template<class Geo>
void put(Trace& tr, Event e, const Geo& g, const Points& pts, int den, What w = {})
{
  constexpr int m = Geo::mydimension, c = Geo::coorddimension;
  using ct = typename Geo::ctype;
  e.str("ct", ctName<ct>()).i("m", m).i("c", c);
  e.raw("type", typeOf(g.type())).raw("rtype", typeOf(referenceElement(g).type())).b("affine", g.affine()).i("nc", g.corners());
  std::vector<std::string> cs;
  for (int k = 0; k < g.corners(); ++k) cs.push_back(rec::nums(g.corner(k), c));
  e.raw("corner", rec::list(cs)).nums("center", g.center(), c);
  e.b("hasvol", w.vol);
  if (w.vol) e.x("vol", g.volume());
  e.i("den", den).b("hasjac", w.jac).b("hasie", w.ie).b("hasinv", w.inv).b("hasloc", w.loc);
  std::vector<std::string> ps;
  for (const auto& p : pts) {
    const auto x = point<m, ct>(p, den);
    const auto y = g.global(x);
    std::string s = "{\"x\":" + rec::ints(p) + ",\"g\":" + rec::nums(y, c);
    if (w.jac)
      s += ",\"jt\":" + dense(g.jacobianTransposed(x), m, c) + ",\"j\":" + dense(g.jacobian(x), c, m);
    if (w.ie) s += ",\"ie\":" + rec::num(g.integrationElement(x));
    if constexpr (requires { g.jacobianInverseTransposed(x).detInv(); })
      if (w.inv) s += ",\"di\":" + rec::num(g.jacobianInverseTransposed(x).detInv()) + ",\"dd\":" + rec::num(g.jacobianInverseTransposed(x).det());
    if (w.inv)
      s += ",\"jit\":" + dense(g.jacobianInverseTransposed(x), c, m) + ",\"ji\":" + dense(g.jacobianInverse(x), m, c);
    if (w.loc) s += ",\"loc\":" + rec::nums(g.local(y), m);
    ps.push_back(s + "}");
  }
  e.raw("pts", rec::list(ps));
  tr.put(e);
}

// corners of the reference element as integers
template<int m>
Points refCorners(unsigned id)
{
  auto ref = Dune::ReferenceElements<double, m>::general(GeometryType(id, m));
  Points r;
  for (int k = 0; k < ref.size(m); ++k) {
    Ints x(m);
    for (int d = 0; d < m; ++d) x[d] = int(std::lround(ref.position(k, m)[d]));
    r.push_back(x);
  }
  return r;
}

// random integer points x/den inside the reference element, the corners first
template<int m>
Points points(unsigned id, int den, int n, Rng& rng, bool apex)
{
  Points cor = refCorners<m>(id), r;
  if (m == 0) { r.push_back({}); return r; }
  for (auto& c : cor) {
    Ints x(m);
    for (int d = 0; d < m; ++d) x[d] = c[d] * den;
    r.push_back(x);
  }
  if (!apex) {
    // leave out points where a pyramid step degenerates
    Points keep;
    for (auto& x : r) {
      bool bad = false;
      for (int d = 1; d < m; ++d)
        if (!((id >> d) & 1) && x[d] == den) bad = true;
      if (!bad) keep.push_back(x);
    }
    r = keep;
  }
  for (int k = 0; k < n; ++k) {
    // random convex combination, by weights that are multiples of 1/den
    Ints x(m, 0);
    int left = den;
    while (left > 0) {
      int w = rng.in(1, left);
      left -= w;
      const Ints& c = cor[rng.in(0, int(cor.size()) - 1)];
      for (int d = 0; d < m; ++d) x[d] += w * c[d];
    }
    bool bad = false;
    if (!apex)
      for (int d = 1; d < m; ++d)
        if (!((id >> d) & 1) && x[d] == den) bad = true;
    if (!bad) r.push_back(x);
  }
  return r;
}

// no pyramid step degenerates at x/den
inline bool regular(unsigned id, const Ints& x, int den)
{
  double f = 1;
  for (int d = int(x.size()) - 1; d >= 1; --d)
    if (!((id >> d) & 1)) {
      double c = 1 - f * x[d] / den;
      if (std::abs(c) < 1e-6) return false;
      f /= c;
    }
  return true;
}

// any points, also outside
template<int m>
Points anywhere(int den, int n, Rng& rng)
{
  Points r;
  for (int k = 0; k < n; ++k) {
    Ints x(m);
    for (auto& v : x) v = rng.in(-den, 2 * den);
    r.push_back(x);
  }
  return r;
}

// a signed choice of m of the c axes, stretched and sheared; regular if scale > m * noise
template<int m, int c>
Points frame(Rng& rng, int scale, int noise)
{
  Ints ax(c);
  for (int i = 0; i < c; ++i) ax[i] = i;
  for (int i = c - 1; i > 0; --i) std::swap(ax[i], ax[rng.in(0, i)]);
  Points A(m, Ints(c, 0));
  for (int i = 0; i < m; ++i) {
    for (int k = 0; k < c; ++k) A[i][k] = rng.in(-noise, noise);
    const int s = scale + rng.in(0, scale);
    A[i][ax[i]] += rng.in(0, 1) ? s : -s;
  }
  return A;
}

template<int m, int c>
Points image(const Points& ref, const Points& A, const Ints& o, int noise, Rng& rng)
{
  Points r;
  for (auto& x : ref) {
    Ints y(c);
    for (int k = 0; k < c; ++k) {
      y[k] = o[k];
      for (int i = 0; i < m; ++i) y[k] += x[i] * A[i][k];
      if (noise) y[k] += rng.in(-noise, noise);
    }
    r.push_back(y);
  }
  return r;
}

} // namespace geo
#endif

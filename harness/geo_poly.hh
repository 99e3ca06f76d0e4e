// Polynomial maps and polynomial finite elements with integer coefficients, as a user would supply them.
#ifndef VERIF_GEO_POLY_HH
#define VERIF_GEO_POLY_HH
#include "geo.hh"

namespace geo {

struct Term { int c; Ints e; };
using Poly = std::vector<Term>;

inline Poly mul(const Poly& a, const Poly& b)
{
  Poly r;
  for (auto& s : a) for (auto& t : b) {
    Term u{s.c * t.c, s.e};
    for (std::size_t i = 0; i < u.e.size(); ++i) u.e[i] += t.e[i];
    bool found = false;
    for (auto& v : r) if (v.e == u.e) { v.c += u.c; found = true; }
    if (!found) r.push_back(u);
  }
  return r;
}
inline std::string polyOf(const std::vector<Poly>& ps)
{
  std::vector<std::string> r;
  for (auto& p : ps) {
    std::vector<std::string> q;
    for (auto& t : p) q.push_back("[" + std::to_string(t.c) + "," + rec::ints(t.e) + "]");
    r.push_back(rec::list(q));
  }
  return rec::list(r);
}
template<class ct, class X>
ct value(const Poly& p, const X& x)
{
  ct s = 0;
  for (auto& t : p) {
    ct v = t.c;
    for (std::size_t i = 0; i < t.e.size(); ++i) for (int k = 0; k < t.e[i]; ++k) v *= x[i];
    s += v;
  }
  return s;
}
template<class ct, class X>
ct diff(const Poly& p, const X& x, int j)
{
  ct s = 0;
  for (auto& t : p) {
    if (t.e[j] == 0) continue;
    ct v = t.c * t.e[j];
    for (std::size_t i = 0; i < t.e.size(); ++i) for (int k = 0; k < t.e[i] - (int(i) == j ? 1 : 0); ++k) v *= x[i];
    s += v;
  }
  return s;
}

template<class ct, int n, int c>
struct PolyMap
{
  std::vector<Poly> p;
  Dune::FieldVector<ct, c> operator()(const Dune::FieldVector<ct, n>& x) const
  {
    Dune::FieldVector<ct, c> y;
    for (int k = 0; k < c; ++k) y[k] = value<ct>(p[k], x);
    return y;
  }
  struct Derivative
  {
    std::vector<Poly> p;
    Dune::FieldMatrix<ct, c, n> operator()(const Dune::FieldVector<ct, n>& x) const
    {
      Dune::FieldMatrix<ct, c, n> J;
      for (int k = 0; k < c; ++k) for (int i = 0; i < n; ++i) J[k][i] = diff<ct>(p[k], x, i);
      return J;
    }
  };
  friend Derivative derivative(const PolyMap& m) { return {m.p}; }
};

// 24 times a signed choice of coordinates plus small other terms; regular on [-4,4]^n
template<class ct, int n, int c>
PolyMap<ct, n, c> randomMap(Rng& rng, int deg)
{
  PolyMap<ct, n, c> m;
  m.p.resize(c);
  const Points A = frame<n, c>(rng, 24, 1);
  for (int k = 0; k < c; ++k) {
    m.p[k].push_back({rng.in(-9, 9), Ints(n, 0)});
    for (int i = 0; i < n; ++i) {
      Ints e(n, 0);
      e[i] = 1;
      m.p[k].push_back({A[i][k], e});
      if (deg > 1)
        for (int j = 0; j <= i; ++j) {
          Ints f = e;
          f[j] += 1;
          m.p[k].push_back({rng.in(-1, 1), f});
        }
    }
  }
  return m;
}

template<class ct_, int d>
struct PolyFE
{
  using ct = ct_;
  static constexpr int dim = d;
  unsigned id = 0;
  int ord = 0;
  Points nodes2;             // twice the nodes
  struct LB
  {
    struct Traits
    {
      using DomainFieldType = ct;
      static constexpr int dimDomain = d;
      using DomainType = Dune::FieldVector<ct, d>;
      using RangeFieldType = ct;
      static constexpr int dimRange = 1;
      using RangeType = Dune::FieldVector<ct, 1>;
      using JacobianType = Dune::FieldMatrix<ct, 1, d>;
    };
    std::vector<Poly> f;
    int ord = 0;
    std::size_t size() const { return f.size(); }
    int order() const { return ord; }
    void evaluateFunction(const typename Traits::DomainType& x, std::vector<typename Traits::RangeType>& out) const
    {
      out.resize(f.size());
      for (std::size_t i = 0; i < f.size(); ++i) out[i] = value<ct>(f[i], x);
    }
    void evaluateJacobian(const typename Traits::DomainType& x, std::vector<typename Traits::JacobianType>& out) const
    {
      out.resize(f.size());
      for (std::size_t i = 0; i < f.size(); ++i) for (int j = 0; j < d; ++j) out[i][0][j] = diff<ct>(f[i], x, j);
    }
  };
  LB basis;
  struct LI
  {
    const Points* nodes2;
    template<class F, class C>
    void interpolate(const F& f, std::vector<C>& out) const
    {
      out.resize(nodes2->size());
      for (std::size_t i = 0; i < nodes2->size(); ++i) out[i] = f(point<d, ct>((*nodes2)[i], 2));
    }
  };
  struct Traits { using LocalBasisType = LB; using LocalInterpolationType = LI; };
  const LB& localBasis() const { return basis; }
  LI localInterpolation() const { return {&nodes2}; }
  std::size_t size() const { return basis.f.size(); }
  GeometryType type() const { return GeometryType(id, d); }
};

template<class ct, int d>
PolyFE<ct, d> simplexFE(int order)
{
  PolyFE<ct, d> fe;
  fe.id = 0;
  fe.ord = fe.basis.ord = order;
  std::vector<Poly> lam(d + 1);
  lam[0].push_back({1, Ints(d, 0)});
  for (int i = 0; i < d; ++i) {
    Ints e(d, 0);
    e[i] = 1;
    lam[0].push_back({-1, e});
    lam[i + 1].push_back({1, e});
  }
  auto node = [&](int i) { Ints x(d, 0); if (i) x[i - 1] = 1; return x; };
  for (int i = 0; i <= d; ++i) {
    Ints x = node(i);
    for (auto& v : x) v *= 2;
    fe.nodes2.push_back(x);
    if (order == 1) fe.basis.f.push_back(lam[i]);
    else {
      Poly q = lam[i];
      for (auto& t : q) t.c *= 2;
      q.push_back({-1, Ints(d, 0)});
      fe.basis.f.push_back(mul(lam[i], q));
    }
  }
  if (order == 2)
    for (int i = 0; i <= d; ++i) for (int j = 0; j < i; ++j) {
      Poly q = mul(lam[i], lam[j]);
      for (auto& t : q) t.c *= 4;
      fe.basis.f.push_back(q);
      Ints x = node(i), y = node(j);
      for (int k = 0; k < d; ++k) x[k] += y[k];
      fe.nodes2.push_back(x);
    }
  return fe;
}

template<class ct, int d>
PolyFE<ct, d> cubeFE(int order)
{
  PolyFE<ct, d> fe;
  fe.id = (1u << d) - 1;
  fe.ord = fe.basis.ord = order;
  // one-dimensional bases in direction i
  auto one = [&](int i, int k) {
    Ints z(d, 0), e(d, 0), s(d, 0);
    e[i] = 1; s[i] = 2;
    if (order == 1) return k == 0 ? Poly{{1, z}, {-1, e}} : Poly{{1, e}};
    return k == 0 ? Poly{{1, z}, {-3, e}, {2, s}} : k == 1 ? Poly{{4, e}, {-4, s}} : Poly{{-1, e}, {2, s}};
  };
  int n = 1;
  for (int i = 0; i < d; ++i) n *= order + 1;
  for (int k = 0; k < n; ++k) {
    Poly p{{1, Ints(d, 0)}};
    Ints x(d);
    int r = k;
    for (int i = 0; i < d; ++i) {
      const int a = r % (order + 1);
      r /= order + 1;
      p = mul(p, one(i, a));
      x[i] = order == 1 ? 2 * a : a;
    }
    fe.basis.f.push_back(p);
    fe.nodes2.push_back(x);
  }
  return fe;
}

// first order on a prism
template<class ct>
PolyFE<ct, 3> prismFE()
{
  PolyFE<ct, 3> fe;
  fe.id = 5;
  fe.ord = fe.basis.ord = 1;
  const Ints z{0, 0, 0}, ex{1, 0, 0}, ey{0, 1, 0}, ez{0, 0, 1};
  const Poly lam[3] = {{{1, z}, {-1, ex}, {-1, ey}}, {{1, ex}}, {{1, ey}}};
  for (int k = 0; k < 2; ++k)
    for (int i = 0; i < 3; ++i) {
      fe.basis.f.push_back(mul(lam[i], k ? Poly{{1, ez}} : Poly{{1, z}, {-1, ez}}));
      fe.nodes2.push_back(Ints{i == 1 ? 2 : 0, i == 2 ? 2 : 0, 2 * k});
    }
  return fe;
}

} // namespace geo
#endif

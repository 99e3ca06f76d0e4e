// Integration over elements, facets and edges (C33).
#include <config.h>
#include <map>
#include <dune/geometry/affinegeometry.hh>
#include <dune/geometry/axisalignedcubegeometry.hh>
#include <dune/geometry/localfiniteelementgeometry.hh>
#include <dune/geometry/mappedgeometry.hh>
#include <dune/geometry/multilineargeometry.hh>
#include <dune/geometry/quadraturerules.hh>
#include "geo.hh"
#include "geo_poly.hh"

using namespace geo;

template<int m> using Vec = Dune::FieldVector<double, m>;
template<int m>
double power(const Vec<m>& y, const Ints& a)
{
  double r = 1;
  for (int i = 0; i < m; ++i) for (int k = 0; k < a[i]; ++k) r *= y[i];
  return r;
}
template<int m>
Vec<m> gradient(const Vec<m>& y, const Ints& a)
{
  Vec<m> g(0);
  for (int i = 0; i < m; ++i)
    if (a[i] > 0) { Ints b = a; b[i] -= 1; g[i] = a[i] * power<m>(y, b); }
  return g;
}
template<class M, int r, int c>
Dune::FieldMatrix<double, r, c> full(const M& m)
{
  Dune::FieldMatrix<double, r, c> f(0);
  if constexpr (requires { m.diagonal(0); }) { for (int i = 0; i < r; ++i) f[i][i] = m.diagonal(i); }
  else { for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) f[i][j] = m[i][j]; }
  return f;
}

// all integrals of the field y^a e_k; a facet geometry of its own is made if the map is multilinear
template<bool own, class Geo>
std::string integrals(const Geo& g, const Ints& a, int k, int order)
{
  constexpr int m = Geo::mydimension;
  const auto ref = referenceElement(g);
  double vol = 0, vol2 = 0;
  for (const auto& q : Dune::QuadratureRules<double, m>::rule(g.type(), order)) {
    const Vec<m> grad = gradient<m>(g.global(q.position()), a);
    const auto jt = full<std::decay_t<decltype(g.jacobianTransposed(q.position()))>, m, m>(g.jacobianTransposed(q.position()));
    Vec<m> gr, ph;
    jt.mv(grad, gr);                       // of the pulled back function
    g.jacobianInverseTransposed(q.position()).mv(gr, ph);
    const double w = q.weight() * g.integrationElement(q.position());
    vol += w * grad[k];
    vol2 += w * ph[k];
  }
  std::vector<double> fac, fac2, edge;
  for (int i = 0; i < ref.size(1); ++i) {
    const auto emb = ref.template geometry<1>(i);
    double s = 0, t = 0;
    for (const auto& q : Dune::QuadratureRules<double, m - 1>::rule(emb.type(), order)) {
      const auto x = emb.global(q.position());
      Vec<m> n;
      g.jacobianInverseTransposed(x).mv(ref.integrationOuterNormal(i), n);
      s += q.weight() * g.integrationElement(x) * n[k] * power<m>(g.global(x), a);
    }
    fac.push_back(s);
    if constexpr (own) {
      std::vector<Vec<m>> cor;
      for (int c = 0; c < ref.size(i, 1, m); ++c) cor.push_back(g.corner(ref.subEntity(i, 1, c, m)));
      const Dune::MultiLinearGeometry<double, m - 1, m> fg(ref.type(i, 1), cor);
      for (const auto& q : Dune::QuadratureRules<double, m - 1>::rule(fg.type(), order)) {
        const auto y = fg.global(q.position());
        Vec<m> n;
        g.jacobianInverseTransposed(g.local(y)).mv(ref.integrationOuterNormal(i), n);
        t += q.weight() * fg.integrationElement(q.position()) * n[k] / n.two_norm() * power<m>(y, a);
      }
      fac2.push_back(t);
    }
  }
  for (int i = 0; i < ref.size(m - 1); ++i) {
    const auto emb = ref.template geometry<m - 1>(i);
    double s = 0;
    for (const auto& q : Dune::QuadratureRules<double, 1>::rule(emb.type(), order)) {
      const auto x = emb.global(q.position());
      const auto jt = full<std::decay_t<decltype(g.jacobianTransposed(x))>, m, m>(g.jacobianTransposed(x));
      const auto et = full<std::decay_t<decltype(emb.jacobianTransposed(q.position()))>, 1, m>(emb.jacobianTransposed(q.position()));
      Vec<m> t;
      jt.mtv(et[0], t);
      s += q.weight() * (gradient<m>(g.global(x), a) * t);
    }
    edge.push_back(s);
  }
  return "{\"a\":" + rec::ints(a) + ",\"k\":" + std::to_string(k + 1) + ",\"vol\":" + rec::num(vol) + ",\"vol2\":" + rec::num(vol2)
       + ",\"fac\":" + rec::nums(fac) + ",\"fac2\":" + rec::nums(fac2) + ",\"edge\":" + rec::nums(edge) + "}";
}

template<bool own, class Geo>
void put(Trace& tr, Event e, const Geo& g, Rng& rng, int fields, int deg, int mapdeg)
{
  constexpr int m = Geo::mydimension;
  std::vector<std::string> r;
  for (int t = 0; t < fields; ++t) {
    Ints a(m, 0);
    const int d = t < deg + 1 ? t : rng.in(0, deg);
    for (int i = 0; i < d; ++i) a[rng.in(0, m - 1)] += 1;
    int k = rng.in(0, m - 1);
    // mostly a field whose divergence does not vanish
    if (a[k] == 0 && d > 0 && rng.in(0, 2)) while (a[k] == 0) k = (k + 1) % m;
    r.push_back(integrals<own>(g, a, k, d * mapdeg + m * (mapdeg > 1 ? mapdeg : 0) + 1));
  }
  tr.put(e.i("m", m).i("own", own).raw("fields", rec::list(r)));
}

template<int m>
std::vector<Vec<m>> doubles(const Points& p) { std::vector<Vec<m>> r; for (auto& x : p) r.push_back(point<m, double>(x, 1)); return r; }

// every pyramid of the construction is mapped affinely
bool isPoly(int m, unsigned id) { for (int d = 2; d < m; ++d) if (!((id >> d) & 1)) return false; return true; }

template<int m>
void corners(Trace& tr, Rng& rng, int rounds)
{
  for (unsigned id = 0; id < (1u << m); ++id) {
    const GeometryType t(id, m);
    const Points ref = refCorners<m>(id);
    for (int n = 0; n < rounds; ++n) {
      Ints o(m);
      for (auto& v : o) v = rng.in(-2, 2);
      const Points C = n == 0 ? ref : image<m, m>(ref, frame<m, m>(rng, m + 1, 1), o, 0, rng);
      const auto c = doubles<m>(C);
      const int deg = m < 4 ? 3 : 2;
      Dune::FieldMatrix<double, m, m> rows;
      for (std::size_t j = 0; j < ref.size(); ++j) {
        int at = -1, sum = 0;
        for (int i = 0; i < m; ++i) if (ref[j][i]) { at = i; ++sum; }
        if (sum == 1) rows[at] = c[j] - c[0];
      }
      auto ev = [&](const char* cls) { return Event("flux").str("cls", cls).i("id", id).b("poly", false).raw("corners", intsOf(C)); };
      put<true>(tr, ev("multilinear"), Dune::MultiLinearGeometry<double, m, m>(t, c), rng, deg + 1, deg, 1);
      put<true>(tr, ev("cached"), Dune::CachedMultiLinearGeometry<double, m, m>(t, c), rng, deg, deg, 1);
      put<true>(tr, ev("affine"), Dune::AffineGeometry<double, m, m>(t, c[0], rows), rng, deg, deg, 1);
    }
    if (m > 1 && m < 4 && isPoly(m, id))
      for (int n = 0; n < rounds; ++n) {
        Ints o(m);
        for (auto& v : o) v = rng.in(-2, 2);
        // a last step that is a pyramid keeps the element affine
        const Points C = image<m, m>(ref, frame<m, m>(rng, 4 * m, 1), o, ((id >> (m - 1)) & 1) ? 1 : 0, rng);
        const auto c = doubles<m>(C);
        auto ev = [&](const char* cls) { return Event("flux").str("cls", cls).i("id", id).b("poly", false).raw("corners", intsOf(C)); };
        put<true>(tr, ev("multilinear"), Dune::MultiLinearGeometry<double, m, m>(t, c), rng, 2, m == 2 ? 2 : 1, m);
        put<true>(tr, ev("cached"), Dune::CachedMultiLinearGeometry<double, m, m>(t, c), rng, 2, m == 2 ? 2 : 1, m);
      }
    if (id == (1u << m) - 1)
      for (int n = 0; n < rounds; ++n) {
        Vec<m> lo, up;
        for (int i = 0; i < m; ++i) { lo[i] = rng.in(-3, 2); up[i] = lo[i] + rng.in(1, 4); }
        Points C;
        for (auto& x : ref) { Ints y(m); for (int i = 0; i < m; ++i) y[i] = int(x[i] ? up[i] : lo[i]); C.push_back(y); }
        put<true>(tr, Event("flux").str("cls", "box").i("id", id).b("poly", false).raw("corners", intsOf(C)),
                  Dune::AxisAlignedCubeGeometry<double, m, m>(lo, up), rng, 4, m < 4 ? 3 : 2, 1);
      }
  }
}

// y_i = +-s x_j + small terms of first and second degree
template<int m>
PolyMap<double, m, m> curved(Rng& rng)
{
  PolyMap<double, m, m> p;
  const Points A = frame<m, m>(rng, 8, 1);
  for (int k = 0; k < m; ++k) {
    std::map<Ints, int> c;
    c[Ints(m, 0)] = rng.in(-3, 3);
    for (int i = 0; i < m; ++i) { Ints e(m, 0); e[i] = 1; c[e] += A[i][k]; }
    for (int t = 0; t < 2; ++t) { Ints e(m, 0); e[rng.in(0, m - 1)] += 1; e[rng.in(0, m - 1)] += 1; c[e] += rng.in(-1, 1); }
    Poly q;
    for (auto& [e, v] : c) if (v) q.push_back({v, e});
    p.p.push_back(q);
  }
  return p;
}
template<int m>
void curves(Trace& tr, Rng& rng, int rounds)
{
  for (unsigned id = 0; id < (1u << m); ++id) {
    const auto ref = Dune::ReferenceElements<double, m>::general(GeometryType(id, m));
    for (int n = 0; n < rounds; ++n) {
      auto f = curved<m>(rng);
      const auto inner = ref.template geometry<0>(0);
      put<false>(tr, Event("flux").str("cls", "mapped").i("id", id).b("poly", true).raw("map", polyOf(f.p)),
                 Dune::MappedGeometry<PolyMap<double, m, m>, std::decay_t<decltype(inner)>>(f, inner), rng, m < 3 ? 3 : 2, m < 3 ? 2 : 1, 2);
    }
  }
}
template<int m>
void elements(Trace& tr, Rng& rng, const PolyFE<double, m>& fe, int rounds)
{
  for (int n = 0; n < rounds; ++n) {
    const Points A = frame<m, m>(rng, 10, 1);
    std::vector<Vec<m>> v;
    std::vector<std::map<Ints, int>> c(m);
    for (std::size_t i = 0; i < fe.size(); ++i) {
      Vec<m> y(0);
      for (int k = 0; k < m; ++k) {
        int s = rng.in(0, 1);
        for (int j = 0; j < m; ++j) s += A[j][k] * fe.nodes2[i][j];
        y[k] = s;
        for (auto& t : fe.basis.f[i]) c[k][t.e] += s * t.c;
      }
      v.push_back(y);
    }
    std::vector<Poly> p(m);
    for (int k = 0; k < m; ++k) for (auto& [e, x] : c[k]) if (x) p[k].push_back({x, e});
    put<false>(tr, Event("flux").str("cls", "element").i("id", fe.id).b("poly", true).raw("map", polyOf(p)),
               Dune::LocalFiniteElementGeometry<PolyFE<double, m>, m>(fe.type(), fe, v), rng, 2, 1, fe.ord * (fe.id ? m : 1));
  }
}

int main(int argc, char** argv)
{
  rec::Options o = rec::options(argc, argv);
  Trace tr(o.out + "/trace.ndjson");
  Rng rng(o.seed * 31 + 7);
  const int r = o.thorough ? 6 : 2;
  corners<1>(tr, rng, r);
  corners<2>(tr, rng, 2 * r);
  corners<3>(tr, rng, r);
  corners<4>(tr, rng, r / 2);
  curves<1>(tr, rng, r);
  curves<2>(tr, rng, r);
  curves<3>(tr, rng, r / 2);
  for (int ord : {1, 2}) {
    elements<1>(tr, rng, simplexFE<double, 1>(ord), r);
    elements<2>(tr, rng, simplexFE<double, 2>(ord), r);
    elements<2>(tr, rng, cubeFE<double, 2>(ord), r);
    elements<3>(tr, rng, simplexFE<double, 3>(ord), r);
  }
  elements<3>(tr, rng, cubeFE<double, 3>(1), r);
  elements<3>(tr, rng, prismFE<double>(), r);
  return 0;
}

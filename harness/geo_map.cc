// Mapped geometries and finite-element geometries (C11).
#include <config.h>
#include <dune/geometry/affinegeometry.hh>
#include <dune/geometry/localfiniteelementgeometry.hh>
#include <dune/geometry/mappedgeometry.hh>
#include <dune/geometry/multilineargeometry.hh>
#include "geo.hh"
#include "geo_poly.hh"

using namespace geo;

template<class ct, int m, int n, int c>
void mapped(Trace& tr, const rec::Options& o, int reps)
{
  using Inner = Dune::MultiLinearGeometry<ct, m, n>;
  using Map = PolyMap<ct, n, c>;
  using G = Dune::MappedGeometry<Map, Inner>;
  Rng rng(o.seed * 15485863 + m * 1000 + n * 100 + c * 10 + sizeof(ct));
  if (o.thorough) reps *= 4;
  const int den = 2;
  for (unsigned id = 0; id < (1u << m); ++id)
    for (int r = 0; r < reps; ++r) {
      const bool linear = r % 3 == 2;
      // a small, mildly bent inner geometry
      bool pyramidal = false;
      for (int d = 1; d < m; ++d) if (!((id >> d) & 1) && (id & ~1u & ((1u << d) - 1))) pyramidal = true;
      const bool bent = !linear && !pyramidal;
      Ints org(n);
      for (auto& v : org) v = rng.in(-4, 4);
      const Points C = image<m, n>(refCorners<m>(id), frame<m, n>(rng, 6, 0), org, bent ? 1 : 0, rng);
      const int cden = 8;
      std::vector<Dune::FieldVector<ct, n>> v;
      for (auto& x : C) v.push_back(point<n, ct>(x, cden));
      Map map = randomMap<ct, n, c>(rng, linear ? 1 : 2);
      Inner inner(GeometryType(id, m), v);
      auto ev = [&](bool told) {
        Event e("geo");
        e.str("kind", "mapped").i("id", id).i("n", n).raw("corners", intsOf(C)).i("cden", cden).raw("poly", polyOf(map.p)).i("deg", linear ? 1 : 2).b("told", told);
        return e;
      };
      Points pts = points<m>(id, den, 3, rng, linear);
      What w;
      w.loc = std::is_same<ct, double>::value;
      w.vol = w.loc && (linear || m < 3 || r == 0);
      if (r % 2 == 0) put(tr, ev(linear), G(map, inner, linear), pts, den, w);
      else {
        G a(map, inner);
        G b(a);
        put(tr, ev(false), b, pts, den, w);
        G d(randomMap<ct, n, c>(rng, 1), inner, !linear);
        d = b;
        put(tr, ev(false), d, pts, den, w);
      }
    }
}

template<class LFE, int c>
void lfe(Trace& tr, const rec::Options& o, const LFE& fe, int reps)
{
  using ct = typename LFE::ct;
  constexpr int m = LFE::dim;
  using G = Dune::LocalFiniteElementGeometry<LFE, c>;
  using V = Dune::FieldVector<ct, c>;
  Rng rng(o.seed * 32452843 + m * 1000 + c * 100 + fe.id * 10 + fe.ord + sizeof(ct));
  if (o.thorough) reps *= 4;
  const int den = 4;
  for (int r = 0; r < reps; ++r) {
    const bool affine = r % 3 == 2;
    Ints org(c);
    for (auto& v : org) v = rng.in(-20, 20);
    const Points A = frame<m, c>(rng, 10, 1);
    const Points C = image<m, c>(fe.nodes2, A, org, affine ? 0 : 1, rng);
    std::vector<V> v;
    for (auto& x : C) v.push_back(point<c, ct>(x, 1));
    const GeometryType gt(fe.id, m);
    auto ev = [&](const char* how) {
      Event e("geo");
      e.str("kind", "lfe").str("how", how).i("id", fe.id).raw("coef", intsOf(C)).raw("basis", polyOf(fe.basis.f)).i("bden", 1).i("order", fe.ord);
      return e;
    };
    Points pts = points<m>(fe.id, den, 3, rng, true);
    What w;
    w.loc = std::is_same<ct, double>::value;
    w.vol = w.loc && (m < 3 || affine || r == 0);
    const auto ref = Dune::ReferenceElements<ct, m>::general(gt);
    if (r % 2) put(tr, ev("element"), G(ref, fe, v), pts, den, w);
    else put(tr, ev("type"), G(gt, fe, v), pts, den, w);
    if (affine) {
      auto f = [&](const Dune::FieldVector<ct, m>& x) {
        V y;
        for (int k = 0; k < c; ++k) {
          y[k] = org[k];
          for (int i = 0; i < m; ++i) y[k] += 2 * x[i] * A[i][k];
        }
        return y;
      };
      put(tr, ev("parametrization"), G(gt, fe, f), pts, den, w);
    }
    // affine but for one corner that is off by 1/256 or much less
    if (fe.ord == 1 && m > 1 && std::is_same_v<ct, double>) {
      const int off = 256 << (r % 3 * 5);
      Points K = image<m, c>(fe.nodes2, frame<m, c>(rng, 6 * off, 1), org, 0, rng);
      K[rng.in(0, int(K.size()) - 1)][rng.in(0, c - 1)] += rng.in(0, 1) ? 1 : -1;
      std::vector<V> k;
      for (auto& x : K) k.push_back(point<c, ct>(x, off));
      Event e("geo");
      e.str("kind", "lfe").str("how", "nearly").i("id", fe.id).raw("coef", intsOf(K)).raw("basis", polyOf(fe.basis.f)).i("bden", off).i("order", fe.ord);
      put(tr, e, G(gt, fe, k), Points{}, den, What{false, false, false, false, false});
    }
    // an object that was asked before and is then given another value
    std::vector<V> u;
    for (auto& x : image<m, c>(fe.nodes2, frame<m, c>(rng, 10, 1), org, affine ? 1 : 0, rng)) u.push_back(point<c, ct>(x, 1));
    G a(ref, fe, u), b(ref, fe, v);
    (void) a.affine();
    if (r % 2) (void) b.affine();
    a = b;
    put(tr, ev("assigned"), a, pts, den, w);
    G d(b);
    put(tr, ev("copy"), d, pts, den, w);
  }
}

int main(int argc, char** argv)
{
  rec::Options o = rec::options(argc, argv);
  Trace tr(o.out + "/trace.ndjson");
  mapped<double, 1, 1, 1>(tr, o, 6);
  mapped<double, 1, 1, 2>(tr, o, 6);
  mapped<double, 1, 2, 3>(tr, o, 4);
  mapped<double, 2, 2, 2>(tr, o, 6);
  mapped<double, 2, 2, 3>(tr, o, 6);
  mapped<double, 2, 3, 3>(tr, o, 4);
  mapped<double, 3, 3, 3>(tr, o, 3);
  mapped<double, 1, 1, 3>(tr, o, 4);
  mapped<double, 1, 3, 4>(tr, o, 3);
  mapped<double, 2, 2, 4>(tr, o, 3);
  mapped<double, 3, 3, 4>(tr, o, 3);
  mapped<double, 3, 4, 4>(tr, o, 2);
  mapped<float, 2, 2, 2>(tr, o, 3);

  lfe<PolyFE<double, 1>, 1>(tr, o, simplexFE<double, 1>(1), 6);
  lfe<PolyFE<double, 1>, 2>(tr, o, simplexFE<double, 1>(2), 6);
  lfe<PolyFE<double, 2>, 2>(tr, o, simplexFE<double, 2>(1), 6);
  lfe<PolyFE<double, 2>, 2>(tr, o, simplexFE<double, 2>(2), 6);
  lfe<PolyFE<double, 2>, 3>(tr, o, simplexFE<double, 2>(2), 6);
  lfe<PolyFE<double, 2>, 2>(tr, o, cubeFE<double, 2>(1), 6);
  lfe<PolyFE<double, 2>, 2>(tr, o, cubeFE<double, 2>(2), 6);
  lfe<PolyFE<double, 2>, 3>(tr, o, cubeFE<double, 2>(1), 6);
  lfe<PolyFE<double, 3>, 3>(tr, o, simplexFE<double, 3>(1), 3);
  lfe<PolyFE<double, 3>, 3>(tr, o, cubeFE<double, 3>(1), 3);
  lfe<PolyFE<double, 3>, 3>(tr, o, prismFE<double>(), 4);
  lfe<PolyFE<double, 1>, 3>(tr, o, simplexFE<double, 1>(2), 4);
  lfe<PolyFE<double, 2>, 4>(tr, o, cubeFE<double, 2>(1), 3);
  lfe<PolyFE<double, 3>, 4>(tr, o, prismFE<double>(), 2);
  lfe<PolyFE<double, 3>, 4>(tr, o, simplexFE<double, 3>(1), 2);
  lfe<PolyFE<float, 2>, 2>(tr, o, cubeFE<float, 2>(1), 3);
  return 0;
}

#include "fine.hh"
#include <dune/geometry/localfiniteelementgeometry.hh>
#include <dune/geometry/mappedgeometry.hh>
#include <dune/geometry/multilineargeometry.hh>
#include "geo_poly.hh"

namespace geo {

template<int m, int n, int c>
void mappedFine(Trace& tr, Rng& rng, int reps)
{
  using Inner = Dune::MultiLinearGeometry<Real, m, n>;
  using Map = PolyMap<Real, n, c>;
  using G = Dune::MappedGeometry<Map, Inner>;
  const int den = 3, cden = 5;
  for (unsigned id = 0; id < (1u << m); id += 1)
    for (int r = 0; r < reps; ++r) {
      Ints org(n);
      for (auto& v : org) v = rng.in(-4, 4);
      const Points C = image<m, n>(refCorners<m>(id), frame<m, n>(rng, 6, 0), org, 0, rng);
      std::vector<Dune::FieldVector<Real, n>> v;
      for (auto& x : C) v.push_back(point<n, Real>(x, cden));
      const bool linear = r % 2;
      const Map map = randomMap<Real, n, c>(rng, linear ? 1 : 2);
      What w;
      w.vol = false;     // by rules whose points come from tables in double
      Event e("fine");
      e.str("kind", "mapped").i("id", id).i("n", n).raw("corners", intsOf(C)).i("cden", cden).raw("poly", polyOf(map.p)).i("deg", linear ? 1 : 2).b("told", linear);
      put(tr, e, G(map, Inner(GeometryType(id, m), v), linear), points<m>(id, den, 2, rng, linear), den, w);
    }
}

template<class LFE, int c>
void lfeFine(Trace& tr, Rng& rng, const LFE& fe, int reps)
{
  constexpr int m = LFE::dim;
  using G = Dune::LocalFiniteElementGeometry<LFE, c>;
  const int den = 7;
  for (int r = 0; r < reps; ++r) {
    const bool affine = r % 2;
    Ints org(c);
    for (auto& v : org) v = rng.in(-20, 20);
    const Points C = image<m, c>(fe.nodes2, frame<m, c>(rng, 10, 1), org, affine ? 0 : 1, rng);
    std::vector<Dune::FieldVector<Real, c>> v;
    for (auto& x : C) v.push_back(point<c, Real>(x, 1));
    Event e("fine");
    e.str("kind", "lfe").i("id", fe.id).raw("coef", intsOf(C)).raw("basis", polyOf(fe.basis.f)).i("bden", 1).i("order", fe.ord);
    What w;
    w.vol = false;
    put(tr, e, G(GeometryType(fe.id, m), fe, v), points<m>(fe.id, den, 2, rng, true), den, w);
  }
}

void finePart4(Trace& tr, const rec::Options& o)
{
  Rng rng(o.seed * 9241 + 23);
  const int k = o.thorough ? 4 : 1;
  mappedFine<1, 1, 1>(tr, rng, 2 * k); mappedFine<1, 1, 2>(tr, rng, 2 * k); mappedFine<2, 2, 2>(tr, rng, 2 * k);
  mappedFine<2, 2, 3>(tr, rng, 2 * k); mappedFine<3, 3, 3>(tr, rng, 2 * k);
  lfeFine<PolyFE<Real, 1>, 2>(tr, rng, simplexFE<Real, 1>(2), 4 * k);
  lfeFine<PolyFE<Real, 2>, 2>(tr, rng, simplexFE<Real, 2>(1), 4 * k);
  lfeFine<PolyFE<Real, 2>, 3>(tr, rng, simplexFE<Real, 2>(2), 4 * k);
  lfeFine<PolyFE<Real, 2>, 2>(tr, rng, cubeFE<Real, 2>(1), 4 * k);
  lfeFine<PolyFE<Real, 3>, 3>(tr, rng, cubeFE<Real, 3>(1), 2 * k);
  lfeFine<PolyFE<Real, 3>, 3>(tr, rng, prismFE<Real>(), 2 * k);
}

} // namespace geo

int main(int argc, char** argv)
{
  rec::Options o = rec::options(argc, argv);
  rec::Trace tr(o.out + "/trace.ndjson");
  geo::finePart1(tr, o);
  geo::finePart2(tr, o);
  geo::finePart3(tr, o);
  geo::finePart4(tr, o);
  return 0;
}

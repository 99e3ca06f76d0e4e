#include "fine.hh"
#include <dune/geometry/multilineargeometry.hh>

namespace geo {

template<int m, int c>
void multi(Trace& tr, Rng& rng, int reps)
{
  using G = Dune::MultiLinearGeometry<Real, m, c>;
  using H = Dune::CachedMultiLinearGeometry<Real, m, c>;
  for (unsigned id = 0; id < (1u << m); ++id) {
    const Points ref = refCorners<m>(id);
    for (int r = 0; r < reps; ++r) {
      const int den = m >= 4 ? 3 : r % 2 ? 7 : 5, cden = 3;
      Ints org(c);
      for (auto& v : org) v = rng.in(-20, 20);
      for (int bent : {1, 0}) {
        const Points C = image<m, c>(ref, frame<m, c>(rng, bent ? 12 : 5, 1), org, bent, rng);
        std::vector<Dune::FieldVector<Real, c>> v;
        for (auto& x : C) v.push_back(point<c, Real>(x, cden));
        const Points pts = points<m>(id, den, 2, rng, !bent);
        auto ev = [&] { Event e("fine"); e.str("kind", "ml").i("id", id).raw("corners", intsOf(C)).i("cden", cden); return e; };
        put(tr, ev(), G(GeometryType(id, m), v), pts, den);
        if (r % 2 == 0) put(tr, ev(), H(GeometryType(id, m), v), pts, den);
        // one corner that is off by very little
        if (!bent && m > 1) {
          const int k = rng.in(0, int(v.size()) - 1), a = rng.in(0, c - 1);
          v[k][a] += Real("1e-50");
          tr.put(Event("fineoff").i("m", m).i("id", id).i("k", k).i("a", a % m).b("affine", G(GeometryType(id, m), v).affine()).b("cached", H(GeometryType(id, m), v).affine()));
        }
      }
    }
  }
}

void finePart2(Trace& tr, const rec::Options& o)
{
  Rng rng(o.seed * 9241 + 11);
  const int k = o.thorough ? 4 : 1;
  multi<1, 1>(tr, rng, 2 * k); multi<1, 2>(tr, rng, 2 * k); multi<2, 2>(tr, rng, 2 * k); multi<2, 3>(tr, rng, 2 * k); multi<3, 3>(tr, rng, 2 * k);
}
void finePart3(Trace& tr, const rec::Options& o)
{
  Rng rng(o.seed * 9241 + 17);
  const int k = o.thorough ? 4 : 1;
  multi<1, 3>(tr, rng, 2 * k); multi<3, 4>(tr, rng, k); if (o.thorough) multi<4, 4>(tr, rng, 1);
}

} // namespace geo

#include "fine.hh"
#include <bitset>
#include <dune/geometry/affinegeometry.hh>
#include <dune/geometry/axisalignedcubegeometry.hh>

namespace geo {

template<int m, int cc>
void embedding(Trace& tr, unsigned id)
{
  const auto ref = Dune::ReferenceElements<Real, m>::general(GeometryType(id, m));
  for (int i = 0; i < ref.size(cc); ++i) {
    const auto g = ref.template geometry<cc>(i);
    const GeometryType t = ref.type(i, cc);
    if constexpr (cc < m) {
      Points pts = points<m - cc>(t.id() & ~1u, 7, 1, *std::make_unique<Rng>(id * 31 + i), true);
      put(tr, Event("fine").str("kind", "emb").i("id", id).i("i", i).i("cd", cc), g, pts, 7);
    }
  }
  if constexpr (cc < m) embedding<m, cc + 1>(tr, id);
}

template<int m>
void element(Trace& tr, Rng& rng)
{
  for (unsigned id = 0; id < (1u << m); ++id) {
    const auto ref = Dune::ReferenceElements<Real, m>::general(GeometryType(id, m));
    std::vector<std::string> pos, nor;
    for (int c = 0; c <= m; ++c) {
      std::vector<std::string> r;
      for (int i = 0; i < ref.size(c); ++i) r.push_back(rec::nums(ref.position(i, c), m));
      pos.push_back(rec::list(r));
    }
    for (int i = 0; i < (m ? ref.size(1) : 0); ++i) nor.push_back(rec::nums(ref.integrationOuterNormal(i), m));
    tr.put(Event("finecell").i("m", m).i("id", id).raw("pos", rec::list(pos)).raw("nor", rec::list(nor)).raw("vol", rec::num(ref.volume())));
    if constexpr (m > 0) embedding<m, 0>(tr, id);
    // points a tiny bit beside the centres of the facets; dir: which coordinate was moved, by 10^-60 up or down
    if constexpr (m > 0)
      for (int i = 0; i < ref.size(1); ++i)
        for (int d = 0; d < m; ++d)
          for (int s : {-1, 1}) {
            auto x = ref.position(i, 1);
            x[d] += Real(s) * Real("1e-60");
            tr.put(Event("finein").i("m", m).i("id", id).i("f", i).i("d", d + 1).i("s", s).b("in", ref.checkInside(x)));
          }
  }
}

template<int m, int c>
void affine(Trace& tr, Rng& rng, int reps)
{
  using G = Dune::AffineGeometry<Real, m, c>;
  for (unsigned id = 0; id < (1u << m); id += 1)
    for (int r = 0; r < reps; ++r) {
      Ints org(c);
      for (auto& v : org) v = rng.in(-40, 40);
      const Points A = frame<m, c>(rng, 5, m >= 3 ? 1 : 2);
      const int cden = r % 2 ? 7 : 3, den = 7;
      const auto origin = point<c, Real>(org, cden);
      Dune::FieldMatrix<Real, m, c> jt;
      for (int i = 0; i < m; ++i)
        for (int k = 0; k < c; ++k) jt[i][k] = Real(A[i][k]) / Real(cden);
      Points pts = points<m>(id, den, 2, rng, true);
      auto ev = [&] { Event e("fine"); e.str("kind", "aff").i("id", id).ints("origin", org).raw("rows", intsOf(A)).i("cden", cden); return e; };
      put(tr, ev(), G(GeometryType(id, m), origin, jt), pts, den);
      if ((id | 1) == 1) {
        std::vector<Dune::FieldVector<Real, c>> corners(1, origin);
        for (int i = 0; i < m; ++i) { corners.push_back(origin); corners.back() += jt[i]; }
        put(tr, ev(), G(GeometryType(id, m), corners), pts, den);
      }
    }
}

template<int m, int c>
void box(Trace& tr, Rng& rng, int reps)
{
  using G = Dune::AxisAlignedCubeGeometry<Real, m, c>;
  for (unsigned long mask = 0; mask < (1ul << c); ++mask) {
    std::bitset<c> axes(mask);
    if (int(axes.count()) != m) continue;
    Ints ax;
    for (int i = 0; i < c; ++i) if (axes[i]) ax.push_back(i);
    for (int r = 0; r < reps; ++r) {
      Ints lo(c), up(c);
      for (int i = 0; i < c; ++i) { lo[i] = rng.in(-40, 40); up[i] = lo[i] + rng.in(1, 30); }
      const int cden = r % 2 ? 7 : 3, den = 7;
      const auto l = point<c, Real>(lo, cden), u = point<c, Real>(up, cden);
      Points pts = points<m>((1u << m) - 1, den, 2, rng, true);
      auto ev = [&] { Event e("fine"); e.str("kind", "box").ints("lower", lo).ints("upper", up).ints("axes", ax).i("cden", cden); return e; };
      put(tr, ev(), G(l, u, axes), pts, den);
      if constexpr (m == c) put(tr, ev(), G(l, u), pts, den);
    }
  }
}

void finePart1(Trace& tr, const rec::Options& o)
{
  Rng rng(o.seed * 7727 + 5);
  const int k = o.thorough ? 5 : 1;
  element<0>(tr, rng); element<1>(tr, rng); element<2>(tr, rng); element<3>(tr, rng);
  if (o.thorough) element<4>(tr, rng);
  affine<1, 1>(tr, rng, 2 * k); affine<1, 2>(tr, rng, 2 * k); affine<1, 3>(tr, rng, 2 * k);
  affine<2, 2>(tr, rng, 2 * k); affine<2, 3>(tr, rng, 2 * k); affine<3, 3>(tr, rng, 2 * k); affine<3, 4>(tr, rng, k); affine<4, 4>(tr, rng, k);
  box<1, 1>(tr, rng, 2 * k); box<1, 2>(tr, rng, 2 * k); box<2, 2>(tr, rng, 2 * k); box<2, 3>(tr, rng, 2 * k); box<3, 3>(tr, rng, 2 * k);
  box<0, 2>(tr, rng, k); box<3, 4>(tr, rng, k);
}

} // namespace geo

// Multilinear geometries (C07).
#include <dune/geometry/multilineargeometry.hh>
#include "geo.hh"

namespace geo {

template<class ct>
struct ArrayTraits : Dune::MultiLinearGeometryTraits<ct>
{
  template<int m, int c> struct CornerStorage { typedef std::array<Dune::FieldVector<ct, c>, (1 << m)> Type; };
};
template<class ct>
struct RefTraits : Dune::MultiLinearGeometryTraits<ct>
{
  template<int m, int c> struct CornerStorage { typedef std::reference_wrapper<const std::vector<Dune::FieldVector<ct, c>>> Type; };
};
template<class ct, unsigned id>
struct SingleTraits : Dune::MultiLinearGeometryTraits<ct>
{
  template<int m> struct hasSingleGeometryType { static const bool v = true; static const unsigned int topologyId = id; };
};

template<class ct, int c>
std::vector<Dune::FieldVector<ct, c>> coords(const Points& p, int den = 1)
{
  std::vector<Dune::FieldVector<ct, c>> r;
  for (auto& x : p) r.push_back(point<c, ct>(x, den));
  return r;
}

template<class Traits, class ct, int m, int c, class Store>
void one(Trace& tr, unsigned id, const Points& corners, int cden, const Store& store, const Points& pts, int den, What w, int variant)
{
  using G = Dune::MultiLinearGeometry<ct, m, c, Traits>;
  Event e("geo");
  e.str("kind", "ml").i("id", id).raw("corners", intsOf(corners)).i("cden", cden);
  if (variant % 2) put(tr, e, G(GeometryType(id, m), store), pts, den, w);
  else put(tr, e, G(Dune::ReferenceElements<ct, m>::general(GeometryType(id, m)), store), pts, den, w);
}

template<class Traits, class ct, int m, int c, bool array = false>
void multilinear(Trace& tr, const rec::Options& o, int reps, const std::vector<unsigned>& only = {})
{
  Rng rng(o.seed * 7919 + m * 100 + c * 10 + sizeof(ct));
  const int den = m >= 4 ? 2 : 4;
  const int np = m == 0 ? 0 : m == 4 ? 3 : 5;
  if (o.thorough) reps *= 4;
  auto rec1 = [&](unsigned id, const Points& C, int cden, const Points& P, What w, int variant, int fine = 1) {
    auto v = coords<ct, c>(C, cden);
    if constexpr (array) {
      std::array<Dune::FieldVector<ct, c>, (1 << m)> a;
      for (std::size_t k = 0; k < v.size(); ++k) a[k] = v[k];
      one<Traits, ct, m, c>(tr, id, C, cden, a, P, fine * den, w, variant);
    }
    else
      one<Traits, ct, m, c>(tr, id, C, cden, v, P, fine * den, w, variant);
  };
  for (unsigned id = 0; id < (1u << m); ++id) {
    if (!only.empty() && std::find(only.begin(), only.end(), id) == only.end()) continue;
    const Points ref = refCorners<m>(id);
    for (int r = 0; r < reps; ++r) {
      Ints org(c);
      for (int k = 0; k < c; ++k) org[k] = rng.in(-20, 20);
      // bent: a frame with every corner moved
      rec1(id, image<m, c>(ref, frame<m, c>(rng, 12, 1), org, 1, rng), 1, points<m>(id, den, np, rng, false), {}, r);
      // affine: also at degenerate points
      rec1(id, image<m, c>(ref, frame<m, c>(rng, 5, m >= 3 ? 1 : 2), org, 0, rng), 1, points<m>(id, den, np, rng, true), {}, r + 1);
      // affine but for one corner that is off by 1/64 or much less
      if (r % 2 == 0) {
        const int off = std::is_same_v<ct, double> ? 64 << (r % 4 * 7) : 64;
        Points C = image<m, c>(ref, frame<m, c>(rng, 6 * off, 1), org, 0, rng);
        C[rng.in(0, int(C.size()) - 1)][rng.in(0, c - 1)] += rng.in(0, 1) ? 1 : -1;
        rec1(id, C, off, Points{}, What{false, false, false, false, false}, r);
      }
      // any corners at all: only the map, its derivative and, if it cannot lose digits, its determinant
      const bool det = m == c && m <= 3 && m > 1 && std::is_same_v<ct, double>;
      Points C(ref.size(), Ints(c));
      for (auto& x : C) for (auto& v : x) v = rng.in(-3, 3);
      rec1(id, C, 1, points<m>(id, den, np, rng, false), What{true, det, false, false, det}, r);
      // the map also has a value outside the element
      if (m > 0 && r % 2 == 0 && std::is_same_v<ct, double>) {
        Points out;
        for (int k = 0; k < np; ++k) {
          Ints x(m);
          for (auto& v : x) do v = rng.in(-den / 2, den + den / 2); while (id > 1 && v == den);
          if (id <= 1 || regular(id, x, den)) out.push_back(x);
        }
        rec1(id, C, 1, out, What{true, false, false, false, false}, r);
      }
      // very close to the tips of cones
      if (m > 1 && m < 4 && r % 2 == 1 && std::is_same_v<ct, double>) {
        Points near;
        const Points some = points<m>(id, den, 2 * np, rng, false);
        for (auto& t : ref) {
          if (regular(id, t, 1)) continue;
          for (int k = 0; k < np; ++k) {
            Ints x = some[rng.in(0, int(some.size()) - 1)];
            for (int d = 0; d < m; ++d) x[d] += 1023 * den * t[d];
            if (regular(id, x, 1024 * den)) near.push_back(x);
          }
        }
        if (!near.empty()) rec1(id, C, 1, near, What{true, false, false, false, false}, r, 1024);
      }
    }
  }
}

void mlPart1(Trace&, const rec::Options&);
void mlPart2(Trace&, const rec::Options&);
void mlPart3(Trace&, const rec::Options&);
void mlPart4(Trace&, const rec::Options&);
} // namespace geo

// Affine geometries (C09) and axis-aligned boxes (C10).
#include <config.h>
#include <bitset>
#include <dune/geometry/affinegeometry.hh>
#include <dune/geometry/axisalignedcubegeometry.hh>
#include "geo.hh"

using namespace geo;

template<class ct, int m, int c>
void affine(Trace& tr, const rec::Options& o, int reps)
{
  using G = Dune::AffineGeometry<ct, m, c>;
  Rng rng(o.seed * 104729 + m * 100 + c * 10 + sizeof(ct));
  if (o.thorough) reps *= 5;
  const int den = m >= 4 ? 2 : 4;
  for (unsigned id = 0; id < (1u << m); ++id)
    for (int r = 0; r < reps; ++r) {
      Ints org(c);
      for (auto& v : org) v = rng.in(-40, 40);
      const Points A = frame<m, c>(rng, 5, m >= 3 ? 1 : 2);
      const int cden = r % 3 == 0 ? 1 : r % 3 == 1 ? 2 : 8;
      const auto origin = point<c, ct>(org, cden);
      Dune::FieldMatrix<ct, m, c> jt;
      for (int i = 0; i < m; ++i)
        for (int k = 0; k < c; ++k) jt[i][k] = ct(A[i][k]) / ct(cden);
      const auto ref = Dune::ReferenceElements<ct, m>::general(GeometryType(id, m));
      Points pts = points<m>(id, den, 2, rng, true);
      for (auto& p : anywhere<m>(den, 2, rng)) pts.push_back(p);
      auto ev = [&](const char* how) {
        Event e("geo");
        e.str("kind", "aff").str("how", how).i("id", id).ints("origin", org).raw("rows", intsOf(A)).i("cden", cden);
        return e;
      };
      switch (r % 4) {
      case 0: put(tr, ev("type,origin,jacobian"), G(GeometryType(id, m), origin, jt), pts, den); break;
      case 1: put(tr, ev("element,origin,jacobian"), G(ref, origin, jt), pts, den); break;
      case 2: { G a(GeometryType(id, m), origin, jt); G b(a); put(tr, ev("copy"), b, pts, den); break; }
      case 3: { G a(ref, origin, jt); G b; b = a; put(tr, ev("assigned"), b, pts, den); break; }
      }
      if ((id | 1) == 1) {                      // simplex
        std::vector<Dune::FieldVector<ct, c>> corners(1, origin);
        for (int i = 0; i < m; ++i) { corners.push_back(origin); corners.back() += jt[i]; }
        if (r % 2) put(tr, ev("type,corners"), G(GeometryType(id, m), corners), pts, den);
        else {
          std::array<Dune::FieldVector<ct, c>, m + 1> arr;
          for (int i = 0; i <= m; ++i) arr[i] = corners[i];
          put(tr, ev("element,corners"), G(ref, arr), pts, den);
        }
      }
    }
}

template<class ct, int m, int c>
void box(Trace& tr, const rec::Options& o, int reps)
{
  using G = Dune::AxisAlignedCubeGeometry<ct, m, c>;
  Rng rng(o.seed * 1299709 + m * 100 + c * 10 + sizeof(ct));
  if (o.thorough) reps *= 5;
  const int den = 4;
  for (unsigned long mask = 0; mask < (1ul << c); ++mask) {
    std::bitset<c> axes(mask);
    if (int(axes.count()) != m) continue;
    Ints ax;
    for (int i = 0; i < c; ++i) if (axes[i]) ax.push_back(i);
    for (int r = 0; r < reps; ++r) {
      Ints lo(c), up(c);
      for (int i = 0; i < c; ++i) { lo[i] = rng.in(-40, 40); up[i] = lo[i] + rng.in(1, 30); }
      const int cden = r % 2 ? 4 : 1;
      const auto l = point<c, ct>(lo, cden), u = point<c, ct>(up, cden);
      Points pts = points<m>((1u << m) - 1, den, 2, rng, true);
      if (m > 0) for (auto& p : anywhere<m>(den, 2, rng)) pts.push_back(p);
      auto ev = [&](const char* how) {
        Event e("geo");
        e.str("kind", "box").str("how", how).ints("lower", lo).ints("upper", up).ints("axes", ax).i("cden", cden);
        return e;
      };
      G a(l, u, axes);
      put(tr, ev("axes"), a, pts, den);
      G b(a);
      put(tr, ev("copy"), b, pts, den);
      G d;
      d = a;
      put(tr, ev("assigned"), d, pts, den);
      // an object that was something else before
      auto l2 = l, u2 = u;
      for (int i = 0; i < c; ++i) { l2[i] -= 3; u2[i] += 5; }
      std::bitset<c> other;
      for (int i = 0; i < m; ++i) other[c - 1 - i] = true;
      G f(l2, u2, other);
      f = a;
      put(tr, ev("reassigned"), f, pts, den);
      if constexpr (m == c) put(tr, ev("corners"), G(l, u), pts, den);
      if constexpr (m == 0) put(tr, ev("point"), G(l), pts, den);
    }
  }
}

int main(int argc, char** argv)
{
  rec::Options o = rec::options(argc, argv);
  const std::string part = argc > 4 ? argv[4] : "";
  Trace tr(o.out + "/trace.ndjson");
  if (part == "C09") {
    affine<double, 0, 1>(tr, o, 4); affine<double, 0, 2>(tr, o, 4); affine<double, 0, 3>(tr, o, 4);
    affine<double, 1, 1>(tr, o, 12); affine<double, 1, 2>(tr, o, 12); affine<double, 1, 3>(tr, o, 12);
    affine<double, 2, 2>(tr, o, 16); affine<double, 2, 3>(tr, o, 16); affine<double, 2, 4>(tr, o, 8);
    affine<double, 3, 3>(tr, o, 12); affine<double, 3, 4>(tr, o, 8); affine<double, 4, 4>(tr, o, 4);
    affine<double, 1, 4>(tr, o, 4); affine<double, 1, 5>(tr, o, 4); affine<double, 2, 5>(tr, o, 4);
    affine<double, 3, 5>(tr, o, 4); affine<double, 4, 5>(tr, o, 3);
    affine<float, 1, 2>(tr, o, 4); affine<float, 2, 2>(tr, o, 4); affine<float, 3, 3>(tr, o, 4);
  }
  else if (part == "C10") {
    box<double, 0, 1>(tr, o, 3); box<double, 0, 3>(tr, o, 3);
    box<double, 1, 1>(tr, o, 6); box<double, 1, 2>(tr, o, 6); box<double, 1, 3>(tr, o, 6);
    box<double, 2, 2>(tr, o, 6); box<double, 2, 3>(tr, o, 6); box<double, 2, 4>(tr, o, 4);
    box<double, 3, 3>(tr, o, 6); box<double, 3, 4>(tr, o, 4); box<double, 4, 4>(tr, o, 3); box<double, 1, 4>(tr, o, 3);
    box<double, 0, 2>(tr, o, 3); box<double, 0, 5>(tr, o, 2); box<double, 1, 5>(tr, o, 3); box<double, 2, 5>(tr, o, 3);
    box<double, 3, 5>(tr, o, 3); box<double, 4, 5>(tr, o, 2);
    box<float, 1, 2>(tr, o, 3); box<float, 2, 2>(tr, o, 3); box<float, 2, 3>(tr, o, 3);
  }
  else
    return 3;
  return 0;
}

// Inversion of geometries (C12): what local() answers for images of points, and for points that have no preimage.
#include <config.h>
#include <dune/common/exceptions.hh>
#include <dune/geometry/affinegeometry.hh>
#include <dune/geometry/axisalignedcubegeometry.hh>
#include <dune/geometry/localfiniteelementgeometry.hh>
#include <dune/geometry/mappedgeometry.hh>
#include <dune/geometry/multilineargeometry.hh>
#include <dune/geometry/utility/algorithms.hh>
#include "geo.hh"
#include "geo_poly.hh"

using namespace geo;

// x: the point whose image is asked for (must be found), or empty
template<class Geo, class Y>
void ask(Trace& tr, const char* kind, const Geo& g, const Y& y, const Ints& x, int den, bool must)
{
  using ct = typename Geo::ctype;
  constexpr int m = Geo::mydimension, c = Geo::coorddimension;
  Event e("inv");
  e.str("kind", kind).str("ct", ctName<ct>()).i("m", m).i("c", c).b("must", must).ints("x", x).i("den", den).nums("y", y, c);
  try {
    const auto l = g.local(y);
    bool flag = false;
    for (int k = 0; k < m; ++k) if (l[k] == std::numeric_limits<ct>::max()) flag = true;
    if (flag) e.str("out", "error").raw("loc", "[]").raw("back", "[]");
    else e.str("out", "value").nums("loc", l, m).nums("back", g.global(l), c);
  }
  catch (const Dune::Exception&) { e.str("out", "error").raw("loc", "[]").raw("back", "[]"); }
  tr.put(e);
}

template<class Geo>
void images(Trace& tr, const char* kind, const Geo& g, const Points& pts, int den)
{
  for (auto& p : pts)
    ask(tr, kind, g, g.global(point<Geo::mydimension, typename Geo::ctype>(p, den)), p, den, true);
}

template<int m>
Points inner(unsigned id, int den, int n, Rng& rng)
{
  Points p = points<m>(id, den, n, rng, true);
  // and the centre, where iterations start: over a common denominator if it has one
  return p;
}

template<class ct, int m, int c>
void elements(Trace& tr, const rec::Options& o, int reps)
{
  Rng rng(o.seed * 49979687 + m * 1000 + c * 100 + sizeof(ct));
  if (o.thorough) reps *= 4;
  for (unsigned id = 0; id < (1u << m); ++id)
    for (int r = 0; r < reps; ++r) {
      const GeometryType gt(id, m);
      const auto ref = Dune::ReferenceElements<ct, m>::general(gt);
      Ints org(c);
      for (auto& v : org) v = rng.in(-20, 20);
      const bool bent = r % 2 == 0;
      const Points A = frame<m, c>(rng, bent ? 12 : 5, 1);
      std::vector<Dune::FieldVector<ct, c>> v;
      for (auto& x : image<m, c>(refCorners<m>(id), A, org, bent ? 1 : 0, rng)) v.push_back(point<c, ct>(x, 1));
      const Points pts = inner<m>(id, 12, 6, rng);
      Dune::MultiLinearGeometry<ct, m, c> ml(gt, v);
      Dune::CachedMultiLinearGeometry<ct, m, c> ca(gt, v);
      images(tr, "multilinear", ml, pts, 12);
      images(tr, "cached", ca, pts, 12);
      (void) ca.jacobianInverseTransposed(ref.position(0, 0));
      images(tr, "cached", ca, pts, 12);
      // the centre
      ask(tr, "multilinear centre", ml, ml.center(), Ints(), 1, true);
      ask(tr, "cached centre", ca, ca.center(), Ints(), 1, true);
      if (!bent) {
        Dune::FieldMatrix<ct, m, c> jt;
        for (int i = 0; i < m; ++i) for (int k = 0; k < c; ++k) jt[i][k] = A[i][k];
        Dune::AffineGeometry<ct, m, c> af(gt, point<c, ct>(org, 1), jt);
        images(tr, "affine", af, pts, 12);
        ask(tr, "affine centre", af, af.center(), Ints(), 1, true);
      }
      // a mapped geometry over the small version
      {
        std::vector<Dune::FieldVector<ct, c>> s;
        bool pyramidal = false;
        for (int d = 1; d < m; ++d) if (!((id >> d) & 1) && (id & ~1u & ((1u << d) - 1))) pyramidal = true;
        Ints o2(c);
        for (auto& w : o2) w = rng.in(-4, 4);
        for (auto& x : image<m, c>(refCorners<m>(id), frame<m, c>(rng, 6, 0), o2, pyramidal ? 0 : 1, rng)) s.push_back(point<c, ct>(x, 8));
        using In = Dune::MultiLinearGeometry<ct, m, c>;
        Dune::MappedGeometry<PolyMap<ct, c, c>, In> mg(randomMap<ct, c, c>(rng, 2), In(gt, s));
        images(tr, "mapped", mg, pts, 12);
        ask(tr, "mapped centre", mg, mg.center(), Ints(), 1, true);
        // far away and beside the element: an answer must map back, otherwise an error
        for (int k = 0; k < 4; ++k) {
          auto y = mg.center();
          for (int i = 0; i < c; ++i) y[i] += rng.in(-300, 300);
          ask(tr, "mapped outside", mg, y, Ints(), 1, false);
        }
      }
    }
}

template<class ct, int m>
void boxes(Trace& tr, const rec::Options& o)
{
  Rng rng(o.seed * 86028121 + m);
  for (int r = 0; r < 4; ++r) {
    Dune::FieldVector<ct, m> lo, up;
    for (int i = 0; i < m; ++i) { lo[i] = rng.in(-9, 9); up[i] = lo[i] + rng.in(1, 9); }
    Dune::AxisAlignedCubeGeometry<ct, m, m> b(lo, up);
    images(tr, "box", b, points<m>((1u << m) - 1, 12, 5, rng, true), 12);
  }
}

template<class LFE, int c>
void finite(Trace& tr, const rec::Options& o, const LFE& fe, int reps)
{
  using ct = typename LFE::ct;
  constexpr int m = LFE::dim;
  Rng rng(o.seed * 122949823 + m * 1000 + c * 100 + fe.ord);
  if (o.thorough) reps *= 4;
  for (int r = 0; r < reps; ++r) {
    Ints org(c);
    for (auto& v : org) v = rng.in(-20, 20);
    std::vector<Dune::FieldVector<ct, c>> v;
    for (auto& x : image<m, c>(fe.nodes2, frame<m, c>(rng, 10, 1), org, r % 2, rng)) v.push_back(point<c, ct>(x, 1));
    Dune::LocalFiniteElementGeometry<LFE, c> g(GeometryType(fe.id, m), fe, v);
    images(tr, "finite element", g, points<m>(fe.id, 12, 6, rng, true), 12);
    ask(tr, "finite element centre", g, g.center(), Ints(), 1, true);
    for (int k = 0; k < 4; ++k) {
      auto y = g.center();
      for (int i = 0; i < c; ++i) y[i] += rng.in(-300, 300);
      ask(tr, "finite element outside", g, y, Ints(), 1, false);
    }
  }
}

// maps that cannot be inverted everywhere: any small polynomials, any targets
template<class ct, int m, int c>
void hard(Trace& tr, const rec::Options& o, int reps)
{
  Rng rng(o.seed * 141650939 + m * 10 + c);
  if (o.thorough) reps *= 4;
  for (int r = 0; r < reps; ++r) {
    PolyMap<ct, m, c> map;
    map.p.resize(c);
    for (int k = 0; k < c; ++k) {
      map.p[k].push_back({rng.in(-3, 3), Ints(m, 0)});
      for (int i = 0; i < m; ++i) {
        Ints e(m, 0);
        e[i] = 1;
        map.p[k].push_back({rng.in(-3, 3), e});
        for (int j = 0; j <= i; ++j) { Ints f = e; f[j] += 1; map.p[k].push_back({rng.in(-3, 3), f}); }
      }
    }
    using In = Dune::AffineGeometry<ct, m, m>;
    Dune::FieldMatrix<ct, m, m> one(0);
    for (int i = 0; i < m; ++i) one[i][i] = 1;
    const GeometryType gt(r % 2 ? (1u << m) - 1 : 0u, m);
    Dune::MappedGeometry<PolyMap<ct, m, c>, In> g(map, In(gt, Dune::FieldVector<ct, m>(0), one));
    for (int k = 0; k < 3; ++k) {
      Dune::FieldVector<ct, c> y;
      for (int i = 0; i < c; ++i) y[i] = rng.in(-6, 6);
      ask(tr, "any map", g, y, Ints(), 1, false);
      Ints x(m);
      for (auto& v : x) v = rng.in(0, 4);
      ask(tr, "any map, image", g, g.global(point<m, ct>(x, 4)), Ints(), 1, false);
    }
    // the iteration itself
    auto df = derivative(map);
    for (int k = 0; k < 3; ++k) {
      Dune::FieldVector<ct, c> y;
      for (int i = 0; i < c; ++i) y[i] = rng.in(-6, 6);
      Dune::FieldVector<ct, m> x;
      for (int i = 0; i < m; ++i) x[i] = rng.in(-2, 2);
      Dune::Impl::GaussNewtonOptions<ct> opts;
      if (k == 1) opts.maxIt = rng.in(0, 4);
      if (k == 2) opts.maxInnerIt = rng.in(1, 3);
      const auto err = Dune::Impl::gaussNewton(map, [&](const Dune::FieldVector<ct, m>& z) { return df(z).transposed(); }, y, x, opts);
      Event e("inv");
      e.str("kind", "iteration").str("ct", ctName<ct>()).i("m", m).i("c", c).b("must", false).ints("x", Ints()).i("den", 1).nums("y", y, c);
      const bool ok = err == Dune::Impl::GaussNewtonErrorCode::OK;
      e.str("out", ok ? "value" : "error").nums("loc", x, m).nums("back", map(x), c);
      tr.put(e);
    }
  }
}

// elements without any extent in one direction
template<class ct, int m, int c>
void flat(Trace& tr, const rec::Options& o)
{
  Rng rng(o.seed * 160481183 + m * 10 + c);
  for (unsigned id = 0; id < (1u << m); ++id)
    for (int dir = 0; dir < m; ++dir) {
      const GeometryType gt(id, m);
      Ints org(c);
      for (auto& v : org) v = rng.in(-5, 5);
      Points A = frame<m, c>(rng, 5, 0);
      for (auto& v : A[dir]) v = 0;
      std::vector<Dune::FieldVector<ct, c>> v;
      for (auto& x : image<m, c>(refCorners<m>(id), A, org, 0, rng)) v.push_back(point<c, ct>(x, 1));
      for (int k = 0; k < 3; ++k) {
        Dune::FieldVector<ct, c> y;
        for (int i = 0; i < c; ++i) y[i] = rng.in(-9, 9);
        ask(tr, "flat multilinear", Dune::MultiLinearGeometry<ct, m, c>(gt, v), y, Ints(), 1, false);
        ask(tr, "flat cached", Dune::CachedMultiLinearGeometry<ct, m, c>(gt, v), y, Ints(), 1, false);
      }
    }
}

// strongly distorted cubes: the volume element varies by up to the given ratio
template<int m>
void distorted(Trace& tr, const rec::Options& o, int reps, double ratio)
{
  Rng rng(o.seed * 179424673 + m);
  if (o.thorough) reps *= 4;
  constexpr int n = 1 << m;
  for (int done = 0; done < reps; ) {
    std::vector<Dune::FieldVector<double, m>> v(n);
    for (int i = 0; i < n; ++i) for (int k = 0; k < m; ++k) v[i][k] = 12 * ((i >> k) & 1) + rng.in(-6, 6);
    double lo = 1e9, hi = -1e9;
    int grid = 1;
    for (int k = 0; k < m; ++k) grid *= 3;
    for (int q = 0; q < grid; ++q) {
      double x[m];
      for (int k = 0, r = q; k < m; ++k, r /= 3) x[k] = (r % 3) / 2.0;
      Dune::FieldMatrix<double, m, m> J(0);
      for (int i = 0; i < n; ++i)
        for (int k = 0; k < m; ++k) {
          double w = (i >> k) & 1 ? 1 : -1;
          for (int a = 0; a < m; ++a) if (a != k) w *= (i >> a) & 1 ? x[a] : 1 - x[a];
          J[k].axpy(w, v[i]);
        }
      const double det = J.determinant();
      lo = std::min(lo, det);
      hi = std::max(hi, det);
    }
    if (lo <= 0 || lo * ratio < hi) continue;
    ++done;
    const GeometryType gt(n - 1, m);
    const Points pts = inner<m>(n - 1, 12, 8, rng);
    images(tr, "distorted multilinear", Dune::MultiLinearGeometry<double, m, m>(gt, v), pts, 12);
    images(tr, "distorted cached", Dune::CachedMultiLinearGeometry<double, m, m>(gt, v), pts, 12);
  }
}

int main(int argc, char** argv)
{
  rec::Options o = rec::options(argc, argv);
  Trace tr(o.out + "/trace.ndjson");
  elements<double, 1, 1>(tr, o, 4);
  elements<double, 1, 2>(tr, o, 4);
  elements<double, 2, 2>(tr, o, 6);
  elements<double, 2, 3>(tr, o, 4);
  elements<double, 3, 3>(tr, o, 4);
  elements<float, 2, 2>(tr, o, 2);
  boxes<double, 1>(tr, o); boxes<double, 2>(tr, o); boxes<double, 3>(tr, o);
  finite<PolyFE<double, 1>, 1>(tr, o, simplexFE<double, 1>(2), 6);
  finite<PolyFE<double, 2>, 2>(tr, o, simplexFE<double, 2>(2), 6);
  finite<PolyFE<double, 2>, 2>(tr, o, cubeFE<double, 2>(1), 6);
  finite<PolyFE<double, 2>, 3>(tr, o, cubeFE<double, 2>(2), 6);
  finite<PolyFE<double, 3>, 3>(tr, o, cubeFE<double, 3>(1), 4);
  finite<PolyFE<double, 3>, 3>(tr, o, prismFE<double>(), 4);
  hard<double, 1, 1>(tr, o, 60);
  hard<double, 1, 2>(tr, o, 30);
  hard<double, 2, 2>(tr, o, 60);
  hard<double, 2, 3>(tr, o, 30);
  hard<double, 3, 3>(tr, o, 30);
  distorted<2>(tr, o, 60, 64);
  distorted<3>(tr, o, 40, 3);
  flat<double, 1, 1>(tr, o); flat<double, 2, 2>(tr, o); flat<double, 2, 3>(tr, o); flat<double, 3, 3>(tr, o);
  return 0;
}

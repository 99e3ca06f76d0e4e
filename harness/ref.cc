// Records the answers of reference elements: numbering (C03), geometry (C04), inside test (C05).
#include <config.h>
#include <set>
#include <dune/geometry/referenceelements.hh>
#include <dune/geometry/type.hh>
#include "rec.hh"

using Dune::GeometryType;
using namespace rec;

static std::string typeOf(const GeometryType& t)
{
  return "[" + integer(t.dim()) + "," + integer(t.id()) + "," + boolean(t.isNone()) + "]";
}

template<class ct, int dim>
void numbering(Trace& tr, unsigned id, const char* cts)
{
  const auto ref = Dune::ReferenceElements<ct, dim>::general(GeometryType(id, dim));
  std::vector<int> sizes;
  for (int c = 0; c <= dim; ++c) sizes.push_back(ref.size(c));
  tr.put(Event("topo").str("ct", cts).i("dim", dim).i("id", id).ints("size", sizes).raw("type", typeOf(ref.type())));
  for (int c = 0; c <= dim; ++c)
    for (int i = 0; i < ref.size(c); ++i) {
      tr.put(Event("type").str("ct", cts).i("dim", dim).i("id", id).i("c", c).i("i", i).raw("type", typeOf(ref.type(i, c))));
      for (int cc = 0; cc <= dim; ++cc) {
        std::vector<int> idx, range;
        int n = ref.size(i, c, cc);
        if (cc >= c)
          for (int ii = 0; ii < n && ii < 4096; ++ii) idx.push_back(ref.subEntity(i, c, ii, cc));
        auto r = ref.subEntities(i, c, cc);
        for (auto k : r) range.push_back(int(k));
        std::vector<std::string> contains;
        if (cc >= c)
          for (int k = 0; k < ref.size(cc); ++k) contains.push_back(boolean(r.contains(k)));
        tr.put(Event("sub").str("ct", cts).i("dim", dim).i("id", id).i("c", c).i("i", i).i("cc", cc)
               .i("n", n).ints("idx", idx).ints("range", range).i("rsize", r.size()).raw("contains", list(contains)));
      }
    }
}

template<class ct, int dim>
void geometry(Trace& tr, unsigned id, const char* cts)
{
  const auto ref = Dune::ReferenceElements<ct, dim>::general(GeometryType(id, dim));
  tr.put(Event("vol").str("ct", cts).i("dim", dim).i("id", id).x("v", ref.volume()));
  for (int c = 0; c <= dim; ++c)
    for (int i = 0; i < ref.size(c); ++i) {
      auto p = ref.position(i, c);
      tr.put(Event("pos").str("ct", cts).i("dim", dim).i("id", id).i("c", c).i("i", i).nums("x", p, dim));
    }
  if constexpr (dim > 0)
    for (int f = 0; f < ref.size(1); ++f)
      tr.put(Event("normal").str("ct", cts).i("dim", dim).i("id", id).i("f", f).nums("n", ref.integrationOuterNormal(f), dim));
}

template<class ct, int dim>
void embeddings(Trace& tr, unsigned id, const char* cts)
{
  const auto ref = Dune::ReferenceElements<ct, dim>::general(GeometryType(id, dim));
  rec::forEachStatic(std::make_index_sequence<dim + 1>{}, [&](auto cc) {
    constexpr int codim = int(decltype(cc)::value);
    for (int i = 0; i < ref.size(codim); ++i) {
      auto geo = ref.template geometry<codim>(i);
      std::vector<std::string> corners;
      for (int k = 0; k < geo.corners(); ++k) corners.push_back(rec::nums(geo.corner(k), dim));
      auto jt = geo.jacobianTransposed(typename decltype(geo)::LocalCoordinate(0));
      tr.put(Event("emb").str("ct", cts).i("dim", dim).i("id", id).i("c", codim).i("i", i)
             .raw("type", typeOf(geo.type())).raw("corners", list(corners))
             .nums("origin", geo.global(typename decltype(geo)::LocalCoordinate(0)), dim)
             .mat("jt", jt, dim - codim, dim));
    }
  });
}

template<class ct, int dim>
void insidePoints(Trace& tr, unsigned id, const char* cts, int m, const std::vector<std::vector<int>>& pts)
{
  const auto ref = Dune::ReferenceElements<ct, dim>::general(GeometryType(id, dim));
  // batches, so that one event stays small
  for (std::size_t b = 0; b < pts.size(); b += 100) {
    std::vector<std::string> ps, rs;
    for (std::size_t k = b; k < pts.size() && k < b + 100; ++k) {
      typename decltype(ref)::Coordinate x;
      for (int d = 0; d < dim; ++d) x[d] = ct(pts[k][d]) / ct(m);
      ps.push_back(rec::ints(pts[k]));
      rs.push_back(boolean(ref.checkInside(x)));
    }
    tr.put(Event("inside").str("ct", cts).i("dim", dim).i("id", id).i("m", m).raw("pts", list(ps)).raw("res", list(rs)));
  }
}

template<int dim>
std::vector<std::vector<int>> grid(int lo, int hi)
{
  std::vector<std::vector<int>> r;
  std::vector<int> x(dim, lo);
  while (true) {
    r.push_back(x);
    int d = 0;
    while (d < dim && ++x[d] > hi) { x[d] = lo; ++d; }
    if (d == dim) return r;
  }
}

template<class ct, int dim>
void inside(Trace& tr, const Options& o, unsigned id, const char* cts, bool isFloat)
{
  if constexpr (dim == 0)
    insidePoints<ct, 0>(tr, id, cts, 1, {{}});
  else {
    insidePoints<ct, dim>(tr, id, cts, 1, grid<dim>(-1, dim < 5 ? 2 : 1));
    const int m = dim == 1 ? 40 : dim == 2 ? 12 : dim == 3 ? (o.thorough ? 10 : 6) : (o.thorough && dim < 5 ? 6 : 3);
    if (dim < 5) insidePoints<ct, dim>(tr, id, cts, m, grid<dim>(-1, m + 1));
    // random points close to faces: combinations of corners with one weight slightly off
    Rng rng(o.seed * 977 + dim * 131 + id);
    const int fine[3] = {30, 1000, isFloat ? 50000 : 100000000};
    const auto ref = Dune::ReferenceElements<ct, dim>::general(GeometryType(id, dim));
    for (int M : fine) {
      std::vector<std::vector<int>> pts;
      for (int k = 0; k < (o.thorough ? 600 : 150); ++k) {
        // random integer convex combination of a few corners, scaled to denominator M
        std::vector<int> x(dim, 0);
        int left = M;
        int n = rng.in(1, dim + 1);
        for (int j = 0; j < n; ++j) {
          int w = j + 1 == n ? left : rng.in(0, left);
          left -= w;
          auto c = ref.position(rng.in(0, ref.size(dim) - 1), dim);
          for (int d = 0; d < dim; ++d) x[d] += w * int(std::lround(double(c[d])));
        }
        pts.push_back(x);
        // one step off in one direction
        int d = rng.in(0, dim - 1);
        x[d] += rng.in(0, 1) ? 1 : -1;
        pts.push_back(x);
      }
      insidePoints<ct, dim>(tr, id, cts, M, pts);
    }
    // far away, in some directions only
    std::vector<std::vector<int>> away;
    for (int k = 0; k < 40; ++k) {
      std::vector<int> x(dim);
      for (auto& y : x) y = rng.in(0, 2) ? rng.in(0, 2) : rng.in(-1, 1) * rng.in(1, 1000000);
      away.push_back(x);
    }
    insidePoints<ct, dim>(tr, id, cts, 2, away);
  }
}

int main(int argc, char** argv)
{
  Options o = options(argc, argv);
  const std::string part = argc > 4 ? argv[4] : "";
  Trace tr(o.out + "/trace.ndjson");
  if (part == "C03")
    rec::forEachStatic(std::make_index_sequence<6>{}, [&](auto d) {
      constexpr int dim = int(decltype(d)::value);
      for (unsigned id = 0; id < (1u << dim); ++id) {
        if (dim < 5 || o.thorough || (id & 1)) numbering<double, dim>(tr, id, "double");
        if constexpr (dim <= 3) numbering<float, dim>(tr, id, "float");
      }
    });
  if (part == "C03") {
    Rng rng(o.seed * 31 + 6);
    std::set<unsigned> ids{unsigned(rng.in(1, 31)) * 2, unsigned(rng.in(0, 31)) * 2 + 1};
    if (o.thorough) { ids.insert(1); ids.insert(63); while (ids.size() < 8) ids.insert(rng.in(0, 63)); }
    for (unsigned id : ids) numbering<double, 6>(tr, id, "double");
  }
  else if (part == "C04") {
    rec::forEachStatic(std::make_index_sequence<6>{}, [&](auto d) {
      constexpr int dim = int(decltype(d)::value);
      for (unsigned id = 0; id < (1u << dim); ++id) {
        geometry<double, dim>(tr, id, "double");
        if (dim < 5 || o.thorough || (id & 1)) embeddings<double, dim>(tr, id, "double");
        if constexpr (dim <= 4) {
          geometry<float, dim>(tr, id, "float");
        }
        if constexpr (dim <= 3) embeddings<float, dim>(tr, id, "float");
        if constexpr (dim <= 3) geometry<long double, dim>(tr, id, "long double");
      }
    });
  }
  else if (part == "C05")
    rec::forEachStatic(std::make_index_sequence<6>{}, [&](auto d) {
      constexpr int dim = int(decltype(d)::value);
      for (unsigned id = 0; id < (1u << dim); ++id) {
        inside<double, dim>(tr, o, id, "double", false);
        if constexpr (dim <= 4) inside<float, dim>(tr, o, id, "float", true);
        if constexpr (dim <= 3) inside<long double, dim>(tr, o, id, "long double", false);
      }
    });
  else
    return 3;
  return 0;
}
